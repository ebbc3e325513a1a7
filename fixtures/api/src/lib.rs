//! The crates whose signatures are judged, and examples of what has to be refused.

pub use bsn1;
pub use bsn1_serde;

/// Every item named `bad_*` (and every implementation here) breaks one rule, no other item does.
pub mod bad {
    use std::ops::{Deref, DerefMut};

    pub struct ContentsRef([u8]);
    pub struct IdRef([u8]);
    pub struct BerRef([u8]);
    pub struct DerRef([u8]);
    pub struct Id(Vec<u8>);
    pub struct Ber {
        pub buffer: Vec<u8>, // rule: fields
    }
    pub struct Der {
        buffer: Vec<u8>,
        _mark: std::marker::PhantomData<*const u8>, // rule: threads
    }

    impl DerRef {
        pub fn bad_forge(bytes: &[u8]) -> &Self {
            unsafe { std::mem::transmute(bytes) }
        }
        pub fn bad_convert(ber: &BerRef) -> &Self {
            unsafe { std::mem::transmute(ber) }
        }
        pub fn bad_unbound<'a>(this: &Self) -> &'a IdRef {
            unsafe { &*(&this.0[..1] as *const [u8] as *const IdRef) }
        }
        pub fn bad_static(&self) -> &'static ContentsRef {
            unsafe { &*(&self.0[1..] as *const [u8] as *const ContentsRef) }
        }
        pub fn bad_mutable(&self) -> &mut ContentsRef {
            unsafe { &mut *(&self.0[1..] as *const [u8] as *mut ContentsRef) }
        }
        pub fn bad_octets(&mut self) -> &mut [u8] {
            &mut self.0
        }
        pub fn bad_length(&mut self) -> *mut u8 {
            self.0.as_mut_ptr()
        }
        pub fn bad_skip_unchecked(&self) -> u8 {
            unsafe { *self.0.get_unchecked(0) }
        }
        /// The referred slice lives for 'a, but `bytes` can be used again after the call.
        pub fn bad_reborrow<'a>(bytes: &&'a mut [u8]) -> &'a ContentsRef {
            unsafe { &*(&bytes[..] as *const [u8] as *const ContentsRef) }
        }
        #[allow(mutable_transmutes)]
        fn bad_transmute(&self) {
            unsafe { std::mem::transmute::<&[u8], &mut [u8]>(&self.0)[0] = 0 }
        }
        fn bad_cast(&self) {
            unsafe { *self.0.as_ptr().cast_mut() = 0 }
        }
        fn bad_address(&self) {
            unsafe { *(self.0.as_ptr() as usize as *mut u8) = 0 }
        }
        pub fn contents(&self) -> &ContentsRef {
            unsafe { std::mem::transmute(&self.0[1..]) }
        }
        pub fn mut_contents(&mut self) -> &mut ContentsRef {
            unsafe { std::mem::transmute(&mut self.0[1..]) }
        }
        pub unsafe fn from_bytes_unchecked(bytes: &[u8]) -> &Self {
            std::mem::transmute(bytes)
        }
    }

    impl Default for Id {
        fn default() -> Self {
            Id(vec![])
        }
    }

    impl From<Vec<u8>> for Der {
        fn from(buffer: Vec<u8>) -> Self {
            Der { buffer, _mark: std::marker::PhantomData }
        }
    }

    impl Deref for IdRef {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            &self.0
        }
    }

    impl DerefMut for IdRef {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }

    impl AsRef<[u8]> for Der {
        fn as_ref(&self) -> &[u8] {
            &self.buffer
        }
    }

    impl std::io::Write for Ber {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.buffer.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
