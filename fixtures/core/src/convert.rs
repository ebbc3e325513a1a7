//! Going between owned and borrowed forms.

use crate::edit::on_heap;
use crate::element::{same, sizes};
use crate::ident::long_id;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef};
use rt::*;
use std::borrow::{Borrow, Cow};
use std::ops::{Deref, DerefMut};

/// Exactly the octets at `p`, not a copy.
fn there(b: &[u8], p: *const u8, n: usize) {
    require(b.len() == n && (n == 0 || b.as_ptr() == p), "the view is of the very octets of the owner");
}

/// The octets of a mutable view, whatever they mean.
fn raw<T: ?Sized + AsRef<[u8]>>(r: &mut T) -> &mut [u8] {
    let n = (*r).as_ref().len();
    unsafe { std::slice::from_raw_parts_mut((*r).as_ref().as_ptr() as *mut u8, n) }
}

/// Where to write.
fn place(n: usize, small: bool) -> usize {
    if small {
        [0, n / 2, n - 1][each(3)]
    } else {
        let i = any_usize();
        assume(i < n);
        i
    }
}

/// Octets of an identifier around the edge of inline storage, or far beyond.
fn some_id(small: bool) -> Vec<u8> {
    if !small {
        return long_id();
    }
    let n = 1 + each(25);
    let mut v = octets(n);
    if n == 1 {
        assume(v[0] & 0x1f != 0x1f);
        return v;
    }
    v[0] |= 0x1f;
    v[1] |= 0x81;
    let mut i = 2;
    while i < n {
        v[i] |= 0x80;
        i += 1;
    }
    v[n - 1] &= 0x7f;
    if n == 2 {
        v[1] |= 0x40;
    }
    v
}

fn some_contents(small: bool) -> Vec<u8> {
    octets(sizes(small))
}

fn some_der(small: bool) -> Vec<u8> {
    let n = sizes(small);
    on_heap(&[4], Some(n), n).0
}

/// Definite, or an octet string in one piece inside indefinite length.
fn some_ber(small: bool) -> Vec<u8> {
    if each(2) == 0 {
        return some_der(small);
    }
    let n = 4 + if small { each(22) } else { 100 };
    let mut v = octets(n + 2);
    v[0] = 0x24;
    v[1] = 0x80;
    v[2] = 4;
    v[3] = (n - 4) as u8;
    v[n] = 0;
    v[n + 1] = 0;
    v
}

fn lend_contents(v: &[u8]) -> &ContentsRef {
    v.into()
}

fn lend_id(v: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(v) }
}

fn lend_der(v: &[u8]) -> &DerRef {
    unsafe { DerRef::from_bytes_unchecked(v) }
}

fn lend_ber(v: &[u8]) -> &BerRef {
    unsafe { BerRef::from_bytes_unchecked(v) }
}

macro_rules! owner {
    ($($name:ident $any:ident $clone:ident $clone_any:ident $owned:ty, $borrowed:ty, $some:ident, $lend:ident, $bytewise:expr;)*) => { $(
        mod $name {
            use super::*;

            pub fn views(small: bool) {
                let v = $some(small);
                let n = v.len();
                let small = small || $bytewise;
                let lent: &$borrowed = $lend(&v);
                let b: &[u8] = lent.as_ref();
                there(b, v.as_ptr(), n);
                let mut o: $owned = <$owned>::from(lent);
                same(o.as_ref(), &v, small, "the owned form has the octets borrowed");
                let t: $owned = lent.to_owned();
                same(t.as_ref(), &v, small, "the owned form has the octets borrowed");
                let c: Cow<$borrowed> = Cow::Borrowed(lent);
                same(c.into_owned().as_ref(), &v, small, "the owned form has the octets borrowed");

                let p = { let b: &[u8] = o.as_ref(); b.as_ptr() };
                let r: &$borrowed = o.as_ref();
                there(r.as_ref(), p, n);
                let r: &$borrowed = o.borrow();
                there(r.as_ref(), p, n);
                let r: &$borrowed = o.deref();
                there(r.as_ref(), p, n);
                let r: &mut $borrowed = o.as_mut();
                there((*r).as_ref(), p, n);
                let r: &mut $borrowed = o.deref_mut();
                there((*r).as_ref(), p, n);
                same(o.as_ref(), &v, small, "looking changes nothing");
                cover("viewed");
            }

            pub fn copies(small: bool) {
                let v = $some(small);
                let n = v.len();
                let small = small || $bytewise;
                assume(n > 0);
                let mut o: $owned = <$owned>::from($lend(&v));
                let c = o.clone();
                same(c.as_ref(), &v, small, "a clone has the octets of the original");
                let i = place(n, small);
                let x = any_u8();
                let w: &mut $borrowed = o.as_mut();
                let w = raw(w);
                w[i] = x;
                same(c.as_ref(), &v, small, "changing the original leaves the clone alone");
                let b: &[u8] = o.as_ref();
                require(b.len() == n && b[i] == x, "the change is seen through the owner");
                let (mut d, e) = (c.clone(), c);
                drop(o);
                let w: &mut $borrowed = d.deref_mut();
                let w = raw(w);
                w[i] = x;
                same(e.as_ref(), &v, small, "changing the clone leaves the original alone");
                drop(d);
                same(e.as_ref(), &v, small, "dropping the clone leaves the original alone");
                cover("copied");
            }
        }

        pub fn $name() {
            $name::views(true);
        }

        pub fn $any() {
            $name::views(false);
        }

        pub fn $clone() {
            $name::copies(true);
        }

        pub fn $clone_any() {
            $name::copies(false);
        }
    )* };
}


owner! {
    c24_contents c24_contents_any_size c24_contents_clone c24_contents_clone_any_size
        Contents, ContentsRef, some_contents, lend_contents, false;
    c24_id c24_id_long c24_id_clone c24_id_clone_long
        Id, IdRef, some_id, lend_id, true;
    c24_der c24_der_any_size c24_der_clone c24_der_clone_any_size
        Der, DerRef, some_der, lend_der, false;
    c24_ber c24_ber_any_size c24_ber_clone c24_ber_clone_any_size
        Ber, BerRef, some_ber, lend_ber, false;
}

fn between(small: bool) {
    let v = some_der(small);
    let d = unsafe { DerRef::from_bytes_unchecked(&v) };
    let b = <&BerRef>::from(d);
    there(b.as_ref(), v.as_ptr(), v.len());
    let o = match each(5) {
        0 => Ber::from(d),
        1 => Ber::from(b),
        2 => Ber::from(Der::from(d)),
        3 => Ber::from(unsafe { Der::from_vec_unchecked(v.clone()) }),
        _ => unsafe { Ber::from_vec_unchecked(v.clone()) },
    };
    same(o.as_ref(), &v, small, "BER has the octets of the DER");
    same(&o.into_vec(), &v, small, "the vector has the octets of the element");
    let o = match each(3) {
        0 => Der::from(d),
        1 => unsafe { Der::from_vec_unchecked(v.clone()) },
        _ => unsafe { Der::from_bytes_unchecked(&v) },
    };
    same(&o.into_vec(), &v, small, "the vector has the octets of the element");
    cover("converted");
}

/// Clones of elements with spare room on the heap.
fn roomy(small: bool) {
    let v = some_der(small);
    let w = v.clone();
    if each(2) == 0 {
        let d = unsafe { Der::from_vec_unchecked(v) };
        let c = d.clone();
        drop(d);
        same(c.as_ref(), &w, small, "a clone has the octets of the original");
        same(&c.into_vec(), &w, small, "the vector has the octets of the element");
    } else {
        let d = unsafe { Ber::from_vec_unchecked(v) };
        let c = d.clone();
        drop(d);
        same(c.as_ref(), &w, small, "a clone has the octets of the original");
        same(&c.into_vec(), &w, small, "the vector has the octets of the element");
    }
    cover("cloned");
}

pub fn c24_roomy() {
    roomy(true);
}

pub fn c24_roomy_any_size() {
    roomy(false);
}

pub fn c24_between() {
    between(true);
}

pub fn c24_between_any_size() {
    between(false);
}

/// The two mutable views of contents: as octets and as contents.
fn written(small: bool) {
    let v = some_contents(small);
    let n = v.len();
    assume(n > 0);
    let mut o = match each(3) {
        0 => Contents::from(&v[..]),
        1 => Contents::from(v.clone()),
        _ => Contents::from(unsafe { String::from_utf8_unchecked(v.clone()) }),
    };
    let (i, x) = (place(n, small), any_u8());
    match each(4) {
        0 => {
            let m: &mut [u8] = o.as_mut();
            m[i] = x;
        }
        1 => {
            let m: &mut ContentsRef = o.as_mut();
            m[i] = x;
        }
        2 => o[i] = x,
        _ => {
            let m: &mut [u8] = o.deref_mut().as_mut();
            m[i] = x;
        }
    }
    let b: &[u8] = o.as_ref();
    require(b.len() == n && b[i] == x && o[i] == x, "what is written is read back");
    let j = any_usize();
    assume(j < n && j != i);
    require(b[j] == v[j], "no other octet changes");
    cover("written");
}

pub fn c24_written() {
    written(true);
}

pub fn c24_written_any_size() {
    written(false);
}
