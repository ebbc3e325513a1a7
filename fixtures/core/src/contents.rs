use crate::spec;
use bsn1::{Contents, ContentsRef};
use rt::*;

/// The shortest two's complement octets of the value whose low 128 bits are `v`, `neg` extends it.
fn minimal(b: &[u8], v: u128, neg: bool) {
    let fill = if neg { 0xffu8 } else { 0 };
    let mut o = [fill; 17];
    let mut i = 0;
    while i < 16 {
        o[16 - i] = (v >> (8 * i)) as u8;
        i += 1;
    }
    let mut s = 0;
    while s < 16 && o[s] == fill && (o[s + 1] >= 0x80) == neg {
        s += 1;
    }
    require(b.len() == 17 - s, "as few octets as possible");
    let mut i = s;
    while i < 17 {
        require(b[i - s] == o[i], "two's complement, big endian");
        i += 1;
    }
    cover("encoded");
}

/// What decoding as an integer type of `size` octets has to give.
fn expected(b: &[u8], size: usize, signed: bool) -> Result<u128, u32> {
    let n = b.len();
    if n == 0 {
        return Err(spec::UNTERMINATED);
    }
    let neg = b[0] >= 0x80;
    if n > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        let mut bad = spec::REDUNDANT;
        // such contents may be too long as well
        if n > size {
            bad |= spec::OVERFLOW;
        }
        return Err(bad);
    }
    if !signed && neg {
        return Err(spec::OVERFLOW);
    }
    if n > size && (signed || n > size + 1 || b[0] != 0) {
        return Err(spec::OVERFLOW);
    }
    let mut v = if neg { u128::MAX } else { 0 };
    let mut i = 0;
    while i < n {
        v = v << 8 | b[i] as u128;
        i += 1;
    }
    Ok(v)
}

macro_rules! integer {
    ($enc:ident, $dec:ident, $t:ident, $u:ident, $any:ident, $signed:expr) => {
        pub fn $enc() {
            let v = $any() as $t;
            #[allow(unused_comparisons)]
            let neg = v < 0;
            let c = Contents::from(v);
            minimal(c.as_ref(), v as i128 as u128, neg);
        }

        pub fn $dec() {
            const SIZE: usize = std::mem::size_of::<$t>();
            let n = each(SIZE + 3);
            let v = octets(n);
            let c = <&ContentsRef>::from(&v[..]);
            match (c.to_integer::<$t>(), expected(&v, SIZE, $signed)) {
                (Ok(x), Ok(y)) => {
                    require(x as $u == y as $u, "the value is the one encoded");
                    let z: $t = unsafe { c.to_integer_unchecked() };
                    require(z as $u == y as $u, "the unchecked value is the one encoded");
                    cover("decoded");
                }
                (Err(e), Err(w)) => {
                    require(spec::class(&e) & w != 0, "refused with the right error");
                    cover("refused");
                }
                (Ok(_), Err(_)) => require(false, "unfit contents are refused"),
                (Err(_), Ok(_)) => require(false, "fit contents are accepted"),
            }
        }
    };
}

integer!(c08_enc_u8, c08_dec_u8, u8, u8, any_u8, false);
integer!(c08_enc_u16, c08_dec_u16, u16, u16, any_u16, false);
integer!(c08_enc_u32, c08_dec_u32, u32, u32, any_u32, false);
integer!(c08_enc_u64, c08_dec_u64, u64, u64, any_u64, false);
integer!(c08_enc_u128, c08_dec_u128, u128, u128, any_u128, false);
integer!(c08_enc_usize, c08_dec_usize, usize, usize, any_usize, false);
integer!(c08_enc_i8, c08_dec_i8, i8, u8, any_u8, true);
integer!(c08_enc_i16, c08_dec_i16, i16, u16, any_u16, true);
integer!(c08_enc_i32, c08_dec_i32, i32, u32, any_u32, true);
integer!(c08_enc_i64, c08_dec_i64, i64, u64, any_u64, true);
integer!(c08_enc_i128, c08_dec_i128, i128, u128, any_u128, true);
integer!(c08_enc_isize, c08_dec_isize, isize, usize, any_usize, true);

pub fn c09_bool_write() {
    let v = any_bool();
    let c = Contents::from(v);
    let b: &[u8] = c.as_ref();
    require(b.len() == 1 && b[0] == if v { 0xff } else { 0 }, "a boolean is the octet 0x00 or 0xff");
    let c = <&ContentsRef>::from(v);
    let b: &[u8] = c.as_ref();
    require(b.len() == 1 && b[0] == if v { 0xff } else { 0 }, "a boolean is the octet 0x00 or 0xff");
    cover("written");
}

pub fn c09_bool_ber() {
    let n = any_usize();
    assume(n <= isize::MAX as usize);
    let v = octets(n);
    let c = <&ContentsRef>::from(&v[..]);
    match c.to_bool_ber() {
        Ok(x) => {
            require(n == 1, "exactly one octet");
            require(x == (v[0] != 0), "zero is false, the rest is true");
            cover("accepted");
        }
        Err(e) => {
            require(n != 1, "one octet is accepted");
            require(spec::class(&e) == if n == 0 { spec::UNTERMINATED } else { spec::EXTRA }, "refused with the right error");
            cover("refused");
        }
    }
}

pub fn c09_bool_der() {
    let n = any_usize();
    assume(n <= isize::MAX as usize);
    let v = octets(n);
    let c = <&ContentsRef>::from(&v[..]);
    match c.to_bool_der() {
        Ok(x) => {
            require(n == 1, "exactly one octet");
            require(v[0] == if x { 0xff } else { 0 }, "0x00 is false, 0xff is true");
            cover("accepted");
        }
        Err(e) => {
            if n == 1 {
                require(v[0] != 0 && v[0] != 0xff, "0x00 and 0xff are accepted");
                require(spec::class(&e) == spec::DER_BOOL, "refused with the right error");
            } else {
                require(spec::class(&e) == if n == 0 { spec::UNTERMINATED } else { spec::EXTRA }, "refused with the right error");
            }
            cover("refused");
        }
    }
}

fn any_size() -> usize {
    let n = any_usize();
    assume(n <= isize::MAX as usize);
    n
}

fn utf8(n: usize) -> String {
    // conversions look at the octets only, not at their meaning
    unsafe { String::from_utf8_unchecked(octets(n)) }
}

fn same(c: &[u8], b: &[u8], rule: &'static str) {
    require(c.len() == b.len() && c == b, rule);
}

pub fn c09_from_slice() {
    let v = octets(any_size());
    same(Contents::from(&v[..]).as_ref(), &v, "contents of a byte slice are the slice");
    let r = <&ContentsRef>::from(&v[..]);
    same(r.as_ref(), &v, "contents borrowed from a byte slice are the slice");
    require(r.len() == v.len() && r.is_empty() == (v.len() == 0), "the length is that of the slice");
    same(Contents::from(r).as_ref(), &v, "contents of borrowed contents are the same");
    same(r.to_owned().as_ref(), &v, "owned contents of borrowed contents are the same");
    cover("all");
}

pub fn c09_from_mut_slice() {
    let mut v = octets(any_size());
    let p = v.as_ptr();
    let n = v.len();
    let r = <&mut ContentsRef>::from(&mut v[..]);
    let b: &mut [u8] = r.as_mut();
    require(b.as_ptr() == p && b.len() == n, "mutably borrowed contents are the slice");
    cover("all");
}

pub fn c09_from_array() {
    let a = [any_u8(), any_u8(), any_u8()];
    same(Contents::from(&a).as_ref(), &a, "contents of an array are the array");
    same(<&ContentsRef>::from(&a).as_ref(), &a, "contents borrowed from an array are the array");
    let mut m = a;
    let p = m.as_ptr();
    let r = <&mut ContentsRef>::from(&mut m);
    let b: &mut [u8] = r.as_mut();
    require(b.as_ptr() == p && b.len() == 3, "mutably borrowed contents are the array");
    cover("all");
}

pub fn c09_from_vec() {
    let v = octets(any_size());
    let w = v.clone();
    same(Contents::from(v).as_ref(), &w, "contents of a vector are its octets");
    cover("all");
}

pub fn c09_from_string() {
    let s = utf8(any_size());
    same(Contents::from(&s[..]).as_ref(), s.as_bytes(), "contents of a string slice are its octets");
    same(<&ContentsRef>::from(&s[..]).as_ref(), s.as_bytes(), "contents borrowed from a string are its octets");
    let w = s.clone();
    same(Contents::from(s).as_ref(), w.as_bytes(), "contents of a string are its octets");
    cover("all");
}

pub fn c09_index() {
    let mut v = octets(4);
    let w = v.clone();
    let c = <&ContentsRef>::from(&v[..]);
    let i = each(3);
    require(c[i] == w[i] && &c[i..] == &w[i..] && &c[..i] == &w[..i], "indexing gives the octets");
    let m = <&mut ContentsRef>::from(&mut v[..]);
    let x = any_u8();
    m[i] = x;
    require(v[i] == x, "writing by index changes that octet");
    let mut j = 0;
    while j < 4 {
        require(j == i || v[j] == w[j], "writing by index changes no other octet");
        j += 1;
    }
    cover("all");
}
