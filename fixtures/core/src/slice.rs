use crate::spec;
use bsn1::{BerRef, DerRef, IdRef};
use rt::*;

const MAX: usize = 12;

/// Identifiers of up to five octets, any length octets, contents of any size.
pub fn c03_der_any_size() {
    let n = any_usize();
    assume(n >= 24 && n <= isize::MAX as usize);
    let v = octets(n);
    assume(spec::id(&v[..5]).is_ok());
    der(&v, n);
}

fn der(v: &[u8], n: usize) {
    let mut rest: &[u8] = v;
    let got = DerRef::parse(&mut rest);
    match (got, spec::tlv_der(v)) {
        (Ok(d), Ok(k)) => {
            let b: &[u8] = d.as_ref();
            require(b.len() == k && b.as_ptr() == v.as_ptr(), "the result is exactly the element");
            require(rest.len() == n - k, "the slice moves past the element");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n && rest.as_ptr() == v.as_ptr(), "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed element is accepted"),
    }
}

pub fn c03_der() {
    let n = each(MAX);
    let v = octets(n);
    der(&v, n);
}

pub fn c03_der_mut() {
    let n = each(MAX);
    let mut v = octets(n);
    let p = v.as_ptr();
    let want = spec::tlv_der(&v);
    let mut rest: &mut [u8] = &mut v;
    match (DerRef::parse_mut(&mut rest), want) {
        (Ok(d), Ok(k)) => {
            let b: &[u8] = (*d).as_ref();
            require(b.len() == k && b.as_ptr() == p, "the result is exactly the element");
            require(rest.len() == n - k && rest.as_ptr() == unsafe { p.add(k) }, "the slice moves past the element");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n && rest.as_ptr() == p, "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed element is accepted"),
    }
}

fn ber(v: &[u8], n: usize) {
    let mut rest: &[u8] = v;
    match (BerRef::parse(&mut rest), spec::tlv_ber(v)) {
        (Ok(d), Ok(k)) => {
            let b: &[u8] = d.as_ref();
            require(b.len() == k && b.as_ptr() == v.as_ptr(), "the result is exactly the element");
            require(rest.len() == n - k && rest.as_ptr() == unsafe { v.as_ptr().add(k) }, "the slice moves past the element");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n && rest.as_ptr() == v.as_ptr(), "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed element is accepted"),
    }
}

pub fn c03_ber() {
    let n = each(8);
    let v = octets(n);
    ber(&v, n);
}

/// Nothing but indefinite-length elements, end-of-contents and NULLs.
pub fn c03_ber_nested() {
    let n = each(6);
    let v = octets(2 * n);
    let mut i = 0;
    while i < n {
        let k = any_u8();
        assume(k < 3);
        assume(v[2 * i] == if k == 0 { 0x30 } else if k == 1 { 0 } else { 5 });
        assume(v[2 * i + 1] == if k == 0 { 0x80 } else { 0 });
        i += 1;
    }
    ber(&v, 2 * n);
}

pub fn c03_ber_mut() {
    ber_mut(octets(each(8)));
}

fn ber_mut(mut v: Vec<u8>) {
    let n = v.len();
    let p = v.as_ptr();
    let want = spec::tlv_ber(&v);
    let mut rest: &mut [u8] = &mut v;
    match (BerRef::parse_mut(&mut rest), want) {
        (Ok(d), Ok(k)) => {
            let b: &[u8] = (*d).as_ref();
            require(b.len() == k && b.as_ptr() == p, "the result is exactly the element");
            require(rest.len() == n - k && rest.as_ptr() == unsafe { p.add(k) }, "the slice moves past the element");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n && rest.as_ptr() == p, "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed element is accepted"),
    }
}

/// `n` elements inside each other, each of indefinite length; `cut` leaves out the last octets.
pub fn deep(n: usize, cut: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(4 * n + 2);
    let mut i = 0;
    while i < n {
        v.push(if i & 1 == 0 { 0x30 } else { 0xa1 });
        v.push(0x80);
        i += 1;
    }
    while v.len() < 4 * n - cut {
        v.push(0);
    }
    v
}

/// Numbers of levels around the limits of narrow counters.
pub fn levels() -> usize {
    match each(6) {
        0 => 20,
        1 => 64,
        2 => 127,
        3 => 128,
        4 => 255,
        _ => 257,
    }
}

pub fn c03_ber_deep() {
    let n = levels();
    let mut v = deep(n, each(3));
    if any_bool() {
        v.push(any_u8());
    }
    let n = v.len();
    ber(&v, n);
}

pub fn c03_ber_mut_deep() {
    let n = levels();
    let v = deep(n, each(3));
    ber_mut(v);
}

/// Many elements beside each other inside one of indefinite length.
pub fn c03_ber_wide() {
    let mut v = vec![0x30, 0x80];
    for _ in 0..300 {
        v.extend_from_slice(&[4, 1, any_u8()]);
    }
    v.extend_from_slice(&[0, 0, any_u8()]);
    let n = v.len();
    ber(&v, n);
}

/// One element of any identifier and definite length inside two of indefinite length.
pub fn enclosed() -> Vec<u8> {
    let mut v = vec![0x30, 0x80, 0x31, 0x80];
    match each(3) {
        0 => v.push(any_u8() & 0xfe),
        1 => v.extend_from_slice(&[0xbf, 0x1f]),
        _ => v.extend_from_slice(&[0x7f, 0x81, any_u8() & 0x7f]),
    }
    let n = match each(5) {
        0 => 0,
        1 => 2,
        2 => 127,
        3 => 128,
        _ => 256,
    };
    let mut l = [0u8; 9];
    let k = spec::put_length(n, &mut l);
    v.extend_from_slice(&l[..k]);
    v.extend_from_slice(&octets(n));
    for _ in 0..each(5) {
        v.push(0);
    }
    v.push(any_u8());
    v
}

pub fn c03_ber_enclosed() {
    let v = enclosed();
    let n = v.len();
    ber(&v, n);
}

pub fn c03_ber_mut_enclosed() {
    ber_mut(enclosed());
}

/// More levels than two octets can count.
const FAR: usize = 0x10001;

const fn far() -> [u8; 4 * FAR] {
    let mut v = [0; 4 * FAR];
    let mut i = 0;
    while i < FAR {
        v[2 * i] = 0x30;
        v[2 * i + 1] = 0x80;
        i += 1;
    }
    v
}

#[allow(long_running_const_eval)]
static LEVELS: [u8; 4 * FAR] = far();

pub fn c03_ber_far() {
    let mut rest = &LEVELS[..];
    let r = BerRef::parse(&mut rest);
    require(r.is_ok() && rest.len() == 0, "a well-formed element is accepted");
    cover("accepted");
}

pub fn c03_ber_mut_far() {
    let mut v = LEVELS;
    let mut rest = &mut v[..];
    let r = BerRef::parse_mut(&mut rest);
    require(r.is_ok() && rest.len() == 0, "a well-formed element is accepted");
    cover("accepted");
}
