//! Building elements and taking them apart.

use crate::spec;
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, Id, IdRef};
use rt::*;

/// Any well-formed identifier of `k` octets.
pub fn any_id(k: usize) -> Vec<u8> {
    let v = octets(k);
    assume(spec::id(&v) == Ok(k));
    v
}

pub fn id_ref(v: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(v) }
}

/// `b` is `id`, the length octets (`None` for indefinite) and `n` octets which equal `v`.
pub fn is_element(b: &[u8], id: &[u8], length: Option<usize>, v: &[u8], small: bool) -> usize {
    let mut l = [0u8; 9];
    let k = match length {
        Some(n) => spec::put_length(n, &mut l),
        None => {
            l[0] = 0x80;
            1
        }
    };
    let h = id.len() + k;
    require(b.len() == h + v.len(), "identifier, length octets, contents and nothing else");
    let mut i = 0;
    while i < id.len() {
        require(b[i] == id[i], "the identifier octets are those given");
        i += 1;
    }
    let mut i = 0;
    while i < k {
        require(b[id.len() + i] == l[i], "the length octets are the right ones");
        i += 1;
    }
    same(&b[h..], v, small, "the contents octets are those given");
    h
}

/// Equal octets; `small` ones are compared one by one, others at any index.
pub fn same(a: &[u8], b: &[u8], small: bool, rule: &'static str) {
    require(a.len() == b.len(), "of the right size");
    if small {
        let mut i = 0;
        while i < b.len() {
            require(a[i] == b[i], rule);
            i += 1;
        }
    } else {
        let i = any_usize();
        assume(i < b.len());
        require(a[i] == b[i], rule);
    }
}

/// Contents sizes on either side of the storage switch, or any larger one.
pub fn sizes(small: bool) -> usize {
    if small {
        each(25)
    } else {
        let n = any_usize();
        assume(n > 25 && n < isize::MAX as usize - 64);
        n
    }
}

fn apart(d: &BerRef, id: &[u8], length: Option<usize>, v: &[u8], small: bool) {
    let (i, l, c) = d.disassemble();
    same(i.as_ref(), id, true, "taking apart returns the identifier");
    require(l.definite() == length, "taking apart returns the length");
    require(l.is_indefinite() == length.is_none(), "taking apart returns the length form");
    same(c.as_ref(), v, small, "taking apart returns the contents");
    same(d.id().as_ref(), id, true, "id() is the identifier");
    require(d.length().definite() == length, "length() is the length");
    same(d.contents().as_ref(), v, small, "contents() are the contents");
}

fn apart_der(d: &DerRef, id: &[u8], n: usize, v: &[u8], small: bool) {
    let (i, l, c) = d.disassemble();
    same(i.as_ref(), id, true, "taking apart returns the identifier");
    require(l.definite() == Some(n), "taking apart returns the length");
    same(c.as_ref(), v, small, "taking apart returns the contents");
    same(d.id().as_ref(), id, true, "id() is the identifier");
    require(d.length().definite() == Some(n), "length() is the length");
    same(d.contents().as_ref(), v, small, "contents() are the contents");
}

fn new(k: usize, small: bool) {
    let id = any_id(k);
    let n = sizes(small);
    let v = octets(n);
    let c = <&ContentsRef>::from(&v[..]);
    let d = Der::new(id_ref(&id), c);
    is_element(d.as_ref(), &id, Some(n), &v, small);
    apart_der(&d, &id, n, &v, small);
    let b = Ber::new(id_ref(&id), c);
    is_element(b.as_ref(), &id, Some(n), &v, small);
    apart(&b, &id, Some(n), &v, small);
    cover("built");
}

pub fn c10_new_1() {
    new(1, true);
}

pub fn c10_new_2() {
    new(2, true);
}

pub fn c10_new_3() {
    new(3, true);
}

pub fn c10_new_21() {
    new(21, true);
}

pub fn c10_new_any_size_1() {
    new(1, false);
}

pub fn c10_new_any_size_3() {
    new(3, false);
}

pub fn c10_new_any_size_22() {
    new(22, false);
}

fn indefinite(k: usize, small: bool) {
    let id = any_id(k);
    let n = sizes(small);
    let v = octets(n);
    let c = <&ContentsRef>::from(&v[..]);
    let b = unsafe { Ber::new_indefinite(id_ref(&id), c) };
    is_element(b.as_ref(), &id, None, &v, small);
    apart(&b, &id, None, &v, small);
    cover("built");
}

pub fn c10_indefinite() {
    indefinite(1 + each(2), true);
}

pub fn c10_indefinite_any_size() {
    indefinite(1 + each(2), false);
}

fn reserved(k: usize, small: bool) {
    let id = any_id(k);
    let n = sizes(small);
    let v = octets(n);
    let mut d = Der::with_id_length(id_ref(&id), n);
    require(d.contents().len() == n, "room for the contents");
    d.mut_contents().as_mut().copy_from_slice(&v);
    is_element(d.as_ref(), &id, Some(n), &v, small);
    let mut d = Ber::with_id_length(id_ref(&id), n);
    require(d.contents().len() == n, "room for the contents");
    d.mut_contents().as_mut().copy_from_slice(&v);
    is_element(d.as_ref(), &id, Some(n), &v, small);
    let mut d = unsafe { Ber::with_id_length_indefinite(id_ref(&id), n) };
    require(d.contents().len() == n, "room for the contents");
    d.mut_contents().as_mut().copy_from_slice(&v);
    is_element(d.as_ref(), &id, None, &v, small);
    cover("built");
}

pub fn c10_with_id_length() {
    reserved(1 + each(2), true);
}

pub fn c10_with_id_length_any_size() {
    reserved(1 + each(2), false);
}

#[derive(Clone)]
struct Parts<'a> {
    parts: [&'a [u8]; 3],
    at: usize,
    count: usize,
}

impl<'a> Iterator for Parts<'a> {
    type Item = &'a [u8];

    fn next(&mut self) -> Option<&'a [u8]> {
        if self.at == self.count {
            return None;
        }
        self.at += 1;
        Some(self.parts[self.at - 1])
    }
}

fn parts(how: u8) {
    let id = any_id(1 + each(2));
    let count = each(4);
    // the middle part is of any size
    let (a, n, c) = (each(2), any_usize(), each(2));
    if each(2) == 0 {
        assume(n > 25 && n < isize::MAX as usize - 64);
        let (u, v, w) = (octets(a), octets(n), octets(c));
        parts_with(how, &id, [&u, &v, &w], count, false);
    } else {
        let (u, v, w) = (octets(a), octets(each(2) * 17), octets(c));
        parts_with(how, &id, [&u, &v, &w], count, true);
    }
}

fn parts_with(how: u8, id: &[u8], p: [&[u8]; 3], count: usize, small: bool) {
    let it = Parts { parts: p, at: 0, count };
    let total = match count {
        0 => 0,
        1 => p[0].len(),
        2 => p[0].len() + p[1].len(),
        _ => p[0].len() + p[1].len() + p[2].len(),
    };
    let d;
    let b;
    let i;
    let (o, length): (&[u8], _) = match how {
        0 => {
            d = Der::from_id_iterator(id_ref(id), it);
            (d.as_ref(), Some(total))
        }
        1 => {
            b = Ber::from_id_iterator(id_ref(id), it);
            (b.as_ref(), Some(total))
        }
        _ => {
            i = unsafe { Ber::from_id_iterator_indefinite(id_ref(id), it) };
            (i.as_ref(), None)
        }
    };
    let mut l = [0u8; 9];
    let k = match length {
        Some(n) => spec::put_length(n, &mut l),
        None => {
            l[0] = 0x80;
            1
        }
    };
    let h = id.len() + k;
    require(o.len() == h + total, "identifier, length octets, contents and nothing else");
    same(&o[..id.len()], id, true, "the identifier octets are those given");
    same(&o[id.len()..h], &l[..k], true, "the length octets are the right ones");
    let mut at = h;
    let mut j = 0;
    while j < count {
        same(&o[at..at + p[j].len()], p[j], small || j != 1, "the parts follow each other in order");
        at += p[j].len();
        j += 1;
    }
    cover("built");
}

pub fn c10_iterator_der() {
    parts(0);
}

pub fn c10_iterator_ber() {
    parts(1);
}

pub fn c10_iterator_indefinite() {
    parts(2);
}

macro_rules! integer {
    ($($f:ident $t:ident $any:ident),*) => { $(
        pub fn $f() {
            let v = $any() as $t;
            let c = bsn1::Contents::from(v);
            let c: &[u8] = c.as_ref();
            let d = Der::from(v);
            is_element(d.as_ref(), &[2], Some(c.len()), c, true);
            let b = Ber::from(v);
            is_element(b.as_ref(), &[2], Some(c.len()), c, true);
            cover("built");
        }
    )* };
}
integer!(
    c10_from_i8 i8 any_u8, c10_from_u8 u8 any_u8, c10_from_i16 i16 any_u16, c10_from_u16 u16 any_u16,
    c10_from_i32 i32 any_u32, c10_from_u32 u32 any_u32, c10_from_i64 i64 any_u64, c10_from_u64 u64 any_u64,
    c10_from_i128 i128 any_u128, c10_from_u128 u128 any_u128, c10_from_isize isize any_usize, c10_from_usize usize any_usize
);

pub fn c10_from_bool() {
    let v = any_bool();
    let c = [if v { 0xffu8 } else { 0 }];
    is_element(Der::from(v).as_ref(), &[1], Some(1), &c, true);
    is_element(Ber::from(v).as_ref(), &[1], Some(1), &c, true);
    is_element(DerRef::boolean(v).as_ref(), &[1], Some(1), &c, true);
    is_element(BerRef::eoc().as_ref(), &[0], Some(0), &[], true);
    cover("built");
}

fn from_bytes(small: bool) {
    let n = sizes(small);
    let v = octets(n);
    let s = unsafe { std::str::from_utf8_unchecked(&v) };
    is_element(Der::from(&v[..]).as_ref(), &[4], Some(n), &v, small);
    is_element(Ber::from(&v[..]).as_ref(), &[4], Some(n), &v, small);
    is_element(Der::from(s).as_ref(), &[12], Some(n), &v, small);
    is_element(Ber::from(s).as_ref(), &[12], Some(n), &v, small);
    cover("built");
}

pub fn c10_from_bytes() {
    from_bytes(true);
}

pub fn c10_from_bytes_any_size() {
    from_bytes(false);
}

fn convert(small: bool) {
    let n = sizes(small);
    let v = octets(n);
    let d = unsafe { DerRef::from_bytes_unchecked(&v) };
    same(Der::from(d).as_ref(), &v, small, "owned DER has the octets borrowed");
    same(Ber::from(d).as_ref(), &v, small, "BER has the octets of the DER");
    let b = <&BerRef>::from(d);
    same(b.as_ref(), &v, small, "borrowed BER has the octets of the DER");
    same(Ber::from(b).as_ref(), &v, small, "owned BER has the octets borrowed");
    same(Ber::from(Der::from(d)).as_ref(), &v, small, "BER has the octets of the DER");
    same(d.to_owned().as_ref(), &v, small, "owned DER has the octets borrowed");
    same(b.to_owned().as_ref(), &v, small, "owned BER has the octets borrowed");
    same(&Der::from(d).into_vec(), &v, small, "the vector has the octets of the DER");
    same(&Ber::from(b).into_vec(), &v, small, "the vector has the octets of the BER");
    same(Id::from(id_ref(&v)).as_ref(), &v, small, "owned identifier has the octets borrowed");
    cover("converted");
}

pub fn c10_convert() {
    convert(true);
}

pub fn c10_convert_any_size() {
    convert(false);
}


