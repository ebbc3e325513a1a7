//! What the octets of an element mean as a value, written independently of the library.

use crate::spec;
use bsn1_serde::de::Deserialize;
use bsn1_serde::OctetString;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

pub struct Element<'a> {
    pub id: &'a [u8],
    pub indefinite: bool,
    /// Without the octets which end an indefinite length.
    pub contents: &'a [u8],
    pub size: usize,
}

impl Element<'_> {
    pub fn is(&self, id: u8) -> bool {
        self.id.len() == 1 && self.id[0] == id
    }
}

/// The element at the start.
pub fn element(b: &[u8], ber: bool) -> Option<Element> {
    let size = match if ber { spec::tlv_ber(b) } else { spec::tlv_der(b) } {
        Ok(n) => n,
        Err(_) => return None,
    };
    let i = match spec::id(b) {
        Ok(n) => n,
        Err(_) => return None,
    };
    let (n, l) = match spec::length(&b[i..]) {
        Ok(x) => x,
        Err(_) => return None,
    };
    let end = if n.is_none() { size - 2 } else { size };
    Some(Element { id: &b[..i], indefinite: n.is_none(), contents: &b[i + l..end], size })
}

pub trait Model: Deserialize {
    type Val;
    fn model(e: &Element, ber: bool) -> Option<Self::Val>;
    fn fits(&self, v: &Self::Val) -> bool;
}

pub fn integer(b: &[u8], size: usize, signed: bool) -> Option<u128> {
    let n = b.len();
    if n == 0 {
        return None;
    }
    let neg = b[0] >= 0x80;
    if n > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        return None;
    }
    if !signed && neg {
        return None;
    }
    if n > size && (signed || n > size + 1 || b[0] != 0) {
        return None;
    }
    let mut v = if neg { u128::MAX } else { 0 };
    let mut i = 0;
    while i < n {
        v = v << 8 | b[i] as u128;
        i += 1;
    }
    Some(v)
}

macro_rules! integers {
    ($($t:ident $u:ident $signed:expr;)*) => { $(
        impl Model for $t {
            type Val = $u;
            fn model(e: &Element, _: bool) -> Option<$u> {
                if e.indefinite || !e.is(0x02) {
                    return None;
                }
                match integer(e.contents, std::mem::size_of::<$t>(), $signed) {
                    Some(v) => Some(v as $u),
                    None => None,
                }
            }
            fn fits(&self, v: &$u) -> bool {
                *self as $u == *v
            }
        }
    )* };
}
integers! {
    i8 u8 true;
    i16 u16 true;
    i32 u32 true;
    i64 u64 true;
    i128 u128 true;
    isize usize true;
    u8 u8 false;
    u16 u16 false;
    u32 u32 false;
    u64 u64 false;
    u128 u128 false;
    usize usize false;
}

impl Model for bool {
    type Val = bool;
    fn model(e: &Element, ber: bool) -> Option<bool> {
        if e.indefinite || !e.is(0x01) || e.contents.len() != 1 {
            return None;
        }
        match e.contents[0] {
            0 => Some(false),
            0xff => Some(true),
            _ => {
                if ber {
                    Some(true)
                } else {
                    None
                }
            }
        }
    }
    fn fits(&self, v: &bool) -> bool {
        *self == *v
    }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

impl Model for OctetString<'static> {
    type Val = Vec<u8>;
    fn model(e: &Element, ber: bool) -> Option<Vec<u8>> {
        if e.indefinite || !(e.is(0x04) || ber && e.is(0x24)) {
            return None;
        }
        Some(e.contents.to_vec())
    }
    fn fits(&self, v: &Vec<u8>) -> bool {
        eq(self.as_ref(), v)
    }
}

/// Whether the octets are well formed UTF-8 (table 3-7 of the Unicode standard).
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
            continue;
        }
        let (n, lo, hi) = if c >= 0xc2 && c <= 0xdf {
            (2, 0x80, 0xbf)
        } else if c == 0xe0 {
            (3, 0xa0, 0xbf)
        } else if c == 0xed {
            (3, 0x80, 0x9f)
        } else if c >= 0xe1 && c <= 0xef {
            (3, 0x80, 0xbf)
        } else if c == 0xf0 {
            (4, 0x90, 0xbf)
        } else if c >= 0xf1 && c <= 0xf3 {
            (4, 0x80, 0xbf)
        } else if c == 0xf4 {
            (4, 0x80, 0x8f)
        } else {
            return false;
        };
        if i + n > b.len() || b[i + 1] < lo || b[i + 1] > hi {
            return false;
        }
        let mut j = 2;
        while j < n {
            if b[i + j] < 0x80 || b[i + j] > 0xbf {
                return false;
            }
            j += 1;
        }
        i += n;
    }
    true
}

impl Model for String {
    type Val = Vec<u8>;
    fn model(e: &Element, ber: bool) -> Option<Vec<u8>> {
        if e.indefinite || !(e.is(0x0c) || ber && e.is(0x2c)) || !utf8(e.contents) {
            return None;
        }
        Some(e.contents.to_vec())
    }
    fn fits(&self, v: &Vec<u8>) -> bool {
        eq(self.as_bytes(), v)
    }
}

fn items<T: Model>(e: &Element, id: u8, ber: bool) -> Option<Vec<T::Val>> {
    if !e.is(id) {
        return None;
    }
    let mut v = Vec::new();
    let mut at = 0;
    while at < e.contents.len() {
        let x = element(&e.contents[at..], ber)?;
        v.push(T::model(&x, ber)?);
        at += x.size;
    }
    Some(v)
}

fn pairs<K: Model, V: Model>(e: &Element, id: u8, ber: bool) -> Option<Vec<(K::Val, V::Val)>> {
    if !e.is(id) {
        return None;
    }
    let mut r = Vec::new();
    let mut at = 0;
    while at < e.contents.len() {
        let p = element(&e.contents[at..], ber)?;
        if !p.is(0x30) {
            return None;
        }
        let k = element(p.contents, ber)?;
        let v = element(&p.contents[k.size..], ber)?;
        if k.size + v.size != p.contents.len() {
            return None;
        }
        r.push((K::model(&k, ber)?, V::model(&v, ber)?));
        at += p.size;
    }
    Some(r)
}

macro_rules! lists {
    ($($c:ident)*) => { $(
        impl<T: Model> Model for $c<T> {
            type Val = Vec<T::Val>;
            fn model(e: &Element, ber: bool) -> Option<Self::Val> {
                items::<T>(e, 0x30, ber)
            }
            fn fits(&self, v: &Self::Val) -> bool {
                let mut it = self.iter();
                let mut i = 0;
                while i < v.len() {
                    match it.next() {
                        Some(x) if x.fits(&v[i]) => (),
                        _ => return false,
                    }
                    i += 1;
                }
                it.next().is_none()
            }
        }
    )* };
}
lists! { Vec LinkedList VecDeque }

/// Every member is there and nothing else.
fn members<'a, T: Model + 'a, I: Iterator<Item = &'a T> + Clone>(it: I, v: &[T::Val]) -> bool {
    let mut i = 0;
    while i < v.len() {
        let mut found = false;
        for x in it.clone() {
            found = found || x.fits(&v[i]);
        }
        if !found {
            return false;
        }
        i += 1;
    }
    for x in it {
        let mut found = false;
        let mut i = 0;
        while i < v.len() {
            found = found || x.fits(&v[i]);
            i += 1;
        }
        if !found {
            return false;
        }
    }
    true
}

/// Every key has the last value given to it and there is no other.
fn entries<'a, K: Model + 'a, V: Model + 'a, I: Iterator<Item = (&'a K, &'a V)> + Clone>(
    it: I,
    v: &[(K::Val, V::Val)],
) -> bool {
    let mut i = 0;
    while i < v.len() {
        let mut found = false;
        for (x, _) in it.clone() {
            found = found || x.fits(&v[i].0);
        }
        if !found {
            return false;
        }
        i += 1;
    }
    for (x, y) in it {
        let mut i = v.len();
        let mut found = false;
        while i > 0 && !found {
            i -= 1;
            if x.fits(&v[i].0) {
                found = true;
                if !y.fits(&v[i].1) {
                    return false;
                }
            }
        }
        if !found {
            return false;
        }
    }
    true
}

macro_rules! sets {
    ($($c:ident $id:literal $b:path;)*) => { $(
        impl<T: Model + $b + Eq> Model for $c<T> {
            type Val = Vec<T::Val>;
            fn model(e: &Element, ber: bool) -> Option<Self::Val> {
                items::<T>(e, $id, ber)
            }
            fn fits(&self, v: &Self::Val) -> bool {
                members(self.iter(), v)
            }
        }
    )* };
}
sets! { BTreeSet 0x30 Ord; HashSet 0x31 std::hash::Hash; }

macro_rules! maps {
    ($($c:ident $id:literal $b:path;)*) => { $(
        impl<K: Model + $b + Eq, V: Model> Model for $c<K, V> {
            type Val = Vec<(K::Val, V::Val)>;
            fn model(e: &Element, ber: bool) -> Option<Self::Val> {
                pairs::<K, V>(e, $id, ber)
            }
            fn fits(&self, v: &Self::Val) -> bool {
                entries(self.iter(), v)
            }
        }
    )* };
}
maps! { BTreeMap 0x30 Ord; HashMap 0x31 std::hash::Hash; }

/// Deserializing the octets as `T` gives what they mean.
pub fn agree<T: Model>(b: &[u8], ber: bool) {
    let mut r = b;
    let got = if ber { bsn1_serde::parse_ber::<T>(&mut r) } else { bsn1_serde::parse_der::<T>(&mut r) };
    let want = match element(b, ber) {
        Some(e) => T::model(&e, ber),
        None => None,
    };
    match (got, want) {
        (Ok(x), Some(v)) => {
            require(x.fits(&v), "the value is the one the octets mean");
            cover("accepted");
        }
        (Err(_), None) => cover("refused"),
        (Ok(_), None) => require(false, "octets which are no such value are refused"),
        (Err(_), Some(_)) => require(false, "octets which are such a value are accepted"),
    }
}

/// The octets with the `n` ones at any place replaced by anything.
pub fn disturbed(b: &[u8], from: usize, n: usize) -> Vec<u8> {
    let at = from + each(b.len() + 1 - n - from);
    let w = octets(n);
    let mut v = b.to_vec();
    let mut i = 0;
    while i < n {
        v[at + i] = w[i];
        i += 1;
    }
    v
}
