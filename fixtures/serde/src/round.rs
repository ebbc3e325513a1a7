//! What was serialized is deserialized again.

use crate::want::*;
use bsn1::Error;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::OctetString;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

fn check<T, F: Fn(&T) -> bool>(got: Result<T, Error>, fits: &F) {
    match got {
        Ok(v) => require(fits(&v), "the value deserialized is the one serialized"),
        Err(_) => require(false, "what was serialized is accepted"),
    }
}

/// Every way to serialize and deserialize gives a value which `fits`.
fn back<T: Serialize + Deserialize, F: Fn(&T) -> bool>(v: &T, id: u8, fits: F) {
    match each(3) {
        0 => match (bsn1_serde::to_der(v), bsn1_serde::to_ber(v)) {
            (Ok(d), Ok(b)) => {
                let o: &[u8] = (*d).as_ref();
                require(o[0] == id, "the identifier is the one documented");
                check(bsn1_serde::from_der::<T>(&d), &fits);
                check(bsn1_serde::from_ber::<T>(&b), &fits);
                cover("elements");
            }
            _ => require(false, "serialization succeeds"),
        },
        1 => match bsn1_serde::to_der(v) {
            Ok(d) => {
                let mut o = (*d).as_ref().to_vec();
                let n = o.len();
                o.push(any_u8());
                let mut r = &o[..];
                check(bsn1_serde::parse_der::<T>(&mut r), &fits);
                require(r.len() == 1, "the octets of the element are consumed");
                let mut r = &o[..n];
                check(bsn1_serde::parse_ber::<T>(&mut r), &fits);
                require(r.len() == 0, "the octets of the element are consumed");
                cover("slices");
            }
            _ => require(false, "serialization succeeds"),
        },
        _ => {
            let (mut d, mut b) = (Vec::new(), Vec::new());
            match (bsn1_serde::write_der(v, &mut d), bsn1_serde::write_ber(v, &mut b)) {
                (Ok(()), Ok(())) => {
                    let mut r = &d[..];
                    check(bsn1_serde::read_der::<_, T>(&mut r), &fits);
                    require(r.len() == 0, "the octets of the element are consumed");
                    let mut r = &b[..];
                    check(bsn1_serde::read_ber::<_, T>(&mut r), &fits);
                    require(r.len() == 0, "the octets of the element are consumed");
                    cover("streams");
                }
                _ => require(false, "serialization succeeds"),
            }
        }
    }
}

macro_rules! integers {
    ($($f:ident $t:ident $any:ident $signed:expr;)*) => { $(
        pub fn $f() {
            let v = $any() as $t;
            let neg = $signed && each(2) == 1;
            #[allow(unused_comparisons)]
            assume((v < 0) == neg);
            let _w = integer(v as i128 as u128, neg).len();
            back(&v, INTEGER, |x| *x == v);
            cover("rebuilt");
        }
    )* };
}
integers! {
    c14_i8 i8 any_u8 true;
    c14_i16 i16 any_u16 true;
    c14_i32 i32 any_u32 true;
    c14_i64 i64 any_u64 true;
    c14_i128 i128 any_u128 true;
    c14_isize isize any_usize true;
    c14_u8 u8 any_u8 false;
    c14_u16 u16 any_u16 false;
    c14_u32 u32 any_u32 false;
    c14_u64 u64 any_u64 false;
    c14_u128 u128 any_u128 false;
    c14_usize usize any_usize false;
}

pub fn c14_bool() {
    let v = any_bool();
    back(&v, BOOLEAN, |x| *x == v);
    cover("rebuilt");
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

fn some_size() -> usize {
    match each(6) {
        0 => 0,
        1 => 1,
        2 => 9,
        3 => 22,
        4 => 127,
        _ => 130,
    }
}

pub fn c14_ascii() {
    let n = match each(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 9,
        _ => 25,
    };
    let v = octets(n);
    let mut i = 0;
    while i < n {
        assume(v[i] < 0x80);
        i += 1;
    }
    let s = text(v.clone());
    back(&s, UTF8_STRING, |x| eq(x.as_bytes(), &v));
    cover("rebuilt");
}

/// A string of one character of any size, followed by another octet.
pub fn c14_text() {
    let n = 2 + each(3);
    let v = octets(n);
    let (lead, low, high) = match n {
        2 => (v[0] >= 0xc2 && v[0] <= 0xdf, 0x80, 0xbf),
        3 => match each(4) {
            0 => (v[0] == 0xe0, 0xa0, 0xbf),
            1 => (v[0] > 0xe0 && v[0] < 0xed, 0x80, 0xbf),
            2 => (v[0] == 0xed, 0x80, 0x9f),
            _ => (v[0] > 0xed && v[0] < 0xf0, 0x80, 0xbf),
        },
        _ => match each(3) {
            0 => (v[0] == 0xf0, 0x90, 0xbf),
            1 => (v[0] > 0xf0 && v[0] < 0xf4, 0x80, 0xbf),
            _ => (v[0] == 0xf4, 0x80, 0x8f),
        },
    };
    assume(lead);
    assume(v[1] >= low && v[1] <= high);
    let mut i = 2;
    while i < n {
        assume(v[i] >= 0x80 && v[i] <= 0xbf);
        i += 1;
    }
    let s = text(v.clone());
    back(&s, UTF8_STRING, |x| eq(x.as_bytes(), &v));
    cover("rebuilt");
}

pub fn c14_octet_string() {
    let v = octets(some_size());
    back(&OctetString::from(v.clone()), OCTET_STRING, |x| eq(x.as_ref(), &v));
    cover("rebuilt");
}

/// Octets, and how many octets they take as integers, which tells the cases apart.
fn small(n: usize) -> (Vec<u8>, Vec<usize>) {
    let v = octets(n);
    let mut w = Vec::new();
    let mut i = 0;
    while i < n {
        w.push(integer(v[i] as u128, false).len());
        i += 1;
    }
    (v, w)
}

fn listed<'a, I: Iterator<Item = &'a u8>>(mut it: I, v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        match it.next() {
            Some(x) if *x == v[i] => (),
            _ => return false,
        }
        i += 1;
    }
    it.next().is_none()
}

pub fn c14_vec() {
    let (v, _w) = small(each(4));
    back(&v, SEQUENCE, |x: &Vec<u8>| eq(x, &v));
    cover("rebuilt");
}

pub fn c14_linked_list() {
    let (v, _w) = small(each(4));
    let l: LinkedList<u8> = v.iter().copied().collect();
    back(&l, SEQUENCE, |x| listed(x.iter(), &v));
    cover("rebuilt");
}

pub fn c14_vec_deque() {
    let (v, _w) = small(each(4));
    let mut l: VecDeque<u8> = VecDeque::with_capacity(4);
    // start somewhere in the ring
    for _ in 0..each(4) {
        l.push_back(0);
        l.pop_front();
    }
    l.extend(v.iter().copied());
    back(&l, SEQUENCE, |x| listed(x.iter(), &v));
    cover("rebuilt");
}

fn rising(v: &[u8]) {
    let mut i = 1;
    while i < v.len() {
        assume(v[i - 1] < v[i]);
        i += 1;
    }
}

pub fn c14_btree_set() {
    let (v, _w) = small(each(4));
    rising(&v);
    let l: BTreeSet<u8> = v.iter().copied().collect();
    back(&l, SEQUENCE, |x| listed(x.iter(), &v));
    cover("rebuilt");
}

pub fn c14_hash_set() {
    let (v, _w) = small(each(3));
    assume(v.len() < 2 || v[0] != v[1]);
    let mut l = HashSet::new();
    let mut i = 0;
    while i < v.len() {
        l.insert(v[i]);
        i += 1;
    }
    back(&l, SET, |x: &HashSet<u8>| {
        let mut i = 0;
        while i < v.len() {
            if !x.contains(&v[i]) {
                return false;
            }
            i += 1;
        }
        x.len() == v.len()
    });
    cover("rebuilt");
}

/// Keys and values of the same type, so that they could be exchanged.
pub fn c14_btree_map() {
    let n = each(3);
    let (k, _w) = small(n);
    rising(&k);
    let v = octets(n);
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < n {
        assume(v[i] < 0x80);
        m.insert(k[i], v[i]);
        i += 1;
    }
    back(&m, SEQUENCE, |x: &BTreeMap<u8, u8>| {
        let mut it = x.iter();
        let mut i = 0;
        while i < n {
            match it.next() {
                Some((a, b)) if *a == k[i] && *b == v[i] => (),
                _ => return false,
            }
            i += 1;
        }
        it.next().is_none()
    });
    cover("rebuilt");
}

pub fn c14_hash_map() {
    let n = each(3);
    let (k, v) = (octets(n), octets(n));
    let mut m = HashMap::new();
    let mut i = 0;
    while i < n {
        assume(v[i] < 0x80 && k[i] < 0x80);
        assume(i == 0 || k[0] != k[i]);
        m.insert(k[i], v[i]);
        i += 1;
    }
    back(&m, SET, |x: &HashMap<u8, u8>| {
        let mut i = 0;
        while i < n {
            match x.get(&k[i]) {
                Some(b) if *b == v[i] => (),
                _ => return false,
            }
            i += 1;
        }
        x.len() == n
    });
    cover("rebuilt");
}

/// Values which are containers themselves.
pub fn c14_nested() {
    let v = octets(2);
    let b = any_bool();
    match each(3) {
        0 => {
            let x = vec![vec![OctetString::from(v.clone())], vec![]];
            back(&x, SEQUENCE, |y: &Vec<Vec<OctetString>>| {
                y.len() == 2 && y[0].len() == 1 && y[1].len() == 0 && eq(y[0][0].as_ref(), &v)
            });
            cover("lists");
        }
        1 => {
            let mut x = BTreeMap::new();
            x.insert(b, vec![OctetString::from(v.clone())]);
            back(&x, SEQUENCE, |y: &BTreeMap<bool, Vec<OctetString>>| match y.get(&b) {
                Some(w) => y.len() == 1 && w.len() == 1 && eq(w[0].as_ref(), &v),
                None => false,
            });
            cover("map of lists");
        }
        _ => {
            let mut y = BTreeMap::new();
            y.insert(OctetString::from(v.clone()), b);
            let mut x = HashMap::new();
            x.insert(b, y);
            back(&x, SET, |z: &HashMap<bool, BTreeMap<OctetString, bool>>| match z.get(&b) {
                Some(w) => match w.iter().next() {
                    Some((k, c)) => z.len() == 1 && w.len() == 1 && *c == b && eq(k.as_ref(), &v),
                    None => false,
                },
                None => false,
            });
            cover("map of maps");
        }
    }
}

/// More elements than fit the short form of a length, or one octet of the long form.
pub fn many() -> Vec<u8> {
    let n = if each(2) == 0 { 43 } else { 90 };
    (0..n).collect()
}

pub fn c14_many_listed() {
    let v = many();
    match each(4) {
        0 => back(&v, SEQUENCE, |x: &Vec<u8>| listed(x.iter(), &v)),
        1 => back(&v.iter().copied().collect(), SEQUENCE, |x: &LinkedList<u8>| listed(x.iter(), &v)),
        2 => back(&v.iter().copied().collect(), SEQUENCE, |x: &VecDeque<u8>| listed(x.iter(), &v)),
        _ => back(&v.iter().copied().collect(), SEQUENCE, |x: &BTreeSet<u8>| listed(x.iter(), &v)),
    }
    cover("rebuilt");
}

pub fn c14_many_mapped() {
    let v = many();
    match each(2) {
        0 => {
            let m: BTreeMap<u8, u8> = v.iter().map(|x| (*x, 127 - *x)).collect();
            back(&m, SEQUENCE, |x| {
                let mut n = 0;
                for (k, v) in x {
                    if *k != n || *v != 127 - n {
                        return false;
                    }
                    n += 1;
                }
                n as usize == v.len()
            })
        }
        _ => {
            let v = &v[..13];
            let mut m = HashMap::new();
            for x in v {
                m.insert(*x, 127 - *x);
            }
            back(&m, SET, |x: &HashMap<u8, u8>| {
                for k in v {
                    if x.get(k) != Some(&(127 - *k)) {
                        return false;
                    }
                }
                x.len() == v.len()
            })
        }
    }
    cover("rebuilt");
}

pub fn c14_many_nested() {
    let v = many();
    let l: Vec<Vec<u8>> = vec![v.clone(), Vec::new(), v.clone()];
    back(&l, SEQUENCE, |x: &Vec<Vec<u8>>| {
        x.len() == 3 && listed(x[0].iter(), &v) && x[1].len() == 0 && listed(x[2].iter(), &v)
    });
    cover("rebuilt");
}

pub fn c14_long_text() {
    let mut v = Vec::new();
    let n = match each(3) {
        0 => 127,
        1 => 128,
        _ => 300,
    };
    while v.len() < n {
        v.push(b'a' + v.len() as u8 % 26);
    }
    // two octets anywhere which are one character
    let at = each(4) * (n / 4);
    v[at] = 0xc3;
    v[at + 1] = 0x80 + any_u8() % 64;
    let s = text(v.clone());
    back(&s, UTF8_STRING, |x| eq(x.as_bytes(), &v));
    cover("rebuilt");
}

/// More elements than one octet can count.
fn numbers<C: FromIterator<u16>>() -> C {
    (100..400).collect()
}

pub fn c14_hundreds_vec() {
    back(&numbers(), SEQUENCE, |x: &Vec<u16>| same_numbers(x.iter()));
}

pub fn c14_hundreds_linked_list() {
    back(&numbers(), SEQUENCE, |x: &LinkedList<u16>| same_numbers(x.iter()));
}

pub fn c14_hundreds_vec_deque() {
    back(&numbers(), SEQUENCE, |x: &VecDeque<u16>| same_numbers(x.iter()));
}

pub fn c14_hundreds_btree_set() {
    back(&numbers(), SEQUENCE, |x: &BTreeSet<u16>| same_numbers(x.iter()));
}

pub fn c14_hundreds_btree_map() {
    let v = (100..400).map(|x| (x, x as u8 > 30)).collect();
    back(&v, SEQUENCE, |x: &BTreeMap<u16, bool>| {
        same_numbers(x.keys()) && x.iter().all(|(k, v)| *v == (*k as u8 > 30))
    });
}

fn same_numbers<'a>(mut it: impl Iterator<Item = &'a u16>) -> bool {
    for n in 100..400 {
        match it.next() {
            Some(x) if *x == n => (),
            _ => return false,
        }
    }
    it.next().is_none()
}

/// Elements of any size.
fn sized<T: Serialize + Deserialize, F: Fn(&T) -> bool>(v: &T, fits: F) {
    match bsn1_serde::to_der(v) {
        Ok(d) => {
            if each(2) == 0 {
                check(bsn1_serde::from_der::<T>(&d), &fits);
            } else {
                let mut r: &[u8] = (*d).as_ref();
                check(bsn1_serde::parse_ber::<T>(&mut r), &fits);
                require(r.len() == 0, "the octets of the element are consumed");
            }
        }
        _ => require(false, "serialization succeeds"),
    }
    cover("rebuilt");
}

fn pile(n: usize) -> OctetString<'static> {
    assume(n <= 1 << 60);
    OctetString::from(octets(n))
}

pub fn c14_sizes_octets() {
    let n = any_usize();
    sized(&pile(n), |x: &OctetString<'static>| x.as_ref().len() == n);
}

pub fn c14_sizes_vec() {
    let n = any_usize();
    sized(&vec![pile(n), pile(1)], |x: &Vec<OctetString<'static>>| {
        x.len() == 2 && x[0].as_ref().len() == n && x[1].as_ref().len() == 1
    });
}

pub fn c14_sizes_map() {
    let n = any_usize();
    let mut v = BTreeMap::new();
    v.insert(true, pile(n));
    sized(&v, |x: &BTreeMap<bool, OctetString<'static>>| {
        x.len() == 1 && x.get(&true).map(|v| v.as_ref().len()) == Some(n)
    });
}
