//! What serialization writes and which sizes it announces.

use crate::want::*;
use bsn1_serde::OctetString;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

macro_rules! integers {
    ($($f:ident $t:ident $any:ident $signed:expr;)*) => { $(
        pub fn $f() {
            let v = $any() as $t;
            let neg = $signed && each(2) == 1;
            #[allow(unused_comparisons)]
            assume((v < 0) == neg);
            let low = v as i128 as u128;
            let want = one(INTEGER, &integer(low, neg));
            written(&v, &want, true);
            cover("written");
        }
    )* };
}
integers! {
    c13_i8 i8 any_u8 true;
    c13_i16 i16 any_u16 true;
    c13_i32 i32 any_u32 true;
    c13_i64 i64 any_u64 true;
    c13_i128 i128 any_u128 true;
    c13_isize isize any_usize true;
    c13_u8 u8 any_u8 false;
    c13_u16 u16 any_u16 false;
    c13_u32 u32 any_u32 false;
    c13_u64 u64 any_u64 false;
    c13_u128 u128 any_u128 false;
    c13_usize usize any_usize false;
}

pub fn c13_bool() {
    let v = any_bool();
    let want = [BOOLEAN, 1, if v { 0xff } else { 0 }];
    written(&v, &want, true);
    cover("written");
}

fn some_size() -> usize {
    match each(9) {
        0 => 0,
        1 => 1,
        2 => 5,
        3 => 21,
        4 => 22,
        5 => 127,
        6 => 128,
        7 => 255,
        _ => 256,
    }
}

pub fn c13_string() {
    let v = octets(some_size());
    let want = one(UTF8_STRING, &v);
    written(&text(v), &want, true);
    cover("written");
}

pub fn c13_octet_string() {
    let v = octets(some_size());
    let want = one(OCTET_STRING, &v);
    match each(3) {
        0 => written(&OctetString::new(&v), &want, true),
        1 => written(&OctetString::from(&v[..]), &want, true),
        _ => written(&OctetString::from(v), &want, true),
    }
    cover("written");
}

/// Up to three octets and the integers they make.
fn few() -> (Vec<u8>, Vec<u8>) {
    let v = octets(each(4));
    let mut c = Vec::new();
    let mut i = 0;
    while i < v.len() {
        tlv(&mut c, INTEGER, &integer(v[i] as u128, false));
        i += 1;
    }
    (v, c)
}

pub fn c13_vec() {
    let (v, c) = few();
    written(&v, &one(SEQUENCE, &c), true);
    cover("written");
}

pub fn c13_linked_list() {
    let (v, c) = few();
    let mut l = LinkedList::new();
    let mut i = 0;
    while i < v.len() {
        l.push_back(v[i]);
        i += 1;
    }
    written(&l, &one(SEQUENCE, &c), true);
    cover("written");
}

pub fn c13_vec_deque() {
    let (v, c) = few();
    let mut l = VecDeque::with_capacity(4);
    // start somewhere in the ring
    for _ in 0..each(4) {
        l.push_back(0);
        l.pop_front();
    }
    let mut i = 0;
    while i < v.len() {
        l.push_back(v[i]);
        i += 1;
    }
    written(&l, &one(SEQUENCE, &c), true);
    cover("written");
}

pub fn c13_btree_set() {
    let (v, c) = few();
    let mut s = BTreeSet::new();
    let mut i = 0;
    while i < v.len() {
        assume(i == 0 || v[i - 1] < v[i]);
        s.insert(v[i]);
        i += 1;
    }
    written(&s, &one(SEQUENCE, &c), true);
    cover("written");
}

pub fn c13_btree_map() {
    let n = each(3);
    let (k, v) = (octets(n), octets(n));
    let mut c = Vec::new();
    let mut m = BTreeMap::new();
    let mut i = 0;
    while i < n {
        assume(i == 0 || k[i - 1] < k[i]);
        let mut p = Vec::new();
        tlv(&mut p, INTEGER, &integer(k[i] as u128, false));
        tlv(&mut p, OCTET_STRING, &[v[i]]);
        tlv(&mut c, SEQUENCE, &p);
        m.insert(k[i], Shy { id: true, contents: true, octet: v[i] });
        i += 1;
    }
    written(&m, &one(SEQUENCE, &c), true);
    cover("written");
}

pub fn c13_nested() {
    let n = each(3);
    let mut c = Vec::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let w = octets(each(3));
        let mut d = Vec::new();
        let mut i = 0;
        while i < w.len() {
            assume(w[i] < 128);
            tlv(&mut d, INTEGER, &[w[i]]);
            i += 1;
        }
        tlv(&mut c, SEQUENCE, &d);
        v.push(w);
    }
    written(&v, &one(SEQUENCE, &c), true);
    cover("written");
}

/// The contents of a container around the sizes where its length octets grow.
pub fn c13_long_contents() {
    let a = match each(7) {
        0 => 0,
        1 => 59,
        2 => 60,
        3 => 61,
        4 => 123,
        5 => 124,
        _ => 125,
    };
    let b = match each(4) {
        0 => 63,
        1 => 64,
        2 => 125,
        _ => 128,
    };
    let (x, y) = (octets(a), octets(b));
    let mut c = Vec::new();
    tlv(&mut c, OCTET_STRING, &x);
    tlv(&mut c, OCTET_STRING, &y);
    if any_bool() {
        let v = vec![OctetString::from(x), OctetString::from(y)];
        written(&v, &one(SEQUENCE, &c), true);
        cover("list");
    } else {
        let mut m = BTreeMap::new();
        m.insert(OctetString::from(x), OctetString::from(y));
        written(&m, &one(SEQUENCE, &one(SEQUENCE, &c)), true);
        cover("map");
    }
}

fn shy(octet: u8) -> Shy {
    Shy { id: any_bool(), contents: any_bool(), octet }
}

fn shies() -> (Vec<Shy>, Vec<u8>, bool) {
    let mut c = Vec::new();
    let mut v = Vec::new();
    let mut announced = true;
    for _ in 0..each(3) {
        let s = shy(any_u8());
        tlv(&mut c, OCTET_STRING, &[s.octet]);
        announced = announced && s.id && s.contents;
        v.push(s);
    }
    (v, c, announced)
}

/// What is said about the identifier is not said about the contents.
fn shy_written<T: bsn1_serde::ser::Serialize>(v: &T, want: &[u8], announced: bool) {
    match bsn1_serde::to_der(v) {
        Ok(d) => same((*d).as_ref(), want, "identifier, exact length, contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    streamed(v, want);
    match v.der_contents_len() {
        Ok(Some(_)) => require(announced, "no size is announced when a part announces none"),
        Ok(None) => require(!announced, "the size of the contents is announced"),
        Err(_) => require(false, "announcing a size succeeds"),
    }
}

pub fn c13_shy() {
    let s = shy(any_u8());
    let want = one(OCTET_STRING, &[s.octet]);
    match bsn1_serde::to_der(&s) {
        Ok(d) => same((*d).as_ref(), &want, "identifier, exact length, contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    streamed(&s, &want);
    cover("written");
}

pub fn c13_shy_vec() {
    let (v, c, announced) = shies();
    shy_written(&v, &one(SEQUENCE, &c), announced);
    cover("written");
}

pub fn c13_shy_linked_list() {
    let (v, c, announced) = shies();
    let mut l = LinkedList::new();
    let mut i = 0;
    while i < v.len() {
        l.push_back(v[i]);
        i += 1;
    }
    shy_written(&l, &one(SEQUENCE, &c), announced);
    cover("written");
}

pub fn c13_shy_vec_deque() {
    let (v, c, announced) = shies();
    let mut l = VecDeque::new();
    let mut i = 0;
    while i < v.len() {
        l.push_back(v[i]);
        i += 1;
    }
    shy_written(&l, &one(SEQUENCE, &c), announced);
    cover("written");
}

impl PartialEq for Shy {
    fn eq(&self, o: &Shy) -> bool {
        self.octet == o.octet
    }
}
impl Eq for Shy {}
impl PartialOrd for Shy {
    fn partial_cmp(&self, o: &Shy) -> Option<std::cmp::Ordering> {
        self.octet.partial_cmp(&o.octet)
    }
}
impl Ord for Shy {
    fn cmp(&self, o: &Shy) -> std::cmp::Ordering {
        self.octet.cmp(&o.octet)
    }
}

pub fn c13_shy_btree() {
    let (a, b) = (shy(3), shy(7));
    let announced = a.id && a.contents && b.id && b.contents;
    let mut c = Vec::new();
    tlv(&mut c, OCTET_STRING, &[3]);
    tlv(&mut c, OCTET_STRING, &[7]);
    if any_bool() {
        let mut s = BTreeSet::new();
        s.insert(b);
        s.insert(a);
        shy_written(&s, &one(SEQUENCE, &c), announced);
        cover("set");
    } else {
        let mut m = BTreeMap::new();
        m.insert(a, b);
        shy_written(&m, &one(SEQUENCE, &one(SEQUENCE, &c)), announced);
        cover("map");
    }
}

impl std::hash::Hash for Shy {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.octet)
    }
}

fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < b.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// As `written`, for a container whose order is its own.
fn unordered<T: bsn1_serde::ser::Serialize>(v: &T, p: &[u8], q: &[u8], announced: bool) {
    let mut c = p.to_vec();
    c.extend_from_slice(q);
    let one_way = one(SET, &c);
    let mut c = q.to_vec();
    c.extend_from_slice(p);
    let other_way = one(SET, &c);
    let fits = |o: &[u8]| eq(o, &one_way) || eq(o, &other_way);
    match bsn1_serde::to_der(v) {
        Ok(d) => require(fits((*d).as_ref()), "identifier, exact length, contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    match bsn1_serde::to_ber(v) {
        Ok(d) => require(fits((*d).as_ref()), "BER output is the DER output"),
        Err(_) => require(false, "serialization succeeds"),
    }
    let mut w = Vec::new();
    match bsn1_serde::write_der(v, &mut w) {
        Ok(()) => require(fits(&w), "a writer gets the same octets"),
        Err(_) => require(false, "serialization succeeds"),
    }
    let mut w = Vec::new();
    match bsn1_serde::write_ber(v, &mut w) {
        Ok(()) => require(fits(&w), "a writer gets the same octets"),
        Err(_) => require(false, "serialization succeeds"),
    }
    sizes(v, &one_way, announced);
}

pub fn c13_hash_set() {
    let n = each(3);
    let v = octets(n);
    let mut s = HashSet::new();
    let (mut p, mut q) = (Vec::new(), Vec::new());
    if n > 0 {
        tlv(&mut p, INTEGER, &integer(v[0] as u128, false));
        s.insert(v[0]);
    }
    if n > 1 {
        tlv(&mut q, INTEGER, &integer(v[1] as u128, false));
        assume(v[0] != v[1]);
        s.insert(v[1]);
    }
    unordered(&s, &p, &q, true);
    cover("written");
}

fn pair(k: u8, v: u8) -> Vec<u8> {
    let mut c = Vec::new();
    tlv(&mut c, INTEGER, &integer(k as u128, false));
    tlv(&mut c, OCTET_STRING, &[v]);
    one(SEQUENCE, &c)
}

pub fn c13_hash_map() {
    let n = each(3);
    let (k, v) = (octets(n), octets(n));
    let mut s = HashMap::new();
    let (mut p, mut q) = (Vec::new(), Vec::new());
    if n > 0 {
        p = pair(k[0], v[0]);
        s.insert(k[0], Shy { id: true, contents: true, octet: v[0] });
    }
    if n > 1 {
        q = pair(k[1], v[1]);
        assume(k[0] != k[1]);
        s.insert(k[1], Shy { id: true, contents: true, octet: v[1] });
    }
    unordered(&s, &p, &q, true);
    cover("written");
}

pub fn c13_long_hash_contents() {
    let a = match each(7) {
        0 => 0,
        1 => 59,
        2 => 60,
        3 => 61,
        4 => 123,
        5 => 124,
        _ => 125,
    };
    let b = match each(4) {
        0 => 63,
        1 => 64,
        2 => 126,
        _ => 128,
    };
    let (x, y) = (octets(a), octets(b));
    let mut c = Vec::new();
    tlv(&mut c, OCTET_STRING, &x);
    tlv(&mut c, OCTET_STRING, &y);
    if any_bool() {
        let (p, q) = (one(OCTET_STRING, &x), one(OCTET_STRING, &y));
        let mut s = HashSet::new();
        s.insert(OctetString::from(x));
        s.insert(OctetString::from(y));
        unordered(&s, &p, &q, true);
        cover("set");
    } else {
        let mut m = HashMap::new();
        m.insert(OctetString::from(x), OctetString::from(y));
        unordered(&m, &one(SEQUENCE, &c), &[], true);
        cover("map");
    }
}

pub fn c13_shy_hash() {
    let (a, b) = (shy(3), shy(7));
    let announced = a.id && a.contents && b.id && b.contents;
    let mut c = Vec::new();
    tlv(&mut c, OCTET_STRING, &[3]);
    tlv(&mut c, OCTET_STRING, &[7]);
    if any_bool() {
        let mut s = HashSet::new();
        s.insert(a);
        s.insert(b);
        unordered(&s, &[OCTET_STRING, 1, 3], &[OCTET_STRING, 1, 7], announced);
        cover("set");
    } else {
        let mut m = HashMap::new();
        m.insert(a, b);
        unordered(&m, &one(SEQUENCE, &c), &[], announced);
        cover("map");
    }
}

pub fn c13_many() {
    let v = crate::round::many();
    let mut c = Vec::new();
    for x in &v {
        tlv(&mut c, INTEGER, &[*x]);
    }
    let want = one(SEQUENCE, &c);
    match each(6) {
        0 => written(&v, &want, true),
        1 => written(&v.iter().copied().collect::<LinkedList<u8>>(), &want, true),
        2 => written(&v.iter().copied().collect::<VecDeque<u8>>(), &want, true),
        3 => written(&v.iter().copied().collect::<BTreeSet<u8>>(), &want, true),
        4 => {
            let mut c = Vec::new();
            let mut m = BTreeMap::new();
            for x in &v {
                m.insert(*x, 127 - *x);
                tlv(&mut c, SEQUENCE, &[INTEGER, 1, *x, INTEGER, 1, 127 - *x]);
            }
            written(&m, &one(SEQUENCE, &c), true);
        }
        _ => {
            let mut c = want.clone();
            c.extend_from_slice(&[SEQUENCE, 0]);
            c.extend_from_slice(&want);
            written(&vec![v.clone(), Vec::new(), v], &one(SEQUENCE, &c), true);
        }
    }
    cover("written");
}

/// The octets of an element with `n` octets of contents.
fn whole(n: usize) -> usize {
    let mut k = 1;
    if n >= 0x80 {
        while k < 9 && (k == 1 || n >> (8 * (k - 1)) != 0) {
            k += 1;
        }
    }
    1 + k + n
}

fn any_size() -> usize {
    let n = any_usize();
    assume(n <= 1 << 60);
    n
}

/// Parts of any size.
fn announces<T: bsn1_serde::ser::Serialize>(v: &T, n: usize) {
    match v.der_contents_len() {
        Ok(Some(m)) => require(m == n, "the size announced for the contents is what is written"),
        Ok(None) => (),
        Err(_) => require(false, "announcing a size succeeds"),
    }
    match bsn1_serde::to_der(v) {
        Ok(d) => {
            let b: &[u8] = (*d).as_ref();
            require(b.len() == whole(n), "identifier, exact length, contents");
            require(d.length().definite() == Some(n), "the length is that of the contents");
        }
        Err(_) => require(false, "serialization succeeds"),
    }
    cover("announced");
}

pub fn c13_sizes_text() {
    let n = any_size();
    announces(&text(octets(n)), n);
}

pub fn c13_sizes_octets() {
    let n = any_size();
    announces(&OctetString::from(octets(n)), n);
}

pub fn c13_sizes_vec() {
    let n = any_size();
    announces(&vec![OctetString::from(octets(n)), OctetString::from(octets(2))], whole(n) + 4);
}

pub fn c13_sizes_linked_list() {
    let n = any_size();
    let mut v = LinkedList::new();
    v.push_back(OctetString::from(octets(n)));
    announces(&v, whole(n));
}

pub fn c13_sizes_vec_deque() {
    let n = any_size();
    let mut v = VecDeque::new();
    v.push_back(OctetString::from(octets(n)));
    announces(&v, whole(n));
}

pub fn c13_sizes_btree_set() {
    let n = any_size();
    let mut v = BTreeSet::new();
    v.insert(OctetString::from(octets(n)));
    announces(&v, whole(n));
}

pub fn c13_sizes_btree_map() {
    let n = any_size();
    let mut v = BTreeMap::new();
    v.insert(true, OctetString::from(octets(n)));
    announces(&v, whole(3 + whole(n)));
}

pub fn c13_sizes_hash_map() {
    let n = any_size();
    let mut v = HashMap::new();
    v.insert(true, OctetString::from(octets(n)));
    announces(&v, whole(3 + whole(n)));
}

pub fn c13_sizes_nested() {
    let n = any_size();
    announces(&vec![vec![OctetString::from(octets(n))]], whole(whole(n)));
}
