//! No input panics, overflows or makes deserialization allocate what a length announces.

use bsn1_serde::de::Deserialize;
use bsn1_serde::OctetString;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

/// Length octets announcing anything, at most `k` after the first.
fn announced(v: &mut Vec<u8>, k: usize) {
    let k = each(k + 1);
    if k == 0 {
        v.push(any_u8());
        assume(v[v.len() - 1] != 0x80);
    } else {
        v.push(0x80 + k as u8);
        for _ in 0..k {
            v.push(any_u8());
        }
    }
}

fn decode<T: Deserialize>(v: &[u8]) {
    alloc_limit(1 << 12);
    let r = match each(4) {
        0 => bsn1_serde::parse_der::<T>(&mut &v[..]).is_ok(),
        1 => bsn1_serde::parse_ber::<T>(&mut &v[..]).is_ok(),
        2 => bsn1_serde::read_der::<_, T>(&mut &v[..]).is_ok(),
        _ => bsn1_serde::read_ber::<_, T>(&mut &v[..]).is_ok(),
    };
    alloc_unlimited();
    if r {
        cover("accepted");
    } else {
        cover("refused");
    }
}

fn single<T: Deserialize>(id: u8) {
    let mut v = vec![if any_bool() { id } else { any_u8() }];
    assume(v[0] & 0x1f != 0x1f);
    announced(&mut v, 8);
    v.extend_from_slice(&octets(each(3)));
    decode::<T>(&v);
}

/// An element in a container, with any length of its own.
fn inner<T: Deserialize>(id: u8, item: u8) {
    let mut c = vec![item];
    announced(&mut c, 8);
    c.extend_from_slice(&octets(each(3)));
    let mut v = vec![id, if any_bool() { c.len() as u8 } else { 0x80 }];
    v.extend_from_slice(&c);
    v.extend_from_slice(&[0, 0]);
    decode::<T>(&v);
}

/// More parts than one octet can count.
fn hundreds<T: Deserialize>(id: u8, part: &[u8]) {
    let mut c = Vec::new();
    for _ in 0..300 {
        c.extend_from_slice(part);
    }
    let mut v = vec![id, 0x82, (c.len() >> 8) as u8, c.len() as u8];
    v.extend_from_slice(&c);
    let r = if each(2) == 0 {
        bsn1_serde::parse_der::<T>(&mut &v[..]).is_ok()
    } else {
        bsn1_serde::parse_ber::<T>(&mut &v[..]).is_ok()
    };
    if r {
        cover("accepted");
    }
}

macro_rules! each_of {
    ($($f:ident $g:ident $t:ty, $($a:expr),*;)*) => { $(
        pub fn $f() {
            $g::<$t>($($a),*);
        }
    )* };
}
// reach: accepted, refused
each_of! {
    c05_value_bool single bool, 1;
    c05_value_i64 single i64, 2;
    c05_value_u128 single u128, 2;
    c05_value_string single String, 0x0c;
    c05_value_octet_string single OctetString, 4;
    c05_value_vec single Vec<bool>, 0x30;
    c05_value_btree_map single BTreeMap<bool, bool>, 0x30;
    c05_value_hash_map single HashMap<bool, bool>, 0x31;
    c05_value_in_vec inner Vec<OctetString>, 0x30, 4;
    c05_value_in_linked_list inner LinkedList<u8>, 0x30, 2;
    c05_value_in_vec_deque inner VecDeque<OctetString>, 0x30, 4;
    c05_value_in_btree_set inner BTreeSet<u8>, 0x30, 2;
    c05_value_in_hash_set inner HashSet<u8>, 0x31, 2;
    c05_value_in_lists inner Vec<Vec<bool>>, 0x30, 0x30;
}
// reach: refused
each_of! {
    c05_pair_in_btree_map inner BTreeMap<bool, bool>, 0x30, 0x30;
    c05_pair_in_hash_map inner HashMap<bool, bool>, 0x31, 0x30;
}
// reach: accepted
each_of! {
    c05_hundreds_vec hundreds Vec<bool>, 0x30, &[1, 1, 0];
    c05_hundreds_linked_list hundreds LinkedList<bool>, 0x30, &[1, 1, 0];
    c05_hundreds_vec_deque hundreds VecDeque<bool>, 0x30, &[1, 1, 0];
    c05_hundreds_btree_set hundreds BTreeSet<bool>, 0x30, &[1, 1, 0];
    c05_hundreds_hash_set hundreds HashSet<bool>, 0x31, &[1, 1, 0];
    c05_hundreds_btree_map hundreds BTreeMap<bool, bool>, 0x30, &[0x30, 6, 1, 1, 0, 1, 1, 0xff];
    c05_hundreds_hash_map hundreds HashMap<bool, bool>, 0x31, &[0x30, 6, 1, 1, 0, 1, 1, 0xff];
}
