//! Which octets deserialization accepts, and what it makes of them.

use crate::model::*;
use crate::spec;
use bsn1::{ContentsRef, IdRef, Length};
use bsn1_serde::OctetString;
use rt::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

/// An element of one identifier octet, any definite length in one octet, and any contents.
fn primitive<T: Model>(most: usize) {
    let n = each(most + 1);
    let mut b = vec![any_u8(), n as u8];
    assume(b[0] & 0x1f != 0x1f);
    b.extend_from_slice(&octets(n));
    agree::<T>(&b, each(2) == 1);
}

macro_rules! primitives {
    ($($f:ident $t:ident $n:expr;)*) => { $(
        pub fn $f() {
            primitive::<$t>($n);
        }
    )* };
}
// reach: accepted, refused
primitives! {
    c15_bool bool 3;
    c15_i8 i8 3;
    c15_i16 i16 4;
    c15_i32 i32 6;
    c15_i64 i64 10;
    c15_i128 i128 18;
    c15_isize isize 10;
    c15_u8 u8 3;
    c15_u16 u16 4;
    c15_u32 u32 6;
    c15_u64 u64 10;
    c15_u128 u128 18;
    c15_usize usize 10;
    c15_string String 4;
}

pub fn c15_octet_string() {
    primitive::<OctetString>(4);
}

/// An identifier of two octets is that of no built-in type.
pub fn c15_long_identifiers() {
    let b = [any_u8() | 0x1f, any_u8(), 1, any_u8()];
    let ber = each(2) == 1;
    match each(10) {
        0 => agree::<bool>(&b, ber),
        1 => agree::<i8>(&b, ber),
        2 => agree::<u64>(&b, ber),
        3 => agree::<String>(&b, ber),
        4 => agree::<OctetString>(&b, ber),
        5 => agree::<Vec<u8>>(&b, ber),
        6 => agree::<BTreeSet<u8>>(&b, ber),
        7 => agree::<HashSet<u8>>(&b, ber),
        8 => agree::<BTreeMap<u8, u8>>(&b, ber),
        _ => agree::<HashMap<u8, u8>>(&b, ber),
    }
    cover("identified");
}

const TWO: [u8; 11] = [0x30, 6, 2, 1, 5, 2, 1, 7, 2, 1, 9];
const BOOLS: [u8; 11] = [0x30, 6, 1, 1, 0xff, 1, 1, 0, 1, 1, 0xff];
const NESTED: [u8; 11] = [0x30, 7, 0x30, 3, 1, 1, 0xff, 0x30, 0, 0x30, 0];
const STRINGS: [u8; 11] = [0x30, 7, 0x04, 2, 0, 0, 0x04, 1, 0, 0x04, 0];
const PAIRS: [u8; 21] = [0x30, 16, 0x30, 6, 2, 1, 5, 1, 1, 0xff, 0x30, 6, 2, 1, 7, 1, 1, 0, 1, 1, 0];
const BOOL_PAIRS: [u8; 21] = [0x30, 16, 0x30, 6, 1, 1, 0, 1, 1, 0xff, 0x30, 6, 1, 1, 0xff, 1, 1, 0, 1, 1, 0];

fn as_set(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    v[0] = 0x31;
    v
}

macro_rules! containers {
    ($($f:ident $t:ty, $b:expr, $w:expr;)*) => { $(
        pub fn $f() {
            agree::<$t>(&disturbed($b, 0, $w), each(2) == 1);
        }
    )* };
}
// reach: accepted, refused
containers! {
    c15_vec Vec<bool>, &BOOLS, 3;
    c15_vec_of_integers Vec<u8>, &TWO, 3;
    c15_vec_of_strings Vec<OctetString>, &STRINGS, 3;
    c15_nested Vec<Vec<bool>>, &NESTED, 3;
    c15_linked_list LinkedList<bool>, &BOOLS, 3;
    c15_vec_deque VecDeque<bool>, &BOOLS, 3;
    c15_btree_set BTreeSet<bool>, &BOOLS, 3;
    c15_btree_set_of_integers BTreeSet<u8>, &TWO, 2;
    c15_hash_set HashSet<bool>, &as_set(&BOOLS), 3;
    c15_hash_set_of_integers HashSet<u8>, &as_set(&TWO), 2;
    c15_btree_map BTreeMap<bool, bool>, &BOOL_PAIRS, 2;
    c15_btree_map_of_integers BTreeMap<u8, bool>, &PAIRS, 2;
    c15_hash_map HashMap<bool, bool>, &as_set(&BOOL_PAIRS), 2;
    c15_hash_map_of_integers HashMap<u8, bool>, &as_set(&PAIRS), 2;
}

const OPEN_PAIR: [u8; 12] = [0x30, 10, 0x30, 0x80, 1, 1, 0, 1, 1, 0xff, 0, 0];
// reach: accepted, refused
containers! {
    c15_open_vec Vec<bool>, &OPEN, 2;
    c15_open_btree_set BTreeSet<bool>, &OPEN, 2;
    c15_open_hash_set HashSet<bool>, &as_set(&OPEN), 2;
    c15_open_btree_map BTreeMap<bool, bool>, &OPEN_PAIRS, 2;
    c15_open_hash_map HashMap<bool, bool>, &as_set(&OPEN_PAIRS), 2;
    c15_open_pair BTreeMap<bool, bool>, &OPEN_PAIR, 2;
    c15_open_hash_pair HashMap<bool, bool>, &as_set(&OPEN_PAIR), 2;
}

const EXTRA: [u8; 13] = [0x30, 11, 0x30, 9, 1, 1, 0, 1, 1, 0xff, 1, 1, 0];
const OPEN_EXTRA: [u8; 17] = [0x30, 0x80, 0x30, 0x80, 1, 1, 0, 1, 1, 0xff, 1, 1, 0, 0, 0, 0, 0];
const MISSING: [u8; 7] = [0x30, 5, 0x30, 3, 1, 1, 0];
const OPEN_MISSING: [u8; 11] = [0x30, 0x80, 0x30, 0x80, 1, 1, 0, 0, 0, 0, 0];
// reach: refused
containers! {
    c15_extra_btree_map BTreeMap<bool, bool>, &EXTRA, 2;
    c15_extra_hash_map HashMap<bool, bool>, &as_set(&EXTRA), 2;
    c15_open_extra_btree_map BTreeMap<bool, bool>, &OPEN_EXTRA, 2;
    c15_open_extra_hash_map HashMap<bool, bool>, &as_set(&OPEN_EXTRA), 2;
    c15_missing_btree_map BTreeMap<bool, bool>, &MISSING, 2;
    c15_missing_hash_map HashMap<bool, bool>, &as_set(&MISSING), 2;
    c15_open_missing_btree_map BTreeMap<bool, bool>, &OPEN_MISSING, 1;
    c15_open_missing_hash_map HashMap<bool, bool>, &as_set(&OPEN_MISSING), 1;
}

// ---- indefinite lengths ----

/// `unsafe` entry point with the indefinite length: refused by a primitive whatever the contents.
fn refused<T: Model>(id: u8, constructed: u8) {
    let n = each(4);
    let c = octets(n);
    let id = [if any_bool() { id } else { constructed }];
    let i = unsafe { IdRef::from_bytes_unchecked(&id) };
    match unsafe { T::from_ber(i, Length::Indefinite, <&ContentsRef>::from(&c[..])) } {
        Ok(_) => require(false, "a primitive type refuses the indefinite length"),
        Err(e) => require(spec::class(&e) == spec::INDEFINITE, "with the error of the indefinite length"),
    }
    // and as an element
    let mut b = vec![id[0], 0x80];
    b.extend_from_slice(&octets(n));
    match bsn1_serde::parse_ber::<T>(&mut &b[..]) {
        Ok(_) => require(false, "a primitive type refuses the indefinite length"),
        Err(e) => {
            if spec::tlv_ber(&b).is_ok() {
                require(spec::class(&e) == spec::INDEFINITE, "with the error of the indefinite length");
                cover("element");
            }
        }
    }
}

macro_rules! refusals {
    ($($f:ident $t:ty, $id:expr, $con:expr;)*) => { $(
        pub fn $f() {
            refused::<$t>($id, $con);
            cover("refused");
        }
    )* };
}
// reach: element, refused
refusals! {
    c16_bool bool, 1, 1;
    c16_i8 i8, 2, 2;
    c16_i16 i16, 2, 2;
    c16_i32 i32, 2, 2;
    c16_i64 i64, 2, 2;
    c16_i128 i128, 2, 2;
    c16_isize isize, 2, 2;
    c16_u8 u8, 2, 2;
    c16_u16 u16, 2, 2;
    c16_u32 u32, 2, 2;
    c16_u64 u64, 2, 2;
    c16_u128 u128, 2, 2;
    c16_usize usize, 2, 2;
    c16_string String, 0x0c, 0x2c;
    c16_octet_string OctetString, 0x04, 0x24;
}

const OPEN: [u8; 12] = [0x30, 0x80, 1, 1, 0xff, 1, 1, 0, 0, 0, 0, 0];
const OPEN_STRINGS: [u8; 12] = [0x30, 0x80, 4, 0, 4, 2, 0, 0, 0, 0, 0, 0];
const OPEN_NESTED: [u8; 16] = [0x30, 0x80, 0x30, 0x80, 1, 1, 0xff, 0, 0, 0x30, 0x80, 0, 0, 0, 0, 0];
const HALF_OPEN: [u8; 12] = [0x30, 9, 0x30, 0x80, 4, 1, 0, 0, 0, 0x30, 0, 0];
const OPEN_PAIRS: [u8; 16] = [0x30, 0x80, 0x30, 0x80, 1, 1, 0, 1, 1, 0xff, 0, 0, 0, 0, 0, 0];
const OPEN_PARTS: [u8; 20] =
    [0x30, 0x80, 0x30, 0x80, 0x30, 0x80, 1, 1, 0, 0, 0, 0x30, 0x80, 0, 0, 0, 0, 0, 0, 0];
const ENDS_IN_ZEROS: [u8; 10] = [0x30, 6, 4, 0, 4, 2, 0, 0, 0, 0];
const PAIR_ENDS_IN_ZEROS: [u8; 10] = [0x30, 8, 0x30, 6, 4, 0, 4, 2, 0, 0];

macro_rules! open {
    ($($f:ident $t:ty, $b:expr, $w:expr;)*) => { $(
        pub fn $f() {
            agree::<$t>(&disturbed($b, 0, $w), true);
        }
    )* };
}
// reach: accepted, refused
open! {
    c16_vec Vec<bool>, &OPEN, 3;
    c16_vec_of_strings Vec<OctetString>, &OPEN_STRINGS, 3;
    c16_nested Vec<Vec<bool>>, &OPEN_NESTED, 2;
    c16_half_open Vec<Vec<OctetString>>, &HALF_OPEN, 3;
    c16_linked_list LinkedList<bool>, &OPEN, 2;
    c16_vec_deque VecDeque<bool>, &OPEN, 2;
    c16_btree_set BTreeSet<bool>, &OPEN, 2;
    c16_hash_set HashSet<bool>, &as_set(&OPEN), 2;
    c16_btree_map BTreeMap<bool, bool>, &OPEN_PAIRS, 2;
    c16_hash_map HashMap<bool, bool>, &as_set(&OPEN_PAIRS), 2;
    c16_btree_map_parts BTreeMap<Vec<bool>, Vec<bool>>, &OPEN_PARTS, 1;
    c16_hash_map_parts HashMap<Vec<bool>, Vec<bool>>, &as_set(&OPEN_PARTS), 1;
    c16_zeros_vec Vec<OctetString>, &ENDS_IN_ZEROS, 2;
    c16_zeros_linked_list LinkedList<OctetString>, &ENDS_IN_ZEROS, 2;
    c16_zeros_vec_deque VecDeque<OctetString>, &ENDS_IN_ZEROS, 2;
    c16_zeros_btree_set BTreeSet<OctetString>, &ENDS_IN_ZEROS, 1;
    c16_zeros_hash_set HashSet<OctetString>, &as_set(&ENDS_IN_ZEROS), 1;
    c16_zeros_btree_map BTreeMap<OctetString, OctetString>, &PAIR_ENDS_IN_ZEROS, 2;
    c16_zeros_hash_map HashMap<OctetString, OctetString>, &as_set(&PAIR_ENDS_IN_ZEROS), 2;
}

/// Contents handed over with the indefinite length have to end it.
fn unended<T: Model>(id: u8) {
    let c = octets(each(5));
    let n = c.len();
    assume(n < 2 || c[n - 2] != 0 || c[n - 1] != 0);
    let id = [id];
    let i = unsafe { IdRef::from_bytes_unchecked(&id) };
    let r = unsafe { T::from_ber(i, Length::Indefinite, <&ContentsRef>::from(&c[..])) };
    require(r.is_err(), "an indefinite length which is not ended is refused");
}

pub fn c16_unended() {
    match each(7) {
        0 => unended::<Vec<bool>>(0x30),
        1 => unended::<LinkedList<bool>>(0x30),
        2 => unended::<VecDeque<bool>>(0x30),
        3 => unended::<BTreeSet<bool>>(0x30),
        4 => unended::<HashSet<bool>>(0x31),
        5 => unended::<BTreeMap<bool, bool>>(0x30),
        _ => unended::<HashMap<bool, bool>>(0x31),
    }
    cover("refused");
}

/// More parts than one octet can count, definite and indefinite.
fn hundreds(id: u8, open: bool, last: u8) -> Vec<u8> {
    let mut v = if open { vec![id, 0x80] } else { vec![id, 0x82, 3, 0x84] };
    for i in 0..300 {
        v.extend_from_slice(&[1, 1, if i == 299 { last } else { 0xff }]);
    }
    if open {
        v.extend_from_slice(&[0, 0]);
    }
    v
}

fn hundreds_read<T: bsn1_serde::de::Deserialize, F: Fn(&T) -> bool>(id: u8, open: bool, fits: F) {
    let v = hundreds(id, open, 0);
    let mut r = &v[..];
    match bsn1_serde::parse_ber::<T>(&mut r) {
        Ok(x) => {
            require(fits(&x), "the value is that of the octets");
            require(r.len() == 0, "the octets of the element are consumed");
            cover("hundreds");
        }
        Err(_) => require(false, "a valid encoding is accepted"),
    }
}

fn all_but_last<'a>(it: impl Iterator<Item = &'a bool>) -> bool {
    let mut n = 0;
    for x in it {
        if *x != (n < 299) {
            return false;
        }
        n += 1;
    }
    n == 300
}

pub fn c15_hundreds() {
    match each(4) {
        0 => hundreds_read(0x30, false, |x: &Vec<bool>| all_but_last(x.iter())),
        1 => hundreds_read(0x30, false, |x: &LinkedList<bool>| all_but_last(x.iter())),
        2 => hundreds_read(0x30, false, |x: &VecDeque<bool>| all_but_last(x.iter())),
        _ => hundreds_read(0x31, false, |x: &HashSet<bool>| x.len() == 2),
    }
}

pub fn c16_hundreds() {
    match each(4) {
        0 => hundreds_read(0x30, true, |x: &Vec<bool>| all_but_last(x.iter())),
        1 => hundreds_read(0x30, true, |x: &LinkedList<bool>| all_but_last(x.iter())),
        2 => hundreds_read(0x30, true, |x: &VecDeque<bool>| all_but_last(x.iter())),
        _ => hundreds_read(0x31, true, |x: &HashSet<bool>| x.len() == 2),
    }
}
