//! What happens when a writer, a reader or a nested value fails.

use crate::faults::*;
use crate::want::*;
use bsn1_serde::OctetString;
use rt::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

pub fn c17_write_integer() {
    let v = any_u32();
    assume(v >> 24 != 0 && v >> 31 == 0);
    narrow(&v, &[INTEGER, 4, (v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]);
}

pub fn c17_write_bool() {
    narrow(&true, &[BOOLEAN, 1, 0xff]);
}

pub fn c17_write_string() {
    let v = octets(3);
    narrow(&text(v.clone()), &one(UTF8_STRING, &v));
}

pub fn c17_write_octet_string() {
    let v = octets(3);
    let want = one(OCTET_STRING, &v);
    narrow(&OctetString::from(v), &want);
}

fn two() -> (Vec<u8>, Vec<u8>) {
    let v = octets(2);
    assume(v[0] < v[1] && v[1] < 0x80);
    let want = vec![SEQUENCE, 6, INTEGER, 1, v[0], INTEGER, 1, v[1]];
    (v, want)
}

pub fn c17_write_lists() {
    let (v, want) = two();
    match each(4) {
        0 => narrow(&v, &want),
        1 => narrow(&v.iter().copied().collect::<LinkedList<u8>>(), &want),
        2 => narrow(&v.iter().copied().collect::<VecDeque<u8>>(), &want),
        _ => narrow(&v.iter().copied().collect::<BTreeSet<u8>>(), &want),
    }
}

pub fn c17_write_maps() {
    let v = octets(2);
    assume(v[0] < 0x80 && v[1] < 0x80);
    let mut want = vec![SEQUENCE, 8, SEQUENCE, 6, INTEGER, 1, v[0], INTEGER, 1, v[1]];
    match each(3) {
        0 => {
            let mut m = BTreeMap::new();
            m.insert(v[0], v[1]);
            narrow(&m, &want);
        }
        1 => {
            want[0] = SET;
            let mut m = HashMap::new();
            m.insert(v[0], v[1]);
            narrow(&m, &want);
        }
        _ => {
            let mut m = HashSet::new();
            m.insert(v[0]);
            narrow(&m, &[SET, 3, INTEGER, 1, v[0]]);
        }
    }
}

/// The same for values that do not announce their sizes.
pub fn c17_write_shy() {
    let (a, b) = (any_u8(), any_u8());
    let (p, q) = match each(6) {
        0 => (0, 0),
        1 => (1, 0),
        2 => (2, 0),
        3 => (0, 1),
        4 => (0, 2),
        _ => (3, 3),
    };
    let x = Shy { id: p & 1 == 0, contents: p & 2 == 0, octet: a };
    let y = Shy { id: q & 1 == 0, contents: q & 2 == 0, octet: b };
    let mut want = vec![SEQUENCE, 6, OCTET_STRING, 1, a, OCTET_STRING, 1, b];
    match each(3) {
        0 => narrow(&vec![x, y], &want),
        1 => {
            want.insert(0, 8);
            want.insert(0, SEQUENCE);
            let mut m = BTreeMap::new();
            m.insert(x, y);
            narrow(&m, &want)
        }
        _ => {
            want.insert(0, 8);
            want.insert(0, SET);
            let mut m = HashMap::new();
            m.insert(x, y);
            narrow(&m, &want)
        }
    }
}

pub fn c17_value() {
    let log = Log { failed: Cell::new(false) };
    serialized(&faulty(&log, 3), &log, &[OCTET_STRING, 2, 3, 0]);
}

pub fn c17_value_in_vec() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&vec![a, b], &log, &COUPLE);
}

pub fn c17_value_in_linked_list() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    let mut l = LinkedList::new();
    l.push_back(a);
    l.push_back(b);
    serialized(&l, &log, &COUPLE);
}

pub fn c17_value_in_vec_deque() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    let mut l = VecDeque::new();
    l.push_back(a);
    l.push_back(b);
    serialized(&l, &log, &COUPLE);
}

pub fn c17_value_in_btree_set() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    let mut l = BTreeSet::new();
    l.insert(a);
    l.insert(b);
    serialized(&l, &log, &COUPLE);
}

pub fn c17_value_in_hash_set() {
    let log = Log { failed: Cell::new(false) };
    let mut l = HashSet::new();
    l.insert(faulty(&log, 3));
    serialized(&l, &log, &[SET, 4, OCTET_STRING, 2, 3, 0]);
}

pub fn c17_value_in_btree_map() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    let mut l = BTreeMap::new();
    l.insert(a, b);
    let mut want = vec![SEQUENCE, 10];
    want.extend_from_slice(&COUPLE);
    serialized(&l, &log, &want);
}

pub fn c17_value_in_hash_map() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    let mut l = HashMap::new();
    l.insert(a, b);
    let mut want = vec![SET, 10];
    want.extend_from_slice(&COUPLE);
    serialized(&l, &log, &want);
}

pub fn c17_value_deep() {
    let log = Log { failed: Cell::new(false) };
    let v = vec![vec![faulty(&log, 3)]];
    serialized(&v, &log, &[SEQUENCE, 6, SEQUENCE, 4, OCTET_STRING, 2, 3, 0]);
}

pub fn c17_read() {
    let v = any_u8();
    assume(v < 0x80);
    let ber = each(2) == 1;
    match each(3) {
        0 => read::<u8, _>(&[INTEGER, 1, v], ber, |x| *x == v),
        1 => read::<Vec<u8>, _>(&[SEQUENCE, 6, INTEGER, 1, v, INTEGER, 1, v], ber, |x| {
            x.len() == 2 && x[0] == v && x[1] == v
        }),
        _ => read::<BTreeMap<u8, u8>, _>(&[SEQUENCE, 8, SEQUENCE, 6, INTEGER, 1, v, INTEGER, 1, v], ber, |x| {
            x.len() == 1 && x.get(&v) == Some(&v)
        }),
    }
    cover("done");
}

pub fn c17_read_open() {
    let v = any_u8();
    assume(v < 0x80);
    read::<Vec<u8>, _>(&[SEQUENCE, 0x80, INTEGER, 1, v, 0, 0], true, |x| x.len() == 1 && x[0] == v);
    cover("done");
}

pub fn c17_element() {
    let v = octets(2);
    let mut b = vec![SEQUENCE, 6, 4, 1, v[0], 4, 1, v[1]];
    match each(8) {
        0 => nested::<Vec<Refusing>, _>(&b, |x| x.len() == 2 && x[0].0 == v[0] && x[1].0 == v[1]),
        1 => nested::<LinkedList<Refusing>, _>(&b, |x| x.len() == 2),
        2 => nested::<VecDeque<Refusing>, _>(&b, |x| x.len() == 2 && x[0].0 == v[0] && x[1].0 == v[1]),
        3 => {
            assume(v[0] != v[1]);
            nested::<BTreeSet<Refusing>, _>(&b, |x| x.len() == 2);
        }
        4 => {
            assume(v[0] != v[1]);
            b[0] = SET;
            nested::<HashSet<Refusing>, _>(&b, |x| x.len() == 2);
        }
        5 => {
            b.insert(0, 8);
            b.insert(0, SEQUENCE);
            nested::<BTreeMap<Refusing, Refusing>, _>(&b, |x| x.len() == 1);
        }
        6 => {
            b.insert(0, 8);
            b.insert(0, SET);
            nested::<HashMap<Refusing, Refusing>, _>(&b, |x| x.len() == 1);
        }
        _ => {
            b.insert(0, 8);
            b.insert(0, SEQUENCE);
            nested::<Vec<Vec<Refusing>>, _>(&b, |x| x.len() == 1 && x[0].len() == 2);
        }
    }
    cover("done");
}

/// The second of two pairs.
pub fn c17_element_in_pairs() {
    let v = octets(4);
    let mut b = vec![SEQUENCE, 16];
    for i in 0..2 {
        b.extend_from_slice(&[SEQUENCE, 6, 4, 1, v[2 * i], 4, 1, v[2 * i + 1]]);
    }
    assume(v[0] != v[2]);
    if each(2) == 0 {
        nested::<BTreeMap<Refusing, Refusing>, _>(&b, |x| x.len() == 2);
    } else {
        b[0] = SET;
        nested::<HashMap<Refusing, Refusing>, _>(&b, |x| x.len() == 2);
    }
    cover("done");
}
