//! What a safe caller holds after a successful call: a checked element, and views which do not overlap.

use crate::spec;
use bsn1::{Ber, BerRef, Der, DerRef, Id, IdRef};
use rt::*;

fn valid_id(b: &[u8]) {
    require(spec::id(b) == Ok(b.len()), "an identifier holds well-formed octets only");
    cover("identifier");
}

fn valid_der(b: &[u8]) {
    require(spec::tlv_der(b) == Ok(b.len()), "an element holds well-formed octets only");
    cover("definite");
}

fn valid_ber(b: &[u8]) {
    require(spec::tlv_ber(b) == Ok(b.len()), "an element holds well-formed octets only");
    cover("element");
}

pub fn c21_identifiers() {
    let mut v = octets(each(6));
    match each(3) {
        0 => {
            if let Ok(i) = IdRef::parse(&mut &v[..]) {
                valid_id(i.as_ref());
                valid_id(i.to_owned().as_ref() as &[u8]);
            }
        }
        1 => {
            if let Ok(i) = IdRef::parse_mut(&mut &mut v[..]) {
                valid_id((*i).as_ref());
            }
        }
        _ => {
            if let Ok(i) = Id::parse(&mut &v[..]) {
                valid_id(i.as_ref() as &[u8]);
            }
        }
    }
}

pub fn c21_der() {
    let mut v = octets(each(8));
    match each(3) {
        0 => {
            if let Ok(d) = DerRef::parse(&mut &v[..]) {
                valid_der(d.as_ref());
                valid_id(d.id().as_ref());
                valid_ber(<&BerRef>::from(d).as_ref());
                valid_der(d.to_owned().as_ref() as &[u8]);
                valid_ber(Ber::from(d).as_ref() as &[u8]);
            }
        }
        1 => {
            if let Ok(d) = DerRef::parse_mut(&mut &mut v[..]) {
                valid_der((*d).as_ref());
                valid_id((*d.mut_id()).as_ref());
            }
        }
        _ => {
            if let Ok(d) = Der::parse(&mut &v[..]) {
                valid_der(d.as_ref() as &[u8]);
                valid_ber(Ber::from(d).as_ref() as &[u8]);
            }
        }
    }
}

pub fn c21_ber() {
    let mut v = octets(each(7));
    match each(3) {
        0 => {
            if let Ok(d) = BerRef::parse(&mut &v[..]) {
                valid_ber(d.as_ref());
                valid_id(d.id().as_ref());
                valid_ber(d.to_owned().as_ref() as &[u8]);
            }
        }
        1 => {
            if let Ok(d) = BerRef::parse_mut(&mut &mut v[..]) {
                valid_ber((*d).as_ref());
                valid_id((*d.mut_id()).as_ref());
            }
        }
        _ => {
            if let Ok(d) = Ber::parse(&mut &v[..]) {
                valid_ber(d.as_ref() as &[u8]);
            }
        }
    }
}

/// Where a view starts and ends, relative to the octets.
fn range(whole: usize, v: &[u8]) -> (usize, usize) {
    let at = v.as_ptr() as usize - whole;
    (at, at + v.len())
}

macro_rules! apart {
    ($($name:ident $ty:ident $n:expr;)*) => { $(
        pub fn $name() {
            let n = each($n);
            let mut v = octets(n);
            let whole = v.as_ptr() as usize;
            let (id, len) = match spec::id(&v) {
                Ok(k) => match spec::length(&v[k..]) {
                    Ok((_, l)) => (k, l),
                    Err(_) => return,
                },
                Err(_) => return,
            };
            let mut rest = &mut v[..];
            let d = match $ty::parse_mut(&mut rest) {
                Ok(d) => d,
                Err(_) => return,
            };
            let (from, to) = range(whole, (*d).as_ref());
            let (left, end) = range(whole, rest);
            require(from == 0 && to <= left && end <= n, "the element and the rest do not overlap");
            let (i0, i1) = range(whole, (*d.mut_id()).as_ref());
            require(i0 == 0 && i1 == id, "only the identifier is reached through its view");
            let (c0, c1) = range(whole, d.mut_contents().as_mut());
            require(c0 >= id + len && c1 <= to, "only the contents are reached through their view");
            let (i, _, c) = d.disassemble_mut();
            let (i0, i1) = range(whole, (*i).as_ref());
            let (c0, c1) = range(whole, c.as_mut());
            require(i0 == 0 && i1 == id && c0 >= id + len && c1 <= to, "the parts do not overlap");
            cover("views");
        }
    )* };
}

// reach: views
apart! {
    c21_apart_der DerRef 8;
    c21_apart_ber BerRef 7;
}
