//! Octet strings: what goes in comes out.

use crate::model::utf8;
use bsn1_serde::OctetString;
use rt::*;
use std::cmp::Ordering;

fn eq(a: &[u8], b: &[u8], rule: &'static str) {
    require(a.len() == b.len() && a == b, rule);
}

/// Owned or borrowed octet strings made in each way from any octets.
fn each_way<F: FnOnce(OctetString)>(v: &Vec<u8>, f: F) {
    let s = unsafe { String::from_utf8_unchecked(v.clone()) };
    match each(8) {
        0 => f(OctetString::new(v)),
        1 => f(OctetString::new(&v[..])),
        2 => f(OctetString::new(&s)),
        3 => f(OctetString::new(&s[..])),
        4 => f(OctetString::from(&v[..])),
        5 => f(OctetString::from(v.clone())),
        6 => f(OctetString::from(&s[..])),
        _ => f(OctetString::from(s)),
    }
}

pub fn c24_octet_string() {
    let n = any_usize();
    assume(n <= isize::MAX as usize);
    let v = octets(n);
    each_way(&v, |o| {
        eq(o.as_ref(), &v, "an octet string has the octets it is made of");
        match each(3) {
            0 => eq(&o.into_vec(), &v, "the vector has the octets of the octet string"),
            1 => eq(&Vec::from(o), &v, "the vector has the octets of the octet string"),
            _ => {
                let c = o.clone();
                drop(o);
                eq(c.as_ref(), &v, "a clone has the octets of the original");
                eq(&c.into_vec(), &v, "the vector has the octets of the octet string");
            }
        }
        cover("kept");
    });
}

pub fn c24_octet_string_text() {
    let v = octets(each(5));
    let o = if each(2) == 0 { OctetString::new(&v) } else { OctetString::from(v.clone()) };
    match String::try_from(o) {
        Ok(s) => {
            require(utf8(&v), "what is not UTF-8 does not become text");
            eq(s.as_bytes(), &v, "the text has the octets of the octet string");
            cover("text");
        }
        Err(e) => {
            require(!utf8(&v), "what is UTF-8 becomes text");
            eq(e.as_bytes(), &v, "the octets are handed back");
            cover("refused");
        }
    }
}

pub fn c24_octet_string_order() {
    let v = octets(each(3));
    let w = octets(each(3));
    let a = if each(2) == 0 { OctetString::new(&v) } else { OctetString::from(v.clone()) };
    let b = if each(2) == 0 { OctetString::new(&w) } else { OctetString::from(w.clone()) };
    let mut i = 0;
    let want = loop {
        if i == v.len() || i == w.len() {
            break if v.len() == w.len() {
                Ordering::Equal
            } else if v.len() < w.len() {
                Ordering::Less
            } else {
                Ordering::Greater
            };
        }
        if v[i] != w[i] {
            break if v[i] < w[i] { Ordering::Less } else { Ordering::Greater };
        }
        i += 1;
    };
    require((a == b) == (want == Ordering::Equal), "octet strings are equal when their octets are");
    require(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want), "octet strings are ordered by their octets");
    match want {
        Ordering::Less => cover("less"),
        Ordering::Equal => cover("equal"),
        Ordering::Greater => cover("greater"),
    }
}
