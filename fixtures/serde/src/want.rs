//! What has to be written, put together independently of the library.

use crate::spec;
use bsn1::Error;
use bsn1_serde::ser::Serialize;
use rt::*;
use std::io::Write;

pub const BOOLEAN: u8 = 0x01;
pub const INTEGER: u8 = 0x02;
pub const OCTET_STRING: u8 = 0x04;
pub const UTF8_STRING: u8 = 0x0c;
pub const SEQUENCE: u8 = 0x30;
pub const SET: u8 = 0x31;

pub fn tlv(out: &mut Vec<u8>, id: u8, contents: &[u8]) {
    let mut l = [0u8; 9];
    let k = spec::put_length(contents.len(), &mut l);
    out.push(id);
    out.extend_from_slice(&l[..k]);
    out.extend_from_slice(contents);
}

pub fn one(id: u8, contents: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    tlv(&mut v, id, contents);
    v
}

/// The shortest two's complement octets of the value whose low 128 bits are `v`, `neg` extends it.
pub fn integer(v: u128, neg: bool) -> Vec<u8> {
    let fill = if neg { 0xffu8 } else { 0 };
    let mut o = [fill; 17];
    let mut i = 0;
    while i < 16 {
        o[16 - i] = (v >> (8 * i)) as u8;
        i += 1;
    }
    // one partition per number of octets
    let s = each(17);
    let mut i = 0;
    while i < s {
        assume(o[i] == fill);
        i += 1;
    }
    if s > 0 {
        assume((o[s] >= 0x80) == neg);
    }
    if s < 16 {
        assume(o[s] != fill || (o[s + 1] >= 0x80) != neg);
    }
    o[s..].to_vec()
}

pub fn same(a: &[u8], b: &[u8], rule: &'static str) {
    require(a.len() == b.len(), rule);
    let mut i = 0;
    while i < b.len() {
        require(a[i] == b[i], rule);
        i += 1;
    }
}

pub fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}

/// Every way to serialize `v` gives `want`, whose identifier is one octet.
pub fn written<T: Serialize>(v: &T, want: &[u8], announced: bool) {
    match bsn1_serde::to_der(v) {
        Ok(d) => same((*d).as_ref(), want, "identifier, exact length, contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    match bsn1_serde::to_ber(v) {
        Ok(d) => same((*d).as_ref(), want, "BER output is the DER output"),
        Err(_) => require(false, "serialization succeeds"),
    }
    streamed(v, want);
    sizes(v, want, announced);
}

pub fn streamed<T: Serialize>(v: &T, want: &[u8]) {
    let mut w = Vec::new();
    match bsn1_serde::write_der(v, &mut w) {
        Ok(()) => same(&w, want, "a writer gets the same octets"),
        Err(_) => require(false, "serialization succeeds"),
    }
    let mut w = Vec::new();
    match bsn1_serde::write_ber(v, &mut w) {
        Ok(()) => same(&w, want, "a writer gets the same octets"),
        Err(_) => require(false, "serialization succeeds"),
    }
}

/// The sizes announced are the sizes written.
pub fn sizes<T: Serialize>(v: &T, want: &[u8], announced: bool) {
    let mut w = Vec::new();
    require(v.write_id(&mut w).is_ok(), "serialization succeeds");
    same(&w, &want[..1], "the identifier written is that of the type");
    match v.id_len() {
        Ok(Some(n)) => require(n == 1, "the size announced for the identifier is what is written"),
        Ok(None) => require(!announced, "the size of the identifier is announced"),
        Err(_) => require(false, "announcing a size succeeds"),
    }
    let mut w = Vec::new();
    require(v.write_der_contents(&mut w).is_ok(), "serialization succeeds");
    let n = match v.der_contents_len() {
        Ok(n) => n,
        Err(_) => {
            require(false, "announcing a size succeeds");
            None
        }
    };
    match n {
        Some(n) => {
            require(announced, "no size is announced when a part announces none");
            require(n == w.len(), "the size announced for the contents is what is written");
        }
        None => require(!announced, "the size of the contents is announced"),
    }
}

/// A value that is as modest as asked about its sizes.
#[derive(Clone, Copy)]
pub struct Shy {
    pub id: bool,
    pub contents: bool,
    pub octet: u8,
}

impl Serialize for Shy {
    fn write_id<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        buffer.write_all(&[OCTET_STRING]).map_err(Error::from)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, buffer: &mut W) -> Result<(), Error> {
        buffer.write_all(&[self.octet]).map_err(Error::from)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        Ok(if self.id { Some(1) } else { None })
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        Ok(if self.contents { Some(1) } else { None })
    }
}
