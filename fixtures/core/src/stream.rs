//! Reading from a stream compared with parsing the same octets from a slice.

use crate::ident::long_id;
use crate::slice::{deep, enclosed, levels};
use crate::spec;
use bsn1::{Ber, Der, Error, Id, Length};
use rt::*;
use std::io::{self, Read};

/// A stream of octets which splits them over the calls in any way, and may fail at one place.
pub struct Pieces {
    pub v: Vec<u8>,
    pub at: usize,
    /// Fails when this many octets were read.
    pub fail: usize,
    /// What it fails with.
    pub code: u32,
    /// Calls answered with failure or end of input.
    pub ended: usize,
    /// Gives as much as it can when set, any number of octets otherwise.
    pub whole: bool,
}

pub const NEVER: usize = usize::MAX;

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.at == self.fail {
            require(self.ended == 0, "a reader which fails is not asked again");
            self.ended += 1;
            return Err(outside(self.code));
        }
        let end = if self.fail < self.v.len() { self.fail } else { self.v.len() };
        let rest = end - self.at;
        if rest == 0 || buf.len() == 0 {
            require(self.ended < 8, "a reader at its end is not asked forever");
            self.ended += 1;
            return Ok(0);
        }
        let k = if !self.whole {
            1 + each(rest)
        } else if rest < buf.len() {
            rest
        } else {
            buf.len()
        };
        assume(k <= buf.len());
        buf[..k].copy_from_slice(&self.v[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

fn stream(v: &[u8]) -> Pieces {
    Pieces { v: v.to_vec(), at: 0, fail: NEVER, code: 0, ended: 0, whole: false }
}

/// `got`: the octets of the result or the error; `want`: size of the element or the errors.
fn compare(got: Result<&[u8], &Error>, used: usize, v: &[u8], want: Result<usize, u32>) {
    match (got, want) {
        (Ok(b), Ok(k)) => {
            require(b.len() == k, "the result is exactly the element");
            let mut i = 0;
            while i < k {
                require(b[i] == v[i], "the result has the octets of the stream");
                i += 1;
            }
            require(used == k, "no octet past the element is consumed");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(e) & w != 0, "refused with the error the slice parser gives");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed element is accepted"),
    }
}

fn octets_of<T: AsRef<[u8]>>(r: &Result<T, Error>) -> Result<&[u8], &Error> {
    match r {
        Ok(b) => Ok(b.as_ref()),
        Err(e) => Err(e),
    }
}

pub fn c04_id() {
    let v = octets(each(10));
    let mut s = stream(&v);
    let r = Id::parse(&mut s);
    compare(octets_of(&r), s.at, &v, spec::id(&v));
}

pub fn c04_length() {
    let v = octets(each(12));
    let mut s = stream(&v);
    let r = Length::parse(&mut s);
    match (r, spec::length(&v)) {
        (Ok(l), Ok((w, k))) => {
            require(l.definite() == w, "the length is the number in the octets");
            require(s.at == k, "no octet past the length is consumed");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the error the slice parser gives");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed octets are refused"),
        (Err(_), Ok(_)) => require(false, "a well-formed length is accepted"),
    }
}

fn octets_der(r: &Result<Der, Error>) -> Result<&[u8], &Error> {
    match r {
        Ok(b) => Ok((**b).as_ref()),
        Err(e) => Err(e),
    }
}

fn octets_ber(r: &Result<Ber, Error>) -> Result<&[u8], &Error> {
    match r {
        Ok(b) => Ok((**b).as_ref()),
        Err(e) => Err(e),
    }
}

pub fn c04_der() {
    let v = octets(each(9));
    let mut s = stream(&v);
    let r = Der::parse(&mut s);
    compare(octets_der(&r), s.at, &v, spec::tlv_der(&v));
}

pub fn c04_ber() {
    let v = octets(each(8));
    let mut s = stream(&v);
    let r = Ber::parse(&mut s);
    compare(octets_ber(&r), s.at, &v, spec::tlv_ber(&v));
}

/// Nothing but indefinite-length elements, end-of-contents and NULLs.
pub fn c04_ber_nested() {
    let n = each(6);
    let mut v = Vec::new();
    for _ in 0..n {
        match each(3) {
            0 => v.extend_from_slice(&[0x30, 0x80]),
            1 => v.extend_from_slice(&[0x00, 0x00]),
            _ => v.extend_from_slice(&[0x05, 0x00]),
        }
    }
    let mut s = stream(&v);
    s.whole = true;
    let r = Ber::parse(&mut s);
    compare(octets_ber(&r), s.at, &v, spec::tlv_ber(&v));
}

pub fn c04_ber_deep() {
    let n = levels();
    let mut v = deep(n, each(3));
    if any_bool() {
        v.push(any_u8());
    }
    let mut s = stream(&v);
    s.whole = true;
    let r = Ber::parse(&mut s);
    compare(octets_ber(&r), s.at, &v, spec::tlv_ber(&v));
}

pub fn c04_ber_enclosed() {
    let v = enclosed();
    let mut s = stream(&v);
    s.whole = true;
    let r = Ber::parse(&mut s);
    compare(octets_ber(&r), s.at, &v, spec::tlv_ber(&v));
}

pub fn c04_ber_wide() {
    let mut v = vec![0x30, 0x80];
    for _ in 0..300 {
        v.extend_from_slice(&[4, 1, any_u8()]);
    }
    v.extend_from_slice(&[0, 0, any_u8()]);
    let mut s = stream(&v);
    s.whole = true;
    let r = Ber::parse(&mut s);
    compare(octets_ber(&r), s.at, &v, spec::tlv_ber(&v));
}

pub fn c04_long_id() {
    let v = long_id();
    let mut s = stream(&v);
    s.whole = true;
    let r = Id::parse(&mut s);
    compare(octets_of(&r), s.at, &v, spec::id(&v));
}

/// Contents of sizes around the steps in which they may be read.
fn sized() -> (Vec<u8>, usize) {
    let n = match each(8) {
        0 => 21,
        1 => 22,
        2 => 127,
        3 => 128,
        4 => 255,
        5 => 256,
        6 => 511,
        _ => 1200,
    };
    let cut = each(3);
    let mut l = [0u8; 9];
    let k = spec::put_length(n, &mut l);
    let mut v = vec![any_u8() & 0xfe & !0x10];
    v.extend_from_slice(&l[..k]);
    v.extend_from_slice(&octets(n));
    match cut {
        0 => (),
        1 => v.push(any_u8()),
        _ => {
            v.pop();
        }
    }
    (v, 1 + k + n)
}

fn sized_result(got: Result<&[u8], &Error>, s: &Pieces, v: &[u8], size: usize) {
    match got {
        Ok(b) => {
            require(v.len() >= size, "contents shorter than announced are refused");
            require(b.len() == size, "the result is exactly the element");
            require(*b == v[..size], "the result has the octets of the stream");
            require(s.at == size, "no octet past the element is consumed");
            cover("accepted");
        }
        Err(e) => {
            require(v.len() < size, "a well-formed element is accepted");
            require(spec::class(e) == spec::UNTERMINATED, "refused as unterminated");
            cover("refused");
        }
    }
}

pub fn c04_der_sizes() {
    let (v, size) = sized();
    let mut s = stream(&v);
    s.whole = true;
    let r = Der::parse(&mut s);
    sized_result(octets_der(&r), &s, &v, size);
}

pub fn c04_ber_sizes() {
    let (v, size) = sized();
    let mut s = stream(&v);
    s.whole = true;
    let r = Ber::parse(&mut s);
    sized_result(octets_ber(&r), &s, &v, size);
}

fn failed(e: Option<&Error>, s: &Pieces, needs: bool, want: Result<(), u32>) {
    if needs {
        match e.map(|e| e.root_cause()) {
            Some(Error::Io(e)) => {
                require(is_outside(e, s.code), "the reader's own error is returned");
                cover("reader failed");
            }
            _ => require(false, "an error of the reader is returned"),
        }
    } else {
        match (e, want) {
            (None, Ok(())) => cover("finished before"),
            (Some(e), Err(w)) => {
                require(spec::class(e) & w != 0, "refused with the error the slice parser gives");
            }
            _ => require(false, "a reader that fails later changes nothing"),
        }
    }
}

/// The octets before the failure decide whether it is reached.
fn reached(want: Result<usize, u32>) -> bool {
    match want {
        Ok(_) => false,
        Err(w) => w == spec::UNTERMINATED,
    }
}

pub fn c04_failing_id() {
    let n = each(5);
    let v = octets(n);
    let mut s = stream(&v);
    s.fail = n;
    s.code = CODES[n % 6];
    let r = Id::parse(&mut s);
    let want = spec::id(&v);
    failed(r.as_ref().err(), &s, reached(want), want.map(|_| ()));
}

pub fn c04_failing_der() {
    let n = each(6);
    let v = octets(n);
    let mut s = stream(&v);
    s.fail = n;
    s.code = CODES[n % 6];
    let r = Der::parse(&mut s);
    let want = spec::tlv_der(&v);
    // an overlong length may be refused before the stream fails
    if let Err(w) = want {
        assume(w & spec::UNTERMINATED == 0 || w == spec::UNTERMINATED);
    }
    failed(r.as_ref().err(), &s, reached(want), want.map(|_| ()));
}

pub fn c04_failing_ber() {
    let n = each(6);
    let v = octets(n);
    let mut s = stream(&v);
    s.fail = n;
    s.code = CODES[n % 6];
    let r = Ber::parse(&mut s);
    let want = spec::tlv_ber(&v);
    if let Err(w) = want {
        assume(w & spec::UNTERMINATED == 0 || w == spec::UNTERMINATED);
    }
    failed(r.as_ref().err(), &s, reached(want), want.map(|_| ()));
}

/// Contents long enough to be read in several steps, which break off.
fn broken() -> Pieces {
    let n = [21, 22, 128, 300, 1200][each(5)];
    let mut l = [0u8; 9];
    let k = spec::put_length(n, &mut l);
    let mut v = vec![4];
    v.extend_from_slice(&l[..k]);
    v.extend_from_slice(&octets(n));
    let mut s = stream(&v);
    s.whole = true;
    s.fail = 1 + k + [0, 1, 22, 23, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, n - 1][each(14)];
    assume(s.fail < v.len());
    s.code = any_code();
    s
}

pub fn c04_failing_der_sizes() {
    let mut s = broken();
    let r = Der::parse(&mut s);
    failed(r.as_ref().err(), &s, true, Ok(()));
}

pub fn c04_failing_ber_sizes() {
    let mut s = broken();
    let r = Ber::parse(&mut s);
    failed(r.as_ref().err(), &s, true, Ok(()));
}

/// The same inside indefinite length, and in the closing octets.
pub fn c04_failing_ber_open() {
    let v = [0x30, 0x80, 4, 2, any_u8(), any_u8(), 0x30, 0x80, 0, 0, 0, 0];
    let mut s = stream(&v);
    s.whole = true;
    s.fail = each(v.len());
    s.code = any_code();
    let r = Ber::parse(&mut s);
    failed(r.as_ref().err(), &s, true, Ok(()));
}
