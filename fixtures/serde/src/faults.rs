//! Writers, readers and values which fail.

use crate::spec;
use crate::want::*;
use bsn1::{ContentsRef, Error, IdRef, Length};
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use rt::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub fn broken(e: &Error, code: u32) -> bool {
    match e.root_cause() {
        Error::Io(e) => is_outside(e, code),
        _ => false,
    }
}

/// A writer which takes the octets in pieces and has room for some.
pub struct Narrow {
    pub got: Vec<u8>,
    room: usize,
    /// Octets taken per call, any number when 0.
    piece: usize,
    failed: bool,
    /// What it fails with.
    code: u32,
    /// Takes nothing more instead of failing.
    full: bool,
}

impl Write for Narrow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        require(!self.failed, "nothing is written after a failure");
        if b.len() == 0 {
            return Ok(0);
        }
        let rest = self.room - self.got.len();
        if rest == 0 {
            self.failed = true;
            return if self.full { Ok(0) } else { Err(outside(self.code)) };
        }
        let mut k = if rest < b.len() { rest } else { b.len() };
        if self.piece != 0 && self.piece < k {
            k = self.piece;
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Writes `v`, whose encoding is `want`, to a writer that may fail anywhere.
pub fn narrow<T: Serialize>(v: &T, want: &[u8]) {
    let room = each(want.len() + 1);
    let (code, full) = if each(2) == 0 { (0, true) } else { (CODES[room % 6], false) };
    let mut w = Narrow { got: Vec::new(), room, piece: each(3), failed: false, code, full };
    let r = if each(2) == 1 { bsn1_serde::write_der(v, &mut w) } else { bsn1_serde::write_ber(v, &mut w) };
    same(&w.got, &want[..room], "what is written is the start of the encoding");
    match r {
        Ok(()) => {
            require(room == want.len(), "a failing writer makes the call fail");
            cover("whole");
        }
        Err(e) => {
            require(room < want.len(), "a writer which does not fail gets everything");
            require(w.full || broken(&e, w.code), "the error is the writer's");
            cover("cut");
        }
    }
}

/// How a value is serialized, kept by the values of one run.
pub struct Log {
    pub failed: Cell<bool>,
}

pub const NOWHERE: usize = 0;
pub const ID_LEN: usize = 1;
pub const CONTENTS_LEN: usize = 2;
pub const ID: usize = 3;
pub const CONTENTS: usize = 4;
pub const MIDWAY: usize = 5;

/// A value which fails at one place.
#[derive(Clone, Copy)]
pub struct Faulty<'a> {
    log: &'a Log,
    key: u8,
    at: usize,
    /// Announces no sizes when unset.
    announced: bool,
}

impl Faulty<'_> {
    fn step(&self, at: usize) -> Result<(), Error> {
        require(!self.log.failed.get(), "nothing is serialized after a failure");
        if self.at == at {
            self.log.failed.set(true);
            Err(Error::BadEoc)
        } else {
            Ok(())
        }
    }
}

impl Serialize for Faulty<'_> {
    fn write_id<W: ?Sized + Write>(&self, b: &mut W) -> Result<(), Error> {
        self.step(ID)?;
        b.write_all(&[OCTET_STRING]).map_err(Error::from)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, b: &mut W) -> Result<(), Error> {
        self.step(CONTENTS)?;
        b.write_all(&[self.key]).map_err(Error::from)?;
        self.step(MIDWAY)?;
        b.write_all(&[0]).map_err(Error::from)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        self.step(ID_LEN)?;
        Ok(if self.announced { Some(1) } else { None })
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        self.step(CONTENTS_LEN)?;
        Ok(if self.announced { Some(2) } else { None })
    }
}

impl PartialEq for Faulty<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.key == o.key
    }
}
impl Eq for Faulty<'_> {}
impl PartialOrd for Faulty<'_> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.key.partial_cmp(&o.key)
    }
}
impl Ord for Faulty<'_> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.key.cmp(&o.key)
    }
}
impl std::hash::Hash for Faulty<'_> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        h.write_u8(self.key)
    }
}

/// A writer which does not expect anything after a failure.
pub struct Watched<'a> {
    log: &'a Log,
    got: Vec<u8>,
}

impl Write for Watched<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        require(!self.log.failed.get(), "nothing is written after a failure");
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn serialized<T: Serialize>(v: &T, log: &Log, want: &[u8]) {
    let mut w = Watched { log, got: Vec::new() };
    let (r, inner) = match each(5) {
        0 => (bsn1_serde::write_der(v, &mut w), false),
        1 => (bsn1_serde::write_ber(v, &mut w), false),
        2 => (
            match bsn1_serde::to_der(v) {
                Ok(d) => {
                    w.got = (*d).as_ref().to_vec();
                    Ok(())
                }
                Err(e) => Err(e),
            },
            false,
        ),
        3 => (
            match bsn1_serde::to_ber(v) {
                Ok(d) => {
                    w.got = (*d).as_ref().to_vec();
                    Ok(())
                }
                Err(e) => Err(e),
            },
            false,
        ),
        _ => (
            match v.der_contents_len() {
                Ok(_) => Ok(()),
                Err(e) => Err(e),
            },
            true,
        ),
    };
    match r {
        Ok(()) => {
            require(!log.failed.get(), "a value which fails makes the call fail");
            if !inner {
                same(&w.got, want, "a success comes with the whole encoding");
                cover("written");
            }
        }
        Err(e) => {
            require(log.failed.get(), "an error is some value's");
            require(spec::class(e.root_cause()) == spec::BAD_EOC, "the error is the value's");
            cover("failed");
        }
    }
}

pub fn faulty(log: &Log, key: u8) -> Faulty {
    Faulty { log, key, at: each(6), announced: each(2) == 1 }
}

pub fn sound(log: &Log, key: u8) -> Faulty {
    Faulty { log, key, at: NOWHERE, announced: each(2) == 1 }
}

pub fn couple(log: &Log) -> (Faulty, Faulty) {
    if each(2) == 0 {
        (faulty(log, 3), sound(log, 7))
    } else {
        (sound(log, 3), faulty(log, 7))
    }
}

pub const COUPLE: [u8; 10] = [SEQUENCE, 8, OCTET_STRING, 2, 3, 0, OCTET_STRING, 2, 7, 0];

pub struct Source {
    v: Vec<u8>,
    at: usize,
    fail: usize,
    piece: usize,
    failed: bool,
    /// What it fails with.
    code: u32,
}

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        require(!self.failed, "nothing is read after a failure");
        if self.at == self.fail {
            self.failed = true;
            return Err(outside(self.code));
        }
        let rest = self.fail - self.at;
        let mut k = if rest < b.len() { rest } else { b.len() };
        if self.piece != 0 && self.piece < k {
            k = self.piece;
        }
        b[..k].copy_from_slice(&self.v[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}

pub fn source(b: &[u8]) -> Source {
    let fail = each(b.len() + 1);
    Source { v: b.to_vec(), at: 0, fail, piece: each(3), failed: false, code: any_code() }
}

pub fn read<T: Deserialize, F: Fn(&T) -> bool>(b: &[u8], ber: bool, fits: F) {
    let mut s = source(b);
    let r = if ber { bsn1_serde::read_ber::<_, T>(&mut s) } else { bsn1_serde::read_der::<_, T>(&mut s) };
    match r {
        Ok(v) => {
            require(s.fail == b.len(), "a failing reader makes the call fail");
            require(fits(&v), "the value is the one encoded");
            require(s.at == b.len(), "the whole element is read");
            cover("read");
        }
        Err(e) => {
            require(s.fail < b.len(), "a reader which does not fail gives the value");
            require(broken(&e, s.code), "the error is the reader's");
            cover("cut");
        }
    }
}

pub static FAILED: AtomicUsize = AtomicUsize::new(0);

/// Fails when its contents say so, and does not expect to be asked for after that.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Refusing(pub u8);

pub fn refusing(c: &ContentsRef) -> Result<Refusing, Error> {
    require(FAILED.load(Relaxed) == 0, "nothing is deserialized after a failure");
    let b: &[u8] = c.as_ref();
    if b[0] >= 0x80 {
        FAILED.store(1, Relaxed);
        Err(Error::BadEoc)
    } else {
        Ok(Refusing(b[0]))
    }
}

impl Deserialize for Refusing {
    unsafe fn from_ber(_: &IdRef, _: Length, c: &ContentsRef) -> Result<Self, Error> {
        refusing(c)
    }
    fn from_der(_: &IdRef, c: &ContentsRef) -> Result<Self, Error> {
        refusing(c)
    }
}

pub fn nested<T: Deserialize, F: Fn(&T) -> bool>(b: &[u8], fits: F) {
    let r = match each(4) {
        0 => bsn1_serde::parse_der::<T>(&mut &b[..]),
        1 => bsn1_serde::parse_ber::<T>(&mut &b[..]),
        2 => bsn1_serde::read_der::<_, T>(&mut &b[..]),
        _ => bsn1_serde::read_ber::<_, T>(&mut &b[..]),
    };
    match r {
        Ok(v) => {
            require(FAILED.load(Relaxed) == 0, "an element which fails makes the call fail");
            require(fits(&v), "a success comes with all elements");
            cover("deserialized");
        }
        Err(e) => {
            require(FAILED.load(Relaxed) == 1, "an error is some element's");
            require(spec::class(e.root_cause()) == spec::BAD_EOC, "the error is the element's");
            cover("failed");
        }
    }
}
