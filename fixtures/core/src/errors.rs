//! Errors through context and conversion.

use crate::spec;
use bsn1::Error;
use rt::*;
use std::io::ErrorKind;

const PLAIN: usize = 10;

fn plain(k: usize) -> Error {
    match k {
        0 => Error::UnterminatedBytes,
        1 => Error::RedundantBytes,
        2 => Error::OverFlow,
        3 => Error::IndefiniteLength,
        4 => Error::BadEoc,
        5 => Error::ExtraContentsOctet,
        6 => Error::UnmatchedId,
        7 => Error::InvalidUtf8,
        8 => Error::InvalidDerBooleanContents,
        _ => Error::InvalidKeyValuePair,
    }
}

fn io() -> Error {
    Error::from(std::io::Error::from(ErrorKind::BrokenPipe))
}

pub fn c23_equality() {
    let a = each(PLAIN);
    let b = each(PLAIN);
    require((plain(a) == plain(b)) == (a == b), "plain errors are equal when they are the same kind");
    require(plain(a) != io() && io() != plain(a), "an I/O error equals nothing");
    require(io() != io(), "an I/O error equals nothing");
    cover("compared");
}

pub fn c23_context() {
    let k = each(PLAIN);
    let n = each(4);
    let mut e = plain(k);
    for _ in 0..n {
        e = e.context("context");
    }
    require(spec::class(e.root_cause()) == 1 << k, "context keeps the kind of the root cause");
    if n > 0 {
        require(spec::class(&e) == spec::ANYHOW, "context wraps the error");
        require(e != plain(k) && plain(k) != e && e != e, "a wrapped error equals nothing");
        require(e.as_anyhow().is_some(), "the wrapped error is accessible");
        cover("wrapped");
    } else {
        require(e.as_anyhow().is_none(), "a plain error is not wrapped");
        cover("plain");
    }
}

pub fn c23_convert() {
    let k = each(PLAIN);
    let n = each(3);
    let mut e = plain(k);
    for _ in 0..n {
        e = e.context("context");
    }
    let a = e.into_anyhow();
    let a = if any_bool() { a.context("more") } else { a };
    let e = Error::from(a);
    require(spec::class(e.root_cause()) == 1 << k, "conversion keeps the kind of the root cause");
    let e = e.context("last");
    require(spec::class(e.root_cause()) == 1 << k, "context after conversion keeps the kind of the root cause");
    cover("converted");
}

pub fn c23_io() {
    let n = each(3);
    let mut e = io();
    for _ in 0..n {
        e = e.context("context");
    }
    match e.root_cause() {
        Error::Io(e) => {
            require(e.kind() == ErrorKind::BrokenPipe, "context keeps the I/O error");
            cover("kept");
        }
        _ => require(false, "context keeps the I/O error as the root cause"),
    }
}

/// Errors of other types have no error of this library below them.
pub fn c23_foreign() {
    let e = Error::from(anyhow::Error::msg("foreign"));
    let e = if any_bool() { e.context("context") } else { e };
    require(spec::class(e.root_cause()) == spec::ANYHOW, "a foreign error stays what it is");
    cover("kept");
}
