//! What the octets mean, written independently of the library.

use bsn1::Error;

pub const UNTERMINATED: u32 = 1;
pub const REDUNDANT: u32 = 2;
pub const OVERFLOW: u32 = 4;
pub const INDEFINITE: u32 = 8;
pub const BAD_EOC: u32 = 16;
pub const EXTRA: u32 = 32;
pub const UNMATCHED: u32 = 64;
pub const UTF8: u32 = 128;
pub const DER_BOOL: u32 = 256;
pub const PAIR: u32 = 512;
pub const IO: u32 = 1024;
pub const ANYHOW: u32 = 2048;
pub const OTHER: u32 = 4096;

pub fn class(e: &Error) -> u32 {
    match e {
        Error::UnterminatedBytes => UNTERMINATED,
        Error::RedundantBytes => REDUNDANT,
        Error::OverFlow => OVERFLOW,
        Error::IndefiniteLength => INDEFINITE,
        Error::BadEoc => BAD_EOC,
        Error::ExtraContentsOctet => EXTRA,
        Error::UnmatchedId => UNMATCHED,
        Error::InvalidUtf8 => UTF8,
        Error::InvalidDerBooleanContents => DER_BOOL,
        Error::InvalidKeyValuePair => PAIR,
        Error::Io(_) => IO,
        Error::Anyhow(_) => ANYHOW,
        _ => OTHER,
    }
}

/// Number of identifier octets at the start, or the errors which apply.
pub fn id(b: &[u8]) -> Result<usize, u32> {
    if b.len() == 0 {
        return Err(UNTERMINATED);
    }
    if b[0] & 0x1f != 0x1f {
        return Ok(1);
    }
    if b.len() == 1 {
        return Err(UNTERMINATED);
    }
    if b[1] == 0x80 || b[1] < 31 {
        return Err(REDUNDANT);
    }
    let mut i = 1;
    while i < b.len() {
        if b[i] < 0x80 {
            return Ok(i + 1);
        }
        i += 1;
    }
    Err(UNTERMINATED)
}

/// `(value, octets)`; the indefinite length has no value.
pub fn length(b: &[u8]) -> Result<(Option<usize>, usize), u32> {
    if b.len() == 0 {
        return Err(UNTERMINATED);
    }
    if b[0] < 0x80 {
        return Ok((Some(b[0] as usize), 1));
    }
    if b[0] == 0x80 {
        return Ok((None, 1));
    }
    let k = (b[0] - 0x80) as usize;
    let mut bad = 0;
    if b.len() < 1 + k {
        bad |= UNTERMINATED;
    }
    if b.len() > 1 && (b[1] == 0 || (k == 1 && b[1] < 0x80)) {
        bad |= REDUNDANT;
    }
    if k > 8 {
        // the second octet decides whether this is reported as redundant
        bad |= OVERFLOW;
    }
    if bad != 0 {
        return Err(bad);
    }
    let mut v = 0usize;
    let mut i = 1;
    while i <= k {
        v = v * 256 + b[i] as usize;
        i += 1;
    }
    Ok((Some(v), 1 + k))
}

/// Size of the one definite-length element at the start.
pub fn tlv_der(b: &[u8]) -> Result<usize, u32> {
    let i = id(b)?;
    match length(&b[i..])? {
        (None, _) => Err(INDEFINITE),
        (Some(n), l) => {
            if b.len() - i - l < n {
                Err(UNTERMINATED)
            } else {
                Ok(i + l + n)
            }
        }
    }
}

/// Size of the one element at the start.
pub fn tlv_ber(b: &[u8]) -> Result<usize, u32> {
    let mut at = 0;
    let mut depth = 0usize;
    loop {
        let i = id(&b[at..])?;
        let (n, l) = length(&b[at + i..])?;
        let eoc = b[at] == 0 && b[at + 1] == 0;
        at += i + l;
        match n {
            None => depth += 1,
            Some(n) => {
                if b.len() - at < n {
                    return Err(UNTERMINATED);
                }
                at += n;
                if eoc && depth > 0 {
                    depth -= 1;
                }
            }
        }
        if depth == 0 {
            return Ok(at);
        }
    }
}

/// The minimal definite length octets of `n`; returns how many.
pub fn put_length(n: usize, o: &mut [u8; 9]) -> usize {
    if n < 128 {
        o[0] = n as u8;
        return 1;
    }
    let mut k = 1;
    while k < 8 && n >> (8 * k) != 0 {
        k += 1;
    }
    o[0] = 0x80 + k as u8;
    let mut i = 0;
    while i < k {
        o[1 + i] = (n >> (8 * (k - 1 - i))) as u8;
        i += 1;
    }
    1 + k
}
