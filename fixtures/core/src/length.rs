use crate::edit::on_heap;
use crate::spec;
use bsn1::{BerRef, DerRef, Length};
use rt::*;

pub fn c07_definite() {
    let n = any_usize();
    let l = Length::Definite(n);
    let b = l.to_bytes();
    let b: &[u8] = &b;
    require(b.len() == l.len(), "len() equals the number of octets produced");
    if n < 128 {
        require(b.len() == 1, "short form is one octet");
        require(b[0] as usize == n, "short form holds the value");
        cover("short");
    } else {
        let k = b.len() - 1;
        require(k >= 1 && k <= 8, "long form has 1 to 8 octets");
        require(b[0] as usize == 0x80 + k, "first octet counts the rest");
        require(b[1] != 0, "no leading zero");
        let mut v: usize = 0;
        for i in 1..b.len() {
            v = (v << 8) | b[i] as usize;
        }
        require(v == n, "octets hold the value");
        cover("long");
    }
}

pub fn c07_indefinite() {
    let l = Length::Indefinite;
    let b = l.to_bytes();
    let b: &[u8] = &b;
    require(b.len() == 1 && b[0] == 0x80, "the indefinite length is the octet 0x80");
    require(l.len() == 1, "len() equals the number of octets produced");
    require(l.is_indefinite() && !l.is_definite() && l.definite().is_none(), "the indefinite length has no value");
    cover("indefinite");
}

pub fn c07_round_trip() {
    let n = any_usize();
    let l = Length::Definite(n);
    require(l.is_definite() && !l.is_indefinite() && l.definite() == Some(n), "a definite length reports its value");
    let b = l.to_bytes();
    let mut r: &[u8] = &b;
    match Length::parse(&mut r) {
        Ok(Length::Definite(m)) => {
            require(m == n, "written octets decode to the value");
            require(r.len() == 0, "written octets are read completely");
            cover("decoded");
        }
        _ => require(false, "written octets are accepted"),
    }
}

pub fn c02_parse() {
    let n = each(14);
    let v = octets(n);
    let mut rest: &[u8] = &v;
    match (Length::parse(&mut rest), spec::length(&v)) {
        (Ok(l), Ok((value, k))) => {
            match (l, value) {
                (Length::Definite(x), Some(y)) => {
                    require(x == y, "the value is the one encoded");
                    cover("definite");
                }
                (Length::Indefinite, None) => cover("indefinite"),
                _ => require(false, "definite and indefinite are told apart"),
            }
            require(rest.len() == n - k, "exactly the length octets are read");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed length octets are refused"),
        (Err(_), Ok(_)) => require(false, "well-formed length octets are accepted"),
    }
}

/// The length an element of any size reports, and the contents found with it.
fn reported(id: &[u8], der: bool) {
    let n = any_usize();
    assume(n < isize::MAX as usize - 64);
    let (v, _) = on_heap(id, Some(n), n);
    let (b, d);
    let (l, c) = if der {
        d = unsafe { DerRef::from_bytes_unchecked(&v) };
        require(d.contents().len() == n, "the contents are as long as the length octets say");
        require(d.length().definite() == Some(n), "the length is the one encoded");
        let (_, l, c) = d.disassemble();
        (l, c)
    } else {
        b = unsafe { BerRef::from_bytes_unchecked(&v) };
        require(b.contents().len() == n, "the contents are as long as the length octets say");
        require(b.length().definite() == Some(n), "the length is the one encoded");
        let (_, l, c) = b.disassemble();
        (l, c)
    };
    require(l.definite() == Some(n) && l.is_definite(), "the length is the one encoded");
    require(c.len() == n, "the contents are as long as the length octets say");
    cover("reported");
}

pub fn c02_der_length() {
    if each(2) == 0 {
        reported(&[4], true);
    } else {
        reported(&[0xdf, 0x81, 5], true);
    }
}

pub fn c02_ber_length() {
    if each(2) == 0 {
        reported(&[4], false);
    } else {
        reported(&[0xdf, 0x81, 5], false);
    }
}
