//! Types written by a user, whose octets and announcements do not have to fit.

use crate::spec;
use bsn1::Error;
use bsn1_serde::ser::Serialize;
use rt::*;
use std::io::Write;

struct Liar {
    id: Vec<u8>,
    contents: Vec<u8>,
    id_len: Option<usize>,
    contents_len: Option<usize>,
}

impl Serialize for Liar {
    fn write_id<W: Write + ?Sized>(&self, buffer: &mut W) -> Result<(), Error> {
        Ok(buffer.write_all(&self.id)?)
    }
    fn write_der_contents<W: Write + ?Sized>(&self, buffer: &mut W) -> Result<(), Error> {
        Ok(buffer.write_all(&self.contents)?)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        Ok(self.id_len)
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        Ok(self.contents_len)
    }
}

fn announced(n: usize) -> Option<usize> {
    if each(2) == 1 {
        Some(each(n))
    } else {
        None
    }
}

pub fn c21_to_der() {
    let v = Liar { id: octets(each(3)), contents: octets(each(3)), id_len: announced(3), contents_len: announced(4) };
    match bsn1_serde::to_der(&v) {
        Ok(d) => {
            let b: &[u8] = d.as_ref();
            require(spec::tlv_der(b) == Ok(b.len()), "an element holds well-formed octets only");
            cover("element");
        }
        Err(_) => cover("refused"),
    }
}

pub fn c21_to_ber() {
    let v = Liar { id: octets(each(3)), contents: octets(each(3)), id_len: announced(3), contents_len: announced(4) };
    match bsn1_serde::to_ber(&v) {
        Ok(d) => {
            let b: &[u8] = d.as_ref();
            require(spec::tlv_ber(b) == Ok(b.len()), "an element holds well-formed octets only");
            cover("element");
        }
        Err(_) => cover("refused"),
    }
}
