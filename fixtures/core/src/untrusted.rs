//! No input panics, overflows or makes a decoder allocate what a length announces.
//!
//! Panics, arithmetic overflow and invalid memory accesses are violations wherever they are reached,
//! so most of these drivers only have to call the decoders.

use crate::ident::long_id;
use crate::slice::deep;
use crate::stream::{Pieces, NEVER};
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, Id, IdRef, Length};
use rt::*;

fn stream(v: &[u8]) -> Pieces {
    Pieces { v: v.to_vec(), at: 0, fail: NEVER, code: 0, ended: 0, whole: true }
}

/// An identifier, length octets announcing anything, and only a few octets of contents.
fn announced() -> Vec<u8> {
    let mut v = vec![any_u8()];
    assume(v[0] & 0x1f != 0x1f);
    let k = each(10);
    if k == 0 {
        v.push(any_u8());
        assume(v[1] != 0x80);
    } else {
        v.push(0x80 + k as u8);
        for _ in 0..k {
            v.push(any_u8());
        }
    }
    for _ in 0..each(4) {
        v.push(any_u8());
    }
    v
}

pub fn c05_der_stream() {
    let v = announced();
    let mut s = stream(&v);
    alloc_limit(1 << 16);
    let r = Der::parse(&mut s);
    alloc_unlimited();
    if r.is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

pub fn c05_ber_stream() {
    let mut v = Vec::new();
    if any_bool() {
        v.extend_from_slice(&[0x30, 0x80]);
    }
    v.extend_from_slice(&announced());
    let mut s = stream(&v);
    alloc_limit(1 << 16);
    let r = Ber::parse(&mut s);
    alloc_unlimited();
    if r.is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

pub fn c05_der_slice() {
    let v = announced();
    alloc_limit(1 << 16);
    if DerRef::parse(&mut &v[..]).is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

pub fn c05_ber_slice() {
    let mut v = Vec::new();
    if any_bool() {
        v.extend_from_slice(&[0x30, 0x80]);
    }
    v.extend_from_slice(&announced());
    alloc_limit(1 << 16);
    if BerRef::parse(&mut &v[..]).is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

/// Every query on whatever the parsers let through.
pub fn c05_der_queries() {
    let v = octets(each(9));
    if let Ok(d) = DerRef::parse(&mut &v[..]) {
        let n = d.id().as_ref().len() + d.length().len() + d.contents().len();
        require(n == d.as_ref().len(), "the parts make up the element");
        let (i, l, c) = d.disassemble();
        require(i.as_ref().len() + l.len() + c.len() == n, "the parts make up the element");
        cover("accepted");
    }
}

pub fn c05_ber_queries() {
    let v = octets(each(8));
    if let Ok(d) = BerRef::parse(&mut &v[..]) {
        let n = d.id().as_ref().len() + d.length().len() + d.contents().len();
        require(n == d.as_ref().len(), "the parts make up the element");
        let (i, l, c) = d.disassemble();
        require(i.as_ref().len() + l.len() + c.len() == n, "the parts make up the element");
        cover("accepted");
    }
}

pub fn c05_id_queries() {
    let v = octets(each(24));
    if let Ok(i) = IdRef::parse(&mut &v[..]) {
        let _ = i.class();
        let _ = i.pc();
        let _ = i.is_universal();
        let _ = i.is_constructed();
        if i.number().is_ok() {
            cover("number");
        } else {
            cover("overflow");
        }
    }
}

macro_rules! integers {
    ($c:ident, $($t:ty),*) => {{ $( let _ = $c.to_integer::<$t>(); )* }};
}

pub fn c05_contents() {
    let v = octets(each(19));
    let c = <&ContentsRef>::from(&v[..]);
    match each(4) {
        0 => integers!(c, i8, i16, i32, i64, i128, isize),
        1 => integers!(c, u8, u16, u32, u64, u128, usize),
        2 => {
            let _ = c.to_bool_ber();
            let _ = c.to_bool_der();
        }
        _ => {
            let _ = c.len();
            let _ = c.is_empty();
        }
    }
    cover("returned");
}

pub fn c05_contents_any_size() {
    let n = any_usize();
    assume(n >= 19 && n <= isize::MAX as usize);
    let v = octets(n);
    let c = <&ContentsRef>::from(&v[..]);
    integers!(c, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    let _ = c.to_bool_ber();
    let _ = c.to_bool_der();
    cover("returned");
}

pub fn c05_id_stream() {
    let v = octets(each(24));
    let mut s = stream(&v);
    if Id::parse(&mut s).is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

pub fn c05_length_stream() {
    let v = octets(each(20));
    let mut s = stream(&v);
    if Length::parse(&mut s).is_ok() {
        cover("accepted");
    } else {
        cover("refused");
    }
}

/// Elements inside each other do not use up the stack.
pub fn c05_ber_deep() {
    let mut v = deep(257, each(2));
    depth_limit(100);
    let ok = match each(3) {
        0 => BerRef::parse(&mut &v[..]).is_ok(),
        1 => {
            let mut r = &mut v[..];
            BerRef::parse_mut(&mut r).is_ok()
        }
        _ => Ber::parse(&mut stream(&v)).is_ok(),
    };
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
}

pub fn c05_long_id() {
    let v = long_id();
    depth_limit(100);
    if let Ok(i) = IdRef::parse(&mut &v[..]) {
        let _ = i.number();
        let _ = i.class();
        let _ = i.pc();
        cover("accepted");
    }
}
