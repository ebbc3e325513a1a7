//! The octet storage: every access is checked by the analysis itself, so the drivers put the storage
//! through its states and compare what it holds.

use crate::element::{any_id, id_ref};
use bsn1::{Ber, Buffer, ClassTag, Contents, ContentsRef, Der, Id, IdRef, Length, PCTag};
use rt::*;

fn same(a: &[u8], b: &[u8], rule: &'static str) {
    require(a.len() == b.len(), rule);
    let mut i = 0;
    while i < b.len() {
        require(a[i] == b[i], rule);
        i += 1;
    }
}

/// Inline storage holding any octets, or heap storage with a little room to spare.
fn storage() -> (Buffer, Vec<u8>) {
    if any_bool() {
        let n = each(24);
        let v = octets(n);
        let mut b = Buffer::new();
        unsafe { b.extend_from_slice(&v) };
        (b, v)
    } else {
        let n = match each(6) {
            0 => 0,
            1 => 1,
            2 => 22,
            3 => 23,
            4 => 24,
            _ => 40,
        };
        let spare = each(3);
        let v = octets(n);
        let mut w = Vec::with_capacity(n + spare);
        w.extend_from_slice(&v);
        (Buffer::from(w), v)
    }
}

fn holds(b: &Buffer, v: &[u8]) {
    require(b.len() == v.len(), "the storage keeps its size");
    require(b.capacity() >= b.len(), "the storage has room for what it holds");
    same(b.as_slice(), v, "the storage keeps its octets");
}

pub fn c12_storage() {
    let before = heap_objects();
    {
        let (b, v) = storage();
        holds(&b, &v);
        cover("kept");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_reserve() {
    let before = heap_objects();
    {
        let (mut b, v) = storage();
        let more = match each(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 23,
            4 => 24,
            _ => 1000,
        };
        b.reserve(more);
        require(b.capacity() - b.len() >= more, "there is room for what was reserved");
        holds(&b, &v);
        let w = octets(more);
        unsafe { b.extend_from_slice(&w) };
        require(b.len() == v.len() + more, "octets are appended");
        same(&b.as_slice()[..v.len()], &v, "the storage keeps its octets");
        same(&b.as_slice()[v.len()..], &w, "the octets appended follow");
        cover("grown");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// Any size, any spare capacity, any growth.
pub fn c12_reserve_any_size() {
    let before = heap_objects();
    {
        let n = any_usize();
        let cap = any_usize();
        assume(n >= 24 && cap >= n && cap < 1 << 61);
        let p = blob(cap);
        let w = unsafe { Vec::from_raw_parts(p, n, cap) };
        let i = any_usize();
        assume(i < n);
        let old = w[i];
        let mut b = Buffer::from(w);
        let more = any_usize();
        assume(more < 1 << 61);
        b.reserve(more);
        require(b.len() == n && b.capacity() - n >= more, "there is room for what was reserved");
        require(b.as_slice()[i] == old, "the storage keeps its octets");
        cover("grown");
        let c = b.clone();
        require(c.len() == n && c.as_slice()[i] == old, "a clone has the same octets");
        let v = b.into_vec();
        require(v.len() == n && v[i] == old, "the vector has the same octets");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_push() {
    let before = heap_objects();
    {
        let (mut b, v) = storage();
        b.reserve(2);
        unsafe {
            b.push(0x11);
            b.push(0x22);
        }
        require(b.len() == v.len() + 2, "two octets more");
        same(&b.as_slice()[..v.len()], &v, "the storage keeps its octets");
        same(&b.as_slice()[v.len()..], &[0x11, 0x22], "the octets pushed are last");
        cover("grown");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_clone() {
    let before = heap_objects();
    {
        let (mut b, v) = storage();
        let mut c = b.clone();
        holds(&c, &v);
        if v.len() > 0 {
            require(c.as_ptr() != b.as_ptr(), "a clone has storage of its own");
            c.as_mut_slice()[0] ^= 0xff;
            holds(&b, &v);
            b.as_mut_slice()[0] ^= 0xff;
            require(c.as_slice()[0] == b.as_slice()[0], "the clone is independent");
            c.as_mut_slice()[0] ^= 0xff;
        }
        drop(b);
        holds(&c, &v);
        cover("cloned");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_vectors() {
    let before = heap_objects();
    {
        let (b, v) = storage();
        let w = b.into_vec();
        require(w.capacity() >= w.len(), "the vector has room for what it holds");
        same(&w, &v, "the vector has the octets");
        let b = Buffer::from(w);
        holds(&b, &v);
        let c = Buffer::from(&v[..]);
        holds(&c, &v);
        cover("converted");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// The storage can be moved around.
pub fn c12_moves() {
    let before = heap_objects();
    {
        let (mut b, v) = storage();
        let (mut c, w) = storage();
        std::mem::swap(&mut b, &mut c);
        holds(&b, &w);
        holds(&c, &v);
        let boxed = Box::new(b);
        holds(&boxed, &w);
        c = *boxed;
        holds(&c, &w);
        cover("moved");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_write() {
    use std::io::Write;
    let before = heap_objects();
    {
        let (mut b, v) = storage();
        let more = 20 + each(5);
        let w = octets(more);
        match b.write(&w) {
            Ok(k) => require(k == more, "everything is written"),
            Err(_) => require(false, "writing to memory does not fail"),
        }
        require(b.len() == v.len() + more, "octets are appended");
        same(&b.as_slice()[..v.len()], &v, "the storage keeps its octets");
        same(&b.as_slice()[v.len()..], &w, "the octets written follow");
        cover("written");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// The contents of a fresh element are there to be read.
pub fn c12_fresh() {
    let before = heap_objects();
    {
        let k = 1 + each(2);
        let id = any_id(k);
        let n = match each(6) {
            0 => 0,
            1 => 1,
            2 => 20,
            3 => 21,
            4 => 127,
            _ => 300,
        };
        let (p, len, total) = match each(2) {
            0 => {
                let d = Der::with_id_length(id_ref(&id), n);
                let c: &[u8] = d.contents().as_ref();
                let a: &[u8] = (*d).as_ref();
                require(is_init(a.as_ptr(), a.len()), "every octet was written before it can be read");
                (c.len(), d.id().as_ref().len(), a.len())
            }
            _ => {
                let d = Ber::with_id_length(id_ref(&id), n);
                let c: &[u8] = d.contents().as_ref();
                let a: &[u8] = (*d).as_ref();
                require(is_init(a.as_ptr(), a.len()), "every octet was written before it can be read");
                (c.len(), d.id().as_ref().len(), a.len())
            }
        };
        require(p == n && len == k && total == k + Length::Definite(n).len() + n, "the element has the size asked for");
        cover("fresh");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// Grown, cut, cloned, converted, in both storages.
pub fn c12_element_life() {
    let before = heap_objects();
    {
        let n = match each(5) {
            0 => 0,
            1 => 19,
            2 => 20,
            3 => 21,
            _ => 30,
        };
        let v = octets(n);
        let mut d = Der::from(&v[..]);
        let c = d.clone();
        let more = match each(4) {
            0 => 0,
            1 => 2,
            2 => 100,
            _ => 120,
        };
        let w = octets(more);
        d.extend_from_slice(&w);
        d.push(0x5a);
        require(d.contents().len() == n + more + 1, "the element has grown");
        same(&d.contents().as_ref()[..n], &v, "the element keeps its contents");
        same(&d.contents().as_ref()[n..n + more], &w, "the octets appended follow");
        require(d.contents().as_ref()[n + more] == 0x5a, "the octet pushed is last");
        same(c.contents().as_ref(), &v, "a clone is independent");
        let e = d.clone();
        d.truncate(n);
        same(d.contents().as_ref(), &v, "the element keeps the first octets");
        drop(d);
        require(e.contents().len() == n + more + 1, "a clone is independent");
        same(&e.contents().as_ref()[..n], &v, "a clone is independent");
        let raw = e.into_vec();
        require(raw.capacity() >= raw.len(), "the vector has room for what it holds");
        let b = unsafe { Ber::from_vec_unchecked(raw) };
        require(b.contents().len() == n + more + 1, "the vector has the octets");
        let from_der = Ber::from(c);
        same(from_der.contents().as_ref(), &v, "conversion keeps the contents");
        cover("lived");
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_contents_life() {
    let before = heap_objects();
    {
        let n = match each(4) {
            0 => 0,
            1 => 5,
            2 => 23,
            _ => 24,
        };
        let v = octets(n);
        let mut w = Vec::with_capacity(n + each(3));
        w.extend_from_slice(&v);
        let a = Contents::from(w);
        let b = Contents::from(&v[..]);
        let c = a.clone();
        drop(a);
        same(b.as_ref(), &v, "contents have the octets");
        same(c.as_ref(), &v, "contents have the octets");
        let r: &ContentsRef = &c;
        let o = r.to_owned();
        drop(c);
        same(o.as_ref(), &v, "contents have the octets");
        cover("lived");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// Identifiers of every size, edited so that they grow and shrink.
pub fn c12_id_life() {
    let before = heap_objects();
    {
        let (n, m) = match each(4) {
            0 => (any_u128(), 1),
            1 => (any_u128(), u128::MAX),
            2 => (1, any_u128()),
            _ => (u128::MAX, any_u128()),
        };
        let mut i = Id::new(ClassTag::Private, PCTag::Primitive, n.into());
        let c = i.clone();
        i.set_number(m.into());
        let j = Id::from(&*i);
        drop(i);
        let b: &[u8] = (*j).as_ref();
        require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
        let b: &[u8] = (*c).as_ref();
        require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
        let r: &IdRef = &j;
        let o = r.to_owned();
        require(o == j, "a copy has the same octets");
        cover("lived");
    }
    require(heap_objects() == before, "everything allocated is released");
}

/// Parts which are not the same size when they are asked for again.
#[derive(Clone, Copy)]
struct Part(usize);

static OCTETS: [u8; 64] = [7; 64];

impl AsRef<[u8]> for Part {
    fn as_ref(&self) -> &[u8] {
        &OCTETS[..each(4) * 10]
    }
}

pub fn c12_changing_parts() {
    panics_allowed();
    let before = heap_objects();
    {
        let k = each(3);
        let parts = [Part(0), Part(1)];
        let id = IdRef::octet_string();
        match each(3) {
            0 => {
                let d = Der::from_id_iterator(id, parts[..k].iter());
                let b: &[u8] = (*d).as_ref();
                require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
                cover("der");
            }
            1 => {
                let d = Ber::from_id_iterator(id, parts[..k].iter());
                let b: &[u8] = (*d).as_ref();
                require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
                cover("ber");
            }
            _ => {
                let d = unsafe { Ber::from_id_iterator_indefinite(id, parts[..k].iter()) };
                let b: &[u8] = (*d).as_ref();
                require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
                cover("indefinite");
            }
        }
    }
    require(heap_objects() == before, "everything allocated is released");
}

pub fn c12_changing_extend() {
    panics_allowed();
    let before = heap_objects();
    {
        let v = octets(each(3) * 10);
        let mut d = Der::from(&v[..]);
        d.extend_from_slice(&Part(0));
        let b: &[u8] = (*d).as_ref();
        require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
        let mut d = Ber::from(&v[..]);
        d.extend_from_slice(&Part(0));
        let b: &[u8] = (*d).as_ref();
        require(is_init(b.as_ptr(), b.len()), "every octet was written before it can be read");
        cover("grown");
    }
    require(heap_objects() == before, "everything allocated is released");
}
