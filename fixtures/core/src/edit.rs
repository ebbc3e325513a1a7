//! Growing, cutting and writing into elements.
//!
//! Every driver starts from any well-formed element in any storage (inline, or on the heap with any
//! spare capacity), so that the outcome of one edit covers every sequence of them.

use crate::element::{any_id, id_ref, same};
use crate::spec;
use bsn1::{Ber, ClassTag, ContentsRef, Der, PCTag};
use rt::*;

/// An element on the heap: identifier octets `id`, contents of `n` arbitrary octets, any capacity.
pub fn on_heap(id: &[u8], length: Option<usize>, n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut l = [0x80u8; 9];
    let k = match length {
        Some(n) => spec::put_length(n, &mut l),
        None => 1,
    };
    let h = id.len() + k;
    let cap = any_usize();
    assume(cap >= h + n && cap < isize::MAX as usize - 64);
    let p = blob(cap);
    let mut v = unsafe { Vec::from_raw_parts(p, h + n, cap) };
    let mut i = 0;
    while i < id.len() {
        v[i] = id[i];
        i += 1;
    }
    let mut i = 0;
    while i < k {
        v[id.len() + i] = l[i];
        i += 1;
    }
    let c = v[h..].to_vec();
    (v, c)
}

/// A small size in its own partition (inline ones up to the end of that storage), or any larger.
fn size(small: bool, heap: bool) -> usize {
    if small {
        each(if heap { 4 } else { 25 })
    } else {
        large()
    }
}

fn large() -> usize {
    let n = any_usize();
    assume(n >= 25 && n < 1 << 61);
    n
}

fn header(b: &[u8], id: &[u8], length: Option<usize>) -> usize {
    let mut l = [0x80u8; 9];
    let k = match length {
        Some(n) => spec::put_length(n, &mut l),
        None => 1,
    };
    let h = id.len() + k;
    require(b.len() >= h, "identifier and length octets are there");
    let mut i = 0;
    while i < id.len() {
        require(b[i] == id[i], "the identifier is unchanged");
        i += 1;
    }
    let mut i = 0;
    while i < k {
        require(b[id.len() + i] == l[i], "the length octets are the minimal ones of the new contents");
        i += 1;
    }
    h
}

/// `b` is `id`, its length octets, `old` followed by `more`.
fn appended(b: &[u8], id: &[u8], definite: bool, old: &[u8], more: &[u8], small: bool, few: bool) {
    let n = old.len() + more.len();
    let h = header(b, id, if definite { Some(n) } else { None });
    require(b.len() == h + n, "the old contents, the new octets and nothing else");
    part(&b[h..h + old.len()], old, small, "the old contents are kept");
    part(&b[h + old.len()..], more, few, "the given octets follow");
}

fn part(a: &[u8], b: &[u8], small: bool, rule: &'static str) {
    if b.len() > 0 {
        same(a, b, small, rule);
    } else {
        require(a.len() == 0, "of the right size");
    }
}

fn start_der(k: usize, heap: bool, small: bool) -> (Der, Vec<u8>, Vec<u8>) {
    let id = any_id(k);
    let n = size(small, heap);
    if heap {
        let (v, c) = on_heap(&id, Some(n), n);
        (unsafe { Der::from_vec_unchecked(v) }, id, c)
    } else {
        let c = octets(n);
        (Der::new(id_ref(&id), <&ContentsRef>::from(&c[..])), id, c)
    }
}

fn start_ber(k: usize, heap: bool, small: bool, definite: bool) -> (Ber, Vec<u8>, Vec<u8>) {
    let id = any_id(k);
    let n = size(small, heap);
    if heap {
        let (v, c) = on_heap(&id, if definite { Some(n) } else { None }, n);
        (unsafe { Ber::from_vec_unchecked(v) }, id, c)
    } else {
        let c = octets(n);
        let r = <&ContentsRef>::from(&c[..]);
        if definite {
            (Ber::new(id_ref(&id), r), id, c)
        } else {
            (unsafe { Ber::new_indefinite(id_ref(&id), r) }, id, c)
        }
    }
}

/// How many octets are added.
fn more(small: bool) -> usize {
    if small {
        each(4)
    } else {
        let m = any_usize();
        assume(m < 1 << 61);
        m
    }
}

/// Where the contents of `n` octets are cut.
fn cut_at(n: usize, small: bool) -> usize {
    if small {
        let k = each(n + 1);
        if k < n {
            return k;
        }
    }
    let m = any_usize();
    assume(!small || m >= n);
    m
}

macro_rules! edits {
    ($($push:ident $extend:ident $extend_any:ident $cut:ident $cut_any:ident $ber:ident $k:expr, $heap:expr, $small:expr;)*) => { $(
        pub fn $push() {
            let (mut d, id, c) = start_der($k, $heap, $small);
            let x = any_u8();
            d.push(x);
            appended(d.as_ref(), &id, true, &c, &[x], $small, true);
            cover("pushed");
        }

        pub fn $extend() {
            let (mut d, id, c) = start_der($k, $heap, $small);
            let m = octets(more(true));
            d.extend_from_slice(&m[..]);
            appended(d.as_ref(), &id, true, &c, &m, $small, true);
            cover("extended");
        }

        pub fn $extend_any() {
            let (mut d, id, c) = start_der($k, $heap, $small);
            let m = octets(more(false));
            d.extend_from_slice(&m[..]);
            appended(d.as_ref(), &id, true, &c, &m, $small, false);
            cover("extended");
        }

        pub fn $cut() {
            let (mut d, id, c) = start_der($k, $heap, $small);
            let m = each(4);
            d.truncate(m);
            let left = if m < c.len() { &c[..m] } else { &c[..] };
            appended(d.as_ref(), &id, true, left, &[], $small || m < c.len(), true);
            cover("cut");
        }

        pub fn $cut_any() {
            let (mut d, id, c) = start_der($k, $heap, $small);
            let m = cut_at(c.len(), $small);
            d.truncate(m);
            let left = if m < c.len() { &c[..m] } else { &c[..] };
            appended(d.as_ref(), &id, true, left, &[], $small, true);
            cover("cut");
        }

        pub fn $ber() {
            let definite = each(2) == 0;
            let (mut d, id, c) = start_ber($k, $heap, $small, definite);
            match each(3) {
                0 => {
                    let x = any_u8();
                    d.push(x);
                    appended(d.as_ref(), &id, definite, &c, &[x], $small, true);
                    cover("pushed");
                }
                1 => {
                    let m = octets(more(false));
                    d.extend_from_slice(&m[..]);
                    appended(d.as_ref(), &id, definite, &c, &m, $small, false);
                    cover("extended");
                }
                _ => {
                    let m = cut_at(c.len(), $small);
                    d.truncate(m);
                    let left = if m < c.len() { &c[..m] } else { &c[..] };
                    appended(d.as_ref(), &id, definite, left, &[], $small, true);
                    cover("cut");
                }
            }
        }
    )* };
}

edits! {
    c11_push_1 c11_extend_1 c11_extend_any_1 c11_cut_1 c11_cut_any_1 c11_ber_1 1, false, true;
    c11_push_2 c11_extend_2 c11_extend_any_2 c11_cut_2 c11_cut_any_2 c11_ber_2 2, false, true;
    c11_push_21 c11_extend_21 c11_extend_any_21 c11_cut_21 c11_cut_any_21 c11_ber_21 21, false, true;
    c11_push_heap_1 c11_extend_heap_1 c11_extend_any_heap_1 c11_cut_heap_1 c11_cut_any_heap_1 c11_ber_heap_1 1, true, true;
    c11_push_heap_3 c11_extend_heap_3 c11_extend_any_heap_3 c11_cut_heap_3 c11_cut_any_heap_3 c11_ber_heap_3 3, true, true;
    c11_push_large_1 c11_extend_large_1 c11_extend_any_large_1 c11_cut_large_1 c11_cut_any_large_1 c11_ber_large_1 1, true, false;
    c11_push_large_2 c11_extend_large_2 c11_extend_any_large_2 c11_cut_large_2 c11_cut_any_large_2 c11_ber_large_2 2, true, false;
}

fn some_class() -> ClassTag {
    match each(4) {
        0 => ClassTag::Universal,
        1 => ClassTag::Application,
        2 => ClassTag::ContextSpecific,
        _ => ClassTag::Private,
    }
}

/// Everything but the contents octet `i`, which is `x`, is as before.
fn written(b: &[u8], head: &[u8], c: &[u8], i: usize, x: u8, small: bool) {
    let h = head.len();
    require(b.len() == h + c.len(), "no octet is added or lost");
    same(&b[..h], head, true, "identifier and length octets are unchanged");
    require(b[h + i] == x, "the octet is written");
    let (l, r) = (&b[h..h + i], &b[h + i + 1..]);
    part(l, &c[..i], small, "the octets before it are unchanged");
    part(r, &c[i + 1..], small, "the octets after it are unchanged");
}

/// The identifier starts with `first`, everything else is as before.
fn renamed(b: &[u8], head: &[u8], c: &[u8], first: u8, small: bool) {
    let h = head.len();
    require(b.len() == h + c.len(), "no octet is added or lost");
    require(b[0] == first, "the first identifier octet is the one asked for");
    same(&b[1..h], &head[1..], true, "the other identifier and length octets are unchanged");
    part(&b[h..], c, small, "the contents are unchanged");
}

/// Index of a contents octet.
fn place(n: usize, small: bool) -> usize {
    if small {
        assume(n > 0);
        each(n)
    } else {
        let i = any_usize();
        assume(i < n);
        i
    }
}

macro_rules! views {
    ($($name:ident $start:ident($k:expr, $small:expr $(, $d:expr)?);)*) => { $(
        pub fn $name() {
            let (mut d, id, c) = $start($k, each(2) == 1, $small $(, $d)?);
            let b: &[u8] = d.as_ref();
            let head = b[..b.len() - c.len()].to_vec();
            match each(4) {
                0 => {
                    let v = d.mut_contents().as_mut();
                    require(v.len() == c.len(), "the view is of the contents");
                    let (i, x) = (place(c.len(), $small), any_u8());
                    v[i] = x;
                    written(d.as_ref(), &head, &c, i, x, $small);
                    cover("contents");
                }
                1 => {
                    let (p, l, v) = d.disassemble_mut();
                    same(p.as_ref(), &id, true, "the view is of the identifier");
                    require(l.definite().is_none() || l.definite() == Some(c.len()), "the length is that of the contents");
                    let v = v.as_mut();
                    require(v.len() == c.len(), "the view is of the contents");
                    let (i, x) = (place(c.len(), $small), any_u8());
                    v[i] = x;
                    written(d.as_ref(), &head, &c, i, x, $small);
                    cover("parts");
                }
                2 => {
                    let cls = some_class();
                    d.mut_id().set_class(cls);
                    renamed(d.as_ref(), &head, &c, id[0] & 0x3f | cls as u8, $small);
                    cover("class");
                }
                _ => {
                    let pc = if each(2) == 0 { PCTag::Primitive } else { PCTag::Constructed };
                    d.disassemble_mut().0.set_pc(pc);
                    renamed(d.as_ref(), &head, &c, id[0] & 0xdf | pc as u8, $small);
                    cover("pc");
                }
            }
        }
    )* };
}

views! {
    c11_view_der_1 start_der(1, true);
    c11_view_der_2 start_der(2, true);
    c11_view_der_large start_der(2, false);
    c11_view_ber_1 start_ber(1, true, each(2) == 0);
    c11_view_ber_large start_ber(3, false, each(2) == 0);
}
