//! Comparing and hashing owned and borrowed forms.

use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef, Length};
use rt::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Remembers everything it is fed, call by call.
struct Feed {
    buf: [u8; 96],
    n: usize,
}

impl Hasher for Feed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.buf[self.n] = b.len() as u8;
        self.n += 1;
        let mut i = 0;
        while i < b.len() {
            self.buf[self.n] = b[i];
            self.n += 1;
            i += 1;
        }
    }
}

fn feed<T: Hash + ?Sized>(v: &T) -> Feed {
    let mut f = Feed { buf: [0; 96], n: 0 };
    v.hash(&mut f);
    f
}

fn same_feed(a: &Feed, b: &Feed) -> bool {
    if a.n != b.n {
        return false;
    }
    let mut i = 0;
    while i < a.n {
        if a.buf[i] != b.buf[i] {
            return false;
        }
        i += 1;
    }
    true
}

fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() || i == b.len() {
            return if a.len() < b.len() {
                Ordering::Less
            } else if a.len() > b.len() {
                Ordering::Greater
            } else {
                Ordering::Equal
            };
        }
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
}

fn code(o: Ordering) -> u8 {
    match o {
        Ordering::Less => 0,
        Ordering::Equal => 1,
        Ordering::Greater => 2,
    }
}

/// Two runs of octets: short ones of any sizes, or longer ones that agree up to near the end.
fn two() -> (Vec<u8>, Vec<u8>) {
    match each(3) {
        0 => {
            let n = 1 + each(3);
            let m = 1 + each(3);
            (octets(n), octets(m))
        }
        1 => near(22, 4),
        _ => near(23, 3),
    }
}

fn near(common: usize, more: usize) -> (Vec<u8>, Vec<u8>) {
    let head = octets(common);
    let mut a = head.clone();
    let mut b = head;
    let n = each(more);
    let m = each(more);
    for _ in 0..n {
        a.push(any_u8());
    }
    for _ in 0..m {
        b.push(any_u8());
    }
    (a, b)
}

macro_rules! compare {
    ($name:ident, $hash:ident, $own:ty, $r:ty, |$v:ident| $mk:expr, |$w:ident| $view:expr) => {
        pub fn $name() {
            let (x, y) = two();
            let equal = code(order(&x, &y)) == 1;
            fn view($w: &[u8]) -> &$r {
                $view
            }
            fn make($v: &[u8]) -> $own {
                $mk
            }
            let (rx, ry): (&$r, &$r) = (view(&x), view(&y));
            let (ox, oy): ($own, $own) = (make(&x), make(&y));
            require((ox == oy) == equal, "owned values compare by their octets");
            require((*rx == *ry) == equal, "borrowed values compare by their octets");
            require((ox == ry) == equal, "an owned value compares to a borrowed one by their octets");
            require((*rx == oy) == equal, "a borrowed value compares to an owned one by their octets");
            require((ox != oy) != equal && (*rx != *ry) != equal, "unequal is the negation of equal");
            require((ox != ry) != equal && (*rx != oy) != equal, "unequal is the negation of equal");
            if equal {
                cover("equal");
            } else {
                cover("different");
            }
        }

        pub fn $hash() {
            let x = octets(if any_bool() { 1 + each(4) } else { 21 + each(5) });
            let $w: &[u8] = &x;
            let r: &$r = $view;
            let $v: &[u8] = &x;
            let o: $own = $mk;
            let b: &$r = o.borrow();
            require(same_feed(&feed(r), &feed(b)), "the same octets hash the same");
            require(same_feed(&feed(r), &feed(&o)), "owned and borrowed values hash the same");
            let heap = o.clone();
            require(same_feed(&feed(&heap), &feed(&o)), "a clone hashes the same");
            require(heap == o, "a clone is equal");
            cover("hashed");
        }
    };
}

compare!(c22_id, c22_id_hash, Id, IdRef,
    |v| unsafe { Id::from_bytes_unchecked(v) }, |w| unsafe { IdRef::from_bytes_unchecked(w) });
compare!(c22_ber, c22_ber_hash, Ber, BerRef,
    |v| unsafe { Ber::from_bytes_unchecked(v) }, |w| unsafe { BerRef::from_bytes_unchecked(w) });
compare!(c22_der, c22_der_hash, Der, DerRef,
    |v| unsafe { Der::from_bytes_unchecked(v) }, |w| unsafe { DerRef::from_bytes_unchecked(w) });
compare!(c22_contents, c22_contents_hash, Contents, ContentsRef,
    |v| Contents::from(v), |w| <&ContentsRef>::from(w));

/// The same octets inline and on the heap.
pub fn c22_contents_storage() {
    let n = each(5);
    let x = octets(n);
    let mut roomy = Vec::with_capacity(64);
    roomy.extend_from_slice(&x);
    let inline = Contents::from(&x[..]);
    let heap = Contents::from(roomy);
    require(inline == heap && heap == inline, "storage does not matter for equality");
    require(same_feed(&feed(&inline), &feed(&heap)), "storage does not matter for hashing");
    cover("hashed");
}

pub fn c22_id_order() {
    let (x, y) = two();
    let want = code(order(&x, &y));
    let rx = unsafe { IdRef::from_bytes_unchecked(&x) };
    let ry = unsafe { IdRef::from_bytes_unchecked(&y) };
    let ox = unsafe { Id::from_bytes_unchecked(&x) };
    let oy = unsafe { Id::from_bytes_unchecked(&y) };
    require(code(ox.cmp(&oy)) == want, "owned identifiers order as their octets");
    require(code(rx.cmp(ry)) == want, "borrowed identifiers order as their octets");
    let is = |o: Option<Ordering>| match o {
        Some(o) => code(o) == want,
        None => false,
    };
    require(is(ox.partial_cmp(&oy)), "owned identifiers order as their octets");
    require(is(rx.partial_cmp(ry)), "borrowed identifiers order as their octets");
    require(is(ox.partial_cmp(&ry)), "an owned identifier orders against a borrowed one as their octets");
    require(is(rx.partial_cmp(&oy)), "a borrowed identifier orders against an owned one as their octets");
    cover("ordered");
}

pub fn c22_length() {
    let a = any_usize();
    let b = any_usize();
    let (x, y) = (Length::Definite(a), Length::Definite(b));
    require((x == y) == (a == b), "lengths compare as numbers");
    require((x < y) == (a < b) && (x > y) == (a > b), "lengths order as numbers");
    require((x <= y) == (a <= b) && (x >= y) == (a >= b), "lengths order as numbers");
    cover("definite");
    let i = Length::Indefinite;
    require(!(i == x) && !(x == i) && !(i == i), "the indefinite length equals nothing");
    require(i.partial_cmp(&x).is_none() && x.partial_cmp(&i).is_none(), "the indefinite length has no order");
    require(i.partial_cmp(&i).is_none(), "the indefinite length has no order");
    require(same_feed(&feed(&x), &feed(&Length::Definite(a))), "equal lengths hash the same");
}
