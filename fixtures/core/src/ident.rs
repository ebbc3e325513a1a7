use crate::spec;
use bsn1::{ClassTag, Id, IdRef, PCTag, TagNumber};
use rt::*;

const MAX: usize = 24;

/// An identifier whose number has many octets, possibly cut off or followed by something.
pub fn long_id() -> Vec<u8> {
    let n = match each(9) {
        0 => 22,
        1 => 23,
        2 => 24,
        3 => 40,
        4 => 127,
        5 => 128,
        6 => 255,
        7 => 256,
        _ => 300,
    };
    let mut v = vec![any_u8() | 0x1f];
    while v.len() < n {
        v.push(0x80 + v.len() as u8 % 0x7f + 1);
    }
    for _ in 0..each(3) {
        v.push(any_u8());
    }
    v
}

pub fn c01_slice() {
    slice(octets(each(MAX)));
}

pub fn c01_long() {
    slice(long_id());
}

fn slice(v: Vec<u8>) {
    let n = v.len();
    let mut rest: &[u8] = &v;
    match (IdRef::parse(&mut rest), spec::id(&v)) {
        (Ok(id), Ok(k)) => {
            let b: &[u8] = id.as_ref();
            require(b.len() == k && b.as_ptr() == v.as_ptr(), "the result is exactly the identifier octets");
            require(id.len() == k, "len() is the number of identifier octets");
            require(rest.len() == n - k, "the slice moves past the identifier");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n && rest.as_ptr() == v.as_ptr(), "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed identifier octets are refused"),
        (Err(_), Ok(_)) => require(false, "well-formed identifier octets are accepted"),
    }
}

pub fn c01_slice_mut() {
    slice_mut(octets(each(MAX)));
}

pub fn c01_long_mut() {
    slice_mut(long_id());
}

fn slice_mut(mut v: Vec<u8>) {
    let n = v.len();
    let p = v.as_mut_ptr();
    let want = spec::id(&v);
    let mut rest: &mut [u8] = &mut v;
    match (IdRef::parse_mut(&mut rest), want) {
        (Ok(id), Ok(k)) => {
            let b: &[u8] = (*id).as_ref();
            require(b.len() == k && b.as_ptr() == p as *const u8, "the result is exactly the identifier octets");
            require(rest.len() == n - k, "the slice moves past the identifier");
            if rest.len() > 0 {
                require(rest.as_ptr() == unsafe { p.add(k) } as *const u8, "the slice moves past the identifier");
            }
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            require(rest.len() == n, "a refused slice is left as it was");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed identifier octets are refused"),
        (Err(_), Ok(_)) => require(false, "well-formed identifier octets are accepted"),
    }
}

pub fn c01_reader() {
    reader(octets(each(MAX)));
}

pub fn c01_long_reader() {
    reader(long_id());
}

fn reader(v: Vec<u8>) {
    let n = v.len();
    let mut rest: &[u8] = &v;
    match (Id::parse(&mut rest), spec::id(&v)) {
        (Ok(id), Ok(k)) => {
            let b: &[u8] = id.as_ref();
            require(b.len() == k && b == &v[..k], "the result is exactly the identifier octets");
            require(rest.len() == n - k, "no octet past the identifier is read");
            cover("accepted");
        }
        (Err(e), Err(w)) => {
            require(spec::class(&e) & w != 0, "refused with the right error");
            cover("refused");
        }
        (Ok(_), Err(_)) => require(false, "malformed identifier octets are refused"),
        (Err(_), Ok(_)) => require(false, "well-formed identifier octets are accepted"),
    }
}

fn class_of(k: u8) -> ClassTag {
    match k {
        0 => ClassTag::Universal,
        1 => ClassTag::Application,
        2 => ClassTag::ContextSpecific,
        _ => ClassTag::Private,
    }
}

fn pc_of(c: bool) -> PCTag {
    if c {
        PCTag::Constructed
    } else {
        PCTag::Primitive
    }
}

/// `id` is the shortest encoding of the components, and reports them.
fn is_id(id: &IdRef, cls: u8, con: bool, n: u128) {
    let b: &[u8] = id.as_ref();
    let lead = cls * 0x40 + if con { 0x20 } else { 0 };
    if n < 31 {
        require(b.len() == 1, "the identifier is as short as possible");
        require(b[0] == lead + n as u8, "short form holds class, flag and number");
        cover("short");
    } else {
        let mut k = 1;
        while k < 19 && n >> (7 * k) != 0 {
            k += 1;
        }
        require(b.len() == k + 1, "the identifier is as short as possible");
        require(b[0] == lead + 31, "long form announces class and flag");
        let mut i = 0;
        while i < k {
            let g = (n >> (7 * (k - 1 - i))) as u8 & 0x7f;
            require(b[i + 1] == if i + 1 < k { g | 0x80 } else { g }, "long form holds the number in groups of seven bits");
            i += 1;
        }
        cover("long");
    }
}

fn reports(id: &IdRef, cls: u8, con: bool, n: u128) {
    require(id.class() == class_of(cls), "the class is reported");
    require(
        id.is_universal() == (cls == 0)
            && id.is_application() == (cls == 1)
            && id.is_context_specific() == (cls == 2)
            && id.is_private() == (cls == 3),
        "the class predicates agree",
    );
    require(id.pc() == pc_of(con) && id.is_constructed() == con && id.is_primitive() == !con, "the flag is reported");
    match id.number() {
        Ok(m) => require(m.get() == n, "the number is reported"),
        Err(_) => require(false, "the number is reported"),
    }
}

fn accepted(b: &[u8]) {
    let mut r = b;
    match IdRef::parse(&mut r) {
        Ok(i) => require(i.len() == b.len() && r.len() == 0, "the parser accepts it"),
        Err(_) => require(false, "the parser accepts it"),
    }
}

pub fn c06_new() {
    let cls = each(4) as u8;
    let con = each(2) == 1;
    let n = any_u128();
    let id = Id::new(class_of(cls), pc_of(con), n.into());
    is_id(&id, cls, con, n);
}

pub fn c06_new_reports() {
    let cls = each(4) as u8;
    let con = each(2) == 1;
    let n = any_u128();
    let id = Id::new(class_of(cls), pc_of(con), n.into());
    reports(&id, cls, con, n);
    accepted(id.as_ref());
    cover("reported");
}

pub fn c06_number_types() {
    let a = any_u8();
    require(TagNumber::from(a).get() == a as u128, "u8 tag number");
    let a = any_u16();
    require(TagNumber::from(a).get() == a as u128, "u16 tag number");
    let a = any_u32();
    require(TagNumber::from(a).get() == a as u128, "u32 tag number");
    let a = any_u64();
    require(TagNumber::from(a).get() == a as u128, "u64 tag number");
    let a = any_usize();
    require(TagNumber::from(a).get() == a as u128, "usize tag number");
    let a = any_u128();
    require(TagNumber::from(a).get() == a, "u128 tag number");
    cover("all");
}

/// Any well-formed identifier of up to `MAX` octets.
fn any_id(v: &[u8]) -> &IdRef {
    let n = v.len();
    assume(spec::id(v) == Ok(n));
    unsafe { IdRef::from_bytes_unchecked(v) }
}

pub fn c06_read() {
    let n = 1 + each(23);
    let v = octets(n);
    let id = any_id(&v);
    let cls = v[0] >> 6;
    let con = v[0] & 0x20 != 0;
    require(id.class() as u8 == cls << 6, "the class is reported");
    require(id.pc() as u8 == v[0] & 0x20 && id.is_constructed() == con && id.is_primitive() == !con, "the flag is reported");
    require(
        id.is_universal() == (cls == 0)
            && id.is_application() == (cls == 1)
            && id.is_context_specific() == (cls == 2)
            && id.is_private() == (cls == 3),
        "the class predicates agree",
    );
    cover("read");
}

pub fn c06_number() {
    let n = 1 + each(23);
    let v = octets(n);
    let id = any_id(&v);
    match id.number() {
        Ok(m) => {
            let m = m.get();
            if n == 1 {
                require(m == (v[0] & 0x1f) as u128, "the number is reported");
            } else {
                require(n < 20 || (n == 20 && v[1] & 0x7f <= 3), "a number too large is refused");
                let mut w = 0u128;
                let mut i = 1;
                while i < n {
                    w = w << 7 | (v[i] & 0x7f) as u128;
                    i += 1;
                }
                require(m == w, "the number is reported");
            }
            cover("fits");
        }
        Err(e) => {
            require(spec::class(&e) == spec::OVERFLOW, "a number too large is an overflow");
            require(n > 20 || (n == 20 && v[1] & 0x7f > 3), "a number that fits is reported");
            cover("too large");
        }
    }
}

pub fn c06_set_class() {
    let n = 1 + each(6);
    let mut v = octets(n);
    let w = v.clone();
    any_id(&w);
    let cls = each(4) as u8;
    let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut v) };
    id.set_class(class_of(cls));
    require(id.class() == class_of(cls), "the class is the new one");
    require(v[0] == w[0] & 0x3f | cls << 6, "only the class changes");
    require(v[1..] == w[1..], "only the class changes");
    cover("set");
}

pub fn c06_set_pc() {
    let n = 1 + each(6);
    let mut v = octets(n);
    let w = v.clone();
    any_id(&w);
    let con = each(2) == 1;
    let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut v) };
    id.set_pc(pc_of(con));
    require(id.pc() == pc_of(con), "the flag is the new one");
    require(v[0] == w[0] & 0xdf | if con { 0x20 } else { 0 }, "only the flag changes");
    require(v[1..] == w[1..], "only the flag changes");
    cover("set");
}

/// The same on an identifier stored on the heap, whose number is larger than any type.
pub fn c06_edit_long() {
    let v = long_id();
    let w = any_id(&v);
    let mut id = Id::from(w);
    require(id.len() == v.len() && w.number().is_err(), "a number too large is an overflow");
    let (cls, con) = (each(4) as u8, each(2) == 1);
    if each(2) == 0 {
        id.set_class(class_of(cls));
        require(id.class() == class_of(cls), "the class is the new one");
        let b: &[u8] = id.as_ref();
        require(b[0] == (v[0] & 0x3f | cls << 6) && b[1..] == v[1..], "only the class changes");
        cover("class");
    } else {
        id.set_pc(pc_of(con));
        require(id.pc() == pc_of(con), "the flag is the new one");
        let b: &[u8] = id.as_ref();
        require(b[0] == (v[0] & 0xdf | if con { 0x20 } else { 0 }) && b[1..] == v[1..], "only the flag changes");
        cover("flag");
    }
}

/// From identifiers stored inline to any number.
pub fn c06_set_number() {
    set_number([1, 2, 21][each(3)]);
}

/// From identifiers stored at the edge of the inline storage and on the heap.
pub fn c06_set_number_large() {
    set_number([23, 24, 26][each(3)]);
}

fn set_number(n: usize) {
    let v = octets(n);
    let mut id = Id::from(any_id(&v));
    let k = any_u128();
    id.set_number(k.into());
    let first = v[0];
    let b: &[u8] = id.as_ref();
    require(b[0] & 0xe0 == first & 0xe0, "class and flag stay");
    if k < 31 {
        require(b.len() == 1 && b[0] & 0x1f == k as u8, "the number is the new one, in the short form");
        cover("short");
    } else {
        let mut m = 1;
        while m < 19 && k >> (7 * m) != 0 {
            m += 1;
        }
        require(b.len() == m + 1 && b[0] & 0x1f == 31, "the number is the new one, in the shortest long form");
        let mut i = 0;
        while i < m {
            let g = (k >> (7 * (m - 1 - i))) as u8 & 0x7f;
            require(b[i + 1] == if i + 1 < m { g | 0x80 } else { g }, "long form holds the number in groups of seven bits");
            i += 1;
        }
        cover("long");
    }
}

fn one(id: &IdRef, o: u8, rule: &'static str) {
    let b: &[u8] = id.as_ref();
    require(b.len() == 1 && b[0] == o, rule);
}

pub fn c06_constants() {
    one(IdRef::eoc(), 0x00, "end-of-contents");
    one(IdRef::boolean(), 0x01, "BOOLEAN");
    one(IdRef::integer(), 0x02, "INTEGER");
    one(IdRef::octet_string(), 0x04, "OCTET STRING");
    one(IdRef::octet_string_constructed(), 0x24, "constructed OCTET STRING");
    one(IdRef::null(), 0x05, "NULL");
    one(IdRef::real(), 0x09, "REAL");
    one(IdRef::utf8_string(), 0x0c, "UTF8String");
    one(IdRef::utf8_string_constructed(), 0x2c, "constructed UTF8String");
    one(IdRef::sequence(), 0x30, "SEQUENCE");
    one(IdRef::set(), 0x31, "SET");
    require(
        ClassTag::Universal as u8 == 0 && ClassTag::Application as u8 == 0x40 && ClassTag::ContextSpecific as u8 == 0x80 && ClassTag::Private as u8 == 0xc0,
        "class bits",
    );
    require(PCTag::Primitive as u8 == 0 && PCTag::Constructed as u8 == 0x20, "flag bit");
    cover("all");
}
