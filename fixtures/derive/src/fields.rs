//! Derived types are their identifier and their fields, in order.

use crate::model::*;
use crate::want::*;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::{Deserialize, Serialize};
use bsn1_serde::OctetString;
use rt::*;

// ---- the types ----

#[derive(Serialize, Deserialize)]
struct Unit;

#[derive(Serialize, Deserialize)]
struct Empty {}

#[derive(Serialize, Deserialize)]
struct Tuple(u8, bool);

#[derive(Serialize, Deserialize)]
struct Named {
    a: bool,
    b: u8,
    c: OctetString<'static>,
}

/// Three of the same type: only the order tells them apart.
#[derive(Serialize, Deserialize)]
struct Three {
    z: u8,
    y: u8,
    x: u8,
}

fn seven() -> u8 {
    7
}

#[derive(Serialize, Deserialize)]
struct Skips {
    #[bsn1_serde(skip)]
    a: u8,
    b: u8,
    #[bsn1_serde(skip, default = "seven")]
    c: u8,
    d: u8,
    #[bsn1_serde(skip_serializing, skip_deserializing, default = "Skips::nine")]
    e: u8,
}

impl Skips {
    fn nine() -> u8 {
        9
    }
}

/// Written and read differently.
#[derive(Serialize, Deserialize)]
struct Uneven(
    #[bsn1_serde(skip_serializing)] u8,
    u8,
    #[bsn1_serde(skip_deserializing, default = "seven")] u8,
    #[bsn1_serde(skip_serializing, default = "seven")] bool,
    #[bsn1_serde(skip_deserializing)] bool,
);

/// A type of the user without an encoding.
#[derive(Clone)]
struct Mine {
    v: u8,
}

#[derive(Debug)]
struct Odd;
impl std::fmt::Display for Odd {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Odd {}

impl From<Mine> for u8 {
    fn from(m: Mine) -> u8 {
        m.v ^ 1
    }
}
impl From<u8> for Mine {
    fn from(v: u8) -> Mine {
        Mine { v: v ^ 1 }
    }
}

/// Even values only.
struct Even {
    v: u8,
}
impl Even {
    fn out(&self) -> u8 {
        self.v ^ 2
    }
}
impl TryFrom<u8> for Even {
    type Error = Odd;
    fn try_from(v: u8) -> Result<Even, Odd> {
        if v & 1 == 0 {
            Ok(Even { v: v ^ 2 })
        } else {
            Err(Odd)
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Converted {
    #[bsn1_serde(into = "u8", from = "u8")]
    a: Mine,
    b: u8,
    #[bsn1_serde(to = "Even::out", try_from = "u8")]
    c: Even,
}

#[derive(Serialize, Deserialize)]
struct Mixed(
    #[bsn1_serde(to = "Even::out", try_from = "u8")] Even,
    #[bsn1_serde(into = "u8", from = "u8")] Mine,
);

#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Plain(u8);

#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Window {
    #[bsn1_serde(skip, default = "seven")]
    a: u8,
    b: Tuple,
    #[bsn1_serde(skip)]
    c: u8,
}

#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct WindowTo {
    #[bsn1_serde(to = "Even::out", try_from = "u8")]
    a: Even,
    #[bsn1_serde(skip)]
    b: u8,
}

#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct WindowInto(#[bsn1_serde(into = "u8", from = "u8")] Mine);

/// One field is written, another one is read.
#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Door {
    #[bsn1_serde(skip_deserializing, default = "seven")]
    a: u8,
    #[bsn1_serde(skip_serializing)]
    b: bool,
}

#[derive(Clone, Serialize, Deserialize)]
#[bsn1_serde(into = "u8", from = "u8")]
struct Whole {
    v: u8,
}
impl From<Whole> for u8 {
    fn from(m: Whole) -> u8 {
        m.v ^ 1
    }
}
impl From<u8> for Whole {
    fn from(v: u8) -> Whole {
        Whole { v: v ^ 1 }
    }
}

#[derive(Serialize, Deserialize)]
#[bsn1_serde(to = "WholeTo::out", try_from = "u8")]
enum WholeTo {
    Zero,
    Some(u8),
}
impl WholeTo {
    fn out(&self) -> u8 {
        match self {
            WholeTo::Zero => 0,
            WholeTo::Some(v) => *v,
        }
    }
}
impl TryFrom<u8> for WholeTo {
    type Error = Odd;
    fn try_from(v: u8) -> Result<WholeTo, Odd> {
        if v & 1 == 1 {
            Err(Odd)
        } else if v == 0 {
            Ok(WholeTo::Zero)
        } else {
            Ok(WholeTo::Some(v))
        }
    }
}

#[derive(Serialize, Deserialize)]
struct Generic<T: Serialize + Deserialize, U>
where
    U: Serialize + Deserialize,
{
    a: T,
    b: U,
}

#[derive(Serialize, Deserialize)]
struct Fixed<const N: usize>(u8, #[bsn1_serde(skip)] [u8; N])
where
    [u8; N]: Default;

#[derive(Serialize)]
struct Borrowing<'a> {
    a: OctetString<'a>,
}

#[derive(Serialize, Deserialize)]
struct Outer {
    a: Tuple,
    b: Vec<Plain>,
    c: Unit,
}

#[derive(Serialize, Deserialize)]
enum Choice {
    Sequence(u8, bool),
    #[bsn1_serde(id = Set)]
    Set {
        x: u8,
        #[bsn1_serde(skip, default = "seven")]
        hidden: u8,
        y: u8,
    },
    #[bsn1_serde(id = Null)]
    Nothing,
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 3)]
    Converted(
        #[bsn1_serde(into = "u8", from = "u8")] Mine,
        #[bsn1_serde(to = "Even::out", try_from = "u8")] Even,
    ),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 4)]
    Empty {},
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 5)]
    Uneven(#[bsn1_serde(skip_serializing)] u8, #[bsn1_serde(skip_deserializing)] bool),
}

#[derive(Serialize)]
struct WithShy {
    a: u8,
    b: Shy,
}

#[derive(Serialize)]
enum ShyChoice {
    A(Shy, u8),
}

#[derive(Serialize)]
#[bsn1_serde(transparent)]
struct ShyWindow(Shy);

#[derive(Serialize)]
struct SkippedShy(u8, #[bsn1_serde(skip_serializing)] Shy);

/// Identifiers of more than one octet.
#[derive(Serialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0x4000)]
struct Far(u8);

#[derive(Serialize)]
enum FarChoice {
    A(u8, Far),
}

#[derive(Serialize)]
struct Farther {
    a: Far,
    b: u8,
    c: Far,
}

#[derive(Serialize, Deserialize)]
enum Raw<T: Serialize + Deserialize> {
    A {
        r#type: u8,
        r#fn: T,
    },
    #[bsn1_serde(id = Set)]
    B(T),
}

#[derive(Serialize, Deserialize)]
struct RawStruct {
    r#type: u8,
    r#match: u8,
}

/// More than ten fields.
#[derive(Serialize, Deserialize)]
struct Wide {
    f11: u8,
    f10: u8,
    f9: u8,
    #[bsn1_serde(skip)]
    f8: u8,
    f7: u8,
    f6: u8,
    #[bsn1_serde(skip, default = "seven")]
    f5: u8,
    f4: u8,
    f3: u8,
    f2: u8,
    f1: u8,
    f0: u8,
    e: u8,
}

#[derive(Serialize, Deserialize)]
struct WideTuple(u8, u8, u8, #[bsn1_serde(skip)] u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);

#[derive(Serialize, Deserialize)]
enum WideChoice {
    Tuple(u8, u8, u8, #[bsn1_serde(skip)] u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    #[bsn1_serde(id = Set)]
    Named {
        f11: u8,
        f10: u8,
        f9: u8,
        #[bsn1_serde(skip)]
        f8: u8,
        f7: u8,
        f6: u8,
        #[bsn1_serde(skip, default = "seven")]
        f5: u8,
        f4: u8,
        f3: u8,
        f2: u8,
        f1: u8,
        f0: u8,
        e: u8,
    },
}

// ---- what they are written as ----

fn small() -> u8 {
    let v = any_u8();
    assume(v < 0x80);
    v
}

fn flag() -> bool {
    each(2) == 1
}

fn int(v: u8) -> Vec<u8> {
    vec![2, 1, v]
}

fn boolean(v: bool) -> Vec<u8> {
    vec![1, 1, if v { 0xff } else { 0 }]
}

fn seq(id: u8, parts: &[Vec<u8>]) -> Vec<u8> {
    let mut c = Vec::new();
    for p in parts {
        c.extend_from_slice(p);
    }
    one(id, &c)
}

pub fn c18_write_empty() {
    if flag() {
        written(&Unit, &[SEQUENCE, 0], true);
        cover("unit");
    } else {
        written(&Empty {}, &[SEQUENCE, 0], true);
        cover("braces");
    }
}

pub fn c18_write_tuple() {
    let (a, b) = (any_u8(), flag());
    let w = crate::want::integer(a as u128, false);
    written(&Tuple(a, b), &seq(SEQUENCE, &[one(INTEGER, &w), boolean(b)]), true);
    cover("written");
}

pub fn c18_write_named() {
    let (a, b, c) = (flag(), small(), octets(each(4)));
    let w = seq(SEQUENCE, &[boolean(a), int(b), one(OCTET_STRING, &c)]);
    written(&Named { a, b, c: OctetString::from(c.clone()) }, &w, true);
    cover("written");
}

pub fn c18_write_order() {
    let (x, y, z) = (small(), small(), small());
    written(&Three { x, y, z }, &seq(SEQUENCE, &[int(z), int(y), int(x)]), true);
    cover("written");
}

pub fn c18_write_skips() {
    let (b, d) = (small(), small());
    let v = Skips { a: any_u8(), b, c: any_u8(), d, e: any_u8() };
    written(&v, &seq(SEQUENCE, &[int(b), int(d)]), true);
    cover("skip");
    let (b, c, e) = (small(), small(), flag());
    let v = Uneven(any_u8(), b, c, any_bool(), e);
    written(&v, &seq(SEQUENCE, &[int(b), int(c), boolean(e)]), true);
    cover("skip one way");
}

pub fn c18_write_converted() {
    let (a, b, c) = (small(), small(), small());
    let w = seq(SEQUENCE, &[int(a ^ 1), int(b), int(c ^ 2)]);
    written(&Converted { a: Mine { v: a }, b, c: Even { v: c } }, &w, false);
    cover("named");
    written(&Mixed(Even { v: a }, Mine { v: c }), &seq(SEQUENCE, &[int(a ^ 2), int(c ^ 1)]), false);
    cover("tuple");
}

pub fn c18_write_transparent() {
    let a = small();
    match each(5) {
        0 => {
            written(&Plain(a), &int(a), true);
            cover("tuple");
        }
        1 => {
            let b = flag();
            let v = Window { a: any_u8(), b: Tuple(a, b), c: any_u8() };
            written(&v, &seq(SEQUENCE, &[int(a), boolean(b)]), true);
            cover("named");
        }
        2 => {
            written(&WindowTo { a: Even { v: a }, b: any_u8() }, &int(a ^ 2), false);
            cover("to");
        }
        3 => {
            written(&WindowInto(Mine { v: a }), &int(a ^ 1), false);
            cover("into");
        }
        _ => {
            written(&Door { a, b: any_bool() }, &int(a), true);
            cover("door");
        }
    }
}

pub fn c18_write_container() {
    let a = small();
    if flag() {
        written(&Whole { v: a }, &int(a ^ 1), false);
        cover("into");
    } else {
        written(&WholeTo::Some(a), &int(a), false);
        written(&WholeTo::Zero, &int(0), false);
        cover("to");
    }
}

pub fn c18_write_generic() {
    let (a, b) = (small(), flag());
    match each(4) {
        0 => {
            written(&Generic { a, b }, &seq(SEQUENCE, &[int(a), boolean(b)]), true);
            cover("plain");
        }
        1 => {
            let w = seq(SEQUENCE, &[seq(SEQUENCE, &[int(a)]), boolean(b)]);
            written(&Generic { a: vec![a], b }, &w, true);
            cover("nested");
        }
        2 => {
            written(&Fixed::<3>(a, [1; 3]), &seq(SEQUENCE, &[int(a)]), true);
            cover("constant");
        }
        _ => {
            let o = octets(2);
            let w = seq(SEQUENCE, &[one(OCTET_STRING, &o)]);
            written(&Borrowing { a: OctetString::from(&o[..]) }, &w, true);
            cover("borrowing");
        }
    }
}

pub fn c18_write_nested() {
    let (a, b, c, d) = (small(), flag(), small(), small());
    let v = Outer { a: Tuple(a, b), b: vec![Plain(c), Plain(d)], c: Unit };
    let w = seq(
        SEQUENCE,
        &[seq(SEQUENCE, &[int(a), boolean(b)]), seq(SEQUENCE, &[int(c), int(d)]), seq(SEQUENCE, &[])],
    );
    written(&v, &w, true);
    cover("written");
}

/// Fields whose identifiers are more than one octet.
pub fn c18_write_far() {
    let (a, b, c) = (small(), small(), small());
    let far = |v: u8| vec![0xff, 0x81, 0x80, 0, 3, 2, 1, v];
    if flag() {
        let v = Farther { a: Far(a), b, c: Far(c) };
        written(&v, &seq(SEQUENCE, &[far(a), int(b), far(c)]), true);
        cover("struct");
    } else {
        written(&FarChoice::A(a, Far(b)), &seq(SEQUENCE, &[int(a), far(b)]), true);
        cover("enum");
    }
}

/// Field names which are keywords.
pub fn c18_write_raw() {
    let (a, b) = (small(), small());
    match each(3) {
        0 => {
            written(&Raw::A { r#type: a, r#fn: b }, &seq(SEQUENCE, &[int(a), int(b)]), true);
            cover("variant");
        }
        1 => {
            written(&Raw::B(vec![a]), &seq(SET, &[seq(SEQUENCE, &[int(a)])]), true);
            cover("generic");
        }
        _ => {
            written(&RawStruct { r#type: a, r#match: b }, &seq(SEQUENCE, &[int(a), int(b)]), true);
            cover("struct");
        }
    }
}

/// Fields whose length octets are more than one.
pub fn c18_write_long() {
    let n = match each(3) {
        0 => 125,
        1 => 128,
        _ => 256,
    };
    let c = octets(n);
    let w = seq(SEQUENCE, &[boolean(true), int(5), one(OCTET_STRING, &c)]);
    written(&Named { a: true, b: 5, c: OctetString::from(c) }, &w, true);
    cover("written");
}

pub fn c18_write_choice() {
    let (a, b) = (small(), small());
    match each(6) {
        0 => {
            let f = flag();
            written(&Choice::Sequence(a, f), &seq(SEQUENCE, &[int(a), boolean(f)]), true);
            cover("default");
        }
        1 => {
            written(&Choice::Set { x: a, hidden: any_u8(), y: b }, &seq(SET, &[int(a), int(b)]), true);
            cover("named");
        }
        2 => {
            written(&Choice::Nothing, &[5, 0], true);
            cover("unit");
        }
        3 => {
            let v = Choice::Converted(Mine { v: a }, Even { v: b });
            written(&v, &seq(0xe3, &[int(a ^ 1), int(b ^ 2)]), false);
            cover("converted");
        }
        4 => {
            written(&Choice::Empty {}, &[0xe4, 0], true);
            cover("empty");
        }
        _ => {
            let f = flag();
            written(&Choice::Uneven(any_u8(), f), &seq(0xe5, &[boolean(f)]), true);
            cover("uneven");
        }
    }
}

pub fn c18_write_shy() {
    let (a, o) = (small(), any_u8());
    let (id, contents) = (flag(), flag());
    let announced = id && contents;
    let s = Shy { id, contents, octet: o };
    let part = vec![OCTET_STRING, 1, o];
    match each(4) {
        0 => {
            partly(&WithShy { a, b: s }, &seq(SEQUENCE, &[int(a), part]), true, announced);
            cover("struct");
        }
        1 => {
            partly(&ShyChoice::A(s, a), &seq(SEQUENCE, &[part, int(a)]), true, announced);
            cover("enum");
        }
        2 => {
            partly(&ShyWindow(s), &part, id, contents);
            cover("transparent");
        }
        _ => {
            partly(&SkippedShy(a, s), &seq(SEQUENCE, &[int(a)]), true, true);
            cover("skipped");
        }
    }
}

/// As `written`, the two sizes announced independently.
fn partly<T: Serialize>(v: &T, want: &[u8], id: bool, contents: bool) {
    match bsn1_serde::to_der(v) {
        Ok(d) => same((*d).as_ref(), want, "identifier, exact length, contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    streamed(v, want);
    match v.id_len() {
        Ok(Some(n)) => require(id && n == 1, "the size announced for the identifier is what is written"),
        Ok(None) => require(!id, "the size of the identifier is announced"),
        Err(_) => require(false, "announcing a size succeeds"),
    }
    match v.der_contents_len() {
        Ok(Some(n)) => require(contents && n == want.len() - 2, "the size announced for the contents is what is written"),
        Ok(None) => require(!contents, "the size of the contents is announced"),
        Err(_) => require(false, "announcing a size succeeds"),
    }
}

// ---- what is read ----

/// The parts of an element with this identifier, which are as many as asked for.
fn parts<'a>(e: &Element<'a>, id: u8, n: usize, ber: bool) -> Option<Vec<Element<'a>>> {
    if !e.is(id) {
        return None;
    }
    let mut v = Vec::new();
    let mut at = 0;
    while v.len() < n {
        let x = element(&e.contents[at..], ber)?;
        at += x.size;
        v.push(x);
    }
    if at == e.contents.len() {
        Some(v)
    } else {
        None
    }
}

fn even(e: &Element, ber: bool) -> Option<u8> {
    let v = u8::model(e, ber)?;
    if v & 1 == 0 {
        Some(v)
    } else {
        None
    }
}

macro_rules! models {
    ($($t:ty, $v:ty, |$e:ident, $ber:ident| $m:expr, |$x:ident, $y:ident| $f:expr;)*) => { $(
        impl Model for $t {
            type Val = $v;
            fn model($e: &Element, $ber: bool) -> Option<$v> {
                $m
            }
            fn fits(&self, $y: &$v) -> bool {
                let $x = self;
                $f
            }
        }
    )* };
}
models! {
    Unit, (), |e, ber| {
        parts(e, SEQUENCE, 0, ber)?;
        Some(())
    }, |_x, _v| true;
    Empty, (), |e, ber| {
        parts(e, SEQUENCE, 0, ber)?;
        Some(())
    }, |_x, _v| true;
    Tuple, (u8, bool), |e, ber| {
        let p = parts(e, SEQUENCE, 2, ber)?;
        Some((u8::model(&p[0], ber)?, bool::model(&p[1], ber)?))
    }, |x, v| x.0 == v.0 && x.1 == v.1;
    Named, (bool, u8, Vec<u8>), |e, ber| {
        let p = parts(e, SEQUENCE, 3, ber)?;
        Some((bool::model(&p[0], ber)?, u8::model(&p[1], ber)?, OctetString::model(&p[2], ber)?))
    }, |x, v| x.a == v.0 && x.b == v.1 && eq(x.c.as_ref(), &v.2);
    Three, [u8; 3], |e, ber| {
        let p = parts(e, SEQUENCE, 3, ber)?;
        Some([u8::model(&p[0], ber)?, u8::model(&p[1], ber)?, u8::model(&p[2], ber)?])
    }, |x, v| x.z == v[0] && x.y == v[1] && x.x == v[2];
    Skips, [u8; 2], |e, ber| {
        let p = parts(e, SEQUENCE, 2, ber)?;
        Some([u8::model(&p[0], ber)?, u8::model(&p[1], ber)?])
    }, |x, v| x.a == 0 && x.b == v[0] && x.c == 7 && x.d == v[1] && x.e == 9;
    Uneven, (u8, u8, bool), |e, ber| {
        let p = parts(e, SEQUENCE, 3, ber)?;
        Some((u8::model(&p[0], ber)?, u8::model(&p[1], ber)?, bool::model(&p[2], ber)?))
    }, |x, v| x.0 == v.0 && x.1 == v.1 && x.2 == 7 && x.3 == v.2 && !x.4;
    Converted, [u8; 3], |e, ber| {
        let p = parts(e, SEQUENCE, 3, ber)?;
        Some([u8::model(&p[0], ber)?, u8::model(&p[1], ber)?, even(&p[2], ber)?])
    }, |x, v| x.a.v == v[0] ^ 1 && x.b == v[1] && x.c.v == v[2] ^ 2;
    Mixed, [u8; 2], |e, ber| {
        let p = parts(e, SEQUENCE, 2, ber)?;
        Some([even(&p[0], ber)?, u8::model(&p[1], ber)?])
    }, |x, v| x.0.v == v[0] ^ 2 && x.1.v == v[1] ^ 1;
    Plain, u8, |e, ber| u8::model(e, ber), |x, v| x.0 == *v;
    Window, (u8, bool), |e, ber| Tuple::model(e, ber),
        |x, v| x.a == 7 && x.b.fits(v) && x.c == 0;
    WindowTo, u8, |e, ber| even(e, ber), |x, v| x.a.v == *v ^ 2 && x.b == 0;
    WindowInto, u8, |e, ber| u8::model(e, ber), |x, v| x.0.v == *v ^ 1;
    Door, bool, |e, ber| bool::model(e, ber), |x, v| x.a == 7 && x.b == *v;
    Whole, u8, |e, ber| u8::model(e, ber), |x, v| x.v == *v ^ 1;
    WholeTo, u8, |e, ber| even(e, ber), |x, v| match x {
        WholeTo::Zero => *v == 0,
        WholeTo::Some(w) => *v != 0 && *w == *v,
    };
    Generic<Vec<bool>, u8>, (Vec<bool>, u8), |e, ber| {
        let p = parts(e, SEQUENCE, 2, ber)?;
        Some((Vec::<bool>::model(&p[0], ber)?, u8::model(&p[1], ber)?))
    }, |x, v| x.a.fits(&v.0) && x.b == v.1;
    Fixed<2>, u8, |e, ber| {
        let p = parts(e, SEQUENCE, 1, ber)?;
        u8::model(&p[0], ber)
    }, |x, v| x.0 == *v && x.1[0] == 0 && x.1[1] == 0;
    Outer, ((u8, bool), Vec<u8>, ()), |e, ber| {
        let p = parts(e, SEQUENCE, 3, ber)?;
        Some((Tuple::model(&p[0], ber)?, Vec::<Plain>::model(&p[1], ber)?, Unit::model(&p[2], ber)?))
    }, |x, v| x.a.fits(&v.0) && x.b.fits(&v.1);
    Choice, (u8, u8, u8), |e, ber| {
        if e.is(SEQUENCE) {
            let p = parts(e, SEQUENCE, 2, ber)?;
            Some((0, u8::model(&p[0], ber)?, if bool::model(&p[1], ber)? { 1 } else { 0 }))
        } else if e.is(SET) {
            let p = parts(e, SET, 2, ber)?;
            Some((1, u8::model(&p[0], ber)?, u8::model(&p[1], ber)?))
        } else if e.is(5) {
            parts(e, 5, 0, ber)?;
            Some((2, 0, 0))
        } else if e.is(0xe3) {
            let p = parts(e, 0xe3, 2, ber)?;
            Some((3, u8::model(&p[0], ber)?, even(&p[1], ber)?))
        } else if e.is(0xe4) {
            parts(e, 0xe4, 0, ber)?;
            Some((4, 0, 0))
        } else if e.is(0xe5) {
            let p = parts(e, 0xe5, 1, ber)?;
            Some((5, u8::model(&p[0], ber)?, 0))
        } else {
            None
        }
    }, |x, v| match x {
        Choice::Sequence(a, b) => v.0 == 0 && *a == v.1 && *b == (v.2 == 1),
        Choice::Set { x, hidden, y } => v.0 == 1 && *x == v.1 && *hidden == 7 && *y == v.2,
        Choice::Nothing => v.0 == 2,
        Choice::Converted(a, b) => v.0 == 3 && a.v == v.1 ^ 1 && b.v == v.2 ^ 2,
        Choice::Empty {} => v.0 == 4,
        Choice::Uneven(a, b) => v.0 == 5 && *a == v.1 && !*b,
    };
}

macro_rules! reads {
    ($($f:ident $t:ty, $b:expr, $w:expr;)*) => { $(
        pub fn $f() {
            agree::<$t>(&disturbed(&$b, 0, $w), each(2) == 1);
        }
    )* };
}
// reach: accepted, refused
reads! {
    c18_read_unit Unit, [0x30, 0, 5, 0], 3;
    c18_read_empty Empty, [0x30, 0, 5, 0], 3;
    c18_read_tuple Tuple, [0x30, 6, 2, 1, 5, 1, 1, 0xff, 1, 1, 0], 3;
    c18_read_named Named, [0x30, 10, 1, 1, 0xff, 2, 1, 5, 4, 2, 0, 0, 5, 0], 2;
    c18_read_order Three, [0x30, 9, 2, 1, 5, 2, 1, 6, 2, 1, 7, 2, 1, 8], 2;
    c18_read_skips Skips, [0x30, 6, 2, 1, 5, 2, 1, 6, 2, 1, 7], 2;
    c18_read_uneven Uneven, [0x30, 9, 2, 1, 5, 2, 1, 6, 1, 1, 0xff, 2, 1, 8], 2;
    c18_read_converted Converted, [0x30, 9, 2, 1, 5, 2, 1, 6, 2, 1, 8, 2, 1, 8], 2;
    c18_read_mixed Mixed, [0x30, 6, 2, 1, 4, 2, 1, 6, 2, 1, 7], 2;
    c18_read_plain Plain, [2, 1, 5, 5, 0], 3;
    c18_read_window Window, [0x30, 6, 2, 1, 5, 1, 1, 0xff, 1, 1, 0], 2;
    c18_read_window_to WindowTo, [2, 1, 4, 5, 0], 3;
    c18_read_window_into WindowInto, [2, 1, 5, 5, 0], 3;
    c18_read_door Door, [1, 1, 0xff, 5, 0], 3;
    c18_read_whole Whole, [2, 1, 5, 5, 0], 3;
    c18_read_whole_to WholeTo, [2, 1, 4, 5, 0], 3;
    c18_read_generic Generic<Vec<bool>, u8>, [0x30, 8, 0x30, 3, 1, 1, 0xff, 2, 1, 5, 2, 1, 5], 2;
    c18_read_sized Fixed<2>, [0x30, 3, 2, 1, 5, 2, 1, 6], 3;
    c18_read_nested Outer, [0x30, 15, 0x30, 6, 2, 1, 5, 1, 1, 0xff, 0x30, 3, 2, 1, 7, 0x30, 0, 5, 0], 2;
    c18_read_choice_default Choice, [0x30, 6, 2, 1, 5, 1, 1, 0xff, 1, 1, 0], 2;
    c18_read_choice_set Choice, [0x31, 6, 2, 1, 5, 2, 1, 6, 2, 1, 7], 2;
    c18_read_choice_unit Choice, [5, 0, 5, 0], 3;
    c18_read_choice_converted Choice, [0xe3, 6, 2, 1, 5, 2, 1, 6, 2, 1, 7], 2;
    c18_read_choice_empty Choice, [0xe4, 0, 5, 0], 3;
    c18_read_choice_uneven Choice, [0xe5, 3, 2, 1, 5, 2, 1, 6], 2;
    c18_read_open Tuple, [0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 0, 0, 0], 2;
    c18_read_open_nested Outer, [0x30, 0x80, 0x30, 6, 2, 1, 5, 1, 1, 0xff, 0x30, 0x80, 0, 0, 0x30, 0x80, 0, 0, 0, 0], 1;
    c18_read_open_choice Choice, [0x31, 0x80, 2, 1, 5, 2, 1, 6, 0, 0, 0], 2;
    c18_read_open_window Window, [0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 0, 0, 0], 2;
}
// reach: refused
reads! {
    c18_read_extra Tuple, [0x30, 9, 2, 1, 5, 1, 1, 0xff, 1, 1, 0], 1;
    c18_read_missing Tuple, [0x30, 3, 2, 1, 5], 1;
    c18_read_open_extra Tuple, [0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 1, 1, 0, 0, 0], 2;
    c18_read_open_missing Tuple, [0x30, 0x80, 2, 1, 5, 0, 0], 1;
    c18_read_extra_choice Choice, [0x31, 9, 2, 1, 5, 2, 1, 6, 1, 1, 0], 2;
    c18_read_open_extra_choice Choice, [0x31, 0x80, 2, 1, 5, 2, 1, 6, 1, 1, 0, 0, 0], 2;
    c18_read_open_extra_unit Unit, [0x30, 0x80, 5, 0, 0, 0], 1;
    c18_read_open_extra_empty Choice, [0xe4, 0x80, 5, 0, 0, 0], 1;
}

/// Values which are all different.
fn wide(n: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut v = Vec::new();
    let mut w = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(5 * i as u8);
        w.push(int(v[i]));
        i += 1;
    }
    (v, w)
}

pub fn c18_write_wide() {
    match each(4) {
        0 => {
            let (v, w) = wide(11);
            written(&Wide { f11: v[0], f10: v[1], f9: v[2], f8: 3, f7: v[3], f6: v[4], f5: 3, f4: v[5], f3: v[6], f2: v[7], f1: v[8], f0: v[9], e: v[10] }, &seq(SEQUENCE, &w), true);
            cover("named");
        }
        1 => {
            let (v, w) = wide(12);
            written(&WideTuple(v[0], v[1], v[2], 3, v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]), &seq(SEQUENCE, &w), true);
            cover("tuple");
        }
        2 => {
            let (v, w) = wide(12);
            written(&WideChoice::Tuple(v[0], v[1], v[2], 3, v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]), &seq(SEQUENCE, &w), true);
            cover("tuple variant");
        }
        _ => {
            let (v, w) = wide(11);
            written(&WideChoice::Named { f11: v[0], f10: v[1], f9: v[2], f8: 3, f7: v[3], f6: v[4], f5: 3, f4: v[5], f3: v[6], f2: v[7], f1: v[8], f0: v[9], e: v[10] }, &seq(SET, &w), true);
            cover("named variant");
        }
    }
}

fn read<T: Deserialize>(b: &[u8]) -> Option<T> {
    let r = if flag() { bsn1_serde::parse_ber::<T>(&mut &b[..]) } else { bsn1_serde::parse_der::<T>(&mut &b[..]) };
    r.ok()
}

pub fn c18_read_wide() {
    match each(4) {
        0 => {
            let (v, w) = wide(11);
            match read::<Wide>(&seq(SEQUENCE, &w)) {
                Some(x) => {
                    same(&[x.f11, x.f10, x.f9, x.f7, x.f6, x.f4, x.f3, x.f2, x.f1, x.f0, x.e], &v, "every field has its value");
                    require(x.f8 == 0 && x.f5 == 7, "skipped fields have their default");
                    cover("named");
                }
                None => require(false, "what the fields are written as is accepted"),
            }
        }
        1 => {
            let (v, w) = wide(12);
            match read::<WideTuple>(&seq(SEQUENCE, &w)) {
                Some(x) => {
                    same(&[x.0, x.1, x.2, x.4, x.5, x.6, x.7, x.8, x.9, x.10, x.11, x.12], &v, "every field has its value");
                    require(x.3 == 0, "skipped fields have their default");
                    cover("tuple");
                }
                None => require(false, "what the fields are written as is accepted"),
            }
        }
        2 => {
            let (v, w) = wide(12);
            match read::<WideChoice>(&seq(SEQUENCE, &w)) {
                Some(WideChoice::Tuple(a, b, c, d, e, f, g, h, i, j, k, l, m)) => {
                    same(&[a, b, c, e, f, g, h, i, j, k, l, m], &v, "every field has its value");
                    require(d == 0, "skipped fields have their default");
                    cover("tuple variant");
                }
                _ => require(false, "what the fields are written as is accepted"),
            }
        }
        _ => {
            let (v, w) = wide(11);
            match read::<WideChoice>(&seq(SET, &w)) {
                Some(WideChoice::Named { f11, f10, f9, f8, f7, f6, f5, f4, f3, f2, f1, f0, e }) => {
                    same(&[f11, f10, f9, f7, f6, f4, f3, f2, f1, f0, e], &v, "every field has its value");
                    require(f8 == 0 && f5 == 7, "skipped fields have their default");
                    cover("named variant");
                }
                _ => require(false, "what the fields are written as is accepted"),
            }
        }
    }
}

// ---- indefinite lengths ----

macro_rules! open {
    ($($f:ident $t:ty, $b:expr;)*) => { $(
        pub fn $f() {
            agree::<$t>(&disturbed(&$b, 0, 2), true);
        }
    )* };
}
// reach: accepted, refused
open! {
    c16_derive_unit Unit, [0x30, 0x80, 0, 0, 0, 0];
    c16_derive_tuple Tuple, [0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 0, 0, 0, 0];
    c16_derive_trailing_zeros Named, [0x30, 0x80, 1, 1, 0xff, 2, 1, 5, 4, 2, 0, 0, 0, 0, 0, 0];
    c16_derive_definite_zeros Named, [0x30, 10, 1, 1, 0xff, 2, 1, 5, 4, 2, 0, 0, 0, 0];
    c16_derive_nested Outer, [0x30, 0x80, 0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 0, 0, 0x30, 0x80, 0, 0, 0x30, 0, 0, 0];
    c16_derive_choice Choice, [0x31, 0x80, 2, 1, 5, 2, 1, 6, 0, 0, 0, 0];
    c16_derive_choice_unit Choice, [0xe4, 0x80, 0, 0, 0, 0];
    c16_derive_transparent Window, [0x30, 0x80, 2, 1, 5, 1, 1, 0xff, 0, 0, 0, 0];
}
// reach: refused
open! {
    c16_derive_primitive Plain, [2, 0x80, 2, 1, 5, 0, 0];
}

#[derive(Serialize, Deserialize)]
#[bsn1_serde(transparent)]
struct Pane {
    #[bsn1_serde(skip)]
    _side: u8,
    glass: OctetString<'static>,
}

#[derive(Serialize, Deserialize)]
#[bsn1_serde(tag_class = PRIVATE, tag_num = 0x4000)]
struct Crate {
    a: u8,
    b: OctetString<'static>,
    c: Pane,
}

#[derive(Serialize, Deserialize)]
enum Parcel {
    #[bsn1_serde(tag_num = 3)]
    Tall(OctetString<'static>, bool),
    #[bsn1_serde(tag_class = PRIVATE, tag_num = 0x4000)]
    Deep { a: Crate },
}

/// The octets of the length, and the contents it announces.
fn framed(n: usize) -> usize {
    let mut k = 1;
    if n >= 0x80 {
        while k < 9 && (k == 1 || n >> (8 * (k - 1)) != 0) {
            k += 1;
        }
    }
    k + n
}

/// Fields of any size.
fn announced<T: Serialize>(v: &T, id: usize, n: usize) {
    match (v.id_len(), v.der_contents_len()) {
        (Ok(i), Ok(c)) => {
            require(i.unwrap_or(id) == id, "the size announced for the identifier is what is written");
            require(c.unwrap_or(n) == n, "the size announced for the contents is what is written");
        }
        _ => require(false, "announcing a size succeeds"),
    }
    match bsn1_serde::to_der(v) {
        Ok(d) => {
            let b: &[u8] = (*d).as_ref();
            require(b.len() == id + framed(n), "identifier, exact length, fields");
            require(d.length().definite() == Some(n), "the length is that of the fields");
        }
        Err(_) => require(false, "serialization succeeds"),
    }
    cover("announced");
}

fn pile(n: usize) -> OctetString<'static> {
    OctetString::from(octets(n))
}

fn any_size() -> usize {
    let n = any_usize();
    assume(n <= 1 << 60);
    n
}

pub fn c18_sizes_struct() {
    let n = any_size();
    let v = Crate { a: 1, b: pile(n), c: Pane { _side: 0, glass: pile(3) } };
    announced(&v, 4, 9 + framed(n));
}

pub fn c18_sizes_transparent() {
    let n = any_size();
    announced(&Pane { _side: 0, glass: pile(n) }, 1, n);
}

pub fn c18_sizes_inner() {
    let n = any_size();
    let v = Crate { a: 1, b: pile(3), c: Pane { _side: 0, glass: pile(n) } };
    announced(&v, 4, 9 + framed(n));
}

pub fn c18_sizes_variant() {
    let n = any_size();
    announced(&Parcel::Tall(pile(n), true), 1, 4 + framed(n));
}

pub fn c18_sizes_deep() {
    let n = any_size();
    let a = Crate { a: 1, b: pile(n), c: Pane { _side: 0, glass: pile(0) } };
    announced(&Parcel::Deep { a }, 4, 4 + framed(6 + framed(n)));
}

pub fn c18_sizes_read() {
    let n = any_size();
    let a = Crate { a: 1, b: pile(n), c: Pane { _side: 0, glass: pile(2) } };
    match bsn1_serde::to_der(&Parcel::Deep { a }) {
        Ok(d) => match bsn1_serde::from_der::<Parcel>(&d) {
            Ok(Parcel::Deep { a }) => {
                require(a.a == 1 && a.b.as_ref().len() == n, "fields are read back");
                require(a.c.glass.as_ref().len() == 2, "fields are read back");
                cover("read");
            }
            _ => require(false, "what was written is read"),
        },
        Err(_) => require(false, "serialization succeeds"),
    }
}
