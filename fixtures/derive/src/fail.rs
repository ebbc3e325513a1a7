//! What happens when a field of a derived type, or the stream, fails.

use crate::faults::*;
use crate::want::*;
use bsn1_serde::{Deserialize, Serialize};
use rt::*;
use std::cell::Cell;

#[derive(Serialize)]
struct Two<'a> {
    a: Faulty<'a>,
    b: Faulty<'a>,
}

#[derive(Serialize)]
enum Either<'a> {
    A(Faulty<'a>, Faulty<'a>),
}

#[derive(Serialize)]
#[bsn1_serde(transparent)]
struct Through<'a>(Two<'a>);

fn itself<'a>(x: &Faulty<'a>) -> Faulty<'a> {
    *x
}

#[derive(Serialize)]
struct Turned<'a>(
    #[bsn1_serde(to = "itself")] Faulty<'a>,
    #[bsn1_serde(into = "Faulty")] Faulty<'a>,
);

fn twice<'a>(x: &Whole<'a>) -> Two<'a> {
    Two { a: x.a, b: x.b }
}

#[derive(Serialize)]
#[bsn1_serde(to = "twice")]
struct Whole<'a> {
    a: Faulty<'a>,
    b: Faulty<'a>,
}

pub fn c17_field() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&Two { a, b }, &log, &COUPLE);
}

pub fn c17_field_of_variant() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&Either::A(a, b), &log, &COUPLE);
}

pub fn c17_field_through() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&Through(Two { a, b }), &log, &COUPLE);
}

pub fn c17_field_turned() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&Turned(a, b), &log, &COUPLE);
}

pub fn c17_field_whole() {
    let log = Log { failed: Cell::new(false) };
    let (a, b) = couple(&log);
    serialized(&Whole { a, b }, &log, &COUPLE);
}

#[derive(Serialize, Deserialize)]
struct Pair(u8, u8);

#[derive(Serialize, Deserialize)]
enum PairChoice {
    A { a: u8, b: u8 },
}

/// A writer which fails anywhere.
pub fn c17_derive_write() {
    let (a, b) = (any_u8(), any_u8());
    assume(a < 0x80 && b < 0x80);
    let want = [SEQUENCE, 6, INTEGER, 1, a, INTEGER, 1, b];
    if each(2) == 0 {
        narrow(&Pair(a, b), &want);
    } else {
        narrow(&PairChoice::A { a, b }, &want);
    }
    cover("done");
}

/// A reader which fails anywhere.
pub fn c17_derive_read() {
    let v = any_u8();
    assume(v < 0x80);
    let ber = each(2) == 1;
    let b = [SEQUENCE, 6, INTEGER, 1, v, INTEGER, 1, 9];
    if each(2) == 0 {
        read::<Pair, _>(&b, ber, |x| x.0 == v && x.1 == 9);
    } else {
        read::<PairChoice, _>(&b, ber, |x| match x {
            PairChoice::A { a, b } => *a == v && *b == 9,
        });
    }
    cover("done");
}

#[derive(Deserialize)]
struct TwoOf {
    a: Refusing,
    b: Refusing,
}

#[derive(Deserialize)]
enum EitherOf {
    A(Refusing, Refusing),
}

#[derive(Deserialize)]
#[bsn1_serde(transparent)]
struct ThroughOf(TwoOf);

struct Kept(u8);
impl From<Refusing> for Kept {
    fn from(r: Refusing) -> Kept {
        Kept(r.0)
    }
}

#[derive(Debug)]
struct Large;
impl std::fmt::Display for Large {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Large {}

struct Tested(u8);
impl TryFrom<Refusing> for Tested {
    type Error = Large;
    fn try_from(r: Refusing) -> Result<Tested, Large> {
        Ok(Tested(r.0))
    }
}

#[derive(Deserialize)]
struct TurnedOf {
    #[bsn1_serde(from = "Refusing")]
    a: Kept,
    #[bsn1_serde(try_from = "Refusing")]
    b: Tested,
}

struct Inner(u8, u8);
#[derive(Deserialize)]
#[bsn1_serde(from = "TwoOf")]
struct WholeOf(u8, u8);
impl From<TwoOf> for WholeOf {
    fn from(t: TwoOf) -> WholeOf {
        WholeOf(t.a.0, t.b.0)
    }
}

#[derive(Deserialize)]
#[bsn1_serde(try_from = "TwoOf")]
struct TriedOf(u8, u8);
impl TryFrom<TwoOf> for TriedOf {
    type Error = Large;
    fn try_from(t: TwoOf) -> Result<TriedOf, Large> {
        Ok(TriedOf(t.a.0, t.b.0))
    }
}

pub fn c17_derive_element() {
    let v = octets(2);
    let b = [SEQUENCE, 6, 4, 1, v[0], 4, 1, v[1]];
    match each(6) {
        0 => nested::<TwoOf, _>(&b, |x| x.a.0 == v[0] && x.b.0 == v[1]),
        1 => nested::<EitherOf, _>(&b, |x| match x {
            EitherOf::A(x, y) => x.0 == v[0] && y.0 == v[1],
        }),
        2 => nested::<ThroughOf, _>(&b, |x| x.0.a.0 == v[0] && x.0.b.0 == v[1]),
        3 => nested::<TurnedOf, _>(&b, |x| x.a.0 == v[0] && x.b.0 == v[1]),
        4 => nested::<WholeOf, _>(&b, |x| x.0 == v[0] && x.1 == v[1]),
        _ => nested::<TriedOf, _>(&b, |x| x.0 == v[0] && x.1 == v[1]),
    }
    cover("done");
}
