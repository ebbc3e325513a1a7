//! The identifier the attributes ask for is written, announced and expected.

use crate::model::eq;
use crate::spec;
use bsn1_serde::de::Deserialize;
use bsn1_serde::ser::Serialize;
use bsn1_serde::{Deserialize, Serialize};
use rt::*;

const UNIVERSAL: u8 = 0;
const APPLICATION: u8 = 1;
const CONTEXT_SPECIFIC: u8 = 2;
const PRIVATE: u8 = 3;
const PRIMITIVE: u8 = 0;
const CONSTRUCTED: u8 = 1;

/// The shortest identifier octets of these.
fn octets_of(class: u8, pc: u8, num: u128) -> Vec<u8> {
    let first = class << 6 | pc << 5;
    if num < 0x1f {
        return vec![first | num as u8];
    }
    let mut groups = 1;
    while groups < 19 && num >> (7 * groups) != 0 {
        groups += 1;
    }
    let mut v = vec![first | 0x1f];
    while groups > 0 {
        groups -= 1;
        let g = (num >> (7 * groups)) as u8 & 0x7f;
        v.push(if groups > 0 { g | 0x80 } else { g });
    }
    v
}

const CONTENTS: [u8; 3] = [2, 1, 5];

/// The identifier is written, announced and accepted.
fn is_named<T: Serialize + Deserialize>(v: &T, want: &[u8]) {
    let mut w = Vec::new();
    require(v.write_id(&mut w).is_ok(), "serialization succeeds");
    require(eq(&w, want), "the identifier written is the one asked for");
    match v.id_len() {
        Ok(Some(n)) => require(n == want.len(), "the size announced for the identifier is what is written"),
        Ok(None) => require(false, "the size of the identifier is announced"),
        Err(_) => require(false, "announcing a size succeeds"),
    }
    let mut all = want.to_vec();
    all.push(CONTENTS.len() as u8);
    all.extend_from_slice(&CONTENTS);
    match bsn1_serde::to_der(v) {
        Ok(d) => require(eq((*d).as_ref(), &all), "the identifier is written in front of the contents"),
        Err(_) => require(false, "serialization succeeds"),
    }
    require(bsn1_serde::parse_der::<T>(&mut &all[..]).is_ok(), "DER with the identifier asked for is accepted");
    require(bsn1_serde::parse_ber::<T>(&mut &all[..]).is_ok(), "BER with the identifier asked for is accepted");
}

/// No other identifier of up to `n` octets is accepted.
fn no_other<T: Serialize + Deserialize>(want: &[u8], n: usize) {
    let k = 1 + each(n);
    let i = octets(k);
    match spec::id(&i) {
        Ok(m) => assume(m == k),
        Err(_) => assume(false),
    }
    let mut b = i.clone();
    b.push(CONTENTS.len() as u8);
    b.extend_from_slice(&CONTENTS);
    let r = if each(2) == 0 {
        bsn1_serde::parse_der::<T>(&mut &b[..])
    } else {
        bsn1_serde::parse_ber::<T>(&mut &b[..])
    };
    match r {
        Ok(_) => {
            require(eq(&i, want), "another identifier is refused");
            cover("accepted");
        }
        Err(e) => {
            require(!eq(&i, want), "the identifier asked for is accepted");
            require(spec::class(&e) == spec::UNMATCHED, "another identifier is reported as unmatched");
            cover("refused");
        }
    }
}

macro_rules! named {
    ($($f:ident { $($t:ident ($($a:tt)*) $class:expr, $pc:expr, $num:expr;)* })*) => { $(
        pub fn $f() {
            $(
                {
                    #[derive(Serialize, Deserialize)]
                    #[bsn1_serde($($a)*)]
                    struct $t(u8);
                    is_named(&$t(5), &octets_of($class, $pc, $num));
                    #[derive(Serialize, Deserialize)]
                    enum Either {
                        #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_num = 0x1ffff)]
                        Other(u8),
                        #[bsn1_serde($($a)*)]
                        $t(u8),
                    }
                    let v = Either::$t(5);
                    is_named(&v, &octets_of($class, $pc, $num));
                    let _ = Either::Other(1);
                }
            )*
            cover("named");
        }
    )* };
}
named! {
    c19_types {
        Default_() UNIVERSAL, CONSTRUCTED, 0x10;
        Eoc(id = EOC) UNIVERSAL, PRIMITIVE, 0;
        Boolean(id = Boolean) UNIVERSAL, PRIMITIVE, 1;
        Integer(id = Integer) UNIVERSAL, PRIMITIVE, 2;
        BitString(id = BitString) UNIVERSAL, PRIMITIVE, 3;
        OctetString(id = OctetString) UNIVERSAL, PRIMITIVE, 4;
        Null(id = Null) UNIVERSAL, PRIMITIVE, 5;
        Real(id = Real) UNIVERSAL, PRIMITIVE, 9;
        Utf8(id = UTF8String) UNIVERSAL, PRIMITIVE, 0x0c;
        Sequence(id = Sequence) UNIVERSAL, CONSTRUCTED, 0x10;
        Set(id = Set) UNIVERSAL, CONSTRUCTED, 0x11;
    }
    c19_classes {
        A(tag_class = UNIVERSAL) UNIVERSAL, CONSTRUCTED, 0x10;
        B(tag_class = APPLICATION) APPLICATION, CONSTRUCTED, 0x10;
        C(tag_class = CONTEXT_SPECIFIC) CONTEXT_SPECIFIC, CONSTRUCTED, 0x10;
        D(tag_class = PRIVATE) PRIVATE, CONSTRUCTED, 0x10;
        E(id = Null, tag_class = APPLICATION) APPLICATION, PRIMITIVE, 5;
        F(tag_class = CONTEXT_SPECIFIC, id = Set) CONTEXT_SPECIFIC, CONSTRUCTED, 0x11;
        G(id = UTF8String, tag_class = PRIVATE) PRIVATE, PRIMITIVE, 0x0c;
        H(id = UTF8String, tag_class = UNIVERSAL) UNIVERSAL, PRIMITIVE, 0x0c;
    }
    c19_flags {
        A(tag_pc = PRIMITIVE) UNIVERSAL, PRIMITIVE, 0x10;
        B(tag_pc = CONSTRUCTED) UNIVERSAL, CONSTRUCTED, 0x10;
        C(id = OctetString, tag_pc = CONSTRUCTED) UNIVERSAL, CONSTRUCTED, 4;
        D(tag_pc = PRIMITIVE, id = Set) UNIVERSAL, PRIMITIVE, 0x11;
        E(id = Null, tag_pc = PRIMITIVE) UNIVERSAL, PRIMITIVE, 5;
        F(tag_class = PRIVATE, tag_pc = PRIMITIVE) PRIVATE, PRIMITIVE, 0x10;
        G(tag_pc = CONSTRUCTED, id = Real, tag_class = APPLICATION) APPLICATION, CONSTRUCTED, 9;
        H(id = UTF8String, tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED) CONTEXT_SPECIFIC, CONSTRUCTED, 0x0c;
    }
    c19_short_numbers {
        A(tag_num = 0) UNIVERSAL, CONSTRUCTED, 0;
        B(tag_num = 1) UNIVERSAL, CONSTRUCTED, 1;
        C(tag_num = 0x0f) UNIVERSAL, CONSTRUCTED, 0x0f;
        D(tag_num = 0b10000) UNIVERSAL, CONSTRUCTED, 0x10;
        E(tag_num = 0x1E) UNIVERSAL, CONSTRUCTED, 0x1e;
        F(tag_num = 0o36) UNIVERSAL, CONSTRUCTED, 0x1e;
        M(tag_num = 0O21) UNIVERSAL, CONSTRUCTED, 0x11;
        N(tag_num = 0B1101) UNIVERSAL, CONSTRUCTED, 13;
        O(tag_num = 0X1c) UNIVERSAL, CONSTRUCTED, 0x1c;
        G(id = Set, tag_num = 2) UNIVERSAL, CONSTRUCTED, 2;
        H(id = UTF8String, tag_num = 3) UNIVERSAL, PRIMITIVE, 3;
        I(id = UTF8String, tag_class = APPLICATION, tag_num = 0) APPLICATION, PRIMITIVE, 0;
        J(tag_class = APPLICATION, tag_pc = PRIMITIVE, tag_num = 0x10) APPLICATION, PRIMITIVE, 0x10;
        K(tag_num = 30, tag_class = PRIVATE, tag_pc = CONSTRUCTED, id = Boolean) PRIVATE, CONSTRUCTED, 30;
        L(id = EOC, tag_num = 17) UNIVERSAL, PRIMITIVE, 17;
    }
    c19_long_numbers {
        A(tag_num = 31) UNIVERSAL, CONSTRUCTED, 31;
        B(tag_num = 32) UNIVERSAL, CONSTRUCTED, 32;
        C(tag_num = 0x7f) UNIVERSAL, CONSTRUCTED, 0x7f;
        D(tag_num = 0x80) UNIVERSAL, CONSTRUCTED, 0x80;
        E(tag_num = 0x81) UNIVERSAL, CONSTRUCTED, 0x81;
        F(tag_num = 0xff) UNIVERSAL, CONSTRUCTED, 0xff;
        G(tag_num = 256) UNIVERSAL, CONSTRUCTED, 256;
        H(tag_num = 1000) UNIVERSAL, CONSTRUCTED, 1000;
        I(tag_num = 0x3fff) UNIVERSAL, CONSTRUCTED, 0x3fff;
        J(tag_num = 0x4000) UNIVERSAL, CONSTRUCTED, 0x4000;
        K(tag_num = 0x4001) UNIVERSAL, CONSTRUCTED, 0x4001;
        L(tag_num = 0x10203) UNIVERSAL, CONSTRUCTED, 0x10203;
        M(tag_num = 0x1fffff) UNIVERSAL, CONSTRUCTED, 0x1fffff;
        N(tag_num = 0x200000) UNIVERSAL, CONSTRUCTED, 0x200000;
    }
    c19_longer_numbers {
        A(tag_num = 0xfffffff) UNIVERSAL, CONSTRUCTED, 0xfffffff;
        B(tag_num = 0x10000000) UNIVERSAL, CONSTRUCTED, 0x10000000;
        C(tag_num = 0xffffffff) UNIVERSAL, CONSTRUCTED, 0xffffffff;
        D(tag_num = 0x100000000) UNIVERSAL, CONSTRUCTED, 0x100000000;
        E(tag_num = 0x7ffffffff) UNIVERSAL, CONSTRUCTED, 0x7ffffffff;
        F(tag_num = 0x800000000) UNIVERSAL, CONSTRUCTED, 0x800000000;
        G(tag_num = 0xffffffffffffffff) UNIVERSAL, CONSTRUCTED, 0xffffffffffffffff;
        H(tag_num = 0x10000000000000000) UNIVERSAL, CONSTRUCTED, 0x10000000000000000;
        I(tag_num = 0x123456789abcdef0123456789abcdef0) UNIVERSAL, CONSTRUCTED, 0x123456789abcdef0123456789abcdef0;
        J(tag_num = 0x40000000000000000000000000000000) UNIVERSAL, CONSTRUCTED, 0x40000000000000000000000000000000;
        K(tag_num = 0x3fffffffffffffffffffffffffffffff) UNIVERSAL, CONSTRUCTED, 0x3fffffffffffffffffffffffffffffff;
        L(tag_num = 340282366920938463463374607431768211455) UNIVERSAL, CONSTRUCTED, u128::MAX;
    }
    c19_combined_numbers {
        A(tag_class = APPLICATION, tag_num = 31) APPLICATION, CONSTRUCTED, 31;
        B(tag_class = CONTEXT_SPECIFIC, tag_pc = PRIMITIVE, tag_num = 200) CONTEXT_SPECIFIC, PRIMITIVE, 200;
        C(id = Null, tag_num = 0o177) UNIVERSAL, PRIMITIVE, 127;
        D(id = Boolean, tag_class = PRIVATE, tag_pc = CONSTRUCTED, tag_num = 0b10000000) PRIVATE, CONSTRUCTED, 128;
        E(id = Set, tag_num = 0x1234) UNIVERSAL, CONSTRUCTED, 0x1234;
        F(tag_num = 99999, id = UTF8String, tag_class = UNIVERSAL) UNIVERSAL, PRIMITIVE, 99999;
        G(id = EOC, tag_class = PRIVATE, tag_num = 16384) PRIVATE, PRIMITIVE, 16384;
    }
}

/// One type and one variant with these attributes.
macro_rules! leaf {
    ([$($a:tt)*] $class:expr, $pc:expr, $num:expr) => {{
        #[derive(Serialize, Deserialize)]
        #[bsn1_serde($($a)*)]
        struct One(u8);
        #[derive(Serialize, Deserialize)]
        enum Either {
            #[bsn1_serde($($a)*)]
            One(u8),
        }
        let want = octets_of($class, $pc, $num);
        is_named(&One(5), &want);
        is_named(&Either::One(5), &want);
    }};
}
/// `$next` with one more attribute.
macro_rules! more {
    ($next:ident [] ($($n:tt)*) $($r:tt)*) => {
        $next! { [$($n)*] $($r)* }
    };
    ($next:ident [$($a:tt)+] ($($n:tt)*) $($r:tt)*) => {
        $next! { [$($a)+, $($n)*] $($r)* }
    };
}
macro_rules! numbers {
    ($a:tt $class:expr, $pc:expr, $num:expr) => {
        leaf! { $a $class, $pc, $num }
        more! { leaf $a (tag_num = 6) $class, $pc, 6 }
        more! { leaf $a (tag_num = 25) $class, $pc, 25 }
        more! { leaf $a (tag_num = 31) $class, $pc, 31 }
        more! { leaf $a (tag_num = 300) $class, $pc, 300 }
    };
}
macro_rules! flags {
    ($a:tt $class:expr, $pc:expr, $num:expr) => {
        numbers! { $a $class, $pc, $num }
        more! { numbers $a (tag_pc = PRIMITIVE) $class, PRIMITIVE, $num }
        more! { numbers $a (tag_pc = CONSTRUCTED) $class, CONSTRUCTED, $num }
    };
}
/// Every combination of attributes on top of these.
macro_rules! every {
    ($($f:ident $a:tt $pc:expr, $num:expr;)*) => { $(
        pub fn $f() {
            flags! { $a UNIVERSAL, $pc, $num }
            more! { flags $a (tag_class = UNIVERSAL) UNIVERSAL, $pc, $num }
            more! { flags $a (tag_class = APPLICATION) APPLICATION, $pc, $num }
            more! { flags $a (tag_class = CONTEXT_SPECIFIC) CONTEXT_SPECIFIC, $pc, $num }
            more! { flags $a (tag_class = PRIVATE) PRIVATE, $pc, $num }
            cover("named");
        }
    )* };
}
every! {
    c19_every_default [] CONSTRUCTED, 0x10;
    c19_every_eoc [id = EOC] PRIMITIVE, 0;
    c19_every_boolean [id = Boolean] PRIMITIVE, 1;
    c19_every_integer [id = Integer] PRIMITIVE, 2;
    c19_every_bit_string [id = BitString] PRIMITIVE, 3;
    c19_every_octet_string [id = OctetString] PRIMITIVE, 4;
    c19_every_null [id = Null] PRIMITIVE, 5;
    c19_every_real [id = Real] PRIMITIVE, 9;
    c19_every_utf8 [id = UTF8String] PRIMITIVE, 0x0c;
    c19_every_sequence [id = Sequence] CONSTRUCTED, 0x10;
    c19_every_set [id = Set] CONSTRUCTED, 0x11;
}

macro_rules! only {
    ($($f:ident ($($a:tt)*) $class:expr, $pc:expr, $num:expr, $n:expr;)*) => { $(
        pub fn $f() {
            #[derive(Serialize, Deserialize)]
            #[bsn1_serde($($a)*)]
            struct Only(u8);
            no_other::<Only>(&octets_of($class, $pc, $num), $n);
        }
    )* };
}
// reach: accepted, refused
only! {
    c19_only_default() UNIVERSAL, CONSTRUCTED, 0x10, 2;
    c19_only_set(id = Set) UNIVERSAL, CONSTRUCTED, 0x11, 2;
    c19_only_octet_string(id = OctetString) UNIVERSAL, PRIMITIVE, 4, 2;
    c19_only_class(tag_class = CONTEXT_SPECIFIC) CONTEXT_SPECIFIC, CONSTRUCTED, 0x10, 2;
    c19_only_flag(tag_pc = PRIMITIVE) UNIVERSAL, PRIMITIVE, 0x10, 2;
    c19_only_short(tag_class = PRIVATE, tag_num = 30) PRIVATE, CONSTRUCTED, 30, 2;
    c19_only_long(tag_class = PRIVATE, tag_num = 31) PRIVATE, CONSTRUCTED, 31, 3;
    c19_only_longer(tag_class = APPLICATION, tag_num = 128) APPLICATION, CONSTRUCTED, 128, 4;
}

/// Variants whose identifiers differ in one component each.
#[derive(Serialize, Deserialize)]
enum Close {
    Default(u8),
    #[bsn1_serde(id = Set)]
    Set(u8),
    #[bsn1_serde(tag_class = APPLICATION)]
    Class(u8),
    #[bsn1_serde(tag_pc = PRIMITIVE)]
    Flag(u8),
    #[bsn1_serde(tag_num = 31)]
    Long(u8),
    #[bsn1_serde(tag_num = 128)]
    Longer { x: u8 },
    #[bsn1_serde(tag_num = 16384)]
    Longest(u8),
    #[bsn1_serde(tag_num = 0x1f, tag_class = PRIVATE)]
    LongClass(u8),
}

const CLOSE: [&[u8]; 8] = [
    &[0x30],
    &[0x31],
    &[0x70],
    &[0x10],
    &[0x3f, 0x1f],
    &[0x3f, 0x81, 0],
    &[0x3f, 0x81, 0x80, 0],
    &[0xff, 0x1f],
];

fn close(k: usize, v: u8) -> Close {
    match k {
        0 => Close::Default(v),
        1 => Close::Set(v),
        2 => Close::Class(v),
        3 => Close::Flag(v),
        4 => Close::Long(v),
        5 => Close::Longer { x: v },
        6 => Close::Longest(v),
        _ => Close::LongClass(v),
    }
}

fn which(c: &Close) -> usize {
    match c {
        Close::Default(_) => 0,
        Close::Set(_) => 1,
        Close::Class(_) => 2,
        Close::Flag(_) => 3,
        Close::Long(_) => 4,
        Close::Longer { .. } => 5,
        Close::Longest(_) => 6,
        Close::LongClass(_) => 7,
    }
}

pub fn c19_variant_written() {
    let k = each(8);
    is_named(&close(k, 5), CLOSE[k]);
    cover("written");
}

pub fn c19_variant_chosen() {
    let k = 1 + each(4);
    let i = octets(k);
    match spec::id(&i) {
        Ok(m) => assume(m == k),
        Err(_) => assume(false),
    }
    let mut b = i.clone();
    b.push(CONTENTS.len() as u8);
    b.extend_from_slice(&CONTENTS);
    let r = if each(2) == 0 {
        bsn1_serde::parse_der::<Close>(&mut &b[..])
    } else {
        bsn1_serde::parse_ber::<Close>(&mut &b[..])
    };
    match r {
        Ok(c) => {
            require(eq(&i, CLOSE[which(&c)]), "the variant is the one with this identifier");
            cover("chosen");
        }
        Err(e) => {
            let mut j = 0;
            while j < CLOSE.len() {
                require(!eq(&i, CLOSE[j]), "the identifier of a variant is accepted");
                j += 1;
            }
            require(spec::class(&e) == spec::UNMATCHED, "another identifier is reported as unmatched");
            cover("refused");
        }
    }
}
