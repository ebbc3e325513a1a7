//! Abstract domains: bit provenance, octet value sets, intervals and linear facts.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Aid = u32;

#[derive(Default, Clone)]
pub struct FxH(u64);

impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95)
    }
}

pub type Fx = std::hash::BuildHasherDefault<FxH>;

/// One bit of an abstract integer: a constant, or bit `1` of atom `0`, negated if `2`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Bit {
    C(bool),
    S(Aid, u8, bool),
}

impl Bit {
    pub fn neg(self) -> Bit {
        match self {
            Bit::C(b) => Bit::C(!b),
            Bit::S(a, i, n) => Bit::S(a, i, !n),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    C(u128),
    B(Rc<[Bit]>),
    A(Rc<Aff>),
}

/// An abstract integer of `w` bits.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Sc {
    pub w: u8,
    pub k: K,
}

/// `k + sum(c * atom)`, to be read modulo 2^w of the integer carrying it.
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Aff {
    pub k: i128,
    pub t: Vec<(Aid, i128)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ltu,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    Input(Rc<str>),
    Cmp(Cmp, Sc, Sc),
    Op(&'static str, Vec<Sc>),
    Bits(Rc<[Bit]>),
    Aff(Rc<Aff>),
    BitOp(u8, Bit, Bit),
    Addr(u64),
    Octet(u32, Rc<Aff>),
    Phi(u64),
}

pub struct AtomInfo {
    pub w: u8,
    pub def: Def,
}

#[derive(Default)]
struct Arena {
    info: Vec<Rc<AtomInfo>>,
    vn: HashMap<(u8, Def), Aid>,
}

thread_local! {
    static NEST: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    static VER: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// Values already worked out for the facts used last.
    static MEMO: std::cell::RefCell<[(u64, HashMap<Aid, AF, Fx>); 4]> = Default::default();
    static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn atom(w: u8, def: Def) -> Aid {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(id) = a.vn.get(&(w, def.clone())) {
            return *id;
        }
        let id = a.info.len() as Aid;
        a.info.push(Rc::new(AtomInfo { w, def: def.clone() }));
        a.vn.insert((w, def), id);
        id
    })
}

pub fn atom_count() -> usize {
    ARENA.with(|a| a.borrow().info.len())
}

pub fn reset_arena() {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
}

pub fn info(a: Aid) -> Rc<AtomInfo> {
    ARENA.with(|x| x.borrow().info[a as usize].clone())
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl Sc {
    pub fn c(w: u8, v: u128) -> Sc {
        Sc { w, k: K::C(v & mask(w)) }
    }
    pub fn of_atom(w: u8, a: Aid) -> Sc {
        Sc { w, k: K::A(Rc::new(Aff { k: 0, t: vec![(a, 1)] })) }
    }
    pub fn aff(w: u8, a: Aff) -> Sc {
        if a.t.is_empty() {
            return Sc::c(w, a.k as u128);
        }
        Sc { w, k: K::A(Rc::new(a)) }
    }
    pub fn bits(b: Vec<Bit>) -> Sc {
        let w = b.len() as u8;
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            match x {
                Bit::C(true) => v |= 1 << i,
                Bit::C(false) => (),
                _ => {
                    // whole atom?
                    if let Some(a) = whole(&b) {
                        return Sc::of_atom(w, a);
                    }
                    return Sc { w, k: K::B(b.into()) };
                }
            }
        }
        Sc::c(w, v)
    }
    pub fn boolean(b: Bit) -> Sc {
        let mut v = vec![Bit::C(false); 8];
        v[0] = b;
        Sc::bits(v)
    }
    pub fn raw_const(&self) -> Option<u128> {
        match &self.k {
            K::C(v) => Some(*v),
            _ => None,
        }
    }
}

/// `bits` is an unsigned extension of a whole atom.
fn whole(b: &[Bit]) -> Option<Aid> {
    if let Bit::S(a, 0, false) = b[0] {
        let w = info(a).w as usize;
        if w > b.len() {
            return None;
        }
        for (i, x) in b.iter().enumerate() {
            if i < w {
                if *x != Bit::S(a, i as u8, false) {
                    return None;
                }
            } else if *x != Bit::C(false) {
                return None;
            }
        }
        Some(a)
    } else {
        None
    }
}

/// The bits of a sum whose summands have no bit in common.
fn disjoint(w: u8, a: &Aff, facts: Option<&Facts>) -> Option<Vec<Bit>> {
    if a.k < 0 || (a.k == 0 && a.t.len() == 1 && a.t[0].1 == 1) {
        return None;
    }
    let w = w as usize;
    let mut out: Vec<Bit> = (0..w).map(|i| Bit::C(i < 127 && a.k >> i & 1 == 1)).collect();
    for (x, c) in &a.t {
        if *c <= 0 || c & (c - 1) != 0 {
            return None;
        }
        let sh = c.trailing_zeros() as usize;
        let inf = info(*x);
        if matches!(inf.def, Def::Aff(_) | Def::Addr(_)) {
            return None;
        }
        for i in 0..inf.w as usize {
            let b = match &inf.def {
                Def::Bits(b) => b[i],
                _ => Bit::S(*x, i as u8, false),
            };
            if b == Bit::C(false) || i + sh >= w || facts.map_or(false, |f| f.bit_val(b) == Some(false)) {
                continue;
            }
            if out[i + sh] != Bit::C(false) {
                return None;
            }
            out[i + sh] = b;
        }
    }
    Some(out)
}

impl Aff {
    pub fn c(k: i128) -> Aff {
        Aff { k, t: vec![] }
    }
    pub fn cst(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.k)
        } else {
            None
        }
    }
    pub fn add(&self, o: &Aff, f: i128) -> Option<Aff> {
        let k = self.k.checked_add(o.k.checked_mul(f)?)?;
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.checked_mul(f)?));
                j += 1;
            } else {
                let c = self.t[i].1.checked_add(o.t[j].1.checked_mul(f)?)?;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Some(Aff { k, t })
    }
    pub fn plus(&self, k: i128) -> Aff {
        Aff { k: self.k + k, t: self.t.clone() }
    }
    pub fn scale(&self, f: i128) -> Option<Aff> {
        Aff::c(0).add(self, f).map(|mut a| {
            a.t.retain(|x| x.1 != 0);
            a
        })
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct AF {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128,
    pub ko: u128,
    pub set: Option<[u64; 4]>,
}

fn full_set(w: u8) -> [u64; 4] {
    let n = 1u32 << w;
    let mut s = [0u64; 4];
    for v in 0..n {
        s[(v / 64) as usize] |= 1 << (v % 64);
    }
    s
}

pub fn in_set(s: &[u64; 4], v: u32) -> bool {
    s[(v / 64) as usize] >> (v % 64) & 1 == 1
}

impl AF {
    fn top(w: u8, def: &Def) -> AF {
        let prim = !matches!(def, Def::Bits(_) | Def::Aff(_));
        AF {
            lo: 0,
            hi: mask(w),
            kz: !mask(w),
            ko: 0,
            set: if w <= 8 && prim { Some(full_set(w)) } else { None },
        }
    }
    /// Make all facets consistent; false if empty.
    fn norm(&mut self, w: u8) -> bool {
        if self.kz & self.ko != 0 || self.lo > self.hi {
            return false;
        }
        if let Some(s) = &mut self.set {
            let mut kz = u128::MAX;
            let mut ko = u128::MAX;
            let (mut lo, mut hi) = (u128::MAX, 0u128);
            let mut any = false;
            for v in 0..(1u32 << w) {
                if !in_set(s, v) {
                    continue;
                }
                let x = v as u128;
                if x & self.kz != 0 || x & self.ko != self.ko || x < self.lo || x > self.hi {
                    s[(v / 64) as usize] &= !(1 << (v % 64));
                    continue;
                }
                any = true;
                kz &= !x;
                ko &= x;
                lo = lo.min(x);
                hi = hi.max(x);
            }
            if !any {
                return false;
            }
            self.kz = kz;
            self.ko = ko;
            self.lo = lo;
            self.hi = hi;
            return true;
        }
        for _ in 0..4 {
            let old = *self;
            self.lo = self.lo.max(self.ko);
            self.hi = self.hi.min(mask(w) & !self.kz);
            if self.lo > self.hi {
                return false;
            }
            // common prefix of lo and hi
            let d = self.lo ^ self.hi;
            let keep = if d == 0 { u128::MAX } else { !mask((128 - d.leading_zeros()) as u8) };
            self.ko |= self.lo & keep;
            self.kz |= !self.lo & keep;
            if self.kz & self.ko != 0 {
                return false;
            }
            if *self == old {
                break;
            }
        }
        true
    }
}

#[derive(Clone, Default)]
pub struct Facts {
    pub at: HashMap<Aid, AF, Fx>,
    pub lin: Vec<Rc<Aff>>,
    pub ne: Vec<(Rc<[Bit]>, u128)>,
    /// Equal numbers mean equal facts.
    ver: u64,
}

/// What a transfer function may ask its caller to do instead of producing a value.
#[derive(Debug, Clone)]
pub enum Ex {
    /// Partition the state on this bit and retry.
    Fork(Bit),
    /// Partition the state on the value of this integer and retry.
    Split(Sc, Vec<u128>),
    Ub(String),
    Panic(String),
    Unsup(String),
    /// Infeasible.
    Dead,
}

pub type R<T> = Result<T, Ex>;

/// Something to put the sides of an equality in order by.
fn first_atom(s: &Sc) -> Aid {
    match &s.k {
        K::C(_) => Aid::MAX,
        K::A(a) => a.t.first().map_or(Aid::MAX, |x| x.0),
        K::B(b) => b
            .iter()
            .find_map(|x| match x {
                Bit::S(a, _, _) => Some(*a),
                _ => None,
            })
            .unwrap_or(Aid::MAX),
    }
}

impl Facts {
    pub fn af(&self, a: Aid) -> AF {
        if let Some(x) = self.at.get(&a) {
            if x.set.is_some() {
                return *x;
            }
        }
        let inf = info(a);
        if !matches!(inf.def, Def::Bits(_) | Def::Aff(_) | Def::Op(..)) {
            return match self.at.get(&a) {
                Some(x) => *x,
                None => AF::top(inf.w, &inf.def),
            };
        }
        let slot = (self.ver % 4) as usize;
        let known = MEMO.with(|m| {
            let m = &m.borrow()[slot];
            if m.0 == self.ver { m.1.get(&a).copied() } else { None }
        });
        if let Some(r) = known {
            return r;
        }
        let r = self.af_of(a, &inf);
        if NEST.with(|n| n.get()) == 0 {
            MEMO.with(|m| {
                let m = &mut m.borrow_mut()[slot];
                if m.0 != self.ver {
                    m.0 = self.ver;
                    m.1.clear();
                }
                m.1.insert(a, r);
            });
        }
        r
    }

    fn af_of(&self, a: Aid, inf: &AtomInfo) -> AF {
        let mut r = match self.at.get(&a) {
            Some(x) => *x,
            None => AF::top(inf.w, &inf.def),
        };
        match &inf.def {
            Def::Bits(b) => {
                let (lo, hi) = self.bits_range(b);
                r.lo = r.lo.max(lo);
                r.hi = r.hi.min(hi);
            }
            Def::Aff(aff) => {
                // the linear facts may lead back here
                let deep = NEST.with(|n| {
                    n.set(n.get() + 1);
                    n.get() > 3
                });
                let (lo, hi) = self.aff_urange(aff, inf.w, deep);
                NEST.with(|n| n.set(n.get() - 1));
                r.lo = r.lo.max(lo);
                r.hi = r.hi.min(hi);
            }
            Def::Op("ctpop", v) | Def::Op("ctlz", v) | Def::Op("cttz", v) => {
                r.hi = r.hi.min(v[0].w as u128);
            }
            Def::Op("udiv", v) => {
                let (_, h) = self.range(&v[0]);
                let (l2, _) = self.range(&v[1]);
                if l2 > 0 {
                    r.hi = r.hi.min(h / l2);
                }
            }
            Def::Op("urem", v) => {
                let (_, h2) = self.range(&v[1]);
                if h2 > 0 {
                    r.hi = r.hi.min(h2 - 1);
                }
            }
            _ => return r,
        }
        let save = r;
        if r.norm(inf.w) {
            r
        } else {
            save
        }
    }

    pub fn bit_val(&self, b: Bit) -> Option<bool> {
        match b {
            Bit::C(x) => Some(x),
            Bit::S(a, _, _) => self.bit_val_in(b, &self.af(a)),
        }
    }

    fn bit_val_in(&self, b: Bit, f: &AF) -> Option<bool> {
        match b {
            Bit::C(x) => Some(x),
            Bit::S(a, i, n) => {
                let m = 1u128 << i;
                if f.ko & m != 0 {
                    return Some(!n);
                }
                if f.kz & m != 0 {
                    return Some(n);
                }
                let inf = info(a);
                match &inf.def {
                    Def::Cmp(op, x, y) => self.decide(*op, x, y).map(|v| v ^ n),
                    Def::Bits(bs) => self.bit_val(bs[i as usize]).map(|v| v ^ n),
                    Def::BitOp(op, x, y) => {
                        let (p, q) = (self.bit_val(*x), self.bit_val(*y));
                        let r = match op {
                            0 => match (p, q) {
                                (Some(false), _) | (_, Some(false)) => Some(false),
                                (Some(true), Some(true)) => Some(true),
                                _ => None,
                            },
                            1 => match (p, q) {
                                (Some(true), _) | (_, Some(true)) => Some(true),
                                (Some(false), Some(false)) => Some(false),
                                _ => None,
                            },
                            _ => match (p, q) {
                                (Some(p), Some(q)) => Some(p ^ q),
                                _ => None,
                            },
                        };
                        r.map(|v| v ^ n)
                    }
                    _ => None,
                }
            }
        }
    }

    fn bits_range(&self, b: &[Bit]) -> (u128, u128) {
        let (mut lo, mut hi) = (0u128, 0u128);
        let mut last: Option<(Aid, AF)> = None;
        for (i, x) in b.iter().enumerate() {
            let v = match x {
                Bit::C(c) => Some(*c),
                Bit::S(a, _, _) => {
                    if last.map_or(true, |l| l.0 != *a) {
                        last = Some((*a, self.af(*a)));
                    }
                    self.bit_val_in(*x, &last.unwrap().1)
                }
            };
            match v {
                Some(true) => {
                    lo |= 1 << i;
                    hi |= 1 << i;
                }
                Some(false) => (),
                None => hi |= 1 << i,
            }
        }
        (lo, hi)
    }

    fn arange(&self, a: Aid) -> Option<(i128, i128)> {
        let f = self.af(a);
        if f.hi > i128::MAX as u128 {
            None
        } else {
            Some((f.lo as i128, f.hi as i128))
        }
    }

    /// Exact integer lower bound of the linear form.
    pub fn base_lower(&self, a: &Aff) -> Option<i128> {
        let mut k = a.k;
        for (x, c) in &a.t {
            let (lo, hi) = self.arange(*x)?;
            k = k.checked_add(c.checked_mul(if *c > 0 { lo } else { hi })?)?;
        }
        Some(k)
    }

    pub fn lower(&self, a: &Aff) -> Option<i128> {
        let mut best = self.base_lower(a);
        if a.t.is_empty() {
            return best;
        }
        for g in &self.lin {
            if !g.t.iter().any(|x| a.t.iter().any(|y| x.0 == y.0)) {
                continue;
            }
            if let Some(d) = a.add(g, -1) {
                let l = self.base_lower(&d);
                if l > best {
                    best = l;
                }
            }
        }
        best
    }

    pub fn upper(&self, a: &Aff) -> Option<i128> {
        let n = a.scale(-1)?;
        self.lower(&n).map(|x| -x)
    }

    pub fn prove_ge0(&self, a: &Aff) -> bool {
        if self.lower(a).map_or(false, |x| x >= 0) {
            return true;
        }
        if a.t.is_empty() {
            return false;
        }
        for g in &self.lin {
            if !g.t.iter().any(|x| a.t.iter().any(|y| x.0 == y.0)) {
                continue;
            }
            if let Some(d) = a.add(g, -1) {
                if d.t.len() <= a.t.len() + 1 && self.lower(&d).map_or(false, |x| x >= 0) {
                    return true;
                }
            }
        }
        self.chain_ge0(a, 3)
    }

    /// As above through a chain of facts, each taking a term away.
    fn chain_ge0(&self, a: &Aff, depth: u32) -> bool {
        if self.base_lower(a).map_or(false, |x| x >= 0) {
            return true;
        }
        if depth == 0 {
            return false;
        }
        for g in &self.lin {
            if !g.t.iter().any(|x| x.1 < 0 && a.t.contains(x)) {
                continue;
            }
            if let Some(d) = a.add(g, -1) {
                if d.t.len() <= a.t.len() && self.chain_ge0(&d, depth - 1) {
                    return true;
                }
            }
        }
        false
    }

    /// The linear form with what is known to be equal replaced, so that equal ones look the same.
    pub fn canon(&self, a: &Aff) -> Aff {
        let mut r = a.clone();
        if a.t.is_empty() {
            return r;
        }
        for _ in 0..3 {
            let mut changed = false;
            for (i, g) in self.lin.iter().enumerate() {
                let Some(x) = g.t.iter().filter(|x| x.1 == 1 || x.1 == -1).max_by_key(|x| x.0) else { continue };
                let Some(y) = r.t.iter().find(|y| y.0 == x.0) else { continue };
                let Some(n) = g.scale(-1) else { continue };
                if !self.lin[i + 1..].iter().any(|h| **h == n) && !self.lin[..i].iter().any(|h| **h == n) {
                    continue;
                }
                if let Some(z) = r.add(g, -y.1 * x.1) {
                    r = z;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        r
    }

    /// Range of the linear form read as an unsigned integer of `w` bits.
    fn aff_urange(&self, a: &Aff, w: u8, base: bool) -> (u128, u128) {
        let m = mask(w);
        let ex = if base {
            a.scale(-1).and_then(|n| Some((self.base_lower(a)?, -self.base_lower(&n)?)))
        } else {
            self.exact(a)
        };
        if let Some((lo, hi)) = ex {
            if lo >= 0 && hi as u128 <= m {
                return (lo as u128, hi as u128);
            }
            if w < 127 {
                let md = 1i128 << w;
                if hi < 0 && lo >= -md {
                    return ((lo + md) as u128, (hi + md) as u128);
                }
                if lo >= md && hi < 2 * md {
                    return ((lo - md) as u128, (hi - md) as u128);
                }
            }
        }
        (0, m)
    }

    pub fn exact(&self, a: &Aff) -> Option<(i128, i128)> {
        Some((self.lower(a)?, self.upper(a)?))
    }

    /// The linear form does not wrap as an unsigned integer of `w` bits.
    pub fn nowrap(&self, a: &Aff, w: u8) -> bool {
        match self.exact(a) {
            Some((lo, hi)) => lo >= 0 && (hi as u128) <= mask(w),
            None => a.t.len() == 1 && a.t[0].1 == 1 && a.k == 0,
        }
    }

    pub fn range(&self, s: &Sc) -> (u128, u128) {
        match &s.k {
            K::C(v) => (*v, *v),
            K::B(b) => {
                let (mut lo, mut hi) = self.bits_range(b);
                // low part of an atom whose remaining bits are known zero
                if let Some((_, s, f)) = self.slice_of(b) {
                    lo = lo.max(f.lo >> s);
                    hi = hi.min(f.hi >> s);
                }
                let key = Def::Bits(b.clone());
                let known = ARENA.with(|x| x.borrow().vn.get(&(s.w, key)).copied());
                if let Some(a) = known {
                    if let Some(f) = self.at.get(&a) {
                        lo = lo.max(f.lo);
                        hi = hi.min(f.hi);
                    }
                }
                (lo, hi)
            }
            K::A(a) => {
                if a.k == 0 && a.t.len() == 1 && a.t[0].1 == 1 {
                    let f = self.af(a.t[0].0);
                    return (f.lo, f.hi.min(mask(s.w)));
                }
                self.aff_urange(a, s.w, false)
            }
        }
    }

    /// The bits are an atom shifted right, where bits that differ in form are known to agree.
    fn slice_of(&self, b: &[Bit]) -> Option<(Aid, usize, AF)> {
        let (a, s) = b.iter().enumerate().find_map(|(i, x)| match x {
            Bit::S(a, j, false) if *j as usize >= i => Some((*a, *j as usize - i)),
            _ => None,
        })?;
        let w = info(a).w as usize;
        let mut f: Option<AF> = None;
        for i in 0..b.len().max(w - s) {
            let x = b.get(i).copied().unwrap_or(Bit::C(false));
            if i + s < w && x == Bit::S(a, (i + s) as u8, false) {
                continue;
            }
            let have = match x {
                Bit::C(v) => v,
                _ => self.bit_val(x)?,
            };
            let want = if i + s < w {
                let f = f.get_or_insert_with(|| self.af(a));
                self.bit_val_in(Bit::S(a, (i + s) as u8, false), f)?
            } else {
                false
            };
            if have != want {
                return None;
            }
        }
        Some((a, s, f.unwrap_or_else(|| self.af(a))))
    }

    /// The bits are those of an atom but for known ones: the atom and what to add to it.
    fn offset_of(&self, b: &[Bit]) -> Option<(Aid, i128)> {
        if b.len() > 64 {
            return self.whole_z(b).map(|a| (a, 0));
        }
        let a = b.iter().enumerate().find_map(|(i, x)| match x {
            Bit::S(a, j, false) if *j as usize == i => Some(*a),
            _ => None,
        })?;
        let w = info(a).w as usize;
        if w > 64 {
            return self.whole_z(b).map(|a| (a, 0));
        }
        let mut f: Option<AF> = None;
        let mut d = 0i128;
        for i in 0..b.len().max(w) {
            let x = b.get(i).copied().unwrap_or(Bit::C(false));
            if x == Bit::S(a, i as u8, false) {
                continue;
            }
            let have = match x {
                Bit::C(v) => v,
                _ => self.bit_val(x)?,
            };
            let want = if i < w {
                let f = f.get_or_insert_with(|| self.af(a));
                self.bit_val_in(Bit::S(a, i as u8, false), f)?
            } else {
                false
            };
            d += (have as i128 - want as i128) << i;
        }
        Some((a, d))
    }

    /// Like `whole`, also when the missing bits are known.
    fn whole_z(&self, b: &[Bit]) -> Option<Aid> {
        match self.slice_of(b) {
            Some((a, 0, _)) => Some(a),
            _ => None,
        }
    }

    pub fn value(&self, s: &Sc) -> Option<u128> {
        match &s.k {
            K::C(v) => Some(*v),
            _ => {
                let (lo, hi) = self.range(s);
                if lo == hi {
                    return Some(lo);
                }
                None
            }
        }
    }

    pub fn to_bits(&self, s: &Sc) -> Vec<Bit> {
        match &s.k {
            K::C(v) => (0..s.w).map(|i| Bit::C(v >> i & 1 == 1)).collect(),
            K::B(b) => b.to_vec(),
            K::A(a) => {
                if a.t.len() == 1 && a.t[0].1 == 1 && a.k > 0 {
                    // an aligned value plus a small tag
                    let x = a.t[0].0;
                    if let Def::Addr(_) = &info(x).def {
                        if a.k as u128 & !self.af(x).kz == 0 {
                            return (0..s.w)
                                .map(|i| if a.k >> i & 1 == 1 { Bit::C(true) } else { Bit::S(x, i, false) })
                                .collect();
                        }
                        let low = self.af(x).kz.trailing_ones().min(s.w as u32) as u8;
                        if low > 0 && low < s.w {
                            let mut hi = (**a).clone();
                            hi.k &= !((1i128 << low) - 1);
                            let id = atom(s.w, Def::Aff(Rc::new(hi)));
                            return (0..s.w)
                                .map(|i| if i < low { Bit::C(a.k >> i & 1 == 1) } else { Bit::S(id, i, false) })
                                .collect();
                        }
                    }
                }
                if let Some(b) = disjoint(s.w, a, None).or_else(|| disjoint(s.w, a, Some(self))) {
                    return b;
                }
                let id = if a.k == 0 && a.t.len() == 1 && a.t[0].1 == 1 {
                    a.t[0].0
                } else {
                    atom(s.w, Def::Aff(a.clone()))
                };
                let inf = info(id);
                let mut v: Vec<Bit> = match &inf.def {
                    Def::Bits(b) => b.to_vec(),
                    _ => (0..inf.w).map(|i| Bit::S(id, i, false)).collect(),
                };
                v.resize(s.w as usize, Bit::C(false));
                v
            }
        }
    }

    /// Bits with everything known replaced by constants.
    pub fn nbits(&self, s: &Sc) -> Vec<Bit> {
        let (lo, hi) = self.range(s);
        let d = lo ^ hi;
        let keep = if d == 0 { u128::MAX } else { !mask((128 - d.leading_zeros()) as u8) };
        self.to_bits(s)
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                if keep >> i & 1 == 1 {
                    Bit::C(lo >> i & 1 == 1)
                } else {
                    match self.bit_val(b) {
                        Some(v) => Bit::C(v),
                        None => b,
                    }
                }
            })
            .collect()
    }

    pub fn to_aff(&self, s: &Sc) -> Aff {
        match &s.k {
            K::C(v) => {
                if *v > i128::MAX as u128 {
                    Aff::c(*v as i128)
                } else {
                    Aff::c(*v as i128)
                }
            }
            K::A(a) => {
                if a.t.len() == 1 && a.t[0].1 == 1 {
                    if let Def::Aff(inner) = &info(a.t[0].0).def {
                        if info(a.t[0].0).w == s.w {
                            return inner.plus(a.k);
                        }
                    }
                }
                (**a).clone()
            }
            K::B(b) => {
                if let Some(v) = self.value(s) {
                    return Aff::c(v as i128);
                }
                if let Some((a, d)) = self.offset_of(b) {
                    if let Def::Aff(inner) = &info(a).def {
                        if info(a).w >= s.w || self.nowrap(inner, info(a).w) {
                            return inner.plus(d);
                        }
                    }
                    return Aff { k: d, t: vec![(a, 1)] };
                }
                let id = atom(s.w, Def::Bits(b.clone()));
                Aff { k: 0, t: vec![(id, 1)] }
            }
        }
    }

    // ---- refinement ----

    fn put(&mut self, a: Aid, f: AF) {
        self.at.insert(a, f);
        self.touch();
    }

    /// To be called after every change.
    pub fn touch(&mut self) {
        self.ver = VER.with(|v| {
            v.set(v.get() + 1);
            v.get()
        });
    }

    pub fn set_range(&mut self, a: Aid, lo: u128, hi: u128) -> bool {
        let mut f = self.af(a);
        if lo <= f.lo && hi >= f.hi {
            return lo <= hi;
        }
        f.lo = f.lo.max(lo);
        f.hi = f.hi.min(hi);
        let inf = info(a);
        if !f.norm(inf.w) {
            return false;
        }
        self.put(a, f);
        match &inf.def {
            Def::Bits(b) => {
                for (i, x) in b.iter().enumerate() {
                    let m = 1u128 << i;
                    if f.ko & m != 0 {
                        if !self.assume_bit(*x, true) {
                            return false;
                        }
                    } else if f.kz & m != 0 && !self.assume_bit(*x, false) {
                        return false;
                    }
                }
                if !self.bound_top_run(b, f.lo, f.hi) {
                    return false;
                }
            }
            Def::Aff(aff) => {
                if self.nowrap(aff, inf.w) {
                    if f.hi <= i128::MAX as u128 {
                        let g = aff.scale(-1).unwrap().plus(f.hi as i128);
                        if !self.assume_ge0(&g) {
                            return false;
                        }
                        let g = aff.plus(-(f.lo as i128));
                        if !self.assume_ge0(&g) {
                            return false;
                        }
                    }
                }
            }
            _ => (),
        }
        true
    }

    /// The most significant bits come from one octet: the interval bounds that octet.
    fn bound_top_run(&mut self, b: &[Bit], lo: u128, hi: u128) -> bool {
        let mut q = b.len();
        while q > 0 && self.bit_val(b[q - 1]) == Some(false) {
            q -= 1;
        }
        if q == 0 {
            return true;
        }
        let (a, j) = match b[q - 1] {
            Bit::S(a, j, false) if info(a).w <= 8 => (a, j as usize),
            _ => return true,
        };
        let mut p = q - 1;
        let mut i = j;
        while p > 0 && i > 0 && b[p - 1] == Bit::S(a, (i - 1) as u8, false) {
            p -= 1;
            i -= 1;
        }
        let mut f = self.af(a);
        let w = info(a).w;
        let mut s = f.set.unwrap_or_else(|| full_set(w));
        let m = mask((q - p) as u8);
        let mut changed = false;
        for v in 0..1u32 << w {
            if in_set(&s, v) {
                let r = v as u128 >> i & m;
                if r < lo >> p || r > hi >> p {
                    s[(v / 64) as usize] &= !(1 << (v % 64));
                    changed = true;
                }
            }
        }
        if changed {
            f.set = Some(s);
            if !f.norm(w) {
                return false;
            }
            self.put(a, f);
        }
        true
    }

    pub fn assume_bit(&mut self, b: Bit, v: bool) -> bool {
        match b {
            Bit::C(x) => x == v,
            Bit::S(a, i, n) => {
                let v = v ^ n;
                let inf = info(a);
                if let Def::Bits(bs) = &inf.def {
                    return self.assume_bit(bs[i as usize], v);
                }
                let mut f = self.af(a);
                let m = 1u128 << i;
                if f.ko & m != 0 {
                    return v;
                }
                if f.kz & m != 0 {
                    return !v;
                }
                if v {
                    f.ko |= m
                } else {
                    f.kz |= m
                }
                if !f.norm(inf.w) {
                    return false;
                }
                self.put(a, f);
                match &inf.def {
                    Def::Cmp(op, x, y) => {
                        if !self.refine(*op, x, y, v) {
                            return false;
                        }
                    }
                    Def::BitOp(op, x, y) => {
                        let ok = match (op, v) {
                            (0, true) => self.assume_bit(*x, true) && self.assume_bit(*y, true),
                            (1, false) => self.assume_bit(*x, false) && self.assume_bit(*y, false),
                            _ => {
                                match (self.bit_val(*x), self.bit_val(*y)) {
                                    (Some(p), None) => match op {
                                        0 if p => self.assume_bit(*y, v),
                                        1 if !p => self.assume_bit(*y, v),
                                        2 => self.assume_bit(*y, v ^ p),
                                        _ => true,
                                    },
                                    (None, Some(p)) => match op {
                                        0 if p => self.assume_bit(*x, v),
                                        1 if !p => self.assume_bit(*x, v),
                                        2 => self.assume_bit(*x, v ^ p),
                                        _ => true,
                                    },
                                    _ => true,
                                }
                            }
                        };
                        if !ok {
                            return false;
                        }
                    }
                    Def::Aff(_) => {
                        let f = self.af(a);
                        if !self.set_range_force(a, f) {
                            return false;
                        }
                    }
                    _ => (),
                }
                (self.lin.is_empty() || self.propagate()) && self.check()
            }
        }
    }

    /// Restrict one atom to what `x` says about it.
    pub fn constrain(&mut self, a: Aid, x: &AF) -> bool {
        let inf = info(a);
        match &inf.def {
            Def::Cmp(..) | Def::BitOp(..) | Def::Bits(_) => {
                for i in 0..inf.w {
                    let m = 1u128 << i;
                    if x.ko & m != 0 && !self.assume_bit(Bit::S(a, i, false), true) {
                        return false;
                    }
                    if x.kz & m != 0 && !self.assume_bit(Bit::S(a, i, false), false) {
                        return false;
                    }
                }
                self.set_range(a, x.lo, x.hi)
            }
            _ => {
                let mut f = self.af(a);
                f.lo = f.lo.max(x.lo);
                f.hi = f.hi.min(x.hi);
                f.kz |= x.kz;
                f.ko |= x.ko;
                f.set = match (f.set, x.set) {
                    (Some(p), Some(q)) => Some([p[0] & q[0], p[1] & q[1], p[2] & q[2], p[3] & q[3]]),
                    (p, q) => p.or(q),
                };
                if f.lo > f.hi || f.kz & f.ko != 0 || !f.norm(inf.w) {
                    return false;
                }
                self.put(a, f);
                self.set_range_force(a, f) && self.propagate() && self.check()
            }
        }
    }

    fn set_range_force(&mut self, a: Aid, f: AF) -> bool {
        let inf = info(a);
        if let Def::Aff(aff) = &inf.def {
            if self.nowrap(aff, inf.w) && f.hi <= i128::MAX as u128 {
                let g = aff.scale(-1).unwrap().plus(f.hi as i128);
                let h = aff.plus(-(f.lo as i128));
                return self.assume_ge0(&g) && self.assume_ge0(&h);
            }
        }
        true
    }

    /// Whether these bits cannot have the value `c`.
    pub fn refutes_eq(&self, b: &[Bit], c: u128) -> bool {
        let s = Sc::bits(b.to_vec());
        self.decide(Cmp::Eq, &s, &Sc::c(b.len() as u8, c)) == Some(false)
    }

    /// Re-examine disequality and linear facts; false if one of them is refuted.
    fn check(&mut self) -> bool {
        for (k, v) in &self.at {
            if v.hi == 0 {
                if let Def::Cmp(Cmp::Eq, p, q) = &info(*k).def {
                    if !matches!(q.k, K::C(_)) {
                        let (a, b) = (self.range(p), self.range(q));
                        if a.0 == a.1 && a == b {
                            return false;
                        }
                    }
                }
            }
        }
        let ne = self.ne.clone();
        for (b, c) in ne.iter() {
            let mut unk = None;
            let mut n = 0;
            let mut differs = false;
            for (i, x) in b.iter().enumerate() {
                match self.bit_val(*x) {
                    Some(v) => {
                        if v != (c >> i & 1 == 1) {
                            differs = true;
                            break;
                        }
                    }
                    None => {
                        n += 1;
                        unk = Some((i, *x));
                    }
                }
            }
            if differs {
                continue;
            }
            if n == 0 {
                return false;
            }
            if n == 1 {
                let (i, x) = unk.unwrap();
                if !self.assume_bit(x, !(c >> i & 1 == 1)) {
                    return false;
                }
            }
        }
        true
    }

    fn propagate(&mut self) -> bool {
        for _ in 0..4 {
            let mut changed = false;
            let lin = self.lin.clone();
            for g in lin.iter() {
                // upper bound must be >= 0
                for (a, c) in &g.t {
                    let mut rest = g.k;
                    let mut ok = true;
                    for (b, d) in &g.t {
                        if a == b {
                            continue;
                        }
                        match self.arange(*b) {
                            Some((lo, hi)) => {
                                match d.checked_mul(if *d > 0 { hi } else { lo }).and_then(|x| rest.checked_add(x)) {
                                    Some(x) => rest = x,
                                    None => ok = false,
                                }
                            }
                            None => ok = false,
                        }
                    }
                    if !ok {
                        continue;
                    }
                    // c*a + rest >= 0
                    let f = self.af(*a);
                    if *c > 0 {
                        if rest < 0 {
                            let lo = ((-rest) + c - 1) / c;
                            if lo as u128 > f.lo {
                                if !self.set_range(*a, lo as u128, u128::MAX) {
                                    return false;
                                }
                                changed = true;
                            }
                        }
                    } else {
                        if rest < 0 {
                            return false;
                        }
                        let hi = rest / (-c);
                        if (hi as u128) < f.hi {
                            if !self.set_range(*a, 0, hi as u128) {
                                return false;
                            }
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        true
    }

    pub fn assume_ge0(&mut self, a: &Aff) -> bool {
        if let Some(k) = a.cst() {
            return k >= 0;
        }
        if self.base_lower(a).map_or(false, |x| x >= 0) {
            return true;
        }
        if self.upper(a).map_or(false, |x| x < 0) {
            return false;
        }
        // refuted by an existing fact: a + g < 0 for some g >= 0
        if let Some(n) = a.scale(-1).map(|x| x.plus(-1)) {
            if self.prove_ge0(&n) {
                return false;
            }
        }
        if !self.lin.iter().any(|g| **g == *a) {
            self.lin.push(Rc::new(a.clone()));
            self.touch();
            if !self.propagate() {
                return false;
            }
        }
        true
    }

    // ---- comparisons ----

    fn support(&self, bs: &[&[Bit]]) -> Option<Vec<Aid>> {
        let mut v: Vec<Aid> = vec![];
        for b in bs {
            for x in b.iter() {
                if let Bit::S(a, _, _) = x {
                    if self.bit_val(*x).is_some() {
                        continue;
                    }
                    if !v.contains(a) {
                        if info(*a).w > 8 || self.af(*a).set.is_none() {
                            return None;
                        }
                        v.push(*a);
                        if v.len() > 2 {
                            return None;
                        }
                    }
                }
            }
        }
        Some(v)
    }

    fn eval(&self, b: &[Bit], asg: &[(Aid, u32)]) -> u128 {
        let mut v = 0u128;
        for (i, x) in b.iter().enumerate() {
            let y = match x {
                Bit::C(c) => *c,
                Bit::S(a, k, n) => match asg.iter().find(|z| z.0 == *a) {
                    Some((_, val)) => (val >> k & 1 == 1) ^ n,
                    None => self.bit_val(*x).unwrap(),
                },
            };
            if y {
                v |= 1 << i;
            }
        }
        v
    }

    /// All assignments of the (at most two) octets supporting a comparison.
    fn each(&self, sup: &[Aid], mut f: impl FnMut(&[(Aid, u32)])) {
        if sup.is_empty() {
            f(&[]);
            return;
        }
        let s0 = self.af(sup[0]).set.unwrap();
        let w0 = info(sup[0]).w;
        for v in 0..(1u32 << w0) {
            if !in_set(&s0, v) {
                continue;
            }
            if sup.len() == 1 {
                f(&[(sup[0], v)]);
            } else {
                let s1 = self.af(sup[1]).set.unwrap();
                for u in 0..(1u32 << info(sup[1]).w) {
                    if in_set(&s1, u) {
                        f(&[(sup[0], v), (sup[1], u)]);
                    }
                }
            }
        }
    }

    pub fn decide(&self, op: Cmp, a: &Sc, b: &Sc) -> Option<bool> {
        if a == b {
            return Some(op == Cmp::Eq);
        }
        if let (K::C(x), K::C(y)) = (&a.k, &b.k) {
            return Some(match op {
                Cmp::Eq => x == y,
                Cmp::Ltu => x < y,
            });
        }
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        match op {
            Cmp::Eq => {
                if ah < bl || bh < al {
                    return Some(false);
                }
                if al == ah && bl == bh && al == bl {
                    return Some(true);
                }
            }
            Cmp::Ltu => {
                if ah < bl {
                    return Some(true);
                }
                if al >= bh {
                    return Some(false);
                }
            }
        }
        let x = self.nbits(a);
        let y = self.nbits(b);
        if x == y {
            return Some(op == Cmp::Eq);
        }
        if op == Cmp::Eq {
            for (p, q) in x.iter().zip(y.iter()) {
                match (p, q) {
                    (Bit::C(u), Bit::C(v)) if u != v => return Some(false),
                    (Bit::S(i, j, n), Bit::S(k, l, m)) if i == k && j == l && n != m => return Some(false),
                    _ => (),
                }
            }
            for (nb, c) in &self.ne {
                if let K::C(v) = &b.k {
                    if *v == *c && nb[..] == self.to_bits(a)[..] {
                        return Some(false);
                    }
                }
            }
        }
        // known to differ, in another form
        if op == Cmp::Eq && !matches!(a.k, K::C(_)) && !matches!(b.k, K::C(_)) {
            for (k, v) in &self.at {
                if v.kz & 1 == 1 && v.hi == 0 {
                    if let Def::Cmp(Cmp::Eq, p, q) = &info(*k).def {
                        if p.w == a.w && !matches!(q.k, K::C(_)) {
                            let (p, q) = (self.nbits(p), self.nbits(q));
                            if (p == x && q == y) || (p == y && q == x) {
                                return Some(false);
                            }
                        }
                    }
                }
            }
        }
        // linear forms
        let (fa, fb) = (self.to_aff(a), self.to_aff(b));
        if let Some(d) = fa.add(&fb, -1) {
            match op {
                Cmp::Eq => {
                    if let Some(k) = d.cst() {
                        return Some(k as u128 & mask(a.w) == 0);
                    }
                    if self.nowrap(&fa, a.w) && self.nowrap(&fb, b.w) {
                        if self.prove_ge0(&d.plus(-1)) {
                            return Some(false);
                        }
                        if let Some(n) = d.scale(-1) {
                            if self.prove_ge0(&n.plus(-1)) {
                                return Some(false);
                            }
                            if self.prove_ge0(&n) && self.prove_ge0(&d) {
                                return Some(true);
                            }
                        }
                    }
                }
                Cmp::Ltu => {
                    if self.nowrap(&fa, a.w) && self.nowrap(&fb, b.w) {
                        if self.prove_ge0(&d) {
                            return Some(false);
                        }
                        if let Some(n) = d.scale(-1) {
                            if self.prove_ge0(&n.plus(-1)) {
                                return Some(true);
                            }
                        }
                    }
                }
            }
        }
        if let Some(sup) = self.support(&[&x, &y]) {
            if !sup.is_empty() {
                let (mut t, mut f) = (false, false);
                self.each(&sup, |asg| {
                    let (p, q) = (self.eval(&x, asg), self.eval(&y, asg));
                    let r = match op {
                        Cmp::Eq => p == q,
                        Cmp::Ltu => p < q,
                    };
                    if r {
                        t = true
                    } else {
                        f = true
                    }
                });
                if t != f {
                    return Some(t);
                }
            }
        }
        None
    }

    fn refine(&mut self, op: Cmp, a: &Sc, b: &Sc, v: bool) -> bool {
        match self.decide(op, a, b) {
            Some(x) => return x == v,
            None => (),
        }
        let x = self.nbits(a);
        let y = self.nbits(b);
        // value sets
        if let Some(sup) = self.support(&[&x, &y]) {
            if !sup.is_empty() {
                let mut keep = vec![[0u64; 4]; sup.len()];
                self.each(&sup, |asg| {
                    let (p, q) = (self.eval(&x, asg), self.eval(&y, asg));
                    let r = match op {
                        Cmp::Eq => p == q,
                        Cmp::Ltu => p < q,
                    };
                    if r == v {
                        for (i, (_, u)) in asg.iter().enumerate() {
                            keep[i][(u / 64) as usize] |= 1 << (u % 64);
                        }
                    }
                });
                for (i, id) in sup.iter().enumerate() {
                    let mut f = self.af(*id);
                    let old = f;
                    f.set = Some(keep[i]);
                    if !f.norm(info(*id).w) {
                        return false;
                    }
                    if f != old {
                        self.put(*id, f);
                    }
                }
            }
        }
        match (op, v) {
            (Cmp::Eq, true) => {
                for (p, q) in x.iter().zip(y.iter()) {
                    let ok = match (p, q) {
                        (Bit::C(u), z) | (z, Bit::C(u)) => self.assume_bit(*z, *u),
                        _ => true,
                    };
                    if !ok {
                        return false;
                    }
                }
                if let (K::C(c), _) | (_, K::C(c)) = (&a.k, &b.k) {
                    let s = if matches!(a.k, K::C(_)) { b } else { a };
                    if let K::A(f) = &s.k {
                        if f.t.len() == 1 && f.t[0].1 == 1 && f.k == 0 {
                            if !self.set_range(f.t[0].0, *c, *c) {
                                return false;
                            }
                        }
                    }
                }
                let (fa, fb) = (self.to_aff(a), self.to_aff(b));
                if self.nowrap(&fa, a.w) && self.nowrap(&fb, b.w) {
                    if let Some(d) = fa.add(&fb, -1) {
                        if !self.assume_ge0(&d) {
                            return false;
                        }
                        if let Some(n) = d.scale(-1) {
                            if !self.assume_ge0(&n) {
                                return false;
                            }
                        }
                    }
                }
            }
            (Cmp::Eq, false) => {
                if let K::C(c) = &b.k {
                    let raw: Rc<[Bit]> = self.to_bits(a).into();
                    self.ne.push((raw, *c));
                    self.touch();
                    let (lo, hi) = self.range(a);
                    let fa = self.to_aff(a);
                    if self.nowrap(&fa, a.w) && *c <= i128::MAX as u128 {
                        if lo == *c {
                            if !self.assume_ge0(&fa.plus(-(*c as i128) - 1)) {
                                return false;
                            }
                        } else if hi == *c {
                            if !self.assume_ge0(&fa.scale(-1).unwrap().plus(*c as i128 - 1)) {
                                return false;
                            }
                        }
                    }
                } else {
                    let (fa, fb) = (self.to_aff(a), self.to_aff(b));
                    if self.nowrap(&fa, a.w) && self.nowrap(&fb, b.w) {
                        if let Some(d) = fa.add(&fb, -1) {
                            let n = d.scale(-1).unwrap();
                            if self.prove_ge0(&d) {
                                if !self.assume_ge0(&d.plus(-1)) {
                                    return false;
                                }
                            } else if self.prove_ge0(&n) && !self.assume_ge0(&n.plus(-1)) {
                                return false;
                            }
                        }
                    }
                }
            }
            (Cmp::Ltu, _) => {
                let (fa, fb) = (self.to_aff(a), self.to_aff(b));
                if self.nowrap(&fa, a.w) && self.nowrap(&fb, b.w) {
                    if let Some(d) = fb.add(&fa, -1) {
                        // v: b - a - 1 >= 0 ; !v: a - b >= 0
                        let g = if v {
                            d.plus(-1)
                        } else if self.decide(Cmp::Eq, a, b) == Some(false) {
                            d.scale(-1).unwrap().plus(-1)
                        } else {
                            d.scale(-1).unwrap()
                        };
                        if !self.assume_ge0(&g) {
                            return false;
                        }
                    }
                } else {
                    // bound by intervals
                    let (al, ah) = self.range(a);
                    let (bl, bh) = self.range(b);
                    if v {
                        if !self.bound(a, 0, bh.saturating_sub(1)) || !self.bound(b, al.saturating_add(1), u128::MAX) {
                            return false;
                        }
                    } else if !self.bound(a, bl, u128::MAX) || !self.bound(b, 0, ah) {
                        return false;
                    }
                }
            }
        }
        self.check()
    }

    /// Intersect the value with an interval where the representation allows it.
    pub fn bound(&mut self, s: &Sc, lo: u128, hi: u128) -> bool {
        match &s.k {
            K::C(v) => *v >= lo && *v <= hi,
            K::B(b) => {
                let id = atom(s.w, Def::Bits(b.clone()));
                self.set_range(id, lo, hi)
            }
            K::A(a) => {
                if a.t.len() == 1 && a.t[0].1 == 1 && a.k == 0 {
                    return self.set_range(a.t[0].0, lo, hi);
                }
                let id = atom(s.w, Def::Aff(a.clone()));
                self.set_range(id, lo, hi)
            }
        }
    }

    pub fn assume(&mut self, b: Bit, v: bool) -> bool {
        if let Some(x) = self.bit_val(b) {
            if x != v {
                return false;
            }
            return true;
        }
        self.assume_bit(b, v)
    }

    pub fn assume_eq(&mut self, s: &Sc, v: u128) -> bool {
        let b = self.cmp(Cmp::Eq, s, &Sc::c(s.w, v));
        self.assume(b, true)
    }

    pub fn cmp(&self, op: Cmp, a: &Sc, b: &Sc) -> Bit {
        debug_assert_eq!(a.w, b.w);
        if let Some(v) = self.decide(op, a, b) {
            return Bit::C(v);
        }
        if op == Cmp::Eq {
            // put a constant second
            if matches!(a.k, K::C(_)) && !matches!(b.k, K::C(_)) {
                return self.cmp(op, b, a);
            }
            if first_atom(a) > first_atom(b) && !matches!(b.k, K::C(_)) {
                return self.cmp(op, b, a);
            }
            if let K::C(c) = &b.k {
                let x = self.nbits(a);
                let mut one = None;
                let mut n = 0;
                for (i, p) in x.iter().enumerate() {
                    if let Bit::S(..) = p {
                        n += 1;
                        one = Some(if c >> i & 1 == 1 { *p } else { p.neg() });
                    }
                }
                if n == 1 {
                    return one.unwrap();
                }
            }
        }
        if op == Cmp::Ltu {
            // x < 1  <=>  x == 0 ; 0 < x <=> x != 0
            if let K::C(1) = &b.k {
                return self.cmp(Cmp::Eq, a, &Sc::c(a.w, 0));
            }
            if let K::C(0) = &a.k {
                return self.cmp(Cmp::Eq, b, &Sc::c(a.w, 0)).neg();
            }
        }
        Bit::S(atom(1, Def::Cmp(op, a.clone(), b.clone())), 0, false)
    }

    pub fn lts(&self, a: &Sc, b: &Sc) -> R<Bit> {
        let w = a.w as usize;
        if let K::C(0) = &b.k {
            return Ok(self.sign(a));
        }
        let (sa, sb) = (self.sign(a), self.sign(b));
        let va = match self.bit_val(sa) {
            Some(v) => v,
            None => return Err(Ex::Fork(sa)),
        };
        let vb = match self.bit_val(sb) {
            Some(v) => v,
            None => return Err(Ex::Fork(sb)),
        };
        let _ = w;
        if va != vb {
            return Ok(Bit::C(va));
        }
        Ok(self.cmp(Cmp::Ltu, a, b))
    }

    pub fn sign(&self, a: &Sc) -> Bit {
        let (lo, hi) = self.range(a);
        let m = 1u128 << (a.w - 1);
        if lo & m != 0 {
            return Bit::C(true);
        }
        if hi & m == 0 {
            return Bit::C(false);
        }
        let b = self.to_bits(a)[a.w as usize - 1];
        match self.bit_val(b) {
            Some(v) => Bit::C(v),
            None => b,
        }
    }

    // ---- arithmetic ----

    pub fn add(&self, a: &Sc, b: &Sc) -> Sc {
        let w = a.w;
        match (&a.k, &b.k) {
            (K::C(x), K::C(y)) => return Sc::c(w, x.wrapping_add(*y)),
            (K::C(0), _) => return b.clone(),
            (_, K::C(0)) => return a.clone(),
            _ => (),
        }
        if matches!(a.k, K::B(_)) || matches!(b.k, K::B(_)) {
            let (x, y) = (self.nbits(a), self.nbits(b));
            if x.iter().zip(y.iter()).all(|(p, q)| *p == Bit::C(false) || *q == Bit::C(false)) {
                let (x, y) = (self.to_bits(a), self.to_bits(b));
                return Sc::bits(
                    x.iter()
                        .zip(y.iter())
                        .map(|(p, q)| match (p, q) {
                            (_, Bit::C(false)) => *p,
                            (Bit::C(false), _) => *q,
                            _ if self.bit_val(*p) == Some(false) => *q,
                            _ => *p,
                        })
                        .collect(),
                );
            }
        }
        match self.to_aff(a).add(&self.to_aff(b), 1) {
            Some(f) => self.mk(w, f),
            None => Sc::of_atom(w, atom(w, Def::Op("add", vec![a.clone(), b.clone()]))),
        }
    }

    pub fn mk(&self, w: u8, mut f: Aff) -> Sc {
        if f.t.is_empty() {
            return Sc::c(w, f.k as u128);
        }
        if w < 127 {
            // keep the constant small
            let md = 1i128 << w;
            f.k %= md;
            if f.k >= md / 2 && !f.t.iter().all(|x| x.1 > 0) {
                f.k -= md
            }
            if f.k >= md / 2 && self.exact(&f).map_or(true, |(_, hi)| hi >= md) {
                f.k -= md
            }
            if f.k < -md / 2 {
                f.k += md
            }
        }
        if f.t.len() > 1 || f.t[0].1 != 1 {
            if let Some(b) = disjoint(w, &f, None) {
                return Sc::bits(b);
            }
        }
        Sc::aff(w, f)
    }

    pub fn sub(&self, a: &Sc, b: &Sc) -> Sc {
        let w = a.w;
        if let (K::C(x), K::C(y)) = (&a.k, &b.k) {
            return Sc::c(w, x.wrapping_sub(*y));
        }
        if a == b {
            return Sc::c(w, 0);
        }
        if let K::C(0) = &b.k {
            return a.clone();
        }
        match self.to_aff(a).add(&self.to_aff(b), -1) {
            Some(f) => self.mk(w, f),
            None => Sc::of_atom(w, atom(w, Def::Op("sub", vec![a.clone(), b.clone()]))),
        }
    }

    pub fn mul(&self, a: &Sc, b: &Sc) -> Sc {
        let w = a.w;
        if let (K::C(x), K::C(y)) = (&a.k, &b.k) {
            return Sc::c(w, x.wrapping_mul(*y));
        }
        let (a, b) = if matches!(a.k, K::C(_)) { (b, a) } else { (a, b) };
        if let Some(c) = self.value(b) {
            if c == 0 {
                return Sc::c(w, 0);
            }
            if c == 1 {
                return a.clone();
            }
            if let K::B(_) = &a.k {
                if c.is_power_of_two() {
                    return self.shl(a, c.trailing_zeros() as u8);
                }
            }
            if c <= i64::MAX as u128 {
                if let Some(f) = self.to_aff(a).scale(c as i128) {
                    return self.mk(w, f);
                }
            }
        }
        if let Some(c) = self.value(a) {
            return self.mul(b, &Sc::c(w, c));
        }
        Sc::of_atom(w, atom(w, Def::Op("mul", vec![a.clone(), b.clone()])))
    }

    pub fn shl(&self, a: &Sc, n: u8) -> Sc {
        if let K::C(v) = &a.k {
            return Sc::c(a.w, if n >= 128 { 0 } else { v << n });
        }
        let x = self.to_bits(a);
        let w = a.w as usize;
        Sc::bits((0..w).map(|i| if i < n as usize { Bit::C(false) } else { x[i - n as usize] }).collect())
    }

    pub fn shr(&self, a: &Sc, n: u8, signed: bool) -> Sc {
        if n == 0 {
            return a.clone();
        }
        let x = self.nbits_keep(a);
        let w = a.w as usize;
        let top = if signed { x[w - 1] } else { Bit::C(false) };
        Sc::bits((0..w).map(|i| if i + (n as usize) < w { x[i + n as usize] } else { top }).collect())
    }

    /// Raw bits, with bits constant because of the interval filled in.
    fn nbits_keep(&self, a: &Sc) -> Vec<Bit> {
        match &a.k {
            K::A(f) if !(f.k == 0 && f.t.len() == 1) => {
                let n = self.nbits(a);
                let r = self.to_bits(a);
                r.iter().zip(n.iter()).map(|(p, q)| if let Bit::C(_) = q { *q } else { *p }).collect()
            }
            _ => self.to_bits(a),
        }
    }

    pub fn bitop(&self, op: u8, a: &Sc, b: &Sc) -> Sc {
        if let (K::C(x), K::C(y)) = (&a.k, &b.k) {
            return Sc::c(
                a.w,
                match op {
                    0 => x & y,
                    1 => x | y,
                    _ => x ^ y,
                },
            );
        }
        if op == 0 {
            // a mask that keeps everything which may be set
            for (p, q) in [(a, b), (b, a)] {
                if let K::C(m) = &q.k {
                    let n = self.nbits(p);
                    if n.iter().enumerate().all(|(i, x)| m >> i & 1 == 1 || *x == Bit::C(false)) {
                        return p.clone();
                    }
                }
            }
        }
        if op != 0 {
            if let K::C(0) = &b.k {
                return a.clone();
            }
            if let K::C(0) = &a.k {
                return b.clone();
            }
        }
        let (x, y) = (self.to_bits(a), self.to_bits(b));
        Sc::bits(x.iter().zip(y.iter()).map(|(p, q)| self.bit1(op, *p, *q)).collect())
    }

    pub fn bit1(&self, op: u8, p: Bit, q: Bit) -> Bit {
        let (vp, vq) = (self.bit_val(p), self.bit_val(q));
        match (op, vp, vq) {
            (0, Some(false), _) | (0, _, Some(false)) => return Bit::C(false),
            (0, Some(true), _) | (1, Some(false), _) | (2, Some(false), _) => return q,
            (0, _, Some(true)) | (1, _, Some(false)) | (2, _, Some(false)) => return p,
            (1, Some(true), _) | (1, _, Some(true)) => return Bit::C(true),
            (2, Some(true), _) => return q.neg(),
            (2, _, Some(true)) => return p.neg(),
            _ => (),
        }
        if p == q {
            return if op == 2 { Bit::C(false) } else { p };
        }
        if p == q.neg() {
            return Bit::C(op != 0);
        }
        let (p, q) = if p <= q { (p, q) } else { (q, p) };
        Bit::S(atom(1, Def::BitOp(op, p, q)), 0, false)
    }

    pub fn not(&self, a: &Sc) -> Sc {
        match &a.k {
            K::C(v) => Sc::c(a.w, !v),
            K::A(f) if !(f.k == 0 && f.t.len() == 1) => match f.scale(-1) {
                Some(n) => self.mk(a.w, n.plus(-1)),
                None => Sc::bits(self.to_bits(a).iter().map(|b| b.neg()).collect()),
            },
            _ => Sc::bits(self.to_bits(a).iter().map(|b| b.neg()).collect()),
        }
    }

    pub fn trunc(&self, a: &Sc, w: u8) -> Sc {
        if a.w == w {
            return a.clone();
        }
        match &a.k {
            K::C(v) => Sc::c(w, *v),
            K::A(f) => {
                let (_, hi) = self.range(a);
                if hi <= mask(w) && self.nowrap(f, a.w) && f.t.iter().all(|x| info(x.0).w <= w || self.af(x.0).hi <= mask(w)) {
                    return Sc { w, k: K::A(f.clone()) };
                }
                Sc::bits(self.to_bits(a)[..w as usize].to_vec())
            }
            _ => Sc::bits(self.to_bits(a)[..w as usize].to_vec()),
        }
    }

    pub fn zext(&self, a: &Sc, w: u8) -> Sc {
        match &a.k {
            K::C(v) => Sc::c(w, *v),
            K::A(f) if self.nowrap(f, a.w) => Sc { w, k: K::A(f.clone()) },
            _ => {
                let mut b = self.to_bits(a);
                b.resize(w as usize, Bit::C(false));
                Sc::bits(b)
            }
        }
    }

    pub fn sext(&self, a: &Sc, w: u8) -> Sc {
        let s = self.sign(a);
        match s {
            Bit::C(false) => self.zext(a, w),
            _ => {
                let mut b = self.to_bits(a);
                b[a.w as usize - 1] = s;
                b.resize(w as usize, s);
                Sc::bits(b)
            }
        }
    }

    pub fn ctlz(&self, a: &Sc) -> R<u32> {
        let x = self.nbits(a);
        for (n, b) in x.iter().rev().enumerate() {
            match b {
                Bit::C(true) => return Ok(n as u32),
                Bit::C(false) => (),
                _ => return Err(Ex::Fork(*b)),
            }
        }
        Ok(a.w as u32)
    }

    pub fn cttz(&self, a: &Sc) -> R<u32> {
        let x = self.nbits(a);
        for (n, b) in x.iter().enumerate() {
            match b {
                Bit::C(true) => return Ok(n as u32),
                Bit::C(false) => (),
                _ => return Err(Ex::Fork(*b)),
            }
        }
        Ok(a.w as u32)
    }

    /// Unsigned add overflow.
    pub fn uadd_ovf(&self, a: &Sc, b: &Sc) -> Bit {
        if let (K::C(x), K::C(y)) = (&a.k, &b.k) {
            return Bit::C(x.checked_add(*y).map_or(true, |v| v > mask(a.w)));
        }
        let (_, ah) = self.range(a);
        let (_, bh) = self.range(b);
        if ah.checked_add(bh).map_or(false, |v| v <= mask(a.w)) {
            return Bit::C(false);
        }
        let (a, b) = if matches!(b.k, K::C(_)) { (a, b) } else { (b, a) };
        // MAX - b < a
        let lim = self.sub(&Sc::c(a.w, mask(a.w)), b);
        self.cmp(Cmp::Ltu, &lim, a)
    }

    pub fn umul_ovf(&self, a: &Sc, b: &Sc) -> Bit {
        let (al, ah) = self.range(a);
        let (bl, bh) = self.range(b);
        if ah.checked_mul(bh).map_or(false, |v| v <= mask(a.w)) {
            return Bit::C(false);
        }
        if al.checked_mul(bl).map_or(true, |v| v > mask(a.w)) {
            return Bit::C(true);
        }
        for (p, q) in [(a, b), (b, a)] {
            if let Some(c) = self.value(q) {
                if c != 0 {
                    return self.cmp(Cmp::Ltu, &Sc::c(a.w, mask(a.w) / c), p);
                }
            }
        }
        Bit::S(atom(1, Def::Op("umul_ovf", vec![a.clone(), b.clone()])), 0, false)
    }

    /// Every value an integer may take, if there are at most `n` of them.
    pub fn values(&self, s: &Sc, n: usize) -> Option<Vec<u128>> {
        let x = self.nbits(s);
        if let Some(sup) = self.support(&[&x]) {
            let mut v = std::collections::BTreeSet::new();
            self.each(&sup, |asg| {
                v.insert(self.eval(&x, asg));
            });
            if v.len() <= n {
                return Some(v.into_iter().collect());
            }
        }
        let (lo, hi) = self.range(s);
        if hi - lo < n as u128 {
            return Some((lo..=hi).collect());
        }
        None
    }
}
