//! Byte-level memory domain.

use crate::dom::*;
use rustc_public::mir::mono::Instance;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Base {
    Obj(u64),
    Fn(Instance),
    Vt(u32),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    I(Sc),
    P(Base, Sc),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum AB {
    Uninit,
    F(Rc<V>, u8),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Seg {
    B(Vec<AB>),
    /// `len` octets of the abstract input `id`, starting at `off`
    L { id: u32, off: Aff, len: Aff },
    U(Aff),
}

impl Seg {
    pub fn len(&self) -> Aff {
        match self {
            Seg::B(v) => Aff::c(v.len() as i128),
            Seg::L { len, .. } => len.clone(),
            Seg::U(l) => l.clone(),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obj {
    pub segs: Vec<Seg>,
    pub size: Aff,
    pub align: u64,
    pub heap: bool,
    pub ro: bool,
    pub name: Rc<str>,
}

pub fn sc64(a: &Aff) -> Sc {
    Sc::aff(64, a.clone())
}

pub fn byte_of(f: &Facts, b: &AB) -> R<Sc> {
    match b {
        AB::Uninit => Err(Ex::Ub("use of uninitialised memory".into())),
        AB::F(v, i) => {
            let s = int_of(f, v)?;
            if s.w == 8 {
                return Ok(s);
            }
            if let K::C(c) = &s.k {
                return Ok(Sc::c(8, c >> (8 * *i as u32)));
            }
            let bits = f.to_bits(&s);
            let lo = *i as usize * 8;
            let (l, h) = f.range(&s);
            // keep a small linear value when the octet is the whole value
            if *i == 0 && h <= 255 {
                let _ = l;
                return Ok(f.trunc(&s, 8));
            }
            Ok(Sc::bits(bits[lo..lo + 8].to_vec()))
        }
    }
}

pub fn int_of(f: &Facts, v: &V) -> R<Sc> {
    match v {
        V::I(s) => Ok(s.clone()),
        V::P(b, off) => {
            let key = match b {
                Base::Obj(o) => *o << 2,
                Base::Fn(_) => return Err(Ex::Unsup("function pointer as integer".into())),
                Base::Vt(i) => ((*i as u64) << 2) | 1,
            };
            Ok(f.add(&Sc::of_atom(64, atom(64, Def::Addr(key))), off))
        }
    }
}

pub fn frag(v: V, n: usize) -> Vec<AB> {
    let v = Rc::new(v);
    (0..n).map(|i| AB::F(v.clone(), i as u8)).collect()
}

thread_local! {
    static OCT: Vec<Rc<V>> = (0..256).map(|v| Rc::new(V::I(Sc::c(8, v)))).collect();
}

pub fn const_byte(v: u8) -> AB {
    AB::F(OCT.with(|o| o[v as usize].clone()), 0)
}

pub fn int_bytes(s: Sc) -> Vec<AB> {
    let n = (s.w as usize + 7) / 8;
    if let K::C(c) = &s.k {
        return (0..n).map(|i| const_byte((c >> (8 * i)) as u8)).collect();
    }
    frag(V::I(s), n)
}

/// Reassemble a value from its octets.
pub fn load(f: &Facts, b: &[AB]) -> R<V> {
    let n = b.len();
    if n == 0 {
        return Ok(V::I(Sc::c(8, 0)));
    }
    if n > 16 {
        return Err(Ex::Unsup(format!("scalar of {} octets", n)));
    }
    if let AB::F(v, 0) = &b[0] {
        let width = match &**v {
            V::I(s) => (s.w as usize + 7) / 8,
            V::P(..) => 8,
        };
        if width == n
            && b.iter().enumerate().all(|(i, x)| match x {
                AB::F(u, k) => *k as usize == i && (Rc::ptr_eq(u, v) || u == v),
                _ => false,
            })
        {
            return Ok((**v).clone());
        }
    }
    let mut bits = Vec::with_capacity(n * 8);
    let mut cv = Some(0u128);
    for (i, x) in b.iter().enumerate() {
        let s = byte_of(f, x)?;
        match (&s.k, cv) {
            (K::C(c), Some(v)) => cv = Some(v | c << (8 * i)),
            _ => cv = None,
        }
        bits.extend(f.to_bits(&s));
    }
    if let Some(c) = cv {
        return Ok(V::I(Sc::c((n * 8) as u8, c)));
    }
    Ok(V::I(Sc::bits(bits)))
}

/// Objects of locals and of constants have fixed identities.
pub const LOCAL: u64 = 1 << 58;
pub const CONST: u64 = 1 << 57;

pub fn is_const(id: u64) -> bool {
    id & CONST != 0
}

#[derive(Clone)]
pub struct Mem {
    pub objs: Rc<HashMap<u64, Rc<Obj>, Fx>>,
    pub next: u64,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { objs: Default::default(), next: 1 }
    }

    pub fn alloc(&mut self, f: &mut Facts, size: Aff, align: u64, heap: bool, name: &str) -> u64 {
        let id = self.next;
        self.next += 1;
        self.alloc_at(f, id, size, align, heap, name);
        id
    }

    pub fn alloc_at(&mut self, f: &mut Facts, id: u64, size: Aff, align: u64, heap: bool, name: &str) {
        let segs = match size.cst() {
            Some(n) if n <= 1 << 16 => vec![Seg::B(vec![AB::Uninit; n as usize])],
            _ => vec![Seg::U(size.clone())],
        };
        self.put(id, Obj { segs, size, align, heap, ro: false, name: name.into() });
        addr_facts(f, id << 2, align);
    }

    pub fn put(&mut self, id: u64, o: Obj) {
        Rc::make_mut(&mut self.objs).insert(id, Rc::new(o));
    }

    pub fn free(&mut self, id: u64) {
        Rc::make_mut(&mut self.objs).remove(&id);
    }

    pub fn get(&self, id: u64) -> R<&Rc<Obj>> {
        self.objs.get(&id).ok_or_else(|| Ex::Ub("access to a dead object (use after free or dangling pointer)".into()))
    }

    fn get_mut(&mut self, id: u64) -> R<&mut Obj> {
        match Rc::make_mut(&mut self.objs).get_mut(&id) {
            Some(o) => Ok(Rc::make_mut(o)),
            None => Err(Ex::Ub("access to a dead object (use after free or dangling pointer)".into())),
        }
    }

    /// Bounds obligation for `[off, off + len)`.
    pub fn bounds(&self, f: &Facts, id: u64, off: &Aff, len: &Aff) -> R<()> {
        let o = self.get(id)?;
        let end = off.add(len, 1).ok_or_else(|| Ex::Unsup("offset".into()))?;
        if let (Some(s), Some(a), Some(e)) = (o.size.cst(), off.cst(), end.cst()) {
            if a < 0 || e > s {
                return Err(Ex::Ub(format!("out-of-bounds access: octets {}..{} of an object of {} octets", a, e, s)));
            }
            return Ok(());
        }
        let room = o.size.add(&end, -1).ok_or_else(|| Ex::Unsup("offset".into()))?;
        if !f.prove_ge0(off) {
            if f.upper(off).map_or(false, |x| x < 0) {
                return Err(Ex::Ub("out-of-bounds access before the object".into()));
            }
            let b = f.sign(&sc64(off));
            match f.bit_val(b) {
                Some(true) => return Err(Ex::Ub("out-of-bounds access before the object".into())),
                Some(false) => (),
                None => return Err(Ex::Fork(b)),
            }
        }
        if !f.prove_ge0(&room) {
            if f.upper(&room).map_or(false, |x| x < 0) {
                return Err(Ex::Ub("out-of-bounds access past the object".into()));
            }
            let b = f.cmp(Cmp::Ltu, &sc64(&o.size), &sc64(&end));
            match f.bit_val(b) {
                Some(true) => return Err(Ex::Ub("out-of-bounds access past the object".into())),
                Some(false) => (),
                None => return Err(Ex::Fork(b)),
            }
        }
        Ok(())
    }

    /// `a` with the atoms whose value is known replaced by it.
    fn known(f: &Facts, a: &Aff) -> Aff {
        if a.t.is_empty() {
            return a.clone();
        }
        let mut r = Aff::c(a.k);
        for (x, c) in &a.t {
            let af = f.af(*x);
            if af.lo == af.hi {
                r.k += c * af.lo as i128;
            } else {
                r.t.push((*x, *c));
            }
        }
        if !r.t.is_empty() {
            if let (Some(lo), Some(hi)) = (f.lower(&r), f.upper(&r)) {
                if lo == hi {
                    return Aff::c(lo);
                }
            }
        }
        r
    }

    fn small_split(f: &Facts, d: &Aff) -> Ex {
        let s = sc64(d);
        match f.values(&s, 300) {
            Some(v) => Ex::Split(s, v),
            None => Ex::Unsup("symbolic offset into explicit octets".into()),
        }
    }

    /// Segment holding the octet at `off`, with the offset inside of it.
    fn locate(f: &Facts, o: &Obj, off: &Aff) -> R<(usize, Aff)> {
        let mut cum = Aff::c(0);
        for (i, s) in o.segs.iter().enumerate() {
            let l = s.len();
            let d = Mem::known(f, &off.add(&cum, -1).unwrap());
            let room = l.add(&d, -1).unwrap().plus(-1); // len - d - 1 >= 0 : inside
            if f.prove_ge0(&room) {
                if let (Seg::B(_), None) = (s, d.cst()) {
                    return Err(Mem::small_split(f, &d));
                }
                return Ok((i, d));
            }
            let past = d.add(&l, -1).unwrap();
            if !f.prove_ge0(&past) {
                let end = cum.add(&l, 1).unwrap();
                let b = f.cmp(Cmp::Ltu, &sc64(off), &sc64(&end));
                match f.bit_val(b) {
                    None => return Err(Ex::Fork(b)),
                    Some(true) => {
                        if let (Seg::B(_), None) = (s, d.cst()) {
                            return Err(Mem::small_split(f, &d));
                        }
                        return Ok((i, d));
                    }
                    Some(false) => (),
                }
            }
            cum = cum.add(&l, 1).unwrap();
        }
        Err(Ex::Unsup("locate".into()))
    }

    pub fn read(&self, f: &Facts, id: u64, off: &Aff, n: usize) -> R<Vec<AB>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = &Mem::known(f, off);
        self.bounds(f, id, off, &Aff::c(n as i128))?;
        let o = self.get(id)?;
        if let ([Seg::B(v)], Some(k)) = (&o.segs[..], off.cst()) {
            return Ok(v[k as usize..k as usize + n].to_vec());
        }
        let mut r = Vec::with_capacity(n);
        for k in 0..n {
            let (i, d) = Mem::locate(f, o, &off.plus(k as i128))?;
            match &o.segs[i] {
                Seg::B(v) => r.push(v[d.cst().unwrap() as usize].clone()),
                Seg::U(_) => r.push(AB::Uninit),
                Seg::L { id, off, .. } => {
                    let a = off.add(&d, 1).unwrap();
                    r.push(octet(f, *id, &a));
                }
            }
        }
        Ok(r)
    }

    pub fn write(&mut self, f: &Facts, id: u64, off: &Aff, b: Vec<AB>) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let off = &Mem::known(f, off);
        self.bounds(f, id, off, &Aff::c(b.len() as i128))?;
        if self.get(id)?.ro {
            return Err(Ex::Ub("write to read-only memory".into()));
        }
        let o = self.get_mut(id)?;
        if let ([Seg::B(v)], Some(k)) = (&mut o.segs[..], off.cst()) {
            let k = k as usize;
            for (i, x) in b.into_iter().enumerate() {
                v[k + i] = x;
            }
            return Ok(());
        }
        let n = b.len();
        self.write_segs(f, id, off, &Aff::c(n as i128), vec![Seg::B(b)])
    }

    fn cut(f: &Facts, segs: &mut Vec<Seg>, off: &Aff) -> R<usize> {
        let mut cum = Aff::c(0);
        let mut i = 0;
        while i < segs.len() {
            let d = Mem::known(f, &off.add(&cum, -1).unwrap());
            if d.cst() == Some(0) {
                return Ok(i);
            }
            let l = segs[i].len();
            if f.prove_ge0(&d.scale(-1).unwrap()) && f.prove_ge0(&d) {
                return Ok(i);
            }
            let past = d.add(&l, -1).unwrap();
            if f.prove_ge0(&past) {
                cum = cum.add(&l, 1).unwrap();
                i += 1;
                continue;
            }
            let room = l.add(&d, -1).unwrap().plus(-1);
            if !f.prove_ge0(&room) {
                let end = cum.add(&l, 1).unwrap();
                let b = f.cmp(Cmp::Ltu, &sc64(off), &sc64(&end));
                match f.bit_val(b) {
                    None => return Err(Ex::Fork(b)),
                    Some(true) => (),
                    Some(false) => {
                        cum = end;
                        i += 1;
                        continue;
                    }
                }
            }
            if !f.prove_ge0(&d.plus(-1)) {
                // may coincide with the start of this segment
                let b = f.cmp(Cmp::Eq, &sc64(off), &sc64(&cum));
                match f.bit_val(b) {
                    None => return Err(Ex::Fork(b)),
                    Some(true) => return Ok(i),
                    Some(false) => (),
                }
            }
            match segs[i].clone() {
                Seg::B(v) => match d.cst() {
                    Some(k) => {
                        let (a, b) = v.split_at(k as usize);
                        segs[i] = Seg::B(a.to_vec());
                        segs.insert(i + 1, Seg::B(b.to_vec()));
                    }
                    None => return Err(Mem::small_split(f, &d)),
                },
                Seg::L { id, off: o, len } => {
                    segs[i] = Seg::L { id, off: o.clone(), len: d.clone() };
                    segs.insert(i + 1, Seg::L { id, off: o.add(&d, 1).unwrap(), len: len.add(&d, -1).unwrap() });
                }
                Seg::U(len) => {
                    segs[i] = Seg::U(d.clone());
                    segs.insert(i + 1, Seg::U(len.add(&d, -1).unwrap()));
                }
            }
            return Ok(i + 1);
        }
        Ok(segs.len())
    }

    pub fn read_segs(&self, f: &Facts, id: u64, off: &Aff, len: &Aff) -> R<Vec<Seg>> {
        let (off, len) = (&Mem::known(f, off), &Mem::known(f, len));
        self.bounds(f, id, off, len)?;
        if let (Some(o), Some(n), [Seg::B(v), ..]) = (off.cst(), len.cst(), &self.get(id)?.segs[..]) {
            // inside the leading known octets
            if o >= 0 && n > 0 && o + n <= v.len() as i128 {
                return Ok(vec![Seg::B(v[o as usize..(o + n) as usize].to_vec())]);
            }
        }
        let mut segs = self.get(id)?.segs.clone();
        let i = Mem::cut(f, &mut segs, off)?;
        let end = off.add(len, 1).unwrap();
        let j = Mem::cut(f, &mut segs, &end)?;
        // the second cut may have split a segment before i only if the range is empty
        if j <= i {
            return Ok(vec![]);
        }
        Ok(segs[i..j].to_vec())
    }

    pub fn write_segs(&mut self, f: &Facts, id: u64, off: &Aff, len: &Aff, new: Vec<Seg>) -> R<()> {
        let (off, len) = (&Mem::known(f, off), &Mem::known(f, len));
        self.bounds(f, id, off, len)?;
        if self.get(id)?.ro {
            return Err(Ex::Ub("write to read-only memory".into()));
        }
        if let (Some(o), Some(n), [Seg::B(b)]) = (off.cst(), len.cst(), &new[..]) {
            // inside the leading known octets or right after them
            let (fits, room) = match &self.get(id)?.segs[..] {
                [Seg::B(v), ..] if o >= 0 && o + n <= v.len() as i128 => (true, None),
                [Seg::B(v), Seg::U(l)] if o == v.len() as i128 && n > 0 => match l.cst() {
                    Some(l) if l > n + 64 => (true, Some(l - n)),
                    _ => (false, None),
                },
                _ => (false, None),
            };
            if fits && b.len() as i128 == n {
                let segs = &mut self.get_mut(id)?.segs;
                if let Seg::B(v) = &mut segs[0] {
                    match room {
                        Some(_) => v.extend(b.iter().cloned()),
                        None => v[o as usize..(o + n) as usize].clone_from_slice(b),
                    }
                }
                if let Some(l) = room {
                    segs[1] = Seg::U(Aff::c(l));
                }
                return Ok(());
            }
        }
        let mut segs = self.get(id)?.segs.clone();
        let i = Mem::cut(f, &mut segs, off)?;
        let end = off.add(len, 1).unwrap();
        let j = Mem::cut(f, &mut segs, &end)?;
        if j < i {
            return Ok(());
        }
        segs.splice(i..j, new);
        merge(f, &mut segs);
        self.get_mut(id)?.segs = segs;
        Ok(())
    }
}

/// Runs of one value have this and the value as their number.
pub const FILL: u32 = 0xffff_ff00;

/// One octet of a run.
pub fn octet(f: &Facts, id: u32, at: &Aff) -> AB {
    if id >= FILL {
        return const_byte(id as u8);
    }
    AB::F(Rc::new(V::I(Sc::of_atom(8, atom(8, Def::Octet(id, Rc::new(f.canon(at))))))), 0)
}

pub fn merge(f: &Facts, segs: &mut Vec<Seg>) {
    let mut out: Vec<Seg> = vec![];
    for s in segs.drain(..) {
        if s.len().cst() == Some(0) {
            continue;
        }
        if s.len().cst().is_none() && f.upper(&s.len()) == Some(0) {
            continue;
        }
        // a short run with a known length becomes explicit
        let s = match s {
            Seg::L { id, off, len } => match len.cst().or_else(|| {
                let (l, h) = (f.lower(&len)?, f.upper(&len)?);
                if l == h {
                    Some(l)
                } else {
                    None
                }
            }) {
                Some(n) if n <= 64 => Seg::B(
                    (0..n)
                        .map(|k| octet(f, id, &off.plus(k)))
                        .collect(),
                ),
                _ => Seg::L { id, off, len },
            },
            Seg::U(len) => match len.cst() {
                Some(n) if n <= 64 => Seg::B(vec![AB::Uninit; n as usize]),
                _ => Seg::U(len),
            },
            s => s,
        };
        match (out.last_mut(), s) {
            (Some(Seg::B(a)), Seg::B(b)) => a.extend(b),
            (Some(Seg::L { id: i1, off: o1, len: l1 }), Seg::L { id: i2, off: o2, len: l2 })
                if *i1 == i2 && o1.add(l1, 1).as_ref() == Some(&o2) =>
            {
                *l1 = l1.add(&l2, 1).unwrap();
            }
            (Some(Seg::U(a)), Seg::U(b)) => *a = a.add(&b, 1).unwrap(),
            (_, s) => out.push(s),
        }
    }
    if out.is_empty() {
        out.push(Seg::B(vec![]));
    }
    *segs = out;
}

pub fn addr_facts(f: &mut Facts, key: u64, align: u64) {
    let a = atom(64, Def::Addr(key));
    f.at.remove(&a);
    f.touch();
    let mut x = f.af(a);
    x.lo = 0x1000_0000;
    x.hi = 1 << 46;
    x.kz |= (align.max(1) as u128) - 1;
    x.lo = (x.lo + align as u128 - 1) & !(align as u128 - 1);
    f.at.insert(a, x);
    f.touch();
}
