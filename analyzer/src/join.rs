//! Merging of abstract states at control-flow joins.

use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub struct Item {
    pub bb: usize,
    pub st: usize,
    pub s: State,
    pub ret: Bytes,
}

fn hash_v(v: &V, h: &mut DefaultHasher) {
    match v {
        V::I(s) => s.hash(h),
        V::P(Base::Obj(o), off) => {
            1u8.hash(h);
            o.hash(h);
            off.hash(h)
        }
        V::P(Base::Fn(_), _) => 2u8.hash(h),
        V::P(Base::Vt(i), _) => i.hash(h),
    }
}

fn hash_ab(b: &AB, h: &mut DefaultHasher) {
    match b {
        AB::Uninit => 0u8.hash(h),
        AB::F(v, i) => {
            i.hash(h);
            if *i == 0 {
                hash_v(v, h)
            }
        }
    }
}

fn hash_obj(o: &Obj) -> u64 {
    let mut h = DefaultHasher::new();
    for s in &o.segs {
        match s {
            Seg::B(v) => v.iter().for_each(|b| hash_ab(b, &mut h)),
            Seg::L { id, off, len } => {
                id.hash(&mut h);
                off.hash(&mut h);
                len.hash(&mut h)
            }
            Seg::U(l) => l.hash(&mut h),
        }
    }
    h.finish()
}

fn fingerprint(it: &Item) -> u64 {
    let mut x = 0u64;
    for (id, o) in it.s.mem.objs.iter() {
        if is_const(*id) {
            continue;
        }
        x = x.wrapping_add((hash_obj(o) ^ id.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_mul(0xff51afd7ed558ccd));
    }
    let mut h = DefaultHasher::new();
    it.ret.iter().for_each(|b| hash_ab(b, &mut h));
    it.s.log.hash(&mut h);
    it.bb.hash(&mut h);
    it.st.hash(&mut h);
    x ^ h.finish()
}

fn same_mem(a: &Mem, b: &Mem) -> bool {
    if Rc::ptr_eq(&a.objs, &b.objs) {
        return true;
    }
    let mut n = 0;
    for (id, o) in a.objs.iter() {
        if is_const(*id) {
            // a static which can be written to
            if !o.ro && !b.objs.get(id).map_or(false, |p| Rc::ptr_eq(o, p) || o == p) {
                return false;
            }
            continue;
        }
        n += 1;
        match b.objs.get(id) {
            Some(p) if Rc::ptr_eq(o, p) || o == p => (),
            _ => return false,
        }
    }
    n == b.objs.keys().filter(|i| !is_const(**i)).count()
        && b.objs.iter().all(|(i, o)| !is_const(*i) || o.ro || a.objs.contains_key(i))
}

fn sc_atoms(s: &Sc, out: &mut HashSet<Aid>) {
    match &s.k {
        K::C(_) => (),
        K::A(a) => aff_atoms(a, out),
        K::B(b) => b.iter().for_each(|x| {
            if let Bit::S(a, _, _) = x {
                out.insert(*a);
            }
        }),
    }
}

fn aff_atoms(a: &Aff, out: &mut HashSet<Aid>) {
    a.t.iter().for_each(|x| {
        out.insert(x.0);
    })
}

/// Primitive atoms an atom is made of.
pub fn support(a: Aid) -> Rc<Vec<Aid>> {
    thread_local! {
        static C: std::cell::RefCell<HashMap<Aid, Rc<Vec<Aid>>>> = Default::default();
    }
    if let Some(r) = C.with(|c| c.borrow().get(&a).cloned()) {
        return r;
    }
    let inf = info(a);
    let mut d = HashSet::new();
    match &inf.def {
        Def::Input(_) | Def::Addr(_) | Def::Octet(..) | Def::Phi(_) => {
            let r = Rc::new(vec![a]);
            C.with(|c| c.borrow_mut().insert(a, r.clone()));
            return r;
        }
        Def::Cmp(_, x, y) => {
            sc_atoms(x, &mut d);
            sc_atoms(y, &mut d);
        }
        Def::Op(_, v) => v.iter().for_each(|x| sc_atoms(x, &mut d)),
        Def::Bits(b) => b.iter().for_each(|x| {
            if let Bit::S(a, _, _) = x {
                d.insert(*a);
            }
        }),
        Def::Aff(f) => aff_atoms(f, &mut d),
        Def::BitOp(_, x, y) => {
            for b in [x, y] {
                if let Bit::S(a, _, _) = b {
                    d.insert(*a);
                }
            }
        }
    }
    let mut r = HashSet::new();
    for x in d {
        r.extend(support(x).iter().copied());
    }
    let mut v: Vec<Aid> = r.into_iter().collect();
    v.sort();
    let r = Rc::new(v);
    C.with(|c| c.borrow_mut().insert(a, r.clone()));
    r
}

struct Live {
    atoms: HashSet<Aid>,
    blobs: HashSet<u32>,
}

fn live(it: &Item) -> Live {
    let mut d = HashSet::new();
    let mut blobs = HashSet::new();
    let mut seen: HashSet<*const V> = HashSet::new();
    let mut ab = |b: &AB, d: &mut HashSet<Aid>| {
        if let AB::F(v, _) = b {
            if seen.insert(Rc::as_ptr(v)) {
                match &**v {
                    V::I(s) => sc_atoms(s, d),
                    V::P(_, s) => sc_atoms(s, d),
                }
            }
        }
    };
    for (id, o) in it.s.mem.objs.iter() {
        if is_const(*id) {
            continue;
        }
        aff_atoms(&o.size, &mut d);
        for s in &o.segs {
            match s {
                Seg::B(v) => v.iter().for_each(|b| ab(b, &mut d)),
                Seg::L { id, off, len } => {
                    blobs.insert(*id);
                    aff_atoms(off, &mut d);
                    aff_atoms(len, &mut d);
                }
                Seg::U(l) => aff_atoms(l, &mut d),
            }
        }
    }
    it.ret.iter().for_each(|b| ab(b, &mut d));
    for v in it.s.regs.values() {
        match v {
            V::I(s) | V::P(_, s) => sc_atoms(s, &mut d),
        }
    }
    let mut atoms = HashSet::new();
    for a in d {
        atoms.extend(support(a).iter().copied());
    }
    Live { atoms, blobs }
}

impl Live {
    fn has(&self, a: Aid) -> bool {
        if self.atoms.contains(&a) {
            return true;
        }
        if let Def::Octet(b, _) = &info(a).def {
            return self.blobs.contains(b);
        }
        false
    }
    fn rel(&self, a: Aid) -> bool {
        support(a).iter().any(|x| self.has(*x))
    }
}

fn is_prim(a: Aid) -> bool {
    matches!(info(a).def, Def::Input(_) | Def::Addr(_) | Def::Octet(..) | Def::Phi(_))
}

fn lin_support(g: &Aff) -> Vec<Aid> {
    let mut v: Vec<Aid> = g.t.iter().flat_map(|x| support(x.0).iter().copied().collect::<Vec<_>>()).collect();
    v.sort();
    v.dedup();
    v
}

fn bits_support(b: &[Bit]) -> Vec<Aid> {
    let mut v: Vec<Aid> = b
        .iter()
        .flat_map(|x| match x {
            Bit::S(a, _, _) => support(*a).iter().copied().collect::<Vec<_>>(),
            _ => vec![],
        })
        .collect();
    v.sort();
    v.dedup();
    v
}

/// Union of two values of one atom, with whether it is exact.
fn af_union(a: &AF, b: &AF) -> (AF, bool) {
    let r = AF {
        lo: a.lo.min(b.lo),
        hi: a.hi.max(b.hi),
        kz: a.kz & b.kz,
        ko: a.ko & b.ko,
        set: match (&a.set, &b.set) {
            (Some(x), Some(y)) => Some([x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]]),
            _ => None,
        },
    };
    if r.set.is_some() {
        return (r, true);
    }
    let sub = |p: &AF, q: &AF| p.lo <= q.lo && p.hi >= q.hi && p.kz & !q.kz == 0 && p.ko & !q.ko == 0;
    if sub(a, b) || sub(b, a) {
        return (r, true);
    }
    // adjacent or overlapping intervals whose bits follow from the interval
    let touch = a.lo <= b.hi.saturating_add(1) && b.lo <= a.hi.saturating_add(1);
    let tight = |x: &AF| {
        let d = x.lo ^ x.hi;
        let free = if d == 0 { 0 } else { mask((128 - d.leading_zeros()) as u8) };
        (x.kz | x.ko) & free == 0
    };
    (r, touch && tight(a) && tight(b))
}

fn af_sub(small: &AF, big: &AF) -> bool {
    small.lo >= big.lo
        && small.hi <= big.hi
        && big.kz & !small.kz == 0
        && big.ko & !small.ko == 0
        && match (&small.set, &big.set) {
            (_, None) => true,
            (Some(x), Some(y)) => (0..4).all(|i| x[i] & !y[i] == 0),
            (None, Some(y)) => (small.lo..=small.hi.min(255)).all(|v| in_set(y, v as u32)),
        }
}

fn entails_atom(x: &Facts, k: Aid, want: &AF) -> bool {
    if af_sub(&x.af(k), want) {
        return true;
    }
    if let Def::Cmp(op, u, v) = &info(k).def {
        let w = if want.ko & 1 == 1 {
            true
        } else if want.kz & 1 == 1 {
            false
        } else {
            return true;
        };
        return x.decide(*op, u, v) == Some(w);
    }
    false
}

/// Whether everything `y` says about these atoms, and its relational facts, follows from `x`.
fn entails(lv: &Live, x: &Facts, y: &Facts, atoms: &[Aid]) -> bool {
    atoms.iter().all(|k| entails_atom(x, *k, &y.af(*k)))
        && y.lin.iter().all(|g| !lin_support(g).iter().any(|z| lv.has(*z)) || x.lin.contains(g) || x.prove_ge0(g))
        && y.ne.iter().all(|n| !bits_support(&n.0).iter().any(|z| lv.has(*z)) || x.ne.contains(n) || x.refutes_eq(&n.0, n.1))
}

/// Join `b` into `a`. Memory is known to be equal. Unless forced, the result describes exactly the
/// states described by either.
fn join_facts(lv: &Live, a: &Facts, b: &Facts, force: bool) -> Option<Facts> {
    let mut keys: HashSet<Aid> = a.at.keys().copied().collect();
    keys.extend(b.at.keys().copied());
    let mut diff = vec![];
    let mut base = Facts::default();
    for k in keys {
        if !lv.rel(k) {
            // where an object lies matters as long as it exists
            if let (Def::Addr(_), Some(x), Some(y)) = (&info(k).def, a.at.get(&k), b.at.get(&k)) {
                if x == y {
                    base.at.insert(k, x.clone());
                }
            }
            continue;
        }
        let (x, y) = (a.af(k), b.af(k));
        if x == y {
            base.at.insert(k, x);
        } else {
            diff.push(k);
        }
    }
    let rel_lin = |g: &Rc<Aff>| lin_support(g).iter().any(|z| lv.has(*z));
    for (x, y) in [(a, b), (b, a)] {
        for g in &x.lin {
            if rel_lin(g) && !base.lin.contains(g) && (y.lin.contains(g) || y.prove_ge0(g)) {
                base.lin.push(g.clone());
            }
        }
    }
    for n in &a.ne {
        if b.ne.contains(n) && bits_support(&n.0).iter().any(|z| lv.has(*z)) {
            base.ne.push(n.clone());
        }
    }
    if force {
        for k in diff {
            base.at.insert(k, af_union(&a.af(k), &b.af(k)).0);
        }
        base.touch();
        return Some(base);
    }
    base.touch();
    diff.sort_by_key(|k| {
        let r = if is_prim(*k) {
            0
        } else if matches!(info(*k).def, Def::Cmp(..)) {
            2
        } else {
            1
        };
        (r, *k)
    });
    // one of them says nothing the other does not
    if entails(lv, b, a, &diff) {
        return Some(a.clone());
    }
    if entails(lv, a, b, &diff) {
        return Some(b.clone());
    }
    // they differ in one value alone; everything else follows
    let related: HashSet<Aid> = base.lin.iter().flat_map(|g| lin_support(g)).collect();
    let own: Vec<Vec<Aid>> = [(a, b), (b, a)]
        .iter()
        .flat_map(|(x, y)| {
            let l = x.lin.iter().filter(|g| !base.lin.contains(g) && !y.lin.contains(g)).map(|g| lin_support(g));
            let n = x.ne.iter().filter(|n| !y.ne.contains(n)).map(|n| bits_support(&n.0));
            l.chain(n).collect::<Vec<_>>()
        })
        .filter(|v| v.iter().any(|z| lv.has(*z)))
        .collect();
    for d in &diff {
        let sup = support(*d);
        let reach = |p: &Aid| sup.contains(p) || related.contains(p);
        if !diff.iter().all(|k| if is_prim(*k) { reach(k) } else { support(*k).iter().any(|p| reach(p)) }) {
            continue;
        }
        if !own.iter().all(|v| v.iter().any(|p| reach(p))) {
            continue;
        }
        let (x, y) = (a.af(*d), b.af(*d));
        let (u, ex) = af_union(&x, &y);
        if !ex {
            continue;
        }
        let mut p = base.clone();
        if !p.constrain(*d, &x) || !entails(lv, &p, a, &diff) {
            continue;
        }
        let mut p = base.clone();
        if !p.constrain(*d, &y) || !entails(lv, &p, b, &diff) {
            continue;
        }
        let mut r = base;
        for k in &diff {
            if k != d && !matches!(info(*k).def, Def::Cmp(..)) {
                r.at.insert(*k, af_union(&a.af(*k), &b.af(*k)).0);
            }
        }
        if !matches!(info(*d).def, Def::Cmp(..)) {
            r.at.insert(*d, u);
        }
        r.touch();
        return Some(r);
    }
    None
}

fn absorb(a: &mut Item, b: Item, f: Facts) {
    a.s.f = f;
    a.s.mem.next = a.s.mem.next.max(b.s.mem.next);
    a.s.inputs = a.s.inputs.max(b.s.inputs);
    let mut add = vec![];
    for (id, o) in b.s.mem.objs.iter() {
        if is_const(*id) && !a.s.mem.objs.contains_key(id) {
            add.push((*id, o.clone()));
        }
    }
    if !add.is_empty() {
        let m = Rc::make_mut(&mut a.s.mem.objs);
        m.extend(add);
    }
    if a.s.approx.is_none() {
        a.s.approx = b.s.approx.clone();
    }
}

pub fn join(it: &Interp, items: Vec<Item>) -> Vec<Item> {
    let mut groups: HashMap<u64, Vec<Item>> = HashMap::new();
    let mut order = vec![];
    for x in items {
        let h = fingerprint(&x);
        let g = groups.entry(h).or_insert_with(|| {
            order.push(h);
            vec![]
        });
        g.push(x);
    }
    let mut out = vec![];
    for h in order {
        let g = groups.remove(&h).unwrap();
        if g.len() == 1 {
            out.extend(g);
            continue;
        }
        let mut kept: Vec<(Item, Live)> = vec![];
        'next: for x in g {
            let mut x = x;
            let mut lv = live(&x);
            loop {
                let mut hit = None;
                for (i, (y, ly)) in kept.iter().enumerate() {
                    if y.bb != x.bb || y.st != x.st || y.ret != x.ret || y.s.regs != x.s.regs || y.s.log != x.s.log || !same_mem(&y.s.mem, &x.s.mem) {
                        continue;
                    }
                    if let Some(f) = join_facts(ly, &y.s.f, &x.s.f, false) {
                        hit = Some((i, f));
                        break;
                    }
                }
                match hit {
                    None => break,
                    Some((i, f)) => {
                        it.stats.borrow_mut().joins += 1;
                        let (mut y, l) = kept.swap_remove(i);
                        absorb(&mut y, x, f);
                        x = y;
                        lv = l;
                    }
                }
            }
            kept.push((x, lv));
            continue 'next;
        }
        if kept.len() > it.slevel {
            // too many partitions: give up precision
            let mut iter = kept.into_iter();
            let (mut a, lv) = iter.next().unwrap();
            for (b, _) in iter {
                if same_mem(&a.s.mem, &b.s.mem) {
                    let f = join_facts(&lv, &a.s.f, &b.s.f, true).unwrap();
                    absorb(&mut a, b, f);
                    a.s.approx = Some("joined partitions".into());
                } else {
                    out.push(b);
                }
            }
            out.push(a);
        } else {
            out.extend(kept.into_iter().map(|x| x.0));
        }
    }
    out
}
