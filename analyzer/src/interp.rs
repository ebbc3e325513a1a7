//! Forward value analysis over MIR.

use crate::dom::*;
use crate::mem::*;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Bytes = Vec<AB>;

pub struct TraceNode {
    pub site: String,
    pub prev: Option<Rc<TraceNode>>,
}

#[derive(Clone)]
pub struct Frame {
    pub inst: Instance,
    pub body: Rc<FnInfo>,
    pub locals: Vec<u64>,
    pub bb: usize,
    pub st: usize,
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub f: Facts,
    pub frames: Vec<Frame>,
    pub trace: Option<Rc<TraceNode>>,
    pub inputs: u32,
    /// small integer registers available to the drivers
    pub regs: Rc<BTreeMap<String, V>>,
    pub log: Rc<Vec<String>>,
    pub approx: Option<Rc<str>>,
}

pub struct FnInfo {
    pub body: Body,
    pub rpo: Vec<usize>,
    pub name: String,
    pub loc: Loc,
    pub term_sites: Vec<std::cell::OnceCell<(String, usize)>>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Loc {
    Repo,
    Driver,
    Lib,
}

pub struct Lay {
    pub size: usize,
    pub align: u64,
    pub shape: LayoutShape,
}

#[derive(Clone, Debug)]
pub enum Tail {
    Sized,
    Slice(Ty),
    Dyn,
}

#[derive(Default)]
pub struct Stats {
    pub functions: BTreeSet<String>,
    pub call_sites: BTreeSet<String>,
    pub blocks: u64,
    pub statements: u64,
    pub states: u64,
    pub joins: u64,
    pub partitions: u64,
    pub mem_obligations: u64,
    pub arith_obligations: u64,
    pub rule_checks: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: &'static str,
    pub rule: String,
    pub msg: String,
    pub site: String,
    pub func: String,
    pub chain: Vec<String>,
    pub path: Vec<String>,
}

pub struct Interp {
    pub bodies: RefCell<HashMap<Instance, Option<Rc<FnInfo>>>>,
    pub lays: RefCell<HashMap<Ty, Rc<Lay>>>,
    pub tails: RefCell<HashMap<Ty, Tail>>,
    pub names: RefCell<HashMap<Instance, Rc<str>>>,
    pub vts: RefCell<Vec<(Ty, Option<Binder<ExistentialTraitRef>>)>>,
    pub stats: RefCell<Stats>,
    pub findings: RefCell<Vec<Finding>>,
    pub unsup: RefCell<BTreeMap<String, u64>>,
    pub repo_root: String,
    pub verbose: bool,
    pub slevel: usize,
    pub steps: std::cell::Cell<u64>,
    pub max_steps: u64,
    pub max_secs: u64,
    pub start: std::time::Instant,
    pub depth: std::cell::Cell<usize>,
}

pub struct Pl {
    pub ptr: V,
    pub meta: Option<V>,
    pub ty: Ty,
    pub var: Option<usize>,
}

pub fn c64(v: u128) -> Sc {
    Sc::c(64, v)
}

fn us(s: &str) -> Ex {
    Ex::Unsup(s.to_string())
}

impl Interp {
    // ---- types ----

    pub fn lay(&self, ty: Ty) -> R<Rc<Lay>> {
        if let Some(l) = self.lays.borrow().get(&ty) {
            return Ok(l.clone());
        }
        let shape = ty.layout().map_err(|e| Ex::Unsup(format!("layout of {}: {}", ty, e)))?.shape();
        let l = Rc::new(Lay { size: shape.size.bytes(), align: shape.abi_align, shape });
        self.lays.borrow_mut().insert(ty, l.clone());
        Ok(l)
    }

    pub fn tail(&self, ty: Ty) -> R<Tail> {
        if let Some(t) = self.tails.borrow().get(&ty) {
            return Ok(t.clone());
        }
        let t = match ty.kind() {
            TyKind::RigidTy(RigidTy::Slice(e)) => Tail::Slice(e),
            TyKind::RigidTy(RigidTy::Str) => Tail::Slice(Ty::unsigned_ty(UintTy::U8)),
            TyKind::RigidTy(RigidTy::Dynamic(..)) => Tail::Dyn,
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind() == AdtKind::Struct => {
                if self.lay(ty)?.shape.is_sized() {
                    Tail::Sized
                } else {
                    let fs = def.variants()[0].fields();
                    let last = fs.last().unwrap().ty_with_args(&args);
                    self.tail(last)?
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(v)) if !v.is_empty() && !self.lay(ty)?.shape.is_sized() => {
                self.tail(*v.last().unwrap())?
            }
            _ => Tail::Sized,
        };
        self.tails.borrow_mut().insert(ty, t.clone());
        Ok(t)
    }

    pub fn pointee(&self, ty: Ty) -> Option<Ty> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.is_box() => match &args.0[0] {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            },
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.pointee(t),
            _ => None,
        }
    }

    pub fn size(&self, ty: Ty) -> R<usize> {
        Ok(self.lay(ty)?.size)
    }

    pub fn int_info(&self, ty: Ty) -> Option<(u8, bool)> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Int(i)) => Some((i.num_bytes() as u8 * 8, true)),
            TyKind::RigidTy(RigidTy::Uint(i)) => Some((i.num_bytes() as u8 * 8, false)),
            TyKind::RigidTy(RigidTy::Bool) => Some((8, false)),
            TyKind::RigidTy(RigidTy::Char) => Some((32, false)),
            TyKind::RigidTy(RigidTy::Pat(t, _)) => self.int_info(t),
            TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
                let l = self.lay(ty).ok()?;
                Some(((l.size * 8).min(128) as u8, false))
            }
            _ => None,
        }
    }

    pub fn field_off(&self, ty: Ty, var: Option<usize>, idx: usize) -> R<usize> {
        let l = self.lay(ty)?;
        if let Some(v) = var {
            if let VariantsShape::Multiple { variants, .. } = &l.shape.variants {
                return Ok(variants[v].offsets[idx].bytes());
            }
        }
        match &l.shape.fields {
            FieldsShape::Arbitrary { offsets, .. } => {
                offsets.get(idx).map(|x| x.bytes()).ok_or_else(|| us("field offset"))
            }
            FieldsShape::Union(_) => Ok(0),
            FieldsShape::Array { stride, .. } => Ok(stride.bytes() * idx),
            FieldsShape::Primitive => Ok(0),
        }
    }

    pub fn info(&self, inst: Instance) -> Option<Rc<FnInfo>> {
        if let Some(b) = self.bodies.borrow().get(&inst) {
            return b.clone();
        }
        let r = inst.body().map(|body| {
            let mut rpo = vec![usize::MAX; body.blocks.len()];
            // iterative DFS postorder
            let mut seen = vec![false; body.blocks.len()];
            let mut post = vec![];
            let mut stack = vec![(0usize, 0usize)];
            seen[0] = true;
            while let Some((b, i)) = stack.pop() {
                let succ = body.blocks[b].terminator.successors();
                if i < succ.len() {
                    stack.push((b, i + 1));
                    let s = succ[i];
                    if !seen[s] {
                        seen[s] = true;
                        stack.push((s, 0));
                    }
                } else {
                    post.push(b);
                }
            }
            for (k, b) in post.iter().rev().enumerate() {
                rpo[*b] = k;
            }
            let file = body.span.get_filename().to_string();
            let loc = if file.starts_with(&self.repo_root) {
                Loc::Repo
            } else if file.contains("fixture") {
                Loc::Driver
            } else {
                Loc::Lib
            };
            let n = body.blocks.len();
            let term_sites = (0..n).map(|_| std::cell::OnceCell::new()).collect();
            Rc::new(FnInfo { body, rpo, name: inst.name().to_string(), loc, term_sites })
        });
        self.bodies.borrow_mut().insert(inst, r.clone());
        r
    }

    pub fn def_name(&self, inst: Instance) -> Rc<str> {
        if let Some(n) = self.names.borrow().get(&inst) {
            return n.clone();
        }
        let n: Rc<str> = inst.def.name().to_string().into();
        self.names.borrow_mut().insert(inst, n.clone());
        n
    }

    // ---- reporting ----

    pub fn span_str(&self, sp: Span) -> String {
        let file = sp.get_filename().to_string();
        let l = sp.get_lines();
        let f = file.strip_prefix(&self.repo_root).unwrap_or(&file);
        let f = match f.find("/rustlib/src/rust/library/") {
            Some(i) => &f[i + 26..],
            None => f,
        };
        format!("{}:{}", f.trim_start_matches('/'), l.start_line)
    }

    pub fn cur_span(&self, st: &State, k: usize) -> Span {
        let fr = &st.frames[k];
        let b = &fr.body.body.blocks[fr.bb];
        if fr.st < b.statements.len() {
            b.statements[fr.st].source_info.span
        } else {
            b.terminator.source_info.span
        }
    }

    pub fn report(&self, st: &State, kind: &'static str, rule: &str, msg: &str) {
        let mut chain = vec![];
        let mut site = None;
        for k in (0..st.frames.len()).rev() {
            let s = self.span_str(self.cur_span(st, k));
            let fr = &st.frames[k];
            if fr.body.loc == Loc::Repo && site.is_none() {
                site = Some((s.clone(), fr.body.name.clone()));
            }
            chain.push(format!("{} at {}", fr.body.name, s));
        }
        let mut path = vec![];
        let mut t = st.trace.clone();
        while let Some(n) = t {
            path.push(n.site.clone());
            t = n.prev.clone();
            if path.len() >= 60 {
                break;
            }
        }
        path.reverse();
        let (site, func) = site.unwrap_or_else(|| {
            let s = chain.last().cloned().unwrap_or_default();
            (s, st.frames.first().map(|f| f.body.name.clone()).unwrap_or_default())
        });
        self.findings.borrow_mut().push(Finding {
            kind,
            rule: rule.to_string(),
            msg: msg.to_string(),
            site,
            func,
            chain,
            path,
        });
    }

    pub fn note_unsup(&self, st: &State, m: &str) {
        let k = st.frames.len() - 1;
        let mut s = format!("{} [{} at {}]", m, st.frames[k].body.name, self.span_str(self.cur_span(st, k)));
        if self.verbose {
            for k in (0..st.frames.len()).rev().skip(1).take(14) {
                s.push_str(&format!("\n      in {} at {}", st.frames[k].body.name, self.span_str(self.cur_span(st, k))));
            }
        }
        *self.unsup.borrow_mut().entry(s).or_insert(0) += 1;
    }

    // ---- memory through values ----

    pub fn ptr_add(&self, f: &Facts, p: &V, off: &Sc) -> V {
        match p {
            V::P(b, o) => V::P(b.clone(), f.add(o, off)),
            V::I(s) => V::I(f.add(s, off)),
        }
    }

    pub fn off_aff(&self, f: &Facts, off: &Sc) -> Aff {
        let a = f.to_aff(off);
        if let Some(k) = a.cst() {
            return Aff::c(k as u64 as i64 as i128);
        }
        a
    }

    pub fn read(&self, st: &State, p: &V, n: usize) -> R<Bytes> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.stats.borrow_mut().mem_obligations += 1;
        match p {
            V::P(Base::Obj(o), off) => {
                let off = self.off_aff(&st.f, off);
                st.mem.read(&st.f, *o, &off, n)
            }
            V::P(Base::Vt(_), _) => Err(us("read of vtable")),
            V::P(Base::Fn(_), _) => Err(Ex::Ub("read through a function pointer".into())),
            V::I(s) => {
                if let Some((p, o)) = self.reprov(&st.f, s) {
                    return self.read(st, &V::P(Base::Obj(p), o), n);
                }
                Err(Ex::Ub(format!("read of {} octets through an invalid pointer", n)))
            }
        }
    }

    /// An integer which is an object's address plus an offset.
    pub fn reprov(&self, f: &Facts, s: &Sc) -> Option<(u64, Sc)> {
        let a = f.to_aff(s);
        for (x, c) in &a.t {
            if let Def::Addr(k) = &info(*x).def {
                if *c == 1 && k & 3 == 0 {
                    let mut r = a.clone();
                    r.t.retain(|y| y.0 != *x);
                    return Some((k >> 2, Sc::aff(64, r)));
                }
            }
        }
        None
    }

    pub fn write(&self, st: &mut State, p: &V, b: Bytes) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.stats.borrow_mut().mem_obligations += 1;
        match p {
            V::P(Base::Obj(o), off) => {
                let off = self.off_aff(&st.f, off);
                st.mem.write(&st.f, *o, &off, b)
            }
            V::I(s) => {
                if let Some((p, o)) = self.reprov(&st.f, s) {
                    return self.write(st, &V::P(Base::Obj(p), o), b);
                }
                Err(Ex::Ub(format!("write of {} octets through an invalid pointer", b.len())))
            }
            _ => Err(Ex::Ub("write through an invalid pointer".into())),
        }
    }

    /// Copy with a possibly symbolic number of octets.
    pub fn copy(&self, st: &mut State, src: &V, dst: &V, len: &Sc) -> R<()> {
        if let Some(n) = st.f.value(len) {
            if n == 0 {
                return Ok(());
            }
            if n <= 1 << 16 {
                // symbolic offsets may need the segment path
                let simple = |v: &V| match v {
                    V::P(Base::Obj(o), off) => {
                        off.raw_const().is_some()
                            && st.mem.objs.get(o).map_or(true, |x| matches!(&x.segs[..], [Seg::B(_)]))
                    }
                    _ => true,
                };
                if simple(src) && simple(dst) {
                    let b = self.read(st, src, n as usize)?;
                    return self.write(st, dst, b);
                }
            }
        }
        let l = st.f.to_aff(len);
        if l.cst().is_none() && !st.f.prove_ge0(&l.plus(-1)) {
            let b = st.f.cmp(Cmp::Eq, len, &c64(0));
            if st.f.bit_val(b).is_none() {
                return Err(Ex::Fork(b));
            }
        }
        let (so, soff) = match src {
            V::P(Base::Obj(o), off) => (*o, self.off_aff(&st.f, off)),
            _ => return Err(Ex::Ub("copy from an invalid pointer".into())),
        };
        let (d, doff) = match dst {
            V::P(Base::Obj(o), off) => (*o, self.off_aff(&st.f, off)),
            _ => return Err(Ex::Ub("copy to an invalid pointer".into())),
        };
        self.stats.borrow_mut().mem_obligations += 2;
        let segs = st.mem.read_segs(&st.f, so, &soff, &l)?;
        st.mem.write_segs(&st.f, d, &doff, &l, segs)
    }

    /// `len` octets of one value.
    pub fn fill(&self, st: &mut State, dst: &V, byte: u8, len: &Sc) -> R<()> {
        let l = st.f.to_aff(len);
        if l.cst().is_none() && !st.f.prove_ge0(&l.plus(-1)) {
            let b = st.f.cmp(Cmp::Eq, len, &c64(0));
            match st.f.bit_val(b) {
                None => return Err(Ex::Fork(b)),
                Some(true) => return Ok(()),
                _ => (),
            }
        }
        let (d, doff) = match dst {
            V::P(Base::Obj(o), off) => (*o, self.off_aff(&st.f, off)),
            _ => return Err(Ex::Ub("write to an invalid pointer".into())),
        };
        self.stats.borrow_mut().mem_obligations += 1;
        let seg = Seg::L { id: FILL | byte as u32, off: Aff::c(0), len: l.clone() };
        st.mem.write_segs(&st.f, d, &doff, &l, vec![seg])
    }

    pub fn local_obj(&self, st: &mut State, l: usize) -> R<u64> {
        let k = st.frames.len() - 1;
        let id = st.frames[k].locals[l];
        if id != 0 {
            return Ok(id);
        }
        let ty = st.frames[k].body.body.locals()[l].ty;
        let lay = self.lay(ty)?;
        let id = LOCAL | (k as u64) << 24 | l as u64;
        st.mem.alloc_at(&mut st.f, id, Aff::c(lay.size as i128), lay.align, false, "local");
        st.frames[k].locals[l] = id;
        Ok(id)
    }

    pub fn place(&self, st: &mut State, p: &Place) -> R<Pl> {
        let k = st.frames.len() - 1;
        let ty = st.frames[k].body.body.locals()[p.local].ty;
        let o = self.local_obj(st, p.local)?;
        let mut pl = Pl { ptr: V::P(Base::Obj(o), c64(0)), meta: None, ty, var: None };
        for e in &p.projection {
            pl = self.project(st, pl, e)?;
        }
        Ok(pl)
    }

    fn project(&self, st: &mut State, pl: Pl, e: &ProjectionElem) -> R<Pl> {
        Ok(match e {
            ProjectionElem::Deref => {
                let to = self.pointee(pl.ty).ok_or_else(|| us("deref of non pointer"))?;
                let fat = !matches!(self.tail(to)?, Tail::Sized);
                let b = self.read(st, &pl.ptr, if fat { 16 } else { 8 })?;
                let ptr = load(&st.f, &b[..8])?;
                let meta = if fat { Some(load(&st.f, &b[8..])?) } else { None };
                Pl { ptr, meta, ty: to, var: None }
            }
            ProjectionElem::Field(i, fty) => {
                let off = self.field_off(pl.ty, pl.var, *i)?;
                let mut off = off as u128;
                let keep = !matches!(self.tail(*fty)?, Tail::Sized);
                if keep {
                    if let (Tail::Dyn, Some(V::P(Base::Vt(v), _))) = (self.tail(*fty)?, &pl.meta) {
                        let cty = self.vts.borrow()[*v as usize].0;
                        let al = self.lay(cty)?.align as u128;
                        off = (off + al - 1) / al * al;
                    }
                }
                Pl {
                    ptr: self.ptr_add(&st.f, &pl.ptr, &c64(off)),
                    meta: if keep { pl.meta } else { None },
                    ty: *fty,
                    var: None,
                }
            }
            ProjectionElem::Index(l) => {
                let o = self.local_obj(st, *l)?;
                let b = self.read(st, &V::P(Base::Obj(o), c64(0)), 8)?;
                let i = self.int(&st.f, &b)?;
                self.index(st, pl, &i)?
            }
            ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                let i = if *from_end {
                    let n = self.len_of(&pl)?;
                    st.f.sub(&n, &c64(*offset as u128))
                } else {
                    c64(*offset as u128)
                };
                self.index(st, pl, &i)?
            }
            ProjectionElem::Subslice { from, to, from_end } => {
                let n = self.len_of(&pl)?;
                let ety = pl.ty.kind().builtin_index().ok_or_else(|| us("subslice"))?;
                let es = self.size(ety)?;
                let ptr = self.ptr_add(&st.f, &pl.ptr, &c64((*from as usize * es) as u128));
                let ty = e.ty(pl.ty).map_err(|_| us("subslice type"))?;
                let meta = if pl.meta.is_some() {
                    let t = if *from_end { st.f.sub(&n, &c64((*from + *to) as u128)) } else { c64((*to - *from) as u128) };
                    Some(V::I(t))
                } else {
                    None
                };
                Pl { ptr, meta, ty, var: None }
            }
            ProjectionElem::Downcast(v) => Pl { var: Some(v.to_index()), ..pl },
            ProjectionElem::OpaqueCast(t) => Pl { ty: *t, ..pl },
        })
    }

    fn len_of(&self, pl: &Pl) -> R<Sc> {
        match pl.ty.kind() {
            TyKind::RigidTy(RigidTy::Array(_, n)) => {
                Ok(c64(n.eval_target_usize().map_err(|_| us("array length"))? as u128))
            }
            _ => match &pl.meta {
                Some(V::I(s)) => Ok(s.clone()),
                _ => Err(us("length of place")),
            },
        }
    }

    fn index(&self, st: &mut State, pl: Pl, i: &Sc) -> R<Pl> {
        let ety = pl.ty.kind().builtin_index().ok_or_else(|| us("index"))?;
        let es = self.size(ety)?;
        let off = st.f.mul(i, &c64(es as u128));
        Ok(Pl { ptr: self.ptr_add(&st.f, &pl.ptr, &off), meta: None, ty: ety, var: None })
    }

    pub fn int(&self, f: &Facts, b: &[AB]) -> R<Sc> {
        int_of(f, &load(f, b)?)
    }

    /// Pointer value of a place: thin or fat.
    pub fn ref_bytes(&self, pl: &Pl) -> Bytes {
        let mut b = frag(pl.ptr.clone(), 8);
        if let Some(m) = &pl.meta {
            b.extend(frag(m.clone(), 8));
        }
        b
    }

    // ---- constants ----

    pub fn global(&self, st: &mut State, id: AllocId) -> R<V> {
        let o = CONST | id.to_index() as u64;
        if st.mem.objs.contains_key(&o) {
            return Ok(V::P(Base::Obj(o), c64(0)));
        }
        let ga: GlobalAlloc = id.into();
        match ga {
            GlobalAlloc::Function(i) => Ok(V::P(Base::Fn(i), c64(0))),
            GlobalAlloc::VTable(ty, tr) => Ok(V::P(Base::Vt(self.vt(ty, tr)), c64(0))),
            GlobalAlloc::TypeId { ty } => {
                let mut h = 0xcbf29ce484222325u64;
                for c in format!("{}", ty).bytes() {
                    h = (h ^ c as u64).wrapping_mul(0x100000001b3);
                }
                Ok(V::I(c64(h as u128)))
            }
            GlobalAlloc::Memory(a) => {
                st.mem.alloc_at(&mut st.f, o, Aff::c(a.bytes.len() as i128), a.align, false, "const");
                let b = self.alloc_bytes(st, &a)?;
                let ro = a.mutability == Mutability::Not;
                let al = st.mem.get(o)?.align;
                st.mem.put(
                    o,
                    Obj { size: Aff::c(b.len() as i128), segs: vec![Seg::B(b)], align: al, heap: false, ro, name: "const".into() },
                );
                Ok(V::P(Base::Obj(o), c64(0)))
            }
            GlobalAlloc::Static(s) => {
                let a = s.eval_initializer().map_err(|e| Ex::Unsup(format!("static {}: {}", s.name(), e)))?;
                st.mem.alloc_at(&mut st.f, o, Aff::c(a.bytes.len() as i128), a.align, false, "static");
                let b = self.alloc_bytes(st, &a)?;
                let al = st.mem.get(o)?.align;
                st.mem.put(
                    o,
                    Obj {
                        size: Aff::c(b.len() as i128),
                        segs: vec![Seg::B(b)],
                        align: al,
                        heap: false,
                        ro: false,
                        name: format!("static {}", s.name()).into(),
                    },
                );
                Ok(V::P(Base::Obj(o), c64(0)))
            }
        }
    }

    pub fn vt(&self, ty: Ty, tr: Option<Binder<ExistentialTraitRef>>) -> u32 {
        let mut v = self.vts.borrow_mut();
        for (i, (t, r)) in v.iter().enumerate() {
            if *t == ty && *r == tr {
                return i as u32;
            }
        }
        v.push((ty, tr));
        v.len() as u32 - 1
    }

    pub fn alloc_bytes(&self, st: &mut State, a: &Allocation) -> R<Bytes> {
        let mut b: Bytes = a
            .bytes
            .iter()
            .map(|x| match x {
                Some(v) => AB::F(Rc::new(V::I(Sc::c(8, *v as u128))), 0),
                None => AB::Uninit,
            })
            .collect();
        for (off, p) in &a.provenance.ptrs {
            let raw = a.read_partial_uint(*off..*off + 8).map_err(|_| us("constant pointer"))?;
            let v = self.global(st, p.0)?;
            let v = self.ptr_add(&st.f, &v, &c64(raw));
            let fr = frag(v, 8);
            for (i, x) in fr.into_iter().enumerate() {
                b[*off + i] = x;
            }
        }
        Ok(b)
    }

    pub fn konst(&self, st: &mut State, c: &MirConst) -> R<Bytes> {
        match c.kind() {
            ConstantKind::ZeroSized => Ok(vec![]),
            ConstantKind::Allocated(a) => self.alloc_bytes(st, a),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(_, a) => self.alloc_bytes(st, a),
                TyConstKind::ZSTValue(_) => Ok(vec![]),
                _ => Err(us("type constant")),
            },
            k => Err(Ex::Unsup(format!("constant {:?}", k))),
        }
    }

    pub fn operand(&self, st: &mut State, o: &Operand) -> R<Bytes> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, p)?;
                let n = self.size(pl.ty)?;
                self.read(st, &pl.ptr, n)
            }
            Operand::Constant(c) => self.konst(st, &c.const_),
            Operand::RuntimeChecks(r) => {
                let v = matches!(r, RuntimeChecks::OverflowChecks);
                Ok(int_bytes(Sc::c(8, v as u128)))
            }
        }
    }

    pub fn op_ty(&self, st: &State, o: &Operand) -> R<Ty> {
        let fr = st.frames.last().unwrap();
        o.ty(fr.body.body.locals()).map_err(|e| Ex::Unsup(format!("operand type {}", e)))
    }

    // ---- enums ----

    pub fn discr_val(&self, ty: Ty, v: usize) -> u128 {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(def, _)) if def.kind() == AdtKind::Enum => {
                def.discriminant_for_variant(VariantIdx::to_val(v)).val
            }
            _ => v as u128,
        }
    }

    fn tag_info(&self, l: &Lay) -> Option<(usize, usize)> {
        if let VariantsShape::Multiple { tag, tag_field, .. } = &l.shape.variants {
            let off = match &l.shape.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                _ => 0,
            };
            let prim = match tag {
                rustc_public::abi::Scalar::Initialized { value, .. } => value,
                rustc_public::abi::Scalar::Union { value } => value,
            };
            let size = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
            Some((off, size))
        } else {
            None
        }
    }

    pub fn set_variant(&self, b: &mut Bytes, ty: Ty, v: usize) -> R<()> {
        let l = self.lay(ty)?;
        if let VariantsShape::Multiple { tag_encoding, .. } = &l.shape.variants {
            let (off, size) = self.tag_info(&l).unwrap();
            let val = match tag_encoding {
                TagEncoding::Direct => self.discr_val(ty, v),
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if v == untagged_variant.to_index() {
                        return Ok(());
                    }
                    niche_start.wrapping_add((v - niche_variants.start().to_index()) as u128)
                }
            };
            let fr = int_bytes(Sc::c((size * 8) as u8, val));
            for (i, x) in fr.into_iter().enumerate() {
                b[off + i] = x;
            }
        }
        Ok(())
    }

    /// Variant index held by a place.
    pub fn variant(&self, st: &State, ptr: &V, ty: Ty) -> R<usize> {
        let l = self.lay(ty)?;
        match &l.shape.variants {
            VariantsShape::Single { index } => Ok(index.to_index()),
            VariantsShape::Empty => Err(Ex::Dead),
            VariantsShape::Multiple { tag_encoding, variants, .. } => {
                let (off, size) = self.tag_info(&l).unwrap();
                let b = self.read(st, &self.ptr_add(&st.f, ptr, &c64(off as u128)), size)?;
                let v = load(&st.f, &b)?;
                let w = (size * 8) as u8;
                match tag_encoding {
                    TagEncoding::Direct => {
                        let s = int_of(&st.f, &v)?;
                        if let Some(c) = st.f.value(&s) {
                            for i in 0..variants.len() {
                                if self.discr_val(ty, i) & mask(w) == c {
                                    return Ok(i);
                                }
                            }
                            return Err(Ex::Ub(format!("invalid enum tag {} for {}", c, ty)));
                        }
                        let vals = (0..variants.len()).map(|i| self.discr_val(ty, i) & mask(w)).collect();
                        Err(Ex::Split(s, vals))
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if let V::P(..) = &v {
                            return Ok(untagged_variant.to_index());
                        }
                        let s = int_of(&st.f, &v)?;
                        let (a, z) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                        if let Some(c) = st.f.value(&s) {
                            let rel = c.wrapping_sub(*niche_start) & mask(w);
                            if rel <= (z - a) as u128 {
                                return Ok(a + rel as usize);
                            }
                            return Ok(untagged_variant.to_index());
                        }
                        for i in a..=z {
                            let c = niche_start.wrapping_add((i - a) as u128) & mask(w);
                            let b = st.f.cmp(Cmp::Eq, &s, &Sc::c(w, c));
                            match st.f.bit_val(b) {
                                Some(true) => return Ok(i),
                                Some(false) => (),
                                None => return Err(Ex::Fork(b)),
                            }
                        }
                        Ok(untagged_variant.to_index())
                    }
                }
            }
        }
    }

    // ---- rvalues ----

    pub fn rvalue(&self, st: &mut State, r: &Rvalue, dty: Ty) -> R<Bytes> {
        match r {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, p)?;
                let n = self.size(pl.ty)?;
                self.read(st, &pl.ptr, n)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let pl = self.place(st, p)?;
                Ok(self.ref_bytes(&pl))
            }
            Rvalue::Len(p) => {
                let pl = self.place(st, p)?;
                Ok(int_bytes(self.len_of(&pl)?))
            }
            Rvalue::Repeat(o, n) => {
                let b = self.operand(st, o)?;
                let n = n.eval_target_usize().map_err(|_| us("repeat count"))? as usize;
                let mut r = Vec::with_capacity(n * b.len());
                for _ in 0..n {
                    r.extend(b.iter().cloned());
                }
                Ok(r)
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, p)?;
                let v = self.variant(st, &pl.ptr, pl.ty)?;
                let d = self.discr_val(pl.ty, v);
                let n = self.size(dty)?;
                Ok(int_bytes(Sc::c((n * 8) as u8, d)))
            }
            Rvalue::Aggregate(k, ops) => {
                let vals = ops.iter().map(|o| self.operand(st, o)).collect::<R<Vec<_>>>()?;
                match k {
                    AggregateKind::RawPtr(..) => {
                        let mut b = vals[0].clone();
                        b.extend(vals[1].iter().cloned());
                        Ok(b)
                    }
                    AggregateKind::Array(_) => Ok(vals.concat()),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        let n = self.size(dty)?;
                        let mut b = vec![AB::Uninit; n];
                        if let Some(_f) = active {
                            for (i, x) in vals[0].iter().enumerate() {
                                b[i] = x.clone();
                            }
                            return Ok(b);
                        }
                        let v = v.to_index();
                        for (i, x) in vals.into_iter().enumerate() {
                            if x.is_empty() {
                                continue;
                            }
                            let off = self.field_off(dty, Some(v), i)?;
                            for (j, y) in x.into_iter().enumerate() {
                                b[off + j] = y;
                            }
                        }
                        self.set_variant(&mut b, dty, v)?;
                        Ok(b)
                    }
                    _ => {
                        let n = self.size(dty)?;
                        let mut b = vec![AB::Uninit; n];
                        for (i, x) in vals.into_iter().enumerate() {
                            if x.is_empty() {
                                continue;
                            }
                            let off = self.field_off(dty, None, i)?;
                            for (j, y) in x.into_iter().enumerate() {
                                b[off + j] = y;
                            }
                        }
                        Ok(b)
                    }
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = self.op_ty(st, o)?;
                let b = self.operand(st, o)?;
                match op {
                    UnOp::PtrMetadata => Ok(b.get(8..).map(|x| x.to_vec()).unwrap_or_default()),
                    UnOp::Not => {
                        let s = self.int(&st.f, &b)?;
                        if ty.kind().is_bool() {
                            let bit = st.f.to_bits(&s)[0];
                            return Ok(int_bytes(Sc::boolean(bit.neg())));
                        }
                        Ok(int_bytes(st.f.not(&s)))
                    }
                    UnOp::Neg => {
                        let s = self.int(&st.f, &b)?;
                        Ok(int_bytes(st.f.sub(&Sc::c(s.w, 0), &s)))
                    }
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ta = self.op_ty(st, a)?;
                let tb = self.op_ty(st, b)?;
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                self.binop(st, *op, &x, ta, &y, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = self.op_ty(st, a)?;
                let tb = self.op_ty(st, b)?;
                let x = self.operand(st, a)?;
                let y = self.operand(st, b)?;
                let (p, q) = (self.int(&st.f, &x)?, self.int(&st.f, &y)?);
                let (v, o) = self.checked(&st.f, *op, &p, &q, ta, tb)?;
                let n = self.size(dty)?;
                let mut r = vec![AB::Uninit; n];
                let vb = int_bytes(v);
                let off = vb.len();
                for (i, x) in vb.into_iter().enumerate() {
                    r[i] = x;
                }
                r[off] = int_bytes(Sc::boolean(o))[0].clone();
                Ok(r)
            }
            Rvalue::Cast(k, o, to) => {
                let from = self.op_ty(st, o)?;
                let b = self.operand(st, o)?;
                self.cast(st, *k, b, from, *to)
            }
            Rvalue::ThreadLocalRef(_) => Err(us("thread local")),
        }
    }

    pub fn checked(&self, f: &Facts, op: BinOp, p: &Sc, q: &Sc, ta: Ty, tb: Ty) -> R<(Sc, Bit)> {
        let (_, sg) = self.int_info(ta).ok_or_else(|| us("checked op type"))?;
        let w = p.w;
        match op {
            BinOp::Add | BinOp::AddUnchecked => {
                let v = f.add(p, q);
                let o = if sg { self.sovf(f, p, q, &v, false)? } else { f.uadd_ovf(p, q) };
                Ok((v, o))
            }
            BinOp::Sub | BinOp::SubUnchecked => {
                let v = f.sub(p, q);
                let o = if sg { self.sovf(f, p, q, &v, true)? } else { f.cmp(Cmp::Ltu, p, q) };
                Ok((v, o))
            }
            BinOp::Mul | BinOp::MulUnchecked => {
                if let (Some(a), Some(b)) = (f.value(p), f.value(q)) {
                    if sg {
                        let (a, b) = (sx(a, w), sx(b, w));
                        let r = a.checked_mul(b);
                        let o = match r {
                            Some(v) => sx(v as u128 & mask(w), w) != v,
                            None => true,
                        };
                        return Ok((Sc::c(w, a.wrapping_mul(b) as u128), Bit::C(o)));
                    }
                }
                let v = f.mul(p, q);
                if sg {
                    let (_, h1) = f.range(p);
                    let (_, h2) = f.range(q);
                    if h1.checked_mul(h2).map_or(false, |x| x <= mask(w - 1)) {
                        return Ok((v, Bit::C(false)));
                    }
                    return Ok((v, Bit::S(atom(1, Def::Op("smul_ovf", vec![p.clone(), q.clone()])), 0, false)));
                }
                Ok((v, f.umul_ovf(p, q)))
            }
            BinOp::Shl | BinOp::Shr => {
                let _ = tb;
                let lim = f.cmp(Cmp::Ltu, q, &Sc::c(q.w, w as u128));
                let n = f.value(q).ok_or_else(|| us("symbolic shift"))?;
                let n = (n % w as u128) as u8;
                let v = if op == BinOp::Shl { f.shl(p, n) } else { f.shr(p, n, sg) };
                Ok((v, lim.neg()))
            }
            _ => Err(us("checked op")),
        }
    }

    /// Signed overflow of add/sub: operands' and result's sign bits.
    fn sovf(&self, f: &Facts, p: &Sc, q: &Sc, v: &Sc, sub: bool) -> R<Bit> {
        let (a, b) = (f.sign(p), f.sign(q));
        let b = if sub { b.neg() } else { b };
        let (va, vb) = (f.bit_val(a), f.bit_val(b));
        match (va, vb) {
            (Some(x), Some(y)) if x != y => Ok(Bit::C(false)),
            (Some(x), Some(_)) => {
                let (pl, ph) = f.range(p);
                let (ql, qh) = f.range(q);
                let w = p.w;
                let (pl, ph) = (sx(pl, w), sx(ph, w));
                let (ql, qh) = (sx(ql, w), sx(qh, w));
                if let (Some(lo), Some(hi)) =
                    (if sub { pl.checked_sub(qh) } else { pl.checked_add(ql) }, if sub { ph.checked_sub(ql) } else { ph.checked_add(qh) })
                {
                    let max = (mask(w) >> 1) as i128;
                    let min = -max - 1;
                    if lo >= min && hi <= max {
                        return Ok(Bit::C(false));
                    }
                    if lo > max || hi < min {
                        return Ok(Bit::C(true));
                    }
                }
                let s = f.sign(v);
                Ok(if x { s.neg() } else { s })
            }
            (None, _) => Err(Ex::Fork(a)),
            (_, None) => Err(Ex::Fork(b)),
        }
    }

    pub fn binop(&self, st: &mut State, op: BinOp, x: &Bytes, ta: Ty, y: &Bytes, tb: Ty) -> R<Bytes> {
        let f = &st.f;
        if x.len() == 16 && self.pointee(ta).is_some() {
            // fat pointers: compare addresses, then metadata
            let a = self.ptr_cmp(f, op, &load(f, &x[..8])?, &load(f, &y[..8])?)?;
            if matches!(op, BinOp::Eq | BinOp::Ne) {
                let (m, n) = (load(f, &x[8..])?, load(f, &y[8..])?);
                let e = match (&m, &n) {
                    (V::I(m), V::I(n)) => f.cmp(Cmp::Eq, m, n),
                    _ => Bit::C(m == n),
                };
                let r = if op == BinOp::Eq { f.bit1(0, a, e) } else { f.bit1(1, a, e.neg()) };
                return Ok(int_bytes(Sc::boolean(r)));
            }
            return Ok(int_bytes(Sc::boolean(a)));
        }
        if x.is_empty() {
            // unit-like
            let r = matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge);
            return Ok(int_bytes(Sc::c(8, r as u128)));
        }
        let (u, v) = (load(f, x)?, load(f, y)?);
        if op == BinOp::Offset {
            let to = self.pointee(ta).ok_or_else(|| us("offset"))?;
            let n = int_of(f, &v)?;
            let es = self.size(to)?;
            let off = f.mul(&n, &c64(es as u128));
            return Ok(frag(self.ptr_add(f, &u, &off), 8));
        }
        if matches!(u, V::P(..)) || matches!(v, V::P(..)) {
            if self.pointee(ta).is_some() || matches!(op, BinOp::Eq | BinOp::Ne) || self.int_info(ta).is_none() {
                let b = self.ptr_cmp(f, op, &u, &v)?;
                return Ok(int_bytes(Sc::boolean(b)));
            }
        }
        let (p, q) = (int_of(f, &u)?, int_of(f, &v)?);
        let (_, sg) = self.int_info(ta).unwrap_or((p.w, false));
        let _ = tb;
        let b = |b: Bit| Ok(int_bytes(Sc::boolean(b)));
        let lt = |p: &Sc, q: &Sc| -> R<Bit> {
            if sg {
                f.lts(p, q)
            } else {
                Ok(f.cmp(Cmp::Ltu, p, q))
            }
        };
        match op {
            BinOp::Add => Ok(int_bytes(f.add(&p, &q))),
            BinOp::Sub => Ok(int_bytes(f.sub(&p, &q))),
            BinOp::Mul => Ok(int_bytes(f.mul(&p, &q))),
            BinOp::AddUnchecked | BinOp::SubUnchecked | BinOp::MulUnchecked => {
                let (v, o) = self.checked(f, op, &p, &q, ta, tb)?;
                match f.bit_val(o) {
                    Some(false) => Ok(int_bytes(v)),
                    Some(true) => Err(Ex::Ub("overflow in unchecked arithmetic".into())),
                    None => Err(Ex::Fork(o)),
                }
            }
            BinOp::BitAnd => Ok(int_bytes(f.bitop(0, &p, &q))),
            BinOp::BitOr => Ok(int_bytes(f.bitop(1, &p, &q))),
            BinOp::BitXor => Ok(int_bytes(f.bitop(2, &p, &q))),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let n = match f.value(&q) {
                    Some(n) => n,
                    None => match f.values(&q, 130) {
                        Some(v) => return Err(Ex::Split(q.clone(), v)),
                        None => return Err(us("symbolic shift amount")),
                    },
                };
                let n = (n % p.w as u128) as u8;
                Ok(int_bytes(if matches!(op, BinOp::Shl | BinOp::ShlUnchecked) { f.shl(&p, n) } else { f.shr(&p, n, sg) }))
            }
            BinOp::Eq => b(f.cmp(Cmp::Eq, &p, &q)),
            BinOp::Ne => b(f.cmp(Cmp::Eq, &p, &q).neg()),
            BinOp::Lt => b(lt(&p, &q)?),
            BinOp::Gt => b(lt(&q, &p)?),
            BinOp::Le => b(lt(&q, &p)?.neg()),
            BinOp::Ge => b(lt(&p, &q)?.neg()),
            BinOp::Cmp => {
                let e = f.cmp(Cmp::Eq, &p, &q);
                match f.bit_val(e) {
                    None => return Err(Ex::Fork(e)),
                    Some(true) => return Ok(int_bytes(Sc::c(8, 0))),
                    _ => (),
                }
                let l = lt(&p, &q)?;
                match f.bit_val(l) {
                    None => Err(Ex::Fork(l)),
                    Some(true) => Ok(int_bytes(Sc::c(8, 0xff))),
                    Some(false) => Ok(int_bytes(Sc::c(8, 1))),
                }
            }
            BinOp::Div | BinOp::Rem => {
                if let (Some(a), Some(c)) = (f.value(&p), f.value(&q)) {
                    if c == 0 {
                        return Err(Ex::Ub("division by zero".into()));
                    }
                    let r = if sg {
                        let (a, c) = (sx(a, p.w), sx(c, p.w));
                        (if op == BinOp::Div { a.wrapping_div(c) } else { a.wrapping_rem(c) }) as u128
                    } else if op == BinOp::Div {
                        a / c
                    } else {
                        a % c
                    };
                    return Ok(int_bytes(Sc::c(p.w, r)));
                }
                let nonneg = !sg || (f.sign(&p) == Bit::C(false) && f.sign(&q) == Bit::C(false));
                if let (Some(c), true) = (f.value(&q), nonneg) {
                    if c.is_power_of_two() {
                        let n = c.trailing_zeros() as u8;
                        return Ok(int_bytes(if op == BinOp::Div {
                            f.shr(&p, n, false)
                        } else {
                            f.bitop(0, &p, &Sc::c(p.w, c - 1))
                        }));
                    }
                }
                if let Some(vals) = f.values(&p, 300) {
                    if f.value(&p).is_none() {
                        return Err(Ex::Split(p.clone(), vals));
                    }
                }
                if nonneg {
                    let n = if op == BinOp::Div { "udiv" } else { "urem" };
                    return Ok(int_bytes(Sc::of_atom(p.w, atom(p.w, Def::Op(n, vec![p.clone(), q.clone()])))));
                }
                Err(us("signed division"))
            }
            BinOp::Offset => unreachable!(),
        }
    }

    pub fn ptr_cmp(&self, f: &Facts, op: BinOp, u: &V, v: &V) -> R<Bit> {
        let r = match (u, v) {
            (V::P(a, p), V::P(b, q)) if a == b => match op {
                BinOp::Eq => f.cmp(Cmp::Eq, p, q),
                BinOp::Ne => f.cmp(Cmp::Eq, p, q).neg(),
                BinOp::Lt => f.lts(p, q)?,
                BinOp::Gt => f.lts(q, p)?,
                BinOp::Le => f.lts(q, p)?.neg(),
                BinOp::Ge => f.lts(p, q)?.neg(),
                _ => return Err(us("pointer op")),
            },
            (V::I(p), V::I(q)) => match op {
                BinOp::Eq => f.cmp(Cmp::Eq, p, q),
                BinOp::Ne => f.cmp(Cmp::Eq, p, q).neg(),
                BinOp::Lt => f.cmp(Cmp::Ltu, p, q),
                BinOp::Gt => f.cmp(Cmp::Ltu, q, p),
                BinOp::Le => f.cmp(Cmp::Ltu, q, p).neg(),
                BinOp::Ge => f.cmp(Cmp::Ltu, p, q).neg(),
                _ => return Err(us("pointer op")),
            },
            _ => match op {
                BinOp::Eq => Bit::C(false),
                BinOp::Ne => Bit::C(true),
                _ => {
                    let (p, q) = (int_of(f, u)?, int_of(f, v)?);
                    return self.ptr_cmp(f, op, &V::I(p), &V::I(q));
                }
            },
        };
        Ok(r)
    }

    pub fn cast(&self, st: &mut State, k: CastKind, b: Bytes, from: Ty, to: Ty) -> R<Bytes> {
        match k {
            CastKind::IntToInt => {
                let (fw, sg) = self.int_info(from).ok_or_else(|| us("cast from"))?;
                let (tw, _) = self.int_info(to).ok_or_else(|| us("cast to"))?;
                let s = self.int(&st.f, &b)?;
                let s = if let (TyKind::RigidTy(RigidTy::Adt(..)), true) = (from.kind(), s.w == fw) {
                    // field-less enum: use the discriminant
                    s
                } else {
                    s
                };
                let r = if tw <= s.w {
                    st.f.trunc(&s, tw)
                } else if sg {
                    st.f.sext(&s, tw)
                } else {
                    st.f.zext(&s, tw)
                };
                Ok(int_bytes(r))
            }
            CastKind::PtrToPtr => {
                let n = self.size(to)?;
                Ok(b[..n].to_vec())
            }
            CastKind::FnPtrToPtr | CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                let n = self.size(to)?;
                if n != b.len() {
                    return Err(Ex::Unsup(format!("transmute {} -> {}", from, to)));
                }
                Ok(b)
            }
            CastKind::PointerExposeAddress => {
                let v = load(&st.f, &b[..8])?;
                Ok(int_bytes(int_of(&st.f, &v)?))
            }
            CastKind::PointerWithExposedProvenance => {
                let s = self.int(&st.f, &b)?;
                if let Some((o, off)) = self.reprov(&st.f, &s) {
                    return Ok(frag(V::P(Base::Obj(o), off), 8));
                }
                Ok(frag(V::I(s), 8))
            }
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, args)) => {
                        let i = Instance::resolve_for_fn_ptr(d, &args).map_err(|_| us("reify"))?;
                        Ok(frag(V::P(Base::Fn(i), c64(0)), 8))
                    }
                    _ => Err(us("reify")),
                },
                PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, args)) => {
                        let i = Instance::resolve_closure(d, &args, ClosureKind::FnOnce).map_err(|_| us("closure ptr"))?;
                        Ok(frag(V::P(Base::Fn(i), c64(0)), 8))
                    }
                    _ => Err(us("closure pointer")),
                },
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => Ok(b),
                PointerCoercion::Unsize => {
                    if from == to {
                        return Ok(b);
                    }
                    let (fp, tp) = self.unsize_tys(from, to)?;
                    match (fp.kind(), self.tail(tp)?) {
                        (_, Tail::Slice(_)) => {
                            // find array length at the tail
                            let n = self.array_tail(fp)?;
                            let mut r = b[..8].to_vec();
                            r.extend(int_bytes(c64(n as u128)));
                            Ok(r)
                        }
                        (_, Tail::Dyn) => {
                            if b.len() == 16 {
                                return Ok(b);
                            }
                            let tr = match self.tail_ty(tp)?.kind().trait_principal() {
                                Some(t) => Some(t),
                                None => None,
                            };
                            let src = self.tail_src(fp, tp)?;
                            let v = self.vt(src, tr);
                            let mut r = b[..8].to_vec();
                            r.extend(frag(V::P(Base::Vt(v), c64(0)), 8));
                            Ok(r)
                        }
                        _ => Err(Ex::Unsup(format!("unsize {} -> {}", from, to))),
                    }
                }
            },
            k => Err(Ex::Unsup(format!("cast {:?}", k))),
        }
    }

    fn unsize_tys(&self, from: Ty, to: Ty) -> R<(Ty, Ty)> {
        if let (Some(a), Some(b)) = (self.pointee(from), self.pointee(to)) {
            return Ok((a, b));
        }
        // smart pointers: descend into the field that changes
        if let (TyKind::RigidTy(RigidTy::Adt(d, a1)), TyKind::RigidTy(RigidTy::Adt(_, a2))) = (from.kind(), to.kind()) {
            for f in d.variants()[0].fields() {
                let (x, y) = (f.ty_with_args(&a1), f.ty_with_args(&a2));
                if x != y {
                    if self.size(x).unwrap_or(0) == 0 {
                        continue;
                    }
                    return self.unsize_tys(x, y);
                }
            }
        }
        Err(Ex::Unsup(format!("unsize {} -> {}", from, to)))
    }

    fn array_tail(&self, t: Ty) -> R<u64> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().map_err(|_| us("array len")),
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let fs = d.variants()[0].fields();
                self.array_tail(fs.last().ok_or_else(|| us("tail"))?.ty_with_args(&a))
            }
            _ => Err(us("array tail")),
        }
    }

    fn tail_ty(&self, t: Ty) -> R<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let fs = d.variants()[0].fields();
                self.tail_ty(fs.last().ok_or_else(|| us("tail"))?.ty_with_args(&a))
            }
            _ => Ok(t),
        }
    }

    fn tail_src(&self, from: Ty, to: Ty) -> R<Ty> {
        match (from.kind(), to.kind()) {
            (TyKind::RigidTy(RigidTy::Adt(d, a)), TyKind::RigidTy(RigidTy::Adt(e, b))) if d == e => {
                let (f, g) = (d.variants()[0].fields(), e.variants()[0].fields());
                self.tail_src(f.last().unwrap().ty_with_args(&a), g.last().unwrap().ty_with_args(&b))
            }
            _ => Ok(from),
        }
    }

    pub fn size_of_val(&self, st: &State, ty: Ty, meta: Option<&V>) -> R<(Sc, u64)> {
        match self.tail(ty)? {
            Tail::Sized => {
                let l = self.lay(ty)?;
                Ok((c64(l.size as u128), l.align))
            }
            Tail::Slice(e) => {
                let n = match meta {
                    Some(V::I(s)) => s.clone(),
                    _ => return Err(us("size_of_val meta")),
                };
                let es = self.size(e)?;
                let l = self.lay(ty)?;
                let pre = if ty.kind().is_slice() || ty.kind().is_str() { 0 } else { self.unsized_prefix(ty)? };
                let body = st.f.mul(&n, &c64(es as u128));
                let tot = st.f.add(&body, &c64(pre as u128));
                if l.align > 1 && (pre as u64 % l.align != 0 || es as u64 % l.align != 0) {
                    if let Some(v) = st.f.value(&tot) {
                        let a = l.align as u128;
                        return Ok((c64((v + a - 1) / a * a), l.align));
                    }
                    return Err(us("size_of_val align"));
                }
                Ok((tot, l.align))
            }
            Tail::Dyn => match meta {
                Some(V::P(Base::Vt(v), _)) => {
                    let t = self.vts.borrow()[*v as usize].0;
                    let l = self.lay(t)?;
                    if ty.kind().is_trait() {
                        return Ok((c64(l.size as u128), l.align));
                    }
                    let pre = self.unsized_prefix(ty)? as u64;
                    let al = l.align.max(self.lay(ty)?.align);
                    let off = (pre + l.align - 1) / l.align * l.align;
                    let tot = (off + l.size as u64 + al - 1) / al * al;
                    Ok((c64(tot as u128), al))
                }
                _ => Err(us("size_of_val dyn")),
            },
        }
    }

    fn unsized_prefix(&self, ty: Ty) -> R<usize> {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Slice(_)) | TyKind::RigidTy(RigidTy::Str) | TyKind::RigidTy(RigidTy::Dynamic(..)) => Ok(0),
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let fs = d.variants()[0].fields();
                let i = fs.len() - 1;
                let off = self.field_off(ty, None, i)?;
                Ok(off + self.unsized_prefix(fs[i].ty_with_args(&a))?)
            }
            _ => Err(us("unsized prefix")),
        }
    }

    // ---- control ----

    fn stmt(&self, st: &mut State, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let fr = st.frames.last().unwrap().body.clone();
                let dty = p.ty(fr.body.locals()).map_err(|_| us("place type"))?;
                let b = self.rvalue(st, r, dty)?;
                let pl = self.place(st, p)?;
                self.write(st, &pl.ptr, b)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(st, place)?;
                let n = self.size(pl.ty)?;
                let mut b = self.read(st, &pl.ptr, n)?;
                self.set_variant(&mut b, pl.ty, variant_index.to_index())?;
                self.write(st, &pl.ptr, b)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let k = st.frames.len() - 1;
                let o = st.frames[k].locals[*l];
                if o != 0 {
                    st.mem.free(o);
                    st.frames[k].locals[*l] = 0;
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let b = self.operand(st, o)?;
                let s = self.int(&st.f, &b)?;
                let bit = st.f.to_bits(&s)[0];
                match st.f.bit_val(bit) {
                    Some(true) => Ok(()),
                    Some(false) => Err(Ex::Ub("assume(false)".into())),
                    None => Err(Ex::Fork(bit)),
                }
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let t = self.op_ty(st, &c.src)?;
                let e = self.pointee(t).ok_or_else(|| us("copy"))?;
                let es = self.size(e)?;
                let s = self.operand(st, &c.src)?;
                let d = self.operand(st, &c.dst)?;
                let n = self.operand(st, &c.count)?;
                let n = self.int(&st.f, &n)?;
                let len = st.f.mul(&n, &c64(es as u128));
                let (s, d) = (load(&st.f, &s)?, load(&st.f, &d)?);
                self.copy(st, &s, &d, &len)
            }
            _ => Ok(()),
        }
    }

    /// The value made by a tuple struct or tuple variant used as a function.
    fn constructor(&self, inst: Instance, args: &[Bytes]) -> Option<Bytes> {
        let ty = inst.fn_abi().ok()?.ret.ty;
        let (def, _) = match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => (d, a),
            _ => return None,
        };
        let name = inst.trimmed_name();
        let name = name.split("::<").next()?.rsplit("::").next()?.to_string();
        let full = inst.name();
        let last = full.rsplit("::").find(|x| !x.starts_with('<') && !x.contains('>'))?.to_string();
        let vs = def.variants();
        let v = vs.iter().position(|v| v.fields().len() == args.len() && (v.name() == last || v.name() == name))?;
        let mut b = vec![AB::Uninit; self.size(ty).ok()?];
        for (i, x) in args.iter().enumerate() {
            if x.is_empty() {
                continue;
            }
            let off = self.field_off(ty, Some(v), i).ok()?;
            for (j, y) in x.iter().enumerate() {
                b[off + j] = y.clone();
            }
        }
        self.set_variant(&mut b, ty, v).ok()?;
        Some(b)
    }

    /// Analyse a call. Every returned pair is a state at the return point with the returned octets.
    pub fn run_fn(&self, mut st: State, inst: Instance, args: Vec<Bytes>) -> Vec<(State, Bytes)> {
        let fi = match self.info(inst) {
            Some(b) => b,
            None => {
                if let Some(b) = self.constructor(inst, &args) {
                    return vec![(st, b)];
                }
                self.note_unsup(&st, &format!("no MIR for {}", inst.name()));
                return vec![];
            }
        };
        if st.frames.len() > st.depth_limit() {
            self.report(&st, "recursion", "calls do not nest as deeply as the input", "the call stack grows with the input");
            return vec![];
        }
        if st.frames.len() > 3000 {
            self.note_unsup(&st, "call depth");
            return vec![];
        }
        if fi.loc == Loc::Repo {
            self.stats.borrow_mut().functions.insert(fi.name.clone());
        }
        let nl = fi.body.locals().len();
        st.frames.push(Frame { inst, body: fi.clone(), locals: vec![0; nl], bb: 0, st: 0 });
        // arguments
        let na = fi.body.arg_locals().len();
        let mut args = args;
        if let Some(sp) = fi.body.spread_arg() {
            if args.len() != na {
                // collect the trailing arguments into the tuple
                let rest = args.split_off(sp - 1);
                let ty = fi.body.locals()[sp].ty;
                let mut b = vec![AB::Uninit; self.size(ty).unwrap_or(0)];
                for (i, x) in rest.into_iter().enumerate() {
                    let off = self.field_off(ty, None, i).unwrap_or(0);
                    for (j, y) in x.into_iter().enumerate() {
                        b[off + j] = y;
                    }
                }
                args.push(b);
            }
        } else if args.len() != na && args.len() >= 1 {
            // closure body called through the Fn traits: spread the tuple
            let last = args.pop().unwrap();
            let k = args.len();
            let mut tys = vec![];
            for i in k..na {
                tys.push(fi.body.locals()[1 + i].ty);
            }
            let tt = Ty::new_tuple(&tys);
            for i in 0..tys.len() {
                let off = self.field_off(tt, None, i).unwrap_or(0);
                let n = self.size(tys[i]).unwrap_or(0);
                args.push(last[off..off + n].to_vec());
            }
        }
        for (i, a) in args.into_iter().enumerate() {
            let o = match self.local_obj(&mut st, i + 1) {
                Ok(o) => o,
                Err(_) => {
                    self.note_unsup(&st, "argument");
                    return vec![];
                }
            };
            if let Err(e) = self.write(&mut st, &V::P(Base::Obj(o), c64(0)), a) {
                self.note_unsup(&st, &format!("argument {:?}", e));
                return vec![];
            }
        }
        let mut out: Vec<(State, Bytes)> = vec![];
        let mut work: BTreeMap<usize, Vec<(usize, usize, State)>> = BTreeMap::new();
        work.entry(0).or_default().push((0, 0, st));
        let mut visits: HashMap<usize, usize> = HashMap::new();
        while let Some((&r, _)) = work.iter().next() {
            let mut items = work.remove(&r).unwrap();
            if items.len() > 1 {
                items = self.join_items(items);
            }
            for (bb, i, st) in items {
                if i == 0 {
                    let v = visits.entry(bb).or_insert(0);
                    *v += 1;
                    if *v > 200_000 {
                        self.note_unsup(&st, "iteration limit");
                        continue;
                    }
                }
                // partitions made by a step go through that step before anything is joined
                let mut todo = vec![(i, st)];
                while let Some((i, st)) = todo.pop() {
                    self.block(&fi, bb, i, st, &mut todo, &mut work, &mut out);
                    let n = self.steps.get() + 1;
                    self.steps.set(n);
                    if n > self.max_steps || (n % 256 == 0 && self.start.elapsed().as_secs() > self.max_secs) {
                        self.unsup.borrow_mut().insert("step limit".into(), 1);
                        return vec![];
                    }
                }
            }
        }
        if out.len() > 1 {
            out = self.join_returns(out);
        }
        out
    }

    fn block(
        &self,
        fi: &Rc<FnInfo>,
        bb: usize,
        start: usize,
        mut st: State,
        todo: &mut Vec<(usize, State)>,
        work: &mut BTreeMap<usize, Vec<(usize, usize, State)>>,
        out: &mut Vec<(State, Bytes)>,
    ) {
        let blk = &fi.body.blocks[bb];
        self.stats.borrow_mut().blocks += 1;
        let mut i = start;
        let top = st.frames.len() - 1;
        st.frames[top].bb = bb;
        while i < blk.statements.len() {
            st.frames[top].st = i;
            self.stats.borrow_mut().statements += 1;
            if let Err(e) = self.stmt(&mut st, &blk.statements[i]) {
                self.exception(i, st, e, todo);
                return;
            }
            i += 1;
        }
        st.frames[top].st = i;
        match self.term(fi, bb, &mut st, &blk.terminator) {
            Err(e) => self.exception(i, st, e, todo),
            Ok(Next::Goto(t)) => work.entry(fi.rpo[t]).or_default().push((t, 0, st)),
            Ok(Next::Branch(v)) => {
                for (t, s) in v {
                    work.entry(fi.rpo[t]).or_default().push((t, 0, s));
                }
            }
            Ok(Next::Return(b)) => {
                let fr = st.frames.pop().unwrap();
                for o in fr.locals {
                    if o != 0 {
                        st.mem.free(o);
                    }
                }
                out.push((st, b));
            }
            Ok(Next::Stop) => (),
        }
    }

    fn site(&self, fi: &Rc<FnInfo>, bb: usize) -> (String, usize) {
        fi.term_sites[bb]
            .get_or_init(|| {
                let sp = fi.body.blocks[bb].terminator.source_info.span;
                (self.span_str(sp), bb)
            })
            .clone()
    }

    pub fn push_trace(&self, st: &mut State, what: String) {
        st.trace = Some(Rc::new(TraceNode { site: what, prev: st.trace.take() }));
    }

    fn repo_site(&self, st: &State) -> Option<String> {
        for k in (0..st.frames.len()).rev() {
            let fr = &st.frames[k];
            if fr.body.loc == Loc::Repo {
                return Some(format!("{} ({})", self.span_str(self.cur_span(st, k)), fr.body.name));
            }
        }
        None
    }

    fn exception(
        &self,
        i: usize,
        st: State,
        e: Ex,
        todo: &mut Vec<(usize, State)>,
    ) {
        match e {
            Ex::Fork(b) => {
                self.stats.borrow_mut().partitions += 1;
                if self.verbose && self.stats.borrow().partitions > 100000 && self.stats.borrow().partitions < 100100 {
                    eprintln!("fork {} {:?} at {:?}", show_bit(b), b, self.repo_site(&st));
                }
                let site = self.repo_site(&st);
                for v in [true, false] {
                    let mut s = st.clone();
                    if s.f.assume(b, v) {
                        if s.f.bit_val(b) != Some(v) {
                            self.note_unsup(&s, "partition did not refine");
                            return;
                        }
                        if let Some(x) = &site {
                            self.push_trace(&mut s, format!("{}: {} = {}", x, show_bit(b), v));
                        }
                        todo.push((i, s));
                    }
                }
            }
            Ex::Split(sc, vals) => {
                self.stats.borrow_mut().partitions += 1;
                if self.verbose && self.stats.borrow().partitions > 100000 && self.stats.borrow().partitions < 100020 {
                    eprintln!("split {} {:?} {:?} at {:?}", show(&sc), vals, sc, self.repo_site(&st));
                }
                if vals.len() > 1100 {
                    self.note_unsup(&st, "split too wide");
                    return;
                }
                let site = self.repo_site(&st);
                for v in vals {
                    let mut s = st.clone();
                    if s.f.assume_eq(&sc, v) {
                        if s.f.value(&sc) != Some(v) {
                            self.note_unsup(&s, "split did not refine");
                            return;
                        }
                        if let Some(x) = &site {
                            self.push_trace(&mut s, format!("{}: value = {}", x, v));
                        }
                        todo.push((i, s));
                    }
                }
            }
            Ex::Ub(m) => self.report(&st, "memory", "memory-safety", &m),
            Ex::Panic(_) if st.regs.contains_key("panics_allowed") => (),
            Ex::Panic(m) => self.report(&st, "panic", "no-panic", &m),
            Ex::Unsup(m) => self.note_unsup(&st, &m),
            Ex::Dead => (),
        }
    }

    fn term(&self, fi: &Rc<FnInfo>, bb: usize, st: &mut State, t: &Terminator) -> R<Next> {
        match &t.kind {
            TerminatorKind::Goto { target } => Ok(Next::Goto(*target)),
            TerminatorKind::Return => {
                let ty = fi.body.locals()[0].ty;
                let n = self.size(ty)?;
                let o = self.local_obj(st, 0)?;
                let b = self.read(st, &V::P(Base::Obj(o), c64(0)), n)?;
                Ok(Next::Return(b))
            }
            TerminatorKind::Unreachable => Err(Ex::Ub("unreachable code reached".into())),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(Next::Stop),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b = self.operand(st, discr)?;
                let s = self.int(&st.f, &b)?;
                if let Some(v) = st.f.value(&s) {
                    for (x, t) in targets.branches() {
                        if x & mask(s.w) == v {
                            return Ok(Next::Goto(t));
                        }
                    }
                    return Ok(Next::Goto(targets.otherwise()));
                }
                self.stats.borrow_mut().partitions += 1;
                let site = if fi.loc == Loc::Repo { Some(self.site(fi, bb).0) } else { None };
                let mut out = vec![];
                let mut rest = Some(st.clone());
                for (x, t) in targets.branches() {
                    let cur = match &rest {
                        Some(r) => r.clone(),
                        None => break,
                    };
                    let bit = cur.f.cmp(Cmp::Eq, &s, &Sc::c(s.w, x));
                    let mut a = cur.clone();
                    if a.f.assume(bit, true) {
                        if let Some(x2) = &site {
                            self.push_trace(&mut a, format!("{} ({}): {} is {}", x2, fi.name, show(&s), x));
                        }
                        out.push((t, a));
                    }
                    let mut n = cur;
                    rest = if n.f.assume(bit, false) { Some(n) } else { None };
                }
                if let Some(mut n) = rest {
                    if let Some(x2) = &site {
                        self.push_trace(&mut n, format!("{} ({}): {} otherwise", x2, fi.name, show(&s)));
                    }
                    out.push((targets.otherwise(), n));
                }
                Ok(Next::Branch(out))
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let b = self.operand(st, cond)?;
                let s = self.int(&st.f, &b)?;
                self.stats.borrow_mut().arith_obligations += 1;
                let bit = st.f.to_bits(&s)[0];
                match st.f.bit_val(bit) {
                    Some(v) if v == *expected => Ok(Next::Goto(*target)),
                    Some(_) => Err(Ex::Panic(assert_msg(msg))),
                    None => Err(Ex::Fork(bit)),
                }
            }
            TerminatorKind::Drop { place, target, .. } => {
                let pl = self.place(st, place)?;
                let r = self.drop_place(st.clone(), &pl)?;
                Ok(Next::Branch(r.into_iter().map(|s| (*target, s)).collect()))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.op_ty(st, func)?;
                let mut argv = vec![];
                let mut argt = vec![];
                for a in args {
                    argt.push(self.op_ty(st, a)?);
                    argv.push(self.operand(st, a)?);
                }
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                        Instance::resolve(d, &ga).map_err(|e| Ex::Unsup(format!("resolve {}: {}", d.name(), e)))?
                    }
                    TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                        let b = self.operand(st, func)?;
                        match load(&st.f, &b)? {
                            V::P(Base::Fn(i), _) => i,
                            _ => return Err(us("call through unknown function pointer")),
                        }
                    }
                    _ => return Err(us("callee")),
                };
                if fi.loc == Loc::Repo {
                    let s = self.site(fi, bb);
                    self.stats.borrow_mut().call_sites.insert(format!("{}#{} {}", fi.name, s.1, inst.name()));
                }
                let rets = self.call(st, inst, argv, &argt)?;
                let mut out = vec![];
                for (mut s, b) in rets {
                    match target {
                        None => (),
                        Some(t) => {
                            let pl = match self.place(&mut s, destination) {
                                Ok(p) => p,
                                Err(e) => {
                                    self.note_unsup(&s, &format!("destination {:?}", e));
                                    continue;
                                }
                            };
                            if let Err(e) = self.write(&mut s, &pl.ptr, b) {
                                match e {
                                    Ex::Ub(m) => self.report(&s, "memory", "memory-safety", &m),
                                    e => self.note_unsup(&s, &format!("destination {:?}", e)),
                                }
                                continue;
                            }
                            out.push((*t, s));
                        }
                    }
                }
                Ok(Next::Branch(out))
            }
            TerminatorKind::InlineAsm { .. } => Err(us("inline asm")),
        }
    }

    pub fn drop_place(&self, st: State, pl: &Pl) -> R<Vec<State>> {
        let mut ty = pl.ty;
        let mut ptr = self.ref_bytes(pl);
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = ty.kind() {
            match &pl.meta {
                Some(V::P(Base::Vt(v), _)) => {
                    ty = self.vts.borrow()[*v as usize].0;
                    ptr.truncate(8);
                }
                _ => return Err(us("drop of dyn")),
            }
        }
        let inst = Instance::resolve_drop_in_place(ty);
        if inst.is_empty_shim() {
            return Ok(vec![st]);
        }
        let mut st = st;
        let t = Ty::new_ptr(ty, Mutability::Mut);
        let r = self.call(&mut st, inst, vec![ptr], &[t])?;
        Ok(r.into_iter().map(|x| x.0).collect())
    }

    /// `st` is left as it was when an exception is returned.
    pub fn call(&self, st: &mut State, inst: Instance, args: Vec<Bytes>, argt: &[Ty]) -> R<Vec<(State, Bytes)>> {
        if let Some(r) = self.model(st, inst, &args, argt)? {
            return Ok(r);
        }
        match inst.kind {
            InstanceKind::Virtual { idx } => {
                // dispatch on the vtable of the receiver
                let b = &args[0];
                if b.len() < 16 {
                    return Err(us("virtual call on thin receiver"));
                }
                match load(&st.f, &b[8..16])? {
                    V::P(Base::Vt(v), _) => {
                        let (ty, tr) = self.vts.borrow()[v as usize].clone();
                        let tr = tr.ok_or_else(|| us("virtual call without trait"))?;
                        let tref = rustc_middle::ty::tls::with(|tcx| {
                            let t = rustc_public::rustc_internal::internal(tcx, tr.with_self_ty(ty));
                            rustc_public::rustc_internal::stable(tcx.instantiate_bound_regions_with_erased(t))
                        });
                        match tref.vtable_entry(idx) {
                            Some(VtblEntry::Method(m)) => {
                                let mut a = args.clone();
                                a[0] = b[..8].to_vec();
                                let mut t = argt.to_vec();
                                t[0] = Ty::new_ptr(ty, Mutability::Mut);
                                self.call(st, m, a, &t)
                            }
                            e => Err(Ex::Unsup(format!("vtable entry {:?}", e))),
                        }
                    }
                    _ => Err(us("virtual call on unknown vtable")),
                }
            }
            InstanceKind::Shim if inst.is_empty_shim() => Ok(vec![(st.clone(), vec![])]),
            _ => {
                if inst.ty().kind().fn_sig().map_or(false, |s| matches!(s.skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never)))
                    && self.info(inst).map_or(true, |i| i.loc == Loc::Lib)
                {
                    return Err(Ex::Panic(format!("call to {}", self.def_name(inst))));
                }
                let s = std::mem::replace(st, State::empty());
                let r = self.run_fn(s, inst, args);
                Ok(r)
            }
        }
    }

    // ---- joins ----

    fn join_items(&self, items: Vec<(usize, usize, State)>) -> Vec<(usize, usize, State)> {
        let v = items.into_iter().map(|(bb, st, s)| crate::join::Item { bb, st, s, ret: vec![] }).collect();
        crate::join::join(self, v).into_iter().map(|x| (x.bb, x.st, x.s)).collect()
    }

    fn join_returns(&self, out: Vec<(State, Bytes)>) -> Vec<(State, Bytes)> {
        let v = out.into_iter().map(|(s, ret)| crate::join::Item { bb: 0, st: 0, s, ret }).collect();
        crate::join::join(self, v).into_iter().map(|x| (x.s, x.ret)).collect()
    }
}

impl State {
    fn depth_limit(&self) -> usize {
        match self.regs.get("depth_limit") {
            Some(V::I(n)) => self.f.value(n).map_or(usize::MAX, |v| v as usize),
            _ => usize::MAX,
        }
    }

    pub fn empty() -> State {
        State {
            mem: Mem::new(),
            f: Facts::default(),
            frames: vec![],
            trace: None,
            inputs: 0,
            regs: Rc::new(BTreeMap::new()),
            log: Rc::new(vec![]),
            approx: None,
        }
    }
}

pub enum Next {
    Goto(usize),
    Branch(Vec<(usize, State)>),
    Return(Bytes),
    Stop,
}

pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let m = 1u128 << (w - 1);
    if v & m != 0 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

pub fn assert_msg(m: &AssertMessage) -> String {
    match m {
        AssertMessage::BoundsCheck { .. } => "index out of bounds".into(),
        m => m.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into()),
    }
}

pub fn show_bit(b: Bit) -> String {
    match b {
        Bit::C(v) => format!("{}", v as u8),
        Bit::S(a, i, n) => {
            let inf = info(a);
            let s = match &inf.def {
                Def::Input(s) => format!("{}.{}", s, i),
                Def::Cmp(Cmp::Eq, x, y) => format!("({} == {})", show(x), show(y)),
                Def::Cmp(Cmp::Ltu, x, y) => format!("({} < {})", show(x), show(y)),
                Def::Octet(b, o) => format!("octet{}[{}].{}", b, show_aff(o), i),
                Def::BitOp(..) => format!("b{}", a),
                _ => format!("a{}.{}", a, i),
            };
            if n {
                format!("!{}", s)
            } else {
                s
            }
        }
    }
}

pub fn show_atom(a: Aid) -> String {
    match &info(a).def {
        Def::Input(s) => s.to_string(),
        Def::Octet(b, o) => format!("octet{}[{}]", b, show_aff(o)),
        Def::Bits(b) => {
            let mut names: Vec<String> = vec![];
            for x in b.iter() {
                if let Bit::S(a, _, _) = x {
                    let n = show_atom(*a);
                    if !names.contains(&n) {
                        names.push(n);
                    }
                }
            }
            format!("bits({})", names.join(","))
        }
        Def::Aff(f) => show_aff(f),
        Def::Op(n, v) => format!("{}({})", n, v.iter().map(show).collect::<Vec<_>>().join(",")),
        Def::Cmp(..) => show_bit(Bit::S(a, 0, false)),
        Def::Addr(k) => format!("&obj{}", k >> 2),
        _ => format!("a{}", a),
    }
}

pub fn show_aff(a: &Aff) -> String {
    let mut v = vec![];
    for (x, c) in &a.t {
        v.push(if *c == 1 { show_atom(*x) } else { format!("{}*{}", c, show_atom(*x)) });
    }
    if a.k != 0 || v.is_empty() {
        v.push(format!("{}", a.k));
    }
    v.join("+")
}

pub fn show(s: &Sc) -> String {
    match &s.k {
        K::C(v) => format!("{}", v),
        K::A(a) => show_aff(a),
        K::B(b) => {
            let mut names: Vec<String> = vec![];
            for x in b.iter() {
                if let Bit::S(a, _, _) = x {
                    let n = show_atom(*a);
                    if !names.contains(&n) {
                        names.push(n);
                    }
                }
            }
            format!("bits({})", names.join(","))
        }
    }
}
