//! Transfer functions of compiler intrinsics, the allocator, and the driver interface.

use crate::dom::*;
use crate::interp::*;
use crate::mem::*;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::BinOp;
use rustc_public::ty::{GenericArgKind, RigidTy, Ty, TyKind};
use std::rc::Rc;

#[allow(unused_imports)]
use crate::interp::Bytes;
type Rets = Vec<(State, Bytes)>;

fn us(s: &str) -> Ex {
    Ex::Unsup(s.to_string())
}

fn opt<T>(x: T) -> R<Option<T>> {
    Ok(Some(x))
}

impl Interp {
    pub fn ret_ty(&self, inst: Instance) -> R<Ty> {
        match inst.ty().kind().fn_sig() {
            Some(s) => Ok(s.skip_binder().output()),
            None => Err(us("signature")),
        }
    }

    pub fn gen_ty(&self, inst: Instance, n: usize) -> R<Ty> {
        let mut k = 0;
        for a in inst.args().0.iter() {
            if let GenericArgKind::Type(t) = a {
                if k == n {
                    return Ok(*t);
                }
                k += 1;
            }
        }
        Err(us("generic argument"))
    }

    fn one(&self, st: &State, b: Bytes) -> R<Option<Rets>> {
        Ok(Some(vec![(st.clone(), b)]))
    }

    fn bool_arg(&self, st: &State, b: &Bytes) -> R<Bit> {
        let s = self.int(&st.f, b)?;
        Ok(st.f.to_bits(&s)[0])
    }

    pub fn const_str(&self, st: &State, b: &Bytes) -> R<String> {
        let n = self.int(&st.f, &b[8..16])?;
        let n = st.f.value(&n).ok_or_else(|| us("string length"))?;
        let p = load(&st.f, &b[..8])?;
        let b = self.read(st, &p, n as usize)?;
        let mut s = vec![];
        for x in &b {
            let v = byte_of(&st.f, x)?;
            s.push(st.f.value(&v).ok_or_else(|| us("string"))? as u8);
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    pub fn need(&self, f: &Facts, b: Bit, bad: &str) -> R<()> {
        match f.bit_val(b) {
            Some(true) => Ok(()),
            Some(false) => Err(Ex::Ub(bad.to_string())),
            None => Err(Ex::Fork(b)),
        }
    }

    pub fn fresh(&self, st: &mut State, w: u8) -> Sc {
        let n = st.inputs;
        st.inputs += 1;
        Sc::of_atom(w, atom(w, Def::Input(format!("in{}", n).into())))
    }

    pub fn model(&self, st: &mut State, inst: Instance, args: &[Bytes], argt: &[Ty]) -> R<Option<Rets>> {
        if let InstanceKind::Intrinsic = inst.kind {
            let n = inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
            return self.intrinsic(st, inst, &n, args, argt);
        }
        let name = self.def_name(inst);
        if let Some(n) = name.strip_prefix("rt::") {
            return self.rt(st, inst, n, args);
        }
        if name.contains("__rust_") {
            return self.allocator(st, &name, args);
        }
        if let Some(r) = self.library(st, inst, &name, args, argt)? {
            return Ok(Some(r));
        }
        Ok(None)
    }

    // ---- allocator ----

    fn size_align(&self, st: &State, s: &Bytes, a: &Bytes) -> R<(Sc, u64)> {
        let s = self.int(&st.f, s)?;
        let a = self.int(&st.f, a)?;
        let a = st.f.value(&a).ok_or_else(|| us("symbolic alignment"))?;
        Ok((s, a as u64))
    }

    pub fn do_alloc(&self, st: &mut State, s: &Sc, align: u64) -> R<V> {
        if let Some(V::I(lim)) = st.regs.get("alloc_limit") {
            let b = st.f.cmp(Cmp::Ltu, lim, s);
            match st.f.bit_val(b) {
                Some(false) => (),
                Some(true) => return Err(Ex::Panic("allocation whose size is not bounded by the octets supplied".into())),
                None => return Err(Ex::Fork(b)),
            }
        }
        let z = st.f.cmp(Cmp::Eq, s, &c64(0));
        match st.f.bit_val(z) {
            Some(true) => return Err(Ex::Ub("allocation of zero octets".into())),
            None => return Err(Ex::Fork(z)),
            _ => (),
        }
        let big = st.f.sign(s);
        match st.f.bit_val(big) {
            Some(true) => return Err(Ex::Ub("allocation larger than isize::MAX".into())),
            None => return Err(Ex::Fork(big)),
            _ => (),
        }
        let size = match st.f.value(s) {
            Some(v) => Aff::c(v as i128),
            None => st.f.to_aff(s),
        };
        let id = st.mem.alloc(&mut st.f, size, align, true, "heap");
        Ok(V::P(Base::Obj(id), c64(0)))
    }

    pub fn do_dealloc(&self, st: &mut State, p: &V, s: &Sc, align: u64) -> R<u64> {
        match p {
            V::P(Base::Obj(o), off) => {
                let ob = st.mem.get(*o).map_err(|_| Ex::Ub("double free".into()))?.clone();
                if !ob.heap {
                    return Err(Ex::Ub("deallocation of memory not owned by the allocator".into()));
                }
                self.need(&st.f, st.f.cmp(Cmp::Eq, off, &c64(0)), "deallocation through an interior pointer")?;
                self.need(&st.f, st.f.cmp(Cmp::Eq, s, &sc64(&ob.size)), "deallocation with a size different from the allocated one")?;
                if ob.align != align {
                    return Err(Ex::Ub("deallocation with a different alignment".into()));
                }
                Ok(*o)
            }
            V::I(a) => {
                if let Some((o, off)) = self.reprov(&st.f, a) {
                    return self.do_dealloc(st, &V::P(Base::Obj(o), off), s, align);
                }
                Err(Ex::Ub("deallocation of an invalid pointer".into()))
            }
            _ => Err(Ex::Ub("deallocation of an invalid pointer".into())),
        }
    }

    fn allocator(&self, st: &mut State, name: &str, args: &[Bytes]) -> R<Option<Rets>> {
        let n = name.rsplit("::").next().unwrap();
        match n {
            "__rust_alloc" | "__rust_alloc_zeroed" => {
                let (s, a) = self.size_align(st, &args[0], &args[1])?;
                let p = self.do_alloc(st, &s, a)?;
                if n.ends_with("zeroed") {
                    match st.f.value(&s) {
                        Some(len) => self.write(st, &p, vec![const_byte(0); len as usize])?,
                        None => self.fill(st, &p, 0, &s)?,
                    }
                }
                self.one(st, frag(p, 8))
            }
            "__rust_dealloc" => {
                let p = load(&st.f, &args[0])?;
                let (s, a) = self.size_align(st, &args[1], &args[2])?;
                let o = self.do_dealloc(st, &p, &s, a)?;
                st.mem.free(o);
                self.one(st, vec![])
            }
            "__rust_realloc" => {
                let p = load(&st.f, &args[0])?;
                let (s, a) = self.size_align(st, &args[1], &args[2])?;
                let new = self.int(&st.f, &args[3])?;
                let o = self.do_dealloc(st, &p, &s, a)?;
                let mut t = st.clone();
                let q = self.do_alloc(&mut t, &new, a)?;
                // copy the common prefix
                let lt = t.f.cmp(Cmp::Ltu, &new, &s);
                let len = match t.f.bit_val(lt) {
                    Some(true) => new.clone(),
                    Some(false) => s.clone(),
                    None => return Err(Ex::Fork(lt)),
                };
                self.copy(&mut t, &p, &q, &len)?;
                t.mem.free(o);
                Ok(Some(vec![(t, frag(q, 8))]))
            }
            x if x.starts_with("__rust_no_alloc_shim") => self.one(st, vec![]),
            _ => Ok(None),
        }
    }

    // ---- library summaries ----

    fn library(&self, st: &mut State, inst: Instance, name: &str, args: &[Bytes], argt: &[Ty]) -> R<Option<Rets>> {
        let last = name.rsplit("::").next().unwrap();
        match last {
            "drop_in_place" | "drop_glue" => {
                let ty = self.gen_ty(inst, 0)?;
                if let TyKind::RigidTy(RigidTy::Dynamic(..)) = ty.kind() {
                    let ptr = load(&st.f, &args[0][..8])?;
                    let meta = Some(load(&st.f, &args[0][8..])?);
                    let pl = Pl { ptr, meta, ty, var: None };
                    let r = self.drop_place(st.clone(), &pl)?;
                    return Ok(Some(r.into_iter().map(|s| (s, vec![])).collect()));
                }
                Ok(None)
            }
            "capture" if name.contains("backtrace") => {
                let t = self.ret_ty(inst)?;
                // Backtrace { inner: Inner::Unsupported }
                let n = self.size(t)?;
                let mut b = vec![AB::Uninit; n];
                if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
                    let f = d.variants()[0].fields()[0].ty_with_args(&a);
                    let off = self.field_off(t, None, 0)?;
                    let mut ib = vec![AB::Uninit; self.size(f)?];
                    self.set_variant(&mut ib, f, 0)?;
                    for (i, x) in ib.into_iter().enumerate() {
                        b[off + i] = x;
                    }
                }
                self.one(st, b)
            }
            "format" | "format_inner" if name.contains("fmt::format") => {
                let t = self.ret_ty(inst)?;
                let b = self.empty_string(t)?;
                self.one(st, b)
            }
            "align_offset" if name.contains("ptr::align_offset") => {
                let t = self.gen_ty(inst, 0)?;
                let a = self.int(&st.f, &args[1])?;
                if let (1, Some(a), V::P(Base::Obj(o), off)) = (self.size(t)?, st.f.value(&a), load(&st.f, &args[0][..8])?) {
                    if let Some(off) = st.f.value(&off) {
                        // where in memory octets lie makes no difference to what the library does with them
                        let ob = st.mem.get(o)?;
                        if ob.heap || ob.align as u128 % a == 0 {
                            return self.one(st, int_bytes(c64((a - off % a) % a)));
                        }
                    }
                }
                Ok(None)
            }
            // The hash a table uses is unspecified: the one analysed is the same for every value, so
            // that what is found in a table is decided by equality.
            "new" if name.contains("RandomState") => {
                let n = self.size(self.ret_ty(inst)?)?;
                self.one(st, vec![const_byte(0); n])
            }
            "write" | "write_str" if name.contains("DefaultHasher as ") => self.one(st, vec![]),
            "finish" if name.contains("DefaultHasher as ") => self.one(st, int_bytes(c64(0))),
            _ => {
                let _ = argt;
                Ok(None)
            }
        }
    }

    /// Octets per lane of a vector type.
    fn lane(&self, t: Ty) -> R<usize> {
        if let TyKind::RigidTy(RigidTy::Adt(d, a)) = t.kind() {
            let f = d.variants()[0].fields()[0].ty_with_args(&a);
            if let TyKind::RigidTy(RigidTy::Array(e, _)) = f.kind() {
                return self.size(e);
            }
        }
        Err(us("vector type"))
    }

    fn empty_string(&self, t: Ty) -> R<Bytes> {
        let n = self.size(t)?;
        let mut b = vec![const_byte(0); n];
        // walk to the pointer: first pointer-sized NonNull
        let mut ty = t;
        let mut off = 0;
        loop {
            match ty.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                    let fs = d.variants()[0].fields();
                    let mut go = None;
                    for (i, f) in fs.iter().enumerate() {
                        let ft = f.ty_with_args(&a);
                        if matches!(f.name.to_string().as_str(), "vec" | "buf" | "inner" | "ptr" | "pointer") {
                            go = Some((self.field_off(ty, None, i)?, ft));
                            break;
                        }
                    }
                    match go {
                        Some((o, ft)) => {
                            off += o;
                            ty = ft;
                        }
                        None => return Err(us("string layout")),
                    }
                }
                _ => break,
            }
        }
        b[off] = const_byte(1);
        Ok(b)
    }

    // ---- intrinsics ----

    fn intrinsic(&self, st: &mut State, inst: Instance, n: &str, args: &[Bytes], argt: &[Ty]) -> R<Option<Rets>> {
        let int = |i: usize, st: &State| self.int(&st.f, &args[i]);
        let ptr = |i: usize, st: &State| load(&st.f, &args[i][..8]);
        match n {
            "size_of" => {
                let t = self.gen_ty(inst, 0)?;
                self.one(st, int_bytes(c64(self.size(t)? as u128)))
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let t = self.gen_ty(inst, 0)?;
                self.one(st, int_bytes(c64(self.lay(t)?.align as u128)))
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                let t = self.gen_ty(inst, 0)?;
                let meta = if args[0].len() == 16 { Some(load(&st.f, &args[0][8..])?) } else { None };
                let (s, a) = self.size_of_val(st, t, meta.as_ref())?;
                self.one(st, int_bytes(if n == "size_of_val" { s } else { c64(a as u128) }))
            }
            "vtable_size" | "vtable_align" => match ptr(0, st)? {
                V::P(Base::Vt(v), _) => {
                    let t = self.vts.borrow()[v as usize].0;
                    let l = self.lay(t)?;
                    self.one(st, int_bytes(c64(if n == "vtable_size" { l.size as u128 } else { l.align as u128 })))
                }
                _ => Err(us("vtable")),
            },
            "needs_drop" => {
                let t = self.gen_ty(inst, 0)?;
                let d = !Instance::resolve_drop_in_place(t).is_empty_shim();
                self.one(st, int_bytes(Sc::c(8, d as u128)))
            }
            "ub_checks" | "contract_checks" | "is_val_statically_known" => self.one(st, int_bytes(Sc::c(8, 0))),
            "overflow_checks" => self.one(st, int_bytes(Sc::c(8, 1))),
            "assume" => {
                let b = self.bool_arg(st, &args[0])?;
                self.need(&st.f, b, "assume(false)")?;
                self.one(st, vec![])
            }
            "likely" | "unlikely" | "black_box" => self.one(st, args[0].clone()),
            "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" | "forget"
            | "prefetch_read_data" | "const_deallocate" | "assert_unsafe_precondition" => self.one(st, vec![]),
            "caller_location" => self.one(st, frag(V::I(c64(16)), 8)),
            "transmute" | "transmute_unchecked" | "write_box_via_move_" => self.one(st, args[0].clone()),
            "discriminant_value" => {
                let t = self.gen_ty(inst, 0)?;
                let p = ptr(0, st)?;
                let v = self.variant(st, &p, t)?;
                let rt = self.ret_ty(inst)?;
                let w = self.discr_width(t, rt)?;
                self.one(st, int_bytes(Sc::c(w, self.discr_val(t, v))))
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_nonoverlapping_memory" => {
                let t = self.gen_ty(inst, 0)?;
                let es = self.size(t)?;
                let (s, d, c) = (ptr(0, st)?, ptr(1, st)?, int(2, st)?);
                let len = st.f.mul(&c, &c64(es as u128));
                if n == "copy_nonoverlapping" {
                    self.no_overlap(st, &s, &d, &len)?;
                }
                self.copy(st, &s, &d, &len)?;
                self.one(st, vec![])
            }
            "write_bytes" => {
                let t = self.gen_ty(inst, 0)?;
                let es = self.size(t)? as u128;
                let (d, v, c) = (ptr(0, st)?, int(1, st)?, int(2, st)?);
                let Some(c) = st.f.value(&c) else {
                    let v = st.f.value(&v).ok_or_else(|| us("write_bytes with symbolic count"))?;
                    if es != 1 {
                        return Err(us("write_bytes with symbolic count"));
                    }
                    self.fill(st, &d, v as u8, &c)?;
                    return self.one(st, vec![]);
                };
                let b = int_bytes(v)[0].clone();
                self.write(st, &d, vec![b; (c * es) as usize])?;
                self.one(st, vec![])
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let t = self.gen_ty(inst, 0)?;
                let sz = self.size(t)?;
                let p = ptr(0, st)?;
                let b = self.read(st, &p, sz)?;
                self.one(st, b)
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let p = ptr(0, st)?;
                self.write(st, &p, args[1].clone())?;
                self.one(st, vec![])
            }
            "typed_swap_nonoverlapping" => {
                let t = self.gen_ty(inst, 0)?;
                let sz = self.size(t)?;
                let (p, q) = (ptr(0, st)?, ptr(1, st)?);
                let (a, b) = (self.read(st, &p, sz)?, self.read(st, &q, sz)?);
                let mut t = st.clone();
                self.write(&mut t, &p, b)?;
                self.write(&mut t, &q, a)?;
                Ok(Some(vec![(t, vec![])]))
            }
            "offset" | "arith_offset" => {
                let t = self.pointee(argt[0]).ok_or_else(|| us("offset"))?;
                let es = self.size(t)?;
                let (p, c) = (ptr(0, st)?, int(1, st)?);
                let off = st.f.mul(&c, &c64(es as u128));
                self.one(st, frag(self.ptr_add(&st.f, &p, &off), 8))
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let t = self.gen_ty(inst, 0)?;
                let es = self.size(t)? as u128;
                let (p, q) = (ptr(0, st)?, ptr(1, st)?);
                let d = match (&p, &q) {
                    (V::P(a, x), V::P(b, y)) if a == b => st.f.sub(x, y),
                    (V::I(x), V::I(y)) => st.f.sub(x, y),
                    _ => return Err(Ex::Ub("offset between pointers to different objects".into())),
                };
                if es == 1 {
                    return self.one(st, int_bytes(d));
                }
                if let Some(v) = st.f.value(&d) {
                    let v = sx(v, 64) / es as i128;
                    return self.one(st, int_bytes(c64(v as u128)));
                }
                if es.is_power_of_two() {
                    return self.one(st, int_bytes(st.f.shr(&d, es.trailing_zeros() as u8, true)));
                }
                Err(us("offset_from"))
            }
            "ptr_mask" => Err(us("ptr_mask")),
            "ptr_guaranteed_cmp" => self.one(st, int_bytes(Sc::c(8, 2))),
            "ptr_metadata" => self.one(st, args[0].get(8..).map(|x| x.to_vec()).unwrap_or_default()),
            "aggregate_raw_ptr" => {
                let mut b = args[0].clone();
                b.extend(args[1].iter().cloned());
                self.one(st, b)
            }
            "slice_get_unchecked" => {
                let i = int(1, st)?;
                let e = self.pointee(argt[0]).and_then(|t| t.kind().builtin_index()).ok_or_else(|| us("slice_get_unchecked"))?;
                let es = self.size(e)?;
                let p = ptr(0, st)?;
                let off = st.f.mul(&i, &c64(es as u128));
                self.one(st, frag(self.ptr_add(&st.f, &p, &off), 8))
            }
            "ctlz" | "ctlz_nonzero" => {
                let v = int(0, st)?;
                let k = st.f.ctlz(&v)?;
                self.one(st, int_bytes(Sc::c(32, k as u128)))
            }
            "cttz" | "cttz_nonzero" => {
                let v = int(0, st)?;
                let k = st.f.cttz(&v)?;
                self.one(st, int_bytes(Sc::c(32, k as u128)))
            }
            "ctpop" => {
                let v = int(0, st)?;
                match st.f.value(&v) {
                    Some(c) => self.one(st, int_bytes(Sc::c(32, c.count_ones() as u128))),
                    None => self.one(st, int_bytes(Sc::of_atom(32, atom(32, Def::Op("ctpop", vec![v]))))),
                }
            }
            "bswap" => {
                let v = int(0, st)?;
                let b = st.f.to_bits(&v);
                let mut r = vec![];
                for c in b.chunks(8).rev() {
                    r.extend_from_slice(c);
                }
                self.one(st, int_bytes(Sc::bits(r)))
            }
            "simd_eq" | "simd_ne" | "simd_lt" | "simd_le" | "simd_gt" | "simd_ge" | "simd_or" | "simd_and" | "simd_xor" => {
                // the lanes of a control group are always decided
                let t = self.gen_ty(inst, 0)?;
                if self.lane(t)? != 1 && !matches!(n, "simd_or" | "simd_and" | "simd_xor") {
                    return Err(us("vector lanes"));
                }
                let mut out = vec![];
                for (a, b) in args[0].iter().zip(args[1].iter()) {
                    let a = self.int(&st.f, std::slice::from_ref(a))?;
                    let b = self.int(&st.f, std::slice::from_ref(b))?;
                    let (a, b) = match (st.f.value(&a), st.f.value(&b)) {
                        (Some(a), Some(b)) => (a as u8, b as u8),
                        _ => return Err(us("symbolic vector")),
                    };
                    let (i, j) = (a as i8, b as i8);
                    let m = |x: bool| if x { 0xff } else { 0 };
                    out.push(const_byte(match n {
                        "simd_eq" => m(a == b),
                        "simd_ne" => m(a != b),
                        "simd_lt" => m(i < j),
                        "simd_le" => m(i <= j),
                        "simd_gt" => m(i > j),
                        "simd_ge" => m(i >= j),
                        "simd_or" => a | b,
                        "simd_and" => a & b,
                        _ => a ^ b,
                    }));
                }
                self.one(st, out)
            }
            "simd_splat" => {
                let k = self.size(self.ret_ty(inst)?)? / args[0].len();
                let mut out = vec![];
                for _ in 0..k {
                    out.extend_from_slice(&args[0]);
                }
                self.one(st, out)
            }
            "simd_bitmask" => {
                let t = self.gen_ty(inst, 0)?;
                if self.lane(t)? != 1 {
                    return Err(us("vector lanes"));
                }
                let mut m = 0u128;
                for (i, a) in args[0].iter().enumerate() {
                    let a = self.int(&st.f, std::slice::from_ref(a))?;
                    m |= (st.f.value(&a).ok_or_else(|| us("symbolic vector"))? >> 7 & 1) << i;
                }
                let w = self.size(self.ret_ty(inst)?)? * 8;
                self.one(st, int_bytes(Sc::c(w as u8, m)))
            }
            "bitreverse" => {
                let v = int(0, st)?;
                let mut b = st.f.to_bits(&v);
                b.reverse();
                self.one(st, int_bytes(Sc::bits(b)))
            }
            "rotate_left" | "rotate_right" => {
                let (v, k) = (int(0, st)?, int(1, st)?);
                let k = st.f.value(&k).ok_or_else(|| us("symbolic rotation"))? as usize;
                let b = st.f.to_bits(&v);
                let w = b.len();
                let k = k % w;
                let k = if n == "rotate_left" { w - k } else { k };
                let r = (0..w).map(|i| b[(i + k) % w]).collect();
                self.one(st, int_bytes(Sc::bits(r)))
            }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
            | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let op = match n {
                    "wrapping_add" => BinOp::Add,
                    "wrapping_sub" => BinOp::Sub,
                    "wrapping_mul" => BinOp::Mul,
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    "unchecked_mul" => BinOp::MulUnchecked,
                    "unchecked_shl" => BinOp::ShlUnchecked,
                    "unchecked_shr" => BinOp::ShrUnchecked,
                    "unchecked_rem" => BinOp::Rem,
                    _ => BinOp::Div,
                };
                let b = self.binop(st, op, &args[0], argt[0], &args[1], argt[1])?;
                self.one(st, b)
            }
            "disjoint_bitor" => {
                let b = self.binop(st, BinOp::BitOr, &args[0], argt[0], &args[1], argt[1])?;
                self.one(st, b)
            }
            "three_way_compare" => {
                let b = self.binop(st, BinOp::Cmp, &args[0], argt[0], &args[1], argt[1])?;
                self.one(st, b)
            }
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match n {
                    "add_with_overflow" => BinOp::Add,
                    "sub_with_overflow" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (p, q) = (int(0, st)?, int(1, st)?);
                let (v, o) = self.checked(&st.f, op, &p, &q, argt[0], argt[1])?;
                let rt = self.ret_ty(inst)?;
                let mut b = vec![AB::Uninit; self.size(rt)?];
                for (i, x) in int_bytes(v).into_iter().enumerate() {
                    b[i] = x;
                }
                let off = self.field_off(rt, None, 1)?;
                b[off] = int_bytes(Sc::boolean(o))[0].clone();
                self.one(st, b)
            }
            "saturating_add" | "saturating_sub" => {
                let op = if n.ends_with("add") { BinOp::Add } else { BinOp::Sub };
                let (p, q) = (int(0, st)?, int(1, st)?);
                let (_, sg) = self.int_info(argt[0]).ok_or_else(|| us("saturating"))?;
                let (v, o) = self.checked(&st.f, op, &p, &q, argt[0], argt[1])?;
                match st.f.bit_val(o) {
                    None => Err(Ex::Fork(o)),
                    Some(false) => self.one(st, int_bytes(v)),
                    Some(true) => {
                        if sg {
                            return Err(us("signed saturation"));
                        }
                        self.one(st, int_bytes(Sc::c(p.w, if n.ends_with("add") { u128::MAX } else { 0 })))
                    }
                }
            }
            "select_unpredictable" => {
                let b = self.bool_arg(st, &args[0])?;
                match st.f.bit_val(b) {
                    Some(true) => self.one(st, args[1].clone()),
                    Some(false) => self.one(st, args[2].clone()),
                    None => Err(Ex::Fork(b)),
                }
            }
            "compare_bytes" => {
                let (p, q, l) = (ptr(0, st)?, ptr(1, st)?, int(2, st)?);
                let v = self.compare(st, &p, &q, &l)?;
                self.one(st, int_bytes(v))
            }
            "raw_eq" => {
                let t = self.gen_ty(inst, 0)?;
                let sz = self.size(t)?;
                let (p, q) = (ptr(0, st)?, ptr(1, st)?);
                let v = self.compare(st, &p, &q, &c64(sz as u128))?;
                let b = st.f.cmp(Cmp::Eq, &v, &Sc::c(32, 0));
                self.one(st, int_bytes(Sc::boolean(b)))
            }
            "type_id_eq" => {
                let (a, b) = (load(&st.f, &args[0][..8])?, load(&st.f, &args[1][..8])?);
                self.one(st, int_bytes(Sc::c(8, (a == b) as u128)))
            }
            "const_eval_select" => {
                // arguments are a tuple
                let tt = match argt[0].kind() {
                    TyKind::RigidTy(RigidTy::Tuple(v)) => v,
                    _ => return Err(us("const_eval_select")),
                };
                let mut a = vec![];
                for (i, t) in tt.iter().enumerate() {
                    let off = self.field_off(argt[0], None, i)?;
                    let sz = self.size(*t)?;
                    a.push(args[0][off..off + sz].to_vec());
                }
                let f = match argt[2].kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => Instance::resolve(d, &ga).map_err(|_| us("const_eval_select"))?,
                    _ => return Err(us("const_eval_select")),
                };
                self.call(st, f, a, &tt).map(Some)
            }
            "type_name" => {
                let v = c64(0);
                let mut b = frag(V::I(c64(1)), 8);
                b.extend(int_bytes(v));
                self.one(st, b)
            }
            x if x.starts_with("atomic_") => self.atomic(st, inst, x, args),
            _ => {
                if inst.has_body() {
                    return Ok(None);
                }
                // default body, if the intrinsic has one
                Err(Ex::Unsup(format!("intrinsic {}", n)))
            }
        }
    }

    fn discr_width(&self, t: Ty, rt: Ty) -> R<u8> {
        if let Some((w, _)) = self.int_info(rt) {
            return Ok(w);
        }
        // projection type: <T as DiscriminantKind>::Discriminant
        let d = t.kind().discriminant_ty();
        match d.and_then(|d| self.int_info(d)) {
            Some((w, _)) => Ok(w),
            None => Err(us("discriminant type")),
        }
    }

    fn no_overlap(&self, st: &State, s: &V, d: &V, len: &Sc) -> R<()> {
        if let (V::P(a, x), V::P(b, y)) = (s, d) {
            if a == b && st.f.value(len) != Some(0) {
                if let (Some(x), Some(y), Some(l)) = (st.f.value(x), st.f.value(y), st.f.value(len)) {
                    if x < y + l && y < x + l {
                        return Err(Ex::Ub("overlapping copy_nonoverlapping".into()));
                    }
                }
            }
        }
        Ok(())
    }

    fn atomic(&self, st: &mut State, inst: Instance, n: &str, args: &[Bytes]) -> R<Option<Rets>> {
        let t = self.gen_ty(inst, 0)?;
        let sz = self.size(t)?;
        if n.starts_with("atomic_fence") || n.starts_with("atomic_singlethreadfence") {
            return self.one(st, vec![]);
        }
        let p = load(&st.f, &args[0][..8])?;
        if n.starts_with("atomic_load") {
            let b = self.read(st, &p, sz)?;
            return self.one(st, b);
        }
        if n.starts_with("atomic_store") {
            self.write(st, &p, args[1].clone())?;
            return self.one(st, vec![]);
        }
        let old = self.read(st, &p, sz)?;
        if n.starts_with("atomic_cxchg") {
            let (a, b) = (self.int(&st.f, &old)?, self.int(&st.f, &args[1])?);
            let e = st.f.cmp(Cmp::Eq, &a, &b);
            let ok = match st.f.bit_val(e) {
                Some(v) => v,
                None => return Err(Ex::Fork(e)),
            };
            if ok {
                self.write(st, &p, args[2].clone())?;
            }
            let rt = self.ret_ty(inst)?;
            let mut r = vec![AB::Uninit; self.size(rt)?];
            for (i, x) in old.into_iter().enumerate() {
                r[i] = x;
            }
            let off = self.field_off(rt, None, 1)?;
            r[off] = const_byte(ok as u8);
            return self.one(st, r);
        }
        let a = self.int(&st.f, &old)?;
        let b = self.int(&st.f, &args[1])?;
        let v = if n.starts_with("atomic_xadd") {
            st.f.add(&a, &b)
        } else if n.starts_with("atomic_xsub") {
            st.f.sub(&a, &b)
        } else if n.starts_with("atomic_xchg") {
            b
        } else {
            return Err(Ex::Unsup(n.to_string()));
        };
        self.write(st, &p, int_bytes(v))?;
        self.one(st, old)
    }

    /// Result of memcmp.
    pub fn compare(&self, st: &State, p: &V, q: &V, len: &Sc) -> R<Sc> {
        let l = match st.f.value(len) {
            Some(v) => Aff::c(v as i128),
            None => st.f.to_aff(len),
        };
        if l.cst() == Some(0) {
            return Ok(Sc::c(32, 0));
        }
        if l.cst().is_none() {
            let b = st.f.cmp(Cmp::Eq, len, &c64(0));
            match st.f.bit_val(b) {
                None => return Err(Ex::Fork(b)),
                Some(true) => return Ok(Sc::c(32, 0)),
                _ => (),
            }
        }
        let segs = |v: &V| -> R<Vec<Seg>> {
            match v {
                V::P(Base::Obj(o), off) => {
                    let mut s = st.mem.read_segs(&st.f, *o, &self.off_aff(&st.f, off), &l)?;
                    merge(&st.f, &mut s);
                    Ok(s)
                }
                _ => Err(Ex::Ub("comparison through an invalid pointer".into())),
            }
        };
        let (mut a, mut b) = (segs(p)?, segs(q)?);
        loop {
            if a == b {
                let unin = a.iter().any(|s| match s {
                    Seg::U(_) => true,
                    Seg::B(v) => v.iter().any(|x| *x == AB::Uninit),
                    _ => false,
                });
                if unin {
                    return Err(Ex::Ub("comparison of uninitialised memory".into()));
                }
                return Ok(Sc::c(32, 0));
            }
            if a.is_empty() || b.is_empty() {
                return Err(us("comparison"));
            }
            match (&mut a[0], &mut b[0]) {
                (Seg::B(x), Seg::B(y)) => {
                    let n = x.len().min(y.len());
                    for i in 0..n {
                        if x[i] == y[i] && x[i] != AB::Uninit {
                            continue;
                        }
                        let (u, v) = (byte_of(&st.f, &x[i])?, byte_of(&st.f, &y[i])?);
                        let e = st.f.cmp(Cmp::Eq, &u, &v);
                        match st.f.bit_val(e) {
                            Some(true) => continue,
                            None => return Err(Ex::Fork(e)),
                            Some(false) => {
                                let lt = st.f.cmp(Cmp::Ltu, &u, &v);
                                return match st.f.bit_val(lt) {
                                    None => Err(Ex::Fork(lt)),
                                    Some(true) => Ok(Sc::c(32, u32::MAX as u128)),
                                    Some(false) => Ok(Sc::c(32, 1)),
                                };
                            }
                        }
                    }
                    if n == x.len() && n == y.len() {
                        a.remove(0);
                        b.remove(0);
                    } else if n == x.len() {
                        *y = y[n..].to_vec();
                        a.remove(0);
                    } else {
                        *x = x[n..].to_vec();
                        b.remove(0);
                    }
                }
                (Seg::L { id, off, len }, Seg::L { id: id2, off: off2, len: len2 }) => {
                    if id == id2 && off == off2 {
                        let d = len.add(len2, -1).unwrap();
                        let e = sc64(&len.clone());
                        let g = sc64(&len2.clone());
                        if st.f.decide(Cmp::Eq, &e, &g) == Some(true) {
                            a.remove(0);
                            b.remove(0);
                            continue;
                        }
                        if st.f.prove_ge0(&d) {
                            let nl = len.add(len2, -1).unwrap();
                            let no = off.add(len2, 1).unwrap();
                            *off = no;
                            *len = nl;
                            b.remove(0);
                            continue;
                        }
                        let lt = st.f.cmp(Cmp::Ltu, &e, &g);
                        match st.f.bit_val(lt) {
                            None => return Err(Ex::Fork(lt)),
                            Some(_) => {
                                let nl = len2.add(len, -1).unwrap();
                                let no = off2.add(len, 1).unwrap();
                                *off2 = no;
                                *len2 = nl;
                                a.remove(0);
                                continue;
                            }
                        }
                    }
                    let v = vec![
                        Sc::c(32, *id as u128),
                        sc64(off),
                        sc64(len),
                        Sc::c(32, *id2 as u128),
                        sc64(off2),
                        sc64(len2),
                    ];
                    return Ok(Sc::of_atom(32, atom(32, Def::Op("memcmp", v))));
                }
                (Seg::L { id, off, len }, Seg::B(y)) | (Seg::B(y), Seg::L { id, off, len }) => {
                    // expose one octet of the run
                    let n = y.len() as i128;
                    let _ = n;
                    let o = octet(&st.f, *id, off);
                    let rest = Seg::L { id: *id, off: off.plus(1), len: len.plus(-1) };
                    let side = matches!(a[0], Seg::L { .. });
                    let t = if side { &mut a } else { &mut b };
                    t[0] = rest;
                    t.insert(0, Seg::B(vec![o]));
                }
                _ => return Err(Ex::Ub("comparison of uninitialised memory".into())),
            }
        }
    }

    // ---- driver interface ----

    fn rt(&self, st: &mut State, inst: Instance, n: &str, args: &[Bytes]) -> R<Option<Rets>> {
        match n {
            "any_u8" | "any_u16" | "any_u32" | "any_u64" | "any_u128" | "any_usize" => {
                let w = self.size(self.ret_ty(inst)?)? as u8 * 8;
                let s = self.fresh(st, w);
                self.one(st, int_bytes(s))
            }
            "any_bool" => {
                let k = st.inputs;
                st.inputs += 1;
                let a = atom(1, Def::Input(format!("in{}", k).into()));
                self.one(st, int_bytes(Sc::boolean(Bit::S(a, 0, false))))
            }
            "each" => {
                let n = self.int(&st.f, &args[0])?;
                let n = st.f.value(&n).ok_or_else(|| us("each"))?;
                let mut r = vec![];
                for i in 0..n {
                    let mut s = st.clone();
                    self.push_trace(&mut s, format!("case {}", i));
                    r.push((s, int_bytes(c64(i))));
                }
                opt(r)
            }
            "blob" => {
                // pointer to `len` fresh octets
                let n = self.int(&st.f, &args[0])?;
                let z = st.f.cmp(Cmp::Eq, &n, &c64(0));
                match st.f.bit_val(z) {
                    None => return Err(Ex::Fork(z)),
                    Some(true) => return self.one(st, frag(V::I(c64(1)), 8)),
                    _ => (),
                }
                let k = st.inputs;
                st.inputs += 1;
                let size = match st.f.value(&n) {
                    Some(v) => Aff::c(v as i128),
                    None => st.f.to_aff(&n),
                };
                let id = st.mem.alloc(&mut st.f, size.clone(), 1, true, "input");
                let mut segs = vec![Seg::L { id: k, off: Aff::c(0), len: size.clone() }];
                merge(&st.f, &mut segs);
                st.mem.put(id, Obj { segs, size, align: 1, heap: true, ro: false, name: "input".into() });
                self.one(st, frag(V::P(Base::Obj(id), c64(0)), 8))
            }
            "assume" => {
                let b = self.bool_arg(st, &args[0])?;
                let mut t = st.clone();
                if t.f.assume(b, true) {
                    Ok(Some(vec![(t, vec![])]))
                } else {
                    Ok(Some(vec![]))
                }
            }
            "require" => {
                let rule = self.const_str(st, &args[1])?;
                let b = self.bool_arg(st, &args[0])?;
                match st.f.bit_val(b) {
                    None => Err(Ex::Fork(b)),
                    Some(v) => {
                        *self.stats.borrow_mut().rule_checks.entry(rule.clone()).or_insert(0) += 1;
                        if !v {
                            let kind = if st.approx.is_some() { "undecided" } else { "rule" };
                            self.report(st, kind, &rule, "required condition does not hold on this path");
                            return Ok(Some(vec![]));
                        }
                        self.one(st, vec![])
                    }
                }
            }
            "cover" => {
                let l = self.const_str(st, &args[0])?;
                *self.stats.borrow_mut().covers.entry(l).or_insert(0) += 1;
                self.one(st, vec![])
            }
            "alloc_limit" => {
                let v = self.int(&st.f, &args[0])?;
                Rc::make_mut(&mut st.regs).insert("alloc_limit".into(), V::I(v));
                self.one(st, vec![])
            }
            "depth_limit" => {
                let v = self.int(&st.f, &args[0])?;
                Rc::make_mut(&mut st.regs).insert("depth_limit".into(), V::I(v));
                self.one(st, vec![])
            }
            "alloc_unlimited" => {
                Rc::make_mut(&mut st.regs).remove("alloc_limit");
                self.one(st, vec![])
            }
            "panics_allowed" => {
                Rc::make_mut(&mut st.regs).insert("panics_allowed".into(), V::I(c64(1)));
                self.one(st, vec![])
            }
            "heap_objects" => {
                let n = st.mem.objs.values().filter(|o| o.heap).count();
                self.one(st, int_bytes(c64(n as u128)))
            }
            "is_init" => {
                // every octet of the range is initialised
                let p = load(&st.f, &args[0])?;
                let n = self.int(&st.f, &args[1])?;
                let l = match st.f.value(&n) {
                    Some(v) => Aff::c(v as i128),
                    None => st.f.to_aff(&n),
                };
                let ok = match &p {
                    _ if l.cst() == Some(0) => true,
                    V::P(Base::Obj(o), off) => {
                        let s = st.mem.read_segs(&st.f, *o, &self.off_aff(&st.f, off), &l)?;
                        s.iter().all(|s| match s {
                            Seg::U(_) => false,
                            Seg::B(v) => v.iter().all(|x| *x != AB::Uninit),
                            _ => true,
                        })
                    }
                    _ => return Err(Ex::Ub("invalid pointer".into())),
                };
                self.one(st, int_bytes(Sc::c(8, ok as u128)))
            }
            "show" => {
                let l = self.const_str(st, &args[0])?;
                let v = load(&st.f, &args[1])?;
                match &v {
                    V::I(s) => eprintln!("show {}: {} in {:?}", l, show(s), st.f.range(s)),
                    v => eprintln!("show {}: {:?}", l, v),
                }
                self.one(st, vec![])
            }
            _ => Ok(None),
        }
    }
}

#[allow(dead_code)]
fn unused(_: &dyn Fn(&str) -> Option<Instance>) {
    let _ = |i: Instance| i.def.name();
}
