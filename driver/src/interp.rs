//! Interprocedural value-flow analysis over monomorphised MIR.
//!
//! Abstract domain: constants x value-numbering terms x aggregates, partitioned by the branch
//! facts of a path (no solver: a branch on an unknown term forks, a branch on a known one does not).
//! Nothing of the analysed program is executed: inputs are opaque terms.

use crate::json::J;
use rustc_abi::{FieldIdx, VariantIdx};
use rustc_middle::mir::interpret::{alloc_range, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, BinOp, Body, ConstValue, Operand, Place, PlaceElem, ProjectionElem, Rvalue, StatementKind, TerminatorKind, UnOp};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V<'tcx> {
    /// A known scalar (integer, bool, char or float) as its bits.
    Sc(u128, Ty<'tcx>),
    Zst(Ty<'tcx>),
    /// A known constant, structured on demand.
    C(ConstValue, Ty<'tcx>),
    Agg(Ty<'tcx>, Option<VariantIdx>, Rc<Vec<V<'tcx>>>),
    Ptr(usize, Rc<Vec<(usize, Option<VariantIdx>)>>, Ty<'tcx>),
    T(Rc<Term<'tcx>>, Ty<'tcx>),
    Uninit,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Term<'tcx> {
    In(String),
    Bin(String, V<'tcx>, V<'tcx>),
    Ovf(String, V<'tcx>, V<'tcx>),
    Un(String, V<'tcx>),
    Cast(V<'tcx>, Ty<'tcx>),
    Call(String, Vec<V<'tcx>>, u32),
    Field(V<'tcx>, usize, Option<VariantIdx>, String),
    Deref(V<'tcx>),
    Discr(V<'tcx>),
    Len(V<'tcx>),
    Idx(V<'tcx>, V<'tcx>),
    RefTo(V<'tcx>),
    Havoc(String, u32),
    Str(String),
    CSlice(mir::interpret::AllocId, u64, u64, Ty<'tcx>),
}

#[derive(Clone, PartialEq, Debug)]
enum Fact {
    Eq(u128),
    NotIn(Vec<u128>),
}

#[derive(Clone)]
struct Frame<'tcx> {
    inst: Instance<'tcx>,
    body: &'tcx Body<'tcx>,
    locals: HashMap<usize, usize>,
    bb: mir::BasicBlock,
    stmt: usize,
    ret: Option<(Lv<'tcx>, Option<mir::BasicBlock>)>,
    /// how often each undecided branch of this frame was reached
    turns: Vec<(mir::BasicBlock, u32)>,
}

#[derive(Clone)]
enum Lv<'tcx> {
    Mem(usize, Vec<(usize, Option<VariantIdx>)>),
    Val(V<'tcx>),
}

#[derive(Clone)]
struct St<'tcx> {
    cells: Vec<(V<'tcx>, Ty<'tcx>)>,
    frames: Vec<Frame<'tcx>>,
    facts: Vec<(V<'tcx>, Fact)>,
    asserts: Vec<(String, V<'tcx>)>,
    calls: Vec<V<'tcx>>,
    fresh: u32,
}

pub struct Interp<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    bodies: HashMap<Instance<'tcx>, &'tcx Body<'tcx>>,
    /// locals mentioned by each basic block
    mentioned: HashMap<(usize, mir::BasicBlock), Rc<Vec<usize>>>,
    pub steps: usize,
    pub fns: HashMap<String, usize>,
    pub max_paths: usize,
    /// How often a path may reach the same undecided branch of a function before it is cut off.
    pub max_turns: u32,
    pub max_steps: usize,
    /// Only calls whose name contains one of these are reported.
    pub kept_calls: Option<Vec<String>>,
    /// functions not to be entered, by substring of their path
    pub opaque: Vec<String>,
    /// terms written out for the current function
    written: std::cell::Cell<usize>,
}

/// Terms share their parts; written out they do not, so a loop can make them explode.
const MOST_TERMS: usize = 4_000_000;

enum End<'tcx> {
    Ret(V<'tcx>),
    Panic(String),
    Unsup(String),
    Unreach,
}

pub fn ty_str(t: Ty<'_>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"))
}

type R<T> = Result<T, String>;

impl<'tcx> Interp<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Interp { tcx, env: TypingEnv::fully_monomorphized(), bodies: HashMap::new(), mentioned: HashMap::new(), steps: 0, fns: HashMap::new(), max_paths: std::env::var("WFLOW_MAX_PATHS").ok().and_then(|x| x.parse().ok()).unwrap_or(400), max_turns: std::env::var("WFLOW_TURNS").ok().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX), max_steps: 400_000, kept_calls: std::env::var("WFLOW_CALLS").ok().map(|x| x.split('|').map(String::from).collect()), opaque: vec![], written: Default::default() }
    }

    fn body(&mut self, inst: Instance<'tcx>) -> &'tcx Body<'tcx> {
        if let Some(b) = self.bodies.get(&inst) {
            return b;
        }
        let b = self.tcx.instance_mir(inst.def);
        let mono = inst.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, b.clone()));
        let r: &'tcx Body<'tcx> = Box::leak(Box::new(mono));
        self.bodies.insert(inst, r);
        r
    }

    // ---------------------------------------------------------------- values

    fn is_scalar(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_))
    }

    fn is_zst(&self, t: Ty<'tcx>) -> bool {
        self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.is_zst()).unwrap_or(false)
    }

    pub fn const_v(&self, c: ConstValue, t: Ty<'tcx>) -> V<'tcx> {
        match c {
            ConstValue::ZeroSized => V::Zst(t),
            ConstValue::Scalar(Scalar::Int(i)) if self.is_scalar(t) => V::Sc(i.to_bits(i.size()), t),
            ConstValue::Indirect { alloc_id, offset } if self.is_scalar(t) => {
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    let size = self.tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                    if let Ok(Scalar::Int(i)) = m.inner().read_scalar(&self.tcx, alloc_range(offset, size), false) {
                        return V::Sc(i.to_bits(i.size()), t);
                    }
                }
                V::C(c, t)
            }
            _ => {
                if self.is_zst(t) {
                    return V::Zst(t);
                }
                V::C(c, t)
            }
        }
    }

    /// The string behind a constant `&str`.
    pub fn const_str(&self, c: ConstValue, t: Ty<'tcx>) -> Option<String> {
        let ty::Ref(_, inner, _) = t.kind() else { return None };
        if !inner.is_str() {
            return None;
        }
        let (id, off, len) = self.fat(c)?;
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
            let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            return Some(String::from_utf8_lossy(b).into_owned());
        }
        None
    }

    fn fat(&self, c: ConstValue) -> Option<(mir::interpret::AllocId, u64, u64)> {
        match c {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
                let ps = self.tcx.data_layout.pointer_size();
                let p = m.inner().read_scalar(&self.tcx, alloc_range(offset, ps), true).ok()?;
                let n = m.inner().read_scalar(&self.tcx, alloc_range(offset + ps, ps), false).ok()?;
                let Scalar::Ptr(p, _) = p else { return None };
                let Scalar::Int(n) = n else { return None };
                let (prov, off) = p.into_raw_parts();
                Some((prov.alloc_id(), off.bytes(), n.to_bits(n.size()) as u64))
            }
            _ => None,
        }
    }

    fn thin(&self, c: ConstValue) -> Option<(mir::interpret::AllocId, u64)> {
        let s = match c {
            ConstValue::Scalar(s) => s,
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) else { return None };
                let ps = self.tcx.data_layout.pointer_size();
                m.inner().read_scalar(&self.tcx, alloc_range(offset, ps), true).ok()?
            }
            _ => return None,
        };
        let Scalar::Ptr(p, _) = s else { return None };
        let (prov, off) = p.into_raw_parts();
        Some((prov.alloc_id(), off.bytes()))
    }

    /// Value behind a constant pointer/reference.
    pub fn const_deref(&self, c: ConstValue, t: Ty<'tcx>) -> Option<V<'tcx>> {
        let inner = t.builtin_deref(true)?;
        match inner.kind() {
            ty::Str => Some(V::T(Rc::new(Term::Str(self.const_str(c, Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, inner))?)), inner)),
            ty::Slice(e) => {
                let (id, off, n) = self.fat(c)?;
                Some(V::T(Rc::new(Term::CSlice(id, off, n, *e)), inner))
            }
            ty::Dynamic(..) => None,
            _ => {
                let (id, off) = self.thin(c)?;
                match self.tcx.global_alloc(id) {
                    GlobalAlloc::Memory(_) => Some(self.const_v(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, inner)),
                    GlobalAlloc::Static(d) => {
                        let a = self.tcx.eval_static_initializer(d).ok()?;
                        let id = self.tcx.reserve_and_set_memory_alloc(a);
                        Some(self.const_v(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, inner))
                    }
                    _ => None,
                }
            }
        }
    }

    pub fn cslice_elem(&self, id: mir::interpret::AllocId, off: u64, e: Ty<'tcx>, i: u64) -> V<'tcx> {
        let size = self.tcx.layout_of(self.env.as_query_input(e)).unwrap().size;
        self.const_v(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) + size * i }, e)
    }

    pub fn destructure(&self, c: ConstValue, t: Ty<'tcx>) -> Option<(Option<VariantIdx>, Vec<V<'tcx>>)> {
        match t.kind() {
            ty::Adt(d, _) if !d.is_union() => {}
            ty::Tuple(_) | ty::Array(..) => {}
            _ => return None,
        }
        let d = self.tcx.try_destructure_mir_constant_for_user_output(c, t)?;
        Some((d.variant, d.fields.iter().map(|(c, t)| self.const_v(*c, *t)).collect()))
    }

    fn field_info(&self, t: Ty<'tcx>, i: usize, var: Option<VariantIdx>) -> Option<(String, Ty<'tcx>)> {
        match t.kind() {
            ty::Adt(d, args) => {
                let v = match var {
                    Some(v) => v,
                    None if d.is_struct() || d.is_union() => VariantIdx::from_u32(0),
                    None => return None,
                };
                let f = d.variant(v).fields.get(FieldIdx::from_usize(i))?;
                let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                Some((f.name.to_string(), ft))
            }
            ty::Tuple(ts) => Some((i.to_string(), *ts.get(i)?)),
            ty::Array(e, _) | ty::Slice(e) => Some((i.to_string(), *e)),
            ty::Closure(_, a) => Some((format!("up{i}"), *a.as_closure().upvar_tys().get(i)?)),
            _ => None,
        }
    }

    fn field_count(&self, t: Ty<'tcx>, var: Option<VariantIdx>) -> Option<usize> {
        match t.kind() {
            ty::Adt(d, _) if d.is_struct() => Some(d.non_enum_variant().fields.len()),
            ty::Adt(d, _) if d.is_enum() => var.map(|v| d.variant(v).fields.len()),
            ty::Tuple(ts) => Some(ts.len()),
            ty::Array(_, n) => n.try_to_target_usize(self.tcx).map(|n| n as usize),
            ty::Closure(_, a) => Some(a.as_closure().upvar_tys().len()),
            _ => None,
        }
    }

    fn vty(&self, v: &V<'tcx>) -> Option<Ty<'tcx>> {
        match v {
            V::Sc(_, t) | V::Zst(t) | V::C(_, t) | V::Agg(t, ..) | V::T(_, t) => Some(*t),
            V::Ptr(..) | V::Uninit => None,
        }
    }

    fn proj(&self, v: &V<'tcx>, i: usize, var: Option<VariantIdx>, pty: Ty<'tcx>) -> R<V<'tcx>> {
        Ok(match v {
            V::Agg(_, _, fs) => fs.get(i).cloned().ok_or("field out of range")?,
            V::Uninit => V::Uninit,
            V::C(c, t) => {
                if let Some((_, fs)) = self.destructure(*c, *t) {
                    fs.get(i).cloned().ok_or("const field out of range")?
                } else {
                    let (n, ft) = self.field_info(pty, i, var).ok_or("field of opaque const")?;
                    V::T(Rc::new(Term::Field(v.clone(), i, var, n)), ft)
                }
            }
            V::Zst(t) => {
                let (_, ft) = self.field_info(*t, i, var).ok_or_else(|| format!("field {i} of zst {t}"))?;
                V::Zst(ft)
            }
            _ => {
                let (n, ft) = self.field_info(pty, i, var).ok_or_else(|| format!("field {i} of {pty}"))?;
                if pty.is_array() {
                    return Ok(V::T(Rc::new(Term::Idx(v.clone(), V::Sc(i as u128, self.tcx.types.usize))), ft));
                }
                V::T(Rc::new(Term::Field(v.clone(), i, var, n)), ft)
            }
        })
    }

    fn expand(&self, v: &V<'tcx>, t: Ty<'tcx>, var: Option<VariantIdx>) -> R<(Option<VariantIdx>, Vec<V<'tcx>>)> {
        if let V::Agg(_, var, fs) = v {
            return Ok((*var, (**fs).clone()));
        }
        let n = self.field_count(t, var).ok_or_else(|| format!("cannot expand {t}"))?;
        let mut out = vec![];
        for i in 0..n {
            out.push(self.proj(v, i, var, t)?);
        }
        let var = if t.is_enum() { var } else { None };
        Ok((var, out))
    }

    fn set(&self, v: &V<'tcx>, t: Ty<'tcx>, path: &[(usize, Option<VariantIdx>)], new: V<'tcx>) -> R<V<'tcx>> {
        if path.is_empty() {
            return Ok(new);
        }
        let (i, var) = path[0];
        let (vv, mut fs) = self.expand(v, t, var)?;
        let (_, ft) = self.field_info(t, i, var).ok_or_else(|| format!("set field {i} of {t}"))?;
        if i >= fs.len() {
            return Err("set out of range".into());
        }
        fs[i] = self.set(&fs[i], ft, &path[1..], new)?;
        Ok(V::Agg(t, vv.or(var.filter(|_| t.is_enum())), Rc::new(fs)))
    }

    fn get(&self, st: &St<'tcx>, cell: usize, path: &[(usize, Option<VariantIdx>)]) -> R<V<'tcx>> {
        let (mut v, mut t) = st.cells[cell].clone();
        for (i, var) in path {
            v = self.proj(&v, *i, *var, t)?;
            t = self.field_info(t, *i, *var).ok_or_else(|| format!("get field {i} of {t}"))?.1;
        }
        Ok(v)
    }

    fn path_ty(&self, mut t: Ty<'tcx>, path: &[(usize, Option<VariantIdx>)]) -> R<Ty<'tcx>> {
        for (i, var) in path {
            t = self.field_info(t, *i, *var).ok_or_else(|| format!("field {i} of {t}"))?.1;
        }
        Ok(t)
    }

    // ---------------------------------------------------------------- places

    fn deref_v(&self, st: &St<'tcx>, v: V<'tcx>, pty: Ty<'tcx>) -> R<Lv<'tcx>> {
        Ok(match &v {
            V::Ptr(c, p, _) => Lv::Mem(*c, (**p).clone()),
            V::C(c, t) => match self.const_deref(*c, *t) {
                Some(x) => Lv::Val(x),
                None => {
                    let inner = t.builtin_deref(true).ok_or("deref of non pointer")?;
                    Lv::Val(V::T(Rc::new(Term::Deref(v.clone())), inner))
                }
            },
            V::T(term, t) => {
                let inner = pty.builtin_deref(true).or_else(|| t.builtin_deref(true)).ok_or_else(|| format!("deref of {t}"))?;
                if let Term::RefTo(x) = &**term {
                    return Ok(Lv::Val(x.clone()));
                }
                // elaborated Box dereference: strip pointer wrappers down to the Box
                let mut cur = v.clone();
                loop {
                    let next = match &cur {
                        V::T(t2, ct) => {
                            if ct.is_box() {
                                break;
                            }
                            match &**t2 {
                                Term::Cast(x, _) => x.clone(),
                                Term::Field(x, ..) => x.clone(),
                                _ => break,
                            }
                        }
                        V::Ptr(..) | V::C(..) => break,
                        _ => break,
                    };
                    cur = next;
                }
                if let V::T(_, ct) = &cur {
                    if ct.is_box() {
                        return Ok(Lv::Val(V::T(Rc::new(Term::Deref(cur.clone())), inner)));
                    }
                }
                let _ = st;
                Lv::Val(V::T(Rc::new(Term::Deref(v.clone())), inner))
            }
            V::Agg(_, _, fs) => {
                // pointer wrapper (Box, NonNull, Unique) around a known pointer
                let mut cur = fs.first().cloned();
                while let Some(V::Agg(_, _, f)) = cur {
                    cur = f.first().cloned();
                }
                match cur {
                    Some(V::Ptr(c, p, _)) => Lv::Mem(c, (*p).clone()),
                    _ => return Err(format!("deref of aggregate {pty}")),
                }
            }
            _ => return Err(format!("deref of {v:?}")),
        })
    }

    fn lv(&self, st: &St<'tcx>, place: Place<'tcx>) -> R<Lv<'tcx>> {
        let fr = st.frames.last().unwrap();
        let mut cur = Lv::Mem(fr.locals[&place.local.as_usize()], vec![]);
        let mut pt = mir::PlaceTy::from_ty(fr.body.local_decls[place.local].ty);
        let proj: &[PlaceElem<'tcx>] = place.projection;
        for e in proj {
            let var = pt.variant_index;
            match e {
                ProjectionElem::Deref => {
                    let v = self.rd(st, &cur)?;
                    cur = self.deref_v(st, v, pt.ty)?;
                }
                ProjectionElem::Field(f, _) => {
                    cur = match cur {
                        Lv::Mem(c, mut p) => {
                            p.push((f.as_usize(), var));
                            Lv::Mem(c, p)
                        }
                        Lv::Val(v) => Lv::Val(self.proj(&v, f.as_usize(), var, pt.ty)?),
                    };
                }
                ProjectionElem::Downcast(..) | ProjectionElem::OpaqueCast(_) => {}
                ProjectionElem::Index(l) => {
                    let iv = self.rd(st, &Lv::Mem(fr.locals[&l.as_usize()], vec![]))?;
                    cur = self.index(st, cur, iv, pt.ty)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let base = self.rd(st, &cur)?;
                    let off = if *from_end {
                        let n = self.len_of(&base, pt.ty).ok_or("constant index from end of unknown length")?;
                        n - offset
                    } else {
                        *offset
                    };
                    cur = self.index(st, cur, V::Sc(off as u128, self.tcx.types.usize), pt.ty)?;
                }
                _ => return Err(format!("projection {e:?}")),
            }
            pt = pt.projection_ty(self.tcx, *e);
        }
        Ok(cur)
    }

    fn len_of(&self, v: &V<'tcx>, t: Ty<'tcx>) -> Option<u64> {
        if let ty::Array(_, n) = t.kind() {
            return n.try_to_target_usize(self.tcx);
        }
        if let V::T(t, _) = v {
            match &**t {
                Term::CSlice(_, _, n, _) => return Some(*n),
                Term::Str(s) => return Some(s.len() as u64),
                _ => {}
            }
        }
        if let V::C(_, ct) | V::T(_, ct) = v {
            if let ty::Array(_, n) = ct.kind() {
                return n.try_to_target_usize(self.tcx);
            }
        }
        if let V::Agg(_, _, fs) = v {
            return Some(fs.len() as u64);
        }
        None
    }

    fn index(&self, st: &St<'tcx>, cur: Lv<'tcx>, iv: V<'tcx>, pty: Ty<'tcx>) -> R<Lv<'tcx>> {
        if let V::Sc(i, _) = iv {
            match cur {
                Lv::Mem(c, mut p) if pty.is_array() => {
                    p.push((i as usize, None));
                    return Ok(Lv::Mem(c, p));
                }
                _ => {}
            }
            let base = self.rd(st, &cur)?;
            if let V::T(t, _) = &base {
                if let Term::CSlice(id, off, n, e) = &**t {
                    if (i as u64) < *n {
                        return Ok(Lv::Val(self.cslice_elem(*id, *off, *e, i as u64)));
                    }
                }
            }
            if let V::Agg(_, _, fs) = &base {
                if let Some(x) = fs.get(i as usize) {
                    return Ok(Lv::Val(x.clone()));
                }
            }
            if let V::C(c, t) = &base {
                if let Some((_, fs)) = self.destructure(*c, *t) {
                    if let Some(x) = fs.get(i as usize) {
                        return Ok(Lv::Val(x.clone()));
                    }
                }
            }
        }
        let base = self.rd(st, &cur)?;
        let e = pty.builtin_index().ok_or("index of non array")?;
        Ok(Lv::Val(V::T(Rc::new(Term::Idx(base, iv)), e)))
    }

    fn rd(&self, st: &St<'tcx>, lv: &Lv<'tcx>) -> R<V<'tcx>> {
        match lv {
            Lv::Mem(c, p) => self.get(st, *c, p),
            Lv::Val(v) => Ok(v.clone()),
        }
    }

    fn wr(&self, st: &mut St<'tcx>, lv: &Lv<'tcx>, v: V<'tcx>) -> R<()> {
        match lv {
            Lv::Mem(c, p) => {
                let (old, t) = st.cells[*c].clone();
                let n = self.set(&old, t, p, v)?;
                st.cells[*c].0 = n;
                Ok(())
            }
            Lv::Val(d) => {
                st.calls.push(V::T(Rc::new(Term::Call("<write through unknown pointer>".into(), vec![d.clone(), v], 0)), self.tcx.types.unit));
                Ok(())
            }
        }
    }

    fn op(&self, st: &St<'tcx>, o: &Operand<'tcx>) -> R<V<'tcx>> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.lv(st, *p)?;
                self.rd(st, &l)
            }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if matches!(t.kind(), ty::FnDef(..)) {
                    return Ok(V::Zst(t));
                }
                // a promoted constant belongs to the body being read, which need not be what its path
                // resolves to (see `iter_redirect`)
                if let mir::Const::Unevaluated(uv, _) = c.const_ {
                    if uv.promoted.is_some() {
                        let cid = mir::interpret::GlobalId { instance: Instance::new_raw(uv.def, uv.args), promoted: uv.promoted };
                        return match self.tcx.const_eval_global_id(self.env, cid, DUMMY_SP) {
                            Ok(cv) => Ok(self.const_v(cv, t)),
                            Err(_) => Err("constant does not evaluate".into()),
                        };
                    }
                }
                match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
                    Ok(cv) => Ok(self.const_v(cv, t)),
                    Err(_) => Err("constant does not evaluate".into()),
                }
            }
            Operand::RuntimeChecks(_) => Ok(V::Sc(0, self.tcx.types.bool)),
        }
    }

    // ---------------------------------------------------------------- folding

    fn binop(&self, op: BinOp, a: V<'tcx>, b: V<'tcx>, rty: Ty<'tcx>) -> V<'tcx> {
        let with_ovf = matches!(op, BinOp::AddWithOverflow | BinOp::SubWithOverflow | BinOp::MulWithOverflow);
        let name = match op {
            BinOp::AddWithOverflow | BinOp::AddUnchecked => "Add".to_string(),
            BinOp::SubWithOverflow | BinOp::SubUnchecked => "Sub".to_string(),
            BinOp::MulWithOverflow | BinOp::MulUnchecked => "Mul".to_string(),
            o => format!("{o:?}"),
        };
        if let (V::Sc(x, t), V::Sc(y, t2)) = (&a, &b) {
            if let Some((r, ovf)) = fold_bin(self, &name, *x, *t, *y, *t2) {
                let bool_ty = self.tcx.types.bool;
                if with_ovf {
                    return V::Agg(rty, None, Rc::new(vec![V::Sc(r, *t), V::Sc(ovf as u128, bool_ty)]));
                }
                let rt = if matches!(name.as_str(), "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge") { bool_ty } else { *t };
                return V::Sc(r, rt);
            }
        }
        if !with_ovf && rty.is_bool() {
            // absorbing and neutral elements
            for (c, o) in [(&a, &b), (&b, &a)] {
                if let V::Sc(x, _) = c {
                    match (name.as_str(), *x != 0) {
                        ("BitAnd", false) => return V::Sc(0, rty),
                        ("BitOr", true) => return V::Sc(1, rty),
                        ("BitAnd", true) | ("BitOr", false) => return o.clone(),
                        _ => {}
                    }
                }
            }
        }
        if with_ovf {
            let ts = rty.tuple_fields();
            return V::Agg(rty, None, Rc::new(vec![V::T(Rc::new(Term::Bin(name.clone(), a.clone(), b.clone())), ts[0]), V::T(Rc::new(Term::Ovf(name, a, b)), ts[1])]));
        }
        V::T(Rc::new(Term::Bin(name, a, b)), rty)
    }

    fn cast(&self, kind: &mir::CastKind, v: V<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> V<'tcx> {
        use mir::CastKind::*;
        match kind {
            IntToInt | FloatToInt | FloatToFloat | IntToFloat => {
                if let V::Sc(x, t) = &v {
                    if let Some(r) = fold_cast(self, *x, *t, to) {
                        return V::Sc(r, to);
                    }
                }
                if from == to {
                    return v;
                }
                V::T(Rc::new(Term::Cast(v, from)), to)
            }
            PointerCoercion(..) | PtrToPtr | Subtype | FnPtrToPtr => match &v {
                V::Ptr(..) | V::Zst(_) => v,
                V::C(c, t) => {
                    // array reference -> slice reference keeps its contents
                    if let (Some(a), Some(s)) = (t.builtin_deref(true), to.builtin_deref(true)) {
                        if let (ty::Array(e, n), ty::Slice(_)) = (a.kind(), s.kind()) {
                            if let (Some((id, off)), Some(n)) = (self.thin(*c), n.try_to_target_usize(self.tcx)) {
                                return V::T(Rc::new(Term::RefTo(V::T(Rc::new(Term::CSlice(id, off, n, *e)), s))), to);
                            }
                        }
                    }
                    V::T(Rc::new(Term::Cast(v.clone(), from)), to)
                }
                V::T(t, _) if matches!(&**t, Term::RefTo(V::Agg(..) | V::C(..) | V::T(..))) && from.builtin_deref(true).is_some_and(|x| x.is_array()) && to.builtin_deref(true).is_some_and(|x| x.is_slice()) => V::T(t.clone(), to),
                _ => V::T(Rc::new(Term::Cast(v, from)), to),
            },
            _ => {
                if let (V::Sc(x, _), true) = (&v, self.is_scalar(to)) {
                    return V::Sc(*x, to);
                }
                if let V::Ptr(..) = v {
                    return v;
                }
                V::T(Rc::new(Term::Cast(v, from)), to)
            }
        }
    }

    fn discr(&self, v: &V<'tcx>, t: Ty<'tcx>) -> V<'tcx> {
        let dt = t.discriminant_ty(self.tcx);
        let var = match v {
            V::Agg(_, Some(i), _) => Some(*i),
            V::C(c, t) => self.destructure(*c, *t).and_then(|d| d.0),
            V::Zst(t) => match t.kind() {
                ty::Adt(d, _) if d.is_enum() && d.variants().len() == 1 => Some(VariantIdx::from_u32(0)),
                _ => None,
            },
            _ => None,
        };
        if let Some(i) = var {
            if let Some(d) = t.discriminant_for_variant(self.tcx, i) {
                return V::Sc(d.val, dt);
            }
        }
        V::T(Rc::new(Term::Discr(v.clone())), dt)
    }

    fn rvalue(&self, st: &mut St<'tcx>, rv: &Rvalue<'tcx>) -> R<V<'tcx>> {
        let body = st.frames.last().unwrap().body;
        let rty = rv.ty(&body.local_decls, self.tcx);
        Ok(match rv {
            Rvalue::Use(o, _) => self.op(st, o)?,
            Rvalue::CopyForDeref(p) => {
                let l = self.lv(st, *p)?;
                self.rd(st, &l)?
            }
            Rvalue::Reborrow(_, _, p) => {
                let l = self.lv(st, *p)?;
                self.rd(st, &l)?
            }
            Rvalue::Repeat(o, n) => {
                let v = self.op(st, o)?;
                let n = n.try_to_target_usize(self.tcx).ok_or("repeat count")?;
                if n > 4096 {
                    return Err("large repeat".into());
                }
                V::Agg(rty, None, Rc::new(vec![v; n as usize]))
            }
            Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                match self.lv(st, *p)? {
                    Lv::Mem(c, path) => V::Ptr(c, Rc::new(path), t),
                    Lv::Val(v) => match &v {
                        V::T(term, _) => match &**term {
                            Term::Deref(p) => p.clone(),
                            _ => V::T(Rc::new(Term::RefTo(v.clone())), rty),
                        },
                        _ => V::T(Rc::new(Term::RefTo(v.clone())), rty),
                    },
                }
            }
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let v = self.op(st, o)?;
                self.cast(k, v, from, *to)
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.op(st, &ab.0)?;
                let b = self.op(st, &ab.1)?;
                self.binop(*op, a, b, rty)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.op(st, o)?;
                match op {
                    UnOp::PtrMetadata => {
                        let pt = o.ty(&body.local_decls, self.tcx);
                        let l = self.deref_v(st, v.clone(), pt)?;
                        let base = self.rd(st, &l)?;
                        let inner = pt.builtin_deref(true).ok_or("metadata of non pointer")?;
                        if self.is_zst(rty) {
                            return Ok(V::Zst(rty));
                        }
                        match self.len_of(&base, inner) {
                            Some(n) => V::Sc(n as u128, rty),
                            None => V::T(Rc::new(Term::Len(base)), rty),
                        }
                    }
                    _ => {
                        if let V::Sc(x, t) = &v {
                            if let Some(r) = fold_un(self, *op, *x, *t) {
                                return Ok(V::Sc(r, *t));
                            }
                        }
                        V::T(Rc::new(Term::Un(format!("{op:?}"), v)), rty)
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let l = self.lv(st, *p)?;
                let v = self.rd(st, &l)?;
                self.discr(&v, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut fs = vec![];
                for o in ops.iter() {
                    fs.push(self.op(st, o)?);
                }
                match &**k {
                    mir::AggregateKind::Adt(d, var, _, _, active) => {
                        if active.is_some() {
                            return Err("union aggregate".into());
                        }
                        let is_enum = self.tcx.adt_def(*d).is_enum();
                        V::Agg(rty, if is_enum { Some(*var) } else { None }, Rc::new(fs))
                    }
                    mir::AggregateKind::RawPtr(..) => fs.into_iter().next().ok_or("rawptr aggregate")?,
                    mir::AggregateKind::Coroutine(..) | mir::AggregateKind::CoroutineClosure(..) => return Err("coroutine".into()),
                    _ => V::Agg(rty, None, Rc::new(fs)),
                }
            }
            _ => return Err(format!("rvalue {rv:?}")),
        })
    }

    // ---------------------------------------------------------------- driver

    fn inline_ok(&self, inst: Instance<'tcx>, path: &str, depth: usize) -> bool {
        if depth > 60 {
            return false;
        }
        if self.opaque.iter().any(|p| path.contains(p.as_str())) {
            return false;
        }
        let k = self.tcx.crate_name(inst.def_id().krate).to_string();
        if inst.def_id().is_local() || k.starts_with("whippyunits") || k.starts_with("wit_") {
            return true;
        }
        if matches!(k.as_str(), "core" | "std" | "alloc") {
            const OK: &[&str] = &["::ops::", "::convert::", "core::clone::", "core::mem::", "core::option::", "core::result::", "std::option::Option", "std::result::Result", "core::borrow::", "core::array::", "std::iter::range", "core::iter::range", "std::ops::Range", "std::iter::Step", "::cmp::", "::marker::", "core::num::", "std::num::", "core::f64::", "core::f32::", "std::f64::", "std::f32::", "core::hint::", "std::hint::"];
            const NO: &[&str] = &["panicking", "::fmt", "option::unwrap_failed", "result::unwrap_failed", "expect_failed"];
            // the function's own name; type arguments (a closure of some `fmt`, say) do not count
            let bare = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(inst.def_id()));
            if path.starts_with("core::slice::<impl [") && (path.ends_with("]>::len") || path.ends_with("]>::is_empty")) {
                return true;
            }
            return OK.iter().any(|p| path.contains(p)) && !NO.iter().any(|p| bare.contains(p));
        }
        k == "num_traits" || k == "culit"
    }

    /// An iterator adapter or consumer of core over elements known in number is entered.
    fn inline_iter(&self, st: &St<'tcx>, inst: Instance<'tcx>, path: &str, args: &[(V<'tcx>, Ty<'tcx>)]) -> bool {
        if st.frames.len() > 60 || self.opaque.iter().any(|p| path.contains(p.as_str())) || !matches!(self.tcx.crate_name(inst.def_id().krate).as_str(), "core" | "std") {
            return false;
        }
        let bare = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(inst.def_id()));
        if !bare.contains("iter::") {
            return false;
        }
        if self.tcx.is_closure_like(inst.def_id()) {
            return true;
        }
        // what an iterator overrides for itself works on raw pointers
        if self.tcx.impl_of_assoc(inst.def_id()).is_some_and(|i| self.iter_kind(self.tcx.type_of(i).skip_binder()).is_some()) {
            return false;
        }
        args.iter().any(|a| self.has_known_iter(st, &a.0, 0))
    }

    /// The text behind a `&str`, `str`, `String` or `&String` value, when it is known.
    fn known_text(&self, st: &St<'tcx>, v: &V<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        match v {
            V::C(c, t) => match self.const_str(*c, *t) {
                Some(s) => Some(s),
                None => self.known_text(st, &self.const_deref(*c, *t)?, depth + 1),
            },
            V::Ptr(c, p, _) => {
                let x = self.get(st, *c, p).ok()?;
                self.known_text(st, &x, depth + 1)
            }
            V::T(t, _) => match &**t {
                Term::Str(s) => Some(s.clone()),
                Term::RefTo(x) => self.known_text(st, x, depth + 1),
                Term::Call(n, a, _) if n == "<text>" => self.known_text(st, &a[0], depth + 1),
                _ => None,
            },
            _ => None,
        }
    }

    /// What `ToString` writes for a known integer, character or text.
    fn known_display(&self, st: &St<'tcx>, v: &V<'tcx>, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        match v {
            V::Sc(x, t) => match t.kind() {
                ty::Char => char::from_u32(*x as u32).map(|c| c.to_string()),
                ty::Uint(_) => Some(x.to_string()),
                ty::Int(_) => {
                    let sz = self.tcx.layout_of(self.env.as_query_input(*t)).ok()?.size;
                    Some(sz.sign_extend(*x).to_string())
                }
                _ => None,
            },
            V::Ptr(c, p, _) => {
                let x = self.get(st, *c, p).ok()?;
                self.known_display(st, &x, depth + 1)
            }
            V::T(t, _) if matches!(&**t, Term::RefTo(_)) => {
                let Term::RefTo(x) = &**t else { return None };
                self.known_display(st, x, depth + 1)
            }
            V::C(c, t) if self.const_str(*c, *t).is_none() => self.known_display(st, &self.const_deref(*c, *t)?, depth + 1),
            _ => self.known_text(st, v, depth + 1),
        }
    }

    /// Calls on texts whose content is known ("<strings>" among the opaque names).
    fn string_model(&self, st: &mut St<'tcx>, path: &str, args: &[(V<'tcx>, Ty<'tcx>)], rty: Ty<'tcx>) -> Option<V<'tcx>> {
        let text = |s: String| V::T(Rc::new(Term::Call("<text>".into(), vec![V::T(Rc::new(Term::Str(s)), self.tcx.types.str_)], 0)), rty);
        let slice = |s: String| V::T(Rc::new(Term::RefTo(V::T(Rc::new(Term::Str(s)), self.tcx.types.str_))), rty);
        let arg = |i: usize| args.get(i).map(|a| &a.0);
        let is_string = path.starts_with("std::string::String::");
        if is_string && path.ends_with("::new") || path == "std::string::String::with_capacity" || path == "<std::string::String as std::default::Default>::default" {
            return Some(text(String::new()));
        }
        if is_string && (path.ends_with("::push_str") || path.ends_with("::push")) {
            let V::Ptr(c, p, _) = arg(0)? else { return None };
            if self.texts() && (self.known_text(st, arg(0)?, 0).is_none() || !matches!(arg(1)?, V::Sc(..)) && self.known_text(st, arg(1)?, 0).is_none()) {
                // neither is lost: what it was, followed by the rest
                let (old, t) = (self.get(st, *c, p).ok()?, self.path_ty(st.cells[*c].1, p).ok()?);
                let more = self.snapshot(st, arg(1)?, 0);
                let new = V::T(Rc::new(Term::Call("<concat>".into(), vec![old, more], 0)), t);
                let lv = Lv::Mem(*c, (**p).clone());
                self.wr(st, &lv, new).ok()?;
                return Some(V::Zst(rty));
            }
            let mut s = self.known_text(st, arg(0)?, 0)?;
            match arg(1)? {
                V::Sc(x, _) if path.ends_with("::push") => s.push(char::from_u32(*x as u32)?),
                v => s.push_str(&self.known_text(st, v, 0)?),
            }
            let t = self.path_ty(st.cells[*c].1, p).ok()?;
            let new = V::T(Rc::new(Term::Call("<text>".into(), vec![V::T(Rc::new(Term::Str(s)), self.tcx.types.str_)], 0)), t);
            let lv = Lv::Mem(*c, (**p).clone());
            self.wr(st, &lv, new).ok()?;
            return Some(V::Zst(rty));
        }
        if self.texts() && path.starts_with("<std::string::String as std::ops::Add<&str>>") && args.len() == 2 {
            return Some(match (self.known_text(st, arg(0)?, 0), self.known_text(st, arg(1)?, 0)) {
                (Some(x), Some(y)) => text(x + &y),
                _ => V::T(Rc::new(Term::Call("<concat>".into(), vec![arg(0)?.clone(), self.snapshot(st, arg(1)?, 0)], 0)), rty),
            });
        }
        let of_text = is_string || path.starts_with("core::str::<impl str>::") || path.starts_with("<std::string::String as ") || path.starts_with("<str as ");
        if of_text && path.ends_with("::is_empty") {
            return Some(V::Sc(self.known_text(st, arg(0)?, 0)?.is_empty() as u128, rty));
        }
        if of_text && path.ends_with("::len") {
            return Some(V::Sc(self.known_text(st, arg(0)?, 0)?.len() as u128, rty));
        }
        if is_string && path.ends_with("::as_str") || path == "<std::string::String as std::ops::Deref>::deref" || path.starts_with("<std::string::String as std::convert::AsRef<str>>") || path.starts_with("<std::string::String as std::borrow::Borrow<str>>") {
            return Some(slice(self.known_text(st, arg(0)?, 0)?));
        }
        if path.ends_with("as std::string::ToString>::to_string") {
            return Some(text(self.known_display(st, arg(0)?, 0)?));
        }
        if path.ends_with("<impl std::borrow::ToOwned for str>::to_owned") || path.starts_with("<std::string::String as std::convert::From<&str>>") || path == "<std::string::String as std::clone::Clone>::clone" {
            return Some(text(self.known_text(st, arg(0)?, 0)?));
        }
        if path.contains("PartialEq") && path.contains("str") && path.ends_with("::eq") && args.len() == 2 {
            let (a, b) = (self.known_text(st, arg(0)?, 0)?, self.known_text(st, arg(1)?, 0)?);
            return Some(V::Sc((a == b) as u128, rty));
        }
        None
    }

    fn snapshot(&self, st: &St<'tcx>, v: &V<'tcx>, depth: usize) -> V<'tcx> {
        if depth > 6 {
            return v.clone();
        }
        match v {
            V::Ptr(c, p, t) => match self.get(st, *c, p) {
                Ok(x) => V::T(Rc::new(Term::RefTo(self.snapshot(st, &x, depth + 1))), Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, *t)),
                Err(_) => v.clone(),
            },
            V::Agg(t, var, fs) => V::Agg(*t, *var, Rc::new(fs.iter().map(|f| self.snapshot(st, f, depth + 1)).collect())),
            _ => v.clone(),
        }
    }

    /// Forget whatever an unseen function may write through `v`; says whether there was anything.
    fn havoc(&self, st: &mut St<'tcx>, v: &V<'tcx>, t: Ty<'tcx>, why: &str) -> bool {
        let mutable = match t.kind() {
            ty::Ref(_, _, m) => m.is_mut(),
            ty::RawPtr(_, m) => m.is_mut(),
            _ => false,
        };
        let mut any = mutable && t.is_ref();
        match v {
            // a mutable borrow captured by a closure, or held in a struct
            V::Agg(_, var, fs) => {
                for (i, f) in fs.iter().enumerate() {
                    let src = if i == 0 { self.iter_kind(t) } else { None };
                    if let Some((kind, e)) = src {
                        if kind == "iter_mut" {
                            any |= self.havoc(st, f, Ty::new_mut_ref(self.tcx, self.tcx.lifetimes.re_erased, Ty::new_slice(self.tcx, e)), why);
                        }
                    } else if let Some((_, ft)) = self.field_info(t, i, *var) {
                        any |= self.havoc(st, f, ft, why);
                    }
                }
            }
            V::Ptr(c, p, _) if mutable => {
                let ct = st.cells[*c].1;
                if let Ok(pt) = self.path_ty(ct, p) {
                    if let Ok(old @ V::Agg(..)) = self.get(st, *c, p) {
                        self.havoc(st, &old, pt, why);
                    }
                    st.fresh += 1;
                    let h = V::T(Rc::new(Term::Havoc(why.to_string(), st.fresh)), pt);
                    let lv = Lv::Mem(*c, (**p).clone());
                    let _ = self.wr(st, &lv, h);
                }
            }
            _ => {}
        }
        any
    }

    // ---------------------------------------------------------------- known texts ("<texts>")

    fn texts(&self) -> bool {
        self.opaque.iter().any(|p| p == "<texts>")
    }

    fn peeled(&self, st: &St<'tcx>, v: &V<'tcx>, depth: usize) -> Option<V<'tcx>> {
        if depth > 6 {
            return None;
        }
        match v {
            V::Ptr(c, p, _) => self.peeled(st, &self.get(st, *c, p).ok()?, depth + 1),
            V::T(t, _) => match &**t {
                Term::RefTo(x) => self.peeled(st, x, depth + 1),
                _ => Some(v.clone()),
            },
            V::C(c, t) if t.is_ref() && self.const_str(*c, *t).is_none() => self.peeled(st, &self.const_deref(*c, *t)?, depth + 1),
            _ => Some(v.clone()),
        }
    }

    fn is_vec(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(d, _) if self.tcx.def_path_str(d.did()) == "std::vec::Vec")
    }

    /// The elements of a vector, array or slice (or a reference to one) whose length is known.
    fn elems(&self, st: &St<'tcx>, v: &V<'tcx>) -> Option<Vec<V<'tcx>>> {
        let v = match v {
            V::C(c, t) if self.fat(*c).is_some() && t.builtin_deref(true).is_some_and(|x| x.is_slice()) => self.const_deref(*c, *t)?,
            _ => self.peeled(st, v, 0)?,
        };
        match &v {
            V::Agg(t, _, fs) if self.is_vec(*t) || t.is_array() || t.is_slice() => Some((**fs).clone()),
            V::C(c, t) if t.is_array() => Some(self.destructure(*c, *t)?.1),
            V::T(t, _) => match &**t {
                Term::CSlice(id, off, n, e) if *n <= 4096 => Some((0..*n).map(|i| self.cslice_elem(*id, *off, *e, i)).collect()),
                _ => None,
            },
            _ => None,
        }
    }

    fn ref_to(&self, v: V<'tcx>, pointee: Ty<'tcx>) -> V<'tcx> {
        V::T(Rc::new(Term::RefTo(v)), Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, pointee))
    }

    fn str_term(&self, s: String) -> V<'tcx> {
        V::T(Rc::new(Term::Str(s)), self.tcx.types.str_)
    }

    fn known_number(&self, st: &St<'tcx>, v: &V<'tcx>) -> Option<f64> {
        match self.peeled(st, v, 0)? {
            V::Sc(x, t) if t == self.tcx.types.f64 => Some(f64::from_bits(x as u64)),
            _ => None,
        }
    }

    /// What `format!` writes, when every argument is known.
    fn formatted(&self, st: &St<'tcx>, v: &V<'tcx>) -> Option<String> {
        let V::T(t, _) = v else { return None };
        let Term::Call(n, a, _) = &**t else { return None };
        if !n.contains("Arguments") {
            return None;
        }
        if n.contains("::from_str") || n.contains("::new_const") {
            return self.known_text(st, &a[0], 0);
        }
        let tmpl: Vec<u8> = self.elems(st, a.first()?)?.iter().map(|b| if let V::Sc(x, _) = b { Some(*x as u8) } else { None }).collect::<Option<_>>()?;
        let args = self.elems(st, a.get(1)?)?;
        let arg = |i: usize| -> Option<(String, V<'tcx>)> {
            let V::T(t, _) = args.get(i)? else { return None };
            let Term::Call(n, a, _) = &**t else { return None };
            Some((n.clone(), a.first()?.clone()))
        };
        let u16_at = |i: usize| Some(u16::from_le_bytes([*tmpl.get(i)?, *tmpl.get(i + 1)?]) as usize);
        let (mut out, mut i, mut next) = (String::new(), 0usize, 0usize);
        loop {
            let n = *tmpl.get(i)?;
            i += 1;
            if n == 0 {
                return Some(out);
            }
            if n <= 0x80 {
                let len = if n == 0x80 {
                    i += 2;
                    u16_at(i - 2)?
                } else {
                    n as usize
                };
                out.push_str(std::str::from_utf8(tmpl.get(i..i + len)?).ok()?);
                i += len;
                continue;
            }
            let mut precision = None;
            if n & 1 != 0 {
                // the default flags only
                if tmpl.get(i..i + 4)? != [0x20, 0, 0, 0x60] && n & 4 == 0 {
                    return None;
                }
                i += 4;
            }
            if n & 2 != 0 {
                return None;
            }
            if n & 4 != 0 {
                precision = Some(u16_at(i)?);
                i += 2;
            }
            if n & 8 != 0 {
                next = u16_at(i)?;
                i += 2;
            }
            if n & 32 != 0 {
                let (how, v) = arg(precision?)?;
                let V::Sc(x, _) = self.peeled(st, &v, 0)? else { return None };
                if !how.contains("from_usize") {
                    return None;
                }
                precision = Some(x as usize);
            }
            let (how, v) = arg(next)?;
            next += 1;
            if !how.contains("::new_display::<") {
                return None;
            }
            match (self.known_number(st, &v), precision) {
                (Some(x), Some(p)) => out.push_str(&format!("{x:.p$}")),
                (Some(x), None) => out.push_str(&format!("{x}")),
                (None, None) => out.push_str(&self.known_display(st, &v, 0)?),
                _ => return None,
            }
        }
    }

    /// Functions on texts, vectors and tables whose content is known.
    fn text_model(&self, st: &mut St<'tcx>, inst: Option<Instance<'tcx>>, path: &str, args: &[(V<'tcx>, Ty<'tcx>)], rty: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let Some(inst) = inst else { return Ok(None) };
        let d = inst.def_id();
        if !matches!(self.tcx.crate_name(d.krate).as_str(), "core" | "std" | "alloc") {
            return Ok(None);
        }
        let Some(name) = self.tcx.opt_item_name(d) else { return Ok(None) };
        let name = name.as_str();
        let us = self.tcx.types.usize;
        let yes = |b: bool| V::Sc(b as u128, rty);
        let opt = |x: Option<V<'tcx>>| V::Agg(rty, Some(VariantIdx::from_usize(x.is_some() as usize)), Rc::new(x.into_iter().collect()));
        let text = |s: String| V::T(Rc::new(Term::Call("<text>".into(), vec![self.str_term(s)], 0)), rty);
        if name == "format" && path.ends_with("fmt::format") {
            return Ok(self.formatted(st, &args[0].0).map(text));
        }
        if name == "type_name" && path.contains("any::type_name") {
            let t = inst.args.type_at(0);
            let n = rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_crate_prefix!(t.to_string())));
            return Ok(Some(self.ref_to(self.str_term(n), self.tcx.types.str_)));
        }
        if self.is_vec(rty) && args.is_empty() && name == "new" || self.is_vec(rty) && name == "with_capacity" {
            return Ok(Some(V::Agg(rty, None, Rc::new(vec![]))));
        }
        let Some((a0, t0)) = args.first() else { return Ok(None) };
        let recv = t0.peel_refs();
        let string = recv.is_str() || matches!(recv.kind(), ty::Adt(d, _) if self.tcx.def_path_str(d.did()) == "std::string::String");
        if string {
            let Some(s) = self.known_text(st, a0, 0) else { return Ok(None) };
            let pats = || -> Option<Vec<String>> {
                let (v, t) = args.get(1)?;
                if let Some(x) = self.known_text(st, v, 0) {
                    return Some(vec![x]);
                }
                if let (V::Sc(c, _), ty::Char) = (v, t.kind()) {
                    return Some(vec![char::from_u32(*c as u32)?.to_string()]);
                }
                self.elems(st, v)?.iter().map(|x| if let V::Sc(c, _) = x { Some(char::from_u32(*c as u32)?.to_string()) } else { None }).collect()
            };
            return Ok(match name {
                "contains" => pats().map(|p| yes(p.iter().any(|x| s.contains(x.as_str())))),
                "starts_with" => pats().map(|p| yes(p.iter().any(|x| s.starts_with(x.as_str())))),
                "ends_with" => pats().map(|p| yes(p.iter().any(|x| s.ends_with(x.as_str())))),
                "replace" => match (pats(), args.get(2).and_then(|x| self.known_text(st, &x.0, 0))) {
                    (Some(p), Some(to)) if p.len() == 1 => Some(text(s.replace(&p[0], &to))),
                    _ => None,
                },
                "chars" | "char_indices" => {
                    let Some((_, e)) = self.iter_kind(rty) else { return Ok(None) };
                    let cs: Vec<V<'tcx>> = s
                        .char_indices()
                        .map(|(i, c)| {
                            let c = V::Sc(c as u128, self.tcx.types.char);
                            if name == "chars" { c } else { V::Agg(e, None, Rc::new(vec![V::Sc(i as u128, us), c])) }
                        })
                        .collect();
                    Some(self.owned_iter(rty, e, cs))
                }
                "trim" => Some(self.ref_to(self.str_term(s.trim().to_string()), self.tcx.types.str_)),
                "to_lowercase" => Some(text(s.to_lowercase())),
                "strip_prefix" => pats().filter(|p| p.len() == 1).map(|p| opt(s.strip_prefix(p[0].as_str()).map(|r| self.ref_to(self.str_term(r.to_string()), self.tcx.types.str_)))),
                "strip_suffix" => pats().filter(|p| p.len() == 1).map(|p| opt(s.strip_suffix(p[0].as_str()).map(|r| self.ref_to(self.str_term(r.to_string()), self.tcx.types.str_)))),
                "index" => match args.get(1).map(|x| &x.0) {
                    Some(V::Agg(_, _, fs)) => match &fs[..] {
                        [V::Sc(a, _), V::Sc(b, _)] => s.get(*a as usize..*b as usize).map(|r| self.ref_to(self.str_term(r.to_string()), self.tcx.types.str_)),
                        [V::Sc(a, _)] if path.contains("RangeFrom") => s.get(*a as usize..).map(|r| self.ref_to(self.str_term(r.to_string()), self.tcx.types.str_)),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            });
        }
        if self.is_vec(recv) {
            if name == "push" {
                let V::Ptr(c, p, _) = a0 else { return Ok(None) };
                let V::Agg(t, var, fs) = self.get(st, *c, p)? else { return Ok(None) };
                let mut fs = (*fs).clone();
                fs.push(args[1].0.clone());
                let lv = Lv::Mem(*c, (**p).clone());
                self.wr(st, &lv, V::Agg(t, var, Rc::new(fs)))?;
                return Ok(Some(V::Zst(rty)));
            }
            let Some(es) = self.elems(st, a0) else { return Ok(None) };
            let e = recv.walk().nth(1).and_then(|g| g.as_type());
            return Ok(match (name, e) {
                ("len", _) => Some(V::Sc(es.len() as u128, us)),
                ("is_empty", _) => Some(yes(es.is_empty())),
                ("clone", _) => Some(V::Agg(recv, None, Rc::new(es))),
                ("into_iter", Some(e)) if self.iter_kind(rty).is_some_and(|k| k.0 == "iter") => {
                    let n = es.len() as u128;
                    let src = self.ref_to(V::Agg(Ty::new_array(self.tcx, e, n as u64), None, Rc::new(es)), Ty::new_slice(self.tcx, e));
                    Some(V::Agg(rty, None, Rc::new(vec![src, V::Sc(0, us), V::Sc(n, us)])))
                }
                ("into_iter", Some(e)) if self.iter_kind(rty).is_some_and(|k| k.0 == "into_iter") => Some(self.owned_iter(rty, e, es)),
                ("deref" | "as_slice" | "as_ref" | "borrow", Some(e)) => Some(self.ref_to(V::Agg(Ty::new_array(self.tcx, e, es.len() as u64), None, Rc::new(es)), Ty::new_slice(self.tcx, e))),
                ("index", Some(e)) => match args.get(1).map(|x| &x.0) {
                    Some(V::Sc(i, t)) if *t == us => es.get(*i as usize).map(|x| self.ref_to(x.clone(), e)),
                    _ => None,
                },
                _ => None,
            });
        }
        if recv.is_slice() || recv.is_array() {
            let e = recv.builtin_index().unwrap();
            let Some(es) = self.elems(st, a0) else { return Ok(None) };
            return Ok(match name {
                "to_vec" | "into_vec" => Some(V::Agg(rty, None, Rc::new(es))),
                "get" => match args.get(1).map(|x| &x.0) {
                    Some(V::Sc(i, t)) if *t == us => Some(opt(es.get(*i as usize).map(|x| self.ref_to(x.clone(), e)))),
                    _ => None,
                },
                "first" => Some(opt(es.first().map(|x| self.ref_to(x.clone(), e)))),
                "last" => Some(opt(es.last().map(|x| self.ref_to(x.clone(), e)))),
                "contains" => {
                    let (x, xs) = (self.known_text(st, &args[1].0, 0), es.iter().map(|y| self.known_text(st, y, 0)).collect::<Option<Vec<_>>>());
                    match (x, xs) {
                        (Some(x), Some(xs)) => Some(yes(xs.contains(&x))),
                        _ => None,
                    }
                }
                "join" | "concat" => {
                    let sep = if name == "join" { self.known_text(st, &args[1].0, 0) } else { Some(String::new()) };
                    match (sep, es.iter().map(|y| self.known_text(st, y, 0)).collect::<Option<Vec<_>>>()) {
                        (Some(sep), Some(xs)) => Some(text(xs.join(&sep))),
                        _ => None,
                    }
                }
                _ => None,
            });
        }
        Ok(None)
    }

    // ---------------------------------------------------------------- iterators over short arrays

    /// `std::slice::Iter`, `std::slice::IterMut` and `std::array::IntoIter`, with their element type.
    fn iter_kind(&self, t: Ty<'tcx>) -> Option<(&'static str, Ty<'tcx>)> {
        let ty::Adt(d, a) = t.kind() else { return None };
        let k = match self.tcx.def_path_str(d.did()).as_str() {
            "std::slice::Iter" | "core::slice::Iter" => "iter",
            "std::slice::IterMut" | "core::slice::IterMut" => "iter_mut",
            "std::array::IntoIter" | "core::array::IntoIter" => "into_iter",
            "std::vec::IntoIter" | "alloc::vec::IntoIter" if self.texts() => "into_iter",
            "std::str::Chars" | "core::str::Chars" if self.texts() => return Some(("into_iter", self.tcx.types.char)),
            "std::str::CharIndices" | "core::str::CharIndices" if self.texts() => {
                return Some(("into_iter", Ty::new_tup(self.tcx, &[self.tcx.types.usize, self.tcx.types.char])));
            }
            _ => return None,
        };
        Some((k, a.types().next()?))
    }

    /// Does a value contain an iterator whose remaining elements are known in number?
    fn has_known_iter(&self, st: &St<'tcx>, v: &V<'tcx>, depth: usize) -> bool {
        if depth > 6 {
            return false;
        }
        match v {
            V::Ptr(c, p, _) => self.get(st, *c, p).is_ok_and(|x| self.has_known_iter(st, &x, depth + 1)),
            V::Agg(t, _, fs) => {
                if self.iter_kind(*t).is_some() {
                    return true;
                }
                if let (ty::Adt(d, _), [V::Sc(..), V::Sc(..)]) = (t.kind(), &fs[..]) {
                    if self.tcx.def_path_str(d.did()) == "std::ops::Range" {
                        return true;
                    }
                }
                fs.iter().any(|f| self.has_known_iter(st, f, depth + 1))
            }
            _ => false,
        }
    }

    /// An iterator over elements held by value.
    fn owned_iter(&self, t: Ty<'tcx>, e: Ty<'tcx>, es: Vec<V<'tcx>>) -> V<'tcx> {
        let us = self.tcx.types.usize;
        let n = es.len();
        V::Agg(t, None, Rc::new(vec![V::Agg(Ty::new_array(self.tcx, e, n as u64), None, Rc::new(es)), V::Sc(0, us), V::Sc(n as u128, us)]))
    }

    fn iter_elem(&self, st: &St<'tcx>, kind: &str, src: &V<'tcx>, e: Ty<'tcx>, i: u128) -> R<V<'tcx>> {
        let slice = Ty::new_slice(self.tcx, e);
        let iv = V::Sc(i, self.tcx.types.usize);
        if kind == "into_iter" {
            let lv = self.index(st, Lv::Val(src.clone()), iv, slice)?;
            return self.rd(st, &lv);
        }
        let rt = Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, slice);
        let base = self.deref_v(st, src.clone(), rt)?;
        let bt = match &base {
            Lv::Mem(c, p) => self.path_ty(st.cells[*c].1, p)?,
            Lv::Val(_) => slice,
        };
        Ok(match self.index(st, base, iv, bt)? {
            Lv::Mem(c, p) => V::Ptr(c, Rc::new(p), e),
            Lv::Val(v) => {
                let t = Ty::new_imm_ref(self.tcx, self.tcx.lifetimes.re_erased, e);
                V::T(Rc::new(Term::RefTo(v)), t)
            }
        })
    }

    /// The result of a method of a slice or array iterator, when the number of elements is known.
    fn iter_model(&self, st: &mut St<'tcx>, inst: Instance<'tcx>, args: &[(V<'tcx>, Ty<'tcx>)], rty: Ty<'tcx>) -> R<Option<V<'tcx>>> {
        let longest: u64 = if self.texts() { 4096 } else { 16 };
        let d = inst.def_id();
        if !matches!(inst.def, ty::InstanceKind::Item(_)) || !matches!(self.tcx.crate_name(d.krate).as_str(), "core" | "std" | "alloc") || args.is_empty() {
            return Ok(None);
        }
        let Some(name) = self.tcx.opt_item_name(d) else { return Ok(None) };
        let name = name.as_str();
        let us = self.tcx.types.usize;
        if let Some((kind, _)) = self.iter_kind(rty) {
            // making one
            if args.len() == 1 && matches!(name, "iter" | "iter_mut" | "into_iter") && args[0].1.builtin_deref(true).is_some_and(|t| t.is_slice()) {
                let mut src = args[0].0.clone();
                while let V::T(t, _) = &src {
                    match &**t {
                        Term::Cast(x, from) if from.builtin_deref(true).is_some_and(|a| a.is_array()) => src = x.clone(),
                        _ => break,
                    }
                }
                if kind == "iter_mut" && !matches!(src, V::Ptr(..)) {
                    return Ok(None);
                }
                let pt = self.vty(&src).filter(|t| t.builtin_deref(true).is_some()).unwrap_or(args[0].1);
                let Ok(base) = self.deref_v(st, src.clone(), pt) else { return Ok(None) };
                let at = match &base {
                    Lv::Mem(c, p) => self.path_ty(st.cells[*c].1, p)?,
                    Lv::Val(_) => pt.builtin_deref(true).unwrap(),
                };
                let v = self.rd(st, &base)?;
                return Ok(self.len_of(&v, at).filter(|n| *n <= longest).map(|n| V::Agg(rty, None, Rc::new(vec![src, V::Sc(0, us), V::Sc(n as u128, us)]))));
            }
            if args.len() == 1 && name == "into_iter" && args[0].1.is_array() {
                return Ok(self.len_of(&args[0].0, args[0].1).filter(|n| *n <= longest).map(|n| V::Agg(rty, None, Rc::new(vec![args[0].0.clone(), V::Sc(0, us), V::Sc(n as u128, us)]))));
            }
        }
        if name == "spec_eq" || name == "spec_ne" {
            if let (Some(a), Some(b)) = (args.first().and_then(|x| self.elems(st, &x.0)), args.get(1).and_then(|x| self.elems(st, &x.0))) {
                if a.len() == b.len() && a.iter().chain(&b).all(|x| matches!(x, V::Sc(..))) {
                    return Ok(Some(V::Sc(((a == b) == (name == "spec_eq")) as u128, rty)));
                }
            }
            return Ok(None);
        }
        let Some((kind, e)) = self.iter_kind(args[0].1.peel_refs()) else { return Ok(None) };
        let (cur, at) = match &args[0].0 {
            V::Ptr(c, p, _) => (self.get(st, *c, p)?, Some((*c, (**p).clone()))),
            V::T(t, _) => match &**t {
                Term::RefTo(x) => (x.clone(), None),
                _ => return Ok(None),
            },
            v => (v.clone(), None),
        };
        let V::Agg(it, _, fs) = &cur else { return Ok(None) };
        let [src, V::Sc(lo, _), V::Sc(hi, _)] = &fs[..] else { return Ok(None) };
        let (lo, hi) = (*lo, *hi);
        let opt = |x: Option<V<'tcx>>| V::Agg(rty, Some(VariantIdx::from_usize(x.is_some() as usize)), Rc::new(x.into_iter().collect()));
        Ok(Some(match name {
            "next" | "next_back" => {
                let Some((c, p)) = at else { return Ok(None) };
                if lo >= hi {
                    opt(None)
                } else {
                    let back = name == "next_back";
                    let x = self.iter_elem(st, kind, src, e, if back { hi - 1 } else { lo })?;
                    let (l2, h2) = if back { (lo, hi - 1) } else { (lo + 1, hi) };
                    let new = V::Agg(*it, None, Rc::new(vec![src.clone(), V::Sc(l2, us), V::Sc(h2, us)]));
                    self.wr(st, &Lv::Mem(c, p), new)?;
                    opt(Some(x))
                }
            }
            "__iterator_get_unchecked" => match args.get(1) {
                Some((V::Sc(i, _), _)) if lo + i < hi => self.iter_elem(st, kind, src, e, lo + i)?,
                _ => return Ok(None),
            },
            "size_hint" => {
                let n = V::Sc(hi - lo, us);
                let ft = rty.tuple_fields();
                V::Agg(rty, None, Rc::new(vec![n.clone(), V::Agg(ft[1], Some(VariantIdx::from_usize(1)), Rc::new(vec![n]))]))
            }
            "len" | "count" => V::Sc(hi - lo, rty),
            "is_empty" => V::Sc((lo >= hi) as u128, rty),
            "clone" => cur.clone(),
            _ => return Ok(None),
        }))
    }

    /// The provided body a specialised method of a slice or array iterator overrides, or the loop
    /// `wv_shim` gives for a function of core that fills an array through raw memory.
    fn iter_redirect(&self, st: &St<'tcx>, inst: Instance<'tcx>, args: &[(V<'tcx>, Ty<'tcx>)]) -> Option<Instance<'tcx>> {
        let tcx = self.tcx;
        let d = inst.def_id();
        if !matches!(tcx.crate_name(d.krate).as_str(), "core" | "std" | "alloc") || !matches!(inst.def, ty::InstanceKind::Item(_)) {
            return None;
        }
        let bare = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        let shim = |n: &str, types: &[ty::GenericArg<'tcx>]| {
            let f = tcx.hir_crate_items(()).definitions().find(|l| tcx.def_path_str(l.to_def_id()).ends_with(n) && tcx.def_kind(l.to_def_id()) == rustc_hir::def::DefKind::Fn)?;
            Some(Instance::new_raw(f.to_def_id(), tcx.mk_args(types)))
        };
        if bare.contains("std::vec::Vec<T> as std::iter::FromIterator") && self.texts() && inst.args.len() == 2 {
            return shim("wv_shim::vec_from_iter", &inst.args[..]);
        }
        if bare.contains("std::string::String as std::iter::FromIterator<") && self.texts() {
            if let Some(i) = inst.args.types().last() {
                let f = if bare.contains("FromIterator<char>") {
                    "wv_shim::string_from_chars"
                } else if bare.contains("FromIterator<std::string::String>") {
                    "wv_shim::string_from_strings"
                } else if bare.contains("FromIterator<&") && bare.contains("str>") {
                    "wv_shim::string_from_strs"
                } else {
                    return None;
                };
                return shim(f, &[i.into()]);
            }
        }
        if bare.contains("str::<impl str>::contains") && self.texts() && inst.args.types().next().is_some_and(|t| t.is_closure()) {
            return shim("wv_shim::str_any", &inst.args[..]);
        }
        if bare.ends_with("array::from_fn") && inst.args.len() == 3 {
            return shim("wv_shim::array_from_fn", &inst.args[..]);
        }
        if bare.contains("array::<impl [T; N]>::map") && inst.args.len() == 4 {
            return shim("wv_shim::array_map", &inst.args[..]);
        }
        let Some(recv) = args.first() else { return None };
        self.iter_kind(recv.1.peel_refs())?;
        if !self.has_known_iter(st, &recv.0, 4) {
            return None;
        }
        let imp = tcx.impl_of_assoc(d)?;
        if !tcx.impl_is_of_trait(imp) {
            return None;
        }
        let m = tcx.associated_item(d).trait_item_def_id()?;
        if !tcx.associated_item(m).defaultness(tcx).has_value() || !tcx.is_mir_available(m) {
            return None;
        }
        let tr = tcx.impl_trait_ref(imp).instantiate(tcx, inst.args);
        let a = inst.args.rebase_onto(tcx, imp, tr.skip_norm_wip().args);
        Some(Instance::new_raw(m, tcx.erase_and_anonymize_regions(a)))
    }

    fn call(&mut self, st: &mut St<'tcx>, func: &Operand<'tcx>, args: Vec<(V<'tcx>, Ty<'tcx>)>, dest: Lv<'tcx>, rty: Ty<'tcx>, target: Option<mir::BasicBlock>) -> R<Option<End<'tcx>>> {
        let body = st.frames.last().unwrap().body;
        let fty = func.ty(&body.local_decls, self.tcx);
        let mut inst = None;
        if let ty::FnDef(d, a) = fty.kind() {
            inst = Instance::try_resolve(self.tcx, self.env, *d, a.no_bound_vars().unwrap()).ok().flatten();
        } else if let V::C(ConstValue::Scalar(Scalar::Ptr(p, _)), _) = self.op(st, func)? {
            if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(p.provenance.alloc_id()) {
                inst = Some(instance);
            }
        } else if let V::Zst(t) = self.op(st, func)? {
            if let ty::FnDef(d, a) = t.kind() {
                inst = Instance::try_resolve(self.tcx, self.env, *d, a.no_bound_vars().unwrap()).ok().flatten();
            }
        }
        let path = match inst {
            Some(i) => rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args)),
            None => match fty.kind() {
                ty::FnDef(d, a) => rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(*d, a.no_bound_vars().unwrap())),
                _ => "<fn pointer>".into(),
            },
        };
        if target.is_none() || rty.is_never() {
            // a diverging call to a crate function may still be worth naming
            return Ok(Some(End::Panic(path)));
        }
        if self.opaque.iter().any(|p| p == "<strings>" || p == "<texts>") {
            if let Some(r) = self.string_model(st, &path, &args, rty) {
                let r = if self.is_zst(rty) { V::Zst(rty) } else { r };
                self.wr(st, &dest, r)?;
                let f = st.frames.last_mut().unwrap();
                f.bb = target.unwrap();
                f.stmt = 0;
                return Ok(None);
            }
        }
        if self.texts() {
            if let Some(r) = self.text_model(st, inst, &path, &args, rty)? {
                self.wr(st, &dest, r)?;
                let f = st.frames.last_mut().unwrap();
                f.bb = target.unwrap();
                f.stmt = 0;
                return Ok(None);
            }
        }
        if let Some(i) = inst {
            if let Some(r) = self.iter_model(st, i, &args, rty)? {
                self.wr(st, &dest, r)?;
                let f = st.frames.last_mut().unwrap();
                f.bb = target.unwrap();
                f.stmt = 0;
                return Ok(None);
            }
        }
        if path.contains("wv_shim::uninit::<") {
            self.wr(st, &dest, V::Uninit)?;
            let f = st.frames.last_mut().unwrap();
            f.bb = target.unwrap();
            f.stmt = 0;
            return Ok(None);
        }
        let redirect = inst.and_then(|i| self.iter_redirect(st, i, &args));
        let redirected = redirect.is_some();
        let inst = redirect.or(inst);
        if let Some(i) = inst {
            let enter = match i.def {
                ty::InstanceKind::Item(d) => self.tcx.is_mir_available(d) && !self.tcx.is_foreign_item(d) && (redirected || self.inline_ok(i, &path, st.frames.len()) || self.inline_iter(st, i, &path, &args)),
                ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) | ty::InstanceKind::Virtual(..) => false,
                _ => self.inline_ok(i, &path, st.frames.len()),
            };
            // with "<recursion>" among the opaque names, a recursive call is kept as a call
            let enter = enter && !(self.opaque.iter().any(|p| p == "<recursion>") && st.frames.iter().any(|f| f.inst == i));
            // with "<loops>" among the opaque names, a function of the repository that loops is
            // kept as a call
            let enter = enter && !(self.opaque.iter().any(|p| p == "<loops>") && self.tcx.crate_name(i.def_id().krate).as_str().starts_with("whippyunits") && rustc_data_structures::graph::is_cyclic(&self.body(i).basic_blocks));
            if let ty::InstanceKind::Intrinsic(d) = i.def {
                let name = self.tcx.item_name(d).to_string();
                if let Some(r) = self.intrinsic(&name, i, &args, rty) {
                    self.wr(st, &dest, r)?;
                    st.frames.last_mut().unwrap().bb = target.unwrap();
                    st.frames.last_mut().unwrap().stmt = 0;
                    return Ok(None);
                }
            }
            if enter {
                let b = self.body(i);
                let mut args = args.clone();
                if self.tcx.is_closure_like(i.def_id()) && matches!(i.def, ty::InstanceKind::Item(_)) && args.len() == 2 && b.arg_count != 2 || (self.tcx.is_closure_like(i.def_id()) && matches!(i.def, ty::InstanceKind::Item(_)) && args.len() == 2 && args[1].1.is_unit_or_tuple() && b.spread_arg.is_none()) {
                    let (tv, tt) = args.pop().unwrap();
                    let n = tt.tuple_fields().len();
                    for k in 0..n {
                        let fv = self.proj(&tv, k, None, tt)?;
                        args.push((fv, tt.tuple_fields()[k]));
                    }
                }
                if b.arg_count == args.len() {
                    *self.fns.entry(path.split('<').next().unwrap_or("").to_string()).or_insert(0) += 1;
                    let mut locals = HashMap::new();
                    for (k, a) in args.iter().enumerate() {
                        st.cells.push((a.0.clone(), b.local_decls[mir::Local::from_usize(k + 1)].ty));
                        locals.insert(k + 1, st.cells.len() - 1);
                    }
                    st.frames.push(Frame { inst: i, body: b, locals, bb: mir::START_BLOCK, stmt: 0, ret: Some((dest, target)), turns: vec![] });
                    return Ok(None);
                }
            }
        }
        // opaque call
        if path.contains("core::panicking") || path.contains("panic_fmt") {
            return Ok(Some(End::Panic(path)));
        }
        let snaps: Vec<V<'tcx>> = args.iter().map(|(v, _)| self.snapshot(st, v, 0)).collect();
        let mut any_mut = false;
        for (v, t) in &args {
            any_mut |= self.havoc(st, v, *t, &path);
        }
        let id = if any_mut {
            st.fresh += 1;
            st.fresh
        } else {
            0
        };
        let term = V::T(Rc::new(Term::Call(path, snaps, id)), rty);
        st.calls.push(term.clone());
        let r = if self.is_zst(rty) { V::Zst(rty) } else { term };
        self.wr(st, &dest, r)?;
        let f = st.frames.last_mut().unwrap();
        f.bb = target.unwrap();
        f.stmt = 0;
        Ok(None)
    }

    fn intrinsic(&self, name: &str, inst: Instance<'tcx>, args: &[(V<'tcx>, Ty<'tcx>)], rty: Ty<'tcx>) -> Option<V<'tcx>> {
        match name {
            "size_of" | "min_align_of" | "align_of" => {
                let t = inst.args.type_at(0);
                let l = self.tcx.layout_of(self.env.as_query_input(t)).ok()?;
                let n = if name == "size_of" { l.size.bytes() } else { l.align.abi.bytes() };
                Some(V::Sc(n as u128, rty))
            }
            "powi" | "pow" | "log10" | "floor" | "ceil" | "round" | "trunc" | "fabs" | "sqrt" | "powif64" | "powf64" | "log10f64" | "floorf64" | "ceilf64" | "roundf64" | "truncf64" | "fabsf64" | "sqrtf64"
                if self.texts() && rty == self.tcx.types.f64 =>
            {
                let V::Sc(x, _) = args.first()?.0 else { return None };
                let x = f64::from_bits(x as u64);
                let r = match (name.trim_end_matches("f64"), args.get(1)) {
                    ("powi", Some((V::Sc(n, _), _))) => x.powi(*n as u32 as i32),
                    ("pow", Some((V::Sc(n, _), _))) => x.powf(f64::from_bits(*n as u64)),
                    ("log10", _) => x.log10(),
                    ("floor", _) => x.floor(),
                    ("ceil", _) => x.ceil(),
                    ("round", _) => x.round(),
                    ("trunc", _) => x.trunc(),
                    ("fabs", _) => x.abs(),
                    ("sqrt", _) => x.sqrt(),
                    _ => return None,
                };
                Some(V::Sc(r.to_bits() as u128, rty))
            }
            "integer_min" | "integer_max" => match (args.first(), args.get(1)) {
                (Some((V::Sc(a, t), _)), Some((V::Sc(b, _), _))) => {
                    let bits = bits_of(self, *t);
                    let less = if t.is_signed() { signed(*a, bits) < signed(*b, bits) } else { a < b };
                    Some(V::Sc(if less == (name == "integer_min") { *a } else { *b }, rty))
                }
                _ => None,
            },
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                let n = match name {
                    "wrapping_add" => "Add",
                    "wrapping_sub" => "Sub",
                    _ => "Mul",
                };
                if let (V::Sc(x, t), V::Sc(y, t2)) = (&args[0].0, &args[1].0) {
                    return fold_bin(self, n, *x, *t, *y, *t2).map(|(r, _)| V::Sc(r, *t));
                }
                Some(V::T(Rc::new(Term::Bin(n.into(), args[0].0.clone(), args[1].0.clone())), rty))
            }
            "saturating_add" | "saturating_sub" => match (&args[0].0, &args[1].0) {
                (V::Sc(x, t), V::Sc(y, _)) => {
                    let bits = bits_of(self, *t);
                    if bits >= 128 {
                        return None;
                    }
                    let (lo, hi) = if t.is_signed() { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                    let (x, y) = if t.is_signed() { (signed(*x, bits), signed(*y, bits)) } else { (*x as i128, *y as i128) };
                    let r = if name == "saturating_add" { x + y } else { x - y }.clamp(lo, hi);
                    Some(V::Sc(r as u128 & ((1u128 << bits) - 1), rty))
                }
                _ => None,
            },
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match name {
                    "add_with_overflow" => BinOp::AddWithOverflow,
                    "sub_with_overflow" => BinOp::SubWithOverflow,
                    _ => BinOp::MulWithOverflow,
                };
                Some(self.binop(op, args[0].0.clone(), args[1].0.clone(), rty))
            }
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_div" | "unchecked_rem" | "exact_div" => {
                let op = match name {
                    "unchecked_add" => BinOp::Add,
                    "unchecked_sub" => BinOp::Sub,
                    "unchecked_mul" => BinOp::Mul,
                    "unchecked_rem" => BinOp::Rem,
                    _ => BinOp::Div,
                };
                Some(self.binop(op, args[0].0.clone(), args[1].0.clone(), rty))
            }
            "cttz" | "cttz_nonzero" | "ctlz" | "ctlz_nonzero" | "ctpop" => {
                if let V::Sc(x, t) = &args[0].0 {
                    let n = bits_of(self, *t);
                    let x = trunc(*x, n);
                    let r = match name {
                        "ctpop" => x.count_ones(),
                        "cttz" | "cttz_nonzero" => if x == 0 { n } else { x.trailing_zeros() },
                        _ => if x == 0 { n } else { x.leading_zeros() - (128 - n) },
                    };
                    return Some(V::Sc(r as u128, rty));
                }
                None
            }
            "transmute" => {
                if let (V::Sc(x, _), true) = (&args[0].0, self.is_scalar(rty)) {
                    return Some(V::Sc(*x, rty));
                }
                None
            }
            "powif64" => {
                if let (V::Sc(x, _), V::Sc(y, _)) = (&args[0].0, &args[1].0) {
                    return Some(V::Sc(f64::from_bits(*x as u64).powi(*y as u32 as i32).to_bits() as u128, rty));
                }
                None
            }
            "three_way_compare" => Some(V::T(Rc::new(Term::Bin("Cmp".into(), args[0].0.clone(), args[1].0.clone())), rty)),
            "likely" | "unlikely" | "black_box" => Some(args[0].0.clone()),
            "cold_path" => Some(V::Zst(rty)),
            _ => None,
        }
    }

    fn known(&self, st: &St<'tcx>, v: &V<'tcx>) -> (Option<u128>, Vec<u128>) {
        let mut not = vec![];
        for (t, f) in &st.facts {
            if t == v {
                match f {
                    Fact::Eq(x) => return (Some(*x), not),
                    Fact::NotIn(xs) => not.extend(xs.iter().copied()),
                }
            }
        }
        (None, not)
    }

    /// Give the locals a basic block mentions their cells.
    fn enter(&mut self, st: &mut St<'tcx>) {
        let fr = st.frames.last().unwrap();
        let (body, bb) = (fr.body, fr.bb);
        let k = (body as *const Body<'tcx> as usize, bb);
        let ls = self.mentioned.entry(k).or_insert_with(|| {
            struct Vis(Vec<usize>);
            impl<'t> mir::visit::Visitor<'t> for Vis {
                fn visit_local(&mut self, l: mir::Local, _: mir::visit::PlaceContext, _: mir::Location) {
                    if !self.0.contains(&l.as_usize()) {
                        self.0.push(l.as_usize());
                    }
                }
            }
            let mut v = Vis(vec![0]);
            mir::visit::Visitor::visit_basic_block_data(&mut v, bb, &body.basic_blocks[bb]);
            Rc::new(v.0)
        }).clone();
        for l in ls.iter() {
            if !st.frames.last().unwrap().locals.contains_key(l) {
                st.cells.push((V::Uninit, body.local_decls[mir::Local::from_usize(*l)].ty));
                let c = st.cells.len() - 1;
                st.frames.last_mut().unwrap().locals.insert(*l, c);
            }
        }
    }

    /// One step; returns Some(end) when the path is finished; pushes forks.
    fn step(&mut self, st: &mut St<'tcx>, forks: &mut Vec<St<'tcx>>) -> R<Option<End<'tcx>>> {
        if st.frames.last().unwrap().stmt == 0 {
            self.enter(st);
        }
        let fr = st.frames.last().unwrap();
        let body = fr.body;
        let bd = &body.basic_blocks[fr.bb];
        if fr.stmt < bd.statements.len() {
            let s = &bd.statements[fr.stmt];
            match &s.kind {
                StatementKind::Assign(b) => {
                    let (p, rv) = &**b;
                    let v = self.rvalue(st, rv)?;
                    let l = self.lv(st, *p)?;
                    self.wr(st, &l, v)?;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let l = self.lv(st, **place)?;
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let old = self.rd(st, &l)?;
                    let (_, fs) = self.expand(&old, t, Some(*variant_index))?;
                    self.wr(st, &l, V::Agg(t, Some(*variant_index), Rc::new(fs)))?;
                }
                _ => {}
            }
            st.frames.last_mut().unwrap().stmt += 1;
            return Ok(None);
        }
        let term = bd.terminator();
        let goto = |st: &mut St<'tcx>, b: mir::BasicBlock| {
            let f = st.frames.last_mut().unwrap();
            f.bb = b;
            f.stmt = 0;
        };
        match &term.kind {
            TerminatorKind::Goto { target, .. } => goto(st, *target),
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => goto(st, *real_target),
            TerminatorKind::Drop { target, .. } => goto(st, *target),
            TerminatorKind::Unreachable => return Ok(Some(End::Unreach)),
            TerminatorKind::Return => {
                let v = self.get(st, fr.locals[&0], &[])?;
                let f = st.frames.pop().unwrap();
                match f.ret {
                    None => {
                        st.frames.push(Frame { ret: None, ..f });
                        return Ok(Some(End::Ret(v)));
                    }
                    Some((dest, target)) => {
                        self.wr(st, &dest, v)?;
                        goto(st, target.ok_or("return to nowhere")?);
                    }
                }
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.op(st, discr)?;
                if let V::Sc(x, _) = v {
                    goto(st, targets.target_for_value(x));
                } else {
                    let (eq, not) = self.known(st, &v);
                    if let Some(x) = eq {
                        goto(st, targets.target_for_value(x));
                        return Ok(None);
                    }
                    let is_bool = discr.ty(&body.local_decls, self.tcx).is_bool();
                    let mut seen = vec![];
                    let mut alts: Vec<(Fact, mir::BasicBlock)> = vec![];
                    for (x, b) in targets.iter() {
                        seen.push(x);
                        if not.contains(&x) {
                            continue;
                        }
                        alts.push((Fact::Eq(x), b));
                    }
                    let other = targets.otherwise();
                    let dead = body.basic_blocks[other].statements.is_empty() && matches!(body.basic_blocks[other].terminator().kind, TerminatorKind::Unreachable);
                    if !dead {
                        if is_bool && seen.len() == 1 {
                            let o = 1 - seen[0];
                            if !not.contains(&o) {
                                alts.push((Fact::Eq(o), other));
                            }
                        } else {
                            alts.push((Fact::NotIn(seen), other));
                        }
                    }
                    if alts.is_empty() {
                        return Ok(Some(End::Unreach));
                    }
                    if alts.len() > 1 && self.max_turns != u32::MAX {
                        let f = st.frames.last_mut().unwrap();
                        let here = f.bb;
                        let n = match f.turns.iter_mut().find(|(b, _)| *b == here) {
                            Some((_, n)) => {
                                *n += 1;
                                *n
                            }
                            None => {
                                f.turns.push((here, 1));
                                1
                            }
                        };
                        if n > self.max_turns {
                            return Ok(Some(End::Unsup("turn bound".into())));
                        }
                    }
                    let key = self.snapshot(st, &v, 0);
                    for (f, b) in alts.drain(1..) {
                        let mut s2 = st.clone();
                        s2.facts.push((key.clone(), f));
                        goto(&mut s2, b);
                        forks.push(s2);
                    }
                    let (f, b) = alts.pop().unwrap();
                    st.facts.push((key, f));
                    goto(st, b);
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.op(st, cond)?;
                let kind = match &**msg {
                    mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    mir::AssertKind::Overflow(o, ..) => format!("overflow:{o:?}"),
                    mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                    mir::AssertKind::DivisionByZero(_) => "div0".into(),
                    mir::AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                if let V::Sc(x, _) = v {
                    if (x != 0) != *expected {
                        return Ok(Some(End::Panic(format!("assert:{kind}"))));
                    }
                } else {
                    let s = self.snapshot(st, &v, 0);
                    st.asserts.push((kind, s.clone()));
                    st.facts.push((s, Fact::Eq(*expected as u128)));
                }
                goto(st, *target);
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut av = vec![];
                for a in args.iter() {
                    let t = a.node.ty(&body.local_decls, self.tcx);
                    av.push((self.op(st, &a.node)?, t));
                }
                let rty = destination.ty(&body.local_decls, self.tcx).ty;
                let dest = self.lv(st, *destination)?;
                return self.call(st, func, av, dest, rty, *target);
            }
            k => return Err(format!("terminator {k:?}")),
        }
        Ok(None)
    }

    pub fn run(&mut self, inst: Instance<'tcx>, name: &str) -> J {
        let tcx = self.tcx;
        let body = self.body(inst);
        let mut st = St { cells: vec![], frames: vec![], facts: vec![], asserts: vec![], calls: vec![], fresh: 0 };
        let mut names: HashMap<usize, String> = HashMap::new();
        for vdi in &body.var_debug_info {
            if let (Some(i), mir::VarDebugInfoContents::Place(p)) = (vdi.argument_index, &vdi.value) {
                if p.projection.is_empty() {
                    names.insert(i as usize, vdi.name.to_string());
                }
            }
        }
        let mut locals = HashMap::new();
        let mut outs: Vec<(String, usize, Ty<'tcx>)> = vec![];
        let mut inputs = vec![];
        for (k, d) in body.local_decls.iter().enumerate().take(body.arg_count + 1) {
            let v = if k >= 1 && k <= body.arg_count {
                let n = names.get(&k).cloned().unwrap_or_else(|| format!("arg{k}"));
                inputs.push(J::o([("name", J::s(n.clone())), ("ty", J::s(ty_str(d.ty)))]));
                match d.ty.kind() {
                    ty::Ref(_, inner, m) if !matches!(inner.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..)) => {
                        st.cells.push((V::T(Rc::new(Term::In(format!("*{n}"))), *inner), *inner));
                        let c = st.cells.len() - 1;
                        if m.is_mut() {
                            outs.push((n, c, *inner));
                        }
                        V::Ptr(c, Rc::new(vec![]), *inner)
                    }
                    _ if self.is_zst(d.ty) => V::Zst(d.ty),
                    _ => V::T(Rc::new(Term::In(n)), d.ty),
                }
            } else {
                V::Uninit
            };
            st.cells.push((v, d.ty));
            locals.insert(k, st.cells.len() - 1);
        }
        let rty = body.local_decls[mir::RETURN_PLACE].ty;
        st.frames.push(Frame { inst, body, locals, bb: mir::START_BLOCK, stmt: 0, ret: None, turns: vec![] });
        let mut work = vec![st];
        let mut paths = vec![];
        let mut steps = 0usize;
        self.written.set(0);
        while let Some(mut st) = work.pop() {
            if paths.len() >= self.max_paths {
                paths.push(J::o([("end", J::s("budget"))]));
                break;
            }
            let end = loop {
                steps += 1;
                if steps > self.max_steps {
                    break End::Unsup("step budget".into());
                }
                let mut forks = vec![];
                match self.step(&mut st, &mut forks) {
                    Ok(None) => {}
                    Ok(Some(e)) => break e,
                    Err(e) => break End::Unsup(e),
                }
                work.extend(forks);
                if work.len() > self.max_paths {
                    break End::Unsup("path budget".into());
                }
            };
            let (kind, detail, ret) = match end {
                End::Unreach => continue,
                End::Ret(v) => ("return", String::new(), {
                    let s = self.snapshot(&st, &v, 0);
                    self.vj(&s, Some(rty), 0)
                }),
                End::Panic(p) => ("panic", p, J::Null),
                End::Unsup(p) => {
                    let f = st.frames.last().unwrap();
                    let n = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(f.inst.def_id()));
                    ("unsupported", format!("{p} in {n}"), J::Null)
                }
            };
            let facts = st.facts.iter().map(|(v, f)| {
                let fj = match f {
                    Fact::Eq(x) => J::o([("eq", J::s(x.to_string()))]),
                    Fact::NotIn(xs) => J::o([("notin", J::A(xs.iter().map(|x| J::s(x.to_string())).collect()))]),
                };
                J::A(vec![self.vj(v, None, 0), fj])
            }).collect();
            let asserts = st.asserts.iter().map(|(k, v)| J::A(vec![J::s(k.clone()), self.vj(v, None, 0)])).collect();
            let calls = st
                .calls
                .iter()
                .filter(|v| match (&self.kept_calls, v) {
                    (Some(k), V::T(t, _)) => matches!(&**t, Term::Call(n, ..) if k.iter().any(|x| n.contains(x.as_str()))),
                    _ => true,
                })
                .map(|v| self.vj(v, None, 0))
                .collect();
            let outj = outs.iter().map(|(n, c, t)| {
                let v = self.snapshot(&st, &st.cells[*c].0.clone(), 0);
                (n.clone(), self.vj(&v, Some(*t), 0))
            }).collect();
            if self.written.get() > MOST_TERMS {
                paths = vec![J::o([("end", J::s("unsupported")), ("detail", J::s("the terms grow beyond bounds")), ("ret", J::Null), ("facts", J::A(vec![])), ("asserts", J::A(vec![])), ("calls", J::A(vec![])), ("outs", J::O(vec![]))])];
                break;
            }
            if detail.starts_with("path budget") {
                work.clear();
            }
            paths.push(J::o([("end", J::s(kind)), ("detail", J::s(detail)), ("ret", ret), ("facts", J::A(facts)), ("asserts", J::A(asserts)), ("calls", J::A(calls)), ("outs", J::O(outj))]));
        }
        self.steps += steps;
        self.written.set(0);
        J::o([("kind", J::s("flow")), ("fn", J::s(name)), ("inputs", J::A(inputs)), ("output", J::s(ty_str(rty))), ("paths", J::A(paths)), ("steps", J::N(steps as i128))])
    }

    // ---------------------------------------------------------------- output

    pub fn vj(&self, v: &V<'tcx>, t: Option<Ty<'tcx>>, depth: usize) -> J {
        let w = self.written.get() + 1;
        self.written.set(w);
        if depth > 40 || w > MOST_TERMS {
            return J::s("...");
        }
        // structs are always shown field by field
        if let Some(t) = t.or_else(|| self.vty(v)) {
            if let (V::T(term, _), ty::Adt(d, _)) = (v, t.kind()) {
                let opaque = matches!(&**term, Term::Call(..) | Term::Havoc(..) | Term::Deref(_));
                if d.is_struct() && !opaque && self.tcx.crate_name(d.did().krate).as_str().starts_with("whippyunits") && t != self.tcx.types.unit {
                    if let Ok((var, fs)) = self.expand(v, t, None) {
                        return self.vj(&V::Agg(t, var, Rc::new(fs)), Some(t), depth + 1);
                    }
                }
            }
        }
        match v {
            V::Sc(x, t) => scj(self, *x, *t),
            V::Zst(t) => J::o([("k", J::s("zst")), ("t", J::s(ty_str(*t)))]),
            V::Uninit => J::o([("k", J::s("uninit"))]),
            V::C(c, t) => {
                if let Some(s) = self.const_str(*c, *t) {
                    return J::o([("k", J::s("str")), ("v", J::s(s))]);
                }
                if let Some((var, fs)) = self.destructure(*c, *t) {
                    return self.vj(&V::Agg(*t, var.filter(|_| t.is_enum()), Rc::new(fs)), Some(*t), depth + 1);
                }
                if let Some(x) = self.const_deref(*c, *t) {
                    return J::o([("k", J::s("ref")), ("v", self.vj(&x, None, depth + 1))]);
                }
                J::o([("k", J::s("const")), ("t", J::s(ty_str(*t)))])
            }
            V::Agg(t, var, fs) => {
                let mut o = vec![];
                for (i, f) in fs.iter().enumerate() {
                    let (n, ft) = match self.field_info(*t, i, *var) {
                        Some((n, ft)) => (n, Some(ft)),
                        None => (i.to_string(), None),
                    };
                    if matches!(f, V::Zst(_)) || ft.is_some_and(|ft| self.is_zst(ft)) {
                        continue;
                    }
                    o.push((n, self.vj(f, ft, depth + 1)));
                }
                let vn = match (var, t.kind()) {
                    (Some(v), ty::Adt(d, _)) => J::s(d.variant(*v).name.to_string()),
                    _ => J::Null,
                };
                let ts = match t.kind() {
                    ty::Adt(d, _) => rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d.did())),
                    _ => ty_str(*t),
                };
                if matches!(t.kind(), ty::Array(..)) {
                    return J::o([("k", J::s("arr")), ("v", J::A(o.into_iter().map(|x| x.1).collect()))]);
                }
                J::o([("k", J::s("agg")), ("t", J::s(ts)), ("var", vn), ("f", J::O(o))])
            }
            V::Ptr(c, p, _) => J::o([("k", J::s("ptr")), ("cell", J::N(*c as i128)), ("path", J::s(format!("{p:?}")))]),
            V::T(term, t) => {
                let a = |x: &V<'tcx>| self.vj(x, None, depth + 1);
                let (k, mut rest): (&str, Vec<(String, J)>) = match &**term {
                    Term::In(n) => ("in", vec![("n".into(), J::s(n.clone()))]),
                    Term::Bin(o, x, y) => ("bin", vec![("op".into(), J::s(o.clone())), ("a".into(), a(x)), ("b".into(), a(y))]),
                    Term::Ovf(o, x, y) => ("ovf", vec![("op".into(), J::s(o.clone())), ("a".into(), a(x)), ("b".into(), a(y))]),
                    Term::Un(o, x) => ("un", vec![("op".into(), J::s(o.clone())), ("a".into(), a(x))]),
                    Term::Cast(x, from) => ("cast", vec![("a".into(), a(x)), ("from".into(), J::s(ty_str(*from)))]),
                    Term::Call(n, xs, id) => ("call", vec![("n".into(), J::s(n.clone())), ("args".into(), J::A(xs.iter().map(a).collect())), ("id".into(), J::N(*id as i128)), ("rt".into(), J::s(ty_str(*t)))]),
                    Term::Field(x, _, var, n) => {
                        let mut r = vec![("n".into(), J::s(n.clone()))];
                        // avoid re-expanding the struct the field is taken from
                        let base = match x {
                            V::T(bt, _) => match &**bt {
                                Term::In(n) => J::o([("k", J::s("in")), ("n", J::s(n.clone()))]),
                                _ => a_noexp(self, x, depth),
                            },
                            _ => a_noexp(self, x, depth),
                        };
                        r.push(("a".into(), base));
                        if let Some(v) = var {
                            if let Some(ty::Adt(d, _)) = self.vty(x).map(|t| t.kind()) {
                                if d.is_enum() {
                                    r.push(("var".into(), J::s(d.variant(*v).name.to_string())));
                                }
                            }
                        }
                        ("field", r)
                    }
                    Term::Deref(x) => ("deref", vec![("a".into(), a(x))]),
                    Term::Discr(x) => {
                        let mut r = vec![("a".into(), a_noexp(self, x, depth))];
                        if let Some(ty::Adt(d, _)) = self.vty(x).map(|t| t.kind()) {
                            if d.is_enum() {
                                let m = d.discriminants(self.tcx).map(|(i, dv)| (dv.val.to_string(), J::s(d.variant(i).name.to_string()))).collect();
                                r.push(("variants".into(), J::O(m)));
                            }
                        }
                        ("discr", r)
                    }
                    Term::Len(x) => ("len", vec![("a".into(), a(x))]),
                    // a known element of an array reads like a field
                    Term::Idx(x, V::Sc(i, _)) if self.vty(x).is_some_and(|t| t.is_array()) => ("field", vec![("n".into(), J::s(i.to_string())), ("a".into(), a(x))]),
                    Term::Idx(x, i) => ("idx", vec![("a".into(), a(x)), ("i".into(), a(i))]),
                    Term::RefTo(x) => ("ref", vec![("v".into(), a(x))]),
                    Term::Havoc(n, id) => ("havoc", vec![("n".into(), J::s(n.clone())), ("id".into(), J::N(*id as i128))]),
                    Term::Str(s) => ("str", vec![("v".into(), J::s(s.clone()))]),
                    Term::CSlice(id, off, n, e) => {
                        let v = (0..*n).map(|i| self.vj(&self.cslice_elem(*id, *off, *e, i), Some(*e), depth + 1)).collect();
                        ("arr", vec![("v".into(), J::A(v))])
                    }
                };
                let mut o = vec![("k".to_string(), J::s(k))];
                o.append(&mut rest);
                o.push(("t".into(), J::s(short_ty(self.tcx, *t))));
                J::O(o)
            }
        }
    }
}

fn short_ty<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d.did())),
        _ => ty_str(t),
    }
}

fn a_noexp<'tcx>(it: &Interp<'tcx>, x: &V<'tcx>, depth: usize) -> J {
    if let V::T(t, ty) = x {
        match &**t {
            Term::In(n) => return J::o([("k", J::s("in")), ("n", J::s(n.clone())), ("t", J::s(short_ty(it.tcx, *ty)))]),
            Term::Field(b, _, _, n) => return J::o([("k", J::s("field")), ("n", J::s(n.clone())), ("a", a_noexp(it, b, depth + 1)), ("t", J::s(short_ty(it.tcx, *ty)))]),
            _ => {}
        }
    }
    it.vj(x, None, depth + 1)
}

trait TyExt {
    fn is_unit_or_tuple(&self) -> bool;
}
impl<'tcx> TyExt for Ty<'tcx> {
    fn is_unit_or_tuple(&self) -> bool {
        matches!(self.kind(), ty::Tuple(_))
    }
}

// -------------------------------------------------------------------- scalars

fn bits_of<'tcx>(it: &Interp<'tcx>, t: Ty<'tcx>) -> u32 {
    it.tcx.layout_of(it.env.as_query_input(t)).unwrap().size.bits() as u32
}

fn signed<'tcx>(x: u128, bits: u32) -> i128 {
    if bits == 128 {
        return x as i128;
    }
    let s = 128 - bits;
    ((x << s) as i128) >> s
}

fn trunc(x: u128, bits: u32) -> u128 {
    if bits == 128 {
        x
    } else {
        x & ((1u128 << bits) - 1)
    }
}

fn scj<'tcx>(it: &Interp<'tcx>, x: u128, t: Ty<'tcx>) -> J {
    let v = match t.kind() {
        ty::Float(ty::FloatTy::F64) => format!("{:?}", f64::from_bits(x as u64)),
        ty::Float(ty::FloatTy::F32) => format!("{:?}", f32::from_bits(x as u32) as f64),
        ty::Int(_) => signed(x, bits_of(it, t)).to_string(),
        ty::Bool => if x != 0 { "true".into() } else { "false".into() },
        ty::Char => char::from_u32(x as u32).map(|c| c.to_string()).unwrap_or_default(),
        _ => x.to_string(),
    };
    J::o([("k", J::s("c")), ("t", J::s(ty_str(t))), ("v", J::s(v))])
}

fn fold_bin<'tcx>(it: &Interp<'tcx>, op: &str, x: u128, t: Ty<'tcx>, y: u128, t2: Ty<'tcx>) -> Option<(u128, bool)> {
    let b = |v: bool| Some((v as u128, false));
    match t.kind() {
        ty::Float(ty::FloatTy::F64) => {
            let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            let r = |v: f64| Some((v.to_bits() as u128, false));
            match op {
                "Add" => r(p + q),
                "Sub" => r(p - q),
                "Mul" => r(p * q),
                "Div" => r(p / q),
                "Rem" => r(p % q),
                "Eq" => b(p == q),
                "Ne" => b(p != q),
                "Lt" => b(p < q),
                "Le" => b(p <= q),
                "Gt" => b(p > q),
                "Ge" => b(p >= q),
                _ => None,
            }
        }
        ty::Float(ty::FloatTy::F32) => {
            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            let r = |v: f32| Some((v.to_bits() as u128, false));
            match op {
                "Add" => r(p + q),
                "Sub" => r(p - q),
                "Mul" => r(p * q),
                "Div" => r(p / q),
                "Rem" => r(p % q),
                "Eq" => b(p == q),
                "Ne" => b(p != q),
                "Lt" => b(p < q),
                "Le" => b(p <= q),
                "Gt" => b(p > q),
                "Ge" => b(p >= q),
                _ => None,
            }
        }
        ty::Int(_) => {
            let n = bits_of(it, t);
            let p = signed(x, n);
            let q = signed(y, bits_of(it, t2));
            let wrap = |v: Option<i128>, w: i128| -> Option<(u128, bool)> {
                let w = trunc(v.unwrap_or(w) as u128, n);
                let ovf = match v {
                    Some(e) => signed(w, n) != e,
                    None => true,
                };
                Some((w, ovf))
            };
            match op {
                "Add" => wrap(p.checked_add(q), p.wrapping_add(q)),
                "Sub" => wrap(p.checked_sub(q), p.wrapping_sub(q)),
                "Mul" => wrap(p.checked_mul(q), p.wrapping_mul(q)),
                "Div" if q != 0 => wrap(p.checked_div(q), p.wrapping_div(q)),
                "Rem" if q != 0 => wrap(p.checked_rem(q), p.wrapping_rem(q)),
                "BitXor" => Some((trunc((p ^ q) as u128, n), false)),
                "BitAnd" => Some((trunc((p & q) as u128, n), false)),
                "BitOr" => Some((trunc((p | q) as u128, n), false)),
                "Shl" | "ShlUnchecked" => Some((trunc((p as u128) << ((q as u32) & (n - 1)), n), (y as u128) >= n as u128)),
                "Shr" | "ShrUnchecked" => Some((trunc((p >> ((q as u32) & (n - 1))) as u128, n), (y as u128) >= n as u128)),
                "Eq" => b(p == q),
                "Ne" => b(p != q),
                "Lt" => b(p < q),
                "Le" => b(p <= q),
                "Gt" => b(p > q),
                "Ge" => b(p >= q),
                _ => None,
            }
        }
        ty::Uint(_) | ty::Bool | ty::Char => {
            let n = bits_of(it, t);
            let (p, q) = (x, y);
            let wrap = |v: Option<u128>, w: u128| -> Option<(u128, bool)> {
                let tr = trunc(v.unwrap_or(w), n);
                Some((tr, v != Some(tr)))
            };
            match op {
                "Add" => wrap(p.checked_add(q), p.wrapping_add(q)),
                "Sub" => {
                    let w = trunc(p.wrapping_sub(q), n);
                    Some((w, q > p))
                }
                "Mul" => wrap(p.checked_mul(q), p.wrapping_mul(q)),
                "Div" if q != 0 => Some((p / q, false)),
                "Rem" if q != 0 => Some((p % q, false)),
                "BitXor" => Some((p ^ q, false)),
                "BitAnd" => Some((p & q, false)),
                "BitOr" => Some((p | q, false)),
                "Shl" | "ShlUnchecked" => Some((trunc(p << ((q as u32) & (n - 1)), n), q >= n as u128)),
                "Shr" | "ShrUnchecked" => Some((p >> ((q as u32) & (n - 1)), q >= n as u128)),
                "Eq" => b(p == q),
                "Ne" => b(p != q),
                "Lt" => b(p < q),
                "Le" => b(p <= q),
                "Gt" => b(p > q),
                "Ge" => b(p >= q),
                _ => None,
            }
        }
        _ => None,
    }
}

fn fold_un<'tcx>(it: &Interp<'tcx>, op: UnOp, x: u128, t: Ty<'tcx>) -> Option<u128> {
    match (op, t.kind()) {
        (UnOp::Neg, ty::Float(ty::FloatTy::F64)) => Some((-f64::from_bits(x as u64)).to_bits() as u128),
        (UnOp::Neg, ty::Float(ty::FloatTy::F32)) => Some((-f32::from_bits(x as u32)).to_bits() as u128),
        (UnOp::Neg, ty::Int(_)) => {
            let n = bits_of(it, t);
            Some(trunc(signed(x, n).wrapping_neg() as u128, n))
        }
        (UnOp::Not, ty::Bool) => Some(1 - x),
        (UnOp::Not, ty::Int(_) | ty::Uint(_)) => Some(trunc(!x, bits_of(it, t))),
        _ => None,
    }
}

fn fold_cast<'tcx>(it: &Interp<'tcx>, x: u128, from: Ty<'tcx>, to: Ty<'tcx>) -> Option<u128> {
    let fval: Option<f64> = match from.kind() {
        ty::Float(ty::FloatTy::F64) => Some(f64::from_bits(x as u64)),
        ty::Float(ty::FloatTy::F32) => Some(f32::from_bits(x as u32) as f64),
        _ => None,
    };
    let tb = bits_of(it, to);
    match (fval, to.kind()) {
        (Some(f), ty::Float(ty::FloatTy::F64)) => Some(f.to_bits() as u128),
        (Some(f), ty::Float(ty::FloatTy::F32)) => Some((f as f32).to_bits() as u128),
        (Some(f), ty::Int(_)) => {
            let (lo, hi) = if tb == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (tb - 1)), (1i128 << (tb - 1)) - 1) };
            Some(trunc((f as i128).clamp(lo, hi) as u128, tb))
        }
        (Some(f), ty::Uint(_)) => {
            let hi = if tb == 128 { u128::MAX } else { (1u128 << tb) - 1 };
            Some((f as u128).min(hi))
        }
        (None, tk) => {
            let fb = bits_of(it, from);
            let is_signed = matches!(from.kind(), ty::Int(_));
            match tk {
                ty::Float(ty::FloatTy::F64) => Some(if is_signed { signed(x, fb) as f64 } else { x as f64 }.to_bits() as u128),
                ty::Float(ty::FloatTy::F32) => Some(if is_signed { signed(x, fb) as f32 } else { x as f32 }.to_bits() as u128),
                ty::Int(_) | ty::Uint(_) => Some(trunc(if is_signed { signed(x, fb) as u128 } else { x }, tb)),
                ty::Char => Some(x),
                _ => None,
            }
        }
        _ => None,
    }
}
