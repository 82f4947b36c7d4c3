// mirdump: a rustc driver that, instead of generating code, writes the
// type-checked program (generic MIR, resolved callees, ADT layouts, impl
// tables) of the crate being compiled as JSON to $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<(String, J)>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    /// Canonical name without generic arguments.
    fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                let dp = tcx.def_path(d);
                let dis = dp.data.last().map(|x| x.disambiguator).unwrap_or(0);
                return format!("{}::{{closure#{}}}", self.canon(p), dis);
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } => {
                let name = tcx.item_name(d);
                if let Some((p, k)) = tcx.assoc_parent(d) {
                    match k {
                        DefKind::Trait => return format!("{}::{}", self.path(p), name),
                        DefKind::Impl { .. } => {
                            let st = tcx.type_of(p).skip_binder();
                            let sn = self.short_ty(st);
                            if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                                let tr = tr.skip_binder();
                                return format!("<{} as {}>::{}", sn, self.path(tr.def_id), name);
                            }
                            return format!("{}::{}", sn, name);
                        }
                        _ => {}
                    }
                }
                self.path(d)
            }
            _ => self.path(d),
        }
    }
    fn short_ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Slice(_) => "[T]".to_string(),
            ty::Array(..) => "[T; N]".to_string(),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.short_ty(*t)),
            ty::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.short_ty(*t)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.short_ty(t)).collect::<Vec<_>>().join(",")),
            _ => with_no_trimmed_paths!(format!("{}", t)),
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = x.as_const() {
                v.push(J::O(vec![("const", s(format!("{}", c)))]));
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tmap.get(&t) {
            return n(*i);
        }
        let idx = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, idx);
        let str_ = with_no_trimmed_paths!(format!("{}", t));
        let mut o: Vec<(&'static str, J)> = vec![];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
                o.push(("n", s(str_.clone())));
            }
            ty::Adt(a, args) => {
                o.push(("k", s("adt")));
                o.push(("n", s(self.path(a.did()))));
                let aj = self.args(args);
                o.push(("a", aj));
                self.adt(*a);
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let x = self.ty(*t);
                o.push(("t", x));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let x = self.ty(*t);
                o.push(("t", x));
            }
            ty::Slice(t) => {
                o.push(("k", s("slice")));
                let x = self.ty(*t);
                o.push(("t", x));
            }
            ty::Array(t, c) => {
                o.push(("k", s("array")));
                let x = self.ty(*t);
                o.push(("t", x));
                o.push(("len", s(format!("{}", c))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.canon(*d))));
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                o.push(("up", J::A(up)));
            }
            ty::FnDef(d, args) => {
                let d: DefId = (*d).into();
                let args = args.skip_binder();
                o.push(("k", s("fndef")));
                o.push(("d", s(self.canon(d))));
                let aj = self.args(args);
                o.push(("a", aj));
            }
            ty::FnPtr(..) => {
                o.push(("k", s("fnptr")));
            }
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(p) = preds.principal_def_id() {
                    o.push(("n", s(self.path(p))));
                }
            }
            ty::Alias(..) => {
                o.push(("k", s("alias")));
            }
            _ => {
                o.push(("k", s("other")));
            }
        }
        o.push(("s", s(str_)));
        self.types[idx] = J::O(o);
        n(idx)
    }
    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        if self.adt_seen.contains_key(&a.did()) {
            return;
        }
        self.adt_seen.insert(a.did(), ());
        let name = self.path(a.did());
        let mut vs = vec![];
        for v in a.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![("n", s(f.name.to_string()))];
                if a.did().is_local() {
                    let ft = self.tcx.type_of(f.did).skip_binder();
                    let tj = self.ty(ft);
                    fo.push(("t", tj));
                    fo.push(("vis", s(format!("{:?}", f.vis))));
                }
                fs.push(J::O(fo));
            }
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("f", J::A(fs))]));
        }
        let mut discr = vec![];
        if a.is_enum() {
            for (_i, d) in a.discriminants(self.tcx) {
                discr.push(J::N(d.val as i128));
            }
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        self.adts.push((name, J::O(vec![("kind", s(kind)), ("local", J::B(a.did().is_local())), ("v", J::A(vs)), ("discr", J::A(discr))])));
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _t) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut bx = false;
                    if let ty::Adt(a, _) = pty.ty.kind() {
                        let pth = self.tcx.def_path_str(a.did());
                        bx = a.is_box() || pth == "std::ptr::Unique" || pth == "core::ptr::Unique" || pth == "std::ptr::NonNull" || pth == "core::ptr::unique::Unique";
                        let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                        if vi.as_usize() < a.variants().len() {
                            name = a.variant(vi).fields[f].name.to_string();
                        }
                    }
                    if bx {
                        J::A(vec![s("bx")])
                    } else {
                        J::A(vec![s("f"), s(name), n(f.as_usize())])
                    }
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => {
                    J::A(vec![s("d"), s(nm.map(|x| x.to_string()).unwrap_or_default()), n(v.as_usize())])
                }
                _ => J::A(vec![s("other")]),
            };
            pr.push(j);
            pty = pty.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn callee(&mut self, tenv: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.canon(d))), ("local", J::B(d.is_local()))];
        let aj = self.args(args);
        o.push(("args", aj));
        if let Some((p, DefKind::Trait)) = tcx.assoc_parent(d) {
            o.push(("trait", s(self.path(p))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, tenv, d, eargs) {
                if let ty::InstanceKind::Item(rd) = inst.def {
                    o.push(("res", s(self.canon(rd))));
                    o.push(("reslocal", J::B(rd.is_local())));
                    let rj = self.args(inst.args);
                    o.push(("resargs", rj));
                }
            }
        }
        let names: Vec<J> = {
            let g = tcx.generics_of(d);
            let mut v = vec![];
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(s(p.name.to_string()));
                }
            }
            v
        };
        o.push(("gn", J::A(names)));
        J::O(o)
    }
    fn constant(&mut self, body_id: DefId, tenv: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![];
        let tj = self.ty(t);
        o.push(("ty", tj));
        if let ty::FnDef(d, args) = t.kind() {
            let cj = self.callee(tenv, (*d).into(), args.skip_binder());
            o.push(("fn", cj));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.as_usize())));
                o.push(("of", s(self.canon(u.def))));
                let _ = body_id;
                return J::O(o);
            }
            o.push(("named", s(self.canon(u.def))));
            let aj = self.args(u.args);
            o.push(("nargs", aj));
        }
        if let mir::Const::Ty(_, ct) = c.const_ {
            o.push(("cparam", s(format!("{}", ct))));
        }
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, tenv) {
                o.push(("v", J::N(b as i128)));
            }
        } else if t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, tenv) {
                o.push(("fv", J::N(b as i128)));
            }
        } else {
            if let Some(b) = self.const_bytes(tenv, c.const_, t) {
                o.push(("bytes", J::A(b.into_iter().map(|x| J::N(x as i128)).collect())));
            }
            o.push(("txt", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        J::O(o)
    }
    /// contents of a constant `[u8; N]`, `&[u8; N]` or `&[u8]`
    fn const_bytes(&self, tenv: TypingEnv<'tcx>, c: mir::Const<'tcx>, t: Ty<'tcx>) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let (inner, by_ref) = match t.kind() {
            ty::Ref(_, x, _) => (*x, true),
            _ => (t, false),
        };
        let len = match inner.kind() {
            ty::Array(e, n) if *e == self.tcx.types.u8 => Some(n.try_to_target_usize(self.tcx)?),
            ty::Slice(e) if *e == self.tcx.types.u8 && by_ref => None,
            _ => return None,
        };
        let cv = c.eval(self.tcx, tenv, rustc_span::DUMMY_SP).ok()?;
        let (id, off, len) = match cv {
            mir::ConstValue::Slice { alloc_id, meta } => (alloc_id, 0u64, len.unwrap_or(meta)),
            mir::ConstValue::Indirect { alloc_id, offset } if !by_ref => (alloc_id, offset.bytes(), len?),
            mir::ConstValue::Scalar(Scalar::Ptr(ptr, _)) if by_ref => {
                let (prov, offset) = ptr.prov_and_relative_offset();
                (prov.alloc_id(), offset.bytes(), len?)
            }
            mir::ConstValue::Scalar(Scalar::Int(i)) if !by_ref => {
                let n = i.size().bytes() as usize;
                return Some(i.to_bits(i.size()).to_le_bytes()[..n].to_vec());
            }
            _ => return None,
        };
        if len > 64 {
            return None;
        }
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
        let (from, to) = (off as usize, (off + len) as usize);
        if to > a.inner().len() {
            return None;
        }
        Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(from..to).to_vec())
    }
    fn operand(&mut self, body: &Body<'tcx>, id: DefId, tenv: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(id, tenv, c)]),
            _ => J::A(vec![s("rt")]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, id: DefId, tenv: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, id, tenv, o)]),
            Rvalue::Repeat(o, c) => J::A(vec![s("repeat"), self.operand(body, id, tenv, o), s(format!("{}", c))]),
            Rvalue::Ref(_, bk, p) => {
                J::A(vec![s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), s(format!("{:?}", k)), self.place(body, p)]),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, self.tcx);
                let otj = self.ty(ot);
                let oj = self.operand(body, id, tenv, o);
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), oj, tj, otj])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let tj = self.ty(t);
                let a = self.operand(body, id, tenv, &ops.0);
                let c = self.operand(body, id, tenv, &ops.1);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c, tj])
            }
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.operand(body, id, tenv, o)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let tj = self.ty(t);
                J::A(vec![s("discr"), self.place(body, p), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let tj = self.ty(*t);
                        J::A(vec![s("array"), tj])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        let aj = self.args(args);
                        let vd = ad.variant(*v);
                        let fnames: Vec<J> = vd.fields.iter().map(|f| s(f.name.to_string())).collect();
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(v.as_usize()),
                            s(vd.name.to_string()),
                            aj,
                            J::A(fnames),
                            af.map(|x| n(x.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, _args) => J::A(vec![s("closure"), s(self.canon(*d))]),
                    _ => J::A(vec![s("other")]),
                };
                let mut v = vec![];
                for o in ops.iter() {
                    v.push(self.operand(body, id, tenv, o));
                }
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::A(vec![s("use"), J::A(vec![s("c"), pj])])
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, id: DefId, tenv: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let tj = self.ty(d.ty);
            locals.push(J::A(vec![tj, names.get(&l.as_usize()).map(|x| s(x.clone())).unwrap_or(J::Null)]));
        }
        let mut blocks = vec![];
        for (_bb, bd) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bd.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, id, tenv, r);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("setd"), pj, n(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::Intrinsic(_) => st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", x.kind))])),
                    _ => {}
                }
            }
            let term = bd.terminator();
            let sp = self.span(term.source_info.span);
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dtj = self.ty(dt);
                    let dj = self.operand(body, id, tenv, discr);
                    let v = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::N(v as i128), n(t.as_usize())]))
                        .collect();
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", dj),
                        ("dty", dtj),
                        ("v", J::A(v)),
                        ("o", n(targets.otherwise().as_usize())),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let dtj = self.ty(t);
                    let pj = self.place(body, place);
                    J::O(vec![("k", s("drop")), ("p", pj), ("pty", dtj), ("t", n(target.as_usize()))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, self.tcx);
                    let fj = if let ty::FnDef(d, a) = ft.kind() {
                        self.callee(tenv, (*d).into(), a.skip_binder())
                    } else {
                        let oj = self.operand(body, id, tenv, func);
                        J::O(vec![("ptr", oj)])
                    };
                    let mut av = vec![];
                    let mut at = vec![];
                    for a in args.iter() {
                        av.push(self.operand(body, id, tenv, &a.node));
                        let t = a.node.ty(&body.local_decls, self.tcx);
                        at.push(self.ty(t));
                    }
                    let dj = self.place(body, destination);
                    let rt = destination.ty(&body.local_decls, self.tcx).ty;
                    let rtj = self.ty(rt);
                    J::O(vec![
                        ("k", s("call")),
                        ("f", fj),
                        ("a", J::A(av)),
                        ("at", J::A(at)),
                        ("d", dj),
                        ("rty", rtj),
                        ("t", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let cj = self.operand(body, id, tenv, cond);
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::DivisionByZero(_) => "div0",
                        AssertKind::RemainderByZero(_) => "rem0",
                        _ => "other",
                    };
                    let ops: Vec<J> = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            vec![self.operand(body, id, tenv, len), self.operand(body, id, tenv, index)]
                        }
                        _ => vec![],
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", cj),
                        ("e", J::B(*expected)),
                        ("m", s(mk)),
                        ("ops", J::A(ops)),
                        ("t", n(target.as_usize())),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))])
                }
                _ => J::O(vec![("k", s("stop"))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bd.is_cleanup)),
            ]));
        }
        vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks))]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: vec![], adt_seen: HashMap::new() };
    let mut fns: Vec<(String, J)> = vec![];
    let mut consts: Vec<(String, J)> = vec![];
    let mut ids: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    ids.sort_by_key(|d| d.local_def_index.as_u32());
    for id in ids {
        let d = id.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if matches!(kind, DefKind::Const { .. }) {
                    let t = tcx.type_of(d).skip_binder();
                    let mut o = vec![];
                    let tj = cx.ty(t);
                    o.push(("ty", tj));
                    let tenv = TypingEnv::post_analysis(tcx, d);
                    if t.is_integral() {
                        let c = mir::Const::from_unevaluated(tcx, d).skip_binder();
                        if let Some(b) = c.try_eval_bits(tcx, tenv) {
                            o.push(("v", J::N(b as i128)));
                        }
                    }
                    let sp = cx.span(tcx.def_span(d));
                    o.push(("sp", sp));
                    consts.push((cx.canon(d), J::O(o)));
                }
                continue;
            }
            _ => continue,
        }
        let tenv = TypingEnv::post_analysis(tcx, d);
        let body = tcx.optimized_mir(d);
        let mut o = cx.body(d, tenv, body);
        let pm = tcx.promoted_mir(d);
        let mut pv = vec![];
        for p in pm.iter() {
            let b = cx.body(d, tenv, p);
            pv.push(J::O(b));
        }
        o.push(("promoted", J::A(pv)));
        o.push(("kind", s(format!("{:?}", kind))));
        let sp = cx.span(tcx.def_span(d));
        o.push(("sp", sp));
        o.push(("path", s(cx.path(d))));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let name = tcx.item_name(d).to_string();
            o.push(("name", s(name)));
            o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            let mut v = vec![];
            let g = tcx.generics_of(d);
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    v.push(s(p.name.to_string()));
                }
            }
            o.push(("gn", J::A(v)));
            if let Some((p, k)) = tcx.assoc_parent(d) {
                match k {
                    DefKind::Trait => o.push(("in_trait", s(cx.path(p)))),
                    DefKind::Impl { .. } => {
                        let st = tcx.type_of(p).skip_binder();
                        let sj = cx.ty(st);
                        o.push(("self_ty", sj));
                        o.push(("self_name", s(cx.short_ty(st))));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            o.push(("of_trait", s(cx.path(tr.skip_binder().def_id))));
                        }
                    }
                    _ => {}
                }
            }
        } else {
            o.push(("parent", s(cx.canon(tcx.parent(d)))));
        }
        // source-level size for reporting
        let nm = cx.canon(d);
        let mut key = nm.clone();
        let mut i = 1;
        while fns.iter().any(|(k, _)| *k == key) {
            i += 1;
            key = format!("{}@{}", nm, i);
        }
        fns.push((key, J::O(o)));
    }
    // impl table
    let mut impls = vec![];
    for (tr, imps) in tcx.all_local_trait_impls(()).iter() {
        for im in imps.iter() {
            let st = tcx.type_of(im.to_def_id()).skip_binder();
            let mut items = vec![];
            for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                if let Some(nm) = it.opt_name() {
                    items.push(s(nm.to_string()));
                }
            }
            impls.push(J::O(vec![
                ("trait", s(cx.path(*tr))),
                ("self", s(cx.short_ty(st))),
                ("items", J::A(items)),
            ]));
        }
    }
    let mut o = String::new();
    J::O(vec![
        ("fns", J::M(fns)),
        ("types", J::A(cx.types.clone())),
        ("adts", J::M(cx.adts.clone())),
        ("consts", J::M(consts)),
        ("impls", J::A(impls)),
    ])
    .w(&mut o);
    std::fs::write(out, o).expect("write dump");
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "merkletree");
    let out = if is_target { std::env::var("MIRDUMP_OUT").ok() } else { None };
    if out.is_some() {
        for a in ["-Zmir-opt-level=0", "-Coverflow-checks=off", "--cap-lints=allow", "-Zalways-encode-mir=no"] {
            args.push(a.to_string());
        }
    }
    let mut cb = Cb { out };
    let r = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if r.is_ok() { 0 } else { 1 });
}
