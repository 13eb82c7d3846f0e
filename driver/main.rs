//! MIR fact extractor for the bulloak workspace.
//!
//! Runs as the RUSTC_WORKSPACE_WRAPPER of `cargo +nightly check`; after type
//! checking it writes the monomorphised MIR of every body of the crate (and of
//! the generic workspace functions it instantiates) as JSON. Nothing of the
//! analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};

macro_rules! nt { ($e:expr) => { with_no_trimmed_paths!(with_no_visible_paths!($e)) }; }
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_abi::Size;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(s) => wstr(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.write(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    wstr(k, o);
                    o.push(':');
                    x.write(o)
                }
                o.push('}')
            }
        }
    }
}
fn wstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}

const WORKSPACE: &[&str] = &["bulloak", "bulloak_syntax", "bulloak_foundry"];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: HashSet<String>,
    queue: VecDeque<Item<'tcx>>,
    bodies: Vec<J>,
    adts: Vec<J>,
    adt_seen: HashSet<DefId>,
}
#[derive(Clone, Copy)]
enum Item<'tcx> {
    Fn(Instance<'tcx>),
    Const(DefId, GenericArgsRef<'tcx>),
}

fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(nt!(tcx.def_path_str(d)))
}
fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_resolve_crate_name!(nt!(tcx.def_path_str_with_args(d, a)))
}
fn ty_s(t: Ty<'_>) -> String {
    with_resolve_crate_name!(nt!(format!("{t}")))
}

impl<'tcx> Cx<'tcx> {
    fn in_ws(&self, d: DefId) -> bool {
        let n = self.tcx.crate_name(d.krate);
        WORKSPACE.contains(&n.as_str())
    }
    fn key(&self, i: Instance<'tcx>) -> String {
        // Closures of generic functions: keep the arguments of the parent in
        // the key, but not the closure's synthetic ones (they nest the key of
        // the closure itself).
        let d = i.def_id();
        if self.tcx.is_closure_like(d) {
            let parent = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(parent).count();
            let mut k = path_of(self.tcx, d);
            let pa: Vec<String> = i.args.iter().take(n).filter(|a| a.as_type().is_some())
                .map(|a| with_resolve_crate_name!(nt!(format!("{a}")))).collect();
            if !pa.is_empty() {
                k.push_str(&format!("<{}>", pa.join(",")));
            }
            return k;
        }
        path_args(self.tcx, d, i.args)
    }
    fn want_fn(&mut self, i: Instance<'tcx>) -> Option<String> {
        let d = i.def_id();
        if !self.in_ws(d) {
            return None;
        }
        if !matches!(i.def, ty::InstanceKind::Item(_)) {
            return None;
        }
        let k = self.key(i);
        if (d.is_local() || self.tcx.is_mir_available(d)) && self.seen.insert(k.clone()) {
            self.queue.push_back(Item::Fn(i));
        }
        Some(k)
    }
    fn want_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            if self.adt_seen.insert(def.did()) {
                let mut vs = vec![];
                if def.is_enum() || self.in_ws(def.did()) {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dv = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val as i128 } else { 0 };
                        vs.push(J::O(vec![
                            ("n", s(v.name.as_str())),
                            ("d", J::I(dv)),
                            ("f", J::A(v.fields.iter().map(|f| s(f.name.as_str())).collect())),
                            ("t", J::A(v.fields.iter().map(|f| {
                                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                s(ty_s(t))
                            }).collect())),
                        ]));
                    }
                }
                self.adts.push(J::O(vec![
                    ("name", s(path_of(self.tcx, def.did()))),
                    ("enum", J::B(def.is_enum())),
                    ("ws", J::B(self.in_ws(def.did()))),
                    ("variants", J::A(vs)),
                ]));
            }
        }
    }
    fn adt_name(&mut self, t: Ty<'tcx>) -> Option<String> {
        if let ty::Adt(def, _) = t.kind() {
            self.want_adt(t);
            return Some(path_of(self.tcx, def.did()));
        }
        None
    }
    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(b, self.tcx);
            pr.push(match e {
                ProjectionElem::Deref => {
                    J::A(vec![s("*")])
                }
                ProjectionElem::Field(f, _) => {
                    let mut v = vec![s("f"), J::I(f.as_usize() as i128)];
                    match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.want_adt(bt.ty);
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let var = def.variant(vi);
                            v.push(s(path_of(self.tcx, def.did())));
                            v.push(s(var.name.as_str()));
                            v.push(s(var.fields[f].name.as_str()));
                        }
                        ty::Closure(..) => v.push(s("closure")),
                        _ => v.push(s("tuple")),
                    }
                    J::A(v)
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let mut v = vec![s("d"), J::I(vi.as_usize() as i128)];
                    if let ty::Adt(def, _) = bt.ty.kind() {
                        self.want_adt(bt.ty);
                        v.push(s(def.variant(vi).name.as_str()));
                    }
                    J::A(v)
                }
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }
    fn scalar(&mut self, ty: Ty<'tcx>, sc: Scalar) -> Option<J> {
        match ty.kind() {
            ty::Bool => Some(J::A(vec![s("b"), J::B(sc.to_bool().discard_err()?)])),
            ty::Char => Some(J::A(vec![s("c"), J::I(sc.to_char().discard_err()? as i128)])),
            ty::Int(_) => {
                let i = sc.try_to_scalar_int().ok()?;
                Some(J::A(vec![s("n"), J::I(i.to_int(i.size())), s(ty_s(ty))]))
            }
            ty::Uint(_) => {
                let i = sc.try_to_scalar_int().ok()?;
                Some(J::A(vec![s("n"), J::I(i.to_uint(i.size()) as i128), s(ty_s(ty))]))
            }
            ty::Ref(..) | ty::RawPtr(..) => {
                let p = sc.to_pointer(&self.tcx);
                let (prov, off) = p.into_pointer_or_addr().ok()?.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        if self.in_ws(d) {
                            let k = path_of(self.tcx, d);
                            if self.seen.insert(k.clone()) {
                                self.queue.push_back(Item::Const(d, ty::List::empty()));
                            }
                        }
                        Some(J::A(vec![s("static"), s(path_of(self.tcx, d))]))
                    }
                    GlobalAlloc::Memory(m) => {
                        let inner = ty.builtin_deref(true)?;
                        self.mem(inner, m, off)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn mem(&mut self, inner: Ty<'tcx>, m: mir::interpret::ConstAllocation<'tcx>, off: Size) -> Option<J> {
        let a = m.inner();
        match inner.kind() {
            ty::Array(el, n) => {
                let n = n.try_to_target_usize(self.tcx)?;
                if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                    let b = a.get_bytes_strip_provenance(&self.tcx, AllocRange { start: off, size: Size::from_bytes(n) }).ok()?;
                    return Some(J::A(vec![s("bytes"), J::A(b.iter().map(|x| J::I(*x as i128)).collect())]));
                }
                let sz = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(*el)).ok()?.size;
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.mem(*el, m, off + sz * i)?);
                }
                Some(J::A(vec![s("arr"), J::A(v)]))
            }
            ty::Ref(_, t, _) if matches!(t.kind(), ty::Str) => {
                let ps = self.tcx.data_layout.pointer_size();
                let sc = a.read_scalar(&self.tcx, AllocRange { start: off, size: ps }, true).ok()?;
                let len = a.read_scalar(&self.tcx, AllocRange { start: off + ps, size: ps }, false).ok()?;
                let len = len.try_to_scalar_int().ok()?.to_target_usize(self.tcx);
                let p = sc.to_pointer(&self.tcx);
                let (prov, o2) = p.into_pointer_or_addr().ok()?.prov_and_relative_offset();
                if let GlobalAlloc::Memory(m2) = self.tcx.global_alloc(prov.alloc_id()) {
                    let b = m2.inner().get_bytes_strip_provenance(&self.tcx, AllocRange { start: o2, size: Size::from_bytes(len) }).ok()?;
                    return Some(J::A(vec![s("s"), s(String::from_utf8_lossy(b).into_owned())]));
                }
                None
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sz = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(inner)).ok()?.size;
                let sc = a.read_scalar(&self.tcx, AllocRange { start: off, size: sz }, false).ok()?;
                self.scalar(inner, sc)
            }
            _ => None,
        }
    }
    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        match ty.kind() {
            ty::FnDef(d, a) => return self.callee(*d, a.skip_binder()),
            ty::Closure(d, a) => {
                let i = Instance::new_raw(*d, a);
                let k = self.want_fn(i).unwrap_or_else(|| self.key(i));
                return J::A(vec![s("closure"), s(k)]);
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let k = format!("{}#promoted{}", "", p.as_usize());
                let _ = owner;
                return J::A(vec![s("promoted"), s(k), s(ty_s(ty))]);
            }
        }
        let env = TypingEnv::fully_monomorphized();
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            match v {
                ConstValue::Scalar(sc) => {
                    if let Some(j) = self.scalar(ty, sc) {
                        return j;
                    }
                }
                ConstValue::ZeroSized => {
                    if ty.is_unit() {
                        return J::A(vec![s("u")]);
                    }
                    let n = self.adt_name(ty);
                    return J::A(vec![s("zst"), s(ty_s(ty)), n.map(J::S).unwrap_or(J::N)]);
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let is_str = ty.builtin_deref(true).is_some_and(|t| t.is_str());
                        if is_str {
                            return J::A(vec![s("s"), s(String::from_utf8_lossy(b).into_owned())]);
                        }
                        return J::A(vec![s("bytes"), J::A(b.iter().map(|x| J::I(*x as i128)).collect())]);
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                        if let Some(j) = self.mem(ty, m, offset) {
                            return j;
                        }
                    }
                }
            }
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let k = path_args(self.tcx, u.def, u.args);
            if self.in_ws(u.def) {
                if self.seen.insert(k.clone()) {
                    self.queue.push_back(Item::Const(u.def, u.args));
                }
                return J::A(vec![s("item"), s(k), s(ty_s(ty))]);
            }
            return J::A(vec![s("xconst"), s(k), s(ty_s(ty))]);
        }
        J::A(vec![s("opaque"), s(nt!(format!("{}", c.const_))), s(ty_s(ty))])
    }
    fn trait_impl(&mut self, trait_fn: &str, self_args: &[ty::GenericArg<'tcx>]) -> Option<String> {
        // Resolve e.g. core::convert::From::from for the given arguments.
        let tcx = self.tcx;
        let (tr, name) = match trait_fn {
            "From" => (tcx.get_diagnostic_item(rustc_span::Symbol::intern("From"))?, "from"),
            "Display" => (tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display"))?, "fmt"),
            "Debug" => (tcx.get_diagnostic_item(rustc_span::Symbol::intern("Debug"))?, "fmt"),
            "Default" => (tcx.get_diagnostic_item(rustc_span::Symbol::intern("Default"))?, "default"),
            _ => return None,
        };
        let mut v: Vec<ty::GenericArg<'tcx>> = self_args.to_vec();
        if trait_fn == "Display" || trait_fn == "Debug" {
            v[0] = v[0].as_type()?.peel_refs().into();
        }
        let self_args = &v[..];
        let m = tcx.associated_items(tr).in_definition_order().find(|i| i.name().as_str() == name)?.def_id;
        let args = tcx.mk_args(self_args);
        let i = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), m, args).ok()??;
        self.want_fn(i)
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let path = path_of(tcx, d);
        let mut o = vec![
            ("path", s(path.clone())),
            ("args", J::A(a.iter().filter(|x| x.as_type().is_some() || x.as_const().is_some()).map(|x| s(with_resolve_crate_name!(nt!(format!("{x}"))))).collect())),
        ];
        if let Ok(Some(i)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), d, a) {
            if let Some(k) = self.want_fn(i) {
                o.push(("key", s(k)));
            } else {
                let rp = path_of(tcx, i.def_id());
                if rp != path {
                    o.push(("rpath", s(rp)));
                }
                match i.def {
                    ty::InstanceKind::Item(_) | ty::InstanceKind::Intrinsic(_) => {}
                    ty::InstanceKind::Virtual(..) => o.push(("virt", J::B(true))),
                    _ => o.push(("shim", J::B(true))),
                }
            }
            // The trait implementations a blanket implementation dispatches to.
            let tys: Vec<ty::GenericArg<'tcx>> = a.iter().filter(|x| x.as_type().is_some()).collect();
            let aux = match path.as_str() {
                "core::convert::Into::into" if tys.len() == 2 => self.trait_impl("From", &[tys[1], tys[0]]),
                "alloc::string::ToString::to_string" => self.trait_impl("Display", &tys[..1]),
                p if p.ends_with("Argument::<'_>::new_display") || p.ends_with("::new_display") => self.trait_impl("Display", &tys[..1]),
                p if p.ends_with("::new_debug") => self.trait_impl("Debug", &tys[..1]),
                p if p.ends_with("::unwrap_or_default") || p == "core::mem::take" => self.trait_impl("Default", &tys[..1]),
                p if p.ends_with("FromResidual::from_residual") && tys.len() == 2 => {
                    let e = |t: ty::GenericArg<'tcx>| match t.as_type().unwrap().kind() {
                        ty::Adt(_, x) => x.iter().filter(|y| y.as_type().is_some()).last(),
                        _ => None,
                    };
                    match (e(tys[0]), e(tys[1])) {
                        (Some(f), Some(g)) if f != g => self.trait_impl("From", &[f, g]),
                        _ => None,
                    }
                }
                _ => None,
            };
            if let Some(k) = aux {
                o.push(("aux", s(k)));
            }
            for t in a.iter().filter_map(|x| x.as_type()) {
                self.want_adt(t.peel_refs());
            }
        }
        J::A(vec![s("fn"), J::O(o)])
    }
    fn operand(&mut self, b: &Body<'tcx>, owner: DefId, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(owner, c)]),
            #[allow(unreachable_patterns)]
            _ => J::A(vec![s("k"), J::A(vec![s("b"), J::B(true)])]),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, owner: DefId, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(b, owner, o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::N);
                J::A(vec![s("rep"), self.operand(b, owner, o), n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), self.place(b, p), J::B(m)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reb"), self.place(b, p), J::B(m.is_mut())]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), self.place(b, p), J::B(true)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b, self.tcx);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(b, owner, o), s(ty_s(*t)), s(ty_s(from))])
            }
            Rvalue::BinaryOp(op, x) => {
                J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(b, owner, &x.0), self.operand(b, owner, &x.1)])
            }
            Rvalue::UnaryOp(op, x) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(b, owner, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let n = self.adt_name(t);
                J::A(vec![s("discr"), self.place(b, p), n.map(J::S).unwrap_or(J::N)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v = J::A(ops.iter().map(|o| self.operand(b, owner, o)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), v]),
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), v]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        self.want_adt(t);
                        let var = self.tcx.adt_def(*d).variant(*vi);
                        let mut names: Vec<J> = var.fields.iter().map(|f| s(f.name.as_str())).collect();
                        if let Some(a) = active {
                            names = vec![names[a.as_usize()].clone()];
                        }
                        J::A(vec![s("agg"), s("adt"), v, s(path_of(self.tcx, *d)), s(var.name.as_str()), J::A(names)])
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        let k = self.want_fn(i).unwrap_or_else(|| self.key(i));
                        J::A(vec![s("agg"), s("closure"), v, s(k)])
                    }
                    _ => J::A(vec![s("agg"), s("other"), v]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(b, p)])]),
            other => J::A(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn loc(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, l.line))
    }
    fn blocks(&mut self, owner: DefId, b: &Body<'tcx>) -> J {
        let mut bl = vec![];
        for (_, d) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !d.is_cleanup {
                for x in &d.statements {
                    match &x.kind {
                        StatementKind::Assign(a) => {
                            let p = self.place(b, &a.0);
                            let r = self.rvalue(b, owner, &a.1);
                            st.push(J::A(vec![s("="), p, r, self.loc(x.source_info.span)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(b, place);
                            let t = place.ty(b, self.tcx).ty;
                            let mut vn = String::new();
                            if let ty::Adt(def, _) = t.kind() {
                                vn = def.variant(*variant_index).name.to_string();
                            }
                            st.push(J::A(vec![s("setd"), p, s(vn)]));
                        }
                        StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), J::I(l.as_usize() as i128)])),
                        StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), J::I(l.as_usize() as i128)])),
                        _ => {}
                    }
                }
            }
            let t = d.terminator();
            let i = |x: BasicBlock| J::I(x.as_usize() as i128);
            let term = if d.is_cleanup {
                J::A(vec![s("cleanup")])
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(*target)]),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let dt = discr.ty(b, self.tcx);
                        let o = self.operand(b, owner, discr);
                        let v: Vec<J> = targets.iter().map(|(v, t)| {
                            let v = if dt.is_signed() {
                                let sz = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(dt)).unwrap().size;
                                sz.sign_extend(v) as i128
                            } else { v as i128 };
                            J::A(vec![J::I(v), i(t)])
                        }).collect();
                        J::A(vec![s("switch"), o, J::A(v), i(targets.otherwise()), s(ty_s(dt))])
                    }
                    TerminatorKind::Return => J::A(vec![s("ret")]),
                    TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                    TerminatorKind::Drop { target, place, .. } => {
                        J::A(vec![s("drop"), i(*target), self.place(b, place)])
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        let f = self.operand(b, owner, func);
                        let a = J::A(args.iter().map(|x| self.operand(b, owner, &x.node)).collect());
                        let p = self.place(b, destination);
                        let dt = destination.ty(b, self.tcx).ty;
                        self.want_adt(dt);
                        J::A(vec![s("call"), f, a, p, target.map(i).unwrap_or(J::N), self.loc(t.source_info.span), s(ty_s(dt))])
                    }
                    TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                        let o = self.operand(b, owner, cond);
                        let k = format!("{msg:?}");
                        let k: String = k.chars().take_while(|c| *c != '(').collect();
                        J::A(vec![s("assert"), o, J::B(*expected), i(*target), s(k), self.loc(t.source_info.span)])
                    }
                    _ => J::A(vec![s("other")]),
                }
            };
            bl.push(J::A(vec![J::A(st), term]));
        }
        J::A(bl)
    }
    fn body_json(&mut self, key: &str, owner: DefId, b: &Body<'tcx>, kind: &str) -> J {
        let locals = J::A(b.local_decls.iter().map(|l| s(ty_s(l.ty))).collect());
        for l in b.local_decls.iter() {
            self.want_adt(l.ty.peel_refs());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(b, &p)]));
            }
        }
        let blocks = self.blocks(owner, b);
        J::O(vec![
            ("key", s(key)),
            ("path", s(path_of(self.tcx, owner))),
            ("crate", s(self.tcx.crate_name(owner.krate).as_str())),
            ("kind", s(kind)),
            ("argc", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::N)),
            ("locals", locals),
            ("names", J::A(names)),
            ("loc", self.loc(b.span)),
            ("blocks", blocks),
        ])
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => unreachable!(),
                        });
                        self.want_fn(Instance::new_raw(d, args));
                    }
                }
                DefKind::Static { .. } => {
                    let key = path_of(tcx, d);
                    if self.seen.insert(key) {
                        self.queue.push_back(Item::Const(d, ty::List::empty()));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) && tcx.generics_of(d).count() == 0 {
                        let key = path_of(tcx, d);
                        if self.seen.insert(key) {
                            self.queue.push_back(Item::Const(d, ty::List::empty()));
                        }
                    }
                }
                _ => {}
            }
        }
        while let Some(it) = self.queue.pop_front() {
            let env = TypingEnv::fully_monomorphized();
            match it {
                Item::Fn(i) => {
                    let key = self.key(i);
                    let raw = tcx.instance_mir(i.def).clone();
                    let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw));
                    let j = self.body_json(&key, i.def_id(), &body, "fn");
                    self.bodies.push(j);
                    let proms = tcx.promoted_mir(i.def_id());
                    for (p, pb) in proms.iter_enumerated() {
                        let pb: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb.clone()));
                        let k = format!("{key}#promoted{}", p.as_usize());
                        let j = self.body_json(&k, i.def_id(), &pb, "promoted");
                        self.bodies.push(j);
                    }
                }
                Item::Const(d, a) => {
                    let key = if a.is_empty() { path_of(tcx, d) } else { path_args(tcx, d, a) };
                    if !d.is_local() && !tcx.is_mir_available(d) {
                        continue;
                    }
                    let raw = tcx.mir_for_ctfe(d).clone();
                    let i = Instance::new_raw(d, a);
                    let body: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw));
                    let j = self.body_json(&key, d, &body, "const");
                    self.bodies.push(j);
                    let proms = tcx.promoted_mir(d);
                    for (p, pb) in proms.iter_enumerated() {
                        let pb: Body<'tcx> = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, pb.clone()));
                        let k = format!("{key}#promoted{}", p.as_usize());
                        let j = self.body_json(&k, d, &pb, "promoted");
                        self.bodies.push(j);
                    }
                }
            }
        }
        let _ = Unnormalized::<()>::skip_norm_wip;
    }
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Some(dir) = &self.out {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let mut cx = Cx { tcx, seen: HashSet::new(), queue: VecDeque::new(), bodies: vec![], adts: vec![], adt_seen: HashSet::new() };
            cx.run();
            let j = J::O(vec![
                ("crate", s(name.clone())),
                ("bodies", J::A(std::mem::take(&mut cx.bodies))),
                ("adts", J::A(std::mem::take(&mut cx.adts))),
            ]);
            let mut o = String::new();
            j.write(&mut o);
            let tmp = format!("{dir}/.{name}.{}.tmp", std::process::id());
            std::fs::write(&tmp, o).unwrap();
            std::fs::rename(&tmp, format!("{dir}/{name}.json")).unwrap();
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // Called as `driver rustc <args>` by cargo.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc-wrapper.sh") || args[1].ends_with("wrapper.sh")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let out = std::env::var("BK_FACTS").ok().filter(|_| WORKSPACE.contains(&name.as_str()));
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    args.push("-Zalways-encode-mir".into());
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    })
}
