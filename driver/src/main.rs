//! chomp-facts: a rustc driver that dumps, as JSON, the *typed and resolved*
//! program the real build sees: one record per body (`mir_built`, i.e. before
//! drop elaboration, so boxes are plain derefs), per ADT, per impl and per
//! trait.  It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly
//! check` and does no analysis of its own; the rules live in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_data_structures;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_data_structures::steal::Steal;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::OnceLock;

type Built = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx Steal<Body<'tcx>>;
static ORIG: OnceLock<Built> = OnceLock::new();
thread_local! {
    static BODIES: RefCell<BTreeMap<u32, (LocalDefId, Body<'static>)>> = RefCell::new(BTreeMap::new());
}

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> &'tcx Steal<Body<'tcx>> {
    let b = (ORIG.get().unwrap())(tcx, def);
    {
        let body: Body<'tcx> = b.borrow().clone();
        // Only lives as long as the compiler session, and is only read from
        // `after_analysis` below, while the arenas are alive.
        let body: Body<'static> = unsafe { std::mem::transmute(body) };
        BODIES.with(|m| m.borrow_mut().insert(def.local_def_index.as_u32(), (def, body)));
    }
    b
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_queue: VecDeque<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn raw(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    /// Canonical path: `<adt>::method` for inherent items, `<trait>::method`
    /// for trait items and for items of trait impls.
    fn canon(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if let Some((parent, kind)) = tcx.assoc_parent(d) {
            let name = tcx.item_name(d);
            match kind {
                DefKind::Trait => return format!("{}::{}", self.raw(parent), name),
                DefKind::Impl { of_trait: true } => {
                    return format!("{}::{}", self.raw(tcx.impl_trait_id(parent)), name)
                }
                DefKind::Impl { of_trait: false } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    return format!("{}::{}", self.tystr(st), name);
                }
                _ => {}
            }
        }
        self.raw(d)
    }

    fn tystr(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.raw(a.did()),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::Ref(_, x, _) => format!("&{}", self.tystr(*x)),
            _ => format!("{}", t),
        }
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v: Vec<Ty<'tcx>> = args.types().collect();
        J::A(v.into_iter().map(|t| J::U(self.ty(t) as u64)).collect())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let s = J::S(t.to_string());
        let j = match t.kind() {
            ty::Adt(a, args) => {
                let did = a.did();
                self.adt_queue.push_back(did);
                let p = self.raw(did);
                let args = self.args(args);
                J::o(vec![("k", J::s("adt")), ("path", J::S(p)), ("args", args), ("s", s)])
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                J::o(vec![("k", J::s("ref")), ("t", J::U(x as u64)), ("mut", J::B(m.is_mut())), ("s", s)])
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                J::o(vec![("k", J::s("ptr")), ("t", J::U(x as u64)), ("mut", J::B(m.is_mut())), ("s", s)])
            }
            ty::Tuple(ts) => {
                let ts: Vec<_> = ts.iter().collect();
                let v = ts.into_iter().map(|x| J::U(self.ty(x) as u64)).collect();
                J::o(vec![("k", J::s("tuple")), ("args", J::A(v)), ("s", s)])
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                J::o(vec![("k", J::s("slice")), ("t", J::U(x as u64)), ("s", s)])
            }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(J::U).unwrap_or(J::Null);
                J::o(vec![("k", J::s("array")), ("t", J::U(x as u64)), ("n", n), ("s", s)])
            }
            ty::Closure(d, args) => {
                let raw = self.raw(*d);
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let up = up.into_iter().map(|x| J::U(self.ty(x) as u64)).collect();
                J::o(vec![("k", J::s("closure")), ("def", J::S(raw)), ("up", J::A(up)), ("s", s)])
            }
            ty::FnDef(d, args) => {
                let c = self.canon(*d);
                let r = self.raw(*d);
                let args = self.args(args.skip_binder());
                J::o(vec![("k", J::s("fndef")), ("path", J::S(c)), ("def", J::S(r)), ("args", args), ("s", s)])
            }
            ty::Param(_) => J::o(vec![("k", J::s("param")), ("s", s)]),
            ty::Dynamic(..) => J::o(vec![("k", J::s("dyn")), ("s", s)]),
            ty::Alias(..) => J::o(vec![("k", J::s("alias")), ("s", s)]),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                J::o(vec![("k", J::s("prim")), ("s", s)])
            }
            _ => J::o(vec![("k", J::s("other")), ("s", s)]),
        };
        self.types[i] = j;
        i
    }

    fn adt(&mut self, did: DefId) {
        let raw = self.raw(did);
        if self.adts.contains_key(&raw) {
            return;
        }
        self.adts.insert(raw.clone(), J::Null);
        let tcx = self.tcx;
        let a = tcx.adt_def(did);
        let local = did.is_local();
        let mut vs = vec![];
        for (idx, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() {
                J::S(a.discriminant_for_variant(tcx, idx).val.to_string())
            } else {
                J::Null
            };
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                // field types of foreign ADTs are not needed (and would drag
                // in half of std); names are.
                let tj = if local { J::U(self.ty(t) as u64) } else { J::Null };
                fs.push(J::o(vec![
                    ("name", J::S(f.name.to_string())),
                    ("ty", tj),
                    ("pub", J::B(tcx.visibility(f.did).is_public())),
                ]));
            }
            vs.push(J::o(vec![
                ("name", J::S(v.name.to_string())),
                ("discr", discr),
                ("fields", J::A(fs)),
            ]));
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let j = J::o(vec![
            ("kind", J::s(kind)),
            ("local", J::B(local)),
            ("pub", J::B(tcx.visibility(did).is_public())),
            ("loc", self.loc(tcx.def_span(did))),
            ("variants", J::A(vs)),
        ]);
        self.adts.insert(raw, j);
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        J::S(format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::U(p.local.as_u32() as u64)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::PhantomDeref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::U(f.as_u32() as u64), J::U(t as u64)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::U(l.as_u32() as u64)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    J::s("c"),
                    J::U(offset),
                    J::B(from_end),
                    J::U(min_length),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("s"), J::U(from), J::U(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::U(v.as_u32() as u64)]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![J::s("cast")]),
                ProjectionElem::UnwrapUnsafeBinder(_) => J::A(vec![J::s("cast")]),
            });
        }
        J::A(v)
    }

    fn fndef(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", J::S(self.canon(did))),
            ("def", J::S(self.raw(did))),
            ("local", J::B(did.is_local())),
        ];
        if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::S(self.raw(t))));
        }
        o.push(("args", self.args(args)));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let eargs = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, did, eargs) {
                let rd = inst.def_id();
                if rd != did {
                    o.push(("res", J::S(self.raw(rd))));
                    o.push(("res_local", J::B(rd.is_local())));
                    let ra = self.args(inst.args);
                    o.push(("res_args", ra));
                    if let Some(im) = tcx.trait_impl_of_assoc(rd) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        o.push(("res_self", J::S(st.to_string())));
                    }
                }
            }
        }
        J::o(o)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(*d, args.skip_binder(), env);
            return J::o(vec![("fn", f)]);
        }
        let ti = self.ty(t);
        let mut o = vec![("ty", J::U(ti as u64))];
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("item", J::S(self.raw(u.def))));
            }
        }
        if let ty::Closure(..) = t.kind() {
            o.push(("v", J::s("closure")));
            return J::o(vec![("const", J::o(o))]);
        }
        let is_param_dep = rustc_middle::ty::TypeVisitableExt::has_param(&c.const_);
        if !is_param_dep {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match v {
                    ConstValue::Scalar(_) => {
                        if let Some(i) = v.try_to_scalar_int() {
                            let size = i.size();
                            let val = match t.kind() {
                                ty::Int(_) => J::S(i.to_int(size).to_string()),
                                ty::Bool => J::B(i.to_bits(size) != 0),
                                ty::Char => J::o(vec![("char", J::U(i.to_bits(size) as u64))]),
                                _ => J::S(i.to_bits(size).to_string()),
                            };
                            o.push(("v", val));
                        } else if let ty::Ref(_, x, _) = t.kind() {
                            if let ty::Array(e, _) = x.kind() {
                                let is_char = *e == tcx.types.char;
                                if is_char || *e == tcx.types.u8 {
                                    if let Some(b) = self.pointee_bytes(v, *x, env) {
                                        if is_char {
                                            o.push(("chars", J::A(b.chunks(4).map(|c| J::U(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as u64)).collect())));
                                        } else {
                                            o.push(("bytes", J::A(b.iter().map(|x| J::U(*x as u64)).collect())));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    ConstValue::ZeroSized => o.push(("v", J::s("zst"))),
                    ConstValue::Slice { .. } | ConstValue::Indirect { .. } => {
                        let strish = matches!(t.kind(), ty::Ref(_, x, _) if x.is_str() || matches!(x.kind(), ty::Slice(e) if *e == tcx.types.u8));
                        if strish {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                                match std::str::from_utf8(b) {
                                    Ok(s) => o.push(("str", J::S(s.to_string()))),
                                    Err(_) => o.push(("bytes", J::A(b.iter().map(|x| J::U(*x as u64)).collect()))),
                                }
                            }
                        }
                    }
                }
            }
        }
        J::o(vec![("const", J::o(o))])
    }

    /// the bytes a constant reference to an array points to
    fn pointee_bytes(&self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<Vec<u8>> {
        use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
        let ConstValue::Scalar(Scalar::Ptr(p, _)) = v else { return None };
        let (prov, off) = p.into_raw_parts();
        let size = self.tcx.layout_of(env.as_query_input(t)).ok()?.size;
        if size.bytes() == 0 {
            return Some(vec![]);
        }
        match self.tcx.try_get_global_alloc(prov.alloc_id())? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = AllocRange { start: off, size };
                if !a.provenance().range_empty(r, &self.tcx) {
                    return None;
                }
                Some(a.get_bytes_unchecked(r).to_vec())
            }
            _ => None,
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::o(vec![("copy", self.place(p))]),
            Operand::Move(p) => J::o(vec![("move", self.place(p))]),
            Operand::Constant(c) => self.constant(c, env),
            _ => J::o(vec![("rt", J::Null)]),
        }
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match rv {
            Rvalue::Use(o, _) => J::A(vec![J::s("use"), self.operand(o, env)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(J::U).unwrap_or(J::Null);
                J::A(vec![J::s("repeat"), self.operand(o, env), n])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let fake = matches!(k, BorrowKind::Fake(_));
                J::A(vec![J::s("ref"), self.place(p), J::B(m), J::B(fake)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![J::s("ref"), self.place(p), J::B(true), J::B(false)]),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                J::A(vec![J::s("cast"), J::S(format!("{:?}", k)), self.operand(o, env), J::U(t as u64)])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![
                J::s("bin"),
                J::S(format!("{:?}", b)),
                self.operand(&x.0, env),
                self.operand(&x.1, env),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::A(vec![J::s("un"), J::S(format!("{:?}", u)), self.operand(o, env)])
            }
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(_) => J::s("array"),
                    AggregateKind::Tuple => J::s("tuple"),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt_queue.push_back(*d);
                        J::o(vec![("adt", J::S(self.raw(*d))), ("variant", J::U(v.as_u32() as u64))])
                    }
                    AggregateKind::Closure(d, _) => J::o(vec![("closure", J::S(self.raw(*d)))]),
                    _ => J::s("other"),
                };
                let v = ops.iter().map(|o| self.operand(o, env)).collect();
                J::A(vec![J::s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::o(vec![("copy", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![J::s("ref"), self.place(p), J::B(m.is_mut()), J::B(false)])
            }
            other => J::A(vec![J::s("other"), J::S(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, def: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let env = TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did).expect_local());
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            locals.push(J::U(self.ty(l.ty) as u64));
        }
        let mut vars = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p);
                vars.push(J::A(vec![J::S(v.name.to_string()), pl]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        st.push(J::A(vec![J::s("="), p, r, self.loc(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![J::s("setd"), p, J::U(variant_index.as_u32() as u64)]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![J::s("dead"), J::U(l.as_u32() as u64)]));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let loc = self.loc(term.source_info.span);
            let b = |x: BasicBlock| J::U(x.as_u32() as u64);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), b(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::S(v.to_string()), b(t)]))
                        .collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    J::A(vec![
                        J::s("switch"),
                        self.operand(discr, env),
                        J::A(ts),
                        b(targets.otherwise()),
                        J::U(dt as u64),
                    ])
                }
                TerminatorKind::Return => J::A(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { target, place, .. } => {
                    let p = self.place(place);
                    J::A(vec![J::s("drop"), p, b(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let a = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let d = self.place(destination);
                    let t = target.map(b).unwrap_or(J::Null);
                    let exp = fn_span.from_expansion() || term.source_info.span.from_expansion();
                    J::A(vec![J::s("call"), f, J::A(a), d, t, J::B(exp)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        AssertMessage::Overflow(o, ..) => format!("overflow:{:?}", o),
                        AssertMessage::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertMessage::DivisionByZero(_) => "divzero".into(),
                        AssertMessage::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), J::S(m), b(*target)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), b(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), b(*real_target)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                other => J::A(vec![J::s("other"), J::S(format!("{:?}", other))]),
            };
            blocks.push(J::o(vec![
                ("s", J::A(st)),
                ("t", t),
                ("loc", loc),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }

        let mut o = vec![
            ("def", J::S(self.raw(did))),
            ("canon", J::S(self.canon(did))),
            ("kind", J::S(format!("{:?}", tcx.def_kind(did)))),
            ("loc", self.loc(tcx.def_span(did))),
            ("exp", J::B(tcx.def_span(did).from_expansion())),
            ("nargs", J::U(body.arg_count as u64)),
            ("locals", J::A(locals)),
            ("vars", J::A(vars)),
            ("blocks", J::A(blocks)),
        ];
        let mut gens = vec![];
        let mut g = Some(tcx.generics_of(tcx.typeck_root_def_id(did)));
        while let Some(x) = g {
            let own: Vec<J> = x
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| J::S(p.name.to_string()))
                .collect();
            gens.splice(0..0, own);
            g = x.parent.map(|d| tcx.generics_of(d));
        }
        o.push(("generics", J::A(gens)));
        if let Some(im) = tcx.impl_of_assoc(did) {
            o.push(("impl", J::S(self.raw(im))));
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            o.push(("self_ty", J::U(sti as u64)));
            if tcx.impl_is_of_trait(im) {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                o.push(("trait", J::S(self.raw(tr.def_id))));
                let ta = self.args(tr.args);
                o.push(("trait_args", ta));
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            }
        } else if let Some(t) = tcx.trait_of_assoc(did) {
            o.push(("default_of", J::S(self.raw(t))));
        }
        if matches!(tcx.def_kind(did), DefKind::Closure) {
            o.push(("root", J::S(self.raw(tcx.typeck_root_def_id(did)))));
            o.push(("parent", J::S(self.raw(tcx.parent(did)))));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
        }
        J::o(o)
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if self.out.is_none() {
            return;
        }
        config.override_queries = Some(|_, providers| {
            let _ = ORIG.set(providers.queries.mir_built);
            providers.queries.mir_built = my_mir_built;
        });
    }

    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Some(out) = self.out.clone() else { return rustc_driver::Compilation::Continue };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let ct = format!("{:?}", tcx.crate_types());
        let kind = if ct.contains("Executable") { "bin" } else if ct.contains("ProcMacro") { "macro" } else { "lib" };
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), adt_queue: VecDeque::new() };
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let all: Vec<(LocalDefId, Body<'static>)> =
            BODIES.with(|m| m.borrow().values().map(|(d, b)| (*d, b.clone())).collect());
        let have: std::collections::HashSet<LocalDefId> = all.iter().map(|x| x.0).collect();
        let missing: Vec<J> = keys
            .iter()
            .filter(|k| !have.contains(k))
            .filter(|k| !matches!(tcx.def_kind(**k), DefKind::Ctor(..)))
            .map(|k| J::S(cx.raw(k.to_def_id())))
            .collect();
        let mut bodies = vec![];
        for (d, b) in &all {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            bodies.push(cx.body(*d, b));
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = cx.ty(st);
                    let mut o = vec![("def", J::S(cx.raw(did))), ("self_ty", J::U(sti as u64)), ("loc", cx.loc(tcx.def_span(did)))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        o.push(("trait", J::S(cx.raw(tr.def_id))));
                        o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                        let ta = cx.args(tr.args);
                        o.push(("trait_args", ta));
                    }
                    let items: Vec<J> = tcx
                        .associated_items(did)
                        .in_definition_order()
                        .map(|i| J::A(vec![J::S(i.opt_name().map(|n| n.to_string()).unwrap_or_default()), J::S(cx.raw(i.def_id))]))
                        .collect();
                    o.push(("items", J::A(items)));
                    impls.push(J::o(o));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt_queue.push_back(did),
                _ => {}
            }
        }
        while let Some(d) = cx.adt_queue.pop_front() {
            cx.adt(d);
        }
        let adts: Vec<(String, J)> = std::mem::take(&mut cx.adts).into_iter().collect();
        let j = J::o(vec![
            ("crate", J::S(krate.clone())),
            ("kind", J::s(kind)),
            ("missing", J::A(missing)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::O(adts)),
            ("impls", J::A(impls)),
            ("bodies", J::A(bodies)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        let path = format!("{}/{}-{}.json", out, krate, kind);
        std::fs::write(&path, s).expect("cannot write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    let args: Vec<String> = args[1..].to_vec();
    let is_build_script = args.iter().any(|a| a == "build_script_build");
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    let out = std::env::var("CHOMP_FACTS_DIR").ok().filter(|_| !is_build_script && !is_query);
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
