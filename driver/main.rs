// MIR exporter: a rustc wrapper that type-checks the crate exactly as cargo asks
// and writes every local body (after drop elaboration, no MIR optimisation) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TyKind};
use rustc_span::def_id::DefId;
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    S(String),
    N(i128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    // a stable, unambiguous path (no generic arguments, re-exports ignored)
    fn key(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        format!("{}{}", self.tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        J::A(vec![s(f), J::N(loc.line as i128)])
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(a.types().map(|t| self.ty(t)).collect())
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tyidx.get(&t) {
            return J::N(*i as i128);
        }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, ix);
        let mut o: Vec<(&'static str, J)> = vec![];
        match *t.kind() {
            TyKind::Adt(d, a) => {
                o.push(("k", s("adt")));
                let name = self.path(d.did());
                o.push(("n", s(name.clone())));
                let aj = self.args(a);
                o.push(("a", aj));
                if d.did().is_local() || d.is_enum() {
                    self.adt(d, name);
                }
            }
            TyKind::Ref(_, i, m) => {
                o.push(("k", s("ref")));
                let ij = self.ty(i);
                o.push(("t", ij));
                o.push(("m", J::B(m.is_mut())));
            }
            TyKind::RawPtr(i, m) => {
                o.push(("k", s("ptr")));
                let ij = self.ty(i);
                o.push(("t", ij));
                o.push(("m", J::B(m.is_mut())));
            }
            TyKind::Slice(i) => {
                o.push(("k", s("slice")));
                let ij = self.ty(i);
                o.push(("t", ij));
            }
            TyKind::Array(i, n) => {
                o.push(("k", s("array")));
                let ij = self.ty(i);
                o.push(("t", ij));
                let n = n.try_to_target_usize(self.tcx);
                o.push(("len", n.map_or(J::Null, |x| J::N(x as i128))));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("ts", J::A(v)));
            }
            TyKind::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("n", s(self.path(d.into()))));
                let d: DefId = d.into();
                o.push(("key", s(self.key(d))));
                o.push(("local", J::B(d.is_local())));
                let aj = self.args(a.skip_binder());
                o.push(("a", aj));
            }
            TyKind::Closure(d, a) => {
                o.push(("k", s("closure")));
                let d: DefId = d.into();
                o.push(("n", s(self.path(d))));
                o.push(("key", s(self.key(d))));
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("ups", J::A(v)));
                let k = format!("{:?}", a.as_closure().kind());
                o.push(("ck", s(k)));
            }
            TyKind::Dynamic(p, _) => {
                o.push(("k", s("dyn")));
                let n = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                o.push(("n", s(n)));
            }
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.to_string())));
            }
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str | TyKind::Never => {
                o.push(("k", s("prim")));
                o.push(("n", s(t.to_string())));
            }
            _ => {
                o.push(("k", s("other")));
            }
        }
        o.push(("s", s(t.to_string())));
        self.types[ix] = J::O(o);
        J::N(ix as i128)
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>, name: String) {
        if self.adts.contains_key(&name) {
            return;
        }
        self.adts.insert(name.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let tj = self.ty(ft);
                fs.push(J::O(vec![
                    ("n", s(f.name.to_string())),
                    ("t", tj),
                    ("pub", J::B(f.vis.is_public())),
                ]));
            }
            let discr = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
            vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::N(discr)), ("f", J::A(fs))]));
        }
        let has_drop = d.did().is_local() && d.destructor(tcx).is_some();
        let j = J::O(vec![
            ("kind", s(if d.is_enum() { "enum" } else if d.is_struct() { "struct" } else { "union" })),
            ("key", s(self.key(d.did()))),
            ("local", J::B(d.did().is_local())),
            ("drop", J::B(has_drop)),
            ("v", J::A(vs)),
        ]);
        self.adts.insert(name, j);
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![J::N(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    J::A(vec![s("f"), J::N(f.as_usize() as i128), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::N(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c"),
                    J::N(offset as i128),
                    J::N(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::N(from as i128), J::N(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), J::N(vi.as_usize() as i128)]),
                ProjectionElem::OpaqueCast(t) => {
                    let tj = self.ty(t);
                    J::A(vec![s("o"), tj])
                }
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }
    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let v: i128 = if let TyKind::Int(_) = t.kind() {
                    i.to_int(i.size())
                } else {
                    bits as i128
                };
                J::O(vec![("int", J::N(v))])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => J::O(vec![("static", s(self.key(d)))]),
                    GlobalAlloc::Function { instance } => {
                        J::O(vec![("fnptr", s(self.key(instance.def_id())))])
                    }
                    GlobalAlloc::Memory(a) => {
                        let a = a.inner();
                        let r = a.inspect_with_uninit_and_ptr_outside_interpreter(
                            off.bytes_usize()..a.len(),
                        );
                        J::O(vec![("mem", s(format!("{:?}", r)))])
                    }
                    _ => J::O(vec![("unk", s("ptr"))]),
                }
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("t", tj)];
        if let TyKind::FnDef(d, a) = *t.kind() {
            let f = self.callee(d.into(), a.skip_binder(), body);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                o.push(("of", s(self.key(u.def))));
                return J::O(o);
            }
            o.push(("item", s(self.key(u.def))));
            o.push(("itemlocal", J::B(u.def.is_local())));
        }
        let env = body.typing_env(tcx);
        match c.const_.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(sc)) => {
                let j = self.scalar(sc, t);
                o.push(("v", j));
            }
            Ok(ConstValue::ZeroSized) => o.push(("v", J::O(vec![("zst", J::B(true))]))),
            Ok(cv @ ConstValue::Slice { .. }) => {
                let b = cv.try_get_slice_bytes_for_diagnostics(tcx);
                let st = b.map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
                o.push(("v", J::O(vec![("str", s(st))])));
            }
            Ok(ConstValue::Indirect { .. }) => o.push(("v", J::O(vec![("indirect", J::B(true))]))),
            Err(_) => o.push(("v", J::O(vec![("unk", J::B(true))]))),
        }
        o.push(("s", s(format!("{}", c.const_))));
        J::O(o)
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("n", s(self.path(d))),
            ("key", s(self.key(d))),
            ("local", J::B(d.is_local())),
        ];
        let aj = self.args(a);
        o.push(("a", aj));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("meth", s(tcx.item_name(d).to_string())));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            if !sig.safety().is_safe() {
                o.push(("unsafe", J::B(true)));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let env = body.typing_env(tcx);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
                match inst.def {
                    InstanceKind::Item(rd) => {
                        o.push(("rn", s(self.path(rd))));
                        o.push(("rkey", s(self.key(rd))));
                        o.push(("rlocal", J::B(rd.is_local())));
                        let ra = self.args(inst.args);
                        o.push(("ra", ra));
                    }
                    InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                    ref k => {
                        let n = format!("{:?}", k);
                        let n = n.split('(').next().unwrap_or("").to_string();
                        o.push(("shim", s(n)));
                    }
                }
            }
        }
        J::O(o)
    }
    fn op(&mut self, x: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match x {
            Operand::Copy(p) => {
                let j = self.place(p);
                J::A(vec![s("copy"), j])
            }
            Operand::Move(p) => {
                let j = self.place(p);
                J::A(vec![s("move"), j])
            }
            Operand::Constant(c) => {
                let j = self.constant(c, b);
                J::A(vec![s("const"), j])
            }
            _ => J::A(vec![s("rtcheck")]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(x, ..) => {
                let x = self.op(x, b);
                J::A(vec![s("use"), x])
            }
            Rvalue::Repeat(x, n) => {
                let x = self.op(x, b);
                let n = n.try_to_target_usize(self.tcx);
                J::A(vec![s("repeat"), x, n.map_or(J::Null, |n| J::N(n as i128))])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(m), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                J::A(vec![s("raw"), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let m = m.is_mut();
                let p = self.place(p);
                J::A(vec![s("reborrow"), J::B(m), p])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::Cast(k, x, t) => {
                let x = self.op(x, b);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), x, t])
            }
            Rvalue::BinaryOp(op, xy) => {
                let x = self.op(&xy.0, b);
                let y = self.op(&xy.1, b);
                J::A(vec![s("bin"), s(format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, x) => {
                let x = self.op(x, b);
                J::A(vec![s("un"), s(format!("{:?}", op)), x])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                J::A(vec![s("discr"), p])
            }
            Rvalue::Aggregate(k, xs) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, f) => J::A(vec![
                        s("adt"),
                        s(self.path(*d)),
                        J::N(v.as_usize() as i128),
                        f.map_or(J::Null, |f| J::N(f.as_usize() as i128)),
                    ]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.key(*d))]),
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                let v = xs.iter().map(|x| self.op(x, b)).collect();
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("copy"), p])])
            }
            _ => J::A(vec![s("other")]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize().to_string(), s(v.name.to_string()));
                }
            }
        }
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1, b);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("setd"), p, J::N(variant_index.as_usize() as i128), sp]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => st.push(J::A(vec![s("intr"), sp])),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let bbn = |x: BasicBlock| J::N(x.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bbn(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr, b);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dt = self.ty(dt);
                    let v = targets
                        .iter()
                        .map(|(v, t)| J::A(vec![J::N(v as i128), bbn(t)]))
                        .collect();
                    J::A(vec![s("switch"), d, J::A(v), bbn(targets.otherwise()), dt])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, bbn(*target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, b);
                    let a = args.iter().map(|x| self.op(&x.node, b)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map_or(J::Null, bbn)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, b);
                    let m = format!("{:?}", msg);
                    let m = m.split(['(', ' ', '{']).next().unwrap_or("").to_string();
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow-{:?}", op),
                        _ => m,
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), s(kind), bbn(*target)])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), bbn(*real_target)]),
                _ => J::A(vec![s("other")]),
            };
            bbs.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", J::N(b.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::M(names)),
            ("bbs", J::A(bbs)),
            ("spread", b.spread_arg.map_or(J::Null, |l| J::N(l.as_usize() as i128))),
        ])
    }
}

// unsafe blocks written in this crate (not by macros of others)
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let foreign = b.span.from_expansion()
                && b.span.ctxt().outer_expn_data().macro_def_id.map_or(true, |m| !m.is_local());
            if !foreign {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tyidx: HashMap::new(), adts: BTreeMap::new() };
        let mut fns = BTreeMap::new();
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
            );
            if !is_fn && !is_const {
                continue;
            }
            let b: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let mut o = vec![
                ("path", s(cx.path(d))),
                ("kind", s(format!("{:?}", kind).split([' ', '{']).next().unwrap().to_string())),
            ];
            let sp = cx.span(tcx.def_span(d));
            o.push(("span", sp));
            o.push(("pub", J::B(tcx.effective_visibilities(()).is_reachable(*ld))));
            if kind == DefKind::AssocFn {
                if let Some(im) = tcx.impl_of_assoc(d) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    let j = cx.ty(st);
                    o.push(("self", j));
                    if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
                        let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(cx.path(tr.def_id))));
                        o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                    }
                } else if let Some(tr) = tcx.trait_of_assoc(d) {
                    o.push(("intrait", s(cx.path(tr))));
                }
                o.push(("name", s(tcx.item_name(d).to_string())));
            }
            if is_fn && kind != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::B(!sig.safety().is_safe())));
            }
            if let DefKind::Static { mutability, .. } = kind {
                o.push(("mut", J::B(mutability.is_mut())));
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let env = ty::TypingEnv::fully_monomorphized();
                o.push(("freeze", J::B(t.is_freeze(tcx, env))));
                let tj = cx.ty(t);
                o.push(("type", tj));
            }
            let j = cx.body(b);
            o.push(("body", j));
            let mut pj = vec![];
            if is_fn || is_const {
                for p in tcx.promoted_mir(d).iter() {
                    pj.push(cx.body(p));
                }
            }
            o.push(("promoted", J::A(pj)));
            fns.insert(cx.key(d), J::O(o));
        }
        // trait impls and traits of this crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let st = cx.ty(tr.self_ty());
                let mut ms = BTreeMap::new();
                for m in tcx.associated_items(d).in_definition_order() {
                    if matches!(m.kind, ty::AssocKind::Fn { .. }) {
                        ms.insert(m.name().to_string(), s(cx.key(m.def_id)));
                    }
                }
                impls.push(J::O(vec![
                    ("trait", s(cx.path(tr.def_id))),
                    ("traitkey", s(cx.key(tr.def_id))),
                    ("self", st),
                    ("m", J::M(ms)),
                    ("derived", J::B(tcx.is_automatically_derived(d))),
                ]));
            }
            if let DefKind::Struct | DefKind::Enum = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let _ = cx.ty(t);
            }
        }
        let mut us = Unsafe { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut us);
        let uj = us.found.iter().map(|x| cx.span(*x)).collect();
        let root = J::O(vec![
            ("unsafe", J::A(uj)),
            ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
            ("fns", J::M(fns)),
            ("impls", J::A(impls)),
            ("types", J::A(std::mem::take(&mut cx.types))),
            ("adts", J::M(std::mem::take(&mut cx.adts))),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&self.out, o).expect("cannot write MIR export");
        Compilation::Continue
    }
}

struct No;
impl Callbacks for No {}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .windows(2)
        .find(|w| w[0] == "--crate-name")
        .map(|w| w[1].clone())
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let is_test = args.iter().any(|a| a == "--test");
    let want = std::env::var("RNMIR_CRATE").unwrap_or_default();
    if name == want && !is_test {
        let kind = if is_lib { "lib" } else { "bin" };
        let out = format!("{}/{}.{}.json", std::env::var("RNMIR_OUT").unwrap(), name, kind);
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut No);
    }
}
