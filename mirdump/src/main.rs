//! mirdump: a rustc driver that writes the MIR of the crate under check (and of the
//! functions it calls, monomorphised) as JSON for the symbolic executor in /verif/engine.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_session;

use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_const_eval::interpret::Projectable;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ------------------------------------------------------------------ tiny JSON
#[derive(Clone)]
enum J { N(i128), B(bool), S(String), A(Vec<J>), Null }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N(n) => { let _ = write!(o, "{n}"); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Null => o.push_str("null"),
            J::S(s) => jstr(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
        }
    }
}
fn jstr(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().ok().unwrap()) }
macro_rules! a { ($($e:expr),* $(,)?) => { J::A(vec![$($e),*]) } }

// ------------------------------------------------------------------ dumper
struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    fns: Vec<J>,
    fnidx: HashMap<(Instance<'tcx>, bool), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, ty::TypingEnv<'tcx>)>,
    env: ty::TypingEnv<'tcx>,
    poly: bool,
    deep: bool,
    files: BTreeMap<String, usize>,
}

fn stop_path(krate: &str, path: &str) -> bool {
    // external functions whose bodies are replaced by contracts in the engine
    match krate {
        "core" => {
            let ok = ["::option::", "::result::", "::ops::", "::cmp::", "::convert::", "::iter::", "::mem::", "::borrow::", "::slice::iter", "::bool::", "::pin::", "::future::", "::task::", "::any::", "::default::", "::clone::", "::array::"];
            !ok.iter().any(|p| path.contains(p)) || path.contains("::fmt") 
        }
        "alloc" => {
            let ok = ["::boxed::", "::borrow::"];
            !ok.iter().any(|p| path.starts_with(p))
        }
        "std" => true,
        "serde_core" | "serde" => {
            // provided default methods of the serde traits and private helpers
            false
        }
        "dataflow_rs" => false,
        _ => true,
    }
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, deep: bool) -> Self {
        Dump { tcx, types: vec![], tyidx: HashMap::new(), fns: vec![], fnidx: HashMap::new(), queue: VecDeque::new(),
               env: ty::TypingEnv::fully_monomorphized(), poly: false, deep, files: BTreeMap::new() }
    }
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn tys(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|t| n(self.ty(t))).collect();
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tyidx.insert(t, i);
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => a![s("bool")],
            ty::Char => a![s("char")],
            ty::Str => a![s("str")],
            ty::Never => a![s("never")],
            ty::Int(it) => a![s("int"), n(it.bit_width().unwrap_or(64)), J::B(true)],
            ty::Uint(it) => a![s("int"), n(it.bit_width().unwrap_or(64)), J::B(false)],
            ty::Float(f) => a![s("float"), n(f.bit_width())],
            ty::Ref(_, x, m) => a![s("ref"), n(self.ty(x)), J::B(m.is_mut())],
            ty::RawPtr(x, m) => a![s("ptr"), n(self.ty(x)), J::B(m.is_mut())],
            ty::Slice(x) => a![s("slice"), n(self.ty(x))],
            ty::Array(x, len) => {
                let l = len.try_to_target_usize(tcx);
                a![s("array"), n(self.ty(x)), l.map(n).unwrap_or(J::Null)]
            }
            ty::Tuple(ts) => { let v: Vec<J> = ts.iter().map(|t| n(self.ty(t))).collect(); a![s("tuple"), J::A(v)] }
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs = self.tys(args);
                let krate = tcx.crate_name(def.did().krate).to_string();
                let mut vs = vec![];
                let opaque_crate = !def.did().is_local() && !matches!(krate.as_str(), "core" | "alloc" | "std" | "dataflow_rs" | "serde_json" | "serde_core" | "serde");
                if !opaque_crate {
                    let discrs: Vec<i128> = if def.is_enum() {
                        def.discriminants(tcx).map(|(_, d)| {
                            // sign-correct value
                            let sz = d.ty.primitive_size(tcx);
                            if d.ty.is_signed() { sz.sign_extend(d.val) as i128 } else { d.val as i128 }
                        }).collect()
                    } else { vec![0] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.norm(ft);
                            fs.push(a![s(f.name.to_string()), n(self.ty(ft))]);
                        }
                        vs.push(a![s(v.name.to_string()), n(discrs[vi.as_usize()]), J::A(fs)]);
                    }
                }
                a![s("adt"), s(self.path(def.did())), targs, s(kind), J::A(vs), s(krate)]
            }
            ty::FnDef(did, _) => {
                let (did, args) = fndef_parts(t).unwrap_or((did.into(), ty::List::empty()));
                let inst = self.resolve(did, args);
                a![s("fndef"), s(self.path(did)), inst]
            }
            ty::FnPtr(..) => a![s("fnptr")],
            ty::Closure(did, args) => {
                let did: DefId = did.into();
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                let inst = Instance::new_raw(did, args);
                let fi = self.want(inst);
                a![s("closure"), s(self.path(did)), J::A(ups), n(fi)]
            }
            ty::Coroutine(did, args) => {
                let did: DefId = did.into();
                let ca = args.as_coroutine();
                let ups: Vec<J> = ca.upvar_tys().iter().map(|t| n(self.ty(t))).collect();
                let mut vs = vec![];
                if tcx.is_mir_available(did) && !self.poly {
                    let layout = tcx.coroutine_layout(did, args).ok();
                    if let Some(layout) = layout {
                        for (vi, flds) in layout.variant_fields.iter_enumerated() {
                            let mut fs = vec![];
                            for f in flds.iter() {
                                let ft = ty::EarlyBinder::bind(tcx, layout.field_tys[*f].ty).instantiate(tcx, args).skip_norm_wip();
                                let ft = self.norm(ft);
                                fs.push(n(self.ty(ft)));
                            }
                            vs.push(a![n(vi.as_usize()), J::A(fs)]);
                        }
                    }
                }
                let inst = Instance::new_raw(did, args);
                let fi = self.want(inst);
                a![s("coroutine"), s(self.path(did)), J::A(ups), n(fi), J::A(vs)]
            }
            ty::Dynamic(..) => a![s("dyn"), s(with_no_trimmed_paths!(t.to_string()))],
            ty::Param(p) => a![s("param"), s(p.name.to_string())],
            _ => a![s("other"), s(with_no_trimmed_paths!(t.to_string()))],
        };
        self.types[i] = j;
        i
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    /// index of function record for an instance (queued for dumping if wanted)
    fn want(&mut self, inst: Instance<'tcx>) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        let key = (inst, self.poly);
        if let Some(i) = self.fnidx.get(&key) { return *i; }
        let i = self.fns.len();
        self.fnidx.insert(key, i);
        self.fns.push(J::Null);
        self.queue.push_back((i, inst, self.env));
        i
    }
    /// functions that consume an iterator without a dumped body: [into_iter, next] of that iterator
    fn drive(&mut self, inst: Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let m = |tr: &str, f: &str| -> Option<DefId> {
            let t = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?;
            tcx.associated_items(t).in_definition_order().find(|a| a.name().as_str() == f).map(|a| a.def_id)
        };
        let (Some(ii), Some(nx)) = (m("IntoIterator", "into_iter"), m("Iterator", "next")) else { return J::Null };
        let Some(t) = inst.args.types().last() else { return J::Null };
        let Ok(Some(into)) = Instance::try_resolve(tcx, self.env, ii, tcx.mk_args(&[t.into()])) else { return J::Null };
        let Some(did) = Some(into.def_id()) else { return J::Null };
        if !matches!(tcx.def_kind(did), DefKind::AssocFn) { return J::Null; }
        let sig = into.ty(tcx, self.env).fn_sig(tcx).output().skip_binder();
        let Ok(it) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(sig)) else { return J::Null };
        let Ok(Some(next)) = Instance::try_resolve(tcx, self.env, nx, tcx.mk_args(&[it.into()])) else { return J::Null };
        let a = self.want(into); let b = self.want(next);
        a![n(a), n(b)]
    }
    fn resolve(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
            return a![s("item"), s(self.path(did)), J::Null, J::Null];
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(inst)) => {
                let i = self.want(inst);
                n(i)
            }
            _ => {
                let ta = self.tys(args);
                a![s("unres"), s(self.path(did)), ta]
            }
        }
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => a![s("f"), n(f.as_usize()), n(self.ty(t))],
                ProjectionElem::Index(l) => a![s("i"), n(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => a![s("c"), n(offset), n(min_length), J::B(from_end)],
                ProjectionElem::Subslice { from, to, from_end } => a![s("s"), n(from), n(to), J::B(from_end)],
                ProjectionElem::Downcast(_, vi) => a![s("d"), n(vi.as_usize())],
                _ => s("="),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => a![s("c"), self.place(p)],
            Operand::Move(p) => a![s("m"), self.place(p)],
            Operand::Constant(c) => self.konst(&c.const_, c.span),
            _ => a![s("k"), J::Null, a![s("bool"), J::B(false)]],
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, span: rustc_span::Span) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return a![s("k"), n(ti), a![s("zst")]]; }
        let v = match c.eval(self.tcx, self.env, span) {
            Ok(cv) => {
                let tcx = self.tcx;
                match mk_eval_cx_for_const_val(tcx.at(span), self.env, cv, t) {
                    Some((ecx, op)) => decode(self, &ecx, &op, 0),
                    None => a![s("opaque"), s(with_no_trimmed_paths!(format!("{c:?}")))],
                }
            }
            Err(_) => a![s("opaque"), s(with_no_trimmed_paths!(format!("{c:?}")))],
        };
        a![s("k"), n(ti), v]
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => a![s("use"), self.operand(o)],
            Rvalue::Repeat(o, c) => a![s("repeat"), self.operand(o), c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null)],
            Rvalue::Ref(_, k, p) => a![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)],
            Rvalue::RawPtr(_, p) => a![s("ref"), J::B(true), self.place(p)],
            Rvalue::Reborrow(_, _, p) => a![s("reborrow"), self.place(p)],
            Rvalue::CopyForDeref(p) => a![s("use"), a![s("c"), self.place(p)]],
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                a![s("cast"), s(ks), self.operand(o), n(self.ty(*t))]
            }
            Rvalue::BinaryOp(op, b) => a![s("bin"), s(format!("{op:?}")), self.operand(&b.0), self.operand(&b.1)],
            Rvalue::UnaryOp(op, o) => a![s("un"), s(format!("{op:?}")), self.operand(o)],
            Rvalue::Discriminant(p) => a![s("discr"), self.place(p)],
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match **k {
                    AggregateKind::Array(t) => a![s("array"), n(self.ty(t))],
                    AggregateKind::Tuple => a![s("tuple")],
                    AggregateKind::Adt(did, vi, args, _, fi) => {
                        let t = self.tcx.type_of(did).instantiate(self.tcx, args).skip_norm_wip();
                        a![s("adt"), n(self.ty(t)), n(vi.as_usize()), fi.map(|f| n(f.as_usize())).unwrap_or(J::Null)]
                    }
                    AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, did.into(), args);
                        a![s("closure"), n(self.ty(t))]
                    }
                    AggregateKind::Coroutine(did, args) => {
                        let t = Ty::new_coroutine(self.tcx, did.into(), args);
                        a![s("coroutine"), n(self.ty(t))]
                    }
                    AggregateKind::RawPtr(t, _) => a![s("rawptr"), n(self.ty(t))],
                    _ => a![s("other")],
                };
                a![s("agg"), kj, J::A(os)]
            }
            _ => a![s("other"), s(format!("{r:?}"))],
        }
    }
    fn line(&mut self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = loc.file.name.prefer_local_unconditionally().to_string();
        let k = self.files.len();
        let i = *self.files.entry(f).or_insert(k);
        a![n(i), n(loc.line)]
    }
    fn body(&mut self, inst: Instance<'tcx>, body: &Body<'tcx>) -> J {
        let locals: Vec<J> = body.local_decls.iter().map(|l| n(self.ty(l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for stmt in bb.statements.iter() {
                match &stmt.kind {
                    StatementKind::Assign(b) => st.push(a![self.place(&b.0), self.rvalue(&b.1)]),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(a![s("setd"), self.place(place), n(variant_index.as_usize())]),
                    StatementKind::Intrinsic(b) => match &**b {
                        NonDivergingIntrinsic::Assume(o) => st.push(a![s("assume"), self.operand(o)]),
                        _ => st.push(a![s("copynonoverlapping")]),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let bbn = |b: BasicBlock| n(b.as_usize());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => a![s("goto"), bbn(*target)],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let signed = dt.is_signed();
                    let sz = if dt.is_bool() { rustc_abi::Size::from_bytes(1) } else { dt.primitive_size(self.tcx) };
                    let vs: Vec<J> = targets.iter().map(|(v, b)| a![n(if signed { sz.sign_extend(v) as i128 } else { v as i128 }), bbn(b)]).collect();
                    a![s("switch"), self.operand(discr), J::A(vs), bbn(targets.otherwise())]
                }
                TerminatorKind::Return => a![s("ret")],
                TerminatorKind::Unreachable => a![s("unreach")],
                TerminatorKind::Drop { target, .. } => a![s("goto"), bbn(*target)],
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => a![s("goto"), bbn(*real_target)],
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fj = match func.constant().map(|c| (c.const_.ty(), c)) {
                        Some((t, _)) if fndef_parts(t).is_some() => {
                            let (did, ga) = fndef_parts(t).unwrap();
                            let r = self.resolve(did, ga);
                            let ta = self.tys(ga);
                            a![s("fn"), r, s(self.path(did)), ta]
                        }
                        _ => a![s("op"), self.operand(func)],
                    };
                    let av: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
                    a![s("call"), fj, J::A(av), self.place(destination), target.map(bbn).unwrap_or(J::Null), self.line(*fn_span)]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = with_no_trimmed_paths!(format!("{msg:?}"));
                    a![s("assert"), self.operand(cond), J::B(*expected), bbn(*target), s(m), self.line(t.source_info.span)]
                }
                TerminatorKind::Yield { .. } => a![s("yield")],
                k => a![s("other"), s(format!("{k:?}"))],
            };
            blocks.push(a![J::A(st), tj]);
        }
        let _ = inst;
        a![n(body.arg_count), J::A(locals), J::A(blocks), body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)]
    }
    fn run_queue(&mut self) {
        let tcx = self.tcx;
        while let Some((i, inst, env)) = self.queue.pop_front() {
            self.env = env;
            self.poly = inst.args.has_param();
            let did = inst.def_id();
            let krate = tcx.crate_name(did.krate).to_string();
            let path = self.path(did);
            let verbose = tcx.def_path(did).to_string_no_crate_verbose();
            let ta = self.tys(inst.args);
            let (kind, extra) = match inst.def {
                InstanceKind::Item(_) => ("item", J::Null),
                InstanceKind::Intrinsic(_) => ("intrinsic", J::Null),
                InstanceKind::LlvmIntrinsic(_) => ("llvm", J::Null),
                InstanceKind::Virtual(_, _) => ("virtual", J::Null),
                InstanceKind::Shim(sh) => match sh {
                    ShimKind::FnPtr(_, t) => { let ti = self.ty(t); ("fnptrshim", n(ti)) }
                    ShimKind::ClosureOnce { closure, .. } => {
                        // the closure instance itself
                        let selfty = inst.args.type_at(0);
                        let e = if let ty::Closure(_, ca) = *selfty.kind() { n(self.want(Instance::new_raw(closure, ca))) } else { J::Null };
                        ("closure_once", e)
                    }
                    ShimKind::Clone(_, t) => { let ti = self.ty(t); ("cloneshim", n(ti)) }
                    ShimKind::DropGlue(..) => ("dropglue", J::Null),
                    ShimKind::VTable(..) => ("vtableshim", J::Null),
                    ShimKind::Reify(..) => ("reify", J::Null),
                    _ => ("othershim", J::Null),
                },
            };
            let skip_callee = is_doc_leaf(tcx, did, &verbose) && !self.deep;
            let mut bj = J::Null;
            if kind == "item" && !skip_callee {
                let dk = tcx.def_kind(did);
                let fnlike = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody);
                if fnlike && tcx.is_mir_available(did) && (did.is_local() || !stop_path(&krate, &verbose)) && tcx.intrinsic(did).is_none() {
                    let b = tcx.instance_mir(inst.def);
                    let body = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
                    if let Ok(body) = body { bj = self.body(inst, &body); }
                }
                if let DefKind::Ctor(..) = dk {
                    let sig = inst.ty(tcx, env).fn_sig(tcx).output().skip_binder();
                    let ti = self.ty(sig);
                    let parent = tcx.parent(did);
                    let vi = match tcx.def_kind(parent) {
                        DefKind::Variant => { let adt = sig.ty_adt_def().unwrap(); adt.variant_index_with_id(parent).as_usize() }
                        _ => 0,
                    };
                    bj = a![s("ctor"), n(ti), n(vi)];
                }
            }
            let mut extra = extra;
            if kind == "item" && matches!(bj, J::Null) && !self.poly && (path.ends_with("::from_iter") || path.ends_with("::extend")) {
                extra = self.drive(inst);
            }
            let sp = self.line(tcx.def_span(did));
            let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, inst.args));
            self.fns[i] = a![s(path), s(kind), s(krate), ta, bj, sp, extra, s(full), J::B(self.poly)];
        }
    }
    fn root(&mut self, did: DefId) -> usize {
        let tcx = self.tcx;
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let args = tcx.erase_and_anonymize_regions(args);
        let poly = args.has_param();
        self.env = if poly { ty::TypingEnv::post_analysis(tcx, did) } else { ty::TypingEnv::fully_monomorphized() };
        self.poly = poly;
        self.want(Instance::new_raw(did, args))
    }
    fn write(&mut self, path: &str, roots: &[usize], meta: Vec<(String, J)>) {
        let mut o = String::new();
        o.push_str("{\"types\":");
        J::A(std::mem::take(&mut self.types)).w(&mut o);
        o.push_str(",\n\"fns\":[");
        for (i, f) in self.fns.iter().enumerate() { if i > 0 { o.push_str(",\n"); } f.w(&mut o); }
        o.push_str("],\n\"roots\":");
        J::A(roots.iter().map(|r| n(*r)).collect()).w(&mut o);
        let mut fl: Vec<(&String, &usize)> = self.files.iter().collect();
        fl.sort_by_key(|x| x.1);
        o.push_str(",\n\"files\":");
        J::A(fl.into_iter().map(|x| s(x.0.clone())).collect()).w(&mut o);
        for (k, v) in meta { o.push_str(",\n"); jstr(&k, &mut o); o.push(':'); v.w(&mut o); }
        o.push_str("}\n");
        std::fs::write(path, o).expect("write dump");
    }
}

/// functions of the generated message modules are dumped in their own files; elsewhere they are leaves
fn is_doc_leaf(_tcx: TyCtxt<'_>, did: DefId, verbose: &str) -> bool {
    did.is_local() && (verbose.starts_with("::document::") || verbose.starts_with("::header::"))
}

fn fndef_parts<'tcx>(t: Ty<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>)> {
    if let ty::FnDef(d, a) = *t.kind() { Some((d.into(), a.skip_binder())) } else { None }
}

fn decode<'tcx>(d: &mut Dump<'tcx>, ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>, op: &rustc_const_eval::interpret::OpTy<'tcx>, depth: usize) -> J {
    match decode0(d, ecx, op, depth) { Some(j) => j, None => a![s("opaque"), s(with_no_trimmed_paths!(op.layout.ty.to_string()))] }
}
fn decode0<'tcx>(d: &mut Dump<'tcx>, ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>, op: &rustc_const_eval::interpret::OpTy<'tcx>, depth: usize) -> Option<J> {
    if depth > 12 { return None; }
    let t = op.layout.ty;
    Some(match *t.kind() {
        ty::Bool => a![s("bool"), J::B(ecx.read_scalar(op).discard_err()?.to_bool().discard_err()?)],
        ty::Char => a![s("char"), n(ecx.read_scalar(op).discard_err()?.to_u32().discard_err()?)],
        ty::Uint(_) => { let sc = ecx.read_scalar(op).discard_err()?; let sz = op.layout.size; a![s("int"), n(sc.to_bits(sz).discard_err()? as i128)] }
        ty::Int(_) => { let sc = ecx.read_scalar(op).discard_err()?; let sz = op.layout.size; a![s("int"), n(sz.sign_extend(sc.to_bits(sz).discard_err()?) as i128)] }
        ty::Float(_) => { let sc = ecx.read_scalar(op).discard_err()?; let sz = op.layout.size; a![s("fbits"), n(sc.to_bits(sz).discard_err()? as i128)] }
        ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
            let pl = ecx.deref_pointer(op).discard_err()?;
            match *x.kind() {
                ty::Str => { let st = ecx.read_str(&pl).discard_err()?.to_string(); a![s("str"), s(st)] }
                ty::Slice(_) => {
                    let len = pl.len(ecx).discard_err()?;
                    if len > 4096 { return None; }
                    let mut v = vec![];
                    for i in 0..len { let e = ecx.project_index(&pl, i).discard_err()?; let eo = e.to_op(ecx).discard_err()?; v.push(decode(d, ecx, &eo, depth + 1)); }
                    let eti = if let ty::Slice(et) = *x.kind() { d.ty(et) } else { 0 };
                    a![s("refslice"), J::A(v), n(eti)]
                }
                ty::Dynamic(..) => return None,
                _ => { let po = pl.to_op(ecx).discard_err()?; let v = decode(d, ecx, &po, depth + 1); let ti = d.ty(x); a![s("ref"), v, n(ti)] }
            }
        }
        ty::Array(et, _) => {
            let len = op.len(ecx).discard_err()?;
            if len > 4096 { return None; }
            let mut v = vec![];
            for i in 0..len { let e = ecx.project_index(op, i).discard_err()?; v.push(decode(d, ecx, &e, depth + 1)); }
            let _ = et;
            a![s("array"), J::A(v)]
        }
        ty::Tuple(ts) => {
            let mut v = vec![];
            for i in 0..ts.len() { let e = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err()?; v.push(decode(d, ecx, &e, depth + 1)); }
            a![s("tuple"), J::A(v)]
        }
        ty::Adt(def, _) if def.is_enum() => {
            if def.variants().is_empty() { return None; }
            let vi = ecx.read_discriminant(op).discard_err()?;
            let dop = ecx.project_downcast(op, vi).discard_err()?;
            let nf = def.variant(vi).fields.len();
            let mut v = vec![];
            for i in 0..nf { let e = ecx.project_field(&dop, rustc_abi::FieldIdx::from_usize(i)).discard_err()?; v.push(decode(d, ecx, &e, depth + 1)); }
            let ti = d.ty(t);
            a![s("adt"), n(ti), n(vi.as_usize()), J::A(v)]
        }
        ty::Adt(def, _) if def.is_struct() => {
            let nf = def.non_enum_variant().fields.len();
            let mut v = vec![];
            for i in 0..nf { let e = ecx.project_field(op, rustc_abi::FieldIdx::from_usize(i)).discard_err()?; v.push(decode(d, ecx, &e, depth + 1)); }
            let ti = d.ty(t);
            a![s("adt"), n(ti), n(0), J::A(v)]
        }
        ty::FnDef(..) | ty::Closure(..) => a![s("zst")],
        ty::FnPtr(..) => {
            let ptr = ecx.read_pointer(op).discard_err()?;
            let inst = match ecx.get_ptr_fn(ptr).discard_err()? { rustc_const_eval::interpret::FnVal::Instance(i) => i, #[allow(unreachable_patterns)] _ => return None };
            a![s("fnptr"), n(d.want(inst))]
        }
        _ => return None,
    })
}

fn env_num(k: &str, d: usize) -> usize { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    /// Bodies are demanded through queries, so only what the check needs is type- and borrow-checked.
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = self.out.clone();
        let _ = std::fs::create_dir_all(&out);
        // group the roots
        let mut groups: BTreeMap<String, Vec<DefId>> = BTreeMap::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index.as_u32());
        let mut seen = HashSet::new();
        let named = std::env::var("MIRDUMP_NAMES").unwrap_or_default();
        let named: Vec<&str> = named.split(',').collect();
        for k in keys {
            let did = k.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            if !seen.insert(did) { continue; }
            let verbose = tcx.def_path(did).to_string_no_crate_verbose();
            let segs: Vec<&str> = verbose.split("::").filter(|x| !x.is_empty()).collect();
            let is_doc = segs.len() >= 2 && (segs[0] == "document" || segs[0] == "header") ;
            // trait implemented by the outermost impl
            let tr = owner_trait(tcx, did);
            if is_doc && tcx.item_name(did).as_str() == "serialize" && tr.as_deref().is_some_and(|t| t.contains("Serialize")) {
                let p = tcx.parent(did);
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let t = with_no_trimmed_paths!(tcx.type_of(p).instantiate_identity().skip_norm_wip().to_string());
                    if named.iter().any(|n| *n == t) { groups.entry("n".to_string()).or_default().push(did); }
                }
            }
            let g = if is_doc {
                let m = format!("{}.{}", segs[0], segs[1]);
                match tr.as_deref() {
                    Some(t) if t.contains("Serialize") || t.contains("Deserialize") || t.contains("Visitor") || t.contains("DeserializeSeed") => format!("s.{m}"),
                    Some(t) if t.contains("Default") => format!("d.{m}"),
                    Some(t) if t.contains("Clone") || t.contains("PartialEq") || t.contains("Debug") => continue,
                    _ => format!("v.{m}"),
                }
            } else { "core".to_string() };
            groups.entry(g).or_default().push(did);
        }
        let parts = std::env::var("MIRDUMP_PARTS").unwrap_or_else(|_| "core,v,s,d".into());
        let parts: Vec<&str> = parts.split(',').collect();
        groups.retain(|g, _| parts.iter().any(|p| g == p || g.split('.').next() == Some(*p)));
        // one process per shard: the groups are dealt out round-robin
        let (shard, shards) = (env_num("MIRDUMP_SHARD", 0), env_num("MIRDUMP_SHARDS", 1));
        let groups: BTreeMap<String, Vec<DefId>> = groups.into_iter().enumerate().filter(|(i, _)| i % shards == shard).map(|(_, x)| x).collect();
        let mut index = String::from("{");
        let mut first = true;
        for (g, dids) in groups {
            let deep = g != "core";
            let mut d = Dump::new(tcx, deep);
            let roots: Vec<usize> = dids.iter().map(|x| d.root(*x)).collect();
            d.run_queue();
            let nf = d.fns.len();
            // types of the message structs of this module
            d.write(&format!("{out}/{g}.json"), &roots, vec![]);
            if !first { index.push(','); }
            first = false;
            let _ = write!(index, "\n\"{g}\":[{},{}]", roots.len(), nf);
        }
        index.push_str("\n}\n");
        if let Some(e) = tcx.dcx().has_errors() { let _ = e; std::process::exit(101); }
        std::fs::write(format!("{out}/index.{shard}.json"), index).expect("index");
        Compilation::Stop
    }
}

/// path of the trait whose impl (transitively) encloses this item
fn owner_trait(tcx: TyCtxt<'_>, did: DefId) -> Option<String> {
    let mut d = did;
    loop {
        let p = tcx.opt_parent(d)?;
        if let DefKind::Impl { of_trait: true } = tcx.def_kind(p) {
            let tr = tcx.impl_trait_ref(p);
            let td = tr.skip_binder().def_id;
            return Some(with_no_trimmed_paths!(tcx.def_path_str(td)));
        }
        d = p;
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = args.iter().any(|a| a == "--crate-name") && std::env::var("MIRDUMP_CRATE").ok().map_or(false, |c| {
        let i = args.iter().position(|a| a == "--crate-name").unwrap();
        args.get(i + 1).map_or(false, |x| *x == c)
    });
    let _ = LOCAL_CRATE;
    if is_target && !out.is_empty() {
        let mut cb = Cb { out };
        let mut kids = vec![];
        if std::env::var("MIRDUMP_SHARD").is_err() {
            let exe = std::env::current_exe().expect("own path");
            for i in 1..env_num("MIRDUMP_SHARDS", 1) {
                kids.push(std::process::Command::new(&exe).args(&args[1..]).env("MIRDUMP_SHARD", i.to_string())
                    .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("shard"));
            }
        }
        let mut rc = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        for mut k in kids { if !k.wait().map_or(false, |s| s.success()) { rc = std::process::ExitCode::FAILURE; } }
        rc
    } else {
        struct NoCb;
        impl rustc_driver::Callbacks for NoCb {}
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut NoCb))
    }
}
