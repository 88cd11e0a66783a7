//! p4facts: a rustc driver that writes, for one crate, the type-resolved program as JSON lines:
//! every function, closure and coroutine body as MIR (as built: before optimisation, coroutine lowering and
//! drop elaboration), every ADT, every impl.  It decides nothing.
//! Output file: $P4FACTS_OUT.  Everything else is an ordinary rustc command line.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::cell::RefCell;
use std::fmt::Write as _;

type MirBuilt = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static mut DEFAULT_MIR_BUILT: Option<MirBuilt> = None;
thread_local! { static BODIES: RefCell<Vec<(LocalDefId, Body<'static>)>> = RefCell::new(Vec::new()); }

fn my_mir_built<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let r = unsafe { DEFAULT_MIR_BUILT.unwrap()(tcx, d) };
    let b: Body<'tcx> = r.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    BODIES.with(|v| v.borrow_mut().push((d, b)));
    r
}

// ---------------------------------------------------------------- JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().collect::<Vec<_>>().join(",")) }
fn obj(v: &[(&str, String)]) -> String { format!("{{{}}}", v.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect::<Vec<_>>().join(",")) }

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, krate: String }

fn pretty<R>(f: impl FnOnce() -> R) -> R {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(ty::print::with_no_visible_paths!(f())))
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String { pretty(|| self.tcx.def_path_str(d)) }
    fn ty(&self, t: Ty<'tcx>) -> String { pretty(|| t.to_string()) }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mut macros = vec![];
        for e in sp.macro_backtrace() { if let rustc_span::ExpnKind::Macro(_, n) = e.kind { macros.push(js(n.as_str())); } }
        let call = sp.source_callsite();
        let lo = sm.lookup_char_pos(call.lo());
        let file = match &lo.file.name { rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(), _ => String::new() };
        let mut v = vec![("f", js(&file)), ("l", lo.line.to_string()), ("c", lo.col.0.to_string())];
        if !macros.is_empty() { v.push(("m", arr(macros))); }
        if let Some(k) = sp.desugaring_kind() { v.push(("d", js(&format!("{:?}", k)))); }
        obj(&v)
    }
    fn fn_ref(&self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut v = vec![("id", js(&self.id(d))), ("name", js(&self.name(d)))];
        v.push(("args", arr(args.iter().filter(|a| a.as_region().is_none()).map(|a| js(&pretty(|| a.to_string()))))));
        if let Some(t) = tcx.trait_of_assoc(d) { v.push(("trait", js(&self.name(t)))); v.push(("method", js(tcx.item_name(d).as_str()))); }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            v.push(("self_ty", js(&self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
            if tcx.impl_opt_trait_ref(imp).is_some() { v.push(("impl_trait", js(&self.name(tcx.impl_trait_ref(imp).skip_binder().def_id)))); }
            v.push(("method", js(tcx.item_name(d).as_str())));
        }
        let erased = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, d, erased) {
                let kind = match i.def { InstanceKind::Item(_) => "item", InstanceKind::Virtual(..) => "virtual", InstanceKind::Intrinsic(_) => "intrinsic", _ => "shim" };
                v.push(("rkind", js(kind)));
                let rd = i.def_id();
                if rd != d { v.push(("rid", js(&self.id(rd)))); v.push(("rname", js(&self.name(rd)))); 
                    if let Some(imp) = tcx.impl_of_assoc(rd) { v.push(("rself", js(&self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip())))); } }
            }
        }
        obj(&v)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        if p.projection.is_empty() { return format!("[{}]", p.local.as_u32()); }
        let mut out = vec![p.local.as_u32().to_string()];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => js("*"),
                ProjectionElem::Field(f, fty) => {
                    let (name, adt) = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() && pty.variant_index.is_none() { (f.as_u32().to_string(), self.name(def.did())) }
                            else { (def.variant(vi).fields[f].name.to_string(), self.name(def.did())) }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            let n = d.as_local().and_then(|l| self.tcx.closure_captures(l).get(f.as_usize()).map(|c| c.to_symbol().to_string())).unwrap_or(f.as_u32().to_string());
                            (n, "{closure}".to_string())
                        }
                        _ => (f.as_u32().to_string(), String::new()),
                    };
                    obj(&[("f", f.as_u32().to_string()), ("n", js(&name)), ("a", js(&adt)), ("t", js(&self.ty(fty)))])
                }
                ProjectionElem::Index(l) => obj(&[("i", l.as_u32().to_string())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => obj(&[("ci", offset.to_string()), ("min", min_length.to_string()), ("fe", from_end.to_string())]),
                ProjectionElem::Subslice { from, to, from_end } => obj(&[("sub", arr([from.to_string(), to.to_string()])), ("fe", from_end.to_string())]),
                ProjectionElem::Downcast(n, vi) => {
                    let n = n.map(|s| s.to_string()).unwrap_or_else(|| match pty.ty.kind() { ty::Adt(d, _) => d.variant(vi).name.to_string(), _ => vi.as_u32().to_string() });
                    obj(&[("v", js(&n)), ("vi", vi.as_u32().to_string())])
                }
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => js("cast"),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        arr(out)
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let mut v = vec![("ty", js(&self.ty(t)))];
        match *t.kind() {
            ty::FnDef(d, args) => { v.push(("fn", self.fn_ref(d, args.no_bound_vars().unwrap_or_else(|| ty::GenericArgs::identity_for_item(self.tcx, d))))); }
            _ => {
                if let Const::Unevaluated(u, _) = c.const_ { v.push(("def", js(&self.id(u.def)))); v.push(("defname", js(&self.name(u.def)))); }
                if let Some(si) = c.const_.try_eval_scalar_int(self.tcx, self.env) {
                    let size = si.size();
                    let s = match t.kind() {
                        ty::Bool => (if si.to_bits(size) != 0 { "true" } else { "false" }).to_string(),
                        ty::Int(_) => js(&size.sign_extend(si.to_bits(size)).to_string()),
                        ty::Char => js(&format!("'{}", char::from_u32(si.to_bits(size) as u32).unwrap_or('\u{fffd}'))),
                        _ => js(&si.to_bits(size).to_string()),
                    };
                    v.push(("int", s));
                } else {
                    let val = match c.const_ { Const::Val(cv, _) => Some(cv), _ => c.const_.eval(self.tcx, self.env, c.span).ok() };
                    let mut done = false;
                    if let (Some(cv), ty::Ref(_, inner, _)) = (val, t.kind()) {
                        if inner.is_str() { if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(self.tcx) { v.push(("str", js(&String::from_utf8_lossy(b)))); done = true; } }
                    }
                    if !done { v.push(("disp", js(&pretty(|| format!("{}", c.const_))))); }
                }
            }
        }
        obj(&[("c", obj(&v))])
    }
    fn operand(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(&[("cp", self.place(b, p))]),
            Operand::Move(p) => obj(&[("mv", self.place(b, p))]),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(r) => obj(&[("c", obj(&[("ty", js("bool")), ("disp", js(&format!("{:?}", r)))]))]),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => obj(&[("k", js("use")), ("o", self.operand(b, o))]),
            Rvalue::Repeat(o, n) => obj(&[("k", js("repeat")), ("o", self.operand(b, o)), ("n", js(&pretty(|| n.to_string())))]),
            Rvalue::Ref(_, k, p) => obj(&[("k", js("ref")), ("mut", matches!(k, BorrowKind::Mut { .. }).to_string()), ("fake", matches!(k, BorrowKind::Fake(_)).to_string()), ("p", self.place(b, p))]),
            Rvalue::Reborrow(_, m, p) => obj(&[("k", js("ref")), ("mut", m.is_mut().to_string()), ("p", self.place(b, p))]),
            Rvalue::ThreadLocalRef(d) => obj(&[("k", js("tls")), ("id", js(&self.id(*d)))]),
            Rvalue::RawPtr(k, p) => obj(&[("k", js("rawptr")), ("mut", matches!(k, RawPtrKind::Mut).to_string()), ("p", self.place(b, p))]),
            Rvalue::Cast(k, o, t) => obj(&[("k", js("cast")), ("ck", js(&format!("{:?}", k))), ("o", self.operand(b, o)), ("t", js(&self.ty(*t)))]),
            Rvalue::BinaryOp(op, x) => obj(&[("k", js("bin")), ("op", js(&format!("{:?}", op))), ("a", self.operand(b, &x.0)), ("b", self.operand(b, &x.1))]),
            Rvalue::UnaryOp(op, x) => obj(&[("k", js("un")), ("op", js(&format!("{:?}", op))), ("a", self.operand(b, x))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let mut v = vec![("k", js("discr")), ("p", self.place(b, p)), ("t", js(&self.ty(t)))];
                if let ty::Adt(d, _) = t.kind() { if d.is_enum() {
                    v.push(("variants", obj(&d.discriminants(self.tcx).map(|(i, dv)| (dv.val.to_string(), js(d.variant(i).name.as_str()))).collect::<Vec<_>>().iter().map(|(a, b)| (a.as_str(), b.clone())).collect::<Vec<_>>())));
                } }
                obj(&v)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![("k", js("agg"))];
                match &**k {
                    AggregateKind::Array(t) => { v.push(("ak", js("array"))); v.push(("t", js(&self.ty(*t)))); }
                    AggregateKind::Tuple => v.push(("ak", js("tuple"))),
                    AggregateKind::Adt(d, vi, args, _, act) => {
                        let def = self.tcx.adt_def(*d); let var = def.variant(*vi);
                        v.push(("ak", js("adt"))); v.push(("adt", js(&self.name(*d)))); v.push(("v", js(var.name.as_str())));
                        v.push(("enum", def.is_enum().to_string()));
                        v.push(("targs", arr(args.types().map(|t| js(&self.ty(t))))));
                        v.push(("fields", arr(match act { Some(f) => vec![js(var.fields[*f].name.as_str())], None => var.fields.iter().map(|f| js(f.name.as_str())).collect() })));
                    }
                    AggregateKind::Closure(d, _) => { v.push(("ak", js("closure"))); v.push(("id", js(&self.id(*d)))); self.caps(*d, &mut v); }
                    AggregateKind::Coroutine(d, _) => { v.push(("ak", js("coroutine"))); v.push(("id", js(&self.id(*d)))); self.caps(*d, &mut v); }
                    AggregateKind::CoroutineClosure(d, _) => { v.push(("ak", js("closure"))); v.push(("id", js(&self.id(*d)))); self.caps(*d, &mut v); }
                    AggregateKind::RawPtr(t, _) => { v.push(("ak", js("rawptr"))); v.push(("t", js(&self.ty(*t)))); }
                }
                v.push(("ops", arr(ops.iter().map(|o| self.operand(b, o)))));
                obj(&v)
            }
            Rvalue::CopyForDeref(p) => obj(&[("k", js("use")), ("o", obj(&[("cp", self.place(b, p))]))]),
            Rvalue::WrapUnsafeBinder(o, _) => obj(&[("k", js("use")), ("o", self.operand(b, o))]),
        }
    }
    fn caps(&self, d: DefId, v: &mut Vec<(&'static str, String)>) {
        if let Some(l) = d.as_local() {
            v.push(("fields", arr(self.tcx.closure_captures(l).iter().map(|c| js(c.to_symbol().as_str())))));
            v.push(("byref", arr(self.tcx.closure_captures(l).iter().map(|c| c.is_by_ref().to_string()))));
        }
    }
    fn unwind(&self, u: &UnwindAction) -> String { match u { UnwindAction::Cleanup(b) => b.as_u32().to_string(), _ => "null".into() } }
    fn term(&self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let mut v: Vec<(&str, String)> = vec![];
        let bb = |x: BasicBlock| x.as_u32().to_string();
        match &t.kind {
            TerminatorKind::Goto { target, .. } => { v.push(("k", js("goto"))); v.push(("t", bb(*target))); }
            TerminatorKind::SwitchInt { discr, targets } => {
                v.push(("k", js("switch"))); v.push(("o", self.operand(b, discr)));
                let signed = discr.ty(b, self.tcx).is_signed();
                let _ = signed;
                v.push(("cases", arr(targets.iter().map(|(x, t)| arr([js(&x.to_string()), bb(t)])))));
                v.push(("otherwise", bb(targets.otherwise())));
            }
            TerminatorKind::UnwindResume => v.push(("k", js("resume"))),
            TerminatorKind::UnwindTerminate(_) => v.push(("k", js("abort"))),
            TerminatorKind::Return => v.push(("k", js("return"))),
            TerminatorKind::Unreachable => v.push(("k", js("unreachable"))),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                v.push(("k", js("drop"))); v.push(("p", self.place(b, place))); v.push(("t", bb(*target))); v.push(("u", self.unwind(unwind)));
                v.push(("ty", js(&self.ty(place.ty(b, self.tcx).ty))));
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                v.push(("k", js("call"))); v.push(("fn", self.operand(b, func)));
                v.push(("args", arr(args.iter().map(|a| self.operand(b, &a.node)))));
                v.push(("d", self.place(b, destination))); v.push(("t", target.map(bb).unwrap_or("null".into()))); v.push(("u", self.unwind(unwind)));
                v.push(("rty", js(&self.ty(destination.ty(b, self.tcx).ty))));
            }
            TerminatorKind::TailCall { func, args, .. } => { v.push(("k", js("tailcall"))); v.push(("fn", self.operand(b, func))); v.push(("args", arr(args.iter().map(|a| self.operand(b, &a.node))))); }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                v.push(("k", js("assert"))); v.push(("o", self.operand(b, cond))); v.push(("exp", expected.to_string())); v.push(("t", bb(*target))); v.push(("u", self.unwind(unwind)));
                let (kind, ops): (String, Vec<String>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.operand(b, len), self.operand(b, index)]),
                    AssertKind::Overflow(op, x, y) => (format!("Overflow({:?})", op), vec![self.operand(b, x), self.operand(b, y)]),
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(b, x)]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(b, x)]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(b, x)]),
                    _ => ("Other".into(), vec![]),
                };
                v.push(("msg", js(&kind))); v.push(("mops", arr(ops)));
            }
            TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                v.push(("k", js("yield"))); v.push(("o", self.operand(b, value))); v.push(("t", bb(*resume))); v.push(("d", self.place(b, resume_arg))); v.push(("drop", drop.map(bb).unwrap_or("null".into())));
            }
            TerminatorKind::CoroutineDrop => v.push(("k", js("corodrop"))),
            TerminatorKind::FalseEdge { real_target, .. } => { v.push(("k", js("goto"))); v.push(("t", bb(*real_target))); }
            TerminatorKind::FalseUnwind { real_target, .. } => { v.push(("k", js("goto"))); v.push(("t", bb(*real_target))); v.push(("loop", "true".into())); }
            TerminatorKind::InlineAsm { .. } => v.push(("k", js("asm"))),
        }
        v.push(("s", self.span(t.source_info.span)));
        obj(&v)
    }
    fn body(&self, d: LocalDefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = match tcx.def_kind(did) { DefKind::Closure => if tcx.is_coroutine(did) { "coroutine" } else { "closure" }, DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Ctor(..) => "ctor", DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => "const", DefKind::Static { .. } => "static", _ => "other" };
        let mut v = vec![("rec", js("fn")), ("id", js(&self.id(did))), ("name", js(&self.name(did))), ("kind", js(kind)), ("crate", js(&self.krate))];
        v.push(("parent", js(&self.id(tcx.parent(did)))));
        v.push(("root", js(&self.id(tcx.typeck_root_def_id(did)))));
        if matches!(kind, "fn" | "method") {
            v.push(("item", js(tcx.item_name(did).as_str())));
            v.push(("async", tcx.asyncness(did).is_async().to_string()));
            v.push(("vis", js(&format!("{:?}", tcx.visibility(did)))));
            v.push(("reach", tcx.effective_visibilities(()).is_reachable(d).to_string()));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            v.push(("self_ty", js(&self.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
            v.push(("impl", js(&self.id(imp))));
            if tcx.impl_opt_trait_ref(imp).is_some() { v.push(("impl_trait", js(&self.name(tcx.impl_trait_ref(imp).skip_binder().def_id)))); }
        } else if let Some(t) = tcx.trait_of_assoc(did) { v.push(("of_trait", js(&self.name(t)))); }
        v.push(("span", self.span(tcx.def_span(did))));
        v.push(("argc", b.arg_count.to_string()));
        v.push(("locals", arr(b.local_decls.iter().map(|l| {
            obj(&[("t", js(&self.ty(l.ty))), ("mut", l.mutability.is_mut().to_string())])
        }))));
        v.push(("vars", arr(b.var_debug_info.iter().filter_map(|i| match &i.value {
            VarDebugInfoContents::Place(p) => Some(obj(&[("n", js(i.name.as_str())), ("p", self.place(b, p))])),
            _ => None,
        }))));
        if matches!(kind, "closure" | "coroutine") {
            v.push(("upvars", arr(tcx.closure_captures(d).iter().map(|c| obj(&[("n", js(c.to_symbol().as_str())), ("byref", c.is_by_ref().to_string()), ("t", js(&self.ty(c.place.ty())))])))));
        }
        v.push(("blocks", arr(b.basic_blocks.iter().map(|bd| {
            let st = bd.statements.iter().filter_map(|s| {
                let sp = || self.span(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => Some(obj(&[("k", js("=")), ("p", self.place(b, &x.0)), ("r", self.rvalue(b, &x.1)), ("s", sp())])),
                    StatementKind::SetDiscriminant { place, variant_index } => Some(obj(&[("k", js("setd")), ("p", self.place(b, place)), ("vi", variant_index.as_u32().to_string()), ("s", sp())])),
                    StatementKind::StorageDead(l) => Some(obj(&[("k", js("dead")), ("l", l.as_u32().to_string())])),
                    StatementKind::StorageLive(l) => Some(obj(&[("k", js("live")), ("l", l.as_u32().to_string())])),
                    _ => None,
                }
            });
            let mut o = vec![("s", arr(st)), ("t", self.term(b, bd.terminator()))];
            if bd.is_cleanup { o.push(("cleanup", "true".into())); }
            obj(&o)
        }))));
        obj(&v)
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| unsafe {
            DEFAULT_MIR_BUILT = Some(p.queries.mir_built);
            p.queries.mir_built = my_mir_built;
        });
    }
    // When the crate has errors: the facts of the bodies that have none.
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if std::env::var_os("P4FACTS_TOLERANT").is_none() { return rustc_driver::Compilation::Continue }
        let _ = rustc_driver::catch_fatal_errors(|| tcx.analysis(()));
        for d in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { let _ = rustc_driver::catch_fatal_errors(|| { tcx.ensure_ok().mir_built(d); }); }
        }
        let _ = rustc_driver::catch_fatal_errors(|| facts(tcx));
        rustc_driver::Compilation::Stop
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        facts(tcx)
    }
}

fn facts<'tcx>(tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Some(out) = std::env::var_os("P4FACTS_OUT") else { return rustc_driver::Compilation::Continue };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut o = String::new();
        let bodies = BODIES.with(|b| std::mem::take(&mut *b.borrow_mut()));
        let mut n = 0;
        for (d, b) in &bodies {
            let b: &Body<'tcx> = unsafe { std::mem::transmute(b) };
            if b.tainted_by_errors.is_some() {
                let cx = Cx { tcx, env: TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(d.to_def_id())), krate: krate.clone() };
                o.push_str(&obj(&[("rec", js("tainted")), ("id", js(&cx.id(d.to_def_id()))), ("name", js(&cx.name(d.to_def_id()))), ("span", cx.span(tcx.def_span(d.to_def_id())))])); o.push('\n');
                continue
            }
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d.to_def_id())), krate: krate.clone() };
            o.push_str(&cx.body(*d, b)); o.push('\n'); n += 1;
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Impl { .. } | DefKind::Trait) { continue }
            let cx = Cx { tcx, env: TypingEnv::non_body_analysis(tcx, did), krate: krate.clone() };
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(did);
                    let vs = arr(def.variants().iter_enumerated().map(|(i, va)| obj(&[("name", js(va.name.as_str())), ("discr", js(&if def.is_enum() { def.discriminant_for_variant(tcx, i).val.to_string() } else { "0".into() })),
                        ("fields", arr(va.fields.iter().map(|f| obj(&[("n", js(f.name.as_str())), ("t", js(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))), ("vis", js(&format!("{:?}", f.vis)))]))))])));
                    o.push_str(&obj(&[("rec", js("adt")), ("id", js(&cx.id(did))), ("name", js(&cx.name(did))), ("crate", js(&krate)), ("enum", def.is_enum().to_string()), ("variants", vs), ("span", cx.span(tcx.def_span(did)))]));
                    o.push('\n');
                }
                DefKind::Impl { .. } => {
                    let st = cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    let items = arr(tcx.associated_items(did).in_definition_order().map(|i| obj(&[("n", js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str())), ("id", js(&cx.id(i.def_id)))])));
                    let mut v = vec![("rec", js("impl")), ("id", js(&cx.id(did))), ("crate", js(&krate)), ("self_ty", js(&st)), ("items", items)];
                    if tcx.impl_opt_trait_ref(did).is_some() {
                        let tr = tcx.impl_trait_ref(did).skip_binder();
                        v.push(("trait", js(&cx.name(tr.def_id)))); v.push(("traitref", js(&pretty(|| tr.to_string()))));
                        v.push(("derived", tcx.is_automatically_derived(did).to_string()));
                    }
                    o.push_str(&obj(&v)); o.push('\n');
                }
                DefKind::Trait => {
                    let items = arr(tcx.associated_items(did).in_definition_order().map(|i| obj(&[("n", js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str())), ("id", js(&cx.id(i.def_id))), ("default", i.defaultness(tcx).has_value().to_string())])));
                    o.push_str(&obj(&[("rec", js("trait")), ("id", js(&cx.id(did))), ("name", js(&cx.name(did))), ("crate", js(&krate)), ("items", items)])); o.push('\n');
                }
                _ => {}
            }
        }
        o.push_str(&obj(&[("rec", js("end")), ("crate", js(&krate)), ("bodies", n.to_string())])); o.push('\n');
        std::fs::write(out, o).expect("write facts");
        rustc_driver::Compilation::Continue
}

fn main() -> std::process::ExitCode {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
