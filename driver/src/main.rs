#![feature(rustc_private)]
//! Dumps the monomorphised MIR reachable from the roots of the `pa2` binary
//! (library and binary functions, plus a fixed set of std combinators) as JSON.
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, EarlyBinder, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<String>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    bodies: Vec<String>,
    promoteds: HashMap<(DefId, ty::GenericArgsRef<'tcx>, usize), usize>,
    consts: HashMap<(DefId, ty::GenericArgsRef<'tcx>), usize>,
    iters: HashMap<usize, String>,
}

fn is_local_crate(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let n = tcx.crate_name(d.krate);
    d.krate == LOCAL_CRATE || n.as_str() == "pipeawesome2"
}

const STD_PREFIX: &[&str] = &[
    "core::option", "core::result", "core::ops::function", "core::ops::control_flow", "core::ops::try_trait",
    "core::iter", "core::mem::swap", "core::mem::take", "core::mem::replace", "core::bool", "core::cmp", "core::tuple",
    "core::convert", "core::future", "core::default", "core::task::poll", "core::pin",
];

const SERDE_PREFIX: &[&str] = &["serde_json::value", "serde_json::map", "serde_json::number", "serde::private", "serde::de", "serde::ser", "serde::__private"];

impl<'tcx> Ctx<'tcx> {
    /// only (de)serialisation from and to serde_json::Value is followed
    fn serde_off(&self, inst: Instance<'tcx>) -> bool {
        if self.abs_path(inst.def_id()).starts_with("serde_json::") { return false; }
        if self.abs_path(inst.def_id()).starts_with("serde::") && inst.args.types().next().is_none() { return false; }
        let t = format!("{:?}", inst.args);
        !(t.contains("serde_json::value::") || t.contains("serde_json::Value") || t.contains("serde_json::Error") || t.contains("serde_json::error"))
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match inst.def {
            ty::InstanceKind::Item(d) => {
                if is_local_crate(tcx, d) {
                    let p = tcx.def_path(d).to_string_no_crate_verbose();
                    // serde-derive output is described by its attributes, not interpreted
                    if self.serde_off(inst) && (p.contains("::_::") || p.contains("_#") && p.contains("serde")) { return false; }
                    return tcx.is_mir_available(d);
                }
                let full = self.abs_path(d);
                if !tcx.is_mir_available(d) { return false; }
                STD_PREFIX.iter().any(|p| full.starts_with(p)) || SERDE_PREFIX.iter().any(|p| full.starts_with(p)) && !self.serde_off(inst)
            }
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        }
    }

    /// crate::module path, ignoring re-exports
    fn abs_path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(i) = self.insts.get(&inst) { return *i; }
        let id = self.inst_out.len();
        self.insts.insert(inst, id);
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = match inst.def {
            ty::InstanceKind::Item(_) => "item",
            ty::InstanceKind::Intrinsic(_) => "intrinsic",
            ty::InstanceKind::Virtual(..) => "virtual",
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
            ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
            ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop_glue",
            ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
            ty::InstanceKind::Shim(ty::ShimKind::Reify(..)) => "reify",
            _ => "other",
        };
        let want = self.want_body(inst);
        self.inst_out.push(String::new());
        let path = tcx.def_path_str(d);
        let abs = self.abs_path(d);
        let args: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let dk = format!("{:?}", tcx.def_kind(d));
        let parent = tcx.opt_parent(d).map(|p| tcx.def_path_str(p)).unwrap_or_default();
        let body = if want { self.bodies.push(String::new()); self.queue.push_back((self.bodies.len() - 1, inst)); (self.bodies.len() - 1) as i64 } else { -1 };
        let is_async = matches!(dk.as_str(), "Fn" | "AssocFn") && tcx.asyncness(d).is_async();
        let sp = self.span(tcx.def_span(d));
        self.inst_out[id] = format!(
            "{{\"path\":{},\"abs\":{},\"kind\":{},\"dk\":{},\"parent\":{},\"args\":[{}],\"body\":{},\"local\":{},\"async\":{},\"span\":{}}}",
            js(&path), js(&abs), js(kind), js(&dk), js(&parent), args.join(","), body, is_local_crate(tcx, d), is_async, sp
        );
        id
    }

    /// an iterator type handed to a function whose body is not dumped
    fn note_iter(&mut self, t: Ty<'tcx>) {
        let mut ts = vec![t];
        if let Some(i) = self.into_iter_ty(t) { if i != t { ts.push(i); let a = self.ty(t); let b = self.ty(i); self.iters.entry(a).or_insert_with(|| format!("{{\"into\":{}}}", b)); } }
        for t in ts {
            if !matches!(t.kind(), ty::Adt(..) | ty::Ref(..)) { continue; }
            let id = self.ty(t);
            if self.iters.get(&id).map(|x| x.contains("next")).unwrap_or(false) { continue; }
            if let Some(i) = self.iter_method(t, "Iterator", "next") {
                self.iters.insert(id, format!("{{\"next\":{}}}", i));
            }
        }
    }

    fn into_iter_ty(&mut self, t: Ty<'tcx>) -> Option<Ty<'tcx>> {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let d = tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator"))?;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.env);
        if !infcx.type_implements_trait(d, [t], penv).must_apply_modulo_regions() { return None; }
        let a = tcx.associated_items(d).in_definition_order().find(|i| i.name().as_str() == "IntoIter")?.def_id;
        let p = Ty::new_projection(tcx, ty::IsRigid::No, a, [t]);
        Some(tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(p)))
    }

    /// an iterator's own faster version of a provided method means what the provided method says
    fn provided(&self, d: DefId, ga: ty::GenericArgsRef<'tcx>, i: Instance<'tcx>) -> Instance<'tcx> {
        let tcx = self.tcx;
        let Some(tr) = tcx.trait_of_assoc(d) else { return i };
        let it = |n: &str| Some(tr) == tcx.get_diagnostic_item(rustc_span::Symbol::intern(n));
        if !(it("Iterator") || it("DoubleEndedIterator")) || i.def_id() == d || self.want_body(i) || is_local_crate(tcx, i.def_id()) { return i; }
        let m = tcx.item_name(d);
        if matches!(m.as_str(), "size_hint" | "next" | "next_back" | "is_sorted" | "advance_by" | "__iterator_get_unchecked") || !tcx.is_mir_available(d) { return i; }
        Instance::new_raw(d, ga)
    }

    /// the instance of `<t as Iterator>::next` (or next_back), when `t` is an iterator
    fn iter_method(&mut self, t: Ty<'tcx>, tr: &str, m: &str) -> Option<usize> {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let d = tcx.get_diagnostic_item(rustc_span::Symbol::intern(tr))?;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.env);
        if !infcx.type_implements_trait(d, [t], penv).must_apply_modulo_regions() { return None; }
        let m = tcx.associated_items(d).in_definition_order().find(|i| i.name().as_str() == m)?.def_id;
        match Instance::try_resolve(tcx, self.env, m, tcx.mk_args(&[t.into()])) { Ok(Some(i)) => Some(self.inst(i)), _ => None }
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let tcx = self.tcx;
        let s = format!("{}", t);
        let mut o = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(_) => o.push_str(",\"k\":\"int\""),
            ty::Uint(_) => o.push_str(",\"k\":\"uint\""),
            ty::Float(_) => o.push_str(",\"k\":\"float\""),
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Array(e, n) => { let i = self.ty(*e); let n = n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1); let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", i, n); }
            ty::Slice(e) => { let i = self.ty(*e); let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", i); }
            ty::Ref(_, e, m) => { let i = self.ty(*e); let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", i, m.is_mut()); }
            ty::RawPtr(e, _) => { let i = self.ty(*e); let _ = write!(o, ",\"k\":\"ptr\",\"e\":{}", i); }
            ty::Tuple(es) => { let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect(); let _ = write!(o, ",\"k\":\"tuple\",\"es\":[{}]", v.join(",")); }
            ty::FnDef(d, args) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", js(&tcx.def_path_str(*d)));
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, *d, args.no_bound_vars().unwrap()) {
                    let i = self.inst(i); let _ = write!(o, ",\"inst\":{}", i);
                }
            }
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let i = self.inst(Instance { def: ty::InstanceKind::Item(*d), args });
                let _ = write!(o, ",\"k\":\"closure\",\"inst\":{},\"ups\":[{}]", i, ups.join(","));
            }
            ty::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                let i = self.inst(Instance { def: ty::InstanceKind::Item(*d), args });
                let _ = write!(o, ",\"k\":\"coroutine\",\"inst\":{},\"ups\":[{}]", i, ups.join(","));
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::Adt(adt, args) => {
                let kind = if adt.is_enum() { "enum" } else if adt.is_union() { "union" } else { "struct" };
                let p = tcx.def_path_str(adt.did());
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"abs\":{},\"args\":[{}],\"local\":{}", kind, js(&p), js(&self.abs_path(adt.did())), targs.join(","), is_local_crate(tcx, adt.did()));
                let expand = is_local_crate(tcx, adt.did()) || { let c = tcx.crate_name(adt.did().krate); matches!(c.as_str(), "core" | "alloc" | "std" | "futures_lite" | "async_std" | "async_channel" | "futures_core" | "futures_util" | "graphviz_rust" | "dot_structures" | "dot_generator" | "peg_runtime" | "async_process" | "async_channel") };
                if expand {
                    let discrs: Vec<String> = if adt.is_enum() { adt.discriminants(tcx).map(|(_, d)| (d.val).to_string()).collect() } else { vec![] };
                    let mut vs = vec![];
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let fs: Vec<String> = v.fields.iter().map(|f| {
                            let fty = tcx.normalize_erasing_regions(self.env, f.ty(tcx, args));
                            format!("[{},{}]", js(f.name.as_str()), self.ty(fty))
                        }).collect();
                        vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(v.name.as_str()), discrs.get(vi.as_usize()).cloned().unwrap_or("0".into()), fs.join(",")));
                    }
                    let _ = write!(o, ",\"vs\":[{}]", vs.join(","));
                }
            }
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.type_out[id] = o;
        id
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                mir::ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                mir::ProjectionElem::Field(f, t) => { let t = self.ty(t); let _ = write!(o, ",[\"f\",{},{}]", f.as_usize(), t); }
                mir::ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"ci\",{},{},{}]", offset, min_length, from_end); }
                mir::ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"sub\",{},{},{}]", from, to, from_end); }
                mir::ProjectionElem::Downcast(_, v) => { let _ = write!(o, ",[\"d\",{}]", v.as_usize()); }
                _ => o.push_str(",[\"o\"]"),
            }
        }
        o.push(']');
        o
    }

    fn const_(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(..) = t.kind() { return format!("{{\"c\":\"fn\",\"t\":{}}}", tid); }
        if let mir::Const::Unevaluated(uv, _) = c.const_ {
            if let Some(p) = uv.promoted {
                let key = (uv.def, uv.args, p.as_usize());
                let b = if let Some(b) = self.promoteds.get(&key) { *b } else {
                    self.bodies.push(String::new());
                    let b = self.bodies.len() - 1;
                    self.promoteds.insert(key, b);
                    let body = tcx.promoted_mir(uv.def)[p].clone();
                    let inst = Instance { def: ty::InstanceKind::Item(uv.def), args: uv.args };
                    let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
                    let s = self.body(&body, None);
                    self.bodies[b] = s;
                    b
                };
                return format!("{{\"c\":\"body\",\"t\":{},\"b\":{}}}", tid, b);
            }
        }
        match c.const_.eval(tcx, self.env, c.span) {
            Ok(ConstValue::Scalar(mir::interpret::Scalar::Int(i))) => {
                let sz = i.size();
                let v: i128 = if t.is_signed() { i.to_int(sz) } else { i.to_uint(sz) as i128 };
                format!("{{\"c\":\"int\",\"t\":{},\"v\":{}}}", tid, v)
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"c\":\"zst\",\"t\":{}}}", tid),
            Ok(cv @ ConstValue::Slice { .. }) => {
                if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                    match std::str::from_utf8(b) {
                        Ok(s) => format!("{{\"c\":\"str\",\"t\":{},\"v\":{}}}", tid, js(s)),
                        Err(_) => format!("{{\"c\":\"bytes\",\"t\":{},\"v\":{}}}", tid, js(&format!("{:?}", b))),
                    }
                } else { format!("{{\"c\":\"opaque\",\"t\":{}}}", tid) }
            }
            _ => {
                if let mir::Const::Unevaluated(uv, _) = c.const_ {
                    if tcx.is_mir_available(uv.def) || matches!(tcx.def_kind(uv.def), DefKind::Const { .. } | DefKind::AssocConst { .. } ) && is_local_crate(tcx, uv.def) {
                        let key = (uv.def, uv.args);
                        let b = if let Some(b) = self.consts.get(&key) { *b } else {
                            self.bodies.push(String::new());
                            let b = self.bodies.len() - 1;
                            self.consts.insert(key, b);
                            let body = tcx.mir_for_ctfe(uv.def).clone();
                            let inst = Instance { def: ty::InstanceKind::Item(uv.def), args: uv.args };
                            let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body));
                            let s = self.body(&body, None);
                            self.bodies[b] = s;
                            b
                        };
                        return format!("{{\"c\":\"body\",\"t\":{},\"b\":{}}}", tid, b);
                    }
                }
                // fmt pieces, statics, other pointers
                let s = format!("{}", c.const_);
                let mut bytes = String::new();
                if let Ok(ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) = c.const_.eval(tcx, self.env, c.span) {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                        let a = a.inner();
                        let n = a.len();
                        if off.bytes() == 0 && n <= 65536 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                            let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                            bytes = format!(",\"bytes\":[{}],\"relocs\":{}", v.join(","), a.provenance().ptrs().len());
                        }
                    }
                }
                format!("{{\"c\":\"opaque\",\"t\":{},\"s\":{}{}}}", tid, js(&s), bytes)
            }
        }
    }

    fn op(&mut self, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => format!("{{\"o\":\"const\",\"v\":{}}}", self.const_(c)),
            #[allow(unreachable_patterns)]
            _ => "{\"o\":\"rt\"}".to_string(),
        }
    }

    fn rv(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1); format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.op(o), n) }
            Ref(_, k, p) => format!("{{\"r\":\"ref\",\"p\":{},\"mut\":{}}}", self.place(p), matches!(k, mir::BorrowKind::Mut { .. })),
            RawPtr(_, p) => format!("{{\"r\":\"ref\",\"p\":{},\"mut\":true,\"raw\":true}}", self.place(p)),
            Cast(k, o, t) => { let st = o.ty(body, self.tcx); let st = self.ty(st); let t = self.ty(*t); format!("{{\"r\":\"cast\",\"k\":{},\"a\":{},\"t\":{},\"st\":{}}}", js(&format!("{:?}", k)), self.op(o), t, st) }
            BinaryOp(b, ops) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}", js(&format!("{:?}", b)), self.op(&ops.0), self.op(&ops.1)),
            UnaryOp(b, o) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", js(&format!("{:?}", b)), self.op(o)),
            Discriminant(p) => { let t = p.ty(body, self.tcx).ty; let t = self.ty(t); format!("{{\"r\":\"discr\",\"p\":{},\"t\":{}}}", self.place(p), t) }
            Aggregate(k, ops) => {
                let a: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let t = r.ty(body, self.tcx); let t = self.ty(t);
                let (kk, v, fld) = match &**k {
                    mir::AggregateKind::Array(_) => ("array", 0, -1),
                    mir::AggregateKind::Tuple => ("tuple", 0, -1),
                    mir::AggregateKind::Adt(_, v, _, _, f) => ("adt", v.as_usize(), f.map(|f| f.as_usize() as i64).unwrap_or(-1)),
                    mir::AggregateKind::Closure(..) => ("closure", 0, -1),
                    mir::AggregateKind::Coroutine(..) => ("coroutine", 0, -1),
                    mir::AggregateKind::RawPtr(..) => ("rawptr", 0, -1),
                    _ => ("other", 0, -1),
                };
                format!("{{\"r\":\"agg\",\"k\":\"{}\",\"v\":{},\"uf\":{},\"t\":{},\"ops\":[{}]}}", kk, v, fld, t, a.join(","))
            }
            CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(p)),
            other => { let t = other.ty(body, self.tcx); let t = self.ty(t); format!("{{\"r\":\"other\",\"s\":{},\"t\":{}}}", js(&format!("{:?}", other)), t) }
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, inst: Option<Instance<'tcx>>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        if let Some(i) = inst { let i = self.inst(i); let _ = write!(o, "\"inst\":{},", i); }
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let names: Vec<String> = body.var_debug_info.iter().filter_map(|v| if let mir::VarDebugInfoContents::Place(p) = &v.value { Some(format!("[{},{}]", js(v.name.as_str()), self.place(p))) } else { None }).collect();
        let _ = write!(o, "\"args\":{},\"spread\":{},\"locals\":[{}],\"names\":[{}],\"span\":{},\"bbs\":[", body.arg_count, body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1), locals.join(","), names.join(","), self.span(body.span));
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 { o.push(','); }
            if bb.is_cleanup { o.push_str("null"); continue; }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    mir::StatementKind::Assign(b) => { let (p, r) = &**b; format!("[\"=\",{},{},{}]", self.place(p), self.rv(r, body), self.span(st.source_info.span)) }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()),
                    mir::StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    mir::StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
                    mir::StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{:?}", i))),
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&x);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let x = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"b\":{}}}", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(body, tcx); 
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let dt = self.ty(dty);
                    format!("{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"vs\":[{}],\"o\":{},\"sp\":{}}}", self.op(discr), dt, v.join(","), targets.otherwise().as_usize(), sp)
                }
                mir::TerminatorKind::Return => "{\"t\":\"ret\"}".into(),
                mir::TerminatorKind::Unreachable => "{\"t\":\"unr\"}".into(),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => "{\"t\":\"unr\"}".into(),
                mir::TerminatorKind::Drop { place, target, .. } => { let pt = place.ty(body, tcx).ty; let pt = self.ty(pt); format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"b\":{},\"sp\":{}}}", self.place(place), pt, target.as_usize(), sp) }
                mir::TerminatorKind::Assert { cond, expected, target, msg, .. } => { let m = format!("{:?}", msg); let m = m.split('(').next().unwrap_or("").to_string(); format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"b\":{},\"m\":{},\"sp\":{}}}", self.op(cond), expected, target.as_usize(), js(&m), sp) }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body, tcx);
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(body, tcx); self.ty(t).to_string() }).collect();
                    let rt = destination.ty(body, tcx).ty; let rt = self.ty(rt);
                    let mut callee = String::new();
                    if let ty::FnDef(d, ga) = fty.kind() {
                        let ga = ga.no_bound_vars().unwrap();
                        let decl = js(&tcx.def_path_str(*d));
                        let targs: Vec<String> = ga.types().map(|t| self.ty(t).to_string()).collect();
                        let i = match Instance::try_resolve(tcx, self.env, *d, ga) {
                            Ok(Some(i)) => {
                                let i = self.provided(*d, ga, i);
                                if !self.want_body(i) { for t in i.args.types() { self.note_iter(t); } }
                                else if tcx.trait_of_assoc(*d).is_some_and(|x| Some(x) == tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"))) { if let Some(t) = i.args.types().next() { self.note_iter(t); } }
                                self.inst(i) as i64
                            }
                            _ => -1,
                        };
                        let _ = write!(callee, ",\"decl\":{},\"inst\":{},\"ta\":[{}]", decl, i, targs.join(","));
                    }
                    format!("{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"d\":{},\"rt\":{},\"b\":{},\"sp\":{}{}}}", self.op(func), a.join(","), at.join(","), self.place(destination), rt, target.map(|b| b.as_usize() as i64).unwrap_or(-1), sp, callee)
                }
                other => format!("{{\"t\":\"other\",\"s\":{}}}", js(&format!("{:?}", other).chars().take(80).collect::<String>())),
            };
            o.push_str(&x);
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

fn find(tcx: TyCtxt<'_>, krate: &str, path: &[&str]) -> Option<DefId> {
    for k in tcx.crates(()) {
        if tcx.crate_name(*k).as_str() != krate { continue; }
        let mut m = k.as_def_id();
        let mut ok = true;
        for s in path {
            match tcx.module_children(m).iter().find(|c| c.ident.name.as_str() == *s && c.res.opt_def_id().is_some() && !matches!(c.res.opt_def_id().map(|d| tcx.def_kind(d)), Some(DefKind::Macro(_)))) {
                Some(c) => m = c.res.opt_def_id().unwrap(),
                None => { ok = false; break; }
            }
        }
        if ok { return Some(m); }
    }
    None
}

fn serde_roots<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<(Instance<'tcx>, &'static str)> {
    let mut out = vec![];
    let env = TypingEnv::fully_monomorphized();
    let f = |k, p: &[&str]| { let d = find(tcx, k, p); if d.is_none() { eprintln!("pa: no {} {:?}", k, p); } d };
    let (Some(se), Some(de), Some(ser), Some(val), Some(cfg)) = (f("serde", &["Serialize"]), f("serde", &["Deserialize"]), f("serde_json", &["value", "Serializer"]), f("serde_json", &["Value"]), f("pipeawesome2", &["config", "Config"])) else { return out };
    let t = |d: DefId| Ty::new_adt(tcx, tcx.adt_def(d), tcx.mk_args(&[]));
    let (ser, val, cfg) = (t(ser), t(val), t(cfg));
    let method = |tr: DefId, n: &str| tcx.associated_item_def_ids(tr).iter().copied().find(|d| tcx.item_name(*d).as_str() == n);
    if let Some(m) = method(se, "serialize") {
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, m, tcx.mk_args(&[cfg.into(), ser.into()])) { out.push((i, "serialize")); }
    }
    if let Some(m) = method(de, "deserialize") {
        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, m, tcx.mk_args(&[cfg.into(), tcx.lifetimes.re_erased.into(), val.into()])) { out.push((i, "deserialize")); }
    }
    out
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Ctx { tcx, env: TypingEnv::fully_monomorphized(), types: HashMap::new(), type_out: vec![], insts: HashMap::new(), inst_out: vec![], queue: VecDeque::new(), bodies: vec![], promoteds: HashMap::new(), consts: HashMap::new(), iters: HashMap::new() };
    let mut roots: Vec<DefId> = vec![];
    for d in tcx.hir_body_owners() { roots.push(d.to_def_id()); }
    // every function of the library crate
    for k in tcx.crates(()) {
        if tcx.crate_name(*k).as_str() == "pipeawesome2" {
            let mut stack = vec![k.as_def_id()];
            while let Some(m) = stack.pop() {
                for c in tcx.module_children(m) {
                    if let Some(d) = c.res.opt_def_id() {
                        if d.krate != *k { continue; }
                        match tcx.def_kind(d) {
                            DefKind::Mod => stack.push(d),
                            DefKind::Fn => roots.push(d),
                            DefKind::Struct | DefKind::Enum => { for i in tcx.inherent_impls(d) { for x in tcx.associated_item_def_ids(*i) { roots.push(*x); } } }
                            _ => {}
                        }
                    }
                }
            }
            for &i in tcx.trait_impls_in_crate(*k) { for x in tcx.associated_item_def_ids(i) { roots.push(*x); } }
        }
    }
    let mut root_ids = vec![];
    for d in roots {
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        if !tcx.is_mir_available(d) { continue; }
        let i = cx.inst(Instance::mono(tcx, d));
        root_ids.push(i.to_string());
    }
    for (i, what) in serde_roots(tcx) { let _ = what; let i = cx.inst(i); root_ids.push(i.to_string()); }
    while let Some((b, inst)) = cx.queue.pop_front() {
        let body = tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, cx.env, EarlyBinder::bind(tcx, body));
        let s = cx.body(&body, Some(inst));
        cx.bodies[b] = s;
    }
    let mut o = String::new();
    let _ = write!(o, "{{\"roots\":[{}],\n\"iters\":{{{}}},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n],\n\"bodies\":[\n{}\n]}}\n", root_ids.join(","), cx.iters.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), cx.type_out.join(",\n"), cx.inst_out.join(",\n"), cx.bodies.join(",\n"));
    std::fs::write(format!("{}.tmp", out), o).expect("write dump");
    std::fs::rename(format!("{}.tmp", out), out).expect("rename dump");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.always_encode_mir = true;
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(out) = std::env::var("PA_DUMP") {
            if tcx.crate_name(LOCAL_CRATE).as_str() == "pa2" {
                rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, &out));
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    // invoked by cargo as: driver rustc <args>
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 { args.remove(1); }
    rustc_driver::install_ice_hook("https://example.invalid", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
