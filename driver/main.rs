//! MIR fact extractor: a rustc wrapper that dumps, for the Stuart workspace crates, everything the
//! Python engine needs (bodies, types, constants, resolved callees, ADTs, impls, statics) as JSON.
//! Compiled with plain `rustc +nightly` (no cargo), so it needs nothing but the toolchain.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON writer
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::I(x.try_into().ok().unwrap()) }
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { write!(o, "{}", i).unwrap(); }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- extraction
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    bodies: Vec<J>,
    done: HashMap<DefId, ()>,
    queue: VecDeque<DefId>,
    adts: BTreeMap<String, J>,
    adt_seen: HashMap<DefId, ()>,
}

/// External bodies worth having: the small std combinators that decide control flow of fallible values.
fn ext_wanted(p: &str) -> bool {
    ["core::option::", "core::result::", "core::ops::control_flow::", "core::bool::"].iter().any(|x| p.starts_with(x))
        || p.contains("core::option::Option<") && p.contains(" as core::ops::try_trait::")
        || p.contains("<core::result::Result as core::ops::try_trait::")
        || p.contains("<core::option::Option as core::ops::try_trait::")
        || p.contains("<core::ops::control_flow::ControlFlow as core::ops::try_trait::")
}

impl<'tcx> Cx<'tcx> {
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }

    /// Link id: unique within one extraction.
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.krate(d), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    /// Stable, readable path: definition path, with impls rendered by self type and trait.
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure => {
                let p = tcx.parent(d);
                let key = tcx.def_key(d);
                format!("{}::{{closure#{}}}", self.path(p), key.disambiguated_data.disambiguator)
            }
            DefKind::Impl { of_trait } => {
                let st = self.ty_path(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let mut t = self.path(tr.def_id);
                    let extra: Vec<String> = tr.args.iter().skip(1).filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.ty_path(t)), _ => None }).collect();
                    if !extra.is_empty() { write!(t, "<{}>", extra.join(",")).unwrap(); }
                    format!("<{} as {}>", st, t)
                } else { st }
            }
            DefKind::Mod if d.is_crate_root() => self.krate(d),
            _ => match tcx.opt_parent(d) {
                Some(p) => {
                    let nm = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_else(|| tcx.def_key(d).disambiguated_data.as_sym(true).to_string());
                    if matches!(tcx.def_kind(p), DefKind::ForeignMod) { return format!("extern::{}", nm); }
                    format!("{}::{}", self.path(p), nm)
                }
                None => self.krate(d),
            },
        }
    }

    fn ty_path(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => {
                let p = self.path(a.did());
                let v: Vec<String> = args.iter().filter_map(|x| match x.kind() { GenericArgKind::Type(t) => Some(self.ty_path(t)), _ => None }).collect();
                let _ = v;
                p
            }
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_path(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_path(*t)),
            ty::Array(t, _) => format!("[{};_]", self.ty_path(*t)),
            ty::Dynamic(p, ..) => format!("dyn {}", p.principal_def_id().map(|d| self.path(d)).unwrap_or_default()),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty_path(t)).collect::<Vec<_>>().join(",")),
            ty::Param(p) => p.name.to_string(),
            _ => with_no_trimmed_paths!(t.to_string()),
        }
    }

    fn note_adt(&mut self, a: ty::AdtDef<'tcx>) {
        if self.adt_seen.insert(a.did(), ()).is_some() { return; }
        let tcx = self.tcx;
        let local = a.did().is_local();
        let krate = self.krate(a.did());
        let full = local || krate.starts_with("stuart") || krate == "humphrey_json" || a.is_enum();
        let mut vars = Vec::new();
        if full {
            for (i, v) in a.variants().iter_enumerated() {
                let mut fs = Vec::new();
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let tj = if local { let k = self.ty(t); n(k as i64) } else { J::Null };
                    fs.push(J::O(vec![("name", s(f.name.to_string())), ("ty", tj), ("tys", s(self.ty_path(t)))]));
                }
                let disc = if a.is_enum() { a.discriminant_for_variant(tcx, i).val as i128 } else { 0 };
                vars.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(disc)), ("fields", J::A(fs))]));
            }
        }
        let p = self.path(a.did());
        let sp = self.span(tcx.def_span(a.did()));
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let has_drop = a.destructor(tcx).is_some();
        self.adts.insert(p, J::O(vec![("kind", s(kind)), ("variants", J::A(vars)), ("span", sp), ("local", J::B(local)), ("has_drop", J::B(has_drop))]));
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ix.get(&t) { return i; }
        let ix = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, ix);
        let mut o: Vec<(&'static str, J)> = Vec::new();
        match t.kind() {
            ty::Adt(a, args) => {
                self.note_adt(*a);
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(a.did()))));
                o.push(("args", self.targs(args)));
            }
            ty::Ref(_, u, m) => { let u = self.ty(*u); o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); o.push(("t", n(u as i64))); }
            ty::RawPtr(u, m) => { let u = self.ty(*u); o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); o.push(("t", n(u as i64))); }
            ty::Slice(u) => { let u = self.ty(*u); o.push(("k", s("slice"))); o.push(("t", n(u as i64))); }
            ty::Array(u, l) => { let u = self.ty(*u); o.push(("k", s("array"))); o.push(("t", n(u as i64)));
                if let Some(l) = l.try_to_target_usize(self.tcx) { o.push(("len", n(l as i64))); } }
            ty::Tuple(ts) => { let v = ts.iter().map(|t| { let k = self.ty(t); n(k as i64) }).collect(); o.push(("k", s("tuple"))); o.push(("args", J::A(v))); }
            ty::Closure(d, args) => { o.push(("k", s("closure"))); o.push(("def", s(self.id(*d)))); o.push(("path", s(self.path(*d)))); let _ = args;
                self.enqueue(*d); }
            ty::FnDef(d, args) => { let args = args.no_bound_vars().unwrap_or(ty::List::empty()); o.push(("k", s("fndef"))); o.push(("callee", self.callee(*d, args, None))); }
            ty::Dynamic(ps, ..) => {
                o.push(("k", s("dyn")));
                o.push(("path", s(ps.principal_def_id().map(|d| self.path(d)).unwrap_or_default())));
                let v = ps.auto_traits().map(|d| s(self.path(d))).collect();
                o.push(("auto", J::A(v)));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Str | ty::Float(_) | ty::Never => { o.push(("k", s("prim"))); }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(with_no_trimmed_paths!(t.to_string()))));
        self.types[ix] = J::O(o);
        ix
    }

    fn targs(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let v = args.iter().filter_map(|a| match a.kind() {
            GenericArgKind::Type(t) => { let k = self.ty(t); Some(n(k as i64)) }
            _ => None,
        }).collect();
        J::A(v)
    }

    fn enqueue(&mut self, d: DefId) {
        if self.done.contains_key(&d) { return; }
        if !d.is_local() { return; }
        self.done.insert(d, ());
        self.queue.push_back(d);
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let cs = sp.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let file = lo.file.name.prefer_local_unconditionally().to_string();
        let mut macros = Vec::new();
        for b in sp.macro_backtrace() { macros.push(s(b.kind.descr().to_string())); }
        J::A(vec![s(file), n(lo.line as i64), J::A(macros)])
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", s(self.path(d))), ("id", s(self.id(d))), ("krate", s(self.krate(d)))];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        o.push(("targs", self.targs(args)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            if sig.safety().is_unsafe() { o.push(("unsafe", J::B(true))); }
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) { o.push(("ctor", J::B(true))); o.push(("ctor_of", s(self.path(tcx.parent(d))))); }
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                    match inst.def {
                        InstanceKind::Item(r) => {
                            o.push(("res", s(self.path(r)))); o.push(("resid", s(self.id(r))));
                            o.push(("rtargs", self.targs(inst.args)));
                            self.maybe_ext(r);
                        }
                        InstanceKind::Virtual(r, _) => { o.push(("virtual", s(self.path(r)))); }
                        InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => { o.push(("res", s(self.path(closure)))); o.push(("resid", s(self.id(closure)))); }
                        _ => { o.push(("shim", s(format!("{:?}", inst.def)))); }
                    }
                }
            }
        }
        J::O(o)
    }

    fn maybe_ext(&mut self, d: DefId) {
        if d.is_local() || self.done.contains_key(&d) { return; }
        let p = self.path(d);
        if !ext_wanted(&p) { return; }
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { return; }
        if !self.tcx.is_mir_available(d) { return; }
        self.done.insert(d, ());
        self.queue.push_back(d);
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let mut proj = Vec::new();
        let tcx = self.tcx;
        for (base, e) in p.as_ref().iter_projections() {
            use mir::ProjectionElem::*;
            proj.push(match e {
                Deref => s("*"),
                Field(f, _) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let name = match bt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() && bt.variant_index.is_none() { f.index().to_string() } else { a.variant(v).fields[f].name.to_string() }
                        }
                        _ => f.index().to_string(),
                    };
                    J::A(vec![s("f"), n(f.index() as i64), s(name)])
                }
                Index(l) => J::A(vec![s("i"), n(l.index() as i64)]),
                ConstantIndex { offset, from_end, min_length } => J::A(vec![s("ci"), n(offset as i64), J::B(from_end), n(min_length as i64)]),
                Subslice { from, to, from_end } => J::A(vec![s("ss"), n(from as i64), n(to as i64), J::B(from_end)]),
                Downcast(nm, v) => {
                    let bt = base.ty(&body.local_decls, tcx);
                    let nm = nm.map(|x| x.to_string()).or_else(|| match bt.ty.kind() { ty::Adt(a, _) => Some(a.variant(v).name.to_string()), _ => None });
                    J::A(vec![s("v"), n(v.index() as i64), nm.map(s).unwrap_or(J::Null)])
                }
                _ => s("?"),
            });
        }
        J::A(vec![n(p.local.index() as i64), J::A(proj)])
    }

    fn alloc_const(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 4 { return None; }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = c.try_to_scalar_int()?;
                let sz = sc.size();
                let v: i128 = if matches!(t.kind(), ty::Int(_)) { sc.to_int(sz) } else { sc.to_uint(sz) as i128 };
                return Some(J::O(vec![(match t.kind() { ty::Bool => "bool", ty::Char => "char", _ => "int" }, if t.is_bool() { J::B(v != 0) } else { J::I(v) })]));
            }
            ty::Float(_) => {
                let sc = c.try_to_scalar_int()?;
                let b = sc.to_uint(sc.size());
                let f = if sc.size().bytes() == 8 { f64::from_bits(b as u64) } else { f32::from_bits(b as u32) as f64 };
                return Some(J::O(vec![("float", s(format!("{:?}", f)))]));
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                        return Some(match std::str::from_utf8(b) {
                            Ok(x) if inner.is_str() => J::O(vec![("str", s(x))]),
                            _ => J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as i64)).collect()))]),
                        });
                    }
                    return None;
                }
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = c {
                    let aid = p.provenance.alloc_id();
                    match tcx.global_alloc(aid) {
                        GlobalAlloc::Static(d) => return Some(J::O(vec![("static", s(self.path(d))), ("id", s(self.id(d)))])),
                        GlobalAlloc::Memory(m) => {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    let a = m.inner();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                    return Some(J::O(vec![("bytes", J::A(b.iter().map(|x| n(*x as i64)).collect()))]));
                                }
                            }
                        }
                        GlobalAlloc::Function { instance } => return Some(J::O(vec![("fnptr", s(self.path(instance.def_id())))])),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        None
    }

    fn konst(&mut self, owner: DefId, env: TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tix = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("k", s("const")), ("ty", n(tix as i64))];
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or(ty::List::empty());
            let cal = self.callee(*d, args, Some(env));
            o.push(("fn", cal));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.index() as i64)));
                o.push(("of", s(self.id(u.def))));
                let _ = owner;
                return J::O(o);
            }
            o.push(("item", s(self.path(u.def))));
            o.push(("itemid", s(self.id(u.def))));
        }
        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
            if let Some(J::O(x)) = self.alloc_const(v, t, 0) { o.extend(x); }
            else if matches!(v, ConstValue::ZeroSized) { o.push(("zst", J::B(true))); }
            else if let ty::Adt(a, _) = t.kind() {
                // small C-like enum constants
                if a.is_enum() {
                    if let Some(sc) = v.try_to_scalar_int() {
                        let b = sc.to_uint(sc.size());
                        for (i, d) in a.discriminants(tcx) { if d.val == b { o.push(("variant", s(a.variant(i).name.to_string()))); } }
                    }
                }
            }
        }
        o.push(("s", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }

    fn operand(&mut self, owner: DefId, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>, op: &mir::Operand<'tcx>) -> J {
        match op {
            mir::Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            mir::Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            mir::Operand::Constant(c) => self.konst(owner, env, c),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("k", s("rtcheck"))]),
        }
    }

    fn rvalue(&mut self, owner: DefId, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        let tcx = self.tcx;
        macro_rules! op { ($x:expr) => { self.operand(owner, env, body, $x) } }
        match r {
            Use(o, ..) => J::O(vec![("k", s("use")), ("o", op!(o))]),
            Repeat(o, c) => { let l = c.try_to_target_usize(tcx).unwrap_or(0); J::O(vec![("k", s("repeat")), ("o", op!(o)), ("n", n(l as i64))]) }
            Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("mut", J::B(matches!(bk, mir::BorrowKind::Mut { .. }))), ("p", self.place(body, p))]),
            Reborrow(_, m, p) => J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("p", self.place(body, p))]),
            RawPtr(_, p) => J::O(vec![("k", s("ref")), ("mut", J::B(true)), ("raw", J::B(true)), ("p", self.place(body, p))]),
            ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("static", s(self.path(*d)))]),
            Cast(ck, o, t) => {
                let ft = o.ty(&body.local_decls, tcx);
                let f = self.ty(ft); let tt = self.ty(*t);
                J::O(vec![("k", s("cast")), ("ck", s(format!("{:?}", ck))), ("o", op!(o)), ("from", n(f as i64)), ("to", n(tt as i64))])
            }
            BinaryOp(b, ops) => { let (x, y) = (&ops.0, &ops.1);
                let xt = x.ty(&body.local_decls, tcx); let xt = self.ty(xt);
                J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", b))), ("a", op!(x)), ("b", op!(y)), ("oty", n(xt as i64))]) }
            UnaryOp(u, o) => J::O(vec![("k", s("un")), ("op", s(format!("{:?}", u))), ("o", op!(o))]),
            Discriminant(p) => {
                let pt = p.ty(&body.local_decls, tcx).ty; let pt = self.ty(pt);
                J::O(vec![("k", s("discr")), ("p", self.place(body, p)), ("ty", n(pt as i64))]) }
            Aggregate(ak, ops) => {
                let mut o = vec![("k", s("agg"))];
                match &**ak {
                    mir::AggregateKind::Array(_) => o.push(("a", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    mir::AggregateKind::Adt(d, v, _, _, active) => {
                        let a = tcx.adt_def(*d);
                        self.note_adt(a);
                        o.push(("a", s("adt")));
                        o.push(("path", s(self.path(*d))));
                        o.push(("variant", s(a.variant(*v).name.to_string())));
                        o.push(("vix", n(v.index() as i64)));
                        o.push(("fields", J::A(a.variant(*v).fields.iter().map(|f| s(f.name.to_string())).collect())));
                        if active.is_some() { o.push(("union", J::B(true))); }
                    }
                    mir::AggregateKind::Closure(d, _) => { o.push(("a", s("closure"))); o.push(("def", s(self.id(*d)))); o.push(("path", s(self.path(*d)))); self.enqueue(*d); }
                    _ => o.push(("a", s("other"))),
                }
                let v = ops.iter().map(|x| op!(x)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            CopyForDeref(p) => { let pj = self.place(body, p); J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", pj)]))]) }
            WrapUnsafeBinder(o, _) => J::O(vec![("k", s("use")), ("o", op!(o))]),
        }
    }

    fn body(&mut self, owner: DefId, env: TypingEnv<'tcx>, body: &mir::Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upvars: Vec<J> = Vec::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() { names.entry(l.index()).or_insert(v.name.to_string()); }
                else if p.local.index() == 1 { let pj = self.place(body, p); upvars.push(J::A(vec![s(v.name.to_string()), pj])); }
            }
        }
        let locals = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            let mut o = vec![("ty", n(t as i64))];
            if let Some(x) = names.get(&l.index()) { o.push(("name", s(x.clone()))); }
            if matches!(d.local_info, mir::ClearCrossCrate::Set(_)) && d.is_user_variable() { o.push(("user", J::B(true))); }
            J::O(o)
        }).collect();
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &b.statements {
                match &x.kind {
                    mir::StatementKind::Assign(a) => {
                        let r = self.rvalue(owner, env, body, &a.1);
                        st.push(J::O(vec![("k", s("assign")), ("p", self.place(body, &a.0)), ("r", r), ("sp", self.span(x.source_info.span))]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::O(vec![("k", s("setdiscr")), ("p", self.place(body, place)), ("v", n(variant_index.index() as i64))]));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(J::O(vec![("k", s("dead")), ("l", n(l.index() as i64))])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            use mir::TerminatorKind::*;
            let bbn = |x: mir::BasicBlock| n(x.index() as i64);
            let unw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => n(b.index() as i64), _ => J::Null };
            let mut o: Vec<(&'static str, J)> = match &t.kind {
                Goto { target, .. } => vec![("k", s("goto")), ("t", bbn(*target))],
                FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", bbn(*real_target))],
                FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", bbn(*real_target))],
                SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx); let dt = self.ty(dt);
                    let v = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbn(b)])).collect();
                    vec![("k", s("switch")), ("d", self.operand(owner, env, body, discr)), ("dty", n(dt as i64)), ("targets", J::A(v)), ("otherwise", bbn(targets.otherwise()))]
                }
                Return => vec![("k", s("return"))],
                Unreachable => vec![("k", s("unreachable"))],
                UnwindResume | UnwindTerminate(_) | CoroutineDrop => vec![("k", s("resume"))],
                Drop { place, target, unwind, .. } => { let dt = place.ty(&body.local_decls, self.tcx).ty; let dt = self.ty(dt);
                    vec![("k", s("drop")), ("p", self.place(body, place)), ("t", bbn(*target)), ("u", unw(unwind)), ("ty", n(dt as i64))] }
                Call { func, args, destination, target, unwind, .. } => {
                    let a = args.iter().map(|x| self.operand(owner, env, body, &x.node)).collect();
                    let f = self.operand(owner, env, body, func);
                    vec![("k", s("call")), ("f", f), ("args", J::A(a)), ("dest", self.place(body, destination)),
                         ("t", target.map(bbn).unwrap_or(J::Null)), ("u", unw(unwind))]
                }
                TailCall { func, args, .. } => { let a = args.iter().map(|x| self.operand(owner, env, body, &x.node)).collect();
                    vec![("k", s("tailcall")), ("f", self.operand(owner, env, body, func)), ("args", J::A(a))] }
                Assert { cond, expected, msg, target, unwind } => {
                    use mir::AssertKind as K;
                    let (kind, ops): (&str, Vec<&mir::Operand<'tcx>>) = match &**msg {
                        K::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        K::Overflow(b, x, y) => (match b { mir::BinOp::Sub => "overflow-sub", mir::BinOp::Add => "overflow-add", mir::BinOp::Mul => "overflow-mul", _ => "overflow-other" }, vec![x, y]),
                        K::OverflowNeg(x) => ("overflow-neg", vec![x]),
                        K::DivisionByZero(x) => ("div-zero", vec![x]),
                        K::RemainderByZero(x) => ("rem-zero", vec![x]),
                        _ => ("other", vec![]),
                    };
                    let oty = ops.first().map(|x| x.ty(&body.local_decls, self.tcx)); let oty = oty.map(|x| { let k = self.ty(x); n(k as i64) }).unwrap_or(J::Null);
                    let ops = ops.into_iter().map(|x| self.operand(owner, env, body, x)).collect();
                    vec![("k", s("assert")), ("c", self.operand(owner, env, body, cond)), ("exp", J::B(*expected)), ("msg", s(kind)), ("ops", J::A(ops)), ("oty", oty), ("t", bbn(*target)), ("u", unw(unwind))]
                }
                InlineAsm { targets, .. } => vec![("k", s("asm")), ("ts", J::A(targets.iter().map(|x| bbn(*x)).collect()))],
                Yield { resume, .. } => vec![("k", s("goto")), ("t", bbn(*resume))],
            };
            o.push(("sp", sp));
            let mut bo = vec![("st", J::A(st)), ("t", J::O(o))];
            if b.is_cleanup { bo.push(("cleanup", J::B(true))); }
            blocks.push(J::O(bo));
        }
        vec![("argc", n(body.arg_count as i64)), ("locals", J::A(locals)), ("upvars", J::A(upvars)), ("blocks", J::A(blocks))]
    }

    fn dump(&mut self, d: DefId) {
        let tcx = self.tcx;
        let kind = tcx.def_kind(d);
        let (k, isfn) = match kind {
            DefKind::Fn | DefKind::AssocFn => ("fn", true),
            DefKind::Closure => ("closure", true),
            DefKind::Static { .. } => ("static", false),
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => ("const", false),
            DefKind::Ctor(..) => return,
            _ => return,
        };
        let env = TypingEnv::post_analysis(tcx, d);
        let body: &mir::Body<'tcx> = if isfn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
        let mut o: Vec<(&'static str, J)> = vec![
            ("id", s(self.id(d))), ("path", s(self.path(d))), ("kind", s(k)), ("krate", s(self.krate(d))), ("span", self.span(tcx.def_span(d))),
        ];
        let root = tcx.typeck_root_def_id(d);
        if root != d { o.push(("root", s(self.path(root)))); o.push(("parent", s(self.id(tcx.parent(d))))); }
        if matches!(kind, DefKind::AssocFn) {
            let p = tcx.parent(d);
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let six = self.ty(st);
                    o.push(("self_ty", n(six as i64)));
                    o.push(("self_path", s(self.ty_path(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(self.path(tr.def_id))));
                        if let Some(ti) = tcx.trait_item_of(d) { o.push(("trait_item", s(self.path(ti)))); }
                    }
                }
                DefKind::Trait => o.push(("default_of", s(self.path(p)))),
                _ => {}
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("name", s(tcx.item_name(d).to_string())));
            o.push(("pub", J::B(tcx.visibility(d).is_public())));
        }
        if let DefKind::Static { mutability, .. } = kind {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tix = self.ty(t);
            o.push(("sty", n(tix as i64)));
            o.push(("smut", J::B(mutability.is_mut())));
            o.push(("freeze", J::B(t.is_freeze(tcx, env))));
        }
        o.extend(self.body(d, env, body));
        let mut pr = Vec::new();
        if d.is_local() || isfn {
            let promoted = tcx.promoted_mir(d);
            for p in promoted.iter() { let b = self.body(d, env, p); pr.push(J::O(b)); }
        }
        o.push(("promoted", J::A(pr)));
        self.bodies.push(J::O(o));
    }
}

fn extract(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], type_ix: HashMap::new(), bodies: vec![], done: HashMap::new(), queue: VecDeque::new(), adts: BTreeMap::new(), adt_seen: HashMap::new() };
    for &l in tcx.mir_keys(()).iter() { cx.enqueue(l.to_def_id()); }
    while let Some(d) = cx.queue.pop_front() { cx.dump(d); }
    // impls
    let mut impls = Vec::new();
    for (tr, v) in tcx.all_local_trait_impls(()).iter() {
        for i in v {
            let d = i.to_def_id();
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let mut items = Vec::new();
            for it in tcx.associated_item_def_ids(d) {
                if let Some(ti) = tcx.trait_item_of(*it) { items.push(J::A(vec![s(cx.path(ti)), s(cx.id(*it)), s(cx.path(*it))])); }
            }
            let six = cx.ty(st);
            let o = J::O(vec![("trait", s(cx.path(*tr))), ("self", s(cx.ty_path(st))), ("self_ty", n(six as i64)), ("items", J::A(items)), ("span", cx.span(tcx.def_span(d)))]);
            impls.push(o);
        }
    }
    // ADTs declared here
    let ci = tcx.hir_crate_items(());
    for d in ci.definitions() {
        let d = d.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { let a = tcx.adt_def(d); cx.note_adt(a); }
    }
    // traits: default methods
    let mut traits = Vec::new();
    for d in ci.definitions() {
        let d = d.to_def_id();
        if tcx.def_kind(d) == DefKind::Trait {
            let items = tcx.associated_items(d).in_definition_order().map(|i| J::A(vec![s(cx.path(i.def_id)), J::B(i.defaultness(tcx).has_value())])).collect();
            traits.push(J::O(vec![("path", s(cx.path(d))), ("items", J::A(items))]));
        }
    }
    let feats: Vec<J> = tcx.sess.config.iter().filter_map(|(k, v)| if k.as_str() == "feature" { v.map(|v| s(v.to_string())) } else { None }).collect();
    let adts = std::mem::take(&mut cx.adts);
    let mut astr = String::from("{");
    for (i, (k, v)) in adts.iter().enumerate() { if i > 0 { astr.push(','); } esc(k, &mut astr); astr.push(':'); v.w(&mut astr); }
    astr.push('}');
    let top = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())), ("features", J::A(feats)),
        ("types", J::A(std::mem::take(&mut cx.types))), ("impls", J::A(impls)), ("traits", J::A(traits)), ("bodies", J::A(std::mem::take(&mut cx.bodies))),
    ]);
    let mut o = String::new();
    top.w(&mut o);
    o.pop();
    o.push_str(",\"adts\":");
    o.push_str(&astr);
    o.push('}');
    std::fs::write(out, o).expect("write facts");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("VERIF_FACTS_DIR") {
            if name == "stuart" || name == "stuart_core" { extract(tcx, &format!("{}/{}.json", dir, name)); }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    for a in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Zalways-encode-mir", "-Cdebug-assertions=on"] { args.push(a.into()); }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
