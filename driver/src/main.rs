//! A rustc driver that behaves as `rustc`, and additionally writes the resolved program of the
//! crate under analysis (type table, data types, MIR bodies, resolved callees, constants) as JSON
//! to `$MIRFACTS_OUT/<crate>-<kind>.json`. It makes no decisions: the rules live in /verif/rules.
#![feature(rustc_private)]
#![allow(rustc::internal)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::{with_crate_prefix, with_no_trimmed_paths}, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::HashMap;

struct Dump;

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out_dir = match std::env::var("MIRFACTS_OUT") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let mut d = Dumper { tcx, types: vec![], tyidx: HashMap::new(), adts: vec![], adtidx: HashMap::new() };
        let j = d.run(&name, kind);
        let mut s = String::new();
        j.write(&mut s);
        let path = format!("{out_dir}/{name}-{kind}.json");
        std::fs::write(&path, s).expect("writing facts");
        Compilation::Continue
    }
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adtidx: HashMap<DefId, usize>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_crate_prefix!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: Span) -> J {
        // the user-written location: outermost expansion site
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(root.lo());
        let file = match &lo.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.display().to_string(),
                None => format!("{:?}", r),
            },
            other => format!("{:?}", other),
        };
        let mut macros = vec![];
        for e in sp.macro_backtrace() {
            if let ExpnKind::Macro(_, n) = e.kind {
                macros.push(J::s(n.to_string()));
            }
        }
        let desugar = sp.desugaring_kind().map(|k| J::s(format!("{:?}", k))).unwrap_or(J::Null);
        J::Arr(vec![J::s(file), J::i(lo.line as u64), J::Arr(macros), desugar])
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) -> usize {
        let did = def.did();
        if let Some(i) = self.adtidx.get(&did) {
            return *i;
        }
        let i = self.adts.len();
        self.adtidx.insert(did, i);
        self.adts.push(J::Null);
        let full = did.is_local() || def.is_enum();
        let mut variants = vec![];
        if full {
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    J::i(def.discriminant_for_variant(self.tcx, vi).val as i128)
                } else {
                    J::Int(0)
                };
                let mut fields = vec![];
                for f in v.fields.iter() {
                    let fty = if did.is_local() {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        J::i(self.ty(t) as u64)
                    } else {
                        J::Null
                    };
                    fields.push(J::Obj(vec![
                        ("name", J::s(f.name.to_string())),
                        ("ty", fty),
                        ("public", J::Bool(f.vis.is_public())),
                    ]));
                }
                variants.push(J::Obj(vec![
                    ("name", J::s(v.name.to_string())),
                    ("discr", discr),
                    ("fields", J::Arr(fields)),
                ]));
            }
        }
        let sp = if did.is_local() { self.span(self.tcx.def_span(did)) } else { J::Null };
        let eff = if did.is_local() {
            J::Bool(self.tcx.effective_visibilities(()).is_exported(did.expect_local()))
        } else {
            J::Null
        };
        self.adts[i] = J::Obj(vec![
            ("path", J::s(self.path(did))),
            ("local", J::Bool(did.is_local())),
            ("exported", eff),
            ("kind", J::s(if def.is_enum() { "enum" } else if def.is_struct() { "struct" } else { "union" })),
            ("variants", J::Arr(variants)),
            ("span", sp),
        ]);
        i
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push(J::Null);
        let s = with_crate_prefix!(with_no_trimmed_paths!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![("s", J::s(s))];
        match *t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("def", J::s(self.path(def.did()))));
                let ai = self.adt(def);
                o.push(("adt", J::i(ai as u64)));
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(J::i(self.ty(t) as u64));
                    }
                }
                o.push(("args", J::Arr(a)));
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(inner);
                o.push(("args", J::Arr(vec![J::i(x as u64)])));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", J::s("ptr")));
                let x = self.ty(inner);
                o.push(("args", J::Arr(vec![J::i(x as u64)])));
            }
            ty::Slice(inner) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(inner);
                o.push(("args", J::Arr(vec![J::i(x as u64)])));
            }
            ty::Array(inner, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(inner);
                o.push(("args", J::Arr(vec![J::i(x as u64)])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    o.push(("len", J::i(n)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a: Vec<J> = ts.iter().map(|t| J::i(self.ty(t) as u64)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Closure(did, args) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::s(self.path(did))));
                let a: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| J::i(self.ty(t) as u64)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                o.push(("def", J::s(self.path(did))));
                let mut a = vec![];
                for g in args.skip_binder().iter() {
                    if let Some(t) = g.as_type() {
                        a.push(J::i(self.ty(t) as u64));
                    }
                }
                o.push(("args", J::Arr(a)));
            }
            ty::Param(_) => o.push(("k", J::s("param"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Int(_) => o.push(("k", J::s("int"))),
            ty::Uint(_) => o.push(("k", J::s("uint"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.types[i] = J::Obj(o);
        i
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut projs = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::Arr(vec![J::s("deref")]),
                ProjectionElem::Field(f, fty) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(def.variant(v)),
                                None if !def.is_enum() => Some(def.non_enum_variant()),
                                None => None,
                            };
                            match v {
                                Some(v) => J::s(v.fields[f].name.to_string()),
                                None => J::Null,
                            }
                        }
                        _ => J::Null,
                    };
                    let owner = match *pt.ty.kind() {
                        ty::Adt(def, _) => J::s(self.path(def.did())),
                        _ => J::Null,
                    };
                    let t = self.ty(fty);
                    J::Arr(vec![J::s("field"), J::i(f.as_u32()), name, J::i(t as u64), owner])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("index"), J::i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("cindex"),
                    J::i(offset),
                    J::i(min_length),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("subslice"), J::i(from), J::i(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = n.map(|n| n.to_string()).or_else(|| match *pt.ty.kind() {
                        ty::Adt(def, _) => Some(def.variant(v).name.to_string()),
                        _ => None,
                    });
                    J::Arr(vec![J::s("downcast"), J::i(v.as_u32()), name.map(J::s).unwrap_or(J::Null)])
                }
                _ => J::Arr(vec![J::s("other")]),
            };
            projs.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::Obj(vec![("l", J::i(p.local.as_u32())), ("p", J::Arr(projs))])
    }

    fn place_ty(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> usize {
        let t = p.ty(body, self.tcx).ty;
        self.ty(t)
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, did: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut res_did = did;
        let mut res_args = args;
        let mut kind = "item";
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            match Instance::try_resolve(tcx, env, did, args) {
                Ok(Some(inst)) => {
                    res_did = inst.def_id();
                    res_args = inst.args;
                    kind = match inst.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Intrinsic(_) => "intrinsic",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    };
                }
                _ => kind = "unresolved",
            }
        }
        let mut a = vec![];
        for g in res_args.iter() {
            if let Some(t) = g.as_type() {
                a.push(J::i(self.ty(t) as u64));
            }
        }
        let mut oa = vec![];
        for g in args.iter() {
            if let Some(t) = g.as_type() {
                oa.push(J::i(self.ty(t) as u64));
            }
        }
        let (imp, tr) = self.owner(res_did);
        let (_, otr) = self.owner(did);
        J::Obj(vec![
            ("path", J::s(self.path(res_did))),
            ("decl", J::s(self.path(did))),
            ("name", J::s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())),
            ("impl_of", imp),
            ("trait", if matches!(otr, J::Null) { tr } else { otr }),
            ("local", J::Bool(res_did.is_local())),
            ("kind", J::s(kind)),
            ("targs", J::Arr(a)),
            ("dargs", J::Arr(oa)),
            ("unsafe", J::Bool(matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(did).skip_binder().safety().is_unsafe())),
        ])
    }

    /// (self type of the enclosing impl as a string, trait path)
    fn owner(&mut self, did: DefId) -> (J, J) {
        let tcx = self.tcx;
        let root = tcx.typeck_root_def_id(did);
        if let Some(p) = tcx.opt_parent(root) {
            match tcx.def_kind(p) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let s = match st.kind() {
                        ty::Adt(d, _) => self.path(d.did()),
                        _ => with_crate_prefix!(with_no_trimmed_paths!(st.to_string())),
                    };
                    let tr = if of_trait {
                        J::s(self.path(tcx.impl_trait_id(p)))
                    } else {
                        J::Null
                    };
                    return (J::s(s), tr);
                }
                DefKind::Trait => return (J::Null, J::s(self.path(p))),
                _ => {}
            }
        }
        (J::Null, J::Null)
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tidx = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", J::i(tidx as u64))];
        if let ty::FnDef(did, args) = *t.kind() {
            let j = self.callee(env, did, args.skip_binder());
            o.push(("fn", j));
            return J::Obj(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::i(p.as_u32())));
                if u.def.is_local() {
                    o.push(("of", J::s(self.path(u.def))));
                }
            } else {
                o.push(("item", J::s(self.path(u.def))));
            }
        }
        if let Some(bits) = c.try_eval_bits(tcx, env) {
            match t.kind() {
                ty::Bool => o.push(("bool", J::Bool(bits != 0))),
                ty::Char => o.push(("char", J::s(char::from_u32(bits as u32).unwrap_or('\u{fffd}').to_string()))),
                ty::Int(it) => {
                    let w = it.bit_width().unwrap_or(64);
                    let sh = 128 - w as u32;
                    let v = ((bits << sh) as i128) >> sh;
                    o.push(("int", J::Int(v)));
                }
                ty::Uint(_) => o.push(("int", J::i(bits))),
                _ => o.push(("bits", J::i(bits))),
            }
            return J::Obj(o);
        }
        if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
            // strings
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(x) if *x == tcx.types.u8) {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        match std::str::from_utf8(b) {
                            Ok(s) => o.push(("str", J::s(s))),
                            Err(_) => o.push(("bytes", J::Arr(b.iter().map(|x| J::i(*x)).collect()))),
                        }
                        return J::Obj(o);
                    }
                }
                if let Some(x) = self.byte_array_ref(env, &v, *inner) {
                    o.push(("str", x));
                    return J::Obj(o);
                }
            }
            if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                if let Some(ga) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                    if let mir::interpret::GlobalAlloc::Static(d) = ga {
                        o.push(("static", J::s(self.path(d))));
                    }
                }
            }
            if matches!(v, mir::ConstValue::ZeroSized) {
                o.push(("zst", J::Bool(true)));
            }
            // enum constants
            if t.is_enum() {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    if let Some(vi) = d.variant {
                        o.push(("variant", J::i(vi.as_u32())));
                        let mut all = vec![];
                        for (fv, fty) in d.fields.iter() {
                            let fc = mir::Const::Val(*fv, *fty);
                            all.push(self.constant(env, &fc));
                        }
                        o.push(("fields", J::Arr(all)));
                    }
                }
            }
        }
        J::Obj(o)
    }

    /// `&[u8; N]` constants (format templates are encoded this way)
    fn byte_array_ref(&mut self, _env: TypingEnv<'tcx>, v: &mir::ConstValue, inner: Ty<'tcx>) -> Option<J> {
        let ty::Array(el, n) = inner.kind() else { return None };
        if *el != self.tcx.types.u8 {
            return None;
        }
        let n = n.try_to_target_usize(self.tcx)?;
        let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v else { return None };
        let ga = self.tcx.try_get_global_alloc(p.provenance.alloc_id())?;
        let mir::interpret::GlobalAlloc::Memory(a) = ga else { return None };
        let (_, off) = p.prov_and_relative_offset();
        let lo = off.bytes() as usize;
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n as usize);
        Some(J::s(b.iter().map(|x| *x as char).collect::<String>()))
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Obj(vec![("copy", self.place(body, p))]),
            Operand::Move(p) => J::Obj(vec![("move", self.place(body, p))]),
            Operand::Constant(c) => {
                let j = self.constant(env, &c.const_);
                J::Obj(vec![("const", j)])
            }
            _ => J::Obj(vec![("runtime", J::s(format!("{:?}", op)))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, _) => J::Obj(vec![("r", J::s("use")), ("op", self.operand(body, env, op))]),
            Rvalue::Repeat(op, _) => J::Obj(vec![("r", J::s("repeat")), ("op", self.operand(body, env, op))]),
            Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("r", J::s("ref")),
                ("mut", J::Bool(matches!(bk, BorrowKind::Mut { .. }))),
                ("place", self.place(body, p)),
            ]),
            Rvalue::RawPtr(_, p) => J::Obj(vec![("r", J::s("rawptr")), ("place", self.place(body, p))]),
            Rvalue::Cast(k, op, t) => {
                let ti = self.ty(*t);
                J::Obj(vec![
                    ("r", J::s("cast")),
                    ("kind", J::s(format!("{:?}", k))),
                    ("op", self.operand(body, env, op)),
                    ("ty", J::i(ti as u64)),
                ])
            }
            Rvalue::BinaryOp(b, ops) => J::Obj(vec![
                ("r", J::s("bin")),
                ("bop", J::s(format!("{:?}", b))),
                ("a", self.operand(body, env, &ops.0)),
                ("b", self.operand(body, env, &ops.1)),
            ]),
            Rvalue::UnaryOp(u, op) => J::Obj(vec![
                ("r", J::s("un")),
                ("uop", J::s(format!("{:?}", u))),
                ("op", self.operand(body, env, op)),
            ]),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(body, p);
                J::Obj(vec![("r", J::s("discr")), ("place", self.place(body, p)), ("ty", J::i(t as u64))])
            }
            Rvalue::CopyForDeref(p) => J::Obj(vec![
                ("r", J::s("use")),
                ("op", J::Obj(vec![("copy", self.place(body, p))])),
            ]),
            Rvalue::Reborrow(_, _, p) => J::Obj(vec![
                ("r", J::s("ref")),
                ("mut", J::Bool(true)),
                ("place", self.place(body, p)),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        o.push(("agg", J::s("array")));
                        o.push(("ty", J::i(t as u64)));
                    }
                    AggregateKind::Tuple => o.push(("agg", J::s("tuple"))),
                    AggregateKind::Adt(did, vi, _, _, _) => {
                        let def = self.tcx.adt_def(*did);
                        let ai = self.adt(def);
                        o.push(("agg", J::s("adt")));
                        o.push(("def", J::s(self.path(*did))));
                        o.push(("adt", J::i(ai as u64)));
                        o.push(("variant", J::i(vi.as_u32())));
                        o.push(("vname", J::s(def.variant(*vi).name.to_string())));
                        let fnames: Vec<J> =
                            def.variant(*vi).fields.iter().map(|f| J::s(f.name.to_string())).collect();
                        o.push(("fnames", J::Arr(fnames)));
                    }
                    AggregateKind::Closure(did, _) => {
                        o.push(("agg", J::s("closure")));
                        o.push(("def", J::s(self.path(*did))));
                    }
                    _ => o.push(("agg", J::s("other"))),
                }
                let a: Vec<J> = ops.iter().map(|x| self.operand(body, env, x)).collect();
                o.push(("ops", J::Arr(a)));
                J::Obj(o)
            }
            other => J::Obj(vec![("r", J::s("other")), ("dbg", J::s(format!("{:?}", other)))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, did: DefId, promoted: Option<u32>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upvars: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_u32()).or_insert(v.name.to_string());
                } else {
                    let pj = self.place(body, p);
                    upvars.push(J::Obj(vec![("name", J::s(v.name.to_string())), ("place", pj)]));
                }
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            locals.push(J::Obj(vec![
                ("ty", J::i(t as u64)),
                ("name", names.get(&l.as_u32()).map(|n| J::s(n.clone())).unwrap_or(J::Null)),
            ]));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &data.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, env, rv);
                        let pt = self.place_ty(body, p);
                        stmts.push(J::Obj(vec![
                            ("s", J::s("assign")),
                            ("place", pj),
                            ("pty", J::i(pt as u64)),
                            ("rv", rj),
                            ("span", self.span(st.source_info.span)),
                        ]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        stmts.push(J::Obj(vec![
                            ("s", J::s("setdiscr")),
                            ("place", pj),
                            ("variant", J::i(variant_index.as_u32())),
                            ("span", self.span(st.source_info.span)),
                        ]));
                    }
                    StatementKind::StorageDead(l) => stmts.push(J::Obj(vec![
                        ("s", J::s("dead")),
                        ("l", J::i(l.as_u32())),
                    ])),
                    StatementKind::StorageLive(l) => stmts.push(J::Obj(vec![
                        ("s", J::s("live")),
                        ("l", J::i(l.as_u32())),
                    ])),
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => J::i(b.as_u32()),
                _ => J::Null,
            };
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::Obj(vec![("t", J::s("goto")), ("to", J::i(target.as_u32())), ("span", sp)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let op = self.operand(body, env, discr);
                    let dty = discr.ty(body, tcx);
                    let dti = self.ty(dty);
                    let vals: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match dty.kind() {
                                ty::Int(it) => {
                                    let w = it.bit_width().unwrap_or(64);
                                    let sh = 128 - w as u32;
                                    J::Int(((v << sh) as i128) >> sh)
                                }
                                _ => J::i(v),
                            };
                            J::Arr(vec![v, J::i(b.as_u32())])
                        })
                        .collect();
                    J::Obj(vec![
                        ("t", J::s("switch")),
                        ("op", op),
                        ("ty", J::i(dti as u64)),
                        ("vals", J::Arr(vals)),
                        ("else", J::i(targets.otherwise().as_u32())),
                        ("span", sp),
                    ])
                }
                TerminatorKind::Return => J::Obj(vec![("t", J::s("return")), ("span", sp)]),
                TerminatorKind::Unreachable => J::Obj(vec![("t", J::s("unreachable")), ("span", sp)]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::Obj(vec![("t", J::s("resume")), ("span", sp)])
                }
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pj = self.place(body, place);
                    let pt = self.place_ty(body, place);
                    J::Obj(vec![
                        ("t", J::s("drop")),
                        ("place", pj),
                        ("pty", J::i(pt as u64)),
                        ("to", J::i(target.as_u32())),
                        ("unwind", unw(unwind)),
                        ("span", sp),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, call_source, fn_span, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, tcx);
                            J::i(self.ty(t) as u64)
                        })
                        .collect();
                    let dj = self.place(body, destination);
                    let dt = self.place_ty(body, destination);
                    let fs = self.span(*fn_span);
                    J::Obj(vec![
                        ("t", J::s("call")),
                        ("func", f),
                        ("args", J::Arr(a)),
                        ("atys", J::Arr(at)),
                        ("dest", dj),
                        ("dty", J::i(dt as u64)),
                        ("to", target.map(|t| J::i(t.as_u32())).unwrap_or(J::Null)),
                        ("unwind", unw(unwind)),
                        ("src", J::s(format!("{:?}", call_source))),
                        ("fspan", fs),
                        ("span", sp),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, env, cond);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(body, env, len), self.operand(body, env, index)],
                        ),
                        AssertKind::Overflow(b, x, y) => (
                            format!("overflow:{:?}", b),
                            vec![self.operand(body, env, x), self.operand(body, env, y)],
                        ),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.operand(body, env, x)]),
                        AssertKind::DivisionByZero(x) => ("divzero".into(), vec![self.operand(body, env, x)]),
                        AssertKind::RemainderByZero(x) => ("remzero".into(), vec![self.operand(body, env, x)]),
                        _ => ("other".into(), vec![]),
                    };
                    J::Obj(vec![
                        ("t", J::s("assert")),
                        ("cond", c),
                        ("expected", J::Bool(*expected)),
                        ("kind", J::s(k)),
                        ("ops", J::Arr(ops)),
                        ("to", J::i(target.as_u32())),
                        ("unwind", unw(unwind)),
                        ("span", sp),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Obj(vec![("t", J::s("goto")), ("to", J::i(real_target.as_u32())), ("span", sp)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Obj(vec![("t", J::s("goto")), ("to", J::i(real_target.as_u32())), ("span", sp)])
                }
                other => J::Obj(vec![("t", J::s("other")), ("dbg", J::s(format!("{:?}", other))), ("span", sp)]),
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(stmts)),
                ("t", tj),
                ("cleanup", J::Bool(data.is_cleanup)),
            ]));
        }
        let kind = match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => "fn",
            DefKind::Closure => "closure",
            DefKind::Static { .. } => "static",
            _ => "const",
        };
        let (imp, tr) = self.owner(did);
        let exported = did
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_exported(l))
            .unwrap_or(false);
        let derived = {
            let root = tcx.typeck_root_def_id(did);
            match tcx.opt_parent(root) {
                Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                    tcx.def_span(p).from_expansion() || tcx.is_automatically_derived(p)
                }
                _ => false,
            }
        };
        let parent = if tcx.def_kind(did) == DefKind::Closure {
            J::s(self.path(tcx.parent(did)))
        } else {
            J::Null
        };
        J::Obj(vec![
            ("path", J::s(self.path(did))),
            ("name", J::s(tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default())),
            ("kind", J::s(kind)),
            ("promoted", promoted.map(|p| J::i(p)).unwrap_or(J::Null)),
            ("impl_of", imp),
            ("trait", tr),
            ("exported", J::Bool(exported)),
            ("derived", J::Bool(derived)),
            ("parent", parent),
            ("argc", J::i(body.arg_count as u64)),
            ("locals", J::Arr(locals)),
            ("upvars", J::Arr(upvars)),
            ("blocks", J::Arr(blocks)),
            ("span", self.span(tcx.def_span(did))),
        ])
    }

    fn run(&mut self, name: &str, kind: &str) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut statics = vec![];
        let mut unsafe_items = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| self.path(k.to_def_id()));
        for k in keys {
            let did = k.to_def_id();
            let dk = tcx.def_kind(did);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        continue;
                    }
                    let b = tcx.optimized_mir(did);
                    fns.push(self.body(b, did, None));
                    if matches!(dk, DefKind::Fn | DefKind::AssocFn)
                        && tcx.fn_sig(did).skip_binder().safety().is_unsafe()
                    {
                        unsafe_items.push(J::s(self.path(did)));
                    }
                }
                DefKind::Static { mutability, .. } => {
                    let b = tcx.mir_for_ctfe(did);
                    fns.push(self.body(b, did, None));
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let ti = self.ty(t);
                    statics.push(J::Obj(vec![
                        ("path", J::s(self.path(did))),
                        ("ty", J::i(ti as u64)),
                        ("mut", J::Bool(mutability.is_mut())),
                        ("span", self.span(tcx.def_span(did))),
                    ]));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let b = tcx.mir_for_ctfe(did);
                    fns.push(self.body(b, did, None));
                }
                _ => continue,
            }
            for (p, b) in tcx.promoted_mir(did).iter_enumerated() {
                fns.push(self.body(b, did, Some(p.as_u32())));
            }
        }
        // make sure every local data type is in the table
        let items: Vec<_> = tcx.hir_crate_items(()).definitions().collect();
        for l in items {
            if matches!(tcx.def_kind(l), DefKind::Struct | DefKind::Enum) {
                let d = tcx.adt_def(l.to_def_id());
                self.adt(d);
                let t = tcx.type_of(l.to_def_id()).instantiate_identity().skip_norm_wip();
                self.ty(t);
            }
        }
        let entry = tcx.entry_fn(()).map(|(d, _)| J::s(self.path(d))).unwrap_or(J::Null);
        J::Obj(vec![
            ("crate", J::s(name)),
            ("kind", J::s(kind)),
            ("entry", entry),
            ("types", J::Arr(std::mem::take(&mut self.types))),
            ("adts", J::Arr(std::mem::take(&mut self.adts))),
            ("statics", J::Arr(statics)),
            ("unsafe_fns", J::Arr(unsafe_items)),
            ("fns", J::Arr(fns)),
        ])
    }
}

fn main() -> std::process::ExitCode {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [mirfacts, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dump))
}
