//! Facts extractor: a rustc driver that compiles the crate under analysis exactly as cargo would
//! and dumps, as JSON, the resolved and type-checked program: ADTs (with serde attributes), impls,
//! MIR bodies (local ones as written, plus the monomorphic instances they reach in local code and in
//! the interpretable part of core/alloc), resolved callees and evaluated constants.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_attr_ir;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::HashMap;
use std::collections::VecDeque;
use std::fmt::Write as _;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::interpret::Projectable as _;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, Const as MirConst, ConstValue, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgKind, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt,
    TypeVisitableExt, TypingEnv,
};
use rustc_infer::infer::TyCtxtInferExt as _;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt as _;

/// Minimal JSON value.
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}

fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::Int(x.try_into().unwrap_or(-1))
}

impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(out, "{i}");
            }
            J::Str(st) => {
                out.push('"');
                for c in st.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{k}\":");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

macro_rules! arr { ($($e:expr),* $(,)?) => { J::Arr(vec![$($e),*]) } }

/// core/alloc/std modules whose (generic) bodies are dumped so that the analysis can see through
/// combinators instead of modelling each of them.
const FOLLOW: &[&str] = &[
    "core::option", "core::result", "core::ops::try_trait", "core::ops::control_flow",
    "core::ops::function", "core::convert", "core::iter::traits", "core::iter::adapters",
    "core::iter::sources", "core::cmp", "core::default", "core::clone", "core::borrow", "core::bool",
    "core::tuple", "core::char::methods", "core::num", "core::ops::range", "core::array",
    "serde", "serde_yaml::value", "serde_yaml::mapping", "serde_yaml::number", "indexmap::map::serde", "indexmap::set::serde",
    "indexmap::serde", "indexmap::map::serde_seq",
    "core::mem", "alloc::borrow", "std::option", "std::result", "core::ops::deref", "core::time", "core::hint", "core::ops::bit", "core::ops::arith",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    fnrefs: Vec<J>,
    fn_ix: HashMap<(DefId, GenericArgsRef<'tcx>, TypingEnv<'tcx>), usize>,
    insts: Vec<J>,
    inst_ix: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    consts: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
    adt_queue: VecDeque<DefId>,
    traits: HashMap<String, DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }

    /// Unique, position-independent key of a definition (module path with impl indices).
    fn key(&self, d: DefId) -> String {
        let mut p = self.tcx.crate_name(d.krate).to_string();
        p.push_str(&self.tcx.def_path(d).to_string_no_crate_verbose());
        p
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ix.get(&t) {
            return n(i);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ix.insert(t, i);
        let j = match *t.kind() {
            ty::Bool => arr![s("bool")],
            ty::Char => arr![s("char")],
            ty::Int(x) => arr![s("int"), s(x.name_str())],
            ty::Uint(x) => arr![s("uint"), s(x.name_str())],
            ty::Float(x) => arr![s("float"), s(x.name_str())],
            ty::Str => arr![s("str")],
            ty::Never => arr![s("never")],
            ty::Adt(def, args) => {
                self.want_adt(def.did());
                arr![s("adt"), s(self.path(def.did())), self.args(args)]
            }
            ty::Ref(_, x, m) => arr![s("ref"), self.ty(x), J::Bool(m.is_mut())],
            ty::RawPtr(x, m) => arr![s("ptr"), self.ty(x), J::Bool(m.is_mut())],
            ty::Slice(x) => arr![s("slice"), self.ty(x)],
            ty::Array(x, l) => {
                arr![s("array"), self.ty(x), match l.try_to_target_usize(self.tcx) {
                    Some(v) => n(v),
                    None => J::Null,
                }]
            }
            ty::Tuple(xs) => arr![s("tuple"), J::Arr(xs.iter().map(|x| self.ty(x)).collect())],
            ty::Closure(d, args) => {
                let up = args.as_closure().tupled_upvars_ty();
                let ups = match up.kind() {
                    ty::Tuple(xs) => J::Arr(xs.iter().map(|x| self.ty(x)).collect()),
                    _ => J::Arr(vec![]),
                };
                arr![s("closure"), s(self.key(d)), ups, s(format!("{:?}", args.as_closure().kind()))]
            }
            ty::FnDef(..) => arr![s("fndef"), s(format!("{t}"))],
            ty::FnPtr(..) => arr![s("fnptr"), s(format!("{t}"))],
            ty::Param(p) => arr![s("param"), s(p.name.as_str())],
            ty::Dynamic(..) => arr![s("dyn"), s(format!("{t}"))],
            _ => arr![s("other"), s(format!("{t}"))],
        };
        self.types[i] = j;
        n(i)
    }

    fn args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(s(format!("{c}"))),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::Arr(v)
    }

    fn want_adt(&mut self, d: DefId) {
        if self.adts.insert(d, ()).is_none() {
            self.adt_queue.push_back(d);
        }
    }

    fn attrs(&self, d: DefId) -> J {
        let mut v = vec![];
        if let Some(l) = d.as_local() {
            let hid = self.tcx.local_def_id_to_hir_id(l);
            for a in self.tcx.hir_attrs(hid) {
                if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                    let path: Vec<String> =
                        item.path.segments.iter().map(|x| x.to_string()).collect();
                    let args = match &item.args {
                        rustc_attr_ir::AttrArgs::Delimited(d) => {
                            rustc_ast_pretty::pprust::tts_to_string(&d.tokens)
                        }
                        rustc_attr_ir::AttrArgs::Eq { expr, .. } => format!("= {}", expr.symbol),
                        _ => String::new(),
                    };
                    v.push(arr![s(path.join("::")), s(args)]);
                }
            }
        }
        J::Arr(v)
    }

    fn loc(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        arr![s(f), n(lo.line)]
    }

    fn vis(&self, d: DefId) -> J {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => s("pub"),
            ty::Visibility::Restricted(m) => s(format!("in {}", self.path(m.to_def_id()))),
        }
    }

    fn emit_adt(&mut self, d: DefId) {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let local = d.is_local();
        let idargs = ty::GenericArgs::identity_for_item(tcx, d);
        let mut variants = vec![];
        let follow = local || def.variants().len() <= 64;
        if follow {
            let discrs: Vec<_> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, d)| d.val).collect()
            } else {
                vec![0]
            };
            for (vi, v) in def.variants().iter_enumerated() {
                let mut fields = vec![];
                for f in v.fields.iter() {
                    let ft = f.ty(tcx, idargs).skip_norm_wip();
                    let tyj = self.ty(ft);
                    fields.push(J::Obj(vec![
                        ("name", s(f.name.as_str())),
                        ("ty", tyj),
                        ("vis", self.vis(f.did)),
                        ("attrs", if local { self.attrs(f.did) } else { J::Arr(vec![]) }),
                    ]));
                }
                variants.push(J::Obj(vec![
                    ("name", s(v.name.as_str())),
                    ("ctor", match v.ctor_kind() { Some(c) => s(format!("{c:?}")), None => J::Null }),
                    ("discr", J::Str(discrs.get(vi.as_usize()).copied().unwrap_or(0).to_string())),
                    ("fields", J::Arr(fields)),
                    ("attrs", if local { self.attrs(v.def_id) } else { J::Arr(vec![]) }),
                ]));
            }
        }
        let params: Vec<J> = idargs
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(s(format!("{t}"))),
                GenericArgKind::Const(t) => Some(s(format!("{t}"))),
                _ => None,
            })
            .collect();
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let eff = d
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(true);
        self.adt_out.push(J::Obj(vec![
            ("path", s(self.path(d))),
            ("key", s(self.key(d))),
            ("kind", s(kind)),
            ("local", J::Bool(local)),
            ("reachable", J::Bool(eff)),
            ("vis", self.vis(d)),
            ("params", J::Arr(params)),
            ("attrs", if local { self.attrs(d) } else { J::Arr(vec![]) }),
            ("variants", J::Arr(variants)),
            ("loc", if local { self.loc(tcx.def_span(d)) } else { J::Null }),
        ]));
    }

    fn inst(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> usize {
        // Instances without parameters do not depend on the environment.
        let env = if inst.args.has_param() { env } else { TypingEnv::fully_monomorphized() };
        if let Some(&i) = self.inst_ix.get(&(inst, env)) {
            return i;
        }
        let i = self.insts.len();
        self.insts.push(J::Null);
        self.inst_ix.insert((inst, env), i);
        self.queue.push_back((i, inst, env));
        i
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> usize {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        if let Some(&i) = self.fn_ix.get(&(d, args, env)) {
            return i;
        }
        let i = self.fnrefs.len();
        self.fnrefs.push(J::Null);
        self.fn_ix.insert((d, args, env), i);
        let resolved = if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            None
        } else {
            Instance::try_resolve(tcx, env, d, args).ok().flatten()
        };
        let inst = match resolved {
            Some(r) => n(self.inst(r, env)),
            None => J::Null,
        };
        let mut extra = vec![];
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // Constructor function: record the ADT and variant.
            let (adt, variant) = match of {
                rustc_hir::def::CtorOf::Struct => (tcx.parent(d), VariantIdx::from_u32(0)),
                rustc_hir::def::CtorOf::Variant => {
                    let v = tcx.parent(d);
                    let a = tcx.parent(v);
                    (a, tcx.adt_def(a).variant_index_with_id(v))
                }
            };
            self.want_adt(adt);
            extra.push(s(self.path(adt)));
            extra.push(n(variant.as_usize()));
        }
        let tr = tcx.trait_of_assoc(d).map(|t| s(self.path(t))).unwrap_or(J::Null);
        let via = self.via(d, args, env);
        let a = self.args(args);
        self.fnrefs[i] = J::Obj(vec![
            ("via", via),
            ("path", s(self.path(d))),
            ("key", s(self.key(d))),
            ("krate", s(tcx.crate_name(d.krate).as_str())),
            ("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())),
            ("args", a),
            ("trait", tr),
            ("inst", inst),
            ("ctor", J::Arr(extra)),
        ]);
        i
    }

    /// Instance of trait method `tr::name` for `self_ty`, if it resolves.
    fn trait_inst(&mut self, tr: &str, name: &str, self_ty: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let Some(&t) = self.traits.get(tr) else { return J::Null };
        if tcx.generics_of(t).count() != 1 {
            return J::Null;
        }
        for item in tcx.associated_items(t).in_definition_order() {
            if item.as_def_kind() == DefKind::AssocFn && item.name().as_str() == name {
                let a = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => self_ty.into(),
                });
                let a = tcx.erase_and_anonymize_regions(a);
                return match Instance::try_resolve(tcx, env, item.def_id, a).ok().flatten() {
                    Some(r) => n(self.inst(r, env)),
                    None => J::Null,
                };
            }
        }
        J::Null
    }

    /// Instances a modelled library function reaches through its type parameters.
    fn via(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let key = self.key(d);
        let first = args.types().next();
        let last = args.types().last();
        let mut v = vec![];
        if key.starts_with("core::fmt::rt") && key.contains("::new_") {
            let name = key.rsplit("::new_").next().unwrap_or("").to_string();
            let tr = match name.as_str() {
                "display" => "core::fmt::Display",
                "debug" => "core::fmt::Debug",
                "lower_hex" => "core::fmt::LowerHex",
                "upper_hex" => "core::fmt::UpperHex",
                "lower_exp" => "core::fmt::LowerExp",
                "upper_exp" => "core::fmt::UpperExp",
                "octal" => "core::fmt::Octal",
                "binary" => "core::fmt::Binary",
                _ => "",
            };
            if let (Some(t), false) = (first, tr.is_empty()) {
                v.push(self.trait_inst(tr, "fmt", t.peel_refs(), env));
            }
        } else if (key.starts_with("alloc::string") && key.ends_with("::to_string")) || key.ends_with("::check_for_tag") {
            if let Some(t) = first {
                v.push(self.trait_inst("core::fmt::Display", "fmt", t.peel_refs(), env));
            }
        } else if key.ends_with("::from_iter") || key.ends_with("::extend") {
            if let Some(t) = last {
                let ii = self.trait_inst("core::iter::traits::collect::IntoIterator", "into_iter", t, env);
                v.push(ii);
                // The iterator type is the projection <I as IntoIterator>::IntoIter.
                if let Some(&tr) = self.traits.get("core::iter::traits::collect::IntoIterator") {
                    for item in self.tcx.associated_items(tr).in_definition_order() {
                        if item.as_def_kind() == DefKind::AssocTy && item.name().as_str() == "IntoIter" {
                            let proj = Ty::new_projection(
                                self.tcx, ty::IsRigid::No, item.def_id, [ty::GenericArg::from(t)]);
                            if let Ok(p) = self.tcx.try_normalize_erasing_regions(
                                env, ty::Unnormalized::new_wip(proj)) {
                                v.push(self.trait_inst("core::iter::traits::iterator::Iterator", "next", p, env));
                            }
                        }
                    }
                }
            }
        }
        J::Arr(v)
    }

    fn const_tree(&mut self, c: &MirConst<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return arr![s("fn"), n(self.fnref(d, args, env))];
        }
        match c.eval(tcx, env, span) {
            Ok(v) => self.const_val(v, t, env),
            Err(_) => arr![s("opaque"), s(format!("{c}"))],
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let Some((ecx, op)) = rustc_const_eval::const_eval::mk_eval_cx_for_const_val(
            tcx.at(rustc_span::DUMMY_SP),
            env,
            v,
            t,
        ) else {
            return arr![s("opaque"), s(format!("{t}"))];
        };
        self.read_op(&ecx, &op, env, 0)
    }

    fn read_op(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
        env: TypingEnv<'tcx>,
        depth: usize,
    ) -> J {
        let mut t = op.layout.ty;
        if let ty::Pat(base, _) = *t.kind() {
            t = base;
        }
        let opaque = arr![s("opaque"), s(format!("{t}"))];
        if depth > 12 {
            return opaque;
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let Some(imm) = ecx.read_immediate(op).discard_err() else { return opaque };
                let Some(sc) = imm.to_scalar_int().discard_err() else { return opaque };
                let size = sc.size();
                match *t.kind() {
                    ty::Bool => arr![s("bool"), J::Bool(sc.to_bits(size) != 0)],
                    ty::Char => arr![s("char"), n(sc.to_bits(size))],
                    ty::Int(_) => arr![s("int"), s(sc.to_int(size).to_string()), self.ty(t)],
                    ty::Uint(_) => arr![s("int"), s(sc.to_bits(size).to_string()), self.ty(t)],
                    _ => arr![s("float"), s(sc.to_bits(size).to_string()), self.ty(t)],
                }
            }
            ty::Str => {
                arr![s("opaque"), s("str")]
            }
            ty::Ref(_, inner, _) => {
                if let ty::Str = inner.kind() {
                    let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                    let Some(st) = ecx.read_str(&mp).discard_err() else { return opaque };
                    return arr![s("str"), s(st)];
                }
                if let ty::Slice(_) = inner.kind() {
                    let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                    let Some(len) = mp.len(ecx).discard_err() else { return opaque };
                    if len > 4096 {
                        return opaque;
                    }
                    let mut v = vec![];
                    let opx: rustc_const_eval::interpret::OpTy<'tcx> = mp.into();
                    for i in 0..len {
                        let Some(f) = ecx.project_index(&opx, i).discard_err() else { return opaque };
                        v.push(self.read_op(ecx, &f, env, depth + 1));
                    }
                    return arr![s("ref"), arr![s("array"), J::Arr(v)]];
                }
                let Some(mp) = ecx.deref_pointer(op).discard_err() else { return opaque };
                let opx: rustc_const_eval::interpret::OpTy<'tcx> = mp.into();
                let x = self.read_op(ecx, &opx, env, depth + 1);
                arr![s("ref"), x]
            }
            ty::Adt(def, _) => {
                if def.is_union() {
                    return opaque;
                }
                if self.key(def.did()).starts_with("core::num::niche_types") {
                    // Transparent: the interpreter works with the integer inside.
                    if let Some(f) = ecx.project_field(op, FieldIdx::from_usize(0)).discard_err() {
                        return self.read_op(ecx, &f, env, depth + 1);
                    }
                }
                let tyj = self.ty(t);
                let (vi, base) = if def.is_enum() {
                    let Some(vi) = ecx.read_discriminant(op).discard_err() else { return opaque };
                    let Some(b) = ecx.project_downcast(op, vi).discard_err() else { return opaque };
                    (vi, b)
                } else {
                    (VariantIdx::from_u32(0), op.clone())
                };
                let cnt = def.variant(vi).fields.len();
                let mut v = vec![];
                for i in 0..cnt {
                    let Some(f) = ecx.project_field(&base, FieldIdx::from_usize(i)).discard_err()
                    else {
                        return opaque;
                    };
                    v.push(self.read_op(ecx, &f, env, depth + 1));
                }
                arr![s("adt"), tyj, n(vi.as_usize()), J::Arr(v)]
            }
            ty::Tuple(xs) => {
                let mut v = vec![];
                for i in 0..xs.len() {
                    let Some(f) = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err() else {
                        return opaque;
                    };
                    v.push(self.read_op(ecx, &f, env, depth + 1));
                }
                arr![s("tuple"), J::Arr(v)]
            }
            ty::Array(_, l) => {
                let Some(l) = l.try_to_target_usize(self.tcx) else { return opaque };
                if l > 4096 {
                    return opaque;
                }
                let mut v = vec![];
                for i in 0..l {
                    let Some(f) = ecx.project_index(op, i).discard_err() else { return opaque };
                    v.push(self.read_op(ecx, &f, env, depth + 1));
                }
                arr![s("array"), J::Arr(v)]
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                arr![s("fn"), n(self.fnref(d, args, env))]
            }
            ty::Closure(d, args) => {
                let mut v = vec![];
                if let ty::Tuple(xs) = args.as_closure().tupled_upvars_ty().kind() {
                    for i in 0..xs.len() {
                        let Some(f) = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err()
                        else {
                            return opaque;
                        };
                        v.push(self.read_op(ecx, &f, env, depth + 1));
                    }
                }
                arr![s("closure"), n(self.fnref(d, args, env)), J::Arr(v)]
            }
            _ => opaque,
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => arr![s("f"), n(i.as_usize()), self.ty(t)],
                ProjectionElem::Downcast(_, i) => arr![s("d"), n(i.as_usize())],
                ProjectionElem::Index(l) => arr![s("i"), n(l.as_usize())],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr![s("ci"), n(offset), n(min_length), J::Bool(from_end)]
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr![s("ss"), n(from), n(to), J::Bool(from_end)]
                }
                _ => arr![s("other")],
            });
        }
        arr![n(p.local.as_usize()), J::Arr(v)]
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        match o {
            Operand::Copy(p) => arr![s("c"), self.place(p)],
            Operand::Move(p) => arr![s("m"), self.place(p)],
            Operand::Constant(c) => {
                let tree = self.const_tree(&c.const_, env, span);
                let t = self.ty(c.const_.ty());
                // Name of the constant item, if it is one.
                let item = match c.const_ {
                    MirConst::Unevaluated(u, _) if u.promoted.is_none() => s(self.path(u.def)),
                    _ => J::Null,
                };
                let i = self.consts.len();
                self.consts.push(arr![tree, t, item]);
                arr![s("k"), n(i)]
            }
            #[allow(unreachable_patterns)]
            _ => arr![s("rt"), s(format!("{o:?}"))],
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, span: Span) -> J {
        match r {
            Rvalue::Use(o, _) => arr![s("use"), self.operand(o, env, span)],
            Rvalue::Repeat(o, c) => {
                arr![s("repeat"), self.operand(o, env, span), s(format!("{c}"))]
            }
            Rvalue::Ref(_, bk, p) => {
                arr![s("ref"), self.place(p), J::Bool(matches!(bk, mir::BorrowKind::Mut { .. }))]
            }
            Rvalue::RawPtr(k, p) => arr![s("rawptr"), self.place(p), s(format!("{k:?}"))],
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                arr![s("cast"), s(ks), self.operand(o, env, span), self.ty(*t)]
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                arr![s("bin"), s(format!("{op:?}")), self.operand(x, env, span), self.operand(y, env, span)]
            }
            Rvalue::UnaryOp(op, o) => {
                arr![s("un"), s(format!("{op:?}")), self.operand(o, env, span)]
            }
            Rvalue::Discriminant(p) => arr![s("discr"), self.place(p)],
            Rvalue::Aggregate(k, fields) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => arr![s("array"), self.ty(*t)],
                    AggregateKind::Tuple => arr![s("tuple")],
                    AggregateKind::Adt(d, v, args, _, active) => {
                        self.want_adt(*d);
                        let a = self.args(args);
                        arr![
                            s("adt"),
                            s(self.path(*d)),
                            n(v.as_usize()),
                            a,
                            match active { Some(f) => n(f.as_usize()), None => J::Null }
                        ]
                    }
                    AggregateKind::Closure(d, args) => {
                        let f = self.fnref(*d, args, env);
                        arr![s("closure"), n(f)]
                    }
                    AggregateKind::RawPtr(t, _) => arr![s("rawptr"), self.ty(*t)],
                    _ => arr![s("other")],
                };
                let fs = J::Arr(fields.iter().map(|o| self.operand(o, env, span)).collect());
                arr![s("agg"), kj, fs]
            }
            Rvalue::CopyForDeref(p) => arr![s("use"), arr![s("c"), self.place(p)]],
            Rvalue::Reborrow(_, m, p) => {
                arr![s("ref"), arr![n(p.local.as_usize()), {
                    let J::Arr(mut v) = self.place(p) else { unreachable!() };
                    let J::Arr(mut pr) = v.pop().unwrap() else { unreachable!() };
                    pr.push(s("*"));
                    J::Arr(pr)
                }], J::Bool(m.is_mut())]
            }
            other => arr![s("other"), s(format!("{other:?}"))],
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let locals = J::Arr(body.local_decls.iter().map(|l| self.ty(l.ty)).collect());
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                let pj = self.place(&p);
                names.push(arr![s(v.name.as_str()), pj]);
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = x.source_info.span;
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(p);
                        let rj = self.rvalue(r, env, sp);
                        st.push(arr![s("="), pj, rj, self.line(sp)]);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(place);
                        st.push(arr![s("sd"), pj, n(variant_index.as_usize()), self.line(sp)]);
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(arr![s("dead"), n(l.as_usize())]);
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            let line = self.line(sp);
            let tj = match &term.kind {
                TerminatorKind::Goto { target, .. } => arr![s("goto"), n(target.as_usize())],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env, sp);
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dtj = self.ty(dt);
                    let arms: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| arr![s(v.to_string()), n(b.as_usize())])
                        .collect();
                    arr![s("switch"), d, J::Arr(arms), n(targets.otherwise().as_usize()), dtj, line]
                }
                TerminatorKind::Return => arr![s("return")],
                TerminatorKind::Unreachable => arr![s("unreachable")],
                TerminatorKind::Drop { place, target, .. } => {
                    arr![s("drop"), n(target.as_usize()), self.place(place)]
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env, sp);
                    let a = J::Arr(args.iter().map(|x| self.operand(&x.node, env, sp)).collect());
                    let d = self.place(destination);
                    let t = match target { Some(t) => n(t.as_usize()), None => J::Null };
                    let _ = fn_span;
                    arr![s("call"), f, a, d, t, line]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env, sp);
                    let (k, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "BoundsCheck".into(),
                            vec![self.operand(len, env, sp), self.operand(index, env, sp)],
                        ),
                        AssertKind::Overflow(op, x, y) => (
                            format!("Overflow:{op:?}"),
                            vec![self.operand(x, env, sp), self.operand(y, env, sp)],
                        ),
                        AssertKind::OverflowNeg(x) => {
                            ("OverflowNeg".into(), vec![self.operand(x, env, sp)])
                        }
                        AssertKind::DivisionByZero(x) => {
                            ("DivisionByZero".into(), vec![self.operand(x, env, sp)])
                        }
                        AssertKind::RemainderByZero(x) => {
                            ("RemainderByZero".into(), vec![self.operand(x, env, sp)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    arr![
                        s("assert"),
                        c,
                        J::Bool(*expected),
                        s(k),
                        J::Arr(ops),
                        n(target.as_usize()),
                        line
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr![s("goto"), n(real_target.as_usize())]
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    arr![s("resume")]
                }
                other => arr![s("other"), s(format!("{other:?}"))],
            };
            blocks.push(arr![J::Arr(st), tj, J::Bool(bb.is_cleanup)]);
        }
        J::Obj(vec![
            ("argc", n(body.arg_count)),
            ("spread", match body.spread_arg { Some(l) => n(l.as_usize()), None => J::Null }),
            ("locals", locals),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn line(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        n(lo.line)
    }

    /// Definition at `path` (crate name first), if that crate is loaded.
    fn find(&self, path: &[&str]) -> Option<DefId> {
        let tcx = self.tcx;
        let k = tcx.crates(()).iter().copied().find(|k| tcx.crate_name(*k).as_str() == path[0])?;
        let mut cur = k.as_def_id();
        for seg in &path[1..] {
            cur = tcx.module_children(cur).iter().find_map(|c| {
                let d = c.res.opt_def_id()?;
                let ns = matches!(tcx.def_kind(d), DefKind::Mod | DefKind::Struct | DefKind::Enum | DefKind::Trait);
                (c.ident.name.as_str() == *seg && ns).then_some(d)
            })?;
        }
        Some(cur)
    }

    /// `<self_ty as tr>::name::<extra>`, if it resolves.
    fn method(&mut self, tr: DefId, name: &str, self_ty: Ty<'tcx>, extra: Ty<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let item = tcx.associated_items(tr).in_definition_order()
            .find(|i| i.as_def_kind() == DefKind::AssocFn && i.name().as_str() == name)?;
        let mut n = 0;
        let a = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => {
                n += 1;
                if n == 1 { self_ty.into() } else { extra.into() }
            }
        });
        let a = tcx.erase_and_anonymize_regions(a);
        let r = Instance::try_resolve(tcx, env, item.def_id, a).ok().flatten()?;
        Some(self.inst(r, env))
    }

    /// (De)serialization of every local type from and to a `serde_yaml::Value`.
    fn serde_roots(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let (Some(val), Some(ser), Some(de_t), Some(ser_t)) = (
            self.find(&["serde_yaml", "value", "Value"]),
            self.find(&["serde_yaml", "value", "Serializer"]),
            self.find(&["serde", "Deserialize"]),
            self.find(&["serde", "Serialize"]),
        ) else { return J::Arr(out) };
        let val = tcx.type_of(val).instantiate_identity().skip_norm_wip();
        let rval = Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, val);
        // A deserializer of a text that is not borrowed from the input.
        let text = match (
            self.find(&["serde", "de", "value", "StrDeserializer"]),
            self.find(&["serde_yaml", "Error"]),
        ) {
            (Some(d), Some(e)) => {
                let e = tcx.type_of(e).instantiate_identity().skip_norm_wip();
                let a = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => e.into(),
                });
                Some(Ty::new_adt(tcx, tcx.adt_def(d), a))
            }
            _ => None,
        };
        let ser = tcx.type_of(ser).instantiate_identity().skip_norm_wip();
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            let DefKind::Impl { of_trait: true } = tcx.def_kind(d) else { continue };
            let t = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
            let (name, kind, m) = if t.def_id == de_t {
                ("de", de_t, val)
            } else if t.def_id == ser_t {
                ("ser", ser_t, ser)
            } else {
                continue;
            };
            let st = tcx.erase_and_anonymize_regions(t.self_ty());
            if let ty::Adt(def, args) = *st.kind() {
                if args.types().next().is_some() {
                    continue;
                }
                let f = if name == "de" { "deserialize" } else { "serialize" };
                if let Some(i) = self.method(kind, f, st, m) {
                    out.push(arr![s(self.path(def.did())), s(name), n(i)]);
                }
                if name == "de" {
                    for (kn, m) in [("deref", Some(rval)), ("destr", text)] {
                        let Some(m) = m else { continue };
                        if let Some(i) = self.method(kind, f, st, m) {
                            out.push(arr![s(self.path(def.did())), s(kn), n(i)]);
                        }
                    }
                }
            }
        }
        J::Arr(out)
    }

    /// Instances of the methods of generic local types at the types the crate uses them with.
    fn mono_roots(&mut self) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let mut tys: Vec<Ty<'tcx>> = vec![];
        let mut todo: Vec<Ty<'tcx>> = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    for f in tcx.adt_def(d).all_fields() {
                        todo.push(tcx.type_of(f.did).instantiate_identity().skip_norm_wip());
                    }
                }
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                    todo.extend(sig.inputs_and_output.iter());
                }
                DefKind::TyAlias => todo.push(tcx.type_of(d).instantiate_identity().skip_norm_wip()),
                _ => {}
            }
        }
        for t in todo {
            for a in t.walk() {
                if let GenericArgKind::Type(t) = a.kind() {
                    let t = tcx.erase_and_anonymize_regions(t);
                    if let ty::Adt(def, args) = *t.kind() {
                        if def.did().is_local() && args.types().next().is_some() && !t.has_param()
                            && !t.has_opaque_types() && !t.has_aliases() && !t.has_escaping_bound_vars() && !tys.contains(&t)
                        {
                            tys.push(t);
                        }
                    }
                }
            }
        }
        let mut out = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            let DefKind::Impl { of_trait } = tcx.def_kind(d) else { continue };
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            // The generic local type an impl is about: its self type, or the one its trait is applied to.
            let mut pats = vec![st];
            if of_trait {
                let t = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                let p = self.path(t.def_id);
                if p == "core::fmt::Debug" || p == "core::cmp::Eq" {
                    continue;
                }
                pats.extend(t.args.types().skip(1));
            }
            if tcx.generics_of(d).own_params.iter().all(|p| matches!(p.kind, ty::GenericParamDefKind::Lifetime)) {
                continue;
            }
            let Some((pat, def, iargs)) = pats.into_iter().find_map(|p| match *p.kind() {
                ty::Adt(def, a) if def.did().is_local() && a.types().next().is_some() => Some((p, def, a)),
                _ => None,
            }) else { continue };
            for t in tys.clone() {
                let ty::Adt(def2, cargs) = *t.kind() else { continue };
                if def.did() != def2.did() {
                    continue;
                }
                let mut bind: HashMap<u32, ty::GenericArg<'tcx>> = HashMap::new();
                let mut fits = true;
                let mut todo: Vec<(Ty<'tcx>, Ty<'tcx>)> = iargs.types().zip(cargs.types()).collect();
                while let Some((x, y)) = todo.pop() {
                    match (x.kind(), y.kind()) {
                        (ty::Param(p), _) => {
                            fits &= bind.get(&p.index).is_none_or(|z| *z == y.into());
                            bind.insert(p.index, y.into());
                        }
                        (ty::Adt(d1, a1), ty::Adt(d2, a2)) if d1 == d2 => todo.extend(a1.types().zip(a2.types())),
                        (ty::Alias(..), _) => {}
                        _ => fits &= tcx.erase_and_anonymize_regions(x) == y,
                    }
                }
                if !fits {
                    continue;
                }
                // Nothing left open, and the type it is about is the one at hand.
                let mut whole = true;
                let ia = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    _ => bind.get(&p.index).copied().unwrap_or_else(|| {
                        whole = false;
                        tcx.types.unit.into()
                    }),
                });
                if !whole || tcx.instantiate_and_check_impossible_clauses((d, ia)) {
                    continue;
                }
                let it = EarlyBinder::bind(tcx, pat).instantiate(tcx, ia);
                match tcx.try_normalize_erasing_regions(env, it) {
                    Ok(x) if x == t => {}
                    _ => continue,
                }
                let it = EarlyBinder::bind(tcx, st).instantiate(tcx, ia);
                let Ok(self_ty) = tcx.try_normalize_erasing_regions(env, it) else { continue };
                for &m in tcx.associated_item_def_ids(d) {
                    if tcx.def_kind(m) != DefKind::AssocFn {
                        continue;
                    }
                    let mut whole = true;
                    let a = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => bind.get(&p.index).copied().unwrap_or_else(|| {
                            whole = false;
                            tcx.types.unit.into()
                        }),
                    });
                    if !whole || tcx.instantiate_and_check_impossible_clauses((m, a)) {
                        continue;
                    }
                    let Some(r) = Instance::try_resolve(tcx, env, m, a).ok().flatten() else { continue };
                    let i = self.inst(r, env);
                    let tr = if of_trait {
                        let t = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                        s(self.path(t.def_id))
                    } else {
                        J::Null
                    };
                    let tj = self.ty(self_ty);
                    let sig = tcx.fn_sig(m).instantiate(tcx, a).skip_norm_wip();
                    let sig = tcx.instantiate_bound_regions_with_erased(sig);
                    let sig = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig));
                    let io: Vec<J> = sig.inputs_and_output.iter().map(|x| self.ty(x)).collect();
                    let name = tcx.opt_item_name(m).map(|x| x.to_string()).unwrap_or_default();
                    out.push(arr![s(self.path(def.did())), tj, tr, s(name), n(i), J::Arr(io)]);
                }
            }
        }
        J::Arr(out)
    }

    /// `Iterator::next` of the iterators that local functions return as `impl Iterator`.
    fn iter_roots(&mut self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let Some(&it) = self.traits.get("core::iter::traits::iterator::Iterator") else { return J::Arr(out) };
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                || tcx.generics_of(d).requires_monomorphization(tcx)
            {
                continue;
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let t = tcx.instantiate_bound_regions_with_erased(sig).output();
            if !t.has_opaque_types() {
                continue;
            }
            let env = TypingEnv::fully_monomorphized();
            let t = tcx.erase_and_anonymize_regions(t);
            let t = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(t));
            if let Some(i) = self.method(it, "next", t, t) {
                out.push(arr![s(self.key(d)), n(i)]);
            }
        }
        J::Arr(out)
    }

    fn followed(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let key = self.key(d);
        if key.starts_with("core::str::") && key.ends_with("::parse") {
            return true;
        }
        FOLLOW.iter().any(|p| key.starts_with(p) && key[p.len()..].starts_with("::"))
    }

    fn emit_inst(&mut self, ix: usize, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
            InstanceKind::Shim(ShimKind::Reify(..)) => "reify",
            _ => "shim",
        };
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let mut body_j = J::Null;
        let mut target = J::Null;
        if let InstanceKind::Shim(ShimKind::FnPtr(_, t)) = inst.def {
            if let ty::FnDef(fd, fa) = *t.kind() {
                let fa = fa.no_bound_vars().unwrap_or_else(|| fa.skip_binder());
                target = n(self.fnref(fd, fa, env));
            }
        }
        let has_body = match inst.def {
            InstanceKind::Item(d) => {
                tcx.is_mir_available(d)
                    && self.followed(d)
                    && !is_ctor
                    && matches!(
                        tcx.def_kind(d),
                        DefKind::Fn | DefKind::AssocFn | DefKind::Closure
                    )
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        };
        if has_body {
            let mir = tcx.instance_mir(inst.def);
            let b = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                EarlyBinder::bind(tcx, mir.clone()),
            );
            body_j = self.body(&b, env);
        }
        let args = self.args(inst.args);
        // Enclosing impl, if any.
        let mut impl_j = J::Null;
        let mut root = d;
        while matches!(tcx.def_kind(root), DefKind::Closure) {
            root = tcx.parent(root);
        }
        if let Some(im) = tcx.impl_of_assoc(root) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let stj = self.ty(st);
            let tr = match tcx.impl_opt_trait_ref(im) {
                Some(t) => {
                    let t = t.instantiate_identity().skip_norm_wip();
                    let a = self.args(t.args);
                    arr![s(self.path(t.def_id)), a]
                }
                None => J::Null,
            };
            impl_j = J::Obj(vec![
                ("self", stj),
                ("trait", tr),
                ("derived", J::Bool(tcx.is_automatically_derived(im))),
                ("key", s(self.key(im))),
            ]);
        }
        let sig = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sg = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = J::Arr(sg.inputs().iter().map(|t| self.ty(*t)).collect());
            let out = self.ty(sg.output());
            arr![ins, out]
        } else {
            J::Null
        };
        let reach = root
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(true);
        let vis = if matches!(tcx.def_kind(root), DefKind::Fn | DefKind::AssocFn) {
            self.vis(root)
        } else {
            J::Null
        };
        let constness = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            tcx.is_const_fn(d)
        } else {
            false
        };
        let file = if d.is_local() { self.loc(tcx.def_span(d)) } else { J::Null };
        self.insts[ix] = J::Obj(vec![
            ("path", s(self.path(d))),
            ("key", s(self.key(d))),
            ("root", s(self.key(root))),
            ("name", s(tcx.opt_item_name(root).map(|x| x.to_string()).unwrap_or_default())),
            ("krate", s(tcx.crate_name(d.krate).as_str())),
            ("local", J::Bool(d.is_local())),
            ("kind", s(kind)),
            ("target", target),
            ("args", args),
            ("mono", J::Bool(!inst.args.has_param())),
            ("impl", impl_j),
            ("sig", sig),
            ("vis", vis),
            ("reachable", J::Bool(reach)),
            ("const", J::Bool(constness)),
            ("loc", file),
            ("body", body_j),
        ]);
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let mut cx = Cx {
            tcx,
            types: vec![],
            type_ix: HashMap::new(),
            fnrefs: vec![],
            fn_ix: HashMap::new(),
            insts: vec![],
            inst_ix: HashMap::new(),
            queue: VecDeque::new(),
            consts: vec![],
            adts: HashMap::new(),
            adt_out: vec![],
            adt_queue: VecDeque::new(),
            traits: HashMap::new(),
        };
        for t in tcx.all_traits_including_private() {
            if tcx.crate_name(t.krate).as_str() == "core" {
                let p = cx.path(t);
                cx.traits.insert(p, t);
            }
        }
        let mut roots = vec![];
        for l in tcx.mir_keys(()).iter() {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(d, args);
            let mut root = d;
            while matches!(tcx.def_kind(root), DefKind::Closure) {
                root = tcx.parent(root);
            }
            let env = TypingEnv::post_analysis(tcx, root);
            roots.push(n(cx.inst(inst, env)));
        }
        let serde_roots = cx.serde_roots();
        let mono_roots = cx.mono_roots();
        let iter_roots = cx.iter_roots();
        // All local ADTs.
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                cx.want_adt(d);
            }
        }
        // All local trait impls (including impls without bodies).
        let mut impls = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let stj = cx.ty(st);
                let tr = if of_trait {
                    let t = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                    let a = cx.args(t.args);
                    arr![s(cx.path(t.def_id)), a]
                } else {
                    J::Null
                };
                let items: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|x| {
                        arr![
                            s(tcx.opt_item_name(*x).map(|x| x.to_string()).unwrap_or_default()),
                            s(cx.key(*x))
                        ]
                    })
                    .collect();
                let loc = cx.loc(tcx.def_span(d));
                impls.push(J::Obj(vec![
                    ("self", stj),
                    ("trait", tr),
                    ("derived", J::Bool(tcx.is_automatically_derived(d))),
                    ("key", s(cx.key(d))),
                    ("items", J::Arr(items)),
                    ("loc", loc),
                ]));
            }
        }
        // Free statics, consts.
        let mut statics = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tj = cx.ty(t);
                statics.push(arr![s(cx.path(d)), tj, J::Bool(mutability.is_mut())]);
            }
        }
        // Auto traits of every local type, its parameters taken as `u8`.
        let mut autos = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                continue;
            }
            let a = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => tcx.types.u8.into(),
                ty::GenericParamDefKind::Const { .. } => ty::Const::from_target_usize(tcx, 1).into(),
            });
            let t = Ty::new_adt(tcx, tcx.adt_def(d), a);
            let env = TypingEnv::fully_monomorphized();
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
            let has = |name: &str| match tcx.get_diagnostic_item(rustc_span::Symbol::intern(name)) {
                Some(tr) => J::Bool(infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()),
                None => J::Null,
            };
            let sync = match tcx.lang_items().sync_trait() {
                Some(tr) => J::Bool(infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()),
                None => has("Sync"),
            };
            autos.push(arr![s(cx.path(d)), has("Send"), sync, J::Bool(t.is_freeze(tcx, env))]);
            cx.want_adt(d);
        }
        loop {
            if let Some((ix, inst, env)) = cx.queue.pop_front() {
                cx.emit_inst(ix, inst, env);
                continue;
            }
            if let Some(d) = cx.adt_queue.pop_front() {
                cx.emit_adt(d);
                continue;
            }
            break;
        }
        let out = J::Obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("types", J::Arr(std::mem::take(&mut cx.types))),
            ("adts", J::Arr(std::mem::take(&mut cx.adt_out))),
            ("impls", J::Arr(impls)),
            ("statics", J::Arr(statics)),
            ("autos", J::Arr(autos)),
            ("fnrefs", J::Arr(std::mem::take(&mut cx.fnrefs))),
            ("consts", J::Arr(std::mem::take(&mut cx.consts))),
            ("roots", J::Arr(roots)),
            ("serde", serde_roots),
            ("monos", mono_roots),
            ("iters", iter_roots),
            ("insts", J::Arr(std::mem::take(&mut cx.insts))),
        ]);
        let mut text = String::with_capacity(64 << 20);
        out.write(&mut text);
        std::fs::write(&self.out, text).expect("write facts");
        Compilation::Continue
    }
}

struct Nop;
impl rustc_driver::Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the real rustc as the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let krate = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("VERIF_CRATE").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if krate == want && !is_test && !want.is_empty() {
        for a in ["-Awarnings", "-Zmir-opt-level=0", "-Coverflow-checks=yes", "-Cdebug-assertions=no", "-Zalways-encode-mir"] {
            args.push(a.to_string());
        }
        let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
