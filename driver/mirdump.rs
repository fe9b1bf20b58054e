//! rustc driver that writes the type-checked program of the crate being
//! compiled (MIR of every local body, plus the MIR of the generic standard
//! library combinators those bodies use) to JSON for the analyses in
//! /verif/analysis.  It never executes the program.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_const_eval::const_eval::mk_eval_cx_for_const_val;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn jopt(s: Option<String>) -> String {
    match s {
        Some(s) => s,
        None => "null".into(),
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(String, Instance<'tcx>, DefId, Option<mir::Promoted>)>,
    seen: HashSet<String>,
    fns: BTreeMap<String, String>,
    adts: BTreeMap<String, String>,
    adt_seen: HashSet<DefId>,
    external: BTreeSet<String>,
    tystr: HashMap<Ty<'tcx>, String>,
}

/// Generic std items whose bodies are analysed like local code.
const LOOK_THROUGH: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::",
    "core::ops::try_trait::", "core::ops::control_flow::", "std::ops::ControlFlow",
    "core::convert::", "std::convert::", "core::bool::", "std::bool::",
    "core::cmp::", "std::cmp::",
];

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        if let Some(s) = self.tystr.get(&t) {
            return s.clone();
        }
        let s = js(&with_no_trimmed_paths!(t.to_string()));
        self.tystr.insert(t, s.clone());
        s
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        if sp.is_dummy() {
            return "?".into();
        }
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn note_adt(&mut self, def: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(def.did()) {
            return;
        }
        let tcx = self.tcx;
        let mut vs = vec![];
        let discrs: Vec<(VariantIdx, u128)> = if def.is_enum() {
            def.discriminants(tcx).map(|(i, d)| (i, d.val)).collect()
        } else {
            def.variants().indices().map(|i| (i, 0)).collect()
        };
        for (i, d) in discrs {
            let v = &def.variants()[i];
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let vis = if f.vis.is_public() { "pub" } else { "priv" };
                fs.push(format!("[{},{},{}]", js(f.name.as_str()), js(&with_no_trimmed_paths!(t.to_string())), js(vis)));
            }
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", js(v.name.as_str()), js(&d.to_string()), arr(fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let s = format!(
            "{{\"kind\":{},\"local\":{},\"span\":{},\"variants\":{}}}",
            js(kind),
            def.did().is_local(),
            js(&self.span(tcx.def_span(def.did()))),
            arr(vs)
        );
        let p = self.path(def.did());
        self.adts.insert(p, s);
    }

    // -------------------------------------------------------- constants
    fn constval(&mut self, val: mir::ConstValue, ty: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let (ecx, op) = mk_eval_cx_for_const_val(self.tcx.at(DUMMY_SP), env, val, ty)?;
        self.opval(&ecx, &op, 0)
    }
    fn opval(
        &mut self,
        ecx: &rustc_const_eval::const_eval::CompileTimeInterpCx<'tcx>,
        op: &rustc_const_eval::interpret::OpTy<'tcx>,
        depth: usize,
    ) -> Option<String> {
        use rustc_const_eval::interpret::Projectable;
        if depth > 12 {
            return None;
        }
        let tcx = self.tcx;
        let ty = op.layout.ty;
        let tys = self.ty(ty);
        match ty.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = ecx.read_scalar(op).discard_err()?;
                let int = sc.try_to_scalar_int().ok()?;
                let s = match ty.kind() {
                    ty::Int(_) => int.to_int(int.size()).to_string(),
                    _ => int.to_bits_unchecked().to_string(),
                };
                Some(format!("{{\"k\":\"int\",\"ty\":{},\"v\":{}}}", tys, js(&s)))
            }
            ty::Float(_) => Some(format!("{{\"k\":\"float\",\"ty\":{}}}", tys)),
            ty::Ref(_, inner, _) => {
                let place = ecx.deref_pointer(op).discard_err()?;
                if inner.is_str() {
                    let s = ecx.read_str(&place).discard_err()?.to_string();
                    return Some(format!("{{\"k\":\"str\",\"v\":{}}}", js(&s)));
                }
                let o = rustc_const_eval::interpret::OpTy::from(place);
                let v = self.opval(ecx, &o, depth + 1)?;
                Some(format!("{{\"k\":\"ref\",\"v\":{}}}", v))
            }
            ty::Str => None,
            ty::Array(..) | ty::Slice(..) => {
                let n = op.len(ecx).discard_err()?;
                if n > 4096 {
                    return None;
                }
                let mut v = vec![];
                for i in 0..n {
                    let f = ecx.project_index(op, i).discard_err()?;
                    v.push(self.opval(ecx, &f, depth + 1)?);
                }
                Some(format!("{{\"k\":\"array\",\"ty\":{},\"v\":{}}}", tys, arr(v)))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let f = ecx.project_field(op, FieldIdx::from_usize(i)).discard_err()?;
                    v.push(self.opval(ecx, &f, depth + 1)?);
                }
                Some(format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(v)))
            }
            ty::Adt(def, _) if !def.is_union() => {
                if def.variants().is_empty() {
                    return None;
                }
                self.note_adt(*def);
                let vi = if def.is_enum() { ecx.read_discriminant(op).discard_err()? } else { VariantIdx::from_u32(0) };
                let down = if def.is_enum() { ecx.project_downcast(op, vi).discard_err()? } else { op.clone() };
                let var = &def.variants()[vi];
                let mut v = vec![];
                for i in 0..var.fields.len() {
                    let f = ecx.project_field(&down, FieldIdx::from_usize(i)).discard_err()?;
                    let fv = match self.opval(ecx, &f, depth + 1) {
                        Some(x) => x,
                        None => {
                            let t = self.ty(f.layout.ty);
                            format!("{{\"k\":\"opaque\",\"ty\":{},\"v\":\"field\"}}", t)
                        }
                    };
                    v.push(arr(vec![js(var.fields[FieldIdx::from_usize(i)].name.as_str()), fv]));
                }
                let p = self.path(def.did());
                Some(format!("{{\"k\":\"adt\",\"adt\":{},\"variant\":{},\"ty\":{},\"v\":{}}}", js(&p), js(var.name.as_str()), tys, arr(v)))
            }
            ty::FnDef(d, args) => {
                let _ = (d, args, tcx);
                None
            }
            _ => None,
        }
    }
    fn constant(&mut self, c: &mir::Const<'tcx>, env: TypingEnv<'tcx>, root: DefId, has_params: bool) -> String {
        let ty = c.ty();
        if let ty::FnDef(d, args) = ty.kind() {
            return format!("{{\"k\":\"fn\",\"v\":{}}}", self.callee(*d, args.no_bound_vars().unwrap_or(args.skip_binder()), env, root, has_params));
        }
        let tys = self.ty(ty);
        let name = match c {
            mir::Const::Unevaluated(u, _) => Some((u.def, u.args, u.promoted)),
            _ => None,
        };
        let nm = match name {
            Some((d, _, None)) => js(&self.path(d)),
            _ => "null".into(),
        };
        let mut out = None;
        if let Ok(v) = c.eval(self.tcx, env, DUMMY_SP) {
            out = self.constval(v, ty, env);
        }
        match out {
            Some(mut s) => {
                if nm != "null" {
                    s.pop();
                    s.push_str(&format!(",\"name\":{}}}", nm));
                }
                s
            }
            None => {
                if let Some((d, args, Some(p))) = name {
                    let inst = Instance { def: InstanceKind::Item(d), args };
                    let key = format!("{}::promoted[{}]", self.ikey(inst, root, has_params), p.as_usize());
                    self.enqueue(key.clone(), inst, root, Some(p));
                    return format!("{{\"k\":\"promoted\",\"ty\":{},\"v\":{}}}", tys, js(&key));
                }
                let txt = with_no_trimmed_paths!(format!("{}", c));
                format!("{{\"k\":\"opaque\",\"ty\":{},\"v\":{},\"name\":{}}}", tys, js(&txt), nm)
            }
        }
    }

    // ---------------------------------------------------------- callees
    fn ikey(&self, i: Instance<'tcx>, root: DefId, has_params: bool) -> String {
        let s = with_no_trimmed_paths!(format!("{}", i));
        let s = match i.def {
            InstanceKind::Item(_) => s,
            _ => format!("{}", s),
        };
        if has_params && i.args.has_param() {
            format!("{} #{}", s, self.path(root))
        } else {
            s
        }
    }
    fn enqueue(&mut self, key: String, i: Instance<'tcx>, root: DefId, p: Option<mir::Promoted>) {
        if self.seen.insert(key.clone()) {
            self.queue.push_back((key, i, root, p));
        }
    }
    fn wants_body(&self, d: DefId) -> bool {
        if d.is_local() {
            return self.tcx.is_mir_available(d);
        }
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        let mut p = self.path(d);
        // impl items print as `<T as Trait>::m`; use the definition location too
        let dp = self.tcx.def_path(d).to_string_no_crate_verbose();
        let krate = self.tcx.crate_name(d.krate).to_string();
        p = p.trim_start_matches('<').to_string();
        let full = format!("{}{}", krate, dp);
        LOOK_THROUGH.iter().any(|l| full.starts_with(l) || p.starts_with(l))
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, root: DefId, has_params: bool) -> String {
        let tcx = self.tcx;
        let def = self.path(d);
        let targs: Vec<String> = args.types().map(|t| self.ty(t)).collect();
        let cargs: Vec<String> = args.consts().map(|c| js(&with_no_trimmed_paths!(c.to_string()))).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| js(&self.path(t)));
        let imp = tcx.impl_of_assoc(d).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| js(&with_no_trimmed_paths!(t.skip_binder().to_string())));
        let kind = tcx.def_kind(d);
        let ctor = match kind {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                let (adt, v) = match tcx.def_kind(parent) {
                    DefKind::Variant => (tcx.parent(parent), parent),
                    _ => (parent, parent),
                };
                self.note_adt(tcx.adt_def(adt));
                Some(format!("[{},{}]", js(&self.path(adt)), js(tcx.item_name(v).as_str())))
            }
            _ => None,
        };
        let mut res = "null".to_string();
        if ctor.is_none() {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                res = self.resolved(inst, env, root, has_params);
            }
        }
        format!(
            "{{\"def\":{},\"targs\":{},\"cargs\":{},\"trait\":{},\"impl\":{},\"ctor\":{},\"local\":{},\"res\":{}}}",
            js(&def),
            arr(targs),
            arr(cargs),
            jopt(tr),
            jopt(imp),
            jopt(ctor),
            d.is_local(),
            res
        )
    }
    fn resolved(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId, has_params: bool) -> String {
        let tcx = self.tcx;
        let p = self.path(inst.def_id());
        let it = with_no_trimmed_paths!(format!("{}", inst));
        let (kind, extra): (&str, String) = match inst.def {
            InstanceKind::Item(d) => {
                let closure = tcx.is_closure_like(d);
                let mut e = String::new();
                if self.wants_body(d) {
                    let key = self.ikey(inst, root, has_params);
                    self.enqueue(key.clone(), inst, root, None);
                    e = format!(",\"key\":{}", js(&key));
                } else {
                    self.external.insert(it.clone());
                }
                let imp = tcx.impl_of_assoc(d).map(|i| {
                    let derived = tcx.is_automatically_derived(i);
                    let tr = tcx.impl_opt_trait_ref(i).map(|t| with_no_trimmed_paths!(t.skip_binder().to_string()));
                    (derived, tr)
                });
                if let Some((der, tr)) = imp {
                    e.push_str(&format!(",\"derived\":{}", der));
                    if let Some(t) = tr {
                        e.push_str(&format!(",\"implof\":{}", js(&t)));
                    }
                }
                (if closure { "closure" } else { "item" }, e)
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => ("intrinsic", String::new()),
            InstanceKind::Virtual(..) => ("virtual", String::new()),
            InstanceKind::Shim(sh) => match sh {
                ShimKind::ClosureOnce { closure, .. } => {
                    // args of the closure instance are those of the closure type
                    let cty = inst.args.type_at(0);
                    let mut e = String::new();
                    if let ty::Closure(cd, cargs) = cty.kind() {
                        let ci = Instance { def: InstanceKind::Item(*cd), args: cargs };
                        if self.wants_body(*cd) {
                            let key = self.ikey(ci, root, has_params);
                            self.enqueue(key.clone(), ci, root, None);
                            e = format!(",\"key\":{}", js(&key));
                        }
                    }
                    let _ = closure;
                    ("closure_once", e)
                }
                ShimKind::FnPtr(_, t) => {
                    let e = if let ty::FnDef(fd, fargs) = t.kind() {
                        format!(",\"fn\":{}", self.callee(*fd, fargs.no_bound_vars().unwrap_or(fargs.skip_binder()), env, root, has_params))
                    } else {
                        String::new()
                    };
                    ("fnptr", e)
                }
                ShimKind::Clone(..) => ("clone", String::new()),
                ShimKind::DropGlue(..) => ("dropglue", String::new()),
                _ => ("shim", String::new()),
            },
        };
        format!("{{\"kind\":{},\"path\":{},\"inst\":{}{}}}", js(kind), js(&p), js(&it), extra)
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &mir::Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(*def);
                            let vi = pt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                            def.variants()[vi].fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"f\",{}]", js(&name))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            self.note_adt(*def);
                            def.variants()[vi].name.to_string()
                        }
                        _ => vi.as_usize().to_string(),
                    };
                    format!("[\"v\",{}]", js(&name))
                }
                _ => "[\"?\"]".to_string(),
            };
            pr.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }
    fn operand(&mut self, o: &mir::Operand<'tcx>, cx: &Cx<'_, 'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p, cx.body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, cx.body)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(&c.const_, cx.env, cx.root, cx.has_params)),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".into(),
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, cx: &Cx<'_, 'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, cx)),
            Rvalue::Repeat(o, c) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, cx),
                js(&c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or_else(|| c.to_string()))
            ),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", if matches!(k, BorrowKind::Mut { .. }) { "\"mut\"" } else { "\"shared\"" }, self.place(p, cx.body)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p, cx.body)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c, _) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                let from = o.ty(&cx.body.local_decls, self.tcx);
                let f = self.ty(from);
                let t = self.ty(*t);
                let o = self.operand(o, cx);
                format!("[\"cast\",{},{},{},{}]", js(&ks), o, f, t)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&cx.body.local_decls, self.tcx);
                let t = self.ty(t);
                let x = self.operand(&ops.0, cx);
                let y = self.operand(&ops.1, cx);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", b)), x, y, t)
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&cx.body.local_decls, self.tcx);
                let t = self.ty(t);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", u)), self.operand(o, cx), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&cx.body.local_decls, self.tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(d, _) => {
                        self.note_adt(*d);
                        js(&self.path(d.did()))
                    }
                    _ => "null".into(),
                };
                format!("[\"discr\",{},{}]", self.place(p, cx.body), adt)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, cx)).collect();
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"array\",{},{}]", t, arr(os))
                    }
                    AggregateKind::Tuple => format!("[\"tuple\",{}]", arr(os)),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.note_adt(def);
                        let v = &def.variants()[*vi];
                        let names: Vec<String> = match active {
                            Some(f) => vec![js(v.fields[*f].name.as_str())],
                            None => v.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        let p = self.path(*d);
                        let targs: Vec<String> = args.types().map(|t| self.ty(t)).collect();
                        format!("[\"adt\",{},{},{},{},{}]", js(&p), js(v.name.as_str()), arr(names), arr(os), arr(targs))
                    }
                    AggregateKind::Closure(d, args) => {
                        let ci = Instance { def: InstanceKind::Item(*d), args };
                        let key = self.ikey(ci, cx.root, cx.has_params);
                        if self.wants_body(*d) {
                            self.enqueue(key.clone(), ci, cx.root, None);
                        }
                        format!("[\"closure\",{},{}]", js(&key), arr(os))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{}]", arr(os)),
                    _ => format!("[\"unk\",{}]", js(&format!("{:?}", r))),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p, cx.body)),
            _ => format!("[\"unk\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn terminator(&mut self, t: &mir::Terminator<'tcx>, cx: &Cx<'_, 'tcx>) -> String {
        let sp = js(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(&cx.body.local_decls, self.tcx);
                let ty = self.ty(ty);
                let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_usize())).collect();
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, cx), arr(vs), targets.otherwise().as_usize(), ty, sp)
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&cx.body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"drop\",{},{},{}]", self.place(place, cx.body), target.as_usize(), t)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&cx.body.local_decls, self.tcx);
                let f = match fty.kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap_or(a.skip_binder()), cx.env, cx.root, cx.has_params),
                    _ => format!("{{\"ptr\":{}}}", self.operand(func, cx)),
                };
                let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, cx)).collect();
                let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&cx.body.local_decls, self.tcx); self.ty(t) }).collect();
                let dt = destination.ty(&cx.body.local_decls, self.tcx).ty;
                let dt = self.ty(dt);
                format!(
                    "[\"call\",{},{},{},{},{},{},{}]",
                    f,
                    arr(a),
                    self.place(destination, cx.body),
                    target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                    sp,
                    dt,
                    arr(at)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops): (&str, Vec<&mir::Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                    AssertKind::Overflow(b, x, y) => {
                        let k: &'static str = match b {
                            BinOp::Add => "overflow_add",
                            BinOp::Sub => "overflow_sub",
                            BinOp::Mul => "overflow_mul",
                            BinOp::Div => "overflow_div",
                            BinOp::Rem => "overflow_rem",
                            BinOp::Shl => "overflow_shl",
                            BinOp::Shr => "overflow_shr",
                            _ => "overflow",
                        };
                        (k, vec![x, y])
                    }
                    AssertKind::OverflowNeg(x) => ("overflow_neg", vec![x]),
                    AssertKind::DivisionByZero(x) => ("div_zero", vec![x]),
                    AssertKind::RemainderByZero(x) => ("rem_zero", vec![x]),
                    _ => ("other", vec![]),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, cx)).collect();
                let oty = ops.first().map(|o| { let t = o.ty(&cx.body.local_decls, self.tcx); self.ty(t) }).unwrap_or("null".into());
                format!("[\"assert\",{},{},{},{},{},{},{}]", self.operand(cond, cx), expected, js(k), arr(os), target.as_usize(), sp, oty)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            k => format!("[\"unkterm\",{}]", js(&format!("{:?}", k))),
        }
    }
    fn body(&mut self, key: &str, inst: Instance<'tcx>, root: DefId, promoted: Option<mir::Promoted>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let env = TypingEnv::post_analysis(tcx, root);
        let has_params = tcx.generics_of(root).requires_monomorphization(tcx);
        let body: Body<'tcx> = match promoted {
            Some(p) => tcx.promoted_mir(did)[p].clone(),
            None => tcx.instance_mir(inst.def).clone(),
        };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, body)) {
            Ok(b) => b,
            Err(_) => return,
        };
        let cx = Cx { body: &body, env, root, has_params };
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(format!("[{},{}]", t, jopt(names.get(&l.as_usize()).map(|n| js(n)))));
        }
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            if b.is_cleanup {
                blocks.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let sp = js(&self.span(s.source_info.span));
                        let pl = self.place(&x.0, &body);
                        let rv = self.rvalue(&x.1, &cx);
                        st.push(format!("[\"=\",{},{},{}]", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        if let ty::Adt(d, _) = t.kind() {
                            let v = d.variants()[*variant_index].name.to_string();
                            let p = self.path(d.did());
                            st.push(format!("[\"setd\",{},{},{}]", self.place(place, &body), js(&p), js(&v)));
                        }
                    }
                    StatementKind::StorageLive(l) => st.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let term = self.terminator(b.terminator(), &cx);
            blocks.push(format!("[{},{}]", arr(st), term));
        }
        let closure_kind = if tcx.is_closure_like(did) && promoted.is_none() {
            let t = body.local_decls[mir::Local::from_usize(1)].ty;
            js(if t.is_ref() { "ref" } else { "value" })
        } else {
            "null".into()
        };
        let derived = tcx.impl_of_assoc(did).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
        let implof = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| js(&with_no_trimmed_paths!(t.skip_binder().to_string())));
        let spread = body.spread_arg.map(|l| l.as_usize().to_string());
        let s = format!(
            "{{\"path\":{},\"local\":{},\"span\":{},\"argc\":{},\"locals\":{},\"blocks\":{},\"closure\":{},\"derived\":{},\"implof\":{},\"spread\":{}}}",
            js(&self.path(did)),
            did.is_local(),
            js(&self.span(tcx.def_span(did))),
            body.arg_count,
            arr(locals),
            arr(blocks),
            closure_kind,
            derived,
            jopt(implof),
            jopt(spread)
        );
        self.fns.insert(key.to_string(), s);
    }
}

struct Cx<'a, 'tcx> {
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
    has_params: bool,
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut d = Dump {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            fns: BTreeMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            external: BTreeSet::new(),
            tystr: HashMap::new(),
        };
        let mut roots = vec![];
        let ev = tcx.effective_visibilities(());
        for &ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let inst = Instance { def: InstanceKind::Item(did), args };
            let has_params = tcx.generics_of(did).requires_monomorphization(tcx);
            let key = d.ikey(inst, did, has_params);
            d.enqueue(key.clone(), inst, did, None);
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
            let sig = with_no_trimmed_paths!(sig.to_string());
            let implof = tcx.impl_of_assoc(did).and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| js(&with_no_trimmed_paths!(t.skip_binder().to_string())));
            let selfty = tcx.impl_of_assoc(did).map(|i| js(&with_no_trimmed_paths!(tcx.type_of(i).skip_binder().to_string())));
            let name = tcx.item_name(did).to_string();
            let derived = tcx.impl_of_assoc(did).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false);
            roots.push(format!(
                "{{\"key\":{},\"path\":{},\"name\":{},\"implof\":{},\"selfty\":{},\"pub\":{},\"sig\":{},\"derived\":{},\"span\":{}}}",
                js(&key),
                js(&d.path(did)),
                js(&name),
                jopt(implof),
                jopt(selfty),
                ev.is_reachable(ld),
                js(&sig),
                derived,
                js(&d.span(tcx.def_span(did)))
            ));
        }
        // ADTs defined here even if never touched by a body
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(did);
                d.note_adt(a);
            }
        }
        while let Some((k, i, r, p)) = d.queue.pop_front() {
            d.body(&k, i, r, p);
        }
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()) {
            for i in is {
                let t = with_no_trimmed_paths!(tcx.type_of(i.to_def_id()).skip_binder().to_string());
                let full = with_no_trimmed_paths!(tcx.impl_opt_trait_ref(i.to_def_id()).map(|t| t.skip_binder().to_string()).unwrap_or_default());
                impls.push(format!("[{},{},{},{}]", js(&d.path(*tr)), js(&t), js(&full), tcx.is_automatically_derived(i.to_def_id())));
            }
        }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        let fns: Vec<String> = d.fns.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let ext: Vec<String> = d.external.iter().map(|s| js(s)).collect();
        let s = format!(
            "{{\"crate\":{},\"bin\":{},\"roots\":[\n{}\n],\"impls\":{},\"adts\":{{\n{}\n}},\"external\":{},\"fns\":{{\n{}\n}}}}",
            js(&krate),
            is_bin,
            roots.join(",\n"),
            arr(impls),
            adts.join(",\n"),
            arr(ext),
            fns.join(",\n")
        );
        let f = format!("{}/{}{}.json", self.out, krate, if is_bin { ".bin" } else { "" });
        std::fs::write(&f, s).expect("write dump");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as: wrapper rustc <args>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let dump = !out.is_empty() && args.iter().any(|a| a == "--crate-name") && !args.iter().any(|a| a == "build_script_build" || a == "--test" || a.starts_with("--print"));
    if dump {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Awarnings".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
