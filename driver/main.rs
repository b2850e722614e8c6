//! Fact extractor: a rustc driver that dumps the type-checked program
//! (ADTs, impls, constants and one MIR body per function, with every call
//! resolved) as JSON lines.  It decides nothing: the analyses under
//! /verif/analysis read the dump.  Run by scripts/facts.py as
//! RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(s: Option<String>) -> String {
    s.map(|s| esc(&s)).unwrap_or_else(|| "null".into())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_lines: Vec<String>,
    root: String,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", krate, p).replace("{impl#", "{impl#")
        } else {
            p
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_lines.len();
        self.ty_lines.push(String::new());
        self.tys.insert(t, i);
        let j = match t.kind() {
            ty::Adt(def, args) => {
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", esc(&self.path(def.did())), arr(a))
            }
            ty::Ref(_, inner, m) => {
                let x = self.ty(*inner);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::RawPtr(inner, m) => {
                let x = self.ty(*inner);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::Slice(inner) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*inner)),
            ty::Array(inner, n) => {
                let x = self.ty(*inner);
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", x, esc(&format!("{n}")))
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(a))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"p\":{}}}", esc(p.name.as_str())),
            ty::FnDef(d, args) => {
                let a: Vec<String> = args.no_bound_vars().map(|args| args.types().map(|x| self.ty(x).to_string()).collect()).unwrap_or_default();
                format!("{{\"k\":\"fndef\",\"p\":{},\"a\":{}}}", esc(&self.path(*d)), arr(a))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"closure\",\"p\":{},\"u\":{}}}", esc(&self.path(*d)), arr(ups))
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{}}}", esc(&with_no_trimmed_paths!(format!("{t}")))),
            ty::Dynamic(preds, ..) => {
                let ps: Vec<String> = preds
                    .iter()
                    .filter_map(|p| match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(tr) => Some(esc(&self.path(tr.def_id))),
                        ty::ExistentialPredicate::AutoTrait(d) => Some(esc(&self.path(d))),
                        _ => None,
                    })
                    .collect();
                format!("{{\"k\":\"dyn\",\"p\":{}}}", arr(ps))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("{{\"k\":\"prim\",\"p\":{}}}", esc(&format!("{t}")))
            }
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&with_no_trimmed_paths!(format!("{t}")))),
        };
        self.ty_lines[i] = j;
        i
    }

    fn file_line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        let f = f.strip_prefix(&self.root).unwrap_or(&f).trim_start_matches('/').to_string();
        (f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        self.file_line(sp).1
    }
    fn mac(&self, sp: Span) -> Option<String> {
        // every enclosing macro, innermost first
        let mut out: Vec<String> = vec![];
        let mut ctxt = sp.ctxt();
        let mut n = 0;
        while !ctxt.is_root() && n < 16 {
            let d = ctxt.outer_expn_data();
            match d.kind {
                ExpnKind::Macro(_, name) => out.push(name.to_string()),
                ExpnKind::Desugaring(k) => out.push(format!("~{}", k.descr().replace('`', ""))),
                _ => {}
            }
            ctxt = d.call_site.ctxt();
            n += 1;
        }
        if out.is_empty() { None } else { Some(out.join("<")) }
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut js = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (nm, owner) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::VariantIdx::from_u32(0),
                            };
                            let name = if def.is_enum() || def.is_struct() || def.is_union() {
                                def.variants().get(v).and_then(|vd| vd.fields.get(f)).map(|fd| fd.name.to_string())
                            } else {
                                None
                            };
                            (name, Some(self.path(def.did())))
                        }
                        ty::Closure(d, _) => (Some(format!("upvar{}", f.index())), Some(self.path(*d))),
                        _ => (None, None),
                    };
                    format!("[\"f\",{},{},{}]", f.index(), opt(nm), opt(owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) => {
                    let name = match (n, pt.ty.kind()) {
                        (Some(n), _) => n.to_string(),
                        (None, ty::Adt(def, _)) => def.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    format!("[\"d\",{},{}]", v.index(), esc(&name))
                }
                _ => "[\"o\"]".to_string(),
            };
            js.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        format!("[{},{}]", p.local.index(), arr(js))
    }

    fn konst(&mut self, body_id: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = format!("[\"c\",{{\"t\":{}", tid);
        let te = TypingEnv::post_analysis(tcx, body_id);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap();
            let _ = write!(o, ",\"fn\":{}", self.callee(body_id, *d, args));
        } else {
            if let mir::Const::Unevaluated(u, _) = c.const_ {
                let _ = write!(o, ",\"k\":{}", esc(&self.path(u.def)));
                if let Some(p) = u.promoted {
                    let _ = write!(o, ",\"pr\":{}", p.index());
                }
            }
            if t.is_integral() || t.is_bool() || t.is_char() {
                if let Some(s) = c.const_.try_eval_scalar_int(tcx, te) {
                    let v = if t.is_signed() {
                        format!("{}", s.to_int(s.size()))
                    } else {
                        format!("{}", s.to_uint(s.size()))
                    };
                    let _ = write!(o, ",\"v\":{}", v);
                }
            } else if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Ok(v) = c.const_.eval(tcx, te, rustc_span::DUMMY_SP) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
            }
            if let mir::Const::Val(ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
                let aid = p.provenance.alloc_id();
                if let Some(mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                    let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
                }
            }
        }
        o.push_str("}]");
        o
    }

    fn operand(&mut self, id: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, p)),
            Operand::Constant(c) => self.konst(id, c),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn callee(&mut self, body_id: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, body_id);
        let mut o = format!("{{\"p\":{}", esc(&self.path(d)));
        let ga: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"ga\":{}", arr(ga));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(tr)));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        match Instance::try_resolve(tcx, te, d, args_e) {
            Ok(Some(inst)) => {
                let (k, rd) = match inst.def {
                    ty::InstanceKind::Item(x) => ("item", Some(x)),
                    ty::InstanceKind::Virtual(x, _) => ("virtual", Some(x)),
                    ty::InstanceKind::Intrinsic(x) => ("intrinsic", Some(x)),
                    other => ("shim", Some(other.def_id())),
                };
                let _ = write!(o, ",\"rk\":\"{}\"", k);
                if let Some(rd) = rd {
                    let _ = write!(o, ",\"r\":{}", esc(&self.path(rd)));
                }
                if k == "shim" {
                    // closure/fn-pointer shims: name the closure in the self type
                    if let Some(t0) = args_e.types().next() {
                        if let ty::Closure(cd, _) = t0.kind() {
                            let _ = write!(o, ",\"clo\":{}", esc(&self.path(*cd)));
                        } else if let ty::FnDef(fd, _) = t0.kind() {
                            let _ = write!(o, ",\"clo\":{}", esc(&self.path(*fd)));
                        }
                    }
                }
            }
            _ => {
                o.push_str(",\"rk\":\"generic\"");
            }
        }
        o.push('}');
        o
    }

    fn rvalue(&mut self, id: DefId, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(id, body, op)),
            Rvalue::Repeat(op, n) => format!("[\"repeat\",{},{}]", self.operand(id, body, op), esc(&format!("{n}"))),
            Rvalue::Ref(_, k, p) => {
                let ks = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                format!("[\"ref\",\"{}\",{}]", ks, self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", esc(&format!("{k:?}")), self.place(body, p)),
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(id, body, op);
                let tid = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), o, tid)
            }
            Rvalue::BinaryOp(b, ops) => {
                let a = self.operand(id, body, &ops.0);
                let c = self.operand(id, body, &ops.1);
                format!("[\"bin\",\"{:?}\",{},{}]", b, a, c)
            }
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(id, body, op)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tid = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, p), tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(id, body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> = if let Some(f) = af {
                            vec![esc(vd.fields[*f].name.as_str())]
                        } else {
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect()
                        };
                        format!(
                            "{{\"k\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"f\":{}}}",
                            esc(&self.path(*d)),
                            v.index(),
                            esc(vd.name.as_str()),
                            arr(names)
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"p\":{}}}", esc(&self.path(*d))),
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", kj, arr(os))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, p)),
            other => {
                // wrappers that hold one operand (unsafe binders and the like)
                format!("[\"other\",{}]", esc(&format!("{other:?}")))
            }
        }
    }

    fn body(&mut self, id: DefId, body: &Body<'tcx>) -> String {
        let mut o = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert_with(|| v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                format!("[{},{}]", t, opt(names.get(&l.index()).cloned()))
            })
            .collect();
        let _ = write!(o, "\"argc\":{},\"locals\":{},\"bbs\":[", body.arg_count, arr(ls));
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let l = self.line(s.source_info.span);
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(id, body, &b.1);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, l));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        ss.push(format!("[\"sd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = t.source_info.span;
            let (l, m) = (self.line(sp), opt(self.mac(sp)));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let od = self.operand(id, body, discr);
                    let tid = {
                        let t = discr.ty(&body.local_decls, self.tcx);
                        self.ty(t)
                    };
                    let vs: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    format!("[\"switch\",{},{},{},{},{},{}]", od, tid, arr(vs), targets.otherwise().index(), l, m)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let tid = self.ty(t);
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.index(), tid)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            ty::FnDef(d, ga) => { let ga = ga.no_bound_vars().unwrap(); self.callee(id, *d, ga) }
                            _ => "{\"ptr\":null}".to_string(),
                        },
                        other => format!("{{\"ptr\":{}}}", self.operand(id, body, other)),
                    };
                    let aj: Vec<String> = args.iter().map(|a| self.operand(id, body, &a.node)).collect();
                    let dj = self.place(body, destination);
                    let u = match unwind {
                        UnwindAction::Cleanup(b) => b.index().to_string(),
                        _ => "null".to_string(),
                    };
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        f,
                        arr(aj),
                        dj,
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()),
                        l,
                        m,
                        u
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(id, body, cond);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, a, b) => {
                            let t = a.ty(&body.local_decls, self.tcx);
                            let tid = self.ty(t);
                            let a = self.operand(id, body, a);
                            let b = self.operand(id, body, b);
                            format!("overflow:{:?}\",{},{},{},\"", op, tid, a, b)
                        }
                        AssertKind::OverflowNeg(a) => {
                            let t = a.ty(&body.local_decls, self.tcx);
                            let tid = self.ty(t);
                            let a = self.operand(id, body, a);
                            format!("overflow:Neg\",{},{},null,\"", tid, a)
                        }
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{},[\"{}\"]]", c, expected, target.index(), l, m, k)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                _ => "[\"unreach\"]".to_string(),
            };
            let _ = write!(o, "{{\"s\":{},\"t\":{}{}}}", arr(ss), tj, if bb.is_cleanup { ",\"c\":1" } else { "" });
        }
        o.push(']');
        o
    }

    fn adt(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    format!("[{},{}]", esc(f.name.as_str()), self.ty(t))
                })
                .collect();
            let dv = if def.is_enum() { format!("{}", def.discriminant_for_variant(tcx, vi).val) } else { "0".into() };
            vs.push(format!("[{},{},{}]", esc(v.name.as_str()), dv, arr(fs)));
        }
        let (f, l) = self.file_line(tcx.def_span(d));
        let gens: Vec<String> = tcx.generics_of(d).own_params.iter().filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type{..})).map(|p| esc(p.name.as_str())).collect();
        format!(
            "{{\"R\":\"adt\",\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"gen\":{},\"vars\":{}}}",
            esc(&self.path(d)),
            esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
            esc(&f),
            l,
            arr(gens),
            arr(vs)
        )
    }
}

struct Cb {
    out: String,
    root: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_lines: vec![], root: self.root.clone() };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{t:?}").contains("Executable"));
        let file = format!("{}/{}{}.jsonl", self.out, krate, if is_bin { ".bin" } else { "" });
        let tmp = format!("{file}.tmp");
        let mut w = std::io::BufWriter::new(std::fs::File::create(&tmp).expect("facts file"));
        let mut seen: HashMap<String, usize> = HashMap::new();
        let mut nf = 0usize;
        // ADTs, impls, traits, constants
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let s = cx.adt(d);
                    writeln!(w, "{s}").unwrap();
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let (tr, ta) = if of_trait {
                        let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let ta: Vec<String> = r.args.types().skip(1).map(|t| cx.ty(t).to_string()).collect();
                        (Some(cx.path(r.def_id)), ta)
                    } else {
                        (None, vec![])
                    };
                    let (f, l) = cx.file_line(tcx.def_span(d));
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let kind = match it.kind { ty::AssocKind::Fn{..} => "fn", ty::AssocKind::Const{..} => "const", _ => "type" };
                        let ti = it.trait_item_def_id().map(|t| cx.path(t));
                        items.push(format!("[{},{},{},{}]", esc(it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(kind), esc(&cx.path(it.def_id)), opt(ti)));
                    }
                    writeln!(w, "{{\"R\":\"impl\",\"trait\":{},\"targs\":{},\"self\":{},\"file\":{},\"line\":{},\"derived\":{},\"items\":{}}}",
                        opt(tr), arr(ta), st, esc(&f), l, tcx.is_automatically_derived(d), arr(items)).unwrap();
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let hasd = it.defaultness(tcx).has_value();
                        items.push(format!("[{},{},{}]", esc(it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(&cx.path(it.def_id)), hasd));
                    }
                    writeln!(w, "{{\"R\":\"trait\",\"id\":{},\"items\":{}}}", esc(&cx.path(d)), arr(items)).unwrap();
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(t);
                    let (f, l) = cx.file_line(tcx.def_span(d));
                    let mut v = String::new();
                    let is_static = matches!(tcx.def_kind(d), DefKind::Static { .. });
                    if !is_static && tcx.generics_of(d).count() == 0 && tcx.is_mir_available(d) {
                        if let Ok(cv) = tcx.const_eval_poly(d) {
                            if t.is_integral() || t.is_bool() || t.is_char() {
                                if let Some(s) = cv.try_to_scalar_int() {
                                    v = if t.is_signed() { format!(",\"v\":{}", s.to_int(s.size())) } else { format!(",\"v\":{}", s.to_uint(s.size())) };
                                }
                            } else if let ty::Ref(_, inner, _) = t.kind() {
                                if inner.is_str() {
                                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                                        v = format!(",\"s\":{}", esc(&String::from_utf8_lossy(b)));
                                    }
                                }
                            }
                        }
                    }
                    writeln!(w, "{{\"R\":\"const\",\"id\":{},\"static\":{},\"t\":{},\"file\":{},\"line\":{}{}}}", esc(&cx.path(d)), is_static, tid, esc(&f), l, v).unwrap();
                }
                _ => {}
            }
        }
        // bodies
        for ld in tcx.mir_keys(()).iter() {
            let ld: LocalDefId = *ld;
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
            if !is_fn && !is_const {
                continue;
            }
            if is_fn && tcx.is_constructor(d) {
                continue;
            }
            let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let mut id = cx.path(d);
            let n = seen.entry(id.clone()).or_insert(0);
            *n += 1;
            if *n > 1 {
                id = format!("{id}#{n}");
            }
            let (f, l) = cx.file_line(body.span);
            let end = {
                let sm = tcx.sess.source_map();
                sm.lookup_char_pos(body.span.source_callsite().hi()).line
            };
            let mut s = format!("{{\"R\":\"fn\",\"id\":{},\"kind\":{},\"file\":{},\"line\":{},\"end\":{},\"mac\":{}", esc(&id), esc(if is_const { "const" } else if dk == DefKind::Closure { "closure" } else { "fn" }), esc(&f), l, end, opt(cx.mac(body.span)));
            if is_fn && dk != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
                let out = cx.ty(sig.output());
                let vis = tcx.visibility(d).is_public();
                let _ = write!(s, ",\"ins\":{},\"out\":{},\"pub\":{}", arr(ins), out, vis);
            }
            if dk == DefKind::AssocFn {
                let parent = tcx.parent(d);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    let st = cx.ty(st);
                    let _ = write!(s, ",\"self\":{}", st);
                    if of_trait {
                        let r = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"trait\":{}", esc(&cx.path(r.def_id)));
                    }
                    let _ = write!(s, ",\"derived\":{}", tcx.is_automatically_derived(parent));
                } else {
                    let _ = write!(s, ",\"intrait\":{}", esc(&cx.path(parent)));
                }
                let _ = write!(s, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            } else if dk == DefKind::Fn {
                let _ = write!(s, ",\"name\":{}", esc(tcx.item_name(d).as_str()));
            }
            if dk == DefKind::Closure {
                let _ = write!(s, ",\"parent\":{}", esc(&cx.path(tcx.typeck_root_def_id(d))));
                let mut ups = vec![];
                for cap in tcx.closure_captures(ld) {
                    ups.push(esc(&cap.to_string(tcx)));
                }
                let _ = write!(s, ",\"caps\":{}", arr(ups));
            }
            s.push(',');
            s.push_str(&cx.body(d, body));
            // promoteds: constants hoisted out of the body (e.g. &[...] literals)
            {
                let pr = tcx.promoted_mir(d);
                if !pr.is_empty() {
                    s.push_str(",\"promoted\":[");
                    for (i, b) in pr.iter().enumerate() {
                        if i > 0 { s.push(','); }
                        s.push('{');
                        s.push_str(&cx.body(d, b));
                        s.push('}');
                    }
                    s.push(']');
                }
            }
            s.push('}');
            writeln!(w, "{s}").unwrap();
            nf += 1;
        }
        let tys = cx.ty_lines.join(",");
        writeln!(w, "{{\"R\":\"types\",\"tys\":[{tys}]}}").unwrap();
        writeln!(w, "{{\"R\":\"end\",\"crate\":{},\"fns\":{}}}", esc(&krate), nf).unwrap();
        w.flush().unwrap();
        drop(w);
        std::fs::rename(&tmp, &file).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let targets = std::env::var("EUFACTS_CRATES").unwrap_or_default();
    let want = targets.split(',').any(|t| t == name);
    if want {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        let out = std::env::var("EUFACTS_OUT").expect("EUFACTS_OUT");
        let root = std::env::var("EUFACTS_ROOT").unwrap_or_default();
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out, root });
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
    }
}
