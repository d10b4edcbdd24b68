// A rustc driver that writes the type-checked MIR of the local crate (every body except
// pest's generated recogniser modules) as JSON to $VP_MIR_OUT.  Used through
// RUSTC_WORKSPACE_WRAPPER by `cargo +nightly check`; it behaves as plain rustc otherwise.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: impl IntoIterator<Item = String>) -> String {
    let mut o = String::from("[");
    for (i, x) in v.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x);
    }
    o.push(']');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    // unique key of a definition
    fn key(&self, d: DefId) -> String {
        if d.is_local() {
            format!("L{}", d.index.as_u32())
        } else {
            self.path(d)
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(js(&format!("{:?}", c))),
                _ => None,
            })
            .collect();
        arr(v)
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let did = def.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, String::new());
        let tcx = self.tcx;
        let mut vs = Vec::new();
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(tcx, i).val)
            } else {
                "0".into()
            };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = if did.is_local() {
                    let t = tcx.type_of(f.did).skip_binder();
                    self.ty(t).to_string()
                } else {
                    "-1".into()
                };
                fs.push(format!("[{},{}]", js(f.name.as_str()), t));
            }
            vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let local = did.is_local();
        let span = self.span(tcx.def_span(did));
        let s = format!(
            "{{\"path\":{},\"local\":{},\"kind\":\"{}\",\"box\":{},\"span\":{},\"vars\":{}}}",
            js(&self.path(did)), local, kind, def.is_box(), span, arr(vs)
        );
        self.adts.insert(did, s);
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(String::new());
        self.ty_ix.insert(t, i);
        let s = match t.kind() {
            ty::Bool => "{\"k\":\"bool\"}".to_string(),
            ty::Char => "{\"k\":\"char\"}".to_string(),
            ty::Str => "{\"k\":\"str\"}".to_string(),
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{{\"k\":\"num\",\"n\":{}}}", js(&format!("{:?}", t))),
            ty::Adt(def, args) => {
                self.adt(*def);
                let p = self.path(def.did());
                let a = self.args(args);
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":{}}}", js(&p), a)
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"array\",\"e\":{},\"n\":{}}}", e, js(&format!("{:?}", n)))
            }
            ty::Slice(e) => { let e = self.ty(*e); format!("{{\"k\":\"slice\",\"e\":{}}}", e) }
            ty::RawPtr(e, m) => { let e = self.ty(*e); format!("{{\"k\":\"ptr\",\"e\":{},\"m\":{}}}", e, m.is_mut()) }
            ty::Ref(_, e, m) => { let e = self.ty(*e); format!("{{\"k\":\"ref\",\"e\":{},\"m\":{}}}", e, m.is_mut()) }
            ty::FnDef(d, args) => {
                let p = self.path((*d).into());
                let k = self.key((*d).into());
                let a = self.args(args.skip_binder());
                format!("{{\"k\":\"fndef\",\"p\":{},\"key\":{},\"a\":{}}}", js(&p), js(&k), a)
            }
            ty::Closure(d, args) => {
                let k = self.key((*d).into());
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"closure\",\"key\":{},\"up\":{}}}", js(&k), arr(ups))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"n\":{}}}", js(&with_no_trimmed_paths!(format!("{}", t)))),
            _ => format!("{{\"k\":\"other\",\"n\":{}}}", js(&with_no_trimmed_paths!(format!("{}", t)))),
        };
        self.tys[i] = s;
        i
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        js(&format!("{}:{}", name, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_u32(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, i) => {
                    format!("[\"v\",{},{}]", i.as_u32(), js(n.map(|s| s.to_string()).unwrap_or_default().as_str()))
                }
                _ => format!("[\"o\",{}]", js(&format!("{:?}", e))),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }
    fn bytes_of(&self, id: interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let (s, e) = (off as usize, (off + len) as usize);
                if e > a.len() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }
    fn hex(b: &[u8]) -> String {
        let mut s = String::new();
        for x in b { let _ = write!(s, "{:02x}", x); }
        s
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let ti = self.ty(t);
        match v {
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
            ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                format!("{{\"c\":\"int\",\"v\":\"{}\",\"sz\":{},\"t\":{}}}", bits, i.size().bytes(), ti)
            }
            ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if let Some(GlobalAlloc::Static(d)) = self.tcx.try_get_global_alloc(prov.alloc_id()) {
                    return format!("{{\"c\":\"static\",\"p\":{},\"t\":{}}}", js(&self.path(d)), ti);
                }
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(e, n) = inner.kind() {
                        if let (ty::Uint(ty::UintTy::U8), Some(n)) = (e.kind(), n.try_to_target_usize(self.tcx)) {
                            if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), n) {
                                return format!("{{\"c\":\"bytes\",\"v\":\"{}\",\"t\":{}}}", Self::hex(&b), ti);
                            }
                        }
                    }
                }
                format!("{{\"c\":\"ptr\",\"t\":{}}}", ti)
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                            return format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", js(&String::from_utf8_lossy(&b)), ti);
                        }
                    }
                    if let ty::Slice(e) = inner.kind() {
                        if let ty::Uint(ty::UintTy::U8) = e.kind() {
                            if let Some(b) = self.bytes_of(alloc_id, 0, meta) {
                                return format!("{{\"c\":\"bytes\",\"v\":\"{}\",\"t\":{}}}", Self::hex(&b), ti);
                            }
                        }
                    }
                }
                format!("{{\"c\":\"slice\",\"t\":{}}}", ti)
            }
            ConstValue::Indirect { .. } => format!("{{\"c\":\"indirect\",\"t\":{}}}", ti),
        }
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_some() => {
                let ti = self.ty(t);
                return format!("{{\"c\":\"promoted\",\"key\":{},\"p\":{},\"t\":{}}}", js(&self.key(u.def)), u.promoted.unwrap().as_u32(), ti);
            }
            Const::Unevaluated(u, _) => {
                let ti = self.ty(t);
                if u.def.is_local() {
                    let a = self.args(u.args);
                    let p = self.path(u.def);
                    return format!("{{\"c\":\"item\",\"key\":{},\"p\":{},\"a\":{},\"t\":{}}}", js(&self.key(u.def)), js(&p), a, ti);
                }
            }
            _ => {}
        }
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.cval(v, t),
            Err(_) => {
                let ti = self.ty(t);
                format!("{{\"c\":\"unknown\",\"s\":{},\"t\":{}}}", js(&format!("{:?}", c.const_)), ti)
            }
        }
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(c)),
            _ => "[\"rc\"]".to_string(),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(o), js(&format!("{:?}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.op(o), t)
            }
            Rvalue::BinaryOp(b, x) => format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.op(&x.0), self.op(&x.1)),
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.op(x)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let fv: Vec<String> = fs.iter().map(|f| self.op(f)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, a, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(a);
                        format!("[\"adt\",{},{},{}]", js(&self.path(*d)), v.as_u32(), a)
                    }
                    AggregateKind::Closure(d, a) => format!("[\"closure\",{}]", js(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(fv))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, did: DefId, body: &Body<'tcx>, kind: &str, extra: &str) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", js(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let sp = self.span(s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", self.place(&a.0), self.rv(&a.1), sp))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_u32()))
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => ss.push(format!("[\"intr\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut exp = String::new();
            for e in t.source_info.span.macro_backtrace() {
                if !exp.is_empty() { exp.push(','); }
                exp.push_str(&e.kind.descr().to_string());
            }
            let tk = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tv: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.op(discr), dt, arr(tv), targets.otherwise().as_u32())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(place), target.as_u32()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let fs = match ft.kind() {
                        ty::FnDef(d, a) => {
                            let d: DefId = (*d).into();
                            let a = a.skip_binder();
                            let mut o = format!("{{\"p\":{},\"key\":{},\"a\":{}", js(&self.path(d)), js(&self.key(d)), self.args(a));
                            if let Some(tr) = tcx.trait_of_assoc(d) {
                                let _ = write!(o, ",\"tr\":{},\"m\":{}", js(&self.path(tr)), js(tcx.item_name(d).as_str()));
                            }
                            if let Some(im) = tcx.impl_of_assoc(d) {
                                let st = tcx.type_of(im).instantiate(tcx, a).skip_norm_wip();
                                let st = self.ty(st);
                                let _ = write!(o, ",\"im\":{},\"m\":{}", st, js(tcx.item_name(d).as_str()));
                            }
                            let a2 = tcx.erase_and_anonymize_regions(a);
                            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a2) {
                                let rd = inst.def_id();
                                if rd != d {
                                    let _ = write!(o, ",\"r\":{},\"rkey\":{},\"ra\":{}", js(&self.path(rd)), js(&self.key(rd)), self.args(inst.args));
                                }
                            }
                            o.push('}');
                            o
                        }
                        _ => {
                            let t = self.ty(ft);
                            format!("{{\"ind\":{},\"t\":{}}}", self.op(func), t)
                        }
                    };
                    let av: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                    let tgt = target.map(|b| b.as_u32() as i64).unwrap_or(-1);
                    format!("[\"call\",{},{},{},{}]", fs, arr(av), self.place(destination), tgt)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, mo): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), vec![self.op(x), self.op(y)]),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![self.op(x)]),
                        AssertKind::DivisionByZero(x) => ("div0".into(), vec![self.op(x)]),
                        AssertKind::RemainderByZero(x) => ("rem0".into(), vec![self.op(x)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond), expected, js(&mk), arr(mo), target.as_u32())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"x\":{},\"cl\":{}}}", arr(ss), tk, sp, js(&exp), bb.is_cleanup));
        }
        let sp = self.span(body.span);
        format!(
            "{{\"key\":{},\"path\":{},\"kind\":\"{}\",\"span\":{},\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}{}}}",
            js(&self.key(did)), js(&self.path(did)), kind, sp, body.arg_count, arr(locals), arr(names), arr(blocks), extra
        )
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("VP_MIR_OUT") else { return rustc_driver::Compilation::Continue };
        let want = std::env::var("VP_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return rustc_driver::Compilation::Continue;
        }
        let mut cx = Cx { tcx, tys: vec![], ty_ix: HashMap::new(), adts: HashMap::new(), env: TypingEnv::fully_monomorphized() };
        let ev = tcx.effective_visibilities(());
        let mut bodies = Vec::new();
        let mut skipped = 0;
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            let p = cx.path(did);
            if p.contains("::rules::") { skipped += 1; continue; }
            let dk = tcx.def_kind(did);
            let mut extra = String::new();
            let root = tcx.typeck_root_def_id(did);
            let mut derived = false;
            if let Some(im) = tcx.impl_of_assoc(root) {
                derived = tcx.is_automatically_derived(im);
                let st = tcx.type_of(im).skip_binder();
                let st = cx.ty(st);
                let _ = write!(extra, ",\"self\":{}", st);
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    let a = cx.args(tr.args);
                    let _ = write!(extra, ",\"trait\":{},\"traita\":{}", js(&cx.path(tr.def_id)), a);
                }
            } else if let Some(tr) = tcx.trait_of_assoc(root) {
                let _ = write!(extra, ",\"intrait\":{}", js(&cx.path(tr)));
            }
            let _ = write!(extra, ",\"derived\":{}", derived);
            let vis = root.as_local().map(|l| ev.is_reachable(l)).unwrap_or(false);
            let _ = write!(extra, ",\"pub\":{}", vis);
            if let Some(n) = tcx.opt_item_name(did) { let _ = write!(extra, ",\"name\":{}", js(n.as_str())); }
            if did != root { let _ = write!(extra, ",\"parent\":{}", js(&cx.key(tcx.parent(did)))); }
            let g = tcx.generics_of(did);
            let mut gn = Vec::new();
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { continue; }
                gn.push(js(p.name.as_str()));
            }
            let _ = write!(extra, ",\"gen\":{}", arr(gn));
            let prom = match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    cx.env = TypingEnv::post_analysis(tcx, did);
                    let b = tcx.optimized_mir(did);
                    let s = cx.body(did, b, if matches!(dk, DefKind::Closure) { "closure" } else { "fn" }, &extra);
                    bodies.push(s);
                    true
                }
                DefKind::Const{..} | DefKind::Static { .. } | DefKind::AssocConst{..} => {
                    cx.env = TypingEnv::post_analysis(tcx, did);
                    let b = tcx.mir_for_ctfe(did);
                    let s = cx.body(did, b, "const", &extra);
                    bodies.push(s);
                    true
                }
                _ => false,
            };
            if prom {
                for (i, b) in tcx.promoted_mir(did).iter_enumerated() {
                    let e2 = format!(",\"prom\":{}", i.as_u32());
                    let s = cx.body(did, b, "promoted", &e2);
                    bodies.push(s);
                }
            }
        }
        // unsafe / statics / impls
        let mut impls = Vec::new();
        let mut statics = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(did).skip_binder();
                    let st = cx.ty(st);
                    let tr = tcx.impl_opt_trait_ref(did).map(|t| cx.path(t.skip_binder().def_id)).unwrap_or_default();
                    let items: Vec<String> = tcx.associated_items(did).in_definition_order()
                        .map(|i| format!("[{},{}]", js(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), js(&cx.key(i.def_id)))).collect();
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"derived\":{},\"items\":{},\"span\":{}}}", st, js(&tr), tcx.is_automatically_derived(did), arr(items), cx.span(tcx.def_span(did))));
                }
                DefKind::Static { mutability, .. } => {
                    let st = tcx.type_of(did).skip_binder();
                    let st = cx.ty(st);
                    statics.push(format!("[{},{},{},{}]", js(&cx.path(did)), mutability.is_mut(), st, cx.span(tcx.def_span(did))))
                }
                _ => {}
            }
        }
        let tys = arr(cx.tys.iter().cloned());
        let adts = arr(cx.adts.values().cloned());
        let s = format!("{{\"skipped\":{},\"types\":{},\"adts\":{},\"impls\":{},\"statics\":{},\"bodies\":{}}}", skipped, tys, adts, arr(impls), arr(statics), arr(bodies));
        std::fs::write(&out, s).expect("write VP_MIR_OUT");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
