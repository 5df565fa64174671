//! mirdump: a rustc driver that dumps the type-checked program (MIR with resolved
//! callees, types, ADT layouts) of the crate named in MIRDUMP_CRATE as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyix: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
    bodies: Vec<String>,
    cur_locals: rustc_index::IndexVec<Local, LocalDecl<'tcx>>,
}

impl<'tcx> Dump<'tcx> {
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!(
            "{}{}",
            tcx.crate_name(d.krate),
            tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn pstr(&self, d: DefId) -> String {
        let s = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() && !s.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s)
        } else {
            s
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tyix.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyix.insert(t, i);
        let s = with_no_trimmed_paths!(format!("{t}"));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(x) => format!("\"k\":\"int\",\"n\":{}", esc(x.name_str())),
            ty::Uint(x) => format!("\"k\":\"uint\",\"n\":{}", esc(x.name_str())),
            ty::Float(x) => format!("\"k\":\"float\",\"n\":{}", esc(x.name_str())),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, inner, m) => {
                let j = self.ty(*inner);
                format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), j)
            }
            ty::RawPtr(inner, m) => {
                let j = self.ty(*inner);
                format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), j)
            }
            ty::Slice(inner) => {
                let j = self.ty(*inner);
                format!("\"k\":\"slice\",\"t\":{}", j)
            }
            ty::Array(inner, _) => {
                let j = self.ty(*inner);
                format!("\"k\":\"array\",\"t\":{}", j)
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":[{}]", v.join(","))
            }
            ty::Adt(def, args) => {
                let p = self.pstr(def.did());
                self.adt(*def, &p);
                let v: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"adt\",\"p\":{},\"a\":[{}]", esc(&p), v.join(","))
            }
            ty::Closure(d, args) => {
                let k = self.key(*d);
                self.enqueue(*d);
                let up: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                format!("\"k\":\"closure\",\"d\":{},\"u\":[{}]", esc(&k), up.join(","))
            }
            ty::FnDef(d, args) => {
                let a = args.skip_binder();
                let c = self.callee(*d, a, None);
                format!("\"k\":\"fndef\",\"f\":{}", c)
            }
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", esc(&s), body);
        i
    }
    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) {
            return;
        }
        self.adts.insert(p.to_string(), String::new());
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = vec![];
        let discrs: Vec<u128> = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
        } else {
            vec![0]
        };
        for (i, v) in def.variants().iter().enumerate() {
            let fs = arr(v.fields.iter().map(|f| esc(f.name.as_str())));
            let ft: Vec<String> = if def.did().is_local() {
                v.fields
                    .iter()
                    .map(|f| {
                        let t = self
                            .tcx
                            .type_of(f.did)
                            .instantiate_identity()
                            .skip_norm_wip();
                        self.ty(t).to_string()
                    })
                    .collect()
            } else {
                vec![]
            };
            vs.push(format!(
                "{{\"n\":{},\"f\":{},\"ft\":[{}],\"d\":{}}}",
                esc(v.name.as_str()),
                fs,
                ft.join(","),
                discrs.get(i).copied().unwrap_or(0)
            ));
        }
        let s = format!("{{\"kind\":\"{}\",\"local\":{},\"v\":{}}}", kind, def.did().is_local(), arr(vs));
        self.adts.insert(p.to_string(), s);
    }
    fn enqueue(&mut self, d: DefId) {
        if self.seen.insert(d) {
            self.queue.push_back(d);
        }
    }
    fn want_external(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        if d.is_local() {
            return false;
        }
        let c = tcx.crate_name(d.krate);
        if c.as_str() != "core" {
            return false;
        }
        let k = self.key(d);
        let ok = ["core::option::", "core::result::", "core::bool::", "core::cmp::", "core::ops::control_flow::", "core::convert::"];
        if !ok.iter().any(|p| k.starts_with(p)) {
            return false;
        }
        matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && tcx.is_mir_available(d)
    }
    fn callee(
        &mut self,
        d: DefId,
        args: ty::GenericArgsRef<'tcx>,
        env: Option<TypingEnv<'tcx>>,
    ) -> String {
        let tcx = self.tcx;
        let mut s = String::from("{");
        let _ = write!(s, "\"p\":{},\"d\":{},\"c\":{},\"n\":{}", esc(&self.pstr(d)), esc(&self.key(d)), esc(tcx.crate_name(d.krate).as_str()),
            esc(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()));
        let a: Vec<String> = args
            .iter()
            .filter_map(|g| match g.kind() {
                GenericArgKind::Type(t) => Some(t),
                _ => None,
            })
            .map(|t| self.ty(t).to_string())
            .collect();
        let _ = write!(s, ",\"a\":[{}]", a.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"tr\":{}", esc(&self.pstr(tr)));
        }
        if tcx.is_constructor(d) { s.push_str(",\"ctor\":true"); }
        if let Some(env) = env {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(tcx, env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                let kind = format!("{:?}", inst.def);
                let kind = kind.split('(').next().unwrap_or("").to_string();
                let _ = write!(s, ",\"r\":{{\"p\":{},\"d\":{},\"k\":{}}}", esc(&self.pstr(rd)), esc(&self.key(rd)), esc(&kind));
                if rd.is_local() || self.want_external(rd) {
                    self.enqueue(rd);
                }
            }
        }
        if d.is_local() || self.want_external(d) {
            self.enqueue(d);
        }
        s.push('}');
        s
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.index()),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.index()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.index(), v.join(","))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut s = format!("\"ty\":{}", ti);
        if let ty::FnDef(d, args) = t.kind() {
            let a = args.skip_binder();
            let f = self.callee(*d, a, Some(env));
            let _ = write!(s, ",\"fn\":{}", f);
            return format!("[\"k\",{{{}}}]", s);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"promoted\":{},\"of\":{}", p.index(), esc(&self.key(u.def)));
                return format!("[\"k\",{{{}}}]", s);
            }
            let _ = write!(s, ",\"def\":{}", esc(&self.key(u.def)));
            if u.def.is_local() && u.args.is_empty() && matches!(tcx.def_kind(u.def), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                self.enqueue(u.def);
            }
        }
        if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_)) {
            if let Some(sc) = c.const_.try_eval_scalar_int(tcx, env) {
                let size = sc.size();
                let bits = sc.to_bits(size);
                let txt = match t.kind() {
                    ty::Int(_) => format!("{}", size.sign_extend(bits)),
                    ty::Float(ty::FloatTy::F64) => esc(&format!("{:?}", f64::from_bits(bits as u64))),
                    ty::Float(ty::FloatTy::F32) => esc(&format!("{:?}", f32::from_bits(bits as u32))),
                    _ => format!("{}", bits),
                };
                let _ = write!(s, ",\"v\":{}", txt);
            }
        } else {
            let txt = with_no_trimmed_paths!(format!("{}", c.const_));
            let _ = write!(s, ",\"txt\":{}", esc(&txt));
            if let Some(d) = c.check_static_ptr(tcx) {
                let _ = write!(s, ",\"static\":{}", esc(&self.key(d)));
            }
        }
        format!("[\"k\",{{{}}}]", s)
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(o, env)),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{k:?}");
                let o = self.operand(o, env);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                let l = self.operand(&b.0, env);
                let r = self.operand(&b.1, env);
                format!("[\"bin\",{},{},{}]", esc(&format!("{op:?}")), l, r)
            }
            Rvalue::UnaryOp(op, o) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(o, env))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.cur_locals, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"disc\",{},{}]", self.place(p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let ks = match &**k {
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let p = self.pstr(*d);
                        let def = self.tcx.adt_def(*d);
                        self.adt(def, &p);
                        format!("[\"adt\",{},{}]", esc(&p), vi.index())
                    }
                    AggregateKind::Closure(d, _) => {
                        self.enqueue(*d);
                        format!("[\"closure\",{}]", esc(&self.key(*d)))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            other => {
                let txt = with_no_trimmed_paths!(format!("{other:?}"));
                format!("[\"x\",{}]", esc(&txt))
            }
        }
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>, key: String, kind: &str) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        self.cur_locals = body.local_decls.clone();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                } else {
                    upv.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)));
                }
            }
        }
        let mut locals = vec![];
        for (l, dec) in body.local_decls.iter_enumerated() {
            let t = self.ty(dec.ty);
            let n = names.get(&l.index()).map(|s| esc(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", t, n));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env);
                        st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"sd\",{},{}]", p, variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(format!("[\"dead\",{}]", l.index()));
                    }
                    StatementKind::Intrinsic(i) => {
                        if let NonDivergingIntrinsic::CopyNonOverlapping(_) = &**i {
                            st.push("[\"x\",\"copy_nonoverlapping\"]".to_string());
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.span(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, env);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.index())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dti = self.ty(dt);
                    format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), targets.otherwise().index(), dti)
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    format!("[\"drop\",{},{}]", p, target.index())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let p = self.place(destination);
                    format!("[\"call\",{},[{}],{},{},{}]", f, a.join(","), p,
                        target.map(|t| t.index().to_string()).unwrap_or("null".into()), sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(cond, env);
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        _ => m,
                    };
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, esc(&mk), target.index(), sp)
                }
                other => {
                    let x = format!("{other:?}");
                    format!("[\"x\",{}]", esc(x.split('(').next().unwrap_or("")))
                }
            };
            blocks.push(format!("{{\"c\":{},\"s\":{},\"t\":{}}}", bb.is_cleanup, arr(st), ts));
        }
        let mut meta = String::new();
        if kind == "fn" && matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d).is_public();
            let reach = if let Some(ld) = d.as_local() {
                tcx.effective_visibilities(()).is_exported(ld)
            } else {
                true
            };
            let _ = write!(meta, ",\"pub\":{},\"exported\":{}", vis, reach);
            if let Some(p) = tcx.opt_parent(d) {
                if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let sti = self.ty(st);
                    let _ = write!(meta, ",\"self\":{}", sti);
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        let trd = tr.instantiate_identity().skip_norm_wip().def_id;
                        let _ = write!(meta, ",\"impl_of\":{}", esc(&self.pstr(trd)));
                    }
                } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                    let _ = write!(meta, ",\"trait\":{}", esc(&self.pstr(p)));
                }
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let _ = write!(meta, ",\"unsafe\":{}", !sig.safety().is_safe());
        }
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        self.bodies.push(format!(
            "{{\"d\":{},\"p\":{},\"n\":{},\"kind\":\"{}\",\"local\":{},\"argc\":{},\"span\":{},\"upv\":{}{},\"locals\":{},\"blocks\":{}}}",
            esc(&key), esc(&self.pstr(d)), esc(&name), kind, d.is_local(), body.arg_count,
            esc(&self.span(body.span)), arr(upv), meta, arr(locals), arr(blocks)
        ));
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => self.enqueue(d),
                _ => {}
            }
        }
        while let Some(d) = self.queue.pop_front() {
            if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let key = self.key(d);
                self.body(d, tcx.mir_for_ctfe(d), key.clone(), "const");
                for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                    self.body(d, pb, format!("{}#p{}", key, i.index()), "promoted");
                }
                continue;
            }
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if !tcx.is_mir_available(d) {
                continue;
            }
            if tcx.is_constructor(d) { continue; }
            let body = tcx.optimized_mir(d);
            let kind = if matches!(tcx.def_kind(d), DefKind::Closure) { "closure" } else { "fn" };
            let key = self.key(d);
            self.body(d, body, key.clone(), kind);
            for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                self.body(d, pb, format!("{}#p{}", key, i.index()), "promoted");
            }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want && !out.is_empty() {
            let mut d = Dump {
                tcx,
                types: vec![],
                tyix: HashMap::new(),
                adts: BTreeMap::new(),
                queue: VecDeque::new(),
                seen: HashSet::new(),
                bodies: vec![],
                cur_locals: rustc_index::IndexVec::new(),
            };
            d.run();
            // impls: (trait, self type, assoc fns)
            let mut impls = vec![];
            for id in tcx.hir_crate_items(()).free_items() {
                let did = id.owner_id.to_def_id();
                if let DefKind::Impl { .. } = tcx.def_kind(did) {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = d.ty(st);
                    let tr = tcx
                        .impl_opt_trait_ref(did)
                        .map(|t| esc(&d.pstr(t.instantiate_identity().skip_norm_wip().def_id)))
                        .unwrap_or("null".into());
                    let items = arr(tcx.associated_item_def_ids(did).iter().map(|x| esc(&d.key(*x))));
                    impls.push(format!("{{\"tr\":{},\"self\":{},\"items\":{},\"span\":{}}}", tr, sti, items, esc(&d.span(tcx.def_span(did)))));
                }
            }
            let adts: Vec<String> = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
            let s = format!(
                "{{\"crate\":{},\"types\":[{}],\"adts\":{{{}}},\"impls\":{},\"bodies\":[{}]}}",
                esc(&want), d.types.join(",\n"), adts.join(",\n"), arr(impls), d.bodies.join(",\n")
            );
            std::fs::write(&out, s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
