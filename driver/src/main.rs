//! Compiler driver that writes the resolved program of the crates under analysis as JSON.
//!
//! It is used as RUSTC_WRAPPER: every crate is compiled as usual; for the crates named in
//! MIRDUMP_CRATES the optimised (mir-opt-level=0, drop-elaborated) MIR of every body, and of the
//! instances those bodies call as far as their MIR is available and listed in `follow`, is written
//! to $MIRDUMP_OUT/<crate>.json.  Nothing is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    ty_queue: VecDeque<(usize, Ty<'tcx>)>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>, usize), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, TypingEnv<'tcx>, Option<Promoted>)>,
    bodies: Vec<String>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.ty_json.push(String::new());
        self.tys.insert(t, i);
        self.ty_queue.push_back((i, t));
        i
    }

    fn layout(&self, t: Ty<'tcx>) -> String {
        let env = self.env;
        match self.tcx.layout_of(env.as_query_input(t)) {
            Ok(l) => {
                let offs: Vec<String> = match &l.fields {
                    rustc_abi::FieldsShape::Arbitrary { offsets, .. } => {
                        offsets.iter().map(|o| o.bytes().to_string()).collect()
                    }
                    _ => vec![],
                };
                format!(
                    "{{\"size\":{},\"align\":{},\"offs\":{}}}",
                    l.size.bytes(),
                    l.align.abi.bytes(),
                    arr(offs)
                )
            }
            Err(_) => "null".to_string(),
        }
    }

    fn finish_ty(&mut self, t: Ty<'tcx>) -> String {
        let name = with_no_trimmed_paths!(t.to_string());
        let head = format!("\"n\":{}", esc(&name));
        match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",{head}}}"),
            ty::Char => format!("{{\"k\":\"char\",{head}}}"),
            ty::Int(_) | ty::Uint(_) => format!("{{\"k\":\"int\",{head}}}"),
            ty::Float(_) => format!("{{\"k\":\"float\",{head}}}"),
            ty::Str => format!("{{\"k\":\"str\",{head}}}"),
            ty::Never => format!("{{\"k\":\"never\",{head}}}"),
            ty::Param(p) => format!("{{\"k\":\"param\",{head},\"p\":{}}}", esc(p.name.as_str())),
            ty::Array(e, c) => {
                let n = c.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",{head},\"e\":{},\"len\":{n}}}", self.ty(*e))
            }
            ty::Slice(e) => format!("{{\"k\":\"slice\",{head},\"e\":{}}}", self.ty(*e)),
            ty::Ref(_, e, m) => format!(
                "{{\"k\":\"ref\",{head},\"e\":{},\"mut\":{}}}",
                self.ty(*e),
                m.is_mut()
            ),
            ty::RawPtr(e, m) => format!(
                "{{\"k\":\"ptr\",{head},\"e\":{},\"mut\":{}}}",
                self.ty(*e),
                m.is_mut()
            ),
            ty::Tuple(ts) => {
                let f = arr(ts.iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                let l = self.layout(t);
                format!("{{\"k\":\"tuple\",{head},\"f\":{f},\"layout\":{l}}}")
            }
            ty::Adt(def, args) => {
                let tcx = self.tcx;
                let mut vs = vec![];
                let is_enum = def.is_enum();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args);
                        let fty = tcx
                            .try_normalize_erasing_regions(self.env, fty)
                            .unwrap_or_else(|_| f.ty(tcx, args).skip_norm_wip());
                        let id = self.ty(fty);
                        fs.push(format!(
                            "[{},{},{}]",
                            esc(f.name.as_str()),
                            id,
                            f.vis.is_public()
                        ));
                    }
                    let d = if is_enum {
                        let d = def.discriminant_for_variant(tcx, vi);
                        d.val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!(
                        "{{\"name\":{},\"d\":{},\"f\":{}}}",
                        esc(v.name.as_str()),
                        d,
                        arr(fs)
                    ));
                }
                let a = arr(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                let l = self.layout(t);
                let repr = def.repr();
                format!(
                    "{{\"k\":\"adt\",{head},\"path\":{},\"crate\":{},\"args\":{a},\"kind\":{},\"vs\":{},\"layout\":{l},\"reprc\":{},\"local\":{}}}",
                    esc(&self.path(def.did())),
                    esc(tcx.crate_name(def.did().krate).as_str()),
                    esc(if is_enum { "enum" } else if def.is_union() { "union" } else { "struct" }),
                    arr(vs),
                    repr.c(),
                    def.did().is_local()
                )
            }
            ty::Closure(d, args) => {
                let ups = args.as_closure().upvar_tys();
                let f = arr(ups.iter().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                format!(
                    "{{\"k\":\"closure\",{head},\"path\":{},\"f\":{f}}}",
                    esc(&self.path(*d))
                )
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",{head},\"path\":{}}}", esc(&self.path((*d).into()))),
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",{head}}}"),
            _ => format!("{{\"k\":\"other\",{head}}}"),
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"d\",{}]", v.as_usize());
                }
                ProjectionElem::OpaqueCast(t) => {
                    let t = self.ty(t);
                    let _ = write!(o, "[\"o\",{}]", t);
                }
                _ => o.push_str("[\"?\"]"),
            }
        }
        o.push_str("]]");
        o
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"path\":{}", esc(&self.path(u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.as_usize());
                // where the value depends on type parameters the body that makes it is kept
                if self.follow(u.def) && c.const_.eval(self.tcx, env, c.span).is_err() {
                    let args = self.tcx.erase_and_anonymize_regions(u.args);
                    let inst = Instance { def: InstanceKind::Item(u.def), args };
                    let key = (inst, env, p.as_usize());
                    let i = match self.insts.get(&key) {
                        Some(i) => *i,
                        None => {
                            let i = self.bodies.len();
                            self.bodies.push(String::new());
                            self.insts.insert(key, i);
                            self.queue.push_back((i, inst, env, Some(p)));
                            i
                        }
                    };
                    let _ = write!(extra, ",\"pinst\":{i}");
                }
            }
        }
        if let ty::FnDef(..) = t.kind() {
            let callee = self.callee_ty(t, env);
            return format!("{{\"ty\":{tid},\"fn\":{callee}}}");
        }
        if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
            return format!("{{\"ty\":{tid},\"v\":{}{extra}}}", esc(&b.to_string()));
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(ConstValue::ZeroSized) => format!("{{\"ty\":{tid},\"zst\":true{extra}}}"),
            Ok(v) => {
                if let Some(h) = self.bytes_of(v, t, env) {
                    let _ = write!(extra, ",\"bytes\":{}", esc(&h));
                } else if let Some((e, h)) = self.pointee(v, t, env) {
                    let e = self.ty(e);
                    let _ = write!(extra, ",\"pointee\":{},\"pbytes\":{}", e, esc(&h));
                }
                format!("{{\"ty\":{tid}{extra}}}")
            }
            _ => format!("{{\"ty\":{tid}{extra}}}"),
        }
    }

    /// Bytes of a constant of reference type, if the pointee is plain data.
    fn pointee(&self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<(Ty<'tcx>, String)> {
        let e = match t.kind() {
            ty::Ref(_, e, _) => *e,
            _ => return None,
        };
        let l = self.tcx.layout_of(env.as_query_input(e)).ok()?;
        if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
            let (prov, off) = p.into_raw_parts();
            let a = self.tcx.global_alloc(prov.alloc_id());
            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = a {
                let m = m.inner();
                if !m.provenance().ptrs().is_empty() {
                    return None;
                }
                let s = off.bytes() as usize;
                let e2 = s + l.size.bytes() as usize;
                if e2 > m.len() {
                    return None;
                }
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(s..e2);
                let mut h = String::new();
                for x in b {
                    let _ = write!(h, "{:02x}", x);
                }
                return Some((e, h));
            }
        }
        None
    }

    fn bytes_of(&self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                let m = m.inner();
                if !m.provenance().ptrs().is_empty() {
                    return None;
                }
                let s = offset.bytes() as usize;
                let e = s + l.size.bytes() as usize;
                if e > m.len() {
                    return None;
                }
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                let mut h = String::new();
                for x in b {
                    let _ = write!(h, "{:02x}", x);
                }
                return Some(h);
            }
        }
        None
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env)),
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn follow(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if k == "rtbvh" || k == "rtbvh_rs" {
            return true;
        }
        if k == "core" || k == "alloc" || k == "std" {
            let p = self.path(d);
            const OK: &[&str] = &[
                "core::option", "core::result", "std::option", "std::result", "std::iter", "core::iter",
                "std::cmp", "core::cmp", "std::mem::swap", "std::mem::replace", "std::mem::take",
                "std::ops", "core::ops", "std::default", "std::convert", "std::clone", "std::array",
                "std::bool", "core::bool", "std::num", "core::num", "core::array", "core::tuple", "core::mem::swap",
            ];
            let p = p.trim_start_matches('<');
            return OK.iter().any(|m| p.contains(m));
        }
        false
    }

    fn want(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<usize> {
        match inst.def {
            InstanceKind::Item(d) => {
                if !self.follow(d) || !self.tcx.is_mir_available(d) {
                    return None;
                }
                if self.tcx.is_constructor(d) || self.tcx.intrinsic(d).is_some() {
                    return None;
                }
                match self.tcx.def_kind(d) {
                    DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                    _ => return None,
                }
            }
            _ => return None,
        }
        let key = (inst, env, usize::MAX);
        if let Some(i) = self.insts.get(&key) {
            return Some(*i);
        }
        if inst.args.iter().map(|a| format!("{a:?}").len()).sum::<usize>() > 1500 {
            return None;
        }
        let i = self.bodies.len();
        self.bodies.push(String::new());
        self.insts.insert(key, i);
        self.queue.push_back((i, inst, env, None));
        Some(i)
    }

    fn def_info(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "\"path\":{},\"crate\":{}",
            esc(&self.path(d)),
            esc(tcx.crate_name(d.krate).as_str())
        );
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
        }
        if let Some(n) = tcx.def_key(d).get_opt_name() {
            let _ = write!(o, ",\"seg\":{}", esc(n.as_str()));
        }
        // walk up closures
        let mut base = d;
        while tcx.is_closure_like(base) {
            base = tcx.parent(base);
        }
        if base != d {
            let _ = write!(o, ",\"closure_of\":{}", esc(&self.path(base)));
        }
        if matches!(tcx.def_kind(base), DefKind::AssocFn) {
            let p = tcx.parent(base);
            if matches!(tcx.def_kind(p), DefKind::Trait) {
                let _ = write!(o, ",\"trait\":{}", esc(&self.path(p)));
                let _ = write!(o, ",\"in_trait\":true");
            } else if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"self_ty\":{}", self.ty(st));
                if let ty::Adt(a, _) = st.kind() {
                    let _ = write!(o, ",\"self_adt\":{}", esc(&self.path(a.did())));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                    let _ = write!(o, ",\"trait_ref\":{}", esc(&with_no_trimmed_paths!(tr.to_string())));
                }
            }
        }
        o
    }

    fn callee_ty(&mut self, t: Ty<'tcx>, env: TypingEnv<'tcx>) -> String {
        match t.kind() {
            ty::FnDef(d, args) => {
                let args: GenericArgsRef<'tcx> = args.no_bound_vars().unwrap();
                let d: DefId = (*d).into();
                let info = self.def_info(d);
                let targs = arr(args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                let mut o = format!("{{\"k\":\"fn\",{info},\"args\":{targs}");
                if self.tcx.intrinsic(d).is_some() {
                    o.push_str(",\"intrinsic\":true");
                }
                let rargs = self.tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, rargs) {
                    let rd = i.def_id();
                    let kind = match i.def {
                        InstanceKind::Item(_) => "item",
                        InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                        InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                        InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                        InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop_glue",
                        InstanceKind::Virtual(..) => "virtual",
                        InstanceKind::Intrinsic(..) => "intrinsic",
                        _ => "other",
                    };
                    let rt = arr(i.args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
                    let _ = write!(
                        o,
                        ",\"rkind\":{},\"rpath\":{},\"rargs\":{rt}",
                        esc(kind),
                        esc(&self.path(rd))
                    );
                    if let Some(k) = self.want(i, env) {
                        let _ = write!(o, ",\"inst\":{k}");
                    }
                }
                o.push('}');
                o
            }
            _ => format!("{{\"k\":\"ptr\",\"ty\":{}}}", self.ty(t)),
        }
    }

    fn line(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        l.line.to_string()
    }

    fn file(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}", l.file.name.prefer_local_unconditionally())
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, c) => {
                let n = c.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o, env), n)
            }
            Rvalue::Ref(_, b, p) => {
                let m = match b {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shr",
                    _ => "fake",
                };
                format!("[\"ref\",\"{m}\",{}]", self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{k:?}");
                format!("[\"cast\",{},{},{}]", esc(&k), self.operand(o, env), self.ty(*t))
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(&ops.0, env),
                self.operand(&ops.1, env)
            ),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kk = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let a = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, a, args);
                        format!(
                            "[\"adt\",{},{},{}]",
                            self.ty(t),
                            v.as_usize(),
                            active.map(|f| f.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw((*d).into(), args);
                        let i = Instance { def: i.def, args: self.tcx.erase_and_anonymize_regions(i.args) };
                        let key = self.want(i, env).map(|k| k.to_string()).unwrap_or("null".into());
                        format!("[\"closure\",{},{}]", esc(&self.path((*d).into())), key)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let ops = arr(ops.iter().map(|o| self.operand(o, env)).collect::<Vec<_>>());
                format!("[\"agg\",{kk},{ops}]")
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            #[allow(unreachable_patterns)]
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",\"{}\",{}]", if m.is_mut() { "mut" } else { "shr" }, self.place(p))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn body(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, promoted: Option<Promoted>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let raw: &Body<'tcx> = match promoted {
            Some(n) => &tcx.promoted_mir(d)[n],
            None => tcx.instance_mir(inst.def),
        };
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, raw.clone()),
        );
        let body = &body;
        let mut o = String::from("{");
        let info = self.def_info(d);
        match promoted {
            // a constant of the function, not a function: kept apart by its path
            Some(n) => o.push_str(&format!("\"path\":{},\"promoted\":{}", esc(&format!("{}::{{promoted#{}}}", self.path(d), n.as_usize())), n.as_usize())),
            None => o.push_str(&info),
        }
        let identity = inst.args == tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, d));
        let targs = arr(inst.args.types().map(|t| self.ty(t).to_string()).collect::<Vec<_>>());
        let _ = write!(
            o,
            ",\"args\":{targs},\"identity\":{identity},\"local\":{},\"file\":{},\"line\":{},\"argc\":{}",
            d.is_local(),
            esc(&self.file(body.span)),
            self.line(body.span),
            body.arg_count
        );
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        let ls = arr(body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let _ = write!(o, ",\"locals\":{ls}");
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), p));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        o.push_str(",\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let mut st = vec![];
            for s in &b.statements {
                let l = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1, env);
                        st.push(format!("[\"=\",{p},{r},{l}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"setd\",{p},{},{l}]", variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => {
                            let op = self.operand(op, env);
                            st.push(format!("[\"assume\",{op},{l}]"));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, env);
                            let b2 = self.operand(&c.dst, env);
                            let n = self.operand(&c.count, env);
                            st.push(format!("[\"copy\",{a},{b2},{n},{l}]"));
                        }
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let l = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(body, tcx);
                    let ds = self.operand(discr, env);
                    let ts = arr(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect::<Vec<_>>());
                    format!("[\"sw\",{ds},{},{},{},{l}]", self.ty(dty), ts, targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unr\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(body, tcx).ty;
                    format!("[\"drop\",{},{},{},{l}]", self.place(place), self.ty(pty), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(body, tcx);
                    let mut c = self.callee_ty(fty, env);
                    if !matches!(fty.kind(), ty::FnDef(..)) {
                        c = format!("{{\"k\":\"ptr\",\"ty\":{},\"op\":{}}}", self.ty(fty), self.operand(func, env));
                    }
                    let a = arr(args.iter().map(|x| self.operand(&x.node, env)).collect::<Vec<_>>());
                    let dst = self.place(destination);
                    let t = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{c},{a},{dst},{t},{l}]")
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let k = format!("{msg:?}");
                    let k = k.split('(').next().unwrap_or("").to_string();
                    format!("[\"assert\",{c},{expected},{},{},{l}]", esc(&k), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::UnwindResume => "[\"resume\"]".to_string(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".to_string(),
                x => format!("[\"other\",{}]", esc(&format!("{x:?}"))),
            };
            let _ = write!(
                o,
                "{{\"s\":{},\"t\":{term}{}}}",
                arr(st),
                if b.is_cleanup { ",\"c\":1" } else { "" }
            );
        }
        o.push_str("]}");
        o
    }

    fn impls(&mut self, d: DefId, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> String {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let tcx = self.tcx;
        let _ = d;
        let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(env);
        let mut o = String::from("{");
        let sync = tcx.lang_items().sync_trait();
        let send = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Send"));
        if let Some(s) = sync {
            let r = infcx.type_implements_trait(s, [t], penv).must_apply_modulo_regions();
            let _ = write!(o, "\"sync\":{r},");
        }
        if let Some(s) = send {
            let r = infcx.type_implements_trait(s, [t], penv).must_apply_modulo_regions();
            let _ = write!(o, "\"send\":{r},");
        }
        let fr = t.is_freeze(tcx, env);
        let _ = write!(o, "\"freeze\":{fr}}}");
        o
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        if self.out.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.always_encode_mir = true;
        }
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match &self.out {
            Some(o) => o.clone(),
            None => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut d = Dumper {
            tcx,
            tys: HashMap::new(),
            ty_json: vec![],
            ty_queue: VecDeque::new(),
            insts: HashMap::new(),
            queue: VecDeque::new(),
            bodies: vec![],
            env: TypingEnv::fully_monomorphized(),
        };
        let mut adts = vec![];
        let mut unsafe_impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, did);
                    let id = d.ty(t);
                    let te = tcx.erase_and_anonymize_regions(t);
                    let im = d.impls(did, env, te);
                    let vis = tcx.visibility(did).is_public();
                    adts.push(format!(
                        "{{\"path\":{},\"ty\":{id},\"impls\":{im},\"pub\":{vis}}}",
                        esc(&d.path(did))
                    ));
                }
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let h = tcx.impl_trait_header(did);
                        if h.safety.is_unsafe() {
                            unsafe_impls.push(esc(&with_no_trimmed_paths!(tr.to_string())));
                        }
                    }
                }
                _ => {}
            }
        }
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {}
                _ => continue,
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let args = tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did));
            let inst = Instance { def: InstanceKind::Item(did), args };
            if let Some(i) = d.want(inst, env) {
                roots.push((i, did));
            }
        }
        while let Some((i, inst, env, promoted)) = d.queue.pop_front() {
            d.env = env;
            let s = d.body(inst, env, promoted);
            d.bodies[i] = s;
            while let Some((k, t)) = d.ty_queue.pop_front() {
                let j = d.finish_ty(t);
                d.ty_json[k] = j;
            }
        }
        while let Some((k, t)) = d.ty_queue.pop_front() {
            let j = d.finish_ty(t);
            d.ty_json[k] = j;
        }
        let rs = arr(roots.iter().map(|(i, did)| {
            format!(
                "{{\"inst\":{i},\"pub\":{},\"unsafe\":{}}}",
                tcx.visibility(*did).is_public(),
                tcx.fn_sig(*did).skip_binder().safety().is_unsafe()
            )
        }).collect::<Vec<_>>());
        let json = format!(
            "{{\"crate\":{},\"roots\":{rs},\"adts\":{},\"unsafe_impls\":{},\"types\":{},\"bodies\":{}}}\n",
            esc(&krate),
            arr(adts),
            arr(unsafe_impls),
            arr(d.ty_json),
            arr(d.bodies)
        );
        let tmp = format!("{out}.tmp");
        std::fs::write(&tmp, json).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    let mut name = String::new();
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
        if a == "--test" {
            test = true;
        }
    }
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let out = if !test && !dir.is_empty() && crates.split(',').any(|c| c == name) {
        let tag = std::env::var("MIRDUMP_TAG").unwrap_or_default();
        Some(format!("{dir}/{name}{tag}.json"))
    } else {
        None
    };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
