//! rustc driver: dumps the monomorphised MIR that is reachable from the `root_*` functions of the
//! harness crate (all callees resolved, trait objects expanded through vtables) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::DefId;
use std::collections::HashMap;
use std::fmt::Write as _;

const ROOT_CRATE: &str = "fajt_harness";

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(Instance<'tcx>, Promoted),
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    insts: HashMap<Key<'tcx>, usize>,
    queue: Vec<Key<'tcx>>,
}

const ALLOW_STD: &[&str] = &[
    "core::option", "core::result", "core::unit", "core::bool", "core::ops", "core::convert", "core::cmp",
    "core::clone", "core::mem", "core::iter", "core::tuple", "core::borrow", "core::array",
    "core::intrinsics", "core::default", "core::char",
    "std::option", "std::result", "std::bool", "std::ops", "std::convert", "std::cmp",
    "std::clone", "std::mem", "std::iter", "std::tuple", "std::borrow", "std::array",
    "std::intrinsics", "std::default", "std::char",
];

impl<'tcx> Dump<'tcx> {
    fn env(&self) -> TypingEnv<'tcx> {
        TypingEnv::fully_monomorphized()
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        self.key(Key::Inst(i))
    }

    fn key(&mut self, k: Key<'tcx>) -> usize {
        if let Some(id) = self.insts.get(&k) {
            return *id;
        }
        let id = self.insts.len();
        self.insts.insert(k.clone(), id);
        self.queue.push(k);
        id
    }

    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(id) = self.types.get(&t) {
            return *id;
        }
        let id = self.types.len();
        self.types.insert(t, id);
        self.type_out.push(String::new());
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let mut o = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            ty::Bool => o.push_str(",\"k\":\"bool\""),
            ty::Char => o.push_str(",\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"signed\":true,\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            ty::Uint(i) => {
                let _ = write!(o, ",\"k\":\"int\",\"signed\":false,\"bits\":{}", i.bit_width().unwrap_or(64));
            }
            ty::Str => o.push_str(",\"k\":\"str\""),
            ty::Never => o.push_str(",\"k\":\"never\""),
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ref\",\"to\":{i},\"mut\":{}", m.is_mut());
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"ptr\",\"to\":{i},\"mut\":{}", m.is_mut());
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                let _ = write!(o, ",\"k\":\"slice\",\"to\":{i}");
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                let _ = write!(o, ",\"k\":\"array\",\"to\":{i},\"n\":{n}");
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"tys\":[{}]", v.join(","));
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"adt\",\"def\":{},\"akind\":\"{k}\",\"box\":{},\"args\":[{}],\"variants\":[", js(&p), def.is_box(), targs.join(","));
                let mut first = true;
                for (vi, v) in def.variants().iter_enumerated() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let d = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val } else { 0 };
                    let _ = write!(o, "{{\"n\":{},\"d\":{},\"f\":[", js(v.name.as_str()), d);
                    let mut ff = true;
                    for f in v.fields.iter() {
                        if !ff {
                            o.push(',');
                        }
                        ff = false;
                        let ft = f.ty(self.tcx, args);
                        let ft = self.tcx.normalize_erasing_regions(self.env(), ft);
                        let fi = self.ty(ft);
                        let _ = write!(o, "[{},{}]", js(f.name.as_str()), fi);
                    }
                    o.push_str("]}");
                }
                o.push(']');
            }
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                if self.tcx.intrinsic(*d).is_none() {
                    if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.env(), *d, args) {
                        let i = self.inst(i);
                        let _ = write!(o, ",\"k\":\"fndef\",\"inst\":{i}");
                    } else {
                        let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", js(&self.path(*d)));
                    }
                } else {
                    let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", js(&self.path(*d)));
                }
            }
            ty::Closure(d, args) => {
                let i = self.inst(Instance::new_raw(*d, args));
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"inst\":{i},\"ups\":[{}]", ups.join(","));
            }
            ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
            ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
            _ => o.push_str(",\"k\":\"other\""),
        }
        o.push('}');
        self.type_out[id] = o;
        id
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, ",[\"f\",{},{t}]", f.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, ",[\"ci\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"ss\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_usize());
                }
                _ => o.push_str(",[\"?\"]"),
            }
        }
        o.push(']');
        o
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap();
            if self.tcx.intrinsic(*d).is_none() {
                if let Some(i) = Instance::resolve_for_fn_ptr(self.tcx, self.env(), *d, args) {
                    let i = self.inst(i);
                    return format!("{{\"c\":\"fn\",\"inst\":{i},\"ty\":{ti}}}");
                }
            }
            return format!("{{\"c\":\"intr\",\"path\":{},\"ty\":{ti}}}", js(&self.path(*d)));
        }
        match v {
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                        let sv = if matches!(t.kind(), ty::Int(_)) {
                            size.sign_extend(bits).to_string()
                        } else {
                            bits.to_string()
                        };
                        return format!("{{\"c\":\"int\",\"v\":\"{sv}\",\"ty\":{ti}}}");
                    }
                    _ => {}
                }
            }
            ConstValue::ZeroSized => {
                if !matches!(t.kind(), ty::Adt(..)) {
                    return format!("{{\"c\":\"zst\",\"ty\":{ti}}}");
                }
            }
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            let s = String::from_utf8_lossy(b).to_string();
                            return format!("{{\"c\":\"str\",\"v\":{},\"ty\":{ti}}}", js(&s));
                        }
                    }
                }
            }
            _ => {}
        }
        if depth < 6 && matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.const_value(*fv, *ft, depth + 1)).collect();
                let vi = d.variant.map_or(0, |x| x.as_usize());
                return format!("{{\"c\":\"adt\",\"variant\":{vi},\"ty\":{ti},\"f\":[{}]}}", fs.join(","));
            }
        }
        let s = format!("{v:?}");
        let mut bytes = String::new();
        if let ty::Ref(_, inner, _) = t.kind() {
            if let ty::Array(el, _) = inner.kind() {
                if *el == self.tcx.types.u8 {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                            let a = a.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            bytes = format!(",\"bytes\":{b:?}");
                        }
                    }
                }
            }
        }
        format!("{{\"c\":\"opaque\",\"v\":{},\"ty\":{ti}{bytes}}}", js(&s))
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let r = match c.const_ {
                    Const::Val(v, t) => self.const_value(v, t, 0),
                    Const::Unevaluated(u, t) if u.promoted.is_some() => {
                        let args = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(u.args));
                        let i = self.key(Key::Promoted(Instance::new_raw(u.def, args), u.promoted.unwrap()));
                        let ti = self.ty(t);
                        format!("{{\"c\":\"promoted\",\"inst\":{i},\"ty\":{ti}}}")
                    }
                    _ => match c.const_.eval(self.tcx, self.env(), c.span) {
                        Ok(v) => self.const_value(v, t, 0),
                        Err(_) => {
                            let ti = self.ty(t);
                            format!("{{\"c\":\"opaque\",\"v\":\"?\",\"ty\":{ti}}}")
                        }
                    },
                };
                format!("[\"k\",{r}]")
            }
            _ => "[\"k\",{\"c\":\"rtcheck\"}]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                format!("[\"repeat\",{},{n}]", self.operand(o))
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let oo = self.operand(o);
                let ti = self.ty(*t);
                // Methods behind a new trait object.
                if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    self.unsize(o, *t);
                }
                format!("[\"cast\",{},{oo},{ti}]", js(&format!("{k:?}")))
            }
            Rvalue::BinaryOp(b, ops) => {
                format!("[\"bin\",\"{b:?}\",{},{}]", self.operand(&ops.0), self.operand(&ops.1))
            }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{u:?}\",{}]", self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let fs: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let fs = fs.join(",");
                match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"agg\",\"array\",{t},[{fs}]]")
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,[{fs}]]"),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self.tcx.normalize_erasing_regions(self.env(), t);
                        let t = self.ty(t);
                        format!("[\"agg\",\"adt\",{t},[{fs}],{}]", v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(t);
                        format!("[\"agg\",\"closure\",{t},[{fs}]]")
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,[{fs}]]"),
                    _ => "[\"other\"]".to_string(),
                }
            }
            _ => "[\"other\"]".to_string(),
        }
    }

    fn unsize(&mut self, _o: &Operand<'tcx>, _t: Ty<'tcx>) {}

    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> Vec<usize> {
        let (s, d) = match (src.kind(), dst.kind()) {
            (ty::Ref(_, s, _) | ty::RawPtr(s, _), ty::Ref(_, d, _) | ty::RawPtr(d, _)) => (*s, *d),
            _ => return vec![],
        };
        if let ty::Dynamic(preds, _) = d.kind() {
            if matches!(s.kind(), ty::Dynamic(..)) {
                return vec![];
            }
            if let Some(p) = preds.principal() {
                let tr = p.with_self_ty(self.tcx, s);
                let tr = self.tcx.instantiate_bound_regions_with_erased(tr);
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                let mut out = vec![];
                for e in self.tcx.vtable_entries(tr) {
                    if let ty::VtblEntry::Method(i) = e {
                        out.push(self.inst(*i));
                    }
                }
                return out;
            }
        }
        vec![]
    }

    fn loc(&self, s: rustc_span::Span) -> String {
        // Report the place in the source text, not the macro definition.
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let name = name.rsplit("/repo/").next().unwrap_or(&name).to_string();
        format!("{}:{}", name, lo.line)
    }

    fn body(&mut self, id: usize, k: &Key<'tcx>) -> String {
        let (inst, promoted) = match k {
            Key::Inst(i) => (*i, None),
            Key::Promoted(i, p) => (*i, Some(*p)),
        };
        let did = inst.def_id();
        let path = self.path(did);
        let krate = self.tcx.crate_name(did.krate).to_string();
        let full = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(did, inst.args));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptrshim",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "onceshim",
            _ => "shim",
        };
        let mut o = format!(
            "{{\"id\":{id},\"path\":{},\"full\":{},\"crate\":{},\"kind\":\"{kind}\"",
            js(&path), js(&full), js(&krate)
        );
        let targs: Vec<String> = inst.args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        let is_closure = self.tcx.is_closure_like(did);
        let _ = write!(o, ",\"closure\":{is_closure}");
        if let Some(p) = promoted {
            let _ = write!(o, ",\"promoted\":{}", p.as_usize());
        }
        if matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let names: Vec<String> = self.tcx.fn_arg_idents(did).iter().map(|n| js(&n.map_or(String::new(), |n| n.to_string()))).collect();
            let _ = write!(o, ",\"argnames\":[{}]", names.join(","));
            let unsafe_ = format!("{:?}", self.tcx.fn_sig(did).skip_binder().safety());
            let _ = write!(o, ",\"safety\":{}", js(&unsafe_));
            if let Some(ai) = self.tcx.opt_associated_item(did) {
                let cont = ai.container_id(self.tcx);
                let tr = match self.tcx.def_kind(cont) {
                    DefKind::Impl { .. } => self.tcx.impl_opt_trait_id(cont),
                    _ => Some(cont),
                };
                if let Some(tr) = tr {
                    let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
                }
                let _ = write!(o, ",\"name\":{}", js(ai.name().as_str()));
            } else {
                let _ = write!(o, ",\"name\":{}", js(self.tcx.item_name(did).as_str()));
            }
        }
        let local_crate = krate.starts_with("fajt") || krate == ROOT_CRATE;
        let allowed = local_crate
            || matches!(krate.as_str(), "bitflags" | "serde" | "serde_core")
            || ALLOW_STD.iter().any(|a| {
                path.starts_with(a) || path.starts_with(&format!("<{a}")) || path.contains(&format!(" as {a}"))
            });
        let has = match inst.def {
            InstanceKind::Item(d) => (allowed || promoted.is_some()) && !matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) && self.tcx.is_mir_available(d) && !self.tcx.is_foreign_item(d),
            InstanceKind::Shim(ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Clone(..)) => true,
            _ => false,
        };
        if let DefKind::Ctor(..) = self.tcx.def_kind(did) {
            let adt = self.tcx.fn_sig(did).instantiate(self.tcx, inst.args).skip_norm_wip().output().skip_binder();
            let adt = self.tcx.normalize_erasing_regions(self.env(), ty::Unnormalized::new_wip(adt));
            let vi = match adt.kind() {
                ty::Adt(def, _) => def.variant_index_with_ctor_id(did).as_usize(),
                _ => 0,
            };
            let ti = self.ty(adt);
            let _ = write!(o, ",\"ctor\":[{ti},{vi}]");
        }
        if !has {
            o.push('}');
            return o;
        }
        let body: Body<'tcx> = match promoted {
            None => self.tcx.instance_mir(inst.def).clone(),
            Some(p) => self.tcx.promoted_mir(did)[p].clone(),
        };
        let body: Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env(),
            ty::EarlyBinder::bind(self.tcx, body),
        );
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(
            o,
            ",\"loc\":{},\"nargs\":{},\"spread\":{},\"locals\":[{}]",
            js(&self.loc(body.span)),
            body.arg_count,
            body.spread_arg.map_or(-1, |l| l.as_usize() as i64),
            locals.join(",")
        );
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert_with(|| v.name.to_string());
                }
            }
        }
        let mut nv: Vec<_> = names.into_iter().collect();
        nv.sort();
        let nv: Vec<String> = nv.iter().map(|(l, n)| format!("\"{l}\":{}", js(n))).collect();
        let _ = write!(o, ",\"names\":{{{}}},\"blocks\":[", nv.join(","));
        let mut firstb = true;
        for (_bi, bb) in body.basic_blocks.iter_enumerated() {
            if !firstb {
                o.push(',');
            }
            firstb = false;
            if bb.is_cleanup {
                o.push_str("null");
                continue;
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let x = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let mut rv = self.rvalue(r);
                        if let Rvalue::Cast(CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _), op, t) = r {
                            let src = op.ty(&body.local_decls, self.tcx);
                            let v = self.vtable(src, *t);
                            let si = self.ty(src);
                            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                            rv = format!("[\"unsize\",{},{},{si},[{}]]", self.operand(op), self.ty(*t), v.join(","));
                        }
                        Some(format!("[\"=\",{},{rv}]", self.place(p)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        Some(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()))
                    }
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(_)
                    | StatementKind::Nop
                    | StatementKind::FakeRead(..)
                    | StatementKind::PlaceMention(..)
                    | StatementKind::AscribeUserType(..)
                    | StatementKind::Coverage(..)
                    | StatementKind::ConstEvalCounter
                    | StatementKind::BackwardIncompatibleDropHint { .. } => None,
                    StatementKind::Intrinsic(_) => Some("[\"intr\"]".to_string()),
                    #[allow(unreachable_patterns)]
                    _ => Some("[\"other\"]".to_string()),
                };
                if let Some(x) = x {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&x);
                }
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(ty);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{ti}]", self.operand(discr), v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(pt);
                    format!("[\"drop\",{},{},{ti}]", self.place(place), target.as_usize())
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m: String = m.chars().take(60).collect();
                    format!("[\"assert\",{},{expected},{},{}]", self.operand(cond), target.as_usize(), js(&m))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().unwrap();
                            if let Some(intr) = self.tcx.intrinsic(*d) {
                                let tys: Vec<String> = ga.types().map(|t| self.ty(t).to_string()).collect();
                                format!("{{\"intr\":{},\"tys\":[{}]}}", js(intr.name.as_str()), tys.join(","))
                            } else {
                                let i = Instance::expect_resolve(self.tcx, self.env(), *d, ga, term.source_info.span);
                                if let InstanceKind::Virtual(vd, n) = i.def {
                                    let nm = self.path(vd);
                                    format!("{{\"virt\":{},\"n\":{n}}}", js(&nm))
                                } else {
                                    format!("{{\"inst\":{}}}", self.inst(i))
                                }
                            }
                        }
                        _ => format!("{{\"op\":{}}}", self.operand(func)),
                    };
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{f},[{}],{},{}]",
                        a.join(","),
                        self.place(destination),
                        target.map_or("null".to_string(), |t| t.as_usize().to_string())
                    )
                }
                other => format!("[\"other\",{}]", js(&format!("{other:?}").chars().take(40).collect::<String>())),
            };
            let _ = write!(o, "{t},\"l\":{}}}", js(&self.loc(term.source_info.span)));
        }
        o.push_str("]}");
        o
    }
}

fn self_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d))
}

/// Everything of the outside that the bodies of a crate name: callees, statics, thread locals, casts of addresses.
struct Effects<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: std::collections::BTreeSet<(String, String, usize)>,
    line: usize,
}

impl<'tcx> Effects<'tcx> {
    fn add(&mut self, kind: &str, what: String) {
        self.out.insert((kind.to_string(), what, self.line));
    }

    fn alloc(&mut self, id: rustc_middle::mir::interpret::AllocId, depth: usize) {
        use rustc_middle::mir::interpret::GlobalAlloc;
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Static(d)) => {
                let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let m = if self.tcx.is_mutable_static(d) || !t.is_freeze(self.tcx, TypingEnv::fully_monomorphized()) {
                    "mutable"
                } else {
                    "static"
                };
                self.add(m, format!("{}: {t}", self_path(self.tcx, d)));
            }
            Some(GlobalAlloc::Memory(a)) if depth < 8 => {
                for (_, p) in a.inner().provenance().ptrs().iter() {
                    self.alloc(p.alloc_id(), depth + 1);
                }
            }
            _ => {}
        }
    }
}

impl<'tcx> rustc_middle::mir::visit::Visitor<'tcx> for Effects<'tcx> {
    fn visit_source_info(&mut self, i: &SourceInfo) {
        let s = i.span.source_callsite();
        self.line = self.tcx.sess.source_map().lookup_char_pos(s.lo()).line;
    }

    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _l: Location) {
        if let ty::FnDef(d, args) = c.const_.ty().kind() {
            let p = rustc_middle::ty::print::with_no_trimmed_paths!(
                self.tcx.def_path_str_with_args(*d, args.skip_binder())
            );
            let krate = self.tcx.crate_name(d.krate).to_string();
            self.add("call", format!("{krate} {p}"));
            if let Some(tr) = self.tcx.trait_of_assoc(*d) {
                let name = self_path(self.tcx, tr);
                self.add("trait", format!("{name} {} {}", self.tcx.item_name(*d), args.skip_binder().types().next().map_or(String::new(), |t| t.to_string())));
            }
            return;
        }
        match c.const_ {
            Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) => {
                self.alloc(p.provenance.alloc_id(), 0)
            }
            Const::Val(ConstValue::Indirect { alloc_id, .. }, _) => self.alloc(alloc_id, 0),
            Const::Unevaluated(u, _) if u.promoted.is_none() => {
                self.add("const", self_path(self.tcx, u.def));
            }
            _ => {}
        }
    }

    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(d) => self.add("mutable", self_path(self.tcx, *d)),
            Rvalue::Cast(CastKind::PointerExposeProvenance, ..) => self.add("address", String::new()),
            _ => {}
        }
        self.super_rvalue(r, l);
    }
}

fn effects(tcx: TyCtxt<'_>) -> Vec<String> {
    use rustc_middle::mir::visit::Visitor;
    let mut out = vec![];
    for &cnum in tcx.crates(()) {
        let krate = tcx.crate_name(cnum).to_string();
        if !krate.starts_with("fajt_") || krate == ROOT_CRATE || krate == "fajt_macros" {
            continue;
        }
        let n = tcx.num_extern_def_ids(cnum);
        for i in 0..n {
            let did = DefId { krate: cnum, index: rustc_span::def_id::DefIndex::from_usize(i) };
            let kind = tcx.def_kind(did);
            let fn_like = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !fn_like || !tcx.is_mir_available(did) {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let mut e = Effects { tcx, out: Default::default(), line: 0 };
            e.visit_body(body);
            for p in tcx.promoted_mir(did).iter() {
                e.visit_body(p);
            }
            let s = body.span.source_callsite();
            let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
            let file = format!("{}", lo.file.name.prefer_local_unconditionally());
            let file = file.rsplit("/repo/").next().unwrap_or(&file).to_string();
            let es: Vec<String> = e.out.iter().map(|(a, b, l)| format!("[{},{},{l}]", js(a), js(b))).collect();
            out.push(format!(
                "{{\"fn\":{},\"file\":{},\"line\":{},\"e\":[{}]}}",
                js(&self_path(tcx, did)), js(&file), lo.line, es.join(",")
            ));
        }
    }
    out
}

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if name != ROOT_CRATE {
            return Compilation::Continue;
        }
        let out_path = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let mut d = Dump { tcx, types: HashMap::new(), type_out: vec![], insts: HashMap::new(), queue: vec![] };
        let mut roots = vec![];
        for ld in tcx.hir_body_owners() {
            let did = ld.to_def_id();
            if tcx.def_kind(did) != DefKind::Fn || tcx.is_closure_like(did) {
                continue;
            }
            let n = tcx.item_name(did).to_string();
            let is_main = n == "main" && self_path(tcx, did).ends_with("cli::main");
            if n.starts_with("root_") || n.starts_with("ref_") || is_main {
                let id = d.inst(Instance::mono(tcx, did));
                roots.push((n, id));
            }
        }
        // every implementation of fajt_ast::Spanned
        for cnum in tcx.crates(()).to_vec() {
            if tcx.crate_name(cnum).as_str() != "fajt_ast" {
                continue;
            }
            for tr in tcx.traits(cnum).to_vec() {
                if tcx.item_name(tr).as_str() != "Spanned" {
                    continue;
                }
                let mut impls: Vec<_> = tcx.trait_impls_of(tr).non_blanket_impls().values().flatten().copied().collect();
                impls.sort_by_key(|i| tcx.def_path_str(*i));
                for im in impls {
                    if tcx.generics_of(im).requires_monomorphization(tcx) {
                        continue;
                    }
                    for item in tcx.associated_items(im).in_definition_order() {
                        let ty = tcx.type_of(im).instantiate_identity();
                        let id = d.inst(Instance::mono(tcx, item.def_id));
                        roots.push((format!("spanned {:?} {}", ty, item.name()), id));
                    }
                }
            }
        }
        let mut out: Vec<(usize, String)> = vec![];
        while let Some(k) = d.queue.pop() {
            let id = d.insts[&k];
            let b = d.body(id, &k);
            out.push((id, b));
        }
        out.sort_by_key(|x| x.0);
        let mut s = String::from("{\"roots\":{");
        s.push_str(&roots.iter().map(|(n, i)| format!("{}:{i}", js(n))).collect::<Vec<_>>().join(","));
        s.push_str("},\"types\":[\n");
        s.push_str(&d.type_out.join(",\n"));
        s.push_str("\n],\"fns\":[\n");
        s.push_str(&out.into_iter().map(|x| x.1).collect::<Vec<_>>().join(",\n"));
        s.push_str("\n],\"effects\":[\n");
        s.push_str(&effects(tcx).join(",\n"));
        s.push_str("\n]}\n");
        std::fs::write(&out_path, s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
