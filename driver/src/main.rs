//! A rustc wrapper that, when it compiles `scale_value`, writes the MIR of every
//! function of the crate (and of everything those functions reach, resolved as far
//! as the generics allow) to a JSON file. Nothing is executed: this only reads what
//! the compiler has type checked.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Models {
    /// "trait method path" / "fn path" (generics stripped) [+ "@SelfHead"] -> model fn DefId
    map: HashMap<String, DefId>,
    krate: Option<rustc_span::def_id::CrateNum>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ids: HashMap<(ty::ParamEnv<'tcx>, Instance<'tcx>), usize>,
    queue: Vec<(usize, TypingEnv<'tcx>, Instance<'tcx>)>,
    bodies: Vec<String>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    models: Models,
    adts: HashMap<DefId, String>,
}

fn strip_generics(s: &str) -> String {
    // remove `::<...>` and `<...>` groups at the end of path segments, keep a leading `<T as Trait>`
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let mut depth = 0i32;
    while i < b.len() {
        let c = b[i];
        if depth == 0 {
            if c == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
                depth = 1;
                i += 3;
                continue;
            }
            o.push(c);
        } else {
            match c {
                '<' => depth += 1,
                '>' if i > 0 && b[i - 1] != '-' => depth -= 1,
                _ => {}
            }
        }
        i += 1;
    }
    o
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        strip_generics(&with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn canon(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(format!("{t}")))
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, i, m) => {
                format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_head(*i))
            }
            ty::Slice(_) => "[]".into(),
            ty::Array(..) => "[;]".into(),
            ty::Str => "str".into(),
            ty::Param(p) => format!("param {}", p.name),
            ty::Closure(d, _) => format!("closure {}", self.canon(*d)),
            ty::Tuple(x) => format!("({})", x.len()),
            ty::Dynamic(..) => "dyn".into(),
            ty::FnDef(d, _) => format!("fn {}", self.path(*d)),
            ty::Alias(..) => "alias".into(),
            _ => self.ty_str(t),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = js(&self.ty_str(t));
        let head = js(&self.ty_head(t));
        let (k, args): (&str, Vec<Ty<'tcx>>) = match t.kind() {
            ty::Adt(_, a) => ("adt", a.types().collect()),
            ty::Ref(_, x, m) => (if m.is_mut() { "refmut" } else { "ref" }, vec![*x]),
            ty::RawPtr(x, _) => ("ptr", vec![*x]),
            ty::Slice(x) => ("slice", vec![*x]),
            ty::Array(x, _) => ("array", vec![*x]),
            ty::Tuple(xs) => ("tuple", xs.iter().collect()),
            ty::Closure(_, a) => ("closure", a.as_closure().upvar_tys().iter().collect()),
            ty::Param(_) => ("param", vec![]),
            ty::Alias(..) => ("alias", vec![]),
            ty::Dynamic(..) => ("dyn", vec![]),
            ty::FnDef(..) => ("fndef", vec![]),
            ty::FnPtr(..) => ("fnptr", vec![]),
            ty::Int(_) => ("int", vec![]),
            ty::Uint(_) => ("uint", vec![]),
            ty::Bool => ("bool", vec![]),
            ty::Char => ("char", vec![]),
            ty::Str => ("str", vec![]),
            ty::Never => ("never", vec![]),
            _ => ("other", vec![]),
        };
        let extra = match t.kind() {
            ty::Array(_, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => format!(",\"len\":{n}"),
                None => String::new(),
            },
            ty::Adt(a, _) => {
                self.adt(a.did());
                format!(",\"adt\":{}", js(&self.path(a.did())))
            }
            _ => String::new(),
        };
        let args: Vec<usize> = args.into_iter().map(|a| self.ty(a)).collect();
        self.type_json[i] = format!(
            "{{\"s\":{s},\"h\":{head},\"k\":\"{k}\",\"a\":{}{extra}}}",
            jlist(args.iter().map(|x| x.to_string()))
        );
        i
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        let a = self.tcx.adt_def(d);
        let mut vs = vec![];
        if a.is_enum() {
            for (i, disc) in a.discriminants(self.tcx) {
                let v = a.variant(i);
                vs.push(format!(
                    "{{\"n\":{},\"d\":{},\"f\":{}}}",
                    js(v.name.as_str()),
                    disc.val,
                    jlist(v.fields.iter().map(|f| js(f.name.as_str())))
                ));
            }
        } else {
            for v in a.variants().iter() {
                vs.push(format!(
                    "{{\"n\":{},\"d\":0,\"f\":{}}}",
                    js(v.name.as_str()),
                    jlist(v.fields.iter().map(|f| js(f.name.as_str())))
                ));
            }
        }
        let s = format!(
            "{{\"path\":{},\"local\":{},\"kind\":\"{}\",\"variants\":{}}}",
            js(&self.path(d)),
            d.is_local(),
            if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" },
            jlist(vs)
        );
        self.adts.insert(d, s);
    }

    fn inst_id(&mut self, env: TypingEnv<'tcx>, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.ids.get(&(env.param_env, i)) {
            return *x;
        }
        let id = self.bodies.len();
        self.bodies.push("null".into());
        self.ids.insert((env.param_env, i), id);
        self.queue.push((id, env, i));
        id
    }

    fn want_body(&self, i: &Instance<'tcx>) -> bool {
        let d = match i.def {
            ty::InstanceKind::Item(d) => d,
            ty::InstanceKind::Intrinsic(_)
            | ty::InstanceKind::LlvmIntrinsic(_)
            | ty::InstanceKind::Virtual(..) => return false,
            ty::InstanceKind::Shim(s) => {
                return matches!(
                    s,
                    ty::ShimKind::ClosureOnce { .. } | ty::ShimKind::FnPtr(..) | ty::ShimKind::Reify(..)
                )
            }
        };
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() || Some(d.krate) == self.models.krate {
            return true;
        }
        let cn = self.tcx.crate_name(d.krate);
        let p = self.canon(d);
        match cn.as_str() {
            "either" | "yap" | "scale_type_resolver" | "scale_decode" | "serde" | "serde_core" => true,
            "core" | "alloc" => {
                let bad = ["core::num::fmt", "core::fmt", "core::str", "core::slice", "core::ptr", "core::panicking", "core::char", "core::unicode", "core::hash", "core::alloc", "alloc::raw_vec", "alloc::vec", "alloc::string", "alloc::str", "alloc::slice", "alloc::alloc", "alloc::fmt", "alloc::boxed", "alloc::rc", "alloc::collections", "core::intrinsics", "core::mem"];
                if bad.iter().any(|b| p.starts_with(b)) {
                    return false;
                }
                ["core::ops", "core::option", "core::result", "core::iter", "core::convert", "core::cmp", "core::bool", "core::array", "alloc::borrow", "core::borrow", "core::default", "core::clone", "core::tuple"]
                    .iter()
                    .any(|b| p.starts_with(b))
            }
            _ => false,
        }
    }

    fn model_for(&self, callee: DefId, args: GenericArgsRef<'tcx>) -> Option<(DefId, String)> {
        let p = self.path(callee);
        // trait method? use trait path + method name, possibly with the self type head.
        let mut keys = vec![];
        if let Some(tr) = self.tcx.trait_of_assoc(callee) {
            let name = self.tcx.item_name(callee);
            let trp = self.path(tr);
            if let Some(t) = args.types().next() {
                keys.push(format!("{trp}::{name}@{}", self.ty_head(t)));
                // strip closure / param details
                match t.kind() {
                    ty::Param(_) | ty::Alias(..) => keys.push(format!("{trp}::{name}@?")),
                    _ => {}
                }
            }
            keys.push(format!("{trp}::{name}"));
        } else {
            keys.push(p.clone());
        }
        for k in keys {
            if let Some(d) = self.models.map.get(&k) {
                return Some((*d, k));
            }
        }
        None
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, def: DefId, args: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::from("{");
        let _ = write!(o, "\"path\":{}", js(&self.path(def)));
        let _ = write!(o, ",\"canon\":{}", js(&self.canon(def)));
        let _ = write!(o, ",\"crate\":{}", js(tcx.crate_name(def.krate).as_str()));
        let targs: Vec<usize> = args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"args\":{}", jlist(targs.iter().map(|x| x.to_string())));
        if let Some(name) = tcx.opt_item_name(def) {
            let _ = write!(o, ",\"name\":{}", js(name.as_str()));
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let _ = write!(o, ",\"trait\":{}", js(&self.path(tr)));
            if let Some(t) = args.types().next() {
                let i = self.ty(t);
                let _ = write!(o, ",\"self\":{i}");
            }
        }
        if matches!(tcx.def_kind(def), DefKind::Ctor(..)) {
            // tuple struct / variant constructor used as a function
            let v = tcx.parent(def);
            let (adt, vname) = if matches!(tcx.def_kind(v), DefKind::Variant) {
                (tcx.parent(v), tcx.item_name(v).to_string())
            } else {
                (v, tcx.item_name(v).to_string())
            };
            self.adt(adt);
            let _ = write!(o, ",\"ctor\":[{},{}]", js(&self.path(adt)), js(&vname));
            o.push('}');
            return o;
        }
        // models first
        let mut resolved = None;
        let mut model = self.model_for(def, args).map(|(m, k)| (m, k, args));
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, args) {
            let inst: Instance<'tcx> = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(inst)).unwrap_or(inst);
            if model.is_none() {
                if let ty::InstanceKind::Item(d) = inst.def {
                    if d != def {
                        if let Some((m, k)) = self.model_for(d, inst.args) {
                            model = Some((m, k, inst.args));
                        }
                    }
                }
            }
            resolved = Some(inst);
        }
        if let Some((m, key, margs)) = model {
            // local implementations always win over models of trait methods
            let local = resolved.map_or(false, |i| i.def_id().is_local() && !matches!(i.def, ty::InstanceKind::Virtual(..)));
            if !local {
                let tys: Vec<Ty<'tcx>> = margs.types().collect();
                let mut k = 0;
                let n = tcx.generics_of(m).count();
                let mut need = 0;
                for idx in 0..n {
                    if matches!(tcx.generics_of(m).param_at(idx, tcx).kind, ty::GenericParamDefKind::Type { .. }) {
                        need += 1;
                    }
                }
                if need <= tys.len() {
                    let ga = ty::GenericArgs::for_item(tcx, m, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => {
                            k += 1;
                            tys[k - 1].into()
                        }
                        ty::GenericParamDefKind::Const { .. } => {
                            margs.consts().next().map(|c| c.into()).unwrap_or_else(|| panic!("const arg for model {key}"))
                        }
                    });
                    let inst = Instance::new_raw(m, ga);
                    let id = self.inst_id(env, inst);
                    let _ = write!(o, ",\"inst\":{id},\"model\":{}", js(&key));
                    o.push('}');
                    return o;
                } else {
                    let _ = write!(o, ",\"model_mismatch\":{}", js(&key));
                }
            }
        }
        if let Some(inst) = resolved {
            match inst.def {
                ty::InstanceKind::Virtual(..) => o.push_str(",\"kind\":\"virtual\""),
                ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) => {
                    o.push_str(",\"kind\":\"intrinsic\"")
                }
                _ => {
                    let d = inst.def_id();
                    let _ = write!(o, ",\"kind\":\"item\",\"rpath\":{},\"rcanon\":{},\"local\":{}", js(&self.path(d)), js(&self.canon(d)), d.is_local());
                    let rargs: Vec<usize> = inst.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
                    let _ = write!(o, ",\"rargs\":{}", jlist(rargs.iter().map(|x| x.to_string())));
                    if self.want_body(&inst) {
                        let id = self.inst_id(env, inst);
                        let _ = write!(o, ",\"inst\":{id}");
                    }
                }
            }
        } else {
            o.push_str(",\"kind\":\"unresolved\"");
            // a provided method of a core iterator trait, called on a type parameter: the
            // provided body is what any implementation must agree with
            if self.path(def).starts_with("core::iter::") && tcx.is_mir_available(def) {
                let inst = Instance::new_raw(def, args);
                let id = self.inst_id(env, inst);
                let _ = write!(o, ",\"inst\":{id},\"provided\":true");
            }
        }
        o.push('}');
        o
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let v = match pt.variant_index {
                                Some(v) => a.variant(v),
                                None if !a.is_enum() => a.non_enum_variant(),
                                None => a.variant(rustc_abi::VariantIdx::from_usize(0)),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"f\",{}]", js(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"c\",{offset},{min_length},{from_end}]");
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"s\",{from},{to},{from_end}]");
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    let _ = write!(o, "[\"d\",{}]", js(&name));
                }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    /// the Drop implementations (of the crate and of the token streams) that dropping runs
    fn user_drops(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>, place: &str, depth: usize, out: &mut Vec<(Ty<'tcx>, String, String)>) {
        let tcx = self.tcx;
        let ty::Adt(a, args) = t.kind() else { return };
        let args: GenericArgsRef<'tcx> = args;
        let known = |k: rustc_span::def_id::CrateNum| k == rustc_span::def_id::LOCAL_CRATE || tcx.crate_name(k).as_str() == "yap";
        if depth > 3 || !a.is_struct() || !known(a.did().krate) {
            return;
        }
        if tcx.adt_destructor(a.did()).is_some() {
            let tr = tcx.lang_items().drop_trait().unwrap();
            let m = tcx.associated_item_def_ids(tr)[0];
            let c = self.callee(env, m, tcx.mk_args(&[t.into()]));
            out.push((t, place.to_string(), c));
        }
        for f in a.non_enum_variant().fields.iter() {
            let ft = f.ty(tcx, args);
            let ft = tcx.try_normalize_erasing_regions(env, ft).unwrap_or(t);
            if ft != t {
                let pl = format!("{},[\"f\",{}]]", &place[..place.len() - 1], js(f.name.as_str()));
                self.user_drops(env, ft, &pl, depth + 1, out);
            }
        }
    }

    fn const_val(&mut self, env: TypingEnv<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let opaque = |s: &Self| format!("{{\"k\":\"opaque\",\"t\":{}}}", js(&s.ty_str(t)));
        if depth > 6 {
            return opaque(self);
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(si) = (match v {
                    ConstValue::Scalar(s) => s.try_to_scalar_int().ok(),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size);
                        match (tcx.global_alloc(alloc_id), sz) {
                            (mir::interpret::GlobalAlloc::Memory(a), Some(sz)) => a
                                .inner()
                                .read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: sz }, false)
                                .ok()
                                .and_then(|s| s.try_to_scalar_int().ok()),
                            _ => None,
                        }
                    }
                    _ => None,
                }) {
                    let val = match t.kind() {
                        ty::Int(_) => format!("{}", si.to_int(si.size())),
                        _ => format!("{}", si.to_uint(si.size())),
                    };
                    return format!("{{\"k\":\"int\",\"v\":\"{val}\",\"t\":{}}}", js(&self.ty_str(t)));
                }
            }
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(b)));
                        }
                    }
                    ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"k\":\"bytes\",\"v\":{}}}", jlist(b.iter().map(|x| x.to_string())));
                        }
                    }
                    _ => {
                        // thin reference: read what it points at
                        let ptr = match v {
                            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => Some(p),
                            ConstValue::Indirect { alloc_id, offset } => match tcx.global_alloc(alloc_id) {
                                mir::interpret::GlobalAlloc::Memory(a) => a
                                    .inner()
                                    .read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: tcx.data_layout.pointer_size() }, true)
                                    .ok()
                                    .map(|s| s.to_pointer(&tcx))
                                    .and_then(|p| p.into_pointer_or_addr().ok()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(p) = ptr {
                            let (prov, off) = p.prov_and_relative_offset();
                            match tcx.global_alloc(prov.alloc_id()) {
                                mir::interpret::GlobalAlloc::Static(d) => {
                                    let inner_json = match tcx.eval_static_initializer(d) {
                                        Ok(a) if inner.is_sized(tcx, env) => {
                                            let id = tcx.reserve_and_set_memory_alloc(a);
                                            self.const_val(env, ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1)
                                        }
                                        _ => "null".into(),
                                    };
                                    return format!("{{\"k\":\"static\",\"v\":{},\"val\":{},\"mut\":{}}}", js(&self.path(d)), inner_json, tcx.is_mutable_static(d));
                                }
                                mir::interpret::GlobalAlloc::Memory(_) if inner.is_sized(tcx, env) => {
                                    let x = self.const_val(
                                        env,
                                        ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off },
                                        *inner,
                                        depth + 1,
                                    );
                                    return format!("{{\"k\":\"ref\",\"v\":{x}}}");
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            ty::RawPtr(..) => {
                if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"k\":\"static\",\"v\":{},\"val\":null,\"mut\":{}}}", js(&self.path(d)), tcx.is_mutable_static(d));
                    }
                }
            }
            ty::FnDef(d, a) => {
                let c = self.callee(env, *d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
                return format!("{{\"k\":\"fn\",\"v\":{c}}}");
            }
            ty::Closure(d, a) => {
                let inst = Instance::new_raw(*d, a);
                let id = self.inst_id(env, inst);
                return format!("{{\"k\":\"agg\",\"a\":\"closure\",\"inst\":{id},\"v\":[]}}");
            }
            // None of an optional reference to something generic: the null pointer
            ty::Adt(a, args)
                if t.has_non_region_param()
                    && self.path(a.did()) == "core::option::Option"
                    && args.types().next().is_some_and(|x| matches!(x.kind(), ty::Ref(..)))
                    && matches!(v, ConstValue::Scalar(s) if s.try_to_scalar_int().is_ok_and(|i| i.is_null())) =>
            {
                self.adt(a.did());
                return format!("{{\"k\":\"agg\",\"a\":{},\"var\":\"None\",\"names\":[],\"v\":[]}}", js(&self.path(a.did())));
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) if !t.has_non_region_param() => {
                if let ty::Array(e, n) = t.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (v, n.try_to_target_usize(tcx)) {
                            if let mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                                let s = offset.bytes_usize();
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                                return format!("{{\"k\":\"bytes\",\"v\":{}}}", jlist(b.iter().map(|x| x.to_string())));
                            }
                        }
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<String> =
                        d.fields.iter().map(|(v, t)| self.const_val(env, *v, *t, depth + 1)).collect();
                    let (kind, var, names) = match t.kind() {
                        ty::Adt(a, _) => {
                            self.adt(a.did());
                            let vi = d.variant.unwrap_or(rustc_abi::VariantIdx::from_usize(0));
                            let vd = a.variant(vi);
                            (
                                self.path(a.did()),
                                vd.name.to_string(),
                                vd.fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>(),
                            )
                        }
                        ty::Array(..) => ("array".into(), String::new(), vec![]),
                        _ => ("tuple".into(), String::new(), vec![]),
                    };
                    return format!(
                        "{{\"k\":\"agg\",\"a\":{},\"var\":{},\"names\":{},\"v\":{}}}",
                        js(&kind),
                        js(&var),
                        jlist(names.iter().map(|n| js(n))),
                        jlist(fields)
                    );
                }
            }
            ty::Adt(a, _) if matches!(v, ConstValue::ZeroSized) && a.is_struct() => {
                self.adt(a.did());
                let vd = a.non_enum_variant();
                return format!(
                    "{{\"k\":\"agg\",\"a\":{},\"var\":{},\"names\":{},\"v\":{}}}",
                    js(&self.path(a.did())),
                    js(vd.name.as_str()),
                    jlist(vd.fields.iter().map(|f| js(f.name.as_str()))),
                    jlist(vd.fields.iter().map(|_| "{\"k\":\"zst\"}".to_string()))
                );
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            return format!("{{\"k\":\"zst\",\"t\":{}}}", js(&self.ty_str(t)));
        }
        opaque(self)
    }

    /// the value of a promoted constant of a generic function, which cannot be evaluated, but read off its body
    fn promoted(&mut self, env: TypingEnv<'tcx>, c: Const<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        let Const::Unevaluated(uv, _) = c else { return None };
        let body = tcx.promoted_mir(uv.def).get(uv.promoted?)?.clone();
        let body = EarlyBinder::bind(tcx, body).instantiate(tcx, uv.args).skip_norm_wip();
        let mut vals: BTreeMap<usize, String> = BTreeMap::new();
        let mut bb = START_BLOCK;
        for _ in 0..8 {
            let data = &body.basic_blocks[bb];
            for st in &data.statements {
                let StatementKind::Assign(a) = &st.kind else { continue };
                let (place, rv) = (a.0, &a.1);
                if !place.projection.is_empty() {
                    return None;
                }
                let v = match rv {
                    Rvalue::Use(o, _) => self.promoted_operand(env, &body, &vals, o)?,
                    Rvalue::Cast(CastKind::PointerCoercion(..), o, _) => self.promoted_operand(env, &body, &vals, o)?,
                    Rvalue::Ref(_, BorrowKind::Shared, p) if p.projection.is_empty() => {
                        format!("{{\"k\":\"ref\",\"v\":{}}}", vals.get(&p.local.as_usize())?)
                    }
                    Rvalue::Aggregate(k, ops) => {
                        let mut vs = vec![];
                        for o in ops {
                            vs.push(self.promoted_operand(env, &body, &vals, o)?);
                        }
                        match &**k {
                            AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"a\":\"array\",\"v\":{}}}", jlist(vs)),
                            AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"v\":{}}}", jlist(vs)),
                            AggregateKind::Adt(d, v, _, _, None) => {
                                self.adt(*d);
                                let vd = tcx.adt_def(*d).variant(*v);
                                format!(
                                    "{{\"k\":\"agg\",\"a\":{},\"var\":{},\"names\":{},\"v\":{}}}",
                                    js(&self.path(*d)),
                                    js(vd.name.as_str()),
                                    jlist(vd.fields.iter().map(|f| js(f.name.as_str()))),
                                    jlist(vs)
                                )
                            }
                            _ => return None,
                        }
                    }
                    _ => return None,
                };
                vals.insert(place.local.as_usize(), v);
            }
            match &data.terminator().kind {
                TerminatorKind::Goto { target, .. } => bb = *target,
                TerminatorKind::Return => return vals.remove(&0),
                _ => return None,
            }
        }
        None
    }

    fn promoted_operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, vals: &BTreeMap<usize, String>, o: &Operand<'tcx>) -> Option<String> {
        match o {
            Operand::Copy(p) | Operand::Move(p) if p.projection.is_empty() => vals.get(&p.local.as_usize()).cloned(),
            Operand::Constant(_) => {
                let x = self.operand(env, body, o);
                Some(x.strip_prefix("{\"k\":")?.strip_suffix('}')?.to_string())
            }
            _ => None,
        }
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = match c.const_.eval(self.tcx, env, c.span) {
                    Ok(v) => self.const_val(env, v, t, 0),
                    Err(_) => match self.promoted(env, c.const_) {
                        Some(v) => v,
                        None => format!("{{\"k\":\"opaque\",\"t\":{},\"u\":{}}}", js(&self.ty_str(t)), js(&format!("{}", c.const_))),
                    },
                };
                format!("{{\"k\":{v}}}")
            }
            Operand::RuntimeChecks(r) => format!("{{\"rt\":{}}}", js(&format!("{r:?}"))),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(env, body, o),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                matches!(k, BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Rvalue::RawPtr(k, p) => {
                format!("[\"rawptr\",{},{}]", js(&format!("{k:?}")), self.place(body, *p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"reborrow\",{},{}]", m.is_mut(), self.place(body, *p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let (f, t2) = (self.ty(from), self.ty(*t));
                let ks = format!("{k:?}");
                let extra = match (k, from.kind()) {
                    (CastKind::PointerCoercion(ty::adjustment::PointerCoercion::ReifyFnPointer(..), _), ty::FnDef(..)) => String::new(),
                    _ => String::new(),
                };
                format!("[\"cast\",{},{},{f},{t2}{extra}]", js(&ks), self.operand(env, body, o))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{t}]",
                    js(&format!("{op:?}")),
                    self.operand(env, body, &ab.0),
                    self.operand(env, body, &ab.1)
                )
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                format!("[\"un\",{},{},{t}]", js(&format!("{op:?}")), self.operand(env, body, a))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let m = match t.kind() {
                    ty::Adt(a, _) if a.is_enum() => {
                        self.adt(a.did());
                        let v: Vec<String> = a
                            .discriminants(tcx)
                            .map(|(i, d)| format!("\"{}\":{}", d.val, js(a.variant(i).name.as_str())))
                            .collect();
                        format!("{{{}}}", v.join(","))
                    }
                    _ => "null".into(),
                };
                format!("[\"discr\",{},{}]", self.place(body, *p), m)
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, f) => {
                        self.adt(*d);
                        let a = tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        let names: Vec<String> = match f {
                            Some(f) => vec![js(vd.fields[*f].name.as_str())],
                            None => vd.fields.iter().map(|f| js(f.name.as_str())).collect(),
                        };
                        format!("[\"adt\",{},{},{}]", js(&self.path(*d)), js(vd.name.as_str()), jlist(names))
                    }
                    AggregateKind::Closure(d, a) => {
                        let inst = Instance::new_raw(*d, a);
                        let id = self.inst_id(env, inst);
                        format!("[\"closure\",{id},{}]", js(&self.canon(*d)))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{kind},{}]", jlist(ops))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, *p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_remapped_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn dump(&mut self, id: usize, env: TypingEnv<'tcx>, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let body = match inst.def {
            ty::InstanceKind::Item(d) => {
                if !tcx.is_mir_available(d) {
                    return;
                }
                if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
                    return;
                }
                tcx.instance_mir(inst.def)
            }
            _ => tcx.instance_mir(inst.def),
        };
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => return,
        };
        let d = inst.def_id();
        let mut o = String::from("{");
        let _ = write!(o, "\"id\":{id},\"path\":{},\"canon\":{},\"crate\":{},\"local\":{}", js(&self.path(d)), js(&self.canon(d)), js(tcx.crate_name(d.krate).as_str()), d.is_local());
        let kind = match inst.def {
            ty::InstanceKind::Item(_) if tcx.is_closure_like(d) => "closure",
            ty::InstanceKind::Item(_) => "fn",
            _ => "shim",
        };
        let _ = write!(o, ",\"kind\":\"{kind}\",\"inst\":{}", js(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{inst}")))));
        let _ = write!(o, ",\"span\":{}", js(&self.span(body.span)));
        let ia: Vec<usize> = inst.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect();
        let _ = write!(o, ",\"iargs\":{}", jlist(ia.iter().map(|x| x.to_string())));
        let _ = write!(o, ",\"argc\":{}", body.arg_count);
        if let Some(l) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", l.as_usize());
        }
        let mut locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let locals_at = o.len();
        let nblocks = body.basic_blocks.len();
        let mut extra: Vec<String> = vec![];
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("\"{}\":{}", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":{{{}}}", names.join(","));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let rv = self.rvalue(env, &body, r);
                        st.push(format!("[\"=\",{},{},{}]", self.place(&body, *p), rv, js(&self.span(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let n = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => "?".into(),
                        };
                        st.push(format!("[\"setd\",{},{}]", self.place(&body, **place), js(&n)));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", js(&format!("{i:?}")))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = js(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    let mut v: Vec<String> = vec![];
                    for (val, tgt) in targets.iter() {
                        let unreach = matches!(body.basic_blocks[tgt].terminator().kind, TerminatorKind::Unreachable) && body.basic_blocks[tgt].statements.is_empty();
                        if !unreach {
                            v.push(format!("[\"{}\",{}]", val, tgt.as_usize()));
                        } else {
                            v.push(format!("[\"{}\",null]", val));
                        }
                    }
                    let ot = targets.otherwise();
                    let unreach = matches!(body.basic_blocks[ot].terminator().kind, TerminatorKind::Unreachable) && body.basic_blocks[ot].statements.is_empty();
                    format!(
                        "[\"switch\",{},[{}],{},{dt},{sp}]",
                        self.operand(env, &body, discr),
                        v.join(","),
                        if unreach { "null".to_string() } else { ot.as_usize().to_string() }
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pj = self.place(&body, *place);
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let mut calls = vec![];
                    self.user_drops(env, t, &pj, 0, &mut calls);
                    // what Drop implementations of interest do, as calls
                    let mut next = target.as_usize();
                    while let Some((ty, pl, callee)) = calls.pop() {
                        let r = locals.len();
                        let rt = Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, ty);
                        let rt = self.ty(rt);
                        let ut = self.ty(tcx.types.unit);
                        locals.push(rt.to_string());
                        locals.push(ut.to_string());
                        extra.push(format!(
                            "{{\"s\":[[\"=\",[{r}],[\"ref\",true,{pl}],{sp}]],\"t\":[\"call\",{{\"k\":{{\"k\":\"fn\",\"v\":{callee}}}}},[{{\"m\":[{r}]}}],[{}],{next},{sp},[{rt}],{ut}]}}",
                            r + 1
                        ));
                        next = nblocks + extra.len() - 1;
                    }
                    format!("[\"drop\",{pj},{next}]")
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, &body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(env, &body, &a.node)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let rt = destination.ty(&body.local_decls, tcx).ty;
                    let rt = self.ty(rt);
                    format!(
                        "[\"call\",{f},{},{},{},{sp},{},{rt}]",
                        jlist(a),
                        self.place(&body, *destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        jlist(at)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(env, &body, len),
                            self.operand(env, &body, index)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]",
                            js(&format!("{op:?}")),
                            self.operand(env, &body, a),
                            self.operand(env, &body, b)
                        ),
                        k => {
                            let s = format!("{k:?}");
                            let s = s.split('(').next().unwrap_or("").to_string();
                            format!("[{}]", js(&s))
                        }
                    };
                    format!(
                        "[\"assert\",{},{expected},{m},{},{sp}]",
                        self.operand(env, &body, cond),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", js(&format!("{k:?}"))),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{term}}}", jlist(st)));
        }
        bbs.extend(extra);
        o.insert_str(locals_at, &format!(",\"locals\":{}", jlist(locals)));
        let _ = write!(o, ",\"blocks\":{}", jlist(bbs));
        o.push('}');
        self.bodies[id] = o;
    }
}

fn load_models<'tcx>(tcx: TyCtxt<'tcx>) -> Models {
    let mut m = Models { map: HashMap::new(), krate: None };
    let src = match std::env::var("VERIF_MODELS_SRC") {
        Ok(s) => std::fs::read_to_string(s).unwrap_or_default(),
        _ => return m,
    };
    for &c in tcx.crates(()) {
        if tcx.crate_name(c).as_str() == "verif_models" {
            m.krate = Some(c);
        }
    }
    let Some(c) = m.krate else { return m };
    let root = c.as_def_id();
    let mut fns: HashMap<String, DefId> = HashMap::new();
    let mut stack = vec![root];
    while let Some(d) = stack.pop() {
        for ch in tcx.module_children(d) {
            if let Some(id) = ch.res.opt_def_id() {
                if id.krate != c {
                    continue;
                }
                match tcx.def_kind(id) {
                    DefKind::Fn => {
                        fns.insert(ch.ident.to_string(), id);
                    }
                    DefKind::Mod => stack.push(id),
                    _ => {}
                }
            }
        }
    }
    // `//@ path` lines apply to the next `pub fn name`
    let mut pending: Vec<String> = vec![];
    for l in src.lines() {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@ ") {
            pending.push(p.trim().to_string());
        } else if let Some(rest) = t.strip_prefix("pub fn ") {
            let name: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !pending.is_empty() {
                if let Some(d) = fns.get(&name) {
                    for p in pending.drain(..) {
                        m.map.insert(p, *d);
                    }
                }
                pending.clear();
            }
        }
    }
    m
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() == target_crate() {
            emit(tcx);
        }
        Compilation::Continue
    }
}

/// the crate whose MIR is written
fn target_crate() -> String {
    std::env::var("VERIF_CRATE").unwrap_or_else(|_| "scale_value".to_string())
}

fn emit<'tcx>(tcx: TyCtxt<'tcx>) {
    let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
    let models = load_models(tcx);
    let mut cx = Cx { tcx, ids: HashMap::new(), queue: vec![], bodies: vec![], types: HashMap::new(), type_json: vec![], models, adts: HashMap::new() };
    let ev = tcx.effective_visibilities(());
    let mut roots = vec![];
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
    let mut consts = vec![];
    for k in keys {
        let d = k.to_def_id();
        let dk = tcx.def_kind(d);
        if !matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            if let DefKind::Static { .. } = dk {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                let ti = cx.ty(t);
                let val = match tcx.eval_static_initializer(d) {
                    Ok(a) => {
                        let id = tcx.reserve_and_set_memory_alloc(a);
                        cx.const_val(TypingEnv::post_analysis(tcx, d), ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, t, 0)
                    }
                    Err(_) => "null".into(),
                };
                consts.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{freeze},\"ty\":{ti},\"tls\":{},\"val\":{val}}}", js(&cx.path(d)), tcx.is_mutable_static(d), tcx.is_thread_local_static(d)));
            }
            continue;
        }
        let env = TypingEnv::post_analysis(tcx, d);
        let inst = Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d));
        let inst = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(inst)).unwrap_or(inst);
        let id = cx.inst_id(env, inst);
        let mut o = String::from("{");
        let _ = write!(o, "\"inst\":{id},\"path\":{},\"canon\":{}", js(&cx.path(d)), js(&cx.canon(d)));
        let name = tcx.item_name(d);
        let _ = write!(o, ",\"name\":{}", js(name.as_str()));
        let _ = write!(o, ",\"pub\":{},\"reach\":{}", tcx.visibility(d).is_public(), ev.is_reachable(k));
        let par = tcx.parent(d);
        if matches!(tcx.def_kind(par), DefKind::Impl { .. }) {
            let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
            let si = cx.ty(st);
            let _ = write!(o, ",\"self\":{si}");
            if let Some(tr) = tcx.impl_opt_trait_ref(par) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"trait\":{}", js(&cx.path(tr.def_id)));
                let _ = write!(o, ",\"traitref\":{}", js(&with_no_visible_paths!(with_no_trimmed_paths!(format!("{tr}")))));
                let derived = tcx.is_automatically_derived(par);
                let _ = write!(o, ",\"derived\":{derived}");
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(*t).to_string()).collect();
        let outt = cx.ty(sig.output());
        let _ = write!(o, ",\"inputs\":{},\"output\":{outt},\"unsafe\":{}", jlist(ins), !sig.safety().is_safe());
        let _ = write!(o, ",\"span\":{}", js(&cx.span(tcx.def_span(d))));
        o.push('}');
        roots.push(o);
    }
    while let Some((id, env, inst)) = cx.queue.pop() {
        cx.dump(id, env, inst);
    }
    // all ADTs defined locally
    for k in tcx.hir_crate_items(()).definitions() {
        let d = k.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            cx.adt(d);
        }
    }
    // unsafe blocks / raw trait impls in the local crate
    let mut impls = vec![];
    for (tr, list) in tcx.all_local_trait_impls(()) {
        for i in list {
            let h = tcx.impl_trait_header(i.to_def_id());
            let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
            let si = cx.ty(st);
            impls.push(format!("{{\"trait\":{},\"self\":{si},\"unsafe\":{}}}", js(&cx.path(*tr)), !h.safety.is_safe()));
        }
    }
    let mut o = String::new();
    o.push_str("{\"roots\":");
    o.push_str(&jlist(roots));
    o.push_str(",\n\"types\":");
    o.push_str(&jlist(cx.type_json.clone()));
    o.push_str(",\n\"statics\":");
    o.push_str(&jlist(consts));
    o.push_str(",\n\"impls\":");
    o.push_str(&jlist(impls));
    o.push_str(",\n\"adts\":");
    let mut a: Vec<String> = cx.adts.values().cloned().collect();
    a.sort();
    o.push_str(&jlist(a));
    o.push_str(",\n\"models\":");
    let mut mk: Vec<String> = cx.models.map.keys().map(|k| js(k)).collect();
    mk.sort();
    o.push_str(&jlist(mk));
    o.push_str(",\n\"bodies\":[\n");
    o.push_str(&cx.bodies.join(",\n"));
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write facts");
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let rustc = args.remove(1);
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target_crate())
        && !args.iter().any(|a| a == "--test")
        && args.iter().any(|a| a == "lib" || a == "--crate-type=lib" || a == "rlib");
    if !is_target {
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    // build the models against the same dependencies
    if let Ok(src) = std::env::var("VERIF_MODELS_SRC") {
        let outf = std::env::var("VERIF_MODELS_OUT").expect("VERIF_MODELS_OUT");
        let mut c = std::process::Command::new(&rustc);
        c.args([src.as_str(), "--crate-name", "verif_models", "--crate-type", "rlib", "--edition", "2021", "--emit=metadata", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Awarnings", "-o", &outf]);
        let mut i = 1;
        while i < args.len() {
            if args[i] == "--extern" || args[i] == "-L" {
                c.arg(&args[i]).arg(&args[i + 1]);
                i += 2;
                continue;
            }
            if args[i] == "--cfg" {
                c.arg(&args[i]).arg(&args[i + 1]);
                i += 2;
                continue;
            }
            i += 1;
        }
        let st = c.status().expect("rustc for models");
        if !st.success() {
            eprintln!("vdriver: models do not compile");
            std::process::exit(97);
        }
        args.push("--extern".into());
        args.push(format!("force:verif_models={outf}"));
    }
    args.push("-Zunstable-options".into());
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    let _ = code;
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
