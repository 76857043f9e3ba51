//! Dumps facts about the items of the crate `fleece` as rustc resolved and type-checked them: its types and
//! their fields, which types are Send and Sync and why, the signatures of its functions, and what becomes of
//! every Result. Used as RUSTC_WRAPPER. It never runs any of the code it dumps.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::*;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn show<'tcx>(t: impl std::fmt::Display) -> String {
    with_no_trimmed_paths!(t.to_string())
}

/// Does every value of this type satisfy the trait?
fn has<'tcx>(tcx: TyCtxt<'tcx>, env: ParamEnv<'tcx>, t: Ty<'tcx>, tr: DefId) -> bool {
    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
    let t = tcx.erase_and_anonymize_regions(t);
    infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
}

struct Traits {
    send: DefId,
    sync: DefId,
    freeze: DefId,
}

/// Why this type does not have the trait: the parts which lack it
fn lacking<'tcx>(
    tcx: TyCtxt<'tcx>, env: ParamEnv<'tcx>, t: Ty<'tcx>, want: DefId, tr: &Traits, seen: &mut BTreeSet<String>,
    out: &mut Vec<String>,
) {
    if has(tcx, env, t, want) || !seen.insert(show(t)) {
        return;
    }
    let pointee = match t.kind() {
        TyKind::RawPtr(p, _) => Some(*p),
        TyKind::Adt(d, a) if path(tcx, d.did()).ends_with("NonNull") => Some(a.type_at(0)),
        _ => None,
    };
    if let Some(p) = pointee {
        // A pointer can be shared if what it points to can
        let ok = has(tcx, env, p, tr.sync) && has(tcx, env, p, tr.freeze);
        out.push(format!("{{\"part\":{},\"pointer\":true,\"shareable\":{}}}", q(&show(t)), ok));
        return;
    }
    if let TyKind::Adt(d, a) = t.kind() {
        let transparent = ["Option", "Result"].iter().any(|x| path(tcx, d.did()).ends_with(x));
        if d.did().is_local() || d.is_box() || transparent {
            for f in d.all_fields() {
                lacking(tcx, env, f.ty(tcx, a).skip_norm_wip(), want, tr, seen, out);
            }
            return;
        }
    }
    if let TyKind::Tuple(l) = t.kind() {
        for x in l.iter() {
            lacking(tcx, env, x, want, tr, seen, out);
        }
        return;
    }
    out.push(format!("{{\"part\":{},\"pointer\":false,\"shareable\":false}}", q(&show(t))));
}

/// All nominal types and primitives which occur in a type
fn mentions<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, out: &mut BTreeSet<String>) {
    for a in t.walk() {
        if let GenericArgKind::Type(t) = a.kind() {
            match t.kind() {
                TyKind::Adt(d, _) => {
                    out.insert(path(tcx, d.did()));
                }
                TyKind::RawPtr(p, _) => {
                    out.insert(format!("*{}", show(*p)));
                }
                TyKind::Ref(_, p, m) => {
                    out.insert(format!("&{}{}", if m.is_mut() { "mut " } else { "" }, show(*p)));
                }
                TyKind::Slice(p) => {
                    out.insert(format!("[{}]", show(*p)));
                }
                TyKind::Array(p, _) => {
                    out.insert(format!("[{}]", show(*p)));
                }
                TyKind::Dynamic(ps, ..) => {
                    for p in ps.iter() {
                        out.insert(show(p));
                    }
                    for p in ps.projection_bounds() {
                        if let Some(t) = p.skip_binder().term.as_type() {
                            mentions(tcx, t, out);
                        }
                    }
                }
                TyKind::Param(p) => {
                    out.insert(format!("?{}", p.name));
                }
                TyKind::Str | TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                    out.insert(show(t));
                }
                _ => {}
            }
        }
    }
}

// ---- What becomes of a Result
fn is_result<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> Option<(Ty<'tcx>, Ty<'tcx>)> {
    match t.kind() {
        TyKind::Adt(d, a) if tcx.is_diagnostic_item(rustc_span::sym::Result, d.did()) => Some((a.type_at(0), a.type_at(1))),
        _ => None,
    }
}

fn callee<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, f: &Operand<'tcx>) -> String {
    match f.ty(&body.local_decls, tcx).kind() {
        TyKind::FnDef(d, _) => path(tcx, *d),
        _ => "an indirect call".into(),
    }
}

/// Gives a Result with the failure of another one
fn combinator(name: &str) -> bool {
    name.starts_with("core::result::Result::<T, E>::")
        && matches!(name.rsplit("::").next(), Some("ok" | "map" | "map_err" | "and_then" | "inspect" | "inspect_err" | "and"))
}

struct Uses {
    sinks: BTreeSet<String>,
    returned: bool,
    discriminant: bool,
    /// On the way of a failure that is tested for, one is made
    reported: bool,
    payload: bool,
    kept: bool,
}

fn place_use<'tcx>(p: &Place<'tcx>, set: &BTreeSet<Local>, errs: &BTreeSet<u32>, u: &mut Uses) -> bool {
    // Is it the whole value? Otherwise notes the use of its error
    if !set.contains(&p.local) {
        return false;
    }
    if p.projection.is_empty() {
        return true;
    }
    for e in p.projection.iter() {
        if let ProjectionElem::Downcast(_, v) = e {
            if errs.contains(&v.as_u32()) {
                u.payload = true;
            }
        }
    }
    false
}

fn reachable(body: &Body<'_>, from: BasicBlock) -> BTreeSet<BasicBlock> {
    let mut seen = BTreeSet::new();
    let mut work = vec![from];
    while let Some(b) = work.pop() {
        if seen.insert(b) {
            if let Some(t) = &body.basic_blocks[b].terminator {
                work.extend(t.successors());
            }
        }
    }
    seen
}
/// Is a failure made where only the one way leads, of the two?
fn fails<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, err: BasicBlock, ok: BasicBlock) -> bool {
    let not = reachable(body, ok);
    for b in reachable(body, err) {
        if not.contains(&b) {
            continue;
        }
        let bb = &body.basic_blocks[b];
        for s in &bb.statements {
            if let StatementKind::Assign(a) = &s.kind {
                let t = a.0.ty(&body.local_decls, tcx).ty;
                let made = match &a.1 {
                    Rvalue::Aggregate(k, _) => match &**k {
                        AggregateKind::Adt(d, v, ..) => {
                            let p = path(tcx, *d);
                            (p.ends_with("result::Result") && v.as_u32() == 1) || (p.ends_with("option::Option") && v.as_u32() == 0)
                        }
                        _ => false,
                    },
                    // A constant None or Err
                    Rvalue::Use(Operand::Constant(_), ..) => is_result(tcx, t).is_some() || matches!(t.kind(), TyKind::Adt(d, _) if path(tcx, d.did()).ends_with("option::Option")),
                    _ => false,
                };
                if made {
                    return true;
                }
            }
        }
        if let Some(TerminatorKind::Call { func, .. }) = bb.terminator.as_ref().map(|t| &t.kind) {
            if callee(tcx, body, func).ends_with("FromResidual::from_residual") {
                return true;
            }
        }
    }
    false
}
/// After `local` was set in a block: the ways where it is nonzero and where it is zero
fn ways(body: &Body<'_>, local: Local) -> Option<(BasicBlock, BasicBlock)> {
    for b in body.basic_blocks.iter() {
        if let Some(TerminatorKind::SwitchInt { discr, targets }) = b.terminator.as_ref().map(|t| &t.kind) {
            if discr.place().is_some_and(|p| p.projection.is_empty() && p.local == local) {
                let zero = targets.iter().find(|(v, _)| *v == 0).map(|x| x.1).unwrap_or(targets.otherwise());
                let one = targets.iter().find(|(v, _)| *v == 1).map(|x| x.1).unwrap_or(targets.otherwise());
                return Some((one, zero));
            }
        }
    }
    None
}

fn results<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, body: &Body<'tcx>, out: &mut Vec<String>) {
    let errs: BTreeSet<u32> = [1].into_iter().collect();
    for (_, bb) in body.basic_blocks.iter_enumerated() {
        let Some(t) = &bb.terminator else { continue };
        let TerminatorKind::Call { func, destination, .. } = &t.kind else { continue };
        if !destination.projection.is_empty() {
            continue;
        }
        let ty = body.local_decls[destination.local].ty;
        let from = callee(tcx, body, func);
        if combinator(&from) {
            continue;
        }
        let option = matches!(ty.kind(), TyKind::Adt(d, _) if path(tcx, d.did()).ends_with("option::Option"));
        let e = match is_result(tcx, ty) {
            Some((_, e)) => show(e),
            None if option => "None".into(),
            None => continue,
        };
        let mut set: BTreeSet<Local> = [destination.local].into_iter().collect();
        let mut refs: BTreeSet<Local> = BTreeSet::new();
        let mut u = Uses { sinks: BTreeSet::new(), returned: destination.local == RETURN_PLACE, discriminant: false, reported: false, payload: false, kept: false };
        loop {
            let before = (set.len(), refs.len());
            for b in body.basic_blocks.iter() {
                for s in &b.statements {
                    let StatementKind::Assign(a) = &s.kind else { continue };
                    let (dst, rv) = (&a.0, &a.1);
                    match rv {
                        Rvalue::Use(Operand::Copy(p) | Operand::Move(p), ..) => {
                            if place_use(p, &set, &errs, &mut u) {
                                if dst.projection.is_empty() {
                                    set.insert(dst.local);
                                } else {
                                    u.kept = true;
                                }
                            }
                            if refs.contains(&p.local) && dst.projection.is_empty() {
                                refs.insert(dst.local);
                            }
                        }
                        Rvalue::Ref(_, _, p) | Rvalue::RawPtr(_, p) => {
                            if place_use(p, &set, &errs, &mut u) && dst.projection.is_empty() {
                                refs.insert(dst.local);
                            }
                        }
                        Rvalue::Discriminant(p) => {
                            if place_use(p, &set, &errs, &mut u) {
                                u.discriminant = true;
                                if let Some((one, zero)) = ways(body, dst.local) {
                                    // The failure of a Result is its second variant, that of an Option its first
                                    let r = is_result(tcx, p.ty(&body.local_decls, tcx).ty).is_some();
                                    let (e, o) = if r { (one, zero) } else { (zero, one) };
                                    u.reported |= fails(tcx, body, e, o);
                                }
                            }
                        }
                        Rvalue::Aggregate(_, ops) => {
                            for o in ops {
                                if let Some(p) = o.place() {
                                    if place_use(&p, &set, &errs, &mut u) {
                                        u.kept = true;
                                    }
                                    if refs.contains(&p.local) {
                                        u.kept = true;
                                    }
                                }
                            }
                        }
                        Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Repeat(o, _) => {
                            if let Some(p) = o.place() {
                                if place_use(&p, &set, &errs, &mut u) {
                                    u.kept = true;
                                }
                            }
                        }
                        _ => {}
                    }
                }
                if let Some(t) = &b.terminator {
                    if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                        let name = callee(tcx, body, func);
                        if combinator(&name) && args.first().and_then(|x| x.node.place()).is_some_and(|p| place_use(&p, &set, &errs, &mut u)) {
                            // The same failure, in another type
                            if destination.projection.is_empty() {
                                set.insert(destination.local);
                            } else {
                                u.kept = true;
                            }
                            continue;
                        }
                        for (i, x) in args.iter().enumerate() {
                            if let Some(p) = x.node.place() {
                                if place_use(&p, &set, &errs, &mut u) || refs.contains(&p.local) {
                                    u.sinks.insert(format!("{}#{}", name, i));
                                    if let Some((one, zero)) = ways(body, destination.local) {
                                        if name.ends_with("::is_err") || name.ends_with("::is_none") {
                                            u.reported |= fails(tcx, body, one, zero);
                                        }
                                        if name.ends_with("::is_ok") || name.ends_with("::is_some") {
                                            u.reported |= fails(tcx, body, zero, one);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if (set.len(), refs.len()) == before {
                break;
            }
        }
        if set.contains(&RETURN_PLACE) {
            u.returned = true;
        }
        out.push(format!(
            "{{\"fn\":{},\"from\":{},\"error\":{},\"sinks\":{},\"returned\":{},\"discriminant\":{},\"reported\":{},\"payload\":{},\"kept\":{},\"span\":{}}}",
            q(&path(tcx, def.to_def_id())), q(&from), q(&e), list(u.sinks.iter().map(|x| q(x))), u.returned, u.discriminant, u.reported,
            u.payload, u.kept, q(&format!("{:?}", t.source_info.span))
        ));
    }
}

/// The functions which a body calls or names, and the pointers it makes of others
fn calls<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, body: &Body<'tcx>, out: &mut Vec<String>) {
    let (mut names, mut makes) = (BTreeSet::new(), BTreeSet::new());
    let owner = tcx.typeck_root_def_id(def.to_def_id());
    let mut named = |t: Ty<'tcx>, names: &mut BTreeSet<String>| {
        if let TyKind::FnDef(d, _) = t.kind() {
            let sig = tcx.fn_sig(*d).instantiate_identity().skip_norm_wip();
            names.insert(format!("[{},{}]", q(&path(tcx, *d)), sig.safety().is_unsafe()));
        }
    };
    for b in body.basic_blocks.iter() {
        for s in &b.statements {
            let StatementKind::Assign(a) = &s.kind else { continue };
            if let Rvalue::Cast(k, o, t) = &a.1 {
                let f = o.ty(&body.local_decls, tcx);
                named(f, &mut names);
                if matches!(k, CastKind::PtrToPtr | CastKind::Transmute) || format!("{k:?}").contains("ExposedProvenance") {
                    makes.insert(format!("[{},{}]", q(&show(f)), q(&show(*t))));
                }
            }
        }
        if let Some(t) = &b.terminator {
            if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                let f = func.ty(&body.local_decls, tcx);
                named(f, &mut names);
                for x in args.iter() {
                    named(x.node.ty(&body.local_decls, tcx), &mut names);
                }
                if let TyKind::FnDef(d, _) = f.kind() {
                    if path(tcx, *d).ends_with("transmute") {
                        let from = args[0].node.ty(&body.local_decls, tcx);
                        makes.insert(format!("[{},{}]", q(&show(from)), q(&show(destination.ty(&body.local_decls, tcx).ty))));
                    }
                }
            }
        }
    }
    out.push(format!("{{\"fn\":{},\"calls\":{},\"makes\":{}}}", q(&path(tcx, owner)), list(names), list(makes)));
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let tr = Traits {
        send: tcx.get_diagnostic_item(rustc_span::sym::Send).unwrap(),
        sync: tcx.lang_items().sync_trait().unwrap(),
        freeze: tcx.lang_items().freeze_trait().unwrap(),
    };
    let ev = tcx.effective_visibilities(());
    let pubs = |d: LocalDefId| ev.is_reachable(d);
    let (mut adts, mut fns, mut res, mut manual, mut statics) = (vec![], vec![], vec![], vec![], vec![]);
    let (mut bodies, mut traits) = (vec![], vec![]);
    // The instances of the crate's types which occur in it
    let mut instances: BTreeMap<String, BTreeMap<String, Ty<'_>>> = BTreeMap::new();
    for d in tcx.mir_keys(()) {
        let k = tcx.def_kind(*d);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        let body = tcx.optimized_mir(d.to_def_id());
        for l in body.local_decls.iter() {
            for a in l.ty.walk() {
                if let GenericArgKind::Type(t) = a.kind() {
                    if let TyKind::Adt(ad, args) = t.kind() {
                        if ad.did().is_local() && args.types().next().is_some() && !t.has_param() && !t.has_aliases() {
                            let t = tcx.erase_and_anonymize_regions(t);
                            instances.entry(path(tcx, ad.did())).or_default().insert(show(t), t);
                        }
                    }
                }
            }
        }
        results(tcx, *d, body, &mut res);
        calls(tcx, *d, body, &mut bodies);
    }
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let env = tcx.param_env(did);
                let fields = ad.all_fields().map(|f| {
                    let mut m = BTreeSet::new();
                    let ft = f.ty(tcx, GenericArgs::identity_for_item(tcx, did)).skip_norm_wip();
                    mentions(tcx, ft, &mut m);
                    let open = f.vis.is_public() || f.did.as_local().is_some_and(|l| ev.is_reachable(l) && f.vis.is_public());
                    format!("{{\"name\":{},\"ty\":{},\"pub\":{},\"mentions\":{}}}", q(f.name.as_str()), q(&show(ft)), open, list(m.iter().map(|x| q(x))))
                }).collect::<Vec<_>>();
                adts.push(format!(
                    "{{\"path\":{},\"pub\":{},\"enum\":{},\"sized\":{},\"send\":{},\"sync\":{},\"freeze\":{},\"fields\":{}}}",
                    q(&path(tcx, did)), pubs(d), ad.is_enum(), t.is_sized(tcx, TypingEnv::non_body_analysis(tcx, did)),
                    has(tcx, env, t, tr.send), has(tcx, env, t, tr.sync), has(tcx, env, t, tr.freeze), list(fields)
                ));
            }
            DefKind::Impl { of_trait: true } => {
                let h = tcx.impl_trait_header(did);
                let r = h.trait_ref.instantiate_identity().skip_norm_wip();
                let marker = if r.def_id == tr.send { "Send" } else if r.def_id == tr.sync { "Sync" } else { continue };
                if h.polarity != ImplPolarity::Positive {
                    continue;
                }
                let t = r.self_ty();
                let TyKind::Adt(ad, args) = t.kind() else {
                    manual.push(format!("{{\"trait\":{},\"type\":{},\"lacking\":[{{\"part\":\"the type itself\",\"pointer\":false,\"shareable\":false}}]}}", q(marker), q(&show(t))));
                    continue;
                };
                // What is asserted of a generic type is examined for each of its instances in the crate
                let mut all: Vec<(ParamEnv<'_>, Ty<'_>)> = vec![];
                if args.types().next().is_some() {
                    for t in instances.get(&path(tcx, ad.did())).into_iter().flat_map(|m| m.values()) {
                        all.push((ParamEnv::empty(), *t));
                    }
                } else {
                    all.push((tcx.param_env(did), t));
                }
                for (env, t) in all {
                    let TyKind::Adt(ad, args) = t.kind() else { continue };
                    let mut o = vec![];
                    let mut seen = BTreeSet::new();
                    let tenv = env;
                    for f in ad.all_fields() {
                        lacking(tcx, tenv, f.ty(tcx, args).skip_norm_wip(), r.def_id, &tr, &mut seen, &mut o);
                    }
                    manual.push(format!("{{\"trait\":{},\"type\":{},\"lacking\":{}}}", q(marker), q(&show(t)), list(o)));
                }
            }
            DefKind::Trait => {
                let supers: Vec<_> = tcx
                    .explicit_super_clauses_of(did)
                    .skip_binder()
                    .iter()
                    .filter_map(|(p, _)| p.as_trait_clause())
                    .map(|t| t.skip_binder().trait_ref.def_id)
                    .filter(|t| *t != did)
                    .map(|t| q(&path(tcx, t)))
                    .collect();
                traits.push(format!(
                    "{{\"path\":{},\"named\":{},\"unsafe\":{},\"supers\":{}}}",
                    q(&path(tcx, did)), ev.is_exported(d), tcx.trait_def(did).safety.is_unsafe(), list(supers)
                ));
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(format!(
                    "{{\"path\":{},\"ty\":{},\"mut\":{},\"sync\":{}}}",
                    q(&path(tcx, did)), q(&show(t)), mutability.is_mut(), has(tcx, ParamEnv::empty(), t, tr.sync)
                ));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let sig = tcx.liberate_late_bound_regions(did, sig);
                let (mut i, mut o) = (BTreeSet::new(), BTreeSet::new());
                for t in sig.inputs() {
                    mentions(tcx, *t, &mut i);
                }
                mentions(tcx, sig.output(), &mut o);
                let mut bounds = BTreeSet::new();
                let mut through = BTreeSet::new();
                for p in tcx.param_env(did).caller_bounds() {
                    if let Some(t) = p.as_trait_clause() {
                        let t = t.skip_binder();
                        if t.trait_ref.def_id.is_local() {
                            through.insert(path(tcx, t.trait_ref.def_id));
                        }
                        for x in t.trait_ref.args.types() {
                            mentions(tcx, x, &mut bounds);
                        }
                    }
                    if let Some(t) = p.as_projection_clause() {
                        if let Some(t) = t.skip_binder().term.as_type() {
                            mentions(tcx, t, &mut bounds);
                        }
                    }
                }
                // The lifetimes of what is returned, and those of what is given
                let regions = |ts: &mut dyn Iterator<Item = Ty<'_>>| {
                    let mut m = BTreeSet::new();
                    for t in ts {
                        for a in t.walk() {
                            if let GenericArgKind::Lifetime(r) = a.kind() {
                                m.insert(format!("{:?}", r));
                            }
                            if let GenericArgKind::Type(t) = a.kind() {
                                if let TyKind::Ref(r, ..) = t.kind() {
                                    m.insert(format!("{:?}", r));
                                }
                            }
                        }
                    }
                    list(m.iter().map(|x| q(x)))
                };
                let ri = regions(&mut sig.inputs().iter().copied());
                let ro = regions(&mut std::iter::once(sig.output()));
                let imp = tcx.impl_of_assoc(did);
                let of_trait = imp.filter(|i| tcx.impl_opt_trait_ref(*i).is_some());
                let tname = of_trait.map(|i| path(tcx, tcx.impl_trait_ref(i).skip_binder().def_id)).unwrap_or_default();
                fns.push(format!(
                    "{{\"path\":{},\"pub\":{},\"unsafe\":{},\"inputs\":{},\"in\":{},\"output\":{},\"out\":{},\"bounds\":{},\"through\":{},\"regions_in\":{},\"regions_out\":{},\"trait\":{}}}",
                    q(&path(tcx, did)), pubs(d) || of_trait.is_some(), sig.safety().is_unsafe(),
                    list(sig.inputs().iter().map(|t| q(&show(t)))), list(i.iter().map(|x| q(x))), q(&show(sig.output())),
                    list(o.iter().map(|x| q(x))), list(bounds.iter().map(|x| q(x))),
                    list(through.iter().map(|x| q(x))), ri, ro, q(&tname)
                ));
            }
            _ => {}
        }
    }
    let s = format!(
        "{{\"adts\":{},\n\"fns\":{},\n\"results\":{},\n\"bodies\":{},\n\"manual\":{},\n\"statics\":{},\n\"traits\":{}}}",
        list(adts), list(fns), list(res), list(bodies), list(manual), list(statics), list(traits)
    );
    std::fs::write(out, s).unwrap();
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER the first argument is the path of rustc
    if args.get(1).is_some_and(|x| x.ends_with("rustc")) {
        args.remove(1);
    }
    let krate = args.iter().position(|x| x == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    if let (Some(k), Ok(out)) = (&krate, std::env::var("VP_OUT")) {
        if k == "fleece" {
            let _ = rustc_public::run_with_tcx!(&args, |tcx| {
                dump(tcx, &out);
                ControlFlow::<()>::Continue(())
            });
            return;
        }
    }
    // Any other crate is compiled as usual
    let rustc = std::env::args().nth(1).unwrap();
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(rustc).args(&args[1..]).exec();
    panic!("{e}");
}
