// Facts about the impls of a crate: headers, where-clauses, path summaries of their methods.
use crate::json::{arr, obj, s, strs};
use crate::sum::Sum;
use rustc_hir::def::DefKind;
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_middle::ty::{self, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::{ExpnKind, MacroKind, Span};

/// The derive(Error) expansion this span comes from, if any.
fn derive_of(sp: Span) -> Option<String> {
    let mut ctxt = sp.ctxt();
    while !ctxt.is_root() {
        let d = ctxt.outer_expn_data();
        if let ExpnKind::Macro(MacroKind::Derive, n) = d.kind {
            return Some(n.to_string().rsplit("::").next().unwrap_or("").trim().to_string());
        }
        ctxt = d.call_site.ctxt();
    }
    None
}

pub fn loc(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let l = tcx.sess.source_map().lookup_char_pos(sp.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

pub fn preds<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Vec<String> {
    let mut v = vec![];
    for (c, _) in tcx.clauses_of(d).instantiate_identity(tcx).into_iter() {
        v.push(format!("{}", c.skip_norm_wip()));
    }
    v.sort();
    v.dedup();
    v
}

pub fn fn_facts<'tcx>(tcx: TyCtxt<'tcx>, d: LocalDefId, names: &[&str]) -> String {
    let env = TypingEnv::post_analysis(tcx, d.to_def_id());
    let mut sm = Sum::new(tcx, env);
    let ps = sm.run_root(d.to_def_id(), names);
    let paths = match &ps {
        None => "null".to_string(),
        Some(ps) => arr(&ps
            .iter()
            .map(|p| {
                obj(&[
                    ("c", arr(&p.cons.iter().map(|(a, b)| strs([a, b])).collect::<Vec<_>>())),
                    ("e", strs(p.effects.iter().map(|e| sm.canon(e)))),
                    ("r", s(&sm.canon(&p.ret))),
                ])
            })
            .collect::<Vec<_>>()),
    };
    let mut f = sm.bodies_followed.clone();
    f.sort();
    f.dedup();
    obj(&[("paths", paths), ("overflow", (if sm.overflow { "true" } else { "false" }).into()), ("followed", strs(f))])
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut impls = vec![];
    let mut items = vec![];
    let mut types = vec![];
    let ci = tcx.hir_crate_items(());
    for id in ci.definitions() {
        let did = id.to_def_id();
        let kind = tcx.def_kind(did);
        let sp = tcx.def_span(did);
        let der = derive_of(sp);
        match kind {
            DefKind::Impl { of_trait } => {
                let tr = if of_trait { Some(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip()) } else { None };
                let selfty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let mut fns = vec![];
                let mut names = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    names.push(it.name().to_string());
                    if let Some(l) = it.def_id.as_local() {
                        let want = der.as_deref() == Some("Error") || (der.is_none() && is_ref_impl(tcx, tr));
                        if want && matches!(tcx.def_kind(it.def_id), DefKind::AssocFn) {
                            fns.push(format!(
                                "{}:{}",
                                s(it.name().as_str()),
                                fn_facts(tcx, l, &["ARG0", "ARG1", "ARG2"])
                            ));
                        }
                    }
                }
                let mut attrs = vec![];
                if tcx.is_automatically_derived(did) {
                    attrs.push("automatically_derived");
                }
                let (t, targs) = match tr {
                    Some(t) => {
                        let e = t;
                        (tcx.def_path_str(t.def_id), format!("{}", e.print_only_trait_path()))
                    }
                    None => (String::new(), String::new()),
                };
                impls.push(obj(&[
                    ("trait", s(&t)),
                    ("trait_full", s(&targs)),
                    ("self", s(&format!("{}", selfty))),
                    ("module", s(&tcx.def_path_str(tcx.parent_module_from_def_id(id).to_def_id()))),
                    ("in_fn", if at_module_level(tcx, did) { "false".into() } else { "true".into() }),
                    ("derive", match &der { Some(d) => s(d), None => "null".into() }),
                    ("attrs", strs(attrs)),
                    ("generics", strs(tcx.generics_of(did).own_params.iter().map(|p| p.name.to_string()))),
                    ("preds", strs(preds(tcx, did))),
                    ("items", strs(names)),
                    ("fns", format!("{{{}}}", fns.join(","))),
                    ("loc", s(&loc(tcx, sp))),
                ]));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let adt = tcx.adt_def(did);
                types.push(obj(&[
                    ("path", s(&tcx.def_path_str(did))),
                    ("loc", s(&loc(tcx, sp))),
                    ("variants", arr(&adt.variants().iter().map(|v| obj(&[
                        ("name", s(v.name.as_str())),
                        ("fields", strs(v.fields.iter().map(|f| f.name.to_string()))),
                    ])).collect::<Vec<_>>())),
                ]));
            }
            _ => {}
        }
        if der.as_deref() == Some("Error") {
            items.push(obj(&[
                ("kind", s(&format!("{:?}", kind))),
                ("path", s(&tcx.def_path_str(did))),
                ("module", s(&tcx.def_path_str(tcx.parent_module_from_def_id(id).to_def_id()))),
                ("top", if tcx.opt_parent(did).is_some() && at_module_level(tcx, did) { "true".into() } else { "false".into() }),
                ("anon", if is_anon_const(tcx, did) { "true".into() } else { "false".into() }),
                ("loc", s(&loc(tcx, sp))),
            ]));
        }
    }
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    obj(&[
        ("impls", arr(&impls)),
        ("derive_items", arr(&items)),
        ("types", arr(&types)),
        ("crates", strs(crates)),
    ])
}

fn is_anon_const(tcx: TyCtxt<'_>, d: DefId) -> bool {
    matches!(tcx.def_kind(d), DefKind::Const { .. }) && tcx.opt_item_name(d).is_some_and(|n| n.as_str() == "_")
}

/// An item of a module, or of a `const _: () = { .. };` in one.
fn at_module_level(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let mut p = tcx.parent(d);
    while is_anon_const(tcx, p) {
        p = tcx.parent(p);
    }
    matches!(tcx.def_kind(p), DefKind::Mod)
}

fn is_ref_impl<'tcx>(tcx: TyCtxt<'tcx>, tr: Option<ty::TraitRef<'tcx>>) -> bool {
    match tr {
        Some(t) => {
            let p = tcx.def_path_str(t.def_id);
            let p = p.rsplit("::").next().unwrap_or("").to_string();
            p == "Error" || p == "Display" || p == "From"
        }
        None => false,
    }
}
