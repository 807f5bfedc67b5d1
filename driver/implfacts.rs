// Facts about a crate's own source: what its bodies call, which types they handle, which statics and unsafe code exist,
// and which of its items are public.
use crate::facts::loc;
use crate::json::{arr, obj, s, strs};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::{ExpnKind, Span};

/// The names of the macros whose expansion this span is part of.
fn macros(sp: Span) -> Vec<String> {
    let mut v = vec![];
    let mut ctxt = sp.ctxt();
    while !ctxt.is_root() {
        let d = ctxt.outer_expn_data();
        if let ExpnKind::Macro(_, n) = d.kind {
            v.push(n.to_string());
        }
        ctxt = d.call_site.ctxt();
    }
    v
}

fn callee<'tcx>(tcx: TyCtxt<'tcx>, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> (String, String, String) {
    let args = tcx.erase_and_anonymize_regions(args);
    let plain = tcx.def_path_str(d);
    let full = tcx.def_path_str_with_args(d, args);
    let res = match Instance::try_resolve(tcx, env, d, args) {
        Ok(Some(i)) => tcx.def_path_str(i.def_id()),
        _ => String::new(),
    };
    (plain, full, res)
}

struct Uns<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
    /// Macros whose result depends on where the crate itself was built.
    built: Vec<String>,
}

impl<'tcx> Uns<'tcx> {
    fn add(&mut self, kind: &str, sp: Span) {
        self.out.push(obj(&[("kind", s(kind)), ("loc", s(&loc(self.tcx, sp))), ("macros", strs(macros(sp)))]));
    }
}

impl<'tcx> Visitor<'tcx> for Uns<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if macros(e.span).iter().any(|m| m.rsplit("::").next() == Some("option_env")) {
            self.built.push(loc(self.tcx, e.span.source_callsite()));
        }
        intravisit::walk_expr(self, e);
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.add("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::ForeignMod { .. } => self.add("extern block", i.span),
            hir::ItemKind::Fn { sig, .. } if sig.header.is_unsafe() => self.add("unsafe fn", i.span),
            hir::ItemKind::Impl(im) if im.of_trait.is_some_and(|t| !t.safety.is_safe()) => self.add("unsafe impl", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.add("global asm", i.span),
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
    fn visit_impl_item(&mut self, i: &'tcx hir::ImplItem<'tcx>) {
        if let hir::ImplItemKind::Fn(sig, _) = &i.kind {
            if sig.header.is_unsafe() {
                self.add("unsafe fn", i.span);
            }
        }
        intravisit::walk_impl_item(self, i);
    }
}

pub fn audit(tcx: TyCtxt<'_>) -> String {
    let mut fns = vec![];
    let mut statics = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Static { mutability, .. } = tcx.def_kind(d) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d.to_def_id()));
            statics.push(obj(&[
                ("path", s(&tcx.def_path_str(d))),
                ("type", s(&t.to_string())),
                ("mutable", if mutability.is_mut() { "true".into() } else { "false".into() }),
                ("freeze", if freeze { "true".into() } else { "false".into() }),
                ("loc", s(&loc(tcx, tcx.def_span(d)))),
            ]));
        }
    }
    for d in tcx.hir_body_owners() {
        fns.push(body(tcx, d));
    }
    let mut u = Uns { tcx, out: vec![], built: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut u);
    let mut public = vec![];
    reach(tcx, rustc_span::def_id::CRATE_DEF_ID.to_def_id(), false, &mut vec![], &mut public);
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    obj(&[
        ("fns", arr(&fns)),
        ("statics", arr(&statics)),
        ("unsafe", arr(&u.out)),
        ("built", strs(u.built)),
        ("public", arr(&public)),
        ("crates", strs(crates)),
    ])
}

/// Everything a user can name through the crate's root, and whether it is documented.
fn reach(tcx: TyCtxt<'_>, m: DefId, hidden: bool, seen: &mut Vec<(DefId, bool)>, out: &mut Vec<String>) {
    if seen.contains(&(m, hidden)) {
        return;
    }
    seen.push((m, hidden));
    let children = match m.as_local() {
        Some(l) => tcx.module_children_local(l),
        None => tcx.module_children(m),
    };
    for c in children {
        if !c.vis.is_public() {
            continue;
        }
        let res = c.res.opt_def_id();
        let mut h = hidden;
        // Hidden by the item itself or by a re-export on the way.
        for r in &c.reexport_chain {
            if let Some(id) = r.id() {
                h |= tcx.is_doc_hidden(id);
            }
        }
        if let Some(id) = res {
            h |= tcx.is_doc_hidden(id);
        }
        let kind = format!("{:?}", c.res).split('(').next().unwrap_or("").to_string();
        let path = res.map(|id| tcx.def_path_str(id)).unwrap_or_default();
        let k = res.map(|id| format!("{:?}", tcx.def_kind(id))).unwrap_or(kind);
        out.push(obj(&[("name", s(c.ident.as_str())), ("path", s(&path)), ("kind", s(&k)), ("hidden", if h { "true".into() } else { "false".into() })]));
        if let Some(id) = res {
            if matches!(tcx.def_kind(id), DefKind::Mod) {
                reach(tcx, id, h, seen, out);
            }
        }
    }
}

fn body(tcx: TyCtxt<'_>, d: LocalDefId) -> String {
    let st = tcx.mir_built(d);
    let b: mir::Body<'_> = st.borrow().clone();
    let env = TypingEnv::non_body_analysis(tcx, d.to_def_id());
    let mut calls = vec![];
    let mut types: Vec<String> = b.local_decls.iter().map(|l| tcx.erase_and_anonymize_regions(l.ty).to_string()).collect();
    types.sort();
    types.dedup();
    let mut casts = vec![];
    for bb in b.basic_blocks.iter() {
        for stm in &bb.statements {
            if let StatementKind::Assign(bx) = &stm.kind {
                if let Rvalue::Cast(k, _, t) = &bx.1 {
                    casts.push(obj(&[("kind", s(&format!("{:?}", k))), ("to", s(&t.to_string())), ("loc", s(&loc(tcx, stm.source_info.span)))]));
                }
            }
        }
        if let Some(t) = &bb.terminator {
            let f = match &t.kind {
                TerminatorKind::Call { func, .. } | TerminatorKind::TailCall { func, .. } => func,
                _ => continue,
            };
            if let ty::FnDef(c, args) = *f.ty(&b, tcx).kind() {
                let (p, full, r) = callee(tcx, env, c, args.skip_binder());
                calls.push(obj(&[("path", s(&p)), ("full", s(&full)), ("resolved", s(&r)), ("loc", s(&loc(tcx, t.source_info.span))), ("macros", strs(macros(t.source_info.span)))]));
            }
        }
    }
    // Functions named without being called here.
    let mut named = vec![];
    struct V<'a, 'tcx>(&'a mut Vec<String>, TyCtxt<'tcx>);
    impl<'tcx> mir::visit::Visitor<'tcx> for V<'_, 'tcx> {
        fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, _: Location) {
            if let ty::FnDef(d, _) = *c.const_.ty().kind() {
                self.0.push(self.1.def_path_str(d));
            }
            if let Some(d) = c.check_static_ptr(self.1) {
                self.0.push(format!("static {}", self.1.def_path_str(d)));
            }
        }
    }
    mir::visit::Visitor::visit_body(&mut V(&mut named, tcx), &b);
    named.sort();
    named.dedup();
    obj(&[
        ("path", s(&tcx.def_path_str(d))),
        ("loc", s(&loc(tcx, tcx.def_span(d)))),
        ("kind", s(&format!("{:?}", tcx.def_kind(d)))),
        ("blocks", b.basic_blocks.len().to_string()),
        ("calls", arr(&calls)),
        ("named", strs(named)),
        ("types", strs(types)),
        ("casts", arr(&casts)),
    ])
}
