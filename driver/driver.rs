// vtdriver: a rustc wrapper that dumps static facts about the crate being compiled.
//
// It never runs the compiled crate. After macro expansion it asks the compiler for the
// type-checked program (impl headers, where-clauses, resolved paths) and for the MIR of the
// bodies of interest, and reduces each body to a *path summary*: for every acyclic path through
// the control-flow graph, the conditions it depends on, the opaque calls made in order, and the
// value returned, all as terms over the body's parameters. Calls into the analysed runtime crate
// (`thiserror`) and into a few transparent core helpers are followed through their resolved callee.
#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod implfacts;
mod json;
mod sum;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    mode: String,
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.out.is_empty() {
            return Compilation::Continue;
        }
        let j = match self.mode.as_str() {
            "witness" => facts::dump(tcx),
            "audit" => implfacts::audit(tcx),
            _ => return Compilation::Continue,
        };
        std::fs::write(&self.out, j).expect("write facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER / RUSTC_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    // VT_TARGETS: crate=mode=out;crate=mode=out
    let mut mode = String::new();
    let mut out = String::new();
    if let Ok(t) = std::env::var("VT_TARGETS") {
        for ent in t.split(';') {
            let p: Vec<&str> = ent.split('=').collect();
            if p.len() == 3 && p[0] == crate_name {
                mode = p[1].to_string();
                out = p[2].to_string();
            }
        }
    }
    let mut cb = Cb { mode, out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
