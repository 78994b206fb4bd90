//! MIR extraction driver.  Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check --lib`:
//! type-checks /repo's crate with the real build's flags and writes the resolved program
//! (monomorphic MIR, callees resolved, constants evaluated, types, impls, signatures,
//! attributes) as JSON to $MIRDUMP_OUT.  It never runs any of the code it reads.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver_impl;
extern crate rustc_driver;
extern crate rustc_attr_ir;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        if self.out.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.always_encode_mir = true;
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let text = dump::dump(tcx);
            std::fs::write(out, text).expect("cannot write MIRDUMP_OUT");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut is_target = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == target && !target.is_empty() {
            is_target = true;
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let out = if is_target && !is_test { std::env::var("MIRDUMP_OUT").ok() } else { None };
    rustc_driver_impl::catch_with_exit_code(|| {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out })
    })
}
