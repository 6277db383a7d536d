//! Compiler driver that dumps facts about the analysed crates as JSON: every body's MIR (before
//! drop elaboration and before the coroutine transform), with callees resolved through the type
//! checker, the types of all locals, the data types, the trait implementations and the set of
//! types that each async body keeps alive across a suspension point.
//!
//! It is injected through RUSTC_WORKSPACE_WRAPPER; only workspace members are dumped.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Facts {
    out: String,
}

impl Callbacks for Facts {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.trimmed_def_paths = false;
    }
    fn after_expansion<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut d = dump::Dumper::new(tcx);
        let text = d.dump_crate(&name);
        let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or(name).replace('-', "_");
        let path = format!("{}/{}.json", self.out, pkg);
        std::fs::write(&path, text).expect("cannot write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[0] = this driver, argv[1] = path of rustc (wrapper protocol)
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("HUDI_FACTS_OUT").unwrap_or_default();
    let crates = std::env::var("HUDI_FACTS_CRATES").unwrap_or_default();
    let mut cname = String::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            cname = it.next().cloned().unwrap_or_default();
        }
    }
    if cname != "build_script_build" {
        cname = std::env::var("CARGO_PKG_NAME").unwrap_or(cname).replace('-', "_");
    }
    let is_test = args.iter().any(|a| a == "--test");
    let wanted = !out.is_empty() && !is_test && crates.split(',').any(|c| c == cname);
    rustc_driver::install_ice_hook("none", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        if wanted {
            rustc_driver::compiler_entrypoint(&args, &mut Facts { out });
        } else {
            struct No;
            impl Callbacks for No {}
            rustc_driver::compiler_entrypoint(&args, &mut No);
        }
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
