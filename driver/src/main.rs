//! `mirdump`: a rustc driver which type-checks a crate with its real build flags
//! and writes the monomorphised MIR of every local function (plus the bodies of
//! the small `core`/`alloc` combinators they call) as JSON.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_ast_pretty;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let is_bin = tcx.crate_types().iter().any(|t| format!("{:?}", t).contains("Executable"));
        let test = tcx.sess.opts.test;
        if !test {
            let name = format!("{}{}.json", krate, if is_bin { "-bin" } else { "" });
            let path = std::path::Path::new(&self.out).join(name);
            let j = dump::dump_crate(tcx);
            let tmp = path.with_extension("tmp");
            std::fs::write(&tmp, j.to_string()).unwrap();
            std::fs::rename(&tmp, &path).unwrap();
        }
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_build_script = args.iter().any(|a| a == "build_script_build" || a == "--print" || a.starts_with("--print="));
    rustc_driver::install_ice_hook("none", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| match out {
        Some(out) if !is_build_script && args.iter().any(|a| a == "--crate-name") => {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    });
    std::process::exit(format_code(code));
}

fn format_code(c: std::process::ExitCode) -> i32 {
    if c == std::process::ExitCode::SUCCESS { 0 } else { 1 }
}
