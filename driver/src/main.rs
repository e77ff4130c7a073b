#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod interp;
mod json;
mod queries;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    krate: String,
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if name == self.krate {
            let mut s = String::new();
            for j in queries::analyse(tcx) {
                j.write(&mut s);
                s.push('\n');
            }
            std::fs::write(&self.out, s).expect("write analysis output");
        }
        Compilation::Continue
    }
}

fn main() {
    // cargo calls us as RUSTC_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("wflow")) {
        args.remove(1);
    }
    let krate = std::env::var("WFLOW_CRATE").unwrap_or_default();
    let out = std::env::var("WFLOW_OUT").unwrap_or_default();
    let mine = !krate.is_empty() && args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if mine {
        // sharing is off: the abstract values of different functions are kept independent
        let mut cb = Cb { krate, out };
        let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
        let _ = code;
        std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
    }
    struct Nop;
    impl Callbacks for Nop {}
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
