// A rustc driver that dumps the monomorphic MIR of everything reachable from the crate being
// compiled as JSON. It is used as RUSTC_WORKSPACE_WRAPPER under `cargo check`. It never runs the
// code it looks at.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb { out: Option<String> }

/// Source text adjustments which make the pinned 2024 nightly sources acceptable to the (newer)
/// nightly which carries rustc-dev. Only additive: one marker impl the newer std demands of any
/// `Try::Residual` type. It defines no behaviour of the program.
struct Loader;
const COMPAT: &str = "\n#[allow(unused)] impl std::ops::Residual<ValuePtr> for ErrorPtr { type TryType = ValueResult; }\n";

impl rustc_span::source_map::FileLoader for Loader {
    fn file_exists(&self, path: &std::path::Path) -> bool { path.exists() }
    fn read_file(&self, path: &std::path::Path) -> std::io::Result<String> {
        let mut s = std::fs::read_to_string(path)?;
        if s.contains("impl Try for ValueResult") && !s.contains("Residual<ValuePtr> for ErrorPtr") { s.push_str(COMPAT); }
        Ok(s)
    }
    fn read_binary_file(&self, path: &std::path::Path) -> std::io::Result<std::sync::Arc<[u8]>> {
        Ok(std::fs::read(path)?.into())
    }
    fn current_directory(&self) -> std::io::Result<std::path::PathBuf> { std::env::current_dir() }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.file_loader = Some(Box::new(Loader));
        config.opts.unstable_opts.always_encode_mir = true;
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.crate_attr.push("feature(try_trait_v2_residual)".to_string());
        config.opts.lint_cap = Some(rustc_lint_defs::Level::Allow);
        // No debug assertions or overflow checks: they are not part of the shipped semantics.
        config.opts.debug_assertions = false;
        config.opts.cg.overflow_checks = Some(false);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out { dump::dump(tcx, out); }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_build_script = name.starts_with("build_script");
    let dir = std::env::var("CORDY_FACTS_DIR").ok();
    let dump = !is_build_script && !name.is_empty() && name != "___" ;
    let out = if dump { dir.map(|d| format!("{}/{}.json", d, name)) } else { None };
    if is_build_script || !dump {
        struct Plain; impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        return;
    }
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
