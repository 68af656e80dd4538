#![no_main]
#![allow(dead_code, unused)]
include!("/repo/crates/pica-cli/src/main.rs");
#[path = "/verif/harness/sym.rs"]
#[macro_use]
mod sym;
#[path = "/verif/harness/refm.rs"]
mod refm;
#[path = "/verif/harness/cli/src/g.rs"]
mod g;
#[path = "/verif/harness/cli/src/sel.rs"]
mod sel;
#[path = "/verif/harness/cli/src/out.rs"]
mod out;
#[path = "/verif/harness/cli/src/chk.rs"]
mod chk;
#[path = "/verif/harness/cli/src/codes.rs"]
mod codes;
#[path = "/verif/harness/cli/src/forms.rs"]
mod forms;
#[path = "/verif/harness/cli/src/all.rs"]
mod all;
#[path = "/verif/harness/cli/src/cfg.rs"]
mod cfg;
#[path = "/verif/harness/cli/src/opt.rs"]
mod opt;

/// the arguments may be wrong
static mut ANY_ARGS: bool = false;
static mut ARGS: Vec<String> = Vec::new();
impl Args {
    /// the arguments come from the harness
    fn parse() -> Self {
        #[allow(static_mut_refs)]
        unsafe { <Self as Parser>::parse_from(ARGS.iter()) }
    }
}
/// runs the tool's main function; its exit code
fn pica(args: &[&str]) -> u8 {
    unsafe { ARGS = ["pica", "-c", "none.toml"].iter().chain(args).map(|s| s.to_string()).collect(); }
    // what does not parse ends the process
    #[allow(static_mut_refs)]
    if unsafe { ANY_ARGS } {
        if let Err(e) = <Args as Parser>::try_parse_from(unsafe { ARGS.iter() }) { return e.exit_code() as u8 }
    }
    let c = main();
    let _ = std::io::Write::flush(&mut std::io::stdout());
    if c == ExitCode::SUCCESS { 0 } else if c == ExitCode::from(2) { 2 } else { 1 }
}
mod entry {
    use super::sym;
    #[unsafe(no_mangle)]
    extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
        let mut t: Vec<sym::Entry> = vec![];
        for m in [super::sel::TABLE, super::out::TABLE, super::out::ex::TABLE, super::chk::TABLE, super::all::TABLE, super::cfg::TABLE, super::opt::TABLE, super::opt::total::TABLE] {
            for e in m { t.push(sym::Entry(e.0, e.1)); }
        }
        sym::start(argc, argv, t.leak())
    }
}
