//! Programs under the real `#[hooq]`, expanded by the compiler, beside the
//! programs that they must be equal to: the same code with the hook written by
//! hand at every documented target.  Both run on the same symbolic inputs.
#![allow(unused, clippy::all)]
mod h_meta;
mod h_run;
mod u;
macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => { &[$((stringify!($f), $m::$f)),*] };
}
const HARNESSES: &[(&str, extern "C" fn())] = table![
    h_run::t_line, h_run::t_loops, h_run::t_closures, h_run::t_match, h_run::t_returns, h_run::t_tails, h_run::t_methods, h_run::t_async,
    h_run::t_macros, h_run::t_options, h_run::t_settings, h_run::t_items, h_run::t_state, h_run::t_once, h_run::t_empty,
    h_meta::t_meta, h_meta::t_names, h_meta::t_loc, h_meta::t_anyhow
];
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).map(|s| s.as_str()).unwrap_or("");
    for (n, f) in HARNESSES {
        if *n == name {
            f();
            println!("VSYM-PASS");
            return;
        }
    }
    std::process::exit(2);
}
