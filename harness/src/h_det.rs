//! The same input always gives the same output: no hash map's order shows.
use crate::u::*;
use std::collections::HashMap;
use vs::*;

/// Every order of three keys.  Under the engine the keys' buckets are chosen
/// freely; natively the run is repeated, with the process's own random seeds.
fn det(keys: [&str; 3], f: &dyn Fn() -> Ts, msg: &str) {
    let first = flatten(&f());
    // (the native run's path of hooq.toml is another one)
    if !first.windows(10).any(|w| w == b"hooq.toml`") {
        log_bytes(&first);
    }
    if is_symbolic() {
        let p = choice(6) as usize;
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][p];
        // buckets of a map with room for up to 14 entries; 0 holds all others
        let b = [[1, 2, 3], [2, 5, 7]][choice(2) as usize];
        for (k, key) in keys.iter().enumerate() {
            set_hash(key, b[o[k]]);
        }
        let m: HashMap<String, u8> = keys.iter().map(|k| (k.to_string(), 1)).collect();
        let order: Vec<&str> = m.keys().map(|k| &k[..]).collect();
        cover(&order.join(" "));
        let second = flatten(&f());
        set_hash("", 0);
        check_same(&second, &first, msg);
    } else {
        for _ in 0..60 {
            check_same(&flatten(&f()), &first, msg);
        }
    }
}
const MSG: &str = "the same input always expands to the same output";
fn show(t: Ts) -> Ts {
    if std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {t}");
    }
    t
}
fn run(attr: &str, item: &str) -> Ts {
    // every run reads the same input: the same file, lines and columns
    let src = map_tokens(ts(item), &mut |mut t| {
        t.set_span(proc_macro2::Span::call_site());
        t
    });
    let t = hooq(ts(attr), src);
    if is_symbolic() { t } else { show(t) }
}
/// `$bindings` and errors about names, over bindings from attributes and flavors.
#[unsafe(no_mangle)]
pub extern "C" fn h_det_bindings() {
    let k = choice(7);
    // (names that differ in little)
    const N: &[[&str; 3]] = &[["ba", "bb", "bc"], ["zaQ", "Zaq", "zAq"], ["z_a", "za_", "_za"], ["z1", "z01", "z10"], ["zab", "zba", "zaab"]];
    let n = N[choice(N.len() as u8) as usize];
    let nm = |s: &str| s.replace("ba", "\x01").replace("bb", "\x02").replace("bc", "\x03").replace('\x01', n[0]).replace('\x02', n[1]).replace('\x03', n[2]);
    set_toml("proj", Some(&nm("[fa]\nmethod = '.m($bindings, $ba)'\n[fa.bindings]\nba = '1'\nbb = '\"s\"'\nbc = '[2, 3]'\n[fa.fb.bindings]\nbb = '9'\n")));
    const B: &str = "#[hooq::binding(ba = 1)] #[hooq::var(bb = \"s\")] #[hooq::bc = [2, 3]]";
    let (attr, item) = match k {
        0 => ("", format!("#[hooq::method(.m($bindings))] {B} fn fun() {{ a()?; }}")),
        1 => ("", format!("#[hooq::method(.m($hooq_meta, $bb, $ba))] {B} fn fun() {{ #[hooq::bb = 2] {{ a()?; }} b()?; }}")),
        2 => ("", format!("#[hooq::method(.m($unknown))] {B} fn fun() {{ a()?; }}")),
        3 => ("fa", "fn fun() { a()?; }".into()),
        4 => ("fa::fb", "fn fun() { a()?; #[hooq::bc = 4] { a()?; } }".into()),
        5 => ("", "#[hooq::bindings = fa] #[hooq::method(.m($bindings))] fn fun() { a()?; }".into()),
        _ => ("", format!("#[hooq::method(.m($ba, $bd))] {B} fn fun() {{ #[hooq::bindings = fa] #[hooq::method(.m($zz, $yy))] {{ a()?; }} }}")),
    };
    let item = nm(&item);
    det(n, &|| run(attr, &item), MSG);
}
/// Several flavors in hooq.toml, in one table or beside each other.
#[unsafe(no_mangle)]
pub extern "C" fn h_det_flavors() {
    const T: &str = "[fa]\nmethod = '.a()'\n[fb]\nhook_targets = ['return']\nmethod = '.b()'\n[log]\nmethod = '.l()'\n[default]\nmethod = '.d()'\n";
    const S: &str = "[top]\nmethod = '.t()'\n[top.fa]\nmethod = '.a()'\n[top.fb]\nhook_targets = ['return']\n[top.log]\nhook_in_macros = false\n";
    let k = choice(9);
    let nested = flag();
    set_toml("proj", Some(if nested { S } else { T }));
    let i = "fn fun() -> Result<u8, u8> { a()?; m!(b()?); return Err(1); }";
    let attr = match (k, nested) {
        (0, _) => "",
        (1, false) => "fa",
        (2, false) => "fb",
        (3, false) => "log",
        (1, true) => "top::fa",
        (2, true) => "top::fb",
        (3, true) => "top::log",
        (4, _) => "nosuch",
        (5, _) => "nosuch(1)",
        (6, false) => "fa::nosuch",
        (6, true) => "top::nosuch",
        (7, false) => "log::warn",
        (7, true) => "top",
        _ => "tracing::error",
    };
    det(["fa", "fb", "log"], &|| run(attr, i), MSG);
}
/// The presets and their sub flavors.
#[unsafe(no_mangle)]
pub extern "C" fn h_det_presets() {
    const K: &[[&str; 3]] = &[["anyhow", "default", "empty"], ["eyre", "hook", "log"], ["error", "warn", "info"], ["debug", "trace", "error"], ["tracing", "log", "anyhow"]];
    let k = K[choice(K.len() as u8) as usize];
    let attr = ["", "log::nosuch", "nosuch", "tracing::info", "nosuch(1)"][choice(5) as usize];
    set_toml("proj", None);
    det(k, &|| run(attr, "fn fun() -> Result<u8, u8> { a()?; #[hooq::flavor = hook] { b()?; } #[hooq::method = nosuch] { b()?; } }"), MSG);
}
/// Several mistakes at once.
#[unsafe(no_mangle)]
pub extern "C" fn h_det_mistakes() {
    const T: &[&str] = &[
        "[fa]\nmethod = '('\n[fb]\nmethod = '\"'\n[fc]\nhook_targets = ['x']\n",
        "[top.fa]\nmethod = '('\n[top.fb]\ntrait_uses = ['1']\n[top.fc]\nhook_targets = ['x']\n",
        "[top.bindings]\nfa = '('\nfb = '1 +'\nfc = 'let'\n",
        "[fa]\nmethod = '('\n[empty]\n[fc]\nunknown = 1\n",
    ];
    let k = choice(T.len() as u8) as usize;
    set_toml("proj", Some(T[k]));
    det([["fa", "fb", "fc"], ["fa", "empty", "fc"]][(k == 3) as usize], &|| run("", "fn fun() { a()?; }"), MSG);
}
