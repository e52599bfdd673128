//! Paths to hooq's own items start with the name under which it is imported.
use crate::flav::*;
use crate::h_attr;
use crate::model::*;
use crate::u::*;
use vs::*;

/// A name as it may stand in a manifest, and the crate's name in code.
fn dep_name(max: u8) -> (String, String) {
    let n = choice(max + 1);
    let (mut a, mut b) = (String::from("zq"), String::from("zq"));
    for _ in 0..n {
        let c = u8_in(b'-', b'z');
        assume((c == b'-') | ((c >= b'a') & (c <= b'z')) | ((c >= b'0') & (c <= b'9')) | (c == b'_'));
        a.push(c as char);
        b.push(if c == b'-' { '_' } else { c as char });
    }
    (a, b)
}
fn code(k: u8) -> (&'static str, I, Cx, Vec<S>) {
    let v = presets();
    match k {
        0 => {
            let a = vec![A::Method(".m($hooq_meta, $so_far)".into()), A::Bind("ba".into(), "1".into(), 0), A::Bind("bb".into(), "\"s\"".into(), 1)];
            ("", probe_fn(a), v[0].cx.clone(), vec![])
        }
        1 => ("hook", probe_fn(vec![A::Bind("bb".into(), "2".into(), 0)]), v[2].cx.clone(), vec![]),
        2 => ("", probe_fn(vec![A::Method("f($expr, $bindings)".into()), A::Bind("bb".into(), "2".into(), 0)]), v[0].cx.clone(), vec![]),
        3 => ("", probe_fn(vec![]), v[0].cx.clone(), vec![]),
        k => {
            let f = &v[[3, 4, 5, 6, 7][k as usize - 4]];
            let n = ["anyhow", "eyre", "color_eyre", "log", "tracing"][k as usize - 4];
            assert!(f.name == n);
            (n, probe_fn(vec![]), f.cx.clone(), f.traits.clone())
        }
    }
}
fn check(k: u8, name: &str, macros: bool) {
    let mut e = h_attr::env();
    let (attr, i, cx, traits) = code(k);
    e.add("QK", name.into());
    let e = crate::h_meta::with_default_loc(e);
    let mut r = Ref::new(e.clone());
    let pre: S = traits.iter().map(|t| format!("#[allow(unused)] use {t} as _;")).collect();
    let mut t = r.item(&i, &cx);
    if macros {
        t = t.replace("::hooq::source_excerpt_helpers::", "::hooq_macros::");
    } else {
        t = t.replace("::hooq::", "::QK::");
    }
    let want = e.subst(ts(&format!("{pre} {t}")));
    let src = map_tokens(e.subst(ts(&isrc(&i))), &mut |mut t| {
        t.set_span(proc_macro2::Span::call_site());
        t
    });
    expect_tokens(&hooq(ts(attr), src), &want, "hooq's own items are reached under the name it is imported by");
}
const CODES: u8 = 9;
/// hooq under a name of the manifest's choosing.
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_renamed() {
    let k = choice(10);
    let w = choice(CODES);
    // two letters where either the manifest or the code is the simplest
    let (n, c) = dep_name(if k == 0 || w == 2 { 2 } else { 1 });
    let m = match k {
        0 => format!("[dependencies]\n{n} = {{ package = \"hooq\", version = \"1\" }}\n"),
        1 => format!("[package]\nname = \"app\"\n[dependencies.{n}]\npackage = \"hooq\"\nfeatures = [\"log\"]\n"),
        2 => format!("[dev-dependencies]\nother = \"1\"\n{n} = {{ path = \"..\", package = \"hooq\" }}\n"),
        3 => format!("[target.'cfg(unix)'.dependencies]\n{n} = {{ package = 'hooq' }}\n"),
        4 => format!("[workspace.dependencies]\n{n} = {{ package = \"hooq\", version = \"1\" }}\n[dependencies]\n{n} = {{ workspace = true }}\n"),
        5 => format!("[workspace.dependencies]\n{n} = {{ package = \"hooq\", version = \"1\" }}\n[dependencies]\n{n}.workspace = true\n"),
        6 => format!("[dependencies]\nhooq-macros = \"1\"\n{n}.package = \"hooq\"\n"),
        7 => format!("[dependencies]\n\"{n}\" = {{ package = \"hooq\" }}\n[build-dependencies]\nhooq = \"1\"\n"),
        8 => format!("package.name = \"hooq-macros\"\ndependencies.{n}.package = \"hooq\"\n"),
        _ => format!("[dependencies]\nhooq-helpers = \"1\"\nhooq_x = \"1\"\n\n[target.wasm.dev-dependencies]\n{n} = {{ package = \"hooq\" }}\n"),
    };
    set_toml("proj", None);
    set_cargo_toml("proj", &m);
    check(w, &c, false);
    cover(&format!("{k}"));
}
/// hooq under its own name, or not to be found.
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_plain() {
    let (n, _) = dep_name(1);
    let k = choice(9);
    let m = match k {
        0 => format!("[dependencies]\nhooq = \"1\"\n{n} = \"1\"\n"),
        1 => format!("[package]\nname = \"hooq\"\n[dependencies]\n{n} = \"1\"\n"),
        2 => format!("[dependencies]\n{n} = \"1\"\n"),
        3 => format!("[dependencies]\n{n} = {{ package = \"hooq-helpers\" }}\n"),
        4 => format!("[build-dependencies]\n{n} = {{ package = \"hooq\" }}\n"),
        5 => format!("[dependencies]\n{n} = = 1\n"),
        6 => format!("[dependencies]\nhooq = {{ package = \"hooq\", version = \"1\" }}\n{n} = {{ package = \"Hooq\" }}\n"),
        7 => format!("[dependencies]\n{n} = {{ version = \"hooq\", package = \"hoo\" }}\n"),
        _ => String::new(),
    };
    set_toml("proj", None);
    set_cargo_toml("proj", &m);
    check(choice(CODES), "hooq", false);
    cover(&format!("{k}"));
}
/// Whose package name is it: symbolic, equal to `hooq` or not.
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_package() {
    let (n, c) = dep_name(1);
    let mut p = String::from("ho");
    p.push(u8_in(b'a', b'z') as char);
    p.push(u8_in(b'a', b'z') as char);
    set_toml("proj", None);
    set_cargo_toml("proj", &format!("[dependencies]\n{n} = {{ package = \"{p}\", version = \"1\" }}\n"));
    let is = p == "hooq";
    check(choice(4), if is { &c } else { "hooq" }, false);
    cover(if is { "hooq" } else { "another" });
}
/// The macro crate itself as the dependency.
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_macros() {
    let (n, _) = dep_name(1);
    set_toml("proj", None);
    set_cargo_toml("proj", &format!("[dependencies]\nhooq-macros = \"1\"\n{n} = \"1\"\n"));
    check(choice(CODES), "hooq", true);
    cover("macros");
}
/// Several projects in one process, as in an editor.
fn history(n: usize) {
    const NAMES: [&str; 3] = ["hooq", "za", "zb"];
    const DIRS: [&str; 3] = ["w/p", "v/p", "w/P"];
    let mut trail = S::new();
    for _ in 0..n {
        let d = choice(3) as usize;
        trail += NAMES[d];
        set_toml(DIRS[d], None);
        if d > 0 {
            set_cargo_toml(DIRS[d], &format!("[dependencies]\n{} = {{ package = \"hooq\" }}\n", NAMES[d]));
        }
        check(choice(CODES.min(4)), NAMES[d], false);
    }
    cover(&trail);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_history() {
    history(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_crate_history3() {
    history(3);
}
