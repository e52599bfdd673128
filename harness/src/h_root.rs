//! The root attribute, `empty`, flavors given to single settings, presets,
//! and which hooq.toml a call sees.
use crate::ctx::*;
use crate::flav::*;
use crate::h_attr;
use crate::model::*;
use crate::u::*;
use std::rc::Rc;
use vs::*;

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
// ---- root attribute ------------------------------------------------------------
fn formats(v: &[Fl]) -> S {
    format!("expected attribute formats are below:\n\n- trait_use(...)\n- FLAVOR_NAME\n{}\n- flavor = \"FLAVOR_NAME\"\n", listing(v))
}
fn root_toml() -> Vec<Tb> {
    let mut a = tb("fa");
    a.traits = Some(strs(&["Ta", "x::Tb"]));
    a.method = Some(".ma($nth)".into());
    let mut s = tb("fs");
    s.targets = Some(vec!["?"]);
    a.subs.push(s);
    let mut b = tb("fb");
    b.method = Some(".mb($nth)".into());
    vec![a, b]
}
enum M {
    T(&'static [&'static str]),
    F(&'static [&'static str]),
    /// syntax error, found before anything else
    Syn,
    /// wrong entry: the message with the formats
    Form,
    Msg(&'static str),
    /// some error, when its turn comes
    Some,
}
const METAS: &[(&str, M)] = &[
    ("trait_use(Q0)", M::T(&["Q0"])),
    ("trait_uses(a::Q0, ::b::C<u8>)", M::T(&["a::Q0", "::b::C<u8>"])),
    ("trait_use(Q1, self::D,)", M::T(&["Q1", "self::D"])),
    ("trait_uses()", M::T(&[])),
    ("trait_use[Q1]", M::T(&["Q1"])),
    ("fa", M::F(&["fa"])),
    ("fa::fs", M::F(&["fa", "fs"])),
    ("flavor = \"fb\"", M::F(&["fb"])),
    ("flavor = \"fa.fs\"", M::F(&["fa", "fs"])),
    ("empty", M::F(&["empty"])),
    ("anyhow", M::F(&["anyhow"])),
    ("nosuch::x", M::F(&["nosuch", "x"])),
    ("flavor = \"\"", M::Msg("flavor names must not include empty one")),
    ("trait_used(Q0)", M::Form),
    ("flavor(\"fa\")", M::Form),
    ("trait_use = \"Q0\"", M::Form),
    ("flavor = fa", M::Form),
    ("method(.x())", M::Form),
    ("hooq::trait_use(Q0)", M::Form),
    ("trait_use(1)", M::Some),
    ("trait_use(Q0 Q1)", M::Some),
    ("trait_use(, Q0)", M::Some),
    ("1", M::Syn),
    ("a b", M::Syn),
    ("trait_use(Q0).x", M::Syn),
];
const GOOD: usize = 12;
fn root_seq(ms: &[usize], trail: bool) {
    let t = root_toml();
    let e = h_attr::env();
    use_toml(&t, &e);
    let v = store(&t, &e);
    let mut attr = ms.iter().map(|m| METAS[*m].0).collect::<Vec<_>>().join(", ");
    if trail {
        attr.push(',');
    }
    let attr = e.subst(ts(&attr));
    let i = probe_fn(vec![]);
    let got_err = |want: Option<&str>, what: &str| match want {
        Some(w) => run_err(attr.clone(), &i, &e, w, what),
        None => expect_any_err(&hooq(attr.clone(), e.subst(ts(&isrc(&i)))), what),
    };
    let what = "an entry that #[hooq(...)] does not know is an error";
    if ms.iter().any(|m| matches!(METAS[*m].1, M::Syn)) {
        return got_err(None, what);
    }
    let mut traits = vec![];
    let mut path = strs(&["default"]);
    for m in ms {
        match &METAS[*m].1 {
            M::T(l) => traits.extend(strs(l)),
            M::F(p) => path = strs(p),
            M::Form => return got_err(Some(&formats(&v)), what),
            M::Msg(w) => return got_err(Some(w), what),
            _ => return got_err(None, what),
        }
    }
    match find(&v, &path) {
        Some(f) => {
            traits.extend(f.traits.clone());
            run_flavor(attr, &traits, &i, &f.cx, &e, "the last flavor holds, and all traits are imported, in order");
        }
        None => got_err(Some(&not_found(&path, &v)), "an unknown flavor is an error"),
    }
}
/// Up to two entries, all of them; three good ones.
#[unsafe(no_mangle)]
pub extern "C" fn h_root() {
    let n = METAS.len() as u8;
    let k = choice(3);
    let a = choice(n) as usize;
    match k {
        0 => root_seq(&[a], choice(2) == 1),
        1 => root_seq(&[a, choice(n) as usize], false),
        _ => {
            assume(a < GOOD);
            root_seq(&[a, (a * 5 + 2) % GOOD, choice(GOOD as u8) as usize], true)
        }
    }
    cover(METAS[a].0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_root3() {
    let n = GOOD as u8 + 3;
    let (a, b, c) = (choice(n) as usize, choice(n) as usize, choice(n) as usize);
    root_seq(&[a, b, c], false);
    cover(METAS[a].0);
}
/// Any name in front of `(…)` and `= "…"`.
#[unsafe(no_mangle)]
pub extern "C" fn h_root_name() {
    let t = root_toml();
    let mut e = h_attr::env();
    let n = choice(11) as usize + 1;
    let s = sym_ident(n);
    assume(!crate::h_meta::keyword(&s));
    e.add("Zz9", s.clone());
    use_toml(&t, &e);
    let v = store(&t, &e);
    let i = probe_fn(vec![]);
    let list = flag();
    let known = if list { s == "trait_use" || s == "trait_uses" } else { s == "flavor" };
    let attr = e.subst(ts(if list { "Zz9(fb)" } else { "Zz9 = \"fb\"" }));
    if known {
        let f = find(&v, &strs(&[if list { "default" } else { "fb" }])).unwrap();
        run_flavor(attr, &strs(if list { &["fb"] } else { &[] }), &i, &f.cx, &e, "trait_use, trait_uses and flavor are known");
        cover("known");
    } else {
        run_err(attr, &i, &e, &formats(&v), "no other name is");
        cover("unknown");
    }
}
/// What kinds of item the imports stand in front of.
#[unsafe(no_mangle)]
pub extern "C" fn h_root_item() {
    let e = h_attr::env();
    set_toml("proj", None);
    let f = |n: &str| I::Fn(func(n, Some("Result<u8, u8>"), vec![St::Let(vec![], "_".into(), try_(raw("p0()")), None), St::Tail(call("q9", vec![]))]));
    let k = choice(8);
    let it = match k {
        0 => f("one"),
        1 => I::Group(vec![A::Keep("#[cfg(all())]".into())], "impl Tr for Ty".into(), vec![f("one"), f("two")]),
        2 => I::Group(vec![], "pub mod md".into(), vec![I::Raw("use super::*;".into()), f("one")]),
        3 => I::Group(vec![], "unsafe trait Tr<T>: Sized where T: Copy".into(), vec![f("one")]),
        4 => I::Const(vec![], "const KC: u8 =".into(), try_(raw("p0()"))),
        5 => I::Const(vec![], "static mut KS: u8 =".into(), try_(raw("p0()"))),
        6 => I::Raw("pub struct S<T> { a: T, #[b] c: [u8; 3] }".into()),
        _ => I::Raw("use a::{b, c as d};".into()),
    };
    let mut cx = Cx::defaults(".m($nth)");
    if let I::Raw(_) = it {
        cx.targets = [false; 3];
    }
    let v = presets();
    let tr = flag();
    let attr = e.subst(ts(if tr { "trait_use(Q0, b::C), anyhow" } else { "trait_use(Q0, b::C), hook" }));
    let mut traits = strs(&["Q0", "b::C"]);
    let fl = find(&v, &strs(&[if tr { "anyhow" } else { "hook" }])).unwrap();
    traits.extend(fl.traits.clone());
    run_flavor(attr, &traits, &it, &fl.cx, &e, "the imports stand in front of the item");
    cover(["fn", "impl", "mod", "trait", "const", "static", "struct", "use"][k as usize]);
}

// ---- empty -----------------------------------------------------------------------
/// `#[hooq(empty)]` around every position, with attributes that do not switch
/// hooking on.
fn empty_case(p: usize, q: usize, set: u8, toml: u8) {
    let e = h_attr::env();
    match toml {
        0 => set_toml("proj", None),
        _ => {
            let mut d = tb("default");
            d.method = Some(".mm()".into());
            d.targets = Some(vec!["?", "return", "tail_expr"]);
            d.traits = Some(strs(&["Ta"]));
            let mut h = d.clone();
            h.name = "hook".into();
            h.subs.push(tb("sub"));
            use_toml(&[d, h], &e)
        }
    }
    let at = match set {
        0 => vec![],
        1 => vec![A::Method(".mk($nth)".into())],
        2 => vec![A::Idents(strs(&["Err", "Q0"])), A::Results(strs(&["Result"]))],
        3 => vec![A::Bind("v".into(), "1".into(), 0), A::Skip],
        4 => vec![A::Macros(true), A::Method("wrap($expr)".into())],
        _ => vec![A::Keep("#[allow(unused)]".into()), A::SkipAll],
    };
    let mut f = func(
        "fun",
        Some("Result<u8, u8>"),
        vec![
            St::Let(vec![], "_".into(), ctx(p, nest(q, try_(call("Q0", vec![])))), None),
            St::Semi(ret(call("Err", vec![nest(q, try_(raw("b()")))]))),
            St::Tail(call("Err", vec![])),
        ],
    );
    f.attrs = at;
    let i = I::Fn(f);
    let got = hooq(ts("empty"), e.subst(ts(&isrc(&i))));
    // exactly the source without hooq's attributes
    let mut i2 = i.clone();
    if let I::Fn(f) = &mut i2 {
        f.attrs.retain(|a| matches!(a, A::Keep(_)));
    }
    expect_tokens(&got, &e.subst(ts(&isrc(&i2))), "`empty` leaves the item as it was");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_empty() {
    let p = choice(CTX.len() as u8) as usize;
    let set = choice(6);
    empty_case(p, (p * 7 + set as usize) % CTX.len(), set, (p % 2) as u8);
    cover(CTX[p].0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_empty_all() {
    let p = choice(CTX.len() as u8) as usize;
    empty_case(p, choice(CTX.len() as u8) as usize, choice(6), choice(2));
    cover(CTX[p].0);
}

// ---- `#[hooq::<setting> = <flavor>]` -------------------------------------------------
fn part_toml() -> Vec<Tb> {
    let mut a = tb("fa");
    a.traits = Some(strs(&["Ta"]));
    a.method = Some(".ma($nth, $v)".into());
    a.targets = Some(vec!["?", "tail_expr"]);
    a.idents = Some(strs(&["Q2", "!Q0"]));
    a.results = Some(strs(&["Rt"]));
    a.macros = Some(false);
    a.binds = vec![("v".into(), "5".into()), ("w".into(), "6".into())];
    let mut s = tb("fs");
    s.method = Some("ms($expr, $so_far)".into());
    s.targets = Some(vec!["return"]);
    s.ignore = Some(strs(&["Ok", "Q1"]));
    s.macros = Some(true);
    s.binds = vec![("v".into(), "vec![7]".into())];
    a.subs.push(s);
    vec![a]
}
const SETS: &[&str] = &["flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings"];
/// Flavor texts and paths.
const FLS: &[(&str, &[&str])] = &[
    ("fa", &["fa"]),
    ("fa::fs", &["fa", "fs"]),
    ("\"fa.fs\"", &["fa", "fs"]),
    ("\"fa::fs\"", &["fa", "fs"]),
    ("empty", &["empty"]),
    ("default", &["default"]),
    ("log::warn", &["log", "warn"]),
    ("\"hook\"", &["hook"]),
];
fn part(p: usize, set: usize, fl: usize, extra: u8) {
    let t = part_toml();
    let e = h_attr::env();
    use_toml(&t, &e);
    let v = store(&t, &e);
    let f = find(&v, &strs(FLS[fl].1)).unwrap();
    let fa = A::Flavor(SETS[set], FLS[fl].0.into(), Rc::new(f.cx.clone()));
    let mut other = match extra / 2 {
        0 => vec![],
        1 => vec![A::Method(".other($nth, $source, $v)".into()), A::Targets(vec!["?"])],
        2 => vec![A::Ignore(strs(&["Q1"])), A::Bind("v".into(), "8".into(), 0)],
        3 => vec![A::Idents(strs(&["Q1", "!Q2"])), A::Macros(true)],
        _ => vec![A::Results(strs(&["Result", "Rt"])), A::Keep("#[allow(unused)]".into()), A::Idents(strs(&["Err"]))],
    };
    let at = if extra % 2 == 0 {
        other.push(fa);
        other
    } else {
        other.insert(0, fa);
        other
    };
    // $level of the log preset, wherever only its method is taken
    let mut i = h_attr::root(h_attr::around(h_attr::place(p, at, h_attr::d(), h_attr::probe())));
    if let I::Fn(f) = &mut i {
        f.attrs.push(A::Bind("level".into(), "lvl()".into(), 0));
    }
    let cx = Cx::defaults("");
    let e2 = crate::h_meta::with_default_loc(e);
    let mut r = Ref::new(e2.clone());
    let want = e2.subst(ts(&r.item(&i, &cx)));
    let src = map_tokens(e2.subst(ts(&isrc(&i))), &mut |mut t| {
        t.set_span(proc_macro2::Span::call_site());
        t
    });
    let got = hooq(Ts::new(), src);
    expect_tokens(&got, &want, "a flavor given to a setting brings that setting, and nothing else");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_part() {
    let (set, fl) = (choice(SETS.len() as u8) as usize, choice(FLS.len() as u8) as usize);
    let k = choice(4) as usize;
    part(h_attr::REP[k], set, fl, ((set + fl + k) % 10) as u8);
    cover(SETS[set]);
}
/// The order of several attributes on one element.
#[unsafe(no_mangle)]
pub extern "C" fn h_part_order() {
    let (set, fl, x) = (choice(SETS.len() as u8) as usize, choice(2) as usize, choice(10));
    part(0, set, fl, x);
    cover(SETS[set]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_part_all() {
    let p = choice(h_attr::POS.len() as u8) as usize;
    part(p, choice(SETS.len() as u8) as usize, choice(FLS.len() as u8) as usize, choice(10));
    cover(h_attr::POS[p]);
}
/// Values that are no flavor.
#[unsafe(no_mangle)]
pub extern "C" fn h_part_bad() {
    let t = part_toml();
    let e = h_attr::env();
    use_toml(&t, &e);
    let v = store(&t, &e);
    let set = choice(SETS.len() as u8 + 1) as usize;
    let (name, ign) = if set < SETS.len() { (SETS[set], false) } else { ("ignore_tail_expr_idents", true) };
    const B: &[(&str, u8)] = &[
        ("1", 0),
        ("fa()", 0),
        ("fa.fs", 0),
        ("[fa]", 0),
        ("'a'", 0),
        ("b\"fa\"", 0),
        ("true", 0),
        ("(fa)", 0),
        ("\"\"", 1),
        ("\"fa.\"", 1),
        ("\".fa\"", 1),
        ("\"fa...fs\"", 1),
        ("fa::<u8>::fs", 2),
        ("fa::fs::<u8>", 2),
        ("nosuch", 3),
        ("fa::nosuch", 3),
        ("fs", 3),
        ("\"fa fs\"", 3),
        ("log::Warn", 3),
    ];
    let b = choice(B.len() as u8) as usize;
    let p = choice(3) as usize;
    let (src, k) = B[b];
    let i = h_attr::root(h_attr::place(h_attr::REP[p], vec![A::Keep(format!("#[hooq::{name} = {src}]"))], h_attr::d(), h_attr::probe()));
    let want = if ign {
        "you can't use #[hooq::ignore_tail_expr_idents = FLAVOR_NAME] format.\nplease use #[hooq::tail_expr_idents = FLAVOR_NAME] format instead.\nthis format can set both tail_expr_idents and ignore_tail_expr_idents fields by the flavor settings.".to_string()
    } else {
        match k {
            0 => format!("invalid hooq::{name} attribute value. expected: FLAVOR_NAME as path or string"),
            1 => "flavor names must not include empty one".into(),
            2 => "path with generic arguments is not supported here".into(),
            _ => {
                let path: Vec<S> = src.trim_matches('"').replace("::", ".").split('.').map(|s| s.to_string()).collect();
                not_found(&path, &v)
            }
        }
    };
    run_err(Ts::new(), &i, &e, &want, "a value that is no flavor is an error that says so");
    cover(src);
}

// ---- presets -------------------------------------------------------------------------
fn preset(n: usize, s: usize, sub: bool) {
    let v = presets();
    set_toml("proj", None);
    let mut path = vec![v[n].name.clone()];
    let mut f = &v[n];
    if sub {
        f = &f.subs[s];
        path.push(f.name.clone());
    }
    let mut e = h_attr::env();
    let l = [0, 1, 2].map(|_| crate::h_meta::Loc { line: usize_in(1, 9), col: usize_in(1, 9), file: "a/src/m.rs".into() });
    for (k, x) in l.iter().enumerate() {
        crate::h_meta::add_loc(&mut e, k, x);
    }
    let i = probe_fn(vec![]);
    let mut r = Ref::new(e.clone());
    let pre: S = f.traits.iter().map(|t| format!("#[allow(unused)] use {t} as _;")).collect();
    let want = e.subst(ts(&format!("{pre} {}", r.item(&i, &f.cx))));
    let src = crate::h_meta::place_spans(e.subst(ts(&isrc(&i))), &l);
    let got = hooq(ts(&path.join("::")), src);
    expect_tokens(&got, &want, "a preset is what the documentation says");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_presets() {
    let v = presets();
    let n = choice(v.len() as u8) as usize;
    let sub = !v[n].subs.is_empty() && flag();
    let s = if sub { choice(5) as usize } else { 0 };
    preset(n, s, sub);
    cover(&v[n].name);
}

// ---- which hooq.toml --------------------------------------------------------------------
/// Calls for several projects in one process, in any order.
fn history(n: usize) {
    let e = h_attr::env();
    // (folders of the same name, of names that differ by case, one in the other)
    let dirs = ["w/p", "v/p", "w", "w/P"];
    let mk = |m: &str, b: &str| {
        let mut d = tb("default");
        d.method = Some(format!(".{m}($nth)"));
        let mut f = tb("fx");
        f.method = Some(format!(".{m}x($v)"));
        f.binds = vec![("v".into(), b.into())];
        f.traits = Some(vec![format!("T{m}")]);
        vec![d, f]
    };
    let tomls = [Some(mk("m0", "1")), Some(mk("m1", "2")), None, None];
    let i = probe_fn(vec![A::Method(".mm($nth, $so_far)".into())]);
    let mut trail = S::new();
    for _ in 0..n {
        let d = choice(4) as usize;
        trail += ["p0", "p1", "p2", "p3"][d];
        match (&tomls[d], d) {
            (Some(t), _) => set_toml(dirs[d], Some(&toml(t))),
            (None, 2) => set_toml(dirs[d], None),
            _ => set_toml(dirs[d], Some("[fx]\nmethod = 1")),
        }
        let fx = flag();
        let attr = if fx { "fx" } else { "" };
        if d == 3 {
            let got = hooq(ts(attr), e.subst(ts(&isrc(&i))));
            // (the message holds the path, which differs natively)
            let g = flatten(&got);
            let w = flatten(&ts("::core::compile_error!"));
            check_same(&g[..g.len().min(w.len())], &w, "a project with a broken hooq.toml keeps failing");
            continue;
        }
        let v = store(tomls[d].as_deref().unwrap_or(&[]), &e);
        match find(&v, &strs(&[if fx { "fx" } else { "default" }])) {
            Some(f) => run_flavor(ts(attr), &f.traits, &i, &f.cx, &e, "a project sees its own hooq.toml, whatever was expanded before"),
            None => run_err(ts(attr), &i, &e, &not_found(&strs(&["fx"]), &v), "a project does not see another's flavors"),
        }
    }
    cover(&trail);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_history() {
    history(2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_history3() {
    history(3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_history4() {
    history(4);
}
