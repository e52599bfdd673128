//! hooq's own attributes disappear, all others stay; anything else named
//! `hooq::…` is an error.
use crate::model::*;
use crate::u::*;
use vs::*;

const LIST: &str = "expected attribute formats are below:

- #[hooq::method(/* e.g. `.method(...)` */)]
- #[hooq::hook_targets(/* e.g. `\"return\", \"?\"` */)]
- #[hooq::tail_expr_idents(/* e.g. `Err` */)]
- #[hooq::ignore_tail_expr_idents(/* e.g. `Ok` */)]
- #[hooq::result_types(/* e.g. `XxxResult` */)]
- #[hooq::hook_in_macros(/* `true` or `false` */)]
- #[hooq::binding(xxx = /* e.g. `42` */)] // xxx is param name
- #[hooq::xxx = /* e.g. `42` */] // alternative syntax for binding
- #[hooq::skip]
- #[hooq::skip_all]
";
/// Elements that can carry an attribute (`@`).
const PLACES: &[&str] = &[
    "@ fn fun() { h()?; }",
    "fn fun() { @ let x = h()?; }",
    "fn fun() { @ h()?; }",
    "fn fun() { let x = @ h(1); }",
    "fn fun() { @ { h()?; } }",
    "fn fun() { g(@ |a| h()?); }",
    "fn fun() { @ mm!(h()?); }",
    "fn fun() { @ fn inner() { h()?; } }",
    "impl Ty { @ fn fun() { h()?; } }",
    "trait Tr { @ fn fun() { h()?; } }",
    "mod md { @ fn fun() { h()?; } }",
    "@ impl Ty { fn fun() { h()?; } }",
    "@ mod md { fn fun() { h()?; } }",
    "@ trait Tr { fn fun() { h()?; } }",
    "fn fun() { @ return h()?; }",
    "fn fun() { let x = Pt { @ a: h()? }; }",
    "fn fun() { @ match h()? { _ => 1 } }",
    "fn fun() { @ if h()? { } }",
    "fn fun() { @ loop { h()?; } }",
    "fn fun() { @ h()? }",
    "fn fun() { @ g().m(1); }",
];
fn put(p: usize, a: &str) -> String {
    PLACES[p].replace('@', a)
}
/// `#[hooq::<name>]`, `#[hooq::<name>(..)]` for any name.
#[unsafe(no_mangle)]
pub extern "C" fn h_bad_name() {
    let n = [1, 2, 3, 4, 5, 6, 7, 8, 12, 14, 16][choice(11) as usize];
    let list = flag();
    let s = sym_ident(n);
    let mut e = Env::default();
    e.add("Zz9", s.clone());
    // two places suffice: the parser is the same for all (see h_bad_place)
    let p = [0, 2][choice(2) as usize];
    let a = if list { "#[hooq::Zz9(\"Err\")]" } else { "#[hooq::Zz9]" };
    // keywords do not lex as plain names in paths
    let kw = ["as", "if", "in", "fn", "do", "let", "for", "mut", "mod", "pub", "ref", "use", "box", "dyn", "try", "move", "else", "enum", "impl", "loop", "self", "Self",
        "true", "type", "async", "await", "break", "const", "crate", "false", "match", "super", "trait", "where", "while", "yield", "extern", "return", "static", "struct",
        "unsafe", "abstract", "become", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "continue", "gen"];
    for k in kw {
        if k.len() == n {
            assume(s != k);
        }
    }
    let known: &[&str] = if list { &["method", "binding", "var", "hook_targets", "result_types", "hook_in_macros", "tail_expr_idents"] } else { &["skip", "skip_all"] };
    for k in known {
        if k.len() == n {
            assume(s != *k);
        }
    }
    let got = hooq(ts("empty"), e.subst(ts(&put(p, a))));
    match err_lit(&got) {
        None => check(false, "an unknown hooq attribute is rejected"),
        Some(l) => {
            let w = Literal_string(LIST);
            log_bytes(l.as_bytes());
            let k = w.len() - 1;
            check(l.len() > k, "the message lists the accepted forms");
            check_same(&l.as_bytes()[..k], &w.as_bytes()[..k], "the message lists the accepted forms");
        }
    }
    cover(if list { "list" } else { "path" });
}
#[allow(non_snake_case)]
fn Literal_string(s: &str) -> String {
    proc_macro2::Literal::string(s).to_string()
}
/// Malformed attributes at every place.
#[unsafe(no_mangle)]
pub extern "C" fn h_bad_place() {
    const B: &[&str] = &[
        "#[hooq::zz]",
        "#[hooq::zz(1)]",
        "#[hooq::a::b]",
        "#[hooq::a::b(1)]",
        "#[hooq::a::b = 1]",
        "#[hooq::ignore_tail_expr_idents = empty]",
        "#[hooq::flavor = 1]",
        "#[hooq::flavor = a.b]",
        "#[hooq::method = f()]",
        "#[hooq::hook_targets = [1]]",
        "#[hooq::result_types = 2]",
        "#[hooq::tail_expr_idents = 'c']",
        "#[hooq::hook_in_macros = true]",
        "#[hooq::bindings = (a)]",
        "#[hooq::hook_in_macros(1)]",
        "#[hooq::hook_in_macros()]",
        "#[hooq::hook_in_macros(\"true\")]",
        "#[hooq::hook_in_macros(true, false)]",
        "#[hooq::binding(a)]",
        "#[hooq::binding(a = 1, b = 2)]",
        "#[hooq::binding(a::b = 1)]",
        "#[hooq::var()]",
        "#[hooq::var(a = )]",
        "#[hooq::hook_targets(\"Zz9\")]",
        "#[hooq::flavor = zz]",
        "#[hooq::flavor = \"log::zz\"]",
        "#[hooq::method = zz]",
        "#[hooq::flavor = \"\"]",
        "#[hooq::flavor = \"log.\"]",
        "#[hooq::flavor = log::<u8>]",
    ];
    let p = choice(PLACES.len() as u8) as usize;
    let b = choice(B.len() as u8) as usize;
    let mut e = Env::default();
    e.add("Zz9", sym_name("x", 2));
    let k = ["", "#[allow(x)] "][(b + p) % 2];
    let got = hooq(Ts::new(), e.subst(ts(&put(p, &format!("{k}{}", B[b])))));
    expect_any_err(&got, "a malformed hooq attribute is an error");
    cover(B[b]);
}
/// Messages that name the attribute.
#[unsafe(no_mangle)]
pub extern "C" fn h_bad_msg() {
    const B: &[(&str, &str)] = &[
        ("hooq::a::b", "invalid hooq attribute format. expected: hooq::xxx, hooq::xxx(...) or hooq::xxx = ..."),
        ("hooq::a::b(1)", "invalid hooq attribute format. expected: hooq::xxx, hooq::xxx(...) or hooq::xxx = ..."),
        ("hooq::a::b = 1", "invalid hooq attribute format. expected: hooq::xxx, hooq::xxx(...) or hooq::xxx = ..."),
        ("hooq::flavor = 1", "invalid hooq::flavor attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::method = 1", "invalid hooq::method attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::hook_targets = 1", "invalid hooq::hook_targets attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::tail_expr_idents = 1", "invalid hooq::tail_expr_idents attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::result_types = 1", "invalid hooq::result_types attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::hook_in_macros = 1", "invalid hooq::hook_in_macros attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::bindings = 1", "invalid hooq::bindings attribute value. expected: FLAVOR_NAME as path or string"),
        ("hooq::binding(a::b = 1)", "invalid hooq::binding or hooq::var attribute format. expected: hooq::binding(name = value) or hooq::var(name = value)"),
        ("hooq::var(a::b = 1)", "invalid hooq::binding or hooq::var attribute format. expected: hooq::binding(name = value) or hooq::var(name = value)"),
    ];
    let p = [0, 2, 8][choice(3) as usize];
    let b = choice(B.len() as u8) as usize;
    let mut e = Env::default();
    e.add("a", sym_name("x", 2));
    let got = hooq(Ts::new(), e.subst(ts(&put(p, &format!("#[{}]", B[b].0)))));
    expect_err(&got, B[b].1, "the message says what is wrong");
    cover(B[b].0);
}
const OWN: &[&str] = &[
        "#[hooq::skip]",
        "#[hooq::skip_all]",
        "#[hooq::method(.x($v))]",
        "#[hooq::hook_targets(\"?\")]",
        "#[hooq::tail_expr_idents(\"A\", \"!B\")]",
        "#[hooq::ignore_tail_expr_idents()]",
        "#[hooq::result_types(\"A\",)]",
        "#[hooq::hook_in_macros(false)]",
        "#[hooq::binding(v = 1 + 1)]",
        "#[hooq::var(v = [1])]",
        "#[hooq::v = \"s\"]",
        "#[hooq::flavor = empty]",
        "#[hooq::method = hook]",
        "#[hooq::hook_targets = \"default\"]",
        "#[hooq::tail_expr_idents = log]",
        "#[hooq::result_types = \"log::info\"]",
        "#[hooq::hook_in_macros = empty]",
        "#[hooq::bindings = \"log.warn\"]",
    ];
const KEPT: &[&str] = &[
        "#[Q0]", "#[Q0::Q1]", "#[Q0(hooq::skip)]", "#[Q0 = \"hooq\"]", "#[Q1::hooq]", "#[Q1::hooq::skip]", "#[cfg_attr(Q0, hooq::skip)]", "#[hooq]", "#[hooq(empty)]", "/** doc Q0 */", "#[hooq = 1]",
    ];
/// Attributes that are not hooq's survive, in order; hooq's do not.
#[unsafe(no_mangle)]
pub extern "C" fn h_keep() {
    let p = choice(PLACES.len() as u8) as usize;
    let o = choice(OWN.len() as u8) as usize;
    keep(p, o, (p * 7 + o * 3) % KEPT.len());
}
/// The same for every pair of survivors.
#[unsafe(no_mangle)]
pub extern "C" fn h_keep_all() {
    keep(choice(PLACES.len() as u8) as usize, choice(OWN.len() as u8) as usize, choice(KEPT.len() as u8) as usize);
}
fn keep(p: usize, o: usize, k: usize) {
    let mut e = Env::default();
    // one letter away from `hooq` in every direction
    let n = sym_name("hoo", 1);
    assume(n != "hooq");
    e.add("Q0", n);
    let n = sym_name("hooq", 1);
    e.add("Q1", n);
    let (k1, k2) = (KEPT[k], KEPT[(k + 1 + o % (KEPT.len() - 1)) % KEPT.len()]);
    let text = put(p, &format!("{k1} {} {k2}", OWN[o]));
    let got = hooq(ts("empty"), e.subst(ts(&text)));
    let want = put(p, &format!("{k1} {k2}"));
    expect_tokens(&got, &e.subst(ts(&want)), "other attributes survive in order, hooq's disappear");
    cover(OWN[o]);
}
