//! Attributes below `#[hooq]`: where they apply, what they override, that they
//! disappear.
use crate::model::*;
use crate::u::*;
use vs::*;

fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn blk(pre: &str, b: Vec<St>) -> E {
    E::Body(vec![], if pre.is_empty() { vec![] } else { vec![t(pre)] }, b, vec![])
}
fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
/// statements that show every setting
pub fn probe() -> Vec<St> {
    vec![
        bind(try_(raw("p0()"))),
        bind(blk("", vec![St::Tail(call("Q0", vec![]))])),
        bind(E::Clo(vec![], "|a| -> Result<u8, u8>".into(), Some("Result".into()), CB::Block(vec![St::Semi(ret(call("Q1", vec![])))]))),
        bind(E::Clo(vec![], "|a| -> Rt".into(), Some("Rt".into()), CB::Block(vec![St::Tail(call("Ok", vec![]))]))),
        bind(E::Mac(vec![], "mm".into(), ("(".into(), ")".into()), vec![(MA::E(try_(raw("p2()"))), "".into())])),
    ]
}
pub fn d() -> E {
    try_(raw("p3()"))
}
fn seq(a: Vec<A>, parts: Vec<P>) -> E {
    E::Seq(a, parts)
}
fn h(e: E) -> P {
    P::H(e)
}
pub const POS: &[&str] = &[
    "let", "let else", "array", "call", "method call", "block", "if", "if let", "match", "closure", "closure expr", "loop", "while", "for",
    "unsafe", "async", "const block", "try", "return", "paren", "tuple", "repeat", "index", "field", "await", "struct", "struct field",
    "macro stmt", "macro expr", "macro braces", "fn", "impl", "impl fn", "impl const", "mod", "trait", "trait fn", "trait const", "const", "static",
    "item macro", "argument", "break", "let value", "reference", "unary", "yield", "try block", "raw addr", "range", "else if",
];
/// An element with attributes `a`, `d` directly inside and `b` in a block of it.
pub fn place(i: usize, a: Vec<A>, d: E, b: Vec<St>) -> Vec<St> {
    let inner = |b: Vec<St>| blk("", b);
    let fi = |a: Vec<A>, b: Vec<St>| {
        let mut f = func("inner", None, vec![bind(d.clone()), bind(blk("", b))]);
        f.attrs = a;
        I::Fn(f)
    };
    let kc = |a: Vec<A>, h: &str, b: Vec<St>| I::Const(a, h.into(), E::Seq(vec![], vec![t("["), P::H(d.clone()), t(","), P::H(blk("", b)), t("]")]));
    let grp = |a: Vec<A>, h: &str, i: I| vec![St::Item(I::Group(a, h.into(), vec![I::Raw("const KA: u8 = 1;".into()), i]))];
    match POS[i] {
        "let" => vec![St::Let(a, "_".into(), seq(vec![], vec![t("["), h(d), t(","), h(inner(b)), t("]")]), None)],
        "let else" => vec![St::Let(a, "Some(x)".into(), d, Some(b))],
        "array" => vec![St::Semi(seq(a, vec![t("["), h(d), t(","), h(inner(b)), t("]")]))],
        "call" => vec![St::Semi(attrs(call("g", vec![d, inner(b)]), a))],
        "method call" => vec![St::Semi(seq(a, vec![h(d), t(".mth("), h(inner(b)), t(")")]))],
        "block" => vec![St::Tail(attrs(inner({
            let mut v = vec![bind(d)];
            v.extend(b);
            v
        }), a))],
        "if" => vec![St::Tail(E::Body(a, vec![t("if"), h(d.clone())], b, vec![t("else"), h(blk("", vec![bind(d)]))]))],
        "else if" => vec![St::Tail(E::Body(a, vec![t("if"), h(raw("c0"))], b.clone(), vec![
            t("else"),
            h(E::Body(vec![], vec![t("if"), h(d.clone())], b, vec![t("else"), h(blk("", vec![bind(d)]))])),
        ]))],
        "if let" => vec![St::Tail(E::Body(a, vec![t("if let Some(x) ="), h(d)], b, vec![]))],
        "match" => vec![St::Tail(E::Match(a, Box::new(d.clone()), vec![
            Arm { pat: "1".into(), guard: Some(d.clone()), body: d },
            Arm { pat: "_".into(), guard: None, body: inner(b) },
        ]))],
        "closure" => vec![bind(E::Clo(a, "|a| -> Rt".into(), Some("Rt".into()), CB::Block({
            let mut v = b;
            v.push(St::Tail(call("Q1", vec![d])));
            v
        })))],
        "closure expr" => vec![bind(E::Clo(a, "|a|".into(), None, CB::Expr(Box::new(call("Q1", vec![d, inner(b)])))))],
        "loop" => vec![St::Tail(attrs(blk("loop", b), a))],
        "while" => vec![St::Tail(E::Body(a, vec![t("while"), h(d)], b, vec![]))],
        "for" => vec![St::Tail(E::Body(a, vec![t("for x in"), h(d)], b, vec![]))],
        "unsafe" => vec![St::Tail(attrs(blk("unsafe", b), a))],
        "async" => vec![St::Semi(attrs(blk("async", b), a))],
        "const block" => vec![St::Semi(attrs(blk("const", b), a))],
        "try" => vec![St::Semi(attrs(try_(call("g", vec![d, inner(b)])), a))],
        "return" => vec![St::Semi(E::Ret(a, Some(Box::new(call("Q1", vec![d, inner(b)])))))],
        "paren" => vec![St::Semi(seq(a, vec![t("("), h(inner(b)), t(")")]))],
        "tuple" => vec![St::Semi(seq(a, vec![t("("), h(d), t(","), h(inner(b)), t(")")]))],
        "repeat" => vec![St::Semi(seq(a, vec![t("["), h(d), t(";"), h(inner(b)), t("]")]))],
        "index" => vec![St::Semi(seq(a, vec![h(d), t("["), h(inner(b)), t("]")]))],
        "field" => vec![St::Semi(seq(a, vec![h(call("g", vec![d, inner(b)])), t(".fld")]))],
        "await" => vec![St::Semi(seq(a, vec![h(call("g", vec![d, inner(b)])), t(".await")]))],
        "struct" => vec![St::Semi(seq(a, vec![t("Pt { a:"), h(d), t(", .."), h(inner(b)), t("}")]))],
        "struct field" => vec![St::Semi(seq(vec![], vec![t("Pt { "), P::A(a, vec![t("a:"), h(d.clone())]), t(", b: "), h(d), t(", .."), h(inner(b)), t("}")]))],
        "macro stmt" => vec![St::Mac(E::Mac(a, "mm".into(), ("(".into(), ")".into()), vec![(MA::E(d), ",".into()), (MA::E(inner(b)), "".into())]), true)],
        "macro expr" => vec![bind(E::Mac(a, "mm".into(), ("[".into(), "]".into()), vec![(MA::E(d), ";".into()), (MA::E(inner(b)), "".into())]))],
        "macro braces" => vec![St::Mac(E::Mac(a, "mm".into(), ("{".into(), "}".into()), vec![(MA::E(d), ",".into()), (MA::E(inner(b)), ",".into())]), false)],
        "fn" => vec![St::Item(fi(a, b))],
        "impl" => grp(a, "impl Tr for Ty", fi(vec![], b)),
        "impl fn" => grp(vec![], "impl Tr for Ty", fi(a, b)),
        "impl const" => grp(vec![], "impl Ty", kc(a, "const KB: u8 =", b)),
        "mod" => grp(a, "mod md", fi(vec![], b)),
        "trait" => grp(a, "trait Tr", fi(vec![], b)),
        "trait fn" => grp(vec![], "trait Tr", fi(a, b)),
        "trait const" => grp(vec![], "trait Tr", kc(a, "const KB: u8 =", b)),
        "const" => vec![St::Item(kc(a, "const KB: u8 =", b))],
        "static" => vec![St::Item(kc(a, "static KB: u8 =", b))],
        "item macro" => grp(vec![], "mod md", I::Mac(a, "mm".into(), ("{".into(), "}".into()), vec![fi(vec![], b)], "".into())),
        "argument" => vec![St::Semi(call("g", vec![d.clone(), attrs(call("g", vec![d, inner(b)]), a)]))],
        "break" => vec![St::Tail(blk("loop", vec![St::Semi(seq(a, vec![t("break"), h(call("g", vec![d, inner(b)]))]))]))],
        "let value" => vec![bind(attrs(call("g", vec![d, inner(b)]), a))],
        "reference" => vec![St::Semi(seq(a, vec![t("&mut"), h(call("g", vec![d, inner(b)]))]))],
        "unary" => vec![St::Semi(seq(a, vec![t("!"), h(call("g", vec![d, inner(b)]))]))],
        "yield" => vec![St::Semi(seq(a, vec![t("yield"), h(call("g", vec![d, inner(b)]))]))],
        "try block" => vec![St::Semi(attrs(blk("try", b), a))],
        "raw addr" => vec![St::Semi(seq(a, vec![t("&raw mut"), h(call("g", vec![d, inner(b)]))]))],
        "range" => vec![St::Semi(seq(a, vec![t("("), h(call("g", vec![d.clone()])), t(".."), h(call("g", vec![d, inner(b)])), t(")")]))],
        _ => unreachable!(),
    }
}
pub fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("q", 1));
    e.add("Q1", sym_name("q", 1));
    e.add("Q2", sym_name("q", 1));
    e
}
const ROOT: &str = ".mk($nth, $v)";
pub fn root(body: Vec<St>) -> I {
    let mut f = func("fun", Some("Result<u8, u8>"), body);
    f.attrs = vec![A::Method(ROOT.into()), A::Bind("v".into(), "10 + 1".into(), 0)];
    I::Fn(f)
}
/// One setting each; `Q2` is a symbolic name that may or may not be `Q0`, `Q1`.
pub fn setting(i: u8) -> Vec<A> {
    match i {
        0 => vec![A::Method(".other($nth, $source)".into())],
        1 => vec![A::Method("wrap($expr, $so_far)".into())],
        2 => vec![A::Targets(vec!["return", "tail_expr"])],
        3 => vec![A::Targets(vec!["?"])],
        4 => vec![A::Targets(vec![])],
        5 => vec![A::Idents(s(&["Q2"]))],
        6 => vec![A::Ignore(s(&["Q2"]))],
        7 => vec![A::Results(s(&["Rt"]))],
        8 => vec![A::Macros(false)],
        9 => vec![A::Bind("v".into(), "\"s\".len()".into(), 0)],
        10 => vec![A::Bind("v".into(), "vec![1, 2]".into(), 1)],
        11 => vec![A::Bind("v".into(), "Q2".into(), 2)],
        12 => vec![A::Skip],
        13 => vec![A::SkipAll],
        14 => vec![A::Keep("#[allow(unused)]".into())],
        15 => vec![],
        17 => vec![A::Macros(true)],
        18 => vec![A::Idents(vec![])],
        19 => vec![A::Ignore(vec![])],
        20 => vec![A::Results(vec![])],
        21 => vec![A::Results(s(&["Result", "Q2"]))],
        _ => vec![A::Idents(s(&["Err", "!Q2"]))],
    }
}
const NSET: u8 = 22;
const MSG: &str = "a setting must hold inside its element, and only there";
fn run_root(body: Vec<St>) {
    let e = env();
    run("", &root(body), &Cx::defaults(""), &e, MSG);
}
/// The settings that show on a program with `before`/`after` hooks.
pub fn around(mid: Vec<St>) -> Vec<St> {
    let mut v = vec![bind(try_(raw("before()")))];
    v.extend(mid);
    v.push(bind(blk("", vec![St::Tail(call("Err", vec![try_(raw("after()"))]))])));
    v.push(St::Mac(E::Mac(vec![], "mm".into(), ("(".into(), ")".into()), vec![(MA::E(d()), "".into())]), true));
    v.push(St::Tail(call("Q0", vec![])));
    v
}
/// Every setting at every position that takes attributes.
#[unsafe(no_mangle)]
pub extern "C" fn h_scope() {
    let (p, i) = (choice(POS.len() as u8) as usize, choice(NSET));
    run_root(around(place(p, setting(i), d(), probe())));
    cover(POS[p]);
}
/// The skips alone, at every position, mixed with other attributes.
#[unsafe(no_mangle)]
pub extern "C" fn h_skip() {
    let (p, i) = (choice(POS.len() as u8) as usize, choice(6));
    let k = || A::Keep("#[allow(dead_code)]".into());
    let a = match i {
        0 => vec![A::Skip],
        1 => vec![A::SkipAll],
        2 => vec![k(), A::Skip, k()],
        3 => vec![A::Skip, A::SkipAll],
        4 => vec![A::SkipAll, A::Method(".other($nth)".into()), A::Skip],
        _ => vec![k(), A::Bind("v".into(), "7".into(), 2), A::Skip],
    };
    run_root(around(place(p, a, d(), probe())));
    cover(POS[p]);
}
/// `$source` and `$expr` of elements with attributes.
#[unsafe(no_mangle)]
pub extern "C" fn h_source_attrs() {
    let (p, i) = (choice(POS.len() as u8) as usize, choice(4));
    let m = || A::Method(".other($source, [$expr])".into());
    let k = || A::Keep("#[allow(dead_code)]".into());
    let a = match i {
        0 => vec![m()],
        1 => vec![k(), m(), k()],
        2 => vec![A::Bind("v".into(), "7".into(), 2), m(), A::Bind("w".into(), "8".into(), 0)],
        _ => vec![A::Targets(vec!["all"]), k(), m()],
    };
    run_root(around(place(p, a, d(), probe())));
    cover(POS[p]);
}
/// Attributes on the value of a block, whatever expression it is.
#[unsafe(no_mangle)]
pub extern "C" fn h_tail_attr() {
    const L: &[&str] = &["_", "x", "1", "x.y", "continue", "break 'l", "Pt { a: 1 }", "\"s\"", "x.0[y]", "()"];
    let (p, i, o) = (choice((POS.len() + L.len()) as u8) as usize, choice(4), flag());
    let k = || A::Keep("#[allow(dead_code)]".into());
    let a = match i {
        0 => vec![A::Method(".other($nth)".into())],
        1 => vec![k(), A::Bind("v".into(), "7".into(), 1), k()],
        2 => vec![A::Skip],
        _ => vec![A::SkipAll, k()],
    };
    let mut v = if p < POS.len() { place(p, a, d(), probe()) } else { vec![St::Semi(seq(a, vec![t(L[p - POS.len()])]))] };
    if v.len() == 1 {
        v = match v.pop().unwrap() {
            St::Semi(e) => vec![St::Tail(e)],
            s => vec![s],
        }
    }
    run_root(around(vec![bind(blk(if o { "unsafe" } else { "" }, v))]));
    cover(if p < POS.len() { POS[p] } else { L[p - POS.len()] });
}
pub const REP: &[usize] = &[0, 3, 6, 9, 16, 30];
/// Two nested elements, both with settings: the innermost wins per setting.
fn nested(p: usize, q: usize, a: Vec<A>, b: Vec<A>) {
    nested_with(p, q, a, b, probe());
}
fn nested_with(p: usize, q: usize, a: Vec<A>, b: Vec<A>, mid: Vec<St>) {
    let inner = place(q, b, d(), mid);
    let mut body = vec![bind(try_(raw("in1()")))];
    body.extend(inner);
    body.push(bind(try_(raw("in2()"))));
    run_root(around(place(p, a, d(), body)));
}
const PAIRS: &[(u8, u8)] = &[
    (0, 1), (1, 0), (1, 1), (0, 15), (2, 3), (3, 2), (3, 4), (5, 16), (16, 5), (6, 6), (7, 15), (7, 5), (8, 15), (8, 0), (9, 10), (10, 11), (9, 0), (0, 9), (2, 5),
    (8, 17), (17, 8), (5, 18), (18, 5), (6, 19), (19, 6), (7, 20), (20, 7), (21, 7), (4, 2), (4, 3), (3, 15), (12, 17), (10, 9), (11, 11),
];
#[unsafe(no_mangle)]
pub extern "C" fn h_scope2() {
    let (p, q) = (REP[choice(3) as usize * 2], REP[choice(REP.len() as u8) as usize]);
    let (a, b) = PAIRS[choice(PAIRS.len() as u8) as usize];
    nested(p, q, setting(a), setting(b));
    cover(POS[p]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_scope2all() {
    let (p, q) = (REP[choice(REP.len() as u8) as usize], REP[choice(REP.len() as u8) as usize]);
    let (a, b) = (choice(NSET), choice(NSET));
    nested(p, q, setting(a), setting(b));
    cover(POS[p]);
}
/// Three nested elements that set the same thing.
#[unsafe(no_mangle)]
pub extern "C" fn h_scope3() {
    const G: &[&[u8]] = &[&[0, 1, 15], &[2, 3, 4], &[5, 16, 18], &[6, 19, 15], &[7, 20, 21], &[8, 17, 15], &[9, 10, 11]];
    let g = choice(G.len() as u8) as usize;
    let k = || setting(G[g][choice(3) as usize]);
    let (a, b, c) = (k(), k(), k());
    let x = choice(2) as usize;
    let mut mid = vec![bind(try_(raw("in3()")))];
    mid.extend(place(REP[1 + x], c, d(), probe()));
    mid.push(bind(try_(raw("in4()"))));
    nested_with(REP[2], REP[3 + x], a, b, mid);
    cover(["method", "targets", "idents", "ignore", "results", "macros", "bindings"][g]);
}
/// `skip` and `skip_all` inside each other.
#[unsafe(no_mangle)]
pub extern "C" fn h_skip2() {
    let (p, q) = (REP[choice(REP.len() as u8) as usize], REP[choice(REP.len() as u8) as usize]);
    let k = |i: u8| match i {
        0 => vec![A::Skip],
        1 => vec![A::SkipAll],
        _ => vec![],
    };
    let (a, b) = (choice(3), choice(3));
    nested(p, q, k(a), k(b));
    cover(POS[p]);
}
