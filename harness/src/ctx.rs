//! Every syntactic position an expression can sit in, as reference programs
//! with a hole.
use crate::model::*;

fn seq(tm: &str, h: E) -> E {
    // `H` marks the hole
    let i = tm.find('H').unwrap();
    E::Seq(vec![], vec![t(&tm[..i]), P::H(h), t(&tm[i + 1..])])
}
fn body(pre: &str, h: E) -> E {
    E::Body(vec![], vec![t(pre)], vec![St::Let(vec![], "_".into(), h, None), St::Tail(raw("1"))], vec![])
}
fn clo(head: &str, b: CB) -> E {
    E::Clo(vec![], head.into(), None, b)
}
fn lets(h: E) -> Vec<St> {
    vec![St::Let(vec![], "_".into(), h, None), St::Tail(raw("1"))]
}
fn mac(open: &str, close: &str, args: Vec<(MA, &str)>) -> E {
    E::Mac(vec![], "mm".into(), (open.into(), close.into()), args.into_iter().map(|(a, s)| (a, s.to_string())).collect())
}
fn arm(pat: &str, guard: Option<E>, body: E) -> Arm {
    Arm { pat: pat.into(), guard, body }
}
fn mtch(s: E, arms: Vec<Arm>) -> E {
    E::Match(vec![], Box::new(s), arms)
}
fn fnitem(h: E) -> I {
    I::Fn(func("inner", None, vec![St::Semi(h)]))
}
/// name, low precedence?
pub const CTX: &[(&str, bool)] = &[
    ("array first", false),
    ("array last", false),
    ("assign right", true),
    ("compound assign right", true),
    ("async block", false),
    ("async move block", false),
    ("await", false),
    ("binary left", true),
    ("binary right", true),
    ("lazy and right", true),
    ("block", false),
    ("labelled block", true),
    ("break value", true),
    ("call callee", false),
    ("call argument 1", false),
    ("call argument 2", false),
    ("cast", true),
    ("closure expression", true),
    ("closure block", true),
    ("move closure", true),
    ("const block", false),
    ("field base", false),
    ("tuple field base", false),
    ("for iterator", false),
    ("for body", false),
    ("if condition", false),
    ("if then", false),
    ("else", false),
    ("else if condition", false),
    ("else if body", false),
    ("index base", false),
    ("index", false),
    ("if let scrutinee", false),
    ("let chain", false),
    ("while let", false),
    ("loop body", false),
    ("match scrutinee", false),
    ("match guard", false),
    ("match arm expression", false),
    ("match arm block", false),
    ("match second arm", false),
    ("method receiver", false),
    ("method argument 1", false),
    ("method argument 2", false),
    ("paren", false),
    ("range start", true),
    ("range end", true),
    ("inclusive range end", true),
    ("raw address", true),
    ("reference", true),
    ("mutable reference", true),
    ("repeat element", false),
    ("repeat length", false),
    ("struct field 1", true),
    ("struct field 2", true),
    ("struct base", true),
    ("tuple 1", false),
    ("tuple 2", false),
    ("not", true),
    ("neg", true),
    ("deref", true),
    ("unsafe block", false),
    ("while condition", false),
    ("while body", false),
    ("return value", true),
    ("try operand", false),
    ("let else", false),
    ("macro single", false),
    ("macro comma list", false),
    ("macro semicolon list", false),
    ("macro brackets", false),
    ("macro statement", false),
    ("nested fn", false),
    ("nested const item", false),
    ("nested static item", false),
    ("impl method", false),
    ("impl const", false),
    ("trait default method", false),
    ("trait const", false),
    ("inline module", false),
    ("yield", true),
    ("try block", false),
    ("assign index left", true),
    ("assign field left", true),
];

pub fn ctx(i: usize, h: E) -> E {
    let g = || raw("g()");
    match CTX[i].0 {
        "array first" => seq("[H, 1]", h),
        "array last" => seq("[1, H]", h),
        "assign right" => seq("x = H", h),
        "compound assign right" => seq("x += H", h),
        "async block" => body("async", h),
        "async move block" => body("async move", h),
        "await" => seq("H.await", h),
        "binary left" => seq("H + 1", h),
        "binary right" => seq("1 - H", h),
        "lazy and right" => seq("a && H", h),
        "block" => E::Body(vec![], vec![], lets(h), vec![]),
        "labelled block" => body("'l:", h),
        "break value" => seq("break H", h),
        "call callee" => seq("(H)(1)", h),
        "call argument 1" => call("g", vec![h, raw("2")]),
        "call argument 2" => call("g", vec![raw("1"), h]),
        "cast" => seq("H as u8", h),
        "closure expression" => clo("|a|", CB::Expr(Box::new(h))),
        "closure block" => clo("|a|", CB::Block(lets(h))),
        "move closure" => clo("move |a: u8|", CB::Block(lets(h))),
        "const block" => body("const", h),
        "field base" => seq("H.fld", h),
        "tuple field base" => seq("H.0", h),
        "for iterator" => E::Body(vec![], vec![t("for a in"), P::H(h)], vec![St::Semi(g())], vec![]),
        "for body" => body("for a in b", h),
        "if condition" => E::Body(vec![], vec![t("if"), P::H(h)], vec![St::Semi(g())], vec![]),
        "if then" => body("if c", h),
        "else" => E::Body(vec![], vec![t("if c")], vec![St::Tail(raw("2"))], vec![t("else"), P::H(block(lets(h)))]),
        "else if condition" => E::Body(
            vec![],
            vec![t("if c")],
            vec![St::Tail(raw("2"))],
            vec![t("else"), P::H(E::Body(vec![], vec![t("if"), P::H(h)], vec![], vec![]))],
        ),
        "else if body" => E::Body(
            vec![],
            vec![t("if c")],
            vec![St::Tail(raw("2"))],
            vec![
                t("else"),
                P::H(E::Body(vec![], vec![t("if d")], lets(h), vec![t("else"), P::H(block(vec![St::Tail(raw("3"))]))])),
            ],
        ),
        "index base" => seq("H[0]", h),
        "index" => seq("a[H]", h),
        "if let scrutinee" => E::Body(vec![], vec![t("if let Some(a) ="), P::H(h)], vec![], vec![]),
        "let chain" => E::Body(vec![], vec![t("if c && let Some(a) ="), P::H(h)], vec![], vec![]),
        "while let" => E::Body(vec![], vec![t("while let Some(a) ="), P::H(h)], vec![], vec![]),
        "loop body" => body("loop", h),
        "match scrutinee" => mtch(h, vec![arm("_", None, raw("1"))]),
        "match guard" => mtch(g(), vec![arm("_", Some(h), raw("1"))]),
        "match arm expression" => mtch(g(), vec![arm("_", None, h)]),
        "match arm block" => mtch(g(), vec![arm("_", None, block(lets(h)))]),
        "match second arm" => mtch(g(), vec![arm("1", None, raw("1")), arm("_", None, h)]),
        "method receiver" => seq("H.mth(1)", h),
        "method argument 1" => seq("a.mth(H, 1)", h),
        "method argument 2" => seq("a.mth(1, H)", h),
        "paren" => seq("(H)", h),
        "range start" => seq("H..1", h),
        "range end" => seq("1..H", h),
        "inclusive range end" => seq("1..=H", h),
        "raw address" => seq("&raw const H", h),
        "reference" => seq("&H", h),
        "mutable reference" => seq("&mut H", h),
        "repeat element" => seq("[H; 3]", h),
        "repeat length" => seq("[0; H]", h),
        "struct field 1" => seq("Pt { a: H, b: 1 }", h),
        "struct field 2" => seq("Pt { a: 1, b: H }", h),
        "struct base" => seq("Pt { a: 1, ..H }", h),
        "tuple 1" => seq("(H, 1)", h),
        "tuple 2" => seq("(1, H)", h),
        "not" => seq("!H", h),
        "neg" => seq("-H", h),
        "deref" => seq("*H", h),
        "unsafe block" => body("unsafe", h),
        "while condition" => E::Body(vec![], vec![t("while"), P::H(h)], vec![], vec![]),
        "while body" => body("while c", h),
        "return value" => ret(h),
        "try operand" => try_(call("g", vec![h])),
        "let else" => block(vec![St::Let(vec![], "Some(a)".into(), g(), Some(vec![St::Semi(h), St::Semi(raw("return"))])), St::Tail(raw("1"))]),
        "macro single" => mac("(", ")", vec![(MA::E(h), "")]),
        "macro comma list" => mac("(", ")", vec![(MA::E(raw("1")), ","), (MA::E(h), ","), (MA::E(raw("2")), "")]),
        "macro semicolon list" => mac("(", ")", vec![(MA::E(h), ";"), (MA::E(raw("2")), "")]),
        "macro brackets" => mac("[", "]", vec![(MA::E(h), ",")]),
        "macro statement" => block(vec![St::Mac(mac("{", "}", vec![(MA::E(h), "")]), false), St::Tail(raw("1"))]),
        "nested fn" => block(vec![St::Item(fnitem(h)), St::Tail(raw("1"))]),
        "nested const item" => block(vec![St::Item(I::Const(vec![], "const KC: u8 =".into(), h)), St::Tail(raw("1"))]),
        "nested static item" => block(vec![St::Item(I::Const(vec![], "static KS: u8 =".into(), h)), St::Tail(raw("1"))]),
        "impl method" => block(vec![St::Item(I::Group(vec![], "impl Tr for Ty".into(), vec![I::Raw("type A = u8;".into()), fnitem(h)]))]),
        "impl const" => block(vec![St::Item(I::Group(vec![], "impl Ty".into(), vec![I::Const(vec![], "const KC: u8 =".into(), h)]))]),
        "trait default method" => block(vec![St::Item(I::Group(vec![], "trait Tr".into(), vec![I::Raw("fn req(&self);".into()), fnitem(h)]))]),
        "trait const" => block(vec![St::Item(I::Group(vec![], "trait Tr".into(), vec![I::Const(vec![], "const KC: u8 =".into(), h)]))]),
        "inline module" => block(vec![St::Item(I::Group(vec![], "mod md".into(), vec![fnitem(h)]))]),
        "yield" => seq("yield H", h),
        "try block" => body("try", h),
        "assign index left" => seq("a[H] = 1", h),
        "assign field left" => seq("H.fld = 1", h),
        _ => unreachable!(),
    }
}
/// `ctx` with parentheses where the text needs them to be nested.
pub fn nest(i: usize, h: E) -> E {
    let e = ctx(i, h);
    if CTX[i].1 { E::Seq(vec![], vec![t("("), P::H(e), t(")")]) } else { e }
}
