//! `return` operands and tail expressions.
use crate::model::*;
use crate::u::*;
use vs::*;

const M: &str = ".mk($nth, $source)";

/// Operands a `return` or a tail can carry.
fn operand(i: u8) -> E {
    match i {
        0 => call("Err", vec![raw("Q1")]),
        1 => call("Ok", vec![raw("Q1")]),
        2 => call("Q0", vec![raw("Q1")]),
        3 => call("std::io::Err", vec![raw("Q1")]),
        4 => call("std::io::Ok", vec![raw("Q1")]),
        5 => call("Err::<u8, Q1>", vec![raw("2")]).with_last("Err"),
        6 => call("Q0::Ok", vec![]).with_last("Ok"),
        7 => call("Ok::Q0", vec![]).with_last("Q0"),
        8 => raw("Q0"),
        9 => raw("Ok"),
        10 => raw("7"),
        11 => raw("s.Err(Q1)"),
        12 => raw("s.Q0"),
        13 => E::Mac(vec![], "Err".into(), ("(".into(), ")".into()), vec![(MA::E(raw("Q1")), "".into())]),
        14 => raw("Q0 { a: 1 }"),
        15 => raw("(Ok(Q1))"),
        16 => raw("Q0.await"),
        17 => raw("(Err)(1)"),
        18 => try_(call("Err", vec![])),
        19 => rawl("!Q0"),
        20 => rawl("*Q0"),
        21 => rawl("&Q0"),
        22 => rawl("Q0 | Q1"),
        23 => rawl("Q0 as Q1"),
        24 => rawl("Q0 .. Q1"),
        25 => E::Clo(vec![], "|a|".into(), None, CB::Expr(Box::new(raw("Q0")))),
        26 => rawl("Q0 = Q1"),
        27 => ret(call("Err", vec![raw("Q1")])),
        28 => ret(raw("Q0")),
        29 => E::Ret(vec![], None),
        _ => call("Err", vec![call("Ok", vec![try_(raw("Q1"))])]),
    }
}
const OPS: u8 = 31;

/// Declared return types: text, last segment of a path type.
fn rtype(i: u8) -> (Option<&'static str>, Option<&'static str>) {
    match i {
        0 => (None, None),
        1 => (Some("Result<u8, Q1>"), Some("Result")),
        2 => (Some("::std::result::Result<(), Q1>"), Some("Result")),
        3 => (Some("Option<Q1>"), Some("Option")),
        4 => (Some("Result::Q2"), Some("Q2")),
        5 => (Some("&Result<u8, Q1>"), None),
        6 => (Some("(Result<u8, Q1>, u8)"), None),
        7 => (Some("impl Result<Q1>"), None),
        8 => (Some("<Q1 as Tr>::Result"), Some("Result")),
        _ => (Some("Q2"), Some("Q2")),
    }
}
const RTS: u8 = 10;

fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("q", 2));
    e.add("Q1", sym_name("q", 2));
    e.add("Q2", sym_name("q", 1));
    e
}
fn with_ret(mut f: F, r: u8) -> F {
    let (t, l) = rtype(r);
    f.ret = t.map(|s| s.into());
    f.ret_last = l.map(|s| s.into());
    f
}
/// Places a body where it is the body of a function or closure.
fn holder(k: u8, r: u8, body: Vec<St>) -> I {
    let f = || func("fun", None, vec![]);
    let head = |h: &str| match rtype(r).0 {
        Some(t) => format!("{h} -> {t}"),
        None => h.to_string(),
    };
    let l = rtype(r).1.map(|s| s.to_string());
    let outer_result = || {
        let mut f = f();
        f.ret = Some("Result<u8, u8>".into());
        f.ret_last = Some("Result".into());
        f
    };
    match k {
        0 => {
            let mut f = with_ret(f(), r);
            f.body = body;
            I::Fn(f)
        }
        1 => {
            let mut g = with_ret(f(), r);
            g.body = body;
            g.params = "(&self)".into();
            I::Group(vec![], "impl Ty".into(), vec![I::Fn(g)])
        }
        2 => {
            let mut g = with_ret(f(), r);
            g.body = body;
            g.params = "(&self)".into();
            I::Group(vec![], "trait Tr".into(), vec![I::Fn(g)])
        }
        3 => {
            let mut g = with_ret(f(), r);
            g.body = body;
            g.pre = "async".into();
            let mut o = outer_result();
            o.body = vec![St::Item(I::Fn(g)), St::Semi(raw("g()"))];
            I::Fn(o)
        }
        4 => {
            let mut o = outer_result();
            o.body = vec![St::Let(vec![], "_".into(), E::Clo(vec![], head("|a|"), l, CB::Block(body)), None)];
            I::Fn(o)
        }
        _ => {
            let mut o = outer_result();
            o.body = vec![St::Semi(call("g", vec![E::Clo(vec![], head("move |a: u8|"), l, CB::Block(body))]))];
            I::Fn(o)
        }
    }
}
const HOLDERS: u8 = 6;
fn with_attrs(i: I, at: Vec<A>) -> I {
    match i {
        I::Fn(mut f) => {
            f.attrs = at;
            I::Fn(f)
        }
        I::Group(_, h, v) => I::Group(at, h, v),
        i => i,
    }
}
fn go(i: I, env: &Env, msg: &str) {
    run("", &i, &Cx::defaults(""), env, msg);
}

/// Every operand as the value of a `return`.
#[unsafe(no_mangle)]
pub extern "C" fn h_ret() {
    let (h, r, o) = (choice(HOLDERS), choice(RTS), choice(OPS));
    let body = vec![St::Semi(E::Ret(vec![], Some(Box::new(operand(o))))), St::Semi(raw("g()"))];
    go(with_attrs(holder(h, r, body), vec![A::Method(M.into())]), &env(), "`return` hooked exactly when the rules say so");
    cover(["o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"][(o % 10) as usize]);
}
/// `return` below other constructs: the innermost function or closure decides.
#[unsafe(no_mangle)]
pub extern "C" fn h_ret_nest() {
    let (k, r, o) = (choice(12), choice(4), choice(3));
    let rt = || E::Ret(vec![], Some(Box::new(operand(o))));
    let s = || vec![St::Semi(rt())];
    let b = |pre: &str| E::Body(vec![], vec![t(pre)], s(), vec![]);
    let e = match k {
        0 => b("loop"),
        1 => b("if c"),
        2 => b("unsafe"),
        3 => b("async move"),
        4 => b("while c"),
        5 => E::Match(vec![], Box::new(raw("g()")), vec![Arm { pat: "_".into(), guard: None, body: rt() }]),
        6 => E::Clo(vec![], "|a|".into(), None, CB::Expr(Box::new(rt()))),
        7 => E::Clo(vec![], "|a|".into(), None, CB::Block(s())),
        8 => E::Clo(vec![], "|a| -> Result<u8, u8>".into(), Some("Result".into()), CB::Block(s())),
        9 => E::Clo(vec![], "|a| -> u8".into(), Some("u8".into()), CB::Block(s())),
        10 => E::Body(vec![], vec![t("for a in b")], vec![St::Let(vec![], "Some(x)".into(), raw("g()"), Some(s()))], vec![]),
        _ => call("g", vec![E::Seq(vec![], vec![t("["), P::H(rt()), t("]")])]),
    };
    let body = vec![St::Let(vec![], "_".into(), e, None), St::Semi(rt())];
    go(with_attrs(holder(0, r, body), vec![A::Method(M.into())]), &env(), "`return` judged by its own function or closure");
    cover(["loop", "if", "unsafe", "async", "while", "match", "c0", "c1", "c2", "c3", "for", "call"][k as usize]);
}
/// Every operand as the tail of a function or closure body.
#[unsafe(no_mangle)]
pub extern "C" fn h_tail() {
    let (h, r, o) = (choice(HOLDERS), choice(RTS), choice(OPS));
    let body = vec![St::Let(vec![], "_".into(), call("Err", vec![]), None), St::Semi(call("Err", vec![raw("1")])), St::Tail(operand(o))];
    go(with_attrs(holder(h, r, body), vec![A::Method(M.into())]), &env(), "function tail hooked exactly when the rules say so");
    cover(["o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9"][(o % 10) as usize]);
}
/// Block-like expressions whose own tails are operands.
fn blocklike(k: u8, tail: E) -> E {
    let st = || vec![St::Semi(raw("g()")), St::Tail(tail.clone())];
    let one = || vec![St::Tail(tail.clone())];
    let b = |pre: &str| E::Body(vec![], vec![t(pre)], one(), vec![]);
    match k {
        0 => E::Body(vec![], vec![], st(), vec![]),
        1 => b("unsafe"),
        2 => b("async"),
        3 => b("async move"),
        4 => b("loop"),
        5 => b("while c"),
        6 => b("for a in b"),
        7 => b("if c"),
        8 => E::Body(vec![], vec![t("if c")], vec![St::Tail(raw("2"))], vec![t("else"), P::H(E::Body(vec![], vec![], st(), vec![]))]),
        9 => E::Body(
            vec![],
            vec![t("if let Some(a) = g()")],
            one(),
            vec![
                t("else"),
                P::H(E::Body(vec![], vec![t("if d")], st(), vec![t("else"), P::H(E::Body(vec![], vec![], one(), vec![]))])),
            ],
        ),
        10 => E::Match(vec![], Box::new(raw("g()")), vec![Arm { pat: "1".into(), guard: None, body: tail.clone() }, Arm { pat: "_".into(), guard: Some(raw("c")), body: tail }]),
        11 => E::Match(vec![], Box::new(raw("g()")), vec![Arm { pat: "_".into(), guard: None, body: E::Body(vec![], vec![], st(), vec![]) }]),
        12 => b("const"),
        13 => b("'a: "),
        14 => E::Clo(vec![], "|a|".into(), None, CB::Expr(Box::new(E::Body(vec![], vec![t("unsafe")], one(), vec![])))),
        _ => E::Mac(vec![], "mm".into(), ("{".into(), "}".into()), vec![(MA::E(E::Body(vec![], vec![], one(), vec![])), "".into())]),
    }
}
const BLOCKS: u8 = 16;
const BN: [&str; 16] = ["block", "unsafe", "async", "async move", "loop", "while", "for", "if", "else", "else if", "match", "match block", "const", "label", "closure", "macro"];
/// Tails of inner blocks, where the block is not the tail of the function.
#[unsafe(no_mangle)]
pub extern "C" fn h_block_tail() {
    let (k, r, o) = (choice(BLOCKS), choice(2), choice(OPS));
    let body = vec![St::Let(vec![], "_".into(), blocklike(k, operand(o)), None), St::Semi(raw("g()"))];
    go(with_attrs(holder(0, r, body), vec![A::Method(M.into())]), &env(), "block tail hooked exactly when it is a configured call");
    cover(BN[k as usize]);
}
/// The block is itself the function's (or closure's) tail, in both modes.
#[unsafe(no_mangle)]
pub extern "C" fn h_block_is_tail() {
    let (k, h, r, o, m) = (choice(BLOCKS - 1), choice(2) * 4, choice(3), choice(3), choice(2));
    let body = vec![St::Semi(raw("g()")), St::Tail(blocklike(k, operand(o)))];
    let m = [M, "wrap($expr, $nth)"][m as usize];
    go(with_attrs(holder(h, r, body), vec![A::Method(m.into())]), &env(), "function tail that is a block");
    cover(BN[k as usize]);
}
/// Statements that are not tails are never hooked, whatever they call.
#[unsafe(no_mangle)]
pub extern "C" fn h_not_tail() {
    let (k, r, o) = (choice(4), choice(2), choice(OPS));
    let mut inner = vec![St::Semi(operand(o))];
    if flag() {
        inner.push(St::Raw("let z: u8;".into()));
    }
    let b = E::Body(vec![], vec![t(["", "unsafe", "loop", "async"][(k % 4) as usize])], inner, vec![]);
    let body = if flag() { vec![St::Let(vec![], "_".into(), b, None)] } else { vec![St::Let(vec![], "_".into(), raw("g()"), None), St::Semi(operand(o))] };
    go(with_attrs(holder(0, r, body), vec![A::Method(M.into())]), &env(), "a statement ending in `;` is not a tail");
    cover("non-tail");
}
