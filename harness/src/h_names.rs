//! Name lists: matching on whole last path segments, for arbitrary names.
use crate::model::*;
use crate::u::*;
use vs::*;

/// A capitalised identifier of `n` symbolic characters (never a keyword).
fn cap(n: u8) -> String {
    let mut b = vec![u8_in(b'A', b'Z')];
    for _ in 1..n {
        b.push(u8_in(b'a', b'z'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
const M: &str = ".mk($nth, $source)";
/// Where the call stands: `return`, tails of function, closure, block, arm.
const CALLEES: u8 = 16;
/// Return types around the name `Q4`, with their last segment.
const RT: &[Option<(&str, &str)>] = &[
    None,
    Some(("Q4<u8>", "Q4")),
    Some(("x::Q4", "Q4")),
    Some(("::x::Q4<u8>", "Q4")),
    Some(("Q4::x<Q4>", "x")),
    Some(("x::<Q4>::Q4::<u8>", "Q4")),
    Some(("<u8 as Q4>::Q4", "Q4")),
    Some(("&Q4", "-")),
    Some(("impl Q4", "-")),
    Some(("Option<Q4<u8>>", "Option")),
    Some(("[Q4; 1]", "-")),
    Some(("fn() -> Q4", "-")),
    Some(("Q4!()", "-")),
];
fn place(k: u8, rt: Option<(&str, &str)>, e: E) -> I {
    let mut f = func("fun", None, vec![]);
    let set = |f: &mut F| {
        f.ret = rt.map(|r| r.0.to_string());
        f.ret_last = rt.map(|r| r.1.to_string());
    };
    let clo = |b| {
        let head = rt.map(|r| format!("|a| -> {}", r.0)).unwrap_or("|a|".into());
        E::Clo(vec![], head, rt.map(|r| r.1.to_string()), CB::Block(b))
    };
    match k {
        0 => {
            set(&mut f);
            f.body = vec![St::Semi(ret(e))];
        }
        1 => {
            set(&mut f);
            f.body = vec![St::Semi(raw("g()")), St::Tail(e)];
        }
        2 => f.body = vec![St::Let(vec![], "_".into(), clo(vec![St::Semi(ret(e.clone())), St::Tail(e)]), None)],
        3 => {
            set(&mut f);
            f.body = vec![St::Let(vec![], "_".into(), block(vec![St::Tail(e)]), None)]
        }
        _ => {
            set(&mut f);
            f.body = vec![St::Let(
                vec![],
                "_".into(),
                E::Match(vec![], Box::new(raw("g()")), vec![Arm { pat: "_".into(), guard: None, body: e }]),
                None,
            )]
        }
    }
    I::Fn(f)
}
fn on(mut i: I, at: Vec<A>, env: &Env, base: &Cx, msg: &str) {
    if let I::Fn(f) = &mut i {
        f.attrs = at;
    }
    run("", &i, base, env, msg);
}
/// Forms of the callee around the name `Q0`.
fn callee(c: u8) -> E {
    let a = || vec![raw("1")];
    match c {
        0 => call("Q0", a()),
        1 => call("a::b::Q0", a()),
        2 => call("Q0::b", a()).with_last("b"),
        3 => call("Q0::<u8>", a()).with_last("Q0"),
        4 => call("<u8 as Q0>::Q1", a()).with_last("Q1"),
        5 => call("::Q0", a()),
        6 => call("::a::Q0", a()),
        7 => call("<u8>::Q0", a()),
        8 => call("<a::Q1 as Q0>::Q2::<u8>", a()).with_last("Q2"),
        9 => call("Q0::Q1::Q0", a()),
        10 => raw("Q0"),
        11 => raw("s.Q0(1)"),
        12 => raw("(Q0)(1)"),
        13 => raw("Q0[0](1)"),
        14 => raw("s.f.Q0"),
        _ => E::Mac(vec![], "Q0".into(), ("(".into(), ")".into()), vec![(MA::E(raw("1")), "".into())]),
    }
}
/// The default lists, with callees of one to six letters.
#[unsafe(no_mangle)]
pub extern "C" fn h_names_default() {
    let (k, r, c) = (choice(5), choice(3), choice(CALLEES));
    let n = choice(4) + 1;
    let mut env = Env::default();
    let q0 = cap(n);
    // (no name of a method, field or macro)
    if c >= 10 && n == 4 {
        assume(q0 != "Self");
    }
    env.add("Q0", q0);
    env.add("Q1", cap(n));
    env.add("Q4", cap(6));
    let rt = RT[r as usize];
    on(place(k, rt, callee(c)), vec![A::Method(M.into())], &env, &Cx::defaults(""), "default name lists match whole last segments");
    cover(&format!("c{c}"));
}
/// The same for forms of the return type.
#[unsafe(no_mangle)]
pub extern "C" fn h_names_types() {
    let (k, r, c) = (choice(3), choice(RT.len() as u8), choice(2));
    let mut env = Env::default();
    env.add("Q0", cap(2));
    env.add("Q1", cap(2));
    env.add("Q4", cap(6));
    on(place(k, RT[r as usize], callee(c)), vec![A::Method(M.into())], &env, &Cx::defaults(""), "result types match whole last segments of paths");
    cover(&format!("r{r}"));
}
/// Lists given by attributes, all names symbolic.
fn lists(l: u8) -> Vec<A> {
    match l {
        0 => vec![A::Idents(strs(&["Q1"]))],
        1 => vec![A::Idents(strs(&["Q1", "Q2"]))],
        2 => vec![A::Idents(strs(&["Q1", "!Q2"])), A::Results(strs(&["Q3"]))],
        3 => vec![A::Ignore(strs(&["Q2"])), A::Results(strs(&["Q3"]))],
        4 => vec![A::Ignore(strs(&[])), A::Results(strs(&["Q3", "Q2"]))],
        5 => vec![A::Results(strs(&[])), A::Idents(strs(&["!Q1"]))],
        6 => vec![A::Ignore(strs(&["Q1"])), A::Idents(strs(&["!Q2"])), A::Results(strs(&["Q3"]))],
        7 => vec![A::Idents(strs(&["!Q1"])), A::Ignore(strs(&["Q2"])), A::Results(strs(&["Q3"]))],
        8 => vec![A::Idents(strs(&["Q1"])), A::Idents(strs(&["Q2"])), A::Results(strs(&["Q2"])), A::Results(strs(&["Q3"]))],
        9 => vec![A::Idents(strs(&[])), A::Ignore(strs(&["Q1", "Q2"])), A::Results(strs(&["Q3", "Q3"]))],
        10 => vec![A::Idents(strs(&["!Q1", "Q1"])), A::Results(strs(&["Q3"]))],
        _ => vec![A::Idents(strs(&["Q2", "Q1"])), A::Ignore(strs(&["Q1"]))],
    }
}
const LISTS: u8 = 12;
fn named(l: u8, k: u8, c: u8, n: u8, m: u8) {
    let mut env = Env::default();
    env.add("Q0", cap(n));
    env.add("Q1", cap(m));
    env.add("Q2", cap(n));
    env.add("Q3", cap(n));
    env.add("Q4", cap(n));
    let mut at = vec![A::Method(M.into())];
    at.extend(lists(l));
    on(place(k, Some(("a::Q4<u8>", "Q4")), callee(c)), at, &env, &Cx::defaults(""), "configured name lists match whole last segments");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_names() {
    let l = choice(LISTS);
    named(l, choice(5), 0, 3, 3);
    cover("lists");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_names_forms() {
    let l = [1, 2, 3][choice(3) as usize];
    let (c, n) = (choice(CALLEES), choice(3) + 1);
    named(l, choice(2), c, n, 2);
    cover("forms");
}
/// Every combination.
#[unsafe(no_mangle)]
pub extern "C" fn h_names_all() {
    named(choice(LISTS), choice(5), choice(CALLEES), choice(4) + 1, choice(3) + 1);
    cover("all");
}
