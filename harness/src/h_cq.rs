//! The consume-question feature: a hook that ends in `!` takes the place of
//! the `?` as well.
use crate::ctx::*;
use crate::h_attr;
use crate::model::*;
use crate::u::*;
use vs::*;

fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
fn go(attr: &str, i: &I, e: &Env, msg: &str) {
    run_with(hooq_cq, attr, "", i, &Cx::defaults(""), e, msg);
}
fn item(at: Vec<A>, body: Vec<St>) -> I {
    let mut f = func("fun", Some("Result<u8, u8>"), body);
    f.attrs = at;
    I::Fn(f)
}
const T: &[&str] = &[
    ".unwrap()!", ".mk($nth, $source)!", "wrap($expr)!", ".mm($expr)", "wrap($expr, $nth)", "$expr!", ".a().b::<u8>()!", ".c(d!(1))", "e!($expr)!", ".f(!g)", "{ $expr }!", ".h[0]!",
];
const MSG: &str = "a hook ending in `!` takes the place of the `?`, any other keeps it";
/// Every position of the `?`, every kind of hook.
#[unsafe(no_mangle)]
pub extern "C" fn h_cq() {
    let (p, k) = (choice(CTX.len() as u8) as usize, choice(4) as usize);
    let e = h_attr::env();
    let tm = T[[0, 1, 2, 3][k]];
    let i = item(vec![A::Method(tm.into())], vec![bind(ctx(p, try_(call("Q0", vec![try_(raw("a()"))])))), St::Tail(try_(raw("b()")))]);
    go("", &i, &e, MSG);
    cover(CTX[p].0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_cq_all() {
    let (p, q, k) = (choice(CTX.len() as u8) as usize, choice(CTX.len() as u8) as usize, choice(3) as usize);
    let e = h_attr::env();
    let i = item(vec![A::Method(T[k].into())], vec![bind(ctx(p, nest(q, try_(call("Q0", vec![])))))]);
    go("", &i, &e, MSG);
    cover(CTX[p].0);
}
/// Kinds of target, overridden hooks, $so_far, attributes that stay.
#[unsafe(no_mangle)]
pub extern "C" fn h_cq_mix() {
    let (k, l, m) = (choice(T.len() as u8) as usize, choice(T.len() as u8) as usize, choice(6));
    let e = h_attr::env();
    let keep = || A::Keep("#[allow(unused)]".into());
    let at = |e: E, a: Vec<A>| attrs(e, a);
    let body = match m {
        0 => vec![St::Semi(ret(call("Err", vec![try_(raw("a()"))]))), St::Tail(call("Err", vec![try_(try_(raw("b()")))]))],
        1 => vec![
            bind(at(call("g", vec![try_(raw("a()"))]), vec![A::Method(T[l].into())])),
            bind(try_(call("g", vec![try_(raw("b()"))]))),
        ],
        2 => vec![
            bind(at(call("g", vec![try_(raw("a()"))]), vec![A::Method(format!("w($so_far, $expr){}", if l % 2 == 0 { "!" } else { "" }))])),
            St::Tail(try_(raw("b()"))),
        ],
        3 => vec![St::Semi(at(try_(raw("a()")), vec![keep()])), bind(at(try_(raw("b()")), vec![A::Bind("v".into(), "2".into(), 0), keep(), A::Keep("#[cfg(c)]".into())]))],
        4 => vec![St::Semi(at(try_(raw("a()")), vec![A::Skip])), bind(try_(call("g", vec![at(try_(raw("b()")), vec![A::SkipAll])]))), St::Semi(ret(try_(raw("c()"))))],
        _ => vec![
            bind(at(call("g", vec![try_(raw("a()"))]), vec![A::Targets(vec!["return"])])),
            bind(E::Clo(vec![], "|a| -> Result".into(), Some("Result".into()), CB::Block(vec![St::Tail(try_(raw("b()")))]))),
            bind(E::Mac(vec![], "mm".into(), ("(".into(), ")".into()), vec![(MA::E(try_(raw("c()"))), ",".into()), (MA::E(raw("1")), "".into())])),
        ],
    };
    go("", &item(vec![A::Method(T[k].into())], body), &e, MSG);
    cover(["kinds", "override", "so_far", "attributes", "skips", "targets"][m as usize]);
}
/// The rest of the language is what it is without the feature.
#[unsafe(no_mangle)]
pub extern "C" fn h_cq_same() {
    let (p, s) = (choice(h_attr::POS.len() as u8) as usize, [0u8, 2, 6, 13][choice(4) as usize]);
    let e = h_attr::env();
    go("", &h_attr::root(h_attr::around(h_attr::place(p, h_attr::setting(s), h_attr::d(), h_attr::probe()))), &e, "hooks without `!` work as without the feature");
    cover(h_attr::POS[p]);
}
