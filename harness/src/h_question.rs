use crate::ctx::*;
use crate::model::*;
use crate::u::*;
use vs::*;

const M: &str = ".mk($nth, $source)";

fn program(e: E) -> I {
    let mut f = func("fun", None, vec![St::Let(vec![], "_".into(), e, None)]);
    f.attrs = vec![A::Method(M.into())];
    I::Fn(f)
}
fn base() -> Cx {
    Cx::defaults("")
}

/// One `?` in every syntactic position, one level deep.
#[unsafe(no_mangle)]
pub extern "C" fn h_q1() {
    let i = choice(CTX.len() as u8) as usize;
    let mut env = Env::default();
    env.add("Q0", sym_name("q", 2));
    env.add("Q1", sym_name("q", 2));
    let h = try_(call("Q0", vec![raw("Q1")]));
    let r = run("", &program(ctx(i, h)), &base(), &env, "`?` must be hooked exactly once, in place");
    check(r.hooked >= 1, "reference sees the `?`");
    cover(CTX[i].0);
}
fn nested(i: usize, j: usize) {
    let mut env = Env::default();
    env.add("Q0", sym_name("q", 2));
    let h = try_(call("Q0", vec![raw("1")]));
    let r = run("", &program(ctx(i, nest(j, h))), &base(), &env, "nested `?` must be hooked exactly once, in place");
    check(r.hooked >= 1, "reference sees the `?`");
    cover(CTX[i].0);
}
/// Two nested positions: every outer one, a few inner ones and vice versa.
#[unsafe(no_mangle)]
pub extern "C" fn h_q2() {
    const R: &[usize] = &[4, 18, 36, 41, 65, 72];
    let i = choice(CTX.len() as u8) as usize;
    let j = R[choice(R.len() as u8) as usize];
    if flag() { nested(i, j) } else { nested(j, i) }
}
/// Every ordered pair of positions.
#[unsafe(no_mangle)]
pub extern "C" fn h_q2all() {
    let i = choice(CTX.len() as u8) as usize;
    let j = choice(CTX.len() as u8) as usize;
    nested(i, j)
}
