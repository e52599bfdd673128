//! Syntactic forms in all their variants: how many elements, which optional
//! parts are there, in which order.  `H` marks a place for an expression.
use crate::model::*;
use crate::u::*;
use vs::*;

const M: &str = ".mk($nth, $source)";

pub const SHAPES: &[&str] = &[
    // lists of expressions
    "[H]",
    "[H,]",
    "[1, H, 2, H]",
    "[[H], [1, H]]",
    "[H; 2]",
    "[H; H]",
    "(H,)",
    "(1, H, 2, H)",
    "((H, 1), H)",
    "((H))",
    "g(H)",
    "g(H,)",
    "g(1, H, 2, H)",
    "(H)(H)",
    "g(H)(H)",
    "a::b::<u8>::c(H)",
    "g::<u8, 3>(1, H)",
    "<Ty as Tr<u8>>::mth(H)",
    "Self::new(H)",
    // struct expressions
    "Pt { a: H }",
    "Pt { a: H, }",
    "Pt { a: 1, b, c: H }",
    "Pt { a, b: H, ..d }",
    "Pt { ..H }",
    "Pt { a, ..H }",
    "Pt { a: H, b: H, ..H }",
    "Pt { 0: H, 1: H }",
    "a::Pt::<u8> { x: H }",
    "Self { x: H }",
    "Pt { a: Pt { ..H }, ..Pt { b: H, ..d } }",
    // operators
    "a = H",
    "*a = H",
    "a[0] = H",
    "a.b.c = H",
    "_ = H",
    "(a, b) = H",
    "[a, ..] = H",
    "Pt { a, .. } = H",
    "a[H] = H",
    "(*H).b = H",
    "a -= H",
    "a[H] <<= H",
    "H == H",
    "H < H",
    "a || H",
    "a && b && H",
    "H && a || H",
    "1 + H * 2",
    "H + 1 + H",
    "H << 2 | H",
    "H as u8 as u16",
    "H as *const Ty<u8>",
    "!!H",
    "-*H",
    "- -H",
    "!(H == 1)",
    "&H",
    "&&H",
    "& &mut H",
    "&raw mut H",
    "..H",
    "..=H",
    "H..",
    "H..H",
    "H..=H",
    "(..H)",
    // chains
    "H.await",
    "H.await.await",
    "H.a.b.c",
    "H.0.a.1",
    "H.m()",
    "H.m::<u8>()",
    "H.m(H).n(H)",
    "a.m(1).n(H).o",
    "a.m::<u8, u16>(1, 2, H)",
    "a.m(H,)",
    "a.b.m(H)[H]",
    "H[0][H]",
    "a[H][H]",
    "a[H..]",
    "a[..H]",
    "a[H..=H]",
    "(H)(1).m()",
    // blocks
    "{ H }",
    "{ H; }",
    "{ H; H; H }",
    "{ { H } }",
    "{ 1; { H; } 2 }",
    "('l: { H })",
    "('l: { break 'l H; })",
    "unsafe { H; H }",
    "const { H; H }",
    "async { H; H }",
    "async move { 1; H }",
    "async {}.m(H)",
    "loop { H; }",
    "('l: loop { H; break 'l H; })",
    "loop { break H; }",
    "loop { 1; if c { break; } H; }",
    "while H { H; }",
    "('l: while H { continue 'l; })",
    "while let Some(a) = H { H; }",
    "while a && let Some(b) = H { H; }",
    "while let Some(a) = b && H {}",
    "for a in H { H; }",
    "for _ in H {}",
    "('l: for (a, mut b) in H { break 'l; })",
    "for a in H..H {}",
    "for &a in H.iter() { if a { continue; } H; }",
    // if
    "if H {}",
    "if H { H }",
    "if H { H } else { H }",
    "if H { H } else if H { H }",
    "if H { 1 } else if c { 2 } else { H }",
    "if c { 1 } else if H { 2 } else if H { 3 } else if d { H } else { H }",
    "if !H {}",
    "if (H) {}",
    "if H == 1 && H {}",
    "if let Some(a) = H { H }",
    "if let Some(1 | 2) = H {} else { H }",
    "if let A | B = H {}",
    "if let (a, b) = (H, H) {}",
    "if c && let Some(a) = H && H { H }",
    "if let Some(a) = b && let Some(c) = H {}",
    "if c {} else if let Some(a) = H {} else {}",
    // match
    "match H {}",
    "match H { _ => {} }",
    "match H { 1 => H, _ => H }",
    "match H { 1 => H, 2 => { H } 3 => (), _ => H, }",
    "match a { 1 if H => 1, 2 if c && H => 2, _ => 3 }",
    "match a { 1 | 2 if H => { H } _ => {} }",
    "match a { Pt { a, .. } if H => H, _ => H }",
    "match a { b @ 1..=5 => H, ref c => H, }",
    "match a { _ => unsafe { H } }",
    "match a { _ => if H { H } else { H } }",
    "match a { _ => match H { _ => H } }",
    "match (H, H) { (a, b) => [H, H] }",
    "match a { _ => (H, H) }",
    "match a { _ => Pt { a: H } }",
    "match a { _ => H.m() }",
    "match a { _ => || H }",
    "match a { _ => loop { H; } }",
    "match a { _ => b = H, }",
    "match a { 1 => {} _ => for x in H {} }",
    // closures
    "(|| H)",
    "(|a, b| H)",
    "(|a: u8| -> u8 { H })",
    "(|| { H; H })",
    "(|&a, (b, c): (u8, u8)| H)",
    "(async |a| H)",
    "(async move || { H })",
    "(for<'a> |a: &'a u8| -> u8 { H })",
    "(|| || H)",
    "(|a| move |b| g(H))",
    "(|| unsafe { H })",
    "(|| if H { H } else { H })",
    "(|| match H { _ => H })",
    "(|| async { H })",
    "(|| async move { H; H })",
    "(|| (H, H))",
    "(|| a = H)",
    "(|| { |b| H })",
    "(|_| a.m(|_| H))",
    "(|| return H)",
    "a.m(|b| H).n(|c| { H })",
    // jumps
    "(return H)",
    "(break H)",
    "(break 'l H)",
    "(return { H })",
    "(yield H)",
    "(return (H, H))",
    "try { H; H }",
    // statements
    "{ let a = H; }",
    "{ let a: u8 = H; }",
    "{ let mut a = H; let ref b = H; }",
    "{ let (a, b) = H; }",
    "{ let Pt { a, .. } = H; }",
    "{ let _ = H; 1 }",
    "{ let a; a = H; }",
    "{ let a: u8; 1 }.m(H)",
    "{ let Some(a) = H else { H; return; }; }",
    "{ let Some(a): Option<u8> = b else { return H; }; H }",
    "{ let (A | B) = H else { if H { panic!() } else { return } }; }",
    "{ ; H; ; H }",
    "{ if H {} H; }",
    "{ match H {} H }",
    "{ loop { H; } H }",
    "{ unsafe { H; } H; }",
    "{ g(H); a = H; H.m(); }",
    "{ use a::b; H }",
    "{ struct Pu; H }",
    "{ H; macro_rules! q { () => {} } H }",
    // items
    "{ const KC: u8 = H; }",
    "{ const _: () = { H; }; H }",
    "{ static KS: &str = H; static mut KM: u8 = H; }",
    "{ fn inner() { H; } }",
    "{ fn inner(a: u8) -> u8 { H } H }",
    "{ pub(crate) const unsafe extern \"C\" fn inner() { H } }",
    "{ fn inner<T: Tr>(a: T) where T: Ty { H; H } }",
    "{ H; fn inner() { H } H }",
    "{ fn i1() { fn i2() { H } H } H }",
    "{ impl Ty { const KC: u8 = H; fn m(&self) { H } } }",
    "{ impl<T> Tr<T> for Ty<T> where T: Tr { type A = u8; fn m(&mut self) { H } fn n() { H } } H }",
    "{ unsafe impl Tr for Ty { fn m(self) { H } } }",
    "{ impl Ty {} H }",
    "{ trait Tr { fn r(&self); fn m(&self) { H } const KC: u8 = H; const KD: u8; type A; } }",
    "{ trait Tr<T>: Ty where T: Tr { fn m(); fn n() { H } } H }",
    "{ pub mod md { fn i1() { H } } }",
    "{ mod md { mod me { const KC: u8 = H; impl Ty { fn m() { H } } } fn i1() { H } } H }",
    "{ mod md; H }",
    "{ mod md {} H }",
    // macro calls
    "m!(H)",
    "m!(H,)",
    "m!(H, H)",
    "m![H; H]",
    "m!{ H }",
    "a::b::m!(1, H, 2)",
    "m!(m!(H), m![H])",
    "m!(|a| H, { H })",
    "m!(H).m(H)",
    "m!(if H { H } else { H })",
    "m!(\"{}\", H)",
    "m!(\"{a}\", a = H)",
    "m!(*a, &H)",
    "{ m!(H); m! { H } H }",
    "[m!(H), m!()]",
    "m!(match H { _ => H })",
];

/// The form with `f(k)` in its k-th place.
pub fn shape(s: &str, f: &dyn Fn(usize) -> E) -> E {
    let mut p = vec![];
    for (k, x) in s.split('H').enumerate() {
        if k > 0 {
            p.push(P::H(f(k)));
        }
        p.push(t(x));
    }
    E::Seq(vec![], p)
}
fn paren(e: E) -> E {
    E::Seq(vec![], vec![t("("), P::H(e), t(")")])
}
fn env() -> Env {
    let mut env = Env::default();
    env.add("Q0", sym_name("q", 2));
    env.add("Q1", sym_name("q", 2));
    env
}
fn go(e: E, msg: &str) {
    let mut f = func("fun", None, vec![St::Let(vec![], "_".into(), e, None)]);
    f.attrs = vec![A::Method(M.into())];
    let r = run("", &I::Fn(f), &Cx::defaults(""), &env(), msg);
    check(r.hooked >= 1, "the reference sees a target");
}
fn num(k: usize) -> E {
    raw(&k.to_string())
}
fn quest(k: usize) -> E {
    try_(call("Q0", vec![num(k)]))
}
fn retn(k: usize) -> E {
    paren(ret(call("Err", vec![raw("Q1"), num(k)])))
}
/// a block whose tail is a target, next to one whose tail is none
fn tail(k: usize) -> E {
    paren(block(vec![St::Semi(call("Err", vec![raw("Q1")])), St::Tail(call("Err", vec![raw("Q1"), num(k)]))]))
}
fn one(f: &dyn Fn(usize) -> E, msg: &str) {
    let i = choice(SHAPES.len() as u8) as usize;
    go(shape(SHAPES[i], f), msg);
    cover(SHAPES[i]);
}
/// `?` in every place of every form.
#[unsafe(no_mangle)]
pub extern "C" fn h_shape_q() {
    one(&quest, "every `?` of the form is hooked, in order")
}
/// `return` in every place of every form.
#[unsafe(no_mangle)]
pub extern "C" fn h_shape_ret() {
    one(&retn, "every `return` of the form is hooked, in order")
}
/// A tail expression of a block in every place of every form.
#[unsafe(no_mangle)]
pub extern "C" fn h_shape_tail() {
    one(&tail, "every block's tail in the form is hooked, in order")
}
/// A switched-off form comes out as written and is not counted.
#[unsafe(no_mangle)]
pub extern "C" fn h_shape_off() {
    let i = choice(SHAPES.len() as u8) as usize;
    let w = choice(3);
    let (at, e) = match w {
        0 => (vec![A::SkipAll], shape(SHAPES[i], &quest)),
        1 => (vec![A::SkipAll], shape(SHAPES[i], &|k| if k % 2 == 1 { tail(k) } else { retn(k) })),
        _ => (vec![A::Targets(vec!["return"])], shape(SHAPES[i], &|k| if k % 2 == 1 { tail(k) } else { quest(k) })),
    };
    let after = St::Let(vec![], "_".into(), E::Clo(vec![], "||".into(), None, CB::Block(vec![St::Semi(ret(call("Err", vec![quest(1)]))), St::Tail(tail(1))])), None);
    let mut f = func("fun", None, vec![St::Let(at, "_".into(), e, None), after]);
    f.attrs = vec![A::Method(M.into())];
    run("", &I::Fn(f), &Cx::defaults(""), &env(), "nothing in a switched-off form is hooked");
    cover(["skip_all ?", "skip_all", "targets"][w as usize]);
}
/// Forms inside forms.
#[unsafe(no_mangle)]
pub extern "C" fn h_shape2() {
    const R: &[&str] = &[
        "[1, H, 2, H]", "Pt { ..H }", "a[H] = H", "H.await", "{ H; H; H }", "if H { H } else if H { H }",
        "match a { 1 | 2 if H => { H } _ => {} }", "(|| H)", "{ let Some(a) = H else { H; return; }; }",
        "{ fn inner(a: u8) -> u8 { H } H }", "m!(H, H)",
    ];
    let i = choice(SHAPES.len() as u8) as usize;
    let j = choice(R.len() as u8) as usize;
    let (o, n) = if flag() { (SHAPES[i], R[j]) } else { (R[j], SHAPES[i]) };
    go(shape(o, &|k| paren(shape(n, &|l| quest(10 * k + l)))), "every `?` of the nested forms is hooked, in order");
    cover(R[j]);
}
