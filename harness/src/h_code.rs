//! Which code of an item is hooked: every body and initialiser, in items of any
//! kind and depth; types, patterns, generics, signatures and definitions of
//! macros are left alone.
use crate::ctx::*;
use crate::h_attr;
use crate::model::*;
use crate::u::*;
use vs::*;

fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
fn probe() -> St {
    bind(try_(call("Q0", vec![raw("1")])))
}
fn ok(body: Vec<St>) -> F {
    func("fun", Some("Result<u8, u8>"), body)
}
const HK: &str = ".mk($nth, $source)";
fn top(i: I) -> I {
    let a = vec![A::Method(HK.into())];
    match i {
        I::Fn(mut f) => {
            f.attrs = a;
            I::Fn(f)
        }
        I::Group(_, h, v) => I::Group(a, h, v),
        I::Const(_, h, e) => I::Const(a, h, e),
        i => i,
    }
}
/// Every kind of body and initialiser, at any depth of items.
fn items(n: usize) {
    let e = h_attr::env();
    let mut inner: Option<I> = None;
    let mut k = 0;
    for d in 0..n {
        k = choice(9);
        let body = |inner: Option<I>| {
            let mut v = vec![probe()];
            v.extend(inner.map(St::Item));
            v.push(St::Semi(ret(call("Err", vec![raw("2")]))));
            v.push(St::Tail(call("Err", vec![try_(raw("3"))])));
            v
        };
        let f = |name: &str, b| I::Fn(func(name, Some("Result<u8, Q1>"), b));
        let other = || vec![I::Raw("type A = u8;".into()), f("plain", vec![probe()]), I::Const(vec![], "const KO: u8 =".into(), try_(raw("4")))];
        let it = match k {
            0 => I::Fn(func("nested", Some("Result<u8, Q1>"), body(inner))),
            1 => I::Group(vec![], "mod md".into(), inner.into_iter().chain([I::Raw("use super::*;".into()), f("after", vec![probe()])]).collect()),
            2 => I::Group(vec![], "impl<T> Tr for Ty<T>".into(), other().into_iter().chain([f("meth", body(inner))]).collect()),
            3 => I::Group(vec![], "pub unsafe trait Tr<T>: Sized".into(), [I::Raw("fn decl(&self) -> Result<u8, u8>;".into()), I::Raw("const D: u8;".into()), I::Raw("type B: Tr;".into())].into_iter().chain(other().into_iter().skip(1)).chain([f("default", body(inner))]).collect()),
            4 => I::Const(vec![], format!("pub const K{d}: u8 ="), block(body(inner))),
            5 => I::Const(vec![], format!("static mut K{d}: u8 ="), E::Clo(vec![], "move |x| -> Result".into(), Some("Result".into()), CB::Block(body(inner)))),
            6 => I::Group(vec![], "impl Ty".into(), vec![I::Const(vec![], format!("const K{d}: u8 ="), block(body(inner))), f("after", vec![probe()])]),
            7 => I::Group(vec![], "trait Tr".into(), vec![I::Const(vec![], format!("const K{d}: u8 ="), block(body(inner))), f("after", vec![probe()])]),
            _ => I::Group(vec![], "mod md".into(), vec![I::Mac(vec![], "mm".into(), ("{".into(), "}".into()), vec![f("first", body(inner))], "".into())]),
        };
        inner = Some(it);
    }
    run("", &top(inner.unwrap()), &Cx::defaults(""), &e, "every body and initialiser of an item is hooked");
    cover(["fn", "mod", "impl", "trait", "const", "static", "impl const", "trait const", "macro"][k as usize]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_items() {
    items(choice(2) as usize + 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_items3() {
    items(3);
}
/// Code that does not run where it stands: (where, text)
const COLD: &[(u8, &str)] = &[
    // 0: an item, 1: a pattern of a `let` with type, 2: an expression
    (0, "enum En { A = { p0()?; 3 }, B([u8; { Err(p0()?) }]), #[x(p0()?)] C { a: Fn<{ p0()? }> } }"),
    (0, "struct St<const N: usize = { p0()? }>([u8; { p0()?; 2 }], pub T) where [u8; { p0()? }]: Q0;"),
    (0, "struct Su { a: [u8; { return Err(1) }], b: fn(u8) -> Result<u8, Q0> }"),
    (0, "union Un { a: u8, b: [u8; { p0()? }] }"),
    (0, "type Ta<T> = [T; { p0()? }];"),
    (0, "use Q0::{a as b, c::*};"),
    (0, "extern crate Q0 as b;"),
    (0, "extern \"C\" { fn ext(a: [u8; { p0()? }]) -> Result<u8, u8>; static KS: u8; }"),
    (0, "macro_rules! mr { () => { p0()? }; ($a:expr) => { { return Err($a?) } } }"),
    (0, "mod declared;"),
    (0, "trait Ta2 = Q0 + Tr<{ p0()? }>;"),
    (0, "impl !Send for Q0 {}"),
    (1, "x: [u8; { p0()?; 3 }]"),
    (1, "(a, [b, ..]): Tr<{ p0()? }>"),
    (1, "&Q0 { a: 1..=Q1, .. }: _"),
    (1, "const { p0()? }"),
    (1, "mm!(p0()?)"),
    (1, "x: mm![Err(p0()?)]"),
    (1, "Q0::<{ p0()? }>::A(Some(b @ 1 | b @ 2))"),
    (2, "v as [u8; { p0()? }]"),
    (2, "f::<{ p0()? }>(1)"),
    (2, "v.f::<{ p0()? }>()"),
    (2, "<[u8; { p0()? }] as Q0>::f()"),
    (2, "Q0::<{ p0()? }> { a: 1 }"),
    (2, "|a: [u8; { p0()? }]| 1"),
    (2, "|a| -> [u8; { p0()? }] { a }"),
    (2, "|Q0 { a, .. }: Q0<{ p0()? }>| 1"),
    (2, "match v { const { p0()? } => 1, Q0::<{ p0()? }> => 2, mm!(p0()?) => 3, _ => 4 }"),
    (2, "if let Q0::<{ p0()? }>(a) = v { 1 } else { 2 }"),
    (2, "builtin # offset_of(p0()?, a)"),
    (2, "{ fn sig(a: [u8; { p0()? }]) -> [u8; { p0()? }] where Q0<{ p0()? }>: Tr { 1 } }"),
    (2, "{ impl Tr<{ p0()? }> for [u8; { p0()? }] where Q0<{ p0()? }>: Tr { type A = [u8; { p0()? }]; } }"),
    (2, "{ let x: [u8; { p0()? }]; }"),
    (2, "for Q0::<{ p0()? }> in v { }"),
    (2, "{ const K: [u8; { p0()? }] = v; }"),
    (2, "{ static K: Q0<{ p0()? }> = v; }"),
    (2, "{ #[x(p0()?)] v() }"),
    (2, "{ #[x = mm!(p0()?)] fn doc() { #![y(p0()?)] } }"),
    (2, "\"p0()?\""),
    (2, "b\"return Err(1)\""),
    (2, "mm!(\"{p0()?}\" p0()?)"),
];
#[unsafe(no_mangle)]
pub extern "C" fn h_cold() {
    let e = h_attr::env();
    let c = choice(COLD.len() as u8) as usize;
    let (k, s) = COLD[c];
    let p = choice(4);
    let st = match k {
        0 => St::Item(I::Raw(s.into())),
        1 => St::Let(vec![], s.into(), try_(raw("b()")), None),
        _ => bind(raw(s)),
    };
    let i = match (p, k) {
        (0, _) => I::Fn(ok(vec![probe(), st, probe(), St::Tail(call("Err", vec![]))])),
        (1, 0) => I::Group(vec![], "mod md".into(), vec![I::Fn(ok(vec![probe()])), I::Raw(s.into()), I::Fn(ok(vec![probe()]))]),
        (1, _) => I::Group(vec![], "impl Tr for Ty".into(), vec![I::Const(vec![], "const K: u8 =".into(), block(vec![st.clone(), probe()])), I::Fn(ok(vec![st, St::Semi(ret(call("Err", vec![])))]))]),
        (2, _) => I::Fn(ok(vec![bind(E::Clo(vec![], "|a| -> Result".into(), Some("Result".into()), CB::Block(vec![st, St::Semi(ret(raw("v"))), St::Tail(raw("w"))]))), probe()])),
        _ => I::Fn(ok(vec![bind(E::Mac(vec![], "nn".into(), ("(".into(), ")".into()), vec![(MA::E(block(vec![probe(), st, probe()])), "".into())])), probe()])),
    };
    run("", &top(i), &Cx::defaults(""), &e, "types, patterns, generics and definitions are left alone");
    cover(s);
}
/// Signatures and headers of the items themselves.
#[unsafe(no_mangle)]
pub extern "C" fn h_heads() {
    const H: &[(&str, &str)] = &[
        ("impl<const N: usize> Tr<{ p0()? }> for [Q0; { p0()? }] where [u8; { p0()? }]: Q1", "{}"),
        ("pub(in a::b) unsafe auto trait Tr<T = [u8; { p0()? }]>: Q0<{ p0()? }> where T: Q1", "{}"),
        ("pub(crate) mod Q0", "{}"),
        ("default unsafe impl<T: ?Sized> !Tr for Q0<T>", "{}"),
        ("const KC: [u8; { p0()? }] =", "="),
        ("pub static mut KS: Q0<{ p0()? }> =", "="),
    ];
    const SIG: &[(&str, &str, &str)] = &[
        ("pub", "(a: [u8; { p0()? }])", "Result<[u8; { p0()? }], Q0>"),
        ("async", "<const N: usize>(self: &Self, Q0 { a, .. }: Q0<{ p0()? }>)", "Result<u8, u8> where [u8; { p0()? }]: Q1"),
        ("pub(super) const unsafe extern \"C\"", "<'a, T: Q1<{ p0()? }>>(mm!(p0()?): T, ...)", "Result<mm!(p0()?), u8>"),
        ("", "(#[x(p0()?)] a: u8, const { p0()? }: u8)", "Result<impl Fn() -> Result<u8, u8>, u8>"),
    ];
    let e = h_attr::env();
    let k = choice((H.len() + SIG.len() * 3) as u8) as usize;
    let body = || vec![probe(), St::Tail(call("Err", vec![try_(raw("b()"))]))];
    let i = if k < H.len() {
        match H[k] {
            (h, "=") => I::Const(vec![], h.into(), block(body())),
            (h, _) => I::Group(vec![], h.into(), vec![I::Fn(ok(body()))]),
        }
    } else {
        let (s, w) = ((k - H.len()) / 3, (k - H.len()) % 3);
        let mut f = ok(body());
        f.pre = SIG[s].0.into();
        f.params = SIG[s].1.into();
        f.ret = Some(SIG[s].2.into());
        f.ret_last = Some("Result".into());
        // visibility is not allowed in traits, but parses
        match w {
            0 => I::Fn(f),
            1 => I::Group(vec![], "impl Ty".into(), vec![I::Fn(f), I::Fn(ok(body()))]),
            _ => {
                f.pre = f.pre.replace("pub(super) ", "").replace("pub", "");
                I::Group(vec![], "trait Tr".into(), vec![I::Fn(f), I::Fn(ok(body()))])
            }
        }
    };
    run("", &top(i), &Cx::defaults(""), &e, "headers and signatures are left alone");
    cover(&format!("{k}"));
}
