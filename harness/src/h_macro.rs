//! Contents of macro calls: Rust code in lists is hooked, everything else is
//! left exactly as it is.
use crate::ctx::*;
use crate::h_attr;
use crate::model::*;
use crate::u::*;
use vs::*;

fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
fn item(at: Vec<A>, body: Vec<St>) -> I {
    let mut v = vec![A::Method(".mk($nth, $source)".into())];
    v.extend(at);
    let mut f = func("fun", Some("Result<u8, u8>"), body);
    f.attrs = v;
    I::Fn(f)
}
fn go(i: &I, e: &Env, msg: &str) {
    run("", i, &Cx::defaults(""), e, msg);
}
const MSG: &str = "Rust code in a macro call is hooked, anything else is left alone";
fn fun(n: &str) -> I {
    I::Fn(func(n, Some("Result<u8, u8>"), vec![bind(try_(raw("p0()"))), St::Tail(call("Err", vec![try_(raw("p1()"))]))]))
}
/// One entry of a macro call, and whether it may stand in a list.
const ENT: &[(&str, bool)] = &[
    ("expression", true),
    ("call", true),
    ("block", true),
    ("if", true),
    ("let", false),
    ("closure", true),
    ("return", true),
    ("item", true),
    ("const item", false),
    ("literal", true),
    ("name", true),
    ("match arm", false),
    ("named argument", true),
    ("dollar", false),
    ("pattern", false),
    ("type", false),
    ("repetition", false),
    ("operators", false),
    ("key value", false),
    ("nested macro", true),
    ("nested other macro", true),
    ("range", true),
    ("return target", true),
    ("attribute", true),
    ("unfinished", false),
];
fn ent(i: usize) -> MA {
    let q = || try_(raw("p0()"));
    let r = |s: &str| MA::Raw(s.into());
    match ENT[i].0 {
        "expression" => MA::E(q()),
        "call" => MA::E(call("Err", vec![q()])),
        "block" => MA::E(block(vec![bind(q()), St::Tail(call("Err", vec![q()]))])),
        "if" => MA::E(E::Body(vec![], vec![t("if"), P::H(q())], vec![St::Tail(call("Q0", vec![]))], vec![t("else"), P::H(block(vec![St::Tail(call("Err", vec![]))]))])),
        "let" => MA::St(bind(q())),
        "closure" => MA::E(E::Clo(vec![], "|a| -> Result<u8, u8>".into(), Some("Result".into()), CB::Block(vec![bind(q()), St::Tail(raw("v"))]))),
        "return" => MA::E(ret(call("Q0", vec![q()]))),
        "item" => MA::I(fun("inner")),
        "const item" => MA::I(I::Const(vec![], "const KC: u8 =".into(), q())),
        "literal" => MA::E(raw("\"{} p?\"")),
        "name" => MA::E(raw("Q0")),
        "match arm" => r("Some(x) => p0()?"),
        "named argument" => MA::E(E::Seq(vec![], vec![t("name ="), P::H(q())])),
        "dollar" => r("$x p0()?"),
        "pattern" => r("Some(1 | 2) if p0()?"),
        "type" => r("Vec<p0()?>"),
        "repetition" => r("p0()?; 3; * +"),
        "operators" => r("+ p0()?"),
        "key value" => r("key: p0()?"),
        "nested macro" => MA::E(E::Mac(vec![], "nn".into(), ("(".into(), ")".into()), vec![(MA::E(q()), ",".into()), (MA::E(raw("2")), "".into())])),
        "nested other macro" => MA::E(E::Mac(vec![], "nn".into(), ("[".into(), "]".into()), vec![(MA::Raw("p0()? => 1".into()), "".into())])),
        "range" => MA::E(E::Seq(vec![], vec![t("1 .."), P::H(q())])),
        "return target" => MA::E(ret(call("Err", vec![]))),
        "attribute" => MA::E(attrs(call("g", vec![q()]), vec![A::Keep("#[aa]".into()), A::Method(".other($nth)".into())])),
        "unfinished" => r("p0()? ="),
        _ => unreachable!(),
    }
}
/// Where the call stands.
fn put(p: u8, m: E, nt: bool) -> Vec<St> {
    match p {
        0 => vec![St::Mac(m, true), St::Tail(raw("v"))],
        1 => vec![bind(call("g", vec![m])), St::Tail(try_(raw("p9()")))],
        2 if nt => vec![bind(raw("1")), St::Tail(m)],
        _ => vec![bind(E::Seq(vec![], vec![P::H(m), t(".mth()")])), St::Tail(call("Ok", vec![]))],
    }
}
const DEL: [(&str, &str); 3] = [("(", ")"), ("[", "]"), ("{", "}")];
/// Lists of up to three entries.
fn list(es: &[usize], sep: &str, trail: bool, del: usize, p: u8, off: bool) {
    let e = h_attr::env();
    let n = es.len();
    let args: Vec<(MA, S)> = es
        .iter()
        .enumerate()
        .map(|(k, i)| (ent(*i), if k + 1 < n || trail { sep.to_string() } else { S::new() }))
        .collect();
    let d = DEL[del];
    let m = E::Mac(if off { vec![A::Macros(false)] } else { vec![] }, "a::mm".into(), (d.0.into(), d.1.into()), args);
    let i = item(vec![], put(p, m, del != 2));
    go(&i, &e, MSG);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_macro() {
    let k = choice(3);
    let a = choice(ENT.len() as u8) as usize;
    match k {
        0 => list(&[a], ",", choice(2) == 1 && ENT[a].1, choice(3) as usize, choice(4), false),
        1 => {
            let b = choice(ENT.len() as u8) as usize;
            assume(ENT[a].1 && ENT[b].1);
            list(&[a, b], [",", ";"][(a + b) % 2], a % 2 == 0, b % 3, 0, false)
        }
        _ => list(&[a], ",", false, choice(3) as usize, choice(4), true),
    }
    cover(ENT[a].0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_macro_all() {
    let (a, b, c) = (choice(ENT.len() as u8) as usize, choice(ENT.len() as u8) as usize, choice(ENT.len() as u8) as usize);
    assume(ENT[a].1 && ENT[b].1 && ENT[c].1);
    let x = choice(2);
    list(&[a, b, c], [",", ";"][x as usize], choice(2) == 1, (a + b) % 3, c as u8 % 4, false);
    cover(ENT[a].0);
}
/// Mixed lists: one entry that is not Rust code leaves all of it alone.
#[unsafe(no_mangle)]
pub extern "C" fn h_macro_raw() {
    const R: &[&str] = &[
        "p0()? => 1", "$a", "key: p0()?", "+ p0()?", "p0()? p1()?", "a: T, p0()?", "Vec<p0()?>", "@ p0()?", "# p0()?", "x = > y?", "fn f()", ", p0()?", "p0()?,,", ";", "p0()?;;", "...", "'a",
        "mut x", "where", "struct", "=> p0()?", "p0()? if x", "_ => { p0()? }", "%", "p0()?!", "<p0()?>", "-> p0()?", "&", "p0().?",
    ];
    let r = choice(R.len() as u8) as usize;
    let k = choice(4);
    let q = || (MA::E(try_(raw("p1()"))), ",".to_string());
    let raw_ = |s: &str| (MA::Raw(R[r].into()), s.to_string());
    let args = match k {
        0 => vec![raw_("")],
        1 => vec![q(), raw_("")],
        2 => vec![raw_(","), q()],
        _ => vec![q(), raw_(","), q()],
    };
    // what starts or ends with a separator may complete a list
    let lone = matches!(R[r], ", p0()?" | "p0()?,," | ";" | "p0()?;;" | "&");
    assume(!lone || k == 0);
    let e = h_attr::env();
    let d = DEL[(r + k as usize) % 3];
    let m = E::Mac(vec![], "mm".into(), (d.0.into(), d.1.into()), args);
    go(&item(vec![], put(choice(4), m, (r + k as usize) % 3 != 2)), &e, "a macro call that is not a list of Rust code is left alone");
    cover(R[r]);
}
/// Items in a macro call, in item position and as a statement.
#[unsafe(no_mangle)]
pub extern "C" fn h_macro_items() {
    let e = h_attr::env();
    let (n, k, d) = (choice(3) as usize, choice(3), choice(3) as usize);
    let mut items = vec![fun("f1")];
    if n > 0 {
        items.insert(0, I::Group(vec![], "impl Tr for Ty".into(), vec![I::Raw("type A = u8;".into()), fun("f2")]));
    }
    if n > 1 {
        items.push(I::Const(vec![A::Keep("#[b]".into())], "pub const KC: u8 =".into(), try_(raw("p0()"))));
        items.push(I::Group(vec![A::Method(".inn($nth)".into())], "mod md".into(), vec![fun("f3")]));
    }
    let head = flag();
    let m = if head { vec![I::Raw("#![inner(attr)] #![hq]".into())] } else { vec![] }.into_iter().chain(items).collect::<Vec<_>>();
    let del = DEL[d];
    let semi = if d == 2 { "" } else { ";" };
    let i = match k {
        0 => I::Group(vec![A::Method(".mk($nth, $source)".into())], "mod outer".into(), vec![I::Mac(vec![], "x::mm".into(), (del.0.into(), del.1.into()), m, semi.into()), fun("after")]),
        1 => item(vec![], vec![St::Item(I::Mac(vec![], "mm".into(), (del.0.into(), del.1.into()), m, semi.into())), St::Tail(try_(raw("p9()")))]),
        _ => {
            let off = I::Mac(vec![A::Macros(false)], "mm".into(), (del.0.into(), del.1.into()), m, semi.into());
            I::Group(vec![A::Method(".mk($nth, $source)".into())], "mod outer".into(), vec![off, fun("after")])
        }
    };
    go(&i, &e, MSG);
    cover(["item", "statement", "off"][k as usize]);
}
/// hook_in_macros, switched on and off around nested macro calls.
#[unsafe(no_mangle)]
pub extern "C" fn h_macro_switch() {
    let e = h_attr::env();
    let mac = |a: Vec<A>, x: E| E::Mac(a, "mm".into(), ("(".into(), ")".into()), vec![(MA::E(x), "".into())]);
    let s = |k: u8| match k {
        0 => vec![],
        1 => vec![A::Macros(false)],
        _ => vec![A::Macros(true)],
    };
    let (a, b, c) = (choice(3), choice(3), choice(3));
    let q = || try_(raw("p0()"));
    let x = mac(s(b), call("g", vec![q(), mac(s(c), q())]));
    let blk = attrs(block(vec![bind(mac(vec![], q())), bind(x)]), s(c));
    let p = choice(CTX.len() as u8 - 1) as usize;
    assume(p % 4 == (a + b) as usize % 4);
    let i = item(s(a), vec![bind(ctx(p, mac(vec![], q()))), St::Tail(blk)]);
    // attributes inside a call that is not looked at stay
    go(&i, &e, "hook_in_macros decides for the macro calls in its element");
    cover(CTX[p].0);
}
