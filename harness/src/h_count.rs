//! Ordinals: per kind, in source order, with the right English suffix.
use crate::model::*;
use crate::u::*;
use vs::*;

fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("x", 1));
    e.add("Q1", sym_name("x", 1));
    e
}
/// `n` targets of one kind in a row.
fn many(n: usize, k: u8) {
    let mut b = vec![];
    for i in 0..n {
        b.push(match k {
            0 => bind(try_(raw("Q0()"))),
            1 => St::Semi(ret(raw("Q0"))),
            2 => bind(block(vec![St::Tail(call("Err", vec![raw("Q0")]))])),
            // all kinds: three counters
            _ => match i % 3 {
                0 => bind(try_(raw("Q0()"))),
                1 => St::Semi(ret(raw("Q0"))),
                _ => bind(block(vec![St::Tail(call("Err", vec![raw("Q0")]))])),
            },
        });
    }
    let mut f = func("fun", Some("Result<u8, u8>"), b);
    f.attrs = vec![A::Method(".mk($nth)".into())];
    run("", &I::Fn(f), &Cx::defaults(""), &env(), "the n-th target of a kind is called n-th");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ordinal() {
    let k = choice(4);
    many(if k < 3 { 130 } else { 75 }, k);
    cover(["?", "return", "tail", "mixed"][k as usize]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ordinal_long() {
    many(1130, choice(4));
}
const KINDS: &[&str] = &[
    "?", "return", "tail", "? under return", "? under tail", "skipped ?", "closure", "nested fn", "not hooked return", "macro", "? in ?", "targets off", "condition and body", "match",
];
fn stmt(k: usize) -> St {
    let q = || try_(raw("Q0()"));
    let tail = || call("Err", vec![raw("Q0")]);
    match k {
        0 => bind(q()),
        1 => St::Semi(ret(raw("Q0"))),
        2 => bind(block(vec![St::Tail(tail())])),
        3 => St::Semi(ret(q())),
        4 => bind(block(vec![St::Tail(call("Err", vec![q()]))])),
        5 => St::Let(vec![A::Skip], "_".into(), q(), None),
        6 => bind(E::Clo(vec![], "|a| -> Result<u8, u8>".into(), Some("Result".into()), CB::Block(vec![St::Semi(ret(raw("Q1"))), bind(q()), St::Tail(raw("Q0"))]))),
        7 => {
            let mut f = func("inner", Some("Result<u8, u8>"), vec![bind(q()), St::Semi(ret(raw("Q1"))), St::Tail(raw("Q0"))]);
            f.pre = "async".into();
            St::Item(I::Fn(f))
        }
        8 => St::Semi(ret(call("Ok", vec![q()]))),
        9 => bind(E::Mac(vec![], "mm".into(), ("(".into(), ")".into()), vec![(MA::E(q()), ",".into()), (MA::E(try_(raw("Q1()"))), "".into())])),
        10 => bind(try_(call("g", vec![q(), try_(raw("Q1()"))]))),
        11 => St::Semi(E::Body(vec![A::Targets(vec!["return"])], vec![t("unsafe")], vec![bind(q()), St::Semi(ret(raw("Q1"))), St::Tail(tail())], vec![])),
        12 => St::Semi(E::Body(vec![], vec![t("if"), P::H(q())], vec![bind(q()), St::Tail(tail())], vec![t("else"), P::H(block(vec![St::Tail(tail())]))])),
        _ => St::Semi(E::Match(
            vec![],
            Box::new(q()),
            vec![Arm { pat: "1".into(), guard: Some(try_(raw("Q1()"))), body: tail() }, Arm { pat: "_".into(), guard: None, body: ret(raw("Q1")) }],
        )),
    }
}
fn order(ks: &[usize], m: &str) {
    let mut b: Vec<St> = ks.iter().map(|k| stmt(*k)).collect();
    b.push(St::Tail(raw("Q1")));
    let mut f = func("fun", Some("Result<u8, u8>"), b);
    f.attrs = vec![A::Method(m.into())];
    run("", &I::Fn(f), &Cx::defaults(""), &env(), "each kind is numbered on its own, in source order, without gaps");
}
#[unsafe(no_mangle)]
pub extern "C" fn h_order() {
    let n = KINDS.len() as u8;
    let (a, b) = (choice(n) as usize, choice(n) as usize);
    let c = (a * 5 + b * 3 + 1) % n as usize;
    order(&[a, b, c], [".mk($nth)", "mk($expr, $count)"][choice(2) as usize]);
    cover(KINDS[a]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_order_all() {
    let n = KINDS.len() as u8;
    order(&[choice(n) as usize, choice(n) as usize, choice(n) as usize, choice(n) as usize], ".mk($nth)");
}
/// Several functions, one after the other and in groups.
#[unsafe(no_mangle)]
pub extern "C" fn h_order_items() {
    let n = KINDS.len() as u8;
    let g = choice(4);
    let a = choice(n) as usize;
    let b = (a * 3 + g as usize) % n as usize;
    let mk = |name: &str, ks: &[usize]| I::Fn(func(name, Some("Result<u8, u8>"), ks.iter().map(|k| stmt(*k)).collect()));
    let m = vec![A::Method(".mk($nth)".into())];
    let items = vec![mk("f1", &[a]), I::Const(vec![], "const K: u8 =".into(), try_(raw("Q0()"))), mk("f2", &[b, a])];
    let it = match g {
        0 => I::Group(m, "mod md".into(), items),
        1 => I::Group(m, "impl Ty".into(), items),
        2 => I::Group(m, "trait Tr".into(), items),
        _ => I::Group(m, "mod md".into(), vec![I::Group(vec![], "impl Ty".into(), items.clone()), I::Group(vec![], "mod m2".into(), items)]),
    };
    run("", &it, &Cx::defaults(""), &env(), "the numbering runs through the annotated item");
    cover(["mod", "impl", "trait", "nested"][g as usize]);
}
/// Two or three targets in every construct, and in one inside another.
#[unsafe(no_mangle)]
pub extern "C" fn h_order_slots() {
    const T: &[&str] = &[
        "[@, @, @]", "(@, @, @)", "g(@, @)", "(@)(@)", "@.m(@, @)", "@[@]", "(@ + @)", "(@ && @ || @)", "(*@ = @)", "(@ += @)", "[@; @]", "(@..@)", "(@..=@)", "Pt { a: @, b: @ }",
        "Pt { a: @, ..@ }", "if @ { @ } else { @ }", "if @ { } else if @ { @ }", "if let Q1(x) = @ { @ }", "if @ && let Q1(x) = @ { @ }", "while @ { @; }", "for x in @ { @; }", "match @ { Q1 => @, _ => @ }", "match x { Q1 if @ => @, _ if @ => { @ } }",
        "{ let Q1(x) = @ else { @; return; }; @ }", "m!(@, @)", "m!(@; @)", "{ @; let x = @; @ }", "async { @; @ }", "(|x: u8| { @; @ })(@)", "unsafe { x = @; x[@] }", "'l: loop { break 'l g(@, @); }", "&mut @.f[@]", "h(@)?.k(@)", "(@ as u8, -@)",
        "{ const K: u8 = @; static S: u8 = @; @ }", "{ impl Q1 { const K: u8 = @; fn k() { @; } } @ }", "{ @; m! { @ } @ }", "loop { m!(@); if @ { } }",
    ];
    let n = T.len() as u8;
    let (a, b) = (choice(n) as usize, choice(n) as usize);
    let at = flag();
    // the second in the first or the last place of the first
    let i = if at { T[a].find('@') } else { T[a].rfind('@') }.unwrap();
    let inner = T[b].replace('@', "Q0()?");
    let text = format!("{}({inner})?{}", &T[a][..i], &T[a][i + 1..]).replace('@', "Q0()?");
    // in source order a target comes after those inside it
    let (mut want, mut k) = (String::new(), 0);
    let nth = |k: usize| format!(".mk(\"{k}{} ?\")?", ["th", "st", "nd", "rd", "th", "th", "th", "th", "th", "th", "th"][k]);
    for c in text.chars() {
        if c == '?' {
            k += 1;
            want += &nth(k);
        } else {
            want.push(c);
        }
    }
    let mut e = env();
    e.add("Q1", sym_name("C", 1));
    let f = |b: &str| format!("fn fun() {{ let _ = {b}; }}");
    let got = hooq(Ts::new(), e.subst(ts(&format!("#[hooq::method(.mk($nth))] {}", f(&text)))));
    expect_tokens(&got, &e.subst(ts(&f(&want))), "targets are numbered in source order");
    cover(T[a]);
}
