//! What the hook's `$…` names turn into.
use crate::ctx::*;
use crate::model::*;
use crate::u::*;
use proc_macro2::{Span, TokenTree};
use vs::*;

fn item(at: Vec<A>, body: Vec<St>) -> I {
    let mut f = func("fun", Some("Result<u8, u8>"), body);
    f.attrs = at;
    I::Fn(f)
}
fn bind(e: E) -> St {
    St::Let(vec![], "_".into(), e, None)
}
const METAS: &[&str] = &["line", "column", "path", "file", "expr", "source", "count", "fn_name", "fn_sig", "so_far", "bindings", "hooq_meta"];
fn unknown(name: &str, binds: &[&str]) -> String {
    let b: Vec<String> = binds.iter().map(|b| format!(" - ${b}")).collect();
    let m: Vec<String> = METAS.iter().map(|b| format!(" - ${b}")).collect();
    format!("unknown meta variable or binding: ${name}\navailable bindings:\n{}\navailable meta variables:\n{}", b.join("\n"), m.join("\n"))
}
fn canon(s: &str) -> Option<&'static str> {
    Some(match s {
        "line" => "line",
        "column" | "col" => "column",
        "path" => "path",
        "file" => "file",
        "expr" => "expr",
        "source" => "source",
        "nth" | "count" => "count",
        "fn_name" | "fnname" => "fn_name",
        "fn_sig" | "fnsig" => "fn_sig",
        "so_far" | "sofar" => "so_far",
        "bindings" | "vars" => "bindings",
        "hooq_meta" | "hooqmeta" => "hooq_meta",
        _ => return None,
    })
}
const KEYWORDS: &[&str] = &[
    "as", "if", "in", "fn", "do", "let", "for", "mut", "mod", "pub", "ref", "use", "box", "dyn", "try", "move", "else", "enum", "impl", "loop", "self", "Self", "true", "type", "async",
    "await", "break", "const", "crate", "false", "match", "super", "trait", "where", "while", "yield", "extern", "return", "static", "struct", "unsafe", "abstract", "become", "final",
    "macro", "override", "priv", "typeof", "unsized", "virtual", "continue", "gen",
];
pub fn keyword(s: &str) -> bool {
    KEYWORDS.iter().any(|k| k.len() == s.len() && s == *k)
}
/// The location of tokens without a source.
pub fn with_default_loc(mut e: Env) -> Env {
    for k in 0..3 {
        let s = Span::call_site();
        add_loc(&mut e, k, &Loc { line: s.start().line, col: s.start().column + 1, file: s.file() });
    }
    e
}
/// Locations of the three kinds of target, for the reference.
pub struct Loc {
    pub line: usize,
    pub col: usize,
    pub file: String,
}
const PH: [(&str, &str, &str, &str); 3] = [("LN0", "CO0", "PA0", "FI0"), ("LN1", "CO1", "PA1", "FI1"), ("LN2", "CO2", "PA2", "FI2")];
pub fn add_loc(e: &mut Env, k: usize, l: &Loc) {
    e.num(PH[k].0, l.line);
    e.num(PH[k].1, l.col);
    e.add(PH[k].2, l.file.clone());
    let b = l.file.as_bytes();
    let mut st = 0;
    for (i, c) in b.iter().enumerate() {
        if *c == b'/' {
            st = i + 1;
        }
    }
    e.add(PH[k].3, l.file[st..].to_string());
}
fn span(l: &Loc) -> Span {
    Span::vnew((l.line, l.col - 1), (l.line + 3, l.col + 7), l.file.clone())
}
/// Gives the tokens that carry a target's location (`?`, `return`, the first
/// token of the tail, marked by the name `q9`) their spans.
pub fn place_spans(t: Ts, l: &[Loc; 3]) -> Ts {
    let sp = [span(&l[0]), span(&l[1]), span(&l[2])];
    map_tokens(t, &mut |mut tt| {
        match &tt {
            TokenTree::Punct(p) if p.as_char() == '?' => tt.set_span(sp[0]),
            TokenTree::Ident(i) if i == "return" => tt.set_span(sp[1]),
            TokenTree::Ident(i) if i == "q9" => tt.set_span(sp[2]),
            _ => {}
        }
        tt
    })
}
fn three() -> Vec<St> {
    vec![
        bind(E::Clo(vec![], "|a: Q1|".into(), None, CB::Block(vec![St::Semi(raw("g()")), St::Semi(ret(call("Err", vec![raw("Q0")])))]))),
        bind(try_(call("q8", vec![raw("Q0")]))),
        St::Tail(call("q9", vec![raw("Q0")])),
    ]
}
fn run_locs(at: Vec<A>, body: Vec<St>, l: [Loc; 3], mut e: Env, msg: &str) {
    for (k, x) in l.iter().enumerate() {
        add_loc(&mut e, k, x);
    }
    let i = item(at, body);
    let mut r = Ref::new(e.clone());
    let want = e.subst(ts(&r.item(&i, &Cx::defaults("q7()"))));
    let src = place_spans(e.subst(ts(&isrc(&i))), &l);
    let got = hooq(Ts::new(), src);
    expect_tokens(&got, &want, msg);
}
fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("x", 1));
    e.add("Q1", sym_name("x", 1));
    e
}
fn file(s: &str) -> String {
    s.into()
}
/// `$<any name>` in insertion and replacement mode.
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_name() {
    let n = choice(9) as usize + 1;
    let ins = flag();
    let s = sym_ident(n);
    for k in KEYWORDS {
        if k.len() == n {
            assume(s != *k);
        }
    }
    let mut e = env();
    e.add("Zz9", s.clone());
    let fx = [(5, 9, "src/m.rs"), (17, 2, "src/m.rs"), (2130, 44, "src/m.rs")].map(|(line, col, f)| Loc { line, col, file: file(f) });
    let bindings = || vec![A::Bind("zx".into(), "1 + 1".into(), 0), A::Bind("abc".into(), "Q0".into(), 1), A::Bind("line".into(), "3".into(), 2)];
    let tm = |name: &str| if ins { format!(".mk([${name}], 7)") } else { format!("mk([${name}], 7)") };
    let at = |name: &str| {
        let mut v = bindings();
        v.push(A::Method("w(1)".into()));
        v.push(A::Method(tm(name)));
        v
    };
    let b2 = match s.as_str() {
        "zx" => Some("zx"),
        "abc" => Some("abc"),
        s => canon(s),
    };
    // `$so_far` is the flavor's method here: see h_sofar
    assume(b2 != Some("so_far"));
    match b2 {
        Some(c) => {
            run_locs(at(c), three(), fx, e, "a meta variable or binding stands for its value");
            cover(c);
        }
        None => {
            let i = item(at("Zz9"), three());
            let got = hooq(Ts::new(), place_spans(e.subst(ts(&isrc(&i))), &fx));
            expect_err(&got, &unknown(&s, &["abc", "line", "zx"]), "an unknown name is an error that lists the known ones");
            cover("unknown");
        }
    }
}
/// The aliases spelled out (each alias is its own source text here).
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_alias() {
    const N: &[&str] = &[
        "line", "column", "col", "path", "file", "expr", "source", "nth", "count", "fn_name", "fnname", "fn_sig", "fnsig", "bindings", "vars", "hooq_meta", "hooqmeta", "v",
    ];
    let n = N[choice(N.len() as u8) as usize];
    let m = choice(6);
    let tm = match m {
        0 => format!(".mk(${n})"),
        1 => format!("mk(${n})"),
        2 => format!(".mk(|e| {{ let x = [${n}, (${n}, 1)]; x }})"),
        3 => format!(".mk({{ [(${n})] }}).y[${n}]"),
        4 => format!("[${n}, mm!(${n})]"),
        _ => format!(".mk(${n}, [${n}], \"$line ${n}\", '$', r\"$line\", ${n})"),
    };
    let mut e = env();
    let l = [Loc { line: 8, col: 255, file: file("src/a/b.rs") }, Loc { line: 99, col: 1, file: file("b.rs") }, Loc { line: 100, col: 10, file: file("/x/y/") }];
    e.add("Q2", sym_name("x", 2));
    let mut at = vec![A::Bind("v".into(), "Q2.c(1)?".into(), 0), A::Method(tm)];
    if m % 2 == 1 && n != "v" {
        at.push(A::Bind(n.into(), "Q2.d(2)".into(), 1));
    }
    run_locs(at, three(), l, e, "every occurrence of a `$` name is replaced, anywhere in the hook");
    cover(n);
}
/// Any name, with a binding of that name: the meta variable wins.
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_bound() {
    let n = choice(9) as usize + 1;
    let ins = flag();
    let s = sym_ident(n);
    for k in KEYWORDS {
        if k.len() == n {
            assume(s != *k);
        }
    }
    let c = canon(&s);
    // (those that show all bindings and `$so_far`: h_meta_alias)
    assume(!matches!(c, Some("so_far" | "bindings" | "hooq_meta")));
    let mut e = env();
    e.add("Zz9", s.clone());
    let fx = [(5, 9, "src/m.rs"), (17, 2, "src/m.rs"), (2130, 44, "src/m.rs")].map(|(line, col, f)| Loc { line, col, file: file(f) });
    let tm = |name: &str| if ins { format!(".mk([${name}], 7)") } else { format!("mk([${name}], 7)") };
    let at = |name: &str, m: &str| vec![A::Bind(name.into(), "Q0 + 1".into(), 0), A::Method(tm(m))];
    for (k, x) in fx.iter().enumerate() {
        add_loc(&mut e, k, x);
    }
    let want = match c {
        Some(c) => item(at("zx", c), three()),
        None => item(at("zx", "zx"), three()),
    };
    let want = e.subst(ts(&Ref::new(e.clone()).item(&want, &Cx::defaults("q7()"))));
    let got = hooq(Ts::new(), place_spans(e.subst(ts(&isrc(&item(at("Zz9", "Zz9"), three())))), &fx));
    expect_tokens(&got, &want, "a meta variable takes precedence over a binding of its name");
    cover(c.unwrap_or("binding"));
}
/// Names of unusual forms: known exactly as they are written.
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_odd() {
    const N: &[&str] = &["_v", "__", "gr\u{f6}\u{df}e", "r#type", "r#line", "V", "linE"];
    const U: &[&str] = &["_", "self", "fn", "Self", "Line", "LINE", "line_", "_line", "r#col", "type", "r#v", "so_Far", "true", "async"];
    let k = choice((N.len() + U.len()) as u8) as usize;
    let ins = flag();
    let tm = |n: &str| if ins { format!(".mk(${n}, [${n}])") } else { format!("mk({{ ${n} }}, ${n})") };
    let e = env();
    let mut at: Vec<A> = N.iter().map(|n| A::Bind(n.to_string(), "Q0 + 1".into(), 0)).collect();
    let fx = [(5, 9, "src/m.rs"), (17, 2, "src/m.rs"), (2130, 44, "src/m.rs")].map(|(line, col, f)| Loc { line, col, file: file(f) });
    let n = if k < N.len() { N[k] } else { U[k - N.len()] };
    at.push(A::Method(tm(n)));
    if k < N.len() {
        let i = item(at, three());
        let want = {
            let mut a: Vec<A> = vec![];
            a.push(A::Method(if ins { ".mk((Q0 + 1), [(Q0 + 1)])".into() } else { "mk({ (Q0 + 1) }, (Q0 + 1))".to_string() }));
            Ref::new(e.clone()).item(&item(a, three()), &Cx::defaults("q7()")).replace("(Q0 + 1)", "Q0 + 1")
        };
        let got = hooq(Ts::new(), place_spans(e.subst(ts(&isrc(&i))), &fx));
        expect_tokens(&got, &e.subst(ts(&want)), "a binding of an unusual name stands for its value");
    } else {
        let mut known: Vec<&str> = N.to_vec();
        known.sort();
        let i = item(at, three());
        let got = hooq(Ts::new(), place_spans(e.subst(ts(&isrc(&i))), &fx));
        expect_err(&got, &unknown(n, &known), "an unknown name is an error that lists the known ones");
    }
    cover(n);
}
/// Groups in the hook, also the invisible ones around a fragment of
/// `macro_rules!`: `NG (..)` stands for one.
fn invisible(t: Ts) -> Ts {
    let mut o: Vec<TokenTree> = vec![];
    for tt in t {
        match tt {
            TokenTree::Group(g) => {
                let i = invisible(g.stream());
                let n = matches!(o.last(), Some(TokenTree::Ident(i)) if *i == "NG");
                if n {
                    o.pop();
                }
                o.push(proc_macro2::Group::new(if n { proc_macro2::Delimiter::None } else { g.delimiter() }, i).into());
            }
            tt => o.push(tt),
        }
    }
    o.into_iter().collect()
}
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_groups() {
    const T: &[&str] = &[
        ".m(NG($v))", ".m(NG(1 + $v) * 2)", ".m(NG($v), [NG($v)], { NG(Q2) })", "m(NG($expr))", ".m(mm!(NG($v) NG(Q2 $v)))", ".m(NG(NG($v)))", ".m(|x| NG(x + $v))", ".m::<{ NG($v) }>()", "[NG($source), NG($fn_name)]", ".m(($v), [$v], { $v })",
        ".m(NG($))", ".m($ NG(v))", ".m(NG($ 1))",
    ];
    let k = choice(T.len() as u8) as usize;
    let mut e = env();
    e.add("Q2", sym_name("x", 2));
    let f = |m: &str| format!("#[hooq::v = 7] #[hooq::method({m})] fn fun() {{ Q0()?; }}");
    let got = hooq(Ts::new(), e.subst(invisible(ts(&f(T[k])))));
    const MSG: &str = "names are replaced in groups of every kind, which stay what they are";
    if k + 3 >= T.len() {
        expect_any_err(&got, MSG);
    } else {
        let m = T[k].replace("$v", "7").replace("$expr", "Q0()").replace("$source", "Q0()?").replace("$fn_name", "\"fun\"");
        let b = if m.starts_with('.') { format!("Q0(){m}?") } else { format!("{m}?") };
        expect_tokens(&got, &e.subst(invisible(ts(&format!("fn fun() {{ {b}; }}")))), MSG);
    }
    cover(T[k]);
}
/// `$` in front of anything else.
#[unsafe(no_mangle)]
pub extern "C" fn h_meta_dollar() {
    const B: &[&str] = &[".m($)", ".m(a, $)", "$", ".m($line, [{ $ }])", "$expr $"];
    const X: &[&str] = &[".m($ 1)", ".m($ \"line\")", ".m($ (line))", ".m($$line)", ".m($ + 1)", ".m($ {})", ".m([$ [1]])", ".m($ 'c')", "$ . x", ".m($,)", ".m($$)"];
    let k = choice((X.len() + B.len()) as u8) as usize;
    let e = env();
    if k >= X.len() {
        let b = B[k - X.len()];
        let got = hooq(Ts::new(), e.subst(ts(&isrc(&item(vec![A::Method(b.into())], three())))));
        expect_any_err(&got, "a `$` with nothing behind it is an error");
        cover(b);
        return;
    }
    let got = hooq(Ts::new(), e.subst(ts(&isrc(&item(vec![A::Method(X[k].into())], three())))));
    expect_err(&got, "unexpected token after `$`", "`$` in front of anything but a name is an error");
    cover(X[k]);
}
fn others() -> [Loc; 3] {
    [(3, 4, "p/0.rs"), (55, 66, "p/1.rs"), (777, 8, "p/2.rs")].map(|(line, col, f)| Loc { line, col, file: file(f) })
}
fn loc_case(mt: &str, a: usize, b: usize) {
    let k = choice(3) as usize;
    let mut l = others();
    l[k] = Loc { line: a, col: b, file: file("q.rs") };
    run_locs(vec![A::Method(format!(".mk({mt})"))], three(), l, env(), "line and column of the target");
}
/// Locations: arbitrary lines and columns.
#[unsafe(no_mangle)]
pub extern "C" fn h_loc() {
    let m = choice(4) as usize;
    let mt = ["$line", "$col", "$column", "$hooq_meta"][m];
    let (a, b) = match m {
        0 => (u32_in(1, 1100) as usize, 31),
        3 => (u32_in(1, 12) as usize, u32_in(1, 12) as usize),
        _ => (12, u32_in(1, 120) as usize),
    };
    loc_case(mt, a, b);
    cover(mt);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_loc_all() {
    let mt = ["$line", "$col", "$column", "$hooq_meta"][choice(4) as usize];
    loc_case(mt, u32_in(1, 120_000) as usize, u32_in(1, 300) as usize);
    cover(mt);
}
const DIRS: &[&str] = &["src/", "a/src/", "/home/u/src/", "./", "src", "../x/"];
fn file_case(n: usize, dir: &str) {
    let k = choice(3) as usize;
    let mt = ["$path", "$file", "$hooq_meta"][choice(3) as usize];
    let mut l = others();
    l[k].file = format!("{dir}{}", sym_text(n));
    run_locs(vec![A::Method(format!(".mk({mt})"))], three(), l, env(), "path and file name of the target");
    cover(mt);
}
/// Arbitrary file names.
#[unsafe(no_mangle)]
pub extern "C" fn h_file() {
    file_case([0, 1, 3][choice(3) as usize], "");
}
/// Below directories.
#[unsafe(no_mangle)]
pub extern "C" fn h_file_dirs() {
    let d = DIRS[choice(DIRS.len() as u8) as usize];
    file_case(choice(3) as usize, d);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_file_long() {
    let d = if flag() { "" } else { DIRS[choice(DIRS.len() as u8) as usize] };
    file_case(choice(7) as usize, d);
}
/// `$expr` is the operand with its inner hooks, `$source` the operand as
/// written, for operands holding another target in any position.
#[unsafe(no_mangle)]
pub extern "C" fn h_expr_source() {
    let i = choice(CTX.len() as u8) as usize;
    let k = choice(3);
    let h = nest(i, try_(call("Q0", vec![raw("1")])));
    let m = ["wrap($expr, $source)", ".mk($source, $expr)", "[$source, $so_far, $expr]"][k as usize];
    let body = match k {
        1 => vec![bind(try_(call("g", vec![h.clone()]))), St::Tail(call("q9", vec![h]))],
        _ => vec![bind(try_(call("g", vec![h]))), St::Semi(ret(try_(raw("q()"))))],
    };
    let at = vec![A::Method("old($source, $expr)".into()), A::Method(m.into())];
    let mut f = func("fun", Some("Result<u8, u8>"), vec![St::Semi(E::Body(vec![at[1].clone()], vec![t("unsafe")], body, vec![]))]);
    f.attrs = vec![at[0].clone()];
    run("", &I::Fn(f), &Cx::defaults(""), &env(), "`$expr` holds the inner hooks, `$source` the text as written");
    cover(CTX[i].0);
}
/// `$so_far`: chains of overridden hooks.
const TM: &[&str] = &[
    ".ba($nth, $v)", ".$so_far.bb($v)", ".bc(|| [$so_far])", ".bd($so_far, $so_far)", "be($expr, $v)", "bf($expr, [$so_far])", "$expr.$so_far", "bg($so_far, b![$so_far])", ".bh()",
];
fn sofar(t: [usize; 3]) {
    let v = |x: &str| A::Bind("v".into(), x.into(), 0);
    let probe = || bind(try_(call("Q0", vec![raw("1")])));
    let inner = E::Body(vec![A::Method(TM[t[2]].into())], vec![t_("loop")], vec![probe(), bind(block(vec![probe()]))], vec![]);
    let mid = E::Body(vec![v("Q1"), A::Method(TM[t[1]].into())], vec![t_("unsafe")], vec![probe(), St::Semi(inner), probe()], vec![]);
    let mut f = func("fun", Some("Result<u8, u8>"), vec![probe(), St::Semi(mid), probe(), St::Semi(ret(raw("Q0")))]);
    f.attrs = vec![A::Method(TM[t[0]].into()), v("7")];
    let g = I::Group(vec![A::Method(".root($nth)".into())], "mod md".into(), vec![I::Fn(f)]);
    run("", &g, &Cx::defaults(""), &env(), "`$so_far` is the hook that this one overrides");
}
fn t_(s: &str) -> P {
    t(s)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sofar() {
    let n = TM.len() as u8;
    let (a, b) = (choice(n) as usize, choice(n) as usize);
    sofar([a, b, (a + b * 2) % n as usize]);
    cover(TM[b]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_sofar_all() {
    let n = TM.len() as u8;
    sofar([choice(n) as usize, choice(n) as usize, choice(n) as usize]);
}
/// Bindings under arbitrary names.
#[unsafe(no_mangle)]
pub extern "C" fn h_bind_names() {
    let m = choice(4);
    let mut e = Env::default();
    let names = ["Q0", "Q1", "Q2", "Q3"].map(|p| {
        let s = sym_name("", 2);
        for k in KEYWORDS {
            if k.len() == 2 {
                assume(s != *k);
            }
        }
        e.add(p, s.clone());
        s
    });
    let w = |n: &str, v: &str, f: u8| match f {
        0 => format!("#[hooq::binding({n} = {v})]"),
        1 => format!("#[hooq::var({n} = {v})]"),
        _ => format!("#[hooq::{n} = {v}]"),
    };
    let tm = if m == 3 { "$bindings" } else { "$Q0" };
    let text = format!(
        "#[hooq::method(.mk({tm}))] {} {} fn fun() {{ {} {{ a()?; }} {} b()?; }}",
        w("Q1", "1 + 1", m % 3),
        w("Q2", "\"s\"", (m + 1) % 3),
        w("Q3", "[3]", 0),
        if m == 2 { w("Q0", "'0'", 2) } else { String::new() }
    );
    let got = hooq(Ts::new(), e.subst(ts(&text)));
    let at = |inner: bool, q: &str| -> Option<&'static str> {
        let mut r = None;
        for (i, v) in [(1, "1 + 1"), (2, "\"s\""), (3, "[3]")] {
            if (i < 3 || inner) && names[i] == q {
                r = Some(v);
            }
        }
        r
    };
    let sorted = |inner: bool| {
        let mut v: Vec<String> = names[1..if inner { 4 } else { 3 }].to_vec();
        v.sort();
        v.dedup();
        v
    };
    const MSG: &str = "a binding is its innermost definition; unknown names are errors";
    if m == 3 {
        let map = |inner: bool, e: &mut Env, ph: [&'static str; 3]| {
            let mut o = vec![];
            for (i, n) in sorted(inner).iter().enumerate() {
                let v = at(inner, n).unwrap();
                e.add(ph[i], n.clone());
                o.push(format!(
                    "(::std::string::ToString::to_string(\"{}\"), {{ let expr = ::std::string::ToString::to_string({:?}); let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new({v}); ::hooq::BindingPayload {{ expr, value, }} }})",
                    ph[i], ts(v).to_string()
                ));
            }
            format!("::std::collections::HashMap::from([{}])", o.join(","))
        };
        let mut e2 = e.clone();
        let (x, y) = (map(true, &mut e2, ["I0", "I1", "I2"]), map(false, &mut e2, ["O0", "O1", "O2"]));
        let want = format!("fn fun() {{ {{ a().mk({x})?; }} b().mk({y})?; }}");
        expect_tokens(&got, &e2.subst(ts(&want)), MSG);
        cover("map");
        return;
    }
    let q = names[0].as_str();
    let (i, o) = (at(true, q), if m == 2 { Some("'0'") } else { at(false, q) });
    match (i, o) {
        (None, _) | (_, None) => {
            let s = sorted(i.is_none());
            let s: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
            expect_err(&got, &unknown(q, &s), MSG);
            cover("unknown");
        }
        (Some(i), Some(o)) => {
            let want = format!("fn fun() {{ {{ a().mk({i})?; }} b().mk({o})?; }}");
            expect_tokens(&got, &e.subst(ts(&want)), MSG);
            cover("known");
        }
    }
}
/// Bindings from flavors and from attributes, on two elements, in any order.
#[unsafe(no_mangle)]
pub extern "C" fn h_bind_flavor() {
    set_toml("proj", Some("[fa]\nbindings = { ab = '1 + 1', cd = \"'c'\" }\n[fb]\nbindings = { cd = '[3]', ef = 'x.y' }\n"));
    const FA: &[(&str, &str)] = &[("ab", "1 + 1"), ("cd", "'c'")];
    const FB: &[(&str, &str)] = &[("cd", "[3]"), ("ef", "x.y")];
    // 0: the binding of this element, 1: flavor fa, 2: flavor fb
    const OUT: &[&[usize]] = &[&[], &[0], &[1], &[0, 1], &[1, 0], &[2, 1]];
    const INN: &[&[usize]] = &[&[], &[0], &[2], &[2, 0], &[0, 2]];
    let (root, o, i, map) = (flag(), choice(OUT.len() as u8) as usize, choice(INN.len() as u8) as usize, flag());
    let mut e = Env::default();
    let names = ["Q0", "Q1", "Q2"].map(|p| {
        let s = sym_name("", 2);
        for k in KEYWORDS {
            if k.len() == 2 {
                assume(s != *k);
            }
        }
        e.add(p, s.clone());
        s
    });
    let layer = |l: &[usize], own: (&str, &str, &str), k: usize| {
        let (mut a, mut d) = (String::new(), vec![]);
        for x in l {
            match x {
                0 => {
                    a += &[format!("#[hooq::binding({} = {})]", own.0, own.2), format!("#[hooq::{} = {}]", own.0, own.2)][k % 2];
                    d.push((own.1.to_string(), own.2.to_string()));
                }
                x => {
                    a += ["", "#[hooq::bindings = fa]", "#[hooq::bindings = \"fb\"]"][*x];
                    d.extend([FA, FB][x - 1].iter().map(|(n, v)| (n.to_string(), v.to_string())));
                }
            }
        }
        (a, d)
    };
    let (oa, od) = layer(OUT[o], ("Q1", &names[1], "9"), i);
    let (ia, id) = layer(INN[i], ("Q2", &names[2], "\"s\""), o);
    let mut vis = [vec![], vec![]];
    for (k, v) in vis.iter_mut().enumerate() {
        if root {
            v.extend(FA.iter().map(|(n, v)| (n.to_string(), v.to_string())));
        }
        v.extend(od.iter().cloned());
        if k == 0 {
            v.extend(id.iter().cloned());
        }
    }
    let text = format!("#[hooq::method(.mk({}))] {oa} fn fun() {{ {ia} {{ a()?; }} b()?; }}", if map { "$bindings" } else { "$Q0" });
    let got = hooq(ts(if root { "fa" } else { "" }), e.subst(ts(&text)));
    const MSG: &str = "the last definition on the innermost element wins, be it a flavor's or a binding's";
    let names_of = |v: &[(String, String)]| {
        let mut n: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
        n.sort();
        n.dedup();
        n
    };
    let at = |v: &[(String, String)], q: &str| v.iter().rev().find(|x| x.0 == q).map(|x| x.1.clone());
    if map {
        let mut e2 = e.clone();
        let mut w = vec![];
        for (k, v) in vis.iter().enumerate() {
            let mut o = vec![];
            for (j, n) in names_of(v).iter().enumerate() {
                let ph: &'static str = [["I0", "I1", "I2", "I3", "I4"], ["O0", "O1", "O2", "O3", "O4"]][k][j];
                e2.add(ph, n.clone());
                let x = at(v, n).unwrap();
                o.push(format!(
                    "(::std::string::ToString::to_string(\"{ph}\"), {{ let expr = ::std::string::ToString::to_string({:?}); let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new({x}); ::hooq::BindingPayload {{ expr, value, }} }})",
                    ts(&x).to_string()
                ));
            }
            w.push(format!("::std::collections::HashMap::from([{}])", o.join(",")));
        }
        expect_tokens(&got, &e2.subst(ts(&format!("fn fun() {{ {{ a().mk({})?; }} b().mk({})?; }}", w[0], w[1]))), MSG);
        cover("map");
        return;
    }
    let q = names[0].as_str();
    match (at(&vis[0], q), at(&vis[1], q)) {
        (Some(x), Some(y)) => {
            expect_tokens(&got, &e.subst(ts(&format!("fn fun() {{ {{ a().mk({x})?; }} b().mk({y})?; }}"))), MSG);
            cover("known");
        }
        (x, _) => {
            let s = names_of(&vis[x.is_some() as usize]);
            let s: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
            expect_err(&got, &unknown(q, &s), MSG);
            cover(if x.is_some() { "unknown outside" } else { "unknown" });
        }
    }
}
/// Bindings through scopes, in every syntax, with every kind of value.
#[unsafe(no_mangle)]
pub extern "C" fn h_bind_scopes() {
    const V: &[&str] = &["1", "\"Q0\"", "Q0", "Q0::Q1", "[1, 2]", "vec![Q0]", "|x| x + 1", "{ let a = 1; a }", "-1", "Q0 { a: 1 }", "x?", "'c'", "1.5", "a && b", "(1, 2)", "&[1]", "$x"];
    let v = V[choice(V.len() as u8 - 1) as usize];
    let (f, s) = (choice(3), choice(4));
    let probe = || bind(try_(raw("a()")));
    let at = |k: &str, v: &str| vec![A::Bind(k.into(), v.into(), f)];
    let (outer, inner) = match s {
        0 => (at("v", v), vec![]),
        1 => (at("v", "9"), at("v", v)),
        2 => (at("v", v), at("w", "8")),
        _ => ([at("v", "9"), at("v", v)].concat(), [at("w", "8"), at("v", "7")].concat()),
    };
    let mut fa = vec![A::Method(".mk($v, $bindings)".into())];
    fa.extend(outer);
    let b = E::Body(inner, vec![], vec![probe(), bind(block(vec![probe()])), bind(E::Clo(vec![], "||".into(), None, CB::Expr(Box::new(try_(raw("c()"))))))], vec![]);
    run("", &item(fa, vec![probe(), St::Semi(b), probe()]), &Cx::defaults(""), &env(), "bindings are visible below, and in `$bindings`");
    cover(v);
}
/// Function names and signatures.
#[unsafe(no_mangle)]
pub extern "C" fn h_fninfo() {
    const SIG: &[(&str, &str, &str)] = &[
        ("", "()", ""),
        ("pub", "()", ""),
        ("async", "(a: u8)", "-> Q1"),
        ("const unsafe", "(&self, Q1: u8)", "-> Result<u8, Q1>"),
        ("unsafe extern \"C\"", "(mut a: u8, (b, c): Q1)", "-> impl Fn(u8) -> Q1"),
        ("", "< 'a, T: Tr<Q1> , const N: usize>(& 'a mut self, x: [T; N])", "-> Option< & 'a T> where T: Q1, Q1: 'a"),
        ("", "(self: Box<Self> , _: &dyn Q1)", "-> !"),
        ("", "(#[cfg(x)] a: u8,)", "-> (u8, Q1)"),
    ];
    let i = choice(SIG.len() as u8) as usize;
    let (m, s) = (["$fn_name", "$fn_sig", "$fnname", "$fnsig"][choice(4) as usize], choice(6));
    let probe = || bind(try_(raw("a()")));
    let mut e = env();
    e.add("Q2", sym_name("fz", 1));
    e.add("Q3", sym_name("fz", 2));
    // visibility is not part of the signature
    let (pre, params, ret) = SIG[i];
    let (vis, pre) = if pre == "pub" { ("pub", "") } else { ("", pre) };
    let _ = vis;
    let mk = |name: &str, body: Vec<St>| {
        let mut f = func(name, None, body);
        f.pre = pre.into();
        f.params = params.into();
        if !ret.is_empty() {
            f.ret = Some(ret[3..].into());
            f.ret_last = Some("-".into());
        }
        f
    };
    let clo = |h: &str, b: Vec<St>| bind(E::Clo(vec![], h.into(), None, CB::Block(b)));
    let it = match s {
        0 => I::Fn(mk("Q2", vec![probe(), clo("|a, b: u8|", vec![probe()]), probe()])),
        1 => I::Group(vec![], "impl<T> Tr<T> for Ty<T> where T: Q1".into(), vec![I::Fn(mk("Q2", vec![probe()])), I::Fn(mk("Q3", vec![clo("move || -> u8", vec![probe(), clo("|x|", vec![probe()])])]))]),
        2 => I::Fn(mk("Q2", vec![St::Item(I::Fn(mk("Q3", vec![probe(), clo("||", vec![probe()])]))), probe(), clo("||", vec![probe()])])),
        3 => I::Group(vec![], "mod md".into(), vec![I::Const(vec![], "const C: u8 =".into(), block(vec![probe(), clo("|c| -> Q1", vec![probe()])])), I::Fn(mk("Q2", vec![probe()]))]),
        4 => I::Fn(mk("Q2", vec![clo("async move |c|", vec![probe(), St::Item(I::Fn(mk("Q3", vec![clo("| &d|", vec![probe()]), probe()]))), probe()]), probe()])),
        _ => I::Fn(mk("Q2", vec![probe(), bind(E::Body(vec![], vec![t("async")], vec![probe(), clo("|x: &str| -> Q1", vec![bind(E::Clo(vec![], "|y|".into(), None, CB::Expr(Box::new(try_(raw("c()"))))))])], vec![]))])),
    };
    let it = match it {
        I::Fn(mut f) => {
            f.attrs = vec![A::Method(format!(".mk({m})"))];
            I::Fn(f)
        }
        I::Group(_, h, v) => I::Group(vec![A::Method(format!(".mk({m})"))], h, v),
        i => i,
    };
    run("", &it, &Cx::defaults(""), &e, "name and signature of the innermost function or closure");
    cover(m);
}
/// Any chain of nested functions, closures and blocks.
fn fnchain(n: usize) {
    let mut e = env();
    e.add("Q2", sym_name("fz", 1));
    e.add("Q3", sym_name("fz", 2));
    let probe = || bind(try_(raw("a()")));
    let mut body = vec![probe()];
    let mut top = 0;
    for k in 0..n {
        let name = ["Q2", "Q3", "f2", "f3", "f4"][k];
        let m = choice(6);
        if k + 1 == n {
            top = m;
        }
        let fun = |b: Vec<St>| func(name, Some(["u8", "Q1"][k % 2]), b);
        let st = match m {
            0 => St::Item(I::Fn(fun(body))),
            1 => bind(E::Clo(vec![], format!("|x{k}: u8| -> Q1"), None, CB::Block(body))),
            2 => St::Item(I::Group(vec![], "impl Tr for Q1".into(), vec![I::Fn(fun(body))])),
            3 => St::Item(I::Const(vec![], format!("const K{k}: u8 ="), block(body))),
            4 => bind(E::Body(vec![], vec![t("async")], body, vec![])),
            _ => St::Item(I::Group(vec![], "mod md".into(), vec![I::Const(vec![], format!("static K{k}: u8 ="), E::Clo(vec![], format!("move |y{k}|"), None, CB::Block(body)))])),
        };
        body = vec![probe(), st, probe()];
    }
    let sig = flag();
    let mut f = func("outer", Some("Q0"), body);
    f.attrs = vec![A::Method(if sig { ".mk($fn_sig)" } else { ".mk($fn_name)" }.into())];
    run("", &I::Fn(f), &Cx::defaults(""), &e, "name and signature of the innermost function or closure");
    cover(["fn", "closure", "impl", "const", "async", "static closure"][top as usize]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fnchain() {
    fnchain(choice(2) as usize + 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_fnchain4() {
    fnchain(4);
}
