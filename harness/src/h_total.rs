//! Whatever stands in an attribute, a macro call or hooq.toml: the macros end
//! with Rust code or with a compile error, never with a panic.
use crate::u::*;
use proc_macro2::{Span, TokenTree};
use vs::*;

/// Pieces of token soup.
const W: &[&str] = &[
    "?", "!", "$", ".", "Q0", "\"Q1\"", "1", "(Q0)", "{ Q0?; }", "[]", "=", ",", ";", "return", "#", "'a", "$expr", "::", ".Q0()", "Q0!(Q1?)", "=>", "-", "fn f()", "let x = 1;", "|Q0|", "<", "&", "@",
];
/// Where the soup stands (`@@`).
const AT: &[(&str, &str)] = &[
    ("@@", "fn fun() -> Result<u8, u8> { let a = p0()?; q9() }"),
    ("", "#[hooq::method(@@)] fn fun() -> Result<u8, u8> { let a = p0()?; q9() }"),
    ("", "#[hooq::method(.m @@)] fn fun() -> Result<u8, u8> { let a = p0()?; return Err(2); }"),
    ("", "fn fun() -> Result<u8, u8> { #[hooq::@@] p0()?; q9() }"),
    ("", "fn fun() -> Result<u8, u8> { #[hooq::v = @@] let a = p0()?; q9() }"),
    ("", "#[hooq::method(.m($v))] fn fun() -> Result<u8, u8> { #[hooq::binding(v = @@)] p0()?; q9() }"),
    ("", "#[hooq::hook_targets(@@)] fn fun() { p0()?; }"),
    ("", "#[hooq::tail_expr_idents(@@)] fn fun() { p0()?; }"),
    ("", "impl Ty { #[hooq::result_types(@@)] fn fun() { p0()?; } }"),
    ("", "#[hooq::hook_in_macros(@@)] fn fun() { mm!(p0()?); }"),
    ("", "#[hooq::flavor = @@] fn fun() { p0()?; }"),
    ("", "fn fun() { mm!(@@) }"),
    ("", "fn fun() { mm! { p0()?, @@ } g![@@]; }"),
    ("", "mm! { @@ }"),
    ("", "#[hooq(@@)] #[x @@] fn fun() { p0()?; }"),
    ("", "fn fun() -> Result<u8, u8> { @@ p0()? }"),
    ("", "fn fun() -> Result<u8, u8> { return @@ }"),
    ("", "fn fun() -> Result<@@> { Ok(match p0()? { @@ => 1, _ => 2 }) }"),
    ("", "@@"),
    ("", "#[hooq::method(@@)] #[hooq::hook_targets(\"return\", \"tail_expr\")] fn fun() -> Result<u8, u8> { if p0()? { return Err(1); } { Err(2) } }"),
];
fn fill(t: &str, soup: &Ts) -> Ts {
    fn go(t: Ts, soup: &Ts) -> Ts {
        let mut out: Vec<TokenTree> = vec![];
        let mut it = t.into_iter().peekable();
        while let Some(tt) = it.next() {
            match tt {
                TokenTree::Punct(p) if p.as_char() == '@' && matches!(it.peek(), Some(TokenTree::Punct(q)) if q.as_char() == '@') => {
                    it.next();
                    out.extend(soup.clone());
                }
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), go(g.stream(), soup));
                    n.set_span(g.span());
                    out.push(n.into());
                }
                o => out.push(o),
            }
        }
        out.into_iter().collect()
    }
    go(ts(t), soup)
}
/// The outcome is code or an error.
fn sane(got: &Ts, msg: &str) -> bool {
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}\nWANT code or an error");
    }
    let g = flatten(got);
    log_bytes(&g);
    let err = err_lit(got).is_some();
    if !err {
        check(syn::parse2::<syn::File>(got.clone()).is_ok(), msg);
    }
    // the solver's obligation: nothing is lost silently
    check_same(&[(g.len() > 0) as u8], &[1], msg);
    err
}
const MSG: &str = "an expansion is Rust code or a compile error";
fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("q", 1));
    e.add("Q1", sym_name("q", 1));
    e
}
/// `n` pieces; of the later ones only every `step`-th.
fn soup(n: usize, step: usize) -> Ts {
    let mut t = String::new();
    let mut k = 0;
    for i in 0..n {
        k = if i == 0 { choice(W.len() as u8) as usize } else { (choice((W.len() / step) as u8) as usize * step + k) % W.len() };
        t += W[k];
        t.push(' ');
    }
    ts(&t)
}
fn total(at: usize, n: usize, step: usize, cq: bool) {
    let e = env();
    set_toml("proj", None);
    let s = soup(n, step);
    let (a, i) = AT[at];
    let (a, i) = (e.subst(fill(a, &s)), e.subst(fill(i, &s)));
    let got = if cq { hooq_cq(a, i) } else { hooq(a, i) };
    let err = sane(&got, MSG);
    cover(&format!("{at} {}", if err { "error" } else { "code" }));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total() {
    let at = choice(AT.len() as u8) as usize;
    total(at, choice(3) as usize, 4, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_cq() {
    let at = [1, 2, 4, 11, 19][choice(5) as usize];
    total(at, choice(3) as usize, 4, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total3() {
    let at = choice(AT.len() as u8) as usize;
    total(at, choice(2) as usize + 2, 1, false);
}
/// Any characters.
fn text(n: usize) {
    let at = [0, 1, 4, 10, 11, 16][choice(6) as usize];
    set_toml("proj", None);
    let s = sym_text(n);
    assume(!s.as_bytes().contains(&b'\''));
    let Ok(t) = s.parse::<Ts>() else { return };
    let (a, i) = AT[at];
    let err = sane(&hooq(fill(a, &t), fill(i, &t)), MSG);
    cover(&format!("{at} {}", if err { "error" } else { "code" }));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_text() {
    text(choice(2) as usize + 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_text3() {
    text(3);
}
/// Texts in hooq.toml that become tokens.
fn toml_text(n: usize) {
    let k = choice(4) as usize;
    let f = ["method = '@@'", "bindings = { v = '@@' }", "trait_uses = ['@@']", "method = '.m(@@)'"][k];
    let s = sym_text(n);
    assume(!s.as_bytes().contains(&b'\''));
    set_toml("proj", Some(&format!("[fa]\n{}\n", f.replace("@@", &s))));
    let err = sane(&hooq(ts("fa"), ts("fn fun() -> Result<u8, u8> { let a = p0()?; Err(3) }")), MSG);
    cover(&format!("{k} {}", if err { "error" } else { "code" }));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_toml() {
    toml_text(choice(3) as usize);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_toml3() {
    toml_text(3);
}
/// The excerpt macros, on any tokens at any places in the file.
fn excerpt(n: usize, step: usize, spans: bool) {
    let mut e = env();
    e.add("Q2", sym_name("", 12));
    const B: &[&str] = &["a + b", "f(\"Q2\")", "[a]", "{ a; }", "m!(a)[b]", "f(a, \"Q2\")"];
    let m = choice(4);
    const PRE: &[&str] = &["", "@show_line_num, @padding, ", "@truncate_str = 2, @excerpt_line = 2, ", "@truncate_str = 1, ", "@truncate_str = 0, ", "@truncate_str = 3, ", "@truncate_str, @excerpt_line = 1, "];
    let k = if m % 3 == 0 { PRE.len() as u8 } else { 3 };
    let pre = PRE[if spans { m as usize % 3 } else { choice(k) as usize }];
    let body: Ts = if spans {
        ts(B[choice(n as u8) as usize])
    } else {
        soup(n, step)
    };
    let mut t = e.subst(body);
    if spans {
        t = map_tokens(t, &mut |mut t| {
            let (l, c) = (usize_in(1, 3), usize_in(0, if n > 5 { 5 } else { 3 }));
            t.set_span(Span::vnew((l, c), (l, c + 1), "f.rs".into()));
            t
        })
    }
    let t: Ts = [ts(pre), t].into_iter().collect();
    let t = t.into();
    let got: Ts = match m {
        0 => hq::truncate_lit_str(t),
        1 => hq::pretty_stringify(t),
        2 => hq::one_line_stringify(t),
        _ => hq::excerpted_pretty_stringify(t),
    }
    .into();
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}");
    }
    let g = flatten(&got);
    log_bytes(&g);
    let err = err_lit(&got).is_some();
    if !err {
        check(syn::parse2::<syn::Expr>(got).is_ok(), "an excerpt macro gives an expression or an error");
    }
    check_same(&[(g.len() > 0) as u8], &[1], "an excerpt macro gives an expression or an error");
    cover(&format!("{m} {}", if err { "error" } else { "code" }));
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_excerpt() {
    excerpt(choice(3) as usize, 2, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_excerpt3() {
    excerpt(choice(2) as usize + 2, 1, false);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_spans() {
    excerpt(4, 0, true);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_total_spans_all() {
    excerpt(6, 0, true);
}
