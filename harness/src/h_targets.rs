//! `hook_targets`: which kinds of target are hooked.
use crate::model::*;
use crate::u::*;
use vs::*;

/// One function with every kind of target, in several places.
fn all_kinds(at: Vec<A>) -> I {
    let clo = |b| E::Clo(vec![], "|a| -> Result<u8, u8>".into(), Some("Result".into()), b);
    let mut f = func(
        "fun",
        Some("Result<u8, u8>"),
        vec![
            St::Let(vec![], "_".into(), try_(raw("a()")), None),
            St::Let(vec![], "_".into(), clo(CB::Block(vec![St::Semi(ret(call("Q0", vec![try_(raw("b()"))]))), St::Tail(raw("c()"))])), None),
            St::Let(vec![], "_".into(), block(vec![St::Tail(call("Err", vec![]))]), None),
            St::Semi(ret(try_(raw("d()")))),
            St::Tail(call("Q0", vec![try_(raw("e()"))])),
        ],
    );
    f.attrs = at;
    I::Fn(f)
}
const M: &str = ".mk($nth, $source)";
fn env() -> Env {
    let mut e = Env::default();
    e.add("Q0", sym_name("q", 2));
    e
}
fn verdict(s: &str) -> Option<&'static str> {
    match s {
        "?" | "question" => Some("?"),
        "return" => Some("return"),
        "tail_expr" | "tail expr" | "tailexpr" | "tailExpr" => Some("tail_expr"),
        "all" => Some("all"),
        _ => None,
    }
}
/// Lists of every known spelling.
#[unsafe(no_mangle)]
pub extern "C" fn h_targets() {
    const SP: &[&str] = &["?", "question", "return", "tail_expr", "tail expr", "tailexpr", "tailExpr", "all"];
    let k = choice(6);
    let mut v = vec![];
    let at = match k {
        0 => vec![A::Targets(vec![])],
        1 => vec![A::Targets(vec![SP[choice(8) as usize]])],
        2 => vec![A::Targets(vec![SP[choice(8) as usize], SP[choice(8) as usize]])],
        3 => {
            let m = choice(8);
            for (i, s) in ["tailExpr", "?", "return"].iter().enumerate() {
                if m & (1 << i) != 0 {
                    v.push(*s);
                }
            }
            vec![A::Targets(v)]
        }
        4 => vec![A::Targets(vec!["all"]), A::Targets(vec![SP[choice(8) as usize]])],
        _ => vec![A::Targets(vec![SP[choice(8) as usize]]), A::Keep("#[allow(unused)]".into()), A::Targets(vec![])],
    };
    let mut a = vec![A::Method(M.into())];
    a.extend(at);
    run("", &all_kinds(a), &Cx::defaults(""), &env(), "exactly the listed kinds of target are hooked");
    cover(["none", "one", "two", "subset", "last wins", "emptied"][k as usize]);
}
fn text_case(n: usize, second: bool) {
    let s = sym_text(n);
    // the attribute's text goes in by token substitution
    let mut e = env();
    e.add("Zz9", s.clone());
    let v = verdict(&s);
    let src = isrc(&all_kinds(vec![]));
    let more = if second { ", \"return\"" } else { "" };
    let text = format!("#[hooq::method({M})] #[hooq::hook_targets(\"Zz9\"{more})] {src}");
    let got = hooq(Ts::new(), e.subst(ts(&text)));
    match v {
        Some(t) => {
            let l = if second { vec![t, "return"] } else { vec![t] };
            let mut r = Ref::new(e.clone());
            let want = r.item(&all_kinds(vec![A::Method(M.into()), A::Targets(l)]), &Cx::defaults(""));
            expect_tokens(&got, &e.subst(ts(&want)), "every documented spelling selects its kind");
            cover("known");
        }
        None => {
            expect_err(
                &got,
                &format!("invalid hooq::hook_targets attribute value. got: {s}\nexpected: \"?\", \"return\", \"tail_expr\""),
                "any other text is rejected with a message naming it",
            );
            cover("unknown");
        }
    }
}
/// Any printable text up to nine characters as a target.
#[unsafe(no_mangle)]
pub extern "C" fn h_targets_text() {
    text_case(choice(10) as usize, flag());
}
/// Things in the list that are not strings.
#[unsafe(no_mangle)]
pub extern "C" fn h_targets_bad() {
    const B: &[&str] = &["return", "?", "Q0", "1", "'r'", "b\"return\"", "\"return\" \"?\"", "\"return\"; \"?\"", "[\"return\"]", ",", "\"return\",,", "true", "all", "!\"?\""];
    const N: &[&str] = &["hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"];
    let (n, b) = (choice(N.len() as u8) as usize, choice(B.len() as u8) as usize);
    let e = env();
    let text = format!("#[hooq::{}({})] {}", N[n], B[b], isrc(&all_kinds(vec![])));
    let got = hooq(Ts::new(), e.subst(ts(&text)));
    expect_any_err(&got, "only string literals are taken");
    cover(B[b]);
}
