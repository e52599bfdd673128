//! The source excerpt macros: an expression, laid out in a source file in any
//! way, becomes a string that shows it.
use crate::u::*;
use proc_macro2::{Group, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use vs::*;

// ---- layout -----------------------------------------------------------------
/// One painted token: text, place of its start, end column.
#[derive(Clone)]
pub struct Leaf {
    text: String,
    line: usize,
    col: usize,
    ecol: usize,
    /// a string literal whose contents truncation may change
    lit: bool,
}
/// Gives the tokens of a template places in a file `f.rs`.
pub struct Lay {
    line: usize,
    col: usize,
    /// (token index, line breaks, column or additional gap) before that token
    breaks: Vec<(usize, usize, usize)>,
    idx: usize,
    prev: P,
    pub leaves: Vec<Leaf>,
    /// the source text itself
    pub src: String,
    /// below this, string literals are not the expression's own (macro arguments)
    raw: usize,
}
#[derive(PartialEq, Clone, Copy)]
enum P {
    Start,
    Word,
    Open,
    Joint,
    Alone,
    Close,
}
impl Lay {
    pub fn new(line: usize, col: usize, breaks: Vec<(usize, usize, usize)>) -> Lay {
        Lay { line, col, breaks, idx: 0, prev: P::Start, leaves: vec![], src: String::new(), raw: 0 }
    }
    /// Moves to the next token's place; `kind` decides the usual gap.
    fn go(&mut self, kind: P) {
        let gap = match (self.prev, kind) {
            (P::Start, _) => {
                self.idx += 1;
                return;
            }
            (P::Joint, _) => return,
            (P::Word, P::Word) | (P::Close, P::Word) | (P::Alone, P::Alone) | (P::Alone, P::Joint) => 1,
            _ => 0,
        };
        let mut g = gap;
        let mut nl = 0;
        for (i, n, c) in &self.breaks {
            if *i == self.idx {
                nl = *n;
                g = if nl == 0 { gap + *c } else { *c };
            }
        }
        self.idx += 1;
        if nl > 0 {
            self.line += nl;
            self.col = 0;
            for _ in 0..nl {
                self.src.push('\n');
            }
        }
        self.col += g;
        if g > 0 {
            self.src.push_str(&" ".repeat(g));
        }
    }
    /// Places a token of this text here.
    fn put(&mut self, text: &str, lit: bool) -> ((usize, usize), (usize, usize)) {
        let st = (self.line, self.col);
        let nl = text.matches('\n').count();
        if nl > 0 {
            self.line += nl;
            self.col = text.rsplit('\n').next().unwrap_or("").chars().count();
        } else {
            self.col += text.chars().count();
        }
        self.src.push_str(text);
        self.leaves.push(Leaf { text: text.into(), line: st.0, col: st.1, ecol: self.col, lit });
        (st, (self.line, self.col))
    }
    fn span(&self, a: ((usize, usize), (usize, usize))) -> Span {
        Span::vnew(a.0, a.1, "f.rs".into())
    }
    pub fn lay(&mut self, t: Ts) -> Ts {
        let mut out: Vec<TokenTree> = vec![];
        let mut bang = false;
        let mut it = t.into_iter().peekable();
        while let Some(tt) = it.next() {
            let was_bang = bang;
            bang = false;
            match tt {
                TokenTree::Ident(mut i) => {
                    self.go(P::Word);
                    let a = self.put(&i.to_string(), false);
                    i.set_span(self.span(a));
                    self.prev = P::Word;
                    out.push(i.into());
                }
                TokenTree::Literal(mut l) => {
                    self.go(P::Word);
                    let s = l.to_string();
                    let lit = (s.starts_with('"') || s.starts_with("r\"") || s.starts_with("r#")) && self.raw == 0;
                    let a = self.put(&s, lit);
                    l.set_span(self.span(a));
                    self.prev = P::Word;
                    out.push(l.into());
                }
                TokenTree::Punct(mut p) if p.as_char() == '\'' => {
                    // a lifetime is one token of the source
                    self.go(P::Word);
                    let Some(TokenTree::Ident(mut i)) = it.next() else { panic!("lifetime") };
                    let a = self.put(&format!("'{i}"), false);
                    p.set_span(self.span(a));
                    i.set_span(self.span(a));
                    self.prev = P::Word;
                    out.push(p.into());
                    out.push(i.into());
                }
                TokenTree::Punct(mut p) => {
                    let k = if p.spacing() == Spacing::Joint { P::Joint } else { P::Alone };
                    bang = p.as_char() == '!' && matches!(it.peek(), Some(TokenTree::Group(_))) && self.prev == P::Word;
                    self.go(k);
                    let a = self.put(&p.as_char().to_string(), false);
                    p.set_span(self.span(a));
                    self.prev = k;
                    out.push(p.into());
                }
                TokenTree::Group(g) => {
                    let (o, c) = delim(g.delimiter());
                    self.go(P::Open);
                    let a = self.put(o, false);
                    self.prev = P::Open;
                    if was_bang {
                        self.raw += 1;
                    }
                    let inner = self.lay(g.stream());
                    if was_bang {
                        self.raw -= 1;
                    }
                    self.go(P::Close);
                    let b = self.put(c, false);
                    self.prev = P::Close;
                    let mut n = Group::new(g.delimiter(), inner);
                    n.set_span(self.span((a.0, b.1)));
                    out.push(n.into());
                }
            }
        }
        out.into_iter().collect()
    }
    /// Number of places where a break may go.
    fn places(t: &str) -> usize {
        let mut l = Lay::new(1, 0, vec![]);
        l.lay(ts(t));
        l.idx
    }
}
/// The text shown when string literals read `f(text)`: lines and gaps as in the source.
fn paint(l: &[Leaf], f: &dyn Fn(&str) -> String) -> String {
    let mut s = String::new();
    let mut at: Option<(usize, usize)> = None;
    for x in l {
        match at {
            None => s.push_str("    "),
            Some((ln, _)) if x.line > ln => {
                for _ in ln..x.line {
                    s.push('\n');
                }
                s.push_str(&" ".repeat(x.col));
            }
            Some((_, c)) => s.push_str(&" ".repeat(x.col - c)),
        }
        let t = if x.lit { f(&x.text) } else { x.text.clone() };
        at = Some((x.line + t.matches('\n').count(), x.ecol));
        s.push_str(&t);
    }
    s
}
fn trunc_text(v: &str, max: Option<usize>) -> String {
    let (m, a, b) = match max {
        None => (10, 4, 4),
        Some(m) if m < 2 => (m, 0, 0),
        Some(m) => (m, (m - 2) / 2, m - 2 - (m - 2) / 2),
    };
    let mut o: Vec<String> = vec![];
    for line in v.split('\n') {
        let c: Vec<char> = line.chars().collect();
        if c.len() > m {
            let mut s: String = c[..a].iter().collect();
            s.push_str("..");
            s.extend(&c[c.len() - b..]);
            o.push(s);
        } else {
            o.push(line.into());
        }
    }
    o.join("\n")
}
/// Value of a string literal token (plain or raw, simple escapes).
fn value(s: &str) -> String {
    if let Some(r) = s.strip_prefix('r') {
        let h = r.bytes().take_while(|b| *b == b'#').count();
        return r[h + 1..r.len() - h - 1].to_string();
    }
    unquote(s)
}
fn trunc_lit(s: &str, max: Option<usize>) -> String {
    Literal::string(&trunc_text(&value(s), max)).to_string()
}
/// The gutter: number of each line, `>` on the first and `|` on the others.
fn gutter(body: &str, line: usize, top: bool, bottom: bool) -> (String, String, String) {
    let ls: Vec<&str> = body.split('\n').collect();
    let w = (line + ls.len() - 1).to_string().len().max(4);
    let mut o: Vec<String> = vec![];
    for (i, l) in ls.iter().enumerate() {
        let n = (line + i).to_string();
        o.push(format!("{}{n}{}{l}", " ".repeat(w - n.len()), if i == 0 { '>' } else { '|' }));
    }
    let e = " ".repeat(w);
    (if top { format!("{e}|\n") } else { String::new() }, o.join("\n"), if bottom { format!("\n{e}|") } else { String::new() })
}
fn excerpt(body: &str, max: usize) -> String {
    let ls: Vec<&str> = body.split('\n').collect();
    if max == 1 {
        return ls[ls.len() - 1].into();
    }
    if ls.len() <= max || ls.len() <= 2 {
        return body.into();
    }
    let mut o = vec![ls[0], "..."];
    o.extend(&ls[ls.len() - (max - 1)..]);
    o.join("\n")
}
fn one_line(body: &str) -> String {
    body.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join(" ")
}

// ---- calls ------------------------------------------------------------------
fn cat(a: &[Ts]) -> Ts {
    let mut o = Ts::new();
    for t in a {
        o.extend(t.clone());
    }
    o
}
fn lit(s: &str) -> Ts {
    Ts::from(TokenTree::from(Literal::string(s)))
}
fn num(n: usize) -> Ts {
    Ts::from(TokenTree::from(Literal::usize_unsuffixed(n)))
}
fn call(m: u8, t: Ts) -> Ts {
    let t = t.into();
    match m {
        0 => hq::truncate_lit_str(t),
        1 => hq::pretty_stringify(t),
        2 => hq::one_line_stringify(t),
        _ => hq::excerpted_pretty_stringify(t),
    }
    .into()
}
fn expect_str(got: &Ts, want: &str, msg: &str) {
    expect_tokens(got, &lit(want), msg)
}

// ---- C25, C26 ---------------------------------------------------------------
const TPL: &[&str] = &[
    "f(a, 12)",
    "[1, [2], 3]",
    "Pt { a: b, ..c }",
    "a.b(|x| x + 1)?",
    "m!(a b; {c})",
    "if a { b } else { c }",
    "match x { A(y) => 1, _ => {} }",
    "a::<B<C>>::d(\"s\")",
    "-a & !*b",
    "'l: loop { break 'l; }",
    "(a, (), {})",
    "r#\"x\"# == b\"y\"",
    "\"a\n  b\".c(d)",
    "f(r\"\n\n\", 'q', 1.5)",
    "#[at] { let x = a; x }",
    "async move { &mut a[0..=1] }",
    "\"a \t\n\t b\u{a0}\n\n c\".d(r\"\t\n\t\")",
];
fn laid(tp: &str, line: usize, n1: usize, c1: usize, second: bool) -> (Ts, Lay) {
    let n = Lay::places(tp);
    let i = 1 + choice((n - 1) as u8) as usize;
    let mut b = vec![(i, n1, c1)];
    if second {
        // a second break further on, whose column depends on nothing else
        b.push((i + 2, 1, 3));
    }
    let mut l = Lay::new(line, u8_in(0, 90) as usize, b);
    let t = l.lay(ts(tp));
    (t, l)
}
fn pretty(sec: bool) {
    let k = choice(TPL.len() as u8) as usize;
    let n1 = choice(3) as usize;
    let c1 = u8_in(0, 5) as usize;
    let (t, l) = laid(TPL[k], u32_in(1, 100_000) as usize, n1, c1, sec);
    let want = format!("    {}", l.src);
    expect_str(&call(1, t), &want, "the string shows the source as it is laid out");
    cover(&format!("template {k}"));
    cover(if n1 == 0 { "same line" } else { "line break" });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pretty() {
    pretty(false)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_pretty2() {
    pretty(true)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_oneline() {
    let k = choice(TPL.len() as u8) as usize;
    let n1 = choice(3) as usize;
    let c1 = u8_in(0, 2) as usize;
    let tr = flag();
    let (t, l) = laid(TPL[k], u32_in(1, 100_000) as usize, n1, c1, true);
    if tr {
        let want = one_line(&paint(&l.leaves, &|s| trunc_lit(s, Some(2))));
        expect_str(&call(2, cat(&[ts("@truncate_str = 2,"), t])), &want, "one line, literals truncated");
    } else {
        // every break, with the indentation after it, is one space
        let want = one_line(&l.src);
        expect_str(&call(2, t), &want, "one line");
    }
    cover(&format!("template {k}"));
}

// ---- C22 --------------------------------------------------------------------
/// Where a string literal may stand, and whether it is truncated there.
const HOLD: &[(&str, bool)] = &[
    ("L0", true),
    ("f(L0)", true),
    ("a.b(L0, L0)", true),
    ("[L0; 2]", true),
    ("match x { L0 => L0, _ => y }", true),
    ("{ let x = L0; x }", true),
    ("|x| { if x { L0 } else { y } }", true),
    ("Pt { a: L0 }", true),
    ("m!(L0)", false),
    ("x[L0]? + L0", true),
    ("f(m!(L0), L1)", false),
];
const WIDE: &[char] = &['é', '日', '😀', 'ß', 'Ω'];
/// `n` characters: printable ASCII (symbolic), and at up to two places another one.
fn content(n: usize) -> String {
    let (a, b) = (choice(4), choice(3));
    let mut s = String::new();
    for i in 0..n {
        match (i, a) {
            (0, 1) | (1, 2) => s.push(WIDE[choice(WIDE.len() as u8) as usize]),
            (2, 3) => s.push('\n'),
            _ if i + 1 == n && b == 1 => s.push('日'),
            _ if i + 2 == n && b == 2 => s.push('\n'),
            _ => {
                let c = u8_in(0x20, 0x7e);
                assume((c != b'"') & (c != b'\\') & (c != b'\''));
                s.push(c as char);
            }
        }
    }
    s
}
fn hold(h: &str, v: &str) -> Ts {
    fn go(t: Ts, v: &str) -> Ts {
        t.into_iter()
            .map(|tt| match tt {
                TokenTree::Ident(i) if i == "L0" => Literal::string(v).into(),
                TokenTree::Ident(i) if i == "L1" => Literal::string("0123456789abc").into(),
                TokenTree::Group(g) => Group::new(g.delimiter(), go(g.stream(), v)).into(),
                tt => tt,
            })
            .collect()
    }
    go(ts(h), v)
}
fn trunc(lens: &[usize]) {
    let h = choice(HOLD.len() as u8) as usize;
    let n = lens[choice(lens.len() as u8) as usize];
    // the limit: default, or any around the length
    let m = choice(8);
    let max = match m {
        0 | 1 => None,
        2 => Some(n),
        3 => Some(n.saturating_sub(1)),
        4 => Some(2),
        5 => Some(3),
        6 => Some(n / 2 + 1),
        _ => Some(n.saturating_sub(2)),
    };
    // the number of characters to be kept is defined from two up
    assume(max.is_none_or(|m| m >= 2));
    let v = if h == 0 { content(n) } else { let c = u8_in(b'a', b'z') as char; let mut s = c.to_string().repeat(n); if n > 3 { s.replace_range(1..2, "x日"); } s };
    let opt = match (m, max) {
        (0, _) => Ts::new(),
        (_, None) => ts("@truncate_str,"),
        (_, Some(x)) => cat(&[ts("@truncate_str ="), num(x), ts(",")]),
    };
    let got = call(0, cat(&[opt, hold(HOLD[h].0, &v)]));
    let w = if HOLD[h].1 { trunc_text(&v, max) } else { v.clone() };
    let mut want = hold(HOLD[h].0, &w);
    if HOLD[h].0.contains("L1") {
        want = ts(&format!("f(m!({}), {})", Literal::string(&w), Literal::string(&trunc_text("0123456789abc", max))));
    }
    expect_tokens(&got, &want, "each line of each string literal beyond the limit is shortened to it, nothing else changes");
    cover(HOLD[h].0);
    cover(if w == v { "as it is" } else { "shortened" });
    cover(if max.is_none() { "default limit" } else { "limit" });
}
#[unsafe(no_mangle)]
pub extern "C" fn h_trunc() {
    trunc(&[0, 3, 6, 10, 11, 12])
}
#[unsafe(no_mangle)]
pub extern "C" fn h_trunc_all() {
    trunc(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18])
}

// ---- C24 --------------------------------------------------------------------
/// A line number with every number of digits, and close to where it changes.
fn line_no(wide: bool) -> usize {
    let b = [1, 90, 990, 9990, 99_990, 999_990];
    b[choice(if wide { 6 } else { 5 }) as usize] + u8_in(0, if wide { 20 } else { 12 }) as usize
}
fn pad_opt(p: u8) -> &'static str {
    ["", "@padding = \"top\"", "@padding = \"bottom\"", "@padding = \"both\"", "@padding"][p as usize]
}
fn rows(k: usize, line: usize) -> (Ts, Lay) {
    // k lines
    let (tp, br): (&str, &[usize]) = match k {
        1 => ("f(a)", &[]),
        2 => ("a.b(c)", &[1]),
        3 => ("[a,]", &[1, 3]),
        4 => ("[a, b,]", &[1, 3, 5]),
        5 => ("f(a, b, c)", &[2, 4, 6, 7]),
        6 => ("f(a, b, c, d)", &[2, 4, 6, 8, 9]),
        7 => ("a.b(c).d(e).f(g).h()?", &[1, 5, 9, 13, 15, 16]),
        9 => ("f(\"ab  \n\n  c \n\t\n\", b)", &[4]),
        10 => ("r\"  \n \n\n\".a(b)", &[2]),
        _ => ("f(a, b, c, d, e, g)", &[2, 4, 6, 8, 10, 12, 13]),
    };
    let mut l = Lay::new(line, 8, br.iter().map(|i| (*i, 1, if i % 2 == 0 { 4 } else { 2 })).collect());
    let t = l.lay(ts(tp));
    (t, l)
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gutter() {
    gutter_case([1, 2, 3, 4, 5, 9, 10][choice(7) as usize], line_no(false))
}
#[unsafe(no_mangle)]
pub extern "C" fn h_gutter_all() {
    gutter_case(1 + choice(10) as usize, line_no(true))
}
fn gutter_case(k: usize, line: usize) {
    let nums = flag();
    let p = choice(5);
    let (mut t, mut l) = rows(k, line);
    // blank lines have a gutter too
    if k == 2 {
        l = Lay::new(line, 8, vec![(1, 2, 4)]);
        t = l.lay(ts("a.b(c)"));
    }
    let mut o = vec![];
    if nums {
        o.push("@show_line_num".to_string());
    }
    if p > 0 {
        o.push(pad_opt(p).to_string());
    }
    let o: String = o.iter().map(|x| format!("{x}, ")).collect();
    let body = format!("    {}", l.src);
    let (top, bot) = (p == 1 || p >= 3, p >= 2);
    let want = if nums {
        let (a, b, c) = gutter(&body, line, top, bot);
        format!("{a}{b}{c}")
    } else {
        format!("{}{body}{}", if top { "\n" } else { "" }, if bot { "\n" } else { "" })
    };
    expect_str(&call(1, cat(&[ts(&o), t])), &want, "line numbers and padding");
    cover(if nums { "numbers" } else { "no numbers" });
    cover(if p == 0 { "no padding" } else { pad_opt(p) });
}

// ---- C23 --------------------------------------------------------------------
#[unsafe(no_mangle)]
pub extern "C" fn h_excerpt() {
    let k = 1 + choice(8) as usize;
    let m = choice(12) as usize;
    let p = choice(4);
    let line = [7, 9996, 99_997][choice(3) as usize] + u8_in(0, 3) as usize;
    let (t, l) = rows(k, line);
    let max = if m == 0 { 5 } else { m };
    let mut o = String::new();
    if m > 0 {
        o.push_str(&format!("@excerpt_line = {m}, "));
    }
    if p > 0 {
        o.push_str(&format!("{}, ", pad_opt(p)));
    }
    let (a, b, c) = gutter(&format!("    {}", l.src), line, p == 1 || p == 3, true);
    let want = format!("{a}{}{c}", excerpt(&b, max));
    expect_str(&call(3, cat(&[ts(&o), t])), &want, "first line, an ellipsis if lines are left out, and the last lines");
    cover(["1 row", "2 rows", "3 rows", "4 rows", "5 rows", "6 rows", "7 rows", "8 rows"][k - 1]);
    cover(if k <= max || k == 2 && max > 1 { "all" } else { "left out" });
}
/// Literals in excerpts: their lines, places and truncation.
#[unsafe(no_mangle)]
pub extern "C" fn h_excerpt_lit() {
    excerpt_lit(&[5, 2])
}
#[unsafe(no_mangle)]
pub extern "C" fn h_excerpt_lit_all() {
    excerpt_lit(&[1, 2, 3, 4, 5, 6])
}
fn excerpt_lit(rs: &[usize]) {
    const T: &[&str] = &[
        "f(\"0123456789abc\", \"x\")",
        "f(\"ab\ncd\nef\", g)",
        "f(\"ab\n0123456789abc\")",
        "f(r\"ab\n\ncd\").g(h)",
        "f(b\"0123456789abc\", m!(\"0123456789abc\"))",
        "f(m!(\"ab\ncd\"), \"ab\")",
    ];
    let k = choice(T.len() as u8) as usize;
    let m = choice(5);
    let max = [None, None, Some(2), Some(5), Some(13)][m as usize];
    let rows = rs[choice(rs.len() as u8) as usize];
    let line = [8, 9998][choice(2) as usize] + u8_in(0, 2) as usize;
    let (t, l) = laid(T[k], line, choice(2) as usize, 2, false);
    let mut o = match (m, max) {
        (0, _) => Ts::new(),
        (_, None) => ts("@truncate_str,"),
        (_, Some(x)) => cat(&[ts("@truncate_str ="), num(x), ts(",")]),
    };
    o.extend(cat(&[ts("@excerpt_line ="), num(rows), ts(",")]));
    let (_, b, c) = gutter(&paint(&l.leaves, &|s| trunc_lit(s, max)), line, false, true);
    let want = format!("{}{c}", excerpt(&b, rows));
    expect_str(&call(3, cat(&[o, t])), &want, "an excerpt with string literals");
    cover(&format!("template {k}"));
}

// ---- C27 --------------------------------------------------------------------
const UNKNOWN: &str = "unknown option\n available options:\n- @excerpt_line\n- @truncate_str\n- @show_line_num\n- @padding";
struct Opts {
    lines: Option<usize>,
    trunc: Option<Option<usize>>,
    nums: bool,
    pad: Option<u8>,
}
/// Option texts: effect, or message.
const OPT: &[(&str, Result<u8, &str>)] = &[
    ("@excerpt_line = 2", Ok(0)),
    ("@excerpt_line = 3usize", Ok(1)),
    ("@truncate_str", Ok(2)),
    ("@truncate_str = 4", Ok(3)),
    ("@show_line_num", Ok(4)),
    ("@padding", Ok(5)),
    ("@padding = \"top\"", Ok(6)),
    ("@padding = \"bottom\"", Ok(7)),
    ("@padding = \"both\"", Ok(8)),
    ("@excerpt_line", Err("@excerpt_line requires a value")),
    ("@excerpt_line = \"3\"", Err("@excerpt_line requires an integer value")),
    ("@excerpt_line = 1.5", Err("@excerpt_line requires an integer value")),
    ("@truncate_str = \"3\"", Err("@truncate_str requires an integer value")),
    ("@truncate_str = true", Err("@truncate_str requires an integer value")),
    ("@padding = \"middle\"", Err("@padding requires \"top\", \"bottom\" or \"both\"")),
    ("@padding = \"\"", Err("@padding requires \"top\", \"bottom\" or \"both\"")),
    ("@padding = 1", Err("@padding requires a string value")),
    ("@padding = 'c'", Err("@padding requires a string value")),
    ("@padding = b\"top\"", Err("@padding requires a string value")),
    ("@max_len = 36", Err(UNKNOWN)),
    ("@Padding", Err(UNKNOWN)),
];
fn apply(o: &mut Opts, k: u8) {
    match k {
        0 => o.lines = Some(2),
        1 => o.lines = Some(3),
        2 => o.trunc = Some(None),
        3 => o.trunc = Some(Some(4)),
        4 => o.nums = true,
        5 => o.pad = Some(2),
        k => o.pad = Some(k - 6),
    }
}
const EX: &str = "f(\"0123456789abc\", a, b)";
fn ex(line: usize) -> (Ts, Lay) {
    let mut l = Lay::new(line, 4, vec![(2, 1, 8), (4, 1, 8), (6, 1, 8), (7, 1, 4)]);
    let t = l.lay(ts(EX));
    (t, l)
}
fn opts_case(n: usize) {
    let mac = choice(4);
    let line = 41;
    let (t, l) = ex(line);
    let mut o = Opts { lines: None, trunc: None, nums: false, pad: None };
    let mut toks = vec![];
    let mut err = None;
    for i in 0..n {
        let k = choice(OPT.len() as u8) as usize;
        toks.push(ts(OPT[k].0));
        // an option with a value needs nothing after it
        let bare = !OPT[k].0.contains('=');
        let sep = match n {
            3 => ((k + i) % 3) as u8 % if i == 2 { 3 } else { 2 },
            _ if i + 1 == n => choice(3),
            _ => choice(2),
        };
        let sep = match sep {
            1 if !bare => "",
            2 => ";",
            _ => ",",
        };
        toks.push(ts(sep));
        if err.is_none() {
            match OPT[k].1 {
                Ok(e) => apply(&mut o, e),
                Err(m) => err = Some(m),
            }
        }
        cover(OPT[k].0);
    }
    toks.push(t);
    let got = call(mac, cat(&toks));
    if let Some(m) = err {
        return expect_err(&got, m, "a malformed option is an error");
    }
    let (top, bot) = (matches!(o.pad, Some(0 | 2)), matches!(o.pad, Some(1 | 2)));
    let msg = "each option has its effect, in any order and combination, the last one counts";
    match mac {
        0 => expect_tokens(&got, &ts(&EX.replace("\"0123456789abc\"", &trunc_lit("\"0123456789abc\"", o.trunc.flatten()))), msg),
        1 => {
            let b = format!("    {}", l.src);
            let want = if o.nums {
                let (a, b, c) = gutter(&b, line, top, bot);
                format!("{a}{b}{c}")
            } else {
                format!("{}{b}{}", if top { "\n" } else { "" }, if bot { "\n" } else { "" })
            };
            expect_str(&got, &want, msg)
        }
        2 => {
            let want = one_line(&match o.trunc {
                None => paint(&l.leaves, &|s| s.to_string()),
                Some(m) => paint(&l.leaves, &|s| trunc_lit(s, m)),
            });
            expect_str(&got, &want, msg)
        }
        _ => {
            let b = paint(&l.leaves, &|s| trunc_lit(s, o.trunc.flatten()));
            let (a, b, c) = gutter(&b, line, top, true);
            expect_str(&got, &format!("{a}{}{c}", excerpt(&b, o.lines.unwrap_or(5))), msg)
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opts() {
    opts_case([0, 1, 2][choice(3) as usize])
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opts3() {
    opts_case(3)
}
/// Any other name of an option, any other padding.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_names() {
    let k = choice(3);
    let n = [1, 3, 7, 12, 13][choice(5) as usize];
    cover(&format!("k{k} n{n}"));
    let mac = choice(4);
    let (t, _) = ex(3);
    let mut e = Env::default();
    let o = if k < 2 {
        let s = sym_ident(n);
        for w in ["padding", "excerpt_line", "truncate_str", "show_line_num", "try", "pub", "mod", "use", "let", "for", "mut", "ref", "dyn", "box", "abstract", "continue", "override", "typeof", "unsized", "virtual"] {
            if w.len() == n {
                assume(s != w);
            }
        }
        assume(n > 1 || s != "_");
        e.add("Zz9", s);
        ts(if k == 0 { "@Zz9," } else { "@Zz9 = 1," })
    } else {
        let s = sym_text(n);
        if n > 3 {
            s.bytes().for_each(|c| assume(c != b'\''));
        }
        for w in ["top", "bottom", "both"] {
            if w.len() == n {
                assume(s != w);
            }
        }
        e.add("Zz9", s);
        ts("@padding = \"Zz9\",")
    };
    let got = call(mac, cat(&[e.subst(o), t]));
    expect_err(&got, if k < 2 { UNKNOWN } else { "@padding requires \"top\", \"bottom\" or \"both\"" }, "an unknown option or padding is an error");
    cover(["name", "name with value", "padding"][k as usize]);
}
/// Zero lines, numbers beyond `usize`, missing or doubled expressions.
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_bad() {
    const B: &[&str] = &[
        "@excerpt_line = -1,", "@excerpt_line = 99999999999999999999999,", "@truncate_str = -1,", "@truncate_str = 18446744073709551616,", "@", "@padding =", "@padding = ,", "@1,",
        "@padding", "@show_line_num", "@truncate_str", "@padding = x,", "@truncate_str = n,", "@excerpt_line 3,", "padding = \"top\", @", ";;", ",", "@show_line_num,,", "@show_line_num ; ;",
        "a,", "a;", "a b",
    ];
    let k = choice(B.len() as u8) as usize;
    let mac = choice(4);
    let (t, _) = ex(3);
    expect_any_err(&call(mac, cat(&[ts(B[k]), t])), "malformed input is an error");
    cover(B[k]);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_opt_none() {
    let mac = choice(4);
    let o = ["", "@show_line_num,", "@padding = \"top\"", ";", "@truncate_str;"][choice(5) as usize];
    expect_any_err(&call(mac, ts(o)), "there has to be an expression");
    let (t, _) = ex(3);
    let got = call(3, cat(&[ts("@excerpt_line = 0,"), t]));
    expect_err(&got, "excerpted_line_num must be greater than or equal to 1", "no lines at all is an error");
    cover("no expression");
}
#[allow(dead_code)]
fn _unused(_: Punct, _: TokenStream) {}
