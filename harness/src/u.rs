//! Utilities shared by the harnesses.
use proc_macro2::{Delimiter, Group, Ident, Literal, Span, TokenStream, TokenTree};
use std::str::FromStr;
use vs::*;

pub type Ts = TokenStream;

pub fn ts(s: &str) -> Ts {
    match TokenStream::from_str(s) {
        Ok(t) => t,
        Err(_) => panic!("harness text does not lex: {s}"),
    }
}

// ---- the real entry points ------------------------------------------------
pub fn hooq(attr: Ts, item: Ts) -> Ts {
    hq::hooq(attr.into(), item.into()).into()
}
pub fn hooq_cq(attr: Ts, item: Ts) -> Ts {
    hqcq::hooq(attr.into(), item.into()).into()
}

/// The message if the stream is a `compile_error!` invocation.
pub fn err_of(t: &Ts) -> Option<String> {
    let mut it = t.clone().into_iter();
    loop {
        match it.next()? {
            TokenTree::Ident(i) if i == "compile_error" => break,
            TokenTree::Ident(i) if i == "core" => {}
            TokenTree::Punct(p) if p.as_char() == ':' => {}
            _ => return None,
        }
    }
    it.next()?;
    match it.next()? {
        TokenTree::Group(g) => match g.stream().into_iter().next()? {
            TokenTree::Literal(l) => Some(unquote(&l.to_string())),
            _ => None,
        },
        _ => None,
    }
}
/// Value of a plain string literal (only simple escapes).
pub fn unquote(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = String::new();
    let inner = &s[1..b.len() - 1];
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some('r') => out.push('\r'),
                Some('0') => out.push('\0'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}

// ---- non-branching token comparison ----------------------------------------
pub fn flatten(t: &Ts) -> Vec<u8> {
    let mut o = vec![];
    flat(t, &mut o);
    o
}
fn flat(t: &Ts, o: &mut Vec<u8>) {
    for tt in t.clone() {
        match tt {
            TokenTree::Ident(i) => o.extend_from_slice(i.to_string().as_bytes()),
            TokenTree::Punct(p) => o.push(p.as_char() as u8),
            TokenTree::Literal(l) => o.extend_from_slice(l.to_string().as_bytes()),
            TokenTree::Group(g) => {
                let (a, b) = delim(g.delimiter());
                o.extend_from_slice(a.as_bytes());
                o.push(0);
                flat(&g.stream(), o);
                o.extend_from_slice(b.as_bytes());
            }
        }
        o.push(0);
    }
}

// ---- symbolic names ---------------------------------------------------------
/// `prefix` followed by `n` symbolic lower-case letters.
pub fn sym_name(prefix: &str, n: usize) -> String {
    let mut b = prefix.as_bytes().to_vec();
    for _ in 0..n {
        b.push(u8_in(b'a', b'z'));
    }
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

/// Placeholders: identifiers (also inside string literals) replaced by values.
#[derive(Clone, Default)]
pub struct Env(pub Vec<(&'static str, String)>, pub Vec<(&'static str, usize)>);
impl Env {
    /// `ph` stands for the literal `<n>usize`.
    pub fn num(&mut self, ph: &'static str, n: usize) {
        self.1.push((ph, n));
    }
    pub fn add(&mut self, ph: &'static str, val: String) {
        self.0.push((ph, val));
    }
    pub fn get(&self, s: &str) -> String {
        for (p, v) in &self.0 {
            if *p == s {
                return v.clone();
            }
        }
        s.to_string()
    }
    /// Textual replacement inside a (concrete) string, in one pass.
    pub fn text(&self, s: &str) -> String {
        let b = s.as_bytes();
        let mut out: Vec<u8> = Vec::with_capacity(b.len());
        let mut i = 0;
        'o: while i < b.len() {
            for (p, v) in self.0.iter().rev() {
                let p = p.as_bytes();
                if b[i] == p[0] && b.len() - i >= p.len() && &b[i..i + p.len()] == p {
                    out.extend_from_slice(v.as_bytes());
                    i += p.len();
                    continue 'o;
                }
            }
            out.push(b[i]);
            i += 1;
        }
        unsafe { String::from_utf8_unchecked(out) }
    }
    pub fn subst(&self, t: Ts) -> Ts {
        if self.0.is_empty() && self.1.is_empty() {
            return t;
        }
        let mut out: Vec<TokenTree> = Vec::new();
        for tt in t {
            match tt {
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    let mut r = None;
                    for (p, v) in &self.0 {
                        if *p == s {
                            r = Some(v);
                        }
                    }
                    if let Some((_, n)) = self.1.iter().find(|x| x.0 == s) {
                        out.push(Literal::usize_suffixed(*n).into());
                        continue;
                    }
                    match r {
                        Some(v) => out.push(Ident::new(v, i.span()).into()),
                        None => out.push(TokenTree::Ident(i)),
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    let mut hit = false;
                    if s.starts_with('"') {
                        for (p, _) in &self.0 {
                            hit |= find(s.as_bytes(), p.as_bytes(), 0).is_some();
                        }
                    }
                    if hit {
                        let mut n = Literal::string(&self.text(&unquote(&s)));
                        n.set_span(l.span());
                        out.push(n.into());
                    } else {
                        out.push(TokenTree::Literal(l));
                    }
                }
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), self.subst(g.stream()));
                    n.set_span(g.span());
                    out.push(n.into());
                }
                t => out.push(t),
            }
        }
        out.into_iter().collect()
    }
}
/// First occurrence of `n` in `h` from `from` (concrete bytes).
fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while i + n.len() <= h.len() {
        if h[i] == n[0] && &h[i..i + n.len()] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// Every token (recursively) with its position, for span assignment.
pub fn map_tokens(t: Ts, f: &mut dyn FnMut(TokenTree) -> TokenTree) -> Ts {
    let mut out: Vec<TokenTree> = Vec::new();
    for tt in t {
        let tt = match tt {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), map_tokens(g.stream(), f));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        };
        out.push(f(tt));
    }
    out.into_iter().collect()
}
pub fn delim(d: Delimiter) -> (&'static str, &'static str) {
    match d {
        Delimiter::Parenthesis => ("(", ")"),
        Delimiter::Brace => ("{", "}"),
        Delimiter::Bracket => ("[", "]"),
        Delimiter::None => ("", ""),
    }
}

/// Expect exactly `want` from the macro.
pub fn expect_tokens(got: &Ts, want: &Ts, msg: &str) {
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}\nWANT {want}");
    }
    let g = flatten(got);
    log_bytes(&g);
    check_same(&g, &flatten(want), msg);
}

/// The literal inside a `compile_error!` invocation, as written.
pub fn err_lit(t: &Ts) -> Option<String> {
    let mut it = t.clone().into_iter();
    loop {
        match it.next()? {
            TokenTree::Ident(i) if i == "compile_error" => break,
            TokenTree::Ident(i) if i == "core" => {}
            TokenTree::Punct(p) if p.as_char() == ':' => {}
            _ => return None,
        }
    }
    it.next()?;
    match it.next()? {
        TokenTree::Group(g) => match g.stream().into_iter().next()? {
            TokenTree::Literal(l) => Some(l.to_string()),
            _ => None,
        },
        _ => None,
    }
}
/// Expect a compile error with this message.
pub fn expect_err(got: &Ts, want: &str, msg: &str) {
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}\nWANT error {want}");
    }
    match err_lit(got) {
        Some(l) => {
            log_bytes(l.as_bytes());
            check_same(l.as_bytes(), Literal::string(want).to_string().as_bytes(), msg)
        }
        None => check(false, msg),
    }
}
/// Expect some compile error.
pub fn expect_any_err(got: &Ts, msg: &str) {
    if !is_symbolic() && std::env::var_os("VSYM_SHOW").is_some() {
        println!("GOT  {got}\nWANT an error");
    }
    if let Some(l) = err_lit(got) {
        log_bytes(l.as_bytes());
    }
    let g = flatten(got);
    let w = flatten(&ts("::core::compile_error!"));
    check_same(&g[..g.len().min(w.len())], &w, msg);
}
/// `n` symbolic printable characters without `"` and `\`.
pub fn sym_text(n: usize) -> String {
    let mut b = vec![];
    for _ in 0..n {
        let c = u8_in(0x20, 0x7e);
        assume((c != b'"') & (c != b'\\'));
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
/// An identifier of `n` symbolic letters, digits and underscores.
pub fn sym_ident(n: usize) -> String {
    let mut b = vec![];
    for i in 0..n {
        let c = u8_in(b'0', b'z');
        let l = (c >= b'a') | ((c >= b'A') & (c <= b'Z')) | (c == b'_');
        assume(if i == 0 { l & (c != b'_') } else { l | (c <= b'9') });
        b.push(c);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
