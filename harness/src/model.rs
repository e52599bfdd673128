//! Reference semantics of `#[hooq]`, written from the documentation
//! (docs/en/.../reference): a small program syntax, its source text, and the
//! text the macro has to produce for it.  It shares no code with /repo.
use crate::u::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type S = String;

#[derive(Clone)]
pub enum A {
    /// tokens inside `#[hooq::method(…)]`
    Method(S),
    Targets(Vec<&'static str>),
    Idents(Vec<S>),
    Ignore(Vec<S>),
    Results(Vec<S>),
    Macros(bool),
    /// name, expression, form (0: `binding(..)`, 1: `var(..)`, 2: `hooq::x =`)
    Bind(S, S, u8),
    Skip,
    SkipAll,
    /// any attribute that is not hooq's
    Keep(S),
    /// `#[hooq::<setting> = <flavor>]` with the settings that it brings
    Flavor(&'static str, S, Rc<Cx>),
}
fn lits(v: &[S]) -> S {
    v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(",")
}
impl A {
    fn src(&self) -> S {
        match self {
            A::Method(m) => format!("#[hooq::method({m})]"),
            A::Targets(t) => format!("#[hooq::hook_targets({})]", lits(&t.iter().map(|s| s.to_string()).collect::<Vec<_>>())),
            A::Idents(t) => format!("#[hooq::tail_expr_idents({})]", lits(t)),
            A::Ignore(t) => format!("#[hooq::ignore_tail_expr_idents({})]", lits(t)),
            A::Results(t) => format!("#[hooq::result_types({})]", lits(t)),
            A::Macros(b) => format!("#[hooq::hook_in_macros({b})]"),
            A::Bind(k, v, 0) => format!("#[hooq::binding({k} = {v})]"),
            A::Bind(k, v, 1) => format!("#[hooq::var({k} = {v})]"),
            A::Bind(k, v, _) => format!("#[hooq::{k} = {v}]"),
            A::Skip => "#[hooq::skip]".into(),
            A::SkipAll => "#[hooq::skip_all]".into(),
            A::Keep(s) => s.clone(),
            A::Flavor(set, f, _) => format!("#[hooq::{set} = {f}]"),
        }
    }
}
pub fn asrc(a: &[A]) -> S {
    a.iter().map(|x| x.src()).collect::<Vec<_>>().join(" ")
}
/// the attributes that survive
pub fn kept(a: &[A]) -> S {
    a.iter()
        .filter(|x| matches!(x, A::Keep(_)))
        .map(|x| x.src())
        .collect::<Vec<_>>()
        .join(" ")
}

#[derive(Clone)]
pub enum P {
    T(S),
    H(E),
    /// attributes in front of fragments (struct fields)
    A(Vec<A>, Vec<P>),
}
#[derive(Clone)]
pub enum E {
    /// fragments and sub-expressions, walked in order
    Seq(Vec<A>, Vec<P>),
    /// the same, for an expression that binds looser than a method call
    Low(Vec<A>, Vec<P>),
    /// `path(args)`; the second field is the last segment of the path
    Call(Vec<A>, S, S, Vec<E>),
    Try(Vec<A>, Box<E>),
    Ret(Vec<A>, Option<Box<E>>),
    /// pre, block body, post (walked in the block's scope: `else`)
    Body(Vec<A>, Vec<P>, Vec<St>, Vec<P>),
    /// head text, last segment of the declared return type, body
    Clo(Vec<A>, S, Option<S>, CB),
    Match(Vec<A>, Box<E>, Vec<Arm>),
    /// path, delimiters, (argument, separator), is it Rust code?
    Mac(Vec<A>, S, (S, S), Vec<(MA, S)>),
}
#[derive(Clone)]
pub enum CB {
    Block(Vec<St>),
    Expr(Box<E>),
}
#[derive(Clone)]
pub struct Arm {
    pub pat: S,
    pub guard: Option<E>,
    pub body: E,
}
#[derive(Clone)]
pub enum MA {
    E(E),
    I(I),
    St(St),
    /// not Rust code: the whole macro is left alone
    Raw(S),
}
#[derive(Clone)]
pub enum St {
    Let(Vec<A>, S, E, Option<Vec<St>>),
    Semi(E),
    Tail(E),
    Item(I),
    Raw(S),
    /// macro in statement position with `;`
    Mac(E, bool),
}
#[derive(Clone)]
pub struct F {
    pub attrs: Vec<A>,
    pub pre: S,
    pub name: S,
    /// parameters with parentheses
    pub params: S,
    pub ret: Option<S>,
    pub ret_last: Option<S>,
    pub body: Vec<St>,
}
#[derive(Clone)]
pub enum I {
    Fn(F),
    /// attrs, head, items (impl, mod, trait)
    Group(Vec<A>, S, Vec<I>),
    /// attrs, `const X: u8 =`, init
    Const(Vec<A>, S, E),
    /// macro in item position: attrs, path, (open, close), items, trailing
    Mac(Vec<A>, S, (S, S), Vec<I>, S),
    Raw(S),
}

// ---- context ---------------------------------------------------------------
pub struct MNode {
    pub tmpl: S,
    pub parent: Option<Rc<MNode>>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Skip {
    No,
    Same,
    All,
}
#[derive(Clone)]
pub struct Fi {
    pub name: S,
    pub sig: S,
    pub ret_last: Option<S>,
    pub is_fn: bool,
}
#[derive(Clone)]
pub struct Cx {
    pub method: Rc<MNode>,
    pub targets: [bool; 3],
    pub idents: Vec<S>,
    pub ignore: Vec<S>,
    pub results: Vec<S>,
    pub macros: bool,
    pub binds: BTreeMap<S, S>,
    pub skip: Skip,
    pub func: Option<Fi>,
    /// name of the innermost enclosing named function
    pub named: Option<S>,
}
impl Cx {
    pub fn defaults(tmpl: &str) -> Cx {
        Cx {
            method: Rc::new(MNode { tmpl: tmpl.into(), parent: None }),
            targets: [true; 3],
            idents: vec!["Err".into()],
            ignore: vec!["Ok".into()],
            results: vec!["Result".into()],
            macros: true,
            binds: BTreeMap::new(),
            skip: Skip::No,
            func: None,
            named: None,
        }
    }
    fn with_method(&mut self, t: &S) {
        self.method = Rc::new(MNode { tmpl: t.clone(), parent: Some(self.method.clone()) });
    }
    /// The settings inside an element carrying `attrs`.
    pub fn with(&self, attrs: &[A]) -> Cx {
        let mut c = self.clone();
        let mut ign: Option<Vec<S>> = None;
        let mut method: Option<S> = None;
        let mut skip = None;
        for a in attrs {
            match a {
                A::Method(m) => method = Some(m.clone()),
                A::Targets(t) => {
                    c.targets = [false; 3];
                    for s in t {
                        match *s {
                            "?" | "question" => c.targets[0] = true,
                            "return" => c.targets[1] = true,
                            "tail_expr" | "tail expr" | "tailexpr" | "tailExpr" => c.targets[2] = true,
                            "all" => c.targets = [true; 3],
                            _ => panic!("harness: bad target"),
                        }
                    }
                }
                A::Idents(t) => {
                    let mut inc = vec![];
                    let mut exc = vec![];
                    for s in t {
                        match s.strip_prefix('!') {
                            Some(x) => exc.push(x.to_string()),
                            None => inc.push(s.clone()),
                        }
                    }
                    c.idents = inc;
                    if let Some(v) = &mut ign {
                        v.extend(exc);
                    } else if !exc.is_empty() {
                        ign = Some(exc);
                    }
                }
                A::Ignore(t) => match &mut ign {
                    Some(v) => v.extend(t.iter().cloned()),
                    None => ign = Some(t.clone()),
                },
                A::Results(t) => c.results = t.clone(),
                A::Macros(b) => c.macros = *b,
                A::Bind(k, v, _) => {
                    c.binds.insert(k.clone(), v.clone());
                }
                A::Skip => {
                    if skip.is_none() {
                        skip = Some(Skip::Same)
                    }
                }
                A::SkipAll => skip = Some(Skip::All),
                A::Keep(_) => {}
                A::Flavor(set, _, f) => match *set {
                    "flavor" => {
                        method = Some(f.method.tmpl.clone());
                        c.targets = f.targets;
                        c.idents = f.idents.clone();
                        ign = Some(f.ignore.clone());
                        c.results = f.results.clone();
                        c.macros = f.macros;
                        c.binds.extend(f.binds.clone());
                    }
                    "method" => method = Some(f.method.tmpl.clone()),
                    "hook_targets" => c.targets = f.targets,
                    "tail_expr_idents" => {
                        c.idents = f.idents.clone();
                        ign = Some(f.ignore.clone());
                    }
                    "result_types" => c.results = f.results.clone(),
                    "hook_in_macros" => c.macros = f.macros,
                    "bindings" => c.binds.extend(f.binds.clone()),
                    _ => panic!("harness: bad setting"),
                },
            }
        }
        if let Some(m) = &method {
            c.with_method(m);
        }
        if let Some(v) = ign {
            c.ignore = v;
        }
        match skip {
            Some(Skip::All) => c.skip = Skip::All,
            Some(_) if c.skip != Skip::All => c.skip = Skip::Same,
            _ => {}
        }
        c
    }
    pub fn sub(&self) -> Cx {
        let mut c = self.clone();
        if c.skip != Skip::All {
            c.skip = Skip::No;
        }
        c
    }
}

// ---- source text -------------------------------------------------------------
fn psrc(p: &[P]) -> S {
    let mut o = S::new();
    for x in p {
        match x {
            P::T(t) => o += t,
            P::H(e) => o += &src(e),
            P::A(a, p) => o += &format!("{} {}", asrc(a), psrc(p)),
        }
        o.push(' ');
    }
    o
}
pub fn src(e: &E) -> S {
    let (a, b) = src2(e);
    format!("{} {b}", asrc(a))
}
/// own attributes, text without them
fn src2(e: &E) -> (&[A], S) {
    match e {
        E::Seq(a, p) | E::Low(a, p) => (a, psrc(p)),
        E::Call(a, f, _, args) => (a, format!("{f}({})", args.iter().map(src).collect::<Vec<_>>().join(","))),
        E::Try(a, e) => (a, format!("{}?", src(e))),
        E::Ret(a, e) => (a, format!("return {}", e.as_ref().map(|e| src(e)).unwrap_or_default())),
        E::Body(a, pre, st, post) => (a, format!("{} {{ {} }} {}", psrc(pre), stsrc(st), psrc(post))),
        E::Clo(a, head, _, CB::Block(st)) => (a, format!("{head} {{ {} }}", stsrc(st))),
        E::Clo(a, head, _, CB::Expr(e)) => (a, format!("{head} {}", src(e))),
        E::Match(a, s, arms) => (a, format!("match {} {{ {} }}", src(s), arms.iter().map(armsrc).collect::<Vec<_>>().join(" "))),
        E::Mac(a, p, (o, c), args) => {
            let mut t = S::new();
            for (m, sep) in args {
                t += &match m {
                    MA::E(e) => src(e),
                    MA::I(i) => isrc(i),
                    MA::St(s) => stsrc(std::slice::from_ref(s)),
                    MA::Raw(r) => r.clone(),
                };
                t += sep;
            }
            (a, format!("{p}!{o}{t}{c}"))
        }
    }
}
fn armsrc(a: &Arm) -> S {
    let g = a.guard.as_ref().map(|g| format!("if {}", src(g))).unwrap_or_default();
    format!("{} {g} => {},", a.pat, src(&a.body))
}
pub fn stsrc(st: &[St]) -> S {
    let mut o = S::new();
    for s in st {
        match s {
            St::Let(a, p, e, els) => {
                o += &format!("{} let {p} = {}", asrc(a), src(e));
                if let Some(b) = els {
                    o += &format!(" else {{ {} }}", stsrc(b));
                }
                o.push(';');
            }
            St::Semi(e) => {
                o += &src(e);
                o.push(';');
            }
            St::Tail(e) => o += &src(e),
            St::Item(i) => o += &isrc(i),
            St::Raw(r) => o += r,
            St::Mac(e, semi) => {
                o += &src(e);
                if *semi {
                    o.push(';');
                }
            }
        }
        o.push('\n');
    }
    o
}
pub fn sig(f: &F) -> S {
    let r = f.ret.as_ref().map(|r| format!("-> {r}")).unwrap_or_default();
    format!("{} fn {}{} {r}", f.pre, f.name, f.params)
}
pub fn isrc(i: &I) -> S {
    match i {
        I::Fn(f) => format!("{} {} {{ {} }}\n", asrc(&f.attrs), sig(f), stsrc(&f.body)),
        I::Group(a, h, items) => format!("{} {h} {{ {} }}\n", asrc(a), items.iter().map(isrc).collect::<S>()),
        I::Const(a, h, e) => format!("{} {h} {};", asrc(a), src(e)),
        I::Mac(a, p, (o, c), items, t) => format!("{} {p}!{o}{}{c}{t}", asrc(a), items.iter().map(isrc).collect::<S>()),
        I::Raw(r) => r.clone(),
    }
}

// ---- expected text ---------------------------------------------------------
#[derive(Default)]
pub struct Ref {
    /// feature consume-question
    pub cq: bool,
    /// the hook ended in `!`
    eaten: bool,
    pub env: Env,
    pub counts: [usize; 3],
    pub hooked: usize,
}
pub fn ordinal(n: usize) -> S {
    let suffix = if (n / 10) % 10 == 1 {
        "th"
    } else {
        match n % 10 {
            1 => "st",
            2 => "nd",
            3 => "rd",
            _ => "th",
        }
    };
    format!("{n}{suffix}")
}
const KIND: [&str; 3] = ["?", "return", "tail expr"];
#[derive(Clone, Copy, PartialEq)]
enum Tk {
    Fn,
    Block,
    No,
}

struct Hook<'a> {
    expr: &'a str,
    source: &'a str,
    kind: usize,
    n: usize,
    cx: &'a Cx,
}

impl Ref {
    pub fn new(env: Env) -> Ref {
        Ref { env, ..Default::default() }
    }
    /// the hook's text, and whether it consumes the `?`
    fn tm<'a>(&self, n: &'a MNode) -> (&'a str, bool) {
        let t = n.tmpl.trim();
        match t.strip_suffix('!') {
            Some(r) if self.cq => (r.trim(), true),
            _ => (t, false),
        }
    }
    fn any(&self, list: &[S], name: &str) -> bool {
        let n = self.env.get(name);
        let mut r = false;
        for x in list {
            let x = self.env.text(x);
            r |= x == n;
        }
        r
    }
    fn expand(&self, t: &str, h: &Hook, node: &Rc<MNode>) -> S {
        let b = t.as_bytes();
        let mut o = S::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] != b'$' {
                let st = i;
                while i < b.len() && b[i] != b'$' {
                    // `$` inside literals is just text
                    if b[i] == b'"' {
                        i += 1;
                        while b[i] != b'"' {
                            i += 1;
                        }
                    } else if b[i] == b'\'' && b.get(i + 2) == Some(&b'\'') {
                        i += 2;
                    }
                    i += 1;
                }
                o += &t[st..i];
                continue;
            }
            let st = i + 1;
            i = st;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            o += &self.meta(&t[st..i], h, node);
        }
        o
    }
    fn binds(&self, h: &Hook) -> S {
        let v: Vec<S> = h
            .cx
            .binds
            .iter()
            .map(|(k, v)| {
                format!(
                    "(::std::string::ToString::to_string({k:?}), {{ let expr = ::std::string::ToString::to_string({:?}); let value: ::std::rc::Rc<dyn ::std::any::Any> = ::std::rc::Rc::new({v}); ::hooq::BindingPayload {{ expr, value, }} }})",
                    ts(v).to_string()
                )
            })
            .collect();
        format!("::std::collections::HashMap::from([{}])", v.join(","))
    }
    fn meta(&self, name: &str, h: &Hook, node: &Rc<MNode>) -> S {
        match name {
            "expr" => h.expr.to_string(),
            "line" => format!("LN{}", h.kind),
            "column" | "col" => format!("CO{}", h.kind),
            "path" => format!("\"PA{}\"", h.kind),
            "file" => format!("\"FI{}\"", h.kind),
            "hooq_meta" | "hooqmeta" => {
                let m = |n: &str| self.meta(n, h, node);
                format!(
                    "::hooq::HooqMeta {{ line: {}, column: {}, path: {}, file: {}, source_str: {:?}, count: {}, bindings: {}, }}",
                    m("line"), m("col"), m("path"), m("file"), ts(h.source).to_string(), m("nth"), m("bindings")
                )
            }
            "source" => h.source.to_string(),
            "nth" | "count" => format!("{:?}", format!("{} {}", ordinal(h.n), KIND[h.kind])),
            "fn_name" | "fnname" => format!("{:?}", h.cx.func.as_ref().map(|f| f.name.clone()).unwrap_or("<unknown>".into())),
            "fn_sig" | "fnsig" => format!(
                "{:?}",
                h.cx.func.as_ref().map(|f| ts(&f.sig.replace("||", "| |")).to_string()).unwrap_or("<unknown>".into())
            ),
            "so_far" | "sofar" => {
                let p = node.parent.as_ref().expect("harness: so_far without ancestor");
                let t = self.tm(p).0;
                let t = t.strip_prefix('.').unwrap_or(t);
                self.expand(t, h, p)
            }
            "bindings" | "vars" => self.binds(h),
            _ => match h.cx.binds.get(name) {
                Some(v) => v.clone(),
                None => panic!("harness: unknown meta {name}"),
            },
        }
    }
    /// Hooks an operand: `skipped` decides whether the target exists at all.
    fn hook(&mut self, skipped: bool, kind: usize, low: bool, expr: S, source: &str, cx: &Cx) -> S {
        self.eaten = false;
        if skipped {
            return expr;
        }
        self.counts[kind] += 1;
        if !cx.targets[kind] {
            return expr;
        }
        self.hooked += 1;
        let h = Hook { expr: &expr, source, kind, n: self.counts[kind], cx };
        let (t, eat) = self.tm(&cx.method);
        self.eaten = eat;
        match t.strip_prefix('.') {
            Some(rest) if low => format!("({expr}) .{}", self.expand(rest, &h, &cx.method)),
            Some(rest) => format!("{expr} .{}", self.expand(rest, &h, &cx.method)),
            None => self.expand(t, &h, &cx.method),
        }
    }
    fn ps(&mut self, p: &[P], cx: &Cx) -> S {
        let mut o = S::new();
        for x in p {
            match x {
                P::T(t) => o += t,
                P::H(e) => o += &self.ex(e, cx),
                P::A(a, p) => {
                    let c = cx.with(a);
                    o += &format!("{} {}", kept(a), self.ps(p, &c));
                }
            }
            o.push(' ');
        }
        o
    }
    pub fn ex(&mut self, e: &E, cx: &Cx) -> S {
        match e {
            E::Seq(a, p) | E::Low(a, p) => {
                let c = cx.with(a);
                format!("{} {}", kept(a), self.ps(p, &c))
            }
            E::Call(a, f, _, args) => {
                let c = cx.with(a);
                let v: Vec<S> = args.iter().map(|x| self.ex(x, &c)).collect();
                format!("{} {f}({})", kept(a), v.join(","))
            }
            E::Try(a, inner) => {
                let c = cx.with(a);
                let source = format!("{} {}", kept(a), src2(e).1);
                let i = self.ex(inner, &c);
                let h = self.hook(c.skip != Skip::No, 0, false, i, &source, &c);
                format!("{} {h}{}", kept(a), if self.eaten { "" } else { "?" })
            }
            E::Ret(a, None) => format!("{} return", kept(a)),
            E::Ret(a, Some(inner)) => {
                let c = cx.with(a);
                let source = format!("{} {}", kept(a), src2(e).1);
                let mut i = self.ex(inner, &c);
                if self.is_tail_target(inner, &c, true) {
                    i = self.hook(c.skip != Skip::No, 1, low(inner), i, &source, &c);
                }
                format!("{} return {i}", kept(a))
            }
            E::Body(a, pre, st, post) => {
                let c = cx.with(a);
                let p = self.ps(pre, &c);
                let c = c.sub();
                let s = self.sts(st, &c, Tk::Block);
                let q = self.ps(post, &c);
                format!("{} {p} {{ {s} }} {q}", kept(a))
            }
            E::Clo(a, head, ret_last, body) => {
                let mut c = cx.with(a);
                let anc = c.named.clone().unwrap_or("<unknown>".into());
                c.func = Some(Fi {
                    name: format!("__closure_in_{anc}__"),
                    sig: format!("{} {head} {{}}", kept(a)),
                    ret_last: ret_last.clone(),
                    is_fn: false,
                });
                let b = match body {
                    CB::Block(st) => {
                        let c = c.sub();
                        format!("{{ {} }}", self.sts(st, &c, Tk::Fn))
                    }
                    CB::Expr(e) => self.tail(e, &c, Tk::Fn),
                };
                format!("{} {head} {b}", kept(a))
            }
            E::Match(a, s, arms) => {
                let c = cx.with(a);
                let sc = self.ex(s, &c);
                let c = c.sub();
                let mut o = S::new();
                for arm in arms {
                    o += &arm.pat;
                    if let Some(g) = &arm.guard {
                        o += &format!(" if {}", self.ex(g, &c));
                    }
                    o += " => ";
                    o += &match &arm.body {
                        b @ E::Body(_, p, _, _) if p.is_empty() => self.ex(b, &c),
                        b => self.tail(b, &c, Tk::Block),
                    };
                    o += ", ";
                }
                format!("{} match {sc} {{ {o} }}", kept(a))
            }
            E::Mac(a, p, (o, cl), args) => {
                let c = cx.with(a);
                let rust = !args.iter().any(|(m, _)| matches!(m, MA::Raw(_)));
                if !c.macros || !rust {
                    return format!("{} {}", kept(a), src2(e).1);
                }
                let mut t = S::new();
                for (m, sep) in args {
                    t += &match m {
                        MA::E(e) => self.ex(e, &c),
                        MA::I(i) => self.item(i, &c),
                        MA::St(s) => self.sts(std::slice::from_ref(s), &c, Tk::No),
                        MA::Raw(r) => r.clone(),
                    };
                    t += sep;
                }
                format!("{} {p}!{o}{t}{cl}", kept(a))
            }
        }
    }
    /// `ret`: a `return` operand or the tail of a function / closure body.
    fn is_tail_target(&self, e: &E, c: &Cx, ret: bool) -> bool {
        let last = match e {
            E::Call(_, _, last, _) => Some(last),
            _ => None,
        };
        let is_t = last.is_some_and(|l| self.any(&c.idents, l));
        if is_t {
            return true;
        }
        if !ret {
            return false;
        }
        let is_r = c
            .func
            .as_ref()
            .and_then(|f| f.ret_last.as_ref())
            .is_some_and(|r| self.any(&c.results, r));
        if !is_r {
            return false;
        }
        !last.is_some_and(|l| self.any(&c.ignore, l))
    }
    fn attrs_of(e: &E) -> &[A] {
        src2(e).0
    }
    fn tail(&mut self, e: &E, cx: &Cx, k: Tk) -> S {
        let a = Self::attrs_of(e).to_vec();
        let c = cx.with(&a);
        let source = format!("{} {}", kept(&a), src2(e).1);
        // the element's own settings are already in `c`
        let e2 = Self::strip(e);
        let x = self.ex(&e2, &c);
        if k == Tk::No || matches!(e, E::Ret(..)) || !self.is_tail_target(e, &c, k == Tk::Fn) {
            return format!("{} {x}", kept(&a));
        }
        // kept attributes belong to the operand
        self.hook(c.skip != Skip::No, 2, low(e), format!("{} {x}", kept(&a)), &source, &c)
    }
    /// the same expression without its hooq attributes or kept ones
    fn strip(e: &E) -> E {
        let mut e = e.clone();
        match &mut e {
            E::Seq(a, _) | E::Low(a, _) | E::Call(a, ..) | E::Try(a, _) | E::Ret(a, _) | E::Body(a, ..) | E::Clo(a, ..) | E::Match(a, ..) | E::Mac(a, ..) => a.clear(),
        }
        e
    }
    fn sts(&mut self, st: &[St], cx: &Cx, k: Tk) -> S {
        let mut o = S::new();
        let n = st.len();
        for (i, s) in st.iter().enumerate() {
            let last = i + 1 == n;
            match s {
                St::Let(a, p, e, els) => {
                    let c = cx.with(a);
                    o += &format!("{} let {p} = {}", kept(a), self.ex(e, &c));
                    if let Some(b) = els {
                        let c = c.sub();
                        o += &format!(" else {{ {} }}", self.sts(b, &c, Tk::Block));
                    }
                    o.push(';');
                }
                St::Semi(e) => {
                    o += &self.ex(e, cx);
                    o.push(';');
                }
                St::Tail(e) => {
                    if last && k != Tk::No {
                        o += &self.tail(e, cx, k)
                    } else {
                        o += &self.ex(e, cx)
                    }
                }
                St::Item(i) => o += &self.item(i, cx),
                St::Raw(r) => o += r,
                St::Mac(e, semi) => {
                    o += &self.ex(e, cx);
                    if *semi {
                        o.push(';');
                    }
                }
            }
            o.push('\n');
        }
        o
    }
    pub fn item(&mut self, i: &I, cx: &Cx) -> S {
        match i {
            I::Fn(f) => {
                let mut c = cx.with(&f.attrs);
                c.func = Some(Fi { name: f.name.clone(), sig: sig(f), ret_last: f.ret_last.clone(), is_fn: true });
                c.named = Some(f.name.clone());
                let c = c.sub();
                let b = self.sts(&f.body, &c, Tk::Fn);
                format!("{} {} {{ {b} }}\n", kept(&f.attrs), sig(f))
            }
            I::Group(a, h, items) => {
                let c = cx.with(a);
                let mut o = S::new();
                for i in items {
                    o += &self.item(i, &c);
                }
                format!("{} {h} {{ {o} }}\n", kept(a))
            }
            I::Const(a, h, e) => {
                let c = cx.with(a);
                format!("{} {h} {};", kept(a), self.ex(e, &c))
            }
            I::Mac(a, p, (op, cl), items, t) => {
                let c = cx.with(a);
                if !c.macros {
                    return format!("{} {p}!{op}{}{cl}{t}", kept(a), items.iter().map(isrc).collect::<S>());
                }
                let mut o = S::new();
                for i in items {
                    o += &self.item(i, &c);
                }
                format!("{} {p}!{op}{o}{cl}{t}", kept(a))
            }
            I::Raw(r) => r.clone(),
        }
    }
}

/// binds looser than a method call
pub fn low(e: &E) -> bool {
    matches!(e, E::Low(..) | E::Clo(..) | E::Ret(..))
}

// ---- shorthands --------------------------------------------------------------
pub fn t(s: &str) -> P {
    P::T(s.into())
}
pub fn raw(s: &str) -> E {
    E::Seq(vec![], vec![t(s)])
}
pub fn rawl(s: &str) -> E {
    E::Low(vec![], vec![t(s)])
}
pub fn call(f: &str, args: Vec<E>) -> E {
    let last = f.rsplit("::").next().unwrap().to_string();
    E::Call(vec![], f.into(), last, args)
}
pub fn try_(e: E) -> E {
    E::Try(vec![], Box::new(e))
}
pub fn ret(e: E) -> E {
    E::Ret(vec![], Some(Box::new(e)))
}
pub fn block(st: Vec<St>) -> E {
    E::Body(vec![], vec![], st, vec![])
}
pub fn attrs(mut e: E, at: Vec<A>) -> E {
    match &mut e {
        E::Seq(a, _) | E::Low(a, _) | E::Call(a, ..) | E::Try(a, _) | E::Ret(a, _) | E::Body(a, ..) | E::Clo(a, ..) | E::Match(a, ..) | E::Mac(a, ..) => *a = at,
    }
    e
}
pub fn func(name: &str, ret: Option<&str>, body: Vec<St>) -> F {
    F {
        attrs: vec![],
        pre: S::new(),
        name: name.into(),
        params: "()".into(),
        ret: ret.map(|s| s.into()),
        ret_last: ret.map(last_seg),
        body,
    }
}
/// last segment of a path type without generics on earlier segments
pub fn last_seg(s: &str) -> S {
    let head = s.split('<').next().unwrap();
    head.rsplit("::").next().unwrap().trim().to_string()
}

/// Runs the real macro on `item` under root attribute `attr` and demands the
/// reference output (`prefix` = text that must precede the item).
pub fn run(attr: &str, item: &I, cx: &Cx, env: &Env, msg: &str) -> Ref {
    run_with(hooq, attr, "", item, cx, env, msg)
}
pub fn run_with(f: fn(Ts, Ts) -> Ts, attr: &str, prefix: &str, item: &I, cx: &Cx, env: &Env, msg: &str) -> Ref {
    let mut r = Ref::new(env.clone());
    r.cq = f as usize == hooq_cq as usize;
    let want = r.item(item, cx);
    let want = env.subst(ts(&format!("{prefix} {want}")));
    let text = isrc(item);
    let src = env.subst(ts(&text));
    let got = f(env.subst(ts(attr)), src);
    expect_tokens(&got, &want, msg);
    r
}

impl E {
    pub fn with_last(mut self, s: &str) -> E {
        if let E::Call(_, _, l, _) = &mut self {
            *l = s.into();
        }
        self
    }
}
