//! Reference model of flavors, root attributes and `hooq.toml`, written from
//! the documentation (reference/flavors.md, reference/attributes.md).
use crate::h_meta::{Loc, add_loc, place_spans};
use crate::model::*;
use crate::u::*;
use vs::*;

#[derive(Clone)]
pub struct Fl {
    pub name: S,
    pub traits: Vec<S>,
    pub cx: Cx,
    pub subs: Vec<Fl>,
}
fn fl(name: &str, traits: &[&str], method: &str) -> Fl {
    Fl { name: name.into(), traits: traits.iter().map(|s| s.to_string()).collect(), cx: Cx::defaults(method), subs: vec![] }
}
const LOCS: &str = "let path = $path; let line = $line; let col = $col;";
fn report(call: &str, tail: &str) -> S {
    format!("{call} {LOCS} let expr = ::hooq::source_excerpt_helpers::excerpted_pretty_stringify!($source); {tail} }})")
}
/// The documented presets.
pub fn presets() -> Vec<Fl> {
    let mut v = vec![];
    v.push(fl("default", &[], &report(".inspect_err(|e| {", r#"::std::eprintln!("[{path}:{line}:{col}] {e:?}\n{expr}");"#)));
    let mut e = fl("empty", &[], "$expr");
    e.cx.targets = [false; 3];
    e.cx.idents = vec![];
    e.cx.ignore = vec![];
    e.cx.results = vec![];
    e.cx.macros = false;
    v.push(e);
    v.push(fl("hook", &[], ".hook(|| { $hooq_meta })"));
    let ctx = r#"format!("[{path}:{line}:{col}]\n{expr}")"#;
    v.push(fl("anyhow", &["::anyhow::Context"], &report(".with_context(|| {", ctx)));
    v.push(fl("eyre", &["::eyre::ContextCompat", "::eyre::WrapErr"], &report(".wrap_err_with(|| {", ctx)));
    v.push(fl("color_eyre", &["::color_eyre::eyre::ContextCompat", "::color_eyre::eyre::WrapErr"], &report(".wrap_err_with(|| {", ctx)));
    let log = report(".inspect_err(|e| {", r#"let level = $level; ::log::log!(level, "({path}:{line}:{col}) {e}\n{expr}");"#);
    let tr = format!(
        ".inspect_err(|e| {{ {LOCS} let expr = ::hooq::source_excerpt_helpers::one_line_stringify!($source); ::tracing::event!($level, path, line, col, error = %e, expr,); }})"
    );
    for (n, m, lv) in [("log", &log, ["Error", "Warn", "Info", "Debug", "Trace"]), ("tracing", &tr, ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"])] {
        let mk = |name: &str, i: usize| {
            let mut f = fl(name, &[], m);
            f.cx.binds.insert("level".into(), format!("::{n}::Level::{}", lv[i]));
            f
        };
        let mut f = mk(n, 0);
        for (i, s) in ["error", "warn", "info", "debug", "trace"].iter().enumerate() {
            f.subs.push(mk(s, i));
        }
        v.push(f);
    }
    v
}

/// A table of hooq.toml.
#[derive(Clone, Default)]
pub struct Tb {
    pub name: S,
    pub traits: Option<Vec<S>>,
    pub method: Option<S>,
    pub targets: Option<Vec<&'static str>>,
    pub idents: Option<Vec<S>>,
    pub ignore: Option<Vec<S>>,
    pub results: Option<Vec<S>>,
    pub macros: Option<bool>,
    pub binds: Vec<(S, S)>,
    /// write bindings as a table of their own
    pub btable: bool,
    pub subs: Vec<Tb>,
}
pub fn tb(name: &str) -> Tb {
    Tb { name: name.into(), ..Default::default() }
}
fn arr<T: AsRef<str>>(v: &[T]) -> S {
    let v: Vec<S> = v.iter().map(|s| format!("\"{}\"", s.as_ref())).collect();
    format!("[{}]", v.join(", "))
}
impl Tb {
    fn text(&self, pre: &str, o: &mut S) {
        let full = if pre.is_empty() { self.name.clone() } else { format!("{pre}.{}", self.name) };
        *o += &format!("[{full}]\n");
        if let Some(v) = &self.traits {
            *o += &format!("trait_uses = {}\n", arr(v));
        }
        if let Some(v) = &self.method {
            *o += &format!("method = '''{v}'''\n");
        }
        if let Some(v) = &self.targets {
            *o += &format!("hook_targets = {}\n", arr(v));
        }
        if let Some(v) = &self.idents {
            *o += &format!("tail_expr_idents = {}\n", arr(v));
        }
        if let Some(v) = &self.ignore {
            *o += &format!("ignore_tail_expr_idents = {}\n", arr(v));
        }
        if let Some(v) = &self.results {
            *o += &format!("result_types = {}\n", arr(v));
        }
        if let Some(v) = &self.macros {
            *o += &format!("hook_in_macros = {v}\n");
        }
        if !self.binds.is_empty() {
            if self.btable {
                *o += &format!("[{full}.bindings]\n");
                for (k, v) in &self.binds {
                    *o += &format!("{k} = '{v}'\n");
                }
            } else {
                let v: Vec<S> = self.binds.iter().map(|(k, v)| format!("{k} = '{v}'")).collect();
                *o += &format!("bindings = {{ {} }}\n", v.join(", "));
            }
        }
        for s in &self.subs {
            s.text(&full, o);
        }
    }
    /// The table over the flavor it inherits from.
    fn over(&self, mut f: Fl, env: &Env) -> Fl {
        if let Some(v) = &self.traits {
            f.traits = v.clone();
        }
        let mut at = vec![];
        if let Some(v) = &self.method {
            f.cx.method = Cx::defaults(v).method;
        }
        if let Some(v) = &self.targets {
            at.push(A::Targets(v.clone()));
        }
        if let Some(v) = &self.idents {
            at.push(A::Idents(v.clone()));
        }
        if let Some(v) = &self.ignore {
            at.push(A::Ignore(v.clone()));
        }
        if let Some(v) = &self.results {
            at.push(A::Results(v.clone()));
        }
        if let Some(v) = self.macros {
            at.push(A::Macros(v));
        }
        for (k, v) in &self.binds {
            at.push(A::Bind(env.get(k), v.clone(), 0));
        }
        f.cx = f.cx.with(&at);
        let base = f.clone();
        apply(&self.subs, &mut f.subs, &base, env);
        f
    }
}
pub fn toml(t: &[Tb]) -> S {
    let mut o = S::new();
    for x in t {
        x.text("", &mut o);
    }
    o
}
pub fn apply(tables: &[Tb], flavors: &mut Vec<Fl>, base: &Fl, env: &Env) {
    for t in tables {
        let n = env.get(&t.name);
        match flavors.iter().position(|f| env.get(&f.name) == n) {
            Some(i) => {
                let f = flavors[i].clone();
                flavors[i] = t.over(f, env);
            }
            None => {
                let mut f = base.clone();
                f.name = t.name.clone();
                flavors.push(t.over(f, env));
            }
        }
    }
}
pub fn store(tables: &[Tb], env: &Env) -> Vec<Fl> {
    let mut v = presets();
    let base = v[0].clone();
    apply(tables, &mut v, &base, env);
    v
}
pub fn find<'a>(v: &'a [Fl], path: &[S]) -> Option<&'a Fl> {
    let mut cur: Option<&Fl> = None;
    for p in path {
        let l = match cur {
            None => v,
            Some(f) => &f.subs,
        };
        cur = Some(l.iter().find(|f| f.name == *p)?);
    }
    cur
}
pub fn names(v: &[Fl]) -> Vec<S> {
    fn rec(v: &[Fl], pre: &str, o: &mut Vec<S>) {
        for f in v {
            let n = format!("{pre}{}", f.name);
            rec(&f.subs, &format!("{n}::"), o);
            o.push(n);
        }
    }
    let mut o = vec![];
    rec(v, "", &mut o);
    o.sort();
    o
}
pub fn listing(v: &[Fl]) -> S {
    names(v).iter().map(|n| format!("  - {n}")).collect::<Vec<_>>().join("\n")
}
pub fn not_found(path: &[S], v: &[Fl]) -> S {
    format!("flavor `{}` is not found. available flavors:\n{}", path.join("::"), listing(v))
}

pub fn loc() -> [Loc; 3] {
    let l = |line, col| Loc { line, col, file: "src/m.rs".into() };
    [l(11, 7), l(22, 5), l(33, 3)]
}
/// Statements that show every setting: each kind of target with and without
/// the names `Q0`/`Q1`, macro contents.  A tail starts with `q9`, if any.
pub fn probe() -> Vec<St> {
    let clo = |r: &str, b: Vec<St>| E::Clo(vec![], format!("|a| -> {r}"), Some(r.into()), CB::Block(b));
    let bind = |e| St::Let(vec![], "_".into(), e, None);
    vec![
        bind(try_(raw("p0()"))),
        bind(clo("Result", vec![St::Semi(ret(raw("p1")))])),
        bind(clo("Rt", vec![St::Semi(ret(raw("p2")))])),
        bind(clo("Rt", vec![St::Semi(ret(call("Err", vec![])))])),
        bind(clo("Result", vec![St::Semi(ret(call("Ok", vec![])))])),
        bind(clo("Result", vec![St::Semi(ret(call("Q0", vec![])))])),
        bind(E::Mac(vec![], "mm".into(), ("(".into(), ")".into()), vec![(MA::E(try_(raw("p3()"))), "".into())])),
        St::Tail(call("q9", vec![])),
    ]
}
pub fn probe_fn(at: Vec<A>) -> I {
    let mut f = func("fun", Some("Result<u8, u8>"), probe());
    f.attrs = at;
    I::Fn(f)
}
/// The whole run: root attribute `attr`, hooq.toml already set.
pub fn run_flavor(attr: Ts, traits: &[S], item: &I, cx: &Cx, env: &Env, msg: &str) {
    let mut e = env.clone();
    let l = loc();
    for (k, x) in l.iter().enumerate() {
        add_loc(&mut e, k, x);
    }
    let mut r = Ref::new(e.clone());
    let pre: S = traits.iter().map(|t| format!("#[allow(unused)] use {t} as _;")).collect();
    let want = e.subst(ts(&format!("{pre} {}", r.item(item, cx))));
    let src = place_spans(e.subst(ts(&isrc(item))), &l);
    let got = hooq(attr, src);
    expect_tokens(&got, &want, msg);
}
/// Runs the macro with `attr` and demands the error.
pub fn run_err(attr: Ts, item: &I, env: &Env, want: &str, msg: &str) {
    let got = hooq(attr, env.subst(ts(&isrc(item))));
    expect_err(&got, want, msg);
}
pub fn use_toml(t: &[Tb], env: &Env) {
    set_toml("proj", Some(&env.text(&toml(t))));
}
