//! What the hook is told at run time.
use crate::u::*;
use hooq::{HooqMeta, hooq};
use std::any::Any;
use vs::*;

thread_local! {
    static SEEN: std::cell::RefCell<Vec<(u32, u32, String, String, String, String, u8)>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Results whose error is the line and column where they were made.
struct At {
    line: u32,
    col: u32,
    v: u8,
}
trait Hook: Sized {
    fn hook(self, m: impl FnOnce() -> HooqMeta) -> Self;
}
impl<T> Hook for Result<T, At> {
    fn hook(self, m: impl FnOnce() -> HooqMeta) -> Self {
        if let Err(e) = &self {
            let m = m();
            let k = m.get_binding::<u8>("k");
            ev("k", k.map_or(0, |k| *k));
            ev("e", e.v);
            check(m.line == e.line as usize, "line of the target");
            check(m.column == e.col as usize, "column of the target");
            check(m.path == file!(), "path");
            check(m.file == "h_meta.rs", "file");
            check(m.get_binding::<u16>("k").is_none(), "a binding of another type");
            check(m.get_binding::<u8>("kk").is_none(), "a binding of another name");
            check(m.bindings["k"].expr == "v", "expression of a binding");
            check(m.bindings.len() == 1, "bindings in scope");
            ev(&squeeze(m.source_str), 0);
            ev(m.count, 0);
        }
        self
    }
}
fn at(v: u8, line: u32, col: u32) -> Result<u8, At> {
    if v & 1 == 1 { Err(At { line, col, v }) } else { Ok(v / 2) }
}
#[hooq(hook)]
#[hooq::binding(k = v)]
#[rustfmt::skip]
fn told(v: u8, n: u8) -> Result<u8, At> {
    //                column!() is that of `column`; the `?` follows `!())`
    if n == 0 { at(v, line!(), column!() + 15)?; }
    if n == 1 {
        at(v, line!() + 1, 13)
            ?;
    }
    if n == 2 { return at(v, line!(), column!() - 22); }
    if n == 3 {
        let f = |v: u8| -> Result<u8, At> { Ok(at(v, line!(), column!() + 15)?) };
        #[hooq::skip]
        return f(v);
    }
    if n == 4 { vec![at(v, line!(), column!() + 15)?]; }
    at(v, line!(), 5)
}
/// Source and number of the targets an error passes.
const PASSED: [&[(&str, &str)]; 6] = [
    &[("at(v, line!(), column!() + 15) ?", "1st ?")],
    &[("at(v, line!() + 1, 13) ?", "2nd ?")],
    &[("return at(v, line!(), column!() - 22)", "1st return")],
    &[("at(v, line!(), column!() + 15) ?", "3rd ?")],
    &[("at(v, line!(), column!() + 15) ?", "4th ?")],
    &[("at(v, line!(), 5)", "1st tail expr")],
];
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| *c != ' ').collect()
}
#[unsafe(no_mangle)]
pub extern "C" fn t_meta() {
    let (v, n) = (byte(), choice(6));
    start();
    let ok = told(v, n).is_ok();
    let got = taken();
    if !ok {
        for (s, c) in PASSED[n as usize] {
            ev("k", v);
            ev("e", v);
            ev(&squeeze(s), 0);
            ev(c, 0);
        }
    }
    check_same(&got, &taken(), "what the hook is told");
    cover(&format!("{n}{ok}"));
}
#[hooq]
#[hooq::method(.map_err(|e| { check($line == e.line as usize, "line"); check($column == e.col as usize, "column"); check($path == file!(), "path"); check($file == "h_meta.rs", "file"); e }))]
#[rustfmt::skip]
fn loc(v: u8, n: u8) -> Result<u8, At> {
    if n == 0 { at(v, line!(), column!() + 15)?; }
    match n {
        1 => { at(v, line!(), column!() + 15)?; },
        2 => { return
            at(v, line!() - 1, 16) },
        3 => { vec![at(v, line!(), column!() + 15)?]; }
        _ => {}
    }
    at(v, line!(), 5)
}
#[unsafe(no_mangle)]
pub extern "C" fn t_loc() {
    let (v, n) = (byte(), choice(5));
    start();
    match loc(v, n) {
        Ok(w) => ev("ok", w),
        Err(e) => ev("err", e.v),
    }
    let got = taken();
    if v & 1 == 1 { ev("err", v) } else { ev("ok", v / 2) }
    check_same(&got, &taken(), "the value");
    cover(&format!("{n}"));
}
/// The preset for anyhow: the chain of contexts.
#[derive(Debug)]
struct My(u8);
impl std::fmt::Display for My {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(if self.0 > 100 { "big" } else { "small" })
    }
}
impl std::error::Error for My {}
fn my(x: u8) -> Result<u8, My> {
    if x & 1 == 1 { Err(My(x)) } else { Ok(x / 2) }
}
#[hooq(anyhow)]
fn any(a: u8) -> anyhow::Result<u8> {
    let x = my(a)?;
    if x > 60 { return Err(anyhow::Error::new(My(1))); }
    Ok(my(x)?)
}
#[unsafe(no_mangle)]
pub extern "C" fn t_anyhow() {
    let a = byte();
    start();
    match any(a) {
        Ok(v) => {
            ev("ok", v);
            let got = taken();
            ev("ok", a / 4);
            check_same(&got, &taken(), "value");
            check(a & 3 == 0, "no error is lost");
        }
        Err(e) => {
            let x = a / 2;
            let (cause, src) = if a & 1 == 1 { (a, "my(a)?") } else if x > 60 { (1, "Err(anyhow::Error::new(My(1)))") } else { (x, "my(x)?") };
            let m = e.downcast_ref::<My>().map(|m| m.0);
            ev("err", m.unwrap());
            let got = taken();
            ev("err", cause);
            check_same(&got, &taken(), "the error is kept");
            let t = e.to_string();
            check(t.contains("src/h_meta.rs:"), "path in the context");
            check(t.contains(src), "source in the context");
            check(e.chain().count() == 2, "one context");
        }
    }
    cover("anyhow");
}
/// The bindings of a hook, as the hook sees them.
struct B(u8);
trait Take: Sized {
    fn take(self, m: impl FnOnce() -> std::collections::HashMap<String, hooq::BindingPayload>) -> Self;
}
impl Take for Result<u8, B> {
    fn take(self, m: impl FnOnce() -> std::collections::HashMap<String, hooq::BindingPayload>) -> Self {
        if let Err(e) = &self {
            let m = m();
            ev("e", e.0);
            let mut k: Vec<_> = m.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            for (k, p) in k {
                ev(k, p.value.downcast_ref::<u8>().map_or(99, |v| *v));
                ev(&squeeze(&p.expr), 0);
            }
        }
        self
    }
}
impl Hook for Result<u8, B> {
    fn hook(self, m: impl FnOnce() -> HooqMeta) -> Self {
        self.take(|| m().bindings)
    }
}
fn same<T: Clone>(x: &T) -> T {
    x.clone()
}
fn fails(x: u8) -> Result<u8, B> {
    if x & 1 == 1 { Err(B(x)) } else { Ok(x) }
}
/// Variables of the program that bear names which the expansion uses.
#[hooq(hook)]
#[hooq::binding(a = same(&expr))]
#[hooq::binding(b = value.wrapping_add(path))]
#[hooq::binding(expr = same(&expr))]
#[hooq::binding(value = { let value = (value, same(&expr)); value.1 })]
fn names(expr: u8, value: u8, path: u8) -> Result<u8, B> {
    let e = fails(expr)?;
    #[hooq::method(.take(|| $bindings))]
    #[hooq::binding(a = value)]
    fails(value)?;
    Ok(e)
}
fn say(a: u8, ax: &str, b: u8, ex: u8, v: u8) {
    ev("a", a);
    ev(ax, 0);
    ev("b", b);
    ev("value.wrapping_add(path)", 0);
    ev("expr", ex);
    ev("same(&expr)", 0);
    ev("value", v);
    ev("{letvalue=(value,same(&expr));value.1}", 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn t_names() {
    let (expr, value, path) = (byte(), byte(), byte());
    start();
    let ok = names(expr, value, path).is_ok();
    let got = taken();
    let n = if expr & 1 == 1 { expr } else { value };
    if n & 1 == 1 {
        ev("e", n);
        let (a, ax) = if expr & 1 == 1 { (expr, "same(&expr)") } else { (value, "value") };
        say(a, ax, value.wrapping_add(path), expr, expr);
    }
    check_same(&got, &taken(), "bindings are evaluated among the variables of the program");
    check(ok == (n & 1 == 0), "the result");
    cover(if ok { "ok" } else { "err" });
}
