//! `HooqMeta::get_binding`, called as generated code calls it.
use crate::u::*;
use hooq_helpers::{BindingPayload, HooqMeta};
use std::any::Any;
use std::collections::HashMap;
use std::rc::Rc;
use vs::*;

#[derive(PartialEq, Debug)]
struct Own(u8);
#[derive(PartialEq, Debug)]
struct Own2(u8);
const TY: &[&str] = &["u8", "u16", "i8", "String", "&'static str", "Own", "Own2", "Option<u8>", "Box<u8>", "fn", "()"];
fn f(x: u8) -> u8 {
    x
}
fn mk(t: u8, v: u8) -> Rc<dyn Any> {
    match t {
        0 => Rc::new(v),
        1 => Rc::new(v as u16),
        2 => Rc::new(v as i8),
        3 => Rc::new(unsafe { String::from_utf8_unchecked(vec![v]) }),
        4 => Rc::new("s"),
        5 => Rc::new(Own(v)),
        6 => Rc::new(Own2(v)),
        7 => Rc::new(Some(v)),
        8 => Rc::new(Box::new(v)),
        9 => Rc::new(f as fn(u8) -> u8),
        _ => Rc::new(()),
    }
}
/// The value behind `key` if it has type `t`.
fn get(m: &HooqMeta, t: u8, key: &str) -> Option<u8> {
    match t {
        0 => m.get_binding::<u8>(key).map(|x| *x),
        1 => m.get_binding::<u16>(key).map(|x| *x as u8),
        2 => m.get_binding::<i8>(key).map(|x| *x as u8),
        3 => m.get_binding::<String>(key).map(|x| x.as_bytes()[0]),
        4 => m.get_binding::<&'static str>(key).map(|x| x.len() as u8),
        5 => m.get_binding::<Own>(key).map(|x| x.0),
        6 => m.get_binding::<Own2>(key).map(|x| x.0),
        7 => m.get_binding::<Option<u8>>(key).map(|x| x.unwrap_or(0)),
        8 => m.get_binding::<Box<u8>>(key).map(|x| **x),
        9 => m.get_binding::<fn(u8) -> u8>(key).map(|x| (*x)(9)),
        _ => m.get_binding::<()>(key).map(|_| 0),
    }
}
fn val(t: u8, v: u8) -> u8 {
    match t {
        4 => 1,
        9 => 9,
        10 => 0,
        _ => v,
    }
}
/// Up to three bindings under arbitrary keys; lookups of an arbitrary key at
/// an arbitrary type, twice.
#[unsafe(no_mangle)]
pub extern "C" fn h_get_binding() {
    let n = choice(4) as usize;
    let w = TY.len() as u8;
    let (t0, tq) = (choice(w), choice(w));
    let ts = [t0, (t0 + 1) % w, tq];
    let mut map = HashMap::new();
    let mut model: Vec<(String, u8, u8)> = vec![];
    for i in 0..n {
        let k = sym_text([1, 2, 1][i]);
        let v = u8_in(0, 127);
        model.retain(|x| x.0 != k);
        model.push((k.clone(), ts[i], v));
        map.insert(k.clone(), BindingPayload { expr: k, value: mk(ts[i], v) });
    }
    let m = HooqMeta { line: 1, column: 2, path: "p", file: "f", source_str: "s", count: "1st ?", bindings: map };
    let q = sym_text(choice(3) as usize);
    let want = model.iter().find(|x| x.0 == q).and_then(|x| if x.1 == tq { Some(val(x.1, x.2)) } else { None });
    for _ in 0..2 {
        let got = get(&m, tq, &q);
        let enc = |x: Option<u8>| match x {
            None => vec![0],
            Some(v) => vec![1, v],
        };
        check_same(&enc(got), &enc(want), "get_binding gives the value under the key, if it has the type");
    }
    // nothing else changed
    for (k, t, v) in &model {
        check_same(&[1, val(*t, *v)], &get(&m, *t, k).map_or(vec![0], |x| vec![1, x]), "every other binding stays reachable");
        check_same(m.bindings[k].expr.as_bytes(), k.as_bytes(), "the text of a binding stays");
    }
    check_same(&[m.bindings.len() as u8], &[model.len() as u8], "bindings are not consumed");
    cover(TY[tq as usize]);
    cover(if want.is_some() { "found" } else { "not found" });
}
