use std::cell::RefCell;
use vs::*;
thread_local! {
    static STEP: std::cell::Cell<(u8, [u8; 3])> = const { std::cell::Cell::new((0, [0; 3])) };
    static TRACE: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}
pub fn ev(s: &str, v: u8) {
    TRACE.with(|t| {
        let mut t = t.borrow_mut();
        t.extend_from_slice(s.as_bytes());
        t.push(b'=');
        t.push(v);
        t.push(b';');
    })
}
/// The hook: records where it is, and changes the error.
pub fn hk(nth: &str, e: u8) -> u8 {
    ev(nth, e);
    e ^ 0x54
}
pub fn hkn(nth: &str, name: &str, e: u8) -> u8 {
    ev(name, 0);
    hk(nth, e)
}
/// A step of the program.  Which steps fail (the f-th and the s-th, and those
/// given one particular value) is symbolic.
pub fn g(id: &str, x: u8) -> Result<u8, u8> {
    ev(id, x);
    let (n, [f, s, bad]) = STEP.with(|c| {
        let (n, p) = c.get();
        c.set((n.wrapping_add(1), p));
        (n, p)
    });
    if n == f || n == s || x == bad { Err(x) } else { Ok(x / 2) }
}
pub fn o(id: &str, x: u8) -> Option<u8> {
    g(id, x).ok()
}
pub fn taken() -> Vec<u8> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
fn note(r: Result<u8, u8>) {
    match r {
        Ok(v) => ev("ok", v),
        Err(e) => ev("err", e),
    }
}
/// Both programs do the same, step by step, and end with the same value.
pub fn twin(hooked: impl FnOnce() -> Result<u8, u8>, plain: impl FnOnce() -> Result<u8, u8>) {
    let plan = [u8_in(0, 40), u8_in(0, 40), byte()];
    assume(plan[0] <= plan[1]);
    taken();
    STEP.set((0, plan));
    let r = hooked();
    let ok = r.is_ok();
    note(r);
    let a = taken();
    STEP.set((0, plan));
    note(plain());
    let b = taken();
    check_same(&a, &b, "hooked code runs as the same code with the hooks written by hand");
    cover(if ok { "ok" } else { "err" });
}
pub fn start() {
    taken();
}
pub fn byte() -> u8 {
    u8_in(0, 255)
}
