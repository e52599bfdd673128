use crate::u::*;
use hooq::hooq;
use vs::*;

// ---- straight-line code ------------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hk($nth, e)))]
fn line(a: u8, b: u8, c: u8) -> Result<u8, u8> {
    let t = [g("a", a)?, g("b", b)?];
    let (x, y) = (g("c", c)?.wrapping_add(t[(g("i", t[0] & 2)? & 1) as usize]), g("d", t[1])? + 1);
    let z = g("e", g("f", x)?.wrapping_mul(g("h", y)?))?;
    let mut w = [0u8; 2];
    w[(g("j", z & 2)? & 1) as usize] = g("k", z & 6)?;
    let s = Pair { left: g("l", w[0])?, ..Pair { left: 1, right: g("m", w[1])? } };
    if g("n", s.left)? > 3 && g("o", s.right)? < 9 || !(g("p", 2)? == 1) { g("q", a)? } else { g("r", c)? };
    Ok(-(s.left as i8) as u8 ^ (g("s", b)? as u16 as u8))
}
fn line_plain(a: u8, b: u8, c: u8) -> Result<u8, u8> {
    let t = [g("a", a).map_err(|e| hk("1st ?", e))?, g("b", b).map_err(|e| hk("2nd ?", e))?];
    let (x, y) = (
        g("c", c).map_err(|e| hk("3rd ?", e))?.wrapping_add(t[(g("i", t[0] & 2).map_err(|e| hk("4th ?", e))? & 1) as usize]),
        g("d", t[1]).map_err(|e| hk("5th ?", e))? + 1,
    );
    let z = g("e", g("f", x).map_err(|e| hk("6th ?", e))?.wrapping_mul(g("h", y).map_err(|e| hk("7th ?", e))?)).map_err(|e| hk("8th ?", e))?;
    let mut w = [0u8; 2];
    w[(g("j", z & 2).map_err(|e| hk("9th ?", e))? & 1) as usize] = g("k", z & 6).map_err(|e| hk("10th ?", e))?;
    let s = Pair { left: g("l", w[0]).map_err(|e| hk("11th ?", e))?, ..Pair { left: 1, right: g("m", w[1]).map_err(|e| hk("12th ?", e))? } };
    if g("n", s.left).map_err(|e| hk("13th ?", e))? > 3 && g("o", s.right).map_err(|e| hk("14th ?", e))? < 9
        || !(g("p", 2).map_err(|e| hk("15th ?", e))? == 1)
    {
        g("q", a).map_err(|e| hk("16th ?", e))?
    } else {
        g("r", c).map_err(|e| hk("17th ?", e))?
    };
    Ok(-(s.left as i8) as u8 ^ (g("s", b).map_err(|e| hk("18th ?", e))? as u16 as u8))
}
struct Pair {
    left: u8,
    right: u8,
}
#[unsafe(no_mangle)]
pub extern "C" fn t_line() {
    let (a, b, c) = (byte(), byte(), byte());
    twin(|| line(a, b, c), || line_plain(a, b, c));
}

// ---- loops -------------------------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hk($nth, e)))]
fn loops(n: u8, a: u8) -> Result<u8, u8> {
    let mut s = a;
    for i in 0..g("n", n)? {
        s = s.wrapping_add(g("s", s)?);
        if i == 1 {
            continue;
        }
        s &= !1;
    }
    let mut k = 0;
    while g("w", k)? < 2 {
        k += 2;
    }
    let v = 'l: loop {
        let r = loop {
            k += 1;
            if k > 6 {
                break 'l g("b", s)?;
            }
            if k & 1 == 0 {
                break g("c", k)?;
            }
        };
        s = s.wrapping_add(r) & !1;
    };
    let mut it = [a, 2, 4].into_iter();
    while let Some(x) = it.next().map(|x| -> Result<u8, u8> { g("m", x) }).transpose()? {
        s ^= x;
    }
    let b = 'x: {
        if s & 4 == 0 {
            break 'x g("y", s)?;
        }
        s
    };
    for _ in 0..2 {
        if b & 1 == 1 {
            return Err(b);
        }
    }
    Ok(v)
}
fn loops_plain(n: u8, a: u8) -> Result<u8, u8> {
    let mut s = a;
    for i in 0..g("n", n).map_err(|e| hk("1st ?", e))? {
        s = s.wrapping_add(g("s", s).map_err(|e| hk("2nd ?", e))?);
        if i == 1 {
            continue;
        }
        s &= !1;
    }
    let mut k = 0;
    while g("w", k).map_err(|e| hk("3rd ?", e))? < 2 {
        k += 2;
    }
    let v = 'l: loop {
        let r = loop {
            k += 1;
            if k > 6 {
                break 'l g("b", s).map_err(|e| hk("4th ?", e))?;
            }
            if k & 1 == 0 {
                break g("c", k).map_err(|e| hk("5th ?", e))?;
            }
        };
        s = s.wrapping_add(r) & !1;
    };
    let mut it = [a, 2, 4].into_iter();
    while let Some(x) = it
        .next()
        .map(|x| -> Result<u8, u8> { g("m", x).map_err(|e| hk("1st tail expr", e)) })
        .transpose()
        .map_err(|e| hk("6th ?", e))?
    {
        s ^= x;
    }
    let b = 'x: {
        if s & 4 == 0 {
            break 'x g("y", s).map_err(|e| hk("7th ?", e))?;
        }
        s
    };
    for _ in 0..2 {
        if b & 1 == 1 {
            return Err(b).map_err(|e| hk("1st return", e));
        }
    }
    Ok(v)
}
#[unsafe(no_mangle)]
pub extern "C" fn t_loops() {
    let (n, a) = (u8_in(0, 6), byte());
    twin(|| loops(n, a), || loops_plain(n, a));
}

// ---- closures ----------------------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hkn($nth, $fn_name, e)))]
fn closures(a: u8, b: u8) -> Result<u8, u8> {
    let mut n = 0;
    let mut add = |x: u8| -> Result<u8, u8> {
        n += g("x", x)?;
        if x > 200 {
            return Err(x);
        }
        g("y", n)
    };
    let one = add(a)?;
    let two = add(one & 0xfe);
    let inner = || -> Result<u8, u8> {
        let deep = |x| -> Result<u8, u8> { Ok(g("z", x)?) };
        deep(b)
    };
    let bare = |x| g("w", x);
    let untyped = |x: u8| {
        let r = g("v", x);
        r
    };
    let m = move || -> Result<u8, u8> { if b > 100 { Err(b) } else { untyped(b) } };
    let s: Result<Vec<u8>, u8> = [a, b].iter().map(|x| -> Result<u8, u8> { g("it", *x) }).collect();
    let l = s?.len() as u8;
    two?.checked_add(inner()?).ok_or(1)?;
    m()?;
    bare(l)
}
fn closures_plain(a: u8, b: u8) -> Result<u8, u8> {
    let mut n = 0;
    let mut add = |x: u8| -> Result<u8, u8> {
        n += g("x", x).map_err(|e| hkn("1st ?", "__closure_in_closures__", e))?;
        if x > 200 {
            return Err(x).map_err(|e| hkn("1st return", "__closure_in_closures__", e));
        }
        g("y", n).map_err(|e| hkn("1st tail expr", "__closure_in_closures__", e))
    };
    let one = add(a).map_err(|e| hkn("2nd ?", "closures", e))?;
    let two = add(one & 0xfe);
    let inner = || -> Result<u8, u8> {
        let deep = |x| -> Result<u8, u8> { Ok(g("z", x).map_err(|e| hkn("3rd ?", "__closure_in_closures__", e))?) };
        deep(b).map_err(|e| hkn("2nd tail expr", "__closure_in_closures__", e))
    };
    let bare = |x| g("w", x);
    let untyped = |x: u8| {
        let r = g("v", x);
        r
    };
    let m = move || -> Result<u8, u8> {
        (if b > 100 { Err(b).map_err(|e| hkn("3rd tail expr", "__closure_in_closures__", e)) } else { untyped(b) })
            .map_err(|e| hkn("4th tail expr", "__closure_in_closures__", e))
    };
    let s: Result<Vec<u8>, u8> = [a, b].iter().map(|x| -> Result<u8, u8> { g("it", *x).map_err(|e| hkn("5th tail expr", "__closure_in_closures__", e)) }).collect();
    let l = s.map_err(|e| hkn("4th ?", "closures", e))?.len() as u8;
    two.map_err(|e| hkn("5th ?", "closures", e))?.checked_add(inner().map_err(|e| hkn("6th ?", "closures", e))?).ok_or(1).map_err(|e| hkn("7th ?", "closures", e))?;
    m().map_err(|e| hkn("8th ?", "closures", e))?;
    bare(l).map_err(|e| hkn("6th tail expr", "closures", e))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_closures() {
    let (a, b) = (byte(), byte());
    twin(|| closures(a, b), || closures_plain(a, b));
}

// ---- match, if let, let else ----------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hk($nth, e)))]
fn matches_(a: u8, b: u8) -> Result<u8, u8> {
    let x = match g("s", a)? {
        0 => 0,
        v if g("g", v)? == 3 => g("h", b)?,
        v @ 1..=20 if v > 4 => v,
        7 => return Err(9),
        _ => {
            let Some(y) = o("o", b) else {
                return g("q", a & 0x7e);
            };
            y
        }
    };
    let Ok(z) = g("z", x) else { g("e", b)?; return Ok(x) };
    if let Ok(t) = g("t", z)
        && g("u", t)? > 4
    {
        return g("r", t);
    } else if let (0, t) | (t, 0) = (z, g("p", x)?) {
        match t {
            0 => Ok(z),
            _ => Err(t),
        }
    } else {
        Err(g("end", b)?)
    }
}
fn matches_plain(a: u8, b: u8) -> Result<u8, u8> {
    let x = match g("s", a).map_err(|e| hk("1st ?", e))? {
        0 => 0,
        v if g("g", v).map_err(|e| hk("2nd ?", e))? == 3 => g("h", b).map_err(|e| hk("3rd ?", e))?,
        v @ 1..=20 if v > 4 => v,
        7 => return Err(9).map_err(|e| hk("1st return", e)),
        _ => {
            let Some(y) = o("o", b) else {
                return g("q", a & 0x7e).map_err(|e| hk("2nd return", e));
            };
            y
        }
    };
    let Ok(z) = g("z", x) else { g("e", b).map_err(|e| hk("4th ?", e))?; return Ok(x) };
    (if let Ok(t) = g("t", z)
        && g("u", t).map_err(|e| hk("5th ?", e))? > 4
    {
        return g("r", t).map_err(|e| hk("3rd return", e));
    } else if let (0, t) | (t, 0) = (z, g("p", x).map_err(|e| hk("6th ?", e))?) {
        match t {
            0 => Ok(z),
            _ => Err(t).map_err(|e| hk("1st tail expr", e)),
        }
    } else {
        Err(g("end", b).map_err(|e| hk("7th ?", e))?).map_err(|e| hk("2nd tail expr", e))
    })
    .map_err(|e| hk("3rd tail expr", e))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_match() {
    let (a, b) = (byte(), byte());
    twin(|| matches_(a, b), || matches_plain(a, b));
}

// ---- operands of return, tails ----------------------------------------------------
fn id(r: Result<u8, u8>) -> Result<u8, u8> {
    r
}
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
mod ret {
    use super::*;
    pub fn of(k: u8, a: u8) -> Result<u8, u8> {
        match k {
            0 => return Err(a),
            1 => return Ok(a),
            2 => return id(Err(a)),
            3 => return id(Ok(a)).and_then(|x| Err(x)),
            4 => return if a > 9 { Err(a) } else { g("i", a) },
            5 => return match a { 0 => g("m", a), 1 => Ok(1), _ => Err(2) },
            6 => return { ev("b", a); g("b", a) },
            7 => {
                let f = |x: u8| { if x > 3 { return Err(x) } Ok(x) };
                return f(a);
            }
            8 => return unsafe { g("u", a) },
            9 => return loop { if a > 3 { break Err(a) } break g("l", a) },
            10 => return Result::Err(a),
            11 => return Result::<u8, u8>::Ok(g("q", a)?),
            12 => return (Err(a)),
            13 => return *Box::new(g("x", a)),
            _ => g("y", a),
        }
    }
    pub fn unit(a: u8) {
        let v: Result<u8, u8> = Err(a);
        if a > 9 {
            return;
        }
        ev("unit", a);
    }
    pub fn num(a: u8) -> u8 {
        if a > 9 {
            return a;
        }
        g("n", a).unwrap_or(3)
    }
}
mod ret_plain {
    use super::*;
    fn h(r: Result<u8, u8>) -> Result<u8, u8> {
        r.map_err(|e| hk("h", e))
    }
    pub fn of(k: u8, a: u8) -> Result<u8, u8> {
        h(match k {
            0 => return h(Err(a)),
            1 => return Ok(a),
            2 => return h(id(Err(a))),
            3 => return h(id(Ok(a)).and_then(|x| h(Err(x)))),
            4 => return h(if a > 9 { h(Err(a)) } else { g("i", a) }),
            5 => return h(match a { 0 => g("m", a), 1 => Ok(1), _ => h(Err(2)) }),
            6 => return h({ ev("b", a); g("b", a) }),
            7 => {
                let f = |x: u8| { if x > 3 { return h(Err(x)) } Ok(x) };
                return h(f(a));
            }
            8 => return h(unsafe { g("u", a) }),
            9 => return h(loop { if a > 3 { break Err(a) } break g("l", a) }),
            10 => return h(Result::Err(a)),
            11 => return Result::<u8, u8>::Ok(h(g("q", a))?),
            12 => return h((Err(a))),
            13 => return h(*Box::new(g("x", a))),
            _ => g("y", a),
        })
    }
    pub fn unit(a: u8) {
        let v: Result<u8, u8> = Err(a);
        if a > 9 {
            return;
        }
        ev("unit", a);
    }
    pub fn num(a: u8) -> u8 {
        if a > 9 {
            return a;
        }
        g("n", a).unwrap_or(3)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn t_returns() {
    let (k, a) = (choice(15), byte());
    twin(|| { ret::unit(a); ev("num", ret::num(a)); ret::of(k, a) }, || { ret_plain::unit(a); ev("num", ret_plain::num(a)); ret_plain::of(k, a) });
    cover(&format!("{k}"));
}
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
mod tail {
    use super::*;
    pub fn t0(a: u8) -> Result<u8, u8> { g("a", a) }
    pub fn t1(a: u8) -> Result<u8, u8> { Err(a) }
    pub fn t2(a: u8) -> Result<u8, u8> { Ok(a) }
    pub fn t3(a: u8) -> Result<u8, u8> { if a > 9 { Err(a) } else { Ok(a) } }
    pub fn t4(a: u8) -> Result<u8, u8> { match a { 0..9 => g("a", a), _ => return Err(1) } }
    pub fn t5(a: u8) -> Result<u8, u8> { { { g("a", a) } } }
    pub fn t6(a: u8) -> Result<u8, u8> { let r = { let q = a; Err::<u8, u8>(q) }; r }
    pub fn t7(a: u8) -> Result<u8, u8> { return g("a", a) }
    pub fn t8(a: u8) -> Result<u8, u8> { let _ = { ev("s", a); a }; { g("a", a) }.map(|x| x + 1) }
    pub fn t9(a: u8) -> Result<u8, u8> { (|| g("a", a))() }
    pub fn t10(a: u8) -> Result<u8, u8> { loop { break g("a", a) } }
    pub fn t11(a: u8) -> Result<u8, u8> { fn in_(a: u8) -> Result<u8, u8> { g("in", a) } in_(a) }
    pub fn t12(a: u8) -> Result<u8, u8> { *&g("a", a) }
    pub fn t13(a: u8) -> Result<u8, u8> { async_free(a) as Result<u8, u8> }
    pub fn t14(a: u8) -> core::result::Result<u8, u8> { self::t0(a).or_else(|e| -> Result<u8, u8> { Err(e) }) }
    pub fn t15(a: u8) -> impl Into<Result<u8, u8>> { g("a", a) }
}
fn async_free(a: u8) -> Result<u8, u8> {
    g("f", a)
}
mod tail_plain {
    use super::*;
    fn h(r: Result<u8, u8>) -> Result<u8, u8> {
        r.map_err(|e| hk("h", e))
    }
    pub fn t0(a: u8) -> Result<u8, u8> { h(g("a", a)) }
    pub fn t1(a: u8) -> Result<u8, u8> { h(Err(a)) }
    pub fn t2(a: u8) -> Result<u8, u8> { Ok(a) }
    pub fn t3(a: u8) -> Result<u8, u8> { h(if a > 9 { h(Err(a)) } else { Ok(a) }) }
    pub fn t4(a: u8) -> Result<u8, u8> { h(match a { 0..9 => g("a", a), _ => return h(Err(1)) }) }
    pub fn t5(a: u8) -> Result<u8, u8> { h({ { g("a", a) } }) }
    pub fn t6(a: u8) -> Result<u8, u8> { let r = { let q = a; h(Err::<u8, u8>(q)) }; h(r) }
    pub fn t7(a: u8) -> Result<u8, u8> { return h(g("a", a)) }
    pub fn t8(a: u8) -> Result<u8, u8> { let _ = { ev("s", a); a }; h({ g("a", a) }.map(|x| x + 1)) }
    pub fn t9(a: u8) -> Result<u8, u8> { h((|| g("a", a))()) }
    pub fn t10(a: u8) -> Result<u8, u8> { h(loop { break g("a", a) }) }
    pub fn t11(a: u8) -> Result<u8, u8> { fn in_(a: u8) -> Result<u8, u8> { h(g("in", a)) } h(in_(a)) }
    pub fn t12(a: u8) -> Result<u8, u8> { h(*&g("a", a)) }
    pub fn t13(a: u8) -> Result<u8, u8> { h(async_free(a) as Result<u8, u8>) }
    pub fn t14(a: u8) -> core::result::Result<u8, u8> { h(self::t0(a).or_else(|e| -> Result<u8, u8> { h(Err(e)) })) }
    pub fn t15(a: u8) -> impl Into<Result<u8, u8>> { g("a", a) }
}
#[unsafe(no_mangle)]
pub extern "C" fn t_tails() {
    let (k, a) = (choice(16), byte());
    macro_rules! pick { ($m:ident) => { match k { 0 => $m::t0(a), 1 => $m::t1(a), 2 => $m::t2(a), 3 => $m::t3(a), 4 => $m::t4(a), 5 => $m::t5(a), 6 => $m::t6(a), 7 => $m::t7(a), 8 => $m::t8(a), 9 => $m::t9(a),
        10 => $m::t10(a), 11 => $m::t11(a), 12 => $m::t12(a), 13 => $m::t13(a), 14 => $m::t14(a), _ => $m::t15(a).into() } } }
    twin(|| pick!(tail), || pick!(tail_plain));
    cover(&format!("{k}"));
}

// ---- methods, traits, generics, borrows ---------------------------------------------
struct M { at: usize, b: [u8; 3] }
trait Step {
    const K: u8;
    fn next(&mut self) -> Result<&mut u8, u8>;
    fn twice(&mut self) -> Result<u8, u8>;
}
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
impl M {
    fn new(b: [u8; 3]) -> Self { Self { at: 0, b } }
    fn bump(&mut self) -> Result<&mut Self, u8> {
        self.at = (self.at + g("bump", self.b[self.at])? as usize) % 3;
        Ok(self)
    }
    fn sum<I: Iterator<Item = u8>, E: Into<u8>>(it: I, f: impl Fn(u8) -> Result<u8, E>) -> Result<u8, u8> where E: Copy {
        let mut s = 0u8;
        for x in it { s = s.wrapping_add(f(x).map_err(Into::into)?); }
        Ok(s)
    }
}
impl Step for M {
    const K: u8 = 3;
    fn next(&mut self) -> Result<&mut u8, u8> {
        let (at, _) = (self.at, ev("next", self.at as u8));
        let r = self.b.get_mut(at + 1).ok_or(at as u8);
        r.map_err(|e| hk("h", e))
    }
    fn twice(&mut self) -> Result<u8, u8> {
        *self.next().map_err(|e| hk("h", e))? ^= 2;
        let x: u8 = *self.next().map_err(|e| hk("h", e))?;
        Ok(x & !1)
    }
}
struct N(M);
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
impl Step for N {
    const K: u8 = 3;
    fn next(&mut self) -> Result<&mut u8, u8> {
        let (at, _) = (self.0.at, ev("next", self.0.at as u8));
        let r = self.0.b.get_mut(at + 1).ok_or(at as u8);
        r
    }
    fn twice(&mut self) -> Result<u8, u8> {
        *self.next()? ^= 2;
        let x: u8 = *self.next()?;
        Ok(x & !1)
    }
}
struct Q(M);
impl Q {
    fn bump(&mut self) -> Result<&mut Self, u8> {
        self.0.at = (self.0.at + g("bump", self.0.b[self.0.at]).map_err(|e| hk("h", e))? as usize) % 3;
        Ok(self)
    }
    fn sum<I: Iterator<Item = u8>>(it: I, f: impl Fn(u8) -> Result<u8, u8>) -> Result<u8, u8> {
        let mut s = 0u8;
        for x in it { s = s.wrapping_add(f(x).map_err(|e| hk("h", e))?); }
        Ok(s)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn t_methods() {
    let b = [u8_in(0, 3), u8_in(0, 9), byte()];
    twin(
        || {
            let mut m = M::new(b);
            m.bump()?.bump()?;
            let s = M::sum(b.iter().copied(), |x| g("f", x))?;
            let mut n = N(m);
            Ok(n.twice()? ^ s)
        },
        || {
            let mut m = Q(M { at: 0, b });
            m.bump()?.bump()?;
            let s = Q::sum(b.iter().copied(), |x| g("f", x))?;
            Ok(m.0.twice()? ^ s)
        },
    );
}

// ---- async --------------------------------------------------------------------------
fn block<T>(f: impl Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        match f.as_mut().poll(&mut cx) {
            std::task::Poll::Ready(v) => return v,
            std::task::Poll::Pending => ev("pending", 0),
        }
    }
}
struct Later(bool);
impl Future for Later {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 { std::task::Poll::Ready(()) } else { self.0 = true; std::task::Poll::Pending }
    }
}
async fn ag(id: &str, x: u8) -> Result<u8, u8> {
    Later(false).await;
    g(id, x)
}
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
async fn asy(a: u8, b: u8) -> Result<u8, u8> {
    let x = ag("a", a).await?;
    let c = async |v: u8| -> Result<u8, u8> { ag("c", v).await };
    let y = async { ag("b", b).await?; Ok::<u8, u8>(x) }.await?;
    if y > 60 { return ag("r", b).await; }
    let z = c(y).await?;
    ag("t", z).await
}
async fn asy_plain(a: u8, b: u8) -> Result<u8, u8> {
    let x = ag("a", a).await.map_err(|e| hk("h", e))?;
    let c = async |v: u8| -> Result<u8, u8> { ag("c", v).await.map_err(|e| hk("h", e)) };
    let y = async { ag("b", b).await.map_err(|e| hk("h", e))?; Ok::<u8, u8>(x) }.await.map_err(|e| hk("h", e))?;
    if y > 60 { return ag("r", b).await.map_err(|e| hk("h", e)); }
    let z = c(y).await.map_err(|e| hk("h", e))?;
    ag("t", z).await.map_err(|e| hk("h", e))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_async() {
    let (a, b) = (byte(), byte());
    twin(|| block(asy(a, b)), || block(asy_plain(a, b)));
}

// ---- macros ---------------------------------------------------------------------------
macro_rules! pass { ($($t:tt)*) => { $($t)* }; }
macro_rules! own { ($e:expr => $id:literal) => { g($id, $e)? }; }
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
fn mac(a: u8, b: u8) -> Result<u8, u8> {
    let v = vec![g("a", a)?, g("b", b)?];
    let w = vec![g("w", a & 6)?; (g("n", 4)?) as usize];
    debug_assert!(v.len() == 2);
    assert_eq!(w.len(), g("as", 4)? as usize, "{}", g("msg", 2)?);
    if matches!(g("ma", b)?, 0 | 2..=9 if g("gd", a)? > 1) { ev("m", 0); }
    let s = format!("{}{x}", g("f", a)?, x = g("x", 8)?).len() as u8;
    pass! { let q = g("p", s & 6)?; ev("q", q); }
    let z = own!(w[0] => "own");
    #[hooq::hook_in_macros(false)]
    let y = pass!(g("off", b)?);
    pass!(if y > 100 { return Err(y) });
    pass!(g("end", z))
}
fn mac_plain(a: u8, b: u8) -> Result<u8, u8> {
    let h = |r: Result<u8, u8>| r.map_err(|e| hk("h", e));
    let v = vec![h(g("a", a))?, h(g("b", b))?];
    let w = vec![h(g("w", a & 6))?; (h(g("n", 4))?) as usize];
    debug_assert!(v.len() == 2);
    assert_eq!(w.len(), h(g("as", 4))? as usize, "{}", h(g("msg", 2))?);
    if matches!(g("ma", b)?, 0 | 2..=9 if g("gd", a)? > 1) { ev("m", 0); }
    let s = format!("{}{x}", h(g("f", a))?, x = h(g("x", 8))?).len() as u8;
    let q = h(g("p", s & 6))?;
    ev("q", q);
    let z = own!(w[0] => "own");
    let y = g("off", b)?;
    if y > 100 { return h(Err(y)) }
    h(g("end", z))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_macros() {
    let (a, b) = (byte(), byte());
    twin(|| mac(a, b), || mac_plain(a, b));
}

// ---- Option and other types -------------------------------------------------------------
trait Hooked: Sized {
    fn hook(self, at: &str) -> Self;
}
impl<T, E: Copy + Into<u8>> Hooked for Result<T, E> {
    fn hook(self, at: &str) -> Self {
        if let Err(e) = &self { ev(at, (*e).into()); }
        self
    }
}
impl<T> Hooked for Option<T> {
    fn hook(self, at: &str) -> Self {
        if self.is_none() { ev(at, 255); }
        self
    }
}
#[hooq]
#[hooq::method(.hook($nth))]
#[hooq::result_types("Result", "Option")]
#[hooq::tail_expr_idents("Err", "None")]
#[hooq::ignore_tail_expr_idents("Ok", "Some")]
fn opt(a: u8, b: u8) -> Option<u8> {
    let x = o("a", a)?;
    let y: Result<u8, bool> = (|| -> Result<u8, bool> { if b > 9 { return Err(true); } Ok(g("b", b).ok().ok_or(false)?) })();
    let z = y.ok()?;
    if z == 4 { return None; }
    if z == 2 { return Some(1); }
    o("t", x ^ z)
}
fn opt_plain(a: u8, b: u8) -> Option<u8> {
    let x = o("a", a).hook("1st ?")?;
    let y: Result<u8, bool> = (|| -> Result<u8, bool> { if b > 9 { return Err(true).hook("1st return"); } Ok(g("b", b).ok().ok_or(false).hook("2nd ?")?) })();
    let z = y.ok().hook("3rd ?")?;
    if z == 4 { return None.hook("2nd return"); }
    if z == 2 { return Some(1); }
    o("t", x ^ z).hook("1st tail expr")
}
#[unsafe(no_mangle)]
pub extern "C" fn t_options() {
    let (a, b) = (byte(), byte());
    twin(|| opt(a, b).ok_or(0), || opt_plain(a, b).ok_or(0));
}

// ---- settings -----------------------------------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hk($tag, e)))]
#[hooq::binding(tag = "out")]
fn settings(a: u8, b: u8) -> Result<u8, u8> {
    let x = #[hooq::skip] { g("s", a & 2)? };
    let w = #[hooq::skip] g("s2", g("s3", a)?)?;
    #[hooq::skip_all]
    for i in 0..2 { g("sa", i * 2)?; if b == 7 { return Err(1); } }
    #[hooq::method(.map_err(|e| hk("in", e)).$so_far)]
    {
        g("m", a)?;
        #[hooq::binding(tag = "deep")]
        #[hooq::method(wrap($expr, $tag))]
        { g("n", b)?; }
    }
    #[hooq::hook_targets("return")]
    if x == 0 { g("t", b)?; return Err(2); }
    #[hooq::tail_expr_idents("g")]
    let y = { g("i", b) };
    #[hooq::binding(tag = &format!("{}", a & 7))]
    { y? };
    #[hooq::ignore_tail_expr_idents("g")]
    { if a > 99 { return g("ig", a); } }
    #[hooq::result_types("Option")]
    { if a > 60 { return id(Err(a)); } }
    id(g("end", a))
}
fn wrap(r: Result<u8, u8>, t: &str) -> Result<u8, u8> {
    ev(t, 1);
    r
}
fn settings_plain(a: u8, b: u8) -> Result<u8, u8> {
    let x = { g("s", a & 2).map_err(|e| hk("out", e))? };
    let w = g("s2", g("s3", a)?)?;
    for i in 0..2 { g("sa", i * 2)?; if b == 7 { return Err(1); } }
    {
        g("m", a).map_err(|e| hk("in", e)).map_err(|e| hk("out", e))?;
        { wrap(g("n", b), "deep")?; }
    }
    if x == 0 { g("t", b)?; return Err(2).map_err(|e| hk("out", e)); }
    let y = { g("i", b).map_err(|e| hk("out", e)) };
    { y.map_err(|e| hk(&format!("{}", a & 7), e))? };
    { if a > 99 { return g("ig", a); } }
    { if a > 60 { return id(Err(a)); } }
    id(g("end", a)).map_err(|e| hk("out", e))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_settings() {
    let (a, b) = (byte(), byte());
    twin(|| settings(a, b), || settings_plain(a, b));
}

// ---- nested items ----------------------------------------------------------------------------
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
fn items(a: u8) -> Result<u8, u8> {
    const C: u8 = { const fn k() -> Result<u8, u8> { const X: Result<u8, u8> = Ok(4); #[hooq::skip] { X } } match k() { Ok(v) => v, _ => 0 } };
    static F: fn(u8) -> Result<u8, u8> = |x: u8| -> Result<u8, u8> { Ok(g("F", x)?) };
    struct L(u8);
    impl L { fn go(self) -> Result<u8, u8> { Ok(g("go", self.0)?) } }
    trait T { fn d(&self, x: u8) -> Result<u8, u8> { g("d", x)?; Err(x) } }
    impl T for L {}
    enum E { A = { 1 + 1 } }
    let t = L(1).d(a & 0xfe);
    m_f(L(F(a)?).go()? ^ C)?;
    fn m_f(x: u8) -> Result<u8, u8> { g("f", x) }
    t.or(Ok(E::A as u8))
}
fn items_plain(a: u8) -> Result<u8, u8> {
    fn h(r: Result<u8, u8>) -> Result<u8, u8> { r.map_err(|e| hk("h", e)) }
    const C: u8 = 4;
    static F: fn(u8) -> Result<u8, u8> = |x: u8| -> Result<u8, u8> { Ok(h(g("F", x))?) };
    struct L(u8);
    impl L { fn go(self) -> Result<u8, u8> { Ok(h(g("go", self.0))?) } }
    trait T { fn d(&self, x: u8) -> Result<u8, u8> { h(g("d", x))?; h(Err(x)) } }
    impl T for L {}
    let t = L(1).d(a & 0xfe);
    h(m_f(h(L(h(F(a))?).go())? ^ C))?;
    fn m_f(x: u8) -> Result<u8, u8> { h(g("f", x)) }
    h(t.or(Ok(2)))
}
#[unsafe(no_mangle)]
pub extern "C" fn t_items() {
    let a = byte();
    twin(|| items(a), || items_plain(a));
}

// ---- state, drops, order -----------------------------------------------------------------------
struct D<'a>(&'a str, u8);
impl Drop for D<'_> { fn drop(&mut self) { ev(self.0, self.1) } }
impl D<'_> { fn g(&self, x: u8) -> Result<u8, u8> { g(self.0, x) } }
fn mk(n: &str, x: u8) -> Result<D<'_>, u8> { g("mk", x)?; Ok(D(n, x)) }
#[hooq]
#[hooq::method(.map_err(|e| hk("h", e)))]
fn state(a: u8, b: u8) -> Result<u8, u8> {
    let d = D("d1", a);
    let v = mk("d2", a)?.g(b)?;
    let _e = mk("d3", b)?;
    let mut q = [0u8; 3];
    q[g("ix", v & 2)? as usize] += g("rhs", b)?;
    let mut s = String::new();
    s.push_str(&format!("{}", g("fmt", q[1])?));
    let r = &mut q;
    r[0] = d.g(a)?;
    drop(d);
    mk("d4", r[0])?.g(s.len() as u8)
}
fn state_plain(a: u8, b: u8) -> Result<u8, u8> {
    let h = |e| hk("h", e);
    let d = D("d1", a);
    let v = mk("d2", a).map_err(h)?.g(b).map_err(h)?;
    let _e = mk("d3", b).map_err(h)?;
    let mut q = [0u8; 3];
    q[g("ix", v & 2).map_err(h)? as usize] += g("rhs", b).map_err(h)?;
    let mut s = String::new();
    s.push_str(&format!("{}", g("fmt", q[1]).map_err(h)?));
    let r = &mut q;
    r[0] = d.g(a).map_err(h)?;
    drop(d);
    mk("d4", r[0]).map_err(h)?.g(s.len() as u8).map_err(h)
}
#[unsafe(no_mangle)]
pub extern "C" fn t_state() {
    let (a, b) = (byte(), byte());
    twin(|| state(a, b), || state_plain(a, b));
}

// ---- exactly once, replacement ------------------------------------------------------------------
fn around(r: Result<u8, u8>, at: &str) -> Result<u8, u8> {
    ev(at, match r { Ok(v) => v, Err(e) => e });
    r
}
#[hooq]
#[hooq::method(around($expr, $nth))]
fn once(a: u8, b: u8) -> Result<u8, u8> {
    let x = g("a", g("b", a)? & 0xfe)?;
    let y = [g("c", x), g("d", b)].into_iter().map(|r| -> Result<u8, u8> { Ok(r? + 1) }).last().unwrap()?;
    if y > 50 { return if x > 3 { g("e", y) } else { Err(y) }; }
    match y { 0 => Ok(0), 1 => Err(g("f", a)?), _ => g("z", g("y", y)?) }
}
fn once_plain(a: u8, b: u8) -> Result<u8, u8> {
    let x = around(g("a", around(g("b", a), "1st ?")? & 0xfe), "2nd ?")?;
    let y = around([g("c", x), g("d", b)].into_iter().map(|r| -> Result<u8, u8> { Ok(around(r, "3rd ?")? + 1) }).last().unwrap(), "4th ?")?;
    if y > 50 { return around(if x > 3 { g("e", y) } else { around(Err(y), "1st tail expr") }, "1st return"); }
    around(match y { 0 => Ok(0), 1 => around(Err(around(g("f", a), "5th ?")?), "2nd tail expr"), _ => g("z", around(g("y", y), "6th ?")?) }, "3rd tail expr")
}
#[unsafe(no_mangle)]
pub extern "C" fn t_once() {
    let (a, b) = (byte(), byte());
    twin(|| once(a, b), || once_plain(a, b));
}
#[hooq(empty)]
fn empty(a: u8) -> Result<u8, u8> {
    let x = g("a", g("b", a)? & 0xfe)?;
    if x > 50 { return Err(x); }
    g("c", x)
}
#[unsafe(no_mangle)]
pub extern "C" fn t_empty() {
    let a = byte();
    twin(
        || empty(a),
        || {
            let x = g("a", g("b", a)? & 0xfe)?;
            if x > 50 { return Err(x); }
            g("c", x)
        },
    );
}
