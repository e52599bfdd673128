//! Hash-consed bit-vector terms with local simplification.
use crate::ir::Bin;
use std::collections::HashMap;

pub type ExprId = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    /// byte-valued input variable
    Var(u32),
    Bin(u8, ExprId, ExprId),
    Not(ExprId),
    Eq(ExprId, ExprId),
    Ult(ExprId, ExprId),
    Slt(ExprId, ExprId),
    Ite(ExprId, ExprId, ExprId),
    Extract(ExprId, u32),
    Concat(ExprId, ExprId),
    ZExt(ExprId),
    SExt(ExprId),
}
#[derive(Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u32,
    /// single variable this depends on, or NOVAR / MULTI
    pub sv: u32,
    /// number of leaves if this is an ite tree over constants (0: it is not)
    pub leaves: u32,
}
pub const NOVAR: u32 = u32::MAX;
pub const MULTI: u32 = u32::MAX - 1;

pub struct Store {
    pub nodes: Vec<Node>,
    map: HashMap<(N, u32), ExprId, Fx>,
    pub tt: HashMap<ExprId, [u64; 4], Fx>,
    pub supp: HashMap<ExprId, std::rc::Rc<Vec<u32>>, Fx>,
    eqk: HashMap<(ExprId, u128), ExprId, Fx>,
}
#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}

static mut STORE: *mut Store = std::ptr::null_mut();
#[inline(always)]
pub fn st() -> &'static mut Store {
    unsafe {
        if STORE.is_null() {
            STORE = Box::leak(Box::new(Store {
                nodes: Vec::new(),
                map: HashMap::default(),
                tt: HashMap::default(),
                supp: HashMap::default(),
                eqk: HashMap::default(),
            }));
        }
        &mut *STORE
    }
}
#[inline(always)]
pub fn node(e: ExprId) -> Node {
    st().nodes[e as usize]
}
#[inline(always)]
pub fn width(e: ExprId) -> u32 {
    node(e).w
}
pub fn mask128(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn as_const(e: ExprId) -> Option<u128> {
    match node(e).n {
        N::Const(c) => Some(c),
        _ => None,
    }
}
fn joinv(a: u32, b: u32) -> u32 {
    if a == NOVAR {
        b
    } else if b == NOVAR || a == b {
        a
    } else {
        MULTI
    }
}
fn mk(n: N, w: u32) -> ExprId {
    let s = st();
    if let Some(&e) = s.map.get(&(n, w)) {
        return e;
    }
    let (sv, leaves) = match n {
        N::Const(_) => (NOVAR, 1),
        N::Var(i) => (i, 0),
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => {
            (joinv(s.nodes[a as usize].sv, s.nodes[b as usize].sv), 0)
        }
        N::Ite(c, a, b) => {
            let (x, y) = (s.nodes[a as usize], s.nodes[b as usize]);
            let l = if x.leaves > 0 && y.leaves > 0 { x.leaves + y.leaves } else { 0 };
            (joinv(s.nodes[c as usize].sv, joinv(x.sv, y.sv)), l)
        }
        N::Not(a) | N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => (s.nodes[a as usize].sv, 0),
    };
    let id = s.nodes.len() as u32;
    s.nodes.push(Node { n, w, sv, leaves });
    s.map.insert((n, w), id);
    id
}
pub fn konst(w: u32, c: u128) -> ExprId {
    mk(N::Const(c & mask128(w)), w)
}
pub fn var(i: u32) -> ExprId {
    mk(N::Var(i), 8)
}
pub fn tru() -> ExprId {
    konst(1, 1)
}
pub fn fls() -> ExprId {
    konst(1, 0)
}

fn sx(c: u128, w: u32) -> i128 {
    ((c << (128 - w)) as i128) >> (128 - w)
}
pub fn fold(op: Bin, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    (match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => if b == 0 { m } else { a / b },
        Bin::URem => if b == 0 { a } else { a % b },
        Bin::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        Bin::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => (sx(a, w) >> b.min(w as u128 - 1).min(127)) as u128,
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    }) & m
}
const OPS: [Bin; 13] = [
    Bin::Add, Bin::Sub, Bin::Mul, Bin::UDiv, Bin::SDiv, Bin::URem, Bin::SRem, Bin::Shl, Bin::LShr, Bin::AShr, Bin::And, Bin::Or, Bin::Xor,
];
pub fn opof(b: u8) -> Bin {
    OPS[b as usize]
}

/// apply `f` to every constant leaf of an ite tree
fn map_leaves(e: ExprId, memo: &mut HashMap<ExprId, ExprId, Fx>, f: &dyn Fn(u128) -> ExprId) -> ExprId {
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let r = match node(e).n {
        N::Const(c) => f(c),
        N::Ite(c, a, b) => {
            let x = map_leaves(a, memo, f);
            let y = map_leaves(b, memo, f);
            ite(c, x, y)
        }
        _ => unreachable!(),
    };
    memo.insert(e, r);
    r
}
pub fn bin(op: Bin, a: ExprId, b: ExprId) -> ExprId {
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    debug_assert_eq!(w, nb.w);
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(w, fold(op, w, x, y));
    }
    let m = mask128(w);
    if w == 1 {
        match op {
            Bin::Add | Bin::Sub => return bin(Bin::Xor, a, b),
            Bin::Mul => return bin(Bin::And, a, b),
            _ => {}
        }
    }
    match op {
        Bin::Add => {
            if ca == Some(0) { return b; }
            if cb == Some(0) { return a; }
            if ca.is_some() { return bin(op, b, a); }
            if let (N::Bin(o, x, y), Some(k)) = (na.n, cb) {
                if o == Bin::Add as u8 {
                    if let Some(k2) = as_const(y) {
                        return bin(Bin::Add, x, konst(w, k.wrapping_add(k2)));
                    }
                }
            }
        }
        Bin::Sub => {
            if cb == Some(0) { return a; }
            if a == b { return konst(w, 0); }
            if let Some(k) = cb { return bin(Bin::Add, a, konst(w, k.wrapping_neg())); }
        }
        Bin::And => {
            if a == b { return a; }
            if ca.is_some() { return bin(op, b, a); }
            if cb == Some(0) { return b; }
            if cb == Some(m) { return a; }
            if w == 1 && (na.n == N::Not(b) || nb.n == N::Not(a)) { return konst(1, 0); }
            if let Some(k) = cb {
                let t = 128 - k.leading_zeros();
                if t < w {
                    // high bits are cleared
                    let lo = bin(Bin::And, extract(a, 0, t), konst(t, k));
                    return zext(lo, w);
                }
            }
        }
        Bin::Or => {
            if a == b { return a; }
            if ca.is_some() { return bin(op, b, a); }
            if cb == Some(0) { return a; }
            if cb == Some(m) { return b; }
            if w == 1 && (na.n == N::Not(b) || nb.n == N::Not(a)) { return konst(1, 1); }
            if let Some(r) = or_disjoint(a, b) { return r; }
        }
        Bin::Xor => {
            if a == b { return konst(w, 0); }
            if ca.is_some() { return bin(op, b, a); }
            if cb == Some(0) { return a; }
            if w == 1 && cb == Some(1) { return not(a); }
        }
        Bin::Mul => {
            if ca.is_some() { return bin(op, b, a); }
            if cb == Some(0) { return b; }
            if cb == Some(1) { return a; }
            if let Some(k) = cb {
                if k.is_power_of_two() { return bin(Bin::Shl, a, konst(w, k.trailing_zeros() as u128)); }
            }
        }
        Bin::UDiv => {
            if cb == Some(1) { return a; }
            if let Some(k) = cb {
                if k.is_power_of_two() { return bin(Bin::LShr, a, konst(w, k.trailing_zeros() as u128)); }
            }
        }
        Bin::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() { return bin(Bin::And, a, konst(w, k - 1)); }
            }
        }
        Bin::Shl => {
            if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return konst(w, 0); }
                let k = k as u32;
                return concat(extract(a, 0, w - k), konst(k, 0));
            }
        }
        Bin::LShr => {
            if let Some(k) = cb {
                if k == 0 { return a; }
                if k >= w as u128 { return konst(w, 0); }
                let k = k as u32;
                return zext(extract(a, k, w - k), w);
            }
        }
        Bin::AShr => {
            if cb == Some(0) { return a; }
        }
        _ => {}
    }
    if na.leaves > 0 && cb.is_some() && na.leaves <= 64 {
        let k = cb.unwrap();
        return map_leaves(a, &mut HashMap::default(), &|c| konst(w, fold(op, w, c, k)));
    }
    if nb.leaves > 0 && ca.is_some() && nb.leaves <= 64 {
        let k = ca.unwrap();
        return map_leaves(b, &mut HashMap::default(), &|c| konst(w, fold(op, w, k, c)));
    }
    if w == 1 && matches!(op, Bin::And | Bin::Or | Bin::Xor) && a > b {
        return mk(N::Bin(op as u8, b, a), w);
    }
    mk(N::Bin(op as u8, a, b), w)
}
/// pieces of a concat, most significant first
fn pieces(e: ExprId, out: &mut Vec<ExprId>) {
    match node(e).n {
        N::Concat(a, b) => {
            pieces(a, out);
            pieces(b, out);
        }
        N::ZExt(a) => {
            out.push(konst(width(e) - width(a), 0));
            pieces(a, out);
        }
        _ => out.push(e),
    }
}
fn or_disjoint(a: ExprId, b: ExprId) -> Option<ExprId> {
    let is = |e: ExprId| matches!(node(e).n, N::Concat(..) | N::ZExt(_));
    if !is(a) || !is(b) {
        return None;
    }
    let (mut p, mut q) = (Vec::new(), Vec::new());
    pieces(a, &mut p);
    pieces(b, &mut q);
    // walk from the least significant end
    let mut out: Vec<ExprId> = Vec::new();
    let (mut i, mut j) = (p.pop()?, q.pop()?);
    loop {
        let (wi, wj) = (width(i), width(j));
        let k = wi.min(wj);
        let (x, y) = (extract(i, 0, k), extract(j, 0, k));
        if as_const(x) == Some(0) {
            out.push(y);
        } else if as_const(y) == Some(0) {
            out.push(x);
        } else {
            return None;
        }
        if wi > k { i = extract(i, k, wi - k); } else { match p.pop() { Some(n) => i = n, None => break } }
        if wj > k { j = extract(j, k, wj - k); } else { match q.pop() { Some(n) => j = n, None => break } }
    }
    let mut r = out.pop().unwrap();
    while let Some(n) = out.pop() {
        r = concat(r, n);
    }
    Some(r)
}
pub fn not(a: ExprId) -> ExprId {
    match node(a).n {
        N::Const(c) => konst(1, 1 - c),
        N::Not(x) => x,
        _ => mk(N::Not(a), 1),
    }
}
pub fn and(a: ExprId, b: ExprId) -> ExprId {
    bin(Bin::And, a, b)
}
pub fn or(a: ExprId, b: ExprId) -> ExprId {
    bin(Bin::Or, a, b)
}
pub fn eq(a: ExprId, b: ExprId) -> ExprId {
    if a == b {
        return tru();
    }
    let (na, nb) = (node(a), node(b));
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return konst(1, (x == y) as u128),
        (Some(x), None) => return eqk(b, x),
        (None, Some(y)) => return eqk(a, y),
        _ => {}
    }
    if na.w == 1 {
        return not(bin(Bin::Xor, a, b));
    }
    match (na.n, nb.n) {
        (N::ZExt(x), N::ZExt(y)) if width(x) == width(y) => return eq(x, y),
        (N::SExt(x), N::SExt(y)) if width(x) == width(y) => return eq(x, y),
        (N::Concat(..), _) | (_, N::Concat(..)) | (N::ZExt(_), _) | (_, N::ZExt(_)) => {
            // split along the first seam
            let s = |e: ExprId| match node(e).n {
                N::Concat(_, l) => width(l),
                N::ZExt(x) => width(x),
                _ => 0,
            };
            let k = s(a).max(s(b));
            if k > 0 && k < na.w {
                let h = eq(extract(a, k, na.w - k), extract(b, k, na.w - k));
                if as_const(h) == Some(0) { return h; }
                let l = eq(extract(a, 0, k), extract(b, 0, k));
                return and(h, l);
            }
        }
        _ => {}
    }
    let (x, y) = if a < b { (a, b) } else { (b, a) };
    mk(N::Eq(x, y), 1)
}
fn eqk(a: ExprId, k: u128) -> ExprId {
    let na = node(a);
    let w = na.w;
    match na.n {
        N::Const(c) => return konst(1, (c == k) as u128),
        N::ZExt(x) => {
            return if k <= mask128(width(x)) { eqk(x, k) } else { fls() };
        }
        N::SExt(x) => {
            let wx = width(x);
            let lo = k & mask128(wx);
            return if (sx(lo, wx) as u128) & mask128(w) == k { eqk(x, lo) } else { fls() };
        }
        N::Not(x) => return eqk(x, 1 - k),
        N::Concat(h, l) => {
            let wl = width(l);
            let x = eqk(h, k >> wl);
            if as_const(x) == Some(0) { return x; }
            let y = eqk(l, k & mask128(wl));
            return and(x, y);
        }
        N::Bin(o, x, y) => match opof(o) {
            Bin::Sub if k == 0 => return eq(x, y),
            Bin::Xor if k == 0 => return eq(x, y),
            Bin::Add => if let Some(c) = as_const(y) { return eqk(x, k.wrapping_sub(c) & mask128(w)); },
            Bin::Xor if w > 1 => if let Some(c) = as_const(y) { return eqk(x, k ^ c); },
            Bin::Or if k == 0 && w > 1 => return and(eqk(x, 0), eqk(y, 0)),
            _ => {}
        },
        N::Ite(c, x, y) => {
            if let Some(&r) = st().eqk.get(&(a, k)) {
                return r;
            }
            let r = ite(c, eqk(x, k), eqk(y, k));
            st().eqk.insert((a, k), r);
            return r;
        }
        _ => {}
    }
    if w == 1 {
        return if k == 1 { a } else { not(a) };
    }
    mk(N::Eq(konst(w, k), a), 1)
}
pub fn ult(a: ExprId, b: ExprId) -> ExprId {
    if a == b {
        return fls();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    let (ca, cb) = (as_const(a), as_const(b));
    match (ca, cb) {
        (Some(x), Some(y)) => return konst(1, (x < y) as u128),
        (None, Some(0)) => return fls(),
        (None, Some(1)) => return eqk(a, 0),
        (Some(x), None) if x == mask128(w) => return fls(),
        (Some(0), None) => return not(eqk(b, 0)),
        _ => {}
    }
    match (na.n, nb.n) {
        (N::ZExt(x), N::ZExt(y)) if width(x) == width(y) => return ult(x, y),
        (N::ZExt(x), N::Const(k)) => {
            return if k > mask128(width(x)) { tru() } else { ult(x, konst(width(x), k)) };
        }
        (N::Const(k), N::ZExt(x)) => {
            return if k >= mask128(width(x)) { fls() } else { ult(konst(width(x), k), x) };
        }
        (N::Ite(..), N::Const(k)) if na.leaves > 0 && na.leaves <= 300 => {
            return map_leaves(a, &mut HashMap::default(), &|c| konst(1, (c < k) as u128));
        }
        (N::Const(k), N::Ite(..)) if nb.leaves > 0 && nb.leaves <= 300 => {
            return map_leaves(b, &mut HashMap::default(), &|c| konst(1, (k < c) as u128));
        }
        _ => {}
    }
    mk(N::Ult(a, b), 1)
}
pub fn ule(a: ExprId, b: ExprId) -> ExprId {
    not(ult(b, a))
}
pub fn slt(a: ExprId, b: ExprId) -> ExprId {
    if a == b {
        return fls();
    }
    let (na, nb) = (node(a), node(b));
    let w = na.w;
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(1, (sx(x, w) < sx(y, w)) as u128);
    }
    match (na.n, nb.n) {
        (N::ZExt(_), N::ZExt(_)) => return ult(a, b),
        (N::ZExt(_), N::Const(k)) => return if sx(k, w) < 0 { fls() } else { ult(a, b) },
        (N::Const(k), N::ZExt(_)) => return if sx(k, w) < 0 { tru() } else { ult(a, b) },
        (N::SExt(x), N::SExt(y)) if width(x) == width(y) => return slt(x, y),
        (N::Ite(..), N::Const(k)) if na.leaves > 0 && na.leaves <= 300 => {
            return map_leaves(a, &mut HashMap::default(), &|c| konst(1, (sx(c, w) < sx(k, w)) as u128));
        }
        (N::Const(k), N::Ite(..)) if nb.leaves > 0 && nb.leaves <= 300 => {
            return map_leaves(b, &mut HashMap::default(), &|c| konst(1, (sx(k, w) < sx(c, w)) as u128));
        }
        _ => {}
    }
    mk(N::Slt(a, b), 1)
}
pub fn ite(c: ExprId, a: ExprId, b: ExprId) -> ExprId {
    if a == b {
        return a;
    }
    match node(c).n {
        N::Const(k) => return if k == 1 { a } else { b },
        N::Not(x) => return ite(x, b, a),
        _ => {}
    }
    let (na, nb) = (node(a), node(b));
    if na.w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return or(c, b),
            (Some(0), None) => return and(not(c), b),
            (None, Some(1)) => return or(not(c), a),
            (None, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    let a = if let N::Ite(c2, x, _) = na.n { if c2 == c { x } else { a } } else { a };
    let b = if let N::Ite(c2, _, y) = nb.n { if c2 == c { y } else { b } } else { b };
    if a == b {
        return a;
    }
    mk(N::Ite(c, a, b), na.w)
}
pub fn extract(a: ExprId, lo: u32, w: u32) -> ExprId {
    let na = node(a);
    debug_assert!(lo + w <= na.w);
    if lo == 0 && w == na.w {
        return a;
    }
    match na.n {
        N::Const(c) => return konst(w, c >> lo),
        N::Extract(x, l2) => return extract(x, lo + l2, w),
        N::Concat(h, l) => {
            let wl = width(l);
            if lo >= wl { return extract(h, lo - wl, w); }
            if lo + w <= wl { return extract(l, lo, w); }
            let hi = extract(h, 0, lo + w - wl);
            let l2 = extract(l, lo, wl - lo);
            return concat(hi, l2);
        }
        N::ZExt(x) => {
            let wx = width(x);
            if lo >= wx { return konst(w, 0); }
            if lo + w <= wx { return extract(x, lo, w); }
            return zext(extract(x, lo, wx - lo), w);
        }
        N::SExt(x) => {
            let wx = width(x);
            if lo + w <= wx { return extract(x, lo, w); }
            if lo == 0 { return sext(x, w); }
        }
        N::Ite(c, x, y) => {
            if na.leaves > 0 && na.leaves <= 300 {
                return map_leaves(a, &mut HashMap::default(), &|c| konst(w, c >> lo));
            }
            if as_const(x).is_some() || as_const(y).is_some() {
                return ite(c, extract(x, lo, w), extract(y, lo, w));
            }
        }
        N::Bin(o, x, y) => {
            let op = opof(o);
            match op {
                Bin::And | Bin::Or | Bin::Xor => return bin(op, extract(x, lo, w), extract(y, lo, w)),
                Bin::Add | Bin::Sub | Bin::Mul if lo == 0 => return bin(op, extract(x, 0, w), extract(y, 0, w)),
                _ => {}
            }
        }
        _ => {}
    }
    mk(N::Extract(a, lo), w)
}
fn try_merge(a: ExprId, b: ExprId) -> Option<ExprId> {
    let (na, nb) = (node(a), node(b));
    match (na.n, nb.n) {
        (N::Const(x), N::Const(y)) if na.w + nb.w <= 128 => Some(konst(na.w + nb.w, (x << nb.w) | y)),
        (N::Extract(x, lx), N::Extract(y, ly)) if x == y && lx == ly + nb.w => Some(extract(x, ly, na.w + nb.w)),
        _ => None,
    }
}
pub fn concat(a: ExprId, b: ExprId) -> ExprId {
    let w = width(a) + width(b);
    if let Some(r) = try_merge(a, b) {
        return r;
    }
    match node(a).n {
        N::Const(0) => return zext(b, w),
        N::ZExt(x) => return zext(concat(x, b), w),
        N::Concat(h, l) => {
            if let Some(r) = try_merge(l, b) {
                return concat(h, r);
            }
        }
        _ => {}
    }
    // extract of the same term on the left against a low part: Concat(Extract(x, k..), x[0..k]) handled by try_merge
    if let N::Extract(x, lo) = node(a).n {
        if lo == width(b) && extract(x, 0, lo) == b {
            return extract(x, 0, w);
        }
    }
    mk(N::Concat(a, b), w)
}
pub fn zext(a: ExprId, w: u32) -> ExprId {
    let na = node(a);
    if na.w == w {
        return a;
    }
    match na.n {
        N::Const(c) => konst(w, c),
        N::ZExt(x) => zext(x, w),
        N::Ite(..) if na.leaves > 0 && na.leaves <= 300 => map_leaves(a, &mut HashMap::default(), &|c| konst(w, c)),
        _ => mk(N::ZExt(a), w),
    }
}
pub fn sext(a: ExprId, w: u32) -> ExprId {
    let na = node(a);
    if na.w == w {
        return a;
    }
    match na.n {
        N::Const(c) => konst(w, sx(c, na.w) as u128),
        N::SExt(x) => sext(x, w),
        N::ZExt(x) => zext(x, w),
        N::Ite(..) if na.leaves > 0 && na.leaves <= 300 => map_leaves(a, &mut HashMap::default(), &|c| konst(w, sx(c, na.w) as u128)),
        _ => mk(N::SExt(a), w),
    }
}

fn children(n: N) -> ([ExprId; 3], usize) {
    match n {
        N::Const(_) | N::Var(_) => ([0; 3], 0),
        N::Bin(_, a, b) | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::Concat(a, b) => ([a, b, 0], 2),
        N::Ite(c, a, b) => ([c, a, b], 3),
        N::Not(a) | N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => ([a, 0, 0], 1),
    }
}
/// nodes reachable from `e`, children before parents (ids are created bottom-up)
pub fn postorder(e: ExprId) -> Vec<ExprId> {
    let mut seen: std::collections::HashSet<ExprId, Fx> = Default::default();
    let mut stack = vec![e];
    let mut out = Vec::new();
    while let Some(x) = stack.pop() {
        if !seen.insert(x) {
            continue;
        }
        out.push(x);
        let (c, k) = children(node(x).n);
        stack.extend_from_slice(&c[..k]);
    }
    out.sort_unstable();
    out
}
pub fn eval_node(n: Node, get: &dyn Fn(ExprId) -> u128, varv: &dyn Fn(u32) -> u8) -> u128 {
    match n.n {
        N::Const(c) => c,
        N::Var(i) => varv(i) as u128,
        N::Bin(o, a, b) => fold(opof(o), n.w, get(a), get(b)),
        N::Not(a) => 1 - get(a),
        N::Eq(a, b) => (get(a) == get(b)) as u128,
        N::Ult(a, b) => (get(a) < get(b)) as u128,
        N::Slt(a, b) => {
            let w = width(a);
            (sx(get(a), w) < sx(get(b), w)) as u128
        }
        N::Ite(c, a, b) => if get(c) == 1 { get(a) } else { get(b) },
        N::Extract(a, lo) => (get(a) >> lo) & mask128(n.w),
        N::Concat(a, b) => (get(a) << width(b)) | get(b),
        N::ZExt(a) => get(a),
        N::SExt(a) => (sx(get(a), width(a)) as u128) & mask128(n.w),
    }
}
pub fn eval(e: ExprId, model: &[u8]) -> u128 {
    if let N::Const(c) = node(e).n {
        return c;
    }
    let po = postorder(e);
    let mut vals: HashMap<ExprId, u128, Fx> = HashMap::with_capacity_and_hasher(po.len(), Fx);
    for x in &po {
        let v = eval_node(node(*x), &|k| vals[&k], &|i| model.get(i as usize).copied().unwrap_or(0));
        vals.insert(*x, v);
    }
    vals[&e]
}
/// truth table of a one-bit term over its single byte variable
pub fn table(e: ExprId) -> [u64; 4] {
    if let Some(t) = st().tt.get(&e) {
        return *t;
    }
    let n = node(e);
    debug_assert!(n.w == 1 && n.sv < MULTI);
    let t = match n.n {
        N::Not(a) => {
            let t = table(a);
            [!t[0], !t[1], !t[2], !t[3]]
        }
        N::Bin(o, a, b) if node(a).sv < MULTI && node(b).sv < MULTI => {
            let (x, y) = (table(a), table(b));
            let mut r = [0; 4];
            for i in 0..4 {
                r[i] = match opof(o) {
                    Bin::And => x[i] & y[i],
                    Bin::Or => x[i] | y[i],
                    Bin::Xor => x[i] ^ y[i],
                    _ => panic!("1-bit op"),
                };
            }
            r
        }
        _ => {
            let po = postorder(e);
            let ix: HashMap<ExprId, usize, Fx> = po.iter().enumerate().map(|(i, e)| (*e, i)).collect();
            let mut vals = vec![0u128; po.len()];
            let mut t = [0u64; 4];
            for v in 0..256usize {
                for (i, x) in po.iter().enumerate() {
                    let r = eval_node(node(*x), &|k| vals[ix[&k]], &|_| v as u8);
                    vals[i] = r;
                }
                if vals[po.len() - 1] == 1 {
                    t[v / 64] |= 1 << (v % 64);
                }
            }
            t
        }
    };
    st().tt.insert(e, t);
    t
}
/// values a single-variable term takes for each value of its variable
pub fn value_table(e: ExprId) -> Vec<u128> {
    let po = postorder(e);
    let ix: HashMap<ExprId, usize, Fx> = po.iter().enumerate().map(|(i, e)| (*e, i)).collect();
    let mut vals = vec![0u128; po.len()];
    (0..256usize)
        .map(|v| {
            for (i, x) in po.iter().enumerate() {
                let r = eval_node(node(*x), &|k| vals[ix[&k]], &|_| v as u8);
                vals[i] = r;
            }
            vals[po.len() - 1]
        })
        .collect()
}
/// variables a term depends on (sorted)
pub fn support(e: ExprId) -> std::rc::Rc<Vec<u32>> {
    if let Some(s) = st().supp.get(&e) {
        return s.clone();
    }
    let n = node(e);
    let v = if n.sv == NOVAR {
        vec![]
    } else if n.sv != MULTI {
        vec![n.sv]
    } else {
        let mut v: Vec<u32> = postorder(e).iter().filter_map(|x| if let N::Var(i) = node(*x).n { Some(i) } else { None }).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let r = std::rc::Rc::new(v);
    st().supp.insert(e, r.clone());
    r
}
pub fn show(e: ExprId, depth: u32) -> String {
    if depth == 0 {
        return "..".into();
    }
    let s = |x| show(x, depth - 1);
    match node(e).n {
        N::Const(c) => format!("{c:#x}"),
        N::Var(i) => format!("v{i}"),
        N::Bin(o, a, b) => format!("({:?} {} {})", opof(o), s(a), s(b)),
        N::Not(a) => format!("!{}", s(a)),
        N::Eq(a, b) => format!("({} == {})", s(a), s(b)),
        N::Ult(a, b) => format!("({} <u {})", s(a), s(b)),
        N::Slt(a, b) => format!("({} <s {})", s(a), s(b)),
        N::Ite(c, a, b) => format!("({} ? {} : {})", s(c), s(a), s(b)),
        N::Extract(a, l) => format!("{}[{}+{}]", s(a), l, width(e)),
        N::Concat(a, b) => format!("({} . {})", s(a), s(b)),
        N::ZExt(a) => format!("zx{}({})", width(e), s(a)),
        N::SExt(a) => format!("sx{}({})", width(e), s(a)),
    }
}
