//! Textual LLVM IR -> compact bytecode, compiled lazily per function.
use crate::expr::{self, ExprId};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    Float,
    Double,
    Void,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Named(String),
    Label,
    Meta,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Op {
    R(u32),
    C(u64),
    X(ExprId),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cast {
    Trunc, ZExt, SExt,
}
#[derive(Debug, Clone)]
pub struct Edge {
    pub pc: u32,
    pub copies: Rc<[(u32, Op)]>,
}
#[derive(Debug, Clone)]
pub enum Callee {
    Direct(u32),
    Indirect(Op),
    Intrinsic(Intr, u32),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Intr {
    Nop, Assume, Memcpy, Memmove, Memset,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddSat, USubSat, SAddSat, SSubSat,
    Ctpop, Ctlz, Cttz, Bswap, Bitreverse, UMin, UMax, SMin, SMax, Abs, Fshl, Fshr, SCmp, UCmp,
    IsConst, Trap, ReduceAnd, ReduceOr, Expect, ThreadLocal, Zero, Unsupported,
}
#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: Bin, w: u32, dst: u32, a: Op, b: Op },
    Icmp { p: Pred, w: u32, dst: u32, a: Op, b: Op },
    Cast { k: Cast, from: u32, to: u32, dst: u32, a: Op },
    Bitcast { from: Rc<[u32]>, to: Rc<[u32]>, dst: u32, a: Rc<[Op]> },
    Select { dst: u32, w: u32, ptr: bool, c: Op, a: Op, b: Op },
    Load { dst: u32, w: u32, addr: Op, off: u64 },
    Store { w: u32, addr: Op, off: u64, val: Op },
    Alloca { dst: u32, size: u64, align: u64, n: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Rc<[(Op, u32, u64)]> },
    Copy { dst: u32, a: Op },
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u32, v: Op, def: Edge, cases: Rc<HashMap<u64, u32>>, edges: Rc<[Edge]> },
    Ret(Rc<[Op]>),
    Call { f: Callee, args: Rc<[Op]>, aw: Rc<[u32]>, dst: u32, nret: u32, next: Option<Edge> },
    AtomicRmw { op: u8, w: u32, dst: u32, addr: Op, val: Op },
    CmpXchg { w: u32, dst: u32, addr: Op, cmp: Op, new: Op },
    Asm { dst: u32, nret: u32, text: Rc<str> },
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub nparams: u32,
    pub nslots: u32,
    pub code: Vec<Inst>,
}

pub fn fsize(m: &Module, t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => {
            let b = ((*w as u64) + 7) / 8;
            if *w > 64 { (b + 15) / 16 * 16 } else { b.next_power_of_two() }
        }
        Ty::Ptr | Ty::Double => 8,
        Ty::Float => 4,
        Ty::Arr(n, t) => n * fsize(m, t),
        Ty::Vec(n, t) => match &**t {
            Ty::Int(1) => (n + 7) / 8,
            t => n * fsize(m, t),
        },
        Ty::Struct(ts, packed) => {
            let mut o = 0;
            let mut al = 1;
            for t in ts {
                if !packed {
                    let a = falign(m, t);
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                }
                o += fsize(m, t);
            }
            if *packed { o } else { (o + al - 1) / al * al }
        }
        Ty::Named(n) => fsize(m, m.types.get(n).unwrap_or_else(|| panic!("type {n}"))),
        _ => 0,
    }
}
pub fn falign(m: &Module, t: &Ty) -> u64 {
    match t {
        Ty::Int(w) => if *w > 64 { 16 } else { fsize(m, &Ty::Int(*w)) },
        Ty::Ptr | Ty::Double => 8,
        Ty::Float => 4,
        Ty::Arr(_, t) => falign(m, t),
        Ty::Vec(..) => fsize(m, t),
        Ty::Struct(ts, p) => if *p { 1 } else { ts.iter().map(|t| falign(m, t)).max().unwrap_or(1) },
        Ty::Named(n) => falign(m, &m.types[n]),
        _ => 1,
    }
}
/// scalar leaves: (bit width, byte offset, is pointer)
pub fn flat(m: &Module, t: &Ty, off: u64, out: &mut Vec<(u32, u64, bool)>) {
    match t {
        Ty::Int(w) => out.push((*w, off, false)),
        Ty::Ptr => out.push((64, off, true)),
        Ty::Double => out.push((64, off, false)),
        Ty::Float => out.push((32, off, false)),
        Ty::Arr(n, t) | Ty::Vec(n, t) => {
            let s = fsize(m, t);
            for i in 0..*n {
                flat(m, t, off + i * s, out);
            }
        }
        Ty::Struct(ts, packed) => {
            let mut o = 0;
            for t in ts {
                if !packed {
                    let a = falign(m, t);
                    o = (o + a - 1) / a * a;
                }
                flat(m, t, off + o, out);
                o += fsize(m, t);
            }
        }
        Ty::Named(n) => flat(m, &m.types[n].clone(), off, out),
        _ => {}
    }
}
pub fn flatv(m: &Module, t: &Ty) -> Vec<(u32, u64, bool)> {
    let mut v = Vec::new();
    flat(m, t, 0, &mut v);
    v
}

pub struct FnEntry {
    pub name: Rc<str>,
    /// byte offset of the `define` line, usize::MAX for declarations
    pub off: usize,
    pub compiled: Option<&'static Func>,
    pub weak: bool,
}
pub struct GlEntry {
    pub off: usize,
    pub addr: u64,
    pub len: u64,
}

pub struct Module {
    pub text: &'static [u8],
    pub types: HashMap<String, Ty>,
    pub fns: Vec<FnEntry>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: HashMap<String, GlEntry>,
    pub ndefs: usize,
}

pub const FBASE: u64 = 0x10000;
pub fn fn_addr(id: u32) -> u64 {
    FBASE + (id as u64) * 16
}

fn name_at(t: &[u8], mut i: usize) -> (String, usize) {
    // at '@' or '%': returns name and index after
    i += 1;
    if t[i] == b'"' {
        let s = i + 1;
        let mut e = s;
        while t[e] != b'"' {
            e += 1;
        }
        (unescape(&t[s..e]), e + 1)
    } else {
        let s = i;
        while i < t.len() && (t[i].is_ascii_alphanumeric() || matches!(t[i], b'.' | b'_' | b'$' | b'-')) {
            i += 1;
        }
        (String::from_utf8_lossy(&t[s..i]).into_owned(), i)
    }
}
fn unescape(b: &[u8]) -> String {
    String::from_utf8_lossy(&unesc_bytes(b)).into_owned()
}
fn unesc_bytes(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b.get(i + 1) == Some(&b'\\') {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            o.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Module {
    pub fn load(text: &'static [u8]) -> Module {
        let mut m = Module {
            text,
            types: HashMap::new(),
            fns: Vec::new(),
            fn_ix: HashMap::new(),
            globals: HashMap::new(),
            ndefs: 0,
        };
        let mut decls = Vec::new();
        let mut i = 0;
        while i < text.len() {
            let e = memchr(b'\n', text, i);
            let l = &text[i..e];
            if l.starts_with(b"@") {
                let (n, _) = name_at(l, 0);
                m.globals.insert(n, GlEntry { off: i, addr: 0, len: 0 });
            } else if l.starts_with(b"%") {
                let (n, k) = name_at(l, 0);
                let rest = std::str::from_utf8(&l[k..]).unwrap();
                if let Some(r) = rest.strip_prefix(" = type ") {
                    if r != "opaque" {
                        let mut p = P::new(r.as_bytes());
                        let ty = p.ty();
                        m.types.insert(n, ty);
                    }
                }
            } else if l.starts_with(b"define ") {
                let at = fn_at(l);
                let (n, _) = name_at(l, at);
                let id = m.fns.len() as u32;
                m.fn_ix.insert(n.clone(), id);
                m.fns.push(FnEntry { name: n.into(), off: i, compiled: None, weak: false });
                m.ndefs += 1;
                // skip the body
                let mut j = e + 1;
                while text[j] != b'}' || text.get(j + 1) != Some(&b'\n') {
                    j = memchr(b'\n', text, j) + 1;
                }
                i = j + 2;
                continue;
            } else if l.starts_with(b"declare ") {
                let at = fn_at(l);
                let (n, _) = name_at(l, at);
                let weak = l.windows(11).take(20).any(|w| w == b"extern_weak");
                decls.push((n, weak));
            }
            i = e + 1;
        }
        for (n, weak) in decls {
            let id = m.fns.len() as u32;
            m.fn_ix.insert(n.clone(), id);
            m.fns.push(FnEntry { name: n.into(), off: usize::MAX, compiled: None, weak });
        }
        m
    }
}
fn fn_at(l: &[u8]) -> usize {
    // position of the '@' that starts the function name (skips quoted attrs)
    let mut i = 0;
    while l[i] != b'@' {
        i += 1;
    }
    i
}
pub fn memchr(c: u8, t: &[u8], from: usize) -> usize {
    extern "C" {
        fn memchr(p: *const u8, c: i32, n: usize) -> *const u8;
    }
    unsafe {
        let p = memchr(t.as_ptr().add(from), c as i32, t.len() - from);
        if p.is_null() { t.len() } else { p as usize - t.as_ptr() as usize }
    }
}

/// Parsed constant or operand, before flattening.
#[derive(Debug, Clone)]
pub enum V {
    Reg(String),
    Glob(String),
    Int(u128),
    Null,
    Undef,
    Zero,
    Str(Vec<u8>),
    Agg(Vec<(Ty, V)>),
    Splat(Box<(Ty, V)>),
    Gep(Ty, Vec<(Ty, V)>),
    CastC(Box<(Ty, V)>),
    BinC(Bin, Box<(Ty, V)>, Box<(Ty, V)>),
    Bad(String),
}

pub struct P<'a> {
    pub t: &'a [u8],
    pub i: usize,
    /// end of the last token before the white space that ends at `ws_end`
    tok_end: usize,
    ws_end: usize,
}
impl<'a> P<'a> {
    pub fn new(t: &'a [u8]) -> P<'a> {
        P { t, i: 0, tok_end: 0, ws_end: usize::MAX }
    }
    fn ws(&mut self) {
        if self.i != self.ws_end {
            self.tok_end = self.i;
        }
        self.ws_skip();
        self.ws_end = self.i;
    }
    fn ws_skip(&mut self) {
        while self.i < self.t.len() {
            match self.t[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.t.len() && self.t[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.t.len() { self.t[self.i] } else { 0 }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let e = (self.i + 120).min(self.t.len());
        let s = self.i.saturating_sub(80);
        panic!("IR parse: {m} at `{}` >>> `{}`", String::from_utf8_lossy(&self.t[s..self.i]), String::from_utf8_lossy(&self.t[self.i..e]))
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let s = self.i;
        while self.i < self.t.len() && (self.t[self.i].is_ascii_alphanumeric() || matches!(self.t[self.i], b'_' | b'.')) {
            self.i += 1;
        }
        unsafe { std::str::from_utf8_unchecked(&self.t[s..self.i]) }
    }
    fn peek_word(&mut self) -> &'a str {
        let s = self.i;
        let w = self.word();
        self.i = s;
        w
    }
    fn name(&mut self) -> String {
        self.ws();
        let (n, e) = name_at(self.t, self.i);
        self.i = e;
        n
    }
    fn num(&mut self) -> u128 {
        self.ws();
        let neg = self.eat(b'-');
        let s = self.i;
        while self.i < self.t.len() && self.t[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let v: u128 = std::str::from_utf8(&self.t[s..self.i]).unwrap().parse().unwrap_or_else(|_| self.fail("number"));
        if neg { (v as i128).wrapping_neg() as u128 } else { v }
    }
    pub fn ty(&mut self) -> Ty {
        let t = match self.peek() {
            b'[' => {
                self.i += 1;
                let n = self.num() as u64;
                let x = self.word();
                assert_eq!(x, "x");
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                self.i += 1;
                let v = self.tylist(b'}');
                Ty::Struct(v, false)
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.tylist(b'}');
                    self.exp(b'>');
                    Ty::Struct(v, true)
                } else {
                    let n = self.num() as u64;
                    let x = self.word();
                    assert_eq!(x, "x");
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => Ty::Named(self.name()),
            _ => {
                let w = self.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|s| s.parse().ok()) {
                            Ty::Int(n)
                        } else {
                            self.fail(&format!("type `{w}`"))
                        }
                    }
                }
            }
        };
        // function type suffix: `i64 (i64, ...)`
        if self.peek() == b'(' {
            // only treat as a function type if followed by types then ')' and then @/%
            let save = self.i;
            let mut depth = 0;
            while self.i < self.t.len() {
                match self.t[self.i] {
                    b'(' => depth += 1,
                    b')' => {
                        depth -= 1;
                        if depth == 0 {
                            self.i += 1;
                            break;
                        }
                    }
                    _ => {}
                }
                self.i += 1;
            }
            let c = self.peek();
            if !(c == b'@' || c == b'%') {
                self.i = save;
            }
        }
        t
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.exp(b',');
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.t[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    /// skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if !c.is_ascii_alphabetic() {
                if c == b'#' {
                    self.i += 1;
                    self.num();
                    continue;
                }
                return;
            }
            let s = self.i;
            let w = self.word();
            match w {
                "align" => {
                    self.ws();
                    if self.t[self.i] == b'(' { self.skip_paren() } else { self.num(); }
                }
                "noundef" | "nonnull" | "nocapture" | "readonly" | "readnone" | "writeonly" | "noalias" | "zeroext" | "signext"
                | "inreg" | "allocptr" | "allocalign" | "immarg" | "returned" | "nofree" | "nest" | "writable" | "dead_on_unwind"
                | "fastcc" | "coldcc" | "ccc" | "dso_local" | "internal" | "private" | "hidden" | "protected" | "unnamed_addr"
                | "local_unnamed_addr" | "linkonce_odr" | "weak_odr" | "weak" | "external" | "extern_weak" | "nnan" | "fast" | "dso_preemptable" | "dead_on_return" => {}
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "captures" | "initializes" | "elementtype" | "nofpclass" | "memory" => {
                    if self.peek() == b'(' {
                        self.skip_paren()
                    }
                }
                _ => {
                    self.i = s;
                    return;
                }
            }
        }
    }
    fn tyval(&mut self) -> (Ty, V) {
        let t = self.ty();
        self.attrs();
        if t == Ty::Meta {
            // skip metadata operand
            let mut d = 0;
            loop {
                match self.t[self.i] {
                    b'(' | b'{' => d += 1,
                    b')' | b'}' if d > 0 => d -= 1,
                    b',' | b')' if d == 0 => break,
                    _ => {}
                }
                self.i += 1;
            }
            return (t, V::Undef);
        }
        let v = self.val(&t);
        (t, v)
    }
    pub fn val(&mut self, t: &Ty) -> V {
        match self.peek() {
            b'%' => V::Reg(self.name()),
            b'@' => V::Glob(self.name()),
            b'-' | b'0'..=b'9' => {
                if matches!(t, Ty::Double | Ty::Float) {
                    let s = self.i;
                    while !matches!(self.t[self.i], b',' | b'\n' | b' ' | b')' | b']' | b'}' | b'>') {
                        self.i += 1;
                    }
                    let txt = std::str::from_utf8(&self.t[s..self.i]).unwrap();
                    let bits = if let Some(h) = txt.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        txt.parse::<f64>().unwrap().to_bits()
                    };
                    return V::Int(if matches!(t, Ty::Float) { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 });
                }
                V::Int(self.num())
            }
            b'c' if self.t[self.i + 1] == b'"' => {
                let s = self.i + 2;
                let mut e = s;
                while self.t[e] != b'"' {
                    e += 1;
                }
                self.i = e + 1;
                V::Str(unesc_bytes(&self.t[s..e]))
            }
            b'[' => {
                self.i += 1;
                self.agg(b']')
            }
            b'{' => {
                self.i += 1;
                self.agg(b'}')
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.agg(b'}');
                    self.exp(b'>');
                    v
                } else {
                    self.agg(b'>')
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" => V::Null,
                    "undef" | "poison" | "none" => V::Undef,
                    "zeroinitializer" => V::Zero,
                    "true" => V::Int(1),
                    "false" => V::Int(0),
                    "splat" => {
                        self.exp(b'(');
                        let tv = self.tyval();
                        self.exp(b')');
                        V::Splat(Box::new(tv))
                    }
                    "getelementptr" => {
                        loop {
                            match self.peek_word() {
                                "inbounds" | "nuw" | "nusw" => {
                                    self.word();
                                }
                                "inrange" => {
                                    self.word();
                                    self.ws();
                                    self.skip_paren();
                                }
                                _ => break,
                            }
                        }
                        self.exp(b'(');
                        let t = self.ty();
                        let mut v = Vec::new();
                        while self.eat(b',') {
                            v.push(self.tyval());
                        }
                        self.exp(b')');
                        V::Gep(t, v)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                        self.exp(b'(');
                        let tv = self.tyval();
                        assert_eq!(self.word(), "to");
                        self.ty();
                        self.exp(b')');
                        V::CastC(Box::new(tv))
                    }
                    "add" | "sub" | "mul" | "xor" | "and" | "or" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.exp(b'(');
                        let a = self.tyval();
                        self.exp(b',');
                        let b = self.tyval();
                        self.exp(b')');
                        V::BinC(bin_of(w).unwrap(), Box::new(a), Box::new(b))
                    }
                    _ => V::Bad(w.to_string()),
                }
            }
        }
    }
    fn agg(&mut self, end: u8) -> V {
        let mut v = Vec::new();
        if self.eat(end) {
            return V::Agg(v);
        }
        loop {
            v.push(self.tyval());
            if self.eat(end) {
                return V::Agg(v);
            }
            self.exp(b',');
        }
    }
}

fn bin_of(w: &str) -> Option<Bin> {
    Some(match w {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        _ => return None,
    })
}
pub fn mask(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

/// Memory services the compiler needs for globals.
pub trait GlobalMem {
    fn alloc_global(&mut self, size: u64, align: u64) -> u64;
    fn write(&mut self, addr: u64, b: &[u8]);
}

pub fn global_addr(m: &mut Module, mem: &mut dyn GlobalMem, name: &str) -> u64 {
    if let Some(&id) = m.fn_ix.get(name) {
        if m.fns[id as usize].weak && !crate::exec::weak_supported(name) {
            return 0;
        }
        return fn_addr(id);
    }
    let (off, addr) = match m.globals.get(name) {
        Some(g) => (g.off, g.addr),
        None => panic!("unknown global {name}"),
    };
    if addr != 0 {
        return addr;
    }
    let text = m.text;
    let e = memchr(b'\n', text, off);
    let mut p = P::new(&text[off..e]);
    let _ = p.name();
    p.exp(b'=');
    let mut external = false;
    loop {
        let w = p.word();
        match w {
            "global" | "constant" => break,
            "external" | "extern_weak" => external = true,
            "" => {
                if p.peek() == b'(' { p.skip_paren() } else { p.fail("global header") }
            }
            _ => {}
        }
    }
    let ty = p.ty();
    let size = fsize(m, &ty).max(1);
    let mut align = falign(m, &ty).max(1);
    let init = if external {
        V::Zero
    } else {
        p.val(&ty)
    };
    while p.eat(b',') {
        let w = p.word();
        if w == "align" {
            align = align.max(p.num() as u64);
        } else {
            break;
        }
    }
    let addr = mem.alloc_global(size, align);
    let g = m.globals.get_mut(name).unwrap();
    g.addr = addr;
    g.len = size;
    if external && name == "environ" {
        return addr;
    }
    write_const(m, mem, &ty, &init, addr);
    addr
}
fn write_const(m: &mut Module, mem: &mut dyn GlobalMem, ty: &Ty, v: &V, addr: u64) {
    match v {
        V::Undef | V::Zero | V::Null => {}
        V::Str(b) => mem.write(addr, b),
        V::Agg(items) => {
            let ty = resolve(m, ty);
            let mut off = 0;
            for (t, v) in items {
                if let Ty::Struct(_, false) = ty {
                    let a = falign(m, t);
                    off = (off + a - 1) / a * a;
                }
                write_const(m, mem, t, v, addr + off);
                off += fsize(m, t);
            }
        }
        V::Splat(tv) => {
            let n = match resolve(m, ty) {
                Ty::Vec(n, _) | Ty::Arr(n, _) => n,
                _ => 0,
            };
            let s = fsize(m, &tv.0);
            for i in 0..n {
                write_const(m, mem, &tv.0, &tv.1, addr + i * s);
            }
        }
        _ => {
            let x = const_int(m, mem, ty, v);
            let n = fsize(m, ty) as usize;
            mem.write(addr, &x.to_le_bytes()[..n.min(16)]);
        }
    }
}
fn resolve(m: &Module, t: &Ty) -> Ty {
    match t {
        Ty::Named(n) => resolve(m, &m.types[n]),
        t => t.clone(),
    }
}
pub fn const_int(m: &mut Module, mem: &mut dyn GlobalMem, ty: &Ty, v: &V) -> u128 {
    match v {
        V::Int(x) => match ty {
            Ty::Int(w) if *w < 128 => x & ((1u128 << w) - 1),
            _ => *x,
        },
        V::Null | V::Undef | V::Zero => 0,
        V::Glob(n) => global_addr(m, mem, n) as u128,
        V::CastC(tv) => {
            let x = const_int(m, mem, &tv.0, &tv.1);
            match ty {
                Ty::Int(w) if *w < 128 => x & ((1u128 << w) - 1),
                _ => x,
            }
        }
        V::Gep(t, ops) => {
            let base = const_int(m, mem, &ops[0].0, &ops[0].1) as u64;
            let mut off = 0u64;
            let mut cur = t.clone();
            for (k, (it, iv)) in ops[1..].iter().enumerate() {
                let x = const_int(m, mem, it, iv);
                let x = sext128(x, it) as u64;
                if k == 0 {
                    off = off.wrapping_add(x.wrapping_mul(fsize(m, &cur)));
                } else {
                    let (o, nt) = gep_step(m, &cur, x);
                    off = off.wrapping_add(o);
                    cur = nt;
                }
            }
            base.wrapping_add(off) as u128
        }
        V::BinC(b, x, y) => {
            let a = const_int(m, mem, &x.0, &x.1) as u64;
            let c = const_int(m, mem, &y.0, &y.1) as u64;
            let w = if let Ty::Int(w) = x.0 { w } else { 64 };
            (match b {
                Bin::Add => a.wrapping_add(c),
                Bin::Sub => a.wrapping_sub(c),
                Bin::Mul => a.wrapping_mul(c),
                Bin::Xor => a ^ c,
                Bin::And => a & c,
                Bin::Or => a | c,
                _ => panic!("const bin"),
            } & mask(w)) as u128
        }
        other => panic!("const {other:?}"),
    }
}
fn sext128(x: u128, t: &Ty) -> u128 {
    match t {
        Ty::Int(w) if *w < 128 => {
            let s = 128 - w;
            (((x << s) as i128) >> s) as u128
        }
        _ => x,
    }
}
fn gep_step(m: &Module, cur: &Ty, x: u64) -> (u64, Ty) {
    match resolve(m, cur) {
        Ty::Struct(ts, packed) => {
            let mut o = 0;
            for (k, t) in ts.iter().enumerate() {
                if !packed {
                    let a = falign(m, t);
                    o = (o + a - 1) / a * a;
                }
                if k as u64 == x {
                    return (o, t.clone());
                }
                o += fsize(m, t);
            }
            panic!("gep struct index")
        }
        Ty::Arr(_, t) | Ty::Vec(_, t) => (x.wrapping_mul(fsize(m, &t)), (*t).clone()),
        t => panic!("gep into {t:?}"),
    }
}

struct Fc<'a> {
    m: &'a mut Module,
    mem: &'a mut dyn GlobalMem,
    slots: HashMap<String, (Vec<Op>, Ty)>,
    nslots: u32,
    code: Vec<Inst>,
}

struct PendPhi {
    dst: Vec<u32>,
    inc: Vec<(Vec<V>, String)>, // one V, block
    ty: Ty,
}

impl<'a> Fc<'a> {
    fn new_slots(&mut self, n: usize) -> Vec<u32> {
        let s = self.nslots;
        self.nslots += n as u32;
        (s..s + n as u32).collect()
    }
    fn def(&mut self, name: &str, ty: &Ty) -> Vec<u32> {
        // pre-declared?
        if let Some((ops, _)) = self.slots.get(name) {
            return ops.iter().map(|o| if let Op::R(r) = o { *r } else { panic!() }).collect();
        }
        let n = flatv(self.m, ty).len();
        let s = self.new_slots(n);
        self.slots.insert(name.to_string(), (s.iter().map(|r| Op::R(*r)).collect(), ty.clone()));
        s
    }
    fn konst(&mut self, w: u32, x: u128) -> Op {
        if w > 64 {
            Op::X(expr::konst(w, x))
        } else {
            Op::C((x as u64) & mask(w))
        }
    }
    fn ops(&mut self, ty: &Ty, v: &V) -> Vec<Op> {
        match v {
            V::Reg(n) => {
                if let Some((o, _)) = self.slots.get(n) {
                    return o.clone();
                }
                // forward reference (value defined in a later-printed block)
                let s = self.def(n, ty);
                s.into_iter().map(Op::R).collect()
            }
            V::Undef | V::Zero | V::Null => {
                let f = flatv(self.m, ty);
                f.iter().map(|(w, _, _)| self.konst(*w, 0)).collect()
            }
            V::Agg(items) => {
                let mut o = Vec::new();
                for (t, v) in items {
                    o.extend(self.ops(t, v));
                }
                o
            }
            V::Splat(tv) => {
                let f = flatv(self.m, ty).len();
                let one = self.ops(&tv.0, &tv.1);
                let mut o = Vec::new();
                while o.len() < f {
                    o.extend(one.iter().cloned());
                }
                o
            }
            V::Str(b) => b.iter().map(|x| Op::C(*x as u64)).collect(),
            V::Bad(w) => panic!("bad operand `{w}`"),
            _ => {
                let x = const_int(self.m, self.mem, ty, v);
                let w = flatv(self.m, ty)[0].0;
                vec![self.konst(w, x)]
            }
        }
    }
    fn op1(&mut self, ty: &Ty, v: &V) -> Op {
        self.ops(ty, v)[0]
    }
}

fn scalar_w(m: &Module, t: &Ty) -> u32 {
    flatv(m, t)[0].0
}

pub fn compile(m: &mut Module, mem: &mut dyn GlobalMem, id: u32) -> &'static Func {
    if let Some(f) = m.fns[id as usize].compiled {
        return f;
    }
    let off = m.fns[id as usize].off;
    let name = m.fns[id as usize].name.clone();
    assert!(off != usize::MAX, "call of undefined function {name}");
    let text = m.text;
    // find end of body
    let mut j = memchr(b'\n', text, off) + 1;
    while text[j] != b'}' || text.get(j + 1) != Some(&b'\n') {
        j = memchr(b'\n', text, j) + 1;
    }
    let mut p = P::new(&text[off..j]);
    let f = compile_body(m, mem, &mut p, id, name);
    let f: &'static Func = Box::leak(Box::new(f));
    m.fns[id as usize].compiled = Some(f);
    f
}

fn compile_body(m: &mut Module, mem: &mut dyn GlobalMem, p: &mut P, id: u32, fname: Rc<str>) -> Func {
    assert_eq!(p.word(), "define");
    p.attrs();
    // calling convention numbers etc. are not used by rustc
    let _ret = p.ty();
    p.attrs();
    let _ = p.name();
    let mut fc = Fc { m, mem, slots: HashMap::new(), nslots: 0, code: Vec::new() };
    p.exp(b'(');
    if !p.eat(b')') {
        let mut k = 0;
        loop {
            if p.peek() == b'.' {
                p.i += 3;
                p.exp(b')');
                break;
            }
            let t = p.ty();
            p.attrs();
            let n = if p.peek() == b'%' { p.name() } else { format!("{k}") };
            k += 1;
            fc.def(&n, &t);
            if p.eat(b')') {
                break;
            }
            p.exp(b',');
        }
    }
    let nparams = fc.nslots;
    // skip to end of define line
    p.i = memchr(b'\n', p.t, p.i) + 1;

    let mut cur_block = String::new();
    let mut phis: Vec<(String, PendPhi)> = Vec::new(); // (block, phi)
    let mut block_pc: HashMap<String, u32> = HashMap::new();
    // edges are created with pc = index into `targets` and patched at the end
    let mut edge_targets: Vec<(String, String)> = Vec::new(); // (from, to)
    fn edge(from: &str, to: String, et: &mut Vec<(String, String)>) -> Edge {
        et.push((from.to_string(), to));
        Edge { pc: (et.len() - 1) as u32, copies: Rc::from(Vec::new()) }
    }
    let mut first = true;
    loop {
        if p.peek() == 0 {
            break;
        }
        // label or instruction?
        let save = p.i;
        let c = p.peek();
        if c == b'"' || c.is_ascii_alphanumeric() || c == b'_' || c == b'-' || c == b'.' || c == b'$' {
            // maybe label
            let lab = if c == b'"' {
                let s = p.i + 1;
                let mut e = s;
                while p.t[e] != b'"' {
                    e += 1;
                }
                p.i = e + 1;
                Some(unescape(&p.t[s..e]))
            } else {
                let s = p.i;
                while p.i < p.t.len() && (p.t[p.i].is_ascii_alphanumeric() || matches!(p.t[p.i], b'_' | b'.' | b'-' | b'$')) {
                    p.i += 1;
                }
                Some(String::from_utf8_lossy(&p.t[s..p.i]).into_owned())
            };
            if p.i < p.t.len() && p.t[p.i] == b':' {
                p.i += 1;
                cur_block = lab.unwrap();
                block_pc.insert(cur_block.clone(), fc.code.len() as u32);
                first = false;
                continue;
            }
            p.i = save;
        }
        if first {
            // unnamed entry block: label is the next number after params
            cur_block = format!("{nparams}");
            block_pc.insert(cur_block.clone(), 0);
            first = false;
        }
        inst(&mut fc, p, &cur_block, &mut phis, &mut edge_targets, &mut edge, &fname);
    }
    // resolve phis: per block list
    let mut by_block: HashMap<String, Vec<usize>> = HashMap::new();
    for (i, (b, _)) in phis.iter().enumerate() {
        by_block.entry(b.clone()).or_default().push(i);
    }
    let mut resolved: Vec<Edge> = Vec::new();
    for (from, to) in &edge_targets {
        let mut copies = Vec::new();
        if let Some(ix) = by_block.get(to) {
            for &i in ix {
                let (ty, vals) = {
                    let ph = &phis[i].1;
                    let (v, _) = ph.inc.iter().find(|(_, b)| b == from).unwrap_or_else(|| panic!("phi incoming {from}->{to} in {fname}"));
                    (ph.ty.clone(), v[0].clone())
                };
                let ops = fc.ops(&ty, &vals);
                for (d, o) in phis[i].1.dst.iter().zip(ops) {
                    copies.push((*d, o));
                }
            }
        }
        let pc = *block_pc.get(to).unwrap_or_else(|| panic!("no block {to} in {fname}"));
        // self-copies are no-ops
        copies.retain(|(d, o)| *o != Op::R(*d));
        resolved.push(Edge { pc, copies: copies.into() });
    }
    let fix = |e: &mut Edge| *e = resolved[e.pc as usize].clone();
    for i in fc.code.iter_mut() {
        match i {
            Inst::Br(e) => fix(e),
            Inst::CondBr { t, f, .. } => {
                fix(t);
                fix(f)
            }
            Inst::Switch { def, edges, .. } => {
                fix(def);
                let v: Vec<Edge> = edges.iter().map(|e| resolved[e.pc as usize].clone()).collect();
                *edges = v.into();
            }
            Inst::Call { next: Some(e), .. } => fix(e),
            _ => {}
        }
    }
    Func { id, name: fname, nparams, nslots: fc.nslots, code: fc.code }
}

fn skip_line(p: &mut P) {
    let from = if p.i == p.ws_end { p.tok_end } else { p.i };
    p.i = memchr(b'\n', p.t, from);
}

fn inst(
    fc: &mut Fc,
    p: &mut P,
    blk: &str,
    phis: &mut Vec<(String, PendPhi)>,
    et: &mut Vec<(String, String)>,
    edge: &mut dyn FnMut(&str, String, &mut Vec<(String, String)>) -> Edge,
    fname: &str,
) {
    let start = p.i;
    let mut res: Option<String> = None;
    if p.peek() == b'%' {
        res = Some(p.name());
        p.exp(b'=');
    }
    let mut w = p.word();
    if matches!(w, "tail" | "musttail" | "notail") {
        w = p.word();
    }
    let line_end = memchr(b'\n', p.t, p.i);
    let unsupported = |fc: &mut Fc, p: &mut P, why: &str| {
        let txt = String::from_utf8_lossy(&p.t[start..line_end]).into_owned();
        fc.code.push(Inst::Unsupported(format!("{why}: {txt}").into()));
    };
    match w {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            let op = bin_of(w).unwrap();
            while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                p.word();
            }
            let (t, a) = p.tyval();
            p.exp(b',');
            let b = p.val(&t);
            let fl = flatv(fc.m, &t);
            let a = fc.ops(&t, &a);
            let b = fc.ops(&t, &b);
            let d = fc.def(&res.unwrap(), &t);
            for k in 0..d.len() {
                fc.code.push(Inst::Bin { op, w: fl[k].0, dst: d[k], a: a[k], b: b[k] });
            }
            skip_line(p);
        }
        "icmp" => {
            if p.peek_word() == "samesign" {
                p.word();
            }
            let pr = match p.word() {
                "eq" => Pred::Eq,
                "ne" => Pred::Ne,
                "ult" => Pred::Ult,
                "ule" => Pred::Ule,
                "ugt" => Pred::Ugt,
                "uge" => Pred::Uge,
                "slt" => Pred::Slt,
                "sle" => Pred::Sle,
                "sgt" => Pred::Sgt,
                "sge" => Pred::Sge,
                x => panic!("icmp {x}"),
            };
            let (t, a) = p.tyval();
            p.exp(b',');
            let b = p.val(&t);
            let fl = flatv(fc.m, &t);
            let a = fc.ops(&t, &a);
            let b = fc.ops(&t, &b);
            let rt = if let Ty::Vec(n, _) = &t { Ty::Vec(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
            let d = fc.def(&res.unwrap(), &rt);
            for k in 0..d.len() {
                fc.code.push(Inst::Icmp { p: pr, w: fl[k].0, dst: d[k], a: a[k], b: b[k] });
            }
            skip_line(p);
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" => {
            while matches!(p.peek_word(), "nuw" | "nsw" | "nneg") {
                p.word();
            }
            let (t, a) = p.tyval();
            assert_eq!(p.word(), "to");
            let to = p.ty();
            let ff = flatv(fc.m, &t);
            let tf = flatv(fc.m, &to);
            let a = fc.ops(&t, &a);
            let d = fc.def(&res.unwrap(), &to);
            for k in 0..d.len() {
                let (f, t2) = (ff[k].0, tf[k].0);
                if f == t2 {
                    fc.code.push(Inst::Copy { dst: d[k], a: a[k] });
                } else {
                    let kd = match w {
                        "trunc" => Cast::Trunc,
                        "sext" => Cast::SExt,
                        "zext" => Cast::ZExt,
                        _ => if t2 < f { Cast::Trunc } else { Cast::ZExt },
                    };
                    fc.code.push(Inst::Cast { k: kd, from: f, to: t2, dst: d[k], a: a[k] });
                }
            }
            skip_line(p);
        }
        "bitcast" => {
            let (t, a) = p.tyval();
            assert_eq!(p.word(), "to");
            let to = p.ty();
            let ff: Vec<u32> = flatv(fc.m, &t).iter().map(|x| x.0).collect();
            let tf: Vec<u32> = flatv(fc.m, &to).iter().map(|x| x.0).collect();
            let a = fc.ops(&t, &a);
            let d = fc.def(&res.unwrap(), &to);
            fc.code.push(Inst::Bitcast { from: ff.into(), to: tf.into(), dst: d[0], a: a.into() });
            skip_line(p);
        }
        "freeze" => {
            let (t, a) = p.tyval();
            let a = fc.ops(&t, &a);
            let d = fc.def(&res.unwrap(), &t);
            for k in 0..d.len() {
                fc.code.push(Inst::Copy { dst: d[k], a: a[k] });
            }
            skip_line(p);
        }
        "select" => {
            while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                p.word();
            }
            let (ct, c) = p.tyval();
            p.exp(b',');
            let (t, a) = p.tyval();
            p.exp(b',');
            let (_, b) = p.tyval();
            let c = fc.ops(&ct, &c);
            let fl = flatv(fc.m, &t);
            let a = fc.ops(&t, &a);
            let b = fc.ops(&t, &b);
            let d = fc.def(&res.unwrap(), &t);
            for k in 0..d.len() {
                let cc = if c.len() == 1 { c[0] } else { c[k] };
                fc.code.push(Inst::Select { dst: d[k], w: fl[k].0, ptr: fl[k].2, c: cc, a: a[k], b: b[k] });
            }
            skip_line(p);
        }
        "load" => {
            while matches!(p.peek_word(), "atomic" | "volatile") {
                p.word();
            }
            let t = p.ty();
            p.exp(b',');
            let (at, a) = p.tyval();
            let a = fc.op1(&at, &a);
            let fl = flatv(fc.m, &t);
            let d = fc.def(&res.unwrap(), &t);
            // vectors of i1 are not loaded by rustc output
            for k in 0..d.len() {
                fc.code.push(Inst::Load { dst: d[k], w: fl[k].0, addr: a, off: fl[k].1 });
            }
            skip_line(p);
        }
        "store" => {
            while matches!(p.peek_word(), "atomic" | "volatile") {
                p.word();
            }
            let (t, v) = p.tyval();
            p.exp(b',');
            let (at, a) = p.tyval();
            let v = fc.ops(&t, &v);
            let a = fc.op1(&at, &a);
            let fl = flatv(fc.m, &t);
            for k in 0..v.len() {
                fc.code.push(Inst::Store { w: fl[k].0, addr: a, off: fl[k].1, val: v[k] });
            }
            skip_line(p);
        }
        "alloca" => {
            let t = p.ty();
            let mut n = Op::C(1);
            let mut align = falign(fc.m, &t);
            while p.eat(b',') {
                if p.peek_word() == "align" {
                    p.word();
                    align = p.num() as u64;
                } else {
                    let (t, v) = p.tyval();
                    n = fc.op1(&t, &v);
                }
            }
            let d = fc.def(&res.unwrap(), &Ty::Ptr)[0];
            let size = fsize(fc.m, &t);
            fc.code.push(Inst::Alloca { dst: d, size, align: align.max(1), n });
            skip_line(p);
        }
        "getelementptr" => {
            while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw") {
                p.word();
            }
            let t = p.ty();
            p.exp(b',');
            let (bt, b) = p.tyval();
            let base = fc.op1(&bt, &b);
            let mut off = 0u64;
            let mut terms = Vec::new();
            let mut cur = t;
            let mut k = 0;
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let (it, iv) = p.tyval();
                let iw = scalar_w(fc.m, &it);
                let o = fc.op1(&it, &iv);
                if k == 0 {
                    let s = fsize(fc.m, &cur);
                    match o {
                        Op::C(c) => {
                            let sx = sext(c, iw);
                            off = off.wrapping_add(sx.wrapping_mul(s));
                        }
                        o => terms.push((o, iw, s)),
                    }
                } else {
                    match o {
                        Op::C(c) => {
                            let (oo, nt) = gep_step(fc.m, &cur, sext(c, iw));
                            off = off.wrapping_add(oo);
                            cur = nt;
                        }
                        o => {
                            let nt = match resolve(fc.m, &cur) {
                                Ty::Arr(_, t) | Ty::Vec(_, t) => (*t).clone(),
                                t => panic!("gep dyn into {t:?}"),
                            };
                            terms.push((o, iw, fsize(fc.m, &nt)));
                            cur = nt;
                        }
                    }
                }
                k += 1;
            }
            let d = fc.def(&res.unwrap(), &Ty::Ptr)[0];
            fc.code.push(Inst::Gep { dst: d, base, off, terms: terms.into() });
            skip_line(p);
        }
        "phi" => {
            while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz") {
                p.word();
            }
            let t = p.ty();
            let mut inc = Vec::new();
            loop {
                p.exp(b'[');
                let v = p.val(&t);
                p.exp(b',');
                let b = p.name();
                p.exp(b']');
                inc.push((vec![v], b));
                if !p.eat(b',') {
                    break;
                }
                if p.peek() == b'!' {
                    break;
                }
            }
            let d = fc.def(&res.unwrap(), &t);
            phis.push((blk.to_string(), PendPhi { dst: d, inc, ty: t }));
            skip_line(p);
        }
        "extractvalue" => {
            let (t, a) = p.tyval();
            let a = fc.ops(&t, &a);
            let (mut s, mut cur) = (0usize, t);
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let ix = p.num() as usize;
                let (skip, nt) = agg_step(fc.m, &cur, ix);
                s += skip;
                cur = nt;
            }
            let n = flatv(fc.m, &cur).len();
            let r = res.unwrap();
            if fc.slots.contains_key(&r) {
                let d = fc.def(&r, &cur);
                for k in 0..n {
                    fc.code.push(Inst::Copy { dst: d[k], a: a[s + k] });
                }
            } else {
                fc.slots.insert(r, (a[s..s + n].to_vec(), cur));
            }
            skip_line(p);
        }
        "insertvalue" => {
            let (t, a) = p.tyval();
            let a = fc.ops(&t, &a);
            p.exp(b',');
            let (vt, v) = p.tyval();
            let v = fc.ops(&vt, &v);
            let (mut s, mut cur) = (0usize, t.clone());
            while p.eat(b',') {
                if p.peek() == b'!' {
                    break;
                }
                let ix = p.num() as usize;
                let (skip, nt) = agg_step(fc.m, &cur, ix);
                s += skip;
                cur = nt;
            }
            let d = fc.def(&res.unwrap(), &t);
            for k in 0..d.len() {
                let o = if k >= s && k < s + v.len() { v[k - s] } else { a[k] };
                fc.code.push(Inst::Copy { dst: d[k], a: o });
            }
            skip_line(p);
        }
        "insertelement" | "extractelement" => {
            let (t, a) = p.tyval();
            let a = fc.ops(&t, &a);
            let et_ = if let Ty::Vec(_, e) = &t { (**e).clone() } else { panic!() };
            p.exp(b',');
            let (vt, v) = p.tyval();
            if w == "extractelement" {
                let ix = fc.op1(&vt, &v);
                if let Op::C(c) = ix {
                    let d = fc.def(&res.unwrap(), &et_)[0];
                    fc.code.push(Inst::Copy { dst: d, a: a[c as usize] });
                } else {
                    unsupported(fc, p, "dynamic extractelement");
                }
            } else {
                let v = fc.op1(&vt, &v);
                p.exp(b',');
                let (it, iv) = p.tyval();
                let ix = fc.op1(&it, &iv);
                if let Op::C(c) = ix {
                    let d = fc.def(&res.unwrap(), &t);
                    for k in 0..d.len() {
                        fc.code.push(Inst::Copy { dst: d[k], a: if k as u64 == c { v } else { a[k] } });
                    }
                } else {
                    unsupported(fc, p, "dynamic insertelement");
                }
            }
            skip_line(p);
        }
        "shufflevector" => {
            let (t, a) = p.tyval();
            let mut a = fc.ops(&t, &a);
            p.exp(b',');
            let (t2, b) = p.tyval();
            a.extend(fc.ops(&t2, &b));
            p.exp(b',');
            let (mt, mv) = p.tyval();
            let mk = fc.ops(&mt, &mv);
            let e = if let Ty::Vec(_, e) = &t { e.clone() } else { panic!() };
            let d = fc.def(&res.unwrap(), &Ty::Vec(mk.len() as u64, e));
            for k in 0..d.len() {
                let c = if let Op::C(c) = mk[k] { c as usize } else { 0 };
                fc.code.push(Inst::Copy { dst: d[k], a: a.get(c).cloned().unwrap_or(Op::C(0)) });
            }
            skip_line(p);
        }
        "br" => {
            if p.peek_word() == "label" {
                p.word();
                let n = p.name();
                let e = edge(blk, n, et);
                fc.code.push(Inst::Br(e));
            } else {
                let (t, c) = p.tyval();
                let c = fc.op1(&t, &c);
                p.exp(b',');
                p.word();
                let a = p.name();
                p.exp(b',');
                p.word();
                let b = p.name();
                let t = edge(blk, a, et);
                let f = edge(blk, b, et);
                fc.code.push(Inst::CondBr { c, t, f });
            }
            skip_line(p);
        }
        "switch" => {
            let (t, v) = p.tyval();
            let v = fc.op1(&t, &v);
            let w = scalar_w(fc.m, &t);
            p.exp(b',');
            p.word();
            let d = p.name();
            p.exp(b'[');
            let mut cases = HashMap::new();
            let mut targets: Vec<String> = Vec::new();
            while !p.eat(b']') {
                let (ct, cv) = p.tyval();
                let c = match fc.op1(&ct, &cv) {
                    Op::C(c) => c,
                    Op::X(_) => u64::MAX,
                    _ => panic!(),
                };
                p.exp(b',');
                p.word();
                let n = p.name();
                let ix = targets.iter().position(|t| *t == n).unwrap_or_else(|| {
                    targets.push(n);
                    targets.len() - 1
                });
                cases.insert(c, ix as u32);
            }
            let def = edge(blk, d, et);
            let edges: Vec<Edge> = targets.into_iter().map(|t| edge(blk, t, et)).collect();
            fc.code.push(Inst::Switch { w, v, def, cases: Rc::new(cases), edges: edges.into() });
            skip_line(p);
        }
        "ret" => {
            let t = p.ty();
            if t == Ty::Void {
                fc.code.push(Inst::Ret(Rc::from(Vec::new())));
            } else {
                let v = p.val(&t);
                let o = fc.ops(&t, &v);
                fc.code.push(Inst::Ret(o.into()));
            }
            skip_line(p);
        }
        "unreachable" => {
            fc.code.push(Inst::Unreachable);
            skip_line(p);
        }
        "fence" => skip_line(p),
        "landingpad" => {
            let t = p.ty();
            fc.def(&res.unwrap(), &t);
            // clauses follow on separate lines
            loop {
                skip_line(p);
                match p.peek_word() {
                    "cleanup" | "catch" | "filter" => {
                        p.word();
                    }
                    _ => break,
                }
            }
            fc.code.push(Inst::Unsupported("landingpad".into()));
        }
        "resume" => {
            fc.code.push(Inst::Unsupported("resume".into()));
            skip_line(p);
        }
        "atomicrmw" => {
            if p.peek_word() == "volatile" {
                p.word();
            }
            let op = match p.word() {
                "xchg" => 0,
                "add" => 1,
                "sub" => 2,
                "and" => 3,
                "or" => 4,
                "xor" => 5,
                "umax" => 6,
                _ => 255,
            };
            let (at, a) = p.tyval();
            let a = fc.op1(&at, &a);
            p.exp(b',');
            let (t, v) = p.tyval();
            let v = fc.op1(&t, &v);
            let w = scalar_w(fc.m, &t);
            let d = match res {
                Some(r) => fc.def(&r, &t)[0],
                None => fc.new_slots(1)[0],
            };
            fc.code.push(Inst::AtomicRmw { op, w, dst: d, addr: a, val: v });
            skip_line(p);
        }
        "cmpxchg" => {
            while matches!(p.peek_word(), "volatile" | "weak") {
                p.word();
            }
            let (at, a) = p.tyval();
            let a = fc.op1(&at, &a);
            p.exp(b',');
            let (t, c) = p.tyval();
            let c = fc.op1(&t, &c);
            p.exp(b',');
            let (_, n) = p.tyval();
            let n = fc.op1(&t, &n);
            let w = scalar_w(fc.m, &t);
            let d = fc.def(&res.unwrap_or_else(|| format!("!cx{start}")), &Ty::Struct(vec![t, Ty::Int(1)], false));
            fc.code.push(Inst::CmpXchg { w, dst: d[0], addr: a, cmp: c, new: n });
            skip_line(p);
        }
        "call" | "invoke" => call(fc, p, w, res, blk, et, edge, fname),
        "fcmp" | "fneg" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
            // floating point is outside the encoding: executing it is an error
            let t = if w == "fcmp" {
                Ty::Int(1)
            } else if matches!(w, "fneg" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem") {
                while matches!(p.peek_word(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    p.word();
                }
                p.ty()
            } else {
                while matches!(p.peek_word(), "nneg") {
                    p.word();
                }
                p.tyval();
                assert_eq!(p.word(), "to");
                p.ty()
            };
            unsupported(fc, p, "floating point");
            fc.def(&res.unwrap(), &t);
            skip_line(p);
        }
        x => {
            panic!("instruction `{x}` in {fname}");
        }
    }
}

fn agg_step(m: &Module, t: &Ty, ix: usize) -> (usize, Ty) {
    match resolve(m, t) {
        Ty::Struct(ts, _) => {
            let s = ts[..ix].iter().map(|t| flatv(m, t).len()).sum();
            (s, ts[ix].clone())
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => (ix * flatv(m, &e).len(), (*e).clone()),
        t => panic!("agg_step {t:?}"),
    }
}
pub fn sext(c: u64, w: u32) -> u64 {
    if w >= 64 { c } else { (((c << (64 - w)) as i64) >> (64 - w)) as u64 }
}

#[allow(clippy::too_many_arguments)]
fn call(
    fc: &mut Fc,
    p: &mut P,
    kind: &str,
    res: Option<String>,
    blk: &str,
    et: &mut Vec<(String, String)>,
    edge: &mut dyn FnMut(&str, String, &mut Vec<(String, String)>) -> Edge,
    fname: &str,
) {
    // fast-math flags / cconv / ret attrs
    p.attrs();
    let rt = p.ty();
    p.attrs();
    let c = p.peek();
    if c != b'@' && c != b'%' {
        let w = p.word();
        if w == "asm" {
            let s = p.i;
            let e = memchr(b'\n', p.t, p.i);
            let txt = String::from_utf8_lossy(&p.t[s..e]).into_owned();
            let n = flatv(fc.m, &rt).len();
            let d = match res {
                Some(r) if n > 0 => fc.def(&r, &rt)[0],
                _ => 0,
            };
            fc.code.push(Inst::Asm { dst: d, nret: n as u32, text: txt.into() });
            p.i = e;
            return;
        }
        panic!("call target `{w}` in {fname}");
    }
    let target = if c == b'@' { V::Glob(p.name()) } else { V::Reg(p.name()) };
    p.exp(b'(');
    let mut args = Vec::new();
    let mut aw = Vec::new();
    if !p.eat(b')') {
        loop {
            let (t, v) = p.tyval();
            if t != Ty::Meta {
                let o = fc.ops(&t, &v);
                for x in flatv(fc.m, &t) {
                    aw.push(x.0);
                }
                args.extend(o);
            }
            if p.eat(b')') {
                break;
            }
            p.exp(b',');
        }
    }
    let next = if kind == "invoke" {
        // attributes, then `to label %a unwind label %b` (maybe on next line)
        loop {
            p.attrs();
            if p.peek() == b'[' {
                while p.t[p.i] != b']' {
                    p.i += 1;
                }
                p.i += 1;
                continue;
            }
            break;
        }
        assert_eq!(p.word(), "to");
        assert_eq!(p.word(), "label");
        let n = p.name();
        assert_eq!(p.word(), "unwind");
        Some(edge(blk, n, et))
    } else {
        None
    };
    skip_line(p);
    let fl = flatv(fc.m, &rt);
    let n = fl.len();
    let d = if n > 0 {
        match &res {
            Some(r) => fc.def(r, &rt)[0],
            None => fc.new_slots(n)[0],
        }
    } else {
        0
    };
    let f = match target {
        V::Glob(name) => {
            if let Some(i) = name.strip_prefix("llvm.") {
                let w = aw.first().copied().unwrap_or(0);
                let rw = fl.first().map(|x| x.0).unwrap_or(0);
                let (intr, w) = intrinsic(i, w, rw);
                if intr == Intr::Unsupported {
                    fc.code.push(Inst::Unsupported(format!("intrinsic {name}").into()));
                    return;
                }
                Callee::Intrinsic(intr, w)
            } else {
                let id = *fc.m.fn_ix.get(&name).unwrap_or_else(|| panic!("callee {name}"));
                Callee::Direct(id)
            }
        }
        V::Reg(r) => {
            let o = fc.op1(&Ty::Ptr, &V::Reg(r));
            Callee::Indirect(o)
        }
        _ => unreachable!(),
    };
    fc.code.push(Inst::Call { f, args: args.into(), aw: aw.into(), dst: d, nret: n as u32, next });
}

fn intrinsic(i: &str, w: u32, _rw: u32) -> (Intr, u32) {
    use Intr::*;
    let h = |p: &str| i.starts_with(p);
    let k = if h("memcpy") {
        Memcpy
    } else if h("memmove") {
        Memmove
    } else if h("memset") {
        Memset
    } else if h("lifetime") || h("experimental.noalias") || h("dbg") || h("x86.sse2.pause") || h("prefetch") {
        Nop
    } else if h("assume") {
        Assume
    } else if h("uadd.with") {
        UAddO
    } else if h("usub.with") {
        USubO
    } else if h("umul.with") {
        UMulO
    } else if h("sadd.with") {
        SAddO
    } else if h("ssub.with") {
        SSubO
    } else if h("smul.with") {
        SMulO
    } else if h("uadd.sat") {
        UAddSat
    } else if h("usub.sat") {
        USubSat
    } else if h("sadd.sat") {
        SAddSat
    } else if h("ssub.sat") {
        SSubSat
    } else if h("ctpop") {
        Ctpop
    } else if h("ctlz") {
        Ctlz
    } else if h("cttz") {
        Cttz
    } else if h("bswap") {
        Bswap
    } else if h("bitreverse") {
        Bitreverse
    } else if h("umin") {
        UMin
    } else if h("umax") {
        UMax
    } else if h("smin") {
        SMin
    } else if h("smax") {
        SMax
    } else if h("abs") {
        Abs
    } else if h("fshl") {
        Fshl
    } else if h("fshr") {
        Fshr
    } else if h("scmp") {
        SCmp
    } else if h("ucmp") {
        UCmp
    } else if h("is.constant") {
        IsConst
    } else if h("trap") {
        Trap
    } else if h("vector.reduce.and") {
        ReduceAnd
    } else if h("vector.reduce.or") {
        ReduceOr
    } else if h("expect") {
        Expect
    } else if h("threadlocal.address") {
        ThreadLocal
    } else if h("x86.xgetbv") {
        Zero
    } else {
        Unsupported
    };
    (k, w)
}
