//! The symbolic interpreter: one process per live path, forked at decisions.
use crate::expr::{self, ExprId, Fx, MULTI, N};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use crate::sys::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(u64),
    S(ExprId),
}
impl Val {
    #[inline]
    pub fn norm(e: ExprId) -> Val {
        let n = expr::node(e);
        match n.n {
            N::Const(c) if n.w <= 64 => Val::C(c as u64),
            _ => Val::S(e),
        }
    }
    #[inline]
    pub fn ex(self, w: u32) -> ExprId {
        match self {
            Val::C(c) => expr::konst(w, c as u128),
            Val::S(e) => e,
        }
    }
}

pub fn weak_supported(name: &str) -> bool {
    matches!(name, "__cxa_thread_atexit_impl")
}

struct Frame {
    code: &'static [Inst],
    f: &'static Func,
    pc: u32,
    base: usize,
    sp: u64,
    dst: u32,
    next: Option<&'static Edge>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Ic {
    None, Make, Assume, Assert, AssertSame, Cover, Log, Concretize, IsSymbolic, SetToml, Strerror, SetHash, HashWrite,
    Malloc, Calloc, Realloc, Free, PosixMemalign, RAlloc, RAllocZ, RRealloc, RDealloc,
    Memcmp, Strlen, Getenv, Open, Fstat, Stat, Statx, Lseek, Read, Close, Write, Writev, Zero, Errno, Getcwd, Realpath,
    PanicFmt, PanicNounwind, Abort, HashFinish, Nop, RandKeys, Syscall, Sysconf, KeyCreate,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Explore,
    Scout,
}

pub struct Path {
    pub pc: Vec<ExprId>,
    known: HashMap<ExprId, bool, Fx>,
    dom: Vec<[u64; 4]>,
    single: Vec<Vec<ExprId>>,
    multi: Vec<ExprId>,
    in_multi: Vec<bool>,
    pub witness: Vec<u8>,
    pub makes: Vec<(u32, u32)>,
    pub nvars: u32,
    pub logs: Vec<Vec<ExprId>>,
}

pub struct Ex {
    pub m: Module,
    pub mem: Mem,
    pub ic: Vec<Ic>,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    sp: u64,
    pub path: Path,
    solver: Option<Box<Solver>>,
    pub mode: Mode,
    insts: u64,
    pub fuel: u64,
    pub out: String,
    pub deadline: u64,
    /// hash values chosen by the harness for some keys; all others hash to 0
    hashes: Vec<(Vec<u8>, u64)>,
    hash_acc: Option<Vec<u8>>,
    toml_dir: Option<String>,
    files: HashMap<String, std::rc::Rc<Vec<ExprId>>>,
    dirs: std::collections::HashSet<String>,
    fds: Vec<(usize, std::rc::Rc<Vec<ExprId>>)>,
    errno: u64,
    envbuf: HashMap<String, u64>,
    scout_left: u32,
    pub want_samples: u64,
}

static mut EX: *mut Ex = std::ptr::null_mut();
pub fn ex() -> &'static mut Ex {
    unsafe { &mut *EX }
}
pub fn set_ex(e: Box<Ex>) {
    unsafe { EX = Box::leak(e) }
}

pub fn append(file: &str, line: &str) {
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(file).unwrap();
    f.write_all(line.as_bytes()).unwrap();
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
/// engine error: the check cannot answer
pub fn fatal(msg: &str) -> ! {
    unsafe {
        if !EX.is_null() {
            let e = &mut *EX;
            let st = e.stack(12);
            append(&format!("{}/errors", e.out), &format!("{}\n    at {}\n", msg, st));
            shared().errors.fetch_add(1, Relaxed);
            shared().stop.store(1, Relaxed);
            e.finish(3);
        }
        eprintln!("fatal: {msg}");
        _exit(3)
    }
}

pub fn demangle(n: &str) -> String {
    let Some(r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let b = r.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = Vec::new();
    while i < b.len() && b[i].is_ascii_digit() {
        let s = i;
        while b[i].is_ascii_digit() {
            i += 1;
        }
        let l: usize = r[s..i].parse().unwrap();
        parts.push(r[i..i + l].to_string());
        i += l;
    }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
        parts.pop();
    }
    let mut s = parts.join("::");
    for (a, b) in [
        ("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$BP$", "*"), ("$C$", ","), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"),
        ("$LP$", "("), ("$RP$", ")"), ("$u27$", "'"), ("$u5b$", "["), ("$u5d$", "]"), ("$u2b$", "+"), ("..", "::"), ("$u3b$", ";"), ("$u21$", "!"),
    ] {
        s = s.replace(a, b);
    }
    s.strip_prefix("_<").map(|x| format!("<{x}")).unwrap_or(s)
}

fn classify(name: &str) -> Ic {
    match name {
        "vsym_make" => return Ic::Make,
        "vsym_assume" => return Ic::Assume,
        "vsym_assert" => return Ic::Assert,
        "vsym_assert_same" => return Ic::AssertSame,
        "vsym_cover" => return Ic::Cover,
        "vsym_log" => return Ic::Log,
        "vsym_concretize" => return Ic::Concretize,
        "vsym_is_symbolic" => return Ic::IsSymbolic,
        "vsym_set_toml" => return Ic::SetToml,
        "vsym_set_hash" => return Ic::SetHash,
        "malloc" => return Ic::Malloc,
        "calloc" => return Ic::Calloc,
        "realloc" => return Ic::Realloc,
        "free" => return Ic::Free,
        "posix_memalign" => return Ic::PosixMemalign,
        "memcmp" | "bcmp" => return Ic::Memcmp,
        "strlen" => return Ic::Strlen,
        "getenv" => return Ic::Getenv,
        "open64" => return Ic::Open,
        "__xpg_strerror_r" => return Ic::Strerror,
        "fstat64" => return Ic::Fstat,
        "stat64" | "lstat64" => return Ic::Stat,
        "statx" => return Ic::Statx,
        "lseek64" => return Ic::Lseek,
        "read" => return Ic::Read,
        "close" => return Ic::Close,
        "write" => return Ic::Write,
        "writev" => return Ic::Writev,
        "getcwd" => return Ic::Getcwd,
        "realpath" => return Ic::Realpath,
        "__errno_location" => return Ic::Errno,
        "abort" | "exit" | "_exit" => return Ic::Abort,
        "__cxa_thread_atexit_impl" | "pthread_setspecific" => return Ic::Zero,
        "syscall" => return Ic::Syscall,
        "sysconf" => return Ic::Sysconf,
        "pthread_key_create" => return Ic::KeyCreate,
        "pthread_key_delete" => return Ic::Zero,
        _ => {}
    }
    if name.starts_with("_RNv") {
        if name.ends_with("___rust_alloc") { return Ic::RAlloc; }
        if name.ends_with("___rust_alloc_zeroed") { return Ic::RAllocZ; }
        if name.ends_with("___rust_realloc") { return Ic::RRealloc; }
        if name.ends_with("___rust_dealloc") { return Ic::RDealloc; }
        if name.ends_with("rust_begin_unwind") { return Ic::PanicNounwind; }
        if name.contains("no_alloc_shim") { return Ic::Nop; }
        return Ic::None;
    }
    if name.starts_with("_ZN") && (name.contains("panicking") || name.contains("DefaultHasher") || name.contains("hashmap_random_keys")) {
        let d = demangle(name);
        match d.as_str() {
            "core::panicking::panic_fmt" => return Ic::PanicFmt,
            "core::panicking::panic_nounwind_fmt" | "core::panicking::panic_nounwind" | "core::panicking::panic_cannot_unwind"
            | "core::panicking::panic_in_cleanup" | "std::panicking::begin_panic" | "std::panicking::rust_panic_with_hook" => return Ic::PanicNounwind,
            "<std::hash::random::DefaultHasher as core::hash::Hasher>::finish" => return Ic::HashFinish,
            "<std::hash::random::DefaultHasher as core::hash::Hasher>::write"
            | "<std::hash::random::DefaultHasher as core::hash::Hasher>::write_str" => return Ic::HashWrite,
            "std::sys::random::linux::hashmap_random_keys" => return Ic::RandKeys,
            _ => {}
        }
    }
    Ic::None
}

macro_rules! ev {
    ($self:ident, $base:ident, $o:expr) => {
        match $o {
            Op::R(r) => unsafe { *$self.regs.get_unchecked($base + r as usize) },
            Op::C(c) => Val::C(c),
            Op::X(e) => Val::S(e),
        }
    };
}

impl Ex {
    pub fn new(m: Module, out: String) -> Ex {
        let ic = m.fns.iter().map(|f| classify(&f.name)).collect();
        Ex {
            m,
            mem: Mem::new(),
            ic,
            regs: vec![Val::C(0); 1 << 20],
            frames: Vec::new(),
            sp: STACK,
            path: Path {
                pc: vec![],
                known: HashMap::default(),
                dom: vec![],
                single: vec![],
                multi: vec![],
                in_multi: vec![],
                witness: vec![],
                makes: vec![],
                nvars: 0,
                logs: vec![],
            },
            solver: None,
            mode: Mode::Explore,
            insts: 0,
            fuel: 2_000_000_000,
            out,
            deadline: u64::MAX,
            hashes: vec![],
            hash_acc: Some(vec![]),
            toml_dir: None,
            files: HashMap::new(),
            dirs: Default::default(),
            fds: vec![],
            errno: 0,
            envbuf: HashMap::new(),
            scout_left: 200,
            want_samples: 0,
        }
    }
    pub fn init_solver(&mut self) {
        if self.solver.is_none() {
            self.solver = Some(Box::new(Solver::new()));
        }
    }
    pub fn stack(&self, n: usize) -> String {
        self.frames
            .iter()
            .rev()
            .take(n)
            .map(|f| format!("{}+{}", demangle(&f.f.name), f.pc))
            .collect::<Vec<_>>()
            .join("\n    < ")
    }
    pub fn finish(&mut self, code: i32) -> ! {
        let s = shared();
        s.insts.fetch_add(self.insts, Relaxed);
        s.max_vars.fetch_max(self.path.nvars as u64, Relaxed);
        s.max_pc.fetch_max(self.path.pc.len() as u64, Relaxed);
        if self.mode == Mode::Explore {
            s.done.fetch_add(1, Relaxed);
            s.give_token();
        }
        unsafe { _exit(code) }
    }

    // ---- path condition -------------------------------------------------
    fn new_byte(&mut self) -> ExprId {
        let p = &mut self.path;
        let i = p.nvars;
        p.nvars += 1;
        p.dom.push([u64::MAX; 4]);
        p.single.push(vec![]);
        p.in_multi.push(false);
        p.witness.push(0);
        expr::var(i)
    }
    fn known(&self, c: ExprId) -> Option<bool> {
        if let Some(&b) = self.path.known.get(&c) {
            return Some(b);
        }
        let n = expr::node(c);
        match n.n {
            N::Const(k) => return Some(k == 1),
            N::Not(x) => return self.known(x).map(|b| !b),
            N::Bin(o, a, b) => match expr::opof(o) {
                Bin::And => {
                    let (x, y) = (self.known(a), self.known(b));
                    if x == Some(false) || y == Some(false) { return Some(false); }
                    if x == Some(true) && y == Some(true) { return Some(true); }
                }
                Bin::Or => {
                    let (x, y) = (self.known(a), self.known(b));
                    if x == Some(true) || y == Some(true) { return Some(true); }
                    if x == Some(false) && y == Some(false) { return Some(false); }
                }
                _ => {}
            },
            _ => {}
        }
        if n.sv < MULTI {
            let t = expr::table(c);
            let d = &self.path.dom[n.sv as usize];
            let (mut any_t, mut any_f) = (false, false);
            for i in 0..4 {
                any_t |= d[i] & t[i] != 0;
                any_f |= d[i] & !t[i] != 0;
            }
            if !any_t {
                return Some(false);
            }
            if !any_f {
                return Some(true);
            }
        }
        None
    }
    fn add(&mut self, c: ExprId) {
        let n = expr::node(c);
        match n.n {
            N::Const(k) => {
                assert!(k == 1, "adding a false constraint");
                return;
            }
            N::Bin(o, a, b) if expr::opof(o) == Bin::And => {
                self.add(a);
                self.add(b);
                self.path.known.insert(c, true);
                return;
            }
            N::Not(x) => {
                if let N::Bin(o, a, b) = expr::node(x).n {
                    if expr::opof(o) == Bin::Or {
                        self.add(expr::not(a));
                        self.add(expr::not(b));
                        self.path.known.insert(x, false);
                        return;
                    }
                }
            }
            _ => {}
        }
        if self.path.known.get(&c) == Some(&true) {
            return;
        }
        let p = &mut self.path;
        p.pc.push(c);
        p.known.insert(c, true);
        p.known.insert(expr::not(c), false);
        if n.sv < MULTI {
            let t = expr::table(c);
            let d = &mut p.dom[n.sv as usize];
            for i in 0..4 {
                d[i] &= t[i];
            }
            p.single[n.sv as usize].push(c);
        } else {
            for &v in expr::support(c).iter() {
                p.in_multi[v as usize] = true;
            }
            p.multi.push(c);
        }
    }
    /// constraints that can influence `c`
    fn slice(&self, c: ExprId) -> Vec<ExprId> {
        let p = &self.path;
        let mut vars: Vec<u32> = expr::support(c).to_vec();
        let mut seen = vec![false; p.nvars as usize];
        for &v in &vars {
            seen[v as usize] = true;
        }
        let mut used = vec![false; p.multi.len()];
        let mut out = vec![];
        let mut changed = vars.iter().any(|v| p.in_multi[*v as usize]);
        while changed {
            changed = false;
            for (i, &m) in p.multi.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let s = expr::support(m);
                if s.iter().any(|v| seen[*v as usize]) {
                    used[i] = true;
                    changed = true;
                    out.push(m);
                    for &v in s.iter() {
                        if !seen[v as usize] {
                            seen[v as usize] = true;
                            vars.push(v);
                        }
                    }
                }
            }
        }
        for v in vars {
            out.extend(p.single[v as usize].iter());
        }
        out.push(c);
        out
    }
    fn z3(&mut self, cs: &[ExprId], diff: Option<&[(ExprId, ExprId)]>, model: &mut Vec<u8>) -> Res {
        let t = now_ns();
        self.init_solver();
        let r = self.solver.as_mut().unwrap().check_diff(cs, diff, model);
        let s = shared();
        s.queries.fetch_add(1, Relaxed);
        s.solver_ns.fetch_add(now_ns() - t, Relaxed);
        match r {
            Res::Sat => s.q_sat.fetch_add(1, Relaxed),
            Res::Unsat => s.q_unsat.fetch_add(1, Relaxed),
            Res::Unknown => fatal("the solver answered unknown"),
        };
        r
    }
    /// a model of path ∧ c, if there is one
    fn feasible(&mut self, c: ExprId) -> Option<Vec<u8>> {
        match self.known(c) {
            Some(false) => return None,
            Some(true) => return Some(self.path.witness.clone()),
            None => {}
        }
        let n = expr::node(c);
        if n.sv < MULTI && !self.path.in_multi[n.sv as usize] {
            let t = expr::table(c);
            let d = self.path.dom[n.sv as usize];
            shared().table_decided.fetch_add(1, Relaxed);
            for i in 0..4 {
                let x = t[i] & d[i];
                if x != 0 {
                    let mut w = self.path.witness.clone();
                    w[n.sv as usize] = (i as u32 * 64 + x.trailing_zeros()) as u8;
                    return Some(w);
                }
            }
            return None;
        }
        let cs = self.slice(c);
        let mut w = self.path.witness.clone();
        match self.z3(&cs, None, &mut w) {
            Res::Sat => Some(w),
            _ => None,
        }
    }
    pub fn branch(&mut self, c: ExprId) -> bool {
        if let Some(b) = self.known(c) {
            return b;
        }
        shared().sym_branches.fetch_add(1, Relaxed);
        if let Some(f) = self.frames.last() {
            shared().fn_sym[f.f.id as usize].store(1, Relaxed);
        }
        let side = expr::eval(c, &self.path.witness) == 1;
        let (cs, co) = if side { (c, expr::not(c)) } else { (expr::not(c), c) };
        if self.mode == Mode::Scout {
            self.add(cs);
            return side;
        }
        match self.feasible(co) {
            None => {
                self.path.known.insert(cs, true);
                self.path.known.insert(co, false);
                side
            }
            Some(w) => {
                if shared().stop.load(Relaxed) != 0 {
                    self.finish(0);
                }
                let s = shared();
                s.forks.fetch_add(1, Relaxed);
                if std::env::var_os("VSYM_FORKS").is_some() {
                    let t = self.stack(4).replace('\n', " < ");
                    append(&format!("{}/forks", self.out), &format!("{t}\n"));
                }
                s.started.fetch_add(1, Relaxed);
                s.insts.fetch_add(self.insts, Relaxed);
                self.fuel = self.fuel.saturating_sub(self.insts);
                self.insts = 0;
                let r = unsafe { fork() };
                if r < 0 {
                    s.started.fetch_sub(1, Relaxed);
                    fatal("fork failed");
                }
                if r == 0 {
                    self.add(cs);
                    side
                } else {
                    s.take_token();
                    if s.stop.load(Relaxed) != 0 {
                        self.finish(0);
                    }
                    self.path.witness = w;
                    self.add(co);
                    !side
                }
            }
        }
    }
    fn bool_of(&mut self, v: Val) -> bool {
        match v {
            Val::C(c) => c & 1 == 1,
            Val::S(e) => self.branch(e),
        }
    }
    /// fork over every feasible value
    pub fn concretize(&mut self, v: Val, _w: u32) -> u64 {
        match v {
            Val::C(c) => c,
            Val::S(e) => loop {
                let k = expr::eval(e, &self.path.witness);
                let w = expr::width(e);
                if self.branch(expr::eq(e, expr::konst(w, k))) {
                    return k as u64;
                }
            },
        }
    }
    /// feasible values of `e`, at most `max`
    fn values(&mut self, e: ExprId, max: usize) -> Option<Vec<u128>> {
        let n = expr::node(e);
        if n.leaves > 0 || n.sv < MULTI {
            let mut vs: Vec<u128> = vec![];
            if n.sv < MULTI {
                let t = expr::value_table(e);
                let d = self.path.dom[n.sv as usize];
                for (i, v) in t.iter().enumerate() {
                    if d[i / 64] >> (i % 64) & 1 == 1 {
                        vs.push(*v);
                    }
                }
            } else {
                for x in expr::postorder(e) {
                    if expr::width(x) == n.w {
                        if let Some(c) = expr::as_const(x) {
                            vs.push(c);
                        }
                    }
                }
            }
            vs.sort_unstable();
            vs.dedup();
            return if vs.len() <= max { Some(vs) } else { None };
        }
        let mut vs = vec![];
        let mut excl = expr::tru();
        loop {
            let cs = self.slice(excl);
            let mut all = cs;
            // make sure the constraints on e itself are included
            all.extend(self.slice(expr::not(expr::eq(e, expr::konst(n.w, 0)))).into_iter().rev().skip(1));
            let mut w = self.path.witness.clone();
            if self.z3(&all, None, &mut w) != Res::Sat {
                break;
            }
            let k = expr::eval(e, &w);
            vs.push(k);
            if vs.len() > max {
                return None;
            }
            excl = expr::and(excl, expr::not(expr::eq(e, expr::konst(n.w, k))));
        }
        Some(vs)
    }

    // ---- results ---------------------------------------------------------
    pub fn replay_text(&self, model: &[u8]) -> String {
        let mut s = String::new();
        for (st, n) in &self.path.makes {
            s.push_str("make ");
            for i in *st..*st + *n {
                s.push_str(&format!("{:02x}", model.get(i as usize).copied().unwrap_or(0)));
            }
            s.push('\n');
        }
        s
    }
    fn violation(&mut self, kind: &str, msg: &str, model: &[u8]) {
        if self.mode == Mode::Scout {
            self.finish(0);
        }
        let k = shared().violations.fetch_add(1, Relaxed);
        if k >= 64 {
            shared().stop.store(1, Relaxed);
            return;
        }
        let f = format!("{}/viol-{k}.replay", self.out);
        let mut t = format!("# {kind}: {}\n", msg.replace('\n', " "));
        t.push_str(&self.replay_text(model));
        for l in self.stack(10).lines() {
            t.push_str(&format!("# {l}\n"));
        }
        std::fs::write(&f, t).unwrap();
        append(&format!("{}/violations", self.out), &format!("{{\"kind\":\"{kind}\",\"msg\":\"{}\",\"file\":\"{f}\"}}\n", esc(msg)));
    }
    fn path_end(&mut self) -> ! {
        if self.mode == Mode::Explore {
            let s = shared();
            s.logs.fetch_add(self.path.logs.len() as u64, Relaxed);
            let k = s.samples.fetch_add(1, Relaxed);
            if k < self.want_samples {
                let mut t = self.replay_text(&self.path.witness.clone());
                for l in &self.path.logs {
                    let b: Vec<u8> = l.iter().map(|e| expr::eval(*e, &self.path.witness) as u8).collect();
                    t.push_str("log ");
                    for x in b {
                        t.push_str(&format!("{x:02x}"));
                    }
                    t.push('\n');
                }
                std::fs::write(format!("{}/ok-{k}.replay", self.out), t).unwrap();
            }
        }
        self.finish(0)
    }
    fn text(&self, a: u64, n: u64) -> String {
        let b: Vec<u8> = (0..n).map(|i| expr::eval(self.mem.byte(a + i), &self.path.witness) as u8).collect();
        String::from_utf8_lossy(&b).into_owned()
    }

    // ---- running ----------------------------------------------------------
    pub fn fid(&self, name: &str) -> Option<u32> {
        self.m.fn_ix.get(name).copied()
    }
    pub fn compile(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.m.fns[id as usize].compiled {
            return f;
        }
        compile(&mut self.m, &mut self.mem, id)
    }
    fn enter(&mut self, id: u32, args: &[Val], dst: u32, next: Option<&'static Edge>) {
        let f = self.compile(id);
        shared().fn_seen[id as usize].store(1, Relaxed);
        let base = match self.frames.last() {
            Some(fr) => fr.base + fr.f.nslots as usize,
            None => 0,
        };
        if base + f.nslots as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
            let w = self.path.witness.clone();
                            self.violation("depth", "call depth exceeds the bound", &w);
                            self.finish(0);
        }
        self.regs[base..base + args.len()].copy_from_slice(args);
        self.frames.push(Frame { code: &f.code, f, pc: 0, base, sp: self.sp, dst, next });
    }
    pub fn start(&mut self, id: u32) -> ! {
        self.enter(id, &[], 0, None);
        self.run()
    }
    #[inline(never)]
    fn take_edge(&mut self, base: usize, e: &Edge) {
        let n = e.copies.len();
        match n {
            0 => {}
            1 => {
                let (d, o) = e.copies[0];
                let v = ev!(self, base, o);
                self.regs[base + d as usize] = v;
            }
            _ => {
                let mut tmp = [Val::C(0); 16];
                if n <= 16 {
                    for (i, (_, o)) in e.copies.iter().enumerate() {
                        tmp[i] = ev!(self, base, *o);
                    }
                    for (i, (d, _)) in e.copies.iter().enumerate() {
                        self.regs[base + *d as usize] = tmp[i];
                    }
                } else {
                    let t: Vec<Val> = e.copies.iter().map(|(_, o)| ev!(self, base, *o)).collect();
                    for ((d, _), v) in e.copies.iter().zip(t) {
                        self.regs[base + *d as usize] = v;
                    }
                }
            }
        }
    }
    fn run(&mut self) -> ! {
        'frame: loop {
            let fi = self.frames.len() - 1;
            let (code, base, mut pc) = {
                let f = &self.frames[fi];
                (f.code, f.base, f.pc as usize)
            };
            macro_rules! val {
                ($o:expr) => {
                    ev!(self, base, $o)
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    unsafe { *self.regs.get_unchecked_mut(base + $d as usize) = v }
                }};
            }
            macro_rules! sync {
                () => {
                    self.frames[fi].pc = pc as u32
                };
            }
            loop {
                let i = unsafe { code.get_unchecked(pc) };
                #[cfg(feature = "trace")]
                eprintln!("{} {} {:?}", self.frames[fi].f.name, pc, i);
                self.insts += 1;
                if self.insts & 0xfffff == 0 {
                    sync!();
                    if self.insts > self.fuel {
                        let w = self.path.witness.clone();
                        self.violation("hang", "no end within the instruction bound", &w);
                        self.finish(0);
                    }
                    if shared().stop.load(Relaxed) != 0 || now_ns() > self.deadline {
                        self.finish(0);
                    }
                }
                match i {
                    Inst::Load { dst, w, addr, off } => {
                        match val!(*addr) {
                            Val::C(a) => {
                                let v = self.mem.load(a.wrapping_add(*off), *w);
                                set!(*dst, v);
                            }
                            Val::S(e) => {
                                sync!();
                                let v = self.load_sym(e, *off, *w);
                                set!(*dst, v);
                            }
                        }
                        pc += 1;
                    }
                    Inst::Store { w, addr, off, val } => {
                        let v = val!(*val);
                        let a = match val!(*addr) {
                            Val::C(a) => a,
                            Val::S(e) => {
                                sync!();
                                self.concretize(Val::S(e), 64)
                            }
                        };
                        self.mem.store(a.wrapping_add(*off), *w, v);
                        pc += 1;
                    }
                    Inst::Gep { dst, base: b, off, terms } => {
                        let bv = val!(*b);
                        let mut acc = match bv {
                            Val::C(a) => Val::C(a.wrapping_add(*off)),
                            Val::S(e) => Val::norm(expr::bin(Bin::Add, e, expr::konst(64, *off as u128))),
                        };
                        for (o, w, s) in terms.iter() {
                            let t = val!(*o);
                            acc = match (acc, t) {
                                (Val::C(a), Val::C(c)) => Val::C(a.wrapping_add(sext(c, *w).wrapping_mul(*s))),
                                (a, t) => {
                                    let x = t.ex(*w);
                                    let x = if *w < 64 { expr::sext(x, 64) } else if *w > 64 { expr::extract(x, 0, 64) } else { x };
                                    let x = expr::bin(Bin::Mul, x, expr::konst(64, *s as u128));
                                    Val::norm(expr::bin(Bin::Add, x, a.ex(64)))
                                }
                            };
                        }
                        set!(*dst, acc);
                        pc += 1;
                    }
                    Inst::Br(e) => {
                        self.take_edge(base, e);
                        pc = e.pc as usize;
                    }
                    Inst::CondBr { c, t, f } => {
                        let b = match val!(*c) {
                            Val::C(c) => c & 1 == 1,
                            Val::S(e) => {
                                sync!();
                                self.branch(e)
                            }
                        };
                        let e = if b { t } else { f };
                        if !e.copies.is_empty() {
                            self.take_edge(base, e);
                        }
                        pc = e.pc as usize;
                    }
                    Inst::Icmp { p, w, dst, a, b } => {
                        let (x, y) = (val!(*a), val!(*b));
                        let r = match (x, y) {
                            (Val::C(x), Val::C(y)) => {
                                let w = *w;
                                Val::C(match p {
                                    Pred::Eq => x == y,
                                    Pred::Ne => x != y,
                                    Pred::Ult => x < y,
                                    Pred::Ule => x <= y,
                                    Pred::Ugt => x > y,
                                    Pred::Uge => x >= y,
                                    Pred::Slt => (sext(x, w) as i64) < sext(y, w) as i64,
                                    Pred::Sle => (sext(x, w) as i64) <= sext(y, w) as i64,
                                    Pred::Sgt => (sext(x, w) as i64) > sext(y, w) as i64,
                                    Pred::Sge => (sext(x, w) as i64) >= sext(y, w) as i64,
                                } as u64)
                            }
                            (x, y) => Val::norm(icmp_sym(*p, x.ex(*w), y.ex(*w))),
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Bin { op, w, dst, a, b } => {
                        let (x, y) = (val!(*a), val!(*b));
                        let r = match (x, y) {
                            (Val::C(x), Val::C(y)) => {
                                let w = *w;
                                let m = mask(w);
                                Val::C(match op {
                                    Bin::Add => x.wrapping_add(y) & m,
                                    Bin::Sub => x.wrapping_sub(y) & m,
                                    Bin::And => x & y,
                                    Bin::Or => x | y,
                                    Bin::Xor => x ^ y,
                                    Bin::Mul => x.wrapping_mul(y) & m,
                                    Bin::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                                    Bin::AShr => (((sext(x, w) as i64) >> y.min(63)) as u64) & m,
                                    Bin::UDiv => {
                                        if y == 0 { fatal("division by zero") }
                                        x / y
                                    }
                                    Bin::URem => {
                                        if y == 0 { fatal("division by zero") }
                                        x % y
                                    }
                                    Bin::SDiv => {
                                        if y == 0 { fatal("division by zero") }
                                        ((sext(x, w) as i64).wrapping_div(sext(y, w) as i64) as u64) & m
                                    }
                                    Bin::SRem => {
                                        if y == 0 { fatal("division by zero") }
                                        ((sext(x, w) as i64).wrapping_rem(sext(y, w) as i64) as u64) & m
                                    }
                                })
                            }
                            (x, y) => {
                                let (x, y) = (x.ex(*w), y.ex(*w));
                                if matches!(op, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
                                    sync!();
                                    let z = expr::eq(y, expr::konst(*w, 0));
                                    if self.branch(z) {
                                        fatal("division by zero");
                                    }
                                }
                                Val::norm(expr::bin(*op, x, y))
                            }
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Copy { dst, a } => {
                        let v = val!(*a);
                        set!(*dst, v);
                        pc += 1;
                    }
                    Inst::Cast { k, from, to, dst, a } => {
                        let r = match val!(*a) {
                            Val::C(c) if *to <= 64 => Val::C(match k {
                                Cast::Trunc => c & mask(*to),
                                Cast::ZExt => c,
                                Cast::SExt => sext(c, *from) & mask(*to),
                            }),
                            v => {
                                let e = v.ex(*from);
                                Val::norm(match k {
                                    Cast::Trunc => expr::extract(e, 0, *to),
                                    Cast::ZExt => expr::zext(e, *to),
                                    Cast::SExt => expr::sext(e, *to),
                                })
                            }
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Alloca { dst, size, align, n } => {
                        let n = match val!(*n) {
                            Val::C(n) => n,
                            _ => fatal("symbolic alloca size"),
                        };
                        let a = (self.sp + align - 1) / align * align;
                        let sz = size * n;
                        self.sp = a + sz;
                        if self.sp >= STACK_END {
                            fatal("stack bound exceeded");
                        }
                        self.mem.clear_sym(a, sz);
                        set!(*dst, Val::C(a));
                        pc += 1;
                    }
                    Inst::Call { f, args, aw, dst, nret, next } => {
                        sync!();
                        let id = match f {
                            Callee::Direct(id) => *id,
                            Callee::Indirect(o) => {
                                let a = match val!(*o) {
                                    Val::C(a) => a,
                                    v => self.concretize(v, 64),
                                };
                                let id = a.wrapping_sub(FBASE) / 16;
                                if a < FBASE || a % 16 != 0 || id as usize >= self.m.fns.len() {
                                    fatal(&format!("indirect call to {a:#x}"));
                                }
                                id as u32
                            }
                            Callee::Intrinsic(k, w) => {
                                self.intrinsic(*k, *w, args, aw, *dst, *nret, base);
                                match next {
                                    None => pc += 1,
                                    Some(e) => {
                                        self.take_edge(base, e);
                                        pc = e.pc as usize;
                                    }
                                }
                                continue;
                            }
                        };
                        let ic = self.ic[id as usize];
                        if ic != Ic::None {
                            let mut av = [Val::C(0); 12];
                            for (k, o) in args.iter().enumerate() {
                                av[k] = val!(*o);
                            }
                            let r = self.external(ic, id, &av[..args.len()]);
                            for k in 0..*nret {
                                set!(*dst + k, r[k as usize]);
                            }
                            match next {
                                None => pc += 1,
                                Some(e) => {
                                    self.take_edge(base, e);
                                    pc = e.pc as usize;
                                }
                            }
                            continue;
                        }
                        if self.m.fns[id as usize].off == usize::MAX {
                            fatal(&format!("call of unmodelled external function {}", self.m.fns[id as usize].name));
                        }
                        let cf = self.compile(id);
                        unsafe {
                            let seen = shared().fn_seen.get_unchecked(id as usize);
                            if seen.load(Relaxed) == 0 {
                                seen.store(1, Relaxed);
                            }
                        }
                        let nbase = base + self.frames[fi].f.nslots as usize;
                        if nbase + cf.nslots as usize + 64 > self.regs.len() || self.frames.len() > 20000 {
                            let w = self.path.witness.clone();
                            self.violation("depth", "call depth exceeds the bound", &w);
                            self.finish(0);
                        }
                        for (k, o) in args.iter().enumerate() {
                            let v = val!(*o);
                            unsafe { *self.regs.get_unchecked_mut(nbase + k) = v }
                        }
                        self.frames.push(Frame { code: &cf.code, f: cf, pc: 0, base: nbase, sp: self.sp, dst: *dst, next: next.as_ref() });
                        continue 'frame;
                    }
                    Inst::Ret(vals) => {
                        let fr = self.frames.pop().unwrap();
                        self.sp = fr.sp;
                        if self.frames.is_empty() {
                            self.path_end();
                        }
                        let fj = self.frames.len() - 1;
                        let pb = self.frames[fj].base;
                        for (k, o) in vals.iter().enumerate() {
                            let v = val!(*o);
                            self.regs[pb + fr.dst as usize + k] = v;
                        }
                        match fr.next {
                            None => self.frames[fj].pc += 1,
                            Some(e) => {
                                self.take_edge(pb, e);
                                self.frames[fj].pc = e.pc;
                            }
                        }
                        continue 'frame;
                    }
                    Inst::Select { dst, w, ptr, c, a, b } => {
                        let (x, y) = (val!(*a), val!(*b));
                        let r = match val!(*c) {
                            Val::C(c) => if c & 1 == 1 { x } else { y },
                            Val::S(e) => match self.known(e) {
                                Some(true) => x,
                                Some(false) => y,
                                None => {
                                    if *ptr {
                                        sync!();
                                        if self.branch(e) { x } else { y }
                                    } else {
                                        Val::norm(expr::ite(e, x.ex(*w), y.ex(*w)))
                                    }
                                }
                            },
                        };
                        set!(*dst, r);
                        pc += 1;
                    }
                    Inst::Switch { w, v, def, cases, edges } => {
                        let e = match val!(*v) {
                            Val::C(c) => match cases.get(&c) {
                                Some(k) => &edges[*k as usize],
                                None => def,
                            },
                            Val::S(x) => {
                                sync!();
                                self.switch_sym(x, *w, def, cases, edges)
                            }
                        };
                        self.take_edge(base, e);
                        pc = e.pc as usize;
                    }
                    Inst::Bitcast { from, to, dst, a } => {
                        let mut acc: Option<ExprId> = None;
                        let vals: Vec<Val> = a.iter().map(|o| val!(*o)).collect();
                        let tw: u32 = from.iter().sum();
                        if tw <= 64 && vals.iter().all(|v| matches!(v, Val::C(_))) {
                            let mut x = 0u64;
                            let mut sh = 0;
                            for (v, w) in vals.iter().zip(from.iter()) {
                                if let Val::C(c) = v {
                                    x |= c << sh;
                                }
                                sh += w;
                            }
                            let mut sh = 0;
                            for (k, w) in to.iter().enumerate() {
                                set!(*dst + k as u32, Val::C((x >> sh) & mask(*w)));
                                sh += w;
                            }
                        } else {
                            if tw > 128 {
                                sync!();
                                fatal("bitcast wider than 128 bits");
                            }
                            for (v, w) in vals.iter().zip(from.iter()) {
                                let x = v.ex(*w);
                                acc = Some(match acc {
                                    None => x,
                                    Some(l) => expr::concat(x, l),
                                });
                            }
                            let acc = acc.unwrap();
                            let mut sh = 0;
                            for (k, w) in to.iter().enumerate() {
                                set!(*dst + k as u32, Val::norm(expr::extract(acc, sh, *w)));
                                sh += w;
                            }
                        }
                        pc += 1;
                    }
                    Inst::AtomicRmw { op, w, dst, addr, val } => {
                        let a = match val!(*addr) {
                            Val::C(a) => a,
                            v => {
                                sync!();
                                self.concretize(v, 64)
                            }
                        };
                        let old = self.mem.load(a, *w);
                        let v = val!(*val);
                        let new = match (op, old, v) {
                            (0, _, v) => v,
                            (1, Val::C(x), Val::C(y)) => Val::C(x.wrapping_add(y) & mask(*w)),
                            (2, Val::C(x), Val::C(y)) => Val::C(x.wrapping_sub(y) & mask(*w)),
                            (3, Val::C(x), Val::C(y)) => Val::C(x & y),
                            (4, Val::C(x), Val::C(y)) => Val::C(x | y),
                            (5, Val::C(x), Val::C(y)) => Val::C(x ^ y),
                            (6, Val::C(x), Val::C(y)) => Val::C(x.max(y)),
                            _ => {
                                sync!();
                                let (x, y) = (self.concretize(old, *w), self.concretize(v, *w));
                                match op {
                                    1 => Val::C(x.wrapping_add(y) & mask(*w)),
                                    2 => Val::C(x.wrapping_sub(y) & mask(*w)),
                                    3 => Val::C(x & y),
                                    4 => Val::C(x | y),
                                    5 => Val::C(x ^ y),
                                    6 => Val::C(x.max(y)),
                                    _ => fatal("atomic operation"),
                                }
                            }
                        };
                        self.mem.store(a, *w, new);
                        set!(*dst, old);
                        pc += 1;
                    }
                    Inst::CmpXchg { w, dst, addr, cmp, new } => {
                        let a = match val!(*addr) {
                            Val::C(a) => a,
                            v => {
                                sync!();
                                self.concretize(v, 64)
                            }
                        };
                        let old = self.mem.load(a, *w);
                        let (c, n) = (val!(*cmp), val!(*new));
                        let ok = match (old, c) {
                            (Val::C(x), Val::C(y)) => x == y,
                            _ => fatal("symbolic cmpxchg"),
                        };
                        if ok {
                            self.mem.store(a, *w, n);
                        }
                        set!(*dst, old);
                        set!(*dst + 1, Val::C(ok as u64));
                        pc += 1;
                    }
                    Inst::Asm { dst, nret, text } => {
                        if text.contains("cpuid") {
                            for k in 0..*nret {
                                set!(*dst + k, Val::C(0));
                            }
                        } else if *nret > 0 || !text.contains("\"\"") {
                            sync!();
                            fatal(&format!("inline asm: {text}"));
                        }
                        pc += 1;
                    }
                    Inst::Unreachable => {
                        sync!();
                        fatal("unreachable executed");
                    }
                    Inst::Unsupported(s) => {
                        sync!();
                        fatal(&format!("unsupported: {s}"));
                    }
                }
            }
        }
    }
    fn load_sym(&mut self, e: ExprId, off: u64, w: u32) -> Val {
        let vs = if w <= 32 { self.values(e, 300) } else { None };
        match vs {
            Some(vs) if !vs.is_empty() => {
                let mut r: Option<ExprId> = None;
                for k in vs.into_iter().rev() {
                    let v = self.mem.load((k as u64).wrapping_add(off), w).ex(w);
                    r = Some(match r {
                        None => v,
                        Some(x) => expr::ite(expr::eq(e, expr::konst(64, k)), v, x),
                    });
                }
                Val::norm(r.unwrap())
            }
            _ => {
                let a = self.concretize(Val::S(e), 64);
                self.mem.load(a.wrapping_add(off), w)
            }
        }
    }
    fn switch_sym(&mut self, x: ExprId, w: u32, def: &'static Edge, cases: &HashMap<u64, u32>, edges: &'static [Edge]) -> &'static Edge {
        let mut ks: Vec<(u64, u32)> = cases.iter().map(|(a, b)| (*a, *b)).collect();
        ks.sort_unstable();
        for t in 0..edges.len() as u32 {
            let mut c = expr::fls();
            for (k, e) in &ks {
                if *e == t {
                    c = expr::or(c, expr::eq(x, expr::konst(w, *k as u128)));
                }
            }
            if self.branch(c) {
                return &edges[t as usize];
            }
        }
        def
    }
    fn conc(&mut self, v: Val) -> u64 {
        match v {
            Val::C(c) => c,
            v => self.concretize(v, 64),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn intrinsic(&mut self, k: Intr, w: u32, args: &[Op], aw: &[u32], dst: u32, nret: u32, base: usize) {
        let a = |s: &Ex, i: usize| -> Val { ev!(s, base, args[i]) };
        macro_rules! ret {
            ($i:expr, $v:expr) => {{
                let v = $v;
                self.regs[base + dst as usize + $i] = v;
            }};
        }
        let c2 = |x: Val, y: Val| match (x, y) {
            (Val::C(x), Val::C(y)) => Some((x, y)),
            _ => None,
        };
        match k {
            Intr::Nop => {}
            Intr::Assume => {}
            Intr::Memcpy | Intr::Memmove => {
                let v = a(self, 0);
                let d = self.conc(v);
                let v = a(self, 1);
                let s = self.conc(v);
                let v = a(self, 2);
                let n = self.conc(v);
                self.mem.copy(d, s, n);
            }
            Intr::Memset => {
                let v = a(self, 0);
                let d = self.conc(v);
                let v = a(self, 2);
                let n = self.conc(v);
                match a(self, 1) {
                    Val::C(c) => self.mem.set(d, c as u8, n),
                    Val::S(e) => {
                        for i in 0..n {
                            self.mem.put(d + i, e);
                        }
                    }
                }
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                // possibly vectors: nret = 2 * lanes; rustc only emits scalars
                let (x, y) = (a(self, 0), a(self, 1));
                let m = mask(w);
                if let Some((x, y)) = c2(x, y) {
                    let (r, o) = match k {
                        Intr::UAddO => {
                            let r = x as u128 + y as u128;
                            (r as u64 & m, r > m as u128)
                        }
                        Intr::USubO => (x.wrapping_sub(y) & m, x < y),
                        Intr::UMulO => {
                            let r = x as u128 * y as u128;
                            (r as u64 & m, r > m as u128)
                        }
                        _ => {
                            let (p, q) = (sext(x, w) as i64 as i128, sext(y, w) as i64 as i128);
                            let r = match k {
                                Intr::SAddO => p + q,
                                Intr::SSubO => p - q,
                                _ => p * q,
                            };
                            let t = r as u64 & m;
                            (t, sext(t, w) as i64 as i128 != r)
                        }
                    };
                    ret!(0, Val::C(r));
                    ret!(1, Val::C(o as u64));
                } else {
                    let (x, y) = (x.ex(w), y.ex(w));
                    let (r, o) = match k {
                        Intr::UAddO => {
                            let r = expr::bin(Bin::Add, x, y);
                            (r, expr::ult(r, x))
                        }
                        Intr::USubO => (expr::bin(Bin::Sub, x, y), expr::ult(x, y)),
                        Intr::UMulO => {
                            if w > 64 {
                                fatal("128-bit checked multiplication of symbolic values");
                            }
                            let r = expr::bin(Bin::Mul, expr::zext(x, 2 * w), expr::zext(y, 2 * w));
                            (expr::extract(r, 0, w), expr::not(expr::eq(expr::extract(r, w, w), expr::konst(w, 0))))
                        }
                        _ => {
                            let ww = if k == Intr::SMulO { 2 * w } else { w + 1 };
                            let (p, q) = (expr::sext(x, ww), expr::sext(y, ww));
                            let r = expr::bin(
                                match k {
                                    Intr::SAddO => Bin::Add,
                                    Intr::SSubO => Bin::Sub,
                                    _ => Bin::Mul,
                                },
                                p,
                                q,
                            );
                            let t = expr::extract(r, 0, w);
                            (t, expr::not(expr::eq(expr::sext(t, ww), r)))
                        }
                    };
                    ret!(0, Val::norm(r));
                    ret!(1, Val::norm(o));
                }
            }
            Intr::UAddSat | Intr::USubSat => {
                let (x, y) = (a(self, 0), a(self, 1));
                let m = mask(w);
                let r = if let Some((x, y)) = c2(x, y) {
                    Val::C(if k == Intr::UAddSat { (x as u128 + y as u128).min(m as u128) as u64 } else { x.saturating_sub(y) })
                } else {
                    let (x, y) = (x.ex(w), y.ex(w));
                    if k == Intr::UAddSat {
                        let r = expr::bin(Bin::Add, x, y);
                        Val::norm(expr::ite(expr::ult(r, x), expr::konst(w, u128::MAX), r))
                    } else {
                        Val::norm(expr::ite(expr::ult(x, y), expr::konst(w, 0), expr::bin(Bin::Sub, x, y)))
                    }
                };
                ret!(0, r);
            }
            Intr::SAddSat | Intr::SSubSat => {
                let (x, y) = (a(self, 0).ex(w), a(self, 1).ex(w));
                let (p, q) = (expr::sext(x, w + 1), expr::sext(y, w + 1));
                let r = expr::bin(if k == Intr::SAddSat { Bin::Add } else { Bin::Sub }, p, q);
                let lo = expr::konst(w, 1u128 << (w - 1));
                let hi = expr::konst(w, (1u128 << (w - 1)) - 1);
                let t = expr::extract(r, 0, w);
                let fits = expr::eq(expr::sext(t, w + 1), r);
                let neg = expr::slt(r, expr::konst(w + 1, 0));
                ret!(0, Val::norm(expr::ite(fits, t, expr::ite(neg, lo, hi))));
            }
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                // scalar, or vector lanes laid out consecutively
                let n = nret as usize;
                for i in 0..n {
                    let (x, y) = (a(self, i), a(self, n + i));
                    let (x, y) = (x.ex(w), y.ex(w));
                    let c = match k {
                        Intr::UMin => expr::ult(x, y),
                        Intr::UMax => expr::ult(y, x),
                        Intr::SMin => expr::slt(x, y),
                        _ => expr::slt(y, x),
                    };
                    ret!(i, Val::norm(expr::ite(c, x, y)));
                }
            }
            Intr::UCmp | Intr::SCmp => {
                let (x, y) = (a(self, 0).ex(w), a(self, 1).ex(w));
                let (l, g) = if k == Intr::UCmp { (expr::ult(x, y), expr::ult(y, x)) } else { (expr::slt(x, y), expr::slt(y, x)) };
                // result type is i8 or i32 in practice; both -1/0/1
                let rw = 8;
                let r = expr::ite(l, expr::konst(rw, 0xff), expr::ite(g, expr::konst(rw, 1), expr::konst(rw, 0)));
                ret!(0, Val::norm(r));
            }
            Intr::Ctpop => {
                let x = a(self, 0);
                let r = match x {
                    Val::C(c) => Val::C(c.count_ones() as u64),
                    Val::S(e) => {
                        let mut r = expr::konst(w, 0);
                        for i in 0..w {
                            r = expr::bin(Bin::Add, r, expr::zext(expr::extract(e, i, 1), w));
                        }
                        Val::norm(r)
                    }
                };
                ret!(0, r);
            }
            Intr::Ctlz | Intr::Cttz => {
                let x = a(self, 0);
                let r = match x {
                    Val::C(c) => Val::C(if k == Intr::Ctlz {
                        (c.leading_zeros() as u64) - (64 - w as u64)
                    } else if c == 0 {
                        w as u64
                    } else {
                        c.trailing_zeros() as u64
                    }),
                    Val::S(e) => {
                        let mut r = expr::konst(w, w as u128);
                        for j in 0..w {
                            let (i, v) = if k == Intr::Ctlz { (j, w - 1 - j) } else { (w - 1 - j, w - 1 - j) };
                            r = expr::ite(expr::extract(e, i, 1), expr::konst(w, v as u128), r);
                        }
                        Val::norm(r)
                    }
                };
                ret!(0, r);
            }
            Intr::Bswap => {
                let e = a(self, 0).ex(w);
                let mut r = expr::extract(e, 0, 8);
                for i in 1..w / 8 {
                    r = expr::concat(r, expr::extract(e, 8 * i, 8));
                }
                ret!(0, Val::norm(r));
            }
            Intr::Bitreverse => {
                let e = a(self, 0).ex(w);
                let mut r = expr::extract(e, 0, 1);
                for i in 1..w {
                    r = expr::concat(r, expr::extract(e, i, 1));
                }
                ret!(0, Val::norm(r));
            }
            Intr::Abs => {
                let e = a(self, 0).ex(w);
                let neg = expr::slt(e, expr::konst(w, 0));
                ret!(0, Val::norm(expr::ite(neg, expr::bin(Bin::Sub, expr::konst(w, 0), e), e)));
            }
            Intr::Fshl | Intr::Fshr => {
                let (x, y) = (a(self, 0).ex(w), a(self, 1).ex(w));
                let v = a(self, 2);
                let s = match v {
                    Val::C(c) => (c % w as u64) as u32,
                    Val::S(e) => match expr::as_const(e) {
                        Some(c) => (c % w as u128) as u32,
                        None => (self.concretize(v, w) % w as u64) as u32,
                    },
                };
                let r = if s == 0 {
                    if k == Intr::Fshl { x } else { y }
                } else {
                    let s = if k == Intr::Fshl { s } else { w - s };
                    expr::concat(expr::extract(x, 0, w - s), expr::extract(y, w - s, s))
                };
                ret!(0, Val::norm(r));
            }
            Intr::IsConst => ret!(0, Val::C(0)),
            Intr::Trap => fatal("trap executed"),
            Intr::ReduceAnd | Intr::ReduceOr => {
                let mut r = a(self, 0).ex(w);
                for i in 1..args.len() {
                    let x = a(self, i).ex(w);
                    r = expr::bin(if k == Intr::ReduceAnd { Bin::And } else { Bin::Or }, r, x);
                }
                ret!(0, Val::norm(r));
            }
            Intr::Expect | Intr::ThreadLocal => ret!(0, a(self, 0)),
            Intr::Zero => ret!(0, Val::C(0)),
            Intr::Unsupported => fatal(&format!("intrinsic {k:?}")),
        }
        let _ = aw;
    }
    fn cstr(&mut self, p: u64) -> String {
        let mut v = vec![];
        let mut a = p;
        loop {
            self.mem.chk(a, 1);
            let b = self.mem.load(a, 8);
            let c = self.conc(b);
            if c == 0 {
                break;
            }
            v.push(c as u8);
            a += 1;
        }
        String::from_utf8_lossy(&v).into_owned()
    }
    fn external(&mut self, ic: Ic, id: u32, av: &[Val]) -> [Val; 4] {
        let mut r = [Val::C(0); 4];
        macro_rules! c {
            ($i:expr) => {{
                let v = av[$i];
                self.conc(v)
            }};
        }
        match ic {
            Ic::None => unreachable!(),
            Ic::Make => {
                let (p, n) = (c!(0), c!(1));
                let st = self.path.nvars;
                for i in 0..n {
                    let e = self.new_byte();
                    self.mem.put(p + i, e);
                }
                self.path.makes.push((st, n as u32));
            }
            Ic::Assume => match av[0] {
                Val::C(x) => {
                    if x & 1 == 0 {
                        shared().assumed.fetch_add(1, Relaxed);
                        self.finish(0);
                    }
                }
                Val::S(e) => {
                    if self.mode == Mode::Scout || expr::eval(e, &self.path.witness) == 1 {
                        if expr::eval(e, &self.path.witness) == 1 {
                            self.add(e);
                            return r;
                        }
                    }
                    match self.feasible(e) {
                        Some(w) => {
                            self.path.witness = w;
                            self.add(e);
                        }
                        None => {
                            shared().assumed.fetch_add(1, Relaxed);
                            self.finish(0);
                        }
                    }
                }
            },
            Ic::Assert => {
                let (p, n) = (c!(1), c!(2));
                match av[0] {
                    Val::C(x) => {
                        shared().asserts_const.fetch_add(1, Relaxed);
                        if x & 1 == 0 {
                            let m = self.text(p, n);
                            let w = self.path.witness.clone();
                            self.violation("assert", &m, &w);
                            self.finish(0);
                        }
                    }
                    Val::S(e) => {
                        if self.mode == Mode::Scout {
                            return r;
                        }
                        let ne = expr::not(e);
                        let cs = self.slice(ne);
                        let mut w = self.path.witness.clone();
                        shared().asserts_solver.fetch_add(1, Relaxed);
                        if let Some(f) = self.frames.last() {
                            shared().fn_sym[f.f.id as usize].store(1, Relaxed);
                        }
                        match self.z3(&cs, None, &mut w) {
                            Res::Sat => {
                                self.path.witness = w.clone();
                                let m = self.text(p, n);
                                self.violation("assert", &m, &w);
                                self.finish(0);
                            }
                            _ => {
                                self.path.known.insert(e, true);
                                self.path.known.insert(ne, false);
                            }
                        }
                    }
                }
            }
            Ic::AssertSame => {
                let (a, an, b, bn, p, n) = (c!(0), c!(1), c!(2), c!(3), c!(4), c!(5));
                if self.mode == Mode::Scout {
                    return r;
                }
                shared().asserts_solver.fetch_add(1, Relaxed);
                let pc = self.path.pc.clone();
                // the path itself must be feasible
                let mut w = self.path.witness.clone();
                if self.z3(&pc, None, &mut w) != Res::Sat {
                    fatal("infeasible path condition");
                }
                let mut w = self.path.witness.clone();
                if an == bn {
                    if an > 0 {
                        self.mem.chk(a, an);
                        self.mem.chk(b, bn);
                    }
                    let d: Vec<_> = (0..an).map(|i| (self.mem.byte(a + i), self.mem.byte(b + i))).collect();
                    if self.z3(&pc, Some(&d), &mut w) != Res::Sat {
                        return r;
                    }
                }
                self.path.witness = w.clone();
                let m = self.text(p, n);
                self.violation("assert", &m, &w);
                self.finish(0);
            }
            Ic::Cover => {
                if self.mode == Mode::Explore {
                    let (p, n) = (c!(0), c!(1));
                    let m = self.text(p, n);
                    use std::hash::{BuildHasher, Hasher};
                    let mut h = Fx.build_hasher();
                    h.write(m.as_bytes());
                    let h = h.finish() | 1;
                    let s = shared();
                    let mut i = (h >> 8) as usize % 4096;
                    loop {
                        match s.covers[i].compare_exchange(0, h, Relaxed, Relaxed) {
                            Ok(_) => {
                                append(&format!("{}/covers", self.out), &format!("{m}\n"));
                                break;
                            }
                            Err(x) if x == h => break,
                            _ => i = (i + 1) % 4096,
                        }
                    }
                }
            }
            Ic::Log => {
                let (p, n) = (c!(0), c!(1));
                let l: Vec<ExprId> = (0..n).map(|i| self.mem.byte(p + i)).collect();
                if std::env::var_os("VSYM_ECHO").is_some() && self.mode == Mode::Explore {
                    eprintln!("LOG {}", self.text(p, n));
                }
                self.path.logs.push(l);
            }
            Ic::Concretize => {
                let v = c!(0);
                r[0] = Val::C(v);
            }
            Ic::IsSymbolic => r[0] = Val::C(1),
            Ic::SetHash => {
                let (p, n, v) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    self.hashes.clear();
                    self.hash_acc = Some(vec![]);
                } else {
                    let k = self.text(p, n);
                    self.hashes.push((k.into_bytes(), v));
                }
            }
            Ic::SetToml => {
                let (d, dn, p, n) = (c!(0), c!(1), c!(2), c!(3));
                let dir = self.text(d, dn);
                let (dir, name) = match dir.rsplit_once('/') {
                    Some((d, n)) if n.ends_with(".toml") => (d, n),
                    _ => (&dir[..], "hooq.toml"),
                };
                self.toml_dir = Some(dir.into());
                let path = format!("/vsym/{dir}/{name}");
                self.dirs.remove(&path);
                if n == u64::MAX {
                    self.files.remove(&path);
                } else if n == u64::MAX - 1 {
                    // a directory
                    self.dirs.insert(path.clone());
                    self.files.insert(path, std::rc::Rc::new(vec![]));
                } else {
                    let t = (0..n).map(|i| self.mem.byte(p + i)).collect();
                    self.files.insert(path, std::rc::Rc::new(t));
                }
            }
            Ic::Strerror => {
                let (e, b, n) = (c!(0), c!(1), c!(2));
                let m = std::io::Error::from_raw_os_error(e as i32).to_string();
                let m = m.split(" (os error").next().unwrap();
                for (i, x) in m.bytes().take(n as usize - 1).chain([0]).enumerate() {
                    self.mem.store(b + i as u64, 8, Val::C(x as u64));
                }
            }
            Ic::Malloc => {
                let n = c!(0);
                r[0] = Val::C(self.mem.malloc(n, 16));
            }
            Ic::Calloc => {
                let n = c!(0) * c!(1);
                let p = self.mem.malloc(n, 16);
                self.mem.set(p, 0, n);
                r[0] = Val::C(p);
            }
            Ic::Realloc => {
                let (p, n) = (c!(0), c!(1));
                r[0] = Val::C(self.mem.realloc(p, n, 16));
            }
            Ic::Free => {
                let p = c!(0);
                self.mem.free(p);
            }
            Ic::PosixMemalign => {
                let (o, al, n) = (c!(0), c!(1), c!(2));
                let p = self.mem.malloc(n, al);
                self.mem.store(o, 64, Val::C(p));
            }
            Ic::RAlloc => {
                let (n, al) = (c!(0), c!(1));
                r[0] = Val::C(self.mem.malloc(n, al));
            }
            Ic::RAllocZ => {
                let (n, al) = (c!(0), c!(1));
                let p = self.mem.malloc(n, al);
                self.mem.set(p, 0, n);
                r[0] = Val::C(p);
            }
            Ic::RRealloc => {
                let (p, _o, al, n) = (c!(0), c!(1), c!(2), c!(3));
                r[0] = Val::C(self.mem.realloc(p, n, al));
            }
            Ic::RDealloc => {
                let p = c!(0);
                self.mem.free(p);
            }
            Ic::Memcmp => {
                let (a, b, n) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    return r;
                }
                self.mem.chk(a, n);
                self.mem.chk(b, n);
                if !self.mem.any_sym(a, n) && !self.mem.any_sym(b, n) {
                    let x = self.mem.bytes(a, n).cmp(self.mem.bytes(b, n));
                    r[0] = Val::C((x as i32 as u32) as u64);
                } else {
                    let mut e = expr::konst(32, 0);
                    for i in (0..n).rev() {
                        let (x, y) = (self.mem.byte(a + i), self.mem.byte(b + i));
                        let q = expr::eq(x, y);
                        let q = match self.known(q) {
                            Some(b) => expr::konst(1, b as u128),
                            None => q,
                        };
                        let s = expr::ite(expr::ult(x, y), expr::konst(32, u32::MAX as u128), expr::konst(32, 1));
                        e = expr::ite(q, e, s);
                    }
                    r[0] = Val::norm(e);
                }
            }
            Ic::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let v = self.mem.load(p + n, 8);
                    if self.conc(v) == 0 {
                        break;
                    }
                    n += 1;
                }
                r[0] = Val::C(n);
            }
            Ic::Getenv => {
                let p = c!(0);
                let n = self.cstr(p);
                if n == "CARGO_MANIFEST_DIR" {
                    if let Some(d) = self.toml_dir.clone() {
                        let v = format!("/vsym/{d}");
                        let a = match self.envbuf.get(&v) {
                            Some(a) => *a,
                            None => {
                                let a = self.mem.malloc(v.len() as u64 + 1, 16);
                                self.mem.write_bytes(a, v.as_bytes());
                                self.mem.write_bytes(a + v.len() as u64, &[0]);
                                self.envbuf.insert(v, a);
                                a
                            }
                        };
                        r[0] = Val::C(a);
                    }
                }
            }
            Ic::Open => {
                let p = c!(0);
                let n = self.cstr(p);
                if let Some(t) = self.files.get(&n) {
                    self.fds.push((if self.dirs.contains(&n) { usize::MAX } else { 0 }, t.clone()));
                    r[0] = Val::C(100 + self.fds.len() as u64 - 1);
                } else {
                    self.errno = 2;
                    r[0] = Val::C(u32::MAX as u64);
                }
            }
            Ic::Fstat | Ic::Stat => {
                let p = c!(0);
                let mut mode = 0o100644;
                let t = if ic == Ic::Fstat {
                    let f = self.fds.get((p as usize).wrapping_sub(100));
                    if f.is_some_and(|f| f.0 == usize::MAX) {
                        mode = 0o040755;
                    }
                    f.map(|f| f.1.len())
                } else {
                    let n = self.cstr(p);
                    if self.dirs.contains(&n) {
                        mode = 0o040755;
                    }
                    self.files.get(&n).map(|t| t.len())
                };
                let b = c!(1);
                if let Some(l) = t {
                    self.mem.set(b, 0, 144);
                    self.mem.store(b + 24, 32, Val::C(mode));
                    self.mem.store(b + 48, 64, Val::C(l as u64));
                } else {
                    self.errno = 2;
                    r[0] = Val::C(u32::MAX as u64);
                }
            }
            Ic::Statx => {
                self.errno = 38;
                r[0] = Val::C(u32::MAX as u64);
            }
            Ic::Lseek => {
                let (fd, off, wh) = (c!(0), c!(1), c!(2));
                let f = &mut self.fds[fd as usize - 100];
                let len = f.1.len();
                if f.0 == usize::MAX {
                    r[0] = Val::C(0);
                    return r;
                }
                match wh {
                    0 => f.0 = off as usize,
                    1 => f.0 += off as usize,
                    _ => f.0 = len + off as usize,
                }
                r[0] = Val::C(f.0 as u64);
            }
            Ic::Read => {
                let (fd, b, n) = (c!(0), c!(1), c!(2));
                let pos = self.fds[fd as usize - 100].0;
                if pos == usize::MAX {
                    self.errno = 21;
                    r[0] = Val::C(u64::MAX);
                    return r;
                }
                let t = self.fds[fd as usize - 100].1.clone();
                let k = (n as usize).min(t.len() - pos);
                for i in 0..k {
                    self.mem.put(b + i as u64, t[pos + i]);
                }
                self.fds[fd as usize - 100].0 += k;
                r[0] = Val::C(k as u64);
            }
            Ic::Close | Ic::Nop | Ic::Zero => {}
            Ic::Write => r[0] = av[2],
            Ic::Writev => {
                let (p, n) = (c!(1), c!(2));
                let mut t = 0;
                for i in 0..n {
                    let l = self.mem.load(p + 16 * i + 8, 64);
                    t += self.conc(l);
                }
                r[0] = Val::C(t);
            }
            Ic::Errno => {
                let a = *self.envbuf.entry("\0errno".into()).or_insert(0);
                let a = if a == 0 {
                    let a = self.mem.malloc(16, 16);
                    self.envbuf.insert("\0errno".into(), a);
                    a
                } else {
                    a
                };
                self.mem.store(a, 32, Val::C(self.errno));
                r[0] = Val::C(a);
            }
            Ic::Getcwd => {
                let (b, _n) = (c!(0), c!(1));
                self.mem.write_bytes(b, b"/vsym\0");
                r[0] = Val::C(b);
            }
            Ic::Realpath => {
                self.errno = 2;
            }
            Ic::Syscall => {
                let n = c!(0);
                if n == 202 {
                    fatal("futex wait: the program would block");
                }
                self.errno = 38;
                r[0] = Val::C(u64::MAX);
            }
            Ic::Sysconf => r[0] = Val::C(4096),
            Ic::KeyCreate => {
                let p = c!(0);
                self.errno += 0;
                let k = self.envbuf.len() as u64 + 1;
                self.mem.store(p, 32, Val::C(k));
            }
            Ic::RandKeys => {
                r[0] = Val::C(1);
                r[1] = Val::C(2);
            }
            Ic::HashWrite => {
                if !self.hashes.is_empty() {
                    let (p, n) = (c!(1), c!(2));
                    for i in 0..n {
                        let b = self.mem.load(p + i, 8);
                        match (b, &mut self.hash_acc) {
                            (Val::C(c), Some(a)) => a.push(c as u8),
                            _ => self.hash_acc = None,
                        }
                    }
                }
            }
            Ic::HashFinish => {
                let a = self.hash_acc.replace(vec![]);
                let h = a.and_then(|a| self.hashes.iter().find(|h| h.0 == a).map(|h| h.1));
                r[0] = Val::C(h.unwrap_or(0));
            }
            Ic::PanicFmt => {
                let (a, l) = (c!(0), c!(1));
                let ld = |s: &Ex, p: u64, w: u32| match s.mem.load(p, w) {
                    Val::C(c) => c,
                    Val::S(e) => expr::eval(e, &s.path.witness) as u64,
                };
                let (fp, fl, line) = (ld(self, l, 64), ld(self, l + 8, 64), ld(self, l + 16, 32));
                let file = if fl < 4096 && fp >= BASE { self.text(fp, fl) } else { "?".into() };
                let (pp, pn) = (ld(self, a, 64), ld(self, a + 8, 64));
                let mut msg = String::new();
                if pp >= BASE && pn > 0 && pn < 64 {
                    for i in 0..pn {
                        let (sp, sl) = (ld(self, pp + 16 * i, 64), ld(self, pp + 16 * i + 8, 64));
                        if sl < 4096 && sp >= BASE {
                            msg.push_str(&self.text(sp, sl));
                        }
                        if i + 1 < pn {
                            msg.push_str("{}");
                        }
                    }
                }
                let w = self.path.witness.clone();
                self.violation("panic", &format!("panic at {file}:{line}: {msg}"), &w);
                self.finish(0);
            }
            Ic::PanicNounwind => {
                let w = self.path.witness.clone();
                let n = demangle(&self.m.fns[id as usize].name);
                self.violation("panic", &format!("panic ({n})"), &w);
                self.finish(0);
            }
            Ic::Abort => fatal("the program called abort/exit"),
        }
        r
    }
}
impl Mem {
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        self.clear_sym(a, b.len() as u64);
        GlobalMem::write(self, a, b);
    }
}
fn icmp_sym(p: Pred, x: ExprId, y: ExprId) -> ExprId {
    match p {
        Pred::Eq => expr::eq(x, y),
        Pred::Ne => expr::not(expr::eq(x, y)),
        Pred::Ult => expr::ult(x, y),
        Pred::Ule => expr::ule(x, y),
        Pred::Ugt => expr::ult(y, x),
        Pred::Uge => expr::ule(y, x),
        Pred::Slt => expr::slt(x, y),
        Pred::Sle => expr::not(expr::slt(y, x)),
        Pred::Sgt => expr::slt(y, x),
        Pred::Sge => expr::not(expr::slt(x, y)),
    }
}
