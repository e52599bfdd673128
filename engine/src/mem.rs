//! Program memory: a host-mapped arena plus a sparse map of symbolic bytes.
use crate::exec::Val;
use crate::expr::{self, ExprId, Fx};
use crate::ir::{mask, GlobalMem};
use crate::sys::*;
use std::collections::HashMap;

pub const BASE: u64 = 0x10_0000_0000;
pub const GLOB: u64 = BASE;
pub const STACK: u64 = BASE + (256 << 20);
pub const STACK_END: u64 = BASE + (768 << 20);
pub const HEAP: u64 = STACK_END;
pub const END: u64 = BASE + (3072 << 20);

pub struct Mem {
    lines: *mut u8,
    pub sym: HashMap<u64, ExprId, Fx>,
    gtop: u64,
    htop: u64,
    free: Vec<Vec<u64>>,
}
#[cold]
pub fn bad_addr(a: u64, n: u64) -> ! {
    crate::exec::fatal(&format!("memory access outside the arena: {a:#x} ({n} bytes)"))
}
impl Mem {
    pub fn new() -> Mem {
        unsafe {
            let r = mmap(BASE as *mut _, (END - BASE) as usize, PROT_RW, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED, -1, 0);
            assert!(r as u64 == BASE);
            let l = mmap(std::ptr::null_mut(), ((END - BASE) / 64 + 64) as usize, PROT_RW, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
            assert!(l as isize != -1);
            Mem { lines: l as *mut u8, sym: HashMap::default(), gtop: GLOB + 4096, htop: HEAP + 4096, free: vec![Vec::new(); 64] }
        }
    }
    #[inline(always)]
    pub fn chk(&self, a: u64, n: u64) {
        if a < BASE || a.wrapping_add(n) > END {
            bad_addr(a, n)
        }
    }
    #[inline(always)]
    fn line(&self, a: u64) -> *mut u8 {
        unsafe { self.lines.add(((a - BASE) >> 6) as usize) }
    }
    #[inline(always)]
    pub fn any_sym(&self, a: u64, n: u64) -> bool {
        if n == 0 {
            return false;
        }
        unsafe {
            let f = self.line(a);
            let l = self.line(a + n - 1);
            let mut p = f;
            while p <= l {
                if *p != 0 {
                    return true;
                }
                p = p.add(1);
            }
        }
        false
    }
    pub fn set_sym(&mut self, a: u64, e: ExprId) {
        if self.sym.insert(a, e).is_none() {
            unsafe { *self.line(a) += 1 }
        }
    }
    pub fn clear_sym(&mut self, a: u64, n: u64) {
        if !self.any_sym(a, n) {
            return;
        }
        let mut x = a;
        while x < a + n {
            let l = unsafe { *self.line(x) };
            if l == 0 {
                x = (x | 63) + 1;
                continue;
            }
            if self.sym.remove(&x).is_some() {
                unsafe { *self.line(x) -= 1 }
            }
            x += 1;
        }
    }
    pub fn sym_at(&self, a: u64) -> Option<ExprId> {
        unsafe {
            if *self.line(a) == 0 {
                return None;
            }
        }
        self.sym.get(&a).copied()
    }
    pub fn byte(&self, a: u64) -> ExprId {
        match self.sym_at(a) {
            Some(e) => e,
            None => expr::konst(8, unsafe { *(a as *const u8) } as u128),
        }
    }
    #[inline(always)]
    pub fn load(&self, a: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as u64;
        self.chk(a, n);
        if w <= 64 && !self.any_sym(a, n) {
            return Val::C(self.raw(a, n) & mask(w));
        }
        self.load_slow(a, w, n)
    }
    #[inline(always)]
    pub fn raw(&self, a: u64, n: u64) -> u64 {
        unsafe {
            match n {
                8 => (a as *const u64).read_unaligned(),
                4 => (a as *const u32).read_unaligned() as u64,
                1 => *(a as *const u8) as u64,
                2 => (a as *const u16).read_unaligned() as u64,
                _ => {
                    let mut r = 0u64;
                    for i in 0..n {
                        r |= (*((a + i) as *const u8) as u64) << (8 * i);
                    }
                    r
                }
            }
        }
    }
    #[cold]
    #[inline(never)]
    fn load_slow(&self, a: u64, w: u32, n: u64) -> Val {
        let mut e = self.byte(a + n - 1);
        for i in (0..n - 1).rev() {
            e = expr::concat(e, self.byte(a + i));
        }
        let e = expr::extract(e, 0, w);
        Val::norm(e)
    }
    #[inline(always)]
    pub fn store(&mut self, a: u64, w: u32, v: Val) {
        let n = ((w + 7) / 8) as u64;
        self.chk(a, n);
        match v {
            Val::C(c) => {
                if self.any_sym(a, n) {
                    self.clear_sym(a, n);
                }
                unsafe {
                    match n {
                        8 => (a as *mut u64).write_unaligned(c),
                        4 => (a as *mut u32).write_unaligned(c as u32),
                        1 => *(a as *mut u8) = c as u8,
                        2 => (a as *mut u16).write_unaligned(c as u16),
                        _ => {
                            for i in 0..n {
                                *((a + i) as *mut u8) = (c >> (8 * i)) as u8;
                            }
                        }
                    }
                }
            }
            Val::S(e) => self.store_slow(a, n, e),
        }
    }
    #[cold]
    #[inline(never)]
    fn store_slow(&mut self, a: u64, n: u64, e: ExprId) {
        let e = expr::zext(e, n as u32 * 8);
        self.clear_sym(a, n);
        for i in 0..n {
            self.put(a + i, expr::extract(e, 8 * i as u32, 8));
        }
    }
    pub fn put(&mut self, a: u64, b: ExprId) {
        match expr::as_const(b) {
            Some(c) => {
                if self.sym_at(a).is_some() {
                    self.clear_sym(a, 1);
                }
                unsafe { *(a as *mut u8) = c as u8 }
            }
            None => self.set_sym(a, b),
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        if n == 0 || d == s {
            return;
        }
        self.chk(d, n);
        self.chk(s, n);
        let ss = self.any_sym(s, n);
        let mut mv = Vec::new();
        if ss {
            let mut x = s;
            while x < s + n {
                if unsafe { *self.line(x) } == 0 {
                    x = (x | 63) + 1;
                    continue;
                }
                if let Some(e) = self.sym.get(&x) {
                    mv.push((x - s, *e));
                }
                x += 1;
            }
        }
        unsafe { std::ptr::copy(s as *const u8, d as *mut u8, n as usize) };
        self.clear_sym(d, n);
        for (o, e) in mv {
            self.set_sym(d + o, e);
        }
    }
    pub fn set(&mut self, d: u64, v: u8, n: u64) {
        if n == 0 {
            return;
        }
        self.chk(d, n);
        self.clear_sym(d, n);
        unsafe { std::ptr::write_bytes(d as *mut u8, v, n as usize) };
    }
    fn class(n: u64) -> usize {
        // 1/2-power steps: 32,48,64,96,128,...
        let n = n.max(32);
        let k = 63 - n.leading_zeros() as u64;
        let p = 1u64 << k;
        if n == p {
            2 * k as usize - 10
        } else if n <= p + p / 2 {
            2 * k as usize - 9
        } else {
            2 * k as usize - 8
        }
    }
    fn csize(c: usize) -> u64 {
        let k = c / 2 + 5;
        let p = 1u64 << k;
        if c % 2 == 0 { p } else { p + p / 2 }
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        if n > (1 << 30) {
            crate::exec::fatal(&format!("allocation of {n} bytes is outside the bounds"));
        }
        let extra = if align > 16 { align } else { 0 };
        let c = Self::class(n + 16 + extra);
        let cs = Self::csize(c);
        let blk = match self.free[c].pop() {
            Some(b) => b,
            None => {
                let b = (self.htop + 15) & !15;
                self.htop = b + cs;
                if self.htop >= END {
                    crate::exec::fatal("heap exhausted");
                }
                b
            }
        };
        let mut p = blk + 16;
        if align > 16 {
            p = (p + align - 1) / align * align;
        }
        self.clear_sym(blk, cs);
        unsafe {
            *((p - 16) as *mut u64) = blk;
            *((p - 8) as *mut u64) = c as u64;
        }
        p
    }
    pub fn msize(&self, p: u64) -> u64 {
        unsafe { *((p - 16) as *mut u64) + Self::csize(*((p - 8) as *mut u64) as usize) - p }
    }
    pub fn free(&mut self, p: u64) {
        if p == 0 {
            return;
        }
        self.chk(p, 1);
        let (blk, c) = unsafe { (*((p - 16) as *mut u64), *((p - 8) as *mut u64) as usize) };
        if c >= 64 || blk < HEAP || blk > p {
            crate::exec::fatal("free of a pointer that was not allocated");
        }
        self.free[c].push(blk);
    }
    pub fn realloc(&mut self, p: u64, n: u64, align: u64) -> u64 {
        if p == 0 {
            return self.malloc(n, align);
        }
        let old = self.msize(p);
        if n <= old {
            return p;
        }
        let q = self.malloc(n, align);
        self.copy(q, p, old.min(n));
        self.free(p);
        q
    }
    pub fn bytes(&self, a: u64, n: u64) -> &[u8] {
        self.chk(a, n);
        unsafe { std::slice::from_raw_parts(a as *const u8, n as usize) }
    }
}
impl GlobalMem for Mem {
    fn alloc_global(&mut self, size: u64, align: u64) -> u64 {
        let a = (self.gtop + align - 1) / align * align;
        self.gtop = a + size;
        if self.gtop >= STACK {
            panic!("globals region full");
        }
        a
    }
    fn write(&mut self, addr: u64, b: &[u8]) {
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), addr as *mut u8, b.len()) }
    }
}
