//! libc calls, shared memory and the run-token pool.
use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    pub fn fork() -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn waitpid(p: c_int, s: *mut c_int, o: c_int) -> c_int;
    pub fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn syscall(n: c_long, ...) -> c_long;
    pub fn setpgid(a: c_int, b: c_int) -> c_int;
    pub fn kill(a: c_int, b: c_int) -> c_int;
    pub fn getpid() -> c_int;
    pub fn getpgid(p: c_int) -> c_int;
    pub fn usleep(n: u32) -> c_int;
}
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_FIXED: c_int = 0x10;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;

pub const MAXFN: usize = 1 << 16;
pub const MAXSLOT: usize = 1 << 21;
pub const MAXWAIT: usize = 1 << 17;

#[repr(C)]
pub struct Shared {
    lock: AtomicU32,
    free: AtomicI64,
    top: AtomicU64,
    nslots: AtomicU64,
    pub stop: AtomicU32,
    pub started: AtomicU64,
    pub done: AtomicU64,
    pub assumed: AtomicU64,
    pub dead: AtomicU64,
    pub forks: AtomicU64,
    pub insts: AtomicU64,
    pub queries: AtomicU64,
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub solver_ns: AtomicU64,
    pub asserts_solver: AtomicU64,
    pub asserts_const: AtomicU64,
    pub sym_branches: AtomicU64,
    pub table_decided: AtomicU64,
    pub max_vars: AtomicU64,
    pub max_pc: AtomicU64,
    pub max_live: AtomicU64,
    pub violations: AtomicU64,
    pub errors: AtomicU64,
    pub samples: AtomicU64,
    pub logs: AtomicU64,
    pub fn_seen: [AtomicU8; MAXFN],
    pub fn_sym: [AtomicU8; MAXFN],
    pub covers: [AtomicU64; 4096],
    wait: [AtomicU32; MAXWAIT],
    slots: [AtomicU32; MAXSLOT],
}
pub fn shared() -> &'static Shared {
    static mut P: *const Shared = std::ptr::null();
    unsafe {
        if P.is_null() {
            P = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0) as *const Shared;
            assert!(P as isize != -1);
        }
        &*P
    }
}
impl Shared {
    pub fn init(&self, tokens: i64) {
        self.free.store(tokens, SeqCst);
    }
    fn acquire(&self) {
        while self.lock.compare_exchange(0, 1, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
            std::thread::yield_now();
        }
    }
    fn release(&self) {
        self.lock.store(0, Release);
    }
    pub fn take_token(&self) {
        self.acquire();
        if self.free.load(Relaxed) > 0 {
            self.free.fetch_sub(1, Relaxed);
            self.release();
            return;
        }
        let slot = self.nslots.fetch_add(1, Relaxed) as usize % MAXSLOT;
        self.slots[slot].store(0, SeqCst);
        let t = self.top.fetch_add(1, Relaxed) as usize;
        assert!(t < MAXWAIT);
        self.max_live.fetch_max(t as u64 + 1, Relaxed);
        self.wait[t].store(slot as u32, Relaxed);
        self.release();
        while self.slots[slot].load(SeqCst) == 0 {
            unsafe { syscall(202, &self.slots[slot] as *const _, 0 as c_int, 0 as c_int, std::ptr::null::<u8>(), std::ptr::null::<u8>(), 0 as c_int) };
        }
    }
    pub fn give_token(&self) {
        self.acquire();
        let t = self.top.load(Relaxed);
        if t > 0 {
            self.top.store(t - 1, Relaxed);
            let slot = self.wait[t as usize - 1].load(Relaxed) as usize;
            self.release();
            self.slots[slot].store(1, SeqCst);
            unsafe { syscall(202, &self.slots[slot] as *const _, 1 as c_int, 1 as c_int, std::ptr::null::<u8>(), std::ptr::null::<u8>(), 0 as c_int) };
        } else {
            self.free.fetch_add(1, Relaxed);
            self.release();
        }
    }
}
pub fn now_ns() -> u64 {
    use std::time::Instant;
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_nanos() as u64
}
