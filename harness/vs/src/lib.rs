//! Harness API.  Under the symbolic engine the `vsym_*` functions are
//! intercepted by name; natively they replay recorded values (VSYM_REPLAY) or,
//! with VSYM_RANDOM=<seed>, draw pseudo-random ones (smoke runs while
//! developing a harness; no check relies on those).
use std::cell::RefCell;
use std::collections::VecDeque;

struct St {
    queue: VecDeque<Vec<u8>>,
    rng: Option<u64>,
    loaded: bool,
    quiet: bool,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { queue: VecDeque::new(), rng: None, loaded: false, quiet: false }) };
}

fn load(st: &mut St) {
    if st.loaded {
        return;
    }
    st.loaded = true;
    st.quiet = std::env::var_os("VSYM_QUIET").is_some();
    if let Ok(p) = std::env::var("VSYM_REPLAY") {
        let text = std::fs::read_to_string(&p).expect("replay file");
        for l in text.lines() {
            if let Some(rest) = l.strip_prefix("make ") {
                let hex = rest.split(' ').next().unwrap_or("");
                let b = (0..hex.len() / 2)
                    .map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap())
                    .collect();
                st.queue.push_back(b);
            }
        }
    } else if let Ok(s) = std::env::var("VSYM_RANDOM") {
        st.rng = Some(s.parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1);
    }
}
fn rnd(r: &mut u64) -> u64 {
    *r ^= *r << 13;
    *r ^= *r >> 7;
    *r ^= *r << 17;
    *r
}

/// # Safety
/// `p` points to `len` writable bytes; `lo..=hi` is a hint for random mode.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vsym_make(p: *mut u8, len: usize, lo: u64, hi: u64) {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        load(&mut st);
        let out = unsafe { std::slice::from_raw_parts_mut(p, len) };
        if let Some(r) = st.rng.as_mut() {
            let v = if hi >= lo && hi - lo < u64::MAX { lo + rnd(r) % (hi - lo + 1) } else { rnd(r) };
            for (i, b) in out.iter_mut().enumerate() {
                *b = if i < 8 { (v >> (8 * i)) as u8 } else { rnd(r) as u8 };
            }
        } else {
            let v = st.queue.pop_front().unwrap_or_default();
            for (i, b) in out.iter_mut().enumerate() {
                *b = v.get(i).copied().unwrap_or(0);
            }
        }
    })
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_assume(c: bool) {
    if !c {
        ST.with(|st| {
            if !st.borrow().quiet {
                println!("VSYM-ASSUME-FALSE");
            }
        });
        std::process::exit(3);
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_assert(c: bool, msg: *const u8, len: usize) {
    if !c {
        println!("VSYM-ASSERT-FAIL {}", s(msg, len));
        std::process::exit(1);
    }
}
/// The two byte strings must be equal on every input of this path.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_assert_same(a: *const u8, an: usize, b: *const u8, bn: usize, msg: *const u8, len: usize) {
    let (x, y) = unsafe { (std::slice::from_raw_parts(a, an), std::slice::from_raw_parts(b, bn)) };
    if x != y {
        println!("VSYM-ASSERT-FAIL {}", s(msg, len));
        if std::env::var_os("VSYM_QUIET").is_none() {
            println!("  got      {}\n  expected {}", s(a, an).replace('\0', " "), s(b, bn).replace('\0', " "));
        }
        std::process::exit(1);
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_cover(msg: *const u8, len: usize) {
    if std::env::var_os("VSYM_QUIET").is_none() {
        println!("VSYM-COVER {}", s(msg, len));
    }
}
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_log(msg: *const u8, len: usize) {
    if std::env::var_os("VSYM_QUIET").is_none() {
        println!("VSYM-LOG {}", s(msg, len));
    }
}
/// Forks the engine over every feasible value of `v`; identity natively.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_concretize(v: u64) -> u64 {
    v
}
/// 1 when running under the symbolic engine.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_is_symbolic() -> u32 {
    0
}
fn s<'a>(p: *const u8, len: usize) -> std::borrow::Cow<'a, str> {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, len) })
}
/// Sets the contents of `hooq.toml` (or, for `dir/name`, of `name`; len == usize::MAX: no such file) in
/// directory `dir` (virtual under the engine; a scratch directory natively) and
/// makes `dir` the value of CARGO_MANIFEST_DIR.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_set_toml(dir: *const u8, dlen: usize, p: *const u8, len: usize) {
    let base = std::env::temp_dir().join(format!("vsym-{}", std::process::id()));
    let dir = s(dir, dlen);
    let (dir, name) = match dir.rsplit_once('/') {
        Some((d, n)) if n.ends_with(".toml") => (d, n),
        _ => (&dir[..], "hooq.toml"),
    };
    let d = base.join(dir);
    std::fs::create_dir_all(&d).unwrap();
    let f = d.join(name);
    let _ = std::fs::remove_dir(&f);
    if len == usize::MAX {
        let _ = std::fs::remove_file(&f);
    } else if len == usize::MAX - 1 {
        let _ = std::fs::remove_file(&f);
        std::fs::create_dir(&f).unwrap();
    } else {
        std::fs::write(&f, unsafe { std::slice::from_raw_parts(p, len) }).unwrap();
    }
    unsafe { std::env::set_var("CARGO_MANIFEST_DIR", &d) };
}

/// Under the engine: hash maps made from now on put this key into this bucket
/// (len == 0: no more such keys).  Natively hash maps are seeded at random.
#[unsafe(no_mangle)]
#[inline(never)]
pub extern "C" fn vsym_set_hash(_key: *const u8, _len: usize, _v: u64) {}

// ---- safe wrappers -------------------------------------------------------
pub fn u8_in(lo: u8, hi: u8) -> u8 {
    let mut b = [0u8; 1];
    unsafe { vsym_make(b.as_mut_ptr(), 1, lo as u64, hi as u64) };
    assume((b[0] >= lo) & (b[0] <= hi));
    b[0]
}
pub fn u64_in(lo: u64, hi: u64) -> u64 {
    let mut b = [0u8; 8];
    unsafe { vsym_make(b.as_mut_ptr(), 8, lo, hi) };
    let v = u64::from_le_bytes(b);
    assume(v >= lo);
    assume(v <= hi);
    v
}
pub fn u32_in(lo: u32, hi: u32) -> u32 {
    let mut b = [0u8; 4];
    unsafe { vsym_make(b.as_mut_ptr(), 4, lo as u64, hi as u64) };
    let v = u32::from_le_bytes(b);
    assume(v >= lo);
    assume(v <= hi);
    v
}
pub fn usize_in(lo: usize, hi: usize) -> usize {
    u64_in(lo as u64, hi as u64) as usize
}
pub fn boolean() -> bool {
    let b = u8_in(0, 1);
    b == 1
}
/// A value 0..n, explored exhaustively (one engine path per value).
pub fn choice(n: u8) -> u8 {
    let b = u8_in(0, n - 1);
    vsym_concretize(b as u64) as u8
}
pub fn flag() -> bool {
    choice(2) == 1
}
pub fn concretize(v: usize) -> usize {
    vsym_concretize(v as u64) as usize
}
pub fn assume(c: bool) {
    vsym_assume(c)
}
pub fn check(c: bool, msg: &str) {
    vsym_assert(c, msg.as_ptr(), msg.len())
}
pub fn check_same(a: &[u8], b: &[u8], msg: &str) {
    vsym_assert_same(a.as_ptr(), a.len(), b.as_ptr(), b.len(), msg.as_ptr(), msg.len())
}
pub fn cover(msg: &str) {
    vsym_cover(msg.as_ptr(), msg.len())
}
pub fn log(msg: &str) {
    vsym_log(msg.as_ptr(), msg.len())
}
pub fn log_bytes(b: &[u8]) {
    vsym_log(b.as_ptr(), b.len())
}
pub fn is_symbolic() -> bool {
    vsym_is_symbolic() == 1
}
pub fn set_toml(dir: &str, content: Option<&str>) {
    match content {
        Some(c) => vsym_set_toml(dir.as_ptr(), dir.len(), c.as_ptr(), c.len()),
        None => vsym_set_toml(dir.as_ptr(), dir.len(), dir.as_ptr(), usize::MAX),
    }
}
/// Any bytes.
pub fn set_toml_bytes(dir: &str, content: &[u8]) {
    vsym_set_toml(dir.as_ptr(), dir.len(), content.as_ptr(), content.len())
}
/// A directory of that name.
pub fn set_toml_dir(dir: &str) {
    vsym_set_toml(dir.as_ptr(), dir.len(), dir.as_ptr(), usize::MAX - 1)
}
pub fn set_cargo_toml(dir: &str, content: &str) {
    set_toml(&format!("{dir}/Cargo.toml"), Some(content))
}

pub fn set_hash(key: &str, v: u64) {
    vsym_set_hash(key.as_ptr(), key.len(), v)
}
