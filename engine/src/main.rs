//! vsym: symbolic execution of a whole-program LLVM IR file.
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;
mod sys;

use exec::*;
use std::sync::atomic::Ordering::*;
use sys::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut jobs, mut deadline, mut samples, mut fuel) = (8i64, 600u64, 16u64, 2_000_000_000u64);
    let mut pos = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--jobs" => { jobs = args[i + 1].parse().unwrap(); i += 1 }
            "--deadline" => { deadline = args[i + 1].parse().unwrap(); i += 1 }
            "--samples" => { samples = args[i + 1].parse().unwrap(); i += 1 }
            "--fuel" => { fuel = args[i + 1].parse().unwrap(); i += 1 }
            a => pos.push(a.to_string()),
        }
        i += 1;
    }
    let [ll, entry, out] = &pos[..] else {
        eprintln!("usage: vsym MODULE.ll ENTRY OUTDIR [--jobs N] [--deadline S] [--samples K] [--fuel N]");
        std::process::exit(2);
    };
    std::fs::create_dir_all(out).unwrap();
    now_ns();
    shared().init(jobs);
    unsafe {
        setpgid(0, 0);
        prctl(36, 1, 0, 0, 0);
    }
    let text: &'static [u8] = {
        use std::os::fd::AsRawFd;
        let f = std::fs::File::open(ll).expect("module");
        let n = f.metadata().unwrap().len() as usize;
        let p = unsafe { mmap(std::ptr::null_mut(), n, 1, MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p as isize != -1);
        unsafe { std::slice::from_raw_parts(p as *const u8, n) }
    };
    let m = ir::Module::load(text);
    let mut e = Box::new(Ex::new(m, out.clone()));
    e.fuel = fuel;
    e.want_samples = samples;
    e.deadline = now_ns() + deadline * 1_000_000_000;
    e.init_solver();
    let Some(id) = e.fid(entry) else {
        eprintln!("no function {entry}");
        std::process::exit(2);
    };
    let t_load = now_ns();
    set_ex(e);
    let e = ex();
    // scout: one path, to learn which functions to compile before forking
    let pid = unsafe { fork() };
    if pid == 0 {
        e.mode = Mode::Scout;
        e.start(id);
    }
    unsafe { waitpid(pid, std::ptr::null_mut(), 0) };
    if shared().errors.load(SeqCst) > 0 {
        eprintln!("scout failed: {}", std::fs::read_to_string(format!("{out}/errors")).unwrap_or_default());
        std::process::exit(3);
    }
    for f in 0..e.m.fns.len() {
        if shared().fn_seen[f].swap(0, SeqCst) == 1 {
            e.compile(f as u32);
        }
        shared().fn_sym[f].store(0, SeqCst);
    }
    let s = shared();
    for c in [&s.insts, &s.queries, &s.q_sat, &s.q_unsat, &s.solver_ns, &s.sym_branches, &s.table_decided, &s.asserts_solver, &s.asserts_const, &s.assumed] {
        c.store(0, SeqCst);
    }
    let t0 = now_ns();
    s.started.store(1, SeqCst);
    let root = unsafe { fork() };
    if root == 0 {
        s.take_token();
        e.start(id);
    }
    let mut abnormal = 0u64;
    let mut killed = false;
    let mut timeout = false;
    loop {
        let mut st = 0i32;
        let r = unsafe { waitpid(-1, &mut st, 1) };
        if r > 0 {
            if st != 0 && !killed {
                abnormal += 1;
                if abnormal == 1 {
                    append(&format!("{out}/errors"), &format!("path process ended with status {st:#x}\n"));
                }
                s.stop.store(1, SeqCst);
            }
            continue;
        }
        if r < 0 {
            break;
        }
        if now_ns() > e.deadline && !timeout {
            timeout = true;
            s.stop.store(1, SeqCst);
        }
        if abnormal > 0 || (timeout && now_ns() > e.deadline + 5_000_000_000) {
            // a dead process keeps its run token: the others cannot all finish
            killed = true;
            kill_children();
        }
        unsafe { usleep(2000) };
    }
    let wall = (now_ns() - t0) as f64 / 1e9;
    let g = |a: &std::sync::atomic::AtomicU64| a.load(SeqCst);
    let mut fns: Vec<String> = vec![];
    let mut symfns: Vec<String> = vec![];
    for f in 0..e.m.fns.len() {
        if s.fn_seen[f].load(SeqCst) == 1 {
            fns.push(demangle(&e.m.fns[f].name));
        }
        if s.fn_sym[f].load(SeqCst) == 1 {
            symfns.push(demangle(&e.m.fns[f].name));
        }
    }
    let js = |v: &Vec<String>| {
        let mut v = v.clone();
        v.sort();
        v.dedup();
        format!("[{}]", v.iter().map(|s| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))).collect::<Vec<_>>().join(","))
    };
    let complete = abnormal == 0 && !timeout && !killed && g(&s.errors) == 0 && g(&s.started) == g(&s.done);
    let summary = format!(
        "{{\"entry\":\"{entry}\",\"complete\":{complete},\"timeout\":{timeout},\"abnormal\":{abnormal},\"paths\":{},\"done\":{},\"assume_cut\":{},\"forks\":{},\"insts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"asserts_solver\":{},\"asserts_const\":{},\"sym_branches\":{},\"table_decided\":{},\"max_vars\":{},\"max_constraints\":{},\"max_waiting\":{},\"violations\":{},\"errors\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"functions\":{},\"symbolic_functions\":{}}}\n",
        g(&s.started), g(&s.done), g(&s.assumed), g(&s.forks), g(&s.insts), g(&s.queries), g(&s.q_sat), g(&s.q_unsat),
        g(&s.solver_ns) as f64 / 1e9, g(&s.asserts_solver), g(&s.asserts_const), g(&s.sym_branches), g(&s.table_decided), g(&s.max_vars), g(&s.max_pc), g(&s.max_live),
        g(&s.violations), g(&s.errors), (t0 - 0) as f64 / 1e9, wall, js(&fns), js(&symfns)
    );
    let _ = t_load;
    std::fs::write(format!("{out}/summary.json"), &summary).unwrap();
    let code = if g(&s.violations) > 0 { 1 } else if complete { 0 } else { 3 };
    println!(
        "{entry}: {} paths={} insts={} queries={} solver={:.1}s asserts={}+{} violations={} wall={:.1}s",
        if code == 0 { "ok" } else if code == 1 { "VIOLATED" } else if timeout { "TIMEOUT" } else { "ERROR" },
        g(&s.done), g(&s.insts), g(&s.queries), g(&s.solver_ns) as f64 / 1e9, g(&s.asserts_solver), g(&s.asserts_const), g(&s.violations), wall
    );
    std::process::exit(code);
}
fn kill_children() {
    // every path process is in our process group; spare ourselves
    let me = std::process::id();
    if let Ok(rd) = std::fs::read_dir("/proc") {
        for d in rd.flatten() {
            if let Ok(pid) = d.file_name().to_string_lossy().parse::<i32>() {
                if pid as u32 != me && unsafe { getpgid(pid) } == me as i32 {
                    unsafe { kill(pid, 9) };
                }
            }
        }
    }
}
