//! Z3 (C API) back end: bit-vector satisfiability of sets of one-bit terms.
use crate::expr::{self, ExprId, Fx, N};
use crate::ir::Bin;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {}", m.to_string_lossy());
    std::process::abort();
}

pub struct Solver {
    c: P,
    s: P,
    sorts: HashMap<u32, P>,
    cache: HashMap<ExprId, (P, bool), Fx>,
    vars: HashMap<u32, P>,
    one: P,
    zero: P,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let c = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 2_000_000_000);
            Z3_solver_set_params(c, s, p);
            let mut r = Solver { c, s, sorts: HashMap::new(), cache: HashMap::default(), vars: HashMap::new(), one: s, zero: s };
            r.one = r.num(1, 1);
            r.zero = r.num(0, 1);
            r
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w) })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let so = self.sort(w);
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), so) }
    }
    /// (term, is_bool)
    fn term(&mut self, e: ExprId) -> (P, bool) {
        if let Some(&t) = self.cache.get(&e) {
            return t;
        }
        for x in expr::postorder(e) {
            if self.cache.contains_key(&x) {
                continue;
            }
            let n = expr::node(x);
            let c = self.c;
            let r = unsafe {
                match n.n {
                    N::Const(k) => (self.num(k, n.w), false),
                    N::Var(i) => {
                        let so = self.sort(8);
                        let nm = CString::new(format!("v{i}")).unwrap();
                        let t = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), so);
                        self.vars.insert(i, t);
                        (t, false)
                    }
                    N::Bin(o, a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        let f = match expr::opof(o) {
                            Bin::Add => Z3_mk_bvadd,
                            Bin::Sub => Z3_mk_bvsub,
                            Bin::Mul => Z3_mk_bvmul,
                            Bin::UDiv => Z3_mk_bvudiv,
                            Bin::SDiv => Z3_mk_bvsdiv,
                            Bin::URem => Z3_mk_bvurem,
                            Bin::SRem => Z3_mk_bvsrem,
                            Bin::Shl => Z3_mk_bvshl,
                            Bin::LShr => Z3_mk_bvlshr,
                            Bin::AShr => Z3_mk_bvashr,
                            Bin::And => Z3_mk_bvand,
                            Bin::Or => Z3_mk_bvor,
                            Bin::Xor => Z3_mk_bvxor,
                        };
                        (f(c, x, y), false)
                    }
                    N::Not(a) => {
                        let x = self.bv(a);
                        (Z3_mk_bvnot(c, x), false)
                    }
                    N::Eq(a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        (Z3_mk_eq(c, x, y), true)
                    }
                    N::Ult(a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        (Z3_mk_bvult(c, x, y), true)
                    }
                    N::Slt(a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        (Z3_mk_bvslt(c, x, y), true)
                    }
                    N::Ite(i, a, b) => {
                        let i = self.boolean(i);
                        let (x, y) = (self.bv(a), self.bv(b));
                        (Z3_mk_ite(c, i, x, y), false)
                    }
                    N::Extract(a, lo) => {
                        let x = self.bv(a);
                        (Z3_mk_extract(c, lo + n.w - 1, lo, x), false)
                    }
                    N::Concat(a, b) => {
                        let (x, y) = (self.bv(a), self.bv(b));
                        (Z3_mk_concat(c, x, y), false)
                    }
                    N::ZExt(a) => {
                        let x = self.bv(a);
                        (Z3_mk_zero_ext(c, n.w - expr::width(a), x), false)
                    }
                    N::SExt(a) => {
                        let x = self.bv(a);
                        (Z3_mk_sign_ext(c, n.w - expr::width(a), x), false)
                    }
                }
            };
            self.cache.insert(x, r);
        }
        self.cache[&e]
    }
    fn bv(&mut self, e: ExprId) -> P {
        let (t, b) = self.term(e);
        if b { unsafe { Z3_mk_ite(self.c, t, self.one, self.zero) } } else { t }
    }
    fn boolean(&mut self, e: ExprId) -> P {
        let (t, b) = self.term(e);
        if b { t } else { unsafe { Z3_mk_eq(self.c, t, self.one) } }
    }
    /// Satisfiability of the conjunction; on Sat, writes the values of the
    /// variables into `model`.
    pub fn check(&mut self, cs: &[ExprId], model: &mut Vec<u8>) -> Res {
        self.check_diff(cs, None, model)
    }
    /// The same, conjoined with "some pair differs".
    pub fn check_diff(&mut self, cs: &[ExprId], diff: Option<&[(ExprId, ExprId)]>, model: &mut Vec<u8>) -> Res {
        unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vs: Vec<u32> = Vec::new();
            if let Some(d) = diff {
                let mut or: Vec<P> = Vec::with_capacity(d.len());
                for &(a, b) in d {
                    let (x, y) = (self.bv(a), self.bv(b));
                    or.push(Z3_mk_not(self.c, Z3_mk_eq(self.c, x, y)));
                    vs.extend(expr::support(a).iter());
                    vs.extend(expr::support(b).iter());
                }
                let o = Z3_mk_or(self.c, or.len() as c_uint, or.as_ptr());
                Z3_solver_assert(self.c, self.s, o);
            }
            for &e in cs {
                let b = self.boolean(e);
                Z3_solver_assert(self.c, self.s, b);
                vs.extend(expr::support(e).iter());
            }
            let r = match Z3_solver_check(self.c, self.s) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if r == Res::Sat {
                vs.sort_unstable();
                vs.dedup();
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                for v in vs {
                    let t = self.vars[&v];
                    let mut out: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(self.c, m, t, true, &mut out) && Z3_get_numeral_uint64(self.c, out, &mut u) {
                        if model.len() <= v as usize {
                            model.resize(v as usize + 1, 0);
                        }
                        model[v as usize] = u as u8;
                    } else {
                        panic!("z3 model");
                    }
                }
                Z3_model_dec_ref(self.c, m);
            }
            Z3_solver_pop(self.c, self.s, 1);
            r
        }
    }
}
