//! Minimal binding to the Z3 C API (system libz3) and the expression translation.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, args: *const P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
}
extern "C" fn on_err(_c: P, e: c_int) { eprintln!("symex: z3 error {}", e); std::process::exit(3) }

pub struct Z3 {
    c: P,
    s: P,
    cache: FxMap<E, P>,
    pub queries: u64,
    pub secs: f64,
    pub timeouts: u64,
    pub max_s: f64,
    timeout_ms: u32,
}
pub enum Res { Sat(Vec<(u32, u8)>), Unsat, Unknown }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 { c, s: std::ptr::null_mut(), cache: Default::default(), queries: 0, secs: 0., timeouts: 0, max_s: 0., timeout_ms };
            z.mk_solver();
            z
        }
    }
    fn sym(&self, s: &str) -> P { let s = CString::new(s).unwrap(); unsafe { Z3_mk_string_symbol(self.c, s.as_ptr()) } }
    fn mk_solver(&mut self) {
        unsafe {
            if !self.s.is_null() { Z3_solver_dec_ref(self.c, self.s); }
            self.s = Z3_mk_solver_for_logic(self.c, self.sym("QF_BV"));
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("timeout"), self.timeout_ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    fn num(&self, k: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if k <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, k as u64, s) }
            else { let t = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
        }
    }
    fn var(&mut self, cx: &mut Ctx, v: u32) -> P { let e = cx.var(v); self.tr(cx, e) }
    fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(p) = self.cache.get(&e) { return *p; }
        let (op, w, a, b, d, k) = { let n = &cx.n[e as usize]; (n.op, n.w, n.a, n.b, n.c, n.k) };
        let c = self.c;
        let p = unsafe {
            match op {
                Op::Const => self.num(k, w),
                Op::Var => Z3_mk_const(c, self.sym(&format!("v{}", k)), Z3_mk_bv_sort(c, 8)),
                Op::Extract => { let x = self.tr(cx, a); Z3_mk_extract(c, b + w as u32 - 1, b, x) }
                Op::SExt => { let x = self.tr(cx, a); Z3_mk_sign_ext(c, (w - cx.w(a)) as c_uint, x) }
                Op::Ite => {
                    let i = self.tr(cx, a); let x = self.tr(cx, b); let y = self.tr(cx, d);
                    Z3_mk_ite(c, Z3_mk_eq(c, i, self.num(1, 1)), x, y)
                }
                _ => {
                    let x = self.tr(cx, a); let y = self.tr(cx, b);
                    let b1 = |t: P| Z3_mk_ite(c, t, self.num(1, 1), self.num(0, 1));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => if cx.as_const(b) == Some(mask(w)) { Z3_mk_bvnot(c, x) } else { Z3_mk_bvxor(c, x, y) },
                        Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Eq => b1(Z3_mk_eq(c, x, y)), Op::Ult => b1(Z3_mk_bvult(c, x, y)), Op::Slt => b1(Z3_mk_bvslt(c, x, y)),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.cache.insert(e, p);
        p
    }
    /// satisfiability of the conjunction of `cs` with the byte domains of `vars`
    pub fn check(&mut self, cx: &mut Ctx, cs: &[E], doms: &[(u32, [u64; 4])]) -> Res {
        self.queries += 1;
        let t0 = Instant::now();
        let c = self.c;
        unsafe {
            Z3_solver_reset(c, self.s);
            for &e in cs {
                let p = self.tr(cx, e);
                let t = Z3_mk_eq(c, p, self.num(1, 1));
                Z3_solver_assert(c, self.s, t);
            }
            for (v, d) in doms {
                if *d == [!0u64; 4] { continue; }
                let x = self.var(cx, *v);
                let mut ors: Vec<P> = vec![];
                let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                let mut i = 0usize;
                while i < 256 {
                    if !has(i) { i += 1; continue; }
                    let s = i;
                    while i < 256 && has(i) { i += 1; }
                    if s == i - 1 { ors.push(Z3_mk_eq(c, x, self.num(s as u128, 8))); }
                    else {
                        let a = [Z3_mk_bvule(c, self.num(s as u128, 8), x), Z3_mk_bvule(c, x, self.num(i as u128 - 1, 8))];
                        ors.push(Z3_mk_and(c, 2, a.as_ptr()));
                    }
                }
                let o = Z3_mk_or(c, ors.len() as c_uint, ors.as_ptr());
                Z3_solver_assert(c, self.s, o);
            }
            let r = Z3_solver_check(c, self.s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(c, self.s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for (v, _) in doms {
                    let x = self.var(cx, *v);
                    let mut o: P = std::ptr::null_mut();
                    let mut u = 0u64;
                    if Z3_model_eval(c, m, x, true, &mut o) && Z3_get_numeral_uint64(c, o, &mut u) { out.push((*v, u as u8)); }
                    else { eprintln!("symex: model evaluation failed"); std::process::exit(3) }
                }
                Z3_model_dec_ref(c, m);
                Res::Sat(out)
            } else if r == -1 { Res::Unsat } else { self.timeouts += 1; self.mk_solver(); Res::Unknown };
            let dt = t0.elapsed().as_secs_f64();
            self.secs += dt;
            if dt > self.max_s { self.max_s = dt; }
            res
        }
    }
}
