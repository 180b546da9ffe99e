//! Z3 (C API) back end: satisfiability of a conjunction of width-1 expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_interrupt(c: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

pub enum Sat {
    Sat(Vec<(u32, u128)>), // variable assignments for variables of the query
    Unsat,
    Unknown(String),
}

pub struct Solver {
    ctx: P,
    bv: FxMap<Ex, P>,
    bo: FxMap<Ex, P>,
    logic: P,
    params: P,
    timeout_key: P,
    pub timeout_ms: u32,
    cache: FxMap<Vec<Ex>, Rc<Cached>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub slow_log: f64,
    pub external: bool,
    pub ext_queries: u64,
    pub deadline: Option<Instant>,
    abs: FxMap<Ex, Ex>,
    terms: Vec<Term>,
    term_of: FxMap<u32, usize>,
    pub abs_unsat: u64,
}
#[derive(Clone, Copy)]
struct Term {
    op: Op,
    x: Ex,
    y: Ex,
    v: Ex,
}
enum Cached {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown(String),
}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, l.as_ptr());
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let t = CString::new("timeout").unwrap();
            let timeout_key = Z3_mk_string_symbol(ctx, t.as_ptr());
            Z3_params_set_uint(ctx, params, timeout_key, timeout_ms);
            Solver {
                ctx,
                bv: Default::default(),
                bo: Default::default(),
                logic,
                params,
                timeout_key,
                timeout_ms,
                cache: Default::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                cache_hits: 0,
                time: 0.0,
                max_time: 0.0,
                slow_log: std::env::var("SYMEX_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(f64::MAX),
                external: true,
                ext_queries: 0,
                deadline: None,
                abs: Default::default(),
                terms: vec![],
                term_of: Default::default(),
                abs_unsat: 0,
            }
        }
    }
    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w as c_uint))
        }
    }
    fn to_bool(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&x) = self.bo.get(&e) {
            return x;
        }
        let n = p.n(e);
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if p.cv(e) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And => {
                    let v = [self.to_bool(p, n.a), self.to_bool(p, n.b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Op::Or => {
                    let v = [self.to_bool(p, n.a), self.to_bool(p, n.b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Op::Xor => {
                    if p.cv(n.b) == Some(1) {
                        let x = self.to_bool(p, n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b));
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Eq => {
                    if p.w(n.a) == 1 {
                        let (x, y) = (self.to_bool(p, n.a), self.to_bool(p, n.b));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                        Z3_mk_eq(c, x, y)
                    }
                }
                Op::Ult => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    Z3_mk_bvslt(c, x, y)
                }
                Op::Ite => {
                    let (x, y, z) = (self.to_bool(p, n.a), self.to_bool(p, n.b), self.to_bool(p, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.to_bv(p, e);
                    Z3_mk_eq(c, x, self.num(1, 1))
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    fn to_bv(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&x) = self.bv.get(&e) {
            return x;
        }
        let n = p.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(p.consts[n.a as usize], n.w),
                Op::Var => {
                    let s = CString::new(p.vars[n.a as usize].0.clone()).unwrap();
                    let sy = Z3_mk_string_symbol(c, s.as_ptr());
                    Z3_mk_const(c, sy, Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.to_bool(p, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::And | Op::Or | Op::Xor | Op::Ite if n.w == 1 => {
                    let b = self.to_bool(p, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::Extract => {
                    let x = self.to_bv(p, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                }
                Op::ZExt => {
                    let d = n.w - p.w(n.a);
                    let x = self.to_bv(p, n.a);
                    Z3_mk_zero_ext(c, d as c_uint, x)
                }
                Op::SExt => {
                    let d = n.w - p.w(n.a);
                    let x = self.to_bv(p, n.a);
                    Z3_mk_sign_ext(c, d as c_uint, x)
                }
                Op::Ite => {
                    let b = self.to_bool(p, n.a);
                    let (x, y) = (self.to_bv(p, n.b), self.to_bv(p, n.c));
                    Z3_mk_ite(c, b, x, y)
                }
                _ => {
                    let (x, y) = (self.to_bv(p, n.a), self.to_bv(p, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Decide the conjunction. `cs` need not be sorted.
    pub fn check(&mut self, p: &mut Pool, cs: &[Ex]) -> Sat {
        let mut key: Vec<Ex> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match &**r {
                Cached::Sat(m) => Sat::Sat(m.clone()),
                Cached::Unsat => Sat::Unsat,
                Cached::Unknown(s) => Sat::Unknown(s.clone()),
            };
        }
        let t0 = Instant::now();
        let left = match self.deadline {
            Some(d) => d.saturating_duration_since(t0).as_millis().min(1 << 30) as u32,
            None => 1 << 30,
        };
        let res = if left < 50 { Sat::Unknown("time limit".into()) } else { self.check_big(p, &key, self.timeout_ms.min(left)) };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if dt > self.slow_log {
            eprintln!("slow query {:.2}s ({} constraints) {}", dt, key.len(), match &res { Sat::Sat(_) => "sat", Sat::Unsat => "unsat", _ => "unknown" });
            for &k in key.iter().rev().take(3) {
                eprintln!("   {}", p.show(k, std::env::var("SYMEX_DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(6)).chars().take(6000).collect::<String>());
            }
        }
        let c = match &res {
            Sat::Sat(m) => {
                self.sat += 1;
                Cached::Sat(m.clone())
            }
            Sat::Unsat => {
                self.unsat += 1;
                Cached::Unsat
            }
            Sat::Unknown(s) => Cached::Unknown(s.clone()),
        };
        self.cache.insert(key, Rc::new(c));
        res
    }
    /// `e` with division, remainder and wide products replaced by fresh variables
    fn abstr(&mut self, p: &mut Pool, e: Ex) -> Ex {
        if let Some(&r) = self.abs.get(&e) {
            return r;
        }
        let n = p.n(e);
        let r = match n.op {
            Op::Const | Op::Var => e,
            Op::Extract => {
                let a = self.abstr(p, n.a);
                if a == n.a { e } else { p.extract(a, n.b, n.w) }
            }
            Op::ZExt => {
                let a = self.abstr(p, n.a);
                if a == n.a { e } else { p.zext(a, n.w) }
            }
            Op::SExt => {
                let a = self.abstr(p, n.a);
                if a == n.a { e } else { p.sext(a, n.w) }
            }
            Op::Ite => {
                let (a, b, c) = (self.abstr(p, n.a), self.abstr(p, n.b), self.abstr(p, n.c));
                if (a, b, c) == (n.a, n.b, n.c) { e } else { p.ite(a, b, c) }
            }
            _ => {
                let (a, b) = (self.abstr(p, n.a), self.abstr(p, n.b));
                match n.op {
                    Op::UDiv | Op::URem => self.term(p, n.op, a, b),
                    Op::Mul if n.w >= 16 && p.cv(a).is_none() && p.cv(b).is_none() => {
                        let (a, b) = if a <= b { (a, b) } else { (b, a) };
                        self.term(p, n.op, a, b)
                    }
                    Op::SDiv | Op::SRem => {
                        let z = p.c(0, n.w);
                        let (sa, sb) = (p.slt(a, z), p.slt(b, z));
                        let (ma, mb) = (p.neg(a), p.neg(b));
                        let (xa, xb) = (p.ite(sa, ma, a), p.ite(sb, mb, b));
                        let (op, s) = if n.op == Op::SDiv { (Op::UDiv, p.xor(sa, sb)) } else { (Op::URem, sa) };
                        let t = self.term(p, op, xa, xb);
                        let m = p.neg(t);
                        p.ite(s, m, t)
                    }
                    _ if (a, b) == (n.a, n.b) => e,
                    Op::Concat => p.concat(a, b),
                    Op::Eq => p.eq(a, b),
                    Op::Ult => p.ult(a, b),
                    Op::Slt => p.slt(a, b),
                    _ => p.bin(n.op, a, b),
                }
            }
        };
        self.abs.insert(e, r);
        r
    }
    fn term(&mut self, p: &mut Pool, op: Op, x: Ex, y: Ex) -> Ex {
        if let Some(t) = self.terms.iter().find(|t| t.op == op && t.x == x && t.y == y) {
            return t.v;
        }
        let w = p.w(x);
        let (nx, ny) = (p.n(x), p.n(y));
        if op == Op::URem && nx.op == Op::ZExt && ny.op == Op::ZExt {
            let iw = p.w(nx.a).max(p.w(ny.a));
            let (a, b) = (p.extract(x, 0, iw), p.extract(y, 0, iw));
            let t = self.term(p, op, a, b);
            return p.zext(t, w);
        }
        let v = p.var(0x8000_0000 + self.terms.len() as u32, w);
        self.term_of.insert(p.n(v).a, self.terms.len());
        self.terms.push(Term { op, x, y, v });
        v
    }
    fn axioms(&mut self, p: &mut Pool, ts: &[usize]) -> Vec<Ex> {
        let mut out = vec![];
        for &i in ts {
            let t = self.terms[i];
            let w = p.w(t.x);
            let (z, one, ones) = (p.c(0, w), p.c(1, w), p.c(mask(w), w));
            let (y0, y1) = (p.eq(t.y, z), p.eq(t.y, one));
            let mut imp = |p: &mut Pool, a: Ex, b: Ex| {
                let na = p.not(a);
                let r = p.or(na, b);
                out.push(r);
            };
            match t.op {
                Op::UDiv => {
                    let a = p.eq(t.v, ones);
                    imp(p, y0, a);
                    let a = p.eq(t.v, t.x);
                    imp(p, y1, a);
                    let (c, a) = (p.not(y0), p.ule(t.v, t.x));
                    imp(p, c, a);
                    let (c, a) = (p.ult(t.x, t.y), p.eq(t.v, z));
                    imp(p, c, a);
                }
                Op::URem => {
                    let a = p.eq(t.v, t.x);
                    imp(p, y0, a);
                    let (c, b) = (p.not(y0), p.ult(t.v, t.y));
                    imp(p, c, b);
                    let b = p.ule(t.v, t.x);
                    let tt = p.t();
                    imp(p, tt, b);
                    let c = p.ult(t.x, t.y);
                    imp(p, c, a);
                }
                _ => {
                    let x0 = p.eq(t.x, z);
                    let a = p.eq(t.v, z);
                    imp(p, y0, a);
                    imp(p, x0, a);
                    let a = p.eq(t.v, t.x);
                    imp(p, y1, a);
                    let (c, a) = (p.eq(t.x, one), p.eq(t.v, t.y));
                    imp(p, c, a);
                }
            }
        }
        for (k, &i) in ts.iter().enumerate() {
            for &j in &ts[k + 1..] {
                let (s, t) = (self.terms[i], self.terms[j]);
                if s.op != t.op {
                    continue;
                }
                let (ws, wt) = (p.w(s.x), p.w(t.x));
                if ws != wt && s.op == Op::Mul {
                    continue;
                }
                let w = ws.max(wt);
                let mut z = |p: &mut Pool, e: Ex| p.zext(e, w);
                let (sx, sy, sv, tx, ty, tv) = (z(p, s.x), z(p, s.y), z(p, s.v), z(p, t.x), z(p, t.y), z(p, t.v));
                let (ex, ey, ev) = (p.eq(sx, tx), p.eq(sy, ty), p.eq(sv, tv));
                let mut c = p.and(ex, ey);
                if s.op == Op::Mul {
                    let (e1, e2) = (p.eq(sx, ty), p.eq(sy, tx));
                    let c2 = p.and(e1, e2);
                    c = p.or(c, c2);
                } else if ws != wt {
                    let zz = p.c(0, w);
                    let nz = p.ne(sy, zz);
                    c = p.and(c, nz);
                }
                let nc = p.not(c);
                let r = p.or(nc, ev);
                out.push(r);
            }
        }
        out
    }
    /// Queries with very large terms (hash circuits): a model of the small constraints, extended at random, is often one
    /// of the large ones as well. Everything else goes to the solver.
    fn check_big(&mut self, p: &mut Pool, key: &[Ex], timeout: u32) -> Sat {
        let (big, small): (Vec<Ex>, Vec<Ex>) = key.iter().partition(|&&e| p.size[e as usize] > 3000);
        if big.is_empty() {
            return self.check_abs(p, key, timeout);
        }
        let mut model = vec![0u128; p.vars.len()];
        let mut fixed: Vec<u32> = vec![];
        if !small.is_empty() {
            match self.check_abs(p, &small, timeout) {
                Sat::Unsat => return Sat::Unsat,
                Sat::Unknown(_) => return self.check_abs(p, key, timeout),
                Sat::Sat(m) => {
                    for (v, x) in m {
                        model[v as usize] = x;
                        fixed.push(v);
                    }
                }
            }
        }
        let mut free: Vec<u32> = vec![];
        for &e in &big {
            free.extend(p.varset(e).iter().filter(|v| !fixed.contains(v)));
        }
        free.sort_unstable();
        free.dedup();
        let mut seed = 0x9e37_79b9_7f4a_7c15u128;
        for round in 0..8 {
            for &v in &free {
                seed = seed.wrapping_mul(0x2360_ed05_1fc6_5da4_4385_df64_9fcc_f645).wrapping_add(0x5851_f42d_4c95_7f2d);
                let w = p.vars[v as usize].1;
                model[v as usize] = match round {
                    0 => 0,
                    1 => mask(w),
                    _ => (seed >> 64 | seed << 64) & mask(w),
                };
            }
            p.ev_reset();
            if key.iter().all(|&e| p.eval(e, &model) == 1) {
                fixed.extend(&free);
                return Sat::Sat(fixed.iter().map(|&v| (v, model[v as usize])).collect());
            }
            if free.is_empty() {
                break;
            }
        }
        self.check_abs(p, key, timeout)
    }
    fn check_abs(&mut self, p: &mut Pool, key: &[Ex], timeout: u32) -> Sat {
        let mut q: Vec<Ex> = key.iter().map(|&e| self.abstr(p, e)).collect();
        if q == key {
            return unsafe { self.check_z3(p, key, timeout, true) };
        }
        let mut ts: Vec<usize> = vec![];
        let mut todo: Vec<Ex> = q.clone();
        while let Some(e) = todo.pop() {
            for v in p.varset(e).iter() {
                if let Some(&i) = self.term_of.get(v) {
                    if !ts.contains(&i) {
                        ts.push(i);
                        todo.push(self.terms[i].x);
                        todo.push(self.terms[i].y);
                    }
                }
            }
        }
        ts.sort_unstable();
        if std::env::var("SX_TERMS").is_ok() {
            for &i in &ts {
                let t = self.terms[i];
                eprintln!("TERM {i} {:?} w{}\n   {}\n   {}", t.op, p.w(t.x), p.show(t.x, 9), p.show(t.y, 9));
            }
            for &e in &q {
                eprintln!("   Q {}", p.show(e, 14));
            }
        }
        if ts.len() <= 40 {
            let ax = self.axioms(p, &ts);
            q.extend(ax);
            for _ in 0..6 {
                match unsafe { self.check_z3(p, &q, timeout / 3, false) } {
                    Sat::Unsat => {
                        self.abs_unsat += 1;
                        return Sat::Unsat;
                    }
                    Sat::Unknown(_) => break,
                    Sat::Sat(m) => {
                        let mut model = vec![0u128; p.vars.len()];
                        for &(v, x) in &m {
                            model[v as usize] = x;
                        }
                        p.ev_reset();
                        if key.iter().all(|&e| p.eval(e, &model) == 1) {
                            return Sat::Sat(m.into_iter().filter(|(v, _)| !self.term_of.contains_key(v)).collect());
                        }
                        let n0 = q.len();
                        for &i in &ts {
                            let t = self.terms[i];
                            let w = p.w(t.x);
                            p.ev_reset();
                            let (xv, yv, vv) = (p.eval(t.x, &model), p.eval(t.y, &model), p.eval(t.v, &model));
                            let real = Pool::fold(t.op, w, xv, yv, w) & mask(w);
                            if real != vv {
                                let (xc, yc, vc) = (p.c(xv, w), p.c(yv, w), p.c(real, w));
                                let (a, b, r) = (p.eq(t.x, xc), p.eq(t.y, yc), p.eq(t.v, vc));
                                let c = p.and(a, b);
                                let nc = p.not(c);
                                let l = p.or(nc, r);
                                q.push(l);
                            }
                        }
                        if q.len() == n0 {
                            break;
                        }
                    }
                }
            }
        }
        unsafe { self.check_z3(p, key, timeout, true) }
    }
    unsafe fn check_z3(&mut self, p: &mut Pool, key: &[Ex], timeout: u32, ext: bool) -> Sat {
        let c = self.ctx;
        let s = Z3_mk_solver_for_logic(c, self.logic);
        Z3_solver_inc_ref(c, s);
        Z3_params_set_uint(c, self.params, self.timeout_key, timeout);
        Z3_solver_set_params(c, s, self.params);
        let mut vars: Vec<u32> = vec![];
        for &k in key {
            let b = self.to_bool(p, k);
            Z3_solver_assert(c, s, b);
            vars.extend(p.varset(k).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        // z3 does not look at its own timeout everywhere
        let done = std::sync::Arc::new((std::sync::Mutex::new(false), std::sync::Condvar::new()));
        let big = key.iter().any(|&e| p.size[e as usize] > 3000);
        let dog = if big {
            let (d, cc) = (done.clone(), c as usize);
            Some(std::thread::spawn(move || {
                let mut g = d.0.lock().unwrap();
                let mut wait = timeout as u64 + 1000;
                while !*g {
                    let (h, t) = d.1.wait_timeout(g, std::time::Duration::from_millis(wait)).unwrap();
                    g = h;
                    if t.timed_out() && !*g {
                        Z3_interrupt(cc as P);
                        wait = 500;
                    }
                }
            }))
        } else {
            None
        };
        let r = Z3_solver_check(c, s);
        if let Some(h) = dog {
            *done.0.lock().unwrap() = true;
            done.1.notify_all();
            let _ = h.join();
        }
        let out = if r == 1 {
            let m = Z3_solver_get_model(c, s);
            Z3_model_inc_ref(c, m);
            let mut asg = Vec::with_capacity(vars.len());
            for v in vars {
                let (name, w) = p.vars[v as usize].clone();
                let sn = CString::new(name).unwrap();
                let sy = Z3_mk_string_symbol(c, sn.as_ptr());
                let t = Z3_mk_const(c, sy, Z3_mk_bv_sort(c, w as c_uint));
                let mut o: P = std::ptr::null_mut();
                let ok = Z3_model_eval(c, m, t, true, &mut o);
                let mut val = 0u128;
                if ok {
                    let st = CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap();
                    val = st.parse::<u128>().unwrap_or(0);
                }
                asg.push((v, val));
            }
            Z3_model_dec_ref(c, m);
            Sat::Sat(asg)
        } else if r == -1 {
            Sat::Unsat
        } else {
            let why = CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().to_string();
            // second opinion: cvc5 on the same SMT-LIB text, unsat answers only
            let mut out = Sat::Unknown(why);
            if self.external && ext {
                self.ext_queries += 1;
                let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                let left = match self.deadline {
                    Some(d) => d.saturating_duration_since(Instant::now()).as_millis().min(1 << 30) as u64,
                    None => 1 << 30,
                };
                if let Some(true) = external_unsat(&txt, (self.timeout_ms as u64).min(left / 2).max(100)) {
                    out = Sat::Unsat;
                }
            }
            out
        };
        Z3_solver_dec_ref(c, s);
        let _ = Z3_mk_solver as usize;
        out
    }
    pub fn dump(&mut self, p: &mut Pool, cs: &[Ex]) -> String {
        unsafe {
            let c = self.ctx;
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            for &k in cs {
                let b = self.to_bool(p, k);
                Z3_solver_assert(c, s, b);
            }
            let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
            Z3_solver_dec_ref(c, s);
            t
        }
    }
}

fn external_unsat(txt: &str, ms: u64) -> Option<bool> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let body = format!("(set-logic QF_BV)\n{}\n(check-sat)\n", txt);
    let tl = format!("--tlimit={ms}");
    for args in [
        vec!["cvc5", tl.as_str(), "--solve-bv-as-int=sum", "--lang=smt2", "-"],
        vec!["cvc5", tl.as_str(), "--lang=smt2", "-"],
    ] {
        let Ok(mut ch) = Command::new(args[0]).args(&args[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
        let body2 = if args.iter().any(|a| a.contains("bv-as-int")) { body.replace("(set-logic QF_BV)", "(set-logic ALL)") } else { body.clone() };
        if let Some(mut i) = ch.stdin.take() {
            let _ = i.write_all(body2.as_bytes());
        }
        let Ok(o) = ch.wait_with_output() else { continue };
        let s = String::from_utf8_lossy(&o.stdout).to_string();
        if s.contains("(error") {
            continue;
        }
        match s.trim() {
            "unsat" => return Some(true),
            "sat" => return Some(false),
            _ => {}
        }
    }
    None
}
