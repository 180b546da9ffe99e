//! Symbolic interpreter: explores every path of a harness entry point.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Sat, Solver};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    E(Ex),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub blk: u32,
    pub ip: usize,
    pub prev: u32,
    pub regs: Vec<V>,
    pub ret_dst: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
    pub stack_mark: u64,
}

#[derive(Clone)]
pub enum Input {
    Val(Ex, u8),
    Bytes(Vec<Ex>),
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub known: FxMap<Ex, bool>,
    pub eqs: FxMap<Ex, u128>,
    pub model: Rc<Vec<u128>>,
    pub inputs: Vec<Input>,
    pub nvars: u32,
    pub covers: Vec<u32>,
    pub obs: Vec<(V, u8)>,
    pub steps: u64,
    pub alloc_limit: u64,
    pub ufs: Rc<Vec<(u32, Vec<Ex>, Vec<Ex>)>>,
    pub tag: u64,
    pub last_dec: Option<(Ex, bool)>,
}

pub enum Ctl {
    Fork(Ex, Vec<(u32, u128)>), // condition, model delta for the negation of the current model's side
    End(End),
}
pub enum End {
    Done,
    Violation { kind: String, id: i64, at: String },
    Infeasible,
    Incomplete(String),
    Error(String),
}
type R<T> = Result<T, Ctl>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: i64,
    pub at: String,
    pub stack: Vec<String>,
    pub inputs: Vec<String>,
    pub covers: Vec<u32>,
}
#[derive(Clone, Debug)]
pub struct Witness {
    pub inputs: Vec<String>,
    pub covers: Vec<u32>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub merges: u64,
    pub steps: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub violations: Vec<Violation>,
    pub witnesses: Vec<Witness>,
    pub incomplete: Vec<String>,
    pub errors: Vec<String>,
    pub covers: BTreeMap<u32, u64>,
    pub funcs: std::collections::BTreeSet<String>,
    pub wall: f64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum B {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Abort,
    Zero,
    One,
    Errno,
    Syscall,
    GetRandom,
    ClockGettime,
    Panic,
    PanicNoLoc,
    AllocErr,
    Format,
    SxVal(u8),
    SxBytes,
    SxAssume,
    SxCheck,
    SxCover,
    SxObs,
    SxConc,
    SxAllocLimit,
    SxUf,
    SxSelect,
    SxFail,
    SxPrint,
    SxIsSym,
    SxTier,
    NopRet0,
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    builtins: FxMap<u32, B>,
    globals: FxMap<u32, Rc<Obj>>,
    gaddrs: Vec<(u64, u64, u32)>,
    pub rep: Report,
    /// where to leave what is known so far
    pub partial: Option<(String, String, fn(&Exec, &str) -> String)>,
    pub max_paths: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub max_witness: usize,
    pub trace: bool,
    pub prof: Option<FxMap<(u32, u32), u64>>,
    work: Vec<State>,
    seen_fn: FxSet<u32>,
    pub concrete: Option<Vec<String>>, // concrete replay inside the interpreter
    errno: u64,
    pub stop_first: bool,
    pub tier: u32,
    pub merge: bool,
    /// ask the solver whether a choice is decided on the path before it becomes part of a value
    pub eager: bool,
    joins: FxMap<(u32, u32), Option<u32>>,
}

fn c64(v: &V) -> Option<u64> {
    match v {
        V::C(x) => Some(*x),
        _ => None,
    }
}

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Self {
        let mut b: FxMap<u32, B> = Default::default();
        for (i, f) in m.fns.iter().enumerate() {
            let n = f.name.as_str();
            let k = match n {
                "malloc" => B::Malloc,
                "calloc" => B::Calloc,
                "realloc" => B::Realloc,
                "free" => B::Free,
                "posix_memalign" => B::PosixMemalign,
                "memcpy" | "memmove" => B::Memcpy,
                "memset" => B::Memset,
                "memcmp" => B::Memcmp,
                "bcmp" => B::Bcmp,
                "strlen" => B::Strlen,
                "abort" => B::Abort,
                "getenv" | "sched_yield" | "write" | "writev" | "close" | "pthread_setspecific" | "pthread_key_delete" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_self" | "gettid" | "getpid" | "pthread_getspecific" | "munmap" | "mprotect" | "__cxa_thread_atexit_impl" | "atexit" | "fcntl" | "poll" | "sigaction" | "signal" => B::Zero,
                "pthread_key_create" => B::One,
                "__errno_location" => B::Errno,
                "syscall" => B::Syscall,
                "getrandom" => B::GetRandom,
                "clock_gettime" if f.body.is_none() => B::ClockGettime,
                "sx_u64" => B::SxVal(64),
                "sx_u32" => B::SxVal(32),
                "sx_u16" => B::SxVal(16),
                "sx_u8" => B::SxVal(8),
                "sx_bool" => B::SxVal(1),
                "sx_bytes" => B::SxBytes,
                "sx_assume" => B::SxAssume,
                "sx_check" => B::SxCheck,
                "sx_cover" => B::SxCover,
                "sx_obs" => B::SxObs,
                "sx_concretize" => B::SxConc,
                "sx_alloc_limit" => B::SxAllocLimit,
                "sx_uf" => B::SxUf,
                "sx_select" => B::SxSelect,
                "sx_fail" => B::SxFail,
                "sx_print" => B::SxPrint,
                "sx_is_symbolic" => B::SxIsSym,
                "sx_tier" => B::SxTier,
                _ => {
                    if n.contains("4core9panicking9panic_fmt") || n.contains("4core9panicking19panic_cannot_unwind") || n.contains("4core9panicking18panic_nounwind_fmt") {
                        B::Panic
                    } else if n.contains("rust_begin_unwind") || n.contains("9panicking20rust_panic_with_hook") || n.contains("9panicking14panic_nounwind") {
                        B::PanicNoLoc
                    } else if n.contains("5alloc5alloc18handle_alloc_error") || n.contains("handle_alloc_error") {
                        B::AllocErr
                    } else if n.contains("5alloc3fmt6format12format_inner") || n.ends_with("5alloc3fmt6format") {
                        B::Format
                    } else {
                        continue;
                    }
                }
            };
            b.insert(i as u32, k);
        }
        let mut ga: Vec<(u64, u64, u32)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, g.size, i as u32)).collect();
        ga.sort();
        Exec {
            m,
            p: Pool::new(),
            s: Solver::new(timeout_ms),
            builtins: b,
            globals: Default::default(),
            gaddrs: ga,
            rep: Report::default(),
            partial: None,
            max_paths: u64::MAX,
            max_steps: u64::MAX,
            deadline: Instant::now() + std::time::Duration::from_secs(3600),
            max_witness: 8,
            trace: false,
            prof: None,
            work: vec![],
            seen_fn: Default::default(),
            concrete: None,
            errno: 0,
            stop_first: false,
            tier: 0,
            merge: true,
            eager: false,
            joins: Default::default(),
        }
    }

    fn global_at(&mut self, addr: u64) -> Option<u32> {
        if addr < GLOBAL_BASE || addr >= HEAP_BASE {
            return None;
        }
        let i = self.gaddrs.partition_point(|g| g.0 <= addr);
        if i == 0 {
            return None;
        }
        let (b, s, gi) = self.gaddrs[i - 1];
        if addr - b < s || addr == b {
            Some(gi)
        } else {
            None
        }
    }
    /// make sure the object containing addr is present in the state's memory
    fn touch(&mut self, st: &mut State, addr: u64) -> bool {
        if st.mem.find(addr).is_some() {
            return true;
        }
        if let Some(gi) = self.global_at(addr) {
            let g = &self.m.globals[gi as usize];
            let base = g.addr;
            let o = match self.globals.get(&gi) {
                Some(o) => o.clone(),
                None => {
                    let bytes = self.m.global_init(gi);
                    let o = Rc::new(Obj::from_bytes(base, bytes, Kind::Global, g.is_const));
                    self.globals.insert(gi, o.clone());
                    o
                }
            };
            st.mem.objs.insert(base, o);
            return true;
        }
        false
    }

    pub fn ex(&mut self, v: &V, w: u8) -> Ex {
        match v {
            V::C(x) => self.p.c(*x as u128, w),
            V::E(e) => *e,
            V::A(_) => panic!("aggregate where scalar expected"),
        }
    }
    fn val(&self, e: Ex) -> V {
        let n = self.p.n(e);
        if n.op == Op::Const && n.w <= 64 {
            V::C(self.p.consts[n.a as usize] as u64)
        } else {
            V::E(e)
        }
    }
    #[inline]
    fn op(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::W(v, w) => V::E(self.p.c(*v, *w)),
            Opd::Agg(v) => V::A(Rc::new(v.iter().map(|x| self.op(st, x)).collect())),
        }
    }

    // ------------------------------------------------------------ constraints
    fn relevant(&mut self, st: &State, cond: Ex) -> Vec<Ex> {
        let mut vars: FxSet<u32> = self.p.varset(cond).iter().copied().collect();
        let mut out = vec![cond];
        let mut rest: Vec<Ex> = st.pc.clone();
        loop {
            let mut changed = false;
            let mut keep = Vec::with_capacity(rest.len());
            for c in rest {
                let vs = self.p.varset(c);
                if vs.iter().any(|v| vars.contains(v)) {
                    for v in vs.iter() {
                        vars.insert(*v);
                    }
                    out.push(c);
                    changed = true;
                } else {
                    keep.push(c);
                }
            }
            rest = keep;
            if !changed {
                return out;
            }
        }
    }
    fn add_pc(&mut self, st: &mut State, c: Ex) {
        if self.p.cv(c) == Some(1) {
            return;
        }
        if st.known.get(&c) == Some(&true) && st.pc.contains(&c) {
            return;
        }
        let n = self.p.n(c);
        if n.op == Op::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            st.known.insert(c, true);
            return;
        }
        st.pc.push(c);
        self.learn(st, c, true);
    }
    fn learn(&mut self, st: &mut State, c: Ex, b: bool) {
        st.known.insert(c, b);
        let nc = self.p.not(c);
        st.known.insert(nc, !b);
        let (c, b) = {
            let n = self.p.n(c);
            if n.op == Op::Xor && n.w == 1 && self.p.cv(n.b) == Some(1) {
                (n.a, !b)
            } else {
                (c, b)
            }
        };
        let n = self.p.n(c);
        if b {
            if n.op == Op::Eq {
                if let Some(k) = self.p.cv(n.b) {
                    st.eqs.insert(n.a, k);
                }
            }
            if n.op == Op::And {
                self.learn(st, n.a, true);
                self.learn(st, n.b, true);
            }
        } else if n.op == Op::Or {
            self.learn(st, n.a, false);
            self.learn(st, n.b, false);
        }
        if n.op != Op::Eq {
            st.eqs.insert(c, b as u128);
        }
    }
    /// cheap rewriting with known equalities
    fn simp(&mut self, st: &State, e: Ex, d: u32) -> Ex {
        if st.eqs.is_empty() {
            return e;
        }
        let n = self.p.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(&k) = st.eqs.get(&e) {
            return self.p.c(k, n.w);
        }
        if d == 0 || n.op == Op::Var {
            return e;
        }
        match n.op {
            Op::Ite => {
                let c = self.simp(st, n.a, d - 1);
                match self.p.cv(c) {
                    Some(1) => self.simp(st, n.b, d - 1),
                    Some(_) => self.simp(st, n.c, d - 1),
                    None => {
                        let t = self.simp(st, n.b, d - 1);
                        let f = self.simp(st, n.c, d - 1);
                        self.p.ite(c, t, f)
                    }
                }
            }
            Op::ZExt => {
                let a = self.simp(st, n.a, d - 1);
                if a == n.a { e } else { self.p.zext(a, n.w) }
            }
            Op::SExt => {
                let a = self.simp(st, n.a, d - 1);
                if a == n.a { e } else { self.p.sext(a, n.w) }
            }
            Op::Extract => {
                let a = self.simp(st, n.a, d - 1);
                if a == n.a { e } else { self.p.extract(a, n.b, n.w) }
            }
            Op::Concat => {
                let a = self.simp(st, n.a, d - 1);
                let b = self.simp(st, n.b, d - 1);
                if a == n.a && b == n.b { e } else { self.p.concat(a, b) }
            }
            Op::Eq | Op::Ult | Op::Slt => {
                let a = self.simp(st, n.a, d - 1);
                let b = self.simp(st, n.b, d - 1);
                if a == n.a && b == n.b {
                    e
                } else {
                    match n.op {
                        Op::Eq => self.p.eq(a, b),
                        Op::Ult => self.p.ult(a, b),
                        _ => self.p.slt(a, b),
                    }
                }
            }
            _ => {
                let a = self.simp(st, n.a, d - 1);
                let b = self.simp(st, n.b, d - 1);
                if a == n.a && b == n.b { e } else { self.p.bin(n.op, a, b) }
            }
        }
    }
    fn ev(&mut self, st: &State, e: Ex) -> u128 {
        self.p.ev_reset();
        let m = st.model.clone();
        self.p.eval(e, &m)
    }
    /// Is `cond` decided on this path?  Err(Fork) when both outcomes are feasible.
    fn decide(&mut self, st: &mut State, cond: Ex) -> R<bool> {
        if let Some(v) = self.p.cv(cond) {
            return Ok(v == 1);
        }
        if let Some(&b) = st.known.get(&cond) {
            return Ok(b);
        }
        let c2 = self.simp(st, cond, 6);
        if let Some(v) = self.p.cv(c2) {
            st.known.insert(cond, v == 1);
            return Ok(v == 1);
        }
        if let Some(&b) = st.known.get(&c2) {
            st.known.insert(cond, b);
            return Ok(b);
        }
        let b = self.ev(st, c2) == 1;
        let other = if b { self.p.not(c2) } else { c2 };
        let cs = self.relevant(st, other);
        match self.s.check(&mut self.p, &cs) {
            Sat::Unsat => {
                st.known.insert(cond, b);
                self.learn(st, c2, b);
                Ok(b)
            }
            Sat::Sat(m) => Err(Ctl::Fork(c2, m)),
            Sat::Unknown(w) => Err(Ctl::End(End::Incomplete(format!("solver gave no answer ({w}) on a branch in {}", self.where_(st))))),
        }
    }
    fn decide_v(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::E(e) => self.decide(st, *e),
            _ => Err(Ctl::End(End::Error("aggregate condition".into()))),
        }
    }
    /// Force a concrete value, forking over all feasible values.
    fn conc(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::E(e) => {
                let e = self.simp(st, *e, 8);
                if let Some(k) = self.p.cv(e) {
                    return Ok(k as u64);
                }
                let k = self.ev(st, e);
                let w = self.p.w(e);
                let kc = self.p.c(k, w);
                let c = self.p.eq(e, kc);
                // fork on equality with the model's value; the other branch keeps enumerating
                if self.decide(st, c)? {
                    st.eqs.insert(e, k);
                    Ok(k as u64)
                } else {
                    Err(Ctl::End(End::Error("conc: model value infeasible".into())))
                }
            }
            _ => Err(Ctl::End(End::Error("conc aggregate".into()))),
        }
    }
    fn apply_model(&self, st: &mut State, delta: &[(u32, u128)]) {
        let mut m = (*st.model).clone();
        for &(v, x) in delta {
            if m.len() <= v as usize {
                m.resize(v as usize + 1, 0);
            }
            m[v as usize] = x;
        }
        st.model = Rc::new(m);
    }

    fn demangle(n: &str) -> String {
        format!("{:#}", rustc_demangle::demangle(n))
    }
    fn where_(&self, st: &State) -> String {
        Self::demangle(&st.cur.f.name)
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.stack.iter().map(|f| Self::demangle(&f.f.name)).collect();
        v.push(Self::demangle(&st.cur.f.name));
        v.reverse();
        v
    }

    // ------------------------------------------------------------ memory access
    fn pick_obj(&mut self, st: &mut State, addr: u64, n: u64) -> Option<Rc<Obj>> {
        if !self.touch(st, addr) {
            return None;
        }
        let o = st.mem.find(addr)?.clone();
        if addr - o.base + n > o.size {
            return None;
        }
        Some(o)
    }
    fn memerr<T>(&self, st: &State, what: &str, addr: u64, n: u64) -> R<T> {
        Err(Ctl::End(End::Violation { kind: format!("memory-error {what} of {n} bytes at {addr:#x}"), id: -2, at: self.where_(st) }))
    }
    fn byte_with_log(&mut self, o: &Obj, off: u64) -> (u8, Ex) {
        let (c, s) = o.raw(off);
        if o.log.is_empty() {
            return (c, s);
        }
        let mut v = if s != 0 { s } else { self.p.c(c as u128, 8) };
        let oe = self.p.c(off as u128, 64);
        for &(lo, lb) in &o.log {
            let e = self.p.eq(lo, oe);
            v = self.p.ite(e, lb, v);
        }
        match self.p.cv(v) {
            Some(k) => (k as u8, 0),
            None => (0, v),
        }
    }
    fn read_obj(&mut self, o: &Obj, off: u64, n: u64) -> V {
        if n <= 8 {
            if let Some(v) = o.fast(off, n as usize) {
                return V::C(v);
            }
        }
        let mut acc: Option<Ex> = None;
        for i in 0..n {
            let (c, s) = self.byte_with_log(o, off + i);
            let b = if s != 0 { s } else { self.p.c(c as u128, 8) };
            acc = Some(match acc {
                None => b,
                Some(a) => self.p.concat(b, a),
            });
        }
        let e = acc.unwrap();
        self.val(e)
    }
    /// Load n bytes (n<=16) at ptr as an (8n)-bit value.
    fn load_n(&mut self, st: &mut State, ptr: &V, n: u64) -> R<V> {
        match ptr {
            V::C(a) => {
                if n == 0 {
                    return Ok(V::C(0));
                }
                if let Some(o) = st.mem.find(*a) {
                    if a - o.base + n <= o.size {
                        if n <= 8 {
                            if let Some(v) = o.fast(a - o.base, n as usize) {
                                return Ok(V::C(v));
                            }
                        }
                        let o = o.clone();
                        return Ok(self.read_obj(&o, a - o.base, n));
                    }
                }
                match self.pick_obj(st, *a, n) {
                    Some(o) => Ok(self.read_obj(&o, a - o.base, n)),
                    None => self.memerr(st, "load", *a, n),
                }
            }
            V::E(e) => {
                let e = self.simp(st, *e, 8);
                if let Some(k) = self.p.cv(e) {
                    return self.load_n(st, &V::C(k as u64), n);
                }
                // constant-leaf ite trees
                if let Some(v) = self.load_ite(st, e, n, 0)? {
                    return Ok(v);
                }
                let (o, off) = self.resolve(st, e, n, "load")?;
                self.sym_read(&o, off, n)
            }
            _ => Err(Ctl::End(End::Error("load through aggregate".into()))),
        }
    }
    fn load_ite(&mut self, st: &mut State, e: Ex, n: u64, depth: u32) -> R<Option<V>> {
        let nd = self.p.n(e);
        if nd.op == Op::Const {
            let a = self.p.cv(e).unwrap() as u64;
            return Ok(self.pick_obj(st, a, n).map(|o| self.read_obj(&o, a - o.base, n)));
        }
        if nd.op != Op::Ite || depth > 6 {
            return Ok(None);
        }
        let Some(x) = self.load_ite(st, nd.b, n, depth + 1)? else { return Ok(None) };
        let Some(y) = self.load_ite(st, nd.c, n, depth + 1)? else { return Ok(None) };
        let w = (8 * n) as u8;
        let (x, y) = (self.ex(&x, w), self.ex(&y, w));
        let r = self.p.ite(nd.a, x, y);
        Ok(Some(self.val(r)))
    }
    /// Resolve a symbolic pointer to exactly one object on this path.
    fn resolve(&mut self, st: &mut State, e: Ex, n: u64, what: &str) -> R<(Rc<Obj>, Ex)> {
        let nd = self.p.n(e);
        if nd.op == Op::Ite {
            let b = self.decide(st, nd.a)?;
            let nx = if b { nd.b } else { nd.c };
            if self.p.cv(nx).is_none() {
                return self.resolve(st, nx, n, what);
            }
            let a = self.p.cv(nx).unwrap() as u64;
            return match self.pick_obj(st, a, n) {
                Some(o) => {
                    let off = self.p.c((a - o.base) as u128, 64);
                    Ok((o, off))
                }
                None => self.memerr(st, what, a, n),
            };
        }
        let a = self.ev(st, e) as u64;
        let Some(o) = self.pick_obj(st, a, n) else {
            return self.memerr(st, &format!("{what} via symbolic pointer {}", self.p.show(e, 4)), a, n);
        };
        let base = self.p.c(o.base as u128, 64);
        let off = self.p.sub(e, base);
        let lim = self.p.c((o.size - n + 1) as u128, 64);
        let inb = self.p.ult(off, lim);
        if !self.decide(st, inb)? {
            return Err(Ctl::End(End::Error("resolve: model address infeasible".into())));
        }
        Ok((o, off))
    }
    fn stride(&self, off: Ex) -> (u64, u64) {
        // off ≡ r (mod 2^k) from structure
        let n = self.p.n(off);
        match n.op {
            Op::Concat => {
                if let Some(k) = self.p.cv(n.b) {
                    let w = self.p.w(n.b);
                    if w < 32 {
                        return (1 << w, k as u64);
                    }
                }
                let (s, r) = self.stride(n.b);
                (s, r)
            }
            Op::ZExt => self.stride(n.a),
            Op::Add => {
                let (s, r) = self.stride(n.a);
                let (s2, r2) = if let Some(k) = self.p.cv(n.b) { (1u64 << 32, k as u64 & 0xffff_ffff) } else { self.stride(n.b) };
                let s = s.min(s2);
                (s, (r.wrapping_add(r2)) % s)
            }
            Op::Mul => {
                if let Some(k) = self.p.cv(n.b) {
                    let t = (k as u64).trailing_zeros().min(31);
                    return (1 << t, 0);
                }
                (1, 0)
            }
            _ => (1, 0),
        }
    }
    fn sym_read(&mut self, o: &Rc<Obj>, off: Ex, n: u64) -> R<V> {
        let w = (8 * n) as u8;
        let (lo, hi) = self.p.range[off as usize];
        let lo = (lo as u64).min(o.size - n);
        let hi = (hi.min((o.size - n) as u128)) as u64;
        let (s, r) = self.stride(off);
        // multiplicative stride: off = x*K (+c) handled by range only
        let mut step = s;
        let mut start = lo;
        let nd = self.p.n(off);
        let mul_stride = |p: &Pool, e: Ex| -> Option<u64> {
            let n = p.n(e);
            if n.op == Op::Mul {
                p.cv(n.b).map(|k| k as u64)
            } else {
                None
            }
        };
        if nd.op == Op::Mul {
            if let Some(k) = mul_stride(&self.p, off) {
                step = k;
                start = (lo + k - 1) / k * k;
            }
        } else if nd.op == Op::Add && self.p.cv(nd.b).is_some() && mul_stride(&self.p, nd.a).is_some() {
            let k = mul_stride(&self.p, nd.a).unwrap();
            let c = self.p.cv(nd.b).unwrap() as u64;
            step = k;
            let rr = c % k;
            start = lo + (rr + k - lo % k) % k;
        } else if s > 1 {
            start = lo + (r + s - lo % s) % s;
        }
        if step == 0 {
            step = 1;
        }
        // collect runs
        let mut runs: Vec<(u64, Ex)> = vec![]; // (first offset, value)
        let zero = self.p.c(0, w);
        let nolog = Obj { log: vec![], ..(**o).clone() };
        let mut x = start;
        let mut cnt = 0u64;
        while x <= hi {
            if let Some(e) = nolog.zero_run(x) {
                if runs.last().map(|l| l.1) != Some(zero) {
                    runs.push((x, zero));
                }
                // last offset fully inside the zero run
                if e >= x + n {
                    let k = (e - n - x) / step;
                    x += k * step + step;
                    continue;
                }
            }
            let v = self.read_obj(&nolog, x, n);
            let v = self.ex(&v, w);
            if runs.last().map(|l| l.1) != Some(v) {
                runs.push((x, v));
            }
            x += step;
            cnt += 1;
            if cnt > 300_000 || runs.len() > 20_000 {
                return Err(Ctl::End(End::Incomplete(format!("symbolic read over too many cells ({} runs) {}", runs.len(), self.p.show(off, 4)))));
            }
        }
        if runs.is_empty() {
            return Err(Ctl::End(End::Error("empty symbolic read".into())));
        }
        let mut v = self.tree(&runs, off);
        if !o.log.is_empty() {
            // per byte overlay
            let mut acc: Option<Ex> = None;
            for i in 0..n {
                let mut b = self.p.extract(v, 8 * i as u32, 8);
                let ic = self.p.c(i as u128, 64);
                let oi = self.p.add(off, ic);
                for &(lo, lb) in &o.log {
                    let c = self.p.eq(lo, oi);
                    b = self.p.ite(c, lb, b);
                }
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.p.concat(b, a),
                });
            }
            v = acc.unwrap();
        }
        Ok(self.val(v))
    }
    fn tree(&mut self, runs: &[(u64, Ex)], off: Ex) -> Ex {
        if runs.len() == 1 {
            return runs[0].1;
        }
        let m = runs.len() / 2;
        let b = self.p.c(runs[m].0 as u128, 64);
        let c = self.p.ult(off, b);
        let l = self.tree(&runs[..m], off);
        let r = self.tree(&runs[m..], off);
        self.p.ite(c, l, r)
    }
    fn store_n(&mut self, st: &mut State, ptr: &V, n: u64, v: &V) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        match ptr {
            V::C(a) => {
                if !self.touch(st, *a) {
                    return self.memerr(st, "store", *a, n);
                }
                let Some(o) = st.mem.find_mut(*a) else { return self.memerr(st, "store", *a, n) };
                if a - o.base + n > o.size || o.ro {
                    return self.memerr(st, "store", *a, n);
                }
                let off = a - o.base;
                if let V::C(x) = v {
                    if n <= 8 && o.fast_store(off, n as usize, *x) {
                        return Ok(());
                    }
                }
                let e = self.ex(v, (8 * n) as u8);
                for i in 0..n {
                    let b = self.p.extract(e, 8 * i as u32, 8);
                    let cv = self.p.cv(b);
                    if o.log.is_empty() {
                        match cv {
                            Some(k) => o.set_raw(off + i, k as u8, 0),
                            None => o.set_raw(off + i, 0, b),
                        }
                    } else {
                        let oe = self.p.c((off + i) as u128, 64);
                        o.log.push((oe, b));
                    }
                }
                Ok(())
            }
            V::E(e) => {
                let e = self.simp(st, *e, 8);
                if let Some(k) = self.p.cv(e) {
                    return self.store_n(st, &V::C(k as u64), n, v);
                }
                let (o, off) = self.resolve(st, e, n, "store")?;
                if o.ro {
                    return self.memerr(st, "store to constant", o.base, n);
                }
                let base = o.base;
                if let Some(k) = self.p.cv(off) {
                    drop(o);
                    return self.store_n(st, &V::C(base + k as u64), n, v);
                }
                let (lo, hi) = self.p.range[off as usize];
                let hi = hi.min((o.size - n) as u128) as u64;
                let lo = lo as u64;
                let (s, r) = self.stride(off);
                let ve = self.ex(v, (8 * n) as u8);
                drop(o);
                let start = if s > 1 { lo + (r + s - lo % s) % s } else { lo };
                let cells = if hi >= start { (hi - start) / s + 1 } else { 0 };
                let o = st.mem.find_mut(base).unwrap();
                if cells <= 128 && o.log.is_empty() {
                    let mut x = start;
                    while x <= hi {
                        let xe = self.p.c(x as u128, 64);
                        let c = self.p.eq(off, xe);
                        for i in 0..n {
                            let nb = self.p.extract(ve, 8 * i as u32, 8);
                            let (oc, os) = o.raw(x + i);
                            let ob = if os != 0 { os } else { self.p.c(oc as u128, 8) };
                            let b = self.p.ite(c, nb, ob);
                            match self.p.cv(b) {
                                Some(k) => o.set_raw(x + i, k as u8, 0),
                                None => o.set_raw(x + i, 0, b),
                            }
                        }
                        x += s;
                    }
                } else {
                    for i in 0..n {
                        let nb = self.p.extract(ve, 8 * i as u32, 8);
                        let ic = self.p.c(i as u128, 64);
                        let oi = self.p.add(off, ic);
                        o.log.push((oi, nb));
                    }
                }
                Ok(())
            }
            _ => Err(Ctl::End(End::Error("store through aggregate".into()))),
        }
    }
    /// a choice whose condition is decided on this path is made
    fn settle(&mut self, st: &State, v: V) -> V {
        let V::E(mut e) = v else { return v };
        loop {
            let n = self.p.n(e);
            if n.op != Op::Ite {
                break;
            }
            let b = match st.known.get(&n.a).copied().or_else(|| st.eqs.get(&n.a).map(|k| *k == 1)) {
                Some(b) => b,
                None => {
                    let c = self.p.not(n.a);
                    match st.known.get(&c).copied().or_else(|| st.eqs.get(&c).map(|k| *k == 1)) {
                        Some(b) => !b,
                        None => break,
                    }
                }
            };
            e = if b { n.b } else { n.c };
        }
        self.val(e)
    }
    fn load_ty(&mut self, st: &mut State, ty: &Ty, ptr: &V) -> R<V> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = ty.bits();
                let n = ty.store_size();
                let v = self.load_n(st, ptr, n)?;
                let v = self.settle(st, v);
                if w as u64 == n * 8 {
                    return Ok(v);
                }
                Ok(match v {
                    V::C(x) => V::C(x & mask(w as u8) as u64),
                    V::E(e) => {
                        let r = self.p.extract(e, 0, w as u8);
                        self.val(r)
                    }
                    a => a,
                })
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                // packed bits
                let total = (*n as u32) * t.bits();
                let by = ((total + 7) / 8) as u64;
                let v = self.load_n(st, ptr, by)?;
                let e = self.ex(&v, (8 * by) as u8);
                let mut out = vec![];
                for i in 0..*n as u32 {
                    let x = self.p.extract(e, i * t.bits(), t.bits() as u8);
                    out.push(self.val(x));
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut out = Vec::with_capacity(*n as usize);
                let sz = if matches!(ty, Ty::Vec(..)) { t.store_size() } else { t.size() };
                for i in 0..*n {
                    let p = self.padd(ptr, i * sz);
                    out.push(self.load_ty(st, t, &p)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            Ty::Struct(_, ts) => {
                let mut out = Vec::with_capacity(ts.len());
                for i in 0..ts.len() {
                    let (o, t) = ty.field_off(i as u64);
                    let p = self.padd(ptr, o);
                    out.push(self.load_ty(st, &t, &p)?);
                }
                Ok(V::A(Rc::new(out)))
            }
            t => Err(Ctl::End(End::Error(format!("load of type {:?}", t)))),
        }
    }
    fn store_ty(&mut self, st: &mut State, ty: &Ty, ptr: &V, v: &V) -> R<()> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => {
                let w = ty.bits();
                let n = ty.store_size();
                if w as u64 != n * 8 {
                    let v2 = match v {
                        V::E(e) => {
                            let r = self.p.zext(*e, (n * 8) as u8);
                            V::E(r)
                        }
                        x => x.clone(),
                    };
                    return self.store_n(st, ptr, n, &v2);
                }
                self.store_n(st, ptr, n, v)
            }
            Ty::Vec(n, t) if t.bits() % 8 != 0 => {
                let V::A(xs) = v else { return Err(Ctl::End(End::Error("store vec".into()))) };
                let tw = t.bits() as u8;
                let mut acc: Option<Ex> = None;
                for x in xs.iter() {
                    let e = self.ex(x, tw);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.p.concat(e, a),
                    });
                }
                let total = (*n as u32) * t.bits();
                let by = ((total + 7) / 8) as u64;
                let e = self.p.zext(acc.unwrap(), (by * 8) as u8);
                let vv = self.val(e);
                self.store_n(st, ptr, by, &vv)
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => {
                let V::A(xs) = v else { return Err(Ctl::End(End::Error("store agg".into()))) };
                let sz = if matches!(ty, Ty::Vec(..)) { t.store_size() } else { t.size() };
                for (i, x) in xs.clone().iter().enumerate() {
                    let p = self.padd(ptr, i as u64 * sz);
                    self.store_ty(st, t, &p, x)?;
                }
                Ok(())
            }
            Ty::Struct(_, _) => {
                let V::A(xs) = v else { return Err(Ctl::End(End::Error("store agg".into()))) };
                for (i, x) in xs.clone().iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    let p = self.padd(ptr, o);
                    self.store_ty(st, &t, &p, x)?;
                }
                Ok(())
            }
            t => Err(Ctl::End(End::Error(format!("store of type {:?}", t)))),
        }
    }
    fn padd(&mut self, p: &V, k: u64) -> V {
        match p {
            V::C(a) => V::C(a.wrapping_add(k)),
            V::E(e) => {
                let c = self.p.c(k as u128, 64);
                let r = self.p.add(*e, c);
                self.val(r)
            }
            x => x.clone(),
        }
    }
    fn read_byte_ex(&mut self, st: &mut State, p: &V) -> R<Ex> {
        let v = self.load_n(st, p, 1)?;
        Ok(self.ex(&v, 8))
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if let (V::C(da), V::C(sa)) = (d, s) {
            let Some(so) = self.pick_obj(st, *sa, n) else { return self.memerr(st, "memcpy-read", *sa, n) };
            if self.pick_obj(st, *da, n).is_none() {
                return self.memerr(st, "memcpy-write", *da, n);
            }
            let soff = sa - so.base;
            if so.log.is_empty() {
                let mut tmp: Vec<(u8, Ex)> = Vec::with_capacity(n as usize);
                match &so.data {
                    Data::Small(p) if p.s.is_none() => {
                        // concrete fast path
                        let bytes = p.b[soff as usize..(soff + n) as usize].to_vec();
                        drop(so);
                        let dobj = st.mem.find_mut(*da).unwrap();
                        if dobj.ro {
                            return self.memerr(st, "memcpy-write-ro", *da, n);
                        }
                        let doff = da - dobj.base;
                        if dobj.log.is_empty() {
                            if let Data::Small(q) = &mut dobj.data {
                                q.b[doff as usize..(doff + n) as usize].copy_from_slice(&bytes);
                                if let Some(s) = &mut q.s {
                                    for x in &mut s[doff as usize..(doff + n) as usize] {
                                        *x = 0;
                                    }
                                }
                                return Ok(());
                            }
                            for (i, b) in bytes.iter().enumerate() {
                                dobj.set_raw(doff + i as u64, *b, 0);
                            }
                            return Ok(());
                        }
                        for (i, b) in bytes.iter().enumerate() {
                            let oe = self.p.c((doff + i as u64) as u128, 64);
                            let be = self.p.c(*b as u128, 8);
                            dobj.log.push((oe, be));
                        }
                        return Ok(());
                    }
                    _ => {
                        for i in 0..n {
                            tmp.push(so.raw(soff + i));
                        }
                    }
                }
                drop(so);
                return self.write_raw(st, *da, &tmp);
            }
            let mut tmp = Vec::with_capacity(n as usize);
            for i in 0..n {
                tmp.push(self.byte_with_log(&so, soff + i));
            }
            drop(so);
            return self.write_raw(st, *da, &tmp);
        }
        // symbolic pointer(s): read everything first, word by word
        let mut words: Vec<(u64, u64, V)> = vec![];
        let mut i = 0;
        while i < n {
            let k = (n - i).min(8);
            let sp = self.padd(s, i);
            let v = self.load_n(st, &sp, k)?;
            words.push((i, k, v));
            i += k;
        }
        // make sure the destination resolves before any side effect
        if let V::E(e) = d {
            let e = self.simp(st, *e, 8);
            if self.p.cv(e).is_none() {
                self.resolve(st, e, n, "memcpy-write")?;
            }
        }
        for (i, k, v) in words {
            let dp = self.padd(d, i);
            self.store_n(st, &dp, k, &v)?;
        }
        Ok(())
    }
    fn write_raw(&mut self, st: &mut State, da: u64, tmp: &[(u8, Ex)]) -> R<()> {
        let dobj = st.mem.find_mut(da).unwrap();
        if dobj.ro {
            return self.memerr(st, "write-ro", da, tmp.len() as u64);
        }
        let doff = da - dobj.base;
        for (i, (c, s)) in tmp.iter().enumerate() {
            if dobj.log.is_empty() {
                dobj.set_raw(doff + i as u64, *c, *s);
            } else {
                let oe = self.p.c((doff + i as u64) as u128, 64);
                let be = if *s != 0 { *s } else { self.p.c(*c as u128, 8) };
                dobj.log.push((oe, be));
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, d: &V, b: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        if let V::C(da) = d {
            if self.pick_obj(st, *da, n).is_none() {
                return self.memerr(st, "memset", *da, n);
            }
            let o = st.mem.find_mut(*da).unwrap();
            let off = da - o.base;
            if let V::C(x) = b {
                if *x as u8 == 0 && off == 0 && n == o.size && o.log.is_empty() {
                    let base = o.base;
                    let kind = o.kind;
                    *o = Obj::new(base, n, kind);
                    return Ok(());
                }
            }
            let be = self.ex(b, 8);
            let cv = self.p.cv(be);
            for i in 0..n {
                if o.log.is_empty() {
                    match cv {
                        Some(k) => o.set_raw(off + i, k as u8, 0),
                        None => o.set_raw(off + i, 0, be),
                    }
                } else {
                    let oe = self.p.c((off + i) as u128, 64);
                    o.log.push((oe, be));
                }
            }
            return Ok(());
        }
        if let V::E(e) = d {
            let e = self.simp(st, *e, 8);
            if self.p.cv(e).is_none() {
                self.resolve(st, e, n, "memset")?;
            }
        }
        for i in 0..n {
            let p = self.padd(d, i);
            self.store_n(st, &p, 1, b)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------ arithmetic
    fn bin(&mut self, op: Op, w: u8, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let m = mask(w) as u64;
            let (x, y) = (*x, *y);
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => Pool::fold(op, w, x as u128, y as u128, w) as u64,
            };
            return V::C(r & m);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = self.p.bin(op, x, y);
        self.val(r)
    }
    fn icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (sxx, syy) = (sx(*x as u128, w), sx(*y as u128, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sxx > syy,
                Pred::Sge => sxx >= syy,
                Pred::Slt => sxx < syy,
                Pred::Sle => sxx <= syy,
            };
            return V::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let r = match p {
            Pred::Eq => self.p.eq(x, y),
            Pred::Ne => self.p.ne(x, y),
            Pred::Ugt => self.p.ult(y, x),
            Pred::Uge => self.p.ule(y, x),
            Pred::Ult => self.p.ult(x, y),
            Pred::Ule => self.p.ule(x, y),
            Pred::Sgt => self.p.slt(y, x),
            Pred::Sge => self.p.sle(y, x),
            Pred::Slt => self.p.slt(x, y),
            Pred::Sle => self.p.sle(x, y),
        };
        self.val(r)
    }
    fn lanes2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &V, &V) -> V) -> V {
        let (V::A(x), V::A(y)) = (a, b) else { panic!("lanes") };
        let mut out = Vec::with_capacity(x.len());
        for i in 0..x.len() {
            out.push(f(self, &x[i], &y[i]));
        }
        V::A(Rc::new(out))
    }
    fn cast1(&mut self, k: CastK, from: &Ty, to: &Ty, a: &V) -> R<V> {
        let (fw, tw) = (from.bits(), to.bits());
        if fw > 128 || tw > 128 {
            return Err(Ctl::End(End::Error("wide cast".into())));
        }
        let (fw, tw) = (fw as u8, tw as u8);
        Ok(match k {
            CastK::Trunc => match a {
                V::C(x) => V::C(x & mask(tw) as u64),
                V::E(e) => {
                    let r = self.p.extract(*e, 0, tw);
                    self.val(r)
                }
                _ => panic!(),
            },
            CastK::ZExt => match a {
                V::C(x) if tw <= 64 => V::C(*x),
                v => {
                    let e = self.ex(v, fw);
                    let r = self.p.zext(e, tw);
                    self.val(r)
                }
            },
            CastK::SExt => match a {
                V::C(x) if tw <= 64 => V::C((sx(*x as u128, fw) as u128 & mask(tw)) as u64),
                v => {
                    let e = self.ex(v, fw);
                    let r = self.p.sext(e, tw);
                    self.val(r)
                }
            },
            CastK::Bit => a.clone(),
            _ => {
                let V::C(x) = a else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let asf = |b: u64, t: &Ty| if *t == Ty::Double { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                let tof = |f: f64, t: &Ty| if *t == Ty::Double { f.to_bits() } else { (f as f32).to_bits() as u64 };
                match k {
                    CastK::UiToFp => V::C(tof(*x as f64, to)),
                    CastK::SiToFp => V::C(tof(sx(*x as u128, fw) as f64, to)),
                    CastK::FpToUi => V::C((asf(*x, from) as u64) & mask(tw) as u64),
                    CastK::FpToSi => V::C((asf(*x, from) as i64 as u64) & mask(tw) as u64),
                    _ => V::C(tof(asf(*x, from), to)),
                }
            }
        })
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, a: &V) -> R<V> {
        match (from, to) {
            (Ty::Vec(n, ft), Ty::Vec(m, tt)) => {
                if n == m {
                    let V::A(xs) = a else { panic!() };
                    let mut out = vec![];
                    for x in xs.iter() {
                        out.push(self.cast1(k, ft, tt, x)?);
                    }
                    Ok(V::A(Rc::new(out)))
                } else {
                    // bitcast between vector shapes
                    let e = self.vec_bits(a, ft);
                    let mut out = vec![];
                    let tw = tt.bits();
                    for i in 0..*m as u32 {
                        let x = self.bits_extract(&e, i * tw, tw as u8);
                        out.push(x);
                    }
                    Ok(V::A(Rc::new(out)))
                }
            }
            (Ty::Vec(_, ft), _) => {
                let e = self.vec_bits(a, ft);
                let w = to.bits();
                Ok(self.bits_extract(&e, 0, w as u8))
            }
            (_, Ty::Vec(m, tt)) => {
                let e = vec![(self.ex(a, from.bits() as u8), from.bits() as u8)];
                let mut out = vec![];
                let tw = tt.bits();
                for i in 0..*m as u32 {
                    out.push(self.bits_extract(&e, i * tw, tw as u8));
                }
                Ok(V::A(Rc::new(out)))
            }
            _ => self.cast1(k, from, to, a),
        }
    }
    fn vec_bits(&mut self, a: &V, t: &Ty) -> Vec<(Ex, u8)> {
        let V::A(xs) = a else { panic!() };
        let w = t.bits() as u8;
        xs.iter().map(|x| (self.ex(x, w), w)).collect()
    }
    fn bits_extract(&mut self, parts: &[(Ex, u8)], lo: u32, w: u8) -> V {
        let mut pos = 0u32;
        let mut acc: Option<Ex> = None;
        for &(e, pw) in parts {
            let (s, t) = (pos, pos + pw as u32);
            let (a, b) = (s.max(lo), t.min(lo + w as u32));
            if a < b {
                let x = self.p.extract(e, a - s, (b - a) as u8);
                acc = Some(match acc {
                    None => x,
                    Some(q) => self.p.concat(x, q),
                });
            }
            pos = t;
        }
        let e = acc.unwrap();
        self.val(e)
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> V {
        match c {
            V::C(x) => {
                if *x & 1 == 1 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::E(ce) => match (a, b) {
                (V::A(x), V::A(y)) => {
                    let mut out = vec![];
                    for i in 0..x.len() {
                        let t = match ty {
                            Ty::Struct(_, ts) => ts[i].clone(),
                            Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(),
                            _ => panic!(),
                        };
                        out.push(self.select(c, &x[i], &y[i], &t));
                    }
                    V::A(Rc::new(out))
                }
                _ => {
                    let w = ty.bits() as u8;
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let r = self.p.ite(*ce, x, y);
                    self.val(r)
                }
            },
            _ => panic!("select"),
        }
    }

    // ------------------------------------------------------------ main loop
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = *self.m.fn_idx.get(entry).ok_or(format!("no entry {entry}"))?;
        let f = self.m.func(fi)?;
        let t0 = Instant::now();
        let st = State {
            stack: vec![],
            cur: Frame { regs: vec![V::C(0); f.nregs as usize], f, fi, blk: 0, ip: 0, prev: u32::MAX, ret_dst: None, normal: None, allocas: vec![], stack_mark: STACK_BASE },
            mem: Mem::new(),
            pc: vec![],
            known: Default::default(),
            eqs: Default::default(),
            model: Rc::new(vec![]),
            inputs: vec![],
            nvars: 0,
            covers: vec![],
            obs: vec![],
            steps: 0,
            alloc_limit: 1 << 32,
            ufs: Rc::new(vec![]),
            tag: 0,
            last_dec: None,
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.rep.paths >= self.max_paths {
                self.rep.incomplete.push(format!("path limit {} reached", self.max_paths));
                break;
            }
            if Instant::now() > self.deadline {
                self.rep.incomplete.push(format!("time limit reached with {} open paths", self.work.len() + 1));
                break;
            }
            let s0 = st.steps;
            let r = self.run_state(&mut st);
            self.rep.steps += st.steps - s0;
            match r {
                Ctl::Fork(c, delta) => {
                    self.rep.forks += 1;
                    // current model satisfies one side
                    let b = self.ev(&st, c) == 1;
                    let mut other = st.clone();
                    let (mine, theirs) = {
                        let n = self.p.not(c);
                        if b {
                            (c, n)
                        } else {
                            (n, c)
                        }
                    };
                    self.apply_model(&mut other, &delta);
                    self.add_pc(&mut other, theirs);
                    other.steps = st.steps;
                    self.add_pc(&mut st, mine);
                    self.work.push(other);
                    self.work.push(st);
                }
                Ctl::End(e) => self.finish(st, e),
            }
            if (self.stop_first && !self.rep.violations.is_empty()) || self.rep.violations.len() >= 8 {
                break;
            }
        }
        self.work.clear();
        self.rep.wall += t0.elapsed().as_secs_f64();
        Ok(())
    }
    fn conc_inputs(&mut self, st: &State) -> Vec<String> {
        self.p.ev_reset();
        let m = st.model.clone();
        let mut out = vec![];
        for i in &st.inputs {
            match i {
                Input::Val(e, w) => {
                    let v = self.p.eval(*e, &m);
                    out.push(format!("{}:{:x}", w, v));
                }
                Input::Bytes(bs) => {
                    let mut s = String::from("b:");
                    for b in bs {
                        s.push_str(&format!("{:02x}", self.p.eval(*b, &m) as u8));
                    }
                    out.push(s);
                }
            }
        }
        out
    }
    fn finish(&mut self, st: State, e: End) {
        match e {
            End::Infeasible => self.rep.infeasible += 1,
            End::Done => {
                self.rep.paths += 1;
                for c in &st.covers {
                    *self.rep.covers.entry(*c).or_default() += 1;
                }
                // reservoir-like: keep the first few and then every power-of-two-th path
                let keep = self.rep.witnesses.len() < self.max_witness || (self.rep.paths.is_power_of_two());
                if keep {
                    let inputs = self.conc_inputs(&st);
                    let m = st.model.clone();
                    let mut obs = vec![];
                    for (v, w) in &st.obs {
                        let e = self.ex(v, *w);
                        obs.push(self.p.eval(e, &m) as u64);
                    }
                    let w = Witness { inputs, covers: st.covers.clone(), obs };
                    if self.rep.witnesses.len() < self.max_witness {
                        self.rep.witnesses.push(w);
                    } else {
                        let k = (self.rep.paths.trailing_zeros() as usize) % self.max_witness.max(1);
                        if self.max_witness > 0 {
                            self.rep.witnesses[k] = w;
                        }
                    }
                }
            }
            End::Violation { kind, id, at } => {
                self.rep.paths += 1;
                for c in &st.covers {
                    *self.rep.covers.entry(*c).or_default() += 1;
                }
                self.violation(&st, kind, id, at);
            }
            End::Incomplete(w) => {
                self.rep.paths += 1;
                if self.rep.incomplete.len() < 20 {
                    let bt = self.backtrace(&st);
                    self.rep.incomplete.push(format!("{} [in {}]", w, bt.iter().take(6).cloned().collect::<Vec<_>>().join(" < ")));
                }
            }
            End::Error(w) => {
                self.rep.paths += 1;
                if self.rep.errors.len() < 20 {
                    let bt = self.backtrace(&st);
                    self.rep.errors.push(format!("{} [in {}]", w, bt.iter().take(8).cloned().collect::<Vec<_>>().join(" < ")));
                }
            }
        }
    }
    fn violation(&mut self, st: &State, kind: String, id: i64, at: String) {
        // one report per (kind,id,at)
        if self.rep.violations.iter().filter(|v| v.id == id && v.at == at && (id >= 0 || v.kind == kind)).count() >= 1 {
            return;
        }
        let inputs = self.conc_inputs(st);
        let stack = self.backtrace(st);
        self.rep.violations.push(Violation { kind, id, at, stack, inputs, covers: st.covers.clone() });
        if let Some((f, e, g)) = self.partial.take() {
            let _ = std::fs::write(&f, g(self, &e));
            self.partial = Some((f, e, g));
        }
    }

    fn run_state(&mut self, st: &mut State) -> Ctl {
        let mut since = 0u32;
        loop {
            since += 1;
            if since & 0xfff == 0 {
                if Instant::now() > self.deadline {
                    return Ctl::End(End::Incomplete("time limit".into()));
                }
            }
            if st.steps > self.max_steps {
                return Ctl::End(End::Incomplete(format!("step limit {}", self.max_steps)));
            }
            st.steps += 1;
            if let Err(c) = self.step(st) {
                return c;
            }
        }
    }
    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let prev = st.cur.blk;
        st.cur.prev = prev;
        st.cur.blk = b;
        st.cur.ip = 0;
        let f = st.cur.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.phis.len());
            for ph in &blk.phis {
                let Some((_, o)) = ph.inc.iter().find(|x| x.0 == prev) else {
                    return Err(Ctl::End(End::Error("phi edge".into())));
                };
                vals.push((ph.d, self.op(st, o)));
            }
            for (d, v) in vals {
                st.cur.regs[d as usize] = v;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ if-conversion
    /// decided without the solver?
    fn quick(&mut self, st: &State, cond: Ex) -> Option<bool> {
        if let Some(v) = self.p.cv(cond) {
            return Some(v == 1);
        }
        if let Some(&b) = st.known.get(&cond) {
            return Some(b);
        }
        let c2 = self.simp(st, cond, 6);
        if let Some(v) = self.p.cv(c2) {
            return Some(v == 1);
        }
        st.known.get(&c2).copied()
    }
    /// the condition, or its value if the path allows only one
    fn sure(&mut self, st: &mut State, c: V) -> V {
        let V::E(e) = c else { return c };
        if !self.eager {
            return c;
        }
        if let Some(b) = self.quick(st, e) {
            return V::C(b as u64);
        }
        let c2 = self.simp(st, e, 6);
        let b = self.ev(st, c2) == 1;
        let other = if b { self.p.not(c2) } else { c2 };
        let cs = self.relevant(st, other);
        if let Sat::Unsat = self.s.check(&mut self.p, &cs) {
            st.known.insert(e, b);
            self.learn(st, c2, b);
            return V::C(b as u64);
        }
        c
    }
    /// a minimum or maximum whose equal case is the only other one
    fn weakly(&mut self, st: &mut State, c: V, t: &V, f: &V, w: u8) -> V {
        let V::E(e) = c else { return c };
        if !self.eager {
            return c;
        }
        let (t, f) = (self.ex(t, w), self.ex(f, w));
        let n = self.p.n(e);
        if !matches!(n.op, Op::Slt | Op::Ult) || !((n.a, n.b) == (t, f) || (n.a, n.b) == (f, t)) {
            return c;
        }
        let r = if n.op == Op::Slt { self.p.slt(n.b, n.a) } else { self.p.ult(n.b, n.a) };
        let r = self.val(r);
        match self.sure(st, r) {
            V::C(0) => V::C(1),
            _ => c,
        }
    }
    fn simple(i: &I) -> bool {
        match i {
            I::Bin { .. } | I::Icmp { .. } | I::Cast { .. } | I::Load { .. } | I::Store { .. } | I::Gep { .. } | I::Select { .. } | I::ExtractValue { .. } | I::InsertValue { .. } | I::Copy { .. } | I::Shuffle { .. } => true,
            I::Call { callee: Callee::Intrinsic(n), normal: None, .. } => {
                let b = n.strip_prefix("llvm.").unwrap_or("").split('.').next().unwrap_or("");
                matches!(b, "umin" | "umax" | "smin" | "smax" | "abs" | "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" | "ctpop" | "ctlz" | "cttz" | "bswap" | "fshl" | "fshr" | "bitreverse" | "expect" | "assume" | "lifetime" | "experimental")
            }
            _ => false,
        }
    }
    /// next block on the arm starting at b when every instruction of b can be executed speculatively
    fn arm_next(&mut self, f: &Func, fi: u32, b: u32, depth: u32) -> Option<u32> {
        let blk = &f.blocks[b as usize];
        if blk.ins.len() > 40 {
            return None;
        }
        let (last, init) = blk.ins.split_last()?;
        if !init.iter().all(Self::simple) {
            return None;
        }
        match last {
            I::Br(n) => Some(*n),
            I::CondBr(_, x, y) if depth < 4 => self.join_of(f, fi, b, *x, *y, depth + 1),
            _ => None,
        }
    }
    fn join_of(&mut self, f: &Func, fi: u32, blk: u32, a: u32, b: u32, depth: u32) -> Option<u32> {
        if let Some(j) = self.joins.get(&(fi, blk)) {
            return *j;
        }
        let r = self.join_of2(f, fi, blk, a, b, depth);
        if depth == 0 || r.is_some() {
            self.joins.insert((fi, blk), r);
        }
        r
    }
    fn join_of2(&mut self, f: &Func, fi: u32, blk: u32, a: u32, b: u32, depth: u32) -> Option<u32> {
        if a == b {
            return None;
        }
        let mut ca = vec![a];
        while ca.len() < 6 {
            let Some(n) = self.arm_next(f, fi, *ca.last().unwrap(), depth) else { break };
            if n == blk || ca.contains(&n) {
                // a loop back to the branch itself is not a diamond
                break;
            }
            ca.push(n);
        }
        let mut cb = vec![b];
        loop {
            let l = *cb.last().unwrap();
            if ca.contains(&l) {
                return Some(l);
            }
            if cb.len() >= 6 {
                return None;
            }
            let n = self.arm_next(f, fi, l, depth)?;
            if n == blk || cb.contains(&n) {
                return None;
            }
            cb.push(n);
        }
    }
    /// Execute both arms of a conditional speculatively and merge at the join block.
    fn try_merge(&mut self, st: &mut State, cond: Ex, a: u32, b: u32) -> bool {
        let f = st.cur.f.clone();
        let Some(j) = self.join_of(&f, st.cur.fi, st.cur.blk, a, b, 0) else { return false };
        let regs = st.cur.regs.clone();
        let (blk, ip, prev) = (st.cur.blk, st.cur.ip, st.cur.prev);
        let mut mem: Option<Mem> = None;
        let ok = self.merge_at(st, &f, cond, a, b, j, None, &mut mem);
        if !ok {
            st.cur.regs = regs;
            st.cur.blk = blk;
            st.cur.ip = ip;
            st.cur.prev = prev;
            if let Some(m) = mem {
                st.mem = m;
            }
            return false;
        }
        self.rep.merges += 1;
        true
    }
    /// values the phis of block j take when entered from block `from`
    fn phi_vals(&mut self, st: &State, f: &Func, j: u32, from: u32) -> Option<Vec<V>> {
        let mut out = vec![];
        for ph in &f.blocks[j as usize].phis {
            let (_, o) = ph.inc.iter().find(|x| x.0 == from)?;
            out.push(self.op(st, o));
        }
        Some(out)
    }
    fn merge_at(&mut self, st: &mut State, f: &Rc<Func>, cond: Ex, a: u32, b: u32, j: u32, guard: Option<Ex>, mem: &mut Option<Mem>) -> bool {
        let here = st.cur.blk;
        let nc = self.p.not(cond);
        let (ga, gb) = match guard {
            None => (cond, nc),
            Some(g) => (self.p.and(g, cond), self.p.and(g, nc)),
        };
        let Some(va) = self.run_arm(st, f, here, a, j, ga, mem) else { return false };
        let Some(vb) = self.run_arm(st, f, here, b, j, gb, mem) else { return false };
        let cv = V::E(cond);
        let phis = &f.blocks[j as usize].phis;
        let mut out = vec![];
        for (i, ph) in phis.iter().enumerate() {
            let same = match (&va[i], &vb[i]) {
                (V::C(x), V::C(y)) => x == y,
                (V::E(x), V::E(y)) => x == y,
                _ => false,
            };
            if same {
                out.push(va[i].clone());
                continue;
            }
            if Self::has_ptr(&ph.ty) {
                return false;
            }
            out.push(self.select(&cv, &va[i], &vb[i], &ph.ty));
        }
        for (ph, v) in phis.iter().zip(out) {
            st.cur.regs[ph.d as usize] = v;
        }
        st.cur.prev = here;
        st.cur.blk = j;
        st.cur.ip = 0;
        true
    }
    fn has_ptr(t: &Ty) -> bool {
        match t {
            Ty::Ptr => true,
            Ty::Struct(_, ts) => ts.iter().any(|t| Self::has_ptr(t)),
            Ty::Arr(_, t) | Ty::Vec(_, t) => Self::has_ptr(t),
            Ty::Int(_) => false,
            _ => true,
        }
    }
    /// run the blocks from b up to (excluding) j; returns the values of j's phis for this arm
    fn run_arm(&mut self, st: &mut State, f: &Rc<Func>, from: u32, b: u32, j: u32, guard: Ex, mem: &mut Option<Mem>) -> Option<Vec<V>> {
        st.cur.blk = from;
        if b == j {
            return self.phi_vals(st, f, j, from);
        }
        if self.goto(st, b).is_err() {
            return None;
        }
        let mut n = 0;
        loop {
            n += 1;
            if n > 200 {
                return None;
            }
            let cb = st.cur.blk;
            match f.blocks[cb as usize].ins.get(st.cur.ip)? {
                I::Br(t) => {
                    if *t == j {
                        return self.phi_vals(st, f, j, cb);
                    }
                    if self.goto(st, *t).is_err() {
                        return None;
                    }
                }
                I::CondBr(c, x, y) => {
                    let cv = self.op(st, c);
                    let dec = match cv {
                        V::C(k) => Ok(k & 1 == 1),
                        V::E(e) => match self.quick(st, e) {
                            Some(t) => Ok(t),
                            None => Err(e),
                        },
                        _ => return None,
                    };
                    match dec {
                        Ok(t) => {
                            let t = if t { *x } else { *y };
                            if t == j {
                                return self.phi_vals(st, f, j, cb);
                            }
                            if self.goto(st, t).is_err() {
                                return None;
                            }
                        }
                        Err(e) => {
                            let nj = self.join_of(f, st.cur.fi, cb, *x, *y, 1)?;
                            if nj == j {
                                // the inner join is the outer one: its phis get merged values
                                let nc = self.p.not(e);
                                let (g1, g2) = (self.p.and(guard, e), self.p.and(guard, nc));
                                let va = self.run_arm(st, f, cb, *x, j, g1, mem)?;
                                let vb = self.run_arm(st, f, cb, *y, j, g2, mem)?;
                                let mut out = vec![];
                                for (i, ph) in f.blocks[j as usize].phis.iter().enumerate() {
                                    let same = match (&va[i], &vb[i]) {
                                        (V::C(x), V::C(y)) => x == y,
                                        (V::E(x), V::E(y)) => x == y,
                                        _ => false,
                                    };
                                    if same {
                                        out.push(va[i].clone());
                                    } else if Self::has_ptr(&ph.ty) {
                                        return None;
                                    } else {
                                        out.push(self.select(&V::E(e), &va[i], &vb[i], &ph.ty));
                                    }
                                }
                                return Some(out);
                            }
                            if !self.merge_at(st, f, e, *x, *y, nj, Some(guard), mem) {
                                return None;
                            }
                        }
                    }
                }
                i if !Self::simple(i) => return None,
                I::Load { p, .. } => {
                    if !matches!(self.op(st, p), V::C(_)) {
                        return None;
                    }
                    if self.step(st).is_err() {
                        return None;
                    }
                }
                I::Store { ty, v, p } => {
                    let pv = self.op(st, p);
                    if !matches!(pv, V::C(_)) {
                        return None;
                    }
                    let nv = self.op(st, v);
                    let old = self.load_ty(st, ty, &pv).ok()?;
                    let same = match (&nv, &old) {
                        (V::C(x), V::C(y)) => x == y,
                        (V::E(x), V::E(y)) => x == y,
                        _ => false,
                    };
                    if !same {
                        if Self::has_ptr(ty) {
                            return None;
                        }
                        if mem.is_none() {
                            *mem = Some(st.mem.clone());
                        }
                        let r = self.select(&V::E(guard), &nv, &old, ty);
                        if self.store_ty(st, ty, &pv, &r).is_err() {
                            return None;
                        }
                    }
                    st.cur.ip += 1;
                }
                _ => {
                    if self.step(st).is_err() {
                        return None;
                    }
                }
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        st.cur.regs[d as usize] = v;
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fp: *const Func = Rc::as_ptr(&st.cur.f);
        // the function is kept alive by st.cur.f / the module cache for the whole step
        let f: &Func = unsafe { &*fp };
        let blk = &f.blocks[st.cur.blk as usize];
        let Some(ins) = blk.ins.get(st.cur.ip) else {
            return Err(Ctl::End(End::Error(format!("fell off block {}", blk.name))));
        };
        match ins {
            I::Bin { op, w, lanes, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *lanes == 0 {
                    self.bin(*op, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, &mut |s, p, q| s.bin(*op, *w, p, q))
                };
                self.set(st, *d, r);
            }
            I::Icmp { p, w, lanes, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let r = if *lanes == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    self.lanes2(&x, &y, &mut |s, u, v| s.icmp(*p, *w, u, v))
                };
                self.set(st, *d, r);
            }
            I::Cast { k, from, to, d, a } => {
                let x = self.op(st, a);
                let r = self.cast(*k, from, to, &x)?;
                self.set(st, *d, r);
            }
            I::Load { d, ty, p } => {
                let a = self.op(st, p);
                let r = self.load_ty(st, ty, &a)?;
                self.set(st, *d, r);
            }
            I::Store { ty, v, p } => {
                let a = self.op(st, p);
                let x = self.op(st, v);
                self.store_ty(st, ty, &a, &x)?;
            }
            I::Gep { d, base, off, terms } => {
                let b = self.op(st, base);
                let mut acc = self.padd(&b, *off as u64);
                for (o, w, scale) in terms {
                    let v = self.op(st, o);
                    match (&acc, &v) {
                        (V::C(a), V::C(k)) => acc = V::C(a.wrapping_add((sx(*k as u128, *w) as i64 as u64).wrapping_mul(*scale))),
                        _ => {
                            let e = self.ex(&v, *w);
                            let e = self.p.sext(e, 64);
                            let c = self.p.c(*scale as u128, 64);
                            let m = self.p.mul(e, c);
                            let a = self.ex(&acc, 64);
                            let r = self.p.add(a, m);
                            acc = self.val(r);
                        }
                    }
                }
                self.set(st, *d, acc);
            }
            I::Select { d, lanes, ty, c, a, b } => {
                let (cv, x, y) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = if *lanes > 0 {
                    let (V::A(cs), V::A(xs), V::A(ys)) = (&cv, &x, &y) else { panic!() };
                    let Ty::Vec(_, et) = &**ty else { panic!() };
                    let mut out = vec![];
                    for i in 0..cs.len() {
                        out.push(self.select(&cs[i], &xs[i], &ys[i], et));
                    }
                    V::A(Rc::new(out))
                } else {
                    let cv = if ty.bits() >= 32 { self.sure(st, cv) } else { cv };
                    let cv = if matches!(**ty, Ty::Int(32..)) { self.weakly(st, cv, &x, &y, ty.bits() as u8) } else { cv };
                    self.select(&cv, &x, &y, ty)
                };
                self.set(st, *d, r);
            }
            I::Alloca { d, size, align, n } => {
                let nv = self.op(st, n);
                let k = self.conc(st, &nv)?;
                let a = st.mem.alloc(size * k, *align, Kind::Stack);
                st.cur.allocas.push(a);
                self.set(st, *d, V::C(a));
            }
            I::Copy { d, a } => {
                let v = self.op(st, a);
                self.set(st, *d, v);
            }
            I::ExtractValue { d, a, idx } => {
                let mut v = self.op(st, a);
                for i in idx {
                    let V::A(xs) = &v else { return Err(Ctl::End(End::Error("extractvalue".into()))) };
                    let x = xs[*i as usize].clone();
                    v = x;
                }
                self.set(st, *d, v);
            }
            I::InsertValue { d, ty, a, v, idx } => {
                let base = self.op(st, a);
                let x = self.op(st, v);
                let r = Self::insert(&base, ty, &x, idx);
                self.set(st, *d, r);
            }
            I::ExtractElem { d, a, i } => {
                let v = self.op(st, a);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv)?;
                let V::A(xs) = &v else { return Err(Ctl::End(End::Error("extractelement".into()))) };
                let r = xs[k as usize].clone();
                self.set(st, *d, r);
            }
            I::InsertElem { d, a, v, i } => {
                let base = self.op(st, a);
                let x = self.op(st, v);
                let iv = self.op(st, i);
                let k = self.conc(st, &iv)?;
                let V::A(xs) = &base else { return Err(Ctl::End(End::Error("insertelement".into()))) };
                let mut ys = (**xs).clone();
                ys[k as usize] = x;
                self.set(st, *d, V::A(Rc::new(ys)));
            }
            I::Shuffle { d, a, b, n, m } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (V::A(xs), V::A(ys)) = (&x, &y) else { return Err(Ctl::End(End::Error("shuffle".into()))) };
                let out: Vec<V> = m
                    .iter()
                    .map(|k| match k {
                        None => V::C(0),
                        Some(k) if k < n => xs[*k as usize].clone(),
                        Some(k) => ys[(*k - *n) as usize].clone(),
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(out)));
            }
            I::Rmw { d, op, w, p, v } => {
                let ptr = self.op(st, p);
                let x = self.op(st, v);
                let n = (*w as u64 + 7) / 8;
                let old = self.load_n(st, &ptr, n)?;
                let nw = (n * 8) as u8;
                let r = match op.as_str() {
                    "xchg" => x.clone(),
                    "add" => self.bin(Op::Add, nw, &old, &x),
                    "sub" => self.bin(Op::Sub, nw, &old, &x),
                    "and" => self.bin(Op::And, nw, &old, &x),
                    "or" => self.bin(Op::Or, nw, &old, &x),
                    "xor" => self.bin(Op::Xor, nw, &old, &x),
                    "umax" => {
                        let c = self.icmp(Pred::Ugt, nw, &old, &x);
                        self.select(&c, &old, &x, &Ty::Int(nw as u32))
                    }
                    "umin" => {
                        let c = self.icmp(Pred::Ult, nw, &old, &x);
                        self.select(&c, &old, &x, &Ty::Int(nw as u32))
                    }
                    o => return Err(Ctl::End(End::Error(format!("atomicrmw {o}")))),
                };
                self.store_n(st, &ptr, n, &r)?;
                self.set(st, *d, old);
            }
            I::CmpXchg { d, w, p, c, n } => {
                let ptr = self.op(st, p);
                let cv = self.op(st, c);
                let nv = self.op(st, n);
                let by = (*w as u64 + 7) / 8;
                let old = self.load_n(st, &ptr, by)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &cv);
                let ok = self.decide_v(st, &eq)?;
                if ok {
                    self.store_n(st, &ptr, by, &nv)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::FBin { op, dbl, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (V::C(x), V::C(y)) = (x, y) else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let r = if *dbl {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    })
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op {
                        FOp::Add => x + y,
                        FOp::Sub => x - y,
                        FOp::Mul => x * y,
                        FOp::Div => x / y,
                        FOp::Rem => x % y,
                    })
                    .to_bits() as u64
                };
                self.set(st, *d, V::C(r));
            }
            I::FNeg { dbl, d, a } => {
                let V::C(x) = self.op(st, a) else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let r = if *dbl { (-f64::from_bits(x)).to_bits() } else { (-f32::from_bits(x as u32)).to_bits() as u64 };
                self.set(st, *d, V::C(r));
            }
            I::Fcmp { p, dbl, d, a, b } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let (V::C(x), V::C(y)) = (x, y) else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let (x, y) = if *dbl { (f64::from_bits(x), f64::from_bits(y)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "true" => true,
                    _ => false,
                };
                self.set(st, *d, V::C(r as u64));
            }
            I::Br(b) => {
                let b = *b;
                return self.goto(st, b);
            }
            I::CondBr(c, a, b) => {
                let cv = self.op(st, c);
                let t = match cv {
                    V::C(x) => x & 1 == 1,
                    V::E(e) => {
                        if self.merge && !matches!(c, Opd::C(_)) {
                            self.sure(st, V::E(e));
                            if let Some(t) = self.quick(st, e) {
                                let n = if t { *a } else { *b };
                                return self.goto(st, n);
                            }
                            if self.try_merge(st, e, *a, *b) {
                                return Ok(());
                            }
                        }
                        let r = self.decide(st, e);
                        if let (Err(Ctl::Fork(..)), Some(pf)) = (&r, self.prof.as_mut()) {
                            *pf.entry((st.cur.fi, st.cur.blk)).or_default() += 1;
                        }
                        r?
                    }
                    _ => return Err(Ctl::End(End::Error("condbr".into()))),
                };
                let n = if t { *a } else { *b };
                return self.goto(st, n);
            }
            I::Switch(v, w, cs, def) => {
                let x = self.op(st, v);
                match x {
                    V::C(k) => {
                        let n = cs.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*def);
                        return self.goto(st, n);
                    }
                    V::E(e) => {
                        let e = self.simp(st, e, 8);
                        if let Some(k) = self.p.cv(e) {
                            let n = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                            return self.goto(st, n);
                        }
                        // follow the model's case; fork on membership
                        let k = self.ev(st, e);
                        let same_target = |t: u32| cs.iter().filter(move |c| c.1 == t).map(|c| c.0).collect::<Vec<_>>();
                        if let Some(c) = cs.iter().find(|c| c.0 == k) {
                            let all = same_target(c.1);
                            let mut cond = self.p.f();
                            for kk in all {
                                let kc = self.p.c(kk, *w);
                                let q = self.p.eq(e, kc);
                                cond = self.p.or(cond, q);
                            }
                            // targets that are also default are treated as a plain case
                            let r = self.decide(st, cond);
                            if let (Err(Ctl::Fork(..)), Some(pf)) = (&r, self.prof.as_mut()) {
                                *pf.entry((st.cur.fi, st.cur.blk)).or_default() += 1;
                            }
                            if r? {
                                return self.goto(st, c.1);
                            }
                            return Err(Ctl::End(End::Error("switch: model case infeasible".into())));
                        }
                        // default
                        let mut cond = self.p.t();
                        for c in cs.iter() {
                            let kc = self.p.c(c.0, *w);
                            let q = self.p.ne(e, kc);
                            cond = self.p.and(cond, q);
                        }
                        if self.decide(st, cond)? {
                            return self.goto(st, *def);
                        }
                        return Err(Ctl::End(End::Error("switch: default infeasible".into())));
                    }
                    _ => return Err(Ctl::End(End::Error("switch agg".into()))),
                }
            }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| self.op(st, o));
                for a in std::mem::take(&mut st.cur.allocas) {
                    st.mem.objs.remove(&a);
                }
                let Some(fr) = st.stack.pop() else {
                    return Err(Ctl::End(End::Done));
                };
                let dst = st.cur.ret_dst;
                let normal = st.cur.normal;
                st.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                if let (Some(d), Some(v)) = (dst, rv) {
                    st.cur.regs[d as usize] = v;
                }
                if let Some(n) = normal {
                    return self.goto(st, n);
                }
                st.cur.ip += 1;
                return Ok(());
            }
            I::Unreachable => {
                return Err(Ctl::End(End::Violation { kind: "unreachable code reached (undefined behaviour)".into(), id: -3, at: self.where_(st) }));
            }
            I::Unsupported(s) => return Err(Ctl::End(End::Error(format!("unsupported instruction {s}")))),
            I::Call { d, callee, args, ret, normal } => {
                return self.call(st, *d, callee, args, ret, *normal);
            }
        }
        st.cur.ip += 1;
        Ok(())
    }
    fn insert(base: &V, ty: &Ty, x: &V, idx: &[u32]) -> V {
        if idx.is_empty() {
            return x.clone();
        }
        let mut ys: Vec<V> = match base {
            V::A(xs) => (**xs).clone(),
            _ => {
                let n = match ty {
                    Ty::Struct(_, ts) => ts.len(),
                    Ty::Arr(n, _) => *n as usize,
                    _ => 0,
                };
                vec![V::C(0); n]
            }
        };
        let (_, t) = ty.field_off(idx[0] as u64);
        ys[idx[0] as usize] = Self::insert(&ys[idx[0] as usize], &t, x, &idx[1..]);
        V::A(Rc::new(ys))
    }
    fn after(&mut self, st: &mut State, d: Option<u32>, v: Option<V>, normal: Option<u32>) -> R<()> {
        if let (Some(d), Some(v)) = (d, v) {
            st.cur.regs[d as usize] = v;
        }
        if let Some(n) = normal {
            return self.goto(st, n);
        }
        st.cur.ip += 1;
        Ok(())
    }
    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &Callee, args: &[(Rc<Ty>, Opd, u64)], ret: &Rc<Ty>, normal: Option<u32>) -> R<()> {
        let fi = match callee {
            Callee::Intrinsic(n) => {
                let mut av = Vec::with_capacity(args.len());
                for a in args {
                    av.push(self.op(st, &a.1));
                }
                let v = self.intrinsic(st, n, &av, args, ret)?;
                return self.after(st, d, v, normal);
            }
            Callee::Asm(s) => {
                // compiler barriers and cpuid
                let v = match &**ret {
                    Ty::Void => None,
                    t => Some(zero_of(t)),
                };
                let s2 = s.trim();
                if s2.is_empty() && args.len() == 1 && d.is_some() && !ret.is_agg() {
                    // value barrier: identity
                    let v = self.op(st, &args[0].1);
                    return self.after(st, d, Some(v), normal);
                }
                if !s2.is_empty() && !s2.contains("cpuid") && !s2.contains("xgetbv") && !s2.contains("pause") {
                    return Err(Ctl::End(End::Error(format!("inline asm {s2}"))));
                }
                return self.after(st, d, v, normal);
            }
            Callee::Fn(i) => *i,
            Callee::Dyn(o) => {
                let v = self.op(st, o);
                let a = self.conc(st, &v)?;
                if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                    return self.memerr(st, "call", a, 0);
                }
                ((a - FN_BASE) / 16) as u32
            }
        };
        if let Some(&b) = self.builtins.get(&fi) {
            let mut av = Vec::with_capacity(args.len());
            for a in args {
                av.push(self.op(st, &a.1));
            }
            let v = self.builtin(st, b, fi, &av, ret)?;
            return self.after(st, d, v, normal);
        }
        let f = match self.m.func(fi) {
            Ok(f) => f,
            Err(e) => return Err(Ctl::End(End::Error(e))),
        };
        if self.seen_fn.insert(fi) {
            self.rep.funcs.insert(Self::demangle(&f.name));
        }
        if st.stack.len() > 2000 {
            return Err(Ctl::End(End::Incomplete("call depth".into())));
        }
        let mut regs = vec![V::C(0); f.nregs as usize];
        let mut allocas = vec![];
        for (i, p) in f.params.iter().enumerate() {
            let Some(a) = args.get(i) else { break };
            let mut v = self.op(st, &a.1);
            if a.2 > 0 {
                let n = a.2;
                let na = st.mem.alloc(n, 16, Kind::Stack);
                self.memcpy(st, &V::C(na), &v, n)?;
                allocas.push(na);
                v = V::C(na);
            }
            regs[*p as usize] = v;
        }
        if self.trace {
            eprintln!("{}{}", " ".repeat(st.stack.len()), Self::demangle(&f.name));
        }
        let nf = Frame { f, fi, blk: 0, ip: 0, prev: u32::MAX, regs, ret_dst: d, normal, allocas, stack_mark: 0 };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        Ok(())
    }

    fn fresh(&mut self, st: &mut State, w: u8) -> Ex {
        let e = self.p.var(st.nvars, w);
        st.nvars += 1;
        e
    }
    fn cstr(&mut self, st: &mut State, a: u64, n: u64) -> String {
        let mut s = vec![];
        for i in 0..n.min(300) {
            match self.load_n(st, &V::C(a + i), 1) {
                Ok(V::C(b)) => s.push(b as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&s).to_string()
    }
    fn panic_loc(&mut self, st: &mut State, args: &[V]) -> String {
        let Some(V::C(l)) = args.last() else { return "?".into() };
        let (Ok(V::C(p)), Ok(V::C(n)), Ok(V::C(line)), Ok(V::C(col))) = (self.load_n(st, &V::C(*l), 8), self.load_n(st, &V::C(l + 8), 8), self.load_n(st, &V::C(l + 16), 4), self.load_n(st, &V::C(l + 20), 4)) else {
            return "?".into();
        };
        let n = n.min(300);
        let f = self.cstr(st, p, n);
        format!("{}:{}:{}", f.trim_end_matches('\0'), line, col)
    }
    fn alloc_size(&mut self, st: &mut State, v: &V) -> R<u64> {
        // a request that can exceed the limit is reported, not enumerated
        if let V::E(e) = v {
            let e = self.simp(st, *e, 8);
            if self.p.cv(e).is_none() {
                let lim = self.p.c(st.alloc_limit as u128, 64);
                let big = self.p.ult(lim, e);
                if self.decide(st, big)? {
                    return Err(Ctl::End(End::Violation { kind: "allocation larger than the limit".into(), id: -4, at: self.where_(st) }));
                }
            }
        }
        let n = self.conc(st, v)?;
        if n > st.alloc_limit {
            return Err(Ctl::End(End::Violation { kind: format!("allocation of {n} bytes exceeds the limit"), id: -4, at: self.where_(st) }));
        }
        Ok(n)
    }
    fn builtin(&mut self, st: &mut State, b: B, fi: u32, a: &[V], ret: &Ty) -> R<Option<V>> {
        Ok(match b {
            B::Malloc => {
                let n = self.alloc_size(st, &a[0])?;
                Some(V::C(st.mem.alloc(n, 16, Kind::Heap)))
            }
            B::Calloc => {
                let w = self.bin(Op::Mul, 64, &a[0], &a[1]);
                let n = self.alloc_size(st, &w)?;
                Some(V::C(st.mem.alloc(n, 16, Kind::Heap)))
            }
            B::Realloc => {
                let n = self.alloc_size(st, &a[1])?;
                let p = self.conc(st, &a[0])?;
                if p == 0 {
                    return Ok(Some(V::C(st.mem.alloc(n, 16, Kind::Heap))));
                }
                let Some(o) = st.mem.find(p).cloned() else { return self.memerr(st, "realloc", p, 0) };
                if o.base != p || o.kind != Kind::Heap {
                    return self.memerr(st, "realloc", p, 0);
                }
                let na = st.mem.alloc(n, 16, Kind::Heap);
                let k = n.min(o.size);
                drop(o);
                self.memcpy(st, &V::C(na), &V::C(p), k)?;
                st.mem.objs.remove(&p);
                Some(V::C(na))
            }
            B::Free => {
                let p = self.conc(st, &a[0])?;
                if p != 0 {
                    match st.mem.objs.get(&p) {
                        Some(o) if o.kind == Kind::Heap => {
                            st.mem.objs.remove(&p);
                        }
                        _ => return self.memerr(st, "free", p, 0),
                    }
                }
                None
            }
            B::PosixMemalign => {
                let al = self.conc(st, &a[1])?;
                let n = self.alloc_size(st, &a[2])?;
                let na = st.mem.alloc(n, al, Kind::Heap);
                self.store_n(st, &a[0], 8, &V::C(na))?;
                Some(V::C(0))
            }
            B::Memcpy => {
                let n = self.conc(st, &a[2])?;
                self.memcpy(st, &a[0], &a[1], n)?;
                Some(a[0].clone())
            }
            B::Memset => {
                let n = self.conc(st, &a[2])?;
                let x = match &a[1] {
                    V::C(x) => V::C(x & 0xff),
                    V::E(e) => {
                        let e = self.p.extract(*e, 0, 8);
                        self.val(e)
                    }
                    _ => panic!(),
                };
                self.memset(st, &a[0], &x, n)?;
                Some(a[0].clone())
            }
            B::Bcmp => {
                let n = self.conc(st, &a[2])?;
                let mut acc = self.p.t();
                let mut i = 0;
                while i < n {
                    let k = (n - i).min(8);
                    let pa = self.padd(&a[0], i);
                    let pb = self.padd(&a[1], i);
                    let x = self.load_n(st, &pa, k)?;
                    let y = self.load_n(st, &pb, k)?;
                    let w = (8 * k) as u8;
                    let (x, y) = (self.ex(&x, w), self.ex(&y, w));
                    let e = self.p.eq(x, y);
                    acc = self.p.and(acc, e);
                    if self.p.cv(acc) == Some(0) {
                        break;
                    }
                    i += k;
                }
                let na = self.p.not(acc);
                let r = self.p.zext(na, 32);
                Some(self.val(r))
            }
            B::Memcmp => {
                let n = self.conc(st, &a[2])?;
                let mut bs = vec![];
                for i in 0..n {
                    let pa = self.padd(&a[0], i);
                    let pb = self.padd(&a[1], i);
                    let x = self.read_byte_ex(st, &pa)?;
                    let y = self.read_byte_ex(st, &pb)?;
                    bs.push((x, y));
                    if let (Some(p), Some(q)) = (self.p.cv(x), self.p.cv(y)) {
                        if p != q {
                            break;
                        }
                    }
                }
                // chunk equal prefixes: build from the end
                let mut acc = self.p.c(0, 32);
                for (x, y) in bs.into_iter().rev() {
                    let e = self.p.eq(x, y);
                    if self.p.cv(e) == Some(1) {
                        continue;
                    }
                    let lt = self.p.ult(x, y);
                    let m1 = self.p.c(u32::MAX as u128, 32);
                    let p1 = self.p.c(1, 32);
                    let d = self.p.ite(lt, m1, p1);
                    acc = self.p.ite(e, acc, d);
                }
                Some(self.val(acc))
            }
            B::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0u64;
                loop {
                    let v = self.load_n(st, &V::C(p + n), 1)?;
                    if self.conc(st, &v)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(V::C(n))
            }
            B::Abort => return Err(Ctl::End(End::Violation { kind: "abort".into(), id: -1, at: self.where_(st) })),
            B::Zero | B::NopRet0 => match ret {
                Ty::Void => None,
                _ => Some(V::C(0)),
            },
            B::One => Some(V::C(0)),
            B::Errno => {
                if self.errno == 0 {
                    self.errno = 0xE000_0000;
                }
                if st.mem.find(self.errno).is_none() {
                    st.mem.objs.insert(self.errno, Rc::new(Obj::new(self.errno, 8, Kind::Global)));
                }
                Some(V::C(self.errno))
            }
            B::Syscall => {
                let n = self.conc(st, &a[0])?;
                match n {
                    318 => {
                        let len = self.conc(st, &a[2])?;
                        for i in 0..len {
                            let p = self.padd(&a[1], i);
                            self.store_n(st, &p, 1, &V::C((i * 37 + 11) & 0xff))?;
                        }
                        Some(V::C(len))
                    }
                    202 => Some(V::C(0)),
                    _ => return Err(Ctl::End(End::Error(format!("syscall {n}")))),
                }
            }
            B::GetRandom => {
                let len = self.conc(st, &a[1])?;
                for i in 0..len {
                    let p = self.padd(&a[0], i);
                    self.store_n(st, &p, 1, &V::C((i * 37 + 11) & 0xff))?;
                }
                Some(V::C(len))
            }
            B::ClockGettime => {
                self.store_n(st, &a[1], 8, &V::C(1_800_000_000))?;
                let p = self.padd(&a[1], 8);
                self.store_n(st, &p, 8, &V::C(0))?;
                Some(V::C(0))
            }
            B::Panic => {
                let at = self.panic_loc(st, a);
                return Err(Ctl::End(End::Violation { kind: "panic".into(), id: -1, at }));
            }
            B::PanicNoLoc => {
                return Err(Ctl::End(End::Violation { kind: format!("panic ({})", Self::demangle(&self.m.fns[fi as usize].name)), id: -1, at: self.where_(st) }));
            }
            B::AllocErr => return Err(Ctl::End(End::Violation { kind: "allocation failure".into(), id: -4, at: self.where_(st) })),
            B::Format => {
                // fmt::format: returns an empty String (formatting is not the subject)
                self.store_n(st, &a[0], 8, &V::C(0))?;
                let p = self.padd(&a[0], 8);
                self.store_n(st, &p, 8, &V::C(1))?;
                let p = self.padd(&a[0], 16);
                self.store_n(st, &p, 8, &V::C(0))?;
                None
            }
            B::SxVal(w) => {
                let v = if let Some(cs) = &self.concrete {
                    let k = st.inputs.len();
                    let v = cs.get(k).map(|s| u64::from_str_radix(s.split(':').nth(1).unwrap(), 16).unwrap()).unwrap_or(0);
                    let c = self.p.c(v as u128, w);
                    st.inputs.push(Input::Val(c, w));
                    V::C(v)
                } else {
                    let e = self.fresh(st, w);
                    st.inputs.push(Input::Val(e, w));
                    V::E(e)
                };
                Some(v)
            }
            B::SxBytes => {
                let n = self.conc(st, &a[1])?;
                let mut bs = vec![];
                let cv: Option<Vec<u8>> = self.concrete.as_ref().map(|cs| {
                    let s = cs.get(st.inputs.len()).cloned().unwrap_or_default();
                    let h = s.trim_start_matches("b:").to_string();
                    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
                });
                for i in 0..n {
                    let e = match &cv {
                        Some(v) => self.p.c(v.get(i as usize).copied().unwrap_or(0) as u128, 8),
                        None => self.fresh(st, 8),
                    };
                    let p = self.padd(&a[0], i);
                    let v = self.val(e);
                    self.store_n(st, &p, 1, &v)?;
                    bs.push(e);
                }
                st.inputs.push(Input::Bytes(bs));
                None
            }
            B::SxAssume => {
                let e = match &a[0] {
                    V::C(x) => self.p.c((*x & 1) as u128, 1),
                    V::E(e) => {
                        let e = *e;
                        if self.p.w(e) > 1 {
                            self.p.extract(e, 0, 1)
                        } else {
                            e
                        }
                    }
                    _ => panic!(),
                };
                let e = self.simp(st, e, 6);
                match self.p.cv(e) {
                    Some(1) => return Ok(None),
                    Some(_) => return Err(Ctl::End(End::Infeasible)),
                    None => {}
                }
                if st.known.get(&e) == Some(&true) {
                    return Ok(None);
                }
                if self.ev(st, e) != 1 {
                    let cs = self.relevant(st, e);
                    match self.s.check(&mut self.p, &cs) {
                        Sat::Sat(m) => self.apply_model(st, &m),
                        Sat::Unsat => return Err(Ctl::End(End::Infeasible)),
                        Sat::Unknown(w) => return Err(Ctl::End(End::Incomplete(format!("assume: {w}")))),
                    }
                }
                self.add_pc(st, e);
                None
            }
            B::SxCheck => {
                self.rep.checks += 1;
                let id = self.conc(st, &a[1])? as i64;
                let e = match &a[0] {
                    V::C(x) => self.p.c((*x & 1) as u128, 1),
                    V::E(e) => {
                        let e = *e;
                        if self.p.w(e) > 1 {
                            self.p.extract(e, 0, 1)
                        } else {
                            e
                        }
                    }
                    _ => panic!(),
                };
                if self.p.cv(e) == Some(1) || st.known.get(&e) == Some(&true) {
                    self.rep.checks_const += 1;
                    return Ok(None);
                }
                let e = self.simp(st, e, 8);
                if self.p.cv(e) == Some(1) || st.known.get(&e) == Some(&true) {
                    self.rep.checks_const += 1;
                    return Ok(None);
                }
                if self.p.cv(e) == Some(0) || st.known.get(&e) == Some(&false) {
                    let at = self.where_(st);
                    return Err(Ctl::End(End::Violation { kind: "check failed".into(), id, at }));
                }
                self.rep.checks_solver += 1;
                if std::env::var("SX_TERMS").is_ok() {
                    eprintln!("CHECK {id} size {} {}", self.p.size[e as usize], self.p.show(e, 14));
                }
                let ne = self.p.not(e);
                let bad: Option<Vec<(u32, u128)>> = if self.ev(st, ne) == 1 {
                    Some(vec![])
                } else {
                    let cs = self.relevant(st, ne);
                    match self.s.check(&mut self.p, &cs) {
                        Sat::Sat(m) => Some(m),
                        Sat::Unsat => None,
                        Sat::Unknown(w) => return Err(Ctl::End(End::Incomplete(format!("check {id}: {w}")))),
                    }
                };
                if let Some(m) = bad {
                    let mut s2 = st.clone();
                    self.apply_model(&mut s2, &m);
                    let at = self.where_(st);
                    self.violation(&s2, "check failed".into(), id, at);
                    // continue on the passing side if there is one
                    if self.ev(st, e) != 1 {
                        if self.p.size[e as usize] > 100_000 {
                            // hash circuits: do not search for the other side
                            return Err(Ctl::End(End::Infeasible));
                        }
                        let cs = self.relevant(st, e);
                        match self.s.check(&mut self.p, &cs) {
                            Sat::Sat(m) => self.apply_model(st, &m),
                            _ => return Err(Ctl::End(End::Infeasible)),
                        }
                    }
                    self.add_pc(st, e);
                } else {
                    self.learn(st, e, true);
                }
                None
            }
            B::SxCover => {
                let id = self.conc(st, &a[0])? as u32;
                st.covers.push(id);
                None
            }
            B::SxObs => {
                st.obs.push((a[0].clone(), 64));
                None
            }
            B::SxConc => {
                let v = self.conc(st, &a[0])?;
                Some(V::C(v))
            }
            B::SxAllocLimit => {
                st.alloc_limit = self.conc(st, &a[0])?;
                None
            }
            B::SxSelect => {
                let c = match &a[0] {
                    V::E(e) if self.p.w(*e) > 1 => {
                        let e = self.p.extract(*e, 0, 1);
                        self.val(e)
                    }
                    x => x.clone(),
                };
                Some(self.select(&c, &a[1], &a[2], ret))
            }
            B::SxFail => {
                let id = self.conc(st, &a[0])? as i64;
                let at = self.where_(st);
                return Err(Ctl::End(End::Violation { kind: "check failed".into(), id, at }));
            }
            B::SxPrint => {
                for v in a {
                    match v {
                        V::C(x) => eprint!("{x:#x} "),
                        V::E(e) => eprint!("{} ", self.p.show(*e, 5)),
                        _ => {}
                    }
                }
                eprintln!();
                None
            }
            B::SxTier => Some(V::C(self.tier as u64)),
            B::SxIsSym => Some(V::C(matches!(&a[0], V::E(_)) as u64)),
            B::SxUf => {
                // sx_uf(id, in_ptr, in_len, out_ptr, out_len): uninterpreted, injective per id
                let id = self.conc(st, &a[0])? as u32;
                let n = self.conc(st, &a[2])?;
                let on = self.conc(st, &a[4])?;
                let mut ins = vec![];
                for i in 0..n {
                    let p = self.padd(&a[1], i);
                    let b = self.read_byte_ex(st, &p)?;
                    ins.push(b);
                }
                let mut outs: Option<Vec<Ex>> = None;
                for (k, i2, o2) in st.ufs.iter() {
                    if *k == id && *i2 == ins {
                        outs = Some(o2.clone());
                    }
                }
                let outs = match outs {
                    Some(o) => o,
                    None => {
                        let cv: Option<Vec<u8>> = self.concrete.as_ref().map(|cs| {
                            let s = cs.get(st.inputs.len()).cloned().unwrap_or_default();
                            let h = s.trim_start_matches("b:").to_string();
                            (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
                        });
                        let mut o = vec![];
                        for i in 0..on {
                            let e = match &cv {
                                Some(v) => self.p.c(v.get(i as usize).copied().unwrap_or(0) as u128, 8),
                                None => self.fresh(st, 8),
                            };
                            o.push(e);
                        }
                        st.inputs.push(Input::Bytes(o.clone()));
                        // functional + injective consistency with earlier applications
                        let prev = st.ufs.clone();
                        for (k, i2, o2) in prev.iter() {
                            if *k != id {
                                continue;
                            }
                            let ie = if i2.len() == ins.len() {
                                let mut acc = self.p.t();
                                for (x, y) in i2.iter().zip(&ins) {
                                    let e = self.p.eq(*x, *y);
                                    acc = self.p.and(acc, e);
                                }
                                acc
                            } else {
                                self.p.f()
                            };
                            let mut oe = self.p.t();
                            for (x, y) in o2.iter().zip(&o) {
                                let e = self.p.eq(*x, *y);
                                oe = self.p.and(oe, e);
                            }
                            let c = self.p.eq(ie, oe);
                            if self.ev(st, c) != 1 {
                                let cs = self.relevant(st, c);
                                match self.s.check(&mut self.p, &cs) {
                                    Sat::Sat(m) => self.apply_model(st, &m),
                                    Sat::Unsat => return Err(Ctl::End(End::Infeasible)),
                                    Sat::Unknown(w) => return Err(Ctl::End(End::Incomplete(format!("uf: {w}")))),
                                }
                            }
                            self.add_pc(st, c);
                        }
                        Rc::make_mut(&mut st.ufs).push((id, ins, o.clone()));
                        o
                    }
                };
                for (i, e) in outs.iter().enumerate() {
                    let p = self.padd(&a[3], i as u64);
                    let v = self.val(*e);
                    self.store_n(st, &p, 1, &v)?;
                }
                None
            }
        })
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], args: &[(Rc<Ty>, Opd, u64)], ret: &Rc<Ty>) -> R<Option<V>> {
        let base = n.strip_prefix("llvm.").unwrap();
        let parts: Vec<&str> = base.split('.').collect();
        // element-wise vector intrinsics
        if let Ty::Vec(k, et) = &**ret {
            if matches!(parts[0], "umin" | "umax" | "smin" | "smax" | "ctpop" | "ctlz" | "cttz" | "bswap" | "fshl" | "fshr" | "abs" | "bitreverse") || base.starts_with("uadd.sat") || base.starts_with("usub.sat") {
                let mut out = vec![];
                for i in 0..*k as usize {
                    let ea: Vec<V> = a
                        .iter()
                        .map(|x| match x {
                            V::A(xs) => xs[i].clone(),
                            y => y.clone(),
                        })
                        .collect();
                    let eargs: Vec<(Rc<Ty>, Opd, u64)> = args
                        .iter()
                        .map(|x| match &*x.0 {
                            Ty::Vec(_, t) => (t.clone(), Opd::C(0), 0),
                            _ => (x.0.clone(), Opd::C(0), 0),
                        })
                        .collect();
                    out.push(self.intrinsic(st, n, &ea, &eargs, et)?.unwrap());
                }
                return Ok(Some(V::A(Rc::new(out))));
            }
        }
        let w = args.first().map(|x| x.0.bits()).unwrap_or(0) as u8;
        let r = match parts[0] {
            "lifetime" | "assume" | "experimental" | "dbg" | "donothing" | "prefetch" | "invariant" | "var" | "pseudoprobe" | "fake" => None,
            "x86" => match base {
                _ if base.contains("pause") => None,
                _ => return Err(Ctl::End(End::Error(format!("intrinsic {n}")))),
            },
            "memcpy" | "memmove" => {
                let k = self.conc(st, &a[2])?;
                self.memcpy(st, &a[0], &a[1], k)?;
                None
            }
            "memset" => {
                let k = self.conc(st, &a[2])?;
                self.memset(st, &a[0], &a[1], k)?;
                None
            }
            "threadlocal" => Some(a[0].clone()),
            "expect" => Some(a[0].clone()),
            "is" => Some(V::C(0)), // is.constant
            "trap" | "ubsantrap" => return Err(Ctl::End(End::Violation { kind: "trap".into(), id: -1, at: self.where_(st) })),
            "umin" | "umax" | "smin" | "smax" => {
                let p = match parts[0] {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(p, w, &a[0], &a[1]);
                let c = if w >= 32 { self.sure(st, c) } else { c };
                let c = self.weakly(st, c, &a[0], &a[1], w);
                Some(self.select(&c, &a[0], &a[1], &Ty::Int(w as u32)))
            }
            "abs" => {
                let z = if w <= 64 { V::C(0) } else { V::E(self.p.c(0, w)) };
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                let neg = self.bin(Op::Sub, w, &z, &a[0]);
                Some(self.select(&c, &neg, &a[0], &Ty::Int(w as u32)))
            }
            "uadd" | "usub" | "sadd" | "ssub" | "umul" | "smul" => {
                if parts[1] == "sat" {
                    let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                    let r = match parts[0] {
                        "uadd" => {
                            let s = self.p.add(x, y);
                            let o = self.p.ult(s, x);
                            let o = self.val(o);
                            let o = self.sure(st, o);
                            let o = self.ex(&o, 1);
                            let m = self.p.c(mask(w), w);
                            self.p.ite(o, m, s)
                        }
                        "usub" => {
                            let s = self.p.sub(x, y);
                            let o = self.p.ult(x, y);
                            let o = self.val(o);
                            let o = self.sure(st, o);
                            let o = self.ex(&o, 1);
                            let m = self.p.c(0, w);
                            self.p.ite(o, m, s)
                        }
                        _ => {
                            let (s, o) = self.ovf(parts[0], w, x, y)?;
                            let neg = self.p.extract(x, w as u32 - 1, 1);
                            let mn = self.p.c(1u128 << (w - 1), w);
                            let mx = self.p.c((1u128 << (w - 1)) - 1, w);
                            let sat = self.p.ite(neg, mn, mx);
                            self.p.ite(o, sat, s)
                        }
                    };
                    Some(self.val(r))
                } else {
                    let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                    let (s, o) = self.ovf(parts[0], w, x, y)?;
                    let (s, o) = (self.val(s), self.val(o));
                    Some(V::A(Rc::new(vec![s, o])))
                }
            }
            "ctpop" => {
                if let V::C(x) = &a[0] {
                    return Ok(Some(V::C(x.count_ones() as u64)));
                }
                let x = self.ex(&a[0], w);
                let r = self.popcount(x);
                Some(self.val(r))
            }
            "ctlz" | "cttz" => {
                let x = self.ex(&a[0], w);
                let mut acc = self.p.c(w as u128, w);
                for i in 0..w {
                    // ctlz: highest set bit wins -> build from low to high
                    let bit = if parts[0] == "ctlz" { i } else { w - 1 - i };
                    let b = self.p.extract(x, bit as u32, 1);
                    let v = if parts[0] == "ctlz" { w - 1 - bit } else { bit };
                    let k = self.p.c(v as u128, w);
                    acc = self.p.ite(b, k, acc);
                }
                Some(self.val(acc))
            }
            "bswap" => {
                let x = self.ex(&a[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w / 8 {
                    let b = self.p.extract(x, 8 * i as u32, 8);
                    acc = Some(match acc {
                        None => b,
                        Some(q) => self.p.concat(q, b),
                    });
                }
                Some(self.val(acc.unwrap()))
            }
            "bitreverse" => {
                let x = self.ex(&a[0], w);
                let mut acc: Option<Ex> = None;
                for i in 0..w {
                    let b = self.p.extract(x, i as u32, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(q) => self.p.concat(q, b),
                    });
                }
                Some(self.val(acc.unwrap()))
            }
            "fshl" | "fshr" => {
                let (x, y, z) = (self.ex(&a[0], w), self.ex(&a[1], w), self.ex(&a[2], w));
                let wc = self.p.c(w as u128, w);
                let s = self.p.urem(z, wc);
                let inv = self.p.sub(wc, s);
                let (hi, lo) = if parts[0] == "fshl" {
                    (self.p.shl(x, s), self.p.lshr(y, inv))
                } else {
                    (self.p.shl(x, inv), self.p.lshr(y, s))
                };
                let r = self.p.or(hi, lo);
                Some(self.val(r))
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits() as u8;
                let (lt, gt) = if parts[0] == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1]);
                let g = self.icmp(gt, w, &a[0], &a[1]);
                let (l, g) = (self.ex(&l, 1), self.ex(&g, 1));
                let m1 = self.p.c(mask(rw), rw);
                let p1 = self.p.c(1, rw);
                let z = self.p.c(0, rw);
                let t = self.p.ite(g, p1, z);
                let r = self.p.ite(l, m1, t);
                Some(self.val(r))
            }
            "vector" if parts[1] == "reduce" => {
                let V::A(xs) = &a[0] else { return Err(Ctl::End(End::Error("reduce".into()))) };
                let Ty::Vec(_, et) = &*args[0].0 else { return Err(Ctl::End(End::Error("reduce".into()))) };
                let ew = et.bits() as u8;
                let mut acc = xs[0].clone();
                for x in &xs[1..] {
                    acc = match parts[2] {
                        "add" => self.bin(Op::Add, ew, &acc, x),
                        "mul" => self.bin(Op::Mul, ew, &acc, x),
                        "and" => self.bin(Op::And, ew, &acc, x),
                        "or" => self.bin(Op::Or, ew, &acc, x),
                        "xor" => self.bin(Op::Xor, ew, &acc, x),
                        "umax" | "umin" | "smax" | "smin" => {
                            let p = match parts[2] {
                                "umax" => Pred::Ugt,
                                "umin" => Pred::Ult,
                                "smax" => Pred::Sgt,
                                _ => Pred::Slt,
                            };
                            let c = self.icmp(p, ew, &acc, x);
                            self.select(&c, &acc, x, et)
                        }
                        o => return Err(Ctl::End(End::Error(format!("reduce {o}")))),
                    };
                }
                Some(acc)
            }
            "ptrmask" => Some(self.bin(Op::And, 64, &a[0], &a[1])),
            "load" if parts.get(1) == Some(&"relative") => return Err(Ctl::End(End::Error(format!("intrinsic {n}")))),
            "floor" | "ceil" | "trunc" | "sqrt" | "fabs" | "round" | "rint" => {
                let V::C(x) = &a[0] else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let f = f64::from_bits(*x);
                if **ret != Ty::Double {
                    return Err(Ctl::End(End::Error(format!("intrinsic {n}"))));
                }
                let r = match parts[0] {
                    "floor" => f.floor(),
                    "ceil" => f.ceil(),
                    "trunc" => f.trunc(),
                    "sqrt" => f.sqrt(),
                    "fabs" => f.abs(),
                    _ => f.round(),
                };
                Some(V::C(r.to_bits()))
            }
            "fptoui" | "fptosi" => {
                let V::C(x) = &a[0] else { return Err(Ctl::End(End::Incomplete("symbolic floating point".into()))) };
                let f = if *args[0].0 == Ty::Double { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 };
                let rw = ret.bits() as u8;
                let v = if parts[0] == "fptoui" { (f as u64).min(mask(rw) as u64) } else { (f as i64) as u64 & mask(rw) as u64 };
                Some(V::C(v))
            }
            _ => return Err(Ctl::End(End::Error(format!("intrinsic {n}")))),
        };
        Ok(r)
    }
    fn popcount(&mut self, x: Ex) -> Ex {
        let w = self.p.w(x);
        let mut acc = self.p.c(0, w);
        for i in 0..w {
            let b = self.p.extract(x, i as u32, 1);
            let z = self.p.zext(b, w);
            // plain adder chain
            acc = self.p.add(acc, z);
        }
        acc
    }
    fn ovf(&mut self, k: &str, w: u8, x: Ex, y: Ex) -> R<(Ex, Ex)> {
        let wide = w as u32 * 2 <= 128;
        Ok(match k {
            "uadd" => {
                let s = self.p.add(x, y);
                // decide by ranges first
                let (rx, ry) = (self.p.range[x as usize], self.p.range[y as usize]);
                let o = match rx.1.checked_add(ry.1) {
                    Some(h) if h <= mask(w) => self.p.f(),
                    _ => {
                        if let Some(k) = self.p.cv(y) {
                            // x + k overflows iff x > max - k
                            let lim = self.p.c(mask(w) - k, w);
                            self.p.ult(lim, x)
                        } else {
                            self.p.ult(s, x)
                        }
                    }
                };
                (s, o)
            }
            "usub" => {
                let s = self.p.sub(x, y);
                let o = self.p.ult(x, y);
                (s, o)
            }
            "sadd" | "ssub" => {
                if w < 128 {
                    let (xe, ye) = (self.p.sext(x, w + 1), self.p.sext(y, w + 1));
                    let r = if k == "sadd" { self.p.add(xe, ye) } else { self.p.sub(xe, ye) };
                    let s = if k == "sadd" { self.p.add(x, y) } else { self.p.sub(x, y) };
                    let se = self.p.sext(s, w + 1);
                    let o = self.p.ne(r, se);
                    (s, o)
                } else {
                    let s = if k == "sadd" { self.p.add(x, y) } else { self.p.sub(x, y) };
                    let sxb = self.p.extract(x, w as u32 - 1, 1);
                    let syb = self.p.extract(y, w as u32 - 1, 1);
                    let ssb = self.p.extract(s, w as u32 - 1, 1);
                    let same = if k == "sadd" { self.p.eq(sxb, syb) } else { self.p.ne(sxb, syb) };
                    let diff = self.p.ne(ssb, sxb);
                    let o = self.p.and(same, diff);
                    (s, o)
                }
            }
            "umul" => {
                let s = self.p.mul(x, y);
                let (rx, ry) = (self.p.range[x as usize], self.p.range[y as usize]);
                let o = match rx.1.checked_mul(ry.1) {
                    Some(h) if h <= mask(w) => self.p.f(),
                    _ => {
                        let kc = self.p.cv(y).or(self.p.cv(x));
                        if let Some(k) = kc {
                            let v = if self.p.cv(y).is_some() { x } else { y };
                            // v * k > max  iff v > max / k
                            let lim = self.p.c(mask(w) / k.max(1), w);
                            self.p.ult(lim, v)
                        } else if wide {
                            let (xe, ye) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                            let m = self.p.mul(xe, ye);
                            let hi = self.p.extract(m, w as u32, w);
                            let z = self.p.c(0, w);
                            self.p.ne(hi, z)
                        } else {
                            return Err(Ctl::End(End::Incomplete("128-bit symbolic multiply overflow".into())));
                        }
                    }
                };
                (s, o)
            }
            _ => {
                if !wide {
                    // i128 multiply: fine when both operands are sign extensions of at most 64 bits
                    let small = |p: &Pool, e: Ex| -> bool {
                        let n = p.n(e);
                        match n.op {
                            Op::SExt | Op::ZExt => p.w(n.a) <= 63 || (n.op == Op::SExt && p.w(n.a) <= 64),
                            Op::Const => {
                                let v = sx(p.consts[n.a as usize], n.w);
                                v >= i64::MIN as i128 && v <= i64::MAX as i128
                            }
                            _ => false,
                        }
                    };
                    let s = self.p.mul(x, y);
                    if small(&self.p, x) && small(&self.p, y) {
                        let f = self.p.f();
                        return Ok((s, f));
                    }
                    let zx = |p: &Pool, e: Ex| p.range[e as usize].1 <= u64::MAX as u128;
                    let sxs = |p: &Pool, e: Ex| {
                        let n = p.n(e);
                        zx(p, e) || (n.op == Op::SExt && p.w(n.a) <= 64)
                    };
                    // signed 64 x unsigned 64 fits in 128 signed
                    if (zx(&self.p, x) && sxs(&self.p, y) && !zx(&self.p, y)) || (zx(&self.p, y) && sxs(&self.p, x) && !zx(&self.p, x)) {
                        let f = self.p.f();
                        return Ok((s, f));
                    }
                    if zx(&self.p, x) && zx(&self.p, y) {
                        // product up to 2^128-2^65+1 : overflows signed when the top bit is set
                        let o = self.p.extract(s, 127, 1);
                        return Ok((s, o));
                    }
                    return Err(Ctl::End(End::Incomplete("128-bit symbolic multiply overflow".into())));
                }
                let (xe, ye) = (self.p.sext(x, 2 * w), self.p.sext(y, 2 * w));
                let m = self.p.mul(xe, ye);
                let s = self.p.mul(x, y);
                let se = self.p.sext(s, 2 * w);
                let o = self.p.ne(m, se);
                (s, o)
            }
        })
    }
}
fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new((0..*n).map(|_| zero_of(t)).collect())),
        Ty::Struct(_, ts) => V::A(Rc::new(ts.iter().map(|t| zero_of(t)).collect())),
        _ => V::C(0),
    }
}
#[allow(dead_code)]
fn _unused(v: &V) -> Option<u64> {
    c64(v)
}
