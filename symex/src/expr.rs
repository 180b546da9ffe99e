//! Hash-consed bit-vector expressions (width 1..=128) with a canonicalising simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Concat,
    Extract,
    ZExt,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub range: Vec<(u128, u128)>,
    /// tree size, saturating
    pub size: Vec<u32>,
    map: FxMap<Node, Ex>,
    cmap: FxMap<(u8, u128), Ex>,
    pub consts: Vec<u128>,
    pub vars: Vec<(String, u8)>,
    xmap: FxMap<(Ex, u32, u8), Ex>,
    varmap: FxMap<(u32, u8), Ex>,
    // sets of variables per node (sorted), lazily computed
    pub varsets: FxMap<Ex, std::rc::Rc<Vec<u32>>>,
    // evaluation memo
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    ev_cur: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            range: vec![],
            size: vec![],
            map: Default::default(),
            cmap: Default::default(),
            consts: vec![],
            vars: vec![],
            xmap: Default::default(),
            varmap: Default::default(),
            varsets: Default::default(),
            ev_stamp: vec![],
            ev_val: vec![],
            ev_cur: 0,
        };
        // id 0 reserved (means "no expression")
        p.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0 });
        p.consts.push(0);
        p.range.push((0, 0));
        p.size.push(1);
        p
    }
    #[inline]
    pub fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Ex) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cv(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn c(&mut self, v: u128, w: u8) -> Ex {
        let v = v & mask(w);
        if let Some(&e) = self.cmap.get(&(w, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let e = self.nodes.len() as Ex;
        self.nodes.push(Node { op: Op::Const, w, a: ci, b: 0, c: 0 });
        self.range.push((v, v));
        self.size.push(1);
        self.cmap.insert((w, v), e);
        e
    }
    pub fn var(&mut self, ord: u32, w: u8) -> Ex {
        if let Some(&e) = self.varmap.get(&(ord, w)) {
            return e;
        }
        let vi = self.vars.len() as u32;
        self.vars.push((format!("v{}_{}", ord, w), w));
        let e = self.nodes.len() as Ex;
        self.nodes.push(Node { op: Op::Var, w, a: vi, b: 0, c: 0 });
        self.range.push((0, mask(w)));
        self.size.push(1);
        self.varmap.insert((ord, w), e);
        e
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> Ex {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let r = self.calc_range(&n);
        if r.0 == r.1 {
            return self.c(r.0, w);
        }
        let e = self.nodes.len() as Ex;
        self.nodes.push(n);
        self.range.push(r);
        let z = self.tree_size(&n);
        self.size.push(z);
        self.map.insert(n, e);
        e
    }
    fn tree_size(&self, n: &Node) -> u32 {
        let z = |e: u32| self.size[e as usize];
        let s = match n.op {
            Op::Const | Op::Var => 0,
            Op::Extract | Op::ZExt | Op::SExt => z(n.a),
            Op::Ite => z(n.a).saturating_add(z(n.b)).saturating_add(z(n.c)),
            _ => z(n.a).saturating_add(z(n.b)),
        };
        s.saturating_add(1)
    }
    fn calc_range(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let r = |e: u32| self.range[e as usize];
        let full = (0, m);
        match n.op {
            Op::Add => {
                let (a, b) = (r(n.a), r(n.b));
                match (a.1.checked_add(b.1), a.0.checked_add(b.0)) {
                    (Some(h), Some(l)) if h <= m => (l, h),
                    // both overflow exactly once
                    (Some(h), Some(l)) if n.w < 128 && l > m => (l & m, h & m),
                    _ => full,
                }
            }
            Op::Sub => {
                let (a, b) = (r(n.a), r(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(n.a), r(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= m => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(n.a), r(n.b));
                if b.0 > 0 {
                    (0, a.1.min(b.1 - 1))
                } else {
                    (0, a.1.max(0))
                }
            }
            Op::And => (0, r(n.a).1.min(r(n.b).1)),
            Op::Or => {
                let (a, b) = (r(n.a), r(n.b));
                let h = a.1 | b.1;
                // smear
                let bits = 128 - h.leading_zeros();
                (a.0.max(b.0), if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } & m)
            }
            Op::Xor => {
                let h = r(n.a).1 | r(n.b).1;
                let bits = 128 - h.leading_zeros();
                (0, if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } & m)
            }
            Op::LShr => (0, r(n.a).1),
            Op::Concat => {
                let lw = self.w(n.b);
                let (h, l) = (r(n.a), r(n.b));
                ((h.0 << lw) | l.0, (h.1 << lw) | l.1)
            }
            Op::ZExt => r(n.a),
            Op::Extract => {
                let a = r(n.a);
                let lo = n.b;
                // if high parts agree above lo+w we may keep bounds
                let sh = lo + n.w as u32;
                let same_hi = if sh >= 128 { true } else { (a.0 >> sh) == (a.1 >> sh) };
                if same_hi {
                    ((a.0 >> lo) & m, (a.1 >> lo) & m)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = (r(n.b), r(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::SExt => {
                let a = r(n.a);
                let iw = self.w(n.a);
                let sb = 1u128 << (iw - 1);
                if a.1 < sb {
                    a
                } else {
                    full
                }
            }
            _ => full,
        }
    }
    pub fn t(&mut self) -> Ex {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> Ex {
        self.c(0, 1)
    }
    pub fn bool(&mut self, b: bool) -> Ex {
        self.c(b as u128, 1)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let o = self.c(mask(w), w);
        self.xor(a, o)
    }
    fn is_not(&self, a: Ex) -> Option<Ex> {
        let n = self.n(a);
        if n.op == Op::Xor {
            if let Some(v) = self.cv(n.b) {
                if v == mask(n.w) {
                    return Some(n.a);
                }
            }
        }
        None
    }
    pub fn add(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (Some(_), None) => return self.add(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Add {
                    if let Some(k) = self.cv(n.b) {
                        let c = self.c(k.wrapping_add(y), w);
                        return self.add(n.a, c);
                    }
                }
                if n.op == Op::Sub {
                    if let Some(k) = self.cv(n.a) {
                        let c = self.c(k.wrapping_add(y), w);
                        return self.sub(c, n.b);
                    }
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let t = self.add(n.b, b);
                    let e = self.add(n.c, b);
                    return self.ite(n.a, t, e);
                }
                return self.mk(Op::Add, w, a, b, 0);
            }
            _ => {}
        }
        // hoist constants
        let na = self.n(a);
        if na.op == Op::Add {
            if self.cv(na.b).is_some() {
                let s = self.add(na.a, b);
                return self.add(s, na.b);
            }
        }
        let nb = self.n(b);
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.disjoint_join(a, b) {
            return r;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0)
    }
    pub fn neg(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let z = self.c(0, w);
        self.sub(z, a)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_sub(y), w),
            (None, Some(y)) => {
                let c = self.c(0u128.wrapping_sub(y), w);
                return self.add(a, c);
            }
            _ => {}
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let k = self.cv(nb.b).unwrap();
            let s = self.sub(a, nb.a);
            let c = self.c(0u128.wrapping_sub(k), w);
            return self.add(s, c);
        }
        if na.op == Op::Add {
            if self.cv(na.b).is_some() {
                let s = self.sub(na.a, b);
                return self.add(s, na.b);
            }
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        if nb.op == Op::Add {
            if nb.a == a {
                return self.neg(nb.b);
            }
            if nb.b == a {
                return self.neg(nb.a);
            }
        }
        // a - (a - x) = x
        if nb.op == Op::Sub && nb.a == a {
            return nb.b;
        }
        // 0 - (x - y) = y - x
        if self.cv(a) == Some(0) && nb.op == Op::Sub {
            return self.sub(nb.b, nb.a);
        }
        self.mk(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(_), None) => return self.mul(b, a),
            (None, Some(0)) => return b,
            (None, Some(1)) => return a,
            (None, Some(y)) => {
                if y.is_power_of_two() {
                    let k = self.c(y.trailing_zeros() as u128, w);
                    return self.shl(a, k);
                }
                let n = self.n(a);
                if n.op == Op::Mul {
                    if let Some(k) = self.cv(n.b) {
                        let c = self.c(k.wrapping_mul(y), w);
                        return self.mul(n.a, c);
                    }
                }
                if n.op == Op::Add {
                    // (x + k) * c  => x*c + k*c  (pointer arithmetic canonicalisation)
                    if let Some(k) = self.cv(n.b) {
                        let m = self.mul(n.a, b);
                        let c = self.c(k.wrapping_mul(y), w);
                        return self.add(m, c);
                    }
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let t = self.mul(n.b, b);
                    let e = self.mul(n.c, b);
                    return self.ite(n.a, t, e);
                }
                return self.mk(Op::Mul, w, a, b, 0);
            }
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        // a choice between two constants: (c ? k : l) * b
        for (p, q) in [(a, b), (b, a)] {
            let n = self.n(p);
            if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                let t = self.mul(n.b, q);
                let e = self.mul(n.c, q);
                return self.ite(n.a, t, e);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn udiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                if y != 0 {
                    return self.c(x / y, w);
                }
            }
            if y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
        }
        if self.range[a as usize].1 < self.range[b as usize].0 {
            return self.c(0, w);
        }
        // narrow
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if self.range[b as usize].1 <= mask(iw) && self.range[b as usize].0 > 0 {
                let bb = self.extract(b, 0, iw);
                let d = self.udiv(na.a, bb);
                return self.zext(d, w);
            }
        }
        let _ = nb;
        self.mk(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return self.c(0, w);
            }
            if let Some(x) = self.cv(a) {
                if y != 0 {
                    return self.c(x % y, w);
                }
            }
            if y.is_power_of_two() {
                let k = self.c(y - 1, w);
                return self.and(a, k);
            }
        }
        if self.range[a as usize].1 < self.range[b as usize].0 {
            return a;
        }
        let na = self.n(a);
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            // (x % 0 = x at either width)
            if self.range[b as usize].1 <= mask(iw) {
                let bb = self.extract(b, 0, iw);
                let d = self.urem(na.a, bb);
                return self.zext(d, w);
            }
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        if self.nonneg(a) && self.nonneg(b) && self.range[b as usize].0 > 0 {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        if self.nonneg(a) && self.nonneg(b) && self.range[b as usize].0 > 0 {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0)
    }
    fn nonneg(&self, a: Ex) -> bool {
        let w = self.w(a);
        self.range[a as usize].1 < (1u128 << (w - 1))
    }
    pub fn shl(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let h = self.extract(a, 0, w - k as u8);
            let z = self.c(0, k as u8);
            return self.concat(h, z);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.c(0, w);
            }
            let h = self.extract(a, k as u32, w - k as u8);
            return self.zext(h, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            let k = if k >= w as u128 { w as u128 - 1 } else { k };
            let h = self.extract(a, k as u32, w - k as u8);
            return self.sext(h, w);
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        if self.nonneg(a) {
            return self.lshr(a, b);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    // runs of a constant: list of (lo, width, bit) from low to high
    fn runs(v: u128, w: u8) -> Vec<(u8, u8, bool)> {
        let mut out = vec![];
        let mut i = 0u8;
        while i < w {
            let b = (v >> i) & 1 == 1;
            let mut j = i + 1;
            while j < w && ((v >> j) & 1 == 1) == b {
                j += 1;
            }
            out.push((i, j - i, b));
            i = j;
        }
        out
    }
    pub fn and(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (Some(_), None) => return self.and(b, a),
            (None, Some(0)) => return b,
            (None, Some(y)) if y == mask(w) => return a,
            (None, Some(y)) => {
                let rs = Self::runs(y, w);
                if rs.len() <= 4 {
                    let mut acc: Option<Ex> = None;
                    for (lo, rw, bit) in rs {
                        let p = if bit { self.extract(a, lo as u32, rw) } else { self.c(0, rw) };
                        acc = Some(match acc {
                            None => p,
                            Some(q) => self.concat(p, q),
                        });
                    }
                    return acc.unwrap();
                }
                let n = self.n(a);
                if n.op == Op::And {
                    if let Some(k) = self.cv(n.b) {
                        let c = self.c(k & y, w);
                        return self.and(n.a, c);
                    }
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let t = self.and(n.b, b);
                    let e = self.and(n.c, b);
                    return self.ite(n.a, t, e);
                }
                return self.mk(Op::And, w, a, b, 0);
            }
            _ => {}
        }
        if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
            return self.c(0, w);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // absorption
        if na.op == Op::And && (na.a == b || na.b == b) {
            return a;
        }
        if nb.op == Op::And && (nb.a == a || nb.b == a) {
            return b;
        }
        if na.op == Op::Or && (na.a == b || na.b == b) {
            return b;
        }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
            return a;
        }
        if w > 1 {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w {
                    let x = self.extract(a, 0, m);
                    let y = self.extract(b, 0, m);
                    let r = self.and(x, y);
                    return self.zext(r, w);
                }
            } else if na.op == Op::ZExt {
                let m = self.w(na.a);
                let y = self.extract(b, 0, m);
                let r = self.and(na.a, y);
                return self.zext(r, w);
            } else if nb.op == Op::ZExt {
                let m = self.w(nb.a);
                let y = self.extract(a, 0, m);
                let r = self.and(nb.a, y);
                return self.zext(r, w);
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0)
    }
    /// Segments of an expression low to high: (width, Some(expr) | None for zero).
    fn segs(&mut self, e: Ex, out: &mut Vec<(u8, Option<Ex>)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            Op::ZExt => {
                self.segs(n.a, out);
                let d = n.w - self.w(n.a);
                out.push((d, None));
            }
            Op::Const if self.cv(e) == Some(0) => out.push((n.w, None)),
            _ => out.push((n.w, Some(e))),
        }
    }
    /// If a and b have disjoint possibly-nonzero segments, the value of a|b == a+b == a^b as a concat.
    fn disjoint_join(&mut self, a: Ex, b: Ex) -> Option<Ex> {
        let (na, nb) = (self.n(a), self.n(b));
        let ok = |o: Op| matches!(o, Op::Concat | Op::ZExt);
        if !ok(na.op) || !ok(nb.op) {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        if !sa.iter().any(|s| s.1.is_none()) || !sb.iter().any(|s| s.1.is_none()) {
            return None;
        }
        // split at common boundaries
        let w = na.w;
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u8, 0u8);
        let mut pieces: Vec<(u8, Option<(Ex, u8)>)> = vec![];
        let mut pos = 0u8;
        while pos < w {
            let ra = sa[i].0 - oi;
            let rb = sb[j].0 - oj;
            let k = ra.min(rb);
            let p = match (sa[i].1, sb[j].1) {
                (Some(_), Some(_)) => return None,
                (Some(x), None) => Some((x, oi)),
                (None, Some(y)) => Some((y, oj)),
                (None, None) => None,
            };
            pieces.push((k, p));
            oi += k;
            oj += k;
            if oi == sa[i].0 {
                i += 1;
                oi = 0;
            }
            if oj == sb[j].0 {
                j += 1;
                oj = 0;
            }
            pos += k;
        }
        let mut acc: Option<Ex> = None;
        for (k, p) in pieces {
            let e = match p {
                None => self.c(0, k),
                Some((x, off)) => self.extract(x, off as u32, k),
            };
            acc = Some(match acc {
                None => e,
                Some(q) => self.concat(e, q),
            });
        }
        acc
    }
    pub fn or(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return a;
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (Some(_), None) => return self.or(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) if y == mask(w) => return b,
            (None, Some(y)) => {
                let rs = Self::runs(y, w);
                if rs.len() <= 4 {
                    let mut acc: Option<Ex> = None;
                    for (lo, rw, bit) in rs {
                        let p = if !bit { self.extract(a, lo as u32, rw) } else { self.c(mask(rw), rw) };
                        acc = Some(match acc {
                            None => p,
                            Some(q) => self.concat(p, q),
                        });
                    }
                    return acc.unwrap();
                }
                return self.mk(Op::Or, w, a, b, 0);
            }
            _ => {}
        }
        if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) {
            return self.c(mask(w), w);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::And && (na.a == b || na.b == b) {
            return b;
        }
        if nb.op == Op::And && (nb.a == a || nb.b == a) {
            return a;
        }
        if na.op == Op::Or && (na.a == b || na.b == b) {
            return a;
        }
        if nb.op == Op::Or && (nb.a == a || nb.b == a) {
            return b;
        }
        if w > 1 {
            if let Some(r) = self.disjoint_join(a, b) {
                return r;
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (Some(_), None) => return self.xor(b, a),
            (None, Some(0)) => return a,
            (None, Some(y)) => {
                let n = self.n(a);
                if n.op == Op::Xor {
                    if let Some(k) = self.cv(n.b) {
                        let c = self.c(k ^ y, w);
                        return self.xor(n.a, c);
                    }
                }
                if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() {
                    let t = self.xor(n.b, b);
                    let e = self.xor(n.c, b);
                    return self.ite(n.a, t, e);
                }
                return self.mk(Op::Xor, w, a, b, 0);
            }
            _ => {}
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Xor && self.cv(na.b).is_some() {
            let s = self.xor(na.a, b);
            return self.xor(s, na.b);
        }
        if nb.op == Op::Xor && self.cv(nb.b).is_some() {
            let s = self.xor(a, nb.a);
            return self.xor(s, nb.b);
        }
        if na.op == Op::Xor && na.a == b {
            return na.b;
        }
        if na.op == Op::Xor && na.b == b {
            return na.a;
        }
        if nb.op == Op::Xor && nb.a == a {
            return nb.b;
        }
        if nb.op == Op::Xor && nb.b == a {
            return nb.a;
        }
        if w > 1 {
            if let Some(r) = self.disjoint_join(a, b) {
                return r;
            }
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w as u32 <= 128);
        match (self.cv(h), self.cv(l)) {
            (Some(x), Some(y)) => return self.c((x << lw) | y, w),
            (Some(0), None) => return self.zext(l, w),
            _ => {}
        }
        let nh = self.n(h);
        let nl = self.n(l);
        if nh.op == Op::ZExt {
            let c = self.concat(nh.a, l);
            return self.zext(c, w);
        }
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, l);
            return self.concat(nh.a, r);
        }
        // merge with head of l
        let (lh, lt) = if nl.op == Op::Concat { (nl.a, Some(nl.b)) } else { (l, None) };
        if let Some(m) = self.merge(h, lh) {
            return match lt {
                None => m,
                Some(t) => self.concat(m, t),
            };
        }
        // concat(sext-part) : extract(sext(x)) pieces are handled by merge of Extract over same source
        self.mk(Op::Concat, w, h, l, 0)
    }
    fn merge(&mut self, h: Ex, l: Ex) -> Option<Ex> {
        let (nh, nl) = (self.n(h), self.n(l));
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return Some(self.c((x << nl.w) | y, nh.w + nl.w));
        }
        // extracts of the same source
        let (sh, oh) = if nh.op == Op::Extract { (nh.a, nh.b) } else { (h, 0) };
        let (sl, ol) = if nl.op == Op::Extract { (nl.a, nl.b) } else { (l, 0) };
        if sh == sl && oh == ol + nl.w as u32 && nh.op == Op::Extract {
            return Some(self.extract(sh, ol, nh.w + nl.w));
        }
        // a low part that was simplified on its own
        if nh.op == Op::Extract && oh >= nl.w as u32 && matches!(self.n(sh).op, Op::Add | Op::Sub) && self.extract(sh, oh - nl.w as u32, nl.w) == l {
            return Some(self.extract(sh, oh - nl.w as u32, nh.w + nl.w));
        }
        // sign extension pieces: h = sext(msb of l) where l ends at msb of x
        if nh.op == Op::SExt && self.w(nh.a) == 1 {
            let m = self.n(nh.a);
            let top = if m.op == Op::Extract { Some((m.a, m.b)) } else { None };
            if let Some((src, bit)) = top {
                if sl == src && bit == ol + nl.w as u32 - 1 {
                    return Some(self.sext(l, nh.w + nl.w));
                }
                // l = sext(x..) whose sign bit is the same bit
                if nl.op == Op::SExt {
                    let y = self.n(nl.a);
                    let (ys, yo) = if y.op == Op::Extract { (y.a, y.b) } else { (nl.a, 0) };
                    if ys == src && yo + y.w as u32 - 1 == bit {
                        return Some(self.sext(nl.a, nh.w + nl.w));
                    }
                }
            }
            // x itself is 1 bit
            if nl.op == Op::SExt && nl.a == nh.a {
                return Some(self.sext(nl.a, nh.w + nl.w));
            }
        }
        if nh.op == Op::SExt && nl.op == Op::SExt && nh.a == nl.a && self.w(nh.a) == 1 {
            return Some(self.sext(nh.a, nh.w + nl.w));
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let t = self.concat(nh.b, nl.b);
            let e = self.concat(nh.c, nl.c);
            return Some(self.ite(nh.a, t, e));
        }
        None
    }
    pub fn extract(&mut self, e: Ex, lo: u32, w: u8) -> Ex {
        let n = self.n(e);
        debug_assert!(lo + w as u32 <= n.w as u32);
        if lo == 0 && w == n.w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.c(v >> lo, w)
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let lw = self.w(n.b) as u32;
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo + w as u32 <= lw {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, (lw - lo) as u8);
                    let h = self.extract(n.a, 0, (w as u32 - (lw - lo)) as u8);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a) as u32;
                if lo >= iw {
                    self.c(0, w)
                } else if lo + w as u32 <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, (iw - lo) as u8);
                    self.zext(x, w)
                }
            }
            Op::SExt => {
                let iw = self.w(n.a) as u32;
                if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    self.sext(s, w)
                } else if lo + w as u32 <= iw {
                    self.extract(n.a, lo, w)
                } else {
                    let x = self.extract(n.a, lo, (iw - lo) as u8);
                    self.sext(x, w)
                }
            }
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let t = self.extract(n.b, lo, w);
                let f = self.extract(n.c, lo, w);
                self.ite(n.a, t, f)
            }
            Op::And | Op::Or | Op::Xor if self.size[e as usize] < 400 => {
                if let Some(&r) = self.xmap.get(&(e, lo, w)) {
                    return r;
                }
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                let r = match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                };
                self.xmap.insert((e, lo, w), r);
                r
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && self.size[e as usize] < 400 => {
                if let Some(&r) = self.xmap.get(&(e, lo, w)) {
                    return r;
                }
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                let r = match n.op {
                    Op::Add => self.add(a, b),
                    Op::Sub => self.sub(a, b),
                    _ => self.mul(a, b),
                };
                self.xmap.insert((e, lo, w), r);
                r
            }
            _ => self.mk(Op::Extract, w, e, lo, 0),
        }
    }
    pub fn zext(&mut self, a: Ex, w: u8) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        assert!(n.w < w);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                self.c(v, w)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let e = self.zext(n.c, w);
                self.ite(n.a, t, e)
            }
            _ => self.mk(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u8) -> Ex {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        assert!(n.w < w);
        match n.op {
            Op::Const => {
                let v = sx(self.consts[n.a as usize], n.w) as u128;
                self.c(v, w)
            }
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let t = self.sext(n.b, w);
                let e = self.sext(n.c, w);
                self.ite(n.a, t, e)
            }
            _ => {
                if self.nonneg(a) {
                    return self.zext(a, w);
                }
                self.mk(Op::SExt, w, a, 0, 0)
            }
        }
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.f();
        }
        if self.cv(a).is_some() && self.cv(b).is_none() {
            return self.eq(b, a);
        }
        let na = self.n(a);
        if let Some(k) = self.cv(b) {
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hk = self.c(k >> lw, w - lw);
                    let lk = self.c(k, lw);
                    let x = self.eq(na.a, hk);
                    if self.cv(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, lk);
                    return self.and(x, y);
                }
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return self.f();
                    }
                    let c = self.c(k, iw);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let c = self.c(k, iw);
                    let back = self.sext(c, w);
                    if back != b {
                        return self.f();
                    }
                    return self.eq(na.a, c);
                }
                Op::Ite => {
                    let (tc, ec) = (self.cv(na.b), self.cv(na.c));
                    match (tc, ec) {
                        (Some(t), Some(e)) => {
                            return match (t == k, e == k) {
                                (true, true) => self.t(),
                                (true, false) => na.a,
                                (false, true) => self.not(na.a),
                                _ => self.f(),
                            }
                        }
                        (Some(t), None) => {
                            let r = self.eq(na.c, b);
                            return if t == k {
                                self.or(na.a, r)
                            } else {
                                let nc = self.not(na.a);
                                self.and(nc, r)
                            };
                        }
                        (None, Some(e)) => {
                            let r = self.eq(na.b, b);
                            return if e == k {
                                let nc = self.not(na.a);
                                self.or(nc, r)
                            } else {
                                self.and(na.a, r)
                            };
                        }
                        _ => {}
                    }
                }
                Op::Add => {
                    if let Some(c) = self.cv(na.b) {
                        let d = self.c(k.wrapping_sub(c), w);
                        return self.eq(na.a, d);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.cv(na.b) {
                        let d = self.c(k ^ c, w);
                        return self.eq(na.a, d);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub => {
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(c) = self.cv(na.a) {
                        let d = self.c(c.wrapping_sub(k), w);
                        return self.eq(na.b, d);
                    }
                }
                Op::Or if k == 0 => {
                    let z = b;
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            let nb = self.n(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w {
                    let x = self.extract(a, 0, m);
                    let y = self.extract(b, 0, m);
                    return self.eq(x, y);
                }
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && nb.op == Op::Add && self.cv(na.b).is_some() && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Add && (na.a == b || na.b == b) {
                let o = if na.a == b { na.b } else { na.a };
                let z = self.c(0, w);
                return self.eq(o, z);
            }
            if nb.op == Op::Add && (nb.a == a || nb.b == a) {
                let o = if nb.a == a { nb.b } else { nb.a };
                let z = self.c(0, w);
                return self.eq(o, z);
            }
            if w == 1 {
                let x = self.xor(a, b);
                return self.not(x);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.a, nb.a);
                if self.cv(x) == Some(0) {
                    return x;
                }
                let y = self.eq(na.b, nb.b);
                return self.and(x, y);
            }
        }
        let (a, b) = if self.cv(b).is_some() || a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ne(&mut self, a: Ex, b: Ex) -> Ex {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        let (ra, rb) = (self.range[a as usize], self.range[b as usize]);
        if ra.1 < rb.0 {
            return self.t();
        }
        if ra.0 >= rb.1 {
            return self.f();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if let Some(k) = self.cv(b) {
            if k == ra.0 + 1 {
                let c = self.c(ra.0, w);
                return self.eq(a, c);
            }
            if k == ra.1 {
                // a < max  <=> a != max
                let c = self.c(ra.1, w);
                return self.ne(a, c);
            }
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                // k <= mask(iw) guaranteed by range
                let c = self.c(k, iw);
                return self.ult(na.a, c);
            }
            if na.op == Op::Concat {
                let lw = self.w(na.b);
                if k & mask(lw) == 0 {
                    let c = self.c(k >> lw, w - lw);
                    return self.ult(na.a, c);
                }
            }
            if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                let t = self.ult(na.b, b);
                let e = self.ult(na.c, b);
                return self.ite(na.a, t, e);
            }
        } else if let Some(k) = self.cv(a) {
            if k == 0 && rb.0 == 0 {
                return self.ne(b, a);
            }
            if k + 1 == rb.1 {
                let c = self.c(rb.1, w);
                return self.eq(b, c);
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                let c = self.c(k, iw);
                return self.ult(c, nb.a);
            }
            if nb.op == Op::Concat {
                let lw = self.w(nb.b);
                if k & mask(lw) == mask(lw) {
                    let c = self.c(k >> lw, w - lw);
                    return self.ult(c, nb.a);
                }
            }
            if nb.op == Op::Ite && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() {
                let t = self.ult(a, nb.b);
                let e = self.ult(a, nb.c);
                return self.ite(nb.a, t, e);
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let m = self.w(na.a).max(self.w(nb.a));
                if m < w {
                    let x = self.extract(a, 0, m);
                    let y = self.extract(b, 0, m);
                    return self.ult(x, y);
                }
            }
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: Ex, b: Ex) -> Ex {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.bool(sx(x, w) < sx(y, w));
        }
        if w == 1 {
            // -1 < 0
            let nb = self.not(b);
            return self.and(a, nb);
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w as u32 - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w as u32 - 1, 1);
            return self.not(s);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt {
            let iw = self.w(na.a);
            if nb.op == Op::SExt && self.w(nb.a) == iw {
                return self.slt(na.a, nb.a);
            }
            if let Some(k) = self.cv(b) {
                let c = self.c(k, iw);
                if self.sext(c, w) == b {
                    return self.slt(na.a, c);
                }
                return self.bool(sx(k, w) > 0);
            }
        }
        if nb.op == Op::SExt {
            let iw = self.w(nb.a);
            if let Some(k) = self.cv(a) {
                let c = self.c(k, iw);
                if self.sext(c, w) == a {
                    return self.slt(c, nb.a);
                }
                return self.bool(sx(k, w) < 0);
            }
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: Ex, b: Ex) -> Ex {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: Ex, t: Ex, e: Ex) -> Ex {
        if t == e {
            return t;
        }
        match self.cv(c) {
            Some(1) => return t,
            Some(_) => return e,
            None => {}
        }
        if let Some(x) = self.is_not(c) {
            return self.ite(x, e, t);
        }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        // |sext(a)| = zext(|a|)
        let (nt, ne) = (self.n(t), self.n(e));
        if nt.op == Op::Sub && nt.b == e && ne.op == Op::SExt && self.cv(nt.a) == Some(0) {
            let a = ne.a;
            let aw = self.w(a);
            if self.extract(a, aw as u32 - 1, 1) == c {
                let m = self.neg(a);
                let x = self.ite(c, m, a);
                return self.zext(x, w);
            }
        }
        let (tv, ev) = (self.cv(t), self.cv(e));
        // one bit set or cleared by a condition: x with that bit replaced
        if w == 8 && self.bitwise(t) && self.bitwise(e) && !(tv.is_some() && ev.is_some() && (tv, ev) == (Some(1), Some(0))) {
            let mut at = None;
            let mut n = 0;
            let mut bits = [0 as Ex; 8];
            for i in 0..8 {
                let a = self.extract(t, i, 1);
                let b = self.extract(e, i, 1);
                bits[i as usize] = a;
                if a != b {
                    n += 1;
                    if n > 1 {
                        break;
                    }
                    match (self.cv(a), self.cv(b)) {
                        (Some(1), Some(0)) => at = Some((i, c)),
                        (Some(0), Some(1)) => at = Some((i, self.not(c))),
                        _ => n = 9,
                    }
                }
            }
            if let (1, Some((i, x))) = (n, at) {
                bits[i as usize] = x;
                let mut r = bits[7];
                for i in (0..7).rev() {
                    r = self.concat(r, bits[i]);
                }
                return r;
            }
        }
        if w == 1 {
            match (tv, ev) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, e),
                (Some(_), None) => {
                    let nc = self.not(c);
                    return self.and(nc, e);
                }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(_)) => {
                    let nc = self.not(c);
                    return self.or(nc, t);
                }
                _ => {}
            }
        } else if tv == Some(1) && ev == Some(0) {
            return self.zext(c, w);
        } else if tv == Some(0) && ev == Some(1) {
            let nc = self.not(c);
            return self.zext(nc, w);
        }
        let (nt, ne) = (self.n(t), self.n(e));
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        if ne.op == Op::Ite && ne.b == t {
            // c ? t : (d ? t : x)  =>  (c|d) ? t : x
            let d = self.or(c, ne.a);
            return self.ite(d, t, ne.c);
        }
        self.mk(Op::Ite, w, c, t, e)
    }

    /// cheap to look at bit by bit
    fn bitwise(&self, e: Ex) -> bool {
        self.size[e as usize] < 64 || matches!(self.n(e).op, Op::Const | Op::Concat | Op::ZExt | Op::Extract)
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SRem => self.srem(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            _ => unreachable!(),
        }
    }

    /// Sorted variable indices occurring in `e`.
    pub fn varset(&mut self, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let n = self.n(e);
        let out: std::rc::Rc<Vec<u32>> = match n.op {
            Op::Const => std::rc::Rc::new(vec![]),
            Op::Var => std::rc::Rc::new(vec![n.a]),
            _ => {
                let kids: Vec<Ex> = self.kids(&n);
                let mut acc: Option<std::rc::Rc<Vec<u32>>> = None;
                for k in kids {
                    let v = self.varset(k);
                    acc = Some(match acc {
                        None => v,
                        Some(a) => {
                            if v.is_empty() || std::rc::Rc::ptr_eq(&a, &v) {
                                a
                            } else if a.is_empty() {
                                v
                            } else {
                                let mut m = Vec::with_capacity(a.len() + v.len());
                                let (mut i, mut j) = (0, 0);
                                while i < a.len() || j < v.len() {
                                    if j >= v.len() || (i < a.len() && a[i] < v[j]) {
                                        m.push(a[i]);
                                        i += 1;
                                    } else if i >= a.len() || v[j] < a[i] {
                                        m.push(v[j]);
                                        j += 1;
                                    } else {
                                        m.push(a[i]);
                                        i += 1;
                                        j += 1;
                                    }
                                }
                                if m.len() == a.len() {
                                    a
                                } else {
                                    std::rc::Rc::new(m)
                                }
                            }
                        }
                    });
                }
                acc.unwrap()
            }
        };
        self.varsets.insert(e, out.clone());
        out
    }
    pub fn kids(&self, n: &Node) -> Vec<Ex> {
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Extract | Op::ZExt | Op::SExt => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    /// Start a fresh evaluation epoch (a new model).
    pub fn ev_reset(&mut self) {
        self.ev_cur += 1;
    }
    pub fn eval(&mut self, e: Ex, model: &[u128]) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if self.ev_stamp.len() < self.nodes.len() {
            self.ev_stamp.resize(self.nodes.len() + 1024, 0);
            self.ev_val.resize(self.nodes.len() + 1024, 0);
        }
        if self.ev_stamp[e as usize] == self.ev_cur {
            return self.ev_val[e as usize];
        }
        let m = mask(n.w);
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model) == 1 {
                    self.eval(n.b, model)
                } else {
                    self.eval(n.c, model)
                }
            }
            Op::Extract => (self.eval(n.a, model) >> n.b) & m,
            Op::ZExt => self.eval(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sx(self.eval(n.a, model), iw) as u128) & m
            }
            _ => {
                let w = self.w(n.a);
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                Self::fold(n.op, w, x, y, self.w(n.b)) & m
            }
        };
        self.ev_stamp[e as usize] = self.ev_cur;
        self.ev_val[e as usize] = v;
        v
    }
    pub fn fold(op: Op, w: u8, x: u128, y: u128, wb: u8) -> u128 {
        let m = mask(w);
        match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (a.wrapping_div(b) as u128) & m
                }
            }
            Op::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    (a.wrapping_rem(b) as u128) & m
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let k = y.min(w as u128 - 1).min(127) as u32;
                ((sx(x, w) >> k) as u128) & m
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Concat => (x << wb) | y,
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Slt => (sx(x, w) < sx(y, w)) as u128,
            _ => unreachable!(),
        }
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", self.consts[n.a as usize], n.w),
            Op::Var => self.vars[n.a as usize].0.clone(),
            _ if depth == 0 => format!("#{}", e),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!("ite({},{},{})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
