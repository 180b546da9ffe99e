//! Object-based memory with copy-on-write pages; every byte is concrete or an 8-bit expression.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PG: u64 = 4096;
const SMALL: u64 = 16384;

#[derive(Clone, Default)]
pub struct Page {
    pub b: Vec<u8>,
    pub s: Option<Vec<Ex>>, // 0 = concrete
}
impl Page {
    fn new(n: usize) -> Self {
        Page { b: vec![0; n], s: None }
    }
    fn zero(&self) -> bool {
        self.s.is_none() && self.b.iter().all(|x| *x == 0)
    }
}
#[derive(Clone)]
pub enum Data {
    Small(Page),
    Big(BTreeMap<u32, Rc<Page>>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}
#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub kind: Kind,
    pub ro: bool,
    pub data: Data,
    pub log: Vec<(Ex, Ex)>, // (offset 64-bit, byte) symbolic-offset writes, oldest first
}
impl Obj {
    pub fn new(base: u64, size: u64, kind: Kind) -> Self {
        let data = if size <= SMALL { Data::Small(Page::new(size as usize)) } else { Data::Big(BTreeMap::new()) };
        Obj { base, size, kind, ro: false, data, log: vec![] }
    }
    pub fn from_bytes(base: u64, b: Vec<u8>, kind: Kind, ro: bool) -> Self {
        let size = b.len() as u64;
        let mut o = Obj::new(base, size, kind);
        match &mut o.data {
            Data::Small(p) => p.b = b,
            Data::Big(m) => {
                for (i, ch) in b.chunks(PG as usize).enumerate() {
                    if ch.iter().any(|x| *x != 0) {
                        let mut v = ch.to_vec();
                        v.resize(PG as usize, 0);
                        m.insert(i as u32, Rc::new(Page { b: v, s: None }));
                    }
                }
            }
        }
        o.ro = ro;
        o
    }
    /// raw byte ignoring the log: (concrete, sym)
    #[inline]
    pub fn raw(&self, off: u64) -> (u8, Ex) {
        match &self.data {
            Data::Small(p) => (p.b[off as usize], p.s.as_ref().map(|s| s[off as usize]).unwrap_or(0)),
            Data::Big(m) => match m.get(&((off / PG) as u32)) {
                None => (0, 0),
                Some(p) => {
                    let i = (off % PG) as usize;
                    (p.b[i], p.s.as_ref().map(|s| s[i]).unwrap_or(0))
                }
            },
        }
    }
    #[inline]
    pub fn set_raw(&mut self, off: u64, c: u8, s: Ex) {
        let (p, i) = match &mut self.data {
            Data::Small(p) => (p, off as usize),
            Data::Big(m) => {
                let k = (off / PG) as u32;
                if c == 0 && s == 0 && !m.contains_key(&k) {
                    return;
                }
                let p = m.entry(k).or_insert_with(|| Rc::new(Page::new(PG as usize)));
                (Rc::make_mut(p), (off % PG) as usize)
            }
        };
        p.b[i] = c;
        if s != 0 {
            let n = p.b.len();
            p.s.get_or_insert_with(|| vec![0; n])[i] = s;
        } else if let Some(v) = &mut p.s {
            v[i] = 0;
        }
    }
    /// fast concrete read of up to 8 bytes
    #[inline]
    pub fn fast(&self, off: u64, n: usize) -> Option<u64> {
        if !self.log.is_empty() {
            return None;
        }
        let (p, i) = match &self.data {
            Data::Small(p) => (p, off as usize),
            Data::Big(m) => {
                let i = (off % PG) as usize;
                if i + n > PG as usize {
                    return None;
                }
                match m.get(&((off / PG) as u32)) {
                    None => return Some(0),
                    Some(p) => (&**p, i),
                }
            }
        };
        if let Some(s) = &p.s {
            if s[i..i + n].iter().any(|x| *x != 0) {
                return None;
            }
        }
        let mut v = [0u8; 8];
        v[..n].copy_from_slice(&p.b[i..i + n]);
        Some(u64::from_le_bytes(v))
    }
    #[inline]
    pub fn fast_store(&mut self, off: u64, n: usize, v: u64) -> bool {
        if !self.log.is_empty() {
            return false;
        }
        let (p, i) = match &mut self.data {
            Data::Small(p) => (p, off as usize),
            Data::Big(m) => {
                let i = (off % PG) as usize;
                if i + n > PG as usize {
                    return false;
                }
                let k = (off / PG) as u32;
                let p = m.entry(k).or_insert_with(|| Rc::new(Page::new(PG as usize)));
                (Rc::make_mut(p), i)
            }
        };
        p.b[i..i + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut p.s {
            for x in &mut s[i..i + n] {
                *x = 0;
            }
        }
        true
    }
    /// whether [off, off+n) lies in a page that is entirely zero (for skipping); returns end of the zero run
    pub fn zero_run(&self, off: u64) -> Option<u64> {
        match &self.data {
            Data::Small(_) => None,
            Data::Big(m) => {
                let k = (off / PG) as u32;
                match m.get(&k) {
                    Some(p) if !p.zero() => None,
                    _ => {
                        // extend to the next non-zero page
                        let mut e = k + 1;
                        let last = ((self.size + PG - 1) / PG) as u32;
                        loop {
                            match m.range(e..).next() {
                                None => {
                                    e = last;
                                    break;
                                }
                                Some((&q, p)) => {
                                    if p.zero() {
                                        e = q + 1;
                                    } else {
                                        e = q;
                                        break;
                                    }
                                }
                            }
                        }
                        Some((e as u64 * PG).min(self.size))
                    }
                }
            }
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub heap_next: u64,
    pub stack_next: u64,
}
pub const HEAP_BASE: u64 = 0x10_0000_0000;
pub const STACK_BASE: u64 = 0x7000_0000_0000;

impl Mem {
    pub fn new() -> Self {
        Mem { objs: BTreeMap::new(), heap_next: HEAP_BASE, stack_next: STACK_BASE }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let a = align.max(16);
        let next = if kind == Kind::Stack { &mut self.stack_next } else { &mut self.heap_next };
        let base = (*next + a - 1) / a * a;
        *next = base + size.max(1) + 32;
        self.objs.insert(base, Rc::new(Obj::new(base, size, kind)));
        base
    }
    #[inline]
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=addr).next_back()?;
        if addr - o.base < o.size || (addr == o.base) {
            Some(o)
        } else {
            None
        }
    }
    #[inline]
    pub fn find_mut(&mut self, addr: u64) -> Option<&mut Obj> {
        let (_, o) = self.objs.range_mut(..=addr).next_back()?;
        if addr - o.base < o.size || addr == o.base {
            Some(Rc::make_mut(o))
        } else {
            None
        }
    }
}
