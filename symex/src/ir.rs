//! Parser for textual LLVM IR (opaque pointers) into a compact executable form.
use crate::expr::{mask, FxMap, Op};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(bool, Vec<Rc<Ty>>),
    Label,
    Meta,
    Other(String),
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64) + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two().min(64),
            Ty::Struct(p, ts) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => (self.bits() as u64 + 7) / 8,
            Ty::Struct(..) => self.size(),
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Struct(p, ts) => {
                let mut o = 0u64;
                for t in ts {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => {
                let s = self.store_size();
                let a = self.align();
                (s + a - 1) / a * a
            }
        }
    }
    pub fn field_off(&self, i: u64) -> (u64, Rc<Ty>) {
        match self {
            Ty::Struct(p, ts) => {
                let mut o = 0u64;
                for (j, t) in ts.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i, t.clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..))
    }
}

/// A parsed constant
#[derive(Debug, Clone)]
pub enum K {
    I(u128),
    Agg(Vec<K>),
    Zero,
}

#[derive(Debug, Clone)]
pub enum Opd {
    R(u32),
    C(u64),
    W(u128, u8),
    Agg(Rc<Vec<Opd>>),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit, // bitcast / ptrtoint / inttoptr of equal size
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}

#[derive(Debug)]
pub enum Callee {
    Fn(u32), // function index
    Dyn(Opd),
    Intrinsic(String),
    Asm(String),
}

#[derive(Debug)]
pub enum I {
    Bin { op: Op, w: u8, lanes: u32, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: FOp, dbl: bool, d: u32, a: Opd, b: Opd },
    FNeg { dbl: bool, d: u32, a: Opd },
    Fcmp { p: String, dbl: bool, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, from: Rc<Ty>, to: Rc<Ty>, d: u32, a: Opd },
    Load { d: u32, ty: Rc<Ty>, p: Opd },
    Store { ty: Rc<Ty>, v: Opd, p: Opd },
    Gep { d: u32, base: Opd, off: i64, terms: Vec<(Opd, u8, u64)> },
    Select { d: u32, lanes: u32, ty: Rc<Ty>, c: Opd, a: Opd, b: Opd },
    Alloca { d: u32, size: u64, align: u64, n: Opd },
    Call { d: Option<u32>, callee: Callee, args: Vec<(Rc<Ty>, Opd, u64)>, ret: Rc<Ty>, normal: Option<u32> },
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, ty: Rc<Ty>, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElem { d: u32, a: Opd, i: Opd },
    InsertElem { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, n: u32, m: Vec<Option<u32>> },
    Rmw { d: u32, op: String, w: u8, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u8, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u8, Vec<(u128, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Phi {
    pub d: u32,
    pub ty: Rc<Ty>,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<I>,
    pub name: String,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the whole define
    pub compiled: std::cell::OnceCell<Result<Rc<Func>, String>>,
}
pub struct GlobalDecl {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub is_const: bool,
    pub external: bool,
    pub line: (usize, usize),
    pub ty: Rc<Ty>,
    pub init_pos: usize,
}
pub struct Module {
    pub src: String,
    pub fns: Vec<FnDecl>,
    pub fn_idx: FxMap<String, u32>,
    pub globals: Vec<GlobalDecl>,
    pub g_idx: FxMap<String, u32>,
    pub alias: FxMap<String, String>,
    pub named: FxMap<String, Rc<Ty>>,
}

pub const FN_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

#[derive(Debug, Clone, PartialEq)]
enum T<'a> {
    Loc(&'a str),
    Glo(&'a str),
    Id(&'a str),
    Int(&'a str),
    Flt(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Md,
    Attr,
    P(u8),
    Dots,
    Label(&'a str),
    Nl,
    Eof,
}

struct Lx<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
    end: usize,
    tok: T<'a>,
    line_start: bool,
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lx<'a> {
    fn new(src: &'a str, start: usize, end: usize) -> Self {
        let mut l = Lx { s: src.as_bytes(), src, i: start, end, tok: T::Nl, line_start: true };
        l.next();
        l
    }
    fn raw(&mut self) -> T<'a> {
        let ls = self.line_start;
        self.line_start = false;
        while self.i < self.end && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\r') {
            self.i += 1;
        }
        if self.i >= self.end {
            return T::Eof;
        }
        let st = self.i;
        let c = self.s[st];
        match c {
            b'\n' => {
                self.i += 1;
                self.line_start = true;
                T::Nl
            }
            b';' => {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
                self.line_start = ls;
                self.raw()
            }
            b'%' | b'@' => {
                self.i += 1;
                let name = if self.s[self.i] == b'"' {
                    let b = self.i + 1;
                    self.i = b;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    &self.src[b..self.i - 1]
                } else {
                    let b = self.i;
                    while self.i < self.end && idc(self.s[self.i]) {
                        self.i += 1;
                    }
                    &self.src[b..self.i]
                };
                if c == b'%' {
                    T::Loc(name)
                } else {
                    T::Glo(name)
                }
            }
            b'"' => {
                let b = self.i + 1;
                self.i = b;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                let r = &self.src[b..self.i - 1];
                if ls && self.i < self.end && self.s[self.i] == b':' {
                    self.i += 1;
                    return T::Label(r);
                }
                T::Str(r)
            }
            b'!' => {
                self.i += 1;
                while self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'\\') {
                    self.i += 1;
                }
                T::Md
            }
            b'#' => {
                self.i += 1;
                while self.i < self.end && idc(self.s[self.i]) {
                    self.i += 1;
                }
                T::Attr
            }
            b'.' if self.s[st..].starts_with(b"...") => {
                self.i += 3;
                T::Dots
            }
            b'c' if self.s.get(st + 1) == Some(&b'"') => {
                let b = self.i + 2;
                self.i = b;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                T::CStr(&self.src[b..self.i - 1])
            }
            _ if idc(c) || c == b'+' => {
                self.i += 1;
                while self.i < self.end && (idc(self.s[self.i]) || (self.s[self.i] == b'+' && self.s[self.i - 1] == b'e')) {
                    self.i += 1;
                }
                let w = &self.src[st..self.i];
                if ls && self.i < self.end && self.s[self.i] == b':' {
                    self.i += 1;
                    return T::Label(w);
                }
                if c.is_ascii_digit() || ((c == b'-' || c == b'+') && w.len() > 1 && w.as_bytes()[1].is_ascii_digit()) {
                    if w.contains('.') || w.starts_with("0x") {
                        T::Flt(w)
                    } else {
                        T::Int(w)
                    }
                } else {
                    T::Id(w)
                }
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
    fn next(&mut self) -> T<'a> {
        let t = self.raw();
        std::mem::replace(&mut self.tok, t)
    }
    fn is(&self, c: char) -> bool {
        self.tok == T::P(c as u8)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) {
        if !self.eat(c) {
            let a = self.i.saturating_sub(80);
            panic!("expected '{}' got {:?} near {:?}", c, self.tok, &self.src[a..(self.i + 20).min(self.end)]);
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.tok == T::Id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn skip_line(&mut self) {
        while self.tok != T::Nl && self.tok != T::Eof {
            self.next();
        }
    }
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else if let Some(r) = s.strip_prefix('+') {
        r.parse().unwrap()
    } else {
        s.parse::<u128>().unwrap_or_else(|_| panic!("int {s}"))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read_to_string(path).unwrap_or_else(|e| {
            eprintln!("cannot read {path}: {e}");
            std::process::exit(3)
        });
        let mut m = Module { src, fns: vec![], fn_idx: Default::default(), globals: vec![], g_idx: Default::default(), alias: Default::default(), named: Default::default() };
        let src = std::mem::take(&mut m.src);
        let b = src.as_bytes();
        let mut i = 0usize;
        let mut glines = vec![];
        let mut tlines = vec![];
        while i < b.len() {
            let e = memchr(b, b'\n', i);
            let line = &src[i..e];
            if line.starts_with("define ") {
                // find "\n}\n"
                let mut j = e;
                loop {
                    let k = memchr(b, b'\n', j + 1);
                    if &b[j + 1..k] == b"}" {
                        j = k;
                        break;
                    }
                    j = k;
                    if j >= b.len() {
                        break;
                    }
                }
                let name = fn_name(line);
                let idx = m.fns.len() as u32;
                m.fn_idx.insert(name.to_string(), idx);
                m.fns.push(FnDecl { name: name.to_string(), body: Some((i, j)), compiled: Default::default() });
                i = j + 1;
                continue;
            } else if line.starts_with("declare ") {
                let name = fn_name(line);
                let idx = m.fns.len() as u32;
                m.fn_idx.insert(name.to_string(), idx);
                m.fns.push(FnDecl { name: name.to_string(), body: None, compiled: Default::default() });
            } else if line.starts_with('@') {
                glines.push((i, e));
            } else if line.starts_with('%') {
                tlines.push((i, e));
            }
            i = e + 1;
        }
        for (s, e) in tlines {
            let mut lx = Lx::new(&src, s, e);
            let T::Loc(n) = lx.next() else { continue };
            lx.exp('=');
            if !lx.eat_id("type") {
                continue;
            }
            if lx.tok == T::Id("opaque") {
                continue;
            }
            let t = m.ty(&mut lx);
            m.named.insert(n.to_string(), t);
        }
        let mut addr = GLOBAL_BASE;
        for (s, e) in glines {
            let mut lx = Lx::new(&src, s, e);
            let T::Glo(n) = lx.next() else { continue };
            lx.exp('=');
            let mut external = false;
            let mut is_const = false;
            loop {
                match &lx.tok {
                    T::Id("global") => {
                        lx.next();
                        break;
                    }
                    T::Id("constant") => {
                        is_const = true;
                        lx.next();
                        break;
                    }
                    T::Id("alias") | T::Id("ifunc") => {
                        break;
                    }
                    T::Id("external") | T::Id("extern_weak") => {
                        external = true;
                        lx.next();
                    }
                    T::P(b'(') => lx.skip_parens(),
                    _ => {
                        lx.next();
                    }
                }
            }
            if lx.eat_id("alias") {
                let _ = m.ty(&mut lx);
                lx.exp(',');
                let _ = m.ty(&mut lx);
                if let T::Glo(t) = lx.next() {
                    m.alias.insert(n.to_string(), t.to_string());
                }
                continue;
            }
            // Lx is one token ahead: need the position of the type
            let ty = m.ty(&mut lx);
            let init_pos = tok_start(&lx);
            let size = ty.size();
            let align = 16u64.max(ty.align());
            addr = (addr + align - 1) / align * align;
            let idx = m.globals.len() as u32;
            m.g_idx.insert(n.to_string(), idx);
            m.globals.push(GlobalDecl { name: n.to_string(), addr, size, is_const, external, line: (s, e), ty, init_pos });
            addr += size + 32;
        }
        m.src = src;
        m
    }
    pub fn global_init(&self, gi: u32) -> Vec<u8> {
        let g = &self.globals[gi as usize];
        let mut out = vec![0u8; g.size as usize];
        if g.external {
            return out;
        }
        let mut lx = Lx::new(&self.src, g.init_pos, g.line.1);
        let k = self.konst(&mut lx, &g.ty);
        emit(&k, &g.ty, &mut out, 0);
        out
    }
    pub fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.alias.get(n) {
            return self.sym_addr(a);
        }
        if let Some(&g) = self.g_idx.get(n) {
            return self.globals[g as usize].addr;
        }
        if let Some(&f) = self.fn_idx.get(n) {
            return FN_BASE + 16 * f as u64;
        }
        panic!("unknown symbol {n}")
    }
    fn is_ty_start(&self, t: &T) -> bool {
        match t {
            T::Id(s) => {
                matches!(*s, "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128" | "bfloat" | "x86_amx")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') | T::Loc(_) => true,
            _ => false,
        }
    }
    fn ty(&self, lx: &mut Lx) -> Rc<Ty> {
        let t = match lx.next() {
            T::Id("ptr") => {
                if lx.tok == T::Id("addrspace") {
                    lx.next();
                    lx.skip_parens();
                }
                Rc::new(Ty::Ptr)
            }
            T::Id("void") => Rc::new(Ty::Void),
            T::Id("float") => Rc::new(Ty::Float),
            T::Id("double") => Rc::new(Ty::Double),
            T::Id("label") => Rc::new(Ty::Label),
            T::Id("metadata") => Rc::new(Ty::Meta),
            T::Id(s) if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) => Rc::new(Ty::Int(s[1..].parse().unwrap())),
            T::Id(s) => Rc::new(Ty::Other(s.to_string())),
            T::P(b'{') => {
                let mut v = vec![];
                while !lx.is('}') {
                    v.push(self.ty(lx));
                    if !lx.eat(',') {
                        break;
                    }
                }
                lx.exp('}');
                Rc::new(Ty::Struct(false, v))
            }
            T::P(b'[') => {
                let T::Int(n) = lx.next() else { panic!("array len") };
                let n = n.parse().unwrap();
                if !lx.eat_id("x") {
                    panic!("x")
                }
                let t = self.ty(lx);
                lx.exp(']');
                Rc::new(Ty::Arr(n, t))
            }
            T::P(b'<') => {
                if lx.is('{') {
                    lx.next();
                    let mut v = vec![];
                    while !lx.is('}') {
                        v.push(self.ty(lx));
                        if !lx.eat(',') {
                            break;
                        }
                    }
                    lx.exp('}');
                    lx.exp('>');
                    Rc::new(Ty::Struct(true, v))
                } else {
                    let T::Int(n) = lx.next() else { panic!("vec len") };
                    let n = n.parse().unwrap();
                    if !lx.eat_id("x") {
                        panic!("x")
                    }
                    let t = self.ty(lx);
                    lx.exp('>');
                    Rc::new(Ty::Vec(n, t))
                }
            }
            T::Loc(n) => self.named.get(n).cloned().unwrap_or_else(|| panic!("type %{n}")),
            t => panic!("type? {:?}", t),
        };
        t
    }
    fn konst(&self, lx: &mut Lx, ty: &Rc<Ty>) -> K {
        match lx.next() {
            T::Int(s) => K::I(parse_int(s)),
            T::Flt(s) => {
                let v = if let Some(h) = s.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h, 16).unwrap();
                    match **ty {
                        Ty::Float => (f64::from_bits(bits) as f32).to_bits() as u128,
                        _ => bits as u128,
                    }
                } else {
                    let f: f64 = s.parse().unwrap();
                    match **ty {
                        Ty::Float => (f as f32).to_bits() as u128,
                        _ => f.to_bits() as u128,
                    }
                };
                K::I(v)
            }
            T::Id("true") => K::I(1),
            T::Id("false") => K::I(0),
            T::Id("null") | T::Id("undef") | T::Id("poison") | T::Id("zeroinitializer") | T::Id("none") => K::Zero,
            T::CStr(s) => K::Agg(unesc(s).into_iter().map(|b| K::I(b as u128)).collect()),
            T::Glo(n) => K::I(self.sym_addr(n) as u128),
            T::P(b'[') => {
                let v = self.klist(lx, ']');
                K::Agg(v)
            }
            T::P(b'{') => K::Agg(self.klist(lx, '}')),
            T::P(b'<') => {
                if lx.is('{') {
                    lx.next();
                    let v = self.klist(lx, '}');
                    lx.exp('>');
                    K::Agg(v)
                } else {
                    K::Agg(self.klist(lx, '>'))
                }
            }
            T::Id("splat") => {
                lx.exp('(');
                let t = self.ty(lx);
                let k = self.konst(lx, &t);
                lx.exp(')');
                let n = match &**ty {
                    Ty::Vec(n, _) | Ty::Arr(n, _) => *n,
                    _ => panic!("splat"),
                };
                K::Agg(vec![k; n as usize])
            }
            T::Id("getelementptr") => {
                while let T::Id(s) = lx.tok {
                    match s {
                        "inbounds" | "nuw" | "nusw" => {
                            lx.next();
                        }
                        "inrange" => {
                            lx.next();
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                lx.exp('(');
                let t = self.ty(lx);
                lx.exp(',');
                let pt = self.ty(lx);
                let base = kint(&self.konst(lx, &pt));
                let mut off = 0i128;
                let mut cur = t.clone();
                let mut first = true;
                while lx.eat(',') {
                    let it = self.ty(lx);
                    let k = kint(&self.konst(lx, &it));
                    let k = crate::expr::sx(k & mask(it.bits() as u8), it.bits() as u8);
                    if first {
                        off += k * cur.size() as i128;
                        first = false;
                    } else {
                        let (o, t2) = cur.field_off(if matches!(*cur, Ty::Struct(..)) { k as u64 } else { 0 });
                        if matches!(*cur, Ty::Struct(..)) {
                            off += o as i128;
                        } else {
                            off += k * t2.size() as i128;
                        }
                        cur = t2;
                    }
                }
                lx.exp(')');
                K::I((base as i128 + off) as u128 & mask(64))
            }
            T::Id(op @ ("inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr")) => {
                lx.exp('(');
                let t = self.ty(lx);
                let k = kint(&self.konst(lx, &t));
                if !lx.eat_id("to") {
                    panic!("to")
                }
                let to = self.ty(lx);
                lx.exp(')');
                let v = if op == "sext" { crate::expr::sx(k, t.bits() as u8) as u128 } else { k };
                K::I(v & mask(to.bits() as u8))
            }
            T::Id(op @ ("add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr")) => {
                while let T::Id(_) = lx.tok {
                    lx.next();
                }
                lx.exp('(');
                let t = self.ty(lx);
                let a = kint(&self.konst(lx, &t));
                lx.exp(',');
                let t2 = self.ty(lx);
                let b = kint(&self.konst(lx, &t2));
                lx.exp(')');
                let m = mask(t.bits() as u8);
                K::I(
                    match op {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "mul" => a.wrapping_mul(b),
                        "and" => a & b,
                        "or" => a | b,
                        "shl" => a << (b as u32),
                        _ => (a & m) >> (b as u32),
                    } & m,
                )
            }
            t => panic!("constant? {:?}", t),
        }
    }
    fn klist(&self, lx: &mut Lx, close: char) -> Vec<K> {
        let mut v = vec![];
        while !lx.is(close) {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if !lx.eat(',') {
                break;
            }
        }
        lx.exp(close);
        v
    }
    pub fn func(&self, idx: u32) -> Result<Rc<Func>, String> {
        let d = &self.fns[idx as usize];
        d.compiled
            .get_or_init(|| {
                let Some((s, e)) = d.body else { return Err(format!("no body for {}", d.name)) };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.parse_fn(&d.name, s, e)));
                match r {
                    Ok(f) => Ok(Rc::new(f)),
                    Err(p) => Err(format!("parse {}: {}", d.name, p.downcast_ref::<String>().cloned().unwrap_or_else(|| p.downcast_ref::<&str>().unwrap_or(&"?").to_string()))),
                }
            })
            .clone()
    }
    fn parse_fn(&self, name: &str, s: usize, e: usize) -> Func {
        let mut lx = Lx::new(&self.src, s, e);
        let mut fp = Fp { m: self, regs: Default::default(), blocks: Default::default(), f: Func { name: name.to_string(), params: vec![], nregs: 0, blocks: vec![] } };
        // header up to @name
        while !matches!(lx.tok, T::Glo(_)) {
            lx.next();
        }
        lx.next();
        lx.exp('(');
        let mut anon = 0;
        while !lx.is(')') {
            if lx.tok == T::Dots {
                lx.next();
                break;
            }
            let _t = self.ty(&mut lx);
            // attrs
            loop {
                match &lx.tok {
                    T::Id(_) | T::Str(_) => {
                        lx.next();
                        if lx.is('(') {
                            lx.skip_parens();
                        }
                    }
                    T::Int(_) => {
                        lx.next();
                    }
                    T::P(b'=') => {
                        lx.next();
                    }
                    _ => break,
                }
            }
            if let T::Loc(n) = lx.tok {
                let r = fp.reg(n);
                fp.f.params.push(r);
                lx.next();
            } else {
                let n = format!("{}", anon);
                let r = fp.reg(&n);
                fp.f.params.push(r);
            }
            anon += 1;
            if !lx.eat(',') {
                break;
            }
        }
        lx.exp(')');
        // skip to '{' at end of the line
        while !lx.is('{') {
            lx.next();
        }
        lx.next();
        let mut cur: Option<u32> = None;
        loop {
            match lx.tok.clone() {
                T::Nl => {
                    lx.next();
                }
                T::Eof => break,
                T::P(b'}') => break,
                T::Label(l) => {
                    lx.next();
                    let b = fp.blk(l);
                    cur = Some(b);
                }
                _ => {
                    if cur.is_none() {
                        // unlabeled entry: its implicit number is the next anonymous id
                        let n = format!("{}", anon);
                        cur = Some(fp.blk(&n));
                    }
                    fp.inst(&mut lx, cur.unwrap());
                    lx.skip_line();
                }
            }
        }
        fp.f.nregs = fp.regs.len() as u32;
        // entry must be block 0: blocks are created in order of first mention; reorder
        fp.f
    }
}
fn kint(k: &K) -> u128 {
    match k {
        K::I(v) => *v,
        K::Zero => 0,
        K::Agg(_) => panic!("agg as int"),
    }
}
fn emit(k: &K, ty: &Ty, out: &mut [u8], off: usize) {
    match k {
        K::Zero => {}
        K::I(v) => {
            let n = ty.store_size() as usize;
            for i in 0..n {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        K::Agg(v) => {
            if let Ty::Arr(_, t) = ty {
                let es = t.size() as usize;
                for (i, x) in v.iter().enumerate() {
                    emit(x, t, out, off + i * es);
                }
            } else {
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = ty.field_off(i as u64);
                    emit(x, &t, out, off + o as usize);
                }
            }
        }
    }
}
fn tok_start(lx: &Lx) -> usize {
    // position where the current token begins: re-lex backwards is impossible; compute from tok text
    let len = match &lx.tok {
        T::Id(s) | T::Int(s) | T::Flt(s) => s.len(),
        T::Glo(s) => {
            if lx.s[lx.i - 1] == b'"' {
                s.len() + 3
            } else {
                s.len() + 1
            }
        }
        T::CStr(s) => s.len() + 3,
        T::P(_) => 1,
        _ => 0,
    };
    lx.i - len
}
fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
fn fn_name(line: &str) -> &str {
    let p = line.find('@').unwrap() + 1;
    if line.as_bytes()[p] == b'"' {
        let e = line[p + 1..].find('"').unwrap();
        &line[p + 1..p + 1 + e]
    } else {
        let e = line[p..].bytes().position(|c| !idc(c)).unwrap();
        &line[p..p + e]
    }
}

struct Fp<'m> {
    m: &'m Module,
    regs: FxMap<String, u32>,
    blocks: FxMap<String, u32>,
    f: Func,
}
impl<'m> Fp<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.f.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        self.f.blocks.push(Block { name: n.to_string(), ..Default::default() });
        r
    }
    fn k2o(&self, k: &K, ty: &Ty) -> Opd {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let v = match k {
                    K::Agg(v) => v.iter().map(|x| self.k2o(x, t)).collect(),
                    _ => (0..*n).map(|_| self.k2o(&K::Zero, t)).collect(),
                };
                Opd::Agg(Rc::new(v))
            }
            Ty::Struct(_, ts) => {
                let v = match k {
                    K::Agg(v) => v.iter().zip(ts).map(|(x, t)| self.k2o(x, t)).collect(),
                    _ => ts.iter().map(|t| self.k2o(&K::Zero, t)).collect(),
                };
                Opd::Agg(Rc::new(v))
            }
            _ => {
                let w = ty.bits();
                let v = kint(k) & mask(w.min(128).max(1) as u8);
                if w > 64 {
                    Opd::W(v, w as u8)
                } else {
                    Opd::C(v as u64)
                }
            }
        }
    }
    fn opd(&mut self, lx: &mut Lx, ty: &Rc<Ty>) -> Opd {
        if let T::Loc(n) = lx.tok {
            lx.next();
            return Opd::R(self.reg(n));
        }
        let k = self.m.konst(lx, ty);
        self.k2o(&k, ty)
    }
    fn label(&mut self, lx: &mut Lx) -> u32 {
        if !lx.eat_id("label") {
            panic!("label expected, got {:?}", lx.tok)
        }
        let T::Loc(n) = lx.next() else { panic!("label name") };
        self.blk(n)
    }
    fn lanes(t: &Ty) -> (u8, u32) {
        match t {
            Ty::Vec(n, e) => (e.bits() as u8, *n as u32),
            _ => (t.bits() as u8, 0),
        }
    }
    fn inst(&mut self, lx: &mut Lx, b: u32) {
        let mut d: Option<u32> = None;
        if let T::Loc(n) = lx.tok {
            lx.next();
            lx.exp('=');
            d = Some(self.reg(n));
        }
        let T::Id(op) = lx.next() else { panic!("opcode") };
        let dst = d.unwrap_or(u32::MAX);
        let mut op = op;
        if matches!(op, "tail" | "musttail" | "notail") {
            let T::Id(o2) = lx.next() else { panic!() };
            op = o2;
        }
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(lx.tok, T::Id("nuw" | "nsw" | "exact" | "disjoint")) {
                    lx.next();
                }
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let bb = self.opd(lx, &t);
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    "ashr" => Op::AShr,
                    "and" => Op::And,
                    "or" => Op::Or,
                    _ => Op::Xor,
                };
                let (w, lanes) = Self::lanes(&t);
                if Self::lanes(&t).0 as u32 > 128 || t.bits() > 128 && lanes == 0 {
                    I::Unsupported(format!("wide int i{}", t.bits()))
                } else {
                    I::Bin { op: o, w, lanes, d: dst, a, b: bb }
                }
            }
            "icmp" => {
                lx.eat_id("samesign");
                let T::Id(p) = lx.next() else { panic!() };
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => panic!("pred {p}"),
                };
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let bb = self.opd(lx, &t);
                let (w, lanes) = Self::lanes(&t);
                I::Icmp { p, w, lanes, d: dst, a, b: bb }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::Id(s) = lx.tok {
                    if self.m.is_ty_start(&T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let bb = self.opd(lx, &t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                if matches!(*t, Ty::Float | Ty::Double) {
                    I::FBin { op: o, dbl: *t == Ty::Double, d: dst, a, b: bb }
                } else {
                    I::Unsupported("vector fp".into())
                }
            }
            "fneg" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                I::FNeg { dbl: *t == Ty::Double, d: dst, a }
            }
            "fcmp" => {
                let mut p = String::new();
                while let T::Id(s) = lx.tok {
                    if self.m.is_ty_start(&T::Id(s)) {
                        break;
                    }
                    p = s.to_string();
                    lx.next();
                }
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let bb = self.opd(lx, &t);
                I::Fcmp { p, dbl: *t == Ty::Double, d: dst, a, b: bb }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                while matches!(lx.tok, T::Id("nuw" | "nsw" | "nneg")) {
                    lx.next();
                }
                let from = self.m.ty(lx);
                let a = self.opd(lx, &from);
                if !lx.eat_id("to") {
                    panic!("to")
                }
                let to = self.m.ty(lx);
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    "ptrtoint" | "ptrtoaddr" if to.bits() < 64 => CastK::Trunc,
                    "inttoptr" if from.bits() < 64 => CastK::ZExt,
                    _ => CastK::Bit,
                };
                I::Cast { k, from, to, d: dst, a }
            }
            "freeze" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                I::Copy { d: dst, a }
            }
            "load" => {
                while matches!(lx.tok, T::Id("atomic" | "volatile")) {
                    lx.next();
                }
                let t = self.m.ty(lx);
                lx.exp(',');
                let pt = self.m.ty(lx);
                let p = self.opd(lx, &pt);
                I::Load { d: dst, ty: t, p }
            }
            "store" => {
                while matches!(lx.tok, T::Id("atomic" | "volatile")) {
                    lx.next();
                }
                let t = self.m.ty(lx);
                let v = self.opd(lx, &t);
                lx.exp(',');
                let pt = self.m.ty(lx);
                let p = self.opd(lx, &pt);
                I::Store { ty: t, v, p }
            }
            "getelementptr" => {
                while let T::Id(s) = lx.tok {
                    match s {
                        "inbounds" | "nuw" | "nusw" => {
                            lx.next();
                        }
                        "inrange" => {
                            lx.next();
                            lx.skip_parens();
                        }
                        _ => break,
                    }
                }
                let t = self.m.ty(lx);
                lx.exp(',');
                let pt = self.m.ty(lx);
                if !matches!(*pt, Ty::Ptr) {
                    panic!("vector gep");
                }
                let base = self.opd(lx, &pt);
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while lx.is(',') {
                    lx.next();
                    if lx.tok == T::Md {
                        break;
                    }
                    let it = self.m.ty(lx);
                    let o = self.opd(lx, &it);
                    let w = it.bits() as u8;
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &*cur.clone() {
                            Ty::Struct(..) => {
                                let Opd::C(k) = o else { panic!("struct gep") };
                                let (fo, t2) = cur.field_off(k);
                                off += fo as i64;
                                cur = t2;
                                continue;
                            }
                            Ty::Arr(_, t2) | Ty::Vec(_, t2) => {
                                scale = t2.size();
                                cur = t2.clone();
                            }
                            _ => panic!("gep into scalar"),
                        }
                    }
                    match o {
                        Opd::C(k) => off = off.wrapping_add((crate::expr::sx(k as u128, w) as i64).wrapping_mul(scale as i64)),
                        o => terms.push((o, w, scale)),
                    }
                }
                I::Gep { d: dst, base, off, terms }
            }
            "select" => {
                while let T::Id(s) = lx.tok {
                    if self.m.is_ty_start(&T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let ct = self.m.ty(lx);
                let c = self.opd(lx, &ct);
                lx.exp(',');
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let t2 = self.m.ty(lx);
                let bb = self.opd(lx, &t2);
                let lanes = if let Ty::Vec(n, _) = &*ct { *n as u32 } else { 0 };
                I::Select { d: dst, lanes, ty: t, c, a, b: bb }
            }
            "phi" => {
                while let T::Id(s) = lx.tok {
                    if self.m.is_ty_start(&T::Id(s)) {
                        break;
                    }
                    lx.next();
                }
                let t = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    lx.exp('[');
                    let v = self.opd(lx, &t);
                    lx.exp(',');
                    let T::Loc(n) = lx.next() else { panic!("phi label") };
                    let bb = self.blk(n);
                    lx.exp(']');
                    inc.push((bb, v));
                    if lx.is(',') {
                        lx.next();
                        if lx.tok == T::Md {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.f.blocks[b as usize].phis.push(Phi { d: dst, ty: t, inc });
                return;
            }
            "alloca" => {
                lx.eat_id("inalloca");
                let t = self.m.ty(lx);
                let mut n = Opd::C(1);
                let mut align = t.align();
                while lx.eat(',') {
                    if lx.eat_id("align") {
                        if let T::Int(s) = lx.next() {
                            align = s.parse().unwrap();
                        }
                    } else if self.m.is_ty_start(&lx.tok) {
                        let nt = self.m.ty(lx);
                        n = self.opd(lx, &nt);
                    } else {
                        break;
                    }
                }
                I::Alloca { d: dst, size: t.size(), align, n }
            }
            "br" => {
                if lx.tok == T::Id("label") {
                    I::Br(self.label(lx))
                } else {
                    let t = self.m.ty(lx);
                    let c = self.opd(lx, &t);
                    lx.exp(',');
                    let x = self.label(lx);
                    lx.exp(',');
                    let y = self.label(lx);
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let t = self.m.ty(lx);
                let v = self.opd(lx, &t);
                lx.exp(',');
                let def = self.label(lx);
                lx.exp('[');
                let mut cs = vec![];
                loop {
                    while lx.tok == T::Nl {
                        lx.next();
                    }
                    if lx.eat(']') {
                        break;
                    }
                    let t2 = self.m.ty(lx);
                    let k = kint(&self.m.konst(lx, &t2)) & mask(t2.bits() as u8);
                    lx.exp(',');
                    let l = self.label(lx);
                    cs.push((k, l));
                }
                I::Switch(v, t.bits() as u8, cs, def)
            }
            "ret" => {
                let t = self.m.ty(lx);
                if *t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.opd(lx, &t);
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" | "landingpad" | "cleanuppad" | "catchswitch" | "catchpad" | "cleanupret" | "catchret" => {
                if op == "landingpad" {
                    // clauses on following lines
                    lx.skip_line();
                    loop {
                        let save = (lx.i, lx.tok.clone(), lx.line_start);
                        while lx.tok == T::Nl {
                            lx.next();
                        }
                        if matches!(lx.tok, T::Id("cleanup" | "catch" | "filter")) {
                            lx.skip_line();
                        } else {
                            lx.i = save.0;
                            lx.tok = save.1;
                            lx.line_start = save.2;
                            break;
                        }
                    }
                }
                I::Unsupported(op.to_string())
            }
            "extractvalue" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                let mut idx = vec![];
                while lx.eat(',') {
                    if let T::Int(s) = lx.tok {
                        idx.push(s.parse().unwrap());
                        lx.next();
                    } else {
                        break;
                    }
                }
                I::ExtractValue { d: dst, a, idx }
            }
            "insertvalue" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let vt = self.m.ty(lx);
                let v = self.opd(lx, &vt);
                let mut idx = vec![];
                while lx.eat(',') {
                    if let T::Int(s) = lx.tok {
                        idx.push(s.parse().unwrap());
                        lx.next();
                    } else {
                        break;
                    }
                }
                I::InsertValue { d: dst, ty: t, a, v, idx }
            }
            "extractelement" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let it = self.m.ty(lx);
                let i = self.opd(lx, &it);
                I::ExtractElem { d: dst, a, i }
            }
            "insertelement" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let vt = self.m.ty(lx);
                let v = self.opd(lx, &vt);
                lx.exp(',');
                let it = self.m.ty(lx);
                let i = self.opd(lx, &it);
                I::InsertElem { d: dst, a, v, i }
            }
            "shufflevector" => {
                let t = self.m.ty(lx);
                let a = self.opd(lx, &t);
                lx.exp(',');
                let t2 = self.m.ty(lx);
                let bb = self.opd(lx, &t2);
                lx.exp(',');
                let mt = self.m.ty(lx);
                let Ty::Vec(n, _) = &*t else { panic!() };
                let Ty::Vec(mn, _) = &*mt else { panic!() };
                let mut m = vec![];
                if lx.tok == T::P(b'<') {
                    lx.next();
                    while !lx.is('>') {
                        let et = self.m.ty(lx);
                        if matches!(lx.tok, T::Id("poison" | "undef")) {
                            lx.next();
                            m.push(None);
                        } else {
                            m.push(Some(kint(&self.m.konst(lx, &et)) as u32));
                        }
                        if !lx.eat(',') {
                            break;
                        }
                    }
                } else {
                    m = (0..*mn).map(|_| Some(0)).collect();
                }
                I::Shuffle { d: dst, a, b: bb, n: *n as u32, m }
            }
            "fence" => return,
            "atomicrmw" => {
                lx.eat_id("volatile");
                let T::Id(o) = lx.next() else { panic!() };
                let pt = self.m.ty(lx);
                let p = self.opd(lx, &pt);
                lx.exp(',');
                let t = self.m.ty(lx);
                let v = self.opd(lx, &t);
                I::Rmw { d: dst, op: o.to_string(), w: t.bits() as u8, p, v }
            }
            "cmpxchg" => {
                while matches!(lx.tok, T::Id("weak" | "volatile")) {
                    lx.next();
                }
                let pt = self.m.ty(lx);
                let p = self.opd(lx, &pt);
                lx.exp(',');
                let t = self.m.ty(lx);
                let c = self.opd(lx, &t);
                lx.exp(',');
                let t2 = self.m.ty(lx);
                let n = self.opd(lx, &t2);
                I::CmpXchg { d: dst, w: t.bits() as u8, p, c, n }
            }
            "call" | "invoke" => {
                while !self.m.is_ty_start(&lx.tok) {
                    match lx.next() {
                        T::Id(_) => {
                            if lx.is('(') {
                                lx.skip_parens();
                            }
                        }
                        T::Int(_) => {}
                        t => panic!("call prefix {:?}", t),
                    }
                }
                let ret = self.m.ty(lx);
                if lx.is('(') {
                    lx.skip_parens();
                }
                let callee = match lx.next() {
                    T::Glo(n) => {
                        if n.starts_with("llvm.") {
                            Callee::Intrinsic(n.to_string())
                        } else {
                            let n = self.m.alias.get(n).map(|s| s.as_str()).unwrap_or(n);
                            match self.m.fn_idx.get(n) {
                                Some(&i) => Callee::Fn(i),
                                None => panic!("callee {n}"),
                            }
                        }
                    }
                    T::Loc(n) => Callee::Dyn(Opd::R(self.reg(n))),
                    T::Id("asm") => {
                        let mut s = String::new();
                        while !lx.is('(') {
                            if let T::Str(x) = lx.next() {
                                if s.is_empty() {
                                    s = format!("{x} ");
                                }
                            }
                        }
                        Callee::Asm(s)
                    }
                    t => panic!("callee {:?}", t),
                };
                lx.exp('(');
                let mut args = vec![];
                while !lx.is(')') {
                    let t = self.m.ty(lx);
                    if *t == Ty::Meta {
                        // skip a metadata operand
                        let mut dep = 0;
                        loop {
                            match &lx.tok {
                                T::P(b'(') | T::P(b'{') => dep += 1,
                                T::P(b')') | T::P(b'}') => {
                                    if dep == 0 {
                                        break;
                                    }
                                    dep -= 1
                                }
                                T::P(b',') if dep == 0 => break,
                                _ => {}
                            }
                            lx.next();
                        }
                        args.push((t, Opd::C(0), 0));
                        if !lx.eat(',') {
                            break;
                        }
                        continue;
                    }
                    let mut byval = 0u64;
                    loop {
                        match lx.tok.clone() {
                            T::Id("byval") => {
                                lx.next();
                                lx.exp('(');
                                let bt = self.m.ty(lx);
                                byval = bt.size();
                                lx.exp(')');
                            }
                            T::Id(s) if matches!(s, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "bitcast" | "trunc" | "none" | "add" | "sub" | "xor") => break,
                            T::Id("align") => {
                                lx.next();
                                if lx.is('(') {
                                    lx.skip_parens();
                                } else {
                                    lx.next();
                                }
                            }
                            T::Id(_) | T::Str(_) => {
                                lx.next();
                                if lx.is('(') {
                                    lx.skip_parens();
                                }
                                if lx.is('=') {
                                    lx.next();
                                    lx.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opd(lx, &t);
                    args.push((t, o, byval));
                    if !lx.eat(',') {
                        break;
                    }
                }
                lx.exp(')');
                let mut normal = None;
                if op == "invoke" {
                    while lx.tok != T::Id("to") {
                        lx.next();
                    }
                    lx.next();
                    normal = Some(self.label(lx));
                    while lx.tok != T::Id("unwind") {
                        lx.next();
                    }
                }
                I::Call { d, callee, args, ret, normal }
            }
            o => I::Unsupported(o.to_string()),
        };
        self.f.blocks[b as usize].ins.push(ins);
    }
}
