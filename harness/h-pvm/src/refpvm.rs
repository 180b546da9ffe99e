//! Reference semantics of one PVM instruction, written from the Gray Paper's tables
//! (appendix A), independently of the implementation: plain integer arithmetic, no shared helpers.
use sx::sel;

pub fn sext(x: u64, n: u32) -> u64 {
    if n == 0 {
        return 0;
    }
    let s = 64 - 8 * n;
    (((x << s) as i64) >> s) as u64
}
/// little-endian value of n bytes starting at i; bytes past the end of the code are zero
pub fn le(code: &[u8], i: usize, n: usize) -> u64 {
    let mut v = 0u64;
    for k in 0..n {
        let b = if i + k < code.len() { code[i + k] } else { 0 };
        v |= (b as u64) << (8 * k);
    }
    v
}
fn b2u(c: bool) -> u64 {
    c as u64
}
pub fn min12(x: u8) -> usize {
    (if x < 12 { x } else { 12 }) as usize
}
pub fn s32(x: u64) -> u64 {
    x as u32 as i32 as i64 as u64
}

/// what the instruction does
#[derive(Clone, Copy, PartialEq)]
pub enum Eff {
    /// write register, go to the next instruction
    Reg(usize, u64),
    /// load `len` bytes (signed?) from the address into the register
    Load { rd: usize, addr: u32, len: u32, signed: bool },
    /// store the low `len` bytes
    Store { addr: u32, len: u32, val: u64 },
    /// conditional jump to a code offset
    Branch { cond: bool, target: u64 },
    /// jump to a code offset with a register write
    LinkJump { rd: usize, val: u64, target: u64 },
    /// dynamic jump, with an optional register write
    DJump { rd: usize, val: u64, link: bool, a: u32 },
    Ecall(u64),
    Trap,
    Nop,
    Sbrk { rd: usize, size: u64 },
}

/// Operand immediate lengths are derived from `skip`, the distance to the next opcode minus one.
/// `lx_raw`: for the encodings with two immediates, the (concrete) value of the three length bits.
pub fn decode(code: &[u8], pc: usize, skip: usize, lx_raw: usize, r: &[u64; 13]) -> Eff {
    let op = code[pc];
    let b1 = if pc + 1 < code.len() { code[pc + 1] } else { 0 };
    let b2 = if pc + 2 < code.len() { code[pc + 2] } else { 0 };
    let lo = min12(b1 % 16);
    let hi = min12(b1 / 16);
    match op {
        0 => Eff::Trap,
        1 => Eff::Nop,
        10 => {
            let l = skip.min(4);
            Eff::Ecall(sext(le(code, pc + 1, l), l as u32))
        }
        20 => Eff::Reg(lo, le(code, pc + 2, 8)),
        30..=33 => {
            let lx = lx_raw.min(4);
            let ly = if skip > lx + 1 { (skip - lx - 1).min(4) } else { 0 };
            let x = sext(le(code, pc + 2, lx), lx as u32);
            let y = sext(le(code, pc + 2 + lx, ly), ly as u32);
            Eff::Store { addr: x as u32, len: 1 << (op - 30), val: y }
        }
        40 => {
            let l = skip.min(4);
            Eff::Branch { cond: true, target: (pc as u64).wrapping_add(sext(le(code, pc + 1, l), l as u32)) }
        }
        50..=62 => {
            let l = if skip > 1 { (skip - 1).min(4) } else { 0 };
            let x = sext(le(code, pc + 2, l), l as u32);
            let ra = r[lo];
            match op {
                50 => Eff::DJump { rd: 0, val: 0, link: false, a: ra.wrapping_add(x) as u32 },
                51 => Eff::Reg(lo, x),
                52 => Eff::Load { rd: lo, addr: x as u32, len: 1, signed: false },
                53 => Eff::Load { rd: lo, addr: x as u32, len: 1, signed: true },
                54 => Eff::Load { rd: lo, addr: x as u32, len: 2, signed: false },
                55 => Eff::Load { rd: lo, addr: x as u32, len: 2, signed: true },
                56 => Eff::Load { rd: lo, addr: x as u32, len: 4, signed: false },
                57 => Eff::Load { rd: lo, addr: x as u32, len: 4, signed: true },
                58 => Eff::Load { rd: lo, addr: x as u32, len: 8, signed: false },
                _ => Eff::Store { addr: x as u32, len: 1 << (op - 59), val: ra },
            }
        }
        70..=73 | 80..=90 => {
            let lx = lx_raw.min(4);
            let ly = if skip > lx + 1 { (skip - lx - 1).min(4) } else { 0 };
            let x = sext(le(code, pc + 2, lx), lx as u32);
            let y = sext(le(code, pc + 2 + lx, ly), ly as u32);
            let a = r[lo];
            let t = (pc as u64).wrapping_add(y);
            let (ai, xi) = (a as i64, x as i64);
            match op {
                70..=73 => Eff::Store { addr: a.wrapping_add(x) as u32, len: 1 << (op - 70), val: y },
                80 => Eff::LinkJump { rd: lo, val: x, target: t },
                81 => Eff::Branch { cond: a == x, target: t },
                82 => Eff::Branch { cond: a != x, target: t },
                83 => Eff::Branch { cond: a < x, target: t },
                84 => Eff::Branch { cond: a <= x, target: t },
                85 => Eff::Branch { cond: a >= x, target: t },
                86 => Eff::Branch { cond: a > x, target: t },
                87 => Eff::Branch { cond: ai < xi, target: t },
                88 => Eff::Branch { cond: ai <= xi, target: t },
                89 => Eff::Branch { cond: ai >= xi, target: t },
                _ => Eff::Branch { cond: ai > xi, target: t },
            }
        }
        100..=111 => {
            let a = r[hi];
            let v = match op {
                100 => a,
                101 => return Eff::Sbrk { rd: lo, size: a },
                102 => popcount(a, 64),
                103 => popcount(a, 32),
                104 => lead(a, 64),
                105 => lead(a, 32),
                106 => trail(a, 64),
                107 => trail(a, 32),
                108 => sext(a, 1),
                109 => sext(a, 2),
                110 => a & 0xffff,
                _ => {
                    let mut v = 0u64;
                    for k in 0..8 {
                        v |= ((a >> (8 * k)) & 0xff) << (8 * (7 - k));
                    }
                    v
                }
            };
            Eff::Reg(lo, v)
        }
        120..=161 => {
            let l = if skip > 1 { (skip - 1).min(4) } else { 0 };
            let x = sext(le(code, pc + 2, l), l as u32);
            let (ra, rb) = (r[lo], r[hi]);
            let ad = rb.wrapping_add(x) as u32;
            let m32 = 0xffff_ffffu64;
            let v = match op {
                120..=123 => return Eff::Store { addr: ad, len: 1 << (op - 120), val: ra },
                124 => return Eff::Load { rd: lo, addr: ad, len: 1, signed: false },
                125 => return Eff::Load { rd: lo, addr: ad, len: 1, signed: true },
                126 => return Eff::Load { rd: lo, addr: ad, len: 2, signed: false },
                127 => return Eff::Load { rd: lo, addr: ad, len: 2, signed: true },
                128 => return Eff::Load { rd: lo, addr: ad, len: 4, signed: false },
                129 => return Eff::Load { rd: lo, addr: ad, len: 4, signed: true },
                130 => return Eff::Load { rd: lo, addr: ad, len: 8, signed: false },
                131 => s32(rb.wrapping_add(x)),
                132 => rb & x,
                133 => rb ^ x,
                134 => rb | x,
                135 => s32(rb.wrapping_mul(x)),
                136 => b2u(rb < x),
                137 => b2u((rb as i64) < (x as i64)),
                138 => s32((rb & m32) << (x & 31)),
                139 => s32((rb & m32) >> (x & 31)),
                140 => (s32(rb) as i64 >> (x & 31)) as u64,
                141 => s32(x.wrapping_sub(rb)),
                142 => b2u(rb > x),
                143 => b2u((rb as i64) > (x as i64)),
                144 => s32((x & m32) << (rb & 31)),
                145 => s32((x & m32) >> (rb & 31)),
                146 => (s32(x) as i64 >> (rb & 31)) as u64,
                147 => sel(rb == 0, x, ra),
                148 => sel(rb != 0, x, ra),
                149 => rb.wrapping_add(x),
                150 => rb.wrapping_mul(x),
                151 => rb << (x & 63),
                152 => rb >> (x & 63),
                153 => ((rb as i64) >> (x & 63)) as u64,
                154 => x.wrapping_sub(rb),
                155 => x << (rb & 63),
                156 => x >> (rb & 63),
                157 => ((x as i64) >> (rb & 63)) as u64,
                158 => rotr64(rb, x),
                159 => rotr64(x, rb),
                160 => s32(rotr32(rb, x)),
                _ => s32(rotr32(x, rb)),
            };
            Eff::Reg(lo, v)
        }
        170..=175 => {
            let l = if skip > 1 { (skip - 1).min(4) } else { 0 };
            let t = (pc as u64).wrapping_add(sext(le(code, pc + 2, l), l as u32));
            let (a, b) = (r[lo], r[hi]);
            let c = match op {
                170 => a == b,
                171 => a != b,
                172 => a < b,
                173 => (a as i64) < (b as i64),
                174 => a >= b,
                _ => (a as i64) >= (b as i64),
            };
            Eff::Branch { cond: c, target: t }
        }
        180 => {
            let lx = lx_raw.min(4);
            let ly = if skip > lx + 2 { (skip - lx - 2).min(4) } else { 0 };
            let x = sext(le(code, pc + 3, lx), lx as u32);
            let y = sext(le(code, pc + 3 + lx, ly), ly as u32);
            Eff::DJump { rd: lo, val: x, link: true, a: r[hi].wrapping_add(y) as u32 }
        }
        190..=230 => {
            let (a, b) = (r[lo], r[hi]);
            let rd = min12(b2);
            let old = r[rd];
            Eff::Reg(rd, alu(op, a, b, old))
        }
        _ => Eff::Trap,
    }
}

pub fn popcount(a: u64, n: u32) -> u64 {
    let mut c = 0u64;
    for i in 0..n {
        c += (a >> i) & 1;
    }
    c
}
pub fn lead(a: u64, n: u32) -> u64 {
    let mut c = 0u64;
    let mut run = 1u64;
    for i in (0..n).rev() {
        run &= ((a >> i) & 1) ^ 1;
        c += run;
    }
    c
}
pub fn trail(a: u64, n: u32) -> u64 {
    let mut c = 0u64;
    let mut run = 1u64;
    for i in 0..n {
        run &= ((a >> i) & 1) ^ 1;
        c += run;
    }
    c
}
pub fn rotr64(v: u64, by: u64) -> u64 {
    let s = by & 63;
    (v >> s) | (v << ((64 - s) & 63))
}
pub fn rotr32(v: u64, by: u64) -> u64 {
    let v = v as u32;
    let s = (by & 31) as u32;
    ((v >> s) | (v << ((32 - s) & 31))) as u64
}
fn abs64(x: i64) -> u64 {
    sel(x < 0, (x as u64).wrapping_neg(), x as u64)
}
/// three-register operations
pub fn alu(op: u8, a: u64, b: u64, old: u64) -> u64 {
    let m32 = 0xffff_ffffu64;
    let (a32, b32) = (a as u32, b as u32);
    match op {
        190 => s32(a.wrapping_add(b)),
        191 => s32(a.wrapping_sub(b)),
        192 => s32(a.wrapping_mul(b)),
        193 => {
            if b32 == 0 {
                u64::MAX
            } else {
                s32((a32 / b32) as u64)
            }
        }
        194 => {
            let (x, y) = (a32 as i32, b32 as i32);
            if y == 0 {
                u64::MAX
            } else if x == i32::MIN && y == -1 {
                x as i64 as u64
            } else {
                (x / y) as i64 as u64
            }
        }
        195 => {
            if b32 == 0 {
                s32(a)
            } else {
                s32((a32 % b32) as u64)
            }
        }
        196 => {
            let (x, y) = (a32 as i32, b32 as i32);
            if y == 0 {
                x as i64 as u64
            } else if x == i32::MIN && y == -1 {
                0
            } else {
                (x % y) as i64 as u64
            }
        }
        197 => s32((a & m32) << (b & 31)),
        198 => s32((a & m32) >> (b & 31)),
        199 => (s32(a) as i64 >> (b & 31)) as u64,
        200 => a.wrapping_add(b),
        201 => a.wrapping_sub(b),
        202 => a.wrapping_mul(b),
        203 => {
            if b == 0 {
                u64::MAX
            } else {
                a / b
            }
        }
        204 => {
            let (x, y) = (a as i64, b as i64);
            if y == 0 {
                u64::MAX
            } else if x == i64::MIN && y == -1 {
                a
            } else {
                (x / y) as u64
            }
        }
        205 => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        206 => {
            let (x, y) = (a as i64, b as i64);
            if y == 0 {
                a
            } else if x == i64::MIN && y == -1 {
                0
            } else {
                (x % y) as u64
            }
        }
        207 => a << (b & 63),
        208 => a >> (b & 63),
        209 => ((a as i64) >> (b & 63)) as u64,
        210 => a & b,
        211 => a ^ b,
        212 => a | b,
        213 => (((a as i64 as i128) * (b as i64 as i128)) >> 64) as u64,
        214 => (((a as u128) * (b as u128)) >> 64) as u64,
        215 => (((a as i64 as i128) * (b as u128 as i128)) >> 64) as u64,
        216 => b2u(a < b),
        217 => b2u((a as i64) < (b as i64)),
        218 => sel(b == 0, a, old),
        219 => sel(b != 0, a, old),
        220 => rotr64(a, 0u64.wrapping_sub(b)),
        221 => s32(rotr32(a, 0u64.wrapping_sub(b))),
        222 => rotr64(a, b),
        223 => s32(rotr32(a, b)),
        224 => a & !b,
        225 => a | !b,
        226 => !(a ^ b),
        227 => sel((a as i64) > (b as i64), a, b),
        228 => sel(a > b, a, b),
        229 => sel((a as i64) < (b as i64), a, b),
        _ => sel(a < b, a, b),
    }
}
#[allow(dead_code)]
pub fn _u() {
    let _ = abs64(0);
}

/// (base, count of length bits location) whether the encoding carries explicit length bits and where
pub fn lx_bits(op: u8) -> Option<(usize, u32)> {
    match op {
        30..=33 => Some((1, 0)),
        70..=73 | 80..=90 => Some((1, 4)),
        180 => Some((2, 0)),
        _ => None,
    }
}
