//! The serialization codec.
use crate::refc::*;
use bitvec::prelude::*;
use fr_codec::prelude::*;
use fr_common::{ByteArray, ByteSequence};
use fr_limited_vec::{FixedVec, LimitedVec};
use std::collections::{BTreeMap, BTreeSet};
use sx::*;

/// decode the whole of `b`, returning what is left over
fn dec<T: JamDecode>(b: &[u8]) -> (Option<T>, usize) {
    let mut s = b;
    let r = T::decode(&mut s).ok();
    (r, s.len())
}
fn enc<T: JamEncode>(v: &T) -> Vec<u8> {
    match v.encode() {
        Ok(b) => b,
        Err(_) => {
            check!(false);
            vec![]
        }
    }
}
/// encode == want; decode(encode) == v, consuming everything even with further bytes behind
fn round<T: JamEncode + JamDecode + PartialEq>(v: &T, want: &[u8]) {
    let e = enc(v);
    check!(e.len() == want.len());
    check!(same(&e, want));
    let mut e2 = e;
    e2.push(sx::u8());
    let (r, left) = dec::<T>(&e2);
    check!(left == 1);
    match r {
        Some(x) => check!(x == *v),
        None => check!(false),
    }
}
/// whatever is decoded is re-encoded to exactly the bytes consumed
fn canon<T: JamEncode + JamDecode>(b: &[u8]) -> Option<T> {
    let (r, left) = dec::<T>(b);
    check!(left <= b.len());
    if let Some(v) = &r {
        let e = enc(v);
        check!(e.len() == b.len() - left);
        check!(same(&e, &b[..b.len() - left]));
    }
    r
}

macro_rules! nat_entry {
    ($n:ident, $t:ty) => {
        #[no_mangle]
        pub extern "C" fn $n() {
            let v = sx::u64();
            let x = v as $t;
            assume(x as u64 == v);
            let w = nat(v);
            check!(x.size_hint() == w.len());
            round(&x, &w);
            cover(1);
            if w.len() > <$t>::BITS as usize / 8 {
                cover(2);
            }
        }
    };
}
// the annotations are read per function: keep one per line
//@ C01 covers=2 time=60
//@ bound: every u64
#[no_mangle]
pub extern "C" fn c01_enc_u64() {
    c01_u64_();
}
nat_entry!(c01_u64_, u64);
//@ C01 covers=2 time=60
//@ bound: every u8, u16, u32 and usize (one of the types per path)
#[no_mangle]
pub extern "C" fn c01_enc_narrow() {
    match pick(0, 3) {
        0 => c01_u8_(),
        1 => c01_u16_(),
        2 => c01_u32_(),
        _ => c01_us_(),
    }
}
nat_entry!(c01_u8_, u8);
nat_entry!(c01_u16_, u16);
nat_entry!(c01_u32_, u32);
nat_entry!(c01_us_, usize);

fn dec_nat<T: JamDecode + Copy>(max: u64, val: fn(T) -> u64) {
    let n = pick_usize(0, 10);
    let b = sx::vec(n);
    let (r, left) = dec::<T>(&b);
    let mut i = 0;
    let want = rd_nat(&b, &mut i);
    match (r, want) {
        (Some(x), Some(w)) => {
            cover(1);
            check!(val(x) == w);
            check!(left == n - i);
        }
        (None, None) => cover(2),
        (None, Some(w)) => {
            cover(3);
            check!(w > max);
        }
        _ => check!(false),
    }
}
//@ C01 covers=2 time=60
//@ bound: every input of 0..10 bytes, as u64
#[no_mangle]
pub extern "C" fn c01_dec_u64() {
    dec_nat::<u64>(u64::MAX, |x| x)
}
//@ C01 covers=3 time=100
//@ bound: every input of 0..10 bytes, as u8, u16, u32 or usize
#[no_mangle]
pub extern "C" fn c01_dec_narrow() {
    match pick(0, 3) {
        0 => dec_nat::<u8>(0xff, |x| x as u64),
        1 => dec_nat::<u16>(0xffff, |x| x as u64),
        2 => dec_nat::<u32>(u32::MAX as u64, |x| x as u64),
        _ => dec_nat::<usize>(u64::MAX, |x| x as u64),
    }
}

fn fixed<T: JamEncodeFixed + JamDecodeFixed + Copy + PartialEq>(x: T, v: u64, width: usize) {
    let size = pick_usize(0, 9);
    let r = x.encode_fixed(size);
    let fits = size <= 8 && (size == 8 || v >> (8 * size) == 0);
    match r {
        Ok(b) => {
            cover(1);
            check!(fits);
            check!(b.len() == size);
            check!(le(&b) == v);
            let mut s = &b[..];
            let d = T::decode_fixed(&mut s, size);
            if size <= width {
                match d {
                    Ok(y) => check!(y == x && s.is_empty()),
                    Err(_) => check!(false),
                }
            } else {
                check!(d.is_err());
            }
        }
        Err(_) => {
            cover(2);
            check!(!fits);
        }
    }
}
//@ C02 covers=2 time=60
//@ bound: every value of every unsigned type, sizes 0..9
#[no_mangle]
pub extern "C" fn c02_fixed_enc() {
    let v = sx::u64();
    match pick(0, 4) {
        0 => fixed(v as u8, v as u8 as u64, 1),
        1 => fixed(v as u16, v as u16 as u64, 2),
        2 => fixed(v as u32, v as u32 as u64, 4),
        3 => fixed(v as usize, v, 8),
        _ => fixed(v, v, 8),
    }
}
fn fixed_dec<T: JamDecodeFixed>(width: usize, val: fn(T) -> u64) {
    let n = pick_usize(0, 9);
    let size = pick_usize(0, 9);
    let b = sx::vec(n);
    let mut s = &b[..];
    match T::decode_fixed(&mut s, size) {
        Ok(x) => {
            cover(1);
            check!(size <= width && size <= n);
            check!(s.len() == n - size);
            check!(val(x) == le(&b[..size]));
        }
        Err(_) => {
            cover(2);
            check!(size > width || size > n);
        }
    }
}
//@ C02 covers=2 time=60
//@ bound: every input of 0..9 bytes, sizes 0..9, every unsigned type
#[no_mangle]
pub extern "C" fn c02_fixed_dec() {
    match pick(0, 4) {
        0 => fixed_dec::<u8>(1, |x| x as u64),
        1 => fixed_dec::<u16>(2, |x| x as u64),
        2 => fixed_dec::<u32>(4, |x| x as u64),
        3 => fixed_dec::<usize>(8, |x| x as u64),
        _ => fixed_dec::<u64>(8, |x| x),
    }
}
//@ C02 covers=4 time=60
//@ bound: octet sequences and arrays of 0..5 octets, requested sizes 0..6
#[no_mangle]
pub extern "C" fn c02_octets() {
    let n = pick_usize(0, 5);
    let b = sx::vec(n);
    let size = pick_usize(0, 6);
    let v = ByteSequence::from_vec(b.clone());
    for r in [v.encode_fixed(size), b.encode_fixed(size)] {
        // (the generic vector encodes its octets as numbers)
        check!(r.is_ok() == (n == size));
    }
    if let Ok(e) = v.encode_fixed(size) {
        cover(1);
        check!(same(&e, &b));
    }
    let mut s = &b[..];
    match ByteSequence::decode_fixed(&mut s, size) {
        Ok(x) => {
            cover(2);
            check!(size <= n && s.len() == n - size);
            check!(same(&x, &b[..size]));
        }
        Err(_) => {
            cover(3);
            check!(size > n);
        }
    }
    let mut s = &b[..];
    match ByteArray::<4>::decode(&mut s) {
        Ok(x) => {
            check!(n >= 4 && s.len() == n - 4);
            check!(same(&x.0, &b[..4]));
            check!(same(&enc(&x), &b[..4]));
        }
        Err(_) => {
            cover(4);
            check!(n < 4);
        }
    }
}

// ---- containers --------------------------------------------------------------------------------
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
fn nats(xs: &[u64]) -> Vec<u8> {
    let mut v = vec![];
    for x in xs {
        v.extend_from_slice(&nat(*x));
    }
    v
}
//@ C03 covers=1 time=120
//@ bound: sequences of 0..2 numbers (thorough 0..3), as Vec, LimitedVec, FixedVec, array, tuple, Option, Box; every value
#[no_mangle]
pub extern "C" fn c03_sequences() {
    let n = pick_usize(0, bound(2, 3));
    let xs: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
    let ws: Vec<u64> = xs.iter().map(|x| *x as u64).collect();
    let body = nats(&ws);
    let with = cat(&[&[n as u8], &body]);
    match pick(0, 3) {
        0 => round(&xs, &with),
        1 => match LimitedVec::<u32, 3>::try_from(xs.clone()) {
            Ok(l) => round(&l, &with),
            Err(_) => check!(false),
        },
        2 => match n {
            0 => round(&Option::<u32>::None, &[0]),
            1 => round(&Some(xs[0]), &cat(&[&[1], &body])),
            _ => round(&(xs[0], Box::new(xs[1])), &nats(&ws[..2])),
        },
        _ => match n {
            0 => (),
            1 => round(&[xs[0]], &body),
            2 => {
                round(&[xs[0], xs[1]], &body);
                match FixedVec::<u32, 2>::try_from(xs.clone()) {
                    Ok(l) => round(&l, &body),
                    Err(_) => check!(false),
                }
            }
            _ => round(&(xs[0], xs[1], xs[2]), &body),
        },
    }
    cover(1);
}
//@ C03 covers=1 time=120
//@ bound: octet sequences of every length to 3 and 127..129 (the length prefix grows at 128)
#[no_mangle]
pub extern "C" fn c03_octets() {
    let n = pick_usize(0, 6);
    let n = if n > 3 { n + 123 } else { n };
    let b = sx::vec(n);
    let w = cat(&[&nat(n as u64), &b]);
    round(&ByteSequence::from_vec(b), &w);
    cover(1);
}
//@ C03 covers=2 time=200
//@ bound: maps and sets of up to 3 entries, every key and value
#[no_mangle]
pub extern "C" fn c03_maps() {
    let n = pick_usize(0, 3);
    let k: Vec<u16> = (0..n).map(|_| sx::u8() as u16).collect();
    for i in 1..n {
        assume(k[i - 1] < k[i]);
    }
    // insertion order must not matter
    let rev = sx::bool();
    let mut m = BTreeMap::new();
    let mut s = BTreeSet::new();
    let mut w = vec![n as u8];
    let mut ws = vec![n as u8];
    let v: Vec<u8> = (0..n).map(|_| sx::u8() & 0x7f).collect();
    for i in 0..n {
        w.extend_from_slice(&nat(k[i] as u64));
        w.push(v[i]);
        ws.extend_from_slice(&nat(k[i] as u64));
        let j = if rev { n - 1 - i } else { i };
        m.insert(k[j], v[j]);
        s.insert(k[j]);
    }
    round(&m, &w);
    round(&s, &ws);
    cover(1);
    if n == 3 {
        cover(2);
    }
}
//@ C03 covers=2 time=200
//@ bound: bit strings of 0..17 bits (every content up to 7 bits, beyond that all-equal with up to one exception); fixed sizes 0..18
#[no_mangle]
pub extern "C" fn c03_bits() {
    let n = pick_usize(0, 17);
    let bits = if n <= 7 {
        sx::u32()
    } else {
        // one exception at an arbitrary place (or past the end)
        let k = pick(0, n as u64);
        let inv = if sx::bool() { u32::MAX } else { 0 };
        (1u32 << k) ^ inv
    };
    let mut bv = BitVec::<u8, Lsb0>::new();
    for i in 0..n {
        bv.push(bits >> i & 1 != 0);
    }
    let nb = n.div_ceil(8);
    let masked = (bits as u64 & ((1u64 << n) - 1)).to_le_bytes();
    let w = cat(&[&[n as u8], &masked[..nb]]);
    let e = enc(&bv);
    check!(e.len() == w.len());
    check!(same(&e, &w));
    let (d, left) = dec::<BitVec<u8, Lsb0>>(&e);
    check!(left == 0);
    match d {
        None => check!(false),
        Some(d) => {
            check!(d.len() == n);
            let mut diff = 0u32;
            for i in 0..n {
                diff |= (d[i] as u32) ^ (bits >> i & 1);
            }
            check!(diff == 0);
        }
    }
    cover(1);
    let size = if sx::bool() { n } else { pick_usize(0, 18) };
    match bv.encode_fixed(size) {
        Ok(f) => {
            cover(2);
            check!(size == n);
            check!(same(&f, &masked[..nb]));
        }
        Err(_) => check!(size != n),
    }
}

// ---- arbitrary input: canonical, no panic, no over-allocation -----------------------------------
//@ C04 covers=1 time=200
//@ bound: every input of 0..5 bytes (thorough 0..7), as each of 12 container types
#[no_mangle]
pub extern "C" fn c04_any_input() {
    sx::alloc_limit(1 << 16);
    let t = pick(0, 11);
    let n = pick_usize(0, bound(5, 7));
    let b = sx::vec(n);
    let some = match t {
        0 => canon::<Vec<u16>>(&b).is_some(),
        1 => canon::<ByteSequence>(&b).is_some(),
        2 => canon::<LimitedVec<u8, 3>>(&b).is_some(),
        3 => canon::<FixedVec<u16, 2>>(&b).is_some(),
        4 => canon::<Option<u32>>(&b).is_some(),
        5 => canon::<bool>(&b).is_some(),
        6 => canon::<[u16; 2]>(&b).is_some(),
        7 => canon::<BTreeMap<u8, bool>>(&b).is_some(),
        8 => canon::<BTreeSet<u16>>(&b).is_some(),
        9 => canon::<(u8, Vec<bool>, u16)>(&b).is_some(),
        10 => canon::<Vec<Vec<bool>>>(&b).is_some(),
        _ => canon::<Vec<Option<ByteArray<2>>>>(&b).is_some(),
    };
    if some {
        cover(1);
    }
}
//@ C04 covers=2 time=200
//@ bound: every input of 0..4 bytes as a bit string (padding bits are not required to be zero)
#[no_mangle]
pub extern "C" fn c04_any_bits() {
    sx::alloc_limit(1 << 16);
    let n = pick_usize(0, 4);
    let b = sx::vec(n);
    let (r, left) = dec::<BitVec<u8, Lsb0>>(&b);
    let mut i = 0;
    match (r, rd_nat(&b, &mut i)) {
        (Some(v), Some(l)) => {
            cover(1);
            check!(v.len() as u64 == l);
            check!(left + i + v.len().div_ceil(8) == n);
            for k in 0..v.len() {
                check!(v[k] == (b[i + k / 8] >> (k % 8) & 1 != 0));
            }
        }
        (None, Some(l)) => {
            cover(2);
            check!(l > 8 * (n - i) as u64);
        }
        (None, None) => (),
        _ => check!(false),
    }
}

// ---- bounded vectors ---------------------------------------------------------------------------
//@ C05 covers=3 time=100
//@ bound: every sequence of 5 operations (thorough 7) out of push, extend, shift-push, remove on a bound of 3; every element value
#[no_mangle]
pub extern "C" fn c05_limited() {
    let mut v = LimitedVec::<u8, 3>::new();
    let mut m: Vec<u8> = vec![];
    for _ in 0..bound(5, 7) {
        let x = sx::u8();
        match pick(0, 3) {
            0 => {
                let r = v.try_push(x);
                check!(r.is_ok() == (m.len() < 3));
                if r.is_ok() {
                    m.push(x);
                } else {
                    cover(1);
                }
            }
            1 => {
                let r = v.try_extend(vec![x, 7]);
                check!(r.is_ok() == (m.len() + 2 <= 3));
                if r.is_ok() {
                    m.extend([x, 7]);
                }
            }
            2 => {
                let r = v.shift_push(x);
                if m.len() == 3 {
                    cover(2);
                    check!(r == Some(m.remove(0)));
                } else {
                    check!(r.is_none());
                }
                m.push(x);
            }
            _ => {
                if !m.is_empty() {
                    let i = pick_usize(0, m.len() - 1);
                    check!(v.remove(i) == m.remove(i));
                    cover(3);
                }
            }
        }
        check!(v.len() == m.len() && v.len() <= 3);
        check!(same(v.as_slice(), &m));
    }
}
//@ C05 covers=3 time=60
//@ bound: vectors of 0..5 elements against bounds/sizes of 3
#[no_mangle]
pub extern "C" fn c05_convert() {
    let n = pick_usize(0, 5);
    let b = sx::vec(n);
    match LimitedVec::<u8, 3>::try_from(b.clone()) {
        Ok(v) => {
            cover(1);
            check!(n <= 3);
            check!(same(v.as_slice(), &b));
        }
        Err(_) => {
            cover(2);
            check!(n > 3);
        }
    }
    match FixedVec::<u8, 3>::try_from(b.clone()) {
        Ok(v) => {
            cover(3);
            check!(n == 3);
            check!(v.len() == 3 && v[0] == b[0] && v[1] == b[1] && v[2] == b[2]);
        }
        Err(_) => check!(n != 3),
    }
    // decoding respects the bound as well
    let mut e = vec![n as u8];
    e.extend_from_slice(&b);
    let (r, left) = dec::<LimitedVec<bool, 3>>(&e);
    if let Some(v) = r {
        check!(n <= 3 && v.len() == n && left == 0);
    } else {
        let mut bad = n > 3;
        for x in &b {
            bad |= *x > 1;
        }
        check!(bad);
    }
}
