//! Reference serialization (Gray Paper, appendix C), written independently of the code under test.
/// general natural number, branch-light
pub fn nat(x: u64) -> Vec<u8> {
    let mut l = 0usize;
    while l < 8 && x >> (7 * (l + 1)) != 0 {
        l += 1;
    }
    if l == 8 {
        let mut v = vec![0xff];
        v.extend_from_slice(&x.to_le_bytes());
        return v;
    }
    let ones: u8 = (!(0xffu16 >> l)) as u8;
    let mut v = vec![ones | (x >> (8 * l)) as u8];
    v.extend_from_slice(&x.to_le_bytes()[..l]);
    v
}
/// reads a general natural number at *i
pub fn rd_nat(b: &[u8], i: &mut usize) -> Option<u64> {
    let f = *b.get(*i)?;
    *i += 1;
    let mut l = 0;
    while l < 8 && f & (0x80 >> l) != 0 {
        l += 1;
    }
    if *i + l > b.len() {
        return None;
    }
    let mut v = if l < 7 { (f as u64 & ((0x80u64 >> l) - 1)) << (8 * l) } else { 0 };
    for k in 0..l {
        v |= (b[*i + k] as u64) << (8 * k);
    }
    *i += l;
    if l > 0 && v >> (7 * l) == 0 {
        return None;
    }
    Some(v)
}
pub fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (k, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * k);
    }
    v
}
