//! Merkle trees and ranges, over a model hash (a cheap mixing function of every octet and its position), and over the
//! real ones where the code fixes them.
use fr_codec::prelude::*;
use fr_common::Hash32;
use fr_crypto::{error::CryptoError, hash, Hasher, Keccak256};
use fr_merkle::{constant_depth_tree::ConstantDepthMerkleTree, mmr::MerkleMountainRange, well_balanced_tree::WellBalancedMerkleTree};
use sx::*;

#[derive(Debug, Clone)]
pub struct Mix;
fn mix(d: &[u8]) -> [u8; 32] {
    let mut l = [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0x2545f4914f6cdd1d];
    l[0] ^= d.len() as u64;
    for (i, b) in d.iter().enumerate() {
        let k = i % 4;
        l[k] = l[k].rotate_left(9).wrapping_add(*b as u64) ^ 0x5851f42d4c957f2d;
    }
    let mut o = [0u8; 32];
    for k in 0..4 {
        let v = l[k] ^ l[(k + 1) % 4].rotate_left(17);
        o[8 * k..8 * k + 8].copy_from_slice(&v.to_le_bytes());
    }
    o
}
impl Hasher for Mix {
    fn hash(v: &[u8]) -> Result<Hash32, CryptoError> {
        Ok(Hash32::new(mix(v)))
    }
}
fn h(parts: &[&[u8]]) -> Vec<u8> {
    mix(&parts.concat()).to_vec()
}
/// N: the node function of the specification
fn rnode(v: &[Vec<u8>]) -> Vec<u8> {
    match v.len() {
        0 => vec![0; 32],
        1 => v[0].clone(),
        n => {
            let m = n.div_ceil(2);
            h(&[b"node", &rnode(&v[..m]), &rnode(&v[m..])])
        }
    }
}
fn leaves(n: usize) -> Vec<Vec<u8>> {
    (0..n).map(|i| sx::vec(if i % 3 == 2 { 33 } else { 3 })).collect()
}
fn depth(n: usize) -> usize {
    let mut d = 0;
    while (1usize << d) < n {
        d += 1;
    }
    d
}
/// C: leaf hashes, padded to the next power of two
fn rconst(v: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = v.iter().map(|x| h(&[b"leaf", x])).collect();
    while o.len() < 1 << depth(v.len().max(1)) {
        o.push(vec![0; 32]);
    }
    o
}

//@ C06 covers=1 time=60
//@ bound: trees of 0..12 leaves (thorough 0..40) with arbitrary contents of 3 or 33 octets
//@ assume: the hash is a model function (every octet and position matters); the tree code is generic in it
#[no_mangle]
pub extern "C" fn c06_roots() {
    let n = pick_usize(0, bound(12, 40));
    let v = leaves(n);
    match WellBalancedMerkleTree::<Mix>::compute_root(&v) {
        Ok(r) => {
            let w = match n {
                0 => vec![0; 32],
                1 => h(&[&v[0]]),
                _ => rnode(&v),
            };
            check!(same(&*r, &w));
        }
        Err(_) => check!(false),
    }
    match ConstantDepthMerkleTree::<Mix>::compute_root(&v) {
        Ok(r) => {
            check!(same(&*r, &rnode(&rconst(&v))));
        }
        Err(_) => check!(false),
    }
    cover(1);
}
//@ C06 covers=2 time=100
//@ bound: trees of 1..9 leaves (thorough 1..20), pages of 2^0..2^4 leaves, every page
#[no_mangle]
pub extern "C" fn c06_pages() {
    let n = pick_usize(1, bound(9, 20));
    let v = leaves(n);
    let x = pick_usize(0, 4);
    let pages = n.div_ceil(1 << x);
    let i = pick_usize(0, pages - 1);
    let (Ok(j), Ok(l), Ok(root)) = (
        ConstantDepthMerkleTree::<Mix>::single_page_justification(&v, i, x),
        ConstantDepthMerkleTree::<Mix>::subtree_page_leaf_hashes(&v, i, x),
        ConstantDepthMerkleTree::<Mix>::compute_root(&v),
    ) else {
        check!(false);
        return;
    };
    let d = depth(n);
    check!(j.len() == d.saturating_sub(x));
    let lo = i << x;
    let hi = n.min(lo + (1 << x));
    check!(l.len() == hi - lo);
    // a verifier knows the leaf hashes of the page, their position and the justification
    let mut page: Vec<Vec<u8>> = l.iter().map(|e| e.to_vec()).collect();
    for k in 0..page.len() {
        check!(same(&page[k], &h(&[b"leaf", &v[lo + k]])));
    }
    while page.len() < 1 << x.min(d) {
        page.push(vec![0; 32]);
    }
    let mut acc = rnode(&page);
    let mut pos = i;
    for s in j.iter().rev() {
        acc = if pos & 1 == 0 { h(&[b"node", &acc, &**s]) } else { h(&[b"node", &**s, &acc]) };
        pos >>= 1;
    }
    check!(same(&acc, &*root));
    cover(1);
    if x > d {
        cover(2);
    }
}

//@ C07 covers=2 time=60
//@ bound: ranges grown from empty by 0..10 appends (thorough 0..34) of arbitrary leaves
#[no_mangle]
pub extern "C" fn c07_append() {
    let n = pick_usize(0, bound(10, 34));
    let mut a = MerkleMountainRange::<Mix>::new();
    let mut b = MerkleMountainRange::<Mix>::new();
    let mut ls = vec![];
    for _ in 0..n {
        let l = sx::bytes::<32>();
        check!(a.append(Hash32::new(l)).is_ok());
        check!(b.append_recursive(Hash32::new(l), 0).is_ok());
        ls.push(l.to_vec());
    }
    // peak k holds the perfect tree of 2^k leaves that bit k of the count stands for, oldest leaves in the highest one
    let want = if n == 0 { 0 } else { n.ilog2() as usize + 1 };
    check!(a.peaks.len() == want && b.peaks.len() == want);
    let mut at = 0;
    for k in (0..want).rev() {
        let (p, q) = (&a.peaks[k], &b.peaks[k]);
        check!(p.is_some() == (n >> k & 1 == 1) && q.is_some() == p.is_some());
        if let (Some(p), Some(q)) = (p, q) {
            let w = perfect(&ls[at..at + (1 << k)]);
            check!(same(&**p, &w) && same(&**q, &w));
            at += 1 << k;
            cover(1);
        }
    }
    check!(at == n);
    // the serialization
    let mut e = vec![want as u8];
    for p in &a.peaks {
        match p {
            Some(x) => {
                e.push(1);
                e.extend_from_slice(&**x);
            }
            None => e.push(0),
        }
    }
    match a.encode() {
        Ok(x) => {
            check!(same(&x, &e));
            match MerkleMountainRange::<Mix>::decode(&mut &x[..]) {
                Ok(d) => {
                    check!(d.peaks.len() == want);
                    for k in 0..want {
                        check!(d.peaks[k] == a.peaks[k]);
                    }
                    cover(2);
                }
                Err(_) => check!(false),
            }
        }
        Err(_) => check!(false),
    }
}
fn perfect(v: &[Vec<u8>]) -> Vec<u8> {
    if v.len() == 1 {
        return v[0].clone();
    }
    let m = v.len() / 2;
    h(&[&perfect(&v[..m]), &perfect(&v[m..])])
}
//@ C07 covers=3 time=60
//@ bound: ranges of 0..4 peaks (thorough 0..6), each present or not, with arbitrary contents; real Keccak-256
#[no_mangle]
pub extern "C" fn c07_super_peak() {
    let n = pick_usize(0, bound(4, 6));
    let m = pick(0, (1 << n) - 1);
    let peaks: Vec<Option<Hash32>> = (0..n).map(|k| if m >> k & 1 == 1 { Some(Hash32::new(sx::bytes())) } else { None }).collect();
    let mut acc: Option<Vec<u8>> = None;
    for p in peaks.iter().flatten() {
        acc = Some(match acc {
            None => {
                cover(1);
                p.to_vec()
            }
            Some(a) => {
                cover(2);
                let Ok(x) = hash::<Keccak256>(&[&b"peak"[..], &a, &**p].concat()) else {
                    check!(false);
                    return;
                };
                x.to_vec()
            }
        });
    }
    let w = acc.unwrap_or_else(|| {
        cover(3);
        vec![0; 32]
    });
    match MerkleMountainRange::<Keccak256>::new_from_peaks(peaks).super_peak() {
        Ok(r) => check!(same(&*r, &w)),
        Err(_) => check!(false),
    }
}
