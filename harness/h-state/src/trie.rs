//! The state trie: root and retrieval after any sequence of commits.
use crate::env::*;
use fr_common::{ByteArray, ByteEncodable, StateKey};
use fr_crypto::{hash, Blake2b256};
use sx::*;

type Kv = ([u8; 31], Vec<u8>);
fn bit(k: &[u8; 31], i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
fn b2(d: &[u8]) -> [u8; 32] {
    let h = hash::<Blake2b256>(d).unwrap();
    let mut o = [0u8; 32];
    o.copy_from_slice(h.as_slice());
    o
}
/// the Merkle function of the specification (appendix D.2)
pub fn root(kv: &[Kv], d: usize) -> [u8; 32] {
    match kv.len() {
        0 => [0; 32],
        1 => {
            let (k, v) = &kv[0];
            let mut n = [0u8; 64];
            n[1..32].copy_from_slice(k);
            if v.len() <= 32 {
                n[0] = 0x80 | v.len() as u8;
                n[32..32 + v.len()].copy_from_slice(v);
            } else {
                n[0] = 0xc0;
                n[32..].copy_from_slice(&b2(v));
            }
            b2(&n)
        }
        _ => {
            let (mut l, mut r) = (vec![], vec![]);
            for e in kv {
                if bit(&e.0, d) {
                    r.push(e.clone())
                } else {
                    l.push(e.clone())
                }
            }
            let mut n = [0u8; 64];
            n[..32].copy_from_slice(&root(&l, d + 1));
            n[0] &= 0x7f;
            n[32..].copy_from_slice(&root(&r, d + 1));
            b2(&n)
        }
    }
}
const PREF: [u8; 5] = [0b0000_0000, 0b0010_0000, 0b0011_0000, 0b1000_0000, 0b0011_1000];
fn key(i: usize, nonce: u8) -> [u8; 31] {
    let mut k = [0u8; 31];
    k[0] = PREF[i];
    k[30] = nonce;
    k
}
fn sk(k: &[u8; 31]) -> StateKey {
    ByteArray(*k)
}
/// embedded in the leaf (one octet, any value) or hashed, alternating with the key and the round
fn value(i: usize, round: usize) -> Vec<u8> {
    if (i + round) % 3 == 1 {
        vec![(round * 16 + i) as u8; 33 + i]
    } else {
        sx::vec([1, 32, 0][(i + round / 3) % 3])
    }
}
/// Every key may be added, updated or removed by each commit, but one at least outlives it (taking
/// the last leaf out of the trie is outside the claim).
fn trie(n: usize, rounds: usize, nonces: u64) {
    let nonce = pick(0, nonces) as u8;
    run(async {
        let m = manager();
        let mut model: Vec<Option<Vec<u8>>> = vec![None; n];
        for round in 0..rounds {
            let ops: Vec<u64> =
                (0..n).map(|i| pick(0, if model[i].is_some() { 2 } else { 1 })).collect();
            assume(ops.iter().any(|o| *o > 0));
            assume(round == 0 || (0..n).any(|i| model[i].is_some() && ops[i] < 2));
            for i in 0..n {
                let op = ops[i];
                let k = sk(&key(i, nonce));
                match (op, model[i].is_some()) {
                    (0, _) => continue,
                    (1, false) => {
                        let v = value(i, round);
                        check!(m.add_raw_state_entry(&k, v.clone()).await.is_ok());
                        model[i] = Some(v);
                    }
                    (1, true) => {
                        let v = value(i, round);
                        check!(m.update_raw_state_entry(&k, v.clone()).await.is_ok());
                        model[i] = Some(v);
                    }
                    _ => {
                        check!(m.remove_raw_state_entry(&k).await.is_ok());
                        model[i] = None;
                    }
                }
            }
            let kv: Vec<Kv> =
                (0..n).filter_map(|i| model[i].clone().map(|v| (key(i, nonce), v))).collect();
            check!(m.commit_dirty_cache().await.is_ok());
            let r = m.merkle_root().await.unwrap();
            check!(same(r.as_slice(), &root(&kv, 0)));
            for i in 0..n {
                let got = m.get_raw_state_entry_from_db(&sk(&key(i, nonce))).await.unwrap();
                check!(got.is_some() == model[i].is_some());
                if let (Some(g), Some(e)) = (got, &model[i]) {
                    check!(same(&g, e));
                }
            }
            cover(round as u32 + 1);
        }
    })
}
//@ S02 covers=2 time=90
//@ bound: 4 keys whose paths share up to 2 bits; two commits with any mix of additions, updates and removals; values of 0, 1, 32 octets (any) and of 33 to 36 octets
//@ assume: each commit keeps one leaf; one hash-set iteration order per key
#[no_mangle]
pub extern "C" fn s02_trie() {
    trie(bound(4, 5), 2, bound(0, 1) as u64)
}
