//! H01: host calls on storage, metadata and preimages.
use crate::host::*;

fn one(a: Acct) -> Host {
    Host::new([(HOST, a)].into(), PrivilegedServices::default(), 50)
}
/// gas too low for the call, or enough for it
fn fund(h: &mut Host) -> bool {
    h.vm.gas_counter = sx::u64() as i64;
    h.vm.gas_counter >= 10
}
fn starved(r: &HostCallResult) {
    sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
    sx::cover(1);
}
fn key(i: u64) -> Vec<u8> {
    [vec![], vec![7, 7]][i as usize].clone()
}
/// writes a value of `n` octets under key `k`
fn put(h: &mut Host, k: u64, n: u64, paid: bool) {
    let k = key(k);
    let v = sx::vec(n as usize);
    h.poke(RO + 8, &[7, 7]);
    h.poke(RO + 0x100, &v);
    h.vm.regs[7] = RO + 8;
    h.vm.regs[8] = k.len() as u64;
    h.vm.regs[9] = RO + 0x100;
    h.vm.regs[10] = n;
    let r = h.write();
    if !paid {
        return starved(&r);
    }
    let a = h.accts.get_mut(&HOST).unwrap();
    let old = a.storage.get(&k).map(|v| v.len() as u64);
    let mut b = a.clone();
    if let Some(m) = old {
        b.storage.remove(&k);
        b.meta.items_footprint -= 1;
        b.meta.octets_footprint -= 34 + k.len() as u64 + m;
    }
    if n > 0 {
        b.storage.insert(k.clone(), v);
        b.meta.items_footprint += 1;
        b.meta.octets_footprint += 34 + k.len() as u64 + n;
    }
    if b.threshold() > b.meta.balance {
        returned(&r, FULL, 10);
        sx::cover(2);
        return;
    }
    *a = b;
    match old {
        Some(m) => {
            returned(&r, m, 10);
            sx::cover(if n > 0 { 3 } else { 4 })
        }
        None => {
            returned(&r, NONE, 10);
            sx::cover(if n > 0 { 5 } else { 6 })
        }
    }
}
/// an account holding values of 2 octets under some of the keys
fn holder(keys: u64) -> Acct {
    let mut a = anyone(1);
    for i in 0..2 {
        if keys >> i & 1 == 1 {
            a.storage.insert(key(i), sx::vec(2));
        }
    }
    a
}

//@ H01 covers=6 time=60 tmul=4
//@ bound: a sequence of two (thorough: three) writes under two keys, values of 0, 1 or 3 symbolic octets, over any of the keys held before, with any gas for the first
//@ bound: any balance from the threshold on, 100,000 to 165,535 octets, 100 or 2^24-1 items, no, some or ample gratis storage
#[no_mangle]
pub extern "C" fn h01_write() {
    let mut h = one(holder(sx::pick(0, 3)));
    let paid = fund(&mut h);
    for i in 0..sx::bound(2, 3) {
        if i > 0 {
            h.vm.gas_counter = 100;
        }
        let n = [0, 1, 3][sx::pick_usize(0, 2)];
        put(&mut h, sx::pick(0, 1), n, paid || i > 0);
        h.settled();
        h.same_storage(HOST, &key(0));
        h.same_storage(HOST, &key(1));
    }
}

/// the service a register names
fn whom(h: &mut Host, other: u32) -> (u64, Option<u32>) {
    match sx::pick(0, 4) {
        0 => (u64::MAX, Some(HOST)),
        1 => (HOST as u64, Some(HOST)),
        2 => (other as u64, h.accts.contains_key(&other).then_some(other)),
        3 => (12345, None),
        _ => {
            let hi = sx::u32();
            sx::assume(hi != 0);
            let v = (hi as u64) << 32 | HOST as u64;
            sx::assume(v != u64::MAX);
            (v, None)
        }
    }
}
fn info_of(a: &AccountMetadata, t: u64) -> Vec<u8> {
    let mut v = a.code_hash.as_slice().to_vec();
    for x in [a.balance, t, a.gas_limit_accumulate, a.gas_limit_on_transfer, a.octets_footprint] {
        v.extend(x.to_le_bytes());
    }
    v.extend(a.items_footprint.to_le_bytes());
    v.extend(a.gratis_storage_offset.to_le_bytes());
    for x in [a.created_at, a.last_accumulate_at, a.parent_service_id] {
        v.extend(x.to_le_bytes());
    }
    v
}

//@ H01 covers=7 time=60 tmul=4
//@ bound: READ, LOOKUP and INFO of the own, another, a missing or a misnamed service, any gas; values of 2 or 3 symbolic octets, any offset and length registers (for INFO: a choice of both, or lengths above 90), buffers that can be written
#[no_mangle]
pub extern "C" fn h01_read() {
    let mut a = plain(1);
    let mut b = anyone(2);
    a.storage.insert(key(1), sx::vec(2));
    b.storage.insert(key(1), sx::vec(3));
    let blob = b"abc".to_vec();
    if sx::pick(0, 1) == 1 {
        b.held.insert(blob.clone(), ());
    } else {
        a.held.insert(blob.clone(), ());
    }
    let mut h = Host::new([(HOST, a), (PEER, b)].into(), PrivilegedServices::default(), 50);
    let paid = fund(&mut h);
    let (r7, who) = whom(&mut h, PEER);
    h.vm.regs[7] = r7;
    let (mut off, mut len) = (sx::u64(), sx::u64());
    let (r, v) = match sx::pick(0, 2) {
        0 => {
            let k = sx::pick(0, 1);
            h.poke(RO + 8, &key(1));
            h.vm.regs[8] = RO + 8;
            h.vm.regs[9] = key(k).len() as u64;
            (h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (RW, off, len);
            (h.read(), who.and_then(|s| h.accts[&s].storage.get(&key(k)).cloned()))
        }
        1 => {
            h.poke(RO + 8, hash(&blob).as_slice());
            (h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11]) = (RO + 8, RW, off, len);
            (h.lookup(), who.and_then(|s| h.accts[&s].held.contains_key(&blob).then(|| blob.clone())))
        }
        _ => {
            if sx::pick(0, 1) == 1 {
                off = [0, 1, 31, 32, 72, 95, 96, 97, 1 << 63][sx::pick_usize(0, 8)];
                sx::assume(len > 90);
            } else {
                off = sx::pick(0, 3) * 30;
                len = [0, 1, 24, 90, 97][sx::pick_usize(0, 4)];
            }
            (h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (RW, off, len);
            (h.info(), who.map(|s| info_of(&h.accts[&s].meta, h.accts[&s].threshold())))
        }
    };
    h.settled();
    if !paid {
        return starved(&r);
    }
    let Some(v) = v else {
        returned(&r, NONE, 10);
        sx::cover(2);
        return;
    };
    let f = off.min(v.len() as u64);
    let l = len.min(v.len() as u64 - f);
    delivered(&r, &v, f, l, RW);
    sx::cover(match (f, l) {
        (0, l) if l == v.len() as u64 => 3,
        (0, 0) => 4,
        (0, _) => 5,
        (_, 0) => 6,
        _ => 7,
    });
}

//@ H01 covers=4 time=60 tmul=4
//@ bound: one WRITE, READ, LOOKUP, INFO, QUERY, SOLICIT, FORGET or PROVIDE whose ranges of 0 to 32 octets lie in either page, across any border, outside, below the low zone's end or at any address from 2^32
#[no_mangle]
pub extern "C" fn h01_access() {
    let mut a = plain(1);
    let zeros = |n: u64| vec![0u8; n as usize];
    a.storage.insert(zeros(2), vec![1, 2]);
    a.storage.insert(zeros(0), vec![3, 4, 5]);
    a.asked.insert((zeros(0), 0), vec![]);
    a.asked.insert((zeros(2), 2), vec![]);
    let mut h = one(a);
    let (p, q) = (place(), place());
    let n = 2 * sx::pick(0, 1);
    h.vm.regs[7] = u64::MAX;
    let (r, clean) = match sx::pick(0, 4) {
        0 => {
            // a value is taken from the second place, and nothing is there to take when the entry goes
            let m = 2 * sx::pick(0, 1);
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (p, n, q, m);
            (h.write(), readable(p, n) && readable(q, m))
        }
        1 => {
            (h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (p, n, q, 0, 2 * sx::pick(0, 1));
            let l = h.vm.regs[12];
            (h.read(), readable(p, n) && writable(q, l))
        }
        2 => {
            (h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (p, 0, n);
            (h.info(), writable(p, n))
        }
        3 => {
            (h.vm.regs[8], h.vm.regs[9]) = (p, n);
            let r = h.provide();
            (r, readable(p, n))
        }
        _ => {
            h.vm.regs[7] = p;
            h.vm.regs[8] = 2;
            let r = match sx::pick(0, 3) {
                0 => h.query(),
                1 => h.solicit(),
                2 => h.forget(),
                _ => {
                    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11]) = (u64::MAX, p, q, 0, 2);
                    h.lookup()
                }
            };
            // of the hash of zeros nothing is held, so that nothing is delivered
            (r, readable(p, 32))
        }
    };
    sx::check!(panicked(&r) == !clean);
    if !clean {
        sx::check!(r.vm_change.memory_write.is_none());
        h.settled();
        sx::cover(1);
    } else {
        sx::check!(matches!(r.exit_reason, ExitReason::Continue));
        sx::cover(2);
        if p >= 1 << 32 {
            sx::cover(3);
        }
        if q >= 1 << 32 {
            sx::cover(4);
        }
    }
}

const BLOB: &[u8] = b"abc";

/// the request after the preimage is no longer needed
fn dropped(t: &[u32], now: u32) -> Option<Option<Vec<u32>>> {
    match *t {
        [] => Some(None),
        [x] => Some(Some(vec![x, now])),
        [_, y] if y + 32 < now => Some(None),
        [_, y, w] if y + 32 < now => Some(Some(vec![w, now])),
        _ => None,
    }
}

//@ H01 covers=16 time=100 tmul=4
//@ bound: a sequence of two (thorough: three) QUERY, SOLICIT, FORGET or PROVIDE on one blob, under its own and another length, with 0 to 3 slots recorded before or nothing; slots symbolic, in order
//@ assume: slots lie below 2^31
#[no_mangle]
pub extern "C" fn h01_lookups() {
    let mut a = plain(1);
    let now = sx::u32();
    sx::assume(now < 1 << 31);
    let n = sx::pick(0, 4);
    let mut t = vec![];
    for i in 0..n.min(3) {
        let s = sx::u32();
        sx::assume(s <= now && t.last().is_none_or(|l| *l <= s));
        t.push(s);
        let _ = i;
    }
    let len = 3 + sx::pick(0, 1) as u32;
    if n < 4 {
        a.asked.insert((BLOB.to_vec(), len), t.clone());
        if n > 0 && len == 3 {
            a.held.insert(BLOB.to_vec(), ());
        }
    }
    let mut h = Host::new([(HOST, a)].into(), PrivilegedServices::default(), now);
    h.poke(RO + 8, hash(BLOB).as_slice());
    h.poke(RO + 0x100, BLOB);
    let mut given = false;
    for _ in 0..sx::bound(2, 3) {
        let k = (BLOB.to_vec(), 3 + sx::pick(0, 1) as u32);
        h.vm.regs[7] = RO + 8;
        h.vm.regs[8] = k.1 as u64;
        let old = h.accts[&HOST].asked.get(&k).cloned();
        let over = sx::pick(0, 1) == 1;
        match sx::pick(0, 3) {
            0 => {
                if over {
                    h.vm.regs[8] |= 1 << 32;
                }
                let r = h.query();
                let (v, w) = match old.as_deref() {
                    _ if over => (NONE, 0),
                    None => (NONE, 0),
                    Some([]) => (0, 0),
                    Some([x]) => (1 + ((*x as u64) << 32), 0),
                    Some([x, y]) => (2 + ((*x as u64) << 32), *y as u64),
                    Some([x, y, z]) => (3 + ((*x as u64) << 32), *y as u64 + ((*z as u64) << 32)),
                    _ => unreachable!(),
                };
                returned(&r, v, 10);
                sx::check!(r.vm_change.r8_write == Some(w));
                sx::cover(if old.is_none() || over { 1 } else { 2 });
            }
            1 => {
                let r = h.solicit();
                let a = h.accts.get_mut(&HOST).unwrap();
                let mut b = a.clone();
                match old.as_deref() {
                    None => {
                        b.asked.insert(k.clone(), vec![]);
                        b.meta.items_footprint += 2;
                        b.meta.octets_footprint += 81 + k.1 as u64;
                        if b.threshold() > b.meta.balance {
                            returned(&r, FULL, 10);
                            sx::cover(3);
                        } else {
                            *a = b;
                            returned(&r, OK, 10);
                            sx::cover(4);
                        }
                    }
                    Some([x, y]) => {
                        a.asked.insert(k.clone(), vec![*x, *y, now]);
                        returned(&r, OK, 10);
                        sx::cover(5);
                    }
                    Some(_) => {
                        returned(&r, HUH, 10);
                        sx::cover(6);
                    }
                }
            }
            2 => {
                if over {
                    h.vm.regs[8] |= 1 << 32;
                }
                let r = h.forget();
                let a = h.accts.get_mut(&HOST).unwrap();
                match old.as_deref().filter(|_| !over).and_then(|t| dropped(t, now)) {
                    None => {
                        returned(&r, HUH, 10);
                        sx::cover(if old.is_none() { 7 } else { 8 });
                    }
                    Some(None) => {
                        a.asked.remove(&k);
                        a.held.remove(BLOB);
                        a.meta.items_footprint -= 2;
                        a.meta.octets_footprint -= 81 + k.1 as u64;
                        returned(&r, OK, 10);
                        sx::cover(if old.unwrap().is_empty() { 9 } else { 10 });
                    }
                    Some(Some(t)) => {
                        sx::cover(if old.unwrap().len() == 1 { 11 } else { 12 });
                        a.asked.insert(k.clone(), t);
                        returned(&r, OK, 10);
                    }
                }
            }
            _ => {
                (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9]) = (if over { 12345 } else { u64::MAX }, RO + 0x100, 3);
                let r = h.provide();
                let asked = h.accts[&HOST].asked.get(&(BLOB.to_vec(), 3)).is_some_and(|t| t.is_empty());
                if over {
                    returned(&r, WHO, 10);
                    sx::cover(13);
                } else if !asked || given {
                    returned(&r, HUH, 10);
                    sx::cover(if asked { 14 } else { 15 });
                } else {
                    given = true;
                    returned(&r, OK, 10);
                    sx::cover(16);
                }
            }
        }
        h.settled();
        h.same_blob(HOST, BLOB, 3);
        h.same_blob(HOST, BLOB, 4);
        let p = &h.x().provided_preimages;
        sx::check!(p.len() == given as usize);
        sx::check!(!given || p.contains(&(HOST, Octets::from_vec(BLOB.to_vec()))));
    }
}
