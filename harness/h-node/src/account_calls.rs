//! H02: host calls that make, change, pay and remove accounts.
use crate::host::*;

const THIRD: u32 = 5;

fn roles(manager: u32, registrar: u32) -> PrivilegedServices {
    PrivilegedServices { manager_service: manager, registrar_service: registrar, ..Default::default() }
}
fn fund(h: &mut Host) -> bool {
    h.vm.gas_counter = sx::u64() as i64;
    h.vm.gas_counter >= 10
}
fn starved(r: &HostCallResult) {
    sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
    sx::cover(1);
}
/// the code hash given at RO + 8
fn code_at(h: &mut Host) -> Hash32 {
    let c = lab(3, 7);
    h.poke(RO + 8, &c);
    h32(c)
}
/// the number after `i` in the cycle of public service numbers
fn after(i: u32, step: u64) -> u32 {
    ((i as u64 - 65536 + step) % ((1 << 32) - 65536 - 256) + 65536) as u32
}
/// the first number from `i` on that no account has
fn free(accts: &BTreeMap<u32, Acct>, mut i: u32) -> u32 {
    while accts.contains_key(&i) {
        i = after(i, 1);
    }
    i
}
/// the first number a new account may get
fn first(accts: &BTreeMap<u32, Acct>) -> u32 {
    // 70,000 in compact form, the entropy, and slot 50
    let mut b = vec![0xc1, 0x70, 0x11];
    b.extend(lab(9, 9));
    b.push(50);
    let h = hash(&b);
    let v = u32::from_le_bytes([h.as_slice()[0], h.as_slice()[1], h.as_slice()[2], h.as_slice()[3]]) as u64;
    free(accts, (v % ((1 << 32) - 65536 - 256) + 65536) as u32)
}
/// a NEW call with code of `l` octets; returns the new account's number, and whether none could be made
fn create(h: &mut Host, p: &PrivilegedServices, next: &mut u32, l: u32, gratis: u64, small: u64) -> Option<u32> {
    let c = code_at(h);
    let (g, m) = (sx::u64(), sx::u64());
    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (RO + 8, l as u64, g, m, gratis, small);
    let r = h.new_account();
    let t = (100 + 20 + 81 + l as u64).saturating_sub(gratis);
    if gratis != 0 && p.manager_service != HOST {
        returned(&r, HUH, 10);
        sx::cover(2);
        return None;
    }
    let a = &h.accts[&HOST];
    // balances do not go below the threshold
    if a.meta.balance - a.threshold() < t {
        returned(&r, CASH, 10);
        sx::cover(3);
        return None;
    }
    let special = p.registrar_service == HOST && small < 65536;
    if special && h.accts.contains_key(&(small as u32)) {
        returned(&r, FULL, 10);
        sx::cover(4);
        return None;
    }
    let id = if special { small as u32 } else { *next };
    returned(&r, id as u64, 10);
    let mut meta = AccountMetadata::default();
    meta.code_hash = c;
    meta.balance = t;
    meta.gas_limit_accumulate = g;
    meta.gas_limit_on_transfer = m;
    meta.octets_footprint = 81 + l as u64;
    meta.items_footprint = 2;
    meta.gratis_storage_offset = gratis;
    meta.created_at = h.slot;
    meta.parent_service_id = HOST;
    h.accts.get_mut(&HOST).unwrap().meta.balance -= t;
    h.accts.insert(id, Acct { meta, storage: BTreeMap::new(), held: BTreeMap::new(), asked: BTreeMap::new() });
    if special {
        sx::cover(5);
    } else {
        *next = free(&h.accts, after(id, 42));
        sx::cover(6);
    }
    sx::check!(h.x().next_new_service_id == *next);
    Some(id)
}
/// the request for the new account's code
fn wants_code(h: &mut Host, id: u32, l: u32) {
    let m = h.m.clone();
    let got = run(h.sandbox().get_account_lookups_entry(m, id, &(h32(lab(3, 7)), l))).unwrap();
    sx::check!(got.is_some_and(|e| e.value.is_empty()));
}

//@ H02 covers=7 time=60 tmul=4
//@ bound: NEW by a service that is manager, registrar, both or neither, with any gas, balance, gas limits, gratis storage (none or any); a small number that is free, taken, or none; code of any length; then (with plenty) another one; the first and the next number free, or taken by other accounts
#[no_mangle]
pub extern "C" fn h02_new() {
    let p = roles([HOST, PEER][sx::pick_usize(0, 1)], [HOST, PEER][sx::pick_usize(0, 1)]);
    let mut accts: BTreeMap<u32, Acct> = [(HOST, anyone(1)), (THIRD, plain(2))].into();
    if sx::pick(0, 1) == 1 {
        // accounts in the way of the first two numbers
        let i = first(&accts);
        for (k, j) in [i, after(i, 1), after(i, 2 + 42)].into_iter().enumerate() {
            accts.insert(j, plain(3 + k as u8));
        }
    }
    let mut next = first(&accts);
    let mut h = Host::new(accts, p.clone(), sx::u32());
    sx::check!(h.x().next_new_service_id == next);
    if !fund(&mut h) {
        (h.vm.regs[7], h.vm.regs[8]) = (RO + 8, 5);
        starved(&h.new_account());
        h.settled();
        return;
    }
    let small = [8, THIRD as u64, 65536, 65535, 1 << 32 | 9][sx::pick_usize(0, 4)];
    let gratis = if sx::pick(0, 1) == 1 { sx::u64() } else { 0 };
    let l = [5, u32::MAX][sx::pick_usize(0, 1)];
    let made = create(&mut h, &p, &mut next, l, gratis, small);
    if let Some(i) = made {
        wants_code(&mut h, i, l);
    }
    h.settled();
    if made.is_some() {
        h.vm.gas_counter = 100;
        if let Some(i) = create(&mut h, &p, &mut next, 9, 0, small) {
            wants_code(&mut h, i, 9);
            sx::cover(7);
        }
        h.settled();
    }
}

/// TRANSFER; the memo lies at RW + 8
fn pay(h: &mut Host, sent: &mut Vec<(u32, u64, u64, Vec<u8>)>, dest: u64) {
    let memo = sx::vec(128);
    h.poke(RW + 8, &memo);
    let (amount, g) = (sx::u64(), sx::u64());
    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (dest, amount, g, RW + 8);
    let gas = h.vm.gas_counter;
    let r = h.transfer();
    if gas < 10 {
        return starved(&r);
    }
    let to = if dest >> 32 == 0 { h.accts.get(&(dest as u32)) } else { None };
    let Some(to) = to else {
        returned(&r, WHO, 10);
        return sx::cover(2);
    };
    if g < to.meta.gas_limit_on_transfer {
        returned(&r, LOW, 10);
        return sx::cover(3);
    }
    let a = &h.accts[&HOST];
    if a.meta.balance < amount || a.meta.balance - amount < a.threshold() {
        returned(&r, CASH, 10);
        return sx::cover(4);
    }
    if ((gas - 10) as u64) < g {
        sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
        return sx::cover(5);
    }
    returned(&r, OK, 10 + g);
    h.accts.get_mut(&HOST).unwrap().meta.balance -= amount;
    sent.push((dest as u32, amount, g, memo));
    sx::cover(6);
}
fn posted(h: &mut Host, sent: &[(u32, u64, u64, Vec<u8>)]) {
    let t = &h.x().deferred_transfers;
    sx::check!(t.len() == sent.len());
    for (x, (to, amount, g, memo)) in t.iter().zip(sent) {
        sx::check!(x.from == HOST && x.to == *to);
        sx::check!(x.amount == *amount);
        sx::check!(x.gas_limit == *g);
        for (m, n) in x.memo.as_slice().iter().zip(memo) {
            sx::check!(m == n);
        }
    }
}

//@ H02 covers=7 time=60 tmul=4
//@ bound: two TRANSFERs of any amount, gas and memo, with any gas left, to the sender, another, a missing or a misnamed account; then UPGRADE to any code and gas limits
//@ assume: the sender owns a multiple of 2^20 more than its threshold, up to 2^52; less than 2^63 - 1 gas is left (the call instruction itself costs one of at most 2^63 - 1)
#[no_mangle]
pub extern "C" fn h02_transfer() {
    let mut a = anyone(1);
    a.meta.balance = a.threshold() + ((sx::u32() as u64) << 20);
    let mut h = Host::new([(HOST, a), (PEER, plain(2))].into(), PrivilegedServices::default(), 50);
    let mut sent = vec![];
    for _ in 0..2 {
        h.vm.gas_counter = sx::u64() as i64;
        sx::assume(h.vm.gas_counter < i64::MAX);
        let dest = [HOST as u64, PEER as u64, 12345, 1 << 32 | PEER as u64][sx::pick_usize(0, 3)];
        pay(&mut h, &mut sent, dest);
        posted(&mut h, &sent);
        h.settled();
    }
    let c = sx::bytes::<32>();
    h.poke(RO + 8, &c);
    let (g, m) = (sx::u64(), sx::u64());
    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9]) = (RO + 8, g, m);
    h.vm.gas_counter = sx::u64() as i64;
    let r = h.upgrade();
    if h.vm.gas_counter < 10 {
        starved(&r);
    } else {
        returned(&r, OK, 10);
        let a = &mut h.accts.get_mut(&HOST).unwrap().meta;
        a.code_hash = h32(c);
        a.gas_limit_accumulate = g;
        a.gas_limit_on_transfer = m;
        sx::cover(7);
    }
    h.settled();
    posted(&mut h, &sent);
}

const BLOB: &[u8] = b"abc";

/// EJECT; the hash of BLOB lies at RO + 8
fn eject(h: &mut Host, id: u64) -> bool {
    h.poke(RO + 8, hash(BLOB).as_slice());
    (h.vm.regs[7], h.vm.regs[8]) = (id, RO + 8);
    let r = h.eject();
    if h.vm.gas_counter < 10 {
        starved(&r);
        return false;
    }
    let mut owner = [0u8; 32];
    owner[..4].copy_from_slice(&HOST.to_le_bytes());
    let who = if id >> 32 == 0 && id != HOST as u64 { h.accts.get(&(id as u32)) } else { None };
    let Some(a) = who.filter(|a| a.meta.code_hash == h32(owner)) else {
        returned(&r, WHO, 10);
        sx::cover(2);
        return false;
    };
    let n = a.meta.octets_footprint.max(81) - 81;
    let spent = a.meta.items_footprint == 2
        && n >> 32 == 0
        && a.asked.get(&(BLOB.to_vec(), n as u32)).is_some_and(|t| t.len() == 2 && t[1] < h.slot.saturating_sub(32));
    if !spent {
        returned(&r, HUH, 10);
        sx::cover(3);
        return false;
    }
    returned(&r, OK, 10);
    let b = a.meta.balance;
    h.accts.get_mut(&HOST).unwrap().meta.balance += b;
    h.accts.remove(&(id as u32));
    sx::cover(4);
    true
}

//@ H02 covers=6 time=60 tmul=4
//@ bound: EJECT of another, the own, a missing or a misnamed account, with any gas; an account that names this service as its owner, or not; any items and seven numbers of octets counted; its preimage recorded with 0 to 3 slots of any value, under either length, or not; any current slot; then a transfer to the account and a second EJECT
//@ assume: balances add up to less than 2^64; slots lie below 2^31; a record of length n counts at least 81 + n octets
#[no_mangle]
pub extern "C" fn h02_eject() {
    let mut b = plain(2);
    b.meta.gas_limit_on_transfer = 0;
    let mut owner = [0u8; 32];
    owner[..4].copy_from_slice(&[HOST, PEER, HOST + 1][sx::pick_usize(0, 2)].to_le_bytes());
    owner[31] = sx::pick(0, 1) as u8;
    b.meta.code_hash = h32(owner);
    b.meta.items_footprint = sx::u32();
    b.meta.octets_footprint = [0, 81, 84, 85, 100_000, 84 + (1 << 32), u64::MAX][sx::pick_usize(0, 6)];
    b.meta.balance = sx::u64() >> 1;
    let n = sx::pick(0, 4);
    let len = 3 + sx::pick(0, 1) as u32;
    let now = sx::u32() >> 1;
    if n < 4 {
        let t = (0..n).map(|_| sx::u32() >> 1).collect();
        sx::assume(b.meta.octets_footprint >= 81 + len as u64);
        b.asked.insert((BLOB.to_vec(), len), t);
        if sx::pick(0, 1) == 1 {
            b.held.insert(BLOB.to_vec(), ());
        }
    }
    let a = plain(1);
    sx::assume(a.meta.balance < 1 << 63);
    let mut h = Host::new([(HOST, a), (PEER, b)].into(), PrivilegedServices::default(), now);
    h.vm.gas_counter = sx::u64() as i64;
    let id = [HOST as u64, PEER as u64, 12345, 1 << 32 | PEER as u64][sx::pick_usize(0, 3)];
    let gone = eject(&mut h, id);
    h.settled();
    if gone {
        h.same_account(PEER, None);
        h.vm.gas_counter = 100;
        pay_nobody(&mut h);
        sx::check!(!eject(&mut h, id));
        h.settled();
        h.same_account(PEER, None);
        for k in [3, 4] {
            let m = h.m.clone();
            sx::check!(run(h.sandbox().get_account_lookups_entry(m, PEER, &(hash(BLOB), k))).unwrap().is_none());
        }
        let m = h.m.clone();
        sx::check!(run(h.sandbox().get_account_preimages_entry(m, PEER, &hash(BLOB))).unwrap().is_none());
        sx::cover(5);
    } else if n < 4 {
        h.same_blob(PEER, BLOB, len);
        sx::cover(6);
    }
}
fn pay_nobody(h: &mut Host) {
    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (PEER as u64, 0, 1, RW + 8);
    let r = h.transfer();
    returned(&r, WHO, 10);
    sx::check!(h.x().deferred_transfers.is_empty());
}

//@ H02 covers=2 time=60 tmul=4
//@ bound: NEW, UPGRADE, TRANSFER or EJECT whose range lies in either page, across any border, outside, below the low zone's end or at any address from 2^32; NEW with a code length from 2^32
#[no_mangle]
pub extern "C" fn h02_access() {
    let mut h = Host::new([(HOST, plain(1)), (PEER, plain(2))].into(), PrivilegedServices::default(), 50);
    let p = place();
    let (r, clean) = match sx::pick(0, 3) {
        0 => {
            let l = if sx::pick(0, 1) == 1 { 5 } else { (sx::u32() as u64) << 32 | 5 };
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[11]) = (p, l, 0);
            (h.new_account(), readable(p, 32) && l < 1 << 32)
        }
        1 => {
            h.vm.regs[7] = p;
            (h.upgrade(), readable(p, 32))
        }
        2 => {
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (12345, 0, 0, p);
            (h.transfer(), readable(p, 128))
        }
        _ => {
            (h.vm.regs[7], h.vm.regs[8]) = (12345, p);
            (h.eject(), readable(p, 32))
        }
    };
    sx::check!(panicked(&r) == !clean);
    if clean {
        sx::check!(matches!(r.exit_reason, ExitReason::Continue));
        sx::cover(1);
    } else {
        h.settled();
        sx::cover(2);
    }
}
