//! H03: host calls on privileges, authorizer queues and the validator set; checkpoints, yields, and the data handed to programs.
use crate::host::*;

const THIRD: u32 = 5;
/// where the queue or the keys lie
const AT: u64 = RO + 0x100;

/// the privileges as the running service has made them
struct Held {
    m: u32,
    a: [u32; 2],
    v: u32,
    r: u32,
    z: BTreeMap<u32, u64>,
    queues: [Vec<u8>; 2],
    staged: Option<Vec<u8>>,
}
fn fill(n: usize, tag: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31) ^ (i >> 8) as u8 ^ tag).collect()
}
/// concrete octets with some symbolic ones at either end or across a border of the parts of 32 octets
fn material(n: usize, tag: u8) -> Vec<u8> {
    let mut b = fill(n, tag);
    for at in [0, 30, n - 4] {
        b[at..at + 4].copy_from_slice(&sx::bytes::<4>());
    }
    b
}
fn same_octets(a: &[u8], b: &[u8]) {
    sx::check!(a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        sx::check!(x == y);
    }
}
fn held(h: &mut Host, w: &Held) {
    let p = &h.x().partial_state;
    sx::check!(p.manager_service == w.m);
    for c in 0..2usize {
        let s = &p.assign_services;
        let got = match &s.change_by_bless {
            Some(a) => a[c],
            None => *s.change_by_self.get(&(c as u16)).unwrap_or(&s.last_confirmed[c]),
        };
        sx::check!(got == w.a[c]);
        for (i, q) in p.auth_queue.0[c].iter().enumerate() {
            same_octets(q.as_slice(), &w.queues[c][32 * i..32 * i + 32]);
        }
    }
    let s = &p.designate_service;
    sx::check!(s.change_by_bless.or(s.change_by_self).unwrap_or(s.last_confirmed) == w.v);
    let s = &p.registrar_service;
    sx::check!(s.change_by_bless.or(s.change_by_self).unwrap_or(s.last_confirmed) == w.r);
    let z = &p.always_accumulate_services;
    sx::check!(z.len() == w.z.len());
    for (k, g) in &w.z {
        sx::check!(z.get(k) == Some(g));
    }
    sx::check!(p.new_staging_set.is_some() == w.staged.is_some());
    if let (Some(s), Some(b)) = (&p.new_staging_set, &w.staged) {
        for (k, b) in s.iter().zip(b.chunks(336)) {
            same_octets(k.bandersnatch.0.as_slice(), &b[..32]);
            same_octets(k.ed25519.0.as_slice(), &b[32..64]);
            same_octets(k.bls.0.as_slice(), &b[64..208]);
            same_octets(k.metadata.0.as_slice(), &b[208..]);
        }
    }
}
fn poor(h: &Host, r: &HostCallResult) -> bool {
    if h.vm.gas_counter < 10 {
        sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
        sx::cover(1);
    }
    h.vm.gas_counter < 10
}

//@ H03 covers=10 time=60 tmul=4
//@ bound: a service holding any or none of the privileges; two (thorough: three) of BLESS, ASSIGN and DESIGNATE with any gas, handing each privilege to anyone, or naming no service; 0 to 2 always-accumulating services with any gas; any core; queues and keys with symbolic octets at three places
#[no_mangle]
pub extern "C" fn h03_privileges() {
    let mut p = PrivilegedServices::default();
    let mut w = Held { m: sx::u32(), a: [sx::u32(), sx::u32()], v: sx::u32(), r: sx::u32(), z: BTreeMap::new(), queues: [vec![0; 2560], vec![0; 2560]], staged: None };
    (p.manager_service, p.designate_service, p.registrar_service) = (w.m, w.v, w.r);
    (p.assign_services[0], p.assign_services[1]) = (w.a[0], w.a[1]);
    let mut h = Host::new([(HOST, plain(1)), (PEER, plain(2))].into(), p, 50);
    for i in 0..sx::bound(2, 3) {
        h.vm.gas_counter = if i == 0 { sx::u64() as i64 } else { 100 };
        match sx::pick(0, 2) {
            0 => {
                let (m, v, r) = (sx::u64(), sx::u64(), sx::u64());
                let a = [sx::u32(), sx::u32()];
                let n = sx::pick(0, 2);
                let mut z = vec![(THIRD, sx::u64()), (HOST, sx::u64())];
                z.truncate(n as usize);
                let mut b = vec![];
                for (s, g) in &z {
                    b.extend(s.to_le_bytes());
                    b.extend(g.to_le_bytes());
                }
                h.poke(RO + 8, &[a[0].to_le_bytes(), a[1].to_le_bytes()].concat());
                h.poke(RO + 0x40, &b);
                (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (m, RO + 8, v, r, RO + 0x40, n);
                let r_ = run_bless(&mut h);
                if !poor(&h, &r_) {
                    if m >> 32 != 0 || v >> 32 != 0 || r >> 32 != 0 {
                        returned(&r_, WHO, 10);
                        sx::cover(2);
                    } else {
                        returned(&r_, OK, 10);
                        (w.m, w.a, w.v, w.r, w.z) = (m as u32, a, v as u32, r as u32, z.into_iter().collect());
                        sx::cover(3);
                    }
                }
            }
            1 => {
                let q = material(2560, i as u8 + 1);
                h.poke(AT, &q);
                let core = [0, 1, 2, 1 << 32][sx::pick_usize(0, 3)];
                let to = sx::u64();
                (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9]) = (core, AT, to);
                let r = run_assign(&mut h);
                if !poor(&h, &r) {
                    if core >= 2 {
                        returned(&r, CORE, 10);
                        sx::cover(4);
                    } else if w.a[core as usize] != HOST {
                        returned(&r, HUH, 10);
                        sx::cover(5);
                    } else if to >> 32 != 0 {
                        returned(&r, WHO, 10);
                        sx::cover(6);
                    } else {
                        returned(&r, OK, 10);
                        let core = core as usize;
                        w.a[core] = to as u32;
                        w.queues[core] = q;
                        sx::cover(7);
                    }
                }
            }
            _ => {
                let k = material(336 * 6, i as u8 + 1);
                h.poke(AT, &k);
                h.vm.regs[7] = AT;
                let r = run_designate(&mut h);
                if !poor(&h, &r) {
                    if w.v != HOST {
                        returned(&r, HUH, 10);
                        sx::cover(8);
                    } else {
                        returned(&r, OK, 10);
                        w.staged = Some(k);
                        sx::cover(9);
                    }
                }
            }
        }
        held(&mut h, &w);
        if i > 0 {
            sx::cover(10);
        }
    }
}
fn run_bless(h: &mut Host) -> HostCallResult {
    Acc::host_bless(&h.vm, &mut h.ctx).unwrap()
}
fn run_assign(h: &mut Host) -> HostCallResult {
    Acc::host_assign(&h.vm, &mut h.ctx).unwrap()
}
fn run_designate(h: &mut Host) -> HostCallResult {
    Acc::host_designate(&h.vm, &mut h.ctx).unwrap()
}
fn run_checkpoint(h: &mut Host) -> HostCallResult {
    Acc::host_checkpoint(&h.vm, &mut h.ctx).unwrap()
}
fn run_yield(h: &mut Host) -> HostCallResult {
    run(Acc::host_yield(&h.vm, &mut h.ctx)).unwrap()
}
fn run_fetch(h: &mut Host) -> HostCallResult {
    Gen::host_fetch(&h.vm, &mut h.ctx).unwrap()
}

/// what the two contexts record besides the accounts
#[derive(Clone)]
struct Kept {
    balance: u64,
    paid: Vec<u64>,
    out: Option<[u8; 32]>,
    key: Option<Vec<u8>>,
    given: bool,
    manager: u32,
    next: u32,
}
fn kept(h: &Host, x: &mut AccumulateHostContext<StateManager>, k: &Kept) {
    let a = &mut x.partial_state.accounts_sandbox;
    sx::check!(run(a.get_account_metadata(h.m.clone(), HOST)).unwrap().unwrap().balance == k.balance);
    let s = run(a.get_account_storage_entry(h.m.clone(), HOST, &Octets::from_vec(vec![7]))).unwrap();
    sx::check!(s.is_some() == k.key.is_some());
    if let (Some(s), Some(v)) = (s, &k.key) {
        same_octets(&s.value, v);
    }
    sx::check!(x.deferred_transfers.len() == k.paid.len());
    for (t, n) in x.deferred_transfers.iter().zip(&k.paid) {
        sx::check!(t.amount == *n);
    }
    sx::check!(x.yielded_accumulate_hash.is_some() == k.out.is_some());
    if let (Some(y), Some(o)) = (&x.yielded_accumulate_hash, &k.out) {
        same_octets(y.as_slice(), o);
    }
    sx::check!(x.provided_preimages.len() == k.given as usize);
    sx::check!(x.partial_state.manager_service == k.manager);
    sx::check!(x.next_new_service_id == k.next);
}
/// one change to everything a context records that is asked for
fn step(h: &mut Host, k: &mut Kept) {
    h.vm.gas_counter = 1000;
    match sx::pick(0, 5) {
        0 => {
            let o = sx::bytes::<32>();
            h.poke(RO + 8, &o);
            h.vm.regs[7] = RO + 8;
            returned(&run_yield(h), OK, 10);
            k.out = Some(o);
        }
        1 => {
            let n = sx::u8() as u64;
            h.poke(RW + 8, &[0; 128]);
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (PEER as u64, n, 5, RW + 8);
            returned(&h.transfer(), OK, 15);
            k.balance -= n;
            k.paid.push(n);
        }
        2 => {
            let v = sx::vec(2);
            h.poke(RO + 8, &[7]);
            h.poke(RO + 16, &v);
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10]) = (RO + 8, 1, RO + 16, 2);
            let r = h.write();
            returned(&r, if k.key.is_some() { 2 } else { NONE }, 10);
            k.key = Some(v);
        }
        3 => {
            h.poke(RO + 8, b"abc");
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9]) = (PEER as u64, RO + 8, 3);
            returned(&h.provide(), if k.given { HUH } else { OK }, 10);
            k.given = true;
        }
        4 => {
            h.poke(RO + 8, &[0; 8]);
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (THIRD as u64, RO + 8, 0, 0, 0, 0);
            returned(&run_bless(h), OK, 10);
            k.manager = THIRD;
        }
        _ => {
            h.poke(RO + 8, &lab(4, 4));
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (RO + 8, 3, 1, 1, 0, 1 << 20);
            returned(&h.new_account(), k.next as u64, 10);
            k.balance -= 204;
            k.next = ((k.next as u64 - 65536 + 42) % ((1 << 32) - 65536 - 256) + 65536) as u32;
        }
    }
}

//@ H03 covers=3 time=60 tmul=4
//@ bound: up to one YIELD, TRANSFER, WRITE, PROVIDE, BLESS or NEW before a CHECKPOINT with any gas, one (thorough: two) after it
#[no_mangle]
pub extern "C" fn h03_checkpoint() {
    let mut a = plain(1);
    a.meta.balance = a.threshold() + 100_000 + sx::u32() as u64;
    let mut b = plain(2);
    b.meta.gas_limit_on_transfer = 5;
    b.asked.insert((b"abc".to_vec(), 3), vec![]);
    let mut k = Kept { balance: a.meta.balance, paid: vec![], out: None, key: None, given: false, manager: HOST, next: 0 };
    let p = PrivilegedServices { manager_service: HOST, ..Default::default() };
    let mut h = Host::new([(HOST, a), (PEER, b)].into(), p, 50);
    k.next = h.x().next_new_service_id;
    let mut y = k.clone();
    if sx::pick(0, 1) == 1 {
        step(&mut h, &mut k);
        sx::cover(1);
    }
    h.vm.gas_counter = sx::u64() as i64;
    let r = run_checkpoint(&mut h);
    if h.vm.gas_counter < 10 {
        sx::check!(matches!(r.exit_reason, ExitReason::OutOfGas));
        sx::cover(2);
    } else {
        returned(&r, h.vm.gas_counter as u64 - 10, 10);
        y = k.clone();
        sx::cover(3);
    }
    for _ in 0..sx::bound(1, 2) {
        step(&mut h, &mut k);
    }
    let InvocationContext::X_A(pair) = &mut h.ctx else { unreachable!() };
    let (mut cx, mut cy) = (pair.get_x().clone(), pair.get_y().clone());
    kept(&h, &mut cx, &k);
    kept(&h, &mut cy, &y);
}

fn operand(tag: u8) -> AccumulateOperand {
    AccumulateOperand {
        work_package_hash: h32(lab(tag, 1)),
        segment_root: h32(sx::bytes()),
        authorizer_hash: h32(lab(tag, 3)),
        work_item_payload_hash: h32(lab(tag, 4)),
        accumulate_gas_limit: [127, 128, 1 << 40, u64::MAX][2 * (tag & 1) as usize + sx::pick_usize(0, 1)],
        refine_result: match sx::pick(0, 2) {
            0 => workloads::WorkExecutionResult::Output(Octets::from_vec(sx::vec(3))),
            1 => workloads::WorkExecutionResult::out_of_gas(),
            _ => workloads::WorkExecutionResult::panic(),
        },
        auth_trace: sx::vec(2),
    }
}
fn natural(n: u64) -> Vec<u8> {
    match n {
        0..128 => vec![n as u8],
        128..16384 => vec![0x80 | (n >> 8) as u8, n as u8],
        n if n == 1 << 40 => vec![0xf8 | (n >> 40) as u8, 0, 0, 0, 0, 0],
        _ => [&[0xff][..], &n.to_le_bytes()].concat(),
    }
}
fn operand_octets(o: &AccumulateOperand) -> Vec<u8> {
    let mut b = vec![0];
    for f in [&o.work_package_hash, &o.segment_root, &o.authorizer_hash, &o.work_item_payload_hash] {
        b.extend(f.as_slice());
    }
    b.extend(natural(o.accumulate_gas_limit));
    match &o.refine_result {
        workloads::WorkExecutionResult::Output(v) => {
            b.extend([0, v.len() as u8]);
            b.extend(v.as_slice());
        }
        r if *r == workloads::WorkExecutionResult::out_of_gas() => b.push(1),
        _ => b.push(2),
    }
    b.push(o.auth_trace.len() as u8);
    b.extend(&o.auth_trace);
    b
}
fn transfer() -> DeferredTransfer {
    DeferredTransfer { from: sx::u32(), to: sx::u32(), amount: sx::u64(), memo: ByteArray(std::array::from_fn(|i| i as u8)), gas_limit: sx::u64() }
}
fn transfer_octets(t: &DeferredTransfer) -> Vec<u8> {
    let mut b = vec![1];
    b.extend(t.from.to_le_bytes());
    b.extend(t.to.to_le_bytes());
    b.extend(t.amount.to_le_bytes());
    b.extend(t.memo.as_slice());
    b.extend(t.gas_limit.to_le_bytes());
    b
}
/// the tiny chain's parameters
fn constants() -> Vec<u8> {
    let mut b = vec![];
    let mut put = |n: u64, v: u64| b.extend(&v.to_le_bytes()[..n as usize]);
    for v in [10, 1, 100] {
        put(8, v);
    }
    put(2, 2);
    put(4, 32);
    put(4, 12);
    for v in [10_000_000, 50_000_000, 1_000_000_000, 20_000_000] {
        put(8, v);
    }
    for v in [8, 16, 8, 3] {
        put(2, v);
    }
    put(4, 24);
    for v in [3, 8, 6, 80, 4, 128, 5, 6] {
        put(2, v);
    }
    for v in [64_000, 13_791_360, 4_000_000, 4, 3072, 1026, 49152, 128, 3072, 10] {
        put(4, v);
    }
    b
}

//@ H03 covers=8 time=60 tmul=4
//@ bound: FETCH of the chain's parameters, the entropy, all inputs or any one of up to two operands (three kinds of result, four gas limits) and a transfer, or of nothing, with any gas; any offset and length registers for the entropy, a choice for others; and GAS
#[no_mangle]
pub extern "C" fn h03_fetch() {
    let mut h = Host::new([(HOST, plain(1))].into(), PrivilegedServices::default(), 50);
    h.vm.gas_counter = sx::u64() as i64;
    let gas = h.vm.gas_counter;
    if sx::pick(0, 1) == 1 {
        let r = Gen::host_gas(&h.vm).unwrap();
        if !poor(&h, &r) {
            returned(&r, gas as u64 - 10, 10);
            sx::cover(2);
        }
        return;
    }
    let id = [0, 1, 14, 15, 2, 7, 16, 1 << 32, u64::MAX][sx::pick_usize(0, 8)];
    let many = id == 14 || id == 15;
    let ts: Vec<_> = (0..if many { sx::pick(0, 1) } else { 0 }).map(|_| transfer()).collect();
    let os: Vec<_> = (0..if many { sx::pick(0, 2) } else { 0 }).map(|i| operand(i as u8)).collect();
    let each: Vec<Vec<u8>> = ts.iter().map(transfer_octets).chain(os.iter().map(operand_octets)).collect();
    h.x().invoke_args.inputs = AccumulateInputs::new(ts, os);
    let i = if id == 15 { [0, 1, 2, 3, u64::MAX][sx::pick_usize(0, 4)] } else { 0 };
    let data: Option<Vec<u8>> = match id {
        0 => Some(constants()),
        1 => Some(lab(9, 9).to_vec()),
        14 => Some([vec![each.len() as u8], each.concat()].concat()),
        15 => each.get(i as usize).cloned(),
        _ => None,
    };
    let n = data.as_ref().map_or(0, |d| d.len() as u64);
    let (off, len) = if id == 1 {
        (sx::u64(), sx::u64())
    } else {
        [(0, u64::MAX), (1, n), (n, 1), (u64::MAX, 5), (n.saturating_sub(2), 1)][sx::pick_usize(0, 4)]
    };
    let from = off.min(n);
    let l = len.min(n - from);
    let p = [RW, END - 1][sx::pick_usize(0, 1)];
    (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11]) = (p, off, len, id, i);
    let r = run_fetch(&mut h);
    if poor(&h, &r) {
        return;
    }
    match data {
        None => {
            returned(&r, NONE, 10);
            sx::cover(3);
        }
        Some(_) if !writable(p, l) => {
            sx::check!(panicked(&r) && r.vm_change.memory_write.is_none());
            sx::cover(4);
        }
        Some(d) => {
            delivered(&r, &d, from, l, p);
            sx::cover(match id {
                0 => 5,
                1 => 6,
                14 => 7,
                _ => 8,
            });
        }
    }
}

//@ H03 covers=2 time=60 tmul=4
//@ bound: BLESS, ASSIGN, DESIGNATE or YIELD whose range lies in either page, across any border, outside, below the low zone's end or at any address from 2^32
#[no_mangle]
pub extern "C" fn h03_access() {
    let mut h = Host::new([(HOST, plain(1)), (PEER, plain(2))].into(), PrivilegedServices { designate_service: HOST, ..Default::default() }, 50);
    let p = place();
    let (r, clean) = match sx::pick(0, 3) {
        0 => {
            let q = place();
            let n = [0, 1, 2, 1 << 60, u64::MAX][sx::pick_usize(0, 4)];
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9], h.vm.regs[10], h.vm.regs[11], h.vm.regs[12]) = (1, p, 1, 1, q, n);
            (run_bless(&mut h), readable(p, 8) && n < 3 && readable(q, 12 * n))
        }
        1 => {
            (h.vm.regs[7], h.vm.regs[8], h.vm.regs[9]) = (0, p, 1);
            (run_assign(&mut h), readable(p, 2560))
        }
        2 => {
            h.vm.regs[7] = p;
            (run_designate(&mut h), readable(p, 336 * 6))
        }
        _ => {
            h.vm.regs[7] = p;
            (run_yield(&mut h), readable(p, 32))
        }
    };
    sx::check!(panicked(&r) == !clean);
    if clean {
        sx::check!(matches!(r.exit_reason, ExitReason::Continue));
        sx::cover(1);
    } else {
        sx::check!(h.x().partial_state.new_staging_set.is_none() && h.x().yielded_accumulate_hash.is_none());
        sx::check!(h.x().partial_state.assign_services.change_by_bless.is_none());
        sx::cover(2);
    }
}
