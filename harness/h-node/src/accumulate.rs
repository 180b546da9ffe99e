//! A01, A02: accumulation of a block's reports, with the services' own programs.
use crate::guarantees::digest;
use crate::host::*;
use crate::programs::{natural, service_code, standard, Asm, W};
use crate::reports::report;
use fr_transition::state::services::*;

pub const A: u32 = 7;
pub const B: u32 = 300;
pub const C: u32 = 5000;
/// no such service
const GONE: u32 = 44;
const SLOT: u32 = 50;
/// octets of the programs' read-only memory, used as keys
const KEY: u64 = 0x10000;

impl Asm {
    pub fn mov(self, d: u8, a: u8) -> Self {
        self.op(&[100, d | a << 4])
    }
    /// writes storage under a key of `n` octets: the range in registers 9 and 10
    fn put(self, n: u64) -> Self {
        self.set(7, KEY).set(8, n).call(4)
    }
    /// reads own storage under a key of `n` octets to `at`
    fn take(self, n: u64, at: u64) -> Self {
        self.set(7, u64::MAX).set(8, KEY).set(9, n).set(10, at).set(11, 0).set(12, 4000).call(3)
    }
    /// fetches all inputs to the writable memory and stores them
    fn inputs(self) -> Self {
        self.set(7, W + 512).set(8, 0).set(9, 3500).set(10, 14).call(1).mov(10, 7).set(9, W + 512).put(4)
    }
    /// stores its arguments and gas
    fn log(self) -> Self {
        self.mov(9, 7).mov(10, 8).put(2).call(0).store(7, W as u32).set(9, W).set(10, 8).put(3)
    }
}
pub fn key(n: usize) -> Vec<u8> {
    vec![7; n]
}
/// a service with code and ample balance
pub fn service(tag: u8, code: Option<&Asm>) -> Acct {
    let mut a = plain(tag);
    a.meta.balance = a.threshold() + (1 << 40) + sx::u32() as u64;
    a.meta.gas_limit_on_transfer = 100;
    if let Some(c) = code {
        let blob = service_code(&c.program());
        a.meta.code_hash = hash(&blob);
        a.held.insert(blob, ());
    }
    a
}
impl Acct {
    pub fn put(&mut self, k: Vec<u8>, v: Vec<u8>) {
        self.meta.octets_footprint += v.len() as u64;
        match self.storage.insert(k.clone(), v) {
            Some(o) => self.meta.octets_footprint -= o.len() as u64,
            None => {
                self.meta.items_footprint += 1;
                self.meta.octets_footprint += 34 + k.len() as u64;
            }
        }
    }
}
pub fn chain(accts: &BTreeMap<u32, Acct>, p: &PrivilegedServices) -> Arc<StateManager> {
    let mut s = Seed::new()
        .with(p)
        .with(&AuthQueue::default())
        .with(&Timeslot(SLOT))
        .with(&StagingSet(vset(1)))
        .with(&DisputesState::default())
        .with(&EpochEntropy::default());
    for (id, a) in accts {
        s = seed_acct(s, *id, a);
    }
    s.manager()
}
pub fn work(id: u8, items: &[(u32, u64)]) -> WorkReport {
    let mut r = report(id, 0);
    let d: Vec<_> = items
        .iter()
        .enumerate()
        .map(|(i, (s, g))| {
            let mut d = digest(i & 1, *g, i);
            d.service_id = *s;
            d
        })
        .collect();
    r.digests = d.try_into().unwrap();
    r
}
/// the account in the state is as in the model
pub fn same_state(m: &Arc<StateManager>, id: u32, a: Option<&Acct>) {
    let got = run(m.get_account_metadata(id)).unwrap();
    sx::check!(got.is_some() == a.is_some());
    if let (Some(g), Some(a)) = (got, a) {
        same_meta(&g, &a.meta);
        for n in 1..6 {
            same_value(m, id, &key(n), a.storage.get(&key(n)));
        }
    }
}
pub fn same_value(m: &Arc<StateManager>, id: u32, k: &[u8], want: Option<&Vec<u8>>) {
    let got = run(m.get_account_storage_entry(id, &Octets::from_vec(k.to_vec()))).unwrap();
    sx::check!(got.is_some() == want.is_some());
    if let (Some(g), Some(w)) = (got, want) {
        sx::check!(g.value.len() == w.len());
        for (x, y) in g.value.chunks(8).zip(w.chunks(8)) {
            if x.len() == 8 {
                sx::check!(u64::from_le_bytes(x.try_into().unwrap()) == u64::from_le_bytes(y.try_into().unwrap()));
            } else {
                sx::check!(x == y);
            }
        }
    }
}

#[derive(Clone)]
struct Move {
    from: u32,
    to: u32,
    amount: u64,
    gas: u64,
}
impl Move {
    fn octets(&self) -> Vec<u8> {
        [&[1][..], &self.from.to_le_bytes(), &self.to.to_le_bytes(), &self.amount.to_le_bytes(), &[0; 128], &self.gas.to_le_bytes()].concat()
    }
}
#[derive(Default)]
struct Done {
    used: u64,
    moves: Vec<Move>,
}
/// what a service does: given itself, the transfers to it, the number of inputs and the gas
type Act<'a> = dyn Fn(u32, &mut Acct, &[Move], usize, u64) -> Done + 'a;
#[derive(Default)]
struct Outcome {
    reports: usize,
    stats: BTreeMap<u32, (u64, u32)>,
    rounds: usize,
}
/// the specification's rounds of accumulation
fn rounds(accts: &mut BTreeMap<u32, Acct>, act: &Act, reports: &[Vec<(u32, u64)>], always: &BTreeMap<u32, u64>) -> Outcome {
    let mut o = Outcome::default();
    let mut left = 20_000_000u128 + always.values().map(|g| *g as u128).sum::<u128>();
    let mut always = always.clone();
    let mut moves: Vec<Move> = vec![];
    loop {
        let (mut k, mut sum) = (0, 0u128);
        for r in &reports[o.reports..] {
            sum += r.iter().map(|(_, g)| *g as u128).sum::<u128>();
            if sum > left {
                break;
            }
            k += 1;
        }
        if k + moves.len() + always.len() == 0 {
            break;
        }
        let now = &reports[o.reports..][..k];
        let mut who: Vec<u32> = always.keys().copied().chain(moves.iter().map(|m| m.to)).chain(now.iter().flatten().map(|d| d.0)).collect();
        who.sort();
        who.dedup();
        let (mut next, mut all) = (vec![], 0);
        for s in who {
            let got: Vec<Move> = moves.iter().filter(|m| m.to == s).cloned().collect();
            let mine: Vec<u64> = now.iter().flatten().filter(|d| d.0 == s).map(|d| d.1).collect();
            let gas = always.get(&s).copied().unwrap_or(0) + mine.iter().sum::<u64>() + got.iter().map(|m| m.gas).sum::<u64>();
            let mut d = Done::default();
            if let Some(a) = accts.get_mut(&s) {
                for m in &got {
                    a.meta.balance += m.amount;
                }
                d = act(s, a, &got, got.len() + mine.len(), gas);
            }
            all += d.used;
            next.extend(d.moves);
            let e = o.stats.entry(s).or_default();
            e.0 += d.used;
            e.1 += mine.len() as u32;
        }
        left = left + moves.iter().map(|m| m.gas as u128).sum::<u128>() - all as u128;
        moves = next;
        always.clear();
        o.reports += k;
        o.rounds += 1;
    }
    o.stats.retain(|_, (g, n)| *g > 0 || *n > 0);
    o
}
fn agree(m: &Arc<StateManager>, got: &AccumulateSummary, o: &Outcome, accts: &mut BTreeMap<u32, Acct>) {
    sx::check!(got.accumulated_reports_count == o.reports);
    sx::check!(got.accumulate_stats.len() == o.stats.len());
    for (s, (g, n)) in &o.stats {
        let e = got.accumulate_stats.get(s);
        sx::check!(e.is_some());
        if let Some(e) = e {
            sx::check!(e.gas_used == *g);
            sx::check!(e.digests_count == *n);
        }
        if let Some(a) = accts.get_mut(s) {
            a.meta.last_accumulate_at = SLOT;
        }
    }
    let who: Vec<u32> = got.accumulate_stats.keys().copied().collect();
    run(transition_services_last_accumulate_at(m.clone(), &who)).unwrap();
    for (s, a) in accts.iter() {
        same_state(m, *s, Some(a));
    }
}
/// as `Asm::log` does
fn log(s: u32, a: &mut Acct, n: usize, gas: u64) {
    a.put(key(2), [natural(SLOT as usize), natural(s as usize), natural(n)].concat());
    a.put(key(3), (gas - 26).to_le_bytes().to_vec());
}

//@ A01 covers=9 time=200 tmul=4 eager=1
//@ bound: three reports of one or two digests, over a service that runs, one that panics, one without code and an absent one, any gas limits below 2^26 that suffice, or one of 2^63 and above; one of them always accumulating, with any gas below 2^26 or of 2^61
#[no_mangle]
pub extern "C" fn a01_gas() {
    let code = Asm::entry().log().give(W, 0);
    let bad = Asm::entry().set(7, 1).op(&[0]);
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, Some(&code))), (B, service(2, Some(&bad))), (C, service(3, None))].into();
    let mut g: Vec<u64> = (0..4).map(|_| sx::u32() as u64 >> 6).collect();
    let wide = sx::pick(0, 1) == 1;
    if wide {
        g[sx::pick_usize(0, 3)] = [1 << 63, u64::MAX - 9_999_999][sx::pick_usize(0, 1)];
    }
    sx::assume(g[0] >= 45 && g[1] >= 2 && g[2] >= 45);
    let last = if wide { A } else { [A, C, GONE][sx::pick_usize(0, 2)] };
    sx::assume(last != A || g[3] >= 45);
    let reports = [vec![(A, g[0])], vec![(B, g[1]), (A, g[2])], vec![(last, g[3])]];
    let mut p = PrivilegedServices::default();
    let z = [0, A, B, C, GONE][if last == A && !wide { sx::pick_usize(0, 4) } else { 0 }];
    if z != 0 {
        let gas = if sx::pick(0, 1) == 0 { sx::u32() as u64 >> 6 } else { 1 << 61 };
        sx::assume(gas >= 45);
        p.always_accumulate_services.insert(z, gas);
    }
    let m = chain(&accts, &p);
    let w: Vec<WorkReport> = reports.iter().enumerate().map(|(i, r)| work(i as u8, r)).collect();
    let got = run(transition_on_accumulate(m.clone(), &w)).unwrap();
    let act = |s: u32, a: &mut Acct, _: &[Move], n: usize, gas: u64| {
        let mut d = Done::default();
        if s == A {
            log(s, a, n, gas);
            d.used = 45;
        } else if s == B {
            d.used = 2;
        }
        d
    };
    let o = rounds(&mut accts, &act, &reports, &p.always_accumulate_services);
    agree(&m, &got, &o, &mut accts);
    sx::check!(got.output_pairs.0.is_empty());
    sx::cover(1 + o.reports as u32);
    if o.rounds < 4 {
        sx::cover(5 + o.rounds as u32);
    }
    if z != 0 && o.reports == 0 {
        sx::cover(9);
    }
}

//@ A01 covers=7 time=100 tmul=4 eager=1
//@ bound: a service transferring any two amounts to others (running, panicking, without code, absent) with any gas it can pay, each receiver that runs passing one on; another report of any gas limit waiting
#[no_mangle]
pub extern "C" fn a01_transfers() {
    // two transfers to the same receiver, of stored amounts and gas
    let mut send = Asm::entry().take(1, W);
    let to = [B, C, GONE][sx::pick_usize(0, 2)];
    for i in 0..2 {
        send = send.set(7, to as u64).load(8, W as u32 + 16 * i).load(9, W as u32 + 16 * i + 8).set(10, W + 256).call(20);
    }
    // the receiver stores its inputs and sends 5 on
    let pass = Asm::entry().inputs().set(7, C as u64).set(8, 5).set(9, 100).set(10, W + 256).call(20).give(W, 0);
    let bad = sx::pick(0, 1) == 1;
    let end = Asm::entry().inputs().op(&[0]);
    let mut accts: BTreeMap<u32, Acct> = [
        (A, service(1, Some(&send.give(W, 0)))),
        (B, service(2, Some(&pass))),
        (C, service(3, if bad { Some(&end) } else { None })),
    ]
    .into();
    let (amount, gas): (Vec<u64>, Vec<u64>) = (0..2).map(|_| (sx::u32() as u64, sx::u32() as u64)).unzip();
    let v: Vec<u8> = (0..2).flat_map(|i| [amount[i].to_le_bytes(), gas[i].to_le_bytes()].concat()).collect();
    accts.get_mut(&A).unwrap().put(key(1), v);
    sx::assume(gas.iter().all(|g| *g >= 200 && *g < 4_000_000));
    let late = sx::u32() as u64 >> 6;
    let reports = [vec![(A, 10_000_000)], vec![(GONE, late)]];
    let p = PrivilegedServices::default();
    let m = chain(&accts, &p);
    let w: Vec<WorkReport> = reports.iter().enumerate().map(|(i, r)| work(i as u8, r)).collect();
    let got = run(transition_on_accumulate(m.clone(), &w)).unwrap();
    let act = |s: u32, a: &mut Acct, got: &[Move], n: usize, _: u64| {
        let mut d = Done::default();
        let data = [natural(n), got.iter().flat_map(|m| m.octets()).collect()].concat();
        if s == A {
            d.used = 17 + 30 + 3;
            if to != GONE {
                for i in 0..2 {
                    a.meta.balance -= amount[i];
                    d.used += gas[i];
                    d.moves.push(Move { from: A, to, amount: amount[i], gas: gas[i] });
                }
            }
        } else if s == B {
            a.put(key(4), data);
            a.meta.balance -= 5;
            d.used = 30 + 115 + 3;
            d.moves.push(Move { from: B, to: C, amount: 5, gas: 100 });
        } else if bad {
            // (undone)
            d.used = 31;
        }
        d
    };
    let o = rounds(&mut accts, &act, &reports, &Default::default());
    agree(&m, &got, &o, &mut accts);
    sx::cover(o.rounds as u32);
    sx::cover(match to {
        B => 4,
        C => 5,
        _ => 6,
    });
    if o.reports == 2 {
        sx::cover(7);
    }
}

//@ A01 covers=6 time=100 tmul=4 eager=1
//@ bound: two services in the same round, each blessing any services, assigning both cores and designating, in either order; each of the manager, assigner and delegator roles held by either or by a third; any newly named services
#[no_mangle]
pub extern "C" fn a01_privileges() {
    let late = sx::pick(0, 1) == 1;
    let bless = |a: Asm| a.load(7, W as u32 + 8).set(8, W).load(9, W as u32 + 16).load(10, W as u32 + 24).set(11, W + 40).set(12, 1).call(14);
    let code = |tag: u64| {
        let mut a = Asm::entry().take(1, W);
        if !late {
            a = bless(a);
        }
        for c in 0..2 {
            a = a.set(7, c).set(8, W).load(9, W as u32 + 32).call(15);
        }
        a = a.set(2, tag).store(2, W as u32 + 1024).set(7, W + 1024).call(16);
        if late {
            a = bless(a);
        }
        a.give(W, 0)
    };
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, Some(&code(1)))), (B, service(2, Some(&code(2))))].into();
    let at = |i: usize| [A, B, C][i];
    let mut p = PrivilegedServices::default();
    p.manager_service = at(sx::pick_usize(0, 2));
    for c in 0..2 {
        p.assign_services[c] = at(sx::pick_usize(0, 1));
    }
    p.designate_service = at(sx::pick_usize(0, 1) + p.manager_service.eq(&A) as usize);
    p.registrar_service = A;
    p.always_accumulate_services.insert(C, 77);
    // what each names
    #[derive(Clone)]
    struct Roles {
        m: u32,
        a: [u32; 2],
        v: u32,
        r: u32,
        z: (u32, u64),
        q: [u8; 2],
        i: u8,
    }
    let start = Roles {
        m: p.manager_service,
        a: [p.assign_services[0], p.assign_services[1]],
        v: p.designate_service,
        r: A,
        z: (C, 77),
        q: [0; 2],
        i: 0,
    };
    let mut after = BTreeMap::new();
    let mut stored = BTreeMap::new();
    for (k, s) in [A, B].into_iter().enumerate() {
        let (a, m, v, r, t, z) = ([sx::u32(), sx::u32()], sx::u32(), sx::u32(), sx::u32(), sx::u32(), (sx::u32(), sx::u64()));
        let w = |x: u32| (x as u64).to_le_bytes();
        let d = [&a[0].to_le_bytes()[..], &a[1].to_le_bytes(), &w(m), &w(v), &w(r), &w(t), &z.0.to_le_bytes(), &z.1.to_le_bytes()].concat();
        accts.get_mut(&s).unwrap().put(key(1), d.clone());
        stored.insert(k as u8 + 1, d);
        // the roles as they are in the service's own view
        let mut e = start.clone();
        for step in 0..4 {
            let what = if late { [1, 2, 3, 0] } else { [0, 1, 2, 3] }[step];
            match what {
                0 => (e.m, e.a, e.v, e.r, e.z) = (m, a, v, r, z),
                c @ (1 | 2) if s == e.a[c - 1] => (e.a[c - 1], e.q[c - 1]) = (t, k as u8 + 1),
                3 if s == e.v => e.i = k as u8 + 1,
                _ => (),
            }
        }
        after.insert(s, e);
    }
    after.insert(C, start.clone());
    let m = chain(&accts, &p);
    let got = run(transition_on_accumulate(m.clone(), &[work(1, &[(A, 100_000), (B, 100_000)])])).unwrap();
    sx::check!(got.accumulated_reports_count == 1);
    let pick = |o: u32, a: u32, b: u32| if a == o { b } else { a };
    let e = &after[&start.m];
    let now = run(m.get_privileged_services()).unwrap();
    sx::check!(now.manager_service == e.m);
    for c in 0..2 {
        sx::check!(now.assign_services[c] == pick(start.a[c], e.a[c], after[&start.a[c]].a[c]));
    }
    sx::check!(now.designate_service == pick(start.v, e.v, after[&start.v].v));
    sx::check!(now.registrar_service == pick(start.r, e.r, after[&start.r].r));
    sx::check!(now.always_accumulate_services.len() == 1);
    let (z, g) = now.always_accumulate_services.iter().next().unwrap();
    sx::check!(*z == e.z.0 && *g == e.z.1);
    let q = run(m.get_auth_queue()).unwrap();
    for c in 0..2 {
        let by = after[&start.a[c]].q[c];
        let mut want = vec![0u8; 32];
        if by > 0 {
            want[..].copy_from_slice(&stored[&by][..32]);
        }
        sx::check!(sx::same(q.0[c][0].as_slice(), &want));
        sx::check!(q.0[c].iter().skip(2).all(|h| *h == Hash32::default()));
    }
    let i = run(m.get_staging_set()).unwrap();
    let by = after[&start.v].i;
    if by == 0 {
        sx::check!(i.0 == vset(1));
        sx::cover(1);
    } else {
        sx::check!(i.0[0].bandersnatch.0 .0[0] == by && i.0[5] == ValidatorKey::default());
        sx::cover(2);
    }
    sx::cover(if start.m == C { 3 } else { 4 });
    if start.a[0] == start.a[1] {
        sx::cover(5);
    }
    if start.m == start.a[1] && late {
        sx::cover(6);
    }
}

impl Asm {
    /// puts octets into the writable memory
    fn data(mut self, at: u64, b: &[u8]) -> Self {
        for (i, c) in b.chunks(8).enumerate() {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self = self.set(2, u64::from_le_bytes(w)).store(2, at as u32 + 8 * i as u32);
        }
        self
    }
}
/// the record of a blob and the blob in the state are as given
fn same_blob(m: &Arc<StateManager>, id: u32, b: &[u8], len: u32, asked: Option<&[u32]>, held: bool) {
    let got = run(m.get_account_lookups_entry(id, &(hash(b), len))).unwrap();
    sx::check!(got.is_some() == asked.is_some());
    if let (Some(g), Some(t)) = (got, asked) {
        sx::check!(g.value.len() == t.len());
        for (x, y) in g.value.iter().zip(t) {
            sx::check!(x.0 == *y);
        }
    }
    let got = run(m.get_account_preimages_entry(id, &hash(b))).unwrap();
    sx::check!(got.is_some() == held);
    if let Some(g) = got {
        sx::check!(sx::same(&g.value, b));
    }
}

//@ A01 covers=8 time=100 tmul=4 eager=1
//@ bound: two services providing a blob another one asked for (fresh, once had, has, or never asked), which itself forgets the request, writes, or does not run, in the same round; a later round
#[no_mangle]
pub extern "C" fn a01_provide() {
    let blob = key(8);
    let provide = Asm::entry().set(7, C as u64).set(8, KEY).set(9, 8).call(26).store(7, W as u32).set(9, W).set(10, 8).put(3).give(W, 0);
    let what = sx::pick_usize(0, 3);
    let does = Asm::entry().data(W + 2048, hash(&blob).as_slice()).set(7, W + 2048).set(8, 8).call(24).store(7, W as u32).set(9, W).set(10, 8).put(3);
    let writes = Asm::entry().set(9, KEY).set(10, 8).put(3);
    let runs = sx::pick_usize(0, 2);
    let code = if runs == 2 { does } else { writes };
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, Some(&provide))), (B, service(2, Some(&provide))), (C, service(3, Some(&code.give(W, 0))))].into();
    let x = 1 + (sx::u8() >> 4) as u32;
    let had: Option<Vec<u32>> = [None, Some(vec![]), Some(vec![x]), Some(vec![x, 17])][what].clone();
    let c = accts.get_mut(&C).unwrap();
    if let Some(t) = &had {
        c.asked.insert((blob.clone(), 8), t.clone());
        if t.len() > 0 {
            c.held.insert(blob.clone(), ());
        }
    }
    let m = chain(&accts, &PrivilegedServices::default());
    let both = sx::pick(0, 1) == 1;
    let late = sx::pick(0, 1) == 1;
    let mut w = vec![work(1, &[(A, 5_000_000)])];
    if both {
        w.push(work(2, &[(B, 5_000_000)]));
    }
    if runs > 0 {
        // in the same round, or the next one
        w.push(work(3, &[(C, if late { 16_000_000 } else { 5_000_000 })]));
    }
    let n = w.len();
    let got = run(transition_on_accumulate(m.clone(), &w)).unwrap();
    sx::check!(got.accumulated_reports_count == n);
    let mut asked = had.clone();
    let mut held = had.as_ref().is_some_and(|t| t.len() > 0);
    let r = match &had {
        Some(t) if t.is_empty() => OK,
        _ => HUH,
    };
    for s in [A, B] {
        if s == A || both {
            accts.get_mut(&s).unwrap().put(key(3), r.to_le_bytes().to_vec());
        }
    }
    let second = late && (5 * both as u32 + 5 + 16) > 20;
    let given = |asked: &mut Option<Vec<u32>>, held: &mut bool| {
        if r == OK && *asked == Some(vec![]) {
            *asked = Some(vec![SLOT]);
            *held = true;
            sx::cover(1);
        }
    };
    if second {
        given(&mut asked, &mut held);
    }
    let c = accts.get_mut(&C).unwrap();
    match runs {
        1 => c.put(key(3), blob.clone()),
        2 => {
            let (r, t) = match asked.clone() {
                None => (HUH, None),
                Some(t) => match t.len() {
                    0 => (OK, None),
                    1 => (OK, Some(vec![t[0], SLOT])),
                    _ if t[1] < SLOT - 32 => (OK, None),
                    _ => (HUH, Some(t)),
                },
            };
            if asked.is_some() && t.is_none() {
                held = false;
                c.meta.items_footprint -= 2;
                c.meta.octets_footprint -= 89;
            }
            if second && r == OK {
                sx::cover(2);
            }
            asked = t;
            c.put(key(3), r.to_le_bytes().to_vec());
            sx::cover(3);
        }
        _ => (),
    }
    if !second {
        given(&mut asked, &mut held);
    }
    same_blob(&m, C, &blob, 8, asked.as_deref(), held);
    for s in [A, B, C] {
        if got.accumulate_stats.contains_key(&s) {
            accts.get_mut(&s).unwrap().meta.last_accumulate_at = SLOT;
        }
    }
    let who: Vec<u32> = got.accumulate_stats.keys().copied().collect();
    sx::check!(who.len() == n);
    run(transition_services_last_accumulate_at(m.clone(), &who)).unwrap();
    for (s, a) in &accts {
        same_state(&m, *s, Some(a));
    }
    sx::cover(4 + what as u32);
    if both && r == OK {
        sx::cover(8);
    }
}

//@ A01 covers=8 time=100 tmul=4 eager=1
//@ bound: a service ejecting another (that it owns or not, of any balance) and making a new account of any gas limits, which it pays any amount; another service paying or not paying any amount to the ejected one in the same round or one or two before; a report for it, too, or none
#[no_mangle]
pub extern "C" fn a01_accounts() {
    let blob = key(8);
    let h = hash(&blob);
    let ejects = sx::pick(0, 1) == 1;
    // the first service runs in the same round as the second, or the next, or the one after
    let pays = sx::pick(0, 1) == 1;
    let later = if pays { sx::pick_usize(0, 2) } else { 0 };
    let makes = later == 0 && sx::pick(0, 1) == 1;
    let mut code = Asm::entry().data(W + 2048, h.as_slice());
    if ejects {
        code = code.set(7, C as u64).set(8, W + 2048).call(21).store(7, W as u32).set(9, W).set(10, 8).put(3);
    }
    if makes {
        // a new account, and a transfer to it
        code = code.take(1, W).set(7, W + 2048).set(8, 8).load(9, W as u32).load(10, W as u32 + 8).set(11, 0).set(12, 0).call(18);
        code = code.store(7, W as u32 + 32).load(8, W as u32 + 16).load(9, W as u32 + 24).set(10, W + 256).call(20).set(9, W + 32).set(10, 8).put(5);
    }
    let pay = Asm::entry().take(1, W).set(7, C as u64).load(8, W as u32).set(9, 100).set(10, W + 256).call(20).give(W, 0);
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, Some(&code.give(W, 0)))), (B, service(2, Some(&pay))), (C, service(3, None))].into();
    let owned = sx::pick(0, 1) == 1;
    let c = accts.get_mut(&C).unwrap();
    let mut o = [0; 32];
    o[..4].copy_from_slice(&if owned { A } else { B }.to_le_bytes());
    c.meta.code_hash = h32(o);
    c.meta.items_footprint = 2;
    c.meta.octets_footprint = 89;
    let since = (sx::u8() & 31) as u32;
    c.asked.insert((blob.clone(), 8), vec![1, since]);
    c.held.insert(blob.clone(), ());
    let (g, l) = (sx::u64(), sx::u16() as u64);
    let (amount, gas, paid) = (sx::u32() as u64, sx::u16() as u64, sx::u32() as u64);
    let a = accts.get_mut(&A).unwrap();
    a.put(key(1), [g.to_le_bytes(), l.to_le_bytes(), amount.to_le_bytes(), gas.to_le_bytes()].concat());
    accts.get_mut(&B).unwrap().put(key(1), paid.to_le_bytes().to_vec());
    let m = chain(&accts, &PrivilegedServices::default());
    let also = sx::pick(0, 1) == 1;
    let mut w = vec![];
    if pays {
        w.push(work(2, &[(B, 1_000_000)]));
    }
    for i in 1..later {
        w.push(work(3 + i as u8, &[(GONE, 19_500_000)]));
    }
    let last = if later > 0 { 19_500_000 } else { 1_000_000 };
    w.push(work(1, &[(A, last)]));
    if also {
        w.push(work(3, &[(C, 1_000)]));
    }
    let got = run(transition_on_accumulate(m.clone(), &w)).unwrap();
    sx::check!(got.accumulated_reports_count == w.len());
    if pays && later == 2 {
        accts.get_mut(&C).unwrap().meta.balance += paid;
    }
    let mut gone = false;
    if ejects {
        gone = owned && since < SLOT - 32;
        let r = if gone {
            OK
        } else if owned {
            HUH
        } else {
            WHO
        };
        let b = accts[&C].meta.balance;
        let a = accts.get_mut(&A).unwrap();
        if gone {
            a.meta.balance += b;
        }
        a.put(key(3), r.to_le_bytes().to_vec());
    }
    if makes {
        let mut b = vec![A as u8];
        b.extend([0; 32]);
        b.push(SLOT as u8);
        let v = hash(&b);
        let v = u32::from_le_bytes(v.as_slice()[..4].try_into().unwrap()) as u64;
        let id = (v % ((1 << 32) - 65536 - 256) + 65536) as u32;
        let a = accts.get_mut(&A).unwrap();
        let mut meta = AccountMetadata::default();
        meta.code_hash = h.clone();
        meta.balance = 209;
        meta.gas_limit_accumulate = g;
        meta.gas_limit_on_transfer = l;
        meta.octets_footprint = 89;
        meta.items_footprint = 2;
        meta.created_at = SLOT;
        meta.parent_service_id = A;
        a.meta.balance -= 209;
        if gas >= l {
            a.meta.balance -= amount;
            meta.balance += amount;
            sx::cover(1);
        }
        a.put(key(5), (id as u64).to_le_bytes().to_vec());
        accts.insert(id, Acct { meta, storage: BTreeMap::new(), held: BTreeMap::new(), asked: BTreeMap::new() });
        same_blob(&m, id, &blob, 8, Some(&[]), false);
    }
    if pays {
        // (lost if the receiver is gone)
        accts.get_mut(&B).unwrap().meta.balance -= paid;
        if later < 2 {
            accts.get_mut(&C).unwrap().meta.balance += paid;
        } else if gone {
            sx::cover(8);
        }
    }
    let who: Vec<u32> = got.accumulate_stats.keys().copied().collect();
    for s in &who {
        if let Some(a) = accts.get_mut(s) {
            a.meta.last_accumulate_at = SLOT;
        }
    }
    if gone {
        accts.remove(&C);
    }
    run(transition_services_last_accumulate_at(m.clone(), &who)).unwrap();
    let t = [1, since];
    same_blob(&m, C, &blob, 8, if gone { None } else { Some(&t[..]) }, !gone);
    same_state(&m, C, accts.get(&C));
    for (s, a) in &accts {
        same_state(&m, *s, Some(a));
    }
    sx::cover(match (gone, pays, also) {
        (true, true, true) => 2,
        (true, true, false) => 3,
        (true, false, true) => 4,
        (true, ..) => 5,
        (_, true, _) => 6,
        _ => 7,
    });
}

//@ A02 covers=12 time=100 tmul=4 eager=1
//@ bound: a program that writes, pays, yields and provides, with or without a checkpoint in between, then halts with 0, 31 or 32 octets, panics or faults, run on a transfer of any amount with any gas below 65536
#[no_mangle]
pub extern "C" fn a02_endings() {
    let blobs = [key(8), key(7)];
    let (saves, end) = (sx::pick(0, 1) == 1, sx::pick_usize(0, 4));
    let cost = std::cell::Cell::new(0u64);
    let part = |mut a: Asm, i: u64| {
        a = a.set(9, KEY).set(10, 1 + i).put(1 + i);
        a = a.set(7, C as u64).set(8, 1 + i).set(9, 0).set(10, W + 256).call(20);
        a = a.set(7, W + 1024 + 32 * i).call(25);
        a = a.set(7, C as u64).set(8, KEY).set(9, 8 - i).call(26);
        cost.set(cost.get() + 56);
        a
    };
    let hashes = [lab(1, 1), lab(1, 2), lab(1, 3)];
    let mut code = Asm::entry().data(W + 1024, &hashes.concat());
    cost.set(24);
    code = part(code, 0);
    if saves {
        code = code.call(17);
        cost.set(cost.get() + 11);
    }
    let saved = cost.get();
    code = part(code, 1);
    code = match end {
        0..=2 => code.give(W + 1024 + 64, [0, 31, 32][end]),
        3 => code.op(&[0]),
        _ => code.load(2, 0x20000),
    };
    cost.set(cost.get() + if end < 3 { 3 } else { 1 });
    let total = cost.get();
    let pay = Asm::entry().take(1, W).set(7, A as u64).load(8, W as u32).load(9, W as u32 + 8).set(10, W + 256).call(20).give(W, 0);
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, Some(&code))), (B, service(2, Some(&pay))), (C, service(3, None))].into();
    accts.get_mut(&C).unwrap().meta.gas_limit_on_transfer = 0;
    let (paid, gas) = (sx::u32() as u64, sx::u16() as u64);
    sx::assume(gas >= 100);
    accts.get_mut(&B).unwrap().put(key(1), [paid.to_le_bytes(), gas.to_le_bytes()].concat());
    for b in &blobs {
        accts.get_mut(&C).unwrap().asked.insert((b.clone(), b.len() as u32), vec![]);
    }
    let m = chain(&accts, &PrivilegedServices::default());
    let got = run(transition_on_accumulate(m.clone(), &[work(1, &[(B, 1_000_000)])])).unwrap();
    accts.get_mut(&B).unwrap().meta.balance -= paid;
    accts.get_mut(&A).unwrap().meta.balance += paid;
    // the parts that have an effect
    let ended = gas >= total;
    let parts = if ended && end < 3 {
        2
    } else if saves && gas >= saved {
        1
    } else {
        0
    };
    for i in 0..parts {
        let a = accts.get_mut(&A).unwrap();
        a.put(key(1 + i), vec![7; 1 + i]);
        a.meta.balance -= 1 + i as u64;
        accts.get_mut(&C).unwrap().meta.balance += 1 + i as u64;
    }
    let y = if ended && end == 2 { 3 } else { parts };
    sx::check!(got.output_pairs.0.len() == (y > 0) as usize);
    for o in &got.output_pairs.0 {
        sx::check!(o.service == A);
        sx::check!(sx::same(o.output_hash.as_slice(), &hashes[y - 1]));
    }
    let used = if ended { total } else { gas };
    let e = got.accumulate_stats.get(&A);
    sx::check!(e.is_some_and(|e| e.gas_used == used && e.digests_count == 0));
    for i in 0..2 {
        same_blob(&m, C, &blobs[i], 8 - i as u32, Some(if i < parts { &[SLOT] } else { &[] }), i < parts);
    }
    for s in got.accumulate_stats.keys() {
        accts.get_mut(s).unwrap().meta.last_accumulate_at = SLOT;
    }
    let who: Vec<u32> = got.accumulate_stats.keys().copied().collect();
    run(transition_services_last_accumulate_at(m.clone(), &who)).unwrap();
    for (s, a) in &accts {
        same_state(&m, *s, Some(a));
    }
    sx::cover(1 + end as u32);
    sx::cover(6 + parts as u32);
    if !ended {
        sx::cover(9 + parts as u32);
    }
    if end >= 3 && ended {
        sx::cover(11 + parts as u32);
    }
}

//@ A02 covers=9 time=100 tmul=4 eager=1
//@ bound: a service with code that is absent, has malformed metadata or a malformed program, or is of 4,000,001 octets; transfers of any amount from one or two others; any accumulate gas below 65536
#[no_mangle]
pub extern "C" fn a02_code() {
    let good = Asm::entry().set(9, KEY).set(10, 3).put(2).give(W, 0);
    let what = sx::pick_usize(0, 7);
    let mut blob = match what {
        // no such blob; no octets; metadata longer than the rest
        0 | 1 => vec![],
        2 => [&[0x7f][..], &good.program()].concat(),
        // a program cut short, with an octet too many, or whose code cannot be taken apart
        3 => service_code(&good.program()[..14]),
        4 => [service_code(&good.program()), vec![0]].concat(),
        5 => service_code(&standard(&[7; 8], &[9; 8], 0, 4096, &[0, 0, 5])),
        _ => service_code(&good.program()),
    };
    if what == 7 {
        // read-only memory that fills the code up
        let n = 4_000_001;
        let p = |l| standard(&vec![0; l], &[], 0, 0, &Asm::entry().give(0, 0).blob());
        let p = p(n - p(0).len());
        sx::check!(p.len() == n);
        blob = service_code(&p);
    }
    let pay = Asm::entry().take(1, W).set(7, A as u64).load(8, W as u32).set(9, 100).set(10, W + 256).call(20).give(W, 0);
    let mut accts: BTreeMap<u32, Acct> = [(A, service(1, None)), (B, service(2, Some(&pay))), (C, service(3, Some(&pay)))].into();
    let two = what < 7 && sx::pick(0, 1) == 1;
    let paid = [sx::u32() as u64, if two { sx::u32() as u64 } else { 0 }];
    for (i, s) in [B, C].into_iter().enumerate() {
        accts.get_mut(&s).unwrap().put(key(1), paid[i].to_le_bytes().to_vec());
    }
    let ch = h32(lab(8, 8));
    accts.get_mut(&A).unwrap().meta.code_hash = ch.clone();
    let mut s = Seed::new()
        .with(&PrivilegedServices::default())
        .with(&AuthQueue::default())
        .with(&Timeslot(SLOT))
        .with(&StagingSet(vset(1)))
        .with(&DisputesState::default())
        .with(&EpochEntropy::default());
    for (id, a) in &accts {
        s = seed_acct(s, *id, a);
    }
    if what > 0 {
        s = s.put(get_account_preimage_state_key(A, &ch).unwrap(), &AccountPreimagesEntry::new(Octets::from_vec(blob)));
    }
    let m = s.manager();
    let g = sx::u16() as u64;
    let mut w = vec![work(1, &[(B, 1_000_000)])];
    if two {
        w.push(work(2, &[(C, 1_000_000)]));
    }
    let also = what < 6 && sx::pick(0, 1) == 1;
    if also {
        w.push(work(3, &[(A, g)]));
    }
    let got = run(transition_on_accumulate(m.clone(), &w)).unwrap();
    sx::check!(got.accumulated_reports_count == w.len());
    accts.get_mut(&B).unwrap().meta.balance -= paid[0];
    accts.get_mut(&C).unwrap().meta.balance -= paid[1];
    accts.get_mut(&A).unwrap().meta.balance += paid[0] + paid[1];
    // only the last one but one runs
    let e = got.accumulate_stats.get(&A);
    let ran = what == 6;
    sx::check!(e.is_some() == (also || ran));
    if ran {
        accts.get_mut(&A).unwrap().put(key(2), vec![7; 3]);
    }
    if let Some(e) = e {
        sx::check!(e.gas_used == if ran { 18 } else { 0 });
        sx::check!(e.digests_count == also as u32);
    }
    for s in got.accumulate_stats.keys() {
        accts.get_mut(s).unwrap().meta.last_accumulate_at = SLOT;
    }
    let who: Vec<u32> = got.accumulate_stats.keys().copied().collect();
    run(transition_services_last_accumulate_at(m.clone(), &who)).unwrap();
    for (s, a) in &accts {
        same_state(&m, *s, Some(a));
    }
    sx::cover(1 + what as u32);
    if two && also {
        sx::cover(9);
    }
}
