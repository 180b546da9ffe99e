//! Guaranteed work reports: who may guarantee, and what may be reported.
use crate::env::*;
use crate::reports::{report_hash, sign, spoil, EPOCH};
use fr_block::types::extrinsics::guarantees::*;
use fr_extrinsics::utils::{guarantor_rotation::GuarantorAssignment, shuffle::*};
use fr_state::state_utils::get_account_metadata_state_key;
use fr_transition::state::reports::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn xt(items: Vec<GuaranteesXtEntry>) -> GuaranteesXt {
    GuaranteesXt { items: items.try_into().unwrap() }
}
/// the specification's Fisher-Yates permutation of `l`, drawn from entropy `e`
fn permute(mut l: Vec<u16>, e: &[u8; 32]) -> Vec<u16> {
    let mut o = vec![];
    for i in 0..l.len() {
        let mut b = e.to_vec();
        b.extend_from_slice(&(i as u32 / 8).to_le_bytes());
        let h = hash(&b).0;
        let k = 4 * i % 32;
        let q = u32::from_le_bytes([h[k], h[k + 1], h[k + 2], h[k + 3]]) as usize;
        let n = l.len();
        let j = q % n;
        o.push(l[j]);
        l[j] = l[n - 1];
        l.pop();
    }
    o
}
/// the core of each of the six validators at a slot
pub fn cores(e: &[u8; 32], slot: u32) -> Vec<u16> {
    let l = (0..6).map(|i| 2 * i / 6).collect();
    permute(l, e).into_iter().map(|c| (c + ((slot % 12) / 4) as u16) % 2).collect()
}

//@ T15 covers=2 time=60 tmul=4
//@ bound: any six random words over two distinct cores' labels, and any four over four labels (thorough: five)
#[no_mangle]
pub extern "C" fn t15_shuffle() {
    let n = [sx::bound(4, 5), 6][sx::pick_usize(0, 1)];
    let l: Vec<u16> = (0..n as u16).map(|i| if n == 6 { i / 3 } else { i }).collect();
    let r: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
    let got = shuffle(l.clone(), r.clone());
    sx::check!(got.len() == n);
    let mut left = l.clone();
    for i in 0..n {
        let j = sx::conc((r[i] as usize % left.len()) as u64) as usize;
        sx::check!(got[i] == left[j]);
        let z = left.pop().unwrap();
        if j < left.len() {
            left[j] = z;
        }
    }
    let mut s = got.clone();
    s.sort();
    sx::check!(s == l);
    sx::cover(1 + (n == 6) as u32);
}

fn ent(t: u8) -> EpochEntropy {
    EpochEntropy([h32(lab(40, t)), h32(lab(41, t)), h32(lab(42, t)), h32(lab(43, t))])
}
//@ T15 covers=3 time=60 tmul=4
//@ bound: four (thorough: 64) entropies; every slot of an epoch; one validator of each set punished
#[no_mangle]
pub extern "C" fn t15_assignment() {
    let e = ent(sx::pick(0, sx::bound(3, 63) as u64) as u8);
    let base = [EPOCH, 0][sx::pick_usize(0, 1)];
    let slot = base * 12 + sx::pick(0, 11) as u32;
    let (active, past) = (vset(1), vset(2));
    let gone = sx::pick_usize(0, 5);
    let mut punish_set = vec![active[gone].ed25519.clone(), past[5 - gone].ed25519.clone()];
    punish_set.sort();
    let d = DisputesState { punish_set, ..Default::default() };
    let m = Seed::new().with(&e).with(&Timeslot(slot)).with(&ActiveSet(active.clone())).with(&PastSet(past.clone())).with(&d).manager();
    let cur = run(GuarantorAssignment::current_guarantor_assignments(&m)).unwrap();
    let pre = run(GuarantorAssignment::previous_guarantor_assignments(&m)).unwrap();
    let back = slot.saturating_sub(4);
    let same = back / 12 == slot / 12;
    let (e2, e3) = (&e.0[2].0, &e.0[3].0);
    let want = [cores(e2, slot), if same { cores(e2, back) } else { cores(e3, back) }];
    let sets = [&active, if same { &active } else { &past }];
    let out = [gone, if same { gone } else { 5 - gone }];
    for (k, g) in [&cur, &pre].iter().enumerate() {
        let mut n = [0; 2];
        for i in 0..6 {
            sx::check!(g.core_indices[i] == want[k][i]);
            n[g.core_indices[i] as usize] += 1;
            if i == out[k] {
                sx::check!(g.validator_keys[i] == ValidatorKey::default());
            } else {
                sx::check!(g.validator_keys[i] == sets[k][i]);
            }
        }
        sx::check!(n == [3, 3]);
    }
    if same && slot / 4 != back / 4 {
        // one rotation moves everybody by one core
        sx::cover(1);
        for i in 0..6 {
            sx::check!(cur.core_indices[i] == (pre.core_indices[i] + 1) % 2);
        }
    }
    if !same {
        sx::cover(2);
    }
    if base == 0 && slot < 4 {
        sx::cover(3);
    }
}

pub const SVC: [u32; 2] = [7, 300];
const GAS: u64 = 10_000_000;
pub fn meta(i: usize, gas: u64) -> AccountMetadata {
    AccountMetadata {
        version: 0,
        code_hash: h32(lab(50, i as u8)),
        balance: 1000,
        gas_limit_accumulate: gas,
        gas_limit_on_transfer: 0,
        octets_footprint: 0,
        gratis_storage_offset: 0,
        items_footprint: 0,
        created_at: 0,
        last_accumulate_at: 0,
        parent_service_id: 0,
    }
}
pub fn digest(i: usize, gas: u64, out: usize) -> WorkDigest {
    WorkDigest {
        service_id: SVC[i],
        service_code_hash: h32(lab(50, i as u8)),
        payload_hash: h32(lab(51, i as u8)),
        accumulate_gas_limit: gas,
        refine_result: if out == usize::MAX { WorkExecutionResult::panic() } else { WorkExecutionResult::ok(vec![3; out]) },
        refine_stats: RefineStats { refine_gas_used: 0, imports_count: 0, extrinsics_count: 0, extrinsics_octets: 0, exports_count: 0 },
    }
}
/// a chain at a slot with entropies, sets, two services, a recent history of three blocks and packages 10, 11 in it
pub struct World {
    pub slot: u32,
    pub e: EpochEntropy,
    pub active: ValidatorKeySet,
    pub past: ValidatorKeySet,
    pub pool: AuthPool,
    pub history: BlockHistory,
    pub queue: AccumulateQueue,
    pub done: AccumulateHistory,
    pub pending: PendingReports,
    pub punish: Vec<Ed25519PubKey>,
    pub min_gas: [u64; 2],
}
impl World {
    pub fn new(slot: u32) -> Self {
        let mut pool = AuthPool::default();
        for c in 0..2 {
            pool.0[c].try_push(h32(lab(52, 9))).unwrap();
            pool.0[c].try_push(h32(lab(52, c as u8))).unwrap();
        }
        let mut history = BlockHistory::default();
        for i in 0..3u8 {
            history.append(BlockHistoryEntry {
                header_hash: h32(lab(1, i)),
                accumulation_result_mmr_root: h32(lab(2, i)),
                state_root: h32(lab(3, i)),
                reported_packages: if i == 1 { vec![] } else { vec![ReportedWorkPackage { work_package_hash: h32(lab(6, 10 + i / 2)), segment_root: h32(lab(7, 10 + i / 2)) }] },
            });
        }
        let mut queue = AccumulateQueue::default();
        queue.items[4].push((crate::reports::report(12, 0), [h32(lab(6, 99))].into_iter().collect()));
        let mut done = AccumulateHistory::default();
        done.items[7].insert(h32(lab(6, 13)));
        World {
            slot,
            e: ent(1),
            active: vset(1),
            past: vset(2),
            pool,
            history,
            queue,
            done,
            pending: Default::default(),
            punish: vec![],
            min_gas: [100, 200],
        }
    }
    pub fn node(&self) -> Arc<NodeStorage> {
        let mut punish_set = self.punish.clone();
        punish_set.sort();
        let d = DisputesState { punish_set, ..Default::default() };
        let mut s = Seed::new()
            .with(&self.e)
            .with(&Timeslot(self.slot))
            .with(&ActiveSet(self.active.clone()))
            .with(&PastSet(self.past.clone()))
            .with(&d)
            .with(&self.pool)
            .with(&self.history)
            .with(&self.queue)
            .with(&self.done)
            .with(&self.pending);
        for i in 0..2 {
            s = s.put(get_account_metadata_state_key(SVC[i]).unwrap(), &meta(i, self.min_gas[i]));
        }
        s.node()
    }
    /// a report for a core that nothing speaks against
    pub fn report(&self, id: u8, core: u16) -> WorkReport {
        let mut r = crate::reports::report(id, core);
        r.authorizer_hash = h32(lab(52, core as u8));
        r.specs.segment_root = h32(lab(7, id));
        r.refinement_context.anchor_header_hash = h32(lab(1, 1));
        r.refinement_context.anchor_beefy_root = h32(lab(2, 1));
        r.refinement_context.anchor_state_root = h32(lab(3, 1));
        r.refinement_context.lookup_anchor_timeslot = self.slot;
        r.digests = vec![digest(0, 1000, 3)].try_into().unwrap();
        r
    }
    pub fn guarantee(&self, r: WorkReport, at: u32, who: &[usize], set: &ValidatorKeySet) -> GuaranteesXtEntry {
        let h = report_hash(&r);
        let credentials = who.iter().map(|i| GuaranteesCredential { validator_index: *i as u16, signature: sign(&set[*i].ed25519, &[b"jam_guarantee", &h]) }).collect();
        GuaranteesXtEntry { work_report: r, timeslot_index: at, credentials }
    }
    /// two of the current guarantors of its core
    pub fn now(&self, r: WorkReport) -> GuaranteesXtEntry {
        let c = r.core_index;
        let a = cores(&self.e.0[2].0, self.slot);
        let who: Vec<usize> = (0..6).filter(|i| a[*i] == c).take(2).collect();
        self.guarantee(r, self.slot, &who, &self.active)
    }
}
type Outcome = Option<(Vec<ReportedWorkPackage>, Vec<[u8; 32]>)>;
pub fn submit(n: &NodeStorage, x: &GuaranteesXt, slot: u32) -> Outcome {
    let (p, k) = run(transition_reports_update_entries(n.state_manager(), n.header_db(), x, Timeslot(slot), false)).ok()?;
    let mut k: Vec<[u8; 32]> = k.into_iter().map(|k| k.0 .0).collect();
    k.sort();
    Some((p, k))
}

//@ T10 covers=5 time=200 tmul=4
//@ bound: slots of an epoch at each end of a rotation; any set of the six validators of either set; entry slot any; either core; one validator of each set punished or none
#[no_mangle]
pub extern "C" fn t10_guarantors() {
    let at = [1, 4, 3, 11][sx::pick_usize(0, sx::bound(1, 3))];
    let mut w = World::new(EPOCH * 12 + at);
    let core = sx::pick(0, 1) as u16;
    let by_past = sx::pick(0, 1) == 1;
    let punished = sx::pick(0, 1) == 1;
    if punished {
        w.punish = vec![w.active[0].ed25519.clone(), w.past[1].ed25519.clone()];
    }
    let mask = sx::pick_usize(0, 63);
    let who: Vec<usize> = (0..6).filter(|i| mask >> i & 1 == 1).collect();
    sx::assume(who.len() < 5);
    let slot = sx::u32();
    let r = w.report(1, core);
    let g = w.guarantee(r.clone(), slot, &who, if by_past { &w.past } else { &w.active });
    let n = w.node();
    let got = submit(&n, &xt(vec![g]), w.slot);
    let p = run(n.state_manager().get_pending_reports()).unwrap();
    let (e2, e3) = (&w.e.0[2].0, &w.e.0[3].0);
    let back = w.slot - 4;
    let same = back / 12 == w.slot / 12;
    let all = |c: Vec<u16>| (2..=3).contains(&who.len()) && who.iter().all(|i| c[*i] == core);
    // guaranteed in this rotation, or in the one before it
    let cur = (slot / 4 == w.slot / 4) & (slot <= w.slot) & (!by_past && all(cores(e2, w.slot)) && !(punished && who.contains(&0)));
    let pre = (slot / 4 == w.slot / 4 - 1)
        & (if same {
            !by_past && all(cores(e2, back)) && !(punished && who.contains(&0))
        } else {
            by_past && all(cores(e3, back)) && !(punished && who.contains(&1))
        });
    sx::check!(got.is_some() == (cur | pre));
    if let Some((pk, keys)) = got {
        sx::cover(if by_past { 1 } else { 2 });
        let mut k: Vec<[u8; 32]> = who.iter().map(|i| if by_past { w.past[*i].ed25519.0 .0 } else { w.active[*i].ed25519.0 .0 }).collect();
        k.sort();
        sx::check!(k == keys);
        sx::check!(pk.len() == 1 && pk[0].work_package_hash == r.specs.work_package_hash && pk[0].segment_root == r.specs.segment_root);
        let e = p.0[core as usize].as_ref().unwrap();
        sx::check!(e.work_report == r && e.reported_timeslot.0 == w.slot);
        sx::check!(p.0[1 - core as usize].is_none());
        if who.len() == 3 {
            sx::cover(3);
        }
        if punished {
            sx::cover(4);
        }
    } else {
        sx::cover(5);
        sx::check!(p.0[0].is_none() & p.0[1].is_none());
    }
}

//@ T10 covers=4 time=120 tmul=4
//@ bound: one or two digests with any gas limits against any service minimum; output totals at, below and above 48 KiB; any lookup-anchor slot
#[no_mangle]
pub extern "C" fn t10_limits() {
    let mut w = World::new(EPOCH * 12 + 1);
    let k = sx::pick_usize(1, 2);
    let (gas, min) = ([sx::u64(), sx::u64()], [sx::u64(), sx::u64()]);
    let anchor = sx::u32();
    w.min_gas = min;
    let mut r = w.report(1, 0);
    let size = sx::pick(0, 3);
    // trace, first and second output
    let l: [usize; 3] = match size {
        0 => [0, 0, 0],
        1 => [1, 48 * 1024 - 2, 1],
        2 => [1, 48 * 1024 - 1, 1],
        _ => [48 * 1024, 1, usize::MAX],
    };
    r.auth_trace = Octets::from_vec(vec![1; l[0]]);
    let d: Vec<WorkDigest> = (0..k).map(|i| digest(i, gas[i], l[1 + i])).collect();
    r.digests = d.try_into().unwrap();
    r.refinement_context.lookup_anchor_timeslot = anchor;
    let total: usize = l[0] + (0..k).map(|i| if l[1 + i] == usize::MAX { 0 } else { l[1 + i] }).sum::<usize>();
    let small = total <= 48 * 1024;
    let mut sum = gas[0] as u128;
    let mut enough = gas[0] >= min[0];
    if k == 2 {
        sum += gas[1] as u128;
        enough &= gas[1] >= min[1];
    }
    let fresh = anchor >= w.slot - 24;
    let ok = small & (sum <= GAS as u128) & enough & fresh;
    let g = w.now(r);
    let n = w.node();
    let got = submit(&n, &xt(vec![g]), w.slot).is_some();
    sx::check!(got == ok);
    if got {
        sx::cover(1);
        if size == 1 && k == 2 {
            sx::cover(2);
        }
    } else {
        sx::cover(3);
        if size == 2 && k == 2 {
            sx::cover(4);
        }
    }
}

//@ T10 covers=3 time=120 tmul=4
//@ bound: one or two guarantees (in order, out of order, same core, same package); package already anywhere in the pipeline; up to eight dependencies present in the history, in the extrinsic or nowhere; any one defect of authorizer, anchor, service, code, core, credentials
#[no_mangle]
pub extern "C" fn t10_reports() {
    let mut w = World::new(EPOCH * 12 + 1);
    let dev = sx::pick(0, 27);
    // the report of package 14 was pending on core 1 and has just become available
    w.pending.0[1] = Some(PendingReport { work_report: crate::reports::report(14, 1), reported_timeslot: Timeslot(w.slot - 1) });
    let full = dev == 1;
    let mut a = w.report(1, 0);
    let mut b = w.report(2, 1);
    let two = sx::pick(0, 1) == 1;
    let mut swap = false;
    let mut ok = true;
    let prior = |r: &mut WorkReport, ids: &[u8]| {
        r.refinement_context.prerequisite_work_packages = ids.iter().map(|i| h32(lab(6, *i))).collect::<BTreeSet<_>>();
    };
    let look = |r: &mut WorkReport, ids: &[(u8, u8)]| {
        r.segment_roots_lookup = SegmentRootLookupTable::new(ids.iter().map(|(i, j)| (h32(lab(6, *i)), h32(lab(7, *j)))).collect::<BTreeMap<_, _>>());
    };
    match dev {
        0 => (),
        1 => ok = !two,
        2 => {
            swap = true;
            ok = !two;
        }
        3 => {
            b = w.report(2, 0);
            ok = !two;
        }
        4 => {
            b = w.report(1, 1);
            ok = !two;
        }
        // in the recent history, queued, accumulated, pending before this block
        5..=9 => {
            a = w.report(dev as u8 + 5, 0);
            ok = false;
        }
        // dependencies: known from the history, both blocks
        10 => prior(&mut a, &[10, 11]),
        11 => {
            prior(&mut a, &[2]);
            ok = two;
        }
        12 => {
            prior(&mut a, &[10, [12, 13, 14][sx::pick_usize(0, 2)]]);
            ok = false;
        }
        13 => look(&mut a, &[(10, 10), (11, 11)]),
        14 => {
            look(&mut a, &[(11, 11), (2, 2)]);
            ok = two;
        }
        15 => {
            look(&mut a, &[(10, 10), (11, 10)]);
            ok = false;
        }
        16 => {
            look(&mut a, &[(13, 13)]);
            ok = false;
        }
        17 => a.authorizer_hash = h32(lab(52, 9)),
        18 => {
            a.authorizer_hash = h32(lab(52, 1));
            ok = false;
        }
        19 => {
            let x = &mut a.refinement_context;
            let f = match sx::pick(0, 2) {
                0 => &mut x.anchor_header_hash,
                1 => &mut x.anchor_beefy_root,
                _ => &mut x.anchor_state_root,
            };
            // what another block of the history has there, or anything else
            let t = f.0[1] ^ 0x5a;
            *f = h32(lab(t, [0, 2, 77][sx::pick_usize(0, 2)]));
            ok = false;
        }
        20 => {
            let mut d = digest(0, 1000, 3);
            d.service_id = 8;
            a.digests = vec![digest(1, 1000, 3), d].try_into().unwrap();
            ok = false;
        }
        21 => {
            let mut d = digest(1, 1000, 3);
            d.service_code_hash = h32(lab(50, 0));
            a.digests = vec![digest(0, 1000, 3), d].try_into().unwrap();
            ok = false;
        }
        22 => {
            a.core_index = 2 + sx::pick(0, 1) as u16 * 65_000;
            ok = false;
        }
        _ => (),
    }
    let mut g = match dev {
        22 => w.guarantee(a.clone(), w.slot, &[0, 1], &w.active),
        _ => w.now(a.clone()),
    };
    match dev {
        23 => {
            spoil(&mut g.credentials[[0, 1][sx::pick_usize(0, 1)]].signature);
            ok = false;
        }
        24 => {
            g.credentials.swap(0, 1);
            ok = false;
        }
        25 => {
            g.credentials[1] = g.credentials[0].clone();
            ok = false;
        }
        26 => {
            g.credentials[1].validator_index = 6 + sx::u16() % 1000;
            ok = false;
        }
        27 => {
            // signed over another report
            let o = w.now(w.report(3, 0));
            g.credentials = o.credentials;
            ok = false;
        }
        _ => (),
    }
    let mut v = vec![g];
    if two {
        v.push(w.now(b.clone()));
        if swap {
            v.swap(0, 1);
        }
    }
    let n = w.node();
    let m = n.state_manager();
    if !full {
        run(m.with_mut_pending_reports(StateMut::Update, |p| -> Result<(), fr_state::error::StateManagerError> {
            p.0[1] = None;
            Ok(())
        }))
        .unwrap();
    }
    let before = run(m.get_pending_reports()).unwrap();
    let got = submit(&n, &xt(v), w.slot);
    sx::check!(got.is_some() == ok);
    let p = run(m.get_pending_reports()).unwrap();
    if let Some((pk, _)) = got {
        sx::check!(p.0[0].as_ref().unwrap().work_report == a);
        sx::check!(p.0[0].as_ref().unwrap().reported_timeslot.0 == w.slot);
        if two {
            sx::cover(1);
            sx::check!(p.0[1].as_ref().unwrap().work_report == b);
        } else {
            sx::cover(2);
            sx::check!(p.0[1] == before.0[1]);
        }
        sx::check!(pk.len() == 1 + two as usize);
    } else {
        sx::cover(3);
        sx::check!(p == before);
    }
}

//@ T10 covers=2 time=60 tmul=4
//@ bound: seven to nine dependencies split in any way between prerequisites and segment roots
#[no_mangle]
pub extern "C" fn t10_dependencies() {
    let mut w = World::new(EPOCH * 12 + 1);
    let all: Vec<u8> = (20..29).collect();
    for i in &all {
        let e = ReportedWorkPackage { work_package_hash: h32(lab(6, *i)), segment_root: h32(lab(7, *i)) };
        let x = w.history.history.iter_mut().next().unwrap();
        x.reported_packages.push(e);
    }
    let n = sx::pick_usize(7, 9);
    let k = sx::pick_usize(0, n);
    let mut r = w.report(1, 0);
    r.refinement_context.prerequisite_work_packages = all[..k].iter().map(|i| h32(lab(6, *i))).collect();
    r.segment_roots_lookup = SegmentRootLookupTable::new(all[9 - (n - k)..].iter().map(|i| (h32(lab(6, *i)), h32(lab(7, *i)))).collect());
    let g = w.now(r);
    let s = w.node();
    let got = submit(&s, &xt(vec![g]), w.slot).is_some();
    sx::check!(got == (n <= 8));
    sx::cover(1 + got as u32);
}
