//! Authorization, recent history, and the accumulation queue.
use crate::env::*;
use fr_block::types::extrinsics::guarantees::{GuaranteesXt, GuaranteesXtEntry};
use fr_common::workloads::{ReportedWorkPackage, WorkReport};
use fr_pvm_types::invoke_results::{AccumulationOutputPair, AccumulationOutputPairs};
use fr_transition::state::{accumulate::*, authorizer::*, history::*};
use std::collections::BTreeSet;

pub fn guarantees(v: Vec<WorkReport>) -> GuaranteesXt {
    let items: Vec<GuaranteesXtEntry> = v.into_iter().map(|work_report| GuaranteesXtEntry { work_report, timeslot_index: 0, credentials: Default::default() }).collect();
    GuaranteesXt { items: items.try_into().unwrap() }
}

//@ T06 covers=4 time=60 tmul=4
//@ bound: a pool of 0, 1, 3 or 8 authorizers with any (equal or different) values; a guarantee using any authorizer on this core, on the other one, on both or none; any slot
#[no_mangle]
pub extern "C" fn t06_auth_pool() {
    let l = [0, 1, 3, 8, 2, 5, 7][sx::pick_usize(0, sx::bound(3, 6))];
    let ids: Vec<u8> = (0..l).map(|_| sx::u8()).collect();
    let mut pool = AuthPool::default();
    for i in &ids {
        pool.0[0].try_push(h32(lab(3, *i))).unwrap();
    }
    pool.0[1].try_push(h32(lab(3, 7))).unwrap();
    let mut q = AuthQueue::default();
    for c in 0..2 {
        for i in 0..80 {
            q.0[c][i] = h32(lab(20 + c as u8, i as u8));
        }
    }
    let used = sx::u8();
    let (g0, g1) = (sx::pick(0, 1) == 1, sx::pick(0, 1) == 1);
    let mut v = vec![];
    for (c, g) in [g0, g1].iter().enumerate() {
        if *g {
            let mut r = WorkReport::default();
            r.core_index = c as u16;
            r.authorizer_hash = h32(lab(3, used));
            v.push(r);
        }
    }
    let slot = sx::u32();
    let m = Seed::new().with(&pool).with(&q).manager();
    run(transition_auth_pool(m.clone(), &guarantees(v), slot)).unwrap();
    let p = run(m.get_auth_pool()).unwrap();
    let mut want = ids.clone();
    if g0 {
        if let Some(i) = want.iter().position(|x| *x == used) {
            sx::cover(1);
            want.remove(i);
        }
    }
    let got = &p.0[0];
    let full = want.len() == 8;
    let skip = full as usize;
    if full {
        sx::cover(2);
    }
    sx::check!(got.len() == want.len() + 1 - skip);
    for i in skip..want.len() {
        sx::check!(got[i - skip].0 == lab(3, want[i]));
    }
    let at = (slot % 80) as u8;
    sx::check!(got[got.len() - 1].0 == lab(20, at));
    let o = &p.0[1];
    if g1 & (used == 7) {
        sx::cover(3);
        sx::check!(o.len() == 1);
    } else {
        sx::cover(4);
        sx::check!(o.len() == 2);
        sx::check!(o[0].0 == lab(3, 7));
    }
    sx::check!(o[o.len() - 1].0 == lab(21, at));
}

fn keccak(b: &[u8]) -> [u8; 32] {
    fr_crypto::hash::<fr_crypto::Keccak256>(b).unwrap().0
}
/// the specification's balanced Merkle function
fn tree(v: &[Vec<u8>]) -> Vec<u8> {
    match v.len() {
        0 => vec![0; 32],
        1 => v[0].clone(),
        n => {
            let k = n.div_ceil(2);
            let mut b = b"node".to_vec();
            b.extend_from_slice(&tree(&v[..k]));
            b.extend_from_slice(&tree(&v[k..]));
            keccak(&b).to_vec()
        }
    }
}
/// peaks of a mountain range over these leaves
fn peaks(l: &[[u8; 32]]) -> Vec<Option<[u8; 32]>> {
    let mut o = vec![];
    let (mut n, mut at) = (l.len(), l.len());
    let mut size = 1;
    while n > 0 {
        if n & 1 == 1 {
            o.push(Some(mountain(&l[at - size..at])));
            at -= size;
        } else {
            o.push(None);
        }
        n /= 2;
        size *= 2;
    }
    o
}
fn mountain(l: &[[u8; 32]]) -> [u8; 32] {
    if l.len() == 1 {
        return l[0];
    }
    let (a, b) = l.split_at(l.len() / 2);
    let mut x = mountain(a).to_vec();
    x.extend_from_slice(&mountain(b));
    keccak(&x)
}
fn super_peak(p: &[Option<[u8; 32]>]) -> [u8; 32] {
    let v: Vec<[u8; 32]> = p.iter().flatten().cloned().collect();
    if v.is_empty() {
        return [0; 32];
    }
    let mut r = v[0];
    for x in &v[1..] {
        let mut b = b"peak".to_vec();
        b.extend_from_slice(&r);
        b.extend_from_slice(x);
        r = keccak(&b);
    }
    r
}

//@ T07 covers=4 time=60 tmul=4
//@ bound: 0, 1, 7 or 8 known blocks; a commitment log of 0 to 4 (thorough: 8) earlier blocks; up to three accumulation outputs in any order; up to two reported packages in any order; any parent state root
#[no_mangle]
pub extern "C" fn t07_history() {
    let n = [0, 1, 7, 8][sx::pick_usize(0, 3)];
    let mut bh = BlockHistory::default();
    for i in 0..n {
        bh.append(BlockHistoryEntry {
            header_hash: h32(lab(1, i)),
            accumulation_result_mmr_root: h32(lab(2, i)),
            state_root: if i + 1 < n { h32(lab(3, i)) } else { h32([0; 32]) },
            reported_packages: vec![],
        });
    }
    let leaves: Vec<[u8; 32]> = (0..sx::pick(0, sx::bound(4, 8) as u64) as u8).map(|i| lab(4, i)).collect();
    for p in peaks(&leaves) {
        bh.beefy_belt.peaks.push(p.map(h32));
    }
    let root = sx::bytes::<32>();
    let k = sx::pick_usize(0, 3);
    let sid: Vec<u32> = (0..k).map(|i| if i == 1 { 5 } else { sx::pick(0, 1) as u32 * 0x0109 }).collect();
    let mut outs: Vec<(u32, u8)> = sid.iter().enumerate().map(|(i, s)| (*s, 9 - i as u8)).collect();
    let mut pairs = AccumulationOutputPairs::default();
    for (s, h) in &outs {
        pairs.0.insert(AccumulationOutputPair { service: *s, output_hash: h32(lab(5, *h)) });
    }
    outs.sort();
    let mut packs: Vec<u8> = match sx::pick(0, 3) {
        0 => vec![],
        1 => vec![4],
        2 => vec![4, 3],
        _ => vec![3, 4],
    };
    let m = Seed::new().with(&bh).with(&LastAccumulateOutputs::default()).manager();
    run(transition_block_history_parent_root(m.clone(), h32(root))).unwrap();
    let acc = run(transition_last_accumulate_outputs(m.clone(), pairs)).unwrap();
    run(transition_block_history_beefy_belt(m.clone(), acc.clone())).unwrap();
    let rp = packs.iter().map(|p| ReportedWorkPackage { work_package_hash: h32(lab(6, *p)), segment_root: h32(lab(7, *p)) }).collect();
    run(transition_block_history_append(m.clone(), h32(lab(8, 8)), rp)).unwrap();

    let enc: Vec<Vec<u8>> = outs
        .iter()
        .map(|(s, h)| {
            let mut b = s.to_le_bytes().to_vec();
            b.extend_from_slice(&lab(5, *h));
            b
        })
        .collect();
    let want = match enc.len() {
        1 => keccak(&enc[0]).to_vec(),
        _ => tree(&enc),
    };
    sx::check!(acc.0[..] == want[..]);
    let th = run(m.get_last_accumulate_outputs()).unwrap();
    sx::check!(th.0.len() == k);
    for i in 0..k {
        sx::check!(th.0[i].service == outs[i].0 && th.0[i].output_hash.0 == lab(5, outs[i].1));
    }
    let p = run(m.get_block_history()).unwrap();
    let mut all = leaves.clone();
    all.push(acc.0);
    let pk = peaks(&all);
    sx::check!(p.beefy_belt.peaks.len() == pk.len());
    for i in 0..pk.len() {
        sx::check!(p.beefy_belt.peaks[i].as_ref().map(|h| h.0) == pk[i]);
    }
    let skip = (n == 8) as usize;
    if n == 8 {
        sx::cover(1);
    }
    if n == 0 {
        sx::cover(2);
    }
    if k == 3 {
        sx::cover(3);
    }
    sx::check!(p.history.len() == n as usize + 1 - skip);
    for i in skip..n as usize {
        let e = &p.history[i - skip];
        let j = i as u8;
        sx::check!(e.header_hash.0 == lab(1, j));
        sx::check!(e.accumulation_result_mmr_root.0 == lab(2, j));
        if j + 1 < n {
            sx::check!(e.state_root.0 == lab(3, j));
        } else {
            sx::check!(sx::same(&e.state_root.0, &root));
        }
    }
    let e = p.get_latest_history().unwrap();
    sx::check!(e.header_hash.0 == lab(8, 8));
    sx::check!(e.state_root.0 == [0; 32]);
    sx::check!(e.accumulation_result_mmr_root.0 == super_peak(&pk));
    packs.sort();
    sx::check!(e.reported_packages.len() == packs.len());
    for i in 0..packs.len() {
        sx::check!(e.reported_packages[i].work_package_hash.0 == lab(6, packs[i]));
        sx::check!(e.reported_packages[i].segment_root.0 == lab(7, packs[i]));
    }
    if packs.len() == 2 {
        sx::cover(4);
    }
}

// packages 0.. are reports of this scenario; HIST was accumulated before, NEVER is unknown
const HIST: u8 = 14;
const NEVER: u8 = 15;
fn rep(id: u8, deps: &[u8]) -> WorkReport {
    let mut r = WorkReport::default();
    r.specs.work_package_hash = h32(lab(6, id));
    let mut l = std::collections::BTreeMap::new();
    for (i, d) in deps.iter().enumerate() {
        // alternately as a prerequisite and as an import
        if (i + id as usize) % 2 == 0 {
            r.refinement_context.prerequisite_work_packages.insert(h32(lab(6, *d)));
        } else {
            l.insert(h32(lab(6, *d)), h32(lab(7, *d)));
        }
    }
    r.segment_roots_lookup = fr_common::workloads::SegmentRootLookupTable::new(l);
    r
}
type Item = (u8, Vec<u8>);
fn edit(q: &[Item], done: &[u8]) -> Vec<Item> {
    q.iter().filter(|i| !done.contains(&i.0)).map(|i| (i.0, i.1.iter().filter(|d| !done.contains(d)).cloned().collect())).collect()
}
fn order(q: &[Item]) -> Vec<u8> {
    let g: Vec<u8> = q.iter().filter(|i| i.1.is_empty()).map(|i| i.0).collect();
    if g.is_empty() {
        return g;
    }
    let rest = edit(q, &g);
    let mut o = g;
    o.extend(order(&rest));
    o
}
fn idof(r: &WorkReport) -> u8 {
    let h = &r.specs.work_package_hash.0;
    sx::check!(h[1..] == lab(6, 0)[1..]);
    h[0]
}
fn same_items(got: &[WorkReportDepsMap], want: &[Item]) {
    sx::check!(got.len() == want.len());
    for (g, w) in got.iter().zip(want) {
        sx::check!(idof(&g.0) == w.0);
        let mut d: Vec<u8> = g.1.iter().map(|h| h.0[0]).collect();
        d.sort();
        let mut x = w.1.clone();
        x.sort();
        sx::check!(d == x);
    }
}
//@ T13 covers=5 time=90 tmul=4
//@ bound: up to three reports (thorough: four), each waiting in the queue at one of two phases or newly available, each depending on nothing, another of them, an accumulated or an unknown package, or two of these; any number of them accumulated; 1, 2, 12 or 13 slots since the parent block
#[no_mangle]
pub extern "C" fn t13_queue() {
    let n = sx::pick_usize(1, sx::bound(3, 4)) as u8;
    let cur = 200_000 * 12 + 5u32;
    let gap = [1u32, 2, 12, 13][sx::pick_usize(0, 3)];
    let mut q: Vec<Vec<Item>> = vec![vec![]; 12];
    let mut avail: Vec<Item> = vec![];
    let queued = sx::pick_usize(0, n as usize) as u8;
    for id in 0..n {
        let d: Vec<u8> = match sx::pick(0, 4) {
            0 => vec![],
            1 => vec![(id + 1) % n],
            2 => vec![HIST],
            3 => vec![NEVER, (id + 1) % n],
            _ => vec![(id + n - 1) % n, (id + 1) % n],
        };
        let d: Vec<u8> = {
            let mut u: Vec<u8> = vec![];
            for x in d {
                if x != id && !u.contains(&x) {
                    u.push(x);
                }
            }
            u
        };
        if id < queued {
            // what is queued depends on nothing accumulated; phase 3 or 9
            let at = if id % 2 == 0 { 3 } else { 9 };
            let d: Vec<u8> = d.into_iter().filter(|x| *x != HIST).collect();
            sx::assume(!d.is_empty());
            q[at].push((id, d));
        } else {
            avail.push((id, d));
        }
    }
    let mut queue = AccumulateQueue::default();
    for (i, s) in q.iter().enumerate() {
        for (id, d) in s {
            queue.items[i].push((rep(*id, d), d.iter().map(|x| h32(lab(6, *x))).collect::<BTreeSet<_>>()));
        }
    }
    let mut hist = AccumulateHistory::default();
    hist.items[3].insert(h32(lab(6, HIST)));
    hist.items[11].insert(h32(lab(6, 40)));
    let m = Seed::new().with(&queue).with(&hist).manager();
    let reports: Vec<WorkReport> = avail.iter().map(|(id, d)| rep(*id, d)).collect();
    let (star, wq) = fr_pvm_invocation::accumulate::utils::collect_accumulatable_reports(reports, &queue, &hist, Timeslot(cur));

    let now: Vec<u8> = avail.iter().filter(|a| a.1.is_empty()).map(|a| a.0).collect();
    let later: Vec<Item> = edit(&avail.iter().filter(|a| !a.1.is_empty()).cloned().collect::<Vec<_>>(), &[HIST, 40]);
    let mut line: Vec<Item> = vec![];
    for i in 0..12 {
        line.extend(q[(5 + i) % 12].clone());
    }
    line.extend(later.clone());
    let mut want = now.clone();
    want.extend(order(&edit(&line, &now)));
    sx::check!(star.len() == want.len());
    for (g, w) in star.iter().zip(&want) {
        sx::check!(idof(g) == *w);
    }
    same_items(&wq, &later);
    if want.len() == n as usize && queued > 0 && n == 3 {
        sx::cover(1);
    }
    if want.is_empty() {
        sx::cover(2);
    }

    let count = sx::pick_usize(0, want.len());
    run(transition_accumulate_history(m.clone(), &star, count)).unwrap();
    run(transition_accumulate_queue(m.clone(), &wq, Timeslot(cur - gap), Timeslot(cur))).unwrap();
    let done = &want[..count];
    let h = run(m.get_accumulate_history()).unwrap();
    for i in 0..11 {
        sx::check!(h.items[i] == hist.items[i + 1]);
    }
    sx::check!(h.items[11].len() == count);
    for d in done {
        sx::check!(h.items[11].contains(&h32(lab(6, *d))));
    }
    if count > 0 && count < want.len() {
        sx::cover(3);
    }
    let p = run(m.get_accumulate_queue()).unwrap();
    sx::check!(p.items.len() == 12);
    for i in 0..12usize {
        let at = (5 + 12 - i) % 12;
        if i == 0 {
            same_items(&p.items[at], &edit(&later, done));
        } else if (i as u32) < gap {
            if !q[at].is_empty() {
                sx::cover(4);
            }
            sx::check!(p.items[at].is_empty());
        } else {
            if !q[at].is_empty() {
                sx::cover(5);
            }
            same_items(&p.items[at], &edit(&q[at], done));
        }
    }
}
