//! Disputes, availability, and the pending-report slots.
use crate::env::*;
use fr_block::types::extrinsics::{assurances::*, disputes::*};
use fr_common::workloads::WorkReport;
use fr_transition::state::{disputes::*, reports::*};

pub fn sign(key: &Ed25519PubKey, msg: &[&[u8]]) -> Ed25519Sig {
    Ed25519Sig(ByteArray(ed25519_consensus::model::sig(&key.0 .0, &msg.concat())))
}
/// any other octets
pub fn spoil(s: &mut Ed25519Sig) {
    let x = sx::u8();
    sx::assume(x != 0);
    s.0 .0[sx::pick_usize(0, 1) * 63] ^= x;
}
pub fn report(id: u8, core: u16) -> WorkReport {
    let mut r = WorkReport::default();
    r.specs.work_package_hash = h32(lab(6, id));
    r.core_index = core;
    r
}
pub fn report_hash(r: &WorkReport) -> [u8; 32] {
    hash(&r.encode().unwrap()).0
}

pub const EPOCH: u32 = 200_000;
const PUNISHED: u8 = 5;
struct Court {
    seed: Seed,
    active: ValidatorKeySet,
    past: ValidatorKeySet,
    pending: [Hash32; 2],
}
/// validators A0..A5 now and P0..P5 before, A5 and P5 already punished; reports 1 and 2 pending on cores 0 and 1
fn court() -> Court {
    let (active, past) = (vset(1), vset(2));
    let mut punish_set = vec![active[PUNISHED as usize].ed25519.clone(), past[PUNISHED as usize].ed25519.clone()];
    punish_set.sort();
    let d = DisputesState { good_set: vec![h32(lab(31, 1))], bad_set: vec![h32(lab(31, 2))], wonky_set: vec![h32(lab(31, 3))], punish_set };
    let mut p = PendingReports::default();
    let mut pending = [Hash32::default(), Hash32::default()];
    for c in 0..2u16 {
        let r = report(1 + c as u8, c);
        pending[c as usize] = h32(report_hash(&r));
        p.0[c as usize] = Some(PendingReport { work_report: r, reported_timeslot: Timeslot(EPOCH * 12) });
    }
    let seed = Seed::new()
        .with(&d)
        .with(&p)
        .with(&ActiveSet(active.clone()))
        .with(&PastSet(past.clone()))
        .with(&StagingSet(vset(1)))
        .with(&Timeslot(EPOCH * 12 + 3));
    Court { seed, active, past, pending }
}
fn verdict(set: &ValidatorKeySet, h: &Hash32, age: u32, yes: usize) -> Verdict {
    let j: Vec<Judgment> = (0..5u16)
        .map(|i| {
            let v = (i as usize) < yes;
            let t: &[u8] = if v { b"jam_valid" } else { b"jam_invalid" };
            Judgment { is_report_valid: v, voter: i, voter_signature: sign(&set[i as usize].ed25519, &[t, &h.0]) }
        })
        .collect();
    Verdict { report_hash: h.clone(), epoch_index: age, judgments: j.try_into().unwrap() }
}
fn culprit(k: &ValidatorKey, h: &Hash32) -> Culprit {
    Culprit { report_hash: h.clone(), validator_key: k.ed25519.clone(), signature: sign(&k.ed25519, &[b"jam_guarantee", &h.0]) }
}
fn fault(k: &ValidatorKey, h: &Hash32, v: bool) -> Fault {
    let t: &[u8] = if v { b"jam_valid" } else { b"jam_invalid" };
    Fault { report_hash: h.clone(), is_report_valid: v, validator_key: k.ed25519.clone(), signature: sign(&k.ed25519, &[t, &h.0]) }
}
/// runs both transitions that consume the extrinsic; true when it is accepted
fn judge(m: &Arc<StateManager>, xt: &DisputesXt) -> bool {
    let now = Timeslot(EPOCH * 12 + 3);
    let a = run(transition_reports_eliminate_invalid(m.clone(), xt, now)).is_ok();
    if !a {
        let p = run(m.get_pending_reports()).unwrap();
        sx::check!(p.0[0].is_some() & p.0[1].is_some());
    }
    let b = run(transition_disputes(m.clone(), xt, xt.collect_offender_keys().items, now)).is_ok();
    sx::check!(a == b);
    a
}
fn sorted(mut v: Vec<[u8; 32]>) -> Vec<[u8; 32]> {
    v.sort();
    v.dedup();
    v
}
fn settled(m: &Arc<StateManager>, c: &(Vec<Hash32>, ValidatorKeySet, ValidatorKeySet), good: &[Hash32], bad: &[Hash32], wonky: &[Hash32], new: &[Ed25519PubKey]) {
    let d = run(m.get_disputes()).unwrap();
    for (got, old, more) in [(&d.good_set, 1, good), (&d.bad_set, 2, bad), (&d.wonky_set, 3, wonky)] {
        let mut w = vec![lab(31, old)];
        w.extend(more.iter().map(|h| h.0));
        let g: Vec<[u8; 32]> = got.iter().map(|h| h.0).collect();
        sx::check!(g == sorted(w));
    }
    let mut w = vec![c.1[PUNISHED as usize].ed25519.0 .0, c.2[PUNISHED as usize].ed25519.0 .0];
    w.extend(new.iter().map(|k| k.0 .0));
    let g: Vec<[u8; 32]> = d.punish_set.iter().map(|k| k.0 .0).collect();
    sx::check!(g == sorted(w));
    let p = run(m.get_pending_reports()).unwrap();
    for core in 0..2 {
        let h = &c.0[core];
        sx::check!(p.0[core].is_some() == !(bad.contains(h) || wonky.contains(h)));
    }
}

//@ T08 covers=4 time=120 tmul=4
//@ bound: one verdict on a new, pending or already judged report; any epoch index; 0 to 5 votes for validity, signed by the active or the past set; a repeated, misordered or unknown voter or one bad signature; 0 to 2 culprits and 0 or 1 faults
#[no_mangle]
pub extern "C" fn t08_verdict() {
    let Court { seed, active, past, pending } = court();
    let dev = sx::pick(0, 7);
    let h = match dev {
        1..=3 => h32(lab(31, dev as u8)),
        4 => pending[1].clone(),
        _ => h32(lab(30, 0)),
    };
    let yes = sx::pick_usize(0, 5);
    let by_past = sx::pick(0, 1) == 1;
    let age = sx::u32();
    let set = if by_past { &past } else { &active };
    let mut v = verdict(set, &h, age, yes);
    match dev {
        5 => {
            let d = v.judgments[1].clone();
            v.judgments[2] = d;
        }
        6 => match sx::pick(0, 1) {
            0 => {
                let d = v.judgments[1].clone();
                v.judgments[1] = v.judgments[2].clone();
                v.judgments[2] = d;
            }
            _ => v.judgments[4].voter = 6,
        },
        7 => spoil(&mut v.judgments[[0, 4][sx::pick_usize(0, 1)]].voter_signature),
        _ => (),
    }
    let (nc, nf) = (sx::pick_usize(0, 2), sx::pick_usize(0, 1));
    let xt = DisputesXt {
        culprits: (0..nc).map(|i| culprit(&active[i], &h)).collect(),
        faults: (0..nf).map(|i| fault(&past[i], &h, yes == 0)).collect(),
        verdicts: vec![v],
    };
    let m = seed.manager();
    let ok = judge(&m, &xt);
    let now = (age == EPOCH) & !by_past;
    let before = (age == EPOCH - 1) & by_past;
    let well = match dev {
        0 | 4 => true,
        _ => false,
    } && match yes {
        5 => nf == 1 && nc == 0,
        0 => nc == 2,
        2 => nc == 0 && nf == 0,
        _ => false,
    };
    if !well {
        sx::check!(!ok);
        return;
    }
    sx::check!(ok == (now | before));
    if ok {
        let none: Vec<Hash32> = vec![];
        let one = vec![h.clone()];
        let (g, b, w) = match yes {
            5 => (&one, &none, &none),
            0 => (&none, &one, &none),
            _ => (&none, &none, &one),
        };
        settled(&m, &(pending.to_vec(), active, past), g, b, w, &xt.collect_offender_keys().items);
        sx::cover(1);
        if dev == 4 && yes == 2 {
            sx::cover(2);
        }
        if before {
            sx::cover(3);
        }
    } else {
        sx::cover(4);
    }
}

//@ T08 covers=5 time=120 tmul=4
//@ bound: two verdicts (bad with good, wonky or bad; in order, out of order or twice the same report); two or three culprits and up to two faults with one defect: unknown, foreign, punished, repeated or misordered key, wrong report, vote agreeing with the verdict, bad signature
#[no_mangle]
pub extern "C" fn t08_offenders() {
    let Court { seed, active, past, pending } = court();
    // the reports in order of hash; the one judged bad is pending
    let (x, y) = (pending[0].clone(), h32([0xff; 32]));
    let yes = [5, 2, 0][sx::pick_usize(0, 2)];
    let (bad, other) = match sx::pick(0, 1) {
        0 => (&x, &y),
        _ => (&y, &x),
    };
    let mut verdicts = vec![verdict(&active, bad, EPOCH, 0), verdict(&past, other, EPOCH - 1, yes)];
    if bad == &y {
        verdicts.swap(0, 1);
    }
    let dev = sx::pick(0, 16);
    let mut culprits = vec![culprit(&active[1], bad), culprit(&past[2], bad)];
    let mut faults = vec![];
    match yes {
        5 => faults = vec![fault(&past[3], other, false), fault(&active[4], other, false)],
        0 => {
            culprits.push(culprit(&active[3], other));
            culprits.push(culprit(&past[4], other));
        }
        _ => (),
    }
    let stranger = vkey(9, 4);
    let ok = match dev {
        0 => true,
        // the same key as culprit and fault is one offender
        1 => {
            faults.insert(0, fault(&active[1], bad, true));
            true
        }
        2 => {
            verdicts.swap(0, 1);
            false
        }
        3 => {
            verdicts[1] = verdicts[0].clone();
            false
        }
        4 => {
            culprits.swap(0, 1);
            false
        }
        5 => {
            let c = culprits[1].clone();
            culprits.insert(1, c);
            false
        }
        6 => {
            culprits.insert(culprits.len(), culprit(&active[PUNISHED as usize], bad));
            false
        }
        7 => {
            culprits.push(culprit(&vkey(9, 4), bad));
            culprits.sort();
            false
        }
        8 => {
            culprits.insert(0, culprit(&active[0], &h32(lab(30, 9))));
            false
        }
        9 => {
            culprits.insert(0, culprit(&active[0], other));
            yes == 0
        }
        10 => {
            spoil(&mut culprits[1].signature);
            false
        }
        11 => {
            faults.insert(0, fault(&active[0], bad, false));
            false
        }
        12 => {
            faults.insert(0, fault(&active[0], other, true));
            yes == 0
        }
        13 => {
            faults.push(fault(&past[PUNISHED as usize], bad, true));
            false
        }
        14 => {
            faults.push(fault(&stranger, bad, true));
            faults.sort();
            false
        }
        15 => {
            faults.insert(0, fault(&active[0], bad, true));
            let i = faults.len() - 1;
            match sx::pick(0, 2) {
                0 => spoil(&mut faults[i].signature),
                1 => {
                    let f = faults[0].clone();
                    faults.insert(0, f);
                }
                _ => faults[0].report_hash = h32(lab(31, 2)),
            }
            false
        }
        _ => {
            faults.insert(0, fault(&active[0], bad, true));
            faults.insert(0, fault(&past[1], bad, true));
            // P1 and A0 out of order
            false
        }
    };
    let xt = DisputesXt { verdicts, culprits, faults };
    let m = seed.manager();
    let got = judge(&m, &xt);
    sx::check!(got == ok);
    if ok {
        sx::cover(1);
        let (mut g, mut b, mut w) = (vec![], vec![bad.clone()], vec![]);
        match yes {
            5 => g.push(other.clone()),
            0 => b.push(other.clone()),
            _ => w.push(other.clone()),
        }
        settled(&m, &(pending.to_vec(), active, past), &g, &b, &w, &xt.collect_offender_keys().items);
        if dev == 1 {
            sx::cover(2);
        }
        if dev == 9 {
            sx::cover(3);
        }
        if dev == 12 {
            sx::cover(4);
        }
    } else {
        sx::cover(5);
    }
}

fn assurance(set: &ValidatorKeySet, i: u16, bits: [bool; 2], anchor: &[u8; 32]) -> AssurancesXtEntry {
    let mut b = anchor.to_vec();
    b.push(bits[0] as u8 | (bits[1] as u8) << 1);
    let signature = sign(&set[i as usize].ed25519, &[b"jam_available", &hash(&b).0]);
    AssurancesXtEntry { anchor_parent_hash: h32(*anchor), assuring_cores_bitvec: bits.iter().collect(), validator_index: i, signature }
}
const PARENT: u8 = 77;

//@ T09 covers=6 time=120 tmul=4
//@ bound: a report pending on each core, on one, or on none, reported at any earlier slot; core 0 assured by any 0 to 6 validators, core 1 by 0, 4, 5 or 6; any current slot
#[no_mangle]
pub extern "C" fn t09_availability() {
    let set = vset(1);
    let (a, b) = (sx::pick_usize(0, 7), sx::pick_usize(0, 3));
    let n0 = if a == 7 { 5 } else { a };
    let n1 = [0, 4, 5, 6][b];
    let pend = [sx::pick(0, 1) == 1, sx::pick(0, 1) == 1];
    let (at, now) = ([sx::u32(), sx::u32()], sx::u32());
    let mut p = PendingReports::default();
    for c in 0..2 {
        if pend[c] {
            sx::assume(at[c] < now);
            p.0[c] = Some(PendingReport { work_report: report(c as u8, c as u16), reported_timeslot: Timeslot(at[c]) });
        }
    }
    let mut v = vec![];
    for i in 0..6usize {
        // the last validators for core 0 (and once with a gap), the first ones for core 1
        let bits = [if a == 7 { i != 3 } else { i >= 6 - n0 }, i < n1];
        if bits[0] || bits[1] || i == 0 {
            v.push(assurance(&set, i as u16, bits, &lab(PARENT, 0)));
        }
    }
    let m = Seed::new().with(&p).with(&ActiveSet(set.clone())).with(&Timeslot(now)).manager();
    let xt = AssurancesXt { items: v.try_into().unwrap() };
    let r = run(transition_reports_clear_availables(m.clone(), &xt, h32(lab(PARENT, 0))));
    let q = run(m.get_pending_reports()).unwrap();
    let fits = (pend[0] || n0 == 0) && (pend[1] || n1 == 0);
    sx::check!(r.is_ok() == fits);
    let Ok(out) = r else {
        sx::cover(1);
        sx::check!(q.0[0].is_some() == pend[0] && q.0[1].is_some() == pend[1]);
        return;
    };
    let mut want = vec![];
    for (c, n) in [n0, n1].iter().enumerate() {
        let stale = now as u64 >= at[c] as u64 + 5;
        let done = pend[c] && *n >= 5;
        if done {
            want.push(c as u8);
        }
        if !pend[c] | done | stale {
            sx::check!(q.0[c].is_none());
        } else {
            sx::check!(q.0[c] == p.0[c]);
            sx::cover(2);
        }
        if pend[c] & !done & stale {
            sx::cover(3);
        }
        if done & stale {
            sx::cover(4);
        }
    }
    sx::check!(out.len() == want.len());
    for (r, w) in out.iter().zip(&want) {
        sx::check!(*r == report(*w, *w as u16));
    }
    if want.len() == 2 {
        sx::cover(5);
    }
    if want.len() == 1 && want[0] == 1 {
        sx::cover(6);
    }
}

//@ T09 covers=2 time=60 tmul=4
//@ bound: up to four assurances, one of them with a defect: other parent, unknown or repeated validator, misordered, bad signature, signed by the previous set or over other bits
#[no_mangle]
pub extern "C" fn t09_assurers() {
    let set = vset(1);
    let mut p = PendingReports::default();
    p.0[0] = Some(PendingReport { work_report: report(0, 0), reported_timeslot: Timeslot(EPOCH * 12) });
    let m = Seed::new().with(&p).with(&ActiveSet(set.clone())).with(&PastSet(vset(2))).with(&StagingSet(vset(3))).with(&Timeslot(EPOCH * 12 + 1)).manager();
    let n = sx::pick_usize(1, 4);
    let at = sx::pick_usize(0, n - 1);
    let mut v: Vec<AssurancesXtEntry> = (0..n).map(|i| assurance(&set, i as u16 + 2 * (i == 3) as u16, [i != 1, false], &lab(PARENT, 0))).collect();
    let dev = sx::pick(0, 8);
    let i = v[at].validator_index;
    match dev {
        0 => (),
        1 => v[at] = assurance(&set, i, [true, false], &lab(PARENT, 1)),
        2 => {
            v[at].validator_index = 6 + sx::u16() % 100;
            sx::assume(at == n - 1);
        }
        3 => {
            let e = v[at].clone();
            v.insert(at, e);
        }
        4 => {
            sx::assume(at + 1 < n);
            v.swap(at, at + 1);
        }
        5 => spoil(&mut v[at].signature),
        6 => v[at] = assurance(&vset(2 + sx::pick(0, 1) as u8), i, [true, false], &lab(PARENT, 0)),
        7 => {
            let b = !v[at].assuring_cores_bitvec[0];
            v[at].assuring_cores_bitvec.set(0, b);
        }
        // the anchor replaced after signing
        _ => v[at].anchor_parent_hash = h32(lab(PARENT, 1)),
    }
    let xt = AssurancesXt { items: v.try_into().unwrap() };
    let r = run(transition_reports_clear_availables(m.clone(), &xt, h32(lab(PARENT, 0))));
    sx::check!(r.is_ok() == (dev == 0));
    sx::check!(run(m.get_pending_reports()).unwrap() == p);
    sx::cover(1 + r.is_ok() as u32);
}
