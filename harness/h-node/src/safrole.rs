//! Time, entropy, validator rotation, block-sealing keys, tickets.
use crate::env::*;
use fr_block::types::block::Block;
use fr_node::roles::executor::BlockExecutor;
use fr_transition::state::{entropy::*, timeslot::*};

pub const E: u32 = 12;

//@ T01 covers=4 time=60
//@ bound: any prior slot and header slot; wall clock any second of two consecutive slots in 2027
#[no_mangle]
pub extern "C" fn t01_timeslot() {
    let (t0, t1) = (sx::u32(), sx::u32());
    let now = 1_800_000_000 + sx::pick(0, 11);
    sx::set_clock(now);
    let m = Seed::new().with(&Timeslot(t0)).manager();
    let r = run(transition_timeslot(m.clone(), &Timeslot(t1)));
    let due = 1_735_732_800u64 + 6 * t1 as u64;
    let genesis = t0 == 0 && t1 == 0;
    match r {
        Ok(()) => {
            sx::cover(1);
            sx::check!(genesis | ((t1 > t0) & (due <= now)));
            sx::check!(run(m.get_timeslot()).unwrap().0 == t1);
        }
        Err(_) => {
            sx::check!((t1 <= t0) | (due > now));
            if t1 <= t0 {
                sx::cover(2);
            }
            if (t1 > t0) & (due == now + 1) {
                sx::cover(3);
            }
            sx::check!(run(m.get_timeslot()).unwrap().0 == t0);
        }
    }
    // the node's own clock calls this slot the current one from the same moment on
    if let Some(s) = fr_clock::JamClock::now_jam_timeslot() {
        sx::cover(4);
        sx::check!((due <= now) == (t1 <= s));
    }
}

//@ T01 covers=2 time=60
//@ bound: any four entropy values, any VRF output, epoch change or not
#[no_mangle]
pub extern "C" fn t01_entropy() {
    let e: [[u8; 32]; 4] = [sx::bytes(), sx::bytes(), sx::bytes(), sx::bytes()];
    let y: [u8; 32] = sx::bytes();
    let new_epoch = sx::bool();
    let m = Seed::new().with(&EpochEntropy([h32(e[0]), h32(e[1]), h32(e[2]), h32(e[3])])).manager();
    run(transition_epoch_entropy_on_epoch_change(m.clone(), new_epoch)).unwrap();
    run(transition_epoch_entropy_per_block(m.clone(), h32(y))).unwrap();
    let p = run(m.get_epoch_entropy()).unwrap();
    let mut pre = e[0].to_vec();
    pre.extend_from_slice(&y);
    sx::check!(sx::same(&p.0[0].0, &hash(&pre).0));
    let want = if new_epoch {
        sx::cover(1);
        [e[0], e[1], e[2]]
    } else {
        sx::cover(2);
        [e[1], e[2], e[3]]
    };
    for i in 0..3 {
        sx::check!(sx::same(&p.0[i + 1].0, &want[i]));
    }
    // the value before the block stays readable until it is committed
    let c = run(m.get_epoch_entropy_clean()).unwrap();
    for i in 0..4 {
        sx::check!(sx::same(&c.0[i].0, &e[i]));
    }
}

fn acc(ids: &[u8]) -> TicketAccumulator {
    TicketAccumulator::from_vec(ids.iter().map(|i| Ticket { id: h32(lab(7, *i)), attempt: i & 1 }).collect())
}
pub fn keys(s: &ValidatorKeySet) -> Vec<ValidatorKey> {
    s.iter().cloned().collect()
}
/// slots of two consecutive blocks: anything within four epochs of the first
fn slots() -> (u32, u32) {
    let e0 = 200_000u32;
    let t0 = sx::u32();
    let t1 = sx::u32();
    sx::assume(t0 >= e0 * E && t0 < e0 * E + E);
    sx::assume(t1 > t0 && t1 < e0 * E + 4 * E);
    (t0, t1)
}
pub fn base(t0: u32) -> SimpleStates {
    let mut s = SimpleStates::default();
    s.timeslot = Timeslot(t0);
    s.past_set = PastSet(vset(1));
    s.active_set = ActiveSet(vset(2));
    s.safrole.pending_set = vset(3);
    s.staging_set = StagingSet(vset(4));
    s.safrole.ring_root = ByteArray(ring_root(&s.safrole.pending_set));
    for i in 0..4 {
        s.entropy.0[i] = h32(lab(9, i as u8));
    }
    s
}
fn block_at(t: u32) -> Block {
    let mut b = Block::default();
    b.header.data.timeslot_index = t;
    b
}

//@ T02 covers=3 time=60
//@ bound: any prior slot within an epoch, any later slot up to four epochs on; up to two punished keys out of any (or none) of the staging set; six validators
#[no_mangle]
pub extern "C" fn t02_rotation() {
    let (t0, t1) = slots();
    let mut s = base(t0);
    let (x, y) = (sx::u8(), sx::u8());
    s.disputes.punish_set = vec![ed(lab(4 ^ 0x80, x)), ed(lab(4 ^ 0x80, y))];
    let root = s.safrole.ring_root.clone();
    let n = seed_all(&s).node();
    let m = n.state_manager();
    let out = run(BlockExecutor::run_state_transition_pre_header_commitment(&n, &block_at(t1))).unwrap();
    let (p, a, g) = (run(m.get_past_set()).unwrap(), run(m.get_active_set()).unwrap(), run(m.get_safrole()).unwrap());
    let st = run(m.get_staging_set()).unwrap();
    sx::check!(*st == vset(4));
    if t1 / E == t0 / E {
        sx::cover(1);
        sx::check!(*p == vset(1));
        sx::check!(*a == vset(2));
        sx::check!(g.pending_set == vset(3));
        sx::check!(g.ring_root == root);
        sx::check!(out.safrole_markers.epoch_marker.is_none());
    } else {
        sx::cover(2);
        sx::check!(*p == vset(2));
        sx::check!(*a == vset(3));
        let mk = out.safrole_markers.epoch_marker.unwrap();
        sx::check!(mk.entropy.0 == lab(9, 0));
        sx::check!(mk.tickets_entropy.0 == lab(9, 1));
        sx::check!(mk.validators.len() == 6);
        let v = keys(&g.pending_set);
        sx::check!(v.len() == 6);
        for i in 0..6u8 {
            let gone = x == i || y == i;
            let want = if gone { ValidatorKey::default() } else { vkey(4, i) };
            if gone && x != y && t1 / E == t0 / E + 2 {
                sx::cover(3);
            }
            sx::check!(v[i as usize] == want);
            sx::check!(mk.validators[i as usize].bandersnatch == want.bandersnatch);
            sx::check!(mk.validators[i as usize].ed25519 == want.ed25519);
        }
        sx::check!(g.ring_root.0 == ring_root(&g.pending_set));
    }
}

/// the fallback key for a slot, from the protocol's definition
pub fn fallback(s: &ValidatorKeySet, e: &[u8; 32], i: u32) -> BandersnatchPubKey {
    let mut pre = e.to_vec();
    pre.extend_from_slice(&i.to_le_bytes());
    let h = hash(&pre).0;
    let k = u32::from_le_bytes([h[0], h[1], h[2], h[3]]) % 6;
    keys(s)[k as usize].bandersnatch.clone()
}
fn outside_in(i: usize) -> u8 {
    // position i of the outside-in sequence of 0..12
    if i % 2 == 0 {
        (i / 2) as u8
    } else {
        (11 - i / 2) as u8
    }
}
//@ T03 covers=5 time=60
//@ bound: any prior slot within an epoch, any later slot up to four epochs on; accumulator with 0, 11 or 12 tickets; sealing keys from tickets or fallback; two entropy histories
#[no_mangle]
pub extern "C" fn t03_sealers() {
    let (t0, t1) = slots();
    let mut s = base(t0);
    let n = [0, 11, 12][sx::pick_usize(0, 2)];
    // ids 20, 21, … accumulated out of order
    let ids: Vec<u8> = (0..n as u8).map(|i| 20 + (i * 5) % 12).collect();
    s.safrole.ticket_accumulator = acc(&ids);
    if sx::bool() {
        s.entropy.0[1] = h32(lab(0x61, 3));
    }
    let old_keys: Vec<BandersnatchPubKey> = (0..12).map(|i| bs(lab(0x70, i))).collect();
    s.safrole.slot_sealers = SlotSealers::BandersnatchPubKeys(EpochFallbackKeys::try_from(old_keys.clone()).unwrap());
    let eta2 = s.entropy.0[1].0; // becomes the second history at an epoch change
    let node = seed_all(&s).node();
    let m = node.state_manager();
    let out = run(BlockExecutor::run_state_transition_pre_header_commitment(&node, &block_at(t1))).unwrap();
    let g = run(m.get_safrole()).unwrap();
    let (e0, e1) = (t0 / E, t1 / E);
    let w = out.safrole_markers.winning_tickets_marker;
    if e1 == e0 {
        sx::cover(1);
        sx::check!(g.slot_sealers == s.safrole.slot_sealers);
        sx::check!(g.ticket_accumulator == s.safrole.ticket_accumulator);
        let due = (t0 % E < 10) & (t1 % E >= 10) & (n == 12);
        if due {
            sx::cover(2);
        }
        match w {
            None => sx::check!(!due),
            Some(w) => {
                sx::check!(due);
                sx::check!(w.len() == 12);
                for i in 0..12 {
                    sx::check!(w[i].id.0 == lab(7, 20 + outside_in(i)));
                }
            }
        }
        return;
    }
    sx::check!(w.is_none());
    sx::check!(g.ticket_accumulator.len() == 0);
    let regular = (e1 == e0 + 1) & (t0 % E >= 10) & (n == 12);
    match &g.slot_sealers {
        SlotSealers::Tickets(v) => {
            sx::cover(3);
            sx::check!(regular);
            sx::check!(v.len() == 12);
            for i in 0..12 {
                sx::check!(v[i].id.0 == lab(7, 20 + outside_in(i)));
                sx::check!(v[i].attempt == outside_in(i) & 1);
            }
        }
        SlotSealers::BandersnatchPubKeys(v) => {
            sx::cover(4);
            sx::check!(!regular);
            if n == 12 && e1 == e0 + 2 {
                sx::cover(5);
            }
            sx::check!(v.len() == 12);
            for i in 0..12u32 {
                sx::check!(v[i as usize] == fallback(&vset(3), &eta2, i));
            }
        }
    }
}

//@ T04 covers=7 time=120 tmul=4
//@ bound: slot at any phase; accumulator with 0, 1, 10 or 12 tickets (thorough: 0, 1, 9, 10, 11, 12); extrinsic of up to four tickets with any identifiers (first octet), any attempt number and a valid or invalid proof each
//@ assume: ideal ring VRF (model); a ticket identifier is never shared by two attempt numbers
#[no_mangle]
pub extern "C" fn t04_tickets() {
    let phase = sx::u32();
    sx::assume(phase < E);
    let t = 200_000 * E + phase;
    let mut s = base(t);
    const AT: [u8; 6] = [0, 1, 88, 90, 170, 250];
    let ls: &[usize] = if sx::thorough() { &[0, 1, 9, 10, 11, 12] } else { &[0, 1, 10, 12] };
    let l = ls[sx::pick_usize(0, ls.len() - 1)];
    let old: Vec<u8> = (0..l as u8).map(|i| 16 * ((i * 5) % 13) + 8).collect();
    s.safrole.ticket_accumulator = acc(&old);
    let com = ring_root(&s.safrole.pending_set);
    let n = sx::pick_usize(0, if l == 1 { 4 } else { sx::bound(2, 3) });
    let mut ids = vec![];
    let mut good = true;
    let mut items = vec![];
    for _ in 0..n {
        // below all, above all, between two, equal to one of the old ones, either side of the 12th
        let x = AT[sx::pick_usize(0, AT.len() - 1)];
        let (a, v) = (sx::u8(), sx::bool());
        let id = lab(7, x);
        let mut ctx = X_T.to_vec();
        ctx.extend_from_slice(&s.entropy.0[2].0);
        ctx.push(a);
        let p = ark_vrf::model::ring_proof(&com, &ctx, &id, &[]);
        let mut sig = Box::new(ByteArray([0u8; 784]));
        sig.0[..32].copy_from_slice(&id);
        sig.0[32..64].copy_from_slice(&p);
        sig.0[32] ^= 1 - v as u8;
        items.push(fr_block::types::extrinsics::tickets::TicketsXtEntry { entry_index: a, ticket_proof: BandersnatchRingVrfSig(sig) });
        good &= v & (a < 3);
        for o in &old {
            sx::assume((x != *o) | (a == o & 1));
            good &= x != *o;
        }
        ids.push((x, a));
    }
    for w in ids.windows(2) {
        good &= w[0].0 < w[1].0;
    }
    // every new ticket must be among the twelve lowest of all
    if n > 0 {
        let top = ids[n - 1].0;
        let mut below = n as u8 - 1;
        for o in &old {
            below += (*o < top) as u8;
        }
        good &= below < 12;
        good &= phase < 10;
    }
    good &= n <= 3;
    let m = seed_all(&s).manager();
    let xt = fr_block::types::extrinsics::tickets::TicketsXt { items };
    let r = run(fr_transition::state::safrole::transition_safrole(m.clone(), &Timeslot(t - 1), &Timeslot(t), false, &xt));
    sx::check!(r.is_ok() == good);
    let post = run(m.get_safrole()).unwrap();
    sx::check!(post.slot_sealers == s.safrole.slot_sealers);
    sx::check!(post.ring_root == s.safrole.ring_root);
    let v = post.ticket_accumulator.into_sorted_vec();
    if r.is_err() {
        sx::cover(1);
        if n == 4 {
            sx::cover(2);
        }
        if phase >= 10 {
            sx::cover(3);
        }
        sx::check!(v.len() == l);
        return;
    }
    sx::cover(4);
    if n == 3 {
        sx::cover(5);
    }
    if l == 12 && n == 2 {
        sx::cover(6);
    }
    if l == 10 && n == 2 {
        sx::cover(7);
    }
    sx::check!(v.len() == if l + n < 12 { l + n } else { 12 });
    for w in v.windows(2) {
        sx::check!(w[0].id.0[0] < w[1].id.0[0]);
    }
    let mut all: Vec<(u8, u8)> = old.iter().map(|o| (*o, o & 1)).collect();
    all.extend_from_slice(&ids);
    for (x, a) in &all {
        let (mut rank, mut inside) = (0u8, false);
        for (y, _) in &all {
            rank += (y < x) as u8;
        }
        for k in &v {
            inside |= (k.id.0[0] == *x) & (k.attempt == *a) & (k.id.0[1..] == lab(7, 0)[1..]);
        }
        sx::check!(inside == (rank < 12));
    }
}

fn nulled(s: &ValidatorKeySet, i: usize) -> ValidatorKeySet {
    let mut s = s.clone();
    for (j, k) in s.iter_mut().enumerate() {
        if i == j {
            *k = ValidatorKey::default();
        }
    }
    s
}
//@ T05 covers=4 time=80 tmul=4
//@ bound: any history of three (thorough: four) of: epoch rotation, nullification of an offender, a new staging set (its ring computed at once or later), a pending computation completing, either ring being asked for a set; slots advance or stay; then either ring asked for any of four sets
//@ assume: ideal ring commitments (model); computations of the background task run between, not inside, other calls
#[no_mangle]
pub extern "C" fn t05_cache() {
    use fr_transition::ring_cache::*;
    let m = Seed::new().with(&StagingSet(vset(4))).manager();
    let sets = [vset(4), vset(5), nulled(&vset(4), 0), nulled(&vset(5), 2)];
    let mut t = 100u32;
    let asked = || if sx::thorough() { &sets[sx::pick_usize(0, 3)] } else { &sets[2 * sx::pick_usize(0, 1)] };
    tokio::model::hold(true);
    for _ in 0..sx::bound(3, 4) {
        t += sx::bool() as u32;
        match sx::pick(0, 5) {
            0 => m.commit_and_rotate_ring_cache(),
            1 => {
                let o = [ed(lab(4 ^ 0x80, 0)), ed(lab(5 ^ 0x80, 2))][sx::pick_usize(0, 1)].clone();
                m.nullify_offenders_from_staging_ring_cache(&[o]).unwrap();
            }
            2 => {
                let k = sx::pick_usize(0, 2);
                let s = StagingSet(vset(4 + (k > 0) as u8));
                let p = vec![ed(lab(5 ^ 0x80, 2)); k / 2];
                let h = compute_effective_staging_set_hash(&s, &p).unwrap();
                m.update_last_staging_set_transition_context(t, h.clone());
                schedule_ring_cache_update(m.clone(), t, s, p, h);
            }
            3 => {
                let n = tokio::model::held();
                if n > 0 {
                    sx::cover(1);
                    tokio::model::release(sx::pick_usize(0, n - 1));
                }
            }
            4 => {
                run(m.get_or_generate_curr_ring_context(t, asked())).unwrap();
            }
            _ => {
                run(m.get_or_generate_staging_ring_context(t, asked())).unwrap();
            }
        }
    }
    let want = &sets[sx::pick_usize(0, 3)];
    let (c, s) = m.ring_cache_snapshot();
    let r = if sx::pick(0, 1) == 0 {
        if c.is_some() {
            sx::cover(2);
        }
        run(m.get_or_generate_curr_ring_context(t, want))
    } else {
        if s.is_some() {
            sx::cover(3);
        }
        if tokio::model::held() > 0 {
            sx::cover(4);
        }
        run(m.get_or_generate_staging_ring_context(t, want))
    };
    let (v, root) = r.unwrap();
    let w = ring_root(want);
    sx::check!(root.0 == w);
    sx::check!(v.compute_ring_root().unwrap().0 == w);
    tokio::model::forget_held();
}

fn ticket(com: &[u8; 144], eta2: &[u8; 32], x: u8, a: u8) -> fr_block::types::extrinsics::tickets::TicketsXtEntry {
    let id = lab(7, x);
    let mut ctx = X_T.to_vec();
    ctx.extend_from_slice(eta2);
    ctx.push(a);
    let p = ark_vrf::model::ring_proof(com, &ctx, &id, &[]);
    let mut sig = Box::new(ByteArray([0u8; 784]));
    sig.0[..32].copy_from_slice(&id);
    sig.0[32..64].copy_from_slice(&p);
    fr_block::types::extrinsics::tickets::TicketsXtEntry { entry_index: a, ticket_proof: BandersnatchRingVrfSig(sig) }
}
//@ T05 covers=4 time=80 tmul=4
//@ bound: up to two rejected blocks (false accusation of a staging or pending validator, in the same or the next epoch; or a bad ticket proof), then a valid one in the same or the next epoch, with or without a ticket; rings in the cache or not to begin with
//@ assume: ideal ring commitments (model)
#[no_mangle]
pub extern "C" fn t05_rejected_blocks() {
    let e0 = 200_000u32;
    let t0 = e0 * E + 4;
    let s = base(t0);
    let node = seed_all(&s).node();
    let m = node.state_manager();
    if sx::bool() {
        sx::cover(1);
        run(m.get_or_generate_curr_ring_context(t0 - 2, &s.safrole.pending_set)).unwrap();
        run(m.get_or_generate_staging_ring_context(t0 - 1, &s.staging_set)).unwrap();
    }
    for _ in 0..sx::pick(0, 2) {
        let next = sx::bool();
        let mut b = block_at(if next { (e0 + 1) * E } else { t0 + 1 });
        if sx::bool() {
            // accused without a verdict
            let tag = if sx::bool() { 4u8 } else { 3 };
            let c = fr_block::types::extrinsics::disputes::Culprit { report_hash: h32(lab(1, 1)), validator_key: ed(lab(tag ^ 0x80, 1)), signature: Ed25519Sig(ByteArray([0; 64])) };
            b.extrinsics.disputes.culprits = vec![c];
        } else {
            // a ticket of the other ring
            let other = if next { &s.safrole.pending_set } else { &s.staging_set };
            let eta2 = &s.entropy.0[if next { 1 } else { 2 }].0;
            b.extrinsics.tickets.items = vec![ticket(&ring_root(other), eta2, 9, 0)];
        }
        sx::check!(run(BlockExecutor::run_state_transition_pre_header_commitment(&node, &b)).is_err());
        m.rollback_dirty_cache();
        sx::cover(2);
    }
    let next = sx::bool();
    let mut b = block_at(if next { (e0 + 1) * E } else { t0 + 1 });
    let set = if next { &s.staging_set } else { &s.safrole.pending_set };
    let eta2 = &s.entropy.0[if next { 1 } else { 2 }].0;
    let with = sx::bool();
    if with {
        b.extrinsics.tickets.items = vec![ticket(&ring_root(set), eta2, 9, 0)];
    }
    sx::check!(run(BlockExecutor::run_state_transition_pre_header_commitment(&node, &b)).is_ok());
    let g = run(m.get_safrole()).unwrap();
    sx::check!(g.pending_set == *set);
    sx::check!(g.ring_root.0 == ring_root(set));
    sx::check!(g.ticket_accumulator.len() == with as usize);
    sx::cover(if next { 3 } else { 4 });
}
