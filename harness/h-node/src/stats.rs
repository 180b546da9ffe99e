//! Activity statistics.
use crate::env::*;
use crate::guarantees::{digest, xt, SVC};
use crate::reports::report;
use fr_block::types::extrinsics::{assurances::*, guarantees::*, preimages::*, tickets::*, Extrinsics};
use fr_pvm_types::{invoke_results::*, stats::AccumulateStats};
use fr_transition::state::statistics::transition_onchain_statistics;
use std::collections::HashSet;

/// a count with room for what one block can add
fn count() -> u32 {
    sx::u32() >> 1
}
fn activity() -> ValidatorStatsEntry {
    ValidatorStatsEntry {
        blocks_produced_count: count(),
        tickets_count: count(),
        preimages_count: count(),
        preimage_data_octets_count: count(),
        guarantees_count: count(),
        assurances_count: count(),
    }
}
fn validators() -> EpochValidatorStats {
    let mut s = EpochValidatorStats::default();
    for e in s.iter_mut() {
        *e = activity();
    }
    s
}
fn stale() -> OnChainStatistics {
    let mut s = OnChainStatistics::default();
    s.validator_stats.curr = validators();
    s.validator_stats.prev = validators();
    for e in s.core_stats.0.iter_mut() {
        *e = CoreStatsEntry { da_items_size: sx::u32(), assurers_count: sx::u16(), imports_count: sx::u16(), extrinsics_count: sx::u16(), extrinsics_octets: sx::u32(), exports_count: sx::u16(), work_bundle_length: sx::u32(), refine_gas_used: sx::u64() };
    }
    s.service_stats.0.insert(SVC[0], ServiceStatsEntry { preimage_xts_count: sx::u16(), refine_gas_used: sx::u64(), ..Default::default() });
    s.service_stats.0.insert(9999, ServiceStatsEntry { accumulate_digests_count: sx::u32(), ..Default::default() });
    s
}
fn node(s: &OnChainStatistics, active: &ValidatorKeySet) -> Arc<StateManager> {
    Seed::new().with(s).with(&ActiveSet(active.clone())).with(&PastSet(vset(2))).with(&StagingSet(vset(3))).manager()
}
fn same_activity(a: &ValidatorStatsEntry, b: &ValidatorStatsEntry) {
    sx::check!(a.blocks_produced_count == b.blocks_produced_count);
    sx::check!(a.tickets_count == b.tickets_count);
    sx::check!(a.preimages_count == b.preimages_count);
    sx::check!(a.preimage_data_octets_count == b.preimage_data_octets_count);
    sx::check!(a.guarantees_count == b.guarantees_count);
    sx::check!(a.assurances_count == b.assurances_count);
}

//@ T12 covers=5 time=120 tmul=4
//@ bound: any previous counts below 2^31; any author; any set of reporters of the six current validators, and a former or a later one; any set of assurers; 0 to 3 tickets; 0 to 2 preimages of 0 to 4 octets; within an epoch and at its change
#[no_mangle]
pub extern "C" fn t12_validators() {
    let active = vset(1);
    let old = stale();
    let m = node(&old, &active);
    let new_epoch = sx::pick(0, 1) == 1;
    let author = sx::pick(0, 5) as u16;
    // reporters and assurers: any subset, spanned by two masks
    let (reporting, assuring) = match sx::pick(0, 1) {
        0 => (sx::pick_usize(0, 63), 0b010110),
        _ => (0b100101, sx::pick_usize(0, 63)),
    };
    let mut reporters = HashSet::new();
    for i in 0..6 {
        if reporting >> i & 1 == 1 {
            reporters.insert(active[i].ed25519.clone());
        }
    }
    // a guarantor of the epoch before, no longer active, and one not yet active
    if sx::pick(0, 1) == 1 {
        reporters.insert(vkey(2, author as u8).ed25519);
        reporters.insert(vkey(3, 1).ed25519);
        sx::cover(1);
    }
    let assurances: Vec<_> = (0..6u16)
        .filter(|i| assuring >> i & 1 == 1)
        .map(|i| AssurancesXtEntry { anchor_parent_hash: h32([7; 32]), assuring_cores_bitvec: [i % 2 == 0, i > 3].iter().collect(), validator_index: i, signature: Default::default() })
        .collect();
    let tickets = sx::pick_usize(0, 3);
    let nblobs = tickets.min(2);
    let mut octets = 0;
    let mut blobs = vec![];
    for i in 0..nblobs {
        let n = [0, 4][(author as usize + i) % 2];
        octets += n as u32;
        blobs.push(PreimagesXtEntry { service_id: SVC[i], preimage_data: Octets::from_vec(vec![i as u8; n]) });
    }
    let x = Extrinsics {
        tickets: TicketsXt { items: (0..tickets).map(|i| TicketsXtEntry { entry_index: i as u8, ticket_proof: Default::default() }).collect::<Vec<_>>().try_into().unwrap() },
        preimages: PreimagesXt { items: blobs },
        assurances: AssurancesXt { items: assurances.try_into().unwrap() },
        ..Default::default()
    };
    let r = run(transition_onchain_statistics(m.clone(), new_epoch, author, &x, &[], &reporters, AccumulateStats::default()));
    sx::check!(r.is_ok());
    let got = run(m.get_onchain_statistics()).unwrap();
    let was = &old.validator_stats;
    for i in 0..6 {
        let mut e = if new_epoch { ValidatorStatsEntry::default() } else { was.curr[i].clone() };
        if i == author as usize {
            e.blocks_produced_count += 1;
            e.tickets_count += tickets as u32;
            e.preimages_count += nblobs as u32;
            e.preimage_data_octets_count += octets;
        }
        e.guarantees_count += (reporting >> i & 1) as u32;
        e.assurances_count += (assuring >> i & 1) as u32;
        same_activity(&got.validator_stats.curr[i], &e);
        same_activity(&got.validator_stats.prev[i], if new_epoch { &was.curr[i] } else { &was.prev[i] });
    }
    sx::cover(2 + new_epoch as u32);
    if octets == 4 {
        sx::cover(4);
    }
    if tickets == 3 {
        sx::cover(5);
    }
}

fn work() -> RefineStats {
    RefineStats {
        refine_gas_used: sx::u64() >> 8,
        imports_count: sx::u16() >> 4,
        extrinsics_count: sx::u16() >> 4,
        extrinsics_octets: sx::u32() >> 4,
        exports_count: sx::u16() >> 4,
    }
}
fn same_core(a: &CoreStatsEntry, b: &CoreStatsEntry) {
    sx::check!(a.da_items_size == b.da_items_size);
    sx::check!(a.assurers_count == b.assurers_count);
    sx::check!(a.imports_count == b.imports_count);
    sx::check!(a.extrinsics_count == b.extrinsics_count);
    sx::check!(a.extrinsics_octets == b.extrinsics_octets);
    sx::check!(a.exports_count == b.exports_count);
    sx::check!(a.work_bundle_length == b.work_bundle_length);
    sx::check!(a.refine_gas_used == b.refine_gas_used);
}
fn same_service(a: &ServiceStatsEntry, b: &ServiceStatsEntry) {
    sx::check!(a.preimage_xts_count == b.preimage_xts_count);
    sx::check!(a.preimage_blob_size == b.preimage_blob_size);
    sx::check!(a.work_digests_count == b.work_digests_count);
    sx::check!(a.refine_gas_used == b.refine_gas_used);
    sx::check!(a.imports_count == b.imports_count);
    sx::check!(a.extrinsics_count == b.extrinsics_count);
    sx::check!(a.extrinsics_octets == b.extrinsics_octets);
    sx::check!(a.exports_count == b.exports_count);
    sx::check!(a.accumulate_digests_count == b.accumulate_digests_count);
    sx::check!(a.accumulate_gas_used == b.accumulate_gas_used);
}

//@ T12 covers=5 time=120 tmul=4
//@ bound: 0 to 2 guaranteed reports and 0 to 2 available ones over either core, 1 or 2 digests each of either service with any refinement counts below 2^12 (gas 2^56, octets 2^28); bundles below 2^28 octets and up to 2048 exported segments; any assurers; 0 to 2 preimages; 0 to 2 accumulated reports with any gas
#[no_mangle]
pub extern "C" fn t12_activity() {
    let m = node(&stale(), &vset(1));
    let mut cores = [CoreStatsEntry::default(), CoreStatsEntry::default()];
    let mut services = std::collections::BTreeMap::<u32, ServiceStatsEntry>::new();
    let mut guarantees = vec![];
    let reported = sx::pick_usize(0, 2);
    let swap = sx::pick(0, 1) as u16;
    for k in 0..reported {
        let mut r = report(1 + k as u8, k as u16 ^ swap);
        r.specs.work_bundle_length = sx::u32() >> 4;
        r.specs.segment_count = 77;
        let c = &mut cores[r.core_index as usize];
        c.work_bundle_length = r.specs.work_bundle_length;
        let n = sx::pick_usize(1, 2);
        let mut ds = vec![];
        for j in 0..n {
            let i = if j == 0 { swap as usize } else { sx::pick_usize(0, 1) };
            let mut d = digest(i, 1000, if k == 0 { 3 } else { usize::MAX });
            d.refine_stats = work();
            let w = &d.refine_stats;
            c.imports_count += w.imports_count;
            c.extrinsics_count += w.extrinsics_count;
            c.extrinsics_octets += w.extrinsics_octets;
            c.exports_count += w.exports_count;
            c.refine_gas_used += w.refine_gas_used;
            let s = services.entry(SVC[i]).or_default();
            s.work_digests_count += 1;
            s.refine_gas_used += w.refine_gas_used;
            s.imports_count += w.imports_count as u32;
            s.extrinsics_count += w.extrinsics_count as u32;
            s.extrinsics_octets += w.extrinsics_octets;
            s.exports_count += w.exports_count as u32;
            ds.push(d);
        }
        r.digests = ds.try_into().unwrap();
        guarantees.push(GuaranteesXtEntry { work_report: r, timeslot_index: 5, credentials: vec![] });
    }
    let mut available = vec![];
    let made = sx::pick_usize(0, 2);
    for k in 0..made {
        let core = if made == 1 { swap } else { k as u16 };
        let mut r = report(7 + k as u8, core);
        r.specs.work_bundle_length = sx::u32() >> 4;
        r.specs.segment_count = sx::u16();
        sx::assume(r.specs.segment_count <= 2048);
        // every exported segment, and a page of proofs for each 64 of them
        let n = r.specs.segment_count as u32;
        let pages = (n + 63) >> 6;
        cores[core as usize].da_items_size = r.specs.work_bundle_length + SEGMENT_SIZE as u32 * (n + pages);
        r.digests = vec![digest(0, 1000, 3)].try_into().unwrap();
        available.push(r);
    }
    let assuring = [0, 0b001001, 0b111110][made];
    let mut assurances = vec![];
    for i in 0..6u16 {
        if assuring >> i & 1 == 1 {
            let bits = [i != 3, i > 3 || i == 0];
            for c in 0..2 {
                cores[c].assurers_count += bits[c] as u16;
            }
            assurances.push(AssurancesXtEntry { anchor_parent_hash: h32([7; 32]), assuring_cores_bitvec: bits.iter().collect(), validator_index: i, signature: Default::default() });
        }
    }
    let nblobs = reported;
    let mut blobs = vec![];
    for i in 0..nblobs {
        let (id, n) = ([SVC[1], 12][(i + made) % 2], 3 * i);
        let s = services.entry(id).or_default();
        s.preimage_xts_count += 1;
        s.preimage_blob_size += n as u32;
        blobs.push(PreimagesXtEntry { service_id: id, preimage_data: Octets::from_vec(vec![i as u8; n]) });
    }
    // accumulated: reports whose digests name services 7 and 300, and gas for 7 and for one that had no digests
    let done = sx::pick_usize(0, 2);
    let mut accumulated = vec![];
    let mut pairs = vec![];
    for k in 0..done {
        let mut r = report(20 + k as u8, k as u16);
        r.digests = vec![digest(k, 1000, 3), digest(0, 50, 3)].try_into().unwrap();
        services.entry(SVC[k]).or_default().accumulate_digests_count += 1;
        services.entry(SVC[0]).or_default().accumulate_digests_count += 1;
        accumulated.push(r);
        let gas = sx::u64() >> 8;
        let id = [SVC[0], 55][k];
        pairs.push(AccumulationGasPair { service: id, gas });
        if k == 0 {
            services.entry(id).or_default().accumulate_gas_used += gas;
            let more = sx::u64() >> 8;
            services.entry(id).or_default().accumulate_gas_used += more;
            pairs.push(AccumulationGasPair { service: id, gas: more });
        } else if gas != 0 {
            services.entry(id).or_default().accumulate_gas_used += gas;
        } else {
            sx::cover(1);
        }
    }
    let acc = AccumulateStats::from_accumulated_reports(&accumulated, &pairs.into_iter().collect());
    let x = Extrinsics { guarantees: xt(guarantees), assurances: AssurancesXt { items: assurances.try_into().unwrap() }, preimages: PreimagesXt { items: blobs }, ..Default::default() };
    let r = run(transition_onchain_statistics(m.clone(), false, 0, &x, &available, &HashSet::new(), acc));
    sx::check!(r.is_ok());
    let got = run(m.get_onchain_statistics()).unwrap();
    for c in 0..2 {
        same_core(&got.core_stats.0[c], &cores[c]);
    }
    // nothing of the block before stays
    sx::check!(got.service_stats.0.len() == services.len());
    for (id, s) in &services {
        sx::check!(got.service_stats.0.contains_key(id));
        same_service(&got.service_stats.0[id], s);
    }
    if made == 2 {
        sx::cover(2);
    }
    if reported == 2 {
        sx::cover(3);
    }
    if services.len() == 4 {
        sx::cover(4);
    }
    if services.is_empty() {
        sx::cover(5);
    }
}
