//! Block import: which blocks become part of the chain, and what a rejected one leaves behind.
use crate::env::*;
use crate::safrole::{base, fallback, keys, E};
use fr_block::types::block::{Block, BlockHeader, EpochMarker, EpochMarkerValidatorKey};
use fr_node::roles::importer::BlockImporter;
use fr_storage::node_storage::NodeStorage;

const E0: u32 = 200_000;
pub const T0: u32 = E0 * E + 4;

pub struct Chain {
    pub node: Arc<NodeStorage>,
    pub s: SimpleStates,
    pub tip: BlockHeader,
    pub root: StateRoot,
}
/// a node whose best block is at T0, over committed state
pub fn chain(s: SimpleStates) -> Chain {
    let node = Seed::new().node();
    let m = node.state_manager();
    run(fr_state::state_utils::add_all_simple_state_entries(&m, Some(copy(&s)))).unwrap();
    run(m.commit_dirty_cache()).unwrap();
    let mut tip = BlockHeader::default();
    tip.data.timeslot_index = T0;
    tip.data.parent_hash = h32(lab(0x11, 0));
    node.header_db().set_best_header(tip.clone());
    run(node.header_db().commit_header(tip.clone())).unwrap();
    let root = run(m.merkle_root()).unwrap();
    run(node.post_state_root_db().set_post_state_root(&tip.hash().unwrap(), root.clone())).unwrap();
    Chain { node, s, tip, root }
}
pub fn feed(node: &Arc<NodeStorage>, blocks: Vec<Block>) {
    let (tx, rx) = tokio::sync::mpsc::channel(8);
    for b in blocks {
        run(tx.send(b)).unwrap();
    }
    drop(tx);
    run(BlockImporter::run_block_importer(node.clone(), rx));
}
/// signature by a validator's key in the VRF model
fn vrf(k: &BandersnatchPubKey, input: &[u8], ad: &[u8]) -> BandersnatchSig {
    let k = &k.0 .0;
    let o = ark_vrf::model::output(k, input);
    let mut s = ByteArray([0u8; 96]);
    s.0[..32].copy_from_slice(&o);
    s.0[32..64].copy_from_slice(&ark_vrf::model::ietf_proof(k, input, &o, ad));
    BandersnatchSig(s)
}
fn cat(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v.extend_from_slice(c);
    v
}
/// who seals: the author's key and what the seal signs
pub struct Author {
    pub index: u16,
    pub key: BandersnatchPubKey,
    pub input: Vec<u8>,
}
pub fn seal(b: &mut Block, a: &Author) {
    b.header.data.author_index = a.index;
    let y = ark_vrf::model::output(&a.key.0 .0, &a.input);
    b.header.data.vrf_signature = vrf(&a.key, &cat(X_E, &y, &[]), &[]);
    let ad = b.header.data.encode().unwrap();
    b.header.block_seal = vrf(&a.key, &a.input, &ad);
}
/// an unsealed child of the chain's tip
pub fn child(c: &Chain, slot: u32) -> Block {
    let mut b = Block::default();
    b.header.data.parent_hash = c.tip.hash().unwrap();
    b.header.data.prior_state_root = c.root.clone();
    b.header.data.timeslot_index = slot;
    if slot / E > E0 {
        let v: Vec<EpochMarkerValidatorKey> =
            keys(&c.s.staging_set).iter().map(|k| EpochMarkerValidatorKey { bandersnatch: k.bandersnatch.clone(), ed25519: k.ed25519.clone() }).collect();
        b.header.data.epoch_marker =
            Some(EpochMarker { entropy: c.s.entropy.0[0].clone(), tickets_entropy: c.s.entropy.0[1].clone(), validators: v.try_into().unwrap() });
    }
    b.header.data.extrinsic_hash = b.extrinsics.hash().unwrap();
    b
}
const ATT: u8 = 1;
/// sealing by keys, by tickets; the author of a slot
pub fn with_keys(s: &mut SimpleStates) {
    let k: Vec<BandersnatchPubKey> = (0..12).map(|i| keys(&s.active_set)[[0, 1, 2, 5, 4, 3, 3, 2, 0, 0, 1, 1][i]].bandersnatch.clone()).collect();
    s.safrole.slot_sealers = SlotSealers::BandersnatchPubKeys(EpochFallbackKeys::try_from(k).unwrap());
}
pub fn with_tickets(s: &mut SimpleStates) {
    let input = cat(X_T, &s.entropy.0[3].0, &[ATT]);
    let v: Vec<Ticket> = (0..12)
        .map(|i| {
            let k = &keys(&s.active_set)[[0, 1, 2, 5, 4, 3, 3, 2, 0, 0, 1, 1][i]].bandersnatch;
            Ticket { id: h32(ark_vrf::model::output(&k.0 .0, &input)), attempt: ATT }
        })
        .collect();
    s.safrole.slot_sealers = SlotSealers::Tickets(EpochTickets::try_from(v).unwrap());
}
pub fn author(c: &Chain, slot: u32) -> Author {
    if slot / E > E0 {
        let key = fallback(&c.s.safrole.pending_set, &c.s.entropy.0[1].0, slot % E);
        let index = keys(&c.s.safrole.pending_set).iter().position(|k| k.bandersnatch == key).unwrap() as u16;
        return Author { index, key, input: cat(X_F, &c.s.entropy.0[2].0, &[]) };
    }
    let index = [0, 1, 2, 5, 4, 3, 3, 2, 0, 0, 1, 1][(slot % E) as usize];
    let key = keys(&c.s.active_set)[index as usize].bandersnatch.clone();
    let input = match c.s.safrole.slot_sealers {
        SlotSealers::Tickets(_) => cat(X_T, &c.s.entropy.0[3].0, &[ATT]),
        _ => cat(X_F, &c.s.entropy.0[3].0, &[]),
    };
    Author { index, key, input }
}
fn unwanted() -> fr_block::types::extrinsics::preimages::PreimagesXtEntry {
    fr_block::types::extrinsics::preimages::PreimagesXtEntry { service_id: 7, preimage_data: Octets::from_vec(vec![1, 2, 3]) }
}
pub fn untouched(c: &Chain, b: Option<&Block>) {
    let m = c.node.state_manager();
    sx::check!(c.node.header_db().get_best_header() == c.tip);
    sx::check!(run(m.merkle_root()).unwrap() == c.root);
    sx::check!(run(m.get_timeslot()).unwrap().0 == T0);
    sx::check!(run(m.get_safrole()).unwrap() == c.s.safrole);
    sx::check!(run(m.get_block_history()).unwrap() == c.s.block_history);
    sx::check!(run(m.get_epoch_entropy()).unwrap().0 == c.s.entropy.0);
    if let Some(b) = b {
        let h = b.header.hash().unwrap();
        sx::check!(run(c.node.header_db().get_header(&h)).unwrap().is_none());
        sx::check!(run(c.node.post_state_root_db().get_post_state_root(&h)).unwrap().is_none());
    }
}
pub fn taken(c: &Chain, b: &Block) {
    let m = c.node.state_manager();
    let h = b.header.hash().unwrap();
    let slot = b.header.data.timeslot_index;
    sx::check!(c.node.header_db().get_best_header() == b.header);
    let root = run(m.merkle_root()).unwrap();
    sx::check!(root != c.root);
    sx::check!(run(c.node.post_state_root_db().get_post_state_root(&h)).unwrap() == Some(root));
    sx::check!(run(c.node.header_db().get_header(&h)).unwrap() == Some(b.header.clone()));
    sx::check!(run(m.get_timeslot_clean()).unwrap().0 == slot);
    let bh = run(m.get_block_history_clean()).unwrap();
    sx::check!(bh.get_latest_history().unwrap().header_hash == h);
}

//@ N01 covers=22 time=120 tmul=4
//@ bound: one block offered to a node whose best block is at phase 4 of an epoch: sealed by key, by ticket, or first of the next epoch; faultless or with one fault out of nineteen, where a corrupted octet takes any other value
//@ assume: ideal VRF (model); Blake2b collision-free; the six-validator configuration
#[no_mangle]
pub extern "C" fn n01_one_block() {
    let mut s = base(T0);
    let mode = sx::pick(0, 2);
    if mode == 1 {
        with_tickets(&mut s)
    } else {
        with_keys(&mut s)
    }
    let c = chain(s);
    let slot = if mode == 2 { (E0 + 1) * E } else { T0 + 1 };
    sx::set_clock(1_735_732_800 + 6 * slot as u64);
    let fault = sx::pick(0, 19);
    let x = sx::u8();
    sx::assume(x != 0);
    let mut b = child(&c, slot);
    let mut a = author(&c, slot);
    let d = &mut b.header.data;
    let at = 9; // the octet corrupted
    match fault {
        1 => d.parent_hash.0[at] ^= x,
        2 => d.prior_state_root.0[at] ^= x,
        3 => d.extrinsic_hash.0[at] ^= x,
        4 => d.parent_hash = h32([0; 32]),
        5 => d.timeslot_index = T0,
        6 => d.timeslot_index = slot + 1, // not begun
        7 => match &mut d.epoch_marker {
            Some(m) => m.entropy.0[at] ^= x,
            None => {
                d.epoch_marker =
                    Some(EpochMarker { entropy: h32(lab(9, 0)), tickets_entropy: h32(lab(9, 1)), validators: Default::default() })
            }
        },
        8 => match &mut d.epoch_marker {
            Some(m) => m.validators[2].ed25519.0 .0[at] ^= x,
            None => d.winning_tickets_marker = Some(Default::default()),
        },
        9 => d.offenders_marker = vec![ed(lab(1, 1))],
        10 => {
            // another validator seals
            a.index = (a.index + 1) % 6;
            let set = if mode == 2 { &c.s.safrole.pending_set } else { &c.s.active_set };
            a.key = keys(set)[a.index as usize].bandersnatch.clone();
        }
        11 => a.index = 6 + (x & 0x7f) as u16,
        12 => a.input[at + 20] ^= x,
        13 => {
            // work that fails after the header is accepted
            b.extrinsics.preimages.items = vec![unwanted()];
            d.extrinsic_hash = b.extrinsics.hash().unwrap();
        }
        14 => b.extrinsics.preimages.items = vec![unwanted()],
        _ => (),
    }
    seal(&mut b, &a);
    match fault {
        15 => b.header.block_seal.0 .0[at] ^= x,
        16 => b.header.block_seal.0 .0[32 + at] ^= x,
        17 => b.header.data.vrf_signature.0 .0[32 + at] ^= x,
        18 => {
            // VRF of another input, sealed properly
            b.header.data.vrf_signature = vrf(&a.key, &cat(X_E, &lab(1, x), &[]), &[]);
            let ad = b.header.data.encode().unwrap();
            b.header.block_seal = vrf(&a.key, &a.input, &ad);
        }
        19 => {
            // sealed for the slot after, which has the same author
            let mut b2 = b.clone();
            b2.header.data.timeslot_index += 1;
            seal(&mut b2, &a);
            b.header.block_seal = b2.header.block_seal;
        }
        _ => (),
    }
    let w0 = rocksdb::model::writes();
    feed(&c.node, vec![b.clone()]);
    sx::cover(1 + fault as u32);
    if fault == 0 {
        taken(&c, &b);
        if mode > 0 {
            sx::cover(20 + mode as u32);
        }
    } else {
        let free = [1, 2, 3, 7, 8, 11, 12, 15, 16, 17, 18].contains(&fault);
        untouched(&c, if free { None } else { Some(&b) });
        sx::check!(rocksdb::model::writes() == w0);
    }
}

//@ N01 covers=3 time=120 tmul=4
//@ bound: up to two rejected blocks (wrong parent, wrong seal, wrong marker, rejected extrinsic; in this epoch or the first of the next) before, and one after, an acceptable block and its child
//@ assume: ideal VRF (model); Blake2b collision-free
#[no_mangle]
pub extern "C" fn n01_interleaved() {
    let mut s = base(T0);
    with_keys(&mut s);
    let c = chain(copy(&s));
    let next = (E0 + 1) * E;
    sx::set_clock(1_735_732_800 + 6 * (next + 5) as u64);
    let bad = |c: &Chain, kind: u64, slot: u32| {
        let mut b = child(c, slot);
        let a = author(c, slot);
        match kind {
            1 => b.header.data.parent_hash = h32(lab(0x77, 1)),
            2 => b.header.data.offenders_marker = vec![ed(lab(1, 1))],
            3 => {
                b.extrinsics.preimages.items = vec![unwanted()];
                b.header.data.extrinsic_hash = b.extrinsics.hash().unwrap();
            }
            _ => (),
        }
        seal(&mut b, &a);
        if kind == 4 {
            b.header.block_seal.0 .0[40] ^= 1;
        }
        b
    };
    let slot = if sx::pick(0, 1) == 0 { T0 + 1 } else { next };
    // the acceptable block alone, on another node
    let other = chain(s);
    let good = bad(&other, 0, slot);
    feed(&other.node, vec![good.clone()]);
    taken(&other, &good);
    let root = run(other.node.state_manager().merkle_root()).unwrap();

    let mut list = vec![];
    let n = sx::pick(1, sx::bound(1, 2) as u64);
    for _ in 0..n {
        let at = if sx::pick(0, 1) == 0 { T0 + 1 } else { next };
        list.push(bad(&c, sx::pick(1, 4), at));
    }
    list.push(good.clone());
    // a second child of the same parent comes too late
    if sx::pick(0, 1) == 1 {
        sx::cover(1);
        list.push(bad(&c, 0, next + 1));
    }
    feed(&c.node, list);
    taken(&c, &good);
    sx::check!(run(c.node.state_manager().merkle_root()).unwrap() == root);
    sx::cover(if slot == next { 2 } else { 3 });
}
