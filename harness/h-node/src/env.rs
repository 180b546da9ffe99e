//! The system under test over the environment models, and the vocabulary shared by the entries.
pub use fr_codec::prelude::*;
pub use fr_common::{ticket::Ticket, *};
pub use fr_crypto::types::*;
pub use fr_state::{
    cache::{CacheEntry, StateMut},
    manager::StateManager,
    state_utils::{SimpleStateComponent, SimpleStates, StateComponent},
    types::*,
};
use fr_config::StorageConfig;
pub use fr_storage::node_storage::NodeStorage;
pub use std::sync::Arc;

pub fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::model::block_on(f)
}
/// committed state entries, as the (warm) state cache of a node holds them
pub struct Seed(Vec<(StateKey, CacheEntry)>);
impl Seed {
    pub fn new() -> Self {
        Seed(vec![])
    }
    pub fn with<T: SimpleStateComponent>(self, v: &T) -> Self {
        let mut k = [0u8; 31];
        k[0] = T::STATE_KEY_CONSTANT.into();
        self.put(ByteArray(k), v)
    }
    pub fn put<T: StateComponent>(mut self, key: StateKey, v: &T) -> Self {
        self.0.push((key, CacheEntry::new(v.clone().into_entry_type())));
        self
    }
    pub fn node(self) -> Arc<NodeStorage> {
        mini_moka::model::warm(self.0);
        Arc::new(NodeStorage::new(StorageConfig::default()).unwrap())
    }
    pub fn manager(self) -> Arc<StateManager> {
        self.node().state_manager()
    }
}
pub fn seed_all(s: &SimpleStates) -> Seed {
    Seed::new()
        .with(&s.auth_pool)
        .with(&s.auth_queue)
        .with(&s.block_history)
        .with(&s.safrole)
        .with(&s.disputes)
        .with(&s.entropy)
        .with(&s.staging_set)
        .with(&s.active_set)
        .with(&s.past_set)
        .with(&s.reports)
        .with(&s.timeslot)
        .with(&s.privileges)
        .with(&s.onchain_statistics)
        .with(&s.accumulate_queue)
        .with(&s.accumulate_history)
        .with(&s.last_accumulate_outputs)
}

pub fn h32(b: [u8; 32]) -> Hash32 {
    ByteArray(b)
}
/// a recognisable 32-octet value
pub fn lab(tag: u8, i: u8) -> [u8; 32] {
    let mut b = [tag; 32];
    b[0] = i;
    b[1] = tag ^ 0x5a;
    b
}
pub fn ed(b: [u8; 32]) -> Ed25519PubKey {
    Ed25519PubKey(ByteArray(b))
}
pub fn bs(b: [u8; 32]) -> BandersnatchPubKey {
    BandersnatchPubKey(ByteArray(b))
}
/// validator `i` of the set named `tag`; all four keys differ between (tag, i)
pub fn vkey(tag: u8, i: u8) -> ValidatorKey {
    let mut k = ValidatorKey::default();
    k.bandersnatch = bs(lab(tag, i));
    k.ed25519 = ed(lab(tag ^ 0x80, i));
    k.bls.0 .0[0] = tag;
    k.bls.0 .0[1] = i;
    k.metadata.0 .0[0] = i;
    k.metadata.0 .0[1] = tag;
    k
}
pub fn vset(tag: u8) -> ValidatorKeySet {
    let mut s = ValidatorKeySet::default();
    for (i, k) in s.iter_mut().enumerate() {
        *k = vkey(tag, i as u8);
    }
    s
}
pub fn hash(b: &[u8]) -> Hash32 {
    fr_crypto::hash::<fr_crypto::Blake2b256>(b).unwrap()
}
/// what the ring commitment of a validator set is in the VRF model
pub fn ring_root(s: &ValidatorKeySet) -> [u8; 144] {
    let mut v = Vec::new();
    for k in s.iter() {
        let b = k.bandersnatch.0 .0;
        v.push(b);
    }
    ark_vrf::model::commitment(&v)
}
pub fn copy(s: &SimpleStates) -> SimpleStates {
    SimpleStates {
        auth_pool: s.auth_pool.clone(),
        auth_queue: s.auth_queue.clone(),
        block_history: s.block_history.clone(),
        safrole: s.safrole.clone(),
        disputes: s.disputes.clone(),
        entropy: s.entropy.clone(),
        staging_set: s.staging_set.clone(),
        active_set: s.active_set.clone(),
        past_set: s.past_set.clone(),
        reports: s.reports.clone(),
        timeslot: s.timeslot.clone(),
        privileges: s.privileges.clone(),
        onchain_statistics: s.onchain_statistics.clone(),
        accumulate_queue: s.accumulate_queue.clone(),
        accumulate_history: s.accumulate_history.clone(),
        last_accumulate_outputs: s.last_accumulate_outputs.clone(),
    }
}
