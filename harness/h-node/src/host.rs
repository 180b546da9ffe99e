//! Host calls of the accumulation context: the machine state before the call, and a model of the accounts.
pub use crate::env::*;
pub use crate::preimages::slots;
pub use fr_pvm_core::state::{memory::*, vm_state::VMState};
pub use fr_pvm_host::{
    context::{partial_state::*, AccumulateHostContext, AccumulateHostContextPair, InvocationContext},
    error::HostCallError,
    host_functions::{accumulate::AccumulateHostFunction, general::GeneralHostFunction, HostCallResult},
};
pub use fr_pvm_types::{exit_reason::ExitReason, invoke_args::*};
pub use fr_state::state_utils::*;
pub use std::collections::BTreeMap;

pub type Gen = GeneralHostFunction<StateManager>;
pub type Acc = AccumulateHostFunction<StateManager>;
pub type Ctx = InvocationContext<StateManager>;

pub const NONE: u64 = u64::MAX;
pub const WHAT: u64 = u64::MAX - 1;
pub const OOB: u64 = u64::MAX - 2;
pub const WHO: u64 = u64::MAX - 3;
pub const FULL: u64 = u64::MAX - 4;
pub const CORE: u64 = u64::MAX - 5;
pub const CASH: u64 = u64::MAX - 6;
pub const LOW: u64 = u64::MAX - 7;
pub const HUH: u64 = u64::MAX - 8;
pub const OK: u64 = 0;

/// the service whose code runs
pub const HOST: u32 = 70_000;
/// another one
pub const PEER: u32 = 300;
/// the readable page, the writable page after it, and the end of the memory
pub const RO: u64 = 0x10000;
pub const RW: u64 = 0x11000;
pub const END: u64 = 0x12000;

pub fn readable(off: u64, len: u64) -> bool {
    len == 0 || off >= RO && off < END && len <= END - off
}
pub fn writable(off: u64, len: u64) -> bool {
    len == 0 || off >= RW && off < END && len <= END - off
}
/// one account, as the specification describes it
#[derive(Clone)]
pub struct Acct {
    pub meta: AccountMetadata,
    pub storage: BTreeMap<Vec<u8>, Vec<u8>>,
    pub held: BTreeMap<Vec<u8>, ()>,
    pub asked: BTreeMap<(Vec<u8>, u32), Vec<u32>>,
}
impl Acct {
    pub fn threshold(&self) -> u64 {
        (100 + 10 * self.meta.items_footprint as u64 + self.meta.octets_footprint).saturating_sub(self.meta.gratis_storage_offset)
    }
}
/// metadata of a solvent account, with any figures; little or any kind of storage used and paid for
pub fn plain(tag: u8) -> Acct {
    someone(tag, 100, 0)
}
pub fn anyone(tag: u8) -> Acct {
    someone(tag, [100, 0xff_ffff][sx::pick_usize(0, 1)], [0, 50_000, 1 << 50][sx::pick_usize(0, 2)])
}
fn someone(tag: u8, items: u32, gratis: u64) -> Acct {
    let mut meta = AccountMetadata::default();
    meta.code_hash = h32(lab(tag, 1));
    meta.gas_limit_accumulate = sx::u64();
    meta.gas_limit_on_transfer = sx::u64();
    meta.octets_footprint = 100_000 + sx::u16() as u64;
    meta.items_footprint = items;
    meta.gratis_storage_offset = gratis;
    meta.created_at = sx::u32();
    meta.last_accumulate_at = sx::u32();
    meta.parent_service_id = sx::u32();
    let mut a = Acct { meta, storage: BTreeMap::new(), held: BTreeMap::new(), asked: BTreeMap::new() };
    // from just enough to plenty
    a.meta.balance = a.threshold() + (sx::u64() >> 1);
    a
}
pub fn seed_acct(mut s: Seed, id: u32, a: &Acct) -> Seed {
    s = s.put(get_account_metadata_state_key(id).unwrap(), &a.meta);
    for (k, v) in &a.storage {
        s = s.put(get_account_storage_state_key(id, &Octets::from_vec(k.clone())).unwrap(), &AccountStorageEntry::new(Octets::from_vec(v.clone())));
    }
    for b in a.held.keys() {
        s = s.put(get_account_preimage_state_key(id, &hash(b)).unwrap(), &AccountPreimagesEntry::new(Octets::from_vec(b.clone())));
    }
    for ((b, n), t) in &a.asked {
        s = s.put(get_account_lookups_state_key(id, &(hash(b), *n)).unwrap(), &slots(t));
    }
    s
}

pub fn poke(m: &mut Memory, at: u64, b: &[u8]) {
    let (from, to) = (at as u32 & !4095, at as u32 + b.len() as u32);
    if b.is_empty() {
        return;
    }
    m.set_address_range_access(from..to, AccessType::ReadWrite).unwrap();
    m.write_bytes(at as u32, b).unwrap();
    m.set_address_range_access(RO as u32..RW as u32, AccessType::ReadOnly).unwrap();
    m.set_address_range_access(RW as u32..END as u32, AccessType::ReadWrite).unwrap();
    m.set_address_range_access(END as u32..END as u32 + 4096, AccessType::Inaccessible).unwrap();
}
pub struct Host {
    pub m: Arc<StateManager>,
    pub ctx: Ctx,
    pub vm: VMState,
    pub slot: u32,
    pub accts: BTreeMap<u32, Acct>,
}
impl Host {
    pub fn new(accts: BTreeMap<u32, Acct>, privileges: PrivilegedServices, slot: u32) -> Self {
        let mut s = Seed::new().with(&privileges).with(&AuthQueue::default()).with(&Timeslot(50));
        for (id, a) in &accts {
            s = seed_acct(s, *id, a);
        }
        let m = s.manager();
        let partial = run(AccumulatePartialState::new(m.clone())).unwrap();
        // (the slot given here decides only the number of the next new account)
        let x = run(AccumulateHostContext::new(m.clone(), partial, HOST, h32(lab(9, 9)), 50, AccumulateInvokeArgs::default())).unwrap();
        let y = x.clone();
        let ctx = InvocationContext::X_A(AccumulateHostContextPair { x: Box::new(x), y: Box::new(y) });
        let mut memory = Memory::new(1 << 32, 4096);
        memory.set_address_range_access(RO as u32..RW as u32, AccessType::ReadOnly).unwrap();
        memory.set_address_range_access(RW as u32..END as u32, AccessType::ReadWrite).unwrap();
        let vm = VMState { regs: std::array::from_fn(|i| 0xaa00 + i as u64), memory, pc: 0, gas_counter: 1_000_000 };
        Host { m, ctx, vm, slot, accts }
    }
    /// puts octets into the memory, readable or not
    pub fn poke(&mut self, at: u64, b: &[u8]) {
        poke(&mut self.vm.memory, at, b)
    }
    pub fn sandbox(&mut self) -> &mut AccountsSandboxMap<StateManager> {
        self.ctx.get_mut_accounts_sandbox().unwrap()
    }
    pub fn x(&mut self) -> &mut AccumulateHostContext<StateManager> {
        self.ctx.get_mut_accumulate_x().unwrap()
    }
    pub fn write(&mut self) -> HostCallResult {
        run(Gen::host_write(HOST, &self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn read(&mut self) -> HostCallResult {
        run(Gen::host_read(HOST, &self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn lookup(&mut self) -> HostCallResult {
        run(Gen::host_lookup(HOST, &self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn info(&mut self) -> HostCallResult {
        run(Gen::host_info(HOST, &self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn query(&mut self) -> HostCallResult {
        run(Acc::host_query(&self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn solicit(&mut self) -> HostCallResult {
        run(Acc::host_solicit(&self.vm, self.m.clone(), &mut self.ctx, self.slot)).unwrap()
    }
    pub fn forget(&mut self) -> HostCallResult {
        run(Acc::host_forget(&self.vm, self.m.clone(), &mut self.ctx, self.slot)).unwrap()
    }
    pub fn provide(&mut self) -> HostCallResult {
        run(Acc::host_provide(HOST, &self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn new_account(&mut self) -> HostCallResult {
        run(Acc::host_new(&self.vm, self.m.clone(), &mut self.ctx, self.slot)).unwrap()
    }
    pub fn upgrade(&mut self) -> HostCallResult {
        run(Acc::host_upgrade(&self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn transfer(&mut self) -> HostCallResult {
        run(Acc::host_transfer(&self.vm, self.m.clone(), &mut self.ctx)).unwrap()
    }
    pub fn eject(&mut self) -> HostCallResult {
        run(Acc::host_eject(&self.vm, self.m.clone(), &mut self.ctx, self.slot)).unwrap()
    }
    /// what the call's context holds is what the model holds
    pub fn settled(&mut self) {
        let accts = self.accts.clone();
        for (id, a) in &accts {
            self.same_account(*id, Some(a));
        }
    }
    pub fn same_account(&mut self, id: u32, a: Option<&Acct>) {
        let m = self.m.clone();
        let got = run(self.sandbox().get_account_metadata(m, id)).unwrap().cloned();
        sx::check!(got.is_some() == a.is_some());
        if let (Some(g), Some(a)) = (got, a) {
            same_meta(&g, &a.meta);
        }
    }
    pub fn same_storage(&mut self, id: u32, key: &[u8]) {
        let m = self.m.clone();
        let got = run(self.sandbox().get_account_storage_entry(m, id, &Octets::from_vec(key.to_vec()))).unwrap();
        let want = self.accts[&id].storage.get(key);
        sx::check!(got.is_some() == want.is_some());
        if let (Some(g), Some(w)) = (got, want) {
            sx::check!(g.value.len() == w.len());
            sx::check!(sx::same(&g.value, w));
        }
    }
    pub fn same_blob(&mut self, id: u32, b: &[u8], n: u32) {
        let m = self.m.clone();
        let h = hash(b);
        let got = run(self.sandbox().get_account_preimages_entry(m.clone(), id, &h)).unwrap();
        sx::check!(got.is_some() == self.accts[&id].held.contains_key(b));
        if let Some(g) = got {
            sx::check!(g.value.as_slice() == b);
        }
        let got = run(self.sandbox().get_account_lookups_entry(m, id, &(h, n))).unwrap();
        let want = self.accts[&id].asked.get(&(b.to_vec(), n));
        sx::check!(got.is_some() == want.is_some());
        if let (Some(g), Some(w)) = (got, want) {
            sx::check!(g.value.len() == w.len());
            for (x, y) in g.value.iter().zip(w) {
                sx::check!(x.slot() == *y);
            }
        }
    }
}
pub fn same_meta(a: &AccountMetadata, b: &AccountMetadata) {
    sx::check!(a.version == b.version);
    sx::check!(a.code_hash == b.code_hash);
    sx::check!(a.balance == b.balance);
    sx::check!(a.gas_limit_accumulate == b.gas_limit_accumulate);
    sx::check!(a.gas_limit_on_transfer == b.gas_limit_on_transfer);
    sx::check!(a.octets_footprint == b.octets_footprint);
    sx::check!(a.gratis_storage_offset == b.gratis_storage_offset);
    sx::check!(a.items_footprint == b.items_footprint);
    sx::check!(a.created_at == b.created_at);
    sx::check!(a.last_accumulate_at == b.last_accumulate_at);
    sx::check!(a.parent_service_id == b.parent_service_id);
}
pub fn panicked(r: &HostCallResult) -> bool {
    matches!(r.exit_reason, ExitReason::Panic)
}
/// the call returned `v` in the first register, charged `gas`, and wrote no memory
pub fn returned(r: &HostCallResult, v: u64, gas: u64) {
    sx::check!(matches!(r.exit_reason, ExitReason::Continue));
    sx::check!(r.vm_change.gas_charge == gas);
    sx::check!(r.vm_change.r7_write == Some(v));
    sx::check!(r.vm_change.memory_write.is_none());
}
/// octets returned in memory: `v[from..][..len]` at `at`
pub fn delivered(r: &HostCallResult, v: &[u8], from: u64, len: u64, at: u64) {
    sx::check!(matches!(r.exit_reason, ExitReason::Continue));
    sx::check!(r.vm_change.gas_charge == 10);
    sx::check!(r.vm_change.r7_write == Some(v.len() as u64));
    sx::check!(r.vm_change.r8_write.is_none());
    let w = r.vm_change.memory_write.as_ref();
    let d = w.map_or(&[][..], |w| w.write_data.as_slice());
    sx::check!(d.len() as u64 == len);
    if len > 0 {
        sx::check!(w.unwrap().buf_offset as u64 == at);
        for (x, y) in d.iter().zip(&v[sx::conc(from) as usize..]) {
            sx::check!(x == y);
        }
    }
}
/// an address where `len` octets can or cannot be accessed: in either page, over their border, over the end, beyond it,
/// in the low zone, over its border, and anywhere from 2^32 on
pub fn place() -> u64 {
    match sx::pick(0, 7) {
        0 => RO + 8,
        1 => RW + 64,
        2 => RW - 1,
        3 => END - 1,
        4 => END,
        5 => RO - 1,
        6 => 0,
        _ => {
            let hi = sx::u32();
            sx::assume(hi != 0);
            (hi as u64) << 32 | RO
        }
    }
}
