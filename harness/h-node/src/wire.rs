//! What a block, a report, a package and every state entry look like as octets.
use crate::env::*;
use fr_block::types::{
    block::*,
    extrinsics::{assurances::*, disputes::*, guarantees::*, preimages::*, tickets::*, Extrinsics, XtEntry},
};
use fr_limited_vec::FixedVec;
use std::collections::BTreeSet;
use sx::*;

/// Values being built together with the octets the specification gives them (Gray Paper, appendix C).
pub struct X {
    pub o: Vec<u8>,
    wide: u64,
    n: u64,
    sym: bool,
    k: u8,
}
impl X {
    /// every value symbolic; of the variable-length numbers the `wide`th takes all values, the others 64 to 127
    pub fn any(wide: u64) -> Self {
        X { o: vec![], wide, n: 0, sym: true, k: 0 }
    }
    /// distinct concrete octet strings (for what gets hashed), symbolic-free
    pub fn some() -> Self {
        X { o: vec![], wide: 0, n: 0, sym: false, k: 0 }
    }
    fn nat(&mut self, x: u64) {
        let mut l = 0usize;
        while l < 8 && x >> (7 * (l + 1)) != 0 {
            l += 1;
        }
        if l == 8 {
            self.o.push(0xff);
        } else {
            self.o.push((!(0xffu16 >> l)) as u8 | (x >> (8 * l)) as u8);
        }
        self.o.extend_from_slice(&x.to_le_bytes()[..l]);
    }
    fn num(&mut self) -> u64 {
        self.k += 1;
        if self.sym {
            sx::u64()
        } else {
            0x0102_0304_0506_0700 | self.k as u64
        }
    }
    /// fixed width
    pub fn f(&mut self, w: usize) -> u64 {
        let v = if w == 8 { self.num() } else { self.num() & ((1 << (8 * w)) - 1) };
        self.o.extend_from_slice(&v.to_le_bytes()[..w]);
        v
    }
    /// variable length, of a type of `w` octets
    pub fn c(&mut self, w: usize) -> u64 {
        self.n += 1;
        let v = match (self.n == self.wide, w) {
            (true, 8) => self.num(),
            (true, _) => self.num() & ((1 << (8 * w)) - 1),
            _ => 64 | (self.num() & 63),
        };
        self.nat(v);
        v
    }
    pub fn raw<const N: usize>(&mut self) -> [u8; N] {
        let mut b = [0u8; N];
        if self.sym {
            b = sx::bytes::<N>();
        } else {
            self.k += 1;
            for (i, x) in b.iter_mut().enumerate() {
                *x = self.k.wrapping_mul(37) ^ i as u8;
            }
        }
        self.o.extend_from_slice(&b);
        b
    }
    pub fn h(&mut self) -> Hash32 {
        h32(self.raw())
    }
    pub fn ed(&mut self) -> Ed25519PubKey {
        ed(self.raw())
    }
    pub fn bs(&mut self) -> BandersnatchPubKey {
        bs(self.raw())
    }
    pub fn sig(&mut self) -> Ed25519Sig {
        Ed25519Sig(ByteArray(self.raw()))
    }
    pub fn vrf(&mut self) -> BandersnatchSig {
        BandersnatchSig(ByteArray(self.raw()))
    }
    pub fn flag(&mut self) -> bool {
        let b = if self.sym { sx::bool() } else { self.num() & 1 == 1 };
        self.o.push(b as u8);
        b
    }
    pub fn blob(&mut self, most: u64) -> Octets {
        let n = sx::pick(0, most) as usize;
        self.nat(n as u64);
        self.fixed(n)
    }
    pub fn fixed(&mut self, n: usize) -> Octets {
        let v = if self.sym { sx::vec(n) } else { vec![n as u8; n] };
        self.o.extend_from_slice(&v);
        Octets::from_vec(v)
    }
    /// some or none
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut X) -> T) -> Option<T> {
        let some = sx::pick(0, 1) == 1;
        self.o.push(some as u8);
        if some {
            Some(f(self))
        } else {
            None
        }
    }
    /// up to `most` of them after their number
    pub fn seq<T>(&mut self, most: u64, f: impl Fn(&mut X) -> T) -> Vec<T> {
        let n = sx::pick(0, most);
        self.nat(n);
        self.times(n as usize, f)
    }
    pub fn some_of<T>(&mut self, n: usize, f: impl Fn(&mut X) -> T) -> Vec<T> {
        self.nat(n as u64);
        self.times(n, f)
    }
    pub fn times<T>(&mut self, n: usize, f: impl Fn(&mut X) -> T) -> Vec<T> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self));
        }
        v
    }
    /// up to two distinct hashes in ascending order after their number
    pub fn set(&mut self, most: u64) -> BTreeSet<Hash32> {
        let n = sx::pick(0, most);
        self.nat(n);
        let mut s = vec![];
        for i in 0..n {
            let mut b = [i as u8; 32];
            b[0] = 100 * i as u8 + if self.sym { sx::u8() % 100 } else { 5 };
            b[31] = if self.sym { sx::u8() } else { 9 };
            self.o.extend_from_slice(&b);
            s.push(h32(b));
        }
        s.reverse();
        s.into_iter().collect()
    }
}
/// encoding `v` gives `want`, and decoding that (with more behind it) gives `v` back and stops there
fn wire<T: JamEncode + JamDecode + PartialEq>(v: &T, want: &[u8]) {
    octets(v, want);
    let mut b = want.to_vec();
    b.push(sx::u8());
    let mut s = &b[..];
    match T::decode(&mut s) {
        Ok(x) => {
            check!(s.len() == 1);
            check!(x == *v);
        }
        Err(_) => check!(false),
    }
}
fn octets<T: JamEncode>(v: &T, want: &[u8]) {
    match v.encode() {
        Ok(e) => {
            check!(e.len() == want.len());
            check!(same(&e, want));
        }
        Err(_) => check!(false),
    }
}

fn context(x: &mut X) -> RefinementContext {
    RefinementContext {
        anchor_header_hash: x.h(),
        anchor_state_root: x.h(),
        anchor_beefy_root: x.h(),
        lookup_anchor_header_hash: x.h(),
        lookup_anchor_timeslot: x.f(4) as u32,
        prerequisite_work_packages: x.set(2),
    }
}
fn result(x: &mut X) -> WorkExecutionResult {
    let k = sx::pick(0, 6) as u8;
    x.o.push(k);
    match k {
        0 => WorkExecutionResult::Output(x.blob(2)),
        1 => WorkExecutionResult::out_of_gas(),
        2 => WorkExecutionResult::panic(),
        3 => WorkExecutionResult::wrong_exports_count(),
        4 => WorkExecutionResult::oversize(),
        5 => WorkExecutionResult::bad(),
        _ => WorkExecutionResult::big(),
    }
}
/// five variable-length numbers
fn work_digest(x: &mut X, full: bool) -> WorkDigest {
    WorkDigest {
        service_id: x.f(4) as u32,
        service_code_hash: x.h(),
        payload_hash: x.h(),
        accumulate_gas_limit: x.f(8),
        refine_result: if full {
            result(x)
        } else {
            x.o.push(2);
            WorkExecutionResult::panic()
        },
        refine_stats: RefineStats {
            refine_gas_used: x.c(8),
            imports_count: x.c(2) as u16,
            extrinsics_count: x.c(2) as u16,
            extrinsics_octets: x.c(4) as u32,
            exports_count: x.c(2) as u16,
        },
    }
}
fn specs(x: &mut X) -> AvailSpecs {
    AvailSpecs { work_package_hash: x.h(), work_bundle_length: x.f(4) as u32, erasure_root: x.h(), segment_root: x.h(), segment_count: x.f(2) as u16 }
}
/// two variable-length numbers, and those of the digests
fn work_report(x: &mut X, full: bool) -> WorkReport {
    let most = full as u64;
    WorkReport {
        specs: specs(x),
        refinement_context: if full {
            context(x)
        } else {
            let c = RefinementContext { anchor_header_hash: x.h(), anchor_state_root: x.h(), anchor_beefy_root: x.h(), lookup_anchor_header_hash: x.h(), lookup_anchor_timeslot: x.f(4) as u32, prerequisite_work_packages: BTreeSet::new() };
            x.o.push(0);
            c
        },
        core_index: x.c(2) as u16,
        authorizer_hash: x.h(),
        auth_gas_used: x.c(8),
        auth_trace: x.blob(most),
        segment_roots_lookup: {
            let n = if full { sx::pick(0, 2) } else { 0 };
            x.o.push(n as u8);
            let mut v = vec![];
            for i in 0..n {
                let mut b = [i as u8; 32];
                b[0] = 100 * i as u8 + if x.sym { sx::u8() % 100 } else { 1 };
                x.o.extend_from_slice(&b);
                let r = x.h();
                v.push((h32(b), r));
            }
            v.reverse();
            SegmentRootLookupTable::new(v.into_iter().collect())
        },
        digests: {
            x.o.push(1);
            WorkDigests::try_from(vec![work_digest(x, false)]).ok().unwrap()
        },
    }
}
fn ticket(x: &mut X) -> Ticket {
    Ticket { id: x.h(), attempt: x.c(1) as u8 }
}
fn judgment(x: &mut X) -> Judgment {
    Judgment { is_report_valid: x.flag(), voter: x.f(2) as u16, voter_signature: x.sig() }
}
fn verdict(x: &mut X) -> Verdict {
    Verdict { report_hash: x.h(), epoch_index: x.f(4) as u32, judgments: FixedVec::try_from(x.times(5, judgment)).ok().unwrap() }
}
fn culprit(x: &mut X) -> Culprit {
    Culprit { report_hash: x.h(), validator_key: x.ed(), signature: x.sig() }
}
fn fault(x: &mut X) -> Fault {
    Fault { report_hash: x.h(), is_report_valid: x.flag(), validator_key: x.ed(), signature: x.sig() }
}
fn disputes(x: &mut X, most: u64) -> DisputesXt {
    DisputesXt { verdicts: x.seq(most, verdict), culprits: x.seq(most, culprit), faults: x.seq(most, fault) }
}
fn credential(x: &mut X) -> GuaranteesCredential {
    GuaranteesCredential { validator_index: x.f(2) as u16, signature: x.sig() }
}
fn guarantee(x: &mut X) -> GuaranteesXtEntry {
    GuaranteesXtEntry { work_report: work_report(x, false), timeslot_index: x.f(4) as u32, credentials: x.seq(3, credential) }
}
fn assurance(x: &mut X) -> AssurancesXtEntry {
    AssurancesXtEntry {
        anchor_parent_hash: x.h(),
        assuring_cores_bitvec: bits(x),
        validator_index: x.f(2) as u16,
        signature: x.sig(),
    }
}
/// one bit per core, the lowest first
fn bits(x: &mut X) -> bitvec::vec::BitVec<u8, bitvec::order::Lsb0> {
    let n = CORE_COUNT.div_ceil(8);
    let mut b = vec![0xa5; n];
    // on a large network, the last octet
    if x.sym {
        b[n - 1] = sx::u8();
    }
    if CORE_COUNT % 8 != 0 {
        b[n - 1] &= (1 << (CORE_COUNT % 8)) - 1;
    }
    x.o.extend_from_slice(&b);
    let mut v = bitvec::vec::BitVec::from_vec(b);
    v.truncate(CORE_COUNT);
    v
}
fn ticket_xt(x: &mut X) -> TicketsXtEntry {
    TicketsXtEntry { entry_index: x.c(1) as u8, ticket_proof: BandersnatchRingVrfSig(Box::new(ByteArray(x.raw()))) }
}
fn preimage(x: &mut X) -> PreimagesXtEntry {
    PreimagesXtEntry { service_id: x.f(4) as u32, preimage_data: x.blob(2) }
}
fn marker_key(x: &mut X) -> EpochMarkerValidatorKey {
    EpochMarkerValidatorKey { bandersnatch: x.bs(), ed25519: x.ed() }
}
fn header(x: &mut X) -> BlockHeader {
    BlockHeader {
        data: BlockHeaderData {
            parent_hash: x.h(),
            prior_state_root: x.h(),
            extrinsic_hash: x.h(),
            timeslot_index: x.f(4) as u32,
            epoch_marker: x.opt(|x| EpochMarker {
                entropy: x.h(),
                tickets_entropy: x.h(),
                validators: FixedVec::try_from(x.times(VALIDATOR_COUNT, marker_key)).ok().unwrap(),
            }),
            winning_tickets_marker: x.opt(|x| FixedVec::try_from(x.times(EPOCH_LENGTH, ticket)).ok().unwrap()),
            author_index: x.f(2) as u16,
            vrf_signature: x.vrf(),
            offenders_marker: x.seq(2, |x| x.ed()),
        },
        block_seal: x.vrf(),
    }
}

//@ C08 covers=2 time=120 eager=1
//@ bound: one header; every field arbitrary; epoch marker and winning-tickets marker present or not, 0 to 2 offenders
#[no_mangle]
pub extern "C" fn c08_header() {
    let mut x = X::any(0);
    let h = header(&mut x);
    wire(&h, &x.o);
    if h.data.epoch_marker.is_some() && h.data.winning_tickets_marker.is_none() {
        sx::cover(1);
    }
    if h.data.epoch_marker.is_none() && h.data.winning_tickets_marker.is_some() {
        sx::cover(2);
    }
}
//@ C08 covers=7 time=200 eager=1
//@ bound: one extrinsic entry of each kind with arbitrary fields: preimages of 0 to 2 octets, 0 to 3 credentials, a report with one digest
#[no_mangle]
pub extern "C" fn c08_extrinsic_entries() {
    let kind = sx::pick(1, 7);
    let mut x = X::any((kind == 1) as u64);
    match kind {
        1 => {
            let v = ticket_xt(&mut x);
            wire(&v, &x.o)
        },
        2 => {
            let v = preimage(&mut x);
            wire(&v, &x.o)
        }
        3 => {
            let v = guarantee(&mut x);
            wire(&v, &x.o)
        }
        4 => {
            let v = assurance(&mut x);
            wire(&v, &x.o)
        }
        5 => {
            let v = verdict(&mut x);
            wire(&v, &x.o)
        }
        6 => {
            let v = culprit(&mut x);
            wire(&v, &x.o)
        }
        _ => {
            let v = fault(&mut x);
            wire(&v, &x.o)
        }
    }
    sx::cover(kind as u32);
}
//@ C08 covers=9 time=200 eager=1
//@ bound: one work report with one digest; every field arbitrary, one variable-length number at a time over its whole range; 0 to 2 prerequisites and lookup entries
#[no_mangle]
pub extern "C" fn c08_report() {
    // the numbers, or the containers
    if sx::pick(0, 1) == 0 {
        let wide = sx::pick(1, 7);
        let mut x = X::any(wide);
        let r = work_report(&mut x, false);
        wire(&r, &x.o);
        sx::cover(wide as u32);
    } else {
        let mut x = X::any(0);
        let r = work_report(&mut x, true);
        wire(&r, &x.o);
        if r.segment_roots_lookup.len() == 2 && r.refinement_context.prerequisite_work_packages.len() == 1 {
            sx::cover(8);
        }
        if r.auth_trace.len() == 1 {
            sx::cover(9);
        }
    }
}
//@ C08 covers=9 time=120 eager=1
//@ bound: one work digest, every field arbitrary, every kind of result; any octet as the kind of a decoded result
#[no_mangle]
pub extern "C" fn c08_digest() {
    let k = sx::pick(0, 1);
    if k == 0 {
        let mut x = X::any(0);
        let d = work_digest(&mut x, true);
        let kind = x.o[76];
        wire(&d, &x.o);
        sx::cover(1 + kind as u32);
    } else {
        // 0: output, 1..6: an error of one octet; nothing else is a result
        let b = [sx::u8(), sx::u8() & 1, sx::u8()];
        let mut s = &b[..];
        let r = WorkExecutionResult::decode(&mut s);
        check!(r.is_ok() == (b[0] <= 6));
        match r {
            Ok(r) => {
                let mut used = b[..3 - s.len()].to_vec();
                octets(&r, &used);
                used[0] = 0;
                sx::cover(8);
            }
            Err(_) => sx::cover(9),
        }
    }
}
//@ C08 covers=4 time=200 eager=1
//@ bound: one work package of 0 or 1 items, every field arbitrary; tokens and payloads of 0 or 1 octets, 0 to 2 imports by package or root, 0 to 2 extrinsics
#[no_mangle]
pub extern "C" fn c08_package() {
    let mut x = X::any(0);
    if sx::pick(0, 1) == 0 {
        let p = WorkPackage {
            authorizer_service_id: x.f(4) as u32,
            auth_code_hash: x.h(),
            context: context(&mut x),
            auth_token: x.blob(1),
            config_blob: x.blob(1),
            work_items: WorkItems::try_from(x.seq(1, |x| item(x, 0))).ok().unwrap(),
        };
        wire(&p, &x.o);
        sx::cover(1 + p.work_items.len() as u32);
    } else {
        let i = item(&mut x, 2);
        wire(&i, &x.o);
        if i.import_segment_ids.len() == 2 {
            sx::cover(3);
        }
        if i.extrinsic_data_info.len() == 1 {
            sx::cover(4);
        }
    }
}
fn item(x: &mut X, most: u64) -> WorkItem {
    WorkItem {
        service_id: x.f(4) as u32,
        service_code_hash: x.h(),
        refine_gas_limit: x.f(8),
        accumulate_gas_limit: x.f(8),
        export_segment_count: x.f(2) as u16,
        payload_blob: x.blob(1),
        import_segment_ids: x.seq(most, |x| {
            let h = x.h();
            let n = sx::u16() & 0x7fff;
            let pkg = sx::pick(0, 1) == 1;
            x.o.extend_from_slice(&(if pkg { n | 0x8000 } else { n }).to_le_bytes());
            ImportInfo { work_package_id: if pkg { WorkPackageId::WorkPackageHash(h) } else { WorkPackageId::SegmentRoot(h) }, item_index: n }
        }),
        extrinsic_data_info: x.seq(most, |x| ExtrinsicInfo { blob_hash: x.h(), blob_length: x.f(4) as u32 }),
    }
}
//@ C08 covers=8 time=120 eager=1
//@ bound: one block, every field arbitrary, one entry in one of the seven extrinsic sequences or in all of them
#[no_mangle]
pub extern "C" fn c08_block() {
    let mut x = X::any(0);
    let only = sx::pick(0, 7);
    let b = Block { header: plain_header(&mut x), extrinsics: extrinsics(&mut x, only) };
    wire(&b, &x.o);
    sx::cover(1 + only as u32);
}
fn plain_header(x: &mut X) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.data.parent_hash = x.h();
    h.data.prior_state_root = x.h();
    h.data.extrinsic_hash = x.h();
    h.data.timeslot_index = x.f(4) as u32;
    x.o.extend_from_slice(&[0, 0]);
    h.data.author_index = x.f(2) as u16;
    h.data.vrf_signature = x.vrf();
    x.o.push(0);
    h.block_seal = x.vrf();
    h
}
/// one entry in the `only`th sequence, or in each
fn extrinsics(x: &mut X, only: u64) -> Extrinsics {
    let n = |i: u64| (only == 0 || only == i) as usize;
    Extrinsics {
        tickets: TicketsXt { items: x.some_of(n(1), ticket_xt) },
        preimages: PreimagesXt { items: x.some_of(n(2), preimage) },
        guarantees: GuaranteesXt { items: GuaranteesXtEntries::try_from(x.some_of(n(3), guarantee)).ok().unwrap() },
        assurances: AssurancesXt { items: AssurancesXtEntries::try_from(x.some_of(n(4), assurance)).ok().unwrap() },
        disputes: DisputesXt { verdicts: x.some_of(n(5), verdict), culprits: x.some_of(n(6), culprit), faults: x.some_of(n(7), fault) },
    }
}
//@ C08 covers=3 time=300
//@ bound: headers with and without markers, offenders; 0 to 2 entries in one extrinsic sequence of the five; concrete field values
//@ assume: Blake2b is the hash function it implements (its own code runs on concrete octets)
#[no_mangle]
pub extern "C" fn c08_hashes() {
    match sx::pick(0, 2) {
        0 => {
            let mut x = X::some();
            let h = header(&mut x);
            check!(h.hash().ok() == Some(hash(&x.o)));
            sx::cover(1);
        }
        1 => {
            let which = sx::pick(0, 4);
            let mut e = Extrinsics::default();
            let mut all = vec![];
            for i in 0..5 {
                let most = if i == which { 2 } else { 0 };
                let mut x = X::some();
                match i {
                    0 => e.tickets.items = x.seq(most, ticket_xt),
                    1 => e.preimages.items = x.seq(most, preimage),
                    2 => {
                        // reports go in by their hashes
                        let n = sx::pick(0, most);
                        x.nat(n);
                        let mut v = vec![];
                        for _ in 0..n {
                            let mut r = X::some();
                            r.k = 100;
                            let work_report = work_report(&mut r, false);
                            x.o.extend_from_slice(&hash(&r.o).0);
                            v.push(GuaranteesXtEntry { work_report, timeslot_index: x.f(4) as u32, credentials: x.seq(2, credential) });
                        }
                        e.guarantees.items = GuaranteesXtEntries::try_from(v).ok().unwrap();
                    }
                    3 => e.assurances.items = AssurancesXtEntries::try_from(x.seq(most, assurance)).ok().unwrap(),
                    _ => e.disputes = disputes(&mut x, most / 2),
                }
                all.extend_from_slice(&hash(&x.o).0);
            }
            check!(e.hash().ok() == Some(hash(&all)));
            sx::cover(2);
        }
        _ => {
            let mut x = X::some();
            let r = work_report(&mut x, true);
            check!(r.encode().ok().map(|b| hash(&b)) == Some(hash(&x.o)));
            let mut x = X::some();
            let p = preimage(&mut x);
            check!(p.hash().ok() == Some(hash(&x.o)));
            sx::cover(3);
        }
    }
}
//@ C08 covers=1 time=60 cfg=full eager=1
//@ bound: one assurance of a network of 341 cores, any of the last five assured or not
#[no_mangle]
pub extern "C" fn c08_full_assurance() {
    let mut x = X::any(0);
    let a = assurance(&mut x);
    check!(x.o.len() == 32 + 43 + 2 + 64);
    wire(&a, &x.o);
    sx::cover(1);
}

// ---- the state ----
use fr_state::state_utils::*;

/// the entry as it is stored, and back
fn entry<T: SimpleStateComponent>(v: T, key: u8, want: &[u8]) {
    let k = get_simple_state_key(T::STATE_KEY_CONSTANT);
    check!(k.0[0] == key);
    check!(same(&k.0[1..], &[0; 30]));
    stored(v, want);
}
fn stored<T: StateComponent>(v: T, want: &[u8]) {
    octets(&v, want);
    let mut s = want;
    match T::decode(&mut s) {
        Ok(x) => {
            check!(s.is_empty());
            check!(x == v);
        }
        Err(_) => check!(false),
    }
    octets(&v.into_entry_type(), want);
}
fn validator(x: &mut X) -> ValidatorKey {
    let mut k = ValidatorKey::default();
    k.bandersnatch = x.bs();
    k.ed25519 = x.ed();
    k.bls.0 = ByteArray(x.raw());
    k.metadata.0 = ByteArray(x.raw());
    k
}
fn validators(x: &mut X) -> ValidatorKeySet {
    let mut s = ValidatorKeySet::default();
    for k in s.iter_mut() {
        *k = validator(x);
    }
    s
}
fn activity(x: &mut X) -> ValidatorStatsEntry {
    ValidatorStatsEntry {
        blocks_produced_count: x.f(4) as u32,
        tickets_count: x.f(4) as u32,
        preimages_count: x.f(4) as u32,
        preimage_data_octets_count: x.f(4) as u32,
        guarantees_count: x.f(4) as u32,
        assurances_count: x.f(4) as u32,
    }
}
fn fv<T: Clone + Default + std::fmt::Debug, const N: usize>(v: Vec<T>) -> FixedVec<T, N> {
    match FixedVec::try_from(v) {
        Ok(v) => v,
        Err(_) => {
            check!(false);
            FixedVec::default()
        }
    }
}

//@ S03 covers=12 time=200 eager=1
//@ bound: one value of every state component with arbitrary field values; 0 to 2 elements in the variable parts
#[no_mangle]
pub extern "C" fn s03_components() {
    let which = sx::pick(1, 12);
    let mut x = X::any(0);
    match which {
        1 => {
            let v = AuthPool(fv(x.times(CORE_COUNT, |x| fr_limited_vec::LimitedVec::try_from(x.seq(2, |x| x.h())).ok().unwrap())));
            entry(v, 1, &x.o)
        }
        2 => {
            let v = AuthQueue(fv(x.times(CORE_COUNT, |x| fv(x.times(80, |x| x.h())))));
            entry(v, 2, &x.o)
        }
        3 => {
            let v = DisputesState { good_set: x.seq(2, |x| x.h()), bad_set: x.seq(2, |x| x.h()), wonky_set: x.seq(2, |x| x.h()), punish_set: x.seq(2, |x| x.ed()) };
            entry(v, 5, &x.o)
        }
        4 => {
            let v = EpochEntropy([x.h(), x.h(), x.h(), x.h()]);
            entry(v, 6, &x.o)
        }
        5 => {
            let s = validators(&mut x);
            match sx::pick(0, 2) {
                0 => entry(StagingSet(s), 7, &x.o),
                1 => entry(ActiveSet(s), 8, &x.o),
                _ => entry(PastSet(s), 9, &x.o),
            }
        }
        6 => {
            let v = PendingReports(fv(x.times(CORE_COUNT, |x| {
                x.opt(|x| PendingReport { work_report: work_report(x, false), reported_timeslot: Timeslot(x.f(4) as u32) })
            })));
            entry(v, 10, &x.o)
        }
        7 => {
            let v = Timeslot(x.f(4) as u32);
            entry(v, 11, &x.o)
        }
        8 => {
            let mut v = privileges::PrivilegedServices::default();
            v.manager_service = x.f(4) as u32;
            v.assign_services = fv(x.times(CORE_COUNT, |x| x.f(4) as u32));
            v.designate_service = x.f(4) as u32;
            v.registrar_service = x.f(4) as u32;
            let n = sx::pick(0, 2);
            x.nat(n);
            let mut last = 0;
            for _ in 0..n {
                // keys in ascending order; one wide number each
                let s = last + 1 + (sx::u8() & 63) as u32;
                x.nat(s as u64);
                let g = sx::u8() as u64 & 63 | 1 << 40;
                x.nat(g);
                v.always_accumulate_services.insert(s, g);
                last = 64;
            }
            entry(v, 12, &x.o)
        }
        9 => {
            let k = sx::pick(0, 2);
            let mut n = 0;
            let v = AccumulateQueue {
                items: fv((0..EPOCH_LENGTH)
                    .map(|i| {
                        let many = if i == 3 { k } else { 0 };
                        n += many;
                        x.nat(many);
                        x.times(many as usize, |x| {
                            let r = work_report(x, false);
                            (r, x.set(1))
                        })
                    })
                    .collect()),
            };
            entry(v, 14, &x.o)
        }
        10 => {
            let v = AccumulateHistory { items: fv((0..EPOCH_LENGTH).map(|i| x.set(if i % 5 == 1 { 2 } else { 0 })).collect()) };
            entry(v, 15, &x.o)
        }
        11 => {
            let v = LastAccumulateOutputs(x.seq(2, |x| fr_pvm_types::invoke_results::AccumulationOutputPair { service: x.f(4) as u32, output_hash: x.h() }));
            entry(v, 16, &x.o)
        }
        _ => {
            let v = AccountMetadata {
                version: x.c(1) as u8,
                code_hash: x.h(),
                balance: x.f(8),
                gas_limit_accumulate: x.f(8),
                gas_limit_on_transfer: x.f(8),
                octets_footprint: x.f(8),
                gratis_storage_offset: x.f(8),
                items_footprint: x.f(4) as u32,
                created_at: x.f(4) as u32,
                last_accumulate_at: x.f(4) as u32,
                parent_service_id: x.f(4) as u32,
            };
            stored(v, &x.o);
        }
    }
    sx::cover(which as u32);
}
//@ S03 covers=4 time=200 eager=1
//@ bound: arbitrary pending keys and ring commitment; 12 tickets or 12 keys as sealers; 0 to 3 tickets accumulated, in any order
#[no_mangle]
pub extern "C" fn s03_safrole() {
    let mut x = X::any(0);
    let mut v = SafroleState::default();
    v.pending_set = validators(&mut x);
    v.ring_root.0 = x.raw();
    if sx::pick(0, 1) == 0 {
        x.o.push(0);
        v.slot_sealers = SlotSealers::Tickets(fv(x.times(EPOCH_LENGTH, ticket)));
        sx::cover(1);
    } else {
        x.o.push(1);
        v.slot_sealers = SlotSealers::BandersnatchPubKeys(fv(x.times(EPOCH_LENGTH, |x| x.bs())));
        sx::cover(2);
    }
    let n = sx::pick(0, 3);
    x.nat(n);
    let mut t = vec![];
    for i in 0..n {
        let mut b = [i as u8; 32];
        b[0] = 80 * i as u8 + sx::u8() % 80;
        x.o.extend_from_slice(&b);
        t.push(Ticket { id: h32(b), attempt: x.c(1) as u8 });
    }
    if sx::pick(0, 1) == 1 {
        t.reverse();
    }
    v.ticket_accumulator.add_multiple(t);
    entry(v, 4, &x.o);
    if n == 3 {
        sx::cover(3);
    }
    if n == 0 {
        sx::cover(4);
    }
}
//@ S03 covers=2 time=200 eager=1
//@ bound: 0 to 2 recent blocks with 0 to 2 packages each, arbitrary fields; 0 to 2 peaks, present or not, concrete
#[no_mangle]
pub extern "C" fn s03_history() {
    let mut x = X::any(0);
    let mut v = BlockHistory::default();
    let most = sx::pick(0, 2);
    let h = x.seq(2, |x| BlockHistoryEntry {
        header_hash: x.h(),
        accumulation_result_mmr_root: x.h(),
        state_root: x.h(),
        reported_packages: x.seq(most, |x| ReportedWorkPackage { work_package_hash: x.h(), segment_root: x.h() }),
    });
    let n = h.len();
    v.history = BlockHistoryEntries::try_from(h).ok().unwrap();
    let mut y = X::some();
    let peaks = y.seq(2, |x| x.opt(|x| x.h()));
    x.o.extend_from_slice(&y.o);
    v.beefy_belt.peaks = peaks.clone();
    let mut s = &x.o[..];
    match BlockHistory::decode(&mut s) {
        Ok(d) => {
            check!(s.is_empty());
            check!(d.beefy_belt.peaks == peaks);
            check!(d.history == v.history);
        }
        Err(_) => check!(false),
    }
    entry(v, 3, &x.o);
    if n == 2 && most == 1 {
        sx::cover(1);
    }
    if peaks.len() == 2 && peaks[0].is_none() && peaks[1].is_some() {
        sx::cover(2);
    }
}
//@ S03 covers=3 time=200 eager=1
//@ bound: arbitrary validator counters; core and service counters with one over its whole range and the others from 64 to 127; 0 to 2 services
#[no_mangle]
pub extern "C" fn s03_statistics() {
    let mut v = OnChainStatistics::default();
    let part = sx::pick(0, 2);
    // arbitrary: the validators', the cores' or the services'
    let (mut x, mut y, mut z) = match part {
        0 => (X::any(0), X::some(), X::some()),
        1 => (X::some(), X::any(sx::pick(1, 8)), X::some()),
        _ => (X::some(), X::some(), X::any(sx::pick(0, 10))),
    };
    v.validator_stats.curr = EpochValidatorStats::new(fv(x.times(VALIDATOR_COUNT, activity)));
    v.validator_stats.prev = EpochValidatorStats::new(fv(x.times(VALIDATOR_COUNT, activity)));
    v.core_stats.0 = fv(y.times(CORE_COUNT, |x| CoreStatsEntry {
        da_items_size: x.c(4) as u32,
        assurers_count: x.c(2) as u16,
        imports_count: x.c(2) as u16,
        extrinsics_count: x.c(2) as u16,
        extrinsics_octets: x.c(4) as u32,
        exports_count: x.c(2) as u16,
        work_bundle_length: x.c(4) as u32,
        refine_gas_used: x.c(8),
    }));
    let n = if part == 2 && z.wide == 0 { sx::pick(0, 2) } else { 1 };
    z.nat(n);
    for i in 0..n {
        let id = if part == 2 { (sx::u16() & 511) as u32 + ((i as u32) << 28) } else { 300 * (i as u32 + 1) };
        z.o.extend_from_slice(&id.to_le_bytes());
        let e = ServiceStatsEntry {
            preimage_xts_count: z.c(2) as u16,
            preimage_blob_size: z.c(4) as u32,
            work_digests_count: z.c(4) as u32,
            refine_gas_used: z.c(8),
            imports_count: z.c(4) as u32,
            extrinsics_count: z.c(4) as u32,
            extrinsics_octets: z.c(4) as u32,
            exports_count: z.c(4) as u32,
            accumulate_digests_count: z.c(4) as u32,
            accumulate_gas_used: z.c(8),
        };
        v.service_stats.0.insert(id, e);
    }
    x.o.extend_from_slice(&y.o);
    x.o.extend_from_slice(&z.o);
    entry(v, 13, &x.o);
    sx::cover(1 + part as u32);
}
/// the service id's octets and the hash's, by turns
fn woven(s: u32, h: Hash32) -> [u8; 31] {
    let mut k = [0; 31];
    for i in 0..4 {
        k[2 * i] = s.to_le_bytes()[i];
        k[2 * i + 1] = h.0[i];
    }
    k[8..].copy_from_slice(&h.0[4..27]);
    k
}
//@ S03 covers=4 time=60
//@ bound: every service id; storage keys of 0, 1, 32 and 40 octets, three preimage hashes, four lengths (concrete: they are hashed)
//@ assume: Blake2b is the hash function it implements (its own code runs on concrete octets)
#[no_mangle]
pub extern "C" fn s03_account_keys() {
    let s = sx::u32();
    let which = sx::pick(1, 4);
    match which {
        1 => {
            let b = s.to_le_bytes();
            let mut k = [0; 31];
            k[0] = 255;
            for i in 0..4 {
                k[1 + 2 * i] = b[i];
            }
            check!(get_account_metadata_state_key(s).ok().is_some_and(|x| same(&x.0, &k)));
        }
        2 => {
            let n = [0, 1, 32, 40][sx::pick_usize(0, 3)];
            let key: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x33).collect();
            let mut m = vec![0xff; 4];
            m.extend_from_slice(&key);
            let k = woven(s, hash(&m));
            check!(get_account_storage_state_key(s, &Octets::from_vec(key)).ok().is_some_and(|x| same(&x.0, &k)));
        }
        3 => {
            let h = lab(7, sx::pick(0, 2) as u8);
            let mut m = vec![0xfe, 0xff, 0xff, 0xff];
            m.extend_from_slice(&h);
            let k = woven(s, hash(&m));
            check!(get_account_preimage_state_key(s, &h32(h)).ok().is_some_and(|x| same(&x.0, &k)));
        }
        _ => {
            let h = lab(7, sx::pick(0, 2) as u8);
            let l = [0u32, 1, 0x01020304, 0xffff_fffd][sx::pick_usize(0, 3)];
            let mut m = l.to_le_bytes().to_vec();
            m.extend_from_slice(&h);
            let k = woven(s, hash(&m));
            check!(get_account_lookups_state_key(s, &(h32(h), l)).ok().is_some_and(|x| same(&x.0, &k)));
        }
    }
    sx::cover(which as u32);
}
//@ S03 covers=4 time=120 eager=1
//@ bound: storage values and preimages of 0 to 3 arbitrary octets; 0 to 3 arbitrary slots; any 6 octets as a stored lookup
#[no_mangle]
pub extern "C" fn s03_account_entries() {
    let which = sx::pick(1, 4);
    let mut x = X::any(0);
    match which {
        1 => {
            let n = sx::pick_usize(0, 3);
            let v = AccountStorageEntry::new(x.fixed(n));
            stored(v, &x.o);
        }
        2 => {
            let n = sx::pick_usize(0, 3);
            let v = AccountPreimagesEntry { value: x.fixed(n) };
            stored(v, &x.o);
        }
        3 => {
            let v = AccountLookupsEntry::new(x.seq(3, |x| Timeslot(x.f(4) as u32)).try_into().ok().unwrap());
            stored(v, &x.o);
        }
        _ => {
            // whatever octets are there: at most three slots, or refused
            let b = sx::vec(6);
            sx::alloc_limit(4096);
            let mut s = &b[..];
            let r = AccountLookupsEntry::decode(&mut s);
            check!(r.is_ok() == (b[0] <= 1));
        }
    }
    sx::cover(which as u32);
}
