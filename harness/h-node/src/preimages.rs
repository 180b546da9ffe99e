//! Provided preimages and the historical lookup.
use crate::env::*;
use crate::guarantees::SVC;
use fr_block::types::extrinsics::preimages::*;
use fr_state::error::StateManagerError;
use fr_state::state_utils::*;
use fr_transition::state::services::transition_services_integrate_preimages;

const BLOBS: [&[u8]; 2] = [&[], &[9, 8]];
/// (service, blob) pairs in extrinsic order
const PAIRS: [(usize, usize); 4] = [(0, 0), (0, 1), (1, 0), (1, 1)];

pub fn slots(v: &[u32]) -> AccountLookupsEntry {
    AccountLookupsEntry { value: v.iter().map(|t| Timeslot(*t)).collect::<Vec<_>>().try_into().unwrap() }
}
/// what an account records of one blob
#[derive(Clone, PartialEq)]
struct Record {
    asked: Option<Vec<u32>>,
    held: bool,
}
fn key(p: (usize, usize)) -> (ServiceId, LookupsKey) {
    (SVC[p.0], (hash(BLOBS[p.1]), BLOBS[p.1].len() as u32))
}
fn blob(p: (usize, usize)) -> Octets {
    Octets::from_vec(BLOBS[p.1].to_vec())
}
fn seed(mut s: Seed, p: (usize, usize), r: &Record) -> Seed {
    let (id, k) = key(p);
    if r.held {
        s = s.put(get_account_preimage_state_key(id, &k.0).unwrap(), &AccountPreimagesEntry::new(blob(p)));
    }
    if let Some(a) = &r.asked {
        s = s.put(get_account_lookups_state_key(id, &k).unwrap(), &slots(a));
    }
    s
}
fn drop_asked(m: &StateManager, p: (usize, usize)) {
    let (id, k) = key(p);
    run(m.with_mut_account_lookups_entry(StateMut::Remove, id, k, |_| -> Result<(), StateManagerError> { Ok(()) })).unwrap();
}
/// what accumulation may have done to the record earlier in the block
fn meddle(m: &StateManager, p: (usize, usize), r: &mut Record, how: u64, t: u32) {
    let (id, k) = key(p);
    match how {
        // forgotten
        1 => {
            if r.asked.take().is_some() {
                drop_asked(m, p);
            }
            if std::mem::take(&mut r.held) {
                run(m.with_mut_account_preimages_entry(StateMut::Remove, id, &k.0, |_| -> Result<(), StateManagerError> { Ok(()) })).unwrap();
            }
        }
        // provided by a service
        2 if r.asked.as_ref().is_some_and(|a| a.is_empty()) && !r.held => {
            run(m.with_mut_account_lookups_entry(StateMut::Update, id, k.clone(), |e| -> Result<(), StateManagerError> {
                *e = slots(&[t]);
                Ok(())
            }))
            .unwrap();
            run(m.add_account_preimages_entry(id, &k.0, AccountPreimagesEntry::new(blob(p)))).unwrap();
            *r = Record { asked: Some(vec![t]), held: true };
        }
        // asked for only now
        3 if r.asked.is_none() => {
            run(m.add_account_lookups_entry(id, k, slots(&[]))).unwrap();
            r.asked = Some(vec![]);
        }
        // forgotten and asked for again
        4 if r.asked.as_ref().is_some_and(|a| a.is_empty()) => {
            drop_asked(m, p);
            run(m.add_account_lookups_entry(id, k, slots(&[]))).unwrap();
        }
        // given slots without the data
        5 if r.asked.as_ref().is_some_and(|a| a.is_empty()) && !r.held => {
            let n = sx::pick(1, 3);
            let v: Vec<u32> = (0..n).map(|_| sx::u32()).collect();
            run(m.with_mut_account_lookups_entry(StateMut::Update, id, k, |e| -> Result<(), StateManagerError> {
                *e = slots(&v);
                Ok(())
            }))
            .unwrap();
            r.asked = Some(v);
        }
        _ => sx::assume(how == 0),
    }
}
fn recorded(m: &StateManager, p: (usize, usize), r: &Record) {
    let (id, k) = key(p);
    match (run(m.get_account_lookups_entry(id, &k)).unwrap(), &r.asked) {
        (None, None) => {}
        (Some(e), Some(a)) => {
            sx::check!(e.value.len() == a.len());
            for (x, y) in e.value.iter().zip(a) {
                sx::check!(x.slot() == *y);
            }
        }
        _ => sx::check!(false),
    }
    match run(m.get_account_preimages_entry(id, &k.0)).unwrap() {
        None => sx::check!(!r.held),
        Some(e) => {
            sx::check!(r.held);
            sx::check!(e.value.as_slice() == BLOBS[p.1]);
        }
    }
}
fn record(kind: u64) -> Record {
    let n = [0, 0, 0, 1, 2, 3, 1][kind as usize];
    Record { asked: (kind > 0).then(|| (0..n).map(|_| sx::u32()).collect()), held: matches!(kind, 2 | 3 | 5) }
}

//@ T11 covers=8 time=120 tmul=4
//@ bound: extrinsics of 0 to 2 entries over two services and two blobs (one empty), and all four entries; any record of the first blob named (not asked for, asked for, asked for but held, held, dropped, held again, given up), three of the others; six ways the record named first can have been changed earlier in the block; any slots
#[no_mangle]
pub extern "C" fn t11_preimages() {
    let n = sx::pick_usize(0, 3);
    let list: Vec<usize> = match n {
        3 => (0..4).collect(),
        n => (0..n).map(|_| sx::pick_usize(0, 3)).collect(),
    };
    let t = sx::u32();
    let lead = *list.first().unwrap_or(&0);
    let others = sx::pick(0, 2);
    let mut recs: Vec<Record> = (0..4).map(|i| record(if i == lead { sx::pick(0, 6) } else { others })).collect();
    let clean = recs.clone();
    let mut s = Seed::new().with(&Timeslot(t));
    for (p, r) in PAIRS.iter().zip(&recs) {
        s = seed(s, *p, r);
    }
    let m = s.manager();
    let how = sx::pick(0, 5);
    meddle(&m, PAIRS[lead], &mut recs[lead], how, t);
    let second = list.get(1).copied().unwrap_or(lead);
    if second != lead {
        let how = sx::pick(0, 1);
        meddle(&m, PAIRS[second], &mut recs[second], how * 2, t);
    }
    let xt = PreimagesXt { items: list.iter().map(|i| PreimagesXtEntry { service_id: SVC[PAIRS[*i].0], preimage_data: blob(PAIRS[*i]) }).collect() };
    let r = run(transition_services_integrate_preimages(m.clone(), &xt));
    let ordered = list.windows(2).all(|w| w[0] < w[1]);
    let wanted = list.iter().all(|i| !clean[*i].held && clean[*i].asked.as_ref().is_some_and(|a| a.is_empty()));
    sx::check!(r.is_ok() == (ordered && wanted));
    let mut taken = 0;
    if r.is_ok() {
        for i in &list {
            if !recs[*i].held && recs[*i].asked.as_ref().is_some_and(|a| a.is_empty()) {
                recs[*i] = Record { asked: Some(vec![t]), held: true };
                taken += 1;
            }
        }
    }
    for (p, r) in PAIRS.iter().zip(&recs) {
        recorded(&m, *p, r);
    }
    if r.is_ok() {
        if taken == 4 {
            sx::cover(1);
        }
        if taken < list.len() && how == 1 {
            sx::cover(2); // no longer wanted after accumulation
        }
        if taken < list.len() && how == 2 {
            sx::cover(3);
        }
        if taken > 0 && how == 4 {
            sx::cover(4);
        }
        if how == 5 {
            sx::cover(8);
        }
    } else {
        if wanted {
            sx::cover(5); // out of order or repeated
        }
        if how == 3 {
            sx::cover(6); // asked for only in this block
        }
        if ordered && list.len() == 2 {
            sx::cover(7);
        }
    }
}

//@ T14 covers=6 time=60
//@ bound: any record (absent, or 0 to 3 slots, of any value and order), the data held or not, a second record of the same hash with another length; any lookup slot; data that is code, or cannot be decoded as code
#[no_mangle]
pub extern "C" fn t14_lookup() {
    const ID: u32 = 70_000;
    let code = sx::pick(0, 1) == 1;
    // framed metadata, of any octets, followed by two octets of code; or a length beyond the end
    let data: &[u8] = if code { [&[3, 77, 0x80, 0xff, 5, 6][..], &[1, 77, 5, 6][..]][sx::pick_usize(0, 1)] } else { &[7, 1, 2] };
    let h = hash(data);
    let held = sx::pick(0, 1) == 1;
    let n = sx::pick_usize(0, 4);
    let v: Vec<u32> = (0..n.min(3)).map(|_| sx::u32()).collect();
    let mut s = Seed::new();
    if held {
        s = s.put(get_account_preimage_state_key(ID, &h).unwrap(), &AccountPreimagesEntry::new(Octets::from_vec(data.to_vec())));
    }
    if n < 4 {
        s = s.put(get_account_lookups_state_key(ID, &(h.clone(), data.len() as u32)).unwrap(), &slots(&v));
    }
    // the same hash under another length says nothing about this blob
    s = s.put(get_account_lookups_state_key(ID, &(h.clone(), data.len() as u32 + 1)).unwrap(), &slots(&[0]));
    let m = s.manager();
    let t = sx::u32();
    let available = held
        && n < 4
        && match v[..] {
            [x] => x <= t,
            [x, y] => x <= t && t < y,
            [x, y, z] => x <= t && t < y || z <= t,
            _ => false,
        };
    let r = run(m.lookup_historical_preimage(ID, &Timeslot(t), &h));
    sx::check!(r.is_ok());
    let r = r.unwrap();
    sx::check!(r.is_some() == available);
    if let Some(d) = &r {
        sx::check!(&d[..] == data);
        sx::cover(v.len() as u32);
    } else if held && n == 3 {
        sx::cover(4);
    }
    let c = run(m.get_account_code_by_lookup(ID, t, &h));
    sx::check!(c.is_ok());
    let c = c.unwrap();
    sx::check!(c.is_some() == (available && code));
    if let Some(c) = c {
        sx::check!(c.code() == &[5, 6]);
        sx::cover(5);
    } else if available {
        sx::cover(6);
    }
}
