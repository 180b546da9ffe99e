//! The state store: staged changes, commits, rollbacks, lost cache entries and failed writes.
use crate::env::*;
use fr_common::Octets;
use fr_state::cache::StateMut;
use fr_state::error::StateManagerError;
use fr_state::manager::StateManager;
use fr_state::types::AccountStorageEntry;
use std::sync::Arc;
use sx::*;

const SVC: u32 = 7;
fn k(i: usize) -> Octets {
    Octets::from_vec(vec![b'k', i as u8])
}
fn entry(v: &[u8]) -> AccountStorageEntry {
    AccountStorageEntry::new(Octets::from_vec(v.to_vec()))
}
async fn get(m: &StateManager, i: usize) -> Option<Vec<u8>> {
    m.get_account_storage_entry(SVC, &k(i)).await.unwrap().map(|e| e.value.into_vec())
}
async fn get_clean(m: &StateManager, i: usize) -> Option<Vec<u8>> {
    m.get_account_storage_entry_clean(SVC, &k(i)).await.unwrap().map(|e| e.value.into_vec())
}
async fn put(m: &StateManager, i: usize, how: StateMut, v: &[u8]) -> Result<(), StateManagerError> {
    m.with_mut_account_storage_entry(how, SVC, &k(i), |e| -> Result<(), StateManagerError> {
        *e = entry(v);
        Ok(())
    })
    .await
}
fn eq(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}
/// a value of any content: in the leaf, or by hash
fn value(tag: u8, big: bool) -> Vec<u8> {
    if big {
        vec![tag; 40]
    } else {
        sx::vec(1)
    }
}
/// the `n`-th lookup of any cache finds its entry gone
static mut LOSE_AT: usize = 0;
static mut LOOKUPS: usize = 0;
fn lose_one() -> bool {
    unsafe {
        LOOKUPS += 1;
        LOOKUPS == LOSE_AT
    }
}
fn lose_all() -> bool {
    true
}
fn op(m: &StateManager, i: usize, now: &mut Option<Vec<u8>>, what: u64, v: Vec<u8>) -> impl std::future::Future<Output = ()> {
    let (m, now_) = (m as *const StateManager, now as *mut Option<Vec<u8>>);
    async move {
        let (m, now) = unsafe { (&*m, &mut *now_) };
        match what {
            1 => {
                let r = m.add_account_storage_entry(SVC, &k(i), entry(&v)).await;
                check!(r.is_ok() == now.is_none());
                if now.is_none() {
                    *now = Some(v);
                }
            }
            2 => {
                let r = put(m, i, StateMut::Update, &v).await;
                check!(r.is_ok() == now.is_some());
                if now.is_some() {
                    *now = Some(v);
                }
            }
            3 => {
                let r = put(m, i, StateMut::Remove, &v).await;
                check!(r.is_ok() == now.is_some());
                *now = None;
            }
            _ => {}
        }
    }
}
/// Two staged rounds over one entry (a second entry keeps the trie occupied); whether the changes of each round are
/// committed, staged and applied, rolled back, or staged and dropped is the harness's choice.
fn rounds(lose: u64, ops: &[usize], second: bool) {
    let disk: Arc<rocksdb::Disk> = Default::default();
    let d2 = disk.clone();
    run(async move {
        let m = manager_on(disk);
        let mut saved: Vec<Option<Vec<u8>>> = vec![None, None];
        m.add_account_storage_entry(SVC, &k(1), entry(&[9])).await.unwrap();
        saved[1] = Some(vec![9]);
        if sx::bool() {
            let v = value(1, false);
            m.add_account_storage_entry(SVC, &k(0), entry(&v)).await.unwrap();
            saved[0] = Some(v);
        }
        m.commit_dirty_cache().await.unwrap();
        match lose {
            0 => {}
            1 => mini_moka::model::lose(Some(lose_all)),
            n => unsafe {
                LOOKUPS = 0;
                LOSE_AT = pick(1, n) as usize;
                mini_moka::model::lose(Some(lose_one));
            },
        }
        let mut now = saved.clone();
        for (r, &n) in ops.iter().enumerate() {
            for o in 0..n {
                let what = if r + 1 == ops.len() && n == 1 { pick(0, 3) } else { pick(1, 3) };
                op(&m, 0, &mut now[0], what, value((r * 4 + o + 2) as u8, (r + o) % 2 == 0)).await;
                check!(eq(&get(&m, 0).await, &now[0]));
                check!(eq(&get_clean(&m, 0).await, &saved[0]));
            }
            if second && r == 0 {
                op(&m, 2, &mut None, 1, vec![5; 3]).await;
            }
            match pick(0, if r + 1 == ops.len() && !thorough() { 2 } else { 3 }) {
                0 => {
                    check!(m.commit_dirty_cache().await.is_ok());
                    saved = now.clone();
                    cover(1);
                }
                1 => {
                    let root = m.merkle_root().await.unwrap();
                    let a = m.prepare_dirty_cache_commit().await;
                    check!(a.is_ok());
                    // nothing has changed yet
                    check!(eq(&get(&m, 0).await, &saved[0]));
                    check!(m.merkle_root().await.unwrap() == root);
                    if let Some(a) = a.unwrap() {
                        check!(m.apply_dirty_cache_commit(&a).await.is_ok());
                        check!(m.merkle_root().await.unwrap() == *a.state_root());
                    }
                    saved = now.clone();
                    cover(2);
                }
                2 => {
                    m.rollback_dirty_cache();
                    now = saved.clone();
                    cover(3);
                }
                _ => {
                    check!(m.prepare_dirty_cache_commit().await.is_ok());
                    now = saved.clone();
                    cover(4);
                }
            }
            for i in 0..2 {
                check!(eq(&get(&m, i).await, &now[i]));
                check!(eq(&get_clean(&m, i).await, &saved[i]));
            }
        }
        // what was committed, and only that, is on disk
        mini_moka::model::lose(None);
        let m2 = manager_on(d2);
        for i in 0..2 {
            check!(eq(&get(&m2, i).await, &saved[i]));
        }
    })
}
//@ S01 covers=4 time=60
//@ bound: one service storage entry with any two operations, then a commit, a staged commit, a rollback or a dropped stage, then one more operation and another of these; entry values of one octet (any) and 40 octets
//@ assume: RocksDB, mini-moka and tokio are replaced by models: an ordered map with atomic batches, a map that loses no entry, an executor
#[no_mangle]
pub extern "C" fn s01_rounds() {
    rounds(0, if thorough() { &[2, 2] } else { &[2, 1] }, false)
}
//@ S01 covers=4 time=60
//@ bound: as above with one operation in each round; every cache lookup misses, or one lookup does
//@ assume: as above, with caches that may have evicted any entry
#[no_mangle]
pub extern "C" fn s01_evict() {
    rounds(if thorough() { 40 } else { 1 }, &[1, 1], false)
}
//@ S01 covers=2 time=60
//@ bound: a commit that changes, removes and adds one entry each, with a failure (or stop) of any of its writes; values of one octet (any) and 40 octets
//@ assume: a batch is written whole or not at all
#[no_mangle]
pub extern "C" fn s01_fail() {
    let disk: Arc<rocksdb::Disk> = Default::default();
    let d2 = disk.clone();
    let big = sx::bool();
    let staged = sx::bool();
    run(async move {
        let m = manager_on(disk);
        let mut old: Vec<Option<Vec<u8>>> = vec![None; 4];
        for i in 0..3 {
            let v = value(i as u8, big);
            m.add_account_storage_entry(SVC, &k(i), entry(&v)).await.unwrap();
            old[i] = Some(v);
        }
        m.commit_dirty_cache().await.unwrap();
        let root0 = m.merkle_root().await.unwrap();
        let mut new = old.clone();
        op(&m, 0, &mut new[0], 2, value(7, big)).await;
        op(&m, 1, &mut new[1], 3, vec![]).await;
        op(&m, 3, &mut new[3], 1, value(8, big)).await;
        rocksdb::model::fail_at(pick(0, 3) as u32);
        let r = if staged {
            let a = m.prepare_dirty_cache_commit().await.unwrap().unwrap();
            m.apply_dirty_cache_commit(&a).await
        } else {
            m.commit_dirty_cache().await
        };
        rocksdb::model::fail_at(u32::MAX);
        let want = if r.is_ok() { &new } else { &old };
        cover(if r.is_ok() { 1 } else { 2 });
        // after a restart
        let m2 = manager_on(d2);
        for i in 0..4 {
            check!(eq(&get(&m2, i).await, &want[i]));
        }
        // and without one
        m.rollback_dirty_cache();
        check!(r.is_ok() || m.merkle_root().await.unwrap() == root0);
        for i in 0..4 {
            check!(eq(&get(&m, i).await, &want[i]));
        }
        // the store goes on from there
        let v = value(9, !big);
        let mut n2 = want[2].clone();
        op(&m, 2, &mut n2, 2, v).await;
        check!(m.commit_dirty_cache().await.is_ok());
        m.clear_state_cache();
        for i in 0..4 {
            check!(eq(&get(&m, i).await, if i == 2 { &n2 } else { &want[i] }));
        }
    })
}
