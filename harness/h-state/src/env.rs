//! Building the system under test over the environment models.
use fr_config::StorageConfig;
use fr_db::core::core_db::CoreDB;
use fr_state::manager::StateManager;
use std::sync::Arc;
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    tokio::model::block_on(f)
}
/// a state manager over the given disk
pub fn manager_on(disk: Arc<rocksdb::Disk>) -> StateManager {
    rocksdb::model::disk(disk);
    let cfg = StorageConfig::default();
    let core = Arc::new(CoreDB::open("model", StorageConfig::rocksdb_opts(), StorageConfig::cf_descriptors()).unwrap());
    StateManager::from_core_db(core, &cfg)
}
pub fn manager() -> StateManager {
    manager_on(Default::default())
}
