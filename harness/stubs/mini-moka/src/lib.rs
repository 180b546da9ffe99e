//! Environment model of mini-moka: a bounded cache that may drop any entry at any moment. When a lookup misses although
//! the entry was inserted is the harness's choice (`model::LOSE`).
pub mod model {
    /// called at each lookup that would hit; true drops the entry
    pub static mut LOSE: Option<fn() -> bool> = None;
    pub fn lose(f: Option<fn() -> bool>) {
        unsafe { LOSE = f }
    }
    pub(crate) static mut WARM: Option<Box<dyn std::any::Any>> = None;
    /// the next cache of these types starts with these entries
    pub fn warm<K: 'static, V: 'static>(v: Vec<(K, V)>) {
        unsafe { WARM = Some(Box::new(v)) }
    }
    #[allow(static_mut_refs)]
    pub(crate) fn take<K: 'static, V: 'static>() -> Vec<(K, V)> {
        unsafe {
            match WARM.take() {
                Some(b) => match b.downcast::<Vec<(K, V)>>() {
                    Ok(v) => *v,
                    Err(b) => {
                        WARM = Some(b);
                        vec![]
                    }
                },
                None => vec![],
            }
        }
    }
    pub(crate) fn gone() -> bool {
        unsafe {
            match LOSE {
                Some(f) => f(),
                None => false,
            }
        }
    }
}
pub mod sync {
    use std::borrow::Borrow;
    use std::hash::Hash;
    use std::sync::{Arc, Mutex};
    pub struct Cache<K, V, S = ()> {
        m: Arc<Mutex<Vec<(K, V)>>>,
        p: std::marker::PhantomData<fn() -> S>,
    }
    impl<K, V, S> Clone for Cache<K, V, S> {
        fn clone(&self) -> Self {
            Self { m: self.m.clone(), p: std::marker::PhantomData }
        }
    }
    pub struct CacheBuilder<K, V>(std::marker::PhantomData<fn() -> (K, V)>);
    impl<K: Hash + Eq + 'static, V: Clone + 'static> CacheBuilder<K, V> {
        pub fn weigher(self, _f: impl Fn(&K, &V) -> u32 + Send + Sync + 'static) -> Self {
            self
        }
        pub fn max_capacity(self, _: u64) -> Self {
            self
        }
        pub fn time_to_idle(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn time_to_live(self, _: std::time::Duration) -> Self {
            self
        }
        pub fn build(self) -> Cache<K, V> {
            Cache::new(0)
        }
    }
    impl<K: Hash + Eq + 'static, V: Clone + 'static> Cache<K, V> {
        pub fn new(_max: u64) -> Self {
            Self { m: Arc::new(Mutex::new(crate::model::take::<K, V>())), p: std::marker::PhantomData }
        }
        pub fn builder() -> CacheBuilder<K, V> {
            CacheBuilder(std::marker::PhantomData)
        }
        pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            let mut m = self.m.lock().unwrap();
            let i = m.iter().position(|e| e.0.borrow() == k)?;
            if crate::model::gone() {
                m.remove(i);
                return None;
            }
            Some(m[i].1.clone())
        }
        pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.get(k).is_some()
        }
        pub fn insert(&self, k: K, v: V) {
            let mut m = self.m.lock().unwrap();
            for e in m.iter_mut() {
                if e.0 == k {
                    e.1 = v;
                    return;
                }
            }
            m.push((k, v));
        }
        pub fn invalidate<Q: ?Sized + Hash + Eq>(&self, k: &Q)
        where
            K: Borrow<Q>,
        {
            let mut m = self.m.lock().unwrap();
            if let Some(i) = m.iter().position(|e| e.0.borrow() == k) {
                m.remove(i);
            }
        }
        pub fn invalidate_all(&self) {
            self.m.lock().unwrap().clear();
        }
        pub fn entry_count(&self) -> u64 {
            self.m.lock().unwrap().len() as u64
        }
    }
    pub trait ConcurrentCacheExt<K, V> {
        fn sync(&self);
    }
    impl<K, V, S> ConcurrentCacheExt<K, V> for Cache<K, V, S> {
        fn sync(&self) {}
    }
}
