//! Lock usage, good and bad, on which the queries of C19 are tried.
use std::collections::HashMap;
use std::future::Future;
use std::sync::{Arc, Mutex, RwLock};

pub mod dashmap {
    use std::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub mod mapref {
        pub mod one {
            pub struct Ref<'a, V>(pub std::sync::RwLockReadGuard<'a, Vec<V>>);
            impl<'a, V> Ref<'a, V> {
                pub fn value(&self) -> &V {
                    &self.0[0]
                }
            }
            pub struct RefMut<'a, V>(pub std::sync::RwLockWriteGuard<'a, Vec<V>>);
        }
    }
    pub struct DashMap<V>(RwLock<Vec<V>>);
    impl<V> DashMap<V> {
        pub fn get(&self, _k: &str) -> Option<mapref::one::Ref<'_, V>> {
            let g: RwLockReadGuard<'_, Vec<V>> = self.0.read().ok()?;
            Some(mapref::one::Ref(g))
        }
        pub fn get_mut(&self, _k: &str) -> Option<mapref::one::RefMut<'_, V>> {
            let g: RwLockWriteGuard<'_, Vec<V>> = self.0.write().ok()?;
            Some(mapref::one::RefMut(g))
        }
        pub fn insert(&self, _k: String, v: V) {
            if let Ok(mut g) = self.0.write() {
                g.push(v);
            }
        }
        pub fn retain(&self, mut f: impl FnMut(&V) -> bool) {
            if let Ok(mut g) = self.0.write() {
                g.retain(|x| f(x));
            }
        }
        pub fn contains_key(&self, _k: &str) -> bool {
            self.0.read().is_ok()
        }
    }
}

pub struct State {
    pub a: Mutex<HashMap<String, String>>,
    pub b: RwLock<Vec<String>>,
    pub m: Arc<dashmap::DashMap<String>>,
    pub n: Arc<dashmap::DashMap<String>>,
}

impl State {
    pub async fn bad_guard_across_await(&self, f: impl Future<Output = ()>) {
        let g = self.a.lock().unwrap();
        f.await;
        drop(g);
    }
    pub async fn good_guard_dropped(&self, f: impl Future<Output = ()>) {
        {
            let g = self.a.lock().unwrap();
            let _ = g.len();
        }
        f.await;
    }
    pub fn bad_nested_direct(&self) -> usize {
        let g = self.b.read().unwrap();
        let h = self.b.write().unwrap();
        g.len() + h.len()
    }
    fn grow(&self) {
        self.m.insert("x".into(), "y".into());
    }
    pub fn bad_nested_through_call(&self) {
        if let Some(r) = self.m.get("x") {
            let _ = r.value().len();
            self.grow();
        }
    }
    pub fn bad_nested_in_closure(&self) {
        let m = self.m.clone();
        self.m.retain(|x| !m.contains_key(x));
    }
    pub fn good_two_maps(&self) {
        self.m.retain(|x| !self.n.contains_key(x));
    }
    pub fn good_local_map(&self, other: dashmap::DashMap<String>) {
        if let Some(r) = self.m.get("x") {
            other.insert("x".into(), r.value().clone());
        }
    }
    pub fn bad_order_1(&self) {
        let g = self.a.lock().unwrap();
        let h = self.b.read().unwrap();
        let _ = (g.len(), h.len());
    }
    pub fn bad_order_2(&self) {
        let h = self.b.write().unwrap();
        let g = self.a.lock().unwrap();
        let _ = (g.len(), h.len());
    }
    pub fn good_sequence(&self) {
        let x = self.m.get("x").map(|r| r.value().clone());
        self.m.insert("z".into(), x.unwrap_or_default());
        let n = self.a.lock().unwrap().len();
        let k = self.a.lock().unwrap().len();
        let _ = n + k;
    }
    pub fn bad_wait(&self, t: std::thread::JoinHandle<()>) {
        let g = self.a.lock().unwrap();
        let _ = t.join();
        drop(g);
    }
}
