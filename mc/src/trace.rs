//! Bookkeeping of the reference model: distinct model states and transitions reached on this thread.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Id>>;

pub fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Default)]
pub struct Model {
    pub states: Set,
    pub edges: Set,
    cur: u64,
}

thread_local! {
    static M: RefCell<Model> = RefCell::new(Model::default());
}

pub fn model_start(key: u64) {
    M.with(|m| m.borrow_mut().cur = mix(key))
}

pub fn model_state(key: u64, field: u64, left: u64, outer: u64, anom: u64) {
    let h = mix(mix(mix(mix(mix(key) ^ field) ^ left) ^ outer) ^ anom);
    push(h)
}

/// a state of another model (reader limits, environment), already hashed
pub fn push(h: u64) {
    M.with(|m| {
        let m = &mut *m.borrow_mut();
        m.states.insert(h);
        let e = mix(m.cur ^ h.rotate_left(17));
        m.edges.insert(e);
        m.cur = h;
    })
}

pub fn drain() -> Model {
    M.with(|m| std::mem::take(&mut *m.borrow_mut()))
}
