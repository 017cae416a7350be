//! A path-merging abstract interpreter for monomorphised MIR.
pub mod exec;
pub mod join;
pub mod lin;
pub mod models;
pub mod state;
pub mod value;
pub use exec::*;
pub use lin::*;
pub use state::*;
pub use value::*;

/// A quick hasher for tables that are never iterated over, and for skeletons.
pub mod fx {
    use std::hash::{BuildHasherDefault, Hasher};
    #[derive(Default, Clone)]
    pub struct Fx(u64);
    impl Fx { fn add(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95) } pub fn new() -> Fx { Fx(0) } }
    impl Hasher for Fx {
        fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut w = [0u8; 8]; w[..c.len()].copy_from_slice(c); self.add(u64::from_le_bytes(w)) } }
        fn write_u8(&mut self, x: u8) { self.add(x as u64) }
        fn write_u16(&mut self, x: u16) { self.add(x as u64) }
        fn write_u32(&mut self, x: u32) { self.add(x as u64) }
        fn write_u64(&mut self, x: u64) { self.add(x) }
        fn write_usize(&mut self, x: usize) { self.add(x as u64) }
        fn write_i128(&mut self, x: i128) { self.add(x as u64); self.add((x >> 64) as u64) }
        fn write_u128(&mut self, x: u128) { self.add(x as u64); self.add((x >> 64) as u64) }
        fn finish(&self) -> u64 { let x = self.0; (x ^ (x >> 32)).wrapping_mul(0x9E3779B97F4A7C15) ^ (x >> 29) }
    }
    pub type Set<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
    pub type Map<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
}
