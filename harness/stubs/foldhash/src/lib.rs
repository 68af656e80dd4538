//! Stand-in: every key hashes to the same value, so that hash tables work on
//! symbolic keys (a table's behaviour may not depend on the hash values). The
//! value is one of two, which differ in the order in which a table is
//! iterated.
#[unsafe(no_mangle)]
pub static mut foldhash_value: u64 = 0;
pub mod fast {
    use std::hash::{BuildHasher, Hasher};
    #[derive(Clone, Copy, Debug, Default)]
    pub struct RandomState;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct FixedState;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct FoldHasher;
    impl Hasher for FoldHasher {
        fn finish(&self) -> u64 { unsafe { super::foldhash_value } }
        fn write(&mut self, _: &[u8]) {}
    }
    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher { FoldHasher }
    }
    impl BuildHasher for FixedState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher { FoldHasher }
    }
}
pub mod quality { pub use super::fast::*; }
