//! The CPU feature seam (patched `cpufeatures`), or nothing in builds that
//! use the real crate or a forced backend.

/// Simulated CPU models, weakest first.
pub const LEVELS: [(&str, u32); 4] = [("portable", 0), ("sse2", 1), ("avx2", 3), ("avx512", 7)];

#[cfg(feature = "simcpu")]
mod imp {
    use cpufeatures::sim;
    pub fn init() {
        let mut m = 0;
        if std::is_x86_feature_detected!("sse2") {
            m |= sim::SSE2;
        }
        if std::is_x86_feature_detected!("avx2") {
            m |= sim::AVX2;
        }
        if std::is_x86_feature_detected!("avx512f") && std::is_x86_feature_detected!("avx512vl") {
            m |= sim::AVX512;
        }
        sim::set_real(m);
    }
    pub fn set(mask: u32) {
        sim::set_mask(mask);
    }
    pub fn get() -> u32 {
        sim::mask()
    }
    pub fn set_hook(on: bool) {
        sim::set_hook(on.then_some(crate::hook::consulted));
    }
    pub fn real() -> u32 {
        sim::real()
    }
}
#[cfg(not(feature = "simcpu"))]
mod imp {
    use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
    // Remembered so that schedules are the same in every build.
    static M: AtomicU32 = AtomicU32::new(7);
    pub fn init() {}
    pub fn set(mask: u32) {
        M.store(mask, SeqCst);
    }
    pub fn get() -> u32 {
        M.load(SeqCst)
    }
    pub fn set_hook(_: bool) {}
    pub fn real() -> u32 {
        0
    }
}
pub use imp::*;

pub fn reset() {
    set(7);
}
pub fn level(i: usize) {
    set(LEVELS[i % 4].1);
}
pub fn current() -> usize {
    LEVELS.iter().position(|l| l.1 == get()).unwrap_or(3)
}
/// A CPU level for a node; the strongest is most common.
pub fn draw() -> usize {
    [3, 3, 2, 2, 1, 0][crate::sim::du(6)]
}
