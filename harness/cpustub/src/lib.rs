//! Stand-in for the `cpufeatures` crate: same macro, same generated API, but
//! the answer to "does this CPU have feature X?" comes from the simulator.
//!
//! * [`sim::set_mask`] selects the feature set of the simulated CPU on which
//!   the currently scheduled node runs.
//! * Every consultation (token `init` and `get`) first calls an optional hook,
//!   which the simulator uses as a scheduling point *inside* library
//!   operations: it may switch to another caller thread, run a nested
//!   operation on another object, or migrate the node to another CPU.
//! * A feature is never reported unless the real CPU has it.
#![no_std]

pub mod sim {
    use core::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::SeqCst};

    pub const SSE2: u32 = 1;
    pub const AVX2: u32 = 2;
    pub const AVX512: u32 = 4;

    static MASK: AtomicU32 = AtomicU32::new(u32::MAX);
    static REAL: AtomicU32 = AtomicU32::new(0);
    static CONSULTED: AtomicU64 = AtomicU64::new(0);
    static HOOK: AtomicPtr<()> = AtomicPtr::new(core::ptr::null_mut());

    /// Features of the real CPU (set once by the simulator).
    pub fn set_real(mask: u32) {
        REAL.store(mask, SeqCst);
    }
    pub fn real() -> u32 {
        REAL.load(SeqCst)
    }
    /// Features of the simulated CPU.
    pub fn set_mask(mask: u32) {
        MASK.store(mask, SeqCst);
    }
    pub fn mask() -> u32 {
        MASK.load(SeqCst)
    }
    pub fn consulted() -> u64 {
        CONSULTED.load(SeqCst)
    }
    pub fn set_hook(h: Option<fn(bool)>) {
        HOOK.store(h.map_or(core::ptr::null_mut(), |f| f as *mut ()), SeqCst);
    }

    fn bits(name: &str) -> u32 {
        match name {
            "sse2" => SSE2,
            "avx2" => AVX2,
            "avx512f" | "avx512vl" => AVX512,
            _ => 1 << 31, // unknown to the simulator: never reported
        }
    }

    /// `init`: token creation; otherwise a query.
    #[doc(hidden)]
    pub fn consult(names: &[&str], init: bool) -> bool {
        CONSULTED.fetch_add(1, SeqCst);
        let h = HOOK.load(SeqCst);
        if !h.is_null() {
            // SAFETY: only ever stored from `fn(bool)`
            let f: fn(bool) = unsafe { core::mem::transmute(h) };
            f(init);
        }
        let have = MASK.load(SeqCst) & REAL.load(SeqCst);
        names.iter().all(|n| bits(n) & have != 0)
    }
}

/// Create module with CPU feature detection code.
#[macro_export]
macro_rules! new {
    ($mod_name:ident, $($tf:tt),+ $(,)?) => {
        #[allow(dead_code)]
        mod $mod_name {
            /// Initialization token
            #[derive(Copy, Clone, Debug)]
            pub struct InitToken(());

            impl InitToken {
                /// Initialize token.
                pub fn init() -> Self {
                    init()
                }
                /// Initialize token and return whether the feature is there.
                pub fn init_get() -> (Self, bool) {
                    init_get()
                }
                /// Whether the simulated CPU has the feature now.
                #[inline]
                pub fn get(&self) -> bool {
                    // As in the real crate, statically enabled features
                    // need no detection; but see `always_static`.
                    if cfg!(all($(target_feature = $tf,)*)) && $crate::always_static(&[$($tf),+]) {
                        return true;
                    }
                    $crate::sim::consult(&[$($tf),+], false)
                }
            }
            /// See `InitToken::init_get`.
            #[inline]
            pub fn init_get() -> (InitToken, bool) {
                (InitToken(()), $crate::sim::consult(&[$($tf),+], true))
            }
            /// See `InitToken::init`.
            #[inline]
            pub fn init() -> InitToken {
                init_get().0
            }
            /// See `InitToken::get`.
            #[inline]
            pub fn get() -> bool {
                init_get().1
            }
        }
    };
}

/// Statically enabled features are reported as such, except SSE2 (always
/// enabled on x86-64), which the simulator may hide so that the portable
/// backend runs under run-time dispatch too.
#[doc(hidden)]
pub fn always_static(names: &[&str]) -> bool {
    !names.contains(&"sse2")
}
