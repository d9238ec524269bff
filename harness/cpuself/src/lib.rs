//! Stand-in for the `cpufeatures` crate: same macro, same generated API. A
//! machine interpreted by Miri executes exactly the vendor intrinsics of the
//! target features it was built with and calls everything else undefined
//! behaviour, so those features are what its CPUID reports here. (The real
//! crate reports nothing at all under Miri.)
#![no_std]

/// Create module with CPU feature detection code.
#[macro_export]
macro_rules! new {
    ($mod_name:ident, $($tf:tt),+ $(,)?) => {
        #[allow(dead_code)]
        mod $mod_name {
            /// Initialization token
            #[derive(Copy, Clone, Debug)]
            pub struct InitToken(());

            impl InitToken {
                /// Initialize token.
                pub fn init() -> Self {
                    init()
                }
                /// Initialize token and return whether the features are there.
                pub fn init_get() -> (Self, bool) {
                    init_get()
                }
                /// Whether the features are there.
                #[inline(always)]
                pub fn get(&self) -> bool {
                    cfg!(all($(target_feature = $tf,)*))
                }
            }
            /// See `InitToken::init_get`.
            #[inline]
            pub fn init_get() -> (InitToken, bool) {
                (InitToken(()), cfg!(all($(target_feature = $tf,)*)))
            }
            /// See `InitToken::init`.
            #[inline]
            pub fn init() -> InitToken {
                init_get().0
            }
            /// See `InitToken::get`.
            #[inline]
            pub fn get() -> bool {
                init_get().1
            }
        }
    };
}
