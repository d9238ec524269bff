//! Uniform handles over every public cipher type, driving the real code
//! through its public traits.

use crate::mem::confine;
use crate::model::Alg;
use crate::sim::{Injected, Out, guarded};
use block_buffer::BlockSizes;
use cipher::array::{Array, ArraySize};
use cipher::{
    Block, BlockSizeUser, InOut, InOutBuf, KeyInit, KeyIvInit, ParBlocks, SeekNum,
    StreamCipher, StreamCipherBackend, StreamCipherClosure, StreamCipherCore,
    StreamCipherCoreWrapper, StreamCipherSeek, StreamCipherSeekCore, typenum::Unsigned,
};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Form {
    TryInPlace,
    TryB2b,
    TryInOut,
    TryInOutSame,
    TryWrite,
    InPlace,
    B2b,
    InOut,
    Write,
    UncheckedInPlace,
    UncheckedB2b,
    UncheckedInOut,
    UncheckedWrite,
    MutRefInPlace,
    MutRefWrite,
}
pub const FORMS: [Form; 15] = [
    Form::TryInPlace,
    Form::TryB2b,
    Form::TryInOut,
    Form::TryInOutSame,
    Form::TryWrite,
    Form::InPlace,
    Form::B2b,
    Form::InOut,
    Form::Write,
    Form::UncheckedInPlace,
    Form::UncheckedB2b,
    Form::UncheckedInOut,
    Form::UncheckedWrite,
    Form::MutRefInPlace,
    Form::MutRefWrite,
];
impl Form {
    /// Produces raw keystream instead of input XOR keystream.
    pub fn writes(self) -> bool {
        matches!(self, Form::TryWrite | Form::Write | Form::UncheckedWrite | Form::MutRefWrite)
    }
    /// Takes its input from a separate buffer.
    pub fn separate(self) -> bool {
        matches!(
            self,
            Form::TryB2b | Form::TryInOut | Form::B2b | Form::InOut | Form::UncheckedB2b | Form::UncheckedInOut
        )
    }
    pub fn unchecked(self) -> bool {
        matches!(
            self,
            Form::UncheckedInPlace | Form::UncheckedB2b | Form::UncheckedInOut | Form::UncheckedWrite
        )
    }
    pub fn panicking(self) -> bool {
        matches!(self, Form::InPlace | Form::B2b | Form::InOut | Form::Write)
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok,
    Err(String),
    Panic(String),
    /// an injected callback panic came through
    Injected,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Num {
    U64,
    U128,
    U32,
    I32,
    Usize,
}
pub const NUMS: [Num; 5] = [Num::U64, Num::U128, Num::U32, Num::I32, Num::Usize];
impl Num {
    pub fn max(self) -> u128 {
        match self {
            Num::U64 => u64::MAX as u128,
            Num::U128 => u128::MAX,
            Num::U32 => u32::MAX as u128,
            Num::I32 => i32::MAX as u128,
            Num::Usize => usize::MAX as u128,
        }
    }
}

fn errs<E: std::fmt::Debug + std::fmt::Display>(e: E) -> String {
    confine::pause(|| format!("{e:?} / {e}"))
}

pub fn call_form<T: StreamCipher>(t: &mut T, form: Form, inp: &[u8], out: &mut [u8]) -> Res {
    let r = guarded(|| -> Result<(), String> {
        match form {
            Form::TryInPlace => t.try_apply_keystream(out).map_err(errs),
            Form::TryB2b => t.try_apply_keystream_b2b(inp, out).map_err(errs),
            Form::TryInOut => {
                let b = InOutBuf::new(inp, out).map_err(errs)?;
                t.try_apply_keystream_inout(b).map_err(errs)
            }
            Form::TryInOutSame => t.try_apply_keystream_inout(InOutBuf::from(out)).map_err(errs),
            Form::TryWrite => t.try_write_keystream(out).map_err(errs),
            Form::InPlace => {
                t.apply_keystream(out);
                Ok(())
            }
            Form::B2b => {
                t.apply_keystream_b2b(inp, out);
                Ok(())
            }
            Form::InOut => {
                let b = InOutBuf::new(inp, out).map_err(errs)?;
                t.apply_keystream_inout(b);
                Ok(())
            }
            Form::Write => {
                t.write_keystream(out);
                Ok(())
            }
            Form::UncheckedInPlace => {
                t.unchecked_apply_keystream(out);
                Ok(())
            }
            Form::UncheckedB2b => t.unchecked_apply_keystream_b2b(inp, out).map_err(errs),
            Form::UncheckedInOut => {
                let b = InOutBuf::new(inp, out).map_err(errs)?;
                t.unchecked_apply_keystream_inout(b);
                Ok(())
            }
            Form::UncheckedWrite => {
                t.unchecked_write_keystream(out);
                Ok(())
            }
            Form::MutRefInPlace => {
                let mut r = &mut *t;
                StreamCipher::try_apply_keystream(&mut r, out).map_err(errs)
            }
            Form::MutRefWrite => {
                let mut r = &mut *t;
                StreamCipher::try_write_keystream(&mut r, out).map_err(errs)
            }
        }
    });
    match r {
        Out::Ok(Ok(())) => Res::Ok,
        Out::Ok(Err(e)) => Res::Err(e),
        Out::Panic(p) => Res::Panic(p.msg),
        Out::Injected => Res::Injected,
    }
}

/// A stream cipher object.
pub trait Obj: Send {
    fn call(&mut self, form: Form, inp: &[u8], out: &mut [u8]) -> Res;
    fn check(&self, n: usize) -> bool;
    /// `None`: not seekable, or the number does not fit the type.
    fn seek(&mut self, num: Num, pos: u128, panicking: bool) -> Option<Res>;
    /// Position if it can be told.
    fn pos(&self, num: Num, panicking: bool) -> Option<Result<u128, Res>>;
    fn blk(&self) -> Option<u128>;
    fn dbg(&self, pretty: bool) -> Option<String>;
    /// The same object at another address.
    fn relocate(self: Box<Self>) -> Box<dyn Obj>;
    /// Offset and size of the cipher core inside the object.
    fn core_span(&self) -> (usize, usize);
}

/// Through the stack to a fresh heap block (the old one is still held).
#[inline(never)]
fn moved<T: Obj + 'static>(b: Box<T>) -> Box<dyn Obj> {
    let pad = Box::new([0u8; 64]);
    let v = *b;
    let r = Box::new(v);
    drop(pad);
    r
}

fn do_seek<T: StreamCipherSeek, N: SeekNum + TryFrom<u128>>(t: &mut T, pos: u128, panicking: bool) -> Option<Res> {
    let n = N::try_from(pos).ok()?;
    Some(match guarded(|| {
        if panicking {
            t.seek(n);
            Ok(())
        } else {
            t.try_seek(n).map_err(errs)
        }
    }) {
        Out::Ok(Ok(())) => Res::Ok,
        Out::Ok(Err(e)) => Res::Err(e),
        Out::Panic(p) => Res::Panic(p.msg),
        Out::Injected => Res::Injected,
    })
}
fn do_pos<T: StreamCipherSeek, N: SeekNum + TryInto<u128>>(t: &T, panicking: bool) -> Result<u128, Res> {
    match guarded(|| {
        if panicking { Ok(t.current_pos::<N>()) } else { t.try_current_pos::<N>().map_err(errs) }
    }) {
        Out::Ok(Ok(v)) => v.try_into().map_err(|_| Res::Err("negative position".into())),
        Out::Ok(Err(e)) => Err(Res::Err(e)),
        Out::Panic(p) => Err(Res::Panic(p.msg)),
        Out::Injected => Err(Res::Injected),
    }
}
pub fn seek_num<T: StreamCipherSeek>(t: &mut T, num: Num, pos: u128, panicking: bool) -> Option<Res> {
    match num {
        Num::U64 => do_seek::<T, u64>(t, pos, panicking),
        Num::U128 => do_seek::<T, u128>(t, pos, panicking),
        Num::U32 => do_seek::<T, u32>(t, pos, panicking),
        Num::I32 => do_seek::<T, i32>(t, pos, panicking),
        Num::Usize => do_seek::<T, usize>(t, pos, panicking),
    }
}
pub fn pos_num<T: StreamCipherSeek>(t: &T, num: Num, panicking: bool) -> Result<u128, Res> {
    match num {
        Num::U64 => do_pos::<T, u64>(t, panicking),
        Num::U128 => do_pos::<T, u128>(t, panicking),
        Num::U32 => do_pos::<T, u32>(t, panicking),
        Num::I32 => do_pos::<T, i32>(t, panicking),
        Num::Usize => do_pos::<T, usize>(t, panicking),
    }
}

// --- Debug output if (and only if) the type has any ------------------------

pub struct Probe<'a, T>(pub &'a T);
pub trait ViaDebug {
    fn show(&self, pretty: bool) -> Option<String>;
    fn put(&self, pretty: bool, w: &mut dyn std::fmt::Write);
}
impl<T: std::fmt::Debug> ViaDebug for Probe<'_, T> {
    fn show(&self, pretty: bool) -> Option<String> {
        let v = self.0;
        Some(if pretty {
            format!("{v:#?} {:#x?}", Some((v, v)))
        } else {
            format!("{v:?} {v:x?} {v:X?} {v:40?} {v:.2?} {v:+?} {v:08?}")
        })
    }
    fn put(&self, pretty: bool, w: &mut dyn std::fmt::Write) {
        let _ = if pretty { write!(w, "{:#?}", self.0) } else { write!(w, "{:?}", self.0) };
    }
}
pub trait ViaNothing {
    fn show(&self, _pretty: bool) -> Option<String> {
        None
    }
    fn put(&self, _pretty: bool, _w: &mut dyn std::fmt::Write) {}
}
impl<T> ViaNothing for &Probe<'_, T> {}

// --- the types -------------------------------------------------------------

/// Everything the simulator needs to know about a core type.
pub trait Build: StreamCipherCore + BlockSizeUser<BlockSize = Self::BS> + Send + Sized + 'static {
    type BS: ArraySize + BlockSizes;
    const ALG: Alg;
    fn core(key: &[u8], iv: &[u8], ctor: u64) -> Self;
    fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self>;
    fn obj(w: StreamCipherCoreWrapper<Self>) -> Box<dyn Obj>;
    fn dbg_core(&self, pretty: bool) -> Option<String>;
    fn dbg_wrap(w: &StreamCipherCoreWrapper<Self>, pretty: bool) -> Option<String>;
    fn put_wrap(w: &StreamCipherCoreWrapper<Self>, pretty: bool, to: &mut dyn std::fmt::Write);
    fn blk(&self) -> Option<u128>;
    fn set_blk(&mut self, b: u128) -> bool;
    fn seek_w(w: &mut StreamCipherCoreWrapper<Self>, num: Num, pos: u128) -> bool;
    fn pos_w(w: &StreamCipherCoreWrapper<Self>) -> Option<u128>;
}

pub trait CoreOf {
    type Core;
}
impl<T: StreamCipherCore> CoreOf for StreamCipherCoreWrapper<T>
where
    T::BlockSize: BlockSizes,
{
    type Core = T;
}

fn kiv<T: KeyIvInit>(key: &[u8], iv: &[u8], ctor: u64) -> T {
    if ctor % 2 == 0 {
        T::new_from_slices(key, iv).expect("key and IV lengths are right")
    } else {
        let k: &cipher::Key<T> = key.try_into().expect("key length");
        let i: &cipher::Iv<T> = iv.try_into().expect("IV length");
        T::new(k, i)
    }
}
fn kinit<T: KeyInit>(key: &[u8], ctor: u64) -> T {
    if ctor % 2 == 0 {
        T::new_from_slice(key).expect("key length is right")
    } else {
        let k: &cipher::Key<T> = key.try_into().expect("key length");
        T::new(k)
    }
}

pub struct Sk<C: Build>(pub StreamCipherCoreWrapper<C>);
pub struct Ns<C: Build>(pub StreamCipherCoreWrapper<C>);

impl<C: Build + StreamCipherSeekCore> Obj for Sk<C>
where
    C::Counter: TryInto<u128>,
{
    fn call(&mut self, form: Form, inp: &[u8], out: &mut [u8]) -> Res {
        call_form(&mut self.0, form, inp, out)
    }
    fn check(&self, n: usize) -> bool {
        self.0.check_remaining(n).is_ok()
    }
    fn seek(&mut self, num: Num, pos: u128, panicking: bool) -> Option<Res> {
        seek_num(&mut self.0, num, pos, panicking)
    }
    fn pos(&self, num: Num, panicking: bool) -> Option<Result<u128, Res>> {
        Some(pos_num(&self.0, num, panicking))
    }
    fn blk(&self) -> Option<u128> {
        self.0.get_core().blk()
    }
    fn dbg(&self, pretty: bool) -> Option<String> {
        C::dbg_wrap(&self.0, pretty)
    }
    fn relocate(self: Box<Self>) -> Box<dyn Obj> {
        moved(self)
    }
    fn core_span(&self) -> (usize, usize) {
        let core = self.0.get_core();
        (core as *const C as usize - self as *const Self as usize, size_of::<C>())
    }
}
impl<C: Build> Obj for Ns<C> {
    fn call(&mut self, form: Form, inp: &[u8], out: &mut [u8]) -> Res {
        call_form(&mut self.0, form, inp, out)
    }
    fn check(&self, n: usize) -> bool {
        self.0.check_remaining(n).is_ok()
    }
    fn seek(&mut self, _: Num, _: u128, _: bool) -> Option<Res> {
        None
    }
    fn pos(&self, _: Num, _: bool) -> Option<Result<u128, Res>> {
        None
    }
    fn blk(&self) -> Option<u128> {
        None
    }
    fn dbg(&self, pretty: bool) -> Option<String> {
        C::dbg_wrap(&self.0, pretty)
    }
    fn relocate(self: Box<Self>) -> Box<dyn Obj> {
        moved(self)
    }
    fn core_span(&self) -> (usize, usize) {
        let core = self.0.get_core();
        (core as *const C as usize - self as *const Self as usize, size_of::<C>())
    }
}

macro_rules! build_common {
    ($core:ty, $alg:ident, $bs:ty) => {
        type BS = $bs;
        const ALG: Alg = Alg::$alg;
        fn dbg_core(&self, pretty: bool) -> Option<String> {
            (&Probe::<$core>(self)).show(pretty)
        }
        fn dbg_wrap(w: &StreamCipherCoreWrapper<Self>, pretty: bool) -> Option<String> {
            (&Probe::<StreamCipherCoreWrapper<$core>>(w)).show(pretty)
        }
        fn put_wrap(w: &StreamCipherCoreWrapper<Self>, pretty: bool, to: &mut dyn std::fmt::Write) {
            (&Probe::<StreamCipherCoreWrapper<$core>>(w)).put(pretty, to)
        }
    };
}
macro_rules! seekable {
    () => {
        fn obj(w: StreamCipherCoreWrapper<Self>) -> Box<dyn Obj> {
            Box::new(Sk(w))
        }
        fn blk(&self) -> Option<u128> {
            Some(StreamCipherSeekCore::get_block_pos(self).try_into().unwrap())
        }
        fn set_blk(&mut self, b: u128) -> bool {
            match b.try_into() {
                Ok(c) => {
                    StreamCipherSeekCore::set_block_pos(self, c);
                    true
                }
                Err(_) => false,
            }
        }
        fn seek_w(w: &mut StreamCipherCoreWrapper<Self>, num: Num, pos: u128) -> bool {
            matches!(seek_num(w, num, pos, false), Some(Res::Ok))
        }
        fn pos_w(w: &StreamCipherCoreWrapper<Self>) -> Option<u128> {
            pos_num(w, Num::U128, false).ok()
        }
    };
}
#[cfg(feature = "others")]
macro_rules! not_seekable {
    () => {
        fn obj(w: StreamCipherCoreWrapper<Self>) -> Box<dyn Obj> {
            Box::new(Ns(w))
        }
        fn blk(&self) -> Option<u128> {
            None
        }
        fn set_blk(&mut self, _: u128) -> bool {
            false
        }
        fn seek_w(_: &mut StreamCipherCoreWrapper<Self>, _: Num, _: u128) -> bool {
            false
        }
        fn pos_w(_: &StreamCipherCoreWrapper<Self>) -> Option<u128> {
            None
        }
    };
}
macro_rules! ctor_kiv {
    () => {
        fn core(key: &[u8], iv: &[u8], ctor: u64) -> Self {
            kiv(key, iv, ctor)
        }
        fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self> {
            if ctor % 4 < 2 {
                kiv(key, iv, ctor)
            } else {
                StreamCipherCoreWrapper::from_core(Self::core(key, iv, ctor))
            }
        }
    };
}
/// A round count of the caller's own.
#[derive(Copy, Clone, Debug)]
pub struct Own<const N: usize>;
impl<const N: usize> chacha20::Rounds for Own<N> {
    const COUNT: usize = N;
}
pub type ChaCha6Wrap = StreamCipherCoreWrapper<chacha20::ChaChaCore<Own<3>, chacha20::variants::Ietf>>;

macro_rules! chacha {
    ($($wrap:ty, $alg:ident;)*) => {$(
        impl Build for <$wrap as CoreOf>::Core {
            build_common!(<$wrap as CoreOf>::Core, $alg, cipher::consts::U64);
            seekable!();
            ctor_kiv!();
        }
    )*};
}
chacha! {
    ChaCha6Wrap, ChaCha6;
    chacha20::ChaCha8, ChaCha8;
    chacha20::ChaCha12, ChaCha12;
    chacha20::ChaCha20, ChaCha20;
    chacha20::ChaCha20Legacy, ChaCha20Legacy;
    chacha20::XChaCha8, XChaCha8;
    chacha20::XChaCha12, XChaCha12;
    chacha20::XChaCha20, XChaCha20;
}
#[cfg(feature = "rng")]
macro_rules! djb {
    ($r:ty, $alg:ident) => {
        impl Build for chacha20::ChaChaCore<$r, chacha20::variants::Legacy> {
            build_common!(chacha20::ChaChaCore<$r, chacha20::variants::Legacy>, $alg, cipher::consts::U64);
            seekable!();
            fn core(key: &[u8], _iv: &[u8], _ctor: u64) -> Self {
                rand_core::SeedableRng::from_seed(key.try_into().expect("seed length"))
            }
            fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self> {
                StreamCipherCoreWrapper::from_core(Self::core(key, iv, ctor))
            }
        }
    };
}
#[cfg(feature = "rng")]
djb!(chacha20::R8, ChaCha8Djb);
#[cfg(feature = "rng")]
djb!(chacha20::R12, ChaCha12Djb);
#[cfg(feature = "rng")]
djb!(Own<7>, ChaCha14Djb);

#[cfg(feature = "others")]
macro_rules! salsa {
    ($($n:ty, $alg:ident;)*) => {$(
        impl Build for salsa20::SalsaCore<$n> {
            build_common!(salsa20::SalsaCore<$n>, $alg, cipher::consts::U64);
            seekable!();
            fn core(key: &[u8], iv: &[u8], ctor: u64) -> Self {
                if ctor % 3 == 2 {
                    Self::from_raw_state(confine::pause(|| crate::model::Model::new(Alg::$alg, key, iv).raw_state(0)))
                } else {
                    kiv(key, iv, ctor)
                }
            }
            fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self> {
                if ctor % 4 < 2 {
                    kiv(key, iv, ctor)
                } else {
                    StreamCipherCoreWrapper::from_core(Self::core(key, iv, ctor))
                }
            }
        }
    )*};
}
#[cfg(feature = "others")]
macro_rules! xsalsa {
    ($($n:ty, $alg:ident;)*) => {$(
        impl Build for salsa20::XSalsaCore<$n> {
            build_common!(salsa20::XSalsaCore<$n>, $alg, cipher::consts::U64);
            seekable!();
            ctor_kiv!();
        }
    )*};
}
#[cfg(feature = "others")]
mod others {
    use super::*;
    use cipher::consts::{U3, U4, U5, U6, U10, U16};
    salsa! { U3, Salsa6; U4, Salsa8; U6, Salsa12; U10, Salsa20; }
    xsalsa! { U4, XSalsa8; U5, XSalsa10; U6, XSalsa12; U10, XSalsa20; }

    impl Build for hc_256::Hc256Core {
        build_common!(hc_256::Hc256Core, Hc256, U4);
        not_seekable!();
        ctor_kiv!();
    }
    pub type RabbitCore = <rabbit::Rabbit as CoreOf>::Core;
    pub type RabbitKeyOnlyCore = <rabbit::RabbitKeyOnly as CoreOf>::Core;
    impl Build for RabbitCore {
        build_common!(RabbitCore, Rabbit, U16);
        not_seekable!();
        fn core(key: &[u8], iv: &[u8], ctor: u64) -> Self {
            if ctor % 3 == 2 {
                let inner = kinit::<RabbitKeyOnlyCore>(key, ctor);
                <Self as cipher::InnerIvInit>::inner_iv_slice_init(inner, iv).expect("IV length")
            } else {
                kiv(key, iv, ctor)
            }
        }
        fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self> {
            if ctor % 4 < 2 {
                kiv(key, iv, ctor)
            } else {
                StreamCipherCoreWrapper::from_core(Self::core(key, iv, ctor))
            }
        }
    }
    impl Build for RabbitKeyOnlyCore {
        build_common!(RabbitKeyOnlyCore, RabbitKeyOnly, U16);
        not_seekable!();
        fn core(key: &[u8], _iv: &[u8], ctor: u64) -> Self {
            kinit(key, ctor)
        }
        fn wrap(key: &[u8], iv: &[u8], ctor: u64) -> StreamCipherCoreWrapper<Self> {
            if ctor % 4 < 2 {
                kinit(key, ctor)
            } else {
                StreamCipherCoreWrapper::from_core(Self::core(key, iv, ctor))
            }
        }
    }

    pub struct RcObj(pub rc4::Rc4);
    impl Obj for RcObj {
        fn call(&mut self, form: Form, inp: &[u8], out: &mut [u8]) -> Res {
            call_form(&mut self.0, form, inp, out)
        }
        fn check(&self, n: usize) -> bool {
            self.0.check_remaining(n).is_ok()
        }
        fn seek(&mut self, _: Num, _: u128, _: bool) -> Option<Res> {
            None
        }
        fn pos(&self, _: Num, _: bool) -> Option<Result<u128, Res>> {
            None
        }
        fn blk(&self) -> Option<u128> {
            None
        }
        fn dbg(&self, pretty: bool) -> Option<String> {
            (&Probe::<rc4::Rc4>(&self.0)).show(pretty)
        }
        fn relocate(self: Box<Self>) -> Box<dyn Obj> {
            moved(self)
        }
        fn core_span(&self) -> (usize, usize) {
            (0, size_of::<rc4::Rc4>())
        }
    }
    pub fn rc4(key: &[u8], ctor: u64) -> rc4::Rc4 {
        if key.len() == 32 { kinit(key, ctor) } else { kinit(key, 0) }
    }
}
#[cfg(feature = "others")]
pub use others::*;

/// Every algorithm this build contains.
pub fn algs() -> &'static [Alg] {
    use Alg::*;
    #[cfg(all(feature = "others", feature = "rng"))]
    return &[
        ChaCha20, ChaCha8, ChaCha12, ChaCha20Legacy, ChaCha8Djb, ChaCha12Djb, XChaCha20, XChaCha8, XChaCha12,
        Salsa20, Salsa8, Salsa12, XSalsa20, XSalsa8, XSalsa12, Rabbit, RabbitKeyOnly, Hc256, Rc4,
        ChaCha6, ChaCha14Djb, Salsa6, XSalsa10,
    ];
    #[cfg(not(all(feature = "others", feature = "rng")))]
    return &[ChaCha20, ChaCha8, ChaCha12, ChaCha20Legacy, XChaCha20, XChaCha8, XChaCha12, ChaCha6];
}

/// Run `$e` with `$C` naming the core type of `$alg` (RC4 has none).
#[macro_export]
macro_rules! with_core {
    ($alg:expr, $C:ident, $e:expr) => {{
        use $crate::ciphers::CoreOf;
        use $crate::model::Alg as A;
        macro_rules! go {
            ($t:ty) => {{
                type $C = $t;
                $e
            }};
        }
        match $alg {
            A::ChaCha6 => go!(<$crate::ciphers::ChaCha6Wrap as CoreOf>::Core),
            A::ChaCha8 => go!(<chacha20::ChaCha8 as CoreOf>::Core),
            A::ChaCha12 => go!(<chacha20::ChaCha12 as CoreOf>::Core),
            A::ChaCha20 => go!(<chacha20::ChaCha20 as CoreOf>::Core),
            A::ChaCha20Legacy => go!(<chacha20::ChaCha20Legacy as CoreOf>::Core),
            A::XChaCha8 => go!(<chacha20::XChaCha8 as CoreOf>::Core),
            A::XChaCha12 => go!(<chacha20::XChaCha12 as CoreOf>::Core),
            A::XChaCha20 => go!(<chacha20::XChaCha20 as CoreOf>::Core),
            #[cfg(feature = "rng")]
            A::ChaCha8Djb => go!(chacha20::ChaChaCore<chacha20::R8, chacha20::variants::Legacy>),
            #[cfg(feature = "rng")]
            A::ChaCha12Djb => go!(chacha20::ChaChaCore<chacha20::R12, chacha20::variants::Legacy>),
            #[cfg(feature = "rng")]
            A::ChaCha14Djb => go!(chacha20::ChaChaCore<$crate::ciphers::Own<7>, chacha20::variants::Legacy>),
            #[cfg(feature = "others")]
            A::Salsa6 => go!(salsa20::SalsaCore<cipher::consts::U3>),
            #[cfg(feature = "others")]
            A::XSalsa10 => go!(salsa20::XSalsaCore<cipher::consts::U5>),
            #[cfg(feature = "others")]
            A::Salsa8 => go!(<salsa20::Salsa8 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::Salsa12 => go!(<salsa20::Salsa12 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::Salsa20 => go!(<salsa20::Salsa20 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::XSalsa8 => go!(<salsa20::XSalsa8 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::XSalsa12 => go!(<salsa20::XSalsa12 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::XSalsa20 => go!(<salsa20::XSalsa20 as CoreOf>::Core),
            #[cfg(feature = "others")]
            A::Rabbit => go!($crate::ciphers::RabbitCore),
            #[cfg(feature = "others")]
            A::RabbitKeyOnly => go!($crate::ciphers::RabbitKeyOnlyCore),
            #[cfg(feature = "others")]
            A::Hc256 => go!(hc_256::Hc256Core),
            other => panic!("no core for {}", other.name()),
        }
    }};
}

pub fn make(alg: Alg, key: &[u8], iv: &[u8], ctor: u64) -> Box<dyn Obj> {
    #[cfg(feature = "others")]
    if alg == Alg::Rc4 {
        return Box::new(RcObj(confine::call(|| rc4(key, ctor))));
    }
    with_core!(alg, C, <C as Build>::obj(confine::call(|| <C as Build>::wrap(key, iv, ctor))))
}

/// Try to construct with (possibly wrong) key and IV lengths.
pub fn try_make(alg: Alg, key: &[u8], iv: &[u8]) -> Result<(), String> {
    fn t<T: KeyIvInit>(key: &[u8], iv: &[u8]) -> Result<(), String> {
        T::new_from_slices(key, iv).map(|_| ()).map_err(errs)
    }
    #[cfg(feature = "others")]
    fn k<T: KeyInit>(key: &[u8]) -> Result<(), String> {
        T::new_from_slice(key).map(|_| ()).map_err(errs)
    }
    use Alg::*;
    match alg {
        ChaCha6 => t::<ChaCha6Wrap>(key, iv),
        ChaCha8 => t::<chacha20::ChaCha8>(key, iv),
        ChaCha12 => t::<chacha20::ChaCha12>(key, iv),
        ChaCha20 => t::<chacha20::ChaCha20>(key, iv),
        ChaCha20Legacy => t::<chacha20::ChaCha20Legacy>(key, iv),
        XChaCha8 => t::<chacha20::XChaCha8>(key, iv),
        XChaCha12 => t::<chacha20::XChaCha12>(key, iv),
        XChaCha20 => t::<chacha20::XChaCha20>(key, iv),
        #[cfg(feature = "others")]
        Salsa6 => t::<StreamCipherCoreWrapper<salsa20::SalsaCore<cipher::consts::U3>>>(key, iv),
        #[cfg(feature = "others")]
        XSalsa10 => t::<StreamCipherCoreWrapper<salsa20::XSalsaCore<cipher::consts::U5>>>(key, iv),
        #[cfg(feature = "others")]
        Salsa8 => t::<salsa20::Salsa8>(key, iv),
        #[cfg(feature = "others")]
        Salsa12 => t::<salsa20::Salsa12>(key, iv),
        #[cfg(feature = "others")]
        Salsa20 => t::<salsa20::Salsa20>(key, iv),
        #[cfg(feature = "others")]
        XSalsa8 => t::<salsa20::XSalsa8>(key, iv),
        #[cfg(feature = "others")]
        XSalsa12 => t::<salsa20::XSalsa12>(key, iv),
        #[cfg(feature = "others")]
        XSalsa20 => t::<salsa20::XSalsa20>(key, iv),
        #[cfg(feature = "others")]
        Rabbit => t::<rabbit::Rabbit>(key, iv),
        #[cfg(feature = "others")]
        Hc256 => t::<hc_256::Hc256>(key, iv),
        #[cfg(feature = "others")]
        RabbitKeyOnly => k::<rabbit::RabbitKeyOnly>(key),
        #[cfg(feature = "others")]
        Rc4 => k::<rc4::Rc4>(key),
        _ => Err("n/a".into()),
    }
}

/// The library's key derivation functions.
pub fn derive(salsa: bool, dr: usize, key: &[u8; 32], inp: &[u8; 16]) -> [u8; 32] {
    if salsa {
        #[cfg(feature = "others")]
        {
            use cipher::consts::{U1, U3, U4, U5, U6, U7, U10};
            return match dr {
                1 => salsa20::hsalsa::<U1>(key.into(), inp.into()).into(),
                3 => salsa20::hsalsa::<U3>(key.into(), inp.into()).into(),
                5 => salsa20::hsalsa::<U5>(key.into(), inp.into()).into(),
                7 => salsa20::hsalsa::<U7>(key.into(), inp.into()).into(),
                4 => salsa20::hsalsa::<U4>(key.into(), inp.into()).into(),
                6 => salsa20::hsalsa::<U6>(key.into(), inp.into()).into(),
                _ => salsa20::hsalsa::<U10>(key.into(), inp.into()).into(),
            };
        }
    }
    match dr {
        1 => chacha20::hchacha::<Own<1>>(key.into(), inp.into()).into(),
        3 => chacha20::hchacha::<Own<3>>(key.into(), inp.into()).into(),
        5 => chacha20::hchacha::<Own<5>>(key.into(), inp.into()).into(),
        7 => chacha20::hchacha::<Own<7>>(key.into(), inp.into()).into(),
        4 => chacha20::hchacha::<chacha20::R8>(key.into(), inp.into()).into(),
        6 => chacha20::hchacha::<chacha20::R12>(key.into(), inp.into()).into(),
        _ => chacha20::hchacha::<chacha20::R20>(key.into(), inp.into()).into(),
    }
}

// --- block level -----------------------------------------------------------

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Step {
    Stop,
    Panic,
    Single,
    Par,
    Tail(usize),
}

/// Decides what a block session asks for, and sees what it gets.
pub trait Script {
    fn next(&mut self, par: usize) -> Step;
    /// Memory for `n` bytes of blocks.
    fn target(&mut self, n: usize) -> *mut u8;
    fn got(&mut self, step: Step, blocks: &[u8]);
}

struct ScriptClosure<'a, BS: ArraySize> {
    s: &'a mut dyn Script,
    _bs: std::marker::PhantomData<BS>,
}
impl<BS: ArraySize> BlockSizeUser for ScriptClosure<'_, BS> {
    type BlockSize = BS;
}
impl<BS: ArraySize> StreamCipherClosure for ScriptClosure<'_, BS> {
    fn call<B: StreamCipherBackend<BlockSize = BS>>(self, backend: &mut B) {
        let par = B::ParBlocksSize::USIZE;
        let bs = BS::USIZE;
        loop {
            let step = confine::pause(|| self.s.next(par));
            match step {
                Step::Stop => return,
                Step::Panic => std::panic::panic_any(Injected),
                Step::Single => {
                    let p = confine::pause(|| self.s.target(bs));
                    // SAFETY: `target` returns memory for that many bytes
                    let m = unsafe { std::slice::from_raw_parts_mut(p, bs) };
                    let b: &mut Block<B> = m.try_into().expect("block size");
                    backend.gen_ks_block(b);
                    confine::pause(|| self.s.got(step, m_of(p, bs)));
                }
                Step::Par => {
                    let n = bs * par;
                    let p = confine::pause(|| self.s.target(n));
                    // SAFETY: as above
                    let m = unsafe { std::slice::from_raw_parts_mut(p, n) };
                    let (bl, _) = Array::<u8, BS>::slice_as_chunks_mut(m);
                    let pb: &mut ParBlocks<B> = bl.try_into().expect("parallel size");
                    backend.gen_par_ks_blocks(pb);
                    confine::pause(|| self.s.got(step, m_of(p, n)));
                }
                Step::Tail(k) => {
                    let n = bs * k;
                    let p = confine::pause(|| self.s.target(n));
                    // SAFETY: as above
                    let m = unsafe { std::slice::from_raw_parts_mut(p, n) };
                    let (bl, _) = Array::<u8, BS>::slice_as_chunks_mut(m);
                    backend.gen_tail_blocks(bl);
                    confine::pause(|| self.s.got(step, m_of(p, n)));
                }
            }
        }
    }
}
fn m_of<'a>(p: *mut u8, n: usize) -> &'a [u8] {
    // SAFETY: see `target`
    unsafe { std::slice::from_raw_parts(p, n) }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Simple {
    WriteBlock,
    WriteBlocks,
    ApplyBlock,
    ApplyBlockInOut,
    ApplyBlocks,
    ApplyBlocksInOut,
}
pub const SIMPLES: [Simple; 6] = [
    Simple::WriteBlock,
    Simple::WriteBlocks,
    Simple::ApplyBlock,
    Simple::ApplyBlockInOut,
    Simple::ApplyBlocks,
    Simple::ApplyBlocksInOut,
];
impl Simple {
    pub fn one(self) -> bool {
        matches!(self, Simple::WriteBlock | Simple::ApplyBlock | Simple::ApplyBlockInOut)
    }
    pub fn writes(self) -> bool {
        matches!(self, Simple::WriteBlock | Simple::WriteBlocks)
    }
    pub fn separate(self) -> bool {
        matches!(self, Simple::ApplyBlockInOut | Simple::ApplyBlocksInOut)
    }
}

/// A bare cipher core.
pub trait CoreObj: Send {
    fn session(&mut self, s: &mut dyn Script) -> Res;
    fn simple(&mut self, k: Simple, inp: &[u8], out: &mut [u8]) -> Res;
    fn remaining(&self) -> Option<usize>;
    fn blk(&self) -> Option<u128>;
    fn set_blk(&mut self, b: u128) -> bool;
    /// Consuming one-shot; `separate` uses `inp`, otherwise in place.
    fn partial(self: Box<Self>, inp: &[u8], out: &mut [u8], separate: bool, panicking: bool) -> Res;
    fn into_stream(self: Box<Self>) -> Box<dyn Obj>;
    fn dbg(&self, pretty: bool) -> Option<String>;
    fn relocate(self: Box<Self>) -> Box<dyn CoreObj>;
}

pub struct Core<C>(pub C);

fn res(o: Out<Result<(), String>>) -> Res {
    match o {
        Out::Ok(Ok(())) => Res::Ok,
        Out::Ok(Err(e)) => Res::Err(e),
        Out::Panic(p) => Res::Panic(p.msg),
        Out::Injected => Res::Injected,
    }
}

impl<C: Build> CoreObj for Core<C> {
    fn session(&mut self, s: &mut dyn Script) -> Res {
        res(guarded(|| {
            self.0.process_with_backend(ScriptClosure::<C::BS> { s, _bs: std::marker::PhantomData });
            Ok(())
        }))
    }
    fn simple(&mut self, k: Simple, inp: &[u8], out: &mut [u8]) -> Res {
        let c = &mut self.0;
        res(guarded(|| {
            let (ib, _) = Array::<u8, C::BS>::slice_as_chunks(inp);
            let (ob, _) = Array::<u8, C::BS>::slice_as_chunks_mut(out);
            match k {
                Simple::WriteBlock => c.write_keystream_block(&mut ob[0]),
                Simple::WriteBlocks => c.write_keystream_blocks(ob),
                Simple::ApplyBlock => c.apply_keystream_block_inout(InOut::from(&mut ob[0])),
                Simple::ApplyBlockInOut => c.apply_keystream_block_inout(InOut::from((&ib[0], &mut ob[0]))),
                Simple::ApplyBlocks => c.apply_keystream_blocks(ob),
                Simple::ApplyBlocksInOut => {
                    c.apply_keystream_blocks_inout(InOutBuf::new(ib, ob).map_err(errs)?);
                }
            }
            Ok(())
        }))
    }
    fn remaining(&self) -> Option<usize> {
        self.0.remaining_blocks()
    }
    fn blk(&self) -> Option<u128> {
        self.0.blk()
    }
    fn set_blk(&mut self, b: u128) -> bool {
        self.0.set_blk(b)
    }
    fn partial(self: Box<Self>, inp: &[u8], out: &mut [u8], separate: bool, panicking: bool) -> Res {
        res(guarded(|| {
            let buf = if separate { InOutBuf::new(inp, out).map_err(errs)? } else { InOutBuf::from(out) };
            if panicking {
                self.0.apply_keystream_partial(buf);
                Ok(())
            } else {
                self.0.try_apply_keystream_partial(buf).map_err(errs)
            }
        }))
    }
    fn into_stream(self: Box<Self>) -> Box<dyn Obj> {
        C::obj(StreamCipherCoreWrapper::from_core(self.0))
    }
    fn dbg(&self, pretty: bool) -> Option<String> {
        self.0.dbg_core(pretty)
    }
    fn relocate(self: Box<Self>) -> Box<dyn CoreObj> {
        let v = *self;
        Box::new(v)
    }
}

pub fn make_core(alg: Alg, key: &[u8], iv: &[u8], ctor: u64) -> Box<dyn CoreObj> {
    with_core!(alg, C, Box::new(Core(confine::call(|| <C as Build>::core(key, iv, ctor)))))
}
