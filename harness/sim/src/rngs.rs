//! The generators behind one handle, and their reference model.

use crate::model::Model;
use crate::sim;
use chacha20::variants::{Ietf, Legacy};
use chacha20::{ChaCha8Rng, ChaCha12Rng, ChaCha20Rng, ChaChaCore, R8, R12, R20};
use rand_core::block::Generator;
use rand_core::{Rng, SeedableRng, TryRng};

pub const WORDS: u128 = 1 << 68;
pub const MASK: u128 = WORDS - 1;

#[allow(clippy::large_enum_variant)]
pub enum Gen {
    R8(ChaCha8Rng),
    R12(ChaCha12Rng),
    R20(ChaCha20Rng),
}
macro_rules! each {
    ($s:expr, $r:ident => $e:expr) => {
        match $s {
            Gen::R8($r) => $e,
            Gen::R12($r) => $e,
            Gen::R20($r) => $e,
        }
    };
}
/// Makes a generator of whichever type it is asked for.
pub trait Visit {
    type E;
    fn seeded<T: SeedableRng<Seed = [u8; 32]>>(&mut self) -> Result<T, Self::E>;
}
/// Does something with a generator of whichever type it is given.
pub trait Feed {
    type Out;
    fn feed<R: Rng>(self, r: &mut R) -> Self::Out;
}
pub const KINDS: [usize; 3] = [10, 4, 6];

impl Gen {
    pub fn new(dr: usize, seed: [u8; 32]) -> Gen {
        crate::mem::confine::call(|| match dr {
            4 => Gen::R8(ChaCha8Rng::from_seed(seed)),
            6 => Gen::R12(ChaCha12Rng::from_seed(seed)),
            _ => Gen::R20(ChaCha20Rng::from_seed(seed)),
        })
    }
    /// Through any of the constructors that take their seed from elsewhere.
    pub fn seed_with<V: Visit>(dr: usize, v: &mut V) -> Result<Gen, V::E> {
        Ok(match dr {
            4 => Gen::R8(v.seeded()?),
            6 => Gen::R12(v.seeded()?),
            _ => Gen::R20(v.seeded()?),
        })
    }
    pub fn child(&mut self, fallible: bool) -> Gen {
        fn of<T: SeedableRng + Rng>(g: &mut T, fallible: bool) -> T
        where
            T: TryRng<Error = std::convert::Infallible>,
        {
            if fallible { g.try_fork().unwrap_or_else(|e| match e {}) } else { g.fork() }
        }
        match self {
            Gen::R8(r) => Gen::R8(of(r, fallible)),
            Gen::R12(r) => Gen::R12(of(r, fallible)),
            Gen::R20(r) => Gen::R20(of(r, fallible)),
        }
    }
    /// As a source of entropy for another generator.
    pub fn feed<V: Feed>(&mut self, v: V) -> V::Out {
        each!(self, r => v.feed(r))
    }
    pub fn restore(dr: usize, img: &[u8; 49]) -> Gen {
        match dr {
            4 => Gen::R8(ChaCha8Rng::deserialize_state(img)),
            6 => Gen::R12(ChaCha12Rng::deserialize_state(img)),
            _ => Gen::R20(ChaCha20Rng::deserialize_state(img)),
        }
    }
    pub fn kind(&self) -> usize {
        match self {
            Gen::R8(_) => 4,
            Gen::R12(_) => 6,
            Gen::R20(_) => 10,
        }
    }
    pub fn u32(&mut self) -> u32 {
        each!(self, r => r.next_u32())
    }
    pub fn u64(&mut self) -> u64 {
        each!(self, r => r.next_u64())
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        each!(self, r => r.fill_bytes(b))
    }
    pub fn try_u32(&mut self) -> u32 {
        each!(self, r => r.try_next_u32().unwrap_or_else(|e| match e {}))
    }
    pub fn try_u64(&mut self) -> u64 {
        each!(self, r => r.try_next_u64().unwrap_or_else(|e| match e {}))
    }
    pub fn try_fill(&mut self, b: &mut [u8]) {
        each!(self, r => r.try_fill_bytes(b).unwrap_or_else(|e| match e {}))
    }
    pub fn word_pos(&self) -> u128 {
        each!(self, r => r.get_word_pos())
    }
    pub fn set_word_pos(&mut self, p: u128) {
        each!(self, r => r.set_word_pos(p))
    }
    pub fn block_pos(&self) -> u64 {
        each!(self, r => r.get_block_pos())
    }
    pub fn set_block_pos(&mut self, p: u64) {
        each!(self, r => r.set_block_pos(p))
    }
    pub fn stream(&self) -> u64 {
        each!(self, r => r.get_stream())
    }
    pub fn set_stream(&mut self, s: u64) {
        each!(self, r => r.set_stream(s))
    }
    pub fn seed(&self) -> [u8; 32] {
        each!(self, r => r.get_seed())
    }
    pub fn save(&self) -> [u8; 49] {
        each!(self, r => r.serialize_state())
    }
    pub fn put(&self, pretty: bool, w: &mut dyn std::fmt::Write) {
        let _ = each!(self, r => if pretty { write!(w, "{r:#?}") } else { write!(w, "{r:?}") });
    }
    pub fn dbg(&self, pretty: bool) -> String {
        each!(self, r => if pretty {
            format!("{r:#?} {:#x?}", Some((r, r)))
        } else {
            format!("{r:?} {r:x?} {r:X?} {r:40?} {r:.2?} {r:+?} {r:08?}")
        })
    }
    /// Address and size of the generator itself.
    pub fn span(&self) -> (usize, usize) {
        each!(self, r => (r as *const _ as usize, size_of_val(r)))
    }
    /// `None`: of different types.
    pub fn eq(&self, o: &Gen) -> Option<bool> {
        match (self, o) {
            (Gen::R8(a), Gen::R8(b)) => Some(a == b),
            (Gen::R12(a), Gen::R12(b)) => Some(a == b),
            (Gen::R20(a), Gen::R20(b)) => Some(a == b),
            _ => None,
        }
    }
    pub fn ne(&self, o: &Gen) -> Option<bool> {
        match (self, o) {
            (Gen::R8(a), Gen::R8(b)) => Some(a != b),
            (Gen::R12(a), Gen::R12(b)) => Some(a != b),
            (Gen::R20(a), Gen::R20(b)) => Some(a != b),
            _ => None,
        }
    }
}

/// What a generator is: a point on one fixed cyclic word sequence.
pub struct GenModel {
    pub dr: usize,
    pub seed: [u8; 32],
    pub stream: u64,
    pub pos: u128,
    m: Model,
}
impl GenModel {
    pub fn new(dr: usize, seed: [u8; 32]) -> GenModel {
        GenModel::at(dr, seed, 0, 0)
    }
    pub fn at(dr: usize, seed: [u8; 32], stream: u64, pos: u128) -> GenModel {
        GenModel { dr, seed, stream, pos: pos & MASK, m: Model::new_rng(dr, &seed, stream) }
    }
    pub fn fork(&self) -> GenModel {
        GenModel::at(self.dr, self.seed, self.stream, self.pos)
    }
    pub fn set_stream(&mut self, s: u64) {
        *self = GenModel::at(self.dr, self.seed, s, 0);
    }
    pub fn peek(&mut self, n: usize) -> Vec<u8> {
        self.m.ks_vec(self.pos * 4, n)
    }
    /// Take `n` bytes' worth of words.
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        let v = self.peek(n);
        self.pos = (self.pos + n.div_ceil(4) as u128) & MASK;
        v
    }
    pub fn same(&self, o: &GenModel) -> bool {
        self.seed == o.seed && self.stream == o.stream && self.pos == o.pos
    }
    pub fn image(&self) -> [u8; 49] {
        let mut v = [0u8; 49];
        v[..32].copy_from_slice(&self.seed);
        v[32..40].copy_from_slice(&self.stream.to_le_bytes());
        v[40..].copy_from_slice(&self.pos.to_le_bytes()[..9]);
        v
    }
    pub fn parse(dr: usize, img: &[u8; 49]) -> GenModel {
        let mut p = [0u8; 16];
        p[..9].copy_from_slice(&img[40..]);
        GenModel::at(
            dr,
            img[..32].try_into().unwrap(),
            u64::from_le_bytes(img[32..40].try_into().unwrap()),
            u128::from_le_bytes(p),
        )
    }
}

pub fn draw_seed() -> [u8; 32] {
    sim::bytes(32).try_into().unwrap()
}
pub fn draw_stream() -> u64 {
    match sim::d(6) {
        0 => 0,
        1 => sim::d(4),
        2 => u64::MAX - sim::d(3),
        3 => 1 << sim::d(64),
        4 => (1 << 32) - 1 + sim::d(3),
        _ => sim::d64(),
    }
}
/// Word positions: small, around powers of two (counter carries), around the
/// end of the period, and arbitrary ones, possibly beyond 68 bits.
pub fn draw_word_pos() -> u128 {
    let near = |p: u128| p.wrapping_add(sim::d(140) as u128).wrapping_sub(70);
    match sim::d(10) {
        0 => sim::d(200) as u128,
        1 => near(1 << (32 + 4)),
        2 => near(WORDS),
        3 => near(1u128 << sim::range(7, 68)),
        4 => near(WORDS - 64 * (1 + sim::d(5) as u128)),
        5 => near((sim::d64() as u32 as u128 + 1) << 36),
        6 => ((sim::d64() as u128) << 4) + sim::d(16) as u128,
        7 => ((sim::d64() as u128) << 64) | sim::d64() as u128,
        8 => (sim::d64() >> sim::d(64)) as u128,
        _ => sim::d(5000) as u128,
    }
}
pub fn draw_block_pos() -> u64 {
    let near = |p: u64| p.wrapping_add(sim::d(12)).wrapping_sub(6);
    match sim::d(6) {
        0 => sim::d(20),
        1 => near(1 << 32),
        2 => near(0),
        3 => near(1 << sim::d(64)),
        4 => near((sim::d64() >> 32).wrapping_add(1) << 32),
        _ => sim::d64(),
    }
}

/// One drawn operation of a generator's history, checked against the model.
/// Returns a code for the state signature.
pub fn step(g: &mut Gen, m: &mut GenModel, who: &str) -> u64 {
    use crate::ensure;
    use sim::must;
    sim::op();
    let before = m.pos;
    let k = sim::weighted(&[6, 6, 8, 3, 2, 2, 2, 1]);
    match k {
        0 => {
            let t = sim::chance(1, 4);
            let got = must("next_u32", || if t { g.try_u32() } else { g.u32() });
            let want = u32::from_le_bytes(m.take(4).try_into().unwrap());
            sim::ev("u32", &[got as u64], || format!("{who}: next_u32 at word {before:#x}"));
            ensure!(got == want, "word", "{who}: next_u32 at word {before:#x} gave {got:#x}, expected {want:#x}");
        }
        1 => {
            let t = sim::chance(1, 4);
            let got = must("next_u64", || if t { g.try_u64() } else { g.u64() });
            let want = u64::from_le_bytes(m.take(8).try_into().unwrap());
            sim::ev("u64", &[got], || format!("{who}: next_u64 at word {before:#x}"));
            ensure!(got == want, "word", "{who}: next_u64 at word {before:#x} gave {got:#x}, expected {want:#x}");
        }
        2 => {
            let n = fill_len();
            let t = sim::chance(1, 4);
            let mut b = vec![0x5au8; n];
            must("fill_bytes", || if t { g.try_fill(&mut b) } else { g.fill(&mut b) });
            let want = m.take(n);
            sim::ev("fill", &[sim::hash(&b)], || format!("{who}: fill_bytes({n}) at word {before:#x}"));
            ensure!(b == want, "word", "{who}: fill_bytes({n}) at word {before:#x} differs from the stream{}", sim::diff(&b, &want));
        }
        3 => {
            let p = draw_word_pos();
            must("set_word_pos", || g.set_word_pos(p));
            m.pos = p & MASK;
            sim::ev("set_word_pos", &[p as u64, (p >> 64) as u64], || format!("{who}: set_word_pos({p:#x})"));
        }
        4 => {
            let p = draw_block_pos();
            must("set_block_pos", || g.set_block_pos(p));
            m.pos = p as u128 * 16;
            sim::ev("set_block_pos", &[p], || format!("{who}: set_block_pos({p:#x})"));
        }
        5 => {
            let s = draw_stream();
            must("set_stream", || g.set_stream(s));
            m.set_stream(s);
            sim::ev("set_stream", &[s], || format!("{who}: set_stream({s:#x})"));
        }
        6 => {
            // a short jump relative to where it is
            let p = m.pos.wrapping_add(sim::d(260) as u128).wrapping_sub(130) & MASK;
            must("set_word_pos", || g.set_word_pos(p));
            m.pos = p;
            sim::ev("jump", &[p as u64], || format!("{who}: set_word_pos({p:#x}) (nearby)"));
        }
        _ => {
            check(g, m, who);
        }
    }
    let w = (m.pos % 64) as u64;
    sim::sig(&[0x52, k as u64, w, (before % 64) as u64, zone(m.pos), m.dr as u64]);
    k as u64
}
pub fn fill_len() -> usize {
    if sim::d(2000) == 1999 {
        // past 8- and 16-bit counts of words, blocks and bytes
        return 4000 + sim::du(140_000);
    }
    match sim::d(5) {
        0 => sim::du(9),
        1 => sim::du(70),
        2 => 256 * (1 + sim::du(3)) - 9 + sim::du(18),
        3 => sim::du(300),
        _ => sim::du(1200),
    }
}
pub fn zone(pos: u128) -> u64 {
    let blk = pos / 16;
    if MASK - pos < 256 {
        3
    } else if pos < 256 {
        0
    } else if (blk as u32) > u32::MAX - 16 || (blk as u32) < 16 {
        2
    } else if blk >> 32 != 0 {
        4
    } else {
        1
    }
}
/// Everything the generator reports about itself.
pub fn check(g: &Gen, m: &GenModel, who: &str) {
    use crate::ensure;
    use sim::must;
    let p = must("get_word_pos", || g.word_pos());
    ensure!(p == m.pos, "position", "{who}: get_word_pos {p:#x}, expected {:#x}", m.pos);
    let b = must("get_block_pos", || g.block_pos());
    ensure!(b as u128 == m.pos / 16, "position", "{who}: get_block_pos {b:#x} at word {:#x}", m.pos);
    let s = must("get_stream", || g.stream());
    ensure!(s == m.stream, "identity", "{who}: get_stream {s:#x}, expected {:#x}", m.stream);
    let d = must("get_seed", || g.seed());
    ensure!(d == m.seed, "identity", "{who}: get_seed wrong");
    sim::ev("check", &[p as u64, b, s], || format!("{who}: reports word {p:#x} block {b:#x} stream {s:#x}"));
}

/// The bare generator cores (public through `ChaChaCore` and rand_core's block
/// `Generator`): four blocks a call, with either counter width.
#[allow(clippy::large_enum_variant)]
pub enum GCore {
    L8(ChaChaCore<R8, Legacy>),
    L12(ChaChaCore<R12, Legacy>),
    L20(ChaChaCore<R20, Legacy>),
    I8(ChaChaCore<R8, Ietf>),
    I12(ChaChaCore<R12, Ietf>),
    I20(ChaChaCore<R20, Ietf>),
}
impl GCore {
    pub fn new(dr: usize, wide: bool, seed: [u8; 32]) -> GCore {
        sim::must("from_seed of a generator core", || match (wide, dr) {
            (true, 4) => GCore::L8(SeedableRng::from_seed(seed)),
            (true, 6) => GCore::L12(SeedableRng::from_seed(seed)),
            (true, _) => GCore::L20(SeedableRng::from_seed(seed)),
            (false, 4) => GCore::I8(SeedableRng::from_seed(seed)),
            (false, 6) => GCore::I12(SeedableRng::from_seed(seed)),
            (false, _) => GCore::I20(SeedableRng::from_seed(seed)),
        })
    }
    pub fn seed_with<V: Visit>(dr: usize, wide: bool, v: &mut V) -> Result<GCore, V::E> {
        Ok(match (wide, dr) {
            (true, 4) => GCore::L8(v.seeded()?),
            (true, 6) => GCore::L12(v.seeded()?),
            (true, _) => GCore::L20(v.seeded()?),
            (false, 4) => GCore::I8(v.seeded()?),
            (false, 6) => GCore::I12(v.seeded()?),
            (false, _) => GCore::I20(v.seeded()?),
        })
    }
    pub fn blk(&self) -> u64 {
        match self {
            GCore::L8(c) => c.get_block_pos(),
            GCore::L12(c) => c.get_block_pos(),
            GCore::L20(c) => c.get_block_pos(),
            GCore::I8(c) => c.get_block_pos() as u64,
            GCore::I12(c) => c.get_block_pos() as u64,
            GCore::I20(c) => c.get_block_pos() as u64,
        }
    }
    /// Cores with a 32-bit counter take the low half.
    pub fn set_blk(&mut self, p: u64) {
        match self {
            GCore::L8(c) => c.set_block_pos(p),
            GCore::L12(c) => c.set_block_pos(p),
            GCore::L20(c) => c.set_block_pos(p),
            GCore::I8(c) => c.set_block_pos(p as u32),
            GCore::I12(c) => c.set_block_pos(p as u32),
            GCore::I20(c) => c.set_block_pos(p as u32),
        }
    }
    pub fn generate(&mut self) -> Vec<u8> {
        let mut w = [0x5a5a_5a5au32; 64];
        sim::must("generate", || match self {
            GCore::L8(c) => c.generate(&mut w),
            GCore::L12(c) => c.generate(&mut w),
            GCore::L20(c) => c.generate(&mut w),
            GCore::I8(c) => c.generate(&mut w),
            GCore::I12(c) => c.generate(&mut w),
            GCore::I20(c) => c.generate(&mut w),
        });
        w.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}

/// A position for a bare core and whether the next `n` batches stay within its
/// counter (where the word stream defines what comes out).
pub fn draw_core_pos(wide: bool, n: u64) -> (u64, bool) {
    let p = draw_block_pos();
    if wide {
        (p, true)
    } else {
        // around the end of the counter more often
        let p = if sim::chance(1, 3) { (1u64 << 32) - 1 - sim::d(12) } else { p & 0xffff_ffff };
        (p, p + 4 * n <= 1 << 32)
    }
}
