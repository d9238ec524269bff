//! C13 / C14: one small system, executed by machines of different
//! architectures. Natively every result is checked against the reference
//! models; a foreign machine (run by an interpreter, where the models would
//! only cost time) has to produce the identical event log. Nothing drawn or
//! logged depends on the machine's word size, endianness or the number of
//! blocks its backend makes at once.

use crate::ciphers::*;
use crate::common::*;
use crate::model::{Alg, hchacha, hsalsa};
use crate::rngs::{self, GCore, Gen, GenModel};
use crate::sim::{self, Disk, chance, d, du, expand, hash, must, pick, weighted};
use crate::{ensure, fail};

/// Reference results are computed and compared natively only.
const MODEL: bool = !cfg!(miri);

fn chacha() -> Alg {
    pick(&[Alg::ChaCha8, Alg::ChaCha8Djb, Alg::XChaCha8, Alg::ChaCha20Legacy, Alg::ChaCha12, Alg::ChaCha12Djb, Alg::ChaCha8, Alg::ChaCha20])
}
fn any() -> Alg {
    match weighted(&[14, 2, 2, 2, 1, 2, 1, 1]) {
        0 => chacha(),
        1 => Alg::Salsa8,
        2 => Alg::XSalsa8,
        3 => Alg::Rabbit,
        4 => Alg::RabbitKeyOnly,
        5 => Alg::Rc4,
        6 => pick(&[Alg::Salsa20, Alg::XSalsa20, Alg::XChaCha20, Alg::XChaCha12]),
        _ => pick(&[Alg::Salsa12, Alg::XSalsa12, Alg::Hc256, Alg::Hc256]),
    }
}
/// Block numbers whose batch of up to eight crosses something.
fn place(alg: Alg) -> u128 {
    let max = alg.max_ctr();
    let b = match d(7) {
        0 => d(3) as u128,
        1 => (1u128 << 32).wrapping_sub(1 + d(10) as u128),
        2 => max - d(12) as u128,
        3 => (sim::d64() as u128 | 0xffff_ffff).wrapping_sub(d(10) as u128),
        4 => (1u128 << sim::range(3, alg.ctr_bits() as u64 - 1)) - 1 - d(8) as u128,
        5 => (1u128 << 31).wrapping_sub(1 + d(4) as u128),
        _ => sim::d64() as u128,
    };
    b & max
}
fn short() -> usize {
    match d(8) {
        0 => du(4),
        1 => 60 + du(10),
        2 | 3 => du(130),
        4 => 64 * du(9),
        5 => 512 + du(80),
        _ => du(300),
    }
}

pub fn run() {
    match weighted(&[20, 12, 14, 6, 2, 4, 1]) {
        0 => stream(),
        1 => blocks(),
        2 => generator(),
        3 => core(),
        4 => derived(),
        5 => threads(),
        _ => onlookers(),
    }
}

/// What one caller thread does with an object of its own.
struct Work {
    c: Creds,
    ctor: u64,
    /// keystream requests: position to seek to first, length
    reads: Vec<(Option<u128>, usize)>,
    /// made by the main thread and moved into the caller thread
    moved: Option<Box<dyn Obj>>,
    dr: usize,
    seed: [u8; 32],
    draws: usize,
}
impl Work {
    fn draw(other: Option<&Work>) -> Work {
        let c = match other {
            Some(w) if chance(1, 3) => w.c.clone(),
            Some(w) if chance(1, 3) => Creds::draw(w.c.alg),
            _ => Creds::draw(if chance(1, 2) { any() } else { draw_alg() }),
        };
        let reads = (0..1 + du(3))
            .map(|_| {
                let n = du(150);
                let to = if c.alg.seekable() && chance(1, 2) { (place(c.alg) * 64).min(c.alg.max_ctr() * 64 - 1024) } else { 0 };
                ((to != 0).then_some(to), n)
            })
            .collect();
        let ctor = d(12);
        let moved = chance(1, 3).then(|| make(c.alg, &c.key, &c.iv, ctor));
        Work { ctor, reads, moved, dr: rngs::KINDS[du(3)], seed: rngs::draw_seed(), draws: du(3), c }
    }
    /// Uses nothing of the simulator: several run at the same time.
    fn go(&mut self) -> Result<Vec<u8>, String> {
        let mut out = vec![];
        let mut o = self.moved.take().unwrap_or_else(|| make(self.c.alg, &self.c.key, &self.c.iv, self.ctor));
        let mut g = Gen::new(self.dr, self.seed);
        for (i, &(to, n)) in self.reads.iter().enumerate() {
            if let Some(p) = to {
                match o.seek(Num::U128, p, false) {
                    Some(Res::Ok) => {}
                    r => return Err(format!("{}: seek to {p:#x}: {r:?}", self.c.name())),
                }
            }
            let mut b = vec![0; n];
            match o.call(Form::TryWrite, &[], &mut b) {
                Res::Ok => out.extend_from_slice(&b),
                r => return Err(format!("{}: {n} bytes of keystream: {r:?}", self.c.name())),
            }
            if i < self.draws {
                out.extend_from_slice(&g.u32().to_le_bytes());
            }
        }
        Ok(out)
    }
    fn want(&self) -> Vec<u8> {
        let (mut m, mut g, mut pos, mut out) = (self.c.model(), GenModel::new(self.dr, self.seed), 0, vec![]);
        for (i, &(to, n)) in self.reads.iter().enumerate() {
            pos = to.unwrap_or(pos);
            out.extend(m.ks_vec(pos, n));
            pos += n as u128;
            if i < self.draws {
                out.extend(g.take(4));
            }
        }
        out
    }
}

/// Objects that several threads look at (and nobody changes) at a time.
struct Shown {
    o: Box<dyn Obj>,
    g: Gen,
}
/// All of the library's types allow this.
struct Sight<'a>(&'a Shown);
// SAFETY: only `&self` operations of types that are `Sync`
unsafe impl Send for Sight<'_> {}
impl Sight<'_> {
    fn look(self, other: &Gen, n: usize) -> Vec<u8> {
        let Shown { o, g } = self.0;
        let mut out = vec![];
        for i in 0..n {
            out.extend_from_slice(&g.save());
            out.extend_from_slice(&g.word_pos().to_le_bytes());
            out.extend_from_slice(&g.block_pos().to_le_bytes());
            out.push(g.eq(other).map_or(2, u8::from));
            if i == 0 {
                out.extend_from_slice(g.dbg(false).as_bytes());
                out.extend_from_slice(o.dbg(true).unwrap_or_default().as_bytes());
            }
            out.extend_from_slice(&match o.pos(Num::U128, false) {
                Some(Ok(p)) => p.to_le_bytes(),
                _ => [0xee; 16],
            });
            out.push(o.check(1000) as u8);
        }
        out
    }
}

/// Threads that read one cipher and one generator, while others work.
fn onlookers() {
    let c = Creds::draw(if chance(1, 2) { any() } else { draw_alg() });
    let mut o = c.make();
    if c.alg.seekable() && chance(1, 2) {
        let p = place(c.alg) * 64 + d(64) as u128;
        let _ = o.seek(Num::U128, p, false);
    }
    let (dr, seed) = (rngs::KINDS[du(3)], rngs::draw_seed());
    let (mut g, mut m) = (Gen::new(dr, seed), GenModel::new(dr, seed));
    if chance(1, 2) {
        m.pos = rngs::draw_word_pos() & rngs::MASK;
        g.set_word_pos(m.pos);
    }
    for _ in 0..du(3) {
        g.u32();
        m.pos = (m.pos + 1) & rngs::MASK;
    }
    let other = Gen::restore(dr, &m.image());
    let mut w = Work::draw(None);
    let shown = Shown { o, g };
    let n = 1 + du(3);
    sim::fault("fault.preemption.threads");
    let alone = Sight(&shown).look(&other, n);
    let got: Vec<Result<Vec<u8>, String>> = if cfg!(miri) {
        let (a, b) = (Sight(&shown), Sight(&shown));
        let (other, w) = (&other, &mut w);
        std::thread::scope(|s| {
            let js = vec![
                // whole `Sight`s move, not their fields
                s.spawn(move || Ok(Sight::look(a, &Gen::restore(dr, &other.save()), n))),
                s.spawn(move || Ok(Sight::look(b, &Gen::restore(dr, &other.save()), n))),
                s.spawn(move || w.go().map(|_| vec![])),
            ];
            js.into_iter().map(|j| j.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
        })
    } else {
        vec![Ok(Sight(&shown).look(&other, n)), Ok(alone.clone()), w.go().map(|_| vec![])]
    };
    sim::op();
    sim::ev("onlookers", &[c.id(), hash(&alone)], || format!("three threads read {} and a ChaCha{} generator at {:#x}", c.name(), 2 * dr, m.pos));
    for (i, r) in got.into_iter().enumerate() {
        match r {
            Ok(b) => ensure!(b.is_empty() || b == alone, "isolation", "thread {i} saw something else than a lone reader{}", sim::diff(&b, &alone)),
            Err(e) => fail!("refused", "thread {i}: {e}"),
        }
    }
    let img = shown.g.save();
    ensure!(img == m.image(), "isolation", "after being read: image differs{}", sim::diff(&img, &m.image()));
    sim::sig(&[0x16, c.alg as u64, dr as u64, rngs::zone(m.pos)]);
}

/// Callers in threads of their own; on an interpreting machine the threads
/// really interleave, at a scheduler seed of its own, and data races count.
fn threads() {
    let mut ws: Vec<Work> = vec![];
    for _ in 0..2 + du(2) {
        let w = Work::draw(ws.last());
        ws.push(w);
    }
    sim::fault("fault.preemption.threads");
    let wants: Option<Vec<_>> = MODEL.then(|| ws.iter().map(Work::want).collect());
    let got: Vec<_> = if cfg!(miri) {
        std::thread::scope(|s| {
            let js: Vec<_> = ws.iter_mut().map(|w| s.spawn(move || w.go())).collect();
            js.into_iter().map(|j| j.join().unwrap_or_else(|_| Err("panicked".into()))).collect()
        })
    } else {
        ws.iter_mut().map(Work::go).collect()
    };
    for (i, r) in got.into_iter().enumerate() {
        sim::op();
        match r {
            Ok(b) => {
                sim::ev("thread", &[ws[i].c.id(), hash(&b)], || format!("thread {i}: {} and ChaCha{} generator", ws[i].c.name(), 2 * ws[i].dr));
                if let Some(w) = &wants {
                    ensure!(b == w[i], "keystream", "thread {i}: {} differs{}", ws[i].c.name(), sim::diff(&b, &w[i]));
                }
            }
            Err(e) => fail!("refused", "thread {i}: {e}"),
        }
    }
}

fn stream() {
    let c = Creds::draw(any());
    let mut m = MODEL.then(|| c.model());
    let mut obj = c.make();
    let mut pos = 0u128;
    let mut disk = Disk::default();
    disk.write(&0u128.to_le_bytes());
    disk.sync();
    sim::ev("open", &[c.id()], || c.name().into());
    if c.alg.seekable() && chance(4, 5) {
        seek(&mut *obj, &c, &mut pos, place(c.alg) * 64 + if chance(1, 3) { d(64) as u128 } else { 0 });
    }
    for _ in 0..2 + du(5) {
        sim::op();
        match weighted(&[9, if c.alg.seekable() { 3 } else { 0 }, if c.alg.seekable() { 2 } else { 0 }, 2, 1]) {
            0 => {
                let n = short();
                let form = FORMS[du(FORMS.len())];
                let ok = granted(c.alg, pos, n);
                let form = if form.unchecked() && !ok { Form::TryInPlace } else { form };
                let data = expand(sim::d64(), n);
                let mut io = Io::new(form, &data);
                let r = io.run(&mut *obj, form);
                let what = || format!("{}: {form:?} of {n} bytes at {pos:#x}", c.name());
                match (&r, ok) {
                    (Res::Ok, true) => {
                        sim::ev("process", &[form as u64, n as u64, hash(io.out())], &what);
                        if let Some(m) = &mut m {
                            let ks = m.ks_vec(pos, n);
                            let want = if form.writes() { ks } else { xor(&data, &ks) };
                            ensure!(io.out() == want, "keystream", "{}: wrong bytes{}", what(), sim::diff(io.out(), &want));
                        }
                        ensure!(io.borders_intact(), "containment", "{}: wrote outside the buffer", what());
                        pos += n as u128;
                        sim::sig(&[0x13, c.alg as u64, form as u64, bucket(n), (pos % 64) as u64]);
                    }
                    (Res::Err(_) | Res::Panic(_), false) => {
                        sim::fault("fault.refused.past_end");
                        sim::ev("refused", &[form as u64, n as u64], &what);
                        ensure!(io.untouched(), "atomicity", "{}: a refused request changed the data", what());
                    }
                    _ => fail!("end", "{}: {r:?}, should be granted: {ok}", what()),
                }
            }
            1 => {
                let p = place(c.alg) * 64 + if chance(1, 2) { d(64) as u128 } else { 0 };
                seek(&mut *obj, &c, &mut pos, p);
            }
            2 => {
                let num = [Num::U32, Num::U64, Num::U128][du(3)];
                let r = obj.pos(num, false).unwrap();
                let may_fail = pos.div_ceil(64) * 64 > num.max();
                sim::ev("pos", &[r.is_ok() as u64, *r.as_ref().unwrap_or(&0) as u64], || format!("{}: position as {num:?}: {r:?}", c.name()));
                match r {
                    Ok(v) => ensure!(v == pos, "position", "{}: reports {v:#x}, is {pos:#x}", c.name()),
                    Err(_) if may_fail => {}
                    Err(e) => fail!("position", "{}: {e:?} at {pos:#x}", c.name()),
                }
            }
            3 => {
                disk.write(&pos.to_le_bytes());
                if chance(1, 2) {
                    disk.sync();
                }
                sim::ev("checkpoint", &[pos as u64], || format!("offset {pos:#x}"));
            }
            _ => {
                sim::fault("fault.crash.endpoint");
                disk.crash();
                let at = u128::from_le_bytes(disk.read().try_into().unwrap());
                sim::ev("crash", &[at as u64, (at >> 64) as u64], || format!("restart at {at:#x}"));
                obj = c.make();
                pos = 0;
                if c.alg.seekable() {
                    seek(&mut *obj, &c, &mut pos, at);
                } else {
                    forward(&mut *obj, &c, at, c.name());
                    pos = at;
                }
            }
        }
    }
}
fn seek(o: &mut dyn Obj, c: &Creds, pos: &mut u128, p: u128) {
    let num = if p <= u64::MAX as u128 && chance(1, 2) { Num::U64 } else { Num::U128 };
    let p = p.min(c.alg.max_ctr() * 64);
    let r = o.seek(num, p, false);
    sim::ev("seek", &[p as u64, (p >> 64) as u64], || format!("{}: seek to {p:#x}", c.name()));
    ensure!(matches!(r, Some(Res::Ok)), "refused", "{}: seek to {p:#x}: {r:?}", c.name());
    *pos = p;
}

/// A block session that takes exactly `total` blocks, in whatever portions.
struct Exact {
    plan: Vec<u64>,
    at: usize,
    total: usize,
    bs: usize,
    unwind: bool,
    bufs: Vec<Vec<u8>>,
    out: Vec<u8>,
}
impl Script for Exact {
    fn next(&mut self, par: usize) -> Step {
        let left = self.total - self.out.len() / self.bs;
        if left == 0 {
            return if self.unwind { Step::Panic } else { Step::Stop };
        }
        let c = self.plan[self.at % self.plan.len()];
        self.at += 1;
        let s = match c % 4 {
            0 | 1 => Step::Par,
            2 => Step::Single,
            _ => Step::Tail((c / 4) as usize % par.max(1)),
        };
        match s {
            Step::Par if par <= left => Step::Par,
            Step::Par if left < par => Step::Tail(left),
            Step::Tail(k) if k > 0 && k <= left => s,
            _ => Step::Single,
        }
    }
    fn target(&mut self, n: usize) -> *mut u8 {
        self.bufs.push(vec![0xA5; n]);
        self.bufs.last_mut().unwrap().as_mut_ptr()
    }
    fn got(&mut self, _: Step, b: &[u8]) {
        self.out.extend_from_slice(b);
    }
}

fn blocks() {
    let c = Creds::draw(match d(8) {
        0 => Alg::Salsa8,
        1 => Alg::Rabbit,
        _ => chacha(),
    });
    let bs = c.alg.block_size();
    let mut m = MODEL.then(|| c.model());
    let mut core = make_core(c.alg, &c.key, &c.iv, d(12));
    let max = c.alg.max_ctr();
    let mut blk = 0u128;
    sim::ev("core", &[c.id()], || format!("{} core", c.name()));
    for i in 0..1 + du(3) {
        sim::op();
        if c.alg.seekable() && (i == 0 || chance(1, 3)) {
            // at block level nobody refuses a batch that runs over the end
            blk = if chance(1, 8) { max - d(18) as u128 } else { place(c.alg) };
            ensure!(core.set_blk(blk), "refused", "{}: block position {blk:#x} refused", c.name());
        }
        let mut data = vec![];
        let mut xored = false;
        let out;
        let kind;
        if chance(2, 3) {
            let total = du(18);
            let plan = (0..1 + du(5)).map(|_| d(64)).collect();
            let mut s = Exact { plan, at: 0, total, bs, unwind: false, bufs: vec![], out: vec![] };
            let r = core.session(&mut s);
            out = s.out;
            kind = None;
            ensure!(matches!(r, Res::Ok), "panic", "{}: session at {blk:#x}: {r:?}", c.name());
        } else {
            let k = SIMPLES[du(6)];
            let n = if k.one() { 1 } else { du(18) };
            data = expand(sim::d64(), n * bs);
            let mut o = if k.writes() || k.separate() { vec![0xA5; n * bs] } else { data.clone() };
            kind = Some(k);
            let r = core.simple(k, &data, &mut o);
            ensure!(matches!(r, Res::Ok), "panic", "{}: {k:?} at {blk:#x}: {r:?}", c.name());
            xored = !k.writes();
            out = o;
        }
        let n = out.len() / bs;
        let at0 = blk;
        let what = || format!("{}: {} of {n} blocks at {at0:#x}", c.name(), kind.map_or("session".into(), |k| format!("{k:?}")));
        sim::ev("blocks", &[n as u64, hash(&out)], &what);
        // past the end only the machines are compared with each other
        let over = c.alg.seekable() && blk + n as u128 > max + 1;
        if let Some(m) = m.as_mut().filter(|_| !over) {
            let mut want = m.ks_vec(blk * bs as u128, out.len());
            if xored {
                want = xor(&want, &data);
            }
            ensure!(out == want, "keystream", "{}: wrong{}", what(), sim::diff(&out, &want));
        }
        blk += n as u128;
        if c.alg.seekable() {
            blk &= max;
            let at = core.blk();
            sim::ev("at", &[at.unwrap_or(0) as u64], || format!("at block {at:x?}"));
            ensure!(at == Some(blk), "position", "{}: then reports block {at:x?}, expected {blk:#x}", what());
        }
        sim::sig(&[0x14, c.alg as u64, n as u64, (blk % 16) as u64]);
    }
    // unwinding out of a session must leave a usable object behind
    if chance(1, 4) && (!c.alg.seekable() || max - blk > 40) {
        sim::fault("fault.unwind.session");
        let plan = (0..1 + du(5)).map(|_| d(64)).collect();
        let mut s = Exact { plan, at: 0, total: du(10), bs, unwind: true, bufs: vec![], out: vec![] };
        let r = core.session(&mut s);
        ensure!(matches!(r, Res::Injected), "panic", "{}: unwound session ended with {r:?}", c.name());
        sim::ev("unwind", &[hash(&s.out)], || format!("{}: session unwound after {} blocks", c.name(), s.out.len() / bs));
        if let Some(m) = &mut m {
            let want = m.ks_vec(blk * bs as u128, s.out.len());
            ensure!(s.out == want, "keystream", "{}: unwound session: wrong{}", c.name(), sim::diff(&s.out, &want));
        }
        // where it stands is up to the backend; it must still work
        let mut o = vec![0; bs];
        let r = core.simple(Simple::WriteBlock, &[], &mut o);
        ensure!(matches!(r, Res::Ok), "unwind", "{}: unusable after unwinding: {r:?}", c.name());
    }
}

fn generator() {
    let dr = [4, 4, 6, 10][du(4)];
    let seed = rngs::draw_seed();
    let mut g = Gen::new(dr, seed);
    let mut pos = 0u128;
    let mut m = MODEL.then(|| GenModel::new(dr, seed));
    sim::ev("generator", &[dr as u64, hash(&seed)], || format!("ChaCha{} generator", 2 * dr));
    let mut disk = Disk::default();
    disk.write(&g.save());
    disk.sync();
    for i in 0..3 + du(6) {
        sim::op();
        let k = if i == 0 && chance(3, 4) { 3 } else { weighted(&[4, 4, 5, 3, 1, 1, 2, 2, 1]) };
        match k {
            0 => {
                let w = must("next_u32", || g.u32());
                sim::ev("u32", &[w as u64], || format!("next_u32 at {pos:#x}"));
                if let Some(m) = &mut m {
                    let want = u32::from_le_bytes(m.take(4).try_into().unwrap());
                    ensure!(w == want, "word", "next_u32 at word {pos:#x} gave {w:#x}, expected {want:#x}");
                }
                pos += 1;
            }
            1 => {
                let w = must("next_u64", || g.u64());
                sim::ev("u64", &[w], || format!("next_u64 at {pos:#x}"));
                if let Some(m) = &mut m {
                    let want = u64::from_le_bytes(m.take(8).try_into().unwrap());
                    ensure!(w == want, "word", "next_u64 at word {pos:#x} gave {w:#x}, expected {want:#x}");
                }
                pos += 2;
            }
            2 => {
                let n = short().min(520);
                let mut b = vec![0x5a; n];
                must("fill_bytes", || g.fill(&mut b));
                sim::ev("fill", &[n as u64, hash(&b)], || format!("fill_bytes({n}) at {pos:#x}"));
                if let Some(m) = &mut m {
                    let want = m.take(n);
                    ensure!(b == want, "word", "fill_bytes({n}) at word {pos:#x}{}", sim::diff(&b, &want));
                }
                pos += n.div_ceil(4) as u128;
            }
            3 => {
                pos = match d(4) {
                    0 => rngs::draw_word_pos(),
                    1 => (1u128 << 36).wrapping_mul(1 + d(3) as u128) - d(100) as u128,
                    2 => rngs::WORDS - d(150) as u128,
                    _ => pos.wrapping_add(d(140) as u128).wrapping_sub(70),
                };
                must("set_word_pos", || g.set_word_pos(pos));
                sim::ev("set_word_pos", &[pos as u64, (pos >> 64) as u64], || format!("set_word_pos({pos:#x})"));
            }
            4 => {
                let b = rngs::draw_block_pos();
                pos = b as u128 * 16;
                must("set_block_pos", || g.set_block_pos(b));
                sim::ev("set_block_pos", &[b], || format!("set_block_pos({b:#x})"));
            }
            5 => {
                let s = rngs::draw_stream();
                must("set_stream", || g.set_stream(s));
                sim::ev("set_stream", &[s], || format!("set_stream({s:#x})"));
                pos = 0;
                if let Some(m) = &mut m {
                    m.set_stream(s);
                }
            }
            6 => {
                let img = must("serialize_state", || g.save());
                sim::ev("save", &[hash(&img)], || format!("image at {pos:#x}"));
                if let Some(m) = &m {
                    ensure!(img == m.image(), "image", "image at word {pos:#x} is not seed, stream, position");
                }
                disk.write(&img);
                if chance(2, 3) {
                    disk.sync();
                }
            }
            7 => {
                sim::fault("fault.crash.generator");
                disk.crash();
                let mut img: [u8; 49] = disk.read().try_into().unwrap();
                if chance(1, 6) {
                    sim::fault("fault.disk.bit_flip");
                    img[du(49)] ^= 1 << d(8);
                }
                g = must("deserialize_state", || Gen::restore(dr, &img));
                pos = u128::from_le_bytes([&img[40..], &[0; 7]].concat().try_into().unwrap());
                if m.is_some() {
                    m = Some(GenModel::parse(dr, &img));
                }
                let twin = must("deserialize_state", || Gen::restore(dr, &img));
                ensure!(g.eq(&twin) == Some(true), "equality", "two restores of one image differ");
                sim::ev("restore", &[hash(&img)], || format!("restored at {pos:#x}"));
            }
            _ => {
                let (w, b, s) = (must("get_word_pos", || g.word_pos()), must("get_block_pos", || g.block_pos()), must("get_stream", || g.stream()));
                sim::ev("ask", &[w as u64, (w >> 64) as u64, b, s, hash(&g.seed())], || format!("word {w:#x} block {b:#x} stream {s:#x}"));
                ensure!(w == pos & rngs::MASK, "position", "get_word_pos {w:#x}, expected {:#x}", pos & rngs::MASK);
                ensure!(b as u128 == w / 16, "position", "get_block_pos {b:#x} at word {w:#x}");
            }
        }
        pos &= rngs::MASK;
        if let Some(m) = &mut m {
            m.pos = pos;
        }
        sim::sig(&[0x15, k as u64, dr as u64, (pos % 64) as u64, rngs::zone(pos)]);
    }
}

fn core() {
    let (dr, wide, n) = ([4, 4, 6, 10][du(4)], chance(2, 3), 1 + d(2));
    let seed = rngs::draw_seed();
    let (start, plain) = rngs::draw_core_pos(wide, n);
    let mut g = GCore::new(dr, wide, seed);
    g.set_blk(start);
    let mut m = MODEL.then(|| GenModel::at(dr, seed, 0, start as u128 * 16));
    for i in 0..n {
        sim::op();
        let b = g.generate();
        let what = || format!("generator core ChaCha{} ({wide}) batch {i} from block {start:#x}", 2 * dr);
        sim::ev("batch", &[hash(&b), g.blk()], &what);
        if let (true, Some(m)) = (plain, &mut m) {
            let want = m.take(256);
            ensure!(b == want, "word", "{}: wrong{}", what(), sim::diff(&b, &want));
        }
    }
}

fn derived() {
    let key: [u8; 32] = sim::bytes(32).try_into().unwrap();
    let inp: [u8; 16] = sim::bytes(16).try_into().unwrap();
    let (salsa, dr) = (chance(1, 2), [4, 6, 10, 3][du(4)]);
    sim::op();
    let r = derive(salsa, dr, &key, &inp);
    sim::ev("derive", &[hash(&r)], || format!("{} with {dr} double rounds", if salsa { "hsalsa" } else { "hchacha" }));
    if MODEL {
        let want = if salsa { hsalsa(dr, &key, &inp) } else { hchacha(dr, &key, &inp) };
        ensure!(r == want, "keystream", "derivation differs{}", sim::diff(&r, &want));
    }
}
