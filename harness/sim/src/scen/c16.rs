//! C16: services that seed generators from entropy sources which fail, stall
//! part way or panic, from other generators, and from numbers.

use crate::rngs::*;
use crate::sim::{self, Injected, Out, chance, d, du};
use crate::{cpu, ensure, fail};
use rand_core::{Rng, SeedableRng, TryRng};
use std::convert::Infallible;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NoEntropy(u32);
impl std::fmt::Display for NoEntropy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "no entropy ({})", self.0)
    }
}
impl std::error::Error for NoEntropy {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Fine,
    /// an error once this many bytes were given out
    Fails(usize),
    Panics(usize),
}

/// A byte stream of entropy, whichever way it is asked for.
struct Source {
    bytes: Vec<u8>,
    at: usize,
    fate: Fate,
    code: u32,
}
impl Source {
    fn draw(fate: Fate) -> Source {
        let mut bytes = sim::expand(sim::d64(), 256);
        if chance(1, 4) {
            let s = draw_seed();
            bytes[..32].copy_from_slice(&s);
        }
        Source { bytes, at: 0, fate, code: d(1000) as u32 }
    }
    fn take(&mut self, dst: &mut [u8]) -> Result<(), NoEntropy> {
        for b in dst {
            match self.fate {
                Fate::Fails(n) if self.at >= n => {
                    return Err(NoEntropy(self.code));
                }
                Fate::Panics(n) if self.at >= n => std::panic::panic_any(Injected),
                _ => {}
            }
            *b = self.bytes.get(self.at).copied().unwrap_or(0);
            self.at += 1;
        }
        Ok(())
    }
}
struct Fallible<'a>(&'a mut Source);
impl TryRng for Fallible<'_> {
    type Error = NoEntropy;
    fn try_next_u32(&mut self) -> Result<u32, NoEntropy> {
        let mut b = [0; 4];
        self.0.take(&mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn try_next_u64(&mut self) -> Result<u64, NoEntropy> {
        let mut b = [0; 8];
        self.0.take(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), NoEntropy> {
        self.0.take(dst)
    }
}
struct Sure<'a>(&'a mut Source);
impl TryRng for Sure<'_> {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        Ok(Fallible(self.0).try_next_u32().unwrap())
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        Ok(Fallible(self.0).try_next_u64().unwrap())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Infallible> {
        Fallible(self.0).try_fill_bytes(dst).unwrap();
        Ok(())
    }
}

enum How<'a> {
    Rng(&'a mut Source),
    TryRng(&'a mut Source),
    /// through a trait object
    Dyn(&'a mut Source),
    Number(u64),
    Seed([u8; 32]),
    Parent(&'a mut Gen),
}
impl Visit for How<'_> {
    type E = NoEntropy;
    fn seeded<T: SeedableRng<Seed = [u8; 32]>>(&mut self) -> Result<T, NoEntropy> {
        Ok(match self {
            How::Rng(s) => T::from_rng(&mut Sure(s)),
            How::TryRng(s) => T::try_from_rng(&mut Fallible(s))?,
            How::Dyn(s) => {
                let mut f = Sure(s);
                let r: &mut dyn Rng = &mut f;
                T::from_rng(r)
            }
            How::Number(x) => T::seed_from_u64(*x),
            How::Seed(s) => T::from_seed(*s),
            How::Parent(g) => {
                struct F<T>(std::marker::PhantomData<T>);
                impl<T: SeedableRng> Feed for F<T> {
                    type Out = T;
                    fn feed<R: Rng>(self, r: &mut R) -> T {
                        T::from_rng(r)
                    }
                }
                g.feed(F::<T>(std::marker::PhantomData))
            }
        })
    }
}

/// The documented expansion of a number into a seed (PCG32 output words).
fn expanded(mut x: u64) -> [u8; 32] {
    let mut seed = [0; 32];
    for w in seed.chunks_exact_mut(4) {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(11634580027462260723);
        let s = (((x >> 18) ^ x) >> 27) as u32;
        w.copy_from_slice(&s.rotate_right((x >> 59) as u32).to_le_bytes());
    }
    seed
}

fn draw_fate() -> Fate {
    let at = || match d(3) {
        0 => 0,
        1 => du(32),
        _ => 32 + du(20),
    };
    match d(4) {
        0 | 1 => Fate::Fine,
        2 => Fate::Fails(at()),
        _ => Fate::Panics(at()),
    }
}

struct Party {
    g: Gen,
    m: GenModel,
    name: String,
}

/// A generator or a bare core.
enum Made {
    Gen(Gen),
    Core(GCore, bool),
}

pub fn run() {
    let mut crew: Vec<Party> = vec![];
    for turn in 0..2 + du(10) {
        if chance(1, 5) {
            cpu::level(cpu::draw());
            sim::fault("fault.cpu.migrate");
        }
        if !crew.is_empty() && chance(1, 3) {
            // somebody works
            let i = du(crew.len());
            let p = &mut crew[i];
            for _ in 0..1 + du(4) {
                step(&mut p.g, &mut p.m, &p.name);
            }
            continue;
        }
        let dr = KINDS[du(3)];
        let core = chance(1, 5).then(|| chance(1, 2));
        let make = |how: &mut How<'_>| match core {
            Some(wide) => GCore::seed_with(dr, wide, how).map(|c| Made::Core(c, wide)),
            None => Gen::seed_with(dr, how).map(Made::Gen),
        };
        let name = format!("generator {turn} (ChaCha{}{})", 2 * dr, if core.is_some() { " core" } else { "" });
        sim::op();
        // any of the ways; the seed it has to have
        let (made, seed): (Made, [u8; 32]) = match d(7) {
            0 => {
                let s = draw_seed();
                sim::ev("from_seed", &[sim::hash(&s)], || format!("{name} from a seed"));
                (sim::must("from_seed", || make(&mut How::Seed(s))).unwrap_or_else(|e| panic!("{e}")), s)
            }
            1 => {
                let x = match d(3) {
                    0 => d(5),
                    1 => u64::MAX - d(3),
                    _ => sim::d64(),
                };
                sim::ev("seed_from_u64", &[x], || format!("{name} from the number {x:#x}"));
                (sim::must("seed_from_u64", || make(&mut How::Number(x))).unwrap_or_else(|e| panic!("{e}")), expanded(x))
            }
            2 | 3 if !crew.is_empty() => {
                let i = du(crew.len());
                let p = &mut crew[i];
                let at = p.m.pos;
                let seed: [u8; 32] = p.m.take(32).try_into().unwrap();
                if chance(1, 2) {
                    // of its own kind
                    let fallible = chance(1, 2);
                    let g = sim::must("fork", || p.g.child(fallible));
                    sim::ev("fork", &[fallible as u64, at as u64], || format!("fork of {} at word {at:#x}", p.name));
                    check(&p.g, &p.m, &p.name);
                    let m = GenModel::new(p.m.dr, seed);
                    let name = format!("generator {turn} (child of {})", p.name.split(' ').nth(1).unwrap_or(""));
                    check(&g, &m, &name);
                    sim::sig(&[0x16F, dr as u64, (at % 64) as u64, zone(at)]);
                    crew.push(Party { g, m, name });
                    continue;
                }
                let made = sim::must("from_rng", || make(&mut How::Parent(&mut p.g))).unwrap_or_else(|e| panic!("{e}"));
                sim::ev("from_parent", &[at as u64], || format!("{name} seeded from {} at word {at:#x}", p.name));
                check(&p.g, &p.m, &p.name);
                sim::sig(&[0x16A, dr as u64, (at % 64) as u64, zone(at)]);
                (made, seed)
            }
            k => {
                // an entropy source; when it fails, try again
                let mut tries = 0;
                loop {
                    tries += 1;
                    let fate = if tries > 4 { Fate::Fine } else { draw_fate() };
                    let how = if k == 4 { 2 } else { du(3) };
                    let mut s = Source::draw(fate);
                    // the infallible interfaces cannot report an error
                    if how != 2 && matches!(fate, Fate::Fails(_)) {
                        s.fate = Fate::Fine;
                    }
                    let (fate, want) = (s.fate, s.bytes[..32].to_vec());
                    let r = sim::guarded(|| match how {
                        0 => make(&mut How::Rng(&mut s)),
                        1 => make(&mut How::Dyn(&mut s)),
                        _ => make(&mut How::TryRng(&mut s)),
                    });
                    let used = s.at;
                    let code = match &r {
                        Out::Ok(Ok(_)) => 0,
                        Out::Ok(Err(_)) => 1,
                        Out::Injected => 2,
                        Out::Panic(_) => 3,
                    };
                    sim::ev("entropy", &[how as u64, used as u64, code], || {
                        format!("{name} from an entropy source ({fate:?}): took {used} bytes, {}", ["ready", "error", "unwound", "panic"][code as usize])
                    });
                    sim::sig(&[0x16E, how as u64, used as u64, code, core.is_some() as u64]);
                    match r {
                        Out::Ok(Ok(g)) => {
                            ensure!(used == 32, "entropy", "{name}: ready after taking {used} bytes of entropy instead of 32 ({fate:?})");
                            break (g, want.try_into().unwrap());
                        }
                        Out::Ok(Err(e)) => {
                            sim::fault("fault.entropy.error");
                            ensure!(
                                matches!(fate, Fate::Fails(n) if n < 32),
                                "entropy",
                                "{name}: refused ({e}) although 32 bytes of entropy were there ({fate:?})"
                            );
                            ensure!(e == NoEntropy(s.code), "entropy", "{name}: reports {e} instead of the source's own error {}", s.code);
                        }
                        Out::Injected => {
                            sim::fault("fault.entropy.panic");
                            ensure!(matches!(fate, Fate::Panics(n) if n < 32), "entropy", "{name}: asked for more than 32 bytes ({fate:?})");
                        }
                        Out::Panic(p) => fail!("panic", "{name}: {} at {}:{}", p.msg, p.file, p.line),
                    }
                }
            }
        };
        match made {
            Made::Gen(g) => {
                let m = GenModel::new(dr, seed);
                check(&g, &m, &name);
                crew.push(Party { g, m, name });
            }
            Made::Core(mut c, _) => {
                ensure!(c.blk() == 0, "position", "{name}: begins at block {:#x}", c.blk());
                let mut m = GenModel::new(dr, seed);
                for _ in 0..1 + du(3) {
                    let b = c.generate();
                    let want = m.take(256);
                    sim::ev("generate", &[sim::hash(&b)], || format!("{name} generates"));
                    ensure!(b == want, "word", "{name}: wrong{}", sim::diff(&b, &want));
                }
            }
        }
    }
    for p in &mut crew {
        check(&p.g, &p.m, &p.name);
        step(&mut p.g, &mut p.m, &p.name);
    }
}
