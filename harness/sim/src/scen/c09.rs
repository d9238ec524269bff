//! C09: many callers sharing one process. Threads under the simulator's
//! scheduler and operations nested inside other operations; every object
//! must behave as if it were alone.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::hook;
use crate::model::{Alg, hchacha, hsalsa};
#[cfg(feature = "rng")]
use crate::rngs::{self, Gen, GenModel};
use crate::sim::{self, chance, d, du};
use crate::threads;
use crate::{ensure, fail};

struct Caller {
    name: String,
    mix: Mix,
    steps: usize,
    /// credentials of objects this caller makes; related across callers
    pool: Vec<Creds>,
    seeds: Vec<[u8; 32]>,
    nest: bool,
}

/// Credentials that resemble each other.
fn related(base: &Creds) -> Creds {
    let mut c = base.clone();
    match d(10) {
        8 => lookalike(&mut c.key),
        9 => lookalike(if c.iv.is_empty() { &mut c.key } else { &mut c.iv }),
        0 => {}
        1 | 2 => {
            if !c.iv.is_empty() {
                let i = du(c.iv.len());
                c.iv[i] ^= 1 << d(8);
            } else {
                let i = du(c.key.len());
                c.key[i] ^= 1 << d(8);
            }
        }
        3 | 4 => {
            let i = du(c.key.len());
            c.key[i] ^= 1 << d(8);
        }
        5 => {
            // same bytes under another algorithm
            let alg = draw_alg();
            let kl = if alg == Alg::Rc4 { c.key.len() } else { alg.key_len() };
            c.key = c.key.iter().copied().cycle().take(kl).collect();
            let iv: Vec<u8> = c.iv.iter().copied().chain(std::iter::repeat(0)).take(alg.iv_len()).collect();
            c.iv = iv;
            c.alg = alg;
        }
        6 => c.iv = sim::bytes(c.iv.len()),
        _ => {
            if c.alg == Alg::Rc4 {
                // a prefix or an extension
                let n = 1 + du(256);
                c.key = c.key.iter().copied().cycle().take(n).collect();
            } else {
                c.key = sim::bytes(c.key.len());
            }
        }
    }
    c
}

fn caller(mut w: Caller) {
    let mut actors: Vec<Actor> = vec![];
    #[cfg(feature = "rng")]
    let mut gens: Vec<(Gen, GenModel)> = vec![];
    let mut cores: Vec<(Box<dyn CoreObj>, Creds, crate::model::Model, u128)> = vec![];
    for _ in 0..w.steps {
        threads::yield_point();
        if w.nest && chance(1, 4) {
            hook::nested(Some(nested_op(&w.pool, &w.seeds)));
        }
        match d(14) {
            0 | 1 => {
                let c = w.pool[du(w.pool.len())].clone();
                let mut a = Actor::new(c, &w.name);
                if chance(1, 2) {
                    a.act(&w.mix);
                }
                if actors.len() >= 4 {
                    let i = du(4);
                    actors[i] = a;
                } else {
                    actors.push(a);
                }
            }
            2 => {
                if !actors.is_empty() {
                    let i = du(actors.len());
                    sim::probe("object.dropped");
                    actors.swap_remove(i);
                }
            }
            3 => {
                // moved elsewhere
                if !actors.is_empty() {
                    let a = actors.swap_remove(0);
                    let Actor { c, obj, m, pos, name } = a;
                    sim::probe("object.moved");
                    actors.push(Actor { c, obj: obj.relocate(), m, pos, name });
                }
            }
            4 => derive_op(&w.pool[du(w.pool.len())].clone(), &w.name),
            5 => {
                let c = w.pool[du(w.pool.len())].clone();
                if c.alg != Alg::Rc4 {
                    if cores.len() < 3 {
                        let ctor = d(12);
                        let m = c.model();
                        cores.push((make_core(c.alg, &c.key, &c.iv, ctor), c, m, 0));
                    } else {
                        cores.remove(0);
                    }
                }
            }
            6 | 7 if !cores.is_empty() => {
                let i = du(cores.len());
                let (core, c, m, blk) = &mut cores[i];
                core_op(&mut **core, c, m, blk, &w.name);
            }
            #[cfg(feature = "rng")]
            8 => {
                let seed = w.seeds[du(w.seeds.len())];
                let dr = rngs::KINDS[du(3)];
                let g = Gen::new(dr, seed);
                let mut m = GenModel::new(dr, seed);
                let mut g = g;
                if chance(1, 2) {
                    rngs::step(&mut g, &mut m, &w.name);
                }
                if gens.len() >= 3 {
                    gens[0] = (g, m);
                } else {
                    gens.push((g, m));
                }
            }
            #[cfg(feature = "rng")]
            9 | 10 if !gens.is_empty() => {
                let i = du(gens.len());
                if chance(1, 5) {
                    let x = gens.swap_remove(i);
                    gens.push(x);
                }
                let i = du(gens.len());
                let (g, m) = &mut gens[i];
                rngs::step(g, m, &w.name);
                if chance(1, 2) {
                    rngs::check(g, m, &w.name);
                }
            }
            _ => {
                if actors.is_empty() {
                    let c = w.pool[du(w.pool.len())].clone();
                    actors.push(Actor::new(c, &w.name));
                }
                let i = du(actors.len());
                actors[i].act(&w.mix);
            }
        }
        hook::nested(None);
        w.mix.cap = w.mix.cap.max(64);
    }
    // everyone still continues correctly
    for a in &mut actors {
        threads::yield_point();
        a.query(Num::U128, false);
        let n = sim::len(300);
        if granted(a.c.alg, a.pos, n) {
            a.read(n, Form::TryInPlace);
        }
    }
    #[cfg(feature = "rng")]
    for (g, m) in &mut gens {
        threads::yield_point();
        rngs::check(g, m, &w.name);
        rngs::step(g, m, &w.name);
    }
}

fn derive_op(c: &Creds, who: &str) {
    let mut key = [0u8; 32];
    for (i, b) in key.iter_mut().enumerate() {
        *b = c.key[i % c.key.len()];
    }
    let mut inp = [0u8; 16];
    for (i, b) in inp.iter_mut().enumerate() {
        *b = c.iv.get(i).copied().unwrap_or(0);
    }
    let salsa = cfg!(feature = "others") && chance(1, 2);
    let dr = [10, 4, 6, 3, 5][du(5)];
    let got = sim::must("key derivation", || derive(salsa, dr, &key, &inp));
    let want = if salsa { hsalsa(dr, &key, &inp) } else { hchacha(dr, &key, &inp) };
    sim::op();
    sim::ev("derive", &[sim::hash(&got)], || format!("{who}: h{}{}", if salsa { "salsa" } else { "chacha" }, 2 * dr));
    ensure!(got == want, "isolation", "{who}: h{}{} differs", if salsa { "salsa" } else { "chacha" }, 2 * dr);
}

struct Mixed {
    left: usize,
    fail: bool,
    buf: Vec<Vec<u8>>,
    out: Vec<u8>,
    taken: usize,
    bs: usize,
}
impl Script for Mixed {
    fn next(&mut self, par: usize) -> Step {
        // another caller, or a nested operation, in the middle of a session
        hook::point();
        if self.left == 0 {
            return if self.fail { Step::Panic } else { Step::Stop };
        }
        self.left -= 1;
        match d(4) {
            0 if par > 1 => Step::Tail(du(par)),
            1 => Step::Par,
            _ => Step::Single,
        }
    }
    fn target(&mut self, n: usize) -> *mut u8 {
        self.buf.push(vec![0; n]);
        self.buf.last_mut().unwrap().as_mut_ptr()
    }
    fn got(&mut self, _: Step, b: &[u8]) {
        self.taken += b.len() / self.bs;
        self.out.extend_from_slice(b);
    }
}

fn core_op(core: &mut dyn CoreObj, c: &Creds, m: &mut crate::model::Model, blk: &mut u128, who: &str) {
    let bs = c.alg.block_size();
    if c.alg.seekable() && (chance(1, 4) || *blk + 200 > c.alg.max_ctr()) {
        *blk = (sim::d64() as u128 & c.alg.max_ctr()).saturating_sub(400);
        ensure!(core.set_blk(*blk), "refused", "{who}: block position refused");
    }
    let fail = c.alg.seekable() && chance(1, 5);
    let mut s = Mixed { left: du(6), fail, buf: vec![], out: vec![], taken: 0, bs };
    let r = core.session(&mut s);
    sim::op();
    let what = format!("{who}: {} session of {} blocks at {:#x}", c.name(), s.taken, *blk);
    sim::ev("session", &[s.taken as u64, sim::hash(&s.out)], || what.clone());
    let want = m.ks_vec(*blk * bs as u128, s.taken * bs);
    ensure!(s.out == want, "isolation", "{what}: blocks differ{}", sim::diff(&s.out, &want));
    match r {
        Res::Ok => *blk += s.taken as u128,
        Res::Injected => {
            sim::fault("fault.unwind.session");
            let at = core.blk().unwrap();
            ensure!(at >= *blk && at <= *blk + s.taken as u128, "unwind", "{what}: left at {at:#x}");
            *blk = at;
        }
        Res::Panic(e) => fail!("panic", "{what}: {e}"),
        Res::Err(e) => fail!("refused", "{what}: {e}"),
    }
}

/// A complete piece of work to run inside someone else's operation.
fn nested_op(pool: &[Creds], _seeds: &[[u8; 32]]) -> Box<dyn FnMut()> {
    let c = pool[du(pool.len())].clone();
    let what = d(4);
    #[cfg(feature = "rng")]
    let seed = _seeds[du(_seeds.len())];
    Box::new(move || {
        sim::fault("fault.reentry");
        sim::note(|| "  nested inside the running operation:".into());
        match what {
            0 => derive_op(&c, "nested"),
            #[cfg(feature = "rng")]
            1 => {
                let dr = rngs::KINDS[du(3)];
                let (mut g, mut m) = (Gen::new(dr, seed), GenModel::new(dr, seed));
                for _ in 0..2 {
                    rngs::step(&mut g, &mut m, "nested");
                }
            }
            _ => {
                let mut a = Actor::new(c.clone(), "nested");
                for _ in 0..2 {
                    a.act(&Mix { cap: 600, ..RANDOM_ACCESS });
                }
            }
        }
    })
}

pub fn run() {
    let base = Creds::draw(draw_alg());
    let mut pool = vec![base.clone()];
    for _ in 0..2 + du(5) {
        let from = pool[du(pool.len())].clone();
        pool.push(related(&from));
    }
    if chance(1, 2) {
        pool.push(Creds::draw(draw_alg()));
    }
    #[cfg(feature = "rng")]
    let mut seeds = vec![rngs::draw_seed()];
    #[cfg(not(feature = "rng"))]
    let mut seeds = vec![[0u8; 32]];
    let mut s2 = seeds[0];
    lookalike(&mut s2);
    seeds.push(s2);
    cpu::level(cpu::draw());
    let n = 1 + du(4);
    let nest = chance(1, 2);
    let yielding = chance(3, 4);
    sim::ev("open", &[n as u64, pool.len() as u64], || format!("{n} callers, {} related credentials", pool.len()));
    let mk = |i: usize| Caller {
        name: format!("caller {i}"),
        mix: Mix { cap: [200, 700, 2500][du(3)], ..RANDOM_ACCESS },
        steps: 4 + du(14),
        pool: pool.clone(),
        seeds: seeds.clone(),
        nest,
    };
    hook::preempting(chance(4, 5));
    if n == 1 {
        let mut w = mk(0);
        w.nest = true;
        w.steps += 10;
        caller(w);
        return;
    }
    hook::yielding(yielding);
    if chance(1, 4) {
        hook::migrate(2);
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for i in 0..n {
        let w = mk(i);
        bodies.push(Box::new(move || caller(w)));
    }
    threads::run(bodies);
}
