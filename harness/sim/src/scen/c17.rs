//! C17: nodes without a heap and with little stack. Other scenarios' parties
//! run here; every library call is metered.

use crate::mem::confine;
#[cfg(feature = "stream")]
use crate::sim::chance;
use crate::sim::{self, Violation, d, du};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

/// A sink that needs no memory.
struct Sink([u8; 256], usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0[self.1 % 256] = b;
            self.1 += 1;
        }
        Ok(())
    }
}

/// What the other scenarios leave to chance: printing and dropping.
fn ends() {
    #[cfg(feature = "rng")]
    {
        use crate::rngs::*;
        let (dr, seed) = (KINDS[du(3)], draw_seed());
        let mut g = Gen::new(dr, seed);
        let mut m = GenModel::new(dr, seed);
        for _ in 0..du(4) {
            step(&mut g, &mut m, "generator");
        }
        let mut sink = Sink([0; 256], 0);
        let pretty = d(2) == 1;
        sim::must("Debug", || g.put(pretty, &mut sink));
        sim::must("drop", || drop(g));
        sim::op();
        sim::ev("end", &[dr as u64, sink.1 as u64], || format!("ChaCha{}Rng printed and dropped", 2 * dr));
    }
    #[cfg(feature = "stream")]
    {
        use crate::ciphers::*;
        use crate::common::*;
        let c = Creds::draw(draw_alg_where(|a| a != crate::model::Alg::Rc4));
        let (ctor, n, pretty) = (d(12), du(700), chance(1, 2));
        let mut buf = sim::expand(sim::d64(), n);
        crate::with_core!(c.alg, C, {
            let mut w = sim::must("constructor", || <C as Build>::wrap(&c.key, &c.iv, ctor));
            let mut sink = Sink([0; 256], 0);
            sim::must("keystream", || cipher::StreamCipher::unchecked_apply_keystream(&mut w, &mut buf));
            sim::must("Debug", || <C as Build>::put_wrap(&w, pretty, &mut sink));
            sim::must("drop", || drop(w));
            sim::op();
            sim::ev("end", &[c.id(), sink.1 as u64], || format!("{} printed and dropped", c.name()));
        });
    }
}

pub fn run() {
    let k = d(16);
    let body = || {
        #[cfg(all(feature = "stream", feature = "others", feature = "rng"))]
        match k {
            0 => return super::c01::run(),
            1 if d(4) == 3 => return super::c01::bulk(),
            1 | 2 => return super::c02::run(),
            3 | 4 => return super::c03::run(),
            5 | 6 => return super::c05::run(),
            7 => return super::c06::run(),
            8 => return super::c08::run(),
            9 => return super::c16::run(),
            10 | 11 => return ends(),
            _ => return super::c13::run(),
        }
        #[cfg(not(all(feature = "stream", feature = "others", feature = "rng")))]
        {
            #[cfg(feature = "rng")]
            match k {
                0..6 => return super::c05::run(),
                6..9 => return super::c06::run(),
                9..12 => return super::c16::run(),
                _ => {}
            }
            #[cfg(feature = "stream")]
            match k {
                0..3 => return super::c01::run(),
                3..6 => return super::c02::run(),
                6..9 => return super::c08::run(),
                _ => {}
            }
            ends()
        }
    };
    crate::cpu::level(crate::cpu::draw());
    let before = confine::CALLS.load(std::sync::atomic::Ordering::SeqCst);
    confine::set(true);
    let r = catch_unwind(AssertUnwindSafe(body));
    confine::set(false);
    let after = confine::CALLS.load(std::sync::atomic::Ordering::SeqCst);
    sim::bump("confined_calls", (after - before) as u64);
    sim::most("max.stack_bytes", confine::DEEPEST.load(std::sync::atomic::Ordering::SeqCst) as u64);
    if let Err(p) = r {
        match p.downcast_ref::<Violation>() {
            // other properties have checks of their own
            Some(v) if v.class != "heap" && v.class != "stack" => sim::probe("end.other_property"),
            _ => resume_unwind(p),
        }
    }
}
