//! C11: what the library prints. Two parties with different secrets, states
//! and data go through corresponding histories; every text must be the same.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::ensure;
use crate::model::Alg;
#[cfg(feature = "rng")]
use crate::rngs::{self, Gen, GenModel};
use crate::sim::{self, chance, d, du};
use std::collections::BTreeMap;

/// Every text seen so far in this run, by what printed it.
struct Texts(BTreeMap<String, String>);
impl Texts {
    fn see(&mut self, kind: String, text: String) {
        sim::op();
        sim::ev("text", &[sim::hash(text.as_bytes())], || format!("{kind}: {text}"));
        sim::sig(&[0xDB, sim::hash(kind.as_bytes())]);
        match self.0.get(&kind) {
            Some(t) => ensure!(*t == text, "leak", "{kind} printed {t:?} and, for other secrets or another state, {text:?}"),
            None => {
                self.0.insert(kind, text);
            }
        }
    }
    fn stream(&mut self, o: &dyn Obj, n: &str) {
        for pretty in [false, true] {
            if let Some(t) = o.dbg(pretty) {
                self.see(format!("{n} Debug{}", if pretty { " (pretty)" } else { "" }), t);
            }
        }
    }
    fn core(&mut self, o: &dyn CoreObj, n: &str) {
        for pretty in [false, true] {
            if let Some(t) = o.dbg(pretty) {
                self.see(format!("{n} core Debug{}", if pretty { " (pretty)" } else { "" }), t);
            }
        }
    }
    #[cfg(feature = "rng")]
    fn generator(&mut self, g: &Gen) {
        for pretty in [false, true] {
            self.see(format!("ChaCha{}Rng Debug{}", 2 * g.kind(), if pretty { " (pretty)" } else { "" }), g.dbg(pretty));
        }
    }
    fn res(&mut self, what: String, r: &Res) {
        match r {
            Res::Err(e) => self.see(format!("{what} error"), e.clone()),
            Res::Panic(e) => self.see(format!("{what} panic message"), e.clone()),
            _ => {}
        }
    }
}

struct Fail;
impl Script for Fail {
    fn next(&mut self, _: usize) -> Step {
        Step::Panic
    }
    fn target(&mut self, _: usize) -> *mut u8 {
        unreachable!()
    }
    fn got(&mut self, _: Step, _: &[u8]) {}
}

/// The text-producing operations, in a state of the party's own.
fn visit(t: &mut Texts, a: &mut Actor) {
    let n = a.c.name();
    match d(8) {
        0 => {
            // past the end
            if a.c.alg.seekable() {
                let at = a.c.alg.max_ctr() * 64 - d(200) as u128;
                a.seek(Num::U128, at, false);
                let forms = [Form::TryInPlace, Form::TryB2b, Form::TryWrite, Form::InPlace, Form::B2b, Form::InOut, Form::Write];
                let f = forms[du(forms.len())];
                let len = 300 + du(600);
                let data = sim::expand(sim::d64(), len);
                let mut io = Io::new(f, &data);
                let r = io.run(&mut *a.obj, f);
                sim::fault("fault.refused.past_end");
                t.res(format!("{n} {f:?} past the end"), &r);
            }
        }
        1 => {
            let forms = [Form::TryB2b, Form::B2b, Form::UncheckedB2b, Form::TryInOut, Form::InOut];
            let f = forms[du(forms.len())];
            let k = 1 + du(100);
            let inp = sim::expand(sim::d64(), k);
            let mut out = vec![0; k + 1 + du(50)];
            let r = a.obj.call(f, &inp, &mut out);
            sim::fault("fault.refused.lengths");
            t.res(format!("{n} {f:?} with unequal lengths"), &r);
        }
        2 => {
            if a.c.alg.seekable() && a.c.alg.ctr_bits() == 32 || chance(1, 2) {
                let p = (a.c.alg.max_ctr() + 1) * 64 + sim::d64() as u128;
                let panicking = chance(1, 2);
                if let Some(r) = a.obj.seek(Num::U128, p, panicking) {
                    sim::fault("fault.refused.seek");
                    t.res(format!("{n} seek"), &r);
                }
            }
        }
        3 => {
            // a position that does not fit
            if a.c.alg.seekable() {
                let room = (a.c.alg.max_ctr() * 64 - (1 << 33)) as u64;
                let at = ((1 << 33) + d(room.min(1 << 60))) as u128;
                a.seek(Num::U128, at, false);
                let num = [Num::U32, Num::I32][du(2)];
                let panicking = chance(1, 2);
                if let Some(Err(r)) = a.obj.pos(num, panicking) {
                    sim::fault("fault.refused.position");
                    t.res(format!("{n} position as {num:?}"), &r);
                }
            }
        }
        4 => {
            let alg = a.c.alg;
            if !alg.seed_only() {
                let bad = sim::bytes(if alg == Alg::Rc4 { 257 + du(40) } else { 33 + du(40) });
                if let Err(e) = try_make(alg, &bad, &sim::bytes(alg.iv_len())) {
                    sim::fault("fault.config.wrong_length");
                    t.see(format!("{n} constructor error"), e);
                }
            }
        }
        5 if a.c.alg != Alg::Rc4 => {
            let ctor = d(12);
            let mut core = make_core(a.c.alg, &a.c.key, &a.c.iv, ctor);
            t.core(&*core, n);
            // printed again wherever it has come to
            for _ in 0..du(5) {
                if a.c.alg.seekable() && chance(1, 4) {
                    core.set_blk(draw_pos(a.c.alg).min(a.c.alg.max_ctr() * 64 - 8192) / 64);
                } else {
                    let k = 1 + du([3, 20, 60][du(3)]);
                    let mut out = sim::expand(sim::d64(), k * a.c.alg.block_size());
                    let how = [Simple::WriteBlocks, Simple::ApplyBlocks, Simple::WriteBlock][du(3)];
                    core.simple(how, &[], &mut out);
                }
                t.core(&*core, n);
                if chance(1, 4) {
                    core = core.relocate();
                }
            }
            if chance(1, 3) {
                let w = core.into_stream();
                t.stream(&*w, n);
                core = make_core(a.c.alg, &a.c.key, &a.c.iv, ctor);
            }
            if a.c.alg.seekable() {
                core.set_blk(a.c.alg.max_ctr() - d(3) as u128);
            }
            if chance(1, 2) {
                sim::fault("fault.unwind.session");
                core.session(&mut Fail);
                t.core(&*core, n);
            }
            if a.c.alg.seekable() {
                let mut out = sim::bytes(64 * 5 + du(64));
                let panicking = chance(1, 2);
                let r = core.partial(&[], &mut out, false, panicking);
                t.res(format!("{n} one-shot past the end"), &r);
            }
        }
        _ => a.act(&Mix { cap: 500, ..RANDOM_ACCESS }),
    }
    t.stream(&*a.obj, n);
}

pub fn run() {
    let alg = draw_alg();
    let mut t = Texts(BTreeMap::new());
    // the reference party: zero secrets, fresh
    {
        let z = Creds { alg, key: vec![0; if alg == Alg::Rc4 { 16 } else { alg.key_len() }], iv: vec![0; alg.iv_len()] };
        let o = z.make();
        t.stream(&*o, alg.name());
        if alg != Alg::Rc4 {
            t.core(&*make_core(alg, &z.key, &z.iv, 0), alg.name());
        }
    }
    let mut parties: Vec<Actor> = (0..2)
        .map(|i| {
            cpu::level(cpu::draw());
            Actor::new(Creds::draw(alg), ["first party", "second party"][i])
        })
        .collect();
    for _ in 0..3 + du(20) {
        let i = du(2);
        if chance(1, 8) {
            cpu::level(cpu::draw());
        }
        if chance(1, 12) {
            sim::fault("fault.crash.party");
            let at = parties[i].pos;
            parties[i].restart(at);
        }
        visit(&mut t, &mut parties[i]);
    }
    #[cfg(feature = "rng")]
    {
        let dr = rngs::KINDS[du(3)];
        t.generator(&Gen::new(dr, [0; 32]));
        for _ in 0..2 {
            let seed = rngs::draw_seed();
            let (mut g, mut m) = (Gen::new(dr, seed), GenModel::new(dr, seed));
            for _ in 0..du(6) {
                if chance(1, 4) {
                    let img = g.save();
                    g = Gen::restore(dr, &img);
                } else {
                    rngs::step(&mut g, &mut m, "printed generator");
                }
                t.generator(&g);
            }
        }
    }
}
