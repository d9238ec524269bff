//! C08: block-level sessions whose callers stop early or die in the middle.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::hook;
use crate::model::Alg;
use crate::sim::{self, chance, d, du};
use crate::{ensure, fail};

struct Driver {
    plan: Vec<u64>,
    at: usize,
    end: Step,
    taken: usize,
    max_blocks: usize,
    bs: usize,
    bufs: Vec<Vec<u8>>,
    out: Vec<u8>,
    steps: Vec<Step>,
}
impl Script for Driver {
    fn next(&mut self, par: usize) -> Step {
        hook::point();
        if self.at >= self.plan.len() {
            return self.end;
        }
        let c = self.plan[self.at];
        self.at += 1;
        let left = self.max_blocks - self.taken;
        let s = match c % 8 {
            0..=2 => Step::Single,
            3 | 4 => Step::Par,
            _ => Step::Tail((c / 8) as usize % par.max(1)),
        };
        let need = match s {
            Step::Single => 1,
            Step::Par => par,
            Step::Tail(k) => k,
            _ => 0,
        };
        if need > left { if left > 0 { Step::Single } else { self.end } } else { s }
    }
    fn target(&mut self, n: usize) -> *mut u8 {
        self.bufs.push(vec![0xA5; n]);
        self.bufs.last_mut().unwrap().as_mut_ptr()
    }
    fn got(&mut self, step: Step, blocks: &[u8]) {
        self.steps.push(step);
        self.taken += blocks.len() / self.bs;
        self.out.extend_from_slice(blocks);
    }
}

pub fn draw_blk(alg: Alg, room: u128) -> u128 {
    let max = alg.max_ctr();
    let b = match d(7) {
        0 => 0,
        1 => (1u128 << 32).wrapping_sub(d(40) as u128),
        2 => max - d(90) as u128,
        3 => (1u128 << sim::range(1, alg.ctr_bits() as u64 - 1)).saturating_sub(d(20) as u128),
        4 => (sim::d64() as u128 | 0xffff_ffff).wrapping_sub(d(40) as u128),
        5 => sim::d64() as u128,
        _ => d(100) as u128,
    } & max;
    b.min(max.saturating_sub(room))
}

pub fn run() {
    let c = Creds::draw(draw_alg_where(|a| a != Alg::Rc4));
    let bs = c.alg.block_size();
    cpu::level(cpu::draw());
    let ctor = d(12);
    let mut core = make_core(c.alg, &c.key, &c.iv, ctor);
    let mut m = c.model();
    // exact block position
    let mut blk = 0u128;
    sim::ev("open", &[c.id()], || format!("{} core on {}", c.name(), cpu::LEVELS[cpu::current()].0));
    if c.alg.seekable() && chance(3, 4) {
        blk = draw_blk(c.alg, 60);
        ensure!(core.set_blk(blk), "refused", "{}: block position {blk:#x} refused", c.name());
    }
    if chance(1, 4) {
        hook::migrate(4);
    }
    for _ in 0..2 + du(7) {
        if chance(1, 4) {
            cpu::level(cpu::draw());
            sim::fault("fault.cpu.migrate");
        }
        match d(8) {
            0 if c.alg.seekable() => {
                blk = draw_blk(c.alg, 60);
                ensure!(core.set_blk(blk), "refused", "{}: block position {blk:#x} refused", c.name());
                sim::ev("set", &[blk as u64], || format!("set block position {blk:#x}"));
            }
            1 => {
                let k = SIMPLES[du(6)];
                let n = (if k.one() { 1 } else if d(60) == 59 { du(1400) } else { du(40) }).min(room(c.alg, blk));
                if n == 0 && k.one() {
                    continue;
                }
                let data = sim::expand(sim::d64(), n * bs);
                let mut out = if k.writes() || k.separate() { vec![0xA5; n * bs] } else { data.clone() };
                let what = format!("{}: {k:?} of {n} blocks at {blk:#x}", c.name());
                match core.simple(k, &data, &mut out) {
                    Res::Ok => {}
                    Res::Panic(e) => fail!("panic", "{what}: {e}"),
                    r => fail!("refused", "{what}: {r:?}"),
                }
                sim::op();
                let mut want = m.ks_vec(blk * bs as u128, n * bs);
                if !k.writes() {
                    want = xor(&want, &data);
                }
                sim::ev("blocks", &[n as u64, sim::hash(&out)], || what.clone());
                ensure!(out == want, "keystream", "{what}: wrong{}", sim::diff(&out, &want));
                blk += n as u128;
            }
            2 => core = core.relocate(),
            _ => blk = session(&mut *core, &c, &mut m, blk),
        }
        if c.alg.seekable() {
            let at = core.blk();
            ensure!(at == Some(blk), "position", "{}: reports block {at:x?}, expected {blk:#x}", c.name());
            let rem = core.remaining();
            let want = usize::try_from(c.alg.max_ctr() - blk).ok();
            ensure!(rem == want, "position", "{}: {rem:?} blocks remain at {blk:#x}", c.name());
        }
    }
    // and the core still becomes a good stream, or serves a last one-shot call
    let room_bytes = room(c.alg, blk) * bs;
    if chance(1, 2) {
        let mut obj = core.into_stream();
        let mut pos = blk * bs as u128;
        for _ in 0..1 + du(3) {
            let n = sim::len(400).min(room_bytes.saturating_sub((pos - blk * bs as u128) as usize));
            let f = draw_form(n, c.alg, pos);
            let data = sim::expand(sim::d64(), n);
            process(&mut *obj, &c, &mut m, &mut pos, f, &data, "stream made from the core");
        }
    } else {
        let n = sim::len(1500).min(room_bytes);
        let mut out = vec![0; n];
        match core.partial(&[], &mut out, false, false) {
            Res::Ok => {}
            r => fail!("refused", "{}: one-shot of {n} bytes at block {blk:#x}: {r:?}", c.name()),
        }
        let want = m.ks_vec(blk * bs as u128, n);
        ensure!(out == want, "keystream", "{}: one-shot of {n} bytes at block {blk:#x} wrong{}", c.name(), sim::diff(&out, &want));
    }
}

fn room(alg: Alg, blk: u128) -> usize {
    if alg.seekable() { (alg.max_ctr() - blk).min(4096) as usize } else { 4096 }
}

/// One session; returns the block position afterwards.
fn session(core: &mut dyn CoreObj, c: &Creds, m: &mut crate::model::Model, blk: u128) -> u128 {
    let bs = c.alg.block_size();
    let ending = if chance(1, 3) { Step::Panic } else { Step::Stop };
    // rarely a session of many hundred blocks
    let long = d(150) == 149;
    let plan: Vec<u64> = if long {
        let (n, style) = (50 + du(250), d(8 * 16));
        (0..n).map(|_| if chance(1, 2) { style } else { d(8 * 16) }).collect()
    } else {
        (0..du(9)).map(|_| d(8 * 16)).collect()
    };
    let mut s = Driver {
        plan,
        at: 0,
        end: ending,
        taken: 0,
        max_blocks: room(c.alg, blk).min(if long { 2000 } else { 120 }),
        bs,
        bufs: vec![],
        out: vec![],
        steps: vec![],
    };
    let level = cpu::current();
    let r = core.session(&mut s);
    sim::op();
    let taken = s.taken;
    let what = format!("{} session at block {blk:#x} on {} took {:?} then {ending:?}", c.name(), cpu::LEVELS[level].0, s.steps);
    sim::ev("session", &[taken as u64, sim::hash(&s.out), matches!(r, Res::Injected) as u64], || what.clone());
    let mut h = vec![0x88, c.alg as u64, level as u64, (ending == Step::Panic) as u64];
    for st in &s.steps {
        h.push(match st {
            Step::Single => 1,
            Step::Par => 2,
            Step::Tail(k) => 3 + *k as u64,
            _ => 0,
        });
    }
    sim::sig(&h);
    let want = m.ks_vec(blk * bs as u128, taken * bs);
    ensure!(s.out == want, "keystream", "{what}: blocks are not the consecutive keystream{}", sim::diff(&s.out, &want));
    match (r, ending) {
        (Res::Ok, Step::Stop) => blk + taken as u128,
        (Res::Injected, Step::Panic) => {
            sim::fault("fault.unwind.session");
            // somewhere between the entry and the last block handed out, and
            // the next block belongs to exactly that position
            let last = blk + taken as u128;
            if let Some(b) = core.blk() {
                ensure!(b >= blk && b <= last, "unwind", "{what}: core left at block {b:#x}");
                if room(c.alg, b) == 0 {
                    return b;
                }
            }
            let reported = core.blk();
            let mut out = vec![0; bs];
            match core.simple(Simple::WriteBlock, &[], &mut out) {
                Res::Ok => {}
                r => fail!("unwind", "{what}: unusable afterwards: {r:?}"),
            }
            if let Some(b) = reported {
                ensure!(out == m.ks_vec(b * bs as u128, bs), "unwind", "{what}: reports block {b:#x} but produces another one");
                return b + 1;
            }
            // no position to ask for: a few more blocks identify it
            let mut more = vec![0; 4 * bs];
            match core.simple(Simple::WriteBlocks, &[], &mut more) {
                Res::Ok => {}
                r => fail!("unwind", "{what}: unusable afterwards: {r:?}"),
            }
            out.extend_from_slice(&more);
            for b in (blk..=last).rev() {
                if out == m.ks_vec(b * bs as u128, 5 * bs) {
                    return b + 5;
                }
            }
            fail!("unwind", "{what}: continues with blocks of no position between entry and exit");
        }
        (r, _) => fail!("panic", "{what}: ended with {r:?}"),
    }
}
