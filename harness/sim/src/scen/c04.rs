//! C04: a replicated log executed by machines with different (and changing)
//! CPUs; nobody may be able to tell the replicas apart.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::hook;
use crate::model::{Alg, Model};
#[cfg(feature = "rng")]
use crate::rngs::{self, Gen, GenModel};
use crate::sim::{self, Net, Queue, chance, d, du};
use crate::{ensure, fail};

#[derive(Clone, Debug)]
enum Cmd {
    Seek(u128),
    Read(Form, usize, u64),
    /// block level: position, operation, blocks
    Blocks(u128, Simple, usize, u64),
    RngSet(u128),
    RngFill(usize),
    RngWords(usize),
    RngStream(u64),
    /// bare generator core: 64-bit counter, first block, batches
    Core(bool, u64, u64, bool),
}

struct Replica {
    obj: Box<dyn Obj>,
    core: Box<dyn CoreObj>,
    #[cfg(feature = "rng")]
    g: Gen,
    cpu: usize,
    bits: u32,
    applied: usize,
    /// what it saw: one hash per command
    seen: Vec<u64>,
}

fn draw_log(alg: Alg) -> Vec<Cmd> {
    let max = alg.max_ctr();
    let mut log = vec![];
    // current byte position, to keep reads inside the keystream
    let mut pos = 0u128;
    let near_carry = |span: u64| -> u128 {
        // counters whose parallel batch crosses a word or lane boundary
        let b = match d(8) {
            0 => 1u128 << 32,
            1 => (sim::d64() as u128 & max) & !0xffff_ffff,
            2 => 1u128 << sim::range(1, alg.ctr_bits() as u64 - 1),
            3 => max + 1,
            4 => (sim::d64() as u128 & max) & !0xf,
            5 => sim::d64() as u128 & max,
            6 => 1u128 << 31,
            _ => d(40) as u128,
        };
        b.wrapping_sub(d(span) as u128) & max
    };
    for _ in 0..3 + du(14) {
        let cmd = match d(10) {
            0 | 1 => {
                let p = (near_carry(36) * 64 + if chance(1, 2) { d(64) as u128 } else { 0 }).min(max * 64);
                pos = p;
                Cmd::Seek(p)
            }
            2..=5 => {
                let n = match d(4) {
                    0 => sim::len(4000),
                    1 => 64 * du(50),
                    2 => 64 * du(34) + du(64),
                    _ => 1024 + 64 * du(18) + du(3),
                };
                if granted(alg, pos, n) {
                    let f = FORMS[du(FORMS.len())];
                    pos += n as u128;
                    Cmd::Read(f, n, sim::d64())
                } else {
                    pos = 0;
                    Cmd::Seek(0)
                }
            }
            6 | 7 => {
                let k = SIMPLES[du(SIMPLES.len())];
                let n = if k.one() { 1 } else { du(42) };
                let b = near_carry(44);
                // usually inside the keystream; at block level nobody refuses
                // a batch that runs over its end
                let b = if chance(1, 6) { max - d(44) as u128 } else { b.min(max + 1 - n.max(1) as u128) };
                Cmd::Blocks(b, k, n, sim::d64())
            }
            _ => {
                #[cfg(feature = "rng")]
                let c = match d(5) {
                    4 => {
                        let (wide, n) = (chance(1, 2), 1 + d(4));
                        let (start, plain) = rngs::draw_core_pos(wide, n);
                        Cmd::Core(wide, start, n, plain)
                    }
                    0 => Cmd::RngSet(if chance(1, 2) { rngs::draw_word_pos() } else { near_carry(9) * 16 + d(16) as u128 }),
                    1 => Cmd::RngFill(rngs::fill_len()),
                    2 => Cmd::RngWords(1 + du(80)),
                    _ => Cmd::RngStream(rngs::draw_stream()),
                };
                #[cfg(not(feature = "rng"))]
                let c = Cmd::Seek({
                    pos = 64;
                    64
                });
                c
            }
        };
        log.push(cmd);
    }
    log
}

enum Ev {
    Deliver(usize, usize),
    Migrate(usize),
    Crash(usize),
    Resend,
}

pub fn run() {
    let algs: Vec<Alg> = algs().iter().copied().filter(|a| a.is_chacha()).collect();
    let c = Creds::draw(algs[du(algs.len())]);
    #[cfg(feature = "rng")]
    let (dr, seed) = (rngs::KINDS[du(3)], rngs::draw_seed());
    let log = draw_log(c.alg);
    sim::ev("log", &[c.id(), log.len() as u64], || format!("{} log of {} commands", c.name(), log.len()));

    // the reference execution
    let mut want: Vec<Vec<u8>> = vec![];
    let mut pos_after = vec![];
    {
        let mut m: Model = c.model();
        let mut pos = 0u128;
        #[cfg(feature = "rng")]
        let mut gm = GenModel::new(dr, seed);
        for cmd in &log {
            let mut out = vec![];
            match *cmd {
                Cmd::Seek(p) => pos = p,
                Cmd::Read(f, n, s) => {
                    out = m.ks_vec(pos, n);
                    if !f.writes() {
                        out = xor(&out, &sim::expand(s, n));
                    }
                    pos += n as u128;
                }
                Cmd::Blocks(b, _, n, _) if over(c.alg, b, n) => {}
                Cmd::Blocks(b, k, n, s) => {
                    out = m.ks_vec(b * 64, n * 64);
                    if !k.writes() {
                        out = xor(&out, &sim::expand(s, n * 64));
                    }
                }
                #[cfg(feature = "rng")]
                Cmd::RngSet(p) => gm.pos = p & rngs::MASK,
                #[cfg(feature = "rng")]
                Cmd::RngFill(n) => out = gm.take(n),
                #[cfg(feature = "rng")]
                Cmd::RngWords(n) => out = gm.take(4 * n),
                #[cfg(feature = "rng")]
                Cmd::RngStream(s) => gm.set_stream(s),
                #[cfg(feature = "rng")]
                Cmd::Core(_, start, n, plain) => {
                    if plain {
                        out = GenModel::at(dr, seed, 0, start as u128 * 16).take(256 * n as usize);
                    }
                }
                #[cfg(not(feature = "rng"))]
                _ => unreachable!(),
            }
            want.push(out);
            #[cfg(feature = "rng")]
            pos_after.push((pos, gm.pos));
            #[cfg(not(feature = "rng"))]
            pos_after.push((pos, 0u128));
        }
    }

    let fresh = |cp: usize| {
        cpu::level(cp);
        let (a, b) = (d(12), d(12));
        Replica {
            obj: make(c.alg, &c.key, &c.iv, a),
            core: make_core(c.alg, &c.key, &c.iv, b),
            #[cfg(feature = "rng")]
            g: Gen::new(dr, seed),
            cpu: cp,
            bits: c.alg.ctr_bits(),
            applied: 0,
            seen: vec![],
        }
    };
    // one replica of every kind, order and extra ones drawn
    let k = 2 + du(4);
    let mut reps: Vec<Replica> = (0..k).map(|i| fresh(if i < 4 { 3 - i } else { cpu::draw() })).collect();
    let live = [0, 0, 3, 10][du(4)];
    hook::migrate(live);
    let mut net = Net::draw();
    let mut q: Queue<Ev> = Queue::new();
    for i in 0..k {
        for j in 0..log.len() {
            for t in net.route() {
                q.after(j as u64 * 300 + t, Ev::Deliver(i, j));
            }
        }
        if chance(1, 2) {
            q.after(d(300 * log.len() as u64), Ev::Migrate(i));
        }
        if chance(1, 3) {
            q.after(d(300 * log.len() as u64), Ev::Crash(i));
        }
    }
    q.after(300 * log.len() as u64 + 1000, Ev::Resend);
    let mut stash: Vec<Vec<bool>> = vec![vec![false; log.len()]; k];
    while let Some(e) = q.pop() {
        match e {
            Ev::Migrate(i) => {
                sim::fault("fault.cpu.migrate");
                reps[i].cpu = cpu::draw();
                if chance(1, 2) {
                    let r = &mut reps[i];
                    let o = std::mem::replace(&mut r.obj, make(c.alg, &c.key, &c.iv, 0));
                    r.obj = o.relocate();
                }
                sim::ev("migrate", &[i as u64, reps[i].cpu as u64], || format!("replica {i} moves to {}", cpu::LEVELS[reps[i].cpu].0));
            }
            Ev::Crash(i) => {
                // restart from nothing and replay the log it had
                sim::fault("fault.crash.replica");
                sim::ev("crash", &[i as u64], || format!("replica {i} restarts"));
                reps[i] = fresh(cpu::draw());
                advance(&mut reps[i], i, &log, &want, &pos_after, &stash[i]);
            }
            Ev::Deliver(i, j) => {
                stash[i][j] = true;
                advance(&mut reps[i], i, &log, &want, &pos_after, &stash[i]);
            }
            Ev::Resend => {
                // faults stop: everything still missing is delivered
                net = Net::calm();
                for i in 0..k {
                    for j in 0..log.len() {
                        if !stash[i][j] {
                            for t in net.route() {
                                q.after(t, Ev::Deliver(i, j));
                            }
                        }
                    }
                }
            }
        }
    }
    for r in &reps {
        ensure!(r.applied == log.len(), "progress", "a replica did not finish the log");
        if let Some(j) = (0..log.len()).find(|&j| r.seen[j] != reps[0].seen[j]) {
            fail!("divergence", "replicas recorded different results of command {j} {:x?}", log[j]);
        }
    }
}

/// A batch that runs over the end of the keystream.
fn over(alg: Alg, b: u128, n: usize) -> bool {
    b + n as u128 > alg.max_ctr() + 1
}

fn pos_blk(b: u128, bits: u32) -> u128 {
    b & ((1u128 << bits) - 1)
}

fn advance(r: &mut Replica, i: usize, log: &[Cmd], want: &[Vec<u8>], pos_after: &[(u128, u128)], have: &[bool]) {
    while r.applied < log.len() && have[r.applied] {
        cpu::level(r.cpu);
        let j = r.applied;
        let cmd = &log[j];
        let who = format!("replica {i} ({}) command {j} {cmd:x?}", cpu::LEVELS[r.cpu].0);
        let mut out: Vec<u8> = vec![];
        let mut res = Res::Ok;
        #[allow(unused_mut)]
        let mut defined = true;
        sim::op();
        match *cmd {
            Cmd::Seek(p) => res = r.obj.seek(Num::U128, p, false).unwrap(),
            Cmd::Read(f, n, s) => {
                let data = sim::expand(s, n);
                let mut io = Io::new(f, &data);
                res = io.run(&mut *r.obj, f);
                out = io.out().to_vec();
                sim::sig(&[0x44, r.cpu as u64, (n / 64) as u64, (n % 64) as u64]);
            }
            Cmd::Blocks(b, k, n, s) => {
                let data = sim::expand(s, n * 64);
                out = if k.separate() || k.writes() { vec![0xA5; n * 64] } else { data.clone() };
                if !r.core.set_blk(b) {
                    fail!("refused", "{who}: block position refused");
                }
                res = r.core.simple(k, &data, &mut out);
                // past the end only the replicas are compared with each other
                defined = b + n as u128 <= 1 << r.bits;
                let at = r.core.blk();
                let next = pos_blk(b + n as u128, r.bits);
                ensure!(at == Some(next), "position", "{who}: core at block {at:x?}, expected {next:#x}");
                sim::sig(&[0x45, r.cpu as u64, k as u64, n as u64, (b % 16) as u64, ((b as u32) > u32::MAX - 64) as u64, defined as u64]);
            }
            #[cfg(feature = "rng")]
            Cmd::RngSet(p) => sim::must(&who, || r.g.set_word_pos(p)),
            #[cfg(feature = "rng")]
            Cmd::RngFill(n) => {
                out = vec![0; n];
                sim::must(&who, || r.g.fill(&mut out));
            }
            #[cfg(feature = "rng")]
            Cmd::RngWords(n) => {
                for _ in 0..n {
                    let w = sim::must(&who, || r.g.u32());
                    out.extend_from_slice(&w.to_le_bytes());
                }
            }
            #[cfg(feature = "rng")]
            Cmd::RngStream(s) => sim::must(&who, || r.g.set_stream(s)),
            #[cfg(feature = "rng")]
            Cmd::Core(wide, start, n, plain) => {
                let mut g = rngs::GCore::new(r.g.kind(), wide, r.g.seed());
                g.set_blk(start);
                for _ in 0..n {
                    out.extend(g.generate());
                }
                // past the end of a 32-bit counter only the replicas are
                // compared with each other
                defined = plain;
            }
            #[cfg(not(feature = "rng"))]
            _ => unreachable!(),
        }
        match res {
            Res::Ok => {}
            Res::Panic(e) => fail!("panic", "{who}: panicked ({e})"),
            e => fail!("refused", "{who}: {e:?}"),
        }
        if defined && out != want[j] {
            fail!("divergence", "{who}: output differs from the reference{}", sim::diff(&out, &want[j]));
        }
        let (p, gp) = pos_after[j];
        match r.obj.pos(Num::U128, false) {
            Some(Ok(v)) if v == p => {}
            x => fail!("position", "{who}: position {x:?}, expected {p:#x}"),
        }
        #[cfg(feature = "rng")]
        {
            let v = sim::must(&who, || r.g.word_pos());
            ensure!(v == gp, "position", "{who}: generator at word {v:#x}, expected {gp:#x}");
        }
        let _ = gp;
        let h = sim::hash(&out);
        sim::ev("apply", &[i as u64, j as u64, h, r.cpu as u64], || who.clone());
        r.seen.push(h);
        r.applied += 1;
    }
}
