//! C18: how much work a call does. Parties hold objects anywhere in their
//! histories; the branch targets each library call reaches are counted and
//! compared with what such a call takes on an object fresh from its
//! constructor, in proportion to the bytes asked for.

use crate::ciphers::*;
use crate::common::*;
use crate::ct;
use crate::model::Alg;
use crate::rngs::*;
use crate::sim::{self, chance, d, du};
use crate::{cpu, fail};

/// How much more than on a fresh object a call may take, and a start-up
/// allowance (branch targets).
const MARGIN: u64 = 6;
const SLACK: u64 = 400;
/// Bytes of the reference calls.
const UNIT: usize = 4096;

/// What calls take on fresh objects, the most over all CPUs.
#[derive(Clone, Copy, Default, Debug)]
struct Cost {
    make: u64,
    /// processing UNIT bytes
    bulk: u64,
    /// and a single byte
    byte: u64,
    /// anything that processes nothing
    idle: u64,
    /// what may have to produce output on the way
    place: u64,
    end: u64,
}
impl Cost {
    fn most(&mut self, o: Cost) {
        self.make = self.make.max(o.make);
        self.bulk = self.bulk.max(o.bulk);
        self.byte = self.byte.max(o.byte);
        self.idle = self.idle.max(o.idle);
        self.place = self.place.max(o.place);
        self.end = self.end.max(o.end);
    }
    /// Allowed for processing `n` bytes.
    fn of(&self, n: usize) -> u64 {
        let each = self.bulk.max(1) as u128 * n as u128 / UNIT as u128;
        MARGIN * (each as u64 + self.byte) + SLACK
    }
}
fn allowed(base: u64) -> u64 {
    MARGIN * base + SLACK
}

/// Run and measure.
fn spent<R>(f: impl FnOnce() -> R) -> (R, u64) {
    ct::counted(f)
}
fn judge(what: &str, at: &str, steps: u64, most: u64) {
    // thousandths of what is allowed
    sim::most("max.permille_of_allowance", steps * 1000 / most);
    sim::bump("work.steps", steps);
    if steps > most {
        fail!("work", "{at}: {what} took {steps} steps; a call like it on a fresh object bounds it by {most}");
    }
}

fn on_every_cpu(mut f: impl FnMut() -> Cost) -> Cost {
    let mut c = Cost::default();
    let was = cpu::current();
    for l in 0..cpu::LEVELS.len() {
        cpu::level(l);
        c.most(f());
    }
    cpu::level(was);
    c
}

fn stream_cost(c: &Creds, ctor: u64) -> Cost {
    on_every_cpu(|| {
        let mut k = Cost::default();
        let (mut o, n) = spent(|| make(c.alg, &c.key, &c.iv, ctor));
        k.make = n;
        let (inp, mut out) = (vec![0u8; UNIT], vec![0u8; UNIT]);
        for f in [Form::TryInPlace, Form::TryB2b, Form::TryWrite] {
            let mut o = make(c.alg, &c.key, &c.iv, ctor);
            k.byte = k.byte.max(spent(|| o.call(f, &inp[..1], &mut out[..1])).1);
            k.bulk = k.bulk.max(spent(|| o.call(f, &inp, &mut out)).1);
        }
        k.idle = spent(|| o.check(1)).1;
        if c.alg.seekable() {
            k.place = spent(|| o.seek(Num::U128, 65, false)).1;
            k.idle = k.idle.max(spent(|| o.pos(Num::U128, false)).1);
        }
        k.end = spent(|| drop(o)).1;
        k
    })
}

fn far(alg: Alg) -> u128 {
    draw_pos(alg)
}

fn stream() {
    let c = Creds::draw(draw_alg());
    let ctor = d(12);
    let base = stream_cost(&c, ctor);
    let name = c.name();
    sim::ev("stream", &[c.id()], || format!("{name}, fresh: {base:?}"));
    let (mut o, n) = spent(|| make(c.alg, &c.key, &c.iv, ctor));
    judge("construction", &name, n, allowed(base.make));
    let mut pos = 0u128;
    for _ in 0..1 + du(14) {
        sim::op();
        if chance(1, 6) {
            cpu::level(cpu::draw());
            sim::fault("fault.cpu.migrate");
        }
        let at = format!("{name} at {pos:#x}");
        let k = d(12);
        sim::sig(&[0xC18, c.alg as u64, k, (pos % 64) as u64, zone(pos / 4)]);
        match k {
            0..=5 => {
                let n = match d(12) {
                    11 => 20_000 + du(60_000),
                    8..=10 => 700 + du(5000),
                    0..=3 => du(70),
                    _ => du(700),
                };
                let fits = granted(c.alg, pos, n);
                let mut f = draw_form(n, c.alg, pos);
                if f.panicking() && !fits {
                    f = Form::TryInOut;
                }
                let inp = vec![0x33u8; n];
                let mut out = vec![0x44u8; n];
                let (r, s) = spent(|| o.call(f, &inp, &mut out));
                sim::ev("call", &[f as u64, n as u64], || format!("{at}: {f:?} of {n} bytes ({r:?}): {s} steps"));
                judge(&format!("{f:?} of {n} bytes"), &at, s, base.of(n));
                if fits {
                    pos += n as u128;
                } else {
                    sim::fault("fault.caller.past_end");
                }
            }
            6 | 7 if c.alg.seekable() => {
                let p = if chance(1, 4) { pos.saturating_sub(du(300) as u128) + du(300) as u128 } else { far(c.alg) };
                let num = NUMS[du(5)];
                let (r, s) = spent(|| o.seek(num, p, false));
                sim::ev("seek", &[p as u64], || format!("{at}: seek to {p:#x} as {num:?} ({r:?}): {s} steps"));
                judge(&format!("seek to {p:#x}"), &at, s, allowed(base.place));
                if matches!(r, Some(Res::Ok)) {
                    pos = p;
                    sim::fault("fault.seek.far");
                }
            }
            8 if c.alg.seekable() => {
                let num = NUMS[du(5)];
                let (_, s) = spent(|| o.pos(num, false));
                sim::ev("pos", &[], || format!("{at}: position asked as {num:?}: {s} steps"));
                judge("position", &at, s, allowed(base.idle));
            }
            9 => {
                let n = [du(1000), usize::MAX - du(3), 1 << d(63)][du(3)];
                let (_, s) = spent(|| o.check(n));
                sim::ev("check", &[n as u64], || format!("{at}: check_remaining({n}): {s} steps"));
                judge(&format!("check_remaining({n})"), &at, s, allowed(base.idle));
            }
            _ => {
                // power loss; the next object finds its own way
                let (_, s) = spent(|| drop(o));
                judge("drop", &at, s, allowed(base.end));
                let (x, s) = spent(|| make(c.alg, &c.key, &c.iv, ctor));
                judge("construction", &at, s, allowed(base.make));
                o = x;
                sim::fault("fault.crash.rebuild");
                sim::ev("crash", &[], || format!("{at}: crash, rebuilt"));
                if c.alg.seekable() {
                    let (r, s) = spent(|| o.seek(Num::U128, pos, false));
                    judge(&format!("seek to {pos:#x}"), &at, s, allowed(base.place));
                    if !matches!(r, Some(Res::Ok)) {
                        pos = 0;
                    }
                } else {
                    pos = 0;
                }
            }
        }
    }
    let (_, s) = spent(|| drop(o));
    judge("drop", &name, s, allowed(base.end));
}

fn core_cost(c: &Creds, ctor: u64) -> Cost {
    on_every_cpu(|| {
        let mut k = Cost::default();
        let (mut o, n) = spent(|| make_core(c.alg, &c.key, &c.iv, ctor));
        k.make = n;
        let bs = c.alg.block_size();
        let inp = vec![0u8; UNIT];
        let mut out = vec![0u8; UNIT];
        for f in SIMPLES {
            let s = spent(|| o.simple(f, &inp[..bs], &mut out[..bs])).1;
            k.byte = k.byte.max(s);
            if f.one() {
                k.bulk = k.bulk.max(s * (UNIT / bs) as u64);
            } else {
                k.bulk = k.bulk.max(spent(|| o.simple(f, &inp, &mut out)).1);
            }
        }
        k.idle = spent(|| o.remaining()).1 + spent(|| o.blk()).1;
        k.place = spent(|| o.set_blk(1)).1;
        k.end = spent(|| drop(o)).1;
        let o = make_core(c.alg, &c.key, &c.iv, ctor);
        k.bulk = k.bulk.max(spent(|| o.partial(&inp, &mut out, true, false)).1);
        k
    })
}

fn core() {
    let c = Creds::draw(draw_alg_where(|a| a != Alg::Rc4));
    let ctor = d(12);
    let base = core_cost(&c, ctor);
    let name = format!("{} core", c.name());
    sim::ev("core", &[c.id()], || format!("{name}, fresh: {base:?}"));
    let mut o = make_core(c.alg, &c.key, &c.iv, ctor);
    let bs = c.alg.block_size();
    for _ in 0..1 + du(12) {
        sim::op();
        if chance(1, 6) {
            cpu::level(cpu::draw());
            sim::fault("fault.cpu.migrate");
        }
        let blk = o.blk().unwrap_or(0);
        let at = format!("{name} at block {blk:#x}");
        let k = d(8);
        sim::sig(&[0x1C18, c.alg as u64, k, (blk % 16) as u64, zone(blk * 16)]);
        match k {
            0..=3 => {
                let f = SIMPLES[du(6)];
                let n = if f.one() { 1 } else { du(40) };
                let room = c.alg.seekable() && c.alg.max_ctr() - blk <= n as u128;
                if room {
                    continue;
                }
                let inp = vec![0x33u8; n * bs];
                let mut out = vec![0x44u8; n * bs];
                let (r, s) = spent(|| o.simple(f, &inp, &mut out));
                sim::ev("blocks", &[f as u64, n as u64], || format!("{at}: {f:?} of {n} blocks ({r:?}): {s} steps"));
                judge(&format!("{f:?} of {n} blocks"), &at, s, base.of(n * bs));
            }
            4 | 5 => {
                let b = draw_block_pos() as u128 & c.alg.max_ctr();
                let (_, s) = spent(|| o.set_blk(b));
                sim::fault("fault.seek.far");
                sim::ev("set", &[b as u64], || format!("{at}: set_block_pos({b:#x}): {s} steps"));
                judge(&format!("set_block_pos({b:#x})"), &at, s, allowed(base.place));
            }
            6 => {
                let (_, s) = spent(|| (o.remaining(), o.blk()));
                sim::ev("remaining", &[], || format!("{at}: remaining blocks and position: {s} steps"));
                judge("remaining_blocks and get_block_pos", &at, s, allowed(base.idle));
            }
            _ => {
                let n = du(5000);
                let inp = vec![0x33u8; n];
                let mut out = vec![0x44u8; n];
                let (r, s) = spent(|| o.partial(&inp, &mut out, chance(1, 2), false));
                sim::ev("partial", &[n as u64], || format!("{at}: one-shot of {n} bytes ({r:?}): {s} steps"));
                // which drops the core
                judge(&format!("one-shot call of {n} bytes"), &at, s, base.of(n) + allowed(base.end));
                return;
            }
        }
    }
    let (w, s) = spent(|| o.into_stream());
    judge("from_core", &name, s, allowed(base.idle));
    drop(w);
}

fn gen_cost(dr: usize, seed: [u8; 32]) -> Cost {
    on_every_cpu(|| {
        let mut k = Cost::default();
        let (mut g, n) = spent(|| Gen::new(dr, seed));
        k.make = n;
        let mut b = vec![0u8; UNIT];
        k.bulk = spent(|| g.fill(&mut b)).1;
        k.byte = spent(|| g.u32()).1.max(spent(|| g.u64()).1).max(k.bulk / 16);
        k.idle = spent(|| (g.word_pos(), g.block_pos(), g.stream(), g.seed())).1;
        k.place = spent(|| g.set_word_pos(17)).1.max(spent(|| g.set_stream(1)).1);
        let h = Gen::new(dr, seed);
        k.idle = k.idle.max(spent(|| (g.save(), g.eq(&h))).1);
        k.end = spent(|| drop(g)).1;
        k
    })
}

fn generator() {
    let dr = KINDS[du(3)];
    let seed = draw_seed();
    let base = gen_cost(dr, seed);
    let name = format!("ChaCha{}Rng", 2 * dr);
    sim::ev("generator", &[dr as u64], || format!("{name}, fresh: {base:?}"));
    let mut g = Gen::new(dr, seed);
    for _ in 0..1 + du(14) {
        sim::op();
        if chance(1, 6) {
            cpu::level(cpu::draw());
            sim::fault("fault.cpu.migrate");
        }
        let pos = g.word_pos();
        let at = format!("{name} at word {pos:#x}");
        let k = d(13);
        sim::sig(&[0x2C18, dr as u64, k, (pos % 64) as u64, zone(pos)]);
        let (what, s, most) = match k {
            0 => ("next_u32".to_string(), spent(|| g.u32()).1, base.of(4)),
            1 => ("next_u64".to_string(), spent(|| g.u64()).1, base.of(8)),
            2..=4 => {
                let n = fill_len();
                let mut b = vec![0u8; n];
                (format!("fill_bytes({n})"), spent(|| g.fill(&mut b)).1, base.of(n))
            }
            5 | 6 => {
                let p = draw_word_pos();
                sim::fault("fault.seek.far");
                (format!("set_word_pos({p:#x})"), spent(|| g.set_word_pos(p)).1, allowed(base.place + base.byte))
            }
            7 => {
                let p = draw_block_pos();
                sim::fault("fault.seek.far");
                (format!("set_block_pos({p:#x})"), spent(|| g.set_block_pos(p)).1, allowed(base.place + base.byte))
            }
            8 => {
                let p = draw_stream();
                (format!("set_stream({p:#x})"), spent(|| g.set_stream(p)).1, allowed(base.place + base.byte))
            }
            9 => {
                let mut h = Gen::new(dr, seed);
                h.set_word_pos(if chance(1, 2) { pos } else { draw_word_pos() });
                ("comparison".to_string(), spent(|| g.eq(&h)).1, allowed(base.idle))
            }
            10 => (
                "position, stream and seed".to_string(),
                spent(|| (g.word_pos(), g.block_pos(), g.stream(), g.seed())).1,
                allowed(base.idle),
            ),
            11 => {
                // a fork, and the original goes
                let (c, s) = spent(|| g.child(chance(1, 2)));
                g = c;
                ("fork".to_string(), s, allowed(base.make + base.byte) + base.of(32))
            }
            _ => {
                sim::fault("fault.crash.restore_image");
                let (mut img, s) = spent(|| g.save());
                judge("serialize_state", &at, s, allowed(base.idle));
                if chance(1, 4) {
                    img[du(49)] ^= 1 << d(8);
                    sim::fault("fault.disk.flip");
                }
                let (x, s) = spent(|| Gen::restore(dr, &img));
                g = x;
                ("deserialize_state".to_string(), s, allowed(base.make + base.place + base.byte))
            }
        };
        sim::ev("op", &[k], || format!("{at}: {what}: {s} steps"));
        judge(&what, &at, s, most);
    }
}

fn derived() {
    let salsa = chance(1, 2);
    let dr = [10, 4, 6][du(3)];
    let (mut k, mut i) = ([0u8; 32], [0u8; 16]);
    let (_, base) = spent(|| derive(salsa, dr, &k, &i));
    for _ in 0..4 {
        sim::op();
        k.copy_from_slice(&sim::bytes(32));
        i.copy_from_slice(&sim::bytes(16));
        if chance(1, 2) {
            edge_words(&mut k);
        }
        let (_, s) = spent(|| derive(salsa, dr, &k, &i));
        sim::ev("derive", &[], || format!("derivation ({dr} double rounds, salsa {salsa}): {s} steps"));
        judge("key derivation", if salsa { "hsalsa" } else { "hchacha" }, s, allowed(base));
    }
    sim::sig(&[0x3C18, salsa as u64, dr as u64]);
}

pub fn run() {
    cpu::level(cpu::draw());
    if ct::counted(|| std::hint::black_box(du(2)) + 1).1 == 0 {
        sim::probe("not_observable");
        return;
    }
    match d(8) {
        0..=2 => stream(),
        3 | 4 => core(),
        5 | 6 => generator(),
        _ => derived(),
    }
}
