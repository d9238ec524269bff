//! C03: the end of the keystream, approached by clients that crash, retry and
//! are refused.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::model::Alg;
use crate::sim::{self, chance, d, du};
use crate::{ensure, fail};

pub fn run() {
    match d(8) {
        0 => wrong_lengths(),
        1 => endless(),
        2 | 3 => core_end(),
        _ => client(),
    }
}

/// Near the end: `left` bytes before the start of the last block.
fn near_end(alg: Alg) -> u128 {
    let end = alg.max_ctr() * 64;
    let left = match d(4) {
        0 => d(130),
        1 => d(700),
        2 => 64 * d(40),
        _ => d(4000),
    };
    end - left as u128
}

fn client() {
    let c = Creds::draw(draw_alg_where(|a| a.seekable()));
    cpu::level(cpu::draw());
    let mut a = Actor::new(c.clone(), "client");
    sim::ev("open", &[c.id()], || format!("{} near its end", c.name()));
    // granted since the last explicit seek: must never overlap itself
    let mut spans: Vec<(u128, u128)> = vec![];
    let p = near_end(c.alg);
    a.seek(Num::U128, p, false);
    let mix = Mix { read: 3, seek: 0, jump: 0, pos: 2, refuse: 2, check: 3, edge: 6, cap: if chance(1, 2) { 300 } else { 2500 } };
    for _ in 0..4 + du(26) {
        if chance(1, 7) {
            cpu::level(cpu::draw());
        }
        let before = a.pos;
        match d(14) {
            0 => {
                let p = near_end(c.alg);
                a.seek(Num::U128, p, chance(1, 4));
                spans.clear();
            }
            1 => {
                // onto and past the last block
                let p = c.alg.max_ctr() * 64 + d(150) as u128;
                if a.seek(Num::U128, p, chance(1, 3)) {
                    spans.clear();
                }
            }
            2 => {
                let num = NUMS[du(5)];
                let p = match d(3) {
                    0 => num.max() - d(70) as u128,
                    1 => c.alg.max_ctr() * 64 + d(200) as u128,
                    _ => ((sim::d64() as u128) << 64 | sim::d64() as u128) >> d(70),
                };
                if p <= num.max() && a.seek(num, p, chance(1, 4)) {
                    spans.clear();
                }
            }
            3 => {
                // crash; the durable position is where it was
                sim::fault("fault.crash.client");
                let at = a.pos;
                a.restart(at);
            }
            4 => huge_request(&mut a),
            _ => {
                a.act(&mix);
                let (s, e) = (before, a.pos);
                ensure!(e >= s, "end", "{}: position went back from {s:#x} to {e:#x}", c.name());
                ensure!(e <= c.alg.max_ctr() * 64, "end", "{}: went into the last block", c.name());
                if e > s {
                    for &(x, y) in &spans {
                        ensure!(e <= x || s >= y, "end", "{}: keystream {s:#x}..{e:#x} handed out twice", c.name());
                    }
                    spans.push((s, e));
                }
            }
        }
        // whatever happened, the position is exact
        a.query(Num::U128, false);
    }
    // what is left can be used to the last byte, and not one more
    let ctr = a.pos.div_ceil(64);
    let left = (c.alg.max_ctr() - ctr) * 64 + (ctr * 64 - a.pos);
    if left <= 6000 {
        sim::probe("end.drained");
        let left = left as usize;
        ensure!(a.obj.check(left), "end", "{}: the last {left} bytes are refused", c.name());
        a.refuse_past_end(left + 1);
        let f = draw_form(left, c.alg, a.pos);
        a.read(left, f);
        a.refuse_past_end(1);
        a.read(0, Form::TryInPlace);
        a.query(Num::U128, false);
    }
}

/// Requests far too large for any memory are still answered by the check.
fn huge_request(a: &mut Actor) {
    let n = match d(3) {
        0 => usize::MAX,
        1 => usize::MAX - du(1000),
        _ => 1usize << (38 + du(26)),
    };
    let r = a.obj.check(n);
    let g = granted(a.c.alg, a.pos, n);
    sim::ev("huge", &[n as u64, r as u64], || format!("check_remaining({n:#x}) = {r}"));
    ensure!(r == g, "end", "{}: check_remaining({n:#x}) at {:#x} says {r}", a.c.name(), a.pos);
}

/// Consuming one-shot calls and block counts on bare cores.
fn core_end() {
    let c = Creds::draw(draw_alg_where(|a| a != Alg::Rc4));
    cpu::level(cpu::draw());
    let mk = || {
        let ctor = d(12);
        make_core(c.alg, &c.key, &c.iv, ctor)
    };
    let mut m = c.model();
    for _ in 0..1 + du(4) {
        let mut core = mk();
        let mut blk = 0u128;
        if c.alg.seekable() && chance(5, 6) {
            blk = c.alg.max_ctr() - if chance(1, 2) { d(3) } else { d(40) } as u128;
            ensure!(core.set_blk(blk), "refused", "{}: block {blk:#x} refused", c.name());
            ensure!(core.blk() == Some(blk), "position", "{}: block position {:?} after setting {blk:#x}", c.name(), core.blk());
        }
        let rem = core.remaining();
        let want = c.alg.seekable().then(|| usize::try_from(c.alg.max_ctr() - blk).unwrap_or(usize::MAX));
        ensure!(rem == want, "end", "{}: remaining_blocks at {blk:#x} is {rem:?}, expected {want:?}", c.name());
        let bs = c.alg.block_size();
        let avail = c.alg.seekable().then(|| c.alg.max_ctr() - blk);
        // around the limit
        let n = match avail {
            Some(a) if a < 80 && chance(3, 4) => (bs * a as usize + bs + du(2 * bs + 4)).saturating_sub(bs + 2),
            _ => sim::len(2500),
        };
        let allow = avail.is_none_or(|a| (n / bs) as u128 <= a);
        let separate = chance(1, 2);
        let panicking = chance(1, 3);
        let data = sim::expand(sim::d64(), n);
        let mut out = if separate { vec![0xA5; n] } else { data.clone() };
        let orig = out.clone();
        let inp = data.clone();
        let r = core.partial(&inp, &mut out, separate, panicking);
        let what = format!("{}: one-shot of {n} bytes at block {blk:#x}", c.name());
        sim::op();
        sim::ev("partial", &[n as u64, allow as u64], || what.clone());
        sim::sig(&[0xC0, c.alg as u64, allow as u64, bucket(n), separate as u64, (n % bs) as u64]);
        match r {
            Res::Ok => {
                ensure!(allow, "end", "{what}: granted past the end");
                let ks = m.ks_vec(blk * bs as u128, n);
                let want = xor(&data, &ks);
                ensure!(out == want, "keystream", "{what}: wrong bytes{}", sim::diff(&out, &want));
            }
            Res::Err(e) => {
                ensure!(!allow, "refused", "{what}: refused ({e})");
                ensure!(out == orig, "atomicity", "{what}: refused but changed the data");
                sim::fault("fault.refused.one_shot");
            }
            Res::Panic(e) => {
                ensure!(!allow && panicking, "panic", "{what}: panicked ({e})");
                ensure!(out == orig, "atomicity", "{what}: refused but changed the data");
                sim::fault("fault.refused.one_shot");
            }
            Res::Injected => panic!("stray"),
        }
        ensure!(inp == data, "containment", "{what}: changed its input");
    }
}

/// The ciphers without an end are never refused.
fn endless() {
    let c = Creds::draw(draw_alg_where(|a| !a.seekable()));
    let mut a = Actor::new(c, "client");
    for _ in 0..2 + du(10) {
        match d(4) {
            0 => huge_request(&mut a),
            1 => a.refuse_lengths(),
            _ => {
                let n = sim::len(3000);
                let f = draw_form(n, a.c.alg, a.pos);
                a.read(n, f);
            }
        }
    }
}

/// Wrong key and IV lengths: corrupted configuration is refused.
fn wrong_lengths() {
    for _ in 0..6 {
        let alg = draw_alg_where(|a| !a.seed_only());
        let kl = match d(5) {
            0 => du(70),
            1 => alg.key_len() + 1,
            2 => alg.key_len() - 1,
            3 => [0, 1, 8, 16, 24, 32, 40, 64, 255, 256, 257, 258, 300, 512, 1000][du(15)],
            _ => alg.key_len(),
        };
        let il = match d(5) {
            0 => du(40),
            1 => alg.iv_len() + 1,
            2 => alg.iv_len().saturating_sub(1),
            3 => [0, 4, 8, 12, 16, 24, 32][du(7)],
            _ => alg.iv_len(),
        };
        let key = sim::expand(sim::d64(), kl);
        let iv = sim::expand(sim::d64(), il);
        let key_ok = if alg == Alg::Rc4 { (1..=256).contains(&kl) } else { kl == alg.key_len() };
        let takes_iv = !matches!(alg, Alg::Rc4 | Alg::RabbitKeyOnly);
        let ok = key_ok && (!takes_iv || il == alg.iv_len());
        let r = sim::must("constructor", || try_make(alg, &key, &iv));
        sim::op();
        sim::ev("construct", &[kl as u64, il as u64, r.is_ok() as u64], || format!("{} with key {kl}, IV {il}: {r:?}", alg.name()));
        sim::sig(&[0xC7, alg as u64, kl.min(300) as u64, il as u64]);
        match (&r, ok) {
            (Ok(()), false) => fail!("lengths", "{}: key of {kl} and IV of {il} bytes accepted", alg.name()),
            (Err(e), true) => fail!("lengths", "{}: key of {kl} and IV of {il} bytes refused ({e})", alg.name()),
            (Err(_), false) => sim::fault("fault.config.wrong_length"),
            _ => {}
        }
    }
}
