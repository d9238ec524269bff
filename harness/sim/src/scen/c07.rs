//! C07: replicas of generators on several machines, brought together by
//! different histories, compared against each other all the time.

use crate::cpu;
use crate::ensure;
use crate::rngs::*;
use crate::sim::{self, chance, d, du};

struct R {
    g: Gen,
    m: GenModel,
    cpu: usize,
}

fn compare(a: &R, b: &R, i: usize, j: usize) {
    let want = a.m.same(&b.m);
    let (x, y) = sim::must("==", || (a.g.eq(&b.g), b.g.eq(&a.g)));
    let (nx, ny) = sim::must("!=", || (a.g.ne(&b.g), b.g.ne(&a.g)));
    let Some(x) = x else { return };
    sim::op();
    sim::ev("compare", &[i as u64, j as u64, x as u64], || {
        format!("{i} (stream {:#x} word {:#x}) == {j} (stream {:#x} word {:#x}): {x}", a.m.stream, a.m.pos, b.m.stream, b.m.pos)
    });
    sim::sig(&[0x77, want as u64, (a.m.pos % 64) as u64, (b.m.pos % 64) as u64, a.m.same(&b.m) as u64]);
    let at = || format!("{i}: stream {:#x} word {:#x}; {j}: stream {:#x} word {:#x}; same seed: {}", a.m.stream, a.m.pos, b.m.stream, b.m.pos, a.m.seed == b.m.seed);
    ensure!(x == want, "equality", "== says {x}, expected {want} ({})", at());
    ensure!(y == Some(x), "equality", "== is not symmetric ({})", at());
    ensure!(nx == Some(!x) && ny == Some(!x), "equality", "!= disagrees with == ({})", at());
    ensure!(a.g.eq(&a.g) == Some(true) && b.g.eq(&b.g) == Some(true), "equality", "== is not reflexive ({})", at());
}

/// A generator at exactly the point of `m`, by a drawn route.
fn reach(m: &GenModel) -> Gen {
    let dr = m.dr;
    let mut g = Gen::new(dr, m.seed);
    match d(6) {
        0 => g = Gen::restore(dr, &m.image()),
        1 => {
            // two steps: nearby, then the rest by drawing
            let back = 1 + du(150) as u128;
            g.set_stream(m.stream);
            g.set_word_pos(m.pos.wrapping_sub(back) & MASK);
            for _ in 0..back {
                g.u32();
            }
        }
        2 => {
            g.set_stream(m.stream);
            g.set_block_pos((m.pos / 16) as u64);
            let mut b = vec![0; (m.pos % 16) as usize * 4];
            g.fill(&mut b);
        }
        3 => {
            // elsewhere first, with a filled buffer
            g.set_stream(draw_stream());
            g.set_word_pos(draw_word_pos());
            g.u32();
            g.set_stream(m.stream);
            g.set_word_pos(m.pos);
        }
        4 => {
            let back = 2 * (1 + d(60)) as u128;
            g.set_stream(m.stream);
            g.set_word_pos(m.pos.wrapping_sub(back) & MASK);
            for _ in 0..back / 2 {
                g.u64();
            }
        }
        _ => {
            if m.stream != 0 || chance(1, 2) {
                g.set_stream(m.stream);
            }
            g.set_word_pos(m.pos + (d(3) as u128) * WORDS);
        }
    }
    g
}

/// A different generator that is easily mistaken for `m`.
fn near_miss(m: &GenModel) -> GenModel {
    let mut n = m.fork();
    match d(7) {
        0 => {
            let b = du(256);
            n.seed[b / 8] ^= 1 << (b % 8);
            n = GenModel::at(n.dr, n.seed, n.stream, n.pos);
        }
        1 => n = GenModel::at(n.dr, n.seed, n.stream ^ (1 << d(64)), n.pos),
        2 => n.pos ^= 1 << d(68),
        3 => n.pos = n.pos.wrapping_add(1 + d(70) as u128) & MASK,
        4 => n.pos = n.pos.wrapping_sub(1 + d(70) as u128) & MASK,
        5 => n.pos = (n.pos + 64 * (1 + d(3)) as u128) & MASK,
        _ => n.pos = n.pos.wrapping_sub(16 * (1 + d(5)) as u128) & MASK,
    }
    n
}

pub fn run() {
    let dr = KINDS[du(3)];
    let seed = draw_seed();
    let mut rs: Vec<R> = vec![];
    cpu::level(cpu::draw());
    rs.push(R { g: Gen::new(dr, seed), m: GenModel::new(dr, seed), cpu: cpu::draw() });
    let names = ["A", "B", "C", "D", "E", "F"];
    for _ in 0..4 + du(24) {
        let i = du(rs.len());
        match d(8) {
            0 => {
                // a replica joins at exactly the same point
                let m = rs[i].m.fork();
                let cp = cpu::draw();
                cpu::level(cp);
                let g = sim::must("building an equal generator", || reach(&m));
                let r = R { g, m, cpu: cp };
                sim::ev("join", &[i as u64], || format!("a replica joins at the point of {}", names[i.min(5)]));
                compare(&rs[i], &r, i, 99);
                check(&r.g, &r.m, "joining replica");
                // equal: the same for every further history
                lockstep(&mut rs[i], r);
            }
            1 => {
                let m = near_miss(&rs[i].m);
                let cp = cpu::draw();
                cpu::level(cp);
                let g = sim::must("building a generator", || reach(&m));
                let r = R { g, m, cpu: cp };
                compare(&rs[i], &r, i, 98);
                if rs.len() < 5 && chance(1, 2) {
                    rs.push(r);
                }
            }
            2 => {
                // a member catches up with another one by its own route
                let j = du(rs.len());
                let m = rs[j].m.fork();
                cpu::level(rs[i].cpu);
                if rs[i].m.seed == m.seed {
                    let r = &mut rs[i];
                    sim::must("catching up", || {
                        if r.m.stream != m.stream {
                            r.g.set_stream(m.stream);
                        }
                        r.g.set_word_pos(m.pos);
                    });
                    r.m = m;
                }
            }
            3 => {
                sim::fault("fault.crash.generator");
                cpu::level(cpu::draw());
                let img = rs[i].g.save();
                rs[i].g = Gen::restore(dr, &img);
            }
            4 => {
                sim::fault("fault.cpu.migrate");
                rs[i].cpu = cpu::draw();
            }
            _ => {
                cpu::level(rs[i].cpu);
                let r = &mut rs[i];
                step(&mut r.g, &mut r.m, names[i.min(5)]);
            }
        }
        let (a, b) = (du(rs.len()), du(rs.len()));
        if a != b {
            compare(&rs[a], &rs[b], a, b);
        }
        // comparing changed nothing
        if chance(1, 4) {
            let r = &mut rs[a];
            cpu::level(r.cpu);
            check(&r.g, &r.m, "compared generator");
            let n = fill_len();
            let mut x = vec![0; n];
            sim::must("fill_bytes", || r.g.fill(&mut x));
            let w = r.m.take(n);
            ensure!(x == w, "word", "a compared generator continues wrongly{}", sim::diff(&x, &w));
        }
    }
}

fn lockstep(a: &mut R, mut b: R) {
    for _ in 0..1 + du(6) {
        let before = a.m.fork();
        cpu::level(a.cpu);
        step(&mut a.g, &mut a.m, "first of an equal pair");
        // the same operation on the other: its model goes the same way, so
        // drive it to the same point by equivalent means
        cpu::level(b.cpu);
        if a.m.stream == before.stream && a.m.seed == before.seed {
            let adv = a.m.pos.wrapping_sub(before.pos) & MASK;
            if adv <= 400 {
                let mut bytes = vec![0; adv as usize * 4];
                let want = before.fork().take(bytes.len());
                sim::must("fill_bytes", || b.g.fill(&mut bytes));
                b.m.pos = a.m.pos;
                ensure!(bytes == want, "word", "equal generators diverged after word {:#x}{}", before.pos, sim::diff(&bytes, &want));
            } else {
                sim::must("set_word_pos", || b.g.set_word_pos(a.m.pos));
                b.m.pos = a.m.pos;
            }
        } else {
            let s = a.m.stream;
            sim::must("set_stream", || b.g.set_stream(s));
            b.m.set_stream(s);
            if a.m.pos != 0 {
                b.g.set_word_pos(a.m.pos);
                b.m.pos = a.m.pos;
            }
        }
        compare(a, &b, 0, 97);
    }
}
