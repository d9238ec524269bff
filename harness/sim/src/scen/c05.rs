//! C05: generator services on crashing, migrating machines; clients' draws
//! arrive in any order, and each service's position is checkpointed to disk.

use crate::cpu;
use crate::ensure;
use crate::rngs::*;
use crate::sim::{self, Disk, Net, Queue, chance, d, du};

enum Ev {
    Serve(usize),
    Crash(usize),
    Migrate(usize),
    /// a client re-reads a range it was given a position for
    Verify(usize),
    /// a client drives the bare generator core
    Core(usize),
}

struct Node {
    g: Gen,
    m: GenModel,
    cpu: usize,
    disk: Disk,
    /// (stream, word position, bytes) handed out earlier
    given: Vec<(u64, u128, Vec<u8>)>,
}
fn record(stream: u64, pos: u128) -> Vec<u8> {
    [&stream.to_le_bytes()[..], &pos.to_le_bytes()[..]].concat()
}

pub fn run() {
    let mut nodes: Vec<Node> = (0..1 + du(3))
        .map(|_| {
            let dr = KINDS[du(3)];
            let seed = draw_seed();
            let cp = cpu::draw();
            cpu::level(cp);
            let mut disk = Disk::default();
            disk.write(&record(0, 0));
            disk.sync();
            Node { g: Gen::new(dr, seed), m: GenModel::new(dr, seed), cpu: cp, disk, given: vec![] }
        })
        .collect();
    let n = nodes.len();
    let mut q: Queue<Ev> = Queue::new();
    let mut net = Net::draw();
    for _ in 0..8 + du(50) {
        // a lost request is never served, a duplicate is served twice
        for t in net.route() {
            let k = du(n);
            q.after(t + d(4000), Ev::Serve(k));
        }
    }
    for _ in 0..du(4) {
        let k = du(n);
        q.after(d(4000), Ev::Crash(k));
    }
    for _ in 0..du(4) {
        let k = du(n);
        q.after(d(4000), Ev::Migrate(k));
    }
    for _ in 0..du(6) {
        let k = du(n);
        q.after(1000 + d(4000), Ev::Verify(k));
    }
    for _ in 0..du(4) {
        let k = du(n);
        q.after(d(4000), Ev::Core(k));
    }
    let always_check = chance(1, 2);
    sim::ev("open", &[n as u64], || format!("{n} generators"));
    while let Some(e) = q.pop() {
        match e {
            Ev::Serve(k) => {
                let nd = &mut nodes[k];
                cpu::level(nd.cpu);
                let who = format!("generator {k} (ChaCha{})", 2 * nd.m.dr);
                if chance(1, 8) {
                    // hand out bytes the client can ask for again
                    let len = fill_len();
                    let (s, p) = (nd.m.stream, nd.m.pos);
                    let mut b = vec![0; len];
                    sim::must("fill_bytes", || nd.g.fill(&mut b));
                    let want = nd.m.take(len);
                    ensure!(b == want, "word", "{who}: fill_bytes({len}) at word {p:#x} differs from the stream{}", sim::diff(&b, &want));
                    nd.given.push((s, p, b));
                } else {
                    step(&mut nd.g, &mut nd.m, &who);
                }
                if always_check || chance(1, 4) {
                    check(&nd.g, &nd.m, &who);
                }
                if chance(1, 4) {
                    let pos = sim::must("get_word_pos", || nd.g.word_pos());
                    let st = sim::must("get_stream", || nd.g.stream());
                    nd.disk.write(&record(st, pos));
                    if chance(3, 4) {
                        nd.disk.sync();
                    }
                }
            }
            Ev::Crash(k) => {
                let nd = &mut nodes[k];
                sim::fault("fault.crash.generator");
                nd.cpu = cpu::draw();
                cpu::level(nd.cpu);
                nd.disk.crash();
                let r = nd.disk.read();
                let st = u64::from_le_bytes(r[..8].try_into().unwrap());
                let pos = u128::from_le_bytes(r[8..].try_into().unwrap());
                sim::ev("crash", &[k as u64, st, pos as u64], || format!("generator {k} restarts at stream {st:#x} word {pos:#x}"));
                let seed = nd.m.seed;
                nd.g = Gen::new(nd.m.dr, seed);
                nd.m = GenModel::new(nd.m.dr, seed);
                if st != 0 || chance(1, 2) {
                    sim::must("set_stream", || nd.g.set_stream(st));
                    nd.m.set_stream(st);
                }
                if pos != 0 || chance(1, 2) {
                    if pos % 16 == 0 && chance(1, 2) {
                        sim::must("set_block_pos", || nd.g.set_block_pos((pos / 16) as u64));
                    } else {
                        sim::must("set_word_pos", || nd.g.set_word_pos(pos));
                    }
                    nd.m.pos = pos & MASK;
                }
                check(&nd.g, &nd.m, "restarted generator");
            }
            Ev::Migrate(k) => {
                sim::fault("fault.cpu.migrate");
                nodes[k].cpu = cpu::draw();
            }
            Ev::Core(k) => {
                let nd = &nodes[k];
                cpu::level(nd.cpu);
                let (dr, seed, wide, n) = (nd.m.dr, nd.m.seed, chance(1, 2), 1 + d(3));
                let (start, plain) = draw_core_pos(wide, n);
                let who = format!("generator core {k} (ChaCha{}, {}-bit counter)", 2 * dr, if wide { 64 } else { 32 });
                let mut g = GCore::new(dr, wide, seed);
                let mut m = GenModel::at(dr, seed, 0, start as u128 * 16);
                ensure!(g.blk() == 0, "position", "{who}: starts at block {:#x}", g.blk());
                if start != 0 || chance(1, 2) {
                    g.set_blk(start);
                }
                for i in 0..n {
                    sim::op();
                    let b = g.generate();
                    let want = m.take(256);
                    let at = start.wrapping_add(4 * i);
                    // past its own counter the stream of a 32-bit core is not specified
                    ensure!(!plain || b == want, "word", "{who}: batch at block {at:#x} differs from the stream{}", sim::diff(&b, &want));
                    let mut next = at.wrapping_add(4);
                    if !wide {
                        next &= 0xffff_ffff;
                    }
                    ensure!(g.blk() == next, "position", "{who}: at block {:#x} after the batch at {at:#x}", g.blk());
                    if chance(1, 4) {
                        cpu::level(cpu::draw());
                    }
                }
                sim::ev("core", &[k as u64, start, n, wide as u64], || format!("{who}: {n} batches from block {start:#x}"));
            }
            Ev::Verify(k) => {
                let nd = &mut nodes[k];
                cpu::level(nd.cpu);
                if nd.given.is_empty() {
                    continue;
                }
                let (s, p, b) = nd.given[du(nd.given.len())].clone();
                // back to that place, then return
                let (s0, p0) = (nd.m.stream, nd.m.pos);
                sim::must("set_stream", || nd.g.set_stream(s));
                sim::must("set_word_pos", || nd.g.set_word_pos(p));
                let mut again = vec![0; b.len()];
                sim::must("fill_bytes", || nd.g.fill(&mut again));
                ensure!(again == b, "word", "generator {k}: re-reading stream {s:#x} word {p:#x} gave other bytes{}", sim::diff(&again, &b));
                sim::must("set_stream", || nd.g.set_stream(s0));
                sim::must("set_word_pos", || nd.g.set_word_pos(p0));
                check(&nd.g, &nd.m, "generator after re-reading");
                sim::ev("verify", &[s, p as u64], || format!("generator {k}: re-read stream {s:#x} word {p:#x}"));
            }
        }
    }
    for nd in &mut nodes {
        cpu::level(nd.cpu);
        check(&nd.g, &nd.m, "generator at the end");
        for _ in 0..du(6) {
            step(&mut nd.g, &mut nd.m, "generator at the end");
        }
    }
}
