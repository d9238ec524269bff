//! C02: an encrypted archive on one machine, random-access readers on others,
//! served with datagrams that arrive late, twice, out of order or never.

use crate::common::*;
use crate::cpu;
use crate::ensure;
use crate::sim::{self, Disk, Net, Queue, chance, du};

enum Ev {
    /// the server encrypts one record and sends it
    Serve,
    Rec { to: usize, at: u128, plain: u64, data: Vec<u8> },
    /// a local action of a node
    Act(usize),
    Crash(usize),
    Partition,
}

struct Node {
    a: Actor,
    cpu: usize,
    disk: Disk,
}
impl Node {
    fn save(&mut self) {
        self.disk.write(&self.a.pos.to_le_bytes());
        if chance(3, 4) {
            self.disk.sync();
        }
    }
}

pub fn run() {
    let c = Creds::draw(draw_alg_where(|a| a.seekable()));
    let mut nodes: Vec<Node> = vec![];
    for i in 0..2 + du(2) {
        let cp = cpu::draw();
        cpu::level(cp);
        let mut disk = Disk::default();
        disk.write(&0u128.to_le_bytes());
        disk.sync();
        nodes.push(Node { a: Actor::new(c.clone(), if i == 0 { "server" } else { ["reader1", "reader2"][i - 1] }), cpu: cp, disk });
    }
    let n = nodes.len();
    let mut net = Net::draw();
    let mut q: Queue<Ev> = Queue::new();
    for _ in 0..2 + du(10) {
        q.after(sim::d(4000), Ev::Serve);
    }
    for _ in 0..6 + du(40) {
        let k = du(n);
        q.after(sim::d(8000), Ev::Act(k));
    }
    if chance(2, 3) {
        for _ in 0..1 + du(3) {
            let k = du(n);
            q.after(sim::d(8000), Ev::Crash(k));
        }
    }
    if chance(1, 4) {
        q.after(sim::d(3000), Ev::Partition);
    }
    sim::ev("open", &[c.id()], || format!("{} archive, {n} nodes", c.name()));
    let mut mix = RANDOM_ACCESS;
    if chance(1, 2) {
        mix.jump = 10;
        mix.cap = 500;
    }
    // hot places the nodes keep coming back to
    let spots: Vec<u128> = (0..3).map(|_| draw_pos_room(c.alg, 3000)).collect();
    while let Some(e) = q.pop() {
        match e {
            Ev::Serve => {
                cpu::level(nodes[0].cpu);
                let s = &mut nodes[0].a;
                let at = (sim::pick(&spots) + du(300) as u128).min(c.alg.max_ctr() * 64 - 4096);
                let len = sim::len(1400);
                let plain = sim::d64();
                let data = sim::expand(plain, len);
                s.seek(crate::ciphers::Num::U128, at, false);
                let f = draw_form(len, c.alg, at);
                let ct = s.read_data(&data, f);
                let to = 1 + du(n - 1);
                for t in net.route() {
                    q.after(t, Ev::Rec { to, at, plain, data: ct.clone() });
                }
            }
            Ev::Rec { to, at, plain, data } => {
                cpu::level(nodes[to].cpu);
                let r = &mut nodes[to].a;
                if chance(1, 6) {
                    r.act(&mix);
                }
                if r.pos != at || chance(1, 2) {
                    r.seek(crate::ciphers::Num::U128, at, false);
                }
                let want = sim::expand(plain, data.len());
                // a record may be decrypted in pieces, with looks in between
                let mut off = 0;
                while off < data.len() {
                    let k = (data.len() - off).min(1 + sim::len(1400));
                    let f = draw_form(k, c.alg, r.pos);
                    let got = r.read_data(&data[off..off + k], f);
                    ensure!(got == want[off..off + k], "keystream", "record at {at:#x} did not decrypt");
                    off += k;
                    if chance(1, 4) {
                        r.query(crate::ciphers::Num::U128, false);
                    }
                }
                if chance(1, 3) {
                    nodes[to].save();
                }
            }
            Ev::Act(k) => {
                if chance(1, 8) {
                    nodes[k].cpu = cpu::draw();
                    sim::fault("fault.cpu.migrate");
                }
                cpu::level(nodes[k].cpu);
                nodes[k].a.act(&mix);
                if chance(1, 4) {
                    nodes[k].save();
                }
            }
            Ev::Crash(k) => {
                sim::fault("fault.crash.node");
                nodes[k].cpu = cpu::draw();
                cpu::level(nodes[k].cpu);
                nodes[k].disk.crash();
                let at = u128::from_le_bytes(nodes[k].disk.read().try_into().unwrap());
                sim::ev("crash", &[k as u64, at as u64], || format!("node {k} restarts at {at:#x}"));
                nodes[k].a.restart(at);
            }
            Ev::Partition => net.partition(sim::d(4000)),
        }
    }
    for nd in &mut nodes {
        cpu::level(nd.cpu);
        nd.a.query(crate::ciphers::Num::U128, false);
        let len = sim::len(300);
        if granted(c.alg, nd.a.pos, len) {
            let f = draw_form(len, c.alg, nd.a.pos);
            nd.a.read(len, f);
        }
    }
}
