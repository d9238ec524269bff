//! C01: an encrypted in-order byte stream over a TCP-like transport between
//! two crashing endpoints on different machines.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::model::{Alg, Model, hchacha, hsalsa};
use crate::sim::{self, Disk, Net, Queue, chance, d, du};
use crate::{ensure, fail};

enum Ev {
    Produce,
    Seg { at: usize, data: Vec<u8> },
    Ack { upto: usize },
    Consume,
    Timer,
    Crash { receiver: bool },
    Heal,
}

struct End {
    obj: Box<dyn Obj>,
    m: Model,
    pos: u128,
    cpu: usize,
    disk: Disk,
    name: &'static str,
}
impl End {
    fn new(c: &Creds, base: u128, name: &'static str) -> End {
        let cpu = cpu::draw();
        cpu::level(cpu);
        let mut obj = build(c);
        forward(&mut *obj, c, base, name);
        let mut disk = Disk::default();
        disk.write(&0u64.to_le_bytes());
        disk.sync();
        End { obj, m: c.model(), pos: base, cpu, disk, name }
    }
    fn saved(&self) -> usize {
        u64::from_le_bytes(self.disk.read().try_into().unwrap()) as usize
    }
    fn checkpoint(&mut self, off: usize) {
        self.disk.write(&(off as u64).to_le_bytes());
        // the sync may still be in flight when the power goes
        if chance(3, 4) {
            self.disk.sync();
        }
    }
    fn crash(&mut self, c: &Creds, base: u128) -> usize {
        self.disk.crash();
        let off = self.saved();
        // the replacement machine may be another model
        self.cpu = cpu::draw();
        cpu::level(self.cpu);
        self.obj = build(c);
        forward(&mut *self.obj, c, base + off as u128, self.name);
        self.pos = base + off as u128;
        off
    }
}

/// Any way to get at the cipher, including deriving the extended-nonce
/// subkey by hand.
fn build(c: &Creds) -> Box<dyn Obj> {
    let base = match c.alg {
        Alg::XChaCha8 => Some((Alg::ChaCha8, false, 4)),
        Alg::XChaCha12 => Some((Alg::ChaCha12, false, 6)),
        Alg::XChaCha20 => Some((Alg::ChaCha20, false, 10)),
        Alg::XSalsa8 => Some((Alg::Salsa8, true, 4)),
        Alg::XSalsa12 => Some((Alg::Salsa12, true, 6)),
        Alg::XSalsa20 => Some((Alg::Salsa20, true, 10)),
        _ => None,
    };
    let derived = |salsa: bool, dr: usize, key: &[u8; 32], inp: &[u8; 16]| {
        let sub = derive(salsa, dr, key, inp);
        let want = if salsa { hsalsa(dr, key, inp) } else { hchacha(dr, key, inp) };
        ensure!(sub == want, "keystream", "{} key derivation with {dr} double rounds differs from the published function", c.name());
        sub
    };
    if c.alg.odd() {
        // other round counts of the derivation functions
        let (key, inp) = (sim::expand(sim::d64(), 32), sim::expand(sim::d64(), 16));
        let salsa = cfg!(feature = "others") && chance(1, 2);
        derived(salsa, [1, 3, 5, 7][du(4)], key[..].try_into().unwrap(), inp[..].try_into().unwrap());
    }
    if let Some((alg, salsa, dr)) = base {
        if chance(1, 3) {
            let key: [u8; 32] = c.key[..].try_into().unwrap();
            let inp: [u8; 16] = c.iv[..16].try_into().unwrap();
            let sub = derived(salsa, dr, &key, &inp);
            let mut iv = if salsa { vec![] } else { vec![0; 4] };
            iv.extend_from_slice(&c.iv[16..]);
            return make(alg, &sub, &iv, d(12));
        }
    }
    c.make()
}

/// Bulk transfer: very long requests, past every 8- and 16-bit count of
/// blocks, batches or bytes.
pub fn bulk() {
    let c = Creds::draw(draw_alg());
    let total = if d(12) == 11 { 1_200_000 + du(3_300_000) } else { 9_000 + du(90_000) };
    let base = if c.alg.seekable() && chance(1, 2) { draw_pos_room(c.alg, total as u128) } else { 0 };
    sim::ev("bulk", &[c.id(), base as u64, total as u64], || format!("{} bulk of {total} bytes from {base:#x}", c.name()));
    sim::probe("stream.bulk");
    let mut end = End::new(&c, base, "bulk sender");
    let plain = sim::expand(sim::d64(), total);
    let mut at = 0;
    while at < total {
        if at > 0 {
            match d(3) {
                0 => {
                    cpu::level(cpu::draw());
                    sim::fault("fault.cpu.migrate");
                }
                1 => {
                    // restart from the bytes it knows to be out
                    end.disk.write(&(at as u64).to_le_bytes());
                    end.disk.sync();
                    sim::fault("fault.crash.sender");
                    end.crash(&c, base);
                }
                _ => {}
            }
        }
        let n = if chance(1, 3) { total - at } else { (1 + du(total)).min(total - at) };
        let form = draw_form(n, c.alg, end.pos);
        process(&mut *end.obj, &c, &mut end.m, &mut end.pos, form, &plain[at..at + n], "bulk sender");
        at += n;
    }
}

pub fn run() {
    if d(250) == 249 {
        return bulk();
    }
    let c = Creds::draw(draw_alg());
    let big = chance(1, if c.alg == Alg::Hc256 { 3 } else { 12 });
    let total = if big { 8000 + du(26_000) } else { 150 + du(5000) };
    let base = if c.alg.seekable() && chance(1, 2) { draw_pos_room(c.alg, total as u128) } else { 0 };
    let plain = sim::expand(sim::d64(), total);
    let crashes = chance(2, 3);
    let mut net = Net::draw();
    let mut q: Queue<Ev> = Queue::new();
    sim::ev("open", &[c.id(), base as u64, total as u64], || {
        format!("{} stream of {total} bytes from {base:#x}, key length {}", c.name(), c.key.len())
    });

    let mut tx = End::new(&c, base, "sender");
    let mut rx = End::new(&c, base, "receiver");
    // ciphertext kept for retransmission
    let mut ct: Vec<u8> = vec![];
    let mut acked = 0usize;
    // receiver: reassembly and delivered plaintext
    let mut segs: std::collections::BTreeMap<usize, Vec<u8>> = Default::default();
    let mut recv: Vec<u8> = vec![];
    let mut done = 0usize;
    let mut out: Vec<u8> = vec![];

    q.after(0, Ev::Produce);
    q.after(3000, Ev::Timer);
    if crashes {
        for _ in 0..1 + du(3) {
            let receiver = chance(1, 2);
            q.after(d(6_000), Ev::Crash { receiver });
        }
    }
    if chance(1, 3) {
        let from = d(5_000);
        q.after(from, Ev::Heal);
    }
    let mut calm_at = None;
    let mut events = 0;
    while done < total {
        let Some(e) = q.pop() else { panic!("event queue ran dry") };
        events += 1;
        if events == 220 {
            // faults stop: from here on everything must arrive
            net = Net::calm();
            calm_at = Some(events);
        }
        ensure!(events < 4000, "progress", "stream not delivered within the step bound after faults stopped ({calm_at:?})");
        match e {
            Ev::Produce => {
                cpu::level(tx.cpu);
                let at = (tx.pos - base) as usize;
                let n = cut(total - at, big);
                if n == 0 && chance(1, 2) {
                    // an idle sender
                } else {
                    let form = draw_form(n, c.alg, tx.pos);
                    let (end, p) = (&mut tx, &plain[at..at + n]);
                    let data = process(&mut *end.obj, &c, &mut end.m, &mut end.pos, form, p, "sender");
                    for (i, &b) in data.iter().enumerate() {
                        match ct.get(at + i) {
                            Some(&o) => ensure!(o == b, "keystream", "restarted sender produced other bytes at offset {}", at + i),
                            None => ct.push(b),
                        }
                    }
                    send(&mut q, &mut net, at, &data);
                    if chance(1, 3) {
                        tx.checkpoint(at + n);
                    }
                }
                if ((tx.pos - base) as usize) < total {
                    q.after(50 + d(400), Ev::Produce);
                }
            }
            Ev::Seg { at, data } => {
                let upto = recv.len();
                if at + data.len() > upto && !segs.contains_key(&at) {
                    segs.insert(at, data);
                }
                while let Some((&a, _)) = segs.iter().next() {
                    if a > recv.len() {
                        break;
                    }
                    let s = segs.remove(&a).unwrap();
                    let skip = recv.len() - a;
                    if skip < s.len() {
                        recv.extend_from_slice(&s[skip..]);
                    }
                }
                if recv.len() > upto {
                    q.after(d(100), Ev::Consume);
                }
                for t in net.route() {
                    q.after(t, Ev::Ack { upto: recv.len() });
                }
            }
            Ev::Ack { upto } => acked = acked.max(upto.min(total)),
            Ev::Consume => {
                cpu::level(rx.cpu);
                loop {
                    let at = (rx.pos - base) as usize;
                    let avail = recv.len().saturating_sub(at);
                    let n = cut(avail, big);
                    let form = draw_form(n, c.alg, rx.pos);
                    let (end, s) = (&mut rx, &recv[at..at + n]);
                    let got = process(&mut *end.obj, &c, &mut end.m, &mut end.pos, form, s, "receiver");
                    ensure!(got == plain[at..at + n], "keystream", "receiver: decryption did not return the plaintext at {at}..{}", at + n);
                    out.truncate(at);
                    out.extend_from_slice(&got);
                    done = done.max(at + n);
                    if chance(1, 4) {
                        rx.checkpoint(at + n);
                    }
                    if avail == n || n == 0 || chance(1, 6) {
                        if avail > n {
                            q.after(1 + d(200), Ev::Consume);
                        }
                        break;
                    }
                }
            }
            Ev::Timer => {
                // retransmit what is not acknowledged
                let have = ct.len();
                if acked < have {
                    sim::probe("net.retransmit");
                    let n = (have - acked).min(1 + sim::len(6000));
                    let data = ct[acked..acked + n].to_vec();
                    send(&mut q, &mut net, acked, &data);
                }
                q.after(2000 + d(2000), Ev::Timer);
            }
            Ev::Crash { receiver } => {
                if calm_at.is_some() {
                    continue;
                }
                sim::fault(if receiver { "fault.crash.receiver" } else { "fault.crash.sender" });
                if receiver {
                    let off = rx.crash(&c, base);
                    sim::ev("crash", &[1, off as u64], || format!("receiver restarts at offset {off}"));
                    // its memory is gone; it will decrypt again from there
                    q.after(100, Ev::Consume);
                } else {
                    let off = tx.crash(&c, base);
                    sim::ev("crash", &[0, off as u64], || format!("sender restarts at offset {off}"));
                    q.after(100, Ev::Produce);
                }
            }
            Ev::Heal => net.partition(1000 + d(20_000)),
        }
    }
    if out.len() < total {
        // the receiver crashed after it had everything: fine, but it has to
        // be able to finish again
        sim::probe("end.receiver_behind");
    }
    if c.alg.seekable() {
        for e in [&tx, &rx] {
            match e.obj.pos(Num::U128, false) {
                Some(Ok(p)) => ensure!(p == e.pos, "position", "{} reports {p:#x} at {:#x}", e.name, e.pos),
                r => fail!("position", "{}: {r:?}", e.name),
            }
        }
    }
}

fn send(q: &mut Queue<Ev>, net: &mut Net, at: usize, data: &[u8]) {
    if data.is_empty() {
        return;
    }
    let mtu = 64 + du(1400);
    for (i, s) in data.chunks(mtu).enumerate() {
        for t in net.route() {
            q.after(t, Ev::Seg { at: at + i * mtu, data: s.to_vec() });
        }
    }
}
