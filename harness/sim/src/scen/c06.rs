//! C06: generators checkpoint their 49-byte state to a faulty disk, crash at
//! arbitrary points and are restored from whatever the disk gives back.

use crate::cpu;
use crate::ensure;
use crate::rngs::*;
use crate::sim::{self, chance, d, du};

/// A disk that damages images.
struct BadDisk {
    /// everything ever written, oldest first
    log: Vec<[u8; 49]>,
}
impl BadDisk {
    /// What a read returns after a crash, and whether it is intact and newest.
    fn read(&self) -> ([u8; 49], bool) {
        let last = *self.log.last().unwrap();
        let prev = if self.log.len() > 1 { self.log[self.log.len() - 2] } else { [0; 49] };
        match d(10) {
            0 => {
                sim::fault("fault.disk.torn_write");
                let cut = du(50);
                let mut v = prev;
                v[..cut].copy_from_slice(&last[..cut]);
                (v, v == last)
            }
            1 => {
                sim::fault("fault.disk.torn_write_tail");
                let cut = du(50);
                let mut v = prev;
                v[cut..].copy_from_slice(&last[cut..]);
                (v, v == last)
            }
            2 => {
                sim::fault("fault.disk.bit_flip");
                let mut v = last;
                for _ in 0..1 + du(3) {
                    // the tail (position) matters most
                    let bit = if chance(1, 2) { 320 + du(72) } else { du(392) };
                    v[bit / 8] ^= 1 << (bit % 8);
                }
                (v, v == last)
            }
            3 => {
                sim::fault("fault.disk.stale_read");
                let v = self.log[du(self.log.len())];
                (v, v == last)
            }
            4 => {
                sim::fault("fault.disk.garbage");
                let v: [u8; 49] = match d(4) {
                    0 => [0; 49],
                    1 => [0xff; 49],
                    _ => sim::expand(sim::d64(), 49).try_into().unwrap(),
                };
                (v, v == last)
            }
            5 => {
                sim::fault("fault.disk.garbage_tail");
                let mut v = last;
                for b in &mut v[40..] {
                    *b = [0xff, 0, d(256) as u8][du(3)];
                }
                (v, v == last)
            }
            _ => (last, true),
        }
    }
}

pub fn run() {
    let dr = KINDS[du(3)];
    let seed = draw_seed();
    cpu::level(cpu::draw());
    let mut g = Gen::new(dr, seed);
    let mut m = GenModel::new(dr, seed);
    let mut disk = BadDisk { log: vec![] };
    let who = format!("ChaCha{}Rng", 2 * dr);
    sim::ev("open", &[sim::hash(&seed)], || who.clone());
    let save = |g: &Gen, m: &GenModel, disk: &mut BadDisk| {
        let img = sim::must("serialize_state", || g.save());
        let want = m.image();
        ensure!(img == want, "image", "{who}: image at word {:#x} is not seed, stream, position{}", m.pos, sim::diff(&img, &want));
        sim::ev("save", &[sim::hash(&img)], || format!("checkpoint at stream {:#x} word {:#x}", m.stream, m.pos));
        disk.log.push(img);
    };
    save(&g, &m, &mut disk);
    for _ in 0..3 + du(24) {
        match d(6) {
            0 => save(&g, &m, &mut disk),
            1 | 2 => {
                // crash and restore, possibly on another kind of machine,
                // possibly several times in a row
                sim::fault("fault.crash.generator");
                cpu::level(cpu::draw());
                let (img, newest) = disk.read();
                let restored = sim::must("deserialize_state", || Gen::restore(dr, &img));
                let rm = GenModel::parse(dr, &img);
                sim::ev("restore", &[sim::hash(&img), newest as u64], || {
                    format!("restored{} at stream {:#x} word {:#x}", if newest { "" } else { " from a damaged or old image" }, rm.stream, rm.pos)
                });
                sim::sig(&[0x66, newest as u64, zone(rm.pos), (rm.pos % 64) as u64]);
                check(&restored, &rm, "restored generator");
                let again = sim::must("serialize_state", || restored.save());
                ensure!(again == rm.image(), "image", "{who}: re-serialized image differs{}", sim::diff(&again, &rm.image()));
                if img[48] & 0xf0 == 0 {
                    ensure!(again == img, "image", "{who}: re-serialized image differs from a canonical one");
                }
                if newest && chance(1, 2) {
                    // the original went on meanwhile: same words
                    let mut twin = Gen::restore(dr, &img);
                    let mut tm = GenModel::parse(dr, &img);
                    let mut both = rm.fork();
                    let mut r2 = restored;
                    for _ in 0..du(6) {
                        let n = fill_len();
                        let (mut a, mut b) = (vec![0; n], vec![0; n]);
                        sim::must("fill_bytes", || r2.fill(&mut a));
                        sim::must("fill_bytes", || twin.fill(&mut b));
                        let w = both.take(n);
                        tm.take(n);
                        ensure!(a == w && b == w, "word", "{who}: restored generators differ from the original");
                    }
                    check(&twin, &tm, "restored twin");
                    g = r2;
                    m = both;
                } else {
                    g = restored;
                    m = rm;
                }
                if disk.log.len() > 6 {
                    disk.log.remove(0);
                }
                if chance(1, 2) {
                    save(&g, &m, &mut disk);
                }
            }
            _ => {
                if chance(1, 6) {
                    cpu::level(cpu::draw());
                    sim::fault("fault.cpu.migrate");
                }
                step(&mut g, &mut m, &who);
            }
        }
        if chance(1, 3) {
            // what a checkpoint here would restore to, word for word
            let img = sim::must("serialize_state", || g.save());
            ensure!(img == m.image(), "image", "{who}: image at word {:#x} wrong{}", m.pos, sim::diff(&img, &m.image()));
            let mut r = sim::must("deserialize_state", || Gen::restore(dr, &img));
            let n = fill_len();
            let mut a = vec![0; n];
            sim::must("fill_bytes", || r.fill(&mut a));
            let w = m.fork().take(n);
            ensure!(a == w, "word", "{who}: a copy restored at word {:#x} continues differently{}", m.pos, sim::diff(&a, &w));
            ensure!(g.eq(&Gen::restore(dr, &img)) == Some(true), "equality", "{who}: a restored copy is not equal to the original");
        }
    }
    check(&g, &m, &who);
    step(&mut g, &mut m, &who);
}
