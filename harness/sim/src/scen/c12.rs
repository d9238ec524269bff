//! C12: every buffer fenced by unmapped pages and canaries, on machines with
//! changing CPUs, including refused and unwound operations.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::hook;
use crate::mem::Buf;
use crate::model::{Alg, Model};
#[cfg(feature = "rng")]
use crate::rngs::{self, Gen, GenModel};
use crate::sim::{self, chance, d, du};
use crate::{ensure, fail};

const OUT: usize = 0;
const INP: usize = 1;
const KEY: usize = 2;
const IV: usize = 3;

/// Build from key and IV in fenced memory.
fn fenced_creds(alg: Alg) -> (Creds, Buf, Buf) {
    let c = Creds::draw(alg);
    let k = Buf::new(KEY, c.key.len(), 1);
    k.slice().copy_from_slice(&c.key);
    let i = Buf::new(IV, c.iv.len(), 1);
    i.slice().copy_from_slice(&c.iv);
    (c, k, i)
}

/// Expected output of a data operation.
fn expect(m: &mut Model, at: u128, data: &[u8], writes: bool) -> Vec<u8> {
    let ks = m.ks_vec(at, data.len());
    if writes { ks } else { xor(data, &ks) }
}

fn stream() {
    let (c, k, i) = fenced_creds(draw_alg());
    let ctor = d(12);
    let mut o = make(c.alg, k.slice(), i.slice(), ctor);
    let mut m = c.model();
    let mut pos = 0u128;
    if c.alg.seekable() && chance(1, 2) {
        pos = if chance(1, 3) { c.alg.max_ctr() * 64 - d(2000) as u128 } else { draw_pos(c.alg) };
        match o.seek(Num::U128, pos, false) {
            Some(Res::Ok) => {}
            r => fail!("refused", "{}: seek to {pos:#x}: {r:?}", c.name()),
        }
    }
    sim::ev("open", &[c.id(), pos as u64], || format!("{} at {pos:#x}", c.name()));
    for _ in 0..2 + du(8) {
        if chance(1, 4) {
            cpu::level(cpu::draw());
        }
        let n = sim::len(9000);
        let mut form = FORMS[du(FORMS.len())];
        let ok = granted(c.alg, pos, n);
        if form.unchecked() && !ok {
            form = Form::TryInPlace;
        }
        let data = sim::expand(sim::d64(), n);
        let out = Buf::new(OUT, n, 1);
        let inp = Buf::new(INP, if form.separate() { n } else { 0 }, 1);
        if form.separate() {
            inp.slice().copy_from_slice(&data);
            out.slice().fill(0xA5);
        } else if form.writes() {
            out.slice().fill(0xA5);
        } else {
            out.slice().copy_from_slice(&data);
        }
        let before = out.slice().to_vec();
        let r = o.call(form, inp.slice(), out.slice());
        sim::op();
        let what = format!("{} {form:?} of {n} bytes at {pos:#x} (out {}, in {})", c.name(), out.place, inp.place);
        sim::ev("call", &[form as u64, n as u64, sim::hash(out.slice())], || what.clone());
        sim::sig(&[0xCA, c.alg as u64, form as u64, out.place, inp.place, bucket(n)]);
        out.check(&what);
        inp.check(&what);
        if form.separate() {
            ensure!(inp.slice() == data, "containment", "{what}: changed its separate input");
        }
        match r {
            Res::Ok => {
                ensure!(ok, "end", "{what}: granted past the end");
                let want = expect(&mut m, pos, &data, form.writes());
                ensure!(out.slice() == want, "keystream", "{what}: wrong{}", sim::diff(out.slice(), &want));
                pos += n as u128;
            }
            Res::Err(_) if !ok => {
                sim::fault("fault.refused.past_end");
                ensure!(out.slice() == before, "containment", "{what}: refused but wrote");
            }
            Res::Panic(_) if !ok && form.panicking() => {
                sim::fault("fault.refused.past_end");
                ensure!(out.slice() == before, "containment", "{what}: refused but wrote");
            }
            r => fail!("refused", "{what}: {r:?}"),
        }
    }
    k.check("key");
    i.check("IV");
    ensure!(k.slice() == c.key && i.slice() == c.iv, "containment", "{}: key or IV changed", c.name());
}

/// Block sessions writing straight into fenced memory.
struct Fenced {
    steps: usize,
    fail: bool,
    cur: Option<Buf>,
    out: Vec<u8>,
    bs: usize,
    what: &'static str,
}
impl Script for Fenced {
    fn next(&mut self, par: usize) -> Step {
        if self.steps == 0 {
            return if self.fail { Step::Panic } else { Step::Stop };
        }
        self.steps -= 1;
        match d(4) {
            0 if par > 1 => Step::Tail(du(par)),
            1 | 2 => Step::Par,
            _ => Step::Single,
        }
    }
    fn target(&mut self, n: usize) -> *mut u8 {
        let b = Buf::new(OUT, n, 1);
        b.slice().fill(0xA5);
        let p = b.at as *mut u8;
        self.cur = Some(b);
        p
    }
    fn got(&mut self, s: Step, b: &[u8]) {
        let cur = self.cur.take().unwrap();
        cur.check(&format!("{} {s:?}", self.what));
        self.out.extend_from_slice(b);
        assert_eq!(b.len() % self.bs, 0);
    }
}

fn blocks() {
    let (c, k, i) = fenced_creds(draw_alg_where(|a| a != Alg::Rc4));
    let bs = c.alg.block_size();
    let ctor = d(12);
    let mut core = make_core(c.alg, k.slice(), i.slice(), ctor);
    let mut m = c.model();
    let mut blk = 0u128;
    for _ in 0..2 + du(6) {
        if chance(1, 4) {
            cpu::level(cpu::draw());
        }
        if c.alg.seekable() && (chance(1, 4) || blk + 400 > c.alg.max_ctr()) {
            blk = (sim::d64() as u128 & c.alg.max_ctr()).saturating_sub(400);
            core.set_blk(blk);
        }
        if chance(1, 2) {
            let kind = SIMPLES[du(6)];
            let n = if kind.one() { 1 } else { du(40) };
            let data = sim::expand(sim::d64(), n * bs);
            let out = Buf::new(OUT, n * bs, 1);
            let inp = Buf::new(INP, if kind.separate() { n * bs } else { 0 }, 1);
            if kind.separate() {
                inp.slice().copy_from_slice(&data);
                out.slice().fill(0xA5);
            } else {
                out.slice().copy_from_slice(&data);
            }
            let r = core.simple(kind, inp.slice(), out.slice());
            sim::op();
            let what = format!("{} {kind:?} of {n} blocks at {blk:#x} (out {}, in {})", c.name(), out.place, inp.place);
            sim::ev("blocks", &[kind as u64, n as u64, sim::hash(out.slice())], || what.clone());
            sim::sig(&[0xCB, c.alg as u64, kind as u64, out.place, inp.place, n as u64]);
            out.check(&what);
            inp.check(&what);
            match r {
                Res::Ok => {}
                r => fail!("refused", "{what}: {r:?}"),
            }
            if kind.separate() {
                ensure!(inp.slice() == data, "containment", "{what}: changed its separate input");
            }
            let want = expect(&mut m, blk * bs as u128, &data, kind.writes());
            ensure!(out.slice() == want, "keystream", "{what}: wrong{}", sim::diff(out.slice(), &want));
            blk += n as u128;
        } else {
            let fail = c.alg.seekable() && chance(1, 4);
            let mut s = Fenced { steps: du(6), fail, cur: None, out: vec![], bs, what: c.name() };
            let r = core.session(&mut s);
            sim::op();
            let n = s.out.len() / bs;
            sim::ev("session", &[n as u64, sim::hash(&s.out)], || format!("{} session of {n} blocks at {blk:#x}", c.name()));
            let want = m.ks_vec(blk * bs as u128, s.out.len());
            ensure!(s.out == want, "keystream", "{} session at {blk:#x}: wrong{}", c.name(), sim::diff(&s.out, &want));
            match r {
                Res::Ok => blk += n as u128,
                Res::Injected => {
                    sim::fault("fault.unwind.session");
                    blk = core.blk().unwrap();
                }
                r => fail!("refused", "{} session: {r:?}", c.name()),
            }
        }
    }
    // the consuming call
    let n = sim::len(2000);
    let separate = chance(1, 2);
    if c.alg.seekable() && blk + 60 > c.alg.max_ctr() {
        return;
    }
    let data = sim::expand(sim::d64(), n);
    let out = Buf::new(OUT, n, 1);
    let inp = Buf::new(INP, if separate { n } else { 0 }, 1);
    if separate {
        inp.slice().copy_from_slice(&data);
        out.slice().fill(0xA5);
    } else {
        out.slice().copy_from_slice(&data);
    }
    let r = core.partial(inp.slice(), out.slice(), separate, false);
    let what = format!("{} one-shot of {n} bytes at block {blk:#x} (out {}, in {})", c.name(), out.place, inp.place);
    sim::ev("partial", &[n as u64, sim::hash(out.slice())], || what.clone());
    out.check(&what);
    inp.check(&what);
    match r {
        Res::Ok => {}
        r => fail!("refused", "{what}: {r:?}"),
    }
    if separate {
        ensure!(inp.slice() == data, "containment", "{what}: changed its separate input");
    }
    let want = expect(&mut m, blk * bs as u128, &data, false);
    ensure!(out.slice() == want, "keystream", "{what}: wrong{}", sim::diff(out.slice(), &want));
}

#[cfg(feature = "rng")]
fn generator() {
    let dr = rngs::KINDS[du(3)];
    let (mut g, mut m) = if chance(1, 2) {
        let b = Buf::new(INP, 49, 1);
        let img: [u8; 49] = sim::bytes(49).try_into().unwrap();
        b.slice().copy_from_slice(&img);
        let fenced: &[u8; 49] = (&*b.slice()).try_into().unwrap();
        let g = Gen::restore(dr, fenced);
        ensure!(b.slice() == img, "containment", "restoring changed the image");
        b.check("restore");
        (g, GenModel::parse(dr, &img))
    } else {
        let seed = rngs::draw_seed();
        (Gen::new(dr, seed), GenModel::new(dr, seed))
    };
    for _ in 0..2 + du(8) {
        if chance(1, 4) {
            cpu::level(cpu::draw());
        }
        if chance(1, 3) {
            rngs::step(&mut g, &mut m, "fenced generator");
            continue;
        }
        let n = if chance(1, 8) { sim::len(9000) } else { rngs::fill_len() };
        let b = Buf::new(OUT, n, 1);
        b.slice().fill(0xA5);
        let at = m.pos;
        sim::must("fill_bytes", || g.fill(b.slice()));
        sim::op();
        let what = format!("fill_bytes({n}) at word {at:#x} (place {})", b.place);
        sim::ev("fill", &[n as u64, sim::hash(b.slice())], || what.clone());
        sim::sig(&[0xCC, b.place, n.min(300) as u64]);
        b.check(&what);
        let want = m.take(n);
        ensure!(b.slice() == want, "word", "{what}: wrong{}", sim::diff(b.slice(), &want));
    }
}

fn derivation() {
    let key = Buf::new(KEY, 32, 1);
    let inp = Buf::new(INP, 16, 1);
    key.slice().copy_from_slice(&sim::bytes(32));
    inp.slice().copy_from_slice(&sim::bytes(16));
    let (k0, i0) = (key.slice().to_vec(), inp.slice().to_vec());
    let salsa = cfg!(feature = "others") && chance(1, 2);
    let dr = [10, 4, 6, 3, 5][du(5)];
    let k: &[u8; 32] = (&*key.slice()).try_into().unwrap();
    let i: &[u8; 16] = (&*inp.slice()).try_into().unwrap();
    let got = derive(salsa, dr, k, i);
    let want = if salsa { crate::model::hsalsa(dr, &k0, &i0) } else { crate::model::hchacha(dr, &k0, &i0) };
    sim::op();
    sim::ev("derive", &[sim::hash(&got)], || "key derivation".into());
    ensure!(got == want, "keystream", "key derivation wrong");
    key.check("key derivation");
    inp.check("key derivation");
    ensure!(key.slice() == k0 && inp.slice() == i0, "containment", "key derivation changed its input");
}

pub fn run() {
    cpu::level(cpu::draw());
    if chance(1, 4) {
        hook::migrate(3);
    }
    match d(8) {
        0..=3 => stream(),
        4 | 5 => blocks(),
        #[cfg(feature = "rng")]
        6 => generator(),
        _ => {
            derivation();
            stream()
        }
    }
}
