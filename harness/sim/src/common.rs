//! Pieces shared by the stream cipher scenarios.

use crate::ciphers::*;
use crate::model::{Alg, Model, rabbit_directed};
use crate::sim::diff;
use crate::sim::{self, chance, d, du};
use crate::{ensure, fail};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

/// Builds that only differ in the ChaCha backend spend most runs on ChaCha.
pub static FOCUS_CHACHA: AtomicBool = AtomicBool::new(false);

pub fn draw_alg() -> Alg {
    draw_alg_where(|_| true)
}
pub fn draw_alg_where(f: impl Fn(Alg) -> bool) -> Alg {
    let all: Vec<Alg> = algs().iter().copied().filter(|&a| f(a)).collect();
    if FOCUS_CHACHA.load(SeqCst) && chance(7, 8) {
        let c: Vec<Alg> = all.iter().copied().filter(|a| a.is_chacha()).collect();
        if !c.is_empty() {
            return c[du(c.len())];
        }
    }
    let a = all[du(all.len())];
    // the crates' own types come up more often
    if a.odd() && chance(1, 2) { all[du(all.len())] } else { a }
}

#[derive(Clone)]
pub struct Creds {
    pub alg: Alg,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
}
impl Creds {
    pub fn draw(alg: Alg) -> Creds {
        let kl = if alg == Alg::Rc4 {
            match d(8) {
                0 => 1 + du(4),
                1 => 256 - du(3),
                2 => 16,
                3 => 32,
                _ => 1 + du(256),
            }
        } else {
            alg.key_len()
        };
        let mut c = Creds { alg, key: sim::bytes(kl), iv: sim::bytes(alg.iv_len()) };
        match d(6) {
            0 => edge_words(&mut c.key),
            1 => edge_words(&mut c.iv),
            2 | 3 if matches!(alg, Alg::Rabbit | Alg::RabbitKeyOnly) => {
                // carries and sums at their limits inside the state system
                let target = match d(4) {
                    0 => 0u32.wrapping_add(d(5) as u32).wrapping_sub(2),
                    1 => 1 << d(32),
                    2 => (1u32 << d(32)).wrapping_sub(1),
                    _ => 0,
                };
                let (j, sum, carry) = (du(8), chance(1, 2), chance(2, 3));
                let Creds { key, iv, .. } = &mut c;
                let iv = (!iv.is_empty() && chance(1, 2)).then_some(&mut iv[..]);
                rabbit_directed(key, iv, j, sum, carry, target);
            }
            _ => {}
        }
        c
    }
    pub fn model(&self) -> Model {
        Model::new(self.alg, &self.key, &self.iv)
    }
    /// A fresh object, through a drawn constructor.
    pub fn make(&self) -> Box<dyn Obj> {
        let ctor = d(12);
        make(self.alg, &self.key, &self.iv, ctor)
    }
    pub fn name(&self) -> &'static str {
        self.alg.name()
    }
    pub fn id(&self) -> u64 {
        sim::hash(&self.key) ^ sim::hash(&self.iv).rotate_left(9) ^ self.alg as u64
    }
}

/// Some of the words at the limits of their range.
pub fn edge_words(b: &mut [u8]) {
    for w in b.chunks_mut(4) {
        let v = match d(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 0x7fff_ffff,
            3 => 0x8000_0000,
            4 => 1,
            5 => u32::MAX - 1,
            _ => continue,
        };
        w.copy_from_slice(&u32::to_le_bytes(v)[..w.len()]);
    }
}
/// Other bytes that a hurried comparison might take for the same: permuted,
/// rotated, equal in XOR or sum, equal at one end.
pub fn lookalike(b: &mut [u8]) {
    let n = b.len();
    if n < 2 {
        return;
    }
    match d(8) {
        0 => b.rotate_left(n / 2),
        1 => {
            let w = [1, 2, 4, 8, 16][du(5)];
            if n >= 2 * w {
                let (i, j) = (du(n / w), du(n / w));
                for k in 0..w {
                    b.swap(i * w + k, j * w + k);
                }
            }
        }
        2 => b.reverse(),
        3 => {
            // same XOR of words
            let w = [1, 2, 4, 8, 16][du(5)];
            if n >= 2 * w {
                let (i, j, k, x) = (du(n / w), du(n / w), du(w), 1 + d(255) as u8);
                b[i * w + k] ^= x;
                b[j * w + k] ^= x;
            }
        }
        4 => {
            // same sum of bytes
            let (i, j) = (du(n), du(n));
            b[i] = b[i].wrapping_add(1);
            b[j] = b[j].wrapping_sub(1);
        }
        5 => {
            let keep = 1 + du(n - 1);
            let x = sim::bytes(n - keep);
            b[keep..].copy_from_slice(&x);
        }
        6 => {
            let keep = 1 + du(n - 1);
            let x = sim::bytes(n - keep);
            b[..n - keep].copy_from_slice(&x);
        }
        _ => {
            let i = du(n);
            b[i] ^= 1 << d(8);
        }
    }
}

/// What `pos` allows for a checked request of `n` bytes.
pub fn granted(alg: Alg, pos: u128, n: usize) -> bool {
    if !alg.seekable() {
        return true;
    }
    let ctr = pos.div_ceil(64);
    let buffered = ctr * 64 - pos;
    let n = n as u128;
    n <= buffered || (n - buffered).div_ceil(64) <= alg.max_ctr() - ctr
}

/// A source and a destination for one call, laid out as the form needs.
pub struct Io {
    inp: Vec<u8>,
    out: Vec<u8>,
    at: usize,
    n: usize,
    orig: Vec<u8>,
}
impl Io {
    pub fn new(form: Form, data: &[u8]) -> Io {
        let at = du(64);
        let n = data.len();
        let mut inp = vec![];
        let mut out = vec![0xA5; at + n + 16];
        if form.separate() {
            inp = vec![0x3C; at / 2 + n + 8];
            inp[at / 2..at / 2 + n].copy_from_slice(data);
        } else if !form.writes() {
            out[at..at + n].copy_from_slice(data);
        }
        let orig = out.clone();
        Io { inp, out, at, n, orig }
    }
    pub fn run(&mut self, o: &mut dyn Obj, form: Form) -> Res {
        let n = self.n;
        let inp = if form.separate() { &self.inp[self.at / 2..self.at / 2 + n] } else { &[][..] };
        o.call(form, inp, &mut self.out[self.at..self.at + n])
    }
    pub fn out(&self) -> &[u8] {
        &self.out[self.at..self.at + self.n]
    }
    pub fn untouched(&self) -> bool {
        self.out == self.orig
    }
    pub fn input_intact(&self, form: Form, data: &[u8]) -> bool {
        !form.separate() || &self.inp[self.at / 2..self.at / 2 + self.n] == data
    }
    pub fn borders_intact(&self) -> bool {
        self.out[..self.at].iter().chain(&self.out[self.at + self.n..]).all(|&b| b == 0xA5)
    }
}

pub fn draw_form(n: usize, alg: Alg, pos: u128) -> Form {
    let f = FORMS[du(FORMS.len())];
    // the unchecked forms are for requests already known to be fine
    if f.unchecked() && !granted(alg, pos, n) { Form::TryInPlace } else { f }
}

/// One processing call that must be granted and must produce data XOR
/// keystream (keystream writes are XORed here). Returns the result.
pub fn process(o: &mut dyn Obj, c: &Creds, m: &mut Model, pos: &mut u128, form: Form, data: &[u8], who: &str) -> Vec<u8> {
    sim::op();
    let n = data.len();
    let mut io = Io::new(form, data);
    let res = io.run(o, form);
    let what = format!("{who}: {} {form:?} of {n} bytes at {:#x}", c.name(), *pos);
    match res {
        Res::Ok => {}
        Res::Err(e) => fail!("refused", "{what}: refused ({e})"),
        Res::Panic(e) => fail!("panic", "{what}: panicked ({e})"),
        Res::Injected => panic!("stray injected panic"),
    }
    ensure!(io.borders_intact(), "containment", "{what}: wrote outside the buffer");
    ensure!(io.input_intact(form, data), "containment", "{what}: changed its separate input");
    let ks = m.ks_vec(*pos, n);
    let want: Vec<u8> = if form.writes() { ks.clone() } else { xor(data, &ks) };
    sim::ev("process", &[form as u64, n as u64, sim::hash(io.out())], || what.clone());
    if io.out() != want {
        fail!("keystream", "{what}: wrong bytes{}", diff(io.out(), &want));
    }
    sim::sig(&[0x11, c.alg as u64, form as u64, bucket(n), (*pos % 64) as u64, (n % 64) as u64]);
    *pos += n as u128;
    if form.writes() { xor(data, &ks) } else { want }
}
pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}
pub fn bucket(n: usize) -> u64 {
    match n {
        0 => 0,
        1..=63 => 1,
        64..=255 => 2,
        256..=511 => 3,
        512..=1023 => 4,
        1024..=2047 => 5,
        _ => 6,
    }
}

/// Byte positions worth visiting for a seekable cipher; at most the start of
/// the last block.
pub fn draw_pos(alg: Alg) -> u128 {
    let end = alg.max_ctr() * 64;
    let near = |p: u128| (p + sim::d(700) as u128).saturating_sub(350);
    let p = match d(12) {
        0 => du(200) as u128,
        1 => near(1u128 << sim::range(6, alg.ctr_bits() as u64 + 5)),
        2 => near((1u128 << 32) * 64),
        3 => near(end),
        4 => near(1 << 31),
        5 => near(1 << 32),
        6 => near(1u128 << 63),
        7 => near(1u128 << 64),
        8 => near((d64_mod(alg) | 0xffff_ffff) * 64),
        9 => d64_mod(alg) * 64 + du(64) as u128,
        10 => du(100_000) as u128,
        _ => near((d64_mod(alg) & !0xf) * 64),
    };
    p.min(end)
}
fn d64_mod(alg: Alg) -> u128 {
    sim::d64() as u128 & alg.max_ctr()
}
/// A position with room for `room` bytes before the end.
pub fn draw_pos_room(alg: Alg, room: u128) -> u128 {
    draw_pos(alg).min((alg.max_ctr() * 64).saturating_sub(room + 64))
}

/// Bring a fresh object to `pos`: by seeking if it can, otherwise (or
/// sometimes anyway) by discarding output.
pub fn forward(o: &mut dyn Obj, c: &Creds, pos: u128, who: &str) {
    if c.alg.seekable() && (pos > 20_000 || !chance(1, 3)) {
        match o.seek(Num::U128, pos, false) {
            Some(Res::Ok) => {}
            r => fail!("refused", "{who}: {} seek to {pos:#x}: {r:?}", c.name()),
        }
        return;
    }
    let mut left = pos as usize;
    while left > 0 {
        let n = left.min(1 + sim::len(8000));
        let mut junk = vec![0; n];
        let f = [Form::TryInPlace, Form::TryWrite, Form::UncheckedInPlace][du(3)];
        match o.call(f, &[], &mut junk) {
            Res::Ok => {}
            r => fail!("refused", "{who}: {} skipping {n} bytes: {r:?}", c.name()),
        }
        left -= n;
    }
}
/// The cheap version, for long ones.
pub fn cut(left: usize, big: bool) -> usize {
    let n = if big && chance(1, 2) { 1500 + du(6000) } else { sim::len(9000) };
    n.min(left)
}

// ---------------------------------------------------------------------------

/// One object with its reference model; every action is checked.
pub struct Actor {
    pub c: Creds,
    pub obj: Box<dyn Obj>,
    pub m: Model,
    pub pos: u128,
    pub name: String,
}

/// Relative weights of the actions of [`Actor::act`].
#[derive(Clone, Copy)]
pub struct Mix {
    pub read: u32,
    pub seek: u32,
    pub jump: u32,
    pub pos: u32,
    pub refuse: u32,
    pub check: u32,
    /// reads that run up to, onto and over the end of the keystream
    pub edge: u32,
    pub cap: usize,
}
pub const RANDOM_ACCESS: Mix = Mix { read: 8, seek: 6, jump: 3, pos: 4, refuse: 2, check: 1, edge: 1, cap: 3000 };

impl Actor {
    pub fn new(c: Creds, name: &str) -> Actor {
        let obj = c.make();
        let m = c.model();
        Actor { c, obj, m, pos: 0, name: name.to_string() }
    }
    /// Lose the object; a new one is brought to the durable position.
    pub fn restart(&mut self, at: u128) {
        self.obj = self.c.make();
        self.pos = 0;
        if self.c.alg.seekable() {
            let num = if at <= u64::MAX as u128 && chance(1, 2) { Num::U64 } else { Num::U128 };
            self.seek(num, at, chance(1, 3));
        } else {
            forward(&mut *self.obj, &self.c, at, &self.name);
            self.pos = at;
        }
    }
    pub fn read(&mut self, n: usize, form: Form) {
        let data = sim::expand(sim::d64(), n);
        process(&mut *self.obj, &self.c, &mut self.m, &mut self.pos, form, &data, &self.name);
    }
    pub fn read_data(&mut self, data: &[u8], form: Form) -> Vec<u8> {
        process(&mut *self.obj, &self.c, &mut self.m, &mut self.pos, form, data, &self.name)
    }
    pub fn seek(&mut self, num: Num, p: u128, panicking: bool) -> bool {
        sim::op();
        let (blk, byte) = (p / 64, p % 64);
        let max = self.c.alg.max_ctr();
        let allow = blk <= max && !(byte != 0 && blk == max);
        let who = &self.name;
        let what = format!("{who}: {} seek to {p:#x} as {num:?}", self.c.name());
        let r = self.obj.seek(num, p, panicking);
        sim::ev("seek", &[p as u64, (p >> 64) as u64, num as u64, allow as u64], || format!("{what} ({})", if allow { "reachable" } else { "unreachable" }));
        sim::sig(&[0x5E, self.c.alg as u64, num as u64, allow as u64, (byte == 0) as u64, (128 - p.leading_zeros()) as u64]);
        match (r, allow) {
            (None, _) => false,
            (Some(Res::Ok), true) => {
                self.pos = p;
                true
            }
            (Some(Res::Ok), false) => fail!("end", "{what}: accepted an unreachable position"),
            (Some(Res::Err(e)), true) => fail!("refused", "{what}: refused ({e})"),
            (Some(Res::Panic(e)), true) => fail!("panic", "{what}: panicked ({e})"),
            (Some(Res::Panic(e)), false) if !panicking => fail!("panic", "{what}: panicked instead of refusing ({e})"),
            (Some(Res::Err(_) | Res::Panic(_)), false) => {
                sim::fault("fault.refused.seek");
                false
            }
            (Some(Res::Injected), _) => panic!("stray injected panic"),
        }
    }
    pub fn query(&mut self, num: Num, panicking: bool) {
        sim::op();
        let Some(r) = self.obj.pos(num, panicking) else { return };
        let what = format!("{}: {} position as {num:?}", self.name, self.c.name());
        let block_end = self.pos.div_ceil(64) * 64;
        let may_fail = block_end > num.max();
        sim::ev("pos", &[num as u64, r.is_ok() as u64], || format!("{what}: {r:?}"));
        sim::sig(&[0x70, self.c.alg as u64, num as u64, may_fail as u64, r.is_ok() as u64, (self.pos % 64) as u64]);
        match r {
            Ok(v) => ensure!(v == self.pos, "position", "{what}: reports {v:#x}, is {:#x}", self.pos),
            Err(e) if may_fail => {
                if matches!(e, Res::Panic(_)) && !panicking {
                    fail!("panic", "{what}: {e:?}");
                }
            }
            Err(e) => fail!("position", "{what}: {e:?} at {:#x}", self.pos),
        }
    }
    /// A request that has to be refused as a whole.
    pub fn refuse_past_end(&mut self, n: usize) {
        assert!(!granted(self.c.alg, self.pos, n));
        let forms = [
            Form::TryInPlace, Form::TryB2b, Form::TryInOut, Form::TryInOutSame, Form::TryWrite, Form::InPlace,
            Form::B2b, Form::InOut, Form::Write, Form::MutRefInPlace, Form::MutRefWrite,
        ];
        let form = forms[du(forms.len())];
        let data = sim::expand(sim::d64(), n);
        let mut io = Io::new(form, &data);
        let what = format!("{}: {} {form:?} of {n} bytes at {:#x}", self.name, self.c.name(), self.pos);
        ensure!(!self.obj.check(n), "end", "{what}: check_remaining allows a request past the end");
        let r = io.run(&mut *self.obj, form);
        sim::op();
        sim::ev("past-end", &[form as u64, n as u64], || what.clone());
        sim::sig(&[0xE0, self.c.alg as u64, form as u64, bucket(n), (self.pos % 64) as u64]);
        match r {
            Res::Ok => fail!("end", "{what}: granted past the end of the keystream"),
            Res::Err(_) => {}
            Res::Panic(_) if form.panicking() => {}
            Res::Panic(e) => fail!("panic", "{what}: panicked instead of refusing ({e})"),
            Res::Injected => panic!("stray injected panic"),
        }
        ensure!(io.untouched() && io.input_intact(form, &data), "atomicity", "{what}: a refused request changed the data");
        sim::fault("fault.refused.past_end");
    }
    /// Mismatched lengths: refused whole.
    pub fn refuse_lengths(&mut self) {
        let forms = [Form::TryB2b, Form::B2b, Form::UncheckedB2b, Form::TryInOut, Form::InOut, Form::UncheckedInOut];
        let form = forms[du(forms.len())];
        let n = sim::len(1500);
        let k = match d(4) {
            0 => 0,
            1 => n + 1 + du(80),
            2 => n.saturating_sub(1 + du(70)),
            _ => sim::len(1500),
        };
        let k = if k == n { n + 1 } else { k };
        let inp = sim::expand(sim::d64(), n);
        let mut out = vec![0xA5; k];
        let r = self.obj.call(form, &inp, &mut out);
        sim::op();
        let what = format!("{}: {} {form:?} with {n} bytes in and {k} out", self.name, self.c.name());
        sim::ev("lengths", &[form as u64, n as u64, k as u64], || what.clone());
        match r {
            Res::Ok => fail!("lengths", "{what}: mismatched lengths accepted"),
            Res::Err(_) => {}
            Res::Panic(_) if form.panicking() => {}
            Res::Panic(e) => fail!("panic", "{what}: panicked instead of refusing ({e})"),
            Res::Injected => panic!("stray injected panic"),
        }
        ensure!(out.iter().all(|&b| b == 0xA5), "atomicity", "{what}: a refused request changed the output");
        sim::fault("fault.refused.lengths");
    }
    pub fn check_query(&mut self) {
        let n = match d(4) {
            0 => sim::d64() as usize,
            1 => usize::MAX - du(200),
            _ => self.edge_len(4000),
        };
        let r = self.obj.check(n);
        let g = granted(self.c.alg, self.pos, n);
        sim::op();
        sim::ev("check", &[n as u64, r as u64], || format!("{}: check_remaining({n}) = {r}", self.name));
        ensure!(r == g, "end", "{}: {} check_remaining({n}) at {:#x} says {r}, expected {g}", self.name, self.c.name(), self.pos);
    }
    /// A length around what is left, if that is near.
    fn edge_len(&self, cap: usize) -> usize {
        let ctr = self.pos.div_ceil(64);
        let left = self.c.alg.max_ctr().saturating_sub(ctr).saturating_mul(64) + (ctr * 64 - self.pos);
        if self.c.alg.seekable() && left <= cap as u128 {
            (left as usize + du(140)).saturating_sub(70)
        } else {
            sim::len(cap)
        }
    }
    pub fn edge(&mut self, cap: usize) {
        let n = self.edge_len(cap);
        if granted(self.c.alg, self.pos, n) {
            let f = draw_form(n, self.c.alg, self.pos);
            self.read(n, f);
        } else {
            self.refuse_past_end(n);
        }
    }
    pub fn act(&mut self, x: &Mix) {
        let s = self.c.alg.seekable();
        let w = [x.read, if s { x.seek } else { 0 }, if s { x.jump } else { 0 }, if s { x.pos } else { 0 }, x.refuse, x.check, x.edge];
        match sim::weighted(&w) {
            0 => {
                let n = sim::len(x.cap);
                if granted(self.c.alg, self.pos, n) {
                    let f = draw_form(n, self.c.alg, self.pos);
                    self.read(n, f);
                } else {
                    self.refuse_past_end(n);
                }
            }
            1 => {
                let num = NUMS[du(5)];
                let mut p = draw_pos(self.c.alg);
                if chance(1, 12) {
                    // beyond the last block, or onto bytes of it
                    p = self.c.alg.max_ctr() * 64 + 1 + if chance(1, 2) { d(130) as u128 } else { (sim::d64() as u128) << d(50) };
                }
                if p > num.max() {
                    p = if chance(1, 2) { num.max() - d(300) as u128 } else { p & num.max() };
                }
                self.seek(num, p, chance(1, 4));
            }
            2 => {
                let p = (self.pos + d(1400) as u128).saturating_sub(700).min(self.c.alg.max_ctr() * 64);
                self.seek(Num::U128, p, false);
            }
            3 => self.query(NUMS[du(5)], chance(1, 6)),
            4 => self.refuse_lengths(),
            5 => self.check_query(),
            _ => self.edge(x.cap),
        }
    }
}
