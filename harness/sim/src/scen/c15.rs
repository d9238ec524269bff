//! C15: what an observer of time sees of ChaCha (instructions executed,
//! addresses touched) is independent of keys, seeds, data and keystream.
//!
//! One public plan (algorithm, nonce, operations, lengths, positions, faults)
//! is executed with different secrets at the same addresses; the observed
//! traces must be identical.

use crate::ciphers::{Form, NUMS, Num, Obj, SIMPLES, Simple, derive, make, make_core};
use crate::common::{draw_alg_where, draw_form, draw_pos, edge_words, granted};
use crate::ct::{self, Mode};
use crate::model::Alg;
use crate::rngs::{GCore, Gen, KINDS, draw_block_pos, draw_stream, draw_word_pos};
use crate::sim::{self, chance, d, du};
use crate::{cpu, fail, mem};

const DATA: usize = 6000;

struct Secret {
    key: [u8; 32],
    data: Vec<u8>,
}
impl Secret {
    fn draw() -> Secret {
        let mut key: [u8; 32] = sim::bytes(32).try_into().unwrap();
        if chance(1, 3) {
            edge_words(&mut key);
        }
        if chance(1, 6) {
            // some words alike, some not
            let v = sim::expand(sim::d64(), 32);
            for i in 0..8 {
                if chance(1, 2) {
                    key[4 * i..4 * i + 4].copy_from_slice(&v[4 * (i % 2)..4 * (i % 2) + 4]);
                }
            }
        }
        let mut data = sim::bytes(DATA);
        if chance(1, 4) {
            // runs of zeros and ones inside
            let (at, n) = (du(DATA), du(300));
            let v = [0, 0xff, 0x20, 0x80][du(4)];
            data[at..(at + n).min(DATA)].fill(v);
        }
        Secret { key, data }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Level(usize),
    // stream
    Read { form: Form, at: usize, out: usize, n: usize },
    Seek { num: Num, pos: u128 },
    Pos { num: Num },
    Check(usize),
    Move,
    /// power loss: a new object at a recorded position
    Crash { pos: u128, num: Num },
    // block level
    Blocks { k: Simple, at: usize, n: usize },
    Set(u64),
    Remaining,
    Partial { at: usize, n: usize, separate: bool },
    Wrap,
    // generator
    U32,
    U64,
    Fill { at: usize, n: usize },
    WordPos(u128),
    BlockPos(u64),
    Stream(u64),
    Get,
    /// save, lose the generator, restore
    Restore,
    Generate,
}

#[derive(Clone, Copy, Debug)]
enum Subject {
    Stream(Alg),
    Core(Alg),
    Gen(usize),
    GCore(usize, bool),
    Derive(usize),
}

struct Plan {
    who: Subject,
    iv: Vec<u8>,
    ctor: u64,
    ops: Vec<Op>,
}

fn length() -> usize {
    match d(8) {
        0 => du(20),
        1 => 64 * du(5),
        2 => (64 * du(8) + du(9)).saturating_sub(4),
        3 => (256 * (1 + du(4)) + du(131)).saturating_sub(65),
        4 => 1024 + du(300),
        _ => du(300),
    }
}

fn draw() -> Plan {
    let w = sim::weighted(&[8, 3, 4, 1, 1]);
    let chacha = |a: Alg| a.is_chacha();
    let who = match w {
        0 => Subject::Stream(draw_alg_where(chacha)),
        1 => Subject::Core(draw_alg_where(chacha)),
        2 => Subject::Gen(KINDS[du(3)]),
        3 => Subject::GCore(KINDS[du(3)], chance(1, 2)),
        _ => Subject::Derive([10, 4, 6][du(3)]),
    };
    let iv = match who {
        Subject::Stream(a) | Subject::Core(a) => sim::bytes(a.iv_len()),
        _ => sim::bytes(16),
    };
    let mut ops = vec![Op::Level(cpu::draw())];
    let n = 1 + du(5);
    let mut pos = 0u128;
    for _ in 0..n {
        if chance(1, 8) {
            ops.push(Op::Level(cpu::draw()));
        }
        ops.push(match who {
            Subject::Stream(alg) => match d(16) {
                0..=7 => {
                    let n = length();
                    let mut form = draw_form(n, alg, pos);
                    if form.panicking() && !granted(alg, pos, n) {
                        form = Form::TryInOut;
                    }
                    if granted(alg, pos, n) {
                        pos += n as u128;
                    }
                    Op::Read { form, at: du(DATA - n), out: du(70), n }
                }
                8..=10 => {
                    pos = draw_pos(alg);
                    Op::Seek { num: if chance(1, 3) { Num::U64 } else { Num::U128 }, pos }
                }
                11 => Op::Pos { num: NUMS[du(5)] },
                12 => Op::Check(length()),
                13 => Op::Move,
                _ => Op::Crash { pos, num: Num::U128 },
            },
            Subject::Core(_) => match d(12) {
                0..=6 => {
                    let k = SIMPLES[du(6)];
                    let n = if k.one() { 1 } else { [du(4), du(6), 8, 16, du(22)][du(5)] };
                    Op::Blocks { k, at: du(DATA - 64 * n), n }
                }
                7..=8 => Op::Set(draw_block_pos() >> [0, 32][du(2)]),
                9 => Op::Remaining,
                10 => Op::Move,
                _ => {
                    let n = length();
                    ops.push(Op::Partial { at: du(DATA - n), n, separate: chance(1, 2) });
                    break;
                }
            },
            Subject::Gen(_) => match d(14) {
                0 => Op::U32,
                1 => Op::U64,
                2..=6 => Op::Fill { at: du(70), n: length() },
                7 => Op::WordPos(draw_word_pos()),
                8 => Op::BlockPos(draw_block_pos()),
                9 => Op::Stream(draw_stream()),
                10 => Op::Get,
                11 => Op::Move,
                _ => Op::Restore,
            },
            Subject::GCore(..) => match d(3) {
                0 => Op::BlockPos(draw_block_pos()),
                _ => Op::Generate,
            },
            Subject::Derive(_) => Op::Generate,
        });
    }
    Plan { who, iv, ctor: d(4), ops }
}

struct Bufs {
    key: [u8; 32],
    inp: Vec<u8>,
    out: Vec<u8>,
    marks: Vec<usize>,
}

/// Execute the plan with one secret. What follows the marks of an operation
/// was observed during it.
fn exec(p: &Plan, s: &Secret, b: &mut Bufs) {
    b.inp.copy_from_slice(&s.data);
    b.out.fill(0);
    b.marks.clear();
    cpu::reset();
    b.key = s.key;
    let Bufs { key, inp, out, marks } = b;
    let mark = |m: &mut Vec<usize>| m.push(ct::seen());
    let level = |o: &Op| {
        if let Op::Level(l) = *o {
            cpu::level(l);
            return true;
        }
        false
    };
    if let Some(o) = p.ops.first() {
        level(o);
    }
    mem::repeatable(|| match p.who {
        Subject::Stream(alg) => {
            mark(marks);
            let mut o: Option<Box<dyn Obj>> = Some(ct::traced(|| make(alg, key, &p.iv, p.ctor)));
            for op in &p.ops {
                mark(marks);
                if level(op) {
                    continue;
                }
                match *op {
                    Op::Read { form, at, out: to, n } => {
                        let dst = &mut out[to..to + n];
                        let src = &inp[at..at + n];
                        if !form.separate() && !form.writes() {
                            dst.copy_from_slice(src);
                        }
                        let o = o.as_mut().unwrap();
                        drop(ct::traced(|| o.call(form, src, dst)));
                    }
                    Op::Seek { num, pos } => {
                        let o = o.as_mut().unwrap();
                        drop(ct::traced(|| o.seek(num, pos, false)));
                    }
                    Op::Pos { num } => {
                        let o = o.as_ref().unwrap();
                        drop(ct::traced(|| o.pos(num, false)));
                    }
                    Op::Check(n) => {
                        let o = o.as_ref().unwrap();
                        ct::traced(|| o.check(n));
                    }
                    Op::Move => {
                        let x = o.take().unwrap();
                        o = Some(ct::traced(|| x.relocate()));
                    }
                    Op::Crash { pos, num } => {
                        let x = o.take().unwrap();
                        o = Some(ct::traced(|| {
                            drop(x);
                            let mut o = make(alg, key, &p.iv, p.ctor);
                            drop(o.seek(num, pos, false));
                            o
                        }));
                    }
                    _ => {}
                }
            }
            mark(marks);
            ct::traced(|| drop(o));
        }
        Subject::Core(alg) => {
            mark(marks);
            let mut o = Some(ct::traced(|| make_core(alg, key, &p.iv, p.ctor)));
            for op in &p.ops {
                mark(marks);
                if level(op) {
                    continue;
                }
                match *op {
                    Op::Blocks { k, at, n } => {
                        let src = &inp[at..at + 64 * n];
                        let dst = &mut out[..64 * n];
                        if !k.separate() && !k.writes() {
                            dst.copy_from_slice(src);
                        }
                        let o = o.as_mut().unwrap();
                        drop(ct::traced(|| o.simple(k, src, dst)));
                    }
                    Op::Set(b) => {
                        let o = o.as_mut().unwrap();
                        ct::traced(|| o.set_blk(b as u128));
                    }
                    Op::Remaining => {
                        let o = o.as_ref().unwrap();
                        ct::traced(|| (o.remaining(), o.blk()));
                    }
                    Op::Move => {
                        let x = o.take().unwrap();
                        o = Some(ct::traced(|| x.relocate()));
                    }
                    Op::Partial { at, n, separate } => {
                        let src = &inp[at..at + n];
                        let dst = &mut out[..n];
                        if !separate {
                            dst.copy_from_slice(src);
                        }
                        let x = o.take().unwrap();
                        drop(ct::traced(|| x.partial(src, dst, separate, false)));
                        return;
                    }
                    _ => {}
                }
            }
            mark(marks);
            let x = o.take().unwrap();
            ct::traced(|| drop(x.into_stream()));
        }
        Subject::Gen(dr) => {
            mark(marks);
            let mut g = Box::new(ct::traced(|| Gen::new(dr, *key)));
            for op in &p.ops {
                mark(marks);
                if level(op) {
                    continue;
                }
                match *op {
                    Op::U32 => {
                        let v = ct::traced(|| g.u32());
                        out[..4].copy_from_slice(&v.to_le_bytes());
                    }
                    Op::U64 => {
                        let v = ct::traced(|| g.u64());
                        out[..8].copy_from_slice(&v.to_le_bytes());
                    }
                    Op::Fill { at, n } => {
                        let dst = &mut out[at..at + n];
                        ct::traced(|| g.fill(dst));
                    }
                    Op::WordPos(w) => ct::traced(|| g.set_word_pos(w)),
                    Op::BlockPos(w) => ct::traced(|| g.set_block_pos(w)),
                    Op::Stream(w) => ct::traced(|| g.set_stream(w)),
                    Op::Get => {
                        let v = ct::traced(|| (g.word_pos(), g.block_pos(), g.stream(), g.seed()));
                        out[..32].copy_from_slice(&v.3);
                    }
                    Op::Move => {
                        let x = *g;
                        g = Box::new(x);
                    }
                    Op::Restore => {
                        let x = g;
                        let y = ct::traced(|| {
                            let img = x.save();
                            drop(x);
                            Gen::restore(dr, &img)
                        });
                        g = Box::new(y);
                    }
                    _ => {}
                }
            }
            mark(marks);
            ct::traced(|| drop(g));
        }
        Subject::GCore(dr, wide) => {
            mark(marks);
            let mut g = ct::traced(|| GCore::new(dr, wide, *key));
            for op in &p.ops {
                mark(marks);
                if level(op) {
                    continue;
                }
                match *op {
                    Op::BlockPos(w) => ct::traced(|| g.set_blk(w)),
                    _ => drop(ct::traced(|| g.generate())),
                }
            }
            mark(marks);
            ct::traced(|| drop(g));
        }
        Subject::Derive(dr) => {
            for op in &p.ops {
                mark(marks);
                if level(op) {
                    continue;
                }
                let inp: &[u8; 16] = p.iv[..16].try_into().unwrap();
                let k = ct::traced(|| derive(false, dr, key, inp));
                out[..32].copy_from_slice(&k);
            }
        }
    })
}

pub fn run() {
    let mode = ct::mode();
    let p = draw();
    let (a, b) = (Secret::draw(), Secret::draw());
    sim::ev("plan", &[p.ops.len() as u64], || format!("{:?} iv {:02x?} ctor {}", p.who, p.iv, p.ctor));
    for o in &p.ops {
        sim::op();
        match o {
            Op::Level(_) => sim::fault("fault.cpu.migrate"),
            Op::Move => sim::fault("fault.move"),
            Op::Crash { .. } => sim::fault("fault.crash.rebuild"),
            Op::Restore => sim::fault("fault.crash.restore_image"),
            Op::Seek { .. } | Op::WordPos(_) | Op::BlockPos(_) | Op::Set(_) => sim::fault("fault.seek.far"),
            _ => {}
        }
        let what = match o {
            Op::Level(l) => 1 << 40 | *l as u64,
            Op::Read { form, n, .. } => 2 << 40 | (*form as u64) << 32 | *n as u64,
            Op::Seek { pos, .. } => 3 << 40 | (*pos >> 20) as u64 & 0xffff_ffff,
            Op::Blocks { k, n, .. } => 4 << 40 | (*k as u64) << 32 | *n as u64,
            Op::Fill { n, .. } => 5 << 40 | *n as u64,
            Op::Partial { n, .. } => 6 << 40 | *n as u64,
            _ => 7 << 40,
        };
        sim::sig(&[0xC15, p.ctor, what, cpu::current() as u64]);
        sim::ev("op", &[what], || format!("{o:?}"));
    }
    sim::note(|| format!("secret A key {:02x?}", a.key));
    sim::note(|| format!("secret B key {:02x?}", b.key));
    if mode == Mode::None {
        sim::probe("not_observable");
        return;
    }
    let mut bufs = Box::new(Bufs { key: [0; 32], inp: vec![0; DATA], out: vec![0; DATA + 128], marks: Vec::with_capacity(64) });
    // whatever is set up once and for all
    ct::stop();
    exec(&p, &b, &mut bufs);
    let mut n = [0; 2];
    let mut marks = vec![];
    for (i, s) in [&a, &b].into_iter().enumerate() {
        ct::start(i);
        exec(&p, s, &mut bufs);
        n[i] = ct::seen();
        if i == 0 {
            marks = bufs.marks.clone();
        }
        ct::stop();
    }
    cpu::reset();
    let (x, y) = (ct::log(0, n[0]), ct::log(1, n[1]));
    sim::bump("observed.points", (n[0] + n[1]) as u64);
    if n[0] == ct::CAP {
        sim::probe("observation_cut_short");
    }
    if x == y {
        return;
    }
    let at = x.iter().zip(y).position(|(a, b)| a != b).unwrap_or(n[0].min(n[1]));
    let op = marks.iter().rposition(|&m| m <= at).unwrap_or(0);
    let name = |i: usize| match (p.who, i) {
        (Subject::Derive(_), i) => format!("{:?}", p.ops[i]),
        (_, 0) => "construction".to_string(),
        (_, i) if i <= p.ops.len() => format!("operation {i} ({:?})", p.ops[i - 1]),
        _ => "drop".to_string(),
    };
    let pc = |l: &[ct::Obs], i: usize| match l.get(i).map(|e| e[0]) {
        None => "the end".into(),
        Some(pc) => ct::place(pc).map_or("library code outside the program".into(), |o| format!("pc+{o:#x}")),
    };
    let kind = match (x.get(at), y.get(at)) {
        (Some(a), Some(b)) if a[0] == b[0] => "address",
        _ => "control-flow",
    };
    let before = if at > 0 { pc(x, at - 1) } else { "the start".into() };
    fail!(
        kind,
        "{:?}: the {} of two executions that differ only in secrets differs in {}, after {}: {} against {}",
        p.who,
        if kind == "address" { "memory address accessed or division operand" } else { "sequence of instructions" },
        name(op),
        before,
        pc(x, at),
        pc(y, at)
    );
}
