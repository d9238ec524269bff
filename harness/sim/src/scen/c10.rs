//! C10: what is left in memory when an object dies, at any point of any
//! history, by any way of dying. Two independent lives of the same type must
//! leave the same bytes behind.

use crate::ciphers::*;
use crate::common::*;
use crate::cpu;
use crate::hook;
use crate::mem;
use crate::model::Alg;
#[cfg(feature = "rng")]
use crate::rngs::{self, Gen, GenModel};
use crate::sim::{self, Injected, Out, chance, d, du};
use crate::{ensure, fail};

/// What one life left behind.
struct Remains {
    bytes: Vec<u8>,
    core: (usize, usize),
    /// alignment of the type
    align: usize,
}

fn snap(p: usize, n: usize) -> Vec<u8> {
    // SAFETY: the object (or its memory) is there
    (0..n).map(|i| unsafe { std::ptr::read_volatile((p + i) as *const u8) }).collect()
}

/// Ways to die.
#[derive(Copy, Clone, PartialEq, Debug)]
enum End {
    /// scope exit on the heap: box released
    Heap,
    /// dropped in place
    InPlace,
    /// box released while unwinding out of the object's own failed operation
    Unwind,
    /// released together with others
    Among,
}

/// Drop a boxed object the given way and return its last bytes.
fn bury<T: ?Sized + 'static>(b: Box<T>, end: End, last_op: impl FnOnce(&mut T)) -> Vec<u8> {
    let n = size_of_val(&*b);
    let p = &*b as *const T as *const u8;
    match end {
        End::Heap => {
            mem::watch(p);
            drop(b);
            mem::captured().expect("release seen")
        }
        End::Among => {
            let v = vec![b];
            mem::watch(p);
            drop(v);
            mem::captured().expect("release seen")
        }
        End::InPlace => {
            let raw = Box::into_raw(b);
            // SAFETY: dropped once, then its memory released
            unsafe {
                let l = std::alloc::Layout::for_value(&*raw);
                std::ptr::drop_in_place(raw);
                let v = snap(p as usize, n);
                std::alloc::dealloc(raw as *mut u8, l);
                v
            }
        }
        End::Unwind => {
            mem::watch(p);
            let r = sim::guarded(move || {
                let mut b = b;
                last_op(&mut b);
                std::panic::panic_any(Injected)
            });
            sim::fault("fault.unwind.drop");
            if let Out::Ok(()) = r {
                panic!("no unwind");
            }
            mem::captured().expect("release seen")
        }
    }
}

fn life_stream(alg: Alg, end: End, who: &str) -> Remains {
    let c = Creds::draw(alg);
    let mut a = Actor::new(c, who);
    let align = align_of_val(&*a.obj);
    let mix = Mix { refuse: 1, edge: 3, cap: 700, ..RANDOM_ACCESS };
    if chance(1, 5) && alg.seekable() {
        let at = alg.max_ctr() * 64 - d(300) as u128;
        a.seek(Num::U128, at, false);
    }
    for _ in 0..du(8) {
        if chance(1, 8) {
            cpu::level(cpu::draw());
        }
        if chance(1, 10) {
            // replaced by a new object in the same place
            let fresh = Creds::draw(alg);
            let mut o = fresh.make();
            swap_objects(&mut *a.obj, &mut *o);
            drop(o);
            a.m = fresh.model();
            a.c = fresh;
            a.pos = 0;
        } else {
            a.act(&mix);
        }
    }
    let core = a.obj.core_span();
    let seekable = alg.seekable();
    let bytes = bury(a.obj, end, |o| {
        // the failing operation
        match d(3) {
            0 if seekable => {
                let _ = o.seek(Num::U128, u128::MAX, true);
            }
            1 => {
                let _ = o.call(Form::B2b, &[1, 2, 3], &mut [0; 2]);
            }
            _ => {
                let mut b = vec![0; 1 + du(100)];
                let _ = o.call(Form::TryInPlace, &[], &mut b);
            }
        }
    });
    Remains { bytes, core, align }
}

/// Exchange the contents of two objects of the same type.
fn swap_objects(a: &mut dyn Obj, b: &mut dyn Obj) {
    let n = size_of_val(a);
    assert_eq!(n, size_of_val(b));
    // SAFETY: same concrete type, both valid, not overlapping
    unsafe { std::ptr::swap_nonoverlapping(a as *mut dyn Obj as *mut u8, b as *mut dyn Obj as *mut u8, n) };
}

struct Steps {
    plan: Vec<Step>,
    fail: bool,
    buf: Vec<Vec<u8>>,
}
impl Script for Steps {
    fn next(&mut self, par: usize) -> Step {
        match self.plan.pop() {
            Some(Step::Tail(k)) => Step::Tail(k % par),
            Some(s) => s,
            None if self.fail => Step::Panic,
            None => Step::Stop,
        }
    }
    fn target(&mut self, n: usize) -> *mut u8 {
        self.buf.push(vec![0; n]);
        self.buf.last_mut().unwrap().as_mut_ptr()
    }
    fn got(&mut self, _: Step, _: &[u8]) {}
}
fn steps(fail: bool) -> Steps {
    let plan = (0..du(5))
        .map(|_| match d(3) {
            0 => Step::Single,
            1 => Step::Par,
            _ => Step::Tail(du(16)),
        })
        .collect();
    Steps { plan, fail, buf: vec![] }
}

fn life_core(alg: Alg, end: End) -> Remains {
    let c = Creds::draw(alg);
    let ctor = d(12);
    let mut core = make_core(alg, &c.key, &c.iv, ctor);
    let n = size_of_val(&*core);
    let align = align_of_val(&*core);
    for _ in 0..du(6) {
        sim::op();
        if chance(1, 8) {
            cpu::level(cpu::draw());
        }
        match d(3) {
            0 if alg.seekable() => {
                core.set_blk(sim::d64() as u128 & (alg.max_ctr() >> 1));
            }
            1 => {
                let mut out = vec![0; alg.block_size() * du(20)];
                core.simple(Simple::WriteBlocks, &[], &mut out);
            }
            _ => {
                let mut s = steps(chance(1, 4));
                core.session(&mut s);
            }
        }
    }
    sim::ev("core", &[c.id()], || format!("{} core dies: {end:?}", c.name()));
    let bytes = bury(core, end, |o| {
        let mut s = steps(true);
        let _ = o.session(&mut s);
    });
    Remains { bytes, core: (0, n), align }
}

#[cfg(feature = "rng")]
fn life_gen(dr: usize, end: End) -> Remains {
    let seed = rngs::draw_seed();
    let (mut g, mut m) = if chance(1, 3) {
        let img: [u8; 49] = sim::bytes(49).try_into().unwrap();
        (Box::new(Gen::restore(dr, &img)), GenModel::parse(dr, &img))
    } else {
        (Box::new(Gen::new(dr, seed)), GenModel::new(dr, seed))
    };
    let base = &*g as *const Gen as usize;
    let (p, n) = g.span();
    for _ in 0..du(8) {
        if chance(1, 8) {
            cpu::level(cpu::draw());
        }
        rngs::step(&mut g, &mut m, "dying generator");
    }
    sim::ev("generator", &[m.pos as u64], || format!("ChaCha{}Rng dies: {end:?}", 2 * dr));
    let bytes = bury(g, end, |_| {});
    Remains { bytes: bytes[p - base..p - base + n].to_vec(), core: (0, n), align: align_of::<u32>() }
}

pub fn run() {
    cpu::level(cpu::draw());
    if chance(1, 4) {
        hook::migrate(3);
    }
    let ends = [End::Heap, End::InPlace, End::Unwind, End::Among];
    for _ in 0..1 + du(3) {
        let end = ends[du(4)];
        let kind = d(if cfg!(feature = "rng") { 5 } else { 4 });
        let alg = draw_alg();
        let (a, b, what) = match kind {
            0 | 1 => {
                let a = life_stream(alg, end, "first life");
                let b = life_stream(alg, end, "second life");
                (a, b, format!("{} stream cipher", alg.name()))
            }
            2 | 3 if alg != Alg::Rc4 => (life_core(alg, end), life_core(alg, end), format!("{} core", alg.name())),
            #[cfg(feature = "rng")]
            4 => {
                let dr = rngs::KINDS[du(3)];
                (life_gen(dr, end), life_gen(dr, end), format!("ChaCha{}Rng", 2 * dr))
            }
            _ => continue,
        };
        sim::op();
        sim::probe("object.buried");
        sim::sig(&[0xA0, kind, alg as u64, end as u64]);
        sim::ev("remains", &[sim::hash(&a.bytes[..a.bytes.len().min(8)])], || format!("{what} ({end:?})"));
        judge(&a, &b, &what, end);
    }
}

fn judge(a: &Remains, b: &Remains, what: &str, end: End) {
    ensure!(a.bytes.len() == b.bytes.len(), "residue", "{what}: sizes differ");
    let n = a.bytes.len();
    let align = a.align.min(8);
    let mut bad: Vec<usize> = vec![];
    for w in (0..n).step_by(align) {
        // Alignment padding belongs to no field and holds whatever the memory
        // held before. It never covers the first byte of an aligned word.
        if a.bytes[w] != b.bytes[w] {
            bad.extend((w..(w + align).min(n)).filter(|&i| a.bytes[i] != b.bytes[i]));
        }
    }
    if cfg!(all(feature = "zchacha", not(feature = "zall"))) {
        // the recorded finding (see known_findings.txt): the generic wrapper
        // of the cipher crate keeps its buffer of unused keystream
        let (before, (at, len)) = (bad.len(), a.core);
        bad.retain(|&i| i >= at && i < at + len);
        if bad.len() != before {
            sim::probe("known.wrapper_buffer_not_zeroized");
        }
    }
    if !bad.is_empty() {
        fail!(
            "residue",
            "{what} ({end:?}): {} of {n} bytes left in memory depend on its secrets or history (offsets {:?}...)",
            bad.len(),
            &bad[..bad.len().min(12)]
        );
    }
}
