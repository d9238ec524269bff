//! Simulation kernel: one choice tape decides everything, discrete-event
//! time, event log with digest, fault and state counters.

use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Source of every choice. Recording mode draws from a PRNG seeded with the
/// run's seed; replay mode reads a tape (0, the simplest choice, beyond its end).
pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub tape: Vec<u64>,
    spill: Option<std::fs::File>,
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { state: mix(seed ^ 0xD57), replay: None, tape: Vec::new(), spill: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(tape), tape: Vec::new(), spill: None }
    }
    /// Write every draw to a file as it happens (for runs that kill the process).
    pub fn spill_to(&mut self, f: std::fs::File) {
        self.spill = Some(f);
    }
    fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            None => {
                self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
                let r = mix(self.state);
                if n == 0 { r } else { r % n }
            }
            Some(t) => {
                let r = t.get(self.tape.len()).copied().unwrap_or(0);
                if n == 0 { r } else { r % n }
            }
        };
        self.tape.push(v);
        if self.tape.len() > MAX_CHOICES {
            panic_any(Runaway);
        }
        if let Some(f) = &mut self.spill {
            use std::io::Write;
            let _ = f.write_all(format!("{v} ").as_bytes());
        }
        v
    }
}

/// No run comes near this many choices; a replayed (shrunk) tape that does is
/// given up.
const MAX_CHOICES: usize = 1 << 20;
struct Runaway;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub const STATE_BITS: usize = 1 << 23;

/// Counters kept across the runs of one worker.
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub sim_us: u64,
    pub events: u64,
}
impl Stats {
    pub fn new() -> Self {
        Stats { counts: BTreeMap::new(), states: vec![0; STATE_BITS / 64], sim_us: 0, events: 0 }
    }
}

pub struct Sim {
    src: Src,
    pub now: u64,
    digest: u64,
    trace: Option<Vec<String>>,
    stats: Stats,
    pub faults: u64,
    pub ops: u64,
    pub steps: u64,
}

static SIM: AtomicPtr<Sim> = AtomicPtr::new(std::ptr::null_mut());

fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let p = SIM.load(SeqCst);
    assert!(!p.is_null(), "no simulation running");
    // SAFETY: exactly one thread runs at a time (baton), and `f` never
    // re-enters `with`.
    f(unsafe { &mut *p })
}

/// A choice in `0..n`; 0 is the simplest.
pub fn d(n: u64) -> u64 {
    with(|s| s.src.draw(n.max(1)))
}
pub fn du(n: usize) -> usize {
    d(n as u64) as usize
}
/// A full 64-bit choice.
pub fn d64() -> u64 {
    with(|s| s.src.draw(0))
}
/// True with probability `p / q`; false is the simple choice.
pub fn chance(p: u64, q: u64) -> bool {
    d(q) >= q - p
}
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + d(hi - lo + 1)
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[du(v.len())]
}
/// Index drawn with the given weights.
pub fn weighted(w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut x = d(t as u64) as u32;
    for (i, &k) in w.iter().enumerate() {
        if x < k {
            return i;
        }
        x -= k;
    }
    0
}

/// Pseudo-random bytes from one drawn seed, or a special pattern.
pub fn bytes(n: usize) -> Vec<u8> {
    match d(12) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => {
            let mut v = vec![0; n];
            if n > 0 {
                let b = du(8 * n);
                v[b / 8] |= 1 << (b % 8);
            }
            v
        }
        4 => {
            let p = d(256) as u8;
            vec![p; n]
        }
        _ => expand(d64(), n),
    }
}
pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while v.len() < n {
        v.extend_from_slice(&mix(seed ^ mix(i)).to_le_bytes());
        i += 1;
    }
    v.truncate(n);
    v
}
pub fn diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(" (first difference at byte {i} of {})", a.len()),
        None => format!(" (lengths {} and {})", a.len(), b.len()),
    }
}
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    let mut c = b.chunks_exact(8);
    for w in c.by_ref() {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    for &x in c.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

/// A length from the distribution used everywhere: short, around block and
/// parallel-batch multiples, occasionally long. `cap` bounds it.
pub fn len(cap: usize) -> usize {
    let n = match d(16) {
        0 => du(4),
        1..=3 => du(80),
        4..=5 => {
            // around multiples of the block size
            let m = du(20);
            (64 * m + du(9)).saturating_sub(4)
        }
        6..=7 => {
            let m = 1 + du(6);
            (256 * m + du(131)).saturating_sub(65)
        }
        8..=9 => {
            let m = 1 + du(3);
            (1024 * m + du(131)).saturating_sub(65)
        }
        10..=12 => du(600),
        13..=14 => du(2300),
        _ => du(9000),
    };
    n.min(cap)
}

pub fn now() -> u64 {
    with(|s| s.now)
}
pub fn tracing() -> bool {
    with(|s| s.trace.is_some())
}

/// Record an event: always in the digest, as text only when tracing.
pub fn ev(tag: &'static str, nums: &[u64], text: impl FnOnce() -> String) {
    with(|s| {
        let mut h = s.digest ^ s.now;
        h = mix(h ^ hash(tag.as_bytes()));
        for &n in nums {
            h = mix(h ^ n);
        }
        s.digest = h;
        s.steps += 1;
        if let Some(t) = &mut s.trace {
            if t.len() < 4000 {
                t.push(format!("t={}us #{} {tag} {}", s.now, s.steps, text()));
            }
        }
    })
}
/// Text-only trace line (never affects the digest).
pub fn note(text: impl FnOnce() -> String) {
    with(|s| {
        if let Some(t) = &mut s.trace {
            if t.len() < 4000 {
                t.push(format!("t={}us . {}", s.now, text()));
            }
        }
    })
}
/// An injected fault actually fired.
pub fn fault(kind: &'static str) {
    with(|s| {
        s.faults += 1;
        *s.stats.counts.entry(kind).or_insert(0) += 1;
    })
}
/// A rare condition was reached.
pub fn probe(kind: &'static str) {
    with(|s| *s.stats.counts.entry(kind).or_insert(0) += 1)
}
pub fn bump(kind: &'static str, n: u64) {
    with(|s| *s.stats.counts.entry(kind).or_insert(0) += n)
}
/// The largest value seen (`kind` begins with `max.`).
pub fn most(kind: &'static str, n: u64) {
    with(|s| {
        let e = s.stats.counts.entry(kind).or_insert(0);
        *e = (*e).max(n);
    })
}
pub fn op() {
    with(|s| s.ops += 1)
}
/// Mark an abstract state / transition as visited.
pub fn sig(parts: &[u64]) {
    let mut h = 0x51u64;
    for &p in parts {
        h = mix(h ^ p);
    }
    let i = (h as usize) % STATE_BITS;
    with(|s| s.stats.states[i / 64] |= 1 << (i % 64))
}

pub fn fail(class: &str, msg: impl Into<String>) -> ! {
    let v = Violation { class: class.into(), msg: msg.into() };
    note(|| format!("VIOLATION [{}] {}", v.class, v.msg));
    panic_any(v)
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($a:tt)*) => { $crate::sim::fail($class, format!($($a)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => { if !$c { $crate::sim::fail($class, format!($($a)*)) } };
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub msg: String,
    pub file: String,
    pub line: u32,
}
static LAST_PANIC: Mutex<Option<PanicInfo>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        crate::mem::confine::give_up();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<other>".into()
        };
        let (file, line) = i.location().map_or((String::new(), 0), |l| (l.file().to_string(), l.line()));
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(PanicInfo { msg, file, line });
    }));
}
fn take_panic() -> PanicInfo {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or(PanicInfo { msg: "?".into(), file: "?".into(), line: 0 })
}

/// Panics the simulator itself throws into library callbacks.
pub struct Injected;

/// What came out of a call that may panic.
pub enum Out<R> {
    Ok(R),
    Panic(PanicInfo),
    Injected,
}
/// Run library code that may panic; violations pass through.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Out<R> {
    match catch_unwind(AssertUnwindSafe(|| crate::mem::confine::call(f))) {
        Ok(r) => Out::Ok(r),
        Err(p) if p.is::<Violation>() || p.is::<Runaway>() => resume_unwind(p),
        Err(p) if p.is::<Injected>() => Out::Injected,
        Err(_) => Out::Panic(take_panic()),
    }
}
/// Run library code that must not panic.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match guarded(f) {
        Out::Ok(r) => r,
        Out::Panic(p) => fail("panic", format!("{what} panicked: {} at {}:{}", p.msg, p.file, p.line)),
        Out::Injected => panic!("stray injected panic in {what}"),
    }
}

pub enum Verdict {
    Held,
    Violated(Violation),
    HarnessError(String),
}

pub struct RunOut {
    pub verdict: Verdict,
    pub tape: Vec<u64>,
    pub digest: u64,
    pub trace: Vec<String>,
    pub faults: u64,
    pub ops: u64,
    pub now: u64,
}

/// Execute one simulated run.
pub fn execute(src: Src, trace: bool, stats: &mut Stats, body: &dyn Fn()) -> RunOut {
    let mut sim = Sim {
        src,
        now: 0,
        digest: 0,
        trace: trace.then(Vec::new),
        stats: std::mem::replace(stats, Stats { counts: BTreeMap::new(), states: Vec::new(), sim_us: 0, events: 0 }),
        faults: 0,
        ops: 0,
        steps: 0,
    };
    SIM.store(&mut sim, SeqCst);
    crate::cpu::reset();
    crate::hook::reset();
    let r = catch_unwind(AssertUnwindSafe(body));
    crate::mem::confine::set(false);
    crate::hook::reset();
    crate::cpu::reset();
    SIM.store(std::ptr::null_mut(), SeqCst);
    let verdict = match r {
        Ok(()) => Verdict::Held,
        Err(p) => match p.downcast::<Violation>() {
            Ok(v) => Verdict::Violated(*v),
            Err(p) if p.is::<Runaway>() => Verdict::HarnessError("the run drew too many choices".into()),
            Err(_) => {
                let i = take_panic();
                // A panic raised inside the library where none is allowed (or
                // by an `expect` of the thin driving layer on its results) is
                // a violation; one raised in the simulator is its own bug.
                let lib = ["/repo/", "/registry/", "/rustc/", "library/", "ciphers.rs", "rngs.rs"];
                if lib.iter().any(|l| i.file.contains(l)) {
                    Verdict::Violated(Violation {
                        class: "panic".into(),
                        msg: format!("library panicked: {} at {}:{}", i.msg, i.file, i.line),
                    })
                } else {
                    Verdict::HarnessError(format!("{} at {}:{}", i.msg, i.file, i.line))
                }
            }
        },
    };
    sim.stats.sim_us += sim.now;
    sim.stats.events += sim.steps;
    *stats = sim.stats;
    RunOut {
        verdict,
        tape: sim.src.tape,
        digest: sim.digest,
        trace: sim.trace.unwrap_or_default(),
        faults: sim.faults,
        ops: sim.ops,
        now: sim.now,
    }
}

/// Discrete-event queue ordered by (time, sequence).
pub struct Queue<E> {
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    slots: Vec<Option<E>>,
    seq: u64,
}
impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { heap: BinaryHeap::new(), slots: Vec::new(), seq: 0 }
    }
    /// Schedule `e` after `delay` microseconds of simulated time.
    pub fn after(&mut self, delay: u64, e: E) {
        self.seq += 1;
        self.slots.push(Some(e));
        self.heap.push(Reverse((now() + delay, self.seq, self.slots.len() - 1)));
    }
    pub fn pop(&mut self) -> Option<E> {
        let Reverse((t, _, i)) = self.heap.pop()?;
        with(|s| s.now = s.now.max(t));
        self.slots[i].take()
    }
    pub fn is_empty(&self) -> bool {
        self.heap.is_empty()
    }
}

/// Message-level network faults of one run (swarm style: a random subset is on).
pub struct Net {
    pub drop: u64,
    pub dup: u64,
    pub reorder: u64,
    pub slow: u64,
    pub partition_until: u64,
}
impl Net {
    pub fn draw() -> Net {
        Net {
            drop: [0, 1, 3][du(3)],
            dup: [0, 1, 2][du(3)],
            reorder: [0, 2, 5][du(3)],
            slow: [0, 1][du(2)],
            partition_until: 0,
        }
    }
    pub fn calm() -> Net {
        Net { drop: 0, dup: 0, reorder: 0, slow: 0, partition_until: 0 }
    }
    pub fn partition(&mut self, dur: u64) {
        fault("fault.net.partition");
        self.partition_until = now() + dur;
    }
    /// Delays of the copies of one message that arrive (none: lost).
    pub fn route(&mut self) -> Vec<u64> {
        if now() < self.partition_until {
            fault("fault.net.partition_loss");
            return vec![];
        }
        if self.drop > 0 && chance(self.drop, 16) {
            fault("fault.net.drop");
            return vec![];
        }
        let mut base = 100 + d(50);
        if self.reorder > 0 && chance(self.reorder, 16) {
            fault("fault.net.reorder");
            base += 50 + d(2000);
        }
        if self.slow > 0 && chance(1, 16) {
            fault("fault.net.stall");
            base += 20_000 + d(100_000);
        }
        let mut v = vec![base];
        if self.dup > 0 && chance(self.dup, 16) {
            fault("fault.net.dup");
            v.push(base + 1 + d(3000));
        }
        v
    }
}

/// A tiny durable store with two slots per cell and a sync operation. Only
/// synced data survives a crash, and a crash can also tear or lose the write
/// that was in flight.
#[derive(Clone, Default)]
pub struct Disk {
    durable: Vec<u8>,
    older: Vec<u8>,
    pending: Option<Vec<u8>>,
}
impl Disk {
    pub fn write(&mut self, b: &[u8]) {
        self.pending = Some(b.to_vec());
    }
    pub fn sync(&mut self) {
        if let Some(p) = self.pending.take() {
            self.older = std::mem::replace(&mut self.durable, p);
        }
    }
    /// Power loss. Returns what the medium holds afterwards.
    pub fn crash(&mut self) {
        if let Some(p) = self.pending.take() {
            match d(3) {
                0 => fault("fault.disk.lost_write"),
                1 => {
                    fault("fault.disk.late_write");
                    self.older = std::mem::replace(&mut self.durable, p);
                }
                _ => {
                    // torn: the record's checksum exposes it, the older copy is used
                    fault("fault.disk.torn_write");
                }
            }
        } else if !self.older.is_empty() && chance(1, 6) {
            fault("fault.disk.stale_read");
            self.durable = self.older.clone();
        }
    }
    pub fn read(&self) -> &[u8] {
        &self.durable
    }
}
