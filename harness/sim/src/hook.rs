//! Scheduling points inside library operations: the CPU feature consultation
//! (and, in block sessions, the block callbacks) hand control to the
//! simulator, which may migrate the node, run a nested operation on another
//! object or switch caller threads.

use crate::{ct, sim};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

thread_local! {
    static STASH: RefCell<Option<Box<dyn Any + Send>>> = const { RefCell::new(None) };
    static NESTED: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
/// 0 off, otherwise chance out of 16 that a consultation migrates the node
static MIGRATE: AtomicU32 = AtomicU32::new(0);
static PREEMPT: AtomicBool = AtomicBool::new(false);
static YIELD: AtomicBool = AtomicBool::new(false);

pub fn reset() {
    MIGRATE.store(0, SeqCst);
    YIELD.store(false, SeqCst);
    PREEMPT.store(false, SeqCst);
    ct::armed(false);
    STASH.with(|s| *s.borrow_mut() = None);
    NESTED.with(|n| *n.borrow_mut() = None);
    crate::cpu::set_hook(false);
}
/// Live migration during operations with chance `p`/16 per consultation.
pub fn migrate(p: u32) {
    MIGRATE.store(p, SeqCst);
    refresh();
}
/// Run `f` (once, then cleared) at the next consultation in this thread.
pub fn nested(f: Option<Box<dyn FnMut()>>) {
    NESTED.with(|n| *n.borrow_mut() = f);
    refresh();
}
/// Offer the baton to other threads at every consultation.
pub fn yielding(on: bool) {
    YIELD.store(on, SeqCst);
    refresh();
}
fn refresh() {
    let on = MIGRATE.load(SeqCst) > 0 || YIELD.load(SeqCst) || NESTED.with(|n| n.borrow().is_some());
    crate::cpu::set_hook(on);
}
pub fn consulted(_init: bool) {
    crate::mem::confine::pause(consult)
}
fn consult() {
    let p = MIGRATE.load(SeqCst);
    if p > 0 && crate::sim::chance(p as u64, 16) {
        let to = crate::cpu::draw();
        crate::sim::fault("fault.cpu.migrate_mid_operation");
        crate::sim::note(|| format!("migrate mid-operation to {}", crate::cpu::LEVELS[to].0));
        crate::cpu::level(to);
    }
    point();
}
/// Preempt library calls of the current thread at drawn memory accesses.
pub fn preempting(on: bool) {
    PREEMPT.store(on && ct::PREEMPTS, SeqCst);
}
/// When the call now beginning is to be interrupted.
pub fn entering() -> bool {
    if !PREEMPT.load(SeqCst) {
        return false;
    }
    let was = ct::armed(false);
    if was || sim::d(3) == 0 {
        ct::armed(was);
        return false;
    }
    ct::fuse(1 + sim::d(1 << sim::d(14)));
    ct::armed(true);
    true
}
/// What went wrong during a preemption, for the end of the call (nothing may
/// unwind through the preempted code).
pub fn left() -> Option<Box<dyn Any + Send>> {
    ct::armed(false);
    STASH.with(|s| s.borrow_mut().take())
}
/// Called by instrumented code when the fuse has burnt down.
pub extern "C" fn preempted() {
    ct::armed(false);
    // a refusal on its way out: whatever runs in between may not panic
    if std::thread::panicking() {
        return;
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        sim::fault("fault.preemption.access");
        sim::note(|| "preempted in the middle of a library call".into());
        point();
        if sim::d(2) == 0 {
            ct::fuse(1 + sim::d(1 << sim::d(12)));
            true
        } else {
            false
        }
    }));
    match r {
        Ok(again) => {
            ct::armed(again);
        }
        Err(p) => STASH.with(|s| *s.borrow_mut() = Some(p)),
    }
}
/// A scheduling point (also called from block callbacks).
pub fn point() {
    let f = NESTED.with(|n| n.borrow_mut().take());
    if let Some(mut f) = f {
        f();
    }
    if YIELD.load(SeqCst) {
        crate::threads::yield_point();
    }
}
