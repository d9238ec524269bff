//! Caller threads under the simulator: real threads, exactly one of which
//! runs at a time. The choice tape decides who, at every scheduling point.

use crate::sim;
use std::any::Any;
use std::cell::Cell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Condvar, Mutex, MutexGuard};

struct Baton {
    /// thread allowed to run; `usize::MAX`: the main thread
    turn: usize,
    live: Vec<bool>,
}
static BATON: Mutex<Baton> = Mutex::new(Baton { turn: usize::MAX, live: Vec::new() });
static TURN: Condvar = Condvar::new();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn lock() -> MutexGuard<'static, Baton> {
    BATON.lock().unwrap_or_else(|e| e.into_inner())
}
fn wait_for(me: usize) {
    let mut b = lock();
    while b.turn != me {
        b = TURN.wait(b).unwrap_or_else(|e| e.into_inner());
    }
}
/// Who runs next; `None` when nobody is left.
fn choose(b: &Baton) -> Option<usize> {
    let live: Vec<usize> = (0..b.live.len()).filter(|&i| b.live[i]).collect();
    // a run that is being given up still has to hand over to the others
    (!live.is_empty()).then(|| live[catch_unwind(|| sim::du(live.len())).unwrap_or(0)])
}

/// Offer the baton to the other caller threads.
pub fn yield_point() {
    let me = ME.get();
    if me == usize::MAX {
        return;
    }
    let next = {
        let mut b = lock();
        let n = choose(&b).unwrap_or(me);
        if n != me {
            sim::probe("switch.thread");
        }
        // from here on the other thread may run: touch nothing
        b.turn = n;
        n
    };
    if next != me {
        TURN.notify_all();
        wait_for(me);
    }
}

/// Whether the current code runs on a simulated caller thread.
pub fn inside() -> bool {
    ME.get() != usize::MAX
}

/// Run the bodies as caller threads until all have finished. The first panic
/// (in thread order) is passed on.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    let n = bodies.len();
    {
        let mut b = lock();
        b.turn = usize::MAX;
        b.live = vec![true; n];
    }
    let mut results: Vec<Option<Box<dyn Any + Send>>> = Vec::new();
    std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, f)| {
                s.spawn(move || {
                    ME.set(i);
                    wait_for(i);
                    let r = catch_unwind(AssertUnwindSafe(f)).err();
                    let mut b = lock();
                    b.live[i] = false;
                    b.turn = choose(&b).unwrap_or(usize::MAX);
                    drop(b);
                    TURN.notify_all();
                    r
                })
            })
            .collect();
        {
            let mut b = lock();
            b.turn = choose(&b).unwrap_or(usize::MAX);
        }
        TURN.notify_all();
        wait_for(usize::MAX);
        for h in hs {
            results.push(h.join().unwrap_or_else(|e| Some(e)));
        }
    });
    for r in results.into_iter().flatten() {
        std::panic::resume_unwind(r);
    }
}
