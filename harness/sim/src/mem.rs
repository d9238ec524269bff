//! Memory seams: arenas fenced by unmapped pages, canaries around every
//! buffer handed to the library, and a global allocator that can look at a
//! block at the instant it is released.

use crate::sim::{chance, du, fail, sig};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

const PAGE: usize = 4096;
pub const ARENA: usize = 96 * PAGE;
const CANARY: usize = 192;

#[derive(Clone, Copy)]
struct Arena(usize);
static ARENAS: Mutex<Vec<Arena>> = Mutex::new(Vec::new());

fn arena(id: usize) -> usize {
    let mut v = ARENAS.lock().unwrap_or_else(|e| e.into_inner());
    while v.len() <= id {
        // SAFETY: fresh anonymous mapping, middle made accessible
        let p = unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                ARENA + 2 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let data = (p as usize + PAGE) as *mut libc::c_void;
            assert_eq!(libc::mprotect(data, ARENA, libc::PROT_READ | libc::PROT_WRITE), 0);
            data as usize
        };
        v.push(Arena(p));
    }
    v[id].0
}

/// A buffer inside a fenced arena.
pub struct Buf {
    lo: usize,
    pub at: usize,
    pub len: usize,
    hi: usize,
    salt: u8,
    pub place: u64,
}

fn canary(a: usize, salt: u8) -> u8 {
    (a as u8).wrapping_mul(31) ^ 0xC5 ^ salt
}

impl Buf {
    /// Place a buffer of `len` bytes in arena `id`, at a drawn position.
    /// `align` restricts the alignment.
    pub fn new(id: usize, len: usize, align: usize) -> Buf {
        assert!(len + 1024 <= ARENA);
        let base = arena(id);
        let place = crate::sim::d(4);
        let off = match place {
            0 => 512,
            1 => (ARENA - len) / align * align,
            2 => 0,
            _ => 512 + du(65) / align * align,
        };
        let at = base + off;
        let lo = base.max(at.saturating_sub(CANARY));
        let hi = (base + ARENA).min(at + len + CANARY);
        let salt = (len as u8) ^ (place as u8);
        for a in (lo..at).chain(at + len..hi) {
            // SAFETY: inside the arena
            unsafe { *(a as *mut u8) = canary(a, salt) };
        }
        sig(&[0xB0F, place, (at % 64) as u64, (len % 64) as u64]);
        Buf { lo, at, len, hi, salt, place }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice(&self) -> &mut [u8] {
        // SAFETY: inside the arena; one live user per arena id
        unsafe { std::slice::from_raw_parts_mut(self.at as *mut u8, self.len) }
    }
    pub fn check(&self, what: &str) {
        for a in (self.lo..self.at).chain(self.at + self.len..self.hi) {
            // SAFETY: inside the arena
            let v = unsafe { *(a as *const u8) };
            if v != canary(a, self.salt) {
                let rel = a as i64 - self.at as i64;
                fail("containment", format!("{what}: byte at offset {rel} of a {}-byte buffer was modified", self.len));
            }
        }
    }
}

/// Plain or fenced buffers: ordinary scenarios use the fences now and then.
pub fn maybe_fenced() -> bool {
    chance(1, 4)
}

// ---------------------------------------------------------------------------

/// Global allocator with one watched block.
pub struct Watch;
static WATCH: AtomicUsize = AtomicUsize::new(0);
static CAPTURED: AtomicUsize = AtomicUsize::new(0);
static mut CAPTURE: [u8; 16384] = [0; 16384];

// A region handing out the same addresses on every pass.
const REPEAT: usize = 1 << 22;
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

/// Allocations made by `f` get the same addresses every time this is called.
/// Nothing allocated inside may live on afterwards.
pub fn repeatable<R>(f: impl FnOnce() -> R) -> R {
    let mut b = BASE.load(SeqCst);
    if b == 0 {
        // SAFETY: fresh anonymous mapping
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                REPEAT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        b = p as usize;
        BASE.store(b, SeqCst);
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NEXT.store(0, SeqCst);
        }
    }
    let _off = Off;
    NEXT.store(b, SeqCst);
    f()
}
fn from_region(l: Layout) -> *mut u8 {
    let at = NEXT.load(SeqCst).next_multiple_of(l.align().max(64));
    if at + l.size() > BASE.load(SeqCst) + REPEAT {
        return std::ptr::null_mut();
    }
    NEXT.store(at + l.size(), SeqCst);
    at as *mut u8
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        confine::allocating(l.size());
        if NEXT.load(SeqCst) != 0 {
            return from_region(l);
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        confine::allocating(l.size());
        if NEXT.load(SeqCst) != 0 {
            let p = from_region(l);
            if !p.is_null() {
                unsafe { p.write_bytes(0, l.size()) };
            }
            return p;
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p as usize == WATCH.load(SeqCst) && p as usize != 0 {
            WATCH.store(0, SeqCst);
            let n = l.size().min(16384);
            unsafe {
                for i in 0..n {
                    let v = std::ptr::read_volatile(p.add(i));
                    std::ptr::write_volatile((&raw mut CAPTURE as *mut u8).add(i), v);
                }
            }
            CAPTURED.store(n + 1, SeqCst);
        }
        let b = BASE.load(SeqCst);
        if (b..b + REPEAT).contains(&(p as usize)) {
            return;
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        confine::allocating(n);
        let b = BASE.load(SeqCst);
        if NEXT.load(SeqCst) != 0 || (b..b + REPEAT).contains(&(p as usize)) {
            // SAFETY: a block moves
            unsafe {
                let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                return q;
            }
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Record the contents of the heap block at `p` when it is released.
pub fn watch(p: *const u8) {
    CAPTURED.store(0, SeqCst);
    WATCH.store(p as usize, SeqCst);
}
/// The contents of the watched block at the instant of its release.
pub fn captured() -> Option<Vec<u8>> {
    WATCH.store(0, SeqCst);
    match CAPTURED.swap(0, SeqCst) {
        0 => None,
        n => {
            let mut v = vec![0u8; n - 1];
            for (i, b) in v.iter_mut().enumerate() {
                // SAFETY: the simulator is the only user
                *b = unsafe { std::ptr::read_volatile((&raw const CAPTURE as *const u8).add(i)) };
            }
            Some(v)
        }
    }
}

/// A small machine: library calls run on a little stack of their own and may
/// not ask for memory.
pub mod confine {
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

    /// Stack a library call may use.
    pub const BUDGET: usize = 128 << 10;

    static ON: AtomicBool = AtomicBool::new(false);
    static INSIDE: AtomicBool = AtomicBool::new(false);
    static TAINT: AtomicBool = AtomicBool::new(false);
    static ASKED: AtomicUsize = AtomicUsize::new(0);
    pub static CALLS: AtomicUsize = AtomicUsize::new(0);
    pub static DEEPEST: AtomicUsize = AtomicUsize::new(0);

    pub fn set(on: bool) {
        ON.store(on, SeqCst);
        INSIDE.store(false, SeqCst);
    }
    pub(super) fn allocating(n: usize) {
        if INSIDE.load(SeqCst) {
            ASKED.fetch_add(n.max(1), SeqCst);
        }
    }
    /// Harness code running inside a library call: its own needs do not count.
    pub fn pause<R>(f: impl FnOnce() -> R) -> R {
        let was = INSIDE.swap(false, SeqCst);
        // a panic comes through with nothing armed
        let armed = crate::ct::armed(false);
        if was {
            TAINT.store(true, SeqCst);
        }
        let r = f();
        INSIDE.store(was, SeqCst);
        crate::ct::armed(armed);
        r
    }
    /// The call is unwinding: nothing counts from here on.
    pub fn give_up() {
        crate::ct::armed(false);
        if INSIDE.swap(false, SeqCst) {
            TAINT.store(true, SeqCst);
        }
    }

    #[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
    fn on_small_stack<R>(f: impl FnOnce() -> R) -> (R, usize) {
        (f(), 0)
    }
    #[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
    fn on_small_stack<R>(f: impl FnOnce() -> R) -> (R, usize) {
        use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};
        const SIZE: usize = 1 << 20;
        const GUARD: usize = 1 << 16;
        const PAINT: u64 = 0x5AFE_57AC_0DD5_EA1D;
        static BASE: AtomicUsize = AtomicUsize::new(0);
        let mut base = BASE.load(SeqCst);
        // SAFETY: a private mapping with an inaccessible lower end
        unsafe {
            if base == 0 {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    SIZE + GUARD,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                assert_eq!(libc::mprotect(p, GUARD, libc::PROT_NONE), 0);
                base = p as usize + GUARD;
                BASE.store(base, SeqCst);
                std::slice::from_raw_parts_mut(base as *mut u64, SIZE / 8).fill(PAINT);
            }
        }
        struct Job<F, R> {
            f: Option<F>,
            r: Option<std::thread::Result<R>>,
        }
        unsafe extern "C" fn enter<F: FnOnce() -> R, R>(j: *mut Job<F, R>) {
            // SAFETY: called once, with a live job
            let j = unsafe { &mut *j };
            let f = j.f.take().unwrap();
            j.r = Some(catch_unwind(AssertUnwindSafe(f)));
        }
        fn entry<F: FnOnce() -> R, R>(_: &Job<F, R>) -> unsafe extern "C" fn(*mut Job<F, R>) {
            enter::<F, R>
        }
        let mut job = Job { f: Some(f), r: None };
        let call = entry(&job);
        let top = base + SIZE;
        // SAFETY: runs `enter` on the other stack and comes back; nothing
        // unwinds out of it
        unsafe {
            std::arch::asm!(
                "mov r12, rsp",
                "mov rsp, {top}",
                "call {call}",
                "mov rsp, r12",
                top = in(reg) top,
                call = in(reg) call,
                inout("rdi") &raw mut job => _,
                out("r12") _,
                clobber_abi("C"),
            );
        }
        // SAFETY: the mapping above
        let words = unsafe { std::slice::from_raw_parts_mut(base as *mut u64, SIZE / 8) };
        // far below the budget only when something went there
        let near = (SIZE - BUDGET) / 8;
        let from = if words[near..near + 64].iter().any(|&w| w != PAINT) { 0 } else { near };
        let low = from + words[from..].chunks(64).take_while(|c| c.iter().fold(0, |a, &w| a | (w ^ PAINT)) == 0).count() * 64;
        words[low..].fill(PAINT);
        let depth = SIZE - low * 8;
        match job.r.take().unwrap() {
            Ok(r) => (r, depth),
            Err(p) => resume_unwind(p),
        }
    }

    /// Run a library call; on a small machine, check what it needed.
    pub fn call<R>(f: impl FnOnce() -> R) -> R {
        if crate::hook::entering() {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            match (crate::hook::left(), r) {
                (Some(p), _) | (None, Err(p)) => std::panic::resume_unwind(p),
                (None, Ok(r)) => return r,
            }
        }
        if !ON.load(SeqCst) || INSIDE.load(SeqCst) {
            return f();
        }
        ASKED.store(0, SeqCst);
        TAINT.store(false, SeqCst);
        CALLS.fetch_add(1, SeqCst);
        struct Leave;
        impl Drop for Leave {
            fn drop(&mut self) {
                INSIDE.store(false, SeqCst);
            }
        }
        let (r, depth) = {
            let _leave = Leave;
            on_small_stack(|| {
                INSIDE.store(true, SeqCst);
                let r = f();
                INSIDE.store(false, SeqCst);
                r
            })
        };
        let asked = ASKED.load(SeqCst);
        if asked > 0 {
            crate::sim::fail("heap", format!("a library call asked the allocator for {asked} bytes"));
        }
        if !TAINT.load(SeqCst) {
            DEEPEST.fetch_max(depth, SeqCst);
            if depth > BUDGET {
                crate::sim::fail("stack", format!("a library call used {depth} bytes of stack"));
            }
        }
        r
    }
}
