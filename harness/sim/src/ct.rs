//! The attacker's view: the sequence of instructions executed and addresses
//! touched by library calls, recorded by single-stepping the processor (every
//! instruction traps to a handler in this process) or, in instrumented builds,
//! by compiler-inserted callbacks at every branch target, load and store.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// no way to observe here
    None,
    Step,
    Cov,
}

/// One observation: program counter and address (or dividend state).
pub type Obs = [u64; 2];
pub const CAP: usize = 1 << 20;

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod imp {
    use super::*;
    use std::sync::atomic::{AtomicU8, Ordering::SeqCst};

    #[unsafe(no_mangle)]
    static mut CT_AT: u64 = 0;
    #[unsafe(no_mangle)]
    static mut CT_END: u64 = 0;
    #[unsafe(no_mangle)]
    static mut CT_ON: u8 = 0;
    /// branch targets reached, in instrumented builds
    #[unsafe(no_mangle)]
    static mut CT_STEPS: u64 = 0;
    /// the thread inside a library call for which `CT_FUSE` counts accesses
    /// and branches down to a preemption (one that has just handed over the
    /// baton may still be executing)
    #[unsafe(no_mangle)]
    static mut CT_ARMED: u64 = 0;
    #[unsafe(no_mangle)]
    static mut CT_FUSE: u64 = 0;

    /// Whether library calls can be preempted at any access.
    pub const PREEMPTS: bool = cfg!(feature = "sancov");
    pub fn armed(on: bool) -> bool {
        // SAFETY: only the thread with the baton comes here
        unsafe {
            let me: u64;
            std::arch::asm!("mov {}, fs:[0]", out(reg) me);
            let was = (&raw const CT_ARMED).read_volatile() == me;
            (&raw mut CT_ARMED).write_volatile(if on { me } else { 0 });
            was
        }
    }
    pub fn fuse(n: u64) {
        // SAFETY: as above
        unsafe { (&raw mut CT_FUSE).write_volatile(n) }
    }

    static mut CT_FROM: u64 = 0;
    static MODE: AtomicU8 = AtomicU8::new(255);
    static mut BUFS: [u64; 2] = [0; 2];

    #[cfg(feature = "sancov")]
    std::arch::global_asm!(
        ".macro ctcb name, arg",
        ".globl \\name",
        ".type \\name, @function",
        "\\name:",
        "mov rax, fs:[0]",
        "cmp qword ptr [rip + CT_ARMED], rax",
        "jne 2f",
        "sub qword ptr [rip + CT_FUSE], 1",
        "jnz 2f",
        "sub rsp, 8",
        "call {fuse}",
        "add rsp, 8",
        "ret",
        "2:",
        "cmp byte ptr [rip + CT_ON], 0",
        "je 1f",
        "mov rax, [rip + CT_AT]",
        "cmp rax, [rip + CT_END]",
        "jae 1f",
        "mov rdx, [rsp]",
        "mov [rax], rdx",
        "mov [rax + 8], \\arg",
        "add rax, 16",
        "mov [rip + CT_AT], rax",
        "1: ret",
        ".endm",
        ".macro ctpc name",
        ".globl \\name",
        ".type \\name, @function",
        "\\name:",
        "xor ecx, ecx",
        "add qword ptr [rip + CT_STEPS], 1",
        "mov rax, fs:[0]",
        "cmp qword ptr [rip + CT_ARMED], rax",
        "jne 2f",
        "sub qword ptr [rip + CT_FUSE], 1",
        "jnz 2f",
        "sub rsp, 8",
        "call {fuse}",
        "add rsp, 8",
        "ret",
        "2:",
        "cmp byte ptr [rip + CT_ON], 0",
        "je 1f",
        "mov rax, [rip + CT_AT]",
        "cmp rax, [rip + CT_END]",
        "jae 1f",
        "mov rdx, [rsp]",
        "mov [rax], rdx",
        "mov [rax + 8], rcx",
        "add rax, 16",
        "mov [rip + CT_AT], rax",
        "1: ret",
        ".endm",
        "ctpc __sanitizer_cov_trace_pc",
        "ctpc __sanitizer_cov_trace_pc_indir",
        "ctcb __sanitizer_cov_load1, rdi",
        "ctcb __sanitizer_cov_load2, rdi",
        "ctcb __sanitizer_cov_load4, rdi",
        "ctcb __sanitizer_cov_load8, rdi",
        "ctcb __sanitizer_cov_load16, rdi",
        "ctcb __sanitizer_cov_store1, rdi",
        "ctcb __sanitizer_cov_store2, rdi",
        "ctcb __sanitizer_cov_store4, rdi",
        "ctcb __sanitizer_cov_store8, rdi",
        "ctcb __sanitizer_cov_store16, rdi",
        "ctcb __sanitizer_cov_trace_div4, rdi",
        "ctcb __sanitizer_cov_trace_div8, rdi",
        fuse = sym crate::hook::preempted,
    );

    /// What an instruction's timing depends on besides its own address.
    #[derive(Clone, Copy)]
    struct Ins {
        rip: u64,
        kind: u8,
        base: u8,
        index: u8,
        scale: u8,
    }
    const PLAIN: u8 = 0;
    const MEM: u8 = 1;
    const STRING: u8 = 2;
    const XLAT: u8 = 3;
    /// division by a register
    const DIVR: u8 = 4;
    /// division by memory
    const DIVM: u8 = 5;
    /// gather or scatter: vector index
    const VSIB: u8 = 6;
    const NOREG: u8 = 16;

    const SLOTS: usize = 1 << 16;
    static mut CACHE: [Ins; SLOTS] = [Ins { rip: 0, kind: 0, base: NOREG, index: NOREG, scale: 0 }; SLOTS];

    /// Decode just enough of the instruction at `p`.
    unsafe fn decode(p: u64) -> Ins {
        let mut ins = Ins { rip: p, kind: PLAIN, base: NOREG, index: NOREG, scale: 0 };
        let mut q = p as *const u8;
        let mut next = || unsafe {
            let v = *q;
            q = q.add(1);
            v
        };
        let mut b = next();
        while matches!(b, 0x66 | 0x67 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0xf0) {
            b = next();
        }
        let (mut rx, mut rb) = (0u8, 0u8);
        let mut vhi = 0u8;
        let mut map = 0u8;
        let vex;
        let op;
        match b {
            0xc5 => {
                next();
                (map, vex) = (1, true);
                op = next();
            }
            0xc4 => {
                let p1 = next();
                next();
                rx = (!p1 >> 6) & 1;
                rb = (!p1 >> 5) & 1;
                (map, vex) = (p1 & 31, true);
                op = next();
            }
            0x62 => {
                let p1 = next();
                next();
                let p3 = next();
                rx = (!p1 >> 6) & 1;
                rb = (!p1 >> 5) & 1;
                vhi = (!p3 >> 3) & 1;
                (map, vex) = (p1 & 7, true);
                op = next();
            }
            _ => {
                if b & 0xf0 == 0x40 {
                    rx = (b >> 1) & 1;
                    rb = b & 1;
                    b = next();
                }
                vex = false;
                if b == 0x0f {
                    map = 1;
                    b = next();
                    if b == 0x38 || b == 0x3a {
                        map = if b == 0x38 { 2 } else { 3 };
                        b = next();
                    }
                }
                op = b;
            }
        }
        let modrm = if vex {
            !(map == 1 && op == 0x77)
        } else {
            match map {
                0 => match op {
                    0x00..=0x3f => op & 7 < 4,
                    0x63 | 0x69 | 0x6b | 0x80..=0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7 | 0xd0..=0xd3 | 0xd8..=0xdf => true,
                    0xf6 | 0xf7 | 0xfe | 0xff => true,
                    _ => false,
                },
                1 => !matches!(op, 0x05..=0x09 | 0x0b | 0x30..=0x37 | 0x77 | 0x80..=0x8f | 0xa0..=0xa2 | 0xa8..=0xaa | 0xc8..=0xcf),
                _ => true,
            }
        };
        if !modrm {
            if map == 0 && !vex {
                match op {
                    0xa4..=0xa7 | 0xaa..=0xaf => ins.kind = STRING,
                    0xd7 => ins.kind = XLAT,
                    _ => {}
                }
            }
            return ins;
        }
        let m = next();
        let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
        let div = !vex && map == 0 && matches!(op, 0xf6 | 0xf7) && reg >= 6;
        if md == 3 {
            if div {
                ins.kind = DIVR;
                ins.base = rm | rb << 3;
            }
            return ins;
        }
        // no access: lea, nop
        if !vex && ((map == 0 && op == 0x8d) || (map == 1 && matches!(op, 0x1a..=0x1f))) {
            return ins;
        }
        ins.kind = if div { DIVM } else { MEM };
        if rm == 4 {
            let s = next();
            let (sc, ix, bs) = (s >> 6, (s >> 3) & 7, s & 7);
            ins.scale = sc;
            let i = ix | rx << 3;
            if vex && map == 2 && matches!(op, 0x90..=0x93 | 0xa0..=0xa3 | 0xc6 | 0xc7) {
                ins.kind = VSIB;
                ins.index = i | vhi << 4;
            } else if i != 4 {
                ins.index = i;
            }
            if !(bs == 5 && md == 0) {
                ins.base = bs | rb << 3;
            }
        } else if !(rm == 5 && md == 0) {
            ins.base = rm | rb << 3;
        }
        ins
    }

    /// gregs index of the architectural register number
    const REGS: [usize; 16] = [
        libc::REG_RAX as usize,
        libc::REG_RCX as usize,
        libc::REG_RDX as usize,
        libc::REG_RBX as usize,
        libc::REG_RSP as usize,
        libc::REG_RBP as usize,
        libc::REG_RSI as usize,
        libc::REG_RDI as usize,
        libc::REG_R8 as usize,
        libc::REG_R9 as usize,
        libc::REG_R10 as usize,
        libc::REG_R11 as usize,
        libc::REG_R12 as usize,
        libc::REG_R13 as usize,
        libc::REG_R14 as usize,
        libc::REG_R15 as usize,
    ];

    extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
        // SAFETY: called by the kernel with a valid context; one thread steps
        unsafe {
            let mc = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext;
            let g = &mut mc.gregs;
            let rip = g[libc::REG_RIP as usize] as u64;
            let slot = (rip.wrapping_mul(0x9e3779b97f4a7c15) >> 48) as usize % SLOTS;
            let c = (&raw mut CACHE as *mut Ins).add(slot);
            if (*c).rip != rip {
                *c = decode(rip);
            }
            let i = *c;
            let r = |n: u8| if n < 16 { g[REGS[n as usize]] as u64 } else { 0 };
            let at = r(i.base).wrapping_add(r(i.index) << i.scale);
            let e = match i.kind {
                PLAIN => 0,
                MEM => at,
                STRING => r(6).wrapping_mul(3) ^ r(7),
                XLAT => r(3).wrapping_add(r(0) & 255),
                DIVR | DIVM => (at ^ r(0).rotate_left(21) ^ r(2).rotate_left(42)).wrapping_mul(0x9e3779b97f4a7c15),
                _ => {
                    let x = if mc.fpregs.is_null() { 0 } else {
                        let v = (*mc.fpregs)._xmm[i.index as usize & 15].element;
                        v.iter().fold(0u64, |h, &w| (h ^ w as u64).wrapping_mul(0x9e3779b97f4a7c15))
                    };
                    r(i.base).wrapping_add(x)
                }
            };
            if CT_AT < CT_END {
                *(CT_AT as *mut Obs) = [rip, e];
                CT_AT += 16;
            } else {
                g[libc::REG_EFL as usize] &= !0x100;
            }
        }
    }

    fn step_on() {
        // SAFETY: sets the trap flag; the handler is installed
        unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    }
    fn step_off() {
        // SAFETY: clears the trap flag
        unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }

    /// Set up once; finds out whether stepping works here.
    pub fn mode() -> Mode {
        match MODE.load(SeqCst) {
            0 => return Mode::None,
            1 => return Mode::Step,
            2 => return Mode::Cov,
            _ => {}
        }
        // SAFETY: single-threaded set-up
        unsafe {
            for b in 0..2 {
                let p = libc::mmap(
                    std::ptr::null_mut(),
                    CAP * 16,
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                );
                assert!(p != libc::MAP_FAILED);
                BUFS[b] = p as u64;
            }
        }
        if cfg!(feature = "sancov") {
            MODE.store(2, SeqCst);
            return Mode::Cov;
        }
        // SAFETY: installs a handler for traps only this module causes
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = trap as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO;
            assert_eq!(libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()), 0);
        }
        MODE.store(1, SeqCst);
        start(0);
        let mut x = std::hint::black_box(3u64);
        traced(|| {
            for _ in 0..50 {
                x = std::hint::black_box(x.wrapping_mul(5) ^ 1);
            }
        });
        if seen() < 100 {
            MODE.store(0, SeqCst);
            return Mode::None;
        }
        Mode::Step
    }
    /// Begin an observation in buffer `b`.
    pub fn start(b: usize) {
        unsafe {
            CT_FROM = BUFS[b];
            CT_AT = CT_FROM;
            CT_END = BUFS[b] + (CAP * 16) as u64;
        }
    }
    /// Record nothing until the next `start`.
    pub fn stop() {
        unsafe {
            CT_END = CT_AT;
        }
    }
    /// Observations so far.
    pub fn seen() -> usize {
        // SAFETY: both point into the same buffer
        unsafe { ((CT_AT - CT_FROM) / 16) as usize }
    }
    pub fn log(b: usize, n: usize) -> &'static [Obs] {
        unsafe { std::slice::from_raw_parts(BUFS[b] as *const Obs, n) }
    }
    /// Run library code under observation.
    #[inline(never)]
    pub fn traced<R>(f: impl FnOnce() -> R) -> R {
        if MODE.load(SeqCst) == 1 {
            if unsafe { CT_AT == CT_END } {
                return f();
            }
            step_on();
            let r = f();
            step_off();
            r
        } else {
            unsafe { (&raw mut CT_ON).write_volatile(1) };
            let r = f();
            unsafe { (&raw mut CT_ON).write_volatile(0) };
            r
        }
    }
    /// Run library code; how many branch targets it reached.
    #[inline(never)]
    pub fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
        let at = unsafe { (&raw const CT_STEPS).read_volatile() };
        let r = f();
        (r, unsafe { (&raw const CT_STEPS).read_volatile() } - at)
    }
    /// Stop observing after a panic came through `traced`.
    pub fn abandon() {
        step_off();
        unsafe { (&raw mut CT_ON).write_volatile(0) };
        stop();
    }
    unsafe extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }
    /// Position of a program counter within the program file.
    pub fn place(pc: u64) -> Option<u64> {
        let (lo, hi) = (&raw const __executable_start as u64, &raw const etext as u64);
        (lo..hi).contains(&pc).then(|| pc - lo)
    }
    /// For checking the decoder against a disassembler: one line per
    /// instruction start given (relative addresses on standard input).
    pub fn decode_dump(rel: u64) -> String {
        let i = unsafe { decode(rel + &raw const __executable_start as u64) };
        format!("{rel:x} {} {} {} {}", i.kind, i.base, i.index, i.scale)
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod imp {
    use super::*;
    pub fn mode() -> Mode {
        Mode::None
    }
    pub fn start(_: usize) {}
    pub fn stop() {}
    pub fn seen() -> usize {
        0
    }
    pub fn log(_: usize, _: usize) -> &'static [Obs] {
        &[]
    }
    pub fn traced<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
        (f(), 0)
    }
    pub fn abandon() {}
    pub const PREEMPTS: bool = false;
    pub fn armed(_: bool) -> bool {
        false
    }
    pub fn fuse(_: u64) {}
    pub fn place(_: u64) -> Option<u64> {
        None
    }
    pub fn decode_dump(_: u64) -> String {
        String::new()
    }
}
pub use imp::*;
