//! Raw operating-system calls of the harness itself, and the link-time interposition of the
//! calls through which simulated code could meet time, entropy, environment or blocking.
use crate::sim;
use std::arch::asm;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[inline(always)]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_CLOCK_GETTIME: i64 = 228;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn __errno_location() -> *mut i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

pub fn alarm_s(s: u32) {
    unsafe { alarm(s) };
}

pub fn map_shared(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap shared");
    p
}

pub fn map_fixed(addr: usize, len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let p = unsafe { mmap(addr as *mut u8, len, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    assert!(p as usize == addr, "mmap fixed at {:x} gave {:?}", addr, p);
    p
}

pub fn futex_wait(w: *const u32, val: u32) {
    unsafe { raw(SYS_FUTEX, w as i64, 128, val as i64, 0, 0, 0) };
}
pub fn futex_wake(w: *const u32) {
    unsafe { raw(SYS_FUTEX, w as i64, 129, 1, 0, 0, 0) };
}

/// Real monotonic seconds, for batch budgets only (never inside a simulated run).
pub fn real_now() -> f64 {
    let mut t = [0i64; 2];
    unsafe { raw(SYS_CLOCK_GETTIME, 1, t.as_mut_ptr() as i64, 0, 0, 0, 0) };
    t[0] as f64 + t[1] as f64 * 1e-9
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_READS: AtomicU64 = AtomicU64::new(0);
pub static ENV_READS: AtomicU64 = AtomicU64::new(0);
pub static FUTEX_WAITS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sim::is_armed() {
        if n == SYS_FUTEX {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                // FUTEX_WAIT / FUTEX_WAIT_BITSET of simulated code: somebody else runs.
                FUTEX_WAITS.fetch_add(1, Relaxed);
                if *(a as *const u32) != c as u32 {
                    return ret(-11);
                }
                sim::blocked_yield();
                return 0;
            }
            return ret(raw(n, a, b, c, d, e, f));
        }
        if n == SYS_GETRANDOM {
            return getrandom(a as *mut u8, b as usize, 0) as i64;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, t: *mut [i64; 2]) -> i32 {
    if sim::is_armed() {
        CLOCK_READS.fetch_add(1, Relaxed);
        let ns = sim::sim_clock(clk);
        if clk == 0 && sim::before_epoch() {
            (*t)[0] = -((ns / 1_000_000_000) as i64) - 1;
            (*t)[1] = (ns % 1_000_000_000) as i64;
            return 0;
        }
        (*t)[0] = (ns / 1_000_000_000) as i64;
        (*t)[1] = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, clk as i64, t as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if sim::is_armed() {
        ENTROPY_READS.fetch_add(1, Relaxed);
        for i in 0..n {
            *p.add(i) = sim::sim_entropy();
        }
        return n as isize;
    }
    ret(raw(SYS_GETRANDOM, p as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], _rem: *mut [i64; 2]) -> i32 {
    if sim::is_armed() {
        sim::sleep_ns(((*req)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*req)[1] as u64));
        return 0;
    }
    ret(raw(35, req as i64, _rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if sim::is_armed() {
        sim::sleep_ns(((*req)[0] as u64).wrapping_mul(1_000_000_000).wrapping_add((*req)[1] as u64));
        return 0;
    }
    -(raw(230, c as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sim::is_armed() {
        sim::blocked_yield();
        return 0;
    }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}

/// What else code can ask about the machine it runs on.
pub static MACHINE_READS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sim::is_armed() {
        MACHINE_READS.fetch_add(1, Relaxed);
        return 2 + (sim::sim_machine() % 4_000_000) as i32;
    }
    raw(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
    if sim::is_armed() {
        MACHINE_READS.fetch_add(1, Relaxed);
        return 1 + ((sim::sim_machine() >> 8) % 4_000_000) as i32;
    }
    raw(110, 0, 0, 0, 0, 0, 0) as i32
}
/// Whether a terminal is there.
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if sim::is_armed() {
        MACHINE_READS.fetch_add(1, Relaxed);
        return (sim::sim_machine() >> (44 + fd as u32 % 3)) as i32 & 1;
    }
    let mut t = [0u8; 64];
    (raw(16, fd as i64, 0x5401, t.as_mut_ptr() as i64, 0, 0, 0) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if sim::is_armed() && n > 0 {
        MACHINE_READS.fetch_add(1, Relaxed);
        std::ptr::write_bytes(mask, 0, n);
        *mask = (sim::sim_machine() >> 24) as u8 | 1;
        return 0;
    }
    let r = ret(raw(204, pid as i64, n as i64, mask as i64, 0, 0, 0));
    if r < 0 {
        -1
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
    if sim::is_armed() && !p.is_null() && n > 8 {
        MACHINE_READS.fetch_add(1, Relaxed);
        if (sim::sim_machine() >> 40) % 8 == 1 {
            // the working directory is gone
            *__errno_location() = 2;
            return std::ptr::null_mut();
        }
        let d = b"/w/00\0";
        p.copy_from(d.as_ptr(), d.len());
        *p.add(4) += (sim::sim_machine() >> 16) as u8 % 10;
        return p;
    }
    if ret(raw(79, p as i64, n as i64, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    p
}
/// Files: none exists, or every one does, holding what the environment variables say.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if sim::is_armed() {
        MACHINE_READS.fetch_add(1, Relaxed);
        let v = sim::sim_getenv();
        if v.is_null() {
            return ret(-2) as i32;
        }
        let fd = raw(319, b"f\0".as_ptr() as i64, 0, 0, 0, 0, 0);
        if fd >= 0 {
            let mut n = 0;
            while *v.add(n) != 0 {
                n += 1;
            }
            raw(1, fd, v as i64, n as i64, 0, 0, 0);
            raw(8, fd, 0, 0, 0, 0, 0);
        }
        return ret(fd) as i32;
    }
    ret(raw(257, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if sim::is_armed() && !path.is_null() && *path != 0 {
        MACHINE_READS.fetch_add(1, Relaxed);
        if sim::sim_getenv().is_null() {
            return ret(-2) as i32;
        }
        std::ptr::write_bytes(out, 0, 256);
        (out as *mut u32).write(0x7ff);
        // a plain file everybody may read
        (out.add(28) as *mut u16).write_unaligned(0o100_644);
        return 0;
    }
    ret(raw(332, dir as i64, path as i64, flags as i64, mask as i64, out as i64, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    if sim::is_armed() {
        ENV_READS.fetch_add(1, Relaxed);
        return sim::sim_getenv();
    }
    extern "C" {
        static environ: *const *const u8;
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let s = *e;
        let mut i = 0;
        loop {
            let c = *name.add(i);
            let d = *s.add(i);
            if c == 0 {
                if d == b'=' {
                    return s.add(i + 1);
                }
                break;
            }
            if c != d {
                break;
            }
            i += 1;
        }
        e = e.add(1);
    }
    std::ptr::null()
}

extern "C" {
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// Ends this process with SIGXCPU after so many seconds of its own processor time.
pub fn cpu_limit(s: u64) {
    unsafe { setrlimit(0, &[s, s + 5]) };
    unsafe { setrlimit(4, &[0, 0]) };
}
/// Switches address randomisation off for this process image; true if it was on.
pub fn fix_addresses() -> bool {
    unsafe {
        let p = personality(0xffff_ffff);
        if p < 0 || p & 0x0040000 != 0 {
            return false;
        }
        personality(p as u64 | 0x0040000) >= 0
    }
}
pub fn silence_stderr() {
    unsafe {
        // open("/dev/null", O_WRONLY)
        let n = raw(2, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
        if n >= 0 {
            dup2(n, 2);
        }
    }
}
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        if getppid() == 1 {
            _exit(9);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if sim::is_armed() {
        sim::MOVED.fetch_add(n as u64, Relaxed);
    }
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if sim::is_armed() {
        sim::MOVED.fetch_add(n as u64, Relaxed);
    }
    if (d as usize).wrapping_sub(s as usize) >= n {
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else if n > 0 {
        // Overlapping upwards: eight bytes at a time from the end.
        let mut k = n;
        while k >= 8 && (d as usize) - (s as usize) >= 8 {
            k -= 8;
            let v = (s.add(k) as *const u64).read_unaligned();
            (d.add(k) as *mut u64).write_unaligned(v);
        }
        while k > 0 {
            k -= 1;
            let v = s.add(k).read_volatile();
            d.add(k).write_volatile(v);
        }
    }
    d
}


// ---------------------------------------------------------------- a text larger than memory

const WINDOW: usize = 4;
static TRACK_LO: AtomicU64 = AtomicU64::new(0);
static TRACK_HI: AtomicU64 = AtomicU64::new(0);
static FETCHES: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(0);
static RESIDENT: [AtomicU64; WINDOW] = [const { AtomicU64::new(0) }; WINDOW];

#[repr(C)]
struct SigAction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(n: i32, a: *const SigAction, old: *mut SigAction) -> i32;
    fn mprotect(p: *mut u8, n: usize, prot: i32) -> i32;
}

unsafe extern "C" fn fetch(_n: i32, info: *const u8, _c: *const u8) {
    let at = *(info.add(16) as *const u64) & !4095;
    if at < TRACK_LO.load(Relaxed) || at >= TRACK_HI.load(Relaxed) {
        sigaction(11, &SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 }, std::ptr::null_mut());
        return;
    }
    FETCHES.fetch_add(1, Relaxed);
    let k = NEXT.fetch_add(1, Relaxed) as usize % WINDOW;
    let out = RESIDENT[k].swap(at, Relaxed);
    if out != 0 {
        mprotect(out as *mut u8, 4096, 0);
    }
    mprotect(at as *mut u8, 4096, 3);
}

/// From here on only a few pages of this memory are at hand at a time; touching another one fetches
/// it and drops the oldest. Gives the number of pages.
pub fn page_out(p: *const u8, n: usize) -> u64 {
    let lo = (p as usize + 4095) & !4095;
    let hi = (p as usize + n) & !4095;
    if hi <= lo {
        return 0;
    }
    TRACK_LO.store(lo as u64, Relaxed);
    TRACK_HI.store(hi as u64, Relaxed);
    FETCHES.store(0, Relaxed);
    for r in &RESIDENT {
        r.store(0, Relaxed);
    }
    unsafe {
        // SA_SIGINFO | SA_ONSTACK
        sigaction(11, &SigAction { handler: fetch as *const () as usize, mask: [0; 16], flags: 4 | 0x0800_0000, restorer: 0 }, std::ptr::null_mut());
        mprotect(lo as *mut u8, hi - lo, 0);
    }
    ((hi - lo) / 4096) as u64
}
/// Everything is at hand again. Gives the number of pages fetched.
pub fn page_in() -> u64 {
    let (lo, hi) = (TRACK_LO.load(Relaxed), TRACK_HI.load(Relaxed));
    if hi > lo {
        unsafe { mprotect(lo as *mut u8, (hi - lo) as usize, 3) };
        TRACK_LO.store(0, Relaxed);
        TRACK_HI.store(0, Relaxed);
    }
    FETCHES.load(Relaxed)
}
