//! Scheduler, allocator, clock and result page of one simulated run.
//!
//! Exactly one thread holds the baton at any time. Code under test runs "armed": each
//! control-flow edge (SanitizerCoverage callback) and each allocator call is a step, and the
//! scenario's preemption list says at which step the baton moves.
use crate::rng::mix;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static GIVING: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

#[inline(always)]
pub fn is_armed() -> bool {
    ARMED.with(|a| a.get())
}
pub fn set_armed(v: bool) -> bool {
    ARMED.with(|a| a.replace(v))
}

// ---------------------------------------------------------------- result page

pub const MSG_CAP: usize = 1 << 16;
pub const BUF_CAP: usize = 8 << 20;

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum St { $($n),* }
        pub const STAT_NAMES: &[&str] = &[$(stringify!($n)),*];
    };
}
stats! {
    preemptions, shared_accesses, thread_switches, blocked_yields, alloc_failures, alloc_failures_caught_panic, alloc_failures_abort,
    calls, calls_compared, calls_aborted, refs_forked,
    clock_reads, entropy_reads, env_reads, machine_reads, clock_jumps_configured, layouts_varied,
    flipped_bytes, zeroed_ranges, stale_sectors, torn_lines, lost_lines, duplicated_lines, inserted_lines, misdirected_sectors,
    header_garbage, headers_hit, garbage_lines, cuts, appends, crashes, lost_tails, torn_tails, recoveries,
    tok_lost, tok_duplicated, tok_reordered, tok_altered, tok_mixed, tok_delayed, tok_batches, tok_cloned,
    units_checked, leaves_checked, skeletons_checked, tails_exempt, statements_delivered, nodes_seen, error_nodes_seen,
    tokens_accounted, walks, walk_steps, walks_abandoned, ranges_checked, clones_compared,
    parses, open_blocks_reported, empty_blocks, multibyte_texts, unclosed_comment_errors, newline_checks,
    rounds, live_checks, docs_valid, max_depth_seen, lists_checked, expressions_walked,
    statements_understood, rewritings, rewritings_refused, statements_accepted, statements_rejected, words_hit, blocks_rejected, growth_checked, places_checked, comparisons, pages_fetched,
}
pub const NSTAT: usize = STAT_NAMES.len();

#[repr(C)]
pub struct Page {
    pub status: AtomicU32, // 0 running, 1 ok, 2 violation, 3 harness error
    pub msg_len: AtomicUsize,
    pub msg: [u8; MSG_CAP],
    pub stat: [AtomicU64; NSTAT],
    pub trace: AtomicU64,
    pub steps: AtomicU64,
    pub sim_ns: AtomicU64,
    pub nontrivial: AtomicU32,
    pub buf_len: AtomicUsize,
    pub buf: [u8; BUF_CAP],
}

static PAGE: AtomicUsize = AtomicUsize::new(0);
pub fn page() -> &'static mut Page {
    unsafe { &mut *(PAGE.load(Relaxed) as *mut Page) }
}
pub fn new_page() -> *mut u8 {
    sys::map_shared(std::mem::size_of::<Page>())
}
pub fn use_page(p: *mut u8) {
    PAGE.store(p as usize, Relaxed);
}
pub fn reset_page() {
    let p = page();
    p.status.store(0, Relaxed);
    p.msg_len.store(0, Relaxed);
    for s in p.stat.iter() {
        s.store(0, Relaxed);
    }
    p.trace.store(0, Relaxed);
    p.steps.store(0, Relaxed);
    p.sim_ns.store(0, Relaxed);
    p.nontrivial.store(0, Relaxed);
    p.buf_len.store(0, Relaxed);
}
pub fn stat(s: St, n: u64) {
    page().stat[s as usize].fetch_add(n, Relaxed);
}
pub fn stat_max(s: St, n: u64) {
    page().stat[s as usize].fetch_max(n, Relaxed);
}
pub fn trace_add(x: u64) {
    let p = page();
    let t = p.trace.load(Relaxed);
    p.trace.store(mix(t ^ mix(x)), Relaxed);
}
pub fn put_msg(s: &str) {
    let p = page();
    let mut n = s.len().min(MSG_CAP);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    p.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
    p.msg_len.store(n, SeqCst);
}
pub fn get_msg() -> String {
    let p = page();
    String::from_utf8_lossy(&p.msg[..p.msg_len.load(SeqCst)]).into_owned()
}

/// Ends the process with a violation: "class: detail".
pub fn die_violation(class: &str, detail: &str) -> ! {
    set_armed(false);
    finish_counters();
    put_msg(&format!("{}: {}", class, detail));
    page().status.store(2, SeqCst);
    unsafe { sys::_exit(0) }
}

pub fn finish_counters() {
    let p = page();
    p.steps.store(STEP.load(Relaxed), Relaxed);
    p.sim_ns.store(SIM_NS.load(Relaxed).wrapping_add(STEP.load(Relaxed) * NS_PER_STEP), Relaxed);
    p.stat[St::clock_reads as usize].fetch_add(sys::CLOCK_READS.swap(0, Relaxed), Relaxed);
    p.stat[St::entropy_reads as usize].fetch_add(sys::ENTROPY_READS.swap(0, Relaxed), Relaxed);
    p.stat[St::machine_reads as usize].fetch_add(sys::MACHINE_READS.swap(0, Relaxed), Relaxed);
    p.stat[St::env_reads as usize].fetch_add(sys::ENV_READS.swap(0, Relaxed), Relaxed);
}

// ---------------------------------------------------------------- steps and scheduling

pub const MAX_SLOTS: usize = 8;
pub const NS_PER_STEP: u64 = 1_000;

static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT_EVENT: AtomicU64 = AtomicU64::new(u64::MAX);
static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
static NSLOTS: AtomicUsize = AtomicUsize::new(0);
static DONE: [AtomicBool; MAX_SLOTS] = [const { AtomicBool::new(false) }; MAX_SLOTS];
static WORD: [AtomicU32; MAX_SLOTS + 1] = [const { AtomicU32::new(0) }; MAX_SLOTS + 1];
static FUTILE: AtomicU64 = AtomicU64::new(0);
/// The thread that last took over from one that had to wait.
static TURN: AtomicUsize = AtomicUsize::new(0);
/// The step at which the running thread took over, and how many steps it may go on for.
static SWITCHED: AtomicU64 = AtomicU64::new(0);
const SLICE: u64 = 250_000;

struct Plan {
    /// at which step the baton moves, and to whom
    preempts: Vec<(u64, u8)>,
    next: usize,
    /// at which access to a static variable the baton moves
    shared: Vec<(u64, u8)>,
    next_shared: usize,
    soon: Option<(u64, u8)>,
    /// Steps spent spinning count too: the threads together once get as many again.
    extended: bool,
    granted: u64,
}
static mut PLAN: Plan = Plan { preempts: Vec::new(), next: 0, shared: Vec::new(), next_shared: 0, soon: None, extended: false, granted: 0 };
fn plan() -> &'static mut Plan {
    unsafe { &mut *std::ptr::addr_of_mut!(PLAN) }
}

fn refresh_event() {
    let p = plan();
    let n = p.preempts.get(p.next).map(|x| x.0).unwrap_or(u64::MAX);
    let soon = p.soon.map(|x| x.0).unwrap_or(u64::MAX);
    let slice = if NSLOTS.load(Relaxed) > 1 { SWITCHED.load(Relaxed).saturating_add(SLICE) } else { u64::MAX };
    NEXT_EVENT.store(n.min(soon).min(slice).min(BUDGET.load(Relaxed)), Relaxed);
}

/// Sets the number of further steps after which the run counts as not terminating.
pub fn set_budget(more: u64) {
    plan().granted = more;
    BUDGET.store(STEP.load(Relaxed).saturating_add(more), Relaxed);
    refresh_event();
}
pub fn no_budget() {
    BUDGET.store(u64::MAX, Relaxed);
    refresh_event();
}

#[inline(always)]
fn step() {
    let s = STEP.load(Relaxed) + 1;
    STEP.store(s, Relaxed);
    if s >= NEXT_EVENT.load(Relaxed) {
        event(s);
    }
}

#[cold]
#[inline(never)]
fn event(s: u64) {
    if s >= BUDGET.load(Relaxed) {
        let p = plan();
        let n = NSLOTS.load(Relaxed);
        if !p.extended && n > 1 && (0..n).filter(|i| !DONE[*i].load(Relaxed)).count() > 1 {
            p.extended = true;
            set_budget(p.granted);
            return;
        }
        no_budget();
        die_violation("no-progress", &format!("still running after {} steps", s));
    }
    let p = plan();
    if let Some((at, to)) = p.soon {
        if s >= at {
            p.soon = None;
            refresh_event();
            let was = set_armed(false);
            preempt(to, 0x200 + s);
            set_armed(was);
            return;
        }
    }
    if let Some(&(at, to)) = p.preempts.get(p.next) {
        if s >= at {
            p.next += 1;
            refresh_event();
            let was = set_armed(false);
            preempt(to, 0x100 + s);
            set_armed(was);
            return;
        }
    }
    refresh_event();
    if s >= SWITCHED.load(Relaxed).saturating_add(SLICE) && NSLOTS.load(Relaxed) > 1 {
        // The time slice is over. The thread may be spinning until another one has gone on.
        SWITCHED.store(s, Relaxed);
        refresh_event();
        let was = set_armed(false);
        let t = (TURN.load(Relaxed) + 1) % NSLOTS.load(Relaxed);
        TURN.store(t, Relaxed);
        preempt(t as u8, 0x300 + s);
        set_armed(was);
    }
}

fn preempt(to: u8, why: u64) {
    let n = NSLOTS.load(Relaxed);
    if n < 2 {
        return;
    }
    let me = SLOT.with(|x| x.get());
    let mut t = to as usize % n;
    for _ in 0..n {
        if t != me && !DONE[t].load(Relaxed) {
            break;
        }
        t = (t + 1) % n;
    }
    if t != me && !DONE[t].load(Relaxed) {
        stat(St::preemptions, 1);
        page().nontrivial.store(1, Relaxed);
        switch_to(t, why);
    }
}

fn wait_baton(slot: usize) {
    while WORD[slot].load(SeqCst) == 0 {
        sys::futex_wait(WORD[slot].as_ptr(), 0);
    }
    WORD[slot].store(0, SeqCst);
}
fn give_baton(slot: usize) {
    WORD[slot].store(1, SeqCst);
    sys::futex_wake(WORD[slot].as_ptr());
}

fn switch_to(t: usize, why: u64) {
    let me = SLOT.with(|x| x.get());
    stat(St::thread_switches, 1);
    trace_add((STEP.load(Relaxed) << 16) ^ ((me as u64) << 8) ^ t as u64 ^ why.rotate_left(40));
    CUR.store(t, Relaxed);
    SWITCHED.store(STEP.load(Relaxed), Relaxed);
    refresh_event();
    give_baton(t);
    wait_baton(me);
}

/// The running thread cannot go on (futex wait, yield, sleep): another one runs.
pub fn blocked_yield() {
    let was = set_armed(false);
    stat(St::blocked_yields, 1);
    let n = NSLOTS.load(Relaxed);
    let me = SLOT.with(|x| x.get());
    let f = FUTILE.fetch_add(1, Relaxed);
    if f > 20_000 {
        die_violation("deadlock", "every simulated thread is waiting");
    }
    // In turn, so that two threads waiting for a third one do not pass the turn to each other for ever.
    let mut t = me;
    let from = TURN.load(Relaxed);
    for k in 1..=n {
        let c = (from + k) % n;
        if c != me && !DONE[c].load(Relaxed) {
            t = c;
            break;
        }
    }
    if t != me && n > 1 {
        TURN.store(t, Relaxed);
        switch_to(t, 2);
    } else if f > 2_000 {
        die_violation("deadlock", "the only running thread waits for a thread that is not there");
    }
    set_armed(was);
}

/// Explicit yield point of harness code (hand-off queues and the like).
pub fn yield_to(t: usize) {
    let n = NSLOTS.load(Relaxed);
    if n < 2 {
        return;
    }
    let me = SLOT.with(|x| x.get());
    let mut t = t % n;
    for _ in 0..n {
        if t != me && !DONE[t].load(Relaxed) {
            break;
        }
        t = (t + 1) % n;
    }
    if t != me && !DONE[t].load(Relaxed) {
        switch_to(t, 3);
    }
}

/// Runs the given thread bodies under the scheduler until all are finished.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>, preempts: Vec<(u64, u8)>, shared: Vec<(u64, u8)>, stack: usize) {
    let n = bodies.len();
    assert!(n <= MAX_SLOTS && n > 0);
    plan().preempts = preempts;
    plan().next = 0;
    plan().shared = shared;
    plan().soon = None;
    plan().extended = false;
    SWITCHED.store(STEP.load(SeqCst), SeqCst);
    plan().next_shared = 0;
    ACCESSES.store(0, SeqCst);
    NSLOTS.store(n, SeqCst);
    for d in DONE.iter() {
        d.store(false, SeqCst);
    }
    FUTILE.store(0, SeqCst);
    TURN.store(0, SeqCst);
    refresh_event();
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn(move || {
                    SLOT.with(|x| x.set(i));
                    wait_baton(i);
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).is_err() {
                        set_armed(false);
                        put_msg(&format!("harness panic: {}", last_panic()));
                        page().status.store(3, SeqCst);
                        unsafe { sys::_exit(0) }
                    }
                    set_armed(false);
                    DONE[i].store(true, SeqCst);
                    trace_add(0xD0_0000 + i as u64);
                    CUR.store(i, Relaxed);
                    give_baton(MAX_SLOTS);
                })
                .expect("spawn"),
        );
    }
    let mut hs: Vec<_> = hs.into_iter().map(Some).collect();
    let mut next = Some(0);
    while let Some(i) = next {
        CUR.store(i, SeqCst);
        give_baton(i);
        wait_baton(MAX_SLOTS);
        // The thread's own variables are dropped as it ends; nothing else runs meanwhile.
        let i = CUR.load(SeqCst);
        if let Some(h) = hs[i].take() {
            let _ = h.join();
        }
        next = (1..=n).map(|k| (i + k) % n).find(|c| !DONE[*c].load(Relaxed));
    }
    plan().preempts = Vec::new();
    plan().next = 0;
    plan().shared = Vec::new();
    plan().soon = None;
    plan().next_shared = 0;
    NSLOTS.store(0, SeqCst);
    refresh_event();
}

// ---------------------------------------------------------------- coverage callbacks

pub const COV_CAP: usize = 1 << 16;
static COV: AtomicUsize = AtomicUsize::new(0);
static GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn set_cov(p: *mut u8) {
    COV.store(p as usize, SeqCst);
}
pub fn guards() -> u32 {
    GUARDS.load(Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if is_armed() {
        let c = COV.load(Relaxed);
        if c != 0 {
            // Read first: the map is shared with the other workers.
            let b = (c as *mut u8).add(*g as usize & (COV_CAP - 1));
            if *b == 0 {
                *b = 1;
            }
        }
        step();
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let mut p = a;
    if a == b || *a != 0 {
        return;
    }
    while p < b {
        let n = GUARDS.load(Relaxed) + 1;
        GUARDS.store(n, Relaxed);
        *p = n;
        p = p.add(1);
    }
}

// ---------------------------------------------------------------- clock, entropy, environment

#[derive(Clone, Debug, PartialEq)]
pub struct Env {
    pub clock_base: u64,
    /// 0: steady; 1: jumps back and forth at each read; 2: frozen; 3: huge step per read; 4: the wall clock stands before 1970
    pub clock_mode: u8,
    pub entropy: u64,
    /// value every environment variable has ("" for unset)
    pub env: String,
    pub arena_shift: usize,
    pub fill_new: u8,
    pub fill_free: u8,
    /// 0: last released block first; 1: never reuse
    pub reuse: u8,
    /// extra bytes of stack below the call
    pub stack: usize,
}
impl Env {
    pub fn plain() -> Env {
        Env {
            clock_base: 1_700_000_000_000_000_000,
            clock_mode: 0,
            entropy: 1,
            env: String::new(),
            arena_shift: 0,
            fill_new: 0xA5,
            fill_free: 0x5A,
            reuse: 0,
            stack: 0,
        }
    }
}

static SIM_NS: AtomicU64 = AtomicU64::new(0);
static CLOCK_BASE: AtomicU64 = AtomicU64::new(0);
static CLOCK_MODE: AtomicU32 = AtomicU32::new(0);
static CLOCK_N: AtomicU64 = AtomicU64::new(0);
static MACHINE: AtomicU64 = AtomicU64::new(1);
static ENTROPY: AtomicU64 = AtomicU64::new(1);
static mut ENVVAL: [u8; 64] = [0; 64];
static ENVSET: AtomicBool = AtomicBool::new(false);
static FILL_NEW: AtomicU32 = AtomicU32::new(0xA5);
static FILL_FREE: AtomicU32 = AtomicU32::new(0x5A);
static REUSE: AtomicU32 = AtomicU32::new(0);

pub fn apply_env(e: &Env) {
    CLOCK_BASE.store(e.clock_base, SeqCst);
    CLOCK_MODE.store(e.clock_mode as u32, SeqCst);
    CLOCK_N.store(0, SeqCst);
    ENTROPY.store(e.entropy, SeqCst);
    MACHINE.store(mix(e.entropy), SeqCst);
    ENVSET.store(!e.env.is_empty(), SeqCst);
    unsafe {
        let v = &mut *std::ptr::addr_of_mut!(ENVVAL);
        let b = e.env.as_bytes();
        let n = b.len().min(63);
        v[..n].copy_from_slice(&b[..n]);
        v[n] = 0;
    }
    FILL_NEW.store(e.fill_new as u32, SeqCst);
    FILL_FREE.store(e.fill_free as u32, SeqCst);
    REUSE.store(e.reuse as u32, SeqCst);
    if e.arena_shift > 0 {
        ARENA_TOP.fetch_add((e.arena_shift + 15) & !15, SeqCst);
    }
}

pub fn sim_clock(clk: i32) -> u64 {
    let n = CLOCK_N.fetch_add(1, Relaxed);
    let base = CLOCK_BASE.load(Relaxed).wrapping_add(SIM_NS.load(Relaxed)) % 9_000_000_000_000_000_000;
    let t = base + STEP.load(Relaxed) * NS_PER_STEP;
    match CLOCK_MODE.load(Relaxed) {
        1 => {
            // Monotonic clocks may leap forward, wall clocks in both directions.
            let r = mix(n ^ base);
            let leap = (r >> 8) % 7_200_000_000_000;
            if clk == 0 && r & 1 == 1 {
                t.saturating_sub(leap)
            } else {
                SIM_NS.fetch_add(leap, Relaxed);
                t + leap
            }
        }
        2 => base,
        3 => {
            SIM_NS.fetch_add(3_600_000_000_000, Relaxed);
            t
        }
        _ => t,
    }
}
pub fn sleep_ns(n: u64) {
    SIM_NS.fetch_add(n.min(1_000_000_000_000), Relaxed);
    blocked_yield();
}
pub fn sim_entropy() -> u8 {
    let e = ENTROPY.load(Relaxed);
    ENTROPY.store(mix(e), Relaxed);
    (mix(e) >> 13) as u8
}
pub fn before_epoch() -> bool {
    CLOCK_MODE.load(Relaxed) == 4
}
/// One number that stands for the machine: process number, processors, working directory.
pub fn sim_machine() -> u64 {
    MACHINE.load(Relaxed)
}
pub fn sim_getenv() -> *const u8 {
    if ENVSET.load(Relaxed) {
        std::ptr::addr_of!(ENVVAL) as *const u8
    } else {
        std::ptr::null()
    }
}

// ---------------------------------------------------------------- allocator

pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

const ARENA_BASE: usize = 0x2000_0000_0000;
const ARENA_LEN: usize = 2 << 30;
const HDR: usize = 48;
const RED: usize = 16;
const MAGIC_LIVE: u64 = 0x51AB_1E0C_0DE0_0001;
const MAGIC_FREE: u64 = 0xDEAD_0C0D_E000_0002;
static ARENA_TOP: AtomicUsize = AtomicUsize::new(ARENA_BASE);
const NCLASS: usize = 48;
static FREE: [AtomicUsize; NCLASS] = [const { AtomicUsize::new(0) }; NCLASS];
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static ALLOC_NO: AtomicU64 = AtomicU64::new(0);
static ASKED: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
pub static MOVED: AtomicU64 = AtomicU64::new(0);

/// What a stretch of library code cost.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Cost {
    /// control-flow edges and allocator calls
    pub steps: u64,
    /// bytes copied by memcpy and memmove
    pub moved: u64,
    /// bytes asked of the allocator, altogether
    pub asked: u64,
    /// most bytes in use at once, beyond those in use before
    pub peak: u64,
}
pub fn cost_of<R>(f: impl FnOnce() -> R) -> (Cost, R) {
    let (s, m, a, l) = (STEP.load(Relaxed), MOVED.load(Relaxed), ASKED.load(Relaxed), LIVE_BYTES.load(Relaxed));
    PEAK.store(l, Relaxed);
    let r = f();
    let c = Cost {
        steps: STEP.load(Relaxed) - s,
        moved: MOVED.load(Relaxed) - m,
        asked: ASKED.load(Relaxed) - a,
        peak: (PEAK.load(Relaxed) - l).max(0) as u64,
    };
    (c, r)
}

// Fault plan of the current call.
static FAIL_AT: AtomicU64 = AtomicU64::new(u64::MAX);
static FAIL_UNTIL: AtomicU64 = AtomicU64::new(u64::MAX);
static FAIL_ABOVE: AtomicUsize = AtomicUsize::new(usize::MAX);
static FAIL_PERIOD: AtomicU64 = AtomicU64::new(0);
static FIRED: AtomicU64 = AtomicU64::new(0);
static FAIL_OWNER: AtomicUsize = AtomicUsize::new(usize::MAX);
/// What an infallible allocation failure does: 0 end the process, 1 panic.
pub static OOM_MODE: AtomicU32 = AtomicU32::new(0);

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    class: usize,
    next: usize,
    seq: u64,
}

pub fn init_arena() {
    sys::map_fixed(ARENA_BASE, ARENA_LEN);
}
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(Relaxed), LIVE_BLOCKS.load(Relaxed))
}
/// Marks a block the caller made and hands over: it lives at a simulated address, but no call's
/// account holds it.
const GIVEN: u64 = u64::MAX;
/// Makes a caller's own value (an input text, a token list) in simulated memory.
pub fn given<R>(f: impl FnOnce() -> R) -> R {
    let was = GIVING.with(|g| g.replace(true));
    let r = f();
    GIVING.with(|g| g.set(was));
    r
}
pub fn alloc_no() -> u64 {
    ALLOC_NO.load(Relaxed)
}

#[derive(Clone, Debug, PartialEq)]
pub struct AllocFault {
    /// 0 once at n, 1 from n on, 2 sizes above n bytes, 3 every n-th, 4 a burst of `m` from n
    pub kind: u8,
    pub n: u64,
    pub m: u64,
}
pub fn set_alloc_fault(f: Option<&AllocFault>) {
    FAIL_AT.store(u64::MAX, SeqCst);
    FAIL_UNTIL.store(u64::MAX, SeqCst);
    FAIL_ABOVE.store(usize::MAX, SeqCst);
    FAIL_PERIOD.store(0, SeqCst);
    FIRED.store(0, SeqCst);
    FAIL_OWNER.store(SLOT.with(|x| x.get()), SeqCst);
    if let Some(f) = f {
        let now = ALLOC_NO.load(SeqCst);
        match f.kind {
            0 => {
                FAIL_AT.store(now + f.n, SeqCst);
                FAIL_UNTIL.store(now + f.n + 1, SeqCst);
            }
            1 => FAIL_AT.store(now + f.n, SeqCst),
            2 => FAIL_ABOVE.store(f.n as usize, SeqCst),
            3 => FAIL_PERIOD.store(f.n.max(1), SeqCst),
            _ => {
                FAIL_AT.store(now + f.n, SeqCst);
                FAIL_UNTIL.store(now + f.n + f.m.max(1), SeqCst);
            }
        }
    }
}
pub fn faults_fired() -> u64 {
    FIRED.load(SeqCst)
}

fn should_fail(size: usize) -> bool {
    if FAIL_OWNER.load(Relaxed) != SLOT.with(|x| x.get()) {
        return false;
    }
    let n = ALLOC_NO.load(Relaxed);
    let p = FAIL_PERIOD.load(Relaxed);
    let f = (n >= FAIL_AT.load(Relaxed) && n < FAIL_UNTIL.load(Relaxed))
        || size > FAIL_ABOVE.load(Relaxed)
        || (p > 0 && n % p == p - 1);
    if f {
        FIRED.fetch_add(1, Relaxed);
        stat(St::alloc_failures, 1);
        page().nontrivial.store(1, Relaxed);
        trace_add(0xA110C ^ (n << 20));
    }
    f
}

fn class_of(total: usize) -> usize {
    (usize::BITS - (total.max(32) - 1).leading_zeros()) as usize
}

unsafe fn arena_alloc(l: Layout, giving: bool) -> *mut u8 {
    if l.align() > 16 || l.size() > (1 << 30) {
        return std::ptr::null_mut();
    }
    let total = HDR + l.size() + RED;
    let c = class_of(total);
    let head = FREE[c].load(Relaxed);
    let b = if head != 0 && REUSE.load(Relaxed) == 0 {
        FREE[c].store((*(head as *const Hdr)).next, Relaxed);
        head
    } else {
        let top = ARENA_TOP.fetch_add(1usize << c, Relaxed);
        if top + (1usize << c) > ARENA_BASE + ARENA_LEN {
            return std::ptr::null_mut();
        }
        top
    };
    let h = b as *mut Hdr;
    (*h).magic = MAGIC_LIVE;
    (*h).size = l.size();
    (*h).align = l.align();
    (*h).class = c;
    (*h).seq = if giving { GIVEN } else { ALLOC_NO.load(Relaxed) };
    let p = (b + HDR) as *mut u8;
    std::ptr::write_bytes(p, FILL_NEW.load(Relaxed) as u8, l.size());
    std::ptr::write_bytes(p.add(l.size()), 0xED, RED);
    if giving {
        return p;
    }
    PEAK.fetch_max(LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64, Relaxed);
    ASKED.fetch_add(l.size() as u64, Relaxed);
    LIVE_BLOCKS.fetch_add(1, Relaxed);
    p
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let h = (p as usize - HDR) as *mut Hdr;
    if (*h).magic == MAGIC_FREE {
        die_violation("memory", "a block was released twice");
    }
    if (*h).magic != MAGIC_LIVE {
        die_violation("memory", "a pointer that is no live block was released, or its header was overwritten");
    }
    if (*h).size != l.size() || (*h).align != l.align() {
        die_violation("memory", &format!("a block of {} bytes was released as one of {}", (*h).size, l.size()));
    }
    for i in 0..RED {
        if *p.add(l.size() + i) != 0xED {
            die_violation("memory", "memory past the end of a block was overwritten");
        }
    }
    (*h).magic = MAGIC_FREE;
    std::ptr::write_bytes(p, FILL_FREE.load(Relaxed) as u8, l.size());
    if (*h).seq != GIVEN {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
    }
    let c = (*h).class;
    (*h).next = FREE[c].load(Relaxed);
    FREE[c].store(h as usize, Relaxed);
}

#[inline(always)]
fn in_arena(p: *mut u8) -> bool {
    let a = p as usize;
    a >= ARENA_BASE && a < ARENA_BASE + ARENA_LEN
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !is_armed() {
            if GIVING.with(|g| g.get()) {
                return arena_alloc(l, true);
            }
            return System.alloc(l);
        }
        step();
        ALLOC_NO.fetch_add(1, Relaxed);
        let was = set_armed(false);
        let p = if should_fail(l.size()) { std::ptr::null_mut() } else { arena_alloc(l, false) };
        set_armed(was);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_armed() {
            step();
        }
        if in_arena(p) {
            let was = set_armed(false);
            arena_free(p, l);
            set_armed(was);
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !is_armed() && !in_arena(p) && !GIVING.with(|g| g.get()) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------- calls

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Message and place of this thread's most recent panic.
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let was = set_armed(false);
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
        set_armed(was);
    }));
    std::alloc::set_alloc_error_hook(|_| {
        let was = set_armed(false);
        if OOM_MODE.load(SeqCst) == 0 {
            stat(St::alloc_failures_abort, 1);
            finish_counters();
            page().status.store(4, SeqCst);
            unsafe { sys::_exit(0) }
        }
        // Panicking needs memory of its own: the fault is over once it was noticed.
        let f = faults_fired();
        set_alloc_fault(None);
        FIRED.store(f, SeqCst);
        stat(St::alloc_failures_caught_panic, 1);
        set_armed(was);
        panic!("simulated allocation failure");
    });
}

/// One call into the code under test.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    stat(St::calls, 1);
    FUTILE.store(0, Relaxed);
    set_armed(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_armed(false);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            drop(p);
            Err(last_panic())
        }
    }
}

pub fn cov_count() -> u64 {
    let c = COV.load(Relaxed) as *const u8;
    (0..COV_CAP).filter(|i| unsafe { *c.add(*i) } != 0).count() as u64
}

// ---------------------------------------------------------------- accesses to shared memory

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// Called at each load and store of the code under test (schedule checks only).
#[inline(always)]
unsafe fn access(p: *const u8) {
    if p >= std::ptr::addr_of!(__data_start) && p < std::ptr::addr_of!(_end) && is_armed() {
        shared_access();
    }
}

macro_rules! traced {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: *const u8) { access(p) })* };
}
traced!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
traced!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

#[cold]
#[inline(never)]
fn shared_access() {
    stat(St::shared_accesses, 1);
    if NSLOTS.load(Relaxed) < 2 {
        return;
    }
    let n = ACCESSES.load(Relaxed);
    ACCESSES.store(n + 1, Relaxed);
    let p = plan();
    if let Some(&(at, to)) = p.shared.get(p.next_shared) {
        if n >= at {
            p.next_shared += 1;
            // Some edges later: what follows an access, such as the release of a lock, is not
            // itself one.
            p.soon = Some((STEP.load(Relaxed) + (to >> 3) as u64, to & 7));
            refresh_event();
        }
    }
}
static ACCESSES: AtomicU64 = AtomicU64::new(0);
