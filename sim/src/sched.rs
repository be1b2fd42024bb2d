//! Callers sharing converters (L07), under a scheduler: the callers are real threads of which
//! exactly one runs at any time. A caller is suspended, in the middle of whatever it was doing,
//! after a number of steps which the seed decides. A step is a memory allocation and, in the build
//! made for L07, every branch, load and store of the library's code as well (the compiler's
//! coverage instrumentation calls the hooks below). Real locks that the library may take go
//! through the scheduler too (`syscall`, futex), so a caller waiting for one hands the turn over.
//! Also the accounting of memory and stack which L09 judges.
use crate::hist::*;
use crate::run::{Stats, Viol, viol};
use crate::util::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- the allocator seam

struct Local { on: Cell<bool>, work: Cell<u64>, live: Cell<i64>, peak: Cell<i64>, top: Cell<usize>, low: Cell<usize>, fuel: Cell<u64>, sim: Cell<*const Sim>, me: Cell<usize>, hot: Cell<u64> }
thread_local! {
    static L: Local = const { Local { on: Cell::new(false), work: Cell::new(0), live: Cell::new(0), peak: Cell::new(0), top: Cell::new(0), low: Cell::new(0), fuel: Cell::new(0), sim: Cell::new(std::ptr::null()), me: Cell::new(0), hot: Cell::new(0) } };
}
/// A single call that holds this much memory is ended before it harms the machine.
const HARD_CAP: i64 = 2 << 30;

pub struct Alloc;
#[inline]
fn account(grow: usize, shrink: usize) {
    let _ = L.try_with(|l| {
        if l.on.get() {
            l.work.set(l.work.get() + grow as u64);
            let live = l.live.get() + grow as i64 - shrink as i64;
            l.live.set(live);
            if live > l.peak.get() {
                l.peak.set(live);
                if live > HARD_CAP { l.on.set(false); crate::worker::die("L09", "a single call used more than 2 GB of memory") }
            }
            let here = &grow as *const usize as usize;
            if here < l.low.get() { l.low.set(here) }
        }
        if grow > 0 { step(l, ALLOC_COST) }
    });
}
/// Steps that an allocation, and an access to state which callers might share, count for: they are
/// the likelier places for a suspension.
const ALLOC_COST: u64 = 16;
const SHARED_COST: u64 = 1000;
/// Nobody runs for longer than this without a decision (a caller might be spinning).
const NO_LIMIT: u64 = 20_000_000;
#[inline]
fn step(l: &Local, cost: u64) {
    let s = l.sim.get();
    if !s.is_null() {
        let f = l.fuel.get();
        if f > cost { l.fuel.set(f - cost) } else {
            // SAFETY: the simulation outlives its callers
            unsafe { (*s).preempt(l) }
        }
    }
}

// ---------------------------------------------------------------- the instrumentation seam

unsafe extern "C" { static data_start: u8; static _end: u8; }
/// An access by the library's code to memory that outlives calls: a mutable static, or the
/// converter itself (`here`: steps that the latter counts for).
#[inline]
fn access(addr: usize, here: u64) {
    let _ = L.try_with(|l| {
        let s = l.sim.get();
        if s.is_null() { return }
        let (a, b) = (&raw const data_start as usize, &raw const _end as usize);
        if addr >= a && addr < b { l.hot.set(l.hot.get() + 1); return step(l, SHARED_COST) }
        // SAFETY: as above
        let (a, b) = unsafe { (*s).convs };
        if addr >= a && addr < b { step(l, here) }
    });
}
#[unsafe(no_mangle)] extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
#[unsafe(no_mangle)] extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) { let _ = L.try_with(|l| step(l, 1)); }
macro_rules! accesses { ($($load:ident $store:ident),*) => { $(
    #[unsafe(no_mangle)] extern "C" fn $load(a: usize) { access(a, 4) }
    #[unsafe(no_mangle)] extern "C" fn $store(a: usize) { access(a, SHARED_COST) }
)* } }
accesses!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2, __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8, __sanitizer_cov_load16 __sanitizer_cov_store16);

// ---------------------------------------------------------------- the futex seam

/// The system call entry of libc, which the locks of std wait and wake through.
#[unsafe(no_mangle)]
unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex {
        let (sim, me) = L.try_with(|l| (l.sim.get(), l.me.get())).unwrap_or((std::ptr::null(), 0));
        if !sim.is_null() {
            // SAFETY: the simulation outlives its callers; `a` is the futex of a live lock
            return unsafe { match b as i32 & 0x7f {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    if *(a as *const u32) != c as u32 { *libc::__errno_location() = libc::EAGAIN; return -1 }
                    (*sim).futex_wait(me, a, d != 0);
                    if d != 0 { *libc::__errno_location() = libc::ETIMEDOUT; -1 } else { 0 }
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => (*sim).futex_wake(a, c as i32),
                _ => raw(n, a, b, c, d, e, f),
            } }
        }
    }
    unsafe { raw(n, a, b, c, d, e, f) }
}
unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
        if (-4095..0).contains(&r) { *libc::__errno_location() = -r as i32; return -1 }
    }
    r
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { account(l.size(), 0); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { account(l.size(), 0); unsafe { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { account(0, l.size()); unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { account(n, l.size()); unsafe { System.realloc(p, l, n) } }
}

/// What one call used: bytes allocated in all, most bytes held at a time, bytes of stack (as seen at allocations).
#[derive(Clone, Copy, Debug, Default)]
pub struct Used { pub work: u64, pub peak: u64, pub stack: u64 }
#[inline(never)]
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, Used) {
    let here = 0usize;
    let here = std::hint::black_box(&here) as *const usize as usize;
    L.with(|l| { l.work.set(0); l.live.set(0); l.peak.set(0); l.top.set(here); l.low.set(here); l.on.set(true) });
    let t = f();
    let u = L.with(|l| { l.on.set(false); Used { work: l.work.get(), peak: l.peak.get().max(0) as u64, stack: l.top.get().saturating_sub(l.low.get()) as u64 } });
    (t, u)
}

// ---------------------------------------------------------------- the scheduler

/// One scheduling decision: which of the callers able to run continues, and after how many
/// steps the next decision is due (0: not before the call ends or waits).
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Dec(pub u8, pub u32);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pc { Ready, Wants(usize, bool), Futex(usize), Done }
/// Shared lock state of a converter.
#[derive(Clone, Copy, Default)]
struct Lock { readers: u32, writer: bool }
impl Lock { fn free(&self, exclusive: bool) -> bool { !self.writer && (!exclusive || self.readers == 0) } }

const MAX_DECS: usize = 4000;
struct Inner {
    turn: usize,
    pcs: [Pc; 8],
    n: usize,
    locks: [Lock; 2],
    given: Vec<Dec>,
    pos: usize,
    random: Option<Rng>,
    made: Vec<Dec>,
    switches: u64,
    mid_call: u64,
    order: Vec<(usize, usize)>, // session calls (conv, op) in the order they got the lock
    trace: u64,
    finished: bool,
    futex: u64,
    bursts: bool,
    hot: u64,
}
pub struct Sim { convs: (usize, usize), inner: Mutex<Inner>, wake: [Condvar; 8], main: Condvar, tids: Mutex<[i32; 8]>, beat: std::sync::atomic::AtomicU64 }

impl Inner {
    /// Choose who goes on. Allocates nothing.
    fn decide(&mut self, me: usize) -> u64 {
        let mut able = [0usize; 8];
        let mut k = 0;
        for i in 0..self.n {
            let ok = match self.pcs[i] { Pc::Ready => true, Pc::Wants(c, x) => self.locks[c].free(x), Pc::Futex(_) | Pc::Done => false };
            if ok { able[k] = i; k += 1 }
        }
        if k == 0 {
            if self.pcs[..self.n].iter().any(|p| *p != Pc::Done) { crate::worker::die("L07", "deadlock: every call that has not ended waits for another one") }
            self.finished = true;
            self.turn = usize::MAX;
            return 0;
        }
        // past the end of the schedule, the callers take turns
        let next = Dec(able[..k].iter().position(|a| *a > me).unwrap_or(0) as u8, 0);
        let d = match &mut self.random {
            Some(r) if self.made.len() < MAX_DECS => {
                let fuel = match if self.bursts { r.below(7) } else { r.below(12) } { 0 => r.range(1, 4), 1 | 2 => r.range(1, 50), 3 | 4 => r.range(1, 500), 5 | 6 => r.range(1, 1999), 7 | 8 => r.range(1, 20_000), 9 => r.range(1, 200_000), _ => 0 };
                Dec(r.below(k) as u8, fuel as u32)
            }
            Some(_) => next,
            None => { let d = self.given.get(self.pos).copied().unwrap_or(next); self.pos += 1; d }
        };
        if self.made.len() < MAX_DECS { self.made.push(d) }
        let to = able[d.0 as usize % k];
        if to != me { self.switches += 1 }
        self.trace = (self.trace ^ (to as u64 + 1) ^ ((d.1 as u64) << 8)).wrapping_mul(0x100000001b3);
        self.turn = to;
        if d.1 == 0 { NO_LIMIT } else { d.1 as u64 }
    }
}
impl Sim {
    fn hand_over(&self, g: std::sync::MutexGuard<Inner>, me: usize) -> u64 {
        self.beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut g = g;
        let fuel = g.decide(me);
        if g.finished { self.main.notify_all(); return 0 }
        if g.turn == me { return fuel }
        FUEL[g.turn].store(fuel, std::sync::atomic::Ordering::Relaxed);
        self.wake[g.turn].notify_one();
        if g.pcs[me] == Pc::Done { return 0 }
        while g.turn != me { g = self.wake[me].wait(g).unwrap() }
        FUEL[me].load(std::sync::atomic::Ordering::Relaxed)
    }
    /// The running caller has used up its steps.
    #[cold]
    fn preempt(&self, l: &Local) {
        let sim = l.sim.replace(std::ptr::null());
        let me = l.me.get();
        let mut g = self.inner.lock().unwrap();
        g.mid_call += 1;
        let f = self.hand_over(g, me);
        l.fuel.set(f);
        l.sim.set(sim);
    }
    fn futex_wait(&self, me: usize, addr: usize, timeout: bool) {
        L.with(|l| {
            let sim = l.sim.replace(std::ptr::null());
            let mut g = self.inner.lock().unwrap();
            g.futex += 1;
            g.pcs[me] = if timeout { Pc::Ready } else { Pc::Futex(addr) };
            let f = self.hand_over(g, me);
            l.fuel.set(f);
            l.sim.set(sim);
        });
    }
    fn futex_wake(&self, addr: usize, n: i32) -> i64 {
        L.with(|l| {
            let sim = l.sim.replace(std::ptr::null());
            let mut g = self.inner.lock().unwrap();
            let mut woken = 0;
            for p in g.pcs.iter_mut() { if woken < n as i64 && *p == Pc::Futex(addr) { *p = Pc::Ready; woken += 1 } }
            drop(g);
            l.sim.set(sim);
            woken
        })
    }
    fn acquire(&self, me: usize, conv: usize, exclusive: bool, op: usize) {
        let mut g = self.inner.lock().unwrap();
        g.pcs[me] = Pc::Wants(conv, exclusive);
        let f = self.hand_over(g, me);
        let mut g = self.inner.lock().unwrap();
        g.pcs[me] = Pc::Ready;
        if exclusive { g.locks[conv].writer = true; g.order.push((conv, op)) } else { g.locks[conv].readers += 1 }
        drop(g);
        L.with(|l| l.fuel.set(f));
    }
    fn release(&self, conv: usize, exclusive: bool) {
        let mut g = self.inner.lock().unwrap();
        if exclusive { g.locks[conv].writer = false } else { g.locks[conv].readers -= 1 }
    }
}
static FUEL: [std::sync::atomic::AtomicU64; 8] = [const { std::sync::atomic::AtomicU64::new(0) }; 8];

struct Shared(Vec<UnsafeCell<Conv>>);
// SAFETY: access is governed by the simulated readers-writer lock of each converter
unsafe impl Sync for Shared {}

fn thread_state(tid: i32) -> Option<(char, u64)> {
    let t = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = t[t.rfind(')')? + 2..].split(' ').collect();
    Some((f[0].chars().next()?, f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?))
}

pub fn l07(case: &mut LibCase, st: &mut Stats) -> Vec<Viol> {
    let callers = case.ops.iter().map(|o| o.by as usize).max().map_or(1, |m| m + 1).min(8);
    let convs = 2;
    let shared = Shared((0..convs).map(|_| UnsafeCell::new(case.cfg.build())).collect());
    let given = case.sched.clone();
    let at = shared.0.as_ptr() as usize;
    let sim = Sim {
        convs: (at, at + size_of_val(&shared.0[..])),
        inner: Mutex::new(Inner {
            turn: usize::MAX, pcs: [Pc::Ready; 8], n: callers, locks: Default::default(), pos: 0,
            random: if given.is_none() { Some(Rng::new(case.seed)) } else { None },
            given: given.unwrap_or_default(), made: Vec::with_capacity(MAX_DECS + 1),
            switches: 0, mid_call: 0, order: Vec::with_capacity(case.ops.len() + 1), trace: 0, finished: false, futex: 0, bursts: case.seed % 4 == 0, hot: 0,
        }),
        wake: Default::default(), main: Condvar::new(), tids: Mutex::new([0; 8]), beat: Default::default(),
    };
    let mut results: Vec<Vec<Res>> = vec![vec![]; case.ops.len()];
    {
        let out: Vec<Mutex<Vec<(usize, Vec<Res>)>>> = (0..callers).map(|_| Mutex::new(vec![])).collect();
        let ops = &case.ops;
        let ready = std::sync::Barrier::new(callers + 1);
        std::thread::scope(|s| {
            for me in 0..callers {
                let (sim, shared, out, ready) = (&sim, &shared, &out, &ready);
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                    sim.tids.lock().unwrap()[me] = unsafe { libc::gettid() };
                    ready.wait();
                    {
                        let mut g = sim.inner.lock().unwrap();
                        while g.turn != me { g = sim.wake[me].wait(g).unwrap() }
                        drop(g);
                        L.with(|l| { l.fuel.set(FUEL[me].load(std::sync::atomic::Ordering::Relaxed)); l.me.set(me) });
                    }
                    for (i, o) in ops.iter().enumerate().filter(|(_, o)| o.by as usize == me) {
                        let conv = o.conv as usize % convs;
                        let exclusive = matches!(o.kind, Kind::Session(_) | Kind::Reset);
                        sim.acquire(me, conv, exclusive, i);
                        let c = shared.0[conv].get();
                        L.with(|l| l.sim.set(sim));
                        // SAFETY: see `Shared`
                        let r = unsafe { if exclusive { (*c).call(&o.kind) } else { (*c).shared(&o.kind) } };
                        L.with(|l| l.sim.set(std::ptr::null()));
                        sim.release(conv, exclusive);
                        out[me].lock().unwrap().push((i, r));
                    }
                    let mut g = sim.inner.lock().unwrap();
                    g.hot += L.with(|l| l.hot.get());
                    g.pcs[me] = Pc::Done;
                    sim.hand_over(g, me);
                }).expect("thread");
            }
            ready.wait();
            let mut g = sim.inner.lock().unwrap();
            let f = g.decide(usize::MAX);
            if g.turn != usize::MAX { FUEL[g.turn].store(f, std::sync::atomic::Ordering::Relaxed); sim.wake[g.turn].notify_one() }
            // the caller whose turn it is must be running: if it sleeps, it waits for something
            // that a suspended call holds
            let (mut last, mut asleep) = (0, 0);
            while !g.finished {
                let (g2, t) = sim.main.wait_timeout(g, Duration::from_millis(50)).unwrap();
                g = g2;
                if g.finished || !t.timed_out() { continue }
                let beat = sim.beat.load(std::sync::atomic::Ordering::Relaxed);
                let turn = g.turn;
                drop(g);
                let tid = sim.tids.lock().unwrap()[turn];
                let state = thread_state(tid);
                if beat == last && state.is_some_and(|s| s.0 == 'S') { asleep += 1 } else { asleep = 0 }
                last = beat;
                if asleep > 20 {
                    crate::worker::die("L07", "a call sleeps without using the processor, while every other call is suspended");
                }
                g = sim.inner.lock().unwrap();
            }
        });
        for o in out { for (i, r) in o.into_inner().unwrap() { results[i] = r } }
    }
    let inner = sim.inner.into_inner().unwrap();
    if case.sched.is_none() {
        case.sched = Some(inner.made.clone());
    }
    st.add("scheduling decisions", inner.made.len() as u64);
    st.add("fault: call suspended in the middle", inner.mid_call);
    st.add("switches between callers", inner.switches);
    st.add("accesses to mutable statics", inner.hot);
    st.add("waits for a lock inside the library", inner.futex);
    let h = hash(|h| { std::hash::Hasher::write_u64(h, inner.trace); std::hash::Hash::hash(&results, h) });
    st.distinct.insert(h);
    if inner.mid_call > 0 { st.nontrivial.insert(h); }
    let mut v = vec![];
    for (i, r) in results.iter().enumerate() { for x in r { if let Res::Panic(m) = x { v.push(viol("L07", format!("call {i} panicked: {m}"))); return v } } }
    let order = |conv: usize| inner.order.iter().filter(move |o| o.0 == conv).map(|o| o.1);
    for conv in 0..convs {
        let mut c = case.cfg.build();
        for i in order(conv) {
            let r = c.call(&case.ops[i].kind);
            st.add("session calls compared with the serial order", 1);
            if let Some(d) = diff(&results[i], &r) { v.push(viol("L07", format!("session call {i} differs from the serial order of the session calls: {d}"))); return v }
        }
    }
    for (i, o) in case.ops.iter().enumerate() {
        if matches!(o.kind, Kind::Iso(_) | Kind::Batch(_)) {
            let r = case.cfg.build().shared(&o.kind);
            st.add("shared calls compared with a call made alone", 1);
            if let Some(d) = diff(&results[i], &r) { v.push(viol("L07", format!("call {i} differs from the same call made alone: {d}"))); return v }
        }
    }
    v
}
