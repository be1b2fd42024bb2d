//! L10: what a converter returns depends on its configuration and its own history only. The case
//! is run in a process where everything else differs: other converters work in between, calls come
//! from several threads, and process history, random numbers, clock, environment variables and
//! heap are as the seed decides. Each converter's own history is run alone in another process.
use crate::hist::*;
use crate::run::{Stats, Viol, viol};
use crate::util::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};

// ---------------------------------------------------------------- the seams of random numbers and clock

static SALT: AtomicU64 = AtomicU64::new(0);
static DRAWN: AtomicU64 = AtomicU64::new(0);
static SHIFT: AtomicI64 = AtomicI64::new(0);
#[unsafe(no_mangle)]
unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let s = SALT.load(Ordering::Relaxed);
    if s == 0 { return unsafe { libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize } }
    let mut r = Rng::new(s ^ DRAWN.fetch_add(1, Ordering::Relaxed).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    for i in 0..len { unsafe { *buf.add(i) = r.next() as u8 } }
    len as isize
}
#[unsafe(no_mangle)]
unsafe extern "C" fn clock_gettime(clock: i32, t: *mut libc::timespec) -> i32 {
    let r = unsafe { libc::syscall(libc::SYS_clock_gettime, clock, t) as i32 };
    let s = SHIFT.load(Ordering::Relaxed);
    if s != 0 && r == 0 { unsafe { (*t).tv_sec += s } }
    r
}

// ---------------------------------------------------------------- one run

type Results = Vec<Vec<Res>>;
/// All calls in order, each on its thread; or those of one converter, on one thread.
fn play(case: &LibCase, only: Option<usize>) -> Results {
    let cfgs: Vec<&LCfg> = std::iter::once(&case.cfg).chain(&case.more).collect();
    let lazy = only.is_none() && case.seed & 1 == 1;
    let convs: Mutex<Vec<Option<Result<Conv, Res>>>> = Mutex::new(cfgs.iter().enumerate().map(|(i, c)| if lazy || only.is_some_and(|k| k != i) { None } else { Some(c.try_build()) }).collect());
    let list: Vec<(usize, usize)> = case.ops.iter().enumerate().filter(|(_, o)| only.is_none_or(|k| o.conv as usize == k)).map(|(i, o)| (i, if only.is_some() { 0 } else { o.by as usize })).collect();
    let out: Mutex<Results> = Mutex::new(vec![vec![]; case.ops.len()]);
    let (turn, cv) = (Mutex::new(0usize), Condvar::new());
    let threads = list.iter().map(|x| x.1).max().map_or(1, |m| m + 1);
    std::thread::scope(|s| for me in 0..threads {
        let (list, convs, out, turn, cv, cfgs) = (&list, &convs, &out, &turn, &cv, &cfgs);
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
            for (at, (i, _)) in list.iter().enumerate().filter(|x| x.1.1 == me) {
                let mut g = turn.lock().unwrap();
                while *g != at { g = cv.wait(g).unwrap() }
                let o = &case.ops[*i];
                let k = o.conv as usize;
                let mut cs = convs.lock().unwrap();
                if o.renew { cs[k] = None }
                let r = match cs[k].get_or_insert_with(|| cfgs[k].try_build()) { Ok(c) => c.call(&o.kind), Err(e) => vec![e.clone()] };
                out.lock().unwrap()[*i] = r;
                drop(cs);
                *g += 1;
                cv.notify_all();
            }
        }).expect("thread");
    });
    out.into_inner().unwrap()
}
/// Everything around the converters that the seed decides.
fn surroundings(case: &LibCase) {
    let mut r = Rng::new(case.seed ^ 0x616c_6f6e);
    SALT.store(r.next() | 1, Ordering::Relaxed);
    SHIFT.store(*r.pick(&[0, 1, -1, 86_400, 400_000_000, -1_000_000_000]), Ordering::Relaxed);
    for k in ["LANG", "LC_ALL", "TZ", "HOME", "TERM", "NO_COLOR", "COLUMNS", "RUST_BACKTRACE", "RUST_LOG", "DEBUG"] {
        // SAFETY: there is no other thread yet
        if r.chance(1, 2) { unsafe { std::env::set_var(k, *r.pick(&["", "C", "1", "de_DE.UTF-8", "tr_TR.UTF-8", "full", "UTC+3", "7"])) } } else { unsafe { std::env::remove_var(k) } }
    }
    let mut keep: Vec<Vec<u8>> = vec![];
    for _ in 0..r.below(60) { keep.push(vec![0xa5; r.range(1, 3000)]); if r.chance(1, 3) { let i = r.below(keep.len()); keep.swap_remove(i); } }
    std::mem::forget(keep);
    // what the process did before
    if r.chance(1, 2) {
        let cfg = LCfg { pretty: r.below(3) as u8, global_group: r.chance(1, 2), ignore_unknown: r.chance(1, 2), unicode_never: r.chance(1, 2), annotation: r.chance(1, 2), id_prefix: "old-".into(), ..Default::default() };
        let mut c = cfg.build();
        let lines: Vec<&str> = CORPUS.lines().collect();
        for _ in 0..r.range(1, 4) { warm(&mut c, r.pick(&lines)) }
        for o in &case.ops { if r.chance(1, 3) { c.call(&o.kind); } }
        if r.chance(1, 2) { std::mem::forget(c) }
    }
}

/// Runs `f` in a copy of this process, which has never called the library.
fn fork<T: serde::Serialize + serde::de::DeserializeOwned + Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(p.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        let l = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
        unsafe { libc::close(p[0]); libc::setrlimit(libc::RLIMIT_CPU, &l); }
        SALT.store(1, Ordering::Relaxed);
        // a new thread, because the random numbers of this one may have been drawn already
        let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).expect("thread").join());
        let Ok(r) = r else { unsafe { libc::_exit(98) } };
        let b = serde_json::to_vec(&r).unwrap();
        let mut at = 0;
        while at < b.len() {
            let n = unsafe { libc::write(p[1], b[at..].as_ptr().cast(), b.len() - at) };
            if n <= 0 { unsafe { libc::_exit(99) } }
            at += n as usize;
        }
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(p[1]) };
    let mut b = vec![];
    let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(p[0]) };
    let _ = std::io::Read::read_to_end(&mut f, &mut b);
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if status != 0 { return Err(format!("wait status {status}")) }
    serde_json::from_slice(&b).map_err(|e| e.to_string())
}

pub fn l10(case: &LibCase, st: &mut Stats) -> Vec<Viol> {
    let together = fork(|| { surroundings(case); let r = play(case, None); (r, DRAWN.load(Ordering::Relaxed)) });
    if let Ok(t) = &together { case.record(st, &t.0); st.add("fault: draws of simulated random numbers", t.1) }
    let threads: std::collections::BTreeSet<u8> = case.ops.iter().map(|o| o.by).collect();
    if threads.len() > 1 { st.add("fault: converters moved between threads", 1) }
    st.add("fault: clock, environment, heap and process history changed", 1);
    for k in 0..=case.more.len() {
        if case.ops.iter().all(|o| o.conv as usize != k) { continue }
        match (&together, fork(|| play(case, Some(k)))) {
            (Ok((t, _)), Ok(a)) => for (i, o) in case.ops.iter().enumerate().filter(|(_, o)| o.conv as usize == k) {
                st.add("calls compared with the converter's history alone", 1);
                if o.renew { st.add("converters created anew", 1) }
                if let Some(d) = diff(&t[i], &a[i]) { return vec![viol("L10", format!("call {i}, on converter {k}, differs from the same history of this converter alone: {d}"))] }
            },
            (Ok(_), Err(e)) => return vec![viol("L10", format!("the history of converter {k} alone ends the process ({e}), and together with others it does not"))],
            (Err(_), Err(_)) => return vec![],
            (Err(_), Ok(_)) => {}
        }
    }
    if let Err(e) = together { return vec![viol("L10", format!("the histories of several converters end the process ({e}), and each of them alone does not"))] }
    vec![]
}
