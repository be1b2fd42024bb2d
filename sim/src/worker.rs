//! Worker processes for the library family: a call that overflows the stack, never returns or
//! takes all memory ends a worker, not the check, and is reported with its case.
use crate::hist::LibCase;
use crate::run::{Budget, Case, Found, Report, Stats, Viol, known, viol};
use serde_json::{Value, json};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

static DIE_FD: AtomicI32 = AtomicI32::new(2);
/// End this process with a violation from a place where nothing else can be done. Allocates nothing.
pub fn die(prop: &str, msg: &str) -> ! {
    let fd = DIE_FD.load(Ordering::Relaxed);
    for s in ["DIE ", prop, " ", msg, "\n"] { unsafe { libc::write(fd, s.as_ptr().cast(), s.len()) }; }
    unsafe { libc::_exit(97) }
}
fn quiet() { std::panic::set_hook(Box::new(|_| {})) }
/// Everything the process does lazily once is done before the callers are scheduled.
fn warm_up() {
    for cfg in [crate::hist::LCfg::default(), crate::hist::LCfg { pretty: 1, ignore_unknown: true, unicode_never: true, annotation: true, ..Default::default() }] {
        let mut c = cfg.build();
        for t in crate::hist::CORPUS.lines() { crate::hist::warm(&mut c, t) }
    }
}
fn on_large_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|e| {
        eprintln!("harness error: {}", e.downcast_ref::<String>().cloned().unwrap_or_else(|| e.downcast_ref::<&str>().map_or(String::new(), |s| s.to_string())));
        std::process::exit(3)
    }))
}

/// Shared with the parent: [case in work + 1, cases done, stop].
struct Page(*mut AtomicU64);
unsafe impl Sync for Page {}
unsafe impl Send for Page {}
impl Page {
    fn open(path: &str, create: bool) -> Page {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).expect("page");
        if create { f.set_len(4096).expect("page") }
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, std::os::fd::AsRawFd::as_raw_fd(&f), 0) };
        assert!(p != libc::MAP_FAILED);
        Page(p.cast())
    }
    fn at(&self, i: usize) -> &AtomicU64 { unsafe { &*self.0.add(i) } }
}

/// `sim worker PROP SEED thorough|quick K N CASES SECS PATH`
pub fn worker(a: &[String]) -> i32 {
    let prop = crate::prop(&a[0]);
    let (seed, thorough): (u64, bool) = (a[1].parse().unwrap(), a[2] == "thorough");
    let n: Vec<u64> = a[3..7].iter().map(|x| x.parse().unwrap()).collect();
    let (k, step, cases, secs) = (n[0], n[1], n[2], n[3]);
    let path = a[7].clone();
    let page = Page::open(&format!("{path}.page"), false);
    let out = std::fs::File::create(format!("{path}.die")).expect("file");
    DIE_FD.store(std::os::fd::IntoRawFd::into_raw_fd(out), Ordering::Relaxed);
    quiet();
    let known = known(prop);
    on_large_stack(|| {
        if prop == "L07" { warm_up() }
        let start = Instant::now();
        let mut st = Stats::default();
        let (mut done, mut i) = (0u64, k);
        let mut seen = HashSet::new();
        let mut hit = Value::Null;
        while i < cases && start.elapsed() < Duration::from_secs(secs) && page.at(2).load(Ordering::Relaxed) == 0 {
            page.at(0).store(i + 1, Ordering::Relaxed);
            let mut c = LibCase::generate(prop, seed, i, thorough);
            let v = c.eval(&mut (), &mut st);
            done += 1;
            page.at(1).store(done, Ordering::Relaxed);
            for x in v {
                if x.prop != prop { continue }
                if let Some(k) = known.iter().find(|k| x.msg.contains(k.as_str())) { seen.insert(k.clone()); continue }
                hit = json!({"index": i, "msg": x.msg, "case": c});
                break;
            }
            if !hit.is_null() { break }
            i += step;
        }
        page.at(0).store(0, Ordering::Relaxed);
        let v = json!({"n": st.n, "done": done, "seen": seen, "hit": hit, "distinct": st.distinct, "nontrivial": st.nontrivial});
        std::fs::write(format!("{path}.out"), serde_json::to_string(&v).unwrap()).expect("result");
    });
    0
}

fn cpu_ticks(pid: u32) -> u64 {
    let Ok(t) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0 };
    let Some(i) = t.rfind(')') else { return 0 };
    let f: Vec<&str> = t[i + 2..].split(' ').collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}
const HANG_CPU: u64 = 20; // seconds of CPU time in one case: a normal one takes milliseconds
const HANG_WALL: u64 = 150;

fn ended(status: std::process::ExitStatus, died: &str) -> String {
    use std::os::unix::process::ExitStatusExt;
    if let Some(l) = died.lines().find_map(|l| l.strip_prefix("DIE ")) { return l.split_once(' ').map_or(l, |x| x.1).to_string() }
    match status.signal() {
        Some(libc::SIGXCPU) => format!("a call did not return within {HANG_CPU} s of CPU time"),
        Some(libc::SIGABRT) => "a call ended the process (SIGABRT: stack overflow, or memory exhausted)".into(),
        Some(libc::SIGSEGV) => "a call ended the process (SIGSEGV)".into(),
        Some(s) => format!("a call ended the process (signal {s})"),
        None => format!("a call ended the process (status {:?})", status.code()),
    }
}

/// Judge one case in a process of its own.
fn judge(prop: &'static str, case: &LibCase, prelude: Option<(u64, bool, &[u64])>, known: &[String], cpu: u64) -> Option<Viol> {
    let mut ch = Command::new(std::env::current_exe().expect("self")).args(["eval", &cpu.to_string()])
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let text = serde_json::to_string(&json!({"property": prop, "case": case, "prelude": prelude.map(|(s, t, v)| json!({"seed": s, "thorough": t, "cases": v}))})).unwrap();
    let mut stdin = ch.stdin.take().unwrap();
    let mut stdout = ch.stdout.take().unwrap();
    let w = std::thread::spawn(move || { let _ = stdin.write_all(text.as_bytes()); });
    let rd = std::thread::spawn(move || { let mut s = String::new(); let _ = stdout.read_to_string(&mut s); s });
    let start = Instant::now();
    let mut wall = false;
    let status = loop {
        if let Some(s) = ch.try_wait().expect("wait") { break s }
        if start.elapsed() > Duration::from_secs(HANG_WALL) { wall = true; let _ = ch.kill(); break ch.wait().expect("wait") }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_millis(200) { 1 } else { 20 }));
    };
    let _ = w.join();
    let out = rd.join().unwrap_or_default();
    if wall { return Some(viol(prop, format!("a call did not return within {HANG_WALL} s"))) }
    if status.code() == Some(3) { eprintln!("the harness failed on a case"); return None }
    if !status.success() { return Some(viol(prop, ended(status, &out))) }
    for l in out.lines() {
        let Some((p, m)) = l.split_once('\t') else { continue };
        if p == prop && !known.iter().any(|k| m.contains(k.as_str())) { return Some(viol(prop, m)) }
    }
    None
}
/// `sim eval CPU`: the case is on standard input; one line per violation.
pub fn eval(cpu: u64) -> i32 {
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).expect("case");
    let v: Value = serde_json::from_str(&t).expect("json");
    let mut c: LibCase = serde_json::from_value(v["case"].clone()).expect("case");
    quiet();
    DIE_FD.store(1, Ordering::Relaxed);
    let p: Option<(u64, bool, Vec<u64>)> = v["prelude"].as_object().map(|p| (p["seed"].as_u64().unwrap(), p["thorough"].as_bool().unwrap(), p["cases"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()));
    let prop = crate::prop(v["property"].as_str().unwrap());
    let found = on_large_stack(|| {
        if c.prop == "L07" { warm_up() }
        if let Some((seed, thorough, list)) = p { for i in list { LibCase::generate(prop, seed, i, thorough).eval(&mut (), &mut Stats::default()); } }
        let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
        unsafe { libc::getrusage(libc::RUSAGE_SELF, &mut ru) };
        let used = (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) as u64 + 1;
        let l = libc::rlimit { rlim_cur: used + cpu, rlim_max: used + cpu + 5 };
        unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
        c.eval(&mut (), &mut Stats::default())
    });
    let mut out = String::new();
    for x in found { out.push_str(&format!("{}\t{}\n", x.prop, x.msg.replace('\n', " "))) }
    std::io::stdout().write_all(out.as_bytes()).expect("stdout");
    0
}

struct W { ch: Child, path: String, page: Page, last: (u64, u64, Instant), ended: Option<std::process::ExitStatus>, hung: bool }

pub fn search(prop: &'static str, seed: u64, thorough: bool, b: Budget) -> Report {
    let start = Instant::now();
    let dir = format!("{}/target/run", crate::verif_dir());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let known = known(prop);
    let tier = if thorough { "thorough" } else { "quick" };
    let mut ws: Vec<W> = (0..b.threads).map(|k| {
        let path = format!("{dir}/{}-{k}", std::process::id());
        let page = Page::open(&format!("{path}.page"), true);
        let ch = Command::new(std::env::current_exe().expect("self"))
            .args(["worker", prop, &seed.to_string(), tier, &k.to_string(), &b.threads.to_string(), &b.cases.to_string(), &b.secs.to_string(), &path])
            .stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("spawn");
        W { ch, path, page, last: (0, 0, Instant::now()), ended: None, hung: false }
    }).collect();
    let mut stop = false;
    while ws.iter().any(|w| w.ended.is_none()) {
        std::thread::sleep(Duration::from_millis(50));
        for w in &mut ws {
            if w.ended.is_some() { continue }
            if let Some(s) = w.ch.try_wait().expect("wait") {
                w.ended = Some(s);
                if s.code() == Some(3) { eprintln!("a worker failed"); std::process::exit(3) }
                if !s.success() { stop = true }
                continue;
            }
            let (at, cpu) = (w.page.at(0).load(Ordering::Relaxed), cpu_ticks(w.ch.id()));
            if at != w.last.0 || at == 0 { w.last = (at, cpu, Instant::now()); continue }
            if cpu - w.last.1 > HANG_CPU * 100 || w.last.2.elapsed() > Duration::from_secs(HANG_WALL) {
                w.hung = true;
                stop = true;
                let _ = w.ch.kill();
                w.ended = Some(w.ch.wait().expect("wait"));
            }
        }
        if !stop && ws.iter().any(|w| w.ended.is_some() && std::fs::metadata(format!("{}.out", w.path)).is_ok() && w.page.at(1).load(Ordering::Relaxed) > 0) {
            // a worker that found something ends early
            for w in ws.iter().filter(|w| w.ended.is_some()) {
                let v: Value = std::fs::read_to_string(format!("{}.out", w.path)).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
                if !v["hit"].is_null() { stop = true }
            }
        }
        if stop { for w in &ws { w.page.at(2).store(1, Ordering::Relaxed) } }
    }
    let mut rep = Report::default();
    let mut seen = HashSet::new();
    let mut best: Option<(u64, usize, LibCase, String)> = None;
    for (k, w) in ws.iter().enumerate() {
        let status = w.ended.unwrap();
        let mut hit: Option<(u64, LibCase, String)> = None;
        if status.success() {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(format!("{}.out", w.path)).expect("result")).expect("json");
            for (k, n) in v["n"].as_object().unwrap() {
                let n = n.as_u64().unwrap();
                let e = rep.stats.n.entry(k.clone()).or_default();
                if k.starts_with("max ") { *e = (*e).max(n) } else { *e += n }
            }
            for h in v["distinct"].as_array().unwrap() { rep.stats.distinct.insert(h.as_u64().unwrap()); }
            for h in v["nontrivial"].as_array().unwrap() { rep.stats.nontrivial.insert(h.as_u64().unwrap()); }
            for s in v["seen"].as_array().unwrap() { seen.insert(s.as_str().unwrap().to_string()); }
            rep.cases += v["done"].as_u64().unwrap();
            let h = &v["hit"];
            if !h.is_null() { hit = Some((h["index"].as_u64().unwrap(), serde_json::from_value(h["case"].clone()).unwrap(), h["msg"].as_str().unwrap().into())) }
        } else {
            rep.cases += w.page.at(1).load(Ordering::Relaxed);
            let at = w.page.at(0).load(Ordering::Relaxed);
            if at == 0 { eprintln!("a worker ended before its first case ({status:?})"); std::process::exit(3) }
            let died = std::fs::read_to_string(format!("{}.die", w.path)).unwrap_or_default();
            let msg = if w.hung { format!("a call did not return within {HANG_CPU} s of CPU time") } else { ended(status, &died) };
            hit = Some((at - 1, LibCase::generate(prop, seed, at - 1, thorough), msg));
        }
        if let Some((i, c, m)) = hit && best.as_ref().is_none_or(|b| i < b.0) { best = Some((i, k, c, m)) }
    }
    for w in &ws { for x in ["page", "out", "die"] { let _ = std::fs::remove_file(format!("{}.{x}", w.path)); } }
    rep.known = seen.into_iter().collect();
    rep.known.sort();
    if let Some((i, k, c, msg)) = best {
        // cases this worker had evaluated before, in case the failure depends on them
        let before: Vec<u64> = (0..).map(|j| k as u64 + j * b.threads as u64).take_while(|j| *j < i).collect();
        let rep_dir = format!("{}/replays", crate::verif_dir());
        let _ = std::fs::create_dir_all(&rep_dir);
        let file = format!("{rep_dir}/{prop}-{seed}-{i}.json");
        let (small, v, prelude) = minimise(prop, c, &msg, &known, seed, thorough, &before);
        let text = serde_json::to_string_pretty(&json!({
            "property": prop, "seed": seed, "index": i, "violation": v.msg, "case": small,
            "prelude": prelude.map(|p| json!({"seed": seed, "thorough": thorough, "cases": p})) })).unwrap();
        if let Err(e) = std::fs::write(&file, text) { eprintln!("cannot write {file}: {e}") }
        rep.found = Some(Found { prop: prop.into(), msg: v.msg, index: i, replay: file });
    }
    for i in 0..3u64 {
        let mut t = serde_json::to_string(&LibCase::generate(prop, seed, i * 7 + 1, thorough)).unwrap();
        if t.len() > 1500 { let mut k = 1500; while !t.is_char_boundary(k) { k -= 1 } t.truncate(k); t.push_str("...") }
        rep.samples.push(t);
    }
    rep.wall = start.elapsed().as_secs_f64();
    rep
}

fn minimise(prop: &'static str, c: LibCase, msg: &str, known: &[String], seed: u64, thorough: bool, before: &[u64]) -> (LibCase, Viol, Option<Vec<u64>>) {
    let start = Instant::now();
    let mut cur = c.clone();
    let Some(mut v) = judge(prop, &cur, None, known, HANG_CPU) else {
        let mut n = 1;
        loop {
            let list = &before[before.len().saturating_sub(n)..];
            if let Some(v) = judge(prop, &cur, Some((seed, thorough, list)), known, HANG_CPU) { return (cur, v, Some(list.to_vec())) }
            if n >= before.len() || start.elapsed() > Duration::from_secs(120) { break }
            n *= 4;
        }
        return (c, viol(prop, format!("{msg} [did not repeat]")), None);
    };
    let cpu = if start.elapsed() > Duration::from_secs(8) { 5 } else { HANG_CPU };
    let mut tries = 0;
    'outer: loop {
        for cand in cur.shrink() {
            if tries > 2500 || start.elapsed() > Duration::from_secs(60) { break 'outer }
            tries += 1;
            if let Some(x) = judge(prop, &cand, None, known, cpu) { cur = cand; v = x; continue 'outer }
        }
        break;
    }
    if cpu != HANG_CPU && judge(prop, &cur, None, known, HANG_CPU).is_none() { return (c, viol(prop, msg), None) }
    (cur, v, None)
}

pub fn replay(v: &Value, prop: &'static str) -> bool {
    let case: LibCase = serde_json::from_value(v["case"].clone()).expect("replay file");
    let p = v["prelude"].as_object().map(|p| (p["seed"].as_u64().unwrap(), p["thorough"].as_bool().unwrap(), p["cases"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>()));
    match judge(prop, &case, p.as_ref().map(|p| (p.0, p.1, p.2.as_slice())), &[], HANG_CPU) {
        Some(x) => { println!("{} {}", x.prop, x.msg); true }
        None => false,
    }
}
