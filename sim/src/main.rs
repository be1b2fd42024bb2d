mod alone;
mod cli;
mod doc;
mod fs;
#[path = "gen.rs"]
mod gen_;
mod hist;
mod js;
mod model;
mod os;
mod place;
mod py;
mod run;
mod sched;
mod util;
mod web;
mod worker;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

use run::{Budget, Case, Report};
use serde_json::json;

pub fn verif_dir() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }
pub fn env_path(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| format!("{}/target/{}", verif_dir(), if k == "SIM_BIN" { "repo/release/mathcore" } else { "libsimos.so" }))
}
fn env_num(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }
fn threads() -> usize { env_num("SIM_THREADS", std::thread::available_parallelism().map_or(8, |n| n.get() as u64).min(8)) as usize }

/// Number of cases and seconds: the search ends at whichever comes first.
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let q = match prop { "C07" => 60_000, "C08" => 16_000, "L09" => 90_000, "L10" => 100_000, "L03" | "L08" => 200_000, "P01" | "J01" | "W01" => 60_000, p if p.starts_with('L') => 400_000, _ => 150_000 };
    if thorough { (q * 1000, 600) } else { (q, 100) }
}
/// (how cases are made and what is non-trivial, real components, stubs and models)
fn about(prop: &str) -> (&'static str, &'static str, &'static str) {
    match &prop[..1] {
        "C" => ("a case is a file tree, configuration, options, standard input and a fault/schedule plan, all drawn from (seed, property, case number); executions are hashed over the sequence of operations with their process, inode, result and error, and one is non-trivial if at least one fault was injected or one scheduling, directory-order or clock decision departed from the default",
            "the mathcore binary built from /repo (argument parsing, configuration, file handling, replacer, library, std, libc)",
            "file system, directory streams, standard streams, clock, random salt and process scheduling (simos); file-system model for power failures; document scanner as oracle; the library itself is the reference for a single formula"),
        "L" => ("a case is a configuration and a history of session, isolated and batch calls and resets with their snippets (and, for L07, callers and a schedule), all drawn from (seed, property, case number); executions are hashed over all results, the states reached by the model and the schedule, and one is non-trivial if a call failed, the session was reset or a call was suspended in the middle",
            "the math-core library built from /repo (lexer, parser, environments, macros, labels, rendering), linked into the simulator; for L07 on real threads",
            "callers, their scheduling and the lock of the session; memory allocator (counting, and suspending callers); model of numbers, labels and commands as oracle, or another history on another converter"),
        "P" => ("a case is one or two converter objects, a history of calls by up to four Python threads with the arguments they are given (readable or not, with things that happen while they are read) and a schedule, all drawn from (seed, case number); executions are hashed over the order and results of all calls, and one is non-trivial if a call raised or was made while another one read its arguments",
            "the extension module built from /repo (argument reading, locking, error mapping, the library), its Python package, and the CPython interpreter",
            "callers and their scheduling; interpreter lock, lock waiting and memory allocation of the extension module pass through the scheduler; the library, linked into the simulator, as oracle for a serial order of the calls"),
        "J" => ("a case is a history of converter objects made, used, freed and dropped by a JavaScript program, with the arguments they are given (readable or not, with exceptions and calls while they are read), moments of garbage collection and a limit for the memory, all drawn from (seed, case number); executions are hashed over the order and results of all calls, and one is non-trivial if a call raised, was made while another one read its arguments, or the memory was limited",
            "the WebAssembly module built from /repo (argument reading, error mapping, allocator, the library) and its generated JavaScript half, in node.js",
            "the calling program; garbage collection (FinalizationRegistry) and the limit of the memory; the library, built for the host and linked into the simulator, as oracle"),
        "W" => ("a case is what users do on a sequence of pages of the playground (typing, choosing options, editing the configuration, making, copying and opening links, some of them broken) and when and how each thing the page waits for ends, all drawn from (seed, case number); executions are hashed over everything the pages showed after each step, and one is non-trivial if a task failed or ended before an older one, the user acted or left while the page waited, fields were restored or a link was broken",
            "the scripts and the document of the playground, the WebAssembly module built from /repo with its generated JavaScript half (web variant), in node.js",
            "browser: document, events, timers, download of the module, compression streams, clipboard, address and history; the library, built for the host and linked into the simulator, as oracle"),
        _ => unreachable!(),
    }
}
fn is_fault(k: &str) -> bool { k.starts_with("fault: ") || k.starts_with("lasting error on ") }

fn evidence(prop: &str, tier: &str, seed: u64, rep: &Report) {
    let (rule, real, stub) = about(prop);
    let faults: serde_json::Map<String, serde_json::Value> = rep.stats.n.iter().filter(|(k, _)| is_fault(k)).map(|(k, v)| (k.clone(), json!(v))).collect();
    let other: serde_json::Map<String, serde_json::Value> = rep.stats.n.iter().filter(|(k, _)| !is_fault(k)).map(|(k, v)| (k.clone(), json!(v))).collect();
    let per_hour = |n: u64| (n as f64 / rep.wall.max(0.001) * 3600.0) as u64;
    let runs = rep.stats.n.get("simulated runs").copied().unwrap_or(0);
    let text = serde_json::to_string_pretty(&json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": rep.cases,
            "distinct_nontrivial": rep.stats.nontrivial.len(),
            "rule": rule,
            "samples": rep.samples,
            "cases_per_hour": per_hour(rep.cases),
            "simulated_runs_per_hour": per_hour(runs),
            "simulated_time_ms": rep.stats.n.get("simulated clock ms").copied().unwrap_or(0),
            "distinct_executions": rep.stats.distinct.len(),
            "faults_injected": faults,
            "counters": other,
            "real_components": real,
            "stub_components": stub,
        },
        "wall_s": (rep.wall * 100.0).round() / 100.0,
        "violations": rep.found.is_some() as u32,
    })).unwrap();
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), text + "\n") { eprintln!("cannot write the evidence file: {e}"); std::process::exit(3) }
}

fn check<C: Case>(prop: &'static str, thorough: bool) -> i32 {
    let seed = env_num("VERIF_SEED", 1);
    let (cases, secs) = budget(prop, thorough);
    let b = Budget { cases: env_num("SIM_CASES", cases), secs: env_num("SIM_SECS", secs), threads: threads() };
    let rep = if prop.starts_with('L') { worker::search(prop, seed, thorough, b) } else { run::search::<C>(prop, seed, thorough, b) };
    evidence(prop, if thorough { "thorough" } else { "quick" }, seed, &rep);
    println!("{prop}: {} cases, {:.1} s, {} distinct executions, {} of them non-trivial", rep.cases, rep.wall, rep.stats.distinct.len(), rep.stats.nontrivial.len());
    if std::env::var("SIM_VERBOSE").is_ok() { for (k, v) in &rep.stats.n { println!("  {k}: {v}") } }
    for k in &rep.known { println!("KNOWN-FINDING: property={prop} {k}") }
    match rep.found {
        Some(f) => { println!("VIOLATION property={} replay={}\n  {} (case {})", f.prop, f.replay, f.msg, f.index); 1 }
        None => 0,
    }
}
fn replay<C: Case>(v: &serde_json::Value, p: &str) -> i32 { if p.starts_with('L') { return worker::replay(v, prop(p)) as i32 } run::replay::<C>(v["case"].clone(), p) as i32 }
fn determinism<C: Case>(prop: &'static str, n: u64) -> i32 {
    let bad = run::determinism::<C>(prop, env_num("VERIF_SEED", 1), n, if prop.starts_with('L') { 1 } else { threads() });
    println!("{prop}: {bad} differing");
    (bad > 0) as i32
}

const PROPS: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "L01", "L02", "L03", "L04", "L05", "L06", "L07", "L08", "L09", "L10", "P01", "J01", "W01"];
fn prop(p: &str) -> &'static str { PROPS.into_iter().find(|q| *q == p).unwrap_or_else(|| panic!("unknown property {p}")) }

macro_rules! by_family { ($p:expr, $f:ident, $($a:expr),*) => { match &$p[..1] { "C" => $f::<cli::CliCase>($($a),*), "L" => $f::<hist::LibCase>($($a),*), "P" => $f::<py::PyCase>($($a),*), "J" => $f::<js::JsCase>($($a),*), "W" => $f::<web::WebCase>($($a),*), _ => panic!("unknown property {}", $p) } } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match (a.get(1).map(String::as_str), a.len()) {
        (Some("check"), 3..) => { let p = prop(&a[2]); let t = a.get(3).is_some_and(|t| t == "thorough"); by_family!(p, check, p, t) }
        (Some("replay"), 3) => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("json");
            let p = v["property"].as_str().expect("property").to_string();
            by_family!(p, replay, &v, &p)
        }
        (Some("worker"), 10) => worker::worker(&a[2..]),
        (Some("eval"), 3) => worker::eval(a[2].parse().unwrap()),
        (Some("generate"), 4) => {
            let p = prop(&a[2]);
            for i in 0..a[3].parse().unwrap() {
                let s = env_num("VERIF_SEED", 1);
                println!("{}", if p.starts_with('W') { serde_json::to_string(&web::WebCase::generate(p, s, i, false)).unwrap() } else if p.starts_with('J') { serde_json::to_string(&js::JsCase::generate(p, s, i, false)).unwrap() } else if p.starts_with('P') { serde_json::to_string(&py::PyCase::generate(p, s, i, false)).unwrap() } else if p.starts_with('L') { serde_json::to_string(&hist::LibCase::generate(p, s, i, false)).unwrap() } else { serde_json::to_string(&cli::CliCase::generate(p, s, i, false)).unwrap() });
            }
            0
        }
        (Some("determinism"), 4) => { let p = prop(&a[2]); by_family!(p, determinism, p, a[3].parse().unwrap()) }
        _ => { eprintln!("usage: sim check PROP [thorough] | replay FILE | determinism PROP N"); 3 }
    };
    std::process::exit(code);
}
