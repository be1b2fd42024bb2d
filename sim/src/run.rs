//! Search, minimisation, replay files and evidence: common to all simulations.
use crate::util::*;
use serde::{Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol { pub prop: &'static str, pub msg: String }
pub fn viol(prop: &'static str, msg: impl Into<String>) -> Viol { Viol { prop, msg: msg.into() } }

/// What runs covered; counters are added up, the others are sets of hashes: of all recorded
/// executions, and of those that are not trivial.
#[derive(Default)]
pub struct Stats { pub n: BTreeMap<String, u64>, pub distinct: HashSet<u64>, pub nontrivial: HashSet<u64> }
impl Stats {
    pub fn add(&mut self, k: &str, v: u64) { if v > 0 { *self.n.entry(k.to_string()).or_default() += v } }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n { *self.n.entry(k).or_default() += v }
        self.distinct.extend(o.distinct);
        self.nontrivial.extend(o.nontrivial);
    }
}

/// One simulated execution, complete enough to be repeated exactly.
pub trait Case: Clone + Serialize + DeserializeOwned + Send {
    type Ctx: Send;
    fn ctx() -> Self::Ctx;
    /// Case number `i` of property `prop`.
    fn generate(prop: &str, seed: u64, i: u64, thorough: bool) -> Self;
    /// Run and judge. Sets every decision taken so that the case repeats exactly.
    fn eval(&mut self, ctx: &mut Self::Ctx, stats: &mut Stats) -> Vec<Viol>;
    /// Smaller variants, most drastic first.
    fn shrink(&self) -> Vec<Self>;
}

pub struct Budget { pub cases: u64, pub secs: u64, pub threads: usize }

pub struct Found { pub prop: String, pub msg: String, pub index: u64, pub replay: String }

#[derive(Default)]
pub struct Report { pub stats: Stats, pub cases: u64, pub found: Option<Found>, pub known: Vec<String>, pub samples: Vec<String>, pub wall: f64 }

/// Findings listed in /verif/known_findings.jsonl for this property: violations whose message
/// contains the signature are reported as known.
pub fn known(prop: &str) -> Vec<String> {
    let path = format!("{}/known_findings.jsonl", crate::verif_dir());
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines().filter_map(|l| serde_json::from_str::<serde_json::Value>(l).ok())
        .filter(|v| v["status"] == "known" && v["property"] == prop)
        .filter_map(|v| v["signature"].as_str().map(String::from)).collect()
}

pub fn search<C: Case>(prop: &'static str, seed: u64, thorough: bool, b: Budget) -> Report {
    let start = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let best: Mutex<Option<(u64, C, Viol)>> = Mutex::new(None);
    let total = Mutex::new((Stats::default(), 0u64, HashSet::<String>::new()));
    let known = known(prop);
    std::thread::scope(|s| {
        for _ in 0..b.threads {
            s.spawn(|| {
                let mut ctx = C::ctx();
                let mut st = Stats::default();
                let mut n = 0;
                let mut seen = HashSet::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                    if i >= b.cases || start.elapsed() > Duration::from_secs(b.secs) || stop.load(Ordering::Relaxed) { break }
                    let mut c = C::generate(prop, seed, i, thorough);
                    let v = c.eval(&mut ctx, &mut st);
                    n += 1;
                    for x in v {
                        if x.prop != prop { continue }
                        if let Some(k) = known.iter().find(|k| x.msg.contains(k.as_str())) { seen.insert(k.clone()); continue }
                        let mut g = best.lock().unwrap();
                        if g.as_ref().is_none_or(|(j, _, _)| i < *j) { *g = Some((i, c.clone(), x)) }
                        stop.store(true, Ordering::Relaxed);
                        break;
                    }
                }
                let mut g = total.lock().unwrap();
                g.0.merge(st);
                g.1 += n;
                g.2.extend(seen);
            });
        }
    });
    let (stats, cases, seen) = total.into_inner().unwrap();
    let mut rep = Report { stats, cases, ..Default::default() };
    rep.known = seen.into_iter().collect();
    rep.known.sort();
    if let Some((i, c, v)) = best.into_inner().unwrap() {
        let (small, v) = minimise(c, v, &known);
        let dir = format!("{}/replays", crate::verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{prop}-{seed}-{i}.json");
        let text = serde_json::to_string_pretty(&serde_json::json!({
            "property": prop, "seed": seed, "index": i, "violation": v.msg, "case": small })).unwrap();
        if let Err(e) = std::fs::write(&file, text) { eprintln!("cannot write {file}: {e}") }
        rep.found = Some(Found { prop: prop.into(), msg: v.msg, index: i, replay: file });
    }
    for i in 0..3u64 {
        let c = C::generate(prop, seed, i * 7 + 1, thorough);
        let mut t = serde_json::to_string(&c).unwrap();
        if t.len() > 1500 { let mut k = 1500; while !t.is_char_boundary(k) { k -= 1 } t.truncate(k); t.push_str("...") }
        rep.samples.push(t);
    }
    rep.wall = start.elapsed().as_secs_f64();
    rep
}

fn still<C: Case>(c: &mut C, ctx: &mut C::Ctx, prop: &str, known: &[String]) -> Option<Viol> {
    let mut st = Stats::default();
    c.eval(ctx, &mut st).into_iter().find(|v| v.prop == prop && !known.iter().any(|k| v.msg.contains(k.as_str())))
}

fn minimise<C: Case>(c: C, v: Viol, known: &[String]) -> (C, Viol) {
    let mut ctx = C::ctx();
    let start = Instant::now();
    let mut cur = c.clone();
    // the frozen case must repeat by itself
    let Some(mut v2) = still(&mut cur, &mut ctx, v.prop, known) else {
        return (c, viol(v.prop, format!("{} [did not repeat]", v.msg)));
    };
    let mut tries = 0;
    'outer: loop {
        for mut cand in cur.shrink() {
            if tries > 1500 || start.elapsed() > Duration::from_secs(40) { break 'outer }
            tries += 1;
            if let Some(x) = still(&mut cand, &mut ctx, v.prop, known) {
                cur = cand;
                v2 = x;
                continue 'outer;
            }
        }
        break;
    }
    (cur, v2)
}

pub fn replay<C: Case>(v: serde_json::Value, prop: &str) -> bool {
    let mut c: C = serde_json::from_value(v).expect("replay file");
    let mut ctx = C::ctx();
    let mut st = Stats::default();
    let mut hit = false;
    for x in c.eval(&mut ctx, &mut st) {
        println!("{} {}", x.prop, x.msg);
        hit |= x.prop == prop;
    }
    hit
}

/// Every case twice, compared by its frozen form and verdict.
pub fn determinism<C: Case>(prop: &'static str, seed: u64, n: u64, threads: usize) -> u64 {
    let sum = |threads: usize| {
        let next = AtomicUsize::new(0);
        let out = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| for _ in 0..threads { s.spawn(|| {
            let mut ctx = C::ctx();
            loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                if i >= n { break }
                let mut c = C::generate(prop, seed, i, false);
                let mut st = Stats::default();
                let v = c.eval(&mut ctx, &mut st);
                let t = format!("{}{:?}{:?}{:?}", serde_json::to_string(&c).unwrap(), v, st.n, { let mut d: Vec<_> = st.distinct.iter().copied().collect(); d.sort(); d });
                // and once more from the frozen form
                let mut c2 = c.clone();
                let mut st2 = Stats::default();
                let v2 = c2.eval(&mut ctx, &mut st2);
                let same = format!("{v:?}") == format!("{v2:?}") && st.distinct == st2.distinct;
                if !same { println!("replay of case {i} differs: {v:?} / {v2:?}") }
                out.lock().unwrap().insert(i, (hash(|h| std::hash::Hasher::write(h, t.as_bytes())), same, t));
            }
        }); });
        out.into_inner().unwrap()
    };
    let (a, b) = (sum(threads), sum(1));
    let mut bad = 0;
    for (i, x) in &a {
        if !x.1 { bad += 1; continue }
        if x.0 != b[i].0 {
            bad += 1;
            println!("case {i} differs");
            if bad < 3 { println!("A {}\nB {}", x.2, b[i].2) }
        }
    }
    bad
}
