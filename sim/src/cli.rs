//! Simulations of the command-line tool (properties C01-C09).
use crate::doc::{self, Delims, DocErr};
use crate::fs::*;
use crate::gen_::{self, Cfg, DocOpt};
use crate::os::*;
use crate::run::{self, Stats, Viol, viol};
use crate::util::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::hash::Hasher;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NK { Dir, File(#[serde(with = "crate::util::bytes")] Vec<u8>), Link(String) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NodeSpec {
    pub path: String, pub kind: NK, pub mode: u32,
    #[serde(default)] pub uid: u32,
    #[serde(default)] pub flags: u32,
    #[serde(default)] pub fault_at: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd { File(String), Tree(String), Stdin, Formula(String, bool), FormulaStdin(bool) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub cmd: Cmd, pub delims: Delims, pub spell: u8,
    pub write: bool, pub dry: bool, pub cont: bool,
    pub config: Option<String>,
}
impl Opts {
    fn args(&self) -> Vec<String> {
        let mut a: Vec<String> = vec![];
        let doc = !matches!(self.cmd, Cmd::Formula(..) | Cmd::FormulaStdin(_));
        if doc {
            let dfl = Delims::default();
            for (pair, d, del, open, close) in [
                (&self.delims.inline, &dfl.inline, "--inline-del", "--inline-open", "--inline-close"),
                (&self.delims.block, &dfl.block, "--block-del", "--block-open", "--block-close"),
            ] {
                if pair == d && self.spell & 1 == 0 { continue }
                if pair.0 == pair.1 && self.spell & 2 == 0 { a.push(format!("{del}={}", pair.0)) }
                else { a.push(format!("{open}={}", pair.0)); a.push(format!("{close}={}", pair.1)) }
            }
            if self.delims.ignore_escaped { a.push("--ignore-escaped-delim".into()) }
            if self.cont { a.push("--continue-on-error".into()) }
            if self.dry { a.push("--dry-run".into()) }
        }
        if let Some(c) = &self.config { a.push("--config-file".into()); a.push(c.clone()) }
        match &self.cmd {
            Cmd::File(p) => { if self.write { a.push("-w".into()) } a.push(p.clone()) }
            Cmd::Tree(p) => { a.push("-r".into()); a.push(p.clone()) }
            Cmd::Stdin => a.push("-".into()),
            Cmd::Formula(f, b) => { a.push(format!("--formula={f}")); if *b { a.push("--block".into()) } }
            Cmd::FormulaStdin(b) => a.push(if *b { "--block" } else { "--inline" }.into()),
        }
        a
    }
    fn in_place(&self) -> bool { !self.dry && match self.cmd { Cmd::Tree(_) => true, Cmd::File(_) => self.write, _ => false } }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mean { Good(Cfg), Bad, BadMacro(Cfg) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunSpec {
    pub opts: Opts,
    #[serde(with = "crate::util::bytes")] pub stdin: Vec<u8>,
    #[serde(default)] pub stdin_fault: Option<u32>,
    #[serde(default)] pub out_limit: Option<(u32, u32)>,
    #[serde(default)] pub uid: u32,
    #[serde(default)] pub kill_at: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CliCase {
    pub prop: String,
    pub nodes: Vec<NodeSpec>,
    pub cwd: String,
    /// what each configuration file in the tree means
    pub cfgs: Vec<(String, Mean)>,
    pub runs: Vec<RunSpec>,
    pub plan: Plan,
    /// further interrupted runs before the final undisturbed one (C08): plan and how to cut
    #[serde(default)] pub again: Vec<(Plan, Cut)>,
    pub salt: u64,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut { None, Power }

pub const OTHER: &str = "/sim/other";

// ------------------------------------------------------------------ expectations
#[derive(Debug, Clone)]
struct Target { ino: u32, path: String, orig: Vec<u8>, conv: Result<Vec<u8>, Option<DocErr>> }
#[derive(Debug, Clone)]
enum Exp {
    /// the command line itself is refused (empty delimiters)
    Usage,
    /// configuration refused with one of these statuses
    /// (and with this report)
    Refuse(&'static [i32], Option<String>),
    Out(Vec<u8>),
    Fail(DocErr),
    Io(&'static str),
    Files(Vec<Target>),
}

impl CliCase {
    fn build(&self) -> (Fs, u32) {
        let mut fs = Fs::empty();
        for n in &self.nodes {
            let (dir, name) = n.path.rsplit_once('/').unwrap();
            let mut cur = fs.root;
            let mut ok = true;
            for p in dir.split('/').filter(|p| !p.is_empty()) {
                match fs.ents.get(&(cur, p.to_string())).copied() {
                    Some(i) if fs.is_dir(i) => cur = i,
                    Some(_) => { ok = false; break }
                    None => cur = fs.add(cur, p, Kind::Dir, 0o755),
                }
            }
            if !ok || fs.ents.contains_key(&(cur, name.to_string())) { continue }
            let k = match &n.kind { NK::Dir => Kind::Dir, NK::File(d) => Kind::File(d.clone()), NK::Link(t) => Kind::Link(t.clone()) };
            let i = fs.add(cur, name, k, if matches!(n.kind, NK::Link(_)) { 0o777 } else { n.mode });
            let x = fs.node_mut(i);
            x.uid = n.uid; x.flags = n.flags; x.fault_at = n.fault_at;
        }
        let mut cwd = fs.root;
        for p in self.cwd.split('/').filter(|p| !p.is_empty()) {
            cwd = match fs.ents.get(&(cwd, p.to_string())).copied() { Some(i) => i, None => fs.add(cwd, p, Kind::Dir, 0o755) };
        }
        (fs, cwd)
    }
    fn cfg_of(&self, fs: &Fs, cwd: u32, o: &Opts) -> Result<Cfg, Exp> {
        let path = o.config.clone().unwrap_or_else(|| "mathcore.toml".into());
        let Some(i) = fs.resolve(cwd, &path, true) else {
            return if o.config.is_some() { Err(Exp::Refuse(&[3], None)) } else { Ok(Cfg::default()) };
        };
        for (p, m) in &self.cfgs {
            if fs.resolve(cwd, p, true) == Some(i) {
                return match m {
                    Mean::Good(c) => Ok(c.clone()),
                    Mean::Bad => Err(Exp::Refuse(&[4], None)),
                    Mean::BadMacro(c) => Err(Exp::Refuse(&[2], math_core::LatexToMathML::new(c.build()).err().map(|e| unnumbered(&doc::report_in(&format!("macro {}", e.1), &e.0, &e.2))))),
                };
            }
        }
        Err(Exp::Refuse(&[4], None))
    }
    fn expect(&self, fs: &Fs, cwd: u32, r: &RunSpec, memo: &mut BTreeMap<u64, Result<String, DocErr>>) -> Exp {
        let o = &r.opts;
        let doc_mode = !matches!(o.cmd, Cmd::Formula(..) | Cmd::FormulaStdin(_));
        if doc_mode && [&o.delims.inline.0, &o.delims.inline.1, &o.delims.block.0, &o.delims.block.1].iter().any(|d| d.is_empty()) { return Exp::Usage }
        let cfg = match self.cfg_of(fs, cwd, o) { Ok(c) => c, Err(e) => return e };
        let mut conv = |t: &str| {
            let key = hash(|h| { h.write(t.as_bytes()); h.write(format!("{:?}{:?}{}", o.delims, cfg, o.cont).as_bytes()) });
            memo.entry(key).or_insert_with(|| doc::convert(t, &o.delims, cfg.build(), o.cont)).clone()
        };
        match &o.cmd {
            Cmd::Formula(f, b) => formula(f, *b, &cfg),
            Cmd::FormulaStdin(b) => match std::str::from_utf8(&r.stdin) { Ok(f) => formula(f, *b, &cfg), Err(_) => Exp::Io("input is not UTF-8") },
            Cmd::Stdin => match std::str::from_utf8(&r.stdin) {
                Ok(t) => match conv(t) { Ok(s) => Exp::Out((s + "\n").into_bytes()), Err(e) => Exp::Fail(e) },
                Err(_) => Exp::Io("input is not UTF-8"),
            },
            Cmd::File(p) => {
                let Some(i) = fs.resolve(cwd, p, true) else { return Exp::Io("no such file") };
                let Some(d) = fs.data(i) else { return Exp::Io("not a file") };
                let Ok(t) = std::str::from_utf8(d) else { return Exp::Io("input is not UTF-8") };
                let c = conv(t);
                if o.write || o.dry {
                    return Exp::Files(vec![Target { ino: i, path: p.clone(), orig: d.to_vec(), conv: c.map(String::into_bytes).map_err(Some) }]);
                }
                match c { Ok(s) => Exp::Out(s.into_bytes()), Err(e) => Exp::Fail(e) }
            }
            Cmd::Tree(p) => {
                let Some(i) = fs.resolve(cwd, p, true) else { return Exp::Io("no such directory") };
                let mut out: BTreeMap<u32, String> = BTreeMap::new();
                let mut seen = BTreeSet::new();
                walk(fs, i, p, &mut seen, &mut out);
                Exp::Files(out.into_iter().map(|(ino, path)| {
                    let d = fs.data(ino).unwrap().to_vec();
                    let conv = match std::str::from_utf8(&d) { Ok(t) => conv(t).map(String::into_bytes).map_err(Some), Err(_) => Err(None) };
                    Target { ino, path, orig: d, conv }
                }).collect())
            }
        }
    }
}
/// Is this what a text on standard error reports?
fn reports(text: &str, e: &DocErr) -> bool {
    match e {
        DocErr::Latex(m) => text.contains(plain(m).trim()),
        DocErr::Scan(p) => doc::places_in(text) == *p,
    }
}
/// Is this the file of one of the configurations, which are named relative to the working directory?
fn is_config(cfgs: &[(String, Mean)], path: &str) -> bool {
    cfgs.iter().any(|(p, _)| path.ends_with(p.strip_prefix("../w/").or(p.strip_prefix("../")).unwrap_or(p)))
}
/// A report without the position of the macro, which the file format does not preserve.
fn unnumbered(s: &str) -> String {
    let mut out = String::new();
    for (i, p) in s.split("macro ").enumerate() {
        if i > 0 { out.push_str("macro "); out.push_str(p.trim_start_matches(|c: char| c.is_ascii_digit())) } else { out.push_str(p) }
    }
    out
}
fn formula(f: &str, block: bool, cfg: &Cfg) -> Exp {
    let mut l = math_core::LatexToMathML::new(cfg.build()).expect("valid configuration");
    match l.convert_with_global_state(f, doc::mode(block)) {
        Ok(r) => Exp::Out((r.mathml + "\n").into_bytes()),
        Err(e) => Exp::Fail(DocErr::Latex(doc::report(&e, f))),
    }
}
pub fn is_html(name: &str) -> bool { name.rsplit('/').next().unwrap().rsplit_once('.').is_some_and(|(a, b)| !a.is_empty() && b == "html") }
fn walk(fs: &Fs, i: u32, path: &str, seen: &mut BTreeSet<u32>, out: &mut BTreeMap<u32, String>) {
    if fs.is_dir(i) {
        if !seen.insert(i) { return }
        let kids: Vec<String> = fs.ents.range((i, String::new())..(i + 1, String::new())).map(|((_, n), _)| n.clone()).collect();
        for n in kids {
            if let Some(j) = fs.resolve(i, &n, true) { walk(fs, j, &format!("{path}/{n}"), seen, out) }
        }
    } else if fs.data(i).is_some() && is_html(path) { out.entry(i).or_insert_with(|| path.to_string()); }
}

// ------------------------------------------------------------------ evaluation
pub struct Ctx { world: World, bin: String, so: String }

impl run::Case for CliCase {
    type Ctx = Ctx;
    fn ctx() -> Ctx { Ctx { world: World::new(), bin: crate::env_path("SIM_BIN"), so: crate::env_path("SIM_SO") } }
    fn generate(prop: &str, seed: u64, i: u64, thorough: bool) -> Self { generate(prop, seed, i, thorough) }

    fn eval(&mut self, ctx: &mut Ctx, st: &mut Stats) -> Vec<Viol> {
        let (fs, cwd) = self.build();
        let mut memo = BTreeMap::new();
        let exps: Vec<Exp> = self.runs.iter().map(|r| self.expect(&fs, cwd, r, &mut memo)).collect();
        if self.runs.len() > 1 && exps.iter().any(|e| matches!(e, Exp::Files(ts) if ts.iter().any(|t| t.conv.as_ref().is_ok_and(|c| std::str::from_utf8(c).is_ok_and(|c| !doc::settled(c, &self.runs[0].opts.delims)))))) {
            st.add("skipped (converted text contains delimiters)", 1);
            return vec![];
        }
        let mut plan = self.plan.clone();
        let out = self.execute(ctx, &fs, cwd, &mut plan, st, true);
        self.plan = plan;
        if discard(&out) { st.add("discarded (simulator limit)", 1); return vec![] }
        let mut v = self.judge(&fs, cwd, &exps, &out, st);
        if self.prop == "C08" { v.extend(self.reruns(ctx, &fs, cwd, &exps, out, st)) }
        if !v.is_empty() { st.add("violating runs", 1) }
        v
    }
    fn shrink(&self) -> Vec<Self> {
        let mut out = vec![];
        // fewer decisions
        if let Some(d) = &self.plan.decisions {
            let n = d.len();
            let mut size = n;
            while size >= 1 {
                let mut at = 0;
                while at < n {
                    let mut c = self.clone();
                    let mut e = d.clone();
                    e.drain(at..(at + size).min(n));
                    c.plan.decisions = Some(e);
                    out.push(c);
                    at += size;
                }
                if size == 1 { break }
                size = size.div_ceil(2).min(size - 1);
                if out.len() > 200 { break }
            }
        }
        for i in 0..self.again.len() {
            let mut c = self.clone();
            c.again.remove(i);
            out.push(c);
        }
        if self.runs.len() > 1 { for i in 0..self.runs.len() { let mut c = self.clone(); c.runs.remove(i); out.push(c) } }
        for i in 0..self.runs.len() { if self.runs[i].kill_at != 0 { let mut c = self.clone(); c.runs[i].kill_at = 0; out.push(c) } }
        for i in (0..self.nodes.len()).rev() {
            let mut c = self.clone();
            let p = c.nodes.remove(i).path;
            c.nodes.retain(|n| !n.path.starts_with(&format!("{p}/")));
            out.push(c);
        }
        // shorter documents
        for i in 0..self.nodes.len() {
            if is_config(&self.cfgs, &self.nodes[i].path) { continue }
            if let NK::File(d) = &self.nodes[i].kind {
                for e in cuts(d) { let mut c = self.clone(); c.nodes[i].kind = NK::File(e); out.push(c) }
            }
        }
        for i in 0..self.runs.len() {
            for e in cuts(&self.runs[i].stdin) { let mut c = self.clone(); c.runs[i].stdin = e; out.push(c) }
        }
        out
    }
}
fn cuts(d: &[u8]) -> Vec<Vec<u8>> {
    let Ok(t) = std::str::from_utf8(d) else { return vec![] };
    let b: Vec<char> = t.chars().collect();
    let mut out = vec![];
    let mut size = b.len().div_ceil(2);
    while size >= 1 && out.len() < 60 && !b.is_empty() {
        let mut at = 0;
        while at < b.len() {
            let e: String = b[..at].iter().chain(&b[(at + size).min(b.len())..]).collect();
            out.push(e.into_bytes());
            at += size;
        }
        if size == 1 { break }
        size = size.div_ceil(3);
    }
    out
}
/// limits of the simulator itself: such a run says nothing
fn discard(o: &RunOut) -> bool { o.overrun & (2 | 4 | 8 | 16) != 0 }

fn natural(out: &RunOut) -> bool {
    out.natural_enospc > 0 || out.natural_eio > 0
        || out.log.iter().any(|l| l.r.ret < 0 && l.r.fault == 0 && matches!(l.r.err, libc::EACCES | libc::EPERM | libc::EXDEV | libc::EROFS | libc::EMFILE))
}

impl CliCase {
    fn execute(&self, ctx: &mut Ctx, fs: &Fs, cwd: u32, plan: &mut Plan, st: &mut Stats, first: bool) -> RunOut {
        let procs: Vec<ProcSpec> = self.runs.iter().map(|r| ProcSpec {
            args: r.opts.args(), stdin: r.stdin.clone(), stdin_fault: r.stdin_fault, out_limit: r.out_limit, uid: r.uid,
            kill_at: if first { r.kill_at } else { 0 },
        }).collect();
        let out = ctx.world.run(&ctx.bin, &ctx.so, fs, cwd, &procs, plan);
        plan.decisions = Some(out.decisions.clone());
        st.add("simulated runs", 1);
        st.add("simulated processes", procs.len() as u64);
        st.add("operations", out.steps as u64);
        for k in 1..D_MAX { st.add(&format!("fault: {}", D_NAMES[k]), out.fired[k] as u64) }
        st.add("fault: kill", out.log.iter().filter(|l| l.r.op == OP_KILLED).count() as u64 - (out.fired[D_KILL] as u64).min(out.log.iter().filter(|l| l.r.op == OP_KILLED).count() as u64));
        for k in 0..OP_MAX { st.add(&format!("lasting error on {}", OP_NAMES[k]), out.fired_op[k] as u64) }
        st.add("fault: full disk or full standard output", out.natural_enospc as u64);
        st.add("fault: bad sector or unreadable directory", out.natural_eio as u64);
        st.add("simulated clock ms", out.clock_ms as u64);
        st.add("threads started by the tool", out.threads as u64);
        st.add("calls refused by the simulator", out.unsupported as u64);
        let trace = hash(|h| for l in &out.log { h.write_u16(l.r.op); h.write_u16(l.r.pid); h.write_u32(l.r.ino); h.write_i32(l.r.ret); h.write_i32(l.r.err); });
        st.distinct.insert(trace);
        if out.fired[1..].iter().sum::<u32>() + out.natural_enospc + out.natural_eio > 0 || out.log.iter().any(|l| l.r.op == OP_KILLED) { st.nontrivial.insert(trace); }
        // the log must explain the final state, or nothing derived from it can be trusted
        if !discard(&out) {
            let mut f = fs.clone();
            for l in &out.log { f.apply(l) }
            if let Some(d) = f.diff(&out.end, &|_| false) { panic!("simulator: the log does not lead to the final state: {d}\n{}", serde_json::to_string(self).unwrap()) }
        }
        out
    }

    fn judge(&self, fs: &Fs, cwd: u32, exps: &[Exp], out: &RunOut, st: &mut Stats) -> Vec<Viol> {
        let mut v: Vec<Viol> = vec![];
        let multi = self.runs.len() > 1;
        let lasting = out.fired[D_ERR] > 0 || natural(out);
        let killed = out.procs.iter().any(|p| p.killed);
        let transient = !lasting && !killed;
        let faulty = lasting || killed || out.fired[D_EINTR] + out.fired[D_SHORT] > 0;
        if out.overrun & 1 != 0 || out.hung || out.procs.iter().any(|p| p.code == -libc::SIGXCPU || p.code == -libc::SIGKILL) {
            let p = if matches!(exps[0], Exp::Usage) { "C05" } else if multi { "C07" } else if matches!(self.runs[0].opts.cmd, Cmd::Tree(_)) { "C04" } else { "C03" };
            v.push(viol(p, format!("the run did not end within {} operations", out.steps)));
            if p == "C04" && self.prop != "C04" { v.push(viol(static_prop(&self.prop), "the run did not end")) }
            return v;
        }
        if out.escapes > 0 {
            let l = out.log.iter().find(|l| l.r.op == OP_ESCAPE);
            v.push(viol("C02", format!("tried to modify {:?}, outside everything it was given", l.map(|l| l.name.clone()))));
        }
        if out.overrun & 32 != 0 { v.push(viol("C07", "processes wait for each other forever")) }

        // ---- what each path may contain
        let mut allowed: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new(); // by inode of the start
        for (i, n) in fs.nodes.iter().enumerate() { if let Some(Node { kind: Kind::File(d), .. }) = n { allowed.insert(i as u32, vec![d.clone()]); } }
        let mut targets: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
        for (r, e) in self.runs.iter().zip(exps) {
            if let (true, Exp::Files(ts)) = (r.opts.in_place(), e) {
                for t in ts { if let Ok(c) = &t.conv {
                    if c != &t.orig { targets.insert(t.ino, c.clone()); }
                    allowed.get_mut(&t.ino).unwrap().push(c.clone());
                } }
            }
        }
        let names: Vec<(String, u32)> = fs.paths().into_keys().filter_map(|p| fs.resolve(fs.root, &p, true).filter(|i| fs.data(*i).is_some()).map(|i| (p, i))).collect();
        self.instants(fs, cwd, out, &allowed, &targets, &names, multi, st, &mut v);

        // ---- exit statuses and results, per process
        for (i, (r, e)) in self.runs.iter().zip(exps).enumerate() {
            let p = &out.procs[i];
            if p.killed { continue }
            self.judge_exit(i, r, e, p, fs, cwd, out, lasting, transient, faulty, multi, st, &mut v);
        }

        // ---- final tree
        let end = &out.end;
        let unlink_failed = out.log.iter().any(|l| l.r.op == OP_UNLINK && l.r.fault == D_ERR as u32);
        let (before, after) = (fs.paths(), end.paths());
        let tag: &'static str = if multi { "C07" } else { "C02" };
        for (p, i) in &before {
            let Some(j) = after.get(p) else { v.push(viol(tag, format!("{p} is gone after the run"))); continue };
            let (a, b) = (fs.node(*i), end.node(*j));
            if a.mode != b.mode { v.push(viol(tag, format!("permissions of {p} changed from {:o} to {:o}", a.mode, b.mode))) }
            match (&a.kind, &b.kind) {
                (Kind::File(x), Kind::File(y)) => {
                    let ok = x == y || targets.get(i) == Some(y);
                    if !ok { v.push(viol(if targets.contains_key(i) { "C01" } else { tag }, format!("{p} contains {} after the run", brief(y)))) }
                    if !targets.contains_key(i) && ok {
                        let touched = i != j || out.log.iter().any(|l| l.r.ino == *i && matches!(l.r.op, OP_WRITE | OP_TRUNC) && l.r.ret >= 0);
                        if touched { v.push(viol(tag, format!("{p} was rewritten although nothing in it changes"))) }
                    }
                }
                (x, y) if x != y => v.push(viol(tag, format!("{p} is now {}", show(y)))),
                _ => {}
            }
        }
        for (p, j) in &after {
            if before.contains_key(p) || killed || (unlink_failed && lasting) { continue }
            v.push(viol(tag, format!("the run left {p} behind: {}", show(&end.node(*j).kind))));
        }
        if multi {
            for (ino, conv) in &targets {
                let wanted = self.runs.iter().zip(exps).zip(&out.procs).any(|((r, e), p)| !p.killed && r.opts.in_place() && matches!(e, Exp::Files(ts) if ts.iter().any(|t| t.ino == *ino) && ts.iter().all(|t| t.conv.is_ok())));
                if !wanted || lasting { continue }
                for (p, i) in &names {
                    if i != ino { continue }
                    let got = end.resolve(end.root, p, true).and_then(|j| end.data(j)).unwrap_or(b"");
                    if got != conv.as_slice() { v.push(viol("C07", format!("after all processes ended {p} is not converted: {}", brief(got)))) }
                }
            }
        }
        v
    }

    /// The path of every file at every instant, under slow readers and after power failures.
    fn instants(&self, fs: &Fs, _cwd: u32, out: &RunOut, allowed: &BTreeMap<u32, Vec<Vec<u8>>>, targets: &BTreeMap<u32, Vec<u8>>,
        names: &[(String, u32)], multi: bool, st: &mut Stats, v: &mut Vec<Viol>) {
        let tag: &'static str = if multi { "C07" } else { "C01" };
        let mut rng = Rng::derive(self.salt, "instants", 0);
        let touches = |l: &LogRec| l.r.ino != 0 && matches!(l.r.op, OP_CREATE | OP_WRITE | OP_TRUNC) || l.r.ret == 0 && matches!(l.r.op, OP_RENAME | OP_UNLINK | OP_LINK | OP_SYMLINK | OP_RMDIR | OP_MKDIR);
        let check = |f: &Fs, what: &str| -> Option<Viol> {
            for (p, ino) in names {
                let got = f.resolve(f.root, p, true).and_then(|j| f.data(j));
                let ok = got.is_some_and(|g| allowed[ino].iter().any(|a| a == g));
                if !ok {
                    let t = if targets.contains_key(ino) || multi { tag } else { "C02" };
                    return Some(viol(t, match got {
                        None => format!("{p} does not exist {what}"),
                        Some(g) => format!("{p} holds neither the original nor the converted text {what}: {} bytes, {}", g.len(), brief(g)),
                    }));
                }
            }
            None
        };
        // readers that take a while: open at one operation, read the rest at a later one
        let n = out.log.len();
        let mut readers: Vec<(usize, usize, usize, usize)> = vec![]; // open, finish, name, split
        if n > 2 && !names.is_empty() {
            for _ in 0..12 { let a = rng.below(n); readers.push((a, a + rng.below(n - a), rng.below(names.len()), rng.below(64))) }
        }
        let mut open: Vec<Option<(u32, Vec<u8>)>> = vec![None; readers.len()];
        let mut f = fs.clone();
        let mut bad = None;
        for (k, l) in out.log.iter().enumerate() {
            if l.r.op == OP_WRITE && l.r.ino != 0 && l.data.len() > 1 && targets.contains_key(&l.r.ino) {
                let mut g = f.clone();
                g.write(l.r.ino, l.r.off, &l.data[..l.data.len() / 2]);
                st.add("crash points", 1);
                if bad.is_none() { bad = check(&g, &format!("in the middle of operation {} ({})", l.r.step, OP_NAMES[l.r.op as usize])) }
            }
            f.apply(l);
            if touches(l) {
                st.add("crash points", 1);
                if bad.is_none() { bad = check(&f, &format!("after operation {} ({}{})", l.r.step, OP_NAMES[l.r.op as usize], if l.name.is_empty() { String::new() } else { format!(" {}", l.name) })) }
            }
            for (q, rd) in readers.iter().enumerate() {
                let (p, start) = &names[rd.2];
                if rd.0 == k {
                    open[q] = f.resolve(f.root, p, true).and_then(|j| f.data(j).map(|d| (j, d[..rd.3.min(d.len())].to_vec())));
                }
                if rd.1 == k && let Some((j, head)) = open[q].take() {
                    let mut got = head;
                    // the reader keeps its descriptor: the inode stays even if its name goes away
                    if let Some(d) = f.data(j) { if d.len() > got.len() { let h = got.len(); got.extend_from_slice(&d[h..]) } }
                    st.add("slow readers", 1);
                    if bad.is_none() && !allowed[start].iter().any(|a| a == &got) {
                        bad = Some(viol(tag, format!("a reader of {p} from operation {} to {} gets {} bytes: {}", rd.0, rd.1, got.len(), brief(&got))));
                    }
                }
            }
        }
        if let Some(b) = bad { v.push(b) }
        // power failures
        let writes: Vec<usize> = out.log.iter().enumerate().filter(|(_, l)| touches(l) || l.r.op == OP_FSYNC).map(|(i, _)| i).collect();
        if !writes.is_empty() && (self.prop == "C01" || self.prop == "C07") {
            for q in 0..24 {
                let upto = if q == 0 { n } else { writes[rng.below(writes.len())] + 1 };
                let g = power_loss(fs, &out.log, upto, &mut rng);
                st.add("power failure states", 1);
                if let Some(mut b) = check(&g, &format!("after a power failure following operation {}", out.log[upto - 1].r.step)) {
                    if b.prop == "C07" { b.prop = "C01" }
                    if self.prop == "C07" { b.prop = "C07" }
                    v.push(b);
                    break;
                }
            }
        }
    }

    fn judge_exit(&self, i: usize, r: &RunSpec, e: &Exp, p: &ProcOut, fs: &Fs, cwd: u32, out: &RunOut, lasting: bool, transient: bool, faulty: bool, multi: bool, st: &mut Stats, v: &mut Vec<Viol>) {
        let o = &r.opts;
        let tree = matches!(o.cmd, Cmd::Tree(_));
        let who = format!("`mathcore {}`", o.args().join(" "));
        let note = p.errtext().trim().to_string();
        let note = if note.len() > 160 { format!("{}...", note.chars().take(160).collect::<String>()) } else { note };
        if p.code != 0 && p.stderr.is_empty() { v.push(viol("C03", format!("{who} ended with status {} and no message", p.code))) }
        if p.code < 0 || p.code == 101 || p.code == 98 {
            v.push(viol("C03", format!("{who} crashed with status {}: {note}", p.code)));
        }
        if matches!(e, Exp::Usage) {
            if p.code == 0 { v.push(viol("C05", format!("{who} ended with status 0 although a delimiter is empty"))) }
            if !p.stdout.is_empty() { v.push(viol("C05", format!("{who} produced output although a delimiter is empty"))) }
            if !multi && let Some(d) = fs.diff(&out.end, &|_| false) { v.push(viol("C05", format!("{who} changed files although a delimiter is empty: {d}"))) }
            return;
        }
        // ---- configuration
        let cpath = o.config.clone().unwrap_or_else(|| "mathcore.toml".into());
        let cino = fs.resolve(cwd, &cpath, true);
        let cfault = out.log.iter().find(|l| l.r.pid as usize == i && l.r.fault == D_ERR as u32
            && ((l.r.op == OP_READ && l.r.ino != 0 && Some(l.r.ino) == cino) || (l.r.op == OP_OPEN && l.r.ino != 0 && Some(l.r.ino) == cino)));
        let refused: Option<&[i32]> = match (e, cfault) {
            (Exp::Refuse(..), Some(_)) => Some(&[4, 3, 2]),
            (Exp::Refuse(c, _), None) => Some(c),
            (_, Some(_)) => Some(&[4]),
            _ => None,
        };
        if let Some(codes) = refused {
            st.add("configurations refused", 1);
            if p.code == 0 || ((transient || cfault.is_some()) && !codes.contains(&p.code)) {
                v.push(viol("C06", format!("{who} ended with status {} instead of {codes:?} for a {} configuration: {note}", p.code, if cfault.is_some() { "unreadable" } else { "bad" })));
            }
            if cfault.is_none() && transient && p.code == 2 && let Exp::Refuse(_, Some(m)) = e && !reports(&unnumbered(&plain(&String::from_utf8_lossy(&p.stderr))), &DocErr::Latex(m.clone())) {
                v.push(viol("C06", format!("{who} reported {:?} instead of {m:?}", plain(&String::from_utf8_lossy(&p.stderr)))));
            }
            if !p.stdout.is_empty() { v.push(viol("C06", format!("{who} produced output although its configuration is refused"))) }
            if !multi && let Some(d) = fs.diff(&out.end, &|_| false) { v.push(viol("C06", format!("{who} changed files although its configuration is refused: {d}"))) }
            return;
        }
        // every later configuration deviation shows as a wrong result
        let also_cfg = self.prop == "C06" && cino.is_some();
        let wrong = |v: &mut Vec<Viol>, m: String| {
            if lasting { v.push(viol("C03", m.clone())) } else {
                if faulty { v.push(viol("C03", m.clone())) }
                if multi { v.push(viol("C07", m.clone())) }
                else if tree { v.push(viol("C04", m.clone())); if self.prop == "C05" { v.push(viol("C05", m.clone())) } }
                else { v.push(viol("C05", m.clone())) }
                if o.cont && !multi { v.push(viol("C09", m.clone())) }
            }
            if also_cfg { v.push(viol("C06", m)) }
        };
        let (end, mut must_fail): (&Fs, Option<String>) = (&out.end, None);
        match e {
            Exp::Refuse(..) | Exp::Usage => unreachable!(),
            Exp::Out(want) => {
                st.add("complete outputs compared", (p.code == 0) as u64);
                if p.code == 0 && &p.stdout != want {
                    let at = p.stdout.iter().zip(want).take_while(|(a, b)| a == b).count();
                    wrong(v, format!("{who} ended with status 0 but its output of {} bytes is not the expected {} bytes (differs at {at}): got {} want {}", p.stdout.len(), want.len(), brief(&p.stdout[at..]), brief(&want[at..])));
                }
                if p.code != 0 && !lasting { wrong(v, format!("{who} ended with status {} although nothing failed: {note}", p.code)) }
            }
            Exp::Fail(m) => {
                must_fail = Some(String::new());
                if p.code != 0 && !lasting {
                    if p.code != 2 { v.push(viol("C09", format!("{who} ended with status {} for a formula that fails: {note}", p.code))) }
                    if !reports(&plain(&p.errtext()), m) { v.push(viol("C09", format!("{who} reported {note:?} instead of {m:?}"))) }
                }
                if !p.stdout.is_empty() { v.push(viol("C09", format!("{who} wrote output although a formula fails"))) }
            }
            Exp::Io(w) => must_fail = Some(w.to_string()),
            Exp::Files(ts) => {
                let failing: Vec<&Target> = ts.iter().filter(|t| t.conv.is_err()).collect();
                if o.in_place() && p.code == 0 {
                    for t in ts {
                        let Ok(c) = &t.conv else { continue };
                        let got = end.resolve(cwd, &t.path, true).and_then(|j| end.data(j)).unwrap_or(b"<missing>");
                        st.add("converted files compared", 1);
                        if got != c.as_slice() {
                            let at = got.iter().zip(c).take_while(|(a, b)| a == b).count();
                            wrong(v, format!("{who} ended with status 0 but {} is {}: differs at {at}: got {} want {}", t.path, if got == t.orig.as_slice() { "not converted" } else { "wrong" }, brief(&got[at.min(got.len())..]), brief(&c[at..])));
                        }
                    }
                }
                if p.code == 0 {
                    for t in ts {
                        let n = fs.node(t.ino);
                        if n.flags & IF_EIO_READ != 0 && (n.fault_at as usize) < t.orig.len().max(1) { v.push(viol("C03", format!("{who} ended with status 0 although {} cannot be read", t.path))) }
                    }
                    if let Cmd::Tree(root) = &o.cmd {
                        for (name, d) in unlistable(fs, cwd, root) { v.push(viol("C03", format!("{who} ended with status 0 although directory {name} ({d}) cannot be listed"))) }
                    }
                }
                if !failing.is_empty() {
                    must_fail = Some(format!("{} fails", failing[0].path));
                    if p.code != 0 && !lasting {
                        let any_latex = failing.iter().any(|t| t.conv.as_ref().is_err_and(|e| e.is_some()));
                        let any_io = failing.iter().any(|t| t.conv.as_ref().is_err_and(|e| e.is_none()));
                        if any_latex && !any_io && p.code != 2 { v.push(viol("C09", format!("{who} ended with status {} for a formula that fails: {note}", p.code))) }
                        let text = plain(&p.errtext());
                        if !any_io && !multi {
                            let of: Vec<&&Target> = failing.iter().filter(|t| reports(&text, t.conv.as_ref().unwrap_err().as_ref().unwrap())).collect();
                            if of.is_empty() { v.push(viol("C09", format!("{who} reported {note:?} instead of {:?}", failing.iter().map(|t| (&t.path, t.conv.as_ref().unwrap_err())).collect::<Vec<_>>()))) }
                            // under any name that leads there
                            else if !of.iter().any(|t| fs.ents.iter().any(|((d, n), _)| fs.resolve(*d, n, true) == Some(t.ino) && p.errtext().contains(n.as_str()))) {
                                v.push(viol("C09", format!("{who} reported {note:?}, which does not name {}", of[0].path)));
                            }
                        }
                    }
                    if !multi { for t in &failing {
                        let got = end.resolve(cwd, &t.path, true).and_then(|j| end.data(j));
                        if got != Some(t.orig.as_slice()) { v.push(viol("C09", format!("{} changed although a formula in it fails", t.path))) }
                    } }
                } else if p.code != 0 && !lasting {
                    wrong(v, format!("{who} ended with status {} although nothing failed: {note}", p.code));
                }
                if o.in_place() && !p.stdout.is_empty() && self.prop == "C05" && p.code == 0 { v.push(viol("C05", format!("{who} wrote {} bytes to standard output in in-place mode", p.stdout.len()))) }
                if o.dry && !p.stdout.is_empty() { v.push(viol("C02", format!("{who} wrote output in a dry run"))) }
            }
        }
        if let (Some(m), 0) = (&must_fail, p.code) {
            let unread = match e { Exp::Io(_) => true, Exp::Files(ts) => ts.iter().any(|t| t.conv == Err(None)), _ => false };
            let fails = match e { Exp::Io(_) => false, Exp::Files(ts) => ts.iter().any(|t| matches!(t.conv, Err(Some(_)))), _ => true };
            for (t, is) in [("C03", unread), ("C09", fails)] { if is { v.push(viol(t, format!("{who} ended with status 0 although the input cannot be converted ({m})"))) } }
        }
        if r.stdin_fault.is_some_and(|f| (f as usize) < r.stdin.len().max(1)) && matches!(o.cmd, Cmd::Stdin | Cmd::FormulaStdin(_)) && p.code == 0 {
            v.push(viol("C03", format!("{who} ended with status 0 although its standard input failed")));
        }
    }

    /// C08: from states an interruption leaves, the same command run again must finish the work.
    fn reruns(&mut self, ctx: &mut Ctx, fs: &Fs, cwd: u32, exps: &[Exp], out: RunOut, st: &mut Stats) -> Vec<Viol> {
        let mut v = vec![];
        let Exp::Files(ts) = &exps[0] else { return v };
        if ts.iter().any(|t| t.conv.as_ref().map_or(true, |c| !std::str::from_utf8(c).is_ok_and(|c| doc::settled(c, &self.runs[0].opts.delims)))) { return v }
        let names: Vec<(String, u32)> = fs.paths().into_iter().collect();
        let mut rng = Rng::derive(self.salt, "reruns", 0);
        // the states to continue from: where the run itself stopped, crash points, power failures
        let mut states: Vec<(String, Fs)> = vec![("after the interrupted run".into(), out.end.clone())];
        let n = out.log.len();
        if n > 0 {
            for _ in 0..3 {
                let k = rng.below(n) + 1;
                let mut f = fs.clone();
                for l in &out.log[..k] { f.apply(l) }
                states.push((format!("after a kill following operation {}", out.log[k - 1].r.step), f));
            }
            for _ in 0..3 {
                let k = rng.below(n) + 1;
                states.push((format!("after a power failure following operation {}", out.log[k - 1].r.step), power_loss(fs, &out.log, k, &mut rng)));
            }
        }
        for (what, mut f) in states {
            for nd in f.nodes.iter_mut().flatten() { nd.flags &= IF_OTHERFS }
            let mut what = what;
            let mut skip = false;
            let mut again = self.again.clone();
            for (pl, cut) in &mut again {
                // interrupted again, on what is left
                let o = self.execute(ctx, &f, cwd, pl, st, false);
                if discard(&o) { skip = true; break }
                f = match cut { Cut::None => o.end.clone(), Cut::Power => power_loss(&f, &o.log, o.log.len(), &mut rng) };
                what.push_str(", and interrupted again");
            }
            if skip { continue }
            let mut quiet = Plan::quiet();
            quiet.seed = rng.next();
            quiet.rate[D_DIR] = 65535;
            quiet.decisions = Some((0..40u32).map(|s| Dec { step: s * 3 + 2, kind: D_DIR as u32, val: rng.next() as u32 >> 2, pad: 0 }).collect());
            let o = self.execute(ctx, &f, cwd, &mut quiet, st, false);
            if discard(&o) { continue }
            st.add("reruns", 1);
            let p = &o.procs[0];
            if p.code != 0 {
                v.push(viol("C08", format!("{what}, the same command fails with status {}: {}", p.code, p.errtext().trim())));
                return v;
            }
            for (name, ino) in &names {
                let (a, b) = (fs.node(*ino), o.end.resolve(o.end.root, name, false).map(|j| o.end.node(j)));
                let want = match ts.iter().find(|t| t.ino == *ino) { Some(t) => Kind::File(t.conv.clone().unwrap()), None => a.kind.clone() };
                match b {
                    None => { v.push(viol("C08", format!("{what} and a complete rerun, {name} is gone"))); return v }
                    Some(b) if b.kind != want => { v.push(viol("C08", format!("{what} and a complete rerun, {name} is {} instead of {}", show(&b.kind), show(&want)))); return v }
                    Some(b) if b.mode != a.mode => { v.push(viol("C08", format!("{what} and a complete rerun, {name} has permissions {:o} instead of {:o}", b.mode, a.mode))); return v }
                    _ => {}
                }
            }
        }
        v
    }
}
fn static_prop(p: &str) -> &'static str { ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"].into_iter().find(|q| *q == p).unwrap_or("C04") }
/// directories of the tree whose listing always fails
fn unlistable(fs: &Fs, cwd: u32, root: &str) -> Vec<(String, u32)> {
    let mut out = vec![];
    let mut seen = BTreeSet::new();
    let mut todo: Vec<(String, u32)> = fs.resolve(cwd, root, true).map(|i| (root.to_string(), i)).into_iter().collect();
    while let Some((p, i)) = todo.pop() {
        if !fs.is_dir(i) || !seen.insert(i) { continue }
        let kids: Vec<String> = fs.ents.range((i, String::new())..(i + 1, String::new())).map(|((_, n), _)| n.clone()).collect();
        if fs.node(i).flags & IF_EIO_LIST != 0 && (fs.node(i).fault_at as usize) < kids.len() + 2 { out.push((p.clone(), i)) }
        for n in kids { if let Some(j) = fs.resolve(i, &n, true) { todo.push((format!("{p}/{n}"), j)) } }
    }
    out
}
/// text without escape sequences and layout
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { for d in it.by_ref() { if d.is_ascii_alphabetic() { break } } continue }
        out.push(c);
    }
    out
}

// ------------------------------------------------------------------ generation
struct G<'a> { r: &'a mut Rng, nodes: Vec<NodeSpec>, cfgs: Vec<(String, Mean)> }
impl G<'_> {
    fn mode(&mut self) -> u32 { *self.r.pick(&[0o644, 0o644, 0o644, 0o600, 0o666, 0o755, 0o640, 0o444, 0o2755, 0o660]) }
    fn file(&mut self, path: &str, d: Vec<u8>) { let mode = self.mode(); self.nodes.push(NodeSpec { path: path.into(), kind: NK::File(d), mode, uid: 0, flags: 0, fault_at: 0 }) }
    fn dir(&mut self, path: &str) { self.nodes.push(NodeSpec { path: path.into(), kind: NK::Dir, mode: 0o755, uid: 0, flags: 0, fault_at: 0 }) }
    fn link(&mut self, path: &str, t: &str) { self.nodes.push(NodeSpec { path: path.into(), kind: NK::Link(t.into()), mode: 0o777, uid: 0, flags: 0, fault_at: 0 }) }
    /// a directory tree under `root` with documents
    fn tree(&mut self, root: &str, d: &Delims, o: &DocOpt, links: bool, files: usize) {
        let mut dirs = vec![root.to_string()];
        self.dir(root);
        for _ in 0..self.r.below(4) {
            let p = self.r.pick(&dirs).clone();
            if p.matches('/').count() > 6 { continue }
            let n = self.r.pick(&["sub", "d.html", ".hid", "ü", "a b", "z", "x.htm"]).to_string();
            let q = format!("{p}/{n}");
            if dirs.contains(&q) { continue }
            self.dir(&q);
            dirs.push(q);
        }
        let mut paths: Vec<String> = vec![];
        for k in 0..files {
            let p = self.r.pick(&dirs).clone();
            let name = match self.r.below(16) {
                0 => "note.txt".into(), 1 => "old.html.bak".into(), 2 => "x.htm".into(), 3 => "X.HTML".into(), 4 => ".h.html".into(),
                5 => "a b.html".into(), 6 => "é.html".into(), 7 => "a.b.html".into(), 8 => "html".into(), 9 => "x.xhtml".into(), 10 => ".#tmp".into(),
                _ => format!("f{k}.html"),
            };
            let q = format!("{p}/{name}");
            if paths.contains(&q) { continue }
            let text = gen_::doc(self.r, d, o);
            self.file(&q, text.into_bytes());
            paths.push(q);
        }
        if links {
            for k in 0..self.r.below(4) {
                let p = self.r.pick(&dirs).clone();
                let up = |from: &str, to: &str| { let n = from.matches('/').count(); format!("{}{}", "../".repeat(n), &to[1..]) };
                match self.r.below(10) {
                    0 if !paths.is_empty() => { let t = self.r.pick(&paths).clone(); self.link(&format!("{p}/l{k}.html"), &up(&p, &t)) }
                    1 if !paths.is_empty() => { let t = self.r.pick(&paths).clone(); self.link(&format!("{p}/l{k}.html"), &t) }
                    2 => self.link(&format!("{p}/l{k}.html"), "nowhere"),
                    3 => self.link(&format!("{p}/up{k}"), ".."),
                    4 => self.link(&format!("{p}/here{k}"), "."),
                    5 => { let t = self.r.pick(&dirs).clone(); self.link(&format!("{p}/dl{k}"), &t) }
                    6 => self.link(&format!("{p}/dl{k}.html"), root),
                    7 => self.link(&format!("{p}/self{k}.html"), &format!("self{k}.html")),
                    8 => { let t = gen_::doc(self.r, d, o); self.file(&format!("{OTHER}{k}.txt"), t.into_bytes()); self.link(&format!("{p}/l{k}.html"), &format!("{OTHER}{k}.txt")) }
                    _ => {
                        let t = gen_::doc(self.r, d, o);
                        let q = format!("{OTHER}{k}");
                        self.dir(&q);
                        self.file(&format!("{q}/o.html"), t.into_bytes());
                        self.link(&format!("{p}/o{k}"), &q);
                    }
                }
            }
        }
    }
    /// many files, or files far down
    fn crowd(&mut self, root: &str, d: &Delims) {
        let o = DocOpt { fail: 0, size: 0, stray: 0, entities: false, edges: 0 };
        let mut p = root.to_string();
        if self.r.chance(1, 2) {
            for k in 0..self.r.range(8, 40) {
                p.push_str(&format!("/n{k}"));
                self.dir(&p);
                if self.r.chance(1, 8) { let t = gen_::doc(self.r, d, &o); self.file(&format!("{p}/on.html"), t.into_bytes()) }
            }
            let t = gen_::doc(self.r, d, &o);
            self.file(&format!("{p}/end.html"), t.into_bytes());
        } else {
            p.push_str("/crowd");
            self.dir(&p);
            for k in 0..self.r.range(40, 260) { let t = gen_::doc(self.r, d, &o); self.file(&format!("{p}/{k}.html"), t.into_bytes()) }
        }
    }
    fn config(&mut self, path: &str, rel: &str, bad: bool) {
        let (text, m): (Vec<u8>, Mean) = match if bad { self.r.below(5) } else { 4 } {
            0 => (self.r.pick(gen_::MALFORMED).as_bytes().to_vec(), Mean::Bad),
            1 => {
                let mut c = Cfg::random(self.r);
                let (k, d) = *self.r.pick(gen_::BAD_MACRO);
                c.macros.retain(|m| m.0 != k);
                let at = self.r.below(c.macros.len() + 1);
                c.macros.insert(at, (k.into(), d.into()));
                let t = c.toml_any(self.r);
                (t.into_bytes(), if c.good() { Mean::Good(c) } else { Mean::BadMacro(c) })
            }
            2 => (b"xml-namespace = true # \xff\n".to_vec(), Mean::Bad),
            3 => (vec![], Mean::Good(Cfg::default())),
            _ => {
                let c = Cfg::random(self.r);
                let mut t = c.toml_any(self.r);
                if self.r.chance(1, 6) { t.insert_str(0, &"# padding comment\n".repeat(1 + self.r.below(800))) }
                (t.into_bytes(), Mean::Good(c))
            }
        };
        if self.r.chance(1, 12) {
            self.file("/sim/etc/real.toml", text);
            self.link(path, "/sim/etc/real.toml");
            self.cfgs.push(("/sim/etc/real.toml".into(), m));
        } else {
            self.file(path, text);
            self.cfgs.push((rel.into(), m));
        }
    }
}

fn rates(r: &mut Rng, level: usize) -> [u32; D_MAX] {
    // swarm: each kind of disturbance is on or off, at a random strength
    let mut x = [0u32; D_MAX];
    x[D_DIR] = 60000;
    x[D_RAND] = 65535;
    if r.chance(1, 4) { x[D_CLOCK] = 8000 }
    if level == 0 { return x }
    if r.chance(2, 3) { x[D_SHORT] = *r.pick(&[1500, 8000, 30000, 60000]) }
    if r.chance(1, 2) { x[D_EINTR] = *r.pick(&[1000, 6000, 20000]) }
    if r.chance(1, 3) { x[D_LIVE] = 40000 }
    x
}
fn hard_faults(r: &mut Rng, p: &mut Plan) {
    p.hard_left = 1 + r.below(3) as u32;
    p.rate[D_ERR] = *r.pick(&[700, 2500, 8000, 20000]);
    p.opmask = if r.chance(1, 2) { u32::MAX } else {
        // aimed at a few operations, so that the rare ones are reached too
        let ops = [OP_OPEN, OP_READ, OP_WRITE, 5, 6, 7, OP_RENAME, OP_UNLINK, OP_FSYNC, OP_TRUNC, OP_CHMOD, OP_CREATE, 17, 18, 26];
        p.rate[D_ERR] = *r.pick(&[6000, 20000, 45000]);
        (0..1 + r.below(3)).fold(0, |m, _| m | 1 << *r.pick(&ops))
    };
}

fn generate(prop: &str, seed: u64, i: u64, thorough: bool) -> CliCase {
    let mut r = Rng::derive(seed, prop, i);
    let salt = r.next();
    let r = &mut r;
    let mut plan = Plan { seed: r.next(), rate: [0; D_MAX], hard_left: 0, opmask: 0, disk_free: 16 << 20, umask: *r.pick(&[0o22, 0o22, 0o77, 0, 0o27]), decisions: None };
    let mut delims = gen_::delims(r);
    let big = match prop { "C05" => 6, _ => 25 };
    let size = if r.chance(1, big) { if thorough || prop == "C05" { *r.pick(&[2000, 9000, 40000, 200000]) } else { *r.pick(&[2000, 9000, 20000]) } } else { 120 };
    let mut o = DocOpt { fail: 0, size, stray: 0, entities: true, edges: if prop == "C05" { *r.pick(&[0, 5, 20]) } else { 1 } };
    let cont = match prop { "C09" => r.chance(1, 2), _ => r.chance(1, 4) };
    match prop {
        "C09" => o.fail = *r.pick(&[10, 30, 60]),
        "C07" | "C08" => if cont { o.fail = 20 },
        _ => { if cont { o.fail = 15 } else if r.chance(1, 6) { o.fail = 10 } }
    }
    if matches!(prop, "C05" | "C02" | "C03") && r.chance(1, 8) { o.stray = 25 }
    if prop == "C09" && r.chance(1, 8) { o.stray = 10 }
    let mut opts = Opts { cmd: Cmd::Stdin, delims: delims.clone(), spell: r.below(4) as u8, write: true, dry: false, cont, config: None };
    let mut g = G { r, nodes: vec![], cfgs: vec![] };
    let mut stdin = vec![];
    let cwd = "/sim/w".to_string();
    g.dir("/sim");
    g.dir(&cwd);
    // ---- configuration
    let with_cfg = match prop { "C06" => g.r.chance(5, 6), _ => g.r.chance(1, 4) };
    if with_cfg {
        let bad = match prop { "C06" => g.r.chance(1, 2), "C02" => g.r.chance(1, 6), _ => false };
        match g.r.below(8) {
            0..=3 => g.config("/sim/w/mathcore.toml", "mathcore.toml", bad),
            4 | 5 => {
                let (at, rel) = *g.r.pick(&[("/sim/w/other.toml", "other.toml"), ("/sim/w/other.toml", "/sim/w/other.toml"), ("/sim/w/other.toml", "../w/other.toml"),
                    ("/sim/w/conf/mathcore.toml", "conf/mathcore.toml"), ("/sim/w/conf", "conf"), ("/sim/etc/a b.cfg", "/sim/etc/a b.cfg"), ("/sim/é.html", "../é.html")]);
                if let Some((d, _)) = at.rsplit_once('/') && d != "/sim/w" && d != "/sim" { g.dir(d) }
                g.config(at, rel, bad);
                opts.config = Some(rel.into());
                if g.r.chance(1, 2) { g.config("/sim/w/mathcore.toml", "mathcore.toml", true) }
            }
            6 if prop == "C06" => match g.r.below(5) {
                0 => opts.config = Some("missing.toml".into()),
                1 => { g.link("/sim/w/mathcore.toml", "missing.toml") }
                2 => { g.dir("/sim/w/mathcore.toml"); g.cfgs.push(("mathcore.toml".into(), Mean::Bad)) }
                3 => { opts.config = Some("mathcore.toml".into()) }
                _ => { g.config("/sim/w/mathcore.toml", "mathcore.toml", false); let n = g.nodes.last_mut().unwrap(); if let NK::File(d) = &n.kind { n.flags |= IF_EIO_READ; n.fault_at = g.r.below(d.len() + 1) as u32 / 4; if !d.is_empty() { g.cfgs.last_mut().unwrap().1 = Mean::Bad } } }
            },
            _ => g.config("/sim/w/mathcore.toml", "mathcore.toml", false),
        }
        // a flagged file behind a link keeps its meaning in `cfgs`
    }
    if prop == "C06" && g.r.chance(1, 3) {
        // files that are no configuration of this run
        for p in ["/sim/mathcore.toml", "/sim/w/t/mathcore.toml", "/sim/w/.mathcore.toml", "/sim/w/mathcore.toml.bak", "/sim/w/sub/mathcore.toml", "/mathcore.toml"] {
            if g.r.chance(1, 3) {
                if let Some((d, _)) = p.rsplit_once('/') && !d.is_empty() && !matches!(d, "/sim" | "/sim/w") { g.dir(d) }
                g.config(p, p, true);
            }
        }
    }
    // ---- input
    let tree = match prop { "C04" => true, "C08" => g.r.chance(4, 5), "C07" => true, "C05" => g.r.chance(1, 6), "C06" | "C09" => g.r.chance(1, 4), "C03" => g.r.chance(1, 2), _ => g.r.chance(1, 2) };
    let single = match prop { "C01" | "C08" | "C07" => 1, _ => g.r.below(6) };
    if tree {
        let root = format!("{cwd}/t");
        let nf = g.r.range(1, if thorough { 8 } else { 5 });
        let links = prop != "C08" || g.r.chance(1, 3);
        g.tree(&root, &delims, &o, links, nf);
        if matches!(prop, "C02" | "C03" | "C04") && g.r.chance(1, 150) { g.crowd(&root, &delims) }
        opts.cmd = Cmd::Tree(g.r.pick(&["t", "t", "./t", "/sim/w/t", "t/", "../w/t", "."]).to_string());
        if matches!(&opts.cmd, Cmd::Tree(p) if p == ".") && !g.cfgs.is_empty() { opts.cmd = Cmd::Tree("t".into()) }
        if prop == "C02" || prop == "C03" { if g.r.chance(1, 6) { opts.dry = true } }
        if prop == "C03" && g.r.chance(1, 12) { opts.cmd = Cmd::Tree("missing".into()) }
        if prop == "C04" && g.r.chance(1, 15) { g.link("/sim/w/rootlink", "t"); opts.cmd = Cmd::Tree("rootlink".into()) }
    } else {
        let text = gen_::doc(g.r, &delims, &o).into_bytes();
        match single {
            0 => { opts.cmd = Cmd::Stdin; stdin = text }
            5 => {
                let f = { let t = gen_::doc(g.r, &Delims { inline: ("\u{1}".into(), "\u{1}".into()), block: ("\u{2}".into(), "\u{2}".into()), ignore_escaped: false }, &DocOpt { fail: 0, size: 0, stray: 0, entities: false, edges: 0 }); t.replace(['\u{1}', '\u{2}'], " ").chars().filter(|c| !"&#_^\\{}%".contains(*c)).collect::<String>() };
                let f = if g.r.chance(1, 2) { g.r.pick(&["x^2", r"\frac{a}{b}", r"\begin{equation}a\end{equation}", r"\undefd", "{", "é"]).to_string() } else { f };
                let b = g.r.chance(1, 2);
                if g.r.chance(1, 2) && !f.starts_with('-') { opts.cmd = Cmd::Formula(f, b) } else { opts.cmd = Cmd::FormulaStdin(b); stdin = f.into_bytes() }
            }
            k => {
                let name = g.r.pick(&["f.html", "doc.txt", "noext", "é.html", "sub/f.html", "a b.html"]).to_string();
                if let Some((d, _)) = name.rsplit_once('/') { g.dir(&format!("{cwd}/{d}")) }
                g.file(&format!("{cwd}/{name}"), text);
                let mut path = match g.r.below(5) { 0 => format!("/sim/w/{name}"), 1 => format!("./{name}"), _ => name.clone() };
                if g.r.chance(1, 5) {
                    g.link(&format!("{cwd}/ln.html"), &name);
                    path = "ln.html".into();
                    if g.r.chance(1, 2) { g.link(&format!("{cwd}/ln2"), "ln.html"); path = "ln2".into() }
                }
                if g.r.chance(1, 2) { let t = gen_::doc(g.r, &delims, &o); g.file(&format!("{cwd}/bystander.html"), t.into_bytes()) }
                opts.cmd = Cmd::File(path);
                opts.write = matches!(prop, "C01" | "C08") || k >= 3;
                opts.dry = match prop { "C02" => g.r.chance(1, 4), "C01" | "C08" | "C05" => false, _ => g.r.chance(1, 12) };
                if prop == "C03" && g.r.chance(1, 20) { opts.cmd = Cmd::File("missing.html".into()) }
            }
        }
    }
    if prop == "C05" && g.r.chance(1, 80) {
        match g.r.below(4) { 0 => delims.inline.0.clear(), 1 => delims.inline.1.clear(), 2 => delims.block.0.clear(), _ => delims.block.1.clear() }
        if g.r.chance(1, 2) { delims.inline.1 = delims.inline.0.clone(); delims.block.1 = delims.block.0.clone() }
        opts.delims = delims.clone();
    }
    // invalid input
    if matches!(prop, "C02" | "C03") && g.r.chance(1, 25) {
        let n = g.nodes.len();
        if n > 3 { let k = g.r.range(2, n - 1); if !is_config(&g.cfgs, &g.nodes[k].path) && let NK::File(d) = &mut g.nodes[k].kind { d.push(0xff) } }
    }
    let mut rs = RunSpec { opts, stdin, stdin_fault: None, out_limit: None, uid: 0, kill_at: 0 };
    let mut runs = vec![];
    let mut again = vec![];
    // ---- disturbances
    match prop {
        "C01" => {
            plan.rate = rates(g.r, 1);
            match g.r.below(4) {
                0 => {}
                1 => hard_faults(g.r, &mut plan),
                2 => plan.disk_free = *g.r.pick(&[0, 1, 100, 511, 4096, 9000]),
                _ => if g.r.chance(1, 2) { rs.kill_at = 1 + g.r.below(60) as u32 } else { plan.rate[D_KILL] = *g.r.pick(&[500, 3000]) },
            }
        }
        "C02" => {
            plan.rate = rates(g.r, 1);
            match g.r.below(4) {
                0 | 1 => {}
                2 => hard_faults(g.r, &mut plan),
                _ => { rs.kill_at = 1 + g.r.below(60) as u32; if g.r.chance(1, 3) { plan.disk_free = 100 } }
            }
        }
        "C03" => {
            plan.rate = rates(g.r, 1);
            match g.r.below(6) {
                0 | 1 => {}
                2 | 3 => hard_faults(g.r, &mut plan),
                4 => {
                    if g.r.chance(1, 2) { rs.out_limit = Some((*g.r.pick(&[0, 1, 10, 100, 1000, 4096, 8192, 1 << 15]), *g.r.pick(&[libc::ENOSPC as u32, libc::EPIPE as u32, libc::EIO as u32]))) }
                    else { plan.disk_free = *g.r.pick(&[0, 1, 100, 1000]) }
                    if g.r.chance(1, 2) && !rs.stdin.is_empty() { rs.stdin_fault = Some(g.r.below(rs.stdin.len() + 1) as u32) }
                }
                _ => {
                    // a bad sector, an unreadable directory, missing permissions
                    let n = g.nodes.len();
                    let k = g.r.range(1, n - 1);
                    if !is_config(&g.cfgs, &g.nodes[k].path) {
                        let c = g.r.below(3);
                        let size = match &g.nodes[k].kind { NK::File(d) => d.len(), _ => 3 };
                        let at = g.r.below(size + 1) as u32;
                        let nd = &mut g.nodes[k];
                        match (&nd.kind, c) {
                            (NK::File(_), 0 | 1) => { nd.flags |= IF_EIO_READ; nd.fault_at = at }
                            (NK::Dir, 0 | 1) => { nd.flags |= IF_EIO_LIST; nd.fault_at = at }
                            (NK::Link(_), _) => {}
                            (_, _) if c == 2 && g.r.chance(1, 2) => nd.flags |= IF_EIO_STAT,
                            _ => { rs.uid = 1000; nd.mode = *g.r.pick(&[0o000, 0o400, 0o200, 0o500]); for n in &mut g.nodes { n.uid = 1000 } }
                        }
                    }
                }
            }
        }
        "C04" | "C05" | "C09" => { let level = g.r.below(3).min(1); plan.rate = rates(g.r, level) }
        "C06" => {
            plan.rate = rates(g.r, 1);
            if g.r.chance(1, 3) { hard_faults(g.r, &mut plan); if g.r.chance(2, 3) { plan.opmask = 1 << OP_OPEN | 1 << OP_READ | 1 << 5 | 1 << 18; plan.rate[D_ERR] = 30000; plan.hard_left = 1 } }
        }
        "C07" => {
            plan.rate = rates(g.r, 1);
            plan.rate[D_SCHED] = *g.r.pick(&[2000, 10000, 30000, 60000]);
            if g.r.chance(1, 3) { plan.rate[D_KILL] = *g.r.pick(&[150, 600, 2000]) }
            let n = g.r.range(2, if thorough { 5 } else { 4 });
            let htmls: Vec<String> = g.nodes.iter().filter(|n| matches!(n.kind, NK::File(_)) && is_html(&n.path) && n.path.starts_with("/sim/w/t")).map(|n| n.path["/sim/w/".len()..].to_string()).collect();
            for k in 0..n {
                let mut q = rs.clone();
                match g.r.below(5) {
                    0 if !htmls.is_empty() => { q.opts.cmd = Cmd::File(g.r.pick(&htmls).clone()); q.opts.write = true }
                    1 if !htmls.is_empty() && k > 0 => { q.opts.cmd = Cmd::File(g.r.pick(&htmls).clone()); q.opts.write = false }
                    _ => {}
                }
                if g.r.chance(1, 8) { q.kill_at = 1 + g.r.below(80) as u32 }
                runs.push(q);
            }
        }
        "C08" => {
            plan.rate = rates(g.r, 1);
            match g.r.below(4) {
                0 => hard_faults(g.r, &mut plan),
                1 => plan.disk_free = *g.r.pick(&[0, 100, 1000, 3000]),
                2 => rs.kill_at = 1 + g.r.below(100) as u32,
                _ => plan.rate[D_KILL] = *g.r.pick(&[500, 2000]),
            }
            for _ in 0..g.r.below(3) {
                let mut p = Plan { seed: g.r.next(), rate: rates(g.r, 1), hard_left: 0, opmask: 0, disk_free: 16 << 20, umask: 0o22, decisions: None };
                let cut = if g.r.chance(1, 2) { Cut::Power } else { Cut::None };
                p.rate[D_KILL] = *g.r.pick(&[500, 2000, 6000]);
                again.push((p, cut));
            }
        }
        _ => panic!("{prop}"),
    }
    if runs.is_empty() { runs.push(rs) }
    let (nodes, cfgs) = (g.nodes, g.cfgs);
    CliCase { prop: prop.into(), nodes, cwd, cfgs, runs, plan, again, salt }
}
