//! The Python family: callers that are threads of a Python interpreter share converter objects of
//! the extension module. The interpreter runs in a worker process (`pysim/driver.py`) under the
//! scheduler of `pysim/pysim.c`; here are the cases, and the judge: some serial order of the session
//! calls, compatible with their order in time, must explain every result through the library.
use crate::hist::{Conv, Kind, LCfg, LibCase};
use crate::run::{Case, Stats, Viol, viol};
use crate::sched::Dec;
use crate::util::*;
use math_core::{LatexError, MathDisplay};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PyCfg {
    pub lib: LCfg,
    pub continue_on_error: bool,
    pub fancy: bool,
    /// 1: a macro that is no string, 2: an unknown keyword, 3: an invalid option value, 4: a macro that is invalid.
    #[serde(default)] pub bad: u8,
    /// The options left out (a bit each) if they have their documented default.
    #[serde(default)] pub omit: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Text { Plain(String), Sub(String), Bad(u8) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Disp { Is(bool), Numpy(bool, Vec<Ev>), Bad(u8) }
/// What happens while an argument is being read.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev { Yield, Raise, Call(Box<PyOp>) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item { pub text: Text, pub block: Disp, pub shape: u8, pub ev: Vec<Ev> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct List { pub kind: u8, pub items: Vec<Item> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call { Global(Text, Disp, u8), Local(Text, Disp, u8), Batch(List), Reset }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PyOp { pub id: u32, pub by: u8, pub conv: u8, pub call: Call }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PyCase { pub convs: Vec<PyCfg>, pub ops: Vec<PyOp>, pub sched: Vec<Dec> }

impl Text {
    fn get(&self) -> Option<&str> { match self { Text::Plain(s) | Text::Sub(s) => Some(s), Text::Bad(_) => None } }
}
impl Disp {
    fn get(&self) -> Option<bool> { match self { Disp::Is(b) => Some(*b), Disp::Numpy(b, ev) if !raises(ev) => Some(*b), _ => None } }
    fn events(&self) -> &[Ev] { match self { Disp::Numpy(_, e) => e, _ => &[] } }
}
fn raises(ev: &[Ev]) -> bool { ev.contains(&Ev::Raise) }
impl List {
    /// The snippets, if they can be read.
    fn get(&self) -> Option<Vec<(&str, bool)>> {
        if self.kind > 2 { return None }
        self.items.iter().map(|i| if i.shape > 0 || (self.kind == 2 && raises(&i.ev)) { None } else { Some((i.text.get()?, i.block.get()?)) }).collect()
    }
    fn events(&self) -> Vec<&Ev> { self.items.iter().flat_map(|i| (if self.kind == 2 { i.ev.iter() } else { [].iter() }).chain(i.block.events())).collect() }
}
impl PyOp {
    fn events(&self) -> Vec<&Ev> {
        match &self.call { Call::Global(_, d, _) | Call::Local(_, d, _) => d.events().iter().collect(), Call::Batch(l) => l.events(), Call::Reset => vec![] }
    }
    fn readable(&self) -> bool {
        match &self.call { Call::Global(t, d, odd) | Call::Local(t, d, odd) => *odd == 0 && t.get().is_some() && d.get().is_some(), Call::Batch(l) => l.get().is_some(), Call::Reset => true }
    }
    fn find(&self, id: u32) -> Option<&PyOp> {
        if self.id == id { return Some(self) }
        self.events().into_iter().find_map(|e| match e { Ev::Call(o) => o.find(id), _ => None })
    }
}

// ---------------------------------------------------------------- cases

fn call_of(r: &mut Rng, k: &Kind, w: &Wild) -> Call {
    let text = |r: &mut Rng, t: String| if r.chance(w.bad, 300) { Text::Bad(r.below(6) as u8) } else if r.chance(1, 8) { Text::Sub(t) } else { Text::Plain(t) };
    let disp = |r: &mut Rng, b: bool| if r.chance(w.bad, 300) { Disp::Bad(r.below(4) as u8) } else if r.chance(w.ev, 300) { Disp::Numpy(b, evs(r, w)) } else { Disp::Is(b) };
    match k {
        Kind::Session(s) | Kind::Iso(s) => {
            let (t, d) = (text(r, s.text()), disp(r, s.block));
            let odd = if r.chance(w.bad, 600) { 1 + r.below(3) as u8 } else { 0 };
            if matches!(k, Kind::Session(_)) { Call::Global(t, d, odd) } else { Call::Local(t, d, odd) }
        }
        Kind::Batch(v) => {
            let kind = if r.chance(w.bad, 200) { 3 + r.below(6) as u8 } else { *r.pick(&[0, 0, 1, 2, 2]) };
            let mut items: Vec<Item> = v.iter().map(|s| Item {
                text: text(r, s.text()), block: disp(r, s.block),
                shape: if r.chance(w.bad, 600) { 1 + r.below(5) as u8 } else { 0 },
                ev: if r.chance(w.ev, 100) { evs(r, w) } else { vec![] },
            }).collect();
            if r.chance(1, 60) { crate::hist::pad(r, &mut items, |_| Item { text: Text::Plain("x".into()), block: Disp::Is(false), shape: 0, ev: vec![] }) }
            Call::Batch(List { kind, items })
        }
        Kind::Reset => Call::Reset,
    }
}
/// How often arguments are unreadable, and how often things happen while they are read (percent).
struct Wild { bad: usize, ev: usize, depth: usize, pool: Vec<Kind> }
fn evs(r: &mut Rng, w: &Wild) -> Vec<Ev> {
    (0..r.range(1, 3)).map(|_| match r.below(8) {
        0 => Ev::Raise,
        1..4 if w.depth > 0 && !w.pool.is_empty() => {
            let inner = Wild { bad: w.bad, ev: w.ev / 3, depth: w.depth - 1, pool: w.pool.clone() };
            let k = r.pick(&w.pool).clone();
            Ev::Call(Box::new(PyOp { id: 0, by: 0, conv: r.below(2) as u8, call: call_of(r, &k, &inner) }))
        }
        _ => Ev::Yield,
    }).collect()
}
fn number(o: &mut PyOp, by: u8, n: &mut u32) {
    *n += 1;
    o.id = *n;
    o.by = by;
    let mut on = |ev: &mut Vec<Ev>| for e in ev { if let Ev::Call(o) = e { number(o, by, n) } };
    match &mut o.call {
        Call::Global(_, d, _) | Call::Local(_, d, _) => if let Disp::Numpy(_, ev) = d { on(ev) },
        Call::Batch(l) => for i in &mut l.items { on(&mut i.ev); if let Disp::Numpy(_, ev) = &mut i.block { on(ev) } },
        Call::Reset => {}
    }
}

// ---------------------------------------------------------------- what the library says

#[derive(Clone, Debug, PartialEq)]
enum Out { Str(String), List(Vec<String>), Nothing, Exc(String) }
fn message(c: &PyCfg, e: &LatexError, source: &str, text: &str, prefix: bool) -> String {
    if c.fancy {
        let mut buf = vec![b'\n'];
        e.to_report(source, true).write((source, ariadne::Source::from(text)), &mut buf).expect("report");
        String::from_utf8(buf).expect("utf-8")
    } else {
        let mut m = if prefix { format!("{source}:") } else { String::new() };
        e.to_message(&mut m, text);
        m
    }
}
fn display(b: bool) -> MathDisplay { if b { MathDisplay::Block } else { MathDisplay::Inline } }
fn run(cfg: &PyCfg, c: &mut Conv, call: &Call) -> Out {
    let one = |r: Result<math_core::ConvertResult, Box<LatexError>>, t: &str, d: MathDisplay| match r {
        Ok(r) => Out::Str(r.mathml),
        Err(e) if cfg.continue_on_error => Out::Str(e.to_html(t, d, None)),
        Err(e) => Out::Exc(message(cfg, &e, "input", t, false)),
    };
    match call {
        Call::Global(t, d, _) => { let (t, d) = (t.get().unwrap(), display(d.get().unwrap())); one(c.0.convert_with_global_state(t, d), t, d) }
        Call::Local(t, d, _) => { let (t, d) = (t.get().unwrap(), display(d.get().unwrap())); one(c.0.convert_with_local_state(t, d), t, d) }
        Call::Reset => { c.0.reset_global_state(); Out::Nothing }
        Call::Batch(l) => {
            let v: Vec<(&str, MathDisplay)> = l.get().unwrap().into_iter().map(|(t, d)| (t, display(d))).collect();
            let mut out = vec![];
            for (i, r) in c.0.convert_all(&v).into_iter().enumerate() {
                match r {
                    Ok(r) => out.push(r.mathml),
                    Err(e) if cfg.continue_on_error => out.push(e.to_html(v[i].0, v[i].1, None)),
                    Err(e) => return Out::Exc(message(cfg, &e, &format!("input{i}"), v[i].0, true)),
                }
            }
            Out::List(out)
        }
    }
}

// ---------------------------------------------------------------- the judge

fn seen(v: &Value) -> Option<Out> {
    if let Some(x) = v.get("ok") {
        return Some(match x {
            Value::Null => Out::Nothing,
            Value::String(s) => Out::Str(s.clone()),
            Value::Array(a) => Out::List(a.iter().map(|s| s.as_str().map(String::from)).collect::<Option<_>>()?),
            _ => return None,
        });
    }
    if v["latex"] == true { return Some(Out::Exc(v["arg"].as_str()?.to_string())) }
    None
}
fn short(t: &str) -> String { let mut t: String = t.chars().take(220).collect(); t = t.replace(['\n', '\u{1b}'], " "); t }
fn what(v: &Value) -> String { short(&if let Some(o) = v.get("ok") { format!("returned {o}") } else { format!("raised {} {}", v["exc"], v["arg"]) }) }

/// Is there an order of `calls` (index, called, returned) that explains their results?
fn serial(case: &PyCase, conv: usize, calls: &[(usize, usize)], log: &[Value], done: &mut Vec<usize>, c: Option<Conv>) -> Result<(), (usize, Out)> {
    let cfg = &case.convs[conv];
    let mut c = Some(match c { Some(c) => c, None => { let mut c = cfg.lib.build(); for i in done.iter() { run(cfg, &mut c, op(case, &log[calls[*i].0]).map(|o| &o.call).unwrap()); } c } });
    let depth = done.len();
    loop {
        let left: Vec<usize> = (0..calls.len()).filter(|i| !done.contains(i)).collect();
        if left.is_empty() { return Ok(()) }
        let first = left.iter().map(|i| calls[*i].1).min().unwrap();
        let able: Vec<usize> = left.into_iter().filter(|i| calls[*i].0 < first).collect();
        let mut worst = None;
        for i in &able {
            let mut one = match c.take() { Some(c) => c, None => { let mut c = cfg.lib.build(); for i in done.iter() { run(cfg, &mut c, op(case, &log[calls[*i].0]).map(|o| &o.call).unwrap()); } c } };
            let want = run(cfg, &mut one, &op(case, &log[calls[*i].0]).unwrap().call);
            if seen(&log[calls[*i].1][2]).as_ref() != Some(&want) { worst.get_or_insert((calls[*i].0, want)); continue }
            done.push(*i);
            if able.len() == 1 { c = Some(one); worst = None; break }
            match serial(case, conv, calls, log, done, Some(one)) { Ok(()) => return Ok(()), Err(e) => { worst = Some(e); done.truncate(done.len() - 1) } }
        }
        if let Some(w) = worst { done.truncate(depth); return Err(w) }
    }
}
fn op<'a>(case: &'a PyCase, call: &Value) -> Option<&'a PyOp> {
    let id = call[1].as_u64()? as u32;
    case.ops.iter().find_map(|o| o.find(id))
}
fn judge(case: &PyCase, v: &Value, st: &mut Stats) -> Vec<Viol> {
    if let Some(d) = v["dead"].as_str() { return vec![viol("P01", d)] }
    for (i, (c, m)) in case.convs.iter().zip(v["made"].as_array().unwrap()).enumerate() {
        let want = match c.bad {
            0 => None,
            4 => {
                let mut l = c.lib.plain();
                l.macros.push(("cfbad".into(), "\\undefd".into()));
                match math_core::LatexToMathML::new(l.build()) { Ok(_) => None, Err((e, i, s)) => Some(message(c, &e, &format!("macro{i}"), &s, true)) }
            }
            _ => { if m.get("ok").is_some() || m["latex"] == true { return vec![viol("P01", format!("converter {i} with unreadable arguments {}", what(m)))] } return vec![] }
        };
        match want {
            None => if m.get("ok").is_none() { return vec![viol("P01", format!("converter {i} {}", what(m)))] },
            Some(w) => { if m["latex"] != true || m["arg"] != w { return vec![viol("P01", format!("converter {i} with an invalid macro {} instead of raising {w:?}", what(m)))] } return vec![] }
        }
    }
    let log = v["log"].as_array().unwrap();
    let n = case.convs.len();
    let mut session: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    for (at, e) in log.iter().enumerate() {
        match e[0].as_str() {
            Some("broken") => return vec![viol("P01", format!("harness: {}", e[1]))],
            Some("return") => {}
            _ => continue,
        }
        let from = e[1].as_u64().unwrap() as usize;
        let o = op(case, &log[from]).expect("call");
        let r = &e[2];
        let conv = o.conv as usize % n;
        if !o.readable() {
            st.add("fault: unreadable argument", 1);
            if r.get("ok").is_some() || r["latex"] == true || ["LockError", "PanicException"].iter().any(|x| r["exc"] == **x) {
                return vec![viol("P01", format!("call {} with unreadable arguments {}", o.id, what(r)))];
            }
            continue;
        }
        if r.get("latex").is_some_and(|l| l == true) { st.add("conversion exceptions", 1) }
        match &o.call {
            Call::Global(..) | Call::Reset => session[conv].push((from, at)),
            c => {
                let want = run(&case.convs[conv], &mut case.convs[conv].lib.build(), c);
                st.add("shared calls compared with the library", 1);
                if seen(r).as_ref() != Some(&want) { return vec![viol("P01", format!("call {} {} instead of {}", o.id, what(r), short(&format!("{want:?}"))))] }
            }
        }
    }
    let calls = log.iter().filter(|e| e[0] == "call").count();
    if calls * 2 != log.len() { return vec![viol("P01", "a call did not return")] }
    for (conv, s) in session.iter().enumerate() {
        st.add("session calls compared with the library in serial order", s.len() as u64);
        if let Err((from, want)) = serial(case, conv, s, log, &mut vec![], None) {
            let r = s.iter().find(|c| c.0 == from).map(|c| &log[c.1][2]).unwrap();
            return vec![viol("P01", format!("no serial order explains the results: call {} {} instead of {}", log[from][1], what(r), short(&format!("{want:?}"))))];
        }
    }
    vec![]
}

// ---------------------------------------------------------------- workers

/// A worker process which answers lines with lines.
pub struct Worker { ch: Child, to: ChildStdin, from: ChildStdout, buf: Vec<u8> }
impl Worker {
    pub fn start(mut cmd: Command) -> Worker {
        let mut ch = cmd.env("VERIF_DIR", crate::verif_dir()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(if std::env::var("SIM_VERBOSE").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn().unwrap_or_else(|e| { eprintln!("{cmd:?}: {e}"); std::process::exit(3) });
        Worker { to: ch.stdin.take().unwrap(), from: ch.stdout.take().unwrap(), ch, buf: vec![] }
    }
    /// (CPU ticks, some thread is running) of the worker.
    fn state(&self) -> (u64, bool) {
        let (mut cpu, mut runs) = (0, false);
        for t in std::fs::read_dir(format!("/proc/{}/task", self.ch.id())).into_iter().flatten().flatten() {
            let Ok(s) = std::fs::read_to_string(t.path().join("stat")) else { continue };
            let f: Vec<&str> = s[s.rfind(')').map_or(0, |i| i + 2)..].split(' ').collect();
            runs |= f.first().is_some_and(|s| *s != "S");
            cpu += f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        }
        (cpu, runs)
    }
    /// The reply to a case, or how the worker failed.
    pub fn ask(&mut self, case: &Value) -> Result<Value, String> {
        let line = serde_json::to_string(case).unwrap() + "\n";
        if self.to.write_all(line.as_bytes()).is_err() { eprintln!("the worker has ended"); std::process::exit(3) }
        let start = Instant::now();
        let (mut last, mut still) = (self.state().0, Instant::now());
        let cpu0 = last;
        loop {
            if let Some(i) = self.buf.iter().position(|b| *b == b'\n') {
                let v = serde_json::from_slice(&self.buf[..i]).map_err(|e| format!("reply: {e}"));
                self.buf.drain(..=i);
                return v;
            }
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 200) } > 0 {
                let mut b = [0; 65536];
                match self.from.read(&mut b) {
                    Ok(0) | Err(_) => {
                        let s = self.ch.wait().expect("wait");
                        use std::os::unix::process::ExitStatusExt;
                        return Err(match s.signal() { Some(s) => format!("a call ended the interpreter (signal {s})"), None => format!("a call ended the interpreter (status {:?})", s.code()) });
                    }
                    Ok(n) => { self.buf.extend_from_slice(&b[..n]); continue }
                }
            }
            let (cpu, runs) = self.state();
            if cpu != last || runs { last = cpu; still = Instant::now() }
            if still.elapsed() > Duration::from_secs(10) { return Err("all callers sleep and will not be woken".into()) }
            if cpu - cpu0 > 2000 || start.elapsed() > Duration::from_secs(150) { return Err("a call did not return within 20 s of CPU time".into()) }
        }
    }
}
impl Drop for Worker { fn drop(&mut self) { let _ = self.ch.kill(); let _ = self.ch.wait(); } }

fn kwargs(c: &PyCfg) -> Value {
    let l = &c.lib;
    let mut k = json!({
        "pretty_print": (["never", "always", "auto"][l.pretty as usize % 3]), "xml_namespace": l.xmlns, "continue_on_error": c.continue_on_error,
        "ignore_unknown_commands": l.ignore_unknown, "annotation": l.annotation, "allow_unreliable_rendering": l.unreliable, "global_group": l.global_group,
        "fancy_error": c.fancy, "unicode_substitution": if l.unicode_never { "never" } else { "conventional" },
    });
    if let Some(n) = l.limit { k["max_expansions"] = json!(n) }
    if !l.id_prefix.is_empty() { k["id_prefix"] = json!(l.id_prefix) }
    let m = l.plain().macros;
    if !m.is_empty() || c.bad == 4 || c.bad == 1 {
        let mut o: Vec<Value> = m.into_iter().map(|(n, b)| json!([n, b])).collect();
        if c.bad == 4 { o.push(json!(["cfbad", "\\undefd"])) }
        if c.bad == 1 { o.push(json!(["cfbad", 7])) }
        k["macros"] = Value::Array(o);
    }
    else if c.omit & 1 << 31 != 0 { k["macros"] = Value::Null }
    for (i, (name, default)) in [("pretty_print", json!("never")), ("xml_namespace", json!(false)), ("continue_on_error", json!(false)), ("ignore_unknown_commands", json!(false)), ("annotation", json!(false)), ("allow_unreliable_rendering", json!(false)), ("global_group", json!(false)), ("fancy_error", json!(true)), ("unicode_substitution", json!("conventional"))].iter().enumerate() {
        if c.omit & 1 << i != 0 && k[*name] == *default { k.as_object_mut().unwrap().remove(*name); }
    }
    match c.bad { 2 => k["no_such_option"] = json!(true), 3 => k["pretty_print"] = json!("sometimes"), _ => {} }
    k
}

impl Case for PyCase {
    type Ctx = Option<Worker>;
    fn ctx() -> Option<Worker> { None }
    fn generate(_: &str, seed: u64, i: u64, thorough: bool) -> PyCase {
        let lib = LibCase::generate("L07", seed ^ 0x5079, i, thorough);
        let mut r = Rng::derive(seed, "P01", i);
        let pool: Vec<Kind> = lib.ops.iter().map(|o| o.kind.clone()).filter(|k| match k { Kind::Batch(v) => v.len() < 3, _ => true }).collect();
        let w = Wild { bad: *r.pick(&[0, 5, 20, 60]), ev: *r.pick(&[0, 20, 60, 100]), depth: 2, pool };
        let cfg = |r: &mut Rng| PyCfg { lib: lib.cfg.clone(), continue_on_error: r.chance(1, 2), fancy: r.chance(1, 2), bad: if r.chance(1, 60) { 1 + r.below(4) as u8 } else { 0 }, omit: if r.chance(1, 2) { u32::MAX } else { (r.below(1 << 16) | r.below(1 << 16) << 16) as u32 } };
        let mut convs = vec![cfg(&mut r)];
        if lib.ops.iter().any(|o| o.conv == 1) { convs.push(cfg(&mut r)) }
        let mut ops: Vec<PyOp> = lib.ops.iter().map(|o| PyOp { id: 0, by: o.by, conv: o.conv, call: call_of(&mut r, &o.kind, &w) }).collect();
        let mut n = 0;
        for o in &mut ops { let by = o.by; number(o, by, &mut n) }
        let len = r.range(10, 120);
        let sched = (0..len).map(|_| Dec(r.below(24) as u8, match r.below(6) { 0 => r.range(1, 5), 1 | 2 => r.range(1, 40), 3 => r.range(1, 400), _ => 0 } as u32)).collect();
        PyCase { convs, ops, sched }
    }
    fn eval(&mut self, ctx: &mut Option<Worker>, st: &mut Stats) -> Vec<Viol> {
        st.add("simulated runs", 1);
        let callers = self.ops.iter().map(|o| o.by as usize + 1).max().unwrap_or(1).min(4);
        let sched: Vec<(u32, u32)> = self.sched.iter().map(|d| (d.0 as u32, d.1)).collect();
        let convs: Vec<Value> = self.convs.iter().map(|c| json!({"kw": kwargs(c)})).collect();
        let req = json!({"convs": convs, "ops": self.ops, "sched": sched, "callers": callers});
        if ctx.is_none() {
            let mut cmd = Command::new("/opt/vp/pyvenv/bin/python");
            cmd.args(["-I", "-S", "-B"]).arg(format!("{}/pysim/driver.py", crate::verif_dir())).env("PYTHONHASHSEED", "0");
            *ctx = Some(Worker::start(cmd));
        }
        let rep = ctx.as_mut().unwrap().ask(&req);
        let v = match rep {
            Ok(v) => v,
            Err(e) => { *ctx = None; return vec![viol("P01", e)] }
        };
        if v.get("dead").is_some() { *ctx = None; return judge(self, &v, st) }
        for (k, n) in ["scheduling decisions", "switches between callers", "fault: call suspended inside the extension", "times the interpreter lock was released", "waits for a lock of the extension", "allocations inside the extension"].iter().zip(v["stats"].as_array().unwrap()) { st.add(k, n.as_u64().unwrap()) }
        let log = v["log"].as_array().unwrap();
        st.add("calls", (log.len() / 2) as u64);
        // a call made, or a turn given away, while another call of the same caller reads its arguments
        let mut open = 0u64;
        let mut nested = 0;
        for e in log { if e[0] == "call" { if open > 0 { nested += 1 } open += 1 } else { open = open.saturating_sub(1) } }
        st.add("fault: call made while another reads its arguments", nested);
        let h = hash(|h| std::hash::Hasher::write(h, serde_json::to_string(&v["log"]).unwrap().as_bytes()));
        st.distinct.insert(h);
        if nested > 0 || log.iter().any(|e| e[2].get("exc").is_some()) { st.nontrivial.insert(h); }
        judge(self, &v, st)
    }
    fn shrink(&self) -> Vec<PyCase> {
        let mut out = vec![];
        let n = self.ops.len();
        let mut size = n.div_ceil(2);
        while size > 0 {
            let mut i = 0;
            while i < n { let mut c = self.clone(); c.ops.drain(i..(i + size).min(n)); if !c.ops.is_empty() { out.push(c) } i += size }
            if size == 1 { break }
            size = size.div_ceil(2).min(size - 1);
        }
        for i in 0..self.convs.len() {
            let c0 = &self.convs[i];
            if c0.lib != LCfg::default() { let mut c = self.clone(); c.convs[i].lib = LCfg::default(); out.push(c) }
            for j in 0..c0.lib.macros.len() { let mut c = self.clone(); c.convs[i].lib.macros.remove(j); out.push(c) }
            if c0.fancy { let mut c = self.clone(); c.convs[i].fancy = false; out.push(c) }
            if c0.continue_on_error { let mut c = self.clone(); c.convs[i].continue_on_error = false; out.push(c) }
        }
        let mut k = self.sched.len();
        if k > 0 { let mut c = self.clone(); c.sched.clear(); out.push(c) }
        while k > 1 { k /= 2; let mut c = self.clone(); c.sched.truncate(k); out.push(c) }
        if self.sched.len() <= 40 { for j in 0..self.sched.len() { let mut c = self.clone(); c.sched.remove(j); out.push(c) } }
        for i in 0..n {
            for s in smaller(&self.ops[i].call) { let mut c = self.clone(); c.ops[i].call = s; out.push(c) }
        }
        out
    }
}
fn texts(t: &Text) -> Vec<Text> {
    let Some(s) = t.get() else { return vec![] };
    let mut out = vec![];
    if matches!(t, Text::Sub(_)) { out.push(Text::Plain(s.into())) }
    out.extend(shorter(s).into_iter().map(Text::Plain));
    out
}
pub fn shorter(s: &str) -> Vec<String> {
    let mut out = vec![];
    let b: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let n = b.len() - 1;
    let mut size = n / 2;
    while size > 0 && out.len() < 60 {
        let mut i = 0;
        while i + size <= n && out.len() < 60 { out.push(format!("{}{}", &s[..b[i]], &s[b[i + size]..])); i += size }
        size /= 2;
    }
    out
}
fn disps(d: &Disp) -> Vec<Disp> {
    match d { Disp::Numpy(b, ev) => std::iter::once(Disp::Is(*b)).chain(events(ev).into_iter().map(|e| Disp::Numpy(*b, e))).collect(), _ => vec![] }
}
fn events(ev: &[Ev]) -> Vec<Vec<Ev>> {
    let mut out = vec![];
    for i in 0..ev.len() {
        let mut e = ev.to_vec(); e.remove(i); out.push(e);
        if let Ev::Call(o) = &ev[i] { for s in smaller(&o.call) { let mut e = ev.to_vec(); e[i] = Ev::Call(Box::new(PyOp { call: s, ..(**o).clone() })); out.push(e) } }
    }
    out
}
fn smaller(c: &Call) -> Vec<Call> {
    match c {
        Call::Global(t, d, o) => texts(t).into_iter().map(|t| Call::Global(t, d.clone(), *o)).chain(disps(d).into_iter().map(|d| Call::Global(t.clone(), d, *o))).collect(),
        Call::Local(t, d, o) => texts(t).into_iter().map(|t| Call::Local(t, d.clone(), *o)).chain(disps(d).into_iter().map(|d| Call::Local(t.clone(), d, *o))).collect(),
        Call::Batch(l) => {
            let mut out = vec![];
            let mut put = |items: Vec<Item>| out.push(Call::Batch(List { kind: l.kind, items }));
            if l.items.len() > 8 { let n = l.items.len(); for v in [&l.items[..n / 2], &l.items[n / 2..], &l.items[n / 8..], &l.items[..n - n / 8]] { put(v.to_vec()) } }
            for i in 0..l.items.len() {
                let mut v = l.items.clone(); v.remove(i); put(v);
                for e in events(&l.items[i].ev) { let mut v = l.items.clone(); v[i].ev = e; put(v) }
                for d in disps(&l.items[i].block) { let mut v = l.items.clone(); v[i].block = d; put(v) }
                for t in texts(&l.items[i].text) { let mut v = l.items.clone(); v[i].text = t; put(v) }
            }
            out
        }
        Call::Reset => vec![],
    }
}
