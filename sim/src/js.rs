//! The JavaScript family: a program uses converter objects of the WebAssembly module. The module
//! and its JavaScript half run in node.js (`jsim/driver.js`); here are the cases, and the judge:
//! the library, called in the order in which the calls took effect.
use crate::gen_::Cfg;
use crate::hist::{Conv, Kind, LibCase};
use crate::py::{Worker, shorter};
use crate::run::{Case, Stats, Viol, viol};
use crate::util::*;
use math_core::{LatexError, LatexToMathML, MathDisplay};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::process::Command;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct JsCfg {
    pub cfg: Cfg,
    pub throw: Option<bool>,
    /// Options that are left out are `null` instead.
    pub nulls: bool,
    /// 1: a macro that is no string, 2: an unknown value of `prettyPrint`, 3: the macros cannot be
    /// iterated beyond number `at`, 4: an invalid macro, 5: no options, 6: an unknown `unicodeSubstitution`, 7: a macro whose
    /// name is no string, 8: an entry of the macros that is no pair.
    pub bad: u8,
    pub at: usize,
    /// What happens while an option is read.
    pub ev: BTreeMap<String, Vec<Ev>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Text { Plain(String), Units(Vec<u16>), Bad(u8) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev { Raise, Call(Box<JsOp>) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item { pub text: Text, pub block: bool, pub shape: u8, pub ev: Vec<Ev>, pub ev2: Vec<Ev> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct List { pub kind: u8, pub items: Vec<Item> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call { Make(Box<JsCfg>), Global(Text, bool), Local(Text, bool), Batch(List), Reset, Free, Drop, Collect }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct JsOp { pub id: u32, pub slot: u8, pub call: Call }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct JsCase {
    /// The memory cannot grow by more than so many pages.
    pub mem: Option<u32>,
    pub ops: Vec<JsOp>,
}

fn raises(ev: &[Ev]) -> bool { ev.contains(&Ev::Raise) }
impl Text {
    fn get(&self) -> Option<String> { match self { Text::Plain(s) => Some(s.clone()), Text::Units(u) => Some(String::from_utf16_lossy(u)), Text::Bad(_) => None } }
}
impl JsCfg {
    /// The macros, in the order of a `Map`.
    fn macros(&self) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = vec![];
        for (n, b) in &self.cfg.macros {
            match out.iter_mut().find(|m| m.0 == *n) { Some(m) => m.1 = b.clone(), None => out.push((n.clone(), b.clone())) }
        }
        if self.bad == 4 { out.push(("cfbad".into(), "\\undefd".into())) }
        out
    }
    fn readable(&self) -> bool {
        !self.ev.values().any(|e| raises(e)) && match self.bad { 0 | 4 => true, 3 | 8 => self.at > self.macros().len(), _ => false }
    }
    fn make(&self) -> Result<LatexToMathML, Box<(Box<LatexError>, String)>> {
        let c = Cfg { macros: self.macros(), ..self.cfg.clone() };
        LatexToMathML::new(c.build()).map_err(|(e, _, s)| Box::new((e, s)))
    }
    fn opts(&self) -> Value {
        let c = &self.cfg;
        let mut o = json!({
            "prettyPrint": c.pretty.map(|p| ["never", "always", "auto"][p as usize % 3]), "xmlNamespace": c.xmlns, "throwOnError": self.throw,
            "ignoreUnknownCommands": c.ignore_unknown, "annotation": c.annotation, "allowUnreliableRendering": c.unreliable, "globalGroup": c.global_group,
            "unicodeSubstitution": c.unicode_never.map(|v| if v { "never" } else { "conventional" }), "maxExpansions": c.max_exp, "idPrefix": c.id_prefix,
        });
        let mut m: Vec<Value> = self.macros().into_iter().map(|(n, b)| json!([n, b])).collect();
        if self.bad == 1 { m.insert(self.at.min(m.len()), json!(["cfbad", 7])) }
        if self.bad == 7 { m.insert(self.at.min(m.len()), json!([7, "x"])) }
        if !m.is_empty() || self.bad == 3 || self.bad == 8 || self.ev.contains_key("macros") { o["macros"] = Value::Array(m) }
        if self.bad == 2 { o["prettyPrint"] = json!("sometimes") }
        if self.bad == 6 { o["unicodeSubstitution"] = json!("sometimes") }
        if !self.nulls { o.as_object_mut().unwrap().retain(|k, v| !v.is_null() || self.ev.contains_key(k)) }
        o
    }
}
impl List {
    fn get(&self) -> Option<Vec<(String, bool)>> {
        if self.kind > 1 { return None }
        self.items.iter().map(|i| if (1..=3).contains(&i.shape) || raises(&i.ev) || raises(&i.ev2) { None } else { Some((i.text.get()?, i.block)) }).collect()
    }
}
impl JsOp {
    fn events(&self) -> Vec<&Ev> {
        match &self.call {
            Call::Make(c) => c.ev.values().flatten().collect(),
            Call::Batch(l) => l.items.iter().flat_map(|i| i.ev.iter().chain(&i.ev2)).collect(),
            _ => vec![],
        }
    }
    fn events_mut(&mut self) -> Vec<&mut Ev> {
        match &mut self.call {
            Call::Make(c) => c.ev.values_mut().flatten().collect(),
            Call::Batch(l) => l.items.iter_mut().flat_map(|i| i.ev.iter_mut().chain(&mut i.ev2)).collect(),
            _ => vec![],
        }
    }
    fn find(&self, id: u32) -> Option<&JsOp> {
        if self.id == id { return Some(self) }
        self.events().into_iter().find_map(|e| match e { Ev::Call(o) => o.find(id), _ => None })
    }
    fn number(&mut self, n: &mut u32) {
        *n += 1;
        self.id = *n;
        for e in self.events_mut() { if let Ev::Call(o) = e { o.number(n) } }
    }
    fn any(&self, f: &mut impl FnMut(&JsOp)) {
        f(self);
        for e in self.events() { if let Ev::Call(o) = e { o.any(f) } }
    }
    /// What the driver needs.
    fn json(&self) -> Value {
        let mut v = serde_json::to_value(self).unwrap();
        let evs = |ev: &[Ev]| -> Value { ev.iter().map(|e| match e { Ev::Raise => json!("Raise"), Ev::Call(o) => json!({"Call": o.json()}) }).collect() };
        match &self.call {
            Call::Make(c) => {
                let ev: serde_json::Map<String, Value> = c.ev.iter().map(|(k, e)| (k.clone(), evs(e))).collect();
                v["call"]["Make"] = json!({"opts": c.opts(), "bad": c.bad, "at": c.at, "ev": ev});
            }
            Call::Batch(l) => for (i, it) in l.items.iter().enumerate() {
                v["call"]["Batch"]["items"][i]["ev"] = evs(&it.ev);
                v["call"]["Batch"]["items"][i]["ev2"] = evs(&it.ev2);
            },
            _ => {}
        }
        v
    }
}

// ---------------------------------------------------------------- cases

/// How often arguments are unreadable, and how often things happen while they are read.
struct Wild { bad: usize, ev: usize, depth: usize, odd: usize, pool: Vec<Kind>, cfg: Cfg, slots: usize }
fn text_of(r: &mut Rng, w: &Wild, t: String) -> Text {
    if r.chance(w.bad, 300) { return Text::Bad(r.below(2) as u8) }
    if !r.chance(w.odd, 100) { return Text::Plain(t) }
    let mut u: Vec<u16> = t.encode_utf16().collect();
    for _ in 0..r.range(1, 3) {
        let at = r.below(u.len() + 1);
        let what: &[u16] = r.pick(&[&[0xe9][..], &[0xd835, 0xdd4f], &[0xdbff, 0xdfff], &[0x20ac], &[0xd800], &[0xdc00], &[0xdc00, 0xd800], &[0xfeff], &[0], &[0x3b1, 0x301]]);
        u.splice(at..at, what.iter().copied());
    }
    match String::from_utf16(&u) { Ok(s) => Text::Plain(s), Err(_) => Text::Units(u) }
}
fn evs(r: &mut Rng, w: &Wild) -> Vec<Ev> {
    (0..r.range(1, 2)).map(|_| match r.below(4) {
        0 => Ev::Raise,
        _ if w.depth > 0 => {
            let inner = Wild { bad: w.bad, ev: w.ev / 3, depth: w.depth - 1, odd: w.odd, pool: w.pool.clone(), cfg: w.cfg.clone(), slots: w.slots };
            let call = if r.chance(1, 12) { Call::Make(Box::new(cfg_of(r, &inner))) } else { let k = r.pick(&w.pool).clone(); call_of(r, &k, &inner) };
            Ev::Call(Box::new(JsOp { id: 0, slot: r.below(w.slots) as u8, call }))
        }
        _ => Ev::Raise,
    }).collect()
}
fn call_of(r: &mut Rng, k: &Kind, w: &Wild) -> Call {
    match k {
        Kind::Session(s) => Call::Global(text_of(r, w, s.text()), s.block),
        Kind::Iso(s) => Call::Local(text_of(r, w, s.text()), s.block),
        Kind::Batch(v) => {
            let kind = if r.chance(w.bad, 300) { 2 + r.below(2) as u8 } else { r.below(2) as u8 };
            let mut items: Vec<Item> = v.iter().map(|s| Item {
                text: text_of(r, w, s.text()), block: s.block,
                shape: if r.chance(w.bad, 300) { 1 + r.below(3) as u8 } else { *r.pick(&[0, 0, 0, 4, 5, 6]) },
                ev: if r.chance(w.ev, 200) { evs(r, w) } else { vec![] },
                ev2: if r.chance(w.ev, 200) { evs(r, w) } else { vec![] },
            }).collect();
            if r.chance(1, 60) { crate::hist::pad(r, &mut items, |_| Item { text: Text::Plain("x".into()), block: false, shape: 0, ev: vec![], ev2: vec![] }) }
            Call::Batch(List { kind, items })
        }
        Kind::Reset => Call::Reset,
    }
}
const OPTIONS: [&str; 11] = ["prettyPrint", "macros", "xmlNamespace", "throwOnError", "ignoreUnknownCommands", "annotation", "allowUnreliableRendering", "globalGroup", "unicodeSubstitution", "maxExpansions", "idPrefix"];
fn cfg_of(r: &mut Rng, w: &Wild) -> JsCfg {
    let mut cfg = w.cfg.clone();
    if r.chance(1, 3) { cfg.pretty = None }
    if r.chance(1, 3) { cfg.xmlns = None }
    if r.chance(1, 3) { cfg.annotation = None }
    if r.chance(1, 3) { cfg.unreliable = None }
    if r.chance(1, 3) { cfg.unicode_never = None }
    if r.chance(1, 5) { cfg.id_prefix = None }
    if r.chance(1, 5) { cfg.global_group = None }
    if r.chance(1, 5) { cfg.ignore_unknown = None }
    if r.chance(1, 5) { cfg.max_exp = None }
    let mut ev = BTreeMap::new();
    if r.chance(w.ev, 400) { for _ in 0..r.range(1, 2) { let k = r.pick(&OPTIONS).to_string(); ev.insert(k, evs(r, w)); } }
    JsCfg { cfg, throw: *r.pick(&[None, Some(true), Some(false)]), nulls: r.chance(1, 4), bad: if r.chance(w.bad.max(2), 300) { 1 + r.below(8) as u8 } else { 0 }, at: r.below(4), ev }
}

// ---------------------------------------------------------------- what the library says

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Ok(Value),
    /// Message, label, start, end, index, context, report.
    Latex(Value),
    /// Some other exception.
    Refused,
}
fn utf16(s: &str, at: usize) -> usize { s.get(..at).map_or(at, |s| s.encode_utf16().count()) }
fn latex(e: &LatexError, text: &str, index: Option<usize>, context: bool) -> Out {
    let mut buf = vec![];
    let name = if context { "macro" } else { "input" };
    e.to_report(name, false).write((name, ariadne::Source::from(text)), &mut buf).expect("report");
    Out::Latex(json!([e.error_message(), e.label(), utf16(text, e.0.start), utf16(text, e.0.end), index, context.then_some(text), String::from_utf8(buf).unwrap()]))
}
fn display(b: bool) -> MathDisplay { if b { MathDisplay::Block } else { MathDisplay::Inline } }
fn run(cfg: &JsCfg, c: &mut Conv, call: &Call) -> Out {
    let throws = cfg.throw.unwrap_or(true);
    let one = |r: Result<math_core::ConvertResult, Box<LatexError>>, t: &str, d: MathDisplay| match r {
        Ok(r) => Out::Ok(json!(r.mathml)),
        Err(e) if !throws => Out::Ok(json!(e.to_html(t, d, None))),
        Err(e) => latex(&e, t, None, false),
    };
    match call {
        Call::Global(t, d) => { let Some(t) = t.get() else { return Out::Refused }; one(c.0.convert_with_global_state(&t, display(*d)), &t, display(*d)) }
        Call::Local(t, d) => { let Some(t) = t.get() else { return Out::Refused }; one(c.0.convert_with_local_state(&t, display(*d)), &t, display(*d)) }
        Call::Reset => { c.0.reset_global_state(); Out::Ok(Value::Null) }
        Call::Batch(l) => {
            let Some(v) = l.get() else { return Out::Refused };
            let v: Vec<(&str, MathDisplay)> = v.iter().map(|(t, d)| (t.as_str(), display(*d))).collect();
            let mut out = vec![];
            for (i, r) in c.0.convert_all(&v).into_iter().enumerate() {
                match r {
                    Ok(r) => out.push(r.mathml),
                    Err(e) if !throws => out.push(e.to_html(v[i].0, v[i].1, None)),
                    Err(e) => return latex(&e, v[i].0, Some(i), false),
                }
            }
            Out::Ok(json!(out))
        }
        Call::Make(..) | Call::Free | Call::Drop | Call::Collect => unreachable!(),
    }
}

// ---------------------------------------------------------------- the judge

fn seen(v: &Value) -> Out {
    if let Some(x) = v.get("ok") { return Out::Ok(x.clone()) }
    if let Some(x) = v.get("latex") { return Out::Latex(x.clone()) }
    Out::Refused
}
fn short(t: &str) -> String { let mut t: String = t.chars().take(260).collect(); t = t.replace('\n', " "); t }
struct Obj { cfg: JsCfg, conv: Conv, freed: bool, batches: usize, held: bool }

fn judge(case: &JsCase, v: &Value, st: &mut Stats) -> Vec<Viol> {
    let bad = |m: String| vec![viol("J01", m)];
    if let Some(b) = v["broken"].as_str() { return if case.mem.is_some() { vec![] } else { bad(format!("harness: {b}")) } }
    let log = v["log"].as_array().unwrap();
    let mut objs: Vec<Obj> = vec![];
    let mut slots: Vec<Option<usize>> = vec![None; 256];
    let mut open: BTreeMap<usize, Option<usize>> = BTreeMap::new();
    for (at, e) in log.iter().enumerate() {
        let Some(o) = (match e[0].as_str() { Some("call") => e[1].as_u64(), _ => log[e[1].as_u64().unwrap() as usize][1].as_u64() }).and_then(|id| case.ops.iter().find_map(|o| o.find(id as u32))) else { return bad("harness: unknown call".into()) };
        if e[0] == "call" {
            let target = match o.call { Call::Make(_) | Call::Drop | Call::Collect => None, _ => slots[o.slot as usize] };
            if let (Some(t), Call::Batch(_)) = (target, &o.call) { objs[t].batches += 1 }
            open.insert(at, target);
            continue;
        }
        let from = e[1].as_u64().unwrap() as usize;
        let target = open.remove(&from).unwrap();
        if let (Some(t), Call::Batch(_)) = (target, &o.call) { objs[t].batches -= 1 }
        let r = &e[2];
        let got = seen(r);
        // Without memory a call may end in an exception, but then has done nothing.
        if case.mem.is_some() && got == Out::Refused { st.add("calls that ran out of memory or came after one that did", 1); continue }
        let trapped = r["exc"] == "RuntimeError" || r["arg"].as_str().is_some_and(|a| a.starts_with("while reading the error"));
        let want = match &o.call {
            Call::Drop => { slots[o.slot as usize] = None; Out::Ok(Value::Null) }
            Call::Collect => Out::Ok(Value::Null),
            Call::Make(c) => {
                if !c.readable() { st.add("fault: options that cannot be read", 1); Out::Refused } else {
                    match c.make() {
                        Ok(conv) => { if got == Out::Ok(Value::Null) { objs.push(Obj { cfg: (**c).clone(), conv: Conv(conv), freed: false, batches: 0, held: false }); slots[o.slot as usize] = Some(objs.len() - 1) } Out::Ok(Value::Null) }
                        Err(e) => latex(&e.0, &e.1, None, true),
                    }
                }
            }
            Call::Free => match target {
                // What freeing twice does is left open.
                Some(t) if objs[t].freed && !trapped => got.clone(),
                // Freeing may be refused while the converter is in use, and to wasm-bindgen it stays in
                // use after it has refused a call.
                Some(t) => { objs[t].freed = true; if (objs[t].held || objs[t].batches > 0) && !trapped { got.clone() } else { Out::Ok(Value::Null) } }
                None => Out::Ok(Value::Null),
            },
            c => {
                let t = target.expect("a call without a converter");
                let ob = &mut objs[t];
                if ob.freed { st.add("fault: call on a freed converter", 1); Out::Refused }
                else if ob.batches > 0 && matches!(c, Call::Global(..) | Call::Reset) && got == Out::Refused && !trapped { st.add("calls refused during a batch of the same converter", 1); ob.held = true; Out::Refused }
                else {
                    let w = run(&ob.cfg, &mut ob.conv, c);
                    if w == Out::Refused { st.add("fault: arguments that cannot be read", 1) }
                    if matches!(w, Out::Latex(_)) { st.add("conversion exceptions", 1) }
                    w
                }
            }
        };
        st.add("results compared with the library", 1);
        if got != want || trapped {
            let what = match &o.call { Call::Make(_) => "creating a converter", Call::Global(..) => "a session call", Call::Local(..) => "an isolated call", Call::Batch(_) => "a batch", Call::Reset => "a reset", Call::Free => "free", Call::Drop | Call::Collect => "a collection" };
            return bad(format!("{what} (call {}) gives {} instead of {}", o.id, short(&r.to_string()), short(&format!("{want:?}"))));
        }
    }
    if !open.is_empty() { return bad("a call did not return".into()) }
    vec![]
}

impl Case for JsCase {
    type Ctx = Option<Worker>;
    fn ctx() -> Option<Worker> { None }
    fn generate(_: &str, seed: u64, i: u64, thorough: bool) -> JsCase {
        let lib = LibCase::generate("L07", seed ^ 0x4a53, i, thorough);
        let mut r = Rng::derive(seed, "J01", i);
        let slots = 1 + lib.ops.iter().map(|o| o.conv as usize).max().unwrap_or(0) + r.chance(1, 4) as usize;
        let pool: Vec<Kind> = lib.ops.iter().map(|o| o.kind.clone()).filter(|k| match k { Kind::Batch(v) => v.len() < 3, _ => true }).chain([Kind::Reset]).collect();
        let w = Wild { bad: *r.pick(&[0, 5, 20, 60]), ev: *r.pick(&[0, 20, 60, 100]), depth: 2, odd: *r.pick(&[0, 10, 50]), pool, cfg: lib.cfg.plain(), slots };
        let life = *r.pick(&[0, 0, 10, 30]);
        let mut ops: Vec<JsOp> = (0..slots).map(|s| JsOp { id: 0, slot: s as u8, call: Call::Make(Box::new(cfg_of(&mut r, &w))) }).collect();
        for o in &lib.ops {
            while r.chance(life, 100) {
                let slot = r.below(slots) as u8;
                let call = match r.below(6) { 0 => Call::Free, 1 => Call::Drop, 2 | 3 => Call::Collect, _ => Call::Make(Box::new(cfg_of(&mut r, &w))) };
                ops.push(JsOp { id: 0, slot, call })
            }
            ops.push(JsOp { id: 0, slot: if r.chance(1, 6) { r.below(slots) as u8 } else { o.conv }, call: call_of(&mut r, &o.kind, &w) })
        }
        let mut n = 0;
        for o in &mut ops { o.number(&mut n) }
        JsCase { mem: if r.chance(1, 6) { Some(*r.pick(&[0, 1, 2, 3, 4, 6, 9])) } else { None }, ops }
    }
    fn eval(&mut self, ctx: &mut Option<Worker>, st: &mut Stats) -> Vec<Viol> {
        st.add("simulated runs", 1);
        let ops: Vec<Value> = self.ops.iter().map(JsOp::json).collect();
        if ctx.is_none() {
            let mut cmd = Command::new("node");
            cmd.args(["--single-threaded", "--stack-size=900"]).arg(format!("{}/jsim/driver.js", crate::verif_dir()));
            *ctx = Some(Worker::start(cmd));
        }
        let v = match ctx.as_mut().unwrap().ask(&json!({"mem": self.mem, "ops": ops})) {
            Ok(v) => v,
            Err(e) => { *ctx = None; return vec![viol("J01", e)] }
        };
        let log = v["log"].as_array().cloned().unwrap_or_default();
        st.add("calls", (log.len() / 2) as u64);
        let (mut open, mut nested, mut exc) = (0u64, 0, false);
        for e in &log { if e[0] == "call" { if open > 0 { nested += 1 } open += 1 } else { open -= 1; exc |= e[2].get("ok").is_none() } }
        st.add("fault: call made while another reads its arguments", nested);
        st.add("fault: exception while arguments are read", v["stats"][0].as_u64().unwrap_or(0));
        st.add("pages by which the memory grew", v["stats"][2].as_u64().unwrap_or(0));
        if self.mem.is_some() { st.add("fault: memory that cannot grow", 1) }
        for o in &self.ops { o.any(&mut |o| {
            match &o.call {
                Call::Collect => st.add("fault: collection of dropped objects", 1),
                Call::Global(Text::Units(_), _) | Call::Local(Text::Units(_), _) => st.add("fault: string that is not valid UTF-16", 1),
                Call::Batch(l) => st.add("fault: string that is not valid UTF-16", l.items.iter().filter(|i| matches!(i.text, Text::Units(_))).count() as u64),
                _ => {}
            }
        }) }
        let h = hash(|h| std::hash::Hasher::write(h, serde_json::to_string(&v["log"]).unwrap().as_bytes()));
        st.distinct.insert(h);
        if nested > 0 || exc || self.mem.is_some() { st.nontrivial.insert(h); }
        judge(self, &v, st)
    }
    fn shrink(&self) -> Vec<JsCase> {
        let mut out = vec![];
        let n = self.ops.len();
        let mut size = n.div_ceil(2);
        while size > 0 {
            let mut i = 0;
            while i < n { let mut c = self.clone(); c.ops.drain(i..(i + size).min(n)); if !c.ops.is_empty() { out.push(c) } i += size }
            if size == 1 { break }
            size = size.div_ceil(2).min(size - 1);
        }
        if self.mem.is_some() { let mut c = self.clone(); c.mem = None; out.push(c) }
        for i in 0..n {
            if self.ops[i].slot > 0 { let mut c = self.clone(); c.ops[i].slot = 0; out.push(c) }
            for s in smaller(&self.ops[i].call) { let mut c = self.clone(); c.ops[i].call = s; out.push(c) }
        }
        out
    }
}
fn texts(t: &Text) -> Vec<Text> {
    match t {
        Text::Plain(s) => shorter(s).into_iter().map(Text::Plain).collect(),
        Text::Units(u) => [2, 4, 8, 16, 32].iter().flat_map(|d| { let s = (u.len() / d).max(1); (0..u.len().div_ceil(s)).map(move |i| (i * s, (i * s + s).min(u.len()))) }).map(|(a, b)| { let mut u = u.clone(); u.drain(a..b); match String::from_utf16(&u) { Ok(s) => Text::Plain(s), Err(_) => Text::Units(u) } }).collect(),
        Text::Bad(_) => vec![],
    }
}
fn events(ev: &[Ev]) -> Vec<Vec<Ev>> {
    let mut out = vec![];
    for i in 0..ev.len() {
        let mut e = ev.to_vec(); e.remove(i); out.push(e);
        if let Ev::Call(o) = &ev[i] { for s in smaller(&o.call) { let mut e = ev.to_vec(); e[i] = Ev::Call(Box::new(JsOp { call: s, ..(**o).clone() })); out.push(e) } }
    }
    out
}
fn smaller(c: &Call) -> Vec<Call> {
    match c {
        Call::Global(t, d) => texts(t).into_iter().map(|t| Call::Global(t, *d)).collect(),
        Call::Local(t, d) => texts(t).into_iter().map(|t| Call::Local(t, *d)).collect(),
        Call::Batch(l) => {
            let mut out = vec![];
            let mut put = |items: Vec<Item>| out.push(Call::Batch(List { kind: l.kind, items }));
            if l.items.len() > 8 { let n = l.items.len(); for v in [&l.items[..n / 2], &l.items[n / 2..], &l.items[n / 8..], &l.items[..n - n / 8]] { put(v.to_vec()) } }
            for i in 0..l.items.len() {
                let mut v = l.items.clone(); v.remove(i); put(v);
                for e in events(&l.items[i].ev) { let mut v = l.items.clone(); v[i].ev = e; put(v) }
                for e in events(&l.items[i].ev2) { let mut v = l.items.clone(); v[i].ev2 = e; put(v) }
                for t in texts(&l.items[i].text) { let mut v = l.items.clone(); v[i].text = t; put(v) }
                if l.items[i].shape > 3 { let mut v = l.items.clone(); v[i].shape = 0; put(v) }
            }
            if l.kind == 1 { out.push(Call::Batch(List { kind: 0, items: l.items.clone() })) }
            out
        }
        Call::Make(c) => {
            let mut out = vec![];
            let mut put = |f: &dyn Fn(&mut JsCfg)| { let mut n = (**c).clone(); f(&mut n); if n != **c { out.push(Call::Make(Box::new(n))) } };
            put(&|c| c.cfg = Cfg::default());
            put(&|c| c.ev.clear());
            put(&|c| c.nulls = false);
            put(&|c| c.throw = None);
            for i in 0..c.cfg.macros.len() { put(&|c| { c.cfg.macros.remove(i); }) }
            put(&|c| c.cfg.pretty = None);
            put(&|c| c.cfg.id_prefix = None);
            put(&|c| c.cfg.max_exp = None);
            put(&|c| c.cfg.global_group = None);
            put(&|c| c.cfg.ignore_unknown = None);
            for (k, v) in &c.ev { for e in events(v) { put(&|c| { if e.is_empty() { c.ev.remove(k); } else { c.ev.insert(k.clone(), e.clone()); } }) } }
            out
        }
        _ => vec![],
    }
}
