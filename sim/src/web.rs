//! The playground: its page runs in a simulated browser (`wsim/driver.js`), where the case decides what
//! the user does and when whatever the page waits for ends, and how. The judge follows what the user did
//! and asks the library what the page has to show once nothing is pending.
use crate::gen_::Cfg;
use crate::hist::{Kind, LibCase};
use crate::py::{Worker, shorter};
use crate::run::{Case, Stats, Viol, viol};
use crate::util::*;
use math_core::{LatexError, LatexToMathML, MathDisplay};
use serde::{Deserialize, Deserializer, Serialize};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::process::Command;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WText { Plain(String), Units(Vec<u16>), Big(u32, u32) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct WCfg { pub cfg: Cfg, pub bad: u8, pub spaced: bool, pub throw: Option<bool> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Bad { Cut(u32), Flip(u32, char), Param(String), Body(String), Other(String) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Link { pub of: u32, pub clip: bool, pub bad: Option<Bad> }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Open { pub link: Option<Link>, pub restore: bool, pub native: bool, pub clipboard: bool, pub path: String, pub search: String }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum WOp { Open(Open), Type(WText), Config(WCfg), Blur(bool), Pretty(bool), Block(bool), Font(u8), Gen, Copy(u8), Task(u32, bool), Settle(u32) }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WebCase { pub ops: Vec<WOp> }

fn newlines(t: &str) -> String { t.replace("\r\n", "\n").replace('\r', "\n") }
impl WText {
    fn get(&self) -> String {
        match self {
            WText::Plain(s) => newlines(s),
            WText::Units(u) => newlines(&String::from_utf16_lossy(u)),
            WText::Big(seed, n) => {
                let mut r = Rng::new(*seed as u64);
                let mut s = String::from("x + \\text{");
                for _ in 0..*n { s.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .") as char) }
                s + "}"
            }
        }
    }
    fn json(&self) -> Value { match self { WText::Big(..) => json!({"Plain": self.get()}), t => serde_json::to_value(t).unwrap() } }
}
impl WCfg {
    fn text(&self) -> String {
        let c = &self.cfg;
        let mut f: Vec<(&str, String)> = vec![];
        let macros: Vec<String> = self.macros().iter().map(|(n, b)| format!("{}:{}{}", json!(n), if self.spaced { " " } else { "" }, if self.bad == 6 { "7".into() } else { json!(b).to_string() })).collect();
        if !macros.is_empty() { f.push(("macros", format!("{{{}}}", macros.join(if self.spaced { ",\n        " } else { "," })))) }
        if self.bad == 3 { f.retain(|f| f.0 != "macros"); f.push(("macros", "null".into())) }
        for (k, v) in [("xmlNamespace", c.xmlns), ("ignoreUnknownCommands", c.ignore_unknown), ("annotation", c.annotation), ("allowUnreliableRendering", c.unreliable), ("globalGroup", c.global_group), ("throwOnError", self.throw)] {
            if let Some(v) = v { f.push((k, v.to_string())) }
        }
        if self.bad == 5 { f.push(("unicodeSubstitution", "\"sometimes\"".into())) }
        else if let Some(v) = c.unicode_never { f.push(("unicodeSubstitution", if v { "\"never\"" } else { "\"conventional\"" }.into())) }
        if let Some(n) = c.max_exp { f.push(("maxExpansions", n.to_string())) }
        if let Some(p) = &c.id_prefix { f.push(("idPrefix", json!(p).to_string())) }
        if let Some(p) = c.pretty { f.push(("prettyPrint", format!("\"{}\"", ["never", "always", "auto"][p as usize % 3]))) }
        let s = if self.spaced { format!("{{\n    {}\n}}\n", f.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(",\n    ")) } else { format!("{{{}}}", f.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")) };
        match self.bad { 1 => s[..s.trim_end().len() - 1].to_string(), 2 => "null".into(), 7 => "".into(), _ => s }
    }
    fn macros(&self) -> Vec<(String, String)> {
        let mut out: Vec<(String, String)> = vec![];
        for (n, b) in &self.cfg.macros { match out.iter_mut().find(|m| m.0 == *n) { Some(m) => m.1 = b.clone(), None => out.push((n.clone(), b.clone())) } }
        if self.bad == 4 { out.push(("cfbad".into(), "é x\n y^{\u{1f469}\u{200d}\u{1f680}} + \\undefd z".into())) }
        if self.bad == 6 && out.is_empty() { out.push(("cfbad".into(), String::new())) }
        out
    }
}

// ---------------------------------------------------------------- a configuration as the page reads it

struct Ordered(Vec<(String, Value)>);
impl<'de> Deserialize<'de> for Ordered {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Ordered;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("an object") }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Ordered, A::Error> {
                let mut out: Vec<(String, Value)> = vec![];
                while let Some((k, v)) = a.next_entry::<String, Value>()? { match out.iter_mut().find(|m| m.0 == k) { Some(m) => m.1 = v, None => out.push((k, v)) } }
                Ok(Ordered(out))
            }
        }
        d.deserialize_map(V)
    }
}
#[derive(Deserialize)]
struct Raw {
    macros: Option<Ordered>,
    #[serde(flatten)]
    rest: serde_json::Map<String, Value>,
}
#[derive(Clone)]
enum CfgErr { Latex(Box<LatexError>, String), Other }
struct Used { conv: LatexToMathML, throws: bool }
fn usable(text: &str, pretty: bool) -> Result<Used, CfgErr> {
    let raw: Raw = serde_json::from_str(text.trim()).map_err(|_| CfgErr::Other)?;
    // `null` is no object of macros.
    if raw.macros.is_none() && serde_json::from_str::<Value>(text.trim()).is_ok_and(|v| v.get("macros").is_some()) { return Err(CfgErr::Other) }
    let b = |k: &str| raw.rest.get(k).and_then(Value::as_bool);
    let mut macros = vec![];
    for (k, v) in raw.macros.map_or(vec![], |m| m.0) { macros.push((k, v.as_str().ok_or(CfgErr::Other)?.to_string())) }
    let unicode_never = match raw.rest.get("unicodeSubstitution").and_then(Value::as_str) { None => None, Some("never") => Some(true), Some("conventional") => Some(false), _ => return Err(CfgErr::Other) };
    let cfg = Cfg {
        pretty: Some(pretty as u8), macros, xmlns: b("xmlNamespace"), ignore_unknown: b("ignoreUnknownCommands"), annotation: b("annotation"), unreliable: b("allowUnreliableRendering"),
        global_group: b("globalGroup"), unicode_never, css_unknown: None, indent: None, max_exp: raw.rest.get("maxExpansions").and_then(Value::as_u64).map(|n| n as u32),
        id_prefix: raw.rest.get("idPrefix").and_then(Value::as_str).map(String::from),
    };
    match LatexToMathML::new(cfg.build()) {
        Ok(conv) => Ok(Used { conv, throws: b("throwOnError").unwrap_or(true) }),
        Err((e, _, s)) => Err(CfgErr::Latex(e, s)),
    }
}

// ---------------------------------------------------------------- what an error looks like

fn utf16(s: &str) -> usize { s.encode_utf16().count() }
/// What is wrong with the display of an error, if anything: message, label and place are to be seen.
/// `seg` are the characters of the source as a reader sees them.
fn display(code: &str, name: &str, msg: &str, label: &str, span: Option<(usize, usize)>, seg: &[String]) -> Option<String> {
    let Some(rest) = code.strip_prefix(&format!("Error: {msg}")) else { return Some(format!("the error shown is not \"{msg}\"")) };
    if !rest.contains(label) { return Some(format!("the label \"{label}\" is missing")) }
    let (from, to) = span?;
    // Offsets of the characters.
    let mut at = vec![0];
    for s in seg { at.push(at.last().unwrap() + utf16(s)) }
    let Some(gs) = at.iter().position(|a| *a == from) else { return None };
    let ge = at.iter().position(|a| *a >= to).unwrap_or(seg.len()).max(gs + 1);
    let nl = |s: &String| s == "\n" || s == "\r";
    if seg.iter().any(|s| s.contains('\r')) { return None }
    let line = 1 + seg[..gs].iter().filter(|s| nl(s)).count();
    let col = gs - seg[..gs].iter().rposition(nl).map_or(0, |i| i + 1) + 1;
    let head = format!("[ {name}:{line}:{col} ]");
    if !rest.contains(&head) { return Some(format!("the error is not shown at {head}")) }
    if seg[gs..ge.min(seg.len())].iter().any(nl) { return None }
    let rows: Vec<&str> = rest[rest.find(&head).unwrap()..].lines().collect();
    let Some(k) = rows.iter().position(|r| r.starts_with(&format!(" {line} │ "))) else { return Some(format!("line {line} is not shown")) };
    let ctx = rows[k].split_once("│ ").unwrap().1;
    let Some(mark) = rows.get(k + 1).and_then(|r| r.split_once("│ ")).map(|r| r.1) else { return Some("nothing is underlined".into()) };
    let pad = mark.chars().take_while(|c| *c == ' ').count();
    let width = mark.chars().skip(pad).take_while(|c| *c == '─' || *c == '┬').count();
    if width != ge - gs { return Some(format!("{width} characters are underlined, not {}", ge - gs)) }
    let upto = ge.min(seg.len());
    for dots in ["", "..."] {
        let Some(cs) = (gs + dots.len()).checked_sub(pad) else { continue };
        if cs > gs { continue }
        let text: String = dots.to_string() + &seg[cs..upto].concat();
        if ctx.starts_with(&text) { return None }
    }
    Some(format!("what is underlined in {ctx:?} is not {:?}", seg[gs..upto].concat()))
}

// ---------------------------------------------------------------- the judge

#[derive(Clone, Debug, PartialEq)]
struct State { input: String, pretty: bool, block: bool, font: String }
enum Shown { Nothing, Out, Cfg(CfgErr, bool) }
struct Page {
    is: State,
    config: String,
    loaded: bool,
    dead: bool,
    used: Option<Used>,
    shown: Shown,
    /// The state a link that is still being read stands for (`None`: not known), whether the link is sound, and if
    /// not, whether that can be known.
    link: Option<(Option<State>, bool, bool)>,
    click: Option<State>,
    unsure: bool,
    copies: Vec<String>,
    copy_failed: bool,
    clip0: usize,
    errors0: usize,
    opened: bool,
}
impl Page {
    fn attempt(&mut self) -> bool {
        match usable(&self.config, self.is.pretty) {
            Ok(u) => { self.used = Some(u); self.shown = Shown::Out; true }
            Err(e) => { self.shown = Shown::Cfg(e, false); false }
        }
    }
    fn refresh(&mut self) { if self.used.is_some() { self.shown = Shown::Out } }
    fn adopt(&mut self, s: &Value) {
        let t = |k: &str| s[k].as_str().unwrap_or("").to_string();
        self.is = State { input: t("input"), pretty: s["pretty"] == "true", block: s["block"] == "block", font: t("font") };
    }
    /// The link has been read.
    fn arrive(&mut self, s: &Value) -> Result<(), String> {
        let Some((what, sound, judged)) = self.link.take() else { return Ok(()) };
        let before = self.is.input.clone();
        match (what, sound) {
            // A page without a font makes links without one.
            (Some(w), true) => { self.opened = true; let font = if w.font.is_empty() { s["font"].as_str().unwrap_or("").to_string() } else { w.font.clone() }; self.is = State { font, ..w } }
            (w, sound) => {
                self.adopt(s);
                let same = |a: &str| self.is.input == a;
                if !sound && judged && !same(&before) && !w.is_some_and(|w| same(&w.input)) { return Err(format!("a broken link changes the input to {}", short(&self.is.input))) }
            }
        }
        if self.loaded && !self.attempt() {
            if let (true, Shown::Cfg(_, alt)) = (self.used.is_some(), &mut self.shown) { *alt = true }
        }
        Ok(())
    }
}
fn short(t: &str) -> String { let t: String = t.chars().take(160).collect(); format!("{t:?}") }
fn js_blank(t: &str) -> bool { t.chars().all(|c| (c.is_whitespace() && c != '\u{85}') || c == '\u{feff}') }

fn judge(case: &WebCase, v: &Value, st: &mut Stats) -> Vec<Viol> {
    let bad = |m: String| vec![viol("W01", m)];
    if let Some(b) = v["broken"].as_str() { return bad(format!("harness: {b}")) }
    let log = v["log"].as_array().unwrap();
    let mut p: Option<Page> = None;
    let mut known: BTreeMap<String, Option<State>> = BTreeMap::new();
    for (n, (op, e)) in case.ops.iter().zip(log).enumerate() {
        let s = &e["s"];
        let text = |k: &str| s[k].as_str().unwrap_or("").to_string();
        let at = |m: String| bad(format!("after step {n}: {m}"));
        match (op, &mut p) {
            (WOp::Open(o), _) => {
                let old = p.take();
                let url = e["info"]["link"].as_str();
                let fresh = State { input: String::new(), pretty: true, block: true, font: String::new() };
                let is = match &old { Some(q) if o.restore => State { font: String::new(), ..q.is.clone() }, _ => fresh };
                let config = match &old { Some(q) if o.restore => q.config.clone(), _ => text("config") };
                let sound = o.link.as_ref().is_some_and(|l| l.bad.is_none());
                // A broken link was made from one that may be known.
                let base = e["info"]["base"].as_str();
                let link = url.map(|u| known.get(if sound { u } else { base.unwrap_or("") }).cloned().flatten());
                let judged = sound || base.is_none() || link.as_ref().is_some_and(Option::is_some);
                let link = link.map(|w| (w, sound, judged));
                p = Some(Page { is, config, loaded: false, dead: false, used: None, shown: Shown::Nothing, link, click: None, unsure: false, copies: vec![], copy_failed: false, clip0: s["clip"].as_array().map_or(0, Vec::len), errors0: s["errors"].as_array().map_or(0, Vec::len), opened: false });
                let p = p.as_mut().unwrap();
                if p.is.font.is_empty() { p.is.font = text("font") }
            }
            (_, None) => continue,
            (WOp::Type(t), Some(p)) => { p.is.input = t.get(); p.refresh() }
            (WOp::Config(c), Some(p)) => { p.config = newlines(&c.text()); if p.loaded { p.attempt(); } }
            (WOp::Blur(_), _) => {}
            (WOp::Pretty(b), Some(p)) => if p.is.pretty != *b {
                p.is.pretty = *b;
                if p.loaded && !p.attempt() && p.used.is_some() { if let Shown::Cfg(_, alt) = &mut p.shown { *alt = true } }
            },
            (WOp::Block(b), Some(p)) => if p.is.block != *b { p.is.block = *b; p.refresh() },
            (WOp::Font(_), Some(p)) => p.is.font = text("font"),
            (WOp::Gen, Some(p)) => if !js_blank(&p.is.input) {
                let waits = n > 0 && log[n - 1]["s"]["waiting"].as_array().is_some_and(|w| w.iter().any(|k| k == "compress"));
                if !waits { p.unsure = false }
                p.click = Some(p.is.clone());
            },
            (WOp::Copy(_), Some(p)) => if let Some(t) = e["info"]["text"].as_str() { p.copies.push(t.to_string()) },
            (WOp::Task(_, fail), Some(p)) => match e["info"]["ran"].as_str() {
                Some("download") if *fail => { p.dead = true }
                Some("download") => { p.loaded = true; p.attempt(); }
                Some("decompress") if *fail => { p.link = None; }
                Some("decompress") => if let Err(m) = p.arrive(s) { return at(m) },
                Some("compress") if *fail => p.unsure = true,
                Some("clipboard") if *fail => p.copy_failed = true,
                _ => {}
            },
            (WOp::Settle(_), Some(p)) => {
                if e["info"]["endless"] == true { return at("the page does not come to rest".into()) }
                if !p.loaded && !p.dead { p.loaded = true; p.attempt(); }
                if p.loaded { if let Err(m) = p.arrive(s) { return at(m) } }
            }
        }
        let p = p.as_mut().unwrap();
        if s["waiting"].as_array().is_none_or(|w| !w.is_empty()) { continue }
        // A link that is refused at once leaves nothing to wait for.
        if p.loaded { if let Some((_, false, _)) = p.link { if let Err(m) = p.arrive(s) { return at(m) } } }
        st.add("pages at rest compared with the library", 1);
        if p.dead { if !text("field").is_empty() { return at("a page without its module shows a result".into()) } continue }
        if !p.loaded { continue }
        if text("input") != p.is.input { return at(format!("the input is {} instead of {}", short(&text("input")), short(&p.is.input))) }
        for (k, got, want) in [("display style", s["block"] == "block", p.is.block), ("pretty printing", s["pretty"] == "true", p.is.pretty)] {
            if got != want { return at(format!("the option for {k} is not as it was set")) }
        }
        if p.opened && text("hash").starts_with("#input:") { return at("the link stays in the address, so that loading the page again reads it again".into()) }
        let font = text("font");
        if font != p.is.font { return at(format!("the font is {font:?} instead of {:?}", p.is.font)) }
        if !font.is_empty() && !text("style").contains(&format!("\"{font}\"")) { return at(format!("the style does not use the font {font:?}")) }
        let (field, code) = (text("field"), text("code"));
        let segs = |k: &str| -> Vec<String> { s[k].as_array().map_or(vec![], |a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()) };
        let out = |u: &Used| -> Option<String> {
            let d = if p.is.block { MathDisplay::Block } else { MathDisplay::Inline };
            let want = match u.conv.convert_with_local_state(&p.is.input, d) {
                Ok(r) => r.mathml,
                Err(e) if !u.throws => e.to_html(&p.is.input, d, None),
                Err(e) => {
                    if !field.is_empty() { return Some(format!("next to an error, {} is shown", short(&field))) }
                    let off = |i: usize| p.is.input.get(..i).map(utf16);
                    let seg = segs("seg");
                    let span = if seg.is_empty() && !p.is.input.is_empty() { None } else { off(e.0.start).zip(off(e.0.end)) };
                    return display(&code, "<input>", &e.error_message(), &e.label(), span, &seg);
                }
            };
            // Until something has been typed, the result need not be shown.
            if field != want && !(field.is_empty() && p.is.input.is_empty()) { return Some(format!("the output is {} instead of {}", short(&field), short(&want))) }
            if code != want { return Some(format!("the source shown is {} instead of {}", short(&code), short(&want))) }
            None
        };
        let cfg = |c: &CfgErr| -> Option<String> {
            if !field.is_empty() { return Some(format!("next to an error of the configuration, {} is shown", short(&field))) }
            match c {
                CfgErr::Latex(e, src) => {
                    let off = |i: usize| src.get(..i).map(utf16);
                    let seg = segs("segc");
                    let span = if seg.concat() == *src { off(e.0.start).zip(off(e.0.end)) } else { None };
                    display(&code, "<config>", &e.error_message(), &e.label(), span, &seg)
                }
                CfgErr::Other => (!code.starts_with("Error")).then(|| format!("instead of an error of the configuration, {} is shown", short(&code))),
            }
        };
        let wrong = match &p.shown {
            Shown::Nothing => None,
            Shown::Out => { st.add("outputs compared", 1); out(p.used.as_ref().unwrap()) }
            Shown::Cfg(c, alt) => { st.add("fault: configuration that cannot be used", 1); match cfg(c) { Some(_) if *alt => out(p.used.as_ref().unwrap()), w => w } }
        };
        if let Some(m) = wrong { return at(m) }
        // The link shown.
        if let Some(c) = &p.click {
            let l = text("link");
            let seen = s["hidden"] == false && l.contains('#');
            if !p.unsure {
                if !seen { return at("no link is shown".into()) }
                st.add("links compared", 1);
                match known.get(&l) {
                    Some(Some(k)) if k != c => return at(format!("the link shown stands for {} and for {}", short(&format!("{k:?}")), short(&format!("{c:?}")))),
                    _ => { known.insert(l, Some(c.clone())); }
                }
            } else if seen { known.entry(l).or_insert(None); }
        }
        // What was copied.
        let clip: Vec<&str> = s["clip"].as_array().unwrap()[p.clip0..].iter().map(|c| c.as_str().unwrap()).collect();
        if let Some(c) = clip.iter().find(|c| !p.copies.iter().any(|k| k == *c)) { return at(format!("{} was copied, which was not shown", short(c))) }
        if !p.copy_failed && clip.len() != p.copies.len() && s["errors"].as_array().is_some_and(|e| e.len() == p.errors0) { return at("something was not copied".into()) }
    }
    vec![]
}

// ---------------------------------------------------------------- cases

fn odd(r: &mut Rng) -> String {
    r.pick(&["", " ", "\n", "\u{feff}", "\u{feff}x", "x\u{feff}", "a\r\nb", "a\rb \\frac", "<b>&amp;</b>", "\\text{<script>alert(1)</script>}", "\\undefined<i>&lt;", "é\u{301}\\frac", "\u{1f469}\u{200d}\u{1f680} \\foo{", "x\n\n  y \\begin{aligned}\n a &= \\unknown \\\\",
        "\\text{👨‍👩‍👧‍👦 é̂} \\left( x", "a very long line of text that goes on and on before \\frac fails at its end", "x^\u{d7ff}", "\\begin{align}\n      x &= 1 \\\\\n  y + z &= 2\n\\end{align}", "\\label{a}\\ref{a}", "\\newcommand{\\q}{1}\\q", "\\q", "\\tag{1}", "\\d x", "\\odv{x}{y}", "\u{a0}", "\u{2028}", "\t\\", "#1", "%comment\nx", "$x$", "x\u{0}y", "\\unicode{x}", "{", "}", "\\", "&", "\\\\", "^", "\\sqrt[3"]).to_string()
}
fn wtext(r: &mut Rng, pool: &[String], before: &str) -> WText {
    let t = match r.below(10) {
        0 | 1 => odd(r),
        2 => { let mut c: Vec<char> = before.chars().collect(); c.truncate(r.below(c.len() + 1)); c.into_iter().collect() }
        3 => format!("{before}{}", if r.chance(1, 2) { odd(r) } else { r.pick(pool).clone() }),
        4 => format!("{}\n{}", r.pick(pool), r.pick(pool)),
        _ => r.pick(pool).clone(),
    };
    // Characters that something on the way may take for others.
    let t = if r.chance(1, 8) {
        let mut c: Vec<char> = t.chars().collect();
        for _ in 0..r.range(1, 3) {
            let at = r.below(c.len() + 1);
            let what = *r.pick(&["e\u{301}", "\u{212b}", "=\u{338}", "\u{1100}\u{1161}", "\u{200f}", "\u{ad}", "\u{85}", "\u{2028}", "\u{fffd}", "\u{1d7d8}", "\u{1f1e9}\u{1f1ea}", "&lt;", "&amp;", "<", "'", "\"", "$&", "$1", "%41", "+", "\u{fb01}"]);
            c.splice(at..at, what.chars());
        }
        c.into_iter().collect()
    } else { t };
    if r.chance(1, 400) { return WText::Big(r.next() as u32, *r.pick(&[200, 40_000, 87_000, 87_400, 100_000, 140_000])) }
    if r.chance(1, 25) {
        let mut u: Vec<u16> = t.encode_utf16().collect();
        let at = r.below(u.len() + 1);
        u.insert(at, *r.pick(&[0xd800, 0xdc00, 0xdfff]));
        return WText::Units(u);
    }
    WText::Plain(t)
}
impl Case for WebCase {
    type Ctx = Option<(Worker, u32)>;
    fn ctx() -> Self::Ctx { None }
    fn generate(_: &str, seed: u64, i: u64, thorough: bool) -> WebCase {
        let lib = LibCase::generate("L04", seed ^ 0x5745, i, thorough);
        let mut r = Rng::derive(seed, "W01", i);
        let mut pool: Vec<String> = lib.ops.iter().flat_map(|o| match &o.kind { Kind::Session(s) | Kind::Iso(s) => vec![s.text()], Kind::Batch(v) => v.iter().take(5).map(|s| s.text()).collect(), Kind::Reset => vec![] }).filter(|t| t.len() < 1500).take(12).collect();
        pool.push("x".into());
        let cfg = lib.cfg.plain();
        let (fails, slow, cfgs, bads) = (*r.pick(&[0, 0, 10, 30]), *r.pick(&[0, 2, 5]), *r.pick(&[2, 8, 20]), *r.pick(&[0, 30, 60]));
        let mut ops = vec![];
        let mut last = String::new();
        for page in 0..r.range(1, 4) {
            let link = if page == 0 && !r.chance(1, 12) { None } else if r.chance(3, 4) {
                let bad = if r.chance(bads.max(10), 200) || page == 0 { Some(match r.below(8) {
                    0 | 1 => Bad::Cut(r.below(200) as u32),
                    2 | 3 => Bad::Flip(r.below(200) as u32, *r.pick(&['A', 'z', '0', '_', '-', '+', '/', '=', '*', '%', '.'])),
                    4 | 5 => Bad::Param(r.pick(&["%", "math-font:%", "displaystyle:%E0%A4", "prettyprint:%zz", "displaystyle", "prettyprint:maybe", "nothing:1", "", ":", "a:b:c", "math-font:Noto%20Sans%20Math%20Regular", "displaystyle:inline", "__proto__:1", "length:3"]).to_string()),
                    6 => Bad::Body(r.pick(&["", "AAAA", "H4sI", "H4sIAAAAAAAAAw", "****", "x", "H4sIAAAAAAAAAwMAAQAAAAAAAAA", "&displaystyle:inline"]).to_string()),
                    _ => Bad::Other(r.pick(&["#what-is-this", "#", "#input", "#input:", "#Input:H4sI", "#output:AAAA"]).to_string()),
                }) } else { None };
                Some(Link { of: if r.chance(2, 3) { 1_000_000_007u32.wrapping_mul(page as u32) } else { r.below(100) as u32 }, clip: r.chance(1, 6), bad })
            } else { None };
            ops.push(WOp::Open(Open { link, restore: r.chance(1, 4), native: r.chance(1, 2), clipboard: !r.chance(1, 6), path: r.pick(&["/", "/math-core/", "/index.html"]).to_string(), search: r.pick(&["", "", "?a=1"]).to_string() }));
            if r.chance(2, 3) { ops.push(WOp::Settle(r.next() as u32)) }
            for _ in 0..r.range(1, 9) {
                match r.below(if slow > 0 { 16 + slow } else { 15 }) {
                    0..=5 => { let t = wtext(&mut r, &pool, &last); if let WText::Plain(s) = &t { last = s.clone() } ops.push(WOp::Type(t)) }
                    6 => ops.push(WOp::Pretty(r.chance(1, 2))),
                    7 | 8 => ops.push(WOp::Block(r.chance(1, 2))),
                    9 => ops.push(WOp::Font(r.below(3) as u8)),
                    10 | 11 => { ops.push(WOp::Gen); if r.chance(1, 3) { let t = wtext(&mut r, &pool, &last); ops.push(WOp::Type(t)); if r.chance(1, 2) { ops.push(WOp::Gen) } } }
                    12 => {
                        let b = r.below(4) as u8;
                        ops.push(WOp::Copy(b));
                        // Again, before the button is as it was.
                        if r.chance(1, 2) {
                            if !r.chance(1, 5) { ops.push(WOp::Task(0, r.chance(fails, 100))) }
                            if r.chance(1, 2) { let t = wtext(&mut r, &pool, &last); ops.push(WOp::Type(t)) }
                            ops.push(WOp::Copy(b));
                        }
                    }
                    13 | 14 => ops.push(WOp::Settle(r.next() as u32)),
                    15 => ops.push(WOp::Blur(r.chance(1, 2))),
                    _ => ops.push(WOp::Task(r.below(60) as u32, r.chance(fails, 100))),
                }
                if r.chance(cfgs, 100) {
                    let mut c = cfg.clone();
                    if r.chance(1, 2) { c.macros.truncate(r.below(3)) }
                    if r.chance(1, 3) { c.xmlns = Some(r.chance(1, 2)) }
                    if r.chance(1, 3) { c.annotation = Some(r.chance(1, 2)) }
                    if r.chance(1, 3) { c.ignore_unknown = Some(r.chance(1, 2)) }
                    let bad = if r.chance(1, 3) { 1 + r.below(7) as u8 } else { 0 };
                    ops.push(WOp::Config(WCfg { cfg: c, bad, spaced: r.chance(1, 2), throw: *r.pick(&[None, None, None, Some(true), Some(false)]) }));
                    if bad > 0 && r.chance(1, 2) { ops.push(WOp::Pretty(r.chance(1, 2))) }
                }
            }
            if r.chance(1, 2) { ops.push(WOp::Settle(r.next() as u32)) }
            if r.chance(1, 3) { ops.push(WOp::Gen); ops.push(WOp::Settle(r.next() as u32)) }
        }
        ops.push(WOp::Settle(r.next() as u32));
        // The last link is opened.
        ops.push(WOp::Open(Open { link: Some(Link { of: 0, clip: false, bad: None }), restore: false, native: r.chance(1, 2), clipboard: true, path: "/".into(), search: String::new() }));
        ops.push(WOp::Settle(r.next() as u32));
        WebCase { ops }
    }
    fn eval(&mut self, ctx: &mut Self::Ctx, st: &mut Stats) -> Vec<Viol> {
        st.add("simulated runs", 1);
        let ops: Vec<Value> = self.ops.iter().map(|o| match o {
            WOp::Type(t) => json!({"Type": t.json()}),
            WOp::Config(c) => json!({"Config": {"text": c.text()}}),
            o => serde_json::to_value(o).unwrap(),
        }).collect();
        if ctx.as_ref().is_none_or(|c| c.1 >= 300) {
            let mut cmd = Command::new("node");
            cmd.args(["--single-threaded", "--stack-size=900", "--experimental-vm-modules", "--no-warnings"]).arg(format!("{}/wsim/driver.js", crate::verif_dir()));
            *ctx = Some((Worker::start(cmd), 0));
        }
        let c = ctx.as_mut().unwrap();
        c.1 += 1;
        let v = match c.0.ask(&json!({"ops": ops})) {
            Ok(v) => v,
            Err(e) => { *ctx = None; return vec![viol("W01", e)] }
        };
        for (k, n) in v["stats"].as_object().into_iter().flatten() {
            let n = n.as_u64().unwrap_or(0);
            let k = match k.as_str() { "overtaken" => "fault: task that ended before an older one".to_string(), k if k.starts_with("failed ") => format!("fault: {k}"), k => format!("tasks: {k}") };
            st.add(&k, n);
        }
        st.add("simulated clock ms", v["ms"].as_u64().unwrap_or(1000) - 1000);
        st.add("steps", self.ops.len() as u64);
        let mut trivial = v["stats"].as_object().is_none_or(|s| !s.keys().any(|k| k.starts_with("failed") || k == "overtaken"));
        for (n, o) in self.ops.iter().enumerate() {
            let waits = n > 0 && v["log"][n - 1]["s"]["waiting"].as_array().is_some_and(|w| !w.is_empty());
            match o {
                WOp::Open(o) => {
                    if n > 0 && waits { st.add("fault: page left while it waited", 1); trivial = false }
                    if o.restore && n > 0 { st.add("fault: fields restored by the browser", 1); trivial = false }
                    if o.link.as_ref().is_some_and(|l| l.bad.is_some()) { st.add("fault: broken link", 1); trivial = false }
                }
                WOp::Settle(_) | WOp::Task(..) => {}
                _ if waits => { st.add("fault: action while the page waited", 1); trivial = false }
                _ => {}
            }
        }
        let h = hash(|h| std::hash::Hasher::write(h, serde_json::to_string(&v["log"]).unwrap().as_bytes()));
        st.distinct.insert(h);
        if !trivial { st.nontrivial.insert(h); }
        judge(self, &v, st)
    }
    fn shrink(&self) -> Vec<WebCase> {
        let mut out = vec![];
        let n = self.ops.len();
        let mut size = n.div_ceil(2);
        while size > 0 {
            let mut i = 0;
            while i < n { let mut c = self.clone(); c.ops.drain(i..(i + size).min(n)); if matches!(c.ops.first(), Some(WOp::Open(_))) { out.push(c) } i += size }
            if size == 1 { break }
            size = size.div_ceil(2).min(size - 1);
        }
        let mut put = |i: usize, o: WOp| if o != self.ops[i] { let mut c = self.clone(); c.ops[i] = o; out.push(c) };
        for (i, o) in self.ops.iter().enumerate() {
            match o {
                WOp::Open(o) => {
                    put(i, WOp::Open(Open { link: None, ..o.clone() }));
                    put(i, WOp::Open(Open { restore: false, ..o.clone() }));
                    put(i, WOp::Open(Open { native: false, clipboard: true, path: "/".into(), search: String::new(), ..o.clone() }));
                    if let Some(l) = &o.link { put(i, WOp::Open(Open { link: Some(Link { bad: None, ..l.clone() }), ..o.clone() })) }
                }
                WOp::Type(t) => {
                    if let WText::Big(s, k) = t { for d in [8, 2] { put(i, WOp::Type(WText::Big(*s, k - k / d))) } } else if let WText::Plain(t) = t { for s in shorter(t) { put(i, WOp::Type(WText::Plain(s))) } } else { put(i, WOp::Type(WText::Plain(t.get()))) }
                }
                WOp::Config(c) => {
                    put(i, WOp::Config(WCfg { cfg: Cfg::default(), ..c.clone() }));
                    put(i, WOp::Config(WCfg { bad: 0, ..c.clone() }));
                    put(i, WOp::Config(WCfg { throw: None, spaced: false, ..c.clone() }));
                    for k in 0..c.cfg.macros.len() { let mut d = c.clone(); d.cfg.macros.remove(k); put(i, WOp::Config(d)) }
                }
                WOp::Task(k, true) => put(i, WOp::Task(*k, false)),
                WOp::Task(k, f) if *k > 2 => put(i, WOp::Task(k % 3, *f)),
                WOp::Settle(k) if *k != 0 => put(i, WOp::Settle(0)),
                _ => {}
            }
        }
        out
    }
}
