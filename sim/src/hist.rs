//! The library family: histories of calls on one converter, judged by the model of `model.rs` and
//! by comparison with other histories on other converters of the same configuration.
use crate::model::*;
use crate::run::{Case, Stats, Viol, viol};
use crate::sched;
use crate::util::*;
use math_core::{LatexToMathML, MathDisplay};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct LCfg {
    pub pretty: u8,
    pub annotation: bool,
    pub xmlns: bool,
    pub global_group: bool,
    pub ignore_unknown: bool,
    pub unreliable: bool,
    pub unicode_never: bool,
    pub limit: Option<u32>,
    pub id_prefix: String,
    pub macros: Vec<(String, u8, Vec<Tok>)>,
    /// 255: a tab
    #[serde(default, skip_serializing_if = "Option::is_none")] pub indent: Option<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub css: Option<String>,
}
impl LCfg {
    pub fn plain(&self) -> crate::gen_::Cfg {
        crate::gen_::Cfg {
            pretty: Some(self.pretty), annotation: Some(self.annotation), xmlns: Some(self.xmlns), global_group: Some(self.global_group),
            ignore_unknown: Some(self.ignore_unknown), unreliable: Some(self.unreliable), unicode_never: Some(self.unicode_never),
            max_exp: self.limit, id_prefix: Some(self.id_prefix.clone()),
            macros: self.macros.iter().map(|(n, _, b)| (n.clone(), render(b))).collect(),
            indent: self.indent, css_unknown: self.css.clone(),
        }
    }
    /// The same, for configurations that may be refused.
    pub fn try_build(&self) -> Result<Conv, Res> {
        LatexToMathML::new(self.plain().build()).map(Conv).map_err(|e| Res::Err(format!("configuration: macro {} {:?}: {:?} {}", e.1, e.2, e.0, e.0.error_message())))
    }
    pub fn build(&self) -> Conv {
        Conv(LatexToMathML::new(self.plain().build()).unwrap_or_else(|e| panic!("the configuration was rejected: {:?} {:?}", e.0, e.2)))
    }
    pub fn limit(&self) -> u64 { self.limit.unwrap_or(1000) as u64 }
    fn setup(&self) -> Setup { Setup::new(&self.macros, self.limit(), self.ignore_unknown, self.global_group) }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Snip {
    pub toks: Vec<Tok>,
    pub block: bool,
    /// The snippet ends here (bytes).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cut: Option<usize>,
    /// Instead of `toks`: text the model does not understand.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub raw: Option<String>,
    /// A raw snippet that cannot succeed.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub bomb: bool,
}
/// Ends within the second name of a `\let`, so that it might copy another command.
fn lets_prefix(t: &str) -> bool {
    let Some(i) = t.rfind("\\let\\") else { return false };
    let rest = &t[i + 5..];
    rest.bytes().all(|b| b.is_ascii_alphabetic() || b == b'=' || b == b'\\') && rest.bytes().filter(|b| *b == b'\\').count() == 1
}
impl Snip {
    pub fn text(&self) -> String {
        let mut t = match &self.raw { Some(r) => r.clone(), None => render(&self.toks) };
        if let Some(c) = self.cut {
            let mut c = c.min(t.len());
            while !t.is_char_boundary(c) || lets_prefix(&t[..c]) { c -= 1 }
            t.truncate(c)
        }
        t
    }
    pub fn display(&self) -> MathDisplay { if self.block { MathDisplay::Block } else { MathDisplay::Inline } }
    /// Does not touch the session, whether it fails or not (and uses no command that a history redefines).
    fn inert(&self) -> bool {
        self.raw.as_ref().is_some_and(|r| !["\\begin", "def", "\\let", "command", "\\global", "\\label", "\\tag", "\\alpha", "\\beta", "\\sqrt", "\\q"].iter().any(|k| r.contains(k)))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind { Session(Snip), Iso(Snip), Batch(Vec<Snip>), Reset }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    #[serde(default)] pub by: u8,
    #[serde(default)] pub conv: u8,
    /// The converter is dropped and a new one made before this call.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")] pub renew: bool,
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LibCase {
    pub prop: String,
    pub cfg: LCfg,
    /// The configurations of further converters.
    #[serde(default, skip_serializing_if = "Vec::is_empty")] pub more: Vec<LCfg>,
    pub ops: Vec<Op>,
    /// Definitions to make in several places.
    #[serde(default, skip_serializing_if = "Option::is_none")] pub place: Option<crate::place::Place>,
    #[serde(default)] pub seed: u64,
    #[serde(default, skip_serializing_if = "Option::is_none")] pub sched: Option<Vec<sched::Dec>>,
}

/// Everything a caller gets to see of one conversion.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Res { Ok { xml: String, undef: bool, unk: bool }, Err(String), Panic(String) }
impl Res {
    pub fn is_err(&self) -> bool { matches!(self, Res::Err(_)) }
    fn short(&self) -> String {
        let t = match self { Res::Ok { xml, .. } => xml.clone(), Res::Err(e) => format!("error {e}"), Res::Panic(e) => format!("panic {e}") };
        let mut k = t.len().min(300);
        while !t.is_char_boundary(k) { k -= 1 }
        t[..k].to_string()
    }
}
type R = Result<math_core::ConvertResult, Box<math_core::LatexError>>;
fn res(r: R) -> Res {
    match r {
        Ok(r) => Res::Ok { undef: r.warnings.has_undefined_references(), unk: r.warnings.has_unknown_commands(), xml: r.mathml },
        Err(e) => Res::Err(format!("{e:?} {}", e.error_message())),
    }
}
pub struct Conv(pub LatexToMathML);
fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}
impl Conv {
    pub fn shared(&self, k: &Kind) -> Vec<Res> {
        match k {
            Kind::Iso(s) => { let t = s.text(); vec![guard(|| res(self.0.convert_with_local_state(&t, s.display()))).unwrap_or_else(Res::Panic)] }
            Kind::Batch(v) => {
                let t: Vec<(String, MathDisplay)> = v.iter().map(|s| (s.text(), s.display())).collect();
                let t: Vec<(&str, MathDisplay)> = t.iter().map(|(s, d)| (s.as_str(), *d)).collect();
                guard(|| self.0.convert_all(&t).into_iter().map(res).collect()).unwrap_or_else(|e| vec![Res::Panic(e)])
            }
            _ => unreachable!(),
        }
    }
    pub fn call(&mut self, k: &Kind) -> Vec<Res> {
        match k {
            Kind::Session(s) => { let t = s.text(); vec![guard(|| res(self.0.convert_with_global_state(&t, s.display()))).unwrap_or_else(Res::Panic)] }
            Kind::Reset => { let _ = guard(|| self.0.reset_global_state()); vec![] }
            k => self.shared(k),
        }
    }
}

pub const CORPUS: &str = include_str!("corpus.txt");
pub fn warm(c: &mut Conv, t: &str) {
    for block in [false, true] {
        let s = Snip { toks: vec![], block, cut: None, raw: Some(t.into()), bomb: false };
        c.call(&Kind::Session(s.clone()));
        c.call(&Kind::Batch(vec![s]));
    }
}
fn plain(t: &str) -> Snip { Snip { toks: vec![], block: true, cut: None, raw: Some(t.into()), bomb: false } }
/// Puts so many plain items into a list that what is counted in it does not fit in a byte.
pub fn pad<T>(r: &mut Rng, list: &mut Vec<T>, mut plain: impl FnMut(&mut Rng) -> T) {
    let at = r.below(list.len() + 1);
    let more: Vec<T> = (0..r.range(200, 600)).map(|_| plain(r)).collect();
    list.splice(at..at, more);
}
fn corpus(r: &mut Rng) -> String { let v: Vec<&str> = CORPUS.lines().collect(); r.pick(&v).to_string() }

// ---------------------------------------------------------------- generation

/// Commands whose meaning depends on the configuration.
const SENSITIVE: [&str; 12] = ["\\coloneq", "\\Coloneqq", "\\cdots", "\\dblcolon", "\\eqcolon", "\\dashcolon", "\\coloneqq", "\\widetilde", "\\widecheck", "\\utilde", "\\unknowncommand", "\\undefinedone"];
fn sensitive(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..r.range(1, 4) {
        let c = r.pick(&SENSITIVE);
        t.push_str(&match r.below(9) {
            0 => format!("\\newcommand\\{}{{{c} a}}", r.pick(&ZERO)),
            1 => format!("\\gdef\\{}{{{c} b}}", r.pick(&ZERO)),
            2 => format!("\\let\\{}={c} ", r.pick(&ZERO)),
            3 => format!("\\global\\let\\{}={c} ", r.pick(&ZERO)),
            4 => format!("\\{} ", r.pick(&["cfS", "cfU", "cfT", "cfE", "qa", "qb", "qc"])),
            5 => format!("\\begin{{matrix}}{c} x&y\\\\z\\end{{matrix}}"),
            6 => format!("\\frac{{{c} x}}{{\\sqrt{{y}}}}"),
            7 => format!("\\begin{{align}}x&{c} y\\\\\\label{{a}}z&w\\end{{align}}\\eqref{{a}}"),
            _ => format!("{c}{{x}}"),
        });
    }
    t
}
const ZERO: [&str; 5] = ["qa", "qb", "qc", "alpha", "beta"];
/// Names that are easily taken for one another.
const ALIKE: [&str; 6] = ["qa", "qA", "qaa", "qcommandwithalongname", "qcommandwithalongnamf", "qcommandwithalongnameandmore"];
const ALIKE_LABELS: [&str; 10] = ["a+b/(c)", "x<y>*;", "a", "A", "aa", "a a", "equation:a-label-with-a-long-name-1", "equation:a-label-with-a-long-name-2", "equation:a-label-with-a-long-name-1b", "1"];
const ONE: [&str; 3] = ["qm", "qn", "sqrt"];
const TWO: [&str; 1] = ["qw"];
const TEXT: [&str; 1] = ["qt"];
const LABELS: [&str; 6] = ["a", "b", "eq:x", "s y", "A.b", "eq:y"];
const RAW: [&str; 12] = ["x", "+", "y ", "x_{i}", "\\text{if }", "\\quad ", "=", "z^{k}", "\\mathbb{R}", "(", "\\dots ", "f'"];
const BAD_IN: [&str; 8] = ["x^y^z", "$", "\\let\\qa\\qdd ", "\\def\\qz#2{x}", "\\begin{foo}x\\end{foo}", "\\def\\qz{\\def\\qy{x}}", "\\newcommand{\\qz}[2]{#3}", "\\color{nocolor}"];
const BAD_TOP: [&str; 8] = ["}", "\\right)", "\\end{align}", "{", "\\left(", "\\frac{x}", "\\overline", "\\begin{matrix}x"];
const UNNUM: [&str; 6] = ["matrix", "pmatrix", "aligned", "gathered", "cases", "Vmatrix"];
const COLUMNS: [&str; 7] = ["matrix", "pmatrix", "aligned", "cases", "Vmatrix", "align", "align*"];
const REST: [&str; 4] = ["\\displaystyle ", "\\color{red}", "\\textstyle ", "\\scriptstyle "];
const INFIX: [&str; 3] = ["\\over ", "\\choose ", "\\atop "];
const SEPS: [&str; 5] = [" & ", "&", " &^u ", "&_{v}", "&'"];
const NUM: [&str; 7] = ["align", "equation", "gather", "multline", "align*", "equation*", "gather*"];

/// What one case is made of. Cases with few names and few kinds of definitions reach long chains
/// of the same thing, which cases that draw from everything hardly ever do.
struct Swarm { zero: Vec<&'static str>, one: Vec<&'static str>, labels: Vec<&'static str>, hows: Vec<How>, lets: usize, num: Vec<&'static str>, cmds: usize, plain: bool, simple: bool, len: usize, ones: usize }
impl Swarm {
    fn all() -> Swarm {
        Swarm { zero: ZERO.to_vec(), one: ONE.to_vec(), labels: LABELS.to_vec(), lets: 20, num: NUM.to_vec(), cmds: 6, plain: false, simple: false, len: 4, ones: 2,
            hows: vec![How::New, How::Renew, How::Provide, How::Def, How::Def, How::Gdef, How::Gdef, How::GlobalDef] }
    }
    fn random(r: &mut Rng) -> Swarm {
        let mut s = Swarm::all();
        if r.chance(1, 4) { s.zero = ALIKE.to_vec(); }
        if r.chance(1, 4) { s.labels = ALIKE_LABELS.to_vec(); }
        if r.chance(1, 3) { return s }
        fn some<T: Clone>(r: &mut Rng, v: &mut Vec<T>, least: usize) { let k = r.range(least.min(v.len()), v.len()); while v.len() > k { let i = r.below(v.len()); v.remove(i); } }
        some(r, &mut s.zero, 2);
        some(r, &mut s.one, 1);
        some(r, &mut s.labels, 1);
        some(r, &mut s.hows, 1);
        some(r, &mut s.num, 1);
        s.lets = *r.pick(&[0, 5, 20, 50, 80]);
        s.cmds = *r.pick(&[2, 6, 12]);
        s.plain = r.chance(1, 2);
        s.simple = r.chance(1, 3);
        s.len = *r.pick(&[4, 4, 8, 12]);
        s.ones = *r.pick(&[0, 2, 8]);
        // hardly anything but definitions, copies and uses of two or three commands
        if r.chance(1, 3) {
            s.plain = true;
            s.simple = true;
            s.lets = *r.pick(&[20, 40]);
            s.len = *r.pick(&[8, 12]);
            s.ones = *r.pick(&[0, 2, 20]);
            s.zero.truncate(3);
        }
        s
    }
}
/// Roughly the commands that exist at some point. Most snippets keep to them: a snippet that fails
/// at its first command says nothing about the rest of it.
#[derive(Clone)]
struct Known { doc: BTreeSet<String>, local: BTreeSet<String>, loose: bool }
impl Known {
    fn new(cfg: &LCfg, loose: bool) -> Known {
        let mut doc: BTreeSet<String> = cfg.macros.iter().map(|m| m.0.clone()).collect();
        for n in ["alpha", "beta", "sqrt"] { doc.insert(n.into()); }
        Known { doc, local: BTreeSet::new(), loose }
    }
    fn has(&self, n: &str) -> bool { self.doc.contains(n) || self.local.contains(n) }
    fn define(&mut self, n: &str, global: bool) { if global { self.doc.insert(n.into()); } else { self.local.insert(n.into()); } }
}
struct G<'a> { r: &'a mut Rng, n: u16, defs: usize, big: bool, s: &'a Swarm, k: &'a mut Known }
#[derive(Clone, Copy)]
struct At { depth: usize, params: u8, numbered: bool, in_body: bool, in_def: bool }
impl G<'_> {
    fn num(&mut self) -> Tok { self.n += 1; Tok::Num(self.n) }
    fn label(&mut self) -> Str { Str::Lit(self.r.pick(&self.s.labels).to_string()) }
    fn tagtext(&mut self) -> Str { Str::Lit(self.r.pick(&["T", "A", "x-y", "7", "S 1", "", "a<b>"]).to_string()) }
    fn seq(&mut self, at: At, max: usize) -> Vec<Tok> {
        let n = self.r.range(if at.in_body { 1 } else { 0 }, max);
        let mut v = vec![];
        for i in 0..n { let t = self.tok(at, at.in_body && i == 0); v.push(t) }
        v
    }
    fn arg(&mut self, at: At) -> Vec<Tok> { let a = At { depth: at.depth + 1, in_body: false, ..at };
        let mut v = self.seq(a, 2);
        // not the end of a row, because it is in a group
        if self.r.chance(1, 30) { let k = self.r.below(v.len() + 1); v.insert(k, Tok::Raw("\\\\ ".into())) }
        v
    }
    /// One of `names`, most often an existing one (`None`: there is none).
    fn name(&mut self, names: &[&'static str], in_def: bool) -> Option<&'static str> {
        if self.k.loose || self.r.chance(1, if in_def { 5 } else { 40 }) { return Some(self.r.pick(names)) }
        let v: Vec<&'static str> = names.iter().copied().filter(|n| self.k.has(n)).collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v)) }
    }
    fn command(&mut self, at: At) -> Tok {
        let s = self.s;
        macro_rules! name { ($v:expr) => { match self.name($v, at.in_def) { Some(n) => n, None => return self.num() } } }
        match self.r.below(10 + self.s.ones) {
            0..=5 => { let n = name!(&s.zero); use_(n, vec![]) }
            k if k == 6 || k >= 10 => { let n = name!(&s.one); let a = self.arg(at); use_(n, vec![a]) }
            7 => { let n = name!(&TWO); let a = self.arg(at); let b = self.arg(at); use_(n, vec![a, b]) }
            8 if !at.in_body => { let n = name!(&TEXT); let t = if self.r.chance(4, 5) { self.r.pick(&["a", "b", "eq:x", "A.b"]).to_string() } else { "T".into() }; use_(n, vec![vec![Tok::Text(t)]]) }
            _ => { let n = name!(&s.zero); use_(n, vec![]) }
        }
    }
    fn body(&mut self, nargs: u8) -> Vec<Tok> {
        if self.r.chance(1, 12) { return vec![] }
        if self.s.simple {
            let n = self.num();
            return match nargs { 0 => vec![n], k => vec![n, Tok::Arg(self.r.range(1, k as usize) as u8)] };
        }
        let at = At { depth: 1, params: nargs, numbered: false, in_body: true, in_def: true };
        self.seq(at, 3)
    }
    fn text_body(&mut self) -> Vec<Tok> {
        let n = self.num();
        match self.r.below(5) {
            0 => vec![n, Tok::Label(Str::Arg(1))],
            1 => vec![n, Tok::Tag(Str::Arg(1), false), Tok::Label(Str::Lit("a".into()))],
            2 => vec![n, Tok::Group(vec![Tok::Raw("x".into()), Tok::Label(Str::Arg(1))])],
            _ => vec![n, Tok::Ref(Str::Arg(1))],
        }
    }
    fn def(&mut self) -> Tok {
        self.defs += 1;
        let s = self.s;
        if self.r.chance(s.lets, 100) {
            let (names, srcs): (&[&'static str], &[&'static str]) = match self.r.below(6 + s.ones) { k if k == 0 || k > 6 => (&["qm", "qn"], &s.one), _ => (&s.zero, &s.zero) };
            if let Some(src) = self.name(srcs, false) {
                let (name, global) = (*self.r.pick(names), self.r.chance(1, 2));
                self.k.define(name, global);
                return Tok::Let { global, eq: self.r.chance(1, 2), name: name.into(), src: src.into() };
            }
        }
        let mut how = *self.r.pick(&s.hows);
        let (name, nargs) = match self.r.below(8 + s.ones) { 0..=5 => (*self.r.pick(&s.zero), 0), 6 => (TWO[0], 2), 7 => (TEXT[0], 1), _ => (*self.r.pick(&s.one), 1) };
        if !self.k.loose && !self.r.chance(1, 30) {
            if how == How::New && self.k.has(name) { how = How::Renew } else if how == How::Renew && !self.k.has(name) { how = How::New }
        }
        let body = if name == TEXT[0] { self.text_body() } else { self.body(nargs) };
        self.k.define(name, matches!(how, How::Gdef | How::GlobalDef));
        Tok::Def { how, name: name.into(), nargs, body }
    }
    fn env(&mut self, at: At) -> Tok {
        let numbered = self.r.chance(3, 4);
        let kind = if numbered { *self.r.pick(&self.s.num) } else { *self.r.pick(&UNNUM) };
        let rows = if self.r.chance(1, 3) { 1 } else { self.r.range(1, if self.big { 6 } else { 3 }) };
        let inner = At { depth: at.depth + 1, numbered, in_body: false, ..at };
        let mut v = vec![];
        for _ in 0..rows {
            let mut row = self.seq(inner, 2);
            if numbered {
                if self.r.chance(2, 5) { let l = Tok::Label(self.label()); let k = self.r.below(row.len() + 1); row.insert(k, l) }
                if self.r.chance(1, 6) { let s = self.r.chance(1, 3); let l = Tok::Tag(self.tagtext(), s); let k = self.r.below(row.len() + 1); row.insert(k, l) }
                if self.r.chance(1, 6) { let k = self.r.below(row.len() + 1); let l = self.r.chance(1, 3); row.insert(k, Tok::NoTag(l)) }
                if self.r.chance(1, 60) { let l = Tok::Label(self.label()); row.push(l) }
            }
            // what holds for the rest of a cell
            let put = |r: &mut Rng, row: &mut Vec<Tok>, from: &[&str]| { let k = r.below(row.len() + 1); let t = *r.pick(from); row.insert(k, Tok::Raw(t.into())) };
            if self.r.chance(1, 6) { for _ in 0..self.r.range(1, 3) { put(self.r, &mut row, &REST) } }
            if !kind.starts_with("equation") && self.r.chance(1, 10) { put(self.r, &mut row, &INFIX) }
            if COLUMNS.contains(&kind) && self.r.chance(1, 3) { for _ in 0..self.r.range(1, 4) { put(self.r, &mut row, &SEPS) } }
            v.push(row);
        }
        Tok::Env(kind.into(), v)
    }
    /// Many labels or definitions.
    fn list(&mut self) -> Tok {
        let n = match self.r.below(20) { 0..=6 => self.r.range(2, 20), 7..=15 => self.r.range(50, 140), 16..=18 => self.r.range(250, 300), _ => self.r.range(300, 1100) };
        let at = self.r.below(3) * 50;
        if self.r.chance(1, 2) { Tok::Defs(self.r.chance(3, 4), n as u32, at as u32) } else { Tok::Labels(self.r.pick(&["align", "gather"]).to_string(), n as u32, at as u32) }
    }
    /// A long environment.
    fn many(&mut self) -> Tok {
        if self.r.chance(1, 40) { return self.list() }
        let kind = *self.r.pick(&["align", "align", "gather", "multline", "align*"]);
        let n = match self.r.below(40) { 0..=19 => self.r.range(2, 120), 20..=29 => self.r.range(250, 260), 30..=38 => self.r.range(900, 1100), _ => self.r.range(2000, 3000) };
        let n = if kind == "align" && self.r.chance(1, 60) { 65_530 + self.r.below(10) } else { n };
        Tok::Many(kind.into(), n as u32)
    }
    fn tok(&mut self, at: At, first: bool) -> Tok {
        if self.s.plain && at.depth == 0 && self.r.chance(1, 2) { return if self.r.chance(1, 2) { self.command(At { depth: 1, ..at }) } else { self.def() } }
        if at.depth > 3 { return if at.params > 0 && self.r.chance(1, 2) { Tok::Arg(self.r.range(1, at.params as usize) as u8) } else { self.num() } }
        match self.r.below(30) {
            0..=4 => self.num(),
            5 | 6 => Tok::Raw(self.r.pick(&RAW).to_string()),
            k if k >= 7 && k < 7 + self.s.cmds => self.command(At { depth: at.depth + 1, ..at }),
            13..=15 if at.params > 0 => Tok::Arg(self.r.range(1, at.params as usize) as u8),
            13 | 14 if !at.in_def || self.r.chance(1, 30) => self.def(),
            16 | 17 => { let l = self.label(); Tok::Ref(l) }
            18 | 19 if !first || !at.in_body => { let a = At { depth: at.depth + 1, ..at }; if at.depth < 3 && !at.in_body { self.env(a) } else { self.num() } }
            20 => { let a = self.arg(at); Tok::Group(a) }
            21 => { let a = self.arg(at); let b = self.arg(at); Tok::Frac(a, b) }
            22 => { let a = self.arg(at); if self.r.chance(1, 3) { Tok::Fence(a) } else { Tok::Wrap(self.r.below(WRAPS.len()) as u8, a) } }
            23 if at.numbered && !first && !at.in_body => Tok::NoTag(false),
            24 if !at.in_body && self.r.chance(1, 8) => use_("qzz", vec![]),
            _ => self.num(),
        }
    }
}

#[derive(Clone, Copy)]
struct Profile { fail: usize, torn: usize, reset: usize, iso: usize, batch: usize, raw: usize, limit: usize, ops: usize, defs: usize, envs: usize, probes: bool }
fn profile(prop: &str, r: &mut Rng, thorough: bool) -> Profile {
    let d = Profile { fail: 4, torn: 2, reset: 3, iso: 4, batch: 4, raw: 0, limit: 8, ops: 10, defs: 20, envs: 20, probes: true };
    let mut p = match prop {
        "L01" => Profile { envs: 60, defs: 5, ..d },
        "L02" => Profile { envs: 50, defs: 5, batch: 12, ..d },
        "L03" => Profile { defs: 55, envs: 5, ..d },
        "L04" => Profile { iso: 30, batch: 20, raw: 25, fail: 8, ..d },
        "L05" => Profile { reset: 25, raw: 20, fail: 10, torn: 6, ..d },
        "L06" => Profile { batch: 60, raw: 20, fail: 10, torn: 4, ..d },
        "L07" => Profile { iso: 25, batch: 20, raw: 20, reset: 4, probes: false, ops: 8, ..d },
        "L10" => Profile { iso: 15, batch: 10, raw: 25, reset: 6, ops: 14, probes: false, ..d },
        "L08" => Profile { fail: 25, torn: 15, raw: 15, envs: 30, defs: 30, ..d },
        "L09" => Profile { limit: 80, defs: 40, raw: 10, ..d },
        _ => d,
    };
    if r.chance(1, 4) { p.fail = 0; p.torn = 0 }
    if thorough && r.chance(1, 4) { p.ops *= 4 }
    p
}

fn depth_ok(v: &[Tok]) -> bool { !v.is_empty() }
fn place(r: &mut Rng, v: &mut Vec<Tok>, t: Tok, deep: bool) {
    // anywhere at the top level, or inside one of its groups, rows or arguments
    if deep && r.chance(1, 2) {
        let cands: Vec<usize> = v.iter().enumerate().filter(|(_, t)| matches!(t, Tok::Group(_) | Tok::Fence(_) | Tok::Wrap(..) | Tok::Env(..) | Tok::Frac(..) | Tok::Use { .. })).map(|x| x.0).collect();
        if depth_ok(v) && !cands.is_empty() {
            let i = *r.pick(&cands);
            match &mut v[i] {
                Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) | Tok::Frac(a, _) => return place(r, a, t, deep),
                Tok::Env(_, rows) => { let k = r.below(rows.len()); return place(r, &mut rows[k], t, deep) }
                Tok::Use { args, name, .. } if !args.is_empty() && name != "qt" => { let k = r.below(args.len()); return place(r, &mut args[k], t, deep) }
                _ => {}
            }
        }
    }
    let k = r.below(v.len() + 1);
    v.insert(k, t);
}

/// Text that asks for more than is allowed: runaway recursion, arguments that grow with every
/// expansion, definitions made by the million.
fn bomb(r: &mut Rng) -> String {
    let pre = r.pick(&["\\def", "\\gdef", "\\def", "\\global\\def"]).to_string();
    let d = if r.chance(1, 8) { r.range(100, 2000) } else { r.range(1, 60) };
    match r.below(14) {
        0 => format!("{pre}\\qx#1{{\\qx{{#1{}}}}}\\qx{{x}}", "#1".repeat(r.range(1, 3))),
        1 => format!("{pre}\\qx{{{}\\qx{}}}\\qx", "{".repeat(d), "}".repeat(d)),
        2 => format!("{pre}\\qx{{\\qx\\qx}}\\qx"),
        3 => format!("{pre}\\qx#1{{\\qy{{#1y}}{{#1}}}}{pre}\\qy#1#2{{\\qx{{#2#1#2}}}}\\qx{{z}}"),
        4 => format!("{pre}\\qx{{\\overline{{{}\\qx}}}}\\qx", "x".repeat(d)),
        5 => format!("{pre}\\qx{{\\frac{{1}}{{\\qy}}}}{pre}\\qy{{{}\\left(\\qx\\right)}}\\qx", "{}".repeat(d)),
        6 => { let mut s = format!("{pre}\\qxa{{xx}}"); for i in 1..20u8 { s.push_str(&format!("{pre}\\qx{}{{\\qx{}\\qx{}}}", (b'a' + i) as char, (b'a' + i - 1) as char, (b'a' + i - 1) as char)) } s.push_str("\\qxt"); s }
        7 => format!("{pre}\\qx#1{{x#1\\qx{{#1}}}}\\qx{{{}}}", "y".repeat(d * 20)),
        8 | 9 => {
            // an argument full of definitions, doubled and carried out with every expansion
            let k = r.range(1, 4);
            let def = r.pick(&["\\def\\qy{x}", "\\gdef\\qy{x}", "\\let\\qy=x", "\\global\\let\\qy\\qz ", "\\renewcommand{\\qz}{xx}", "\\providecommand{\\qz}{xx}", "\\gdef\\qy#1{#1}", "\\,", "\\label{q}", "~"]);
            let (a, b) = *r.pick(&[("{#1}", "{#1}{#1}"), ("#1", "#1#1"), ("", "#1#1"), ("#1x", "x#1#1")]);
            format!("{pre}\\qz{{y}}{pre}\\qx#1{{{a}\\qx{{{b}}}}}\\qx{{{}}}", def.repeat(k))
        }
        10 => {
            // copies of copies
            let name = |mut i: usize| { let mut s = String::from("\\qz"); for _ in 0..3 { s.push((b'a' + (i % 26) as u8) as char); i /= 26 } s };
            let mut s = format!("\\def{}{{x}}", name(0));
            for i in 1..=d { s.push_str(&format!("\\let{}{} ", name(i), name(i - 1))) }
            let last = format!("\\global\\let\\qy{} ", name(d));
            if r.chance(1, 2) { s.push_str(&last.repeat(d)) }
            s.push_str(&format!("{pre}\\qx#1{{#1\\qx{{#1#1}}}}\\qx{{{last}}}"));
            s
        }
        11 => format!("{pre}\\qx{{{}\\qx}}\\qx", r.pick(&["\\,", "~", " ", "\\let\\qy=x", "{}", "\\relax"]).repeat(d * 5)),
        12 => { let run = r.pick(&["\\,", "~", "\\quad", "x\\;", "\\let\\qy\\,", "{}", "'", "\\relax "]).repeat(d * 50); format!("{run}{pre}\\qx{{{run}\\qx}}\\qx") }
        _ => format!("{pre}\\qx#1{{\\begin{{matrix}}#1\\qx{{#1{}}}\\end{{matrix}}}}\\qx{{x}}", "y".repeat(d)),
    }
}

impl LibCase {
    fn snip(r: &mut Rng, p: &Profile, sw: &Swarm, k: &mut Known, prop: &str, n: &mut u16) -> Snip {
        let block = r.chance(1, 2);
        if r.chance(p.raw, 100) {
            if prop == "L09" { return Snip { toks: vec![], block, cut: None, raw: Some(bomb(r)), bomb: true } }
            let mut t = if prop == "L10" && r.chance(1, 2) { sensitive(r) } else { corpus(r) };
            for _ in 0..r.below(2) { t.push(' '); t.push_str(&corpus(r)) }
            let cut = if r.chance(p.torn, 60) { Some(r.below(t.len() + 1)) } else { None };
            return Snip { toks: vec![], block, cut, raw: Some(t), bomb: false };
        }
        let big = r.chance(1, 10);
        let mut g = G { r, n: *n, defs: 0, big, s: sw, k };
        let at = At { depth: 0, params: 0, numbered: false, in_body: false, in_def: false };
        let len = g.r.range(1, if big { 8.max(sw.len) } else { sw.len });
        let mut v = vec![];
        for _ in 0..len {
            let t = if g.r.chance(1, 2500) { g.list() } else if g.r.chance(p.defs, 100) { g.def() } else if g.r.chance(p.envs, 100) { if g.r.chance(1, 60) { g.many() } else { g.env(at) } } else { g.tok(at, false) };
            v.push(t);
        }
        if g.r.chance(p.defs, 200) {
            // use what was just defined
            let t = g.command(At { depth: 1, ..at });
            v.push(t);
        }
        *n = g.n;
        if r.chance(p.fail, 100) {
            let bad = if r.chance(1, 2) { Tok::Bad(r.pick(&BAD_TOP).to_string()) } else { Tok::Bad(r.pick(&BAD_IN).to_string()) };
            let deep = matches!(&bad, Tok::Bad(b) if BAD_IN.contains(&b.as_str()));
            place(r, &mut v, bad, deep);
        }
        let cut = if r.chance(p.torn, 100) { let t = render(&v).len(); Some(r.below(t + 1)) } else { None };
        Snip { toks: v, block, cut, raw: None, bomb: false }
    }
    fn config(r: &mut Rng, p: &Profile, prop: &str, n: u16) -> LCfg {
        let full = Swarm::all();
        let mut macros = vec![];
        let mut cfg = LCfg::default();
        {
            let mut g = G { r, n, defs: 0, big: false, s: &full, k: &mut Known::new(&LCfg::default(), true) };
            if g.r.chance(2, 3) { let b = vec![g.num()]; macros.push(("cfA".to_string(), 0, b)) }
            if g.r.chance(1, 2) { let a = g.num(); macros.push(("cfm".into(), 1, vec![a, Tok::Arg(1), use_("alpha", vec![])])) }
            if g.r.chance(1, 3) { let a = g.num(); macros.push(("qa".into(), 0, vec![a])) }
            if g.r.chance(1, 4) { let a = g.num(); macros.push(("qw".into(), 2, vec![Tok::Arg(2), a, Tok::Arg(1)])) }
            if g.r.chance(1, 6) { let a = g.num(); macros.push(("beta".into(), 0, vec![a, use_("alpha", vec![])])) }
            if g.r.chance(1, 6) && macros.iter().any(|m| m.0 == "cfA") { macros.push(("qb".into(), 0, vec![use_("cfA", vec![]), Tok::Group(vec![use_("cfA", vec![])])])) }
            if prop == "L09" && g.r.chance(1, 6) { macros.push(("qc".into(), 0, vec![use_("qc", vec![])])) }
            // order must not matter
            if g.r.chance(1, 2) { macros.reverse() }
        }
        cfg.macros = macros;
        cfg.pretty = *r.pick(&[0, 0, 0, 1, 2]);
        cfg.annotation = r.chance(1, 8);
        cfg.xmlns = r.chance(1, 8);
        cfg.global_group = r.chance(1, 3);
        cfg.ignore_unknown = r.chance(1, 6);
        cfg.unreliable = r.chance(1, 8);
        cfg.unicode_never = r.chance(1, 8);
        cfg.id_prefix = r.pick(&["", "", "p-", "x:"]).to_string();
        if r.chance(p.limit, 100) { cfg.limit = Some(*r.pick(&[0, 1, 2, 3, 4, 5, 7, 10, 30, 200])) }
        if prop == "L10" {
            cfg.pretty = *r.pick(&[0, 1, 1, 2]);
            cfg.unreliable = r.chance(2, 3);
            cfg.unicode_never = r.chance(1, 3);
            cfg.ignore_unknown = r.chance(1, 2);
            if !cfg.macros.iter().any(|m| m.0 == "cfA") { cfg.macros.retain(|m| m.0 != "qb") }
            cfg.indent = *r.pick(&[None, Some(0), Some(1), Some(2), Some(8), Some(255)]);
            cfg.css = r.pick(&[None, None, Some("u"), Some("unknown cmd")]).map(str::to_string);
            // words that mean something else under another configuration
            for (name, body) in [("cfS", SENSITIVE[r.below(SENSITIVE.len() - if cfg.unreliable { 2 } else { 5 })]), ("cfU", "\\unknowncommand"), ("cfT", "\\label{cf}x"), ("cfE", "\\begin{equation}y\\end{equation}")] {
                let often = if name == "cfS" { 2 } else if name == "cfU" { 60 } else { 8 };
                if r.chance(1, often) { cfg.macros.push((name.into(), 0, vec![Tok::Raw(body.into())])) }
            }
            // a configuration that is refused, for one of several reasons
            if r.chance(1, 15) { for k in 0..r.range(1, 4) {
                let body = format!("\\undefined{}", (b'a' + k as u8) as char);
                let at = r.below(cfg.macros.len() + 1);
                cfg.macros.insert(at, (format!("bad{}", (b'a' + k as u8) as char), 0, vec![Tok::Raw(body)]));
            } }
        }
        cfg
    }
    fn probes() -> Vec<Kind> {
        let s = |toks: Vec<Tok>| Kind::Session(Snip { toks, block: false, cut: None, raw: None, bomb: false });
        let mut v = vec![s(vec![Tok::Env("equation".into(), vec![vec![Tok::Raw("x".into())]])])];
        v.push(s(LABELS.iter().chain(&ALIKE_LABELS).map(|l| Tok::Ref(Str::Lit(l.to_string()))).collect()));
        for n in ZERO.into_iter().chain(ALIKE.into_iter().skip(1)) { v.push(s(vec![use_(n, vec![])])) }
        for n in ONE { v.push(s(vec![use_(n, vec![vec![Tok::Num(9001)]])])) }
        v.push(s(vec![use_("qw", vec![vec![Tok::Num(9002)], vec![Tok::Num(9003)]])]));
        v.push(s(vec![use_("cfA", vec![]), use_("cfm", vec![vec![Tok::Num(9004)]])]));
        v
    }
    /// The first case of these properties shows their known finding.
    fn known_finding(prop: &str) -> Option<LibCase> {
        let toks = match prop {
            "L01" => vec![Tok::Env("align".into(), vec![vec![Tok::Raw("a".into()), Tok::Tag(Str::Lit("A".into()), false), Tok::NoTag(false)], vec![Tok::Raw("b".into())]])],
            "L03" => vec![
                Tok::Def { how: How::Def, name: "qa".into(), nargs: 0, body: vec![Tok::Num(1)] },
                Tok::Def { how: How::Def, name: "qm".into(), nargs: 1, body: vec![Tok::Arg(1), use_("qa", vec![])] },
                use_("qm", vec![vec![Tok::Def { how: How::Def, name: "qa".into(), nargs: 0, body: vec![Tok::Num(7)] }]]),
            ],
            _ => return None,
        };
        let kind = Kind::Session(Snip { toks, block: true, cut: None, raw: None, bomb: false });
        Some(LibCase { prop: prop.into(), cfg: LCfg::default(), more: vec![], ops: vec![Op { by: 0, conv: 0, renew: false, kind }], place: None, seed: 0, sched: None })
    }
    fn ctx_free_judge(&mut self, st: &mut Stats) -> Vec<Viol> {
        match self.prop.as_str() {
            "L04" => self.l04(st),
            "L05" => self.l05(st),
            "L06" => self.l06(st),
            "L07" => sched::l07(self, st),
            "L10" => crate::alone::l10(self, st),
            "L08" => { let mut v = self.l08(st); v.extend(self.model(st)); v }
            _ => { let mut v = self.model(st); if let Some(p) = &self.place { v.extend(crate::place::judge(self, p, st)) } v }
        }
    }

    fn count_ops(&self, st: &mut Stats) {
        st.add("simulated runs", 1);
        for o in &self.ops {
            match &o.kind {
                Kind::Session(_) => st.add("session calls", 1),
                Kind::Iso(_) => st.add("isolated calls", 1),
                Kind::Batch(v) => { st.add("batch calls", 1); st.add("batch snippets", v.len() as u64) }
                Kind::Reset => st.add("fault: reset between calls", 1),
            }
            for s in snips(&o.kind) {
                if s.cut.is_some() { st.add("fault: torn snippet", 1) }
                if s.bomb { st.add("fault: runaway definitions", 1) }
                if s.toks.iter().any(|t| has_bad(t)) { st.add("fault: malformed token in a snippet", 1) }
            }
        }
    }
    pub fn record(&self, st: &mut Stats, rs: &[Vec<Res>]) {
        let h = hash(|h| std::hash::Hash::hash(rs, h));
        st.distinct.insert(h);
        if rs.iter().flatten().any(|r| r.is_err()) || self.ops.iter().any(|o| o.kind == Kind::Reset) || self.sched.as_ref().is_some_and(|s| !s.is_empty()) { st.nontrivial.insert(h); }
        for r in rs.iter().flatten() { if let Res::Err(e) = r {
            st.add("failed conversions", 1);
            if e.contains("TooManyExpansions") { st.add("fault: expansion allowance exhausted", 1) }
            if e.contains("HardLimit") { st.add("fault: hard limit reached", 1) }
        } }
    }
    fn history(&self, keep: impl Fn(usize, &Op) -> bool) -> Vec<Vec<Res>> {
        let mut c = self.cfg.build();
        self.ops.iter().enumerate().map(|(i, o)| if keep(i, o) { c.call(&o.kind) } else { vec![] }).collect()
    }
    fn panics(&self, rs: &[Vec<Res>]) -> Vec<Viol> {
        for (i, r) in rs.iter().enumerate() { for x in r { if let Res::Panic(m) = x { return vec![viol(prop_static(&self.prop), format!("call {i} panicked: {m}"))] } } }
        vec![]
    }

    fn l04(&self, st: &mut Stats) -> Vec<Viol> {
        let main = self.history(|_, _| true);
        self.record(st, &main);
        let mut v = self.panics(&main);
        for (i, o) in self.ops.iter().enumerate() {
            if matches!(o.kind, Kind::Iso(_) | Kind::Batch(_)) {
                let fresh = self.cfg.build().shared(&o.kind);
                st.add("comparisons with a fresh converter", 1);
                if let Some(d) = diff(&main[i], &fresh) { v.push(viol("L04", format!("call {i} differs from the same call on a fresh converter: {d}"))); break }
            }
        }
        let without = self.history(|_, o| matches!(o.kind, Kind::Session(_) | Kind::Reset));
        for (i, o) in self.ops.iter().enumerate() {
            if matches!(o.kind, Kind::Session(_)) {
                st.add("comparisons with a history without shared calls", 1);
                if let Some(d) = diff(&main[i], &without[i]) { v.push(viol("L04", format!("session call {i} differs from the same history without isolated and batch calls: {d}"))); break }
            }
        }
        v
    }
    fn l05(&self, st: &mut Stats) -> Vec<Viol> {
        let main = self.history(|_, _| true);
        self.record(st, &main);
        let mut v = self.panics(&main);
        let mut fresh: Option<Conv> = None;
        for (i, o) in self.ops.iter().enumerate() {
            if o.kind == Kind::Reset { fresh = Some(self.cfg.build()); continue }
            let Some(c) = &mut fresh else { continue };
            let r = c.call(&o.kind);
            st.add("comparisons after a reset", 1);
            if let Some(d) = diff(&main[i], &r) { v.push(viol("L05", format!("call {i} after a reset differs from a new converter: {d}"))); break }
        }
        v
    }
    fn l06(&mut self, st: &mut Stats) -> Vec<Viol> {
        let mut c = self.cfg.build();
        let mut v = vec![];
        let mut all = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            let r = c.call(&o.kind);
            if let Kind::Batch(list) = &o.kind {
                if r.len() != list.len() { v.push(viol("L06", format!("batch {i} of {} snippets gave {} results ({})", list.len(), r.len(), r.first().map_or(String::new(), |x| x.short())))); break }
                if let Some(d) = diff(&r, &c.call(&o.kind)) { v.push(viol("L06", format!("repeating batch {i} gave something else: {d}"))); break }
                let mut s = self.cfg.build();
                for (k, sn) in list.iter().enumerate() {
                    let one = s.call(&Kind::Session(sn.clone())).remove(0);
                    st.add("comparisons of a batch with a session", 1);
                    let (a, b) = (mask(&r[k]), mask(&one));
                    if a != b { v.push(viol("L06", format!("snippet {k} of batch {i} gives {} and in a session {}", r[k].short(), one.short()))); break }
                    if let Res::Ok { xml, undef, .. } = &r[k] && xml.contains(">(??)</a>") != *undef { v.push(viol("L06", format!("snippet {k} of batch {i}: the warning about references does not match the output"))); break }
                }
            }
            all.push(r);
        }
        self.record(st, &all);
        v.extend(self.panics(&all));
        if v.is_empty() && self.ops.iter().any(|o| matches!(o.kind, Kind::Batch(_))) {
            // what references show is judged by the model
            let c = LibCase { ops: self.ops.iter().filter(|o| matches!(o.kind, Kind::Batch(_)) && snips(&o.kind).iter().all(|s| s.raw.is_none())).cloned().collect(), ..self.clone() };
            v.extend(c.model(st));
        }
        v
    }
    fn l08(&self, st: &mut Stats) -> Vec<Viol> {
        let main = self.history(|_, _| true);
        self.record(st, &main);
        let mut v = self.panics(&main);
        let twin = self.history(|_, _| true);
        for i in 0..main.len() { if let Some(d) = diff(&main[i], &twin[i]) { v.push(viol("L08", format!("repeating the history gave something else in call {i}: {d}"))); return v } }
        // failed calls that cannot have changed the session might as well not have happened
        let skip: Vec<bool> = self.ops.iter().enumerate().map(|(i, o)| matches!(&o.kind, Kind::Session(s) if s.inert()) && main[i][0].is_err()).collect();
        if skip.iter().any(|s| *s) {
            let without = self.history(|i, _| !skip[i]);
            for i in 0..main.len() {
                if skip[i] { continue }
                st.add("comparisons with a history without the failed calls", 1);
                if let Some(d) = diff(&main[i], &without[i]) { v.push(viol("L08", format!("call {i} differs from the same history without the failed calls: {d}"))); return v }
            }
        }
        v
    }

    fn model(&self, st: &mut Stats) -> Vec<Viol> {
        let setup = self.cfg.setup();
        let mut c = self.cfg.build();
        let mut cands = vec![State::default()];
        let (mut failed, mut resets, mut judging) = (false, 0, true);
        let mut out: Vec<Viol> = vec![];
        let mut all = vec![];
        let mut defs = 0u64;
        let mut budget = 3_000_000usize;
        'ops: for (i, o) in self.ops.iter().enumerate() {
            let texts: u64 = snips(&o.kind).iter().map(|s| s.text().len() as u64).sum();
            defs += texts;
            let (r, used) = sched::measured(|| c.call(&o.kind));
            let (work, peak) = (used.work, used.peak);
            let allowed = (72 << 20) + (256 << 10) * self.cfg.limit() + 4096 * (texts + defs);
            for (k, n) in [("max bytes held by a call", peak), ("max bytes allocated by a call", work), ("max bytes of stack used by a call", used.stack)] {
                st.n.entry(k.into()).and_modify(|m| *m = (*m).max(n)).or_insert(n);
            }
            if used.stack > STACK { out.push(viol("L09", format!("call {i} ({texts} bytes) used {} bytes of stack; a thread may have no more than 2 MB", used.stack))) }
            if peak > allowed || work > 4 * allowed { out.push(viol("L09", format!("call {i} ({texts} bytes) used {peak} bytes of memory and {work} bytes in all, more than {allowed}"))) }
            for x in &r { if let Res::Panic(m) = x { out.push(viol(prop_static(&self.prop), format!("call {i} panicked: {m}"))); all.push(r); break 'ops } }
            let mut problems: Vec<(Vec<&'static str>, String)> = vec![];
            match &o.kind {
                Kind::Reset => { cands = vec![State::default()]; failed = false; judging = true; resets += 1; defs = 0 }
                Kind::Session(s) => {
                    if s.bomb && !r[0].is_err() { problems.push((vec!["L09"], format!("call {i} needs more expansions than allowed, but gives {}", r[0].short()))) }
                    if s.raw.is_some() {
                        if !s.inert() && judging {
                            // bombs define commands of their own only
                            if !s.bomb { judging = false }
                        }
                    } else if judging {
                        match step(&setup, &cands, s, &r[0], &self.cfg.id_prefix, true, &mut budget, st) {
                            Step::Go(next, q) => {
                                quirk(&mut out, q, i);
                                cands = next;
                                if cands.len() > 300 { judging = false; st.add("gave up: too many possible states", 1) }
                            }
                            Step::GiveUp => { judging = false; st.add("gave up: too large", 1) }
                            Step::Bad(p, m) => problems.push((p, m)),
                        }
                    }
                    failed |= r[0].is_err();
                    budget = budget.saturating_sub(cands.iter().map(State::len).sum());
                    for s in &cands { let h = hash(|h| std::hash::Hash::hash(s, h)); st.distinct.insert(h); if failed || resets > 0 { st.nontrivial.insert(h); } }
                }
                Kind::Iso(s) if s.raw.is_none() => {
                    match step(&setup, &[State::default()], s, &r[0], &self.cfg.id_prefix, true, &mut budget, st) {
                        Step::Go(_, q) => quirk(&mut out, q, i),
                        Step::Bad(p, m) => problems.push((p, m)),
                        _ => {}
                    }
                }
                Kind::Iso(_) => {}
                Kind::Batch(list) => {
                    if r.len() != list.len() { problems.push((vec!["L06"], format!("{} results for {} snippets", r.len(), list.len()))) }
                    else if list.iter().all(|s| s.raw.is_none()) {
                        let mut cs = vec![State::default()];
                        let mut seen = vec![];
                        let mut ok = true;
                        for (k, s) in list.iter().enumerate() {
                            match step(&setup, &cs, s, &r[k], &self.cfg.id_prefix, false, &mut budget, st) {
                                Step::Go(next, q) => { quirk(&mut out, q, i); cs = next; if cs.len() > 300 { ok = false; break } if let Res::Ok { xml, undef, .. } = &r[k] { seen.push((k, xml, *undef)) } }
                                Step::GiveUp => { ok = false; break }
                                Step::Bad(mut p, m) => { p.push("L06"); problems.push((p, format!("snippet {k} of the batch: {m}"))); ok = false; break }
                            }
                        }
                        if ok {
                            let bad: Vec<Option<String>> = cs.iter().map(|s| seen.iter().find_map(|(k, xml, undef)| refs(xml, *undef, &s.labels, &self.cfg.id_prefix).map(|m| format!("snippet {k} of the batch: {m}")))).collect();
                            if let Some(Some(m)) = bad.iter().find(|b| b.is_none()).map_or(bad.first(), |_| None) { problems.push((vec!["L02", "L06"], m.clone())) }
                        }
                    }
                }
            }
            all.push(r);
            if let Some((mut props, m)) = problems.into_iter().next() {
                if failed && matches!(o.kind, Kind::Session(_)) { props.push("L08") }
                if resets > 0 { props.push("L05") }
                for p in props { out.push(viol(p, format!("call {i}: {m}"))) }
                break;
            }
        }
        self.record(st, &all);
        out
    }
}

/// Rust gives threads 2 MB of stack.
const STACK: u64 = 1_900_000;
pub const EARLY: &str = "a command redefined in the argument of a command keeps its old meaning in the rest of that command's body";
pub const LEAK: &str = "a row after a row with both a tag and \\notag has no number";
fn quirk(out: &mut Vec<Viol>, q: Quirks, i: usize) {
    if q.early { out.push(viol("L03", format!("{EARLY} (call {i})"))) }
    if q.leak { out.push(viol("L01", format!("{LEAK} (call {i})"))) }
}

enum Step { Go(Vec<State>, Quirks), GiveUp, Bad(Vec<&'static str>, String) }
fn step(setup: &Setup, cands: &[State], s: &Snip, real: &Res, prefix: &str, with_refs: bool, budget: &mut usize, st: &mut Stats) -> Step {
    let mut first: Option<(Vec<&'static str>, String)> = None;
    let torn = s.cut.is_some_and(|c| c < render(&s.toks).len());
    let clean = if s.toks.iter().any(has_bad) { Some(without_bad(&s.toks)) } else { None };
    let quirks = [Quirks::default(), Quirks { early: true, leak: false }, Quirks { early: false, leak: true }, Quirks { early: true, leak: true }];
    let seen = if let Res::Ok { xml, .. } = real { Some(observe(xml)) } else { None };
    for q in quirks {
        let mut next = BTreeSet::new();
        for c in cands {
            let o = run(setup, c, &s.toks, q);
            *budget = budget.saturating_sub(o.work + o.state.len());
            if o.unknown || *budget == 0 { return Step::GiveUp }
            st.add("model steps", 1);
            // how far a failed snippet got does not show, nor do known findings in it
            let mut prefixes = || {
                let mut p = BTreeSet::new();
                if o.work > 200_000 { return None }
                for q in quirks {
                    for t in [Some(&s.toks), clean.as_ref()].into_iter().flatten() { let o = run(setup, c, t, q); *budget = budget.saturating_sub(o.work + o.log_len() * o.state.len()); if o.log_len() > 4000 || o.log_len() * o.state.len() > 100_000 || *budget == 0 { return None } p.extend(o.prefixes(c)); p.insert(o.state); }
                }
                Some(p)
            };
            if torn { match prefixes() { Some(p) => next.extend(p), None => return Step::GiveUp }; continue }
            match (&o.result, real) {
                (Ok(obs), Res::Ok { undef, .. }) => match compare(obs, seen.as_ref().unwrap(), *undef, &o.state, prefix, with_refs) {
                    None => { next.insert(o.state); }
                    Some((p, m)) => { first.get_or_insert((p, format!("{m}; converting {}", s.text()))); }
                },
                // (a malformed token in an argument that is never typeset need not be noticed)
                (Ok(_), Res::Err(_)) if o.may_hit_limit || clean.is_some() => match prefixes() { Some(p) => next.extend(p), None => return Step::GiveUp },
                (Ok(_), Res::Err(e)) => {
                    let mut p = vec!["L03"];
                    if o.expansions > 0 || e.contains("xpansions") { p.push("L09") }
                    if s.toks.iter().any(|t| matches!(t, Tok::Env(..) | Tok::Many(..) | Tok::Labels(..))) { p.push("L01") }
                    if s.toks.iter().any(|t| matches!(t, Tok::Ref(_))) { p.push("L02") }
                    first.get_or_insert((p, format!("fails with {e}; converting {}", s.text())));
                }
                (Err(_), Res::Err(_)) => match prefixes() { Some(p) => next.extend(p), None => return Step::GiveUp },
                (Err(Fail::Syntax), Res::Ok { .. }) => return Step::GiveUp,
                (Err(f), Res::Ok { .. }) => {
                    let p = match f { Fail::Limit => "L09", Fail::TagPlace => "L01", Fail::TwoLabels => "L02", _ => "L03" };
                    first.get_or_insert((vec![p], format!("succeeds where it must fail ({f:?}); converting {}", s.text())));
                }
                (_, Res::Panic(_)) => unreachable!(),
            }
        }
        if !next.is_empty() { return Step::Go(next.into_iter().collect(), q) }
    }
    let (p, m) = first.unwrap();
    Step::Bad(p, m)
}
fn compare(obs: &Obs, seen: &Result<Seen, String>, undef: bool, state: &State, prefix: &str, with_refs: bool) -> Option<(Vec<&'static str>, String)> {
    let seen = match seen { Ok(s) => s, Err(e) => return Some((vec!["L01", "L02", "L03"], format!("unreadable output: {e}"))) };
    let mut want: Vec<SeenTag> = obs.tags.iter().filter(|t| !t.text.is_empty()).map(|t| SeenTag { text: t.text.clone(), id: t.label.as_ref().map(|l| format!("{prefix}{}", pct(l))) }).collect();
    let mut got = seen.tags.clone();
    if obs.nested { want.sort(); got.sort() }
    let texts = |v: &[SeenTag]| v.iter().map(|t| t.text.clone()).collect::<Vec<_>>();
    if texts(&want) != texts(&got) { return Some((vec!["L01"], format!("rows are numbered {:?} instead of {:?}", texts(&got), texts(&want)))) }
    if want != got { return Some((vec!["L02"], format!("rows carry {got:?} instead of {want:?}"))) }
    let mut got = seen.items.iter();
    for w in &obs.items {
        let g = got.next();
        let p = if matches!(w, Item::Ref(_)) || matches!(g, Some(SeenItem::Ref { .. })) { "L02" } else { "L03" };
        let ok = match (w, g) {
            (Item::Num(n), Some(SeenItem::Num(m))) => n.to_string() == *m,
            (Item::Greek(a), Some(SeenItem::Greek(b))) => a == b,
            (Item::Unk(a), Some(SeenItem::Unk(b))) => a == b,
            (Item::Ref(l), Some(SeenItem::Ref { href, text })) => {
                *href == format!("#{prefix}{}", pct(l)) && (!with_refs || *text == format!("({})", state.labels.get(l).map_or("??", |s| s)))
            }
            _ => false,
        };
        if !ok { return Some((vec![p], format!("shows {g:?} instead of {w:?}{}", if let Item::Ref(l) = w { format!(" ({:?})", state.labels.get(l)) } else { String::new() }))) }
    }
    if let Some(g) = got.next() { return Some((vec!["L03"], format!("shows {g:?} in addition"))) }
    if with_refs {
        let want = obs.items.iter().any(|i| matches!(i, Item::Ref(l) if !state.labels.contains_key(l)));
        if want != undef { return Some((vec!["L02"], format!("warning about undefined references: {undef}, expected {want}"))) }
    }
    None
}
/// The references of one batch result against the labels of the whole batch.
fn refs(xml: &str, undef: bool, labels: &std::collections::BTreeMap<String, String>, prefix: &str) -> Option<String> {
    let seen = observe(xml).ok()?;
    let mut any = false;
    for i in &seen.items {
        let SeenItem::Ref { href, text } = i else { continue };
        let l = labels.iter().find(|(l, _)| format!("#{prefix}{}", pct(l)) == *href);
        let want = format!("({})", l.map_or("??", |x| x.1));
        any |= l.is_none();
        if *text != want { return Some(format!("the reference {href} shows {text} instead of {want}")) }
    }
    (any != undef).then(|| format!("warning about undefined references: {undef}, expected {any}"))
}
fn mask(r: &Res) -> Res {
    match r {
        Res::Ok { xml, unk, .. } => {
            let mut o = String::new();
            let mut rest = xml.as_str();
            while let Some(i) = rest.find("<a href=\"") {
                let Some(j) = rest[i..].find(">(").map(|j| i + j) else { break };
                let Some(k) = rest[j..].find(")</a>").map(|k| j + k) else { break };
                o.push_str(&rest[..j]);
                rest = &rest[k..];
            }
            o.push_str(rest);
            Res::Ok { xml: o, undef: false, unk: *unk }
        }
        r => r.clone(),
    }
}
pub fn diff(a: &[Res], b: &[Res]) -> Option<String> {
    if a == b { return None }
    for (i, (x, y)) in a.iter().zip(b).enumerate() { if x != y { return Some(format!("result {i} is {} and not {}", x.short(), y.short())) } }
    Some(format!("{} results instead of {}", a.len(), b.len()))
}
pub fn snips(k: &Kind) -> Vec<&Snip> { match k { Kind::Session(s) | Kind::Iso(s) => vec![s], Kind::Batch(v) => v.iter().collect(), Kind::Reset => vec![] } }
fn has_bad(t: &Tok) -> bool {
    match t {
        Tok::Bad(_) => true,
        Tok::Use { args, .. } => args.iter().flatten().any(has_bad),
        Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) => a.iter().any(has_bad),
        Tok::Frac(a, b) => a.iter().chain(b).any(has_bad),
        Tok::Env(_, r) => r.iter().flatten().any(has_bad),
        Tok::Def { body, .. } => body.iter().any(has_bad),
        _ => false,
    }
}
fn without_bad(ts: &[Tok]) -> Vec<Tok> {
    ts.iter().filter(|t| !matches!(t, Tok::Bad(_))).map(|t| match t {
        Tok::Use { name, args, bound } => Tok::Use { name: name.clone(), args: args.iter().map(|a| without_bad(a)).collect(), bound: bound.clone() },
        Tok::Group(a) => Tok::Group(without_bad(a)),
        Tok::Fence(a) => Tok::Fence(without_bad(a)),
        Tok::Wrap(k, a) => Tok::Wrap(*k, without_bad(a)),
        Tok::Frac(a, b) => Tok::Frac(without_bad(a), without_bad(b)),
        Tok::Env(k, r) => Tok::Env(k.clone(), r.iter().map(|a| without_bad(a)).collect()),
        t => t.clone(),
    }).collect()
}
pub fn prop_static(p: &str) -> &'static str { crate::PROPS.into_iter().find(|q| *q == p).unwrap() }

impl Case for LibCase {
    type Ctx = ();
    fn ctx() {}
    fn generate(prop: &str, seed: u64, i: u64, thorough: bool) -> LibCase {
        if i == 0 && let Some(c) = Self::known_finding(prop) { return c }
        let mut r = Rng::derive(seed, prop, i);
        let p = profile(prop, &mut r, thorough);
        let mut n = 10u16;
        let sw = Swarm::random(&mut r);
        let reuse = if prop == "L10" { *r.pick(&[20, 50, 80]) } else { *r.pick(&[0, 5, 20, 50]) };
        let mut pool: Vec<Snip> = vec![];
        let mut cfg = Self::config(&mut r, &p, prop, 500);
        let mut more = vec![];
        if prop == "L10" {
            for k in 0..r.range(0, 2) {
                let other = Self::config(&mut r, &p, prop, 600 + 100 * k as u16);
                let mut c = cfg.clone();
                // the same, different in one or two points, or all different
                for _ in 0..r.below(3) { match r.below(13) {
                    0 => c.pretty = (c.pretty + 1) % 3, 1 => c.annotation ^= true, 2 => c.xmlns ^= true, 3 => c.global_group ^= true, 4 => c.ignore_unknown ^= true,
                    5 => c.unreliable ^= true, 6 => c.unicode_never ^= true, 7 => c.limit = other.limit, 8 => c.id_prefix = format!("o{k}-"), 9 => c.indent = other.indent, 10 => c.css = other.css.clone(), 11 if !c.macros.is_empty() => { let m = r.below(c.macros.len()); c.macros[m].2 = vec![Tok::Raw(SENSITIVE[r.below(SENSITIVE.len() - if c.unreliable { 2 } else { 5 })].to_string())]; c.macros[m].1 = 0 } _ => c.macros = other.macros.clone(),
                } }
                more.push(if r.chance(1, 3) { other } else { c });
            }
            if r.chance(1, 8) { cfg.limit = Some(3) }
        }
        let callers = if prop == "L07" { r.range(2, 4) } else if prop == "L10" { r.range(1, 3) } else { 1 };
        let convs = if prop == "L07" && r.chance(1, 2) { 2 } else { 1 };
        // now and then a long history
        let long = prop != "L07" && r.chance(1, 400);
        let nops = if prop == "L07" { callers * r.range(1, 4) } else { r.range(1, if long { p.ops * 30 } else { p.ops }) };
        let mut ops = vec![];
        // sometimes the same snippet again, at another place
        let group = cfg.global_group;
        let mut snip = |r: &mut Rng, k: &mut Known| {
            if !pool.is_empty() && r.chance(reuse, 100) { let mut s = r.pick(&pool).clone(); if r.chance(1, 4) { s.block = !s.block } return s }
            let s = Self::snip(r, &p, &sw, k, prop, &mut n);
            if group { let l = std::mem::take(&mut k.local); k.doc.extend(l) } else { k.local.clear() }
            pool.push(s.clone());
            s
        };
        let none = Known::new(&cfg, r.chance(1, 6));
        let mut knowns = vec![none.clone(); 1 + more.len()];
        for _ in 0..nops {
            let on = if more.is_empty() { 0 } else { r.below(1 + more.len()) };
            let known = &mut knowns[on];
            let renew = prop == "L10" && r.chance(1, 15);
            if renew { *known = none.clone() }
            let kind = if r.chance(p.reset, 100) { *known = none.clone(); Kind::Reset }
                else if r.chance(p.iso, 100) { { let mut k = if r.chance(1, 4) { known.clone() } else { none.clone() }; Kind::Iso(snip(&mut r, &mut k)) } }
                else if r.chance(p.batch, 100) { let k = if !matches!(prop, "L07" | "L10") && r.chance(1, 80) { r.range(10, 80) } else { r.below(if prop == "L06" { 7 } else { 4 }) }; let mut b = none.clone(); let mut list: Vec<Snip> = (0..k).map(|_| snip(&mut r, &mut b)).collect(); if k >= 10 { pad(&mut r, &mut list, |r| plain(r.pick(&["x", "\\begin{equation}x\\end{equation}"]))) } Kind::Batch(list) }
                else { Kind::Session(snip(&mut r, known)) };
            // the same call again
            let again = r.chance(1, 20);
            let op = Op { by: r.below(callers) as u8, conv: if more.is_empty() { r.below(convs) } else { on } as u8, renew, kind };
            if again { ops.push(op.clone()) }
            ops.push(op);
        }
        // what long lists of labels and definitions left behind
        let mut lists = BTreeSet::new();
        for o in &ops { for s in snips(&o.kind) { for t in &s.toks { match t { Tok::Labels(_, n, at) => { lists.insert((false, *n, *at)); } Tok::Defs(_, n, at) => { lists.insert((true, *n, *at)); } _ => {} } } } }
        for (defs, n, at) in lists {
            let mut some: Vec<u32> = (0..6).map(|_| at + r.below(n as usize) as u32).collect();
            some.extend([at, at + n - 1]);
            let probe = |toks| Op { by: 0, conv: 0, renew: false, kind: Kind::Session(Snip { toks, block: false, cut: None, raw: None, bomb: false }) };
            if defs { for i in some { ops.push(probe(vec![use_(&many_name(i), vec![])])) } }
            else { ops.push(probe(some.iter().map(|i| Tok::Ref(Str::Lit(many_label(*i)))).collect())) }
        }
        if p.probes {
            let probes = Self::probes();
            for k in probes { if prop == "L08" || prop == "L03" || r.chance(1, 2) { ops.push(Op { by: 0, conv: 0, renew: false, kind: k }) } }
        }
        let seed = r.next();
        let place = (prop == "L03" && r.chance(1, 3)).then(|| crate::place::Place::generate(&mut r, ops.len()));
        LibCase { prop: prop.into(), cfg, more, ops, place, seed, sched: None }
    }
    fn eval(&mut self, _: &mut (), st: &mut Stats) -> Vec<Viol> {
        self.count_ops(st);
        self.ctx_free_judge(st)
    }
    fn shrink(&self) -> Vec<LibCase> {
        let mut out = vec![];
        let n = self.ops.len();
        let mut size = n / 2;
        while size > 0 {
            let mut i = 0;
            while i < n {
                let mut c = self.clone();
                c.ops.drain(i..(i + size).min(n));
                out.push(c);
                i += size;
            }
            size /= 2;
        }
        if let Some(s) = &self.sched {
            let mut c = self.clone();
            c.sched = Some(vec![]);
            if !s.is_empty() { out.push(c) }
            let mut size = s.len() / 2;
            while size > 0 {
                let mut i = 0;
                while i < s.len() {
                    let mut c = self.clone();
                    c.sched.as_mut().unwrap().drain(i..(i + size).min(s.len()));
                    out.push(c);
                    i += size;
                }
                size /= 2;
            }
        }
        if let Some(p) = &self.place {
            out.push(LibCase { place: None, ..self.clone() });
            for p in p.shrink() { out.push(LibCase { place: Some(p), ..self.clone() }) }
        }
        for k in 0..self.cfg.macros.len() {
            let mut c = self.clone();
            c.cfg.macros.remove(k);
            out.push(c);
        }
        if self.prop == "L10" {
            for k in 0..self.more.len() {
                if k + 1 == self.more.len() && self.ops.iter().all(|o| o.conv as usize != k + 1) { let mut c = self.clone(); c.more.pop(); out.push(c) }
                for m in 0..self.more[k].macros.len() { let mut c = self.clone(); c.more[k].macros.remove(m); out.push(c) }
                if self.more[k] != self.cfg { let mut c = self.clone(); c.more[k] = self.cfg.clone(); out.push(c) }
            }
            for i in 0..n {
                let o = &self.ops[i];
                if o.renew { let mut c = self.clone(); c.ops[i].renew = false; out.push(c) }
                if o.by > 0 { let mut c = self.clone(); c.ops[i].by = 0; out.push(c) }
            }
        }
        let base = LCfg::default();
        let mut try_cfg = |f: &dyn Fn(&mut LCfg)| { let mut c = self.clone(); f(&mut c.cfg); if c.cfg != self.cfg { out.push(c) } };
        try_cfg(&|c| c.pretty = 0);
        try_cfg(&|c| c.annotation = false);
        try_cfg(&|c| c.xmlns = false);
        try_cfg(&|c| c.unreliable = false);
        try_cfg(&|c| c.unicode_never = false);
        try_cfg(&|c| c.id_prefix = base.id_prefix.clone());
        try_cfg(&|c| c.limit = None);
        try_cfg(&|c| c.ignore_unknown = false);
        try_cfg(&|c| c.global_group = false);
        for (i, o) in self.ops.iter().enumerate() {
            let mut put = |k: Kind| { let mut c = self.clone(); c.ops[i].kind = k; out.push(c) };
            match &o.kind {
                Kind::Session(s) => for t in shrink_snip(s) { put(Kind::Session(t)) },
                Kind::Iso(s) => for t in shrink_snip(s) { put(Kind::Iso(t)) },
                Kind::Batch(v) => for k in 0..v.len() {
                    if k == 0 && v.len() > 8 { for part in [&v[..v.len() / 2], &v[v.len() / 2..], &v[v.len() / 8..]] { put(Kind::Batch(part.to_vec())) } }
                    let mut w = v.clone();
                    w.remove(k);
                    put(Kind::Batch(w));
                    for t in shrink_snip(&v[k]) { let mut w = v.clone(); w[k] = t; put(Kind::Batch(w)) }
                },
                Kind::Reset => {}
            }
        }
        // a configuration that no longer builds would not be a smaller case
        out.retain(|c| LatexToMathML::new(c.cfg.plain().build()).is_ok());
        out
    }
}
fn shrink_snip(s: &Snip) -> Vec<Snip> {
    let mut out = vec![];
    if s.cut.is_some() { out.push(Snip { cut: None, ..s.clone() }) }
    for t in shrink_seq(&s.toks) { out.push(Snip { toks: t, ..s.clone() }) }
    if let Some(r) = &s.raw {
        for k in [r.len() / 2, r.len().saturating_sub(8), r.len().saturating_sub(1)] { if r.is_char_boundary(k) && k < r.len() { out.push(Snip { raw: Some(r[..k].into()), ..s.clone() }) } }
        for k in [r.len() / 2, 8, 1] { if k < r.len() && r.is_char_boundary(k) { out.push(Snip { raw: Some(r[k..].into()), ..s.clone() }) } }
    }
    if s.block { out.push(Snip { block: false, ..s.clone() }) }
    out
}
fn shrink_seq(ts: &[Tok]) -> Vec<Vec<Tok>> {
    let mut out = vec![];
    for i in 0..ts.len() {
        let mut v = ts.to_vec();
        v.remove(i);
        out.push(v);
        let mut put = |t: Tok| { let mut v = ts.to_vec(); v[i] = t; out.push(v) };
        match &ts[i] {
            Tok::Group(a) => for x in shrink_seq(a) { put(Tok::Group(x)) },
            Tok::Fence(a) => for x in shrink_seq(a) { put(Tok::Fence(x)) },
            Tok::Wrap(k, a) => { put(Tok::Group(a.clone())); for x in shrink_seq(a) { put(Tok::Wrap(*k, x)) } }
            Tok::Frac(a, b) => { put(Tok::Group(a.clone())); put(Tok::Group(b.clone())); for x in shrink_seq(a) { put(Tok::Frac(x, b.clone())) } }
            Tok::Use { name, args, .. } if name != "qt" => for k in 0..args.len() { for x in shrink_seq(&args[k]) { let mut a = args.clone(); a[k] = x; put(use_(name, a)) } },
            Tok::Env(k, rows) => {
                for i in 0..rows.len() {
                    if rows.len() > 1 { let mut r = rows.clone(); r.remove(i); put(Tok::Env(k.clone(), r)) }
                    for x in shrink_seq(&rows[i]) { let mut r = rows.clone(); r[i] = x; put(Tok::Env(k.clone(), r)) }
                }
            }
            Tok::Labels(k, n, at) => for m in [n / 2, n - n / 8, n - 1] { if m > 0 && m < *n { put(Tok::Labels(k.clone(), m, *at)); put(Tok::Labels(k.clone(), m, at + n - m)) } },
            Tok::Defs(g, n, at) => for m in [n / 2, n - n / 8, n - 1] { if m > 0 && m < *n { put(Tok::Defs(*g, m, *at)); put(Tok::Defs(*g, m, at + n - m)) } },
            Tok::Many(k, n) => for m in [n / 2, n - n / 8, n - 1] { if m > 0 && m < *n { put(Tok::Many(k.clone(), m)) } },
            Tok::Def { how, name, nargs, body } if name != "qt" => for x in shrink_seq(body) { put(Tok::Def { how: *how, name: name.clone(), nargs: *nargs, body: x }) },
            _ => {}
        }
    }
    out
}
