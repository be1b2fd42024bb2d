//! Snippets as structures, and a small executable model of what converting them in a session
//! means: numbers, labels and commands. The model knows nothing about MathML layout; it is
//! compared with the observables found in the output (see `observe`).
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Str { Lit(String), Arg(u8) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How { New, Renew, Provide, Def, Gdef, GlobalDef }

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Tok {
    Num(u16),
    /// Anything without observables.
    Raw(String),
    /// A command with all its arguments. `bound` is the meaning it had when the body it comes
    /// from was expanded, if it comes from a body.
    Use { name: String, args: Vec<Vec<Tok>>, #[serde(skip)] bound: Option<Arc<Bound>> },
    Text(String),
    Arg(u8),
    Group(Vec<Tok>),
    Frac(Vec<Tok>, Vec<Tok>),
    Fence(Vec<Tok>),
    /// In one of `WRAPS`.
    Wrap(u8, Vec<Tok>),
    Ref(Str),
    Label(Str),
    Tag(Str, bool),
    NoTag(bool),
    Env(String, Vec<Vec<Tok>>),
    /// An environment of that many rows.
    Many(String, u32),
    /// An environment of that many rows, each of which has a label of its own, counted from the last number.
    Labels(String, u32, u32),
    /// That many definitions of commands of their own, counted from the last number.
    Defs(bool, u32, u32),
    Def { how: How, name: String, nargs: u8, body: Vec<Tok> },
    Let { global: bool, eq: bool, name: String, src: String },
    /// Makes the snippet fail where it stands.
    Bad(String),
}
pub fn use_(name: &str, args: Vec<Vec<Tok>>) -> Tok { Tok::Use { name: name.into(), args, bound: None } }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bound { mean: Option<Mean>, at: usize }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Macro { nargs: u8, body_text: String, body: Body }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Body(pub Vec<Tok>);
impl PartialOrd for Body { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Body { fn cmp(&self, _: &Self) -> std::cmp::Ordering { std::cmp::Ordering::Equal } }

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mean { Builtin(String), Macro(Arc<Macro>), Alias(Arc<Mean>) }

pub const BUILTINS: [(&str, u8); 3] = [("alpha", 0), ("beta", 0), ("sqrt", 1)];

pub const WRAPS: [(&str, &str); 13] = [("x^{", "}"), ("x_{", "}"), ("\\overset{", "}{x}"), ("\\underbrace{", "}_{y}"), ("\\boxed{", "}"), ("\\underset{", "}{x}"), ("\\phantom{", "}"),
    ("\\displaystyle{", "}"), ("{\\color{red}", "}"), ("\\xrightarrow{", "}"), ("\\binom{", "}{x}"), ("\\overline{", "}"), ("% \\label{zz}\\\\\\def\\qa{9}\\end{align}{\n{", "}")];
const ROW_ENDS: [&str; 8] = ["\\\\", "\\\\", "\\\\", "\\\\", "\\\\\n", "\\newline ", "\\\\% \\\\ \\tag{zz}\n", " \\\\ "];
pub fn many_label(i: u32) -> String { format!("k{i}") }
pub fn many_name(i: u32) -> String { format!("qy{}", [i / 676, i / 26, i].iter().map(|k| (b'a' + (k % 26) as u8) as char).collect::<String>()) }
/// The longest lists have long bodies.
fn many_body(n: u32) -> &'static str { if n < 350 { "" } else { const X: &str = match std::str::from_utf8(&[b'x'; 250]) { Ok(x) => x, Err(_) => "" }; X } }
fn str_src(s: &Str, o: &mut String) { match s { Str::Lit(t) => o.push_str(t), Str::Arg(i) => { o.push('#'); o.push((b'0' + i) as char) } } }
pub fn render(ts: &[Tok]) -> String { let mut o = String::new(); render_to(ts, &mut o); o }
fn render_to(ts: &[Tok], o: &mut String) {
    let braced = |t: &[Tok], o: &mut String| { o.push('{'); render_to(t, o); o.push('}') };
    for t in ts {
        match t {
            Tok::Num(n) => o.push_str(&format!("{{{n}}}")),
            Tok::Raw(s) | Tok::Text(s) | Tok::Bad(s) => o.push_str(s),
            Tok::Use { name, args, .. } => {
                o.push('\\');
                o.push_str(name);
                if args.is_empty() { o.push(' ') }
                for a in args { braced(a, o) }
            }
            Tok::Arg(i) => o.push_str(&format!("{{#{i}}}")),
            Tok::Group(g) => braced(g, o),
            Tok::Frac(a, b) => { o.push_str("\\frac"); braced(a, o); braced(b, o) }
            Tok::Wrap(k, a) => { let (b, e) = WRAPS[*k as usize % WRAPS.len()]; o.push_str(b); render_to(a, o); o.push_str(e) }
            Tok::Fence(a) => { o.push_str("\\left("); render_to(a, o); o.push_str("\\right)") }
            Tok::Ref(s) => { o.push_str("\\eqref{"); str_src(s, o); o.push('}') }
            Tok::Label(s) => { o.push_str("\\label{"); str_src(s, o); o.push('}') }
            Tok::Tag(s, star) => { o.push_str(if *star { "\\tag*{" } else { "\\tag{" }); str_src(s, o); o.push('}') }
            Tok::NoTag(long) => o.push_str(if *long { "\\nonumber " } else { "\\notag " }),
            Tok::Env(k, rows) => {
                o.push_str(&format!("\\begin{{{k}}}"));
                for (i, r) in rows.iter().enumerate() { if i > 0 { o.push_str(ROW_ENDS[(3 * rows.len() + i + r.len()) % ROW_ENDS.len()]) } render_to(r, o) }
                o.push_str(&format!("\\end{{{k}}}"));
            }
            Tok::Many(k, n) => {
                o.push_str(&format!("\\begin{{{k}}}"));
                for i in 0..*n { o.push_str(if i > 0 { "\\\\x" } else { "x" }) }
                o.push_str(&format!("\\end{{{k}}}"));
            }
            Tok::Labels(k, n, at) => {
                o.push_str(&format!("\\begin{{{k}}}"));
                for i in *at..at + n { if i > *at { o.push_str("\\\\") } o.push_str(&format!("x\\label{{{}}}", many_label(i))) }
                o.push_str(&format!("\\end{{{k}}}"));
            }
            Tok::Defs(global, n, at) => for i in *at..at + n { o.push_str(&format!("\\{}def\\{}{{{{{i}}}{}}}", if *global { "g" } else { "" }, many_name(i), many_body(*n))) },
            Tok::Def { how, name, nargs, body } => {
                match how {
                    How::New | How::Renew | How::Provide => {
                        o.push_str(match how { How::New => "\\newcommand", How::Renew => "\\renewcommand", _ => "\\providecommand" });
                        if name.len() % 2 == 0 { o.push_str(&format!("{{\\{name}}}")) } else { o.push_str(&format!("\\{name}")) }
                        if *nargs > 0 { o.push_str(&format!("[{nargs}]")) }
                    }
                    How::Def | How::Gdef | How::GlobalDef => {
                        o.push_str(match how { How::Def => "\\def", How::Gdef => "\\gdef", _ => "\\global\\def" });
                        o.push_str(&format!("\\{name}"));
                        for i in 1..=*nargs { o.push_str(&format!("#{i}")) }
                    }
                }
                braced(body, o);
            }
            Tok::Let { global, eq, name, src } => o.push_str(&format!("{}\\let\\{name}{}\\{src} ", if *global { "\\global" } else { "" }, if *eq { "=" } else { "" })),
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct State { pub count: u64, pub labels: BTreeMap<String, String>, pub doc: BTreeMap<String, Mean> }
enum Mut { Count, Label(String, String), Doc(String, Mean) }
impl State {
    /// How much it holds.
    pub fn len(&self) -> usize { 1 + self.labels.len() + self.doc.len() }
    fn apply(&mut self, m: &Mut) {
        match m {
            Mut::Count => self.count += 1,
            Mut::Label(k, v) => { self.labels.insert(k.clone(), v.clone()); }
            Mut::Doc(k, v) => { self.doc.insert(k.clone(), v.clone()); }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item { Num(u16), Greek(String), Unk(String), Ref(String) }
/// What a row's tag cell shows, and the label it carries.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RowTag { pub text: String, pub label: Option<String> }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Obs { pub items: Vec<Item>, pub tags: Vec<RowTag>, pub nested: bool }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail { Syntax, Undefined, Taken, Missing, TagPlace, TwoLabels, Limit }

/// Deviations of the code from the properties which are recorded as known findings.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Quirks {
    /// Commands of a body are bound when the body is expanded, so that a redefinition in an
    /// argument does not reach them.
    pub early: bool,
    /// `\notag` on a row that has a tag suppresses the number of the next row.
    pub leak: bool,
}

pub struct Setup { pub cfg: BTreeMap<String, Mean>, pub limit: u64, pub ignore_unknown: bool, pub global_group: bool }
impl Setup {
    pub fn new(macros: &[(String, u8, Vec<Tok>)], limit: u64, ignore_unknown: bool, global_group: bool) -> Setup {
        Setup { cfg: macros.iter().map(|(n, a, b)| (n.clone(), mac(*a, b))).collect(), limit, ignore_unknown, global_group }
    }
}
fn mac(nargs: u8, body: &[Tok]) -> Mean { Mean::Macro(Arc::new(Macro { nargs, body_text: render(body), body: Body(body.to_vec()) })) }

/// What converting one snippet does according to the model.
pub struct Outcome {
    /// `None`: the model makes no statement about success (the limit may or may not be hit).
    pub result: Result<Obs, Fail>,
    pub may_hit_limit: bool,
    /// The model gave up: anything goes from here on.
    pub unknown: bool,
    pub state: State,
    log: Vec<Mut>,
    pub expansions: u64,
    pub work: usize,
}

struct Rows { mode: Mode, suppress: bool, tag: Option<(String, bool)>, label: Option<String>, newlines: bool }
#[derive(Clone, Copy, PartialEq)]
enum Mode { All, None, Last }
fn rows(kind: &str) -> Option<Rows> {
    let (mode, newlines) = match kind {
        "align" | "gather" => (Mode::All, true),
        "equation" => (Mode::All, false),
        "align*" | "gather*" => (Mode::None, true),
        "equation*" => (Mode::None, false),
        "multline" => (Mode::Last, true),
        _ => return None,
    };
    Some(Rows { mode, suppress: false, tag: None, label: None, newlines })
}

struct Run<'a> {
    setup: &'a Setup,
    st: State,
    log: Vec<Mut>,
    local: BTreeMap<String, Mean>,
    min_exp: u64,
    max_exp: u64,
    env: Option<Rows>,
    /// Numbered environments around this point.
    around: usize,
    depth: usize,
    deep: bool,
    obs: Obs,
    q: Quirks,
    work: usize,
    /// Non-replacing definitions, for commands of bodies that were undefined when bound.
    news: Vec<(BTreeMap<String, Mean>, BTreeMap<String, Mean>)>,
}
enum Stop { Fail(Fail), GiveUp }

impl Outcome {
    pub fn log_len(&self) -> usize { self.log.len() }
    /// Every state passed through, the initial one included.
    pub fn prefixes(&self, start: &State) -> BTreeSet<State> {
        let mut prefixes = BTreeSet::new();
        let mut s = start.clone();
        prefixes.insert(s.clone());
        for m in &self.log { s.apply(m); prefixes.insert(s.clone()); }
        prefixes
    }
}
pub fn run(setup: &Setup, start: &State, toks: &[Tok], q: Quirks) -> Outcome {
    let mut r = Run { setup, st: start.clone(), log: vec![], local: BTreeMap::new(), min_exp: 0, max_exp: 0, env: None, around: 0, depth: 0, deep: false, obs: Obs::default(), q, work: 0, news: vec![] };
    let res = r.flat(toks);
    let unknown = matches!(res, Err(Stop::GiveUp));
    Outcome {
        result: match res { Ok(()) => Ok(r.obs), Err(Stop::Fail(f)) => Err(f), Err(Stop::GiveUp) => Err(Fail::Limit) },
        may_hit_limit: r.max_exp > setup.limit || r.deep,
        unknown, state: r.st, log: r.log, expansions: r.min_exp, work: r.work,
    }
}

impl Run<'_> {
    fn change(&mut self, m: Mut) { self.st.apply(&m); self.log.push(m) }
    fn lookup(&self, name: &str) -> Option<Mean> {
        self.local.get(name).or_else(|| self.st.doc.get(name)).or_else(|| self.setup.cfg.get(name)).cloned()
            .or_else(|| BUILTINS.iter().any(|b| b.0 == name).then(|| Mean::Builtin(name.into())))
    }
    fn meaning(&self, name: &str, bound: &Option<Arc<Bound>>) -> Option<Mean> {
        match bound {
            Some(b) if self.q.early => match &b.mean {
                Some(m) => Some(m.clone()),
                None => self.news[b.at..].iter().find_map(|(l, d)| l.get(name).or_else(|| d.get(name)).cloned()),
            },
            _ => self.lookup(name),
        }
    }
    fn all_defined(&self, ts: &[Tok]) -> bool {
        ts.iter().all(|t| match t {
            Tok::Use { name, args, bound } => self.meaning(name, bound).is_some() && args.iter().all(|a| self.all_defined(a)),
            Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) => self.all_defined(a),
            Tok::Frac(a, b) => self.all_defined(a) && self.all_defined(b),
            Tok::Env(_, rows) => rows.iter().all(|r| self.all_defined(r)),
            Tok::Def { name, body, .. } => self.lookup(name).is_some() && self.all_defined(body),
            Tok::Let { name, src, .. } => self.lookup(name).is_some() && self.lookup(src).is_some(),
            _ => true,
        })
    }
    fn subst(&self, ts: &[Tok], args: &[Vec<Tok>], out: &mut Vec<Tok>, size: &mut usize) -> Result<(), Stop> {
        let go = |t: &[Tok], size: &mut usize| { let mut o = vec![]; self.subst(t, args, &mut o, size).map(|_| o) };
        let text = |s: &Str| match s {
            Str::Arg(i) => match args.get(*i as usize - 1).map(Vec::as_slice) { Some([Tok::Text(t)]) => Str::Lit(t.clone()), _ => Str::Lit(String::new()) },
            s => s.clone(),
        };
        for t in ts {
            *size += 1;
            if *size > 50_000 { return Err(Stop::GiveUp) }
            out.push(match t {
                Tok::Arg(i) => {
                    let a = args[*i as usize - 1].clone();
                    *size += count(&a);
                    Tok::Group(a)
                }
                Tok::Use { name, args: a, bound } => {
                    let a = a.iter().map(|x| go(x, size)).collect::<Result<_, _>>()?;
                    let bound = bound.clone().or_else(|| Some(Arc::new(Bound { mean: self.lookup(name), at: self.news.len() })));
                    Tok::Use { name: name.clone(), args: a, bound }
                }
                Tok::Group(a) => Tok::Group(go(a, size)?),
                Tok::Fence(a) => Tok::Fence(go(a, size)?),
                Tok::Wrap(k, a) => Tok::Wrap(*k, go(a, size)?),
                Tok::Frac(a, b) => Tok::Frac(go(a, size)?, go(b, size)?),
                Tok::Env(k, rows) => Tok::Env(k.clone(), rows.iter().map(|r| go(r, size)).collect::<Result<_, _>>()?),
                Tok::Ref(s) => Tok::Ref(text(s)),
                Tok::Label(s) => Tok::Label(text(s)),
                Tok::Tag(s, b) => Tok::Tag(text(s), *b),
                t => t.clone(),
            });
        }
        Ok(())
    }
    fn seq(&mut self, ts: &[Tok]) -> Result<(), Stop> {
        self.depth += 1;
        // the parser refuses deep nesting somewhere above this
        if self.depth > 150 { self.deep = true }
        if self.depth > 1500 { return Err(Stop::GiveUp) }
        self.flat(ts)?;
        self.depth -= 1;
        Ok(())
    }
    fn flat(&mut self, ts: &[Tok]) -> Result<(), Stop> {
        for t in ts { self.tok(t)? }
        Ok(())
    }
    fn tok(&mut self, t: &Tok) -> Result<(), Stop> {
        self.work += 1;
        if self.work > 400_000 { return Err(Stop::GiveUp) }
        let fail = |f| Err(Stop::Fail(f));
        match t {
            Tok::Num(n) => self.obs.items.push(Item::Num(*n)),
            Tok::Raw(_) | Tok::Text(_) => {}
            Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) => self.seq(a)?,
            Tok::Frac(a, b) => { self.seq(a)?; self.seq(b)? }
            Tok::Arg(_) | Tok::Bad(_) => return fail(Fail::Syntax),
            Tok::Ref(Str::Lit(l)) => self.obs.items.push(Item::Ref(l.clone())),
            Tok::Label(Str::Lit(l)) => match &mut self.env {
                None => return fail(Fail::TagPlace),
                Some(e) if e.label.is_some() => return fail(Fail::TwoLabels),
                Some(e) => e.label = Some(l.clone()),
            },
            Tok::Tag(Str::Lit(l), star) => match &mut self.env { None => return fail(Fail::TagPlace), Some(e) => e.tag = Some((l.clone(), *star)) },
            Tok::Ref(_) | Tok::Label(_) | Tok::Tag(..) => return fail(Fail::Syntax),
            Tok::NoTag(_) => if let Some(e) = &mut self.env { e.suppress = true },
            Tok::Env(kind, lines) => {
                let outer = std::mem::replace(&mut self.env, rows(kind));
                let numbered = self.env.is_some() as usize;
                if self.around > 0 && numbered > 0 { self.obs.nested = true }
                self.around += numbered;
                for (i, line) in lines.iter().enumerate() {
                    if i > 0 { self.end_row(false) }
                    self.seq(line)?;
                }
                self.end_row(true);
                self.around -= numbered;
                self.env = outer;
            }
            Tok::Many(kind, n) => {
                let outer = std::mem::replace(&mut self.env, rows(kind));
                if self.around > 0 { self.obs.nested = true }
                self.work += *n as usize;
                for i in 0..*n { self.end_row(i + 1 == *n) }
                self.env = outer;
            }
            Tok::Labels(kind, n, at) => {
                let outer = std::mem::replace(&mut self.env, rows(kind));
                if self.around > 0 { self.obs.nested = true }
                self.work += *n as usize;
                if self.env.is_none() { return fail(Fail::TagPlace) }
                for i in 0..*n {
                    if let Some(e) = &mut self.env { if e.label.is_some() { return fail(Fail::TwoLabels) } e.label = Some(many_label(at + i)) }
                    self.end_row(i + 1 == *n)
                }
                self.env = outer;
            }
            Tok::Defs(global, n, at) => {
                self.work += *n as usize;
                for i in *at..at + n { self.define(&many_name(i), mac(0, &[Tok::Num(i as u16), Tok::Raw(many_body(*n).into())]), *global, true) }
            }
            Tok::Def { body, .. } if has_def(body) => return fail(Fail::Syntax),
            Tok::Def { how, name, nargs, body } => {
                let exists = self.lookup(name).is_some();
                let replace = match how {
                    How::New if exists => return fail(Fail::Taken),
                    How::Renew if !exists => return fail(Fail::Missing),
                    How::Provide if exists => return Ok(()),
                    How::New | How::Provide => false,
                    _ => true,
                };
                let global = matches!(how, How::Gdef | How::GlobalDef);
                self.define(name, mac(*nargs, body), global, replace);
            }
            Tok::Let { global, name, src, .. } => {
                let Some(m) = self.lookup(src) else { return fail(Fail::Undefined) };
                self.define(name, Mean::Alias(Arc::new(m)), *global, true);
            }
            Tok::Use { name, args, bound } => match self.meaning(name, bound) {
                None => {
                    if !self.setup.ignore_unknown { return fail(Fail::Undefined) }
                    self.obs.items.push(Item::Unk(name.clone()));
                    for a in args { self.seq(a)? }
                }
                Some(m) => self.expand(&m, args)?,
            },
        }
        Ok(())
    }
    fn expand(&mut self, m: &Mean, args: &[Vec<Tok>]) -> Result<(), Stop> {
        match m {
            Mean::Builtin(b) if b == "sqrt" => self.seq(&args[0])?,
            Mean::Builtin(b) => self.obs.items.push(Item::Greek(b.clone())),
            Mean::Alias(m) => { self.max_exp += 1; self.expand(m, args)? }
            Mean::Macro(d) => {
                self.min_exp += 1;
                self.max_exp += 1;
                if self.min_exp > self.setup.limit { return Err(Stop::Fail(Fail::Limit)) }
                if !self.setup.ignore_unknown && !args.iter().all(|a| self.all_defined(a)) { return Err(Stop::Fail(Fail::Undefined)) }
                let mut body = vec![];
                let mut size = 0;
                let done = self.subst(&d.body.0, args, &mut body, &mut size);
                self.work += size;
                done?;
                self.flat(&body)?;
            }
        }
        Ok(())
    }
    fn define(&mut self, name: &str, m: Mean, global: bool, replace: bool) {
        if global || self.setup.global_group {
            self.change(Mut::Doc(name.into(), m));
            self.local.remove(name);
        } else {
            self.local.insert(name.into(), m);
        }
        if !replace && self.q.early { self.news.push((self.local.clone(), self.st.doc.clone())) }
    }
    fn end_row(&mut self, last: bool) {
        let leak = self.q.leak;
        let Some(e) = &mut self.env else { return };
        if !last && (!e.newlines || e.mode == Mode::Last) { return }
        let label = e.label.take();
        let suppressed = std::mem::take(&mut e.suppress);
        let tag = if let Some((t, star)) = e.tag.take() {
            if leak { e.suppress = suppressed }
            Some((t, star))
        } else if suppressed || e.mode == Mode::None { None } else {
            let n = self.st.count + 1;
            self.change(Mut::Count);
            Some((n.to_string(), false))
        };
        if let Some((text, star)) = tag {
            if let Some(l) = &label { self.change(Mut::Label(l.clone(), text.clone())) }
            self.obs.tags.push(RowTag { text: if star { text } else { format!("({text})") }, label });
        }
    }
}
fn has_def(ts: &[Tok]) -> bool {
    ts.iter().any(|t| match t {
        Tok::Def { .. } | Tok::Let { .. } | Tok::Defs(..) => true,
        Tok::Use { args, .. } => args.iter().any(|a| has_def(a)),
        Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) => has_def(a),
        Tok::Frac(a, b) => has_def(a) || has_def(b),
        Tok::Env(_, r) => r.iter().any(|a| has_def(a)),
        _ => false,
    })
}
fn count(ts: &[Tok]) -> usize {
    ts.iter().map(|t| 1 + match t {
        Tok::Use { args, .. } => args.iter().map(|a| count(a)).sum(),
        Tok::Group(a) | Tok::Fence(a) | Tok::Wrap(_, a) => count(a),
        Tok::Frac(a, b) => count(a) + count(b),
        Tok::Env(_, r) => r.iter().map(|a| count(a)).sum(),
        Tok::Def { body, .. } => count(body),
        _ => 0,
    }).sum()
}

/// What can be seen in an output.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Seen { pub items: Vec<SeenItem>, pub tags: Vec<SeenTag> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SeenItem { Num(String), Greek(String), Unk(String), Ref { href: String, text: String } }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SeenTag { pub text: String, pub id: Option<String> }

/// Tags and text of an output in order; independent of attributes other than `id` and `href`.
pub fn observe(xml: &str) -> Result<Seen, String> {
    let mut seen = Seen::default();
    let mut stack: Vec<(String, Option<String>)> = vec![]; // element, id
    let mut href: Option<String> = None;
    let mut rest = xml;
    let unescape = |s: &str| s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&");
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('<') {
            let mut end = None;
            let mut quote = false;
            for (i, c) in r.char_indices() { match c { '"' => quote = !quote, '>' if !quote => { end = Some(i); break } _ => {} } }
            let end = end.ok_or("unfinished tag")?;
            let tag = &r[..end];
            rest = &r[end + 1..];
            if let Some(name) = tag.strip_prefix('/') {
                let (open, _) = stack.pop().ok_or("unbalanced")?;
                if open != name { return Err(format!("<{open}> closed by </{name}>")) }
                if name == "a" { href = None }
            } else {
                let name: String = tag.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
                let attr = |k: &str| tag.split(&format!(" {k}=\"")).nth(1).and_then(|v| v.split('"').next()).map(&unescape);
                if name == "a" { href = attr("href") }
                if !tag.ends_with('/') { stack.push((name, attr("id"))) }
            }
            continue;
        }
        let end = rest.find('<').unwrap_or(rest.len());
        let text = unescape(rest[..end].trim());
        rest = &rest[end..];
        // ("if" is the only text the generator writes that is neither tag nor reference)
        if text.is_empty() || text == "if" { continue }
        match stack.last().map(|s| s.0.as_str()) {
            Some("mn") => seen.items.push(SeenItem::Num(text)),
            Some("mi") => match text.as_str() { "α" => seen.items.push(SeenItem::Greek("alpha".into())), "β" => seen.items.push(SeenItem::Greek("beta".into())), _ => {} },
            Some("a") => seen.items.push(SeenItem::Ref { href: href.clone().unwrap_or_default(), text }),
            Some("mtext") => {
                let n = stack.len();
                match n.checked_sub(2).map(|k| &stack[k]) {
                    Some((p, _)) if p == "merror" => seen.items.push(SeenItem::Unk(text.trim_start_matches('\\').into())),
                    Some((p, id)) if p == "mtd" => seen.tags.push(SeenTag { text, id: id.clone() }),
                    _ => {}
                }
            }
            _ => {}
        }
    }
    if !stack.is_empty() { return Err("unclosed element".into()) }
    Ok(seen)
}
pub fn pct(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@/?".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}
