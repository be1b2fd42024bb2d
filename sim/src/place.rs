//! L03: a definition means the same whichever place it was made in. A set of definitions is made in the
//! configuration, in the session (before some call of a history), in the snippets that use them, by
//! `\let` from commands that are gone by then, and over older definitions; all must give the same results.
use crate::hist::{Conv, Kind, LibCase, Op, Res, Snip};
use crate::run::{Stats, Viol, viol};
use crate::util::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Place {
    /// Name, body, and another body for the definitions that are replaced.
    pub defs: Vec<(String, String, String)>,
    /// The snippets that use them.
    pub uses: Vec<(String, bool)>,
    /// The call of the history before which the definitions of the session are made.
    pub at: usize,
}
const NAMES: [&str; 10] = ["zxa", "zxb", "zxA", "zxlonger", "Z", "é", "1", "@", "😀", "-"];
const PIECES: [&str; 104] = [
    "x", "y", "1", "2", "=", "<", "+", "-", "\\pm ", "\\gamma ", "\\sin ", "\\lim ", "\\sum ", "\\int ", "(", ")", "[", "]", "|", "\\|", "\\langle ", "\\rangle ", "'", "!", "\\,", "\\;", ":", ".", ",",
    "\\ldots ", "\\cdots ", "\\dots ", "\\frac{1}{2}", "\\dot{x}", "\\dot ", "\\frac ", "\\not ", "\\not=", "\\mathrm{d}", "\\mathbf{x}", "\\mathbf ", "\\text{a b}", "\\operatorname{op}", "\\left(", "\\right)", "\\middle|",
    "\\mathop{x}", "\\mathbin{x}", "\\mathrel{x}", "\\mathrel ", "\\mathord{+}", "\\bigl(", "\\big|", "{x}", "{}", "_", "^", "_1", "^2", "&", "\\\\", "\\quad ", "\\limits ", "\\nolimits ", "\\displaystyle ", "\\hat ", "\\hat{x}",
    "\\overset{a}{b}", "~", "\\hspace{1em}", "\\color{red}", "\\mathcal ", "\\bm ", "\\begin{matrix}", "\\end{matrix}", "\\int_0^1", "\\to ", "\\colon ", "\\bmod ", "\\pmod{n}", "\\phantom{x}", "\\nonumber ", "\\tag{a}", "\\label{zl}", "\\ref{zl}",
    "\\prime ", "#1", "#1", "#1", "#2", "\\mu ", "\\Big/", "/", "*", "\\Rightarrow ", "\\cup ", "\\vert ", "\\mathchoice{a}{b}{c}{d}", "\\overbrace{x}", "\\underset{x}", "\\xrightarrow{f}", "\\coloneqq ", ":=", "\\begin{equation}x\\end{equation}",
];
const FORMS: [&str; 27] = [
    "x %s y", "-%s", "%s-1", "x-%s", "%s_1^2", "x_%s", "\\frac{%s}{2}", "\\sqrt%s", "\\left(%s\\right)", "\\sin%s x", "+%s+", "x=%s", "\\not%s", "\\hat%s", "\\begin{align}a&%s\\\\%s\\end{align}", "\\left%s x\\right.", "\\mathrm%s",
    "\\text{$%s$}", "\\operatorname{a%s}", "{%s}x", "%s%s", "\\mathbin%s x", "\\big%s", "(%s)", "\\lim_%s x", "%s\\limits_1", "%s,%s\\ref{zl}",
];
const ARGS: [&str; 7] = ["{x}", "{+}", "{=}", "{-1}", "{a+b}", "{}", "z"];

fn nargs(b: &str) -> usize { if b.contains("#2") { 2 } else if b.contains("#1") { 1 } else { 0 } }
fn def(how: &str, name: &str, b: &str) -> String { format!("\\{how}\\{name}{}{{{b}}}", &"#1#2"[..2 * nargs(b)]) }
fn snip(t: String, block: bool) -> Kind { Kind::Session(Snip { toks: vec![], block, cut: None, raw: Some(t), bomb: false }) }
fn body(r: &mut Rng) -> String { (0..*r.pick(&[1, 1, 1, 2, 2, 3, 4])).map(|_| *r.pick(&PIECES)).collect() }

impl Place {
    pub fn generate(r: &mut Rng, ops: usize) -> Place {
        let mut defs: Vec<(String, String, String)> = vec![];
        for _ in 0..r.range(1, 4) {
            let n = r.pick(&NAMES).to_string();
            if !defs.iter().any(|d| d.0 == n) { let (b, old) = (body(r), body(r)); defs.push((n, b, old)) }
        }
        let uses = (0..r.range(1, 4)).map(|_| {
            let mut t = r.pick(&FORMS).to_string();
            while t.contains("%s") {
                let (n, b, _) = r.pick(&defs);
                let args: String = (0..nargs(b)).map(|_| *r.pick(&ARGS)).collect();
                t = t.replacen("%s", &format!("\\{n} {args}"), 1);
            }
            (t, r.chance(1, 2))
        }).collect();
        Place { defs, uses, at: r.below(ops + 1) }
    }
    pub fn shrink(&self) -> Vec<Place> {
        let mut out = vec![];
        for i in 0..self.uses.len() { if self.uses.len() > 1 { let mut c = self.clone(); c.uses.remove(i); out.push(c) } }
        for i in 0..self.defs.len() {
            if self.uses.iter().all(|u| !u.0.contains(&format!("\\{} ", self.defs[i].0))) { let mut c = self.clone(); c.defs.remove(i); out.push(c) }
            for b in ["x", "+"] { if self.defs[i].1 != b && nargs(&self.defs[i].1) == 0 { let mut c = self.clone(); c.defs[i].1 = b.into(); out.push(c) } }
            if self.defs[i].2 != "x" { let mut c = self.clone(); c.defs[i].2 = "x".into(); out.push(c) }
        }
        if self.at > 0 { out.push(Place { at: 0, ..self.clone() }) }
        out
    }
}
/// Does a snippet define a built-in command anew that the bodies use? The class of a body is that of its first
/// token when it is defined, so that its spacing would depend on the order.
fn redefines(t: &str, p: &Place) -> bool {
    let used = |n: &str| p.defs.iter().any(|d| [&d.1, &d.2].iter().any(|b| b.contains(n)));
    t.match_indices('\\').any(|(i, _)| {
        let name: String = t[i..].chars().enumerate().take_while(|(k, c)| *k == 0 || c.is_ascii_alphabetic()).map(|(_, c)| c).collect();
        let before: String = t[..i].chars().rev().take(12).collect::<String>().chars().rev().collect();
        name.len() > 1 && used(&name) && ["def", "let", "command"].iter().any(|k| before.contains(k))
    })
}
const WAYS: [&str; 6] = ["in the configuration", "by the session", "in the snippet", "by \\let from commands of an earlier snippet", "by the session over those of the configuration", "in the snippet over those of the session"];

pub fn judge(case: &LibCase, p: &Place, st: &mut Stats) -> Vec<Viol> {
    let mut base = case.cfg.plain();
    (base.annotation, base.max_exp) = (Some(false), None);
    // a reset forgets the definitions of the session
    let at = case.ops.iter().rposition(|o: &Op| o.kind == Kind::Reset).map_or(0, |k| k + 1).max(p.at.min(case.ops.len()));
    let ops = || case.ops.iter().flat_map(|o| crate::hist::snips(&o.kind));
    if ops().any(|s| s.raw.is_some() && redefines(&s.text(), p)) { return vec![] }
    let mut want: Option<Vec<Res>> = None;
    for (way, what) in WAYS.iter().enumerate() {
        let mut cfg = base.clone();
        let of = |k: usize| p.defs.iter().map(move |d| (d.0.clone(), if k == 1 { d.1.clone() } else { d.2.clone() }));
        if way == 0 { cfg.macros.extend(of(1)) }
        if way == 4 { cfg.macros.extend(of(2)) }
        // a body that no configuration can have
        let Ok(c) = math_core::LatexToMathML::new(cfg.build()) else {
            if way == 4 { continue }
            st.add("definitions refused by a configuration", 1);
            // because of the bodies, as any name that can be defined in a snippet will do
            let mut named = base.clone();
            named.macros.extend(of(1).enumerate().map(|(i, d)| (format!("zx{}", (b'f' + i as u8) as char), d.1)));
            return if math_core::LatexToMathML::new(named.build()).is_ok() { vec![viol("L03", format!("a configuration is refused for the names {:?}", of(1).map(|d| d.0).collect::<Vec<_>>()))] } else { vec![] };
        };
        let mut c = Conv(c);
        let all = |how: &str, k: usize| -> String { of(k).map(|(n, b)| def(how, &n, &b)).collect() };
        let first: Vec<String> = match way {
            1 | 4 => vec![all("gdef", 1)],
            3 => vec![p.defs.iter().enumerate().map(|(i, (n, b, _))| { let t = format!("zy{}", (b'a' + i as u8) as char); format!("{}\\global\\let\\{n}\\{t} ", def("def", &t, b)) }).collect()],
            5 => vec![all("gdef", 2)],
            _ => vec![],
        };
        let mut skip = false;
        for i in 0..=case.ops.len() {
            if i == at { for t in &first { if c.call(&snip(t.clone(), false))[0].is_err() { skip = true } } }
            if let Some(o) = case.ops.get(i) { c.call(&o.kind); }
        }
        if skip { if way == 5 || way == 4 { continue } st.add("definitions refused by a snippet", 1); return vec![] }
        let prefix = if way == 2 || way == 5 { all("def", 1) } else { String::new() };
        // errors are at other positions
        let got: Vec<Res> = p.uses.iter().map(|(t, block)| match c.call(&snip(format!("{prefix}{t}"), *block)).remove(0) { Res::Err(_) => Res::Err("an error".into()), r => r }).collect();
        st.add("definitions made in another place", 1);
        match &want {
            None => want = Some(got),
            Some(w) => if let Some(d) = crate::hist::diff(&got, w) { return vec![viol("L03", format!("definitions made {what} mean something else than {}: {d}", WAYS[0]))] },
        }
    }
    vec![]
}
