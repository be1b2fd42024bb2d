//! Seeded generation of documents, configurations and trees for the command-line simulations.
use crate::doc::Delims;
use crate::util::Rng;
use serde::{Deserialize, Serialize};

/// A valid configuration, writable as TOML and as the library's struct.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    pub pretty: Option<u8>,
    pub macros: Vec<(String, String)>,
    pub xmlns: Option<bool>,
    pub ignore_unknown: Option<bool>,
    pub annotation: Option<bool>,
    pub unreliable: Option<bool>,
    pub global_group: Option<bool>,
    pub unicode_never: Option<bool>,
    pub css_unknown: Option<String>,
    pub indent: Option<u8>, // 255: tab
    pub max_exp: Option<u32>,
    pub id_prefix: Option<String>,
}
impl Cfg {
    pub fn toml(&self) -> String {
        let mut s = String::new();
        let b = |s: &mut String, k: &str, v: &Option<bool>| if let Some(v) = v { s.push_str(&format!("{k} = {v}\n")) };
        if let Some(p) = self.pretty { s.push_str(&format!("pretty-print = \"{}\"\n", ["never", "always", "auto"][p as usize % 3])) }
        b(&mut s, "xml-namespace", &self.xmlns);
        b(&mut s, "ignore-unknown-commands", &self.ignore_unknown);
        b(&mut s, "annotation", &self.annotation);
        b(&mut s, "allow-unreliable-rendering", &self.unreliable);
        b(&mut s, "global-group", &self.global_group);
        if let Some(v) = self.unicode_never { s.push_str(&format!("unicode-substitution = \"{}\"\n", if v { "never" } else { "conventional" })) }
        match self.indent { Some(255) => s.push_str("indentation = \"tab\"\n"), Some(n) => s.push_str(&format!("indentation = {n}\n")), None => {} }
        if let Some(n) = self.max_exp { s.push_str(&format!("max-expansions = {n}\n")) }
        if let Some(p) = &self.id_prefix { s.push_str(&format!("id-prefix = \"{p}\"\n")) }
        if !self.macros.is_empty() {
            s.push_str("\n[macros]\n");
            for (k, v) in &self.macros { s.push_str(&format!("\"{k}\" = '{v}'\n")) }
        }
        if let Some(c) = &self.css_unknown { s.push_str(&format!("\n[css-classes]\nunknown-command = \"{c}\"\n")) }
        s
    }
    /// The same configuration in one of the many ways to write it down.
    pub fn toml_any(&self, r: &mut Rng) -> String {
        if r.chance(1, 3) && !self.macros.iter().any(|m| m.1.contains(|c: char| c.is_control() || c == '\'')) { return self.toml() }
        fn string(r: &mut Rng, s: &str) -> String {
            match r.below(4) {
                0 | 1 if !s.contains('\'') && !s.contains(|c: char| c.is_control()) => format!("'{s}'"),
                2 if !s.contains('\'') && !s.contains(|c: char| c.is_control()) => format!("'''{s}'''"),
                k => {
                    let mut t = String::from("\"");
                    for c in s.chars() {
                        match c {
                            '\\' if k == 3 => t.push_str("\\u005C"),
                            '\\' | '"' => { t.push('\\'); t.push(c) }
                            c if c.is_control() || (!c.is_ascii() && r.chance(1, 2)) => t.push_str(&format!("\\U{:08X}", c as u32)),
                            c => t.push(c),
                        }
                    }
                    t + "\""
                }
            }
        }
        let mut top: Vec<(String, String)> = vec![];
        for (k, v) in [("xml-namespace", self.xmlns), ("ignore-unknown-commands", self.ignore_unknown), ("annotation", self.annotation),
            ("allow-unreliable-rendering", self.unreliable), ("global-group", self.global_group)] {
            if let Some(v) = v { top.push((k.into(), v.to_string())) }
        }
        if let Some(p) = self.pretty { let v = string(r, ["never", "always", "auto"][p as usize % 3]); top.push(("pretty-print".into(), v)) }
        if let Some(v) = self.unicode_never { let v = string(r, if v { "never" } else { "conventional" }); top.push(("unicode-substitution".into(), v)) }
        match self.indent { Some(255) => { let v = string(r, "tab"); top.push(("indentation".into(), v)) } Some(n) => top.push(("indentation".into(), n.to_string())), None => {} }
        if let Some(n) = self.max_exp { top.push(("max-expansions".into(), if r.chance(1, 2) { format!("{n:#x}") } else { n.to_string() })) }
        if let Some(v) = &self.id_prefix { let v = string(r, v); top.push(("id-prefix".into(), v)) }
        let mut tables: Vec<(&str, Vec<(String, String)>)> = vec![];
        let bare = |k: &str| !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric());
        for (t, es) in [("macros", self.macros.clone()), ("css-classes", self.css_unknown.iter().map(|c| ("unknown-command".to_string(), c.clone())).collect())] {
            if es.is_empty() { continue }
            let es: Vec<_> = es.into_iter().map(|(k, v)| (if t == "css-classes" || (bare(&k) && r.chance(1, 2)) { k } else { format!("\"{k}\"") }, string(r, &v))).collect();
            match r.below(3) {
                0 => top.push((t.into(), format!("{{ {} }}", es.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", ")))),
                1 => for (k, v) in es { top.push((format!("{t}.{k}"), v)) },
                _ => tables.push((t, es)),
            }
        }
        for i in (1..top.len()).rev() { let j = r.below(i + 1); top.swap(i, j) }
        if r.chance(1, 2) { tables.reverse() }
        let nl = if r.chance(1, 4) { "\r\n" } else { "\n" };
        let comment = |r: &mut Rng| if r.chance(1, 8) { format!(" {}{nl}", r.pick(&["# [macros]", "# pretty-print = \"sometimes\"", "# é", "#", "# 'x"])) } else { nl.to_string() };
        let mut s = String::new();
        let line = |r: &mut Rng, s: &mut String, k: &str, v: &str| {
            if r.chance(1, 10) { s.push_str(&comment(r)) }
            s.push_str(&format!("{}{k}{eq}{v}", r.pick(&["", "", "", "  "]), eq = r.pick(&[" = ", "=", "\t=  "])));
            s.push_str(&comment(r));
        };
        if r.chance(1, 6) { s.push_str(&format!("# padding comment{nl}").repeat(1 + r.below(800))) }
        for (k, v) in &top { line(r, &mut s, k, v) }
        for (t, es) in &tables {
            s.push_str(&format!("[{t}]"));
            s.push_str(&comment(r));
            for (k, v) in es { line(r, &mut s, k, v) }
        }
        if r.chance(1, 4) { let n = s.trim_end().len(); s.truncate(n) }
        s
    }
    /// Is this a configuration the library accepts?
    pub fn good(&self) -> bool { math_core::LatexToMathML::new(self.build()).is_ok() }
    pub fn build(&self) -> math_core::MathCoreConfig {
        use math_core::*;
        let mut c = MathCoreConfig::default();
        if let Some(p) = self.pretty { c.pretty_print = match p % 3 { 0 => PrettyPrint::Never, 1 => PrettyPrint::Always, _ => PrettyPrint::Auto } }
        c.macros = self.macros.clone();
        if let Some(v) = self.xmlns { c.xml_namespace = v }
        if let Some(v) = self.ignore_unknown { c.ignore_unknown_commands = v }
        if let Some(v) = self.annotation { c.annotation = v }
        if let Some(v) = self.unreliable { c.allow_unreliable_rendering = v }
        if let Some(v) = self.global_group { c.global_group = v }
        if let Some(v) = self.unicode_never { c.unicode_substitution = if v { UnicodeSubstitution::Never } else { UnicodeSubstitution::Conventional } }
        if let Some(v) = &self.css_unknown { c.css_classes.unknown_command = v.clone().into() }
        match self.indent { Some(255) => c.indentation = Indentation::Keyword(IndentKeyword::Tab), Some(n) => c.indentation = Indentation::Spaces(n as usize), None => {} }
        if let Some(n) = self.max_exp { c.max_expansions = MaxExpansions(n) }
        if let Some(p) = &self.id_prefix { c.id_prefix = p.clone() }
        c
    }
    pub fn random(r: &mut Rng) -> Cfg {
        let mut c = Cfg::default();
        let b = |r: &mut Rng| if r.chance(1, 3) { Some(r.chance(1, 2)) } else { None };
        if r.chance(1, 3) { c.pretty = Some(r.below(3) as u8) }
        for (k, v) in [("cfgA", r"\mathbb{R}"), ("cfgB", r"\frac{#1}{#2}"), ("é", r"\acute{e}"), ("cfgD", r"\cfgA^{\cfgB{1}{2}}")] {
            if r.chance(1, 2) || k == "cfgA" { c.macros.push((k.into(), v.into())) }
        }
        if !c.macros.iter().any(|m| m.0 == "cfgB") { c.macros.retain(|m| m.0 != "cfgD") }
        if r.chance(1, 4) { c.macros.clear() }
        if r.chance(1, 20) {
            // a long file
            let k = *r.pick(&[1, 1, 10, 30]); for i in 0..r.range(20, 400) { c.macros.push((format!("fill{}{}", (b'a' + (i % 26) as u8) as char, (b'a' + (i / 26) as u8) as char), "x+".repeat(i % 90 * k))) }
        }
        c.xmlns = b(r); c.ignore_unknown = b(r); c.annotation = b(r); c.unreliable = b(r); c.global_group = b(r); c.unicode_never = b(r);
        if r.chance(1, 4) { c.css_unknown = Some("unk-cls".into()) }
        if r.chance(1, 4) { c.indent = Some(*r.pick(&[0, 2, 4, 255])) }
        if r.chance(1, 4) { c.max_exp = Some(*r.pick(&[0, 1, 3, 5000])) }
        if r.chance(1, 4) { c.id_prefix = Some(r.pick(&["", "p-", "x:"]).to_string()) }
        c
    }
}

pub const MALFORMED: &[&str] = &[
    "invalid_toml", "pretty-print = \"sometimes\"\n", "pretty-print = \n", "max-expansions = -1\n", "xml-namespace = \"yes\"\n",
    "[macros\nR = 'x'\n", "xml-namespace = true\nxml-namespace = true\n", "macros = 3\n", "pretty-print = \"always\"\n[macros]\nR = 'x", 
    "indentation = \"space\"\n", "global-group = 1\n", "[macros]\nR = 4\n", "= 3", "annotation = tru", "max-expansions = 5000000000\n",
    "unicode-substitution = \"aggressive\"\n",
];
/// Macros most of which are refused: with these names, and with these definitions.
pub const BAD_MACRO: &[(&str, &str)] = &[
    ("R", r"\undefd"), ("a1b", "x"), ("", "x"), ("B", r"\cfgA\undefd"), ("U", "x}"), ("V", "{x"), ("W", "#"), ("X", "#1#"), ("a b", "x"), ("éa", "x"), ("Y", "\u{1}"), ("Z", r"\frac{a}{b}"),
    ("cfgZ", r"a\b c"), ("é", r"\sqrt[3"), ("Q", r"é\undefd"), ("T", r"\text{ab"),
];

#[derive(Clone, Copy, Default)]
/// `edges`: how often (in percent) a piece ends near a power of two, where the search for the
/// next delimiter might change its step.
pub struct DocOpt { pub fail: usize, pub size: usize, pub stray: usize, pub entities: bool, pub edges: usize }

const PLAIN: &[&str] = &["x", "x_1^2", r"\frac{a}{b}", r"\sqrt{1-\frac{v^2}{c^2}}", r"\alpha+\beta", "a,b", r"\text{if } x", r"\sum_{i=0}^n i", "f(x)=0",
    "", " ", r"\begin{matrix}1&2\\3&4\end{matrix}", r"\left(\frac12\right)", "é", r"\mathbb{R}", "'", r"\operatorname{foo}x", "x\n+y", r"\color{red}x", r"\text{\%\%\%}", "123.5", r"a\;b"];
const FAILING: &[&str] = &[r"\undefd", r"\frac{1}", "}", "x^1^2", r"\begin{foo}x\end{foo}", "{", r"\left(x", r"\begin{matrix}1", r"\sqrt", "#",
    r"\newcommand{\gx}{1}\undefd", r"\def\q{\q}\q", r"\gdef\gy{1}\undefd", r"\begin{align}a\label{dup}\\\undefd\end{align}",
    r"\begin{equation}x\tag{1}\end{equation", r"\newcommand{\alpha}{x}", r"\renewcommand{\undefd}{x}", r"\begin{gather}a\\b\\}\end{gather}", r"\label{x}", r"\let\gz\undefd",
    r"\newcommand{\gu}{1}\newcommand{\gu}{2}", "\u{1}"];

/// What the documents of one case share: names that mean something in several of them.
const SHARED: &[&str] = &["sh:a", "sh:b", "eq:1"];

/// One formula body; `st` is how many equations and global commands this document has made so far,
/// `kinds` the kinds of formulas it is made of.
fn formula(r: &mut Rng, o: &DocOpt, st: &mut (usize, usize), kinds: &[usize]) -> String {
    if o.fail > 0 && r.chance(o.fail, 100) { return r.pick(FAILING).to_string() }
    match *r.pick(kinds) {
        0..=6 => r.pick(PLAIN).to_string(),
        7 => { st.0 += 1; format!(r"\begin{{equation}}x_{{{}}}\label{{eq:{}}}\end{{equation}}", st.0, st.0) }
        8 => { let k = st.0; st.0 += 3; format!(r"\begin{{align}}a&=b\label{{eq:{}}}\\c&=d\\e&=f\tag{{T{}}}\label{{eq:{}}}\end{{align}}", k + 1, k, k + 3) }
        9 => format!(r"\eqref{{eq:{}}}", r.below(st.0 + 2)),
        10 => { st.1 += 1; format!(r"\gdef\g{}{{{}}}x", letters(st.1), 100 + st.1) }
        11 if st.1 > 0 => format!(r"\g{}+1", letters(r.range(1, st.1))),
        12 => format!(r"\newcommand{{\lx}}{{{}}}\lx", r.below(100)),
        13 if o.entities => r.pick(&["a&lt;b", "a &gt; b", "\\text{&amp;}", "\\text{&quot;&apos;}", "x&#60;y&#62;z", "\\begin{matrix}a&amp;b\\end{matrix}", "\\begin{matrix}a&b;c\\end{matrix}", "\\text{&#39;&#34;&#38;}"]).to_string(),
        14 => { st.0 += 2; r"\begin{gather}p\\q\notag\\r\end{gather}".into() }
        // numbers, labels and commands that other documents use as well
        16 => format!(r"\begin{{{}}}x\tag{{{}}}\label{{{}}}\end{{align*}}", "align*", r.pick(&["T", "A.1"]), r.pick(SHARED)),
        17 => format!(r"\begin{{equation}}y\tag{{{}}}\label{{{}}}\end{{equation}}", r.pick(&["T", "S"]), r.pick(SHARED)),
        18 | 19 => format!(r"\eqref{{{}}}", r.pick(SHARED)),
        20 => format!(r"\providecommand{{\sA}}{{{}}}\global\let\sB\sA\sB", r.below(100)),
        21 => format!(r"\providecommand{{\sB}}{{{}}}\sB", r.below(100)),
        22 => format!(r"\gdef\sA{{{}}}\sA", r.below(100)),
        23 => format!(r"\begin{{multline}}a\\b\label{{{}}}\end{{multline}}", r.pick(SHARED)),
        _ => r.pick(PLAIN).to_string(),
    }
}
pub fn letters(mut n: usize) -> String { let mut s = String::new(); loop { s.push((b'a' + (n % 26) as u8) as char); n /= 26; if n == 0 { return s } } }

/// Shortly before, at or after 1024, 2048, 4096 bytes.
fn edge(r: &mut Rng) -> usize { (1024 << *r.pick(&[0, 0, 0, 1, 1, 2, 3])) + r.below(22) - 14 }
/// `s` made exactly `n` bytes long.
fn fit(mut s: String, n: usize) -> String {
    let mut k = n.min(s.len());
    while !s.is_char_boundary(k) { k -= 1 }
    s.truncate(k);
    "a".repeat(n - k) + &s
}
fn filler(r: &mut Rng, d: &Delims, size: usize) -> String {
    const W: &[&str] = &["<p>", "</p>\n", "lorem ", "ipsum ", "\r\n", "é ", "日本 ", "<b>bold</b> ", "&nbsp;", "&amp; ", "\\ ", "\t", "<!-- c -->", "100% ", "a < b ", "𝔸", "\\\\", "x\\y ", "(1) ", "[2] ",
        "<math><mi>x</mi></math>", "<math display=\"block\">", "</math>", "<mathml", "mathcore", "<code>", "</code>", "<pre>\n", "</pre>", "<script>", "</script>", "<style>", "-->", "<!--", "\u{feff}", "<!DOCTYPE html>\n", "</html>\n", "<span class=\"math\">", "<p class=\"math-core-error\">", "<![CDATA[", "\u{7f}"];
    let words = if r.chance(1, 4) { W } else { &W[..20] };
    let mut s = String::new();
    let n = if size > 1500 { size } else { r.below(size + 1) };
    while s.len() < n { s.push_str(r.pick(words)) }
    // no accidental delimiters
    for k in [&d.inline.0, &d.inline.1, &d.block.0, &d.block.1] { if !k.is_empty() { while s.contains(k.as_str()) { s = s.replace(k.as_str(), "") } } }
    if d.ignore_escaped { while s.ends_with('\\') { s.pop(); } }
    s
}

pub fn delims(r: &mut Rng) -> Delims {
    let p = |a: &str, b: &str, c: &str, d: &str| Delims { inline: (a.into(), b.into()), block: (c.into(), d.into()), ignore_escaped: false };
    let mut d = match r.below(14) {
        0..=5 => Delims::default(),
        6 => p(r"\(", r"\)", r"\[", r"\]"),
        7 => p("@@", "@@", "%%%", "%%%"),
        8 => p("«", "»", "«««", "»»»"),
        9 => p("$", "$", r"\[", r"\]"),
        10 => p("$$", "$$", "$", "$"),
        11 => p("<<", ">>", "[[", ">>"),
        12 => p("<tex>", "</tex>", "<TEX>", "</TEX>"),
        _ => p("é", "é", "è", "è"),
    };
    d.ignore_escaped = r.chance(1, 4);
    d
}

/// Parts of delimiters, escaped or not, that stand close together.
fn scraps(r: &mut Rng, d: &Delims) -> String {
    (0..r.range(1, 4)).map(|_| {
        let k: &str = r.pick(&[&d.inline.0, &d.inline.1, &d.block.0, &d.block.1]);
        let c: Vec<char> = k.chars().collect();
        let n = r.range(1, c.len().max(1)).min(c.len());
        let from = r.below(c.len() - n + 1);
        let part: String = c[from..from + n].iter().collect();
        if r.chance(1, 3) { format!("\\{part}") } else { part }
    }).collect()
}

pub fn doc(r: &mut Rng, d: &Delims, o: &DocOpt) -> String {
    let mut s = String::new();
    let mut st = (0, 0);
    let all: Vec<usize> = (0..24).collect();
    let kinds = if r.chance(2, 3) { all } else { let k = r.range(1, 3); let mut v: Vec<usize> = (0..k).map(|_| r.range(7, 23)).collect(); if r.chance(1, 2) { v.push(0) } v };
    let nf = if o.size == 0 { r.below(3) } else { r.below(8) };
    // now and then a document with very many small formulas
    let nf = if o.size > 1500 && r.chance(1, 30) { r.range(100, 700) } else { nf };
    let big = if o.size > 1500 { r.below(nf + 1) } else { usize::MAX };
    for i in 0..=nf {
        let n = if i == big { o.size } else { 60 };
        let mut f = filler(r, d, n);
        if nf < 8 && r.chance(o.edges, 100) { let n = edge(r); f = fit(f, n) }
        s.push_str(&f);
        if i == nf { break }
        if o.stray > 0 && r.chance(o.stray, 100) {
            s.push_str(r.pick(&[d.inline.0.as_str(), d.block.0.as_str(), d.inline.1.as_str(), d.block.1.as_str(), "\\"]));
        }
        if d.ignore_escaped && r.chance(1, 3) { s.push('\\'); s.push_str(r.pick(&[d.inline.0.as_str(), d.block.0.as_str()])); if r.chance(1, 6) { s.push_str(&scraps(r, d)) } s.push(' '); }
        let block = r.chance(1, 2);
        let (op, cl) = if block { &d.block } else { &d.inline };
        let mut f = formula(r, o, &mut st, &kinds);
        if nf < 8 && r.chance(o.edges, 200) { let n = edge(r).saturating_sub(f.len() + 7); f.push_str(&format!("\\text{{{}}}", "a".repeat(n))) }
        for k in [&d.inline.0, &d.inline.1, &d.block.0, &d.block.1] { if f.contains(k.as_str()) { f = "z".into() } }
        if f.is_empty() && d.inline.0 == "$" && !block { f = " ".into() }
        if d.ignore_escaped && r.chance(1, 8) { let t = format!("\\text{{\\{}}}", r.pick(&[d.inline.0.as_str(), d.inline.1.as_str(), d.block.0.as_str(), d.block.1.as_str()])); f.push_str(&t) }
        if f.ends_with('\\') && d.ignore_escaped { f.push(' ') }
        s.push_str(op);
        s.push_str(&f);
        s.push_str(cl);
    }
    s
}
