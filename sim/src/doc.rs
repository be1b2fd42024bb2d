//! The document model: an independent scanner for delimited formulas, written from the
//! specification, and the reference conversion of a document.
use math_core::{LatexError, LatexToMathML, MathCoreConfig, MathDisplay};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Delims { pub inline: (String, String), pub block: (String, String), pub ignore_escaped: bool }
impl Default for Delims {
    fn default() -> Self { Delims { inline: ("$".into(), "$".into()), block: ("$$".into(), "$$".into()), ignore_escaped: false } }
}

#[derive(Debug, PartialEq)]
pub enum Piece { Text(String), Math(String, bool) }

/// With the byte offsets of the delimiters concerned.
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum ScanErr { Unclosed(usize), Nested(usize), Mismatched(usize, usize) }
impl ScanErr {
    /// Line and column of each, counted from 1 in lines and characters.
    pub fn places(self, doc: &str) -> Vec<(usize, usize)> {
        let place = |at: usize| { let before = &doc[..at]; (1 + before.matches('\n').count(), 1 + before.rsplit('\n').next().unwrap().chars().count()) };
        match self { ScanErr::Unclosed(a) | ScanErr::Nested(a) => vec![place(a)], ScanErr::Mismatched(a, b) => vec![place(a), place(b)] }
    }
}
/// The pairs "line N, column M" of a message.
pub fn places_in(msg: &str) -> Vec<(usize, usize)> {
    let num = |s: &str| s.bytes().take_while(u8::is_ascii_digit).count();
    msg.match_indices("line ").filter_map(|(i, w)| {
        let s = &msg[i + w.len()..];
        let n = num(s);
        let t = s[n..].strip_prefix(", column ")?;
        Some((s[..n].parse().ok()?, t[..num(t)].parse().ok()?))
    }).collect()
}

/// first place at or after the start of `s` where `d` stands (unescaped if asked for)
fn find(s: &[u8], d: &[u8], esc: bool) -> Option<usize> {
    let mut i = 0;
    while i + d.len() <= s.len() {
        if &s[i..i + d.len()] == d {
            if esc && i > 0 && s[i - 1] == b'\\' { i += d.len(); continue }
            return Some(i);
        }
        i += 1;
    }
    None
}
/// the nearest of the two delimiters; at the same place the block one counts
fn nearest(s: &[u8], inl: &str, blk: &str, esc: bool) -> Option<(bool, usize)> {
    match (find(s, inl.as_bytes(), esc), find(s, blk.as_bytes(), esc)) {
        (None, None) => None,
        (Some(i), None) => Some((false, i)),
        (None, Some(b)) => Some((true, b)),
        (Some(i), Some(b)) => Some(if i < b { (false, i) } else { (true, b) }),
    }
}
pub fn scan(doc: &str, d: &Delims) -> (Vec<Piece>, Option<ScanErr>) {
    let mut out = vec![];
    let mut rest = doc;
    let esc = d.ignore_escaped;
    while !rest.is_empty() {
        let Some((block, i)) = nearest(rest.as_bytes(), &d.inline.0, &d.block.0, esc) else {
            out.push(Piece::Text(rest.into()));
            break;
        };
        out.push(Piece::Text(rest[..i].into()));
        let open = if block { &d.block } else { &d.inline };
        let body = &rest[i + open.0.len()..];
        let (at, inside) = (doc.len() - rest.len() + i, doc.len() - body.len());
        let Some((cblock, j)) = nearest(body.as_bytes(), &d.inline.1, &d.block.1, esc) else { return (out, Some(ScanErr::Unclosed(at))) };
        if d.inline.1 != d.block.1 && cblock != block { return (out, Some(ScanErr::Mismatched(at, inside + j))) }
        let content = &body[..j];
        if let Some((_, k)) = nearest(content.as_bytes(), &d.inline.0, &d.block.0, esc) { return (out, Some(ScanErr::Nested(inside + k))) }
        out.push(Piece::Math(content.into(), block));
        let close = if cblock { &d.block.1 } else { &d.inline.1 };
        rest = &body[j + close.len()..];
    }
    (out, None)
}
/// The entities that are decoded inside formulas. What stands between `&` and the next `;` is
/// one reference, known or not (pinned by the repository's own test: `&&amp;` stays).
pub fn decode(s: &str) -> String {
    const KNOWN: [(&str, char); 10] = [("lt", '<'), ("gt", '>'), ("amp", '&'), ("quot", '"'), ("apos", '\''),
        ("#34", '"'), ("#38", '&'), ("#39", '\''), ("#60", '<'), ("#62", '>')];
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        let Some(k) = rest[i..].find(';') else { break };
        let name = &rest[i + 1..i + k];
        match KNOWN.iter().find(|(n, _)| *n == name) {
            Some((_, c)) => { out.push_str(&rest[..i]); out.push(*c) }
            None => out.push_str(&rest[..i + k + 1]),
        }
        rest = &rest[i + k + 1..];
    }
    out.push_str(rest);
    out
}

#[derive(Debug, Clone, PartialEq)]
pub enum DocErr {
    /// where the delimiters are that do not pair up
    Scan(Vec<(usize, usize)>),
    /// report of the error
    Latex(String),
}
/// What the library reports about an error.
pub fn report(e: &LatexError, src: &str) -> String { report_in("<input>", e, src) }
pub fn report_in(name: &str, e: &LatexError, src: &str) -> String {
    let mut buf = vec![];
    e.to_report(name, false).write((name, ariadne::Source::from(src)), &mut buf).expect("report");
    String::from_utf8(buf).expect("report")
}
pub fn mode(block: bool) -> MathDisplay { if block { MathDisplay::Block } else { MathDisplay::Inline } }

/// The document converted in one fresh session of the library.
pub fn convert(doc: &str, d: &Delims, cfg: MathCoreConfig, continue_on_error: bool) -> Result<String, DocErr> {
    let (pieces, err) = scan(doc, d);
    let mut lib = LatexToMathML::new(cfg).map_err(|e| DocErr::Latex(e.0.error_message()))?;
    let mut out = String::new();
    for p in pieces {
        match p {
            Piece::Text(t) => out.push_str(&t),
            Piece::Math(m, block) => {
                let src = decode(&m);
                match lib.convert_with_global_state(&src, mode(block)) {
                    Ok(r) => out.push_str(&r.mathml),
                    Err(e) if continue_on_error => out.push_str(&error_element(&e, &src, block)),
                    Err(e) => return Err(DocErr::Latex(report(&e, &src))),
                }
            }
        }
    }
    match err { Some(e) => Err(DocErr::Scan(e.places(doc))), None => Ok(out) }
}
pub fn error_element(e: &LatexError, src: &str, block: bool) -> String { e.to_html(src, mode(block), None) }

/// Does a second conversion leave this text alone?
pub fn settled(text: &str, d: &Delims) -> bool {
    let (p, e) = scan(text, d);
    e.is_none() && p.iter().all(|p| matches!(p, Piece::Text(_)))
}
