//! File-system states: the initial tree of a simulation, replay of the operation log up to any
//! point, and the states a power failure can leave.
use crate::os::*;
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind { Dir, File(Vec<u8>), Link(String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Node { pub kind: Kind, pub mode: u32, pub uid: u32, pub flags: u32, pub fault_at: u32 }
impl Node {
    pub fn nlink(&self, fs: &Fs, me: u32) -> u32 { fs.ents.values().filter(|i| **i == me).count() as u32 }
}
#[derive(Clone, Debug)]
pub struct Fs { pub nodes: Vec<Option<Node>>, pub ents: BTreeMap<(u32, String), u32>, pub root: u32 }

impl Fs {
    pub fn empty() -> Fs {
        let root = Node { kind: Kind::Dir, mode: 0o755, uid: 0, flags: 0, fault_at: 0 };
        Fs { nodes: vec![None, Some(root)], ents: BTreeMap::new(), root: 1 }
    }
    pub fn listing(&self) -> impl Iterator<Item = ((u32, &str), u32)> { self.ents.iter().map(|((p, n), i)| ((*p, n.as_str()), *i)) }
    pub fn node(&self, i: u32) -> &Node { self.nodes[i as usize].as_ref().expect("inode") }
    pub fn node_mut(&mut self, i: u32) -> &mut Node { self.nodes[i as usize].as_mut().expect("inode") }
    pub fn add(&mut self, parent: u32, name: &str, kind: Kind, mode: u32) -> u32 {
        let i = self.nodes.len() as u32;
        self.nodes.push(Some(Node { kind, mode, uid: 0, flags: 0, fault_at: 0 }));
        self.ents.insert((parent, name.to_string()), i);
        i
    }
    pub fn is_dir(&self, i: u32) -> bool { matches!(self.node(i).kind, Kind::Dir) }
    pub fn data(&self, i: u32) -> Option<&[u8]> { match &self.nodes.get(i as usize)?.as_ref()?.kind { Kind::File(d) => Some(d), _ => None } }
    pub fn parent(&self, dir: u32) -> u32 {
        if dir == self.root { return dir }
        self.ents.iter().find(|(_, v)| **v == dir).map(|((p, _), _)| *p).unwrap_or(self.root)
    }
    /// Resolve `path` from directory `cwd`, following links at the end if asked to.
    pub fn resolve(&self, cwd: u32, path: &str, follow: bool) -> Option<u32> { self.resolve_n(cwd, path, follow, 0) }
    fn resolve_n(&self, cwd: u32, path: &str, follow: bool, depth: u32) -> Option<u32> {
        if depth > 40 || path.is_empty() { return None }
        let mut cur = if path.starts_with('/') { self.root } else { cwd };
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty()).collect();
        for (k, p) in parts.iter().enumerate() {
            if !self.is_dir(cur) { return None }
            let next = match *p {
                "." => cur,
                ".." => self.parent(cur),
                p => *self.ents.get(&(cur, p.to_string()))?,
            };
            let last = k + 1 == parts.len();
            cur = match &self.node(next).kind {
                Kind::Link(t) if !last || follow => self.resolve_n(cur, t, true, depth + 1)?,
                _ => next,
            };
        }
        Some(cur)
    }
    /// Every name in the file system (links are not followed).
    pub fn paths(&self) -> BTreeMap<String, u32> {
        let mut kids: BTreeMap<u32, Vec<(&str, u32)>> = BTreeMap::new();
        for ((p, n), i) in self.listing().map(|((p, n), i)| ((p, n), i)) { kids.entry(p).or_default().push((n, i)) }
        let mut out = BTreeMap::new();
        let mut todo = vec![(String::new(), self.root)];
        while let Some((path, d)) = todo.pop() {
            for (n, i) in kids.get(&d).map(|v| v.as_slice()).unwrap_or(&[]) {
                let p = format!("{path}/{n}");
                if self.is_dir(*i) { todo.push((p.clone(), *i)) }
                out.insert(p, *i);
            }
        }
        out
    }
    /// Apply one logged operation.
    pub fn apply(&mut self, l: &LogRec) {
        let r = &l.r;
        match r.op {
            OP_CREATE => { let i = self.put(r.ino, Kind::File(vec![]), r.off); self.ents.insert((r.parent, l.name.clone()), i); }
            OP_MKDIR if r.ret == 0 => { let i = self.put(r.ino, Kind::Dir, 0o755); self.ents.insert((r.parent, l.name.clone()), i); }
            OP_SYMLINK if r.ret == 0 => { let i = self.put(r.ino, Kind::Link(String::from_utf8_lossy(&l.data).into_owned()), 0o777); self.ents.insert((r.parent, l.name.clone()), i); }
            OP_LINK if r.ret == 0 => { self.ents.insert((r.parent2, l.name2.clone()), r.ino); }
            OP_WRITE if r.ino != 0 && r.ret > 0 => self.write(r.ino, r.off, &l.data),
            OP_TRUNC if r.ino != 0 => self.trunc(r.ino, r.len),
            OP_CHMOD if r.ret == 0 && r.ino != 0 => self.node_mut(r.ino).mode = r.len,
            OP_RENAME if r.ret == 0 && r.ino != r.ino2 => {
                self.ents.remove(&(r.parent, l.name.clone()));
                self.ents.insert((r.parent2, l.name2.clone()), r.ino);
            }
            OP_UNLINK | OP_RMDIR if r.ret == 0 => { self.ents.remove(&(r.parent, l.name.clone())); }
            _ => {}
        }
    }
    fn put(&mut self, i: u32, kind: Kind, mode: u32) -> u32 {
        while self.nodes.len() <= i as usize { self.nodes.push(None) }
        self.nodes[i as usize] = Some(Node { kind, mode, uid: 0, flags: 0, fault_at: 0 });
        i
    }
    pub fn write(&mut self, i: u32, off: u32, data: &[u8]) {
        if let Kind::File(d) = &mut self.node_mut(i).kind {
            let end = off as usize + data.len();
            if d.len() < end { d.resize(end, 0) }
            d[off as usize..end].copy_from_slice(data);
        }
    }
    pub fn trunc(&mut self, i: u32, len: u32) {
        if let Kind::File(d) = &mut self.node_mut(i).kind { d.resize(len as usize, 0) }
    }
    pub fn set_data(&mut self, i: u32, data: Vec<u8>) {
        if let Kind::File(d) = &mut self.node_mut(i).kind { *d = data }
    }
    /// Same names, kinds, contents and (for existing objects) permissions?
    pub fn diff(&self, other: &Fs, ignore: &dyn Fn(&str) -> bool) -> Option<String> {
        let (a, b) = (self.paths(), other.paths());
        let all: BTreeSet<&String> = a.keys().chain(b.keys()).collect();
        for p in all {
            if ignore(p) { continue }
            match (a.get(p), b.get(p)) {
                (Some(x), Some(y)) => {
                    let (x, y) = (self.node(*x), other.node(*y));
                    if x.kind != y.kind { return Some(format!("{p}: {} instead of {}", show(&y.kind), show(&x.kind))) }
                    if x.mode != y.mode { return Some(format!("{p}: permissions {:o} instead of {:o}", y.mode, x.mode)) }
                }
                (Some(_), None) => return Some(format!("{p} is gone")),
                (None, Some(y)) => return Some(format!("{p} is new: {}", show(&other.node(*y).kind))),
                (None, None) => {}
            }
        }
        None
    }
}
pub fn show(k: &Kind) -> String {
    match k {
        Kind::Dir => "a directory".into(),
        Kind::Link(t) => format!("a link to {t}"),
        Kind::File(d) => format!("a file of {} bytes ({})", d.len(), brief(d)),
    }
}
pub fn brief(d: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(&d[..d.len().min(60)]).into_owned();
    format!("{s:?}{}", if d.len() > 60 { "..." } else { "" })
}

/// A state that a power failure after the first `upto` operations can leave on the disk.
///
/// Names: a prefix of the directory operations that contains at least those before the last
/// successful fsync of any file or directory. Contents: what was synced, plus any subset of the
/// sectors (512 bytes) of what was written or truncated afterwards.
pub fn power_loss(init: &Fs, log: &[LogRec], upto: usize, rng: &mut Rng) -> Fs {
    let ops = &log[..upto];
    let is_meta = |l: &LogRec| match l.r.op {
        OP_CREATE => true,
        OP_MKDIR | OP_SYMLINK | OP_LINK | OP_UNLINK | OP_RMDIR | OP_RENAME | OP_CHMOD => l.r.ret == 0,
        _ => false,
    };
    let synced = ops.iter().rposition(|l| l.r.op == OP_FSYNC && l.r.ret == 0).unwrap_or(0);
    let meta_ops: Vec<usize> = ops.iter().enumerate().filter(|(_, l)| is_meta(l)).map(|(i, _)| i).collect();
    let lo = meta_ops.iter().filter(|i| **i < synced).count();
    let keep = lo + rng.below(meta_ops.len() - lo + 1);
    let mut fs = init.clone();
    for i in &meta_ops[..keep] { fs.apply(&ops[*i]) }
    // a file created but not recorded does not exist; contents are by inode
    let mut touched: BTreeSet<u32> = BTreeSet::new();
    for l in ops { if matches!(l.r.op, OP_WRITE | OP_TRUNC) && l.r.ino != 0 { touched.insert(l.r.ino); } }
    for ino in touched {
        if fs.nodes.get(ino as usize).is_none_or(|n| n.is_none()) { continue }
        let last_sync = ops.iter().rposition(|l| l.r.op == OP_FSYNC && l.r.ret == 0 && (l.r.ino == ino || l.r.ino == u32::MAX));
        let mut cur = Fs::empty();
        while cur.nodes.len() <= ino as usize { cur.nodes.push(None) }
        cur.nodes[ino as usize] = Some(Node { kind: Kind::File(init.data(ino).unwrap_or(&[]).to_vec()), mode: 0, uid: 0, flags: 0, fault_at: 0 });
        let play = |cur: &mut Fs, range: &[LogRec]| for l in range { if l.r.ino == ino && matches!(l.r.op, OP_WRITE | OP_TRUNC) { cur.apply(l) } };
        let k = last_sync.map(|k| k + 1).unwrap_or(0);
        play(&mut cur, &ops[..k]);
        let durable = cur.data(ino).unwrap().to_vec();
        // writes since then reach the disk in part: stop anywhere, then lose sectors
        let later: Vec<LogRec> = ops[k..].iter().filter(|l| l.r.ino == ino && matches!(l.r.op, OP_WRITE | OP_TRUNC)).cloned().collect();
        if later.is_empty() { fs.set_data(ino, durable); continue }
        let stop = rng.below(later.len() + 1);
        play(&mut cur, &later[..stop]);
        let mut now = cur.data(ino).unwrap().to_vec();
        match rng.below(4) {
            0 => {}
            1 => now.truncate(rng.below(now.len() + 1)),
            _ => {
                let mut s = 0;
                while s < now.len() {
                    let e = (s + 512).min(now.len());
                    if rng.chance(1, 3) {
                        for j in s..e { now[j] = durable.get(j).copied().unwrap_or(0) }
                    }
                    s = e;
                }
            }
        }
        fs.set_data(ino, now);
    }
    fs
}
