//! The harness side of the simulated operating system (see simos/simos.h for the layout).
use crate::fs::{Fs, Kind};
use serde::{Deserialize, Serialize};
use std::os::fd::RawFd;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const MAGIC: u64 = 0x53494d4f53303033;
pub const REGION: usize = 48 << 20;
pub const MAX_INO: usize = 1024;
pub const MAX_DENT: usize = 1024;
pub const NAME_LEN: usize = 256;
pub const MAX_PROC: usize = 6;
pub const MAX_DEC: usize = 4096;
pub const INO_OFF: usize = 1 << 16;
pub const DENT_OFF: usize = INO_OFF + MAX_INO * 64;
pub const DEC_OFF: usize = DENT_OFF + MAX_DENT * (NAME_LEN + 16);
pub const LOG_OFF: usize = 1 << 20;
pub const DATA_OFF: usize = 8 << 20;

pub const IF_EIO_READ: u32 = 1;
pub const IF_EIO_LIST: u32 = 2;
pub const IF_OTHERFS: u32 = 4;
pub const IF_EIO_STAT: u32 = 8;

pub const D_ERR: usize = 1;
pub const D_EINTR: usize = 2;
pub const D_SHORT: usize = 3;
pub const D_KILL: usize = 4;
pub const D_SCHED: usize = 5;
pub const D_DIR: usize = 6;
pub const D_LIVE: usize = 7;
pub const D_RAND: usize = 8;
pub const D_CLOCK: usize = 9;
pub const D_MAX: usize = 10;
pub const D_NAMES: [&str; D_MAX] = [
    "none", "lasting error", "interrupted call", "short transfer", "kill", "process switch",
    "directory order", "live directory listing", "random salt", "clock jump",
];

pub const OP_NAMES: [&str; 32] = [
    "none", "open", "read", "write", "close", "stat", "opendir", "readdir", "rename", "unlink",
    "mkdir", "fsync", "truncate", "chmod", "link", "symlink", "readlink", "realpath", "fstat",
    "exit", "rmdir", "lseek", "access", "random", "clock", "create", "chown", "utimes", "lock",
    "killed", "chdir", "escape",
];
pub const OP_OPEN: u16 = 1;
pub const OP_READ: u16 = 2;
pub const OP_WRITE: u16 = 3;
pub const OP_RENAME: u16 = 8;
pub const OP_UNLINK: u16 = 9;
pub const OP_MKDIR: u16 = 10;
pub const OP_FSYNC: u16 = 11;
pub const OP_TRUNC: u16 = 12;
pub const OP_CHMOD: u16 = 13;
pub const OP_LINK: u16 = 14;
pub const OP_SYMLINK: u16 = 15;
pub const OP_RMDIR: u16 = 20;
pub const OP_CREATE: u16 = 25;
pub const OP_KILLED: u16 = 29;
pub const OP_ESCAPE: u16 = 31;
pub const OP_MAX: usize = 32;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CIno {
    pub ty: u32, pub mode: u32, pub nlink: u32, pub uid: u32, pub gid: u32,
    pub size: u32, pub cap: u32, pub data: u32, pub flags: u32, pub fault_at: u32,
    pub opens: u32, pub lock: u32, pub mtime: u32, pub pad: [u32; 3],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CDent { pub used: u32, pub parent: u32, pub ino: u32, pub namelen: u32, pub name: [u8; NAME_LEN] }

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Dec { pub step: u32, pub kind: u32, pub val: u32, #[serde(skip)] pub pad: u32 }

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Rec {
    pub step: u32, pub op: u16, pub pid: u16, pub ret: i32, pub err: i32,
    pub ino: u32, pub ino2: u32, pub parent: u32, pub dent: u32, pub parent2: u32, pub dent2: u32,
    pub off: u32, pub len: u32, pub data: u32, pub fault: u32, pub pad: [u32; 2],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CProc {
    pub state: u32, pub ops: u32, pub cwd: u32, pub umask: u32,
    pub in_data: u32, pub in_len: u32, pub in_pos: u32, pub in_flags: u32, pub in_fault: u32,
    pub out_data: u32, pub out_len: u32, pub out_cap: u32,
    pub err_data: u32, pub err_len: u32, pub err_cap: u32,
    pub out_limit: u32, pub out_errno: u32, pub uid: u32, pub kill_at: u32, pub pad: [u32; 13],
}
#[repr(C)]
pub struct Hdr {
    pub magic: u64, pub rng: u64, pub random: u32, pub ndec: u32, pub step: u32, pub max_steps: u32,
    pub nino: u32, pub ndent: u32, pub bump: u32, pub nlog: u32, pub turn: u32, pub nproc: u32,
    pub overrun: u32, pub disk_free: u32, pub root: u32, pub clock_ms: u32, pub hard_left: u32,
    pub escapes: u32, pub rate: [u32; D_MAX], pub opmask: u32, pub fired: [u32; D_MAX],
    pub fired_op: [u32; OP_MAX], pub count_op: [u32; OP_MAX], pub threads: u32, pub blocked: u32,
    pub natural_enospc: u32, pub natural_eio: u32, pub unsupported: u32, pub startup_turns: u32, pub sched_points: u32, pub pad: u32,
    pub proc_: [CProc; MAX_PROC],
}
const _: () = assert!(size_of::<CIno>() == 64 && size_of::<Rec>() == 64 && size_of::<CProc>() == 128);
const _: () = assert!(size_of::<CDent>() == NAME_LEN + 16 && size_of::<Dec>() == 16);

/// What one simulated process is.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ProcSpec {
    pub args: Vec<String>,
    #[serde(with = "crate::util::bytes")]
    pub stdin: Vec<u8>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub stdin_fault: Option<u32>,
    /// standard output accepts this many bytes, then fails with the errno
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub out_limit: Option<(u32, u32)>,
    #[serde(default)]
    pub uid: u32,
    #[serde(default)]
    pub kill_at: u32,
}

/// Faults and scheduling of one execution.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub seed: u64,
    /// per decision kind: probability in 1/65536
    pub rate: [u32; D_MAX],
    pub hard_left: u32,
    pub opmask: u32,
    pub disk_free: u32,
    pub umask: u32,
    /// given: replay exactly these decisions; absent: draw them from the seed
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub decisions: Option<Vec<Dec>>,
}
impl Plan {
    pub fn quiet() -> Plan {
        Plan { seed: 0, rate: [0; D_MAX], hard_left: 0, opmask: 0, disk_free: 64 << 20, umask: 0o22, decisions: Some(vec![]) }
    }
}

#[derive(Clone, Debug)]
pub struct ProcOut {
    /// exit status; -signal if it died from a signal
    pub code: i32,
    pub killed: bool,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl ProcOut {
    pub fn errtext(&self) -> String { String::from_utf8_lossy(&self.stderr).into_owned() }
}

pub struct RunOut {
    pub procs: Vec<ProcOut>,
    pub end: Fs,
    pub log: Vec<LogRec>,
    pub decisions: Vec<Dec>,
    pub steps: u32,
    pub overrun: u32,
    pub fired: [u32; D_MAX],
    pub fired_op: [u32; OP_MAX],
    pub natural_enospc: u32,
    pub natural_eio: u32,
    pub escapes: u32,
    pub unsupported: u32,
    pub threads: u32,
    pub hung: bool,
    pub clock_ms: u32,
}

/// A log record with its strings and data copied out.
#[derive(Clone, Debug)]
pub struct LogRec { pub r: Rec, pub name: String, pub name2: String, pub data: Vec<u8> }

pub struct World { base: *mut u8, fd: RawFd }
unsafe impl Send for World {}

impl World {
    pub fn new() -> World {
        unsafe {
            let fd = libc::memfd_create(c"simos".as_ptr(), 0);
            assert!(fd >= 0, "memfd_create failed");
            assert_eq!(libc::ftruncate(fd, REGION as i64), 0);
            let p = libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED, "mmap failed");
            World { base: p.cast(), fd }
        }
    }
    fn hdr(&self) -> &mut Hdr { unsafe { &mut *(self.base as *mut Hdr) } }
    fn ino(&self, i: usize) -> &mut CIno { unsafe { &mut *(self.base.add(INO_OFF) as *mut CIno).add(i) } }
    fn dent(&self, i: usize) -> &mut CDent { unsafe { &mut *(self.base.add(DENT_OFF) as *mut CDent).add(i) } }
    fn bytes(&self, off: u32, len: u32) -> &[u8] {
        if off as usize + len as usize > REGION { return &[]; }
        unsafe { std::slice::from_raw_parts(self.base.add(off as usize), len as usize) }
    }
    fn cstr(&self, off: u32) -> String {
        if off == 0 { return String::new(); }
        let b = self.bytes(off, (REGION as u32 - off).min(8192));
        let n = b.iter().position(|c| *c == 0).unwrap_or(0);
        String::from_utf8_lossy(&b[..n]).into_owned()
    }
    fn put(&self, data: &[u8]) -> u32 {
        let h = self.hdr();
        let o = (h.bump + 15) & !15;
        assert!(o as usize + data.len() < REGION, "initial state too large");
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), self.base.add(o as usize), data.len()) };
        h.bump = o + data.len().max(1) as u32;
        o
    }

    /// Run the processes on the file system `fs` (current directory `cwd`) under `plan`.
    pub fn run(&self, bin: &str, so: &str, fs: &Fs, cwd: u32, procs: &[ProcSpec], plan: &Plan) -> RunOut {
        assert!(procs.len() <= MAX_PROC && !procs.is_empty());
        unsafe { std::ptr::write_bytes(self.base, 0, size_of::<Hdr>()) };
        let h = self.hdr();
        h.rng = plan.seed;
        h.random = plan.decisions.is_none() as u32;
        h.max_steps = 20_000;
        h.bump = DATA_OFF as u32;
        h.disk_free = plan.disk_free;
        h.rate = plan.rate;
        h.hard_left = plan.hard_left;
        h.opmask = plan.opmask;
        h.root = fs.root;
        h.nproc = procs.len() as u32;
        if let Some(d) = &plan.decisions {
            h.ndec = d.len().min(MAX_DEC) as u32;
            for (i, x) in d.iter().take(MAX_DEC).enumerate() {
                unsafe { *(self.base.add(DEC_OFF) as *mut Dec).add(i) = *x };
            }
        }
        h.nino = fs.nodes.len() as u32;
        assert!(fs.nodes.len() < MAX_INO - 100 && fs.ents.len() < MAX_DENT - 200);
        for (i, n) in fs.nodes.iter().enumerate() {
            let c = self.ino(i);
            *c = unsafe { std::mem::zeroed() };
            let Some(n) = n else { continue };
            c.mode = n.mode; c.uid = n.uid; c.gid = n.uid; c.flags = n.flags; c.fault_at = n.fault_at; c.nlink = 1;
            match &n.kind {
                Kind::Dir => c.ty = 2,
                Kind::File(d) => { c.ty = 1; c.data = self.put(d); c.size = d.len() as u32; c.cap = c.size; c.nlink = n.nlink(fs, i as u32); }
                Kind::Link(t) => { c.ty = 3; c.data = self.put(t.as_bytes()); c.size = t.len() as u32; c.cap = c.size; }
            }
        }
        h.ndent = 1;
        *self.dent(0) = unsafe { std::mem::zeroed() };
        for ((parent, name), ino) in fs.listing() {
            let d = self.dent(h.ndent as usize);
            *d = unsafe { std::mem::zeroed() };
            d.used = 1; d.parent = parent; d.ino = ino; d.namelen = name.len() as u32;
            d.name[..name.len()].copy_from_slice(name.as_bytes());
            h.ndent += 1;
        }
        for (i, p) in procs.iter().enumerate() {
            let c = &mut h.proc_[i];
            c.state = 1; c.cwd = cwd; c.umask = plan.umask; c.uid = p.uid; c.kill_at = p.kill_at;
            c.in_data = self.put(&p.stdin); c.in_len = p.stdin.len() as u32;
            if let Some(f) = p.stdin_fault { c.in_flags = 1; c.in_fault = f; }
            match p.out_limit { Some((n, e)) => { c.out_limit = n; c.out_errno = e } None => c.out_limit = u32::MAX }
        }
        h.turn = (plan.seed % procs.len() as u64) as u32;
        h.magic = MAGIC;

        let mut kids: Vec<Option<Child>> = procs.iter().enumerate().map(|(i, p)| {
            Some(Command::new(bin).args(&p.args).env_clear()
                .env("LD_PRELOAD", so).env("SIMOS_FD", self.fd.to_string()).env("SIMOS_PID", i.to_string())
                .env("NO_COLOR", "1").env("LANG", "C.UTF-8")
                .current_dir("/").stdin(Stdio::null()).stdout(Stdio::null())
                .stderr(if std::env::var_os("SIMOS_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() })
                .spawn().expect("cannot start the program under test"))
        }).collect();
        for k in kids.iter().flatten() {
            let lim = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
            let mem = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            unsafe {
                libc::prlimit(k.id() as i32, libc::RLIMIT_CPU, &lim, std::ptr::null_mut());
                libc::prlimit(k.id() as i32, libc::RLIMIT_AS, &mem, std::ptr::null_mut());
                libc::prlimit(k.id() as i32, libc::RLIMIT_CORE, &core, std::ptr::null_mut());
            }
        }
        let start = Instant::now();
        let mut codes = vec![0i32; procs.len()];
        let mut hung = false;
        if kids.len() == 1 && false { unreachable!() }
        let mut nap = 20u64;
        loop {
            let mut alive = false;
            let mut progress = false;
            for (i, k) in kids.iter_mut().enumerate() {
                let Some(c) = k else { continue };
                match c.try_wait().expect("wait") {
                    Some(st) => {
                        use std::os::unix::process::ExitStatusExt;
                        codes[i] = st.code().unwrap_or_else(|| -st.signal().unwrap_or(0));
                        *k = None;
                        progress = true;
                        if h.proc_[i].state == 1 { self.hand_over(i) }
                    }
                    None => alive = true,
                }
            }
            if !alive { break }
            if start.elapsed() > Duration::from_secs(60) {
                hung = true;
                for k in kids.iter_mut().flatten() { let _ = k.kill(); }
            }
            if !progress {
                std::thread::sleep(Duration::from_micros(nap));
                nap = (nap + 20).min(2000);
            }
        }
        let log: Vec<LogRec> = (0..h.nlog as usize).map(|i| {
            let r = unsafe { *(self.base.add(LOG_OFF) as *const Rec).add(i) };
            let data = if r.op == OP_WRITE && r.ino != 0 && r.ret > 0 { self.bytes(r.data, r.len).to_vec() }
                else if r.op == OP_SYMLINK { self.bytes(r.data, r.len).to_vec() } else { vec![] };
            LogRec { name: self.cstr(r.dent), name2: self.cstr(r.dent2), data, r }
        }).collect();
        let decisions = match &plan.decisions {
            Some(d) => d.clone(),
            None => (0..h.ndec as usize).map(|i| unsafe { *(self.base.add(DEC_OFF) as *const Dec).add(i) }).collect(),
        };
        let outs = (0..procs.len()).map(|i| {
            let c = &h.proc_[i];
            ProcOut {
                code: codes[i], killed: codes[i] == 137,
                stdout: self.bytes(c.out_data, c.out_len).to_vec(),
                stderr: self.bytes(c.err_data, c.err_len).to_vec(),
            }
        }).collect();
        RunOut {
            procs: outs, end: self.snapshot(), log, decisions, steps: h.step, overrun: h.overrun,
            fired: h.fired, fired_op: h.fired_op,
            natural_enospc: h.natural_enospc, natural_eio: h.natural_eio, escapes: h.escapes,
            unsupported: h.unsupported, threads: h.threads, hung, clock_ms: h.clock_ms,
        }
    }

    /// A process died without leaving the simulation (abort, signal): let the next one run.
    fn hand_over(&self, i: usize) {
        let h = self.hdr();
        h.proc_[i].state = 3;
        if h.turn != i as u32 {
            // it never got the turn again; whoever has it will skip it
            return;
        }
        let n = h.nproc as usize;
        if let Some(j) = (1..n).map(|k| (i + k) % n).find(|j| h.proc_[*j].state == 1) {
            unsafe {
                let t = &raw mut h.turn;
                (*(t as *mut std::sync::atomic::AtomicU32)).store(j as u32, std::sync::atomic::Ordering::Release);
                libc::syscall(libc::SYS_futex, t, libc::FUTEX_WAKE, 64, 0usize, 0usize, 0usize);
            }
        }
    }

    fn snapshot(&self) -> Fs {
        let h = self.hdr();
        let mut fs = Fs::empty();
        fs.root = h.root;
        fs.nodes.clear();
        for i in 0..h.nino as usize {
            let c = self.ino(i);
            let kind = match c.ty {
                1 => Kind::File(self.bytes(c.data, c.size).to_vec()),
                2 => Kind::Dir,
                3 => Kind::Link(String::from_utf8_lossy(self.bytes(c.data, c.size)).into_owned()),
                _ => { fs.nodes.push(None); continue }
            };
            fs.nodes.push(Some(crate::fs::Node { kind, mode: c.mode, uid: c.uid, flags: c.flags, fault_at: c.fault_at }));
        }
        for i in 1..h.ndent as usize {
            let d = self.dent(i);
            if d.used != 0 {
                fs.ents.insert((d.parent, String::from_utf8_lossy(&d.name[..d.namelen as usize]).into_owned()), d.ino);
            }
        }
        fs
    }
}
impl Drop for World {
    fn drop(&mut self) { unsafe { libc::munmap(self.base.cast(), REGION); libc::close(self.fd); } }
}
