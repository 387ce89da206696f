//! Scratch space, file-tree scanning, parallel driver and run bookkeeping.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

/// Base directory for everything a run creates. Removed at the end of the run.
pub fn scratch_base() -> &'static Path {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        let pid = std::process::id();
        let shm = Path::new("/dev/shm");
        let mut base = PathBuf::from("/tmp");
        if let Some(b) = std::env::var_os("MC_SCRATCH") {
            base = PathBuf::from(b);
        } else if free_bytes(shm) > 6 << 30 {
            let probe = shm.join(format!("mc-probe-{pid}"));
            if fs::create_dir(&probe).is_ok() {
                let _ = fs::remove_dir(&probe);
                base = shm.to_path_buf();
            }
        }
        let b = base.join(format!("backpak-mc-{pid}"));
        let _ = fs::remove_dir_all(&b);
        fs::create_dir_all(&b).expect("scratch");
        b
    })
}

pub fn free_bytes(p: &Path) -> u64 {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        let mut s: libc::statvfs = std::mem::zeroed();
        if libc::statvfs(c.as_ptr(), &mut s) != 0 {
            return 0;
        }
        s.f_bavail as u64 * s.f_frsize as u64
    }
}

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);

/// A fresh, empty scratch directory, removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let n = SCRATCH_N.fetch_add(1, SeqCst);
        let p = scratch_base().join(format!("w{n:06}"));
        fs::create_dir(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn p(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        rm_rf(&self.0);
    }
}

/// Removes a directory below the scratch base, whatever its permissions.
pub fn rm_rf(p: &Path) {
    assert!(p.starts_with(scratch_base()), "refusing to remove {p:?}");
    if fs::symlink_metadata(p).is_err() {
        return;
    }
    if fs::remove_dir_all(p).is_err() {
        fn open_up(p: &Path) {
            if let Ok(m) = fs::symlink_metadata(p) {
                if m.is_dir() {
                    let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o700));
                    if let Ok(rd) = fs::read_dir(p) {
                        for e in rd.flatten() {
                            open_up(&e.path());
                        }
                    }
                }
            }
        }
        open_up(p);
        let _ = if fs::symlink_metadata(p).map(|m| m.is_dir()).unwrap_or(false) {
            fs::remove_dir_all(p)
        } else {
            fs::remove_file(p)
        };
    }
}

pub fn cpath(p: &Path) -> std::ffi::CString {
    std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap()
}

/// Sets mtime (ns since epoch); atime is pinned far in the future so that relatime never moves it.
pub const PIN_ATIME: i64 = 2_200_000_000;
pub fn set_times(p: &Path, mtime_ns: i128) {
    let sec = mtime_ns.div_euclid(1_000_000_000) as i64;
    let ns = mtime_ns.rem_euclid(1_000_000_000) as i64;
    let ts = [
        libc::timespec { tv_sec: PIN_ATIME.max(sec + 1), tv_nsec: 0 },
        libc::timespec { tv_sec: sec, tv_nsec: ns },
    ];
    let r = unsafe {
        libc::utimensat(libc::AT_FDCWD, cpath(p).as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW)
    };
    assert_eq!(r, 0, "utimensat {p:?}");
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    File(Vec<u8>),
    Dir,
    Link(Vec<u8>),
    Other(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Ent {
    pub kind: Kind,
    pub mode: u32,
    pub mtime: i128,
}

impl Ent {
    pub fn short(&self) -> String {
        match &self.kind {
            Kind::File(b) => format!("file[{}:{}]", b.len(), &hex(&sha224(b))[..8]),
            Kind::Dir => "dir".into(),
            Kind::Link(t) => format!("link->{}", String::from_utf8_lossy(t)),
            Kind::Other(k) => format!("other({k:o})"),
        }
    }
}

/// path relative to the scanned root (never includes the root itself) -> entry
pub type Tree = BTreeMap<Vec<u8>, Ent>;

pub fn scan(root: &Path) -> Tree {
    let mut t = Tree::new();
    scan_into(root, root, &mut t);
    t
}

/// Scans `root` itself under the name `name`, and everything below.
pub fn scan_named(root: &Path, name: &str) -> Tree {
    let mut t = Tree::new();
    let e = match ent(root) {
        Some(e) => e,
        None => return t,
    };
    let isdir = e.kind == Kind::Dir;
    t.insert(name.as_bytes().to_vec(), e);
    if isdir {
        for (k, v) in scan(root) {
            let mut n = name.as_bytes().to_vec();
            n.push(b'/');
            n.extend(k);
            t.insert(n, v);
        }
    }
    t
}

pub fn ent(p: &Path) -> Option<Ent> {
    let m = fs::symlink_metadata(p).ok()?;
    let ft = m.file_type();
    let kind = if ft.is_dir() {
        Kind::Dir
    } else if ft.is_symlink() {
        Kind::Link(fs::read_link(p).ok()?.into_os_string().into_vec())
    } else if ft.is_file() {
        Kind::File(fs::read(p).ok()?)
    } else {
        Kind::Other(m.mode() & 0o170000)
    };
    Some(Ent {
        kind,
        mode: m.mode() & 0o7777,
        mtime: m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128,
    })
}

fn scan_into(root: &Path, dir: &Path, t: &mut Tree) {
    let rd = match fs::read_dir(dir) {
        Ok(r) => r,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let p = e.path();
        if let Some(en) = ent(&p) {
            let rel = p.strip_prefix(root).unwrap().as_os_str().as_bytes().to_vec();
            let isdir = en.kind == Kind::Dir;
            t.insert(rel, en);
            if isdir {
                scan_into(root, &p, t);
            }
        }
    }
}

/// What to compare between two trees.
#[derive(Clone, Copy, Default)]
pub struct Cmp {
    pub mode: bool,
    pub mtime: bool,
}

/// None when equal under `c`; otherwise a description of the first differences.
pub fn tree_diff(want: &Tree, got: &Tree, c: Cmp) -> Option<String> {
    let mut out = vec![];
    let keys: BTreeSet<&Vec<u8>> = want.keys().chain(got.keys()).collect();
    for k in keys {
        let n = String::from_utf8_lossy(k);
        match (want.get(k), got.get(k)) {
            (Some(w), None) => out.push(format!("missing {n} ({})", w.short())),
            (None, Some(g)) => out.push(format!("unexpected {n} ({})", g.short())),
            (Some(w), Some(g)) => {
                if w.kind != g.kind {
                    out.push(format!("{n}: want {} got {}", w.short(), g.short()));
                } else {
                    let link = matches!(w.kind, Kind::Link(_));
                    if c.mode && !link && w.mode != g.mode {
                        out.push(format!("{n}: mode want {:o} got {:o}", w.mode, g.mode));
                    }
                    if c.mtime && !link && w.mtime != g.mtime {
                        out.push(format!("{n}: mtime want {} got {}", w.mtime, g.mtime));
                    }
                }
            }
            _ => {}
        }
        if out.len() > 6 {
            break;
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}

/// Copies a directory tree exactly (modes, times, links). Hard contents copy.
pub fn copy_tree(from: &Path, to: &Path) -> io::Result<()> {
    let m = fs::symlink_metadata(from)?;
    let ft = m.file_type();
    if ft.is_dir() {
        fs::create_dir(to)?;
        for e in fs::read_dir(from)? {
            let e = e?;
            copy_tree(&e.path(), &to.join(e.file_name()))?;
        }
        fs::set_permissions(to, fs::Permissions::from_mode(m.mode() & 0o7777))?;
    } else if ft.is_symlink() {
        std::os::unix::fs::symlink(fs::read_link(from)?, to)?;
    } else if ft.is_file() {
        fs::write(to, fs::read(from)?)?;
        fs::set_permissions(to, fs::Permissions::from_mode(m.mode() & 0o7777))?;
    } else if m.mode() & libc::S_IFMT == libc::S_IFIFO {
        unsafe { libc::mkfifo(cpath(to).as_ptr(), m.mode() & 0o7777) };
    } else {
        return Ok(());
    }
    let ts = [
        libc::timespec { tv_sec: m.atime(), tv_nsec: m.atime_nsec() },
        libc::timespec { tv_sec: m.mtime(), tv_nsec: m.mtime_nsec() },
    ];
    unsafe {
        libc::utimensat(libc::AT_FDCWD, cpath(to).as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW);
    }
    Ok(())
}

pub fn sha224(b: &[u8]) -> [u8; 28] {
    use sha2::{Digest, Sha224};
    let d = Sha224::digest(b);
    let mut o = [0u8; 28];
    o.copy_from_slice(&d[..]);
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// Small non-cryptographic content generator: incompressible, deterministic.
pub fn noise(seed: u64, len: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.wrapping_mul(0x2545F4914F6CDD1D).to_le_bytes());
    }
    v.truncate(len);
    v
}

/// Runs `f` on every item on all cores; results in order. `f` may stop early through `Run::stop`.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<Option<R>> {
    par_map_n(items, nthreads(), f)
}
pub fn par_map_n<T: Sync, R: Send>(
    items: &[T],
    threads: usize,
    f: impl Fn(usize, &T) -> R + Sync,
) -> Vec<Option<R>> {
    let next = AtomicUsize::new(0);
    let out: Vec<Mutex<Option<R>>> = items.iter().map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for _ in 0..threads.min(items.len().max(1)) {
            s.spawn(|| loop {
                if run().stopped() {
                    break;
                }
                let i = next.fetch_add(1, SeqCst);
                if i >= items.len() {
                    break;
                }
                let r = f(i, &items[i]);
                *out[i].lock().unwrap() = Some(r);
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub key: String,
    pub what: String,
    pub replay: String,
}

/// Bookkeeping of one check run.
pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub violations: Mutex<Vec<Violation>>,
    pub commands: AtomicU64,
    pub transitions: AtomicU64,
    pub evaluations: AtomicU64,
    pub traces: AtomicU64,
    pub states: Mutex<BTreeSet<u64>>,
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, String>>,
    pub assumptions: Mutex<BTreeSet<String>>,
    pub truncated: AtomicBool,
    pub errors: Mutex<Vec<String>>,
    halt: AtomicBool,
}

static RUN: OnceLock<Run> = OnceLock::new();
pub fn init_run(prop: &str) {
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough {
        3000
    } else {
        240
    });
    let _ = RUN.set(Run {
        prop: prop.into(),
        thorough,
        seed,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        violations: Default::default(),
        commands: Default::default(),
        transitions: Default::default(),
        evaluations: Default::default(),
        traces: Default::default(),
        states: Default::default(),
        outcomes: Default::default(),
        samples: Default::default(),
        extra: Default::default(),
        assumptions: Default::default(),
        truncated: AtomicBool::new(false),
        errors: Default::default(),
        halt: AtomicBool::new(false),
    });
}
pub fn run() -> &'static Run {
    RUN.get().expect("run not initialised")
}

impl Run {
    /// Should exploration stop (enough violations, engine error, or the time budget is gone)?
    pub fn stopped(&self) -> bool {
        if self.halt.load(Relaxed) {
            return true;
        }
        if self.start.elapsed() > self.budget {
            self.truncated.store(true, SeqCst);
            self.halt.store(true, SeqCst);
            return true;
        }
        false
    }
    pub fn violation(&self, key: impl Into<String>, what: impl Into<String>, replay: impl Into<String>) {
        let v = Violation { key: key.into(), what: what.into(), replay: replay.into() };
        let known = crate::report::is_known(&self.prop, &v.key);
        let mut g = self.violations.lock().unwrap();
        if g.iter().any(|x| x.key == v.key) {
            return;
        }
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!("!! [{}] {}", v.key, v.what);
        }
        g.push(v);
        let fresh = g.iter().filter(|v| !crate::report::is_known(&self.prop, &v.key)).count();
        let max = std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        if !known && fresh >= max {
            self.halt.store(true, SeqCst);
        }
    }
    pub fn error(&self, what: impl Into<String>) {
        self.errors.lock().unwrap().push(what.into());
        self.halt.store(true, SeqCst);
    }
    pub fn state(&self, h: u64) -> bool {
        self.states.lock().unwrap().insert(h)
    }
    pub fn step(&self) {
        self.transitions.fetch_add(1, Relaxed);
    }
    pub fn eval(&self) {
        self.evaluations.fetch_add(1, Relaxed);
    }
    pub fn outcome(&self, k: impl Into<String>) {
        *self.outcomes.lock().unwrap().entry(k.into()).or_insert(0) += 1;
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 12 {
            g.push(s.into());
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().insert(s.into());
    }
}

pub fn fnv(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn hash_tree(t: &Tree, with_times: bool) -> u64 {
    let mut h = 0u64;
    for (k, e) in t {
        let body: Vec<u8> = match &e.kind {
            Kind::File(b) => {
                let mut v = b"F".to_vec();
                v.extend(sha224(b));
                v
            }
            Kind::Dir => b"D".to_vec(),
            Kind::Link(t) => {
                let mut v = b"L".to_vec();
                v.extend(t);
                v
            }
            Kind::Other(_) => b"O".to_vec(),
        };
        let times = if with_times { e.mtime.to_le_bytes().to_vec() } else { vec![] };
        h = h.rotate_left(5) ^ fnv(&[k, &body, &times]);
        h = h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}
