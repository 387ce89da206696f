//! E1: the unmodified program under a deterministic, serialising scheduler and fault injector.
//!
//! Every thread of the traced processes stops (seccomp + ptrace) before each futex call, each yield and
//! each file operation of interest. Exactly one thread runs at a time; futexes are emulated here, so
//! which thread proceeds is always the scheduler's choice and a deadlock is a state with nothing enabled.
//! Between two stops, the files are in a state that a crash could leave: they are captured there.
use crate::util::*;
use libc::{c_int, pid_t};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::c_void;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{FileExt, MetadataExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, Once};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- files

#[derive(Clone, Debug)]
pub struct FileSt {
    pub ino: u64,
    pub kind: Kind,
}
/// path relative to the world root -> file
#[derive(Clone, Debug, Default)]
pub struct Files(pub BTreeMap<Vec<u8>, FileSt>);

impl Files {
    pub fn capture(root: &Path, dirs: &[String]) -> Files {
        let mut f = Files::default();
        for d in dirs {
            let p = root.join(d);
            if fs::symlink_metadata(&p).is_ok() {
                f.add(root, &p);
            }
        }
        f
    }
    fn add(&mut self, root: &Path, p: &Path) {
        let m = match fs::symlink_metadata(p) {
            Ok(m) => m,
            Err(_) => return,
        };
        let rel = p.strip_prefix(root).unwrap().as_os_str().as_bytes().to_vec();
        let ft = m.file_type();
        let kind = if ft.is_dir() {
            Kind::Dir
        } else if ft.is_symlink() {
            Kind::Link(fs::read_link(p).map(|l| l.as_os_str().as_bytes().to_vec()).unwrap_or_default())
        } else if ft.is_file() {
            Kind::File(fs::read(p).unwrap_or_default())
        } else {
            Kind::Other(m.mode())
        };
        let isdir = kind == Kind::Dir;
        self.0.insert(rel, FileSt { ino: m.ino(), kind });
        if isdir {
            if let Ok(rd) = fs::read_dir(p) {
                for e in rd.flatten() {
                    self.add(root, &e.path());
                }
            }
        }
    }
    /// Replaces the given dirs below `root` by this state.
    pub fn materialise(&self, root: &Path, dirs: &[String]) {
        for d in dirs {
            rm_rf(&root.join(d));
        }
        for (rel, f) in &self.0 {
            let p = root.join(std::ffi::OsStr::from_bytes(rel));
            match &f.kind {
                Kind::Dir => {
                    let _ = fs::create_dir(&p);
                }
                Kind::File(b) => fs::write(&p, b).unwrap(),
                Kind::Link(t) => {
                    let _ = std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(t), &p);
                }
                Kind::Other(_) => {}
            }
        }
    }
    /// Identity up to random temporary names.
    pub fn key(&self) -> u64 {
        let mut named: Vec<(Vec<u8>, u64)> = vec![];
        for (p, f) in &self.0 {
            let s = String::from_utf8_lossy(p);
            let mut name = match s.find("temp-backpak-") {
                Some(i) => format!("{}temp", &s[..i]).into_bytes(),
                None => p.clone(),
            };
            if s.ends_with(".part") {
                name = format!("{}.part", &s[..s.len().saturating_sub(12)]).into_bytes();
            }
            let h = match &f.kind {
                // snapshots hold the absolute source path (and so differ between scratch worlds)
                Kind::File(b) if s.contains(".snapshot") => {
                    let dir = s.split('/').next().unwrap_or("").to_string();
                    name = format!("{dir}/snapshot").into_bytes();
                    match crate::repo::parse_snapshot(b) {
                        Ok(sn) => fnv(&[b"S", &sn.tree, sn.author.as_bytes(), sn.tags.iter().cloned().collect::<Vec<_>>().join(",").as_bytes(), &sn.time.to_le_bytes(), s.ends_with(".snapshot").to_string().as_bytes()]),
                        Err(_) => b.len() as u64,
                    }
                }
                Kind::File(b) => fnv(&[b"F", b]),
                Kind::Dir => 1,
                Kind::Link(t) => fnv(&[b"L", t]),
                Kind::Other(_) => 2,
            };
            named.push((name, h));
        }
        named.sort();
        let mut h = 7u64;
        for (n, x) in named {
            h = fnv(&[&h.to_le_bytes(), &n, &x.to_le_bytes()]);
        }
        h
    }
    /// As `key`, but whatever is in the program's temporary files does not matter (only that they exist).
    pub fn coarse_key(&self) -> u64 {
        let mut f = self.clone();
        for (p, st) in f.0.iter_mut() {
            let s = String::from_utf8_lossy(p);
            if s.contains("temp-backpak-") || s.ends_with(".part") {
                if let Kind::File(b) = &mut st.kind {
                    b.clear();
                }
            }
        }
        f.key()
    }
    /// The same state in another scratch world: snapshots record the absolute source path, and are named
    /// by their contents.
    pub fn relocate(&self, from: &Path, to: &Path) -> Files {
        let (a, b) = (from.as_os_str().as_bytes(), to.as_os_str().as_bytes());
        assert_eq!(a.len(), b.len());
        if a == b {
            return self.clone();
        }
        let mut out = Files::default();
        for (p, st) in &self.0 {
            let s = String::from_utf8_lossy(p).into_owned();
            let mut name = s.clone();
            let mut st = st.clone();
            if s.contains(".snapshot") {
                if let Kind::File(c) = &mut st.kind {
                    let mut i = 0;
                    while i + a.len() <= c.len() {
                        if &c[i..i + a.len()] == a {
                            c[i..i + a.len()].copy_from_slice(b);
                            i += a.len();
                        } else {
                            i += 1;
                        }
                    }
                    if s.ends_with(".snapshot") && !s.contains("temp-backpak-") {
                        if let Ok(sn) = crate::repo::parse_snapshot(c) {
                            let dir = s.rsplit_once('/').map(|x| x.0).unwrap_or("");
                            name = format!("{dir}/{}.snapshot", crate::repo::id_str(&sn.id));
                        }
                    }
                }
            }
            out.0.insert(name.into_bytes(), st);
        }
        out
    }
    pub fn repo(&self, dir: &str) -> crate::repo::Repo {
        let pre = format!("{dir}/");
        crate::repo::Repo::from_files(self.0.iter().filter_map(|(p, f)| {
            let rel = p.strip_prefix(pre.as_bytes())?;
            match &f.kind {
                Kind::File(b) => Some((String::from_utf8_lossy(rel).into_owned(), b.as_slice())),
                _ => None,
            }
        }))
    }
    pub fn names(&self, dir: &str) -> Vec<String> {
        let pre = format!("{dir}/");
        self.0
            .keys()
            .filter_map(|p| p.strip_prefix(pre.as_bytes()))
            .map(|p| String::from_utf8_lossy(p).into_owned())
            .collect()
    }
    pub fn same(&self, o: &Files) -> bool {
        self.0.len() == o.0.len() && self.0.iter().zip(&o.0).all(|((a, x), (b, y))| a == b && x.kind == y.kind)
    }
}

// ---------------------------------------------------------------- what is traced

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Futex,
    Yield,
    /// changes files below the root
    Mutate,
    /// reads files below the root
    Read,
    Exit,
    Random,
    Name,
}

fn classify(nr: i64) -> Option<(Class, &'static str)> {
    use Class::*;
    Some(match nr {
        libc::SYS_futex => (Futex, "futex"),
        libc::SYS_sched_yield => (Yield, "yield"),
        // time is nothing here: sleeping is letting others go first
        libc::SYS_nanosleep | libc::SYS_clock_nanosleep => (Yield, "sleep"),
        libc::SYS_getrandom => (Random, "getrandom"),
        libc::SYS_exit_group => (Exit, "exit_group"),
        libc::SYS_prctl => (Name, "prctl"),
        libc::SYS_write => (Mutate, "write"),
        libc::SYS_pwrite64 => (Mutate, "pwrite"),
        libc::SYS_writev => (Mutate, "writev"),
        libc::SYS_pwritev => (Mutate, "pwritev"),
        libc::SYS_copy_file_range => (Mutate, "copy_file_range"),
        libc::SYS_sendfile => (Mutate, "sendfile"),
        libc::SYS_splice => (Mutate, "splice"),
        libc::SYS_ftruncate => (Mutate, "ftruncate"),
        libc::SYS_truncate => (Mutate, "truncate"),
        libc::SYS_fallocate => (Mutate, "fallocate"),
        libc::SYS_fsync => (Mutate, "fsync"),
        libc::SYS_fdatasync => (Mutate, "fdatasync"),
        libc::SYS_rename => (Mutate, "rename"),
        libc::SYS_renameat => (Mutate, "renameat"),
        libc::SYS_renameat2 => (Mutate, "renameat2"),
        libc::SYS_unlink => (Mutate, "unlink"),
        libc::SYS_unlinkat => (Mutate, "unlinkat"),
        libc::SYS_rmdir => (Mutate, "rmdir"),
        libc::SYS_mkdir => (Mutate, "mkdir"),
        libc::SYS_mkdirat => (Mutate, "mkdirat"),
        libc::SYS_link => (Mutate, "link"),
        libc::SYS_linkat => (Mutate, "linkat"),
        libc::SYS_symlink => (Mutate, "symlink"),
        libc::SYS_symlinkat => (Mutate, "symlinkat"),
        libc::SYS_chmod => (Mutate, "chmod"),
        libc::SYS_fchmod => (Mutate, "fchmod"),
        libc::SYS_fchmodat => (Mutate, "fchmodat"),
        libc::SYS_utimensat => (Mutate, "utimensat"),
        libc::SYS_open | libc::SYS_openat => (Read, "open"),
        libc::SYS_read => (Read, "read"),
        libc::SYS_pread64 => (Read, "pread"),
        libc::SYS_lseek => (Read, "lseek"),
        libc::SYS_getdents64 => (Read, "getdents"),
        libc::SYS_stat | libc::SYS_lstat | libc::SYS_newfstatat | libc::SYS_statx => (Read, "stat"),
        libc::SYS_fstat => (Read, "fstat"),
        libc::SYS_readlink | libc::SYS_readlinkat => (Read, "readlink"),
        libc::SYS_mmap => (Read, "mmap"),
        libc::SYS_fcntl => (Read, "lock"),
        _ => return None,
    })
}

fn filter_program(reads: bool) -> Vec<libc::sock_filter> {
    const LD: u16 = 0x20; // BPF_LD|BPF_W|BPF_ABS
    const JEQ: u16 = 0x15;
    const JGT: u16 = 0x25;
    const RET: u16 = 0x06;
    let mut p = vec![libc::sock_filter { code: LD, jt: 0, jf: 0, k: 0 }];
    let ret = |k: u32| libc::sock_filter { code: RET, jt: 0, jf: 0, k };
    let trace = ret(0x7ff0_0000);
    let allow = ret(0x7fff_0000);
    for nr in 0..460i64 {
        let (c, name) = match classify(nr) {
            Some(x) => x,
            None => continue,
        };
        if c == Class::Read && name != "open" && !reads {
            continue;
        }
        if name == "write" || name == "writev" || name == "read" {
            // not for the standard streams
            p.push(libc::sock_filter { code: JEQ, jt: 0, jf: 4, k: nr as u32 });
            p.push(libc::sock_filter { code: LD, jt: 0, jf: 0, k: 16 });
            p.push(libc::sock_filter { code: JGT, jt: 1, jf: 0, k: 2 });
            p.push(allow);
            p.push(trace);
        } else {
            p.push(libc::sock_filter { code: JEQ, jt: 0, jf: 1, k: nr as u32 });
            p.push(trace);
        }
    }
    p.push(allow);
    p
}

// ---------------------------------------------------------------- scheduling

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Base {
    /// run the current thread until it blocks, then the lowest-numbered one
    Low,
    /// run the current thread until it blocks, then the highest-numbered one
    High,
    /// switch to the next thread at every point
    RoundRobin,
    /// thread k runs only when nothing else can
    Starve(usize),
    /// thread k runs whenever it can
    Prefer(usize),
    /// processes: run process order[i] for count[i] file operations, then the next; the last entry of a process runs to the end
    Procs(Vec<(usize, usize)>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sched {
    pub base: Base,
    /// (point, which alternative): deviations from the base schedule
    pub dev: Vec<(usize, usize)>,
}
impl Sched {
    pub fn low() -> Sched {
        Sched { base: Base::Low, dev: vec![] }
    }
    pub fn text(&self) -> String {
        format!("{:?}{}", self.base, self.dev.iter().map(|(p, a)| format!(" @{p}->{a}")).collect::<String>())
    }
}

#[derive(Clone, Debug)]
pub struct Point {
    /// alternatives to the default choice: thread numbers (a sleeping thread means its timer expires)
    pub alts: Vec<u16>,
    pub thread: usize,
    pub class: Class,
    /// the current thread could have gone on (so a deviation here is a preemption)
    pub preempt: bool,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub proc_: usize,
    pub thread: usize,
    pub class: Class,
    pub name: &'static str,
    pub path: String,
    pub path2: String,
    pub len: u64,
}
impl Op {
    pub fn text(&self) -> String {
        if self.path2.is_empty() {
            format!("{}({})", self.name, self.path)
        } else {
            format!("{}({} -> {})", self.name, self.path, self.path2)
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Inject {
    Errno(i32),
    /// the call transfers half of what was asked (at least 1)
    Short,
    /// SIGKILL to the process instead of executing the operation
    Kill,
}

pub struct Spec<'a> {
    pub cmds: Vec<Command>,
    /// working directory of each
    pub cwds: Vec<PathBuf>,
    pub root: PathBuf,
    pub dirs: Vec<String>,
    pub sched: Sched,
    /// trace reads as well (needed to inject faults into them)
    pub reads: bool,
    /// (operation number, what)
    pub inject: Vec<(usize, Inject)>,
    /// called with the state of the files before each mutation and at the end
    pub observe: Option<&'a mut dyn FnMut(&Instant_)>,
    /// called once, before this operation
    pub at: Option<(usize, &'a mut dyn FnMut())>,
    pub max_points: usize,
    /// the working directory and the repository are on different file systems: renames between them fail
    pub exdev: bool,
}

/// What an observer sees: the op about to happen (None at the end), the files now, and unsynced inodes.
pub struct Instant_<'a> {
    pub n: usize,
    pub op: Option<&'a Op>,
    pub files: &'a Files,
    /// inode -> length known to be on stable storage
    pub synced: &'a HashMap<u64, u64>,
    pub dir_of_cwd: &'a str,
}
impl Instant_<'_> {
    /// The state after a power loss: unsynced data gone. `only`: just this inode's.
    pub fn powerloss(&self, only: Option<u64>) -> Files {
        let mut f = self.files.clone();
        for st in f.0.values_mut() {
            if let Kind::File(b) = &mut st.kind {
                if only.map(|o| o == st.ino).unwrap_or(true) {
                    let keep = self.synced.get(&st.ino).copied().unwrap_or(0) as usize;
                    if keep < b.len() {
                        b.truncate(keep);
                    }
                }
            }
        }
        f
    }
    pub fn unsynced(&self) -> BTreeSet<u64> {
        self.files
            .0
            .values()
            .filter_map(|st| match &st.kind {
                Kind::File(b) if self.synced.get(&st.ino).copied().unwrap_or(0) < b.len() as u64 => Some(st.ino),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub outs: Vec<crate::cli::Out>,
    pub points: Vec<Point>,
    pub ops: Vec<Op>,
    /// deadlock or livelock: who waits for what
    pub hung: Option<String>,
    /// ended by an injected kill
    pub killed: bool,
    pub injected: usize,
    pub threads: usize,
    /// threads the program gave a name to (the others belong to the compression library)
    pub named: Vec<bool>,
    pub timeouts_fired: usize,
}

// ---------------------------------------------------------------- supervisor

#[derive(Clone, Debug, PartialEq)]
enum St {
    /// stopped, can run
    Ready,
    /// stopped before an intercepted call
    AtCall,
    Running,
    Futex { proc_: usize, addr: u64, mask: u32, timed: bool, val: u32 },
    /// blocked inside the kernel on something outside
    External,
    Dead,
}

struct Th {
    tid: pid_t,
    proc_: usize,
    st: St,
    yielded: bool,
    named: bool,
    regs: Option<libc::user_regs_struct>,
    /// deliver this value as the result of the intercepted call when resumed
    ret: Option<i64>,
    sig: c_int,
    op: Option<Op>,
}

struct Pr {
    pid: pid_t,
    mem: fs::File,
    code: Option<i32>,
    signal: Option<i32>,
    exiting: bool,
    rnd: u64,
    alive: bool,
}

static WD: Once = Once::new();
struct WdSlot {
    thread: libc::pthread_t,
    since: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<WdSlot>>> = Mutex::new(vec![]);
extern "C" fn nop(_: c_int) {}
fn now_ms() -> u64 {
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
fn watchdog() {
    WD.call_once(|| unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = nop as *const () as usize;
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(10));
            let now = now_ms();
            for s in SLOTS.lock().unwrap().iter() {
                let t = s.since.load(SeqCst);
                if t != 0 && now > t + 20 {
                    libc::pthread_kill(s.thread, libc::SIGUSR1);
                }
            }
        });
    });
}
thread_local! {
    static SLOT: SlotGuard = SlotGuard::new();
}
struct SlotGuard(Arc<WdSlot>);
impl SlotGuard {
    fn new() -> SlotGuard {
        let s = Arc::new(WdSlot { thread: unsafe { libc::pthread_self() }, since: AtomicU64::new(0) });
        SLOTS.lock().unwrap().push(s.clone());
        SlotGuard(s)
    }
}
impl Drop for SlotGuard {
    fn drop(&mut self) {
        SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &self.0));
    }
}

fn ptrace(req: u32, pid: pid_t, addr: usize, data: usize) -> i64 {
    unsafe { libc::ptrace(req as _, pid, addr as *mut c_void, data as *mut c_void) as i64 }
}

/// Fork/exec under ptrace must not interleave with other forks holding our descriptors open for long;
/// everything we open is close-on-exec, so no lock is needed beyond std's.
pub fn execute(mut spec: Spec) -> Result<Res, String> {
    watchdog();
    run().commands.fetch_add(spec.cmds.len() as u64, Relaxed);
    let cmds = std::mem::take(&mut spec.cmds);
    let mut sup = Sup {
        spec,
        th: vec![],
        pr: vec![],
        free: BTreeSet::new(),
        cur: None,
        res: Res::default(),
        files_synced: HashMap::new(),
        consecutive_timeouts: 0,
        fired: BTreeSet::new(),
        proc_ops: vec![],
        outs: vec![],
        last_event: Instant::now(),
        dead: AtomicBool::new(false),
    };
    let r = sup.go(cmds);
    sup.cleanup();
    r.map(|_| std::mem::take(&mut sup.res))
}

struct Sup<'a> {
    spec: Spec<'a>,
    th: Vec<Th>,
    pr: Vec<Pr>,
    /// pids of helper processes (filters), left to run freely
    free: BTreeSet<pid_t>,
    cur: Option<usize>,
    res: Res,
    files_synced: HashMap<u64, u64>,
    consecutive_timeouts: usize,
    /// threads whose timers expired since anything else ran
    fired: BTreeSet<usize>,
    proc_ops: Vec<usize>,
    outs: Vec<(PathBuf, PathBuf)>,
    last_event: Instant,
    dead: AtomicBool,
}

enum Ev {
    /// tid, status
    Wait(pid_t, c_int),
    /// interrupted by the watchdog
    Tick,
    /// no children left
    None,
}

impl Sup<'_> {
    fn go(&mut self, cmds: Vec<Command>) -> Result<(), String> {
        // everything present at the start is on stable storage
        let f0 = Files::capture(&self.spec.root, &self.spec.dirs);
        for st in f0.0.values() {
            if let Kind::File(b) = &st.kind {
                self.files_synced.insert(st.ino, b.len() as u64);
            }
        }
        for (i, c) in cmds.into_iter().enumerate() {
            self.spawn(i, c)?;
        }
        self.proc_ops = vec![0; self.pr.len()];
        self.observe(None, false);
        loop {
            if self.pr.iter().all(|p| !p.alive) {
                break;
            }
            let next = match self.choose()? {
                Some(n) => n,
                None => break, // hung
            };
            self.resume(next)?;
            self.await_current()?;
            if self.res.points.len() > self.spec.max_points {
                self.res.hung = Some(format!("no end after {} scheduling points", self.spec.max_points));
                break;
            }
        }
        if self.res.hung.is_some() || self.res.killed {
            self.kill_all();
        }
        self.observe(None, true);
        for (i, p) in self.pr.iter().enumerate() {
            let (o, e) = &self.outs[i];
            let raw = fs::read(o).unwrap_or_default();
            let err = fs::read(e).unwrap_or_default();
            self.res.outs.push(crate::cli::Out {
                code: p.code,
                signal: p.signal,
                timed_out: self.res.hung.is_some(),
                out: String::from_utf8_lossy(&raw).into_owned(),
                err: String::from_utf8_lossy(&err).into_owned(),
                raw,
            });
        }
        self.res.threads = self.th.len();
        self.res.named = self.th.iter().enumerate().map(|(i, t)| t.named || i < self.pr.len()).collect();
        Ok(())
    }

    fn observe(&mut self, op: Option<Op>, end: bool) {
        if let Some(f) = self.spec.observe.as_mut() {
            let files = Files::capture(&self.spec.root, &self.spec.dirs);
            let _ = end;
            f(&Instant_ { n: self.res.ops.len(), op: op.as_ref(), files: &files, synced: &self.files_synced, dir_of_cwd: "cwd" });
        }
    }

    fn spawn(&mut self, i: usize, mut c: Command) -> Result<(), String> {
        static OUTN: AtomicU64 = AtomicU64::new(0);
        let n = OUTN.fetch_add(1, SeqCst);
        let o = scratch_base().join(format!("out-{n}"));
        let e = scratch_base().join(format!("err-{n}"));
        c.stdin(Stdio::null())
            .stdout(fs::File::create(&o).map_err(|e| e.to_string())?)
            .stderr(fs::File::create(&e).map_err(|e| e.to_string())?);
        c.env("MC_MONO", "1");
        self.outs.push((o, e));
        let prog = filter_program(self.spec.reads);
        unsafe {
            c.pre_exec(move || {
                libc::setsid();
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                libc::personality(0x0040000);
                if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                let fp = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_ptr() as *mut _ };
                if libc::prctl(libc::PR_SET_SECCOMP, 2, &fp as *const _ as usize, 0, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let ch = c.spawn().map_err(|e| format!("spawn: {e}"))?;
        let pid = ch.id() as pid_t;
        std::mem::forget(ch);
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::__WALL) };
        if r != pid || !libc::WIFSTOPPED(st) {
            return Err(format!("no exec stop (status {st:x})"));
        }
        let opts = libc::PTRACE_O_TRACESECCOMP
            | libc::PTRACE_O_TRACECLONE
            | libc::PTRACE_O_TRACEFORK
            | libc::PTRACE_O_TRACEVFORK
            | libc::PTRACE_O_TRACEEXEC
            | libc::PTRACE_O_EXITKILL;
        if ptrace(libc::PTRACE_SETOPTIONS, pid, 0, opts as usize) != 0 {
            return Err("PTRACE_SETOPTIONS".into());
        }
        let mem = fs::OpenOptions::new()
            .read(true)
            .write(true)
            .open(format!("/proc/{pid}/mem"))
            .map_err(|e| format!("mem: {e}"))?;
        self.pr.push(Pr { pid, mem, code: None, signal: None, exiting: false, rnd: 0x1234_5678 + i as u64, alive: true });
        self.th.push(Th { tid: pid, proc_: i, st: St::Ready, yielded: false, named: false, regs: None, ret: None, sig: 0, op: None });
        Ok(())
    }

    fn wait(&mut self, nohang: bool) -> Ev {
        let mut st = 0;
        SLOT.with(|s| s.0.since.store(now_ms(), SeqCst));
        let r = unsafe {
            libc::waitpid(-1, &mut st, libc::__WALL | 0x2000_0000 /* __WNOTHREAD */ | if nohang { libc::WNOHANG } else { 0 })
        };
        let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(0);
        SLOT.with(|s| s.0.since.store(0, SeqCst));
        if r > 0 {
            Ev::Wait(r, st)
        } else if r == 0 || e == libc::EINTR {
            Ev::Tick
        } else {
            Ev::None
        }
    }

    fn find(&self, tid: pid_t) -> Option<usize> {
        self.th.iter().position(|t| t.tid == tid && t.st != St::Dead)
    }

    /// Lets thread `i` go on from where it is stopped.
    fn resume(&mut self, i: usize) -> Result<(), String> {
        let tid = self.th[i].tid;
        if let Some(ret) = self.th[i].ret.take() {
            if let Some(mut regs) = self.th[i].regs.take() {
                regs.orig_rax = u64::MAX;
                regs.rax = ret as u64;
                if ptrace(libc::PTRACE_SETREGS, tid, 0, &regs as *const _ as usize) != 0 {
                    return self.gone(i);
                }
            }
        }
        self.th[i].regs = None;
        self.th[i].st = St::Running;
        self.th[i].yielded = false;
        self.cur = Some(i);
        let sig = std::mem::replace(&mut self.th[i].sig, 0);
        if ptrace(libc::PTRACE_CONT, tid, 0, sig as usize) != 0 {
            return self.gone(i);
        }
        Ok(())
    }
    fn gone(&mut self, _i: usize) -> Result<(), String> {
        // killed under us (exit_group of another thread); its exit status arrives through wait
        Ok(())
    }

    /// Processes events until the current thread is stopped, blocked or dead.
    fn await_current(&mut self) -> Result<(), String> {
        let mut asleep = 0;
        loop {
            let cur = self.cur.unwrap();
            if self.pr[self.th[cur].proc_].exiting {
                // wait for the whole process to be gone
                if !self.pr[self.th[cur].proc_].alive {
                    return Ok(());
                }
            } else if self.th[cur].st != St::Running {
                return Ok(());
            }
            match self.wait(false) {
                Ev::Wait(t, st) => {
                    asleep = 0;
                    self.last_event = Instant::now();
                    self.handle(t, st)?;
                }
                Ev::Tick => {
                    if self.last_event.elapsed() > Duration::from_secs(60) {
                        return Err("the supervisor lost track of the program".into());
                    }
                    if self.th[cur].st == St::Running && self.sleeping(cur) {
                        asleep += 1;
                        if asleep >= 2 {
                            self.th[cur].st = St::External;
                            return Ok(());
                        }
                    } else {
                        asleep = 0;
                    }
                }
                Ev::None => {
                    for p in self.pr.iter_mut() {
                        p.alive = false;
                    }
                    return Ok(());
                }
            }
        }
    }

    fn sleeping(&self, i: usize) -> bool {
        let t = &self.th[i];
        let s = fs::read_to_string(format!("/proc/{}/task/{}/stat", self.pr[t.proc_].pid, t.tid)).unwrap_or_default();
        matches!(s.rsplit(") ").next().and_then(|r| r.chars().next()), Some('S') | Some('D'))
    }

    fn handle(&mut self, tid: pid_t, st: c_int) -> Result<(), String> {
        if self.free.contains(&tid) || self.find(tid).is_none() {
            return self.handle_free(tid, st);
        }
        let i = self.find(tid).unwrap();
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            self.th[i].st = St::Dead;
            let p = self.th[i].proc_;
            if tid == self.pr[p].pid {
                self.pr[p].alive = false;
                if libc::WIFEXITED(st) {
                    self.pr[p].code = Some(libc::WEXITSTATUS(st));
                } else {
                    self.pr[p].signal = Some(libc::WTERMSIG(st));
                }
                for t in self.th.iter_mut().filter(|t| t.proc_ == p) {
                    t.st = St::Dead;
                }
            }
            // pthread_join waits for the kernel to clear the thread id word
            for t in self.th.iter_mut() {
                if let St::Futex { proc_, val, .. } = t.st {
                    if proc_ == p && val == tid as u32 {
                        t.st = St::Ready;
                        t.ret = Some(0);
                    }
                }
            }
            return Ok(());
        }
        let sig = libc::WSTOPSIG(st);
        let event = st >> 16;
        match event {
            0 => {}
            x if x == libc::PTRACE_EVENT_SECCOMP => return self.at_call(i),
            x if x == libc::PTRACE_EVENT_CLONE || x == libc::PTRACE_EVENT_FORK || x == libc::PTRACE_EVENT_VFORK => {
                let mut child: libc::c_ulong = 0;
                ptrace(libc::PTRACE_GETEVENTMSG, tid, 0, &mut child as *mut _ as usize);
                let child = child as pid_t;
                let mut cst = 0;
                // its first stop (it may have been killed instead)
                if !self.free.remove(&-child) {
                    loop {
                        let r = unsafe { libc::waitpid(child, &mut cst, libc::__WALL) };
                        if r == child || (r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR)) {
                            break;
                        }
                    }
                }
                let p = self.th[i].proc_;
                let same = fs::metadata(format!("/proc/{}/task/{child}", self.pr[p].pid)).is_ok();
                if same {
                    self.th.push(Th { tid: child, proc_: p, st: St::Ready, yielded: false, named: false, regs: None, ret: None, sig: 0, op: None });
                } else {
                    self.free.insert(child);
                    ptrace(libc::PTRACE_CONT, child, 0, 0);
                }
                ptrace(libc::PTRACE_CONT, tid, 0, 0);
                return Ok(());
            }
            _ => {
                ptrace(libc::PTRACE_CONT, tid, 0, 0);
                return Ok(());
            }
        }
        // signal delivery
        let deliver = if sig == libc::SIGTRAP || sig == libc::SIGSTOP { 0 } else { sig };
        if matches!(deliver, libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGKILL) {
            // a handler may still run (Rust's stack-overflow handler); assume death only when it comes
            let caught = self.caught(i, deliver);
            if !caught {
                self.pr[self.th[i].proc_].exiting = true;
            }
        }
        ptrace(libc::PTRACE_CONT, tid, 0, deliver as usize);
        Ok(())
    }

    fn caught(&self, i: usize, sig: c_int) -> bool {
        let s = fs::read_to_string(format!("/proc/{}/status", self.th[i].tid)).unwrap_or_default();
        s.lines()
            .find_map(|l| l.strip_prefix("SigCgt:"))
            .and_then(|h| u64::from_str_radix(h.trim(), 16).ok())
            .map(|m| m & (1 << (sig - 1)) != 0)
            .unwrap_or(false)
    }

    fn handle_free(&mut self, tid: pid_t, st: c_int) -> Result<(), String> {
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            self.free.remove(&tid);
            return Ok(());
        }
        if self.find(tid).is_none() && !self.free.contains(&tid) {
            // a new thread or child seen before its creator's event, or a helper's own child
            let mine = self.pr.iter().any(|p| fs::metadata(format!("/proc/{}/task/{tid}", p.pid)).is_ok());
            if mine {
                self.free.insert(-tid); // remembered for the creator's event
                return Ok(());
            }
            let parent_free = fs::read_to_string(format!("/proc/{tid}/status"))
                .ok()
                .and_then(|s| {
                    let tg: pid_t = s.lines().find_map(|l| l.strip_prefix("Tgid:"))?.trim().parse().ok()?;
                    let pp: pid_t = s.lines().find_map(|l| l.strip_prefix("PPid:"))?.trim().parse().ok()?;
                    Some(self.free.contains(&tg) || self.free.contains(&pp))
                })
                .unwrap_or(true);
            if !parent_free {
                self.free.insert(-tid);
                return Ok(());
            }
            self.free.insert(tid);
            ptrace(libc::PTRACE_CONT, tid, 0, 0);
            return Ok(());
        }
        let sig = libc::WSTOPSIG(st);
        let event = st >> 16;
        let deliver = if event != 0 || sig == libc::SIGTRAP || sig == libc::SIGSTOP { 0 } else { sig };
        ptrace(libc::PTRACE_CONT, tid, 0, deliver as usize);
        Ok(())
    }

    fn read_u32(&self, p: usize, addr: u64) -> Option<u32> {
        let mut b = [0u8; 4];
        self.pr[p].mem.read_exact_at(&mut b, addr).ok()?;
        Some(u32::from_le_bytes(b))
    }
    fn read_str(&self, p: usize, addr: u64) -> String {
        let mut out = vec![];
        let mut a = addr;
        let mut buf = [0u8; 256];
        while out.len() < 4096 {
            let n = (4096 - (a & 4095)).min(256) as usize;
            if self.pr[p].mem.read_exact_at(&mut buf[..n], a).is_err() {
                break;
            }
            if let Some(z) = buf[..n].iter().position(|c| *c == 0) {
                out.extend_from_slice(&buf[..z]);
                break;
            }
            out.extend_from_slice(&buf[..n]);
            a += n as u64;
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    fn fd_path(&self, p: usize, fd: i64) -> String {
        fs::read_link(format!("/proc/{}/fd/{fd}", self.pr[p].pid))
            .map(|x| x.to_string_lossy().into_owned())
            .unwrap_or_default()
    }
    fn at_path(&self, p: usize, dirfd: i64, addr: u64) -> String {
        let s = self.read_str(p, addr);
        if s.starts_with('/') {
            return s;
        }
        let base = if dirfd as i32 == libc::AT_FDCWD {
            self.spec.cwds[p].to_string_lossy().into_owned()
        } else {
            self.fd_path(p, dirfd)
        };
        if s.is_empty() {
            base
        } else {
            format!("{base}/{s}")
        }
    }

    /// Describes the file operation in `r`, if it concerns files below the root.
    fn op(&self, i: usize, r: &libc::user_regs_struct) -> Option<Op> {
        let p = self.th[i].proc_;
        let nr = r.orig_rax as i64;
        let (mut class, name) = classify(nr)?;
        let cwd = libc::AT_FDCWD as i64;
        let (mut path2, mut len) = (String::new(), 0);
        let path = match nr {
            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_read | libc::SYS_pread64 => {
                len = r.rdx;
                self.fd_path(p, r.rdi as i64)
            }
            libc::SYS_writev | libc::SYS_pwritev | libc::SYS_ftruncate | libc::SYS_fallocate | libc::SYS_fsync | libc::SYS_fdatasync | libc::SYS_fchmod
            | libc::SYS_lseek | libc::SYS_getdents64 | libc::SYS_fstat => self.fd_path(p, r.rdi as i64),
            libc::SYS_mmap => {
                if r.r8 as i32 == -1 {
                    return None;
                }
                self.fd_path(p, r.r8 as i32 as i64)
            }
            libc::SYS_fcntl => {
                if ![libc::F_SETLK, libc::F_SETLKW, 37, 38].contains(&(r.rsi as i32)) {
                    return None;
                }
                self.fd_path(p, r.rdi as i64)
            }
            libc::SYS_copy_file_range => {
                len = r.r8;
                self.fd_path(p, r.rdx as i64)
            }
            libc::SYS_sendfile => {
                len = r.r10;
                self.fd_path(p, r.rdi as i64)
            }
            libc::SYS_splice => {
                len = r.r8;
                self.fd_path(p, r.rdx as i64)
            }
            libc::SYS_rename | libc::SYS_link => {
                path2 = self.at_path(p, cwd, r.rsi);
                self.at_path(p, cwd, r.rdi)
            }
            libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat => {
                path2 = self.at_path(p, r.rdx as i32 as i64, r.r10);
                self.at_path(p, r.rdi as i32 as i64, r.rsi)
            }
            libc::SYS_symlink => self.at_path(p, cwd, r.rsi),
            libc::SYS_symlinkat => self.at_path(p, r.rsi as i32 as i64, r.rdx),
            libc::SYS_unlink | libc::SYS_rmdir | libc::SYS_mkdir | libc::SYS_chmod | libc::SYS_truncate | libc::SYS_stat | libc::SYS_lstat | libc::SYS_readlink => {
                self.at_path(p, cwd, r.rdi)
            }
            libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_fchmodat | libc::SYS_readlinkat => self.at_path(p, r.rdi as i32 as i64, r.rsi),
            libc::SYS_newfstatat | libc::SYS_statx => self.at_path(p, r.rdi as i32 as i64, r.rsi),
            libc::SYS_utimensat => {
                if r.rsi == 0 {
                    self.fd_path(p, r.rdi as i64)
                } else {
                    self.at_path(p, r.rdi as i32 as i64, r.rsi)
                }
            }
            libc::SYS_open | libc::SYS_openat => {
                let (pa, fl) = if nr == libc::SYS_open {
                    (self.at_path(p, cwd, r.rdi), r.rsi as i32)
                } else {
                    (self.at_path(p, r.rdi as i32 as i64, r.rsi), r.rdx as i32)
                };
                if fl & (libc::O_CREAT | libc::O_TRUNC) != 0 {
                    class = Class::Mutate;
                }
                pa
            }
            _ => return None,
        };
        let root = self.spec.root.to_string_lossy();
        let rel = |s: &str| -> Option<String> {
            let n = normalise(s);
            n.strip_prefix(&format!("{root}/")).map(|x| x.to_string())
        };
        let rp = rel(&path).or_else(|| if path2.is_empty() { None } else { rel(&path2) })?;
        let p2 = if path2.is_empty() { String::new() } else { rel(&path2).unwrap_or(path2) };
        Some(Op {
            proc_: p,
            thread: i,
            class,
            name: if name == "open" && class == Class::Mutate { "create" } else { name },
            path: rp,
            path2: p2,
            len,
        })
    }

    /// The thread is stopped before an intercepted call.
    fn at_call(&mut self, i: usize) -> Result<(), String> {
        let tid = self.th[i].tid;
        let mut regs: libc::user_regs_struct = unsafe { std::mem::zeroed() };
        if ptrace(libc::PTRACE_GETREGS, tid, 0, &mut regs as *mut _ as usize) != 0 {
            return Ok(()); // killed meanwhile
        }
        let p = self.th[i].proc_;
        let was_external = self.th[i].st == St::External;
        let nr = regs.orig_rax as i64;
        match classify(nr).map(|c| c.0) {
            Some(Class::Random) => {
                let mut left = regs.rsi as usize;
                let mut a = regs.rdi;
                while left > 0 {
                    let pr = &mut self.pr[p];
                    pr.rnd = pr.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (pr.rnd >> 11).to_le_bytes();
                    let n = left.min(8);
                    let _ = pr.mem.write_at(&b[..n], a);
                    a += n as u64;
                    left -= n;
                }
                regs.rax = regs.rsi;
                regs.orig_rax = u64::MAX;
                ptrace(libc::PTRACE_SETREGS, tid, 0, &regs as *const _ as usize);
                ptrace(libc::PTRACE_CONT, tid, 0, 0);
                return Ok(());
            }
            Some(Class::Name) => {
                if regs.rdi == libc::PR_SET_NAME as u64 {
                    self.th[i].named = true;
                }
                ptrace(libc::PTRACE_CONT, tid, 0, 0);
                return Ok(());
            }
            Some(Class::Exit) => {
                self.pr[p].exiting = true;
                self.th[i].st = St::Running;
                ptrace(libc::PTRACE_CONT, tid, 0, 0);
                return Ok(());
            }
            Some(Class::Futex) | Some(Class::Yield) => {
                self.th[i].op = None;
            }
            _ => match self.op(i, &regs) {
                Some(op) if op.class == Class::Mutate || self.spec.reads => self.th[i].op = Some(op),
                _ => {
                    ptrace(libc::PTRACE_CONT, tid, 0, 0);
                    return Ok(());
                }
            },
        }
        self.th[i].regs = Some(regs);
        self.th[i].st = St::AtCall;
        let _ = was_external;
        Ok(())
    }

    /// Picks the next thread to run, executing or emulating its pending call; None: nothing can run.
    fn choose(&mut self) -> Result<Option<usize>, String> {
        let mut idle_ticks = 0;
        loop {
            if self.pr.iter().all(|p| !p.alive) {
                return Ok(self.cur.filter(|_| false));
            }
            // drain what has already happened to threads blocked outside
            if self.th.iter().any(|t| t.st == St::External) || !self.free.is_empty() {
                loop {
                    match self.wait(true) {
                        Ev::Wait(t, st) => {
                            self.last_event = Instant::now();
                            self.handle(t, st)?
                        }
                        _ => break,
                    }
                }
            }
            let mut enabled: Vec<usize> =
                (0..self.th.len()).filter(|i| matches!(self.th[*i].st, St::Ready | St::AtCall)).collect();
            let timed: Vec<usize> =
                (0..self.th.len()).filter(|i| matches!(self.th[*i].st, St::Futex { timed: true, .. })).collect();
            if enabled.is_empty() {
                if self.th.iter().any(|t| t.st == St::External) {
                    idle_ticks += 1;
                    if self.last_event.elapsed() > Duration::from_secs(12) {
                        self.res.hung = Some(format!("blocked outside: {}", self.waiting()));
                        return Ok(None);
                    }
                    if idle_ticks < 8 || timed.is_empty() {
                        match self.wait(false) {
                            Ev::Wait(t, st) => {
                                self.last_event = Instant::now();
                                self.handle(t, st)?;
                            }
                            Ev::Tick => {}
                            Ev::None => return Err("no children".into()),
                        }
                        continue;
                    }
                    idle_ticks = 0;
                } else if timed.is_empty() {
                    self.res.hung = Some(format!("deadlock: {}", self.waiting()));
                    return Ok(None);
                } else {
                    self.consecutive_timeouts += 1;
                    if self.consecutive_timeouts > 40 {
                        self.res.hung = Some(format!("deadlock (only timers left): {}", self.waiting()));
                        return Ok(None);
                    }
                }
                // fire the timers, one thread at a time
                let k = timed[self.res.timeouts_fired % timed.len()];
                self.res.timeouts_fired += 1;
                self.fired.insert(k);
                self.th[k].st = St::Ready;
                self.th[k].ret = Some(-(libc::ETIMEDOUT as i64));
                return Ok(Some(k));
            }
            let fresh: Vec<usize> = enabled.iter().copied().filter(|i| !self.th[*i].yielded).collect();
            let all = enabled.clone();
            if !fresh.is_empty() {
                enabled = fresh;
            } else {
                for i in &all {
                    self.th[*i].yielded = false;
                }
            }
            let cur = self.cur.filter(|c| enabled.contains(c));
            let default = self.default_choice(&enabled, cur);
            // alternatives: other enabled threads (yielded ones too), then expiring a timer
            let mut alts: Vec<usize> = all.iter().copied().filter(|i| *i != default).collect();
            alts.extend(timed.iter().copied());
            let class = match cur.or(self.cur) {
                Some(c) => match &self.th[c].op {
                    Some(o) if self.th[c].st == St::AtCall => o.class,
                    _ => Class::Futex,
                },
                None => Class::Futex,
            };
            let pt = self.res.points.len();
            self.res.points.push(Point { alts: alts.iter().map(|x| *x as u16).collect(), thread: self.cur.unwrap_or(0), class, preempt: cur.is_some() });
            let mut pick = default;
            for (at, alt) in &self.spec.sched.dev {
                if *at == pt && *alt < alts.len() {
                    pick = alts[*alt];
                }
            }
            run().transitions.fetch_add(1, Relaxed);
            if let St::Futex { .. } = self.th[pick].st {
                self.th[pick].st = St::Ready;
                self.th[pick].ret = Some(-(libc::ETIMEDOUT as i64));
            }
            if !timed.contains(&pick) && !self.fired.contains(&pick) {
                self.consecutive_timeouts = 0;
                self.fired.clear();
            }
            // perform the pending call
            if self.th[pick].st == St::AtCall {
                self.cur = Some(pick);
                if !self.perform(pick)? {
                    if self.res.killed {
                        return Ok(None);
                    }
                    continue; // it blocked (or yielded)
                }
            }
            return Ok(Some(pick));
        }
    }

    fn default_choice(&self, enabled: &[usize], cur: Option<usize>) -> usize {
        let lo = enabled[0];
        let hi = *enabled.last().unwrap();
        match &self.spec.sched.base {
            Base::Low => cur.unwrap_or(lo),
            Base::High => cur.unwrap_or(hi),
            Base::RoundRobin => {
                let c = self.cur.unwrap_or(0);
                enabled.iter().copied().find(|i| *i > c).unwrap_or(lo)
            }
            Base::Starve(k) => {
                let others: Vec<usize> = enabled.iter().copied().filter(|i| i != k).collect();
                if others.is_empty() {
                    lo
                } else {
                    cur.filter(|c| c != k).unwrap_or(others[0])
                }
            }
            Base::Prefer(k) => {
                if enabled.contains(k) {
                    *k
                } else {
                    cur.unwrap_or(lo)
                }
            }
            Base::Procs(plan) => {
                // find the segment we are in: segment j is over once its process has done its ops
                let mut done = vec![0usize; self.pr.len()];
                for (p, n) in plan {
                    let upto = done[*p].saturating_add(*n);
                    if self.proc_ops[*p] < upto && self.pr[*p].alive {
                        let own: Vec<usize> = enabled.iter().copied().filter(|i| self.th[*i].proc_ == *p).collect();
                        if let Some(f) = own.first() {
                            return cur.filter(|c| own.contains(c)).unwrap_or(*f);
                        }
                    }
                    done[*p] = upto;
                }
                cur.unwrap_or(lo)
            }
        }
    }

    fn waiting(&self) -> String {
        self.th
            .iter()
            .enumerate()
            .filter(|(_, t)| t.st != St::Dead)
            .map(|(i, t)| {
                let name = fs::read_to_string(format!("/proc/{}/task/{}/comm", self.pr[t.proc_].pid, t.tid)).unwrap_or_default();
                format!(
                    "t{i} {} {}",
                    name.trim(),
                    match &t.st {
                        St::Futex { timed: true, .. } => "sleeps".into(),
                        St::Futex { .. } => "waits".into(),
                        x => format!("{x:?}"),
                    }
                )
            })
            .collect::<Vec<_>>()
            .join(", ")
    }

    /// Executes the intercepted call of thread `i` up to the point of resuming it.
    /// false: the thread cannot be resumed now.
    fn perform(&mut self, i: usize) -> Result<bool, String> {
        let regs = self.th[i].regs.unwrap();
        let p = self.th[i].proc_;
        let nr = regs.orig_rax as i64;
        match nr {
            libc::SYS_futex => {
                let cmd = (regs.rsi as i32) & 0x7f & !256;
                let addr = regs.rdi;
                let val = regs.rdx as u32;
                match cmd {
                    0 | 9 => {
                        // WAIT, WAIT_BITSET
                        let mask = if cmd == 9 { regs.r9 as u32 } else { u32::MAX };
                        match self.read_u32(p, addr) {
                            Some(v) if v == val => {
                                self.th[i].st = St::Futex { proc_: p, addr, mask, timed: regs.r10 != 0, val };
                                return Ok(false);
                            }
                            Some(_) => self.th[i].ret = Some(-(libc::EAGAIN as i64)),
                            None => self.th[i].ret = Some(-(libc::EFAULT as i64)),
                        }
                    }
                    1 | 10 => {
                        let mask = if cmd == 10 { regs.r9 as u32 } else { u32::MAX };
                        let mut n = 0i64;
                        for t in self.th.iter_mut() {
                            if n >= val as i32 as i64 {
                                break;
                            }
                            if let St::Futex { proc_, addr: a, mask: m, .. } = t.st {
                                if proc_ == p && a == addr && (m & mask) != 0 {
                                    t.st = St::Ready;
                                    t.ret = Some(0);
                                    n += 1;
                                }
                            }
                        }
                        self.th[i].ret = Some(n);
                    }
                    3 | 4 => {
                        // (CMP_)REQUEUE: waking everyone is a legal (spurious) outcome
                        let mut n = 0;
                        for t in self.th.iter_mut() {
                            if let St::Futex { proc_, addr: a, .. } = t.st {
                                if proc_ == p && a == addr {
                                    t.st = St::Ready;
                                    t.ret = Some(0);
                                    n += 1;
                                }
                            }
                        }
                        self.th[i].ret = Some(n);
                    }
                    c => return Err(format!("futex command {c} is not emulated")),
                }
                Ok(true)
            }
            libc::SYS_sched_yield | libc::SYS_nanosleep | libc::SYS_clock_nanosleep => {
                self.th[i].yielded = true;
                self.th[i].ret = Some(0);
                self.th[i].st = St::Ready;
                Ok(false)
            }
            _ => {
                let op = match self.th[i].op.take() {
                    Some(o) => o,
                    None => return Ok(true),
                };
                let n = self.res.ops.len();
                if op.class == Class::Mutate {
                    self.observe(Some(op.clone()), false);
                }
                if let Some((k, f)) = self.spec.at.as_mut() {
                    if *k == n {
                        f();
                    }
                }
                self.proc_ops[p] += 1;
                let mut inj = self.spec.inject.iter().find(|(k, _)| *k == n).map(|x| x.1);
                let top = |s: &str| s.split('/').next().unwrap_or("").to_string();
                if self.spec.exdev && inj.is_none() && op.name.starts_with("rename") && top(&op.path) != top(&op.path2) {
                    inj = Some(Inject::Errno(libc::EXDEV));
                    self.res.injected = self.res.injected.wrapping_sub(1);
                }
                let mut failed = false;
                match inj {
                    Some(Inject::Errno(e)) => {
                        self.th[i].ret = Some(-(e as i64));
                        self.res.injected = self.res.injected.wrapping_add(1);
                        failed = true;
                    }
                    Some(Inject::Short) => {
                        let mut r = regs;
                        let c = |x: u64| (x / 2).max(1);
                        match nr {
                            libc::SYS_write | libc::SYS_pwrite64 | libc::SYS_read | libc::SYS_pread64 => r.rdx = c(r.rdx),
                            libc::SYS_copy_file_range | libc::SYS_splice => r.r8 = c(r.r8),
                            libc::SYS_sendfile => r.r10 = c(r.r10),
                            _ => {}
                        }
                        self.res.injected = self.res.injected.wrapping_add(1);
                        ptrace(libc::PTRACE_SETREGS, self.th[i].tid, 0, &r as *const _ as usize);
                    }
                    Some(Inject::Kill) => {
                        self.res.killed = true;
                        self.res.injected = self.res.injected.wrapping_add(1);
                        self.res.ops.push(op);
                        return Ok(false);
                    }
                    None => {}
                }
                if !failed && (op.name == "fsync" || op.name == "fdatasync") {
                    if let Ok(m) = fs::metadata(self.spec.root.join(&op.path)) {
                        self.files_synced.insert(m.ino(), m.len());
                    } else if let Ok(m) = fs::metadata(format!("/proc/{}/fd/{}", self.pr[p].pid, regs.rdi)) {
                        self.files_synced.insert(m.ino(), m.len());
                    }
                }
                self.res.ops.push(op);
                Ok(true)
            }
        }
    }

    fn kill_all(&mut self) {
        for p in &self.pr {
            if p.alive {
                unsafe { libc::kill(p.pid, libc::SIGKILL) };
            }
        }
        for f in &self.free {
            if *f > 0 {
                unsafe { libc::kill(*f, libc::SIGKILL) };
            }
        }
        let t0 = Instant::now();
        while self.pr.iter().any(|p| p.alive) && t0.elapsed() < Duration::from_secs(10) {
            match self.wait(false) {
                Ev::Wait(t, st) => {
                    let _ = self.reap(t, st);
                }
                Ev::Tick => {}
                Ev::None => break,
            }
        }
    }
    fn reap(&mut self, t: pid_t, st: c_int) -> Result<(), String> {
        if libc::WIFSTOPPED(st) {
            ptrace(libc::PTRACE_CONT, t, 0, 0);
            return Ok(());
        }
        self.handle(t, st)
    }

    fn cleanup(&mut self) {
        if self.dead.swap(true, SeqCst) {
            return;
        }
        if self.pr.iter().any(|p| p.alive) || !self.free.is_empty() {
            self.kill_all();
        }
        // helpers
        let t0 = Instant::now();
        self.free.retain(|f| *f > 0);
        while !self.free.is_empty() && t0.elapsed() < Duration::from_secs(2) {
            match self.wait(false) {
                Ev::Wait(t, st) => {
                    let _ = self.reap(t, st);
                }
                Ev::Tick => {}
                Ev::None => break,
            }
        }
        for (o, e) in &self.outs {
            let _ = fs::remove_file(o);
            let _ = fs::remove_file(e);
        }
    }
}

pub fn normalise(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let p = p.strip_suffix(" (deleted)").unwrap_or(p);
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    format!("/{}", out.join("/"))
}
