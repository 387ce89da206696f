//! Running the real program in a scratch world.
use crate::util::*;
use std::collections::BTreeMap;
use std::fs;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

pub fn bin() -> PathBuf {
    PathBuf::from(std::env::var("MC_BIN").unwrap_or_else(|_| "/repo/target/debug/backpak".into()))
}
pub fn preload() -> Option<PathBuf> {
    std::env::var("MC_PRELOAD").ok().map(PathBuf::from)
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub out: String,
    pub err: String,
    pub raw: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0) && !self.timed_out
    }
    pub fn panicked(&self) -> bool {
        self.code == Some(101) || self.err.contains("panicked at") || self.signal == Some(6)
    }
    pub fn brief(&self) -> String {
        let tail: String = self
            .err
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.contains("note: run with"))
            .rev()
            .take(8)
            .collect::<Vec<_>>()
            .into_iter()
            .rev()
            .collect::<Vec<_>>()
            .join(" | ");
        format!(
            "exit={:?}{}{} {}",
            self.code,
            self.signal.map(|s| format!(" signal={s}")).unwrap_or_default(),
            if self.timed_out { " HUNG" } else { "" },
            tail
        )
    }
}

/// root/{home,cwd,repo,src,...}
pub struct World {
    pub root: PathBuf,
    _own: Option<Scratch>,
    /// Seconds since the epoch that the program will see as the current time (advanced per command).
    pub now: std::cell::Cell<i64>,
    /// The local time zone; `do_backup` changes it from one snapshot to the next.
    pub tz: std::cell::Cell<&'static str>,
    /// Runs the program as this user (and group).
    pub uid: std::cell::Cell<Option<u32>>,
    pub log: std::cell::RefCell<Vec<String>>,
    pub timeout: Duration,
    pub env: Vec<(String, String)>,
    /// The directory commands are run in.
    pub dir: std::cell::Cell<&'static str>,
    /// --config
    pub config: std::cell::RefCell<String>,
}

impl World {
    pub fn new() -> World {
        let s = Scratch::new();
        let root = s.0.clone();
        for d in ["home", "cwd"] {
            fs::create_dir(root.join(d)).unwrap();
        }
        World::at(root, Some(s))
    }
    pub fn at(root: PathBuf, own: Option<Scratch>) -> World {
        World {
            root,
            _own: own,
            now: std::cell::Cell::new(1_700_000_000),
            log: Default::default(),
            timeout: Duration::from_secs(60),
            env: vec![],
            tz: std::cell::Cell::new("UTC"),
            uid: std::cell::Cell::new(None),
            dir: std::cell::Cell::new("cwd"),
            config: Default::default(),
        }
    }
    pub fn p(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }
    pub fn repo(&self) -> PathBuf {
        self.p("repo")
    }
    pub fn cwd(&self) -> PathBuf {
        self.p(self.dir.get())
    }
    pub fn src(&self) -> PathBuf {
        self.p("src")
    }

    pub fn init(&self, args: &[&str]) {
        let mut a = vec!["init", "filesystem"];
        a.extend(args);
        // `init` takes backend options after or before the backend name; callers pass them in `pre`.
        let o = self.bp(&a);
        assert!(o.ok(), "init failed: {}", o.brief());
    }
    pub fn init_pack_size(&self, size: &str) {
        let o = self.bp(&["init", "--pack-size", size, "filesystem"]);
        assert!(o.ok(), "init failed: {}", o.brief());
    }

    pub fn command(&self, args: &[&str], repo: &Path) -> Command {
        let mut c = self.bare();
        c.arg("--config").arg(self.config.borrow().as_str());
        c.arg("--repository").arg(repo);
        c.args(args);
        c
    }
    /// The program without any arguments.
    pub fn bare(&self) -> Command {
        let mut c = Command::new(bin());
        c.env_clear()
            .env("HOME", self.p("home"))
            .env("PATH", "/usr/bin:/bin")
            .env("TZ", self.tz.get())
            .env("MC_NOW", self.now.get().to_string())
            .current_dir(self.cwd())
            .stdin(Stdio::null());
        if let Some(p) = preload() {
            c.env("LD_PRELOAD", p);
        }
        for (k, v) in &self.env {
            c.env(k, v);
        }
        if let Some(u) = self.uid.get() {
            use std::os::unix::process::CommandExt;
            c.uid(u).gid(u);
        }
        c
    }

    /// Runs `backpak <args>` in this world and waits for it.
    pub fn bp(&self, args: &[&str]) -> Out {
        self.bp_repo(args, &self.repo())
    }
    pub fn bp_repo(&self, args: &[&str], repo: &Path) -> Out {
        self.now.set(self.now.get() + 1);
        self.log.borrow_mut().push(format!("backpak {}", args.join(" ")));
        run_command(self.command(args, repo), self.timeout)
    }

    /// Everything in this world belongs to an ordinary user, as whom the program runs from now on.
    /// False if that is not possible here.
    pub fn as_user(&self) -> bool {
        const UID: u32 = 65534;
        if !give(&self.root) {
            return false;
        }
        self.uid.set(Some(UID));
        // what is needed can be reached by that user, too
        self.command(&["--help"], &self.repo()).output().is_ok_and(|o| o.status.success() && o.stderr.is_empty())
    }

    pub fn history(&self) -> String {
        self.log.borrow().join("\n")
    }

    pub fn repo_state(&self) -> crate::repo::Repo {
        crate::repo::Repo::load(&self.repo())
    }
}

/// Gives `p` and all below it to an ordinary user.
pub fn give(p: &Path) -> bool {
    use std::os::unix::fs::{MetadataExt, PermissionsExt};
    const UID: u32 = 65534;
    let Ok(m) = fs::symlink_metadata(p) else { return false };
    if m.uid() != UID && std::os::unix::fs::lchown(p, Some(UID), Some(UID)).is_err() {
        return false;
    }
    // changing the owner drops special bits
    if !m.is_symlink() && fs::set_permissions(p, fs::Permissions::from_mode(m.mode() & 0o7777)).is_err() {
        return false;
    }
    !m.is_dir() || fs::read_dir(p).is_ok_and(|mut d| d.all(|e| e.is_ok_and(|e| give(&e.path()))))
}

pub fn run_command(mut c: Command, timeout: Duration) -> Out {
    run().commands.fetch_add(1, Relaxed);
    unsafe {
        c.pre_exec(|| {
            libc::setsid();
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            Ok(())
        });
    }
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn backpak");
    let pid = ch.id() as i32;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t0 = Instant::now();
    let (mut raw, mut err, mut timed_out) = (vec![], vec![], false);
    let (mut oo, mut eo) = (true, true);
    let mut buf = vec![0u8; 65536];
    while oo || eo {
        use std::os::fd::AsRawFd;
        let mut fds = [
            libc::pollfd { fd: if oo { so.as_raw_fd() } else { -1 }, events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: if eo { se.as_raw_fd() } else { -1 }, events: libc::POLLIN, revents: 0 },
        ];
        let left = timeout.saturating_sub(t0.elapsed());
        if left.is_zero() {
            if timed_out {
                break;
            }
            timed_out = true;
            unsafe {
                libc::kill(-pid, libc::SIGKILL);
                libc::kill(pid, libc::SIGKILL);
            }
            break;
        }
        unsafe { libc::poll(fds.as_mut_ptr(), 2, left.as_millis().min(1000) as i32 + 1) };
        if fds[0].revents != 0 {
            match so.read(&mut buf) {
                Ok(n) if n > 0 => raw.extend_from_slice(&buf[..n]),
                _ => oo = false,
            }
        }
        if fds[1].revents != 0 {
            match se.read(&mut buf) {
                Ok(n) if n > 0 => err.extend_from_slice(&buf[..n]),
                _ => eo = false,
            }
        }
    }
    let st = ch.wait().expect("wait");
    Out {
        code: st.code(),
        signal: st.signal(),
        timed_out,
        out: String::from_utf8_lossy(&raw).into_owned(),
        err: String::from_utf8_lossy(&err).into_owned(),
        raw,
    }
}

/// A source tree description that can be materialised anywhere.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum N {
    F(Vec<u8>, u32, i128),
    D(BTreeMap<String, N>, u32, i128),
    L(String),
}

pub const T0: i128 = 1_600_000_000_000_000_000;

pub fn f(b: &[u8]) -> N {
    N::F(b.to_vec(), 0o644, T0)
}
pub fn ft(b: &[u8], t: i128) -> N {
    N::F(b.to_vec(), 0o644, T0 + t * 1_000_000_000)
}
pub fn d(es: &[(&str, N)]) -> N {
    N::D(es.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), 0o755, T0)
}
pub fn l(t: &str) -> N {
    N::L(t.into())
}

/// Creates `n` at `p` (which must not exist), with exact modes and times.
pub fn build(p: &Path, n: &N) {
    use std::os::unix::fs::PermissionsExt;
    match n {
        N::F(b, m, t) => {
            fs::write(p, b).unwrap();
            fs::set_permissions(p, fs::Permissions::from_mode(*m)).unwrap();
            set_times(p, *t);
        }
        N::L(t) => {
            std::os::unix::fs::symlink(t, p).unwrap();
            set_times(p, T0);
        }
        N::D(es, m, t) => {
            fs::create_dir(p).unwrap();
            for (k, v) in es {
                build(&p.join(k), v);
            }
            fs::set_permissions(p, fs::Permissions::from_mode(*m)).unwrap();
            set_times(p, *t);
        }
    }
}

/// Replaces whatever is at `p` by `n`.
pub fn rebuild(p: &Path, n: &N) {
    rm_rf(p);
    build(p, n);
}

/// The tree `scan` would see for `n` (below it, for a directory).
pub fn tree_of(n: &N) -> Tree {
    let mut t = Tree::new();
    fn go(prefix: &str, n: &N, t: &mut Tree) {
        let e = match n {
            N::F(b, m, tm) => Ent { kind: Kind::File(b.clone()), mode: *m, mtime: *tm },
            N::L(x) => Ent { kind: Kind::Link(x.clone().into_bytes()), mode: 0o777, mtime: T0 },
            N::D(_, m, tm) => Ent { kind: Kind::Dir, mode: *m, mtime: *tm },
        };
        if !prefix.is_empty() {
            t.insert(prefix.as_bytes().to_vec(), e);
        }
        if let N::D(es, _, _) = n {
            for (k, v) in es {
                let p = if prefix.is_empty() { k.clone() } else { format!("{prefix}/{k}") };
                go(&p, v, t);
            }
        }
    }
    go("", n, &mut t);
    t
}

/// As `tree_of`, with the root itself under `name`.
pub fn named_tree(name: &str, n: &N) -> Tree {
    let mut m = BTreeMap::new();
    m.insert(name.to_string(), n.clone());
    tree_of(&N::D(m, 0, 0))
}

pub fn describe(n: &N) -> String {
    match n {
        N::F(b, m, t) => {
            let mut s = if b.len() <= 12 {
                format!("{:?}", String::from_utf8_lossy(b))
            } else {
                format!("<{}B>", b.len())
            };
            if *m != 0o644 {
                s += &format!("m{m:o}");
            }
            if *t != T0 {
                s += &format!("t{:+}", (*t - T0) / 1_000_000_000);
            }
            s
        }
        N::L(t) => format!("@{t}"),
        N::D(es, _, _) => format!(
            "{{{}}}",
            es.iter().map(|(k, v)| format!("{k}:{}", describe(v))).collect::<Vec<_>>().join(",")
        ),
    }
}
