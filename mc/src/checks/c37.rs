//! C37: what surrounds the program.
use super::c36::*;
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::Repo;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::CommandExt;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Dev {
    Umask(u32),
    /// Open files
    Files(u64),
    /// Each directory is a file system of its own.
    Apart,
    Env(&'static str, Option<&'static [u8]>),
    Closed(&'static [i32]),
}
use Dev::*;
impl Dev {
    fn kind(&self) -> String {
        match self {
            Umask(_) => "umask".into(),
            Files(_) => "files".into(),
            Apart => "apart".into(),
            Env(k, _) => format!("env {k}"),
            Closed(_) => "closed".into(),
        }
    }
    /// Some commands cannot be carried out.
    fn may_fail(&self) -> bool {
        match self {
            Files(n) => *n < 64,
            Env("TMPDIR", v) => *v != Some(b""),
            Env("HOME", v) => !matches!(v, Some(b"%root/home") | Some(b"%root/new/home")),
            _ => false,
        }
    }
    /// Affects how results look.
    fn looks(&self) -> bool {
        matches!(self, Env("TZ" | "RUST_LOG" | "CLICOLOR_FORCE" | "LC_ALL" | "LANG", _)) || matches!(self, Closed(c) if c.contains(&1))
            // the time zone cannot be looked up
            || matches!(self, Files(n) if *n < 64)
    }
    fn text(&self) -> String {
        match self {
            Env(k, Some(v)) => format!("{k}={:?}", String::from_utf8_lossy(v)),
            Env(k, None) => format!("no {k}"),
            d => format!("{d:?}"),
        }
    }
}

fn devs() -> Vec<Dev> {
    let mut v = vec![Umask(0), Umask(0o027), Umask(0o077), Apart, Closed(&[0]), Closed(&[1]), Closed(&[2]), Closed(&[0, 1, 2])];
    v.extend([6, 8, 10, 12, 16, 20, 24, 32, 48, 64, 128].map(Files));
    for (k, x) in [
        ("HOME", None),
        ("HOME", Some(&b"%root/none/at/all"[..])),
        ("HOME", Some(b"%root/new/home")),
        ("HOME", Some(b"%root/afile")),
        ("HOME", Some(b"%root/shut")),
        ("HOME", Some(b"%root/h\xff")),
        ("TMPDIR", Some(b"%root/none")),
        ("TMPDIR", Some(b"%root/afile")),
        ("TMPDIR", Some(b"%root/shut")),
        ("TMPDIR", Some(b"%root/h\xff")),
        ("TMPDIR", Some(b"")),
        ("PATH", None),
        ("PWD", Some(b"/none")),
        ("OLDPWD", Some(b"/none")),
        ("LANG", Some(b"C")),
        ("LC_ALL", Some(b"de_DE.UTF-8")),
        ("TZ", Some(b"Asia/Kolkata")),
        ("TZ", Some(b"no/such")),
        ("TZ", None),
        ("USER", Some(b"someone")),
        ("HOSTNAME", Some(b"somewhere")),
        ("COLUMNS", Some(b"1")),
        ("LINES", Some(b"0")),
        ("TERM", Some(b"xterm-256color")),
        ("NO_COLOR", Some(b"1")),
        ("CLICOLOR_FORCE", Some(b"1")),
        ("RUST_BACKTRACE", Some(b"full")),
        ("RUST_LOG", Some(b"trace")),
        ("RUST_LOG", Some(b"=\xff=,,")),
        ("BACKPAK_CONFIG", Some(b"/none")),
        ("XDG_CACHE_HOME", Some(b"/none")),
        ("XDG_CONFIG_HOME", Some(b"/none")),
        ("SQLITE_TMPDIR", Some(b"/none")),
        ("ZSTD_NBTHREADS", Some(b"0")),
        ("ODD", Some(b"\xfe")),
    ] {
        v.push(Env(k, x));
    }
    v
}

fn around() -> Result<World, String> {
    let w = world()?;
    std::fs::write(w.p("afile"), "x").unwrap();
    for d in ["shut", "new"] {
        std::fs::create_dir(w.p(d)).unwrap();
    }
    w.as_user();
    std::fs::set_permissions(w.p("shut"), std::os::unix::fs::PermissionsExt::from_mode(0o500)).unwrap();
    save(&w.root, STATE, "start");
    Ok(w)
}

/// A world of many files, directories, and packs.
fn many() -> Result<World, String> {
    let w = World::new();
    w.init_pack_size("2000B");
    let o = w.bp_repo(&["init", "--pack-size", "2000B", "filesystem"], &w.p("repo2"));
    if !o.ok() {
        return Err(o.brief());
    }
    let at = |i: u64| {
        let kids: Vec<(String, N)> = (0..90).map(|k| (format!("d{k}"), d(&[("f", f(&noise(k / i, 1500))), ("l", l("f"))]))).collect();
        N::D(kids.into_iter().collect(), 0o755, T0)
    };
    for i in [2, 1] {
        rebuild(&w.src(), &at(i));
        cmd_ok(&w, "repo", &["backup", "-a", "me", "../src"])?;
    }
    rebuild(&w.src(), &at(3));
    std::fs::create_dir(w.p("out")).unwrap();
    w.as_user();
    save(&w.root, STATE, "start");
    Ok(w)
}
fn commands_of_many() -> Vec<Cmd> {
    [
        ("backup -a me ../src", false),
        ("check -r", false),
        ("restore -t -p -o ../out LAST", false),
        ("diff LAST~1 LAST", true),
        ("diff LAST", true),
        ("usage", true),
        ("snapshots -s -f --stat", true),
        ("copy -t ../repo2 --all", false),
        ("ls LAST", true),
        ("rebuild-index", false),
        ("filter-snapshot -k -s d1/f$ LAST", false),
        ("forget LAST~1", false),
        ("prune", false),
        ("dump LAST src/d77/f", true),
    ]
    .map(|(line, results)| Cmd { args: ["--config", "", "-r", "../repo"].into_iter().chain(line.split(' ')).map(|a| a.to_string()).collect(), results, goes_on: false })
    .into()
}

struct Ran {
    o: Out,
    effect: Result<Vec<String>, String>,
}

fn go(w: &World, c: &Cmd, devs: &[Dev], reset: bool) -> Ran {
    if reset {
        restore(&w.root, STATE, "start");
        rm_rf(&w.p("new"));
        let _ = std::fs::create_dir(w.p("new"));
        for s in STATE {
            give(&w.p(s));
        }
    }
    w.now.set(1_750_000_000);
    let mut cmd = w.bare();
    cmd.args(&c.args);
    for d in devs {
        match *d {
            Umask(m) => unsafe {
                cmd.pre_exec(move || {
                    libc::umask(m);
                    Ok(())
                });
            },
            Files(n) => unsafe {
                cmd.pre_exec(move || {
                    let lim = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
                    Ok(())
                });
            },
            Apart => {
                cmd.env("MC_XDEV", w.root.canonicalize().unwrap());
            }
            Env(k, None) => {
                cmd.env_remove(k);
            }
            Env(k, Some(v)) => {
                let mut x = v.to_vec();
                if let Some(rest) = v.strip_prefix(b"%root") {
                    x = [w.root.as_os_str().as_bytes(), rest].concat();
                }
                cmd.env(k, std::ffi::OsStr::from_bytes(&x));
            }
            Closed(fds) => unsafe {
                cmd.pre_exec(move || {
                    for f in fds {
                        libc::close(*f);
                    }
                    Ok(())
                });
            },
        }
    }
    let text: Vec<String> = devs.iter().map(|d| d.text()).collect();
    w.log.borrow_mut().push(format!("[{}] backpak {}", text.join(", "), c.args.join(" ")));
    run().step();
    let o = run_command(cmd, w.timeout);
    Ran { o, effect: effect(w) }
}

fn one(w: &World, c: &Cmd, plain: &Ran, ds: &[Dev]) -> Result<(), String> {
    let r = go(w, c, ds, true);
    super::c16::sane(&r.o)?;
    let eff = r.effect.as_ref().map_err(|e| format!("{e} ({})", r.o.brief()))?;
    let want = plain.effect.as_ref().unwrap();
    let ok = plain.o.ok();
    run().outcome(if r.o.ok() { "success" } else { "failure" });
    let differs = |eff: &Vec<String>| -> Option<String> {
        let i = (0..eff.len().max(want.len())).find(|i| eff.get(*i) != want.get(*i))?;
        Some(format!("{:?}, not {:?}", eff.get(i), want.get(i)))
    };
    if r.o.ok() || !ok {
        if r.o.ok() != ok {
            return Err("succeeds, but should be refused".into());
        }
        if let Some(d) = differs(eff) {
            return Err(format!("does otherwise: {d}"));
        }
        if ok && c.results && !ds.iter().any(|d| d.looks()) && naked(&results(c, &r.o)) != naked(&results(c, &plain.o)) {
            return Err(format!("shows otherwise: {:?}, not {:?}", results(c, &r.o), results(c, &plain.o)));
        }
        return Ok(());
    }
    if !ds.iter().any(|d| d.may_fail()) {
        return Err(format!("fails: {}", r.o.brief()));
    }
    let quiet = ds.iter().any(|d| matches!(d, Closed(c) if c.contains(&2)));
    if r.o.err.trim().is_empty() && !quiet {
        return Err(format!("fails with code {:?}, but does not say why", r.o.code));
    }
    // nothing is lost
    let all: BTreeSet<&String> = eff.iter().filter(|l| l.starts_with("repo")).collect();
    let forget = c.args.iter().any(|a| a == "forget");
    let lost = plain_start(w)?.into_iter().find(|l| l.contains("src\"") && !all.contains(l));
    if let (Some(l), false) = (lost, forget) {
        return Err(format!("fails, and {l} is gone"));
    }
    // and it can be done once nothing is in the way
    let again = go(w, c, &[], false);
    super::c16::sane(&again.o)?;
    if forget || c.args.iter().any(|a| a == "init") {
        return Ok(());
    }
    if !again.o.ok() {
        return Err(format!("fails, and then again: {}", again.o.brief()));
    }
    let lines = |v: &Vec<String>| v.iter().filter(|l| !l.starts_with("cwd") && !l.contains("indexes")).cloned().collect::<BTreeSet<_>>();
    let eff = again.effect.as_ref().map_err(|e| format!("fails, and then: {e}"))?;
    let (a, b) = (lines(eff), lines(want));
    if let Some(d) = a.symmetric_difference(&b).next() {
        return Err(format!("fails, and then does otherwise: {d}"));
    }
    Ok(())
}

fn plain_start(w: &World) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for r in ["repo", "repo2"] {
        let rp = Repo::load(&w.p(&format!("save-start/{r}")));
        for s in rp.chrono() {
            let t = rp.expand(s).map_err(|e| format!("{r}: {e}"))?;
            v.push(format!("{r}: {} {:?} {:?} {:x}", s.author, s.paths, s.time, hash(&t)));
        }
    }
    Ok(v)
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let w = match around() {
        Ok(w) => w,
        Err(e) => {
            run().violation("setup", e, "");
            return ("model_checking", "", true);
        }
    };
    if w.uid.get().is_none() {
        run().error("cannot run the program as an ordinary user here");
    }
    let n = commands(&w.repo_state()).len();
    drop(w);
    let ds = devs();
    let mut sets: Vec<Vec<Dev>> = ds.iter().map(|d| vec![*d]).collect();
    let main: Vec<Dev> = if tier(false, true) {
        ds.clone()
    } else {
        vec![Umask(0o077), Files(16), Apart, Closed(&[0, 1, 2]), Env("HOME", None), Env("TMPDIR", Some(b"%root/none")), Env("HOME", Some(b"%root/shut"))]
    };
    for (i, a) in main.iter().enumerate() {
        for b in &main[i + 1..] {
            if a.kind() != b.kind() {
                sets.push(vec![*a, *b]);
            }
        }
    }
    let m = commands_of_many();
    let few: Vec<Dev> = [16, 24, 32, 64].map(Files).into();
    let jobs: Vec<(usize, Dev)> = (0..m.len()).flat_map(|i| few.iter().map(move |n| (i, *n))).collect();
    let k = nthreads();
    par_map(&(0..k).collect::<Vec<_>>(), |_, c| {
        let w = match many() {
            Ok(w) => w,
            Err(e) => return run().violation("setup", e, ""),
        };
        for (i, n) in jobs.iter().skip(*c).step_by(k) {
            let plain = go(&w, &m[*i], &[], true);
            run().state(fnv(&[format!("many {i} {n:?}").as_bytes()]));
            case(&w, format!("{} on many packs with {}", m[*i].args[2..].join(" "), n.text()), |w| one(w, &m[*i], &plain, &[*n]));
        }
    });
    let jobs: Vec<(usize, &Vec<Dev>)> = (0..n).flat_map(|i| sets.iter().map(move |s| (i, s))).collect();
    run().note("surroundings", sets.len());
    run().note("cases", jobs.len());
    let m = nthreads() * 2;
    let chunks: Vec<usize> = (0..m).collect();
    par_map(&chunks, |_, k| {
        let w = around().unwrap();
        let cs = commands(&w.repo_state());
        let mut plains: BTreeMap<usize, Ran> = BTreeMap::new();
        for (i, set) in jobs.iter().skip(*k).step_by(m) {
            if run().stopped() {
                return;
            }
            let c = &cs[*i];
            let plain = plains.entry(*i).or_insert_with(|| go(&w, c, &[], true));
            if let Err(e) = &plain.effect {
                return run().violation("setup", e.clone(), "");
            }
            let text: Vec<String> = set.iter().map(|d| d.text()).collect();
            run().state(fnv(&[format!("{i} {text:?}").as_bytes()]));
            case(&w, format!("{} with {}", c.args[2..].join(" "), text.join(", ")), |w| one(w, c, plain, set));
        }
    });
    run().assume("that directories are on different file systems is simulated at the C library's rename and link");
    (
        "model_checking",
        "38 command lines as an ordinary user x every single difference in what surrounds the program (umask, limit of open files, directories on file systems of their own, environment variables, closed standard descriptors), and pairs of these; 14 command lines on a repository of a hundred packs x limits of open files: the same effect and results; where it cannot be (few files, no home, no temporary directory), a failure that is explained, leaves every snapshot, and can be followed by success",
        true,
    )
}
