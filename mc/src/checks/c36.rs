//! C36: output that cannot be written.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::{id_str, Repo};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

pub const STATE: &[&str] = &["cwd", "repo", "repo2", "src", "out", "new"];

fn source(i: u8) -> N {
    d(&[
        ("a", f(&noise(i as u64, 3000))),
        ("b", d(&[("c", f(&[i])), ("d", d(&[]))])),
        ("common", f(&noise(9, 3000))),
        (["e", "f", "g", "h"][i as usize % 4], f(b"echo")),
        ("link", l("a")),
        ("modes", d(&[
            ("d700", dm(&[("f644", fm(b"m", 0o644, T0)), ("f600", fm(b"n", 0o600, T0))], 0o700, T0)),
            ("d755", dm(&[("f755", fm(b"o", 0o755, T0)), ("f444", fm(b"p", 0o444, T0))], 0o755, T0)),
            ("d777", dm(&[("f777", fm(b"q", 0o777, T0)), ("f4755", fm(b"r", 0o4755, T0))], 0o777, T0)),
            ("d2550", dm(&[("f664", fm(b"s", 0o664, T0))], 0o2550, T0)),
        ])),
    ])
}

pub struct Cmd {
    pub args: Vec<String>,
    /// What it prints to standard output is what it is for.
    pub results: bool,
    /// Goes through with its work whatever becomes of its output.
    pub goes_on: bool,
}

pub fn commands(r: &Repo) -> Vec<Cmd> {
    let s = r.chrono()[1];
    let ix = id_str(r.indexes.keys().next().unwrap());
    let pk = id_str(r.packs.keys().next().unwrap());
    let chunk = r.packs.values().flat_map(|p| &p.manifest).find(|b| !b.tree).map(|b| id_str(&b.id)).unwrap();
    let tree = id_str(&s.tree);
    let mut v = vec![];
    for (line, results, goes_on) in [
        ("ls LAST", true, false),
        ("snapshots", true, false),
        ("snapshots -s -f --stat -m", true, false),
        ("snapshots -r LAST", true, false),
        ("usage", true, false),
        ("diff LAST~1 LAST", true, false),
        ("diff -m LAST", true, false),
        ("dump LAST src/a", true, false),
        ("dump LAST src", true, false),
        ("dump LAST src/link", true, false),
        ("cat snapshot LAST", true, false),
        ("cat index %index", true, false),
        ("cat pack %pack", true, false),
        ("cat blob %tree", true, false),
        ("cat blob %chunk", true, false),
        ("prune -n", true, false),
        ("restore -n -o ../out LAST~1", true, false),
        ("backup -a me ../src", false, true),
        ("backup -L -a you ../src ../out", false, true),
        ("backup -n -a me ../src", false, true),
        ("backup -s /nothing -a me ../src/b", false, true),
        ("copy -t ../repo2 --all", false, true),
        ("copy -n -t ../repo2 LAST", false, true),
        ("check", false, true),
        ("check -r", false, true),
        ("rebuild-index", false, true),
        ("filter-snapshot -k -s /a$ LAST", false, true),
        ("forget LAST~1", false, true),
        ("forget DUPLICATES", false, true),
        ("prune", false, false),
        ("restore -d -t -p -o ../out LAST~1", false, false),
        ("restore -p -o ../out LAST~1", false, false),
        ("-r ../new init filesystem", false, true),
        // refused
        ("ls nosuch", false, true),
        ("backup ../nosuch", false, true),
        ("dump LAST src/nosuch", false, true),
        ("-r ../out check", false, true),
        ("nosuch", false, true),
    ] {
        let line = line.replace("%index", &ix).replace("%pack", &pk).replace("%tree", &tree).replace("%chunk", &chunk);
        let mut args: Vec<String> = vec!["--config".into(), "".into()];
        if !line.starts_with("-r ") {
            args.extend(["-r".into(), "../repo".into()]);
        }
        args.extend(line.split(' ').map(|a| a.to_string()));
        v.push(Cmd { args, results, goes_on });
    }
    v
}

pub fn world() -> Result<World, String> {
    let w = World::new();
    w.init_pack_size("2000B");
    let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
    if !o.ok() {
        return Err(o.brief());
    }
    for i in 0..4 {
        rebuild(&w.src(), &source(i));
        cmd_ok(&w, "repo", &["backup", "--allow-repeat", "-a", "me", "../src"])?;
        if i == 2 {
            cmd_ok(&w, "repo", &["backup", "--allow-repeat", "-a", "me", "../src"])?;
        }
    }
    // something to prune
    cmd_ok(&w, "repo", &["forget", "LAST~4"])?;
    rebuild(&w.src(), &source(6));
    build(&w.p("out"), &d(&[("a", f(b"another")), ("old", d(&[("x", f(b"x"))]))]));
    save(&w.root, STATE, "start");
    Ok(w)
}

/// What a command has done, as far as anyone can tell.
pub fn effect(w: &World) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for r in ["repo", "repo2", "new"] {
        if !w.p(r).exists() {
            continue;
        }
        let rp = Repo::load(&w.p(r));
        rp.invariant(&BTreeSet::new()).map_err(|e| format!("{r}: {e}"))?;
        if let Some(b) = rp.bad.first() {
            return Err(format!("{r}: {b}"));
        }
        for s in rp.chrono() {
            let t = rp.expand(s).map_err(|e| format!("{r}: {e}"))?;
            v.push(format!("{r}: {} {:?} {} {:x}", s.author, s.paths, s.time, hash(&t)));
        }
        let blobs: BTreeMap<String, usize> = rp.stored().into_iter().map(|(k, n)| (id_str(&k), n)).collect();
        v.push(format!("{r}: {blobs:?}, {} indexes", rp.indexes.len()));
    }
    v.push(format!("out: {:x}", hash(&quiet(scan(&w.p("out"))))));
    v.push(format!("cwd: {:?}", scan(&w.cwd()).keys().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>()));
    Ok(v)
}
/// All about a tree.
pub fn hash(t: &Tree) -> u64 {
    // links only get their times when restored over
    let t: Tree = t.iter().map(|(k, e)| (k.clone(), if matches!(e.kind, Kind::Link(_)) { Ent { mtime: 0, ..e.clone() } } else { e.clone() })).collect();
    t.iter().fold(hash_tree(&t, true), |h, (k, e)| {
        let mode = if matches!(e.kind, Kind::Link(_)) { 0 } else { e.mode & 0o7777 };
        fnv(&[&h.to_le_bytes(), k, &mode.to_le_bytes()])
    })
}
fn quiet(t: Tree) -> Tree {
    t.into_iter().map(|(k, e)| if e.mtime > T0 + 1_000_000_000_000 { (k, Ent { mtime: 0, ..e }) } else { (k, e) }).collect()
}

struct Ran {
    o: Out,
    writes: usize,
    effect: Result<Vec<String>, String>,
}

fn go(w: &World, c: &Cmd, spec: &str) -> Ran {
    restore(&w.root, STATE, "start");
    let note = w.p("note");
    let _ = std::fs::remove_file(&note);
    w.now.set(1_750_000_000);
    let mut cmd = w.bare();
    cmd.args(&c.args);
    cmd.env("MC_OUT", format!("{spec}:{}", note.display()));
    w.log.borrow_mut().push(format!("MC_OUT={spec} backpak {}", c.args.join(" ")));
    run().step();
    let o = run_command(cmd, w.timeout);
    let writes = std::fs::metadata(&note).map_or(0, |m| m.len() as usize);
    let effect = effect(w);
    Ran { o, writes, effect }
}

/// Without what is said along the way.
pub fn results(c: &Cmd, o: &Out) -> String {
    if c.args.contains(&"prune".into()) {
        return o.out.lines().filter(|l| l.starts_with("Keep ")).map(|l| format!("{l}\n")).collect();
    }
    o.out.lines().filter(|l| !["Opening ", "Building "].iter().any(|p| l.starts_with(p))).map(|l| format!("{l}\n")).collect()
}

fn fault(w: &World, c: &Cmd, plain: &Ran, fds: &str, at: usize, kind: &str) -> Result<(), String> {
    let r = go(w, c, &format!("{fds}:{at}:{kind}"));
    super::c16::sane(&r.o)?;
    let eff = r.effect.as_ref().map_err(|e| format!("{e} ({})", r.o.brief()))?;
    let want = plain.effect.as_ref().unwrap();
    let ok = plain.o.ok();
    run().outcome(format!("{}{}", if r.o.ok() { "success" } else { "failure" }, if r.writes > at { ", hit" } else { "" }));
    if !ok {
        return if r.o.ok() { Err("succeeds, but should be refused".into()) } else if eff != want { Err("fails, but changes something".into()) } else { Ok(()) };
    }
    if r.o.ok() {
        if eff != want {
            let i = (0..).find(|i| eff.get(*i) != want.get(*i)).unwrap();
            return Err(format!("succeeds, but not all is done: {:?}, not {:?}", eff.get(i), want.get(i)));
        }
        // a closed output is where output is to go nowhere (as Rust's library has it)
        if c.results && fds != "2" && kind != "9" && results(c, &r.o) != results(c, &plain.o) {
            return Err(format!("succeeds, but not all is written: {:?}", r.o.out));
        }
        return Ok(());
    }
    let harmless = matches!(kind, "s" | "e") || fds == "2" && !plain.o.ok();
    if harmless || fds == "2" || c.goes_on {
        return Err(format!("fails: {}", r.o.brief()));
    }
    if r.o.err.trim().is_empty() && fds == "1" {
        return Err(format!("fails with code {:?}, but does not say why", r.o.code));
    }
    // nothing is lost, and it can be done again
    let id = |v: &Vec<String>| v.iter().filter(|l| l.starts_with("repo: me") || l.starts_with("repo2: me")).cloned().collect::<Vec<_>>();
    if id(eff) != id(want) {
        return Err("fails, and snapshots have changed".into());
    }
    Ok(())
}

/// A file in `src` whose relative path is this long, at most one directory deep.
fn long(dir: usize, name: &str) -> String {
    if dir == 0 { name.to_string() } else { format!("{}/{name}", "d".repeat(dir)) }
}

pub fn naked(s: &str) -> Vec<String> {
    // as shown: no escape sequences, a line for each return
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\u{1b}' => {
                if it.next_if_eq(&'[').is_some() {
                    while it.next().is_some_and(|c| !c.is_ascii_alphabetic()) {}
                }
            }
            '\r' => {}
            c => o.push(c),
        }
    }
    o.lines().map(|l| l.to_string()).collect()
}

fn width(w: &World, dir: usize, name: &str, cols: usize) -> Result<(), String> {
    restore(&w.root, STATE, "start");
    let rel = long(dir, name);
    let mut kids: Vec<(&str, N)> = vec![];
    let ds = "d".repeat(dir);
    if dir == 0 {
        kids.push((name, f(b"x")));
    } else {
        kids.push((&ds, d(&[(name, f(b"x"))])));
    }
    rebuild(&w.src(), &d(&kids));
    w.now.set(1_750_000_000);
    let src = format!("../src/{rel}");
    let graphemes = |s: &str| s.chars().filter(|c| *c != '\u{301}').count();
    for (args, path) in [
        (vec!["-r", "../repo", "backup", "-a", "me", &src], w.src().join(&rel).to_string_lossy().into_owned()),
        (vec!["-r", "../repo", "backup", "-a", "me", "../src"], w.src().to_string_lossy().into_owned()),
        (vec!["-r", "../repo", "copy", "-t", "../repo2", "LAST"], format!("src/{rel}")),
        (vec!["-r", "../repo", "filter-snapshot", "-s", "nothing", "LAST"], String::new()),
        (vec!["-r", "../repo", "prune"], String::new()),
        (vec!["-r", "../repo", "check", "-r"], String::new()),
    ] {
        let mut cmd = w.bare();
        cmd.args(["--config", ""]).args(&args).env("MC_COLS", cols.to_string());
        w.log.borrow_mut().push(format!("MC_COLS={cols} backpak {}", args.join(" ")));
        w.now.set(w.now.get() + 1);
        run().step();
        let o = run_command(cmd, w.timeout);
        super::c16::sane(&o)?;
        if !o.ok() {
            return Err(format!("{}: {}", args[2], o.brief()));
        }
        if path.is_empty() {
            continue;
        }
        // where it is now
        let lines = naked(&o.out);
        let i = lines.iter().rposition(|l| l.ends_with(" downloaded")).ok_or_else(|| format!("no progress in {:?}", o.out))?;
        let shown = lines[i + 1..].iter().find(|l| !l.starts_with("Snapshot: ")).cloned().unwrap_or_default();
        if graphemes(&shown) > cols {
            return Err(format!("{}: {shown:?} is wider than {cols}", args[2]));
        }
        let bare = shown.trim_matches('.');
        if graphemes(&path) <= cols && cols > 3 && shown != path {
            return Err(format!("{}: shows {shown:?}, not {path:?}", args[2]));
        }
        if !bare.is_empty() && !bare.split("...").all(|p| path.contains(p)) {
            return Err(format!("{}: shows {shown:?}, which isn't of {path:?}", args[2]));
        }
    }
    let rp = w.repo_state();
    rp.invariant(&BTreeSet::new())?;
    Ok(())
}

fn widths(w: &World) {
    let base = w.src().to_string_lossy().len() + 1;
    let mut jobs = BTreeSet::new();
    let cols: Vec<usize> = if tier(false, true) { (1..=140).collect() } else { vec![1, 3, 4, 5, 8, 20, 80, 132] };
    for c in cols {
        let mut lens: BTreeSet<usize> = (1..=tier(3, 8)).chain([100, 254, 255]).collect();
        for around in [c, c.saturating_sub(base), c.saturating_sub(4)] {
            lens.extend(around.saturating_sub(tier(4, 6))..=around + tier(2, 5));
        }
        for l in lens.into_iter().filter(|l| (1..=255).contains(l)) {
            for dir in [0, 1, 30] {
                for alphabet in 0..3 {
                    jobs.insert((c, dir, l, alphabet));
                }
            }
        }
    }
    let jobs: Vec<_> = jobs.into_iter().collect();
    run().note("widths", jobs.len());
    let m = nthreads() * 2;
    let chunks: Vec<usize> = (0..m).collect();
    par_map(&chunks, |_, k| {
        let w = world().unwrap();
        for (c, dir, l, alphabet) in jobs.iter().skip(*k).step_by(m) {
            if run().stopped() {
                return;
            }
            // of one, two, and three bytes; the last is of two code points
            let (unit, n) = [("q", *l), ("\u{fc}", l / 2), ("q\u{301}", l / 3)][*alphabet];
            if n == 0 {
                continue;
            }
            let name = unit.repeat(n);
            run().state(fnv(&[format!("width {c} {dir} {name}").as_bytes()]));
            case(&w, format!("a name of {n} x {unit:?} under {dir}, {c} columns"), |w| width(w, *dir, &name, *c));
        }
    });
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let w = match world() {
        Ok(w) => w,
        Err(e) => {
            run().violation("setup", e, "");
            return ("model_checking", "", true);
        }
    };
    let n = commands(&w.repo_state()).len();
    widths(&w);
    drop(w);
    let ids: Vec<usize> = (0..n).collect();
    // first how often each writes, then each of these
    let counts = par_map(&ids, |_, i| {
        let w = world().unwrap();
        let c = &commands(&w.repo_state())[*i];
        ["1", "2"].map(|fd| go(&w, c, &format!("{fd}:0:n")).writes)
    });
    let mut jobs = vec![];
    for (i, c) in counts.iter().enumerate() {
        let c = c.unwrap_or([0, 0]);
        for (fd, n) in [("1", c[0]), ("2", c[1])] {
            // one more than there were: progress varies
            for at in 0..=n.min(tier(60, 1000)) {
                for k in ["28", "32", "5", "11", "9", "s", "e"] {
                    if fd == "1" || !matches!(k, "5" | "9") {
                        jobs.push((i, fd, at, k));
                    }
                }
            }
        }
        for k in ["28", "32", "5", "9"] {
            jobs.push((i, "12", 0, k));
        }
    }
    run().note("faults", jobs.len());
    let m = nthreads() * 2;
    let chunks: Vec<usize> = (0..m).collect();
    par_map(&chunks, |_, k| {
        let w = world().unwrap();
        let cs = commands(&w.repo_state());
        let mut plains: BTreeMap<usize, Ran> = BTreeMap::new();
        for (i, fd, at, kind) in jobs.iter().skip(*k).step_by(m) {
            if run().stopped() {
                return;
            }
            let c = &cs[*i];
            let plain = plains.entry(*i).or_insert_with(|| go(&w, c, "12:0:n"));
            if let Err(e) = &plain.effect {
                return run().violation("setup", e.clone(), "");
            }
            run().state(fnv(&[format!("{i} {fd} {at} {kind}").as_bytes()]));
            case(&w, format!("{}: output {fd} fails ({kind}) at write {at}", c.args[2..].join(" ")), |w| fault(w, c, plain, fd, *at, kind));
        }
    });
    run().assume("writes to standard output and error are injected where the program calls the C library");
    (
        "model_checking",
        "38 command lines x every write to standard output or error that each of them makes x {all fail from there on: no space, broken pipe, I/O error, would block, closed; that one is short or interrupted}, and both outputs failing from the start: no panic, signal or hang; commands that work on a repository do all of it as if nothing were the matter; success means that all results were written; a failure is explained where it can be and leaves every snapshot as it was and the repository sound; lengths of names in three alphabets x directories x widths of terminal x six commands: all succeed, and the path shown fits and is whole when there is room",
        true,
    )
}
