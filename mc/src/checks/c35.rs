//! C35: a path means what the system resolves it to, from where the program runs.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;

use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

fn source() -> N {
    d(&[
        ("a", f(b"alpha")),
        ("sub", d(&[("b", f(b"bravo")), ("up", l("..")), ("src", d(&[("c", f(b"charlie"))]))])),
        ("alink", l("a")),
    ])
}

/// All that relative paths can reach.
const T: &str = "x/t";
const STATE: &[&str] = &["x", "repo", "out"];

fn at(dir: &str) -> &'static str {
    ["cwd", "src", "src/sub", "link", "two", "home"].iter().zip(["x/t/cwd", "x/t/src", "x/t/src/sub", "x/t/link", "x/t/two", "home"]).find(|x| *x.0 == dir).unwrap().1
}

fn world() -> Result<World, String> {
    let w = World::new();
    w.init_pack_size("100MiB");
    let t = w.p(T);
    build(&w.p("x"), &d(&[("t", d(&[("cwd", d(&[]))]))]));
    build(&t.join("src"), &source());
    build(&t.join("two"), &d(&[("src", d(&[("x", f(b"x-ray"))])), ("a", f(b"another a")), ("y", f(b"yankee"))]));
    std::os::unix::fs::symlink("src/sub", t.join("link")).unwrap();
    std::os::unix::fs::symlink(".", t.join("here")).unwrap();
    build(&w.p("out"), &d(&[]));
    w.dir.set(at("cwd"));
    cmd_ok(&w, "repo", &["backup", "-a", "me", "../src"])?;
    save(&w.root, STATE, "start");
    Ok(w)
}

/// All relative paths of up to `n` of these segments, with and without a slash at the end.
fn spellings(n: usize) -> Vec<String> {
    let mut all: Vec<String> = vec![];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for s in [".", "..", "src", "sub", "link", "here", "a", "alink", "up", "cwd"] {
                next.push(if p.is_empty() { s.to_string() } else { format!("{p}/{s}") });
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    let mut out: Vec<String> = vec![];
    for p in all {
        out.push(format!("{p}/"));
        out.push(format!("{p}//."));
        out.push(p);
    }
    out
}

/// What the system makes of `p` when in `dir`.
fn real(dir: &Path, p: &str) -> Option<PathBuf> {
    std::fs::canonicalize(dir.join(p)).ok()
}

fn quiet_dirs(t: Tree) -> Tree {
    t.into_iter().map(|(k, e)| if e.kind == Kind::Dir { (k, Ent { mtime: 0, ..e }) } else { (k, e) }).collect()
}

/// Backs up `paths` from `dir` (reached by -C from elsewhere, if so) and compares the outcome.
fn sources(w: &World, dir: &'static str, by_c: bool, paths: &[&str]) -> Result<(), String> {
    let cwd = w.p(at(dir));
    let src = w.p(T).join("src");
    let reals: Option<Vec<PathBuf>> = paths.iter().map(|p| real(&cwd, p)).collect();
    let reals: Option<BTreeSet<PathBuf>> = reals.map(|r| r.into_iter().collect());
    if reals.iter().flatten().any(|r| w.root.starts_with(r)) {
        return Ok(());
    }
    let names: BTreeSet<_> = reals.iter().flatten().map(|p| p.file_name().map(|n| n.to_owned())).collect();
    let wanted = reals.filter(|r| names.len() == r.len() && !names.contains(&None));
    let mut args: Vec<&str> = vec![];
    let c = cwd.to_string_lossy().into_owned();
    let from = if by_c {
        args.extend(["-C", &c]);
        "home"
    } else {
        at(dir)
    };
    args.extend(["backup", "-a", "me"]);
    args.extend(paths);
    let before = snapshot_ids(&w.repo());
    w.dir.set(from);
    let o = w.bp(&args);
    w.dir.set(at("cwd"));
    let r = w.repo_state();
    let new: Vec<_> = r.snaps.values().filter(|s| !before.contains(&s.id)).collect();
    super::c16::sane(&o)?;
    let Some(wanted) = wanted else {
        return if o.ok() {
            Err(format!("succeeds, but should be refused: {}", o.out.trim()))
        } else if !new.is_empty() {
            Err("is refused, but leaves a snapshot".into())
        } else if let Some(d) = tree_diff(&quiet_dirs(scan(&w.p("save-start/repo"))), &quiet_dirs(scan(&w.repo())), Cmp { mode: false, mtime: false }) {
            Err(format!("is refused, but the repository has changed: {d}"))
        } else if let Some(d) = tree_diff(&quiet_dirs(scan(&w.p("save-start/x"))), &quiet_dirs(scan(&w.p("x"))), Cmp { mode: true, mtime: true }) {
            Err(format!("is refused, but leaves something: {d}"))
        } else {
            Ok(())
        };
    };
    if !o.ok() {
        return Err(format!("is refused: {}", o.brief()));
    }
    let same = wanted.len() == 1 && wanted.contains(&std::fs::canonicalize(&src).unwrap());
    // the working directory's time has changed if it is part of it
    // (a file's access time, being recorded, may make a difference, as does the working directory's own time)
    if same && new.is_empty() {
        return if o.out.contains("same as the last") { Ok(()) } else { Err("makes no snapshot".into()) };
    }
    let [s] = new[..] else { return Err(format!("{} new snapshots", new.len())) };
    let want: BTreeSet<String> = wanted.iter().map(|p| p.to_string_lossy().into_owned()).collect();
    if s.paths != want {
        return Err(format!("the paths recorded are {:?}, not {want:?}", s.paths));
    }
    let mut tree = Tree::new();
    for p in &wanted {
        tree.extend(scan_named(p, &p.file_name().unwrap().to_string_lossy()));
    }
    match tree_diff(&quiet_dirs(tree), &quiet_dirs(r.expand(s)?), Cmp { mode: true, mtime: true }) {
        Some(d) => Err(format!("what is recorded differs: {d}")),
        None => Ok(()),
    }
}

/// Restores in place, from `dir`.
fn in_place(w: &World, from: &'static str, by_c: Option<&str>, paths: &[&str]) -> Result<(), String> {
    let mut a = vec!["backup", "--allow-repeat", "-a", "me"];
    a.extend(paths);
    cmd_ok(w, "repo", &a)?;
    let whole = |w: &World| -> BTreeMap<&str, Tree> { ["x", "home", "out"].iter().map(|d| (*d, quiet_dirs(scan(&w.p(d))))).collect() };
    let want = whole(w);
    for p in paths {
        let p = real(&w.cwd(), p).unwrap();
        if p.is_dir() {
            for e in std::fs::read_dir(&p).unwrap().flatten() {
                if e.path().is_dir() && !e.path().is_symlink() {
                    for s in std::fs::read_dir(e.path()).unwrap().flatten() {
                        rm_rf(&s.path());
                    }
                } else {
                    rm_rf(&e.path());
                }
            }
        } else {
            std::fs::write(&p, b"changed").unwrap();
        }
    }
    let mut args = vec![];
    if let Some(c) = by_c {
        args.extend(["-C", c]);
    }
    args.extend(["restore", "-t", "-p", "LAST"]);
    w.dir.set(at(from));
    let o = w.bp(&args);
    w.dir.set(at("cwd"));
    if !o.ok() {
        return Err(format!("restoring fails: {}", o.brief()));
    }
    let got = whole(w);
    for (k, t) in &want {
        if let Some(d) = tree_diff(t, &got[k], Cmp { mode: true, mtime: true }) {
            return Err(format!("{k} is not restored: {d}"));
        }
    }
    Ok(())
}

/// Directories to run in, and what distinguishes them.
fn places(w: &World) {
    use std::os::unix::ffi::OsStrExt;
    let base = w.p("places");
    build(
        &base,
        &d(&[
            ("plain", d(&[("src", source()), ("out", d(&[]))])),
            ("skips", d(&[(".backpak", f(b"skips = [\"/b$\"]\n")), ("src", source()), ("out", d(&[]))])),
            ("follows", d(&[(".backpak", f(b"[backup]\ndereference = true\n")), ("src", d(&[("a", f(b"alpha")), ("alink", l("a")), ("sub", d(&[("b", f(b"bravo"))]))])), ("out", d(&[]))])),
            ("puts", d(&[(".backpak", f(b"[restore]\noutput = \"out\"\n")), ("src", source()), ("out", d(&[]))])),
            ("both", d(&[(".backpak", f(b"skips = [\"/a$\"]\n[restore]\noutput = \"../both/out\"\n")), ("src", source()), ("out", d(&[("old", f(b"old"))]))])),
            ("broken", d(&[(".backpak", f(b"skips = \n")), ("src", source()), ("out", d(&[]))])),
            ("unreadable", d(&[(".backpak", d(&[])), ("src", source()), ("out", d(&[]))])),
        ]),
    );
    let odd = base.join(std::ffi::OsStr::from_bytes(b"odd\xff"));
    build(&odd, &d(&[("src", source()), ("out", d(&[]))]));
    for p in std::fs::read_dir(&base).unwrap().flatten() {
        build(&p.path().join("my.toml"), &f(b"cache_size = \"3MB\"\nskips = [\"/c$\"]\n"));
        copy_tree(&w.repo(), &p.path().join("repo")).unwrap();
    }
    save(&w.root, &["places"], "places");
}

fn place(name: &str) -> PathBuf {
    use std::os::unix::ffi::OsStrExt;
    Path::new("places").join(if name == "odd" { std::ffi::OsStr::from_bytes(b"odd\xff") } else { std::ffi::OsStr::new(name) })
}
const PLACES: &[&str] = &["plain", "skips", "follows", "puts", "both", "broken", "unreadable", "odd"];
/// With what is to be read or written where the program runs.
const LINES: &[&str] = &[
    "-r repo backup -a me src",
    "-r repo backup -a me src/sub/..",
    "-r repo backup -n -a me -s a src",
    "-r ../plain/repo backup -a me src/sub src/a",
    "--config my.toml -r repo backup -a me src",
    "--config  -r repo backup -a me src",
    "--config nosuch.toml -r repo backup -P -a me src",
    "-r repo restore -o out LAST",
    "-r repo restore -n LAST",
    "-r repo restore -d LAST",
    "--config my.toml -r repo restore -n -t LAST",
    "-r repo filter-snapshot -s sub LAST",
    "--config my.toml -r repo filter-snapshot LAST",
    "-r repo copy -t ../plain/repo --all",
    "-r repo dump -o dumped LAST src/a",
    "-r repo ls LAST",
    "-r repo check -r",
    "-r repo prune",
    "-r repo forget LAST",
    "-r repo usage",
    "-r new init filesystem",
    "-r src backup .",
    "-r nosuch check",
];

/// One command run in a place, or elsewhere with -C; gives all there is to see.
fn there(w: &World, line: &str, dir: &Path, c: Option<&Path>, now: i64) -> (Out, Tree) {
    restore(&w.root, &["places"], "places");
    w.now.set(now);
    let mut cmd = w.bare();
    cmd.current_dir(w.root.join(dir));
    if let Some(c) = c {
        cmd.arg("-C").arg(c);
    }
    let (pre, rest) = match line.strip_prefix("--config  ") {
        Some(r) => (vec!["--config", ""], r),
        None => (vec![], line),
    };
    cmd.args(pre).args(rest.split(' '));
    w.log.borrow_mut().push(format!("in {dir:?}: backpak {:?} {line}", c));
    run().step();
    let o = run_command(cmd, w.timeout);
    // (what is written now has no particular time)
    let t = quiet_dirs(scan(&w.p("places"))).into_iter().map(|(k, e)| if e.mtime > T0 + 1_000_000_000_000 { (k, Ent { mtime: 0, ..e }) } else { (k, e) });
    (o, t.collect())
}

fn plain_out(o: &Out) -> (Option<i32>, Vec<String>, Vec<String>) {
    // (a progress line is repeated as often as there is time for it)
    let clean = |s: &str| -> Vec<String> { s.lines().filter(|l| !l.starts_with(['|', '/', '-', '\\', '⠋', '⠙', '⠹', '⠸', '⠼', '⠴', '⠦', '⠧', '⠇', '⠏'])).map(|l| l.to_string()).collect() };
    (o.code, clean(&o.out), clean(&o.err))
}

fn equal(w: &World, line: &str, name: &str, from: &str) -> Result<(), String> {
    let dir = place(name);
    let (ways, now) = (
        match from {
            "absolute" => (PathBuf::from("home"), w.root.join(&dir)),
            "from beside it" => (place("broken"), Path::new("..").join(dir.file_name().unwrap())),
            "from below it" => (dir.join("src/sub"), PathBuf::from("../..")),
            "by a link" => (PathBuf::from("places/skips"), Path::new("../../x/t/here/../..").join(&dir)),
            _ => (dir.join("src"), Path::new(".././").join("src/..")),
        },
        1_800_000_000,
    );
    let (o1, t1) = there(w, line, &dir, None, now);
    let (o2, t2) = there(w, line, &ways.0, Some(&ways.1), now);
    super::c16::sane(&o1)?;
    super::c16::sane(&o2)?;
    let n = |t: &Tree| hash_tree(t, true);
    run().state(n(&t1));
    run().outcome(if o1.ok() { "carried out" } else { "refused" });
    if let Some(d) = tree_diff(&t1, &t2, Cmp { mode: true, mtime: true }) {
        return Err(format!("with -C, the outcome differs: {d} ({}; {})", o1.brief(), o2.brief()));
    }
    let (a, b) = (plain_out(&o1), plain_out(&o2));
    let quiet = |l: &str| [" ls", " usage", " forget", " dump"].iter().any(|c| l.contains(c)); // the others show their progress, which is not the same twice
    if a.0 != b.0 || (quiet(line) && a.1 != b.1) || a.2.is_empty() != b.2.is_empty() {
        return Err(format!("with -C, it says something else: {a:?} and {b:?}"));
    }
    Ok(())
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    const DIRS: &[&str] = &["cwd", "src", "src/sub", "link"];
    enum Job {
        One(&'static str, bool, Vec<String>),
        Place(&'static str, Option<&'static str>, Vec<&'static str>),
        Same(&'static str, &'static str, &'static str),
    }
    let mut jobs = vec![];
    for dir in DIRS {
        for p in spellings(tier(3, 4)) {
            jobs.push(Job::One(dir, p.len() % 2 == 0, vec![p]));
        }
    }
    for dir in ["cwd", "link"] {
        for p in spellings(tier(2, 3)) {
            jobs.push(Job::One(dir, p.len() % 2 == 0, vec![format!("%/{p}")]));
        }
    }
    let some = ["../src", "../src/", ".", "../cwd", "../src/sub", "../link", "../src/a", "../src/alink", "../two/a", "../two/src", "../two", "../src/sub/src", "../here/src", "..", "../nosuch", "../src/sub/up"];
    for n in 2..=tier(3, 4) {
        for a in assignments(some.len(), n) {
            jobs.push(Job::One("cwd", false, a.iter().map(|i| some[*i].to_string()).collect()));
        }
    }
    for from in ["cwd", "src", "src/sub", "link", "home", "two"] {
        for c in [None, Some("/"), Some("."), Some("..")] {
            for s in [vec!["../src"], vec!["../link"], vec!["../src/a"], vec!["../src/alink"], vec!["../src", "../two/y"], vec!["../two/src", "../link"], vec!["../two/a", "../two/y"]] {
                // what it runs in is to stay
                jobs.push(Job::Place(from, c, s));
            }
        }
    }
    for l in LINES {
        for p in PLACES {
            for f in ["absolute", "from beside it", "from below it", "by a link", "round about"] {
                // (a name that isn't UTF-8 can't be given)
                if *p != "odd" || ["from below it", "round about"].contains(&f) {
                    jobs.push(Job::Same(l, p, f));
                }
            }
        }
    }
    run().note("cases", jobs.len());
    let n = nthreads() * 4;
    let chunks: Vec<usize> = (0..n).collect();
    par_map(&chunks, |_, c| {
        let w = match world() {
            Ok(w) => w,
            Err(e) => return run().violation("setup", e, ""),
        };
        places(&w);
        let base = snapshot_ids(&w.repo());
        for j in jobs.iter().skip(*c).step_by(n) {
            if run().stopped() {
                return;
            }
            match j {
                Job::One(dir, by_c, paths) => {
                    let paths: Vec<String> = paths.iter().map(|p| p.replace('%', &w.p(at(dir)).to_string_lossy())).collect();
                    let ps: Vec<&str> = paths.iter().map(|s| s.as_str()).collect();
                    run().state(fnv(&[dir.as_bytes(), format!("{ps:?}{by_c}").as_bytes()]));
                    case(&w, format!("in {dir}{}: backup {}", if *by_c { " by -C" } else { "" }, ps.join(" ")), |w| sources(w, dir, *by_c, &ps));
                    if dir != &"cwd" || snapshot_ids(&w.repo()) != base {
                        restore(&w.root, STATE, "start");
                    }
                }
                Job::Place(from, c, ps) => {
                    case(&w, format!("in {from}, -C {c:?}: restore {} in place", ps.join(" ")), |w| in_place(w, from, *c, ps));
                    restore(&w.root, STATE, "start");
                }
                Job::Same(l, p, f) => {
                    case(&w, format!("{l} in {p}, {f}"), |w| equal(w, l, p, f));
                }
            }
        }
    });
    (
        "model_checking",
        "every path of up to three segments out of ten (dots, directories, files, links to each), with and without slashes at its end, as the source of a backup from four working directories, directly and by -C; absolute ones of up to two segments; all ordered pairs and triples of sixteen such sources; restoring in place from every working directory; and 23 command lines in eight directories (with each kind of local configuration, a broken one, a name that isn't UTF-8), run there and by -C from five other places: what the program takes a path for is compared to what the system's own resolution gives, and running with -C to running there",
        true,
    )
}
