//! C29: the object store client, against a simulated store.
use super::tier;
use crate::b2::*;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::scen::*;
use crate::twin::*;
use crate::util::*;
use std::collections::HashMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

const DIRS: [&str; 8] = ["plain", "plain2", "odd", "odd2", "bucket-one", "bucket-two", "home", "cwd"];
/// where the objects are
const STORE: Twin = Twin { u: "plain", u2: "plain2", k: "bucket-one", k2: "bucket-two" };

fn account_of(w: &World) -> Arc<Account> {
    accounts().lock().unwrap()[&w.root].clone()
}
fn accounts() -> &'static Mutex<HashMap<PathBuf, Arc<Account>>> {
    static A: OnceLock<Mutex<HashMap<PathBuf, Arc<Account>>>> = OnceLock::new();
    A.get_or_init(Default::default)
}
fn world() -> World {
    let mut w = World::new();
    let (a, url) = account(&w.root);
    accounts().lock().unwrap().insert(w.root.clone(), a);
    w.env.push(("BACKPAK_B2_API".into(), url));
    w.env.push(("MC_NOSLEEP".into(), "1".into()));
    w.timeout = Duration::from_secs(20);
    w
}

fn setup(w: &World, pack: &str, connections: usize) -> Result<(), String> {
    for r in ["plain", "plain2"] {
        cmd_ok(w, r, &["init", "-p", pack, "filesystem"])?;
    }
    let n = connections.to_string();
    for (r, b) in [("odd", "one"), ("odd2", "two")] {
        std::fs::create_dir(w.p(&format!("bucket-{b}"))).unwrap();
        for d in ["packs", "indexes", "snapshots"] {
            std::fs::create_dir(w.p(&format!("bucket-{b}/{d}"))).unwrap();
        }
        cmd_ok(w, r, &["init", "-p", pack, "backblaze", "-k", KEY, "-a", SECRET, "-b", b, "-c", &n])?;
    }
    rebuild(&w.src(), &var("A"));
    Ok(())
}

/// The buckets hold what the plain repositories hold.
fn objects(w: &World) -> Result<(), String> {
    for (a, b) in [("plain", "bucket-one"), ("plain2", "bucket-two")] {
        let (x, y) = (object_files(&w.p(a)), object_files(&w.p(b)));
        for (d, n, c) in &x {
            match y.iter().find(|o| o.0 == *d && o.1 == *n) {
                None => return Err(format!("{d}/{n} is not in the bucket")),
                Some(o) if o.2 != *c => return Err(format!("{d}/{n} in the bucket has {} bytes instead of {}, or others", o.2.len(), c.len())),
                _ => {}
            }
        }
        if let Some(o) = y.iter().find(|o| !x.iter().any(|p| p.0 == o.0 && p.1 == o.1)) {
            return Err(format!("the bucket still holds {}/{}", o.0, o.1));
        }
        // anything elsewhere in the bucket?
        for e in std::fs::read_dir(w.p(b)).unwrap().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            if !["packs", "indexes", "snapshots", "older"].contains(&n.as_str()) {
                return Err(format!("the bucket holds {n}"));
            }
        }
    }
    let c = account_of(w).complaints();
    if !c.is_empty() {
        return Err(c.join(", "));
    }
    Ok(())
}

fn same(w: &World, src: Option<&N>, a: &[&str]) -> Result<(), String> {
    let (mut x, mut y) = TWIN.both(w, src, a);
    if a[0] == "usage" {
        for o in [&mut x, &mut y] {
            o.out = o.out.lines().filter(|l| !l.contains("ackblaze") && !l.contains("ilesystem")).collect::<Vec<_>>().join("\n");
        }
    }
    run().outcome(format!("{} {}", a[0], if x.ok() { "ok" } else { "fails" }));
    TWIN.compare(w, a, &x, &y)
}

fn step(w: &World, op: &str) -> Result<Step, String> {
    let bk = |v: &str| same(w, Some(&var(v)), &["backup", "-a", "me", "--allow-repeat", "../src"]);
    match op {
        "backup A" => bk("A")?,
        "backup B" => bk("B")?,
        "backup C" => bk("C")?,
        "forget oldest" | "forget LAST" => {
            let all = ids(&w.p("plain"));
            let Some(id) = (if op == "forget LAST" { all.last() } else { all.first() }) else { return Ok(Step::Skip) };
            same(w, None, &["forget", id])?;
        }
        "prune" => same(w, None, &["prune"])?,
        "rebuild-index" => same(w, None, &["rebuild-index"])?,
        "filter-snapshot" => same(w, None, &["filter-snapshot", "-a", "me", "-s", "^src/[xw]$", "LAST"])?,
        "copy to the second" => same(w, None, &["copy", "--to", "../%2", "--all"])?,
        "copy back" => {
            let back = Twin { u: "plain2", u2: "plain", k: "odd2", k2: "odd" };
            let (x, y) = back.both(w, None, &["copy", "--to", "../%2", "--all"]);
            back.compare(w, &["copy"], &x, &y)?;
        }
        "cache lost" => rm_rf(&w.p("home/.cache")),
        _ => unreachable!(),
    }
    Ok(Step::Next)
}
const OPS: &[&str] = &["backup A", "backup B", "backup C", "forget oldest", "forget LAST", "prune", "rebuild-index", "filter-snapshot", "copy to the second", "copy back", "cache lost"];

fn judge(w: &World, all: bool) -> Result<(), String> {
    objects(w)?;
    if all {
        cwd_clean(w, "cwd")?;
    }
    save(&w.root, &DIRS, "judge");
    let (now, log) = (w.now.get(), w.log.borrow().len());
    let res = (|| {
        for r in twin_readers() {
            if all || ["snapshots", "check", "ls"].contains(&r[0]) {
                same(w, None, &r)?;
            }
        }
        for id in ids(&w.p("plain")).iter().rev().take(if all { 9 } else { 1 }) {
            TWIN.same_restore(w, id)?;
        }
        objects(w)
    })();
    restore(&w.root, &DIRS, "judge");
    w.now.set(now);
    if res.is_ok() {
        w.log.borrow_mut().truncate(log);
    }
    res
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    run().assume("the simulated store answers as Backblaze documents its API");
    histories();
    pages();
    faults();
    (
        "model_checking",
        "a repository in a simulated object store and a plain one driven through the same histories: all histories up to a depth over 11 operations x page sizes, each with the same status, output and effect; listings of every length around the page size; every request of every command x every way to fail once, repeatedly, in pairs, or from then on",
        true,
    )
}

fn histories() {
    for (page, pack, conn) in [(10_000, "100MiB", 4), (1, "1000B", 1)] {
        let e = Explorer {
            ops: OPS.iter().map(|s| format!("[pages of {page}] {s}")).collect(),
            depth: tier(if page > 1 { 2 } else { 1 }, 3),
            dirs: &DIRS,
            setup: &|_, _| {},
            apply: &|w, m, op| {
                account_of(w).page(page);
                account_of(w).plan(&[], None);
                if m.aux.is_empty() {
                    m.aux.push(1);
                    setup(w, pack, conn)?;
                    step(w, "backup A")?;
                }
                step(w, OPS[op])
            },
            check: &|w, _, _| judge(w, true),
            key: &|w, _| {
                let mut b = vec![w.p("home/.cache").exists() as u8];
                for r in ["plain", "plain2"] {
                    b.extend(repo_key(w, r, "cwd").to_le_bytes());
                }
                fnv(&[&b])
            },
        };
        e.go_with(&world);
    }
}

/// Listings of 0.. objects in pages of 1..
fn pages() {
    let w0 = world();
    if let Err(e) = setup(&w0, "100MiB", 4) {
        return run().violation("setup pages", e, w0.history());
    }
    let root0 = w0.root.clone();
    let max = tier(4, 9);
    let sizes: Vec<usize> = (1..=max + 1).collect();
    par_map(&sizes, |_, page| {
        let w = world();
        for x in DIRS {
            rm_rf(&w.p(x));
            copy_tree(&root0.join(x), &w.p(x)).unwrap();
        }
        account_of(&w).page(*page);
        account_of(&w).odd(*page % 2 == 0);
        account_of(&w).lazy(*page % 3 != 1);
        for n in 1..=max {
            if run().stopped() {
                return;
            }
            run().state(fnv(&[b"pages", &[*page as u8, n as u8]]));
            if !case(&w, format!("pages of {page}, backup number {n}"), |w| {
                run().step();
                let src = d(&[("x", f(&noise(n as u64, 600))), ("k", f(b"kept"))]);
                same(w, Some(&src), &["backup", "-a", "me", "../src"])?;
                objects(w)?;
                if n % 2 == 0 {
                    rm_rf(&w.p("home/.cache"));
                }
                for r in [&["snapshots", "--stat"][..], &["check", "-r"], &["usage"], &["ls", "LAST"], &["prune", "-n"]] {
                    same(w, None, r)?;
                }
                objects(w)
            }) {
                return;
            }
        }
        case(&w, format!("pages of {page}, everything forgotten"), |w| {
            run().step();
            same(w, None, &["rebuild-index"])?;
            objects(w)?;
            let all = ids(&w.p("plain"));
            let mut a = vec!["forget"];
            a.extend(all.iter().skip(1).map(|s| s.as_str()));
            same(w, None, &a)?;
            objects(w)?;
            same(w, None, &["prune"])?;
            objects(w)?;
            same(w, None, &["check", "-r"])
        });
    });
}

struct Cmd {
    args: Vec<&'static str>,
    cold: bool,
    v: &'static str,
}
fn commands() -> Vec<Cmd> {
    let mut v = vec![];
    let mut add = |args: &[&'static str], cold: bool, t: &'static str| v.push(Cmd { args: args.to_vec(), cold, v: t });
    add(&["backup", "-a", "me", "../src"], false, "D");
    add(&["backup", "-a", "me", "../src"], true, "D");
    for r in [&["snapshots", "--sizes", "--stat"][..], &["ls", "LAST"], &["dump", "LAST", "src/w"], &["cat", "snapshot", "LAST"], &["usage"], &["prune", "-n"], &["restore", "-t", "-p", "-o", "../out", "LAST"], &["check"]] {
        add(r, true, "A");
    }
    add(&["check", "-r"], false, "A");
    for c in [false, true] {
        add(&["forget", "LAST~"], c, "A");
        add(&["prune"], c, "A");
        add(&["rebuild-index"], c, "A");
        add(&["filter-snapshot", "-a", "me", "-s", "^src/[xw]$", "LAST"], c, "A");
        add(&["copy", "--to", "../odd2", "--all"], c, "A");
    }
    v
}

/// What can go wrong with a request once, and what does not go away.
fn transient(what: &str) -> Vec<Mode> {
    use Mode::*;
    let mut v = vec![Status(503), Status(500), Status(429), Status(408), Drop, DropAfter, Cut];
    if what.starts_with("upload") {
        v.extend([Expired(401), Expired(503), DropMidway]);
    }
    v
}
const SESSION: [&str; 2] = ["b2_authorize_account", "b2_list_buckets"];

fn source(v: &str) -> N {
    match v {
        "D" => {
            let N::D(mut m, a, b) = var("B") else { unreachable!() };
            m.insert("new".into(), f(&noise(77, 3000)));
            N::D(m, a, b)
        }
        v => var(v),
    }
}

fn faults() {
    let w0 = world();
    let res = (|| {
        setup(&w0, "100MiB", 1)?;
        for op in ["backup A", "backup B", "copy to the second", "forget oldest", "backup C"] {
            step(&w0, op)?;
        }
        objects(&w0)
    })();
    if let Err(e) = res {
        return run().violation("setup faults", e, w0.history());
    }
    let cmds = commands();
    let (root0, now0) = (w0.root.clone(), w0.now.get());
    let load = |w: &World| {
        for d in DIRS {
            rm_rf(&w.p(d));
            copy_tree(&root0.join(d), &w.p(d)).unwrap();
        }
        save(&w.root, &DIRS, "s");
    };
    let prep = |w: &World, c: &Cmd| {
        restore(&w.root, &DIRS, "s");
        rm_rf(&w.p("out"));
        std::fs::create_dir(w.p("out")).unwrap();
        w.now.set(now0 + 10);
        if c.cold {
            rm_rf(&w.p("home/.cache"));
        }
        rebuild(&w.src(), &source(c.v));
    };
    let reqs = par_map(&cmds, |_, c| {
        let w = world();
        load(&w);
        prep(&w, c);
        account_of(&w).plan(&[], None);
        let o = w.bp_repo(&c.args, &w.p("odd"));
        if !o.ok() {
            run().violation(format!("{} in the object store", c.args.join(" ")), o.brief(), w.history());
            return vec![];
        }
        account_of(&w).requests()
    });
    // (command, faults, everything from, permanent)
    let mut tasks: Vec<(usize, Vec<(usize, Mode)>, Option<(usize, u16)>)> = vec![];
    for (i, rs) in reqs.into_iter().enumerate() {
        let rs = rs.unwrap_or_default();
        run().note(&format!("requests of {}{}", cmds[i].args.join(" "), if cmds[i].cold { ", nothing cached" } else { "" }), rs.len());
        for (k, r) in rs.iter().enumerate() {
            let quick = tier(true, false);
            let reads = !["backup", "prune", "copy", "forget", "rebuild-index", "filter-snapshot"].contains(&cmds[i].args[0]) || cmds[i].args.contains(&"-n");
            if quick && SESSION.contains(&r.as_str()) && i > 0 {
                continue;
            }
            let up = r.starts_with("upload");
            for m in transient(r) {
                if quick && !up && [Mode::Status(500), Mode::Status(429), Mode::Status(408)].contains(&m) && (i + k) % 5 != 0 {
                    continue;
                }
                tasks.push((i, vec![(k, m)], None));
            }
            // the same again and again
            for m in [Mode::Status(503), Mode::Drop, Mode::DropAfter] {
                if quick && (reads || !up && m != Mode::DropAfter) {
                    continue;
                }
                tasks.push((i, (k..k + 3).map(|x| (x, m)).collect(), None));
            }
            if r.starts_with("upload") {
                for (a, b) in [(Mode::Expired(401), Mode::Status(503)), (Mode::DropMidway, Mode::Expired(503)), (Mode::DropAfter, Mode::DropAfter), (Mode::Status(500), Mode::Drop)] {
                    tasks.push((i, vec![(k, a), (k + 1, b), (k + 2, a)], None));
                }
            }
            for c in tier(&[403][..], &[400, 403, 404, 401][..]) {
                tasks.push((i, vec![], Some((k, *c))));
            }
            if !quick || !reads {
                tasks.push((i, vec![(k, Mode::Status(403))], None));
            }
            if tier(false, true) {
                for k2 in k + 1..rs.len() {
                    for (a, b) in [(Mode::Status(503), Mode::DropAfter), (Mode::DropAfter, Mode::Status(500)), (Mode::Drop, Mode::Drop)] {
                        // one more request after a failure
                        tasks.push((i, vec![(k, a), (k2 + 1, b)], None));
                    }
                }
            }
        }
    }
    let free = Mutex::new(vec![]);
    par_map(&tasks, |_, (i, plan, from)| {
        if run().stopped() {
            return;
        }
        let w: World = free.lock().unwrap().pop().unwrap_or_else(|| {
            let w = world();
            load(&w);
            w
        });
        let c = &cmds[*i];
        prep(&w, c);
        let what = match from {
            Some((k, code)) => format!("requests from {k} on get {code}"),
            None => plan.iter().map(|(k, m)| format!("request {k} {m:?}")).collect::<Vec<_>>().join(", "),
        };
        run().state(fnv(&[b"fault", c.args.join(" ").as_bytes(), &[c.cold as u8], what.as_bytes()]));
        case(&w, format!("{}{}: {what}", c.args.join(" "), if c.cold { ", nothing cached" } else { "" }), |w| fault(w, c, plan, *from));
        free.lock().unwrap().push(w);
    });
}

fn fault(w: &World, c: &Cmd, plan: &[(usize, Mode)], from: Option<(usize, u16)>) -> Result<(), String> {
    run().step();
    let a = account_of(w);
    let before: Vec<_> = object_files(&w.p("bucket-one"));
    a.plan(plan, from);
    let o = w.bp_repo(&c.args, &w.p("odd"));
    let (reqs, hits) = (a.requests(), a.hits());
    a.plan(&[], None);
    if o.panicked() || o.timed_out {
        return Err(format!("{} (requests: {})", o.brief(), reqs.iter().rev().take(6).rev().cloned().collect::<Vec<_>>().join(", ")));
    }
    let permanent = from.is_some() || plan.iter().any(|p| matches!(p.1, Mode::Status(s) if ![408, 429].contains(&s) && s < 500));
    run().outcome(format!("{} {} {}", c.args[0], if permanent { "permanent" } else { "transient" }, if hits == 0 { "never reached" } else if o.ok() { "succeeds" } else { "fails" }));
    if permanent && hits > 0 && o.ok() {
        return Err("the store refuses, but the command succeeds".into());
    }
    // Logging in need not be tried again, nor what was cut short while it came in.
    let may_fail = plan.iter().any(|(k, m)| reqs.get(*k).is_some_and(|r| SESSION.contains(&r.as_str()) || r == "b2_get_upload_url" || r.starts_with("download") && *m == Mode::Cut));
    if !permanent && !may_fail && !o.ok() {
        return Err(format!("a passing failure ends the command: {}", o.brief()));
    }
    // whatever happened, what snapshots there were are there and intact
    let r = crate::repo::Repo::load(&w.p("bucket-one"));
    for s in r.chrono() {
        r.expand(s).map_err(|e| format!("snapshot {}: {e}", crate::repo::id_str(&s.id)))?;
    }
    let r2 = crate::repo::Repo::load(&w.p("bucket-two"));
    for s in r2.chrono() {
        r2.expand(s).map_err(|e| format!("snapshot {} of the second: {e}", crate::repo::id_str(&s.id)))?;
    }
    let after = object_files(&w.p("bucket-one"));
    for (d, n, b) in &before {
        match after.iter().find(|x| x.0 == *d && x.1 == *n) {
            None if *d == "snapshots" && c.args[0] != "forget" => return Err(format!("{d}/{n} is gone")),
            Some(x) if x.2 != *b => return Err(format!("{d}/{n} has changed")),
            _ => {}
        }
    }
    // the plain side, once and without trouble
    let now = w.now.get();
    save(&w.root, &["cwd"], "c");
    fresh(&w.cwd());
    w.now.set(now - 1);
    let b: Vec<&str> = c.args.iter().map(|x| if *x == "../odd2" { "../plain2" } else { x }).collect();
    fresh(&w.p("out"));
    let x = w.bp_repo(&b, &w.p("plain"));
    restore(&w.root, &["cwd"], "c");
    if o.ok() {
        let mut o = o;
        let mut x = x;
        if c.args[0] == "usage" {
            for o in [&mut x, &mut o] {
                o.out = o.out.lines().filter(|l| !l.contains("ackblaze") && !l.contains("ilesystem")).collect::<Vec<_>>().join("\n");
            }
        }
        // retries are reported with the rest
        for o in [&mut x, &mut o] {
            o.out = o.out.lines().filter(|l| !l.contains("retrying")).map(|l| format!("{l}\n")).collect();
        }
        TWIN.compare(w, &c.args, &x, &o)?;
        objects(w)?;
    } else {
        // again, now that the trouble is over
        if c.args[0] != "forget" || r.snaps.len() == before.iter().filter(|x| x.0 == "snapshots").count() {
            let again = w.bp_repo(&c.args, &w.p("odd"));
            if !again.ok() {
                return Err(format!("afterwards, `{}`: {}", c.args.join(" "), again.brief()));
            }
        }
        let again = w.bp_repo(&["check", "-r"], &w.p("odd"));
        if !again.ok() {
            return Err(format!("afterwards, check -r: {}", again.brief()));
        }
        return doubles(w);
    }
    if !tier(true, false) || ["backup", "prune", "copy"].contains(&c.args[0]) {
        judge(w, false)?;
    }
    doubles(w)
}

/// An upload that seemed to fail, but did not, is repeated and leaves several versions of an object: removing it removes all of them.
fn doubles(w: &World) -> Result<(), String> {
    for (bucket, repo) in [("bucket-one", "odd"), ("bucket-two", "odd2")] {
        if std::fs::read_dir(w.p(bucket).join("older")).into_iter().flatten().count() == 0 {
            continue;
        }
        run().outcome("several versions of an object");
        let all: Vec<String> = object_files(&w.p(bucket)).into_iter().filter(|o| o.0 == "snapshots").map(|o| o.1.split('.').next().unwrap().to_string()).collect();
        let mut a = vec!["forget"];
        a.extend(all.iter().map(|s| s.as_str()));
        for a in [&a[..], &["prune"]] {
            let o = w.bp_repo(a, &w.p(repo));
            if !o.ok() {
                return Err(format!("with several versions of an object, `{}`: {}", a[0], o.brief()));
            }
        }
        if let Some((d, n, _)) = object_files(&w.p(bucket)).iter().find(|o| o.0 != "indexes") {
            return Err(format!("with several versions of an object, everything forgotten and pruned: {d}/{n} is still there"));
        }
    }
    Ok(())
}
