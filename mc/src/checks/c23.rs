//! C23: filtered repositories.
use super::tier;
use crate::cli::*;
use crate::codec;
use crate::gen::*;
use crate::hist::*;
use crate::scen::*;
use crate::twin::*;
use crate::util::*;
use std::path::Path;
use std::time::Duration;

const DIRS: [&str; 6] = ["plain", "plain2", "odd", "odd2", "home", "cwd"];

fn world() -> World {
    let mut w = World::new();
    std::fs::create_dir(w.p("ctl")).unwrap();
    w.env.push(("MC_CTL".into(), w.p("ctl").to_string_lossy().into_owned()));
    w.env.push(("MC_SELF".into(), std::env::current_exe().unwrap().to_string_lossy().into_owned()));
    w.timeout = Duration::from_secs(20);
    w
}
fn plan(w: &World, p: &str) {
    fresh(&w.p("ctl"));
    std::fs::write(w.p("ctl/plan"), p).unwrap();
}
fn invocations(w: &World) -> (usize, usize) {
    let n = |k: &str| std::fs::read_dir(w.p("ctl")).map(|d| d.flatten().filter(|e| e.file_name().to_string_lossy().starts_with(k)).count()).unwrap_or(0);
    (n("enc."), n("dec."))
}

/// Ways to call the filter.
const CALLS: [(&str, &str); 4] = [("$MC_SELF --filter enc", "$MC_SELF --filter dec"), ("$MC_SELF --filter enc; exit $?", "$MC_SELF --filter dec; exit $?"), ("cat | $MC_SELF --filter enc", "cat | $MC_SELF --filter dec"), ("exec \"$MC_SELF\" --filter \"enc\"", "exec '$MC_SELF' --filter dec")];

fn configure(w: &World, repo: &str, call: (&str, &str)) {
    let p = w.p(repo).join("config.toml");
    let c = std::fs::read_to_string(&p).unwrap();
    let q = |s: &str| format!("{s:?}");
    std::fs::write(p, format!("filter = {}\nunfilter = {}\n{c}", q(call.0), q(call.1))).unwrap();
}

fn setup(w: &World, pack: &str, call: (&str, &str)) -> Result<(), String> {
    for r in ["plain", "plain2", "odd", "odd2"] {
        cmd_ok(w, r, &["init", "-p", pack, "filesystem"])?;
    }
    for r in ["odd", "odd2"] {
        configure(w, r, call);
    }
    rebuild(&w.src(), &tree("A"));
    Ok(())
}

/// As `var`, with something beyond what fits into a pipe.
fn tree(v: &str) -> N {
    let N::D(mut m, a, b) = var(if v == "new" { "B" } else { v }) else { unreachable!() };
    if v != "A" {
        m.insert("large".into(), f(&noise(v.as_bytes()[0] as u64, 200_000)));
    }
    N::D(m, a, b)
}

/// The stored objects are the filtered repository's, filtered.
fn objects(w: &World) -> Result<(), String> {
    for (a, b) in [("plain", "odd"), ("plain2", "odd2")] {
        let (x, y) = (object_files(&w.p(a)), object_files(&w.p(b)));
        let nx: Vec<_> = x.iter().map(|o| format!("{}/{}", o.0, o.1)).collect();
        let ny: Vec<_> = y.iter().map(|o| format!("{}/{}", o.0, o.1)).collect();
        if nx != ny {
            return Err(format!("the filtered repository holds {ny:?}, the plain one {nx:?}"));
        }
        for (p, q) in x.iter().zip(&y) {
            if codec::enc(&p.2) != q.2 {
                return Err(format!("{}/{} of the filtered repository is not the filter's output ({} bytes for {})", p.0, p.1, q.2.len(), p.2.len()));
            }
        }
    }
    Ok(())
}

fn same(w: &World, src: Option<&N>, a: &[&str]) -> Result<(), String> {
    let (mut x, mut y) = TWIN.both(w, src, a);
    if a[0] == "usage" {
        // names the filter and the sizes of what is stored
        for o in [&mut x, &mut y] {
            o.out = o.out.split("usage after").next().unwrap_or("").lines().take_while(|l| !l.contains("after zstd")).collect::<Vec<_>>().join("\n");
        }
    }
    run().outcome(format!("{} {}", a[0], if x.ok() { "ok" } else { "fails" }));
    TWIN.compare(w, a, &x, &y)
}

fn step(w: &World, op: &str) -> Result<Step, String> {
    let bk = |v: &str| same(w, Some(&tree(v)), &["backup", "-a", "me", "--allow-repeat", "../src"]);
    match op {
        "backup A" => bk("A")?,
        "backup B" => bk("B")?,
        "backup C" => bk("C")?,
        "forget oldest" | "forget LAST" => {
            let all = ids(&w.p("plain"));
            let Some(id) = (if op == "forget LAST" { all.last() } else { all.first() }) else { return Ok(Step::Skip) };
            same(w, None, &["forget", id])?;
        }
        "prune" => same(w, None, &["prune"])?,
        "rebuild-index" => same(w, None, &["rebuild-index"])?,
        "filter-snapshot" => same(w, None, &["filter-snapshot", "-a", "me", "-s", "^src/[xw]$", "LAST"])?,
        "copy to the second" => same(w, None, &["copy", "--to", "../%2", "--all"])?,
        "copy from plain to filtered" => {
            let t = Twin { u: "plain", u2: "plain2", k: "plain", k2: "odd2" };
            let (x, y) = t.both(w, None, &["copy", "--to", "../%2", "--all"]);
            t.compare(w, &["copy"], &x, &y)?;
        }
        "copy from filtered to plain" => {
            let t = Twin { u: "plain", u2: "plain2", k: "odd", k2: "plain2" };
            let now = w.now.get();
            let y = w.bp_repo(&["copy", "--to", "../plain2", "--all"], &w.p("odd"));
            w.now.set(now);
            let x = w.bp_repo(&["copy", "--to", "../odd2", "--all"], &w.p("odd"));
            t.compare(w, &["copy"], &x, &y)?;
        }
        "cache lost" => rm_rf(&w.p("home/.cache")),
        _ => unreachable!(),
    }
    Ok(Step::Next)
}
const OPS: &[&str] = &[
    "backup A", "backup B", "backup C", "forget oldest", "forget LAST", "prune", "rebuild-index", "filter-snapshot", "copy to the second", "copy from plain to filtered", "copy from filtered to plain", "cache lost",
];

fn judge(w: &World, all: bool) -> Result<(), String> {
    objects(w)?;
    if all {
        cwd_clean(w, "cwd")?;
    }
    save(&w.root, &["odd", "odd2", "plain", "plain2", "home"], "judge");
    let (now, log) = (w.now.get(), w.log.borrow().len());
    let res = (|| {
        for r in twin_readers() {
            if all || ["snapshots", "check", "ls"].contains(&r[0]) {
                same(w, None, &r)?;
            }
        }
        for id in ids(&w.p("plain")).iter().rev().take(if all { 9 } else { 1 }) {
            TWIN.same_restore(w, id)?;
        }
        objects(w)
    })();
    restore(&w.root, &["odd", "odd2", "plain", "plain2", "home"], "judge");
    w.now.set(now);
    if res.is_ok() {
        w.log.borrow_mut().truncate(log);
    }
    res
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    histories();
    faults();
    damaged();
    (
        "model_checking",
        "a filtered repository and a plain one driven through the same histories: all histories up to a depth over 12 operations, each with the same status, output and effect, the stored objects being exactly the filter's output; every invocation of the filter by every command x 10 ways to fail; every stored object damaged in many ways",
        true,
    )
}

fn histories() {
    for (k, pack) in [(0, "100MiB"), (2, "1000B")] {
        let e = Explorer {
            ops: OPS.iter().map(|s| format!("[{}] {s}", CALLS[k].0)).collect(),
            depth: tier(if k == 0 { 2 } else { 1 }, 3),
            dirs: &["plain", "plain2", "odd", "odd2", "home", "cwd"],
            setup: &|_, _| {},
            apply: &|w, m, op| {
                if m.aux.is_empty() {
                    m.aux.push(1);
                    setup(w, pack, CALLS[k])?;
                    step(w, "backup A")?;
                }
                step(w, OPS[op])
            },
            check: &|w, _, _| judge(w, true),
            key: &|w, _| {
                let mut b = vec![w.p("home/.cache").exists() as u8];
                for r in ["plain", "plain2"] {
                    b.extend(repo_key(w, r, "cwd").to_le_bytes());
                }
                fnv(&[&b])
            },
        };
        go_in(&e);
    }
}

/// Explorer::go in worlds that have the filter.
fn go_in(e: &Explorer) {
    e.go_with(&world);
}

struct Cmd {
    args: Vec<&'static str>,
    cold: bool,
    v: &'static str,
}

fn commands() -> Vec<Cmd> {
    let mut v = vec![];
    let mut add = |args: &[&'static str], cold: bool, t: &'static str| v.push(Cmd { args: args.to_vec(), cold, v: t });
    add(&["backup", "-a", "me", "../src"], false, "new");
    add(&["backup", "-a", "me", "../src"], true, "new");
    for r in [&["snapshots", "--sizes", "--stat"][..], &["ls", "LAST"], &["diff", "LAST~", "LAST"], &["dump", "LAST", "src/large"], &["cat", "snapshot", "LAST"], &["usage"], &["prune", "-n"], &["restore", "-t", "-p", "-o", "../out", "LAST"], &["check"]] {
        add(r, true, "A");
    }
    for c in [false, true] {
        add(&["check", "-r"], c, "A");
        add(&["forget", "LAST~"], c, "A");
        add(&["prune"], c, "A");
        add(&["rebuild-index"], c, "A");
        add(&["filter-snapshot", "-a", "me", "-s", "/large$", "LAST"], c, "A");
        add(&["copy", "--to", "../odd2", "--all"], c, "A");
    }
    add(&["copy", "--to", "../plain2", "--all"], true, "A");
    v
}

/// Every invocation of the filter by every command x every way to fail.
fn faults() {
    let w0 = world();
    let res = (|| {
        setup(&w0, "100MiB", CALLS[0])?;
        for op in ["backup A", "backup B", "copy to the second", "forget oldest", "backup C"] {
            step(&w0, op)?;
        }
        objects(&w0)
    })();
    if let Err(e) = res {
        return run().violation("setup faults", e, w0.history());
    }
    let cmds = commands();
    let (root0, now0) = (w0.root.clone(), w0.now.get());
    let load = |w: &World| {
        for d in DIRS {
            rm_rf(&w.p(d));
            copy_tree(&root0.join(d), &w.p(d)).unwrap();
        }
        save(&w.root, &DIRS, "s");
    };
    let prep = |w: &World, c: &Cmd| {
        restore(&w.root, &DIRS, "s");
        rm_rf(&w.p("out"));
        std::fs::create_dir(w.p("out")).unwrap();
        w.now.set(now0 + 10);
        if c.cold {
            rm_rf(&w.p("home/.cache"));
        }
        rebuild(&w.src(), &tree(c.v));
    };
    // how often does each call the filter?
    let counts = par_map(&cmds, |_, c| {
        let w = world();
        load(&w);
        prep(&w, c);
        plan(&w, "");
        let o = w.bp_repo(&c.args, &w.p("odd"));
        if !o.ok() {
            run().violation(format!("{} on a filtered repository", c.args.join(" ")), o.brief(), w.history());
            return (0, 0);
        }
        invocations(&w)
    });
    let mut tasks = vec![];
    for (i, (e, d)) in counts.iter().map(|c| c.unwrap_or((0, 0))).enumerate().map(|(i, c)| (i, (c.0, c.1))).collect::<Vec<_>>().iter() {
        let i = *i;
        run().note(&format!("filter invocations of {}{}", cmds[i].args.join(" "), if cmds[i].cold { ", nothing cached" } else { "" }), e + d);
        for (what, n) in [("enc", *e), ("dec", *d)] {
            for k in 0..n {
                for (call, _) in CALLS.iter().enumerate().take(tier(1, 2)) {
                    tasks.push((i, what, k, call));
                }
            }
        }
    }
    let free = std::sync::Mutex::new(vec![]);
    par_map(&tasks, |_, (i, what, k, call)| {
        let w: World = free.lock().unwrap().pop().unwrap_or_else(|| {
            let w = world();
            load(&w);
            w
        });
        let c = &cmds[*i];
        for (m, mode) in codec::MODES.iter().enumerate() {
            if run().stopped() {
                break;
            }
            prep(&w, c);
            if *call > 0 {
                for r in ["odd", "odd2"] {
                    w.bp_repo(&["init", "-p", "100MiB", "filesystem"], &w.p("other"));
                    std::fs::rename(w.p("other/config.toml"), w.p(r).join("config.toml")).unwrap();
                    rm_rf(&w.p("other"));
                    configure(&w, r, CALLS[*call]);
                }
            }
            plan(&w, &format!("{what} {k} {m}"));
            run().state(fnv(&[b"fault", c.args.join(" ").as_bytes(), what.as_bytes(), &[c.cold as u8, *k as u8, m as u8, *call as u8]]));
            let name = format!("{}{}: {} {k} {mode}", c.args.join(" "), if c.cold { ", nothing cached" } else { "" }, if *what == "enc" { "filter" } else { "unfilter" });
            case(&w, name, |w| fault(w, c));
        }
        free.lock().unwrap().push(w);
    });
}

fn fault(w: &World, c: &Cmd) -> Result<(), String> {
    run().step();
    let before = object_files(&w.p("odd"));
    let o = w.bp_repo(&c.args, &w.p("odd"));
    let failed = w.p("ctl/failed").exists();
    plan(w, "");
    if o.panicked() || o.timed_out {
        return Err(o.brief());
    }
    run().outcome(format!("{} {}", c.args[0], if !failed { "never came to it" } else if o.ok() { "succeeds" } else { "fails" }));
    if failed && o.ok() {
        return Err("the filter failed but the command succeeded".into());
    }
    if !failed && !o.ok() {
        return Err(format!("the filter did not fail but {}", o.brief()));
    }
    // Nothing of it is stored: the objects decode, and the decoded repository is sound.
    for (r, p) in [("odd", "plain"), ("odd2", "plain2")] {
        decode(w, r, p)?;
    }
    let after = object_files(&w.p("odd"));
    for (d, n, _) in &before {
        let gone = !after.iter().any(|x| x.0 == *d && x.1 == *n);
        if gone && *d == "snapshots" && c.args[0] != "forget" {
            return Err(format!("{d}/{n} is gone"));
        }
    }
    if c.args[0] == "copy" && c.args[2] == "../plain2" {
        // no twin for this one
        let a: Vec<&str> = c.args.clone();
        let o = w.bp_repo(&a, &w.p("odd"));
        if !o.ok() {
            return Err(format!("afterwards, {}", o.brief()));
        }
        decode(w, "odd", "plain")?;
        return w.bp_repo(&["check", "-r"], &w.p("plain2")).ok().then_some(()).ok_or("afterwards, check -r fails".into());
    }
    // From here on, no difference between the two.
    save(&w.root, &["cwd"], "c");
    let mut a: Vec<&str> = c.args.clone();
    if a[0] == "forget" {
        a = vec!["backup", "--allow-repeat", "../src"];
    }
    let mut sides = vec![];
    for (r, r2) in [("plain", "../plain2"), ("odd", "../odd2")] {
        restore(&w.root, &["cwd"], "c");
        w.now.set(w.now.get().div_euclid(1000) * 1000 + 1000);
        let b: Vec<&str> = a.iter().map(|x| if *x == "../odd2" { r2 } else { x }).collect();
        sides.push(w.bp_repo(&b, &w.p(r)));
        w.now.set(w.now.get() - 1001);
    }
    if !sides[1].ok() {
        return Err(format!("afterwards, `{}`: {}", a.join(" "), sides[1].brief()));
    }
    if a[0] != "usage" {
        TWIN.compare(w, &a, &sides[0], &sides[1])?;
    }
    w.now.set(w.now.get() + 2000);
    if tier(true, false) && ["snapshots", "ls", "diff", "dump", "cat", "usage", "check", "restore"].contains(&a[0]) {
        return objects(w);
    }
    judge(w, false)
}

/// `to` becomes what is stored in `from`, decoded.
fn decode(w: &World, from: &str, to: &str) -> Result<(), String> {
    for d in ["packs", "indexes", "snapshots"] {
        fresh(&w.p(to).join(d));
    }
    for (d, n, b) in object_files(&w.p(from)) {
        let b = codec::dec(&b).map_err(|_| format!("{from}/{d}/{n} is not the filter's output"))?;
        std::fs::write(w.p(to).join(d).join(n), b).unwrap();
    }
    let r = crate::repo::Repo::load(&w.p(to));
    for s in r.chrono() {
        r.expand(s).map_err(|e| format!("snapshot {} of {from}: {e}", id_short(&s.id)))?;
    }
    Ok(())
}
fn id_short(id: &crate::repo::Id) -> String {
    crate::repo::id_str(id)[..8].into()
}

/// Damage is the unfilter program's to find; whatever it says counts.
fn damaged() {
    let w0 = world();
    let res = (|| {
        setup(&w0, "1000B", CALLS[0])?;
        for op in ["backup A", "backup C"] {
            step(&w0, op)?;
        }
        Ok::<_, String>(())
    })();
    if let Err(e) = res {
        return run().violation("setup damage", e, w0.history());
    }
    let objs = object_files(&w0.p("odd"));
    let root0 = w0.root.clone();
    par_map(&objs, |_, (d, n, b)| {
        let w = world();
        for x in DIRS.iter().chain(&["src"]) {
            rm_rf(&w.p(x));
            copy_tree(&root0.join(x), &w.p(x)).unwrap();
        }
        rm_rf(&w.p("home/.cache"));
        let p: &Path = &w.p("odd").join(d).join(n);
        let mut dmg: Vec<(String, Vec<u8>)> = vec![("emptied".into(), vec![]), ("longer by a byte".into(), [&b[..], &[0]].concat())];
        let mut at: Vec<usize> = (0..b.len()).step_by((b.len() / tier(6, 60)).max(1)).collect();
        at.extend([4, b.len() - 13, b.len() - 12, b.len() - 1]);
        at.sort();
        at.dedup();
        for i in at {
            let mut x = b.clone();
            x[i] ^= 0x55;
            dmg.push((format!("byte {i} changed"), x));
            dmg.push((format!("cut at {i}"), b[..i].to_vec()));
        }
        for (what, to) in dmg {
            if run().stopped() {
                return;
            }
            std::fs::write(p, &to).unwrap();
            run().state(fnv(&[b"damage", d.as_bytes(), n.as_bytes(), what.as_bytes()]));
            for a in [&["check", "-r"][..], &["rebuild-index"], &["snapshots", "--stat"], &["restore", "-o", "../out", "LAST"]] {
                case(&w, format!("{d} object of {} bytes {what}: {}", b.len(), a.join(" ")), |w| {
                    run().step();
                    fresh(&w.p("out"));
                    save(&w.root, &["odd", "home", "cwd"], "d");
                    plan(w, "");
                    let o = w.bp_repo(a, &w.p("odd"));
                    let failed = w.p("ctl/failed").exists();
                    restore(&w.root, &["odd", "home", "cwd"], "d");
                    if o.panicked() || o.timed_out {
                        return Err(o.brief());
                    }
                    run().outcome(format!("damage {} {}", a[0], if o.ok() { "unnoticed" } else { "noticed" }));
                    if o.ok() && failed {
                        return Err("unfiltering it fails, but the command succeeds".into());
                    }
                    Ok(())
                });
            }
        }
        std::fs::write(p, b).unwrap();
    });
}
