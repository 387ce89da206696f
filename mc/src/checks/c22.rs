//! C22: the local cache changes nothing.
use super::tier;
use crate::cli::*;
use crate::e1::*;
use crate::explore::*;
use crate::gen::*;
use crate::hist::*;
use crate::scen::*;
use crate::twin::*;
use crate::util::*;
use std::path::PathBuf;

const DIRS: [&str; 6] = ["plain", "plain2", "odd", "odd2", "home", "cwd"];
const OPS: &[&str] = &[
    "backup A", "backup B", "backup C", "forget oldest", "forget LAST", "prune", "rebuild-index", "filter-snapshot", "copy to the second", "copy back",
    "cache lost", "cached files lost", "cache records lost", "an old cache comes back", "a small cache from now on",
];
/// one below, in the middle of and above the sizes of the objects
const LIMITS: [&str; 5] = ["1B", "200B", "700B", "2500B", "1GiB"];
fn bytes(limit: usize) -> u64 {
    [1, 200, 700, 2500, 1 << 30][limit]
}

fn cache(w: &World) -> PathBuf {
    w.p("home/.cache/backpak")
}
fn objects_in_cache(w: &World) -> Vec<(String, u64)> {
    let mut v: Vec<(String, u64)> = std::fs::read_dir(cache(w)).map(|d| d.flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), e.metadata().map(|m| m.len()).unwrap_or(0))).filter(|e| !e.0.starts_with("cache_metadata")).collect()).unwrap_or_default();
    v.sort();
    v
}
fn set_limit(w: &World, limit: usize) {
    let p = w.p("config.toml");
    std::fs::write(&p, format!("cache_size = \"{}\"\n", LIMITS[limit])).unwrap();
    *w.config.borrow_mut() = p.to_string_lossy().into_owned();
}

fn setup(w: &World, pack: &str) -> Result<(), String> {
    for (r, f) in [("plain", false), ("plain2", false), ("odd", true), ("odd2", true)] {
        let mut a = vec!["init", "-p", pack, "filesystem"];
        if f {
            a.push("--force-cache");
        }
        cmd_ok(w, r, &a)?;
    }
    rebuild(&w.src(), &var("A"));
    Ok(())
}

/// One step of a history on both sides.
fn step(w: &World, op: &str) -> Result<Step, String> {
    let bk = |v: &str| TWIN.same(w, Some(&var(v)), &["backup", "-a", "me", "--allow-repeat", "../src"]);
    match op {
        "backup A" => drop(bk("A")?),
        "backup B" => drop(bk("B")?),
        "backup C" => drop(bk("C")?),
        "forget oldest" | "forget LAST" => {
            let all = ids(&w.p("plain"));
            let Some(id) = (if op == "forget LAST" { all.last() } else { all.first() }) else { return Ok(Step::Skip) };
            TWIN.same(w, None, &["forget", id])?;
        }
        "prune" => drop(TWIN.same(w, None, &["prune"])?),
        "rebuild-index" => drop(TWIN.same(w, None, &["rebuild-index"])?),
        "filter-snapshot" => drop(TWIN.same(w, None, &["filter-snapshot", "-a", "me", "-s", "^src/[xw]$", "LAST"])?),
        "copy to the second" => drop(TWIN.same(w, None, &["copy", "--to", "../%2", "--all"])?),
        "copy back" => {
            // the other way round
            let back = Twin { u: "plain2", u2: "plain", k: "odd2", k2: "odd" };
            back.same(w, None, &["copy", "--to", "../%2", "--all"])?;
        }
        "cache lost" => rm_rf(&cache(w)),
        "cached files lost" => {
            for (n, _) in objects_in_cache(w) {
                std::fs::remove_file(cache(w).join(n)).unwrap();
            }
        }
        "cache records lost" => {
            for s in ["", "-wal", "-shm"] {
                let _ = std::fs::remove_file(cache(w).join(format!("cache_metadata.sqlite{s}")));
            }
        }
        "an old cache comes back" => {
            let old = w.p("old-cache");
            if !old.exists() {
                return Ok(Step::Skip);
            }
            rm_rf(&cache(w));
            copy_tree(&old, &cache(w)).map_err(|e| e.to_string())?;
        }
        _ => set_limit(w, 1),
    }
    Ok(Step::Next)
}

fn judge(w: &World, op: &str, limit: usize) -> Result<(), String> {
    let meddled = op.contains("cache");
    // leftovers: keep the first cache that holds something
    if !w.p("old-cache").exists() && objects_in_cache(w).len() > 1 {
        copy_tree(&cache(w), &w.p("old-cache")).map_err(|e| e.to_string())?;
    }
    if !meddled {
        TWIN.same_objects(w)?;
        cwd_clean(w, "cwd")?;
    }
    let tag = "judge";
    save(&w.root, &["odd", "odd2", "home"], tag);
    let log = w.log.borrow().len();
    let now = w.now.get();
    let res = (|| {
        for r in twin_readers() {
            let r: Vec<&str> = r;
            let o = TWIN.same(w, None, &r)?;
            run().outcome(format!("{} {}", r[0], if o.ok() { "ok" } else { "fails" }));
        }
        for id in ids(&w.p("plain")) {
            TWIN.same_restore(w, &id)?;
        }
        TWIN.same_objects(w)?;
        cwd_clean(w, "cwd")
    })();
    let _ = limit;
    restore(&w.root, &["odd", "odd2", "home"], tag);
    w.now.set(now);
    if res.is_ok() {
        w.log.borrow_mut().truncate(log);
    }
    res
}

/// What fits: the newest objects up to the limit, the last of them possibly beyond it.
fn within(w: &World, limit: u64) -> Result<(), String> {
    let o = objects_in_cache(w);
    let sum: u64 = o.iter().map(|x| x.1).sum();
    let max = o.iter().map(|x| x.1).max().unwrap_or(0);
    if sum > limit && sum - max >= limit && o.len() > 1 {
        return Err(format!("the cache holds {sum} bytes in {} objects, the largest {max}, with a limit of {limit}", o.len()));
    }
    Ok(())
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    run().assume("nothing else damages the files in the cache");
    histories();
    subsets();
    limits();
    damaged();
    interrupted();
    (
        "model_checking",
        "a cached repository and a plain one driven through the same histories: all histories up to a depth over 15 operations (losing the cache, its files or its records, getting an old one back, shrinking it) x 5 cache limits, all subsets of cached objects x commands, every crash state of cache insertion and eviction; each command must have the same status, output and effect on both; the cache stays within its limit; check -r sees every damage whatever is cached",
        true,
    )
}

fn histories() {
    for (k, pack) in [(4, "100MiB"), (0, "100MiB"), (1, "1000B"), (2, "1000B"), (3, "100MiB")] {
        if run().stopped() || (tier(true, false) && (k == 3 || k == 1)) {
            continue;
        }
        let e = Explorer {
            ops: OPS.iter().map(|s| format!("[cache of {}] {s}", LIMITS[k])).collect(),
            depth: tier(2, 3),
            dirs: &["plain", "plain2", "odd", "odd2", "home", "cwd", "old-cache"],
            setup: &|w, m| {
                set_limit(w, k);
                setup(w, pack).expect("setup");
                m.aux = vec![k as u64];
                if let Err(e) = step(w, "backup A") {
                    run().violation(format!("setup {}", LIMITS[k]), e, w.history());
                }
            },
            apply: &|w, m, op| {
                set_limit(w, m.aux[0] as usize);
                let r = step(w, OPS[op]);
                if OPS[op].starts_with("a small") {
                    m.aux[0] = 1;
                }
                r
            },
            check: &|w, m, op| {
                set_limit(w, m.aux[0] as usize);
                judge(w, OPS[op], m.aux[0] as usize)
            },
            key: &|w, m| {
                let mut p = vec![m.aux[0]];
                for r in ["odd", "odd2"] {
                    p.push(repo_key(w, r, "cwd"));
                }
                let c = format!("{:?}", objects_in_cache(w).iter().filter(|x| !x.0.ends_with(".snapshot")).collect::<Vec<_>>());
                p.push(fnv(&[c.as_bytes(), &[w.p("old-cache").exists() as u8, cache(w).join("cache_metadata.sqlite").exists() as u8, objects_in_cache(w).len() as u8]]));
                let b: Vec<u8> = p.iter().flat_map(|x| x.to_le_bytes()).collect();
                fnv(&[&b])
            },
        };
        e.go();
    }
}

fn prepared(pack: &str, limit: usize) -> Result<World, String> {
    let w = World::new();
    set_limit(&w, limit);
    setup(&w, pack)?;
    for op in ["backup A", "backup B", "forget oldest", "backup C", "copy to the second"] {
        step(&w, op)?;
    }
    Ok(w)
}

/// Every subset of the cached objects missing, with and without the records, x every command.
fn subsets() {
    let w = match prepared("100MiB", 4) {
        Ok(w) => w,
        Err(e) => return run().violation("setup subsets", e, ""),
    };
    let obs = objects_in_cache(&w);
    let n = obs.len().min(tier(8, 13));
    let mut cmds: Vec<Vec<String>> = twin_readers().into_iter().map(|r| r.into_iter().map(String::from).collect()).collect();
    for c in [&["prune"][..], &["rebuild-index"], &["backup", "-a", "me", "../src"], &["filter-snapshot", "-a", "me", "-s", "^src/w", "LAST"], &["copy", "--to", "../%2", "--all"], &["forget", "LAST~"]] {
        cmds.push(c.iter().map(|s| s.to_string()).collect());
    }
    let mut cases = vec![];
    for set in 0..1u32 << n {
        for rec in 0..2 {
            for (i, _) in cmds.iter().enumerate() {
                if run().thorough || (set.count_ones() as usize <= 1 || set.count_ones() as usize >= n - 1 || (set as usize + rec) % cmds.len() == i) {
                    cases.push((set, rec, i));
                }
            }
        }
    }
    let k = nthreads() * 3;
    let chunks: Vec<Vec<(u32, usize, usize)>> = (0..k).map(|i| cases.iter().skip(i).step_by(k).cloned().collect()).collect();
    let root = w.root.clone();
    let now = w.now.get();
    par_map(&chunks, |_, c| {
        let w = World::new();
        set_limit(&w, 4);
        for d in DIRS.iter().chain(&["src"]) {
            rm_rf(&w.p(d));
            copy_tree(&root.join(d), &w.p(d)).unwrap();
        }
        save(&w.root, &DIRS, "s");
        for (set, rec, i) in c {
            if run().stopped() {
                return;
            }
            restore(&w.root, &DIRS, "s");
            w.now.set(now);
            for (j, o) in obs.iter().enumerate() {
                if j < n && set >> j & 1 == 1 {
                    std::fs::remove_file(cache(&w).join(&o.0)).unwrap();
                }
            }
            if *rec == 1 {
                let _ = step(&w, "cache records lost");
            }
            run().state(fnv(&[b"subset", &set.to_le_bytes(), &[*rec as u8]]));
            let a: Vec<&str> = cmds[*i].iter().map(|s| s.as_str()).collect();
            case(&w, format!("{} of {} cached objects missing ({set:b}), records {}: {}", set.count_ones(), obs.len(), if *rec == 0 { "kept" } else { "lost" }, a.join(" ")), |w| {
                run().step();
                TWIN.same(w, None, &a)?;
                TWIN.same_objects(w)?;
                for id in ids(&w.p("plain")).iter().rev().take(1) {
                    TWIN.same_restore(w, id)?;
                }
                cwd_clean(w, "cwd")
            });
        }
    });
}

/// With a running clock, the cache never outgrows its limit, and keeps what was used last.
fn limits() {
    let all: Vec<usize> = (0..LIMITS.len()).collect();
    let mut tasks = vec![];
    for l in all {
        for pack in ["100MiB", "1000B"] {
            for i in 0..10 {
                tasks.push((l, pack, i));
            }
        }
    }
    par_map(&tasks, |_, (l, pack, first)| {
        let mut w = World::new();
        w.env.push(("MC_TICK".into(), "1".into()));
        set_limit(&w, *l);
        let made = case(&w, format!("cache of {} with packs of {pack}: setup", LIMITS[*l]), |w| {
            for r in ["odd", "odd2"] {
                cmd_ok(w, r, &["init", "-p", pack, "filesystem", "--force-cache"])?;
            }
            rebuild(&w.src(), &var("A"));
            Ok(())
        });
        if !made {
            return;
        }
        let cmds: Vec<Vec<&str>> = vec![
            vec!["backup", "../src"],
            vec!["backup", "--allow-repeat", "../src"],
            vec!["snapshots", "--sizes"],
            vec!["check"],
            vec!["check", "-r"],
            vec!["prune"],
            vec!["rebuild-index"],
            vec!["copy", "--to", "../odd2", "--all"],
            vec!["forget", "LAST~"],
            vec!["dump", "LAST", "src/x"],
        ];
        let dirs = ["odd", "odd2", "home", "cwd"];
        let go = |w: &World, c: &Vec<&str>, v: usize, hist: &str| {
            rebuild(&w.src(), &var(["A", "B", "C"][v % 3]));
            case(w, format!("cache of {} with packs of {pack}: {hist} ; {}", LIMITS[*l], c.join(" ")), |w| {
                run().step();
                let o = w.bp_repo(c, &w.p("odd"));
                let n = ids(&w.p("odd")).len();
                let may_fail = c[0] == "dump" || c[0] == "forget" && n < 2;
                if o.panicked() || o.timed_out || !o.ok() && !may_fail {
                    return Err(o.brief());
                }
                run().outcome(format!("limit respected after {}", c[0]));
                within(w, bytes(*l))?;
                // its records account for every object
                cwd_clean(w, "cwd")
            })
        };
        for c in &cmds[..1] {
            if !go(&w, c, 0, "") || !go(&w, c, 1, "") {
                return;
            }
        }
        if !go(&w, &cmds[*first], 2, "") {
            return;
        }
        save(&w.root, &dirs, "a");
        let now = w.now.get();
        for (i, a) in cmds.iter().enumerate() {
            restore(&w.root, &dirs, "a");
            w.now.set(now);
            if run().stopped() || !go(&w, a, i, cmds[*first][0]) {
                continue;
            }
            save(&w.root, &dirs, "b");
            for (j, b) in cmds.iter().enumerate() {
                if j > 0 {
                    restore(&w.root, &dirs, "b");
                }
                w.now.set(now + 1);
                run().state(fnv(&[b"limit", &[*l as u8, *first as u8, i as u8, j as u8, pack.len() as u8]]));
                go(&w, b, i + j, &format!("{} ; {}", cmds[*first][0], a[0]));
            }
        }
    });
}

/// A full cache does not hide damage from a full check.
fn damaged() {
    let w = match prepared("1000B", 4) {
        Ok(w) => w,
        Err(e) => return run().violation("setup damage", e, ""),
    };
    let objs = object_files(&w.p("odd"));
    let root = w.root.clone();
    let now = w.now.get();
    par_map(&objs, |_, (d, n, b)| {
        let w = World::new();
        set_limit(&w, 4);
        for x in DIRS.iter().chain(&["src"]) {
            rm_rf(&w.p(x));
            copy_tree(&root.join(x), &w.p(x)).unwrap();
        }
        save(&w.root, &DIRS, "s");
        let mut dmg: Vec<(String, Option<Vec<u8>>)> = vec![("removed".into(), None), ("emptied".into(), Some(vec![]))];
        let step = (b.len() / tier(12, 200)).max(1);
        for i in (0..b.len()).step_by(step) {
            let mut x = b.clone();
            x[i] ^= 0x55;
            dmg.push((format!("byte {i} changed"), Some(x)));
            dmg.push((format!("cut at {i}"), Some(b[..i].to_vec())));
        }
        for (what, to) in dmg {
            if run().stopped() {
                return;
            }
            restore(&w.root, &DIRS, "s");
            w.now.set(now);
            for r in ["plain", "odd"] {
                let p = w.p(r).join(d).join(n);
                match &to {
                    None => std::fs::remove_file(p).unwrap(),
                    Some(x) => std::fs::write(p, x).unwrap(),
                }
            }
            run().state(fnv(&[b"damage", d.as_bytes(), n.as_bytes(), what.as_bytes()]));
            case(&w, format!("{d} object of {} bytes {what}: check", b.len()), |w| {
                run().step();
                for a in [&["check", "-r"][..], &["check"]] {
                    // (the first put what it read in the cache)
                    rm_rf(&w.p("home"));
                    copy_tree(&root.join("home"), &w.p("home")).unwrap();
                    let (x, y) = TWIN.both(w, None, a);
                    if y.panicked() && !x.panicked() || y.timed_out {
                        return Err(y.brief());
                    }
                    run().outcome(format!("{} {}", a.join(" "), if y.ok() { "passes" } else { "fails" }));
                    if x.ok() != y.ok() {
                        return Err(format!("`{}`: {} but {} on the plain repository", a.join(" "), y.brief(), x.brief()));
                    }
                }
                Ok(())
            });
        }
    });
}

fn cached_scen(name: &'static str, pre: &'static [&'static str], cmd: &'static [&'static str], limit: usize) -> Scen {
    Scen {
        name,
        kind: "cached",
        setup: Box::new(move |w| {
            set_limit(w, limit);
            setup(w, "100MiB").expect("setup");
            for op in pre {
                step(w, op).expect("setup");
            }
            rebuild(&w.src(), &var("B"));
            let r = Repo2::load(w);
            save(&w.root, &["plain", "plain2"], "plain");
            St { cmd: cmd.iter().map(|s| s.to_string()).collect(), before: r, ..St::default() }
        }),
    }
}
struct Repo2;
impl Repo2 {
    fn load(w: &World) -> Vec<MSnap> {
        let r = crate::repo::Repo::load(&w.p("plain"));
        r.chrono().iter().map(|s| MSnap { id: s.id, tree: r.expand(s).unwrap_or_default(), author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() }).collect()
    }
}

/// Killed while filling or emptying the cache; then everything is as it would be without one.
fn interrupted() {
    let scens = vec![
        cached_scen("reading into an empty cache", &["backup A", "backup B", "cache lost"], &["check"], 4),
        cached_scen("reading through a small cache", &["backup A", "backup B"], &["diff", "LAST~", "LAST"], 1),
        cached_scen("backup", &["backup A"], &["backup", "-a", "me", "../src"], 4),
        cached_scen("forget", &["backup A", "backup B"], &["forget", "LAST~"], 4),
        cached_scen("prune", &["backup A", "backup B", "forget oldest"], &["prune"], 4),
    ];
    let dirs: Vec<String> = ["odd", "odd2", "home", "cwd"].map(String::from).to_vec();
    for sc in &scens {
        if run().stopped() {
            return;
        }
        let o = Opts { cores: 1, bases: false, coarse: true, ..Opts::default() };
        // collect the crash states of one execution
        let p = prepare_in(sc, 1, &dirs, "odd");
        let seen = Default::default();
        p.reset();
        let args = p.st.cmd.clone();
        let (r, states) = crash_states(&p, &args, Sched::low(), &o, &seen);
        if !super::c02::finished(sc.name, &Sched::low(), &r, true) {
            continue;
        }
        run().note(&format!("crash states of {}", sc.name), states.len());
        par_map(&states, |_, c| {
            if run().stopped() {
                return;
            }
            let w = World::new();
            set_limit(&w, 4);
            for x in ["plain", "plain2", "src"] {
                copy_tree(&p.w.root.join(x), &w.p(x)).unwrap();
            }
            c.files.materialise(&w.root, &dirs);
            w.now.set(p.now + 100);
            case(&w, format!("{} {}", sc.name, c.what), |w| {
                run().step();
                // the same repository without a cache
                rm_rf(&w.p("plain"));
                copy_tree(&w.p("odd"), &w.p("plain")).map_err(|e| e.to_string())?;
                let cfg = std::fs::read_to_string(w.p("plain/config.toml")).map_err(|e| e.to_string())?;
                std::fs::write(w.p("plain/config.toml"), cfg.replace("force_cache = true", "force_cache = false")).unwrap();
                for r in twin_readers() {
                    TWIN.same(w, None, &r)?;
                }
                for id in ids(&w.p("plain")) {
                    TWIN.same_restore(w, &id)?;
                }
                save(&w.root, &["cwd"], "c");
                for a in [&["backup", "-a", "me", "../src"][..], &["prune"]] {
                    // whatever is left in the working directory is there for both
                    let now = w.now.get();
                    restore(&w.root, &["cwd"], "c");
                    let x = w.bp_repo(a, &w.p("plain"));
                    restore(&w.root, &["cwd"], "c");
                    w.now.set(now);
                    let y = w.bp_repo(a, &w.p("odd"));
                    TWIN.compare(w, a, &x, &y)?;
                    TWIN.same_objects(w)?;
                    save(&w.root, &["cwd"], "c");
                }
                Ok(())
            });
        });
    }
}
