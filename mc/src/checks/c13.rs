//! C13: filter-snapshot.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeSet;

struct Case {
    pats: Vec<String>,
    meta: usize,
    target: usize,
    by_config: bool,
    size: &'static str,
}

const METAS: &[&[&str]] = &[&[], &["-k"], &["-a", "other"], &["-t", "one", "-t", "two"], &["-a", "other", "--tag", "one"], &["--keep-metadata"]];

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ps = skip_patterns();
    let mut cases = vec![];
    for (i, p) in ps.iter().enumerate() {
        for meta in 0..METAS.len() {
            for target in 0..4 {
                cases.push(Case { pats: vec![p.to_string()], meta, target, by_config: false, size: ["100MiB", "1B"][(i + meta) % 2] });
            }
        }
    }
    for a in assignments(ps.len(), 2) {
        if a[0] == a[1] {
            continue;
        }
        let all = run().thorough;
        for meta in 0..METAS.len() {
            for target in 0..4 {
                if all || (meta == (a[0] + a[1]) % METAS.len() && target == (a[0] + 2 * a[1]) % 4) {
                    cases.push(Case { pats: a.iter().map(|i| ps[*i].to_string()).collect(), meta, target, by_config: a[0] > a[1], size: ["100MiB", "1B"][a[0] % 2] });
                }
            }
        }
    }
    if run().thorough {
        for a in assignments(ps.len(), 3) {
            if a[0] < a[1] && a[1] < a[2] {
                cases.push(Case { pats: a.iter().map(|i| ps[*i].to_string()).collect(), meta: a[0] % METAS.len(), target: a[1] % 4, by_config: a[2] % 2 == 0, size: ["100MiB", "1B"][a[0] % 2] });
            }
        }
    }
    let n = nthreads() * 4;
    let chunks: Vec<&[Case]> = cases.chunks(cases.len() / n + 1).collect();
    par_map(&chunks, |_, c| {
        let mut scenes = vec![];
        for size in ["100MiB", "1B"] {
            match Scene::new(size) {
                Ok(s) => scenes.push((size, s)),
                Err(e) => return run().violation("setup", e, ""),
            }
        }
        for k in c.iter() {
            if run().stopped() {
                return;
            }
            let s = &scenes.iter().find(|s| s.0 == k.size).unwrap().1;
            restore(&s.w.root, &["repo"], "start");
            s.w.now.set(s.now);
            run().state(fnv(&[format!("{:?}{}{}", k.pats, k.meta, k.target).as_bytes()]));
            case(&s.w, format!("{:?}{} on #{} with {:?}, pack size {}", k.pats, if k.by_config { " (one by configuration)" } else { "" }, k.target, METAS[k.meta], k.size), |w| s.one(w, k));
        }
    });
    refusals();
    (
        "model_checking",
        "all single patterns x all metadata options x four targets (one directory, several paths, an older snapshot, one whose content occurs in others), all pairs of patterns (given as arguments or by configuration): the new snapshot is decoded and compared with the original minus the matching paths; every object that was there before is still there unchanged; a chain of further filterings, check and restore follow; conflicting options, unknown snapshots and invalid patterns are refused with nothing changed",
        true,
    )
}

struct Scene {
    w: World,
    snaps: Vec<MSnap>,
    now: i64,
}

impl Scene {
    fn new(size: &str) -> Result<Scene, String> {
        let w = World::new();
        w.init_pack_size(size);
        let mut snaps = vec![];
        let t = skip_tree();
        let src = w.src();
        rebuild(&src, &t);
        do_backup(&w, "repo", &["backup", "-a", "me", "-t", "old", "../src"], &mut snaps, &named_tree("src", &t), "me", &["old"], &[&src])?;
        // several paths
        let two = d(&[("a.o", f(b"object a")), ("dir", d(&[("keep", f(b"3"))])), ("e", d(&[]))]);
        build(&w.p("two"), &two);
        build(&w.p("x"), &f(b"a file of its own"));
        let mut tree = named_tree("src", &t);
        tree.extend(named_tree("two", &two));
        tree.extend(named_tree("x", &f(b"a file of its own")));
        let (p2, p3) = (w.p("two"), w.p("x"));
        do_backup(&w, "repo", &["backup", "-a", "you", "../src", "../two", "../x"], &mut snaps, &tree, "you", &[], &[&src, &p2, &p3])?;
        // a later state, some of whose directories a filtered older one will have, too
        let N::D(mut m, a, b) = t.clone() else { unreachable!() };
        m.remove("a.o");
        m.insert("new".into(), f(b"new"));
        let t2 = N::D(m, a, b);
        rebuild(&src, &t2);
        do_backup(&w, "repo", &["backup", "-a", "me", "-t", "z", "-t", "a", "../src"], &mut snaps, &named_tree("src", &t2), "me", &["a", "z"], &[&src])?;
        // a single file
        do_backup(&w, "repo", &["backup", "-a", "me", "../x"], &mut snaps, &named_tree("x", &f(b"a file of its own")), "me", &[], &[&p3])?;
        check_repo(&w, "repo", &snaps)?;
        save(&w.root, &["repo"], "start");
        let now = w.now.get();
        Ok(Scene { w, snaps, now })
    }

    fn one(&self, w: &World, k: &Case) -> Result<(), String> {
        let set = regex::RegexSet::new(&k.pats).map_err(|e| e.to_string())?;
        let target = &self.snaps[k.target];
        let before = scan(&w.repo());
        let r0 = Repo::load(&w.repo());
        let orig = r0.snaps[&target.id].clone();
        let mut snaps = self.snaps.clone();
        let id = id_str(&target.id);
        let who = if k.meta % 2 == 0 { id.clone() } else { format!("LAST~{}", self.snaps.len() - 1 - k.target) };
        let (args, conf) = if k.by_config { (&k.pats[1..], Some(&k.pats[..1])) } else { (&k.pats[..], None) };
        let mut a = vec!["filter-snapshot".to_string()];
        a.extend(METAS[k.meta].iter().map(|s| s.to_string()));
        for p in args {
            a.extend(["-s".into(), p.clone()]);
        }
        a.push(who);
        let go = |w: &World, a: &[String]| -> Out {
            let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
            run().step();
            match conf {
                None => w.bp(&av),
                Some(c) => {
                    w.now.set(w.now.get() + 1);
                    let cf = w.p("conf.toml");
                    std::fs::write(&cf, format!("skips = [{}]\n", c.iter().map(|p| crate::report::js(p)).collect::<Vec<_>>().join(", "))).unwrap();
                    let mut c = std::process::Command::new(bin());
                    c.env_clear().env("HOME", w.p("home")).env("PATH", "/usr/bin:/bin").env("TZ", w.tz.get()).env("MC_NOW", w.now.get().to_string()).current_dir(w.cwd()).stdin(std::process::Stdio::null());
                    if let Some(p) = preload() {
                        c.env("LD_PRELOAD", p);
                    }
                    c.arg("--config").arg(&cf).arg("--repository").arg(w.repo()).args(&av);
                    w.log.borrow_mut().push(format!("backpak {} (with a configuration)", av.join(" ")));
                    run_command(c, w.timeout)
                }
            }
        };
        let o = go(w, &a);
        if !o.ok() {
            return Err(o.brief());
        }
        let want = minus(&target.tree, &|p| set.is_match(p));
        let nothing = want == target.tree;
        let have = snapshot_ids(&w.repo());
        let old: BTreeSet<Id> = self.snaps.iter().map(|s| s.id).collect();
        let new: Vec<Id> = have.difference(&old).copied().collect();
        run().outcome(if nothing { "nothing to filter" } else { "filtered" });
        if nothing {
            if !new.is_empty() {
                return Err("a new snapshot although nothing was filtered".into());
            }
            check_repo(w, "repo", &snaps)?;
            still_there(&before, &scan(&w.repo()))?;
            return cwd_clean(w, "cwd");
        }
        let [new] = new[..] else { return Err(format!("{} new snapshots", new.len())) };
        let m = METAS[k.meta];
        let keep = m.contains(&"-k") || m.contains(&"--keep-metadata");
        let r = Repo::load(&w.repo());
        let s = r.snaps.get(&new).ok_or("the new snapshot is not readable")?;
        let author = if keep {
            orig.author.clone()
        } else if m.contains(&"-a") {
            "other".into()
        } else {
            std::fs::read_to_string("/proc/sys/kernel/hostname").unwrap_or_default().trim().to_string()
        };
        let tags: BTreeSet<String> = if keep { orig.tags.clone() } else { ["one", "two"].iter().filter(|t| m.contains(t)).map(|t| t.to_string()).collect() };
        snaps.push(MSnap { id: new, tree: want, author, tags, paths: orig.paths.clone() });
        check_repo(w, "repo", &snaps)?;
        if keep && (s.time, &s.tz) != (orig.time, &orig.tz) {
            return Err(format!("the time is not kept: {} {:?}, was {} {:?}", s.time, s.tz, orig.time, orig.tz));
        }
        if !keep && s.time / 1_000_000_000 != w.now.get() as i128 {
            return Err(format!("the time is {}, not now ({})", s.time, w.now.get()));
        }
        // what was there is still there
        let after = scan(&w.repo());
        still_there(&before, &after)?;
        cwd_clean(w, "cwd")?;
        if r.stored().values().any(|n| *n > 1) {
            return Err("something is stored twice".into());
        }
        // again: the same contents, nothing more stored
        *a.last_mut().unwrap() = id;
        let o = go(w, &a);
        if !o.ok() {
            return Err(format!("again: {}", o.brief()));
        }
        let twice = scan(&w.repo());
        let grew: Vec<_> = twice.keys().filter(|p| !after.contains_key(*p) && !p.starts_with(b"snapshots/")).collect();
        if !grew.is_empty() || (keep && twice.len() != after.len()) {
            return Err(format!("filtering again stores {}", String::from_utf8_lossy(grew.first().unwrap_or(&&b"another snapshot".to_vec()))));
        }
        if k.pats.len() == 1 || run().thorough {
            cmd_ok(w, "repo", &["check", "-r"])?;
            let last = snaps.last().unwrap();
            // a snapshot of one directory restores to its contents; an empty one to nothing
            if last.tree.keys().any(|k| !k.contains(&b'/')) && k.target != 3 {
                restore_check(w, "repo", last)?;
            }
            restore_check_named(w, target, k.target == 3)?;
        }
        Ok(())
    }
}

fn restore_check_named(w: &World, s: &MSnap, file: bool) -> Result<(), String> {
    if !file {
        return restore_check(w, "repo", s);
    }
    let out = w.p("restore-out");
    fresh(&out);
    let o = w.bp(&["restore", "-t", "-p", "-o", "../restore-out", &id_str(&s.id)]);
    if !o.ok() {
        return Err(format!("restore: {}", o.brief()));
    }
    match tree_diff(&s.tree, &scan(&out), Cmp { mode: true, mtime: true }) {
        Some(d) => Err(format!("restore differs: {d}")),
        None => Ok(()),
    }
}

/// Every file of `before` has the same contents in `after`.
pub fn still_there(before: &Tree, after: &Tree) -> Result<(), String> {
    match before.iter().find(|(p, e)| e.kind != Kind::Dir && after.get(*p).map(|a| &a.kind) != Some(&e.kind)) {
        Some((p, _)) => Err(format!("{} changed or vanished", String::from_utf8_lossy(p))),
        None => Ok(()),
    }
}

/// The same files with the same contents.
pub fn exactly(want: &Tree, got: &Tree) -> Result<(), String> {
    match tree_diff(want, got, Cmp { mode: false, mtime: false }) {
        Some(d) => Err(format!("the repository changed: {d}")),
        None => Ok(()),
    }
}

fn refusals() {
    let s = match Scene::new("100MiB") {
        Ok(s) => s,
        Err(e) => return run().violation("setup", e, ""),
    };
    let before = scan(&s.w.repo());
    let id = id_str(&s.snaps[0].id);
    let bad: Vec<Vec<&str>> = vec![
        vec!["-s", "(", &id],
        vec!["-s", "a", "-s", "[", &id],
        vec!["-k", "-a", "x", "-s", "a", &id],
        vec!["-k", "-t", "x", "-s", "a", &id],
        vec!["-s", "a", "LAST~4"],
        vec!["-s", "a", "nosuch"],
        vec![&id],
        vec!["-n", "-k", "-s", "*", &id],
    ];
    for b in bad.iter().take(tier(100, 100)) {
        case(&s.w, format!("refused: {:?}", b.iter().map(|x| if *x == id { "ID" } else { x }).collect::<Vec<_>>()), |w| {
            let mut a = vec!["filter-snapshot"];
            a.extend(b);
            run().step();
            let o = w.bp(&a);
            run().outcome("refused");
            if o.ok() || o.panicked() || o.timed_out {
                return Err(o.brief());
            }
            exactly(&before, &scan(&w.repo()))?;
            cwd_clean(w, "cwd")
        });
    }
}
