//! C08: whatever was interrupted wherever, the next commands from the same directory do no damage.
use super::c02::finished;
use super::tier;
use crate::cli::*;
use crate::e1::Files;
use crate::explore::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Y {
    Backup(&'static str),
    /// to another repository, from the same directory
    BackupElsewhere(&'static str),
    PruneElsewhere,
    Prune,
    Rebuild,
    Copy,
    CopyBack,
    CopyOneBack(usize),
    Filter,
    ForgetFirst,
    ForgetLast,
    Dry(&'static str),
    Read(&'static str),
    /// from another working directory
    Other(&'static str),
}

const NEXT: &[Y] = &[
    Y::Backup("A"),
    Y::Backup("C"),
    Y::BackupElsewhere("B"),
    Y::PruneElsewhere,
    Y::Prune,
    Y::Rebuild,
    Y::Copy,
    Y::CopyBack,
    Y::Filter,
    Y::ForgetFirst,
    Y::ForgetLast,
    Y::Dry("backup"),
    Y::Dry("prune"),
    Y::Dry("copy"),
    Y::Dry("rebuild-index"),
    Y::Dry("filter-snapshot"),
    Y::Dry("forget"),
    Y::Dry("restore"),
    Y::Read("check"),
    Y::Read("restore"),
    Y::Read("usage"),
    Y::Read("snapshots"),
    Y::Other("backup"),
    Y::Other("prune"),
    Y::Other("forget first, prune"),
    Y::Other("forget last, prune"),
    Y::Other("filter-snapshot"),
    Y::Other("copy back"),
    Y::Other("copy first back"),
    Y::Other("copy second back"),
    Y::Other("rebuild-index"),
];

pub fn run_check() -> (&'static str, &'static str, bool) {
    let plan = vec![
        (backup("backup", "100MiB", &["A"], "B"), false),
        (backup("backup, several packs", "1000B", &["A"], "B"), false),
        (prune("prune", "100MiB", &["A", "B", "C"], &[0]), false),
        (prune("prune, several packs", "1000B", &["A", "B", "C"], &[1]), false),
        (prune("prune, nothing left", "100MiB", &["A"], &[0]), false),
        (prune_kept("prune, all kept elsewhere", "1000B", &["A", "C", "B"], &[0, 1]), false),
        (copy("copy", &["A", "B"], 0), false),
        (filter_snapshot("filter-snapshot", &["A", "B"], false), false),
        (rebuild_index("rebuild-index", &["A", "B"], false), false),
        (backup("backup across file systems", "1000B", &["A"], "B"), true),
    ];
    for (sc, exdev) in &plan {
        let o = Opts { deviations: tier(0, 1), exdev: *exdev, bases: tier(sc.kind == "backup", true), powerloss: true, coarse: true, ..Opts::default() };
        let pool = Pool::new(sc, o.cores);
        let seen: Mutex<HashSet<(u64, usize)>> = Default::default();
        let depth = tier(2, 3);
        all_crash_states(&pool, &o, &|s, r| finished(sc.name, s, r, true), &|p, c| {
            if !p.w.p("repo2").exists() && !c.files.0.contains_key("repo2".as_bytes()) {
                // a second repository for copy
                init2(&p.w);
                p.w.now.set(p.now);
            }
            c.files.materialise(&p.w.root, &["repo".to_string(), "cwd".to_string()]);
            if c.files.0.contains_key("repo2".as_bytes()) {
                c.files.materialise(&p.w.root, &dirs());
            }
            let f = Files::capture(&p.w.root, &dirs());
            let must: Vec<MSnap> = p.st.before.clone();
            let must2: Vec<MSnap> = p.st.before2.clone();
            let mut hist = vec![];
            dfs(p, sc, c, &f, &must, &must2, depth, &mut hist, &seen);
            for d in ["repo2", "repo", "cwd"] {
                if d == "repo2" && !p.f0.0.contains_key("repo2".as_bytes()) {
                    rm_rf(&p.w.p("repo2"));
                }
            }
            // sources back to the scenario's own
            if sc.kind == "backup" {
                rebuild(&p.w.src(), &var("B"));
            }
        });
    }
    run().assume("what a temporary file of a killed run contains does not matter to later commands, which do not read it (thorough C02/C03 distinguish contents)");
    (
        "model_checking",
        "every crash state (kill and power loss) of interrupted backup, prune, copy, filter-snapshot and rebuild-index, then every sequence of next commands up to a depth from the same directory (writing, dry and reading ones), states merged; after each command every snapshot is decoded independently and compared with the model, dry and reading commands must leave the resumable state alone",
        true,
    )
}

fn wip_packs(f: &Files) -> BTreeMap<Vec<u8>, Kind> {
    let mut out = BTreeMap::new();
    if let Some(st) = f.0.get("cwd/backpak-wip.index".as_bytes()) {
        out.insert(b"cwd/backpak-wip.index".to_vec(), st.kind.clone());
        if let Kind::File(b) = &st.kind {
            if let Ok((ix, _)) = parse_index(b) {
                for p in ix.packs.keys() {
                    let n = format!("cwd/{}.pack", id_str(p)).into_bytes();
                    if let Some(x) = f.0.get(&n) {
                        out.insert(n, x.kind.clone());
                    }
                }
            }
        }
    }
    out
}

#[allow(clippy::too_many_arguments)]
fn dfs(p: &Prep, sc: &Scen, c: &CrashState, f: &Files, must: &[MSnap], must2: &[MSnap], left: usize, hist: &mut Vec<String>, seen: &Mutex<HashSet<(u64, usize)>>) {
    if left == 0 || run().stopped() {
        return;
    }
    {
        let mut k = f.coarse_key();
        for s in must {
            k = fnv(&[&k.to_le_bytes(), &hash_tree(&s.tree, true).to_le_bytes()]);
        }
        if !hist.is_empty() {
            run().state(k);
        }
        if !seen.lock().unwrap().insert((k, left)) {
            run().outcome("merged into an explored state");
            return;
        }
    }
    let depth = hist.len();
    for y in NEXT {
        if run().stopped() {
            return;
        }
        // later steps: only commands that change something
        if depth > 0 && (matches!(y, Y::Dry(_) | Y::Read(_)) || matches!(y, Y::Other(_)) && left == 1) {
            continue;
        }
        f.materialise(&p.w.root, &dirs());
        p.w.now.set(p.now + 100 + 10 * depth as i64);
        let (mut m, mut m2) = (must.to_vec(), must2.to_vec());
        run().step();
        hist.push(format!("{y:?}"));
        let r = apply(p, y, f, &mut m, &mut m2);
        if let Err(e) = r {
            let key = format!("{}:{}:{}", sc.name, c.what.split(" op ").next().unwrap_or(""), hist.join(","));
            run().violation(key, format!("{} {} [{}], then {}: {e}", sc.name, c.what, c.sched.text(), hist.join(", then ")), format!("{}\n{}\nthen {}\nfiles: {:?} {:?}", c.sched.text(), c.what, hist.join(" ; "), c.files.names("repo"), c.files.names("cwd")));
        } else if depth + 1 < left + depth && !matches!(y, Y::Dry(_) | Y::Read(_)) {
            let nf = Files::capture(&p.w.root, &dirs());
            dfs(p, sc, c, &nf, &m, &m2, left - 1, hist, seen);
        }
        hist.pop();
    }
}

fn apply(p: &Prep, y: &Y, f: &Files, must: &mut Vec<MSnap>, must2: &mut Vec<MSnap>) -> Result<(), String> {
    let w = &p.w;
    let other;
    let (y, there) = match y {
        Y::Other(x) => {
            other = match *x {
                "backup" => Y::Backup("C"),
                "prune" => Y::Prune,
                "forget first, prune" => Y::ForgetFirst,
                "forget last, prune" => Y::ForgetLast,
                "filter-snapshot" => Y::Filter,
                "copy back" => Y::CopyBack,
                "copy first back" => Y::CopyOneBack(0),
                "copy second back" => Y::CopyOneBack(1),
                _ => Y::Rebuild,
            };
            (&other, true)
        }
        y => (y, false),
    };
    if there {
        fresh(&w.p("cwd2"));
        w.dir.set("cwd2");
        let r = apply(p, y, f, must, must2);
        w.dir.set("cwd");
        if r.is_ok() {
            let nf = Files::capture(&w.root, &["cwd".to_string()]);
            for (k, s) in f.0.iter().filter(|(k, _)| k.starts_with(b"cwd/")) {
                if nf.0.get(k).map(|x| &x.kind) != Some(&s.kind) {
                    return Err(format!("{} changed by a command in another directory", String::from_utf8_lossy(k)));
                }
            }
            cwd_clean(w, "cwd2")?;
        }
        return r;
    }
    let to = w.p("repo2").to_string_lossy().into_owned();
    let before = Repo::load(&w.repo());
    let before2 = Repo::load(&w.p("repo2"));
    let out = w.p("restore-out");
    rm_rf(&out);
    std::fs::create_dir(&out).unwrap();
    let outs = out.to_string_lossy().into_owned();
    let chrono: Vec<Id> = before.chrono().iter().map(|s| s.id).collect();
    let last = match chrono.last() {
        Some(l) => id_str(l),
        None => "LAST".to_string(),
    };
    let have = !chrono.is_empty();
    let mut repo = "repo";
    let one = before2.chrono().get(if let Y::CopyOneBack(n) = y { *n } else { 0 }).map(|s| id_str(&s.id)).unwrap_or_default();
    let args: Vec<&str> = match y {
        Y::Backup(v) => {
            rebuild(&w.src(), &var(v));
            vec!["backup", "-a", "me", "../src"]
        }
        Y::BackupElsewhere(v) => {
            rebuild(&w.src(), &var(v));
            repo = "repo2";
            vec!["backup", "-a", "me", "../src"]
        }
        Y::PruneElsewhere => {
            repo = "repo2";
            vec!["prune"]
        }
        Y::Prune => vec!["prune"],
        Y::Rebuild => vec!["rebuild-index"],
        Y::Copy => vec!["copy", "--to", &to, "--all"],
        Y::CopyBack => {
            repo = "repo2";
            vec!["copy", "--to", "../repo", "--all"]
        }
        Y::CopyOneBack(_) => {
            repo = "repo2";
            vec!["copy", "--to", "../repo", &one]
        }
        Y::Filter => vec!["filter-snapshot", "-a", "me", "-s", "^src/(x|s)$", &last],
        Y::ForgetFirst | Y::ForgetLast => {
            if must.len() < 2 {
                return Ok(());
            }
            let s = if *y == Y::ForgetFirst { must.remove(0) } else { must.pop().unwrap() };
            cmd_ok(w, "repo", &["forget", &id_str(&s.id)])?;
            vec!["prune"]
        }
        Y::Dry("backup") => {
            rebuild(&w.src(), &var("C"));
            vec!["backup", "-n", "-a", "me", "../src"]
        }
        Y::Dry("prune") => vec!["prune", "-n"],
        Y::Dry("copy") => vec!["copy", "-n", "--to", &to, "--all"],
        Y::Dry("rebuild-index") => vec!["rebuild-index", "-n"],
        Y::Dry("filter-snapshot") => vec!["filter-snapshot", "-n", "-a", "me", "-s", "^src/x$", &last],
        Y::Dry("forget") => vec!["forget", "-n", &last],
        Y::Dry(_) => vec!["restore", "-n", "-o", &outs, &last],
        Y::Read("check") => vec!["check", "-r"],
        Y::Read("restore") => vec!["restore", "-o", &outs, &last],
        Y::Read(x) => vec![x],
        Y::Other(_) => unreachable!(),
    };
    if !have && matches!(y, Y::Filter | Y::Copy | Y::Dry("filter-snapshot") | Y::Dry("forget") | Y::Dry("restore") | Y::Dry("copy") | Y::Read("restore")) {
        return Ok(());
    }
    if matches!(y, Y::CopyBack | Y::CopyOneBack(_)) && one.is_empty() {
        return Ok(());
    }
    let o = w.bp_repo(&args, &w.p(repo));
    run().outcome(format!("{} {}", args[0], if o.ok() { "succeeded" } else { "refused" }));
    if o.panicked() || o.timed_out {
        return Err(format!("crash: {}", o.brief()));
    }
    if matches!(y, Y::Dry(_) | Y::Read(_)) {
        let nf = Files::capture(&w.root, &dirs());
        for d in ["repo", "repo2"] {
            let side = |x: &Files| x.0.iter().filter(|(k, _)| k.starts_with(format!("{d}/").as_bytes())).map(|(k, s)| (k.clone(), s.kind.clone())).collect::<BTreeMap<_, _>>();
            if side(f) != side(&nf) {
                return Err(format!("{d} changed"));
            }
        }
        for (n, k) in wip_packs(f) {
            if nf.0.get(&n).map(|x| &x.kind) != Some(&k) {
                return Err(format!("the interrupted run's {} was touched", String::from_utf8_lossy(&n)));
            }
        }
        if let Y::Read("check") | Y::Read("restore") = y {
            if !o.ok() {
                return Err(format!("fails: {}", o.brief()));
            }
        }
        return Ok(());
    }
    // no damage
    let r = Repo::load(&w.repo());
    let r2 = Repo::load(&w.p("repo2"));
    survive(&r, must, &before, matches!(y, Y::ForgetFirst | Y::ForgetLast))?;
    survive(&r2, must2, &before2, false).map_err(|e| format!("destination: {e}"))?;
    if o.ok() {
        r.invariant(&BTreeSet::new())?;
        cmd_ok(w, "repo", &["check", "-r"]).map_err(|e| format!("afterwards {e}"))?;
        match y {
            Y::Backup(v) => {
                let want = named_tree("src", &var(v));
                let mut found = false;
                for s in r.snaps.values() {
                    let t = r.expand(s)?;
                    if tree_diff(&want, &t, Cmp { mode: true, mtime: true }).is_none() {
                        found = true;
                        if !before.snaps.contains_key(&s.id) {
                            must.push(MSnap { id: s.id, tree: t, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() });
                        }
                    }
                }
                if !found {
                    return Err("no snapshot has what was backed up".into());
                }
            }
            Y::Copy => {
                r2.invariant(&BTreeSet::new()).map_err(|e| format!("destination: {e}"))?;
                for s in r.snaps.values() {
                    if !r2.snaps.contains_key(&s.id) {
                        return Err(format!("snapshot {} was not copied", &id_str(&s.id)[..8]));
                    }
                    let t = r.expand(s)?;
                    let t2 = r2.expand(&r2.snaps[&s.id])?;
                    if let Some(d) = tree_diff(&t, &t2, Cmp { mode: true, mtime: true }) {
                        return Err(format!("the copy differs: {d}"));
                    }
                    if !must2.iter().any(|m| m.id == s.id) {
                        must2.push(MSnap { id: s.id, tree: t, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() });
                    }
                }
                cmd_ok(w, "repo2", &["check", "-r"]).map_err(|e| format!("destination: {e}"))?;
            }
            Y::CopyBack | Y::CopyOneBack(_) => {
                for (id, s) in r2.snaps.iter().filter(|s| *y == Y::CopyBack || id_str(s.0) == one) {
                    if !r.snaps.contains_key(id) {
                        return Err(format!("snapshot {} was not copied back", &id_str(id)[..8]));
                    }
                    let t = r2.expand(s)?;
                    if !must.iter().any(|m| m.id == *id) {
                        must.push(MSnap { id: *id, tree: t, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() });
                    }
                }
            }
            Y::BackupElsewhere(v) => {
                let want = named_tree("src", &var(v));
                let mut found = false;
                for s in r2.snaps.values() {
                    let t = r2.expand(s)?;
                    found |= tree_diff(&want, &t, Cmp { mode: true, mtime: true }).is_none();
                    if !must2.iter().any(|m| m.id == s.id) {
                        must2.push(MSnap { id: s.id, tree: t, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() });
                    }
                }
                if !found {
                    return Err("no snapshot has what was backed up elsewhere".into());
                }
                r2.invariant(&BTreeSet::new()).map_err(|e| format!("elsewhere: {e}"))?;
                cmd_ok(w, "repo2", &["check", "-r"]).map_err(|e| format!("elsewhere: {e}"))?;
            }
            Y::PruneElsewhere => {
                r2.invariant(&BTreeSet::new()).map_err(|e| format!("elsewhere: {e}"))?;
                cmd_ok(w, "repo2", &["check", "-r"]).map_err(|e| format!("elsewhere: {e}"))?;
            }
            Y::Prune | Y::ForgetFirst | Y::ForgetLast => {
                let indexed = |r: &Repo| -> BTreeSet<Id> { r.live_indexes().values().flat_map(|i| i.packs.keys().copied()).collect() };
                let now = indexed(&r);
                if let Some(p) = indexed(&before).iter().find(|p| !now.contains(*p) && r.packs.contains_key(*p)) {
                    return Err(format!("pack {} is no longer indexed, but still there", &id_str(p)[..8]));
                }
            }
            Y::Rebuild => {
                if r.indexes.len() != 1 {
                    return Err(format!("{} indexes after rebuild-index", r.indexes.len()));
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn survive(r: &Repo, must: &[MSnap], before: &Repo, removing: bool) -> Result<(), String> {
    if let Some(b) = r.bad.first() {
        return Err(format!("bad object: {b}"));
    }
    let store = r.reachable_store();
    for s in must {
        let rs = r.snaps.get(&s.id).ok_or(format!("snapshot {} is gone", &id_str(&s.id)[..8]))?;
        let t = r.expand_with(&store, rs).map_err(|e| format!("snapshot {}: {e}", &id_str(&s.id)[..8]))?;
        if let Some(d) = tree_diff(&s.tree, &t, Cmp { mode: true, mtime: true }) {
            return Err(format!("snapshot {} changed: {d}", &id_str(&s.id)[..8]));
        }
    }
    for (id, rs) in &r.snaps {
        r.expand_with(&store, rs).map_err(|e| format!("snapshot {} is visible but damaged: {e}", &id_str(id)[..8]))?;
    }
    if !removing {
        for id in before.snaps.keys() {
            if !r.snaps.contains_key(id) {
                return Err(format!("snapshot {} is gone", &id_str(id)[..8]));
            }
        }
    }
    Ok(())
}
