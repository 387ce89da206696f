//! C31: what is stored is named by, described by and verifiable against its contents; what released
//! versions wrote stays readable; identities depend on nothing but the inputs.
use super::tier;
use crate::cli::*;
use crate::explore::*;
use crate::forge;
use crate::gen::*;
use crate::golden::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::twin::object_files;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let parts: Vec<fn()> = vec![released, forged, histories, schedules];
    for p in parts {
        if !run().stopped() {
            p();
        }
    }
    (
        "model_checking",
        "every history of backup, forget, prune, rebuild-index, copy in both directions and filter-snapshot from new repositories and from ones written by the released version, every object decoded and recomputed by an independent reader after every step; repositories of the released version and every form of old object, by an independent encoder, through all commands; every backup, prune, copy and filter-snapshot repeated under other schedules, core counts and circumstances, with the same identities required",
        true,
    )
}

/// Everything there is to say about the objects of a repository at rest.
pub fn strict(w: &World, repo: &str) -> Result<Repo, String> {
    let r = Repo::load(&w.p(repo));
    let e = |s: String| Err(format!("{repo}: {s}"));
    if let Some(b) = r.bad.first() {
        return e(b.clone());
    }
    if let Some(b) = r.strays.first() {
        return e(format!("{b} is not the name of an object"));
    }
    for (d, n, _) in object_files(&w.p(repo)) {
        let (stem, _) = n.rsplit_once('.').unwrap_or((&n, ""));
        if id_parse(stem).map(|i| id_str(&i)) != Some(stem.to_string()) {
            return e(format!("{d}/{n} is not written in the one way there is"));
        }
    }
    let mut indexed = BTreeSet::new();
    for (i, ix) in &r.indexes {
        for (p, m) in &ix.packs {
            if r.packs.get(p).is_some_and(|p| p.manifest != *m) {
                return e(format!("index {} does not describe pack {} as it is", id_str(i), id_str(p)));
            }
        }
        if ix.supersedes.contains(i) {
            return e("an index supersedes itself".into());
        }
    }
    for (i, ix) in r.live_indexes() {
        for p in ix.packs.keys() {
            if !r.packs.contains_key(p) {
                return e(format!("index {} lists pack {}, which there is not", id_str(&i), id_str(p)));
            }
            indexed.insert(*p);
        }
    }
    if let Some(p) = r.packs.keys().find(|p| !indexed.contains(*p)) {
        return e(format!("pack {} is in no index", id_str(p)));
    }
    // what refers to what: trees to trees, files to chunks
    let store = r.reachable_store();
    let mut todo: Vec<Id> = r.snaps.values().map(|s| s.tree).collect();
    let mut seen = BTreeSet::new();
    while let Some(t) = todo.pop() {
        if !seen.insert(t) {
            continue;
        }
        let empty = vec![0xa0u8];
        let b = match store.get(&t) {
            Some((true, b)) => b,
            None if t == sha224(&empty) => &empty,
            Some((false, _)) => return e(format!("{} is used as a tree and stored as a chunk", id_str(&t))),
            None => return e(format!("tree {} is not there", id_str(&t))),
        };
        for (n, x) in parse_tree(b).map_err(|x| format!("{repo}: tree {}: {x}", id_str(&t)))? {
            match x.kind {
                NodeKind::Dir(d) => todo.push(d),
                NodeKind::File(cs) => {
                    for c in cs {
                        match store.get(&c) {
                            Some((false, b)) if !b.is_empty() => {}
                            Some((false, _)) => return e(format!("{n} has an empty chunk")),
                            Some((true, _)) => return e(format!("{} is used as a chunk and stored as a tree", id_str(&c))),
                            None => return e(format!("chunk {} of {n} is not there", id_str(&c))),
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Ok(r)
}

// ------------------------------------------------------------------ histories

const OPS: &[&str] = &["backup A", "backup B", "backup C", "forget oldest", "prune", "rebuild-index", "copy over", "copy back", "filter-snapshot", "backup B into both"];

fn histories() {
    let starts: Vec<(&str, Option<usize>, &str)> = vec![("new", None, "100MiB"), ("new, small packs", None, "1000B"), ("released, small packs", Some(1), ""), ("released, rebuilt", Some(2), "")];
    const DIRS: [&str; 4] = ["repo", "repo2", "cwd", "src"];
    for (name, g, pack) in starts {
        if run().stopped() {
            return;
        }
        let setup = |w: &World, _: &mut Model| {
            match g {
                None => w.init_pack_size(pack),
                Some(g) => drop(put(w, &GOLDEN[g], "repo").expect("fixture")),
            }
            init2(w);
        };
        let apply = |w: &World, m: &mut Model, op: usize| -> Result<Step, String> {
            let first = |d: &str| snapshot_ids(&w.p(d)).into_iter().next();
            // what there is now, to see that nothing of it changes under its name
            m.aux = [objects(w, "repo"), objects(w, "repo2")].concat();
            match OPS[op] {
                "backup A" | "backup B" | "backup C" => {
                    rebuild(&w.src(), &var(&OPS[op][7..]));
                    cmd_ok(w, "repo", &["backup", "-a", "me", "-t", "t", "../src"])?;
                }
                "backup B into both" => {
                    rebuild(&w.src(), &var("B"));
                    let now = w.now.get();
                    cmd_ok(w, "repo2", &["backup", "-a", "me", "-t", "t", "../src"])?;
                    w.now.set(now);
                    cmd_ok(w, "repo", &["backup", "-a", "me", "-t", "t", "../src"])?;
                }
                "forget oldest" => {
                    let r = Repo::load(&w.repo());
                    let Some(s) = r.chrono().first().map(|s| id_str(&s.id)) else { return Ok(Step::Skip) };
                    cmd_ok(w, "repo", &["forget", &s])?;
                }
                "prune" => drop(cmd_ok(w, "repo", &["prune"])?),
                "rebuild-index" if std::fs::read_dir(w.p("repo/packs")).unwrap().next().is_none() => return Ok(Step::Skip),
                "rebuild-index" => drop(cmd_ok(w, "repo", &["rebuild-index"])?),
                "copy over" => {
                    if first("repo").is_none() {
                        return Ok(Step::Skip);
                    }
                    cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
                }
                "copy back" => {
                    if first("repo2").is_none() {
                        return Ok(Step::Skip);
                    }
                    cmd_ok(w, "repo2", &["copy", "--to", "../repo", "--all"])?;
                }
                _ => {
                    if first("repo").is_none() {
                        return Ok(Step::Skip);
                    }
                    cmd_ok(w, "repo", &["filter-snapshot", "-a", "me", "-s", "^src/[xwh]$", "LAST"])?;
                }
            }
            run().outcome(format!("{name}: {}", OPS[op]));
            Ok(Step::Next)
        };
        let check = |w: &World, m: &mut Model, _: usize| -> Result<(), String> {
            strict(w, "repo")?;
            strict(w, "repo2")?;
            let was: BTreeMap<u64, u64> = m.aux.chunks(2).map(|c| (c[0], c[1])).collect();
            let is = [objects(w, "repo"), objects(w, "repo2")].concat();
            if is.chunks(2).any(|c| was.get(&c[0]).is_some_and(|x| *x != c[1])) {
                return Err("an object has other contents under the same name".into());
            }
            m.aux.clear();
            Ok(())
        };
        let key = |w: &World, _: &Model| fnv(&[name.as_bytes(), &repo_key(w, "repo", "cwd").to_le_bytes(), &repo_key(w, "repo2", "cwd").to_le_bytes()]);
        Explorer { ops: OPS.iter().map(|s| format!("{name}: {s}")).collect(), depth: tier(3, 4), dirs: &DIRS, setup: &setup, apply: &apply, check: &check, key: &key }.go();
    }
}

/// (name, contents) of every object, hashed. Compression may differ from one writing to the next:
/// what counts is what it decompresses to, which the name stands for.
fn objects(w: &World, repo: &str) -> Vec<u64> {
    let r = Repo::load(&w.p(repo));
    let mut v = vec![];
    for (i, p) in &r.packs {
        v.extend([fnv(&[repo.as_bytes(), i]), fnv(&p.blobs.iter().map(|b| &b[..]).collect::<Vec<_>>())]);
    }
    for (i, x) in &r.indexes {
        v.extend([fnv(&[repo.as_bytes(), i]), fnv(&[format!("{x:?}").as_bytes()])]);
    }
    for (i, s) in &r.snaps {
        v.extend([fnv(&[repo.as_bytes(), i]), fnv(&[format!("{s:?}").as_bytes()])]);
    }
    v
}

// ------------------------------------------------------------------ what released versions wrote

fn released() {
    let all: Vec<usize> = (0..GOLDEN.len()).collect();
    par_map(&all, |_, gi| {
        let g = &GOLDEN[*gi];
        let w = World::new();
        let snaps = match put(&w, g, "repo") {
            Ok(s) => s,
            Err(e) => return run().violation(format!("fixture {}", g.name), e, ""),
        };
        save(&w.root, &["repo", "cwd"], "g");
        let want = contents(g);
        let n = want.len();
        if !g.filter {
            case(&w, format!("released {}: decoded", g.name), |w| {
                check_repo(w, "repo", &snaps)?;
                strict(w, "repo").map(drop)
            });
        }
        let readers: Vec<Vec<String>> = [vec!["snapshots", "--sizes", "--stat", "--metadata"], vec!["check"], vec!["check", "-r"], vec!["usage"], vec!["prune", "-n"]]
            .into_iter()
            .map(|a| a.into_iter().map(String::from).collect())
            .chain((0..n).flat_map(|k| {
                let s = format!("LAST~{k}");
                [vec!["ls".into(), s.clone()], vec!["cat".into(), "snapshot".into(), s.clone()], vec!["diff".into(), s.clone(), "LAST".into()]]
            }))
            .collect();
        for r in readers {
            case(&w, format!("released {}: {}", g.name, r.join(" ")), |w| {
                let o = cmd_ok(w, "repo", &r.iter().map(|s| s.as_str()).collect::<Vec<_>>())?;
                if r[0] == "ls" {
                    let k: usize = r[1][5..].parse().unwrap();
                    let t = named_tree("src", &source(want[n - 1 - k].0));
                    for name in t.keys() {
                        let name = String::from_utf8_lossy(name);
                        if !o.out.contains(&*name) {
                            return Err(format!("{name} is not listed"));
                        }
                    }
                }
                Ok(())
            });
        }
        let whole = |w: &World, repo: &str, k: usize, i: usize| -> Result<(), String> {
            let out = w.p("restore-out");
            fresh(&out);
            let o = cmd_ok(w, repo, &["restore", "-t", "-p", "-o", "../restore-out", &format!("LAST~{k}")])?;
            drop(o);
            match tree_diff(&tree_of(&source(i)), &scan(&out), Cmp { mode: true, mtime: true }) {
                Some(d) => Err(format!("LAST~{k} restored differs: {d}")),
                None => Ok(()),
            }
        };
        for (k, (i, ..)) in want.iter().rev().enumerate() {
            case(&w, format!("released {}: restore LAST~{k}", g.name), |w| whole(w, "repo", k, *i));
            // the same files again: nothing is stored but the snapshot
            case(&w, format!("released {}: back up what LAST~{k} holds", g.name), |w| {
                restore(&w.root, &["repo", "cwd"], "g");
                rebuild(&w.src(), &source(*i));
                let names = |d: &str| std::fs::read_dir(w.p(d)).unwrap().flatten().map(|e| e.file_name()).collect::<BTreeSet<_>>();
                let (p0, s0) = (names("repo/packs"), names("repo/snapshots"));
                cmd_ok(w, "repo", &["backup", "--allow-empty", "--allow-repeat", "-a", "now", "../src"])?;
                if names("repo/packs") != p0 {
                    return Err("contents that are there already were stored again".into());
                }
                if names("repo/snapshots").len() != s0.len() + 1 {
                    return Err("no new snapshot".into());
                }
                let r = Repo::load(&w.repo());
                let id = named_tree("src", &source(*i));
                if !g.filter {
                    let s = r.snaps.values().find(|s| s.author == "now").ok_or("no new snapshot")?;
                    let t = r.expand(s)?;
                    if let Some(d) = tree_diff(&id, &t, Cmp { mode: true, mtime: true }) {
                        return Err(d);
                    }
                    if r.snaps.values().filter(|x| x.tree == s.tree).count() < 2 {
                        return Err("the same tree has another identity now".into());
                    }
                }
                cmd_ok(w, "repo", &["check", "-r"])?;
                for (k2, (i2, ..)) in want.iter().rev().enumerate() {
                    whole(w, "repo", k2 + 1, *i2)?;
                }
                whole(w, "repo", 0, *i)
            });
            restore(&w.root, &["repo", "cwd"], "g");
        }
        for op in [vec!["prune"], vec!["rebuild-index"], vec!["copy", "--to", "../repo2", "--all"], vec!["filter-snapshot", "-k", "-s", "/g$", "LAST~"]] {
            if n < 2 && op[0] == "filter-snapshot" {
                continue;
            }
            case(&w, format!("released {}: {}", g.name, op.join(" ")), |w| {
                restore(&w.root, &["repo", "cwd"], "g");
                rm_rf(&w.p("repo2"));
                init2(w);
                cmd_ok(w, "repo", &op)?;
                let to = if op[0] == "copy" { "repo2" } else { "repo" };
                cmd_ok(w, to, &["check", "-r"])?;
                if !g.filter || op[0] == "copy" {
                    strict(w, to)?;
                }
                // a filtered snapshot is the latest or keeps its place, by its time
                if op[0] != "filter-snapshot" {
                    for (k, (i, ..)) in want.iter().rev().enumerate() {
                        whole(w, to, k, *i)?;
                    }
                }
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------ every form of old object

fn forged() {
    let w0 = World::new();
    w0.init_pack_size("100MiB");
    drop(w0);
    // times as earlier versions wrote them
    let times = [
        "2021-03-04T05:06:07+00:00", "2021-03-04T05:06:07.8+01:00", "2021-03-04T05:06:07.123456789-07:00", "2021-03-04T05:06:07.123456+05:30", "2021-03-04T05:06:07.123+13:45", "2021-03-04T05:06:07+00:00[UTC]",
        "2021-07-04T05:06:07.123456789+02:00[Europe/Berlin]", "2021-12-31T23:59:59.999999999-08:00[America/Los_Angeles]", "1969-07-20T20:17:40+00:00[UTC]",
        // a zone that this system does not know, or knows otherwise
        "2021-07-04T05:06:07.5+02:00[Europe/Nowhere]", "2021-07-04T05:06:07-02:30[Europe/Berlin]",
    ];
    let zones = ["UTC", "Europe/Berlin", "+01:00", "-07:00", "Etc/Unknown", "Europe/Nowhere", "", "EST5EDT,M3.2.0,M11.1.0"];
    // nodes as earlier versions, or other systems, wrote them: (metadata, fields left out)
    let metas = ["posix", "posix, no size", "windows", "windows, no size", "windows, no times"];
    let mut snaps: Vec<(u8, String, bool)> = times.iter().flat_map(|x| [false, true].map(|g| (b'1', x.to_string(), g))).collect();
    snaps.extend(zones.iter().flat_map(|x| [false, true].map(|g| (b'2', x.to_string(), g))));
    let cases: Vec<((u8, String, bool), &str)> = snaps.iter().map(|s| (s.clone(), "posix")).chain(metas.iter().map(|m| (snaps[0].clone(), *m))).collect();
    par_map(&cases, |_, ((ver, time, tags), meta)| {
        let w = World::new();
        w.init_pack_size("100MiB");
        init2(&w);
        case(&w, format!("snapshot of version {} at {time}{}, {meta} entries", *ver as char, if *tags { ", tags" } else { "" }), |w| {
            use forge::*;
            let repo = w.repo();
            let md = |kind: &str, size: usize| {
                let win = meta.starts_with("windows");
                let mut m = vec![("type", t(if win { "windows" } else { "posix" }))];
                if win {
                    m.push(("attributes", C::U(match kind { "dir" => 0x10, "link" => 0x400, _ => 0x80 })));
                } else {
                    m.push(("mode", C::U(match kind { "dir" => 0o40755, "link" => 0o120777, _ => 0o100644 })));
                }
                if kind == "file" && !meta.contains("no size") {
                    m.push(("size", C::U(size as u64)));
                }
                let at = if meta.contains("no times") { C::Null } else { int(T0) };
                if win {
                    m.extend([("creation_time", at.clone()), ("access_time", at.clone()), ("write_time", at)]);
                } else {
                    m.extend([("uid", C::U(0)), ("gid", C::U(0)), ("atime", at.clone()), ("mtime", at)]);
                }
                map(m)
            };
            let chunk = b"alpha".to_vec();
            let (c1, c2) = (b"bravo".to_vec(), b"charlie".to_vec());
            let sub = encode(&map(vec![("f", node(vec![("chunks", C::A(vec![id(&sha224(&chunk))])), ("metadata", md("file", 5))])), ("l", node(vec![("symlink", t("f")), ("metadata", md("link", 1))]))]));
            let src = encode(&map(vec![
                ("e", node(vec![("chunks", C::A(vec![])), ("metadata", md("file", 0))])),
                ("s", node(vec![("tree", id(&sha224(&sub))), ("metadata", md("dir", 0))])),
                ("two", node(vec![("chunks", C::A(vec![id(&sha224(&c1)), id(&sha224(&c2))])), ("metadata", md("file", 12))])),
            ]));
            let root = encode(&map(vec![("src", node(vec![("tree", id(&sha224(&src))), ("metadata", md("dir", 0))]))]));
            let trees = vec![(true, sub), (true, src), (true, root.clone())];
            let chunks = vec![(false, chunk), (false, c1), (false, c2)];
            let (p1, p2) = (pack(&repo, &trees), pack(&repo, &chunks));
            index(&repo, &[], &[(p1, &trees), (p2, &chunks)]);
            let tg = C::A(["one", "two"].map(t).to_vec());
            let paths = C::A(vec![t(&w.src().to_string_lossy())]);
            let tree = id(&sha224(&root));
            let body = if *ver == b'1' {
                map(vec![("time", t(time)), ("author", t("old")), ("tags", if *tags { tg } else { C::A(vec![]) }), ("paths", paths), ("tree", tree)])
            } else {
                let mut m = vec![("time", int(1_614_834_367_123_456_789)), ("tz", t(time)), ("author", t("old"))];
                if *tags {
                    m.push(("tags", tg));
                }
                m.extend([("paths", paths), ("tree", tree)]);
                map(m)
            };
            let sid = id_str(&snapshot(&repo, *ver, &body));
            let content = d(&[("e", f(b"")), ("two", f(b"bravocharlie")), ("s", d(&[("f", f(b"alpha")), ("l", l("f"))]))]);
            let whole = |repo: &str, which: &str, opts: &[&str]| -> Result<(), String> {
                let out = w.p("restore-out");
                fresh(&out);
                cmd_ok(w, repo, &[&["restore", "-o", "../restore-out"], opts, &[which]].concat())?;
                let posix = opts.contains(&"-t") && !meta.contains("no times");
                match tree_diff(&tree_of(&content), &scan(&out), Cmp { mode: false, mtime: posix }) {
                    Some(d) => Err(format!("{which} restored differs: {d}")),
                    None => Ok(()),
                }
            };
            for (dir, s) in [("repo", sid.as_str()), ("repo", "LAST")] {
                whole(dir, s, &[])?;
                whole(dir, s, &["-t"])?;
            }
            let o = cmd_ok(w, "repo", &["snapshots", "--sizes", "--stat", "--metadata"])?;
            if !o.out.contains("old") || !o.out.contains(&sid[..8]) || (*tags && !o.out.contains("one")) {
                return Err(format!("not listed: {}", o.out));
            }
            for c in [&["check"][..], &["check", "-r"], &["ls", "LAST"], &["cat", "snapshot", "LAST"], &["usage"], &["diff", "LAST", "LAST"], &["prune", "-n"]] {
                cmd_ok(w, "repo", c)?;
            }
            let o = cmd_ok(w, "repo", &["dump", "LAST", "src/two"])?;
            if o.raw != b"bravocharlie" {
                return Err("dump gives something else".into());
            }
            cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
            strict(w, "repo2")?;
            whole("repo2", "LAST", &["-t"])?;
            let (a, b) = (Repo::load(&w.repo()), Repo::load(&w.p("repo2")));
            let (x, y) = (a.snaps.values().next().ok_or("gone")?, b.snaps.values().next().ok_or("not copied")?);
            if x.time != y.time {
                return Err(format!("the copy is of another time: {} {:?}, not {} {:?}", y.time, y.tz, x.time, x.tz));
            }
            if (x.tree, &x.author, &x.tags, &x.paths) != (y.tree, &y.author, &y.tags, &y.paths) {
                let (sa, sb) = (a.reachable_store(), b.reachable_store()); let sh = |v: Option<&(bool, &Vec<u8>)>| v.map(|v| String::from_utf8_lossy(v.1).into_owned()); return Err(format!("the copy differs: {:?} {:?}", sh(sa.get(&x.tree)), sh(sb.get(&y.tree))));
            }
            cmd_ok(w, "repo2", &["check", "-r"])?;
            // again: nothing new
            cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
            if snapshot_ids(&w.p("repo2")).len() != 1 {
                return Err("copying again made another snapshot".into());
            }
            rebuild(&w.src(), &content);
            cmd_ok(w, "repo", &["backup", "-a", "new", "../src"])?;
            strict(w, "repo")?;
            whole("repo", "LAST", &["-t", "-p"])?;
            whole("repo", "LAST~", &["-t"])?;
            cmd_ok(w, "repo", &["diff", "LAST~", "LAST"])?;
            cmd_ok(w, "repo", &["filter-snapshot", "-a", "f", "-s", "/e$", &sid])?;
            strict(w, "repo")?;
            cmd_ok(w, "repo", &["rebuild-index"])?;
            cmd_ok(w, "repo", &["prune"])?;
            strict(w, "repo")?;
            whole("repo", &sid, &["-t"])
        });
    });
}

// ------------------------------------------------------------------ the same again

/// Identities: of the snapshots and of the blobs stored, and what the indexes replace.
fn identities(r: &Repo) -> (BTreeSet<Id>, BTreeSet<(bool, Id)>) {
    (r.snaps.keys().copied().collect(), r.packs.values().flat_map(|p| p.manifest.iter().map(|b| (b.tree, b.id))).collect())
}

fn schedules() {
    let mut plan = vec![
        backup("first backup", "100MiB", &[], "A"),
        backup("first backup, small packs", "1000B", &[], "B"),
        backup("second backup", "1000B", &["A"], "C"),
        prune("prune", "1000B", &["A", "B"], &[0]),
        copy("copy", &["A", "B"], 1),
        rebuild_index("rebuild-index", &["A", "B"], false),
        filter_snapshot("filter-snapshot", &["A", "B"], false),
    ];
    if run().thorough {
        plan.extend(writers());
    }
    for sc in &plan {
        let o = Opts { cores: 2, deviations: tier(0, 1), ..Opts::default() };
        let pool = Pool::new(sc, o.cores);
        // by world, since paths are part of snapshots
        let want: Mutex<BTreeMap<std::path::PathBuf, _>> = Default::default();
        let trees: Mutex<Option<BTreeSet<(bool, Id)>>> = Default::default();
        let judge = |w: &World, how: &str| {
            let (a, b) = (Repo::load(&w.repo()), Repo::load(&w.p("repo2")));
            let got = (identities(&a), identities(&b));
            run().state(fnv(&[sc.name.as_bytes(), how.as_bytes()]));
            let mut g = want.lock().unwrap();
            let first = g.entry(w.root.clone()).or_insert(got.clone());
            let mut same = *first == got;
            drop(g);
            let blobs: BTreeSet<(bool, Id)> = got.0.1.iter().chain(&got.1.1).copied().collect();
            let mut t = trees.lock().unwrap();
            same &= *t.get_or_insert(blobs.clone()) == blobs;
            drop(t);
            run().outcome(format!("{}: repeated", sc.kind));
            if !same {
                run().violation(format!("{}: {how}", sc.name), format!("{}, {how}: the same inputs have other identities", sc.name), how.to_string());
            }
            for r in ["repo", "repo2"] {
                if w.p(r).exists() {
                    if let Err(e) = strict(w, r) {
                        run().violation(format!("{}: {how}", sc.name), format!("{}, {how}: {e}", sc.name), how.to_string());
                    }
                }
            }
        };
        crate::explore::schedules(&pool, &o, &|p, s| {
            run().eval();
            run().traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let r = p.go(s.clone(), &o, vec![], None);
            match &r {
                Ok(x) if x.hung.is_none() && x.outs.iter().all(|o| o.ok()) => {
                    judge(&p.w, &format!("schedule {}", s.text()));
                    r.ok()
                }
                Ok(x) => {
                    run().violation(format!("{}: {}", sc.name, s.text()), format!("{}, schedule {}: {}", sc.name, s.text(), x.hung.clone().unwrap_or(x.outs[0].brief())), s.text());
                    None
                }
                Err(e) => {
                    run().violation(format!("{}: {}", sc.name, s.text()), format!("{}: {e}", sc.name), s.text());
                    None
                }
            }
        });
        // circumstances that do not count
        let around: Vec<(&str, &str)> = vec![("LANG", "C"), ("LC_ALL", "de_DE.UTF-8"), ("USER", "someone"), ("COLUMNS", "20"), ("RUST_LOG", "trace"), ("TMPDIR", "/nonexistent"), ("cores", "1"), ("cores", "3"), ("cores", "8"), ("cores", "64")];
        pool.with(|p| {
            for (k, v) in &around {
                p.reset();
                let args: Vec<&str> = p.st.cmd.iter().map(|s| s.as_str()).collect();
                p.w.now.set(p.now + 1);
                let mut c = p.w.command(&args, &p.w.p(&p.repo));
                if *k == "cores" {
                    c.env("MC_CPUINFO", cpuinfo(&p.w, v.parse().unwrap()));
                } else {
                    c.env(k, v);
                }
                run().eval();
                let o = run_command(c, p.w.timeout);
                if !o.ok() {
                    run().violation(format!("{}: {k}={v}", sc.name), format!("{} with {k}={v}: {}", sc.name, o.brief()), "");
                    continue;
                }
                judge(&p.w, &format!("{k}={v}"));
            }
        });
    }

}
