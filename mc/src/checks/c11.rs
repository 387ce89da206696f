//! C11: a backup that reuses earlier snapshots records what a first backup would.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeMap;

fn kinds11() -> Vec<(&'static str, Option<N>)> {
    let mut k = kinds();
    k.push(("other content, same size and time as the file", Some(f(b"omega"))));
    k.push(("grown", Some(ft(b"alphabet", 3))));
    k.push(("shrunk", Some(ft(b"al", 4))));
    k.push(("grown, same time", Some(f(b"alphabet"))));
    k.push(("older", Some(ft(b"omega", -100))));
    k.push(("a nanosecond later", Some(fm(b"omega", 0o644, T0 + 1))));
    k.push(("dir with the file's name inside", Some(d(&[("a", f(b"alpha")), ("x", f(b"alpha"))]))));
    k
}

/// The one shortcut allowed: size and time unchanged.
fn acceptable(prev: &Tree, want: &Tree, got: &Tree) -> Result<bool, String> {
    let mut adjusted = want.clone();
    let mut reused = false;
    for (k, e) in adjusted.iter_mut() {
        if let (Some(p), Some(g)) = (prev.get(k), got.get(k)) {
            if let (Kind::File(a), Kind::File(b), Kind::File(_)) = (&p.kind, &e.kind, &g.kind) {
                if a != b && a.len() == b.len() && p.mtime == e.mtime && g.kind == p.kind {
                    e.kind = p.kind.clone();
                    reused = true;
                }
            }
        }
    }
    match tree_diff(&adjusted, got, Cmp { mode: true, mtime: true }) {
        Some(d) => Err(d),
        None => Ok(reused),
    }
}

fn latest(w: &World, repo: &str) -> Result<(Repo, Snap), String> {
    let r = Repo::load(&w.p(repo));
    r.invariant(&Default::default())?;
    let s = r.chrono().pop().ok_or("no snapshot")?.clone();
    Ok((r, s))
}

fn pair(w: &World, size: &str, place: usize, a: &Option<N>, b: &Option<N>) -> Result<(), String> {
    w.init_pack_size(size);
    let o = w.bp_repo(&["init", "filesystem"], &w.p("fresh"));
    if !o.ok() {
        return Err(o.brief());
    }
    let put = |n: &Option<N>| -> Option<N> {
        match place {
            0 => Some(dir_of(vec![("a".into(), n.clone()), ("same".into(), Some(f(b"unchanged")))])),
            1 => Some(dir_of(vec![("s".into(), Some(dir_of(vec![("a".into(), n.clone())]))), ("t".into(), Some(d(&[("a", f(b"alpha"))])))])),
            _ => n.clone(),
        }
    };
    let (na, nb) = (put(a), put(b));
    let (Some(na), Some(nb)) = (na, nb) else { return Ok(()) };
    // symbolic links cannot be the backed-up path: it would be resolved
    if matches!(na, N::L(_)) || matches!(nb, N::L(_)) {
        return Ok(());
    }
    rebuild(&w.src(), &na);
    cmd_ok(w, "repo", &["backup", "--allow-empty", "-a", "me", "../src"])?;
    rebuild(&w.src(), &nb);
    cmd_ok(w, "repo", &["backup", "--allow-empty", "-a", "me", "../src"])?;
    cmd_ok(w, "fresh", &["backup", "--allow-empty", "-a", "me", "../src"])?;
    let (r, s) = latest(w, "repo")?;
    let (rf, sf) = latest(w, "fresh")?;
    let got = r.expand(&s)?;
    if let Some(d) = tree_diff(&named_tree("src", &nb), &rf.expand(&sf)?, Cmp { mode: true, mtime: true }) {
        return Err(format!("the first backup is wrong: {d}"));
    }
    let reused = acceptable(&named_tree("src", &na), &named_tree("src", &nb), &got)?;
    if !reused && s.tree != sf.tree {
        return Err("same contents, but another tree than a first backup records".into());
    }
    run().outcome(if reused { "reused on equal size and time" } else { "equal to a first backup" });
    Ok(())
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ks = kinds11();
    // 1. every change of one entry, in three places
    let mut tasks = vec![];
    for a in 0..ks.len() {
        for b in 0..ks.len() {
            for place in 0..3 {
                tasks.push((a, b, place));
            }
        }
    }
    par_map(&tasks, |i, (a, b, place)| {
        for size in tier(&[["100MiB", "1B"][i % 2]][..], &["100MiB", "1B"][..]) {
            let w = World::new();
            case(&w, format!("{} becomes {} ({}, {size})", ks[*a].0, ks[*b].0, ["in the directory", "one level down", "the path itself"][*place]), |w| pair(w, size, *place, &ks[*a].1, &ks[*b].1));
            run().state(fnv(&[&[*a as u8, *b as u8, *place as u8]]));
        }
    });
    // 2. every sequence of three states of an entry, as subdirectories of one source
    let seqs = assignments(ks.len(), 3);
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(tier(700, 250)).collect();
    let chunks: Vec<_> = if run().thorough { chunks } else { chunks.into_iter().collect() };
    par_map(&chunks, |i, c| {
        let w = World::new();
        case(&w, format!("sequences, part {i}"), |w| {
            w.init_pack_size("100MiB");
            let stage = |k: usize| N::D(c.iter().map(|a| (format!("t{}-{}-{}", a[0], a[1], a[2]), dir_of(vec![("a".into(), ks[a[k]].1.clone())]))).collect(), 0o755, T0);
            let mut prev: Option<Tree> = None;
            for k in 0..3 {
                let n = stage(k);
                rebuild(&w.src(), &n);
                cmd_ok(w, "repo", &["backup", "-a", "me", "../src"])?;
                let (r, s) = latest(w, "repo")?;
                let got = r.expand(&s)?;
                acceptable(prev.as_ref().unwrap_or(&Tree::new()), &named_tree("src", &n), &got).map_err(|e| format!("backup {}: {e}", k + 1))?;
                prev = Some(got);
            }
            for a in c.iter() {
                run().state(fnv(&[b"s", &[a[0] as u8, a[1] as u8, a[2] as u8]]));
            }
            Ok(())
        });
    });
    // 3. histories in which the choice of the earlier snapshot matters
    let v1 = d(&[("x", ft(b"one", 1)), ("s", d(&[("y", ft(b"yy", 1)), ("l", l("y"))])), ("up", l("s/y"))]);
    let v2 = d(&[("x", ft(b"two", 2)), ("s", d(&[("y", ft(b"yy", 1)), ("z", f(b"zz")), ("l", l("z"))])), ("up", l("s/z"))]);
    let oth = d(&[("x", ft(b"ten", 1)), ("s", f(b"yy"))]);
    let ops = ["v1", "v2", "v1 + other", "v2 + other", "other", "v1 dereferenced", "v2 dereferenced", "v1 skipping y", "x of v1", "x of v2", "forget newest", "prune", "rebuild-index", "v2 by copy and back", "namesake", "x of namesake"];
    // elsewhere, but with the same names, sizes and times
    let same = d(&[("x", ft(b"eno", 1)), ("s", d(&[("y", ft(b"ii", 1)), ("l", l("y"))])), ("up", l("s/y"))]);
    let ex = Explorer {
        ops: ops.iter().map(|s| s.to_string()).collect(),
        depth: tier(3, 4),
        dirs: &["repo", "repo2", "cwd"],
        setup: &|w, _| {
            w.init_pack_size("100MiB");
            let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
            assert!(o.ok());
            build(&w.p("other"), &oth);
            std::fs::create_dir(w.p("else")).unwrap();
            build(&w.p("else/src"), &same);
        },
        apply: &|w, m, op| {
            let name = ops[op];
            if matches!(name, "forget newest" | "prune" | "rebuild-index" | "v2 by copy and back") {
                if m.snaps.is_empty() {
                    return Ok(Step::Skip);
                }
                match name {
                    "forget newest" => {
                        let s = m.snaps.pop().unwrap();
                        cmd_ok(w, "repo", &["forget", &id_str(&s.id)])?;
                    }
                    "v2 by copy and back" => {
                        // everything leaves for the other repository and comes back into a pruned one
                        cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
                        for s in &m.snaps {
                            cmd_ok(w, "repo", &["forget", &id_str(&s.id)])?;
                        }
                        cmd_ok(w, "repo", &["prune"])?;
                        cmd_ok(w, "repo2", &["copy", "--to", "../repo", "--all"])?;
                        let have = snapshot_ids(&w.repo());
                        if m.snaps.iter().any(|s| !have.contains(&s.id)) {
                            return Err("snapshots did not come back".into());
                        }
                        m.snaps = Repo::load(&w.repo()).chrono().iter().map(|s| MSnap { id: s.id, tree: Tree::new(), author: "me".into(), tags: Default::default(), paths: s.paths.clone() }).collect();
                    }
                    c => {
                        cmd_ok(w, "repo", &[c])?;
                    }
                }
                return Ok(Step::Next);
            }
            let v = if name.contains("v2") { &v2 } else { &v1 };
            rebuild(&w.src(), v);
            let mut a = vec!["backup", "--allow-repeat", "-a", "me"];
            if name.contains("deref") {
                a.push("-L");
            }
            if name.contains("skipping") {
                a.extend(["-s", "/y$"]);
            }
            if name.contains("namesake") {
                a.push(if name.starts_with("x") { "../else/src/x" } else { "../else/src" });
            } else if name == "other" {
                a.push("../other");
            } else if name.starts_with("x of") {
                a.push("../src/x");
            } else {
                a.push("../src");
                if name.contains("other") {
                    a.push("../other");
                }
            }
            rm_rf(&w.p("fresh"));
            let now = w.now.get();
            let o = w.bp_repo(&["init", "filesystem"], &w.p("fresh"));
            if !o.ok() {
                return Err(o.brief());
            }
            cmd_ok(w, "fresh", &a)?;
            w.now.set(now);
            let before = snapshot_ids(&w.repo());
            cmd_ok(w, "repo", &a)?;
            let (rf, sf) = latest(w, "fresh")?;
            let r = Repo::load(&w.repo());
            let new: Vec<&Snap> = r.snaps.values().filter(|s| !before.contains(&s.id)).collect();
            if new.len() != 1 {
                return Err(format!("{} new snapshots", new.len()));
            }
            let (tf, t) = (rf.expand(&sf)?, r.expand(new[0])?);
            if let Some(d) = tree_diff(&tf, &t, Cmp { mode: true, mtime: true }) {
                return Err(format!("differs from a first backup: {d}"));
            }
            if new[0].tree != sf.tree {
                return Err("another tree than a first backup records".into());
            }
            m.snaps.push(MSnap { id: new[0].id, tree: t, author: "me".into(), tags: Default::default(), paths: new[0].paths.clone() });
            Ok(Step::Next)
        },
        check: &|_, _, _| Ok(()),
        key: &|w, _| repo_key(w, "repo", "cwd") ^ repo_key(w, "repo2", "cwd").rotate_left(7),
    };
    ex.go();
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    (
        "model_checking",
        "every ordered pair of states of an entry (27 kinds, three places), every sequence of three, and all histories of backups with different paths and options, forget, prune, rebuild-index and copies up to a depth; each backup's tree is compared with the tree a first backup into an empty repository records",
        true,
    )
}
