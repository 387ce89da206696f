//! C10: what is stored already is not stored again.
use super::tier;
use crate::cli::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::variants::variants;
use std::collections::{BTreeMap, BTreeSet};

pub fn run_check() -> (&'static str, &'static str, bool) {
    let mut vs = variants();
    let big = noise(7, 3000);
    // duplicates within one source; contents that are both a file's and a directory's
    vs.push(("X", d(&[("one", f(&big)), ("two", ft(&big, 5)), ("h", f(b"\xa0")), ("e", d(&[])), ("f", d(&[])), ("sub", d(&[("one", f(&big)), ("y", f(b"yankee"))])), ("sub2", d(&[("one", f(&big)), ("y", f(b"yankee"))]))])));
    // the same as A, only touched
    vs.push(("A touched", d(&[("x", ft(b"xray", 50)), ("s", d(&[("y", ft(b"yankee", 50)), ("b", ft(&noise(7, 3000), 50))]))])));
    let nb = vs.len();
    let mut ops: Vec<String> = vs.iter().map(|v| format!("backup {}", v.0)).collect();
    ops.extend(["forget newest", "copy all", "copy oldest back", "backup of src and its parts"].map(String::from));
    for size in ["100MiB", "1000B"] {
        let ex = Explorer {
            ops: ops.clone(),
            depth: tier(if size == "1000B" { 3 } else { 4 }, 5),
            dirs: &["repo", "repo2", "cwd", "src"],
            setup: &|w, _| {
                w.init_pack_size(size);
                let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
                assert!(o.ok());
            },
            apply: &|w, m, op| {
                let was = Repo::load(&w.repo());
                let was2 = Repo::load(&w.p("repo2"));
                if op < nb {
                    rebuild(&w.src(), &vs[op].1);
                    backup_again(w, m, &["../src"])?;
                } else {
                    match op - nb {
                        0 => {
                            let Some(s) = m.snaps.pop() else { return Ok(Step::Skip) };
                            cmd_ok(w, "repo", &["forget", &id_str(&s.id)])?;
                        }
                        1 => {
                            if m.snaps.is_empty() {
                                return Ok(Step::Skip);
                            }
                            cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
                            let one = scan(&w.p("repo2"));
                            cmd_ok(w, "repo", &["copy", "--to", "../repo2", "--all"])?;
                            if let Some(d) = tree_diff(&one, &scan(&w.p("repo2")), Cmp::default()) {
                                return Err(format!("copying again stores something: {d}"));
                            }
                        }
                        2 => {
                            let r = Repo::load(&w.p("repo2"));
                            let Some(s) = r.chrono().first().map(|s| s.id) else { return Ok(Step::Skip) };
                            cmd_ok(w, "repo2", &["copy", "--to", "../repo", &id_str(&s)])?;
                            let rr = Repo::load(&w.repo());
                            m.snaps = rr.chrono().iter().map(|s| msnap(&rr, s)).collect::<Result<_, _>>()?;
                        }
                        _ => {
                            let Some(v) = m.src else { return Ok(Step::Skip) };
                            let _ = v;
                            let mut paths = vec![];
                            for n in std::fs::read_dir(w.src()).unwrap().flatten() {
                                if n.file_type().unwrap().is_symlink() {
                                    continue;
                                }
                                paths.push(n.path().to_string_lossy().into_owned());
                            }
                            if paths.is_empty() {
                                return Ok(Step::Skip);
                            }
                            paths.push("../src".into());
                            let p: Vec<&str> = paths.iter().map(|s| s.as_str()).collect();
                            backup_again(w, m, &p)?;
                        }
                    }
                }
                if op < nb {
                    m.src = Some(op);
                }
                new_is_new(&was, &Repo::load(&w.repo()))?;
                new_is_new(&was2, &Repo::load(&w.p("repo2"))).map_err(|e| format!("destination: {e}"))?;
                Ok(Step::Next)
            },
            check: &|w, m, _| {
                for r in ["repo", "repo2"] {
                    let rp = Repo::load(&w.p(r));
                    if let Some(b) = rp.bad.first() {
                        return Err(b.clone());
                    }
                    rp.invariant(&BTreeSet::new())?;
                }
                let _ = m;
                Ok(())
            },
            key: &|w, m| repo_key(w, "repo", "cwd") ^ repo_key(w, "repo2", "cwd").rotate_left(9) ^ m.src.map(|x| x as u64 + 1).unwrap_or(0),
        };
        ex.go();
    }
    (
        "model_checking",
        "all histories of backups (overlapping, touched, with duplicates inside), forget and copies both ways up to a depth; after each command every blob it stored is compared with what was stored before, and each backup is repeated on the unchanged source with and without --allow-repeat",
        true,
    )
}

fn msnap(r: &Repo, s: &Snap) -> Result<MSnap, String> {
    Ok(MSnap { id: s.id, tree: r.expand(s)?, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() })
}

/// No blob in a new pack was stored before, or is stored twice now.
fn new_is_new(was: &Repo, now: &Repo) -> Result<(), String> {
    let old: BTreeMap<Id, usize> = was.stored();
    let mut seen: BTreeSet<Id> = BTreeSet::new();
    for (pid, p) in &now.packs {
        if was.packs.contains_key(pid) {
            continue;
        }
        for b in &p.manifest {
            if old.contains_key(&b.id) {
                return Err(format!("blob {} was stored already and is stored again in pack {}", &id_str(&b.id)[..8], &id_str(pid)[..8]));
            }
            if !seen.insert(b.id) {
                return Err(format!("blob {} is stored twice by one command", &id_str(&b.id)[..8]));
            }
        }
    }
    run().outcome(if seen.is_empty() { "nothing new stored" } else { "new data stored" });
    Ok(())
}

fn backup_again(w: &World, m: &mut Model, paths: &[&str]) -> Result<(), String> {
    let mut a = vec!["backup", "--allow-empty", "-a", "me"];
    a.extend(paths);
    cmd_ok(w, "repo", &a)?;
    let one = scan(&w.repo());
    let now = w.now.get();
    // unchanged source: nothing at all
    cmd_ok(w, "repo", &a)?;
    if let Some(d) = tree_diff(&one, &scan(&w.repo()), Cmp::default()) {
        return Err(format!("backing up the unchanged source again: {d}"));
    }
    // with a repeat: exactly one snapshot
    let mut b = vec!["backup", "--allow-empty", "--allow-repeat", "-a", "me"];
    b.extend(paths);
    cmd_ok(w, "repo", &b)?;
    let two = scan(&w.repo());
    let added: Vec<&Vec<u8>> = two.keys().filter(|k| !one.contains_key(*k)).collect();
    if added.len() != 1 || !added[0].starts_with(b"snapshots/") || one.keys().any(|k| !two.contains_key(k)) {
        return Err(format!("--allow-repeat on the unchanged source adds {:?}", added.iter().map(|k| String::from_utf8_lossy(k).into_owned()).collect::<Vec<_>>()));
    }
    std::fs::remove_file(w.repo().join(String::from_utf8_lossy(added[0]).into_owned())).unwrap();
    w.now.set(now);
    let r = Repo::load(&w.repo());
    m.snaps = r.chrono().iter().map(|s| msnap(&r, s)).collect::<Result<_, _>>()?;
    Ok(())
}
