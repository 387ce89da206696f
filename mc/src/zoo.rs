//! Repositories as the other commands leave them, interrupted ones included.
use crate::cli::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::path::Path;

pub struct Animal {
    pub name: &'static str,
    /// Could a completed command have left this? (else an interrupted one)
    pub complete: bool,
}

pub const ZOO: &[Animal] = &[
    Animal { name: "no snapshots", complete: true },
    Animal { name: "one backup", complete: true },
    Animal { name: "three backups", complete: true },
    Animal { name: "three backups, tiny packs", complete: true },
    Animal { name: "forgotten and pruned", complete: true },
    Animal { name: "forgotten and pruned, tiny packs", complete: true },
    Animal { name: "forgotten, not pruned", complete: true },
    Animal { name: "copied from elsewhere", complete: true },
    Animal { name: "filtered, original gone", complete: true },
    Animal { name: "everything forgotten", complete: true },
    Animal { name: "an empty directory", complete: true },
    Animal { name: "packs of an interrupted backup", complete: false },
    Animal { name: "pack and index of an interrupted backup", complete: false },
    Animal { name: "prune interrupted before removing anything", complete: false },
    Animal { name: "prune interrupted after removing the old indexes", complete: false },
    Animal { name: "rebuild-index interrupted before removing the old ones", complete: false },
    Animal { name: "index of a prune, superseded index and a backup after it", complete: false },
];

pub fn small(i: usize) -> N {
    match i {
        0 => d(&[("a", f(b"alpha")), ("s", d(&[("b", f(b"bravo bravo"))]))]),
        1 => d(&[("a", f(b"alpha")), ("s", d(&[("c", f(b"charlie")), ("l", l("c"))])), ("z", f(b""))]),
        2 => d(&[("t", d(&[("b", f(b"bravo bravo"))])), ("n", f(b"november"))]),
        _ => d(&[]),
    }
}

/// Copies every file of `from` that `to` does not have.
fn merge(from: &Path, to: &Path, dirs: &[&str]) {
    for d in dirs {
        for e in std::fs::read_dir(from.join(d)).unwrap().flatten() {
            let t = to.join(d).join(e.file_name());
            if !t.exists() {
                std::fs::copy(e.path(), t).unwrap();
            }
        }
    }
}

/// Makes `repo` (and leaves `../src`, the working directory and the cache as the commands did).
pub fn make(w: &World, which: usize) -> Result<Vec<MSnap>, String> {
    let a = &ZOO[which];
    let tiny = a.name.contains("tiny") || matches!(which, 11 | 13 | 16);
    let init = |dir: &str| {
        let o = w.bp_repo(&["init", "--pack-size", if tiny { "1B" } else { "100MiB" }, "filesystem"], &w.p(dir));
        assert!(o.ok(), "{}", o.brief());
    };
    init("repo");
    let mut snaps = vec![];
    let src = w.src();
    let take = |repo: &str, i: usize, snaps: &mut Vec<MSnap>| -> Result<(), String> {
        let n = small(i);
        rebuild(&src, &n);
        let (who, tags): (&str, &[&str]) = [("me", &["one", "two"][..]), ("you", &[][..])][i % 2];
        let mut args = vec!["backup", "--allow-empty", "--allow-repeat", "-a", who];
        for t in tags {
            args.extend(["-t", t]);
        }
        args.push("../src");
        do_backup(w, repo, &args, snaps, &named_tree("src", &n), who, tags, &[&src])?.ok_or("no snapshot")?;
        Ok(())
    };
    let bp = |args: &[&str]| cmd_ok(w, "repo", args);
    let forget = |snaps: &mut Vec<MSnap>, i: usize| -> Result<(), String> {
        let s = snaps.remove(i);
        bp(&["forget", &id_str(&s.id)])?;
        Ok(())
    };
    match which {
        0 => {}
        1 => take("repo", 0, &mut snaps)?,
        10 => take("repo", 3, &mut snaps)?,
        7 => {
            init("other");
            take("other", 0, &mut snaps)?;
            take("other", 2, &mut snaps)?;
            cmd_ok(w, "other", &["copy", "--all", "-t", "../repo"])?;
            take("repo", 1, &mut snaps)?;
            rm_rf(&w.p("other"));
        }
        8 => {
            take("repo", 0, &mut snaps)?;
            take("repo", 1, &mut snaps)?;
            bp(&["filter-snapshot", "-k", "-s", "/s/", &id_str(&snaps[1].id)])?;
            let new = snapshot_ids(&w.repo()).into_iter().find(|i| !snaps.iter().any(|s| s.id == *i)).ok_or("no new snapshot")?;
            let mut m = MSnap { id: new, ..snaps[1].clone() };
            m.tree.retain(|k, _| !k.starts_with(b"src/s/"));
            snaps.push(m);
            forget(&mut snaps, 1)?;
        }
        _ => {
            for i in 0..3 {
                take("repo", i, &mut snaps)?;
            }
            let old = w.p("old");
            match which {
                4 | 5 => {
                    forget(&mut snaps, 0)?;
                    bp(&["prune"])?;
                }
                6 => forget(&mut snaps, 1)?,
                9 => {
                    for _ in 0..3 {
                        forget(&mut snaps, 0)?;
                    }
                }
                11 | 12 => {
                    let s = snaps.pop().unwrap();
                    std::fs::remove_file(w.repo().join("snapshots").join(format!("{}.snapshot", id_str(&s.id)))).unwrap();
                    if which == 11 {
                        // the newest backup's index, too
                        let r = Repo::load(&w.repo());
                        let need = r.needed(&r.snaps.values().collect::<Vec<_>>())?;
                        let gone: Vec<Id> = r.indexes.iter().filter(|(_, ix)| !ix.packs.values().flatten().any(|b| need.contains(&b.id))).map(|x| *x.0).collect();
                        if gone.is_empty() {
                            return Err("no index of the last backup alone".into());
                        }
                        for g in gone {
                            std::fs::remove_file(w.repo().join("indexes").join(format!("{}.index", id_str(&g)))).unwrap();
                        }
                    }
                }
                13 | 14 | 16 => {
                    forget(&mut snaps, 0)?;
                    copy_tree(&w.repo(), &old).unwrap();
                    bp(&["prune"])?;
                    merge(&old, &w.repo(), if which == 14 { &["packs"] } else { &["packs", "indexes"] });
                    rm_rf(&old);
                    if which == 16 {
                        take("repo", 0, &mut snaps)?;
                    }
                }
                15 => {
                    copy_tree(&w.repo(), &old).unwrap();
                    bp(&["rebuild-index"])?;
                    merge(&old, &w.repo(), &["indexes"]);
                    rm_rf(&old);
                }
                _ => {}
            }
        }
    }
    check_repo(w, "repo", &snaps)?;
    Ok(snaps)
}
