//! Command scenarios: a prepared world, the command under test, and what the model says about it.
use crate::cli::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::variants::*;
use std::collections::BTreeSet;
use std::path::Path;

/// What a scenario's command starts from and what it should lead to.
#[derive(Clone, Debug, Default)]
pub struct St {
    pub before: Vec<MSnap>,
    pub before2: Vec<MSnap>,
    /// expected at the end; new snapshots have a zero id
    pub after: Vec<MSnap>,
    pub after2: Vec<MSnap>,
    pub cmd: Vec<String>,
    /// snapshots the command is asked to remove
    pub removing: BTreeSet<Id>,
}

pub struct Scen {
    pub name: &'static str,
    pub setup: Box<dyn Fn(&World) -> St + Sync + Send>,
    /// kind of command: backup, prune, copy, ...
    pub kind: &'static str,
}

pub fn dirs() -> Vec<String> {
    ["repo", "repo2", "cwd"].map(String::from).to_vec()
}

pub fn var(name: &str) -> N {
    variants().into_iter().find(|v| v.0 == name).unwrap().1
}

fn new_snap(w: &World, n: &N, author: &str) -> MSnap {
    MSnap {
        id: [0; 28],
        tree: named_tree("src", n),
        author: author.into(),
        tags: BTreeSet::new(),
        paths: [w.src().to_string_lossy().into_owned()].into(),
    }
}

pub fn backup_args() -> Vec<String> {
    ["backup", "-a", "me", "../src"].map(String::from).to_vec()
}

/// Backs up variant `v` for real and adds it to `snaps`.
pub fn take(w: &World, v: &str, snaps: &mut Vec<MSnap>) {
    let n = var(v);
    rebuild(&w.src(), &n);
    let src = w.src();
    do_backup(w, "repo", &["backup", "--allow-empty", "--allow-repeat", "-a", "me", "../src"], snaps, &named_tree("src", &n), "me", &[], &[&src])
        .expect("preparing a scenario: backup");
}

pub fn init2(w: &World) {
    let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
    assert!(o.ok(), "init of the second repository: {}", o.brief());
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// Backup of variant `v` over a repository holding `prior`.
pub fn backup(name: &'static str, size: &'static str, prior: &'static [&'static str], v: &'static str) -> Scen {
    Scen {
        name,
        kind: "backup",
        setup: Box::new(move |w| {
            w.init_pack_size(size);
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            rebuild(&w.src(), &var(v));
            st.after = st.before.clone();
            st.after.push(new_snap(w, &var(v), "me"));
            st.cmd = backup_args();
            st
        }),
    }
}

pub fn prune(name: &'static str, size: &'static str, prior: &'static [&'static str], forget: &'static [usize]) -> Scen {
    Scen {
        name,
        kind: "prune",
        setup: Box::new(move |w| {
            w.init_pack_size(size);
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            for i in forget {
                cmd_ok(w, "repo", &["forget", &id_str(&st.before[*i].id)]).expect("forget");
            }
            st.before = st.before.iter().enumerate().filter(|(i, _)| !forget.contains(i)).map(|x| x.1.clone()).collect();
            st.after = st.before.clone();
            st.cmd = strs(&["prune"]);
            st
        }),
    }
}

/// As `prune`, and the second repository still holds everything.
pub fn prune_kept(name: &'static str, size: &'static str, prior: &'static [&'static str], forget: &'static [usize]) -> Scen {
    Scen {
        name,
        kind: "prune",
        setup: Box::new(move |w| {
            w.init_pack_size(size);
            init2(w);
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            let to = w.p("repo2").to_string_lossy().into_owned();
            cmd_ok(w, "repo", &["copy", "--to", &to, "--all"]).expect("copy");
            st.before2 = st.before.clone();
            st.after2 = st.before.clone();
            // all in one index
            cmd_ok(w, "repo", &["rebuild-index"]).expect("rebuild-index");
            for i in forget {
                cmd_ok(w, "repo", &["forget", &id_str(&st.before[*i].id)]).expect("forget");
            }
            st.before = st.before.iter().enumerate().filter(|(i, _)| !forget.contains(i)).map(|x| x.1.clone()).collect();
            st.after = st.before.clone();
            st.cmd = strs(&["prune"]);
            st
        }),
    }
}

pub fn rebuild_index(name: &'static str, prior: &'static [&'static str], lose: bool) -> Scen {
    Scen {
        name,
        kind: "rebuild-index",
        setup: Box::new(move |w| {
            w.init_pack_size("100MiB");
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            if lose {
                // one index is gone
                let mut names: Vec<_> = std::fs::read_dir(w.repo().join("indexes")).unwrap().flatten().map(|e| e.path()).collect();
                names.sort();
                std::fs::remove_file(&names[0]).unwrap();
            }
            st.after = st.before.clone();
            st.cmd = strs(&["rebuild-index"]);
            st
        }),
    }
}

pub fn copy(name: &'static str, prior: &'static [&'static str], first: usize) -> Scen {
    Scen {
        name,
        kind: "copy",
        setup: Box::new(move |w| {
            w.init_pack_size("100MiB");
            init2(w);
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            let to = w.p("repo2").to_string_lossy().into_owned();
            for s in &st.before[..first] {
                cmd_ok(w, "repo", &["copy", "--to", &to, &id_str(&s.id)]).expect("copy");
                st.before2.push(s.clone());
            }
            st.after = st.before.clone();
            st.after2 = st.before.clone();
            st.cmd = strs(&["copy", "--to", &to]);
            st.cmd.extend(st.before[first..].iter().map(|s| id_str(&s.id)));
            st
        }),
    }
}

pub fn filter_snapshot(name: &'static str, prior: &'static [&'static str], original: bool) -> Scen {
    Scen {
        name,
        kind: "filter-snapshot",
        setup: Box::new(move |w| {
            w.init_pack_size("100MiB");
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            let last = st.before.last().unwrap().clone();
            st.after = st.before.clone();
            let mut f = last.clone();
            f.id = [0; 28];
            f.tree = f.tree.into_iter().filter(|(k, _)| !(k == b"src/x" || k == b"src/w")).collect();
            st.after.push(f);
            let _ = original;
            st.cmd = strs(&["filter-snapshot", "-a", "me", "-s", "^src/[xw]$", &id_str(&last.id)]);
            st
        }),
    }
}

pub fn forget(name: &'static str, prior: &'static [&'static str], which: &'static [usize], dups: bool) -> Scen {
    Scen {
        name,
        kind: "forget",
        setup: Box::new(move |w| {
            w.init_pack_size("100MiB");
            let mut st = St::default();
            for p in prior {
                take(w, p, &mut st.before);
            }
            st.removing = which.iter().map(|i| st.before[*i].id).collect();
            st.after = st.before.iter().filter(|s| !st.removing.contains(&s.id)).cloned().collect();
            st.cmd = strs(&["forget"]);
            if dups {
                st.cmd.push("DUPLICATES".into());
            } else {
                st.cmd.extend(which.iter().map(|i| id_str(&st.before[*i].id)));
            }
            st
        }),
    }
}

/// A read-only command on a repository with three snapshots.
pub fn reading(name: &'static str, cmd: &'static [&'static str]) -> Scen {
    Scen {
        name,
        kind: "read",
        setup: Box::new(move |w| {
            w.init_pack_size("100MiB");
            let mut st = St::default();
            for p in ["A", "B", "C"] {
                take(w, p, &mut st.before);
            }
            st.after = st.before.clone();
            std::fs::create_dir(w.p("out")).unwrap();
            st.cmd = cmd.iter().map(|s| s.replace("%out", &w.p("out").to_string_lossy()).replace("%src", &w.src().to_string_lossy())).collect();
            st
        }),
    }
}

fn matches_model(r: &Repo, got: &Snap, want: &MSnap, store_ok: Result<Tree, String>) -> Result<(), String> {
    let _ = r;
    let t = store_ok?;
    if let Some(d) = tree_diff(&want.tree, &t, Cmp { mode: true, mtime: true }) {
        return Err(d);
    }
    if got.author != want.author || got.tags != want.tags || got.paths != want.paths {
        return Err(format!("metadata differ: {:?} vs {:?}", got, want.paths));
    }
    Ok(())
}

/// Every snapshot of `before` (except those being removed) is there, exact; anything else is complete and
/// one of the expected new ones; no partial object under a final name.
pub fn survivors(r: &Repo, before: &[MSnap], after: &[MSnap], removing: &BTreeSet<Id>) -> Result<(), String> {
    if let Some(b) = r.bad.first() {
        return Err(format!("bad object: {b}"));
    }
    let store = r.reachable_store();
    for s in before {
        match r.snaps.get(&s.id) {
            None if removing.contains(&s.id) => {}
            None => return Err(format!("snapshot {} is gone", &id_str(&s.id)[..8])),
            Some(rs) => {
                matches_model(r, rs, s, r.expand_with(&store, rs)).map_err(|e| format!("snapshot {}: {e}", &id_str(&s.id)[..8]))?;
            }
        }
    }
    for (id, rs) in &r.snaps {
        if before.iter().any(|s| s.id == *id) {
            continue;
        }
        let t = r.expand_with(&store, rs).map_err(|e| format!("new snapshot {} is visible but incomplete: {e}", &id_str(id)[..8]))?;
        let fits = after.iter().any(|s| tree_diff(&s.tree, &t, Cmp { mode: true, mtime: true }).is_none());
        if !fits {
            return Err(format!("new snapshot {} has unexpected contents", &id_str(id)[..8]));
        }
    }
    Ok(())
}

/// The repository's snapshots are exactly the expected ones (new ones matched by contents).
pub fn final_state(r: &Repo, after: &[MSnap]) -> Result<(), String> {
    r.invariant(&BTreeSet::new())?;
    let store = r.reachable_store();
    let mut left: Vec<&MSnap> = after.iter().collect();
    for (id, rs) in &r.snaps {
        let t = r.expand_with(&store, rs).map_err(|e| format!("snapshot {}: {e}", &id_str(id)[..8]))?;
        let pos = left.iter().position(|s| {
            (s.id == *id || s.id == [0; 28]) && tree_diff(&s.tree, &t, Cmp { mode: true, mtime: true }).is_none() && s.author == rs.author && s.tags == rs.tags && s.paths == rs.paths
        });
        match pos {
            Some(i) => {
                left.remove(i);
            }
            None => return Err(format!("unexpected snapshot {} with {} entries", &id_str(id)[..8], t.len())),
        }
    }
    if let Some(s) = left.first() {
        return Err(format!("expected snapshot with {} entries (id {}) is missing", s.tree.len(), &id_str(&s.id)[..8]));
    }
    Ok(())
}

/// The same judged by the program itself: check passes, snapshots are listed and restore exactly.
pub fn usable(w: &World, repo: &str, snaps: &[MSnap], read_packs: bool) -> Result<(), String> {
    let has_packs = std::fs::read_dir(w.p(repo).join("packs")).map(|d| d.count() > 0).unwrap_or(false);
    let _ = has_packs;
    let args: &[&str] = if read_packs { &["check", "-r"] } else { &["check"] };
    cmd_ok(w, repo, args)?;
    if !snaps.is_empty() {
        let o = cmd_ok(w, repo, &["snapshots"])?;
        for s in snaps {
            if s.id != [0; 28] && !o.out.contains(&id_str(&s.id)[..6]) {
                return Err(format!("snapshot {} is not listed", &id_str(&s.id)[..8]));
            }
        }
    }
    for s in snaps {
        if s.id != [0; 28] {
            restore_check(w, repo, s)?;
        }
    }
    Ok(())
}

pub fn rel(w: &World, p: &Path) -> String {
    p.strip_prefix(&w.root).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}

/// Every command that writes, in small representative situations.
pub fn writers() -> Vec<Scen> {
    vec![
        backup("first backup", "100MiB", &[], "A"),
        backup("second backup", "100MiB", &["A"], "C"),
        backup("backup, several packs", "1000B", &["A"], "B"),
        backup("backup, nothing new", "100MiB", &["A", "B"], "A"),
        prune("prune, repacking", "100MiB", &["A", "B", "C"], &[0]),
        prune("prune, several packs", "1000B", &["A", "B"], &[0]),
        prune("prune, nothing left", "100MiB", &["A", "B"], &[0, 1]),
        rebuild_index("rebuild-index", &["A", "B"], false),
        rebuild_index("rebuild-index, one lost", &["A", "B", "C"], true),
        copy("copy", &["A", "B"], 0),
        copy("copy, overlapping", &["A", "B", "C"], 1),
        filter_snapshot("filter-snapshot", &["A"], false),
        forget("forget", &["A", "B", "C"], &[0, 2], false),
        forget("forget duplicates", &["A", "A", "B"], &[1], true),
    ]
}

pub fn readers() -> Vec<Scen> {
    vec![
        reading("check", &["check"]),
        reading("check -r", &["check", "-r"]),
        reading("restore", &["restore", "-o", "%out", "LAST"]),
        reading("ls", &["ls", "LAST~1"]),
        reading("dump", &["dump", "LAST", "src/w"]),
        reading("diff", &["diff", "LAST~2", "LAST"]),
        reading("usage", &["usage"]),
        reading("snapshots", &["snapshots", "--sizes"]),
    ]
}
