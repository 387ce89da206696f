//! Exhaustive exploration of command histories on the real program, with state deduplication.
use crate::cli::*;
use crate::repo::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::Path;
use std::sync::atomic::Ordering::*;
use std::sync::Mutex;

/// What the reference model knows about one snapshot.
#[derive(Clone, Debug)]
pub struct MSnap {
    pub id: Id,
    pub tree: Tree,
    pub author: String,
    pub tags: BTreeSet<String>,
    pub paths: BTreeSet<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    /// chronological
    pub snaps: Vec<MSnap>,
    /// snapshots of the second repository, where a check uses one
    pub snaps2: Vec<MSnap>,
    pub src: Option<usize>,
    pub aux: Vec<u64>,
}

pub enum Step {
    /// applied; carry on
    Next,
    /// not applicable here (history pruned)
    Skip,
}

pub struct Explorer<'a> {
    pub ops: Vec<String>,
    pub depth: usize,
    /// directories (relative to the world root) that make up the state
    pub dirs: &'a [&'a str],
    pub setup: &'a (dyn Fn(&World, &mut Model) + Sync),
    pub apply: &'a (dyn Fn(&World, &mut Model, usize) -> Result<Step, String> + Sync),
    /// runs after every step; may run read-only commands
    pub check: &'a (dyn Fn(&World, &mut Model, usize) -> Result<(), String> + Sync),
    /// distinguishes states for deduplication, beyond the files
    pub key: &'a (dyn Fn(&World, &Model) -> u64 + Sync),
}

pub fn save(root: &Path, dirs: &[&str], tag: &str) {
    let s = root.join(format!("save-{tag}"));
    rm_rf(&s);
    fs::create_dir(&s).unwrap();
    for d in dirs {
        if fs::symlink_metadata(root.join(d)).is_ok() {
            copy_tree(&root.join(d), &s.join(d)).unwrap();
        }
    }
}
pub fn restore(root: &Path, dirs: &[&str], tag: &str) {
    let s = root.join(format!("save-{tag}"));
    for d in dirs {
        rm_rf(&root.join(d));
        if fs::symlink_metadata(s.join(d)).is_ok() {
            copy_tree(&s.join(d), &root.join(d)).unwrap();
        }
    }
}

impl Explorer<'_> {
    pub fn go(&self) {
        self.go_with(&World::new)
    }
    /// As `go`, in worlds made by `new`.
    pub fn go_with(&self, new: &(dyn Fn() -> World + Sync)) {
        // Tasks: all histories of length 2 (or 1), each explored by one worker in its own world.
        let mut tasks: Vec<Vec<usize>> = vec![];
        let n = self.ops.len();
        for a in 0..n {
            if self.depth >= 2 {
                for b in 0..n {
                    tasks.push(vec![a, b]);
                }
            } else {
                tasks.push(vec![a]);
            }
        }
        let seen: Mutex<HashMap<u64, usize>> = Mutex::new(HashMap::new());
        par_map(&tasks, |_, t| {
            let w = new();
            let mut m = Model::default();
            (self.setup)(&w, &mut m);
            let mut hist = vec![];
            for (i, op) in t.iter().enumerate() {
                // The first step is checked only by the first task that has it.
                let check = i + 1 == t.len() || t[1..].iter().all(|x| *x == 0);
                match self.step(&w, &mut m, *op, &mut hist, check) {
                    Some(true) => {}
                    _ => return,
                }
            }
            self.dfs(&w, m, hist, self.depth.saturating_sub(t.len()), &seen);
        });
    }

    fn step(&self, w: &World, m: &mut Model, op: usize, hist: &mut Vec<usize>, check: bool) -> Option<bool> {
        run().step();
        hist.push(op);
        let r = (self.apply)(w, m, op);
        let r = match r {
            Ok(Step::Skip) => return Some(false),
            Ok(Step::Next) => {
                if check {
                    run().eval();
                    (self.check)(w, m, op)
                } else {
                    Ok(())
                }
            }
            Err(e) => Err(e),
        };
        if let Err(e) = r {
            let names: Vec<&str> = hist.iter().map(|i| self.ops[*i].as_str()).collect();
            let h = names.join(" ; ");
            run().violation(format!("hist:{h}"), format!("after [{h}]: {e}"), w.history());
            return None;
        }
        Some(true)
    }

    fn dfs(&self, w: &World, m: Model, hist: Vec<usize>, left: usize, seen: &Mutex<HashMap<u64, usize>>) {
        let k = (self.key)(w, &m);
        run().state(k);
        {
            let mut g = seen.lock().unwrap();
            match g.get(&k) {
                Some(l) if *l >= left => {
                    run().outcome("merged into an explored state");
                    return;
                }
                _ => {
                    g.insert(k, left);
                }
            }
        }
        if hist.len() == self.depth {
            run().traces.fetch_add(1, Relaxed);
            if run().samples.lock().unwrap().len() < 6 {
                let names: Vec<&str> = hist.iter().map(|i| self.ops[*i].as_str()).collect();
                run().sample(names.join(" ; "));
            }
        }
        if left == 0 || run().stopped() {
            return;
        }
        let tag = format!("{}", hist.len());
        save(&w.root, self.dirs, &tag);
        let now = w.now.get();
        let loglen = w.log.borrow().len();
        for op in 0..self.ops.len() {
            if run().stopped() {
                return;
            }
            if op > 0 {
                restore(&w.root, self.dirs, &tag);
                w.now.set(now);
                w.log.borrow_mut().truncate(loglen);
            }
            let mut m2 = m.clone();
            let mut h2 = hist.clone();
            if let Some(true) = self.step(w, &mut m2, op, &mut h2, true) {
                self.dfs(w, m2, h2, left - 1, seen);
            }
        }
    }
}

/// Identity of a repository state up to snapshot times: order, trees, packs, indexes, leftovers.
pub fn repo_key(w: &World, repo: &str, cwd: &str) -> u64 {
    let r = Repo::load(&w.p(repo));
    let mut parts: Vec<Vec<u8>> = vec![];
    for s in r.chrono() {
        parts.push(s.tree.to_vec());
        parts.push(s.author.clone().into_bytes());
        parts.push(s.tags.iter().cloned().collect::<Vec<_>>().join(",").into_bytes());
        parts.push(
            s.paths
                .iter()
                .map(|p| p.rsplit('/').next().unwrap_or("").to_string())
                .collect::<Vec<_>>()
                .join(",")
                .into_bytes(),
        );
    }
    for p in r.packs.keys() {
        parts.push(p.to_vec());
    }
    for p in r.indexes.keys() {
        parts.push(p.to_vec());
    }
    for s in &r.strays {
        parts.push(s.clone().into_bytes());
    }
    for (k, e) in scan(&w.p(cwd)) {
        parts.push(k);
        if let Kind::File(b) = e.kind {
            parts.push(sha224(&b).to_vec());
        }
    }
    let v: Vec<&[u8]> = parts.iter().map(|x| x.as_slice()).collect();
    fnv(&v)
}

/// The general oracle: the repository holds exactly the model's snapshots, each complete and exact,
/// every object is well-formed and correctly named, nothing is left over.
pub fn check_repo(w: &World, repo: &str, snaps: &[MSnap]) -> Result<Repo, String> {
    let r = Repo::load(&w.p(repo));
    if let Some(b) = r.bad.first() {
        return Err(format!("bad object in {repo}: {b}"));
    }
    if let Some(b) = r.strays.first() {
        return Err(format!("stray file in {repo}: {b}"));
    }
    r.invariant(&BTreeSet::new())?;
    let want: BTreeSet<Id> = snaps.iter().map(|s| s.id).collect();
    let have: BTreeSet<Id> = r.snaps.keys().copied().collect();
    if want != have {
        return Err(format!(
            "{repo} holds {} snapshots, model has {} (missing {:?}, unexpected {:?})",
            have.len(),
            want.len(),
            want.difference(&have).map(|i| id_str(i)[..8].to_string()).collect::<Vec<_>>(),
            have.difference(&want).map(|i| id_str(i)[..8].to_string()).collect::<Vec<_>>()
        ));
    }
    for s in snaps {
        let rs = &r.snaps[&s.id];
        let t = r.expand(rs).map_err(|e| format!("snapshot {}: {e}", &id_str(&s.id)[..8]))?;
        if let Some(d) = tree_diff(&s.tree, &t, Cmp { mode: true, mtime: true }) {
            return Err(format!("snapshot {} is not what was backed up: {d}", &id_str(&s.id)[..8]));
        }
        if rs.author != s.author || rs.tags != s.tags || rs.paths != s.paths {
            return Err(format!("snapshot {} metadata differ: {:?}", &id_str(&s.id)[..8], rs));
        }
    }
    Ok(r)
}

/// Runs a backup and records the new snapshot in the model (at most one new one).
pub fn do_backup(w: &World, repo: &str, args: &[&str], snaps: &mut Vec<MSnap>, tree: &Tree, author: &str, tags: &[&str], paths: &[&Path]) -> Result<Option<Id>, String> {
    let before: BTreeSet<Id> = snaps.iter().map(|s| s.id).collect();
    w.tz.set(["UTC", "Asia/Kolkata", "<-03>3", "Pacific/Kiritimati"][snaps.len() % 4]);
    let o = w.bp_repo(args, &w.p(repo));
    if !o.ok() {
        return Err(format!("backup failed: {}", o.brief()));
    }
    let after = snapshot_ids(&w.p(repo));
    let new: Vec<Id> = after.difference(&before).copied().collect();
    match new.len() {
        0 => Ok(None),
        1 => {
            snaps.push(MSnap {
                id: new[0],
                tree: tree.clone(),
                author: author.into(),
                tags: tags.iter().map(|s| s.to_string()).collect(),
                paths: paths.iter().map(|p| p.to_string_lossy().into_owned()).collect(),
            });
            Ok(Some(new[0]))
        }
        n => Err(format!("one backup created {n} snapshots")),
    }
}

pub fn snapshot_ids(repo: &Path) -> BTreeSet<Id> {
    fs::read_dir(repo.join("snapshots"))
        .map(|rd| {
            rd.flatten()
                .filter_map(|e| e.file_name().to_string_lossy().strip_suffix(".snapshot").and_then(id_parse))
                .collect()
        })
        .unwrap_or_default()
}

/// Restores snapshot `id` with the program itself into a fresh directory and compares.
/// `named`: snapshot of a single directory/file => restored contents are those below its one entry.
pub fn restore_check(w: &World, repo: &str, s: &MSnap) -> Result<(), String> {
    let out = w.p("restore-out");
    rm_rf(&out);
    fs::create_dir(&out).unwrap();
    let now = w.now.get();
    let o = w.bp_repo(&["restore", "-t", "-p", "-o", out.to_str().unwrap(), &id_str(&s.id)], &w.p(repo));
    w.now.set(now);
    if !o.ok() {
        return Err(format!("restore of {} failed: {}", &id_str(&s.id)[..8], o.brief()));
    }
    let got = scan(&out);
    let want = if s.paths.len() == 1 { below_root(&s.tree) } else { s.tree.clone() };
    rm_rf(&out);
    match tree_diff(&want, &got, Cmp { mode: true, mtime: true }) {
        Some(d) => Err(format!("restore of {} differs: {d}", &id_str(&s.id)[..8])),
        None => Ok(()),
    }
}

/// Entries below the single top-level entry.
pub fn below_root(t: &Tree) -> Tree {
    t.iter()
        .filter_map(|(k, v)| k.iter().position(|c| *c == b'/').map(|i| (k[i + 1..].to_vec(), v.clone())))
        .collect()
}

pub fn cmd_ok(w: &World, repo: &str, args: &[&str]) -> Result<Out, String> {
    let o = w.bp_repo(args, &w.p(repo));
    if o.ok() {
        Ok(o)
    } else {
        Err(format!("`{}` failed: {}", args.join(" "), o.brief()))
    }
}

/// Files in the working directory must be gone after a completed command.
pub fn cwd_clean(w: &World, cwd: &str) -> Result<(), String> {
    let t = scan(&w.p(cwd));
    match t.keys().next() {
        Some(k) => Err(format!("left in the working directory: {}", String::from_utf8_lossy(k))),
        None => Ok(()),
    }
}

pub type Trees = BTreeMap<Id, Tree>;
