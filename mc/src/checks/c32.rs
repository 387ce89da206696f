//! C32: a source that changes while it is being backed up.
use super::tier;
use crate::cli::*;
use crate::e1::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeSet;
use std::path::Path;

type Change = (&'static str, fn(&Path));

const LATER: i128 = T0 + 5_000_000_000_000;

fn source() -> N {
    d(&[
        ("a", f(b"alpha")),
        ("d", d(&[("e", d(&[])), ("f", f(b"foxtrot, which is somewhat longer")), ("g", f(b"golf"))])),
        ("k", f(b"kilo")),
        ("l", l("a")),
        ("z", f(&noise(5, 4000))),
    ])
}

/// Overwrites in place (the same inode).
fn over(p: &Path, b: &[u8]) {
    std::fs::write(p, b).unwrap();
    set_times(p, LATER);
}
fn put(p: &Path, n: &N) {
    rm_rf(p);
    build(p, n);
}

fn changes() -> Vec<Change> {
    vec![
        ("first file rewritten", |s| over(&s.join("a"), b"ALPHA")),
        ("file rewritten", |s| over(&s.join("d/f"), b"FOXTROT, which is somewhat longer")),
        ("file grown", |s| over(&s.join("d/f"), b"foxtrot, which is somewhat longer than it was")),
        ("file cut", |s| over(&s.join("d/f"), b"foxtrot")),
        ("file emptied", |s| over(&s.join("d/f"), b"")),
        ("file touched", |s| set_times(&s.join("d/f"), LATER)),
        ("file's mode changed", |s| {
            use std::os::unix::fs::PermissionsExt;
            std::fs::set_permissions(s.join("d/f"), std::fs::Permissions::from_mode(0o600)).unwrap();
        }),
        ("file gone", |s| std::fs::remove_file(s.join("d/f")).unwrap()),
        ("file replaced", |s| {
            build(&s.join("d/.tmp"), &fm(b"a new one", 0o640, LATER));
            std::fs::rename(s.join("d/.tmp"), s.join("d/f")).unwrap();
        }),
        ("file now a directory", |s| put(&s.join("d/f"), &d(&[("x", f(b"xray"))]))),
        ("file now a link", |s| put(&s.join("d/f"), &l("../a"))),
        ("file now a dangling link", |s| put(&s.join("d/f"), &l("nowhere"))),
        ("directory now a file", |s| put(&s.join("d"), &ft(b"delta", 7))),
        ("directory now a link", |s| put(&s.join("d"), &l("nowhere"))),
        ("directory gone", |s| rm_rf(&s.join("d"))),
        ("directory renamed", |s| std::fs::rename(s.join("d"), s.join("m")).unwrap()),
        ("file renamed ahead", |s| std::fs::rename(s.join("z"), s.join("b")).unwrap()),
        ("file renamed behind", |s| std::fs::rename(s.join("a"), s.join("y")).unwrap()),
        ("files swapped", |s| {
            std::fs::rename(s.join("a"), s.join("t")).unwrap();
            std::fs::rename(s.join("k"), s.join("a")).unwrap();
            std::fs::rename(s.join("t"), s.join("k")).unwrap();
        }),
        ("file added", |s| build(&s.join("d/new"), &f(b"november"))),
        ("directory added", |s| build(&s.join("n"), &d(&[("x", f(b"xray"))]))),
        ("link elsewhere", |s| put(&s.join("l"), &l("d/g"))),
        ("link now a file", |s| put(&s.join("l"), &ft(b"lima", 9))),
        ("last file rewritten", |s| over(&s.join("z"), &noise(6, 4000))),
        ("last file grown", |s| over(&s.join("z"), &noise(5, 90_000))),
        ("all gone", |s| rm_rf(s)),
        ("all emptied", |s| put(s, &d(&[]))),
        ("all now a file", |s| put(s, &ft(b"sierra", 3))),
    ]
}

/// What the repository holds before.
const PRIOR: &[&str] = &["nothing", "the same source", "another source"];

struct Prep {
    w: World,
    snaps: Vec<MSnap>,
    now: i64,
}

fn prep(prior: usize) -> Result<Prep, String> {
    let w = World::new();
    w.init_pack_size("100MiB");
    let mut snaps = vec![];
    let src = w.src();
    let take = |n: &N, snaps: &mut Vec<MSnap>| {
        rebuild(&src, n);
        do_backup(&w, "repo", &["backup", "--allow-repeat", "-a", "me", "../src"], snaps, &named_tree("src", n), "me", &[], &[&src]).map(|_| ())
    };
    match prior {
        1 => take(&source(), &mut snaps)?,
        2 => take(&d(&[("a", ft(b"older", -100)), ("d", d(&[("f", ft(b"foxtrot", -100)), ("g", f(b"golf"))])), ("q", f(b"quebec"))]), &mut snaps)?,
        _ => {}
    }
    save(&w.root, &["repo", "cwd", "home"], "start");
    let now = w.now.get();
    Ok(Prep { w, snaps, now })
}

const CMDS: &[&[&str]] = &[&["backup", "--allow-repeat", "-a", "me", "../src"], &["backup", "--allow-repeat", "-L", "-a", "me", "../src"]];

impl Prep {
    fn reset(&self) {
        restore(&self.w.root, &["repo", "cwd", "home"], "start");
        rebuild(&self.w.src(), &source());
        self.w.now.set(self.now + 5);
    }
    fn go(&self, cmd: usize, base: &Base, at: Option<(usize, &mut dyn FnMut())>) -> Result<Res, String> {
        execute(Spec {
            cmds: vec![self.w.command(CMDS[cmd], &self.w.repo())],
            cwds: vec![self.w.cwd()],
            root: self.w.root.clone(),
            dirs: vec![],
            sched: Sched { base: base.clone(), dev: vec![] },
            reads: true,
            inject: vec![],
            observe: None,
            at,
            max_points: 60_000,
            exdev: false,
        })
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let bases = tier(vec![Base::Low, Base::High], vec![Base::Low, Base::High, Base::RoundRobin, Base::Starve(0), Base::Starve(1), Base::Starve(2)]);
    let mut jobs = vec![];
    for prior in 0..PRIOR.len() {
        for cmd in 0..CMDS.len() {
            for b in &bases {
                let quick = match (prior, cmd) {
                    (0, 0) => true,
                    (1, _) | (2, 0) => *b == Base::Low,
                    _ => false,
                };
                if !quick && !run().thorough {
                    continue;
                }
                jobs.push((prior, cmd, b.clone()));
            }
        }
    }
    let cs = changes();
    // the operations that touch the source; what happens in between does not see it
    let mut tasks = vec![];
    let found = std::sync::Mutex::new(vec![]);
    par_map(&jobs, |_, (prior, cmd, b)| {
        let p = match prep(*prior) {
            Ok(p) => p,
            Err(e) => return run().violation("setup", e, ""),
        };
        p.reset();
        match p.go(*cmd, b, None) {
            Ok(r) if r.outs[0].ok() => {
                let ks: Vec<(usize, String)> = r.ops.iter().enumerate().filter(|(_, o)| o.path == "src" || o.path.starts_with("src/")).map(|(k, o)| (k, o.path.clone())).collect();
                run().sample(format!("{} {:?}: {}", PRIOR[*prior], b, r.ops.iter().filter(|o| o.path.starts_with("src")).map(|o| o.text()).collect::<Vec<_>>().join("; ")));
                found.lock().unwrap().push((*prior, *cmd, b.clone(), ks));
            }
            Ok(r) => run().error(format!("undisturbed: {}", r.outs[0].brief())),
            Err(e) => run().error(e),
        }
    });
    // a change commutes with the operations that see nothing of what it changes
    let w = World::new();
    let sees: Vec<BTreeSet<String>> = cs
        .iter()
        .map(|c| {
            rebuild(&w.src(), &source());
            let old = scan_named(&w.src(), "src");
            (c.1)(&w.src());
            let new = scan_named(&w.src(), "src");
            let mut set = BTreeSet::new();
            for k in old.keys().chain(new.keys()) {
                let changed = old.get(k) != new.get(k);
                let link = [&old, &new].iter().any(|t| matches!(t.get(k), Some(Ent { kind: Kind::Link(_), .. })));
                let k = String::from_utf8_lossy(k).into_owned();
                if changed {
                    // it, and the directory that lists it
                    set.extend(k.rsplit_once('/').map(|x| x.0.to_string()));
                }
                if changed || link {
                    set.insert(k);
                }
            }
            set
        })
        .collect();
    let mut skipped = 0;
    for (prior, cmd, b, ks) in found.into_inner().unwrap() {
        for c in 0..cs.len() {
            let mine: Vec<usize> = ks.iter().filter(|(_, p)| sees[c].contains(p)).map(|x| x.0).collect();
            skipped += ks.len() - mine.len();
            tasks.push((prior, cmd, b.clone(), c, mine));
        }
    }
    run().note("commuting_pairs_left_out", skipped);
    tasks.sort_by_key(|t| (t.0, t.1, t.3));
    par_map(&tasks, |_, (prior, cmd, b, c, ks)| {
        let p = match prep(*prior) {
            Ok(p) => p,
            Err(e) => return run().violation("setup", e, ""),
        };
        let mut seen = BTreeSet::new();
        for k in ks {
            if run().stopped() {
                return;
            }
            case(&p.w, format!("{}, {:?}, {}{}, before operation {k}", cs[*c].0, b, PRIOR[*prior], if *cmd == 1 { ", dereferencing" } else { "" }), |_| one(&p, *cmd, b, &cs[*c], *k, &mut seen));
            run().state(fnv(&[format!("{prior} {cmd} {b:?} {c} {k}").as_bytes()]));
        }
    });
    run().assume("changes to a file being read through a memory mapping (10 MiB and more) are not enumerated: page faults are not operations");
    (
        "model_checking",
        "28 changes to the source (files rewritten, grown, cut, replaced, renamed, swapped, removed; directories and links likewise; all of it) x before each operation of the real backup that touches the source, under a serialising scheduler, over an empty repository, one holding the same source and one holding another: the snapshot holds for each path what was there before or after (never new times with old contents), or the command fails and leaves the repository as it was; a following undisturbed backup records the source exactly",
        true,
    )
}

/// The source as a backup sees it.
fn seen_tree(w: &World, deref: bool) -> Tree {
    let s = w.src();
    let mut t = scan_named(&s, "src");
    if deref {
        // files behind links; the links here lead to files or (".") nowhere good
        let links: Vec<Vec<u8>> = t.iter().filter(|(_, e)| matches!(e.kind, Kind::Link(_))).map(|(k, _)| k.clone()).collect();
        for k in links {
            let p = w.root.join(String::from_utf8(k.clone()).unwrap());
            match std::fs::canonicalize(&p).ok().and_then(|q| ent(&q)) {
                Some(e) => {
                    t.insert(k, e);
                }
                None => {
                    t.remove(&k);
                }
            }
        }
    }
    t
}

fn one(p: &Prep, cmd: usize, b: &Base, c: &Change, k: usize, seen: &mut BTreeSet<u64>) -> Result<(), String> {
    let w = &p.w;
    p.reset();
    let deref = cmd == 1;
    let old = seen_tree(w, deref);
    let src = w.src();
    let mut done = false;
    let mut act = || {
        (c.1)(&src);
        done = true;
    };
    let r = p.go(cmd, b, Some((k, &mut act)))?;
    if !done {
        return Err("the operation never came".into());
    }
    if let Some(h) = &r.hung {
        return Err(format!("hangs: {h}"));
    }
    let new = seen_tree(w, deref);
    let o = &r.outs[0];
    // the size is recorded before the contents are read
    let mut repo = Repo::load(&w.repo());
    repo.any_size = true;
    let before: BTreeSet<Id> = p.snaps.iter().map(|s| s.id).collect();
    let news: Vec<&Snap> = repo.snaps.values().filter(|s| !before.contains(&s.id)).collect();
    let outcome;
    if o.ok() {
        repo.invariant(&Default::default())?;
        let [s] = news[..] else { return Err(format!("{} new snapshots", news.len())) };
        let t = repo.expand(s)?;
        outcome = hash_tree(&t, true);
        plausible(&old, &new, &t)?;
        run().outcome(if t == old { "as before the change" } else if t == new { "as after the change" } else { "partly after the change" });
    } else {
        if o.panicked() || o.timed_out || o.code.is_none() || o.err.trim().is_empty() {
            return Err(format!("ends badly: {}", o.brief()));
        }
        if !news.is_empty() {
            return Err(format!("fails, but made a snapshot: {}", o.brief()));
        }
        outcome = fnv(&[o.err.as_bytes()]);
        run().outcome("refused");
    }
    // the rest depends on nothing else
    if !seen.insert(outcome) && !run().thorough {
        return Ok(());
    }
    for s in &p.snaps {
        let rs = repo.snaps.get(&s.id).ok_or("an earlier snapshot is gone")?;
        if let Some(d) = tree_diff(&s.tree, &repo.expand(rs)?, Cmp { mode: true, mtime: true }) {
            return Err(format!("an earlier snapshot changed: {d}"));
        }
    }
    // once more, undisturbed
    let known: BTreeSet<Id> = repo.snaps.keys().copied().collect();
    let a = w.bp(CMDS[cmd]);
    if !src.exists() {
        return if a.ok() { Err("backs up a source that is not there".into()) } else { Ok(()) };
    }
    let cyclic = deref && std::fs::symlink_metadata(src.join("d")).is_ok_and(|m| m.is_symlink());
    let dangling = deref && std::fs::symlink_metadata(src.join("d/f")).is_ok_and(|m| m.is_symlink()) && !src.join("d/f").exists();
    let lost = deref && std::fs::symlink_metadata(src.join("l")).is_ok_and(|m| m.is_symlink()) && !src.join("l").exists();
    if cyclic || dangling || lost {
        return Ok(());
    }
    if !a.ok() {
        return Err(format!("the next backup fails: {}", a.brief()));
    }
    let mut repo = Repo::load(&w.repo());
    repo.any_size = true;
    repo.invariant(&Default::default())?;
    repo.any_size = false;
    let news: Vec<&Snap> = repo.snaps.values().filter(|s| !known.contains(&s.id)).collect();
    let [s] = news[..] else { return Err(format!("the next backup made {} snapshots", news.len())) };
    if let Some(d) = tree_diff(&new, &repo.expand(s)?, Cmp { mode: true, mtime: true }) {
        return Err(format!("the next, undisturbed backup is not of the source: {d}"));
    }
    cmd_ok(w, "repo", &["check", "-r"])?;
    cwd_clean(w, "cwd")
}

/// Each entry is what it was, what it is, or contents newer than what is said about them.
fn plausible(old: &Tree, new: &Tree, got: &Tree) -> Result<(), String> {
    let keys: BTreeSet<&Vec<u8>> = old.keys().chain(new.keys()).chain(got.keys()).collect();
    for k in keys {
        let n = String::from_utf8_lossy(k);
        let (o, e, g) = (old.get(k), new.get(k), got.get(k));
        if g == o || g == e {
            continue;
        }
        let Some(g) = g else { return Err(format!("{n} is missing")) };
        let told = |x: &Ent| x.mode == g.mode && x.mtime == g.mtime;
        let bytes = |x: Option<&Ent>| match x {
            Some(Ent { kind: Kind::File(b), .. }) => Some(b.clone()),
            // what is read through a link that has come in between
            Some(Ent { kind: Kind::Link(t), .. }) => {
                let q = [&k[..k.iter().rposition(|c| *c == b'/').unwrap_or(0)], b"/", t].concat();
                let q = String::from_utf8_lossy(&q).replace("/d/../", "/");
                match new.get(q.as_bytes()) {
                    Some(Ent { kind: Kind::File(b), .. }) => Some(b.clone()),
                    _ => None,
                }
            }
            _ => None,
        };
        match &g.kind {
            Kind::File(c) if o.is_some_and(|o| matches!(o.kind, Kind::File(_)) && told(o)) => {
                let (a, b) = (bytes(o).unwrap(), bytes(e));
                let mixed = b.is_some_and(|b| b == *c || (0..=a.len().min(b.len())).any(|i| [&a[..i], &b[i..]].concat() == *c));
                if !mixed {
                    return Err(format!("{n} is {}, which is neither old nor new", g.short()));
                }
            }
            Kind::Dir if [o, e].into_iter().flatten().any(|x| x.kind == Kind::Dir && told(x)) => {}
            Kind::Link(t) if [o, e].into_iter().flatten().any(|x| x.kind == Kind::Link(t.clone())) => {}
            _ => {
                let s = |x: Option<&Ent>| x.map(|x| format!("{} {:o} {}", x.short(), x.mode, x.mtime)).unwrap_or("nothing".into());
                return Err(format!("{n} is {}, but was {} and is {}", s(Some(g)), s(o), s(e)));
            }
        }
    }
    Ok(())
}
