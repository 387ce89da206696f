//! C16: damage to any stored object is noticed or harmless.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::zoo::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub enum Dmg {
    Flip(usize, u8),
    Cut(usize),
    Add(Vec<u8>),
    /// the bytes of another object
    Become(Vec<u8>, String),
    Gone,
}

pub fn apply(b: &[u8], d: &Dmg) -> Option<Vec<u8>> {
    Some(match d {
        Dmg::Flip(i, m) => {
            let mut c = b.to_vec();
            c[*i] ^= m;
            c
        }
        Dmg::Cut(n) => b[..*n].to_vec(),
        Dmg::Add(x) => [b, x].concat(),
        Dmg::Become(x, _) => x.clone(),
        Dmg::Gone => return None,
    })
}

pub fn objects(t: &Tree) -> Vec<(String, Vec<u8>)> {
    t.iter().filter(|(k, _)| k.contains(&b'/')).filter_map(|(k, e)| if let Kind::File(b) = &e.kind { Some((String::from_utf8(k.clone()).unwrap(), b.clone())) } else { None }).collect()
}

/// Every single damage to every object: every byte (with `masks` of the masks), every length, some additions, every other object.
pub fn damages(objs: &[(String, Vec<u8>)], masks: &[&[u8]]) -> Vec<(usize, Dmg)> {
    let mut out = vec![];
    for (o, (_, b)) in objs.iter().enumerate() {
        for i in 0..b.len() {
            for m in masks[i % masks.len()] {
                out.push((o, Dmg::Flip(i, *m)));
            }
        }
        for n in 0..b.len() {
            out.push((o, Dmg::Cut(n)));
        }
        let frame = zstd::stream::encode_all(&b"more"[..], 3).unwrap();
        for x in [&b"\0"[..], b"\n", b"junk junk junk", &frame, b, &[0; 4096]] {
            out.push((o, Dmg::Add(x.to_vec())));
        }
        for (p, c) in objs {
            if c != b {
                out.push((o, Dmg::Become(c.clone(), p.split('/').next().unwrap().into())));
            }
        }
        out.push((o, Dmg::Become(vec![0; b.len()], "zeros".into())));
        out.push((o, Dmg::Gone));
    }
    out
}

pub fn label(objs: &[(String, Vec<u8>)], o: usize, d: &Dmg) -> String {
    let dir = objs[o].0.split('/').next().unwrap();
    // objects of a kind are told apart by their rank in size, names being as good as random
    let rank = objs.iter().enumerate().filter(|(i, x)| x.0.starts_with(dir) && (x.1.len(), *i) < (objs[o].1.len(), o)).count();
    let how = match d {
        Dmg::Flip(i, m) => format!("byte {i} xor {m:#x}"),
        Dmg::Cut(n) => format!("cut to {n}"),
        Dmg::Add(x) => format!("{} bytes appended", x.len()),
        Dmg::Become(_, k) => format!("replaced by one of {k}"),
        Dmg::Gone => "gone".into(),
    };
    format!("{dir} #{rank}: {how}")
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let scenes = tier(vec![12usize], vec![2, 3, 5, 8, 13]);
    const QUICK: &[&[u8]] = &[&[1], &[0x80], &[0xff], &[0x10]];
    const DEEP: &[&[u8]] = &[&[1, 0x80, 0xff, 4]];
    let masks = tier(QUICK, DEEP);
    let jobs: Vec<(usize, usize)> = scenes.iter().flat_map(|s| (0..nthreads() * 2).map(move |k| (*s, k))).collect();
    par_map(&jobs, |_, (z, k)| {
        let s = match Scene::new(*z) {
            Ok(s) => s,
            Err(e) => return run().violation(format!("setup {}", ZOO[*z].name), e, ""),
        };
        let all = damages(&s.objs, masks);
        if *k == 0 {
            run().note(&format!("bytes_{z}"), s.objs.iter().map(|o| o.1.len()).sum::<usize>());
        }
        for (n, (o, d)) in all.iter().enumerate().filter(|(n, _)| n % (nthreads() * 2) == *k) {
            if run().stopped() {
                return;
            }
            run().state(fnv(&[format!("{z}{o}{d:?}").as_bytes()]));
            s.w.now.set(s.now);
            case(&s.w, format!("{}: {}", ZOO[*z].name, label(&s.objs, *o, d)), |w| s.one(w, n, *o, d));
        }
    });
    (
        "model_checking",
        "every byte of every pack, index and snapshot of small repositories changed, every truncation, extensions, and every replacement by another object, each followed by every reading command (listing, restore, dump, diff, check with and without reading packs, cat) and every writing command: a command that succeeds must give exactly what it gives on the intact repository; none may panic, be killed or hang; with the damage undone every snapshot is still exact",
        true,
    )
}

struct Scene {
    w: World,
    snaps: Vec<MSnap>,
    objs: Vec<(String, Vec<u8>)>,
    reads: Vec<(Vec<String>, String)>,
    now: i64,
    pristine: Repo,
}

fn writers(s: &[MSnap]) -> Vec<Vec<String>> {
    let id = id_str(&s[0].id);
    let last = id_str(&s.last().unwrap().id);
    [
        vec!["backup", "--allow-repeat", "-a", "me", "../src"],
        vec!["copy", "-t", "../dest", "--all"],
        vec!["rebuild-index"],
        vec!["prune"],
        vec!["filter-snapshot", "-k", "-s", "/s/", &last],
        vec!["forget", &id],
        vec!["copy", "-t", "../dest", "-s", "/a$", &id],
    ]
    .iter()
    .map(|v| v.iter().map(|s| s.to_string()).collect())
    .collect()
}

impl Scene {
    fn new(z: usize) -> Result<Scene, String> {
        let w = World::new();
        let snaps = make(&w, z)?;
        let o = w.bp_repo(&["init", "filesystem"], &w.p("dest"));
        if !o.ok() {
            return Err(o.brief());
        }
        rebuild(&w.src(), &small(1));
        save(&w.root, &["repo", "dest", "cwd", "home"], "start");
        let objs = objects(&scan(&w.repo()));
        let ids: Vec<String> = snaps.iter().map(|s| id_str(&s.id)).collect();
        let mut cmds: Vec<Vec<&str>> = vec![vec!["snapshots"], vec!["snapshots", "-s", "-f", "--stat"], vec!["diff", "-m", &ids[0], ids.last().unwrap()], vec!["check"], vec!["check", "-r"]];
        for (i, id) in ids.iter().enumerate() {
            cmds.push(vec!["ls", id]);
            cmds.push(vec!["restore", "-t", "-p", "-o", "../out", id]);
            let f = snaps[i].tree.iter().rev().find(|(_, e)| matches!(e.kind, Kind::File(_))).map(|(k, _)| std::str::from_utf8(k).unwrap());
            if let Some(f) = f {
                cmds.push(vec!["dump", id, f.split_once('/').unwrap().1]);
            }
            cmds.push(vec!["cat", "snapshot", id]);
        }
        let pristine = Repo::load(&w.repo());
        let names: Vec<(&str, String)> = pristine.packs.keys().map(|p| ("pack", id_str(p))).chain(pristine.indexes.keys().map(|p| ("index", id_str(p)))).collect();
        for (k, n) in &names {
            cmds.push(vec!["cat", k, n]);
        }
        let cmds: Vec<Vec<String>> = cmds.into_iter().map(|v| v.iter().map(|s| s.to_string()).collect()).collect();
        let mut reads = vec![];
        for c in cmds {
            fresh(&w.p("out"));
            let v: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            let o = w.bp(&v);
            if !o.ok() {
                // (not every repository has every kind of thing)
                if c[0] == "cat" || c[0] == "dump" {
                    continue;
                }
                return Err(format!("{c:?}: {}", o.brief()));
            }
            reads.push((c, o.out));
        }
        let now = w.now.get();
        Ok(Scene { w, snaps, objs, reads, now, pristine })
    }

    fn one(&self, w: &World, n: usize, o: usize, d: &Dmg) -> Result<(), String> {
        let path = w.repo().join(&self.objs[o].0);
        let orig = &self.objs[o].1;
        let put = || match apply(orig, d) {
            Some(b) => std::fs::write(&path, b).unwrap(),
            None => std::fs::remove_file(&path).unwrap(),
        };
        let again = || {
            restore(&w.root, &["repo", "dest", "cwd"], "start");
            put();
        };
        again();
        let damaged = scan(&w.repo());
        for (k, (c, want)) in self.reads.iter().enumerate() {
            // quick: everything that reads contents, and a rotating part of the rest
            if !run().thorough && !matches!(c[0].as_str(), "restore" | "check") && (k + n) % (if c[0] == "cat" { 9 } else { 3 }) != 0 {
                continue;
            }
            let out = w.p("out");
            if c[0] == "restore" {
                fresh(&out);
            }
            let v: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            run().step();
            let r = w.bp(&v);
            sane(&r).map_err(|e| format!("`{}`: {e}", c.join(" ")))?;
            run().outcome(format!("{}: {}", c[0], if r.ok() { "unaffected" } else { "refused" }));
            if !r.ok() {
                continue;
            }
            match c[0].as_str() {
                "restore" => {
                    let s = self.snaps.iter().find(|s| id_str(&s.id) == c[5]).unwrap();
                    let want = if s.paths.len() == 1 { below_root(&s.tree) } else { s.tree.clone() };
                    if let Some(x) = tree_diff(&want, &scan(&out), Cmp { mode: true, mtime: true }) {
                        return Err(format!("`{}` succeeded, but: {x}", c.join(" ")));
                    }
                }
                "check" => self.verdict(c.len() > 1, &Repo::load(&w.repo()), o, d)?,
                // a missing snapshot is no damage to be found in a list of them
                "snapshots" if matches!(d, Dmg::Gone) && self.objs[o].0.starts_with("snapshots") => {}
                _ if r.out != *want => return Err(format!("`{}` succeeded, but says {:?} instead of {want:?}", c.join(" "), r.out)),
                _ => {}
            }
        }
        if scan(&w.repo()) != damaged {
            return Err("a reading command changed the repository".into());
        }
        if matches!(d, Dmg::Gone) {
            return Ok(());
        }
        for (k, c) in writers(&self.snaps).iter().enumerate() {
            if !run().thorough && (k + n) % 3 != 0 && (c[0] != "prune" || n % 2 == 0) && (k != 1 || n % 2 == 1) {
                continue;
            }
            again();
            let v: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            run().step();
            let r = w.bp(&v);
            sane(&r).map_err(|e| format!("`{}`: {e}", c.join(" ")))?;
            run().outcome(format!("{}: {}", c[0], if r.ok() { "unaffected" } else { "refused" }));
            self.written(w, c, o, r.ok()).map_err(|e| format!("`{}` {}, but {e}", c.join(" "), if r.ok() { "succeeded" } else { "failed" }))?;
        }
        Ok(())
    }

    /// `check` succeeded: is it true?
    fn verdict(&self, packs: bool, r: &Repo, o: usize, d: &Dmg) -> Result<(), String> {
        let (p, orig) = &self.objs[o];
        match apply(orig, d) {
            Some(b) if still_reads(p.split('/').next().unwrap(), &b, orig) => Ok(()),
            _ => check_is_true(packs, r, &self.pristine),
        }
    }

    fn written(&self, w: &World, c: &[String], o: usize, ok: bool) -> Result<(), String> {
        // new objects are what they say they are
        let r = Repo::load(&w.repo());
        let name = self.objs[o].0.split_once('/').unwrap().1;
        if let Some(b) = r.bad.iter().find(|b| !b.starts_with(name)) {
            return Err(format!("it left {b}"));
        }
        let rd = Repo::load(&w.p("dest"));
        if let Some(b) = rd.bad.first() {
            return Err(format!("it left {b} in the destination"));
        }
        rd.invariant(&BTreeSet::new()).map_err(|e| format!("destination: {e}"))?;
        // undo the damage, if that is still there
        let path = w.repo().join(&self.objs[o].0);
        if path.exists() {
            std::fs::write(&path, &self.objs[o].1).unwrap();
        }
        let r = Repo::load(&w.repo());
        if let Some(b) = r.bad.first() {
            return Err(format!("it left {b}"));
        }
        r.invariant(&BTreeSet::new())?;
        let forgetting = c[0] == "forget";
        for (i, s) in self.snaps.iter().enumerate() {
            match r.snaps.get(&s.id) {
                None if forgetting && i == 0 => {}
                None => return Err("a snapshot is gone".into()),
                Some(_) if forgetting && i == 0 && ok => return Err("the snapshot is still there".into()),
                Some(x) => {
                    if let Some(x) = tree_diff(&s.tree, &r.expand(x)?, Cmp { mode: true, mtime: true }) {
                        return Err(format!("a snapshot changed: {x}"));
                    }
                }
            }
        }
        let new: Vec<&Snap> = r.snaps.values().filter(|s| !self.snaps.iter().any(|m| m.id == s.id)).collect();
        let want: Option<Tree> = match c[0].as_str() {
            "backup" => Some(named_tree("src", &small(1))),
            "filter-snapshot" => Some(self.snaps.last().unwrap().tree.iter().filter(|(k, _)| !k.starts_with(b"src/s/")).map(|(k, e)| (k.clone(), e.clone())).collect()),
            _ => None,
        };
        match (&want, &new[..]) {
            (_, []) if !ok => {}
            (None, []) => {}
            (Some(t), []) if c[0] == "filter-snapshot" && *t == self.snaps.last().unwrap().tree => {}
            (Some(t), [s]) => {
                if let Some(x) = tree_diff(t, &r.expand(s)?, Cmp { mode: true, mtime: true }) {
                    return Err(format!("the new snapshot is wrong: {x}"));
                }
            }
            (w, n) => return Err(format!("{} new snapshots instead of {}", n.len(), w.iter().count())),
        }
        if c[0] == "rebuild-index" && ok {
            let l = r.live_indexes();
            if l.len() != 1 || l.values().any(|ix| ix.packs.len() != self.pristine.packs.len() || ix.packs.iter().any(|(id, m)| self.pristine.packs.get(id).map(|p| &p.manifest) != Some(m))) {
                return Err("the index is not that of the packs".into());
            }
        }
        if c[0] == "copy" {
            let want: Vec<(&MSnap, Tree)> = if c.len() > 5 {
                vec![(&self.snaps[0], minus(&self.snaps[0].tree, &|p| p.ends_with("/a")))]
            } else {
                self.snaps.iter().map(|s| (s, s.tree.clone())).collect()
            };
            let mut found = 0;
            for (s, t) in &want {
                if rd.snaps.values().any(|x| x.author == s.author && x.tags == s.tags && x.paths == s.paths && rd.expand(x).is_ok_and(|y| tree_diff(t, &y, Cmp { mode: true, mtime: true }).is_none())) {
                    found += 1;
                }
            }
            if ok && (found != want.len() || rd.snaps.len() != want.len()) {
                return Err(format!("the destination has {} snapshots, {found} of {} right", rd.snaps.len(), want.len()));
            }
            if rd.snaps.len() > found {
                return Err("the destination has a wrong snapshot".into());
            }
        }
        Ok(())
    }
}

pub fn sane(r: &Out) -> Result<(), String> {
    if r.panicked() || r.timed_out || r.code.is_none() {
        return Err(r.brief());
    }
    Ok(())
}

/// A check that succeeded promises: every snapshot there readable and backed by indexed packs that exist
/// (and, if packs were read, hold what their name and the index say).
pub fn check_is_true(packs: bool, r: &Repo, pristine: &Repo) -> Result<(), String> {
    let what = if packs { "`check -r`" } else { "`check`" };
    if let Some(b) = r.bad.iter().find(|b| b.contains(".snapshot")) {
        return Err(format!("{what} succeeded with a bad snapshot: {b}"));
    }
    let there = |id: &Id| r.packs.contains_key(id) || r.bad.iter().any(|b| b.starts_with(&id_str(id)));
    let mut listed = BTreeSet::new();
    for ix in r.live_indexes().values() {
        for (p, m) in &ix.packs {
            if there(p) {
                listed.extend(m.iter().map(|b| b.id));
            }
            if packs && r.packs.get(p).map(|p| &p.manifest) != Some(m) {
                return Err(format!("{what} succeeded with pack {} missing, damaged or other than indexed", &id_str(p)[..8]));
            }
        }
    }
    let need = pristine.needed(&r.snaps.keys().map(|i| pristine.snaps.get(i).unwrap_or(&r.snaps[i])).collect::<Vec<_>>())?;
    let empty = sha224(&[0xa0]);
    if let Some(b) = need.iter().find(|b| !listed.contains(*b) && **b != empty) {
        return Err(format!("{what} succeeded although blob {} of a snapshot is not available", &id_str(b)[..8]));
    }
    Ok(())
}
