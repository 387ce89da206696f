//! C15: a snapshot name selects the one snapshot it denotes or is refused.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::fs;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let patterns: Vec<(&str, fn(usize) -> i64)> = vec![("all at different times", |_| 1), ("all at the same time", |_| 0), ("in pairs at the same time", |i| (i % 2) as i64)];
    for (what, step) in &patterns {
        let count = tier(12, 40);
        let make = || {
            let w = World::new();
            w.init_pack_size("100MiB");
            let mut snaps: Vec<MSnap> = vec![];
            for i in 0..count {
                let n = d(&[(&format!("f{i}"), f(&[b'0' + i as u8]))]);
                rebuild(&w.src(), &n);
                let src = w.src();
                if step(i) == 0 {
                    w.now.set(w.now.get() - 1);
                }
                do_backup(&w, "repo", &["backup", "-a", "AAAAAAAAAA", "../src"], &mut snaps, &named_tree("src", &n), "AAAAAAAAAA", &[], &[&src]).expect("backup");
            }
            collide(&w);
            w
        };
        let keep = make();
        let root = keep.root.clone();
        let r = Repo::load(&keep.repo());
        assert!(r.bad.is_empty(), "{:?}", r.bad);
        // chronological; ties by id (the documented order)
        let chrono: Vec<Id> = r.chrono().iter().map(|s| s.id).collect();
        let names = names_for(&chrono);
        run().note("names per repository", names.len());
        // the state of the world is the same for everyone: reading commands only
        let chunks: Vec<&[(String, Option<Id>)]> = names.chunks(names.len() / (4 * nthreads()) + 1).collect();
        par_map(&chunks, |_, c| {
            for (name, want) in c.iter() {
                if run().stopped() {
                    return;
                }
                let w = World::at(root.clone(), None);
                case(&w, format!("{name:?}, snapshots {what}"), |w| {
                    run().state(fnv(&[name.as_bytes(), what.as_bytes()]));
                    selects(w, &r, name, *want)
                });
            }
        });
        // every command makes the same choice
        let mut few: Vec<(String, Option<Id>)> = vec![];
        let n = chrono.len();
        for (k, i) in [(0, n - 1), (1, n - 2), (n / 2, n - 1 - n / 2), (n - 1, 0)] {
            few.push((format!("LAST~{k}"), Some(chrono[i])));
        }
        few.push(("LAST".into(), Some(chrono[n - 1])));
        few.push((format!("LAST~{n}"), None));
        few.push((id_str(&chrono[n / 2]), Some(chrono[n / 2])));
        let (a, b) = closest(&chrono);
        let l = common(&id_str(&a), &id_str(&b));
        few.push((id_str(&a)[..l].to_string(), None));
        few.push((id_str(&a)[..l + 1].to_string(), Some(a)));
        few.push((id_str(&b)[..l + 1].to_string(), Some(b)));
        few.push(("0000000000".into(), None));
        par_map(&few, |_, (name, want)| {
            let w = World::new();
            copy_tree(&root.join("repo"), &w.repo()).unwrap();
            init2(&w);
            case(&w, format!("every command given {name:?}, snapshots {what}"), |w| every(w, &r, name, *want));
        });
    }
    (
        "model_checking",
        "every prefix of every snapshot id (two of them sharing a prefix of six characters), every LAST form in and out of range, and malformed names, with distinct, equal and pairwise equal times; ls decides all of them, and every command taking a name a representative of each class",
        true,
    )
}

fn init2(w: &World) {
    let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
    assert!(o.ok());
}

fn common(a: &str, b: &str) -> usize {
    a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count()
}

fn closest(ids: &[Id]) -> (Id, Id) {
    let mut v: Vec<Id> = ids.to_vec();
    v.sort();
    let i = (0..v.len() - 1).max_by_key(|i| common(&id_str(&v[*i]), &id_str(&v[*i + 1]))).unwrap();
    (v[i], v[i + 1])
}

/// Adds two more snapshots whose ids share a long prefix, made from the newest one by changing its author.
fn collide(w: &World) {
    let r = Repo::load(&w.repo());
    let last = r.chrono().pop().unwrap().id;
    let p = w.repo().join("snapshots").join(format!("{}.snapshot", id_str(&last)));
    let bytes = fs::read(&p).unwrap();
    let at = bytes.windows(10).position(|x| x == b"AAAAAAAAAA").expect("author in the snapshot");
    let mut seen: BTreeMap<[u8; 4], Vec<u8>> = BTreeMap::new();
    for i in 0..400_000u32 {
        let mut b = bytes.clone();
        b[at..at + 10].copy_from_slice(format!("{i:010}").as_bytes());
        let id = sha224(&b[9..]);
        // 30 bits: six characters
        let k = [id[0], id[1], id[2], id[3] & 0xfc];
        if let Some(o) = seen.insert(k, b.clone()) {
            for x in [o, b] {
                let id = sha224(&x[9..]);
                fs::write(w.repo().join("snapshots").join(format!("{}.snapshot", id_str(&id))), &x).unwrap();
            }
            return;
        }
    }
    panic!("no collision found");
}

fn names_for(chrono: &[Id]) -> Vec<(String, Option<Id>)> {
    let n = chrono.len();
    let ids: Vec<String> = chrono.iter().map(id_str).collect();
    let mut v: BTreeMap<String, Option<Id>> = BTreeMap::new();
    for (i, s) in ids.iter().enumerate() {
        for l in 4..=s.len() {
            let p = &s[..l];
            let m = ids.iter().filter(|x| x.starts_with(p)).count();
            v.insert(p.to_string(), if m == 1 { Some(chrono[i]) } else { None });
        }
        // fewer than four characters are refused, even when unambiguous
        for l in 1..4 {
            v.insert(s[..l].to_string(), None);
        }
        v.insert(format!("{s}0"), None);
        v.insert(s.to_uppercase(), None);
        let mut t = s.clone().into_bytes();
        let k = t.len() / 2;
        t[k] = if t[k] == b'0' { b'1' } else { b'0' };
        v.insert(String::from_utf8(t).unwrap(), None);
        // the same bits but one that an id does not have
        const D: &[u8] = b"0123456789abcdefghijklmnopqrstuv";
        let mut t = s.clone().into_bytes();
        let k = t.len() - 1;
        t[k] = D[D.iter().position(|c| *c == t[k]).unwrap() ^ 1];
        v.insert(String::from_utf8(t).unwrap(), None);
        v.insert(format!(" {s}"), None);
        v.insert(format!("{}*", &s[..10]), None);
        v.insert(format!("{s}.snapshot"), None);
    }
    for base in ["LAST", "HEAD"] {
        v.insert(base.into(), Some(chrono[n - 1]));
        v.insert(format!("{base}~"), Some(chrono[n - 2]));
        for k in 0..n + 3 {
            v.insert(format!("{base}~{k}"), if k < n { Some(chrono[n - 1 - k]) } else { None });
        }
        v.insert(format!("{base}~00"), Some(chrono[n - 1]));
        v.insert(format!("{base}~01"), Some(chrono[n - 2]));
        for bad in ["~~", "~-1", "~+1", "~x", "~1x", "~ 1", "~1~1", "^", "x", " ", "~18446744073709551615", "~18446744073709551616", "~4294967296", "~9223372036854775808", "~99999999999999999999999999999", "~1.0", "\n", "~1\n", "~\u{661}"] {
            v.insert(format!("{base}{bad}"), None);
        }
        v.insert(base.to_lowercase(), None);
        v.insert(format!("x{base}"), None);
    }
    for bad in ["", "~", "~1", "0", "LA", "LASTLAST", "*", "....", "/", "../x", "ü", "日本語日本", "v\u{301}vvv"] {
        v.insert(bad.into(), None);
    }
    v.into_iter().collect()
}

fn selects(w: &World, r: &Repo, name: &str, want: Option<Id>) -> Result<(), String> {
    let o = w.bp(&["ls", "--", name]);
    if o.panicked() || o.timed_out {
        return Err(o.brief());
    }
    run().outcome(if want.is_some() { "selected" } else { "refused" });
    match want {
        None if o.ok() => Err(format!("accepted; lists {:?}", o.out)),
        None if o.err.trim().is_empty() => Err("refused without a message".into()),
        None => Ok(()),
        Some(_) if !o.ok() => Err(format!("refused: {}", o.brief())),
        Some(id) => {
            let t = r.expand(&r.snaps[&id])?;
            let file = t.keys().find(|k| k.contains(&b'/')).ok_or("no file")?;
            let file = String::from_utf8_lossy(file).into_owned();
            let got: Vec<&str> = o.out.lines().map(|l| l.trim()).collect();
            if got.iter().any(|l| *l == file) && got.iter().filter(|l| l.starts_with("src/f")).count() == 1 {
                Ok(())
            } else {
                Err(format!("selects another snapshot: wanted the one with {file}, ls says {got:?}"))
            }
        }
    }
}

fn every(w: &World, r: &Repo, name: &str, want: Option<Id>) -> Result<(), String> {
    selects(w, r, name, want)?;
    let file = match want {
        Some(id) => {
            let t = r.expand(&r.snaps[&id])?;
            t.iter().find(|(k, _)| k.contains(&b'/')).map(|(k, e)| (String::from_utf8_lossy(k).into_owned(), e.kind.clone()))
        }
        None => None,
    };
    let path = file.as_ref().map(|f| f.0.clone()).unwrap_or("src/f0".into());
    let verdict = |what: &str, o: &Out| -> Result<bool, String> {
        if o.panicked() || o.timed_out {
            return Err(format!("{what}: {}", o.brief()));
        }
        if o.ok() != want.is_some() {
            return Err(format!("{what} {}: {}", if o.ok() { "accepts it" } else { "refuses it" }, o.brief()));
        }
        Ok(want.is_some())
    };
    // dump
    let o = w.bp(&["dump", "--", name, &path]);
    if verdict("dump", &o)? && Kind::File(o.raw.clone()) != file.as_ref().unwrap().1 {
        return Err("dump selects another snapshot".into());
    }
    // restore
    fresh(&w.p("out"));
    let o = w.bp(&["restore", "-o", "../out", "--", name]);
    if verdict("restore", &o)? {
        let got = scan(&w.p("out"));
        if got.len() != 1 || !path.ends_with(&*String::from_utf8_lossy(got.keys().next().unwrap())) {
            return Err("restore selects another snapshot".into());
        }
    } else if !scan(&w.p("out")).is_empty() {
        return Err("restore refuses it but writes files".into());
    }
    // cat snapshot, snapshots
    let o = w.bp(&["cat", "snapshot", "--", name]);
    if verdict("cat snapshot", &o)? && !o.out.contains(&id_str(&r.snaps[&want.unwrap()].tree)) {
        return Err(format!("cat snapshot selects another snapshot: {}", o.out));
    }
    let o = w.bp(&["snapshots", "--", name]);
    if verdict("snapshots", &o)? && !o.out.contains(&id_str(&want.unwrap())[..8]) {
        return Err(format!("snapshots selects another: {}", o.out));
    }
    // diff with itself
    let full = want.map(|i| id_str(&i)).unwrap_or("LAST".into());
    let o = w.bp(&["diff", "--", name, &full]);
    if verdict("diff", &o)? && o.out.lines().any(|l| l.starts_with("+ ") || l.starts_with("- ")) {
        return Err(format!("diff selects another: {}", o.out));
    }
    let o = w.bp(&["diff", "--", &full, name]);
    verdict("diff", &o)?;
    // copy
    let before = snapshot_ids(&w.p("repo2"));
    let o = w.bp(&["copy", "--to", "../repo2", "--", name]);
    verdict("copy", &o)?;
    let new: Vec<Id> = snapshot_ids(&w.p("repo2")).difference(&before).copied().collect();
    if new != want.into_iter().collect::<Vec<_>>() {
        return Err("copy copies something else".into());
    }
    // filter-snapshot
    let before = Repo::load(&w.repo());
    let o = w.bp(&["filter-snapshot", "-k", "-t", "new", "-s", "nothing-at-all", "--", name]);
    let _ = o;
    let o = w.bp(&["filter-snapshot", "-a", "filterer", "-s", "nothing-at-all", "--", name]);
    let after = Repo::load(&w.repo());
    if want.is_none() && (o.ok() || after.snaps.len() != before.snaps.len()) {
        return Err("filter-snapshot accepts it".into());
    }
    for (id, s) in &after.snaps {
        if !before.snaps.contains_key(id) && s.tree != r.snaps[&want.unwrap()].tree {
            return Err("filter-snapshot filters something else".into());
        }
    }
    // forget, last of all
    restore_snaps(w, r);
    let before = snapshot_ids(&w.repo());
    let o = w.bp(&["forget", "--", name]);
    verdict("forget", &o)?;
    let gone: Vec<Id> = before.difference(&snapshot_ids(&w.repo())).copied().collect();
    if gone != want.into_iter().collect::<Vec<_>>() {
        return Err(format!("forget removes {} snapshots, not this one", gone.len()));
    }
    Ok(())
}

/// Only the original snapshots remain.
fn restore_snaps(w: &World, r: &Repo) {
    for id in snapshot_ids(&w.repo()) {
        if !r.snaps.contains_key(&id) {
            let _ = fs::remove_file(w.repo().join("snapshots").join(format!("{}.snapshot", id_str(&id))));
        }
    }
}
