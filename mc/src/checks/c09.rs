//! C09: rebuild-index from the packs alone.
use super::c13::still_there;
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::zoo::*;
use std::path::Path;

const DAMAGE: &[&str] = &["intact", "gone", "empty", "cut in half", "first byte changed", "middle byte changed", "last byte changed", "junk appended", "other contents", "a directory of indexes gone"];

fn damage(p: &Path, how: usize, other: &[u8]) {
    let b = std::fs::read(p).unwrap();
    let flip = |i: usize| {
        let mut c = b.clone();
        c[i] ^= 0x41;
        std::fs::write(p, c).unwrap();
    };
    match how {
        0 => {}
        1 => std::fs::remove_file(p).unwrap(),
        2 => std::fs::write(p, b"").unwrap(),
        3 => std::fs::write(p, &b[..b.len() / 2]).unwrap(),
        4 => flip(0),
        5 => flip(b.len() / 2),
        6 => flip(b.len() - 1),
        7 => std::fs::write(p, [&b[..], b"junk"].concat()).unwrap(),
        _ => std::fs::write(p, other).unwrap(),
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ids: Vec<usize> = (0..ZOO.len()).collect();
    par_map(&ids, |_, z| {
        let w = World::new();
        let snaps = match make(&w, *z) {
            Ok(s) => s,
            Err(e) => return run().violation(format!("setup {}", ZOO[*z].name), e, ""),
        };
        save(&w.root, &["repo", "src", "cwd", "home"], "start");
        let before = scan(&w.repo());
        let r0 = Repo::load(&w.repo());
        let files: Vec<String> = r0.indexes.keys().map(|i| format!("indexes/{}.index", id_str(i))).collect();
        // the contents of an index listing packs that never were
        let other = std::fs::read(w.repo().join("config.toml")).unwrap();
        let snap_bytes = before.iter().find(|(k, _)| k.starts_with(b"snapshots/")).and_then(|(_, e)| if let Kind::File(b) = &e.kind { Some(b.clone()) } else { None }).unwrap_or(other.clone());
        let now = w.now.get();
        // all assignments of kinds of damage to the indexes
        let n = files.len();
        let kinds = match (n, run().thorough) {
            (0..=1, _) => DAMAGE.len() - 1,
            (2, _) => DAMAGE.len() - 1,
            (3, false) => 5,
            (3, true) => DAMAGE.len() - 1,
            (_, false) => 3,
            (_, true) => 5,
        };
        for (k, a) in assignments(kinds, n).into_iter().enumerate() {
            if run().stopped() {
                return;
            }
            // with few kinds, rotate which
            let hows: Vec<usize> = a.iter().map(|h| if *h < 2 || kinds > 5 { *h } else { 2 + (*h - 2 + k) % (DAMAGE.len() - 3) }).collect();
            restore(&w.root, &["repo", "src", "cwd", "home"], "start");
            w.now.set(now);
            run().state(fnv(&[format!("{z}{hows:?}").as_bytes()]));
            case(&w, format!("{}: indexes {:?}", ZOO[*z].name, hows.iter().map(|h| DAMAGE[*h]).collect::<Vec<_>>()), |w| {
                for (f, h) in files.iter().zip(&hows) {
                    damage(&w.repo().join(f), *h, if k % 2 == 0 { &other } else { &snap_bytes });
                }
                one(w, &snaps, &before, &r0, k, hows.iter().all(|h| *h == 0))
            });
        }
    });
    // packs that cannot be described
    par_map(&ids, |_, z| {
        let w = World::new();
        let snaps = match make(&w, *z) {
            Ok(s) => s,
            Err(e) => return run().violation(format!("setup {}", ZOO[*z].name), e, ""),
        };
        save(&w.root, &["repo", "src", "cwd", "home"], "start");
        let before = scan(&w.repo());
        let r0 = Repo::load(&w.repo());
        let now = w.now.get();
        let files: Vec<&Vec<u8>> = before.iter().filter(|(k, e)| k.starts_with(b"packs/") && e.kind != Kind::Dir).map(|(k, _)| k).collect();
        let every = tier(11, 3);
        for (n, file) in files.iter().enumerate() {
            let Kind::File(bytes) = &before[*file].kind else { continue };
            let len = bytes.len();
            let start = len - 4 - u32::from_be_bytes(bytes[len - 4..].try_into().unwrap()) as usize;
            // every so many bytes of what describes the pack, its length, cut ends, an other pack's contents
            let mut ways: Vec<(String, Vec<u8>)> = (start..len - 4).step_by(every).chain(len - 4..len).map(|i| {
                let mut b = bytes.clone();
                b[i] ^= 0x41;
                (format!("byte {i} of {len} changed"), b)
            }).collect();
            for cut in [0, 3, start, len / 2, len - 5, len - 1] {
                ways.push((format!("cut to {cut} of {len}"), bytes[..cut.min(len)].to_vec()));
            }
            if let Some(Kind::File(o)) = files.get((n + 1) % files.len()).filter(|_| files.len() > 1).map(|f| &before[*f].kind) {
                ways.push(("another pack in its place".into(), o.clone()));
            }
            for (k, (what, b)) in ways.into_iter().enumerate() {
                if run().stopped() {
                    return;
                }
                restore(&w.root, &["repo", "src", "cwd", "home"], "start");
                w.now.set(now);
                rm_rf(&w.p("home/.cache"));
                run().state(fnv(&[format!("{z}{n}{what}").as_bytes()]));
                case(&w, format!("{}: pack {}: {what}", ZOO[*z].name, String::from_utf8_lossy(&file[9..13])), |w| unreadable(w, file, &b, &snaps, &r0, k));
            }
        }
    });
    (
        "model_checking",
        "17 repositories left by completed and interrupted commands x every assignment of {intact, removed, emptied, cut, changed at start/middle/end, extended, replaced} to their index files (fewer kinds when there are more than two): rebuild-index must succeed, leave one index equal to the decoded manifests of exactly the packs present and everything else untouched; check -r passes, every snapshot restores, and backup, prune and a second rebuild work; on intact repositories all reports are unchanged. Every pack of them with its description changed, cut or replaced in every of some way: rebuild-index refuses and changes nothing, or still describes every pack as it was",
        true,
    )
}

/// One pack's description is damaged: no index may come of it that leaves it out or describes it differently.
fn unreadable(w: &World, file: &[u8], bytes: &[u8], snaps: &[MSnap], r0: &Repo, k: usize) -> Result<(), String> {
    let p = w.repo().join(std::str::from_utf8(file).unwrap());
    let good = std::fs::read(&p).unwrap();
    std::fs::write(&p, bytes).unwrap();
    let before = scan(&w.repo());
    run().step();
    let o = w.bp(&["rebuild-index"]);
    if o.panicked() {
        return Err(o.brief());
    }
    if o.ok() {
        let r = Repo::load(&w.repo());
        for ix in r.indexes.values() {
            for (id, p) in &r0.packs {
                if ix.packs.get(id) != Some(&p.manifest) {
                    return Err(format!("succeeds although pack {} was not described", &id_str(id)[..8]));
                }
            }
        }
        run().outcome("rebuilt all the same");
    } else {
        let after = scan(&w.repo());
        still_there(&before, &after).map_err(|e| format!("refused, but {e}"))?;
        if let Some(k) = after.keys().find(|k| !before.contains_key(*k)) {
            return Err(format!("refused, but {} appeared", String::from_utf8_lossy(k)));
        }
        run().outcome("refused");
    }
    std::fs::write(&p, good).unwrap();
    if k % 4 == 0 {
        cmd_ok(w, "repo", &["rebuild-index"])?;
        check_repo(w, "repo", snaps)?;
        cmd_ok(w, "repo", &["check", "-r"])?;
    }
    Ok(())
}

fn reports(w: &World, snaps: &[MSnap]) -> Result<Vec<String>, String> {
    let mut out = vec![];
    let now = w.now.get();
    for args in [vec!["snapshots", "--sizes", "--stat"], vec!["snapshots", "-f"]] {
        out.push(cmd_ok(w, "repo", &args)?.out);
    }
    for s in snaps {
        let id = id_str(&s.id);
        out.push(cmd_ok(w, "repo", &["ls", &id])?.out);
        out.push(cmd_ok(w, "repo", &["diff", "-m", &id, &id_str(&snaps[0].id)])?.out);
        for (p, e) in &s.tree {
            if e.kind != Kind::Dir {
                out.push(cmd_ok(w, "repo", &["dump", &id, std::str::from_utf8(p).unwrap().split_once('/').unwrap().1]).map(|o| o.out).unwrap_or_default());
                break;
            }
        }
    }
    // (what is said about indexes may change with them)
    out.extend(cmd_ok(w, "repo", &["usage"])?.out.lines().take_while(|l| !l.is_empty()).map(String::from));
    w.now.set(now);
    Ok(out)
}

fn one(w: &World, snaps: &[MSnap], before: &Tree, r0: &Repo, k: usize, intact: bool) -> Result<(), String> {
    let rep = if intact { Some(reports(w, snaps)?) } else { None };
    run().step();
    let o = w.bp(&["rebuild-index"]);
    if r0.packs.is_empty() && r0.indexes.is_empty() {
        // nothing to build it from: whether that is an error is a matter of taste
        run().outcome("nothing to rebuild");
        return check_repo(w, "repo", snaps).map(|_| ());
    }
    if !o.ok() {
        return Err(o.brief());
    }
    let exact = |w: &World| -> Result<Repo, String> {
        let r = Repo::load(&w.repo());
        let [ix] = r.indexes.values().collect::<Vec<_>>()[..] else { return Err(format!("{} readable indexes", r.indexes.len())) };
        if std::fs::read_dir(w.repo().join("indexes")).unwrap().count() != 1 {
            return Err("more than one file among the indexes".into());
        }
        if ix.packs.len() != r.packs.len() {
            return Err(format!("the index lists {} packs, there are {}", ix.packs.len(), r.packs.len()));
        }
        for (id, p) in &r.packs {
            if ix.packs.get(id) != Some(&p.manifest) {
                return Err(format!("the index does not describe pack {} as it is", &id_str(id)[..8]));
            }
        }
        Ok(r)
    };
    let r = exact(w)?;
    if r.packs.len() != r0.packs.len() {
        return Err("packs vanished or appeared".into());
    }
    let rest: Tree = before.iter().filter(|(k, _)| !k.starts_with(b"indexes/")).map(|(k, e)| (k.clone(), e.clone())).collect();
    let after = scan(&w.repo());
    still_there(&rest, &after)?;
    if let Some(k) = after.keys().find(|k| !k.starts_with(b"indexes/") && !rest.contains_key(*k)) {
        return Err(format!("{} appeared", String::from_utf8_lossy(k)));
    }
    check_repo(w, "repo", snaps)?;
    cwd_clean(w, "cwd")?;
    cmd_ok(w, "repo", &["check", "-r"])?;
    if let Some(rep) = rep {
        let now = reports(w, snaps)?;
        if let Some((a, b)) = rep.iter().zip(&now).find(|(a, b)| a != b) {
            return Err(format!("a report changed from {a:?} to {b:?}"));
        }
    }
    run().outcome(if intact { "intact rebuilt" } else { "rebuilt" });
    if let Some(s) = snaps.get(k % snaps.len().max(1)) {
        restore_check(w, "repo", s)?;
    }
    // again
    let x = scan(&w.repo().join("indexes"));
    cmd_ok(w, "repo", &["rebuild-index"])?;
    exact(w)?;
    run().outcome(if x.keys().eq(scan(&w.repo().join("indexes")).keys()) { "second rebuild: same name" } else { "second rebuild: another name" });
    // and on with it
    match k % tier(4, 3) {
        0 => {
            cmd_ok(w, "repo", &["prune"])?;
            check_repo(w, "repo", snaps)?;
        }
        1 => {
            let mut s = snaps.to_vec();
            let n = small(1);
            rebuild(&w.src(), &n);
            let src = w.src();
            let had = Repo::load(&w.repo()).stored();
            do_backup(w, "repo", &["backup", "--allow-repeat", "-a", "me", "../src"], &mut s, &named_tree("src", &n), "me", &[], &[&src])?;
            let r = check_repo(w, "repo", &s)?;
            if r.stored().iter().any(|(id, n)| *n > had.get(id).copied().unwrap_or(0).max(1)) {
                return Err("a backup stored something again".into());
            }
        }
        2 => {
            for s in snaps {
                restore_check(w, "repo", s)?;
            }
        }
        _ => {}
    }
    cmd_ok(w, "repo", &["check", "-r"])?;
    Ok(())
}
