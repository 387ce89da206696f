//! C06: prune keeps everything reachable and removes everything else.
use super::tier;
use crate::cli::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::variants::variants;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let vs = variants();
    let mut ops: Vec<String> = vs.iter().map(|v| format!("backup {}", v.0)).collect();
    let nb = ops.len();
    ops.extend(["forget oldest", "forget newest", "prune"].map(String::from));
    for size in tier(vec!["100MiB"], vec!["100MiB", "1000B"]) {
        let ex = Explorer {
            ops: ops.clone(),
            depth: tier(5, 6),
            dirs: &["repo", "cwd"],
            setup: &|w, _| w.init_pack_size(size),
            apply: &|w, m, op| {
                if op < nb {
                    rebuild(&w.src(), &vs[op].1);
                    let src = w.src();
                    let t = named_tree("src", &vs[op].1);
                    do_backup(w, "repo", &["backup", "--allow-empty", "-a", "me", "../src"], &mut m.snaps, &t, "me", &[], &[&src])?;
                    return Ok(Step::Next);
                }
                match op - nb {
                    0 | 1 => {
                        if m.snaps.is_empty() || (op - nb == 1 && m.snaps.len() == 1) {
                            return Ok(Step::Skip);
                        }
                        let i = if op - nb == 0 { 0 } else { m.snaps.len() - 1 };
                        let s = m.snaps.remove(i);
                        cmd_ok(w, "repo", &["forget", &id_str(&s.id)])?;
                    }
                    _ => {
                        cmd_ok(w, "repo", &["prune"])?;
                    }
                }
                Ok(Step::Next)
            },
            check: &|w, m, op| {
                let r = check_repo(w, "repo", &m.snaps)?;
                cwd_clean(w, "cwd")?;
                if op == nb + 2 {
                    after_prune(w, m, &r)?;
                }
                Ok(())
            },
            key: &|w, m| {
                let _ = m;
                repo_key(w, "repo", "cwd")
            },
        };
        ex.go();
    }
    run().assume("sources are small trees; blob-level behaviour of prune does not depend on file size");
    (
        "model_checking",
        "all command histories over {backup of 4 overlapping sources, forget oldest, forget newest, prune} up to the depth, merged on identical repository states; every reached state is decoded by an independent reader and compared with a reference model, and after each prune the stored blobs are compared with the reachable set",
        true,
    )
}

fn after_prune(w: &World, m: &Model, r: &Repo) -> Result<(), String> {
    let snaps: Vec<&Snap> = r.snaps.values().collect();
    let need = r.needed(&snaps)?;
    for (id, n) in r.stored() {
        if !need.contains(&id) {
            return Err(format!("blob {} is stored after prune but no snapshot uses it", &id_str(&id)[..8]));
        }
        if n > 1 {
            return Err(format!("blob {} is stored {n} times after prune", &id_str(&id)[..8]));
        }
    }
    if m.snaps.is_empty() && !r.packs.is_empty() {
        return Err("packs remain although all snapshots were forgotten".into());
    }
    let listed: std::collections::BTreeSet<Id> = r.live_indexes().values().flat_map(|i| i.packs.keys().copied()).collect();
    if let Some(p) = r.packs.keys().find(|p| !listed.contains(*p)) {
        return Err(format!("pack {} remains unindexed after prune", &id_str(p)[..8]));
    }
    cmd_ok(w, "repo", &["check", "-r"])?;
    for s in &m.snaps {
        restore_check(w, "repo", s)?;
    }
    let before = scan(&w.repo());
    cmd_ok(w, "repo", &["prune"])?;
    let after = scan(&w.repo());
    if let Some(d) = tree_diff(&before, &after, Cmp::default()) {
        return Err(format!("a second prune changed the repository: {d}"));
    }
    run().outcome(format!("pruned to {} packs", r.packs.len()));
    Ok(())
}
