//! C03: an interrupted backup is re-run to completion, from every crash state, reusing finished packs.
use super::c02::finished;
use super::tier;
use crate::cli::*;
use crate::e1::*;
use crate::explore::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::Mutex;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let scens = vec![
        (backup("first backup", "100MiB", &[], "A"), false, vec!["C"]),
        (backup("second backup", "100MiB", &["A"], "B"), false, vec!["E", "A", "none"]),
        (backup("several packs", "1000B", &["A"], "B"), false, vec!["C"]),
        (backup("across file systems", "1000B", &[], "B"), true, vec!["none"]),
    ];
    for (sc, exdev, others) in &scens {
        let o = Opts { deviations: tier(0, 1), exdev: *exdev, powerloss: true, coarse: tier(true, false), ..Opts::default() };
        let pool = Pool::new(sc, o.cores);
        let again = Opts { powerloss: false, coarse: true, ..o.clone() };
        let seen2: Mutex<HashSet<u64>> = Default::default();
        all_crash_states(&pool, &o, &|s, r| finished(sc.name, s, r, true), &|p, c| {
            rerun(p, sc, &c.files, &c.what, &c.sched.text(), None);
            for other in others {
                rerun(p, sc, &c.files, &c.what, &c.sched.text(), Some(other));
            }
            seen2.lock().unwrap().insert(c.files.coarse_key());
            // and interrupt the re-run at every point, too
            if tier(c.sched == Sched::low(), true) {
                p.reset();
                c.files.materialise(&p.w.root, &dirs());
                let (r2, st2) = crash_states(p, &p.st.cmd, Sched::low(), &again, &seen2);
                finished(sc.name, &Sched::low(), &r2, true);
                for x in st2 {
                    run().outcome("state of a doubly interrupted run");
                    rerun(p, sc, &x.files, &format!("{} and again {}", c.what, x.what), "Low", None);
                }
            }
        });
    }
    (
        "model_checking",
        "every crash state (kill and power loss, merged when identical) of every explored schedule of a backup, and every crash state of its re-run: the backup is run again, also with a changed source, and judged against the model; blobs of packs recorded in the interrupted run's index must not be stored twice",
        true,
    )
}

fn rerun(p: &Prep, sc: &Scen, files: &Files, what: &str, sched: &str, change: Option<&str>) {
    files.materialise(&p.w.root, &dirs());
    let w = &p.w;
    w.now.set(p.now + 100);
    run().step();
    let at = files.repo("repo");
    let wip = files
        .0
        .get("cwd/backpak-wip.index".as_bytes())
        .and_then(|f| match &f.kind {
            Kind::File(b) => parse_index(b).ok().map(|x| x.0),
            _ => None,
        })
        .unwrap_or_default();
    let mut after = p.st.before.clone();
    let visible = at.snaps.len() > after.len();
    let mut new = p.st.after.last().unwrap().clone();
    // "none": everything is skipped now
    let plain = change == Some("none");
    let change = if plain { Some("E") } else { change };
    let mut skip = false;
    if let Some(v) = change {
        if visible {
            after.push(new.clone());
        }
        new.tree = named_tree("src", &var(v));
        // nothing to do: no source, or the same as the latest snapshot
        skip = plain || after.last().map(|l| tree_diff(&l.tree, &new.tree, Cmp { mode: true, mtime: true }).is_none()).unwrap_or(false);
    }
    if !skip {
        after.push(new);
    }
    if let Some(v) = change {
        rebuild(&w.src(), &var(v));
    }
    let args: Vec<&str> = p.st.cmd.iter().map(|s| s.as_str()).chain(if plain { vec!["-s", "."] } else { vec![] }).collect();
    let res = (|| -> Result<(), String> {
        cmd_ok(w, "repo", &args)?;
        let r = Repo::load(&w.repo());
        final_state(&r, &after)?;
        usable(w, "repo", &p.st.before, true)?;
        for s in r.snaps.values() {
            let t = r.expand(s)?;
            restore_check(w, "repo", &MSnap { id: s.id, tree: t, author: String::new(), tags: BTreeSet::new(), paths: s.paths.clone() })?;
        }
        let left = scan(&w.cwd());
        for n in left.keys() {
            let n = String::from_utf8_lossy(n);
            if n == "backpak-wip.index" || !files.names("cwd").iter().any(|x| *x == *n) {
                return Err(format!("left in the working directory: {n}"));
            }
        }
        let stored = r.stored();
        for (pid, man) in &wip.packs {
            if !r.packs.contains_key(pid) {
                return Err(format!("finished pack {} was not kept", &id_str(pid)[..8]));
            }
            for b in man {
                if stored.get(&b.id) != Some(&1) {
                    return Err(format!("blob {} of finished pack {} is stored {:?} times", &id_str(&b.id)[..8], &id_str(pid)[..8], stored.get(&b.id)));
                }
            }
        }
        Ok(())
    })();
    run().outcome(format!("resumed with {} finished packs{}", wip.packs.len(), if change.is_some() { ", source changed" } else { "" }));
    if change.is_some() {
        rebuild(&w.src(), &var_of(sc, p));
    }
    if let Err(e) = res {
        let key = format!("{}:{}{}", sc.name, what.split(" op ").next().unwrap_or(""), change.map(|c| format!(":{c}")).unwrap_or_default());
        run().violation(key, format!("{}, {what} [{sched}], re-run{}: {e}", sc.name, change.map(|c| format!(" with source {c}")).unwrap_or_default()), format!("{sched}\n{what}\nfiles: {:?} {:?}", files.names("repo"), files.names("cwd")));
    }
}

/// The scenario's own source.
fn var_of(_sc: &Scen, p: &Prep) -> N {
    let want = &p.st.after.last().unwrap().tree;
    crate::variants::variants().into_iter().find(|v| named_tree("src", &v.1) == *want).map(|v| v.1).unwrap()
}
