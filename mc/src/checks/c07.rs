//! C07: maintenance commands killed at any point lose nothing and can be run again.
use super::c02::finished;
use super::tier;
use crate::explore::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::Mutex;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let mut plan: Vec<(Scen, bool)> = writers().into_iter().filter(|s| s.kind != "backup").map(|s| (s, false)).collect();
    plan.push((prune("prune across file systems", "1000B", &["A", "B"], &[0]), true));
    plan.push((copy("copy across file systems", &["A", "B"], 1), true));
    plan.push((filter_snapshot("filter-snapshot across file systems", &["B", "C"], false), true));
    for (sc, exdev) in &plan {
        let o = Opts { deviations: tier(0, 1), exdev: *exdev, powerloss: true, coarse: tier(true, false), ..Opts::default() };
        let again = Opts { powerloss: false, coarse: true, ..o.clone() };
        let pool = Pool::new(sc, o.cores);
        let seen2: Mutex<HashSet<u64>> = Default::default();
        all_crash_states(&pool, &o, &|s, r| finished(sc.name, s, r, true), &|p, c| {
            judge(p, sc, c, &c.what);
            seen2.lock().unwrap().insert(c.files.coarse_key());
            if c.sched == crate::e1::Sched::low() && sc.kind != "forget" && !run().stopped() {
                p.reset();
                c.files.materialise(&p.w.root, &dirs());
                let (r2, st2) = crash_states(p, &p.st.cmd, crate::e1::Sched::low(), &again, &seen2);
                finished(sc.name, &c.sched, &r2, true);
                for x in st2 {
                    run().outcome("state of a doubly interrupted run");
                    let what = format!("{} and again {}", c.what, x.what);
                    judge(p, sc, &x, &what);
                }
            }
        });
    }
    run().assume("a power loss discards data written since the file's last fsync and keeps directory operations in order");
    (
        "model_checking",
        "prune, rebuild-index, copy, filter-snapshot and forget under a serialising scheduler; every crash state (kill and power loss, merged when identical) of every explored schedule and of the re-run from each, judged by an independent decoder and by the program; then the command is run again and compared with the model of an uninterrupted run",
        true,
    )
}

fn judge(p: &Prep, sc: &Scen, c: &CrashState, what: &str) {
    let w = &p.w;
    let st = &p.st;
    let lost_index = sc.name.contains("one lost");
    run().step();
    let res = (|| -> Result<(), String> {
        let r = c.files.repo("repo");
        let r2 = c.files.repo("repo2");
        let mut forgotten = BTreeSet::new();
        if !lost_index {
            survivors(&r, &st.before, &st.after, &st.removing)?;
            survivors(&r2, &st.before2, &st.after2, &BTreeSet::new()).map_err(|e| format!("destination: {e}"))?;
            c.files.materialise(&w.root, &dirs());
            w.now.set(p.now + 50);
            let alive: Vec<MSnap> = st.before.iter().filter(|s| r.snaps.contains_key(&s.id)).cloned().collect();
            forgotten = st.before.iter().map(|s| s.id).filter(|i| !r.snaps.contains_key(i)).collect();
            usable(w, "repo", &alive, true)?;
            if w.p("repo2").exists() {
                let have2: Vec<MSnap> = st.before2.clone();
                usable(w, "repo2", &have2, true).map_err(|e| format!("destination: {e}"))?;
            }
        } else {
            c.files.materialise(&w.root, &dirs());
        }
        // again
        w.now.set(p.now + 100);
        let mut args: Vec<String> = st.cmd.clone();
        if sc.kind == "forget" {
            args.retain(|a| id_parse(a).map(|i| !forgotten.contains(&i)).unwrap_or(true));
        }
        if !(sc.kind == "forget" && args.len() == 1) {
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            cmd_ok(w, "repo", &a).map_err(|e| format!("run again: {e}"))?;
        }
        let f = Repo::load(&w.repo());
        let mut after = st.after.clone();
        if sc.kind == "filter-snapshot" && r.snaps.len() > st.before.len() {
            // it was complete already; a second one, later, is what was asked for now
            let n = f.snaps.len() - st.before.len();
            let new = after.last().unwrap().clone();
            for _ in 1..n.min(3) {
                after.push(new.clone());
            }
        }
        final_state(&f, &after).map_err(|e| format!("after running it again: {e}"))?;
        let alive: Vec<MSnap> = after.iter().filter(|s| s.id != [0; 28]).cloned().collect();
        usable(w, "repo", &alive, true).map_err(|e| format!("after running it again: {e}"))?;
        if w.p("repo2").exists() {
            let f2 = Repo::load(&w.p("repo2"));
            final_state(&f2, &st.after2).map_err(|e| format!("destination after running it again: {e}"))?;
            usable(w, "repo2", &st.after2, true).map_err(|e| format!("destination after running it again: {e}"))?;
        }
        if sc.kind == "prune" {
            let snaps: Vec<&Snap> = f.snaps.values().collect();
            let need = f.needed(&snaps)?;
            for ix in f.live_indexes().values() {
                for m in ix.packs.values() {
                    if let Some(b) = m.iter().find(|b| !need.contains(&b.id)) {
                        return Err(format!("after running it again, indexed blob {} is used by no snapshot", &id_str(&b.id)[..8]));
                    }
                }
            }
        }
        for n in scan(&w.cwd()).keys() {
            let n = String::from_utf8_lossy(n);
            if !c.files.names("cwd").iter().any(|x| *x == *n) {
                return Err(format!("running it again left {n} in the working directory"));
            }
        }
        Ok(())
    })();
    run().outcome(format!("{} {}", sc.kind, if c.powerloss { "power-loss state" } else { "kill state" }));
    if let Err(e) = res {
        let key = format!("{}:{}", sc.name, what.split(" op ").next().unwrap_or(""));
        run().violation(key, format!("{}, {what} [{}]: {e}", sc.name, c.sched.text()), format!("{}\n{what}\nfiles: {:?} {:?} {:?}", c.sched.text(), c.files.names("repo"), c.files.names("repo2"), c.files.names("cwd")));
    }
}
