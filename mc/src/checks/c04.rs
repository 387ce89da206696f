//! C04: nothing is published before what it refers to - at every instant of every schedule.
use super::c02::finished;
use super::tier;
use crate::explore::*;
use crate::scen::*;
use crate::util::*;
use std::collections::BTreeSet;

pub fn run_check() -> (&'static str, &'static str, bool) {
    // cheap depth first: every command under one deviation, then two
    let mut plan: Vec<(Scen, Opts)> = vec![];
    for (i, sc) in writers().into_iter().enumerate() {
        if sc.name == "rebuild-index, one lost" {
            continue; // starts from a repository whose snapshots are not backed by any index
        }
        plan.push((sc, Opts { deviations: tier(usize::from(matches!(i, 0 | 2 | 4 | 9)), 1), coarse: true, ..Opts::default() }));
    }
    plan.push((backup("several packs across file systems", "1000B", &["A"], "B"), Opts { exdev: true, coarse: true, ..Opts::default() }));
    if tier(false, true) {
        for sc in [backup("tiny backup, two deviations", "100MiB", &[], "E"), backup("backup, two deviations", "1000B", &["A"], "C")] {
            plan.push((sc, Opts { deviations: 2, bases: false, coarse: true, ..Opts::default() }));
        }
    }
    for (sc, o) in &plan {
        let pool = Pool::new(sc, o.cores);
        all_crash_states(&pool, o, &|s, r| finished(sc.name, s, r, true), &|_p, c| {
            run().step();
            for repo in ["repo", "repo2"] {
                if let Err(e) = c.files.repo(repo).invariant(&BTreeSet::new()) {
                    run().violation(
                        format!("{}:{repo}:{}", sc.name, e.split(' ').next().unwrap_or("")),
                        format!("{}, {} [{}]: {e}", sc.name, c.what, c.sched.text()),
                        format!("{}\n{}\nfiles: {:?}", c.sched.text(), c.what, c.files.names(repo)),
                    );
                }
            }
            run().outcome(format!("instants of {}", sc.kind));
        });
    }
    run().note("scenarios", plan.len());
    (
        "model_checking",
        "real commands under a serialising scheduler: base schedules and every schedule with a bounded number of deviations; the repository is decoded independently at every instant between file operations and each visible snapshot and live index must be fully backed",
        true,
    )
}
