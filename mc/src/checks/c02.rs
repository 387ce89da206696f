//! C02: crash safety of backup. Every crash state of every explored schedule.
use super::tier;
use crate::e1::*;
use crate::explore::*;
use crate::hist::*;
use crate::scen::*;
use crate::util::*;
use std::sync::atomic::Ordering::*;

/// What happened to a whole execution.
pub fn finished(name: &str, s: &Sched, r: &Result<Res, String>, expect_ok: bool) -> bool {
    run().eval();
    match r {
        Err(e) => {
            run().error(format!("{name} [{}]: {e}", s.text()));
            false
        }
        Ok(r) => {
            if let Some(h) = &r.hung {
                // termination is C05's subject; here the execution just cannot be judged further
                if run().prop == "C05" {
                    run().violation(format!("hang:{name}"), format!("{name} hangs under schedule {}: {h}", s.text()), s.text());
                } else {
                    run().outcome("hung (judged by C05)");
                }
                return false;
            }
            run().traces.fetch_add(1, Relaxed);
            if expect_ok && !r.killed && !r.outs.iter().all(|o| o.ok()) {
                run().violation(
                    format!("fail:{name}"),
                    format!("{name} fails under schedule {}: {}", s.text(), r.outs[0].brief()),
                    s.text(),
                );
                return false;
            }
            true
        }
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let scens = vec![
        (backup("first backup", "100MiB", &[], "A"), false),
        (backup("second backup", "100MiB", &["A"], "C"), false),
        (backup("second backup, several packs", "1000B", &["A"], "B"), false),
        (backup("backup across file systems", "100MiB", &["A"], "B"), true),
    ];
    for (sc, exdev) in &scens {
        let o = Opts { deviations: tier(1, 2), exdev: *exdev, powerloss: true, ..Opts::default() };
        let o = if tier(true, false) && sc.name != "second backup" { Opts { deviations: 0, ..o } } else { o };
        let pool = Pool::new(sc, o.cores);
        all_crash_states(
            &pool,
            &o,
            &|s, r| {
                if let (Ok(res), true) = (r, *s == Sched::low()) {
                    run().sample(format!("{}: {}", sc.name, res.ops.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")));
                }
                finished(sc.name, s, r, true)
            },
            &|p, c| judge(p, sc, c),
        );
    }
    run().assume("a power loss discards data written since the file's last fsync and keeps directory operations in order");
    (
        "model_checking",
        "the real backup under a serialising scheduler: base schedules plus all schedules with a bounded number of deviations; at every file operation the kill state and the power-loss states (all unsynced data gone, and each file's alone) are captured, merged when identical, and judged by an independent decoder and by the program itself (check -r, snapshots, restore)",
        true,
    )
}

fn judge(p: &Prep, sc: &Scen, c: &CrashState) {
    let r = c.files.repo("repo");
    let res = survivors(&r, &p.st.before, &p.st.after, &p.st.removing).and_then(|_| {
        c.files.materialise(&p.w.root, &dirs());
        let mut all = p.st.before.clone();
        // a visible new snapshot must restore, too
        for (id, s) in &r.snaps {
            if !all.iter().any(|x| x.id == *id) {
                all.push(MSnap { id: *id, tree: r.expand(s)?, author: s.author.clone(), tags: s.tags.clone(), paths: s.paths.clone() });
                run().outcome("crash after the new snapshot became visible");
            }
        }
        usable(&p.w, "repo", &all, true)
    });
    run().outcome(if c.powerloss { "power-loss state" } else { "kill state" });
    if let Err(e) = res {
        let key = format!("{}:{}", sc.name, c.what.split(" op ").next().unwrap_or(""));
        run().violation(key, format!("{}, {} [{}]: {e}", sc.name, c.what, c.sched.text()), format!("{}\n{}\nfiles: {:?}", c.sched.text(), c.what, c.files.names("repo")));
    }
}
