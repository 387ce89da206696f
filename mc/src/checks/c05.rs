//! C05: termination under every explored schedule, core count and failing stage.
use super::c02::finished;
use super::tier;
use crate::e1::*;
use crate::explore::*;
use crate::repo::Repo;
use crate::scen::*;
use crate::util::*;

pub fn run_check() -> (&'static str, &'static str, bool) {
    // 1. all commands, all schedules, several core counts; each execution must end well and with the right result
    let mut plan: Vec<(Scen, Opts)> = vec![];
    for cores in [1, 2, 3, 4, 8] {
        for (i, sc) in writers().into_iter().chain(readers()).enumerate() {
            let d = match cores {
                1 | 4 => usize::from(tier(matches!(i, 1 | 4), true)),
                _ => usize::from(tier(false, i < 12 && cores == 2)),
            };
            plan.push((sc, Opts { cores, deviations: d, ..Opts::default() }));
        }
    }
    for (sc, o) in &plan {
        let pool = Pool::new(sc, o.cores);
        schedules(&pool, o, &|p, s| {
            let r = p.go(s.clone(), o, vec![], None);
            if !finished(sc.name, &s, &r, true) {
                return None;
            }
            let res = r.ok()?;
            run().state(fnv(&[sc.name.as_bytes(), &res.ops.iter().map(|o| o.thread as u8).collect::<Vec<_>>(), &[o.cores as u8]]));
            if sc.kind != "read" {
                let e = final_state(&Repo::load(&p.w.repo()), &p.st.after).and_then(|_| {
                    if p.w.p("repo2").exists() {
                        final_state(&Repo::load(&p.w.p("repo2")), &p.st.after2)
                    } else {
                        Ok(())
                    }
                });
                if let (Err(e), false) = (e, sc.name.contains("lost") && sc.kind != "rebuild-index") {
                    run().violation(format!("result:{}", sc.name), format!("{} reports success under schedule {} ({} cores), but: {e}", sc.name, s.text(), o.cores), s.text());
                }
            }
            if sc.kind == "read" {
                let _ = std::fs::remove_dir_all(p.w.p("out"));
                let _ = std::fs::create_dir(p.w.p("out"));
            }
            Some(res)
        });
    }
    // 2. one stage fails: the command must stop, with an error
    for sc in &writers() {
        let o = Opts { cores: 2, ..Opts::default() };
        let pool = Pool::new(sc, o.cores);
        let ops = match pool.with(|p| p.go(Sched::low(), &o, vec![], None)) {
            Ok(r) => r.ops,
            Err(e) => {
                run().error(e);
                break;
            }
        };
        let bases = tier(vec![Base::Low, Base::RoundRobin], vec![Base::Low, Base::High, Base::RoundRobin, Base::Starve(0), Base::Starve(1), Base::Prefer(0)]);
        let tasks: Vec<(usize, Base)> = (0..ops.len())
            // consecutive writes to one temporary file fail alike
            .filter(|k| tier(*k == 0 || ops[*k].name != "write" || ops[*k - 1].name != "write", true))
            .flat_map(|k| bases.iter().map(move |b| (k, b.clone())))
            .collect();
        par_map(&tasks, |_, (k, b)| {
            pool.with(|p| {
                let s = Sched { base: b.clone(), dev: vec![] };
                let r = p.go(s.clone(), &o, vec![(*k, Inject::Errno(libc::EIO))], None);
                if !finished(&format!("{} with a failing {}", sc.name, ops[*k].name), &s, &r, false) {
                    return;
                }
                let res = r.unwrap();
                if res.injected == 0 {
                    return;
                }
                let out = &res.outs[0];
                run().outcome(if out.ok() { "survived the failure" } else { "stopped with an error" });
                if !out.ok() && (out.code.is_none() || out.err.trim().is_empty() || out.panicked()) {
                    run().violation(
                        format!("message:{}:{}", sc.name, ops[*k].name),
                        format!("{} with operation {k} {} failing [{}] ends with {}", sc.name, ops[*k].text(), s.text(), out.brief()),
                        s.text(),
                    );
                }
            })
        });
    }
    (
        "model_checking",
        "real commands under a serialising scheduler with emulated futexes, for 1, 2, 3, 4 and 8 cores: base schedules (run-to-block, round robin, each thread starved or preferred) and all schedules with a bounded number of deviations; a state with no enabled thread is a deadlock; and each file operation in turn fails",
        true,
    )
}
