//! C30: limited parallelism.
use super::tier;
use crate::b2;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;

use crate::util::*;
use std::process::Command;
use std::time::Duration;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let sem = semaphore();
    requests();
    run().note("the semaphore itself explored", sem);
    (
        "model_checking",
        "the program's own semaphore under every interleaving of 2 to 4 threads (loom; preemption bound where given), its futex replaced by a model of one; and whole commands against a simulated object store that completes its answers in every order, at most as many at once as allowed",
        true,
    )
}

/// The real src/semaphored.rs, compiled against loom.
fn semaphore() -> bool {
    let v = std::env::var("MC_VERIF").unwrap_or("/verif".into());
    let bin = format!("{v}/.build/sem/bin");
    if !std::path::Path::new(&bin).exists() {
        // Not in the shape that can be compiled against loom; the commands below are still checked.
        run().note("loom", "src/semaphored.rs does not compile against it");
        return false;
    }
    // threads, limit, rounds, preemption bound (0: none)
    let mut cfg: Vec<[usize; 4]> = vec![[2, 1, 1, 0], [2, 1, 2, 0], [2, 2, 1, 0], [2, 1, 3, 3], [3, 1, 1, 3], [3, 2, 1, 3], [3, 1, 2, 3], [3, 2, 2, 3], [4, 1, 1, 3], [4, 2, 1, 3], [4, 3, 1, 3]];
    if tier(false, true) {
        cfg.extend([[3, 2, 1, 0], [3, 1, 1, 5], [3, 1, 3, 3], [3, 2, 3, 3], [4, 1, 2, 3], [4, 2, 2, 3], [4, 3, 2, 3], [4, 2, 1, 4], [4, 1, 1, 4]]);
    }
    let limit = Duration::from_secs(tier(60, 500));
    par_map(&cfg, |_, c| {
        let mut cmd = Command::new(&bin);
        cmd.args(c.iter().map(|x| x.to_string()));
        let o = run_command(cmd, limit);
        let name = format!("{} threads, limit {}, {} rounds{}", c[0], c[1], c[2], if c[3] > 0 { format!(", up to {} preemptions", c[3]) } else { String::new() });
        run().eval();
        if o.timed_out {
            run().note(&name, "not finished in time");
            return;
        }
        if o.ok() {
            let n: u64 = o.out.split_whitespace().nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            run().traces.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            run().state(fnv(&[name.as_bytes()]));
            run().note(&name, o.out.trim());
            run().outcome("semaphore model completed");
            return;
        }
        let why = if o.err.contains("LIMIT:") {
            o.err.lines().find(|l| l.contains("LIMIT:")).unwrap_or("").to_string()
        } else if o.err.contains("deadlock") {
            "some schedule leaves a thread waiting for ever".into()
        } else {
            run().note(&name, format!("no result: {}", o.brief()));
            return;
        };
        run().violation(format!("semaphore, {name}"), format!("{name}: {why}"), format!("{bin} {c:?}\n{}", o.err));
    });
    true
}

fn requests() {
    let packs = ["w", "x", "y", "z"];
    let cases: Vec<(usize, Vec<&str>)> = [1, 2, 3]
        .iter()
        .flat_map(|c| {
            [vec!["rebuild-index"], vec!["check", "-r"], vec!["snapshots"], vec!["restore", "-o", "../out", "LAST"], vec!["copy", "--to", "../other", "--all"], vec!["backup", "-a", "me", "--allow-repeat", "../src"], vec!["forget", "LAST"], vec!["prune"]]
                .into_iter()
                .map(|a| (*c, a))
        })
        .collect();
    par_map(&cases, |_, (limit, args)| {
        let mut w = World::new();
        let (acc, url) = b2::account(&w.root);
        w.env.push(("BACKPAK_B2_API".into(), url));
        w.env.push(("MC_NOSLEEP".into(), "1".into()));
        let info = crate::explore::cpuinfo(&w, 4);
        w.env.push(("MC_CPUINFO".into(), info));
        w.timeout = Duration::from_secs(30);
        for (b, r) in [("one", "odd"), ("two", "other")] {
            std::fs::create_dir(w.p(&format!("bucket-{b}"))).unwrap();
            let n = limit.to_string();
            let o = w.bp_repo(&["init", "-p", "1000B", "backblaze", "-k", b2::KEY, "-a", b2::SECRET, "-b", b, "-c", &n], &w.p(r));
            if !o.ok() {
                return run().violation("setup", o.brief(), w.history());
            }
        }
        for (k, n) in packs.iter().enumerate() {
            rebuild(&w.src(), &d(&[(n, f(&noise(k as u64, 700)))]));
            let o = w.bp_repo(&["backup", "-a", "me", "../src"], &w.p("odd"));
            if !o.ok() {
                return run().violation("setup", o.brief(), w.history());
            }
        }
        const DIRS: [&str; 6] = ["odd", "other", "bucket-one", "bucket-two", "home", "cwd"];
        rm_rf(&w.p("home/.cache"));
        save(&w.root, &DIRS, "s");
        let now = w.now.get();
        // depth-first over the orders of completion, up to a number of decisions
        let depth = tier(5, 8);
        let mut order: Vec<usize> = vec![];
        let mut want: Option<Vec<(String, String, Vec<u8>)>> = None;
        loop {
            if run().stopped() {
                return;
            }
            restore(&w.root, &DIRS, "s");
            fresh(&w.p("out"));
            w.now.set(now);
            acc.plan(&[], None);
            acc.hold(Some(order.clone()), *limit);
            let mut choices = vec![];
            let fine = case(&w, format!("{} with at most {limit} connections, answers in the order {order:?}", args.join(" ")), |w| {
                run().step();
                let o = w.bp_repo(args, &w.p("odd"));
                choices = acc.choices();
                let most = acc.max_active();
                acc.hold(None, 0);
                if !o.ok() {
                    return Err(o.brief());
                }
                run().outcome(format!("at most {limit}: {most} at once"));
                if most > *limit {
                    return Err(format!("{most} requests were in progress at once"));
                }
                let mut got = crate::twin::object_files(&w.p("bucket-one"));
                got.extend(crate::twin::object_files(&w.p("bucket-two")));
                // the order packs are finished in decides nothing but the order of work
                match &want {
                    None => want = Some(got),
                    Some(x) if args[0] != "copy" && args[0] != "backup" && *x != got => return Err("the objects stored depend on the order of the answers".into()),
                    _ => {}
                }
                Ok(())
            });
            run().state(fnv(&[args.join(" ").as_bytes(), &[*limit as u8], format!("{order:?}").as_bytes()]));
            if !fine {
                return;
            }
            // the next order
            order.resize(choices.len().min(depth), 0);
            loop {
                match order.pop() {
                    None => return,
                    Some(k) if k + 1 < choices[order.len()] => {
                        order.push(k + 1);
                        break;
                    }
                    _ => {}
                }
            }
        }
    });
}
