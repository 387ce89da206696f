//! Developer aid: `mc PROBE`.
use crate::cli::*;
use crate::e1::*;
use std::time::Instant;

pub fn run_check() {
    let w = World::new();
    w.init(&[]);
    build(&w.src(), &crate::variants::variants()[0].1);
    let dirs: Vec<String> = ["repo", "cwd"].map(String::from).to_vec();
    let f0 = Files::capture(&w.root, &dirs);
    for base in [Base::Low, Base::Low, Base::High, Base::RoundRobin] {
        f0.materialise(&w.root, &dirs);
        let t = Instant::now();
        let mut states = std::collections::BTreeSet::new();
        let r = execute(Spec {
            cmds: vec![w.command(&["backup", "../src"], &w.repo())],
            cwds: vec![w.cwd()],
            root: w.root.clone(),
            dirs: dirs.clone(),
            sched: Sched { base: base.clone(), dev: vec![] },
            reads: std::env::var_os("READS").is_some(),
            inject: vec![],
            observe: Some(&mut |i| {
                states.insert(i.files.key());
            }),
            at: None,
            max_points: 100000,
            exdev: false,
        });
        match r {
            Ok(r) => {
                println!("{base:?}: {:?} points {} alts {} ops {} threads {} states {} hung {:?} {} t {:?}", r.outs[0].code, r.points.len(), r.points.iter().map(|p| p.alts.len()).sum::<usize>(), r.ops.len(), r.threads, states.len(), r.hung, r.outs[0].brief(), t.elapsed());
                if base == Base::High {
                    for o in &r.ops {
                        println!("   t{} {}", o.thread, o.text());
                    }
                }
            }
            Err(e) => println!("ERR {e}"),
        }
    }
}
