//! C17: check succeeds exactly when it should.
use super::c16::*;
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::zoo::*;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let jobs: Vec<(usize, usize)> = (0..ZOO.len()).flat_map(|z| (0..2).map(move |k| (z, k))).collect();
    par_map(&jobs, |_, (z, part)| {
        let w = World::new();
        let snaps = match make(&w, *z) {
            Ok(s) => s,
            Err(e) => return run().violation(format!("setup {}", ZOO[*z].name), e, ""),
        };
        let pristine = Repo::load(&w.repo());
        let objs: Vec<(String, Vec<u8>)> = objects(&scan(&w.repo())).into_iter().filter(|o| !o.0.starts_with("snapshots")).collect();
        let name = ZOO[*z].name;
        let now = w.now.get();
        if *part == 0 {
            save(&w.root, &["repo"], "start");
            // as it is, and when going on
            case(&w, format!("{name}: intact"), |w| {
                for s in 0..2 {
                    for a in [&["check"][..], &["check", "-r"]] {
                        run().step();
                        cmd_ok(w, "repo", a)?;
                        run().outcome("intact");
                    }
                    if s == 0 {
                        cmd_ok(w, "repo", &["prune"])?;
                    }
                }
                check_repo(w, "repo", &snaps).map(|_| ())
            });
            restore(&w.root, &["repo"], "start");
            // every set of missing packs and indexes
            let n = objs.len();
            let most = tier(7, 11);
            let sets: Vec<u32> = (1..1u32 << n).filter(|b| n <= most || b.count_ones() <= tier(2, 3) || (n as u32 - b.count_ones()) <= 2).collect();
            for b in sets {
                if run().stopped() {
                    return;
                }
                run().state(fnv(&[format!("{z} without {b}").as_bytes()]));
                w.now.set(now);
                case(&w, format!("{name}: without objects {b:b}"), |w| {
                    for (i, (p, _)) in objs.iter().enumerate() {
                        if b >> i & 1 == 1 {
                            std::fs::remove_file(w.repo().join(p)).unwrap();
                        }
                    }
                    let r = verdicts(w, &pristine, None);
                    for (i, (p, c)) in objs.iter().enumerate() {
                        if b >> i & 1 == 1 {
                            std::fs::write(w.repo().join(p), c).unwrap();
                        }
                    }
                    r
                });
            }
        } else {
            // every single damage
            let deep = matches!(z, 12) || run().thorough;
            for (k, (o, d)) in damages(&objs, &[&[1u8][..], &[0x80], &[0xff], &[0x10]]).into_iter().enumerate() {
                if run().stopped() {
                    return;
                }
                if matches!(d, Dmg::Gone) || (!deep && !matches!(d, Dmg::Become(..)) && k % 16 != 0) {
                    continue;
                }
                run().state(fnv(&[format!("{z} {o}{d:?}").as_bytes()]));
                w.now.set(now);
                case(&w, format!("{name}: {}", label(&objs, o, &d)), |w| {
                    let path = w.repo().join(&objs[o].0);
                    let b = apply(&objs[o].1, &d).unwrap();
                    std::fs::write(&path, &b).unwrap();
                    let same = still_reads(objs[o].0.split('/').next().unwrap(), &b, &objs[o].1);
                    let r = verdicts(w, &pristine, Some(same));
                    std::fs::write(&path, &objs[o].1).unwrap();
                    r
                });
            }
        }
    });
    (
        "model_checking",
        "17 repositories left by completed and interrupted commands: check and check -r succeed on each, before and after a prune; with every subset of packs and indexes missing (pairs where there are many objects), and with every byte of packs and indexes changed, cut, extended or replaced by another object, a check that succeeds is true: an independent decoder finds every snapshot backed by packs that exist and are indexed, and with -r every indexed pack holds what its name and the index say",
        true,
    )
}

/// `harmless`: is the damage one no reader can notice?
fn verdicts(w: &World, pristine: &Repo, harmless: Option<bool>) -> Result<(), String> {
    let r = Repo::load(&w.repo());
    for packs in [false, true] {
        run().step();
        let o = w.bp(if packs { &["check", "-r"] } else { &["check"] });
        sane(&o)?;
        run().outcome(if o.ok() { "check succeeded" } else { "check failed" });
        if o.ok() && harmless != Some(true) {
            check_is_true(packs, &r, pristine)?;
        }
    }
    Ok(())
}
