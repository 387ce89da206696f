//! C33: backing up the directory the program runs in.
use super::c02::finished;
use super::tier;
use crate::cli::*;
use crate::explore::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use crate::e1::*;
use std::collections::{BTreeSet, HashSet};
use std::sync::Mutex;

/// Directories before, at and after the working directory `m`, and files of the user's
/// that are called like the program's own.
fn source(later: bool) -> N {
    let lookalike = "0123456789abcdefghijklmnopqrstuv0123456789abc.pack";
    assert!(id_parse(lookalike.strip_suffix(".pack").unwrap()).is_some());
    let mut top = vec![
        ("a", d(&[("big", f(&noise(1, 2500))), ("temp-backpak-mine.pack", f(b"not the program's")), ("backpak-wip.index", f(b"nor this"))])),
        ("l", l("m")),
        ("m", d(&[("k", f(&noise(2, 1500))), (lookalike, f(b"a user's file")), ("backpak-wip.index.old", f(b"old")), ("sub", d(&[("s", f(b"sierra")), ("temp-backpak-too.pack", f(b"also the user's"))]))])),
        ("z", d(&[("big", f(&noise(3, 2500))), ("x", f(b"xray"))])),
    ];
    if later {
        top.push(("n", d(&[("new", f(&noise(4, 1800)))])));
    }
    d(&top)
}

struct Case {
    name: &'static str,
    size: &'static str,
    dir: &'static str,
    cmd: &'static [&'static str],
    prior: bool,
}

fn cases() -> Vec<Case> {
    let c = |name, size, dir, cmd, prior| Case { name, size, dir, cmd, prior };
    vec![
        c("from the directory itself", "1000B", "src", &["backup", "-a", "me", "."][..], false),
        c("from a directory below", "1000B", "src/m", &["backup", "-a", "me", ".."], false),
        c("from a directory below, one pack", "100MiB", "src/m", &["backup", "-a", "me", ".."], false),
        c("from a directory below, again", "1000B", "src/m", &["backup", "-a", "me", ".."], true),
        c("from a directory below, following links", "1000B", "src/m", &["backup", "-L", "-a", "me", ".."], false),
        c("it and the others", "1000B", "src/m", &["backup", "-a", "me", "../a", ".", "../z"], false),
    ]
}

fn scen(c: &Case) -> Scen {
    let (size, dir, cmd, prior) = (c.size, c.dir, c.cmd, c.prior);
    Scen {
        name: c.name,
        kind: "backup",
        setup: Box::new(move |w| {
            w.init_pack_size(size);
            let mut st = St { cmd: cmd.iter().map(|s| s.to_string()).collect(), ..St::default() };
            if prior {
                build(&w.src(), &source(false));
                let (src, t) = (w.src(), named_tree("src", &source(false)));
                do_backup(w, "repo", &["backup", "-a", "me", "../src"], &mut st.before, &t, "me", &[], &[&src]).expect("preparing a scenario: backup");
            }
            rebuild(&w.src(), &source(prior));
            w.dir.set(dir);
            st
        }),
    }
}

/// What a snapshot taken by the case's command holds.
fn expected(c: &Case) -> Tree {
    let mut t = named_tree("src", &source(c.prior));
    if c.cmd.contains(&"-L") {
        let m: Tree = t.iter().filter_map(|(k, e)| k.strip_prefix(b"src/m").map(|r| ([b"src/l", r].concat(), e.clone()))).collect();
        t.extend(m);
    }
    if c.cmd.contains(&"../a") {
        return t.iter().filter_map(|(k, e)| k.strip_prefix(b"src/").map(|r| (r.to_vec(), e.clone()))).filter(|(k, _)| [b'a', b'm', b'z'].contains(&k[0])).collect();
    }
    t
}

/// The newest snapshot is the source, without anything of the program's own.
/// `orphans`: files that an earlier run left under a final name without recording them.
fn judge(w: &World, c: &Case, before: &[MSnap], orphans: &BTreeSet<String>) -> Result<(), String> {
    run().eval();
    let r = Repo::load(&w.repo());
    r.invariant(&BTreeSet::new())?;
    for s in before {
        if !r.snaps.contains_key(&s.id) {
            return Err(format!("snapshot {} is gone", &id_str(&s.id)[..8]));
        }
    }
    let s = r.chrono().last().copied().ok_or("no snapshot")?.clone();
    let mut t = r.expand(&s)?;
    t.retain(|k, _| !orphans.contains(String::from_utf8_lossy(k).rsplit('/').next().unwrap()));
    match tree_diff(&expected(c), &t, Cmp::default()) {
        Some(d) => Err(format!("the snapshot differs from the source: {d}")),
        None => Ok(()),
    }
}

/// Finished packs in the working directory which the record of the interrupted run does not mention.
fn orphans(w: &World) -> BTreeSet<String> {
    let known: BTreeSet<Id> = std::fs::read(w.cwd().join("backpak-wip.index")).ok().and_then(|b| parse_index(&b).ok()).map(|(i, _)| i.packs.keys().copied().collect()).unwrap_or_default();
    let user: BTreeSet<String> = expected(&cases()[0]).keys().map(|k| String::from_utf8_lossy(k).rsplit('/').next().unwrap().to_string()).collect();
    std::fs::read_dir(w.cwd())
        .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect::<Vec<_>>())
        .unwrap_or_default()
        .into_iter()
        .filter(|n| !user.contains(n) && n.split('.').next().and_then(id_parse).is_some_and(|i| !known.contains(&i)))
        .collect()
}

/// Is a pack that the interrupted run recorded still in the working directory?
fn recorded(w: &World) -> bool {
    let ix = std::fs::read(w.cwd().join("backpak-wip.index")).ok().and_then(|b| parse_index(&b).ok());
    ix.is_some_and(|(i, _)| i.packs.keys().any(|p| w.cwd().join(format!("{}.pack", id_str(p))).exists()))
}

fn resumed(p: &Prep, c: &Case, cs: &CrashState, o: &Opts, ds: &[String], left: &BTreeSet<String>) -> Result<(), String> {
    let cmd: Vec<String> = c.cmd.iter().copied().chain(["--allow-repeat"]).map(String::from).collect();
    let mut bases = vec![Base::Low, Base::High, Base::RoundRobin];
    let mut i = 0;
    while i < bases.len() {
        cs.files.materialise(&p.w.root, ds);
        let r = p.go_cmd(&cmd, Sched { base: bases[i].clone(), dev: vec![] }, o, vec![], None)?;
        if i == 0 {
            bases.extend((0..r.named.len()).map(Base::Starve));
            bases.extend((0..r.named.len()).filter(|k| r.named[*k]).map(Base::Prefer));
        }
        let b = format!("run again under {:?}", bases[i]);
        if let Some(h) = &r.hung {
            return Err(format!("{b}: hangs: {h}"));
        }
        if !r.outs[0].ok() {
            return Err(format!("{b}: {}", r.outs[0].brief()));
        }
        judge(&p.w, c, &p.st.before, left).map_err(|e| format!("{b}: {e}"))?;
        i += 1;
    }
    Ok(())
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ds: Vec<String> = ["repo", "src"].map(String::from).to_vec();
    for (i, c) in cases().iter().enumerate() {
        if run().stopped() {
            break;
        }
        let sc = scen(c);
        let o = Opts { deviations: tier(if i == 2 { 1 } else { 0 }, 1), coarse: true, ..Opts::default() };
        let seen: Mutex<HashSet<u64>> = Default::default();
        let pool = Pool::in_dirs(&sc, o.cores, &ds);
        all_crash_states(
            &pool,
            &o,
            &|s, r| finished(sc.name, s, r, true),
            &|p, cs| {
                cs.files.materialise(&p.w.root, &ds);
                let left = orphans(&p.w);
                let done = cs.what.starts_with("killed after") && cs.what != "killed after op 0";
                let res = if done {
                    run().outcome("ran to its end");
                    judge(&p.w, c, &p.st.before, &BTreeSet::new())
                } else {
                    run().outcome(if left.is_empty() { "killed, run again" } else { "killed with an unrecorded pack, run again" });
                    let cmd: Vec<&str> = c.cmd.iter().copied().chain(["--allow-repeat"]).collect();
                    // where a recorded pack waits to be uploaded, when that happens matters
                    if recorded(&p.w) && seen.lock().unwrap().insert(cs.files.coarse_key()) {
                        run().outcome("killed with a recorded pack, run again under all base schedules");
                        resumed(p, c, cs, &o, &ds, &left)
                    } else {
                        cmd_ok(&p.w, "repo", &cmd).and_then(|_| judge(&p.w, c, &p.st.before, &left))
                    }
                };
                if let Err(e) = res {
                    let key = format!("{}:{}", c.name, cs.what.split(" op ").next().unwrap_or(""));
                    run().violation(key, format!("{}, {} [{}]: {e}", c.name, cs.what, cs.sched.text()), format!("{}\n{}", cs.sched.text(), cs.what));
                }
            },
        );
    }
    run().assume("files in the working directory whose names begin with temp-backpak-, and backpak-wip.index there, are the program's own");
    (
        "model_checking",
        "the real backup of trees that contain its working directory (the tree itself, before and after others, visited twice through a followed link, one of several paths; one pack or many; a first or a later backup) under base schedules plus all schedules with a bounded number of deviations, and again from every state in which it can be killed: it must succeed and the decoded snapshot must be exactly the user's files, including those elsewhere that are named like the program's own",
        true,
    )
}
