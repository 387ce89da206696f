//! C14: forget removes exactly what it is asked to.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy)]
struct Kind_ {
    tree: u8,
    author: &'static str,
    tag: Option<&'static str>,
    other: bool,
    now: i64,
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    named();
    duplicates();
    (
        "model_checking",
        "all argument lists up to length 3 over full ids, prefixes, LAST forms, unknown and malformed names against four snapshots; DUPLICATES after all histories of backups up to a length over an alphabet of trees, authors, tags, paths and equal times; everything in the repository except the named snapshots must be unchanged",
        true,
    )
}

fn named() {
    let make = || {
        let w = World::new();
        w.init_pack_size("100MiB");
        let mut snaps = vec![];
        for i in 0..4u8 {
            let n = d(&[("f", ft(&[b'0' + i], i as i128))]);
            rebuild(&w.src(), &n);
            let src = w.src();
            do_backup(&w, "repo", &["backup", "-a", "me", "../src"], &mut snaps, &named_tree("src", &n), "me", &[], &[&src]).expect("backup");
        }
        save(&w.root, &["repo"], "start");
        (w, snaps)
    };
    // tokens: (text, which snapshot it denotes)
    let toks = |s: &[MSnap]| -> Vec<(String, Option<usize>)> {
        let id = |i: usize| id_str(&s[i].id);
        let mut v = vec![
            (id(0), Some(0)),
            (id(1), Some(1)),
            (id(2), Some(2)),
            (id(3), Some(3)),
            (id(1)[..20].to_string(), Some(1)),
            ("LAST".into(), Some(3)),
            ("HEAD~".into(), Some(2)),
            ("LAST~3".into(), Some(0)),
            ("LAST~4".into(), None),
            (id_str(&[7; 28]), None),
            ("vvvvvvvvv".into(), None),
            ("DUPLICATES".into(), None),
            ("".into(), None),
        ];
        // an id-like prefix no snapshot has
        v.retain(|t| t.0 != "vvvvvvvvv" || !s.iter().any(|x| id_str(&x.id).starts_with("vvvvvvvvv")));
        v
    };
    let n = {
        let (_, s) = make();
        toks(&s).len()
    };
    let mut lists: Vec<Vec<usize>> = (1..=3).flat_map(|k| assignments(n, k)).collect();
    if run().thorough {
        lists.extend(assignments(n, 4).into_iter().filter(|a| a.iter().collect::<BTreeSet<_>>().len() >= 3));
    }
    let chunks: Vec<&[Vec<usize>]> = lists.chunks(lists.len() / (4 * nthreads()) + 1).collect();
    par_map(&chunks, |_, c| {
        let (w, snaps) = make();
        let toks = toks(&snaps);
        for a in c.iter() {
            if run().stopped() {
                return;
            }
            restore(&w.root, &["repo"], "start");
            let args: Vec<&str> = a.iter().map(|i| toks[*i].0.as_str()).collect();
            if args == ["DUPLICATES"] {
                continue;
            }
            // flags and empty arguments reach the program as they are
            case(&w, format!("forget {:?}", a.iter().map(|i| if *i < 4 { format!("#{i}") } else if *i == 4 { "#1 by prefix".into() } else { toks[*i].0.clone() }).collect::<Vec<_>>()), |w| {
                run().state(fnv(&[&a.iter().map(|x| *x as u8).collect::<Vec<_>>()]));
                let before = scan(&w.repo());
                let mut av = vec!["forget"];
                av.extend(&args);
                let o = w.bp(&av);
                if o.panicked() || o.timed_out {
                    return Err(o.brief());
                }
                let bad = a.iter().any(|i| toks[*i].1.is_none());
                let gone: BTreeSet<usize> = if bad { BTreeSet::new() } else { a.iter().filter_map(|i| toks[*i].1).collect() };
                run().outcome(if bad { "refused" } else { "removed" });
                if o.ok() == bad {
                    return Err(format!("{}", if bad { "succeeds although a name denotes nothing".into() } else { format!("fails: {}", o.brief()) }));
                }
                let mut want = before.clone();
                for i in &gone {
                    want.remove(format!("snapshots/{}.snapshot", id_str(&snaps[*i].id)).as_bytes()).ok_or("model out of step")?;
                }
                exactly(&want, &scan(&w.repo()))?;
                cwd_clean(w, "cwd")
            });
        }
    });
}

/// Nothing else changed, not even a time (of files).
fn exactly(want: &Tree, got: &Tree) -> Result<(), String> {
    let keep = |t: &Tree| t.iter().map(|(k, e)| (k.clone(), if e.kind == Kind::Dir { Ent { mtime: 0, ..e.clone() } } else { e.clone() })).collect::<Tree>();
    match tree_diff(&keep(want), &keep(got), Cmp { mode: true, mtime: true }) {
        Some(d) => Err(format!("the repository is not as it should be: {d}")),
        None => Ok(()),
    }
}

fn duplicates() {
    let mut alpha: Vec<Kind_> = vec![];
    let k = |tree, author, tag, other, now| Kind_ { tree, author, tag, other, now };
    if run().thorough {
        for tree in [0, 1] {
            for author in ["me", "you"] {
                for tag in [None, Some("t")] {
                    for other in [false, true] {
                        alpha.push(k(tree, author, tag, other, 1));
                    }
                }
            }
        }
        alpha.push(k(0, "me", None, false, 0));
    } else {
        alpha = vec![k(0, "me", None, false, 1), k(0, "me", Some("t"), false, 1), k(0, "you", None, false, 1), k(0, "me", None, true, 1), k(1, "me", None, false, 1), k(1, "me", None, false, 0)];
    }
    let ops: Vec<String> = alpha.iter().map(|k| format!("{}{}{}{}{}", k.author, ["A", "B"][k.tree as usize], k.tag.unwrap_or(""), if k.other { " elsewhere" } else { "" }, if k.now == 0 { " at the same time" } else { "" })).collect();
    let depth = tier(4, if alpha.len() > 8 { 3 } else { 4 });
    let ex = Explorer {
        ops,
        depth,
        dirs: &["repo", "cwd"],
        setup: &|w, _| {
            w.init_pack_size("100MiB");
            for p in ["src", "else"] {
                std::fs::create_dir(w.p(p)).unwrap();
            }
        },
        apply: &|w, m, op| {
            let k = alpha[op];
            let n = d(&[("f", ft(if k.tree == 0 { b"a" } else { b"b" }, k.tree as i128))]);
            let at = if k.other { w.p("else/data") } else { w.p("src/data") };
            rebuild(&at, &n);
            let ats = at.to_string_lossy().into_owned();
            if k.now == 0 && !m.snaps.is_empty() {
                w.now.set(w.now.get() - 1);
            }
            let mut a = vec!["backup", "--allow-repeat", "-a", k.author];
            if let Some(t) = k.tag {
                a.extend(["-t", t]);
            }
            a.push(&ats);
            // two snapshots alike in everything, the time included, are one
            let _ = do_backup(w, "repo", &a, &mut m.snaps, &named_tree("data", &n), k.author, k.tag.as_slice(), &[&at])?;
            Ok(Step::Next)
        },
        check: &|w, m, _| {
            save(&w.root, &["repo"], "dups");
            let r = Repo::load(&w.repo());
            let mut keep: Vec<Id> = vec![];
            let mut last: Option<&Snap> = None;
            for s in r.chrono() {
                match last {
                    Some(l) if l.tree == s.tree && l.paths == s.paths && l.author == s.author && l.tags == s.tags => {}
                    _ => {
                        keep.push(s.id);
                        last = Some(s);
                    }
                }
            }
            let before = scan(&w.repo());
            let now = w.now.get();
            cmd_ok(w, "repo", &["forget", "DUPLICATES"])?;
            let by: BTreeMap<Id, &MSnap> = m.snaps.iter().map(|s| (s.id, s)).collect();
            let _ = by;
            let mut want = before.clone();
            for id in r.snaps.keys() {
                if !keep.contains(id) {
                    want.remove(format!("snapshots/{}.snapshot", id_str(id)).as_bytes());
                }
            }
            run().outcome(format!("{} of {} kept", keep.len(), r.snaps.len()));
            exactly(&want, &scan(&w.repo()))?;
            w.now.set(now);
            restore(&w.root, &["repo"], "dups");
            rm_rf(&w.p("save-dups"));
            Ok(())
        },
        key: &|w, m| repo_key(w, "repo", "cwd") ^ fnv(&[m.snaps.iter().map(|s| s.paths.iter().next().cloned().unwrap_or_default().contains("else") as u8).collect::<Vec<_>>().as_slice()]) ^ times(w),
    };
    ex.go();
}

/// Which snapshots share a time.
fn times(w: &World) -> u64 {
    let r = Repo::load(&w.repo());
    let c = r.chrono();
    let v: Vec<u8> = c.windows(2).map(|p| (p[0].time == p[1].time) as u8).collect();
    fnv(&[&v])
}
