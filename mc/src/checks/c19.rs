//! C19: restoring over something.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeSet;
use std::path::Path;

#[derive(Clone, Copy)]
struct Fl {
    delete: bool,
    times: bool,
    perms: bool,
}

fn flags() -> Vec<Fl> {
    (0..8u8).map(|b| Fl { delete: b & 1 != 0, times: b & 2 != 0, perms: b & 4 != 0 }).collect()
}
impl Fl {
    fn args(&self) -> Vec<&'static str> {
        let mut v = vec![];
        if self.delete {
            v.push("-d");
        }
        if self.times {
            v.push("--times");
        }
        if self.perms {
            v.push("-p");
        }
        v
    }
}

/// What an entry must be afterwards.
struct Want {
    kinds: Vec<Kind>,
    mode: Option<u32>,
    mtime: Option<i128>,
}

/// The destination `d` after the snapshot `s` was restored over it.
fn merge(d: &Tree, s: &Tree, fl: Fl) -> Vec<(Vec<u8>, Want)> {
    let mut out = vec![];
    let keys: BTreeSet<&Vec<u8>> = d.keys().chain(s.keys()).collect();
    let mut kept: Option<Vec<u8>> = None; // a directory that stays although the snapshot has something else
    for k in keys {
        let under = |p: &Vec<u8>| k.len() > p.len() && k.starts_with(p) && k[p.len()] == b'/';
        let same = |e: &Ent| Want { kinds: vec![e.kind.clone()], mode: Some(e.mode), mtime: if e.kind == Kind::Dir { None } else { Some(e.mtime) } };
        match (d.get(k), s.get(k)) {
            (Some(de), None) => {
                if kept.as_ref().map(under).unwrap_or(false) || !fl.delete {
                    out.push((k.clone(), same(de)));
                }
            }
            (None, Some(se)) => out.push((k.clone(), Want { kinds: vec![se.kind.clone()], mode: fl.perms.then_some(se.mode), mtime: fl.times.then_some(se.mtime) })),
            (Some(de), Some(se)) => {
                let mode = if fl.perms { Some(se.mode) } else { Some(de.mode) };
                let mtime = fl.times.then_some(se.mtime);
                match (&de.kind, &se.kind) {
                    (Kind::Dir, Kind::Dir) => out.push((k.clone(), Want { kinds: vec![Kind::Dir], mode, mtime })),
                    (Kind::Dir, _) if !fl.delete => {
                        kept = Some(k.clone());
                        out.push((k.clone(), same(de)));
                    }
                    (Kind::File(a), Kind::File(b)) => {
                        let mut kinds = vec![se.kind.clone()];
                        let taken = a.len() == b.len() && de.mtime == se.mtime;
                        if taken && a != b {
                            kinds.push(de.kind.clone());
                        }
                        let untouched = a == b;
                        out.push((k.clone(), Want { kinds, mode, mtime: if untouched && !fl.times { Some(de.mtime) } else { mtime } }));
                    }
                    (Kind::Link(a), Kind::Link(b)) if a == b => out.push((k.clone(), Want { kinds: vec![se.kind.clone()], mode: None, mtime: None })),
                    // replaced
                    _ => out.push((k.clone(), Want { kinds: vec![se.kind.clone()], mode: fl.perms.then_some(se.mode), mtime: fl.times.then_some(se.mtime) })),
                }
            }
            _ => unreachable!(),
        }
    }
    out
}

fn judge(want: &[(Vec<u8>, Want)], got: &Tree) -> Result<(), String> {
    for (k, w) in want {
        let n = String::from_utf8_lossy(k);
        let Some(g) = got.get(k) else { return Err(format!("{n} is missing")) };
        if !w.kinds.contains(&g.kind) {
            return Err(format!("{n} is {}, want {}", g.short(), Ent { kind: w.kinds[0].clone(), mode: 0, mtime: 0 }.short()));
        }
        if matches!(g.kind, Kind::Link(_)) {
            continue;
        }
        if let Some(m) = w.mode {
            if m != g.mode {
                return Err(format!("{n} has mode {:o}, want {m:o}", g.mode));
            }
        }
        if let Some(t) = w.mtime {
            if t != g.mtime {
                return Err(format!("{n} has mtime {}, want {t}", g.mtime));
            }
        }
    }
    let keys: BTreeSet<&Vec<u8>> = want.iter().map(|w| &w.0).collect();
    match got.iter().find(|(k, _)| !keys.contains(k)) {
        Some((k, e)) => Err(format!("{} ({}) should not be there", String::from_utf8_lossy(k), e.short())),
        None => Ok(()),
    }
}

/// Kinds of entries on either side: those of the generator, and links that lead out of the destination from where the cases put them.
fn both() -> Vec<(&'static str, Option<N>)> {
    let mut v = kinds();
    v.push(("link two up", Some(l("../../outside/file"))));
    v.push(("link three up", Some(l("../../../outside/file"))));
    v
}

/// Destination-only kinds: links out of the destination. `root` is the world's scratch directory.
fn dest_kinds(root: &Path) -> Vec<(&'static str, Option<N>)> {
    let mut v = both();
    v.push(("link to a directory outside", Some(l(root.join("outside/dir").to_str().unwrap()))));
    v.push(("link to a file outside", Some(l(root.join("outside/file").to_str().unwrap()))));
    v.push(("dir with more", Some(dm(&[("f", ft(b"old foxtrot", 9)), ("g", f(b"golf")), ("e", dm(&[("x", f(b"xray"))], 0o700, T0)), ("l", l("f"))], 0o777, T0 + 1))));
    v.push(("other content, same size and time", Some(f(b"ALPHA"))));
    v
}

fn outside() -> N {
    d(&[("dir", dm(&[("f", f(b"do not touch")), ("e", dm(&[("z", f(b"z"))], 0o750, T0))], 0o751, T0 + 5)), ("file", ft(b"alpha", 77))])
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let parts: [fn(); 5] = [pairs, forests, top_level, several, special];
    for f in parts {
        if !run().stopped() {
            f();
        }
    }
    (
        "model_checking",
        "every pair (26 kinds of existing entry, 22 kinds of snapshot entry), alone and all in one tree, under all 8 combinations of the flags, into another directory and in place, at the top level and below, for single- and multi-path snapshots: the resulting tree, and everything beside it, must be what the merge rules give",
        true,
    )
}

/// World with `outside`, `beside` and the snapshot of `src` (then removed).
fn world(srcs: &[(&str, &N)]) -> Result<World, String> {
    let w = World::new();
    w.init_pack_size("100MiB");
    build(&w.p("outside"), &outside());
    std::fs::create_dir(w.p("base")).unwrap();
    build(&w.p("base/beside"), &d(&[("f", f(b"beside"))]));
    let mut a = vec!["backup".to_string(), "--allow-empty".into()];
    for (n, t) in srcs {
        build(&w.p("base").join(n), t);
        a.push(format!("../base/{n}"));
    }
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let o = w.bp(&a);
    for (n, _) in srcs {
        rm_rf(&w.p("base").join(n));
    }
    if o.ok() {
        Ok(w)
    } else {
        Err(format!("backup: {}", o.brief()))
    }
}

/// Restores over `dest` (name -> entry below `at`) and compares everything below the world.
fn over(w: &World, at: &str, dest: &Tree, snap: &Tree, fl: Fl, to: Option<&str>) -> Result<(), String> {
    let guard = |w: &World| -> (Tree, Tree, Tree) {
        (scan_named(&w.p("outside"), "outside"), scan_named(&w.p("base/beside"), "beside"), scan(&w.repo()))
    };
    let before = guard(w);
    let mut a = vec!["restore"];
    a.extend(fl.args());
    if let Some(t) = to {
        a.extend(["-o", t]);
    }
    a.push("LAST");
    run().step();
    let now = w.now.get();
    let o = w.bp(&a);
    w.now.set(now);
    if !o.ok() {
        return Err(format!("restore {:?}: {}", fl.args(), o.brief()));
    }
    let mut got = scan(&w.p(at));
    // what lies beside a restored path is judged below
    got.retain(|k, _| !(k == b"beside" || k.starts_with(b"beside/")));
    judge(&merge(dest, snap, fl), &got).map_err(|e| format!("restore {:?}: {e}", fl.args()))?;
    let after = guard(w);
    for (what, b, a) in [("outside the destination", &before.0, &after.0), ("beside the restored path", &before.1, &after.1), ("in the repository", &before.2, &after.2)] {
        if let Some(d) = tree_diff(b, a, Cmp { mode: true, mtime: true }) {
            return Err(format!("restore {:?} changed something {what}: {d}", fl.args()));
        }
    }
    run().outcome("as expected");
    Ok(())
}

/// Gives the links below `p` times that no snapshot has.
fn touch_links(p: &Path) {
    let Ok(m) = std::fs::symlink_metadata(p) else { return };
    if m.file_type().is_symlink() {
        set_times(p, T0 + 123_000_000_000);
    } else if m.is_dir() {
        std::fs::read_dir(p).unwrap().flatten().for_each(|e| touch_links(&e.path()));
    }
}

fn put(base: &Path, t: &N) -> Tree {
    rm_rf(base);
    build(base, t);
    touch_links(base);
    scan(base)
}

/// Each pair alone, one level down.
fn pairs() {
    let ks = both();
    let idx: Vec<usize> = (0..ks.len()).collect();
    par_map(&idx, |_, j| {
        let tree = dir_of(vec![("s".into(), Some(dir_of(vec![("a".into(), ks[*j].1.clone()), ("k".into(), Some(f(b"kept")))])))]);
        let w = match world(&[("src", &tree)]) {
            Ok(w) => w,
            Err(e) => return run().violation("pairs: setup", e, ""),
        };
        let snap = tree_of(&tree);
        let fls: Vec<Fl> = flags();
        for (i, dk) in dest_kinds(&w.root).iter().enumerate() {
            let dest = dm(&[("s", dir_of(vec![("a".into(), dk.1.clone()), ("own".into(), Some(fm(b"mine", 0o610, T0 + 99)))])), ("z", f(b"zulu"))], 0o711, T0 + 42);
            for (n, fl) in fls.iter().enumerate() {
                if run().stopped() {
                    return;
                }
                run().state(fnv(&[b"pair", &[i as u8, *j as u8, n as u8]]));
                case(&w, format!("{} over {}, flags {:?}", ks[*j].0, dk.0, fl.args()), |w| {
                    put(&w.p("out"), &dest);
                    let d = scan(&w.p("out"));
                    over(w, "out", &d, &snap, *fl, Some("../out"))
                });
            }
        }
    });
}

/// All pairs in one tree, elsewhere and in place; the directory itself included.
fn forests() {
    let ks = both();
    let nk = dest_kinds(Path::new("/")).len();
    let name = |i: usize, j: usize| format!("{i:02}-{j:02}");
    let snap_n = dm(&[("all", N::D((0..nk).flat_map(|i| (0..ks.len()).map(move |j| (i, j))).filter_map(|(i, j)| ks[j].1.clone().map(|n| (name(i, j), n))).collect(), 0o710, T0 + 8))], 0o705, T0 + 7);
    let jobs: Vec<(Fl, bool)> = flags().into_iter().flat_map(|f| [(f, false), (f, true)]).collect();
    par_map(&jobs, |_, (fl, in_place)| {
        let w = match world(&[("src", &snap_n)]) {
            Ok(w) => w,
            Err(e) => return run().violation("forest: setup", e, ""),
        };
        let dk = dest_kinds(&w.root);
        let dest_n = d(&[("all", N::D((0..nk).flat_map(|i| (0..ks.len()).map(move |j| (i, j))).filter_map(|(i, j)| dk[i].1.clone().map(|n| (name(i, j), n))).collect(), 0o755, T0))]);
        run().state(fnv(&[b"forest", &[fl.delete as u8, fl.times as u8, fl.perms as u8, *in_place as u8]]));
        case(&w, format!("all pairs together, flags {:?}{}", fl.args(), if *in_place { ", in place" } else { "" }), |w| {
            let at = if *in_place { "base" } else { "holder" };
            if !*in_place {
                fresh(&w.p("holder"));
            }
            build(&w.p(at).join("src"), &dest_n);
            touch_links(&w.p(at).join("src"));
            let mut d = scan(&w.p(at));
            d.retain(|k, _| !k.starts_with(b"beside"));
            over(w, at, &d, &named_tree("src", &snap_n), *fl, (!*in_place).then_some("../holder/src"))
        });
    });
}

/// The backed-up path itself was replaced by something else (in place).
fn top_level() {
    let ks = both();
    let idx: Vec<usize> = (0..ks.len()).collect();
    par_map(&idx, |_, j| {
        let Some(n) = &ks[*j].1 else { return };
        let w = match world(&[("src", n)]) {
            Ok(w) => w,
            // a link as the path itself: resolved or refused, not our matter
            Err(_) => return run().outcome("path cannot be backed up"),
        };
        let r = Repo::load(&w.repo());
        let snap = r.chrono()[0].clone();
        if snap.paths.iter().next() != Some(&w.p("base/src").to_string_lossy().into_owned()) {
            return run().outcome("path resolved");
        }
        for (i, dk) in dest_kinds(&w.root).iter().enumerate() {
            for (n_, fl) in flags().iter().enumerate() {
                if (!run().thorough && n_ != 0 && n_ != 7 && n_ != 1) || run().stopped() {
                    continue;
                }
                run().state(fnv(&[b"top", &[i as u8, *j as u8, n_ as u8]]));
                case(&w, format!("{} over {} as the path itself, flags {:?}", ks[*j].0, dk.0, fl.args()), |w| {
                    rm_rf(&w.p("base/src"));
                    if let Some(x) = &dk.1 {
                        build(&w.p("base/src"), x);
                        touch_links(&w.p("base/src"));
                    }
                    let mut d = scan(&w.p("base"));
                    d.retain(|k, _| !k.starts_with(b"beside"));
                    over(w, "base", &d, &named_tree("src", n), *fl, None)
                });
            }
        }
    });
}

/// A snapshot of several paths below an output directory that holds other things.
fn several() {
    let one = dm(&[("f", f(b"1")), ("d", d(&[("x", f(b"x"))]))], 0o700, T0 + 3);
    let two = f(b"two");
    let jobs: Vec<usize> = (0..dest_kinds(Path::new("/")).len()).collect();
    par_map(&jobs, |_, i| {
        let w = match world(&[("one", &one), ("two", &two)]) {
            Ok(w) => w,
            Err(e) => return run().violation("several: setup", e, ""),
        };
        let dk = dest_kinds(&w.root);
        let mut snap = named_tree("one", &one);
        snap.extend(named_tree("two", &two));
        for j in 0..tier(dk.len(), dk.len()) {
            for (n, fl) in flags().iter().enumerate() {
                if (!run().thorough && n % 7 != 0) || run().stopped() {
                    continue;
                }
                for in_place in [false, true] {
                    run().state(fnv(&[b"several", &[*i as u8, j as u8, n as u8, in_place as u8]]));
                    case(&w, format!("two paths over {} and {}, flags {:?}{}", dk[*i].0, dk[j].0, fl.args(), if in_place { ", in place" } else { "" }), |w| {
                        let at = if in_place { "base" } else { "out" };
                        if in_place {
                            rm_rf(&w.p("base/one"));
                            rm_rf(&w.p("base/two"));
                        } else {
                            fresh(&w.p("out"));
                            // never asked for: stays, even with --delete
                            build(&w.p("out/beside"), &d(&[("f", f(b"stays"))]));
                        }
                        for (name, k) in [("one", &dk[*i].1), ("two", &dk[j].1)] {
                            if let Some(x) = k {
                                build(&w.p(at).join(name), x);
                            }
                        }
                        let mut d = scan(&w.p(at));
                        d.retain(|k, _| !k.starts_with(b"beside"));
                        let own = scan_named(&w.p(at).join("beside"), "beside");
                        over(w, at, &d, &snap, *fl, (!in_place).then_some("../out"))?;
                        match tree_diff(&own, &scan_named(&w.p(at).join("beside"), "beside"), Cmp { mode: true, mtime: true }) {
                            Some(d) => Err(format!("something beside the restored paths changed: {d}")),
                            None => Ok(()),
                        }
                    });
                }
            }
        }
    });
}

/// Special files where the snapshot has something: never written through, never a hang.
fn special() {
    let jobs: Vec<(usize, Fl)> = both().iter().enumerate().flat_map(|(j, _)| flags().into_iter().map(move |f| (j, f))).collect();
    let ks = both();
    par_map(&jobs, |_, (j, fl)| {
        if !run().thorough && (fl.times || fl.perms) {
            return;
        }
        let tree = dir_of(vec![("a".into(), ks[*j].1.clone()), ("k".into(), Some(f(b"kept")))]);
        let mut w = match world(&[("src", &tree)]) {
            Ok(w) => w,
            Err(e) => return run().violation("special: setup", e, ""),
        };
        w.timeout = std::time::Duration::from_secs(15);
        case(&w, format!("{} over a named pipe, flags {:?}", ks[*j].0, fl.args()), |w| {
            fresh(&w.p("out"));
            let p = w.p("out/a");
            unsafe { assert_eq!(libc::mkfifo(cpath(&p).as_ptr(), 0o644), 0) };
            let mut a = vec!["restore"];
            a.extend(fl.args());
            a.extend(["-o", "../out", "LAST"]);
            run().step();
            let o = w.bp(&a);
            run().outcome(if o.ok() { "special file: done" } else { "special file: refused" });
            if o.timed_out || o.panicked() {
                return Err(o.brief());
            }
            let g = ent(&p);
            let still = matches!(&g, Some(Ent { kind: Kind::Other(_), .. }));
            match (&ks[*j].1, o.ok()) {
                (Some(n), true) => {
                    let want = named_tree("a", n);
                    let got = scan_named(&p, "a");
                    match tree_diff(&want, &got, Cmp::default()) {
                        Some(d) => Err(format!("reports success but {d}")),
                        None => Ok(()),
                    }
                }
                (None, true) if !still && !fl.delete => Err("the pipe is gone".into()),
                _ => Ok(()),
            }
        });
    });
}
