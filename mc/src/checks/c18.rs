//! C18: a dry run changes nothing.
use super::c02::finished;
use super::c16::sane;
use super::tier;
use crate::cli::*;
use crate::explore::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use crate::zoo;
use std::path::Path;

/// Everything below the scratch directory but the program's own home.
fn all(w: &World) -> Tree {
    scan(&w.root).into_iter().filter(|(k, _)| !k.starts_with(b"home")).map(|(k, e)| if e.kind == Kind::Dir { (k, Ent { mtime: 0, ..e }) } else { (k, e) }).collect()
}

fn unchanged(w: &World, before: &Tree) -> Result<(), String> {
    let after = all(w);
    if *before == after {
        return Ok(());
    }
    Err(format!("it changed something: {}", tree_diff(before, &after, Cmp { mode: true, mtime: true }).unwrap_or("times".into())))
}

fn commands(ids: &[String]) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<&str>> = vec![
        vec!["backup", "-n", "-a", "me", "../src"],
        vec!["backup", "--dry-run", "--allow-repeat", "--allow-empty", "-s", "nothing", "../src", "../other"],
        vec!["copy", "-n", "-t", "../repo2", "--all"],
        vec!["copy", "-n", "-t", "../repo2", "-s", "/s", "--all"],
        vec!["prune", "-n"],
        vec!["rebuild-index", "-n"],
        vec!["forget", "-n", "DUPLICATES"],
    ];
    if let Some(l) = ids.last() {
        v.push(vec!["filter-snapshot", "-n", "-s", "/s", l]);
        v.push(vec!["filter-snapshot", "--dry-run", "-k", "-s", "/x$", "-s", "/w$", &ids[0]]);
        v.push(vec!["restore", "-n", "-d", "-t", "-p", "-o", "../dest", l]);
        v.push(vec!["restore", "-n", "-d", "-t", l]);
        v.push(vec!["restore", "-n", "-o", "../not-there", "LAST"]);
        let mut f = vec!["forget", "--dry-run"];
        f.extend(ids.iter().map(|s| s.as_str()));
        v.push(f);
        v.push(vec!["forget", "-n", "LAST"]);
    }
    v.iter().map(|a| a.iter().map(|s| s.to_string()).collect()).collect()
}

/// Things a dry run may be tempted by.
fn around(w: &World) {
    for p in ["other", "dest"] {
        rebuild(&w.p(p), &d(&[("x", f(b"not in any snapshot")), ("extra", f(b"extra")), ("s", fm(b"a file where a directory should be", 0o600, 7))]));
    }
}

fn dry(w: &World, what: &str, ids: &[String]) {
    for c in commands(ids) {
        if run().stopped() {
            return;
        }
        let before = all(w);
        let label: Vec<&str> = c.iter().map(|a| if ids.contains(a) { "ID" } else { a }).collect();
        case(w, format!("{what}: {}", label.join(" ")), |w| {
            let v: Vec<&str> = c.iter().map(|s| s.as_str()).collect();
            run().step();
            let o = w.bp(&v);
            sane(&o)?;
            run().outcome(format!("{} {}", c[0], if o.ok() { "would work" } else { "refused" }));
            unchanged(w, &before)
        });
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    // after completed commands
    let zs: Vec<usize> = (0..zoo::ZOO.len()).collect();
    par_map(&zs, |_, z| {
        let w = World::new();
        let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
        let snaps = match zoo::make(&w, *z) {
            Ok(s) if o.ok() => s,
            e => return run().violation(format!("setup {}", zoo::ZOO[*z].name), format!("{e:?}"), ""),
        };
        around(&w);
        for i in 0..3 {
            rebuild(&w.src(), &zoo::small(i));
            run().state(fnv(&[format!("zoo {z} {i}").as_bytes()]));
            dry(&w, &format!("{}, source {i}", zoo::ZOO[*z].name), &snaps.iter().map(|s| id_str(&s.id)).collect::<Vec<_>>());
        }
    });
    restores();
    // after interrupted ones
    for sc in &writers() {
        if run().stopped() {
            break;
        }
        for exdev in tier(&[false][..], &[false, true]) {
            let o = Opts { deviations: tier(0, 1), exdev: *exdev, bases: true, coarse: true, powerloss: tier(false, true), ..Opts::default() };
            let pool = Pool::new(sc, o.cores);
            all_crash_states(&pool, &o, &|s, r| finished(sc.name, s, r, true), &|p, c| {
                if !p.w.p("repo2").exists() {
                    init2(&p.w);
                    p.w.now.set(p.now);
                }
                let mine = c.files.0.contains_key("repo2".as_bytes());
                c.files.materialise(&p.w.root, &if mine { dirs() } else { vec!["repo".to_string(), "cwd".to_string()] });
                around(&p.w);
                let ids: Vec<String> = snapshot_ids(&p.w.repo()).iter().map(id_str).collect();
                dry(&p.w, &format!("{} {}", sc.name, c.what), &ids);
                for x in ["other", "dest"] {
                    rm_rf(&p.w.p(x));
                }
                if !p.f0.0.contains_key("repo2".as_bytes()) {
                    rm_rf(&p.w.p("repo2"));
                }
            });
        }
    }
    (
        "model_checking",
        "every dry-run command (backup, copy, prune, rebuild-index, filter-snapshot, forget, restore) in 17 repositories left by completed and interrupted commands and in every crash state of 14 scenarios (with their work-in-progress index, packs and temporary files), and dry restores of every kind of entry over every kind of entry with all flags: everything outside the program's home must be byte for byte, mode and time, as it was",
        true,
    )
}

fn dest_kinds(root: &Path) -> Vec<(&'static str, Option<N>)> {
    let mut v = kinds();
    v.push(("link to a directory outside", Some(l(root.join("outside/dir").to_str().unwrap()))));
    v.push(("link to a file outside", Some(l(root.join("outside/file").to_str().unwrap()))));
    v.push(("dir with more", Some(dm(&[("f", ft(b"old foxtrot", 9)), ("g", f(b"golf")), ("e", dm(&[("x", f(b"xray"))], 0o700, T0)), ("l", l("f"))], 0o777, T0 + 1))));
    v
}

fn restores() {
    let n = kinds().len();
    let all_kinds: Vec<usize> = (0..n).collect();
    par_map(&all_kinds, |_, k| {
        let w = World::new();
        w.init_pack_size("100MiB");
        let src = w.src();
        let t = dir_of(vec![("x".into(), kinds()[*k].1.clone()), ("same".into(), Some(f(b"same")))]);
        build(&src, &t);
        build(&w.p("outside"), &d(&[("dir", dm(&[("f", f(b"do not touch")), ("e", dm(&[("z", f(b"z"))], 0o750, T0))], 0o751, T0 + 5)), ("file", f(b"alpha"))]));
        let o = w.bp(&["backup", "--allow-empty", "../src"]);
        if !o.ok() {
            return run().violation("setup restore", o.brief(), "");
        }
        for (j, (name, to)) in dest_kinds(&w.root).into_iter().enumerate() {
            rebuild(&w.p("dest"), &dir_of(vec![("x".into(), to.clone()), ("same".into(), Some(ft(b"same", 5)))]));
            rebuild(&src, &dir_of(vec![("x".into(), to), ("extra".into(), Some(f(b"e")))]));
            let before = all(&w);
            run().state(fnv(&[b"restore", &[*k as u8, j as u8]]));
            for b in 0..16 {
                if run().stopped() {
                    return;
                }
                let mut a = vec!["restore", "-n"];
                for (i, fl) in ["-d", "-t", "-p"].iter().enumerate() {
                    if b >> i & 1 == 1 {
                        a.push(fl);
                    }
                }
                if b & 8 == 0 {
                    a.extend(["-o", "../dest"]);
                }
                a.push("LAST");
                case(&w, format!("{} over {name}: {}", kinds()[*k].0, a.join(" ")), |w| {
                    run().step();
                    let o = w.bp(&a);
                    sane(&o)?;
                    run().outcome(format!("restore {}", if o.ok() { "would work" } else { "refused" }));
                    unchanged(w, &before)
                });
            }
        }
    });
}
