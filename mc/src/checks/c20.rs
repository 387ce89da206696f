//! C20: diff prints exactly the differences.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::repo::*;
use crate::util::*;
use crate::view::*;
use std::path::Path;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let parts: [fn(); 5] = [forest, one_by_one, metadata, file_system, path_sets];
    par_map(&parts, |_, f| f());
    (
        "model_checking",
        "every ordered pair of 20 kinds of entry (together in one forest, and each pair alone at two depths), every ordered pair of metadata variations (owner, group, mode, times), every pair of path sets, and every pair (snapshot, file system state), with and without metadata: the lines printed by the real program must be exactly those computed from the independently decoded trees",
        true,
    )
}

fn snap(w: &World, args: &[&str]) -> Result<(), String> {
    let mut a = vec!["backup", "--allow-empty", "--allow-repeat", "-a", "me"];
    a.extend(args);
    let o = w.bp(&a);
    if o.ok() {
        Ok(())
    } else {
        Err(format!("backup: {}", o.brief()))
    }
}

/// The diffs between two decoded snapshots, both flags.
fn check_pair(w: &World, r: &Repo, a: &Snap, b: &Snap) -> Result<(), String> {
    let (va, vb) = (view(r, a)?, view(r, b)?);
    for meta in [false, true] {
        let (ia, ib) = (id_str(&a.id), id_str(&b.id));
        let mut args = vec!["diff"];
        if meta {
            args.push("-m");
        }
        args.extend([ia.as_str(), ib.as_str()]);
        run().step();
        let o = w.bp(&args);
        if !o.ok() {
            return Err(format!("diff: {}", o.brief()));
        }
        let want = diff_lines(&va, &vb, meta, false);
        run().outcome(if want.is_empty() { "empty report" } else { "differences" });
        match_diff(&want, &o.out).map_err(|e| format!("diff{}: {e}", if meta { " -m" } else { "" }))?;
    }
    Ok(())
}

fn check_fs(w: &World, r: &Repo, a: &Snap, fs: &View) -> Result<(), String> {
    let va = view(r, a)?;
    for meta in [false, true] {
        let ia = id_str(&a.id);
        let mut args = vec!["diff", &ia];
        if meta {
            args.push("--metadata");
        }
        run().step();
        let o = w.bp(&args);
        if !o.ok() {
            return Err(format!("diff with the file system: {}", o.brief()));
        }
        let want = diff_lines(&va, fs, meta, true);
        run().outcome(if want.is_empty() { "empty report" } else { "differences" });
        match_diff(&want, &o.out).map_err(|e| format!("diff{} with the file system: {e}", if meta { " -m" } else { "" }))?;
    }
    Ok(())
}

fn now(w: &World) -> View {
    let mut v = View::new();
    fs_view(&w.src(), "src", &mut v);
    v
}

fn forest() {
    let ks = kinds();
    let w = World::new();
    case(&w, "all pairs of kinds in one tree", |w| {
        w.init_pack_size("100MiB");
        rebuild(&w.src(), &pair_forest(&ks, 0));
        snap(w, &["../src"])?;
        rebuild(&w.src(), &pair_forest(&ks, 1));
        let f1 = now(w);
        let r = Repo::load(&w.repo());
        check_fs(w, &r, r.chrono()[0], &f1)?;
        snap(w, &["../src"])?;
        let r = Repo::load(&w.repo());
        let c = r.chrono();
        for (a, b) in [(0, 1), (1, 0), (0, 0), (1, 1)] {
            check_pair(w, &r, c[a], c[b])?;
            run().state(fnv(&[b"forest", &[a as u8, b as u8]]));
        }
        rebuild(&w.src(), &pair_forest(&ks, 0));
        let f0 = now(w);
        check_fs(w, &r, c[1], &f0)?;
        check_fs(w, &r, c[0], &f0)
    });
}

/// One snapshot per tree, then every ordered pair of them.
fn all_pairs(what: &str, make: &(dyn Fn(&World) -> Result<(), String> + Sync)) {
    let workers: Vec<usize> = (0..nthreads()).collect();
    par_map(&workers, |_, me| {
        let w = World::new();
        w.init_pack_size("100MiB");
        if let Err(e) = make(&w) {
            run().violation(format!("{what}: setup"), e, w.history());
            return;
        }
        let r = Repo::load(&w.repo());
        let c = r.chrono();
        for i in 0..c.len() {
            for j in 0..c.len() {
                if (i * c.len() + j) % workers.len() == *me && !run().stopped() {
                    run().state(fnv(&[what.as_bytes(), &[i as u8, j as u8]]));
                    case(&w, format!("{what} #{i} against #{j}"), |w| check_pair(w, &r, c[i], c[j]));
                }
            }
        }
    });
}

fn one_by_one() {
    let ks = kinds();
    all_pairs("one entry", &|w| {
        for k in &ks {
            rebuild(&w.src(), &dir_of(vec![("a".into(), k.1.clone()), ("keep".into(), Some(f(b"same")))]));
            snap(w, &["../src"])?;
        }
        Ok(())
    });
    if run().thorough {
        all_pairs("one entry further down, two in all", &|w| {
            for (i, k) in ks.iter().enumerate() {
                let j = (i * 7 + 3) % ks.len();
                rebuild(&w.src(), &dir_of(vec![("s".into(), Some(d(&[("t", dir_of(vec![("b".into(), k.1.clone())]))]))), ("z".into(), ks[j].1.clone())]));
                snap(w, &["../src"])?;
            }
            Ok(())
        });
    }
}

fn tweak(p: &Path, bits: u32) {
    use std::os::unix::fs::{MetadataExt, PermissionsExt};
    let m = std::fs::symlink_metadata(p).unwrap();
    let c = cpath(p);
    unsafe {
        let keep = u32::MAX;
        assert_eq!(libc::lchown(c.as_ptr(), if bits & 1 != 0 { 1000 } else { keep }, if bits & 2 != 0 { 1001 } else { keep }), 0);
    }
    if !m.file_type().is_symlink() {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(if bits & 4 != 0 { 0o700 } else { 0o755 })).unwrap();
    }
    let ts = [
        libc::timespec { tv_sec: PIN_ATIME + if bits & 8 != 0 { 5 } else { 0 }, tv_nsec: 0 },
        libc::timespec { tv_sec: m.mtime(), tv_nsec: if bits & 16 != 0 { 1 } else { 0 } },
    ];
    unsafe { assert_eq!(libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), libc::AT_SYMLINK_NOFOLLOW), 0) };
}

fn metadata() {
    all_pairs("metadata", &|w| {
        for bits in 0..tier(32u32, 32) {
            rebuild(&w.src(), &d(&[("f", f(b"x")), ("d", d(&[("in", f(b"in"))])), ("l", l("f")), ("e", d(&[]))]));
            for n in ["f", "d", "d/in", "l", "e"] {
                tweak(&w.src().join(n), bits);
            }
            tweak(&w.src(), bits);
            snap(w, &["../src"])?;
        }
        Ok(())
    });
}

fn file_system() {
    let ks = kinds();
    let idx: Vec<usize> = (0..ks.len()).collect();
    par_map(&idx, |_, i| {
        let w = World::new();
        w.init_pack_size("100MiB");
        let tree = |j: usize| dir_of(vec![("a".into(), ks[j].1.clone()), ("s".into(), Some(dir_of(vec![("b".into(), ks[(j + 5) % ks.len()].1.clone())])))]);
        rebuild(&w.src(), &tree(*i));
        if let Err(e) = snap(&w, &["../src"]) {
            run().violation(format!("file system #{i}: setup"), e, w.history());
            return;
        }
        let r = Repo::load(&w.repo());
        let before = scan(&w.repo());
        for j in 0..ks.len() {
            rebuild(&w.src(), &tree(j));
            let v = now(&w);
            run().state(fnv(&[b"fs", &[*i as u8, j as u8]]));
            case(&w, format!("snapshot of {} against {} on disk", ks[*i].0, ks[j].0), |w| {
                check_fs(w, &r, r.chrono()[0], &v)?;
                if now(w) != v {
                    return Err("diff changed the source".into());
                }
                Ok(())
            });
        }
        if scan(&w.repo()) != before {
            run().violation("diff changed the repository", "diff changed the repository", w.history());
        }
    });
}

fn path_sets() {
    all_pairs("path sets", &|w| {
        for (n, t) in [("one", d(&[("f", f(b"1"))])), ("two", f(b"2")), ("three", d(&[]))] {
            build(&w.p(n), &t);
        }
        std::fs::create_dir(w.p("else")).unwrap();
        build(&w.p("else/one"), &d(&[("f", f(b"other")), ("g", l("f"))]));
        for set in [&["../one"][..], &["../two"], &["../three"], &["../one", "../two"], &["../one", "../three"], &["../one", "../two", "../three"], &["../else/one"], &["../else/one", "../two"]] {
            snap(w, set)?;
        }
        Ok(())
    });
}
