//! C24: any single failing file operation (and everything failing from some point on).
use super::tier;
use crate::cli::*;
use crate::e1::*;
use crate::explore::*;
use crate::gen::fresh;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

/// Scenarios whose command also reads the source or writes elsewhere.
fn scens() -> Vec<Scen> {
    let mut v = writers();
    v.push(reading("check", &["check"]));
    v.push(reading("check -r", &["check", "-r"]));
    v.push(reading("ls", &["ls", "LAST~1"]));
    v.push(reading("dump", &["dump", "LAST", "src/w"]));
    v.push(reading("dump to a file", &["dump", "-o", "../out/f", "LAST", "src/s/b"]));
    v.push(reading("diff", &["diff", "LAST~2", "LAST"]));
    v.push(reading("diff with the source", &["diff", "-m", "LAST~1"]));
    v.push(reading("usage", &["usage"]));
    v.push(reading("snapshots", &["snapshots", "--sizes", "--stat"]));
    v.push(reading("restore", &["restore", "-t", "-p", "-o", "../out", "LAST"]));
    v.push(reading("restore over another", &["restore", "--delete", "-t", "-p", "-o", "../out", "LAST~1"]));
    v.push(reading("prune -n", &["prune", "-n"]));
    v
}

fn traced(sc: &Scen) -> Vec<String> {
    let mut d = dirs();
    d.push("out".into());
    if !sc.name.contains("prune") && !sc.name.contains("copy") {
        d.push("src".into());
    }
    d
}

/// What can go wrong with this operation.
fn faults(op: &Op) -> Vec<Inject> {
    use Inject::*;
    let all: Vec<Inject> = match op.name {
        "write" | "pwrite" | "writev" | "pwritev" => vec![Errno(libc::ENOSPC), Errno(libc::EIO), Errno(libc::EINTR), Short],
        "copy_file_range" | "sendfile" | "splice" => vec![Errno(libc::ENOSPC), Errno(libc::EIO), Errno(libc::EINTR), Short],
        "open" => vec![Errno(libc::EIO), Errno(libc::EACCES), Errno(libc::EMFILE), Errno(libc::EINTR)],
        "read" | "pread" => vec![Errno(libc::EIO), Errno(libc::EINTR), Short],
        "fsync" | "fdatasync" => vec![Errno(libc::EIO), Errno(libc::ENOSPC)],
        "rename" | "renameat" | "renameat2" | "link" | "linkat" => vec![Errno(libc::EIO), Errno(libc::ENOSPC), Errno(libc::EACCES)],
        "unlink" | "unlinkat" | "rmdir" => vec![Errno(libc::EIO), Errno(libc::EACCES)],
        "mkdir" | "mkdirat" | "symlink" | "symlinkat" => vec![Errno(libc::ENOSPC), Errno(libc::EACCES)],
        "chmod" | "fchmod" | "fchmodat" | "utimensat" => vec![Errno(libc::EPERM), Errno(libc::EIO)],
        "mmap" => vec![Errno(libc::ENOMEM)],
        "lock" => vec![],
        _ => vec![Errno(libc::EIO)],
    };
    all
}

/// Runs with the source and the output directory traced too.
fn go(p: &Prep, sc: &Scen, inject: Vec<(usize, Inject)>, reads: bool) -> Result<Res, String> {
    prepare_out(p, sc);
    let args: Vec<&str> = p.st.cmd.iter().map(|s| s.as_str()).collect();
    p.w.now.set(p.now + 1);
    execute(Spec { cmds: vec![p.w.command(&args, &p.w.repo())], cwds: vec![p.w.cwd()], root: p.w.root.clone(), dirs: traced(sc), sched: Sched::low(), reads, inject, observe: None, at: None, max_points: 60_000, exdev: false })
}

fn prepare_out(p: &Prep, sc: &Scen) {
    fresh(&p.w.p("out"));
    if sc.name.contains("over another") {
        build(&p.w.p("out/x"), &d(&[("was", f(b"a directory"))]));
        build(&p.w.p("out/s"), &d(&[("y", f(b"other")), ("more", f(b"to go"))]));
        build(&p.w.p("out/t"), &f(b"a file"));
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let picked = std::env::var("MC_ONLY").ok();
    for sc in scens() {
        if run().stopped() {
            break;
        }
        if picked.as_ref().is_some_and(|p| p != sc.name) {
            continue;
        }
        one(&sc);
    }
    run().assume("operations outside the repositories, the working directory, the source and the destination do not fail");
    (
        "model_checking",
        "every command under a serialising scheduler, each of its file operations (on the repositories, the working directory, the source and the destination; reads included) failing in turn with every applicable error or transferring only a part, and every modification failing from each point on; exit status against the result, earlier snapshots, and the same command again without the fault",
        true,
    )
}

/// What a reading command left behind and said.
fn reading_result(p: &Prep, o: &Out) -> (String, Tree) {
    // progress and log lines aside
    let text: Vec<&str> = o.out.lines().filter(|l| !l.trim_start().starts_with("INFO") && !l.trim_start().starts_with("WARN") && !l.trim_start().starts_with("DEBUG")).collect();
    let t = if p.w.p("out").exists() { scan(&p.w.p("out")) } else { Tree::new() };
    (text.join("\n").replace(p.w.root.to_str().unwrap(), "ROOT"), t)
}

fn one(sc: &Scen) {
    let pool = Pool::new(sc, 1);
    // the operations, and the right result
    let base = pool.with(|p| {
        let r = go(p, sc, vec![], true);
        if !super::c02::finished(sc.name, &Sched::low(), &r, true) {
            return None;
        }
        Some(r.unwrap().ops)
    });
    let Some(ops) = base else { return };
    // what each world's command says when nothing fails (names of snapshots differ between worlds)
    let wants: Mutex<BTreeMap<std::path::PathBuf, (String, Tree)>> = Default::default();
    let mut tasks: Vec<(usize, Vec<(usize, Inject)>, String, bool)> = vec![];
    let mut last: BTreeMap<(&str, String), usize> = BTreeMap::new();
    for (k, op) in ops.iter().enumerate() {
        // in the quick tier, runs of the same operation on one file fail alike: the first, second and last
        let key = (op.name, normalise(&op.path));
        let n = last.entry(key.clone()).or_insert(0);
        *n += 1;
        let again = ops[k + 1..].iter().any(|o| o.name == op.name && normalise(&o.path) == key.1);
        let fs = faults(op);
        for (i, f) in fs.iter().enumerate() {
            if tier(true, false) && (*n > 2 && again || i > 0 && *f != Inject::Short && (k + i) % 3 != 0) {
                continue;
            }
            tasks.push((k, vec![(k, *f)], format!("operation {k} {} {f:?}", op.text()), true));
        }
    }
    // from some modification on, nothing can be modified
    let muts = ops.iter().filter(|o| is_mutation(o.name)).count();
    for k in 0..muts {
        if tier(k % 3 == 0, true) {
            for e in tier(vec![libc::ENOSPC], vec![libc::ENOSPC, libc::EIO, libc::EROFS]) {
                tasks.push((k, (k..k + 400).map(|x| (x, Inject::Errno(e))).collect(), format!("every modification from number {k} on fails with {e}"), false));
            }
        }
    }
    run().note(&format!("file operations of {}", sc.name), ops.len());
    let done: Mutex<BTreeSet<String>> = Default::default();
    par_map(&tasks, |_, (_, inj, what, reads)| {
        if run().stopped() {
            return;
        }
        pool.with(|p| {
            let known = wants.lock().unwrap().get(&p.w.root).cloned();
            let want = match known {
                Some(w) => w,
                None if sc.kind != "read" => Default::default(),
                None => {
                    let r = go(p, sc, vec![], true);
                    if !super::c02::finished(sc.name, &Sched::low(), &r, true) {
                        return;
                    }
                    let want = reading_result(p, &r.unwrap().outs[0]);
                    wants.lock().unwrap().insert(p.w.root.clone(), want.clone());
                    p.reset();
                    want
                }
            };
            let r = go(p, sc, inj.clone(), *reads);
            run().eval();
            let r = match r {
                Ok(r) => r,
                Err(e) => return run().error(format!("{} with {what}: {e}", sc.name)),
            };
            run().traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let kind = what.split(' ').skip(2).collect::<Vec<_>>().join(" ");
            run().state(fnv(&[b"fault", sc.name.as_bytes(), what.as_bytes()]));
            if r.injected == 0 {
                run().outcome("fault never reached");
                return;
            }
            let res = judge(p, sc, &r, &want);
            if let Err(e) = res {
                let key = format!("{}:{}", sc.name, normalise(&kind));
                if done.lock().unwrap().insert(format!("{key}{}", &e[..e.len().min(40)])) {
                    run().violation(key, format!("{} with {what}: {e}", sc.name), format!("{:?}\n{what}", p.st.cmd));
                }
            }
        })
    });
}

fn is_mutation(n: &str) -> bool {
    !matches!(n, "open" | "read" | "pread" | "lseek" | "getdents" | "stat" | "fstat" | "readlink" | "mmap" | "lock")
}

fn judge(p: &Prep, sc: &Scen, r: &Res, want: &(String, Tree)) -> Result<(), String> {
    run().step();
    if let Some(h) = &r.hung {
        return Err(format!("hangs: {h}"));
    }
    let (w, st, o) = (&p.w, &p.st, &r.outs[0]);
    run().outcome(format!("{} {}", sc.kind, if o.ok() { "succeeds all the same" } else { "reports it" }));
    if o.signal.is_some() {
        return Err(o.brief());
    }
    let lost = sc.name.contains("one lost");
    let repo = Repo::load(&w.repo());
    let repo2 = Repo::load(&w.p("repo2"));
    let has2 = w.p("repo2").exists();
    if !lost {
        survivors(&repo, &st.before, &st.after, &st.removing)?;
        survivors(&repo2, &st.before2, &st.after2, &BTreeSet::new()).map_err(|e| format!("destination: {e}"))?;
    }
    if o.ok() {
        if sc.kind == "read" {
            let got = reading_result(p, o);
            if let Some(d) = tree_diff(&want.1, &got.1, Cmp { mode: true, mtime: sc.name.starts_with("restore") }) {
                return Err(format!("succeeds, but {d}"));
            }
            if !sc.name.starts_with("check") && !sc.name.starts_with("prune") && got.0 != want.0 {
                let d = want.0.lines().zip(got.0.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("{b:?} instead of {a:?}")).unwrap_or("some lines".into());
                return Err(format!("succeeds, but prints {d}"));
            }
        }
        final_state(&repo, &st.after).map_err(|e| format!("succeeds, but {e}"))?;
        if has2 {
            final_state(&repo2, &st.after2).map_err(|e| format!("succeeds, but in the destination, {e}"))?;
        }
    } else if o.err.trim().is_empty() && o.out.trim().is_empty() {
        return Err("fails without a word".into());
    }
    if o.panicked() {
        return Err(o.brief());
    }
    // again, on a healthy system
    w.now.set(p.now + 100);
    let mut args = st.cmd.clone();
    if sc.kind == "forget" {
        args.retain(|a| id_parse(a).map(|i| repo.snaps.contains_key(&i)).unwrap_or(true));
        if args.len() == 1 {
            return Ok(());
        }
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    if o.ok() && sc.kind == "read" {
        return Ok(());
    }
    let o2 = w.bp(&a);
    if !o2.ok() {
        return Err(format!("run again: {}", o2.brief()));
    }
    if sc.kind == "read" {
        // dump, ls and so on need not be repeated; what restore leaves must be right now
        if sc.name.starts_with("restore") {
            let got = scan(&w.p("out"));
            if let Some(d) = tree_diff(&want.1, &got, Cmp { mode: true, mtime: true }) {
                return Err(format!("run again: {d}"));
            }
        }
        return Ok(());
    }
    let f = Repo::load(&w.repo());
    let mut after = st.after.clone();
    if sc.kind == "filter-snapshot" && repo.snaps.len() > st.before.len() {
        for _ in 1..(f.snaps.len() - st.before.len()).min(3) {
            after.push(st.after.last().unwrap().clone());
        }
    }
    final_state(&f, &after).map_err(|e| format!("after running it again: {e}"))?;
    cmd_ok(w, "repo", &["check", "-r"]).map_err(|e| format!("after running it again: {e}"))?;
    if has2 {
        final_state(&Repo::load(&w.p("repo2")), &st.after2).map_err(|e| format!("destination after running it again: {e}"))?;
        cmd_ok(w, "repo2", &["check", "-r"]).map_err(|e| format!("after running it again: {e}"))?;
    }
    Ok(())
}
