//! C01: backup, then restore: the same tree, for every small tree and every way of saying it.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::path::Path;

const SIZES: &[&str] = &["100MiB", "1000B", "1B"];

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ks = kinds();
    // 1. every pair of entries, one in the source directory and one below it, alone in its repository
    let pairs = assignments(ks.len(), 2);
    par_map(&pairs, |i, a| {
        let n = dir_of(vec![("a".into(), ks[a[0]].1.clone()), ("s".into(), Some(dir_of(vec![("b".into(), ks[a[1]].1.clone())])))]);
        let sizes: Vec<&str> = if run().thorough { SIZES.to_vec() } else { vec![SIZES[(i + run().seed as usize) % 2]] };
        for size in sizes {
            let w = World::new();
            case(&w, format!("a = {}, s/b = {}, pack size {size}", ks[a[0]].0, ks[a[1]].0), |w| {
                w.init_pack_size(size);
                roundtrip(w, &n)
            });
            run().state(hash_tree(&tree_of(&n), true) ^ fnv(&[size.as_bytes()]));
        }
    });
    // 1b. the same as an ordinary user, who is bound by the permissions of what is restored
    let readable: Vec<_> = ks.iter().filter(|k| k.0 != "private file").chain(&special_bits()).cloned().collect();
    let pairs: Vec<Vec<usize>> = if run().thorough { assignments(readable.len(), 2) } else { (0..readable.len()).flat_map(|i| [vec![i, i], vec![i, (i + 7) % readable.len()]]).collect() };
    par_map(&pairs, |i, a| {
        // below directories of several modes
        let s = N::D([("b".to_string(), readable[a[1]].1.clone())].into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect(), [0o555, 0o755, 0o700, 0o2755][i % 4], T0 - 5);
        let n = dir_of(vec![("a".into(), readable[a[0]].1.clone()), ("s".into(), Some(s))]);
        let w = World::new();
        if !w.as_user() {
            run().outcome("no ordinary user here");
            return;
        }
        case(&w, format!("as an ordinary user: a = {}, s/b = {}", readable[a[0]].0, readable[a[1]].0), |w| {
            w.init_pack_size("100MiB");
            roundtrip(w, &n)
        });
        run().state(fnv(&[b"user"]) ^ hash_tree(&tree_of(&n), true));
    });
    // 1c. wherever it is run
    let mut zones: Vec<String> = ["UTC", "", "Asia/Kolkata", "America/New_York", "Australia/Lord_Howe", "EST5EDT", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "UTC+23:59:59", "Nowhere/Land", ":Europe/Berlin", "/nonexistent", "localtime", "posix/Asia/Tokyo"].map(String::from).to_vec();
    zones.extend(["America/St_Johns", "Africa/Monrovia"].map(|z| format!("copy of {z}")));
    par_map(&zones, |_, z| {
        let mut w = World::new();
        let zone = match z.strip_prefix("copy of ") {
            // a time zone without a name
            Some(n) => {
                if std::fs::copy(Path::new("/usr/share/zoneinfo").join(n), w.p("zone")).is_err() {
                    return;
                }
                w.p("zone").to_string_lossy().into_owned()
            }
            None => z.clone(),
        };
        w.env.push(("TZ".into(), zone));
        case(&w, format!("time zone {z:?}"), |w| {
            w.init_pack_size("100MiB");
            roundtrip(w, &d(&[("a", f(b"alpha")), ("old", fm(b"old", 0o600, -1_500_000_000)), ("l", l("a"))]))?;
            for (i, s) in w.repo_state().chrono().iter().enumerate() {
                if s.time / 1_000_000_000 > w.now.get() as i128 || s.time / 1_000_000_000 < w.now.get() as i128 - 20 {
                    return Err(format!("snapshot {i} is of {} instead of about {}", s.time, w.now.get()));
                }
            }
            // and read elsewhere
            for tz in ["UTC", "Pacific/Kiritimati"] {
                let mut c = w.command(&["snapshots"], &w.repo());
                c.env("TZ", tz);
                let o = run_command(c, w.timeout);
                if !o.ok() {
                    return Err(format!("snapshots in {tz}: {}", o.brief()));
                }
            }
            Ok(())
        });
        run().state(fnv(&[b"zone", z.as_bytes()]));
    });
    // 2. every triple (quick: of the first kinds), as many subdirectories of one large source
    let k = tier(10, ks.len());
    let triples = assignments(k, 3);
    let chunks: Vec<&[Vec<usize>]> = triples.chunks(125).collect();
    par_map(&chunks, |i, c| {
        let mut m = BTreeMap::new();
        for a in c.iter() {
            let n = dir_of(vec![("a".into(), ks[a[0]].1.clone()), ("b".into(), ks[a[1]].1.clone()), ("s".into(), Some(dir_of(vec![("c".into(), ks[a[2]].1.clone())])))]);
            run().state(hash_tree(&tree_of(&n), true));
            m.insert(format!("t{}-{}-{}", a[0], a[1], a[2]), n);
        }
        let n = N::D(m, 0o755, T0);
        let size = SIZES[i % 2];
        let w = World::new();
        case(&w, format!("forest {i} of triples, pack size {size}"), |w| {
            w.init_pack_size(size);
            roundtrip(w, &n)
        });
    });
    // 3. names, alone and all together, as entry and as the backed-up path itself
    let ns = names();
    par_map(&ns, |_, name| {
        let w = World::new();
        case(&w, format!("name {name:?}"), |w| {
            w.init_pack_size("100MiB");
            let inner = d(&[(name, f(b"one")), ("z", d(&[(name, d(&[(name, f(b"two"))]))])), ("l", l(name))]);
            roundtrip(w, &inner)?;
            // the path itself has that name
            let base = w.p("named");
            fresh(&base);
            let p = base.join(name);
            build(&p, &inner);
            let o = w.bp(&["backup", "--", p.to_str().unwrap()]);
            if !o.ok() {
                return Err(format!("backup: {}", o.brief()));
            }
            let out = w.p("out");
            fresh(&out);
            let o = w.bp(&["restore", "-t", "-p", "-o", "../out", "LAST"]);
            if !o.ok() {
                return Err(format!("restore: {}", o.brief()));
            }
            same("the named directory", &tree_of(&inner), &scan(&out), true)
        });
        run().state(fnv(&[name.as_bytes()]));
    });
    let w = World::new();
    case(&w, "all names together", |w| {
        w.init_pack_size("100MiB");
        let n = N::D(ns.iter().map(|n| (n.clone(), f(n.as_bytes()))).collect(), 0o755, T0);
        roundtrip(w, &n)
    });
    // 3b. what links say, letter by letter; long names, deep and wide trees
    let long = "x".repeat(255);
    let far = vec!["y".repeat(200); 20].join("/");
    let says: Vec<String> = ["dir/", "./a", "a//b", "/", ".", "./", "..//..", "dir/.", "dir/../a", "/etc/../etc/passwd", " ", "a ", "\n", "日本", "l", "./l", "-n", "C:\\x", "~/x", "$HOME", &long, &far].iter().map(|x| x.to_string()).collect();
    let mut odd: Vec<(String, N)> = says.iter().map(|t| (format!("link to {:.40?}", t), d(&[("l", l(t)), ("dir", d(&[("l", l(t))])), ("a", f(b"alpha"))]))).collect();
    odd.push(("all links".into(), N::D(says.iter().enumerate().map(|(i, t)| (format!("{i:02}"), l(t))).collect(), 0o755, T0)));
    odd.push(("long names".into(), d(&[(&long, d(&[(&long, f(b"long")), (&long[1..], l(&long))])), (&"ü".repeat(127), f(b"wide letters"))])));
    let deep = (0..120).fold(d(&[("f", f(b"bottom")), ("e", d(&[]))]), |n, i| d(&[("d", n), (if i % 2 == 0 { "x" } else { "e" }, f(format!("{}", i % 7).as_bytes()))]));
    odd.push(("120 levels".into(), deep));
    odd.push(("3000 entries".into(), N::D((0..3000).map(|i| (format!("{i}"), match i % 5 { 0 => d(&[]), 1 => l(&format!("{}", i + 1)), _ => f(format!("{}", i % 100).as_bytes()) })).collect(), 0o755, T0)));
    par_map(&odd, |i, (name, n)| {
        let w = World::new();
        case(&w, name.clone(), |w| {
            w.init_pack_size(SIZES[i % 2]);
            roundtrip(w, n)
        });
        run().state(fnv(&[b"odd", name.as_bytes()]));
    });
    // 4. every non-empty choice of up to three source paths, in every order
    let srcs = [("one", d(&[("f", f(b"1")), ("e", d(&[]))])), ("two", f(b"two")), ("three", dm(&[("f", f(b"1")), ("l", l("f"))], 0o711, T0 + 9)), ("four", d(&[]))];
    let mut choices: Vec<Vec<usize>> = vec![];
    for k in 1..=3 {
        choices.extend(assignments(srcs.len(), k).into_iter().filter(|a| a.iter().collect::<std::collections::BTreeSet<_>>().len() == a.len()));
    }
    par_map(&choices, |_, c| {
        let w = World::new();
        case(&w, format!("paths {:?}", c.iter().map(|i| srcs[*i].0).collect::<Vec<_>>()), |w| multi(w, c, &srcs));
        run().state(fnv(&[&c.iter().map(|x| *x as u8).collect::<Vec<_>>()]));
    });
    // 5. dereferencing: links at every slot to every kind of target
    let targets = ["plain", "dir", "dir/f", "dir/up", "chain", "../outside/f", "../outside"];
    let places = assignments(targets.len(), 2);
    par_map(&places, |_, a| {
        let w = World::new();
        case(&w, format!("dereferencing a -> {}, s/b -> {}", targets[a[0]], targets[a[1]]), |w| deref(w, targets[a[0]], targets[a[1]]));
        run().state(fnv(&[b"deref", &[a[0] as u8, a[1] as u8]]));
    });
    // 6. the order in which blobs are read out of packs: every sequence of a length, one after another in one restore
    let shapes: &[&[&[usize]]] = &[
        &[&[100, 100], &[100, 100], &[100, 100]],
        &[&[100, 100], &[100, 100], &[100, 100], &[100, 100]],
        &[&[100], &[50, 900], &[300, 300, 300]],
        &[&[10, 20, 3000], &[1], &[1500, 40]],
        &[&[5], &[5], &[5], &[5], &[5], &[5]],
        &[&[900, 1, 1], &[900, 1, 1], &[1, 900]],
    ];
    par_map(shapes, |_, shape| {
        let n: usize = shape.iter().map(|s| s.len()).sum();
        let len = if run().thorough { if n <= 6 { 5 } else { 4 } } else if n <= 6 { 4 } else { 3 };
        let seq = de_bruijn(n, len);
        let w = World::new();
        case(&w, format!("all sequences of {len} reads from packs of blobs of {shape:?} bytes"), |w| orders(w, shape, &seq));
        run().state(fnv(&[b"orders", format!("{shape:?}").as_bytes()]));
    });
    run().assume("names that are not UTF-8 are refused by the program with an error and are not part of the property; special files (devices, sockets) are skipped by design");
    (
        "model_checking",
        "bounded-exhaustive enumeration of source trees (all pairs and triples over 20 kinds of entries, all awkward names, all choices and orders of up to three paths, all link targets when dereferencing, all sequences of reads from several packs to a length) on the real program; each snapshot is decoded independently, restored with and without times and permissions, to another place and to the original one, and compared with the source",
        true,
    )
}

fn special_bits() -> Vec<(&'static str, Option<N>)> {
    vec![
        ("setuid", Some(fm(b"su", 0o4755, T0))),
        ("setgid and sticky", Some(fm(b"sg", 0o3711, T0))),
        ("setgid dir", Some(dm(&[("f", f(b"x")), ("s", d(&[]))], 0o2755, T0))),
        ("read-only dirs", Some(dm(&[("s", dm(&[("t", dm(&[("f", f(b"x"))], 0o500, T0))], 0o555, T0 + 1))], 0o511, T0 + 2))),
    ]
}

fn same(what: &str, want: &Tree, got: &Tree, exact: bool) -> Result<(), String> {
    match tree_diff(want, got, Cmp { mode: exact, mtime: exact }) {
        Some(d) => Err(format!("{what} differs: {d}")),
        None => Ok(()),
    }
}

fn roundtrip(w: &World, n: &N) -> Result<(), String> {
    rebuild(&w.src(), n);
    if w.uid.get().is_some() && !w.as_user() {
        return Err("could not give the source away".into());
    }
    let want = tree_of(n);
    let o = w.bp(&["backup", "--allow-empty", "-a", "me", "../src"]);
    if !o.ok() {
        return Err(format!("backup: {}", o.brief()));
    }
    same("the source after the backup", &want, &scan(&w.src()), true)?;
    let r = Repo::load(&w.repo());
    r.invariant(&Default::default())?;
    let s = r.chrono().pop().ok_or("no snapshot")?.clone();
    same("the stored snapshot", &named_tree("src", n), &r.expand(&s)?, true)?;
    for flags in [&["-t", "-p"][..], &[], &["-t"], &["-p"]] {
        let out = w.p("out");
        fresh(&out);
        if let Some(u) = w.uid.get() {
            std::os::unix::fs::lchown(&out, Some(u), Some(u)).map_err(|e| e.to_string())?;
        }
        let mut a = vec!["restore"];
        a.extend(flags);
        a.extend(["-o", "../out", "LAST"]);
        let o = w.bp(&a);
        if !o.ok() {
            return Err(format!("restore {flags:?}: {}", o.brief()));
        }
        let got = scan(&out);
        let (t, p) = (flags.contains(&"-t"), flags.contains(&"-p"));
        if let Some(d) = tree_diff(&want, &got, Cmp { mode: p, mtime: t }) {
            return Err(format!("restore {flags:?} differs: {d}"));
        }
        if t && p {
            // the directory itself, too
            let (a, b) = (ent(&w.src()).unwrap(), ent(&out).unwrap());
            if a.mode != b.mode || a.mtime != b.mtime {
                return Err(format!("restore {flags:?}: the top directory has mode {:o} mtime {}, want {:o} {}", b.mode, b.mtime, a.mode, a.mtime));
            }
        }
    }
    // in place, after losing the source
    let full = scan_named(&w.src(), "src");
    rm_rf(&w.src());
    let o = w.bp(&["restore", "-t", "-p", "LAST"]);
    if !o.ok() {
        return Err(format!("restore in place: {}", o.brief()));
    }
    same("restore in place", &full, &scan_named(&w.src(), "src"), true)?;
    rm_rf(&w.p("out"));
    Ok(())
}

/// The cyclic sequence over 0..k that contains every sequence of length n once (here unrolled).
fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn go(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(t + 1, p, k, n, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(t + 1, t, k, n, a, out);
        }
    }
    let mut out = vec![];
    go(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

fn orders(w: &World, shape: &[&[usize]], seq: &[usize]) -> Result<(), String> {
    w.init_pack_size("100MiB");
    let mut blobs: Vec<Vec<u8>> = vec![];
    for pack in shape {
        // one backup, so one pack
        let mut m = BTreeMap::new();
        for len in pack.iter() {
            let i = blobs.len();
            let b: Vec<u8> = (0..*len).map(|j| (hash_bytes(i, j) >> 17) as u8).collect();
            m.insert(format!("f{i}"), f(&b));
            blobs.push(b);
        }
        rebuild(&w.src(), &N::D(m, 0o755, T0));
        let o = w.bp(&["backup", "../src"]);
        if !o.ok() {
            return Err(format!("backup: {}", o.brief()));
        }
    }
    let n = N::D(seq.iter().enumerate().map(|(i, b)| (format!("r{i:06}"), f(&blobs[*b]))).collect(), 0o755, T0);
    rebuild(&w.src(), &n);
    let o = w.bp(&["backup", "../src"]);
    if !o.ok() {
        return Err(format!("backup: {}", o.brief()));
    }
    let r = Repo::load(&w.repo());
    r.invariant(&Default::default())?;
    let out = w.p("out");
    fresh(&out);
    let o = w.bp(&["restore", "-o", "../out", "LAST"]);
    if !o.ok() {
        return Err(format!("restore: {}", o.brief()));
    }
    if let Some(d) = tree_diff(&tree_of(&n), &scan(&out), Cmp { mode: false, mtime: false }) {
        return Err(format!("restore differs: {d}"));
    }
    Ok(())
}

fn hash_bytes(i: usize, j: usize) -> u64 {
    fnv(&[&(i as u64).to_le_bytes(), &(j as u64).to_le_bytes()])
}

fn multi(w: &World, c: &[usize], srcs: &[(&str, N)]) -> Result<(), String> {
    w.init_pack_size("100MiB");
    let base = w.p("srcs");
    std::fs::create_dir(&base).unwrap();
    let mut want = Tree::new();
    let mut args = vec!["backup".to_string(), "--allow-empty".into()];
    for i in c {
        build(&base.join(srcs[*i].0), &srcs[*i].1);
        want.extend(named_tree(srcs[*i].0, &srcs[*i].1));
        // relative, absolute, with a trailing slash
        args.push(match i {
            0 => "../srcs/one/".into(),
            1 => base.join("two").to_string_lossy().into_owned(),
            2 => "../srcs/../srcs/three/.".into(),
            _ => "../srcs/four".into(),
        });
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let o = w.bp(&a);
    if !o.ok() {
        return Err(format!("backup: {}", o.brief()));
    }
    let r = Repo::load(&w.repo());
    let s = r.chrono().pop().ok_or("no snapshot")?.clone();
    same("the stored snapshot", &want, &r.expand(&s)?, true)?;
    let out = w.p("out");
    fresh(&out);
    let o = w.bp(&["restore", "-t", "-p", "-o", "../out", "LAST"]);
    if !o.ok() {
        return Err(format!("restore: {}", o.brief()));
    }
    let expect = if c.len() == 1 && matches!(srcs[c[0]].1, N::D(..)) { below_root(&want) } else { want.clone() };
    same("the restored tree", &expect, &scan(&out), true)?;
    // in place: each path lost in turn, then all
    for lose in c.iter().map(|i| vec![*i]).chain([c.to_vec()]) {
        for i in &lose {
            rm_rf(&base.join(srcs[*i].0));
        }
        let o = w.bp(&["restore", "-t", "-p", "LAST"]);
        if !o.ok() {
            return Err(format!("restore in place without {lose:?}: {}", o.brief()));
        }
        same("restored in place", &want, &scan(&base), true)?;
    }
    Ok(())
}

fn deref(w: &World, a: &str, b: &str) -> Result<(), String> {
    w.init_pack_size("100MiB");
    build(&w.p("outside"), &d(&[("f", fm(b"out there", 0o640, T0 + 11))]));
    let dir = d(&[("f", fm(b"inner", 0o600, T0 + 3)), ("up", l("../plain"))]);
    let n = d(&[("plain", fm(b"plain", 0o755, T0 + 2)), ("dir", dir), ("chain", l("link")), ("link", l("plain")), ("a", l(a)), ("s", d(&[("b", l(&format!("../{b}")))]))]);
    rebuild(&w.src(), &n);
    // the file system's own idea of it
    let mut want = Tree::new();
    follow(&w.src(), "", &mut want);
    let o = w.bp(&["backup", "-L", "../src"]);
    if !o.ok() {
        return Err(format!("backup -L: {}", o.brief()));
    }
    let r = Repo::load(&w.repo());
    let s = r.chrono().pop().ok_or("no snapshot")?.clone();
    same("the dereferenced snapshot", &want, &below_root(&r.expand(&s)?), true)?;
    let out = w.p("out");
    fresh(&out);
    let o = w.bp(&["restore", "-t", "-p", "-o", "../out", "LAST"]);
    if !o.ok() {
        return Err(format!("restore: {}", o.brief()));
    }
    same("the restored dereferenced tree", &want, &scan(&out), true)?;
    // and without dereferencing, the links themselves
    let o = w.bp(&["backup", "-P", "../src"]);
    if !o.ok() {
        return Err(format!("backup -P: {}", o.brief()));
    }
    let r = Repo::load(&w.repo());
    let s = r.chrono().pop().ok_or("no snapshot")?.clone();
    same("the snapshot with links", &named_tree("src", &n), &r.expand(&s)?, true)
}

fn follow(p: &Path, rel: &str, t: &mut Tree) {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(p).unwrap();
    if !rel.is_empty() {
        let kind = if m.is_dir() { Kind::Dir } else { Kind::File(std::fs::read(p).unwrap()) };
        t.insert(rel.as_bytes().to_vec(), Ent { kind, mode: m.mode() & 0o7777, mtime: m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128 });
    }
    if m.is_dir() {
        for e in std::fs::read_dir(p).unwrap().flatten() {
            let n = e.file_name().to_string_lossy().into_owned();
            follow(&e.path(), &if rel.is_empty() { n } else { format!("{rel}/{n}") }, t);
        }
    }
}
