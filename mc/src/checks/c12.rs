//! C12: copy.
use super::c13::{exactly, still_there};
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

const DESTS: &[&str] = &["empty", "one of them copied", "unrelated snapshots", "the same contents backed up there", "all copied, then forgotten", "all copied, then the first forgotten and pruned"];
const SIZES: [&str; 2] = ["100MiB", "1B"];

#[derive(Clone)]
struct Case {
    dest: usize,
    /// none = --all
    which: Vec<usize>,
    form: usize,
    pats: Vec<String>,
    sizes: (usize, usize),
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let thorough = run().thorough;
    let ps = skip_patterns();
    let mut cases = vec![];
    let n = 5;
    let mut whichs: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        whichs.push(vec![i]);
    }
    for i in 0..n {
        for j in 0..n {
            whichs.push(vec![i, j]);
        }
    }
    if thorough {
        for a in assignments(n, 3) {
            if a[0] < a[1] && a[1] < a[2] {
                whichs.push(a);
            }
        }
    }
    for dest in 0..DESTS.len() {
        for (k, which) in whichs.iter().enumerate() {
            for s in 0..4 {
                if thorough || which.len() < 2 || s == k % 4 {
                    cases.push(Case { dest, which: which.clone(), form: (k + dest) % 3, pats: vec![], sizes: (s / 2, s % 2) });
                }
            }
        }
        for (i, p) in ps.iter().enumerate() {
            for which in [vec![], vec![0], vec![1], vec![3, 2]] {
                for s in 0..4 {
                    if thorough || s == (i + dest) % 4 {
                        cases.push(Case { dest, which: which.clone(), form: (i + dest) % 3, pats: vec![p.to_string()], sizes: (s / 2, s % 2) });
                    }
                }
            }
            for (j, q) in ps.iter().enumerate() {
                if i < j && (thorough || (i * 7 + j) % DESTS.len() == dest) {
                    cases.push(Case { dest, which: vec![], form: 0, pats: vec![p.to_string(), q.to_string()], sizes: (i % 2, j % 2) });
                }
            }
        }
    }
    let k = nthreads() * 4;
    let chunks: Vec<Vec<Case>> = (0..k).map(|i| cases.iter().skip(i).step_by(k).cloned().collect()).collect();
    par_map(&chunks, |_, c| {
        let mut scenes: BTreeMap<(usize, usize), Scene> = BTreeMap::new();
        for k in c.iter() {
            if run().stopped() {
                return;
            }
            if !scenes.contains_key(&k.sizes) {
                match Scene::new(k.sizes) {
                    Ok(s) => {
                        scenes.insert(k.sizes, s);
                    }
                    Err(e) => return run().violation("setup", e, ""),
                }
            }
            let s = &scenes[&k.sizes];
            let tag = format!("d{}", k.dest);
            restore(&s.w.root, &["dest"], &tag);
            s.w.now.set(s.now + 100);
            run().state(fnv(&[format!("{:?}{:?}{}{:?}{}", k.dest, k.which, k.form, k.pats, k.sizes.0 * 2 + k.sizes.1).as_bytes()]));
            let what = if k.which.is_empty() { "--all".to_string() } else { format!("{:?}", k.which) };
            case(&s.w, format!("copy {what} (form {}) without {:?}, destination: {}, pack sizes {} and {}", k.form, k.pats, DESTS[k.dest], SIZES[k.sizes.0], SIZES[k.sizes.1]), |w| s.one(w, k));
        }
    });
    refusals();
    (
        "model_checking",
        "six kinds of destination x pack sizes of both sides x {all, each snapshot, each ordered pair (a snapshot twice included)} x {no pattern, every pattern, pairs of patterns, given as arguments, in the configuration or in the working directory}: the destination is decoded and must hold exactly its old files unchanged plus the asked-for snapshots (minus what matches), nothing twice; the source stays as it is, byte for byte; a second copy adds nothing; check -r and restore of every snapshot agree; bad requests are refused with nothing changed",
        true,
    )
}

struct Scene {
    w: World,
    snaps: Vec<MSnap>,
    dests: Vec<Vec<MSnap>>,
    src_before: Tree,
    now: i64,
}

impl Scene {
    fn new(sizes: (usize, usize)) -> Result<Scene, String> {
        let w = World::new();
        w.init_pack_size(SIZES[sizes.0]);
        let mut snaps = vec![];
        let t = skip_tree();
        let src = w.src();
        rebuild(&src, &t);
        do_backup(&w, "repo", &["backup", "-a", "me", "-t", "old", "../src"], &mut snaps, &named_tree("src", &t), "me", &["old"], &[&src])?;
        let two = d(&[("a.o", f(b"object a")), ("dir", d(&[("keep", f(b"3")), ("private", fm(b"s", 0o4600, -5)), ("l", l("/no/where"))])), ("e", d(&[]))]);
        build(&w.p("two"), &two);
        build(&w.p("x"), &f(b"a file of its own"));
        let mut tree = named_tree("src", &t);
        tree.extend(named_tree("two", &two));
        tree.extend(named_tree("x", &f(b"a file of its own")));
        let (p2, p3) = (w.p("two"), w.p("x"));
        do_backup(&w, "repo", &["backup", "-a", "you", "../src", "../two", "../x"], &mut snaps, &tree, "you", &[], &[&src, &p2, &p3])?;
        let N::D(mut m, a, b) = t.clone() else { unreachable!() };
        m.remove("a.o");
        m.insert("new".into(), f(b"new"));
        m.insert("big".into(), f(&noise(8, 1_300_000)));
        let t2 = N::D(m, a, b);
        rebuild(&src, &t2);
        do_backup(&w, "repo", &["backup", "-a", "me", "-t", "z", "-t", "a", "../src"], &mut snaps, &named_tree("src", &t2), "me", &["a", "z"], &[&src])?;
        do_backup(&w, "repo", &["backup", "-a", "me", "../x"], &mut snaps, &named_tree("x", &f(b"a file of its own")), "me", &[], &[&p3])?;
        // same time and contents, other author
        w.now.set(w.now.get() - 1);
        do_backup(&w, "repo", &["backup", "-a", "them", "--allow-repeat", "../x"], &mut snaps, &named_tree("x", &f(b"a file of its own")), "them", &[], &[&p3])?;
        check_repo(&w, "repo", &snaps)?;
        if snaps.len() != 5 {
            return Err("five snapshots expected".into());
        }
        let now = w.now.get();
        let mut dests = vec![];
        for i in 0..DESTS.len() {
            let dir = w.p("dest");
            rm_rf(&dir);
            let o = w.bp_repo(&["init", "--pack-size", SIZES[sizes.1], "filesystem"], &dir);
            if !o.ok() {
                return Err(o.brief());
            }
            let mut ds = vec![];
            match i {
                0 => {}
                1 => {
                    cmd_ok(&w, "repo", &["copy", "-t", "../dest", &id_str(&snaps[0].id)])?;
                    ds.push(snaps[0].clone());
                }
                2 => {
                    let u = w.p("u");
                    for (a, c) in [("x", "xx"), ("y", "object a")] {
                        let n = d(&[(a, f(c.as_bytes())), ("w", f(b"own"))]);
                        rebuild(&u, &n);
                        do_backup(&w, "dest", &["backup", "-a", "un", "../u"], &mut ds, &named_tree("u", &n), "un", &[], &[&u])?;
                    }
                }
                3 => {
                    do_backup(&w, "dest", &["backup", "-a", "me", "../src"], &mut ds, &named_tree("src", &t2), "me", &[], &[&src])?;
                }
                4 => {
                    cmd_ok(&w, "repo", &["copy", "-t", "../dest", "--all"])?;
                    let ids: Vec<String> = snaps.iter().map(|s| id_str(&s.id)).collect();
                    let mut a = vec!["forget"];
                    a.extend(ids.iter().map(|s| s.as_str()));
                    cmd_ok(&w, "dest", &a)?;
                }
                _ => {
                    cmd_ok(&w, "repo", &["copy", "-t", "../dest", "--all"])?;
                    cmd_ok(&w, "dest", &["forget", &id_str(&snaps[0].id)])?;
                    cmd_ok(&w, "dest", &["prune"])?;
                    ds = snaps[1..].to_vec();
                }
            }
            check_repo(&w, "dest", &ds)?;
            save(&w.root, &["dest"], &format!("d{i}"));
            dests.push(ds);
        }
        let src_before = scan(&w.repo());
        Ok(Scene { w, snaps, dests, src_before, now })
    }

    fn args(&self, k: &Case) -> Vec<String> {
        let mut a = vec!["copy".to_string(), ["--to", "-t", "--to"][k.form].into(), "../dest".into()];
        let args = if k.dest % 3 == 0 { &k.pats[..] } else { &k.pats[1.min(k.pats.len())..] };
        for p in args {
            a.extend([["-s", "--skip", "-s"][k.form].into(), p.clone()]);
        }
        if k.which.is_empty() {
            a.push("--all".into());
        }
        for i in &k.which {
            let id = id_str(&self.snaps[*i].id);
            a.push(match k.form {
                0 => id,
                // the last two have the same time; a prefix long enough to be theirs
                1 => (4..id.len()).map(|n| &id[..n]).find(|p| self.snaps.iter().filter(|s| id_str(&s.id).starts_with(p)).count() == 1).unwrap().to_string(),
                _ if *i < 3 => format!("LAST~{}", self.snaps.len() - 1 - i),
                _ => id,
            });
        }
        a
    }

    fn one(&self, w: &World, k: &Case) -> Result<(), String> {
        let set = regex::RegexSet::new(&k.pats).map_err(|e| e.to_string())?;
        let before = scan(&w.p("dest"));
        let rs = Repo::load(&w.repo());
        let old = &self.dests[k.dest];
        // what should be there afterwards
        let mut want: Vec<MSnap> = old.clone();
        let mut filtered: Vec<(i128, String, MSnap)> = vec![];
        let which: BTreeSet<usize> = if k.which.is_empty() { (0..self.snaps.len()).collect() } else { k.which.iter().copied().collect() };
        for i in which {
            let s = &self.snaps[i];
            let t = minus(&s.tree, &|p| set.is_match(p));
            if t == s.tree {
                if !want.iter().any(|x| x.id == s.id) {
                    want.push(s.clone());
                }
            } else {
                let o = &rs.snaps[&s.id];
                filtered.push((o.time, o.tz.clone(), MSnap { tree: t, ..s.clone() }));
            }
        }
        let a = self.args(k);
        let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        run().step();
        // the first pattern may come from the configuration, or from the working directory's, which has precedence
        let toml = |p: &[String]| format!("skips = [{}]\n", p.iter().map(|p| crate::report::js(p)).collect::<Vec<_>>().join(", "));
        let local = w.cwd().join(".backpak");
        if !k.pats.is_empty() && k.dest % 3 > 0 {
            let by = toml(&k.pats[..1]);
            if k.dest % 3 == 2 {
                std::fs::write(&local, &by).unwrap();
            }
            let c = w.p("conf.toml");
            std::fs::write(&c, if k.dest % 3 == 2 { toml(&["a".into()]) } else { by }).unwrap();
            *w.config.borrow_mut() = c.to_string_lossy().into_owned();
        }
        let unconf = Unconf(w);
        let o = w.bp(&av);
        if !o.ok() {
            return Err(o.brief());
        }
        run().outcome(if filtered.is_empty() { "copied" } else { "copied, filtered" });
        let r = Repo::load(&w.p("dest"));
        for (time, tz, m) in filtered {
            let found = r.snaps.values().find(|s| s.time == time && s.tz == tz && s.author == m.author && s.tags == m.tags && s.paths == m.paths && !want.iter().any(|x| x.id == s.id) && r.expand(s).is_ok_and(|t| tree_diff(&m.tree, &t, Cmp { mode: true, mtime: true }).is_none()));
            match found {
                Some(s) => want.push(MSnap { id: s.id, ..m }),
                None => return Err(format!("no snapshot at the destination is {} minus what matches", &id_str(&m.id)[..8])),
            }
        }
        check_repo(w, "dest", &want)?;
        for s in &want {
            if let (Some(x), Some(y)) = (rs.snaps.get(&s.id), r.snaps.get(&s.id)) {
                if x != y {
                    return Err(format!("{x:?} became {y:?}"));
                }
            }
        }
        let after = scan(&w.p("dest"));
        still_there(&before, &after)?;
        exactly(&self.src_before, &scan(&w.repo())).map_err(|e| format!("source: {e}"))?;
        if r.stored().values().any(|n| *n > 1) {
            return Err("something is stored twice".into());
        }
        // owners and access times, too
        for s in &want {
            if let Some(x) = rs.snaps.get(&s.id) {
                if rs.nodes(x)? != r.nodes(&r.snaps[&s.id])? {
                    return Err(format!("entries of {} changed", &id_str(&s.id)[..8]));
                }
            }
        }
        // again: nothing new
        let o = w.bp(&av);
        drop(unconf);
        if !o.ok() {
            return Err(format!("again: {}", o.brief()));
        }
        exactly(&after, &scan(&w.p("dest"))).map_err(|e| format!("copying again: {e}"))?;
        cwd_clean(w, "cwd")?;
        if k.which.is_empty() && (k.pats.len() < 2 || run().thorough) {
            cmd_ok(w, "dest", &["check", "-r"])?;
            for s in &want {
                if s.tree.keys().any(|k| k.contains(&b'/')) {
                    restore_check(w, "dest", s)?;
                }
            }
        }
        Ok(())
    }
}

/// Takes the configuration away again.
struct Unconf<'a>(&'a World);
impl Drop for Unconf<'_> {
    fn drop(&mut self) {
        self.0.config.borrow_mut().clear();
        let _ = std::fs::remove_file(self.0.p("conf.toml"));
        let _ = std::fs::remove_file(self.0.cwd().join(".backpak"));
    }
}

fn refusals() {
    let s = match Scene::new((0, 0)) {
        Ok(s) => s,
        Err(e) => return run().violation("setup", e, ""),
    };
    restore(&s.w.root, &["dest"], "d1");
    std::fs::create_dir(s.w.p("void")).unwrap();
    let before = scan(&s.w.p("dest"));
    let id = id_str(&s.snaps[0].id);
    let bad: Vec<Vec<&str>> = vec![
        vec!["-t", "../dest"],
        vec!["-t", "../dest", "--all", &id],
        vec!["--all"],
        vec!["-t", "../void", "--all"],
        vec!["-t", "../nowhere", "--all"],
        vec!["-t", "../dest", "nosuch"],
        vec!["-t", "../dest", &id, "LAST~5"],
        vec!["-t", "../dest", "-s", "(", "--all"],
        vec!["-t", "../dest", "-s", "a", "-s", "*", &id],
    ];
    for b in &bad {
        case(&s.w, format!("refused: {:?}", b.iter().map(|x| if *x == id { "ID" } else { x }).collect::<Vec<_>>()), |w| {
            let mut a = vec!["copy"];
            a.extend(b);
            run().step();
            let o = w.bp(&a);
            run().outcome("refused");
            if o.ok() || o.panicked() || o.timed_out {
                return Err(o.brief());
            }
            exactly(&before, &scan(&w.p("dest")))?;
            exactly(&s.src_before, &scan(&w.repo()))?;
            if !scan(&w.p("void")).is_empty() || w.p("nowhere").exists() {
                return Err("something was written".into());
            }
            cwd_clean(w, "cwd")
        });
    }
    // into itself
    for a in [vec!["copy", "-t", "../repo", "--all"], vec!["copy", "-t", "../repo", &id]] {
        case(&s.w, format!("into itself: {}", a[3]).replace(&id, "ID"), |w| {
            run().step();
            cmd_ok(w, "repo", &a)?;
            still_there(&s.src_before, &scan(&w.repo()))?;
            check_repo(w, "repo", &s.snaps)?;
            cwd_clean(w, "cwd")
        });
    }
}
