//! C26: two commands at the same time.
use super::c02::finished;
use super::tier;
use crate::cli::*;
use crate::e1::*;
use crate::explore::*;
use crate::hist::*;
use crate::repo::*;
use crate::scen::*;
use crate::util::*;
use std::collections::HashSet;
use std::sync::Mutex;

struct Pair {
    name: &'static str,
    pack: &'static str,
    cached: bool,
    /// empty the cache before
    cold: bool,
    prior: &'static [&'static str],
    cmds: [&'static [&'static str]; 2],
    /// source of the second command
    second: &'static str,
}

const BK: &[&str] = &["backup", "-a", "one", "../src"];
const BK2: &[&str] = &["backup", "-a", "two", "../src2"];

fn pairs() -> Vec<Pair> {
    let p = |name, prior, cmds, second| Pair { name, pack: "100MiB", cached: false, cold: false, prior, cmds, second };
    vec![
        p("two first backups of the same thing", &[], [BK, BK2], "C"),
        p("two backups", &["A"], [BK, BK2], "B"),
        Pair { pack: "1000B", ..p("two backups, several packs, the same contents", &["A"], [BK, BK2], "C") },
        p("backup and check", &["A", "B"], [BK, &["check"]], "B"),
        p("backup and check -r", &["A"], [BK, &["check", "-r"]], "B"),
        p("backup and restore", &["A"], [BK, &["restore", "-o", "../out", "LAST"]], "B"),
        p("backup and ls", &["A"], [BK, &["ls", "LAST"]], "B"),
        p("backup and the listing", &["A"], [BK, &["snapshots", "--sizes"]], "B"),
        p("backup and usage", &["A"], [BK, &["usage"]], "B"),
        p("backup and copy from it", &["A"], [BK, &["copy", "--to", "../repo2", "--all"]], "B"),
        p("backup and diff", &["A"], [BK, &["diff", "LAST", "LAST"]], "B"),
        Pair { cached: true, ..p("two backups through one cache", &["A"], [BK, BK2], "B") },
        Pair { cached: true, cold: true, ..p("check twice, new cache", &["A"], [&["check"], &["check"]], "B") },
        Pair { cached: true, cold: true, ..p("backup and restore, new cache", &["A"], [BK, &["restore", "-o", "../out", "LAST"]], "B") },
        Pair { cached: true, ..p("copy between cached repositories, and check", &["A", "B"], [&["copy", "--to", "../repo2", "--all"], &["check"]], "B") },
    ]
}

fn all_dirs() -> Vec<String> {
    ["repo", "repo2", "cwd", "cwd2", "home", "out"].map(String::from).to_vec()
}

struct Sc {
    w: World,
    f0: Files,
    now: i64,
    before: Vec<MSnap>,
    news: Vec<MSnap>,
    srcs: [Tree; 2],
}

fn prepare_pair(p: &Pair) -> Result<Sc, String> {
    let mut w = World::new();
    let c = cpuinfo(&w, 1);
    w.env.push(("MC_CPUINFO".into(), c));
    for r in ["repo", "repo2"] {
        let mut a = vec!["init", "-p", p.pack, "filesystem"];
        if p.cached {
            a.push("--force-cache");
        }
        cmd_ok(&w, r, &a)?;
    }
    std::fs::create_dir(w.p("cwd2")).unwrap();
    std::fs::create_dir(w.p("out")).unwrap();
    let mut before = vec![];
    for v in p.prior {
        take(&w, v, &mut before);
    }
    let (a, b) = (var("C"), var(p.second));
    rebuild(&w.src(), &a);
    rebuild(&w.p("src2"), &b);
    let mut news = vec![];
    let mk = |n: &N, name: &str, author: &str| MSnap { id: [0; 28], tree: named_tree(name, n), author: author.into(), tags: Default::default(), paths: [w.p(name).to_string_lossy().into_owned()].into() };
    if p.cmds[0] == BK {
        news.push(mk(&a, "src", "one"));
    }
    if p.cmds[1] == BK2 {
        news.push(mk(&b, "src2", "two"));
    }
    if p.cold {
        rm_rf(&w.p("home/.cache"));
    }
    let f0 = Files::capture(&w.root, &all_dirs());
    let now = w.now.get();
    Ok(Sc { f0, now, before, news, srcs: [named_tree("src", &a), named_tree("src2", &b)], w })
}

impl Sc {
    fn go(&self, p: &Pair, plan: Vec<(usize, usize)>, nth: usize) -> Result<Res, String> {
        self.f0.materialise(&self.w.root, &all_dirs());
        self.w.now.set(self.now + 10);
        let _ = nth;
        let mut cmds = vec![];
        for (i, a) in p.cmds.iter().enumerate() {
            self.w.now.set(self.w.now.get() + i as i64);
            let mut c = self.w.command(a, &self.w.repo());
            if i == 1 {
                c.current_dir(self.w.p("cwd2"));
            }
            cmds.push(c);
        }
        execute(Spec {
            cmds,
            cwds: vec![self.w.cwd(), self.w.p("cwd2")],
            root: self.w.root.clone(),
            dirs: vec![],
            sched: Sched { base: Base::Procs(plan), dev: vec![] },
            reads: true,
            inject: vec![],
            observe: None,
            at: None,
            max_points: 60_000,
            exdev: false,
        })
    }

    /// Everything both reported done is there.
    fn judge(&self, p: &Pair, r: &Res, judged: &Mutex<HashSet<u64>>) -> Result<(), String> {
        let w = &self.w;
        for (i, o) in r.outs.iter().enumerate() {
            if !o.ok() {
                return Err(format!("`{}`: {}", p.cmds[i].join(" "), o.brief()));
            }
        }
        let mut after = self.before.clone();
        after.extend(self.news.iter().cloned());
        let f = Files::capture(&w.root, &["repo".to_string(), "repo2".to_string(), "cwd".into(), "cwd2".into(), "out".into()]);
        let repo = f.repo("repo");
        if let Some(b) = repo.bad.first().or(repo.strays.first()) {
            return Err(format!("bad object {b}"));
        }
        final_state(&repo, &after)?;
        for c in ["cwd", "cwd2"] {
            cwd_clean(w, c)?;
        }
        // what the reader read: either before or after the new snapshot
        let olds = self.before.last();
        match p.cmds[1][0] {
            "restore" => {
                let got = scan(&w.p("out"));
                let fits = |t: &Tree| tree_diff(&below_root(t), &got, Cmp { mode: false, mtime: false }).is_none();
                if !(olds.is_some_and(|s| fits(&s.tree)) || fits(&self.srcs[0])) {
                    return Err("what was restored is neither the last snapshot before nor the new one".into());
                }
            }
            "ls" => {
                let n = |t: &Tree| t.len();
                let lines = r.outs[1].out.lines().filter(|l| !l.contains("INFO") && !l.is_empty()).count();
                run().outcome(format!("ls: {} lines", lines));
                if olds.is_some_and(|s| n(&s.tree) != lines) && n(&self.srcs[0]) != lines {
                    return Err(format!("ls prints {:?}", r.outs[1].out));
                }
            }
            "snapshots" => {
                for s in &self.before {
                    if !r.outs[1].out.contains(&id_str(&s.id)[..6]) {
                        return Err("a snapshot is not listed".into());
                    }
                }
            }
            "copy" => {
                let r2 = f.repo("repo2");
                let mut two = self.before.clone();
                if r2.snaps.len() > two.len() {
                    two.extend(self.news.iter().cloned());
                }
                final_state(&r2, &two).map_err(|e| format!("the copy: {e}"))?;
            }
            _ => {}
        }
        // the same outcome needs to be tried only once
        let key = fnv(&[&f.key().to_le_bytes()]);
        run().state(key);
        if !judged.lock().unwrap().insert(key) {
            return Ok(());
        }
        let all: Vec<MSnap> = repo.chrono().iter().map(|s| {
            let m = after.iter().find(|m| m.author == s.author && m.paths == s.paths && (m.id == s.id || m.id == [0; 28])).unwrap();
            MSnap { id: s.id, ..m.clone() }
        }).collect();
        usable(w, "repo", &all, true)?;
        // gone with the blobs only one of them uses
        cmd_ok(w, "repo", &["rebuild-index"])?;
        usable(w, "repo", &all, true)?;
        if all.len() > 1 {
            cmd_ok(w, "repo", &["forget", &id_str(&all[0].id)])?;
            cmd_ok(w, "repo", &["prune"])?;
            usable(w, "repo", &all[1..], true)?;
            check_repo(w, "repo", &all[1..])?;
        }
        Ok(())
    }
}

const MAX: usize = usize::MAX / 4;

/// Operation numbers (of process `who`) where the other one could notice the difference.
fn shared(r: &Res, who: usize) -> Vec<usize> {
    let mut out = vec![];
    for (n, o) in r.ops.iter().filter(|o| o.proc_ == who).enumerate() {
        let p = |s: &str| s.starts_with("repo") || s.starts_with("home/.cache");
        // within an open file, only changes and locks matter
        let inner = ["fstat", "lseek", "mmap"].contains(&o.name);
        if (p(&o.path) || p(&o.path2)) && !inner {
            out.push(n);
        }
    }
    out
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    for p in &pairs() {
        if run().stopped() {
            break;
        }
        let free: Mutex<Vec<Sc>> = Mutex::new(vec![]);
        let judged = Mutex::new(HashSet::new());
        let one = |plan: &Vec<(usize, usize)>| -> Option<Res> {
            let sc = free.lock().unwrap().pop();
            let sc = match sc.map(Ok).unwrap_or_else(|| prepare_pair(p)) {
                Ok(s) => s,
                Err(e) => {
                    run().violation(format!("setup {}", p.name), e, "");
                    return None;
                }
            };
            let text = format!("{:?}", plan.iter().map(|(p, n)| if *n == MAX { format!("{}:rest", p) } else { format!("{p}:{n}") }).collect::<Vec<_>>());
            let r = sc.go(p, plan.clone(), 0);
            let mut res = None;
            if finished(p.name, &Sched { base: Base::Procs(plan.clone()), dev: vec![] }, &r, false) {
                let r = r.unwrap();
                sc.w.log.borrow_mut().clear();
                if let Err(e) = sc.judge(p, &r, &judged) {
                    let at = r.ops.iter().filter(|o| o.proc_ == plan[0].0).nth(plan[0].1).map(|o| o.text()).unwrap_or_default();
                    run().violation(format!("{}: {e}", p.name).chars().filter(|c| !c.is_ascii_digit()).take(90).collect::<String>(), format!("{}, {text}, first switch before {at}: {e}", p.name), format!("{}\n{}", text, r.ops.iter().map(|o| format!("p{} {}", o.proc_, o.text())).collect::<Vec<_>>().join("\n")));
                }
                res = Some(r);
            } else if let Ok(r) = &r {
                if r.hung.is_some() {
                    run().violation(format!("hang: {}", p.name), format!("{} {text}: {}", p.name, r.hung.clone().unwrap()), text.clone());
                }
            }
            free.lock().unwrap().push(sc);
            res
        };
        run().sample(p.name);
        // one after the other, then one switch
        let mut firsts = vec![];
        for who in 0..2 {
            let plan = vec![(who, MAX), (1 - who, MAX)];
            if let Some(r) = one(&plan) {
                let at = shared(&r, who);
                run().note(&format!("{}: operations of {}", p.name, who + 1), at.len());
                firsts.extend(at.into_iter().map(|n| (who, n)));
            }
        }
        let seconds: Mutex<Vec<Vec<(usize, usize)>>> = Mutex::new(vec![]);
        let par = firsts.clone();
        par_map(&par, |_, (who, n)| {
            if run().stopped() {
                return;
            }
            let plan = vec![(*who, *n), (1 - *who, MAX), (*who, MAX)];
            if let Some(r) = one(&plan) {
                run().outcome(format!("{}: one switch", p.name));
                // where the other one could be stopped in turn
                let two: Vec<Vec<(usize, usize)>> = shared(&r, 1 - who).into_iter().map(|m| vec![(*who, *n), (1 - *who, m), (*who, MAX), (1 - *who, MAX)]).collect();
                seconds.lock().unwrap().extend(two);
            }
        });
        let seconds = seconds.into_inner().unwrap();
        if tier(false, true) {
            par_map(&seconds, |_, plan| {
                if run().stopped() {
                    return;
                }
                if one(plan).is_some() {
                    run().outcome(format!("{}: two switches", p.name));
                }
            });
        }
    }
    (
        "model_checking",
        "two real processes under the serialising scheduler, switched at operations on the repository and the cache: every schedule with one switch in either order (thorough: two) for 15 pairs of commands; both must succeed, readers must see the state before or after, the repository is decoded and then checked, restored, reindexed and pruned by the program itself",
        true,
    )
}
