//! Enumerating schedules of a scenario's command, and the crash states of each.
use crate::cli::*;
use crate::e1::*;
use crate::scen::*;
use crate::util::*;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone)]
pub struct Opts {
    /// number of cores the program believes in
    pub cores: usize,
    pub bases: bool,
    /// deviations from the base schedule, all combinations up to this many
    pub deviations: usize,
    /// deviate towards compression-library threads too
    pub aux: bool,
    /// only deviate where the current thread is about to change files (or cannot go on)
    pub exdev: bool,
    pub reads: bool,
    pub powerloss: bool,
    /// contents of temporary files do not distinguish states
    pub coarse: bool,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { cores: 2, bases: true, deviations: 0, aux: false, exdev: false, reads: false, powerloss: false, coarse: false }
    }
}

pub struct CrashState {
    pub files: Files,
    pub what: String,
    pub sched: Sched,
    pub powerloss: bool,
    pub root: std::path::PathBuf,
}

/// A prepared world with the state to start each execution from.
pub struct Prep {
    pub w: World,
    pub st: St,
    pub f0: Files,
    pub now: i64,
    /// what makes up the state, and the repository the command is given
    pub dirs: Vec<String>,
    pub repo: String,
}

pub fn cpuinfo(w: &World, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        s += &format!("processor\t: {i}\nphysical id\t: 0\nsiblings\t: {n}\ncore id\t\t: {i}\ncpu cores\t: {n}\n\n");
    }
    let p = w.p(&format!("cpuinfo-{n}"));
    std::fs::write(&p, s).unwrap();
    p.to_string_lossy().into_owned()
}

pub fn prepare_in(sc: &Scen, cores: usize, dirs: &[String], repo: &str) -> Prep {
    let mut w = World::new();
    let c = cpuinfo(&w, cores);
    w.env.push(("MC_CPUINFO".into(), c));
    let st = (sc.setup)(&w);
    let f0 = Files::capture(&w.root, dirs);
    let now = w.now.get();
    Prep { w, st, f0, now, dirs: dirs.to_vec(), repo: repo.into() }
}

impl Prep {
    pub fn reset(&self) {
        self.f0.materialise(&self.w.root, &self.dirs);
        self.w.now.set(self.now);
    }
    pub fn go(&self, sched: Sched, o: &Opts, inject: Vec<(usize, Inject)>, observe: Option<&mut dyn FnMut(&Instant_)>) -> Result<Res, String> {
        self.go_cmd(&self.st.cmd, sched, o, inject, observe)
    }
    pub fn go_cmd(&self, cmd: &[String], sched: Sched, o: &Opts, inject: Vec<(usize, Inject)>, observe: Option<&mut dyn FnMut(&Instant_)>) -> Result<Res, String> {
        let args: Vec<&str> = cmd.iter().map(|s| s.as_str()).collect();
        self.w.now.set(self.w.now.get() + 1);
        execute(Spec {
            cmds: vec![self.w.command(&args, &self.w.p(&self.repo))],
            cwds: vec![self.w.cwd()],
            root: self.w.root.clone(),
            dirs: self.dirs.clone(),
            sched,
            reads: o.reads,
            inject,
            observe,
            at: None,
            max_points: 60_000,
            exdev: o.exdev,
        })
    }
}

/// Worlds of one scenario, handed out to workers.
pub struct Pool<'a> {
    sc: &'a Scen,
    cores: usize,
    dirs: Vec<String>,
    free: Mutex<Vec<Prep>>,
}
impl<'a> Pool<'a> {
    pub fn new(sc: &'a Scen, cores: usize) -> Pool<'a> {
        Pool::in_dirs(sc, cores, &dirs())
    }
    pub fn in_dirs(sc: &'a Scen, cores: usize, dirs: &[String]) -> Pool<'a> {
        Pool { sc, cores, dirs: dirs.to_vec(), free: Mutex::new(vec![]) }
    }
    pub fn with<R>(&self, f: impl FnOnce(&Prep) -> R) -> R {
        let p = self.free.lock().unwrap().pop();
        let p = p.unwrap_or_else(|| prepare_in(self.sc, self.cores, &self.dirs, "repo"));
        p.reset();
        let r = f(&p);
        self.free.lock().unwrap().push(p);
        r
    }
}

/// All schedules: the base ones, and every combination of up to `deviations` deviations from the first.
pub fn schedules(pool: &Pool, o: &Opts, visit: &(dyn Fn(&Prep, Sched) -> Option<Res> + Sync)) {
    let first = pool.with(|p| visit(p, Sched::low()));
    let first = match first {
        Some(r) => r,
        None => return,
    };
    let mut tasks: Vec<Sched> = vec![];
    if o.bases {
        tasks.push(Sched { base: Base::High, dev: vec![] });
        tasks.push(Sched { base: Base::RoundRobin, dev: vec![] });
        for (k, named) in first.named.iter().enumerate() {
            // a thread that waits long is one schedule each, whatever thread it is
            tasks.push(Sched { base: Base::Starve(k), dev: vec![] });
            if *named || o.aux {
                tasks.push(Sched { base: Base::Prefer(k), dev: vec![] });
            }
        }
    }
    if o.deviations >= 1 {
        tasks.extend(deviations(&Sched::low(), &first, o));
    }
    let second = o.deviations >= 2;
    let more: Mutex<Vec<Sched>> = Mutex::new(vec![]);
    par_map(&tasks, |_, s| {
        let r = pool.with(|p| visit(p, s.clone()));
        if second && !s.dev.is_empty() {
            if let Some(r) = r {
                more.lock().unwrap().extend(deviations(s, &r, o));
            }
        }
    });
    let more = more.into_inner().unwrap();
    if !more.is_empty() {
        par_map(&more, |_, s| pool.with(|p| visit(p, s.clone())));
    }
}

fn deviations(s: &Sched, r: &Res, o: &Opts) -> Vec<Sched> {
    let from = s.dev.last().map(|d| d.0 + 1).unwrap_or(0);
    let mut out = vec![];
    for (i, p) in r.points.iter().enumerate().skip(from) {
        for (a, t) in p.alts.iter().enumerate() {
            if !o.aux && !r.named.get(*t as usize).copied().unwrap_or(true) {
                continue;
            }
            let mut d = s.clone();
            d.dev.push((i, a));
            out.push(d);
        }
    }
    out
}

/// Runs `sched` once, collecting crash states not in `seen` yet.
pub fn crash_states(p: &Prep, cmd: &[String], sched: Sched, o: &Opts, seen: &Mutex<HashSet<u64>>) -> (Result<Res, String>, Vec<CrashState>) {
    let mut found: Vec<CrashState> = vec![];
    let mut see = |files: &Files, what: &dyn Fn() -> String, pl: bool| {
        let k = if o.coarse { files.coarse_key() } else { files.key() };
        if seen.lock().unwrap().insert(k) {
            run().state(k);
            found.push(CrashState { files: files.clone(), what: what(), sched: sched.clone(), powerloss: pl, root: p.w.root.clone() });
        }
    };
    let r = p.go_cmd(cmd, sched.clone(), o, vec![], Some(&mut |i: &Instant_| {
        let at = || match i.op {
            Some(op) => format!("before op {} {}", i.n, op.text()),
            None => format!("after op {}", i.n),
        };
        see(i.files, &|| format!("killed {}", at()), false);
        if o.powerloss {
            let un = i.unsynced();
            if !un.is_empty() {
                see(&i.powerloss(None), &|| format!("power lost {}", at()), true);
                if un.len() > 1 {
                    for u in &un {
                        see(&i.powerloss(Some(*u)), &|| format!("power lost (one file's data gone) {}", at()), true);
                    }
                }
            }
        }
    }));
    (r, found)
}

/// Explores all schedules of the scenario's command and hands every distinct crash state to `judge`.
pub fn all_crash_states(pool: &Pool, o: &Opts, done: &(dyn Fn(&Sched, &Result<Res, String>) -> bool + Sync), judge: &(dyn Fn(&Prep, &CrashState) + Sync)) {
    let seen: Mutex<HashSet<u64>> = Default::default();
    let first = std::sync::atomic::AtomicBool::new(true);
    schedules(pool, o, &|p, s| {
        let (r, states) = crash_states(p, &p.st.cmd, s.clone(), o, &seen);
        let ok = done(&s, &r);
        if first.swap(false, std::sync::atomic::Ordering::SeqCst) {
            // the first execution finds most states: judge them on all cores
            par_states(pool, &states, judge);
        } else {
            for c in &states {
                if run().stopped() {
                    break;
                }
                judge(p, c);
            }
        }
        if ok {
            r.ok()
        } else {
            None
        }
    });
}

pub fn par_states(pool: &Pool, states: &[CrashState], judge: &(dyn Fn(&Prep, &CrashState) + Sync)) {
    par_map(states, |_, c| {
        pool.with(|p| {
            let moved = CrashState { files: c.files.relocate(&c.root, &p.w.root), what: c.what.clone(), sched: c.sched.clone(), powerloss: c.powerloss, root: p.w.root.clone() };
            judge(p, &moved)
        })
    });
}
