//! Two repositories driven through the same commands: `u` plain, `k` configured differently
//! (cached, filtered, on another kind of storage). Whatever a command prints or does must be the same.
use crate::cli::*;
use crate::repo::*;
use crate::util::*;
use std::path::Path;

pub struct Twin {
    /// what the plain repository and its companion are called, and the others
    pub u: &'static str,
    pub u2: &'static str,
    pub k: &'static str,
    pub k2: &'static str,
}
pub const TWIN: Twin = Twin { u: "plain", u2: "plain2", k: "odd", k2: "odd2" };

impl Twin {
    /// Runs the command on both sides with the same sources, clock and (empty) working directories.
    pub fn both(&self, w: &World, src: Option<&N>, args: &[&str]) -> (Out, Out) {
        let now = w.now.get();
        if let Some(n) = src {
            rebuild(&w.src(), n);
        }
        let sub = |x: &str| args.iter().map(|a| a.replace("%2", x)).collect::<Vec<_>>();
        let a = sub(self.u2);
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let x = w.bp_repo(&a, &w.p(self.u));
        w.now.set(now);
        if let Some(n) = src {
            rebuild(&w.src(), n);
        }
        let b = sub(self.k2);
        let b: Vec<&str> = b.iter().map(|s| s.as_str()).collect();
        let y = w.bp_repo(&b, &w.p(self.k));
        (x, y)
    }

    /// What was printed, without what names the repository.
    fn text(&self, w: &World, o: &Out) -> String {
        let mut s = o.out.clone();
        for (n, m) in [(self.k2, "R2"), (self.u2, "R2"), (self.k, "R"), (self.u, "R")] {
            s = s.replace(&*w.p(n).to_string_lossy(), m).replace(&format!("../{n}"), m);
        }
        s
    }

    /// As `both`; the outcomes must be equal. Returns the plain side's.
    pub fn same(&self, w: &World, src: Option<&N>, args: &[&str]) -> Result<Out, String> {
        let (x, y) = self.both(w, src, args);
        self.compare(w, args, &x, &y)?;
        Ok(x)
    }
    pub fn compare(&self, w: &World, args: &[&str], x: &Out, y: &Out) -> Result<(), String> {
        if y.panicked() || y.timed_out {
            return Err(format!("`{}`: {}", args.join(" "), y.brief()));
        }
        if x.code != y.code {
            return Err(format!("`{}`: {} but {} on the plain repository", args.join(" "), y.brief(), x.brief()));
        }
        // the others print their progress
        if !["snapshots", "ls", "dump", "cat", "diff", "usage"].contains(&args[0]) {
            return Ok(());
        }
        let (a, b) = (self.text(w, x), self.text(w, y));
        if a != b {
            let d = a.lines().zip(b.lines()).find(|(p, q)| p != q).map(|(p, q)| format!("{q:?} instead of {p:?}")).unwrap_or(format!("{} lines instead of {}", b.lines().count(), a.lines().count()));
            return Err(format!("`{}` prints {d}", args.join(" ")));
        }
        Ok(())
    }

    /// Same objects under the same names, byte for byte.
    pub fn same_objects(&self, w: &World) -> Result<(), String> {
        for (a, b) in [(self.u, self.k), (self.u2, self.k2)] {
            let f = |n: &str| {
                let mut t = scan(&w.p(n));
                t.remove(b"config.toml".as_slice());
                t
            };
            if !w.p(a).exists() && !w.p(b).exists() {
                continue;
            }
            let (x, y) = (f(a), f(b));
            if let Some(d) = tree_diff(&x, &y, Cmp { mode: false, mtime: false }) {
                return Err(format!("the repositories differ: {d}"));
            }
        }
        Ok(())
    }

    /// Restores on both sides, compares the results with each other.
    pub fn same_restore(&self, w: &World, id: &str) -> Result<(), String> {
        let now = w.now.get();
        let mut got = vec![];
        for r in [self.u, self.k] {
            let out = w.p("twin-out");
            rm_rf(&out);
            std::fs::create_dir(&out).unwrap();
            w.now.set(now);
            let o = w.bp_repo(&["restore", "-t", "-p", "-o", "../twin-out", id], &w.p(r));
            if o.panicked() || o.timed_out {
                return Err(o.brief());
            }
            got.push((o.ok(), scan(&out), o));
            rm_rf(&out);
        }
        if got[0].0 != got[1].0 {
            return Err(format!("restore: {} but {} on the plain repository", got[1].2.brief(), got[0].2.brief()));
        }
        match tree_diff(&got[0].1, &got[1].1, Cmp { mode: true, mtime: true }) {
            Some(d) => Err(format!("restore: {d}")),
            None => Ok(()),
        }
    }
}

/// Every object file of the repository: (directory, name, bytes).
pub fn object_files(repo: &Path) -> Vec<(String, String, Vec<u8>)> {
    let mut v = vec![];
    for d in ["packs", "indexes", "snapshots"] {
        if let Ok(rd) = std::fs::read_dir(repo.join(d)) {
            for e in rd.flatten() {
                v.push((d.to_string(), e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()));
            }
        }
    }
    v.sort();
    v
}

pub fn ids(repo: &Path) -> Vec<String> {
    Repo::load(repo).chrono().iter().map(|s| id_str(&s.id)).collect()
}

/// Reading commands; %2 is the companion repository.
pub fn twin_readers() -> Vec<Vec<&'static str>> {
    vec![
        vec!["snapshots", "--sizes", "--stat", "--metadata"],
        vec!["check"],
        vec!["check", "-r"],
        vec!["ls", "LAST"],
        vec!["ls", "LAST~"],
        vec!["diff", "LAST~", "LAST"],
        vec!["dump", "LAST", "src/x"],
        vec!["cat", "snapshot", "LAST"],
        vec!["usage"],
        vec!["prune", "-n"],
        vec!["copy", "-n", "--to", "../%2", "--all"],
        vec!["backup", "-n", "../src"],
    ]
}
