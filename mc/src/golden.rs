//! Repositories written by the released version, kept in fixtures/golden (made by `mc golden`
//! with MC_BIN set to a build of it), and the sources they were made from.
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use std::path::{Path, PathBuf};

/// Compressible, but with no repetitions that chunking could fall for.
pub fn lines(n: usize) -> Vec<u8> {
    (0..n).flat_map(|i| format!("{:x} line {i}\n", (i as u32).wrapping_mul(2654435761)).into_bytes()).collect()
}

pub fn source(i: usize) -> N {
    match i {
        0 => dm(
            &[
                ("empty", fm(b"", 0o644, T0)),
                ("a file", fm(b"alpha", 0o600, T0 + 1)),
                ("ünï", fm("cödé".as_bytes(), 0o755, T0 + 2_000_000_001)),
                ("same", fm(b"alpha", 0o640, T0 + 3)),
                ("old", fm(b"sixties", 0o444, -100_000_000_001)),
                ("link", l("a file")),
                ("nowhere", l("../no/../where")),
                ("big", fm(&lines(110_000), 0o644, T0 + 4)),
                ("zeros", fm(&[0; 1_200_000], 0o644, T0 + 5)),
                ("none", dm(&[], 0o700, T0 + 6)),
                ("d", dm(&[("d", dm(&[("d", dm(&[("f", fm(b"deep", 0o644, T0 + 7))], 0o755, T0 + 8))], 0o755, T0 + 9)), ("g", fm(&noise(5, 3000), 0o644, T0))], 0o755, T0 + 10)),
            ],
            0o755,
            T0 + 11,
        ),
        1 => dm(&[("a", fm(b"alpha", 0o600, T0 + 1)), ("d", dm(&[("g", fm(&noise(5, 3000), 0o644, T0)), ("h", fm(&noise(6, 3000), 0o644, T0))], 0o755, T0 + 10))], 0o755, T0),
        2 => dm(&[("h", fm(&noise(6, 3000), 0o644, T0)), ("s", fm(b"sierra", 0o644, T0)), ("l", l("s"))], 0o711, T0 + 99),
        _ => dm(&[], 0o755, T0),
    }
}

pub struct Golden {
    pub name: &'static str,
    pub pack: &'static str,
    pub filter: bool,
    /// sources backed up ("-k": forget the k-th oldest, "prune")
    pub ops: &'static [&'static str],
}
pub const GOLDEN: &[Golden] = &[
    Golden { name: "plain", pack: "100MiB", filter: false, ops: &["0", "1", "2", "3"] },
    Golden { name: "tiny", pack: "1000B", filter: false, ops: &["1", "2", "-0", "prune", "1", "3"] },
    Golden { name: "rebuilt", pack: "2KiB", filter: false, ops: &["2", "1", "rebuild-index", "0", "-1"] },
    Golden { name: "gzip", pack: "1MiB", filter: true, ops: &["1", "2", "-0", "1"] },
];

pub fn dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or("/verif".into())).join("fixtures/golden")
}

/// What each snapshot of a golden repository was made from, oldest first: (source, author, tags).
pub fn contents(g: &Golden) -> Vec<(usize, String, Vec<String>)> {
    let mut v = vec![];
    for op in g.ops {
        if let Ok(i) = op.parse::<usize>() {
            v.push((i, format!("author {i}"), (0..i).map(|k| format!("tag{k}")).collect()));
        } else if let Some(k) = op.strip_prefix('-') {
            v.remove(k.parse().unwrap());
        }
    }
    v
}

/// `mc golden`: writes them all.
pub fn make(to: &Path) {
    for g in GOLDEN {
        let w = World::new();
        let ok = |a: &[&str]| {
            w.now.set(w.now.get() + 1000);
            let o = w.bp(a);
            assert!(o.ok(), "{a:?} {}", o.brief());
        };
        ok(&["init", "--pack-size", g.pack, "filesystem"]);
        if g.filter {
            let p = w.repo().join("config.toml");
            let c = std::fs::read_to_string(&p).unwrap();
            std::fs::write(&p, format!("filter = \"gzip -nc\"\nunfilter = \"gzip -dc\"\n{c}")).unwrap();
        }
        for op in g.ops {
            if let Ok(i) = op.parse::<usize>() {
                rebuild(&w.src(), &source(i));
                let (a, tags) = (format!("author {i}"), (0..i).map(|k| format!("tag{k}")).collect::<Vec<_>>());
                let mut args = vec!["backup", "--allow-empty", "--allow-repeat", "-a", &a];
                for t in &tags {
                    args.extend(["-t", t]);
                }
                args.push("../src");
                ok(&args);
            } else if let Some(k) = op.strip_prefix('-') {
                ok(&["forget", &format!("LAST~{}", contents_len(&w) - 1 - k.parse::<usize>().unwrap())]);
            } else {
                ok(&[op]);
            }
        }
        let d = to.join(g.name);
        copy_tree(&w.repo(), &d).unwrap();
        println!("{}: {} packs, {} indexes, {} snapshots", g.name, count(&d.join("packs")), count(&d.join("indexes")), count(&d.join("snapshots")));
    }
}
fn count(d: &Path) -> usize {
    std::fs::read_dir(d).unwrap().count()
}
fn contents_len(w: &World) -> usize {
    count(&w.repo().join("snapshots"))
}

/// Puts golden repository `g` into the world as `repo`; its snapshots, oldest first (None: a filter hides the names).
pub fn put(w: &World, g: &Golden, repo: &str) -> Result<Vec<MSnap>, String> {
    // later than anything in there
    w.now.set(w.now.get() + 1_000_000);
    rm_rf(&w.p(repo));
    copy_tree(&dir().join(g.name), &w.p(repo)).map_err(|e| e.to_string())?;
    if g.filter {
        return Ok(vec![]);
    }
    let r = Repo::load(&w.p(repo));
    let c = contents(g);
    let chrono = r.chrono();
    if chrono.len() != c.len() {
        return Err(format!("fixture {}: {} snapshots, {} expected ({:?})", g.name, chrono.len(), c.len(), r.bad));
    }
    Ok(chrono
        .iter()
        .zip(c)
        .map(|(s, (i, author, tags))| MSnap { id: s.id, tree: named_tree("src", &source(i)), author, tags: tags.into_iter().collect(), paths: s.paths.clone() })
        .collect())
}
