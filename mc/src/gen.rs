//! Exhaustive generators of small inputs, and the wrapper that runs one case.
use crate::cli::*;
use crate::util::*;
use std::path::Path;
use std::sync::atomic::Ordering::*;

/// Runs one case in its own world and reports what it finds.
pub fn case(w: &World, key: impl Into<String>, f: impl FnOnce(&World) -> Result<(), String>) -> bool {
    let key = key.into();
    run().eval();
    run().traces.fetch_add(1, Relaxed);
    run().sample(key.clone());
    w.log.borrow_mut().clear();
    match f(w) {
        Ok(()) => true,
        Err(e) => {
            run().violation(key.clone(), format!("{key}: {e}"), w.history());
            false
        }
    }
}

pub fn fm(b: &[u8], mode: u32, mtime: i128) -> N {
    N::F(b.to_vec(), mode, mtime)
}
pub fn dm(es: &[(&str, N)], mode: u32, mtime: i128) -> N {
    N::D(es.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), mode, mtime)
}

/// One of everything that can be a directory entry; `None` = absent.
pub fn kinds() -> Vec<(&'static str, Option<N>)> {
    vec![
        ("-", None),
        ("file", Some(f(b"alpha"))),
        ("same content, other mode and time", Some(fm(b"alpha", 0o600, T0 + 5_000_000_001))),
        ("empty file", Some(f(b""))),
        ("empty dir", Some(d(&[]))),
        ("dir", Some(dm(&[("f", f(b"foxtrot")), ("e", d(&[]))], 0o700, T0 + 777))),
        ("link", Some(l("a"))),
        ("dangling link", Some(l("../no/where"))),
        ("link to dir", Some(l(".."))),
        ("executable", Some(fm(b"#!", 0o755, T0 - 1))),
        ("read-only", Some(fm(b"ro", 0o444, T0))),
        ("before 1970", Some(fm(b"old", 0o644, -1_500_000_000))),
        ("after 2100", Some(fm(b"new", 0o644, 4_200_000_000_000_000_123))),
        ("read-only dir", Some(dm(&[("f", fm(b"alpha", 0o400, T0))], 0o555, T0))),
        ("content that is also a tree", Some(f(b"\xa0"))),
        ("several KB", Some(f(&noise(3, 5000)))),
        ("zeros", Some(f(&[0u8; 70000]))),
        ("deep", Some(d(&[("d", d(&[("d", d(&[("d", d(&[("f", f(b"deep"))]))]))]))]))),
        ("sticky dir", Some(dm(&[], 0o1777, T0))),
        ("private file", Some(fm(b"p", 0o000, T0))),
    ]
}

/// Names that need care somewhere.
pub fn names() -> Vec<String> {
    [
        "a", "A", " ", "a b", "b ", " b", "\tc\t", "-n", "--", ".hidden", "..x", "ü", "日本", "a\nb", "a\\b", "a*?[x]", "'\"", "$HOME", "\u{1}", "\u{7f}", "%s", "a.pack", "backpak-wip.index", "snapshots", "a:b", "~", "\u{202e}x", "e\u{301}",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([String::from_utf8(vec![b'n'; 255]).unwrap()])
    .collect()
}

/// All assignments of `slots` positions to `k` values.
pub fn assignments(k: usize, slots: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..slots {
        out = out.into_iter().flat_map(|v: Vec<usize>| (0..k).map(move |x| { let mut v = v.clone(); v.push(x); v })).collect();
    }
    out
}

/// The directory with one entry per pair of `ks`, its `which`-th member (0 or 1).
pub fn pair_forest(ks: &[(&str, Option<N>)], which: usize) -> N {
    dir_of(assignments(ks.len(), 2).into_iter().map(|a| (format!("{:02}-{:02}", a[0], a[1]), ks[a[which]].1.clone())).collect())
}

pub fn dir_of(es: Vec<(String, Option<N>)>) -> N {
    N::D(es.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect(), 0o755, T0)
}

/// Empties and recreates a directory.
pub fn fresh(p: &Path) {
    rm_rf(p);
    std::fs::create_dir(p).unwrap();
}

/// A tree and patterns that tell its entries apart in many ways.
pub fn skip_tree() -> N {
    d(&[
        ("a", f(b"alpha")),
        ("a.o", f(b"object a")),
        ("b.o", dm(&[("inner", f(b"a directory called b.o"))], 0o700, T0 + 1)),
        ("keep", f(b"keep")),
        ("dir", d(&[("a.o", f(b"object a")), ("x", f(b"xray")), ("sub", d(&[("x.o", f(b"x")), ("y", f(b"yankee"))])), ("empty", d(&[]))])),
        ("x.d", d(&[("f", f(b"foxtrot"))])),
        ("sp ace", f(b"space")),
        ("end ", f(b"ends in a space")),
        (".hid", f(b"hidden")),
        ("l.o", l("dir")),
        ("src", d(&[("src", f(b"nested"))])),
        ("\u{fc}ber", f(b"umlaut")),
    ])
}
pub fn skip_patterns() -> Vec<&'static str> {
    vec![
        r"\.o$", "/dir$", "dir/", "sub", "x", "[kK][eE]EP|keep$", "/src$", r"a\.o$", "^src", "^src/a$", "^$", r"\.(o|d)$", "e a", r"/y(\.|$)", "/src/[ab]", "^x$", "/src/src", r"\.hid", "/[^/]$", "ü", "b.o/", ".", "/inner$|/empty$", " $",
    ]
}
/// `t` without what `skip` says, and without what is below that.
pub fn minus(t: &Tree, skip: &dyn Fn(&str) -> bool) -> Tree {
    let mut out = Tree::new();
    for (k, e) in t {
        let p = String::from_utf8_lossy(k);
        let gone = p.match_indices('/').map(|(i, _)| &p[..i]).chain([&*p]).any(|q| skip(q));
        if !gone {
            out.insert(k.clone(), e.clone());
        }
    }
    out
}
