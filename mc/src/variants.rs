//! Source tree variants shared by the history checks: small, overlapping, one per shortcut in the code.
use crate::cli::*;

/// Overlapping contents: shared files, moved files, nested and empty directories, links, duplicates.
pub fn variants() -> Vec<(&'static str, N)> {
    let big = crate::util::noise(7, 3000);
    let big2 = crate::util::noise(8, 3000);
    vec![
        ("A", d(&[("x", f(b"xray")), ("s", d(&[("y", f(b"yankee")), ("b", f(&big))]))])),
        ("B", d(&[("x", f(b"xray")), ("t", d(&[("z", f(b"zulu")), ("b", f(&big2))])), ("e", d(&[]))])),
        ("C", d(&[("s", d(&[("y", f(b"yankee")), ("b", f(&big))])), ("w", f(b"whiskey")), ("l", l("w"))])),
        ("E", d(&[])),
    ]
}
