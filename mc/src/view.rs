//! What the reporting commands should print, computed from decoded snapshots or the file system.
use crate::repo::*;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::MetadataExt;
use std::path::Path;

/// An entry as far as reports are concerned; `what` identifies a file's contents.
#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub kind: K,
    pub mode: u32,
    pub owner: (u64, u64),
    pub mtime: i128,
    pub atime: i128,
    pub size: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    F(Vec<u8>),
    D,
    L(String),
}
pub type View = BTreeMap<String, E>;

pub fn view(r: &Repo, s: &Snap) -> R<View> {
    let store = r.reachable_store();
    r.nodes(s)?
        .into_iter()
        .map(|(p, n)| {
            let mut size = 0;
            let kind = match n.kind {
                NodeKind::Dir(_) => K::D,
                NodeKind::Link(t) => K::L(t),
                NodeKind::File(c) => {
                    let mut b = vec![];
                    for c in c {
                        b.extend_from_slice(store.get(&c).ok_or("missing chunk")?.1);
                    }
                    size = b.len() as u64;
                    K::F(b)
                }
            };
            Ok((p, E { kind, mode: n.mode & 0o7777, owner: (n.uid, n.gid), mtime: n.mtime, atime: n.atime, size }))
        })
        .collect()
}

/// The file system below (and including) `p`, under `name`, links as they are.
pub fn fs_view(p: &Path, name: &str, out: &mut View) {
    let Ok(m) = std::fs::symlink_metadata(p) else { return };
    let ns = |s: i64, n: i64| s as i128 * 1_000_000_000 + n as i128;
    let ft = m.file_type();
    let kind = if ft.is_dir() {
        K::D
    } else if ft.is_symlink() {
        K::L(std::fs::read_link(p).unwrap().to_string_lossy().into_owned())
    } else if ft.is_file() {
        K::F(std::fs::read(p).unwrap())
    } else {
        return;
    };
    let size = if ft.is_file() { m.size() } else { 0 };
    out.insert(name.into(), E { kind, mode: m.mode() & 0o7777, owner: (m.uid() as u64, m.gid() as u64), mtime: ns(m.mtime(), m.mtime_nsec()), atime: ns(m.atime(), m.atime_nsec()), size });
    if ft.is_dir() {
        for e in std::fs::read_dir(p).unwrap().flatten() {
            fs_view(&e.path(), &format!("{name}/{}", e.file_name().to_string_lossy()), out);
        }
    }
}

pub fn entry_line(p: &str, e: &E) -> String {
    match &e.kind {
        K::F(_) => p.into(),
        K::D => format!("{p}/"),
        K::L(t) => format!("{p} -> {t}"),
    }
}

pub fn ls_lines(v: &View) -> Vec<String> {
    v.iter().map(|(p, e)| entry_line(p, e)).collect()
}

/// Expected lines: the letters any of which is right, and the rest.
pub fn diff_lines(old: &View, new: &View, meta: bool, reuse: bool) -> Vec<(String, String)> {
    let mut out = vec![];
    let keys: BTreeSet<&String> = old.keys().chain(new.keys()).collect();
    for p in keys {
        match (old.get(p), new.get(p)) {
            (None, Some(n)) => out.push(("+".to_string(), entry_line(p, n))),
            (Some(o), None) => out.push(("-".into(), entry_line(p, o))),
            (Some(o), Some(n)) => {
                let replaced = match (&o.kind, &n.kind) {
                    (K::F(a), K::F(b)) => {
                        // against the file system, equal size and time is taken as equal
                        if a != b && !(reuse && o.mtime == n.mtime && o.size == n.size) {
                            out.push(("C".into(), entry_line(p, n)));
                            continue;
                        }
                        false
                    }
                    (K::L(a), K::L(b)) => a != b,
                    (K::D, K::D) => false,
                    _ => true,
                };
                if replaced {
                    out.push(("-".into(), entry_line(p, o)));
                    out.push(("+".into(), entry_line(p, n)));
                    continue;
                }
                let mut l = String::new();
                if o.owner != n.owner {
                    l.push('O');
                }
                if o.mode != n.mode {
                    l.push('P');
                }
                if o.mtime != n.mtime {
                    l.push('T');
                }
                if o.atime != n.atime {
                    l.push('A');
                }
                if meta && !l.is_empty() {
                    out.push((l, entry_line(p, n)));
                }
            }
            _ => unreachable!(),
        }
    }
    out
}

/// Is `text` exactly those lines, in any order?
pub fn match_diff(want: &[(String, String)], text: &str) -> Result<(), String> {
    match_prefixed(want, text, "")
}

/// As `match_diff`; every line starts with `indent`. Entries may hold newlines.
pub fn match_prefixed(want: &[(String, String)], text: &str, indent: &str) -> Result<(), String> {
    let mut rest: Vec<Option<&str>> = vec![];
    for l in text.split_inclusive('\n') {
        rest.push(Some(l));
    }
    // lines of entries whose names hold line breaks come as several
    let mut lines: Vec<String> = rest.into_iter().flatten().map(|s| s.strip_suffix('\n').unwrap_or(s).to_string()).collect();
    for (letters, body) in want {
        let parts: Vec<&str> = body.split('\n').collect();
        let at = (0..lines.len()).find(|i| {
            let Some(l) = lines[*i].strip_prefix(indent) else { return false };
            let mut c = l.chars();
            matches!(c.next(), Some(x) if letters.contains(x)) && c.next() == Some(' ') && c.as_str() == parts[0] && parts[1..].iter().enumerate().all(|(k, p)| lines.get(i + 1 + k).map(|l| l == p).unwrap_or(false))
        });
        match at {
            Some(i) => {
                lines.drain(i..i + parts.len());
            }
            None => return Err(format!("no line \"[{letters}] {body}\"")),
        }
    }
    match lines.first() {
        Some(l) => Err(format!("unexpected line {l:?}")),
        None => Ok(()),
    }
}
