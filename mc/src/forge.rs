//! An independent encoder of the stored formats.
use crate::repo::*;
use crate::util::*;
use std::path::Path;

#[derive(Clone)]
pub enum C {
    U(u64),
    /// -1-n
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<C>),
    M(Vec<(C, C)>),
    /// a map whose length is not given in advance
    I(Vec<(C, C)>),
    Null,
}
pub fn t(s: &str) -> C {
    C::T(s.into())
}
pub fn int(i: i128) -> C {
    if i >= 0 {
        C::U(i as u64)
    } else {
        C::N((-1 - i) as u64)
    }
}
pub fn id(i: &Id) -> C {
    C::B(i.to_vec())
}
pub fn map(es: Vec<(&str, C)>) -> C {
    C::M(es.into_iter().map(|(k, v)| (t(k), v)).collect())
}

/// An entry of a tree.
pub fn node(es: Vec<(&str, C)>) -> C {
    C::I(es.into_iter().map(|(k, v)| (t(k), v)).collect())
}

fn head(o: &mut Vec<u8>, major: u8, n: u64) {
    let m = major << 5;
    match n {
        0..=23 => o.push(m | n as u8),
        24..=0xff => o.extend([m | 24, n as u8]),
        0x100..=0xffff => {
            o.push(m | 25);
            o.extend((n as u16).to_be_bytes());
        }
        0x1_0000..=0xffff_ffff => {
            o.push(m | 26);
            o.extend((n as u32).to_be_bytes());
        }
        _ => {
            o.push(m | 27);
            o.extend(n.to_be_bytes());
        }
    }
}
pub fn encode(c: &C) -> Vec<u8> {
    let mut o = vec![];
    put(&mut o, c);
    o
}
fn put(o: &mut Vec<u8>, c: &C) {
    match c {
        C::U(n) => head(o, 0, *n),
        C::N(n) => head(o, 1, *n),
        C::B(b) => {
            head(o, 2, b.len() as u64);
            o.extend(b);
        }
        C::T(s) => {
            head(o, 3, s.len() as u64);
            o.extend(s.as_bytes());
        }
        C::A(v) => {
            head(o, 4, v.len() as u64);
            v.iter().for_each(|x| put(o, x));
        }
        C::M(v) => {
            head(o, 5, v.len() as u64);
            v.iter().for_each(|(k, x)| {
                put(o, k);
                put(o, x);
            });
        }
        C::I(v) => {
            o.push(0xbf);
            v.iter().for_each(|(k, x)| {
                put(o, k);
                put(o, x);
            });
            o.push(0xff);
        }
        C::Null => o.push(0xf6),
    }
}

fn manifest(blobs: &[(bool, Vec<u8>)]) -> C {
    C::A(blobs.iter().map(|(tree, b)| map(vec![("type", t(if *tree { "tree" } else { "chunk" })), ("length", C::U(b.len() as u64)), ("id", id(&sha224(b)))])).collect())
}

/// Writes a pack of these blobs; its id.
pub fn pack(repo: &Path, blobs: &[(bool, Vec<u8>)]) -> Id {
    let m = encode(&manifest(blobs));
    let all: Vec<u8> = blobs.iter().flat_map(|b| b.1.clone()).collect();
    let z = zstd::stream::encode_all(&m[..], 0).unwrap();
    let mut o = b"MKBAKPAK1".to_vec();
    o.extend(zstd::stream::encode_all(&all[..], 0).unwrap());
    o.extend(&z);
    o.extend((z.len() as u32).to_be_bytes());
    let i = sha224(&m);
    write(repo, "packs", &i, "pack", &o);
    i
}
pub fn index(repo: &Path, supersedes: &[Id], packs: &[(Id, &[(bool, Vec<u8>)])]) -> Id {
    let mut sup = supersedes.to_vec();
    sup.sort();
    let mut ps: Vec<_> = packs.iter().map(|(i, b)| (id(i), manifest(b))).collect();
    ps.sort_by(|a, b| encode(&a.0).cmp(&encode(&b.0)));
    let m = encode(&map(vec![("supersedes", C::A(sup.iter().map(id).collect())), ("packs", C::M(ps))]));
    let mut o = b"MKBAKIDX1".to_vec();
    o.extend(zstd::stream::encode_all(&m[..], 0).unwrap());
    let i = sha224(&m);
    write(repo, "indexes", &i, "index", &o);
    i
}
pub fn snapshot(repo: &Path, version: u8, body: &C) -> Id {
    let m = encode(body);
    let mut o = b"MKBAKSNP".to_vec();
    o.push(version);
    o.extend(&m);
    let i = sha224(&m);
    write(repo, "snapshots", &i, "snapshot", &o);
    i
}
fn write(repo: &Path, d: &str, i: &Id, ext: &str, b: &[u8]) {
    std::fs::create_dir_all(repo.join(d)).unwrap();
    std::fs::write(repo.join(d).join(format!("{}.{ext}", id_str(i))), b).unwrap();
}
