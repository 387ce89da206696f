//! Independent reader of backpak repositories: shares no code with the program under test.
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Read;
use std::path::Path;

pub type Id = [u8; 28];
pub type R<T> = Result<T, String>;

const B32: &[u8; 32] = b"0123456789abcdefghijklmnopqrstuv";

pub fn id_str(id: &Id) -> String {
    // base32hex, lower case, no padding
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0u32);
    for b in id {
        acc = (acc << 8) | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(B32[((acc >> bits) & 31) as usize] as char);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        out.push(B32[((acc << (5 - bits)) & 31) as usize] as char);
    }
    out
}

pub fn id_parse(s: &str) -> Option<Id> {
    let (mut acc, mut bits) = (0u32, 0u32);
    let mut out = vec![];
    for c in s.bytes() {
        let v = B32.iter().position(|x| *x == c)? as u32;
        acc = (acc << 5) | v;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if acc != 0 || out.len() != 28 {
        return None;
    }
    let mut id = [0; 28];
    id.copy_from_slice(&out);
    Some(id)
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i128),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
    Bool(bool),
    Null,
    F(f64),
    Tag(u64, Box<V>),
}
impl V {
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Map(m) => m.iter().find(|(kk, _)| matches!(kk, V::Text(t) if t == k)).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn text(&self) -> Option<&str> {
        match self {
            V::Text(t) => Some(t),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            V::Int(i) => Some(*i),
            V::Tag(2, b) | V::Tag(3, b) => match &**b {
                V::Bytes(x) => {
                    let mut n: i128 = 0;
                    for c in x {
                        n = (n << 8) | *c as i128;
                    }
                    Some(if matches!(self, V::Tag(3, _)) { -1 - n } else { n })
                }
                _ => None,
            },
            _ => None,
        }
    }
    pub fn arr(&self) -> Option<&[V]> {
        match self {
            V::Arr(a) => Some(a),
            _ => None,
        }
    }
    pub fn id(&self) -> Option<Id> {
        let mut id = [0u8; 28];
        match self {
            V::Bytes(b) if b.len() == 28 => id.copy_from_slice(b),
            V::Arr(a) if a.len() == 28 => {
                for (i, x) in a.iter().enumerate() {
                    id[i] = x.int()? as u8;
                }
            }
            _ => return None,
        }
        Some(id)
    }
}

pub fn cbor(b: &[u8]) -> R<V> {
    let mut p = 0;
    let v = cbor_at(b, &mut p, 0)?;
    if p != b.len() {
        return Err(format!("trailing bytes after CBOR ({} of {})", p, b.len()));
    }
    Ok(v)
}
fn cbor_at(b: &[u8], p: &mut usize, depth: usize) -> R<V> {
    if depth > 64 {
        return Err("CBOR too deep".into());
    }
    let need = |p: usize, n: usize| if p + n <= b.len() { Ok(()) } else { Err("CBOR truncated".to_string()) };
    need(*p, 1)?;
    let ib = b[*p];
    *p += 1;
    let (major, info) = (ib >> 5, ib & 31);
    let mut indef = false;
    let arg: u64 = match info {
        0..=23 => info as u64,
        24..=27 => {
            let n = 1usize << (info - 24);
            need(*p, n)?;
            let mut x = 0u64;
            for i in 0..n {
                x = (x << 8) | b[*p + i] as u64;
            }
            *p += n;
            x
        }
        31 => {
            indef = true;
            0
        }
        _ => return Err("CBOR reserved".into()),
    };
    let is_break = |p: usize| p < b.len() && b[p] == 0xff;
    Ok(match major {
        0 => V::Int(arg as i128),
        1 => V::Int(-1 - arg as i128),
        2 | 3 => {
            let mut buf = vec![];
            if indef {
                while !is_break(*p) {
                    match cbor_at(b, p, depth + 1)? {
                        V::Bytes(x) => buf.extend(x),
                        V::Text(t) => buf.extend(t.into_bytes()),
                        _ => return Err("bad chunk".into()),
                    }
                }
                *p += 1;
            } else {
                let n = arg as usize;
                if n > b.len() {
                    return Err("CBOR truncated".into());
                }
                need(*p, n)?;
                buf.extend_from_slice(&b[*p..*p + n]);
                *p += n;
            }
            if major == 2 {
                V::Bytes(buf)
            } else {
                V::Text(String::from_utf8(buf).map_err(|_| "CBOR text not UTF-8")?)
            }
        }
        4 => {
            let mut a = vec![];
            let mut i = 0;
            loop {
                if indef {
                    if is_break(*p) {
                        *p += 1;
                        break;
                    }
                } else if i >= arg {
                    break;
                }
                a.push(cbor_at(b, p, depth + 1)?);
                i += 1;
            }
            V::Arr(a)
        }
        5 => {
            let mut m = vec![];
            let mut i = 0;
            loop {
                if indef {
                    if is_break(*p) {
                        *p += 1;
                        break;
                    }
                } else if i >= arg {
                    break;
                }
                let k = cbor_at(b, p, depth + 1)?;
                let v = cbor_at(b, p, depth + 1)?;
                m.push((k, v));
                i += 1;
            }
            V::Map(m)
        }
        6 => V::Tag(arg, Box::new(cbor_at(b, p, depth + 1)?)),
        _ => match info {
            20 => V::Bool(false),
            21 => V::Bool(true),
            22 | 23 => V::Null,
            26 => V::F(f32::from_bits(arg as u32) as f64),
            27 => V::F(f64::from_bits(arg)),
            _ => return Err("CBOR simple".into()),
        },
    })
}

pub fn unzstd(b: &[u8]) -> R<Vec<u8>> {
    zstd::stream::decode_all(b).map_err(|e| format!("zstd: {e}"))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BlobRef {
    pub tree: bool,
    pub len: u64,
    pub id: Id,
}

#[derive(Clone, Debug, Default)]
pub struct Index {
    pub supersedes: BTreeSet<Id>,
    pub packs: BTreeMap<Id, Vec<BlobRef>>,
}

#[derive(Clone, Debug)]
pub struct Pack {
    pub manifest: Vec<BlobRef>,
    pub blobs: Vec<Vec<u8>>,
    pub file_len: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub id: Id,
    pub time: i128,
    pub tz: String,
    pub author: String,
    pub tags: BTreeSet<String>,
    pub paths: BTreeSet<String>,
    pub tree: Id,
    pub version: u8,
}

fn manifest_of(v: &V) -> R<Vec<BlobRef>> {
    let mut out = vec![];
    for e in v.arr().ok_or("manifest is not an array")? {
        let ty = e.get("type").or_else(|| e.get("blob_type")).and_then(|t| t.text()).ok_or("no blob type")?;
        out.push(BlobRef {
            tree: match ty.to_ascii_lowercase().as_str() {
                "tree" => true,
                "chunk" => false,
                o => return Err(format!("blob type {o}")),
            },
            len: e.get("length").and_then(|l| l.int()).ok_or("no length")? as u64,
            id: e.get("id").and_then(|i| i.id()).ok_or("no id")?,
        });
    }
    Ok(out)
}

pub fn parse_index(bytes: &[u8]) -> R<(Index, Id)> {
    let body = bytes.strip_prefix(b"MKBAKIDX1".as_slice()).ok_or("bad index magic")?;
    let raw = unzstd(body)?;
    let v = cbor(&raw)?;
    let mut ix = Index::default();
    for s in v.get("supersedes").and_then(|s| s.arr()).ok_or("no supersedes")? {
        ix.supersedes.insert(s.id().ok_or("bad superseded id")?);
    }
    match v.get("packs") {
        Some(V::Map(m)) => {
            for (k, m) in m {
                ix.packs.insert(k.id().ok_or("bad pack id")?, manifest_of(m)?);
            }
        }
        _ => return Err("no packs".into()),
    }
    Ok((ix, sha224(&raw)))
}

/// Fully decodes and verifies a pack (contents against manifest, exact layout); returns its computed id.
pub fn parse_pack(bytes: &[u8]) -> R<(Pack, Id)> {
    let n = bytes.len();
    if n < 13 || !bytes.starts_with(b"MKBAKPAK1") {
        return Err("bad pack magic".into());
    }
    let ml = u32::from_be_bytes(bytes[n - 4..].try_into().unwrap()) as usize;
    if ml + 13 > n {
        return Err("manifest length out of range".into());
    }
    let mstart = n - 4 - ml;
    let raw = unzstd(&bytes[mstart..n - 4]).map_err(|e| format!("manifest {e}"))?;
    let manifest = manifest_of(&cbor(&raw)?)?;
    // exactly the blob stream lies before the manifest
    let mut dec = zstd::stream::read::Decoder::new(&bytes[9..mstart]).map_err(|e| e.to_string())?;
    let mut all = vec![];
    dec.read_to_end(&mut all).map_err(|e| format!("blob stream: {e}"))?;
    let mut blobs = vec![];
    let mut off = 0usize;
    for b in &manifest {
        let end = off + b.len as usize;
        if end > all.len() {
            return Err("blob stream shorter than manifest".into());
        }
        let body = all[off..end].to_vec();
        if sha224(&body) != b.id {
            return Err(format!("blob {} content does not match its id", id_str(&b.id)));
        }
        blobs.push(body);
        off = end;
    }
    if off != all.len() {
        return Err("blob stream longer than manifest".into());
    }
    Ok((Pack { manifest, blobs, file_len: n as u64 }, sha224(&raw)))
}

/// Does a damaged object still hold what the original does, for a reader that takes what it needs and no more
/// (something appended; changes after the last blob in the compressed stream)?
pub fn still_reads(dir: &str, damaged: &[u8], orig: &[u8]) -> bool {
    match dir {
        "snapshots" => damaged.starts_with(orig),
        "indexes" => {
            let (Some(body), Some(ob)) = (damaged.strip_prefix(b"MKBAKIDX1".as_slice()), orig.strip_prefix(b"MKBAKIDX1".as_slice())) else { return false };
            let Ok(raw) = unzstd(ob) else { return false };
            prefix(body, raw.len()).is_some_and(|x| x == raw)
        }
        _ => {
            let n = damaged.len();
            let Ok((p, id)) = parse_pack(orig) else { return false };
            if n < 13 || !damaged.starts_with(b"MKBAKPAK1") {
                return false;
            }
            let ml = u32::from_be_bytes(damaged[n - 4..].try_into().unwrap()) as usize;
            if ml + 13 > n {
                return false;
            }
            let om = orig.len() - 4;
            let oml = u32::from_be_bytes(orig[om..].try_into().unwrap()) as usize;
            let Ok(raw) = unzstd(&orig[om - oml..om]) else { return false };
            let all: Vec<u8> = p.blobs.concat();
            sha224(&raw) == id && prefix(&damaged[n - 4 - ml..n - 4], raw.len()).is_some_and(|x| x == raw) && prefix(&damaged[9..], all.len()).is_some_and(|x| x == all)
        }
    }
}

/// The first `n` bytes of what `b` decompresses to.
fn prefix(b: &[u8], n: usize) -> Option<Vec<u8>> {
    let mut out = vec![0; n];
    zstd::stream::read::Decoder::new(b).ok()?.read_exact(&mut out).ok()?;
    Some(out)
}

pub fn parse_snapshot(bytes: &[u8]) -> R<Snap> {
    let body = bytes.strip_prefix(b"MKBAKSNP".as_slice()).ok_or("bad snapshot magic")?;
    let ver = *body.first().ok_or("short snapshot")?;
    let raw = &body[1..];
    let v = cbor(raw)?;
    let set = |k: &str| -> R<BTreeSet<String>> {
        match v.get(k) {
            None => Ok(BTreeSet::new()),
            Some(V::Arr(a)) => a.iter().map(|t| t.text().map(String::from).ok_or("not text".to_string())).collect(),
            _ => Err(format!("bad {k}")),
        }
    };
    let (time, tz) = match v.get("time") {
        Some(V::Text(t)) => (instant(t).ok_or("bad time")?, t.clone()),
        Some(t) => (
            t.int().ok_or("bad time")?,
            v.get("tz").and_then(|t| t.text()).unwrap_or("").to_string(),
        ),
        None => return Err("no time".into()),
    };
    Ok(Snap {
        id: sha224(raw),
        time,
        tz,
        author: v.get("author").and_then(|t| t.text()).ok_or("no author")?.to_string(),
        tags: set("tags")?,
        paths: set("paths")?,
        tree: v.get("tree").and_then(|t| t.id()).ok_or("no tree")?,
        version: ver,
    })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: NodeKind,
    pub mode: u32,
    pub mtime: i128,
    pub atime: i128,
    pub uid: u64,
    pub gid: u64,
    pub size: Option<u64>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum NodeKind {
    File(Vec<Id>),
    Dir(Id),
    Link(String),
}

pub fn parse_tree(b: &[u8]) -> R<BTreeMap<String, Node>> {
    let v = cbor(b)?;
    let m = match &v {
        V::Map(m) => m,
        _ => return Err("tree is not a map".into()),
    };
    let mut out = BTreeMap::new();
    for (k, n) in m {
        let name = k.text().ok_or("tree name")?.to_string();
        let md = n.get("metadata").ok_or("no metadata")?;
        let kind = if let Some(c) = n.get("chunks") {
            NodeKind::File(
                c.arr().ok_or("chunks")?.iter().map(|c| c.id().ok_or("chunk id".to_string())).collect::<R<_>>()?,
            )
        } else if let Some(t) = n.get("tree") {
            NodeKind::Dir(t.id().ok_or("subtree id")?)
        } else if let Some(s) = n.get("symlink") {
            NodeKind::Link(s.text().ok_or("symlink")?.to_string())
        } else {
            return Err(format!("node {name} of unknown kind"));
        };
        let i = |k: &str| md.get(k).and_then(|x| x.int());
        let windows = md.get("type").and_then(|x| x.text()) == Some("windows");
        let node = Node {
            kind,
            mode: if windows { 0 } else { i("mode").ok_or("mode")? as u32 },
            mtime: if windows { i("write_time").unwrap_or(0) } else { i("mtime").ok_or("mtime")? },
            atime: i("atime").unwrap_or(0),
            uid: i("uid").unwrap_or(0) as u64,
            gid: i("gid").unwrap_or(0) as u64,
            size: i("size").map(|x| x as u64),
        };
        if out.insert(name.clone(), node).is_some() {
            return Err(format!("duplicate entry {name}"));
        }
    }
    Ok(out)
}

/// A whole repository, decoded.
#[derive(Clone, Debug, Default)]
pub struct Repo {
    pub packs: BTreeMap<Id, Pack>,
    pub indexes: BTreeMap<Id, Index>,
    pub snaps: BTreeMap<Id, Snap>,
    /// Files whose name is not an object name (".part" temporaries, strays).
    pub strays: Vec<String>,
    /// Objects under a final name that fail to decode or whose name is not their identity.
    pub bad: Vec<String>,
    /// a file's recorded size need not be that of its contents
    pub any_size: bool,
}

fn list(dir: &Path, ext: &str, strays: &mut Vec<String>) -> Vec<(Id, Vec<u8>, String)> {
    let mut out = vec![];
    if let Ok(rd) = fs::read_dir(dir) {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            match n.strip_suffix(ext).and_then(id_parse) {
                Some(id) => {
                    // may vanish under us in concurrent explorations
                    if let Ok(b) = fs::read(e.path()) {
                        out.push((id, b, n));
                    }
                }
                None => strays.push(n),
            }
        }
    }
    out.sort();
    out
}

impl Repo {
    pub fn load(dir: &Path) -> Repo {
        let mut r = Repo::default();
        for (sub, ext) in [("packs", ".pack"), ("indexes", ".index"), ("snapshots", ".snapshot")] {
            for (_, b, n) in list(&dir.join(sub), ext, &mut r.strays) {
                r.put(sub, &n, &b);
            }
        }
        r
    }

    /// From files given by their path relative to the repository.
    pub fn from_files<'a>(files: impl Iterator<Item = (String, &'a [u8])>) -> Repo {
        let mut r = Repo::default();
        for (p, b) in files {
            if let Some((sub, n)) = p.split_once('/') {
                if matches!(sub, "packs" | "indexes" | "snapshots") {
                    r.put(sub, n, b);
                }
            }
        }
        r
    }

    fn put(&mut self, sub: &str, n: &str, b: &[u8]) {
        let ext = match sub {
            "packs" => ".pack",
            "indexes" => ".index",
            _ => ".snapshot",
        };
        let id = match n.strip_suffix(ext).and_then(id_parse) {
            Some(id) => id,
            None => {
                self.strays.push(n.to_string());
                return;
            }
        };
        let wrong = format!("{n}: name is not the identity of its contents");
        match sub {
            "packs" => match parse_pack(b) {
                Ok((p, cid)) if cid == id => {
                    self.packs.insert(id, p);
                }
                Ok(_) => self.bad.push(wrong),
                Err(e) => self.bad.push(format!("{n}: {e}")),
            },
            "indexes" => match parse_index(b) {
                Ok((p, cid)) if cid == id => {
                    self.indexes.insert(id, p);
                }
                Ok(_) => self.bad.push(wrong),
                Err(e) => self.bad.push(format!("{n}: {e}")),
            },
            _ => match parse_snapshot(b) {
                Ok(s) if s.id == id => {
                    self.snaps.insert(id, s);
                }
                Ok(_) => self.bad.push(wrong),
                Err(e) => self.bad.push(format!("{n}: {e}")),
            },
        }
    }

    /// Indexes that count: not superseded by any other present index.
    pub fn live_indexes(&self) -> BTreeMap<Id, &Index> {
        let sup: BTreeSet<Id> = self.indexes.values().flat_map(|i| i.supersedes.iter().copied()).collect();
        self.indexes.iter().filter(|(k, _)| !sup.contains(*k)).map(|(k, v)| (*k, v)).collect()
    }

    /// Blobs a reader can find: listed by a live index, in a pack that exists and holds them there.
    pub fn reachable_store(&self) -> BTreeMap<Id, (bool, &Vec<u8>)> {
        let mut out = BTreeMap::new();
        for ix in self.live_indexes().values() {
            for pid in ix.packs.keys() {
                if let Some(p) = self.packs.get(pid) {
                    for (r, b) in p.manifest.iter().zip(&p.blobs) {
                        out.insert(r.id, (r.tree, b));
                    }
                }
            }
        }
        out
    }

    /// Structural invariants that hold at rest and (with `instant`) at every instant.
    pub fn invariant(&self, pub_ignore: &BTreeSet<Id>) -> Result<(), String> {
        if let Some(b) = self.bad.first() {
            return Err(format!("bad object: {b}"));
        }
        for (id, ix) in self.live_indexes() {
            for (pid, man) in &ix.packs {
                match self.packs.get(pid) {
                    None => return Err(format!("index {} lists missing pack {}", &id_str(&id)[..8], &id_str(pid)[..8])),
                    Some(p) if p.manifest != *man => {
                        return Err(format!("index {} disagrees with manifest of pack {}", &id_str(&id)[..8], &id_str(pid)[..8]))
                    }
                    _ => {}
                }
            }
        }
        let store = self.reachable_store();
        for (sid, s) in &self.snaps {
            if pub_ignore.contains(sid) {
                continue;
            }
            self.expand_with(&store, s).map_err(|e| format!("snapshot {}: {e}", &id_str(sid)[..8]))?;
        }
        Ok(())
    }

    pub fn expand(&self, s: &Snap) -> R<Tree> {
        self.expand_with(&self.reachable_store(), s)
    }

    pub fn expand_with(&self, store: &BTreeMap<Id, (bool, &Vec<u8>)>, s: &Snap) -> R<Tree> {
        let mut t = Tree::new();
        self.walk(store, &s.tree, &mut vec![], &mut t, 0)?;
        Ok(t)
    }

    fn walk(
        &self,
        store: &BTreeMap<Id, (bool, &Vec<u8>)>,
        id: &Id,
        prefix: &mut Vec<u8>,
        out: &mut Tree,
        depth: usize,
    ) -> R<()> {
        if depth > 400 {
            return Err("tree too deep".into());
        }
        let empty = [0xa0u8];
        let bytes: &[u8] = match store.get(id) {
            Some((true, b)) => b,
            Some((false, b)) => b,
            None if *id == sha224(&empty) => &empty,
            None => return Err(format!("tree {} is not reachable", &id_str(id)[..8])),
        };
        for (name, n) in parse_tree(bytes)? {
            let l = prefix.len();
            if !prefix.is_empty() {
                prefix.push(b'/');
            }
            prefix.extend(name.as_bytes());
            let kind = match &n.kind {
                NodeKind::File(chunks) => {
                    let mut body = vec![];
                    for c in chunks {
                        match store.get(c) {
                            Some((_, b)) => body.extend_from_slice(b),
                            None => return Err(format!("chunk {} is not reachable", &id_str(c)[..8])),
                        }
                    }
                    if !self.any_size && n.size.is_some() && n.size != Some(body.len() as u64) {
                        return Err(format!("{name}: recorded size {:?}, content {}", n.size, body.len()));
                    }
                    Kind::File(body)
                }
                NodeKind::Dir(_) => Kind::Dir,
                NodeKind::Link(t) => Kind::Link(t.as_bytes().to_vec()),
            };
            out.insert(prefix.clone(), Ent { kind, mode: n.mode & 0o7777, mtime: n.mtime });
            if let NodeKind::Dir(sub) = &n.kind {
                self.walk(store, sub, prefix, out, depth + 1)?;
            }
            prefix.truncate(l);
        }
        Ok(())
    }

    /// Every entry of a snapshot with its recorded metadata.
    pub fn nodes(&self, s: &Snap) -> R<BTreeMap<String, Node>> {
        let store = self.reachable_store();
        let mut out = BTreeMap::new();
        let mut todo = vec![(String::new(), s.tree)];
        let empty = [0xa0u8];
        while let Some((prefix, id)) = todo.pop() {
            let bytes: &[u8] = match store.get(&id) {
                Some((_, b)) => b,
                None if id == sha224(&empty) => &empty,
                None => return Err("missing tree".into()),
            };
            for (name, n) in parse_tree(bytes)? {
                let p = if prefix.is_empty() { name } else { format!("{prefix}/{name}") };
                if let NodeKind::Dir(sub) = &n.kind {
                    todo.push((p.clone(), *sub));
                }
                out.insert(p, n);
            }
        }
        Ok(out)
    }

    /// Ids of all blobs snapshots need (trees and chunks); the empty tree is optional.
    pub fn needed(&self, snaps: &[&Snap]) -> R<BTreeSet<Id>> {
        let store = self.reachable_store();
        let mut out = BTreeSet::new();
        let mut todo: Vec<Id> = snaps.iter().map(|s| s.tree).collect();
        let empty = [0xa0u8];
        let empty_id = sha224(&empty);
        while let Some(id) = todo.pop() {
            if !out.insert(id) {
                continue;
            }
            let bytes: &[u8] = match store.get(&id) {
                Some((_, b)) => b,
                None if id == empty_id => &empty,
                None => return Err("missing tree".into()),
            };
            for (_, n) in parse_tree(bytes)? {
                match n.kind {
                    NodeKind::File(c) => out.extend(c),
                    NodeKind::Dir(d) => todo.push(d),
                    _ => {}
                }
            }
        }
        Ok(out)
    }

    /// All blob occurrences over all packs.
    pub fn stored(&self) -> BTreeMap<Id, usize> {
        let mut m = BTreeMap::new();
        for p in self.packs.values() {
            for b in &p.manifest {
                *m.entry(b.id).or_insert(0) += 1;
            }
        }
        m
    }

    /// Snapshots in chronological order.
    pub fn chrono(&self) -> Vec<&Snap> {
        let mut v: Vec<&Snap> = self.snaps.values().collect();
        v.sort_by_key(|s| (s.time, s.id));
        v
    }
}

/// yyyy-mm-ddThh:mm:ss[.fff]+hh:mm[zone], in nanoseconds since the epoch.
pub fn instant(t: &str) -> Option<i128> {
    let n = |a: usize, b: usize| t.get(a..b).and_then(|x| x.parse::<i64>().ok());
    let (y, m, d) = (n(0, 4)?, n(5, 7)?, n(8, 10)?);
    let (yy, mm) = if m <= 2 { (y - 1, m + 9) } else { (y, m - 3) };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let days = era * 146_097 + yoe * 365 + yoe / 4 - yoe / 100 + (153 * mm + 2) / 5 + d - 1 - 719_468;
    let mut at = 19;
    let mut ns = 0i128;
    if t.get(19..20)? == "." {
        let e = 20 + t[20..].find(|c: char| !c.is_ascii_digit())?;
        ns = format!("{:0<9}", &t[20..e]).parse().ok()?;
        at = e;
    }
    let sign = match t.get(at..at + 1)? {
        "+" => 1,
        "-" => -1,
        _ => return None,
    };
    let off = sign * (n(at + 1, at + 3)? * 3600 + n(at + 4, at + 6)? * 60);
    Some((days * 86_400 + n(11, 13)? * 3600 + n(14, 16)? * 60 + n(17, 19)? - off) as i128 * 1_000_000_000 + ns)
}
