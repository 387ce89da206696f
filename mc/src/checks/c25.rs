//! C25: file sizes, cutting, and pack sizes.
use super::tier;
use crate::cli::*;
use crate::explore::cpuinfo;
use crate::gen::*;
use crate::repo::*;
use crate::util::*;
use std::collections::BTreeMap;
use std::path::Path;

const K: usize = 1024;
const M: usize = 1024 * 1024;

/// Contents of a given length.
fn pattern(p: usize, n: usize) -> Vec<u8> {
    match p {
        0 => noise(n as u64 / M as u64 + 1, n),
        1 => vec![0; n],
        2 => b"All work and no play makes Jack a dull boy. ".iter().copied().cycle().take(n).collect(),
        // noise, then zeros, then noise
        3 => {
            let mut v = noise(5, n / 3);
            v.resize(n - n / 3, 0);
            v.extend(noise(6, n / 3));
            v
        }
        // the same megabyte over and over
        4 => noise(9, M).into_iter().cycle().take(n).collect(),
        // 0xa0 is the encoding of an empty tree
        5 => vec![0xa0; n],
        // periods next to the largest chunk
        _ => noise(10, 8 * M + 1).into_iter().cycle().take(n).collect(),
    }
}
const PATTERNS: usize = 7;

fn sizes() -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let near = |v: &mut Vec<usize>, c: usize, d: usize| v.extend(c.saturating_sub(d)..=c + d);
    near(&mut v, 1, 1);
    v.extend([63, 64, 65, 255, 4096]);
    near(&mut v, 64 * K, 1);
    near(&mut v, 128 * K, 1);
    near(&mut v, 512 * K, tier(1, 3));
    near(&mut v, M, tier(1, 3));
    near(&mut v, 8 * M, tier(1, 3));
    near(&mut v, 8 * M + 512 * K, tier(1, 2));
    near(&mut v, 10 * M, tier(2, 4));
    near(&mut v, 16 * M, tier(0, 2));
    if run().thorough {
        near(&mut v, 2 * M, 1);
        near(&mut v, 4 * M, 1);
        near(&mut v, 32 * M, 1);
        near(&mut v, 10_000_000, 1);
        near(&mut v, 100_000_000, 1);
        v.extend((0..64).map(|i| i * 300_007));
    }
    v.sort();
    v.dedup();
    v
}

/// The chunks of every file of the only or latest snapshot, having checked everything about them.
fn chunks(repo: &Path, want: &BTreeMap<String, Vec<u8>>) -> Result<BTreeMap<String, Vec<Id>>, String> {
    let r = Repo::load(repo);
    r.invariant(&Default::default())?;
    let chrono = r.chrono();
    let s = chrono.last().ok_or("no snapshot")?;
    let store = r.reachable_store();
    let nodes = r.nodes(s)?;
    let mut out = BTreeMap::new();
    for (p, want) in want {
        match nodes.get(p).map(|n| &n.kind) {
            Some(NodeKind::File(c)) => {
                let mut off = 0;
                for (i, id) in c.iter().enumerate() {
                    let b = store.get(id).ok_or_else(|| format!("chunk {i} of {p} is missing"))?.1;
                    if b.is_empty() || want.len() < off + b.len() || want[off..off + b.len()] != b[..] {
                        return Err(format!("chunk {i} of {p} ({} bytes at {off}) is not what the file holds there", b.len()));
                    }
                    off += b.len();
                }
                if off != want.len() {
                    return Err(format!("the chunks of {p} hold {off} of its {} bytes", want.len()));
                }
                out.insert(p.clone(), c.clone());
            }
            _ => return Err(format!("{p} is not a file in the snapshot")),
        }
    }
    Ok(out)
}

fn files(w: &World, m: &BTreeMap<String, Vec<u8>>) {
    fresh(&w.src());
    for (p, b) in m {
        let q = w.p(p);
        std::fs::create_dir_all(q.parent().unwrap()).unwrap();
        std::fs::write(&q, b).unwrap();
        set_times(&q, T0);
    }
}

fn backup(w: &World, pack: &str) -> Result<(), String> {
    rm_rf(&w.repo());
    let o = w.bp(&["init", "-p", pack, "filesystem"]);
    if !o.ok() {
        return Err(o.brief());
    }
    let o = w.bp(&["backup", "../src"]);
    if !o.ok() {
        return Err(o.brief());
    }
    Ok(())
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    lengths();
    circumstances();
    packs();
    boundaries();
    (
        "model_checking",
        "every file length in windows around each threshold x 7 kinds of contents, decoded independently and restored; the same contents in 9 circumstances; every pack size in windows around the sums of the blobs x kinds of blob sequences; every sequence of up to four blob sizes",
        true,
    )
}

fn lengths() {
    let mut tasks: Vec<(usize, usize)> = sizes().into_iter().flat_map(|n| (0..PATTERNS).map(move |p| (n, p))).collect();
    tasks.retain(|(n, p)| *n < 64 * M || *p < 2);
    // the long ones first
    tasks.sort_by_key(|t| std::cmp::Reverse(t.0));
    par_map(&tasks, |_, (n, p)| {
        if run().stopped() {
            return;
        }
        let w = World::new();
        let pack = ["100MiB", "3MiB", "1MiB"][(n + p) % 3];
        run().state(fnv(&[b"len", &n.to_le_bytes(), &[*p as u8]]));
        case(&w, format!("a file of {n} bytes, contents {p}, packs of {pack}"), |w| {
            run().step();
            let m = BTreeMap::from([("src/f".to_string(), pattern(*p, *n))]);
            files(w, &m);
            backup(w, pack)?;
            let c = chunks(&w.repo(), &m)?;
            run().outcome(format!("{} chunks", match c["src/f"].len() { 0 => "no", 1 => "one", 2..=3 => "2-3", 4..=9 => "4-9", _ => "10 or more" }));
            for a in [&["check", "-r"][..], &["restore", "-t", "-o", "../out", "LAST"], &["dump", "-o", "../dumped", "LAST", "src/f"]] {
                if a[0] == "restore" {
                    fresh(&w.p("out"));
                }
                let o = w.bp(a);
                if !o.ok() {
                    return Err(format!("{}: {}", a[0], o.brief()));
                }
            }
            for f in ["out/f", "dumped"] {
                if std::fs::read(w.p(f)).map_err(|e| format!("{f}: {e}"))? != m["src/f"] {
                    return Err(format!("{} is not the file", if f == "dumped" { "what dump writes" } else { "the restored file" }));
                }
            }
            Ok(())
        });
    });
}

/// Same contents, same chunks.
fn circumstances() {
    let ns = [0, 1, 512 * K, M + 1, 3 * M, 10 * M - 1, 10 * M, 10 * M + 1];
    let tasks: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..PATTERNS).map(move |p| (*n, p))).filter(|t| run().thorough || t.1 < 4).collect();
    par_map(&tasks, |_, (n, p)| {
        if run().stopped() {
            return;
        }
        let mut w = World::new();
        let b = pattern(*p, *n);
        let name = format!("{n} bytes, contents {p}");
        let mut reference: Option<Vec<Id>> = None;
        for (k, what) in ["alone", "one core", "64 cores", "twice, under other names", "after other files", "deeper", "behind a link", "already stored", "read in another order"].iter().enumerate() {
            w.env.clear();
            if k == 1 || k == 2 {
                let c = cpuinfo(&w, if k == 1 { 1 } else { 64 });
                w.env.push(("MC_CPUINFO".into(), c));
            }
            run().state(fnv(&[b"circ", name.as_bytes(), what.as_bytes()]));
            let mut found = None;
            case(&w, format!("{name}, {what}"), |w| {
                run().step();
                let f = |l: &[&str]| l.iter().map(|x| (x.to_string(), b.clone())).collect::<BTreeMap<_, _>>();
                let mut m = match k {
                    3 => f(&["src/f", "src/g"]),
                    4 | 8 => f(&["src/z"]),
                    5 => f(&["src/a/b/c/f"]),
                    _ => f(&["src/f"]),
                };
                if k == 4 {
                    m.insert("src/a".into(), pattern(0, M + 7));
                    m.insert("src/b".into(), pattern(1, 10 * M + 7));
                }
                if k == 8 {
                    m.insert("src/zz".into(), pattern(0, 700 * K));
                }
                let names: Vec<String> = m.keys().filter(|k| ["src/f", "src/g", "src/z", "src/a/b/c/f"].contains(&k.as_str())).cloned().collect();
                files(w, &m);
                if k == 6 {
                    // the same, but the backup gets there by way of a link
                    rm_rf(&w.p("elsewhere"));
                    std::fs::rename(w.src(), w.p("elsewhere")).unwrap();
                    std::fs::create_dir(w.src()).unwrap();
                    std::os::unix::fs::symlink("../elsewhere/f", w.p("src/f")).unwrap();
                    rm_rf(&w.repo());
                    w.bp(&["init", "-p", "100MiB", "filesystem"]);
                    let o = w.bp(&["backup", "-L", "../src"]);
                    if !o.ok() {
                        return Err(o.brief());
                    }
                } else if k == 7 {
                    backup(w, "2MiB")?;
                    // everything again, with nothing known about the files
                    for (p, _) in &m {
                        set_times(&w.p(p), T0 + 1_000_000_000);
                    }
                    let before = Repo::load(&w.repo()).stored().len();
                    let o = w.bp(&["backup", "../src"]);
                    if !o.ok() {
                        return Err(o.brief());
                    }
                    let r = Repo::load(&w.repo());
                    if r.stored().values().any(|c| *c > 1) || r.stored().len() > before + 2 {
                        return Err("contents that are already stored are stored again".into());
                    }
                } else {
                    backup(w, "100MiB")?;
                }
                let c = chunks(&w.repo(), &m)?;
                for n in &names {
                    if found.is_some() && found.as_ref() != Some(&c[n]) {
                        return Err("the same contents are cut differently in one backup".into());
                    }
                    found = Some(c[n].clone());
                }
                if let (Some(r), Some(f)) = (&reference, &found) {
                    if r != f {
                        return Err(format!("cut into {} chunks, but into {} on its own", f.len(), r.len()));
                    }
                }
                Ok(())
            });
            reference = reference.or(found);
        }
    });
}

/// Packs of each kind: at least the size asked for (but the last), and without the last blob less than that.
fn pack_sizes(w: &World, size: u64, incompressible: bool) -> Result<(), String> {
    let r = Repo::load(&w.repo());
    r.invariant(&Default::default())?;
    for (id, n) in r.stored() {
        if n > 1 {
            return Err(format!("blob {} is stored {n} times", &id_str(&id)[..8]));
        }
    }
    let mut small = [0, 0];
    for p in r.packs.values() {
        let tree = p.manifest.iter().any(|b| b.tree);
        if p.manifest.is_empty() {
            return Err("an empty pack".into());
        }
        let raw: u64 = p.manifest.iter().map(|b| b.len).sum();
        let last = p.manifest.last().unwrap().len;
        // where the manifest is only names, it is what compresses least
        let manifest = 64 + 48 * p.manifest.len() as u64;
        if p.file_len < size && raw + 64 < size {
            small[tree as usize] += 1;
        }
        if incompressible && !tree {
            // less than what the compressor adds
            if raw - last >= size {
                return Err(format!("a pack of {raw} bytes, the last blob {last}, with packs of {size}"));
            }
        } else if p.file_len > 2 * size + last + manifest + 4096 && raw > 2 * size + last {
            return Err(format!("a pack takes {} bytes, the last blob {last}, with packs of {size}", p.file_len));
        }
    }
    run().outcome(format!("{} packs", r.packs.len().min(9)));
    if small[0] > 1 || small[1] > 1 {
        return Err(format!("{} packs of chunks and {} of trees are smaller than {size}", small[0], small[1]));
    }
    Ok(())
}

fn packs() {
    // four blobs of a thousand bytes: every pack size near each of the sums, and below one
    let mut sizes: Vec<u64> = vec![1, 2, 8, 9, 10, 500];
    for k in 1..=4u64 {
        let c = 1000 * k;
        let (lo, hi) = tier((c - 4, c + 36), (c - 60, c + 120));
        sizes.extend((lo..=hi).step_by(tier(2, 1)));
    }
    sizes.push(100_000);
    let tasks: Vec<(u64, usize)> = sizes.iter().flat_map(|s| (0..3).map(move |k| (*s, k))).collect();
    let chunks: Vec<Vec<(u64, usize)>> = (0..nthreads() * 4).map(|i| tasks.iter().skip(i).step_by(nthreads() * 4).copied().collect()).collect();
    par_map(&chunks, |_, c| {
        let w = World::new();
        for (s, k) in c {
            if run().stopped() {
                return;
            }
            run().state(fnv(&[b"pack", &s.to_le_bytes(), &[*k as u8]]));
            case(&w, format!("packs of {s} bytes, {}", ["noise", "text", "noise and text"][*k]), |w| {
                run().step();
                let body = |i: usize| if *k == 0 || *k == 2 && i % 2 == 0 { noise(100 + i as u64, 1000) } else { format!("{i} lorem ipsum dolor sit amet ").into_bytes().into_iter().cycle().take(1000).collect() };
                let m: BTreeMap<String, Vec<u8>> = (0..5).map(|i| (format!("src/d{}/f{i}", i / 2), body(i))).collect();
                files(w, &m);
                backup(w, &format!("{s}B"))?;
                self::chunks(&w.repo(), &m)?;
                pack_sizes(w, *s, *k == 0)
            });
        }
    });
}

/// Every sequence of up to four blobs of these sizes, kinds of contents and pack sizes.
fn boundaries() {
    let kinds: [(&str, usize, bool); 6] = [("tiny", 10, true), ("a block less one", 128 * K - 1, true), ("a block", 128 * K, true), ("half a pack", 150_000, true), ("zeros", 700_000, false), ("a pack", 300_000, true)];
    let depth = tier(3, 4);
    let mut seqs = vec![];
    for n in 1..=depth {
        seqs.extend(assignments(kinds.len(), n));
    }
    let ch: Vec<Vec<Vec<usize>>> = (0..nthreads() * 4).map(|i| seqs.iter().skip(i).step_by(nthreads() * 4).cloned().collect()).collect();
    par_map(&ch, |_, c| {
        let w = World::new();
        for s in c {
            if run().stopped() {
                return;
            }
            run().state(fnv(&[b"seq", &s.iter().map(|x| *x as u8).collect::<Vec<_>>()]));
            case(&w, format!("packs of 300000 bytes, blobs: {}", s.iter().map(|k| kinds[*k].0).collect::<Vec<_>>().join(", ")), |w| {
                run().step();
                let m: BTreeMap<String, Vec<u8>> = s
                    .iter()
                    .enumerate()
                    .map(|(i, k)| {
                        let (_, n, noisy) = kinds[*k];
                        let mut b = if noisy { noise(200 + i as u64, n) } else { vec![0; n] };
                        b[0] = i as u8;
                        b[1] = *k as u8;
                        (format!("src/f{i}"), b)
                    })
                    .collect();
                files(w, &m);
                backup(w, "300000B")?;
                chunks(&w.repo(), &m)?;
                pack_sizes(w, 300_000, s.iter().all(|k| kinds[*k].2))?;
                let o = w.bp(&["check", "-r"]);
                if !o.ok() {
                    return Err(o.brief());
                }
                Ok(())
            });
        }
    });
}
