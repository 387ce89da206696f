//! C21: ls, dump and cat show what is stored.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::repo::*;
use crate::util::*;
use crate::view::*;
use serde_json::Value;
use std::collections::BTreeMap;

struct Scene {
    name: &'static str,
    size: &'static str,
    srcs: Vec<(&'static str, N)>,
}

fn scenes() -> Vec<Scene> {
    let ks = kinds();
    let mut v = vec![];
    let all = dir_of(ks.iter().enumerate().map(|(i, k)| (format!("{i:02}"), k.1.clone())).chain([("sub".to_string(), Some(dir_of(ks.iter().enumerate().map(|(i, k)| (format!("{i:02}"), k.1.clone())).collect())))]).collect());
    v.push(Scene { name: "kinds", size: "100MiB", srcs: vec![("src", all.clone())] });
    v.push(Scene { name: "kinds in many packs", size: "1B", srcs: vec![("src", all)] });
    let inner = |n: &str| d(&[(n, f(n.as_bytes()))]);
    v.push(Scene {
        name: "names",
        size: "1000B",
        // each as a file, a directory and a link
        srcs: ["src", "src2", "src3"].into_iter().enumerate().map(|(k, src)| (src, N::D(names().into_iter().enumerate().map(|(i, n)| {
            let e = match (i + k) % 3 {
                0 => f(n.as_bytes()),
                1 => inner(&n),
                _ => l(&n),
            };
            (n, e)
        }).collect(), 0o755, T0))).collect(),
    });
    v.push(Scene { name: "several paths", size: "100MiB", srcs: vec![("one", d(&[("f", f(b"1")), ("e", d(&[]))])), ("two", f(b"two")), ("three", d(&[("two", f(b"2")), ("one", l("../one"))]))] });
    // many chunks, shared and repeated ones, the same blob at both ends
    let big = [noise(1, 3 << 20), noise(2, 1 << 20), noise(1, 3 << 20)].concat();
    v.push(Scene { name: "large", size: "1MiB", srcs: vec![("src", d(&[("big", f(&big)), ("prefix", f(&big[..2 << 20])), ("tail", f(&big[4 << 20..])), ("zero", f(&vec![0u8; 9 << 20]))]))] });
    v
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ss = scenes();
    par_map(&ss, |_, s| scene(s));
    (
        "model_checking",
        "bounded-exhaustive: every entry of snapshots holding all 20 kinds of entry, all awkward names, several paths and files of many chunks is listed and dumped (to the terminal, to a new file, over a longer file) and compared with the independently decoded snapshot; every path next to an existing one is refused; every blob, pack, index and snapshot is printed by cat and compared field by field",
        true,
    )
}

fn scene(s: &Scene) {
    let w = World::new();
    w.init_pack_size(s.size);
    let mut a = vec!["backup".to_string(), "-a".into(), "me".into(), "-t".into(), "t1".into(), "-t".into(), "t2".into()];
    for (n, t) in &s.srcs {
        build(&w.p(n), t);
        a.push(format!("../{n}"));
    }
    // an older snapshot of something else, and a newer one
    let mut ok = case(&w, format!("{}: backup", s.name), |w| {
        rebuild(&w.p("other"), &d(&[("f", f(b"other"))]));
        for args in [vec!["backup", "../other"], a.iter().map(|x| x.as_str()).collect(), vec!["backup", "../other"]] {
            let o = w.bp(&args);
            if !o.ok() {
                return Err(format!("backup: {}", o.brief()));
            }
            rebuild(&w.p("other"), &d(&[("f", f(b"other yet"))]));
        }
        Ok(())
    });
    let r = Repo::load(&w.repo());
    let c = r.chrono();
    if !ok || c.len() != 3 {
        run().violation(format!("{}: setup", s.name), "setup went wrong", w.history());
        return;
    }
    let snap = c[1];
    let v = match view(&r, snap) {
        Ok(v) => v,
        Err(e) => {
            run().violation(format!("{}: decode", s.name), e, w.history());
            return;
        }
    };
    for who in ["LAST~1", "HEAD~", &id_str(&snap.id)] {
        ok &= case(&w, format!("{}: ls {}", s.name, if who.len() > 10 { "ID" } else { who }), |w| {
            let o = w.bp(&["ls", who]);
            if !o.ok() {
                return Err(o.brief());
            }
            same_lines(&ls_lines(&v), &o.out)
        });
    }
    let items: Vec<(&String, &E)> = v.iter().collect();
    let workers: Vec<usize> = (0..4).collect();
    let (repo, now) = (w.repo(), w.now.get());
    par_map_n(&workers, 4, |_, me| {
        let w2 = World::new();
        copy_tree(&repo, &w2.repo()).unwrap();
        w2.now.set(now);
        for (i, (p, e)) in items.iter().enumerate() {
            if i % workers.len() == *me && !run().stopped() {
                run().state(fnv(&[s.name.as_bytes(), p.as_bytes()]));
                case(&w2, format!("{}: dump {p:?}", s.name), |w| dump(w, &v, p, e));
            }
        }
    });
    cats(s, &w, &r);
}

fn same_lines(want: &[String], got: &str) -> Result<(), String> {
    // names may hold line breaks
    let norm = |s: &str| {
        let mut v: Vec<String> = s.lines().map(String::from).collect();
        v.sort();
        v
    };
    let (a, b) = (norm(&want.join("\n")), norm(got));
    if a == b {
        return Ok(());
    }
    let missing: Vec<_> = a.iter().filter(|x| !b.contains(x)).take(3).collect();
    let extra: Vec<_> = b.iter().filter(|x| !a.contains(x)).take(3).collect();
    Err(format!("missing {missing:?}, unexpected {extra:?} ({} lines, want {})", b.len(), a.len()))
}

fn listing(v: &View, p: &str) -> Vec<u8> {
    let mut out = format!("{p}/\n");
    let pre = format!("{p}/");
    // in the order of the names
    let mut kids: BTreeMap<&str, &E> = BTreeMap::new();
    for (q, e) in v {
        if let Some(n) = q.strip_prefix(&pre) {
            if !n.contains('/') {
                kids.insert(n, e);
            }
        }
    }
    for (n, e) in kids {
        out += &match &e.kind {
            K::F(_) => format!("{p}/{n}\n"),
            K::D => format!("{p}/{n}/\n"),
            K::L(t) => format!("{p}/{n}-> {t}\n"),
        };
    }
    out.into_bytes()
}

fn dump(w: &World, v: &View, p: &str, e: &E) -> Result<(), String> {
    let want = match &e.kind {
        K::F(b) => b.clone(),
        K::L(t) => format!("{p} -> {t}\n").into_bytes(),
        K::D => listing(v, p),
    };
    let check = |what: &str, got: &[u8]| -> Result<(), String> {
        run().step();
        let same = match &e.kind {
            K::F(_) => got == want,
            // spacing is a matter of taste; the lines are not
            _ => {
                let n = |b: &[u8]| {
                    let mut v: Vec<String> = String::from_utf8_lossy(b).lines().map(|l| l.replace(' ', "")).collect();
                    v.sort();
                    v
                };
                n(got) == n(&want)
            }
        };
        if same {
            Ok(())
        } else {
            Err(format!("{what} gives {} bytes {:?}, want {} bytes {:?}", got.len(), String::from_utf8_lossy(&got[..got.len().min(200)]), want.len(), String::from_utf8_lossy(&want[..want.len().min(200)])))
        }
    };
    // an entry may look like a flag or like a path of its own
    let ok = |args: &[&str]| -> Result<Vec<u8>, String> {
        let o = w.bp(args);
        if o.ok() {
            Ok(o.raw)
        } else {
            Err(format!("{:?}: {}", &args[..args.len() - 1], o.brief()))
        }
    };
    check("dump", &ok(&["dump", "LAST~1", "--", p])?)?;
    let out = w.cwd().join("out");
    rm_rf(&out);
    let r = ok(&["dump", "-o", "out", "LAST~1", "--", p])?;
    if !r.is_empty() {
        return Err("dump -o also prints".into());
    }
    check("dump to a new file", &std::fs::read(&out).map_err(|e| e.to_string())?)?;
    let mut longer = want.clone();
    longer.extend(noise(9, 10_000));
    std::fs::write(&out, &longer).unwrap();
    ok(&["dump", "--output", "out", "LAST~1", "--", p])?;
    check("dump over a longer file", &std::fs::read(&out).map_err(|e| e.to_string())?)?;
    rm_rf(&out);
    check("dump -o -", &ok(&["dump", "-o", "-", "LAST~1", "--", p])?)?;
    if scan(&w.cwd()).keys().next().is_some() {
        return Err("dump left something in the working directory".into());
    }
    // what is not in the snapshot
    let mut wrong = vec![format!("{p}x"), format!("{p}/x"), format!("/{p}"), format!("x/{p}"), format!("../{p}"), format!("{p}/../{p}")];
    if p.chars().count() > 1 {
        let mut c: Vec<char> = p.chars().collect();
        c.pop();
        wrong.push(c.into_iter().collect());
    }
    if let Some((_, n)) = p.rsplit_once('/') {
        wrong.push(n.into());
    }
    if !matches!(e.kind, K::D) {
        // something beside it, as if it were below
        let beside = p.rsplit_once('/').map(|x| x.0).unwrap_or("");
        if let Some(s) = v.keys().find(|k| k.rsplit_once('/').map(|x| x.0).unwrap_or("") == beside) {
            wrong.push(format!("{p}/{}", s.rsplit('/').next().unwrap()));
        }
    }
    for q in wrong {
        // the same path, or another one that is there, spelt differently
        let parts: Vec<&str> = q.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        if parts.is_empty() || (!q.starts_with('/') && v.contains_key(&parts.join("/"))) {
            continue;
        }
        run().step();
        let o = w.bp(&["dump", "-o", "out", "LAST~1", "--", &q]);
        if o.ok() || o.panicked() || o.timed_out {
            return Err(format!("dump of {q:?}, which is not in the snapshot: {}", o.brief()));
        }
        if !o.raw.is_empty() {
            return Err(format!("dump of {q:?} is refused but prints something"));
        }
        if std::fs::symlink_metadata(&out).is_ok() {
            return Err(format!("dump of {q:?} is refused but writes something"));
        }
        run().outcome("refused");
    }
    run().outcome(match e.kind {
        K::F(_) => "file",
        K::D => "directory",
        K::L(_) => "link",
    });
    Ok(())
}

fn cats(s: &Scene, w: &World, r: &Repo) {
    for (id, p) in &r.packs {
        case(w, format!("{}: cat pack {}", s.name, p.manifest.len()), |w| {
            let j = json(w, &["cat", "pack", &id_str(id)])?;
            manifest(&p.manifest, &j)
        });
        let limit = tier(40, usize::MAX);
        for (b, body) in p.manifest.iter().zip(&p.blobs).take(limit) {
            case(w, format!("{}: cat blob {}", s.name, id_str(&b.id)), |w| {
                run().state(fnv(&[&b.id]));
                if !b.tree {
                    let o = w.bp(&["cat", "blob", &id_str(&b.id)]);
                    if !o.ok() || o.raw != *body {
                        return Err(format!("chunk of {} bytes printed as {} bytes: {}", body.len(), o.raw.len(), o.brief()));
                    }
                    return Ok(());
                }
                let j = json(w, &["cat", "blob", &id_str(&b.id)])?;
                let t = parse_tree(body)?;
                let m = j.as_object().ok_or("a tree is not printed as an object")?;
                if m.keys().cloned().collect::<Vec<_>>() != t.keys().cloned().collect::<Vec<_>>() {
                    return Err(format!("tree printed with entries {:?}", m.keys()));
                }
                for (n, e) in &t {
                    let g = &m[n];
                    let ids = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>());
                    let ok = match &e.kind {
                        NodeKind::File(c) => ids(&g["chunks"]) == Some(c.iter().map(id_str).collect()),
                        NodeKind::Dir(d) => g["tree"].as_str() == Some(&id_str(d)),
                        NodeKind::Link(t) => g["symlink"].as_str() == Some(t),
                    } && g["metadata"]["mode"].as_u64() == Some(e.mode as u64);
                    if !ok {
                        return Err(format!("entry {n:?} printed as {g}"));
                    }
                }
                Ok(())
            });
        }
    }
    for (id, ix) in &r.indexes {
        case(w, format!("{}: cat index", s.name), |w| {
            let j = json(w, &["cat", "index", &id_str(id)])?;
            let m = j["packs"].as_object().ok_or("no packs")?;
            let mut names: Vec<String> = m.keys().cloned().collect();
            let mut want: Vec<String> = ix.packs.keys().map(id_str).collect();
            names.sort();
            want.sort();
            if names != want {
                return Err(format!("index printed with packs {names:?}"));
            }
            for (p, man) in &ix.packs {
                manifest(man, &m[&id_str(p)])?;
            }
            let mut sup: Vec<String> = j["supersedes"].as_array().ok_or("no supersedes")?.iter().map(|x| x.as_str().unwrap_or("").into()).collect();
            sup.sort();
            let mut want: Vec<String> = ix.supersedes.iter().map(id_str).collect();
            want.sort();
            if sup != want {
                return Err("index printed with other superseded indexes".into());
            }
            Ok(())
        });
    }
    for (id, sn) in &r.snaps {
        for who in [id_str(id), id_str(id)[..8].into()] {
            case(w, format!("{}: cat snapshot {}", s.name, who.len()), |w| {
                let j = json(w, &["cat", "snapshot", &who])?;
                let strs = |v: &Value| v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<std::collections::BTreeSet<_>>()).unwrap_or_default();
                if j["author"].as_str() != Some(&sn.author) || j["tree"].as_str() != Some(&id_str(&sn.tree)) || strs(&j["tags"]) != sn.tags || strs(&j["paths"]) != sn.paths || j["time"].as_str().map(|t| t.len() < 10).unwrap_or(true) {
                    return Err(format!("snapshot printed as {j}"));
                }
                Ok(())
            });
        }
    }
    // ids of the wrong kind of object
    let any: Vec<String> = r.packs.keys().chain(r.indexes.keys()).chain(r.snaps.keys()).chain([&[0u8; 28]]).map(id_str).collect();
    let blobs: Vec<String> = r.stored().keys().take(3).map(id_str).collect();
    let have = |k: &str, id: &str| match k {
        "pack" => r.packs.keys().any(|x| id_str(x) == id),
        "index" => r.indexes.keys().any(|x| id_str(x) == id),
        "snapshot" => r.snaps.keys().any(|x| id_str(x) == id),
        _ => r.stored().keys().any(|x| id_str(x) == id),
    };
    for k in ["blob", "pack", "index", "snapshot"] {
        for id in any.iter().chain(&blobs).take(tier(12, 200)) {
            if !have(k, id) {
                case(w, format!("{}: cat {k} of something else {id}", s.name), |w| {
                    let o = w.bp(&["cat", k, id]);
                    if o.ok() || o.panicked() || !o.raw.is_empty() {
                        return Err(o.brief());
                    }
                    Ok(())
                });
            }
        }
    }
}

fn manifest(want: &[BlobRef], j: &Value) -> Result<(), String> {
    let a = j.as_array().ok_or("a manifest is not printed as a list")?;
    let got: Vec<(String, u64, String)> = a.iter().map(|e| (e["id"].as_str().unwrap_or("").into(), e["length"].as_u64().unwrap_or(u64::MAX), e["type"].as_str().unwrap_or("").into())).collect();
    let want: Vec<(String, u64, String)> = want.iter().map(|b| (id_str(&b.id), b.len, if b.tree { "tree" } else { "chunk" }.into())).collect();
    if got == want {
        Ok(())
    } else {
        Err(format!("manifest printed as {got:?}, want {want:?}"))
    }
}

fn json(w: &World, args: &[&str]) -> Result<Value, String> {
    run().step();
    let o = w.bp(args);
    if !o.ok() {
        return Err(o.brief());
    }
    serde_json::from_slice(&o.raw).map_err(|e| format!("not JSON: {e}"))
}
