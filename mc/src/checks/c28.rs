//! C28: usage and the sizes in the snapshot listing.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;
use crate::view::*;
use crate::zoo::*;
use std::collections::{BTreeMap, BTreeSet};

/// Contents that share, repeat and nest data in all the ways that count once or twice.
fn contents() -> Vec<(&'static str, N)> {
    let big = noise(21, 1_400_000);
    let mut big2 = big.clone();
    big2.truncate(900_000);
    big2.extend(noise(22, 2_300_000));
    let sub = || d(&[("p", f(b"papa")), ("q", d(&[("r", f(&noise(5, 1500)))]))]);
    vec![
        ("small", d(&[("p", f(b"papa")), ("u", f(b"uniform"))])),
        ("twice", d(&[("one", f(b"papa")), ("two", f(b"papa")), ("s", sub()), ("t", sub())])),
        ("nested", d(&[("s", sub()), ("l", l("s/p")), ("e", d(&[])), ("z", f(b""))])),
        ("big", d(&[("b", f(&big)), ("p", f(b"papa"))])),
        ("bigger", d(&[("b", f(&big2)), ("\u{e9}t\u{e9}", f(b"summer")), ("c", f(&noise(30, 1000)))])),
        ("nothing", d(&[])),
    ]
}

const AFTER: &[&str] = &["-", "forget the first", "forget the first and prune", "forget all but the last and prune", "copy elsewhere", "filter", "rebuild-index", "packs of an interrupted backup", "forget the last"];

#[derive(Clone)]
struct Case {
    seq: Vec<usize>,
    after: usize,
    tiny: bool,
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let c = contents();
    let mut cases = vec![];
    for len in 0..=tier(3, 4) {
        for seq in assignments(c.len(), len) {
            for after in 0..AFTER.len() {
                if len == 0 && after > 0 {
                    continue;
                }
                let i = cases.len();
                if len < 3 || run().thorough || seq.iter().enumerate().map(|(i, x)| (i + 1) * x).sum::<usize>() % AFTER.len() == after {
                    cases.push(Case { seq: seq.clone(), after, tiny: i % 2 == 1 });
                }
            }
        }
    }
    let k = nthreads() * 4;
    let chunks: Vec<Vec<(usize, Case)>> = (0..k).map(|i| cases.iter().cloned().enumerate().skip(i).step_by(k).collect()).collect();
    par_map(&chunks, |_, cs| {
        let w = World::new();
        for (n, k) in cs {
            if run().stopped() {
                return;
            }
            run().state(fnv(&[format!("{:?}{}", k.seq, k.after).as_bytes()]));
            for x in ["repo", "other"] {
                rm_rf(&w.p(x));
            }
            w.now.set(1_700_000_000 + 86_400 * (*n as i64 % 400));
            case(&w, format!("{:?}, then {}{}", k.seq.iter().map(|i| c[*i].0).collect::<Vec<_>>(), AFTER[k.after], if k.tiny { ", tiny packs" } else { "" }), |w| one(w, &c, k, *n));
        }
    });
    let ids: Vec<usize> = (0..ZOO.len()).collect();
    par_map(&ids, |_, z| {
        let w = World::new();
        case(&w, ZOO[*z].name.to_string(), |w| {
            make(w, *z)?;
            reports(w, "repo", *z, true)
        });
    });
    (
        "model_checking",
        "all histories of up to three (thorough: four) backups over six contents that share and repeat data within and across snapshots, followed by forget, prune, copy, filter, rebuild or an interruption, and 17 further repositories: usage and the snapshot listing under the combinations of --reverse, --stat, --metadata, --sizes, --file-sizes and selected snapshots must print exactly the counts, sizes and lines computed from the independently decoded repository",
        true,
    )
}

fn one(w: &World, c: &[(&str, N)], k: &Case, n: usize) -> Result<(), String> {
    let o = w.bp(&["init", "--pack-size", if k.tiny { "1B" } else { "100MiB" }, "filesystem"]);
    if !o.ok() {
        return Err(o.brief());
    }
    let mut snaps = vec![];
    let src = w.src();
    for (j, i) in k.seq.iter().enumerate() {
        let t = &c[*i].1;
        rebuild(&src, t);
        let tags = [vec![], vec!["-t", "b", "-t", "a"]][j % 2].clone();
        let mut a = vec!["backup", "--allow-empty", "--allow-repeat", "-a", "me"];
        a.extend(&tags);
        a.push("../src");
        let tags: Vec<&str> = tags.into_iter().filter(|t| *t != "-t").collect();
        do_backup(w, "repo", &a, &mut snaps, &named_tree("src", t), "me", &tags, &[&src])?;
    }
    let mut repo = "repo";
    let ids: Vec<String> = snaps.iter().map(|s| id_str(&s.id)).collect();
    match k.after {
        1 => drop(cmd_ok(w, repo, &["forget", &ids[0]])?),
        2 => {
            cmd_ok(w, repo, &["forget", &ids[0]])?;
            cmd_ok(w, repo, &["prune"])?;
        }
        3 => {
            for i in &ids[..ids.len() - 1] {
                cmd_ok(w, repo, &["forget", i])?;
            }
            cmd_ok(w, repo, &["prune"])?;
        }
        4 => {
            let o = w.bp_repo(&["init", "filesystem"], &w.p("other"));
            if !o.ok() {
                return Err(o.brief());
            }
            cmd_ok(w, repo, &["copy", "-t", "../other", "--all"])?;
            repo = "other";
        }
        5 => drop(cmd_ok(w, repo, &["filter-snapshot", "-a", "filterer", "-s", "/p$", "-s", "/e$", ids.last().unwrap()])?),
        6 => drop(cmd_ok(w, repo, &["rebuild-index"])?),
        7 => {
            // as if the last backup had not got further than its packs
            let r = Repo::load(&w.p(repo));
            let keep: Vec<&Snap> = r.snaps.values().filter(|s| id_str(&s.id) != *ids.last().unwrap()).collect();
            let need = r.needed(&keep)?;
            std::fs::remove_file(w.p(repo).join(format!("snapshots/{}.snapshot", ids.last().unwrap()))).unwrap();
            for (id, ix) in &r.indexes {
                if !ix.packs.values().flatten().any(|b| need.contains(&b.id)) {
                    std::fs::remove_file(w.p(repo).join(format!("indexes/{}.index", id_str(id)))).unwrap();
                }
            }
        }
        8 => drop(cmd_ok(w, repo, &["forget", "LAST"])?),
        _ => {}
    }
    reports(w, repo, n, false)
}

fn nice(n: u64) -> String {
    let units = ["B", "KB", "MB", "GB", "TB"];
    let mut u = 0;
    let mut div = 1u64;
    while n >= div * 1000 {
        div *= 1000;
        u += 1;
    }
    if u < 2 {
        format!("{:.0} {}", n as f64 / div as f64, units[u])
    } else {
        format!("{:.2} {}", n as f64 / div as f64, units[u])
    }
}

/// of the zones `do_backup` uses
fn offset(tz: &str) -> i64 {
    match tz {
        "Asia/Kolkata" => 19_800,
        "Pacific/Kiritimati" => 50_400,
        "UTC" => 0,
        _ => -10_800,
    }
}

fn civil(secs: i64) -> (i64, i64, i64) {
    let z = secs.div_euclid(86400) + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}

#[derive(Default, Clone)]
struct Sizes {
    meta: u64,
    files: u64,
    new: u64,
    per_file: BTreeMap<String, (u64, u64)>,
}

fn reports(w: &World, repo: &str, n: usize, deep: bool) -> Result<(), String> {
    let dir = w.p(repo);
    let r = Repo::load(&dir);
    if !r.bad.is_empty() {
        return Err(format!("{:?}", r.bad));
    }
    let live = r.live_indexes();
    let mut len: BTreeMap<Id, u64> = BTreeMap::new();
    let mut packed = 0;
    let mut packs = BTreeSet::new();
    for ix in live.values() {
        for (p, m) in &ix.packs {
            if packs.insert(*p) {
                for b in m {
                    packed += b.len;
                    len.insert(b.id, b.len);
                }
            }
        }
    }
    let store = r.reachable_store();
    // the order they are listed in: oldest first
    let o = cmd_ok(w, repo, &["snapshots"])?;
    let mut order = vec![];
    for l in o.out.lines() {
        if let Some(x) = l.strip_prefix("snapshot ") {
            let id = id_parse(x.split(' ').next().unwrap()).ok_or("an id that is none")?;
            order.push(r.snaps.get(&id).ok_or("an unknown snapshot is listed")?);
        }
    }
    if order.len() != r.snaps.len() || order.windows(2).any(|p| p[0].time > p[1].time) {
        return Err(format!("{} snapshots are listed of {}, or out of order", order.len(), r.snaps.len()));
    }
    let mut seen = BTreeSet::new();
    let mut sizes = vec![];
    let mut views = vec![];
    for s in &order {
        let mut z = Sizes::default();
        // what is new: the total of objects no earlier snapshot has
        let need = r.needed(&[s])?;
        z.new = need.iter().filter(|b| !seen.contains(*b)).map(|b| len.get(b).copied().unwrap_or(0)).sum();
        let mut order_seen = seen.clone();
        walk(&store, &len, &s.tree, "", &mut z, &mut order_seen)?;
        seen.extend(need);
        if order_seen != seen {
            return Err("the model disagrees with itself".into());
        }
        sizes.push(z);
        views.push(view(&r, s)?);
    }
    // usage
    let unique: u64 = sizes.iter().map(|z| z.new).sum();
    let reused: u64 = sizes.iter().map(|z| z.meta + z.files - z.new).sum();
    let time = |x: &Snap| {
        let t = x.time;
        let (s, ns) = ((t.div_euclid(1_000_000_000)) as i64 + offset(&x.tz), t.rem_euclid(1_000_000_000));
        let (y, m, d) = civil(s);
        let k = s.rem_euclid(86400);
        let frac = if ns == 0 { String::new() } else { format!(".{ns:09}").trim_end_matches('0').to_string() };
        format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{frac}", k / 3600, k / 60 % 60, k % 60)
    };
    let mut want = vec![];
    match (order.first(), order.last()) {
        (Some(a), Some(b)) => {
            want.push(format!("{} snapshots, from {} to {}", order.len(), time(a), time(b)));
            want.push(format!("{} unique data", nice(unique)));
            want.push(format!("{} reused (deduplicated)", nice(reused)));
        }
        _ => want.push("0 snapshots".into()),
    }
    let total = |sub: &str| -> u64 { std::fs::read_dir(dir.join(sub)).map(|d| d.flatten().map(|e| e.metadata().unwrap().len()).sum()).unwrap_or(0) };
    let count = std::fs::read_dir(dir.join("indexes")).map(|d| d.count()).unwrap_or(0);
    let (ps, is, ss) = (total("packs"), total("indexes"), total("snapshots"));
    let unused = packed as i128 - unique as i128;
    want.push(format!("{count} {} reference {} packs{}", if count == 1 { "index" } else { "indexes" }, packs.len(), if unused > 0 { format!(", including {} unused data.", nice(unused as u64)) } else { String::new() }));
    for (k, v) in [("snapshots:", ss), ("indexes:", is), ("packs:", ps), ("total:", ps + is + ss)] {
        want.push(format!("{k} {}", nice(v)));
    }
    run().step();
    let o = cmd_ok(w, repo, &["usage"])?;
    let got: Vec<String> = o.out.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| l == "0 snapshots" || [" snapshots, from ", " unique data", " reused (", " reference ", "snapshots: ", "indexes: ", "packs: ", "total: "].iter().any(|k| format!("{l} ").contains(k)) && !l.contains("repository")).collect();
    if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
        return Err(format!("usage says {:?} instead of {:?}", got.get(i), want.get(i)));
    }
    if o.out.contains("Consider running `backpak prune`") != (unused > 0) {
        return Err("usage gives the wrong advice on pruning".into());
    }
    run().outcome(format!("usage: {} unused", if unused > 0 { "some" } else { "nothing" }));
    // the listing
    let idx: Vec<usize> = (0..order.len()).collect();
    let mut picks: Vec<Vec<usize>> = vec![vec![]];
    picks.extend(idx.iter().map(|i| vec![*i]));
    if order.len() > 2 {
        picks.push(vec![order.len() - 1, 0]);
    }
    for b in 0..32usize {
        for (pi, p) in picks.iter().enumerate() {
            if !deep && !run().thorough && (b + 7 * pi + n) % 17 != 0 {
                continue;
            }
            let mut a = vec!["snapshots".to_string()];
            let flag = |i: usize| b >> i & 1 == 1;
            for (i, (s, l)) in [("-r", "--reverse"), ("--stat", "--stat"), ("-m", "--metadata"), ("-s", "--sizes"), ("-f", "--file-sizes")].iter().enumerate() {
                if flag(i) {
                    a.push(if n % 2 == 0 { s } else { l }.to_string());
                }
            }
            a.extend(p.iter().map(|i| id_str(&order[*i].id)));
            let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
            run().step();
            let o = cmd_ok(w, repo, &av)?;
            listing(&o.out, &order, &views, &sizes, flag(0), flag(1), flag(2), flag(3) || flag(4), flag(4), p).map_err(|e| format!("`{}`: {e}", a.join(" ")))?;
            run().outcome("listed");
        }
    }
    Ok(())
}

fn walk(store: &BTreeMap<Id, (bool, &Vec<u8>)>, len: &BTreeMap<Id, u64>, tree: &Id, prefix: &str, z: &mut Sizes, seen: &mut BTreeSet<Id>) -> Result<(), String> {
    let empty = vec![0xa0];
    let bytes = store.get(tree).map(|x| x.1).or((*tree == sha224(&empty)).then_some(&empty)).ok_or("missing tree")?;
    z.meta += len.get(tree).copied().unwrap_or(0);
    seen.insert(*tree);
    for (name, n) in parse_tree(bytes)? {
        let p = if prefix.is_empty() { name } else { format!("{prefix}/{name}") };
        match n.kind {
            NodeKind::Dir(t) => walk(store, len, &t, &p, z, seen)?,
            NodeKind::File(c) => {
                let mut x = (0, 0);
                for c in c {
                    let l = *len.get(&c).ok_or("missing chunk")?;
                    z.files += l;
                    if seen.insert(c) {
                        x.0 += l;
                    } else {
                        x.1 += l;
                    }
                }
                z.per_file.insert(p, x);
            }
            NodeKind::Link(_) => {}
        }
    }
    Ok(())
}

fn listing(out: &str, order: &[&Snap], views: &[View], sizes: &[Sizes], reverse: bool, stat: bool, meta: bool, with_sizes: bool, files: bool, pick: &[usize]) -> Result<(), String> {
    let mut which: Vec<usize> = if pick.is_empty() { (0..order.len()).collect() } else { pick.to_vec() };
    // one block per snapshot, keyed by id
    let mut blocks: Vec<(usize, Vec<&str>)> = vec![];
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("snapshot ") {
            let mut words = x.splitn(2, ' ');
            let id = words.next().unwrap();
            let i = order.iter().position(|s| id_str(&s.id) == id).ok_or("an unknown snapshot")?;
            let tags = order[i].tags.iter().cloned().collect::<Vec<_>>().join(" ");
            let want = if tags.is_empty() { None } else { Some(format!("({tags})")) };
            if words.next().map(String::from) != want {
                return Err(format!("tags: {l:?}"));
            }
            blocks.push((i, vec![]));
        } else {
            // (progress comes before)
            if let Some(b) = blocks.last_mut() {
                b.1.push(l);
            }
        }
    }
    let got: Vec<usize> = blocks.iter().map(|b| b.0).collect();
    let mut sorted = which.clone();
    sorted.sort();
    if reverse {
        sorted.reverse();
        which.reverse();
    }
    // several names: in the order given or in that of time
    if got != sorted && got != which {
        return Err(format!("snapshots {got:?} are listed instead of {sorted:?}"));
    }
    for (i, lines) in &blocks {
        let z = &sizes[*i];
        let mut it = lines.iter().peekable();
        if with_sizes {
            let want = format!("Sizes: {} total ({} files, {} metadata / {} new, {} reused)", nice(z.meta + z.files), nice(z.files), nice(z.meta), nice(z.new), nice(z.meta + z.files - z.new));
            let l = it.next().copied().unwrap_or("");
            if l != want {
                return Err(format!("{l:?} instead of {want:?}"));
            }
        }
        if it.next().copied() != Some(&format!("Author: {}", order[*i].author)) {
            return Err("no author".into());
        }
        let date = it.next().copied().unwrap_or("");
        let s = (order[*i].time.div_euclid(1_000_000_000)) as i64 + offset(&order[*i].tz);
        let k = s.rem_euclid(86400);
        let (y, _, d) = civil(s);
        let clock = format!("{d} {y} {:02}:{:02}:{:02}", k / 3600, k / 60 % 60, k % 60);
        if !date.starts_with("Date: ") || !date.contains(&clock) {
            return Err(format!("{date:?} does not say {clock}"));
        }
        let rest: Vec<&str> = it.copied().filter(|l| !l.is_empty()).collect();
        let (paths, rest): (Vec<&str>, Vec<&str>) = rest.into_iter().partition(|l| l.starts_with("  - "));
        if paths.iter().map(|p| p[4..].to_string()).collect::<BTreeSet<_>>() != order[*i].paths {
            return Err(format!("paths {paths:?}"));
        }
        let split = |l: &str| -> (String, Option<String>) {
            match l.split_once(" | ") {
                Some((a, b)) if files => (a.trim_end().to_string(), Some(b.to_string())),
                _ => (l.trim_end().to_string(), None),
            }
        };
        let show = |x: &(u64, u64)| format!("{} new, {} reused", nice(x.0), nice(x.1));
        if stat {
            let none = View::new();
            let old = if *i == 0 { &none } else { &views[*i - 1] };
            let bodies: Vec<(String, Option<String>)> = rest.iter().map(|l| split(l)).collect();
            let text: String = bodies.iter().map(|b| format!("{}\n", b.0)).collect();
            match_prefixed(&diff_lines(old, &views[*i], meta, false), &text, " ")?;
            if files {
                for (b, s) in &bodies {
                    let (how, p) = b.trim_start().split_once(' ').unwrap();
                    if how == "-" {
                        continue;
                    }
                    let want = z.per_file.get(p).map(show);
                    if *s != want {
                        return Err(format!("{p}: {s:?} instead of {want:?}"));
                    }
                }
            }
        } else if files {
            let want: BTreeMap<String, String> = z.per_file.iter().filter(|x| x.1 .0 > 0).map(|(p, x)| (p.clone(), show(x))).collect();
            let mut got = BTreeMap::new();
            let mut last = u64::MAX;
            for l in &rest {
                let (p, s) = split(l);
                let p = p.trim_start().to_string();
                let n = z.per_file.get(&p).ok_or_else(|| format!("unknown file {p}"))?.0;
                if n > last {
                    return Err(format!("{p} is out of order"));
                }
                last = n;
                got.insert(p, s.unwrap_or_default());
            }
            if got != want || rest.len() != want.len() {
                return Err(format!("file sizes {got:?} instead of {want:?}"));
            }
        } else if !rest.is_empty() {
            return Err(format!("unexpected {:?}", rest[0]));
        }
    }
    Ok(())
}
