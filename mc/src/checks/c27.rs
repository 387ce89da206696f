//! C27: skip patterns of a backup.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::*;
use crate::util::*;

/// Where the patterns come from.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Way {
    Args,
    Config,
    Both,
    Local,
    LocalOnly,
    HomeConfig,
}
use Way::*;

pub fn run_check() -> (&'static str, &'static str, bool) {
    let ps = skip_patterns();
    let mut cases: Vec<(Vec<String>, Way, u8)> = vec![(vec![], Args, 0)];
    for way in [Config, Local, LocalOnly, HomeConfig] {
        // lists of no patterns
        cases.extend((0..4).map(|variant| (vec![], way, variant)));
    }
    for way in [Args, Config, Local, LocalOnly, HomeConfig] {
        for p in &ps {
            for variant in 0..4u8 {
                cases.push((vec![p.to_string()], way, variant));
            }
        }
    }
    for a in assignments(ps.len(), 2) {
        if a[0] == a[1] && !run().thorough {
            continue;
        }
        let v = vec![ps[a[0]].to_string(), ps[a[1]].to_string()];
        cases.push((v.clone(), Both, (a[0] % 2) as u8));
        if a[0] < a[1] {
            cases.push((v.clone(), Args, 1));
            cases.push((v.clone(), Config, 0));
        }
        if run().thorough {
            for way in [Args, Config, Both, Local, LocalOnly, HomeConfig] {
                for variant in 0..4 {
                    cases.push((v.clone(), way, variant));
                }
            }
        }
    }
    if run().thorough {
        for a in assignments(ps.len(), 3) {
            if a[0] < a[1] && a[1] < a[2] {
                cases.push((a.iter().map(|i| ps[*i].to_string()).collect(), if a[0] % 2 == 0 { Args } else { Both }, (a[1] % 4) as u8));
            }
        }
    }
    let n = nthreads() * 4;
    let chunks: Vec<&[(Vec<String>, Way, u8)]> = cases.chunks(cases.len() / n + 1).collect();
    par_map(&chunks, |_, c| {
        let w = World::new();
        w.init_pack_size("100MiB");
        build(&w.src(), &skip_tree());
        build(&w.p("two"), &d(&[("a.o", f(b"2")), ("dir", d(&[("keep", f(b"3"))]))]));
        let o = w.bp(&["backup", "../src"]);
        if !o.ok() {
            return run().violation("setup", o.brief(), "");
        }
        save(&w.root, &["repo"], "start");
        for (pats, way, variant) in c.iter() {
            if run().stopped() {
                return;
            }
            restore(&w.root, &["repo"], "start");
            // an absolute pattern, too
            case(&w, format!("{way:?} {pats:?}{}", ["", ", two paths", ", dereferencing", ", empty repository"][*variant as usize]), |w| one(w, pats, *way, *variant));
            run().state(fnv(&[format!("{pats:?}{way:?}{variant}").as_bytes()]));
        }
    });
    absolute();
    invalid();
    run().assume("patterns are interpreted by the same version of the same regular expression crate the program uses");
    (
        "model_checking",
        "no, all single patterns and all pairs over 24 patterns x where they are given (arguments, configuration file, local file, both) x {one path, two paths, dereferencing, no earlier snapshot}: the decoded snapshot must be the source minus the matching absolute paths and what lies below them; invalid patterns in every place are refused with the repository unchanged",
        true,
    )
}

fn toml(pats: &[String]) -> String {
    format!("skips = [{}]\n", pats.iter().map(|p| crate::report::js(p)).collect::<Vec<_>>().join(", "))
}

/// Runs a backup with the patterns given in the stated way; the arguments follow.
fn backup(w: &World, pats: &[String], way: Way, extra: &[&str]) -> Out {
    let (mut args, mut conf, mut local): (Vec<String>, Option<Vec<String>>, Option<Vec<String>>) = (vec![], None, None);
    match way {
        Args => args = pats.to_vec(),
        Config | HomeConfig => conf = Some(pats.to_vec()),
        Both => {
            conf = Some(pats[..1].to_vec());
            args = pats[1..].to_vec();
        }
        // the local file's patterns replace those of the configuration
        Local => {
            conf = Some(vec!["keep".into(), "alpha".into()]);
            local = Some(pats.to_vec());
        }
        LocalOnly => local = Some(pats.to_vec()),
    }
    let mut a = vec!["backup".to_string(), "--allow-empty".into(), "--allow-repeat".into()];
    for p in args {
        a.push("-s".into());
        a.push(p);
    }
    a.extend(extra.iter().map(|s| s.to_string()));
    let cp = w.p("home/.config");
    rm_rf(&cp);
    std::fs::create_dir(&cp).unwrap();
    let elsewhere = w.p("conf.toml");
    if let Some(c) = conf {
        std::fs::write(if way == HomeConfig { cp.join("backpak.toml") } else { elsewhere.clone() }, toml(&c)).unwrap();
    }
    if let Some(l) = &local {
        std::fs::write(w.cwd().join(".backpak"), toml(l)).unwrap();
    }
    w.now.set(w.now.get() + 1);
    w.log.borrow_mut().push(format!("backpak {} [{way:?}]", a.join(" ")));
    let mut c = std::process::Command::new(bin());
    c.env_clear().env("HOME", w.p("home")).env("PATH", "/usr/bin:/bin").env("TZ", w.tz.get()).env("MC_NOW", w.now.get().to_string()).current_dir(w.cwd()).stdin(std::process::Stdio::null());
    if let Some(p) = preload() {
        c.env("LD_PRELOAD", p);
    }
    match way {
        Config | Both | Local => {
            c.arg("--config").arg(&elsewhere);
        }
        HomeConfig | LocalOnly => {}
        Args => {
            c.arg("--config").arg("");
        }
    }
    c.arg("--repository").arg(w.repo()).args(&a);
    run().step();
    let o = run_command(c, w.timeout);
    let _ = std::fs::remove_file(w.cwd().join(".backpak"));
    let _ = std::fs::remove_file(elsewhere);
    rm_rf(&cp);
    o
}

fn one(w: &World, pats: &[String], way: Way, variant: u8) -> Result<(), String> {
    let set = regex::RegexSet::new(pats).map_err(|e| e.to_string())?;
    let mut extra = vec!["../src"];
    let mut want = named_tree("src", &skip_tree());
    match variant {
        1 => {
            extra.push("../two");
            want.extend(scan_named(&w.p("two"), "two"));
        }
        2 => {
            extra.insert(0, "-L");
            // the one link leads to a directory
            let dir: Vec<_> = want.iter().filter(|(k, _)| k.starts_with(b"src/dir")).map(|(k, e)| ([b"src/l.o", &k[7..]].concat(), e.clone())).collect();
            want.extend(dir);
        }
        3 => {
            rm_rf(&w.repo());
            w.init_pack_size("100MiB");
        }
        _ => {}
    }
    let before = snapshot_ids(&w.repo());
    let o = backup(w, pats, way, &extra);
    if !o.ok() {
        return Err(format!("backup: {}", o.brief()));
    }
    let root = w.root.to_string_lossy().into_owned();
    let want = minus(&want, &|p| set.is_match(&format!("{root}/{p}")));
    let r = Repo::load(&w.repo());
    r.invariant(&Default::default())?;
    let new: Vec<&Snap> = r.snaps.values().filter(|s| !before.contains(&s.id)).collect();
    let [s] = new[..] else { return Err(format!("{} new snapshots", new.len())) };
    run().outcome(format!("{} entries", want.len()));
    if let Some(d) = tree_diff(&want, &r.expand(s)?, Cmp { mode: true, mtime: true }) {
        return Err(format!("the snapshot is not the source minus the skipped paths: {d}"));
    }
    cwd_clean(w, "cwd")
}

/// Patterns anchored at the root of the file system.
fn absolute() {
    let w = World::new();
    w.init_pack_size("100MiB");
    build(&w.src(), &skip_tree());
    let root = w.root.to_string_lossy().into_owned();
    for tail in ["/src/dir", "/src/dir/x$", "/src/a$", "/src$", "/src/dir/sub/", "/srcx", "/s", "$"] {
        case(&w, format!("anchored at {tail}"), |w| one(w, &[format!("^{root}{tail}")], Args, 0));
    }
}

fn invalid() {
    let bad = ["(", "[", "*", "a{2,1}", r"\", "(?<n", "[z-a]", "+x"];
    let jobs: Vec<(usize, Way)> = (0..bad.len()).flat_map(|i| [Args, Config, Both, Local, LocalOnly, HomeConfig].into_iter().map(move |w| (i, w))).collect();
    par_map(&jobs, |_, (i, way)| {
        let w = World::new();
        w.init_pack_size("100MiB");
        build(&w.src(), &skip_tree());
        for with in [vec![bad[*i]], vec!["keep", bad[*i]], vec![bad[*i], "keep"]] {
            if !run().thorough && with.len() == 2 && *way != Both && *way != Args {
                continue;
            }
            let with: Vec<String> = with.iter().map(|s| s.to_string()).collect();
            case(&w, format!("invalid {with:?} by {way:?}"), |w| {
                let (b, s) = (scan(&w.repo()), scan(&w.src()));
                let o = backup(w, &with, *way, &["../src"]);
                if o.ok() || o.panicked() || o.timed_out {
                    return Err(o.brief());
                }
                run().outcome("invalid: refused");
                for (what, x, y) in [("repository", b, scan(&w.repo())), ("source", s, scan(&w.src()))] {
                    if let Some(d) = tree_diff(&x, &y, Cmp { mode: true, mtime: true }) {
                        return Err(format!("the {what} changed: {d}"));
                    }
                }
                cwd_clean(w, "cwd")
            });
        }
    });
    let _ = tier(0, 0);
}
