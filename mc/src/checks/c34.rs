//! C34: every command line is carried out or refused cleanly.
use super::tier;
use crate::cli::*;
use crate::gen::*;
use crate::hist::*;
use crate::repo::{id_str, Repo};
use crate::util::*;
use std::collections::BTreeSet;

/// What a choice makes of the whole command line.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum V {
    /// does not stand in the way of success
    Yes,
    /// must be refused, with nothing done
    No,
    /// cannot be carried out, unless everything is skipped anyway
    Unless,
    /// either way
    Any,
}
use V::*;

type Choice = (Vec<String>, V);
/// The first choice is the plain one.
type Slot = Vec<Choice>;

/// "yes: a | b c | ..." with blanks between arguments; `''` is an empty argument, `nil` no argument at all.
fn slot(yes: &str, no: &str, any: &str) -> Slot {
    let mut s = vec![];
    for (text, v) in [(yes, Yes), (no, No), (any, Any)] {
        for c in text.split(" | ").filter(|c| !c.is_empty()) {
            let args = if c == "nil" { vec![] } else { c.split(' ').map(arg).collect() };
            s.push((args, v));
        }
    }
    s
}
fn arg(a: &str) -> String {
    match a {
        "''" => String::new(),
        "SPACE" => " ".into(),
        "NEWLINE" => "\n".into(),
        "LONG" => "x".repeat(300),
        "HUGE" => format!("../{}", "y/".repeat(3000)),
        a => a.replace('_', " ").replace("\\u", "é"),
    }
}
fn fixed(words: &str) -> Slot {
    slot(words, "", "")
}
/// As many slots as there are flags.
fn flags(fs: &[&str]) -> Vec<Slot> {
    fs.iter().map(|f| slot(&format!("nil | {f}"), "", "")).collect()
}

fn globals() -> Vec<Slot> {
    vec![
        slot("nil | -v | -vvvv | --color never | -c always | -t", "--color x | -c '' | --nosuch", ""),
        slot("nil | -C . | -C ../cwd2 | -C %root/cwd | -C ../linkcwd", "-C '' | -C ../nosuch | -C ../file | -C ../locked | -C ../dangling | -C ../loop | -C LONG | -C HUGE", ""),
        slot("--config '' | --config ../conf.toml | --config ../nosuch | nil", "--config ../file | --config ../empty | --config ../lockedfile | --config ../binary | --config ../loop | --config ../badsize.toml | --config ../file/x", "--config ../badskip.toml | --config ../locked/x"),
    ]
}
fn repository() -> Slot {
    slot(
        "-r ../repo | -r ../repo/ | -r ../linkrepo | -r %root/repo | -r ../repo/../repo/. | --repository=../repo",
        "nil | -r '' | -r ../nosuch | -r ../file | -r ../empty | -r . | -r / | -r ../repo/config.toml | -r ../locked | -r ../loop | -r ../dangling | -r LONG | -r HUGE | -r ../bad1 | -r ../bad2 | -r ../bad3 | -r ../bad4 | -r ../repo/nosuch/..",
        "-r ../blank",
    )
}
fn snapshot() -> Slot {
    slot(
        "LAST | %id | %id8 | %id4 | LAST~ | LAST~0 | LAST~1 | LAST~2 | LAST~00002 | HEAD | HEAD~ | HEAD~2",
        "LAST~3 | LAST~18446744073709551616 | LAST~-1 | LAST~~ | LAST~x | last | '' | SPACE | ~1 | zzzz | zzzzzzzz | LAST_ | NEWLINE | %pack | %index | %root/src | \\u | %id%id | LONG | HUGE | %idx | %id1 | nil",
        "DUPLICATES | -1",
    )
}
fn given() -> Slot {
    snapshot().into_iter().filter(|c| !c.0.is_empty()).collect()
}
fn skips() -> Slot {
    slot("nil | -s nomatch | -s /f$ | -s nomatch -s /f$ | --skip=nomatch", "-s ( | -s [ | -s * | -s \\ | -s (?<n>", "-s '' | -s .* | -s a{99999} | -s")
}
fn author() -> Slot {
    slot("nil | -a x | -a '' | -a \\u | --author=NEWLINE | -a LONG", "-a x -a y", "")
}
fn tags() -> Slot {
    slot("nil | -t x | -t '' | -t a -t a | -t b,c -t \\u", "", "")
}

struct Form {
    name: &'static str,
    slots: Vec<Slot>,
    /// success changes nothing
    reads: bool,
}

fn forms() -> Vec<Form> {
    let mut fs: Vec<Form> = vec![];
    let mut add = |name: &'static str, reads: bool, init: bool, slots: Vec<Slot>| {
        let mut s = globals();
        if !init {
            s.push(repository());
        }
        if !name.is_empty() {
            s.push(fixed(name));
        }
        s.extend(slots);
        fs.push(Form { name, slots: s, reads });
    };
    let mut backup = flags(&["-n", "--allow-empty", "--allow-repeat"]);
    backup.extend([
        slot("nil | -L | -P", "-L -P | -L -L", ""),
        author(),
        tags(),
        skips(),
        {
            let mut s = slot(
                "../src | ../src/ | ../src/. | ../src/f | ../link | ../link/ | ../fifo | ../empty | /dev/null | ./ | ../src/l | %root/src | ../src/sub/.. | ../src//",
                "../src/f/ | ../dangling | ../loop | '' | ../nosuch | - | LONG | HUGE | NEWLINE | / | // | ../src/../.././../../../../../../../.. | ../src ../two/src | ../src/f/.. | ../locked/x",
                "",
            );
            s.extend(slot("../locked | ../lockedfile | ../future | ../past | ../holed", "", "").into_iter().map(|c| (c.0, Unless)));
            s
        },
        slot("nil | ../two/other | ../src | ../src/sub | ../link", "../nosuch | '' | /", ""),
    ]);
    let bare = vec![skips(), tags(), slot("-n | --allow-empty", "", "")];
    add("backup", false, false, backup);
    for (name, mut slots) in [("backup", bare), ("diff", vec![]), ("forget", vec![])] {
        // with nothing to work on
        slots.push(vec![(vec![], No)]);
        add(name, false, false, slots);
    }
    let mut restore = flags(&["-d", "-t", "-p"]);
    restore.extend([
        slot("nil | -n", "-n -n", ""),
        slot(
            "-o ../out | nil | -o ../out/ | -o ../linkout | -o ../empty | -o . | -o ../out/.",
            "-o",
            "-o ../out/d/.. | -o ../nosuch | -o '' | -o ../file | -o ../dangling | -o ../loop | -o ../locked | -o ../fifo | -n -o / | -n -o // | -o ../future | -o LONG | -o HUGE | -o /dev/null | -o ../nosuch/x",
        ),
        snapshot(),
        slot("nil", "LAST LAST", ""),
    ]);
    add("restore", false, false, restore);
    add("diff", true, false, vec![slot("nil | -m | --metadata", "-m -m", ""), given(), {
        let mut s = vec![(vec![], Yes)];
        s.extend(given());
        s
    }]);
    add("dump", false, false, vec![
        slot("nil | -o ../out/dumped | -o ../file", "-o '' | -o ../nosuch/x | -o ../empty | -o ../lockedfile | -o /nosuch | -o ../locked/x | -o LONG", "-o ../loop | -o ../dangling | -o /dev/null | -o ../file/ | -o"),
        snapshot(),
        slot("src/f | src/l", "nil | src/nosuch | src/f/x | \\u | nosuch/f | LONG | HUGE | src/g%id", "src | src/ | src/sub | '' | / | . | ../src/f | src//f | ./src/f | src/f/ | src/sub/../f | src/f/. | %root/src/f | SPACE | NEWLINE"),
    ]);
    add("ls", true, false, vec![snapshot()]);
    add("cat", true, false, vec![
        slot("snapshot", "nil | nosuch | ''", ""),
        snapshot(),
    ]);
    add("cat", true, false, vec![slot(
        "index %index | pack %pack | blob %tree | blob %chunk",
        "index %pack | index %id | index zzzz | index '' | index | pack %index | pack '' | pack %id8 | pack LONG | blob %pack | blob '' | blob %id | blob zzzz | blob | pack %pack%pack | blob \\u",
        "help | help blob | --help",
    )]);
    add("check", true, false, vec![slot("nil | -r | --read-packs", "-r -r | x | -n", "")]);
    add("copy", false, false, vec![
        slot("nil | -n", "", ""),
        slot("nil | -q", "", ""),
        skips(),
        slot("-t ../repo2 | --to ../repo2/ | --to=%root/repo2", "nil | -t '' | -t ../nosuch | -t ../file | -t ../empty | -t / | -t ../locked | -t ../bad1 | -t ../bad3 | -t ../loop | -t HUGE", "-t ../repo | -t ../blank"),
        slot("--all | LAST | LAST LAST~1 | %id8 LAST~2", "nil | --all LAST | nosuch | LAST zzzz | ''", "LAST LAST | LAST %id8"),
    ]);
    let mut filter = flags(&["-n"]);
    filter.extend([
        slot("nil | -k | -t x | -t '' | -t a -t a | -a x | -a '' | -a \\u -t b,c | --author=NEWLINE | -a LONG", "-k -k | -k -t x | -k -a x | -k -a '' | -k -t '' -a x", ""),
        slot("-s /f$ | -s sub -s /f$", "nil | -s ( | -s [ | -s *", "-s '' | -s .* | -s nomatch | -s a{99999}"),
        snapshot(),
        slot("nil", "LAST LAST", ""),
    ]);
    add("filter-snapshot", false, false, filter);
    add("forget", false, false, vec![slot("nil | -n", "-n -n", ""), given(), slot("nil | %id8 | LAST~1 | LAST", "zzzz | '' | LAST~3 | %pack", "DUPLICATES")]);
    add("prune", false, false, vec![slot("nil | -n", "-n -n | x | --all", "")]);
    add("rebuild-index", false, false, vec![slot("nil | -n", "-n -n | x", "")]);
    add("usage", true, false, vec![slot("nil", "x | -n", "")]);
    let mut snaps = flags(&["-r", "-s", "-f"]);
    snaps.extend([slot("nil | --stat | --stat -m", "--stat --stat", "-m"), snapshot().into_iter().chain([(vec![], Yes)]).filter(|c| c.0.len() == 1 || c.1 == Yes).collect(), slot("nil | %id8 | LAST | LAST~1", "zzzz | ''", "")]);
    add("snapshots", true, false, snaps);
    let init_repo = slot(
        "-r ../new | -r %root/new | -r ../empty",
        "nil | -r ../repo | -r ../repo2 | -r ../linkrepo | -r ../file | -r ../locked | -r ../locked/x | -r / | -r ../loop | -r LONG | -r ../file/x | -r ../lockedfile",
        "-r '' | -r . | -r ../new/ | -r ../dangling | -r ../nosuch/x | -r ../out | -r ../bad1 | -r ../linkout | -r HUGE",
    );
    let size = |i| {
        let mut s = vec![init_repo.clone(), fixed("init"), slot(
            "nil | -p 1MiB | -p 100MB | --pack-size 1000B | -p 5_GiB | -p 1.5MiB",
            "-p '' | -p x | -p -1 | -p 1XB | -p 99999999999999999999EiB | -p \\u | -p 1MiB -p 2MiB",
            "-p 0 | -p 0B | -p 1 | -p 1e3 | -p 16EiB | -p 1B | -p SPACE | -p 1.5B | -p",
        )];
        s.push(i);
        s
    };
    add("", false, true, size(slot("filesystem | filesystem --force-cache", "nil | nosuch | '' | filesystem x | filesystem --force-cache --force-cache | backblaze | backblaze -k x", "help | --help")));
    add("", false, false, vec![slot("", "nil | nosuch | '' | help nosuch | BACKUP", "help | help backup | backup --help | --help | -h | --version")]);
    fs
}

/// All command lines of a form with at most `k` choices other than the plain ones,
/// where one in the slots all subcommands have in common counts as two.
fn lines(f: &Form, k: usize) -> Vec<(Vec<String>, V)> {
    fn go(s: &[Slot], common: usize, k: usize, args: &mut Vec<String>, vs: &mut Vec<V>, out: &mut Vec<(Vec<String>, V)>) {
        let Some((first, rest)) = s.split_first() else {
            let all = |v: V| vs.contains(&v);
            let v = if all(Any) {
                Any
            } else if all(No) {
                No
            } else if all(Unless) {
                No
            } else {
                Yes
            };
            return out.push((args.clone(), v));
        };
        for (i, (a, v)) in first.iter().enumerate() {
            let cost = if i == 0 { 0 } else { 1 + (common > 0) as usize };
            if cost > k {
                break;
            }
            let n = args.len();
            args.extend(a.iter().cloned());
            vs.push(*v);
            go(rest, common.saturating_sub(1), k - cost, args, vs, out);
            vs.pop();
            args.truncate(n);
        }
    }
    let mut out = vec![];
    go(&f.slots, globals().len() + 1, k, &mut vec![], &mut vec![], &mut out);
    out
}

const STATE: &[&str] = &[
    "cwd", "cwd2", "repo", "repo2", "src", "two", "out", "empty", "file", "fifo", "future", "past", "locked", "lockedfile", "holed", "link", "linkcwd", "linkrepo", "linkout", "dangling", "loop", "conf.toml", "badsize.toml", "badskip.toml",
    "binary", "bad1", "bad2", "bad3", "bad4", "blank", "new", "nosuch", "nowhere", "dumped",
];

fn source(i: usize) -> N {
    d(&[("f", ft(b"foxtrot", i as i128)), ("l", l("f")), ("n", f(&[b'0' + i as u8])), ("sub", d(&[("g", f(b"golf")), ("h", f(&noise(9, 2000)))]))])
}

struct Here {
    w: World,
    ids: Vec<(&'static str, String)>,
    start: Tree,
    user: bool,
}

fn everything(w: &World) -> Tree {
    scan(&w.root)
        .into_iter()
        .filter(|(k, _)| !k.starts_with(b"home") && !k.starts_with(b"save-"))
        .map(|(k, e)| if e.kind == Kind::Dir { (k, Ent { mtime: 0, ..e }) } else { (k, e) })
        .collect()
}

fn here() -> Result<Here, String> {
    let w = World::new();
    w.init_pack_size("100MiB");
    let o = w.bp_repo(&["init", "filesystem"], &w.p("repo2"));
    if !o.ok() {
        return Err(o.brief());
    }
    for i in 0..3 {
        rebuild(&w.src(), &source(i));
        cmd_ok(&w, "repo", &["backup", "-a", "me", "../src"])?;
    }
    use std::os::unix::fs::symlink;
    let p = |n: &str| w.p(n);
    let lnk = |t: &str, n: &str| symlink(t, p(n)).unwrap();
    build(&p("cwd2"), &d(&[]));
    build(&p("two"), &d(&[("src", d(&[("x", f(b"x"))])), ("other", d(&[("y", f(b"y"))]))]));
    build(&p("out"), &d(&[("d", d(&[("old", f(b"old"))])), ("f", f(b"something else"))]));
    build(&p("empty"), &d(&[]));
    build(&p("file"), &f(b"= not toml ="));
    build(&p("locked"), &fm_dir(0));
    build(&p("lockedfile"), &fm(b"locked", 0, T0));
    build(&p("holed"), &d(&[("a", f(b"new")), ("in", d(&[("a", f(b"new, too")), ("locked", fm(b"locked", 0, T0)), ("z", f(b"new as well"))])), ("z", f(b"quite new"))]));
    for (n, t) in [("future", 99_999_999_999_999i128), ("past", -99_999_999_999_999i128)] {
        build(&p(n), &f(b"f"));
        set_times(&p(n), t * 1_000_000_000);
    }
    let c = std::ffi::CString::new(p("fifo").to_str().unwrap()).unwrap();
    unsafe { libc::mkfifo(c.as_ptr(), 0o644) };
    lnk("src", "link");
    lnk("cwd2", "linkcwd");
    lnk("repo", "linkrepo");
    lnk("out", "linkout");
    lnk("nowhere", "dangling");
    lnk("loop", "loop");
    build(&p("conf.toml"), &f(b"cache_size = \"10 MB\"\nskips = [\"nomatch\"]\n"));
    build(&p("badsize.toml"), &f(b"cache_size = \"x\"\n"));
    build(&p("badskip.toml"), &f(b"skips = [\"(\"]\n"));
    build(&p("binary"), &f(&noise(3, 500)));
    let conf = std::fs::read_dir(w.repo()).unwrap().flatten().find(|e| e.file_type().unwrap().is_file()).ok_or("no configuration in the repository")?;
    let good = std::fs::read_to_string(conf.path()).unwrap();
    let name = conf.file_name().to_string_lossy().into_owned();
    for (n, text) in [
        ("bad1", String::new()),
        ("bad2", "kind = \"nosuch\"\npack_size = \"1MiB\"\n".into()),
        ("bad3", format!("filter = \"cat\"\n{good}")),
        ("bad4", "]".into()),
        ("blank", format!("filter = \"\"\nunfilter = \" \"\n{good}")),
    ] {
        build(&p(n), &d(&[(name.as_str(), f(text.as_bytes())), ("packs", d(&[])), ("indexes", d(&[])), ("snapshots", d(&[]))]));
    }
    let r = w.repo_state();
    let s = r.chrono()[1].clone();
    let id = id_str(&s.id);
    let (ix, pk) = (id_str(r.indexes.keys().next().ok_or("no index")?), r.packs.iter().find(|p| p.1.manifest.iter().any(|b| b.tree)).map(|p| id_str(p.0)).ok_or("no pack")?);
    let chunk = r.packs.values().flat_map(|p| &p.manifest).find(|b| !b.tree).map(|b| id_str(&b.id)).ok_or("no chunk")?;
    let wrong: String = id.chars().rev().collect();
    let ids = vec![
        ("%root", w.root.to_string_lossy().into_owned()),
        ("%idx", wrong),
        ("%id8", id[..8].to_string()),
        ("%id4", id[..4].to_string()),
        ("%id1", id[..1].to_string()),
        ("%id", id),
        ("%index", ix),
        ("%pack", pk),
        ("%tree", id_str(&s.tree)),
        ("%chunk", chunk),
    ];
    let user = w.as_user();
    save(&w.root, STATE, "start");
    let start = everything(&w);
    Ok(Here { w, ids, start, user })
}
fn fm_dir(mode: u32) -> N {
    dm(&[], mode, T0)
}

impl Here {
    fn reset(&self) {
        restore(&self.w.root, STATE, "start");
        if self.user {
            for s in STATE {
                give(&self.w.p(s));
            }
        }
    }
    fn args(&self, line: &[String]) -> Vec<String> {
        line.iter().map(|a| self.ids.iter().fold(a.clone(), |a, (k, v)| a.replace(k, v))).collect()
    }
    fn go(&self, form: &Form, line: &[String], v: V) -> Result<(), String> {
        let args = self.args(line);
        let mut c = self.w.bare();
        c.args(&args);
        self.w.now.set(self.w.now.get() + 1);
        self.w.log.borrow_mut().push(format!("backpak {args:?}"));
        run().step();
        let o = run_command(c, std::time::Duration::from_secs(30));
        super::c16::sane(&o)?;
        let code = o.code.unwrap();
        if code > 2 {
            return Err(format!("exit code {code}: {}", o.brief()));
        }
        if code != 0 && o.err.trim().is_empty() {
            return Err(format!("it fails with code {code}, but does not say why"));
        }
        match v {
            Yes if code != 0 => return Err(format!("it is refused: {}", o.brief())),
            No | Unless if code == 0 => return Err(format!("it succeeds, but cannot be carried out: {}", o.out.lines().next().unwrap_or(""))),
            _ => {}
        }
        let after = everything(&self.w);
        let changed = if after == self.start { None } else { Some(tree_diff(&self.start, &after, Cmp { mode: true, mtime: true }).unwrap_or("times".into())) };
        run().outcome(format!("{}{}", if code == 0 { "carried out" } else { "refused" }, if changed.is_some() { ", something changed" } else { "" }));
        let Some(change) = changed else { return Ok(()) };
        let dry = line.iter().any(|a| a == "-n" || a == "--help" || a == "-h" || a == "help");
        let r = if v == No {
            Err(format!("it is refused, but changes something: {change}"))
        } else if form.reads || dry {
            Err(format!("it should change nothing, but does: {change}"))
        } else {
            self.still_whole(code == 0)
        };
        self.reset();
        r
    }
    /// Whatever happened, the repositories are sound; a failure removed no snapshot.
    fn still_whole(&self, ok: bool) -> Result<(), String> {
        let before: Tree = self.start.iter().filter(|(k, _)| k.starts_with(b"repo/snapshots/")).map(|(k, e)| (k.clone(), e.clone())).collect();
        for r in ["repo", "repo2"] {
            let rp = Repo::load(&self.w.p(r));
            rp.invariant(&BTreeSet::new()).map_err(|e| format!("{r}: {e}"))?;
            if let Some(b) = rp.bad.first() {
                return Err(format!("{r}: {b}"));
            }
        }
        let now = scan(&self.w.p("repo/snapshots"));
        if !ok && before.keys().any(|k| !now.contains_key(&k[b"repo/snapshots/".len()..])) {
            return Err("it fails, but a snapshot is gone".into());
        }
        Ok(())
    }
}

pub fn run_check() -> (&'static str, &'static str, bool) {
    let fs = forms();
    let mut todo: Vec<(usize, Vec<String>, V)> = vec![];
    for (i, f) in fs.iter().enumerate() {
        for (l, v) in lines(f, tier(2, 3)) {
            todo.push((i, l, v));
        }
    }
    run().note("command_lines", todo.len());
    let n = nthreads() * 4;
    let chunks: Vec<usize> = (0..n).collect();
    par_map(&chunks, |_, c| {
        let h = match here() {
            Ok(h) => h,
            Err(e) => return run().violation("setup", e, ""),
        };
        if !h.user {
            run().note("not_as_a_user", true);
            return run().error("cannot run the program as an ordinary user here");
        }
        h.reset();
        // interleaved, so that each worker gets its share of every form
        for (i, l, v) in todo.iter().skip(*c).step_by(n) {
            if run().stopped() {
                return;
            }
            let f = &fs[*i];
            run().state(fnv(&[format!("{i}{l:?}").as_bytes()]));
            let short: Vec<String> = l.iter().map(|a| if a.len() > 60 { format!("{}...", a.chars().take(12).collect::<String>()) } else { format!("{a:?}") }).collect();
            if !case(&h.w, short.join(" "), |_| h.go(f, l, *v)) {
                h.reset();
            }
        }
    });
    run().assume("commands run as an ordinary user, so that what is not permitted is refused by the system");
    (
        "model_checking",
        "every command line that differs from a plain one in at most two places particular to its subcommand (three when thorough), or in one of the options they all have in common (when thorough, in another place besides), over all subcommands: every option and argument takes each of a list of usual and unusual values (empty, nonexistent, unreadable, wrong kind, dangling, looping, overlong, malformed, out of range, repeated, conflicting, missing); each is run by the program and must end in success or an explained refusal: no panic, signal or hang, what can be done is done, what cannot be done is refused and then leaves every file as it was, commands that only read or are dry change nothing, and the repositories stay sound",
        true,
    )
}
