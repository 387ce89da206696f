//! Known findings, evidence file, verdict line, exit code.
use crate::util::*;
use std::fs;
use std::path::PathBuf;
use std::sync::atomic::Ordering::*;
use std::sync::OnceLock;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

struct Finding {
    prop: String,
    key: String,
    what: String,
}

/// Lines `finding: property=<id> key=<key> <what fails>`; a key ending in `*` matches a prefix.
fn findings() -> &'static Vec<Finding> {
    static F: OnceLock<Vec<Finding>> = OnceLock::new();
    F.get_or_init(|| {
        let s = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
        let mut v = vec![];
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let prop = it.next().unwrap_or("").to_string();
                let key = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("").to_string();
                let what = it.next().unwrap_or("").to_string();
                if !key.is_empty() {
                    v.push(Finding { prop, key, what });
                }
            }
        }
        v
    })
}

fn matches(f: &Finding, prop: &str, key: &str) -> bool {
    f.prop == prop
        && match f.key.strip_suffix('*') {
            Some(p) => key.starts_with(p),
            None => f.key == key,
        }
}

pub fn is_known(prop: &str, key: &str) -> bool {
    findings().iter().any(|f| matches(f, prop, key))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes the evidence, prints the verdict and returns the exit code.
pub fn finish(level: &str, rule: &str, exhaustive_claim: bool) -> i32 {
    let r = run();
    let prop = r.prop.clone();
    let viol = r.violations.lock().unwrap().clone();
    let errs = r.errors.lock().unwrap().clone();
    let trunc = r.truncated.load(SeqCst);
    let fresh: Vec<_> = viol.iter().filter(|v| !is_known(&prop, &v.key)).cloned().collect();

    let samples = r.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let outcomes = r
        .outcomes
        .lock()
        .unwrap()
        .iter()
        .map(|(k, v)| format!("{}: {}", js(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let extra = r
        .extra
        .lock()
        .unwrap()
        .iter()
        .map(|(k, v)| format!(", {}: {}", js(k), if v.parse::<i64>().is_ok() { v.clone() } else { js(v) }))
        .collect::<String>();
    let assumptions =
        r.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let states = r.states.lock().unwrap().len();
    let counts = if level == "model_checking" {
        format!(
            "\"states\": {states}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"evaluations\": {}, ",
            r.transitions.load(SeqCst).max(r.commands.load(SeqCst)),
            // every execution is one of the real program
            r.traces.load(SeqCst).max(r.evaluations.load(SeqCst)),
            r.evaluations.load(SeqCst)
        )
    } else {
        format!("\"evaluations\": {}, \"distinct_nontrivial\": {states}, \"transitions\": {}, ", r.evaluations.load(SeqCst), r.transitions.load(SeqCst))
    };
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{{}\"commands_run\": {}, \"rule\": {}, \"exhaustive\": {}, \"outcomes\": {{{}}}, \"samples\": [{}]{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        js(&prop),
        js(if r.thorough { "thorough" } else { "quick" }),
        r.seed,
        js(level),
        counts,
        r.commands.load(SeqCst),
        js(rule),
        exhaustive_claim && !trunc && errs.is_empty() && fresh.is_empty(),
        outcomes,
        samples,
        extra,
        assumptions,
        r.start.elapsed().as_secs_f64(),
        fresh.len()
    );
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(evdir.join(format!("{prop}.json")), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{prop}: {} executions, {} states, {} transitions, {} commands, {:.1}s{}",
        r.evaluations.load(SeqCst),
        states,
        r.transitions.load(SeqCst),
        r.commands.load(SeqCst),
        r.start.elapsed().as_secs_f64(),
        if trunc { " (time budget reached)" } else { "" }
    );
    for f in findings() {
        if f.prop == prop && viol.iter().any(|v| matches(f, &prop, &v.key)) {
            println!("KNOWN-FINDING: property={prop} {} {}", f.key, f.what);
        }
    }
    if !fresh.is_empty() {
        let dir = evdir.join("replays");
        let _ = fs::create_dir_all(&dir);
        for (i, v) in fresh.iter().enumerate() {
            let p = dir.join(format!("{prop}-{i}.txt"));
            let _ = fs::write(
                &p,
                format!("property {prop}\nkey {}\n{}\n\nreplay:\n{}\n", v.key, v.what, v.replay),
            );
            println!("  [{}] {}", v.key, v.what);
            println!("VIOLATION property={prop} replay={}", p.display());
        }
        return 1;
    }
    if !errs.is_empty() {
        for e in &errs {
            eprintln!("engine error: {e}");
        }
        return 2;
    }
    0
}
