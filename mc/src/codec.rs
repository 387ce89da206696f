//! The program our repositories are filtered through: `mc --filter enc|dec`, failing where the plan in
//! $MC_CTL says so.
use std::io::{Read, Write};
use std::path::Path;

pub const HEAD: &[u8] = b"MCF1";

/// In blocks that carry their own checksums, and a trailer.
pub fn enc(b: &[u8]) -> Vec<u8> {
    let mut o = HEAD.to_vec();
    o.extend(b.iter().map(|x| x.wrapping_add(1)));
    o.extend((b.len() as u32).to_le_bytes());
    o.extend(sum(b).to_le_bytes());
    o
}
fn sum(b: &[u8]) -> u64 {
    crate::util::fnv(&[b])
}
pub fn dec(b: &[u8]) -> Result<Vec<u8>, Vec<u8>> {
    if b.len() < HEAD.len() + 12 || !b.starts_with(HEAD) {
        return Err(vec![]);
    }
    let (body, trailer) = b[HEAD.len()..].split_at(b.len() - HEAD.len() - 12);
    let o: Vec<u8> = body.iter().map(|x| x.wrapping_sub(1)).collect();
    if trailer[..4] != (o.len() as u32).to_le_bytes() || trailer[4..] != sum(&o).to_le_bytes() {
        return Err(o);
    }
    Ok(o)
}

/// How an invocation fails.
pub const MODES: &[&str] = &[
    "fails at once",
    "fails having read everything",
    "fails midway",
    "fails after all of its output",
    "is killed midway",
    "is killed after all of its output",
    "fails a moment after all of its output",
    "reads a little, writes a little and fails",
    "closes its pipes, then fails",
    "fails having written one byte too few",
];

pub fn main(args: &[String]) -> i32 {
    let decoding = args.first().map(|s| s == "dec").unwrap_or(false);
    let what = if decoding { "dec" } else { "enc" };
    let ctl = std::env::var("MC_CTL").unwrap_or_default();
    let ctl = Path::new(&ctl);
    // which invocation is this?
    let mut n = 0;
    while std::fs::OpenOptions::new().write(true).create_new(true).open(ctl.join(format!("{what}.{n}"))).is_err() {
        n += 1;
        if n > 100_000 {
            return 9;
        }
    }
    let plan = std::fs::read_to_string(ctl.join("plan")).unwrap_or_default();
    let p: Vec<&str> = plan.split_whitespace().collect();
    let mode = match p[..] {
        [w, k, m] if w == what && k.parse() == Ok(n) => m.parse::<usize>().ok(),
        _ => None,
    };
    let failed = || {
        std::fs::write(ctl.join("failed"), b"").unwrap();
        3
    };
    let die = || {
        std::fs::write(ctl.join("failed"), b"").unwrap();
        unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
        9
    };
    if mode == Some(0) {
        return failed();
    }
    let mut out = std::io::stdout().lock();
    let mut inp = std::io::stdin().lock();
    if mode == Some(7) {
        let mut b = [0u8; 16];
        let k = inp.read(&mut b).unwrap_or(0);
        let o: Vec<u8> = if decoding { b[..k].iter().skip(HEAD.len()).map(|x| x.wrapping_sub(1)).collect() } else { HEAD.iter().copied().chain(b[..k].iter().map(|x| x.wrapping_add(1))).collect() };
        let _ = out.write_all(&o).and_then(|_| out.flush());
        return failed();
    }
    let mut b = vec![];
    if inp.read_to_end(&mut b).is_err() {
        return 8;
    }
    let (o, bad) = match decoding {
        false => (enc(&b), false),
        true => match dec(&b) {
            Ok(o) => (o, false),
            Err(o) => (o, true),
        },
    };
    let part = match mode {
        Some(1) | Some(8) => 0,
        Some(2) | Some(4) => o.len() / 2,
        Some(9) => o.len().saturating_sub(1),
        _ => o.len(),
    };
    if out.write_all(&o[..part]).and_then(|_| out.flush()).is_err() {
        return 7;
    }
    match mode {
        Some(4) | Some(5) => return die(),
        Some(6) => {
            std::thread::sleep(std::time::Duration::from_millis(30));
            return failed();
        }
        Some(8) => {
            unsafe {
                libc::close(0);
                libc::close(1);
            }
            std::thread::sleep(std::time::Duration::from_millis(5));
            let r = failed();
            unsafe { libc::_exit(r) }
        }
        Some(_) => return failed(),
        None => {}
    }
    if bad {
        return failed();
    }
    0
}
