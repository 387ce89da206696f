//! A simulated Backblaze B2, on the loopback interface. Buckets are directories of the world
//! (`bucket-<name>`), so that they are part of its state; requests can be made to fail.
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// answered with this status, nothing done
    Status(u16),
    /// as before, and the upload location is no good any more
    Expired(u16),
    /// the connection closes before anything is done
    Drop,
    /// done, but the connection closes without an answer
    DropAfter,
    /// done, but half of the answer is missing
    Cut,
    /// the connection closes in the middle of what is sent
    DropMidway,
}

#[derive(Default)]
struct Loc {
    token: String,
    bucket: String,
    dead: bool,
    busy: bool,
}

#[derive(Default)]
struct Inner {
    page: usize,
    /// list what was started or hidden, too (not objects that can be read)
    odd: bool,
    /// answer the first request of a listing with an empty page
    lazy: bool,
    plan: Vec<(usize, Mode)>,
    /// everything from this request on is answered so
    from: Option<(usize, u16)>,
    n: usize,
    log: Vec<String>,
    hits: usize,
    locs: HashMap<String, Loc>,
    complaints: Vec<String>,
    /// per bucket
    active: HashMap<String, usize>,
    max_active: usize,
    /// answers are completed one at a time, in the order these choose among those waiting
    order: Option<Vec<usize>>,
    /// how many can wait
    limit: usize,
    waiting: Vec<usize>,
    released: usize,
    choices: Vec<usize>,
    changed: Option<Instant>,
    serial: u64,
}

pub struct Account {
    root: PathBuf,
    m: Mutex<Inner>,
    cv: Condvar,
}

pub const KEY: &str = "0012";
pub const SECRET: &str = "K001s3cret";

impl Account {
    pub fn plan(&self, plan: &[(usize, Mode)], from: Option<(usize, u16)>) {
        let mut i = self.m.lock().unwrap();
        i.plan = plan.to_vec();
        i.from = from;
        i.n = 0;
        i.hits = 0;
        i.max_active = 0;
        i.log.clear();
        i.complaints.clear();
        i.locs.clear();
    }
    pub fn lazy(&self, on: bool) {
        self.m.lock().unwrap().lazy = on;
    }

    pub fn odd(&self, on: bool) {
        self.m.lock().unwrap().odd = on;
    }

    pub fn page(&self, n: usize) {
        self.m.lock().unwrap().page = n;
    }
    /// Answers are completed one at a time, once as many as may be are in progress or nobody else
    /// comes; which one, `order` says (index among those waiting; the first after its end).
    pub fn hold(&self, order: Option<Vec<usize>>, limit: usize) {
        let mut i = self.m.lock().unwrap();
        i.order = order;
        i.limit = limit;
        i.waiting.clear();
        i.released = 0;
        i.choices.clear();
    }
    /// How many there were to choose from each time.
    pub fn choices(&self) -> Vec<usize> {
        self.m.lock().unwrap().choices.clone()
    }
    pub fn requests(&self) -> Vec<String> {
        self.m.lock().unwrap().log.clone()
    }
    pub fn hits(&self) -> usize {
        self.m.lock().unwrap().hits
    }
    pub fn max_active(&self) -> usize {
        self.m.lock().unwrap().max_active
    }
    pub fn complaints(&self) -> Vec<String> {
        self.m.lock().unwrap().complaints.clone()
    }
}

static ACCOUNTS: OnceLock<Mutex<HashMap<u64, Arc<Account>>>> = OnceLock::new();
static PORT: OnceLock<u16> = OnceLock::new();

/// A new account whose buckets are in `root`; the address to give to the client.
pub fn account(root: &Path) -> (Arc<Account>, String) {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    let port = *PORT.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let p = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = s.set_read_timeout(Some(Duration::from_secs(30)));
                    let _ = serve(s);
                });
            }
        });
        p
    });
    let k = NEXT.fetch_add(1, SeqCst);
    let a = Arc::new(Account { root: root.to_owned(), m: Mutex::new(Inner { page: 10_000, ..Default::default() }), cv: Condvar::new() });
    ACCOUNTS.get_or_init(Default::default).lock().unwrap().insert(k, a.clone());
    (a, format!("http://127.0.0.1:{port}/{k}"))
}

struct Req {
    method: String,
    path: String,
    query: BTreeMap<String, String>,
    head: BTreeMap<String, String>,
}

fn unescape(s: &str, plus: bool) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(v) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(if plus && b[i] == b'+' { b' ' } else { b[i] });
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}

fn read_head(r: &mut BufReader<TcpStream>) -> std::io::Result<Option<Req>> {
    let mut line = String::new();
    if r.read_line(&mut line)? == 0 {
        return Ok(None);
    }
    let mut it = line.split_whitespace();
    let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
    let mut head = BTreeMap::new();
    loop {
        let mut l = String::new();
        if r.read_line(&mut l)? == 0 {
            return Ok(None);
        }
        let l = l.trim_end();
        if l.is_empty() {
            break;
        }
        if let Some((k, v)) = l.split_once(':') {
            head.insert(k.trim().to_lowercase(), v.trim().to_string());
        }
    }
    let (p, q) = target.split_once('?').unwrap_or((&target, ""));
    let query = q.split('&').filter(|x| !x.is_empty()).map(|kv| kv.split_once('=').unwrap_or((kv, ""))).map(|(k, v)| (unescape(k, true), unescape(v, true))).collect();
    Ok(Some(Req { method, path: unescape(p, false), query, head }))
}

/// The body; None if it ended early. With `half`, stops in the middle.
fn read_body(r: &mut BufReader<TcpStream>, q: &Req, half: bool) -> Option<Vec<u8>> {
    if q.head.get("transfer-encoding").is_some_and(|t| t.to_lowercase().contains("chunked")) {
        let mut b = vec![];
        loop {
            let mut l = String::new();
            r.read_line(&mut l).ok()?;
            let n = usize::from_str_radix(l.trim().split(';').next()?, 16).ok()?;
            let mut c = vec![0; n + 2];
            r.read_exact(&mut c).ok()?;
            if n == 0 {
                return Some(b);
            }
            b.extend_from_slice(&c[..n]);
            if half {
                return None;
            }
        }
    }
    let n: usize = q.head.get("content-length").and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut b = vec![0; if half { n / 2 } else { n }];
    r.read_exact(&mut b).ok()?;
    if half {
        return None;
    }
    Some(b)
}

fn respond(s: &mut TcpStream, code: u16, kind: &str, body: &[u8], cut: bool) -> std::io::Result<()> {
    let head = format!("HTTP/1.1 {code} {}\r\nContent-Type: {kind}\r\nContent-Length: {}\r\n\r\n", if code == 200 { "OK" } else { "Failed" }, body.len());
    s.write_all(head.as_bytes())?;
    s.write_all(if cut { &body[..body.len() / 2] } else { body })?;
    s.flush()
}

fn serve(s: TcpStream) -> std::io::Result<()> {
    let mut out = s.try_clone()?;
    let mut r = BufReader::new(s);
    while let Some(mut q) = read_head(&mut r)? {
        let mut parts = q.path.splitn(3, '/');
        parts.next();
        let k: u64 = parts.next().and_then(|x| x.parse().ok()).unwrap_or(0);
        q.path = parts.next().unwrap_or("").to_string();
        let Some(a) = ACCOUNTS.get().and_then(|m| m.lock().unwrap().get(&k).cloned()) else {
            return respond(&mut out, 404, "text/plain", b"", false);
        };
        let keep = a.one(&mut r, &mut out, q)?;
        if !keep {
            let _ = out.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
    }
    Ok(())
}

fn file_id(p: &Path) -> String {
    use std::os::unix::fs::MetadataExt;
    format!("4_z{}", std::fs::symlink_metadata(p).map(|m| m.ino()).unwrap_or(0))
}

type Answer = (u16, Vec<u8>);
fn fail(code: u16, what: &str) -> Answer {
    (code, serde_json::json!({"status": code, "code": what, "message": what}).to_string().into_bytes())
}
fn json(v: serde_json::Value) -> Answer {
    (200, v.to_string().into_bytes())
}

impl Account {
    fn one(&self, r: &mut BufReader<TcpStream>, out: &mut TcpStream, q: Req) -> std::io::Result<bool> {
        let last = q.path.rsplit('/').next().unwrap_or("").to_string();
        let what = if q.path.starts_with("file/") {
            format!("download {}", q.path[5..].split_once('/').map(|x| x.1).unwrap_or(""))
        } else if q.path.starts_with("upload/") {
            format!("upload {}", q.head.get("x-bz-file-name").cloned().unwrap_or_default())
        } else {
            last.clone()
        };
        let is_session = ["b2_authorize_account", "b2_list_buckets", "b2_get_upload_url"].contains(&last.as_str());
        let (n, mode, hold) = {
            let mut i = self.m.lock().unwrap();
            let n = i.n;
            i.n += 1;
            i.log.push(what.clone());
            let mut m = i.plan.iter().find(|p| p.0 == n).map(|p| p.1);
            if let Some((f, code)) = i.from {
                if n >= f {
                    m = Some(Mode::Status(code));
                }
            }
            if m.is_some() {
                i.hits += 1;
            }
            (n, m, i.order.is_some())
        };
        self.answer(r, out, &q, &what, mode, (hold && !is_session).then_some(n))
    }

    fn answer(&self, r: &mut BufReader<TcpStream>, out: &mut TcpStream, q: &Req, what: &str, mode: Option<Mode>, hold: Option<usize>) -> std::io::Result<bool> {
        if q.head.get("expect").is_some() {
            out.write_all(b"HTTP/1.1 100 Continue\r\n\r\n")?;
        }
        if mode == Some(Mode::Drop) {
            return Ok(false);
        }
        let Some(body) = read_body(r, q, mode == Some(Mode::DropMidway)) else {
            return Ok(false);
        };
        let kind = if what.starts_with("download") { "application/octet-stream" } else { "application/json" };
        let (code, b) = match mode {
            Some(Mode::Status(c)) => fail(c, "simulated"),
            Some(Mode::Expired(c)) => {
                if let Some(l) = self.m.lock().unwrap().locs.get_mut(q.path.strip_prefix("upload/").unwrap_or("")) {
                    l.dead = true;
                }
                fail(c, "expired_auth_token")
            }
            _ => self.handle(q, &body),
        };
        if mode == Some(Mode::DropAfter) {
            return Ok(false);
        }
        if let Some(n) = hold {
            // of a download the first half, the rest (of others everything) when it is this one's turn
            let bucket = self.bucket_of(q, &body);
            {
                let mut i = self.m.lock().unwrap();
                let a = i.active.entry(bucket.clone()).or_default();
                *a += 1;
                let a = *a;
                i.max_active = i.max_active.max(a);
            }
            let head = format!("HTTP/1.1 {code} OK\r\nContent-Type: {kind}\r\nContent-Length: {}\r\n\r\n", b.len());
            let all = [head.as_bytes(), &b].concat();
            let first = if what.starts_with("download") { head.len() + b.len() / 2 } else { 0 };
            let sent = out.write_all(&all[..first]).and_then(|_| out.flush());
            self.turn(n);
            // over once the client can know that it is
            *self.m.lock().unwrap().active.entry(bucket).or_default() -= 1;
            sent?;
            out.write_all(&all[first..])?;
            out.flush()?;
            return Ok(true);
        }
        respond(out, code, kind, &b, mode == Some(Mode::Cut))?;
        Ok(mode != Some(Mode::Cut))
    }

    fn turn(&self, n: usize) {
        let quiet = Duration::from_millis(25);
        let mut i = self.m.lock().unwrap();
        i.waiting.push(n);
        i.waiting.sort();
        i.changed = Some(Instant::now());
        self.cv.notify_all();
        loop {
            if !i.waiting.contains(&n) {
                return;
            }
            let since = i.changed.map(|c| c.elapsed()).unwrap_or(quiet);
            if since >= quiet || i.waiting.len() > i.limit {
                let k = i.order.as_ref().and_then(|o| o.get(i.released).copied()).unwrap_or(0).min(i.waiting.len() - 1);
                let len = i.waiting.len();
                i.choices.push(len);
                i.waiting.remove(k);
                i.released += 1;
                i.changed = Some(Instant::now());
                self.cv.notify_all();
                continue;
            }
            i = self.cv.wait_timeout(i, quiet - since).unwrap().0;
        }
    }

    fn bucket_of(&self, q: &Req, body: &[u8]) -> String {
        if let Some(l) = q.path.strip_prefix("upload/") {
            return self.m.lock().unwrap().locs.get(l).map(|l| l.bucket.clone()).unwrap_or_default();
        }
        if let Some(p) = q.path.strip_prefix("file/") {
            return p.split('/').next().unwrap_or("").into();
        }
        if let Some(b) = q.query.get("bucketId") {
            return b.strip_prefix("id-").unwrap_or("").into();
        }
        let j: serde_json::Value = serde_json::from_slice(body).unwrap_or_default();
        if let Some(b) = j["bucketId"].as_str() {
            return b.strip_prefix("id-").unwrap_or("").into();
        }
        // deletions name the file only
        let id = j["fileId"].as_str().map(|s| s.to_string()).or(q.query.get("fileId").cloned()).unwrap_or_default();
        for e in std::fs::read_dir(&self.root).into_iter().flatten().flatten() {
            if let Some(b) = e.file_name().to_string_lossy().strip_prefix("bucket-") {
                if self.files(b).values().flatten().any(|x| x.0 == id) {
                    return b.into();
                }
            }
        }
        String::new()
    }

    fn complain(&self, s: String) {
        self.m.lock().unwrap().complaints.push(s);
    }

    fn dir(&self, bucket: &str) -> PathBuf {
        self.root.join(format!("bucket-{bucket}"))
    }

    /// name -> versions, newest first: (id, file)
    fn files(&self, bucket: &str) -> BTreeMap<String, Vec<(String, PathBuf)>> {
        let mut m: BTreeMap<String, Vec<(String, PathBuf)>> = BTreeMap::new();
        fn walk(d: &Path, pre: &str, m: &mut BTreeMap<String, Vec<(String, PathBuf)>>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let n = format!("{pre}{}", e.file_name().to_string_lossy());
                if e.path().is_dir() {
                    if n != "older" {
                        walk(&e.path(), &format!("{n}/"), m);
                    }
                } else {
                    m.insert(n.clone(), vec![(file_id(&e.path()), e.path())]);
                }
            }
        }
        let d = self.dir(bucket);
        walk(&d, "", &mut m);
        // older versions: older/<name with / as %>@<k>
        let mut old: Vec<_> = std::fs::read_dir(d.join("older")).into_iter().flatten().flatten().map(|e| (e.file_name().to_string_lossy().into_owned(), e.path())).collect();
        old.sort();
        for (n, p) in old.into_iter().rev() {
            if let Some((name, _)) = n.rsplit_once('@') {
                m.entry(name.replace('%', "/")).or_default().push((file_id(&p), p));
            }
        }
        m
    }

    fn handle(&self, q: &Req, body: &[u8]) -> Answer {
        let last = q.path.rsplit('/').next().unwrap_or("");
        let auth = q.head.get("authorization").cloned().unwrap_or_default();
        if last == "b2_authorize_account" {
            use std::fmt::Write as _;
            let mut want = String::new();
            let _ = write!(want, "{KEY}:{SECRET}");
            let given = auth.strip_prefix("Basic").map(|s| s.trim()).and_then(unbase64).unwrap_or_default();
            if given != want.as_bytes() {
                return fail(401, "unauthorized");
            }
            let host = q.head.get("host").cloned().unwrap_or_default();
            let k = ACCOUNTS.get().unwrap().lock().unwrap().iter().find(|(_, a)| std::ptr::eq(&***a, self)).map(|x| *x.0).unwrap_or(0);
            let url = format!("http://{host}/{k}");
            return json(serde_json::json!({
                "accountId": "acct", "authorizationToken": "token",
                "apiInfo": {"storageApi": {"apiUrl": url, "downloadUrl": url, "capabilities": ["listBuckets", "listFiles", "readFiles", "writeFiles", "deleteFiles"], "infoType": "storageApi"}},
                "apiUrl": url, "downloadUrl": url,
            }));
        }
        if let Some(loc) = q.path.strip_prefix("upload/") {
            return self.upload(loc, &auth, q, body);
        }
        if auth != "token" {
            self.complain(format!("{last} without authorization"));
            return fail(401, "bad_auth_token");
        }
        if let Some(p) = q.path.strip_prefix("file/") {
            let Some((b, n)) = p.split_once('/') else { return fail(404, "not_found") };
            return match self.files(b).get(n) {
                Some(v) => (200, std::fs::read(&v[0].1).unwrap_or_default()),
                None => fail(404, "not_found"),
            };
        }
        // parameters in the query or in the body
        let mut par = q.query.clone();
        if let Ok(serde_json::Value::Object(o)) = serde_json::from_slice(body) {
            for (k, v) in o {
                par.insert(k, v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string()));
            }
        }
        let get = |k: &str| par.get(k).cloned().unwrap_or_default();
        let bucket = get("bucketId").strip_prefix("id-").unwrap_or("?").to_string();
        let known = self.dir(&bucket).is_dir();
        match last {
            "b2_list_buckets" => {
                if get("accountId") != "acct" {
                    return fail(400, "bad_request");
                }
                let mut v = vec![];
                for e in std::fs::read_dir(&self.root).into_iter().flatten().flatten() {
                    if let Some(b) = e.file_name().to_string_lossy().strip_prefix("bucket-") {
                        if get("bucketName").is_empty() || get("bucketName") == b {
                            v.push(serde_json::json!({"bucketName": b, "bucketId": format!("id-{b}"), "bucketType": "allPrivate"}));
                        }
                    }
                }
                json(serde_json::json!({"buckets": v}))
            }
            "b2_get_upload_url" if known => {
                let mut i = self.m.lock().unwrap();
                i.serial += 1;
                let (loc, token) = (format!("l{}", i.serial), format!("t{}", i.serial));
                i.locs.insert(loc.clone(), Loc { token: token.clone(), bucket: bucket.clone(), ..Default::default() });
                drop(i);
                let k = ACCOUNTS.get().unwrap().lock().unwrap().iter().find(|(_, a)| std::ptr::eq(&***a, self)).map(|x| *x.0).unwrap_or(0);
                let host = q.head.get("host").cloned().unwrap_or_default();
                json(serde_json::json!({"bucketId": get("bucketId"), "uploadUrl": format!("http://{host}/{k}/upload/{loc}"), "authorizationToken": token}))
            }
            "b2_list_file_names" if known => {
                let max = get("maxFileCount").parse().unwrap_or(100).min(self.m.lock().unwrap().page);
                let mut all: Vec<(String, String, &str, u64)> = self.files(&bucket).into_iter()
                    .map(|(n, v)| (n, v[0].0.clone(), "upload", std::fs::metadata(&v[0].1).map(|m| m.len()).unwrap_or(0))).collect();
                if self.m.lock().unwrap().odd {
                    for d in ["indexes/", "packs/22/", "snapshots/"] {
                        let ext = d.split('/').next().unwrap().trim_end_matches("es").trim_end_matches('s');
                        for (c, action) in [("3", "hide"), ("5", "start"), ("7", "folder")] {
                            let id = c.repeat(54 - 1);
                            all.push((format!("{d}{id}.{ext}"), format!("odd{c}"), action, 0));
                        }
                    }
                    all.sort();
                }
                let all: Vec<_> = all.into_iter().filter(|(n, ..)| n.starts_with(&get("prefix")) && *n >= get("startFileName")).collect();
                let max = if self.m.lock().unwrap().lazy && get("startFileName").is_empty() { 0 } else { max };
                let next = all.get(max).map(|x| x.0.clone());
                let v: Vec<_> = all.iter().take(max).map(|(n, id, action, len)| serde_json::json!({"fileName": n, "fileId": id, "action": action, "contentLength": len})).collect();
                json(serde_json::json!({"files": v, "nextFileName": next}))
            }
            "b2_list_file_versions" if known => {
                let max = get("maxFileCount").parse().unwrap_or(100).min(self.m.lock().unwrap().page);
                let mut all = vec![];
                for (n, vs) in self.files(&bucket) {
                    for (id, p) in vs {
                        if n.starts_with(&get("prefix")) {
                            all.push((n.clone(), id, p));
                        }
                    }
                }
                let (sn, si) = (get("startFileName"), get("startFileId"));
                let from = if si.is_empty() { all.iter().position(|x| x.0 >= sn) } else { all.iter().position(|x| x.0 == sn && x.1 == si) };
                let all: Vec<_> = all.into_iter().skip(from.unwrap_or(if sn.is_empty() { 0 } else { usize::MAX })).collect();
                let next = all.get(max).cloned();
                let v: Vec<_> = all.iter().take(max).map(|(n, id, p)| serde_json::json!({"fileName": n, "fileId": id, "action": "upload", "contentLength": std::fs::metadata(p).map(|m| m.len()).unwrap_or(0)})).collect();
                json(serde_json::json!({"files": v, "nextFileName": next.as_ref().map(|x| &x.0), "nextFileId": next.as_ref().map(|x| &x.1)}))
            }
            "b2_delete_file_version" => {
                for e in std::fs::read_dir(&self.root).into_iter().flatten().flatten() {
                    let n = e.file_name().to_string_lossy().into_owned();
                    let Some(b) = n.strip_prefix("bucket-") else { continue };
                    for (name, vs) in self.files(b) {
                        for (k, (id, p)) in vs.iter().enumerate() {
                            if name == get("fileName") && *id == get("fileId") {
                                let _ = std::fs::remove_file(p);
                                if k == 0 && vs.len() > 1 {
                                    let _ = std::fs::rename(&vs[1].1, p);
                                }
                                return json(serde_json::json!({"fileName": name, "fileId": id}));
                            }
                        }
                    }
                }
                fail(400, "file_not_present")
            }
            _ => fail(400, "bad_request"),
        }
    }

    fn upload(&self, loc: &str, auth: &str, q: &Req, body: &[u8]) -> Answer {
        let bucket = {
            let mut i = self.m.lock().unwrap();
            let Some(l) = i.locs.get_mut(loc) else { return fail(401, "bad_auth_token") };
            if l.dead {
                return fail(401, "expired_auth_token");
            }
            if l.token != auth {
                return fail(401, "bad_auth_token");
            }
            if l.busy {
                return fail(503, "service_unavailable");
            }
            l.busy = true;
            l.bucket.clone()
        };
        let ans = (|| {
            let name = unescape(q.head.get("x-bz-file-name").map(|s| s.as_str()).unwrap_or(""), false);
            if name.is_empty() || name.contains("..") || name.starts_with('/') || name.contains("//") {
                return fail(400, "bad_request");
            }
            let sha = q.head.get("x-bz-content-sha1").cloned().unwrap_or_default();
            let (data, want) = match sha.as_str() {
                "hex_digits_at_end" => {
                    if body.len() < 40 {
                        return fail(400, "bad_request");
                    }
                    let (d, h) = body.split_at(body.len() - 40);
                    (d, String::from_utf8_lossy(h).into_owned())
                }
                s => (body, s.to_string()),
            };
            if want != crate::util::hex(&sha1(data)) {
                self.complain(format!("upload of {name} ({} bytes) with a wrong hash", data.len()));
                return fail(400, "bad_request");
            }
            let p = self.dir(&bucket).join(&name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            if p.exists() {
                let o = self.dir(&bucket).join("older");
                std::fs::create_dir_all(&o).unwrap();
                let k = std::fs::read_dir(&o).unwrap().count();
                std::fs::rename(&p, o.join(format!("{}@{k:04}", name.replace('/', "%")))).unwrap();
            }
            std::fs::write(&p, data).unwrap();
            json(serde_json::json!({"fileName": name, "fileId": file_id(&p), "action": "upload", "contentLength": data.len()}))
        })();
        if let Some(l) = self.m.lock().unwrap().locs.get_mut(loc) {
            l.busy = false;
        }
        ans
    }
}

fn unbase64(s: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' => continue,
            _ => return None,
        };
        acc = acc << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
        }
    }
    Some(o)
}

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for (i, x) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => (b & cc | !b & d, 0x5A827999u32),
                20..=39 => (b ^ cc ^ d, 0x6ED9EBA1),
                40..=59 => (b & cc | b & d | cc & d, 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*x);
            (a, b, cc, d, e) = (t, a, b.rotate_left(30), cc, d);
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0; 20];
    for (i, x) in h.iter().enumerate() {
        o[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
    }
    o
}
