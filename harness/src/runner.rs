//! Parent / worker / replay machinery.  A check is a fixed number of cases; each case is a function of
//! (property, seed, index) through a recorded choice sequence, so it can be replayed and shrunk.
use crate::src::{hash_bytes, mix, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub s: Src,
    pub index: u64,
    pub thorough: bool,
    pub seed: u64,
    /// Set by the case according to the property's stated rule.
    pub nontrivial: bool,
    /// Human-readable description of the generated case.
    pub desc: String,
    /// Elementary oracle evaluations inside the case.
    pub checks: u64,
    pub classes: Vec<String>,
    /// Identity of the case for distinctness, when it is not the choice sequence.
    pub key: Option<u64>,
}
impl Ctx {
    pub fn new(s: Src, index: u64, seed: u64, thorough: bool) -> Ctx {
        Ctx { s, index, thorough, seed, nontrivial: false, desc: String::new(), checks: 0, classes: vec![], key: None }
    }
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into())
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub case: fn(&mut Ctx) -> Result<(), String>,
    /// CPU seconds one case may use before it counts as a hang.
    pub cpu_limit: u64,
    /// The case spends its time waiting for child processes (with its own timeouts).
    pub spawns: bool,
    /// Address-space limit for workers, in MiB.
    pub mem_mb: u64,
    pub exhaustive: bool,
}

static THREAD_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
    static IS_MAIN: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    IS_MAIN.with(|m| *m.borrow_mut() = true);
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("panic at {}: {}", loc, msg);
        let main = IS_MAIN.try_with(|m| *m.borrow()).unwrap_or(false);
        if main {
            let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(m.clone()));
        } else if let Ok(mut g) = THREAD_PANICS.lock() {
            g.push(m);
        }
    }));
}

/// Run `f`, turning a panic into an error; used by cases too.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub struct Outcome {
    pub err: Option<String>,
    pub rec: Vec<u64>,
    pub ctx: Ctx,
}

pub fn run_case(p: &Prop, mut ctx: Ctx) -> Outcome {
    if let Ok(mut g) = THREAD_PANICS.lock() {
        g.clear();
    }
    let r = guarded(|| (p.case)(&mut ctx));
    let mut err = r.err();
    if let Ok(mut g) = THREAD_PANICS.lock() {
        if err.is_none() && !g.is_empty() {
            err = Some(format!("thread {}", g.join(" | ")));
        }
        g.clear();
    }
    Outcome { err, rec: ctx.s.rec.clone(), ctx }
}

fn case_seed(p: &Prop, seed: u64, index: u64) -> u64 {
    mix(mix(hash_bytes(p.id.as_bytes()), seed), index)
}

/// The part of a message that identifies the kind of failure, so that shrinking stays on it.
pub fn signature(m: &str) -> String {
    if let Some(i) = m.find("panic at ") {
        let rest = &m[i..];
        // file:line
        let mut it = rest.splitn(4, ':');
        let a = it.next().unwrap_or("");
        let b = it.next().unwrap_or("");
        return format!("{}:{}", a, b);
    }
    m.split(':').next().unwrap_or("").to_string()
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}
/// Lines `known: property=<id> match=<substring of message> -- <text>`; `fixed:` lines are ignored here.
pub fn known_findings(root: &Path, id: &str) -> Vec<Known> {
    let t = fs::read_to_string(root.join("known_findings")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut sp = rest.splitn(2, " match=");
            let prop = sp.next().unwrap_or("").trim().to_string();
            let rest = sp.next().unwrap_or("");
            let mut sp = rest.splitn(2, " -- ");
            let sig = sp.next().unwrap_or("").trim().to_string();
            let text = sp.next().unwrap_or("").trim().to_string();
            if prop == id && !sig.is_empty() {
                v.push(Known { prop, sig, text });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- worker

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}
fn limits(p: &Prop) {
    unsafe {
        let m = p.mem_mb << 20;
        setrlimit(9, &[m, m]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}

fn shrink(p: &Prop, base: &Ctx, choices: Vec<u64>, msg: String, budget: Duration, test: &mut dyn FnMut(&[u64]) -> Option<(String, Vec<u64>)>) -> (Vec<u64>, String, u64) {
    let _ = (p, base);
    let sig = signature(&msg);
    let t0 = Instant::now();
    let mut best = choices;
    let mut best_msg = msg;
    let mut tries = 0u64;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        tries += 1;
        if let Some((m, rec)) = test(cand) {
            if signature(&m) == sig {
                let simpler = |a: &Vec<u64>, b: &Vec<u64>| a.len() < b.len() || (a.len() == b.len() && a < b);
                let c = cand.to_vec();
                let pick = if simpler(&rec, &c) { rec } else { c };
                if simpler(&pick, best) {
                    *best = pick;
                    *best_msg = m;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, best_msg, tries);
                }
                let mut c = best.clone();
                let e = (i + size).min(c.len());
                c.drain(i..e);
                if !attempt(&c, &mut best, &mut best_msg) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero, then minimise each value
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > budget {
                return (best, best_msg, tries);
            }
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt(&c, &mut best, &mut best_msg) {
                    let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                    let mut n = 0;
                    while lo + 1 < hi && n < 24 && i < best.len() && t0.elapsed() < budget {
                        n += 1;
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt(&c, &mut best, &mut best_msg) {
                            hi = best.get(i).copied().unwrap_or(0).min(mid);
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget {
            return (best, best_msg, tries);
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...", &s[..e])
}

fn write_replay(path: &Path, p: &Prop, seed: u64, index: u64, thorough: bool, choices: &[u64], msg: &str, desc: &str) {
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n\"property\": \"{}\",\n\"seed\": {},\n\"index\": {},\n\"tier\": \"{}\",\n\"choices\": [",
        p.id,
        seed,
        index,
        if thorough { "thorough" } else { "quick" }
    );
    for (i, c) in choices.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let _ = write!(o, "{}", c);
    }
    let _ = write!(o, "],\n\"message\": \"{}\",\n\"case\": \"{}\"\n}}\n", esc(&cut(msg, 4000)), esc(&cut(desc, 8000)));
    let tmp = path.with_extension("tmp");
    if fs::write(&tmp, o).is_ok() {
        let _ = fs::rename(&tmp, path);
    }
}

pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub thorough: bool,
    pub choices: Vec<u64>,
    pub message: String,
}
fn field<'a>(t: &'a str, name: &str) -> &'a str {
    let k = format!("\"{}\": ", name);
    match t.find(&k) {
        Some(i) => {
            let r = &t[i + k.len()..];
            r.split('\n').next().unwrap_or("").trim_end_matches(',')
        }
        None => "",
    }
}
pub fn read_replay(path: &Path) -> Option<Replay> {
    let t = fs::read_to_string(path).ok()?;
    Some(Replay {
        property: field(&t, "property").trim_matches('"').to_string(),
        seed: field(&t, "seed").parse().ok()?,
        index: field(&t, "index").parse().ok()?,
        thorough: field(&t, "tier").contains("thorough"),
        choices: field(&t, "choices").trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect(),
        message: field(&t, "message").trim_matches('"').to_string(),
    })
}

fn worker(root: &Path, p: &Prop, a: &Args) -> i32 {
    limits(p);
    install_hook();
    let dir = PathBuf::from(&a.dir);
    let status = fs::OpenOptions::new().create(true).write(true).truncate(false).open(dir.join(format!("cur{}", a.worker))).expect("status file");
    let known = known_findings(root, p.id);
    let total = if a.cases > 0 { a.cases } else if a.thorough { p.thorough } else { p.quick };
    let mut evals = 0u64;
    let mut checks = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known_seen: BTreeMap<usize, u64> = BTreeMap::new();
    let mut failed = 0;
    let mut i = if a.start > 0 { a.start } else { a.worker };
    let mut cut_short = false;
    while i < total {
        if Instant::now() > a.deadline {
            cut_short = true;
            break;
        }
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        let out = run_case(p, Ctx::new(Src::fresh(case_seed(p, a.seed, i)), i, a.seed, a.thorough));
        evals += 1;
        checks += out.ctx.checks;
        for c in &out.ctx.classes {
            *hist.entry(c.clone()).or_insert(0) += 1;
        }
        if out.ctx.nontrivial {
            let key = match out.ctx.key {
                Some(k) => k,
                None => {
                    let mut h = 1u64;
                    for c in &out.rec {
                        h = mix(h, *c);
                    }
                    mix(h, if out.rec.is_empty() { i } else { 0 })
                }
            };
            let new = seen.len() < 3_000_000 && seen.insert(key);
            if new && samples.len() < 3 && i % 7 == a.worker % 7 {
                samples.push(cut(&out.ctx.desc, 700));
            }
        }
        if let Some(m) = out.err {
            if let Some(k) = known.iter().position(|k| m.contains(&k.sig)) {
                *known_seen.entry(k).or_insert(0) += 1;
            } else {
                failed = 1;
                let f = dir.join(format!("fail{}.json", a.worker));
                write_replay(&f, p, a.seed, i, a.thorough, &out.rec, &m, &out.ctx.desc);
                let _ = status.write_all_at(&u64::MAX.to_le_bytes(), 0);
                let base = Ctx::new(Src::replay(&[]), i, a.seed, a.thorough);
                let th = a.thorough;
                let sd = a.seed;
                let mut last_save = String::new();
                let f2 = f.clone();
                let sig = signature(&m);
                let mut best_len = usize::MAX;
                let (ch, msg, tries) = shrink(p, &base, out.rec, m, Duration::from_secs(if th { 180 } else { 40 }), &mut |c| {
                    let o = run_case(p, Ctx::new(Src::replay(c), i, sd, th));
                    match o.err {
                        Some(e) => {
                            if signature(&e) == sig && o.rec.len() < best_len {
                                best_len = o.rec.len();
                                write_replay(&f2, p, sd, i, th, &o.rec, &e, &o.ctx.desc);
                                last_save = e.clone();
                            }
                            Some((e, o.rec))
                        }
                        None => None,
                    }
                });
                let o = run_case(p, Ctx::new(Src::replay(&ch), i, sd, th));
                let msg = o.err.unwrap_or(msg);
                write_replay(&f, p, a.seed, i, a.thorough, &ch, &format!("{} [shrunk in {} runs]", msg, tries), &o.ctx.desc);
                break;
            }
        }
        i += a.of;
    }
    let _ = status.write_all_at(&(u64::MAX - 1).to_le_bytes(), 0);
    let mut o = String::new();
    let _ = writeln!(o, "evals {}", evals);
    let _ = writeln!(o, "checks {}", checks);
    let _ = writeln!(o, "failed {}", failed);
    let _ = writeln!(o, "cut {}", cut_short as u8);
    for (k, v) in &known_seen {
        let _ = writeln!(o, "known {} {}", k, v);
    }
    for (k, v) in &hist {
        let _ = writeln!(o, "class {} {}", v, k);
    }
    for s in &samples {
        let _ = writeln!(o, "sample {}", s.replace('\n', " "));
    }
    let name = if a.start > 0 { format!("stats{}.{}", a.worker, a.start) } else { format!("stats{}", a.worker) };
    let keys: Vec<u8> = seen.iter().flat_map(|k| k.to_le_bytes()).collect();
    fs::write(dir.join(format!("keys-{}", name)), keys).expect("keys");
    fs::write(dir.join(name), o).expect("stats");
    0
}

// ---------------------------------------------------------------- parent

pub struct Args {
    pub mode: String,
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub worker: u64,
    pub of: u64,
    pub start: u64,
    pub cases: u64,
    pub dir: String,
    pub file: String,
    pub secs: u64,
    pub deadline: Instant,
}

/// (sum of thread CPU ticks, all threads sleeping)
fn proc_state(pid: u32) -> Option<(u64, bool)> {
    let mut ticks = 0;
    let mut asleep = true;
    for e in fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let e = e.ok()?;
        let t = fs::read_to_string(e.path().join("stat")).ok()?;
        let r = &t[t.rfind(')')? + 2..];
        let f: Vec<&str> = r.split(' ').collect();
        if f[0] != "S" {
            asleep = false;
        }
        ticks += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    }
    // threads that have ended are counted in the process total only
    let t = fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let r = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let tot = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    Some((ticks.max(tot), asleep))
}

#[derive(Debug)]
enum End {
    Done,
    Crash(String),
    Hang(String),
    Killed,
}

struct Watch {
    child: Child,
    idx: u64,
    ticks0: u64,
    since: Instant,
    last_ticks: u64,
    still: u32,
    still_since: Instant,
}

impl Watch {
    fn new(child: Child) -> Watch {
        let n = Instant::now();
        Watch { child, idx: u64::MAX - 2, ticks0: 0, since: n, last_ticks: 0, still: 0, still_since: n }
    }
    /// One sample; Some when the process ended or was ended.
    fn sample(&mut self, cur: u64, cpu_limit: u64, spawns: bool) -> Option<End> {
        match self.child.try_wait() {
            Ok(Some(st)) => {
                return Some(if st.success() {
                    End::Done
                } else if let Some(s) = st.signal() {
                    if s == 9 {
                        End::Killed
                    } else {
                        End::Crash(format!("crash: process ended by signal {}", s))
                    }
                } else {
                    End::Crash(format!("crash: process exited with status {}", st.code().unwrap_or(-1)))
                });
            }
            Ok(None) => {}
            Err(_) => return Some(End::Killed),
        }
        if cur >= u64::MAX - 1 {
            // shrinking or finishing
            if cur != self.idx {
                self.idx = cur;
                self.since = Instant::now();
            }
            if self.since.elapsed() > Duration::from_secs(260) {
                let _ = self.child.kill();
                let _ = self.child.wait();
                return Some(End::Done);
            }
            return None;
        }
        let (ticks, asleep) = match proc_state(self.child.id()) {
            Some(x) => x,
            None => return None,
        };
        if cur != self.idx {
            self.idx = cur;
            self.ticks0 = ticks;
            self.since = Instant::now();
            self.still = 0;
            self.still_since = Instant::now();
            self.last_ticks = ticks;
            return None;
        }
        let used = (ticks - self.ticks0.min(ticks)) / 100;
        if asleep && ticks == self.last_ticks {
            self.still += 1;
        } else {
            self.still = 0;
            self.still_since = Instant::now();
        }
        self.last_ticks = ticks;
        let hang = if used > cpu_limit {
            Some(format!("hang: one case used more than {} s of CPU", cpu_limit))
        } else if !spawns && self.still > 40 && self.still_since.elapsed() > Duration::from_secs(15) {
            Some("deadlock: every thread sleeps and none advances".to_string())
        } else if spawns && self.since.elapsed() > Duration::from_secs(300) {
            Some("hang: one case took more than 300 s".to_string())
        } else {
            None
        };
        if let Some(h) = hang {
            let _ = self.child.kill();
            let _ = self.child.wait();
            return Some(End::Hang(h));
        }
        None
    }
}

fn read_cur(dir: &Path, w: u64) -> u64 {
    match fs::read(dir.join(format!("cur{}", w))) {
        Ok(b) if b.len() == 8 => u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]),
        _ => u64::MAX - 2,
    }
}

fn spawn_worker(p: &Prop, a: &Args, dir: &Path, w: u64, of: u64, start: u64) -> Child {
    let left = a.deadline.saturating_duration_since(Instant::now()).as_secs();
    Command::new(std::env::current_exe().expect("exe"))
        .args(["run", p.id, "--tier", if a.thorough { "thorough" } else { "quick" }])
        .args(["--seed", &a.seed.to_string(), "--worker", &w.to_string(), "--of", &of.to_string(), "--start", &start.to_string()])
        .args(["--cases", &a.cases.to_string(), "--secs", &left.to_string()])
        .arg("--dir")
        .arg(dir)
        .env("MALLOC_ARENA_MAX", "2").env("MALLOC_MMAP_THRESHOLD_", "33554432").env("MALLOC_TRIM_THRESHOLD_", "2000000000").env("MALLOC_TOP_PAD_", "16777216")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::OpenOptions::new().create(true).append(true).open(dir.join("stderr")).expect("stderr file"))
        .spawn()
        .expect("spawn worker")
}

/// Run one replay file in a fresh process. Ok(None): held; Ok(Some(msg)): failed; Err: could not tell.
fn exec_file(p: &Prop, dir: &Path, file: &Path, cpu: u64) -> Result<Option<String>, String> {
    let tag = format!("{}", file.file_stem().and_then(|s| s.to_str()).unwrap_or("x"));
    let out = dir.join(format!("{}.out", tag));
    let _ = fs::remove_file(&out);
    let child = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["exec", p.id, "--file"])
        .arg(file)
        .arg("--dir")
        .arg(&out)
        .env("MALLOC_ARENA_MAX", "2").env("MALLOC_MMAP_THRESHOLD_", "33554432").env("MALLOC_TRIM_THRESHOLD_", "2000000000").env("MALLOC_TOP_PAD_", "16777216")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::OpenOptions::new().create(true).append(true).open(dir.join("stderr")).map_err(|e| e.to_string())?)
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut w = Watch::new(child);
    loop {
        std::thread::sleep(Duration::from_millis(if w.since.elapsed() < Duration::from_secs(1) { 10 } else { 200 }));
        match w.sample(0, cpu, p.spawns) {
            None => {}
            Some(End::Done) => {
                let t = fs::read_to_string(&out).unwrap_or_default();
                return if t == "ok" { Ok(None) } else { Ok(Some(t)) };
            }
            Some(End::Crash(m)) | Some(End::Hang(m)) => return Ok(Some(m)),
            Some(End::Killed) => return Err("killed".into()),
        }
    }
}

fn scratch(id: &str) -> PathBuf {
    let d = std::env::temp_dir().join(format!("dvh.{}.{}", id, std::process::id()));
    let _ = fs::create_dir_all(&d);
    d
}

fn check(root: &Path, p: &Prop, a: &Args) -> i32 {
    let t0 = Instant::now();
    let known = known_findings(root, p.id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k.text);
    }
    if let Ok(rd) = fs::read_dir(root.join("evidence")) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{}-replay-", p.id)) {
                let _ = fs::remove_file(e.path());
            }
        }
    }
    let dir = scratch(p.id);
    let of = if a.of > 0 { a.of } else { 8 };
    let mut ws: Vec<Option<Watch>> = (0..of).map(|w| Some(Watch::new(spawn_worker(p, a, &dir, w, of, 0)))).collect();
    let mut fail_files: Vec<PathBuf> = vec![];
    let mut lost = 0u64;
    let mut notes: Vec<String> = vec![];
    let mut killed = 0;
    while ws.iter().any(|w| w.is_some()) {
        std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_secs(5) { 25 } else { 200 }));
        for w in 0..of {
            let slot = &mut ws[w as usize];
            let watch = match slot {
                Some(x) => x,
                None => continue,
            };
            let cur = read_cur(&dir, w);
            let end = match watch.sample(cur, p.cpu_limit, p.spawns) {
                None => continue,
                Some(e) => e,
            };
            let cur = read_cur(&dir, w);
            let f = dir.join(format!("fail{}.json", w));
            match end {
                End::Done => {
                    if f.exists() {
                        fail_files.push(f);
                    }
                    *slot = None;
                }
                End::Crash(m) | End::Hang(m) => {
                    if cur >= u64::MAX - 2 {
                        if f.exists() {
                            fail_files.push(f); // died while shrinking; the unshrunk failure stands
                        } else {
                            notes.push(format!("worker {} failed outside a case: {}", w, m));
                        }
                        *slot = None;
                        continue;
                    }
                    lost += 1;
                    let mut s = Src::fresh(case_seed(p, a.seed, cur));
                    let _ = &mut s;
                    // choices are unknown until the case is re-run; record "fresh" choices via exec-rec
                    let rec = fresh_choices(p, a, cur, &dir);
                    let isknown = known.iter().any(|k| m.contains(&k.sig));
                    if !isknown {
                        let hf = dir.join(format!("hard{}_{}.json", w, cur));
                        write_replay(&hf, p, a.seed, cur, a.thorough, &rec.0, &m, &rec.1);
                        // confirm
                        let conf = exec_file(p, &dir, &hf, p.cpu_limit);
                        let mut msg = m.clone();
                        match conf {
                            Ok(Some(m2)) => {
                                msg = m2;
                                if !rec.0.is_empty() {
                                    shrink_hard(p, a, cur, &dir, &hf, rec.0, &msg);
                                }
                            }
                            Ok(None) => msg = format!("{} (schedule dependent: did not recur when the case was run again)", m),
                            Err(e) => notes.push(format!("confirm run: {}", e)),
                        }
                        if known.iter().any(|k| msg.contains(&k.sig)) {
                            let _ = fs::remove_file(&hf);
                        } else {
                            fail_files.push(hf);
                            *slot = None;
                            continue;
                        }
                    }
                    *slot = Some(Watch::new(spawn_worker(p, a, &dir, w, of, cur + of)));
                }
                End::Killed => {
                    killed += 1;
                    lost += 1;
                    notes.push(format!("worker {} was killed at case {}", w, cur));
                    if killed > 3 || cur >= u64::MAX - 2 {
                        *slot = None;
                    } else {
                        *slot = Some(Watch::new(spawn_worker(p, a, &dir, w, of, cur + of)));
                    }
                }
            }
        }
        if !fail_files.is_empty() {
            // a violation ends the run; let other workers that are shrinking finish briefly, drop the rest
            for w in ws.iter_mut() {
                if let Some(x) = w {
                    let _ = x.child.kill();
                    let _ = x.child.wait();
                }
                *w = None;
            }
        }
    }
    // gather
    let mut evals = lost;
    let mut checks = 0;
    let mut keys: Vec<u64> = vec![];
    let mut cut_short = 0;
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known_seen = 0u64;
    if let Ok(rd) = fs::read_dir(&dir) {
        for e in rd.flatten() {
            let n = e.file_name();
            if n.to_string_lossy().starts_with("keys-") {
                let b = fs::read(e.path()).unwrap_or_default();
                keys.extend(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())));
                continue;
            }
            if !n.to_string_lossy().starts_with("stats") {
                continue;
            }
            for l in fs::read_to_string(e.path()).unwrap_or_default().lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "evals" => evals += v.parse::<u64>().unwrap_or(0),
                    "checks" => checks += v.parse::<u64>().unwrap_or(0),
                    "cut" => cut_short += v.parse::<u64>().unwrap_or(0),
                    "known" => known_seen += v.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0),
                    "class" => {
                        let (c, name) = v.split_once(' ').unwrap_or((v, ""));
                        *hist.entry(name.to_string()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                    }
                    "sample" => samples.push(v.to_string()),
                    _ => {}
                }
            }
        }
    }
    keys.sort_unstable();
    keys.dedup();
    let distinct = keys.len();
    drop(keys);
    samples.sort();
    let step = (samples.len() / 8).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).take(10).collect();
    // report
    let mut violations = vec![];
    for f in &fail_files {
        if let Some(r) = read_replay(f) {
            let out = root.join("evidence").join(format!("{}-replay-{}.json", p.id, r.index));
            let _ = fs::create_dir_all(root.join("evidence"));
            if fs::copy(f, &out).is_ok() {
                violations.push((out, r.message));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"oracle_checks\": {},\n  \"exhaustive\": {},\n  \"known_finding_hits\": {},\n  \"stopped_by_time_limit\": {},\n  \"classes\": {{",
        p.id,
        if a.thorough { "thorough" } else { "quick" },
        a.seed,
        evals,
        distinct,
        esc(p.rule),
        checks,
        p.exhaustive && cut_short == 0,
        known_seen,
        cut_short > 0
    );
    for (i, (k, v)) in hist.iter().take(120).enumerate() {
        let _ = write!(o, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    o.push_str("},\n  \"samples\": [");
    for (i, s) in samples.iter().enumerate() {
        let _ = write!(o, "{}\n   \"{}\"", if i > 0 { "," } else { "" }, esc(s));
    }
    let _ = write!(o, "\n  ]\n }},\n \"notes\": [");
    for (i, s) in notes.iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if i > 0 { ", " } else { "" }, esc(s));
    }
    let _ = write!(o, "],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations.len());
    let _ = fs::create_dir_all(root.join("evidence"));
    let ev = root.join("evidence").join(format!("{}.json", p.id));
    if let Ok(mut f) = fs::File::create(&ev) {
        let _ = f.write_all(o.as_bytes());
    }
    let broken = violations.is_empty() && (killed > 3 || notes.iter().any(|n| n.contains("outside a case")));
    if broken {
        let err = fs::read_to_string(dir.join("stderr")).unwrap_or_default();
        eprintln!("{}: machinery failure: {:?}\n{}", p.id, notes, cut(&err, 3000));
    }
    let _ = fs::remove_dir_all(&dir);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} oracle checks, {:.1} s, {} violation(s){}",
        p.id,
        evals,
        distinct,
        checks,
        wall,
        violations.len(),
        if cut_short > 0 { " [stopped by time limit]" } else { "" }
    );
    if let Some((_, m)) = violations.iter().find(|v| v.1.starts_with("machinery")) {
        eprintln!("{}: {}", p.id, m);
        return 2;
    }
    if !violations.is_empty() {
        for (f, m) in violations.iter().take(1) {
            println!("  {}", m);
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return 1;
    }
    if broken {
        return 2;
    }
    0
}

/// Recover the choices of a case that cannot finish in-process, by running it with a recording that is
/// written out as it goes.
fn fresh_choices(p: &Prop, a: &Args, index: u64, dir: &Path) -> (Vec<u64>, String) {
    let out = dir.join(format!("rec{}", index));
    let ch = Command::new(std::env::current_exe().expect("exe"))
        .args(["record", p.id, "--tier", if a.thorough { "thorough" } else { "quick" }])
        .args(["--seed", &a.seed.to_string(), "--start", &index.to_string(), "--file"])
        .arg(&out)
        .env("MALLOC_ARENA_MAX", "2").env("MALLOC_MMAP_THRESHOLD_", "33554432").env("MALLOC_TRIM_THRESHOLD_", "2000000000").env("MALLOC_TOP_PAD_", "16777216")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn();
    if let Ok(mut c) = ch {
        let t = Instant::now();
        loop {
            if let Ok(Some(_)) = c.try_wait() {
                break;
            }
            if t.elapsed() > Duration::from_secs(20) {
                let _ = c.kill();
                let _ = c.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    let b = fs::read(&out).unwrap_or_default();
    (b.chunks_exact(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect(), String::new())
}

fn shrink_hard(p: &Prop, a: &Args, index: u64, dir: &Path, file: &Path, choices: Vec<u64>, msg: &str) {
    let base = Ctx::new(Src::replay(&[]), index, a.seed, a.thorough);
    let tmp = dir.join("shrink.json");
    let cpu = p.cpu_limit.min(8);
    let (ch, m, tries) = shrink(p, &base, choices, msg.to_string(), Duration::from_secs(60), &mut |c| {
        write_replay(&tmp, p, a.seed, index, a.thorough, c, "", "");
        match exec_file(p, dir, &tmp, cpu) {
            Ok(Some(m)) => Some((m, c.to_vec())),
            _ => None,
        }
    });
    write_replay(file, p, a.seed, index, a.thorough, &ch, &format!("{} [shrunk in {} runs]", m, tries), "");
}

pub fn main_with(root: &Path, props: &[Prop]) -> i32 {
    let argv: Vec<String> = std::env::args().collect();
    let mut a = Args {
        mode: argv.get(1).cloned().unwrap_or_default(),
        prop: argv.get(2).cloned().unwrap_or_default(),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        worker: 0,
        of: 0,
        start: 0,
        cases: 0,
        dir: String::new(),
        file: String::new(),
        secs: 0,
        deadline: Instant::now(),
    };
    let mut i = 3;
    while i + 1 < argv.len() {
        let v = argv[i + 1].clone();
        match argv[i].as_str() {
            "--tier" => a.thorough = v == "thorough",
            "--seed" => a.seed = v.parse().unwrap_or(1),
            "--worker" => a.worker = v.parse().unwrap_or(0),
            "--of" => a.of = v.parse().unwrap_or(8),
            "--start" => a.start = v.parse().unwrap_or(0),
            "--cases" => a.cases = v.parse().unwrap_or(0),
            "--dir" => a.dir = v,
            "--file" => a.file = v,
            "--secs" => a.secs = v.parse().unwrap_or(0),
            _ => {}
        }
        i += 2;
    }
    if a.secs == 0 && a.mode != "run" {
        a.secs = if a.thorough { 6 * 3600 } else { 500 };
    }
    a.deadline = Instant::now() + Duration::from_secs(a.secs);
    if a.mode == "replay" {
        let f = PathBuf::from(&a.prop);
        let r = match read_replay(&f) {
            Some(r) => r,
            None => {
                eprintln!("cannot read replay file {}", f.display());
                return 2;
            }
        };
        let p = match props.iter().find(|p| p.id == r.property) {
            Some(p) => p,
            None => return 3,
        };
        let dir = scratch("replay");
        let e = exec_file(p, &dir, &f, p.cpu_limit);
        let _ = fs::remove_dir_all(&dir);
        return match e {
            Ok(None) => {
                println!("{}: held on replay", p.id);
                0
            }
            Ok(Some(m)) => {
                println!("  {}", m);
                println!("VIOLATION property={} replay={}", p.id, f.display());
                1
            }
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        };
    }
    let p = match props.iter().find(|p| p.id == a.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a.prop);
            return 3;
        }
    };
    match a.mode.as_str() {
        "check" => check(root, p, &a),
        "run" => worker(root, p, &a),
        "exec" => {
            limits(p);
            install_hook();
            let r = match read_replay(Path::new(&a.file)) {
                Some(r) => r,
                None => return 2,
            };
            let src = if r.choices.is_empty() && r.message.contains("crash") { Src::fresh(case_seed(p, r.seed, r.index)) } else { Src::replay(&r.choices) };
            let o = run_case(p, Ctx::new(src, r.index, r.seed, r.thorough));
            let _ = fs::write(&a.dir, o.err.unwrap_or_else(|| "ok".into()));
            0
        }
        "record" => {
            limits(p);
            install_hook();
            let mut s = Src::fresh(case_seed(p, a.seed, a.start));
            s.log_to(Path::new(&a.file));
            let _ = run_case(p, Ctx::new(s, a.start, a.seed, a.thorough));
            0
        }
        "one" => {
            install_hook();
            let o = run_case(p, Ctx::new(Src::fresh(case_seed(p, a.seed, a.start)), a.start, a.seed, a.thorough));
            println!("nontrivial={} checks={} classes={:?}\n{}\n{:?}", o.ctx.nontrivial, o.ctx.checks, o.ctx.classes, cut(&o.ctx.desc, 3000), o.err);
            0
        }
        _ => {
            eprintln!("usage: dvh check|one|replay <property> [--tier quick|thorough] [--seed N] [--cases N]");
            2
        }
    }
}

pub fn kill_pid(pid: u32) {
    unsafe {
        kill(pid as i32, 9);
    }
}
