//! Shared machinery of the checks: reporting, evidence, panic capture, enumeration helpers.
//!
//! Every check is a binary `cNN` that exhaustively enumerates a bounded space of behaviours of the
//! real `algorsand` code, compares each one with a reference model, and reports through [`Report`].

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Mutex, Once};
use std::time::Instant;

use serde_json::{json, Value};

pub mod model;
pub mod msgpack;
pub mod near;
pub mod triekit;
pub mod txkit;
pub mod upgrade;
pub mod wire;

/// Where `/verif` is (overridable, so that the framework can be run from a copy).
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

/// Where the code under test is.
pub fn repo_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()))
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER")
        .map(|t| t == "thorough")
        .unwrap_or(false)
}

/// Picks the quick or the thorough bound.
pub fn tier<T>(quick: T, deep: T) -> T {
    if thorough() {
        deep
    } else {
        quick
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static REAL_STDOUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);

/// Sends whatever the code under test prints to /dev/null; the check itself prints with [`out`].
fn mute() {
    use std::os::fd::AsRawFd;
    use std::sync::atomic::Ordering::SeqCst;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        let null = std::fs::OpenOptions::new()
            .write(true)
            .open("/dev/null")
            .expect("/dev/null");
        REAL_STDOUT.store(dup(1), SeqCst);
        dup2(null.as_raw_fd(), 1);
    });
}

/// Prints a line on the check's real standard output.
pub fn out(s: &str) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let fd = REAL_STDOUT.load(std::sync::atomic::Ordering::SeqCst);
    if fd < 0 {
        println!("{}", s);
        return;
    }
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(fd) });
    let _ = writeln!(f, "{}", s);
}

static HOOK: Once = Once::new();
thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn install_hook() {
    HOOK.call_once(|| {
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|l| *l.borrow_mut() = info.to_string().replace('\n', " "));
            } else {
                prev(info);
                unexpected(
                    &info.to_string().replace('\n', " "),
                    info.location()
                        .map(|l| l.file().to_string())
                        .unwrap_or_default(),
                );
            }
        }));
    });
}

static CURRENT: Mutex<String> = Mutex::new(String::new());

/// A panic outside a guarded call: either the code under test panicked where the check relies on
/// it not to, or it returned something the check's set-up cannot work with (an own key that cannot
/// be restored, a valid object refused). Neither happens on code where the properties hold.
/// A panic inside this framework file is a failure of the framework and gives no verdict.
fn unexpected(msg: &str, file: String) {
    let id = CURRENT.lock().map(|s| s.clone()).unwrap_or_default();
    if id.is_empty() || std::env::var("VERIF_CHILD").is_ok() {
        return;
    }
    if file.ends_with("mc/src/lib.rs") || file == "src/lib.rs" {
        std::process::exit(2);
    }
    let dir = verif_dir().join("replay");
    let path = dir.join(format!("{}.json", id));
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(&path, json!({"property": id, "how_to_replay": format!("{}/run.sh {}", verif_dir().display(), id), "violations": [{"key": "unexpected-panic", "detail": msg}]}).to_string());
    out(&format!("  [unexpected-panic] {}", cut(msg)));
    out(&format!(
        "VIOLATION property={} replay={}",
        id,
        path.display()
    ));
    std::process::exit(1);
}

/// Runs `f`, turning a panic of the code under test into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    install_hook();
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| format!("panic: {}", LAST_PANIC.with(|l| l.borrow().clone())))
}

struct Violation {
    key: String,
    detail: String,
    case: String,
}

/// Collects what a check explored and what it found.
pub struct Report {
    id: String,
    start: Instant,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    spaces: BTreeMap<String, Value>,
    samples: Vec<String>,
    sample_keys: HashSet<String>,
    assumptions: Vec<String>,
    violations: Vec<Violation>,
    dropped: u64,
    exhaustive: bool,
    caps: Vec<String>,
}

const MAX_VIOLATIONS: usize = 60;

impl Report {
    pub fn new(id: &str) -> Report {
        install_hook();
        mute();
        if let Ok(mut c) = CURRENT.lock() {
            *c = id.into();
        }
        Report {
            id: id.into(),
            start: Instant::now(),
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            spaces: BTreeMap::new(),
            samples: Vec::new(),
            sample_keys: HashSet::new(),
            assumptions: Vec::new(),
            violations: Vec::new(),
            dropped: 0,
            exhaustive: true,
            caps: Vec::new(),
        }
    }

    /// Distinct states (or distinct inputs) of the explored space.
    pub fn state(&mut self) {
        self.states += 1;
    }
    pub fn states(&mut self, n: u64) {
        self.states += n;
    }
    /// Calls of the implementation.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Executions of the implementation compared in full with the reference model.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn traces(&mut self, n: u64) {
        self.traces += n;
    }
    /// Counts how often each kind of outcome was seen; reveals vacuous exploration.
    pub fn outcome(&mut self, k: &str) {
        if let Some(n) = self.outcomes.get_mut(k) {
            *n += 1;
        } else {
            self.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn outcome_count(&self, k: &str) -> u64 {
        self.outcomes.get(k).copied().unwrap_or(0)
    }
    /// Describes one enumerated sub-space and its size as measured.
    pub fn space(&mut self, name: &str, v: impl Into<Value>) {
        self.spaces.insert(name.to_string(), v.into());
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Records that a bound or cap cut the enumeration short.
    pub fn capped(&mut self, s: &str) {
        self.exhaustive = false;
        self.caps.push(s.to_string());
    }
    /// Keeps up to two sample cases per kind.
    pub fn sample(&mut self, kind: &str, f: impl FnOnce() -> String) {
        let k1 = format!("{}#1", kind);
        let k2 = format!("{}#2", kind);
        if self.sample_keys.insert(k1) || self.sample_keys.insert(k2) {
            if self.samples.len() < 40 {
                let s = f();
                self.samples.push(format!("{}: {}", kind, s));
            }
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Reports a violation. `key` identifies the kind of failure (matched against the
    /// known-findings file); `case` is the input / history; `detail` what went wrong.
    pub fn violation(&mut self, key: &str, case: impl Into<String>, detail: impl Into<String>) {
        if self.violations.iter().filter(|v| v.key == key).count() >= 5
            || self.violations.len() >= MAX_VIOLATIONS
        {
            self.dropped += 1;
            return;
        }
        self.violations.push(Violation {
            key: key.into(),
            detail: detail.into(),
            case: case.into(),
        });
    }

    pub fn has_violations(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Checks a condition and reports a violation if it does not hold.
    pub fn check(
        &mut self,
        ok: bool,
        key: &str,
        case: impl FnOnce() -> String,
        detail: impl FnOnce() -> String,
    ) -> bool {
        if !ok {
            self.violation(key, case(), detail());
        }
        ok
    }

    /// `check(a == b)` with a useful message.
    pub fn check_eq<T: PartialEq + Debug>(
        &mut self,
        got: &T,
        want: &T,
        key: &str,
        case: impl FnOnce() -> String,
    ) -> bool {
        if got != want {
            self.violation(
                key,
                case(),
                format!(
                    "implementation gives {:?}, reference model gives {:?}",
                    got, want
                ),
            );
            return false;
        }
        true
    }

    /// Unwraps a [`guard`]ed result, reporting a panic as a violation.
    pub fn no_panic<T>(
        &mut self,
        r: Result<T, String>,
        key: &str,
        case: impl FnOnce() -> String,
    ) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(p) => {
                self.violation(key, case(), p);
                None
            }
        }
    }

    /// Merges the counters of a partial report (from a worker thread or child process).
    pub fn merge(&mut self, o: Report) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, n) in o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += n;
        }
        for s in o.samples {
            if self.samples.len() < 40 {
                self.samples.push(s);
            }
        }
        self.exhaustive &= o.exhaustive;
        self.caps.extend(o.caps);
        self.spaces.extend(o.spaces);
        self.assumptions.extend(o.assumptions);
        self.dropped += o.dropped;
        for v in o.violations {
            self.violation(&v.key.clone(), v.case, v.detail);
        }
    }

    /// Serialises the counters so that a child process can hand them to its parent.
    pub fn to_child_json(&self) -> String {
        json!({
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "outcomes": self.outcomes, "samples": self.samples, "caps": self.caps,
            "violations": self.violations.iter().map(|v| json!([v.key, v.case, v.detail])).collect::<Vec<_>>(),
        })
        .to_string()
    }

    pub fn merge_child_json(&mut self, s: &str) -> bool {
        let v: Value = match serde_json::from_str(s) {
            Ok(v) => v,
            Err(_) => return false,
        };
        self.states += v["states"].as_u64().unwrap_or(0);
        self.transitions += v["transitions"].as_u64().unwrap_or(0);
        self.traces += v["traces"].as_u64().unwrap_or(0);
        if let Some(m) = v["outcomes"].as_object() {
            for (k, n) in m {
                *self.outcomes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 40 {
                self.samples.push(s.as_str().unwrap_or("").to_string());
            }
        }
        for c in v["caps"].as_array().into_iter().flatten() {
            self.capped(c.as_str().unwrap_or(""));
        }
        for x in v["violations"].as_array().into_iter().flatten() {
            self.violation(
                x[0].as_str().unwrap_or("?"),
                x[1].as_str().unwrap_or("?"),
                x[2].as_str().unwrap_or("?"),
            );
        }
        true
    }

    /// Writes the evidence file, prints the verdict and exits.
    pub fn finish(self) -> ! {
        let dir = verif_dir();
        let known = known_findings(&self.id);
        let mut fresh = Vec::new();
        let mut known_hit: BTreeMap<String, (String, u64)> = BTreeMap::new();
        for v in &self.violations {
            match known.iter().find(|(k, _)| *k == v.key) {
                Some((k, text)) => known_hit.entry(k.clone()).or_insert((text.clone(), 0)).1 += 1,
                None => fresh.push(v),
            }
        }
        let ev = json!({
            "property": self.id,
            "tier": if thorough() { "thorough" } else { "quick" },
            "seed": seed(),
            "level": "model_checking",
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                "outcomes": self.outcomes,
                "spaces": self.spaces,
                "exhaustive": self.exhaustive,
                "caps_hit": self.caps,
                "known_findings_seen": known_hit.keys().collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": fresh.len(),
        });
        let evdir = dir.join("evidence");
        std::fs::create_dir_all(&evdir).expect("evidence dir");
        std::fs::write(
            evdir.join(format!("{}.json", self.id)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("write evidence");
        out(&format!(
            "{}: states={} transitions={} traces={} wall={:.1}s outcomes={:?}",
            self.id,
            self.states,
            self.transitions,
            self.traces,
            self.start.elapsed().as_secs_f64(),
            self.outcomes
        ));
        for (k, v) in &self.spaces {
            out(&format!("  space {}: {}", k, v));
        }
        for (_, (text, _)) in &known_hit {
            out(&format!("KNOWN-FINDING: property={} {}", self.id, text));
        }
        if fresh.is_empty() {
            if self.states == 0 || self.transitions == 0 {
                eprintln!("{}: nothing was explored", self.id);
                std::process::exit(3);
            }
            out(&format!("{}: OK", self.id));
            std::process::exit(0);
        }
        let rdir = dir.join("replay");
        std::fs::create_dir_all(&rdir).expect("replay dir");
        let path = rdir.join(format!("{}.json", self.id));
        let doc = json!({
            "property": self.id,
            "how_to_replay": format!("{}/run.sh {} re-enumerates the same space deterministically; `case` is the input or operation history that fails", dir.display(), self.id),
            "violations": fresh.iter().map(|v| json!({"key": v.key, "case": v.case, "detail": v.detail})).collect::<Vec<_>>(),
            "further_violations_not_recorded": self.dropped,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("write replay");
        for v in fresh.iter().take(25) {
            out(&format!(
                "  [{}] case: {}\n      {}",
                v.key,
                cut(&v.case),
                cut(&v.detail)
            ));
        }
        out(&format!(
            "VIOLATION property={} replay={}",
            self.id,
            path.display()
        ));
        std::process::exit(1);
    }
}

fn cut(s: &str) -> String {
    if s.len() > 600 {
        let mut i = 600;
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        format!("{}…", &s[..i])
    } else {
        s.to_string()
    }
}

/// Reads `known_findings.txt`: lines `known: property=<id> key=<key> <description>`.
/// Lines starting with `fixed:` suppress nothing.
fn known_findings(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for l in s.lines() {
        let l = l.trim();
        let Some(rest) = l.strip_prefix("known: property=") else {
            continue;
        };
        let mut it = rest.splitn(3, ' ');
        let (pid, key, text) = (
            it.next().unwrap_or(""),
            it.next().unwrap_or(""),
            it.next().unwrap_or(""),
        );
        if pid == id {
            if let Some(k) = key.strip_prefix("key=") {
                out.push((k.to_string(), format!("[{}] {}", k, text)));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- enumeration helpers

/// Calls `f` with every sequence over `0..k` of length exactly `n`.
pub fn sequences(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0usize; n];
    if k == 0 && n > 0 {
        return;
    }
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

/// Calls `f` with every element of the product of `0..dims[i]`.
pub fn product(dims: &[usize], mut f: impl FnMut(&[usize])) {
    if dims.iter().any(|d| *d == 0) {
        return;
    }
    let mut v = vec![0usize; dims.len()];
    loop {
        f(&v);
        let mut i = dims.len();
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < dims[i] {
                break;
            }
            v[i] = 0;
        }
    }
}

/// All permutations of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], &mut out);
    out
}

/// Runs `jobs` on all cores; each gets its own report, merged in order.
pub fn parallel<J: Send + Sync>(r: &mut Report, jobs: Vec<J>, f: impl Fn(&mut Report, &J) + Sync) {
    let n = jobs.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let outs: Mutex<HashMap<usize, Report>> = Mutex::new(HashMap::new());
    let threads = std::thread::available_parallelism()
        .map(|x| x.get())
        .unwrap_or(4)
        .min(8)
        .min(n.max(1));
    let id = r.id.clone();
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let mut part = Report::new(&id);
                    f(&mut part, &jobs[i]);
                    outs.lock().unwrap().insert(i, part);
                })
                .expect("spawn worker");
        }
    });
    let mut outs = outs.into_inner().unwrap();
    for i in 0..n {
        if let Some(p) = outs.remove(&i) {
            r.merge(p);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// A fresh scratch directory below the check's own scratch root (see run.sh).
pub fn scratch(name: &str) -> PathBuf {
    let base =
        std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH not set: start checks through run.sh");
    let p = PathBuf::from(base).join(name);
    if p.exists() {
        std::fs::remove_dir_all(&p).expect("clean scratch");
    }
    std::fs::create_dir_all(&p).expect("scratch");
    p
}

/// Opens a sled database. The threads of an earlier handle may keep it locked for a moment.
pub fn open_sled(path: &std::path::Path) -> sled::Db {
    for _ in 0..600 {
        if let Ok(db) = sled::open(path) {
            return db;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    panic!("cannot open {}", path.display());
}

/// Runs this same binary as a child with `args`, in `cwd`, with a time limit; returns
/// (exit status or None on timeout/signal, stdout, stderr).
pub fn run_self(
    args: &[&str],
    cwd: &std::path::Path,
    envs: &[(&str, &str)],
    limit_s: u64,
) -> (Option<i32>, String, String) {
    let exe = std::env::current_exe().expect("exe");
    run_cmd(&exe, args, cwd, envs, limit_s)
}

pub fn run_cmd(
    exe: &std::path::Path,
    args: &[&str],
    cwd: &std::path::Path,
    envs: &[(&str, &str)],
    limit_s: u64,
) -> (Option<i32>, String, String) {
    use std::io::Read;
    use std::process::{Command, Stdio};
    let mut c = Command::new(exe);
    c.args(args)
        .env("VERIF_CHILD", "1")
        .current_dir(cwd)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    for (k, v) in envs {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("spawn child");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        b
    });
    let t2 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = se.read_to_end(&mut b);
        b
    });
    let t0 = Instant::now();
    let st = loop {
        match ch.try_wait().expect("wait") {
            Some(s) => break s.code(),
            None => {
                if t0.elapsed().as_secs() > limit_s {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break None;
                }
                std::thread::sleep(std::time::Duration::from_millis(2));
            }
        }
    };
    let o = String::from_utf8_lossy(&t1.join().unwrap()).into_owned();
    let e = String::from_utf8_lossy(&t2.join().unwrap()).into_owned();
    (st, o, e)
}
