//! C29: participation keys are stored atomically and survive crashes at any point.
//!
//! The real store runs in a child process whose file-system calls are intercepted and logged (the
//! libc symbols are defined here, so that every call of the code under test and of the database
//! below it goes through them). Every crash image of every history is then materialised: every
//! prefix of the log, every torn last write, and every subset of the writes to the database file
//! that were not yet synchronised. The real code restores each image in a fresh process, and must
//! find the complete old or the complete new participation.

#![allow(invalid_runtime_symbol_definitions)]

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

use algorsand::data::account::{Participation, Root};
use algorsand::data::basics::Round;
use mc::*;
use serde_json::{json, Value};

// ---------------------------------------------------------------- interception

#[derive(Clone, Debug)]
enum Op {
    Mkdir(String),
    Create(String),
    Truncate(String, u64),
    Write(String, u64, Vec<u8>),
    Sync(String),
    Rename(String, String),
    Unlink(String),
    /// A step of the history begins, or has returned.
    Begin(usize),
    End(usize),
}

static RECORDING: AtomicBool = AtomicBool::new(false);
static LOG: Mutex<Vec<Op>> = Mutex::new(Vec::new());

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
    fn lseek64(fd: i32, off: i64, whence: i32) -> i64;
}
const SYS_WRITE: i64 = 1;
const SYS_OPEN: i64 = 2;
const SYS_PWRITE: i64 = 18;
const SYS_WRITEV: i64 = 20;
const SYS_FSYNC: i64 = 74;
const SYS_FDATASYNC: i64 = 75;
const SYS_FTRUNCATE: i64 = 77;
const SYS_RENAME: i64 = 82;
const SYS_MKDIR: i64 = 83;
const SYS_UNLINK: i64 = 87;
const SYS_OPENAT: i64 = 257;
const SYS_SYNC_RANGE: i64 = 277;

/// The path below the store's working directory, if it is there.
fn relative(p: &str) -> Option<String> {
    let cwd = std::env::current_dir().ok()?;
    let p = if p.starts_with('/') {
        PathBuf::from(p)
    } else {
        cwd.join(p)
    };
    p.strip_prefix(&cwd)
        .ok()
        .map(|p| p.to_string_lossy().into_owned())
}
fn of_fd(fd: i32) -> Option<String> {
    relative(
        &fs::read_link(format!("/proc/self/fd/{}", fd))
            .ok()?
            .to_string_lossy(),
    )
}
unsafe fn text(p: *const i8) -> String {
    std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// Executes a call and, while recording, logs it if it succeeded; the log has the order in which
/// the calls took effect.
unsafe fn logged(op: impl FnOnce() -> Option<Op>, call: impl FnOnce() -> i64) -> i64 {
    if !RECORDING.load(SeqCst) {
        return call();
    }
    let mut log = LOG.lock().unwrap();
    let op = op();
    let r = call();
    let err = *__errno_location();
    if r >= 0 {
        log.extend(op);
    }
    *__errno_location() = err;
    r
}

unsafe fn bytes(p: *const u8, n: usize) -> Vec<u8> {
    std::slice::from_raw_parts(p, n).to_vec()
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    logged(
        || of_fd(fd).map(|f| Op::Write(f, off as u64, bytes(p, n))),
        || syscall(SYS_PWRITE, fd, p, n, off),
    ) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    pwrite64(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    logged(
        || of_fd(fd).map(|f| Op::Write(f, lseek64(fd, 0, 1) as u64, bytes(p, n))),
        || syscall(SYS_WRITE, fd, p, n),
    ) as isize
}
#[repr(C)]
pub struct IoVec {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    logged(
        || {
            of_fd(fd).map(|f| {
                Op::Write(
                    f,
                    lseek64(fd, 0, 1) as u64,
                    (0..n as usize)
                        .flat_map(|i| bytes((*v.add(i)).base, (*v.add(i)).len))
                        .collect(),
                )
            })
        },
        || syscall(SYS_WRITEV, fd, v, n),
    ) as isize
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    logged(|| of_fd(fd).map(Op::Sync), || syscall(SYS_FSYNC, fd)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    logged(|| of_fd(fd).map(Op::Sync), || syscall(SYS_FDATASYNC, fd)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: i32, off: i64, n: i64, flags: u32) -> i32 {
    logged(
        || of_fd(fd).map(Op::Sync),
        || syscall(SYS_SYNC_RANGE, fd, off, n, flags),
    ) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    logged(
        || of_fd(fd).map(|f| Op::Truncate(f, n as u64)),
        || syscall(SYS_FTRUNCATE, fd, n),
    ) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const i8, b: *const i8) -> i32 {
    logged(
        || Some(Op::Rename(relative(&text(a))?, relative(&text(b))?)),
        || syscall(SYS_RENAME, a, b),
    ) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const i8) -> i32 {
    logged(
        || Some(Op::Unlink(relative(&text(a))?)),
        || syscall(SYS_UNLINK, a),
    ) as i32
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const i8, mode: u32) -> i32 {
    logged(
        || Some(Op::Mkdir(relative(&text(a))?)),
        || syscall(SYS_MKDIR, a, mode),
    ) as i32
}
unsafe fn opened(path: *const i8, flags: i32) -> Option<Op> {
    let (o_creat, o_trunc) = (0o100, 0o1000);
    let f = relative(&text(path))?;
    let exists = fs::metadata(&f).is_ok();
    if flags & o_creat != 0 && !exists {
        Some(Op::Create(f))
    } else if flags & o_trunc != 0 && exists {
        Some(Op::Truncate(f, 0))
    } else {
        None
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const i8, flags: i32, mode: u32) -> i32 {
    // An open that changes nothing is not logged (and `/proc` is read while logging).
    if flags & 0o1100 == 0 {
        return syscall(SYS_OPEN, path, flags, mode) as i32;
    }
    logged(
        || opened(path, flags),
        || syscall(SYS_OPEN, path, flags, mode),
    ) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const i8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const i8, flags: i32, mode: u32) -> i32 {
    if flags & 0o1100 == 0 {
        return syscall(SYS_OPENAT, dir, path, flags, mode) as i32;
    }
    logged(
        || opened(path, flags),
        || syscall(SYS_OPENAT, dir, path, flags, mode),
    ) as i32
}

fn encode_op(o: &Op) -> Value {
    match o {
        Op::Mkdir(a) => json!(["m", a]),
        Op::Create(a) => json!(["c", a]),
        Op::Truncate(a, n) => json!(["t", a, n]),
        Op::Write(a, n, d) => json!(["w", a, n, data_encoding::BASE64.encode(d)]),
        Op::Sync(a) => json!(["s", a]),
        Op::Rename(a, b) => json!(["r", a, b]),
        Op::Unlink(a) => json!(["u", a]),
        Op::Begin(i) => json!(["b", i]),
        Op::End(i) => json!(["e", i]),
    }
}
fn decode_op(v: &Value) -> Op {
    let s = |i: usize| v[i].as_str().unwrap_or("").to_string();
    let n = |i: usize| v[i].as_u64().unwrap_or(0);
    match v[0].as_str().unwrap_or("") {
        "m" => Op::Mkdir(s(1)),
        "c" => Op::Create(s(1)),
        "t" => Op::Truncate(s(1), n(2)),
        "w" => Op::Write(
            s(1),
            n(2),
            data_encoding::BASE64
                .decode(s(3).as_bytes())
                .expect("base64"),
        ),
        "s" => Op::Sync(s(1)),
        "r" => Op::Rename(s(1), s(2)),
        "u" => Op::Unlink(s(1)),
        "b" => Op::Begin(n(1) as usize),
        _ => Op::End(n(1) as usize),
    }
}

// ---------------------------------------------------------------- the children

fn sha(b: &[u8]) -> String {
    hex(&mc::model::sha(b)[..8])
}

/// Everything a participation consists of.
fn dump(p: &Participation) -> String {
    let vrf = rmp_serde::to_vec(&p.vrf).unwrap();
    let voting = rmp_serde::to_vec(&p.voting.snapshot()).unwrap();
    format!(
        "part {} vrf={} voting={} {}..{} dil={}",
        hex(&p.parent.0[..4]),
        sha(&vrf),
        sha(&voting),
        p.first_valid.0,
        p.last_valid.0,
        p.key_dilution
    )
}
fn dump_root(r: &Root) -> String {
    format!("root {}", hex(&r.kp.to_bytes()[..]))
}

fn restored() -> (String, String) {
    let p = match guard(Participation::restore) {
        Ok(Ok(p)) => dump(&p),
        Ok(Err(e)) => format!("error: {}", e),
        Err(p) => p,
    };
    let r = match guard(Root::restore) {
        Ok(Ok(r)) => dump_root(&r),
        Ok(Err(e)) => format!("error: {}", e),
        Err(p) => p,
    };
    (p, r)
}

/// The participations a history names: `A`, `B` are filled (which stores them), `a`, `b` are
/// stored again, `n` changes the parent, `d` deletes old keys (`x`: of the one not stored last), `g`
/// generates a root.
fn shape(name: char) -> (u8, u64, u64, u64) {
    match name {
        'A' => (1, 3, 12, 5),
        'B' => (2, 100, 131, 8),
        'L' => (4, 0, 2999, 1),
        _ => (3, 0, 0, 1),
    }
}

fn record(history: &str, out_file: &str) {
    let mut held: HashMap<char, Participation> = HashMap::new();
    let mut last: Option<char> = None;
    let mut versions = Vec::new();
    RECORDING.store(true, SeqCst);
    for (i, c) in history.chars().enumerate() {
        LOG.lock().unwrap().push(Op::Begin(i));
        let mut failed = None;
        match c {
            'A' | 'B' | 'C' | 'L' => {
                let (par, first, last_r, dil) = shape(c);
                match Participation::fill_db_with_participation_keys(
                    mc::txkit::addr(par),
                    Round(first),
                    Round(last_r),
                    dil,
                ) {
                    Ok(p) => {
                        held.insert(c, p);
                        last = Some(c);
                    }
                    Err(e) => failed = Some(e.to_string()),
                }
            }
            'a' | 'b' => {
                let k = c.to_ascii_uppercase();
                if let Err(e) = held[&k].persist() {
                    failed = Some(e.to_string());
                }
                last = Some(k);
            }
            'd' => {
                let p = held.get_mut(&last.unwrap()).unwrap();
                let mid = Round(p.first_valid.0 + 4 + i as u64);
                let proto = algorsand::config::ConsensusParams::default();
                if let Err(e) = p.delete_old_keys(mid, &proto) {
                    failed = Some(e.to_string());
                }
            }
            // The participation that is not in the store any more deletes its keys.
            'x' => {
                let old = held.iter_mut().find(|(k, _)| Some(**k) != last).unwrap().1;
                let (first, last, dil) = (old.first_valid.0, old.last_valid.0, old.key_dilution);
                // before, within and at the start of a batch, at the end, and after it
                for mid in [
                    first,
                    first + 1,
                    (first / dil + 1) * dil,
                    first + 5,
                    last / dil * dil,
                    last,
                    last + 2 * dil,
                ] {
                    if let Err(e) = old
                        .delete_old_keys(Round(mid), &algorsand::config::ConsensusParams::default())
                    {
                        failed = Some(e.to_string());
                    }
                }
            }
            'n' => {
                let p = held.get_mut(&last.unwrap()).unwrap();
                p.parent = mc::txkit::addr(200 + i as u8);
                if let Err(e) = p.persist_new_parent() {
                    failed = Some(e.to_string());
                }
            }
            'g' => match Root::generate() {
                Ok(r) => versions.push(json!({"root": dump_root(&r)})),
                Err(e) => failed = Some(e.to_string()),
            },
            other => panic!("unknown step {}", other),
        }
        LOG.lock().unwrap().push(Op::End(i));
        if let Some(e) = failed {
            versions.push(json!({ "failed": e }));
        } else if c != 'g' {
            versions.push(json!({"part": dump(&held[&last.unwrap()])}));
        }
    }
    let log: Vec<Value> = {
        let log = LOG.lock().unwrap();
        RECORDING.store(false, SeqCst);
        log.iter().map(encode_op).collect()
    };
    fs::write(
        out_file,
        json!({"log": log, "versions": versions}).to_string(),
    )
    .expect("log");
}

fn child(args: &[String]) -> ! {
    match args[0].as_str() {
        "record" => record(&args[1], &args[2]),
        "restore" => {
            let (p, r) = restored();
            println!("{}\n{}", p, r);
            if args.len() > 1 {
                // The store must go on working: store another participation and read it back.
                let again = guard(|| {
                    let (par, first, last, dil) = shape('C');
                    let new = Participation::fill_db_with_participation_keys(
                        mc::txkit::addr(par),
                        Round(first),
                        Round(last),
                        dil,
                    )
                    .map_err(|e| e.to_string())?;
                    let got = Participation::restore().map_err(|e| e.to_string())?;
                    Ok::<bool, String>(dump(&new) == dump(&got))
                });
                println!("{:?}", again);
            }
        }
        "raw" => {
            // args[1]: a list of entries to put into an otherwise empty store.
            let entries: Vec<(String, Vec<u8>)> = serde_json::from_str(&args[1]).expect("entries");
            let db = sled::open("keystore.db").expect("open");
            for (k, v) in entries {
                db.insert(k.as_bytes(), v).expect("insert");
            }
            db.flush().expect("flush");
            println!("done");
        }
        _ => {}
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // The process dies here: nothing that is only in memory gets written.
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(0) }
}

// ---------------------------------------------------------------- crash images

#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct Image {
    dirs: BTreeSet<String>,
    files: BTreeMap<String, Vec<u8>>,
}

fn put(f: &mut Vec<u8>, off: u64, d: &[u8]) {
    let end = off as usize + d.len();
    if f.len() < end {
        f.resize(end, 0);
    }
    f[off as usize..end].copy_from_slice(d);
}

impl Image {
    fn apply(&mut self, o: &Op) {
        match o {
            Op::Mkdir(d) => {
                self.dirs.insert(d.clone());
            }
            Op::Create(f) => {
                self.files.insert(f.clone(), Vec::new());
            }
            Op::Truncate(f, n) => self
                .files
                .entry(f.clone())
                .or_default()
                .resize(*n as usize, 0),
            Op::Write(f, off, d) => put(self.files.entry(f.clone()).or_default(), *off, d),
            Op::Rename(a, b) => {
                if let Some(c) = self.files.remove(a) {
                    self.files.insert(b.clone(), c);
                }
            }
            Op::Unlink(f) => {
                self.files.remove(f);
            }
            _ => {}
        }
    }
    fn write_to(&self, dir: &Path) {
        fs::create_dir_all(dir).expect("image");
        for d in &self.dirs {
            fs::create_dir_all(dir.join(d)).expect("image dir");
        }
        for (f, c) in &self.files {
            if let Some(p) = dir.join(f).parent() {
                fs::create_dir_all(p).expect("image dir");
            }
            fs::write(dir.join(f), c).expect("image file");
        }
    }
}

struct Crash {
    image: Image,
    what: String,
    /// Which contents are acceptable: participation and root, by dump text.
    parts: Vec<String>,
    roots: Vec<String>,
}

const NONE: &str = "error: did not find a matching object in storage";

fn crashes(history: &str, log: &[Op], versions: &[Value], r: &mut Report) -> Vec<Crash> {
    let mut out: Vec<Crash> = Vec::new();
    let mut seen: BTreeMap<Image, ()> = BTreeMap::new();
    let mut now = Image::default();
    // Database writes not yet synchronised, in order, and the image without them.
    let mut pending: Vec<Op> = Vec::new();
    let mut durable = Image::default();
    let (mut part_old, mut root_old) = (NONE.to_string(), NONE.to_string());
    let mut part_new: Option<String> = None;
    let mut root_new: Option<String> = None;
    let mut add = |image: Image,
                   what: String,
                   po: &String,
                   pn: &Option<String>,
                   ro: &String,
                   rn: &Option<String>| {
        let mut parts = vec![po.clone()];
        parts.extend(pn.clone());
        let mut roots = vec![ro.clone()];
        roots.extend(rn.clone());
        if seen.contains_key(&image)
            && out
                .iter()
                .any(|c| c.image == image && c.parts == parts && c.roots == roots)
        {
            return;
        }
        seen.insert(image.clone(), ());
        out.push(Crash {
            image,
            what,
            parts,
            roots,
        });
    };
    let mut step = None;
    for (i, o) in log.iter().enumerate() {
        let at_step = if let Op::Begin(k) = o { Some(*k) } else { step };
        let at = |s: &str| {
            format!(
                "history {}, step {:?}, file operation {} of {} ({})",
                history,
                at_step,
                i,
                log.len(),
                s
            )
        };
        match o {
            Op::Begin(k) => {
                step = Some(*k);
                let v = &versions[*k];
                if let Some(p) = v["part"].as_str() {
                    part_new = Some(p.into());
                }
                if let Some(p) = v["root"].as_str() {
                    root_new = Some(p.into());
                }
            }
            Op::End(_) => {
                if let Some(p) = part_new.take() {
                    part_old = p;
                }
                if let Some(p) = root_new.take() {
                    root_old = p;
                }
            }
            _ => {}
        }
        // A torn write: only a first part of it reached the file. The database's own settings file,
        // which holds no keys, is written once and with calls too short to be torn by a dying process.
        if let Op::Write(f, off, d) = o {
            if f.ends_with("/conf") && d.len() < 512 {
                now.apply(o);
                durable.apply(o);
                add(
                    now.clone(),
                    at(&format!("{:?}", kind(o))),
                    &part_old,
                    &part_new,
                    &root_old,
                    &root_new,
                );
                continue;
            }
            let step = std::cmp::max(1, d.len() / tier(24, 120));
            let mut cuts: BTreeSet<usize> = (1..d.len()).step_by(step).collect();
            for c in &[
                1,
                4,
                8,
                16,
                d.len() / 2,
                d.len().saturating_sub(1),
                d.len().saturating_sub(4),
            ] {
                if *c > 0 && *c < d.len() {
                    cuts.insert(*c);
                }
            }
            if d.len() > 100_000 {
                cuts = [1, 512, 4096, d.len() / 2, d.len() - 1]
                    .iter()
                    .cloned()
                    .collect();
            }
            for c in cuts {
                let mut im = now.clone();
                im.apply(&Op::Write(f.clone(), *off, d[..c].to_vec()));
                add(
                    im,
                    at(&format!("torn write to {}: {} of {} bytes", f, c, d.len())),
                    &part_old,
                    &part_new,
                    &root_old,
                    &root_new,
                );
            }
        }
        now.apply(o);
        // What a loss of power may drop: writes to the database file that were not synchronised.
        match o {
            Op::Write(f, _, _) if f.ends_with("/db") => pending.push(o.clone()),
            Op::Sync(f) if f.ends_with("/db") => {
                for p in pending.drain(..) {
                    durable.apply(&p);
                }
            }
            Op::Sync(_) => {}
            _ => durable.apply(o),
        }
        let n = pending.len();
        if n > 8 {
            r.capped("more than 8 unsynchronised writes: only suffixes dropped");
        }
        let masks: Vec<u32> = if n <= 8 {
            (0..1u32 << n).collect()
        } else {
            (0..=n).map(|k| ((1u64 << k) - 1) as u32).collect()
        };
        for m in masks {
            let mut im = durable.clone();
            for (k, p) in pending.iter().enumerate() {
                if m >> k & 1 == 1 {
                    im.apply(p);
                }
            }
            add(
                im,
                at(&format!(
                    "{:?}, unsynchronised writes kept: {:b} of {}",
                    kind(o),
                    m,
                    n
                )),
                &part_old,
                &part_new,
                &root_old,
                &root_new,
            );
        }
        add(
            now.clone(),
            at(&format!("{:?}", kind(o))),
            &part_old,
            &part_new,
            &root_old,
            &root_new,
        );
    }
    out
}

fn kind(o: &Op) -> String {
    match o {
        Op::Write(f, off, d) => format!("write {} at {} of {} bytes", f, off, d.len()),
        other => format!("{:?}", other),
    }
}

impl PartialOrd for Image {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Image {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (&self.dirs, &self.files).cmp(&(&o.dirs, &o.files))
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if !args.is_empty() && std::env::var("VERIF_CHILD").is_ok() {
        child(&args);
    }
    let mut r = Report::new("C29");
    r.assume("the database below (sled) opens any image of its own files in which synchronised data survived; creating, renaming and removing files takes effect at once and in order");
    r.assume("a loss of power drops any subset of the writes to the database's log that were not synchronised; a dying process leaves every prefix of its calls, the last one possibly torn");
    let histories: &[&str] = tier(
        &["A", "AB", "Ad", "ABx", "Ang", "gA", "gAg", "L", "ABdAd"],
        &[
            "A", "AB", "Ad", "Add", "ABA", "ABx", "ABxd", "Ang", "gA", "gAg", "L", "LA", "ABdAd",
            "AaBb", "gABgnd", "LdB", "LBx",
        ],
    );
    let base = scratch("c29");
    let mut total = 0;
    for h in histories {
        let dir = base.join(h);
        fs::create_dir_all(&dir).expect("dir");
        let log_file = base.join(format!("{}.log", h));
        let (rc, so, se) = run_self(&["record", h, log_file.to_str().unwrap()], &dir, &[], 120);
        r.step();
        if rc != Some(0) || !log_file.exists() {
            r.violation(
                "store-fails",
                format!("history {}", h),
                format!("rc={:?} {} {}", rc, so, se),
            );
            continue;
        }
        let v: Value = serde_json::from_str(&fs::read_to_string(&log_file).unwrap()).expect("log");
        let log: Vec<Op> = v["log"].as_array().unwrap().iter().map(decode_op).collect();
        let versions = v["versions"].as_array().unwrap().clone();
        for (i, v) in versions.iter().enumerate() {
            r.check(
                v["failed"].is_null(),
                "store-fails",
                || format!("history {}, step {}", h, i),
                || v["failed"].to_string(),
            );
        }
        if std::env::var("C29_SHOW").is_ok() {
            for o in &log {
                eprintln!("{}", kind(o));
            }
        }
        let cs = crashes(h, &log, &versions, &mut r);
        r.space(
            &format!("history {}", h),
            format!(
                "{} file operations, {} crash images",
                log.iter()
                    .filter(|o| !matches!(o, Op::Begin(_) | Op::End(_)))
                    .count(),
                cs.len()
            ),
        );
        total += cs.len();
        let jobs: Vec<usize> = (0..cs.len()).collect();
        parallel(&mut r, jobs, |r, &j| {
            let c = &cs[j];
            let dir = base.join(format!("{}-{}", h, j));
            c.image.write_to(&dir);
            r.state();
            r.step();
            let (rc, so, se) = run_self(&["restore", "again"], &dir, &[], 60);
            let lines: Vec<&str> = so.lines().collect();
            r.trace();
            if rc != Some(0) || lines.len() < 3 {
                r.violation(
                    "restart-fails",
                    c.what.clone(),
                    format!("rc={:?} {} {}", rc, so, se),
                );
            } else {
                // The database below died between writing its settings and their checksum, before it
                // had a log: see known_findings.txt.
                let creating = c.image.files.keys().all(|f| f.ends_with("/conf"))
                    && lines[0].contains("Corruption");
                let key = |k: &'static str| if creating { "creation-interrupted" } else { k };
                r.check(
                    c.parts.iter().any(|p| p == lines[0]),
                    key("participation-lost"),
                    || c.what.clone(),
                    || format!("found {:?}, acceptable {:?}", lines[0], c.parts),
                );
                r.check(
                    c.roots.iter().any(|p| p == lines[1]),
                    key("root-lost"),
                    || c.what.clone(),
                    || format!("found {:?}, acceptable {:?}", lines[1], c.roots),
                );
                r.check(
                    lines[2] == "Ok(Ok(true))",
                    key("storing-after-restart"),
                    || c.what.clone(),
                    || lines[2].to_string(),
                );
                r.outcome(if lines[0] == NONE {
                    "nothing"
                } else if lines[0] == c.parts[0] {
                    "complete old"
                } else {
                    "complete new"
                });
            }
            let _ = fs::remove_dir_all(&dir);
        });
        let _ = fs::remove_dir_all(&dir);
    }
    r.space("crash images", total);

    partial_stores(&mut r, &base);
    r.finish()
}

/// Stores that hold only some of the entries, or entries of wrong sizes and contents.
fn partial_stores(r: &mut Report, base: &Path) {
    // What the code stores is read back from a store it wrote, so that the layout is not assumed.
    let dir = base.join("layout");
    fs::create_dir_all(&dir).expect("dir");
    let log_file = base.join("layout.log");
    let (rc, _, se) = run_self(&["record", "A", log_file.to_str().unwrap()], &dir, &[], 60);
    if rc != Some(0) {
        r.violation("store-fails", "history A", se);
        return;
    }
    let entries: Vec<(String, Vec<u8>)> = {
        let db = open_sled(&dir.join("keystore.db"));
        db.iter()
            .filter_map(|e| e.ok())
            .map(|(k, v)| (String::from_utf8_lossy(&k).into_owned(), v.to_vec()))
            .collect()
    };
    let n = entries.len();
    let mut stores: Vec<(String, Vec<(String, Vec<u8>)>, bool)> = Vec::new();
    // All subsets of the entries.
    if n <= 10 {
        for m in 0..1u32 << n {
            let sub: Vec<_> = entries
                .iter()
                .enumerate()
                .filter(|(i, _)| m >> i & 1 == 1)
                .map(|(_, e)| e.clone())
                .collect();
            stores.push((
                format!(
                    "only the entries {:?}",
                    sub.iter().map(|e| &e.0).collect::<Vec<_>>()
                ),
                sub,
                m == (1 << n) - 1,
            ));
        }
    }
    // Every single entry truncated, extended, emptied.
    for i in 0..n {
        let len = entries[i].1.len();
        let mut lens: BTreeSet<usize> = [0, 1, 7, 31, len / 2, len.saturating_sub(1)]
            .iter()
            .cloned()
            .filter(|l| *l < len)
            .collect();
        if len <= 40 || thorough() {
            lens.extend(0..len.min(400));
        }
        for l in lens {
            let mut e = entries.clone();
            e[i].1.truncate(l);
            stores.push((
                format!("entry {} cut to {} of {} bytes", e[i].0, l, len),
                e,
                false,
            ));
        }
    }
    for i in 0..n {
        let len = entries[i].1.len();
        if len != 8 && len != 32 {
            continue;
        }
        for more in [1usize, 8, 32] {
            let mut e = entries.clone();
            e[i].1.resize(len + more, 7);
            stores.push((
                format!("entry {} with {} more bytes", e[i].0, more),
                e,
                false,
            ));
        }
    }
    r.space("partial stores", stores.len());
    let whole_text = {
        let v: Value = serde_json::from_str(&fs::read_to_string(&log_file).unwrap()).expect("log");
        v["versions"][0]["part"].as_str().unwrap_or("").to_string()
    };
    let jobs: Vec<usize> = (0..stores.len()).collect();
    parallel(r, jobs, |r, &j| {
        let (what, es, whole) = &stores[j];
        let dir = base.join(format!("partial-{}", j));
        fs::create_dir_all(&dir).expect("dir");
        let (rc, so, se) = run_self(&["raw", &serde_json::to_string(es).unwrap()], &dir, &[], 60);
        assert!(
            rc == Some(0) && so.starts_with("done"),
            "preparing a store: {:?} {}",
            rc,
            se
        );
        let (rc, so, se) = run_self(&["restore"], &dir, &[], 60);
        r.state();
        r.step();
        r.trace();
        let first = so.lines().next().unwrap_or("").to_string();
        r.check(
            rc == Some(0) && !first.is_empty(),
            "partial-store",
            || what.clone(),
            || format!("rc={:?} {}", rc, se),
        );
        if *whole {
            r.check(
                first == whole_text,
                "whole-store",
                || what.clone(),
                || first.clone(),
            );
            r.outcome("whole store");
        } else {
            // An entry may be redundant, but nothing may be made up for a missing one.
            r.check(
                first.starts_with("error:") || first == whole_text,
                "partial-store",
                || what.clone(),
                || format!("restored {:?}", first),
            );
            r.outcome("partial store refused");
        }
        let _ = fs::remove_dir_all(&dir);
    });
}
