//! C33: the algokey tool never loses, alters or leaks a key it was given.
//@ algokey
//!
//! The real executable is run on every reachable state of a small set of files: a breadth-first
//! search over the states, in which each transition is one run of the tool. Key files, public key
//! files and signed transaction files are compared byte for byte with what a model of the tool
//! predicts; fresh keys are renamed in the order of their appearance, so that the space is finite.
//! Transaction files of every kind, every truncation of one and every change of a mnemonic are
//! signed exhaustively, and the participation key commands run over all short histories.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

use algorsand::crypto::{mnemonic, Hashable};
use algorsand::data::basics::Address;
use algorsand::data::transactions::*;
use algorsand::protocol;
use ed25519_dalek::Signer;
use mc::txkit::*;
use mc::*;

extern "C" {
    fn umask(m: u32) -> u32;
}

fn algokey() -> PathBuf {
    verif_dir().join(".build/repo/debug/algokey")
}

type Seed = [u8; 32];

fn pair(s: &Seed) -> ed25519_dalek::Keypair {
    let secret = ed25519_dalek::SecretKey::from_bytes(s).unwrap();
    let public = (&secret).into();
    ed25519_dalek::Keypair { secret, public }
}

fn address(s: &Seed) -> Address {
    Address(pair(s).public.to_bytes())
}

fn words(s: &Seed) -> String {
    mnemonic::key_to_mnemonic(*s).join(" ")
}

/// What signing a transaction with a key must give.
fn signed(s: &Seed, tx: &Transaction) -> Vec<u8> {
    let kp = pair(s);
    let mut e = stx(tx.clone());
    e.sig = kp.sign(&tx.hash_rep());
    if tx.header.sender != address(s) {
        e.auth_addr = address(s);
    }
    protocol::encode(&e)
}

const K0: Seed = [77; 32];
const NEW: u8 = 250;

/// The transaction files.
fn tx_file(name: &str) -> Vec<Transaction> {
    let mut own = blank("pay");
    own.header.sender = address(&K0);
    own.header.fee.0 = 1000;
    let mut other = blank("axfer");
    other.header.sender = addr(3);
    let mut third = blank("keyreg");
    third.header.sender = addr(4);
    third.header.note = vec![1, 2, 3];
    match name {
        "t1" => vec![own],
        "t3" => vec![own, other, third],
        _ => panic!("no such file"),
    }
}

fn encode_all(t: &[Transaction]) -> Vec<u8> {
    t.iter().flat_map(|t| protocol::encode(t)).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum F {
    Absent,
    Dir,
    Key(u8),
    Pub(u8),
    Signed(u8, &'static str),
    Txs(&'static str),
    /// Zero bytes, as many as given.
    Junk(usize),
}
use F::*;

/// Files a, b (key files), p (public key), o (output), u (transactions, may be signed in place).
const FILES: [&str; 5] = ["a", "b", "p", "o", "u"];
type St = [F; 5];

fn content(f: F, seeds: &[Seed], new: Option<&Seed>) -> Option<Vec<u8>> {
    let seed = |k: u8| {
        if k == NEW {
            new.cloned().unwrap_or([0; 32])
        } else {
            seeds[k as usize]
        }
    };
    Some(match f {
        Absent | Dir => return None,
        Key(k) => seed(k).to_vec(),
        Pub(k) => address(&seed(k)).to_string().into_bytes(),
        Signed(k, t) => tx_file(t)
            .iter()
            .flat_map(|t| signed(&seed(k), t))
            .collect(),
        Txs(t) => encode_all(&tx_file(t)),
        Junk(n) => vec![0; n],
    })
}

fn fidx(name: &str) -> Option<usize> {
    FILES
        .iter()
        .position(|f| *f == name.trim_start_matches("./"))
}

#[derive(Clone, Debug)]
enum Op {
    Generate(&'static str, &'static str),
    /// Words, key file, public key file.
    Import(Words, &'static str, &'static str),
    Export(&'static str, &'static str),
    /// Key file, mnemonic, transactions, output.
    Sign(&'static str, Option<Words>, &'static str, &'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Words {
    K0,
    /// Wrong checksum.
    Wrong,
    Short,
}

fn phrase(w: Words) -> String {
    let k = words(&K0);
    match w {
        Words::K0 => k,
        Words::Wrong => {
            let mut v: Vec<&str> = k.split(' ').collect();
            v.swap(0, 24);
            v.join(" ")
        }
        Words::Short => k.split(' ').take(24).collect::<Vec<_>>().join(" "),
    }
}

fn ops() -> Vec<Op> {
    use Op::*;
    let mut v = Vec::new();
    for f in &["a", "b"] {
        v.push(Generate(f, ""));
        v.push(Generate(f, "p"));
        v.push(Generate(f, "missing/p"));
        v.push(Import(Words::K0, f, ""));
        v.push(Import(Words::K0, f, "p"));
        v.push(Import(Words::K0, f, "missing/p"));
        v.push(Import(Words::Wrong, f, "p"));
        v.push(Import(Words::Short, f, ""));
        v.push(Export(f, ""));
        v.push(Export(f, "p"));
        v.push(Export(f, "missing/p"));
        for t in &["t1", "t3", "u", "p", "tbad", "tempty", "missing"] {
            v.push(Sign(f, None, t, "o"));
        }
        v.push(Sign(f, None, "u", "u"));
        v.push(Sign(f, None, "t1", "missing/o"));
    }
    v.push(Generate("", "p"));
    v.push(Generate("missing/k", "p"));
    v.push(Generate("dir", ""));
    v.push(Import(Words::K0, "missing/k", "p"));
    v.push(Import(Words::K0, "dir", ""));
    v.push(Export("a", "a"));
    v.push(Export("a", "./a"));
    v.push(Export("a", "link"));
    v.push(Export("missing", "p"));
    v.push(Export("dir", "p"));
    v.push(Sign("a", None, "t1", "a"));
    v.push(Sign("a", None, "t1", "link"));
    v.push(Sign("./a", None, "t1", "a"));
    v.push(Sign("a", Some(Words::K0), "t1", "o"));
    v.push(Sign("", None, "t1", "o"));
    v.push(Sign("missing", None, "t1", "o"));
    v.push(Sign("", Some(Words::K0), "t1", "o"));
    v.push(Sign("", Some(Words::K0), "t3", "u"));
    v.push(Sign("", Some(Words::Wrong), "t1", "o"));
    v.push(Sign("", Some(Words::Short), "t1", "u"));
    v
}

fn args(op: &Op) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut opt = |o: &str, x: &str| {
        if !x.is_empty() {
            v.push(o.into());
            v.push(x.into());
        }
    };
    let cmd = match op {
        Op::Generate(f, p) => {
            opt("-f", f);
            opt("-p", p);
            "generate"
        }
        Op::Import(w, f, p) => {
            opt("-m", &phrase(*w));
            opt("-f", f);
            opt("-p", p);
            "import"
        }
        Op::Export(f, p) => {
            opt("-f", f);
            opt("-p", p);
            "export"
        }
        Op::Sign(f, w, t, o) => {
            opt("-f", f);
            if let Some(w) = w {
                opt("-m", &phrase(*w));
            }
            opt("-t", t);
            opt("-o", o);
            "sign"
        }
    };
    v.insert(0, cmd.into());
    v
}

struct Expect {
    ok: bool,
    /// The states that are allowed afterwards.
    after: Vec<St>,
    /// The key whose mnemonic and address are shown.
    shown: Option<u8>,
}

fn set(st: &St, f: &str, x: F) -> Option<St> {
    let i = fidx(f)?;
    if st[i] == Dir {
        return None;
    }
    let mut s = *st;
    s[i] = x;
    Some(s)
}

fn get(st: &St, f: &str) -> F {
    match f {
        "t1" => Txs("t1"),
        "t3" => Txs("t3"),
        "tbad" | "tempty" => Junk(1),
        "dir" => Dir,
        "missing" => Absent,
        _ => fidx(f).map(|i| st[i]).unwrap_or(Absent),
    }
}

/// Writing a key and maybe a public key: both happen or the command fails and keeps existing keys.
fn predict_write(st: &St, k: u8, f: &str, p: &str) -> Expect {
    let with_p = if p.is_empty() {
        Some(*st)
    } else {
        set(st, p, Pub(k))
    };
    let with_f = |s: &St| {
        if f.is_empty() {
            Some(*s)
        } else {
            set(s, f, Key(k))
        }
    };
    if let Some(both) = with_p.and_then(|s| with_f(&s)) {
        return Expect {
            ok: true,
            after: vec![both],
            shown: Some(k),
        };
    }
    // if one of them fails, the public key may have been written, and the key where nothing was
    let mut after = vec![*st];
    after.extend(with_p);
    if !f.is_empty() && get(st, f) == Absent {
        after.extend(with_f(st));
    }
    Expect {
        ok: false,
        after,
        shown: None,
    }
}

fn predict(st: &St, op: &Op) -> Expect {
    let fail = Expect {
        ok: false,
        after: vec![*st],
        shown: None,
    };
    match op {
        Op::Generate(f, p) => predict_write(st, NEW, f, p),
        Op::Import(Words::K0, f, p) => predict_write(st, 0, f, p),
        Op::Import(..) => fail,
        Op::Export(f, p) => match get(st, f) {
            Key(k) => {
                if p.trim_start_matches("./") == *f || *p == "link" {
                    return fail;
                }
                let after = if p.is_empty() {
                    Some(*st)
                } else {
                    set(st, p, Pub(k))
                };
                match after {
                    Some(s) => Expect {
                        ok: true,
                        after: vec![s],
                        shown: Some(k),
                    },
                    None => fail,
                }
            }
            _ => fail,
        },
        Op::Sign(f, w, t, o) => {
            let key = match (f.is_empty(), w) {
                (false, None) => get(st, f),
                (true, Some(Words::K0)) => Key(0),
                _ => return fail,
            };
            if !f.is_empty()
                && (o.trim_start_matches("./") == f.trim_start_matches("./") || *o == "link")
            {
                return fail;
            }
            match (key, get(st, t)) {
                (Key(k), Txs(x)) => match set(st, o, Signed(k, x)) {
                    Some(s) => Expect {
                        ok: true,
                        after: vec![s],
                        shown: None,
                    },
                    None => fail,
                },
                _ => fail,
            }
        }
    }
}

static ROOT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();

fn root() -> PathBuf {
    ROOT.get_or_init(|| scratch("c33")).clone()
}

struct Sandbox {
    dir: PathBuf,
}

static DIRS: AtomicUsize = AtomicUsize::new(0);

impl Sandbox {
    fn new() -> Sandbox {
        let dir = root().join(format!("d{}", DIRS.fetch_add(1, SeqCst)));
        fs::create_dir_all(&dir).expect("sandbox");
        fs::create_dir(dir.join("dir")).expect("dir");
        fs::write(dir.join("t1"), encode_all(&tx_file("t1"))).unwrap();
        fs::write(dir.join("t3"), encode_all(&tx_file("t3"))).unwrap();
        let mut bad = encode_all(&tx_file("t3"));
        bad.push(0xc1);
        fs::write(dir.join("tbad"), bad).unwrap();
        fs::write(dir.join("tempty"), b"").unwrap();
        std::os::unix::fs::symlink("a", dir.join("link")).unwrap();
        Sandbox { dir }
    }

    fn set(&self, st: &St, seeds: &[Seed]) {
        for (f, x) in FILES.iter().zip(st) {
            let p = self.dir.join(f);
            match x {
                Absent => (),
                Dir => fs::create_dir(&p).unwrap(),
                _ => {
                    fs::write(&p, content(*x, seeds, None).unwrap()).unwrap();
                    fs::set_permissions(&p, fs::Permissions::from_mode(0o600)).unwrap();
                }
            }
        }
    }

    fn matches(&self, st: &St, seeds: &[Seed], new: Option<&Seed>) -> bool {
        FILES.iter().zip(st).all(|(f, x)| {
            let p = self.dir.join(f);
            match x {
                Absent => !p.exists(),
                Dir => p.is_dir() && fs::read_dir(&p).map_or(false, |mut d| d.next().is_none()),
                _ => fs::read(&p).ok() == content(*x, seeds, new),
            }
        })
    }

    /// The other files must never change, and none appear.
    fn others_intact(&self) -> bool {
        let names: HashSet<String> = fs::read_dir(&self.dir)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().into_owned())
            .collect();
        let known: HashSet<&str> = FILES
            .iter()
            .chain(&["dir", "t1", "t3", "tbad", "tempty", "link"])
            .cloned()
            .collect();
        let mut bad = encode_all(&tx_file("t3"));
        bad.push(0xc1);
        names.iter().all(|n| known.contains(n.as_str()))
            && fs::read(self.dir.join("t1")).ok() == Some(encode_all(&tx_file("t1")))
            && fs::read(self.dir.join("t3")).ok() == Some(encode_all(&tx_file("t3")))
            && fs::read(self.dir.join("tbad")).ok() == Some(bad)
            && fs::read(self.dir.join("tempty")).ok() == Some(vec![])
            && fs::read_dir(self.dir.join("dir")).map_or(false, |mut d| d.next().is_none())
    }

    fn describe(&self) -> String {
        FILES
            .iter()
            .map(|f| {
                let p = self.dir.join(f);
                match fs::read(&p) {
                    Ok(b) => format!("{}={}B:{}", f, b.len(), hex(&b[..b.len().min(80)])),
                    Err(_) => format!("{}={}", f, if p.exists() { "dir" } else { "-" }),
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }

    fn run(&self, args: &[String]) -> (Option<i32>, String, String) {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        run_cmd(&algokey(), &a, &self.dir, &[], 60)
    }
}

impl Drop for Sandbox {
    fn drop(&mut self) {
        let root = root();
        if self.dir.starts_with(&root) && self.dir != root {
            let _ = fs::remove_dir_all(&self.dir);
        }
    }
}

fn bad_exit(rc: Option<i32>, err: &str) -> bool {
    rc.is_none() || rc == Some(101) || err.contains("panicked at") || err.contains("RUST_BACKTRACE")
}

/// The seed whose mnemonic is shown: 25 words in a row, on some line.
fn shown_seed(out: &str) -> Option<Seed> {
    out.lines().find_map(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() < 25 {
            return None;
        }
        mnemonic::phrase_to_key(&w[w.len() - 25..].join(" ")).ok()
    })
}

type Node = (St, Vec<Seed>);

/// Renames the keys in the order of their appearance. Key 0 keeps its name.
fn canonical(st: &St, seeds: &[Seed], new: Option<Seed>) -> Node {
    let mut map: HashMap<u8, u8> = HashMap::new();
    map.insert(0, 0);
    let mut out = vec![K0];
    let mut s = *st;
    for f in s.iter_mut() {
        let k = match f {
            Key(k) | Pub(k) | Signed(k, _) => k,
            _ => continue,
        };
        let n = map.len() as u8;
        let old = *k;
        *k = *map.entry(old).or_insert_with(|| {
            out.push(if old == NEW {
                new.unwrap()
            } else {
                seeds[old as usize]
            });
            n
        });
    }
    (s, out)
}

fn class(op: &Op) -> &'static str {
    match op {
        Op::Generate(..) => "generate",
        Op::Import(..) => "import",
        Op::Export(..) => "export",
        Op::Sign(..) => "sign",
    }
}

fn transition(
    r: &mut Report,
    node: &Node,
    op: &Op,
    all_new: &Mutex<HashSet<Seed>>,
) -> Option<Node> {
    let (st, seeds) = node;
    let sb = Sandbox::new();
    sb.set(st, seeds);
    r.step();
    r.trace();
    let a = args(op);
    let (rc, out, err) = sb.run(&a);
    let e = predict(st, op);
    let c = class(op);
    let case = || {
        format!(
            "files {:?}: algokey {}",
            FILES
                .iter()
                .zip(st)
                .filter(|x| *x.1 != Absent)
                .collect::<Vec<_>>(),
            a.join(" ")
        )
    };
    let what = || {
        format!(
            "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
            rc,
            out,
            err,
            sb.describe()
        )
    };
    r.outcome(&format!(
        "{} {}",
        c,
        if e.ok { "succeeds" } else { "fails" }
    ));
    r.check(!bad_exit(rc, &err), &format!("{}-panics", c), case, what);
    if !r.check(
        (rc == Some(0)) == e.ok,
        &format!("{}-status", c),
        case,
        || {
            format!(
                "should {}; {}",
                if e.ok { "succeed" } else { "fail" },
                what()
            )
        },
    ) {
        return None;
    }
    if !e.ok {
        r.check(
            !err.trim().is_empty(),
            &format!("{}-silent-failure", c),
            case,
            what,
        );
    }
    let new = if let Op::Generate(..) = op {
        shown_seed(&out)
    } else {
        None
    };
    if let Some(s) = &new {
        r.check(
            all_new.lock().unwrap().insert(*s),
            "generate-key-reused",
            case,
            what,
        );
    }
    if let Some(k) = e.shown {
        let s = if k == NEW {
            new
        } else {
            Some(seeds[k as usize])
        };
        let ok = s.map_or(false, |s| {
            out.contains(&words(&s)) && out.contains(&address(&s).to_string())
        });
        r.check(ok, &format!("{}-shows-key", c), case, what);
        if !ok {
            return None;
        }
    }
    let after = e.after.iter().find(|s| {
        let uses_new = s.iter().any(|f| matches!(f, Key(NEW) | Pub(NEW)));
        (!uses_new || new.is_some()) && sb.matches(s, seeds, new.as_ref())
    });
    r.check(
        sb.others_intact(),
        &format!("{}-other-files", c),
        case,
        what,
    );
    let kept = |i: usize| content(st[i], seeds, None) == fs::read(sb.dir.join(FILES[i])).ok();
    let key = if !e.ok && (0..2).any(|i| matches!(st[i], Key(_)) && !kept(i)) {
        format!("{}-key-lost", c)
    } else {
        format!("{}-files", c)
    };
    if !r.check(after.is_some(), &key, case, || {
        format!("want one of {:?}; {}", e.after, what())
    }) {
        return None;
    }
    let after = after.unwrap();
    // key files that did not exist before
    for i in 0..2 {
        if st[i] == Absent && matches!(after[i], Key(_)) {
            let mode = fs::metadata(sb.dir.join(FILES[i]))
                .unwrap()
                .permissions()
                .mode();
            r.check(mode & 0o077 == 0, "key-file-mode", case, || {
                format!("mode {:o}; {}", mode, what())
            });
            r.outcome("key file created");
        }
    }
    // signing shows nothing of the key
    if let Op::Sign(..) = op {
        for s in seeds {
            let w = words(s);
            let leak = out.contains(&w) || err.contains(&w);
            r.check(!leak, "sign-leaks-key", case, what);
        }
    }
    Some(canonical(after, seeds, new))
}

fn files_search(r: &mut Report, depth: usize) {
    let inits: Vec<F> = vec![
        Absent,
        Key(0),
        Junk(0),
        Junk(31),
        Junk(33),
        Junk(64),
        Pub(0),
        Dir,
    ];
    let mut seen: HashSet<St> = HashSet::new();
    let mut level: Vec<Node> = Vec::new();
    for a in &inits {
        for p in &[Absent, Junk(100)] {
            for o in &[Absent, Junk(2000)] {
                if *o != Absent && *p == Absent {
                    continue;
                }
                let st = [
                    *a,
                    Absent,
                    *p,
                    *o,
                    Txs(if *p == Absent { "t1" } else { "t3" }),
                ];
                if seen.insert(st) {
                    level.push((st, vec![K0]));
                }
            }
        }
    }
    let all_new = Mutex::new(HashSet::new());
    let mut levels = Vec::new();
    let mut closed = false;
    for _ in 0..depth {
        levels.push(level.len());
        r.states(level.len() as u64);
        let next = Mutex::new(BTreeMap::new());
        parallel(r, level.clone(), |r, n| {
            for op in ops() {
                if let Some(m) = transition(r, n, &op, &all_new) {
                    next.lock().unwrap().insert(m.0, m.1);
                }
            }
        });
        level = next
            .into_inner()
            .unwrap()
            .into_iter()
            .filter(|(s, _)| seen.insert(*s))
            .collect();
        if level.is_empty() {
            closed = true;
            break;
        }
    }
    // New keys have no part that is always the same (a byte of a random key agrees in that many
    // keys with a chance of 256^-(n-1)).
    let all_new = all_new.into_inner().unwrap();
    if all_new.len() >= 9 {
        for i in 0..32 {
            let first = all_new.iter().next().unwrap()[i];
            r.check(
                all_new.iter().any(|s| s[i] != first),
                "generate-partly-fixed-key",
                || format!("{} generated keys", all_new.len()),
                || format!("byte {} is {:#x} in all of them", i, first),
            );
        }
    }
    r.space("file states per level", format!("{:?}", levels));
    r.space("commands per state", ops().len() as u64);
    r.space("distinct states", seen.len() as u64);
    if !closed {
        r.capped(&format!("files: depth {}", depth));
    }
}

/// Signs the bytes, with a file that exists already as output; gives the output if it succeeds.
fn sign_bytes(r: &mut Report, raw: &[u8], key: &str, case: &dyn Fn() -> String) -> Option<Vec<u8>> {
    let sb = Sandbox::new();
    sb.set(&[Key(0), Absent, Absent, Junk(100), Absent], &[K0]);
    fs::write(sb.dir.join("u"), raw).unwrap();
    r.step();
    r.state();
    let (rc, out, err) = sb.run(&args(&Op::Sign("a", None, "u", "o")));
    let what = || {
        format!(
            "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
            rc,
            out,
            err,
            sb.describe()
        )
    };
    r.check(!bad_exit(rc, &err), &format!("{}-panics", key), case, what);
    let o = fs::read(sb.dir.join("o")).unwrap_or_default();
    r.check(
        fs::read(sb.dir.join("a")).ok() == Some(K0.to_vec()),
        "sign-key-lost",
        case,
        what,
    );
    r.check(
        fs::read(sb.dir.join("u")).ok().as_deref() == Some(raw),
        "sign-input-changed",
        case,
        what,
    );
    if rc == Some(0) {
        Some(o)
    } else {
        r.check(
            o == vec![0; 100],
            &format!("{}-failure-writes", key),
            case,
            what,
        );
        None
    }
}

fn check_signed(r: &mut Report, txs: &[Transaction], key: &str, case: &dyn Fn() -> String) {
    let got = sign_bytes(r, &encode_all(txs), key, case);
    let want: Vec<u8> = txs.iter().flat_map(|t| signed(&K0, t)).collect();
    if got.as_deref() == Some(&want[..]) {
        r.outcome("signed");
        return;
    }
    let mut rest = got.as_deref().unwrap_or(&[]);
    let mut dec: Vec<String> = Vec::new();
    while !rest.is_empty() {
        match rmp_serde::from_read::<_, SignedTx>(&mut rest) {
            Ok(t) => dec.push(format!(
                "{} sig {} auth {}",
                hex(&protocol::encode(&t.tx)),
                hex(&t.sig.to_bytes()),
                t.auth_addr
            )),
            Err(e) => {
                dec.push(e.to_string());
                break;
            }
        }
    }
    r.violation(
        key,
        case(),
        format!("success: {}, decodes as {:?}", got.is_some(), dec),
    );
}

fn transaction_files(r: &mut Report) {
    // every kind, every field alone (thorough: every pair of fields at their first values)
    let mut jobs: Vec<(String, Vec<Transaction>)> = Vec::new();
    let own = address(&K0);
    for kind in KINDS.iter() {
        let slots = tx_slots(kind);
        for a in assignments(&slots, 1, tier(1, 2), 1) {
            let mut t = blank(kind);
            apply(&slots, &a, &mut t);
            jobs.push((format!("{}: {}", kind, describe(&slots, &a)), vec![t]));
        }
        let mut t = blank(kind);
        t.header.sender = own;
        jobs.push((format!("{}: sent by the key itself", kind), vec![t]));
    }
    let n1 = jobs.len();
    // every sequence of kinds
    let full = |kind: &str, own_sender: bool| {
        let slots = tx_slots(kind);
        let mut t = blank(kind);
        apply(&slots, &vec![1; slots.len()], &mut t);
        if own_sender {
            t.header.sender = own;
        }
        t
    };
    let n = KINDS.len();
    let mut seqs: Vec<Vec<usize>> = Vec::new();
    for len in 2..=tier(2, 3) {
        product(&vec![2 * n; len], |v| seqs.push(v.to_vec()));
    }
    seqs.push((0..2 * n).collect());
    for v in seqs {
        let txs: Vec<Transaction> = v.iter().map(|k| full(KINDS[k / 2], k % 2 == 0)).collect();
        jobs.push((
            format!(
                "file of {:?}",
                v.iter().map(|k| KINDS[k / 2]).collect::<Vec<_>>()
            ),
            txs,
        ));
    }
    // long files
    for len in &[1usize, 16, 17, 100, 400] {
        let txs: Vec<Transaction> = (0..*len)
            .map(|i| {
                let mut t = full(KINDS[i % n], i % 3 == 0);
                t.header.note = vec![i as u8; i % 130];
                t
            })
            .collect();
        jobs.push((format!("file of {} transactions", len), txs));
    }
    r.space(
        "transaction files",
        format!("{} of one transaction, {} of several", n1, jobs.len() - n1),
    );
    parallel(r, jobs, |r, (name, txs)| {
        check_signed(r, txs, "sign-output", &|| name.clone());
    });
}

fn broken_files(r: &mut Report) {
    // every truncation of a file of three transactions, and every byte after it
    let txs = tx_file("t3");
    let raw = encode_all(&txs);
    let mut ends = vec![];
    let mut n = 0;
    for t in &txs {
        n += protocol::encode(t).len();
        ends.push(n);
    }
    let cuts: Vec<usize> = (0..=raw.len()).collect();
    r.space("truncated transaction files", cuts.len() as u64);
    parallel(r, cuts, |r, &cut| {
        let case = || {
            format!(
                "the first {} of {} bytes of a file of three transactions",
                cut,
                raw.len()
            )
        };
        match ends.iter().position(|e| *e == cut) {
            Some(i) => check_signed(r, &txs[..=i], "sign-output", &case),
            None => {
                let o = sign_bytes(r, &raw[..cut], "sign-truncated", &case);
                r.check(o.is_none(), "sign-truncated-accepted", case, || {
                    "a part of a transaction was dropped silently".into()
                });
                r.outcome("truncated file refused");
            }
        }
    });
    let tails: Vec<u8> = (0..=255).collect();
    r.space("bytes after the last transaction", 256u64);
    parallel(r, tails, |r, &b| {
        let mut f = raw.clone();
        f.push(b);
        let case = || format!("file of three transactions followed by byte {:#x}", b);
        // an empty map (0x80) and an empty array do not name a kind of transaction either
        let o = sign_bytes(r, &f, "sign-garbage", &case);
        r.check(o.is_none(), "sign-garbage-accepted", case, || {
            "bytes after the transactions were dropped silently".into()
        });
        r.outcome("garbage refused");
    });
}

/// Import and export agree with each other for key files with every single bit set, and refuse
/// every mnemonic with one word exchanged for a neighbour.
fn mnemonics(r: &mut Report) {
    let mut seeds: Vec<Seed> = vec![[0; 32], [0xff; 32], K0];
    for bit in 0..256 {
        let mut s = [0; 32];
        s[bit / 8] = 1 << (bit % 8);
        seeds.push(s);
    }
    r.space("keys through files and mnemonics", seeds.len() as u64);
    parallel(r, seeds, |r, s| {
        r.state();
        r.steps(2);
        let sb = Sandbox::new();
        fs::write(sb.dir.join("a"), s).unwrap();
        let case = || format!("key {}", hex(s));
        let (rc, out, err) = sb.run(&args(&Op::Export("a", "p")));
        let what = || {
            format!(
                "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
                rc,
                out,
                err,
                sb.describe()
            )
        };
        r.check(rc == Some(0), "export-status", case, what);
        let m = words(s);
        r.check(
            out.contains(&m) && out.contains(&address(s).to_string()),
            "export-shows-key",
            case,
            what,
        );
        r.check(
            fs::read(sb.dir.join("p")).ok() == Some(address(s).to_string().into_bytes()),
            "export-files",
            case,
            what,
        );
        r.check(
            fs::read(sb.dir.join("a")).ok() == Some(s.to_vec()),
            "export-key-lost",
            case,
            what,
        );
        let (rc, out, err) = sb.run(
            &["import", "-m", &m, "-f", "b", "-p", "o"]
                .iter()
                .map(|s| s.to_string())
                .collect::<Vec<_>>(),
        );
        let what = || {
            format!(
                "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
                rc,
                out,
                err,
                sb.describe()
            )
        };
        r.check(rc == Some(0), "import-status", case, what);
        r.check(
            fs::read(sb.dir.join("b")).ok() == Some(s.to_vec()),
            "import-files",
            case,
            what,
        );
        r.check(
            fs::read(sb.dir.join("o")).ok() == Some(address(s).to_string().into_bytes()),
            "import-files",
            case,
            what,
        );
        r.outcome("key exported and imported");
    });
    // every single word replaced, dropped or doubled
    let k = words(&K0);
    let w: Vec<String> = k.split(' ').map(|s| s.to_string()).collect();
    let mut bad: Vec<Vec<String>> = vec![vec![], vec!["".into()], vec!["abandon".into(); 25]];
    for i in 0..25 {
        for x in &["abandon", "zoo", "notaword", "ABANDON", ""] {
            let mut v = w.clone();
            if v[i] == *x {
                continue;
            }
            v[i] = x.to_string();
            bad.push(v);
        }
        let mut v = w.clone();
        v.remove(i);
        bad.push(v);
        let mut v = w.clone();
        v.insert(i, w[i].clone());
        bad.push(v);
    }
    r.space("changed mnemonics", bad.len() as u64);
    parallel(r, bad, |r, v| {
        let p = v.join(" ");
        // with 8 checksum bits a changed mnemonic is valid by accident once in a while; then it is
        // another key
        let valid = if v.len() == 25 {
            guard(|| mnemonic::phrase_to_key(&p).ok()).ok().flatten()
        } else {
            None
        };
        for cmd in &["import", "sign"] {
            r.state();
            r.step();
            let sb = Sandbox::new();
            sb.set(&[Key(0), Absent, Absent, Junk(100), Txs("t1")], &[K0]);
            let a: Vec<&str> = if *cmd == "import" {
                vec!["import", "-f", "a", "-m"]
            } else {
                vec!["sign", "-t", "t1", "-o", "o", "-m"]
            };
            let mut a: Vec<String> = a.iter().map(|s| s.to_string()).collect();
            a.push(p.clone());
            let (rc, out, err) = sb.run(&a);
            let case = || format!("algokey {:?}", a);
            let what = || {
                format!(
                    "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
                    rc,
                    out,
                    err,
                    sb.describe()
                )
            };
            r.check(!bad_exit(rc, &err), "mnemonic-panics", case, what);
            let key = fs::read(sb.dir.join("a")).unwrap_or_default();
            match valid {
                None => {
                    r.check(rc != Some(0), "mnemonic-accepted", case, what);
                    r.check(key == K0.to_vec(), "import-key-lost", case, what);
                    r.check(
                        fs::read(sb.dir.join("o")).ok() == Some(vec![0; 100]),
                        "sign-failure-writes",
                        case,
                        what,
                    );
                    r.outcome("mnemonic refused");
                }
                Some(s) => {
                    r.check(s != K0, "mnemonic-two-phrases", case, what);
                    if *cmd == "import" {
                        r.check(key == s.to_vec(), "import-files", case, what);
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- participation keys

#[derive(Clone, Debug)]
enum POp {
    Generate(
        &'static str,
        &'static str,
        &'static str,
        Option<&'static str>,
    ),
    Info,
    Reparent(&'static str),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Part {
    parent: usize,
    first: u64,
    last: u64,
    dilution: u64,
}

fn parent_text(p: &str) -> String {
    match p {
        "A" => address(&[1; 32]).to_string(),
        "B" => address(&[2; 32]).to_string(),
        "wrong-checksum" => {
            let mut t = address(&[1; 32]).to_string().into_bytes();
            t[3] = if t[3] == b'A' { b'B' } else { b'A' };
            String::from_utf8(t).unwrap()
        }
        "short" => address(&[1; 32]).to_string()[..57].into(),
        "lower" => address(&[1; 32]).to_string().to_lowercase(),
        _ => p.into(),
    }
}

fn pops() -> Vec<POp> {
    use POp::*;
    let mut v = vec![
        Generate("0", "0", "A", None),
        Generate("1", "3", "A", Some("2")),
        Generate("0", "9", "B", None),
        Generate("7", "40", "B", Some("10000")),
        Generate("5", "4", "A", None),
        Generate("5", "4", "A", Some("3")),
        Generate("x", "4", "A", None),
        Generate("-1", "4", "A", None),
        Generate("1", "18446744073709551616", "A", None),
        Generate("1", "3", "A", Some("x")),
        Info,
    ];
    for p in &["wrong-checksum", "short", "lower", "", "junk"] {
        v.push(Generate("0", "0", p, None));
        v.push(Reparent(p));
    }
    v.push(Reparent("A"));
    v.push(Reparent("B"));
    v
}

fn pargs(op: &POp) -> Vec<String> {
    let v: Vec<String> = match op {
        POp::Generate(f, l, p, d) => {
            let mut v = vec!["part".into(), "generate".into(), "-k".into(), "pk".into()];
            v.push(format!("--first={}", f));
            v.push(format!("--last={}", l));
            v.push(format!("--parent={}", parent_text(p)));
            if let Some(d) = d {
                v.push(format!("--dilution={}", d));
            }
            v
        }
        POp::Info => ["part", "info", "-k", "pk"]
            .iter()
            .map(|s| s.to_string())
            .collect(),
        POp::Reparent(p) => vec![
            "part".into(),
            "reparent".into(),
            "-k".into(),
            "pk".into(),
            format!("--parent={}", parent_text(p)),
        ],
    };
    v
}

/// What is shown of a participation key, by label.
fn shown(out: &str) -> BTreeMap<String, String> {
    out.lines()
        .filter_map(|l| {
            let mut i = l.splitn(2, ':');
            Some((i.next()?.trim().to_string(), i.next()?.trim().to_string()))
        })
        .collect()
}

fn copy_dir(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_dir(&e.path(), &t);
        } else {
            fs::copy(e.path(), &t).unwrap();
        }
    }
}

#[derive(Clone)]
struct PNode {
    /// The commands so far.
    path: Vec<String>,
    part: Option<Part>,
    lines: BTreeMap<String, String>,
    dir: Option<PathBuf>,
}

fn part_transition(r: &mut Report, n: &PNode, op: &POp) -> Option<PNode> {
    let sb = Sandbox::new();
    if let Some(d) = &n.dir {
        copy_dir(d, &sb.dir.join("keystore.db"));
    }
    r.step();
    r.trace();
    let a = pargs(op);
    let (rc, out, err) = sb.run(&a);
    let case = || format!("after {:?}: algokey {}", n.path, a.join(" "));
    let what = || format!("exit {:?}\nstdout {}\nstderr {}", rc, out, err);
    let want: Option<Part> = match op {
        POp::Generate(f, l, p, d) => {
            let parent = match *p {
                "A" => Some(1),
                "B" => Some(2),
                _ => None,
            };
            match (
                f.parse::<u64>(),
                l.parse::<u64>(),
                parent,
                d.map_or(Ok(0), |d| d.parse::<u64>()),
            ) {
                (Ok(first), Ok(last), Some(parent), Ok(d)) if first <= last => {
                    let mut root = 0;
                    while (root + 1) * (root + 1) <= last - first {
                        root += 1;
                    }
                    Some(Part {
                        parent,
                        first,
                        last,
                        dilution: if d == 0 { 1 + root } else { d },
                    })
                }
                _ => None,
            }
        }
        POp::Info => n.part,
        POp::Reparent(p) => match (*p, n.part) {
            ("A", Some(x)) => Some(Part { parent: 1, ..x }),
            ("B", Some(x)) => Some(Part { parent: 2, ..x }),
            _ => None,
        },
    };
    let c = match op {
        POp::Generate(..) => "part-generate",
        POp::Info => "part-info",
        POp::Reparent(..) => "part-reparent",
    };
    r.outcome(&format!(
        "{} {}",
        c,
        if want.is_some() { "succeeds" } else { "fails" }
    ));
    r.check(!bad_exit(rc, &err), &format!("{}-panics", c), case, what);
    if !r.check(
        (rc == Some(0)) == want.is_some(),
        &format!("{}-status", c),
        case,
        || format!("want {:?}; {}", want, what()),
    ) {
        return None;
    }
    let mut next = PNode {
        path: n.path.clone(),
        part: n.part,
        lines: n.lines.clone(),
        dir: None,
    };
    next.path.push(a[1..].join(" "));
    if let Some(p) = want {
        let l = shown(&out);
        let g = |k: &str| l.get(k).cloned().unwrap_or_default();
        let text = |x: u64| x.to_string();
        let key = format!("{}-shows", c);
        r.check_eq(
            &g("Parent address"),
            &address(&[p.parent as u8; 32]).to_string(),
            &key,
            case,
        );
        r.check(g("First valid").contains(&text(p.first)), &key, case, what);
        r.check(g("Last valid").contains(&text(p.last)), &key, case, what);
        r.check_eq(&g("Key dilution"), &text(p.dilution), &key, case);
        r.check_eq(&g("First batch"), &text(p.first / p.dilution), &key, case);
        r.check_eq(&g("First offset"), &text(0), &key, case);
        let keys = ["VRF public key", "Voting pub key"];
        r.check(keys.iter().all(|k| !g(k).is_empty()), &key, case, what);
        match op {
            POp::Generate(..) => {
                r.check(
                    keys.iter().all(|k| n.lines.get(*k) != Some(&g(k))),
                    "part-generate-reuses-keys",
                    case,
                    what,
                );
            }
            _ => {
                r.check(
                    keys.iter().all(|k| n.lines.get(*k) == Some(&g(k))),
                    "part-keys-changed",
                    case,
                    what,
                );
            }
        }
        next.part = Some(p);
        next.lines = l;
    }
    // whatever happened, what is stored is what was shown last
    let (rc2, out2, err2) = sb.run(&pargs(&POp::Info));
    r.step();
    match next.part {
        Some(_) => r.check(
            rc2 == Some(0) && shown(&out2) == next.lines,
            "part-stored",
            case,
            || {
                format!(
                    "want {:?}; then info: {:?} {} {}",
                    next.lines, rc2, out2, err2
                )
            },
        ),
        None => r.check(
            rc2.map_or(false, |c| c != 0 && c != 101),
            "part-stored",
            case,
            || format!("want nothing; then info: {:?} {} {}", rc2, out2, err2),
        ),
    };
    let keep = root().join(format!("part{}", DIRS.fetch_add(1, SeqCst)));
    if sb.dir.join("keystore.db").is_dir() {
        copy_dir(&sb.dir.join("keystore.db"), &keep);
        next.dir = Some(keep);
    }
    Some(next)
}

fn part_search(r: &mut Report, depth: usize) {
    let mut seen: HashSet<Option<Part>> = HashSet::new();
    seen.insert(None);
    let mut level = vec![PNode {
        path: vec![],
        part: None,
        lines: BTreeMap::new(),
        dir: None,
    }];
    let mut levels = Vec::new();
    for _ in 0..depth {
        levels.push(level.len());
        r.states(level.len() as u64);
        let next = Mutex::new(Vec::new());
        parallel(r, level.clone(), |r, n| {
            for op in pops() {
                if let Some(m) = part_transition(r, n, &op) {
                    next.lock().unwrap().push(m);
                }
            }
        });
        let mut all = next.into_inner().unwrap();
        all.sort_by(|a, b| a.path.cmp(&b.path));
        // states are the same when they show the same up to the keys
        let (new, old): (Vec<PNode>, Vec<PNode>) =
            all.into_iter().partition(|m| seen.insert(m.part));
        for m in old.iter().filter_map(|m| m.dir.as_ref()) {
            let _ = fs::remove_dir_all(m);
        }
        level = new;
        if level.is_empty() {
            break;
        }
    }
    r.space("participation states per level", format!("{:?}", levels));
    r.space("participation commands per state", pops().len() as u64);
    if !level.is_empty() {
        r.capped(&format!("participation: depth {}", depth));
    }
    // the default dilution for every short interval
    let lens: Vec<u64> = (0..tier(40, 200)).collect();
    r.space(
        "interval lengths for the default dilution",
        lens.len() as u64,
    );
    parallel(r, lens, |r, &len| {
        let first = 3;
        let last = first + len;
        let sb = Sandbox::new();
        let a: Vec<String> = vec![
            "part".into(),
            "generate".into(),
            "-kpk".into(),
            format!("-f{}", first),
            format!("-l{}", last),
            format!("-p{}", parent_text("A")),
        ];
        r.state();
        r.step();
        r.trace();
        let (rc, out, err) = sb.run(&a);
        let mut root = 0;
        while (root + 1) * (root + 1) <= len {
            root += 1;
        }
        let got = shown(&out).get("Key dilution").cloned();
        r.check(
            rc == Some(0) && got == Some((1 + root).to_string()),
            "part-default-dilution",
            || format!("rounds {} to {}", first, last),
            || format!("exit {:?} {} {}, want {}", rc, out, err, 1 + root),
        );
    });
}

/// Every write of a command breaks off after every number of bytes (no more room for the file):
/// the command must report it, and no key file may be lost that is not being replaced itself.
fn full_disk(r: &mut Report) {
    let seeds: Vec<Seed> = vec![K0, [78; 32], [79; 32]];
    let before: St = [Key(1), Key(2), Pub(2), Signed(2, "t1"), Txs("t1")];
    let mut jobs: Vec<(Op, usize)> = Vec::new();
    let ops = [
        Op::Generate("a", ""),
        Op::Generate("a", "p"),
        Op::Generate("", "p"),
        Op::Import(Words::K0, "a", ""),
        Op::Import(Words::K0, "a", "p"),
        Op::Export("a", "p"),
        Op::Sign("a", None, "t1", "o"),
        Op::Sign("a", None, "t3", "o"),
        Op::Sign("a", None, "u", "u"),
        Op::Sign("", Some(Words::K0), "t3", "u"),
    ];
    for op in &ops {
        let most = match op {
            Op::Sign(..) => tier(420, 900),
            _ => 70,
        };
        for n in (0..most).step_by(if most > 100 { tier(9, 1) } else { 1 }) {
            jobs.push((op.clone(), n));
        }
    }
    r.space("writes breaking off", jobs.len());
    parallel(r, jobs, |r, (op, n)| {
        for exists in [true, false] {
            let st: St = if exists {
                before
            } else {
                // the outputs are new files
                match op {
                    Op::Generate(..) | Op::Import(..) => {
                        [Absent, Key(2), Absent, Absent, before[4]]
                    }
                    _ => [Key(1), Key(2), Absent, Absent, before[4]],
                }
            };
            let sb = Sandbox::new();
            sb.set(&st, &seeds);
            r.step();
            r.state();
            r.trace();
            let e = predict(&st, op);
            let a = args(op);
            let case = || {
                format!(
                    "{} ({}): no file may grow beyond {} bytes",
                    a.join(" "),
                    if exists { "files exist" } else { "new files" },
                    n
                )
            };
            let exe = algokey();
            let limit = format!("--fsize={}", n);
            let mut full: Vec<&str> = vec![
                "-c",
                "trap '' XFSZ; exec prlimit \"$@\"",
                "sh",
                &limit,
                exe.to_str().unwrap(),
            ];
            full.extend(a.iter().map(|s| s.as_str()));
            let (rc, out, err) = run_cmd(std::path::Path::new("/bin/sh"), &full, &sb.dir, &[], 60);
            let what = || {
                format!(
                    "exit {:?}\nstdout {}\nstderr {}\nfiles {}",
                    rc,
                    out,
                    err,
                    sb.describe()
                )
            };
            if !r.check(!bad_exit(rc, &err), "full-disk-panics", case, what) {
                continue;
            }
            if !e.ok {
                r.violation("full-disk-setup", case(), "the command should work");
                continue;
            }
            let goal = &e.after[0];
            let new = shown_seed(&out);
            if rc == Some(0) {
                r.outcome("enough room");
                r.check(
                    sb.matches(goal, &seeds, new.as_ref()),
                    "full-disk-not-reported",
                    case,
                    what,
                );
                continue;
            }
            r.outcome("write broke off");
            // it must have been too much for the limit
            let most = FILES
                .iter()
                .zip(goal.iter().zip(&st))
                .filter(|(_, (g, s))| g != s)
                .filter_map(|(_, (g, _))| content(*g, &seeds, Some(&[0; 32])))
                .map(|c| c.len())
                .max()
                .unwrap_or(0);
            r.check(most > *n, "full-disk-needless", case, what);
            // the key files: the one being replaced, and the others
            for (i, f) in ["a", "b"].iter().enumerate() {
                let Key(k) = st[i] else { continue };
                let kept = fs::read(sb.dir.join(f)).ok() == content(Key(k), &seeds, None);
                let replaced = goal[i] != st[i];
                let pub_first =
                    goal[2] != st[2] || !matches!(op, Op::Generate(_, "") | Op::Import(_, _, ""));
                let key = if replaced && !pub_first {
                    "key-replaced-on-full-disk"
                } else {
                    "full-disk-key-lost"
                };
                r.check(kept, key, case, what);
            }
            r.check(sb.others_intact(), "full-disk-others", case, what);
        }
    });
}

fn main() {
    let mut r = Report::new("C33");
    unsafe {
        umask(0);
    }
    if !algokey().is_file() {
        eprintln!("no algokey executable");
        std::process::exit(2);
    }
    r.assume("the user does not name another of their key files as the output of a command; where commands are combined, writes do not fail half-way (disk full)");
    mnemonics(&mut r);
    broken_files(&mut r);
    transaction_files(&mut r);
    part_search(&mut r, tier(3, 6));
    full_disk(&mut r);
    files_search(&mut r, tier(2, 12));
    r.finish()
}
