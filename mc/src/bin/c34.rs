//! C34: a genesis specification yields one well-defined genesis block.
//@ hooks
//!
//! Genesis blocks are made for every protocol and every small allocation, with the balance of the
//! rewards pool at and around every threshold, and compared with a reference field by field. All
//! specifications with up to two changes (and their allocations with up to two accounts) are hashed
//! and compared pairwise, written to files, read back, and every truncation and every change of
//! one byte of a file is read.

use std::collections::HashMap;
use std::fs;

use algorsand::config::CONSENSUS;
use algorsand::crypto::CryptoHash;
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::genesis::verif_hook as gen;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::Payset;
use algorsand::protocol::{self, ConsensusVersion};
use mc::txkit::*;
use mc::*;

/// An account with a balance; `more` also gives it what does not count.
fn with(balance: u64, more: bool) -> AccountData {
    let mut a: AccountData = Default::default();
    a.micro_algos = MicroAlgos(balance);
    if more {
        a.status = Status::Online;
        a.rewards_base = 3;
        a.rewarded_micro_algos = MicroAlgos(50_000_000_000_000);
        a.asset_params.insert(1, blank_params());
        a.total_app_schema.num_uint = 5;
    }
    a
}

fn blocks(r: &mut Report) {
    let versions = versions();
    r.space("protocols", versions.len() as u64);
    parallel(r, versions, |r, v| {
        let p = CONSENSUS.0.get(v);
        let (interval, min, late, gh) = match p {
            Some(p) => (
                p.rewards_rate_refresh_interval,
                p.min_balance,
                p.initial_rewards_rate_calculation,
                p.support_genesis_hash,
            ),
            None => (500_000, 100_000, false, false),
        };
        // the published protocols keep the minimum balance aside from V26 on and have genesis hashes from V14 on
        if p.is_some() && !altered() {
            use ConsensusVersion::*;
            let before26 = vec![
                V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23,
                V24, V25,
            ];
            let before14 = &before26[..7];
            r.check_eq(
                &late,
                &!before26.contains(v),
                "initial-rate-protocols",
                || format!("{:?}", v),
            );
            r.check_eq(
                &gh,
                &!before14.contains(v),
                "genesis-hash-protocols",
                || format!("{:?}", v),
            );
        }
        let mut pools: Vec<Option<u64>> = vec![None];
        for base in &[
            0,
            min,
            interval,
            2 * interval,
            min + interval,
            min + 2 * interval,
            125_000_000_000_000,
            u64::MAX,
        ] {
            for d in &[-1i64, 0, 1] {
                let x = *base as i128 + *d as i128;
                if x >= 0 && x <= u64::MAX as i128 {
                    pools.push(Some(x as u64));
                }
            }
        }
        // who is who: pool, sink and two others, all distinct or the same
        let who: Vec<(u8, u8)> = vec![(1, 2), (1, 1), (0, 2), (1, 0), (0, 0), (200, 255)];
        let others: Vec<Vec<(u8, u64)>> = vec![
            vec![],
            vec![(3, 7)],
            vec![(3, 9_000_000_000_000), (4, u64::MAX)],
            vec![(2, 50)],
            vec![(0, 123_456_789_000)],
        ];
        for &(pool, sink) in &who {
            for amount in &pools {
                for o in &others {
                    for &ts in &[0u64, 1_560_211_200, u64::MAX] {
                        for id in &["", "mainnet-v1.0", "a-b-c"] {
                            for &h in &[0u8, 9] {
                                r.state();
                                r.step();
                                r.trace();
                                let mut b: HashMap<Address, AccountData> = HashMap::new();
                                for (a, x) in o {
                                    b.insert(addr(*a), with(*x, h == 9));
                                }
                                if let Some(x) = amount {
                                    b.insert(addr(pool), with(*x, h == 9));
                                }
                                let has = b.get(&addr(pool)).map_or(0, |a| a.micro_algos.0);
                                let case = || {
                                    format!("{:?}, pool {} with {:?}, sink {}, others {:?}, time {}, id {:?}, hash {}", v, pool, amount, sink, o, ts, id, h)
                                };
                                let res = guard(|| {
                                    gen::create_block(
                                        *v,
                                        b,
                                        addr(sink),
                                        addr(pool),
                                        ts,
                                        id,
                                        hash(h),
                                    )
                                });
                                let got = match r.no_panic(res, "genesis-panics", case) {
                                    Some(g) => g,
                                    None => continue,
                                };
                                let blk = match (got, p.is_some()) {
                                    (Ok(b), true) => b,
                                    (Err(_), false) => {
                                        r.outcome("unknown protocol refused");
                                        continue;
                                    }
                                    (g, _) => {
                                        r.violation(
                                            if g.is_ok() {
                                                "genesis-unknown-protocol"
                                            } else {
                                                "genesis-refused"
                                            },
                                            case(),
                                            "wrong outcome",
                                        );
                                        continue;
                                    }
                                };
                                let spend = if late { has.saturating_sub(min) } else { has };
                                let mut want: BlockHeader = blank_block_header();
                                want.seed = Seed(hash(h).0);
                                want.tx_root = CryptoHash(mc::model::sha(b"PF\x90"));
                                want.timestamp = ts;
                                want.genesis_id = id.to_string();
                                want.genesis_hash = if gh { hash(h) } else { Default::default() };
                                want.rewards_state.fee_sink = addr(sink);
                                want.rewards_state.rewards_pool = addr(pool);
                                want.rewards_state.rewards_rate = spend / interval;
                                want.rewards_state.rewards_recalculation_round = Round(interval);
                                want.upgrade_state.current_protocol = *v;
                                let same = protocol::encode(&blk.header) == protocol::encode(&want);
                                r.check(same, "genesis-header", case, || {
                                    let (a, b) = (
                                        serde_json::to_value(&blk.header).unwrap(),
                                        serde_json::to_value(&want).unwrap(),
                                    );
                                    format!("got {} want {}", a, b)
                                });
                                r.check(blk.payset.0.is_empty(), "genesis-payset", case, || {
                                    "the genesis block has transactions".into()
                                });
                                r.outcome(if want.rewards_state.rewards_rate == 0 {
                                    "rate zero"
                                } else {
                                    "rate positive"
                                });
                            }
                        }
                    }
                }
            }
        }
    });
}

fn blank_block_header() -> BlockHeader {
    Default::default()
}

// ---------------------------------------------------------------- specifications

/// A specification: which of the alternatives of each part it has.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Spec {
    parts: Vec<usize>,
    /// The accounts: address, comment, state.
    accounts: Vec<(usize, usize, Vec<u8>)>,
}

const PARTS: [&str; 8] = [
    "schema", "network", "proto", "pool", "sink", "time", "comment", "dev",
];
const DIMS: [usize; 8] = [4, 4, 3, 3, 3, 3, 3, 2];

fn strings(i: usize) -> &'static str {
    ["", "a", "v1.0", "a-"][i]
}

fn addresses(i: usize) -> String {
    match i {
        0 => String::new(),
        1 => addr(1).to_string(),
        2 => addr(2).to_string(),
        _ => "a".into(),
    }
}

fn build(s: &Spec, slots: &[Slot<AccountData>]) -> gen::Gen {
    let p = &s.parts;
    let proto = [
        ConsensusVersion::V7,
        ConsensusVersion::V30,
        ConsensusVersion::Future,
    ][p[2]];
    let mut g = gen::genesis(strings(p[1]).to_string(), proto);
    g.set_schema_id(strings(p[0]));
    g.set_rewards_pool(&addresses(p[3]));
    g.set_fee_sink(&addresses(p[4]));
    g.set_timestamp([0, 1, u64::MAX][p[5]]);
    g.set_comment(strings(p[6]));
    g.set_dev_mode(p[7] == 1);
    for (a, c, st) in &s.accounts {
        let mut d: AccountData = Default::default();
        apply(slots, st, &mut d);
        g.allocate(&addresses(*a), strings(*c), d);
    }
    g
}

fn specs() -> Vec<Spec> {
    let slots = account_slots();
    let none = vec![0u8; slots.len()];
    let mut parts: Vec<Vec<usize>> = Vec::new();
    product(&DIMS, |v| {
        if v.iter().filter(|x| **x > 0).count() <= tier(3, 8) {
            parts.push(v.to_vec());
        }
    });
    let states: Vec<Vec<u8>> = assignments(&slots, tier(1, 2), 2, 1);
    let mut accounts: Vec<Vec<(usize, usize, Vec<u8>)>> = vec![vec![]];
    for st in &states {
        accounts.push(vec![(1, 0, st.clone())]);
    }
    // one or two accounts with addresses, comments and a few states
    let mut few: Vec<(usize, usize, Vec<u8>)> = Vec::new();
    let mut one = none.clone();
    one[1] = 1;
    let mut two = none.clone();
    two[9] = 2;
    for a in 0..4 {
        for c in 0..3 {
            for st in &[&none, &one, &two] {
                few.push((a, c, st.to_vec()));
            }
        }
    }
    for x in &few {
        accounts.push(vec![x.clone()]);
        for y in &few {
            accounts.push(vec![x.clone(), y.clone()]);
        }
    }
    accounts.push(vec![few[0].clone(); 3]);
    let mut out: Vec<Spec> = parts
        .iter()
        .map(|p| Spec {
            parts: p.clone(),
            accounts: vec![],
        })
        .collect();
    for a in accounts {
        out.push(Spec {
            parts: vec![0; 8],
            accounts: a.clone(),
        });
        out.push(Spec {
            parts: vec![1; 8],
            accounts: a,
        });
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}

fn hashes(r: &mut Report) {
    let specs = specs();
    r.space(
        "specifications hashed and compared pairwise",
        specs.len() as u64,
    );
    r.space("specifications changed in at most", tier(3u64, 8u64));
    let results = std::sync::Mutex::new(Vec::new());
    let chunks: Vec<Vec<Spec>> = specs.chunks(400).map(|c| c.to_vec()).collect();
    parallel(r, chunks, |r, chunk| {
        let slots = account_slots();
        for s in chunk {
            r.state();
            r.step();
            r.trace();
            let case = || {
                let p: Vec<String> = PARTS
                    .iter()
                    .zip(&s.parts)
                    .filter(|(_, x)| **x > 0)
                    .map(|(n, x)| format!("{}#{}", n, x))
                    .collect();
                let a: Vec<String> = s
                    .accounts
                    .iter()
                    .map(|(a, c, st)| {
                        format!(
                            "account {} comment {:?} {}",
                            addresses(*a),
                            strings(*c),
                            describe(&slots, st)
                        )
                    })
                    .collect();
                format!("{} {:?}", p.join(" "), a)
            };
            let res = guard(|| {
                let g = build(s, &slots);
                (g.hash(), g.id(), g.encode())
            });
            let (h, id, enc) = match r.no_panic(res, "genesis-panics", case) {
                Some(x) => x,
                None => continue,
            };
            r.check_eq(
                &id,
                &format!("{}-{}", strings(s.parts[1]), strings(s.parts[0])),
                "genesis-id",
                case,
            );
            let mut rep = b"GE".to_vec();
            rep.extend_from_slice(&enc);
            r.check_eq(
                &h.0.to_vec(),
                &mc::model::sha(&rep).to_vec(),
                "genesis-hash",
                case,
            );
            // made again (hash tables in another order): the same
            for _ in 0..3 {
                r.check(
                    build(s, &slots).hash() == h,
                    "genesis-hash-unstable",
                    case,
                    || "the same specification has two hashes".into(),
                );
            }
            // through a file
            let path = scratch_file();
            fs::write(&path, &enc).unwrap();
            let back = guard(|| gen::load_from_file(&path).map(|g| (g.encode(), g.hash())));
            if let Some(b) = r.no_panic(back, "genesis-file-panics", case) {
                match b {
                    Ok((e, h2)) => {
                        r.check(e == enc && h2 == h, "genesis-file", case, || {
                            format!("written {} read {}", hex(&enc), hex(&e))
                        });
                        r.outcome("file read back");
                    }
                    Err(_) => r.violation("genesis-file", case(), "refused"),
                }
            }
            let _ = fs::remove_file(&path);
            results.lock().unwrap().push((h.0, case()));
        }
    });
    let mut v = results.into_inner().unwrap();
    let n = v.len() as u64;
    v.sort();
    for w in v.windows(2) {
        r.check(
            w[0].0 != w[1].0,
            "genesis-hash-collision",
            || format!("{} and {}", w[0].1, w[1].1),
            || format!("both have hash {}", hex(&w[0].0)),
        );
    }
    r.steps(n * n.saturating_sub(1) / 2);
}

/// Long lists of accounts: each account in turn changed, left out, or exchanged with its neighbour
/// gives another hash.
fn long_lists(r: &mut Report) {
    let slots = account_slots();
    let sizes: Vec<usize> = tier(
        (4..=20)
            .chain([31, 32, 33, 64, 65, 100, 128, 129, 200, 256, 257, 300, 333])
            .collect(),
        (4..=100)
            .chain([127, 128, 129, 200, 255, 256, 257, 300, 500, 1000])
            .collect(),
    );
    r.space("lists of accounts", sizes.len());
    parallel(r, sizes, |r, &n| {
        let other: Vec<u8> = (0..slots.len()).map(|i| u8::from(i == 1)).collect();
        let accounts: Vec<(String, AccountData)> = (0..n)
            .map(|i| {
                let mut a = [7u8; 32];
                a[..8].copy_from_slice(&(i as u64).to_be_bytes());
                (
                    algorsand::data::basics::Address(a).to_string(),
                    with(i as u64 + 5000, false),
                )
            })
            .collect();
        let make = |list: &dyn Fn(usize) -> Option<usize>, changed: Option<usize>| {
            let mut g = gen::genesis("n".to_string(), ConsensusVersion::V30);
            for k in 0..n {
                let i = match list(k) {
                    Some(i) => i,
                    None => continue,
                };
                let mut d = accounts[i].1.clone();
                if changed == Some(i) {
                    apply(&slots, &other, &mut d);
                }
                g.allocate(&accounts[i].0, "", d);
            }
            let enc = g.encode();
            (g.hash().0, enc)
        };
        let mut seen: std::collections::HashMap<[u8; 32], String> = Default::default();
        let mut variant = |r: &mut Report,
                           name: String,
                           list: &dyn Fn(usize) -> Option<usize>,
                           changed: Option<usize>| {
            r.state();
            r.step();
            let case = || format!("{} accounts, {}", n, name);
            let Some((h, enc)) = r.no_panic(guard(|| make(list, changed)), "genesis-panics", case)
            else {
                return;
            };
            let mut rep = b"GE".to_vec();
            rep.extend_from_slice(&enc);
            r.check_eq(
                &h.to_vec(),
                &mc::model::sha(&rep).to_vec(),
                "genesis-hash",
                case,
            );
            if let Some(o) = seen.insert(h, name.clone()) {
                r.violation(
                    "genesis-hash-collision",
                    format!("{} and {} have one hash", case(), o),
                    hex(&h),
                );
            }
        };
        variant(r, "as they are".into(), &Some, None);
        for p in 0..n {
            variant(r, format!("number {} changed", p), &Some, Some(p));
            variant(
                r,
                format!("without number {}", p),
                &|i| if i == p { None } else { Some(i) },
                None,
            );
            if p + 1 < n {
                variant(
                    r,
                    format!("numbers {} and {} exchanged", p, p + 1),
                    &|i| {
                        Some(if i == p {
                            p + 1
                        } else if i == p + 1 {
                            p
                        } else {
                            i
                        })
                    },
                    None,
                );
            }
        }
        // read back from a file
        let (h, enc) = make(&Some, None);
        let path = scratch_file();
        fs::write(&path, &enc).unwrap();
        let back = guard(|| gen::load_from_file(&path).map(|g| (g.encode(), g.hash().0)));
        r.check(
            back == Ok(Ok((enc, h))),
            "genesis-file",
            || format!("{} accounts", n),
            || "read back differently".into(),
        );
        let _ = fs::remove_file(&path);
        r.trace();
    });
}

static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static DIR: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

fn scratch_file() -> std::path::PathBuf {
    DIR.get_or_init(|| scratch("c34")).join(format!(
        "g{}",
        N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
    ))
}

fn broken_files(r: &mut Report) {
    let slots = account_slots();
    let mut st = vec![0u8; slots.len()];
    for i in &[0, 1, 5, 9, 10, 12] {
        st[*i] = 1;
    }
    let spec = Spec {
        parts: vec![1, 2, 1, 1, 2, 1, 1, 1],
        accounts: vec![(1, 1, st), (2, 0, vec![0; slots.len()])],
    };
    let g = build(&spec, &slots);
    let enc = g.encode();
    r.check(
        guard(|| gen::load_from_file(std::path::Path::new("/nonexistent/genesis.json")).is_err())
            == Ok(true),
        "genesis-missing-file",
        || "missing file".into(),
        || "not refused".into(),
    );
    let dir = scratch_file();
    fs::create_dir(&dir).unwrap();
    r.check(
        guard(|| gen::load_from_file(&dir).is_err()) == Ok(true),
        "genesis-missing-file",
        || "a directory".into(),
        || "not refused".into(),
    );
    r.space("truncations of a genesis file", enc.len() as u64);
    r.space(
        "single byte changes of a genesis file",
        enc.len() as u64 * 255,
    );
    let read = |b: &[u8]| {
        let p = scratch_file();
        fs::write(&p, b).unwrap();
        let x = guard(|| gen::load_from_file(&p).ok().map(|g| (g.encode(), g.hash())));
        let _ = fs::remove_file(&p);
        x
    };
    let cuts: Vec<usize> = (0..enc.len()).collect();
    parallel(r, cuts, |r, &n| {
        r.state();
        r.step();
        let case = || format!("the first {} of {} bytes", n, enc.len());
        if let Some(x) = r.no_panic(read(&enc[..n]), "genesis-file-panics", case) {
            r.check(x.is_none(), "genesis-truncated", case, || {
                "read as a complete specification".into()
            });
            r.outcome("truncated file refused");
        }
        // every change of this byte: refused, or another specification
        let step = tier(7, 1);
        let vals: Vec<u8> = (0..=255u8)
            .filter(|v| (*v as usize + n) % step == 0 || *v == enc[n] ^ 1 || *v == enc[n] ^ 0x80)
            .collect();
        for v in vals {
            if v == enc[n] {
                continue;
            }
            r.state();
            r.step();
            let mut b = enc.clone();
            b[n] = v;
            let case = || {
                format!(
                    "byte {} of {} is {:#x} instead of {:#x}",
                    n,
                    hex(&enc),
                    v,
                    enc[n]
                )
            };
            if let Some(x) = r.no_panic(read(&b), "genesis-file-panics", case) {
                match x {
                    None => r.outcome("changed file refused"),
                    Some((e, _)) => {
                        // what was read is a specification like any other: it survives its own file
                        let again = read(&e);
                        r.check(
                            again
                                .as_ref()
                                .map_or(false, |a| a.as_ref().map_or(false, |a| a.0 == e)),
                            "genesis-file",
                            case,
                            || "what was read does not survive being written".into(),
                        );
                        r.outcome("changed file is another specification");
                    }
                }
            }
        }
    });
    // files of other kinds
    for (name, b) in &[
        ("empty", vec![]),
        ("json", b"{\"network\":\"a\"}".to_vec()),
        ("nil", vec![0xc0]),
        ("empty map", vec![0x80]),
        ("empty array", vec![0x90]),
        ("a block", protocol::encode(&Payset(vec![]))),
        ("a header", protocol::encode(&blank_block_header())),
        ("a huge string", vec![0xdb, 0xff, 0xff, 0xff, 0xff]),
        ("a huge array", vec![0xdd, 0xff, 0xff, 0xff, 0xff]),
        ("a huge map", vec![0xdf, 0xff, 0xff, 0xff, 0xff]),
    ] {
        r.state();
        r.step();
        if let Some(x) = r.no_panic(read(b), "genesis-file-panics", || name.to_string()) {
            r.check(
                x.is_none(),
                "genesis-malformed",
                || name.to_string(),
                || "read as a specification".into(),
            );
        }
    }
}

fn main() {
    let mut r = Report::new("C34");
    blocks(&mut r);
    if !altered() {
        hashes(&mut r);
        long_lists(&mut r);
        broken_files(&mut r);
    }
    mc::txkit::finish_both(r)
}
