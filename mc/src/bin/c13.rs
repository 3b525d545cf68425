//! C13: the encoding of protocol objects is canonical, injective and decodable.
//!
//! For every structure all assignments of values to its fields within the stated bounds are built;
//! each is encoded (twice), decoded, compared and hashed, and no two different ones may share an
//! encoding or a hash. Maps are built in every insertion order.

use std::collections::HashMap;
use std::sync::Mutex;

use algorsand::crypto::hashable::{hash_obj, Hashable};
use algorsand::data::basics::{AccountData, AppIndex, StateDelta, StateSchema};
use algorsand::data::bookkeeping::{Block, BlockHeader};
use algorsand::data::transactions::*;
use algorsand::protocol;
use mc::msgpack::{self as mp, V};
use mc::txkit::*;
use mc::*;

type Seen = Mutex<HashMap<[u8; 32], String>>;

/// The hash the protocol prescribes: the domain prefix, then the encoding.
fn expect_hash(prefix: &str, enc: &[u8]) -> [u8; 32] {
    model::sha(&[prefix.as_bytes(), enc].concat())
}

struct Kind<T> {
    name: String,
    slots: Vec<Slot<T>>,
    blank: Box<dyn Fn() -> T + Send + Sync>,
    /// the object's hash as the code computes it, with the prescribed domain prefix
    hash: Option<(Box<dyn Fn(&T) -> [u8; 32] + Send + Sync>, &'static str)>,
    /// equality, where the type has it
    eq: Option<fn(&T, &T) -> bool>,
    /// slots that make values equal to others (e.g. "present but empty" before "present with x")
    canon: fn(&mut Vec<u8>),
}

fn explore<T>(r: &mut Report, seen: &Seen, k: &Kind<T>, list: &[Vec<u8>])
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    for a in list {
        let mut a = a.clone();
        (k.canon)(&mut a);
        let case = || format!("{}: {}", k.name, describe(&k.slots, &a));
        let mut x = (k.blank)();
        apply(&k.slots, &a, &mut x);
        let mut y = (k.blank)();
        apply(&k.slots, &a, &mut y);
        r.state();
        r.steps(2);
        let Some(e) = r.no_panic(guard(|| protocol::encode(&x)), "encode-panic", case) else {
            continue;
        };
        let e2 = protocol::encode(&y);
        r.check(e == e2, "not-deterministic", case, || {
            format!("the same object encoded to {} and {}", hex(&e), hex(&e2))
        });
        let Some(d) = r.no_panic(guard(|| protocol::decode::<T>(&e)), "decode-panic", case) else {
            continue;
        };
        match d {
            Err(err) => r.violation(
                "undecodable",
                case(),
                format!("its encoding does not decode: {}", err),
            ),
            Ok(d) => {
                r.trace();
                let again = protocol::encode(&d);
                r.check(again == e, "decodes-differently", case, || {
                    format!(
                        "encodes to {}, what that decodes to encodes to {}",
                        hex(&e),
                        hex(&again)
                    )
                });
                if let Some(eq) = k.eq {
                    r.check(eq(&d, &x), "decodes-unequal", case, || {
                        "decoding gives an object that does not compare equal".to_string()
                    });
                }
            }
        }
        let key = match &k.hash {
            Some((h, prefix)) => {
                let got = h(&x);
                r.check(got == expect_hash(prefix, &e), "hash", case, || {
                    "the hash is not that of the domain prefix and the encoding".into()
                });
                got
            }
            None => model::sha(&e),
        };
        let me = case();
        let mut s = seen.lock().unwrap();
        if let Some(other) = s.get(&key) {
            if *other != me {
                let o = other.clone();
                drop(s);
                r.violation(
                    "not-injective",
                    me,
                    format!("has the same encoding or hash as {}", o),
                );
            }
        } else {
            s.insert(key, me);
        }
    }
}

fn jobs(n: usize) -> Vec<(usize, usize)> {
    let c = 4000;
    (0..(n + c - 1) / c)
        .map(|i| (i * c, ((i + 1) * c).min(n)))
        .collect()
}

fn run<T>(r: &mut Report, seen: &Seen, k: Kind<T>, list: Vec<Vec<u8>>)
where
    T: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    r.space(&k.name, list.len() as u64);
    parallel(r, jobs(list.len()), |r, (a, b)| {
        explore(r, seen, &k, &list[*a..*b])
    });
}

/// The name of the entry that a value stands in (of the nearest table around it).
fn name_of(v: &V, p: &[usize]) -> String {
    for n in (0..p.len()).rev() {
        if let V::Map(m) = v.at(&p[..n]) {
            return match &m[p[n]].0 {
                V::Str(s) => String::from_utf8_lossy(s).to_string(),
                x => format!("{:?}", x),
            };
        }
    }
    String::new()
}

/// Names of cases that do not exist, bytes that are no public key or no signature.
fn not_a_value(name: &str, y: &V) -> bool {
    match y {
        V::Str(_) => [
            "type",
            "action",
            "status",
            "teal_type",
            "on_completion",
            "cert_type",
            "current_protocol",
            "next_protocol",
            "upgrade_propose",
            "",
        ]
        .contains(&name),
        _ => {
            let b = y.as_bytes().unwrap_or_default();
            match b.len() {
                32 => {
                    [
                        "key",
                        "vote_id",
                        "vote_pk",
                        "offsets_pk2",
                        "verifier",
                        "pk",
                        "pk2",
                        "",
                    ]
                    .contains(&name)
                        && ed25519_dalek::PublicKey::from_bytes(&b).is_err()
                }
                64 if name == "kp" => ed25519_dalek::PublicKey::from_bytes(&b[32..]).is_err(),
                64 => {
                    (name.contains("sig") || name.is_empty())
                        && ed25519_dalek::Signature::from_bytes(&b).is_err()
                }
                _ => false,
            }
        }
    }
}

/// Every value of every encoding replaced by other values of its kind: what is read is what is
/// written again, byte by byte.
fn leaves(r: &mut Report) {
    let ts = wire::types_alone();
    let jobs: Vec<(usize, usize)> = ts
        .iter()
        .enumerate()
        .flat_map(|(i, t)| (0..t.samples.len()).map(move |j| (i, j)))
        .collect();
    r.space("encodings whose every value is replaced", jobs.len() as u64);
    parallel(r, jobs, |r, &(i, j)| {
        let t = &ts[i];
        let v = mp::read(&t.samples[j]).expect("sample");
        for p in wire::places(&v) {
            let x = v.at(&p);
            let name = name_of(&v, &p);
            let in_bytes = p.split_last().map_or(false, |(_, up)| {
                matches!(v.at(up), V::Arr(_))
                    && v.at(up).as_bytes().map_or(false, |b| b.len() >= 16)
            });
            if in_bytes {
                continue; // the list is replaced as a whole
            }
            let mut alternatives = wire::leaf_values(x, thorough() || t.small);
            // what stands in other places of the same encoding
            for q in wire::places(&v) {
                let y = v.at(&q);
                let alike = match (x, y) {
                    (V::U(_), V::U(_)) => !q
                        .split_last()
                        .map_or(false, |(_, up)| v.at(up).as_bytes().is_some()),
                    (V::Str(_), V::Str(_)) => !not_a_value(&name, x), // another case has other fields
                    (V::Bin(a), V::Bin(b)) => a.len() == b.len(),
                    (V::Arr(_), V::Arr(_)) => {
                        x.as_bytes().is_some()
                            && x.as_bytes().map(|b| b.len()) == y.as_bytes().map(|b| b.len())
                    }
                    _ => false,
                };
                if alike && x != y && !y.is_blank() {
                    alternatives.push((y.clone(), matches!((x, y), (V::U(a), V::U(b)) if b > a)));
                }
            }
            for (y, may_refuse) in alternatives {
                let mut w = v.clone();
                *w.at_mut(&p) = y.clone();
                let b = mp::bytes(&w);
                r.state();
                r.step();
                let case = || {
                    format!(
                        "{}: sample {} with {} {:?} = {}",
                        t.name,
                        j,
                        name,
                        p,
                        hex(&mp::bytes(&y)[..mp::bytes(&y).len().min(80)])
                    )
                };
                let Some(got) = r.no_panic(guard(|| (t.redo)(&b)), "decode-panic", case) else {
                    continue;
                };
                match got {
                    Ok(e) => {
                        r.trace();
                        r.outcome("value kept");
                        r.check(e == b, "value-changed", case, || {
                            format!(
                                "{} decodes and encodes to {}",
                                hex(&b[..b.len().min(300)]),
                                hex(&e[..e.len().min(300)])
                            )
                        });
                    }
                    Err(e) => {
                        r.outcome("value refused");
                        let may_refuse = may_refuse || not_a_value(&name, &y);
                        r.check(may_refuse, "value-refused", case, || {
                            format!("{} does not decode: {}", hex(&b[..b.len().min(300)]), e)
                        });
                    }
                }
            }
        }
    });
}

/// Transactions that hold the same value in two places.
fn equal_values(r: &mut Report) {
    let list: Vec<(String, SignedTx, ApplyData)> = KINDS.iter().flat_map(|k| twins(k)).collect();
    r.space("transactions with pairs of equal values", list.len() as u64);
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let mut stibs = vec![];
    for (what, tx, ad) in list {
        let mut s = stib(tx);
        s.tx.ad = ad;
        let case = || what.clone();
        r.state();
        r.step();
        let e = protocol::encode(&s);
        match guard(|| protocol::decode::<SignedTxInBlock>(&e)) {
            Ok(Ok(d)) => {
                r.trace();
                r.check(
                    d == s && protocol::encode(&d) == e,
                    "decodes-unequal",
                    case,
                    || format!("what it encodes to, {}, decodes to something else", hex(&e)),
                );
            }
            o => r.violation("undecodable", case(), format!("{:?}", o.map(|x| x.is_ok()))),
        }
        match guard(|| protocol::decode::<Transaction>(&protocol::encode(&s.tx.tx.tx))) {
            Ok(Ok(d)) => {
                r.check(d == s.tx.tx.tx, "decodes-unequal", case, || {
                    "the transaction decodes to another".into()
                });
            }
            o => r.violation("undecodable", case(), format!("{:?}", o.map(|x| x.is_ok()))),
        }
        if let Some(other) = seen.insert(e, what.clone()) {
            // which of two equal things is set makes no difference for few of them
            r.check(
                stibs.iter().any(|(w, x)| *w == other && *x == s),
                "not-injective",
                case,
                || format!("has the same encoding as {}", other),
            );
        }
        stibs.push((what, s));
    }
}

/// Maps and lists far larger than real ones, built in several orders.
fn large_maps(r: &mut Report) {
    let sizes: Vec<usize> = (0..=40)
        .chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
        .chain(tier(vec![], vec![511, 512, 513, 1000, 65535, 65536]))
        .collect();
    r.space("entries of large maps", format!("{:?}", sizes));
    parallel(r, sizes, |r, &n| {
        let orders: Vec<(&str, Vec<usize>)> = vec![
            ("ascending", (0..n).collect()),
            ("descending", (0..n).rev().collect()),
            (
                "odd first",
                (0..n)
                    .filter(|i| i % 2 == 1)
                    .chain((0..n).filter(|i| i % 2 == 0))
                    .collect(),
            ),
            ("middle first", (n / 2..n).chain(0..n / 2).collect()),
            ("ascending again", (0..n).collect()),
        ];
        let mut first: Vec<Vec<u8>> = vec![];
        for (order, p) in &orders {
            r.state();
            let names: Vec<String> = (0..n).map(|i| format!("k{:05}", i * 7)).collect();
            let sdl: Vec<(&str, &str, &[u8], u64)> = p
                .iter()
                .map(|i| (names[*i].as_str(), "SetUint", &[][..], *i as u64 + 1))
                .collect();
            let kvl: Vec<(&str, &str, &[u8], u64)> = p
                .iter()
                .map(|i| (names[*i].as_str(), "Uint", &[][..], *i as u64 + 1))
                .collect();
            let mut ed = EvalDelta::default();
            let mut ad = AccountData::default();
            for i in p {
                let i = *i as u64;
                ed.local_deltas
                    .insert(i * 77, state_delta(&[("x", "SetUint", &[], i + 1)]));
                ad.assets.insert(
                    i * 77,
                    algorsand::data::basics::AssetHolding {
                        amount: i + 1,
                        frozen: i % 2 == 0,
                    },
                );
                let mut ap = blank_params();
                ap.total = i + 1;
                ad.asset_params.insert(i * 77, ap);
                ad.app_local_states.insert(
                    algorsand::data::basics::AppIndex(i * 77),
                    algorsand::data::basics::AppLocalState {
                        schema: StateSchema {
                            num_uint: i + 1,
                            num_byte_slice: 0,
                        },
                        key_value: teal_kv(&[]),
                    },
                );
            }
            ed.logs = (0..n).map(|i| format!("log {}", i)).collect();
            ed.inner_txs = (0..n.min(70))
                .map(|i| {
                    let mut t = blank("pay");
                    t.header.fee.0 = i as u64;
                    SignedTxWithAD {
                        tx: stx(t),
                        ad: Default::default(),
                    }
                })
                .collect();
            let mut call = AppCallFields::default();
            call.application_args = (0..n).map(|i| vec![i as u8; i % 5]).collect();
            call.accounts = (0..n).map(|i| addr(i as u8)).collect();
            call.foreign_apps = (0..n).map(|i| AppIndex(i as u64)).collect();
            call.foreign_assets = (0..n).map(|i| i as u64).collect();
            let tx = Transaction {
                header: Default::default(),
                fields: TxFields::AppCall(call),
            };
            let mut pay = blank("pay");
            let paysets = Payset(
                (0..n)
                    .map(|i| {
                        pay.header.fee.0 = i as u64 % 3;
                        stib(stx(pay.clone()))
                    })
                    .collect(),
            );
            let (sd, kv) = (state_delta(&sdl), teal_kv(&kvl));
            let all: Vec<(&str, Vec<u8>, wire::Decoder)> = vec![
                (
                    "StateDelta",
                    protocol::encode(&sd),
                    wire::redo::<StateDelta>(),
                ),
                (
                    "TealKeyValue",
                    protocol::encode(&kv),
                    wire::redo::<algorsand::data::basics::TealKeyValue>(),
                ),
                (
                    "EvalDelta",
                    protocol::encode(&ed),
                    wire::redo::<EvalDelta>(),
                ),
                (
                    "AccountData",
                    protocol::encode(&ad),
                    wire::redo::<AccountData>(),
                ),
                (
                    "application call",
                    protocol::encode(&tx),
                    wire::redo::<Transaction>(),
                ),
                ("payset", protocol::encode(&paysets), wire::redo::<Payset>()),
            ];
            for (k, (name, e, redo)) in all.iter().enumerate() {
                r.step();
                let case = || format!("{} with {} entries inserted {}", name, n, order);
                if let Some(d) = r.no_panic(guard(|| redo(e)), "decode-panic", case) {
                    r.check(d.as_ref() == Ok(e), "large", case, || {
                        format!(
                            "{} bytes decode to something else: {:?}",
                            e.len(),
                            d.as_ref().map(|x| x.len())
                        )
                    });
                }
                // an independent reader finds all entries
                let v = mp::read(e);
                let count = v.as_ref().map(|v| {
                    v.paths()
                        .iter()
                        .filter(|p| matches!(v.at(p), V::U(x) if *x as usize == n))
                        .count()
                });
                r.check(
                    v.is_some()
                        && (n < 2
                            || *name == "payset"
                            || *name == "application call"
                            || count > Some(0)),
                    "large",
                    case,
                    || "the last entry is not in the encoding".into(),
                );
                match first.get(k) {
                    None => first.push(e.clone()),
                    Some(f) => {
                        r.check(f == e, &format!("map-order {}", name), case, || {
                            "equal maps have different encodings".into()
                        });
                    }
                }
            }
            // and the objects themselves are equal after decoding
            let t2 = guard(|| protocol::decode::<Transaction>(&all[4].1).map(|t| t == tx));
            r.check(
                matches!(t2, Ok(Ok(true))),
                "large",
                || format!("application call with {} entries", n),
                || "decodes to another".into(),
            );
            let p2 = guard(|| protocol::decode::<Payset>(&all[5].1).map(|t| t.0 == paysets.0));
            r.check(
                matches!(p2, Ok(Ok(true))),
                "large",
                || format!("payset with {} entries", n),
                || "decodes to another".into(),
            );
            let d2 = guard(|| protocol::decode::<EvalDelta>(&all[2].1).map(|t| t == ed));
            r.check(
                matches!(d2, Ok(Ok(true))),
                "large",
                || format!("effects with {} entries", n),
                || "decode to others".into(),
            );
        }
    });
}

/// The kind, the header and a payment's fields stand under the names the protocol gives them, unset fields
/// do not stand there at all, and what is written under these names is read, in whatever order.
fn names(r: &mut Report) {
    for kind in KINDS {
        let pay = kind == "pay";
        let mut slots = lift(header_slots(), |t: &mut Transaction| &mut t.header);
        if pay {
            slots.extend(kind_slots("pay"));
        }
        let list = assignments(&slots, 2, if pay { tier(5, 13) } else { 10 }, 3);
        r.space(&format!("named fields of {}", kind), list.len());
        let chunks: Vec<Vec<Vec<u8>>> = list.chunks(256).map(|c| c.to_vec()).collect();
        parallel(r, chunks, |r, c| {
            for a in c {
                let mut t = blank(kind);
                apply(&slots, &a, &mut t);
                let h = &t.header;
                let b32 = |x: &[u8]| Some(V::Bin(x.to_vec())).filter(|_| x.iter().any(|y| *y > 0));
                let num = |x: u64| Some(V::U(x)).filter(|_| x > 0);
                let mut want: Vec<(&str, Option<V>)> = vec![
                    ("type", Some(V::Str(kind.into()))),
                    ("snd", b32(&h.sender.0)),
                    ("fee", num(h.fee.0)),
                    ("fv", num(h.first_valid.0)),
                    ("lv", num(h.last_valid.0)),
                    (
                        "note",
                        Some(V::Bin(h.note.clone())).filter(|_| !h.note.is_empty()),
                    ),
                    (
                        "gen",
                        Some(V::Str(h.genesis_id.clone().into()))
                            .filter(|_| !h.genesis_id.is_empty()),
                    ),
                    ("gh", b32(&h.genesis_hash.0)),
                    ("grp", b32(&h.group.0)),
                    ("lx", b32(&h.lease)),
                    ("rekey", b32(&h.rekey_to.0)),
                ];
                if let TxFields::Payment(f) = &t.fields {
                    want.push(("rcv", b32(&f.receiver.0)));
                    want.push(("amt", num(f.amount.0)));
                    want.push((
                        "close",
                        f.close_remainder_to.as_ref().and_then(|x| b32(&x.0)),
                    ));
                }
                r.state();
                r.steps(3);
                r.trace();
                let case = || format!("{} with {}", kind, describe(&slots, &a));
                let enc = protocol::encode(&t);
                let Some(V::Map(m)) = mp::read(&enc) else {
                    r.violation("names", case(), "the encoding is no map");
                    continue;
                };
                let mut known = 0;
                for (name, v) in &want {
                    let found: Vec<&V> = m
                        .iter()
                        .filter(|(k, _)| *k == V::Str(name.as_bytes().to_vec()))
                        .map(|(_, v)| v)
                        .collect();
                    known += found.len();
                    let same = match (v, found.as_slice()) {
                        (None, []) => true,
                        (Some(V::Bin(b)), [x]) => x.as_bytes().as_ref() == Some(b),
                        (Some(v), [x]) => v == *x,
                        _ => false,
                    };
                    r.check(same, "names", case, || {
                        format!("under {:?}: {:?} instead of {:?}", name, found, v)
                    });
                }
                if pay {
                    r.check(known == m.len(), "names", case, || "further names".into());
                }
                // the same content in the order of the names, and backwards
                for back in [false, true] {
                    let mut m = m.clone();
                    m.sort_by_key(|(k, _)| mp::bytes(k));
                    if back {
                        m.reverse();
                    }
                    let bytes = mp::bytes(&V::Map(m));
                    let got = guard(|| protocol::decode::<Transaction>(&bytes).ok());
                    if let Some(got) = r.no_panic(got, "decode-panic", case) {
                        r.check(got.as_ref() == Some(&t), "other-order", case, || {
                            format!("{} decodes to something else", hex(&bytes))
                        });
                    }
                }
            }
        });
    }
}

fn main() {
    let mut r = Report::new("C13");
    leaves(&mut r);
    names(&mut r);
    let txs: Seen = Default::default();
    for kind in KINDS {
        let slots = tx_slots(kind);
        let n = slots.len();
        // every subset of fields where that is feasible, every combination of values of few fields
        let list = assignments(
            &slots,
            tier(3, 4),
            if n <= 16 { n } else { tier(5, 7) },
            tier(4, 5),
        );
        let kind2 = kind.to_string();
        run(
            &mut r,
            &txs,
            Kind {
                name: format!("transaction {}", kind),
                slots,
                blank: Box::new(move || blank(&kind2)),
                hash: Some((Box::new(|t: &Transaction| t.id().0 .0), "TX")),
                eq: Some(|a, b| a == b),
                canon: |_| (),
            },
            list,
        );
    }
    // signed transactions: the signature part exhaustively, around a few transactions
    let stxs: Seen = Default::default();
    // "lsig" alone is implied by any of its parts
    fn lsig_implied(a: &mut Vec<u8>, lsig: usize) {
        if a[lsig + 1..lsig + 5].iter().any(|x| *x > 0) {
            a[lsig] = 0;
        }
    }
    for kind in KINDS {
        for full in [false, true] {
            let slots = stx_slots();
            let list = assignments(&slots, slots.len(), 0, 0);
            let kind2 = kind.to_string();
            run(
                &mut r,
                &stxs,
                Kind {
                    name: format!(
                        "signed transaction {} {}",
                        kind,
                        if full { "full" } else { "blank" }
                    ),
                    slots,
                    blank: Box::new(move || {
                        let mut t = blank(&kind2);
                        if full {
                            let s = tx_slots(&kind2);
                            apply(&s, &vec![1; s.len()], &mut t);
                        }
                        stx(t)
                    }),
                    hash: None,
                    eq: Some(|a, b| a == b),
                    canon: |a| lsig_implied(a, 2),
                },
                list,
            );
        }
    }
    // in-block transactions: apply data and flags
    let stibs: Seen = Default::default();
    for kind in KINDS {
        let slots = stib_slots();
        let n = slots.len();
        let list = assignments(&slots, tier(3, 4), n, 0);
        let kind2 = kind.to_string();
        run(
            &mut r,
            &stibs,
            Kind {
                name: format!("in-block transaction {}", kind),
                slots,
                blank: Box::new(move || stib(stx(blank(&kind2)))),
                hash: Some((Box::new(|t: &SignedTxInBlock| hash_obj(t).0), "STIB")),
                eq: Some(|a, b| a == b),
                canon: |_| (),
            },
            list,
        );
    }
    equal_values(&mut r);
    large_maps(&mut r);
    // block headers
    let headers: Seen = Default::default();
    let slots = block_header_slots();
    let list = assignments(&slots, tier(3, 4), tier(5, 6), tier(4, 5));
    run(
        &mut r,
        &headers,
        Kind {
            name: "block header".into(),
            slots,
            blank: Box::new(BlockHeader::default),
            hash: Some((
                Box::new(|h: &BlockHeader| {
                    Block {
                        header: h.clone(),
                        payset: Default::default(),
                    }
                    .digest()
                    .0
                }),
                "BH",
            )),
            eq: None,
            canon: |a| {
                let n = a.len();
                if a[n - 3..].iter().any(|x| *x > 0) {
                    a[n - 4] = 0
                }
            },
        },
        list,
    );
    // account data
    let accounts: Seen = Default::default();
    let slots = account_slots();
    let n = slots.len();
    let list = assignments(&slots, tier(3, 4), n, 0);
    run(
        &mut r,
        &accounts,
        Kind {
            name: "account data".into(),
            slots,
            blank: Box::new(AccountData::default),
            hash: None,
            eq: None,
            canon: |_| (),
        },
        list,
    );
    // paysets: sequences are encoded in order and unambiguously
    {
        let alpha: Vec<SignedTxInBlock> = (0..4u8)
            .map(|i| {
                let mut t = blank(if i < 2 { "pay" } else { "appl" });
                t.header.sender = addr(i);
                let mut s = stib(stx(t));
                s.has_genesis_id = i == 3;
                s
            })
            .collect();
        let mut seen: HashMap<[u8; 32], Vec<usize>> = HashMap::new();
        for n in 0..=tier(5, 7) {
            sequences(alpha.len(), n, |s| {
                let p = Payset(s.iter().map(|i| alpha[*i].clone()).collect());
                let e = protocol::encode(&p);
                r.state();
                r.step();
                let case = || format!("payset {:?}", s);
                if let Some(d) = r.no_panic(
                    guard(|| protocol::decode::<Payset>(&e)),
                    "payset-decode-panic",
                    case,
                ) {
                    r.check(
                        d.map(|d| d.0 == p.0).unwrap_or(false),
                        "payset-roundtrip",
                        case,
                        || "does not decode to the same payset".into(),
                    );
                }
                let h = p.commit_flat().0;
                r.check(h == expect_hash("PF", &e), "payset-hash", case, || {
                    "flat commitment is not the hash of the encoding".into()
                });
                r.check(p.commit_genesis().0 == h, "payset-hash", case, || {
                    "the commitment of a genesis payset is another".into()
                });
                if let Some(o) = seen.insert(h, s.to_vec()) {
                    r.violation(
                        "payset-collision",
                        case(),
                        format!("same commitment as {:?}", o),
                    );
                }
            });
        }
    }
    // maps: every insertion order gives the same bytes (each built repeatedly, with fresh hash seeds)
    let keys = ["a", "b", "c", "d", "e", "aa", "\u{e9}"];
    let perms = permutations(tier(6, 7));
    let (mut first_sd, mut first_kv, mut first_ld, mut first_ad): (
        Option<Vec<u8>>,
        Option<Vec<u8>>,
        Option<Vec<u8>>,
        Option<Vec<u8>>,
    ) = Default::default();
    for p in &perms {
        for rep in 0..tier(2, 4) {
            r.state();
            r.steps(4);
            let sdl: Vec<(&str, &str, &[u8], u64)> = p
                .iter()
                .map(|i| (keys[*i], "SetUint", &[][..], *i as u64))
                .collect();
            let kvl: Vec<(&str, &str, &[u8], u64)> = p
                .iter()
                .map(|i| (keys[*i], "Uint", &[][..], *i as u64))
                .collect();
            let mut ed = EvalDelta::default();
            let mut ad = AccountData::default();
            for i in p {
                ed.local_deltas
                    .insert(*i as u64 * 77, state_delta(&[(keys[*i], "Delete", &[], 0)]));
                ad.assets.insert(
                    *i as u64 * 77,
                    algorsand::data::basics::AssetHolding {
                        amount: *i as u64,
                        frozen: false,
                    },
                );
                ad.asset_params.insert(*i as u64 * 77, blank_params());
                ad.app_local_states.insert(
                    algorsand::data::basics::AppIndex(*i as u64),
                    algorsand::data::basics::AppLocalState {
                        schema: Default::default(),
                        key_value: teal_kv(&[]),
                    },
                );
            }
            for (name, first, enc) in [
                (
                    "StateDelta",
                    &mut first_sd,
                    protocol::encode(&state_delta(&sdl)),
                ),
                (
                    "TealKeyValue",
                    &mut first_kv,
                    protocol::encode(&teal_kv(&kvl)),
                ),
                (
                    "EvalDelta.local_deltas",
                    &mut first_ld,
                    protocol::encode(&ed),
                ),
                ("AccountData maps", &mut first_ad, protocol::encode(&ad)),
            ] {
                match first {
                    None => *first = Some(enc),
                    Some(f) => {
                        r.check(
                            *f == enc,
                            &format!("map-order {}", name),
                            || format!("{} inserted in order {:?}, repetition {}", name, p, rep),
                            || "equal maps have different encodings".into(),
                        );
                    }
                }
            }
        }
    }
    r.space("map insertion orders", perms.len() as u64);
    // the hash of a structure is its own: other domains never collide on the same bytes
    let t = blank("pay");
    let (id, data) = t.to_be_hashed();
    r.check(
        id == "TX" && t.hash_rep() == [b"TX", &data[..]].concat(),
        "domain",
        || "transaction domain".into(),
        || format!("{:?}", id),
    );
    r.assume("field values are drawn from the listed representatives (zero, small, largest, short, long); field combinations are exhaustive within the stated bounds");
    r.finish()
}
