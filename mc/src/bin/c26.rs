//@ hooks
//! C26: TEAL key/value deltas and schemas are applied exactly and respect limits.
//!
//! Every schema pair over boundary counts and every boundary cost, against wide arithmetic; every
//! small key/value store in every insertion order; every value and delta of a grid converted both
//! ways; every small delta against every small set of limits and around the limits of every
//! built-in protocol; every pair of small evaluation deltas compared.

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::data::basics::teal::verif_hook::to_teal_value;
use algorsand::data::basics::{
    DeltaAction, StateDelta, StateSchema, TealType, TealValue, ValueDelta,
};
use algorsand::data::transactions::teal::EvalDelta;
use algorsand::protocol::{self, ConsensusVersion};
use mc::txkit::{blank, state_delta, stx, teal_kv, versions, KINDS};
use mc::*;
use std::collections::HashMap;

const EDGE: [u64; 12] = [
    0,
    1,
    2,
    3,
    255,
    256,
    25_000,
    u32::MAX as u64,
    1 << 32,
    u64::MAX / 2,
    u64::MAX - 1,
    u64::MAX,
];

fn schemas(r: &mut Report) {
    let k = EDGE.len();
    let cap = |v: u128| v.min(u64::MAX as u128) as u64;
    product(&[k, k, k, k], |d| {
        let a = StateSchema {
            num_uint: EDGE[d[0]],
            num_byte_slice: EDGE[d[1]],
        };
        let b = StateSchema {
            num_uint: EDGE[d[2]],
            num_byte_slice: EDGE[d[3]],
        };
        r.state();
        r.steps(3);
        let case = || {
            format!(
                "({}, {}) and ({}, {})",
                a.num_uint, a.num_byte_slice, b.num_uint, b.num_byte_slice
            )
        };
        let s = guard(|| a.add_schema(b)).map(|s| (s.num_uint, s.num_byte_slice));
        r.check(
            s == Ok((
                cap(a.num_uint as u128 + b.num_uint as u128),
                cap(a.num_byte_slice as u128 + b.num_byte_slice as u128),
            )),
            "add",
            case,
            || format!("{:?}", s),
        );
        let s = guard(|| a.sub_schema(b)).map(|s| (s.num_uint, s.num_byte_slice));
        r.check(
            s == Ok((
                a.num_uint.max(b.num_uint) - b.num_uint,
                a.num_byte_slice.max(b.num_byte_slice) - b.num_byte_slice,
            )),
            "sub",
            case,
            || format!("{:?}", s),
        );
        let s = guard(|| a.num_entries());
        r.check(
            s == Ok(cap(a.num_uint as u128 + a.num_byte_slice as u128)),
            "entries",
            case,
            || format!("{:?}", s),
        );
        r.trace();
    });
    // minimum balance: generic costs, and those of every protocol
    let mut params: Vec<(String, ConsensusParams)> = vec![];
    let base = CONSENSUS.0[&ConsensusVersion::V30].clone();
    let costs = [0u64, 1, 2, 3500, 25_000, 1 << 32, u64::MAX];
    product(&[costs.len(), costs.len(), costs.len()], |d| {
        let mut p = base.clone();
        p.schema_min_balance_per_entry = costs[d[0]];
        p.schema_uint_min_balance = costs[d[1]];
        p.schema_bytes_min_balance = costs[d[2]];
        params.push((format!("{:?}", d), p));
    });
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            params.push((v.to_string(), p.clone()));
        }
    }
    for (name, p) in &params {
        for &u in &EDGE {
            for &b in &EDGE {
                r.state();
                r.step();
                let s = StateSchema {
                    num_uint: u,
                    num_byte_slice: b,
                };
                let (u, b) = (u as u128, b as u128);
                let exact = |x: u64| x as u128;
                // at most 2^64 * (2^64 + 2^64) needs care: add the parts saturating
                let want = cap(
                    (exact(p.schema_min_balance_per_entry).saturating_mul(u + b))
                        .saturating_add(exact(p.schema_uint_min_balance) * u)
                        .saturating_add(exact(p.schema_bytes_min_balance) * b),
                );
                let got = guard(|| s.min_balance(p).0);
                r.check(
                    got == Ok(want),
                    "min-balance",
                    || format!("({}, {}) costs {}", u, b, name),
                    || format!("{:?} instead of {}", got, want),
                );
                r.outcome(if want == u64::MAX { "limited" } else { "exact" });
            }
        }
        r.trace();
    }
}

/// Every small store: each of four keys absent or holding a value of either type.
fn stores(r: &mut Report) {
    let keys = ["", "a", "ab", "b"];
    let vals: [(&str, &[u8], u64); 5] = [
        ("Bytes", &[], 0),
        ("Bytes", &[1], 0),
        ("Uint", &[], 0),
        ("Uint", &[], 7),
        ("Uint", &[], u64::MAX),
    ];
    let orders = permutations(4);
    product(&[vals.len() + 1; 4], |d| {
        let mut first = None;
        for o in &orders {
            let entries: Vec<(&str, &str, &[u8], u64)> = o
                .iter()
                .filter(|&&i| d[i] > 0)
                .map(|&i| {
                    let v = vals[d[i] - 1];
                    (keys[i], v.0, v.1, v.2)
                })
                .collect();
            r.state();
            r.step();
            let kv = teal_kv(&entries);
            let want = (
                entries.iter().filter(|e| e.1 == "Uint").count() as u64,
                entries.iter().filter(|e| e.1 == "Bytes").count() as u64,
            );
            let s = guard(|| kv.to_state_schema()).map(|s| (s.num_uint, s.num_byte_slice));
            r.check(
                s == Ok(want),
                "count",
                || format!("{:?}", entries),
                || format!("{:?} instead of {:?}", s, want),
            );
            let enc = protocol::encode(&kv);
            let f = first.get_or_insert_with(|| enc.clone());
            r.check(
                *f == enc,
                "order",
                || format!("{:?}", entries),
                || "the encoding depends on the insertion order".into(),
            );
        }
        r.trace();
    });
}

/// Larger stores: every number of integers among every number of entries.
fn large_stores(r: &mut Report) {
    let sizes: Vec<usize> = tier(
        (5..=70)
            .chain([100, 127, 128, 129, 200, 255, 256, 257, 300, 333])
            .collect(),
        (5..=333).chain([511, 512, 513, 1000]).collect(),
    );
    r.space(
        "larger stores",
        format!("{} sizes, every division into types", sizes.len()),
    );
    parallel(r, sizes, |r, &n| {
        let names: Vec<String> = (0..n).map(|i| format!("{}k", i * 7 % 1009)).collect();
        for u in 0..=n {
            let entries: Vec<(&str, &str, &[u8], u64)> = (0..n)
                .map(|i| {
                    if i < u {
                        (&names[i][..], "Uint", &[][..], i as u64)
                    } else {
                        (&names[i][..], "Bytes", &[5][..], 0)
                    }
                })
                .collect();
            let kv = teal_kv(&entries);
            r.state();
            r.step();
            let s = guard(|| kv.to_state_schema()).map(|s| (s.num_uint, s.num_byte_slice));
            r.check(
                s == Ok((u as u64, (n - u) as u64)),
                "count",
                || format!("{} entries, {} of them integers", n, u),
                || format!("{:?}", s),
            );
        }
        r.trace();
    });
}

fn values(r: &mut Report) {
    let blobs: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![1],
        vec![0xff],
        vec![0, 0],
        vec![0x0a, 0xb0],
        (0..=255).collect(),
        vec![7; 5000],
    ];
    for b in &blobs {
        for &u in &EDGE {
            r.state();
            r.steps(7);
            let case = || format!("{} bytes, {}", b.len(), u);
            // values: what belongs to the other type is dropped
            for ty in [TealType::Bytes, TealType::Uint] {
                let clean = match ty {
                    TealType::Bytes => TealValue::new_bytes(b.clone()),
                    TealType::Uint => TealValue::new_uint(u),
                };
                let mixed = TealValue {
                    teal_type: ty,
                    bytes: b.clone(),
                    uint: u,
                };
                r.check(clean.teal_type == ty, "make", case, || "wrong type".into());
                let (wb, wu, wa) = match ty {
                    TealType::Bytes => (b.clone(), 0, DeltaAction::SetBytes),
                    TealType::Uint => (vec![], u, DeltaAction::SetUint),
                };
                r.check(clean.bytes == wb && clean.uint == wu, "make", case, || {
                    "wrong content".into()
                });
                for v in [&clean, &mixed] {
                    let d = v.to_value_delta();
                    r.check(
                        d.action == wa && d.bytes == wb && d.uint == wu,
                        "to-delta",
                        case,
                        || "the delta does not set the value".into(),
                    );
                    let back = to_teal_value(&d);
                    r.check(matches!(&back, Some(x) if x.teal_type == ty && x.bytes == wb && x.uint == wu), "round-trip", case, || "converted back to another value".into());
                    let text = match ty {
                        TealType::Bytes => b.iter().map(|x| format!("{:02x}", x)).collect(),
                        TealType::Uint => u.to_string(),
                    };
                    r.check(v.to_string() == text, "text", case, || v.to_string());
                }
                r.check(
                    ty.to_string() == if ty == TealType::Bytes { "b" } else { "u" },
                    "type-text",
                    case,
                    || ty.to_string(),
                );
            }
            for action in [
                DeltaAction::SetBytes,
                DeltaAction::SetUint,
                DeltaAction::Delete,
            ] {
                let d = ValueDelta {
                    action,
                    bytes: b.clone(),
                    uint: u,
                };
                let v = to_teal_value(&d);
                let ok = match (action, &v) {
                    (DeltaAction::Delete, None) => true,
                    (DeltaAction::SetBytes, Some(v)) => {
                        v.teal_type == TealType::Bytes && v.bytes == *b && v.uint == 0
                    }
                    (DeltaAction::SetUint, Some(v)) => {
                        v.teal_type == TealType::Uint && v.bytes.is_empty() && v.uint == u
                    }
                    _ => false,
                };
                r.check(ok, "to-value", case, || "wrong value".into());
            }
            r.trace();
        }
    }
}

fn limits(r: &mut Report) {
    let acts = ["SetBytes", "SetUint", "Delete"];
    // keys by their length in bytes; one of them has more bytes than letters
    let keys = ["", "k", "kk", "kéy", "é", "longk"];
    let base = CONSENSUS.0[&ConsensusVersion::V30].clone();
    let mut entries: Vec<(&str, &str, Vec<u8>, u64)> = vec![];
    for k in keys {
        for a in acts {
            for l in 0..5 {
                entries.push((k, a, vec![9; l], 4));
            }
        }
    }
    let ok_one = |k: usize, a: &str, l: usize, kl: u32, bl: u32, sl: u32| {
        k <= kl as usize && (a != "SetBytes" || (l <= bl as usize && k + l <= sl as usize))
    };
    let mut maps: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..entries.len() {
        maps.push(vec![i]);
        for j in i + 1..entries.len() {
            if entries[i].0 != entries[j].0 {
                maps.push(vec![i, j]);
            }
        }
    }
    let built: Vec<(Vec<usize>, StateDelta)> = maps
        .into_iter()
        .map(|m| {
            let e: Vec<(&str, &str, &[u8], u64)> = m
                .iter()
                .map(|&i| (entries[i].0, entries[i].1, &entries[i].2[..], entries[i].3))
                .collect();
            (m, state_delta(&e))
        })
        .collect();
    let mut grid = vec![];
    product(&[6, 5, 8], |d| {
        grid.push((d[0] as u32, d[1] as u32, d[2] as u32))
    });
    parallel(r, grid, |r, &(kl, bl, sl)| {
        let mut p = base.clone();
        p.max_app_key_len = kl;
        p.max_app_bytes_value_len = bl;
        p.max_app_sum_key_value_lens = sl;
        for (m, delta) in &built {
            r.state();
            r.step();
            let want = m.is_empty()
                || (kl > 0
                    && m.iter().all(|&i| {
                        ok_one(
                            entries[i].0.len(),
                            entries[i].1,
                            entries[i].2.len(),
                            kl,
                            bl,
                            sl,
                        )
                    }));
            let got = guard(|| delta.is_valid(p.clone()));
            r.check(
                got == Ok(want),
                "valid",
                || {
                    format!(
                        "limits key {} bytes {} sum {}: {:?}",
                        kl,
                        bl,
                        sl,
                        m.iter()
                            .map(|&i| (entries[i].0, entries[i].1, entries[i].2.len()))
                            .collect::<Vec<_>>()
                    )
                },
                || format!("{:?} instead of {}", got, want),
            );
            r.outcome(if want { "valid" } else { "too long" });
        }
        r.trace();
    });
    // long keys and values under wide limits: lengths are not cut to fewer bits
    let lens = [
        0usize, 1, 127, 128, 255, 256, 257, 511, 65_535, 65_536, 65_537,
    ];
    let wide = [
        0u32,
        1,
        127,
        255,
        256,
        257,
        511,
        65_535,
        65_536,
        65_538,
        131_074,
        u32::MAX,
    ];
    let mut grid = vec![];
    product(&[lens.len(), lens.len(), acts.len()], |d| {
        grid.push((lens[d[0]], lens[d[1]], acts[d[2]]))
    });
    r.space(
        "long keys and values",
        format!("{} deltas x {}^3 limits", grid.len(), wide.len()),
    );
    parallel(r, grid, |r, &(k, l, a)| {
        let name: String = std::iter::repeat('x').take(k).collect();
        let d = state_delta(&[(&name, a, &vec![1; l], 0)]);
        let mut p = base.clone();
        product(&[wide.len(), wide.len(), wide.len()], |w| {
            r.state();
            r.step();
            let (kl, bl, sl) = (wide[w[0]], wide[w[1]], wide[w[2]]);
            p.max_app_key_len = kl;
            p.max_app_bytes_value_len = bl;
            p.max_app_sum_key_value_lens = sl;
            let want = kl > 0 && ok_one(k, a, l, kl, bl, sl);
            let got = guard(|| d.is_valid(p.clone()));
            r.check(
                got == Ok(want),
                "valid",
                || {
                    format!(
                        "limits key {} bytes {} sum {}: key of {}, {} of {}",
                        kl, bl, sl, k, a, l
                    )
                },
                || format!("{:?} instead of {}", got, want),
            );
        });
        r.trace();
    });
    // many entries, one of which is too long: each in turn
    let sizes: Vec<usize> = tier(
        (3..=20)
            .chain([
                31, 32, 33, 63, 64, 65, 100, 128, 129, 200, 256, 257, 300, 333,
            ])
            .collect(),
        (3..=130)
            .chain([200, 255, 256, 257, 300, 333, 600, 1000])
            .collect(),
    );
    r.space("deltas of many entries", sizes.len());
    parallel(r, sizes, |r, &n| {
        let mut p = base.clone();
        p.max_app_key_len = 8;
        p.max_app_bytes_value_len = 8;
        p.max_app_sum_key_value_lens = 12;
        let names: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
        for bad in 0..=n {
            for kind in 0..3 {
                if bad == n && kind > 0 {
                    continue;
                }
                let entries: Vec<(String, &str, Vec<u8>, u64)> = (0..n)
                    .map(|i| match (i == bad, kind) {
                        (true, 0) => (format!("{:x<9}", names[i]), acts[i % 3], vec![], 1),
                        (true, 1) => (names[i].clone(), "SetBytes", vec![1; 9], 0),
                        (true, _) => (format!("{:x<8}", names[i]), "SetBytes", vec![1; 5], 0),
                        _ => (
                            names[i].clone(),
                            acts[i % 3],
                            vec![2; if i % 3 == 0 { 4 } else { 0 }],
                            1,
                        ),
                    })
                    .collect();
                let e: Vec<(&str, &str, &[u8], u64)> = entries
                    .iter()
                    .map(|e| (&e.0[..], e.1, &e.2[..], e.3))
                    .collect();
                let d = state_delta(&e);
                r.state();
                r.step();
                let got = guard(|| d.is_valid(p.clone()));
                r.check(
                    got == Ok(bad == n),
                    "valid",
                    || format!("{} entries, entry {} too long (kind {})", n, bad, kind),
                    || format!("{:?}", got),
                );
            }
        }
        r.trace();
    });
    // on and around the limits of every protocol
    for v in versions() {
        let p = match CONSENSUS.0.get(&v) {
            Some(p) => p.clone(),
            None => continue,
        };
        let (kl, bl, sl) = (
            p.max_app_key_len,
            p.max_app_bytes_value_len,
            p.max_app_sum_key_value_lens,
        );
        let near = |l: u32| {
            vec![
                0usize,
                1,
                (l as usize).saturating_sub(1),
                l as usize,
                l as usize + 1,
            ]
        };
        for k in near(kl) {
            let name: String = std::iter::repeat('x').take(k).collect();
            let mut lens = near(bl);
            lens.extend(near(sl.saturating_sub(k as u32)));
            for l in lens {
                for a in acts {
                    r.state();
                    r.step();
                    let d = state_delta(&[(&name, a, &vec![1; l], 0)]);
                    let want = kl > 0 && ok_one(k, a, l, kl, bl, sl);
                    let got = guard(|| d.is_valid(p.clone()));
                    r.check(
                        got == Ok(want),
                        "valid",
                        || format!("{} key {} {} {}", v, k, a, l),
                        || format!("{:?} instead of {}", got, want),
                    );
                }
            }
        }
        r.trace();
    }
}

/// Evaluation deltas are equal exactly when they are made of equal parts, and then only have one encoding.
fn evals(r: &mut Report) {
    let sds: Vec<fn() -> StateDelta> = vec![
        || state_delta(&[]),
        || state_delta(&[("a", "SetUint", &[], 1)]),
        || state_delta(&[("a", "SetUint", &[], 2)]),
        || state_delta(&[("b", "SetUint", &[], 1)]),
        || state_delta(&[("a", "SetBytes", &[1], 0)]),
        || state_delta(&[("a", "Delete", &[], 0)]),
        || state_delta(&[("a", "SetUint", &[], 1), ("b", "Delete", &[], 0)]),
        || state_delta(&[("b", "Delete", &[], 0), ("a", "SetUint", &[], 1)]),
    ];
    // the last two are the same
    let class = |i: usize| if i == 7 { 6 } else { i };
    let mut all: Vec<(Vec<usize>, EvalDelta)> = vec![];
    let inner = |n: usize| -> Vec<algorsand::data::transactions::SignedTxWithAD> {
        match n {
            0 => vec![],
            n => {
                let mut t = stx(blank(KINDS[0]));
                t.tx.header.fee.0 = n as u64;
                vec![algorsand::data::transactions::SignedTxWithAD {
                    tx: t,
                    ad: Default::default(),
                }]
            }
        }
    };
    product(&[8, 5, 3, 3], |d| {
        let mut local: HashMap<u64, StateDelta> = HashMap::new();
        match d[1] {
            1 => drop(local.insert(0, sds[0]())),
            2 => drop(local.insert(0, sds[1]())),
            3 => drop(local.insert(1, sds[1]())),
            4 => {
                local.insert(u64::MAX, sds[6]());
                local.insert(0, sds[1]());
            }
            _ => {}
        }
        let logs = match d[2] {
            0 => vec![],
            1 => vec!["".to_string()],
            _ => vec!["x".to_string(), "y".to_string()],
        };
        all.push((
            vec![class(d[0]), d[1], d[2], d[3]],
            EvalDelta {
                global_delta: sds[d[0]](),
                local_deltas: local,
                logs,
                inner_txs: inner(d[3]),
            },
        ));
    });
    let enc: Vec<Vec<u8>> = all.iter().map(|(_, e)| protocol::encode(e)).collect();
    let jobs: Vec<usize> = (0..all.len()).collect();
    let (all, enc) = (&all, &enc);
    parallel(r, jobs, |r, &i| {
        for j in 0..all.len() {
            r.state();
            r.step();
            let same = all[i].0 == all[j].0;
            let case = || format!("{:?} and {:?}", all[i].0, all[j].0);
            let eq = all[i].1 == all[j].1;
            r.check(eq == same, "equality", case, || format!("equal: {}", eq));
            r.check((enc[i] == enc[j]) == same, "encoding", case, || {
                "equal deltas with different encodings or the other way round".into()
            });
        }
        let back = guard(|| {
            protocol::decode::<EvalDelta>(&enc[i])
                .map(|e| e == all[i].1)
                .unwrap_or(false)
        });
        r.check(
            back == Ok(true),
            "decode",
            || format!("{:?}", all[i].0),
            || format!("{:?}", back),
        );
        r.trace();
    });
    r.space("evaluation deltas", format!("all pairs of {}", all.len()));
}

fn main() {
    let mut r = Report::new("C26");
    schemas(&mut r);
    stores(&mut r);
    large_stores(&mut r);
    values(&mut r);
    limits(&mut r);
    evals(&mut r);
    r.space(
        "schemas",
        "all pairs over 12 boundary counts; all boundary costs and those of every protocol",
    );
    r.space(
        "stores",
        "4 keys absent or with one of 5 values, all insertion orders",
    );
    r.space("limits", "all deltas of up to two entries against all limits up to 5, 4 and 7; on and around the limits of every protocol");
    r.finish()
}
