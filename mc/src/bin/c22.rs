//@ hooks
//! C22: grouping of a payset preserves order, content and group boundaries; fees add up.
//!
//! Every sequence of group IDs up to a length (IDs also differing in a single bit), through the
//! block and on plain lists, with an undecodable transaction at every position; every sequence of
//! fees and kinds against exact arithmetic; every list of signed transactions has its own group ID.

use std::collections::HashMap;

use algorsand::config::CONSENSUS;
use algorsand::crypto::CryptoHash;
use algorsand::data::basics::MicroAlgos;
use algorsand::data::bookkeeping::{
    signed_tx_groups_flatten, signed_txs_to_group, Block, BlockHeader,
};
use algorsand::data::signed_tx_group::verif_hook::group_id;
use algorsand::data::transactions::*;
use algorsand::protocol::ConsensusVersion;
use mc::txkit::*;
use mc::*;

fn header(v: ConsensusVersion) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.upgrade_state.current_protocol = v;
    h.genesis_id = "A".into();
    h.genesis_hash = hash(1);
    h
}

/// No group, or one of groups whose IDs differ in the first bit, the last bit or altogether.
fn group(i: usize) -> CryptoHash {
    let mut g = [0u8; 32];
    match i {
        0 => {}
        1 => g[31] = 1,
        2 => g[31] = 3,
        3 => g[0] = 128,
        _ => g = [0xee; 32],
    }
    CryptoHash(g)
}

/// Runs of every length up to a bound, of every kind, next to each other.
fn long_groups(r: &mut Report, v: ConsensusVersion, most: usize) {
    let larger: Vec<usize> = if v == ConsensusVersion::V30 || v == ConsensusVersion::V10 {
        vec![
            100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300, 301, 333,
        ]
    } else {
        vec![333]
    };
    for a in (1..=most).chain(larger.into_iter().filter(|a| *a > most)) {
        for b in [0, 1, 2, 17] {
            for (ga, gb) in [(1, 2), (2, 1), (3, 0), (0, 3), (4, 1)] {
                if a > most && (b == 17 || ga == 2) {
                    continue;
                }
                let mut g = vec![ga; a];
                g.extend(vec![gb; b]);
                if b == 2 {
                    g.extend(vec![ga; a]);
                }
                one_payset(r, v, &g, b < 2 && gb == 2);
            }
        }
    }
}

/// Neighbouring transactions whose group IDs a sloppy comparison takes for the same.
fn near_groups(r: &mut Report, v: ConsensusVersion) {
    for base in [[1u8; 32], [0x5a; 32], hash(3).0] {
        for other in near::bytes32(base) {
            for pattern in [
                &[base, other][..],
                &[base, base, other, base],
                &[other, base, base],
                &[[0; 32], other, base, [0; 32]],
            ] {
                let mut ids = vec![];
                let mut given: Vec<[u8; 32]> = vec![];
                for g in pattern {
                    let i = if *g == [0; 32] {
                        0
                    } else {
                        1 + given.iter().position(|x| x == g).unwrap_or_else(|| {
                            given.push(*g);
                            given.len() - 1
                        })
                    };
                    ids.push(i);
                }
                payset_of(r, v, &ids, false, &|i| {
                    CryptoHash(if i == 0 { [0; 32] } else { given[i - 1] })
                });
            }
        }
    }
}

fn groups(r: &mut Report, v: ConsensusVersion, k: usize, n: usize) {
    for len in 0..=n {
        sequences(k, len, |g| one_payset(r, v, g, true));
    }
}

fn one_payset(r: &mut Report, v: ConsensusVersion, g: &[usize], every_bad: bool) {
    payset_of(r, v, g, every_bad, &group)
}

fn payset_of(
    r: &mut Report,
    v: ConsensusVersion,
    g: &[usize],
    every_bad: bool,
    group: &dyn Fn(usize) -> CryptoHash,
) {
    let h = header(v);
    let p = &CONSENSUS.0[&v];
    let len = g.len();
    r.state();
    r.steps(4);
    let case = || format!("{:?} group IDs {:?} (0 = none)", v, g);
    let sent: Vec<SignedTxWithAD> = g
        .iter()
        .enumerate()
        .map(|(i, x)| {
            let mut t = stx(blank(KINDS[i % KINDS.len()]));
            t.tx.header.group = group(*x);
            t.tx.header.fee.0 = i as u64;
            if p.require_genesis_hash {
                t.tx.header.genesis_hash = hash(1);
            }
            let mut ad = ApplyData::default();
            ad.sender_rewards.0 = 100 + i as u64;
            SignedTxWithAD { tx: t, ad }
        })
        .collect();
    let txs: Vec<SignedTx> = sent.iter().map(|s| s.tx.clone()).collect();
    // maximal runs of the same group, and every ungrouped transaction by itself
    let mut want: Vec<Vec<usize>> = vec![];
    for i in 0..len {
        if i > 0 && g[i] != 0 && g[i] == g[i - 1] {
            want.last_mut().unwrap().push(i);
        } else {
            want.push(vec![i]);
        }
    }
    if let Some(got) = r.no_panic(guard(|| signed_txs_to_group(&txs)), "group-panic", case) {
        let ids: Vec<Vec<usize>> = got
            .iter()
            .map(|v| v.iter().map(|t| t.tx.header.fee.0 as usize).collect())
            .collect();
        r.check_eq(&ids, &want, "group-split", case);
        r.outcome("grouped");
        if let Some(flat) = r.no_panic(
            guard(|| signed_tx_groups_flatten(got)),
            "flatten-panic",
            case,
        ) {
            r.check(flat == txs, "group-flatten", case, || {
                "flattening the groups does not restore the transactions".into()
            });
        }
    }
    if let Some(w) = r.no_panic(guard(|| wrap_signed_txs_with_ad(&txs)), "wrap-panic", case) {
        r.check(
            w.len() == len
                && w.iter()
                    .zip(&txs)
                    .all(|(a, b)| a.tx == *b && a.ad == ApplyData::default()),
            "wrap",
            case,
            || "wrapping changed the transactions".into(),
        );
    }
    let mut payset = vec![];
    for s in &sent {
        match guard(|| h.encode_signed_tx(s.tx.clone(), s.ad.clone())) {
            Ok(Ok(s)) => payset.push(s),
            _ => {
                return r.violation(
                    "encode-refused",
                    case(),
                    "a plain transaction could not be put into the block",
                )
            }
        }
    }
    let mut b = Block {
        header: h.clone(),
        payset: Payset(payset),
    };
    for bad in 0..=len {
        if bad < len {
            if !p.support_signed_tx_in_block || !every_bad {
                continue; // anything can be taken out of such a block
            }
            b.payset.0[bad].tx.tx.tx.header.genesis_id = "A".into(); // cannot be decoded
        }
        let groups = r.no_panic(guard(|| b.decode_payset_groups()), "payset-panic", case);
        let flat = r.no_panic(guard(|| b.decode_payset_flat()), "payset-panic", case);
        if bad < len {
            b.payset.0[bad].tx.tx.tx.header.genesis_id.clear();
            r.outcome("undecodable payset");
            r.check(
                matches!(groups, Some(Err(_))) && matches!(flat, Some(Err(_))),
                "payset-bad",
                case,
                || {
                    format!(
                        "a payset whose transaction {} cannot be decoded was decoded",
                        bad
                    )
                },
            );
            continue;
        }
        match (groups, flat) {
            (Some(Ok(gs)), Some(Ok(f))) => {
                let ids: Vec<Vec<usize>> = gs
                    .iter()
                    .map(|v| v.iter().map(|t| t.tx.tx.header.fee.0 as usize).collect())
                    .collect();
                r.check_eq(&ids, &want, "payset-groups", case);
                r.check(
                    f == sent && gs.into_iter().flatten().collect::<Vec<_>>() == sent,
                    "payset-flat",
                    case,
                    || "the decoded transactions are not those put in".into(),
                );
                r.trace();
            }
            (Some(a), Some(b)) => r.violation(
                "payset-refused",
                case(),
                format!("{:?} {:?}", a.err(), b.err()),
            ),
            _ => {}
        }
    }
}

/// What else a transaction says makes no difference to its group.
fn other_content(r: &mut Report) {
    let all: Vec<(String, SignedTx, ApplyData)> = KINDS.iter().flat_map(|k| twins(k)).collect();
    r.space("transactions with coinciding content", all.len() as u64);
    let plain = stx(blank("pay"));
    for (what, t, _) in all {
        let mut first = t.clone();
        first.tx.header.fee.0 = 1;
        let mut other = plain.clone();
        other.tx.header.group = CryptoHash(t.tx.header.sender.0);
        let txs = vec![
            first,
            t.clone(),
            plain.clone(),
            t.clone(),
            other.clone(),
            other,
            t,
        ];
        let case = || format!("{} around others", what);
        r.state();
        r.step();
        let mut want: Vec<Vec<SignedTx>> = vec![];
        for (i, t) in txs.iter().enumerate() {
            if i > 0
                && t.tx.header.group != hash(0)
                && t.tx.header.group == txs[i - 1].tx.header.group
            {
                want.last_mut().unwrap().push(t.clone());
            } else {
                want.push(vec![t.clone()]);
            }
        }
        let Some(got) = r.no_panic(guard(|| signed_txs_to_group(&txs)), "group-panic", case) else {
            continue;
        };
        r.check(got == want, "group-split", case, || {
            format!(
                "lengths {:?} instead of {:?}",
                got.iter().map(|g| g.len()).collect::<Vec<_>>(),
                want.iter().map(|g| g.len()).collect::<Vec<_>>()
            )
        });
        r.check(
            guard(|| signed_tx_groups_flatten(got)) == Ok(txs.clone()),
            "group-flatten",
            case,
            || "flattening the groups does not restore the transactions".into(),
        );
        let w = guard(|| wrap_signed_txs_with_ad(&txs));
        r.check(
            w.map_or(false, |w| {
                w.len() == txs.len()
                    && w.iter()
                        .zip(&txs)
                        .all(|(a, b)| a.tx == *b && a.ad == ApplyData::default())
            }),
            "wrap",
            case,
            || "wrapping changed the transactions".into(),
        );
    }
}

fn fees(r: &mut Report) {
    let vals: Vec<u64> = tier(
        vec![0, 1, 999, 1000, 1001, 1 << 63, u64::MAX],
        vec![
            0,
            1,
            2,
            999,
            1000,
            1001,
            3000,
            1 << 62,
            1 << 63,
            u64::MAX - 1,
            u64::MAX,
        ],
    );
    let mins = [
        0u64,
        1,
        1000,
        1001,
        (1 << 62) + 1,
        1 << 63,
        u64::MAX / 3,
        u64::MAX / 3 + 1,
        u64::MAX,
    ];
    let n = tier(4, 5);
    let k = vals.len() * 2;
    r.space(
        "fee sequences",
        format!(
            "({} fees x certificate or not)^0..{} x {} minimum fees",
            vals.len(),
            n,
            mins.len()
        ),
    );
    let jobs: Vec<u64> = mins.to_vec();
    parallel(r, jobs, |r, &min| {
        let kind_of = ["pay", "appl", "keyreg", "acfg", "axfer", "afrz"];
        let mut alphabet: Vec<SignedTx> = vec![];
        for (i, f) in vals.iter().enumerate() {
            for cert in [false, true] {
                let mut t = stx(blank(if cert {
                    "cert"
                } else {
                    kind_of[i % kind_of.len()]
                }));
                t.tx.header.fee = MicroAlgos(*f);
                alphabet.push(t);
            }
        }
        for len in 0..=n {
            sequences(k, len, |s| {
                r.state();
                r.step();
                let txs: Vec<SignedTx> = s.iter().map(|i| alphabet[*i].clone()).collect();
                let paid: u128 = s.iter().map(|i| vals[*i / 2] as u128).sum();
                let count = s.iter().filter(|i| **i % 2 == 0).count() as u128;
                let need = count * min as u128;
                let want = if need > u64::MAX as u128 || paid < need {
                    Err(())
                } else {
                    Ok((paid.min(u64::MAX as u128) - need) as u64)
                };
                let case = || {
                    format!(
                        "fees {:?} minimum {}",
                        s.iter()
                            .map(|i| (vals[*i / 2], if *i % 2 == 1 { "cert" } else { "tx" }))
                            .collect::<Vec<_>>(),
                        min
                    )
                };
                if let Some(got) = r.no_panic(guard(|| fee_credit(&txs, min)), "fee-panic", case) {
                    r.check_eq(&got, &want, "fee-credit", case);
                    r.outcome(match got {
                        Ok(0) => "exactly enough",
                        Ok(_) => "surplus",
                        Err(_) => "shortfall or overflow",
                    });
                }
                r.trace();
            });
        }
    });
}

fn ids(r: &mut Report) {
    let mut alphabet: Vec<SignedTx> = KINDS.iter().map(|k| stx(blank(k))).collect();
    let mut other = stx(blank("pay"));
    other.sig = sig(1);
    alphabet.push(other.clone());
    other.auth_addr = addr(1);
    alphabet.push(other);
    let n = tier(4, 5);
    let mut seen: HashMap<[u8; 32], Vec<usize>> = HashMap::new();
    for len in 0..=n {
        sequences(alphabet.len(), len, |s| {
            r.state();
            r.step();
            let txs: Vec<SignedTx> = s.iter().map(|i| alphabet[*i].clone()).collect();
            let case = || format!("transactions {:?}", s);
            if let Some(id) = r.no_panic(guard(|| group_id(txs).0 .0), "id-panic", case) {
                if let Some(o) = seen.insert(id, s.to_vec()) {
                    r.violation(
                        "group-id",
                        format!("{:?} and {:?}", o, s),
                        "two lists of transactions have the same group ID",
                    );
                }
                r.trace();
            }
        });
    }
    r.space("lists with distinct group IDs", seen.len() as u64);
}

fn main() {
    let _ = mc::txkit::keypair(1);
    let mut r = Report::new("C22");
    let n = tier(7, 9);
    let mut jobs: Vec<(ConsensusVersion, usize, usize)> = vec![
        (ConsensusVersion::V30, 3, n),
        (ConsensusVersion::V30, 5, tier(5, 6)),
        (ConsensusVersion::V10, 3, n - 1),
    ];
    for v in versions() {
        if CONSENSUS.0.contains_key(&v) {
            jobs.push((v, 3, tier(4, 6)));
        }
    }
    r.space("longest sequence of group IDs", n as u64);
    parallel(&mut r, jobs, |r, &(v, k, n)| groups(r, v, k, n));
    let most = tier(70, 300);
    r.space("longest groups", format!("1..{} and some numbers to 333 of transactions in one group, next to another group of 0, 1, 2 and 17", most));
    let jobs: Vec<ConsensusVersion> = versions()
        .into_iter()
        .filter(|v| CONSENSUS.0.contains_key(v))
        .collect();
    parallel(&mut r, jobs, |r, &v| {
        long_groups(r, v, most);
        near_groups(r, v);
    });
    r.space("near misses", "neighbours whose group IDs differ in one byte, in a part, in order or in cancelling changes");
    fees(&mut r);
    ids(&mut r);
    other_content(&mut r);
    mc::txkit::finish_both(r)
}
