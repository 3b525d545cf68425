//! C27: the consensus protocol table is internally consistent and merges predictably.
//!
//! (1) Every built-in protocol against the published parameters of the Algorand protocol versions
//! and against rules that any table must obey, all pairs of versions for upgrades and features.
//! (2) Every merge of two small tables (three versions, each absent, deleted or with any set of
//! approved upgrades). (3) Every small table saved over every other and loaded, every truncation of
//! a saved file, and the table of a fresh process with such a file in its working directory.

use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

use algorsand::config::*;
use algorsand::protocol::ConsensusVersion as V;
use mc::txkit::versions;
use mc::*;
use serde_json::{json, Value};

fn fields(p: &ConsensusParams) -> BTreeMap<String, Value> {
    match serde_json::to_value(p).expect("parameters as JSON") {
        Value::Object(m) => m
            .into_iter()
            .filter(|(k, _)| k != "approved_upgrades")
            .collect(),
        _ => panic!("parameters are no object"),
    }
}

fn upgrades(p: &ConsensusParams) -> BTreeMap<String, u64> {
    p.approved_upgrades
        .iter()
        .map(|(v, d)| (format!("{:?}", v), *d))
        .collect()
}

/// The published protocols: what each version changes, and what it may be upgraded to.
fn published() -> Vec<(&'static str, Value, Vec<(&'static str, u64)>)> {
    let secs = |s: u64| json!({ "secs": s, "nanos": 0 });
    vec![
        (
            "V7",
            json!({
                "upgrade_vote_rounds": 10000, "upgrade_threshold": 9000, "default_upgrade_wait_rounds": 10000,
                "max_version_string_len": 64, "min_balance": 10000, "min_tx_fee": 1000, "max_tx_life": 1000,
                "max_tx_note_bytes": 1024, "max_tx_bytes_per_block": 1000000, "default_key_dilution": 10000,
                "max_timestamp_increment": 25, "reward_unit": 1000000, "rewards_rate_refresh_interval": 500000,
                "num_proposers": 30, "soft_committee_size": 2500, "soft_committee_threshold": 1870,
                "cert_committee_size": 1000, "cert_committee_threshold": 720,
                "next_committee_size": 10000, "next_committee_threshold": 7750,
                "late_committee_size": 10000, "late_committee_threshold": 7750,
                "redo_committee_size": 10000, "redo_committee_threshold": 7750,
                "down_committee_size": 10000, "down_committee_threshold": 7750,
                "agreement_filter_timeout": secs(4), "agreement_filter_timeout_period0": secs(4),
                "fast_recovery_lambda": secs(300), "seed_lookback": 2, "seed_refresh_interval": 100,
                "max_bal_lookback": 320, "max_tx_group_size": 1, "payset_commit": "Unsupported"
            }),
            vec![("V8", 0)],
        ),
        (
            "V8",
            json!({
                "seed_refresh_interval": 80, "num_proposers": 9, "soft_committee_size": 2990, "soft_committee_threshold": 2267,
                "cert_committee_size": 1500, "cert_committee_threshold": 1112,
                "next_committee_size": 5000, "next_committee_threshold": 3838,
                "late_committee_size": 5000, "late_committee_threshold": 3838,
                "redo_committee_size": 5000, "redo_committee_threshold": 3838,
                "down_committee_size": 5000, "down_committee_threshold": 3838
            }),
            vec![("V9", 0)],
        ),
        ("V9", json!({ "min_balance": 100000 }), vec![("V10", 0)]),
        (
            "V10",
            json!({
                "fast_partition_recovery": true, "num_proposers": 20, "late_committee_size": 500, "late_committee_threshold": 320,
                "redo_committee_size": 2400, "redo_committee_threshold": 1768, "down_committee_size": 6000, "down_committee_threshold": 4560
            }),
            vec![("V11", 0)],
        ),
        (
            "V11",
            json!({ "support_signed_tx_in_block": true, "payset_commit": "Flat" }),
            vec![("V12", 0)],
        ),
        (
            "V12",
            json!({ "max_version_string_len": 128 }),
            vec![("V13", 0)],
        ),
        ("V13", json!({}), vec![("V14", 0)]),
        (
            "V14",
            json!({ "apply_data": true, "support_genesis_hash": true }),
            vec![("V15", 0)],
        ),
        (
            "V15",
            json!({ "rewards_in_apply_data": true, "force_non_participating_fee_sink": true }),
            vec![("V16", 0)],
        ),
        (
            "V16",
            json!({ "credential_domain_separation_enabled": true, "require_genesis_hash": true }),
            vec![("V17", 0)],
        ),
        ("V17", json!({}), vec![("V19", 0)]),
        (
            "V18",
            json!({
                "pending_residue_rewards": true, "tx_counter": true, "asset": true, "logic_sig_version": 1,
                "logic_sig_max_size": 1000, "logic_sig_max_cost": 20000, "max_assets_per_account": 1000,
                "support_tx_groups": true, "max_tx_group_size": 16, "support_transaction_leases": true,
                "support_become_non_participating_transactions": true,
                "max_asset_name_bytes": 32, "max_asset_unit_name_bytes": 8, "max_asset_url_bytes": 32
            }),
            vec![("V19", 0)],
        ),
        ("V19", json!({}), vec![("V20", 0)]),
        (
            "V20",
            json!({ "max_asset_decimals": 19, "default_upgrade_wait_rounds": 140000 }),
            vec![("V21", 0)],
        ),
        ("V21", json!({}), vec![("V23", 0)]),
        (
            "V22",
            json!({ "min_upgrade_wait_rounds": 10000, "max_upgrade_wait_rounds": 150000 }),
            vec![("V23", 10000)],
        ),
        (
            "V23",
            json!({ "fix_transaction_leases": true }),
            vec![("V24", 140000)],
        ),
        (
            "V24",
            json!({
                "logic_sig_version": 2, "application": true, "support_rekeying": true, "maximum_minimum_balance": 100100000,
                "max_app_args": 16, "max_app_total_arg_len": 2048, "max_app_program_len": 1024, "max_app_total_program_len": 2048,
                "max_app_key_len": 64, "max_app_bytes_value_len": 64, "max_app_sum_key_value_lens": 128,
                "app_flat_params_min_balance": 100000, "app_flat_opt_in_min_balance": 100000, "max_app_tx_accounts": 4,
                "max_app_tx_foreign_apps": 2, "max_app_tx_foreign_assets": 2, "max_app_total_tx_references": 8,
                "schema_min_balance_per_entry": 25000, "schema_uint_min_balance": 3500, "schema_bytes_min_balance": 25000,
                "max_local_schema_entries": 16, "max_global_schema_entries": 64, "max_app_program_cost": 700,
                "max_apps_created": 10, "max_apps_opted_in": 10
            }),
            vec![("V26", 140000)],
        ),
        (
            "V25",
            json!({ "enable_asset_close_amount": true }),
            vec![("V26", 140000)],
        ),
        (
            "V26",
            json!({ "initial_rewards_rate_calculation": true, "payset_commit": "Merkle", "logic_sig_version": 3 }),
            vec![("V27", 60000)],
        ),
        (
            "V27",
            json!({ "no_empty_local_deltas": true }),
            vec![("V28", 140000)],
        ),
        (
            "V28",
            json!({
                "logic_sig_version": 4, "max_extra_app_program_pages": 3, "max_app_program_len": 2048, "max_asset_url_bytes": 96,
                "max_app_bytes_value_len": 128, "max_app_tx_foreign_apps": 8, "max_app_tx_foreign_assets": 8,
                "enable_fee_pooling": true, "enable_keyreg_coherency_check": true
            }),
            vec![("V29", 60000)],
        ),
        (
            "V29",
            json!({ "enable_extra_pages_on_app_update": true }),
            vec![("V30", 140000)],
        ),
        (
            "V30",
            json!({ "logic_sig_version": 5, "enable_app_cost_pooling": true, "max_inner_transactions": 16, "max_apps_opted_in": 50 }),
            vec![],
        ),
    ]
}

fn table(r: &mut Report) {
    let mut want: BTreeMap<String, Value> = BTreeMap::new();
    for (name, changes, ups) in published() {
        for (k, v) in changes.as_object().unwrap() {
            want.insert(k.clone(), v.clone());
        }
        r.state();
        let v: V = serde_json::from_value(json!(name)).expect("version");
        let p = match CONSENSUS.0.get(&v) {
            Some(p) => p,
            None => {
                r.violation("missing", name, "the table lacks this version");
                continue;
            }
        };
        for (k, got) in fields(p) {
            r.step();
            // what no version up to here has set is off
            let ok = match want.get(&k) {
                Some(w) => *w == got,
                None => got == json!(0) || got == json!(false),
            };
            r.check(
                ok,
                "published-parameters",
                || format!("{}.{}", name, k),
                || format!("{} instead of {:?}", got, want.get(&k)),
            );
        }
        let ups: BTreeMap<String, u64> = ups.iter().map(|(v, d)| (v.to_string(), *d)).collect();
        r.check_eq(&upgrades(p), &ups, "published-upgrades", || {
            name.to_string()
        });
        r.trace();
    }
    let order: Vec<V> = versions();
    let pos = |v: &V| order.iter().position(|x| x == v).unwrap();
    let mut names = BTreeSet::new();
    for v in &order {
        r.check(
            names.insert(v.to_string()),
            "names",
            || format!("{:?}", v),
            || "its name is that of another version".into(),
        );
    }
    for (v, p) in &CONSENSUS.0 {
        r.state();
        let name = format!("{:?}", v);
        let mut rule = |ok: bool, what: &str| {
            r.step();
            r.check(
                ok,
                "consistency",
                || format!("{} {}", name, what),
                || "violated".into(),
            );
        };
        rule(
            p.upgrade_vote_rounds > 0
                && p.upgrade_threshold <= p.upgrade_vote_rounds
                && p.upgrade_threshold * 2 > p.upgrade_vote_rounds,
            "upgrade threshold is a reachable majority",
        );
        rule(
            p.min_upgrade_wait_rounds <= p.max_upgrade_wait_rounds,
            "upgrade window",
        );
        rule(p.default_upgrade_wait_rounds > 0, "default upgrade delay");
        for (size, threshold, what) in [
            (p.soft_committee_size, p.soft_committee_threshold, "soft"),
            (p.cert_committee_size, p.cert_committee_threshold, "cert"),
            (p.next_committee_size, p.next_committee_threshold, "next"),
            (p.late_committee_size, p.late_committee_threshold, "late"),
            (p.redo_committee_size, p.redo_committee_threshold, "redo"),
            (p.down_committee_size, p.down_committee_threshold, "down"),
        ] {
            rule(
                threshold <= size && threshold * 2 > size,
                &format!("{} threshold is a reachable majority", what),
            );
        }
        rule(p.num_proposers > 0, "proposers");
        rule(
            p.max_tx_group_size >= 1 && (p.support_tx_groups == (p.max_tx_group_size > 1)),
            "group size",
        );
        rule(
            p.min_balance > 0
                && p.min_tx_fee > 0
                && p.max_tx_life > 0
                && p.max_tx_bytes_per_block > p.max_tx_note_bytes,
            "limits",
        );
        rule(
            p.reward_unit > 0 && p.rewards_rate_refresh_interval > 0 && p.default_key_dilution > 0,
            "divisors",
        );
        rule(
            p.seed_lookback > 0
                && p.seed_refresh_interval > 0
                && (*v == V::V7
                    || p.max_bal_lookback >= 2 * p.seed_lookback * p.seed_refresh_interval),
            "lookbacks",
        );
        rule(
            !p.require_genesis_hash || p.support_genesis_hash,
            "genesis hash",
        );
        rule(
            !p.support_signed_tx_in_block || p.payset_commit != PaysetCommitType::Unsupported,
            "payset commitment",
        );
        rule(!p.apply_data || p.support_signed_tx_in_block, "apply data");
        rule(
            !p.fix_transaction_leases || p.support_transaction_leases,
            "leases",
        );
        rule(
            p.application
                == (p.max_app_program_len > 0
                    && p.max_app_key_len > 0
                    && p.schema_min_balance_per_entry > 0),
            "applications",
        );
        rule(p.asset == (p.max_assets_per_account > 0), "assets");
        rule(
            (p.logic_sig_version > 0) == (p.logic_sig_max_size > 0 && p.logic_sig_max_cost > 0),
            "logic signatures",
        );
        rule(
            p.max_app_total_tx_references
                >= p.max_app_tx_accounts
                    .max(p.max_app_tx_foreign_apps)
                    .max(p.max_app_tx_foreign_assets),
            "references",
        );
        rule(
            p.max_app_sum_key_value_lens >= p.max_app_key_len.max(p.max_app_bytes_value_len),
            "key and value lengths",
        );
        rule(
            (p.compact_cert_rounds > 0)
                == (p.compact_cert_top_voters > 0
                    && p.compact_cert_voters_lookback > 0
                    && p.compact_cert_weight_threshold > 0
                    && p.compact_cert_sec_kq > 0),
            "compact certificates",
        );
        rule(
            p.compact_cert_rounds == 0 || p.compact_cert_voters_lookback < p.compact_cert_rounds,
            "compact certificate lookback",
        );
        for (next, delay) in &p.approved_upgrades {
            rule(
                CONSENSUS.0.contains_key(next),
                "approved upgrade is supported",
            );
            rule(pos(next) > pos(v), "approved upgrade is newer");
            rule(
                *delay >= p.min_upgrade_wait_rounds && *delay <= p.max_upgrade_wait_rounds,
                "approved delay is inside the window",
            );
            rule(
                next.to_string().len() <= p.max_version_string_len as usize,
                "approved upgrade's name fits",
            );
        }
        // features are never taken back; everything but the newest leads on to the newest
        let mut at = *v;
        for _ in 0..order.len() {
            if let Some(n) = CONSENSUS
                .0
                .get(&at)
                .and_then(|p| p.approved_upgrades.keys().max_by_key(|n| pos(n)))
            {
                at = *n;
            }
        }
        rule(
            at == algorsand::protocol::CURRENT_CONSENSUS_VERSION || *v == V::Future,
            "upgrades lead to the current version",
        );
        let own = fields(p);
        for (w, q) in &CONSENSUS.0 {
            if pos(w) > pos(v) {
                let other = fields(q);
                for (k, x) in &own {
                    if *x == json!(true) {
                        rule(
                            other.get(k) == Some(&json!(true)),
                            &format!("{} is still on in {:?}", k, w),
                        );
                    }
                }
                rule(
                    p.logic_sig_version <= q.logic_sig_version,
                    "logic signature versions grow",
                );
            }
        }
        r.trace();
    }
    r.check(
        CONSENSUS
            .0
            .contains_key(&algorsand::protocol::CURRENT_CONSENSUS_VERSION),
        "current",
        || "current version".into(),
        || "not supported".into(),
    );
    r.space("table", format!("{} protocols", CONSENSUS.0.len()));
}

// ---------------------------------------------------------------------------------------------

/// What a small table says about one version: nothing, or a marker and its approved upgrades.
type Small = [Option<(u64, BTreeMap<usize, u64>)>; 3];
const ABC: [V; 3] = [V::V28, V::V29, V::V30];

fn all_small() -> Vec<Small> {
    let mut out = vec![];
    product(&[9, 9, 9], |d| {
        let mut s: Small = [None, None, None];
        for i in 0..3 {
            if d[i] > 0 {
                let set = d[i] - 1;
                s[i] = Some((
                    0,
                    (0..3)
                        .filter(|b| set >> b & 1 == 1)
                        .map(|b| (b, 10 * i as u64 + b as u64))
                        .collect(),
                ));
            }
        }
        out.push(s);
    });
    out
}

fn make(s: &Small, mark: u64) -> ConsensusProtocols {
    let mut t = ConsensusProtocols::default();
    for i in 0..3 {
        if let Some((_, ups)) = &s[i] {
            let mut p = ConsensusParams::default();
            p.min_balance = mark;
            p.max_tx_life = i as u64;
            p.approved_upgrades = ups.iter().map(|(b, d)| (ABC[*b], d + mark)).collect();
            t.0.insert(ABC[i], p);
        }
    }
    t
}

/// A table as comparable content.
type Content = BTreeMap<String, (u64, u64, BTreeMap<String, u64>)>;

fn content(t: &ConsensusProtocols) -> Content {
    t.0.iter()
        .map(|(v, p)| {
            (
                format!("{:?}", v),
                (p.min_balance, p.max_tx_life, upgrades(p)),
            )
        })
        .collect()
}

fn merged(base: &Content, over: &Content) -> Content {
    let mut out = base.clone();
    let mut gone = vec![];
    for (v, p) in over {
        if p.2.is_empty() {
            out.remove(v);
            gone.push(v.clone());
        } else {
            out.insert(v.clone(), p.clone());
        }
    }
    for p in out.values_mut() {
        for g in &gone {
            p.2.remove(g);
        }
    }
    out
}

fn merging(r: &mut Report) {
    let all = all_small();
    let all = &all;
    let jobs: Vec<usize> = (0..all.len()).collect();
    parallel(r, jobs, |r, &i| {
        let mut base = make(&all[i], 1);
        let before = content(&base);
        for o in all {
            r.state();
            r.step();
            let over = make(o, 1000);
            let want = merged(&before, &content(&over));
            let case = || format!("{:?} with {:?}", before, content(&over));
            let got = guard(|| {
                let m = base.merge(over.clone());
                content(&m)
            });
            r.check(got.as_ref() == Ok(&want), "merge", case, || {
                format!("{:?} instead of {:?}", got, want)
            });
            r.check(content(&base) == before, "merge-input", case, || {
                "the table merged onto changed".into()
            });
            r.outcome(if want == before {
                "nothing changes"
            } else if want.len() < before.len() {
                "versions deleted"
            } else {
                "versions added or changed"
            });
        }
        r.trace();
    });
    // many versions that all approve upgrades to all others, of which every subset is deleted
    let abc = [
        V::V22,
        V::V23,
        V::V24,
        V::V25,
        V::V26,
        V::V27,
        V::V28,
        V::V29,
        V::V30,
    ];
    let n = tier(7, 9);
    let wide = |which: &dyn Fn(usize) -> Option<bool>, mark: u64| {
        let mut t = ConsensusProtocols::default();
        for i in 0..n {
            if let Some(keep) = which(i) {
                let mut p = ConsensusParams::default();
                p.min_balance = mark;
                p.max_tx_life = i as u64;
                if keep {
                    p.approved_upgrades = (0..n)
                        .filter(|j| *j != i)
                        .map(|j| (abc[j], mark + (10 * i + j) as u64))
                        .collect();
                }
                t.0.insert(abc[i], p);
            }
        }
        t
    };
    product(&vec![3; n], |d| {
        let mut base = wide(&|_| Some(true), 1);
        let before = content(&base);
        let over = wide(&|i| [None, Some(false), Some(true)][d[i] as usize], 1000);
        let want = merged(&before, &content(&over));
        let case = || {
            format!(
                "{} versions that approve each other, changed as {:?} (1 deleted, 2 replaced)",
                n, d
            )
        };
        r.state();
        r.step();
        let got = guard(|| content(&base.merge(over.clone())));
        r.check(got.as_ref() == Ok(&want), "merge", case, || {
            format!("{:?} instead of {:?}", got, want)
        });
    });
    r.space(
        "merges of many versions",
        format!("all deletions and replacements among {}", n),
    );
    r.space(
        "merges",
        format!("all pairs of {} tables over 3 versions", all.len()),
    );
}

fn files(r: &mut Report) {
    let all = all_small();
    let root = scratch("tables");
    let base_small: Small = {
        let mut s: Small = [None, None, None];
        s[0] = Some((0, [(1, 5), (2, 6)].iter().copied().collect()));
        s[1] = Some((0, [(2, 7)].iter().copied().collect()));
        s
    };
    let mut base = make(&base_small, 1);
    let before = content(&base);
    let dir = root.to_str().unwrap().to_string();
    let file = root.join("consensus.json");
    let read = |b: &mut ConsensusProtocols, d: &str| {
        guard(|| {
            preload_configurable_consensus_protocols(d, b)
                .map(|t| content(&t))
                .map_err(|e| e.to_string())
        })
    };
    // each saved over the previous one, long over short and short over long
    for round in 0..2 {
        let list: Vec<&Small> = if round == 0 {
            all.iter().collect()
        } else {
            all.iter().rev().collect()
        };
        for s in list {
            r.state();
            r.steps(3);
            let over = make(s, 1000);
            let case = || format!("{:?}", content(&over));
            let saved = guard(|| save_configurable_consensus(&dir, over.clone()).is_ok());
            r.check(saved == Ok(true), "save", case, || format!("{:?}", saved));
            r.check(
                file.exists() == !over.0.is_empty(),
                "save-file",
                case,
                || "there is a file exactly if there are protocols".into(),
            );
            let want = merged(&before, &content(&over));
            let got = read(&mut base, &dir);
            r.check(got == Ok(Ok(want.clone())), "preload", case, || {
                format!("{:?} instead of {:?}", got, want)
            });
            r.check(content(&base) == before, "preload-input", case, || {
                "the table changed".into()
            });
            if !want.is_empty() {
                let mut t = base.clone();
                let got = guard(|| load_configurable_consensus_protocols(&dir, &mut t).is_ok());
                r.check(got == Ok(true) && content(&t) == want, "load", case, || {
                    format!("{:?} {:?}", got, content(&t))
                });
            }
            // the saved table itself comes back on an empty one, but for what it deletes
            let mut empty = ConsensusProtocols::default();
            let got = read(&mut empty, &dir);
            r.check(
                got == Ok(Ok(merged(&Content::new(), &content(&over)))),
                "load-alone",
                case,
                || format!("{:?}", got),
            );
            r.trace();
        }
    }
    // the real table, in full
    let real = CONSENSUS.clone();
    let ok = guard(|| save_configurable_consensus(&dir, real.clone()).is_ok());
    r.check(
        ok == Ok(true),
        "save",
        || "the built-in table".into(),
        || "refused".into(),
    );
    let got = guard(|| {
        preload_configurable_consensus_protocols(&dir, &mut ConsensusProtocols::default())
            .map(|t| {
                t.0.iter()
                    .map(|(v, p)| (format!("{:?}", v), fields(p), upgrades(p)))
                    .collect::<Vec<_>>()
            })
            .map_err(|e| e.to_string())
    });
    if let Ok(Ok(list)) = &got {
        for (v, f, u) in list {
            r.step();
            let key: V = serde_json::from_value(json!(v)).unwrap();
            r.check(
                fields(&real.0[&key]) == *f
                    && upgrades(&real.0[&key]).iter().all(|(k, d)| {
                        u.get(k) == Some(d)
                            || real.0[&serde_json::from_value::<V>(json!(k)).unwrap()]
                                .approved_upgrades
                                .is_empty()
                    }),
                "load-builtin",
                || v.clone(),
                || "changed".into(),
            );
        }
        // versions without upgrades are marked for deletion by that
        let want = real
            .0
            .values()
            .filter(|p| !p.approved_upgrades.is_empty())
            .count();
        r.check(
            list.len() == want,
            "load-builtin",
            || "number".into(),
            || format!("{} of {}", list.len(), want),
        );
    } else {
        r.violation(
            "load-builtin",
            "the built-in table",
            format!("{:?}", got.map(|g| g.map(|_| ()))),
        );
    }
    // saving in a directory that is not there
    let gone = root.join("nowhere").to_str().unwrap().to_string();
    let res = guard(|| save_configurable_consensus(&gone, make(&base_small, 1)).is_err());
    r.check(
        res == Ok(true),
        "save-nowhere",
        || gone.clone(),
        || format!("{:?}", res),
    );
    let res = guard(|| save_configurable_consensus(&gone, ConsensusProtocols::default()).is_ok());
    r.check(
        res == Ok(true),
        "save-nothing-nowhere",
        || gone.clone(),
        || format!("{:?}", res),
    );
    let res = read(&mut base, &gone);
    r.check(
        res == Ok(Ok(before.clone())),
        "load-nowhere",
        || gone.clone(),
        || format!("{:?}", res),
    );
    // every truncation, and other malformed files
    save_configurable_consensus(&dir, make(&all[all.len() - 1], 1000)).unwrap();
    let bytes = std::fs::read(&file).unwrap();
    let mut bad: Vec<Vec<u8>> = (0..bytes.len())
        .step_by(tier(3, 1))
        .map(|n| bytes[..n].to_vec())
        .collect();
    bad.push(b"[]".to_vec());
    bad.push(b"null".to_vec());
    bad.push(b"{\"V30\": 3}".to_vec());
    bad.push(b"{\"V99\": {}}".to_vec());
    bad.push(vec![0xff; 40]);
    for b in &bad {
        r.state();
        r.steps(2);
        std::fs::write(&file, b).unwrap();
        let got = read(&mut base, &dir);
        let case = || {
            format!(
                "{} bytes: {}",
                b.len(),
                String::from_utf8_lossy(&b[..b.len().min(40)])
            )
        };
        r.check(matches!(got, Ok(Err(_))), "malformed", case, || {
            format!("{:?}", got)
        });
        let mut t = base.clone();
        let got = guard(|| load_configurable_consensus_protocols(&dir, &mut t).is_err());
        r.check(
            got == Ok(true) && content(&t) == before,
            "malformed",
            case,
            || format!("{:?}", got),
        );
        r.trace();
    }
    r.space(
        "files",
        format!(
            "{} tables saved in both orders, {} malformed files",
            all.len(),
            bad.len()
        ),
    );
}

/// The table that a fresh process finds.
fn child() {
    for (v, p) in &CONSENSUS.0 {
        out(&format!(
            "{:?} {}",
            v,
            json!([p.min_balance, p.max_tx_life, upgrades(p)])
        ));
    }
}

fn processes(r: &mut Report) {
    let read = |dir: &Path| -> std::result::Result<BTreeMap<String, String>, String> {
        let (rc, so, se) = run_self(&["child"], dir, &[], 60);
        if rc != Some(0) {
            return Err(format!(
                "exit {:?}: {}",
                rc,
                se.lines().last().unwrap_or("")
            ));
        }
        Ok(so
            .lines()
            .filter_map(|l| {
                l.split_once(' ')
                    .map(|(a, b)| (a.to_string(), b.to_string()))
            })
            .collect())
    };
    let built: BTreeMap<String, String> = CONSENSUS
        .0
        .iter()
        .map(|(v, p)| {
            (
                format!("{:?}", v),
                json!([p.min_balance, p.max_tx_life, upgrades(p)]).to_string(),
            )
        })
        .collect();
    let all = all_small();
    let step = tier(97, 7);
    for (n, s) in all.iter().enumerate().step_by(step) {
        r.state();
        r.step();
        let dir = scratch(&format!("process{}", n));
        let over = make(s, 1000);
        save_configurable_consensus(dir.to_str().unwrap(), over.clone()).unwrap();
        let mut want = built.clone();
        let mut base: BTreeMap<String, (u64, u64, BTreeMap<String, u64>)> = content(&CONSENSUS);
        base = merged(&base, &content(&over));
        want.clear();
        for (v, (a, b, u)) in base {
            want.insert(v, json!([a, b, u]).to_string());
        }
        let got = read(&dir);
        r.check(
            got.as_ref() == Ok(&want),
            "process",
            || format!("{:?}", content(&over)),
            || {
                format!(
                    "{:?}",
                    got.as_ref().map(|g| g
                        .iter()
                        .filter(|(k, v)| want.get(*k) != Some(v))
                        .map(|(k, v)| format!("{} {}", k, v))
                        .collect::<Vec<_>>())
                )
            },
        );
        r.trace();
        let _ = std::fs::remove_dir_all(&dir);
    }
    let dir = scratch("process");
    let got = read(&dir);
    r.check(
        got.as_ref() == Ok(&built),
        "process",
        || "no file".into(),
        || format!("{:?}", got),
    );
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("child") && std::env::var("VERIF_CHILD").is_ok() {
        return child();
    }
    let mut r = Report::new("C27");
    table(&mut r);
    merging(&mut r);
    files(&mut r);
    processes(&mut r);
    r.finish()
}
