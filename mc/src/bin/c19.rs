//@ hooks
//! C19: account balances, rewards and minimum balance follow the reference arithmetic.
//!
//! Every combination of status, balance, rewards base and level, earned rewards, resource counts
//! and parameters over boundary values, against exact arithmetic on wide integers; every sequence
//! of touching points for accumulated rewards; rounds in small full ranges and at the extremes.

use std::collections::HashMap;
use std::convert::TryFrom;

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::data::basics::units::verif_hook as units;
use algorsand::data::basics::user_balance::verif_hook::*;
use algorsand::data::basics::*;
use algorsand::protocol::ConsensusVersion;
use mc::model::sha;
use mc::txkit::{
    account_slots, addr, apply, assignments, describe, keypair, teal_kv, versions, vrf_pk,
};
use mc::*;

const STATUS: [Status; 3] = [Status::Offline, Status::Online, Status::NotParticipating];

fn params(f: impl FnOnce(&mut ConsensusParams)) -> ConsensusParams {
    let mut p = CONSENSUS.0[&ConsensusVersion::V30].clone();
    p.approved_upgrades = HashMap::new();
    f(&mut p);
    p
}

fn account(status: Status, algos: u64) -> AccountData {
    let mut a = AccountData::default();
    a.status = status;
    a.micro_algos = MicroAlgos(algos);
    a
}

fn rewards(r: &mut Report) {
    let vals: Vec<u64> = tier(
        vec![
            0,
            1,
            2,
            9,
            10,
            11,
            999_999,
            1_000_000,
            1_000_001,
            1 << 32,
            (1 << 63) - 1,
            1 << 63,
            u64::MAX - 10,
            u64::MAX - 1,
            u64::MAX,
        ],
        vec![
            0,
            1,
            2,
            3,
            9,
            10,
            11,
            19,
            20,
            999_999,
            1_000_000,
            1_000_001,
            1_999_999,
            1 << 31,
            1 << 32,
            (1 << 32) + 1,
            1 << 53,
            (1 << 63) - 1,
            1 << 63,
            (1 << 63) + 1,
            u64::MAX - 10,
            u64::MAX - 1,
            u64::MAX,
        ],
    );
    let unit: [u64; 5] = [1, 10, 1_000_000, 1 << 40, u64::MAX];
    r.space(
        "values of balance, base, level, earned x units x status",
        format!("{}^4 x {} x 3", vals.len(), unit.len()),
    );
    let jobs: Vec<(usize, u64)> = (0..3)
        .flat_map(|s| unit.iter().map(move |u| (s, *u)))
        .collect();
    let k = vals.len();
    parallel(r, jobs, |r, &(st, unit)| {
        let p = params(|p| p.reward_unit = unit);
        product(&[k, k, k], |d| {
            let (m, base, level) = (vals[d[0]], vals[d[1]], vals[d[2]]);
            let takes_part = STATUS[st] != Status::NotParticipating;
            if takes_part && level < base {
                r.outcome("level below base: outside the domain");
                return;
            }
            let earned: u128 = if takes_part {
                (m / unit) as u128 * (level - base) as u128
            } else {
                0
            };
            if takes_part && m as u128 + earned > u64::MAX as u128 {
                r.outcome("balance would overflow: outside the domain");
                return;
            }
            r.state();
            for &ever in &vals {
                let mut a = account(STATUS[st], m);
                a.rewards_base = base;
                a.rewarded_micro_algos = MicroAlgos(ever);
                a.vote_key_dilution = 5;
                a.assets.insert(
                    3,
                    AssetHolding {
                        amount: 4,
                        frozen: true,
                    },
                );
                let case = || {
                    format!(
                        "{:?} {} base {} level {} earned before {} unit {}",
                        STATUS[st], m, base, level, ever, unit
                    )
                };
                r.step();
                let u = match r.no_panic(
                    guard(|| with_updated_rewards(&a, &p, level)),
                    "panic",
                    case,
                ) {
                    Some(u) => u,
                    None => continue,
                };
                let want = if takes_part {
                    (m + earned as u64, level, ever.wrapping_add(earned as u64))
                } else {
                    (m, base, ever)
                };
                r.check_eq(
                    &(u.micro_algos.0, u.rewards_base, u.rewarded_micro_algos.0),
                    &want,
                    "rewards",
                    case,
                );
                r.check(
                    u.status == STATUS[st]
                        && u.vote_key_dilution == 5
                        && u.assets.len() == 1
                        && u.assets[&3].amount == 4,
                    "other-fields",
                    case,
                    || "adding rewards changed another field".into(),
                );
                r.outcome(if earned > 0 {
                    "earned"
                } else {
                    "earned nothing"
                });
                r.step();
                if let Some((mo, ew)) =
                    r.no_panic(guard(|| money(&a, &p, level)), "money-panic", case)
                {
                    r.check_eq(&(mo.0, ew.0), &(want.0, want.2), "money", case);
                }
                // touching again at the same level gives nothing
                if let Ok(v) = guard(|| with_updated_rewards(&u, &p, level)) {
                    r.check(
                        v.micro_algos == u.micro_algos
                            && v.rewarded_micro_algos == u.rewarded_micro_algos,
                        "twice",
                        case,
                        || "rewards of one level were paid twice".into(),
                    );
                } else {
                    r.violation("panic", case(), "touching twice panics");
                }
                r.trace();
            }
            if level >= base && (m / unit) as u128 * (level - base) as u128 <= u64::MAX as u128 {
                r.step();
                let got = guard(|| pending_rewards(&p, MicroAlgos(m), base, level).0);
                let want = (m / unit) * (level - base);
                r.check(
                    got == Ok(want),
                    "pending",
                    || format!("{} base {} level {} unit {}", m, base, level, unit),
                    || format!("{:?} instead of {}", got, want),
                );
            }
        });
    });
    // rewards between touches do not compound: all sets of levels at which an account is touched
    let n = tier(12, 16);
    let p = params(|p| p.reward_unit = 10);
    for m in [0u64, 9, 10, 19, 25, 99, 100] {
        for mask in 0..1u32 << n {
            r.state();
            let mut a = account(Status::Online, m);
            let (mut bal, mut base) = (m, 0);
            for level in 1..=n as u64 {
                if mask >> (level - 1) & 1 == 1 {
                    r.step();
                    a = with_updated_rewards(&a, &p, level);
                    bal += bal / 10 * (level - base);
                    base = level;
                }
            }
            r.check(
                a.micro_algos.0 == bal
                    && a.rewards_base == base
                    && a.rewarded_micro_algos.0 == bal - m,
                "touches",
                || format!("balance {} touched at levels {:b}", m, mask),
                || format!("balance {} instead of {}", a.micro_algos.0, bal),
            );
            r.trace();
        }
    }
    r.space("touch schedules", format!("7 x 2^{}", n));
}

fn min_balances(r: &mut Report) {
    let costs: [u64; 5] = [0, 1, 100_000, 1 << 62, u64::MAX];
    let counts: [usize; 3] = [0, 1, 3];
    let big: [u64; 4] = [0, 1, 64, u64::MAX];
    let pages: [u32; 3] = [0, 3, u32::MAX];
    // accounts by resources
    let mut accounts = vec![];
    product(&[3, 3, 3, 4, 4, 3], |d| {
        let mut a = account(Status::Online, 1);
        for i in 0..counts[d[0]] {
            a.assets.insert(
                i as u64,
                AssetHolding {
                    amount: 9,
                    frozen: false,
                },
            );
        }
        for i in 0..counts[d[1]] {
            a.app_params.insert(
                AppIndex(i as u64),
                AppParams {
                    approval_program: vec![],
                    clear_state_program: vec![],
                    global_state: teal_kv(&[]),
                    state_schemas: StateSchemas {
                        local_state_schema: StateSchema {
                            num_uint: 7,
                            num_byte_slice: 7,
                        },
                        global_state_schema: StateSchema {
                            num_uint: 7,
                            num_byte_slice: 7,
                        },
                    },
                    extra_program_pages: 7,
                },
            );
        }
        for i in 0..counts[d[2]] {
            a.app_local_states.insert(
                AppIndex(i as u64),
                AppLocalState {
                    schema: StateSchema {
                        num_uint: 5,
                        num_byte_slice: 5,
                    },
                    key_value: teal_kv(&[]),
                },
            );
        }
        a.asset_params.insert(8, mc::txkit::blank_params());
        a.total_app_schema = StateSchema {
            num_uint: big[d[3]],
            num_byte_slice: big[d[4]],
        };
        a.total_extra_app_pages = pages[d[5]];
        let w = (
            counts[d[0]] as u128,
            counts[d[1]] as u128,
            counts[d[2]] as u128,
            big[d[3]] as u128,
            big[d[4]] as u128,
            pages[d[5]] as u128,
        );
        accounts.push((a, w));
    });
    let mut ps = vec![];
    let c = tier(vec![0usize, 1, 2, 4], vec![0, 1, 2, 3, 4]);
    product(&[c.len(); 6], |d| {
        ps.push(params(|p| {
            p.min_balance = costs[c[d[0]]];
            p.app_flat_params_min_balance = costs[c[d[1]]];
            p.app_flat_opt_in_min_balance = costs[c[d[2]]];
            p.schema_min_balance_per_entry = costs[c[d[3]]];
            p.schema_uint_min_balance = costs[c[d[4]]];
            p.schema_bytes_min_balance = costs[c[d[5]]];
        }))
    });
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            ps.push(p.clone());
        }
    }
    r.space(
        "accounts by resources x cost parameters",
        format!("{}x{}", accounts.len(), ps.len()),
    );
    let jobs: Vec<usize> = (0..ps.len()).collect();
    parallel(r, jobs, |r, &j| {
        let p = &ps[j];
        for (a, w) in &accounts {
            r.state();
            r.step();
            let m = |c: u64, n: u128| (c as u128).saturating_mul(n);
            let terms = [
                m(p.min_balance, 1 + w.0),
                m(p.app_flat_params_min_balance, w.1 + w.5),
                m(p.app_flat_opt_in_min_balance, w.2),
                m(p.schema_min_balance_per_entry, w.3 + w.4),
                m(p.schema_uint_min_balance, w.3),
                m(p.schema_bytes_min_balance, w.4),
            ];
            let mut want: u128 = 0;
            for t in terms {
                want = want.saturating_add(t);
            }
            let want = want.min(u64::MAX as u128) as u64;
            let case = || {
                format!(
                    "costs {} {} {} {} {} {} resources {:?}",
                    p.min_balance,
                    p.app_flat_params_min_balance,
                    p.app_flat_opt_in_min_balance,
                    p.schema_min_balance_per_entry,
                    p.schema_uint_min_balance,
                    p.schema_bytes_min_balance,
                    w
                )
            };
            if let Some(got) = r.no_panic(guard(|| min_balance(a, p).0), "min-panic", case) {
                r.check_eq(&got, &want, "min-balance", case);
                r.outcome(if got == u64::MAX {
                    "saturated"
                } else {
                    "exact minimum"
                });
            }
            r.trace();
        }
    });
}

fn stakes(r: &mut Report) {
    let vals: Vec<u64> = vec![
        0,
        1,
        2,
        999_999,
        1_000_000,
        1_000_001,
        123_456_789_012,
        1 << 32,
        1 << 53,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - 1,
        u64::MAX,
    ];
    let units = [1u64, 10, 1_000_000, 1 << 63, u64::MAX];
    for st in STATUS {
        for &unit in &units {
            let p = params(|p| p.reward_unit = unit);
            for &base in &vals {
                let mut prev = 0;
                let mut ms = vals.clone();
                for v in &vals {
                    ms.push(v.saturating_add(1));
                    ms.push(v.saturating_sub(1));
                }
                ms.extend(0..tier(200, 5000));
                ms.sort();
                for m in ms {
                    let mut a = account(st, m);
                    a.rewards_base = base;
                    r.state();
                    r.steps(2);
                    let case = || format!("{:?} {} base {} unit {}", st, m, base, unit);
                    let stake = a.voting_stake().0;
                    r.check_eq(
                        &stake,
                        &if st == Status::Online { m } else { 0 },
                        "stake",
                        case,
                    );
                    if let Some(n) = r.no_panic(
                        guard(|| normalized_online_balance(&a, &p)),
                        "normalized-panic",
                        case,
                    ) {
                        // exact: m * unit / (base + unit), by long division so that nothing overflows
                        let den = base as u128 + unit as u128;
                        let want = if st == Status::Online {
                            (m as u128 * unit as u128 / den) as u64
                        } else {
                            0
                        };
                        r.check_eq(&n, &want, "normalized", case);
                        r.check(n <= m, "normalized-large", case, || {
                            format!("normalised balance {} exceeds the balance", n)
                        });
                        r.check(n >= prev, "normalized-order", case, || {
                            format!(
                                "normalised balance {} below that of a smaller account, {}",
                                n, prev
                            )
                        });
                        prev = n;
                        r.outcome(if n == 0 {
                            "normalised to nothing"
                        } else {
                            "normalised"
                        });
                    }
                    r.trace();
                }
            }
        }
    }
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            for d in [0u64, 1, 2, 10_000, u64::MAX] {
                let mut a = account(Status::Online, 1);
                a.vote_key_dilution = d;
                r.state();
                r.step();
                let want = if d == 0 { p.default_key_dilution } else { d };
                r.check_eq(&key_dilution(&a, p), &want, "dilution", || {
                    format!("{:?} {}", v, d)
                });
            }
        }
    }
    // status texts
    for s in STATUS {
        r.step();
        r.check(
            Status::try_from(s.to_string().as_str()) == Ok(s),
            "status",
            || s.to_string(),
            || "status text does not read back".into(),
        );
    }
    let names: Vec<String> = STATUS.iter().map(|s| s.to_string()).collect();
    r.check(
        names[0] != names[1] && names[1] != names[2] && names[0] != names[2],
        "status",
        || format!("{:?}", names),
        || "status texts coincide".into(),
    );
    for name in &names {
        for i in 0..=name.len() {
            for c in ["", " ", "x", "\0", "O", "n"] {
                for cut in 0..=1 {
                    let end = (i + cut).min(name.len());
                    let t = format!("{}{}{}", &name[..i], c, &name[end..]);
                    r.state();
                    r.step();
                    let want = STATUS
                        .iter()
                        .find(|s| s.to_string() == t)
                        .copied()
                        .ok_or(());
                    r.check(
                        Status::try_from(t.as_str()) == want,
                        "status",
                        || format!("{:?}", t),
                        || "misread status text".into(),
                    );
                }
            }
        }
    }
}

fn rounds(r: &mut Report) {
    let mut vals: Vec<u64> = (0..tier(220, 600)).collect();
    vals.extend(vec![
        9_999,
        10_000,
        10_001,
        1 << 32,
        (1 << 32) + 1,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - 2,
        u64::MAX - 1,
        u64::MAX,
    ]);
    for &a in &vals {
        for &b in &vals {
            r.state();
            let case = || format!("{} and {}", a, b);
            r.step();
            let s = guard(|| units::sub_capped(Round(a), Round(b)).0);
            r.check(s == Ok(a.saturating_sub(b)), "sub", case, || {
                format!("{:?}", s)
            });
            if b > 0 {
                r.steps(2);
                let id = guard(|| {
                    let i = Round(a).ots_id(b);
                    (i.batch, i.offset)
                });
                r.check(id == Ok((a / b, a % b)), "ots-id", case, || {
                    format!("{:?}", id)
                });
                if a.checked_add(b).is_some() {
                    let m = guard(|| units::round_up_to_multiple_of(Round(a), Round(b)).0);
                    let want = ((a as u128 + b as u128 - 1) / b as u128 * b as u128) as u64;
                    r.check(m == Ok(want), "round-up", case, || {
                        format!("{:?} instead of {}", m, want)
                    });
                    r.check(
                        matches!(m, Ok(m) if m >= a && m % b == 0 && m - a < b),
                        "round-up",
                        case,
                        || format!("{:?}", m),
                    );
                }
            }
            r.trace();
        }
    }
    for i in (0..2000u64).chain(vec![1 << 32, u64::MAX, u64::MAX - 1]) {
        r.state();
        r.step();
        let want = Address::new(algorsand::crypto::CryptoHash(sha(&[
            &b"appID"[..],
            &i.to_be_bytes(),
        ]
        .concat())));
        r.check(
            app_address(AppIndex(i)) == want,
            "app-address",
            || format!("{}", i),
            || "wrong application address".into(),
        );
    }
    r.space("pairs of rounds", (vals.len() * vals.len()) as u64);
}

/// Balance records: the hash depends on the address and on every field of the account.
fn records(r: &mut Report) {
    let slots = account_slots();
    let asg = assignments(&slots, tier(2, 3), tier(3, 4), 2);
    let mut seen: HashMap<[u8; 32], String> = HashMap::new();
    for a in &asg {
        for who in 0..2u8 {
            let mut d = AccountData::default();
            apply(&slots, a, &mut d);
            let name = format!("address {} {}", who, describe(&slots, a));
            r.state();
            r.step();
            let h = match r.no_panic(
                guard(|| balance_record_hash(addr(who), d.clone()).0),
                "record-panic",
                || name.clone(),
            ) {
                Some(h) => h,
                None => continue,
            };
            let again = balance_record_hash(addr(who), d).0;
            r.check(
                again == h,
                "record-hash",
                || name.clone(),
                || "hash of a balance record is not stable".into(),
            );
            if let Some(o) = seen.insert(h, name.clone()) {
                r.violation(
                    "record-collision",
                    format!("{} / {}", name, o),
                    "two balance records have the same hash",
                );
            }
            r.trace();
        }
    }
    r.space("balance records", seen.len() as u64);
}

fn main() {
    let _ = (keypair(1), vrf_pk(1));
    let mut r = Report::new("C19");
    rewards(&mut r);
    min_balances(&mut r);
    stakes(&mut r);
    rounds(&mut r);
    records(&mut r);
    r.assume("the rewards level is at least the account's base and the resulting balance fits 64 bits (otherwise the code deliberately panics)");
    r.assume("rounding up is only asked for values whose sum fits 64 bits");
    r.finish()
}
