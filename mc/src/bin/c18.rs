//@ hooks
//! C18: rewards are paid out of the pool and never create money.
//!
//! (1) Every combination of boundary values of all inputs of one reward step, for generic and all
//! built-in parameters, against arithmetic on 128-bit integers. (2) All histories of a small
//! economy (accounts, pool, deposits, transfers, refreshes) up to a length: whatever happens, the
//! total of pool and accounts with their earned rewards is conserved to the last microalgo.

use std::collections::HashMap;

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::data::basics::user_balance::verif_hook::{money, with_updated_rewards};
use algorsand::data::basics::{AccountData, MicroAlgos, Round, Status};
use algorsand::data::bookkeeping::RewardsState;
use algorsand::protocol::ConsensusVersion;
use mc::txkit::{addr, versions};
use mc::*;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Pure {
    level: u64,
    rate: u64,
    residue: u64,
    recalc: u64,
}

fn pure(s: &RewardsState) -> Pure {
    Pure {
        level: s.rewards_level,
        rate: s.rewards_rate,
        residue: s.rewards_residue,
        recalc: s.rewards_recalculation_round.0,
    }
}

fn real(p: Pure) -> RewardsState {
    let mut s = RewardsState::default();
    s.fee_sink = addr(1);
    s.rewards_pool = addr(2);
    s.rewards_level = p.level;
    s.rewards_rate = p.rate;
    s.rewards_residue = p.residue;
    s.rewards_recalculation_round = Round(p.recalc);
    s
}

/// One step by the rule book.
fn step(s: Pure, round: u64, p: &ConsensusParams, pool: u64, units: u64) -> Pure {
    let mut n = s;
    if round == s.recalc {
        let keep = p.min_balance as u128
            + if p.pending_residue_rewards {
                s.residue as u128
            } else {
                0
            };
        n.rate =
            ((pool as u128).saturating_sub(keep) / p.rewards_rate_refresh_interval as u128) as u64;
        n.recalc = round + p.rewards_rate_refresh_interval;
    }
    if units == 0 {
        return n;
    }
    let give = s.rate as u128 + s.residue as u128;
    if give > u64::MAX as u128 {
        return n;
    }
    let level = s.level as u128 + give / units as u128;
    if level > u64::MAX as u128 {
        return n;
    }
    n.level = level as u64;
    n.residue = (give % units as u128) as u64;
    n
}

fn one(
    r: &mut Report,
    s: Pure,
    round: u64,
    name: &str,
    p: &ConsensusParams,
    pool: u64,
    units: u64,
) {
    let case = || {
        format!(
            "{:?} round {} pool {} units {} under {}",
            s, round, pool, units, name
        )
    };
    r.state();
    r.step();
    let st = real(s);
    let got = guard(|| st.next_state(Round(round), p.clone(), MicroAlgos(pool), units));
    let got = match r.no_panic(got, "panic", case) {
        Some(g) => g,
        None => return,
    };
    let want = step(s, round, p, pool, units);
    let g = pure(&got);
    if round == s.recalc {
        r.outcome("refreshed");
    }
    r.outcome(if units == 0 {
        "nobody to reward"
    } else if g.level == s.level && g.residue == s.residue && s.rate > 0 {
        "overflow or nothing"
    } else if g.level > s.level {
        "level raised"
    } else {
        "level kept"
    });
    r.check_eq(&g, &want, "step", case);
    // stated independently of the step: nothing is created, the level never falls
    let paid = (g.level as u128)
        .wrapping_sub(s.level as u128)
        .wrapping_mul(units as u128);
    let idle = g.level == s.level && g.residue == s.residue;
    r.check(
        g.level >= s.level
            && (idle || paid + g.residue as u128 == s.rate as u128 + s.residue as u128),
        "conservation",
        case,
        || format!("gives {:?}", g),
    );
    r.check(
        units == 0 || idle || g.residue < units,
        "residue",
        case,
        || format!("residue {} of {} units", g.residue, units),
    );
    r.check(
        round == s.recalc || (g.rate == s.rate && g.recalc == s.recalc),
        "rate-changed",
        case,
        || {
            format!(
                "rate or refresh round changed outside the refresh round: {:?}",
                g
            )
        },
    );
    if round == s.recalc {
        let spend = g.rate as u128 * p.rewards_rate_refresh_interval as u128;
        r.check(
            spend == 0 || spend + p.min_balance as u128 <= pool as u128,
            "overspends",
            case,
            || format!("would spend {} of {}", spend, pool),
        );
    }
    r.check(
        got.fee_sink == st.fee_sink && got.rewards_pool == st.rewards_pool,
        "addresses",
        case,
        || "fee sink or rewards pool changed".into(),
    );
    r.trace();
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone)]
struct World {
    round: u64,
    rewards: Pure,
    pool: u64,
    accounts: Vec<AccountData>,
}

const ACTS: [&str; 9] = [
    "nothing",
    "touch 0",
    "touch 1",
    "touch 2",
    "0 pays 1",
    "1 pays 0",
    "0 pays pool",
    "0 leaves rewards",
    "pool pays 1",
];

fn participates(a: &AccountData) -> bool {
    a.status != Status::NotParticipating
}

fn units(w: &World, p: &ConsensusParams) -> u64 {
    w.accounts
        .iter()
        .filter(|a| participates(a))
        .map(|a| a.micro_algos.reward_units(p))
        .sum()
}

/// Everything there is: the pool and every account with what it has earned so far.
fn total(w: &World, p: &ConsensusParams) -> u128 {
    w.pool as u128
        + w.accounts
            .iter()
            .map(|a| money(a, p, w.rewards.level).0 .0 as u128)
            .sum::<u128>()
}

/// The next block: rewards go from the pool to the accounts' credit, then one transaction happens.
/// Returns the amount that changes hands between the outside and nobody: always zero.
fn block(w: &World, p: &ConsensusParams, act: usize) -> Result<Option<World>, String> {
    let mut n = w.clone();
    n.round += 1;
    let u = units(w, p);
    let s = real(w.rewards).next_state(Round(n.round), p.clone(), MicroAlgos(w.pool), u);
    n.rewards = pure(&s);
    let paid = (n.rewards.level as u128 - w.rewards.level as u128) * u as u128;
    if paid > w.pool as u128 {
        return Ok(None); // such a block is refused
    }
    n.pool -= paid as u64;
    let level = n.rewards.level;
    let touch = |a: &AccountData| with_updated_rewards(a, p, level);
    let pay = |n: &mut World, from: usize, to: Option<usize>, amount: u64| -> bool {
        n.accounts[from] = touch(&n.accounts[from]);
        if n.accounts[from].micro_algos.0 < amount {
            return false;
        }
        n.accounts[from].micro_algos.0 -= amount;
        match to {
            Some(t) => {
                n.accounts[t] = touch(&n.accounts[t]);
                n.accounts[t].micro_algos.0 += amount;
            }
            None => n.pool += amount,
        }
        true
    };
    let ok = match act {
        0 => true,
        1 | 2 | 3 => {
            n.accounts[act - 1] = touch(&n.accounts[act - 1]);
            true
        }
        4 => pay(&mut n, 0, Some(1), 7),
        5 => pay(&mut n, 1, Some(0), 10),
        6 => pay(&mut n, 0, None, 9),
        7 => {
            n.accounts[0] = touch(&n.accounts[0]);
            n.accounts[0].status = Status::NotParticipating;
            true
        }
        _ => {
            if n.pool < 5 {
                false
            } else {
                n.pool -= 5;
                n.accounts[1] = touch(&n.accounts[1]);
                n.accounts[1].micro_algos.0 += 5;
                true
            }
        }
    };
    Ok(if ok { Some(n) } else { None })
}

fn histories(
    r: &mut Report,
    w: &World,
    p: &ConsensusParams,
    name: &str,
    path: &mut Vec<usize>,
    depth: usize,
) {
    r.state();
    if depth == 0 {
        return;
    }
    let before = total(w, p);
    for act in 0..ACTS.len() {
        path.push(act);
        r.step();
        let case = || {
            format!(
                "{}: {}",
                name,
                path.iter().map(|a| ACTS[*a]).collect::<Vec<_>>().join(", ")
            )
        };
        match guard(|| block(w, p, act)) {
            Err(e) => r.violation("history-panic", case(), e),
            Ok(Err(e)) => r.violation("history", case(), e),
            Ok(Ok(None)) => r.outcome("block refused: not enough money"),
            Ok(Ok(Some(n))) => {
                let after = total(&n, p);
                // what is left of a division, and what accounts below one unit cannot get
                r.check(after == before, "money", &case, || {
                    format!("total money was {} and is {}", before, after)
                });
                let fixed = w.accounts.iter().zip(&n.accounts).all(|(a, b)| {
                    participates(a)
                        || participates(b)
                        || act == 4
                        || act == 5
                        || act == 6
                        || a.micro_algos == b.micro_algos
                });
                r.check(fixed, "not-participating", &case, || {
                    "an account that does not take part was rewarded".into()
                });
                r.check(n.rewards.level >= w.rewards.level, "level", &case, || {
                    "rewards level fell".into()
                });
                r.trace();
                histories(r, &n, p, name, path, depth - 1);
            }
        }
        path.pop();
    }
}

fn main() {
    let mut r = Report::new("C18");
    let base = CONSENSUS.0[&ConsensusVersion::V30].clone();
    let vals: Vec<u64> = tier(
        vec![
            0,
            1,
            2,
            7,
            99_999,
            100_001,
            1 << 32,
            (1 << 63) + 1,
            u64::MAX - 1,
            u64::MAX,
        ],
        vec![
            0,
            1,
            2,
            3,
            7,
            10,
            99_999,
            100_000,
            100_001,
            1 << 31,
            1 << 32,
            1 << 63,
            (1 << 63) + 1,
            u64::MAX - 1,
            u64::MAX,
        ],
    );
    let mut ps: Vec<(String, ConsensusParams)> = vec![];
    for min in [0u64, 100_000, u64::MAX - 1, u64::MAX] {
        for interval in [1u64, 3, 500_000, 1 << 62] {
            for pending in [false, true] {
                let mut p = base.clone();
                p.approved_upgrades = HashMap::new();
                p.min_balance = min;
                p.rewards_rate_refresh_interval = interval;
                p.pending_residue_rewards = pending;
                ps.push((
                    format!("min {} interval {} pending {}", min, interval, pending),
                    p,
                ));
            }
        }
    }
    let generic = ps.len();
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            ps.push((format!("{:?}", v), p.clone()));
        }
    }
    let k = vals.len();
    let jobs: Vec<usize> = (0..ps.len()).collect();
    parallel(&mut r, jobs, |r, &j| {
        let (name, p) = &ps[j];
        // the built-in parameters on a coarser grid
        let grid: Vec<u64> = if j < generic {
            vals.clone()
        } else {
            vals.iter().copied().step_by(2).collect()
        };
        let k = grid.len();
        product(&[k, k, k, k, k, 3], |d| {
            let s = Pure {
                level: grid[d[0]],
                rate: grid[d[1]],
                residue: grid[d[2]],
                recalc: [1000, 1000, 1001][d[5]],
            };
            let round = [1000, 1001, 1000][d[5]];
            one(r, s, round, name, p, grid[d[3]], grid[d[4]]);
        });
        for s in [
            Pure {
                level: 5,
                rate: 10,
                residue: 3,
                recalc: 0,
            },
            Pure {
                level: 5,
                rate: 10,
                residue: 3,
                recalc: 1 << 62,
            },
            Pure {
                level: 5,
                rate: 10,
                residue: 3,
                recalc: u64::MAX,
            },
        ] {
            for round in [0, 1, 1 << 62] {
                one(r, s, round, name, p, 1 << 40, 17);
            }
        }
    });
    r.space(
        "values per input (level, rate, residue, pool, units) x round",
        format!(
            "{}^5 x 3 for {} parameter sets; coarser for {} built-in ones",
            k,
            generic,
            ps.len() - generic
        ),
    );

    // small economies
    let depth = tier(6, 7);
    let mut worlds = vec![];
    for unit in [1u64, 10] {
        for interval in [1u64, 2, 3] {
            for pool in [0u64, 40, 1000] {
                for pending in [false, true] {
                    for rate in [0u64, 3, 25] {
                        worlds.push((unit, interval, pool, pending, rate));
                    }
                }
            }
        }
    }
    r.space(
        "economies x histories",
        format!("{} x {}^{}", worlds.len(), ACTS.len(), depth),
    );
    parallel(
        &mut r,
        worlds,
        |r, &(unit, interval, pool, pending, rate)| {
            let mut p = base.clone();
            p.approved_upgrades = HashMap::new();
            p.reward_unit = unit;
            p.rewards_rate_refresh_interval = interval;
            p.pending_residue_rewards = pending;
            p.min_balance = 20;
            let account = |status, m: u64| {
                let mut a = AccountData::default();
                a.status = status;
                a.micro_algos = MicroAlgos(m);
                a.rewards_base = 4;
                a
            };
            let w = World {
                round: 10,
                rewards: Pure {
                    level: 4,
                    rate,
                    residue: 2,
                    recalc: 12,
                },
                pool,
                accounts: vec![
                    account(Status::Online, 25),
                    account(Status::Offline, 9),
                    account(Status::NotParticipating, 30),
                ],
            };
            let name = format!(
                "unit {} interval {} pool {} pending residue {} rate {}",
                unit, interval, pool, pending, rate
            );
            histories(r, &w, &p, &name, &mut vec![], depth);
        },
    );
    r.assume(
        "rounds at which the rate is refreshed stay below 2^63; the refresh interval is positive",
    );
    r.assume("a block that would pay more rewards than the pool holds is refused by the ledger, which this repository does not contain");
    r.finish()
}
