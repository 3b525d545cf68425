//! C16: a proposed successor block passes validation and every corrupted one fails.
//!
//! All predecessors over versions x rounds x timestamps x phases of an upgrade x genesis IDs and
//! hashes; for each one the block made as its successor, the successors the rules allow, and every
//! corruption of one (on a smaller set of predecessors: of two) header fields. The verdict of the
//! succession check is compared with the rules, and the error with the faults there are.

use std::time::{SystemTime, UNIX_EPOCH};

use algorsand::crypto::{hash_obj, CryptoHash};
use algorsand::data::basics::Round;
use algorsand::data::bookkeeping::{Block, BlockHeader, UpgradeState, UpgradeVote};
use algorsand::data::committee::Seed;
use algorsand::protocol::{self, ConsensusVersion};
use mc::txkit::{addr, hash, versions};
use mc::upgrade::*;
use mc::*;

fn now() -> u64 {
    SystemTime::now()
        .duration_since(UNIX_EPOCH)
        .unwrap()
        .as_secs()
}

const PHASES: [&str; 9] = [
    "quiet",
    "voting",
    "voting on an unknown one",
    "fails next",
    "approved next",
    "waiting",
    "switches next",
    "switches to an unsupported one",
    "extreme deadlines",
];

/// A successor version for tests: the first approved one, or V30.
fn target(v: ConsensusVersion) -> ConsensusVersion {
    params(v)
        .and_then(|p| p.approved_upgrades.keys().next().copied())
        .unwrap_or(ConsensusVersion::V30)
}

fn state(v: ConsensusVersion, phase: usize, r: u64) -> UpgradeState {
    let mut s = UpgradeState {
        current_protocol: v,
        ..UpgradeState::default()
    };
    let th = params(v).map_or(1, |p| p.upgrade_threshold);
    let mut pending = |next, approvals, before: u64, on: u64| {
        s.next_protocol = Some(next);
        s.next_protocol_approvals = approvals;
        s.next_protocol_vote_before = Round(before);
        s.next_protocol_switch_on = Round(on);
    };
    let at = |n: u64| r.saturating_add(n);
    let t = target(v);
    match phase {
        0 => {}
        1 => pending(t, 1, at(5), at(10)),
        2 => pending(ConsensusVersion::V7, 1, at(5), at(10)),
        3 => pending(t, th - 1, at(1), at(4)),
        4 => pending(t, th, at(1), at(4)),
        5 => pending(t, th, r, at(4)),
        6 => pending(t, th, r, at(1)),
        7 => pending(ConsensusVersion::DeprecatedV3, th, r, at(1)),
        _ => pending(t, 1, u64::MAX, u64::MAX),
    }
    s
}

fn prev(v: ConsensusVersion, round: u64, ts: u64, phase: usize, id: usize, gh: u8) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.round = Round(round);
    h.timestamp = ts;
    h.genesis_id = ["", "A"][id].into();
    h.genesis_hash = hash(gh);
    h.branch = hash(9);
    h.seed = Seed([5; 32]);
    h.tx_root = hash(8);
    h.tx_counter = 77;
    h.rewards_state.fee_sink = addr(1);
    h.rewards_state.rewards_pool = addr(2);
    h.rewards_state.rewards_level = 3;
    h.upgrade_state = state(v, phase, round);
    h.upgrade_vote.upgrade_propose = v;
    h
}

/// The header the rules ask for, with a vote that does nothing; `None` if there cannot be any.
fn successor(p: &BlockHeader) -> Option<BlockHeader> {
    let vote = UpgradeVote {
        upgrade_propose: p.upgrade_state.current_protocol,
        ..UpgradeVote::default()
    };
    let round = p.round.0.checked_add(1)?;
    let s = apply(&p.upgrade_state, round, &vote).ok()?;
    let mut h = BlockHeader::default();
    h.round = Round(round);
    h.branch = hash_obj(p);
    h.timestamp = p.timestamp;
    h.genesis_id = p.genesis_id.clone();
    h.genesis_hash = p.genesis_hash.clone();
    h.upgrade_state = s;
    h.upgrade_vote = vote;
    Some(h)
}

type Edit = (&'static str, fn(&BlockHeader, &mut BlockHeader));

fn edits() -> Vec<Edit> {
    fn inc(p: &BlockHeader) -> u64 {
        params(p.upgrade_state.current_protocol).map_or(25, |p| p.max_timestamp_increment)
    }
    vec![
        ("none", |_, _| {}),
        ("round+1", |_, n| n.round.0 = n.round.0.wrapping_add(1)),
        ("round-1", |_, n| n.round.0 = n.round.0.wrapping_sub(1)),
        ("round 0", |_, n| n.round.0 = 0),
        ("round max", |_, n| n.round.0 = u64::MAX),
        ("branch bit 0", |_, n| n.branch.0[0] ^= 1),
        ("branch bit 255", |_, n| n.branch.0[31] ^= 128),
        ("branch zero", |_, n| n.branch = CryptoHash::default()),
        ("branch of grandparent", |p, n| n.branch = p.branch.clone()),
        ("protocol V0", |_, n| {
            n.upgrade_state.current_protocol = ConsensusVersion::DeprecatedV0
        }),
        ("protocol V24", |_, n| {
            n.upgrade_state.current_protocol = ConsensusVersion::V24
        }),
        ("protocol future", |_, n| {
            n.upgrade_state.current_protocol = ConsensusVersion::Future
        }),
        ("next none", |_, n| n.upgrade_state.next_protocol = None),
        ("next V25", |_, n| {
            n.upgrade_state.next_protocol = Some(ConsensusVersion::V25)
        }),
        ("approvals+1", |_, n| {
            n.upgrade_state.next_protocol_approvals += 1
        }),
        ("approvals 0", |_, n| {
            n.upgrade_state.next_protocol_approvals = 0
        }),
        ("vote before+1", |_, n| {
            n.upgrade_state.next_protocol_vote_before.0 ^= 1
        }),
        ("switch on+1", |_, n| {
            n.upgrade_state.next_protocol_switch_on.0 ^= 1
        }),
        ("whole previous state", |p, n| {
            n.upgrade_state = p.upgrade_state.clone()
        }),
        ("vote approve", |_, n| n.upgrade_vote.upgrade_approve = true),
        ("vote delay", |_, n| {
            n.upgrade_vote.upgrade_delay = Round(20000)
        }),
        ("vote delay max", |_, n| {
            n.upgrade_vote.upgrade_delay = Round(u64::MAX)
        }),
        ("vote propose", |_, n| {
            n.upgrade_vote.upgrade_propose = ConsensusVersion::V26
        }),
        ("vote propose unsupported", |_, n| {
            n.upgrade_vote.upgrade_propose = ConsensusVersion::DeprecatedV1
        }),
        ("consistent vote", |p, n| {
            let vote = UpgradeVote {
                upgrade_propose: target(p.upgrade_state.current_protocol),
                upgrade_delay: Round(20000),
                upgrade_approve: true,
            };
            if let Ok(s) = apply(&p.upgrade_state, n.round.0, &vote) {
                n.upgrade_state = s;
            }
            n.upgrade_vote = vote;
        }),
        ("consistent approval", |p, n| {
            n.upgrade_vote.upgrade_approve = true;
            if let Ok(s) = apply(&p.upgrade_state, n.round.0, &n.upgrade_vote) {
                n.upgrade_state = s;
            }
        }),
        ("time 0", |_, n| n.timestamp = 0),
        ("time 1", |_, n| n.timestamp = 1),
        ("time before", |p, n| {
            n.timestamp = p.timestamp.wrapping_sub(1)
        }),
        ("time latest", |p, n| {
            n.timestamp = p.timestamp.saturating_add(inc(p))
        }),
        ("time late", |p, n| {
            n.timestamp = p.timestamp.saturating_add(inc(p)).saturating_add(1)
        }),
        ("time max", |_, n| n.timestamp = u64::MAX),
        ("id empty", |_, n| n.genesis_id = "".into()),
        ("id A", |_, n| n.genesis_id = "A".into()),
        ("id B", |_, n| n.genesis_id = "B".into()),
        ("id longer", |_, n| n.genesis_id.push('A')),
        ("hash zero", |_, n| n.genesis_hash = CryptoHash::default()),
        ("hash set", |_, n| n.genesis_hash = hash(1)),
        ("hash other", |_, n| n.genesis_hash = hash(2)),
        ("seed", |_, n| n.seed = Seed([7; 32])),
        ("tx root", |_, n| n.tx_root = hash(4)),
        ("rewards", |_, n| {
            n.rewards_state.rewards_level = u64::MAX;
            n.rewards_state.fee_sink = addr(3);
        }),
        ("tx counter", |_, n| n.tx_counter = u64::MAX),
    ]
}

fn check(r: &mut Report, p: &BlockHeader, n: &BlockHeader, case: &dyn Fn() -> String) {
    r.step();
    let got = match r.no_panic(guard(|| n.pre_check(p)), "check-panic", case) {
        Some(g) => g,
        None => return,
    };
    let want = faults(p, n);
    match &got {
        Ok(()) => {
            r.outcome("accepted");
            r.check(want.is_empty(), "accepts", case, || {
                format!("accepted despite {:?}", want)
            });
        }
        Err(e) => {
            r.outcome(&format!("refused: {}", want.first().unwrap_or(&"-")));
            if r.check(!want.is_empty(), "refuses", case, || {
                format!("refused with {:?}", e)
            }) {
                r.check(
                    named(e).iter().any(|f| want.contains(f)),
                    "wrong-reason",
                    case,
                    || format!("error {:?} but the faults are {:?}", e, want),
                );
            }
        }
    }
    r.trace();
}

/// The block made as a successor.
fn made(r: &mut Report, p: &BlockHeader, case: &dyn Fn() -> String) {
    let before = protocol::encode(p);
    let t0 = now();
    r.step();
    let b = match r.no_panic(guard(|| Block::new(p)), "new-panic", case) {
        Some(b) => b,
        None => return,
    };
    let t1 = now();
    let h = &b.header;
    r.check(
        protocol::encode(p) == before,
        "predecessor-changed",
        case,
        || "the predecessor was changed".into(),
    );
    r.check(h.round.0 == p.round.0 + 1, "round", case, || {
        format!("round {}", h.round.0)
    });
    r.check(h.branch == hash_obj(p), "branch", case, || {
        "wrong predecessor hash".into()
    });
    r.check(
        h.genesis_id == p.genesis_id && h.genesis_hash == p.genesis_hash,
        "genesis",
        case,
        || "genesis ID or hash not carried over".into(),
    );
    r.check(b.payset.0.is_empty(), "payset", case, || {
        "payset not empty".into()
    });
    r.check(
        h.rewards_state.fee_sink == p.rewards_state.fee_sink
            && h.rewards_state.rewards_pool == p.rewards_state.rewards_pool,
        "special-addresses",
        case,
        || "fee sink or rewards pool not carried over".into(),
    );
    r.check(is_own_vote(p, &h.upgrade_vote), "vote", case, || {
        let v = &h.upgrade_vote;
        format!(
            "votes {:?} {} {}",
            v.upgrade_propose, v.upgrade_delay.0, v.upgrade_approve
        )
    });
    let state = apply(&p.upgrade_state, p.round.0 + 1, &h.upgrade_vote);
    r.check(
        state.as_ref() == Ok(&h.upgrade_state),
        "upgrade-state",
        case,
        || "upgrade state is not the result of the vote".into(),
    );
    let inc = params(h.upgrade_state.current_protocol).map_or(0, |p| p.max_timestamp_increment);
    let clamp = |t: u64| {
        if p.timestamp == 0 {
            t
        } else {
            t.max(p.timestamp).min(p.timestamp.saturating_add(inc))
        }
    };
    r.check(
        h.timestamp >= clamp(t0) && h.timestamp <= clamp(t1),
        "timestamp",
        case,
        || format!("timestamp {} at {}", h.timestamp, t0),
    );
    let payset_commit = guard(|| b.payset_commit().unwrap_or_default());
    r.check(
        payset_commit == Ok(h.tx_root.clone()),
        "tx-root",
        case,
        || "transaction root is not that of the empty payset".into(),
    );
    // with another seed: the same block but for the seed
    for seed in [Seed([0; 32]), Seed([9; 32]), p.seed.clone()] {
        r.step();
        if let Some(s) = r.no_panic(guard(|| b.with_seed(seed.clone())), "seed-panic", case) {
            let mut want = b.header.clone();
            want.seed = seed.clone();
            let same = protocol::encode(&s.header) == protocol::encode(&want)
                && s.payset.0.is_empty()
                && s.seed().0 == seed.0;
            r.check(same, "with-seed", case, || {
                "setting the seed changes something else, or not the seed".into()
            });
        }
    }
    let want = faults(p, h);
    let sp = params(h.upgrade_state.current_protocol).expect("supported");
    let fit = sp.support_genesis_hash == (p.genesis_hash != CryptoHash::default());
    let expected_ok = !p.genesis_id.is_empty() && fit;
    r.check(want.is_empty() == expected_ok, "made-invalid", case, || {
        format!("new block has faults {:?}", want)
    });
    r.outcome(if want.is_empty() {
        "made a valid successor"
    } else {
        "made a successor of a header without genesis"
    });
    check(r, p, h, &|| format!("Block::new of {}", case()));
    r.trace();
}

fn main() {
    let mut r = Report::new("C16");
    let vs = versions();
    let n = now();
    let rounds = [
        0u64,
        1,
        1000,
        1 << 32,
        u64::MAX - 20001,
        u64::MAX - 1,
        u64::MAX,
    ];
    let times = [0u64, 1, 1500000000, n - 3, n + 3600, u64::MAX - 1, u64::MAX];
    let jobs: Vec<usize> = (0..vs.len()).collect();
    let ed = edits();
    let pairs_for = tier(
        vec![
            ConsensusVersion::V10,
            ConsensusVersion::V13,
            ConsensusVersion::V24,
            ConsensusVersion::V30,
        ],
        vs.clone(),
    );
    parallel(&mut r, jobs, |r, vi| {
        let v = vs[*vi];
        product(&[rounds.len(), times.len(), PHASES.len(), 2, 2], |d| {
            let (round, ts) = (rounds[d[0]], times[d[1]]);
            let p = prev(v, round, ts, d[2], d[3], d[4] as u8);
            let desc = || {
                format!(
                    "{:?} round {} time {} {} id {:?} hash {}",
                    v, round, ts, PHASES[d[2]], p.genesis_id, d[4]
                )
            };
            r.state();
            let to = match apply(
                &p.upgrade_state,
                round.wrapping_add(1),
                &UpgradeVote {
                    upgrade_propose: v,
                    ..UpgradeVote::default()
                },
            ) {
                Ok(s) => params(s.current_protocol).is_some(),
                Err(_) => false,
            };
            if to && round < 1 << 63 {
                r.sample("predecessor", desc);
                made(r, &p, &desc);
            } else {
                r.outcome("no successor can be made");
            }
            let before = protocol::encode(&p);
            let base = successor(&p).unwrap_or_else(|| {
                let mut h = p.clone();
                h.branch = hash_obj(&p);
                h.round.0 = p.round.0.wrapping_add(1);
                h
            });
            for (i, e) in ed.iter().enumerate() {
                let mut h = base.clone();
                (e.1)(&p, &mut h);
                check(r, &p, &h, &|| format!("{} edit {}", desc(), e.0));
                let representative = d[0] % 2 == 1
                    && d[3] == 1
                    && pairs_for.contains(&v)
                    && (thorough() || d[1] % 3 == 0);
                if representative && i > 0 {
                    for e2 in &ed[i + 1..] {
                        let mut h = h.clone();
                        (e2.1)(&p, &mut h);
                        check(r, &p, &h, &|| {
                            format!("{} edits {} and {}", desc(), e.0, e2.0)
                        });
                    }
                }
            }
            r.check(
                protocol::encode(&p) == before,
                "predecessor-changed",
                &desc,
                || "the predecessor was changed".into(),
            );
        });
    });
    // genesis IDs, genesis hashes and predecessor hashes that a sloppy comparison takes for right
    let jobs: Vec<usize> = (0..vs.len()).collect();
    parallel(&mut r, jobs, |r, vi| {
        for id in ["A", "mainnet-v1.0"] {
            let mut p = prev(vs[*vi], 1000, 1500000000, 0, 1, 1);
            p.genesis_id = id.into();
            p.genesis_hash = hash(0x35);
            for to in [None, Some(id)] {
                let mut p = p.clone();
                for other in near::texts(id) {
                    // the predecessor has the one ID and the successor the other, both ways
                    p.genesis_id = if to.is_some() {
                        id.into()
                    } else {
                        other.clone()
                    };
                    let base = match successor(&p) {
                        Some(b) => b,
                        None => continue,
                    };
                    let mut n = base.clone();
                    n.genesis_id = if to.is_some() {
                        other.clone()
                    } else {
                        id.into()
                    };
                    r.state();
                    check(r, &p, &n, &|| {
                        format!(
                            "{:?} genesis ID {:?} after {:?}",
                            vs[*vi], n.genesis_id, p.genesis_id
                        )
                    });
                    check(r, &p, &base, &|| {
                        format!("{:?} genesis ID {:?} kept", vs[*vi], p.genesis_id)
                    });
                }
            }
            if let Some(base) = successor(&p) {
                for other in near::bytes32(p.genesis_hash.0) {
                    let mut n = base.clone();
                    n.genesis_hash.0 = other;
                    check(r, &p, &n, &|| {
                        format!(
                            "{:?} genesis hash {} after {}",
                            vs[*vi],
                            hex(&other),
                            hex(&p.genesis_hash.0)
                        )
                    });
                }
                for other in near::bytes32(base.branch.0) {
                    let mut n = base.clone();
                    n.branch.0 = other;
                    check(r, &p, &n, &|| {
                        format!(
                            "{:?} branch {} instead of {}",
                            vs[*vi],
                            hex(&other),
                            hex(&base.branch.0)
                        )
                    });
                }
            }
        }
    });
    // the hash of a header covers every field: chains of made blocks, broken at any one link
    let mut chain = vec![prev(ConsensusVersion::V30, 5, n - 100, 0, 1, 1)];
    for _ in 0..12 {
        let b = Block::new(chain.last().unwrap());
        chain.push(b.header);
    }
    for i in 1..chain.len() {
        check(&mut r, &chain[i - 1], &chain[i], &|| {
            format!("chain link {}", i)
        });
        for j in 0..chain.len() {
            if j + 1 != i {
                check(&mut r, &chain[j], &chain[i], &|| {
                    format!("chain link {} on {}", i, j)
                });
            }
        }
        for e in &ed[1..] {
            let mut broken = chain[i - 1].clone();
            let gp = if i > 1 {
                chain[i - 2].clone()
            } else {
                chain[0].clone()
            };
            (e.1)(&gp, &mut broken);
            check(&mut r, &broken, &chain[i], &|| {
                format!("chain link {} on a predecessor with {} changed", i, e.0)
            });
            if protocol::encode(&broken) != protocol::encode(&chain[i - 1]) {
                r.step();
                r.check(
                    chain[i].pre_check(&broken).is_err(),
                    "accepts",
                    || format!("chain link {} predecessor {}", i, e.0),
                    || "accepted on a changed predecessor".into(),
                );
            }
        }
    }
    r.space(
        "versions x rounds x timestamps x upgrade phases x genesis IDs x hashes",
        format!(
            "{}x{}x{}x{}x2x2",
            vs.len(),
            rounds.len(),
            times.len(),
            PHASES.len()
        ),
    );
    r.space("single edits of the successor", ed.len() as u64);
    r.assume("Block::new is only called for supported protocols (also after the switch) and rounds below 2^63");
    r.assume("wall clock between 2017 and the largest timestamp minus an hour");
    mc::txkit::finish_both(r)
}
