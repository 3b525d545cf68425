//! C17: protocol upgrades happen exactly when voted for, and never otherwise.
//!
//! Explicit-state search to closure, in a child process per consensus configuration (vote rounds,
//! threshold, waiting times, approved upgrades): from every reachable phase of an upgrade, every
//! vote a block can carry; the real succession check must accept exactly the upgrade state the
//! rules give and refuse neighbouring ones, and a record of who proposed and approved what must
//! justify every switch. Then the built-in protocols, round by round, from proposal to switch.

use std::collections::{HashSet, VecDeque};

use algorsand::config::CONSENSUS;
use algorsand::crypto::hash_obj;
use algorsand::data::basics::Round;
use algorsand::data::bookkeeping::{
    process_upgrade_params, Block, BlockHeader, UpgradeState, UpgradeVote,
};
use algorsand::protocol::ConsensusVersion::{self, *};
use mc::txkit::{hash, versions};
use mc::upgrade::*;
use mc::*;
use serde_json::json;

const A: ConsensusVersion = V27;
const B: ConsensusVersion = V28;
const C: ConsensusVersion = V29;
const GONE: ConsensusVersion = V20;
const BASE: u64 = 1_000_000;

/// vote rounds, threshold, default, minimal and maximal wait, approved upgrades
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg(u64, u64, u64, u64, u64, usize);

fn approved(k: usize) -> Vec<Vec<(ConsensusVersion, u64)>> {
    match k {
        0 => vec![vec![(B, 0)], vec![(C, 0)], vec![(A, 0)]],
        1 => vec![
            vec![(GONE, 1)],
            vec![(C, 1), (A, 2)],
            vec![(GONE, 1), (A, 1)],
        ],
        _ => vec![vec![(B, 1), (C, 2)], vec![(GONE, 0)], vec![(C, 2), (B, 1)]],
    }
}

/// A consensus file with versions A, B and C as wanted and one version deleted.
fn table(c: Cfg) -> String {
    let mut m = serde_json::Map::new();
    let name = |v: &ConsensusVersion| {
        serde_json::to_value(v)
            .unwrap()
            .as_str()
            .unwrap()
            .to_string()
    };
    for (i, v) in [A, B, C].iter().enumerate() {
        let mut p = CONSENSUS.0[v].clone();
        // B votes one round longer, C waits one round less at most
        p.upgrade_vote_rounds = c.0 + (i == 1) as u64;
        p.upgrade_threshold = c.1;
        p.default_upgrade_wait_rounds = c.2;
        p.min_upgrade_wait_rounds = c.3;
        p.max_upgrade_wait_rounds = if i == 2 { c.4.max(c.3 + 1) - 1 } else { c.4 };
        p.approved_upgrades = approved(c.5)[i].iter().copied().collect();
        m.insert(name(v), serde_json::to_value(&p).unwrap());
    }
    let mut gone = CONSENSUS.0[&GONE].clone();
    gone.approved_upgrades.clear();
    m.insert(name(&GONE), serde_json::to_value(&gone).unwrap());
    json!(m).to_string()
}

/// What happened since the pending proposal: by whom, for what, when, after how many rounds it is
/// to take effect, and in which rounds it was approved.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Ghost {
    by: ConsensusVersion,
    to: ConsensusVersion,
    at: i64,
    wait: u64,
    approvals: Vec<i64>,
}

type Key = (
    ConsensusVersion,
    Option<ConsensusVersion>,
    u64,
    i64,
    i64,
    Option<Ghost>,
);

fn key(s: &UpgradeState, round: u64, g: &Option<Ghost>) -> Key {
    let rel = |x: u64| {
        if x == 0 {
            i64::MIN
        } else {
            x as i64 - round as i64
        }
    };
    let g = g.clone().map(|mut g| {
        g.at -= round as i64;
        g.approvals = vec![g.approvals.len() as i64];
        g
    });
    (
        s.current_protocol,
        s.next_protocol,
        s.next_protocol_approvals,
        rel(s.next_protocol_vote_before.0),
        rel(s.next_protocol_switch_on.0),
        g,
    )
}

fn header(round: u64, s: UpgradeState) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.round = Round(round);
    h.timestamp = 1_600_000_000;
    h.genesis_id = "A".into();
    h.genesis_hash = hash(1);
    h.upgrade_state = s;
    h
}

fn after(p: &BlockHeader, vote: UpgradeVote, s: UpgradeState) -> BlockHeader {
    let mut h = header(p.round.0 + 1, s);
    h.branch = hash_obj(p);
    h.upgrade_vote = vote;
    h
}

fn show(v: &UpgradeVote) -> String {
    format!(
        "propose {:?} delay {} approve {}",
        v.upgrade_propose, v.upgrade_delay.0, v.upgrade_approve
    )
}

fn show_state(s: &UpgradeState) -> String {
    format!(
        "{:?} -> {:?} ({} approvals, before {}, on {})",
        s.current_protocol,
        s.next_protocol,
        s.next_protocol_approvals,
        s.next_protocol_vote_before.0,
        s.next_protocol_switch_on.0
    )
}

/// Compares the succession check with the rules.
fn verdict(r: &mut Report, p: &BlockHeader, n: &BlockHeader, case: &dyn Fn() -> String) -> bool {
    r.step();
    let got = match r.no_panic(guard(|| n.pre_check(p)), "check-panic", case) {
        Some(g) => g,
        None => return false,
    };
    let want = faults(p, n);
    r.check(
        got.is_ok() == want.is_empty(),
        if got.is_ok() { "accepts" } else { "refuses" },
        case,
        || format!("{:?} but the faults are {:?}", got, want),
    );
    if let Err(e) = &got {
        r.check(
            want.is_empty() || named(e).iter().any(|f| want.contains(f)),
            "wrong-reason",
            case,
            || format!("error {:?} but the faults are {:?}", e, want),
        );
    }
    got.is_ok()
}

fn neighbours(s: &UpgradeState) -> Vec<UpgradeState> {
    let mut v = vec![];
    for p in [A, B, C, GONE] {
        let mut t = s.clone();
        t.current_protocol = p;
        v.push(t.clone());
        t = s.clone();
        t.next_protocol = Some(p);
        v.push(t);
    }
    let mut edit = |f: &dyn Fn(&mut UpgradeState)| {
        let mut t = s.clone();
        f(&mut t);
        v.push(t);
    };
    edit(&|t| t.next_protocol = None);
    edit(&|t| t.next_protocol_approvals += 1);
    edit(&|t| t.next_protocol_approvals = t.next_protocol_approvals.wrapping_sub(1));
    edit(&|t| t.next_protocol_vote_before.0 += 1);
    edit(&|t| t.next_protocol_vote_before.0 = t.next_protocol_vote_before.0.wrapping_sub(1));
    edit(&|t| t.next_protocol_vote_before.0 = 0);
    edit(&|t| t.next_protocol_switch_on.0 += 1);
    edit(&|t| t.next_protocol_switch_on.0 = t.next_protocol_switch_on.0.wrapping_sub(1));
    edit(&|t| t.next_protocol_switch_on.0 = 0);
    v.retain(|t| t != s);
    v
}

/// Checks what the record of votes says about one step, and keeps the record up to date.
fn justify(
    r: &mut Report,
    s: &UpgradeState,
    round: u64,
    vote: &UpgradeVote,
    t: &UpgradeState,
    g: &Option<Ghost>,
    case: &dyn Fn() -> String,
) -> Option<Ghost> {
    let p = params(s.current_protocol).unwrap();
    let mut g = g.clone();
    if vote.upgrade_propose != s.current_protocol {
        r.check(g.is_none(), "competing", case, || {
            "a second proposal was accepted".into()
        });
        let d = vote.upgrade_delay.0;
        r.check(
            d >= p.min_upgrade_wait_rounds && d <= p.max_upgrade_wait_rounds,
            "delay",
            case,
            || "a delay outside the window was accepted".into(),
        );
        let wait = if d == 0 {
            p.default_upgrade_wait_rounds
        } else {
            d
        };
        g = Some(Ghost {
            by: s.current_protocol,
            to: vote.upgrade_propose,
            at: round as i64,
            wait,
            approvals: vec![],
        });
    }
    if vote.upgrade_approve {
        match &mut g {
            None => r.violation(
                "approval-of-nothing",
                case(),
                "an approval without a proposal was accepted",
            ),
            Some(g) => {
                r.check(
                    (round as i64) < g.at + p.upgrade_vote_rounds as i64,
                    "late-approval",
                    case,
                    || "an approval after the deadline was accepted".into(),
                );
                g.approvals.push(round as i64);
            }
        }
    }
    if t.current_protocol != s.current_protocol {
        r.outcome("switch");
        match &g {
            None => r.violation("unproposed-switch", case(), "switch without a proposal"),
            Some(g) => {
                let q = params(g.by).unwrap();
                r.check(
                    g.to == t.current_protocol
                        && g.by == s.current_protocol
                        && g.approvals.len() as u64 >= q.upgrade_threshold
                        && round as i64 == g.at + (q.upgrade_vote_rounds + g.wait) as i64,
                    "unjustified-switch",
                    case,
                    || format!("switch not justified by {:?}", g),
                );
            }
        }
    }
    if let Some(h) = &g {
        let q = params(h.by).unwrap();
        let deadline = h.at + q.upgrade_vote_rounds as i64;
        if h.approvals.len() as u64 >= q.upgrade_threshold
            && round as i64 == deadline + h.wait as i64
        {
            r.check(t.current_protocol == h.to, "missed-switch", case, || {
                "an approved upgrade did not take effect on its round".into()
            });
            g = None;
        } else if (h.approvals.len() as u64) < q.upgrade_threshold && round as i64 == deadline {
            r.outcome("failed proposal");
            g = None;
        }
    }
    if g.is_none() {
        let clean = UpgradeState {
            current_protocol: t.current_protocol,
            ..UpgradeState::default()
        };
        r.check(*t == clean, "not-cleared", case, || {
            format!("leftovers of a proposal: {}", show_state(t))
        });
    } else {
        r.check(
            t.next_protocol == g.as_ref().map(|g| g.to),
            "pending-lost",
            case,
            || format!("the pending proposal is lost: {}", show_state(t)),
        );
    }
    g
}

fn explore(r: &mut Report, c: Cfg) {
    for v in [A, B, C] {
        let p = params(v);
        r.check(
            p.map_or(false, |p| {
                p.upgrade_threshold == c.1 && p.min_upgrade_wait_rounds == c.3
            }),
            "table",
            || format!("{:?}", c),
            || "the configured consensus is not in use".into(),
        );
    }
    r.check(
        params(GONE).is_none(),
        "table",
        || format!("{:?}", c),
        || "a deleted consensus version is still there".into(),
    );
    if r.has_violations() {
        return;
    }
    let mut seen: HashSet<Key> = HashSet::new();
    let mut queue = VecDeque::new();
    for v in [A, B, C] {
        let s = UpgradeState {
            current_protocol: v,
            ..UpgradeState::default()
        };
        seen.insert(key(&s, BASE, &None));
        queue.push_back((BASE, s, None::<Ghost>));
    }
    while let Some((round, s, g)) = queue.pop_front() {
        r.state();
        let p = header(round, s.clone());
        let here = || format!("{:?} round {} {}", c, round, show_state(&s));
        r.step();
        if let Some((v, on, ok)) = r.no_panic(guard(|| p.next_version_info()), "info-panic", &here)
        {
            let want = next_version(&p);
            r.check((v, on.0, ok) == want, "next-version", &here, || {
                format!(
                    "announces {:?} at {} supported {}, expected {:?}",
                    v, on.0, ok, want
                )
            });
        }
        let par = match params(s.current_protocol) {
            Some(p) => p,
            None => {
                // a chain that switched to an unsupported version ends here, for this node
                let n = after(
                    &p,
                    UpgradeVote {
                        upgrade_propose: s.current_protocol,
                        ..UpgradeVote::default()
                    },
                    s.clone(),
                );
                verdict(r, &p, &n, &here);
                let own = guard(|| process_upgrade_params(&p).is_err());
                r.check(own == Ok(true), "own-vote", &here, || {
                    format!("votes under an unsupported protocol: {:?}", own)
                });
                r.outcome("unsupported");
                continue;
            }
        };
        // the vote of a proposer
        r.step();
        let own = guard(|| process_upgrade_params(&p));
        if let Some(own) = r.no_panic(own, "own-panic", &here) {
            match own {
                Ok((vote, st)) => {
                    r.outcome("own vote");
                    r.check(is_own_vote(&p, &vote), "own-vote", &here, || show(&vote));
                    r.check(
                        apply(&s, round + 1, &vote).as_ref() == Ok(&st),
                        "own-state",
                        &here,
                        || format!("{} gives {}", show(&vote), show_state(&st)),
                    );
                    if params(st.current_protocol).is_some() {
                        if let Some(b) = r.no_panic(guard(|| Block::new(&p)), "new-panic", &here) {
                            r.check(
                                is_own_vote(&p, &b.header.upgrade_vote),
                                "own-vote",
                                &here,
                                || show(&b.header.upgrade_vote),
                            );
                            verdict(r, &p, &b.header, &|| format!("Block::new at {}", here()));
                        }
                    }
                }
                Err(e) => {
                    // only if the configured upgrade itself breaks the rules
                    let bad = s.next_protocol.is_none()
                        && par.approved_upgrades.iter().any(|(k, d)| {
                            apply(
                                &s,
                                round + 1,
                                &UpgradeVote {
                                    upgrade_propose: *k,
                                    upgrade_delay: Round(*d),
                                    upgrade_approve: true,
                                },
                            )
                            .is_err()
                        });
                    r.outcome("own vote impossible");
                    r.check(bad, "own-vote-error", &here, || format!("{:?}", e));
                }
            }
        }
        for propose in [A, B, C, GONE, DeprecatedV0] {
            let delays: Vec<u64> = (0..=c.4 + 1).chain(vec![u64::MAX]).collect();
            for delay in delays {
                for approve in [false, true] {
                    let vote = UpgradeVote {
                        upgrade_propose: propose,
                        upgrade_delay: Round(delay),
                        upgrade_approve: approve,
                    };
                    let case = || format!("{} vote {}", here(), show(&vote));
                    match apply(&s, round + 1, &vote) {
                        Ok(t) => {
                            let n = after(&p, vote.clone(), t.clone());
                            r.outcome("vote allowed");
                            r.trace();
                            verdict(r, &p, &n, &case);
                            for x in neighbours(&t) {
                                let n = after(&p, vote.clone(), x.clone());
                                if verdict(r, &p, &n, &|| {
                                    format!("{} claimed result {}", case(), show_state(&x))
                                }) {
                                    r.violation(
                                        "accepts",
                                        case(),
                                        format!("accepted with result {}", show_state(&x)),
                                    );
                                }
                            }
                            let g2 = justify(r, &s, round + 1, &vote, &t, &g, &case);
                            if seen.insert(key(&t, round + 1, &g2)) {
                                queue.push_back((round + 1, t, g2));
                            }
                        }
                        Err(e) => {
                            r.outcome(e);
                            let mut results = vec![s.clone()];
                            for a in [false, true] {
                                // what the vote without its fault would give
                                for (pr, d) in [
                                    (s.current_protocol, 0),
                                    (propose, par.min_upgrade_wait_rounds),
                                    (propose, delay),
                                ] {
                                    let v = UpgradeVote {
                                        upgrade_propose: pr,
                                        upgrade_delay: Round(d),
                                        upgrade_approve: a,
                                    };
                                    results.extend(apply(&s, round + 1, &v).ok());
                                }
                            }
                            for t in results {
                                let n = after(&p, vote.clone(), t);
                                verdict(r, &p, &n, &case);
                            }
                        }
                    }
                }
            }
        }
    }
}

/// A built-in version from proposal to switch (or failure), one block at a time.
/// `approve(i)` says whether the block made `i` rounds after the proposal approves.
fn long_chain(
    r: &mut Report,
    v: ConsensusVersion,
    name: &str,
    approve: &dyn Fn(u64) -> Option<bool>,
    expect_switch: bool,
) {
    let p = params(v).unwrap();
    let (&to, &delay) = p.approved_upgrades.iter().next().unwrap();
    let wait = if delay == 0 {
        p.default_upgrade_wait_rounds
    } else {
        delay
    };
    let start = 77u64;
    let mut h = header(
        start,
        UpgradeState {
            current_protocol: v,
            ..UpgradeState::default()
        },
    );
    if !p.support_genesis_hash {
        h.genesis_hash = hash(0);
    }
    let end = start + 1 + p.upgrade_vote_rounds + if expect_switch { wait } else { 0 };
    let case = |round: u64, s: &UpgradeState| {
        format!("{:?} {} round {}: {}", v, name, round, show_state(s))
    };
    while h.round.0 < end {
        let mut b = match r.no_panic(guard(|| Block::new(&h)), "new-panic", || {
            case(h.round.0, &h.upgrade_state)
        }) {
            Some(b) => b.header,
            None => return,
        };
        r.step();
        let i = b.round.0 - start - 1;
        if let Some(a) = approve(i) {
            if a != b.upgrade_vote.upgrade_approve {
                b.upgrade_vote.upgrade_approve = a;
                match apply(&h.upgrade_state, b.round.0, &b.upgrade_vote) {
                    Ok(s) => b.upgrade_state = s,
                    Err(e) => {
                        r.violation("chain", case(b.round.0, &h.upgrade_state), e);
                        return;
                    }
                }
            }
        }
        if b.round.0 == end {
            // versions from here on need a genesis hash
            b.genesis_hash = if params(b.upgrade_state.current_protocol)
                .map_or(false, |p| p.support_genesis_hash)
            {
                hash(1)
            } else {
                hash(0)
            };
        }
        r.step();
        let ok = guard(|| b.pre_check(&h));
        if !r.check(
            ok == Ok(Ok(())),
            "chain",
            || case(b.round.0, &b.upgrade_state),
            || format!("{:?}", ok),
        ) {
            return;
        }
        let switched = b.upgrade_state.current_protocol != v;
        let should = expect_switch && b.round.0 == end;
        if !r.check(
            switched == should && (!switched || b.upgrade_state.current_protocol == to),
            "chain-switch",
            || case(b.round.0, &b.upgrade_state),
            || "protocol switched at the wrong time".into(),
        ) {
            return;
        }
        let pending = b.upgrade_state.next_protocol;
        let want_pending = if b.round.0 == end { None } else { Some(to) };
        if !r.check(
            pending == want_pending,
            "chain-pending",
            || case(b.round.0, &b.upgrade_state),
            || format!("expected pending {:?}", want_pending),
        ) {
            return;
        }
        if i > 0 && i < p.upgrade_vote_rounds {
            if let (None, false) = (approve(i), b.upgrade_vote.upgrade_approve) {
                r.violation(
                    "chain-own-vote",
                    case(b.round.0, &b.upgrade_state),
                    "the proposer does not approve an approved upgrade",
                );
                return;
            }
        }
        h = b;
    }
    r.outcome(if expect_switch {
        "built-in upgrade adopted"
    } else {
        "built-in upgrade failed"
    });
    r.state();
    r.trace();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 7 {
        let n: Vec<u64> = args[1..].iter().map(|a| a.parse().unwrap()).collect();
        let mut r = Report::new("C17");
        explore(&mut r, Cfg(n[0], n[1], n[2], n[3], n[4], n[5] as usize));
        out(&r.to_child_json());
        return;
    }
    let mut r = Report::new("C17");
    let mut cfgs = vec![];
    let top = tier(2, 4);
    for vr in 0..=top {
        for th in 0..=top + 1 {
            for &(d, lo, hi) in tier(
                &[(0, 0, 0), (1, 0, 2), (2, 1, 3), (3, 0, 1)][..],
                &[
                    (0, 0, 0),
                    (1, 0, 2),
                    (2, 1, 3),
                    (3, 0, 1),
                    (3, 0, 4),
                    (0, 0, 1),
                    (1, 2, 2),
                    (2, 3, 5),
                    (4, 2, 3),
                ][..],
            ) {
                for ap in 0..3 {
                    cfgs.push(Cfg(vr, th, d, lo, hi, ap));
                }
            }
        }
    }
    r.space(
        "consensus configurations explored to closure",
        cfgs.len() as u64,
    );
    parallel(&mut r, cfgs, |r, &c| {
        let dir = scratch(&format!(
            "c17-{}-{}-{}-{}-{}-{}",
            c.0, c.1, c.2, c.3, c.4, c.5
        ));
        std::fs::write(dir.join("consensus.json"), table(c)).unwrap();
        let a: Vec<String> = [c.0, c.1, c.2, c.3, c.4, c.5 as u64]
            .iter()
            .map(|x| x.to_string())
            .collect();
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let (rc, so, se) = run_self(&a, &dir, &[], 600);
        if rc != Some(0) || !r.merge_child_json(so.trim()) {
            r.violation(
                "child",
                format!("{:?}", c),
                format!(
                    "exploration died: {:?} {}",
                    rc,
                    se.chars().take(400).collect::<String>()
                ),
            );
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let mut jobs = vec![];
    for v in versions() {
        if params(v).map_or(false, |p| !p.approved_upgrades.is_empty()) {
            for k in 0..4 {
                jobs.push((v, k));
            }
        }
    }
    r.space("built-in upgrades run round by round", jobs.len() as u64);
    parallel(&mut r, jobs, |r, &(v, k)| {
        let p = params(v).unwrap();
        let (n, t) = (p.upgrade_vote_rounds, p.upgrade_threshold);
        match k {
            0 => long_chain(r, v, "own votes", &|_| None, true),
            1 => long_chain(
                r,
                v,
                "the last threshold many",
                &|i| Some(i < n && i >= n - t),
                true,
            ),
            2 => long_chain(
                r,
                v,
                "one too few, from the start",
                &|i| Some(i < t - 1),
                false,
            ),
            _ => long_chain(r, v, "none", &|_| Some(false), false),
        }
    });
    r.assume("configured consensus tables keep a proposal's delay within the proposing protocol's window, and voting lasts at least a round; otherwise only an error is required");
    r.finish()
}
