//@ hooks
//! C31: the account manager offers exactly the usable keys and deletes only spent ones.
//!
//! All sequences of add and roll-forward operations over several participations (overlapping
//! windows, shared parents, duplicates, re-added copies with undeleted keys), on the real manager;
//! after every step, the keys offered for every round, the answer for every range of rounds and the
//! rounds every participation can still sign are compared with a reference model.

use std::collections::HashMap;

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto;
use algorsand::data::account::Participation;
use algorsand::data::account_manager::verif_hook::Manager;
use algorsand::data::basics::{Address, Round};
use algorsand::data::bookkeeping::{BlockHeader, CompactCertState};
use algorsand::protocol::{CompactCertType, ConsensusVersion};
use mc::*;

#[derive(Clone, Copy, Debug)]
struct Shape {
    parent: u8,
    first: u64,
    last: u64,
    /// 0: the protocol's default dilution.
    dilution: u64,
    /// Which voting (its last digit) and selection keys.
    keys: usize,
}

const DEFAULT_DILUTION: u64 = 3;

impl Shape {
    fn dil(&self) -> u64 {
        if self.dilution == 0 {
            DEFAULT_DILUTION
        } else {
            self.dilution
        }
    }
    fn live(&self, round: u64, before: u64) -> bool {
        let b = round / self.dil();
        b >= self.first / self.dil() && b <= self.last / self.dil() && round >= before
    }
}

/// Fresh copies of the same participation.
struct Pool {
    shapes: Vec<Shape>,
    voting: Vec<crypto::OTSSecrets>,
}

impl Pool {
    fn new(shapes: &[Shape]) -> Pool {
        // Participations with the same last digit of `keys` share the voting key only if their batches agree.
        let mut voting: Vec<crypto::OTSSecrets> = Vec::new();
        for (i, s) in shapes.iter().enumerate() {
            let twin = shapes[..i].iter().position(|t| t.keys % 10 == s.keys % 10);
            match twin {
                Some(t) => {
                    let v = voting[t].snapshot();
                    voting.push(v);
                }
                None => voting.push(crypto::OTSSecrets::generate(
                    s.first / s.dil(),
                    s.last / s.dil() - s.first / s.dil() + 1,
                )),
            }
        }
        Pool {
            shapes: shapes.to_vec(),
            voting,
        }
    }
    fn get(&self, i: usize) -> Participation {
        let s = self.shapes[i];
        Participation {
            parent: txkit::addr(s.parent),
            vrf: crypto::VrfKeypair::from_seed([s.keys as u8 + 1; 32]),
            voting: self.voting[i].snapshot(),
            first_valid: Round(s.first),
            last_valid: Round(s.last),
            key_dilution: s.dilution,
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Add(usize),
    /// Latest round, next compact certificate round, rounds signed by (parent, round).
    Roll(u64, u64, Vec<(u8, u64)>),
}

fn identity(p: &Participation) -> (Vec<u8>, u64, u64, Vec<u8>, String) {
    (
        p.parent.0.to_vec(),
        p.first_valid.0,
        p.last_valid.0,
        p.voting.verifier.to_bytes().to_vec(),
        format!("{:?}", p.vrf.public()),
    )
}

fn signs(p: &Participation, round: u64, dil: u64) -> bool {
    let id = Round(round).ots_id(dil);
    let msg = "vote".to_string();
    p.voting
        .sign(&id, &msg)
        .verify(&id, &msg, &p.voting.verifier)
}

/// The first round whose keys the protocol can still need.
fn needed_from(round: u64, cc_next: u64, signed: Option<u64>, cc_rounds: u64) -> u64 {
    let mut next = round + 1;
    if cc_next > 0 {
        let mut cc = cc_next + 1;
        if let Some(s) = signed {
            if s >= cc {
                cc = s + cc_rounds + 1;
            }
        }
        next = next.min(cc);
    }
    next
}

fn header(version: ConsensusVersion, round: u64, cc_next: u64) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.round = Round(round);
    h.upgrade_state.current_protocol = version;
    if cc_next != u64::MAX {
        h.compact_certs.insert(
            CompactCertType::Basic,
            CompactCertState {
                compactcert_voters: Default::default(),
                compactcert_voters_total: Default::default(),
                compactcert_next_round: Round(cc_next),
            },
        );
    }
    h
}

fn run(
    r: &mut Report,
    pool: &Pool,
    ops: &[Op],
    version: ConsensusVersion,
    cc_rounds: u64,
    check_all: bool,
) {
    let case = || {
        format!(
            "participations {:?}, {:?}, protocol {:?}",
            pool.shapes, ops, version
        )
    };
    let mut m = Manager::default();
    // Registered participations with the round before which their keys are deleted.
    let mut model: Vec<(usize, u64)> = Vec::new();
    let mut agreement = ConsensusParams::default();
    agreement.default_key_dilution = DEFAULT_DILUTION;
    let same = |a: usize, b: usize| identity(&pool.get(a)) == identity(&pool.get(b));
    for (k, op) in ops.iter().enumerate() {
        r.step();
        match op {
            Op::Add(i) => {
                let p = pool.get(*i);
                let got = match r.no_panic(guard(|| m.add_participation(p)), "add-panic", case) {
                    Some(b) => b,
                    None => return,
                };
                let want = !model.iter().any(|(j, _)| same(*i, *j));
                r.check_eq(&got, &want, "add-answer", || {
                    format!("{}, step {}", case(), k)
                });
                if want {
                    model.push((*i, 0));
                    r.outcome("added");
                } else {
                    r.outcome("duplicate");
                }
            }
            Op::Roll(round, cc_next, signed) => {
                let h = header(version, *round, *cc_next);
                let sigs: HashMap<Address, Round> = signed
                    .iter()
                    .map(|(p, s)| (txkit::addr(*p), Round(*s)))
                    .collect();
                let a = agreement.clone();
                if r.no_panic(guard(|| m.delete_old_keys(h, sigs, a)), "roll-panic", case)
                    .is_none()
                {
                    return;
                }
                for (i, before) in model.iter_mut() {
                    let s = signed
                        .iter()
                        .find(|(p, _)| *p == pool.shapes[*i].parent)
                        .map(|x| x.1);
                    let from = needed_from(
                        *round,
                        if *cc_next == u64::MAX { 0 } else { *cc_next },
                        s,
                        cc_rounds,
                    );
                    *before = (*before).max(from);
                }
                r.outcome("rolled forward");
            }
        }
        if !check_all && k + 1 < ops.len() {
            continue;
        }
        r.state();
        r.trace();
        let top = pool.shapes.iter().map(|s| s.last).max().unwrap() + 3;
        for x in 0..=top {
            let got = guard(|| {
                let mut v: Vec<_> = m.keys(Round(x)).iter().map(|p| identity(p)).collect();
                v.sort();
                v
            });
            let mut want: Vec<_> = model
                .iter()
                .filter(|(i, _)| pool.shapes[*i].first <= x && x <= pool.shapes[*i].last)
                .map(|(i, _)| identity(&pool.get(*i)))
                .collect();
            want.sort();
            if let Some(got) = r.no_panic(got, "keys-panic", case) {
                r.check(
                    got == want,
                    "keys-offered",
                    || format!("{}, step {}, round {}", case(), k, x),
                    || format!("{} offered, {} usable", got.len(), want.len()),
                );
            }
            for y in x..=top {
                let got = guard(|| m.has_live_keys(Round(x), Round(y)));
                let want = model
                    .iter()
                    .any(|(i, _)| pool.shapes[*i].first <= y && x <= pool.shapes[*i].last);
                if let Some(got) = r.no_panic(got, "live-panic", case) {
                    r.check_eq(&got, &want, "live-keys", || {
                        format!("{}, step {}, rounds {}..{}", case(), k, x, y)
                    });
                }
            }
        }
        // Which rounds each participation can still sign. Every one is offered for its first round.
        for (i, before) in &model {
            let s = pool.shapes[*i];
            let id = identity(&pool.get(*i));
            let offered = m.keys(Round(s.first));
            let p = match offered.iter().find(|p| identity(p) == id) {
                Some(p) => p,
                None => continue,
            };
            for x in 0..=s.last + s.dil() + 1 {
                let got = signs(p, x, s.dil());
                let want = s.live(x, *before);
                if want {
                    r.check(
                        got,
                        "needed-key-deleted",
                        || format!("{}, step {}, participation {}, round {}", case(), k, i, x),
                        || format!("keys from round {} on are needed", before),
                    );
                } else {
                    r.check(
                        !got,
                        "spent-key-kept",
                        || format!("{}, step {}, participation {}, round {}", case(), k, i, x),
                        || format!("keys before round {} are spent", before),
                    );
                }
            }
        }
    }
}

/// A manager of many participations: each is offered for its rounds, refused a second time, and
/// moved forward by a block.
fn many(r: &mut Report, n: usize, version: ConsensusVersion) {
    let first = |i: usize| i as u64 % 5;
    let last = |i: usize| 6 + i as u64 % 3;
    let get = |i: usize, v: &crypto::OTSSecrets| Participation {
        parent: txkit::addr((i % 200) as u8 + 1),
        vrf: crypto::VrfKeypair::from_seed([(i % 250) as u8 + 1; 32]),
        voting: v.snapshot(),
        first_valid: Round(first(i)),
        last_valid: Round(last(i)),
        key_dilution: 2,
    };
    let voting: Vec<crypto::OTSSecrets> = (0..n)
        .map(|i| crypto::OTSSecrets::generate(first(i) / 2, last(i) / 2 - first(i) / 2 + 1))
        .collect();
    let case = || format!("{} participations, {:?}", n, version);
    let mut m = Manager::default();
    r.state();
    r.trace();
    for i in 0..n {
        r.steps(2);
        let got = guard(|| {
            (
                m.add_participation(get(i, &voting[i])),
                m.add_participation(get(i, &voting[i])),
            )
        });
        r.check(
            got == Ok((true, false)),
            "add-answer",
            || format!("{}, number {}", case(), i),
            || format!("added, and again: {:?}", got),
        );
    }
    for i in (0..n).rev() {
        r.step();
        let got = guard(|| m.add_participation(get(i, &voting[i])));
        r.check(
            got == Ok(false),
            "add-answer",
            || format!("{}, number {} at the end", case(), i),
            || format!("added again: {:?}", got),
        );
    }
    for (round, next) in [(0u64, u64::MAX), (3, 1), (4, u64::MAX)] {
        if r.no_panic(
            guard(|| {
                m.delete_old_keys(
                    header(version, round, next),
                    HashMap::new(),
                    ConsensusParams::default(),
                )
            }),
            "roll-panic",
            case,
        )
        .is_none()
        {
            return;
        }
        let before = [1u64, 2, 5][[0u64, 3, 4].iter().position(|x| *x == round).unwrap()];
        for x in 0..10u64 {
            r.step();
            let held = m.keys(Round(x));
            let mut got: Vec<[u8; 32]> =
                held.iter().map(|p| p.voting.verifier.to_bytes()).collect();
            let mut want: Vec<[u8; 32]> = (0..n)
                .filter(|i| first(*i) <= x && x <= last(*i))
                .map(|i| voting[i].verifier.to_bytes())
                .collect();
            got.sort();
            want.sort();
            r.check(
                got == want,
                "keys-offered",
                || format!("{}, round {}", case(), x),
                || format!("{} offered, {} usable", got.len(), want.len()),
            );
            r.check_eq(
                &m.has_live_keys(Round(x), Round(x)),
                &!want.is_empty(),
                "live-keys",
                || format!("{}, round {}", case(), x),
            );
            for p in held {
                let live = x >= before;
                let got = signs(p, x, 2);
                r.check(
                    got == live,
                    if live {
                        "needed-key-deleted"
                    } else {
                        "spent-key-kept"
                    },
                    || format!("{}, after round {}, round {}", case(), round, x),
                    || format!("signs: {}", got),
                );
            }
        }
    }
}

fn main() {
    let mut r = Report::new("C31");
    r.assume(
        "rounds stay far enough below 2^64 that the next compact certificate round can be computed",
    );
    let future = ConsensusVersion::Future;
    let v30 = ConsensusVersion::V30;
    let cc = |v: &ConsensusVersion| CONSENSUS.0[v].compact_cert_rounds;

    // Windows: overlapping, nested, adjacent, same window with other keys, same keys with another
    // window, default dilution, one round only, only the selection or only the voting key the same.
    let s = |parent, first, last, dilution, keys| Shape {
        parent,
        first,
        last,
        dilution,
        keys,
    };
    let pools: Vec<Vec<Shape>> = vec![
        vec![s(1, 2, 7, 2, 0), s(2, 5, 9, 3, 1), s(1, 8, 10, 0, 2)],
        vec![
            s(1, 0, 5, 2, 0),
            s(1, 0, 5, 2, 1),
            s(2, 0, 5, 2, 0),
            s(1, 0, 4, 2, 0),
        ],
        vec![s(3, 4, 4, 4, 0), s(3, 1, 9, 4, 1), s(4, 3, 6, 0, 2)],
        vec![
            s(1, 2, 6, 2, 0),
            s(1, 2, 6, 2, 10),
            s(1, 2, 6, 2, 1),
            s(1, 3, 6, 2, 0),
        ],
    ];
    let rolls: Vec<Op> = vec![
        Op::Roll(3, u64::MAX, vec![]),
        Op::Roll(5, 0, vec![]),
        Op::Roll(8, 4, vec![]),
        Op::Roll(6, 2, vec![(1, 4)]),
        Op::Roll(0, 0, vec![(1, 9)]),
    ];
    let mut n = 0;
    for shapes in &pools {
        let pool = Pool::new(shapes);
        let mut alphabet: Vec<Op> = (0..shapes.len()).map(Op::Add).collect();
        alphabet.extend(rolls.iter().cloned());
        let depth = tier(4, 5);
        let mut jobs = Vec::new();
        for d in 1..=depth {
            sequences(alphabet.len(), d, |q| jobs.push(q.to_vec()));
        }
        n += jobs.len();
        let chunks: Vec<Vec<Vec<usize>>> = jobs.chunks(200).map(|c| c.to_vec()).collect();
        parallel(&mut r, chunks, |r, chunk| {
            for q in chunk {
                let ops: Vec<Op> = q.iter().map(|i| alphabet[*i].clone()).collect();
                run(r, &pool, &ops, future, cc(&future), false);
            }
        });
    }
    r.space("operation sequences", n);

    // Which keys a block leaves needed: all rounds, next certificate rounds and signed rounds, for
    // protocols with and without certificates. Certificate intervals of the real protocols are
    // long, so the windows are too.
    let interval = cc(&future);
    let mut grid = Vec::new();
    let rounds: Vec<u64> = if interval > 0 {
        vec![
            0,
            1,
            2,
            interval - 2,
            interval - 1,
            interval,
            interval + 1,
            2 * interval - 1,
            2 * interval,
            2 * interval + 1,
            2 * interval + 2,
            3 * interval + 1,
        ]
    } else {
        vec![0, 1, 2, 5]
    };
    let mut nexts = rounds.clone();
    nexts.push(u64::MAX);
    for &a in &rounds {
        for &b in &nexts {
            for who in &[0u8, 1, 2] {
                for &c in &rounds {
                    if *who == 0 && c != rounds[0] {
                        continue;
                    }
                    grid.push((a, b, *who, c));
                }
            }
        }
    }
    r.space("blocks", format!("{} blocks x 2 protocols", grid.len()));
    // A dilution above the interval would expand many keys; one with few keys per batch does not.
    let pool = Pool::new(&[s(1, 0, 3 * interval + 5, 16, 0)]);
    let chunks: Vec<Vec<(u64, u64, u8, u64)>> = grid.chunks(40).map(|c| c.to_vec()).collect();
    parallel(&mut r, chunks, |r, chunk| {
        for &(round, next, who, signed) in chunk {
            for v in &[future, v30] {
                let signed = if who == 0 {
                    vec![]
                } else {
                    vec![(who, signed)]
                };
                let (want, case) = {
                    let s = signed.iter().find(|(p, _)| *p == 1).map(|x| x.1);
                    (
                        needed_from(round, if next == u64::MAX { 0 } else { next }, s, cc(v)),
                        format!(
                            "round {}, next certificate {}, signed {:?}, {:?}",
                            round, next, signed, v
                        ),
                    )
                };
                let mut m = Manager::default();
                r.step();
                r.state();
                r.trace();
                m.add_participation(pool.get(0));
                let sigs: HashMap<Address, Round> = signed
                    .iter()
                    .map(|(p, s)| (txkit::addr(*p), Round(*s)))
                    .collect();
                let h = header(*v, round, next);
                if r.no_panic(
                    guard(|| m.delete_old_keys(h, sigs, ConsensusParams::default())),
                    "roll-panic",
                    || case.clone(),
                )
                .is_none()
                {
                    continue;
                }
                let held = m.keys(Round(1));
                if held.len() != 1 {
                    r.violation("keys-offered", case, format!("{} offered", held.len()));
                    continue;
                }
                for x in [
                    0,
                    1,
                    15,
                    16,
                    round.saturating_sub(1),
                    round,
                    round + 1,
                    want.saturating_sub(2),
                    want.saturating_sub(1),
                    want,
                    want + 1,
                    want + 16,
                    3 * interval + 5,
                ]
                .iter()
                .cloned()
                {
                    let got = signs(held[0], x, 16);
                    let live = pool.shapes[0].live(x, want);
                    if live {
                        r.check(
                            got,
                            "needed-key-deleted",
                            || format!("{}, round {}", case, x),
                            || format!("keys from round {} on are needed", want),
                        );
                    } else {
                        r.check(
                            !got,
                            "spent-key-kept",
                            || format!("{}, round {}", case, x),
                            || format!("keys before round {} are spent", want),
                        );
                    }
                }
                r.outcome(if want == round + 1 {
                    "the next round decides"
                } else {
                    "a certificate still needs keys"
                });
            }
        }
    });

    // Many participations at once.
    let sizes: Vec<usize> = tier(
        vec![5, 8, 9, 16, 17, 32, 33, 50, 64, 65, 100, 128, 129, 200, 333],
        (5..=70)
            .chain([100, 127, 128, 129, 200, 256, 257, 300])
            .collect(),
    );
    r.space("numbers of participations held at once", sizes.len());
    parallel(&mut r, sizes, |r, n| many(r, *n, v30));

    // Every supported protocol.
    let mut supported = 0;
    for v in txkit::versions() {
        if !CONSENSUS.0.contains_key(&v) {
            continue;
        }
        supported += 1;
        let pool = Pool::new(&[s(1, 0, 5, 2, 0), s(2, 1, 5, 0, 1)]);
        for (round, next) in [
            (0u64, u64::MAX),
            (2, 0),
            (3, 1),
            (3, 7),
            (u64::MAX / 2, 3),
            (4, u64::MAX / 2),
        ]
        .iter()
        {
            run(
                &mut r,
                &pool,
                &[
                    Op::Add(0),
                    Op::Add(1),
                    Op::Roll(*round, *next, vec![(1, 2), (2, 9)]),
                ],
                v,
                cc(&v),
                true,
            );
        }
    }
    r.space("supported protocols", supported);
    mc::txkit::finish_both(r)
}
