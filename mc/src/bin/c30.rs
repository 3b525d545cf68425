//! C30: participation keys cover exactly their round range and forget old rounds.
//!
//! All small round ranges and dilutions, and all sequences of deletions over them, on real
//! participations: after every step each round of the neighbourhood is signed and the signature
//! verified, and the set of signable rounds is compared with the definition. All sequences of store,
//! delete and restart steps over two participations sharing the store are run in child processes.

use std::collections::HashSet;

use algorsand::config::ConsensusParams;
use algorsand::crypto;
use algorsand::data::account::{self, Participation};
use algorsand::data::basics::{MicroAlgos, Round};
use algorsand::data::transactions::TxFields;
use mc::*;

const MSG: &str = "vote";

fn signs(p: &Participation, round: u64, dilution: u64) -> bool {
    let id = Round(round).ots_id(dilution);
    let msg = MSG.to_string();
    p.voting_keypair()
        .sign(&id, &msg)
        .verify(&id, &msg, &p.voting_keypair().verifier)
}

fn make(first: u64, last: u64, dilution: u64, stored_dilution: u64) -> Participation {
    let (fb, lb) = (first / dilution, last / dilution);
    Participation {
        parent: mc::txkit::addr(1),
        vrf: crypto::VrfKeypair::from_seed([3; 32]),
        voting: crypto::OTSSecrets::generate(fb, lb - fb + 1),
        first_valid: Round(first),
        last_valid: Round(last),
        key_dilution: stored_dilution,
    }
}
fn copy(p: &Participation) -> Participation {
    Participation {
        parent: p.parent,
        vrf: rmp_serde::from_slice(&rmp_serde::to_vec(&p.vrf).unwrap()).unwrap(),
        voting: p.voting.snapshot(),
        first_valid: p.first_valid,
        last_valid: p.last_valid,
        key_dilution: p.key_dilution,
    }
}

/// The definition: the batches the range touches, minus everything before the latest deletion.
fn live(round: u64, first: u64, last: u64, dil: u64, deleted_before: u64) -> bool {
    let b = round / dil;
    b >= first / dil && b <= last / dil && round >= deleted_before
}

fn identifiers(r: &mut Report) {
    let mut rounds: Vec<u64> = (0..tier(300, 1200)).collect();
    for p in &[8u32, 16, 31, 32, 33, 48, 62, 63] {
        let x = 1u64 << p;
        rounds.extend((x - 6)..(x + 6));
    }
    rounds.extend((u64::MAX - 12)..=u64::MAX);
    let dils: Vec<u64> = (1..=20)
        .chain(
            [
                99,
                100,
                255,
                256,
                10_000,
                1 << 20,
                1 << 32,
                (1 << 32) + 1,
                u64::MAX / 2,
                u64::MAX - 1,
                u64::MAX,
            ]
            .iter()
            .cloned(),
        )
        .collect();
    for &d in &dils {
        let mut prev: Option<(u64, (u64, u64))> = None;
        for &x in &rounds {
            r.step();
            r.state();
            let case = || format!("round {} dilution {}", x, d);
            let id = match r.no_panic(guard(|| Round(x).ots_id(d)), "identifier-panic", case) {
                Some(i) => (i.batch, i.offset),
                None => continue,
            };
            r.check(id.1 < d, "identifier-offset", case, || format!("{:?}", id));
            r.check(
                id.0 as u128 * d as u128 + id.1 as u128 == x as u128,
                "identifier-one-to-one",
                case,
                || format!("{:?}", id),
            );
            if let Some((px, pid)) = prev {
                r.check(px >= x || pid < id, "identifier-order", case, || {
                    format!("{:?} for {} and {:?} for {}", pid, px, id, x)
                });
            }
            prev = Some((x, id));
        }
    }
    r.space(
        "identifiers",
        format!("{} rounds x {} dilutions", rounds.len(), dils.len()),
    );
}

fn generation(r: &mut Report) {
    let n = tier(9, 14);
    let mut cases = 0;
    let mut verifiers: HashSet<[u8; 32]> = HashSet::new();
    let mut selections: HashSet<String> = HashSet::new();
    let mut ranges: Vec<(u64, u64, u64)> = Vec::new();
    for dil in 1..=tier(5, 7) {
        for first in 0..n {
            for last in 0..n {
                ranges.push((first, last, dil));
            }
        }
    }
    let big = 1u64 << 40;
    for &(f, l, d) in &[
        (big, big + 10, 3),
        (big - 1, big, 1),
        (u64::MAX - 9, u64::MAX, 4),
        (u64::MAX / 2 - 3, u64::MAX / 2 + 3, 2),
        (5, 25_000, 10_000),
        (9_999, 10_000, 10_000),
        (0, 3, u64::MAX),
        (5, u64::MAX, 1 << 62),
    ] {
        ranges.push((f, l, d));
    }
    for (first, last, dil) in ranges {
        cases += 1;
        r.state();
        r.step();
        let case = || {
            format!(
                "participation for rounds {}..{} with dilution {}",
                first, last, dil
            )
        };
        let parent = mc::txkit::addr((first % 200) as u8 + 1);
        let res = guard(|| {
            Participation::fill_db_with_participation_keys(parent, Round(first), Round(last), dil)
        });
        let res = match r.no_panic(res, "generation-panic", case) {
            Some(x) => x,
            None => continue,
        };
        if last < first {
            r.check(
                matches!(res, Err(account::Error::InvalidRoundInterval(..))),
                "reversed-range",
                case,
                || "accepted or refused for another reason".into(),
            );
            r.outcome("reversed range refused");
            continue;
        }
        let p = match res {
            Ok(p) => p,
            Err(e) => {
                r.violation("generation", case(), e.to_string());
                continue;
            }
        };
        r.check(
            p.address() == parent
                && p.valid_interval() == (Round(first), Round(last))
                && p.key_dilution == dil,
            "generation-fields",
            case,
            || {
                format!(
                    "{:?} {:?} {}",
                    p.address(),
                    p.valid_interval(),
                    p.key_dilution
                )
            },
        );
        r.check(
            verifiers.insert(p.voting_keypair().verifier.to_bytes()),
            "keys-reused",
            case,
            || "the same voting key as another participation".into(),
        );
        r.check(
            selections.insert(format!("{:?}", p.vrf_keypair().public())),
            "keys-reused",
            case,
            || "the same selection key as another participation".into(),
        );
        let lo = first.saturating_sub(2 * dil.min(10) + 1);
        let mut rounds: Vec<u64> = (0..=(last.saturating_sub(lo)).min(40))
            .map(|i| lo + i)
            .collect();
        rounds.extend((0..=2 * dil.min(10)).filter_map(|i| last.checked_add(i)));
        // The edges of the first and last batch.
        for b in &[first / dil, last / dil] {
            for x in &[
                b.checked_mul(dil).and_then(|x| x.checked_sub(1)),
                b.checked_mul(dil),
                b.checked_add(1)
                    .and_then(|b| b.checked_mul(dil))
                    .map(|x| x - 1),
                b.checked_add(1).and_then(|b| b.checked_mul(dil)),
            ] {
                rounds.extend(x.iter());
            }
        }
        rounds.sort_unstable();
        rounds.dedup();
        for x in rounds {
            r.step();
            let got = guard(|| signs(&p, x, dil));
            let want = live(x, first, last, dil, 0);
            if let Some(got) =
                r.no_panic(got, "signing-panic", || format!("{}, round {}", case(), x))
            {
                r.check_eq(&got, &want, "signable", || {
                    format!("{}, round {}", case(), x)
                });
                r.outcome(if want { "signs" } else { "cannot sign" });
            }
        }
        r.trace();

        // What the participation registers with is what it signs with, whenever it is registered.
        for (from, to) in [
            (first / 2, first / 2 + 7),
            (first, last),
            (first.saturating_add(1), last.saturating_add(9)),
            (last.saturating_add(3), last.saturating_add(1003)),
            (0, u64::MAX),
            (u64::MAX, 0),
        ] {
            let tx = p.generate_registration_transaction(
                MicroAlgos(cases),
                Round(from),
                Round(to),
                [cases as u8; 32],
            );
            let h = &tx.header;
            r.check(
                h.sender == parent
                    && h.fee.0 == cases
                    && h.first_valid.0 == from
                    && h.last_valid.0 == to
                    && h.lease == [cases as u8; 32]
                    && h.note.is_empty(),
                "registration-header",
                case,
                || {
                    format!(
                        "{:?} {:?} {:?} {:?} {:?}",
                        h.sender, h.fee, h.first_valid, h.last_valid, h.lease
                    )
                },
            );
            match &tx.fields {
                TxFields::Keyreg(k) => {
                    r.check(
                        k.vote_pk == p.voting_keypair().verifier
                            && k.selection_pk == p.vrf_keypair().public()
                            && k.vote_first.0 == first
                            && k.vote_last.0 == last
                            && k.vote_key_dilution == dil
                            && !k.nonparticipation,
                        "registration-keys",
                        case,
                        || {
                            format!(
                                "{:?} {:?} {} {}",
                                k.vote_first, k.vote_last, k.vote_key_dilution, k.nonparticipation
                            )
                        },
                    );
                }
                _ => r.violation("registration-kind", case(), "not a key registration"),
            }
        }
        // Which rounds it is good for.
        let around: Vec<u64> = [
            first.wrapping_sub(1),
            first,
            (first / 2 + last / 2).max(first),
            last,
            last.wrapping_add(1),
        ]
        .iter()
        .cloned()
        .collect();
        for &a in &around {
            for &b in &around {
                if a > b {
                    continue;
                }
                r.step();
                let got = guard(|| p.overlaps_interval(Round(a), Round(b)));
                let want = a <= last && b >= first;
                if let Some(got) =
                    r.no_panic(got, "overlap-panic", || format!("{}, {}..{}", case(), a, b))
                {
                    r.check_eq(&got, &want, "overlap", || {
                        format!("{}, {}..{}", case(), a, b)
                    });
                }
            }
        }
    }
    r.space("generated participations", cases);
}

/// Participations of many batches, and of batches of many rounds: one round of every batch, and the
/// rounds around the range and around every deletion.
fn long_ranges(r: &mut Report) {
    let batches: Vec<u64> = tier(
        (1..=20)
            .chain([
                31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 333, 1_100,
                10_100,
            ])
            .collect(),
        (1..=130)
            .chain([
                200, 255, 256, 257, 300, 511, 512, 513, 1000, 2000, 10_100, 70_000,
            ])
            .collect(),
    );
    let mut jobs: Vec<(u64, u64, u64)> = Vec::new();
    for (i, &n) in batches.iter().enumerate() {
        let dil = [1u64, 2, 3, 10, 5, 16, 33, 70][i % 8];
        jobs.push((0, n * dil - 1, dil));
        jobs.push((dil / 2 + 7 * dil, dil / 2 + (7 + n) * dil, dil));
    }
    for d in tier(
        vec![64u64, 128, 200, 257, 300],
        vec![64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000],
    ) {
        jobs.push((d - 1, 3 * d, d));
    }
    r.space("long ranges", jobs.len());
    for (first, last, dil) in jobs {
        let case = || {
            format!(
                "participation for rounds {}..{} with dilution {}",
                first, last, dil
            )
        };
        r.state();
        r.step();
        r.trace();
        let mut p = match r.no_panic(
            guard(|| {
                Participation::fill_db_with_participation_keys(
                    mc::txkit::addr(1),
                    Round(first),
                    Round(last),
                    dil,
                )
            }),
            "generation-panic",
            case,
        ) {
            Some(Ok(p)) => p,
            Some(Err(e)) => {
                r.violation("generation", case(), e.to_string());
                continue;
            }
            None => continue,
        };
        let n = last / dil - first / dil + 1;
        let mut rounds: Vec<u64> = (0..n)
            .map(|b| ((first / dil + b) * dil + b % dil).max(first))
            .collect();
        rounds.extend([
            first,
            last,
            first / dil * dil,
            (last / dil + 1) * dil - 1,
            (last / dil + 1) * dil,
            (last / dil + 2) * dil,
            (first / dil * dil).saturating_sub(1),
        ]);
        let mut proto = algorsand::config::ConsensusParams::default();
        proto.default_key_dilution = 7;
        let mut before = 0u64;
        for cut in [
            0u64,
            first + 1,
            first + dil + dil / 2,
            (first / 2 + last / 2).max(first),
            last.saturating_sub(1).max(first),
            last + 1,
        ] {
            if cut > 0 {
                before = before.max(cut);
                r.step();
                let res = guard(|| {
                    p.delete_old_keys(Round(cut), &proto)
                        .map_err(|e| e.to_string())
                });
                match r.no_panic(res, "deletion-panic", || {
                    format!("{}, deleted before {}", case(), cut)
                }) {
                    Some(Ok(())) => {}
                    Some(Err(e)) => {
                        r.violation("deletion", case(), e);
                        break;
                    }
                    None => break,
                }
            }
            let mut xs = rounds.clone();
            if cut > 0 {
                // all of a batch of many rounds, once
                let w = if dil >= 64 && n < 5 && cut == first + 1 {
                    dil
                } else {
                    dil.min(8)
                };
                xs = (0..2 * w + 2).map(|i| cut.saturating_sub(w) + i).collect();
                xs.extend([first, last, (last / dil + 1) * dil - 1]);
            }
            let missing: Vec<u64> = xs
                .iter()
                .cloned()
                .filter(|x| signs(&p, *x, dil) != live(*x, first, last, dil, before))
                .collect();
            r.steps(xs.len() as u64);
            r.check(
                missing.is_empty(),
                "signable",
                || format!("{}, deleted before {}", case(), before),
                || {
                    format!(
                        "wrong answer for rounds {:?}",
                        &missing[..missing.len().min(5)]
                    )
                },
            );
        }
    }
}

/// All sequences of deletions, on keys in memory.
fn deletions(r: &mut Report) {
    let depth = tier(3, 4);
    let n = tier(7u64, 8);
    let mut jobs = Vec::new();
    for dil in 1..=4u64 {
        for first in 0..n {
            for last in first..n {
                // The dilution of the participation itself, or the default one of the protocol.
                jobs.push((first, last, dil, dil));
            }
        }
        jobs.push((2, 6, dil, 0));
    }
    r.space(
        "deletion histories",
        format!(
            "{} participations x all sequences of up to {} deletions",
            jobs.len(),
            depth
        ),
    );
    let universe = n + 5;
    parallel(r, jobs, |r, &(first, last, dil, stored)| {
        let mut proto = ConsensusParams::default();
        proto.default_key_dilution = if stored == 0 { dil } else { dil + 1 };
        let fresh = make(first, last, dil, stored);
        // Deletions that are equivalent to the ones made before lead to the same state.
        let mut frontier: Vec<(Vec<u64>, Participation, u64)> = vec![(vec![], fresh, 0)];
        for level in 1..=depth {
            let mut next = Vec::new();
            for (hist, p, before) in &frontier {
                let bytes = rmp_serde::to_vec(&p.voting.snapshot()).unwrap();
                let lives = |before: u64| -> Vec<bool> {
                    (0..universe + dil)
                        .map(|x| live(x, first, last, dil, before))
                        .collect()
                };
                let lives_now = lives(*before);
                for d in 0..universe {
                    let mut q = copy(p);
                    let mut h = hist.clone();
                    h.push(d);
                    let case = || {
                        format!(
                            "rounds {}..{} dilution {} (stored as {}), deletions before {:?}",
                            first, last, dil, stored, h
                        )
                    };
                    r.step();
                    r.state();
                    let res = guard(|| {
                        q.delete_old_keys(Round(d), &proto)
                            .map_err(|e| e.to_string())
                    });
                    match r.no_panic(res, "deletion-panic", case) {
                        Some(Ok(())) => {}
                        Some(Err(e)) => {
                            r.violation("deletion", case(), e);
                            continue;
                        }
                        None => continue,
                    }
                    let before = (*before).max(d);
                    // The very same keys, and the same rounds wanted: the state is the one before.
                    // On the last level it is not asked again what it can sign.
                    let same = lives(before) == lives_now
                        && rmp_serde::to_vec(&q.voting.snapshot()).unwrap() == bytes;
                    if same && level > 2 {
                        r.trace();
                        r.outcome("nothing changed");
                        continue;
                    }
                    for x in 0..universe + dil {
                        let got = guard(|| signs(&q, x, dil));
                        let want = live(x, first, last, dil, before);
                        if let Some(got) =
                            r.no_panic(got, "signing-panic", || format!("{}, round {}", case(), x))
                        {
                            if want {
                                r.check(
                                    got,
                                    "round-lost",
                                    || format!("{}, round {}", case(), x),
                                    || "cannot sign any more".into(),
                                );
                            } else {
                                r.check(
                                    !got,
                                    "round-regained",
                                    || format!("{}, round {}", case(), x),
                                    || "can still sign".into(),
                                );
                            }
                        }
                    }
                    r.trace();
                    r.outcome(if before > last {
                        "all rounds forgotten"
                    } else if before > first {
                        "some rounds forgotten"
                    } else {
                        "nothing forgotten"
                    });
                    if h.len() < depth && !same {
                        next.push((h, q, before));
                    }
                }
            }
            frontier = next;
        }
    });
}

// ---------------------------------------------------------------- the store

const STORE_OPS: [&str; 10] = [
    "store A",
    "store B",
    "A before 4",
    "A before 7",
    "A before 6",
    "B before 9",
    "A before 12",
    "B before 15",
    "A restarts",
    "B restarts",
];

fn store_child(first_op: usize, depth: usize) -> Report {
    let mut r = Report::new("C30");
    let proto = ConsensusParams::default();
    let shapes = [(3u64, 10u64, 4u64), (6, 13, 3)];
    let (mut ever, mut nothing_stored) = (false, false);
    sequences(STORE_OPS.len(), depth - 1, |rest| {
        let ops: Vec<usize> = std::iter::once(first_op)
            .chain(rest.iter().cloned())
            .collect();
        let names = || ops.iter().map(|o| STORE_OPS[*o]).collect::<Vec<_>>();
        let mut parts: Vec<Participation> =
            shapes.iter().map(|s| make(s.0, s.1, s.2, s.2)).collect();
        let mut deleted = [0u64; 2];
        // Whatever an earlier sequence left in the store belongs to neither.
        let mut stored: Option<usize> = None;
        if !ever && !ops.contains(&0) && !ops.contains(&1) {
            // nothing is stored by anything but storing
            nothing_stored = true;
        } else {
            nothing_stored = false;
            ever = true;
        }
        for (k, o) in ops.iter().enumerate() {
            let case = || format!("{:?}, step {}", names(), k);
            r.step();
            let res = guard(|| -> Result<(), String> {
                match o {
                    0 | 1 => parts[*o].persist().map_err(|e| e.to_string()),
                    2 => parts[0]
                        .delete_old_keys(Round(4), &proto)
                        .map_err(|e| e.to_string()),
                    3 => parts[0]
                        .delete_old_keys(Round(7), &proto)
                        .map_err(|e| e.to_string()),
                    4 => parts[0]
                        .delete_old_keys(Round(6), &proto)
                        .map_err(|e| e.to_string()),
                    5 => parts[1]
                        .delete_old_keys(Round(9), &proto)
                        .map_err(|e| e.to_string()),
                    6 => parts[0]
                        .delete_old_keys(Round(12), &proto)
                        .map_err(|e| e.to_string()),
                    7 => parts[1]
                        .delete_old_keys(Round(15), &proto)
                        .map_err(|e| e.to_string()),
                    _ => {
                        let i = o - 8;
                        if stored == Some(i) {
                            parts[i] = Participation::restore().map_err(|e| e.to_string())?;
                        }
                        Ok(())
                    }
                }
            });
            match r.no_panic(res, "store-panic", case) {
                Some(Ok(())) => {}
                Some(Err(e)) => {
                    r.violation("store", case(), e);
                    return;
                }
                None => return,
            }
            match o {
                0 | 1 => stored = Some(*o),
                2 => deleted[0] = deleted[0].max(4),
                3 => deleted[0] = deleted[0].max(7),
                4 => deleted[0] = deleted[0].max(6),
                5 => deleted[1] = deleted[1].max(9),
                6 => deleted[0] = deleted[0].max(12),
                7 => deleted[1] = deleted[1].max(15),
                _ => {}
            }
            if k + 1 < ops.len() {
                continue;
            }
            r.state();
            r.trace();
            for i in 0..2 {
                let (f, l, d) = shapes[i];
                for x in 0..18 {
                    r.check_eq(
                        &signs(&parts[i], x, d),
                        &live(x, f, l, d, deleted[i]),
                        "memory-keys",
                        || format!("{}, participation {}, round {}", case(), i, x),
                    );
                }
            }
            if nothing_stored {
                let res = guard(|| Participation::restore().is_ok());
                r.check(res == Ok(false), "stored-by-itself", case, || {
                    format!("nothing was stored, restoring gives {:?}", res)
                });
            }
            if let Some(i) = stored {
                let (f, l, d) = shapes[i];
                match guard(|| Participation::restore().map_err(|e| e.to_string())) {
                    Ok(Ok(p)) => {
                        r.check(
                            p.parent == parts[i].parent
                                && p.valid_interval() == parts[i].valid_interval()
                                && p.key_dilution == d
                                && p.voting.verifier == parts[i].voting.verifier
                                && p.vrf.public() == parts[i].vrf.public(),
                            "stored-identity",
                            case,
                            || format!("{:?} {}", p.valid_interval(), p.key_dilution),
                        );
                        for x in 0..18 {
                            r.check_eq(
                                &signs(&p, x, d),
                                &live(x, f, l, d, deleted[i]),
                                "stored-keys",
                                || format!("{}, participation {}, round {}", case(), i, x),
                            );
                        }
                        r.outcome("stored keys compared");
                    }
                    other => r.violation(
                        "store",
                        case(),
                        format!("{:?}", other.map(|x| x.map(|_| ()))),
                    ),
                }
            }
        }
    });
    r
}

fn stores(r: &mut Report) {
    let base = scratch("c30");
    for depth in 1..=tier(4usize, 5) {
        let jobs: Vec<usize> = (0..STORE_OPS.len()).collect();
        parallel(r, jobs, |r, &op| {
            let dir = base.join(format!("{}-{}", depth, op));
            std::fs::create_dir_all(&dir).expect("dir");
            let (rc, so, se) = run_self(
                &["store", &op.to_string(), &depth.to_string()],
                &dir,
                &[],
                1500,
            );
            if rc != Some(0) || !r.merge_child_json(so.trim()) {
                r.violation(
                    "store-process",
                    format!("depth {} first {}", depth, STORE_OPS[op]),
                    format!("rc={:?} {}", rc, se),
                );
            }
        });
    }
    r.space(
        "store histories",
        format!("all sequences of up to {} of {:?}", tier(4, 5), STORE_OPS),
    );
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if std::env::var("VERIF_CHILD").is_ok() && args.len() == 3 {
        let part = store_child(args[1].parse().unwrap(), args[2].parse().unwrap());
        out(&part.to_child_json());
        std::process::exit(0);
    }
    let mut r = Report::new("C30");
    r.assume("one participation is held at a time under each identity: two live copies of the same participation are not both written back");
    r.assume("batch numbers stay below 2^64 - 1 (positive dilution; the last possible batch number cannot be passed)");
    identifiers(&mut r);
    generation(&mut r);
    long_ranges(&mut r);
    deletions(&mut r);
    stores(&mut r);
    r.finish()
}
