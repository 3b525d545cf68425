//! C37: a bit set is exactly a set of the positions 0..=255.
//!
//! Every sequence of `set_bit` and `clear_bit` up to a depth over positions at and around every word
//! border, and every pair of calls over all 256 positions, each from the empty, the full and the two
//! alternating sets; after each call all positions, emptiness, equality and copies are compared with
//! a plain set.

use std::collections::{BTreeSet, HashSet, VecDeque};

use algorsand::crypto::merkletrie::Bitset;
use mc::*;

fn build(m: &BTreeSet<u64>, descending: bool) -> Bitset {
    let mut b = Bitset::default();
    if descending {
        m.iter().rev().for_each(|i| b.set_bit(*i));
    } else {
        m.iter().for_each(|i| b.set_bit(*i));
    }
    b
}

fn looks(r: &mut Report, b: &Bitset, m: &BTreeSet<u64>, case: &dyn Fn() -> String) {
    r.step();
    let got = guard(|| {
        (
            (0..256u64).filter(|i| b.bit(*i)).collect::<Vec<u64>>(),
            b.is_zero(),
        )
    });
    if let Some((bits, zero)) = r.no_panic(got, "panic", case) {
        r.check(bits.iter().eq(m.iter()), "members", case, || {
            format!("holds {:?}, expected {:?}", bits, m)
        });
        r.check_eq(&zero, &m.is_empty(), "is_zero", case);
    }
}

fn apply(b: &mut Bitset, m: &mut BTreeSet<u64>, op: (bool, u64)) {
    if op.0 {
        b.set_bit(op.1);
        m.insert(op.1);
    } else {
        b.clear_bit(op.1);
        m.remove(&op.1);
    }
}

/// All sets reachable over the given positions, and every call from each of them.
fn bfs(r: &mut Report, name: &str, start: &BTreeSet<u64>, positions: &[u64]) {
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    seen.insert(start.clone());
    q.push_back((build(start, false), start.clone()));
    while let Some((b, m)) = q.pop_front() {
        if r.has_violations() {
            return;
        }
        r.state();
        for p in positions {
            for set in [true, false] {
                let (mut b2, mut m2) = (b, m.clone());
                let case = || {
                    format!(
                        "{} {} applied to {:?}",
                        if set { "set" } else { "clear" },
                        p,
                        m
                    )
                };
                let done = guard(|| apply(&mut b2, &mut m2, (set, *p)));
                if r.no_panic(done, "panic", case).is_none() {
                    continue;
                }
                looks(r, &b2, &m2, &case);
                looks(r, &b, &m, &|| {
                    format!(
                        "the set {:?}, after {} {} on a copy of it",
                        m,
                        if set { "set" } else { "clear" },
                        p
                    )
                });
                r.check(b2 == build(&m2, true), "equality", case, || {
                    "differs from the same set built in another order".into()
                });
                r.check_eq(&(b2 == b), &(m2 == m), "equality", case);
                r.trace();
                r.outcome(if m2 == m { "unchanged" } else { "changed" });
                if seen.insert(m2.clone()) {
                    q.push_back((b2, m2));
                }
            }
        }
    }
    r.space(name, seen.len() as u64);
}

fn main() {
    let mut r = Report::new("C37");
    let empty: BTreeSet<u64> = BTreeSet::new();
    let full: BTreeSet<u64> = (0..256).collect();
    let even: BTreeSet<u64> = (0..256).filter(|i| i % 2 == 0).collect();
    let odd: BTreeSet<u64> = (0..256).filter(|i| i % 2 == 1).collect();
    let borders: Vec<u64> = tier(
        vec![0, 31, 32, 63, 64, 127, 128, 191, 192, 255],
        vec![0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255],
    );
    for (name, s) in [
        ("empty", &empty),
        ("full", &full),
        ("even", &even),
        ("odd", &odd),
    ] {
        bfs(
            &mut r,
            &format!("from {} over the borders", name),
            s,
            &borders,
        );
    }
    // Every ordered pair of calls over all positions, from each start.
    let starts = vec![empty, full, even, odd];
    let jobs: Vec<(BTreeSet<u64>, u64)> = starts
        .iter()
        .flat_map(|s| (0..256).map(move |p| (s.clone(), p)))
        .collect();
    parallel(&mut r, jobs, |r, (start, p)| {
        for first in [true, false] {
            for q in 0..256u64 {
                for second in [true, false] {
                    r.state();
                    r.trace();
                    let case = || {
                        format!(
                            "{} {} then {} {} on {:?}",
                            if first { "set" } else { "clear" },
                            p,
                            if second { "set" } else { "clear" },
                            q,
                            start.iter().take(4).collect::<Vec<_>>()
                        )
                    };
                    let (mut b, mut m) = (build(start, false), start.clone());
                    let done = guard(|| {
                        apply(&mut b, &mut m, (first, *p));
                        apply(&mut b, &mut m, (second, q));
                    });
                    if r.no_panic(done, "panic", case).is_some() {
                        looks(r, &b, &m, &case);
                        r.check(b == build(&m, true), "equality", case, || {
                            "differs from the same set built in another order".into()
                        });
                    }
                }
            }
        }
    });
    r.finish()
}
