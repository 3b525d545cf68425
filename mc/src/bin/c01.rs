//! C01: the Merkle trie is a set and its root depends only on the set's contents.
//!
//! Breadth-first search over the reachable canonical states of the real trie (structure, cached
//! hashes, dirty marks) with add / delete / root_hash / wrong-length calls as transitions, for
//! several alphabets chosen to force every prefix-sharing shape; plus stateless enumeration of all
//! histories to a depth on the sled backend and with long elements.

use std::collections::{BTreeSet, HashMap, VecDeque};

use algorsand::crypto::Trie;
use mc::triekit::*;
use mc::*;

fn run(hist: &[Op]) -> (Trie, Model, Vec<(Out, Out)>) {
    let mut t = Trie::new(Disk::default());
    let mut m = Model::default();
    let mut outs = Vec::new();
    for op in hist {
        let a = apply(&mut t, op);
        let b = m.apply(op);
        outs.push((a, b));
    }
    (t, m, outs)
}

fn bfs(r: &mut Report, name: &str, elems: &[Vec<u8>], others: &[Vec<u8>], max_states: usize) {
    let mut ops: Vec<Op> = vec![Op::Root];
    ops.extend(elems.iter().map(|e| Op::Add(e.clone())));
    ops.extend(elems.iter().map(|e| Op::Del(e.clone())));
    ops.extend(others.iter().map(|e| Op::Add(e.clone())));
    ops.extend(others.iter().map(|e| Op::Del(e.clone())));
    let mut seen: HashMap<String, ()> = HashMap::new();
    let mut roots: HashMap<[u8; 32], BTreeSet<Vec<u8>>> = HashMap::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    seen.insert("|".into(), ());
    q.push_back(vec![]);
    r.state();
    let mut maxd = 0;
    let (mut ns, mut nt) = (1u64, 0u64);
    while let Some(h) = q.pop_front() {
        if r.has_violations() {
            break;
        }
        maxd = maxd.max(h.len());
        for op in &ops {
            let mut h2 = h.clone();
            h2.push(op.clone());
            nt += 1;
            r.step();
            let res = guard(|| {
                let (mut t, m, outs) = run(&h2);
                let c = canon(&mut t);
                // Final observation: the root hash of the state reached.
                let root = apply(&mut t, &Op::Root);
                (m, outs, c, root)
            });
            let case = || format!("[{}] {}", name, show(&h2));
            let Some((m, outs, c, root)) = r.no_panic(res, "panic", case) else {
                continue;
            };
            let (a, b) = outs.last().unwrap();
            r.outcome(match b {
                Out::Changed(true) => "changed",
                Out::Changed(false) => "unchanged",
                Out::Hash(_) => "root",
                Out::LengthMismatch => "length-mismatch",
                _ => "?",
            });
            let kind = match op {
                Op::Add(_) => "add",
                Op::Del(_) => "delete",
                Op::Root => "root",
            };
            r.check_eq(a, b, kind, case);
            r.check_eq(
                &root,
                &Out::Hash(model::trie::root(&m.set)),
                "root-after",
                case,
            );
            if let Out::Hash(x) = root {
                let prev = roots.entry(x).or_insert_with(|| m.set.clone());
                r.check(
                    *prev == m.set,
                    "root-collision",
                    || format!("{} / {:?}", show(&h2), prev),
                    || "two different sets have the same root".into(),
                );
            }
            r.trace();
            match c {
                Ok(c) => {
                    // The element length remembered by an emptied trie is part of the state:
                    // distinguished by the last op so that emptied tries are re-explored.
                    let k = if c.is_empty() {
                        format!("|{}", kind)
                    } else {
                        c
                    };
                    if !seen.contains_key(&k) {
                        if seen.len() >= max_states {
                            r.capped(&format!("{}: stopped at {} states", name, max_states));
                            continue;
                        }
                        seen.insert(k, ());
                        r.state();
                        ns += 1;
                        r.sample(name, || show(&h2));
                        q.push_back(h2);
                    }
                }
                Err(e) => r.violation("structure", case(), e),
            }
        }
    }
    r.space(name, serde_json::json!({"elements": elems.len(), "states": ns, "transitions": nt, "depth": maxd, "distinct_sets": roots.len()}));
}

/// All histories of exactly `depth` operations (no state merging), on a chosen backend.
fn stateless(r: &mut Report, name: &str, elems: &[Vec<u8>], depth: usize, sled: Option<&sled::Db>) {
    let mut ops: Vec<Op> = Vec::new();
    ops.extend(elems.iter().map(|e| Op::Add(e.clone())));
    ops.extend(elems.iter().map(|e| Op::Del(e.clone())));
    ops.push(Op::Root);
    let mut n = 0u64;
    sequences(ops.len(), depth, |s| {
        let h: Vec<Op> = s.iter().map(|i| ops[*i].clone()).collect();
        n += 1;
        let res = guard(|| {
            let tree_name = format!("t{}", n % 64);
            let mut t = match sled {
                Some(db) => {
                    let tree = db.open_tree(&tree_name).unwrap();
                    tree.clear().unwrap();
                    Trie::new(tree)
                }
                None => Trie::new(algorsand::crypto::InMemoryStorage::default()),
            };
            let mut m = Model::default();
            let mut outs = Vec::new();
            for op in &h {
                outs.push((apply(&mut t, op), m.apply(op)));
            }
            outs.push((apply(&mut t, &Op::Root), m.apply(&Op::Root)));
            outs
        });
        r.state();
        r.steps(depth as u64 + 1);
        r.trace();
        let case = || format!("[{}] {}", name, show(&h));
        if let Some(outs) = r.no_panic(res, "panic", case) {
            for (a, b) in outs {
                if !r.check_eq(&a, &b, "history", case) {
                    break;
                }
            }
        }
        r.sample(name, || show(&h));
    });
    r.space(
        name,
        serde_json::json!({"histories": n, "depth": depth, "alphabet": ops.len()}),
    );
}

fn words(alpha: &[u8], len: usize) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    sequences(alpha.len(), len, |s| {
        out.push(s.iter().map(|i| alpha[*i]).collect())
    });
    out
}

/// An element of the given length and those that differ from it in one of the places.
fn long(len: usize, places: &[usize]) -> Vec<Vec<u8>> {
    let z = vec![9u8; len];
    let mut v = vec![z.clone()];
    for i in places {
        let mut e = z.clone();
        e[*i] = 200;
        v.push(e);
    }
    v
}

fn main() {
    let mut r = Report::new("C01");
    r.assume("elements over small byte alphabets represent all elements: the trie only compares bytes for equality and uses them as child indices");
    let big = tier(20_000, 400_000);
    let jobs: Vec<(&str, Vec<Vec<u8>>, Vec<Vec<u8>>)> = vec![
        ("len0", vec![vec![]], vec![vec![0], vec![1, 2]]),
        (
            "len1",
            words(&[0, 1, 127, 128, 255], 1),
            vec![vec![], vec![0, 0], vec![1, 0]],
        ),
        (
            "len2-binary",
            words(&[0, 255], 2),
            vec![vec![], vec![0], vec![0, 255, 0]],
        ),
        (
            "len2-ternary",
            words(&[0, 1, 255], 2).into_iter().take(6).collect(),
            vec![vec![255]],
        ),
        (
            "len3-binary",
            words(&[0, 1], 3),
            vec![vec![0, 1], vec![0, 0, 0, 0]],
        ),
        (
            "len4-chains",
            vec![
                vec![7, 7, 7, 7],
                vec![7, 7, 7, 8],
                vec![7, 7, 8, 7],
                vec![7, 8, 7, 7],
                vec![8, 7, 7, 7],
            ],
            vec![vec![7, 7]],
        ),
        (
            "len33-chains",
            {
                let z = vec![9u8; 33];
                let mut v = vec![z.clone()];
                for i in [0usize, 1, 31, 32] {
                    let mut e = z.clone();
                    e[i] = 200;
                    v.push(e);
                }
                v
            },
            vec![vec![9; 32]],
        ),
        (
            "len255-to-257",
            long(256, &[0, 254, 255]),
            vec![vec![], vec![9; 255], vec![9; 257]],
        ),
        (
            "len300-chains",
            long(300, &[1, 255, 256, 299]),
            vec![vec![9; 44], vec![9; 299]],
        ),
        (
            "wide-node",
            (0..=255u8).step_by(51).map(|b| vec![b, b]).collect(),
            vec![],
        ),
    ];
    parallel(&mut r, jobs, |r, (n, e, o)| bfs(r, n, e, o, big));
    // changing element length after the trie was emptied
    let mixed: Vec<Vec<u8>> = vec![vec![], vec![3], vec![3, 3], vec![3, 4]];
    stateless(&mut r, "mixed-lengths", &mixed, tier(4, 6), None);
    let mixed: Vec<Vec<u8>> = vec![vec![], vec![3; 1], vec![3; 256], vec![3; 257]];
    stateless(&mut r, "mixed-long-lengths", &mixed, tier(4, 6), None);
    stateless(
        &mut r,
        "in-memory-histories",
        &[vec![1, 1], vec![1, 2], vec![2, 1]],
        tier(5, 7),
        None,
    );
    let db = open_sled(&scratch("sled"));
    stateless(
        &mut r,
        "sled-histories",
        &[vec![1, 1], vec![1, 2], vec![2, 1]],
        tier(3, 5),
        Some(&db),
    );
    // one full-width node: 256 children, added and removed one by one in both orders
    let res = guard(|| {
        let mut bad = None;
        let mut t = Trie::new(Disk::default());
        let mut m = Model::default();
        let mut seq: Vec<Op> = Vec::new();
        for b in 0..=255u8 {
            seq.push(Op::Add(vec![b, 1]));
        }
        for b in 0..=255u8 {
            seq.push(Op::Del(vec![b.wrapping_mul(37), 1]));
        }
        for (i, op) in seq.iter().enumerate() {
            let (a, b) = (apply(&mut t, op), m.apply(op));
            let (ra, rb) = (apply(&mut t, &Op::Root), m.apply(&Op::Root));
            if (a != b || ra != rb) && bad.is_none() {
                bad = Some(i);
            }
        }
        bad
    });
    r.steps(1024);
    r.states(512);
    r.trace();
    if let Some(Some(i)) = r.no_panic(res, "panic", || "256-way node".into()) {
        r.violation(
            "history",
            format!("256-way node, step {}", i),
            "diverges from the set model",
        );
    }
    r.finish()
}
