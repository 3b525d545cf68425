//! C02: storage holds exactly the live nodes, and can be re-read.
//!
//! State-space search over real trie histories on an observed storage device. In every state the
//! stored node set must equal the set reachable from the root (and have the size of the reference
//! trie); after each root computation the device is re-opened by a fresh trie, which must agree on
//! the root hash and on membership of every element of the alphabet, and keep agreeing when
//! it is the one that computes the root again.

use std::collections::{HashSet, VecDeque};

use algorsand::crypto::{InMemoryStorage, Storage, Trie};
use mc::triekit::*;
use mc::*;

fn observe(hist: &[Op], elems: &[Vec<u8>]) -> Result<(String, usize), (String, String)> {
    let disk = Disk::default();
    let mut t = Trie::new(disk.clone());
    let mut m = Model::default();
    for op in hist {
        apply(&mut t, op);
        m.apply(op);
    }
    let live = reachable(&disk.0.borrow(), t.root).map_err(|e| ("dangling".to_string(), e))?;
    let stored: std::collections::BTreeSet<_> = disk.0.borrow().nodes.keys().copied().collect();
    if live != stored {
        let leak: Vec<_> = stored.difference(&live).collect();
        return Err((
            "leak".into(),
            format!("stored but unreachable nodes: {:?}", leak),
        ));
    }
    let want = model::trie::node_count(&m.set, 0);
    if live.len() != want {
        return Err((
            "size".into(),
            format!("{} nodes stored, a minimal trie has {}", live.len(), want),
        ));
    }
    let c = canon(&mut t).map_err(|e| ("structure".to_string(), e))?;
    // membership through the live trie
    for e in elems {
        if e.is_empty() {
            continue;
        }
        let got = match t.root {
            None => false,
            Some(id) => {
                let n = t
                    .cache
                    .get_node(id)
                    .map_err(|e| ("find".to_string(), e.to_string()))?;
                n.find(&mut t.cache, e)
                    .map_err(|e| ("find".to_string(), e.to_string()))?
            }
        };
        if got != m.set.contains(e) {
            return Err((
                "find".into(),
                format!("find({}) = {} on the live trie", hex(e), got),
            ));
        }
    }
    // re-open, after the root hash was computed by the original trie
    if hist.last() == Some(&Op::Root) {
        let before = disk.0.borrow().nodes.clone();
        let copy = Disk::default();
        copy.0.borrow_mut().nodes = before.clone();
        let mut t2 = Trie::new(copy.clone());
        t2.root = t.root;
        let want = Out::Hash(model::trie::root(&m.set));
        for _ in 0..2 {
            let got = apply(&mut t2, &Op::Root);
            if got != want {
                return Err((
                    "reopen-root".into(),
                    format!("re-opened trie has root {:?}, expected {:?}", got, want),
                ));
            }
        }
        for e in elems {
            let got = match t2.root {
                None => false,
                Some(id) => {
                    let n = t2
                        .cache
                        .get_node(id)
                        .map_err(|e| ("reopen-find".to_string(), e.to_string()))?;
                    n.find(&mut t2.cache, e)
                        .map_err(|e| ("reopen-find".to_string(), e.to_string()))?
                }
            };
            if got != m.set.contains(e) {
                return Err((
                    "reopen-find".into(),
                    format!("find({}) = {} on the re-opened trie", hex(e), got),
                ));
            }
        }
        if copy.0.borrow().nodes != before {
            return Err((
                "reopen-writes".into(),
                "computing an already computed root changed the stored nodes".into(),
            ));
        }
    }
    Ok((c, live.len()))
}

fn bfs(r: &mut Report, name: &str, elems: &[Vec<u8>], max_states: usize) {
    let mut ops: Vec<Op> = vec![Op::Root];
    ops.extend(elems.iter().map(|e| Op::Add(e.clone())));
    ops.extend(elems.iter().map(|e| Op::Del(e.clone())));
    let mut seen: HashSet<String> = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    seen.insert(String::new());
    q.push_back(vec![]);
    r.state();
    let (mut ns, mut nt, mut maxn) = (1u64, 0u64, 0);
    while let Some(h) = q.pop_front() {
        if r.has_violations() {
            break;
        }
        for op in &ops {
            let mut h2 = h.clone();
            h2.push(op.clone());
            nt += 1;
            r.step();
            r.trace();
            let case = || format!("[{}] {}", name, show(&h2));
            match r.no_panic(guard(|| observe(&h2, elems)), "panic", case) {
                None => {}
                Some(Err((k, e))) => r.violation(&k, case(), e),
                Some(Ok((c, n))) => {
                    maxn = maxn.max(n);
                    r.outcome(if n == 0 { "empty" } else { "non-empty" });
                    if !seen.contains(&c) {
                        if seen.len() >= max_states {
                            r.capped(&format!("{}: stopped at {} states", name, max_states));
                            continue;
                        }
                        seen.insert(c);
                        r.state();
                        ns += 1;
                        r.sample(name, || show(&h2));
                        q.push_back(h2);
                    }
                }
            }
        }
    }
    r.space(name, serde_json::json!({"elements": elems.len(), "states": ns, "transitions": nt, "max_live_nodes": maxn}));
}

/// The two shipped storage backends behave as the abstract map node id -> bytes.
fn backends(r: &mut Report, depth: usize) {
    let db = open_sled(&scratch("sled"));
    let tree = db.open_tree("b").unwrap();
    let contents: [&[u8]; 4] = [&[], &[0], &[1, 2, 3], &[255; 40]];
    let ids = [
        0u64,
        1,
        255,
        256,
        65_536,
        1 << 32,
        (1 << 32) + 1,
        1 << 56,
        u64::MAX,
    ];
    let nops = contents.len() * ids.len();
    let mut n = 0u64;
    sequences(nops, depth, |s| {
        n += 1;
        tree.clear().unwrap();
        let mut a: Box<dyn Storage> = Box::new(InMemoryStorage::default());
        let mut b: Box<dyn Storage> = Box::new(tree.clone());
        let mut m: std::collections::BTreeMap<u64, Vec<u8>> = Default::default();
        for i in s {
            let (id, c) = (ids[i / contents.len()], contents[i % contents.len()]);
            a.store_node(id, c).unwrap();
            b.store_node(id, c).unwrap();
            if c.is_empty() {
                m.remove(&id);
            } else {
                m.insert(id, c.to_vec());
            }
        }
        for id in ids {
            let (x, y) = (a.load_node(id).unwrap(), b.load_node(id).unwrap());
            r.steps(2);
            let case = || format!("store ops {:?}, load {}", s, id);
            r.check_eq(&x, &m.get(&id).cloned(), "backend-memory", case);
            r.check_eq(&y, &m.get(&id).cloned(), "backend-sled", case);
        }
        r.trace();
        r.state();
    });
    r.space(
        "backends",
        serde_json::json!({"histories": n, "depth": depth}),
    );
}

/// Histories long enough for identifiers to pass the borders of their encodings: elements come and
/// go, and whenever the next identifier is near such a border everything is looked at.
fn endless(r: &mut Report) {
    let elems: Vec<Vec<u8>> = vec![
        vec![1, 1, 1],
        vec![1, 1, 2],
        vec![1, 2, 1],
        vec![2, 1, 1],
        vec![2, 2, 2],
    ];
    let limit = tier(70_000u64, 2_200_000);
    let patterns: Vec<Vec<usize>> = vec![
        vec![0, 1, 0, 1],
        vec![0, 1, 2, 3, 4, 2, 0, 1, 4, 3],
        vec![0, 3, 4, 3, 0, 2, 4, 2],
    ];
    parallel(r, patterns, |r, pattern| {
        let disk = Disk::default();
        let res = guard(|| {
            let mut t = Trie::new(disk.clone());
            let mut m = Model::default();
            let (mut n, mut looked) = (0u64, 0u64);
            loop {
                for i in pattern {
                    let e = &elems[*i];
                    let op = if m.set.contains(e) {
                        Op::Del(e.clone())
                    } else {
                        Op::Add(e.clone())
                    };
                    n += 1;
                    if apply(&mut t, &op) != m.apply(&op) {
                        return Err(format!("call {}: {}", n, show(&[op])));
                    }
                    let top = disk.0.borrow().nodes.keys().last().copied().unwrap_or(0);
                    let near = [1u64 << 7, 1 << 8, 1 << 14, 1 << 16, 1 << 21]
                        .iter()
                        .any(|b| top + 6 >= *b && top <= *b + 6);
                    if n % 5000 == 0 || near {
                        looked += 1;
                        let live = reachable(&disk.0.borrow(), t.root)
                            .map_err(|e| format!("after {} calls: {}", n, e))?;
                        let stored: std::collections::BTreeSet<_> =
                            disk.0.borrow().nodes.keys().copied().collect();
                        if live != stored || live.len() != model::trie::node_count(&m.set, 0) {
                            return Err(format!(
                                "after {} calls: stored {:?}, reachable {:?}",
                                n, stored, live
                            ));
                        }
                        let want = Out::Hash(model::trie::root(&m.set));
                        if apply(&mut t, &Op::Root) != want {
                            return Err(format!("after {} calls: wrong root", n));
                        }
                        let copy = Disk::default();
                        copy.0.borrow_mut().nodes = disk.0.borrow().nodes.clone();
                        let mut t2 = Trie::new(copy);
                        t2.root = t.root;
                        if apply(&mut t2, &Op::Root) != want {
                            return Err(format!("after {} calls: wrong root when re-opened", n));
                        }
                    }
                    if top > limit {
                        return Ok((n, looked));
                    }
                    if n > 4 * limit {
                        return Ok((n, looked)); // identifiers are used again
                    }
                }
            }
        });
        let case = || {
            format!(
                "elements {:?} of {:?} put in and taken out in turn",
                pattern, elems
            )
        };
        r.state();
        if let Some(res) = r.no_panic(res, "panic", case) {
            match res {
                Err(e) => r.violation("endless", case(), e),
                Ok((n, looked)) => {
                    r.steps(n);
                    r.trace();
                    r.space(
                        &format!("long history {:?}", pattern),
                        serde_json::json!({"calls": n, "looked": looked}),
                    );
                }
            }
        }
    });
}

/// A trie kept in sled is there again when the database is opened anew.
fn reopened(r: &mut Report, depth: usize) {
    let elems: Vec<Vec<u8>> = vec![vec![1, 1], vec![1, 2], vec![2, 1]];
    let mut ops: Vec<Op> = elems.iter().map(|e| Op::Add(e.clone())).collect();
    ops.extend(elems.iter().map(|e| Op::Del(e.clone())));
    let path = scratch("reopened");
    let mut all: Vec<(String, Vec<Op>, Option<u64>)> = Vec::new();
    let db = open_sled(&path);
    let mut n = 0;
    sequences(ops.len(), depth, |s| {
        n += 1;
        let h: Vec<Op> = s
            .iter()
            .map(|i| ops[*i].clone())
            .chain([Op::Root])
            .collect();
        let name = format!("trie {}", n);
        let root = guard(|| {
            let mut t = Trie::new(db.open_tree(&name).unwrap());
            for op in &h {
                apply(&mut t, op);
            }
            t.root
        });
        if let Some(root) = r.no_panic(root, "panic", || show(&h)) {
            all.push((name, h, root));
        }
    });
    db.flush().expect("flush");
    drop(db);
    let db = open_sled(&path);
    for (name, h, root) in &all {
        r.state();
        r.steps(1 + elems.len() as u64);
        let mut m = Model::default();
        for op in h {
            m.apply(op);
        }
        let case = || format!("{} on sled, closed and opened", show(h));
        let got = guard(|| {
            let tree = db.open_tree(name).unwrap();
            let nodes = tree.len();
            let mut t = Trie::new(tree);
            t.root = *root;
            let out = apply(&mut t, &Op::Root);
            let found: Vec<bool> = elems
                .iter()
                .map(|e| match root {
                    None => false,
                    Some(id) => t
                        .cache
                        .get_node(*id)
                        .and_then(|n| n.find(&mut t.cache, e))
                        .unwrap_or(false),
                })
                .collect();
            (out, found, nodes)
        });
        if let Some((out, found, nodes)) = r.no_panic(got, "panic", case) {
            r.check_eq(
                &out,
                &Out::Hash(model::trie::root(&m.set)),
                "sled-reopen-root",
                case,
            );
            r.check_eq(
                &found,
                &elems.iter().map(|e| m.set.contains(e)).collect(),
                "sled-reopen-find",
                case,
            );
            r.check_eq(
                &nodes,
                &model::trie::node_count(&m.set, 0),
                "sled-nodes",
                case,
            );
        }
        r.trace();
    }
    r.space("tries in a database opened again", all.len() as u64);
}

fn main() {
    let mut r = Report::new("C02");
    let w = |alpha: &[u8], len: usize| {
        let mut out: Vec<Vec<u8>> = Vec::new();
        sequences(alpha.len(), len, |s| {
            out.push(s.iter().map(|i| alpha[*i]).collect())
        });
        out
    };
    let big = tier(20_000, 400_000);
    let mut five = w(&[0, 1, 255], 2);
    five.truncate(6);
    let jobs: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("len1", w(&[0, 1, 127, 128, 255], 1)),
        ("len2-binary", w(&[0, 255], 2)),
        ("len2-ternary", five),
        ("len3-binary", w(&[0, 1], 3)),
        (
            "len4-chains",
            vec![
                vec![7, 7, 7, 7],
                vec![7, 7, 7, 8],
                vec![7, 7, 8, 7],
                vec![7, 8, 7, 7],
                vec![8, 7, 7, 7],
            ],
        ),
        (
            "len33-chains",
            (0..4usize)
                .map(|k| {
                    let mut e = vec![9u8; 33];
                    if k > 0 {
                        e[[0, 0, 16, 32][k]] = 200;
                    }
                    e
                })
                .collect(),
        ),
    ];
    parallel(&mut r, jobs, |r, (n, e)| bfs(r, n, e, big));
    // many nodes: identifiers beyond one and two varint bytes
    for n in [200usize, 2000] {
        let mut h: Vec<Op> = (0..n)
            .map(|i| Op::Add(vec![(i % 16) as u8, (i / 16 % 16) as u8, (i / 256) as u8]))
            .collect();
        h.push(Op::Root);
        let el = vec![vec![0, 0, 0], vec![15, 15, 15], vec![3, 2, 0]];
        r.step();
        r.state();
        r.trace();
        match r.no_panic(guard(|| observe(&h, &el)), "panic", || {
            format!("{} additions", n)
        }) {
            Some(Err((k, e))) => r.violation(&k, format!("{} additions", n), e),
            _ => {}
        }
        let mut h2 = h.clone();
        for i in (0..n).step_by(2) {
            h2.push(Op::Del(vec![
                (i % 16) as u8,
                (i / 16 % 16) as u8,
                (i / 256) as u8,
            ]));
        }
        h2.push(Op::Root);
        match r.no_panic(guard(|| observe(&h2, &el)), "panic", || {
            format!("{} additions, half deleted", n)
        }) {
            Some(Err((k, e))) => r.violation(&k, format!("{} additions, half deleted", n), e),
            _ => {}
        }
    }
    // nodes with every number of children, leaves and inner nodes, filled and emptied in several orders
    let jobs: Vec<(u8, u8, usize)> = [(1u8, 0u8), (255, 255), (37, 5), (129, 128)]
        .iter()
        .flat_map(|(m, o)| {
            [1usize, 2, 3, 64, 127, 128, 129, 192, 253, 254, 255, 256].map(|n| (*m, *o, n))
        })
        .collect();
    parallel(&mut r, jobs, |r, &(m, o, n)| {
        let at = |i: usize| (i as u8).wrapping_mul(m).wrapping_add(o);
        for both in [false, true] {
            let mut h: Vec<Op> = vec![];
            for i in 0..n {
                h.push(Op::Add(vec![at(i), 1]));
                if both && i % 2 == 0 {
                    h.push(Op::Add(vec![at(i), 200]));
                }
            }
            h.push(Op::Root);
            for down in [0, 1, n / 2, n - 1, n] {
                let mut h = h.clone();
                for i in 0..down {
                    h.push(Op::Del(vec![at(i * 5 % n.max(1)), 1]));
                }
                h.push(Op::Root);
                let el: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b, 1]).collect();
                r.step();
                r.state();
                r.trace();
                let case = || {
                    format!(
                        "{} children in order {}i+{} {}, {} deleted",
                        n,
                        m,
                        o,
                        if both { "half of them inner nodes" } else { "" },
                        down
                    )
                };
                if let Some(Err((k, e))) = r.no_panic(guard(|| observe(&h, &el)), "panic", case) {
                    r.violation(&k, case(), e);
                }
            }
        }
    });
    r.space(
        "wide nodes",
        "1 to 256 children in 4 orders, leaves and inner nodes, none to all deleted",
    );
    endless(&mut r);
    reopened(&mut r, tier(3, 4));
    backends(&mut r, tier(2, 3));
    r.finish()
}
