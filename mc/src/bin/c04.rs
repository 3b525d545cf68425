//! C04: the Merkle trie survives storage faults without losing or inventing elements.
//!
//! Fault enumeration on the real trie: for every history up to a depth over several alphabets and
//! every storage call made by its last operation, that call fails (alone, together with a second
//! later call, or it and all later ones). The operation must report an error without panicking, and
//! once the device works again the trie must behave as the unchanged set, for every continuation.

use std::collections::{HashSet, VecDeque};

use algorsand::crypto::Trie;
use mc::triekit::*;
use mc::*;

fn setup(hist: &[Op]) -> (Disk, Trie, Model) {
    let disk = Disk::default();
    let mut t = Trie::new(disk.clone());
    let mut m = Model::default();
    for op in hist {
        apply(&mut t, op);
        m.apply(op);
    }
    (disk, t, m)
}

#[derive(Clone, Debug)]
enum Plan {
    One(u64),
    Two(u64, u64),
    From(u64),
}

fn arm(d: &Disk, p: &Plan) {
    let mut d = d.0.borrow_mut();
    d.fail.clear();
    match p {
        Plan::One(k) => {
            d.fail.insert(*k);
        }
        Plan::Two(k, l) => {
            d.fail.insert(*k);
            d.fail.insert(*l);
        }
        Plan::From(k) => d.fail.extend(*k..*k + 3000),
    }
    d.armed = true;
    d.armed_calls = 0;
    d.fired = 0;
}

/// Runs history + faulty op; then checks one continuation. Returns Err(kind, detail).
fn one(hist: &[Op], op: &Op, plan: &Plan, cont: &[Op]) -> Result<bool, (String, String)> {
    let (disk, mut t, mut m) = setup(hist);
    arm(&disk, plan);
    let got = guard(|| apply(&mut t, op)).map_err(|p| ("fault-panic".to_string(), p))?;
    disk.0.borrow_mut().armed = false;
    let fired = disk.0.borrow().fired;
    let want = m.clone().apply(op);
    if got == want {
        // The operation succeeded (the fault was not hit, or a second attempt went well).
        if fired > 0 && matches!(plan, Plan::From(_)) {
            return Err((
                "fault-not-reported".into(),
                format!(
                    "the device failed from some point on, yet the call returned {:?}",
                    got
                ),
            ));
        }
        m.apply(op);
    } else {
        if fired == 0 {
            return Err((
                "no-fault".into(),
                format!("no fault was injected, yet {:?} instead of {:?}", got, want),
            ));
        }
        if !matches!(got, Out::OtherErr(_)) {
            return Err((
                "fault-wrong-answer".into(),
                format!("with a failing device the call returned {:?}", got),
            ));
        }
    }
    for c in cont {
        let want = m.apply(c);
        let got = guard(|| apply(&mut t, c)).map_err(|p| {
            (
                "after-fault-panic".to_string(),
                format!("{} -> {}", show(&[c.clone()]), p),
            )
        })?;
        if got != want {
            return Err((
                "after-fault".into(),
                format!(
                    "continuation {}: {} gives {:?}, the set model gives {:?}",
                    show(cont),
                    show(&[c.clone()]),
                    got,
                    want
                ),
            ));
        }
    }
    // single faults: the stored image must be intact as well
    if let Plan::One(_) = plan {
        let live = reachable(&disk.0.borrow(), t.root)
            .map_err(|e| ("after-fault-storage".to_string(), e))?;
        let stored: std::collections::BTreeSet<_> = disk.0.borrow().nodes.keys().copied().collect();
        if live != stored {
            return Err((
                "after-fault-storage".into(),
                format!("{} stored nodes, {} reachable", stored.len(), live.len()),
            ));
        }
    }
    Ok(fired > 0)
}

fn explore(r: &mut Report, name: &str, elems: &[Vec<u8>], max_states: usize, double: bool) {
    let mut ops: Vec<Op> = vec![Op::Root];
    ops.extend(elems.iter().map(|e| Op::Add(e.clone())));
    ops.extend(elems.iter().map(|e| Op::Del(e.clone())));
    // continuations: root; every single op then root; a full teardown
    let mut conts: Vec<Vec<Op>> = vec![vec![Op::Root]];
    for o in &ops {
        conts.push(vec![o.clone(), Op::Root]);
    }
    let mut full: Vec<Op> = elems.iter().map(|e| Op::Add(e.clone())).collect();
    full.push(Op::Root);
    full.extend(elems.iter().map(|e| Op::Del(e.clone())));
    full.push(Op::Root);
    conts.push(full);
    let mut seen = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    seen.insert(String::new());
    q.push_back(vec![]);
    let (mut plans, mut hits) = (0u64, 0u64);
    while let Some(h) = q.pop_front() {
        r.state();
        for op in &ops {
            // number of storage calls the fault-free operation makes
            let (disk, mut t, _) = setup(&h);
            arm(&disk, &Plan::One(u64::MAX));
            if guard(|| apply(&mut t, op)).is_err() {
                continue; // C01's business
            }
            let calls = disk.0.borrow().armed_calls;
            let mut todo: Vec<Plan> = Vec::new();
            for k in 1..=calls {
                todo.push(Plan::One(k));
                todo.push(Plan::From(k));
                if double {
                    for l in k + 1..=(calls + 4).min(k + 6) {
                        todo.push(Plan::Two(k, l));
                    }
                }
            }
            for p in &todo {
                plans += 1;
                for c in &conts {
                    r.step();
                    match one(&h, op, p, c) {
                        Ok(f) => {
                            r.trace();
                            if f {
                                hits += 1;
                                r.outcome("fault-tolerated");
                            } else {
                                r.outcome("fault-not-reached");
                            }
                        }
                        Err((k, d)) => {
                            r.violation(
                                &k,
                                format!(
                                    "[{}] {} then {} with storage fault {:?}",
                                    name,
                                    show(&h),
                                    show(&[op.clone()]),
                                    p
                                ),
                                d,
                            );
                            break;
                        }
                    }
                }
            }
            if r.has_violations() {
                return;
            }
            let mut h2 = h.clone();
            h2.push(op.clone());
            let (_, mut t, _) = setup(&h2);
            if let Ok(Ok(c)) = guard(|| canon(&mut t)) {
                if seen.len() < max_states && seen.insert(c) {
                    r.sample(name, || show(&h2));
                    q.push_back(h2);
                }
            }
        }
    }
    if seen.len() >= max_states {
        r.capped(&format!("{}: stopped at {} states", name, max_states));
    }
    r.space(name, serde_json::json!({"states": seen.len(), "fault_plans": plans, "executions_with_fault_hit": hits}));
}

/// Few histories, but big ones: long shared prefixes (one call changes a node per byte) and many
/// elements. Every storage call of the last operation fails, alone or with all later ones.
fn big(r: &mut Report, name: &str, elems: &[Vec<u8>], held: usize) {
    let hist: Vec<Op> = elems[..held].iter().map(|e| Op::Add(e.clone())).collect();
    let n = elems.len();
    let mut ops = vec![Op::Root];
    for i in [0, held / 2, held - 1, held.min(n - 1), n - 1] {
        let e = &elems[i];
        ops.push(if i < held {
            Op::Del(e.clone())
        } else {
            Op::Add(e.clone())
        });
    }
    let mut conts: Vec<Vec<Op>> = vec![vec![Op::Root]];
    let mut full: Vec<Op> = elems.iter().map(|e| Op::Add(e.clone())).collect();
    full.push(Op::Root);
    full.extend(elems.iter().rev().map(|e| Op::Del(e.clone())));
    full.push(Op::Root);
    conts.push(full);
    let mut plans = 0u64;
    // with the root computed before the failing call, and without
    for h in [hist.clone(), [hist.clone(), vec![Op::Root]].concat()] {
        r.state();
        for op in &ops {
            let (disk, mut t, _) = setup(&h);
            arm(&disk, &Plan::One(u64::MAX));
            if guard(|| apply(&mut t, op)).is_err() {
                continue;
            }
            let calls = disk.0.borrow().armed_calls;
            let stride = (calls / 150).max(1);
            for k in (1..=calls).filter(|k| k % stride == 0 || *k < 20 || *k + 20 > calls) {
                for p in [Plan::One(k), Plan::From(k)] {
                    plans += 1;
                    for c in &conts {
                        r.step();
                        match one(&h, op, &p, c) {
                            Ok(_) => {
                                r.trace();
                                r.outcome("fault-tolerated");
                            }
                            Err((k, d)) => {
                                r.violation(
                                    &k,
                                    format!(
                                        "[{}] {} operations then {} with storage fault {:?}",
                                        name,
                                        h.len(),
                                        show(&[op.clone()]),
                                        p
                                    ),
                                    d,
                                );
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    r.space(
        name,
        serde_json::json!({"held": held, "fault_plans": plans}),
    );
}

/// Elements of the given length that agree in ever shorter prefixes with the first one.
fn chain(len: usize, forks: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![vec![9u8; len]];
    for (i, f) in forks.iter().enumerate() {
        let mut e = vec![9u8; len];
        e[*f] = i as u8;
        v.push(e);
    }
    v
}

/// A device that lost a node, or the end of one: what was stored is never read as something else.
fn lost(r: &mut Report, name: &str, elems: &[Vec<u8>]) {
    let mut n = 0u64;
    for set in 1..1usize << elems.len() {
        let hist: Vec<Op> = (0..elems.len())
            .filter(|i| set >> i & 1 == 1)
            .map(|i| Op::Add(elems[i].clone()))
            .chain([Op::Root])
            .collect();
        let (disk, t, m) = setup(&hist);
        let (root, nodes) = (t.root, disk.0.borrow().nodes.clone());
        for (id, bytes) in &nodes {
            for left in std::iter::once(None).chain((0..bytes.len().min(3)).map(Some)) {
                n += 1;
                r.state();
                let case = || {
                    format!(
                        "[{}] {}, node {} {}",
                        name,
                        show(&hist),
                        id,
                        left.map_or("lost".into(), |l| format!("cut to {} bytes", l))
                    )
                };
                let fresh = || {
                    let d = Disk::default();
                    d.0.borrow_mut().nodes = nodes.clone();
                    match left {
                        None => d.0.borrow_mut().nodes.remove(id),
                        Some(l) => d.0.borrow_mut().nodes.insert(*id, bytes[..l].to_vec()),
                    };
                    let mut t = Trie::new(d);
                    t.root = root;
                    t
                };
                for e in elems {
                    r.step();
                    let got = guard(|| {
                        let mut t = fresh();
                        let top = t.cache.get_node(root.unwrap()).map_err(|e| e.to_string())?;
                        top.find(&mut t.cache, e).map_err(|e| e.to_string())
                    });
                    match r.no_panic(got, "lost-node-panics", case) {
                        Some(Ok(found)) => {
                            r.outcome("found without the lost node");
                            r.check(found == m.set.contains(e), "lost-node", case, || {
                                format!("find({}) = {}", hex(e), found)
                            });
                        }
                        Some(Err(_)) => r.outcome("lost node reported"),
                        None => {}
                    }
                }
                r.step();
                let want = Out::Hash(model::trie::root(&m.set));
                if let Some(got) = r.no_panic(
                    guard(|| apply(&mut fresh(), &Op::Root)),
                    "lost-node-panics",
                    case,
                ) {
                    match got {
                        Out::Hash(_) => {
                            r.check(got == want, "lost-node-root", case, || format!("{:?}", got));
                        }
                        _ => r.outcome("lost node reported"),
                    }
                }
                r.trace();
            }
        }
    }
    r.space(&format!("lost nodes, {}", name), n);
}

fn main() {
    let mut r = Report::new("C04");
    r.assume("a failing storage call has no effect on the device");
    let cap = tier(400, 20_000);
    let jobs: Vec<(&str, Vec<Vec<u8>>)> = vec![
        ("len1", vec![vec![0], vec![1], vec![255]]),
        ("len2", vec![vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1]]),
        (
            "len3-chain",
            vec![vec![5, 5, 5], vec![5, 5, 6], vec![5, 6, 5]],
        ),
        (
            "len3-deep",
            vec![vec![0, 0, 0], vec![0, 0, 1], vec![0, 1, 0], vec![1, 0, 0]]
                .into_iter()
                .chain(tier(vec![], vec![vec![0, 1, 1]]))
                .collect(),
        ),
    ];
    parallel(&mut r, jobs.clone(), |r, (n, e)| {
        explore(r, n, e, cap, true)
    });
    parallel(&mut r, jobs, |r, (n, e)| lost(r, n, e));
    let wide = |n: usize| -> Vec<Vec<u8>> {
        (0..n)
            .map(|i| vec![(i % 7) as u8, (i / 7 % 256) as u8, (i / 1792) as u8])
            .collect()
    };
    let mut jobs: Vec<(&str, Vec<Vec<u8>>, usize)> = vec![
        ("len12-two", chain(12, &[11, 5, 10]), 2),
        ("len32-two", chain(32, &[31, 30, 3]), 2),
        ("len32-three", chain(32, &[31, 15, 31, 20]), 3),
        ("len72-two", chain(72, &[71, 70, 33]), 2),
        ("len72-one", chain(72, &[71, 35]), 1),
        ("wide-40", wide(40), 38),
        ("wide-150", wide(150), 148),
    ];
    if thorough() {
        jobs.push(("len150-two", chain(150, &[149, 140, 33]), 2));
        jobs.push(("len300-two", chain(300, &[299, 290, 33]), 2));
        jobs.push(("wide-600", wide(600), 598));
    }
    parallel(&mut r, jobs, |r, (n, e, h)| big(r, n, e, *h));
    r.finish()
}
