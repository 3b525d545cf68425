//! C09: one-time signatures verify exactly for their own identifier and are forward secure.
//!
//! State-space search over the real key state with delete-before (every identifier of a grid around
//! the key range), snapshot and serialise/restore as operations, against a reference model of the
//! retained keys. In every state every identifier of the grid is signed and verified, and the key
//! material actually present in the serialised secrets is compared with what may be retained.

use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

use algorsand::crypto::{OTSIdentifier, OTSSecrets};
use algorsand::protocol;
use mc::*;

/// Reference model: whole-batch keys and the offset keys of the batch in use.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Model {
    batches: BTreeSet<u64>,
    offsets: BTreeSet<(u64, u64)>,
    /// Everything before this identifier is forgotten, whatever happens later.
    low: (u64, u64),
}

impl Model {
    fn new(start: u64, n: u64) -> Model {
        Model {
            batches: (start..start + n).collect(),
            offsets: BTreeSet::new(),
            low: (0, 0),
        }
    }
    fn delete_before(&mut self, id: (u64, u64), per_batch: u64) {
        self.low = self.low.max(id);
        self.offsets.retain(|o| *o >= id);
        self.batches.retain(|b| *b >= id.0);
        if self.batches.remove(&id.0) {
            for o in id.1..per_batch {
                self.offsets.insert((id.0, o));
            }
        }
    }
    fn can_sign(&self, id: (u64, u64)) -> bool {
        self.batches.contains(&id.0) || self.offsets.contains(&id)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Delete(u64, u64),
    Snapshot,
    Restore,
}

/// All key pairs in the serialised secrets (by public key), found by content, not by field name.
fn key_material(s: &OTSSecrets) -> HashMap<[u8; 32], u32> {
    fn walk(v: &serde_json::Value, out: &mut HashMap<[u8; 32], u32>) {
        match v {
            serde_json::Value::Array(a) => {
                if a.len() == 64 && a.iter().all(|x| x.as_u64().map_or(false, |n| n < 256)) {
                    let b: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    let sk = ed25519_dalek::SecretKey::from_bytes(&b[..32]).unwrap();
                    let pk = ed25519_dalek::PublicKey::from(&sk);
                    if pk.as_bytes() == &b[32..] {
                        *out.entry(pk.to_bytes()).or_insert(0) += 1;
                    }
                }
                a.iter().for_each(|x| walk(x, out));
            }
            serde_json::Value::Object(o) => o.values().for_each(|x| walk(x, out)),
            _ => {}
        }
    }
    let mut out = HashMap::new();
    walk(&serde_json::to_value(s).unwrap(), &mut out);
    out
}

struct Cfg {
    start: u64,
    n: u64,
    per_batch: u64,
    depth: usize,
}

fn grid(c: &Cfg) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    for b in c.start.saturating_sub(2)..=c.start + c.n + 1 {
        for o in 0..=c.per_batch {
            v.push((b, o));
        }
    }
    v.push((c.start, u64::MAX));
    v.push((u64::MAX, 0));
    v.push((u64::MAX, u64::MAX));
    v
}

fn id(i: (u64, u64)) -> OTSIdentifier {
    OTSIdentifier {
        batch: i.0,
        offset: i.1,
    }
}

fn run(c: &Cfg, hist: &[Op]) -> (OTSSecrets, Model, BTreeSet<[u8; 32]>) {
    let mut s = OTSSecrets::generate(c.start, c.n);
    let mut m = Model::new(c.start, c.n);
    let mut dead: BTreeSet<[u8; 32]> = BTreeSet::new();
    let msg = "x".to_string();
    for op in hist {
        match op {
            Op::Delete(b, o) => {
                // note the keys that this deletion must destroy
                let before = m.clone();
                m.delete_before((*b, *o), c.per_batch);
                for x in before.batches.difference(&m.batches) {
                    dead.insert(s.sign(&id((*x, 0)), &msg).pk2.to_bytes());
                }
                for x in before.offsets.difference(&m.offsets) {
                    dead.insert(s.sign(&id(*x), &msg).pk.to_bytes());
                }
                s.delete_before(id((*b, *o)), c.per_batch);
            }
            Op::Snapshot => s = s.snapshot(),
            Op::Restore => {
                s = protocol::decode(&protocol::encode(&s))
                    .expect("restore of serialised one-time secrets")
            }
        }
    }
    (s, m, dead)
}

fn explore(r: &mut Report, c: &Cfg) {
    let g = grid(c);
    let mut ops: Vec<Op> = g.iter().map(|i| Op::Delete(i.0, i.1)).collect();
    ops.push(Op::Snapshot);
    ops.push(Op::Restore);
    let mut seen: HashSet<(Model, u64, u64)> = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    q.push_back(vec![]);
    let msg = "message".to_string();
    let (mut ns, mut nt) = (0u64, 0u64);
    while let Some(h) = q.pop_front() {
        if r.has_violations() {
            break;
        }
        nt += 1;
        r.step();
        let case = || {
            format!(
                "generate({}, {}) keys per batch {} then {:?}",
                c.start, c.n, c.per_batch, h
            )
        };
        let Some((s, m, dead)) = r.no_panic(guard(|| run(c, &h)), "panic", case) else {
            continue;
        };
        let last_is_copy = matches!(h.last(), Some(Op::Snapshot) | Some(Op::Restore));
        let fresh = seen.insert((m.clone(), s.first_batch, s.first_offset));
        // a state known already, reached in another way: the first and last keys of each kind must do
        let some: Vec<(u64, u64)> = if fresh || last_is_copy {
            g.clone()
        } else {
            let ends = [
                m.offsets.iter().next().copied(),
                m.offsets.iter().last().copied(),
                m.batches.iter().next().map(|b| (*b, 1)),
                m.batches.iter().last().map(|b| (*b, 0)),
            ];
            let mut v: Vec<_> = ends
                .into_iter()
                .flatten()
                .chain(g.iter().rev().find(|i| **i < m.low).copied())
                .collect();
            v.dedup();
            v
        };
        if fresh {
            ns += 1;
            r.state();
            r.sample("history", case);
        }
        r.trace();
        for i in &some {
            r.step();
            let want = m.can_sign(*i);
            let res = guard(|| {
                let sig = s.sign(&id(*i), &msg);
                sig.verify(&id(*i), &msg, &s.verifier)
            });
            let case = || format!("{} then sign {:?}", case(), i);
            let Some(got) = r.no_panic(res, "sign-panic", case) else {
                continue;
            };
            r.outcome(if want { "signs" } else { "refuses" });
            if got != want {
                r.violation(
                    if got {
                        "signs-deleted-or-foreign"
                    } else {
                        "cannot-sign-retained"
                    },
                    case(),
                    format!("signature verifies: {}; model: {:?}", got, m),
                );
            }
            r.check(!(got && *i < m.low), "forward-security", case, || {
                format!("signed for an identifier before {:?}", m.low)
            });
        }
        // key material
        let keys = key_material(&s);
        let total: u32 = keys.values().sum();
        r.check(
            total as usize == m.batches.len() + m.offsets.len(),
            "key-material-count",
            case,
            || {
                format!(
                    "{} secret keys are held, {} are needed",
                    total,
                    m.batches.len() + m.offsets.len()
                )
            },
        );
        r.check(
            keys.keys().all(|k| !dead.contains(k)),
            "key-material-retained",
            case,
            || "a secret key that was to be deleted is still held".into(),
        );
        if fresh && h.len() < c.depth {
            for op in &ops {
                let mut h2 = h.clone();
                h2.push(op.clone());
                q.push_back(h2);
            }
        }
    }
    r.space(&format!("keys {}+{} per batch {}", c.start, c.n, c.per_batch), serde_json::json!({"states": ns, "histories": nt, "depth": c.depth, "identifiers": g.len()}));
}

/// Signatures are bound to message, identifier, signer and every component.
fn binding(r: &mut Report) {
    let c = Cfg {
        start: 3,
        n: 3,
        per_batch: 3,
        depth: 0,
    };
    let g = grid(&c);
    let msgs = [
        "".to_string(),
        "a".to_string(),
        "b".to_string(),
        "aa".to_string(),
    ];
    for hist in [
        vec![],
        vec![Op::Delete(3, 0)],
        vec![Op::Delete(4, 1), Op::Restore],
    ] {
        let (s, m, _) = run(&c, &hist);
        let (other, _, _) = run(&c, &hist);
        for i in &g {
            if !m.can_sign(*i) {
                continue;
            }
            for (mi, mm) in msgs.iter().enumerate() {
                r.state();
                let sig = s.sign(&id(*i), mm);
                for j in &g {
                    for (mj, mn) in msgs.iter().enumerate() {
                        let want = i == j && mi == mj;
                        if !want && i != j && mi != mj {
                            continue; // two changes at once: implied
                        }
                        r.step();
                        let got = sig.verify(&id(*j), mn, &s.verifier);
                        r.check(
                            got == want,
                            "binding",
                            || {
                                format!(
                                    "signature for {:?} {:?} checked for {:?} {:?}",
                                    i, mm, j, mn
                                )
                            },
                            || format!("verifies: {}", got),
                        );
                        r.outcome(if want { "own" } else { "foreign" });
                    }
                }
                r.check(
                    !sig.verify(&id(*i), mm, &other.verifier),
                    "binding",
                    || format!("{:?}", i),
                    || "verifies under another verifier".into(),
                );
                r.trace();
            }
        }
        // every component matters
        let i = (4u64, 2u64);
        let a = s.sign(&id(i), &msgs[1]);
        let b = s.sign(&id((5, 0)), &msgs[1]);
        let o = other.sign(&id(i), &msgs[1]);
        for donor in [&b, &o] {
            for part in 0..5 {
                let mut x = s.sign(&id(i), &msgs[1]);
                let same = match part {
                    0 => {
                        x.sig = donor.sig;
                        false
                    }
                    1 => {
                        x.pk = donor.pk;
                        false
                    }
                    2 => {
                        x.pk2 = donor.pk2;
                        false
                    }
                    3 => {
                        x.pk1_sig = donor.pk1_sig;
                        false
                    }
                    _ => {
                        x.pk2_sig = donor.pk2_sig;
                        false
                    }
                };
                r.step();
                r.state();
                r.check(
                    same || !x.verify(&id(i), &msgs[1], &s.verifier),
                    "component",
                    || {
                        format!(
                            "history {:?}, component {} of another signature",
                            hist, part
                        )
                    },
                    || "still verifies".into(),
                );
            }
        }
        for part in 0..5 {
            for bit in [0usize, 7, 128, 255, 256, 400, 511] {
                let mut x = s.sign(&id(i), &msgs[1]);
                let flip64 = |s: ed25519::Signature| {
                    let mut y = s.to_bytes();
                    y[bit / 8] ^= 1 << (bit % 8);
                    ed25519::Signature::from_bytes(&y).ok()
                };
                let flip32 = |p: ed25519_dalek::PublicKey| {
                    let mut y = p.to_bytes();
                    y[(bit / 8) % 32] ^= 1 << (bit % 8);
                    ed25519_dalek::PublicKey::from_bytes(&y).ok()
                };
                match part {
                    0 => match flip64(x.sig) {
                        Some(y) => x.sig = y,
                        None => continue,
                    },
                    1 => match flip32(x.pk) {
                        Some(p) => x.pk = p,
                        None => continue,
                    },
                    2 => match flip32(x.pk2) {
                        Some(p) => x.pk2 = p,
                        None => continue,
                    },
                    3 => match flip64(x.pk1_sig) {
                        Some(y) => x.pk1_sig = y,
                        None => continue,
                    },
                    _ => match flip64(x.pk2_sig) {
                        Some(y) => x.pk2_sig = y,
                        None => continue,
                    },
                }
                r.step();
                r.check(
                    !x.verify(&id(i), &msgs[1], &s.verifier),
                    "component",
                    || format!("component {} bit {} flipped", part, bit),
                    || "still verifies".into(),
                );
            }
        }
        r.check(
            a.verify(&id(i), &msgs[1], &s.verifier),
            "cannot-sign-retained",
            || format!("{:?}", i),
            || "own signature refused".into(),
        );
    }
}

/// All 64 bits of both parts of an identifier are signed for.
fn wide(r: &mut Report) {
    let msg = "a".to_string();
    let starts = [
        0u64,
        5,
        255,
        (1 << 16) - 1,
        (1 << 31) - 2,
        (1 << 32) - 1,
        1 << 40,
        1 << 48,
        (1 << 53) + 1,
        1 << 63,
        u64::MAX - 9,
    ];
    let offsets = [
        0u64,
        1,
        255,
        65_535,
        (1 << 32) - 1,
        1 << 32,
        (1 << 40) + 5,
        1 << 48,
        1 << 63,
        u64::MAX - 9,
    ];
    let jobs: Vec<(u64, u64)> = starts
        .iter()
        .flat_map(|b| offsets.iter().map(move |o| (*b, *o)))
        .collect();
    r.space(
        "wide identifiers",
        format!("{} identifiers, every bit of each changed", jobs.len()),
    );
    parallel(r, jobs, |r, &(b, o)| {
        // from the key of a whole batch, and from the key of the offset
        for expanded in [false, true] {
            let mut s = OTSSecrets::generate(b, 3);
            if expanded && guard(|| s.delete_before(id((b, o)), o + 4)).is_err() {
                r.violation("panic", format!("deleting before {:?}", (b, o)), "panicked");
                continue;
            }
            let mut is = vec![(b, o), (b, o + 3), (b + 1, o)];
            if !expanded {
                is.push((b + 2, o.wrapping_mul(7)));
            }
            for i in is {
                r.state();
                r.trace();
                let sig = s.sign(&id(i), &msg);
                let case = || format!("signature for {:?} (expanded: {})", i, expanded);
                r.check(
                    sig.verify(&id(i), &msg, &s.verifier),
                    "cannot-sign-retained",
                    case,
                    || "own signature refused".into(),
                );
                for bit in 0..64 {
                    for j in [(i.0 ^ 1 << bit, i.1), (i.0, i.1 ^ 1 << bit)] {
                        r.step();
                        r.check(
                            !sig.verify(&id(j), &msg, &s.verifier),
                            "binding",
                            case,
                            || format!("verifies for {:?}", j),
                        );
                    }
                }
            }
        }
    });
}

/// Many batches, or many offsets in a batch: every key is there, before and after every jump.
fn many(r: &mut Report) {
    let jobs: Vec<(u64, u64, u64)> = vec![(0, 70, 2), (5, 333, 2), (3, 3, 333), (250, 20, 70)];
    let jobs: Vec<(u64, u64, u64, (u64, u64))> = jobs
        .into_iter()
        .flat_map(|(start, n, per)| {
            let places = [
                0, 1, 2, 15, 16, 31, 32, 63, 64, 65, 127, 128, 200, 255, 256, 257, 298, 299, 300,
                301, 332,
            ];
            let b: Vec<u64> = places
                .iter()
                .copied()
                .filter(|b| *b <= n)
                .chain([n - 1, n, n + 1, n + 2, 2 * n, u64::MAX - start])
                .collect();
            let o: Vec<u64> = places
                .iter()
                .copied()
                .filter(|o| *o < per)
                .chain([per - 1])
                .collect();
            b.into_iter()
                .flat_map(move |b| {
                    o.clone()
                        .into_iter()
                        .map(move |o| (start, n, per, (start + b, o)))
                })
                .collect::<Vec<_>>()
        })
        .collect();
    r.space("jumps in long key ranges", jobs.len() as u64);
    let jobs: Vec<_> = jobs
        .into_iter()
        .flat_map(|j| vec![(j, false), (j, true)])
        .collect();
    parallel(r, jobs, |r, ((start, n, per, to), twice)| {
        let msg = "message".to_string();
        let c = Cfg {
            start: *start,
            n: *n,
            per_batch: *per,
            depth: 0,
        };
        let hist = if *to == (*start, 0) {
            vec![]
        } else {
            vec![Op::Delete(to.0, to.1), Op::Snapshot, Op::Restore]
        };
        let hist: Vec<Op> = if *twice {
            std::iter::once(Op::Delete(to.0, 0)).chain(hist).collect()
        } else {
            hist
        };
        r.state();
        let case = || {
            format!(
                "generate({}, {}) keys per batch {} then {:?}",
                start, n, per, hist
            )
        };
        let Some((s, m, dead)) = r.no_panic(guard(|| run(&c, &hist)), "panic", case) else {
            return;
        };
        for b in start.saturating_sub(1)..=start + n {
            for o in [
                0,
                1,
                2,
                62,
                63,
                64,
                65,
                128,
                200,
                254,
                255,
                256,
                299,
                300,
                301,
                per - 1,
                *per,
            ] {
                if o > *per {
                    continue;
                }
                r.step();
                let want = m.can_sign((b, o));
                let got = guard(|| {
                    s.sign(&id((b, o)), &msg)
                        .verify(&id((b, o)), &msg, &s.verifier)
                });
                let case = || format!("{} then sign ({}, {})", case(), b, o);
                if let Some(got) = r.no_panic(got, "sign-panic", case) {
                    r.check(
                        got == want,
                        if want {
                            "cannot-sign-retained"
                        } else {
                            "signs-deleted-or-foreign"
                        },
                        case,
                        || format!("signature verifies: {}", got),
                    );
                }
            }
        }
        let keys = key_material(&s);
        r.check(
            keys.values().sum::<u32>() as usize == m.batches.len() + m.offsets.len(),
            "key-material-count",
            case,
            || format!("{} secret keys are held", keys.len()),
        );
        r.check(
            keys.keys().all(|k| !dead.contains(k)),
            "key-material-retained",
            case,
            || "a secret key that was to be deleted is still held".into(),
        );
        r.trace();
    });
}

fn main() {
    let mut r = Report::new("C09");
    r.assume("ed25519 signatures are unforgeable; identifiers are below the maximal batch number 2^64-1 when keys are held for them");
    let mut cfgs = Vec::new();
    for start in [0u64, 1, 7, u64::MAX - 5] {
        for n in 0..=3u64 {
            for per_batch in [1u64, 2, 3] {
                if start > 1 && per_batch == 1 && n < 2 {
                    continue;
                }
                cfgs.push(Cfg {
                    start,
                    n,
                    per_batch,
                    depth: tier(3, 8),
                });
            }
        }
    }
    parallel(&mut r, cfgs, |r, c| explore(r, c));
    binding(&mut r);
    wide(&mut r);
    many(&mut r);
    // the two sides agree on the identifier encoding for large identifiers
    for b in [
        0u64,
        127,
        128,
        255,
        256,
        65535,
        65536,
        u32::MAX as u64,
        u32::MAX as u64 + 1,
        u64::MAX - 2,
    ] {
        let s = OTSSecrets::generate(b, 1);
        for o in [
            0u64,
            127,
            128,
            255,
            256,
            65535,
            65536,
            u32::MAX as u64 + 1,
            u64::MAX,
        ] {
            let m = "m".to_string();
            let sig = s.sign(&id((b, o)), &m);
            r.steps(3);
            r.state();
            r.check(
                sig.verify(&id((b, o)), &m, &s.verifier),
                "cannot-sign-retained",
                || format!("{} {}", b, o),
                || "own signature refused".into(),
            );
            r.check(
                !sig.verify(&id((b ^ 1, o)), &m, &s.verifier)
                    && !sig.verify(&id((b, o ^ 1)), &m, &s.verifier)
                    && (b == o || !sig.verify(&id((o, b)), &m, &s.verifier)),
                "binding",
                || format!("{} {}", b, o),
                || "verifies for a neighbouring identifier".into(),
            );
        }
    }
    r.finish()
}
