//! C05: Merkle array proofs are complete, sound and bound to every element.
//!
//! All array sizes and all position subsets up to a bound are proved and verified against an
//! independent reference tree; every single mutation of every accepted (root, claim, proof) is
//! checked to be refused; and for small trees *every* proof that can be assembled from all hashes
//! occurring in the tree is tried against every false claim.

use std::collections::HashMap;

use algorsand::crypto::{hash_obj, CryptoHash, Hashable, Tree};
use algorsand::protocol;
use mc::*;

#[derive(Clone)]
struct E(u32);
impl Hashable for E {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::TEST_HASHABLE, self.0.to_le_bytes().to_vec())
    }
}

type H = [u8; 32];

fn leaf(x: u32) -> H {
    model::sha(&[b"TE", &x.to_le_bytes()[..]].concat())
}
fn pair(l: &H, r: &H) -> H {
    model::sha(&[b"MA", &l[..], &r[..]].concat())
}
/// Reference levels, leaves first.
fn levels(a: &[u32]) -> Vec<Vec<H>> {
    let mut v = vec![a.iter().map(|x| leaf(*x)).collect::<Vec<H>>()];
    while v.last().unwrap().len() > 1 {
        let n = v
            .last()
            .unwrap()
            .chunks(2)
            .map(|c| pair(&c[0], c.get(1).unwrap_or(&[0; 32])))
            .collect();
        v.push(n);
    }
    v
}
fn root(a: &[u32]) -> H {
    levels(a)
        .last()
        .unwrap()
        .first()
        .copied()
        .unwrap_or([0; 32])
}
fn verify(root: &H, claims: &[(u64, H)], proof: &[H]) -> Result<bool, String> {
    let m: HashMap<u64, CryptoHash> = claims.iter().map(|(p, h)| (*p, CryptoHash(*h))).collect();
    let p: Vec<CryptoHash> = proof.iter().map(|h| CryptoHash(*h)).collect();
    guard(|| Tree::verify(&CryptoHash(*root), m, &p).is_ok())
}
fn show(claims: &[(u64, H)], proof: &[H]) -> String {
    format!(
        "claims {:?}, proof {:?}",
        claims
            .iter()
            .map(|(p, h)| format!("{}:{}", p, hex(&h[..4])))
            .collect::<Vec<_>>(),
        proof.iter().map(|h| hex(&h[..4])).collect::<Vec<_>>()
    )
}

/// Is the claim true of the array? Positions past the end hold nothing.
fn truth(a: &[u32], claims: &[(u64, H)]) -> bool {
    claims
        .iter()
        .all(|(p, h)| (*p as usize) < a.len() && *p < 1 << 32 && leaf(a[*p as usize]) == *h)
}

fn expect(
    r: &mut Report,
    ctx: &str,
    rt: &H,
    claims: &[(u64, H)],
    proof: &[H],
    want: bool,
    key: &str,
) {
    r.step();
    let case = || format!("{} {}", ctx, show(claims, proof));
    match r.no_panic(verify(rt, claims, proof), "verify-panic", case) {
        Some(got) if got != want => r.violation(key, case(), format!("verify accepted = {}", got)),
        Some(true) => r.outcome("accepted"),
        Some(false) => r.outcome("refused"),
        None => {}
    }
}

fn array(r: &mut Report, a: &[u32], subsets: &[Vec<u64>], mutate: bool) {
    let n = a.len();
    let arr: Vec<E> = a.iter().map(|x| E(*x)).collect();
    let ctx = format!("array {:?}", a);
    let lv = levels(a);
    let rt = root(a);
    r.step();
    let Some(Ok(tree)) = r.no_panic(guard(|| Tree::from_array(&arr)), "build-panic", || {
        ctx.clone()
    }) else {
        r.violation("build", ctx, "no tree");
        return;
    };
    let troot = tree.root().0;
    r.check_eq(&hex(&troot), &hex(&rt), "root", || ctx.clone());
    let span = 2 * n.next_power_of_two() as u64;
    // A perfect tree of the top level's width as the claimable position space.
    for s in subsets {
        r.state();
        let mut idx = s.clone();
        r.step();
        let case = || format!("{} positions {:?}", ctx, s);
        let Some(res) = r.no_panic(guard(|| tree.prove(&mut idx)), "prove-panic", case) else {
            continue;
        };
        let in_range = s.iter().all(|p| (*p as usize) < n && *p < 1 << 32);
        if !in_range {
            r.outcome("out-of-range");
            r.check(res.is_err(), "prove-out-of-range", case, || {
                "a proof was made for a position outside the array".into()
            });
            r.trace();
            continue;
        }
        let Ok(proof) = res else {
            r.violation("prove", case(), "no proof for valid positions");
            continue;
        };
        let proof: Vec<H> = proof.iter().map(|h| h.0).collect();
        let mut pos: Vec<u64> = s.clone();
        pos.sort();
        pos.dedup();
        let claims: Vec<(u64, H)> = pos.iter().map(|p| (*p, leaf(a[*p as usize]))).collect();
        expect(r, &ctx, &rt, &claims, &proof, true, "incomplete");
        r.trace();
        r.sample("proved", || {
            format!("{} positions {:?}: {} sibling hashes", ctx, s, proof.len())
        });
        if !mutate {
            continue;
        }
        // --- single mutations
        if claims.is_empty() {
            for h in lv.iter().flatten().copied().chain([rt, [0; 32], [1; 32]]) {
                expect(r, &ctx, &rt, &claims, &[h], false, "empty-claim-with-proof");
                expect(
                    r,
                    &ctx,
                    &rt,
                    &claims,
                    &[h, rt],
                    false,
                    "empty-claim-with-proof",
                );
            }
            continue;
        }
        for bit in [0usize, 100, 255] {
            let mut x = rt;
            x[bit / 8] ^= 1 << (bit % 8);
            expect(r, &ctx, &x, &claims, &proof, false, "root-mutated");
        }
        expect(r, &ctx, &[0; 32], &claims, &proof, false, "root-mutated");
        for i in 0..claims.len() {
            let mut alts: Vec<H> = (0..n).map(|j| leaf(a[j])).collect();
            alts.push(leaf(999));
            alts.push([0; 32]);
            let mut f = claims[i].1;
            f[31] ^= 0x80;
            alts.push(f);
            for h in alts {
                let mut c = claims.clone();
                c[i].1 = h;
                if c != claims {
                    expect(r, &ctx, &rt, &c, &proof, truth(a, &c), "element-mutated");
                }
            }
            for p in (0..span).chain([span * 2, 1 << 32, 1 << 63, u64::MAX]) {
                if claims.iter().any(|(q, _)| *q == p) {
                    continue;
                }
                let mut c = claims.clone();
                c[i].0 = p;
                c.sort();
                if !truth(a, &c) {
                    expect(r, &ctx, &rt, &c, &proof, false, "position-mutated");
                }
            }
            // dropping a claim makes the proof too short
            if claims.len() > 1 {
                let mut c = claims.clone();
                c.remove(i);
                expect(r, &ctx, &rt, &c, &proof, false, "claim-dropped");
            }
        }
        for i in 0..proof.len() {
            for alt in [[0u8; 32], rt, lv[0][0]] {
                let mut p = proof.clone();
                p[i] = alt;
                if p != proof {
                    expect(r, &ctx, &rt, &claims, &p, false, "hint-replaced");
                }
            }
            for bit in [0usize, 255] {
                let mut p = proof.clone();
                p[i][bit / 8] ^= 1 << (bit % 8);
                expect(r, &ctx, &rt, &claims, &p, false, "hint-altered");
            }
            let mut p = proof.clone();
            p.remove(i);
            expect(r, &ctx, &rt, &claims, &p, false, "hint-removed");
            let mut p = proof.clone();
            p.insert(i, proof[i]);
            expect(r, &ctx, &rt, &claims, &p, false, "hint-added");
            if i + 1 < proof.len() && proof[i] != proof[i + 1] {
                let mut p = proof.clone();
                p.swap(i, i + 1);
                expect(r, &ctx, &rt, &claims, &p, false, "hint-swapped");
            }
        }
        for extra in [[0u8; 32], rt, [7; 32]] {
            let mut p = proof.clone();
            p.push(extra);
            expect(r, &ctx, &rt, &claims, &p, false, "hint-appended");
        }
    }
}

/// An array of n elements without printing it.
fn many(r: &mut Report, n: usize) {
    let a: Vec<u32> = (0..n as u32).map(|i| i ^ 0x5a5a).collect();
    let arr: Vec<E> = a.iter().map(|x| E(*x)).collect();
    let leaves: Vec<H> = a.iter().map(|x| leaf(*x)).collect();
    let rt = root(&a);
    r.step();
    let Some(Ok(tree)) = r.no_panic(guard(|| Tree::from_array(&arr)), "build-panic", || {
        format!("array of {}", n)
    }) else {
        r.violation("build", format!("array of {}", n), "no tree");
        return;
    };
    r.check_eq(&hex(&tree.root().0), &hex(&rt), "root", || {
        format!("array of {}", n)
    });
    let m = n as u64;
    let mut reqs: Vec<(String, Vec<u64>)> = (0..m)
        .map(|i| (format!("position {}", i), vec![i]))
        .collect();
    for k in [2u64, 3, 5, 16, 17, 64] {
        for s in [0u64, 1, k - 1] {
            reqs.push((
                format!("every {}th from {}", k, s),
                (s..m).step_by(k as usize).collect(),
            ));
        }
    }
    for k in 0..=9 {
        let k = 1u64 << k;
        for k in [k - 1, k, k + 1] {
            if k > 0 && k < m {
                reqs.push((format!("the first {}", k), (0..k).collect()));
                reqs.push((format!("the last {}", k), (m - k..m).collect()));
                reqs.push((
                    format!("all but {}", k),
                    (0..m).filter(|i| *i != k).collect(),
                ));
                reqs.push((
                    format!("{} and the rest, backwards", k),
                    (0..m).rev().filter(|i| i % k != 1).collect(),
                ));
            }
        }
    }
    reqs.push(("all".into(), (0..m).collect()));
    for (name, req) in reqs {
        if req.is_empty() {
            continue;
        }
        r.state();
        r.step();
        r.trace();
        let case = || format!("array of {}, {}", n, name);
        let mut idx = req.clone();
        let Some(res) = r.no_panic(guard(|| tree.prove(&mut idx)), "prove-panic", case) else {
            continue;
        };
        let Ok(proof) = res else {
            r.violation("prove", case(), "no proof for valid positions");
            continue;
        };
        let proof: Vec<H> = proof.iter().map(|h| h.0).collect();
        let mut pos = req.clone();
        pos.sort();
        let claims: Vec<(u64, H)> = pos.iter().map(|p| (*p, leaves[*p as usize])).collect();
        let mut try_one = |what: &str, rt: &H, claims: &[(u64, H)], proof: &[H], want: bool| {
            r.step();
            let case = || format!("{}, {}", case(), what);
            if let Some(got) = r.no_panic(verify(rt, claims, proof), "verify-panic", case) {
                r.check(
                    got == want,
                    if want {
                        "incomplete"
                    } else {
                        "large-array-forged"
                    },
                    case,
                    || format!("verify accepted = {}", got),
                );
                r.outcome(if got { "accepted" } else { "refused" });
            }
        };
        try_one("as made", &rt, &claims, &proof, true);
        let ends: Vec<usize> = if name == "all" && n % 8 == 0 {
            (0..claims.len()).collect()
        } else {
            vec![0, claims.len() / 2, claims.len() - 1]
        };
        for i in ends {
            let mut c = claims.clone();
            c[i].1[31] ^= 1;
            try_one(
                &format!("element {} altered", c[i].0),
                &rt,
                &c,
                &proof,
                false,
            );
            if claims.len() > 1 {
                let mut c = claims.clone();
                c.remove(i);
                try_one("an element left out", &rt, &c, &proof, false);
                let mut c = claims.clone();
                let j = (i + 1) % c.len();
                let h = c[i].1;
                c[i].1 = c[j].1;
                c[j].1 = h;
                try_one("two elements exchanged", &rt, &c, &proof, false);
            }
        }
        for i in 0..proof.len().min(if name == "all" { 64 } else { 12 }) {
            let mut p = proof.clone();
            p[i][0] ^= 1;
            try_one("a hash altered", &rt, &claims, &p, false);
            let mut p = proof.clone();
            p.remove(i);
            try_one("a hash left out", &rt, &claims, &p, false);
        }
        let mut p = proof.clone();
        p.push(rt);
        try_one("a hash too many", &rt, &claims, &p, false);
    }
    for out in [m, m + 1, 2 * m, m.next_power_of_two(), 1 << 32, u64::MAX] {
        r.step();
        let got = guard(|| tree.prove(&mut vec![0, out]).is_ok());
        r.check(
            got == Ok(false),
            "prove-out-of-range",
            || format!("array of {}, position {}", n, out),
            || format!("{:?}", got),
        );
    }
}

fn subsets(n: usize) -> Vec<Vec<u64>> {
    (0..1u64 << n)
        .map(|m| (0..n as u64).filter(|i| m >> i & 1 == 1).collect())
        .collect()
}

/// All proofs up to length `maxlen` over every hash in the tree (plus zero and junk), against all
/// single claims built from leaf hashes.
fn forge(r: &mut Report, a: &[u32], maxlen: usize) {
    let lv = levels(a);
    let mut known: Vec<H> = lv.iter().flatten().copied().collect();
    known.push([0; 32]);
    known.push(leaf(4242));
    known.sort();
    known.dedup();
    let rt = root(a);
    let mut hs: Vec<H> = a.iter().map(|x| leaf(*x)).collect();
    hs.push(leaf(4242));
    hs.dedup();
    let span = 2 * a.len().next_power_of_two() as u64;
    let mut claims: Vec<Vec<(u64, H)>> = Vec::new();
    for p in 0..span {
        for h in &hs {
            claims.push(vec![(p, *h)]);
        }
    }
    let mut n = 0u64;
    for len in 0..=maxlen {
        sequences(known.len(), len, |s| {
            let proof: Vec<H> = s.iter().map(|i| known[*i]).collect();
            for c in &claims {
                n += 1;
                if truth(a, c) {
                    continue;
                }
                expect(
                    r,
                    &format!("array {:?}", a),
                    &rt,
                    c,
                    &proof,
                    false,
                    "forged",
                );
            }
            r.state();
        });
    }
    r.trace();
    r.space(&format!("forgery array {:?}", a), n);
}

fn main() {
    let mut r = Report::new("C05");
    r.assume("SHA-512/256 is collision resistant; claimed element hashes are hashes of elements, not of inner nodes or the all-zero padding");
    let maxn = tier(9usize, 12);
    let sizes: Vec<usize> = (0..=maxn).collect();
    parallel(&mut r, sizes, |r, n| {
        let a: Vec<u32> = (0..*n as u32).map(|i| i * 3 + 1).collect();
        array(r, &a, &subsets(*n), true);
    });
    r.space("all subsets of arrays up to size", maxn);
    // larger arrays: all pairs and runs, plus the full set; sizes around powers of two
    let bigs: Vec<usize> = tier(
        vec![9, 15, 16, 17, 31, 32, 33, 64, 65],
        (9..=70).chain([127, 128, 129, 255, 256, 257]).collect(),
    );
    parallel(&mut r, bigs, |r, n| {
        let a: Vec<u32> = (0..*n as u32).collect();
        let m = *n as u64;
        let mut s: Vec<Vec<u64>> = vec![
            (0..m).collect(),
            (0..m).step_by(2).collect(),
            (1..m).step_by(2).collect(),
            vec![],
        ];
        // the order of the request does not matter, nor do repetitions
        s.push((0..m).rev().collect());
        s.push((0..m).map(|i| i * 7 % m).collect());
        s.push((0..m).chain(0..m).collect());
        s.push((0..m).flat_map(|i| vec![m - 1 - i / 2, i / 3]).collect());
        for i in 0..m {
            s.push(vec![i]);
            s.push((i..m).collect());
            for j in i + 1..m.min(i + 40) {
                s.push(vec![i, j]);
            }
        }
        array(r, &a, &s, *n <= 17);
    });
    // every size up to 300 and around larger powers of two: every single position, runs, and among
    // all elements one that is wrong, one that is left out, one hash too few
    let sizes: Vec<usize> = tier(
        (18..=300)
            .chain([511, 512, 513, 1023, 1024, 1025])
            .collect(),
        (18..=520)
            .chain([1023, 1024, 1025, 2047, 2048, 2049, 4097])
            .collect(),
    );
    r.space(
        "larger arrays",
        format!("{} sizes up to {}", sizes.len(), sizes[sizes.len() - 1]),
    );
    parallel(&mut r, sizes, |r, n| many(r, *n));
    // request shape: order, duplicates, out of range
    for n in 0..=5usize {
        let a: Vec<u32> = (0..n as u32).collect();
        let mut s = Vec::new();
        for len in 1..=tier(5, 6) {
            sequences(n + 1 + (len < 4) as usize, len, |x| {
                s.push(x.iter().map(|i| *i as u64).collect())
            });
        }
        for big in [1u64 << 32, (1 << 32) + 1, 1 << 63, u64::MAX] {
            s.push(vec![big]);
            s.push(vec![0, big]);
        }
        array(&mut r, &a, &s, false);
    }
    // repeated elements; different arrays have different roots
    let mut roots: HashMap<H, Vec<u32>> = HashMap::new();
    let maxl = tier(5, 7);
    for len in 0..=maxl {
        sequences(3, len, |s| {
            let a: Vec<u32> = s.iter().map(|i| *i as u32).collect();
            let arr: Vec<E> = a.iter().map(|x| E(*x)).collect();
            r.state();
            r.step();
            let Some(Ok(t)) = r.no_panic(guard(|| Tree::from_array(&arr)), "build-panic", || {
                format!("{:?}", a)
            }) else {
                return;
            };
            let rt = t.root().0;
            r.check_eq(&hex(&rt), &hex(&root(&a)), "root", || {
                format!("array {:?}", a)
            });
            if let Some(b) = roots.insert(rt, a.clone()) {
                r.violation(
                    "root-collision",
                    format!("{:?} and {:?}", a, b),
                    "same root",
                );
            }
            r.trace();
        });
    }
    r.space(
        "arrays over 3 elements with pairwise distinct roots",
        roots.len(),
    );
    for a in [
        vec![0, 0],
        vec![0, 0, 0],
        vec![0, 1, 0, 1],
        vec![5, 5, 5, 5, 6],
    ] {
        array(&mut r, &a, &subsets(a.len()), true);
    }
    // element hashing is the element's own hash representation
    r.check(
        hash_obj(&E(7)).0 == leaf(7),
        "leaf-hash",
        || "hash_obj(E(7))".into(),
        || "unexpected leaf hash".into(),
    );
    parallel(
        &mut r,
        vec![vec![1], vec![1, 2], vec![1, 2, 3], vec![1, 2, 3, 4]],
        |r, a| forge(r, a, tier(3, if a.len() < 4 { 4 } else { 3 })),
    );
    r.finish()
}
