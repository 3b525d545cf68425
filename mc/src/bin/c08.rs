//@ hooks
//! C08: combining partial multisignatures yields exactly the union of their signatures.
//!
//! All sequences of up to three partial multisignatures over two or three slots with every
//! assignment of {absent, signature A, a different signature B}, combined by assembling, adding and
//! merging in every order and grouping, against the union model; and all ways in which two parts can
//! fail to belong together.

use algorsand::crypto::multisig::verif_hook as hk;
use algorsand::crypto::{MultisigSignature, MultisigSubsig};
use ed25519_dalek::{Keypair, PublicKey, SecretKey, Signature, Signer};
use mc::*;

fn kp(b: u8) -> Keypair {
    let secret = SecretKey::from_bytes(&[b; 32]).unwrap();
    let public = PublicKey::from(&secret);
    Keypair { secret, public }
}

type Part = Vec<usize>; // 0 absent, 1 A (valid), 2 B (different)

fn union(parts: &[&Part]) -> Result<Part, ()> {
    let mut u = vec![0; parts[0].len()];
    for p in parts {
        for (x, y) in u.iter_mut().zip(p.iter()) {
            if *y != 0 {
                if *x != 0 && *x != *y {
                    return Err(());
                }
                *x = *y;
            }
        }
    }
    Ok(u)
}
struct Ctx {
    keys: Vec<Keypair>,
    sig: Vec<[Option<Signature>; 3]>,
}

impl Ctx {
    fn mk(&self, list: &[usize], t: u8, v: u8, p: &Part) -> MultisigSignature {
        MultisigSignature {
            version: v,
            threshold: t,
            subsigs: list
                .iter()
                .zip(p)
                .map(|(k, s)| MultisigSubsig {
                    key: self.keys[*k].public,
                    sig: self.sig[*k][*s],
                })
                .collect(),
        }
    }
    fn back(&self, list: &[usize], m: &MultisigSignature) -> Option<Part> {
        if m.subsigs.len() != list.len() {
            return None;
        }
        m.subsigs
            .iter()
            .zip(list)
            .map(|(s, k)| {
                if s.key != self.keys[*k].public {
                    None
                } else {
                    self.sig[*k].iter().position(|x| *x == s.sig)
                }
            })
            .collect()
    }
}

/// What the owner of a key makes of a list of keys has that key's signature in each of its slots,
/// and combining the parts of several owners gives their slots, however many there are.
fn signers(r: &mut Report, c: &Ctx, msg: &[u8]) {
    let mut lists: Vec<Vec<usize>> = Vec::new();
    for n in 1..=5 {
        sequences(3, n, |s| lists.push(s.to_vec()));
    }
    parallel(r, lists, |r, list| {
        let pks: Vec<PublicKey> = list.iter().map(|k| c.keys[*k].public).collect();
        for t in [1, list.len() as u8] {
            let a = hk::from_pks(1, t, &pks).unwrap();
            for owners in 0..1usize << 3 {
                let who: Vec<usize> = (0..3)
                    .filter(|k| owners >> k & 1 == 1 && list.contains(k))
                    .collect();
                let case = || format!("keys {:?} threshold {} signed by {:?}", list, t, who);
                r.state();
                r.steps(who.len() as u64 + 3);
                let res = guard(|| {
                    who.iter()
                        .map(|k| hk::sign(&a, msg, 1, t, &pks, &c.keys[*k]))
                        .collect::<Result<Vec<_>, _>>()
                        .map_err(|e| e.to_string())
                });
                let Some(res) = r.no_panic(res, "panic", case) else {
                    continue;
                };
                let Ok(parts) = res else {
                    r.violation("sign", case(), "no signature");
                    continue;
                };
                for (p, k) in parts.iter().zip(&who) {
                    let want: Part = list.iter().map(|x| (x == k) as usize).collect();
                    r.check_eq(&c.back(list, p), &Some(want), "sign", case);
                }
                if parts.len() < 2 {
                    continue;
                }
                let want: Part = list.iter().map(|x| who.contains(x) as usize).collect();
                let all = guard(|| {
                    let m = hk::merge(&parts[0], &parts[1]).map_err(|e| e.to_string())?;
                    let m = parts[2..]
                        .iter()
                        .try_fold(m, |m, p| hk::merge(&m, p).map_err(|e| e.to_string()))?;
                    let mut n = parts[0].clone();
                    hk::add_sigs(&mut n, parts[1..].to_vec()).map_err(|e| e.to_string())?;
                    let o = hk::assemble(&parts).map_err(|e| e.to_string())?;
                    Ok::<_, String>(vec![m, n, o])
                });
                match r.no_panic(all, "panic", case) {
                    Some(Ok(all)) => {
                        for (op, m) in ["merge", "add", "assemble"].iter().zip(&all) {
                            r.check_eq(&c.back(list, m), &Some(want.clone()), op, case);
                            let ok = guard(|| m.verify(msg, &a) == Ok(true));
                            let enough = want.iter().filter(|x| **x == 1).count() >= t as usize;
                            r.check(ok == Ok(enough), "verify-after-merge", case, || {
                                format!("{:?}", ok)
                            });
                        }
                        r.outcome("combined");
                    }
                    Some(Err(e)) => r.violation("combine", case(), e),
                    None => {}
                }
                r.trace();
            }
        }
    });
}

/// Many parts of one multisignature: the part that does not belong at every place, and the only part
/// carrying a signature at every place.
fn many_parts(r: &mut Report, c: &Ctx) {
    let list = [0usize, 1, 2];
    for n in (2..=20usize).chain([40, 70, 130, 260, 300]) {
        let step = if n <= 40 { 1 } else { 9 };
        for at in (0..n).step_by(step).chain([n - 1]) {
            let blank = c.mk(&list, 2, 1, &vec![0, 0, 0]);
            let signed = c.mk(&list, 2, 1, &vec![0, 1, 0]);
            let mut odd = blank.clone();
            odd.subsigs[2].key = kp(9).public;
            let with = |m: &MultisigSignature| -> Vec<MultisigSignature> {
                (0..n)
                    .map(|i| if i == at { m.clone() } else { blank.clone() })
                    .collect()
            };
            r.state();
            r.steps(4);
            r.trace();
            let case = || format!("{} parts, part {} is the special one", n, at);
            let bad = with(&odd);
            let res = guard(|| hk::assemble(&bad).is_ok());
            if let Some(g) = r.no_panic(res, "mismatch-panic", case) {
                r.check(!g, "mismatch-assembled", case, || "combined".into());
            }
            let res = guard(|| hk::add_sigs(&mut blank.clone(), bad.clone()).is_ok());
            if let Some(g) = r.no_panic(res, "mismatch-panic", case) {
                r.check(!g, "mismatch-added", case, || "combined".into());
            }
            let good = with(&signed);
            let want = signed.subsigs[1].sig;
            let res = guard(|| hk::assemble(&good).ok().map(|m| m.subsigs[1].sig));
            if let Some(g) = r.no_panic(res, "assemble-panic", case) {
                r.check(g == Some(want), "assembled-incomplete", case, || {
                    format!("signature missing: {}", g.is_some())
                });
            }
            let res = guard(|| {
                let mut m = blank.clone();
                hk::add_sigs(&mut m, good.clone())
                    .ok()
                    .map(|_| m.subsigs[1].sig)
            });
            if let Some(g) = r.no_panic(res, "add-panic", case) {
                r.check(g == Some(want), "added-incomplete", case, || {
                    format!("signature missing: {}", g.is_some())
                });
            }
        }
    }
}

/// Long lists: each owner's part counts, wherever its slot is, and parts of another list are noticed
/// wherever they differ and wherever they stand.
fn long(r: &mut Report, msg: &[u8]) {
    let sizes: Vec<usize> = tier(
        vec![255, 201, 129, 101, 65, 33, 17, 6],
        vec![
            255, 254, 201, 129, 128, 127, 101, 100, 66, 65, 64, 33, 32, 31, 17, 16, 6,
        ],
    );
    parallel(r, sizes, |r, n| {
        let keys: Vec<Keypair> = (0..*n as u8).map(|i| kp(i.wrapping_add(10))).collect();
        let sig: Vec<[Option<Signature>; 3]> = keys
            .iter()
            .map(|k| [None, Some(k.sign(msg)), None])
            .collect();
        let c = Ctx { keys, sig };
        let list: Vec<usize> = (0..*n).collect();
        let t = *n as u8;
        let pks: Vec<PublicKey> = c.keys.iter().map(|k| k.public).collect();
        let a = hk::from_pks(1, t, &pks).unwrap();
        let part = |i: usize| -> Part { (0..*n).map(|j| (i == j) as usize).collect() };
        let parts: Vec<MultisigSignature> = (0..*n).map(|i| c.mk(&list, t, 1, &part(i))).collect();
        for i in 0..*n {
            r.state();
            r.step();
            let case = || format!("{} keys, signed by the owner of slot {}", n, i);
            let got =
                guard(|| hk::sign(&a, msg, 1, t, &pks, &c.keys[i]).map_err(|e| e.to_string()));
            if let Some(got) = r.no_panic(got, "panic", case) {
                r.check(got.as_ref() == Ok(&parts[i]), "sign", case, || {
                    "not the signature in this slot only".into()
                });
            }
        }
        let complete: Part = vec![1; *n];
        let case = || format!("all parts of {} keys", n);
        let all = guard(|| {
            let m = parts[1..]
                .iter()
                .try_fold(parts[0].clone(), |m, p| hk::merge(&m, p))
                .map_err(|e| e.to_string())?;
            let mut k = parts[0].clone();
            hk::add_sigs(&mut k, parts[1..].to_vec()).map_err(|e| e.to_string())?;
            Ok::<_, String>(vec![m, k, hk::assemble(&parts).map_err(|e| e.to_string())?])
        });
        r.steps(3 * *n as u64);
        match r.no_panic(all, "panic", case) {
            Some(Ok(all)) => {
                for (op, m) in ["merge", "add", "assemble"].iter().zip(&all) {
                    r.check_eq(&c.back(&list, m), &Some(complete.clone()), op, case);
                    r.check(
                        m.verify(msg, &a) == Ok(true),
                        "verify-after-merge",
                        case,
                        || "does not verify".into(),
                    );
                    // without one of the parts it is not enough
                    let mut less = m.clone();
                    less.subsigs[*n - 1].sig = None;
                    r.check(
                        less.verify(msg, &a) != Ok(true),
                        "verify-after-merge",
                        case,
                        || "verifies with a signature missing".into(),
                    );
                }
                r.outcome("combined");
            }
            Some(Err(e)) => r.violation("combine", case(), e),
            None => {}
        }
        r.trace();
        // a part of another list, in every place of the request and with the difference in every slot
        for (t, slot) in (0..*n).flat_map(|s| {
            let mut ts = vec![t];
            if s % 7 == 0 || s + 3 > *n || *n < 34 {
                ts.extend([1, t / 2, t - 1]);
                ts.dedup();
            }
            ts.into_iter().map(move |t| (t, s))
        }) {
            let few: Vec<MultisigSignature> = (0..6).map(|i| c.mk(&list, t, 1, &part(i))).collect();
            let mut other = c.mk(&list, t, 1, &vec![0; *n]);
            other.subsigs[slot].key = kp(9).public;
            let kinds: Vec<(&str, MultisigSignature)> = if slot == 0 {
                vec![
                    ("other first key", other),
                    (
                        "other threshold",
                        c.mk(&list, if t > 1 { t - 1 } else { 2 }, 1, &part(1)),
                    ),
                    ("other version", c.mk(&list, t, 2, &part(1))),
                    ("a key less", c.mk(&list[1..], t, 1, &part(1)[1..].to_vec())),
                ]
            } else {
                vec![("other key", other)]
            };
            for (name, o) in kinds {
                for place in 0..=few.len() {
                    r.state();
                    r.steps(2);
                    let mut s = few.clone();
                    s.insert(place, o.clone());
                    let case = || {
                        format!(
                            "{} keys, {} in slot {}, given as part {} of {}",
                            n,
                            name,
                            slot,
                            place,
                            s.len()
                        )
                    };
                    if let Some(g) =
                        r.no_panic(guard(|| hk::assemble(&s).is_ok()), "mismatch-panic", case)
                    {
                        r.check(!g, "mismatch-assembled", case, || "combined".into());
                    }
                    let res = guard(|| hk::add_sigs(&mut s[0].clone(), s[1..].to_vec()).is_ok());
                    if let Some(g) = r.no_panic(res, "mismatch-panic", case) {
                        r.check(!g, "mismatch-added", case, || "combined".into());
                    }
                    if place < 2 {
                        if let Some(g) = r.no_panic(
                            guard(|| hk::merge(&s[0], &s[1]).is_ok()),
                            "mismatch-panic",
                            case,
                        ) {
                            r.check(!g, "mismatch-merged", case, || "combined".into());
                        }
                    }
                    r.outcome("mismatch");
                }
            }
        }
    });
}

fn main() {
    let mut r = Report::new("C08");
    let keys: Vec<Keypair> = (1..=4).map(kp).collect();
    let msg = b"m".to_vec();
    let sig = keys
        .iter()
        .map(|k| [None, Some(k.sign(&msg)), Some(k.sign(b"n"))])
        .collect();
    let c = Ctx { keys, sig };
    let c = &c;

    let all = |n: usize| {
        let mut v: Vec<Part> = Vec::new();
        sequences(3, n, |s| v.push(s.to_vec()));
        v
    };
    // ---- groups of matching parts
    let mut jobs: Vec<(Vec<usize>, u8, Part)> = Vec::new();
    for list in [
        vec![0usize],
        vec![0, 1],
        vec![0, 0],
        vec![0, 1, 2],
        vec![0, 1, 0],
    ] {
        for t in 1..=list.len().min(2) as u8 {
            for p in all(list.len()) {
                jobs.push((list.clone(), t, p));
            }
        }
    }
    parallel(&mut r, jobs, |r, (list, t, p1)| {
        let parts = all(list.len());
        let mk = |p: &Part| c.mk(list, *t, 1, p);
        let chk = |r: &mut Report,
                   op: &str,
                   got: Result<Result<MultisigSignature, String>, String>,
                   want: Result<Part, ()>,
                   ps: &[&Part]| {
            r.step();
            let case = || {
                format!(
                    "{} keys {:?} threshold {} parts {:?} (0 absent, 1 valid, 2 different)",
                    op, list, t, ps
                )
            };
            let Some(got) = r.no_panic(got, "panic", case) else {
                return;
            };
            r.outcome(if want.is_ok() { "combined" } else { "conflict" });
            match (got, want) {
                (Ok(m), Ok(w)) => {
                    r.check(m.version == 1 && m.threshold == *t, op, case, || {
                        "version or threshold changed".into()
                    });
                    r.check_eq(&c.back(list, &m), &Some(w), op, case);
                }
                (Err(_), Err(())) => {}
                // Assembling does not check: which of two different signatures it keeps is not specified.
                (Ok(m), Err(())) if op == "assemble" => {
                    let b = c.back(list, &m);
                    let ok = b.map_or(false, |b| {
                        (0..b.len()).all(|i| {
                            ps.iter().any(|p| p[i] == b[i])
                                && (b[i] != 0 || ps.iter().all(|p| p[i] == 0))
                        })
                    });
                    r.check(ok, op, case, || {
                        "the result holds something that was in no part".into()
                    });
                }
                (Ok(m), Err(())) => r.violation(
                    op,
                    case(),
                    format!(
                        "conflicting signatures combined into {:?}",
                        c.back(list, &m)
                    ),
                ),
                (Err(e), Ok(w)) => {
                    r.violation(op, case(), format!("refused ({}), union is {:?}", e, w))
                }
            }
        };
        for p2 in &parts {
            r.state();
            let two = [p1, p2];
            chk(
                r,
                "merge",
                guard(|| hk::merge(&mk(p1), &mk(p2)).map_err(|e| e.to_string())),
                union(&two),
                &two,
            );
            chk(
                r,
                "assemble",
                guard(|| hk::assemble(&[mk(p1), mk(p2)]).map_err(|e| e.to_string())),
                union(&two),
                &two,
            );
            chk(
                r,
                "add",
                guard(|| {
                    let mut m = mk(p1);
                    hk::add_sigs(&mut m, vec![mk(p2)])
                        .map(|_| m)
                        .map_err(|e| e.to_string())
                }),
                union(&two),
                &two,
            );
            for p3 in &parts {
                r.state();
                let three = [p1, p2, p3];
                chk(
                    r,
                    "assemble",
                    guard(|| hk::assemble(&[mk(p1), mk(p2), mk(p3)]).map_err(|e| e.to_string())),
                    union(&three),
                    &three,
                );
                chk(
                    r,
                    "add",
                    guard(|| {
                        let mut m = mk(p1);
                        hk::add_sigs(&mut m, vec![mk(p2), mk(p3)])
                            .map(|_| m)
                            .map_err(|e| e.to_string())
                    }),
                    union(&three),
                    &three,
                );
                // grouping
                chk(
                    r,
                    "merge",
                    guard(|| {
                        hk::merge(&mk(p1), &mk(p2))
                            .and_then(|m| hk::merge(&m, &mk(p3)))
                            .map_err(|e| e.to_string())
                    }),
                    union(&three),
                    &three,
                );
                chk(
                    r,
                    "merge",
                    guard(|| {
                        hk::merge(&mk(p2), &mk(p3))
                            .and_then(|m| hk::merge(&mk(p1), &m))
                            .map_err(|e| e.to_string())
                    }),
                    union(&three),
                    &three,
                );
                r.trace();
            }
            // the combination verifies exactly if enough valid and no invalid signatures came together
            if let Ok(u) = union(&two) {
                let pks: Vec<PublicKey> = list.iter().map(|k| c.keys[*k].public).collect();
                let want = u.iter().all(|x| *x != 2)
                    && u.iter().filter(|x| **x == 1).count() >= *t as usize;
                let got = guard(|| {
                    let a = hk::from_pks(1, *t, &pks).unwrap();
                    hk::merge(&mk(p1), &mk(p2))
                        .map(|m| matches!(m.verify(&msg, &a), Ok(true)))
                        .unwrap_or(false)
                });
                r.step();
                let case = || {
                    format!(
                        "merge+verify keys {:?} threshold {} parts {:?}",
                        list, t, two
                    )
                };
                if let Some(g) = r.no_panic(got, "panic", case) {
                    r.check_eq(&g, &want, "verify-after-merge", case);
                    r.outcome(if want { "verifies" } else { "does not verify" });
                }
            }
            r.sample("parts", || {
                format!("keys {:?} threshold {} parts {:?}", list, t, two)
            });
        }
    });
    // ---- parts that do not belong together, in every position
    let base_list = vec![0usize, 1];
    let good = c.mk(&base_list, 2, 1, &vec![1, 0]);
    let mut odd: Vec<(&str, MultisigSignature)> = vec![
        ("other threshold", c.mk(&base_list, 1, 1, &vec![0, 1])),
        ("other version", c.mk(&base_list, 2, 2, &vec![0, 1])),
        ("version 0", c.mk(&base_list, 2, 0, &vec![0, 1])),
        ("other first key", c.mk(&[2, 1], 2, 1, &vec![0, 1])),
        ("other last key", c.mk(&[0, 2], 2, 1, &vec![1, 0])),
        ("keys swapped", c.mk(&[1, 0], 2, 1, &vec![1, 1])),
        ("key missing", c.mk(&[0], 2, 1, &vec![1])),
        ("key added", c.mk(&[0, 1, 2], 2, 1, &vec![0, 1, 1])),
        ("no keys", c.mk(&[], 2, 1, &vec![])),
    ];
    odd.push(("all absent, other key", c.mk(&[0, 3], 2, 1, &vec![0, 0])));
    for (name, o) in &odd {
        let ok = c.mk(&base_list, 2, 1, &vec![0, 1]);
        let seqs: Vec<Vec<MultisigSignature>> = vec![
            vec![o.clone(), good.clone()],
            vec![good.clone(), o.clone()],
            vec![good.clone(), ok.clone(), o.clone()],
            vec![good.clone(), o.clone(), ok.clone()],
            vec![o.clone(), ok.clone(), good.clone()],
        ];
        for (i, s) in seqs.iter().enumerate() {
            r.state();
            r.steps(3);
            r.trace();
            let case = || format!("{} at arrangement {}", name, i);
            if let Some(g) = r.no_panic(guard(|| hk::assemble(s).is_ok()), "mismatch-panic", case) {
                r.check(!g, "mismatch-assembled", case, || "combined".into());
            }
            let res = guard(|| {
                let mut m = s[0].clone();
                let before = m.clone();
                let ok = hk::add_sigs(&mut m, s[1..].to_vec()).is_ok();
                (ok, m == before)
            });
            if let Some((g, same)) = r.no_panic(res, "mismatch-panic", case) {
                r.check(!g, "mismatch-added", case, || "combined".into());
                r.check(same, "mismatch-add-modified", case, || {
                    "the receiver was modified although the parts were refused".into()
                });
            }
            if s.len() == 2 {
                if let Some(g) = r.no_panic(
                    guard(|| hk::merge(&s[0], &s[1]).is_ok()),
                    "mismatch-panic",
                    case,
                ) {
                    r.check(!g, "mismatch-merged", case, || "combined".into());
                }
            }
            r.outcome("mismatch");
        }
    }
    // every slot of a small list differing, under every threshold
    for n in 2..=4usize {
        let list: Vec<usize> = (0..n).collect();
        for t in 1..=n as u8 {
            for slot in 0..n {
                for have in [0usize, 1] {
                    let own: Part = (0..n).map(|i| usize::from(i == 0)).collect();
                    let theirs: Part = (0..n).map(|i| have * usize::from(i == n - 1)).collect();
                    let x = c.mk(&list, t, 1, &own);
                    let mut y = c.mk(&list, t, 1, &theirs);
                    y.subsigs[slot].key = kp(9).public;
                    for (x, y) in [(&x, &y), (&y, &x)] {
                        r.state();
                        r.steps(3);
                        r.trace();
                        let case = || format!("{} keys, threshold {}, slot {} differs", n, t, slot);
                        for (name, res) in [
                            ("mismatch-merged", guard(|| hk::merge(x, y).is_ok())),
                            (
                                "mismatch-assembled",
                                guard(|| hk::assemble(&[x.clone(), y.clone()]).is_ok()),
                            ),
                            (
                                "mismatch-added",
                                guard(|| hk::add_sigs(&mut x.clone(), vec![y.clone()]).is_ok()),
                            ),
                        ] {
                            if let Some(g) = r.no_panic(res, "mismatch-panic", case) {
                                r.check(!g, name, case, || "combined".into());
                            }
                        }
                    }
                }
            }
        }
    }
    many_parts(&mut r, c);
    signers(&mut r, c, &msg);
    long(&mut r, &msg);
    // ---- too few parts
    for s in [vec![], vec![good.clone()]] {
        r.step();
        let n = s.len();
        if let Some(g) = r.no_panic(guard(|| hk::assemble(&s).is_ok()), "panic", || {
            format!("assemble of {} parts", n)
        }) {
            r.check(
                !g,
                "too-few",
                || format!("assemble of {} parts", n),
                || "accepted".into(),
            );
        }
    }
    let res = guard(|| {
        let mut m = good.clone();
        hk::add_sigs(&mut m, vec![]).is_ok()
    });
    if let Some(g) = r.no_panic(res, "panic", || "add of no parts".into()) {
        r.check(
            !g,
            "too-few",
            || "add of no parts".into(),
            || "accepted".into(),
        );
    }
    r.finish()
}
