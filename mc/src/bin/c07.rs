//@ hooks
//! C07: a multisignature verifies exactly with threshold many signatures, all valid.
//!
//! All key lists up to 4 slots (up to renaming of keys, duplicates included), all thresholds, all
//! assignments of signature kinds to slots, checked for single and batch verification against the
//! definition; address derivation and signing against a reference; limits at 255 and 256 slots.

use std::collections::HashMap;

use algorsand::crypto::batch_verifier::BatchVerifier;
use algorsand::crypto::multisig::verif_hook as hk;
use algorsand::crypto::{MultisigSignature, MultisigSubsig};
use ed25519_dalek::{Keypair, PublicKey, SecretKey, Signature, Signer};
use mc::*;

fn kp(b: u8) -> Keypair {
    let secret = SecretKey::from_bytes(&[b; 32]).unwrap();
    let public = PublicKey::from(&secret);
    Keypair { secret, public }
}
fn ref_addr(version: u8, threshold: u8, keys: &[PublicKey]) -> [u8; 32] {
    let mut b = b"MultisigAddr".to_vec();
    b.push(version);
    b.push(threshold);
    for k in keys {
        b.extend_from_slice(k.as_bytes());
    }
    model::sha(&b)
}
/// Key lists of length n up to renaming.
fn lists(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, max: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..=max {
            cur.push(i);
            rec(n, cur, max.max(i + 1), out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    rec(n, &mut Vec::new(), 0, &mut out);
    out
}

const KINDS: [&str; 6] = [
    "-",
    "valid",
    "other-message",
    "other-signer",
    "corrupted",
    "zero",
];

struct Sigs {
    /// [key][kind]
    t: Vec<Vec<Option<Signature>>>,
}

fn main() {
    let mut r = Report::new("C07");
    r.assume("ed25519 signatures are unforgeable; individual verification is ed25519-dalek's");
    r.assume("the first listed key is not the all-zero placeholder key (a blank first slot is defined to mean: no multisignature)");
    let keys: Vec<Keypair> = (1..=6).map(kp).collect();
    let msg = b"message".to_vec();
    let sigs = Sigs {
        t: (0..keys.len())
            .map(|k| {
                let s = keys[k].sign(&msg);
                let mut c = s.to_bytes();
                c[0] ^= 1;
                vec![
                    None,
                    Some(s),
                    Some(keys[k].sign(b"messagf")),
                    Some(keys[(k + 1) % keys.len()].sign(&msg)),
                    Some(Signature::from(c)),
                    Some(Signature::from([0; 64])),
                ]
            })
            .collect(),
    };
    let (sigs, keys, msg) = (&sigs, &keys, &msg);
    let mk = |version: u8, threshold: u8, ks: &[usize], kinds: &[usize]| MultisigSignature {
        version,
        threshold,
        subsigs: ks
            .iter()
            .zip(kinds)
            .map(|(k, kind)| MultisigSubsig {
                key: keys[*k].public,
                sig: sigs.t[*k][*kind],
            })
            .collect(),
    };
    let accept = |m: &MultisigSignature, addr: [u8; 32]| {
        let a = hk::addr(addr);
        let single = guard(|| matches!(m.verify(msg, &a), Ok(true)));
        let batch = guard(|| {
            let mut b = BatchVerifier::default();
            match hk::batch_verify(m, msg, &a, &mut b) {
                Ok(true) => b.verify().is_ok(),
                _ => false,
            }
        });
        (single, batch)
    };
    let spec = |version: u8, threshold: u8, ks: &[usize], kinds: &[usize], addr_ok: bool| {
        let present = kinds.iter().filter(|k| **k != 0).count();
        version == 1
            && addr_ok
            && !ks.is_empty()
            && ks.len() <= 255
            && threshold >= 1
            && threshold as usize <= ks.len()
            && present >= threshold as usize
            && kinds.iter().all(|k| *k <= 1)
    };
    let test = |r: &mut Report,
                version: u8,
                threshold: u8,
                ks: &[usize],
                kinds: &[usize],
                addr: [u8; 32],
                addr_ok: bool| {
        let m = mk(version, threshold, ks, kinds);
        let want = spec(version, threshold, ks, kinds, addr_ok);
        r.state();
        r.steps(2);
        let case = || {
            let kk: Vec<String> = ks
                .iter()
                .zip(kinds)
                .take(8)
                .map(|(k, s)| format!("k{}:{}", k, KINDS[*s]))
                .collect();
            format!(
                "version {} threshold {} slots {:?}{} address matches: {}",
                version,
                threshold,
                kk,
                if ks.len() > 8 {
                    format!("… ({})", ks.len())
                } else {
                    String::new()
                },
                addr_ok
            )
        };
        let (s, b) = accept(&m, addr);
        let (Some(s), Some(b)) = (
            r.no_panic(s, "verify-panic", case),
            r.no_panic(b, "batch-panic", case),
        ) else {
            return;
        };
        r.outcome(if want { "valid" } else { "invalid" });
        if s != want {
            r.violation(
                if s {
                    "accepts-invalid"
                } else {
                    "rejects-valid"
                },
                case(),
                format!("verify accepted = {}", s),
            );
        }
        if b != want {
            r.violation(
                if b {
                    "batch-accepts-invalid"
                } else {
                    "batch-rejects-valid"
                },
                case(),
                format!("batch verify accepted = {}", b),
            );
        }
        r.trace();
        if want {
            r.sample("valid", case);
        }
    };
    // 1. all slot assignments
    let maxn = tier(4, 5);
    let mut jobs: Vec<Vec<usize>> = Vec::new();
    for n in 0..=maxn {
        jobs.extend(lists(n));
    }
    r.space("key lists up to renaming", jobs.len());
    parallel(&mut r, jobs, |r, ks| {
        let pks: Vec<PublicKey> = ks.iter().map(|k| keys[*k].public).collect();
        let nk = if ks.len() >= 4 { 5 } else { 6 };
        sequences(nk, ks.len(), |kinds| {
            for t in (0..=ks.len() as u8 + 1).chain([255]) {
                // Skip most plainly unsatisfiable thresholds for the larger lists.
                if ks.len() >= 4 && t as usize > ks.len() && kinds[0] != 1 {
                    continue;
                }
                test(r, 1, t, ks, kinds, ref_addr(1, t, &pks), true);
            }
        });
    });
    // 2. versions and addresses that do not fit
    for n in 1..=3usize {
        for ks in lists(n) {
            let pks: Vec<PublicKey> = ks.iter().map(|k| keys[*k].public).collect();
            sequences(2, n, |kinds| {
                for t in 1..=n as u8 {
                    for v in [0u8, 2, 3, 128, 255] {
                        test(&mut r, v, t, &ks, kinds, ref_addr(v, t, &pks), true);
                        test(&mut r, v, t, &ks, kinds, ref_addr(1, t, &pks), false);
                    }
                    let mut addrs = vec![
                        [0u8; 32],
                        ref_addr(1, t + 1, &pks),
                        ref_addr(0, t, &pks),
                        ref_addr(2, t, &pks),
                    ];
                    if t > 1 {
                        addrs.push(ref_addr(1, t - 1, &pks));
                    }
                    addrs.push(ref_addr(1, t, &pks[..n - 1]));
                    let mut more = pks.clone();
                    more.push(keys[5].public);
                    addrs.push(ref_addr(1, t, &more));
                    let mut rev = pks.clone();
                    rev.reverse();
                    addrs.push(ref_addr(1, t, &rev));
                    for i in 0..n {
                        let mut o = pks.clone();
                        o[i] = keys[5].public;
                        addrs.push(ref_addr(1, t, &o));
                    }
                    let good = ref_addr(1, t, &pks);
                    for bit in 0..256 {
                        let mut a = good;
                        a[bit / 8] ^= 1 << (bit % 8);
                        if bit % 37 == 0 {
                            addrs.push(a);
                        }
                    }
                    for a in addrs {
                        test(&mut r, 1, t, &ks, kinds, a, a == good);
                    }
                }
            });
        }
    }
    // 3. the verified message is the whole message
    {
        let m = mk(1, 2, &[0, 1, 2], &[1, 1, 0]);
        let a = hk::addr(ref_addr(
            1,
            2,
            &[keys[0].public, keys[1].public, keys[2].public],
        ));
        let mut alts: Vec<Vec<u8>> = vec![
            vec![],
            b"messag".to_vec(),
            b"message ".to_vec(),
            b"Message".to_vec(),
        ];
        for bit in 0..msg.len() * 8 {
            let mut x = msg.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            alts.push(x);
        }
        for x in alts {
            r.step();
            r.state();
            if let Some(ok) = r.no_panic(
                guard(|| matches!(m.verify(&x, &a), Ok(true))),
                "verify-panic",
                || hex(&x),
            ) {
                r.check(
                    !ok,
                    "accepts-other-message",
                    || format!("message {}", hex(&x)),
                    || "accepted".into(),
                );
            }
        }
    }
    // 3b. a blank key is a key like any other, except in the first slot
    let blanks = [
        PublicKey::from_bytes(&[0; 32]).unwrap(),
        PublicKey::default(),
    ];
    for (zero, n) in blanks
        .iter()
        .flat_map(|z| (2..=5usize).map(move |n| (*z, n)))
    {
        for place in 1..n {
            for t in 1..=n as u8 {
                for missing in 0..n {
                    let pks: Vec<PublicKey> = (0..n)
                        .map(|i| if i == place { zero } else { keys[i].public })
                        .collect();
                    let m = MultisigSignature {
                        version: 1,
                        threshold: t,
                        subsigs: (0..n)
                            .map(|i| MultisigSubsig {
                                key: pks[i],
                                sig: if i == place || i == missing {
                                    None
                                } else {
                                    sigs.t[i][1]
                                },
                            })
                            .collect(),
                    };
                    let present = m.subsigs.iter().filter(|s| s.sig.is_some()).count();
                    let want = present >= t as usize;
                    r.state();
                    r.steps(2);
                    r.trace();
                    let case = || {
                        format!(
                            "{} keys, a zero key in slot {}, threshold {}, {} signatures",
                            n, place, t, present
                        )
                    };
                    let (s, b) = accept(&m, ref_addr(1, t, &pks));
                    if let Some(s) = r.no_panic(s, "verify-panic", case) {
                        r.check_eq(&s, &want, "zero-key", case);
                    }
                    if let Some(b) = r.no_panic(b, "batch-panic", case) {
                        r.check_eq(&b, &want, "zero-key-batch", case);
                    }
                }
            }
        }
    }
    // 4. limits
    for n in [254usize, 255, 256, 257, 300] {
        let ks: Vec<usize> = (0..n).map(|i| i % 5).collect();
        let pks: Vec<PublicKey> = ks.iter().map(|k| keys[*k].public).collect();
        for t in [1u8, 2, 254, 255] {
            for present in [0usize, 1, 2, 253, 254, 255, 256, n] {
                let kinds: Vec<usize> = (0..n).map(|i| usize::from(i < present)).collect();
                test(&mut r, 1, t, &ks, &kinds, ref_addr(1, t, &pks), true);
                let mut bad = kinds.clone();
                bad[n - 1] = 2;
                test(&mut r, 1, t, &ks, &bad, ref_addr(1, t, &pks), true);
            }
        }
    }
    // 4b. long lists of different keys: every slot in turn is the signer, unsigned, or signed wrongly
    let many: Vec<Keypair> = (1..=255u8).map(kp).collect();
    let good: Vec<Signature> = many.iter().map(|k| k.sign(msg)).collect();
    let bad: Vec<Signature> = many.iter().map(|k| k.sign(b"messagf")).collect();
    let (many, good, bad) = (&many, &good, &bad);
    let lens: Vec<usize> = tier(
        (5..=24)
            .chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255])
            .collect(),
        (5..=255).collect(),
    );
    r.space("long key lists", lens.len());
    let jobs: Vec<(usize, usize)> = lens
        .iter()
        .flat_map(|n| (0..*n).map(move |p| (*n, p)))
        .collect();
    let chunks: Vec<Vec<(usize, usize)>> = jobs.chunks(16).map(|c| c.to_vec()).collect();
    parallel(&mut r, chunks, |r, chunk| {
        for &(n, p) in chunk {
            let pks: Vec<PublicKey> = many[..n].iter().map(|k| k.public).collect();
            let t = n as u8;
            let a = hk::addr(ref_addr(1, t, &pks));
            let full: Vec<MultisigSubsig> = (0..n)
                .map(|i| MultisigSubsig {
                    key: pks[i],
                    sig: Some(good[i]),
                })
                .collect();
            r.state();
            r.trace();
            // (what is in the slot, threshold, whether it verifies)
            let less = hk::addr(ref_addr(1, t - 1, &pks));
            let cases = [
                (Some(bad[p]), t, false),
                (Some(bad[p]), t - 1, false),
                (None, t, false),
                (None, t - 1, true),
                (Some(good[(p + 1) % n]), t - 1, false),
            ];
            for (k, (sig, t, want)) in cases.iter().enumerate() {
                let mut m = MultisigSignature {
                    version: 1,
                    threshold: *t,
                    subsigs: full.clone(),
                };
                m.subsigs[p].sig = *sig;
                r.steps(2);
                let case = || {
                    format!(
                        "{} keys, threshold {}, all slots signed but slot {} (variant {})",
                        n, t, p, k
                    )
                };
                let a = if *t == n as u8 { &a } else { &less };
                let s = guard(|| matches!(m.verify(msg, a), Ok(true)));
                let b = guard(|| {
                    let mut b = BatchVerifier::default();
                    matches!(hk::batch_verify(&m, msg, a, &mut b), Ok(true)) && b.verify().is_ok()
                });
                r.check(
                    s == Ok(*want),
                    if *want {
                        "rejects-valid"
                    } else {
                        "accepts-invalid"
                    },
                    case,
                    || format!("verify accepted = {:?}", s),
                );
                r.check(
                    b == Ok(*want),
                    if *want {
                        "batch-rejects-valid"
                    } else {
                        "batch-accepts-invalid"
                    },
                    case,
                    || format!("batch verify accepted = {:?}", b),
                );
            }
            // the key of slot p exchanged: another address
            let mut other = pks.clone();
            other[p] = keys[0].public;
            if p != 0 {
                r.step();
                let got = guard(|| hk::from_pks(1, t, &other).map(|x| hk::addr_bytes(&x)).ok());
                r.check(
                    got == Ok(Some(ref_addr(1, t, &other))),
                    "address",
                    || format!("{} keys, other key in slot {}", n, p),
                    || format!("{:?}", got),
                );
            }
            // signing, alone and with the key twice in the list
            for twice in [false, true] {
                let mut list = pks.clone();
                let q = (p * 7 + 3) % n;
                if twice {
                    list[q] = list[p];
                }
                let t = (p % n) as u8 + 1;
                let a = hk::addr(ref_addr(1, t, &list));
                r.step();
                let got = guard(|| {
                    hk::sign(&a, msg, 1, t, &list, &many[p])
                        .map(|m| {
                            m.subsigs
                                .iter()
                                .map(|s| s.sig.is_some())
                                .collect::<Vec<_>>()
                        })
                        .ok()
                });
                let want: Vec<bool> = (0..n).map(|i| list[i] == pks[p]).collect();
                r.check(
                    got == Ok(Some(want)),
                    "sign",
                    || {
                        format!(
                            "{} keys, the signer in slot {}{}",
                            n,
                            p,
                            if twice {
                                format!(" and {}", q)
                            } else {
                                String::new()
                            }
                        )
                    },
                    || format!("signed slots: {:?}", got),
                );
            }
        }
    });
    // 5. address derivation and signing
    let mut addrs: HashMap<[u8; 32], (u8, Vec<usize>)> = HashMap::new();
    for n in 0..=4usize {
        sequences(3, n, |ks| {
            let pks: Vec<PublicKey> = ks.iter().map(|k| keys[*k].public).collect();
            for v in [0u8, 1, 2, 255] {
                for t in (0..=n as u8 + 1).chain([255]) {
                    r.state();
                    r.step();
                    let case = || format!("address of version {} threshold {} keys {:?}", v, t, ks);
                    let Some(got) =
                        r.no_panic(guard(|| hk::from_pks(v, t, &pks).ok()), "addr-panic", case)
                    else {
                        continue;
                    };
                    let ok = v == 1 && t >= 1 && n >= 1 && t as usize <= n;
                    let want = if ok {
                        Some(hex(&ref_addr(v, t, &pks)))
                    } else {
                        None
                    };
                    r.check_eq(
                        &got.as_ref().map(|a| hex(&hk::addr_bytes(a))),
                        &want,
                        "address",
                        case,
                    );
                    if let Some(a) = &got {
                        if let Some(o) = addrs.insert(hk::addr_bytes(a), (t, ks.to_vec())) {
                            r.violation(
                                "address-collision",
                                format!("{:?} and {:?}", o, (t, ks)),
                                "same address",
                            );
                        }
                    }
                    if n > 3 {
                        continue;
                    }
                    // signing
                    let right = ref_addr(v, t, &pks);
                    for (signer, s) in keys.iter().enumerate().take(4) {
                        for wrong_addr in [false, true] {
                            let a = hk::addr(if wrong_addr {
                                ref_addr(v, t.wrapping_add(1), &pks)
                            } else {
                                right
                            });
                            r.step();
                            let case = || {
                                format!(
                                    "{} signing as k{}, wrong address {}",
                                    case(),
                                    signer,
                                    wrong_addr
                                )
                            };
                            let Some(got) = r.no_panic(
                                guard(|| hk::sign(&a, msg, v, t, &pks, s)),
                                "sign-panic",
                                case,
                            ) else {
                                continue;
                            };
                            let want = if ok && !wrong_addr && ks.contains(&signer) {
                                let kinds: Vec<usize> =
                                    ks.iter().map(|k| usize::from(*k == signer)).collect();
                                Some(mk(v, t, ks, &kinds))
                            } else {
                                None
                            };
                            r.check(got.as_ref().ok() == want.as_ref(), "sign", case, || {
                                format!(
                                    "{:?}, expected {}",
                                    got.as_ref().map(|m| m
                                        .subsigs
                                        .iter()
                                        .map(|s| s.sig.is_some())
                                        .collect::<Vec<_>>()),
                                    want.is_some()
                                )
                            });
                            r.outcome(if want.is_some() {
                                "signed"
                            } else {
                                "sign-refused"
                            });
                        }
                    }
                    r.trace();
                }
            }
        });
    }
    r.space("distinct addresses", addrs.len());
    r.finish()
}
