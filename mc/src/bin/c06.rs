//! C06: batch signature verification agrees with individual verification.
//!
//! All batches up to a length over an alphabet of valid and (in different ways) invalid entries,
//! with verification attempted after every enqueue.

use algorsand::crypto::batch_verifier::{BatchVerError, BatchVerifier};
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT as B, EIGHT_TORSION};
use curve25519_dalek::edwards::EdwardsPoint;
use curve25519_dalek::scalar::Scalar;
use ed25519_dalek::{Keypair, PublicKey, SecretKey, Signature, Signer, Verifier};
use mc::*;

fn kp(b: u8) -> Keypair {
    let secret = SecretKey::from_bytes(&[b; 32]).unwrap();
    let public = PublicKey::from(&secret);
    Keypair { secret, public }
}

struct Entry {
    name: &'static str,
    pk: PublicKey,
    msg: Vec<u8>,
    sig: Signature,
    valid: Option<bool>,
}

fn challenge(rp: &EdwardsPoint, a: &EdwardsPoint, m: &[u8]) -> Scalar {
    use sha2::Digest;
    let h = sha2::Sha512::digest(
        &[&rp.compress().to_bytes()[..], &a.compress().to_bytes(), m].concat(),
    );
    let mut wide = [0; 64];
    wide.copy_from_slice(&h);
    Scalar::from_bytes_mod_order_wide(&wide)
}

fn signature(rp: &EdwardsPoint, s: Scalar) -> Signature {
    let mut b = [0; 64];
    b[..32].copy_from_slice(&rp.compress().to_bytes());
    b[32..].copy_from_slice(&s.to_bytes());
    Signature::from(b)
}

/// Keys and signatures with parts of small order, on which definitions of validity differ: what
/// counts is that the batch gives the same answer as the single verification.
fn small_order() -> Vec<Entry> {
    let pk = |a: &EdwardsPoint| PublicKey::from_bytes(&a.compress().to_bytes()).expect("a point");
    let none = EIGHT_TORSION[0];
    let t = EIGHT_TORSION[1];
    let mut v = Vec::new();
    v.push(Entry {
        name: "identity-key",
        pk: pk(&none),
        msg: b"any".to_vec(),
        sig: signature(&none, Scalar::from(0u64)),
        valid: None,
    });
    // a key of order 8: the message decides
    for want in [0, 4, 1] {
        let m = (0..=255u8)
            .map(|i| vec![i])
            .find(|m| challenge(&none, &t, m).to_bytes()[0] % 8 == want)
            .unwrap();
        v.push(Entry {
            name: [
                "order-8-key,0",
                "",
                "",
                "",
                "order-8-key,4",
                "order-8-key,1",
            ][if want == 1 { 5 } else { want as usize }],
            pk: pk(&t),
            msg: m,
            sig: signature(&none, Scalar::from(0u64)),
            valid: None,
        });
    }
    // an honest key, R shifted by a point of small order: the shifts of two entries cancel out
    let a = Scalar::from(987_654_321u64);
    let ap = B * a;
    for (name, shift) in [
        ("R+T", EIGHT_TORSION[1]),
        ("R-T", EIGHT_TORSION[7]),
        ("R+T4", EIGHT_TORSION[4]),
    ] {
        let x = Scalar::from(1234u64);
        let rp = B * x + shift;
        let s = x + challenge(&rp, &ap, b"shifted") * a;
        v.push(Entry {
            name,
            pk: pk(&ap),
            msg: b"shifted".to_vec(),
            sig: signature(&rp, s),
            valid: Some(false),
        });
    }
    v
}

fn main() {
    let mut r = Report::new("C06");
    r.assume("ed25519-dalek's individual verification is the reference for a single triple");
    let (k1, k2) = (kp(1), kp(2));
    let (m1, m2) = (b"one".to_vec(), b"two".to_vec());
    let flip = |s: &Signature, i: usize, bit: u8| {
        let mut b = s.to_bytes();
        b[i] ^= bit;
        Signature::from(b)
    };
    let s11 = k1.sign(&m1);
    let s22 = k2.sign(&m2);
    let s12 = k1.sign(&m2);
    // s + L: the same signature with a non-reduced scalar
    let mut noncanon = s11.to_bytes();
    {
        let l: [u8; 32] = [
            0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9,
            0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
        ];
        let mut c = 0u16;
        for i in 0..32 {
            let v = noncanon[32 + i] as u16 + l[i] as u16 + c;
            noncanon[32 + i] = v as u8;
            c = v >> 8;
        }
    }
    // messages that differ only far from their start
    let (long, other) = (vec![9u8; 1000], {
        let mut m = vec![9u8; 1000];
        m[999] = 8;
        m
    });
    let mut entries = vec![
        Entry {
            name: "long-message",
            pk: k1.public,
            msg: long.clone(),
            sig: k1.sign(&long),
            valid: Some(true),
        },
        Entry {
            name: "long-message-altered",
            pk: k1.public,
            msg: other,
            sig: k1.sign(&long),
            valid: Some(false),
        },
        Entry {
            name: "valid(k1,m1)",
            pk: k1.public,
            msg: m1.clone(),
            sig: s11,
            valid: Some(true),
        },
        Entry {
            name: "valid(k2,m2)",
            pk: k2.public,
            msg: m2.clone(),
            sig: s22,
            valid: Some(true),
        },
        Entry {
            name: "valid(k1,m2)",
            pk: k1.public,
            msg: m2.clone(),
            sig: s12,
            valid: Some(true),
        },
        Entry {
            name: "wrong-message",
            pk: k1.public,
            msg: m2.clone(),
            sig: s11,
            valid: Some(false),
        },
        Entry {
            name: "wrong-key",
            pk: k2.public,
            msg: m1.clone(),
            sig: s11,
            valid: Some(false),
        },
        Entry {
            name: "flipped-R",
            pk: k1.public,
            msg: m1.clone(),
            sig: flip(&s11, 3, 0x10),
            valid: Some(false),
        },
        Entry {
            name: "flipped-s",
            pk: k1.public,
            msg: m1.clone(),
            sig: flip(&s11, 40, 1),
            valid: Some(false),
        },
        Entry {
            name: "zero-signature",
            pk: k1.public,
            msg: m1.clone(),
            sig: Signature::from([0; 64]),
            valid: Some(false),
        },
        Entry {
            name: "s+L",
            pk: k1.public,
            msg: m1.clone(),
            sig: Signature::from(noncanon),
            valid: None,
        },
        Entry {
            name: "empty-message",
            pk: k2.public,
            msg: vec![],
            sig: k2.sign(b""),
            valid: Some(true),
        },
        Entry {
            name: "truncated-message",
            pk: k2.public,
            msg: b"tw".to_vec(),
            sig: s22,
            valid: Some(false),
        },
    ];
    entries.extend(small_order());
    let solo: Vec<bool> = entries
        .iter()
        .map(|e| {
            let ok = e.pk.verify(&e.msg, &e.sig).is_ok();
            if let Some(v) = e.valid {
                assert_eq!(v, ok, "{}", e.name);
            }
            ok
        })
        .collect();
    let maxlen: usize = tier(4, 5);
    let at = |name: &str| entries.iter().position(|e| e.name == name).unwrap();
    let cycle = [at("valid(k1,m1)"), at("valid(k2,m2)"), at("valid(k1,m2)")];
    let wrong = at("wrong-message");
    let caps = [0usize, 1, 16, 100];
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for len in 0..=maxlen {
        for first in 0..entries.len() {
            if len == 0 && first > 0 {
                continue;
            }
            jobs.push((len, first));
        }
    }
    let entries = &entries;
    let solo = &solo;
    parallel(&mut r, jobs, |r, (len, first)| {
        let mut i = 0;
        sequences(entries.len(), len.saturating_sub(1), |rest| {
            let mut s: Vec<usize> = Vec::new();
            if *len > 0 {
                s.push(*first);
                s.extend_from_slice(rest);
            }
            i += 1;
            let cap = caps[i % caps.len()];
            r.state();
            let case = || {
                format!(
                    "capacity {} batch {:?}",
                    cap,
                    s.iter().map(|i| entries[*i].name).collect::<Vec<_>>()
                )
            };
            let res = guard(|| {
                let mut b = if i % 5 == 0 {
                    BatchVerifier::default()
                } else {
                    BatchVerifier::with_capacity(cap)
                };
                let mut out = Vec::new();
                // verification may be attempted at any time without disturbing the batch
                if i % 2 == 0 {
                    out.push((0usize, b.verify(), b.num_sigs_enqued()));
                }
                for (n, e) in s.iter().enumerate() {
                    b.enque_sig(entries[*e].pk, &entries[*e].msg, entries[*e].sig);
                    if i % 2 == 0 || n + 1 == s.len() {
                        out.push((n + 1, b.verify(), b.num_sigs_enqued()));
                    }
                }
                out.push((s.len(), b.verify(), b.num_sigs_enqued()));
                out
            });
            let Some(out) = r.no_panic(res, "panic", case) else {
                return;
            };
            for (n, got, num) in out {
                r.step();
                let want = n > 0 && s[..n].iter().all(|e| solo[*e]);
                r.outcome(if n == 0 {
                    "empty"
                } else if want {
                    "all-valid"
                } else {
                    "some-invalid"
                });
                r.check(num == n, "count", case, || {
                    format!("{} enqueued, reports {}", n, num)
                });
                if n == 0 {
                    r.check(
                        got == Err(BatchVerError::ZeroTranscationsInBatch),
                        "empty",
                        case,
                        || format!("{:?}", got),
                    );
                } else {
                    let ok = if want {
                        got == Ok(())
                    } else {
                        got == Err(BatchVerError::VerificationFailed)
                    };
                    r.check(ok, "verdict", case, || {
                        format!(
                            "after {} entries: {:?}, individually all valid = {}",
                            n, got, want
                        )
                    });
                }
            }
            r.trace();
            r.sample("batch", case);
        });
    });
    r.space(
        "all batches over entry kinds",
        serde_json::json!({"kinds": entries.len(), "max_length": maxlen}),
    );
    // long batches with one bad entry at every position, and batches of every length whose last entry is bad
    let mut jobs: Vec<(usize, usize)> = Vec::new();
    for n in tier(vec![70usize, 333], vec![70, 333, 1100]) {
        jobs.extend((0..=n).map(|bad| (n, bad)));
    }
    jobs.extend((334..=700).map(|bad| (700, bad)));
    for n in maxlen + 1..=tier(333, 700) {
        jobs.push((n, n - 1));
        jobs.push((n, n));
    }
    r.space("long batches", serde_json::json!({"batches": jobs.len(), "all positions of lengths": tier(vec![70, 333], vec![70, 333, 1100]), "positions from 334 of length": 700}));
    let chunks: Vec<Vec<(usize, usize)>> = jobs.chunks(40).map(|c| c.to_vec()).collect();
    parallel(&mut r, chunks, |r, chunk| {
        for &(n, bad) in chunk {
            let mut b = BatchVerifier::with_capacity(bad);
            for i in 0..n {
                let e = if i == bad { wrong } else { cycle[i % 3] };
                b.enque_sig(entries[e].pk, &entries[e].msg, entries[e].sig);
            }
            r.state();
            r.step();
            let got = guard(|| b.verify());
            let want = if bad == n {
                Ok(())
            } else {
                Err(BatchVerError::VerificationFailed)
            };
            if let Some(g) = r.no_panic(got, "panic", || format!("{} entries, bad at {}", n, bad)) {
                r.check(
                    g == want,
                    "verdict",
                    || format!("{} entries, invalid one at {}", n, bad),
                    || format!("{:?}", g),
                );
            }
            r.trace();
        }
    });
    r.finish()
}
