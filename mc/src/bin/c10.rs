//@ hooks
//! C10: VRF proofs are complete, unique, key-bound and message-bound.
//!
//! Every proof of a grid of keys and messages is compared with an independent implementation of
//! ECVRF-ED25519-SHA512-Elligator2 (draft 3); every single-bit change of proof, key and message,
//! every component swap and every boundary encoding is verified by both.

use algorsand::crypto::vrf::verif_hook as h;
use algorsand::crypto::{hash_obj, VrfKeypair, VrfOutput};
use curve25519_dalek::constants::{ED25519_BASEPOINT_POINT as B, EIGHT_TORSION};
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use mc::*;
use num::bigint::BigUint;
use num::{One, Zero};
use sha2::{Digest, Sha512};

fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut d = Sha512::new();
    parts.iter().for_each(|p| d.update(p));
    let mut o = [0u8; 64];
    o.copy_from_slice(&d.finalize());
    o
}

fn prime() -> BigUint {
    (BigUint::one() << 255) - 19u32
}

fn le32(n: &BigUint) -> [u8; 32] {
    let v = n.to_bytes_le();
    let mut o = [0u8; 32];
    o[..v.len()].copy_from_slice(&v);
    o
}

/// Reference Elligator2 map, in plain big-integer arithmetic.
fn ref_hash_to_curve(pk: &[u8], msg: &[u8]) -> EdwardsPoint {
    let p = prime();
    let one = BigUint::one();
    let a = BigUint::from(486662u32);
    let mut r = [0u8; 32];
    r.copy_from_slice(&sha512(&[&[4, 1], pk, msg])[..32]);
    r[31] &= 0x7f;
    let r = BigUint::from_bytes_le(&r) % &p;
    let inv = |x: &BigUint| x.modpow(&(&p - 2u32), &p);
    let d = (BigUint::from(2u32) * &r * &r + &one) % &p;
    let mut x = (&p - (&a * inv(&d)) % &p) % &p;
    let g = (&x * &x * &x + &a * &x * &x + &x) % &p;
    let chi = g.modpow(&((&p - 1u32) / 2u32), &p);
    if chi != one && !chi.is_zero() {
        x = (&p + &p - &x - &a) % &p;
    }
    let y = ((&x + &p - &one) * inv(&((&x + &one) % &p))) % &p;
    CompressedEdwardsY(le32(&y))
        .decompress()
        .expect("elligator output on the curve")
        .mul_by_cofactor()
}

fn ref_points(ps: &[EdwardsPoint]) -> [u8; 16] {
    let mut d = Sha512::new();
    d.update([4u8, 2]);
    ps.iter().for_each(|p| d.update(p.compress().as_bytes()));
    let mut o = [0u8; 16];
    o.copy_from_slice(&d.finalize()[..16]);
    o
}

fn scalar16(c: &[u8]) -> Scalar {
    let mut b = [0u8; 32];
    b[..16].copy_from_slice(c);
    Scalar::from_bytes_mod_order(b)
}

fn ref_out(gamma: &EdwardsPoint) -> [u8; 64] {
    sha512(&[&[4, 3], gamma.mul_by_cofactor().compress().as_bytes()])
}

struct Ref {
    pk: [u8; 32],
    proof: [u8; 80],
    out: [u8; 64],
}

fn ref_prove(seed: &[u8; 32], msg: &[u8]) -> Ref {
    let hs = sha512(&[seed]);
    let mut xb = [0u8; 32];
    xb.copy_from_slice(&hs[..32]);
    xb[0] &= 248;
    xb[31] &= 127;
    xb[31] |= 64;
    let x = Scalar::from_bytes_mod_order(xb);
    let pk = (x * B).compress().to_bytes();
    let hp = ref_hash_to_curve(&pk, msg);
    let gamma = x * hp;
    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&hs[32..], hp.compress().as_bytes()]));
    let c = ref_points(&[hp, gamma, k * B, k * hp]);
    let s = k + scalar16(&c) * x;
    let mut proof = [0u8; 80];
    proof[..32].copy_from_slice(gamma.compress().as_bytes());
    proof[32..48].copy_from_slice(&c);
    proof[48..].copy_from_slice(s.as_bytes());
    Ref {
        pk,
        proof,
        out: ref_out(&gamma),
    }
}

fn ref_verify(pk: &[u8; 32], proof: &[u8; 80], msg: &[u8]) -> Option<[u8; 64]> {
    let y = CompressedEdwardsY(*pk).decompress()?;
    if y.is_small_order() {
        return None;
    }
    let mut g = [0u8; 32];
    g.copy_from_slice(&proof[..32]);
    let gamma = CompressedEdwardsY(g).decompress()?;
    let mut sb = [0u8; 32];
    sb.copy_from_slice(&proof[48..]);
    let s = Scalar::from_canonical_bytes(sb)?;
    let c = scalar16(&proof[32..48]);
    let hp = ref_hash_to_curve(pk, msg);
    (ref_points(&[hp, gamma, s * B - c * y, s * hp - c * gamma]) == proof[32..48])
        .then(|| ref_out(&gamma))
}

/// Verifies with the code under test and compares with the reference.
fn both(r: &mut Report, key: &str, pk: &[u8; 32], proof: &[u8; 80], msg: &[u8], must_refuse: bool) {
    r.step();
    r.state();
    let case = || format!("pk={} proof={} msg={}", hex(pk), hex(proof), hex(msg));
    let Some(got) = r.no_panic(
        guard(|| h::public_key(*pk).verify_bytes(&h::proof(*proof), msg).ok()),
        "panic",
        case,
    ) else {
        return;
    };
    let got = got.map(|o: VrfOutput| o.0);
    r.outcome(if got.is_some() { "accepted" } else { "refused" });
    if must_refuse {
        r.check(got.is_none(), key, case, || {
            "an altered proof, key or message is accepted".into()
        });
    } else {
        let want = ref_verify(pk, proof, msg);
        r.check(got == want, key, case, || {
            format!(
                "accepted: {}; reference accepts: {}; outputs equal: {}",
                got.is_some(),
                want.is_some(),
                got == want
            )
        });
    }
}

fn seeds() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32], [0x5a; 32]];
    for bit in [0usize, 100, 255] {
        let mut s = [0u8; 32];
        s[bit / 8] = 1 << (bit % 8);
        v.push(s);
    }
    v
}

fn messages() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    for n in [
        0usize, 1, 2, 3, 31, 32, 33, 63, 64, 65, 77, 78, 79, 93, 94, 95, 127, 128, 129, 200,
    ] {
        v.push((0..n).map(|i| i as u8).collect());
    }
    for b in [0u8, 1, 0x7f, 0x80, 0xff] {
        v.push(vec![b; 32]);
        v.push(vec![b]);
    }
    v
}

fn specials() -> Vec<[u8; 32]> {
    let p = prime();
    let q: BigUint = (BigUint::one() << 252)
        + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
    let top = BigUint::one() << 255;
    let mut v = vec![[0u8; 32], [0xff; 32]];
    for d in 0..19u32 {
        v.push(le32(&(&p + d))); // non-canonical field elements
    }
    for d in 1..4u32 {
        v.push(le32(&(&p - d)));
        v.push(le32(&(&q + d)));
        v.push(le32(&(&q - d)));
        v.push(le32(&BigUint::from(d)));
        v.push(le32(&(&top + d)));
        v.push(le32(&(&top + &p - d)));
        v.push(le32(&(&top + &p + d)));
    }
    v.push(le32(&q));
    v.push(le32(&(&q * 2u32)));
    v.push(le32(&(&q * 8u32)));
    for t in EIGHT_TORSION.iter() {
        let b = t.compress().to_bytes();
        v.push(b);
        let mut c = b;
        c[31] ^= 0x80;
        v.push(c);
    }
    v.push(B.compress().to_bytes());
    v
}

fn main() {
    let mut r = Report::new("C10");
    r.assume("the group and field arithmetic of curve25519-dalek is correct (shared by code and reference); discrete logarithms are hard");
    let (ss, ms) = (seeds(), messages());

    // 1. completeness and agreement with the reference prover, all keys x all messages
    let mut jobs = Vec::new();
    for s in &ss {
        for m in &ms {
            jobs.push((*s, m.clone()));
        }
    }
    for n in 0..tier(160usize, 600) {
        jobs.push(([7u8; 32], vec![0xa5; n]));
        jobs.push((model::sha(&[n as u8, (n >> 8) as u8]), vec![n as u8; 3]));
    }
    r.space("prove: keys x messages", jobs.len());
    parallel(&mut r, jobs, |r, (s, m)| {
        let case = || format!("seed={} msg={}", hex(s), hex(m));
        r.state();
        r.steps(3);
        r.trace();
        let Some((pk, proof, out)) = r.no_panic(
            guard(|| {
                let kp = VrfKeypair::from_seed(*s);
                let pf = kp.prove_bytes(m).expect("prove");
                let out = kp.public().verify_bytes(&pf, m).map(|o| o.0).ok();
                (h::public_key_bytes(&kp.public()), pf, out)
            }),
            "panic",
            case,
        ) else {
            return;
        };
        let want = ref_prove(s, m);
        r.check_eq(&pk, &want.pk, "public-key", case);
        r.check(proof.as_ref() == &want.proof[..], "proof", case, || {
            format!(
                "proof {} instead of {}",
                hex(proof.as_ref()),
                hex(&want.proof)
            )
        });
        r.check(out == Some(want.out), "completeness", case, || {
            format!("own proof verifies: {}", out.is_some())
        });
        r.outcome("proved");
        r.sample("proof", || format!("{} -> {}", case(), hex(proof.as_ref())));
        // proving and verifying objects uses the object's hash
    });
    for s in &ss {
        for m in ["", "a", "VRF"] {
            let m = m.to_string();
            let kp = VrfKeypair::from_seed(*s);
            let pf = kp.prove(&m).expect("prove");
            r.steps(2);
            r.state();
            let hsh = model::sha(&[b"MX", m.as_bytes()].concat());
            r.check(
                pf.as_ref() == &ref_prove(s, &hsh).proof[..] && hash_obj(&m).0 == hsh,
                "object",
                || m.clone(),
                || "proof for an object is not the proof for its hash".into(),
            );
            r.check(
                kp.public().verify(&pf, &m).is_ok()
                    && kp.public().verify(&pf, &format!("{}x", m)).is_err(),
                "object",
                || m.clone(),
                || "verify of object".into(),
            );
        }
    }

    // 2. every single-bit change
    let mut jobs = Vec::new();
    for (i, s) in ss.iter().enumerate() {
        for (j, m) in [vec![], vec![0u8; 1], vec![0xc3; 32]]
            .into_iter()
            .enumerate()
        {
            if thorough() || i < 3 || j == 2 {
                jobs.push((*s, m));
            }
        }
    }
    r.space("bit flips: (key, message) pairs", jobs.len());
    parallel(&mut r, jobs, |r, (s, m)| {
        let w = ref_prove(s, m);
        for bit in 0..640 {
            let mut p = w.proof;
            p[bit / 8] ^= 1 << (bit % 8);
            both(r, "proof-bit", &w.pk, &p, m, true);
        }
        for bit in 0..256 {
            let mut k = w.pk;
            k[bit / 8] ^= 1 << (bit % 8);
            both(r, "key-bit", &k, &w.proof, m, true);
        }
        for bit in 0..m.len() * 8 {
            let mut n = m.clone();
            n[bit / 8] ^= 1 << (bit % 8);
            both(r, "message-bit", &w.pk, &w.proof, &n, true);
        }
        for n in [
            [&m[..], &[0]].concat(),
            [&[0u8], &m[..]].concat(),
            m[..m.len().saturating_sub(1)].to_vec(),
        ] {
            if &n != m {
                both(r, "message-length", &w.pk, &w.proof, &n, true);
            }
        }
        // the scalar plus multiples of the group order, and gamma plus torsion
        let q: BigUint = (BigUint::one() << 252)
            + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        for k in 1..16u32 {
            let n = BigUint::from_bytes_le(&w.proof[48..]) + &q * k;
            if n.bits() <= 256 {
                let mut p = w.proof;
                p[48..].copy_from_slice(&le32(&n));
                both(r, "malleable-scalar", &w.pk, &p, m, true);
            }
        }
        let mut g = [0u8; 32];
        g.copy_from_slice(&w.proof[..32]);
        let gamma = CompressedEdwardsY(g).decompress().unwrap();
        for t in &EIGHT_TORSION[1..] {
            let mut p = w.proof;
            p[..32].copy_from_slice((gamma + t).compress().as_bytes());
            both(r, "torsion", &w.pk, &p, m, false);
        }
        r.trace();
    });

    // 2b. uniqueness: the key's owner can make other proofs (another nonce, gamma off by torsion);
    // each accepted one must give the same output
    for s in &ss {
        let m = vec![0xc3u8; 5];
        let w = ref_prove(s, &m);
        let hs = sha512(&[s]);
        let mut xb = [0u8; 32];
        xb.copy_from_slice(&hs[..32]);
        xb[0] &= 248;
        xb[31] &= 127;
        xb[31] |= 64;
        let x = Scalar::from_bytes_mod_order(xb);
        let hp = ref_hash_to_curve(&w.pk, &m);
        for t in EIGHT_TORSION.iter() {
            for k in 1..tier(24u64, 200) {
                let k = Scalar::from(k);
                let gamma = x * hp + t;
                let c = ref_points(&[hp, gamma, k * B, k * hp]);
                let mut p = [0u8; 80];
                p[..32].copy_from_slice(gamma.compress().as_bytes());
                p[32..48].copy_from_slice(&c);
                p[48..].copy_from_slice((k + scalar16(&c) * x).as_bytes());
                r.step();
                r.state();
                if let Some(Ok(o)) = r.no_panic(
                    guard(|| h::public_key(w.pk).verify_bytes(&h::proof(p), &m)),
                    "panic",
                    || hex(&p),
                ) {
                    r.outcome("other-proof-accepted");
                    r.check(
                        o.0 == w.out,
                        "uniqueness",
                        || format!("seed {} proof {}", hex(s), hex(&p)),
                        || "a second proof gives another output".into(),
                    );
                }
            }
        }
    }

    // 3. pairs: other key's or other message's proof, component swaps
    let pairs: Vec<([u8; 32], Vec<u8>)> = ss
        .iter()
        .flat_map(|s| {
            [vec![], vec![1u8], vec![0xc3; 32]]
                .into_iter()
                .map(move |m| (*s, m))
        })
        .collect();
    let refs: Vec<Ref> = pairs.iter().map(|(s, m)| ref_prove(s, m)).collect();
    let mut jobs = Vec::new();
    for a in 0..pairs.len() {
        jobs.push(a);
    }
    r.space("pairs", pairs.len() * pairs.len());
    parallel(&mut r, jobs, |r, a| {
        let a = *a;
        for b in 0..pairs.len() {
            if a == b {
                continue;
            }
            both(r, "foreign", &refs[a].pk, &refs[b].proof, &pairs[a].1, true);
            for mask in 1..7u32 {
                let mut p = refs[a].proof;
                for (i, rg) in [0..32usize, 32..48, 48..80].into_iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        p[rg.clone()].copy_from_slice(&refs[b].proof[rg]);
                    }
                }
                both(r, "component-swap", &refs[a].pk, &p, &pairs[a].1, true);
            }
        }
    });

    // 4. boundary encodings in every position
    let sp = specials();
    r.space("boundary encodings", sp.len());
    let (s0, m0) = ([0u8; 32], vec![0xc3u8; 32]);
    let w = ref_prove(&s0, &m0);
    let jobs: Vec<usize> = (0..sp.len()).collect();
    parallel(&mut r, jobs, |r, i| {
        let x = sp[*i];
        both(r, "boundary", &x, &w.proof, &m0, false);
        for (j, y) in sp.iter().enumerate() {
            let mut p = w.proof;
            p[..32].copy_from_slice(&x);
            if j == 0 {
                both(r, "boundary", &w.pk, &p, &m0, false);
            }
            p[48..].copy_from_slice(y);
            both(r, "boundary", &w.pk, &p, &m0, false);
            for c in [[0u8; 16], [0xff; 16]] {
                let mut p = p;
                p[32..48].copy_from_slice(&c);
                both(r, "boundary", &w.pk, &p, &m0, false);
                both(r, "boundary", y, &p, &m0, false);
            }
        }
        let mut p = w.proof;
        p[48..].copy_from_slice(&x);
        both(r, "boundary", &w.pk, &p, &m0, false);
    });

    // 5. forgeries that need no secret: small-order public keys, with every small-order gamma
    for yt in EIGHT_TORSION.iter() {
        let pk = yt.compress().to_bytes();
        for gt in EIGHT_TORSION.iter() {
            for k in 1..tier(20u64, 200) {
                let k = Scalar::from(k);
                let hp = ref_hash_to_curve(&pk, &m0);
                let mut p = [0u8; 80];
                let c = ref_points(&[hp, *gt, k * B, k * hp]);
                p[..32].copy_from_slice(gt.compress().as_bytes());
                p[32..48].copy_from_slice(&c);
                p[48..].copy_from_slice(k.as_bytes());
                both(&mut r, "small-order-key", &pk, &p, &m0, true);
            }
        }
    }
    r.finish()
}
