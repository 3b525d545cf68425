//! C32: signatures bind signer, object type and content of a transaction.
//!
//! All small assignments of fields for all kinds of transactions are signed with several keys; the
//! record that signing produces, the transaction ID and the bytes that are signed are compared with
//! the definition, and each signature is verified against the same object, every neighbouring
//! object and every other key. All kinds of hashable objects are compared pairwise.

use std::collections::HashMap;

use algorsand::crypto::{
    self, hash_obj, CryptoHash, Hashable, OTSSubkeyBatchID, OTSSubkeyOffsetID, Pair,
};
use algorsand::data::basics::{Address, AppIndex};
use algorsand::data::bookkeeping::TxMerkleElem;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use algorsand::protocol;
use mc::txkit::*;
use mc::*;

fn verifies(pk: &ed25519_dalek::PublicKey, rep: &[u8], sig: &crypto::Signature) -> bool {
    pk.verify_strict(rep, sig).is_ok()
}

/// The hash identifiers, with the names they are known by.
fn hash_ids() -> Vec<(&'static str, &'static str)> {
    use protocol::*;
    vec![
        ("APP_INDEX", APP_INDEX),
        ("AUCTION_BID", AUCTION_BID),
        ("AUCTION_DEPOSIT", AUCTION_DEPOSIT),
        ("AUCTION_OUTCOMES", AUCTION_OUTCOMES),
        ("AUCTION_PARAMS", AUCTION_PARAMS),
        ("AUCTION_SETTLEMENT", AUCTION_SETTLEMENT),
        ("COMPACT_CERT_COIN", COMPACT_CERT_COIN),
        ("COMPACT_CERT_PART", COMPACT_CERT_PART),
        ("COMPACT_CERT_SIG", COMPACT_CERT_SIG),
        ("AGREEMENT_SELECTOR", AGREEMENT_SELECTOR),
        ("BLOCK_HEADER", BLOCK_HEADER),
        ("BALANCE_RECORD", BALANCE_RECORD),
        ("CREDENTIAL", CREDENTIAL),
        ("GENESIS", GENESIS),
        ("MERKLE_ARRAY_NODE", MERKLE_ARRAY_NODE),
        ("MESSAGE", MESSAGE),
        ("NET_PRIO_RESPONSE", NET_PRIO_RESPONSE),
        ("ONE_TIME_SIG_KEY1", ONE_TIME_SIG_KEY1),
        ("ONE_TIME_SIG_KEY2", ONE_TIME_SIG_KEY2),
        ("PAYSET_FLAT", PAYSET_FLAT),
        ("PAYLOAD", PAYLOAD),
        ("PROGRAM", PROGRAM),
        ("PROGRAM_DATA", PROGRAM_DATA),
        ("PROPOSER_SEED", PROPOSER_SEED),
        ("SEED", SEED),
        ("SPECIAL_ADDR", SPECIAL_ADDR),
        ("SIGNED_TX_IN_BLOCK", SIGNED_TX_IN_BLOCK),
        ("TEST_HASHABLE", TEST_HASHABLE),
        ("TX_GROUP", TX_GROUP),
        ("TX_MERKLE_LEAF", TX_MERKLE_LEAF),
        ("TRANSACTION", TRANSACTION),
        ("VOTE", VOTE),
    ]
}

fn prefixes(r: &mut Report) {
    let ids = hash_ids();
    for (i, (na, a)) in ids.iter().enumerate() {
        r.check(
            !a.is_empty(),
            "prefix-empty",
            || na.to_string(),
            || "an empty prefix is a prefix of all others".into(),
        );
        for (j, (nb, b)) in ids.iter().enumerate() {
            r.state();
            r.step();
            if i != j {
                r.check(
                    !b.starts_with(a),
                    "prefix-free",
                    || format!("{} and {}", na, nb),
                    || format!("{:?} is a prefix of {:?}", a, b),
                );
            }
        }
    }
    r.space("hash identifiers", format!("{} pairwise", ids.len()));
}

struct Object {
    kind: &'static str,
    prefix: &'static str,
    rep: Vec<u8>,
    hash: CryptoHash,
    id: &'static str,
    data: Vec<u8>,
}

fn object(kind: &'static str, prefix: &'static str, o: &impl Hashable) -> Object {
    let (id, data) = o.to_be_hashed();
    Object {
        kind,
        prefix,
        rep: o.hash_rep(),
        hash: hash_obj(o),
        id,
        data,
    }
}

/// Objects of every kind that can be hashed or signed, with contents that resemble each other.
fn objects() -> Vec<Object> {
    let mut v = Vec::new();
    for s in &["", "a", "b", "X", "TX", "MX", "MXa", "TXa", "SD", "1", "2a"] {
        v.push(object("message", protocol::MESSAGE, &s.to_string()));
    }
    for n in 0..3u8 {
        v.push(object("seed", protocol::SEED, &Seed([n; 32])));
        v.push(object(
            "message",
            protocol::MESSAGE,
            &String::from_utf8(vec![n; 32]).unwrap(),
        ));
        v.push(object(
            "message",
            protocol::MESSAGE,
            &String::from_utf8(vec![n; 64]).unwrap(),
        ));
        v.push(object(
            "message",
            protocol::MESSAGE,
            &String::from_utf8(vec![0, 0, 0, 0, 0, 0, 0, n]).unwrap(),
        ));
        v.push(object(
            "application",
            protocol::APP_INDEX,
            &AppIndex(n as u64),
        ));
        v.push(object(
            "batch key",
            protocol::ONE_TIME_SIG_KEY1,
            &OTSSubkeyBatchID {
                sub_key_pk: keypair(1).public,
                batch: n as u64,
            },
        ));
        v.push(object(
            "batch key",
            protocol::ONE_TIME_SIG_KEY1,
            &OTSSubkeyBatchID {
                sub_key_pk: keypair(2).public,
                batch: n as u64,
            },
        ));
        for m in 0..3u8 {
            v.push(object(
                "array node",
                protocol::MERKLE_ARRAY_NODE,
                &Pair {
                    l: CryptoHash([n; 32]),
                    r: CryptoHash([m; 32]),
                },
            ));
            v.push(object(
                "offset key",
                protocol::ONE_TIME_SIG_KEY2,
                &OTSSubkeyOffsetID {
                    sub_key_pk: keypair(1).public,
                    batch: n as u64,
                    offset: m as u64,
                },
            ));
        }
    }
    v.push(object(
        "offset key",
        protocol::ONE_TIME_SIG_KEY2,
        &OTSSubkeyOffsetID {
            sub_key_pk: keypair(2).public,
            batch: 0,
            offset: 0,
        },
    ));
    for kind in &KINDS {
        let t = blank(kind);
        v.push(object("transaction", protocol::TRANSACTION, &t));
        let mut signed = stx(t.clone());
        v.push(object(
            "transaction in block",
            protocol::SIGNED_TX_IN_BLOCK,
            &stib(signed.clone()),
        ));
        v.push(object(
            "payset",
            protocol::PAYSET_FLAT,
            &Payset(vec![stib(signed.clone())]),
        ));
        v.push(object(
            "payset",
            protocol::PAYSET_FLAT,
            &Payset(vec![stib(signed.clone()), stib(signed.clone())]),
        ));
        v.push(object(
            "merkle leaf",
            protocol::TX_MERKLE_LEAF,
            &TxMerkleElem {
                tx: t.clone(),
                stib: stib(signed.clone()),
            },
        ));
        signed.sig = sig(3);
        v.push(object(
            "merkle leaf",
            protocol::TX_MERKLE_LEAF,
            &TxMerkleElem {
                tx: t.clone(),
                stib: stib(signed.clone()),
            },
        ));
        v.push(object(
            "transaction in block",
            protocol::SIGNED_TX_IN_BLOCK,
            &stib(signed),
        ));
    }
    v.push(object("payset", protocol::PAYSET_FLAT, &Payset(vec![])));
    let slots = block_header_slots();
    for a in assignments(&slots, 1, 0, 0) {
        let mut h = Default::default();
        apply(&slots, &a, &mut h);
        v.push(object("block header", protocol::BLOCK_HEADER, &h));
    }
    v
}

fn kinds(r: &mut Report) {
    let objs = objects();
    let kps: Vec<_> = (1..=2u8).map(keypair).collect();
    let mut by_rep: HashMap<Vec<u8>, usize> = HashMap::new();
    let mut by_hash: HashMap<Vec<u8>, usize> = HashMap::new();
    for (i, o) in objs.iter().enumerate() {
        let case = || {
            format!(
                "{} with {} bytes of content {}",
                o.kind,
                o.data.len(),
                hex(&o.data[..o.data.len().min(40)])
            )
        };
        r.state();
        r.step();
        r.trace();
        r.check_eq(&o.id, &o.prefix, "object-type", case);
        let want: Vec<u8> = [o.prefix.as_bytes(), &o.data].concat();
        r.check_eq(&o.rep, &want, "signed-bytes", case);
        r.check_eq(
            &o.hash.0.to_vec(),
            &model::sha(&want).to_vec(),
            "object-hash",
            case,
        );
        // Exactly one hash identifier starts what is hashed.
        let n = hash_ids()
            .iter()
            .filter(|(_, p)| o.rep.starts_with(p.as_bytes()))
            .count();
        r.check_eq(&n, &1, "object-type-ambiguous", case);
        for (map, key, name) in [
            (&mut by_rep, o.rep.clone(), "signed-bytes-coincide"),
            (&mut by_hash, o.hash.0.to_vec(), "hashes-coincide"),
        ] {
            if let Some(&j) = map.get(&key) {
                let p = &objs[j];
                // The same text can be listed twice; anything else may not coincide.
                r.check(p.kind == o.kind && p.data == o.data, name, case, || {
                    format!(
                        "the same as {} {}",
                        p.kind,
                        hex(&p.data[..p.data.len().min(40)])
                    )
                });
            } else {
                map.insert(key, i);
            }
        }
    }
    r.space("objects", objs.len());
    // Every signature against every object and both keys.
    let jobs: Vec<usize> = (0..objs.len()).collect();
    parallel(r, jobs, |r, &i| {
        let o = &objs[i];
        for (k, kp) in kps.iter().enumerate() {
            use ed25519_dalek::Signer;
            let s = kp.sign(&o.rep);
            r.check_eq(
                &kp.sign(&o.rep).to_bytes().to_vec(),
                &s.to_bytes().to_vec(),
                "signature-deterministic",
                || o.kind.into(),
            );
            for (j, p) in objs.iter().enumerate() {
                if j % 7 != i % 7 && i != j && !thorough() {
                    continue;
                }
                for (l, lp) in kps.iter().enumerate() {
                    r.step();
                    let want = k == l && o.kind == p.kind && o.data == p.data;
                    let got = verifies(&lp.public, &p.rep, &s);
                    r.check_eq(&got, &want, "signature-binding", || {
                        format!(
                            "{} signed with key {}, checked for {} and key {}",
                            o.kind, k, p.kind, l
                        )
                    });
                }
            }
        }
    });
}

fn transactions(r: &mut Report) {
    let mut ids: HashMap<[u8; 32], String> = HashMap::new();
    let mut total = 0;
    for kind in &KINDS {
        let slots = tx_slots(kind);
        let list = assignments(&slots, tier(2, 3), tier(2, 3), tier(2, 3));
        total += list.len();
        for a in &list {
            let mut t = blank(kind);
            apply(&slots, a, &mut t);
            let what = format!("{} {}", kind, describe(&slots, a));
            r.state();
            r.step();
            let id = t.id().0;
            // The definition, by way of what the transaction says of itself.
            let want: Vec<u8> = [b"TX".to_vec(), protocol::encode(&t)].concat();
            r.check_eq(
                &id.0.to_vec(),
                &model::sha(&want).to_vec(),
                "transaction-id",
                || what.clone(),
            );
            r.check(
                t.clone().id().0 == id && t.id().0 == id,
                "transaction-id-deterministic",
                || what.clone(),
                || "differs between calls".into(),
            );
            if let Some(other) = ids.insert(id.0, what.clone()) {
                r.violation("transaction-ids-coincide", what.clone(), other);
            }
            match protocol::decode::<Transaction>(&protocol::encode(&t)) {
                Ok(d) => {
                    r.check(
                        d.id().0 == id,
                        "transaction-id-decoded",
                        || what.clone(),
                        || "differs after decoding".into(),
                    );
                }
                Err(e) => r.violation("transaction-decode", what.clone(), e.to_string()),
            }
        }
    }
    for (what, t, _) in KINDS.iter().flat_map(|k| twins(k)) {
        let t = t.tx;
        r.state();
        r.step();
        let id = t.id().0;
        let want: Vec<u8> = [b"TX".to_vec(), protocol::encode(&t)].concat();
        r.check_eq(
            &id.0.to_vec(),
            &model::sha(&want).to_vec(),
            "transaction-id",
            || what.clone(),
        );
        let d = protocol::decode::<Transaction>(&protocol::encode(&t));
        r.check(
            d.map_or(false, |d| d.id().0 == id && d == t),
            "transaction-id-decoded",
            || what.clone(),
            || "differs after decoding".into(),
        );
        total += 1;
    }
    r.space("transactions", total);

    // Signers whose address stands in the transaction, in every place.
    for kind in &KINDS {
        let places = same_typed_places(kind);
        for k in 1..=2u8 {
            let kp = keypair(k);
            let signer = Address(kp.public.to_bytes());
            for p in places.iter().filter(|p| p.class == 'a' || p.class == 'b') {
                for sender in [addr(1), signer, addr(0)] {
                    for full in [false, true] {
                        let mut s = stx(blank(kind));
                        let mut ad = ApplyData::default();
                        if full {
                            places
                                .iter()
                                .enumerate()
                                .for_each(|(i, p)| (p.put)(&mut s, &mut ad, i as u8 + 10));
                        }
                        // that place gets the signer's address in place of a stand-in
                        (p.put)(&mut s, &mut ad, 250);
                        s.tx.header.sender = if p.name == "sender" {
                            addr(250)
                        } else {
                            sender
                        };
                        let mut v = mc::msgpack::read(&protocol::encode(&s.tx)).expect("encoding");
                        for q in v.paths() {
                            if v.at(&q).as_bytes().map_or(false, |b| b == addr(250).0) {
                                let raw = signer.0.to_vec();
                                let is_list = matches!(v.at(&q), mc::msgpack::V::Arr(_));
                                *v.at_mut(&q) = if is_list {
                                    mc::msgpack::V::Arr(
                                        raw.iter().map(|x| mc::msgpack::V::U(*x as u64)).collect(),
                                    )
                                } else {
                                    mc::msgpack::V::Bin(raw)
                                };
                                break;
                            }
                        }
                        let t: Transaction = match protocol::decode(&mc::msgpack::bytes(&v)) {
                            Ok(t) => t,
                            Err(_) => continue,
                        };
                        let case = || {
                            format!(
                                "{} signed by key {} whose address is the {}{}",
                                kind,
                                k,
                                p.name,
                                if full { ", everything else set" } else { "" }
                            )
                        };
                        r.state();
                        r.step();
                        let Some(s) = r.no_panic(guard(|| t.sign(&kp)), "sign-panic", case) else {
                            continue;
                        };
                        let want = if signer == t.header.sender {
                            Address([0; 32])
                        } else {
                            signer
                        };
                        r.check(
                            s.auth_addr == want && s.authorizer() == signer,
                            "authorising-address",
                            case,
                            || format!("{:?} instead of {:?}", s.auth_addr.0, want.0),
                        );
                        r.check(
                            s.tx == t && s.msig.is_none() && s.lsig.is_none(),
                            "transaction-changed",
                            case,
                            || "by signing".into(),
                        );
                        r.check(
                            verifies(&kp.public, &t.hash_rep(), &s.sig),
                            "signature-valid",
                            case,
                            || "does not verify".into(),
                        );
                        let back = protocol::decode::<SignedTx>(&protocol::encode(&s));
                        r.check(
                            back.map_or(false, |b| b == s),
                            "signed-decode",
                            case,
                            || "the signed transaction decodes to another".into(),
                        );
                        r.trace();
                    }
                }
            }
        }
    }

    // Signing, for every single-field change, by the sender and by others.
    let jobs: Vec<&str> = KINDS.to_vec();
    let kps: Vec<_> = (1..=3u8).map(keypair).collect();
    parallel(r, jobs, |r, kind| {
        let slots = tx_slots(kind);
        let list = assignments(&slots, tier(1, 2), tier(1, 2), 1);
        let txs: Vec<(String, Transaction)> = list
            .iter()
            .map(|a| {
                let mut t = blank(kind);
                apply(&slots, a, &mut t);
                (describe(&slots, a), t)
            })
            .collect();
        for (i, (what, base)) in txs.iter().enumerate() {
            // The sender: the listed one, or the address of one of the keys.
            for sender in 0..4usize {
                let mut t = base.clone();
                if sender > 0 {
                    t.header.sender = Address(kps[sender - 1].public.to_bytes());
                }
                let before = protocol::encode(&t);
                for (k, kp) in kps.iter().enumerate() {
                    let signer = Address(kp.public.to_bytes());
                    let case = || {
                        format!(
                            "{} {} sender {} signer {}",
                            kind,
                            what,
                            if sender > 0 {
                                format!("key {}", sender - 1)
                            } else {
                                "as listed".into()
                            },
                            k
                        )
                    };
                    r.step();
                    r.state();
                    let s = match r.no_panic(guard(|| t.sign(kp)), "sign-panic", case) {
                        Some(s) => s,
                        None => continue,
                    };
                    r.trace();
                    r.check(
                        s.tx == t
                            && protocol::encode(&s.tx) == before
                            && protocol::encode(&t) == before,
                        "transaction-changed",
                        case,
                        || "by signing".into(),
                    );
                    r.check(s.id().0 == t.id().0, "transaction-id-signed", case, || {
                        "differs from the unsigned transaction's".into()
                    });
                    r.check(
                        s.msig.is_none() && s.lsig.is_none(),
                        "other-signatures",
                        case,
                        || "present".into(),
                    );
                    let want_auth = if signer == t.header.sender {
                        Address([0; 32])
                    } else {
                        signer
                    };
                    r.check(
                        s.auth_addr == want_auth,
                        "authorising-address",
                        case,
                        || format!("{:?} instead of {:?}", s.auth_addr.0, want_auth.0),
                    );
                    r.check(s.authorizer() == signer, "authoriser", case, || {
                        format!("{:?}", s.authorizer().0)
                    });
                    r.outcome(if signer == t.header.sender {
                        "signed by the sender"
                    } else {
                        "signed by another key"
                    });
                    let rep = t.hash_rep();
                    r.check(
                        verifies(&kp.public, &rep, &s.sig),
                        "signature-valid",
                        case,
                        || "does not verify".into(),
                    );
                    r.check(
                        t.sign(kp).sig == s.sig,
                        "signature-deterministic",
                        case,
                        || "differs between calls".into(),
                    );
                    r.check(
                        s.get_encoded_length() == protocol::encode(&s).len(),
                        "encoded-length",
                        case,
                        || s.get_encoded_length().to_string(),
                    );
                    if k > 0 && !thorough() {
                        continue;
                    }
                    for (l, lp) in kps.iter().enumerate() {
                        if l != k {
                            r.check(
                                !verifies(&lp.public, &rep, &s.sig),
                                "signature-other-key",
                                case,
                                || format!("verifies for key {}", l),
                            );
                        }
                    }
                    if sender != 0 {
                        continue;
                    }
                    // Against every other small transaction of the kind, and the same fields with another sender.
                    for (j, (other, u)) in txs.iter().enumerate() {
                        if i == j || (thorough() && j % 5 != i % 5) {
                            continue;
                        }
                        r.step();
                        r.check(
                            !verifies(&kp.public, &u.hash_rep(), &s.sig),
                            "signature-other-transaction",
                            case,
                            || format!("verifies for {}", other),
                        );
                    }
                    let mut u = t.clone();
                    u.header.sender = Address([99; 32]);
                    r.check(
                        !verifies(&kp.public, &u.hash_rep(), &s.sig),
                        "signature-other-transaction",
                        case,
                        || "verifies for another sender".into(),
                    );
                    // Nor for the content without its type, or under another type.
                    r.check(
                        !verifies(&kp.public, &before, &s.sig),
                        "signature-untyped",
                        case,
                        || "verifies without the type".into(),
                    );
                    r.check(
                        !verifies(
                            &kp.public,
                            &[b"MX".to_vec(), before.clone()].concat(),
                            &s.sig,
                        ),
                        "signature-untyped",
                        case,
                        || "verifies as a message".into(),
                    );
                }
            }
        }
    });
}

fn main() {
    let mut r = Report::new("C32");
    r.assume("ed25519 signatures are unforgeable, SHA-512/256 is free of collisions; signatures are verified with ed25519-dalek's strict verification");
    prefixes(&mut r);
    kinds(&mut r);
    transactions(&mut r);
    r.finish()
}
