//! Every kind of object that is written to and read from bytes, with encodings of filled ones.

use algorsand::crypto::{self, *};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use algorsand::protocol;

use crate::msgpack::{self as mp, V};
use crate::txkit::*;

pub type Decoder = Box<dyn Fn(&[u8]) -> Result<Vec<u8>, String> + Send + Sync>;

pub struct Type {
    pub name: String,
    /// decodes, and encodes what it got
    pub redo: Decoder,
    pub samples: Vec<Vec<u8>>,
    /// deep: also pairs of changes
    pub small: bool,
}

pub fn redo<T: serde::Serialize + for<'a> serde::Deserialize<'a>>() -> Decoder {
    Box::new(|b| {
        protocol::decode::<T>(b)
            .map(|x| protocol::encode(&x))
            .map_err(|e| e.to_string())
    })
}

fn ty<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(name: &str, samples: Vec<T>) -> Type {
    Type {
        name: name.into(),
        redo: redo::<T>(),
        samples: samples.iter().map(|x| protocol::encode(x)).collect(),
        small: false,
    }
}

fn with<T>(slots: Vec<Slot<T>>, blank: impl Fn() -> T) -> Vec<T> {
    // nothing set, everything set to its first value, everything set to its last one
    [0u8, 1, 255]
        .iter()
        .map(|x| {
            let mut t = blank();
            let a: Vec<u8> = slots.iter().map(|s| (*x).min(s.set.len() as u8)).collect();
            apply(&slots, &a, &mut t);
            t
        })
        .collect()
}

/// The same structure with keys and signatures that do not depend on chance.
fn fixed(s: &[u8]) -> Vec<u8> {
    let mut v = mp::read(s).expect("sample");
    for p in v.paths() {
        if matches!(v.at(&p), V::U(_)) {
            continue;
        }
        let Some(old) = v.at(&p).as_bytes() else {
            continue;
        };
        let k = keypair(1 + (p.iter().sum::<usize>() % 4) as u8);
        let name = p.split_last().map(|(last, up)| match v.at(up) {
            V::Map(m) => m[*last].0.clone(),
            _ => V::Nil,
        });
        let new = match (old.len(), name == Some(V::Str(b"kp".to_vec()))) {
            (64, true) => k.to_bytes().to_vec(),
            (64, false) => sig(2).to_bytes().to_vec(),
            (32, _) => k.public.to_bytes().to_vec(),
            _ => continue,
        };
        let x = v.at_mut(&p);
        *x = match x {
            V::Arr(_) => V::Arr(new.iter().map(|b| V::U(*b as u64)).collect()),
            _ => V::Bin(new),
        };
    }
    mp::bytes(&v)
}

pub fn types() -> Vec<Type> {
    let mut v = Vec::new();
    for kind in KINDS {
        v.push(ty(
            &format!("transaction {}", kind),
            with(tx_slots(kind), || blank(kind)),
        ));
    }
    v.push(ty(
        "signed transaction",
        with(stx_slots(), || stx(blank("axfer"))),
    ));
    v.push(ty(
        "in-block transaction",
        with(stib_slots(), || stib(stx(blank("keyreg")))),
    ));
    v.push(ty(
        "payset",
        vec![
            Payset(vec![]),
            Payset(
                with(stib_slots(), || stib(stx(blank("pay"))))
                    .into_iter()
                    .take(2)
                    .collect(),
            ),
        ],
    ));
    v.push(ty(
        "block header",
        with(block_header_slots(), BlockHeader::default),
    ));
    v.push(ty(
        "account data",
        with(account_slots(), AccountData::default),
    ));
    v.push(ty(
        "multisignature",
        vec![MultisigSignature::default(), msig(1), msig(3)],
    ));
    v.push(ty(
        "logic signature",
        vec![
            blank_lsig(),
            LogicSig {
                logic: vec![1, 200],
                sig: sig(1),
                msig: msig(2),
                args: vec![vec![1], vec![], vec![128, 3]],
            },
        ],
    ));
    v.push(ty("apply data", with(ad_slots(), ApplyData::default)));
    v.push(ty(
        "state delta",
        vec![
            state_delta(&[]),
            state_delta(&[
                ("a", "SetUint", &[], 1),
                ("b", "SetBytes", &[1, 255], 0),
                ("c", "Delete", &[], 0),
            ]),
        ],
    ));
    v.push(ty(
        "key/value store",
        vec![
            teal_kv(&[]),
            teal_kv(&[("a", "Uint", &[], 1), ("b", "Bytes", &[1, 255], 0)]),
        ],
    ));
    let mut secrets = OTSSecrets::generate(5, 2);
    let id = OTSIdentifier {
        batch: 6,
        offset: 1,
    };
    let ots = secrets.sign(&id, &blank("pay"));
    let mut t = ty("one-time signature", vec![ots]);
    t.samples.iter_mut().for_each(|s| *s = fixed(s));
    v.push(t);
    v.push(ty(
        "one-time identifier",
        vec![
            OTSIdentifier {
                batch: 0,
                offset: 0,
            },
            id,
            OTSIdentifier {
                batch: u64::MAX,
                offset: 300,
            },
        ],
    ));
    let mut t = ty(
        "one-time secrets",
        vec![OTSSecrets::generate(0, 0), secrets.snapshot(), {
            secrets.delete_before(
                OTSIdentifier {
                    batch: 5,
                    offset: 1,
                },
                3,
            );
            secrets
        }],
    );
    t.samples.iter_mut().for_each(|s| *s = fixed(s));
    v.push(t);
    v.push(ty("VRF public key", vec![vrf_pk(1), vrf_pk(2)]));
    v.push(ty(
        "VRF output",
        vec![
            crypto::VrfOutput([0; 64]),
            crypto::VrfOutput([1; 64]),
            crypto::VrfOutput([255; 64]),
        ],
    ));
    let vrf = VrfKeypair::from_seed([3; 32]);
    v.push(ty("VRF keys", vec![vrf]));
    v.push(ty(
        "seed",
        vec![Seed::default(), Seed([1; 32]), Seed([255; 32])],
    ));
    v.push(ty(
        "state schema",
        vec![
            StateSchema::default(),
            StateSchema {
                num_uint: 1,
                num_byte_slice: u64::MAX,
            },
        ],
    ));
    v.push(ty(
        "digest",
        vec![
            crate::txkit::hash(0),
            crate::txkit::hash(1),
            crate::txkit::hash(255),
        ],
    ));
    v.push(ty("address", vec![addr(0), addr(1), addr(255)]));
    v.push(ty("signature", vec![sig(1)]));
    v.push(ty("public key", vec![keypair(1).public]));
    v.push(ty("consensus version", protocol_versions()));
    for t in v.iter_mut() {
        t.samples.dedup();
        t.small = t
            .samples
            .iter()
            .all(|s| mp::read(s).map(|x| places(&x).len() <= 14).unwrap_or(false));
    }
    let _ = crypto::hash(b"");
    v
}

fn protocol_versions() -> Vec<protocol::ConsensusVersion> {
    versions()
}

/// As `ty`, with every value of every single field as further samples.
fn alone<T: serde::Serialize + for<'a> serde::Deserialize<'a>>(
    name: &str,
    slots: Vec<Slot<T>>,
    blank: impl Fn() -> T,
) -> Type {
    let mut all = vec![];
    for i in 0..slots.len() {
        for x in 1..=slots[i].set.len() as u8 {
            let mut t = blank();
            let mut a = vec![0; slots.len()];
            a[i] = x;
            apply(&slots, &a, &mut t);
            all.push(t);
        }
    }
    all.extend(with(slots, blank));
    ty(name, all)
}

/// The kinds of objects that have many fields, also with one field at a time.
pub fn types_alone() -> Vec<Type> {
    let mut v = types();
    for kind in KINDS {
        v.push(alone(
            &format!("transaction {}", kind),
            tx_slots(kind),
            || blank(kind),
        ));
    }
    v.push(alone("signed transaction", stx_slots(), || {
        stx(blank("axfer"))
    }));
    v.push(alone("in-block transaction", stib_slots(), || {
        stib(stx(blank("keyreg")))
    }));
    v.push(alone(
        "block header",
        block_header_slots(),
        BlockHeader::default,
    ));
    v.push(alone("account data", account_slots(), AccountData::default));
    v.push(alone("apply data", ad_slots(), ApplyData::default));
    v
}

/// What else could stand in the place of one value, in its canonical form, and whether it may be
/// refused there.
pub fn leaf_values(v: &V, deep: bool) -> Vec<(V, bool)> {
    let mut out: Vec<(V, bool)> = vec![];
    let like = |b: Vec<u8>| match v {
        V::Arr(_) => V::Arr(b.iter().map(|x| V::U(*x as u64)).collect()),
        V::Str(_) => V::Str(b),
        _ => V::Bin(b),
    };
    match v {
        V::U(n) => {
            for k in 0..64 {
                for x in [
                    1u64 << k,
                    (1u64 << k) - 1,
                    (1u64 << k) + 1,
                    u64::MAX >> k,
                    (1u64 << k) | 1 << 63,
                    n ^ (1 << k),
                ] {
                    if x > 0 {
                        out.push((V::U(x), x > *n));
                    }
                }
            }
        }
        V::Str(s) => {
            let own = String::from_utf8_lossy(s).to_string();
            for t in crate::near::texts(&own) {
                if !t.is_empty() {
                    out.push((V::Str(t.into_bytes()), false));
                }
            }
            for n in (1..=40).chain([127, 128, 255, 256, 257]).chain(if deep {
                vec![65535, 65536]
            } else {
                vec![]
            }) {
                out.push((V::Str(vec![b'q'; n]), false));
                out.push((V::Str(vec![0; n]), false));
            }
        }
        _ => {
            let Some(b) = v.as_bytes() else { return out };
            let fixed = [32, 64, 80, 96].contains(&b.len());
            if !fixed && matches!(v, V::Arr(_)) {
                return out;
            }
            for i in 0..b.len().min(100) {
                for x in [1u8, 2, 8, 0x80] {
                    let mut one = vec![0; b.len()];
                    one[i] = x;
                    out.push((like(one), false));
                    let mut c = b.clone();
                    c[i] ^= x;
                    out.push((like(c), false));
                }
                let mut half = vec![0u8; b.len()];
                half[..=i].iter_mut().for_each(|x| *x = 9);
                out.push((like(half), false));
                let mut half = vec![0u8; b.len()];
                half[i..].iter_mut().for_each(|x| *x = 9);
                out.push((like(half), false));
            }
            if !fixed {
                for n in (1..=40)
                    .chain([64, 127, 128, 255, 256, 257, 1024])
                    .chain(if deep { vec![65535, 65536] } else { vec![] })
                {
                    out.push((like(vec![0; n]), false));
                    out.push((like((0..n).map(|i| i as u8 | 1).collect()), false));
                }
            }
        }
    }
    out.retain(|(x, _)| x != v && !matches!(x, V::Arr(a) if a.iter().all(|y| *y == V::U(0))));
    out
}

/// The places where things are changed: all of them, except that of a long list of numbers (a digest,
/// a key) only the first, second and last element are taken.
pub fn places(v: &V) -> Vec<Vec<usize>> {
    v.paths()
        .into_iter()
        .filter(|p| match p.split_last() {
            None => true,
            Some((last, up)) => match v.at(up) {
                V::Arr(a) if a.len() >= 16 => *last < 2 || *last + 1 == a.len(),
                _ => true,
            },
        })
        .collect()
}
