//@ hooks
//! C21: a transaction is alive exactly inside its validity window on its own chain.
//!
//! All triples (first valid, last valid, round) over a small range and around the extremes, times
//! all pairs of genesis IDs and of genesis hashes, under every protocol and every combination of
//! the two genesis hash rules.

use std::collections::HashMap;

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::CryptoHash;
use algorsand::data::basics::{MicroAlgos, Round};
use algorsand::data::transactions::transaction::verif_hook::alive;
use algorsand::data::transactions::*;
use algorsand::protocol::ConsensusVersion;
use mc::txkit::*;
use mc::*;

const IDS: [&str; 6] = ["", "A", "B", "AB", "a", "A\0"];

fn ghash(i: usize) -> CryptoHash {
    let mut g = [0u8; 32];
    match i {
        0 => {}
        1 => g[0] = 1,
        2 => g[31] = 1,
        3 => g[31] = 128,
        _ => g = [0xaa; 32],
    }
    CryptoHash(g)
}

fn one(
    r: &mut Report,
    name: &str,
    p: &ConsensusParams,
    h: &Header,
    round: u64,
    cid: &str,
    chash: &CryptoHash,
    desc: &dyn Fn() -> String,
) {
    r.state();
    r.step();
    let case = || {
        format!(
            "{} {} at round {} of chain {:?}/{}",
            name,
            desc(),
            round,
            cid,
            hex(&chash.0[..])
        )
    };
    let got = match r.no_panic(
        guard(|| alive(h, Round(round), p, cid, chash)),
        "panic",
        case,
    ) {
        Some(g) => g,
        None => return,
    };
    let (f, l) = (h.first_valid.0, h.last_valid.0);
    let zero = CryptoHash([0; 32]);
    let mut bad: Vec<InvalidTx> = vec![];
    if round < f || round > l {
        bad.push(InvalidTx::Dead {
            round: Round(round),
            first_valid: Round(f),
            last_valid: Round(l),
        });
    }
    if !h.genesis_id.is_empty() && h.genesis_id != cid {
        bad.push(InvalidTx::GenesisIdMismatch(
            h.genesis_id.clone(),
            cid.to_string(),
        ));
    }
    let given = h.genesis_hash != zero;
    if !p.support_genesis_hash {
        if given {
            bad.push(InvalidTx::GenesisHashNotAllowed);
        }
    } else {
        if given && h.genesis_hash != *chash {
            bad.push(InvalidTx::GenesisHashMismatch(
                h.genesis_hash.clone(),
                chash.clone(),
            ));
        }
        if !given && p.require_genesis_hash {
            bad.push(InvalidTx::GenesisHashMissing);
        }
    }
    match got {
        Ok(()) => {
            r.outcome("alive");
            r.check(bad.is_empty(), "accepts", case, || {
                format!("alive despite {:?}", bad)
            });
        }
        Err(e) => {
            r.outcome(
                format!("{:?}", e)
                    .split(|c| c == '(' || c == ' ')
                    .next()
                    .unwrap_or("-"),
            );
            if r.check(!bad.is_empty(), "refuses", case, || format!("{:?}", e)) {
                r.check(bad.contains(&e), "wrong-reason", case, || {
                    format!("error {:?} but {:?}", e, bad)
                });
            }
        }
    }
    r.trace();
}

fn main() {
    let mut r = Report::new("C21");
    let mut ps: Vec<(String, ConsensusParams)> = vec![];
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            ps.push((format!("{:?}", v), p.clone()));
        }
    }
    for k in 0..4 {
        let mut p = CONSENSUS.0[&ConsensusVersion::V30].clone();
        p.approved_upgrades = HashMap::new();
        p.support_genesis_hash = k & 1 == 1;
        p.require_genesis_hash = k & 2 == 2;
        ps.push((format!("support {} require {}", k & 1, k >> 1), p));
    }
    let n = tier(12, 30);
    let mut rounds: Vec<u64> = (0..n).collect();
    rounds.extend([
        999,
        1000,
        1001,
        1 << 32,
        (1 << 63) - 1,
        1 << 63,
        u64::MAX - 1,
        u64::MAX,
    ]);
    let k = rounds.len();
    r.space(
        "rounds, first and last valid",
        format!("{}^3 x {} protocols", k, ps.len()),
    );
    r.space(
        "genesis IDs and hashes of transaction and chain",
        format!("{}^2 x 5^2 x 4 windows x {} protocols", IDS.len(), ps.len()),
    );
    let jobs: Vec<usize> = (0..ps.len()).collect();
    parallel(&mut r, jobs, |r, &j| {
        let (name, p) = &ps[j];
        product(&[k, k, k], |d| {
            let mut h = Header::default();
            h.first_valid = Round(rounds[d[0]]);
            h.last_valid = Round(rounds[d[1]]);
            if p.support_genesis_hash {
                h.genesis_hash = ghash(1);
            }
            one(r, name, p, &h, rounds[d[2]], "A", &ghash(1), &|| {
                format!("window {}-{}", rounds[d[0]], rounds[d[1]])
            });
        });
        product(&[IDS.len(), IDS.len(), 5, 5, 4], |d| {
            let mut h = Header::default();
            h.genesis_id = IDS[d[0]].into();
            h.genesis_hash = ghash(d[2]);
            h.first_valid = Round(5);
            h.last_valid = Round(6);
            // nothing else of the header matters
            if d[4] % 2 == 1 {
                h.sender = addr(1);
                h.fee = MicroAlgos(u64::MAX);
                h.note = vec![1; 3000];
                h.group = hash(7);
                h.lease = [1; 32];
                h.rekey_to = addr(2);
            }
            one(
                r,
                name,
                p,
                &h,
                4 + d[4] as u64,
                IDS[d[1]],
                &ghash(d[3]),
                &|| format!("id {:?} hash {}", IDS[d[0]], hex(&ghash(d[2]).0[..])),
            );
        });
        // identifiers that a sloppy comparison takes for one another
        for name_of in ["mainnet-v1.0", "A", "Ab"] {
            for other in near::texts(name_of) {
                for (tid, cid) in [(name_of, other.as_str()), (other.as_str(), name_of)] {
                    let mut h = Header::default();
                    h.genesis_id = tid.into();
                    if p.support_genesis_hash {
                        h.genesis_hash = ghash(1);
                    }
                    h.last_valid = Round(9);
                    one(r, name, p, &h, 5, cid, &ghash(1), &|| {
                        format!("id {:?}", tid)
                    });
                }
            }
        }
        for base in [hash(0), hash(1), hash(0xee)] {
            for other in near::bytes32(base.0) {
                for (th, ch) in [
                    (base.clone(), CryptoHash(other)),
                    (CryptoHash(other), base.clone()),
                ] {
                    let mut h = Header::default();
                    h.genesis_hash = th.clone();
                    h.last_valid = Round(9);
                    one(r, name, p, &h, 5, "A", &ch, &|| {
                        format!("hash {}", hex(&th.0[..]))
                    });
                }
            }
        }
    });
    r.space("near misses", "pairs of genesis IDs and of hashes that differ in a character, a byte, case, white space, order or length");
    r.finish()
}
