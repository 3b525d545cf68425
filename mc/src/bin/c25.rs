//@ hooks
//! C25: credentials are accepted only for the selected key, stake and selector.
//!
//! Every credential of a grid of keys, addresses, selectors, stakes, totals and committee sizes,
//! verified as made and under every other key, address, selector and stake of the grid, and with
//! its proof altered. The oracle computes what is hashed, the weight and the lowest output itself
//! (VRF verification is C10's, sortition C24's subject).

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::vrf::verif_hook as vh;
use algorsand::crypto::{CryptoHash, Hashable, VrfKeypair, VrfOutput};
use algorsand::data::basics::{AccountData, Address, MicroAlgos, Status};
use algorsand::data::committee::credential::verif_hook::{prove, verify, Cred};
use algorsand::data::committee::credential::Error;
use algorsand::data::committee::sortition::select;
use algorsand::data::committee::{BalanceRecord, Selector};
use algorsand::protocol::{self, ConsensusVersion};
use mc::model::sha;
use mc::txkit::addr;
use mc::*;
use serde::Serialize;
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Debug, Serialize)]
struct Sel {
    seed: [u8; 32],
    round: u64,
    period: u64,
    step: u64,
    #[serde(skip)]
    size: u64,
}

impl Hashable for Sel {
    fn to_be_hashed(&self) -> (protocol::HashID, Vec<u8>) {
        (protocol::AGREEMENT_SELECTOR, protocol::encode(self))
    }
}

impl Selector for Sel {
    fn committee_size(&self, _: &ConsensusParams) -> u64 {
        self.size
    }
}

/// What is hashed for a credential.
#[derive(Serialize)]
struct Hashed {
    raw_out: VrfOutput,
    member: Address,
    iter: u64,
}

fn hash_iter(out: &VrfOutput, member: Address, iter: u64) -> [u8; 32] {
    let mut b = b"CR".to_vec();
    b.extend(protocol::encode(&Hashed {
        raw_out: out.clone(),
        member,
        iter,
    }));
    sha(&b)
}

/// The hash that decides the weight.
fn weight_hash(out: &VrfOutput, member: Address, domain_sep: bool) -> [u8; 32] {
    if domain_sep {
        hash_iter(out, member, 0)
    } else {
        sha(&[&out.0[..], &member.0[..]].concat())
    }
}

fn lowest(out: &VrfOutput, member: Address, domain_sep: bool, weight: u64) -> [u8; 32] {
    (1..=weight)
        .map(|i| {
            if domain_sep {
                hash_iter(out, member, i)
            } else {
                let mut b = weight_hash(out, member, false).to_vec();
                b.extend(&i.to_be_bytes());
                b.extend(&[0; 24]);
                sha(&b)
            }
        })
        .min()
        .unwrap()
}

fn account(key: &VrfKeypair, stake: u64, status: Status) -> AccountData {
    let mut a = AccountData::default();
    a.selection_id = key.public();
    a.micro_algos = MicroAlgos(stake);
    a.status = status;
    // none of this matters
    a.rewarded_micro_algos = MicroAlgos(3);
    a.rewards_base = 5;
    a
}

fn key(n: u8) -> VrfKeypair {
    VrfKeypair::from_seed([n; 32])
}

struct Grid {
    protos: Vec<(bool, ConsensusParams)>,
    sels: Vec<Sel>,
    members: Vec<Address>,
    stakes: Vec<(u64, u64)>,
}

fn grid() -> Grid {
    let base = Sel {
        seed: [7; 32],
        round: 100,
        period: 0,
        step: 1,
        size: 20,
    };
    let mut sels = vec![base.clone()];
    let mut other = |f: &dyn Fn(&mut Sel)| {
        let mut s = base.clone();
        f(&mut s);
        sels.push(s);
    };
    other(&|s| s.seed[0] ^= 0x80);
    other(&|s| s.seed[31] ^= 1);
    other(&|s| s.seed = [0; 32]);
    other(&|s| s.round = 101);
    other(&|s| s.round = 99);
    other(&|s| s.round = u64::MAX);
    other(&|s| s.period = 1);
    other(&|s| s.step = 0);
    other(&|s| s.step = 2);
    // moves between neighbouring fields
    other(&|s| {
        s.round = 0;
        s.period = 100;
    });
    other(&|s| {
        s.period = 1;
        s.step = 0;
    });
    if thorough() {
        for i in 1..31 {
            other(&|s| s.seed[i] ^= 1 << (i % 8));
        }
        for i in 0..64 {
            other(&|s| s.round ^= 1 << i);
            other(&|s| s.period ^= 1 << i);
            other(&|s| s.step ^= 1 << i);
        }
    }
    let with = |v: &ConsensusVersion| CONSENSUS.0[v].clone();
    let mut off = with(&ConsensusVersion::V30);
    off.credential_domain_separation_enabled = false;
    let mut protos = vec![(true, with(&ConsensusVersion::V30)), (false, off)];
    for v in txkit::versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            if thorough() || v == ConsensusVersion::V7 || v == ConsensusVersion::V16 {
                protos.push((p.credential_domain_separation_enabled, p.clone()));
            }
        }
    }
    Grid {
        protos,
        sels,
        members: vec![addr(0), addr(1), addr(2), Address([0xff; 32])],
        stakes: vec![
            (0, 100),
            (1, 1),
            (1, 20),
            (1, 1000),
            (5, 21),
            (19, 40),
            (20, 20),
            (40, 40),
            (50, 1000),
            (1000, 1000),
            (1600, 6000),
            (6000, 6000),
            (10_000_000, 1_000_000_000),
            (5_000_000_000_000_000, 10_000_000_000_000_000),
        ],
    }
}

/// One verification against the oracle. Returns the credential with its vrf output if accepted.
#[allow(clippy::too_many_arguments)]
fn check_one(
    r: &mut Report,
    g: &Grid,
    p: usize,
    proof: &algorsand::crypto::VrfProof,
    good_out: Option<&VrfOutput>,
    k: u8,
    member: Address,
    sel: &Sel,
    stake: (u64, u64),
    status: Status,
    case: &str,
) -> Option<Cred> {
    r.state();
    r.step();
    let (ds, proto) = &g.protos[p];
    let online = matches!(status, Status::Online);
    let record = BalanceRecord {
        addr: member,
        data: account(&key(k), stake.0, status),
    };
    let case = || {
        format!(
            "{} proto {} member {} stake {:?} online {} size {}",
            case,
            p,
            hex(&member.0[..2]),
            stake,
            online,
            sel.size
        )
    };
    let got = guard(|| {
        verify(
            proof.clone(),
            proto,
            record,
            sel.clone(),
            MicroAlgos(stake.1),
        )
    });
    let got = r.no_panic(got, "panic", case)?;
    let money = if online { stake.0 } else { 0 };
    let (want, h) = match good_out {
        None => (None, [0; 32]),
        Some(out) => {
            let h = weight_hash(out, member, *ds);
            (
                Some(if money == 0 {
                    0
                } else {
                    select(money, stake.1, sel.size as f64, &CryptoHash(h))
                }),
                h,
            )
        }
    };
    match (got, want) {
        (Err(Error::VrfVerifyFailed(_)), None) => {
            r.outcome("refused: proof");
            None
        }
        (Err(Error::ZeroWeight), Some(0)) => {
            r.outcome("refused: not selected");
            None
        }
        (Ok(mut c), Some(w)) if w > 0 => {
            r.check_eq(&c.weight(), &w, "weight", case);
            r.check(c.selected(), "selected", case, || {
                "accepted but not selected".into()
            });
            r.check(c.vrf_out().0 == h, "output", case, || {
                format!("{} instead of {}", hex(&c.vrf_out().0), hex(&h))
            });
            r.check(w <= money, "above-stake", case, || format!("{}", w));
            // the largest ones once
            if w <= 1000 || (sel.size == 5000 && member == g.members[1]) {
                let want = lowest(good_out.unwrap(), member, *ds, w);
                // twice: asking does not change the answer
                for _ in 0..2 {
                    r.step();
                    let low = guard(|| c.lowest_output_digest().0);
                    r.check(low == Ok(want), "lowest-output", case, || {
                        format!(
                            "{:?} instead of {}",
                            low.clone().map(|l| hex(&l)),
                            hex(&want)
                        )
                    });
                }
            }
            r.outcome(match w {
                1 => "selected once",
                _ if w == money => "selected with everything",
                _ => "selected several times",
            });
            Some(c)
        }
        (got, want) => {
            r.violation(
                "verdict",
                case(),
                format!(
                    "{} but should be {:?}",
                    got.map_or_else(
                        |e| format!("refused: {}", e),
                        |c| format!("accepted with weight {}", c.weight())
                    ),
                    want
                ),
            );
            None
        }
    }
}

fn main() {
    let mut r = Report::new("C25");
    let g = grid();
    let keys: Vec<u8> = vec![1, 2, 3];
    r.space(
        "grid",
        format!(
            "{} keys, {} selectors, {} members, {} stakes, {} parameter sets",
            keys.len(),
            g.sels.len(),
            g.members.len(),
            g.stakes.len(),
            g.protos.len()
        ),
    );
    r.assume("the total money is at least the member's stake and at least the positive committee size (the code asserts it)");

    // as made: all stakes, sizes, members, parameters; then with altered proofs
    let jobs: Vec<(u8, usize)> = keys
        .iter()
        .flat_map(|&k| (0..g.sels.len().min(12)).map(move |s| (k, s)))
        .collect();
    parallel(&mut r, jobs.clone(), |r, &(k, s)| {
        let sel = &g.sels[s];
        let proof = prove(&key(k), sel);
        let out = match key(k).public().verify(&proof, sel) {
            Ok(o) => o,
            Err(_) => {
                r.violation(
                    "own-proof",
                    format!("key {} selector {}", k, s),
                    "the VRF refuses the credential's proof",
                );
                return;
            }
        };
        let mut creds = vec![];
        for p in 0..g.protos.len() {
            for m in &g.members {
                for st in &g.stakes {
                    for size in [1, 2, 20, 1000, 5000] {
                        if size > st.1 || (size == 5000 && st.1 != 6000) {
                            continue;
                        }
                        let mut sel = sel.clone();
                        sel.size = size;
                        if let Some(c) = check_one(
                            r,
                            &g,
                            p,
                            &proof,
                            Some(&out),
                            k,
                            *m,
                            &sel,
                            *st,
                            Status::Online,
                            &format!("key {} selector {}", k, s),
                        ) {
                            if c.weight() <= 50 && creds.len() < 60 {
                                let low = lowest(&out, *m, g.protos[p].0, c.weight());
                                creds.push((c, low));
                            }
                        }
                    }
                }
                for status in [Status::Offline, Status::NotParticipating] {
                    check_one(
                        r,
                        &g,
                        p,
                        &proof,
                        Some(&out),
                        k,
                        *m,
                        sel,
                        (1000, 1000),
                        status,
                        &format!("key {} selector {}", k, s),
                    );
                }
            }
        }
        // the order among all of them
        for i in 0..creds.len() {
            for j in 0..creds.len() {
                if i == j {
                    continue;
                }
                r.step();
                let (a, b) = if i < j {
                    let (x, y) = creds.split_at_mut(j);
                    (&mut x[i], &mut y[0])
                } else {
                    let (x, y) = creds.split_at_mut(i);
                    (&mut y[0], &mut x[j])
                };
                let want = a.1.cmp(&b.1) == Ordering::Less;
                let got = guard(|| a.0.lt(&mut b.0));
                r.check(
                    got == Ok(want),
                    "order",
                    || format!("key {} selector {}: credentials {} and {}", k, s, i, j),
                    || format!("{:?} for {} and {}", got, hex(&a.1), hex(&b.1)),
                );
                let same = a.0.vrf_out().0 == b.0.vrf_out().0;
                r.check(
                    a.0.equals(&b.0) == same,
                    "equality",
                    || format!("key {} selector {}: credentials {} and {}", k, s, i, j),
                    || "equality is not that of the outputs".into(),
                );
            }
        }
        r.trace();
        // altered proofs: every bit
        let bytes = proof.as_ref().to_vec();
        for bit in 0..640 {
            if !thorough() && bit % 3 != (k as usize) % 3 {
                continue;
            }
            let mut b = [0; 80];
            b.copy_from_slice(&bytes);
            b[bit / 8] ^= 1 << (bit % 8);
            check_one(
                r,
                &g,
                0,
                &vh::proof(b),
                None,
                k,
                g.members[1],
                sel,
                (1000, 1000),
                Status::Online,
                &format!("key {} selector {} proof bit {}", k, s, bit),
            );
        }
    });
    // made for one key and selector, presented for another
    let n = g.sels.len();
    let pairs: Vec<(u8, usize)> = keys
        .iter()
        .flat_map(|&k| (0..n).map(move |s| (k, s)))
        .collect();
    parallel(&mut r, pairs, |r, &(k, s)| {
        let proof = prove(&key(k), &g.sels[s]);
        for &k2 in &keys {
            for s2 in 0..n {
                // with many selectors only against the base one
                if n > 20 && s != 0 && s2 != 0 && s != s2 {
                    continue;
                }
                let same = k2 == k && {
                    let (a, b) = (&g.sels[s], &g.sels[s2]);
                    (a.seed, a.round, a.period, a.step) == (b.seed, b.round, b.period, b.step)
                };
                let out = key(k2).public().verify(&proof, &g.sels[s2]).ok();
                r.check(
                    out.is_some() == same,
                    "vrf",
                    || format!("key {} selector {} for key {} selector {}", k, s, k2, s2),
                    || "the VRF does not tell them apart".into(),
                );
                for p in [0, 1] {
                    check_one(
                        r,
                        &g,
                        p,
                        &proof,
                        if same { out.as_ref() } else { None },
                        k2,
                        g.members[1],
                        &g.sels[s2],
                        (1000, 1000),
                        Status::Online,
                        &format!(
                            "key {} selector {} presented for key {} selector {}",
                            k, s, k2, s2
                        ),
                    );
                }
            }
        }
        r.trace();
    });
    // keys for which anybody can make proofs
    for b in [
        [0u8; 32],
        {
            let mut x = [0; 32];
            x[0] = 1;
            x
        },
        [0xff; 32],
    ] {
        r.state();
        r.step();
        let mut data = account(&key(1), 1000, Status::Online);
        data.selection_id = vh::public_key(b);
        let sel = &g.sels[0];
        let rec = BalanceRecord {
            addr: addr(1),
            data,
        };
        let proof = vh::proof({
            let mut x = [0; 80];
            x[..32].copy_from_slice(&b);
            x
        });
        let got =
            guard(|| verify(proof, &g.protos[0].1, rec, sel.clone(), MicroAlgos(1000)).is_ok());
        r.check(
            got == Ok(false),
            "no-key",
            || hex(&b),
            || format!("{:?}", got),
        );
    }
    r.finish()
}
