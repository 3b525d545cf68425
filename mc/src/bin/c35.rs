//@ hooks
//! C35: a transaction names exactly the accounts it touches, its receiver and its amount.
//!
//! For every kind of transaction, every assignment of addresses (including equal ones, zero, the
//! fee sink and the rewards pool) to all its address fields.

use std::collections::BTreeSet;

use algorsand::data::basics::{Address, MicroAlgos};
use algorsand::data::transactions::transaction::verif_hook::*;
use algorsand::data::transactions::*;
use mc::txkit::*;
use mc::*;

fn main() {
    let mut r = Report::new("C35");
    let who: Vec<Address> = vec![
        addr(0),
        addr(1),
        addr(2),
        addr(250),
        addr(251),
        Address([0xff; 32]),
        {
            let mut a = [0; 32];
            a[31] = 1;
            Address(a)
        },
    ];
    let k = who.len();
    let spec = SpecialAddresses {
        fee_sink: addr(250),
        rewards_pool: addr(251),
    };
    let amounts = [0u64, 1, u64::MAX];
    for kind in KINDS {
        product(&[k, k, k + 1, k, 3], |d| {
            let mut t = blank(kind);
            t.header.sender = who[d[0]];
            t.header.rekey_to = who[(d[0] + 1) % k];
            t.header.fee = MicroAlgos(5);
            let amount = amounts[d[4]];
            let mut want: BTreeSet<[u8; 32]> = [t.header.sender.0, spec.fee_sink.0]
                .iter()
                .copied()
                .collect();
            let mut receiver = None;
            let mut algos = 0;
            match &mut t.fields {
                TxFields::Payment(f) => {
                    if d[3] > 0 {
                        return; // no fourth address
                    }
                    f.receiver = who[d[1]];
                    f.amount = MicroAlgos(amount);
                    f.close_remainder_to = if d[2] < k { Some(who[d[2]]) } else { None };
                    want.insert(f.receiver.0);
                    if d[2] < k {
                        want.insert(who[d[2]].0);
                    }
                    receiver = Some(f.receiver);
                    algos = amount;
                }
                TxFields::AssetTransfer(f) => {
                    if d[2] == k {
                        return;
                    }
                    f.asset_receiver = who[d[1]];
                    f.asset_close_to = who[d[2]];
                    f.asset_sender = who[d[3]];
                    f.asset_amount = amount;
                    want.insert(f.asset_receiver.0);
                    for a in [f.asset_close_to, f.asset_sender] {
                        if a.0 != [0; 32] {
                            want.insert(a.0);
                        }
                    }
                    receiver = Some(f.asset_receiver);
                }
                TxFields::AssetFreeze(f) => {
                    if d[2] > 0 || d[3] > 0 || d[4] > 0 {
                        return;
                    }
                    f.freeze_account = who[d[1]];
                }
                TxFields::AppCall(f) => {
                    if d[3] > 0 || d[4] > 0 || d[2] == k {
                        return;
                    }
                    f.accounts = vec![who[d[1]], who[d[2]]];
                }
                _ => {
                    if d[1] > 0 || d[2] > 0 || d[3] > 0 || d[4] > 0 {
                        return;
                    }
                }
            }
            r.state();
            r.steps(4);
            let case = || format!("{} {:?}", kind, d);
            if let Some(got) = r.no_panic(guard(|| relevant_addrs(&t, &spec)), "addrs-panic", case)
            {
                let set: BTreeSet<[u8; 32]> = got.iter().map(|a| a.0).collect();
                r.check_eq(&set, &want, "addrs", case);
                r.outcome(&format!("{} accounts", set.len()));
            }
            for a in &who {
                r.step();
                let m = guard(|| match_address(&t, a, &spec));
                r.check(m == Ok(want.contains(&a.0)), "match", case, || {
                    format!("{:?} for {}", m, hex(&a.0))
                });
            }
            let rc = guard(|| receiver_of(&t));
            r.check(rc == Ok(receiver), "receiver", case, || {
                format!("{:?}", rc.map(|r| r.map(|a| a.to_string())))
            });
            let am = guard(|| tx_amount(&t).0);
            r.check(am == Ok(algos), "amount", case, || {
                format!("{:?} instead of {}", am, algos)
            });
            r.trace();
        });
    }
    // values that occur in several places, or in places that name no party
    let mut n = 0u64;
    for (what, s, _) in KINDS.iter().flat_map(|k| twins(k)) {
        for (sink, pool) in [
            (250, 251),
            (7, 251),
            (250, 7),
            (7, 7),
            (10, 11),
            (0, 251),
            (250, 250),
            (7, 0),
        ] {
            let spec = SpecialAddresses {
                fee_sink: addr(sink),
                rewards_pool: addr(pool),
            };
            let t = &s.tx;
            let mut want: BTreeSet<[u8; 32]> = [t.header.sender.0, spec.fee_sink.0]
                .iter()
                .copied()
                .collect();
            let (mut receiver, mut algos) = (None, 0);
            match &t.fields {
                TxFields::Payment(f) => {
                    want.insert(f.receiver.0);
                    want.extend(f.close_remainder_to.map(|a| a.0));
                    receiver = Some(f.receiver);
                    algos = f.amount.0;
                }
                TxFields::AssetTransfer(f) => {
                    want.insert(f.asset_receiver.0);
                    want.extend(
                        [f.asset_close_to.0, f.asset_sender.0]
                            .iter()
                            .filter(|a| **a != [0; 32]),
                    );
                    receiver = Some(f.asset_receiver);
                }
                _ => {}
            }
            let case = || format!("{}, fee sink {}, rewards pool {}", what, sink, pool);
            n += 1;
            r.state();
            r.steps(4);
            if let Some(got) = r.no_panic(guard(|| relevant_addrs(t, &spec)), "addrs-panic", case) {
                let set: BTreeSet<[u8; 32]> = got.iter().map(|a| a.0).collect();
                r.check_eq(&set, &want, "addrs", case);
            }
            for a in (0..=60).chain([250, 251]).map(addr) {
                let m = guard(|| match_address(t, &a, &spec));
                r.check(m == Ok(want.contains(&a.0)), "match", case, || {
                    format!("{:?} for {}", m, hex(&a.0))
                });
            }
            r.check(
                guard(|| receiver_of(t)) == Ok(receiver),
                "receiver",
                case,
                || "another receiver".into(),
            );
            let am = guard(|| tx_amount(t).0);
            r.check(am == Ok(algos), "amount", case, || {
                format!("{:?} instead of {}", am, algos)
            });
            let auth = if s.auth_addr.0 == [0; 32] {
                t.header.sender
            } else {
                s.auth_addr
            };
            r.check(
                guard(|| s.authorizer()) == Ok(auth),
                "authorizer",
                case,
                || "wrong authorizer".into(),
            );
        }
    }
    r.space(
        "transactions with coinciding values, with coinciding special accounts",
        n,
    );
    // accounts that a sloppy comparison takes for a party of the transaction
    let spec2 = SpecialAddresses {
        fee_sink: hash_addr(0x77),
        rewards_pool: addr(251),
    };
    for kind in KINDS {
        let mut t = blank(kind);
        t.header.sender = hash_addr(0x5a);
        match &mut t.fields {
            TxFields::Payment(f) => {
                f.receiver = hash_addr(0x5b);
                f.close_remainder_to = Some(hash_addr(0x5c));
            }
            TxFields::AssetTransfer(f) => {
                f.asset_receiver = hash_addr(0x5b);
                f.asset_close_to = hash_addr(0x5c);
                f.asset_sender = hash_addr(0x5d);
            }
            _ => {}
        }
        let parties = [0x5au8, 0x77, 0x5b, 0x5c, 0x5d];
        let count = match kind {
            "pay" => 4,
            "axfer" => 5,
            _ => 2,
        };
        for (i, base) in parties.iter().enumerate() {
            let base = hash_addr(*base);
            r.state();
            r.step();
            let m = guard(|| match_address(&t, &base, &spec2));
            r.check(
                m == Ok(i < count),
                "match",
                || format!("{} party {}", kind, i),
                || format!("{:?}", m),
            );
            for other in near::bytes32(base.0) {
                let other = Address(other);
                if parties.iter().any(|p| hash_addr(*p) == other) {
                    continue;
                }
                r.step();
                let m = guard(|| match_address(&t, &other, &spec2));
                r.check(
                    m == Ok(false),
                    "match",
                    || format!("{} account {} close to party {}", kind, hex(&other.0), i),
                    || format!("{:?}", m),
                );
            }
        }
    }
    r.space("near misses", "accounts that differ from a party in one byte, in a part, in order or in cancelling changes");
    // who must have signed
    // whatever the other addresses are, and whichever signature there is
    for kind in KINDS {
        product(&[k, k, k, k, 4], |d| {
            let mut t = stx(blank(kind));
            t.tx.header.sender = who[d[0]];
            t.auth_addr = who[d[1]];
            t.tx.header.rekey_to = who[d[2]];
            match &mut t.tx.fields {
                TxFields::Payment(f) => {
                    f.receiver = who[d[3]];
                    f.close_remainder_to = Some(who[d[3]]);
                }
                TxFields::AssetTransfer(f) => {
                    f.asset_receiver = who[d[3]];
                    f.asset_sender = who[d[3]];
                    f.asset_close_to = who[d[3]];
                }
                TxFields::AppCall(f) => f.accounts = vec![who[d[3]]],
                TxFields::AssetFreeze(f) => f.freeze_account = who[d[3]],
                _ if d[3] > 0 => return,
                _ => {}
            }
            match d[4] {
                0 => {}
                1 => t.sig = sig(1),
                2 => t.msig = Some(msig(1)),
                _ => t.lsig = Some(blank_lsig()),
            }
            r.state();
            r.step();
            let want = if who[d[1]].0 == [0; 32] {
                who[d[0]]
            } else {
                who[d[1]]
            };
            let got = guard(|| t.authorizer());
            r.check(
                got == Ok(want),
                "authorizer",
                || {
                    format!(
                        "{} sender {} auth {} rekey {} other {} signature {}",
                        kind, d[0], d[1], d[2], d[3], d[4]
                    )
                },
                || "wrong authorizer".into(),
            );
        });
    }
    r.space(
        "address assignments",
        format!("{} addresses in up to 4 fields of {} kinds", k, KINDS.len()),
    );
    r.finish()
}

/// An address without any regularity.
fn hash_addr(n: u8) -> Address {
    let mut a = [0; 32];
    for (i, b) in a.iter_mut().enumerate() {
        *b = n.wrapping_mul(2 * i as u8 + 3) ^ (i as u8).wrapping_mul(29).rotate_left(3);
    }
    Address(a)
}

fn receiver_of(t: &Transaction) -> Option<Address> {
    receiver(t)
}
