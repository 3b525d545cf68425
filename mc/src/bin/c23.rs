//@ hooks
//! C23: app-call references resolve to the declared account, asset or application only.
//!
//! Every list of references up to a length over a small alphabet (so with all patterns of
//! duplicates and of references equal to the sender or to the called application), every index and
//! every target, against a plain reading of the rule: 0 is the sender or the called application,
//! i is the i-th declared entry, the first match wins, everything else is an error.

use algorsand::data::basics::{Address, AppIndex};
use algorsand::data::transactions::application::verif_hook::address_by_index;
use algorsand::data::transactions::application::AppCallFields;
use mc::txkit::addr;
use mc::*;

/// Where the references to look up stand: their list, what index 0 means, and a fresh call.
fn indices(len: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..len as u64 + 4).collect();
    for base in [
        1u64 << 8,
        1 << 16,
        1 << 31,
        1 << 32,
        1 << 33,
        1 << 48,
        1 << 63,
    ] {
        // also those that become a valid index once cut to fewer bits
        for d in 0..=len as u64 + 1 {
            v.push(base + d);
        }
        v.push(base - 1);
    }
    for d in 0..=len as u64 + 1 {
        v.push(u64::MAX - d);
    }
    v
}

/// An address that carries a number.
fn wide(n: u64) -> Address {
    let mut a = addr(6);
    a.0[12..20].copy_from_slice(&n.to_be_bytes());
    a
}

fn main() {
    let mut r = Report::new("C23");
    let n = tier(4, 6);
    // accounts: the alphabet has the zero address, close relatives of one another, and the sender
    let mut near = addr(1);
    near.0[31] ^= 1;
    let mut far = addr(1);
    far.0[0] ^= 0x80;
    let who: Vec<Address> = vec![addr(0), addr(1), addr(2), near, far];
    for len in 0..=n {
        product(&vec![who.len(); len], |d| {
            let list: Vec<Address> = d.iter().map(|&i| who[i]).collect();
            for s in [0usize, 1, 2] {
                let sender = who[s];
                let f = AppCallFields {
                    accounts: list.clone(),
                    // decoys in the other lists
                    application_id: AppIndex(3),
                    foreign_apps: vec![AppIndex(1), AppIndex(2)],
                    foreign_assets: vec![1],
                    ..AppCallFields::default()
                };
                r.state();
                for i in indices(len) {
                    r.step();
                    let want = match i {
                        0 => Ok(sender),
                        i if (i - 1) < len as u64 => Ok(list[(i - 1) as usize]),
                        _ => Err(()),
                    };
                    let got = guard(|| address_by_index(&f, i, sender));
                    r.check(
                        got == Ok(want),
                        "address-by-index",
                        || format!("accounts {:?} sender {} index {}", d, s, i),
                        || {
                            format!(
                                "{:?} instead of {:?}",
                                got.clone().map(|g| g.map(|a| a.to_string())),
                                want.map(|a| a.to_string())
                            )
                        },
                    );
                    r.outcome(if want.is_ok() {
                        "account"
                    } else {
                        "account error"
                    });
                }
                for t in who.iter().chain(&[addr(9)]) {
                    r.step();
                    let want = if *t == sender {
                        Ok(0)
                    } else {
                        list.iter()
                            .position(|a| a == t)
                            .map(|p| p as u64 + 1)
                            .ok_or(())
                    };
                    let got = guard(|| f.index_by_address(*t, sender));
                    r.check(
                        got == Ok(want),
                        "index-by-address",
                        || format!("accounts {:?} sender {} target {}", d, s, hex(&t.0)),
                        || format!("{:?} instead of {:?}", got, want),
                    );
                    // what is found is what was looked for
                    if let Ok(Ok(i)) = got {
                        let back = guard(|| address_by_index(&f, i, sender));
                        r.check(
                            back == Ok(Ok(*t)),
                            "address-round-trip",
                            || format!("accounts {:?} sender {} target {}", d, s, hex(&t.0)),
                            || format!("{:?}", back.map(|g| g.map(|a| a.to_string()))),
                        );
                    }
                    r.outcome(if want.is_ok() {
                        "account found"
                    } else {
                        "account not found"
                    });
                }
                r.trace();
            }
        });
    }
    let ids = [0u64, 1, 2, 1 << 32, u64::MAX];
    for len in 0..=n {
        product(&vec![ids.len(); len], |d| {
            let list: Vec<AppIndex> = d.iter().map(|&i| AppIndex(ids[i])).collect();
            for cur in ids {
                let f = AppCallFields {
                    application_id: AppIndex(cur),
                    foreign_apps: list.clone(),
                    foreign_assets: vec![1, 77],
                    accounts: vec![addr(1); 2],
                    ..AppCallFields::default()
                };
                r.state();
                for i in indices(len) {
                    r.step();
                    let want = match i {
                        0 => Ok(cur),
                        i if (i - 1) < len as u64 => Ok(ids[d[(i - 1) as usize]]),
                        _ => Err(()),
                    };
                    let got = guard(|| f.app_id_by_index(i).map(|a| a.0));
                    r.check(
                        got == Ok(want),
                        "app-by-index",
                        || format!("apps {:?} current {} index {}", d, cur, i),
                        || format!("{:?} instead of {:?}", got, want),
                    );
                    r.outcome(if want.is_ok() { "app" } else { "app error" });
                }
                for t in ids.iter().copied().chain([3, 77]) {
                    r.step();
                    let want = if t == cur {
                        Ok(0)
                    } else {
                        d.iter()
                            .position(|&i| ids[i] == t)
                            .map(|p| p as u64 + 1)
                            .ok_or(())
                    };
                    let got = guard(|| f.index_by_app_id(AppIndex(t)));
                    r.check(
                        got == Ok(want),
                        "index-by-app",
                        || format!("apps {:?} current {} target {}", d, cur, t),
                        || format!("{:?} instead of {:?}", got, want),
                    );
                    if let Ok(Ok(i)) = got {
                        let back = guard(|| f.app_id_by_index(i).map(|a| a.0));
                        r.check(
                            back == Ok(Ok(t)),
                            "app-round-trip",
                            || format!("apps {:?} current {} target {}", d, cur, t),
                            || format!("{:?}", back),
                        );
                    }
                    r.outcome(if want.is_ok() {
                        "app found"
                    } else {
                        "app not found"
                    });
                }
                r.trace();
            }
        });
    }
    // accounts that a sloppy comparison takes for a declared one or for the sender
    let mut base = addr(1);
    for (i, b) in base.0.iter_mut().enumerate() {
        *b = (7 * i as u8 + 3) ^ (i as u8).rotate_left(5);
    }
    for other in near::bytes32(base.0) {
        let other = Address(other);
        for (list, sender, target, want) in [
            (vec![other], addr(5), base, Err(())),
            (vec![base], addr(5), other, Err(())),
            (vec![other, base], addr(5), base, Ok(2)),
            (vec![base, other], addr(5), other, Ok(2)),
            (vec![addr(2), base], other, base, Ok(2)),
            (vec![addr(2), other], base, other, Ok(2)),
            (vec![addr(2)], base, other, Err(())),
            (vec![other, base], base, base, Ok(0)),
        ] {
            r.state();
            r.step();
            let f = AppCallFields {
                accounts: list.clone(),
                ..AppCallFields::default()
            };
            let got = guard(|| f.index_by_address(target, sender));
            let show = |a: &Address| hex(&a.0);
            r.check(
                got == Ok(want),
                "index-by-address",
                || {
                    format!(
                        "accounts {:?} sender {} target {}",
                        list.iter().map(show).collect::<Vec<_>>(),
                        show(&sender),
                        show(&target)
                    )
                },
                || format!("{:?} instead of {:?}", got, want),
            );
        }
    }
    let near_ids = |n: u64| -> Vec<u64> {
        (0..64)
            .map(|b| n ^ (1 << b))
            .chain([
                n.swap_bytes(),
                n.reverse_bits(),
                n << 32,
                n >> 32,
                n.wrapping_neg(),
                n as u32 as u64,
            ])
            .filter(|x| *x != n)
            .collect()
    };
    for n in [1000u64, 0x1234_5678_9abc_def0] {
        for other in near_ids(n) {
            for (list, cur, target, want) in [
                (vec![other], 5, n, Err(())),
                (vec![other, n], 5, n, Ok(2)),
                (vec![2, n], other, n, Ok(2)),
                (vec![2], other, n, Err(())),
                (vec![other], n, n, Ok(0)),
            ] {
                r.state();
                r.step();
                let f = AppCallFields {
                    application_id: AppIndex(cur),
                    foreign_apps: list.iter().map(|x| AppIndex(*x)).collect(),
                    ..AppCallFields::default()
                };
                let got = guard(|| f.index_by_app_id(AppIndex(target)));
                r.check(
                    got == Ok(want),
                    "index-by-app",
                    || format!("apps {:?} current {} target {}", list, cur, target),
                    || format!("{:?} instead of {:?}", got, want),
                );
            }
        }
    }
    r.space(
        "near misses",
        "accounts and applications that differ in one bit or byte, in a part or in order",
    );
    // long lists: every position of the largest ones that a transaction may carry
    for len in [4usize, 31, 32, 33, 255, 256, 257, 300] {
        let f = AppCallFields {
            application_id: AppIndex(1 << 40),
            foreign_apps: (0..len as u64).map(|i| AppIndex(i + 1000)).collect(),
            accounts: (0..len).map(|i| wide(1000 + i as u64)).collect(),
            ..AppCallFields::default()
        };
        for i in 0..=len as u64 + 1 {
            r.state();
            r.steps(4);
            let inside = i >= 1 && i <= len as u64;
            let case = || format!("{} references, index {}", len, i);
            let a = guard(|| address_by_index(&f, i, addr(5)));
            let want = if i == 0 {
                Ok(addr(5))
            } else if inside {
                Ok(wide(999 + i))
            } else {
                Err(())
            };
            r.check(a == Ok(want), "address-by-index", case, || {
                "wrong account".into()
            });
            let a = guard(|| f.app_id_by_index(i).map(|x| x.0));
            let want = if i == 0 {
                Ok(1 << 40)
            } else if inside {
                Ok(999 + i)
            } else {
                Err(())
            };
            r.check(a == Ok(want), "app-by-index", case, || format!("{:?}", a));
            if inside {
                let a = guard(|| f.index_by_address(wide(999 + i), addr(5)));
                r.check(a == Ok(Ok(i)), "index-by-address", case, || {
                    format!("{:?}", a)
                });
                let a = guard(|| f.index_by_app_id(AppIndex(999 + i)));
                r.check(a == Ok(Ok(i)), "index-by-app", case, || format!("{:?}", a));
            }
            r.trace();
        }
    }
    r.space(
        "reference lists",
        format!(
            "all lists of up to {} of 5 accounts or applications, duplicates included",
            n
        ),
    );
    r.space("indices", "0 to past the end, around every power of two that a truncation could cut, and up to the largest");
    r.finish()
}
