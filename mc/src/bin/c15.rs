//@ hooks
//! C15: the block header's payset commitment binds the transactions of the block.
//!
//! All paysets up to a length over an alphabet of in-block transactions that differ in one respect
//! each, for every consensus version: the commitment equals one computed independently, no two
//! paysets share a commitment, and a header matches exactly the payset it was computed for. Larger
//! paysets of every length with every single edit, and unusable blocks.

use std::collections::HashMap;

use algorsand::config::{PaysetCommitType, CONSENSUS};
use algorsand::crypto::merklearray::Tree;
use algorsand::crypto::CryptoHash;
use algorsand::data::bookkeeping::block::verif_hook::contents_match_header;
use algorsand::data::bookkeeping::{Block, BlockHeader, TxMerkleArray};
use algorsand::data::transactions::*;
use algorsand::protocol::{self, ConsensusVersion};
use mc::model::sha;
use mc::txkit::*;
use mc::*;

type H = [u8; 32];

/// In-block transactions that differ from the first one in one respect each. The last ones cannot
/// be decoded by protocols that keep the genesis ID and hash out of the block.
fn alphabet() -> Vec<(&'static str, SignedTxInBlock)> {
    let base = || stib(stx(blank("pay")));
    let mk = |f: &dyn Fn(&mut SignedTxInBlock)| {
        let mut s = base();
        f(&mut s);
        s
    };
    vec![
        ("base", base()),
        ("fee", mk(&|s| s.tx.tx.tx.header.fee.0 = 1)),
        ("sig", mk(&|s| s.tx.tx.sig = sig(1))),
        ("msig", mk(&|s| s.tx.tx.msig = Some(msig(1)))),
        ("auth", mk(&|s| s.tx.tx.auth_addr = addr(1))),
        ("apply data", mk(&|s| s.tx.ad.sender_rewards.0 = 1)),
        ("has genesis ID", mk(&|s| s.has_genesis_id = true)),
        (
            "genesis ID",
            mk(&|s| s.tx.tx.tx.header.genesis_id = "A".into()),
        ),
        ("has genesis hash", mk(&|s| s.has_genesis_hash = true)),
    ]
}

fn header(v: ConsensusVersion, g: u8) -> BlockHeader {
    let mut h = BlockHeader::default();
    h.upgrade_state.current_protocol = v;
    h.genesis_id = ["A", "B"][g as usize].into();
    h.genesis_hash = hash(g + 1);
    h
}

fn tagged(tag: &str, b: &[u8]) -> H {
    sha(&[tag.as_bytes(), b].concat())
}

/// The transaction that an in-block transaction stands for in a block with this header; None if it
/// cannot be decoded.
fn decoded(
    h: &BlockHeader,
    p: &algorsand::config::ConsensusParams,
    s: &SignedTxInBlock,
) -> Option<Transaction> {
    let mut tx = s.tx.tx.tx.clone();
    if p.support_signed_tx_in_block {
        if !tx.header.genesis_id.is_empty()
            || tx.header.genesis_hash != hash(0)
            || (p.require_genesis_hash && s.has_genesis_hash)
        {
            return None;
        }
        if s.has_genesis_id {
            tx.header.genesis_id = h.genesis_id.clone();
        }
        if s.has_genesis_hash || p.require_genesis_hash {
            tx.header.genesis_hash = h.genesis_hash.clone();
        }
    }
    Some(tx)
}

fn leaf(tx: &Transaction, s: &SignedTxInBlock) -> H {
    tagged(
        "TL",
        &[
            tagged("TX", &protocol::encode(tx)),
            tagged("STIB", &protocol::encode(s)),
        ]
        .concat(),
    )
}

/// The array of a block's transactions has one element for each of them, in order, each made of the
/// decoded and the in-block form, with the hash that the commitment is made of.
fn array(r: &mut Report, b: &Block, case: &dyn Fn() -> String) {
    r.step();
    let Some(got) = r.no_panic(guard(|| TxMerkleArray::from_block(b)), "array-panic", case) else {
        return;
    };
    let want: Option<Vec<Transaction>> = CONSENSUS
        .0
        .get(&b.header.upgrade_state.current_protocol)
        .and_then(|p| {
            b.payset
                .0
                .iter()
                .map(|s| decoded(&b.header, p, s))
                .collect()
        });
    match (got, want) {
        (Err(_), None) => r.outcome("no array"),
        // a protocol that is not known makes no difference to a block without transactions
        (Ok(a), None) => {
            r.check(
                a.0.is_empty() && b.payset.0.is_empty(),
                "array",
                case,
                || "an array was made of transactions that cannot be decoded".into(),
            );
        }
        (Err(e), Some(_)) => r.violation("array", case(), format!("no array: {:?}", e)),
        (Ok(a), Some(want)) => {
            r.outcome("array");
            if r.check(a.0.len() == want.len(), "array", case, || {
                format!("{} elements for {} transactions", a.0.len(), want.len())
            }) {
                for (i, (e, tx)) in a.0.iter().zip(&want).enumerate() {
                    let s = &b.payset.0[i];
                    r.check(e.tx == *tx && e.stib == *s, "array", case, || {
                        format!("element {} is not transaction {}", i, i)
                    });
                    r.check(
                        algorsand::crypto::hash_obj(e).0 == leaf(tx, s),
                        "array-leaf",
                        case,
                        || format!("hash of element {}", i),
                    );
                }
            }
        }
    }
}

/// The commitment, computed from the rule book; None if there is none.
fn expected(h: &BlockHeader, payset: &[SignedTxInBlock]) -> Option<H> {
    let p = CONSENSUS.0.get(&h.upgrade_state.current_protocol)?;
    match p.payset_commit {
        PaysetCommitType::Unsupported => None,
        PaysetCommitType::Flat => Some(tagged("PF", &protocol::encode(&payset.to_vec()))),
        PaysetCommitType::Merkle => {
            let mut level = vec![];
            for s in payset {
                let tx = decoded(h, p, s)?;
                level.push(leaf(&tx, s));
            }
            if level.is_empty() {
                return Some([0; 32]);
            }
            while level.len() > 1 {
                level = level
                    .chunks(2)
                    .map(|c| tagged("MA", &[c[0], *c.get(1).unwrap_or(&[0; 32])].concat()))
                    .collect();
            }
            Some(level[0])
        }
    }
}

fn commit(r: &mut Report, b: &Block, case: &dyn Fn() -> String) -> Option<Option<H>> {
    r.step();
    r.no_panic(
        guard(|| b.payset_commit().ok().map(|c| c.0)),
        "commit-panic",
        case,
    )
}

/// One block: its commitment is the expected one, and its header matches with that commitment only.
fn block(
    r: &mut Report,
    h: &BlockHeader,
    payset: Vec<SignedTxInBlock>,
    case: &dyn Fn() -> String,
) -> Option<H> {
    r.state();
    let want = expected(h, &payset);
    let mut b = Block {
        header: h.clone(),
        payset: Payset(payset),
    };
    let got = commit(r, &b, case)?;
    r.outcome(if got.is_some() {
        "committed"
    } else {
        "no commitment"
    });
    r.check(got == want, "commitment", case, || {
        format!(
            "commitment {} but expected {}",
            got.map_or("(error)".into(), |g| hex(&g)),
            want.map_or("(error)".into(), |g| hex(&g))
        )
    });
    r.trace();
    array(r, &b, case);
    for flip in 0..3 {
        let mut root = want.unwrap_or([0; 32]);
        match flip {
            1 => root[0] ^= 1,
            2 => root[31] ^= 128,
            _ => {}
        }
        b.header.tx_root = CryptoHash(root);
        r.step();
        if let Some(m) = r.no_panic(guard(|| contents_match_header(&b)), "match-panic", case) {
            r.check(m == (want.is_some() && flip == 0), "match", case, || {
                format!("contents match header: {} (root changed: {})", m, flip != 0)
            });
        }
    }
    want
}

fn small(r: &mut Report, v: ConsensusVersion) {
    let abc = alphabet();
    let n = tier(4, 5);
    let mut seen: HashMap<H, (u8, Vec<usize>)> = HashMap::new();
    for g in 0..2u8 {
        let h = header(v, g);
        for len in 0..=n {
            sequences(abc.len(), len, |s| {
                let s = s.to_vec();
                let case = || {
                    format!(
                        "protocol {:?}, genesis {}, payset {:?}",
                        v,
                        g,
                        s.iter().map(|i| abc[*i].0).collect::<Vec<_>>()
                    )
                };
                let payset: Vec<SignedTxInBlock> = s.iter().map(|i| abc[*i].1.clone()).collect();
                if let Some(root) = block(r, &h, payset, &case) {
                    if let Some((g2, s2)) = seen.insert(root, (g, s.clone())) {
                        // the genesis of the block is not part of the payset, only the transactions are
                        r.check(g2 != g && s2 == s, "collision", case, || {
                            format!("same commitment as payset {:?}", s2)
                        });
                    }
                }
            });
        }
    }
}

/// Paysets of every length with every single edit.
fn edits(r: &mut Report, v: ConsensusVersion, len: usize) {
    let h = header(v, 0);
    let tx = |i: usize| {
        let mut s = stib(stx(blank("pay")));
        s.tx.tx.tx.header.fee.0 = i as u64;
        s
    };
    let base: Vec<SignedTxInBlock> = (0..len).map(tx).collect();
    let case = || format!("protocol {:?}, payset of {} different payments", v, len);
    let root = match block(r, &h, base.clone(), &case) {
        Some(x) => x,
        None => return, // no commitment type: `block` has checked that nothing matches
    };
    let mut edited: Vec<(String, Vec<SignedTxInBlock>)> = vec![];
    let mut slots = stib_slots();
    slots.extend(lift(stx_slots(), |s: &mut SignedTxInBlock| &mut s.tx.tx));
    slots.extend(lift(tx_slots("pay"), |s: &mut SignedTxInBlock| {
        &mut s.tx.tx.tx
    }));
    for i in 0..len {
        let mut e = base.clone();
        e.remove(i);
        edited.push((format!("transaction {} removed", i), e));
        let mut e = base.clone();
        e[i] = tx(1000);
        edited.push((format!("transaction {} replaced", i), e));
        let mut e = base.clone();
        e[i].has_genesis_id = true;
        edited.push((format!("transaction {} re-flagged", i), e));
        let mut e = base.clone();
        e[i].tx.ad.sender_rewards.0 = 1;
        edited.push((format!("apply data of transaction {} changed", i), e));
        // every value of every field of one transaction, its signatures and its effects
        for sl in &slots {
            for (n, set) in sl.set.iter().enumerate() {
                let mut e = base.clone();
                set(&mut e[i]);
                if e[i] != base[i] {
                    edited.push((format!("transaction {}: {} #{}", i, sl.name, n + 1), e));
                }
            }
        }
        for j in 0..i {
            let mut e = base.clone();
            e.swap(i, j);
            edited.push((format!("transactions {} and {} swapped", j, i), e));
        }
        let mut e = base.clone();
        let t = e[i].clone();
        e.insert(i, t);
        edited.push((format!("transaction {} repeated", i), e));
        edited.push((format!("cut to {}", i), base[..i].to_vec()));
    }
    for i in 0..=len {
        let mut e = base.clone();
        e.insert(i, tx(1000));
        edited.push((format!("a transaction added at {}", i), e));
    }
    for (what, e) in edited {
        r.state();
        r.step();
        let mut b = Block {
            header: h.clone(),
            payset: Payset(e),
        };
        b.header.tx_root = CryptoHash(root);
        let case = || format!("protocol {:?}, payset of {} payments, {}", v, len, what);
        if let Some(m) = r.no_panic(guard(|| contents_match_header(&b)), "match-panic", case) {
            r.outcome("edit detected");
            r.check(!m, "edit", case, || {
                "the changed block still matches its header".into()
            });
        }
    }
    // light clients: a proof for any single transaction verifies against the header
    if CONSENSUS.0[&v].payset_commit == PaysetCommitType::Merkle {
        let b = Block {
            header: h,
            payset: Payset(base),
        };
        let arr = match guard(|| TxMerkleArray::from_block(&b)) {
            Ok(Ok(a)) => a,
            o => return r.violation("array", case(), format!("{:?}", o.map(|x| x.is_ok()))),
        };
        let t2 = guard(|| Tree::from_array(&arr.0).map(|t| t.root().0));
        r.check(t2 == Ok(Ok(root)), "array", case, || {
            "the transaction array has another root".into()
        });
        if let Ok(Ok(t)) = guard(|| b.tx_merkle_tree()) {
            for i in 0..len {
                r.step();
                let ok = guard(|| {
                    let proof = t.prove(&mut vec![i as u64])?;
                    let leaf = algorsand::crypto::hash_obj(&arr.0[i]);
                    let ok = Tree::verify(
                        &CryptoHash(root),
                        [(i as u64, leaf.clone())].iter().cloned().collect(),
                        &proof,
                    )
                    .is_ok();
                    let wrong = len > 1
                        && Tree::verify(
                            &CryptoHash(root),
                            [((i as u64 + 1) % len as u64, leaf)]
                                .iter()
                                .cloned()
                                .collect(),
                            &proof,
                        )
                        .is_ok();
                    Ok::<_, ()>((ok, wrong))
                });
                r.check(ok == Ok(Ok((true, false))), "proof", case, || {
                    format!("proof of transaction {}: {:?}", i, ok)
                });
            }
        }
    }
}

/// Long paysets: of different transactions, of equal ones, and with equal neighbours; and single
/// transactions with much or coinciding content.
fn long(r: &mut Report, v: ConsensusVersion, len: usize) {
    let h = header(v, 1);
    let tx = |i: usize| {
        let mut s = stib(stx(blank("pay")));
        s.tx.tx.tx.header.fee.0 = i as u64;
        s
    };
    let mut roots: HashMap<H, usize> = HashMap::new();
    for (k, f) in [
        |i: usize| i,
        |_| 3,
        |i| i / 2,
        |i| i % 2,
        |i| (i + 1) / 2,
        |i| i % 16,
        |i| i / 16,
    ]
    .iter()
    .enumerate()
    {
        let payset: Vec<SignedTxInBlock> = (0..len).map(|i| tx(f(i))).collect();
        let case = || format!("protocol {:?}, {} payments of pattern {}", v, len, k);
        if let Some(root) = block(r, &h, payset, &case) {
            if let Some(other) = roots.insert(root, k) {
                r.check(len < 32, "collision", case, || {
                    format!("same commitment as pattern {}", other)
                });
            }
        }
    }
}

fn contents(r: &mut Report, v: ConsensusVersion) {
    let h = header(v, 1);
    for (what, st, ad) in KINDS.iter().flat_map(|k| twins(k)) {
        let mut s = stib(st);
        s.tx.ad = ad;
        let mut t = s.clone();
        // in the form that it can have in a block
        t.tx.tx.tx.header.genesis_id = String::new();
        t.tx.tx.tx.header.genesis_hash = hash(0);
        for s in [s, t] {
            block(r, &h, vec![s], &|| {
                format!("protocol {:?}, payset with {}", v, what)
            });
        }
    }
    for n in (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 1000]) {
        let mut s = stib(stx(blank("appl")));
        s.tx.ad.eval_delta.logs = (0..n).map(|i| i.to_string()).collect();
        let mut t = stib(stx(blank("appl")));
        t.tx.ad.eval_delta.inner_txs = (0..n)
            .map(|i| {
                let mut t = blank("pay");
                t.header.fee.0 = i as u64;
                SignedTxWithAD {
                    tx: stx(t),
                    ad: Default::default(),
                }
            })
            .collect();
        let mut u = stib(stx(blank("appl")));
        if let TxFields::AppCall(f) = &mut u.tx.tx.tx.fields {
            f.application_args = (0..n).map(|i| vec![i as u8; i % 7]).collect();
        }
        let mut w = stib(stx(blank("pay")));
        w.tx.tx.tx.header.note = (0..n).map(|i| i as u8).collect();
        for (name, s) in [
            ("logs", s),
            ("inner transactions", t),
            ("arguments", u),
            ("bytes of note", w),
        ] {
            block(r, &h, vec![s], &|| {
                format!("protocol {:?}, a transaction with {} {}", v, n, name)
            });
        }
    }
}

fn main() {
    let mut r = Report::new("C15");
    r.assume("SHA-512/256 does not collide; the encoding of single transactions is decided by C13");
    r.space("alphabet of in-block transactions", alphabet().len() as u64);
    r.space("longest exhaustive payset", tier(4u64, 5));
    r.space("longest edited payset", tier(17u64, 40));
    let mut jobs: Vec<(ConsensusVersion, usize)> = vec![];
    for v in versions() {
        jobs.push((v, usize::MAX));
        jobs.push((v, usize::MAX - 1));
        for len in (18..=70)
            .chain([100, 101, 127, 128, 129, 255, 256, 257, 300, 333])
            .chain(tier(vec![], vec![511, 512, 513, 1000, 4097]))
        {
            jobs.push((v, 1000 + len));
        }
        if CONSENSUS.0.contains_key(&v) {
            for len in 0..=tier(17, 40) {
                jobs.push((v, len));
            }
        }
    }
    parallel(&mut r, jobs, |r, &(v, len)| match len {
        usize::MAX => small(r, v),
        n if n == usize::MAX - 1 => contents(r, v),
        n if n >= 1000 => long(r, v, n - 1000),
        n => edits(r, v, n),
    });
    r.space("longest payset", tier(333u64, 4097));

    mc::txkit::finish_both(r)
}
