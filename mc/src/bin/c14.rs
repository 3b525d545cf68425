//! C14: transactions survive being put into a block and taken out again.
//!
//! Every consensus version (also unsupported ones) x block genesis ID/hash x transaction genesis
//! ID/hash x shapes of transactions, signatures and apply data: the result of encoding and decoding
//! is compared with the rule book.

use algorsand::config::CONSENSUS;
use algorsand::crypto::CryptoHash;
use algorsand::data::bookkeeping::BlockHeader;
use algorsand::data::transactions::*;
use mc::txkit::*;
use mc::*;

const IDS: [&str; 4] = ["", "A", "B", "AB"];
const HASHES: [u8; 3] = [0, 1, 2];

fn header(v: algorsand::protocol::ConsensusVersion, id: &str, h: u8) -> BlockHeader {
    let mut b = BlockHeader::default();
    b.upgrade_state.current_protocol = v;
    b.genesis_id = id.to_string();
    b.genesis_hash = hash(h);
    b
}

/// Shapes of signed transactions: every kind blank, with each single field, and with all fields set.
fn shapes() -> Vec<(String, SignedTx, ApplyData)> {
    let mut out = vec![];
    for kind in KINDS {
        let slots = tx_slots(kind);
        for a in assignments(&slots, 1, 1, 1) {
            let mut tx = blank(kind);
            apply(&slots, &a, &mut tx);
            out.push((
                format!("{} {}", kind, describe(&slots, &a)),
                stx(tx),
                ApplyData::default(),
            ));
        }
    }
    let slots = stx_slots();
    for a in assignments(&slots, tier(2, 3), tier(2, 3), 2) {
        let mut s = stx(blank("pay"));
        apply(&slots, &a, &mut s);
        out.push((
            format!("pay {}", describe(&slots, &a)),
            s,
            ApplyData::default(),
        ));
    }
    let slots = ad_slots();
    for a in assignments(&slots, tier(2, 3), tier(2, 3), 2) {
        let mut ad = ApplyData::default();
        apply(&slots, &a, &mut ad);
        out.push((
            format!("appl {}", describe(&slots, &a)),
            stx(blank("appl")),
            ad,
        ));
    }
    out
}

fn main() {
    let mut r = Report::new("C14");
    r.assume("the codec treats fields other than the genesis ID and hash opaquely beyond the shapes enumerated");
    let shapes = shapes();
    r.space("shapes of transactions and apply data", shapes.len() as u64);
    r.space("consensus versions", versions().len() as u64);

    parallel(&mut r, versions(), |r, &v| {
        let proto = CONSENSUS.0.get(&v);
        for bid in IDS {
            for bh in HASHES {
                let hd = header(v, bid, bh);
                for tid in IDS {
                    for th in HASHES {
                        for (name, st, ad) in &shapes {
                            let mut st = st.clone();
                            st.tx.header.genesis_id = tid.to_string();
                            st.tx.header.genesis_hash = hash(th);
                            encode(
                                r,
                                &hd,
                                v,
                                bid,
                                &hash(bh),
                                tid,
                                &hash(th),
                                name,
                                st,
                                ad,
                                proto,
                            );
                        }
                        // decoding what a block could contain
                        for (hi, hh) in [(false, false), (false, true), (true, false), (true, true)]
                        {
                            for (name, st, ad) in shapes.iter().step_by(tier(7, 1)) {
                                let mut st = st.clone();
                                st.tx.header.genesis_id = tid.to_string();
                                st.tx.header.genesis_hash = hash(th);
                                let stib = SignedTxInBlock {
                                    tx: SignedTxWithAD {
                                        tx: st.clone(),
                                        ad: ad.clone(),
                                    },
                                    has_genesis_id: hi,
                                    has_genesis_hash: hh,
                                };
                                decode(r, &hd, v, bid, bh, tid, th, name, stib, proto);
                            }
                        }
                    }
                }
            }
        }
    });
    // transactions with equal values in different places
    let twins: Vec<(String, SignedTx, ApplyData)> = KINDS.iter().flat_map(|k| twins(k)).collect();
    r.space(
        "transactions with pairs of equal values",
        twins.len() as u64,
    );
    parallel(&mut r, versions(), |r, &v| {
        let proto = CONSENSUS.0.get(&v);
        for (name, st, ad) in &twins {
            let h = &st.tx.header;
            for bid in [h.genesis_id.as_str(), "A"] {
                for bh in [h.genesis_hash.clone(), CryptoHash(h.sender.0), hash(1)] {
                    let mut hd = header(v, bid, 0);
                    hd.genesis_hash = bh.clone();
                    encode(
                        r,
                        &hd,
                        v,
                        bid,
                        &bh,
                        &h.genesis_id.clone(),
                        &h.genesis_hash.clone(),
                        name,
                        st.clone(),
                        ad,
                        proto,
                    );
                }
            }
        }
    });
    // block and transaction whose genesis IDs or hashes a sloppy comparison takes for the same
    let plain = stx(blank("pay"));
    let ad = ApplyData::default();
    parallel(&mut r, versions(), |r, &v| {
        let proto = CONSENSUS.0.get(&v);
        for id in ["A", "mainnet-v1.0"] {
            for other in near::texts(id) {
                for (bid, tid) in [(id, other.as_str()), (other.as_str(), id)] {
                    for th in [0, 1] {
                        let mut st = plain.clone();
                        st.tx.header.genesis_id = tid.into();
                        st.tx.header.genesis_hash = hash(th);
                        encode(
                            r,
                            &header(v, bid, 1),
                            v,
                            bid,
                            &hash(1),
                            tid,
                            &hash(th),
                            "pay",
                            st,
                            &ad,
                            proto,
                        );
                    }
                }
            }
        }
        for base in [hash(1), hash(0xee)] {
            for other in near::bytes32(base.0) {
                for (bh, th) in [
                    (base.clone(), CryptoHash(other)),
                    (CryptoHash(other), base.clone()),
                ] {
                    let mut hd = header(v, "A", 1);
                    hd.genesis_hash = bh.clone();
                    let mut st = plain.clone();
                    st.tx.header.genesis_hash = th.clone();
                    encode(r, &hd, v, "A", &bh, "", &th, "pay", st, &ad, proto);
                }
            }
        }
    });
    mc::txkit::finish_both(r)
}

#[allow(clippy::too_many_arguments)]
fn encode(
    r: &mut Report,
    hd: &BlockHeader,
    v: algorsand::protocol::ConsensusVersion,
    bid: &str,
    bh: &CryptoHash,
    tid: &str,
    th: &CryptoHash,
    name: &str,
    st: SignedTx,
    ad: &ApplyData,
    proto: Option<&algorsand::config::ConsensusParams>,
) {
    let zero = CryptoHash([0; 32]);
    r.state();
    r.step();
    let case = || {
        format!("protocol {:?}, block genesis ID {:?} hash {}, transaction [{}] with genesis ID {:?} hash {}", v, bid, hex(&bh.0), name, tid, hex(&th.0))
    };
    let got = match r.no_panic(
        guard(|| hd.encode_signed_tx(st.clone(), ad.clone())),
        "encode-panic",
        case,
    ) {
        Some(g) => g,
        None => return,
    };
    let p = match proto {
        None => {
            r.outcome("unsupported protocol");
            r.check(got.is_err(), "unsupported", case, || {
                "a transaction was encoded for a block of an unsupported protocol".into()
            });
            return;
        }
        Some(p) => p,
    };
    let compact = p.support_signed_tx_in_block;
    let ok = !compact
        || ((tid.is_empty() || tid == bid)
            && (if *th == zero {
                !p.require_genesis_hash
            } else {
                th == bh
            }));
    let stib = match got {
        Err(e) => {
            r.outcome("refused");
            r.check(!ok, "encode-refused", case, || {
                format!("refused with {:?}", e)
            });
            return;
        }
        Ok(s) => s,
    };
    r.outcome("encoded");
    if !r.check(ok, "encode-accepted", case, || "a transaction of another network (or without a required genesis hash) was put into the block".into()) {
        return;
    }
    let mut want = st.clone();
    if compact {
        want.tx.header.genesis_id = String::new();
        want.tx.header.genesis_hash = hash(0);
    }
    r.check(
        stib.tx.tx == want
            && stib.tx.ad == *ad
            && stib.has_genesis_id == (compact && !tid.is_empty())
            && stib.has_genesis_hash == (compact && *th != zero && !p.require_genesis_hash),
        "encode-form",
        case,
        || "the in-block form is not the transaction without what the block implies".into(),
    );
    r.step();
    match r.no_panic(guard(|| hd.decode_signed_tx(&stib)), "decode-panic", case) {
        Some(Ok(back)) => {
            r.trace();
            r.check(back.tx == st && back.ad == *ad, "roundtrip", case, || {
                format!(
                    "taking it out again gives genesis ID {:?} hash {}, or other fields differ",
                    back.tx.tx.header.genesis_id,
                    hex(&back.tx.tx.header.genesis_hash.0[..2])
                )
            });
        }
        Some(Err(e)) => {
            r.violation(
                "roundtrip",
                case(),
                format!("cannot be taken out again: {:?}", e),
            );
        }
        None => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn decode(
    r: &mut Report,
    hd: &BlockHeader,
    v: algorsand::protocol::ConsensusVersion,
    bid: &str,
    bh: u8,
    tid: &str,
    th: u8,
    name: &str,
    stib: SignedTxInBlock,
    proto: Option<&algorsand::config::ConsensusParams>,
) {
    r.state();
    r.step();
    let (hi, hh) = (stib.has_genesis_id, stib.has_genesis_hash);
    let case = || {
        format!("protocol {:?}, block genesis ID {:?} hash {}, in-block transaction [{}] with genesis ID {:?} hash {} flags ({},{})", v, bid, bh, name, tid, th, hi, hh)
    };
    let got = match r.no_panic(guard(|| hd.decode_signed_tx(&stib)), "decode-panic", case) {
        Some(g) => g,
        None => return,
    };
    let p = match proto {
        None => {
            r.check(got.is_err(), "unsupported", case, || {
                "a transaction of a block of an unsupported protocol was decoded".into()
            });
            return;
        }
        Some(p) => p,
    };
    let compact = p.support_signed_tx_in_block;
    let ok = !compact || (tid.is_empty() && th == 0 && !(p.require_genesis_hash && hh));
    let sa = match got {
        Err(e) => {
            r.outcome("decode refused");
            r.check(!ok, "decode-refused", case, || {
                format!("refused with {:?}", e)
            });
            return;
        }
        Ok(s) => s,
    };
    r.outcome("decoded");
    if !r.check(ok, "decode-accepted", case, || {
        "accepted although redundant or spelled out".into()
    }) {
        return;
    }
    let mut want = stib.tx.clone();
    if compact {
        if hi {
            want.tx.tx.header.genesis_id = bid.to_string();
        }
        if hh || p.require_genesis_hash {
            want.tx.tx.header.genesis_hash = hash(bh);
        }
    }
    r.check(sa == want, "decode-form", case, || {
        "the decoded transaction is not the one the in-block form denotes".into()
    });
}
