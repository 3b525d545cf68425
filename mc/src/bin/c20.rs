//! C20: transaction well-formedness is exactly the protocol's rule set.
//!
//! For every kind of transaction and several valid base transactions, every combination of up to
//! four fields at values on and around every limit, under every built-in protocol and under
//! synthetic ones (all combinations of the feature switches, small limits): accepted exactly if no
//! rule of the rule book is broken, and refused only with an error that states a broken rule and
//! its actual numbers.

use std::collections::HashMap;

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::crypto::CryptoHash;
use algorsand::data::basics::*;
use algorsand::data::transactions::payment::PaymentError;
use algorsand::data::transactions::*;
use algorsand::protocol::ConsensusVersion;
use mc::model::sha;
use mc::txkit::*;
use mc::*;

const SINK: u8 = 250;
const POOL: u8 = 251;

fn spec() -> SpecialAddresses {
    SpecialAddresses {
        fee_sink: addr(SINK),
        rewards_pool: addr(POOL),
    }
}

fn cert_sender() -> Address {
    Address::new(CryptoHash(sha(format!(
        "{}CompactCertSender",
        algorsand::protocol::SPECIAL_ADDR
    )
    .as_bytes())))
}

/// Every rule the transaction breaks, as the error that reports it.
fn broken(tx: &Transaction, p: &ConsensusParams) -> Vec<InvalidTx> {
    use InvalidTx::*;
    let mut e = vec![];
    let h = &tx.header;
    let mut cert = false;
    match &tx.fields {
        TxFields::Payment(f) => {
            if f.close_remainder_to == Some(h.sender) {
                e.push(InvalidPayment(PaymentError::CannotCloseToSender));
            }
            if h.sender == addr(SINK) {
                if f.receiver != addr(POOL) {
                    e.push(InvalidPayment(PaymentError::CannotSpendFromFeeSink));
                }
                if f.close_remainder_to.is_some() {
                    e.push(InvalidPayment(PaymentError::CannotCloseFeeSink));
                }
            }
        }
        TxFields::Keyreg(f) => {
            let blank = blank_keyreg();
            let no_vote = f.vote_pk == blank.vote_pk;
            let no_sel = f.selection_pk == blank.selection_pk;
            let no_dil = f.vote_key_dilution == 0;
            if p.enable_keyreg_coherency_check {
                if f.vote_first.0 > f.vote_last.0 {
                    e.push(KeyregFirstVotingRoundGreaterThanLastVotingRound);
                }
                let coherent = no_vote == no_sel && no_sel == no_dil;
                if !coherent {
                    e.push(KeyregNonCoherentVotingKeys);
                }
                if no_dil && (f.vote_first.0 != 0 || f.vote_last.0 != 0) {
                    e.push(KeyregOfflineTransactionHasVotingRounds);
                }
                if !no_dil && f.vote_last.0 == 0 {
                    e.push(KeyregGoingOnlineWithZeroVoteLast);
                }
                if !no_dil && f.vote_first.0 as u128 > h.last_valid.0 as u128 + 1 {
                    e.push(KeyregGoingOnlineWithFirstVoteAfterLastValid);
                }
            }
            if f.nonparticipation {
                if !p.support_become_non_participating_transactions {
                    e.push(KeyregUnsupportedSwitchToNonParticipating);
                }
                if !no_vote && !no_sel {
                    e.push(KeyregGoingOnlineWithNonParticipating);
                }
            }
        }
        TxFields::AssetConfig(f) => {
            if !p.asset {
                e.push(AssetTxsNotSupported);
            }
            let a = &f.asset_params;
            if a.asset_name.len() > p.max_asset_name_bytes as usize {
                e.push(AssetNameTooBig(a.asset_name.len(), p.max_asset_name_bytes));
            }
            if a.unit_name.len() > p.max_asset_unit_name_bytes as usize {
                e.push(AssetUnitNameTooBig(
                    a.unit_name.len(),
                    p.max_asset_unit_name_bytes,
                ));
            }
            if a.url.len() > p.max_asset_url_bytes as usize {
                e.push(AssetUrlTooBig(a.url.len(), p.max_asset_url_bytes));
            }
            if a.decimals > p.max_asset_decimals {
                e.push(AssetDecimalsTooHigh(a.decimals, p.max_asset_decimals));
            }
        }
        TxFields::AssetTransfer(_) | TxFields::AssetFreeze(_) => {
            if !p.asset {
                e.push(AssetTxsNotSupported);
            }
        }
        TxFields::AppCall(f) => {
            if !p.application {
                e.push(AppTxsNotSupported);
            }
            let (ap, cs) = (f.approval_program.len(), f.clear_state_program.len());
            let create = f.application_id.0 == 0;
            if !create && f.on_completion != OnCompletion::UpdateApplicationOC && ap + cs > 0 {
                e.push(ChangeProgramWithoutUpdate);
            }
            if !create
                && (f.local_state_schema != StateSchema::default()
                    || f.global_state_schema != StateSchema::default())
            {
                e.push(ChangeAppStateSchema);
            }
            if !create && f.extra_program_pages != 0 {
                e.push(ChangeExtraProgramPages);
            }
            let epp = if !create && p.enable_extra_pages_on_app_update {
                p.max_extra_app_program_pages
            } else {
                f.extra_program_pages
            };
            let (na, nf, ns) = (
                f.accounts.len(),
                f.foreign_apps.len(),
                f.foreign_assets.len(),
            );
            if f.application_args.len() > p.max_app_args as usize {
                e.push(TooManyAppArgs(f.application_args.len(), p.max_app_args));
            }
            let total: usize = f.application_args.iter().map(|a| a.len()).sum();
            if total > p.max_app_total_arg_len as usize {
                e.push(AppArgsTotalTooLong(total, p.max_app_total_arg_len));
            }
            if na > p.max_app_tx_accounts as usize {
                e.push(AccountsTooLong(na, p.max_app_tx_accounts));
            }
            if nf > p.max_app_tx_foreign_apps as usize {
                e.push(ForeignAppTooLong(nf, p.max_app_tx_foreign_apps));
            }
            if ns > p.max_app_tx_foreign_assets as usize {
                e.push(ForeignAssetsTooLong(ns, p.max_app_tx_foreign_assets));
            }
            if na + nf + ns > p.max_app_total_tx_references as usize {
                e.push(TooManyReferences(
                    na + nf + ns,
                    p.max_app_total_tx_references,
                ));
            }
            if f.extra_program_pages > p.max_extra_app_program_pages {
                e.push(TooManyExtraProgramPages(
                    f.extra_program_pages,
                    p.max_extra_app_program_pages,
                ));
            }
            let lim = |n: u32| (1 + epp as u64) * n as u64;
            let (one, both) = (lim(p.max_app_program_len), lim(p.max_app_total_program_len));
            if ap as u64 > one {
                e.push(ApprovalProgramTooLong(ap, one as u32));
            }
            if cs as u64 > one {
                e.push(ClearStateProgramTooLong(cs, one as u32));
            }
            if (ap + cs) as u64 > both {
                e.push(AppProgramsTooLong(ap + cs, both as u32));
            }
            let n = |s: &StateSchema| s.num_uint.saturating_add(s.num_byte_slice);
            if n(&f.local_state_schema) > p.max_local_schema_entries {
                e.push(LocalStateSchemaTooLarge(
                    n(&f.local_state_schema),
                    p.max_local_schema_entries,
                ));
            }
            if n(&f.global_state_schema) > p.max_global_schema_entries {
                e.push(GlobalStateSchemaTooLarge(
                    n(&f.global_state_schema),
                    p.max_global_schema_entries,
                ));
            }
        }
        TxFields::CompactCert(_) => {
            cert = true;
            if p.compact_cert_rounds == 0 {
                e.push(CompactcertTxsNotSupported);
            }
            if h.sender != cert_sender() {
                e.push(CCInvalidSender);
            }
            if h.fee.0 != 0 {
                e.push(CCNonZeroFee);
            }
            if !h.note.is_empty() {
                e.push(CCNonEmptyNote);
            }
            if h.group != hash(0) {
                e.push(CCNonZeroGroup);
            }
            if h.rekey_to != addr(0) {
                e.push(CCNonZeroRekey);
            }
            if h.lease != [0; 32] {
                e.push(CCNonZeroLease);
            }
        }
    }
    if !p.enable_fee_pooling && !cert && h.fee.0 < p.min_tx_fee {
        e.push(FeeLessThanMin(h.fee, MicroAlgos(p.min_tx_fee)));
    }
    if h.last_valid.0 < h.first_valid.0 {
        e.push(BadValidityRange(h.first_valid, h.last_valid));
    } else if h.last_valid.0 - h.first_valid.0 > p.max_tx_life {
        e.push(ExcessiveValidityRange(h.first_valid, h.last_valid));
    }
    if h.note.len() > p.max_tx_note_bytes as usize {
        e.push(NoteTooBig(h.note.len(), p.max_tx_note_bytes));
    }
    if h.sender == addr(POOL) {
        e.push(SenderIsRewardsPool);
    }
    if h.sender == addr(0) {
        e.push(ZeroSender);
    }
    if !p.support_transaction_leases && h.lease != [0; 32] {
        e.push(LeasesNotSupported);
    }
    if !p.support_tx_groups && h.group != hash(0) {
        e.push(GroupsNotSupported);
    }
    if !p.support_rekeying && h.rekey_to != addr(0) {
        e.push(RekeyingNotSupported);
    }
    e
}

type Set<T> = Vec<Box<dyn Fn(&mut T) + Send + Sync>>;

fn each<V: Clone + Send + Sync + 'static>(
    vals: Vec<V>,
    f: fn(&mut Transaction, V),
) -> Set<Transaction> {
    vals.into_iter()
        .map(|v| {
            Box::new(move |t: &mut Transaction| f(t, v.clone()))
                as Box<dyn Fn(&mut Transaction) + Send + Sync>
        })
        .collect()
}

fn headers(p: &ConsensusParams) -> Vec<Slot<Transaction>> {
    let life = p.max_tx_life;
    let fee = p.min_tx_fee;
    vec![
        slot(
            "sender",
            each(
                vec![addr(0), addr(POOL), addr(SINK), cert_sender(), addr(7)],
                |t, v| t.header.sender = v,
            ),
        ),
        slot(
            "fee",
            each(
                vec![0, fee.saturating_sub(1), fee, fee + 1, u64::MAX],
                |t, v| t.header.fee = MicroAlgos(v),
            ),
        ),
        slot(
            "validity",
            each(
                vec![
                    (1, 0),
                    (5, 5 + life),
                    (5, 6 + life),
                    (0, u64::MAX),
                    (u64::MAX, u64::MAX),
                    (u64::MAX, 0),
                    (u64::MAX - life, u64::MAX),
                    (u64::MAX - 1 - life, u64::MAX),
                ],
                |t, (a, b): (u64, u64)| {
                    t.header.first_valid = Round(a);
                    t.header.last_valid = Round(b);
                },
            ),
        ),
        slot(
            "note",
            each(
                vec![1, p.max_tx_note_bytes, p.max_tx_note_bytes + 1],
                |t, n| t.header.note = vec![7; n as usize],
            ),
        ),
        slot(
            "group",
            each(vec![0, 31], |t, i: usize| t.header.group.0[i] = 1),
        ),
        slot(
            "lease",
            each(vec![0, 31], |t, i: usize| t.header.lease[i] = 1),
        ),
        slot(
            "rekey",
            each(vec![addr(1), addr(9)], |t, v| t.header.rekey_to = v),
        ),
        slot(
            "genesis",
            each(vec![1u8, 2], |t, v| {
                t.header.genesis_id = "net".repeat(v as usize);
                t.header.genesis_hash = hash(v);
            }),
        ),
    ]
}

fn keyreg(t: &mut Transaction) -> &mut KeyregFields {
    match &mut t.fields {
        TxFields::Keyreg(f) => f,
        _ => unreachable!(),
    }
}
fn pay(t: &mut Transaction) -> &mut PaymentFields {
    match &mut t.fields {
        TxFields::Payment(f) => f,
        _ => unreachable!(),
    }
}
fn acfg(t: &mut Transaction) -> &mut AssetParams {
    match &mut t.fields {
        TxFields::AssetConfig(f) => &mut f.asset_params,
        _ => unreachable!(),
    }
}
fn appl(t: &mut Transaction) -> &mut AppCallFields {
    match &mut t.fields {
        TxFields::AppCall(f) => f,
        _ => unreachable!(),
    }
}

/// A text of exactly n bytes; with letters of two bytes where they fit.
fn text(n: u32, wide: bool) -> String {
    if wide && n >= 2 {
        format!(
            "{}{}",
            "ä".repeat(n as usize / 2),
            if n % 2 == 1 { "x" } else { "" }
        )
    } else {
        "x".repeat(n as usize)
    }
}

fn around(n: u32) -> Vec<u32> {
    let mut v = vec![0, 1, n.saturating_sub(1), n, n + 1];
    v.sort();
    v.dedup();
    v
}

fn specifics(kind: &str, p: &ConsensusParams) -> Vec<Slot<Transaction>> {
    match kind {
        "pay" => vec![
            slot(
                "receiver",
                each(vec![addr(0), addr(POOL), addr(SINK), addr(7)], |t, v| {
                    pay(t).receiver = v
                }),
            ),
            slot(
                "amount",
                each(vec![1, u64::MAX], |t, v| pay(t).amount = MicroAlgos(v)),
            ),
            slot(
                "close",
                each(
                    vec![
                        Some(addr(1)),
                        Some(addr(7)),
                        Some(addr(SINK)),
                        Some(addr(POOL)),
                        Some(addr(0)),
                    ],
                    |t, v| pay(t).close_remainder_to = v,
                ),
            ),
        ],
        "keyreg" => vec![
            slot(
                "votekey",
                each(vec![0, 1, 2], |t, v: u8| {
                    keyreg(t).vote_pk = if v == 0 {
                        blank_keyreg().vote_pk
                    } else {
                        mc::txkit::keypair(v).public
                    }
                }),
            ),
            slot(
                "selkey",
                each(vec![0, 1], |t, v: u8| {
                    keyreg(t).selection_pk = if v == 0 {
                        blank_keyreg().selection_pk
                    } else {
                        vrf_pk(v)
                    }
                }),
            ),
            slot(
                "dilution",
                each(vec![0, 1, u64::MAX], |t, v| keyreg(t).vote_key_dilution = v),
            ),
            slot(
                "rounds",
                each(
                    vec![
                        (0, 0),
                        (0, 1),
                        (1, 0),
                        (1, 1),
                        (2, 1),
                        (5, 5),
                        (6 + p.max_tx_life, u64::MAX),
                        (7 + p.max_tx_life, u64::MAX),
                        (50, 60),
                        (51, 60),
                        (52, 60),
                        (53, 53),
                        (u64::MAX, u64::MAX),
                        (0, u64::MAX),
                        (u64::MAX, 0),
                    ],
                    |t, (a, b)| {
                        keyreg(t).vote_first = Round(a);
                        keyreg(t).vote_last = Round(b);
                    },
                ),
            ),
            slot(
                "nonpart",
                each(vec![true, false], |t, v| keyreg(t).nonparticipation = v),
            ),
        ],
        "acfg" => {
            let sizes = |n: u32| -> Vec<(u32, bool)> {
                around(n)
                    .into_iter()
                    .flat_map(|n| vec![(n, false), (n, true)])
                    .collect()
            };
            vec![
                slot(
                    "name",
                    each(sizes(p.max_asset_name_bytes), |t, (n, w)| {
                        acfg(t).asset_name = text(n, w)
                    }),
                ),
                slot(
                    "unit",
                    each(sizes(p.max_asset_unit_name_bytes), |t, (n, w)| {
                        acfg(t).unit_name = text(n, w)
                    }),
                ),
                slot(
                    "url",
                    each(sizes(p.max_asset_url_bytes), |t, (n, w)| {
                        acfg(t).url = text(n, w)
                    }),
                ),
                slot(
                    "decimals",
                    each(
                        [around(p.max_asset_decimals), vec![u32::MAX]].concat(),
                        |t, v| acfg(t).decimals = v,
                    ),
                ),
                slot("total", each(vec![u64::MAX], |t, v| acfg(t).total = v)),
            ]
        }
        "appl" => {
            let (one, both, epp) = (
                p.max_app_program_len,
                p.max_app_total_program_len,
                p.max_extra_app_program_pages,
            );
            let mut lens: Vec<u32> = vec![0, 1];
            for e in 0..=epp {
                for n in [(1 + e) * one, (1 + e) * both] {
                    lens.extend([n.saturating_sub(1), n, n + 1]);
                }
            }
            lens.sort();
            lens.dedup();
            let schemas = |n: u64| -> Vec<(u64, u64)> {
                vec![
                    (1, 0),
                    (0, 1),
                    (n, 0),
                    (0, n),
                    (n.saturating_sub(1), 1),
                    (n + 1, 0),
                    (0, n + 1),
                    (n, 1),
                    (u64::MAX, 0),
                    (u64::MAX, 1),
                    (u64::MAX, u64::MAX),
                ]
            };
            let args: Vec<Vec<usize>> = {
                let (n, len) = (p.max_app_args as usize, p.max_app_total_arg_len as usize);
                let mut v = vec![
                    vec![0],
                    vec![0; n],
                    vec![0; n + 1],
                    vec![len],
                    vec![len + 1],
                ];
                if n > 1 {
                    let mut a = vec![0; n];
                    a[0] = len - 1;
                    a[n - 1] = 1;
                    v.push(a.clone());
                    a[n - 1] = 2;
                    v.push(a);
                }
                v
            };
            vec![
                slot(
                    "id",
                    each(vec![0u64, 1, u64::MAX], |t, v| {
                        appl(t).application_id = AppIndex(v)
                    }),
                ),
                slot(
                    "completion",
                    each(
                        vec![
                            OnCompletion::NoOpOC,
                            OnCompletion::OptInOC,
                            OnCompletion::CloseOutOC,
                            OnCompletion::ClearStateOC,
                            OnCompletion::UpdateApplicationOC,
                            OnCompletion::DeleteApplicationOC,
                        ],
                        |t, v| appl(t).on_completion = v,
                    ),
                ),
                slot(
                    "args",
                    each(args, |t, v| {
                        appl(t).application_args = v.iter().map(|n| vec![1; *n]).collect()
                    }),
                ),
                slot(
                    "accounts",
                    each(around(p.max_app_tx_accounts), |t, n| {
                        appl(t).accounts = vec![addr(1); n as usize]
                    }),
                ),
                slot(
                    "apps",
                    each(around(p.max_app_tx_foreign_apps), |t, n| {
                        appl(t).foreign_apps = vec![AppIndex(1); n as usize]
                    }),
                ),
                slot(
                    "assets",
                    each(around(p.max_app_tx_foreign_assets), |t, n| {
                        appl(t).foreign_assets = vec![1; n as usize]
                    }),
                ),
                slot(
                    "pages",
                    each([around(epp), vec![u32::MAX]].concat(), |t, v| {
                        appl(t).extra_program_pages = v
                    }),
                ),
                slot(
                    "approval",
                    each(lens.clone(), |t, n| {
                        appl(t).approval_program = vec![1; n as usize]
                    }),
                ),
                slot(
                    "clear",
                    each(lens, |t, n| {
                        appl(t).clear_state_program = vec![1; n as usize]
                    }),
                ),
                slot(
                    "local",
                    each(schemas(p.max_local_schema_entries), |t, (a, b)| {
                        appl(t).local_state_schema = StateSchema {
                            num_uint: a,
                            num_byte_slice: b,
                        }
                    }),
                ),
                slot(
                    "global",
                    each(schemas(p.max_global_schema_entries), |t, (a, b)| {
                        appl(t).global_state_schema = StateSchema {
                            num_uint: a,
                            num_byte_slice: b,
                        }
                    }),
                ),
            ]
        }
        _ => vec![],
    }
}

/// Transactions that break no rule of a protocol with every feature.
fn bases(kind: &str, p: &ConsensusParams) -> Vec<(&'static str, Transaction)> {
    let mut t = blank(kind);
    t.header.sender = addr(1);
    t.header.fee = MicroAlgos(p.min_tx_fee);
    t.header.first_valid = Round(46);
    t.header.last_valid = Round(50);
    let online = |t: &mut Transaction| {
        let f = keyreg(t);
        f.vote_pk = mc::txkit::keypair(1).public;
        f.selection_pk = vrf_pk(1);
        f.vote_key_dilution = 100;
        f.vote_first = Round(10);
        f.vote_last = Round(1000);
    };
    match kind {
        "keyreg" => {
            let mut on = t.clone();
            online(&mut on);
            let mut off = t.clone();
            keyreg(&mut off).nonparticipation = true;
            vec![("offline", t), ("online", on), ("nonparticipating", off)]
        }
        "pay" => {
            let mut sink = t.clone();
            sink.header.sender = addr(SINK);
            pay(&mut sink).receiver = addr(POOL);
            vec![("pay", t), ("pay from the fee sink", sink)]
        }
        "appl" => {
            let mut call = t.clone();
            appl(&mut call).application_id = AppIndex(5);
            let mut update = call.clone();
            appl(&mut update).on_completion = OnCompletion::UpdateApplicationOC;
            appl(&mut update).approval_program = vec![1];
            appl(&mut t).approval_program = vec![1];
            vec![("create", t), ("call", call), ("update", update)]
        }
        "cert" => {
            t.header.sender = cert_sender();
            t.header.fee = MicroAlgos(0);
            vec![("cert", t)]
        }
        "acfg" => vec![("configure asset", t)],
        "axfer" => vec![("transfer asset", t)],
        _ => vec![("freeze asset", t)],
    }
}

fn judge(
    r: &mut Report,
    t: &Transaction,
    p: &ConsensusParams,
    sp: &SpecialAddresses,
    case: &dyn Fn() -> String,
) {
    r.state();
    r.step();
    let got = match r.no_panic(guard(|| t.is_well_formed(sp, p)), "panic", case) {
        Some(g) => g,
        None => return,
    };
    let want = broken(t, p);
    match got {
        Ok(()) => {
            r.outcome("well-formed");
            r.check(want.is_empty(), "accepts", case, || {
                format!("accepted although {:?}", want)
            });
        }
        Err(e) => {
            if r.check(!want.is_empty(), "refuses", case, || {
                format!("refused with {:?} although no rule is broken", e)
            }) {
                r.check(want.contains(&e), "wrong-reason", case, || {
                    format!("error {:?}, but broken are {:?}", e, want)
                });
            }
            let name = format!("{:?}", e);
            r.outcome(name.split(|c| c == '(' || c == ' ').next().unwrap_or("-"));
        }
    }
    r.trace();
}

/// Around every power of two, and those plus an offset: what a truncated number passes for.
fn dense(offset: u64) -> Vec<u64> {
    let mut v = vec![0, u64::MAX];
    for k in 0..64 {
        for x in [1u64 << k, (1u64 << k).wrapping_add(offset)] {
            v.extend([x.wrapping_sub(1), x, x.wrapping_add(1)]);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// One number at a time over its whole range.
fn numbers(r: &mut Report, name: &str, p: &ConsensusParams) {
    let sp = spec();
    let set = |t: &mut Transaction, field: usize, x: u64| -> bool {
        match (field, &mut t.fields) {
            (0, _) => t.header.fee = MicroAlgos(x),
            (1, _) => t.header.first_valid = Round(x),
            (2, _) => t.header.last_valid = Round(x),
            (3, TxFields::Payment(f)) => f.amount = MicroAlgos(x),
            (3, TxFields::Keyreg(f)) => f.vote_first = Round(x),
            (4, TxFields::Keyreg(f)) => f.vote_last = Round(x),
            (5, TxFields::Keyreg(f)) => f.vote_key_dilution = x,
            (3, TxFields::AssetConfig(f)) => f.asset_params.total = x,
            (4, TxFields::AssetConfig(f)) if x <= u32::MAX as u64 => {
                f.asset_params.decimals = x as u32
            }
            (5, TxFields::AssetConfig(f)) => f.config_asset = x,
            (3, TxFields::AssetTransfer(f)) => f.asset_amount = x,
            (4, TxFields::AssetTransfer(f)) => f.transfer_asset = x,
            (3, TxFields::AssetFreeze(f)) => f.freeze_asset = x,
            (3, TxFields::AppCall(f)) => f.application_id = AppIndex(x),
            (4, TxFields::AppCall(f)) => f.local_state_schema.num_uint = x,
            (5, TxFields::AppCall(f)) => f.local_state_schema.num_byte_slice = x,
            (6, TxFields::AppCall(f)) => f.global_state_schema.num_uint = x,
            (7, TxFields::AppCall(f)) => f.global_state_schema.num_byte_slice = x,
            (8, TxFields::AppCall(f)) if x <= u32::MAX as u64 => f.extra_program_pages = x as u32,
            _ => return false,
        }
        true
    };
    for kind in KINDS {
        for (base_name, base) in bases(kind, p) {
            for field in 0..9 {
                for off in [
                    0,
                    p.max_tx_life,
                    p.max_local_schema_entries,
                    p.max_global_schema_entries,
                ] {
                    for x in dense(off) {
                        let mut t = base.clone();
                        if set(&mut t, field, x) {
                            judge(r, &t, p, &sp, &|| {
                                format!("{} {} with number {} = {}", name, base_name, field, x)
                            });
                        }
                    }
                }
            }
            // windows of every length, from several rounds
            for first in [0, 1, 46, u32::MAX as u64, 1 << 32, 1 << 63] {
                for d in dense(p.max_tx_life) {
                    let mut t = base.clone();
                    t.header.first_valid = Round(first);
                    t.header.last_valid = Round(first.wrapping_add(d));
                    judge(r, &t, p, &sp, &|| {
                        format!("{} {} valid from {} for {}", name, base_name, first, d)
                    });
                    if let TxFields::Keyreg(f) = &mut t.fields {
                        f.vote_first = Round(first.wrapping_add(d).wrapping_add(1));
                        f.vote_last = Round(u64::MAX);
                        judge(r, &t, p, &sp, &|| {
                            format!(
                                "{} {} valid from {} for {}, voting right after",
                                name, base_name, first, d
                            )
                        });
                        let TxFields::Keyreg(f) = &mut t.fields else {
                            unreachable!()
                        };
                        t.header.first_valid = base.header.first_valid;
                        t.header.last_valid = base.header.last_valid;
                        f.vote_first = Round(first);
                        f.vote_last = Round(first.wrapping_add(d));
                        judge(r, &t, p, &sp, &|| {
                            format!("{} {} voting from {} for {}", name, base_name, first, d)
                        });
                    }
                }
            }
        }
    }
}

fn explore(r: &mut Report, name: &str, p: &ConsensusParams, depth: usize) {
    let sp = spec();
    for kind in KINDS {
        let mut slots = specifics(kind, p);
        slots.extend(headers(p));
        let asg = assignments(&slots, depth, 0, 0);
        for (base_name, base) in bases(kind, p) {
            for a in &asg {
                let mut t = base.clone();
                apply(&slots, a, &mut t);
                judge(r, &t, p, &sp, &|| {
                    format!("{} {} with {}", name, base_name, describe(&slots, a))
                });
            }
            // every place with the address of everyone, alone and in pairs
            let places = same_typed_places(kind);
            let people: Vec<usize> = (0..places.len())
                .filter(|i| places[*i].class == 'a')
                .collect();
            for (k, i) in people.iter().enumerate() {
                for j in &people[..=k] {
                    for n in [0, POOL, SINK, 1, 7, 99] {
                        let mut s = stx(base.clone());
                        (places[*i].put)(&mut s, &mut Default::default(), n);
                        (places[*j].put)(&mut s, &mut Default::default(), n);
                        judge(r, &s.tx, p, &sp, &|| {
                            format!(
                                "{} {} with {} and {} of account {}",
                                name, base_name, places[*j].name, places[*i].name, n
                            )
                        });
                    }
                }
            }
        }
        // two equal values, alone and in an otherwise unremarkable transaction
        for (what, s, _) in twins(kind) {
            let mut t = s.tx;
            judge(r, &t, p, &sp, &|| format!("{} {}", name, what));
            t.header.first_valid = Round(46);
            t.header.last_valid = Round(50);
            t.header.fee = MicroAlgos(p.min_tx_fee);
            t.header.note.truncate(1);
            if t.header.sender == addr(0) {
                t.header.sender = addr(1);
            }
            judge(r, &t, p, &sp, &|| {
                format!("{} {}, with a usual header", name, what)
            });
        }
    }
}

/// A protocol with small limits, all different.
fn small(on: u32) -> ConsensusParams {
    let mut p = CONSENSUS.0[&ConsensusVersion::V30].clone();
    p.approved_upgrades = HashMap::new();
    p.min_tx_fee = 10;
    p.max_tx_life = 6;
    p.max_tx_note_bytes = 3;
    p.max_asset_name_bytes = 5;
    p.max_asset_unit_name_bytes = 2;
    p.max_asset_url_bytes = 4;
    p.max_asset_decimals = 3;
    p.max_app_args = 2;
    p.max_app_total_arg_len = 5;
    p.max_app_tx_accounts = 3;
    p.max_app_tx_foreign_apps = 1;
    p.max_app_tx_foreign_assets = 2;
    p.max_app_total_tx_references = 4;
    p.max_extra_app_program_pages = 1;
    p.max_app_program_len = 4;
    p.max_app_total_program_len = 6;
    p.max_local_schema_entries = 3;
    p.max_global_schema_entries = 4;
    let f = |i: u32| on >> i & 1 == 1;
    p.enable_keyreg_coherency_check = f(0);
    p.support_become_non_participating_transactions = f(1);
    p.asset = f(2);
    p.application = f(3);
    p.enable_extra_pages_on_app_update = f(4);
    p.compact_cert_rounds = if f(5) { 16 } else { 0 };
    p.enable_fee_pooling = f(6);
    p.support_transaction_leases = f(7);
    p.support_tx_groups = f(8);
    p.support_rekeying = f(9);
    p
}

fn main() {
    let _ = (mc::txkit::keypair(1), mc::txkit::keypair(2), vrf_pk(1));
    let mut r = Report::new("C20");
    r.check(
        *COMPACT_CERT_SENDER == cert_sender(),
        "cert-sender",
        || "compact cert sender".into(),
        || "not the documented address".into(),
    );
    let mut jobs: Vec<(String, ConsensusParams, usize)> = vec![];
    let all = 1023u32;
    for on in 0..=all {
        let off = 10 - on.count_ones();
        // everything on, and each feature off alone: three fields at once; other combinations fewer
        let depth = match off {
            0 => 4,
            // without fee pooling, otherwise complete: what most real protocols look like
            1 => tier(if on == all & !64 { 4 } else { 3 }, 4),
            2 => tier(2, 3),
            _ => tier(1, 2),
        };
        jobs.push((format!("features {:010b}", on), small(on), depth));
    }
    for v in versions() {
        if let Some(p) = CONSENSUS.0.get(&v) {
            jobs.push((format!("{:?}", v), p.clone(), 3));
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.2));
    r.space("protocols", jobs.len() as u64);
    r.space("fields changed at once", tier("4 under the complete small protocols, 3 under built-in ones and with one feature off, 2-1 otherwise", "4 / 4 / 3-2"));
    parallel(&mut r, jobs, |r, (name, p, depth)| {
        explore(r, name, p, *depth);
        if *depth >= 3 || thorough() {
            numbers(r, name, p);
        }
    });
    r.space("numbers", "each number of a transaction around every power of two and every power of two plus a limit");
    r.assume("no protocol has limits near 2^32");
    r.finish()
}
