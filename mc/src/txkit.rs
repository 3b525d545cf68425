//! Building blocks for transactions, in-block transactions and block headers, as lists of slots:
//! each slot names one field (or part of one) and the values it can be given.

use algorsand::crypto::{self, hashable::CryptoHash, MultisigSignature, MultisigSubsig};
use algorsand::data::basics::*;
use algorsand::data::bookkeeping::*;
use algorsand::data::committee::Seed;
use algorsand::data::transactions::*;
use algorsand::protocol::{CompactCertType, ConsensusVersion};

pub fn addr(n: u8) -> Address {
    let mut a = [0; 32];
    a[0] = n;
    a[31] = n.wrapping_mul(7);
    Address(a)
}

pub fn hash(n: u8) -> CryptoHash {
    let mut a = [0; 32];
    a[0] = n;
    a[30] = n.wrapping_mul(5);
    CryptoHash(a)
}

/// A valid, deterministic ed25519 key.
pub fn keypair(n: u8) -> crypto::Keypair {
    let secret = ed25519_dalek::SecretKey::from_bytes(&[n; 32]).unwrap();
    let public = (&secret).into();
    crypto::Keypair { secret, public }
}

pub fn vrf_pk(n: u8) -> crypto::VrfPublicKey {
    if n == 0 {
        return Default::default();
    }
    // VrfPublicKey's bytes are private; its encoding is that of the bytes
    let bytes: Vec<u8> = (0..32u8).map(|i| if i == 0 { n } else { i }).collect();
    serde_json::from_value(serde_json::json!(bytes)).expect("VRF public key")
}

pub fn sig(n: u8) -> crypto::Signature {
    let mut b = [n; 64];
    b[63] = n & 0x0f;
    crypto::Signature::from_bytes(&b).expect("signature")
}

pub fn empty_sig() -> crypto::Signature {
    crypto::Signature::new([0; 64])
}

pub struct Slot<T> {
    pub name: &'static str,
    pub set: Vec<Box<dyn Fn(&mut T) + Send + Sync>>,
}

pub fn slot<T>(name: &'static str, set: Vec<Box<dyn Fn(&mut T) + Send + Sync>>) -> Slot<T> {
    Slot { name, set }
}

#[macro_export]
macro_rules! slots {
    ($t:ty; $( $name:literal : |$x:ident| $( $e:expr ),+ );+ $(;)?) => {
        vec![ $( $crate::txkit::slot::<$t>($name, vec![ $( Box::new(|$x: &mut $t| { $e; }) ),+ ]) ),+ ]
    };
}

/// Wraps slots of a part into slots of the whole.
pub fn lift<T: 'static, U: 'static>(v: Vec<Slot<T>>, get: fn(&mut U) -> &mut T) -> Vec<Slot<U>> {
    v.into_iter()
        .map(|s| Slot {
            name: s.name,
            set: s
                .set
                .into_iter()
                .map(|f| Box::new(move |u: &mut U| f(get(u))) as Box<dyn Fn(&mut U) + Send + Sync>)
                .collect(),
        })
        .collect()
}

pub fn header_slots() -> Vec<Slot<Header>> {
    slots![Header;
        "snd": |h| h.sender = addr(1), h.sender = addr(200);
        "fee": |h| h.fee = MicroAlgos(1000), h.fee = MicroAlgos(u64::MAX);
        "fv": |h| h.first_valid = Round(1), h.first_valid = Round(1 << 40);
        "lv": |h| h.last_valid = Round(1), h.last_valid = Round(u64::MAX);
        "note": |h| h.note = vec![0], h.note = vec![0, 0], h.note = vec![200; 300];
        "gen": |h| h.genesis_id = "a".into(), h.genesis_id = "a\u{e9}".into();
        "gh": |h| h.genesis_hash = hash(1), h.genesis_hash = hash(255);
        "grp": |h| h.group = hash(1), h.group = hash(255);
        "lx": |h| h.lease[31] = 1, h.lease[0] = 200;
        "rekey": |h| h.rekey_to = addr(1), h.rekey_to = addr(200);
    ]
}

pub fn blank_params() -> AssetParams {
    AssetParams {
        total: 0,
        decimals: 0,
        default_frozen: false,
        unit_name: String::new(),
        asset_name: String::new(),
        url: String::new(),
        metadata_hash: [0; 32],
        manager: addr(0),
        reserve: addr(0),
        freeze: addr(0),
        clawback: addr(0),
    }
}

pub fn blank_keyreg() -> KeyregFields {
    KeyregFields {
        vote_pk: Default::default(),
        selection_pk: Default::default(),
        vote_first: Round(0),
        vote_last: Round(0),
        vote_key_dilution: 0,
        nonparticipation: false,
    }
}

pub const KINDS: [&str; 7] = ["keyreg", "pay", "acfg", "axfer", "afrz", "appl", "cert"];

/// A transaction of the named kind with every field unset.
pub fn blank(kind: &str) -> Transaction {
    let fields = match kind {
        "keyreg" => TxFields::Keyreg(blank_keyreg()),
        "pay" => TxFields::Payment(Default::default()),
        "acfg" => TxFields::AssetConfig(AssetConfigFields {
            config_asset: 0,
            asset_params: blank_params(),
        }),
        "axfer" => TxFields::AssetTransfer(AssetTransferFields {
            transfer_asset: 0,
            asset_amount: 0,
            asset_sender: addr(0),
            asset_receiver: addr(0),
            asset_close_to: addr(0),
        }),
        "afrz" => TxFields::AssetFreeze(AssetFreezeFields {
            freeze_account: addr(0),
            freeze_asset: 0,
            asset_frozen: false,
        }),
        "appl" => TxFields::AppCall(Default::default()),
        "cert" => TxFields::CompactCert(CompactCertFields {
            cert_round: Round(0),
            cert_type: CompactCertType::Basic,
        }),
        _ => unreachable!(),
    };
    Transaction {
        header: Default::default(),
        fields,
    }
}

macro_rules! of {
    ($t:ident, $v:path) => {
        |t: &mut Transaction| match &mut t.fields {
            $v(f) => f,
            _ => unreachable!(),
        }
    };
}

/// The slots of the fields that are specific to the named kind of transaction.
pub fn kind_slots(kind: &str) -> Vec<Slot<Transaction>> {
    match kind {
        "keyreg" => lift(
            slots![KeyregFields;
                "votekey": |f| f.vote_pk = keypair(1).public, f.vote_pk = keypair(2).public;
                "selkey": |f| f.selection_pk = vrf_pk(1), f.selection_pk = vrf_pk(255);
                "votefst": |f| f.vote_first = Round(1), f.vote_first = Round(u64::MAX);
                "votelst": |f| f.vote_last = Round(1), f.vote_last = Round(u64::MAX);
                "votekd": |f| f.vote_key_dilution = 1, f.vote_key_dilution = u64::MAX;
                "nonpart": |f| f.nonparticipation = true;
            ],
            of!(t, TxFields::Keyreg),
        ),
        "pay" => lift(
            slots![PaymentFields;
                "rcv": |f| f.receiver = addr(1), f.receiver = addr(200);
                "amt": |f| f.amount = MicroAlgos(1), f.amount = MicroAlgos(u64::MAX);
                "close": |f| f.close_remainder_to = Some(addr(1)), f.close_remainder_to = Some(addr(200));
            ],
            of!(t, TxFields::Payment),
        ),
        "acfg" => lift(
            slots![AssetConfigFields;
                "caid": |f| f.config_asset = 1, f.config_asset = u64::MAX;
                "t": |f| f.asset_params.total = 1, f.asset_params.total = u64::MAX;
                "dc": |f| f.asset_params.decimals = 1, f.asset_params.decimals = u32::MAX;
                "df": |f| f.asset_params.default_frozen = true;
                "un": |f| f.asset_params.unit_name = "a".into(), f.asset_params.unit_name = "ab".into();
                "an": |f| f.asset_params.asset_name = "a".into(), f.asset_params.asset_name = "ab".into();
                "au": |f| f.asset_params.url = "a".into(), f.asset_params.url = "ab".into();
                "am": |f| f.asset_params.metadata_hash[31] = 1, f.asset_params.metadata_hash[0] = 200;
                "m": |f| f.asset_params.manager = addr(1), f.asset_params.manager = addr(200);
                "r": |f| f.asset_params.reserve = addr(1), f.asset_params.reserve = addr(200);
                "f": |f| f.asset_params.freeze = addr(1), f.asset_params.freeze = addr(200);
                "c": |f| f.asset_params.clawback = addr(1), f.asset_params.clawback = addr(200);
            ],
            of!(t, TxFields::AssetConfig),
        ),
        "axfer" => lift(
            slots![AssetTransferFields;
                "xaid": |f| f.transfer_asset = 1, f.transfer_asset = u64::MAX;
                "aamt": |f| f.asset_amount = 1, f.asset_amount = u64::MAX;
                "asnd": |f| f.asset_sender = addr(1), f.asset_sender = addr(200);
                "arcv": |f| f.asset_receiver = addr(1), f.asset_receiver = addr(200);
                "aclose": |f| f.asset_close_to = addr(1), f.asset_close_to = addr(200);
            ],
            of!(t, TxFields::AssetTransfer),
        ),
        "afrz" => lift(
            slots![AssetFreezeFields;
                "fadd": |f| f.freeze_account = addr(1), f.freeze_account = addr(200);
                "faid": |f| f.freeze_asset = 1, f.freeze_asset = u64::MAX;
                "afrz": |f| f.asset_frozen = true;
            ],
            of!(t, TxFields::AssetFreeze),
        ),
        "appl" => lift(
            slots![AppCallFields;
                "apid": |f| f.application_id = AppIndex(1), f.application_id = AppIndex(u64::MAX);
                "apan": |f| f.on_completion = OnCompletion::OptInOC, f.on_completion = OnCompletion::CloseOutOC,
                    f.on_completion = OnCompletion::ClearStateOC, f.on_completion = OnCompletion::UpdateApplicationOC,
                    f.on_completion = OnCompletion::DeleteApplicationOC;
                "apaa": |f| f.application_args = vec![vec![1, 2]], f.application_args = vec![vec![1], vec![2]],
                    f.application_args = vec![vec![]], f.application_args = vec![vec![], vec![]], f.application_args = vec![vec![1, 2], vec![]];
                "apat": |f| f.accounts = vec![addr(1)], f.accounts = vec![addr(1), addr(0)], f.accounts = vec![addr(0)], f.accounts = vec![addr(0), addr(1)];
                "apfa": |f| f.foreign_apps = vec![AppIndex(1)], f.foreign_apps = vec![AppIndex(1), AppIndex(2)], f.foreign_apps = vec![AppIndex(0)];
                "apas": |f| f.foreign_assets = vec![1], f.foreign_assets = vec![2, 1], f.foreign_assets = vec![0];
                "apls": |f| f.local_state_schema.num_uint = 1, f.local_state_schema.num_byte_slice = 1,
                    f.local_state_schema = StateSchema { num_uint: 1, num_byte_slice: 1 };
                "apgs": |f| f.global_state_schema.num_uint = 1, f.global_state_schema.num_byte_slice = 1,
                    f.global_state_schema = StateSchema { num_uint: 1, num_byte_slice: 1 };
                "apap": |f| f.approval_program = vec![1], f.approval_program = vec![1, 2], f.approval_program = vec![0x80; 40];
                "apsu": |f| f.clear_state_program = vec![1], f.clear_state_program = vec![1, 2], f.clear_state_program = vec![0x80; 40];
                "apep": |f| f.extra_program_pages = 1, f.extra_program_pages = u32::MAX;
            ],
            of!(t, TxFields::AppCall),
        ),
        "cert" => lift(
            slots![CompactCertFields;
                "certrnd": |f| f.cert_round = Round(1), f.cert_round = Round(u64::MAX);
            ],
            of!(t, TxFields::CompactCert),
        ),
        _ => unreachable!(),
    }
}

pub fn tx_slots(kind: &str) -> Vec<Slot<Transaction>> {
    let mut v = kind_slots(kind);
    v.extend(lift(header_slots(), |t: &mut Transaction| &mut t.header));
    v
}

pub fn msig(n: u8) -> MultisigSignature {
    MultisigSignature {
        version: 1,
        threshold: n,
        subsigs: (0..n)
            .map(|i| MultisigSubsig {
                key: keypair(i + 1).public,
                sig: if i % 2 == 0 { Some(sig(i + 1)) } else { None },
            })
            .collect(),
    }
}

pub fn blank_lsig() -> LogicSig {
    LogicSig {
        logic: vec![],
        sig: empty_sig(),
        msig: Default::default(),
        args: vec![],
    }
}

pub fn stx(tx: Transaction) -> SignedTx {
    SignedTx {
        sig: empty_sig(),
        msig: None,
        lsig: None,
        tx,
        auth_addr: Default::default(),
    }
}

fn l(s: &mut SignedTx) -> &mut LogicSig {
    s.lsig.get_or_insert_with(blank_lsig)
}

/// Slots of the signature part of a signed transaction.
pub fn stx_slots() -> Vec<Slot<SignedTx>> {
    slots![SignedTx;
        "sig": |s| s.sig = sig(1), s.sig = sig(2);
        "msig": |s| s.msig = Some(Default::default()), s.msig = Some(msig(1)), s.msig = Some(msig(2)), s.msig = Some(msig(3));
        "lsig": |s| s.lsig = Some(blank_lsig());
        "lsig.l": |s| l(s).logic = vec![1], l(s).logic = vec![1, 2];
        "lsig.sig": |s| l(s).sig = sig(1), l(s).sig = sig(2);
        "lsig.msig": |s| l(s).msig = msig(1), l(s).msig = msig(2);
        "lsig.arg": |s| l(s).args = vec![vec![1, 2]], l(s).args = vec![vec![1], vec![2]], l(s).args = vec![vec![]];
        "auth": |s| s.auth_addr = addr(1), s.auth_addr = addr(200);
    ]
}

pub fn state_delta(entries: &[(&str, &str, &[u8], u64)]) -> StateDelta {
    let s = format!(
        "{{{}}}",
        entries
            .iter()
            .map(|(k, a, b, u)| format!(
                "{}:{{\"action\":\"{}\",\"bytes\":{:?},\"uint\":{}}}",
                serde_json::to_string(k).unwrap(),
                a,
                b,
                u
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    serde_json::from_str(&s).expect("state delta")
}

pub fn teal_kv(entries: &[(&str, &str, &[u8], u64)]) -> TealKeyValue {
    let s = format!(
        "{{{}}}",
        entries
            .iter()
            .map(|(k, t, b, u)| format!(
                "{}:{{\"teal_type\":\"{}\",\"bytes\":{:?},\"uint\":{}}}",
                serde_json::to_string(k).unwrap(),
                t,
                b,
                u
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    serde_json::from_str(&s).expect("key/value store")
}

fn sd(n: u8) -> StateDelta {
    match n {
        1 => state_delta(&[("a", "SetUint", &[], 1)]),
        2 => state_delta(&[("a", "SetBytes", &[1], 0), ("b", "Delete", &[], 0)]),
        3 => state_delta(&[("a", "Delete", &[], 0)]),
        _ => state_delta(&[]),
    }
}

fn stxad(kind: &str) -> SignedTxWithAD {
    SignedTxWithAD {
        tx: stx(blank(kind)),
        ad: Default::default(),
    }
}

pub fn ad_slots() -> Vec<Slot<ApplyData>> {
    slots![ApplyData;
        "ca": |a| a.closing_amount = MicroAlgos(1), a.closing_amount = MicroAlgos(u64::MAX);
        "aca": |a| a.asset_closing_amount = 1, a.asset_closing_amount = u64::MAX;
        "rs": |a| a.sender_rewards = MicroAlgos(1), a.sender_rewards = MicroAlgos(u64::MAX);
        "rr": |a| a.receiver_rewards = MicroAlgos(1), a.receiver_rewards = MicroAlgos(u64::MAX);
        "rc": |a| a.close_rewards = MicroAlgos(1), a.close_rewards = MicroAlgos(u64::MAX);
        "caid": |a| a.config_asset = 1, a.config_asset = u64::MAX;
        "apid": |a| a.application_id = AppIndex(1), a.application_id = AppIndex(u64::MAX);
        "gd": |a| a.eval_delta.global_delta = sd(1), a.eval_delta.global_delta = sd(2), a.eval_delta.global_delta = sd(3);
        "ld": |a| { a.eval_delta.local_deltas.insert(0, sd(0)); }, { a.eval_delta.local_deltas.insert(0, sd(2)); },
            { a.eval_delta.local_deltas.insert(1, sd(0)); },
            { a.eval_delta.local_deltas.insert(7, sd(1)); a.eval_delta.local_deltas.insert(300, sd(2)); };
        "lg": |a| a.eval_delta.logs = vec!["a".into()], a.eval_delta.logs = vec!["".into()], a.eval_delta.logs = vec!["a".into(), "".into()];
        "itx": |a| a.eval_delta.inner_txs = vec![stxad("pay")],
            a.eval_delta.inner_txs = vec![stxad("pay"), stxad("pay")],
            {
                let mut i = stxad("appl");
                i.ad.eval_delta.inner_txs = vec![stxad("keyreg")];
                i.ad.eval_delta.global_delta = sd(2);
                i.tx.msig = Some(msig(2));
                a.eval_delta.inner_txs = vec![i];
            };
    ]
}

/// Slots of an in-block transaction.
pub fn stib_slots() -> Vec<Slot<SignedTxInBlock>> {
    let mut v = lift(ad_slots(), |s: &mut SignedTxInBlock| &mut s.tx.ad);
    v.extend(slots![SignedTxInBlock;
        "hgi": |s| s.has_genesis_id = true;
        "hgh": |s| s.has_genesis_hash = true;
    ]);
    v
}

pub fn stib(tx: SignedTx) -> SignedTxInBlock {
    SignedTxInBlock {
        tx: SignedTxWithAD {
            tx,
            ad: Default::default(),
        },
        has_genesis_id: false,
        has_genesis_hash: false,
    }
}

fn cc(h: &mut BlockHeader) -> &mut CompactCertState {
    h.compact_certs
        .entry(CompactCertType::Basic)
        .or_insert(CompactCertState {
            compactcert_voters: Default::default(),
            compactcert_voters_total: MicroAlgos(0),
            compactcert_next_round: Round(0),
        })
}

pub fn block_header_slots() -> Vec<Slot<BlockHeader>> {
    use ConsensusVersion::*;
    slots![BlockHeader;
        "rnd": |h| h.round = Round(1), h.round = Round(u64::MAX);
        "prev": |h| h.branch = hash(1), h.branch = hash(255);
        "seed": |h| h.seed = Seed([1; 32]), h.seed = Seed([255; 32]);
        "txn": |h| h.tx_root = hash(1), h.tx_root = hash(255);
        "ts": |h| h.timestamp = 1, h.timestamp = u64::MAX;
        "gen": |h| h.genesis_id = "a".into(), h.genesis_id = "ab".into();
        "gh": |h| h.genesis_hash = hash(1), h.genesis_hash = hash(255);
        "fees": |h| h.rewards_state.fee_sink = addr(1), h.rewards_state.fee_sink = addr(200);
        "rwd": |h| h.rewards_state.rewards_pool = addr(1), h.rewards_state.rewards_pool = addr(200);
        "earn": |h| h.rewards_state.rewards_level = 1, h.rewards_state.rewards_level = u64::MAX;
        "rate": |h| h.rewards_state.rewards_rate = 1, h.rewards_state.rewards_rate = u64::MAX;
        "frac": |h| h.rewards_state.rewards_residue = 1, h.rewards_state.rewards_residue = u64::MAX;
        "rwcalr": |h| h.rewards_state.rewards_recalculation_round = Round(1), h.rewards_state.rewards_recalculation_round = Round(u64::MAX);
        "proto": |h| h.upgrade_state.current_protocol = V7, h.upgrade_state.current_protocol = Future;
        "nextproto": |h| h.upgrade_state.next_protocol = Some(V7), h.upgrade_state.next_protocol = Some(V30);
        "nextyes": |h| h.upgrade_state.next_protocol_approvals = 1, h.upgrade_state.next_protocol_approvals = u64::MAX;
        "nextbefore": |h| h.upgrade_state.next_protocol_vote_before = Round(1), h.upgrade_state.next_protocol_vote_before = Round(u64::MAX);
        "nextswitch": |h| h.upgrade_state.next_protocol_switch_on = Round(1), h.upgrade_state.next_protocol_switch_on = Round(u64::MAX);
        "upgradeprop": |h| h.upgrade_vote.upgrade_propose = V7, h.upgrade_vote.upgrade_propose = Future;
        "upgradedelay": |h| h.upgrade_vote.upgrade_delay = Round(1), h.upgrade_vote.upgrade_delay = Round(u64::MAX);
        "upgradeyes": |h| h.upgrade_vote.upgrade_approve = true;
        "tc": |h| h.tx_counter = 1, h.tx_counter = u64::MAX;
        "cc": |h| { cc(h); };
        "cc.v": |h| cc(h).compactcert_voters = hash(1), cc(h).compactcert_voters = hash(255);
        "cc.t": |h| cc(h).compactcert_voters_total = MicroAlgos(1), cc(h).compactcert_voters_total = MicroAlgos(u64::MAX);
        "cc.n": |h| cc(h).compactcert_next_round = Round(1), cc(h).compactcert_next_round = Round(u64::MAX);
    ]
}

pub fn account_slots() -> Vec<Slot<AccountData>> {
    slots![AccountData;
        "onl": |a| a.status = Status::Online, a.status = Status::NotParticipating;
        "algo": |a| a.micro_algos = MicroAlgos(1), a.micro_algos = MicroAlgos(u64::MAX);
        "ebase": |a| a.rewards_base = 1, a.rewards_base = u64::MAX;
        "ern": |a| a.rewarded_micro_algos = MicroAlgos(1), a.rewarded_micro_algos = MicroAlgos(u64::MAX);
        "vote": |a| a.vote_id = keypair(1).public, a.vote_id = keypair(2).public;
        "sel": |a| a.selection_id = vrf_pk(1), a.selection_id = vrf_pk(2);
        "voteFst": |a| a.vote_first_valid = Round(1), a.vote_first_valid = Round(u64::MAX);
        "voteLst": |a| a.vote_last_valid = Round(1), a.vote_last_valid = Round(u64::MAX);
        "voteKD": |a| a.vote_key_dilution = 1, a.vote_key_dilution = u64::MAX;
        "apar": |a| { a.asset_params.insert(1, blank_params()); },
            { let mut p = blank_params(); p.total = 1; a.asset_params.insert(1, p); a.asset_params.insert(2, blank_params()); };
        "asset": |a| { a.assets.insert(1, AssetHolding { amount: 0, frozen: false }); },
            { a.assets.insert(1, AssetHolding { amount: 1, frozen: true }); a.assets.insert(3, AssetHolding { amount: 0, frozen: false }); };
        "spend": |a| a.auth_addr = addr(1), a.auth_addr = addr(200);
        "appl": |a| { a.app_local_states.insert(AppIndex(1), AppLocalState { schema: Default::default(), key_value: teal_kv(&[]) }); },
            { a.app_local_states.insert(AppIndex(1), AppLocalState { schema: StateSchema { num_uint: 1, num_byte_slice: 2 },
                key_value: teal_kv(&[("k", "Uint", &[], 7), ("j", "Bytes", &[1], 0)]) }); };
        "appp": |a| { a.app_params.insert(AppIndex(1), AppParams { approval_program: vec![1], clear_state_program: vec![2],
                global_state: teal_kv(&[("k", "Uint", &[], 7)]),
                state_schemas: StateSchemas { local_state_schema: StateSchema { num_uint: 1, num_byte_slice: 2 }, global_state_schema: Default::default() },
                extra_program_pages: 3 }); };
        "tsch": |a| a.total_app_schema.num_uint = 1, a.total_app_schema.num_byte_slice = 1;
        "teap": |a| a.total_extra_app_pages = 1, a.total_extra_app_pages = u32::MAX;
    ]
}

/// A place in a signed transaction and its effects that holds a value of some class: the function
/// puts the `n`th value there.
pub struct Place {
    pub name: &'static str,
    pub class: char,
    pub put: Box<dyn Fn(&mut SignedTx, &mut ApplyData, u8) + Send + Sync>,
}

macro_rules! places {
    ($v:ident; $( $c:literal $name:literal : |$t:ident, $a:ident, $n:ident| $e:expr );+ $(;)?) => {{
        $( $v.push(Place { name: $name, class: $c, put: Box::new(|$t: &mut SignedTx, $a: &mut ApplyData, $n: u8| { let _ = (&$a, $n); $e; }) }); )+
    }};
}

macro_rules! in_fields {
    ($t:ident, $v:path, |$f:ident| $e:expr) => {
        if let $v($f) = &mut $t.tx.fields {
            $e;
        }
    };
}

/// All places of a kind of transaction that can hold equal values: 'a' 32 bytes, 'u' a number,
/// 's' a text, 'b' bytes.
pub fn same_typed_places(kind: &str) -> Vec<Place> {
    let mut v: Vec<Place> = vec![];
    places![v;
        'a' "sender": |t, a, n| t.tx.header.sender = addr(n);
        'a' "genesis hash": |t, a, n| t.tx.header.genesis_hash = CryptoHash(addr(n).0);
        'a' "group": |t, a, n| t.tx.header.group = CryptoHash(addr(n).0);
        'a' "lease": |t, a, n| t.tx.header.lease = addr(n).0;
        'a' "rekey": |t, a, n| t.tx.header.rekey_to = addr(n);
        'a' "authoriser": |t, a, n| t.auth_addr = addr(n);
        'b' "note": |t, a, n| t.tx.header.note = vec![n; 3];
        'b' "logic": |t, a, n| t.lsig.get_or_insert_with(blank_lsig).logic = vec![n; 3];
        'b' "logic argument": |t, a, n| t.lsig.get_or_insert_with(blank_lsig).args.push(vec![n; 3]);
        'u' "fee": |t, a, n| t.tx.header.fee = MicroAlgos(n as u64 + 1000);
        'u' "first valid": |t, a, n| t.tx.header.first_valid = Round(n as u64 + 1000);
        'u' "last valid": |t, a, n| t.tx.header.last_valid = Round(n as u64 + 1000);
        'u' "closing amount": |t, a, n| a.closing_amount = MicroAlgos(n as u64 + 1000);
        'u' "asset closing amount": |t, a, n| a.asset_closing_amount = n as u64 + 1000;
        'u' "sender rewards": |t, a, n| a.sender_rewards = MicroAlgos(n as u64 + 1000);
        'u' "receiver rewards": |t, a, n| a.receiver_rewards = MicroAlgos(n as u64 + 1000);
        'u' "close rewards": |t, a, n| a.close_rewards = MicroAlgos(n as u64 + 1000);
        'u' "created asset": |t, a, n| a.config_asset = n as u64 + 1000;
        'u' "created application": |t, a, n| a.application_id = AppIndex(n as u64 + 1000);
        'g' "signature": |t, a, n| t.sig = sig(n);
        'g' "logic signature": |t, a, n| t.lsig.get_or_insert_with(blank_lsig).sig = sig(n);
        'm' "multisignature": |t, a, n| { let mut m = msig(2); m.threshold = n; t.msig = Some(m) };
        'm' "logic multisignature": |t, a, n| { let mut m = msig(2); m.threshold = n; t.lsig.get_or_insert_with(blank_lsig).msig = m };
        's' "genesis ID": |t, a, n| t.tx.header.genesis_id = n.to_string();
        's' "log": |t, a, n| a.eval_delta.logs = vec![n.to_string()];
    ];
    match kind {
        "keyreg" => places![v;
            'u' "vote first": |t, a, n| in_fields!(t, TxFields::Keyreg, |f| f.vote_first = Round(n as u64 + 1000));
            'u' "vote last": |t, a, n| in_fields!(t, TxFields::Keyreg, |f| f.vote_last = Round(n as u64 + 1000));
            'u' "dilution": |t, a, n| in_fields!(t, TxFields::Keyreg, |f| f.vote_key_dilution = n as u64 + 1000);
        ],
        "pay" => places![v;
            'a' "receiver": |t, a, n| in_fields!(t, TxFields::Payment, |f| f.receiver = addr(n));
            'a' "close to": |t, a, n| in_fields!(t, TxFields::Payment, |f| f.close_remainder_to = Some(addr(n)));
            'u' "amount": |t, a, n| in_fields!(t, TxFields::Payment, |f| f.amount = MicroAlgos(n as u64 + 1000));
        ],
        "acfg" => places![v;
            'a' "manager": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.manager = addr(n));
            'a' "reserve": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.reserve = addr(n));
            'a' "freeze": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.freeze = addr(n));
            'a' "clawback": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.clawback = addr(n));
            'a' "metadata": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.metadata_hash = addr(n).0);
            'u' "asset": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.config_asset = n as u64 + 1000);
            'u' "total": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.total = n as u64 + 1000);
            'u' "decimals": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.decimals = n as u32 + 1000);
            's' "unit": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.unit_name = n.to_string());
            's' "asset name": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.asset_name = n.to_string());
            's' "url": |t, a, n| in_fields!(t, TxFields::AssetConfig, |f| f.asset_params.url = n.to_string());
        ],
        "axfer" => places![v;
            'a' "asset sender": |t, a, n| in_fields!(t, TxFields::AssetTransfer, |f| f.asset_sender = addr(n));
            'a' "asset receiver": |t, a, n| in_fields!(t, TxFields::AssetTransfer, |f| f.asset_receiver = addr(n));
            'a' "asset close to": |t, a, n| in_fields!(t, TxFields::AssetTransfer, |f| f.asset_close_to = addr(n));
            'u' "asset": |t, a, n| in_fields!(t, TxFields::AssetTransfer, |f| f.transfer_asset = n as u64 + 1000);
            'u' "asset amount": |t, a, n| in_fields!(t, TxFields::AssetTransfer, |f| f.asset_amount = n as u64 + 1000);
        ],
        "afrz" => places![v;
            'a' "frozen account": |t, a, n| in_fields!(t, TxFields::AssetFreeze, |f| f.freeze_account = addr(n));
            'u' "asset": |t, a, n| in_fields!(t, TxFields::AssetFreeze, |f| f.freeze_asset = n as u64 + 1000);
        ],
        "appl" => places![v;
            'a' "account": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.accounts.push(addr(n)));
            'a' "another account": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.accounts.push(addr(n)));
            'u' "application": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.application_id = AppIndex(n as u64 + 1000));
            'u' "foreign application": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.foreign_apps.push(AppIndex(n as u64 + 1000)));
            'u' "another foreign application": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.foreign_apps.push(AppIndex(n as u64 + 1000)));
            'u' "foreign asset": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.foreign_assets.push(n as u64 + 1000));
            'u' "another foreign asset": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.foreign_assets.push(n as u64 + 1000));
            'u' "local integers": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.local_state_schema.num_uint = n as u64 + 1000);
            'u' "local byte slices": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.local_state_schema.num_byte_slice = n as u64 + 1000);
            'u' "global integers": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.global_state_schema.num_uint = n as u64 + 1000);
            'u' "global byte slices": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.global_state_schema.num_byte_slice = n as u64 + 1000);
            'b' "argument": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.application_args.push(vec![n; 3]));
            'b' "another argument": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.application_args.push(vec![n; 3]));
            'b' "approval program": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.approval_program = vec![n; 3]);
            'b' "clear state program": |t, a, n| in_fields!(t, TxFields::AppCall, |f| f.clear_state_program = vec![n; 3]);
        ],
        "cert" => places![v;
            'u' "certificate round": |t, a, n| in_fields!(t, TxFields::CompactCert, |f| f.cert_round = Round(n as u64 + 1000));
        ],
        _ => unreachable!(),
    }
    v
}

/// Transactions of a kind two of whose values are the same: alone, and among different ones in all
/// other places; and those with all values different and all the same.
pub fn twins(kind: &str) -> Vec<(String, SignedTx, ApplyData)> {
    let places = same_typed_places(kind);
    let make = |f: &dyn Fn(usize) -> Option<u8>| {
        let (mut t, mut a) = (stx(blank(kind)), ApplyData::default());
        for (i, p) in places.iter().enumerate() {
            if let Some(n) = f(i) {
                (p.put)(&mut t, &mut a, n);
            }
        }
        (t, a)
    };
    let mut out = vec![];
    let mut add = |what: String, (t, a): (SignedTx, ApplyData)| {
        out.push((format!("{} {}", kind, what), t, a))
    };
    add("all different".into(), make(&|i| Some(i as u8 + 10)));
    add("all the same".into(), make(&|_| Some(7)));
    for i in 0..places.len() {
        add(
            format!("only {}", places[i].name),
            make(&|k| if k == i { Some(7) } else { None }),
        );
        add(
            format!("all but {}", places[i].name),
            make(&|k| if k != i { Some(k as u8 + 10) } else { None }),
        );
        for j in 0..i {
            if places[i].class == places[j].class {
                let what = format!("{} and {} the same", places[j].name, places[i].name);
                add(
                    what.clone(),
                    make(&|k| if k == i || k == j { Some(7) } else { None }),
                );
                add(
                    what + ", others different",
                    make(&|k| Some(if k == i || k == j { 7 } else { k as u8 + 10 })),
                );
            }
        }
    }
    out
}

/// Every assignment of values to slots with at most `max` slots set, plus every assignment of the
/// first values with at most `max_first` slots set, plus the complements (at most `max_unset`
/// slots unset, all others at their first value). 0 = unset, i = value i-1.
pub fn assignments<T>(
    slots: &[Slot<T>],
    max: usize,
    max_first: usize,
    max_unset: usize,
) -> Vec<Vec<u8>> {
    let n = slots.len();
    let mut out = Vec::new();
    fn rec<T>(
        slots: &[Slot<T>],
        i: usize,
        left: usize,
        first_only: bool,
        cur: &mut Vec<u8>,
        out: &mut Vec<Vec<u8>>,
    ) {
        if i == slots.len() {
            out.push(cur.clone());
            return;
        }
        cur.push(0);
        rec(slots, i + 1, left, first_only, cur, out);
        cur.pop();
        if left > 0 {
            let k = if first_only { 1 } else { slots[i].set.len() };
            for v in 0..k {
                cur.push(v as u8 + 1);
                rec(slots, i + 1, left - 1, first_only, cur, out);
                cur.pop();
            }
        }
    }
    rec(slots, 0, max, false, &mut vec![], &mut out);
    if max_first > max {
        let mut firsts = Vec::new();
        rec(slots, 0, max_first, true, &mut vec![], &mut firsts);
        out.extend(
            firsts
                .into_iter()
                .filter(|a| a.iter().filter(|x| **x > 0).count() > max),
        );
    }
    if max_unset > 0 && max_first < n {
        let mut firsts = Vec::new();
        rec(slots, 0, max_unset, true, &mut vec![], &mut firsts);
        let lim = max.max(max_first);
        out.extend(
            firsts
                .into_iter()
                .map(|a| a.iter().map(|x| 1 - x).collect::<Vec<u8>>())
                .filter(|a| a.iter().filter(|x| **x > 0).count() > lim),
        );
    }
    out
}

pub fn apply<T>(slots: &[Slot<T>], a: &[u8], x: &mut T) {
    for (s, v) in slots.iter().zip(a) {
        if *v > 0 {
            (s.set[*v as usize - 1])(x);
        }
    }
}

pub fn describe<T>(slots: &[Slot<T>], a: &[u8]) -> String {
    let v: Vec<String> = slots
        .iter()
        .zip(a)
        .filter(|(_, v)| **v > 0)
        .map(|(s, v)| format!("{}#{}", s.name, v))
        .collect();
    if v.is_empty() {
        "(nothing set)".into()
    } else {
        v.join(" ")
    }
}

/// Every consensus version there is, also the deprecated ones that are not supported.
pub fn versions() -> Vec<ConsensusVersion> {
    use ConsensusVersion::*;
    vec![
        DeprecatedV0,
        DeprecatedV1,
        DeprecatedV2,
        DeprecatedV3,
        DeprecatedV4,
        DeprecatedV5,
        DeprecatedV6,
        V7,
        V8,
        V9,
        V10,
        V11,
        V12,
        V13,
        V14,
        V15,
        V16,
        V17,
        V18,
        V19,
        V20,
        V21,
        V22,
        V23,
        V24,
        V25,
        V26,
        V27,
        V28,
        V29,
        V30,
        Future,
    ]
}

/// A consensus file that gives every version parameters of its own: flags in all combinations,
/// limits that no two versions share.
pub fn altered_table() -> String {
    use algorsand::config::{PaysetCommitType, CONSENSUS};
    let mut m = serde_json::Map::new();
    let mut i = 0u64;
    for v in versions() {
        let Some(p) = CONSENSUS.0.get(&v) else {
            continue;
        };
        i += 1;
        if p.approved_upgrades.is_empty() {
            continue; // would be removed by the file
        }
        let mut p = p.clone();
        let bit = |n: u64| (i * 5 + 3) >> n & 1 == 1;
        p.support_genesis_hash = bit(0);
        p.require_genesis_hash = bit(1);
        p.support_signed_tx_in_block = bit(2) || bit(3);
        p.payset_commit = match i % 3 {
            0 => PaysetCommitType::Flat,
            _ => PaysetCommitType::Merkle,
        };
        p.initial_rewards_rate_calculation = bit(3);
        p.rewards_rate_refresh_interval = if i % 2 == 0 {
            1 + i * i
        } else {
            3_000_000 * i * i + 1
        };
        p.min_balance = 1000 * i + 1;
        p.max_timestamp_increment = 3 + 2 * i;
        p.compact_cert_rounds = if i % 4 == 0 { 0 } else { i % 7 + 2 };
        p.support_tx_groups = bit(4);
        m.insert(
            serde_json::to_value(v)
                .unwrap()
                .as_str()
                .unwrap()
                .to_string(),
            serde_json::to_value(&p).unwrap(),
        );
    }
    serde_json::Value::Object(m).to_string()
}

/// Whether this process is the one that looks at the same things under other consensus parameters.
pub fn altered() -> bool {
    std::env::args().nth(1).as_deref() == Some("altered")
}

/// Runs the check in a process of its own whose consensus file changes the parameters of every version.
pub fn under_other_parameters(r: &mut crate::Report) {
    let dir = crate::scratch("altered");
    let table = altered_table();
    std::fs::write(dir.join("consensus.json"), &table).unwrap();
    let (rc, so, se) = crate::run_self(&["altered"], &dir, &[], 6000);
    if rc != Some(0) || !r.merge_child_json(so.trim()) {
        r.violation(
            "child",
            "under the altered consensus table",
            format!(
                "exploration died: {:?} {}",
                rc,
                se.chars().take(400).collect::<String>()
            ),
        );
    }
    r.space(
        "also under altered parameters of",
        serde_json::from_str::<serde_json::Value>(&table)
            .unwrap()
            .as_object()
            .unwrap()
            .len() as u64,
    );
    let _ = std::fs::remove_dir_all(&dir);
}

/// Ends a check that has a part under other parameters.
pub fn finish_both(mut r: crate::Report) -> ! {
    if altered() {
        let p = algorsand::config::CONSENSUS
            .0
            .get(&ConsensusVersion::V8)
            .map(|p| p.max_timestamp_increment);
        if p != Some(7) {
            // whether the file is read is decided by C27
            r.capped("the consensus file with other parameters was not read");
        }
        crate::out(&r.to_child_json());
        std::process::exit(0);
    }
    under_other_parameters(&mut r);
    r.finish()
}
