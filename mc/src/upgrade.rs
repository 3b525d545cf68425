//! The protocol upgrade rules and the block succession rules, written from the specification.

use algorsand::config::{ConsensusParams, CONSENSUS};
use algorsand::data::basics::Round;
use algorsand::data::bookkeeping::{BlockHeader, UpgradeState, UpgradeVote};
use algorsand::protocol::ConsensusVersion;

pub fn params(v: ConsensusVersion) -> Option<&'static ConsensusParams> {
    CONSENSUS.0.get(&v)
}

/// The upgrade state of the block at `round`, given that of its predecessor and the block's vote.
pub fn apply(
    prev: &UpgradeState,
    round: u64,
    vote: &UpgradeVote,
) -> Result<UpgradeState, &'static str> {
    let p = params(prev.current_protocol).ok_or("unsupported protocol")?;
    let mut s = prev.clone();
    if vote.upgrade_propose != prev.current_protocol {
        if s.next_protocol.is_some() {
            return Err("competing proposal");
        }
        let d = vote.upgrade_delay.0;
        if d < p.min_upgrade_wait_rounds || d > p.max_upgrade_wait_rounds {
            return Err("delay out of range");
        }
        let wait = if d == 0 {
            p.default_upgrade_wait_rounds
        } else {
            d
        };
        s.next_protocol = Some(vote.upgrade_propose);
        s.next_protocol_approvals = 0;
        s.next_protocol_vote_before = Round(round.saturating_add(p.upgrade_vote_rounds));
        s.next_protocol_switch_on = Round(s.next_protocol_vote_before.0.saturating_add(wait));
    } else if vote.upgrade_delay.0 != 0 {
        return Err("delay without proposal");
    }
    if vote.upgrade_approve {
        if s.next_protocol.is_none() {
            return Err("approval without proposal");
        }
        if round >= s.next_protocol_vote_before.0 {
            return Err("approval after deadline");
        }
        s.next_protocol_approvals += 1;
    }
    let clear = |s: &mut UpgradeState| {
        s.next_protocol = None;
        s.next_protocol_approvals = 0;
        s.next_protocol_vote_before = Round(0);
        s.next_protocol_switch_on = Round(0);
    };
    if round == s.next_protocol_vote_before.0 && s.next_protocol_approvals < p.upgrade_threshold {
        clear(&mut s);
    }
    if round == s.next_protocol_switch_on.0 {
        if let Some(n) = s.next_protocol {
            s.current_protocol = n;
        }
        clear(&mut s);
    }
    Ok(s)
}

/// Why `next` is no valid successor of `prev`, apart from what `pre_check` does not look at.
pub fn faults(prev: &BlockHeader, next: &BlockHeader) -> Vec<&'static str> {
    let mut f = vec![];
    let p = params(next.upgrade_state.current_protocol);
    if p.is_none() {
        f.push("protocol");
    }
    if prev.round.0.checked_add(1) != Some(next.round.0) {
        f.push("round");
    }
    if next.branch != algorsand::crypto::hash_obj(prev) {
        f.push("branch");
    }
    // the vote is applied for the round after the predecessor
    match apply(
        &prev.upgrade_state,
        prev.round.0.wrapping_add(1),
        &next.upgrade_vote,
    ) {
        Ok(s) if s == next.upgrade_state => {}
        Ok(_) => f.push("upgrade state"),
        Err(_) => f.push("upgrade vote"),
    }
    if let Some(p) = p {
        if prev.timestamp > 0 {
            if next.timestamp < prev.timestamp {
                f.push("early");
            } else if next.timestamp - prev.timestamp > p.max_timestamp_increment {
                f.push("late");
            }
        }
        let zero = Default::default();
        if p.support_genesis_hash {
            if next.genesis_hash == zero {
                f.push("genesis hash");
            } else if prev.genesis_hash != zero && next.genesis_hash != prev.genesis_hash {
                f.push("genesis hash");
            }
        } else if next.genesis_hash != zero {
            f.push("genesis hash");
        }
    }
    if next.genesis_id.is_empty()
        || (!prev.genesis_id.is_empty() && next.genesis_id != prev.genesis_id)
    {
        f.push("genesis ID");
    }
    f
}

/// Which fault an error of `pre_check` names.
pub fn named(e: &algorsand::data::bookkeeping::InvalidBlock) -> &'static [&'static str] {
    use algorsand::data::bookkeeping::InvalidBlock::*;
    match e {
        WrongRound(..) => &["round"],
        WrongBranch(..) => &["branch"],
        WrongUpgradeState => &["upgrade state"],
        // the predecessor's protocol is looked up by the vote rules
        UnsupportedProtocol(_) => &["protocol", "upgrade vote"],
        BadEarlyTimestamp(..) => &["early"],
        BadLateTimestamp(..) => &["late"],
        MissingGenesisID | GenesisIDMismatch(..) => &["genesis ID"],
        MissingGenesisHash | GenesisHashMismatch(..) | GenesisHashNotSupported => &["genesis hash"],
        CompetingProposal
        | VersionStringTooLong(..)
        | DelayOutOfRange(..)
        | NonZeroDelayWithoutProposal
        | ApprovalNoneActive
        | ApprovalAfterDeadline(..) => &["upgrade vote"],
        _ => &[],
    }
}

/// Whether `vote` is what a proposer following its configuration votes for after `prev`.
pub fn is_own_vote(prev: &BlockHeader, vote: &UpgradeVote) -> bool {
    let s = &prev.upgrade_state;
    let p = match params(s.current_protocol) {
        Some(p) => p,
        None => return false,
    };
    match s.next_protocol {
        None => {
            if p.approved_upgrades.is_empty() {
                vote.upgrade_propose == s.current_protocol
                    && vote.upgrade_delay.0 == 0
                    && !vote.upgrade_approve
            } else {
                p.approved_upgrades.get(&vote.upgrade_propose) == Some(&vote.upgrade_delay.0)
                    && vote.upgrade_approve
            }
        }
        Some(n) => {
            let open = prev.round.0 + 1 < s.next_protocol_vote_before.0;
            vote.upgrade_propose == s.current_protocol
                && vote.upgrade_delay.0 == 0
                && vote.upgrade_approve == (open && p.approved_upgrades.contains_key(&n))
        }
    }
}

/// The protocol expected next: its version, when it switches on and whether it is supported.
pub fn next_version(h: &BlockHeader) -> (Option<ConsensusVersion>, u64, bool) {
    let s = &h.upgrade_state;
    let pending = h.round >= s.next_protocol_vote_before && h.round < s.next_protocol_switch_on;
    let (v, on) = if pending {
        (s.next_protocol, s.next_protocol_switch_on.0)
    } else {
        (Some(s.current_protocol), h.round.0 + 1)
    };
    (v, on, v.map_or(false, |v| params(v).is_some()))
}
