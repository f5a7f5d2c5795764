//! Which monitor verdicts bear on which property.

/// Prefix table: a verdict kind belongs to every property whose list has a prefix of it.
pub fn kinds(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["elect.", "vote.two_grants", "vote.grant_other", "vote.grant_not_durable", "vote.grant_stale_log", "campaign.not_voter", "campaign.last_log", "metrics.leader", "quiet.two_leaders", "log.creator", "log.mismatch", "log.overwrite", "commit.conflict", "apply.diverge", "commit.noquorum", "rpc.chain"],
        "C02" => &["vote.", "elect.uncommitted_vote", "append.vote_not_durable", "snap.vote_not_durable", "rpc.vote", "restart.vote", "metrics.regress", "campaign.unknown", "campaign.term", "proto.vote", "proto.stored_vote", "proto.append_vote", "proto.snap_vote", "proto.restart"],
        "C03" => &["log.", "rpc.payload", "rpc.chain", "rpc.not_own_log", "restart.log", "commit.conflict", "proto.stored_log", "proto.append_conflict", "proto.restart"],
        "C04" => &["apply.", "commit.conflict", "commit.unknown", "snap.content", "snap.bytes", "snap.regress", "restart.not_reapplied", "client.duplicate", "commit.noquorum", "proto.applied"],
        "C05" => &["commit.", "log.truncate_committed", "client.lost", "elect.missing_committed", "append.not_durable", "snap.ack_not_installed", "metrics.replication", "apply.diverge", "rpc.commit_not_in_log", "log.leader_truncate", "proto.applied_beyond", "proto.stored_log", "proto.append_conflict"],
        "C06" => &["client.", "api.hang", "api.fatal_running", "apply.diverge", "commit.conflict"],
        "C07" => &["read.", "api.hang"],
        "C08" => &["mem.", "elect.noquorum", "commit.noquorum", "campaign.not_voter", "metrics.membership", "metrics.state", "snap.membership", "quiet.two_leaders", "client.ack_membership", "proto.membership", "proto.state"],
        "C09" => &["snap.", "purge.", "chunk.", "log.truncate_purged", "log.hole", "metrics.snapshot", "metrics.purged", "restart.snapshot", "apply.", "converge.stuck", "rpc.unknown_entry", "switch.snapshot", "switch.purge", "proto.stored_log", "proto.applied"],
        "C10" => &["chunk.", "snap.", "apply.diverge", "converge.stuck", "proto.snap_vote", "proto.no_answer"],
        "C11" => &["restart.", "panic", "converge.no_write", "converge.stuck", "vote.regress", "vote.resp_regress", "client.lost", "commit.conflict", "apply.", "log.", "purge.regress", "snap.regress", "proto.restart", "proto.stuck"],
        "C12" => &["append.", "vote.", "snap.bad_reject", "snap.ack_not_installed", "log.", "commit.conflict", "commit.unknown", "apply.diverge", "proto.", "lease.grant"],
        "C13" => &["converge.", "quiet.", "api.hang", "client.unanswered", "restart.stuck", "shutdown.hang", "fault.late_hang"],
        "C14" => &["lease.", "quiet.", "campaign.early", "stable."],
        "C15" => &["transfer.", "lease.grant", "lease.adopt", "client.lost", "client.duplicate", "commit.conflict", "elect.missing_committed", "converge.", "client.unanswered"],
        "C16" => &["metrics.", "wait.", "proto.metrics", "proto.leader", "proto.state", "proto.membership"],
        "C17" => &["panic", "fault.", "api.", "client.unanswered", "append.not_durable", "vote.grant_not_durable", "client.ack_before_apply", "append.vote_not_durable", "snap.ack_not_installed", "client.ack_wrong_log", "proto.no_answer"],
        "C18" => &["rpc.", "log.creator", "vote.req_not_durable", "vote.req_identity", "campaign.unknown", "converge.stuck", "snap.sent_unknown", "elect.wrong_node", "elect.uncommitted_vote"],
        "C21" => &["init.", "campaign.disabled", "campaign.not_voter", "converge.no_write", "commit.conflict"],
        "C22" => &["shutdown.", "store.stale_handle", "api.hang", "client.unanswered", "client.lost"],
        "C23" => &["campaign.", "lease.campaign", "switch.", "vote.req_identity"],
        _ => &[],
    }
}

pub fn owns(prop: &str, kind: &str) -> bool {
    kind.starts_with("run.abort") || kind == "run.livelock" || kinds(prop).iter().any(|p| if p.ends_with('.') || p.starts_with("proto.") { kind.starts_with(p) } else { kind == *p })
}

/// Profiles run for a property, in round-robin order.
pub fn profiles(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["elect", "member", "durab", "elect", "mix", "toggle"],
        "C02" => &["elect", "durab", "restart", "mix", "toggle", "proto"],
        "C03" => &["durab", "elect", "snap", "mix", "restart", "proto"],
        "C04" => &["mix", "snap", "restart", "durab", "client"],
        "C05" => &["durab", "elect", "member", "mix", "snap", "proto"],
        "C06" => &["client", "mix", "elect", "client", "shutdown", "durab"],
        "C07" => &["read", "read", "member", "read", "mix"],
        "C08" => &["member", "member", "member", "mix", "elect"],
        "C09" => &["snap", "snap", "chunk", "restart", "mix", "switch", "proto"],
        "C10" => &["chunk", "chunk", "chunk", "snap", "proto"],
        "C11" => &["restart", "single", "durab", "restart", "snap", "proto"],
        "C12" => &["proto", "proto", "proto", "elect", "durab", "proto", "mix"],
        "C13" => &["mix", "elect", "member", "snap", "durab", "chunk", "restart", "toggle"],
        "C14" => &["quiet", "elect", "mix", "transfer", "quiet"],
        "C15" => &["transfer", "transfer", "transfer", "client"],
        "C16" => &["mix", "snap", "member", "read", "elect", "quiet", "restart", "proto"],
        "C17" => &["fault", "fault", "mix", "fault", "shutdown"],
        "C18" => &["mix", "elect", "snap", "durab", "member", "client"],
        "C21" => &["init"],
        "C22" => &["shutdown", "shutdown", "fault"],
        "C23" => &["toggle", "switch", "elect", "switch", "toggle", "member", "quiet"],
        _ => &["mix"],
    }
}
