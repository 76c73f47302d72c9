//! C36: proposals and their votes, from anywhere, as many as asked for.
use crate::*;

fn limit_in() -> Option<u32> {
    if bool_in("limited") {
        Some(u64_in("limit", 0, u32::MAX as u64) as u32)
    } else {
        None
    }
}
fn part<T: Clone>(all: &[T], past: impl Fn(&T) -> bool, limit: Option<u32>) -> Vec<T> {
    let mut v = Vec::new();
    for x in all {
        if past(x) {
            if let Some(l) = limit {
                if split(l as u64 <= v.len() as u64) {
                    break;
                }
            }
            v.push(x.clone());
        }
    }
    v
}
const WHO: [&str; 3] = ["a", "b", "ab"];

entry!(lst_props, {
    let mut w = dao(
        [0, 3][choice("kind", 2) as usize],
        gcfg(ONE / 2, ONE / 2, None, 100, None, false),
        Some(council(Some(vec![ProposalActionType::UpdateMetadata]), ONE / 2, ONE / 2)),
    );
    for u in WHO {
        mem_user(&mut w, MEM, u, 10);
        mem_user(&mut w, CNC, u, 10);
    }
    mem_total(&mut w, MEM, 30);
    mem_total(&mut w, CNC, 30);
    // 1 and 2 (the council's) are resolved, 3 and 4 (the council's) stay open, 5 is made later
    check(create(&mut w, "a", prop(vec![fund_action(1)], None), vec![]), "created");
    check(create_council(&mut w, "b", prop(vec![], None)), "created");
    let win = [bool_in("first_passes"), bool_in("second_passes")];
    for u in WHO {
        check(vote(&mut w, u, 1, if win[0] { 0 } else { 1 }), "vote");
        check(vote_council(&mut w, u, 2, if win[1] { 0 } else { 1 }), "vote");
    }
    w.time = T0 + 50;
    check(create(&mut w, "ab", prop(vec![fund_action(2)], None), vec![]), "created");
    check(create_council(&mut w, "a", prop(vec![], None)), "created");
    w.time = T0 + 100;
    check(execute(&mut w, "x", 1) && execute(&mut w, "x", 2), "resolved");
    check(create(&mut w, "b", prop(vec![fund_action(3)], None), vec![]), "created");
    no_panic(true);
    let limit = limit_in();
    if bool_in("proposals") {
        let filter = choice("filter", 4);
        let f = match filter {
            0 => Some(ProposalStatusFilter::Passed),
            1 => Some(ProposalStatusFilter::Rejected),
            2 => Some(ProposalStatusFilter::InProgress),
            _ => None,
        };
        let start_after = if bool_in("start") { Some(u64_in("start_after", 0, u64::MAX)) } else { None };
        let r: ProposalsResponse = w.query(CTL, &QueryMsg::Proposals(ProposalsParams { filter: f, start_after, limit })).unwrap();
        let kind = |i: u64| match i {
            1 | 2 => {
                if win[i as usize - 1] {
                    0
                } else {
                    1
                }
            }
            _ => 2,
        };
        let all: Vec<u64> = (1..6).filter(|i| filter == 3 || kind(*i) == filter).collect();
        let want = part(
            &all,
            |i| match start_after {
                Some(s) => split(*i > s),
                None => true,
            },
            limit,
        );
        check(r.proposals.len() == want.len(), "as many proposals as asked for and there are");
        let mut k = 0;
        while k < want.len() && k < r.proposals.len() {
            check(r.proposals[k].proposal.id == want[k] && Some(r.proposals[k].clone()) == proposal(&w, want[k]), "each proposal in its place, as it is");
            k += 1;
        }
        cover("proposals");
    } else {
        let start_after = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
        let proposal_id = 1 + choice("proposal", 5);
        let r: ProposalVotesResponse =
            w.query(CTL, &QueryMsg::ProposalVotes(ProposalVotesParams { proposal_id, start_after: start_after.clone(), limit })).unwrap();
        let all = if proposal_id < 3 { WHO.to_vec() } else { vec![] };
        let want = part(
            &all,
            |u| match &start_after {
                Some(s) => u.len() > s.len() || (u.len() == s.len() && **u > **s),
                None => true,
            },
            limit,
        );
        check(r.votes.len() == want.len(), "as many votes as asked for and there are");
        let mut k = 0;
        while k < want.len() && k < r.votes.len() {
            check(r.votes[k].poll_id == proposal_id && Some(r.votes[k].clone()) == gov_vote(&w, proposal_id, want[k]), "each vote in its place, as it is");
            k += 1;
        }
        cover("votes");
    }
});
