//! Governance contract (poll engine): tally, lifecycle, outcome, record keeping.
use cosmwasm_std::*;
use enterprise_governance_api::msg::*;
use poll_engine_api::api::*;
use symrt::chain::*;
use symrt::*;
pub mod list;

code!(GOV, enterprise_governance::contract, InstantiateMsg, ExecuteMsg, QueryMsg);

pub const G: &str = "gov";
pub const CTL: &str = "ctl";
pub const MAXW: u128 = 1 << 100;
pub const TMAX: u64 = 1 << 33;
pub const VOTERS: [&str; 4] = ["alice", "bob", "carol", "dave"];

pub fn world() -> World {
    let mut w = World::new();
    w.add(G, &GOV);
    w.init("factory", G, to_json_binary(&InstantiateMsg { admin: CTL.to_string() }).unwrap());
    w
}

pub fn params(ends_s: u64, q: u128, t: u128, v: Option<u128>) -> CreatePollParams {
    CreatePollParams {
        proposer: "prop".to_string(),
        deposit_amount: Uint128::new(7),
        label: "lbl".to_string(),
        description: "dsc".to_string(),
        scheme: VotingScheme::CoinVoting,
        ends_at: Timestamp::from_seconds(ends_s),
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        veto_threshold: v.map(Decimal::raw),
    }
}
pub fn create(w: &mut World, sender: &str, p: CreatePollParams) -> bool {
    w.exec(sender, G, &ExecuteMsg::CreatePoll(p), vec![])
}
pub fn vote(w: &mut World, poll: u64, voter: &str, o: u8, amt: u128) -> bool {
    w.exec(
        CTL,
        G,
        &ExecuteMsg::CastVote(CastVoteParams {
            poll_id: poll.into(),
            outcome: VoteOutcome::from(o),
            voter: voter.to_string(),
            amount: amt.into(),
        }),
        vec![],
    )
}
pub fn update(w: &mut World, voter: &str, amt: u128) -> bool {
    w.exec(CTL, G, &ExecuteMsg::UpdateVotes(UpdateVotesParams { voter: voter.to_string(), new_amount: amt.into() }), vec![])
}
pub fn end(w: &mut World, poll: u64, max: u128, err: bool, early: bool) -> bool {
    w.exec(
        CTL,
        G,
        &ExecuteMsg::EndPoll(EndPollParams {
            poll_id: poll.into(),
            maximum_available_votes: max.into(),
            error_if_already_ended: err,
            allow_early_ending: early,
        }),
        vec![],
    )
}
pub fn poll(w: &World, id: u64) -> Option<Poll> {
    let r: Option<PollResponse> = w.query(G, &QueryMsg::Poll(PollParams { poll_id: id }));
    r.map(|r| r.poll)
}
pub fn status(w: &World, id: u64) -> PollStatusResponse {
    w.query(G, &QueryMsg::PollStatus { poll_id: id }).unwrap()
}
pub fn voter_vote(w: &World, id: u64, v: &str) -> Option<Vote> {
    let r: PollVoterResponse =
        w.query(G, &QueryMsg::PollVoter(PollVoterParams { poll_id: id.into(), voter_addr: v.to_string() })).unwrap();
    r.vote
}
pub fn in_progress(s: &PollStatus) -> bool {
    matches!(s, PollStatus::InProgress { .. })
}
pub fn pg<K>() -> common::cw::Pagination<K> {
    common::cw::Pagination { start_after: None, end_at: None, limit: None, order_by: None }
}

#[derive(Clone, Copy, Default)]
pub struct RefVote {
    on: bool,
    o: usize,
    amt: u128,
}

/// Compares everything the contract reports about two polls with the reference votes.
pub fn compare(w: &World, rv: &[[RefVote; 2]; 2], npolls: usize) {
    for p in 0..npolls {
        let mut sum = [0u128; 4];
        let mut n = 0;
        for v in 0..2 {
            let r = rv[p][v];
            let got = voter_vote(w, p as u64 + 1, VOTERS[v]);
            check(got.is_some() == r.on, "vote recorded iff cast");
            if let Some(g) = got {
                check(and(g.amount == r.amt, g.outcome as usize == r.o), "recorded vote is the latest one");
                check(g.poll_id == p as u64 + 1 && g.voter.as_str() == VOTERS[v], "vote belongs to poll and voter");
            }
            if r.on {
                sum[r.o] += r.amt;
                n += 1;
            }
        }
        let s = status(w, p as u64 + 1);
        for i in 0..4u8 {
            let got = s.results.get(&i).copied().unwrap_or(0);
            check(got == sum[i as usize], "tally is the sum of the latest votes");
        }
        let l: PollVotersResponse =
            w.query(G, &QueryMsg::PollVoters(PollVotersParams { poll_id: p as u64 + 1, pagination: pg() })).unwrap();
        check(l.votes.len() == n, "one vote per voter");
    }
}

// C01: after any sequence of votes, vote changes and weight updates over two polls.
entry!(gov_tally, {
    let mut w = world();
    no_panic(true);
    let t0 = w.time;
    let e1 = u64_in("ends1", t0 + 1, TMAX);
    let e2 = u64_in("ends2", t0 + 1, TMAX);
    check(create(&mut w, CTL, params(e1, 1, 1, None)), "create");
    check(create(&mut w, CTL, params(e2, 1, 1, None)), "create");
    let ends = [e1, e2];
    let mut rv = [[RefVote::default(); 2]; 2];
    let steps = param("steps", 3);
    for k in 0..steps {
        w.time = u64_in("t", w.time, TMAX);
        // the first vote is, up to naming, alice's
        let who = if k == 0 { 0 } else { choice("who", 2) as usize };
        let amt = u128_in("amt", 0, MAXW);
        if k > 0 && choice("op", 2) == 1 {
            let ok = update(&mut w, VOTERS[who], amt);
            check(ok, "weight update accepted");
            for p in 0..2 {
                if rv[p][who].on && w.time < ends[p] {
                    rv[p][who].amt = amt;
                    cover("updated");
                }
            }
        } else {
            let p = choice("poll", 2) as usize;
            let o = choice("outcome", 4) as usize;
            let ok = vote(&mut w, p as u64 + 1, VOTERS[who], o as u8, amt);
            check(ok == (w.time < ends[p]), "vote accepted iff the poll is open");
            if ok {
                if rv[p][who].on {
                    cover("changed");
                }
                cover("voted");
                rv[p][who] = RefVote { on: true, o, amt };
            }
        }
    }
    compare(&w, &rv, 2);
});

pub struct Setup {
    ends: u64,
    q: u128,
    t: u128,
    v: Option<u128>,
    a: [u128; 4],
    max: u128,
}
pub const ONE: u128 = 1_000_000_000_000_000_000;

/// A poll with one voter per outcome, every number free.
pub fn setup(w: &mut World) -> Setup {
    let ends = u64_in("ends", w.time + 1, TMAX);
    let q = u128_in("quorum", 1, ONE);
    let t = u128_in("threshold", 1, ONE);
    let v = if choice("has_veto", 2) == 1 { Some(u128_in("veto_thr", 1, ONE)) } else { None };
    check(create(w, CTL, params(ends, q, t, v)), "create");
    let mut a = [0u128; 4];
    for i in 0..4 {
        a[i] = u128_in("votes", 0, MAXW);
        check(vote(w, 1, VOTERS[i], i as u8, a[i]), "vote");
    }
    let max = u128_in("max", 1, MAXW);
    assume((z(a[0]) + z(a[1]) + z(a[2]) + z(a[3])).le(z(max) * z(1u128 << 60)));
    Setup { ends, q, t, v, a, max }
}
pub struct Outcome {
    quorum: bool,
    veto: bool,
    yes: bool,
    no: bool,
}
/// The oracle, over mathematical integers.
pub fn oracle(s: &Setup) -> Outcome {
    let a = s.a;
    let total = z(a[0]) + z(a[1]) + z(a[2]) + z(a[3]);
    let na = z(a[0]) + z(a[1]) + z(a[3]);
    let some = na.gt(z(0u128));
    let over = |x: u128, t: u128| and(some, (z(x) * z(ONE)).ge(z(t) * na));
    Outcome {
        quorum: (total * z(ONE)).ge(z(s.q) * z(s.max)),
        veto: over(a[3], s.v.unwrap_or(s.t)),
        yes: over(a[0], s.t),
        no: over(a[1], s.t),
    }
}
pub fn check_status(st: &PollStatus, s: &Setup, o: &Outcome) {
    use PollRejectionReason::*;
    let a = s.a;
    let novet = and(o.quorum, not(o.veto));
    let ygn = a[0] > a[1];
    let ngy = a[1] > a[0];
    let passed = and(novet, and(o.yes, or(not(o.no), ygn)));
    match st {
        PollStatus::Passed { outcome, count } => {
            cover("passed");
            check(passed, "passes only with quorum, threshold, a yes majority and no veto");
            check(and(*outcome == 0, count.u128() == a[0]), "passed outcome is yes");
        }
        PollStatus::Rejected { reason } => {
            check(not(passed), "a winning proposal is not rejected");
            match reason {
                QuorumNotReached => {
                    cover("noquorum");
                    check(not(o.quorum), "quorum rejection only without quorum");
                }
                IsVetoOutcome => {
                    cover("veto");
                    check(and(o.quorum, o.veto), "veto rejection only with veto threshold");
                }
                IsRejectingOutcome => {
                    cover("no");
                    check(and(novet, and(o.no, or(not(o.yes), ngy))), "no outcome only when no wins");
                }
                OutcomeDraw(x, y, n) => {
                    cover("draw");
                    check(and(novet, and(o.yes, and(o.no, a[0] == a[1]))), "draw only on a tie over threshold");
                    check(and(*x == 0 && *y == 1, n.u128() == a[0]), "draw names yes and no");
                }
                ThresholdNotReached => {
                    cover("nothreshold");
                    check(and(novet, and(not(o.yes), not(o.no))), "threshold rejection only below threshold");
                }
                QuorumAndThresholdNotReached => {
                    check(and(not(o.quorum), and(not(o.yes), not(o.no))), "quorum and threshold rejection");
                }
            }
        }
        PollStatus::InProgress { .. } => check(false, "an ended poll has a final status"),
    }
}

// C03: outcome of an ended poll, for every tally, quorum, threshold, veto threshold and maximum.
entry!(gov_outcome, {
    let mut w = world();
    no_panic(true);
    let s = setup(&mut w);
    let o = oracle(&s);
    w.time = u64_in("t", s.ends, TMAX);
    check(end(&mut w, 1, s.max, true, choice("early", 2) == 1), "an expired poll can be ended");
    let st = status(&w, 1);
    check_status(&st.status, &s, &o);
    for i in 0..4u8 {
        check(st.results.get(&i).copied().unwrap_or(0) == s.a[i as usize], "ending keeps the results");
    }
});

// C03: the simulated outcome is the one ending would give, at any time.
entry!(gov_simulate, {
    let mut w = world();
    no_panic(true);
    let s = setup(&mut w);
    let o = oracle(&s);
    w.time = u64_in("t", w.time, TMAX);
    let st: PollStatusResponse = w
        .query(G, &QueryMsg::SimulateEndPollStatus { poll_id: 1, maximum_available_votes: s.max.into() })
        .unwrap();
    check_status(&st.status, &s, &o);
    check(in_progress(&status(&w, 1).status), "simulating changes nothing");
});

// C02: when a poll may be ended, and that nothing moves it afterwards.
entry!(gov_lifecycle, {
    let mut w = world();
    no_panic(true);
    let s = setup(&mut w);
    let o = oracle(&s);
    let early = choice("early", 2) == 1;
    let err = choice("err", 2) == 1;
    w.time = u64_in("t", w.time, TMAX);
    let expired = w.time >= s.ends;
    let decided = and(o.quorum, or(o.veto, or(o.yes, o.no)));
    let ok = end(&mut w, 1, s.max, err, early);
    if early {
        check(implies(ok, or(expired, decided)), "early end only once quorum and threshold are reached");
        check(implies(or(expired, decided), ok), "an expired or decided poll can be ended");
    } else {
        check(ok == expired, "a poll ends only at or after its end time");
    }
    let st = status(&w, 1);
    check(st.ends_at == Timestamp::from_seconds(s.ends), "end time fixed");
    if !ok {
        cover("notended");
        check(in_progress(&st.status), "refused ending leaves the poll open");
        return;
    }
    cover("ended");
    if not(expired) {
        cover("endedearly");
    }
    check(!in_progress(&st.status), "ended poll is final");
    let was = matches!(st.status, PollStatus::Passed { .. });
    w.time = u64_in("t2", w.time, TMAX);
    let amt = u128_in("late", 0, MAXW);
    match choice("late_op", 3) {
        0 => {
            let v = choice("late_voter", 2) as usize;
            check(!vote(&mut w, 1, ["alice", "erin"][v], choice("late_o", 4) as u8, amt), "no vote on an ended poll");
        }
        1 => {
            update(&mut w, VOTERS[choice("late_voter", 4) as usize], amt);
        }
        _ => {
            let m = u128_in("max2", 1, MAXW);
            check(!end(&mut w, 1, m, true, choice("early2", 2) == 1), "an ended poll is not ended again");
        }
    }
    let s2 = status(&w, 1);
    check(!in_progress(&s2.status) && was == matches!(s2.status, PollStatus::Passed { .. }), "status is final");
    for i in 0..4u8 {
        check(s2.results.get(&i).copied().unwrap_or(0) == s.a[i as usize], "results are final");
    }
    check(voter_vote(&w, 1, "erin").is_none(), "no late vote recorded");
});

// C02: blocks fall between seconds: the end of voting is exact.
entry!(gov_nanos, {
    let mut w = world();
    no_panic(true);
    let e = u64_in("ends", w.time + 1, TMAX);
    let n = u64_in("ends_nanos", 0, 999_999_999);
    let mut p = params(e, ONE / 2, ONE / 2, None);
    p.ends_at = Timestamp::from_seconds(e).plus_nanos(n);
    check(create(&mut w, CTL, p), "create");
    check(status(&w, 1).ends_at == Timestamp::from_seconds(e).plus_nanos(n), "ends when it should");
    w.time = u64_in("t", w.time, TMAX);
    w.nanos = u64_in("nanos", 0, 999_999_999);
    let over = or(w.time > e, and(w.time == e, w.nanos >= n));
    let which = choice("op", 2);
    let ok = if which == 0 { vote(&mut w, 1, "alice", 0, 5) } else { end(&mut w, 1, 9, true, false) };
    if over {
        check(ok == (which == 1), "voting is over: no vote, but the poll can be ended");
        cover("over");
    } else {
        check(ok == (which == 0), "voting is open: votes count, and the poll cannot be ended");
        cover("open");
    }
});

// C02: any history of votes, changed votes, weight updates and attempts to end, at any times.
entry!(gov_window, {
    let mut w = world();
    no_panic(true);
    let e = u64_in("ends", w.time + 1, TMAX);
    check(create(&mut w, CTL, params(e, ONE / 2, ONE / 2, None)), "create");
    let mut rv = [[RefVote::default(); 2]; 2];
    let mut ended = false;
    let steps = param("steps", 3);
    for k in 0..steps {
        w.time = u64_in("t", w.time, TMAX);
        let open = and(!ended, w.time < e);
        match choice("op", 3) {
            0 => {
                let who = if k == 0 { 0 } else { choice("who", 2) as usize };
                let o = choice("outcome", 2) as usize;
                let amt = u128_in("amt", 0, MAXW);
                let ok = vote(&mut w, 1, VOTERS[who], o as u8, amt);
                check(ok == open, "a vote, new or changed, is accepted iff the proposal is open");
                if ok {
                    cover("voted");
                    rv[0][who] = RefVote { on: true, o, amt };
                } else {
                    cover("toolate");
                }
            }
            1 => {
                let amt = u128_in("amt", 0, MAXW);
                update(&mut w, VOTERS[0], amt);
                if rv[0][0].on && split(open) {
                    rv[0][0].amt = amt;
                }
            }
            _ => {
                let early = choice("early", 2) == 1;
                let max = u128_in("max", 1, MAXW);
                assume(rv[0][0].amt + rv[0][1].amt <= max);
                let ok = end(&mut w, 1, max, true, early);
                if !early {
                    check(ok == and(!ended, w.time >= e), "ends at its end time, once");
                }
                check(implies(ended, !ok), "a proposal ends once");
                if ok {
                    ended = true;
                    cover("ended");
                }
            }
        }
        check(in_progress(&status(&w, 1).status) == !ended, "in progress until ended");
    }
    compare(&w, &rv, 1);
});

// C04: only the admin can act; creation validates and records; ids are sequential.
entry!(gov_auth, {
    let mut w = world();
    no_panic(true);
    let t0 = w.time;
    let ends = u64_in("ends", t0 + 1, TMAX);
    check(create(&mut w, CTL, params(ends, ONE / 3, ONE / 2, None)), "create");
    check(vote(&mut w, 1, "alice", 0, 5), "vote");
    let who = addr_in("sender", 7);
    assume(who != CTL);
    let who = who.as_str();
    w.time = u64_in("t", w.time, TMAX);
    let m = match choice("msg", 4) {
        0 => ExecuteMsg::CreatePoll(params(TMAX + 1, 1, 1, None)),
        1 => ExecuteMsg::CastVote(CastVoteParams {
            poll_id: 1u64.into(),
            outcome: VoteOutcome::No,
            voter: ["alice", "bob"][choice("v", 2) as usize].to_string(),
            amount: 9u128.into(),
        }),
        2 => ExecuteMsg::UpdateVotes(UpdateVotesParams { voter: "alice".to_string(), new_amount: 9u128.into() }),
        _ => ExecuteMsg::EndPoll(EndPollParams {
            poll_id: 1u64.into(),
            maximum_available_votes: 5u128.into(),
            error_if_already_ended: choice("err", 2) == 1,
            allow_early_ending: choice("early", 2) == 1,
        }),
    };
    check(!w.exec(who, G, &m, vec![]), "only the admin acts on governance");
    cover("refused");
    let s = status(&w, 1);
    check(in_progress(&s.status), "status kept");
    check(s.results.get(&0) == Some(&5) && s.results.get(&1).copied().unwrap_or(0) == 0, "results kept");
    check(poll(&w, 2).is_none(), "no poll added");
});

entry!(gov_create, {
    let mut w = world();
    no_panic(true);
    w.time = u64_in("now", 1, TMAX);
    let ends = u64_in("ends", 0, TMAX);
    let q = u128_in("quorum", 0, 2 * ONE);
    let t = u128_in("threshold", 0, 2 * ONE);
    let v = if choice("has_veto", 2) == 1 { Some(u128_in("veto_thr", 0, ONE)) } else { None };
    let n = choice("before", 3);
    for _ in 0..n {
        check(create(&mut w, CTL, params(TMAX + 1, 1, 1, None)), "create");
    }
    let ok = create(&mut w, CTL, params(ends, q, t, v));
    check(ok == and(t <= ONE, ends > w.time), "created iff threshold is at most one and the end lies ahead");
    let p = poll(&w, n + 1);
    check(p.is_some() == ok, "the new poll takes the next id");
    check(poll(&w, n + 2).is_none(), "one poll per creation");
    if let Some(p) = p {
        cover("created");
        check(p.id == n + 1, "id");
        check(p.proposer.as_str() == "prop" && p.label == "lbl" && p.description == "dsc" && p.deposit_amount == 7, "as given");
        check(and(p.quorum.atomics().u128() == q, p.threshold.atomics().u128() == t), "quorum and threshold as given");
        check(p.veto_threshold.is_some() == v.is_some(), "veto threshold as given");
        if let (Some(a), Some(b)) = (p.veto_threshold, v) {
            check(a.atomics().u128() == b, "veto threshold as given");
        }
        check(and(p.started_at == Timestamp::from_seconds(w.time), p.ends_at == Timestamp::from_seconds(ends)), "period as given");
        check(in_progress(&p.status) && p.results.values().all(|x| *x == 0), "starts open and without votes");
    } else {
        cover("refused");
    }
});

// C04: ending or voting on one poll leaves the others alone; listings follow the status.
entry!(gov_isolation, {
    let mut w = world();
    no_panic(true);
    let mut ends = [0u64; 3];
    let mut amt = [0u128; 3];
    for i in 0..3 {
        ends[i] = u64_in("ends", w.time + 1, TMAX);
        check(create(&mut w, CTL, params(ends[i], ONE / 2, ONE / 2, None)), "create");
    }
    for i in 0..3 {
        amt[i] = u128_in("amt", 1, MAXW);
        check(vote(&mut w, i as u64 + 1, "alice", (i % 2) as u8, amt[i]), "vote");
    }
    let k = choice("which", 3) as usize;
    w.time = u64_in("t", w.time, TMAX);
    let max = u128_in("max", 1, MAXW);
    let ok = end(&mut w, k as u64 + 1, max, true, choice("early", 2) == 1);
    let mut open = 0;
    for i in 0..3 {
        let s = status(&w, i as u64 + 1);
        check(in_progress(&s.status) == !(ok && i == k), "only the ended poll changes status");
        check(s.results.get(&((i % 2) as u8)).copied().unwrap_or(0) == amt[i], "results kept");
        if in_progress(&s.status) {
            open += 1;
        }
    }
    let f = |f| -> PollsResponse { w.query(G, &QueryMsg::Polls(PollsParams { filter: f, pagination: pg() })).unwrap() };
    check(f(Some(PollStatusFilter::InProgress)).polls.len() == open, "open polls listed");
    let fin = f(Some(PollStatusFilter::Passed)).polls.len() + f(Some(PollStatusFilter::Rejected)).polls.len();
    check(fin == 3 - open, "final polls listed once");
    check(f(None).polls.len() == 3, "all polls listed");
    check(!vote(&mut w, 4, "alice", 0, 1) && !vote(&mut w, 0, "alice", 0, 1), "no vote on a poll that does not exist");
    if ok {
        cover("ended");
    }
});
