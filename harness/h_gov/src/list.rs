//! C36: what governance lists, from anywhere, as much as asked for.
use crate::*;
use common::cw::{Order as Ord2, Pagination};

fn limit_in() -> Option<u64> {
    if bool_in("limited") {
        Some(u64_in("limit", 0, u64::MAX))
    } else {
        None
    }
}
fn order_in() -> (Option<Ord2>, bool) {
    match choice("order", 3) {
        0 => (None, false),
        1 => (Some(Ord2::Ascending), false),
        _ => (Some(Ord2::Descending), true),
    }
}
/// The part of the list that lies after `start` and up to `end`, in order, as far as the limit allows.
fn part<T: Clone>(all: &[T], inside: impl Fn(&T) -> bool, desc: bool, limit: Option<u64>) -> Vec<T> {
    let mut v: Vec<T> = all.iter().filter(|x| split(inside(x))).cloned().collect();
    if desc {
        v.reverse();
    }
    let mut n = 0;
    while n < v.len() {
        if let Some(l) = limit {
            if split(l <= n as u64) {
                break;
            }
        }
        n += 1;
    }
    v.truncate(n);
    v
}

entry!(lst_polls, {
    let mut w = world();
    w.time = 10;
    let n = 4u64;
    for i in 0..n {
        check(create(&mut w, CTL, params(100 + i, ONE / 2, ONE / 2, None)), "created");
    }
    // 1 passes, 2 is rejected, 3 stays open, 4 is any of them
    let last = choice("last", 3);
    let kinds = [0, 1, 2, last];
    for i in 0..n {
        if kinds[i as usize] == 0 {
            check(vote(&mut w, i + 1, "alice", 0, 10), "vote");
        }
    }
    w.time = 200;
    for i in 0..n {
        if kinds[i as usize] < 2 {
            check(end(&mut w, i + 1, 10, true, false), "ended");
        }
    }
    no_panic(true);
    let filter = choice("filter", 4);
    let f = match filter {
        0 => Some(PollStatusFilter::Passed),
        1 => Some(PollStatusFilter::Rejected),
        2 => Some(PollStatusFilter::InProgress),
        _ => None,
    };
    let start = if bool_in("start") { Some(u64_in("start_after", 0, u64::MAX)) } else { None };
    let stop = if bool_in("stop") { Some(u64_in("end_at", 0, u64::MAX)) } else { None };
    let limit = limit_in();
    let (order_by, desc) = order_in();
    let r: PollsResponse = w
        .query(
            G,
            &QueryMsg::Polls(PollsParams {
                filter: f,
                pagination: Pagination { start_after: start.map(Uint64::new), end_at: stop.map(Uint64::new), limit, order_by },
            }),
        )
        .unwrap();
    let all: Vec<u64> = (1..=n).filter(|i| filter == 3 || kinds[*i as usize - 1] == filter).collect();
    let want = part(
        &all,
        |i| {
            let a = match start {
                Some(s) => *i > s,
                None => true,
            };
            let b = match stop {
                Some(s) => *i <= s,
                None => true,
            };
            and(a, b)
        },
        desc,
        limit,
    );
    check(r.polls.len() == want.len(), "as many polls as asked for and there are");
    let mut k = 0;
    while k < r.polls.len() && k < want.len() {
        check(r.polls[k].id == want[k] && Some(r.polls[k].clone()) == poll(&w, want[k]), "each poll in its place, as it is");
        k += 1;
    }
    cover("listed");
});

/// Voters come shorter names first.
const NAMES: [&str; 4] = ["a", "b", "ab", "b1"];
fn later(a: &str, b: &str) -> bool {
    a.len() > b.len() || (a.len() == b.len() && a > b)
}

entry!(lst_voters, {
    let mut w = world();
    w.time = 10;
    for i in 0..4 {
        check(create(&mut w, CTL, params(100 + i, ONE / 2, ONE / 2, None)), "created");
    }
    // everyone votes on the third; "ab" on some others too
    let x = u128_in("amount", 0, MAXW);
    for i in 0..4 {
        check(vote(&mut w, 3, NAMES[i], i as u8, x), "vote");
    }
    let more = choice("more", 4);
    let mut mine = vec![3u64];
    if more & 1 == 1 {
        check(vote(&mut w, 4, "b", 0, x), "vote");
        mine.push(4);
    }
    if more & 2 == 2 {
        check(vote(&mut w, 1, "b", 1, x), "vote");
        mine.insert(0, 1);
    }
    no_panic(true);
    if bool_in("of_poll") {
        let start = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
        let stop = if bool_in("stop") { Some(addr_in("end_at", 2)) } else { None };
        let limit = limit_in();
        let (order_by, desc) = order_in();
        let r: PollVotersResponse = w
            .query(
                G,
                &QueryMsg::PollVoters(PollVotersParams {
                    poll_id: 3,
                    pagination: Pagination { start_after: start.clone(), end_at: stop.clone(), limit, order_by },
                }),
            )
            .unwrap();
        let want = part(
            &NAMES,
            |n| {
                let a = match &start {
                    Some(s) => later(n, s),
                    None => true,
                };
                let b = match &stop {
                    Some(s) => !later(n, s),
                    None => true,
                };
                a && b
            },
            desc,
            limit,
        );
        check(r.votes.len() == want.len(), "as many votes as asked for and there are");
        let mut k = 0;
        while k < r.votes.len() && k < want.len() {
            check(r.votes[k].poll_id == 3 && r.votes[k].voter.as_str() == want[k] && Some(r.votes[k].clone()) == voter_vote(&w, 3, want[k]), "each vote in its place, as it is");
            k += 1;
        }
        cover("of_poll");
    } else {
        let start = if bool_in("start") { Some(u64_in("start_after", 0, u64::MAX)) } else { None };
        let limit = limit_in();
        let r: VoterResponse =
            w.query(G, &QueryMsg::Voter(VoterParams { voter_addr: "b".to_string(), start_after: start, limit })).unwrap();
        let want = part(
            &mine,
            |i| match start {
                Some(s) => *i > s,
                None => true,
            },
            false,
            limit,
        );
        check(r.votes.len() == want.len(), "as many votes as asked for and there are");
        let mut k = 0;
        while k < r.votes.len() && k < want.len() {
            check(r.votes[k].poll_id == want[k] && Some(r.votes[k].clone()) == voter_vote(&w, want[k], "b"), "each vote in its place, as it is");
            k += 1;
        }
        cover("of_voter");
    }
});
