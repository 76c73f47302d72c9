//! C36: members and staked NFTs, from anywhere, as many as asked for.
use crate::*;
use denom_staking_api::msg::QueryMsg as DQ;
use nft_staking_api::api as na;
use nft_staking_api::msg::QueryMsg as NQ;

pub const WHO: [&str; 4] = ["a", "ab", "b", "b1"];

pub fn limit_in() -> Option<u32> {
    if bool_in("limited") {
        Some(u64_in("limit", 0, u32::MAX as u64) as u32)
    } else {
        None
    }
}
/// The part of the list after `start`, as far as the limit allows.
pub fn part<T: Clone>(all: &[T], past: impl Fn(&T) -> bool, limit: Option<u32>) -> Vec<T> {
    let mut v = Vec::new();
    for x in all {
        if past(x) {
            if let Some(l) = limit {
                if split(l as u64 <= v.len() as u64) {
                    break;
                }
            }
            v.push(x.clone());
        }
    }
    v
}

entry!(lst_members, {
    let kind = choice("kind", 4);
    let mut have: Vec<(String, u128)> = Vec::new();
    let mut w;
    if kind == 3 {
        let x = [u128_in("w0", 1, MAXW), u128_in("w1", 1, MAXW), u128_in("w2", 1, MAXW), u128_in("w3", 1, MAXW)];
        w = multi::world(&[(WHO[2], x[2]), (WHO[0], x[0]), (WHO[3], x[3]), (WHO[1], x[1])], None);
        for i in 0..4 {
            have.push((WHO[i].to_string(), x[i]));
        }
    } else {
        w = world(kind, Duration::Time(100));
        for i in [2usize, 0, 3, 1] {
            if kind == 2 {
                w.nft_set(NFT, ["n0", "n1", "n2", "n3"][i], WHO[i]);
                check(nft::stake(&mut w, WHO[i], WHO[i], ["n0", "n1", "n2", "n3"][i]), "staked");
            } else {
                let x = u128_in(["w0", "w1", "w2", "w3"][i], 1, MAXW);
                fund(&mut w, kind, WHO[i], x);
                check(stake(&mut w, kind, WHO[i], WHO[i], x), "staked");
            }
        }
        for i in 0..4 {
            have.push((WHO[i].to_string(), weight(&w, WHO[i])));
        }
    }
    no_panic(true);
    let start = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
    let limit = limit_in();
    let r: MembersResponse = w.query(MEM, &DQ::Members(MembersParams { start_after: start.clone(), limit })).unwrap();
    let want = part(
        &have,
        |n| match &start {
            Some(s) => *n.0 > **s,
            None => true,
        },
        limit,
    );
    check(r.members.len() == want.len(), "as many members as asked for and there are");
    let mut k = 0;
    while k < r.members.len() && k < want.len() {
        check(r.members[k].user.as_str() == want[k].0 && r.members[k].weight.u128() == want[k].1, "each member in place, with their weight");
        k += 1;
    }
    cover("listed");
});

entry!(lst_nfts, {
    let mut w = world(2, Duration::Time(100));
    let ids = ["1", "10", "2", "x", "x1"];
    let mut theirs: Vec<Vec<String>> = vec![vec![], vec![]];
    let split_at = choice("split", 3);
    for i in [4usize, 1, 0, 3, 2] {
        w.nft_set(NFT, ids[i], "alice");
    }
    for i in 0..5usize {
        // the fifth token is not staked
        if i < 4 {
            let u = if split_at == 0 { i % 2 } else if split_at == 1 { i / 2 } else { (i + 1) / 2 % 2 };
            check(nft::stake(&mut w, "alice", USERS[u], ids[i]), "staked");
            theirs[u].push(ids[i].to_string());
        }
    }
    if bool_in("gone") {
        check(nft::unstake(&mut w, "alice", &["1"]), "unstaked");
        theirs[0].remove(0);
    }
    no_panic(true);
    let start = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
    let limit = limit_in();
    let past = |n: &String| match &start {
        Some(s) => **n > **s,
        None => true,
    };
    let of = choice("of", 3) as usize;
    if of < 2 {
        let r: na::UserNftStakeResponse = w
            .query(MEM, &NQ::UserStake(na::UserNftStakeParams { user: USERS[of].to_string(), start_after: start.clone(), limit }))
            .unwrap();
        check(r.tokens == part(&theirs[of], past, limit), "a member's staked NFTs");
        check(r.user.as_str() == USERS[of] && r.total_user_stake.u128() == theirs[of].len() as u128, "with their number");
        cover("user");
    } else {
        let mut all: Vec<String> = theirs.concat();
        all.sort();
        let r: na::StakedNftsResponse = w.query(MEM, &NQ::StakedNfts(na::StakedNftsParams { start_after: start.clone(), limit })).unwrap();
        check(r.nfts == part(&all, past, limit), "all staked NFTs");
        cover("all");
    }
});
