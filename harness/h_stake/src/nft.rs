//! NFT staking.
use crate::*;
use nft_staking_api::api as na;
use nft_staking_api::msg::*;

pub fn stake(w: &mut World, by: &str, user: &str, id: &str) -> bool {
    let msg = to_json_binary(&Cw721HookMsg::Stake { user: user.to_string() }).unwrap();
    w.exec(by, NFT, &cw721::Cw721ExecuteMsg::SendNft { contract: MEM.to_string(), token_id: id.to_string(), msg }, vec![])
}
pub fn unstake(w: &mut World, by: &str, ids: &[&str]) -> bool {
    let mut nft_ids = Vec::new();
    for i in ids {
        nft_ids.push(i.to_string());
    }
    w.exec(by, MEM, &ExecuteMsg::Unstake(na::UnstakeMsg { nft_ids }), vec![])
}
pub fn nclaims(w: &World, user: &str, releasable: bool) -> Vec<na::NftClaim> {
    let p = na::ClaimsParams { user: user.to_string() };
    let q = if releasable { QueryMsg::ReleasableClaims(p) } else { QueryMsg::Claims(p) };
    let r: na::ClaimsResponse = w.query(MEM, &q).unwrap();
    r.claims
}
pub fn staked_by(w: &World, user: &str) -> na::UserNftStakeResponse {
    w.query(MEM, &QueryMsg::UserStake(na::UserNftStakeParams { user: user.to_string(), start_after: None, limit: None })).unwrap()
}
pub const IDS: [&str; 3] = ["na", "nb", "nc"];

#[derive(Clone, Copy, PartialEq)]
pub enum Loc {
    /// in a user's wallet
    Wallet(usize),
    Staked(usize),
    Claim(usize, (bool, u64)),
}

entry!(stake_nft, {
    let d = unlock_in("unlocking");
    let mut w = world(2, d);
    no_panic(true);
    let mut loc = [Loc::Wallet(0), Loc::Wallet(0), Loc::Wallet(1)];
    w.nft_set(NFT, "na", "alice");
    w.nft_set(NFT, "nb", "alice");
    w.nft_set(NFT, "nc", "bob");
    let n = param("steps", 4);
    for k in 0..n {
        let since = w.log.len();
        w.time = u64_in("time", w.time, TMAX);
        w.height = u64_in("height", w.height, TMAX);
        let cnt = |l: &[Loc; 3], u: usize| l.iter().filter(|x| **x == Loc::Staked(u)).count() as u128;
        let old = [cnt(&loc, 0), cnt(&loc, 1)];
        let op = if k == 0 { 0 } else { choice("op", 3) };
        match op {
            0 => {
                // the first step is one that is accepted: a refused one leaves the same state
                let t = if k == 0 { 2 * choice("token", 2) as usize } else { choice("token", 3) as usize };
                let u = choice("user", 2) as usize;
                let by = if k == 0 { t / 2 } else { choice("by", 2) as usize };
                let ok = stake(&mut w, USERS[by], USERS[u], IDS[t]);
                check(ok == (loc[t] == Loc::Wallet(by)), "only an owned token can be staked");
                if ok {
                    loc[t] = Loc::Staked(u);
                    cover("staked");
                }
            }
            1 => {
                let by = choice("by", 2) as usize;
                let sel: &[usize] = [&[0usize][..], &[1], &[0, 1], &[1, 2], &[0, 0]][choice("tokens", 5) as usize];
                let ids: Vec<&str> = sel.iter().map(|i| IDS[*i]).collect();
                let ok = unstake(&mut w, USERS[by], &ids);
                let dup = sel.len() == 2 && sel[0] == sel[1];
                let own = sel.iter().all(|i| loc[*i] == Loc::Staked(by));
                check(ok == (own && !dup), "only own staked tokens can be unstaked, each once");
                if ok {
                    let at = release(&w, d);
                    for i in sel {
                        loc[*i] = Loc::Claim(by, at);
                    }
                    cover("unstaked");
                }
            }
            _ => {
                let by = choice("by", 2) as usize;
                let mut some = false;
                for l in loc.iter_mut() {
                    if let Loc::Claim(u, at) = *l {
                        if u == by && due(&w, at) {
                            *l = Loc::Wallet(u);
                            some = true;
                        }
                    }
                }
                check((nclaims(&w, USERS[by], true).is_empty()) == !some, "releasable claims are those due");
                check(!claim(&mut w, USERS[by], Some(USERS[1 - by])), "nobody claims for somebody else");
                check(claim(&mut w, USERS[by], None), "claim");
                if some {
                    cover("claimed");
                }
            }
        }
        // where every token is
        for i in 0..3 {
            let o = w.nft_owner(NFT, IDS[i]);
            match loc[i] {
                Loc::Wallet(u) => check(o == USERS[u], "token with its owner"),
                _ => check(o == MEM, "token held"),
            }
        }
        let now = [cnt(&loc, 0), cnt(&loc, 1)];
        for u in 0..2 {
            check(weight(&w, USERS[u]) == now[u], "one token, one vote");
            let s = staked_by(&w, USERS[u]);
            check(s.tokens.len() as u128 == now[u] && s.total_user_stake.u128() == now[u], "listed stakes");
            for t in &s.tokens {
                let i = IDS.iter().position(|x| x == t).unwrap();
                check(loc[i] == Loc::Staked(u), "listed stake is the user's");
            }
            let mut claimed = 0;
            for c in nclaims(&w, USERS[u], false) {
                for t in &c.nft_ids {
                    let i = IDS.iter().position(|x| x == t).unwrap();
                    match loc[i] {
                        Loc::Claim(v, at) => check(v == u && same_release(at, &c.release_at), "claim as agreed"),
                        _ => check(false, "claim on a token that is not being released"),
                    }
                    claimed += 1;
                }
            }
            check(claimed == loc.iter().filter(|x| matches!(x, Loc::Claim(v, _) if *v == u)).count(), "every claim listed");
        }
        check(now_total(&w) == now[0] + now[1], "total is the number of staked tokens");
        let r = reported(&w, since, HOOK);
        let mut seen = old;
        for c in &r {
            let u = if c.user == "alice" { 0 } else { 1 };
            check(c.old_weight.u128() == seen[u], "old weight reported");
            seen[u] = c.new_weight.u128();
        }
        check(seen == now, "new weights reported");
    }
});

// C12: other collections and forged receipts give nothing; claims can be added only with the token itself.
entry!(stake_nft_forged, {
    let mut w = world(2, Duration::Time(5));
    no_panic(true);
    w.add("other", &CW721);
    w.nft_set("other", "na", "alice");
    w.nft_set(NFT, "na", "bob");
    check(stake(&mut w, "bob", "bob", "na"), "stake");
    let at = u64_in("at", 0, TMAX);
    let rel = ReleaseAt::Timestamp(Timestamp::from_seconds(at));
    let h = if choice("hook", 2) == 0 {
        Cw721HookMsg::Stake { user: "alice".to_string() }
    } else {
        Cw721HookMsg::AddClaim { user: "alice".to_string(), release_at: rel }
    };
    let msg = to_json_binary(&h).unwrap();
    let ok = if choice("how", 2) == 0 {
        w.exec("alice", "other", &cw721::Cw721ExecuteMsg::SendNft { contract: MEM.to_string(), token_id: "na".to_string(), msg }, vec![])
    } else {
        let who = addr_in("sender", 5);
        assume(who != NFT);
        let who = who.as_str();
        let id = IDS[choice("id", 2) as usize];
        w.exec(
            who,
            MEM,
            &ExecuteMsg::ReceiveNft(na::ReceiveNftMsg { edition: None, sender: "alice".to_string(), token_id: id.to_string(), msg }),
            vec![],
        )
    };
    check(!ok, "only the DAO's collection can hand over tokens");
    check(weight(&w, "alice") == 0 && now_total(&w) == 1 && nclaims(&w, "alice", false).is_empty(), "nothing gained");
    cover("refused");
});

// C13: a token handed over as a claim is paid to its beneficiary when due, and carries no weight.
entry!(stake_nft_claim, {
    let mut w = world(2, Duration::Time(5));
    no_panic(true);
    w.nft_set(NFT, "na", "bob");
    w.nft_set(NFT, "nb", "bob");
    check(stake(&mut w, "bob", "bob", "nb"), "stake");
    let at = u64_in("at", 0, TMAX);
    let by_h = choice("by_height", 2) == 1;
    let rel = if by_h { ReleaseAt::Height(at.into()) } else { ReleaseAt::Timestamp(Timestamp::from_seconds(at)) };
    let msg = to_json_binary(&Cw721HookMsg::AddClaim { user: "alice".to_string(), release_at: rel }).unwrap();
    check(
        w.exec("bob", NFT, &cw721::Cw721ExecuteMsg::SendNft { contract: MEM.to_string(), token_id: "na".to_string(), msg }, vec![]),
        "add claim",
    );
    check(now_total(&w) == 1 && weight(&w, "alice") == 0, "claims carry no weight");
    check(!unstake(&mut w, "alice", &["na"]) && !unstake(&mut w, "bob", &["na"]), "a claim is not a stake");
    w.time = u64_in("t", T0, TMAX);
    w.height = u64_in("h", H0, TMAX);
    claim(&mut w, "bob", None);
    check(w.nft_owner(NFT, "na") == MEM && w.nft_owner(NFT, "nb") == MEM, "not paid to anyone else");
    check(claim(&mut w, "alice", None), "claim");
    let d = if by_h { w.height >= at } else { w.time >= at };
    check((w.nft_owner(NFT, "na") == "alice") == d, "paid exactly when due");
    check(w.nft_owner(NFT, "nb") == MEM, "stakes stay");
    cover(if d { "paid" } else { "early" });
});
