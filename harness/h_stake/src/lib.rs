//! Membership contracts: denom, token and NFT staking, multisig.
use common::cw::ReleaseAt;
use cosmwasm_std::*;
use cw_utils::{Duration, Expiration};
use membership_common_api::api::*;
use membership_common_api::msg::WeightChangeHook;
use multisig_membership_api::api::*;
use stubs::*;
use symrt::chain::*;
use symrt::*;
pub mod multi;
pub mod list;
pub mod nft;

code!(
    DSTAKE,
    denom_staking_membership::contract,
    denom_staking_api::msg::InstantiateMsg,
    denom_staking_api::msg::ExecuteMsg,
    denom_staking_api::msg::QueryMsg
);
code!(
    TSTAKE,
    token_staking_membership::contract,
    token_staking_api::msg::InstantiateMsg,
    token_staking_api::msg::ExecuteMsg,
    token_staking_api::msg::QueryMsg
);
code!(
    NSTAKE,
    nft_staking_membership::contract,
    nft_staking_api::msg::InstantiateMsg,
    nft_staking_api::msg::ExecuteMsg,
    nft_staking_api::msg::QueryMsg
);
code!(
    MULTI,
    multisig_membership::contract,
    multisig_membership_api::msg::InstantiateMsg,
    multisig_membership_api::msg::ExecuteMsg,
    multisig_membership_api::msg::QueryMsg
);

pub const MAXW: u128 = 1 << 100;
pub const TMAX: u64 = 1 << 33;
pub const T0: u64 = 1000;
pub const H0: u64 = 1000;
pub const HOOK: &str = "hook";
pub const USERS: [&str; 2] = ["alice", "bob"];

/// kind: 0 denom, 1 token, 2 nft
pub fn world(kind: u64, unlock: Duration) -> World {
    world_with(kind, unlock, Some(vec![HOOK.to_string()]), None)
}
pub fn world_with(kind: u64, unlock: Duration, hooks: Option<Vec<String>>, cps: Option<Vec<TotalWeightCheckpoint>>) -> World {
    let mut w = World::new();
    w.time = T0;
    w.height = H0;
    w.add(ENT, &ENTERPRISE);
    w.add(HOOK, &SINK);
    w.add("hookb", &SINK);
    w.add(CTL, &SINK);
    w.add(TOK, &CW20);
    w.add(NFT, &CW721);
    ent_type(&mut w, kind);
    let enterprise_contract = ENT.to_string();
    match kind {
        0 => {
            w.add(MEM, &DSTAKE);
            w.init(
                FAC,
                MEM,
                to_json_binary(&denom_staking_api::msg::InstantiateMsg {
                    enterprise_contract,
                    denom: DENOM.to_string(),
                    unlocking_period: unlock,
                    weight_change_hooks: hooks,
                })
                .unwrap(),
            );
        }
        1 => {
            w.add(MEM, &TSTAKE);
            w.init(
                FAC,
                MEM,
                to_json_binary(&token_staking_api::msg::InstantiateMsg {
                    enterprise_contract,
                    token_contract: TOK.to_string(),
                    unlocking_period: unlock,
                    weight_change_hooks: hooks,
                    total_weight_by_height_checkpoints: cps.clone(),
                    total_weight_by_seconds_checkpoints: cps,
                })
                .unwrap(),
            );
        }
        _ => {
            w.add(MEM, &NSTAKE);
            w.init(
                FAC,
                MEM,
                to_json_binary(&nft_staking_api::msg::InstantiateMsg {
                    enterprise_contract,
                    nft_contract: nft_staking_api::api::NftContract::Cw721 { contract: NFT.to_string() },
                    unlocking_period: unlock,
                    weight_change_hooks: hooks,
                    total_weight_by_height_checkpoints: cps.clone(),
                    total_weight_by_seconds_checkpoints: cps,
                })
                .unwrap(),
            );
        }
    }
    w
}
pub fn fund(w: &mut World, kind: u64, who: &str, amt: u128) {
    if kind == 0 {
        w.set_bal(who, DENOM, amt);
    } else {
        w.cw20_set(TOK, who, amt);
    }
}
pub fn bal(w: &World, kind: u64, who: &str) -> u128 {
    if kind == 0 {
        w.bal(who, DENOM)
    } else {
        w.cw20_bal(TOK, who)
    }
}
pub fn stake(w: &mut World, kind: u64, by: &str, user: &str, amt: u128) -> bool {
    if kind == 0 {
        let user = if by == user { None } else { Some(user.to_string()) };
        w.exec(by, MEM, &denom_staking_api::msg::ExecuteMsg::Stake { user }, vec![coin(amt, DENOM)])
    } else {
        tok_send(w, by, amt, &token_staking_api::msg::Cw20HookMsg::Stake { user: user.to_string() })
    }
}
pub fn tok_send(w: &mut World, by: &str, amt: u128, h: &token_staking_api::msg::Cw20HookMsg) -> bool {
    let msg = to_json_binary(h).unwrap();
    w.exec(by, TOK, &cw20::Cw20ExecuteMsg::Send { contract: MEM.to_string(), amount: amt.into(), msg }, vec![])
}
pub fn unstake(w: &mut World, by: &str, amt: u128) -> bool {
    w.exec(by, MEM, &denom_staking_api::msg::ExecuteMsg::Unstake(denom_staking_api::api::UnstakeMsg { amount: amt.into() }), vec![])
}
pub fn claim(w: &mut World, by: &str, user: Option<&str>) -> bool {
    w.exec(
        by,
        MEM,
        &denom_staking_api::msg::ExecuteMsg::Claim(denom_staking_api::api::ClaimMsg { user: user.map(|s| s.to_string()) }),
        vec![],
    )
}
pub fn weight(w: &World, user: &str) -> u128 {
    let r: UserWeightResponse =
        w.query(MEM, &denom_staking_api::msg::QueryMsg::UserWeight(UserWeightParams { user: user.to_string() })).unwrap();
    r.weight.u128()
}
pub fn total(w: &World, expiration: Expiration) -> u128 {
    let r: TotalWeightResponse =
        w.query(MEM, &denom_staking_api::msg::QueryMsg::TotalWeight(TotalWeightParams { expiration })).unwrap();
    r.total_weight.u128()
}
pub fn now_total(w: &World) -> u128 {
    total(w, Expiration::Never {})
}
pub fn claims(w: &World, user: &str, releasable: bool) -> Vec<denom_staking_api::api::DenomClaim> {
    let p = denom_staking_api::api::ClaimsParams { user: user.to_string() };
    let q = if releasable {
        denom_staking_api::msg::QueryMsg::ReleasableClaims(p)
    } else {
        denom_staking_api::msg::QueryMsg::Claims(p)
    };
    let r: denom_staking_api::api::ClaimsResponse = w.query(MEM, &q).unwrap();
    r.claims
}
pub fn reported(w: &World, since: usize, hook: &str) -> Vec<UserWeightChange> {
    let mut out = Vec::new();
    for (m, _) in sent::<WeightChangeHook>(w, since, MEM, hook) {
        let WeightChangeHook::WeightsChanged(m) = m;
        for c in m.weight_changes {
            out.push(c);
        }
    }
    out
}
pub fn unlock_in(name: &str) -> Duration {
    let x = u64_in(name, 0, 1 << 31);
    if choice("by_height", 2) == 1 {
        Duration::Height(x)
    } else {
        Duration::Time(x)
    }
}
/// When a claim made now can be paid.
pub fn release(w: &World, d: Duration) -> (bool, u64) {
    match d {
        Duration::Time(t) => (true, w.time + t),
        Duration::Height(h) => (false, w.height + h),
    }
}
pub fn due(w: &World, r: (bool, u64)) -> bool {
    if r.0 {
        w.time >= r.1
    } else {
        w.height >= r.1
    }
}
pub fn same_release(r: (bool, u64), a: &ReleaseAt) -> bool {
    match a {
        ReleaseAt::Timestamp(t) => r.0 && *t == Timestamp::from_seconds(r.1),
        ReleaseAt::Height(h) => !r.0 && h.u64() == r.1,
    }
}
pub struct Cl {
    pub u: usize,
    pub amt: u128,
    pub at: (bool, u64),
    pub paid: bool,
}
pub struct Model {
    pub stake: [u128; 2],
    pub wallet: [u128; 2],
    pub cl: Vec<Cl>,
}
pub const START: u128 = 1 << 110;
pub const GIFT: u128 = 13;

pub fn agree(w: &World, kind: u64, m: &Model) {
    let mut owed = m.stake[0] + m.stake[1];
    for i in 0..2 {
        check(weight(w, USERS[i]) == m.stake[i], "weight is what was staked and not unstaked");
        check(bal(w, kind, USERS[i]) == m.wallet[i], "wallet");
        let cs = claims(w, USERS[i], false);
        let mut n = 0;
        for c in &m.cl {
            if c.u == i && !c.paid {
                check(n < cs.len(), "claim listed");
                if n < cs.len() {
                    check(
                        and(cs[n].amount.u128() == c.amt, same_release(c.at, &cs[n].release_at)) && cs[n].user == USERS[i],
                        "claim as agreed",
                    );
                }
                owed += c.amt;
                n += 1;
            }
        }
        check(cs.len() == n, "no other claims");
    }
    check(now_total(w) == m.stake[0] + m.stake[1], "total weight is the sum of all stakes");
    check(bal(w, kind, MEM) == owed + GIFT, "the contract holds exactly what it owes");
}

/// Histories of staking, unstaking and claiming by two users.
fn history(kind: u64) {
    let d = unlock_in("unlocking");
    let mut w = world(kind, d);
    no_panic(true);
    fund(&mut w, kind, "alice", START);
    fund(&mut w, kind, "bob", START);
    fund(&mut w, kind, MEM, GIFT);
    let mut m = Model { stake: [0, 0], wallet: [START, START], cl: Vec::new() };
    let n = param("steps", 4);
    for k in 0..n {
        let since = w.log.len();
        w.time = u64_in("time", w.time, TMAX);
        w.height = u64_in("height", w.height, TMAX);
        let amt = u128_in("amount", 1, MAXW);
        // a first stake, so that longer histories have something to work with
        let op = if k == 0 { choice("op0", 2) } else { choice("op", 6) };
        let mut change: Option<(usize, u128)> = None;
        match op {
            0 | 1 => {
                let u = op as usize;
                check(stake(&mut w, kind, "alice", USERS[u], amt), "stake");
                change = Some((u, m.stake[u]));
                m.stake[u] += amt;
                m.wallet[0] -= amt;
                cover("staked");
            }
            2 | 3 => {
                let u = op as usize - 2;
                let ok = unstake(&mut w, USERS[u], amt);
                check(ok == (amt <= m.stake[u]), "unstake at most the own stake");
                if ok {
                    change = Some((u, m.stake[u]));
                    m.stake[u] -= amt;
                    m.cl.push(Cl { u, amt, at: release(&w, d), paid: false });
                    cover("unstaked");
                }
            }
            _ => {
                let u = op as usize - 4;
                let mut sum = 0;
                let mut nc = 0;
                for c in m.cl.iter_mut() {
                    if c.u == u && !c.paid && due(&w, c.at) {
                        c.paid = true;
                        sum += c.amt;
                        nc += 1;
                    }
                }
                check(claims(&w, USERS[u], true).len() == nc, "releasable claims are those due");
                let ok = claim(&mut w, USERS[u], if choice("named", 2) == 1 { Some(USERS[u]) } else { None });
                if nc > 0 {
                    check(ok, "a due claim is paid");
                    cover("claimed");
                }
                m.wallet[u] += sum;
            }
        }
        let r = reported(&w, since, HOOK);
        match change {
            Some((u, old)) => {
                check(r.len() == 1, "each weight change is reported once");
                check(
                    and(r[0].old_weight.u128() == old, r[0].new_weight.u128() == m.stake[u]) && r[0].user == USERS[u],
                    "reported with old and new weight",
                );
            }
            None => check(r.is_empty(), "nothing reported without a change"),
        }
        agree(&w, kind, &m);
    }
}
entry!(stake_denom, { history(0) });
entry!(stake_token, { history(1) });

// C10: only the DAO's own denom, exactly one coin.
entry!(stake_denom_refused, {
    let mut w = world(0, Duration::Time(5));
    no_panic(true);
    let a = u128_in("a", 1, MAXW);
    let b = u128_in("b", 1, MAXW);
    w.set_bal("alice", DENOM, a);
    w.set_bal("alice", "uother", b);
    let funds = match choice("funds", 4) {
        0 => vec![],
        1 => vec![coin(b, "uother")],
        2 => vec![coin(a, DENOM), coin(b, "uother")],
        _ => vec![coin(b, "uother"), coin(a, DENOM)],
    };
    let ok = w.exec("alice", MEM, &denom_staking_api::msg::ExecuteMsg::Stake { user: None }, funds);
    check(!ok && weight(&w, "alice") == 0 && now_total(&w) == 0, "other coins give no weight");
    cover("refused");
});

// C11: tokens of another contract, and forged receipts, give nothing; bulk stakes and claims must match the amount sent.
entry!(stake_token_bulk, {
    let mut w = world(1, Duration::Time(5));
    no_panic(true);
    let a = u128_in("a", 0, MAXW);
    let b = u128_in("b", 0, MAXW);
    let amt = u128_in("amount", 1, 2 * MAXW);
    let s0 = u128_in("s0", 1, MAXW);
    w.cw20_set(TOK, "alice", START);
    w.add("fake", &CW20);
    w.cw20_set("fake", "alice", START);
    check(stake(&mut w, 1, "alice", "alice", s0), "stake");
    use token_staking_api::api::{UserClaim, UserStake};
    use token_staking_api::msg::Cw20HookMsg as H;
    let us = |u: &str, x: u128| UserStake { user: u.to_string(), staked_amount: x.into() };
    let same = choice("same_user", 2) == 1;
    let second = if same { "alice" } else { "bob" };
    let since = w.log.len();
    match choice("op", 4) {
        0 => {
            let ok = tok_send(&mut w, "alice", amt, &H::AddStakes { stakers: vec![us("alice", a), us(second, b)] });
            check(iff(ok, z(a).eq(z(amt) - z(b))), "stakes credited must add up to the tokens sent");
            let (xa, xb) = if ok { (a, b) } else { (0, 0) };
            let (wa, wb) = if same { (xa + xb, 0) } else { (xa, xb) };
            check(weight(&w, "alice") == s0 + wa && weight(&w, "bob") == wb, "credited as listed");
            check(now_total(&w) == s0 + xa + xb && w.cw20_bal(TOK, MEM) == s0 + xa + xb, "weights are backed by tokens");
            let r = reported(&w, since, HOOK);
            if ok {
                let mut last = [s0, 0u128];
                for c in &r {
                    let i = if c.user == "alice" { 0 } else { 1 };
                    check(c.old_weight.u128() == last[i], "old weight reported");
                    last[i] = c.new_weight.u128();
                }
                check(last[0] == s0 + wa && last[1] == wb, "final weights reported");
                cover("bulk");
            } else {
                check(r.is_empty(), "nothing reported");
                cover("mismatch");
            }
        }
        1 => {
            let at = u64_in("at", 0, TMAX);
            let c = |u: &str, x: u128| UserClaim { user: u.to_string(), claim_amount: x.into(), release_at: ReleaseAt::Timestamp(Timestamp::from_seconds(at)) };
            let ok = tok_send(&mut w, "alice", amt, &H::AddClaims { claims: vec![c("alice", a), c(second, b)] });
            check(iff(ok, z(a).eq(z(amt) - z(b))), "claims credited must add up to the tokens sent");
            check(now_total(&w) == s0, "claims carry no weight");
            if ok {
                w.time = u64_in("later", T0, TMAX);
                let had = w.cw20_bal(TOK, second);
                claim(&mut w, second, None);
                let got = w.cw20_bal(TOK, second) - had;
                check(got == if w.time >= at { if same { a + b } else { b } } else { 0 }, "paid when due");
                check(w.cw20_bal(TOK, MEM) + got == s0 + a + b, "nobody else's tokens are paid out");
                cover("claims");
            }
        }
        2 => {
            let ok = w.exec(
                "alice",
                "fake",
                &cw20::Cw20ExecuteMsg::Send {
                    contract: MEM.to_string(),
                    amount: amt.into(),
                    msg: to_json_binary(&H::Stake { user: "alice".to_string() }).unwrap(),
                },
                vec![],
            );
            check(!ok, "another token cannot be staked");
        }
        _ => {
            let h = match choice("forged", 3) {
                0 => H::Stake { user: "alice".to_string() },
                1 => H::AddStakes { stakers: vec![us("alice", amt)] },
                _ => H::AddClaims {
                    claims: vec![UserClaim { user: "alice".to_string(), claim_amount: amt.into(), release_at: ReleaseAt::Height(0u64.into()) }],
                },
            };
            let who = addr_in("sender", 5);
            assume(who != TOK);
            let who = who.as_str();
            let ok = w.exec(
                who,
                MEM,
                &token_staking_api::msg::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                    sender: "alice".to_string(),
                    amount: amt.into(),
                    msg: to_json_binary(&h).unwrap(),
                }),
                vec![],
            );
            check(!ok && weight(&w, "alice") == s0 && now_total(&w) == s0, "a receipt without tokens gives nothing");
            check(claims(&w, "alice", false).is_empty(), "no claim appears");
            cover("forged");
        }
    }
});

// C13: when and to whom an unstaked amount is paid.
entry!(stake_claim, {
    let kind = choice("kind", 2);
    let d = unlock_in("unlocking");
    let mut w = world(kind, d);
    no_panic(true);
    fund(&mut w, kind, "alice", START);
    fund(&mut w, kind, "bob", START);
    fund(&mut w, kind, MEM, GIFT);
    let s = u128_in("stake", 1, MAXW);
    let x = u128_in("unstake", 1, MAXW);
    let sb = u128_in("bob_stake", 1, MAXW);
    assume(x <= s);
    check(stake(&mut w, kind, "alice", "alice", s), "stake");
    check(stake(&mut w, kind, "bob", "bob", sb), "stake");
    w.time = u64_in("t1", T0, TMAX / 2);
    w.height = u64_in("h1", H0, TMAX / 2);
    check(unstake(&mut w, "alice", x), "unstake");
    let at = release(&w, d);
    // the unlocking period changes afterwards
    if choice("period_changes", 2) == 1 {
        let p = u64_in("new_period", 0, 1 << 31);
        let nd = if choice("new_by_height", 2) == 1 { Duration::Height(p) } else { Duration::Time(p) };
        let m = denom_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(denom_staking_api::api::UpdateUnlockingPeriodMsg {
            new_unlocking_period: Some(nd),
        });
        check(w.exec(CTL, MEM, &m, vec![]), "period changed by governance");
    }
    // the rest may be unstaked later
    w.time = u64_in("t2", w.time, TMAX);
    w.height = u64_in("h2", w.height, TMAX);
    let before = (bal(&w, kind, "alice"), bal(&w, kind, "bob"));
    check(!claim(&mut w, "bob", Some("alice")), "nobody claims for somebody else");
    claim(&mut w, "bob", None);
    check(bal(&w, kind, "bob") == before.1 && bal(&w, kind, "alice") == before.0, "no claim, no payment");
    let rel = claims(&w, "alice", true).len() == 1;
    claim(&mut w, "alice", None);
    let got = bal(&w, kind, "alice") - before.0;
    if due(&w, at) {
        check(got == x && rel, "paid in full once the period in force at unstaking has passed");
        cover("paid");
    } else {
        check(got == 0 && !rel, "not before");
        check(claims(&w, "alice", false).len() == 1, "claim kept");
        cover("early");
    }
    claim(&mut w, "alice", None);
    check(bal(&w, kind, "alice") == before.0 + got, "paid once");
    check(bal(&w, kind, MEM) + got == GIFT + s + sb, "stakes of others stay");
});

// C13: blocks fall between seconds: the release moment is exact.
entry!(stake_claim_nanos, {
    let kind = choice("kind", 3);
    let p = u64_in("unlocking", 0, 1 << 31);
    let mut w = world(kind, Duration::Time(p));
    no_panic(true);
    w.nanos = u64_in("n1", 0, 999_999_999);
    let t1 = w.time;
    let n1 = w.nanos;
    if kind == 2 {
        w.nft_set(NFT, "na", "alice");
        check(nft::stake(&mut w, "alice", "alice", "na") && nft::unstake(&mut w, "alice", &["na"]), "unstake");
    } else {
        fund(&mut w, kind, "alice", START);
        check(stake(&mut w, kind, "alice", "alice", 9) && unstake(&mut w, "alice", 9), "unstake");
    }
    w.time = u64_in("t2", T0, TMAX);
    w.nanos = u64_in("n2", 0, 999_999_999);
    let due = or(w.time > t1 + p, and(w.time == t1 + p, w.nanos >= n1));
    if kind == 2 {
        check((nft::nclaims(&w, "alice", true).len() == 1) == due, "listed as releasable exactly when due");
        claim(&mut w, "alice", None);
        check((w.nft_owner(NFT, "na") == "alice") == due, "paid exactly when due");
    } else {
        check((claims(&w, "alice", true).len() == 1) == due, "listed as releasable exactly when due");
        claim(&mut w, "alice", None);
        check(bal(&w, kind, "alice") == if due { START } else { START - 9 }, "paid exactly when due");
    }
    if due {
        cover("paid");
    } else {
        cover("early");
    }
});

// C13: several unstakes under different periods: each part is paid on its own terms.
entry!(stake_claim_two, {
    let kind = choice("kind", 3);
    let mut d = unlock_in("unlocking");
    let mut w = world(kind, d);
    no_panic(true);
    let ids = ["na", "nb", "nc"];
    let users = ["alice", "bob"];
    let n = param("parts", 2) as usize;
    let mut parts = Vec::new();
    for u in users {
        if kind < 2 {
            fund(&mut w, kind, u, START);
            check(stake(&mut w, kind, u, u, START), "stake");
        }
    }
    let mut owed = 0;
    for i in 0..n {
        if i > 0 && choice("period_changes", 2) == 1 {
            let p = u64_in("new_period", 0, 1 << 31);
            d = if choice("new_by_height", 2) == 1 { Duration::Height(p) } else { Duration::Time(p) };
            let m = denom_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(denom_staking_api::api::UpdateUnlockingPeriodMsg {
                new_unlocking_period: Some(d),
            });
            check(w.exec(CTL, MEM, &m, vec![]), "period changed by governance");
        }
        w.time = u64_in("t", w.time, TMAX / 2);
        w.height = u64_in("h", w.height, TMAX / 2);
        let u = if i == 0 { 0 } else { choice("user", 2) as usize };
        let x = if kind == 2 {
            w.nft_set(NFT, ids[i], users[u]);
            check(nft::stake(&mut w, users[u], users[u], ids[i]), "stake");
            check(nft::unstake(&mut w, users[u], &[ids[i]]), "unstake");
            1
        } else {
            let x = u128_in("part", 1, START / 4);
            check(unstake(&mut w, users[u], x), "unstake");
            x
        };
        owed += x;
        parts.push((u, x, release(&w, d), false));
    }
    let held = |w: &World, kind: u64, u: usize| {
        if kind == 2 {
            let mut c = 0;
            for i in ids {
                if w.nft_owner(NFT, i) == users[u] {
                    c += 1;
                }
            }
            c
        } else {
            bal(w, kind, users[u])
        }
    };
    let mut early = false;
    for _ in 0..param("claims", 2) {
        w.time = u64_in("t", w.time, TMAX);
        w.height = u64_in("h", w.height, TMAX);
        let u = choice("claimer", 2) as usize;
        let before = [held(&w, kind, 0), held(&w, kind, 1)];
        let (mut pay, mut wait) = (0u128, 0u128);
        for p in parts.iter_mut() {
            if p.0 == u && !p.3 {
                if due(&w, p.2) {
                    pay += p.1;
                    p.3 = true;
                } else {
                    wait += p.1;
                    early = true;
                }
            }
        }
        claim(&mut w, users[u], None);
        check(held(&w, kind, u) == before[u] + pay, "exactly the parts whose own period has passed are paid");
        check(held(&w, kind, 1 - u) == before[1 - u], "nobody else is paid");
        owed -= pay;
        let mut listed = 0u128;
        if kind == 2 {
            for c in nft::nclaims(&w, users[u], false) {
                listed += c.nft_ids.len() as u128;
            }
        } else {
            for c in claims(&w, users[u], false) {
                listed += c.amount.u128();
            }
        }
        check(listed == wait, "the rest stays claimable");
    }
    if kind == 2 {
        let mut c = 0u128;
        for i in &ids[..n] {
            if w.nft_owner(NFT, i) == MEM {
                c += 1;
            }
        }
        check(c == owed, "what is owed is held");
    } else {
        check(bal(&w, kind, MEM) == now_total(&w) + owed, "stakes and claims are held");
    }
    cover(if early { "early" } else { "paid" });
});

// C14: historical totals.
entry!(stake_history, {
    let kind = choice("kind", 2);
    let mut w = world(kind, Duration::Time(5));
    no_panic(true);
    fund(&mut w, kind, "alice", START);
    let n = param("steps", 3);
    let mut hist: Vec<(u64, u64, u128)> = Vec::new();
    let mut tot = 0u128;
    for _ in 0..n {
        // a new block: later height, same or later second; or the same block
        if choice("same_block", 2) == 0 {
            w.height = u64_in("height", w.height + 1, TMAX);
            w.time = u64_in("time", w.time, TMAX);
        }
        let x = u128_in("amount", 1, MAXW);
        if choice("op", 2) == 0 {
            check(stake(&mut w, kind, "alice", "alice", x), "stake");
            tot += x;
        } else {
            let ok = unstake(&mut w, "alice", x);
            check(ok == (x <= tot), "unstake");
            if !ok {
                return;
            }
            tot -= x;
        }
        hist.push((w.height, w.time, tot));
    }
    let q = u64_in("at", 0, TMAX);
    let by_h = choice("by_height", 2) == 1;
    let mut want = 0u128;
    for (h, t, x) in &hist {
        let before = if by_h { *h < q } else { *t < q };
        want = ite(before, *x, want);
    }
    let got = total(&w, if by_h { Expiration::AtHeight(q) } else { Expiration::AtTime(Timestamp::from_seconds(q)) });
    check(got == want, "the total at a moment counts exactly the changes before it");
    check(now_total(&w) == tot, "current total");
    cover("asked");
});

// C16: exactly the registered contracts are told, once each, whatever was registered, removed and registered again.
entry!(stake_hooks, {
    const H: [&str; 4] = ["hook", "hookb", "hookc", "hookd"];
    let kind = choice("kind", 4);
    let init: &[usize] = [&[][..], &[0, 1, 2], &[1, 1]][choice("initial", 3) as usize];
    let mut l = Vec::new();
    let mut on = [false; 4];
    for i in init {
        l.push(H[*i].to_string());
        on[*i] = true;
    }
    let mut w = if kind == 3 {
        let mut w = multi::base();
        let mut m = multi::inst(&[("alice", 5)], None);
        m.weight_change_hooks = Some(l);
        w.init(FAC, MEM, to_json_binary(&m).unwrap());
        w
    } else {
        world_with(kind, Duration::Time(5), Some(l), None)
    };
    w.add("hookc", &SINK);
    w.add("hookd", &SINK);
    no_panic(true);
    use denom_staking_api::msg::ExecuteMsg as D;
    for _ in 0..param("steps", 2) {
        let i = choice("hook", 4) as usize;
        let m = WeightChangeHookMsg { hook_addr: H[i].to_string() };
        on[i] = choice("add", 2) == 1;
        let m = if on[i] { D::AddWeightChangeHook(m) } else { D::RemoveWeightChangeHook(m) };
        check(w.exec(CTL, MEM, &m, vec![]), "governance may");
    }
    let since = w.log.len();
    let ok = match kind {
        0 | 1 => {
            fund(&mut w, kind, "alice", 3);
            stake(&mut w, kind, "alice", "alice", 3)
        }
        2 => {
            w.nft_set(NFT, "na", "alice");
            nft::stake(&mut w, "alice", "alice", "na")
        }
        _ => {
            let m = multisig_membership_api::msg::ExecuteMsg::UpdateMembers(UpdateMembersMsg {
                update_members: vec![UserWeight { user: "alice".to_string(), weight: 7u128.into() }],
            });
            w.exec(CTL, MEM, &m, vec![])
        }
    };
    check(ok, "weight changed");
    let mut any = false;
    for i in 0..4 {
        check(reported(&w, since, H[i]).len() == on[i] as usize, "the registered contracts, and only they, are told");
        any |= on[i];
    }
    cover(if any { "told" } else { "none" });
});

// C16: who may change settings; whose weight changes are reported to whom.
entry!(stake_auth, {
    let kind = choice("kind", 4);
    let mut w = if kind == 3 { multi::world(&[("alice", 5)], None) } else { world(kind, Duration::Time(5)) };
    no_panic(true);
    let who = addr_in("sender", 8);
    let who = who.as_str();
    let op = choice("op", 5);
    let hk = |s: &str| WeightChangeHookMsg { hook_addr: s.to_string() };
    use denom_staking_api::msg::ExecuteMsg as D;
    let p = u64_in("period", 0, u64::MAX);
    let (ok, applies) = match op {
        0 => (w.exec(who, MEM, &D::AddWeightChangeHook(hk("hookb")), vec![]), true),
        1 => (w.exec(who, MEM, &D::RemoveWeightChangeHook(hk(HOOK)), vec![]), true),
        2 => (
            w.exec(
                who,
                MEM,
                &D::UpdateUnlockingPeriod(denom_staking_api::api::UpdateUnlockingPeriodMsg {
                    new_unlocking_period: Some(Duration::Time(p)),
                }),
                vec![],
            ),
            kind != 3,
        ),
        3 => (
            w.exec(
                who,
                MEM,
                &multisig_membership_api::msg::ExecuteMsg::UpdateMembers(UpdateMembersMsg {
                    update_members: vec![UserWeight { user: "alice".to_string(), weight: 7u128.into() }],
                }),
                vec![],
            ),
            kind == 3,
        ),
        _ => (
            w.exec(
                who,
                MEM,
                &multisig_membership_api::msg::ExecuteMsg::SetMembers(SetMembersMsg {
                    new_members: vec![UserWeight { user: "alice".to_string(), weight: 7u128.into() }],
                }),
                vec![],
            ),
            kind == 3,
        ),
    };
    check(ok == (who == CTL && applies), "only the governance controller changes membership settings");
    // observe the effect
    let since = w.log.len();
    match kind {
        0 | 1 => {
            fund(&mut w, kind, "alice", 3);
            check(stake(&mut w, kind, "alice", "alice", 3), "stake");
            let period = match kind {
                0 => {
                    let r: denom_staking_api::api::DenomConfigResponse =
                        w.query(MEM, &denom_staking_api::msg::QueryMsg::DenomConfig {}).unwrap();
                    r.unlocking_period
                }
                _ => {
                    let r: token_staking_api::api::TokenConfigResponse =
                        w.query(MEM, &token_staking_api::msg::QueryMsg::TokenConfig {}).unwrap();
                    r.unlocking_period
                }
            };
            check(period == Duration::Time(if ok && op == 2 { p } else { 5 }), "unlocking period as decided");
        }
        2 => {
            w.nft_set(NFT, "na", "alice");
            check(nft::stake(&mut w, "alice", "alice", "na"), "stake");
            let r: nft_staking_api::api::NftConfigResponse =
                w.query(MEM, &nft_staking_api::msg::QueryMsg::NftConfig {}).unwrap();
            check(r.unlocking_period == Duration::Time(if ok && op == 2 { p } else { 5 }), "unlocking period as decided");
        }
        _ => {
            check(weight(&w, "alice") == if ok && op >= 3 { 7 } else { 5 }, "member weight as decided");
            check(
                w.exec(
                    CTL,
                    MEM,
                    &multisig_membership_api::msg::ExecuteMsg::UpdateMembers(UpdateMembersMsg {
                        update_members: vec![UserWeight { user: "bob".to_string(), weight: 1u128.into() }],
                    }),
                    vec![],
                ),
                "update",
            );
        }
    }
    check((reported(&w, since, HOOK).len() == 1) == !(ok && op == 1), "reported to every registered contract");
    check((reported(&w, since, "hookb").len() == 1) == (ok && op == 0), "and to no other");
    cover(if ok { "allowed" } else { "refused" });
});

// C16: restricted users gain no weight.
entry!(stake_restricted, {
    let kind = choice("kind", 3);
    let mut w = world(kind, Duration::Time(5));
    no_panic(true);
    let a = u128_in("amount", 1, MAXW);
    if kind < 2 {
        fund(&mut w, kind, "alice", a);
    }
    w.nft_set(NFT, "na", "alice");
    w.nft_set(NFT, "nb", "alice");
    let n = 3 + 2 * choice("restricted", 2);
    let who = name_in(n);
    let user = addr_in("user", 5);
    let (who, user) = (who.as_str(), user.as_str());
    // those restricted later may hold a stake already
    let mut held = 0;
    if choice("held", 2) == 1 {
        if kind == 2 {
            held = 1;
            check(nft::stake(&mut w, "alice", user, "nb"), "admitted");
        } else {
            held = u128_in("held_amount", 1, MAXW);
            fund(&mut w, kind, "alice", held);
            check(stake(&mut w, kind, "alice", user, held), "admitted");
            fund(&mut w, kind, "alice", a);
        }
    }
    restrict(&mut w, who);
    let bulk = kind == 1 && choice("bulk", 2) == 1;
    let first = if bulk { choice("first", 2) as u128 } else { 0 };
    if bulk {
        fund(&mut w, kind, "alice", a + first);
    }
    let ok = if bulk {
        tok_send(
            &mut w,
            "alice",
            a + first,
            &token_staking_api::msg::Cw20HookMsg::AddStakes {
                stakers: {
                    let mut l = Vec::new();
                    if first == 1 {
                        // an entry for a user nobody restricts goes ahead
                        l.push(token_staking_api::api::UserStake { user: "an-admitted-user".to_string(), staked_amount: 1u128.into() });
                    }
                    l.push(token_staking_api::api::UserStake { user: user.to_string(), staked_amount: a.into() });
                    l
                },
            },
        )
    } else if kind == 2 {
        nft::stake(&mut w, "alice", user, "na")
    } else {
        stake(&mut w, kind, "alice", user, a)
    };
    check(ok == (who != user), "restricted users cannot be given stake");
    let want = if kind == 2 { 1 } else { a };
    check(weight(&w, user) == held + if ok { want } else { 0 }, "weight");
    cover(if ok { "allowed" } else { "refused" });
});
