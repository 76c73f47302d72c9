//! Funds distributor and treasury.
use cosmwasm_std::*;
use cw_asset::{AssetInfo, AssetInfoUnchecked};
use enterprise_treasury_api::api::*;
use funds_distributor_api::api::*;
use funds_distributor_api::msg::{Cw20HookMsg, ExecuteMsg, InstantiateMsg, QueryMsg};
use stubs::*;
use symrt::chain::*;
use symrt::*;
pub mod list;
pub mod treas;


code!(
    DISTR,
    funds_distributor::contract,
    funds_distributor_api::msg::InstantiateMsg,
    funds_distributor_api::msg::ExecuteMsg,
    funds_distributor_api::msg::QueryMsg
);
code!(
    TREASURY,
    enterprise_treasury::contract,
    enterprise_treasury_api::msg::InstantiateMsg,
    enterprise_treasury_api::msg::ExecuteMsg,
    enterprise_treasury_api::msg::QueryMsg
);

pub const MAXW: u128 = 1 << 100;
/// Bounded so that amount * 10^18 (an index of reward per unit of weight) stays within 128 bits.
pub const MAXA: u128 = 1 << 64;
pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const RWD: &str = "ureward";
pub const USERS: [&str; 3] = ["alice", "bob", "carol"];

fn fac_query(_d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<enterprise_factory_api::msg::QueryMsg>(&b).map_err(|_| ())? {
        enterprise_factory_api::msg::QueryMsg::GlobalAssetWhitelist {} => {
            to_json_binary(&AssetWhitelistResponse { assets: vec![AssetInfo::native("uglobal")] }).map_err(|_| ())
        }
        _ => Err(()),
    }
}
pub static FACTORY: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: fac_query, reply: no_reply };

pub fn base(whitelist: Vec<AssetInfoUnchecked>) -> World {
    let mut w = World::new();
    w.add(ENT, &ENTERPRISE);
    w.add(CTL, &SINK);
    w.add(FAC, &FACTORY);
    w.add(TOK, &CW20);
    w.add("tokb", &CW20);
    w.add(NFT, &CW721);
    w.add(TRE, &TREASURY);
    w.add(DIST, &DISTR);
    w.init(
        FAC,
        TRE,
        to_json_binary(&enterprise_treasury_api::msg::InstantiateMsg {
            admin: CTL.to_string(),
            asset_whitelist: Some(whitelist),
            nft_whitelist: None,
        })
        .unwrap(),
    );
    w
}
pub fn inst(init: &[(&str, u128)], min: Option<u128>) -> InstantiateMsg {
    let mut v = Vec::new();
    for (u, x) in init {
        v.push(uw(u, *x));
    }
    InstantiateMsg {
        admin: CTL.to_string(),
        enterprise_contract: ENT.to_string(),
        initial_weights: v,
        minimum_eligible_weight: min.map(Uint128::from),
    }
}
pub fn world(init: &[(&str, u128)], min: Option<u128>) -> World {
    let mut w = base(vec![AssetInfoUnchecked::native(RWD), AssetInfoUnchecked::cw20(TOK)]);
    w.init(FAC, DIST, to_json_binary(&inst(init, min)).unwrap());
    w
}
pub fn uw(u: &str, x: u128) -> UserWeight {
    UserWeight { user: u.to_string(), weight: x.into() }
}
/// asset: 0 native, 1 CW20
pub fn distribute(w: &mut World, asset: u64, amt: u128) -> bool {
    if asset == 0 {
        w.set_bal("payer", RWD, amt);
        w.exec("payer", DIST, &ExecuteMsg::DistributeNative {}, vec![coin(amt, RWD)])
    } else {
        w.cw20_set(TOK, "payer", amt);
        let msg = to_json_binary(&Cw20HookMsg::Distribute {}).unwrap();
        w.exec("payer", TOK, &cw20::Cw20ExecuteMsg::Send { contract: DIST.to_string(), amount: amt.into(), msg }, vec![])
    }
}
pub fn set_weights(w: &mut World, l: &[(&str, u128)]) -> bool {
    let mut v = Vec::new();
    for (u, x) in l {
        v.push(uw(u, *x));
    }
    w.exec(CTL, DIST, &ExecuteMsg::UpdateUserWeights(UpdateUserWeightsMsg { new_user_weights: v }), vec![])
}
pub fn set_min(w: &mut World, min: u128) -> bool {
    let m = UpdateMinimumEligibleWeightMsg { minimum_eligible_weight: min.into() };
    w.exec(CTL, DIST, &ExecuteMsg::UpdateMinimumEligibleWeight(m), vec![])
}
fn strs(l: &[&str]) -> Vec<String> {
    l.iter().map(|s| s.to_string()).collect()
}
pub fn claim(w: &mut World, by: &str, user: &str, denoms: &[&str], tokens: &[&str]) -> bool {
    let m = ClaimRewardsMsg { user: user.to_string(), native_denoms: strs(denoms), cw20_assets: strs(tokens) };
    w.exec(by, DIST, &ExecuteMsg::ClaimRewards(m), vec![])
}
/// What the contract says the user can claim of the native and the CW20 reward.
pub fn rewards(w: &World, user: &str) -> [u128; 2] {
    let p = UserRewardsParams { user: user.to_string(), native_denoms: strs(&[RWD]), cw20_assets: strs(&[TOK]) };
    let r: UserRewardsResponse = w.query(DIST, &QueryMsg::UserRewards(p)).unwrap();
    check(r.native_rewards.len() == 1 && r.cw20_rewards.len() == 1, "one reward per asset asked for");
    check(r.native_rewards[0].denom == RWD && r.cw20_rewards[0].asset == TOK, "reward of the asset asked for");
    [r.native_rewards[0].amount.u128(), r.cw20_rewards[0].amount.u128()]
}
pub fn held(w: &World, who: &str) -> [u128; 2] {
    [w.bal(who, RWD), w.cw20_bal(TOK, who)]
}

/// What everybody is entitled to, in units of 10^-18.
pub struct Model {
    pub weight: [u128; 3],
    pub min: u128,
    pub due: [[Z; 2]; 3],
    pub paid: [[u128; 2]; 3],
    pub got: [Z; 2],
    pub slack: u128,
}
impl Model {
    pub fn new(weight: [u128; 3], min: u128) -> Model {
        let o = z(0u128);
        Model { weight, min, due: [[o; 2]; 3], paid: [[0; 2]; 3], got: [o; 2], slack: 0 }
    }
    pub fn effective(&self, u: usize) -> u128 {
        if self.weight[u] >= self.min {
            self.weight[u]
        } else {
            0
        }
    }
    pub fn total(&self) -> u128 {
        self.effective(0) + self.effective(1) + self.effective(2)
    }
    /// Share out `amt` among those eligible now.
    pub fn distribute(&mut self, asset: usize, amt: u128) {
        let per_weight = Decimal::from_ratio(amt, self.total()).atomics().u128();
        for u in 0..3 {
            self.due[u][asset] = self.due[u][asset] + z(self.effective(u)) * z(per_weight);
        }
        self.got[asset] = self.got[asset] + z(amt);
    }
}
/// Compares entitlement with what was paid and what can still be claimed.
pub fn agree(w: &World, m: &Model) {
    for a in 0..2 {
        let mut all = z(0u128);
        for u in 0..3 {
            let r = rewards(w, USERS[u])[a];
            let sum = z(r) + z(m.paid[u][a]);
            all = all + sum;
            check((sum * z(ONE)).le(m.due[u][a]), "nobody gets more than their share");
            check(((sum + z(m.slack + 1)) * z(ONE)).gt(m.due[u][a]), "everybody gets their share, up to rounding");
        }
        check(all.le(m.got[a]), "never more than was distributed");
        check(z(held(w, DIST)[a]).ge(all - z(m.paid[0][a]) - z(m.paid[1][a]) - z(m.paid[2][a])), "what is owed is held");
    }
}
/// One operation of a history.
pub fn step(w: &mut World, m: &mut Model, op: u64, assets: u64) {
    match op {
        0 => {
            let a = choice("asset", assets);
            let x = u128_in("amount", 1, MAXA);
            let none = m.total() == 0;
            let ok = distribute(w, a, x);
            check(ok == !none, "distributed whenever somebody is eligible");
            if ok {
                m.distribute(a as usize, x);
                cover("distributed");
            }
        }
        1 => {
            let u = choice("user", 3) as usize;
            let x = u128_in("weight", 0, MAXW);
            check(set_weights(w, &[(USERS[u], x)]), "weight updated");
            m.weight[u] = x;
            m.slack += 1;
            cover("reweighted");
        }
        2 => {
            let x = u128_in("min", 0, MAXW);
            check(set_min(w, x), "minimum updated");
            m.min = x;
            m.slack += 1;
            cover("new_minimum");
        }
        3 => {
            let u = choice("claimer", 3) as usize;
            let before = held(w, USERS[u]);
            let can = rewards(w, USERS[u]);
            check(claim(w, USERS[u], USERS[u], &[RWD], &[TOK]), "claim");
            let after = held(w, USERS[u]);
            for a in 0..2 {
                check(after[a] == before[a] + can[a], "the whole reward is paid");
                m.paid[u][a] += after[a] - before[a];
            }
            check(rewards(w, USERS[u]) == [0, 0], "and only once");
            m.slack += 1;
            cover("claimed");
        }
        _ => {
            let x = u128_in("weight", 0, MAXW);
            let y = u128_in("weight", 0, MAXW);
            let (p, q) = [(0usize, 1usize), (1, 2), (2, 2)][choice("pair", 3) as usize];
            check(set_weights(w, &[(USERS[p], x), (USERS[q], y)]), "weights updated");
            m.weight[p] = x;
            m.weight[q] = y;
            m.slack += 1;
        }
    }
}
fn start() -> (World, Model) {
    let a = u128_in("alice", 0, MAXW);
    let b = u128_in("bob", 0, MAXW);
    let min = u128_in("min", 0, MAXW);
    let w = world(&[("alice", a), ("bob", b)], Some(min));
    no_panic(true);
    (w, Model::new([a, b, 0], min))
}
// C17, C18: any history.
entry!(dist_history, {
    let (mut w, mut m) = start();
    let n = param("steps", 3);
    for _ in 0..n {
        step(&mut w, &mut m, choice("op", 5), 2);
    }
    agree(&w, &m);
});
// C17, C18: between two distributions.
entry!(dist_between, {
    let (mut w, mut m) = start();
    step(&mut w, &mut m, 0, 1);
    let n = param("steps", 2);
    for _ in 0..n {
        step(&mut w, &mut m, choice("op", 5), 1);
    }
    step(&mut w, &mut m, 0, 1);
    agree(&w, &m);
});

// C19: claims.
entry!(dist_claim, {
    let a = u128_in("alice", 1, MAXW);
    let b = u128_in("bob", 1, MAXW);
    let mut w = world(&[("alice", a), ("bob", b)], None);
    no_panic(true);
    let x = u128_in("native", 1, MAXA);
    let y = u128_in("tokens", 1, MAXA);
    check(distribute(&mut w, 0, x), "distributed");
    check(distribute(&mut w, 1, y), "distributed");
    w.set_bal(DIST, "uother", 7);
    let restricted = [None, Some("alice"), Some("bob")][choice("restricted", 3) as usize];
    if let Some(r) = restricted {
        restrict(&mut w, r);
    }
    let by = addr_in("sender", 7);
    let by = by.as_str();
    let user = ["alice", "bob"][choice("user", 2) as usize];
    let (denoms, tokens): (&[&str], &[&str]) = [
        (&[RWD][..], &[][..]),
        (&[], &[TOK]),
        (&[RWD, RWD], &[TOK, TOK]),
        (&["uother", RWD], &["tokb"]),
        (&[], &[]),
    ][choice("list", 5) as usize];
    let can = rewards(&w, user);
    let before: Vec<[u128; 2]> = ["alice", "bob", "mallory", CTL].iter().map(|u| held(&w, u)).collect();
    let ok = claim(&mut w, by, user, denoms, tokens);
    check(ok == (by == user && restricted != Some(user)), "only the unrestricted user themself claims");
    let paid = [
        if ok && denoms.contains(&RWD) { can[0] } else { 0 },
        if ok && tokens.contains(&TOK) { can[1] } else { 0 },
    ];
    for (i, u) in ["alice", "bob", "mallory", CTL].iter().enumerate() {
        let want = if *u == user { paid } else { [0, 0] };
        let now = held(&w, u);
        check(now[0] == before[i][0] + want[0] && now[1] == before[i][1] + want[1], "paid once, and only what was asked for");
    }
    let left = rewards(&w, user);
    check(left[0] + paid[0] == can[0] && left[1] + paid[1] == can[1], "what was not asked for stays claimable");
    check(w.bal(DIST, "uother") == 7, "other funds stay");
    cover(if ok { "claimed" } else { "refused" });
});

// C20: who may distribute what, and who sets weights.
entry!(dist_auth, {
    let a = u128_in("alice", 1, MAXW);
    let min = u128_in("min", 0, MAXW);
    let mut w = world(&[("alice", a)], Some(min));
    no_panic(true);
    let by = addr_in("sender", 8);
    let by = by.as_str();
    let x = u128_in("x", 0, MAXW);
    let op = choice("op", 2);
    let ok = if op == 0 {
        w.exec(by, DIST, &ExecuteMsg::UpdateUserWeights(UpdateUserWeightsMsg { new_user_weights: vec![uw("bob", x)] }), vec![])
    } else {
        let m = UpdateMinimumEligibleWeightMsg { minimum_eligible_weight: x.into() };
        w.exec(by, DIST, &ExecuteMsg::UpdateMinimumEligibleWeight(m), vec![])
    };
    check(ok == (by == CTL), "only the governance controller changes reward weights");
    let r: MinimumEligibleWeightResponse = w.query(DIST, &QueryMsg::MinimumEligibleWeight {}).unwrap();
    check(r.minimum_eligible_weight.u128() == if ok && op == 1 { x } else { min }, "minimum as decided");
    // who shares in a distribution now
    let m = if ok && op == 1 { x } else { min };
    let ea = ite(a >= m, a, 0);
    let eb = if ok && op == 0 { ite(x >= m, x, 0) } else { 0 };
    let d = distribute(&mut w, 0, 1000);
    check(d == (ea + eb > 0), "distributed whenever somebody is eligible");
    if d {
        check(implies(ea == 0, rewards(&w, "alice")[0] == 0), "alice");
        check(implies(eb == 0, rewards(&w, "bob")[0] == 0), "bob");
    } else {
        check(w.bal("payer", RWD) == 1000 && w.bal(DIST, RWD) == 0, "refused funds stay with the payer");
    }
    cover(if ok { "allowed" } else { "refused" });
});

// C20: only whitelisted assets, however long the list.
entry!(dist_whitelist, {
    let n = [0u64, 1, 30, 31, 60, 61][choice("listed", 6) as usize];
    let mut wl = Vec::new();
    for i in 0..n {
        wl.push(AssetInfoUnchecked::native(format!("ua{:03}", i)));
    }
    let cw = choice("cw20_listed", 2) == 1;
    if cw {
        wl.push(AssetInfoUnchecked::cw20("aaa"));
        wl.push(AssetInfoUnchecked::cw20(TOK));
    }
    let nat = choice("native_listed", 2) == 1;
    if nat {
        wl.push(AssetInfoUnchecked::native(RWD));
    }
    let mut w = base(wl);
    let a = u128_in("alice", 1, MAXW);
    w.init(FAC, DIST, to_json_binary(&inst(&[("alice", a)], None)).unwrap());
    no_panic(true);
    let x = u128_in("amount", 1, MAXA);
    let y = u128_in("other", 1, MAXA);
    let (ok, want) = match choice("what", 6) {
        0 => (distribute(&mut w, 0, x), nat),
        1 => (distribute(&mut w, 1, x), cw),
        2 => {
            w.set_bal("payer", "uglobal", y);
            w.set_bal("payer", RWD, x);
            (w.exec("payer", DIST, &ExecuteMsg::DistributeNative {}, vec![coin(y, "uglobal"), coin(x, RWD)]), nat)
        }
        3 => {
            w.set_bal("payer", "ubad", y);
            w.set_bal("payer", RWD, x);
            (w.exec("payer", DIST, &ExecuteMsg::DistributeNative {}, vec![coin(x, RWD), coin(y, "ubad")]), false)
        }
        4 => {
            w.cw20_set("tokb", "payer", x);
            let msg = to_json_binary(&Cw20HookMsg::Distribute {}).unwrap();
            let m = cw20::Cw20ExecuteMsg::Send { contract: DIST.to_string(), amount: x.into(), msg };
            (w.exec("payer", "tokb", &m, vec![]), false)
        }
        _ => {
            let msg = to_json_binary(&Cw20HookMsg::Distribute {}).unwrap();
            let m = cw20::Cw20ReceiveMsg { sender: "payer".to_string(), amount: x.into(), msg };
            (w.exec("mallory", DIST, &ExecuteMsg::Receive(m), vec![]), false)
        }
    };
    check(ok == want, "exactly whitelisted assets can be distributed");
    let r = rewards(&w, "alice");
    if !ok {
        check(r == [0, 0], "nothing credited");
    }
    check(z(r[0]).le(z(w.bal(DIST, RWD))) && z(r[1]).le(z(w.cw20_bal(TOK, DIST))), "credited only what arrived");
    cover(if ok { "distributed" } else { "refused" });
});

// C20: nobody is listed twice at creation.
entry!(dist_inst, {
    let a = u128_in("a", 0, MAXW);
    let b = u128_in("b", 0, MAXW);
    let min = u128_in("min", 0, MAXW);
    let mut w = base(vec![AssetInfoUnchecked::native(RWD)]);
    no_panic(true);
    let dup = choice("dup", 2) == 1;
    let ok = w.try_init(FAC, DIST, &inst(&[("alice", a), (if dup { "alice" } else { "bob" }, b)], Some(min)));
    check(ok == !dup, "each member once");
    cover(if ok { "created" } else { "refused" });
});
