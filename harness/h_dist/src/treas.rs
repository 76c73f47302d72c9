//! Treasury.
use crate::*;
use common::cw::ReleaseAt;
use cw_asset::AssetUnchecked;
use cw_storage_plus::{Index, IndexList, IndexedMap, Item, Map, MultiIndex};
use cw_utils::Duration;
use enterprise_treasury::migration::{Claim, ClaimAsset, Cw20ClaimAsset, Cw721ClaimAsset};
use enterprise_treasury_api::msg::ExecuteMsg as X;
use enterprise_versioning_api::api::{Version, VersionInfo};
use enterprise_treasury_api::msg::QueryMsg as Q;
use membership_common_api::api::*;

code!(
    TSTAKE,
    token_staking_membership::contract,
    token_staking_api::msg::InstantiateMsg,
    token_staking_api::msg::ExecuteMsg,
    token_staking_api::msg::QueryMsg
);
code!(
    NSTAKE,
    nft_staking_membership::contract,
    nft_staking_api::msg::InstantiateMsg,
    nft_staking_api::msg::ExecuteMsg,
    nft_staking_api::msg::QueryMsg
);

pub fn native(d: &str, x: u128) -> AssetUnchecked {
    AssetUnchecked::native(d, x)
}
pub fn token(t: &str, x: u128) -> AssetUnchecked {
    AssetUnchecked::cw20(t, x)
}
pub fn whitelist(w: &World, start: Option<AssetInfoUnchecked>, limit: Option<u32>) -> Vec<AssetInfo> {
    let r: AssetWhitelistResponse = w.query(TRE, &Q::AssetWhitelist(AssetWhitelistParams { start_after: start, limit })).unwrap();
    r.assets
}
pub fn nfts(w: &World) -> Vec<String> {
    let r: NftWhitelistResponse = w.query(TRE, &Q::NftWhitelist(NftWhitelistParams { start_after: None, limit: None })).unwrap();
    r.nfts.into_iter().map(|a| a.to_string()).collect()
}
pub fn admin(w: &World) -> String {
    let r: ConfigResponse = w.query(TRE, &Q::Config {}).unwrap();
    r.admin.to_string()
}
const PEOPLE: [&str; 4] = ["bob", "mallory", CTL, DIST];

// C21: only the administrator moves anything.
entry!(treas_auth, {
    let mut w = world(&[("alice", 5)], None);
    no_panic(true);
    w.set_bal(TRE, RWD, 1000);
    w.cw20_set(TOK, TRE, 1000);
    // administration may have been handed over before
    let over = choice("handed_over", 2) == 1;
    if over {
        check(w.exec(CTL, TRE, &X::SetAdmin(SetAdminMsg { new_admin: "newadmin".to_string() }), vec![]), "handed over");
    }
    let adm = if over { "newadmin" } else { CTL };
    check(admin(&w) == adm, "administrator");
    let by = addr_in("sender", 8);
    let by = by.as_str();
    let x = u128_in("amount", 1, 1000);
    let op = choice("op", 6);
    let since = w.log.len();
    let m = match op {
        0 => X::SetAdmin(SetAdminMsg { new_admin: "other".to_string() }),
        1 => X::UpdateAssetWhitelist(UpdateAssetWhitelistMsg { add: vec![AssetInfoUnchecked::native("unew")], remove: vec![] }),
        2 => X::UpdateNftWhitelist(UpdateNftWhitelistMsg { add: vec![NFT.to_string()], remove: vec![] }),
        3 => X::Spend(SpendMsg { recipient: "bob".to_string(), assets: vec![native(RWD, x), token(TOK, x)] }),
        4 => X::DistributeFunds(DistributeFundsMsg {
            funds: vec![native(RWD, x), token(TOK, x)],
            funds_distributor_contract: DIST.to_string(),
        }),
        _ => X::ExecuteCosmosMsgs(ExecuteCosmosMsgsMsg {
            msgs: vec!["{\"bank\":{\"send\":{\"to_address\":\"bob\",\"amount\":[{\"denom\":\"ureward\",\"amount\":\"7\"}]}}}".to_string()],
        }),
    };
    let ok = w.exec(by, TRE, &m, vec![]);
    check(ok == (by == adm), "only the administrator");
    if !ok {
        check(held(&w, TRE) == [1000, 1000], "nothing moved");
        check(w.log.len() <= since + 1, "no message sent");
    }
    check(admin(&w) == if ok && op == 0 { "other" } else { adm }, "administrator changed only by themself");
    check((whitelist(&w, None, None).len() == 3) == (ok && op == 1), "asset whitelist");
    check((nfts(&w).len() == 1) == (ok && op == 2), "NFT whitelist");
    // the migration of old stakes is open to everybody but not for a DAO that has none
    check(!w.exec(by, TRE, &X::PerformNextMigrationStep { submsgs_limit: Some(5) }, vec![]), "no migration");
    cover(if ok { "allowed" } else { "refused" });
});

// C21: spending and distributing move exactly what was decided.
entry!(treas_spend, {
    let mut w = world(&[("alice", 5)], None);
    no_panic(true);
    let hn = u128_in("held_native", 0, MAXA);
    let ht = u128_in("held_tokens", 0, MAXA);
    let x = u128_in("native", 1, MAXA);
    let y = u128_in("tokens", 1, MAXA);
    let x2 = u128_in("native_again", 1, MAXA);
    w.set_bal(TRE, RWD, hn);
    w.cw20_set(TOK, TRE, ht);
    let list = choice("list", 6);
    let (assets, sn, st) = match list {
        0 => (vec![native(RWD, x)], x, 0),
        1 => (vec![token(TOK, y)], 0, y),
        2 => (vec![native(RWD, x), token(TOK, y)], x, y),
        3 => (vec![token(TOK, y), native(RWD, x), native(RWD, x2)], x + x2, y),
        4 => (vec![token(TOK, y), token(TOK, x2)], 0, y + x2),
        _ => (vec![], 0, 0),
    };
    let dist = choice("distribute", 2) == 1;
    let (m, to) = if dist {
        (X::DistributeFunds(DistributeFundsMsg { funds: assets, funds_distributor_contract: DIST.to_string() }), DIST)
    } else {
        (X::Spend(SpendMsg { recipient: "bob".to_string(), assets }), "bob")
    };
    let ok = w.exec(CTL, TRE, &m, vec![]);
    if dist && list == 3 {
        // one denom listed twice: refused, or distributed in full
        check(implies(ok, and(sn <= hn, st <= ht)), "done only if the treasury can afford it");
    } else {
        check(iff(ok, and(sn <= hn, st <= ht)), "done whenever the treasury can afford it");
    }
    let (sn, st) = if ok { (sn, st) } else { (0, 0) };
    let t = held(&w, TRE);
    check(t[0] + sn == hn && t[1] + st == ht, "exactly that leaves the treasury");
    for p in PEOPLE {
        let b = held(&w, p);
        let want = if p == to { [sn, st] } else { [0, 0] };
        check(b[0] == want[0] && b[1] == want[1], "and reaches exactly the recipient");
    }
    if dist && ok {
        let r = rewards(&w, "alice");
        check(z(r[0]).le(z(sn)) && z(r[1]).le(z(st)), "credited");
        check(z(r[0] + 2).ge(z(sn)) && z(r[1] + 2).ge(z(st)), "the only member gets all of it");
        cover("distributed");
    }
    cover(if ok { "spent" } else { "refused" });
});

// C21: messages are sent as given, in order, all or none.
entry!(treas_msgs, {
    let mut w = world(&[("alice", 5)], None);
    no_panic(true);
    w.set_bal(TRE, RWD, 100);
    w.set_bal(TRE, "ub", 100);
    let all = [
        "{\"bank\":{\"send\":{\"to_address\":\"bob\",\"amount\":[{\"denom\":\"ureward\",\"amount\":\"7\"}]}}}",
        "{\"bank\":{\"send\":{\"to_address\":\"mallory\",\"amount\":[{\"denom\":\"ub\",\"amount\":\"101\"}]}}}",
        "{\"bank\":{\"send\":{\"to_address\":\"carol\",\"amount\":[{\"denom\":\"ub\",\"amount\":\"9\"}]}}}",
        "{\"bank\":{\"send\":",
        "{\"custom\":\"x\"}",
    ];
    let n = 1 + choice("n", 3);
    let mut msgs = Vec::new();
    let mut idx = Vec::new();
    for _ in 0..n {
        let i = choice("msg", 5) as usize;
        idx.push(i);
        msgs.push(all[i].to_string());
    }
    let since = w.log.len();
    let ok = w.exec(CTL, TRE, &X::ExecuteCosmosMsgs(ExecuteCosmosMsgsMsg { msgs }), vec![]);
    let bad = idx.iter().any(|i| *i == 3 || *i == 4 || *i == 1);
    check(ok == !bad, "runs when every message is valid and succeeds");
    if ok {
        let mut k = 0;
        for (s, m) in w.log.iter().skip(since) {
            if s == TRE {
                let (to, c) = if idx[k] == 0 { ("bob", coin(7, RWD)) } else { ("carol", coin(9, "ub")) };
                check(
                    *m == CosmosMsg::Bank(BankMsg::Send { to_address: to.to_string(), amount: vec![c] }),
                    "each message as given, in order",
                );
                k += 1;
            }
        }
        check(k == idx.len(), "every message once");
        cover("ran");
    } else {
        check(w.bal(TRE, RWD) == 100 && w.bal(TRE, "ub") == 100, "all or nothing");
        cover("failed");
    }
});

// C21: the whitelists are what was last decided, page by page.
entry!(treas_whitelist, {
    let mut w = base(vec![AssetInfoUnchecked::native("ua"), AssetInfoUnchecked::cw20("toka")]);
    no_panic(true);
    let all = [
        AssetInfoUnchecked::native("ua"),
        AssetInfoUnchecked::native("ub"),
        AssetInfoUnchecked::native("uc"),
        AssetInfoUnchecked::cw20("toka"),
        AssetInfoUnchecked::cw20("tokz"),
    ];
    let mut set = [true, false, false, true, false];
    let n = param("steps", 2);
    for _ in 0..n {
        let a = choice("add", 5) as usize;
        let r = choice("remove", 6) as usize;
        let mut remove = Vec::new();
        if r < 5 {
            remove.push(all[r].clone());
        }
        check(
            w.exec(CTL, TRE, &X::UpdateAssetWhitelist(UpdateAssetWhitelistMsg { add: vec![all[a].clone()], remove }), vec![]),
            "updated",
        );
        set[a] = true;
        if r < 5 {
            set[r] = false;
        }
    }
    let mut want = Vec::new();
    for i in 0..5 {
        if set[i] {
            want.push(match &all[i] {
                AssetInfoUnchecked::Native(d) => AssetInfo::native(d.clone()),
                AssetInfoUnchecked::Cw20(a) => AssetInfo::cw20(Addr::unchecked(a.clone())),
                _ => panic!(),
            });
        }
    }
    check(whitelist(&w, None, None) == want, "whitelist as decided");
    // page by page
    let lim = 1 + choice("page", 3) as u32;
    let mut got: Vec<AssetInfo> = Vec::new();
    for _ in 0..6 {
        let start = got.last().map(|a| a.into());
        let mut p = whitelist(&w, start, Some(lim));
        check(p.len() <= lim as usize, "page size");
        got.append(&mut p);
    }
    check(got == want, "every asset on exactly one page");
    cover("listed");
});
entry!(treas_nft_whitelist, {
    let mut w = base(vec![]);
    no_panic(true);
    let all = ["na", "nb", "nc"];
    let mut set = [false; 3];
    let n = param("steps", 3);
    for _ in 0..n {
        let a = choice("add", 4) as usize;
        let r = choice("remove", 4) as usize;
        let add = if a < 3 { vec![all[a].to_string()] } else { vec![] };
        let remove = if r < 3 { vec![all[r].to_string()] } else { vec![] };
        check(w.exec(CTL, TRE, &X::UpdateNftWhitelist(UpdateNftWhitelistMsg { add, remove }), vec![]), "updated");
        if a < 3 {
            set[a] = true;
        }
        if r < 3 {
            set[r] = false;
        }
    }
    let got = nfts(&w);
    let mut k = 0;
    for i in 0..3 {
        if set[i] {
            check(k < got.len() && got[k] == all[i], "listed");
            k += 1;
        }
    }
    check(k == got.len(), "no other");
    cover("listed");
});

// ---- migration of stakes and claims of an old DAO ----
const STAKES: Map<Addr, Uint128> = Map::new("stakes");
const CLAIMS: Map<&Addr, Vec<Claim>> = Map::new("claims");
#[cosmwasm_schema::cw_serde]
pub struct MigrationInfo {
    pub version_info: VersionInfo,
    pub enterprise_contract: Option<Addr>,
    pub enterprise_governance_controller_contract: Option<Addr>,
    pub enterprise_outposts_contract: Option<Addr>,
    pub membership_contract: Option<Addr>,
    pub council_membership_contract: Option<Addr>,
    pub initial_submsgs_limit: Option<u32>,
}
#[cosmwasm_schema::cw_serde]
pub struct NftStake {
    pub staker: Addr,
    pub token_id: String,
}
pub struct NftIdx<'a> {
    pub staker: MultiIndex<'a, Addr, NftStake, String>,
}
impl IndexList<NftStake> for NftIdx<'_> {
    fn get_indexes(&'_ self) -> Box<dyn Iterator<Item = &'_ dyn Index<NftStake>> + '_> {
        let v: Vec<&dyn Index<NftStake>> = vec![&self.staker];
        Box::new(v.into_iter())
    }
}
fn nft_stakes<'a>() -> IndexedMap<'a, String, NftStake, NftIdx<'a>> {
    let staker = MultiIndex::new(|_: &[u8], s: &NftStake| s.staker.clone(), "nft_stakes", "nft_stakes__staker");
    IndexedMap::new("nft_stakes", NftIdx { staker })
}

fn ad(s: &str) -> Addr {
    Addr::unchecked(s)
}
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "snake_case")]
enum Word {
    Nft,
    Token,
    MigrationInProgress,
    MigrationNotStarted,
    MigrationCompleted,
}
fn put(w: &mut World, k: &str, v: &str) {
    let i = w.idx(TRE).unwrap();
    let b = match v {
        "nft" if k == "dao_type" => to_json_vec(&Word::Nft),
        "token" => to_json_vec(&Word::Token),
        "migration_in_progress" => to_json_vec(&Word::MigrationInProgress),
        "migration_not_started" => to_json_vec(&Word::MigrationNotStarted),
        "migration_completed" => to_json_vec(&Word::MigrationCompleted),
        _ => to_json_vec(&v),
    };
    w.cs[i].store.set(k.as_bytes(), &b.unwrap());
}
/// A treasury taken over from an old DAO, in the middle of its migration to `mem`.
pub fn old_dao(nft: bool) -> World {
    let mut w = base(vec![]);
    ent_type(&mut w, if nft { 2 } else { 1 });
    let enterprise_contract = ENT.to_string();
    if nft {
        w.add(MEM, &NSTAKE);
        let m = nft_staking_api::msg::InstantiateMsg {
            enterprise_contract,
            nft_contract: nft_staking_api::api::NftContract::Cw721 { contract: NFT.to_string() },
            unlocking_period: Duration::Time(5),
            weight_change_hooks: None,
            total_weight_by_height_checkpoints: None,
            total_weight_by_seconds_checkpoints: None,
        };
        w.init(FAC, MEM, to_json_binary(&m).unwrap());
    } else {
        w.add(MEM, &TSTAKE);
        let m = token_staking_api::msg::InstantiateMsg {
            enterprise_contract,
            token_contract: TOK.to_string(),
            unlocking_period: Duration::Time(5),
            weight_change_hooks: None,
            total_weight_by_height_checkpoints: None,
            total_weight_by_seconds_checkpoints: None,
        };
        w.init(FAC, MEM, to_json_binary(&m).unwrap());
    }
    put(&mut w, "dao_type", if nft { "nft" } else { "token" });
    put(&mut w, "dao_membership_contract", if nft { NFT } else { TOK });
    put(&mut w, "migration_stage", "migration_in_progress");
    let i = w.idx(TRE).unwrap();
    let info = MigrationInfo {
        version_info: VersionInfo {
            version: Version::new(1, 0, 0),
            changelog: vec![],
            attestation_code_id: 1,
            enterprise_code_id: 1,
            enterprise_governance_code_id: 1,
            enterprise_governance_controller_code_id: 1,
            enterprise_outposts_code_id: 1,
            enterprise_treasury_code_id: 1,
            funds_distributor_code_id: 1,
            token_staking_membership_code_id: 1,
            denom_staking_membership_code_id: 1,
            nft_staking_membership_code_id: 1,
            multisig_membership_code_id: 1,
        },
        enterprise_contract: Some(ad(ENT)),
        enterprise_governance_controller_contract: Some(ad(CTL)),
        enterprise_outposts_contract: Some(ad(OUT)),
        membership_contract: Some(ad(MEM)),
        council_membership_contract: Some(ad(CNC)),
        initial_submsgs_limit: None,
    };
    Item::new("migration_info").save(&mut w.cs[i].store, &info).unwrap();
    w
}
pub fn old_weight(w: &World, u: &str) -> u128 {
    let r: UserWeightResponse = w.query(TRE, &Q::UserWeight(UserWeightParams { user: u.to_string() })).unwrap();
    r.weight.u128()
}
pub fn new_weight(w: &World, u: &str) -> u128 {
    let r: UserWeightResponse =
        w.query(MEM, &token_staking_api::msg::QueryMsg::UserWeight(UserWeightParams { user: u.to_string() })).unwrap();
    r.weight.u128()
}
pub fn unmoved(w: &World) -> (bool, bool) {
    let a: HasUnmovedStakesOrClaimsResponse = w.query(TRE, &Q::HasUnmovedStakesOrClaims {}).unwrap();
    let b: HasIncompleteV2MigrationResponse = w.query(TRE, &Q::HasIncompleteV2Migration {}).unwrap();
    (a.has_unmoved_stakes_or_claims, b.has_incomplete_migration)
}
fn migrate(w: &mut World, limit: Option<u32>) -> bool {
    w.exec("anyone", TRE, &X::PerformNextMigrationStep { submsgs_limit: limit }, vec![])
}

// C22: tokens staked or waiting in an old DAO arrive once, whatever the batches.
entry!(migrate_token, {
    let mut w = old_dao(false);
    no_panic(true);
    let nu = 1 + choice("stakers", 3) as usize;
    let mut stake = [0u128; 3];
    let mut owed = 0u128;
    let ti = w.idx(TRE).unwrap();
    for u in 0..nu {
        stake[u] = u128_in("stake", 1, MAXA);
        owed += stake[u];
        STAKES.save(&mut w.cs[ti].store, ad(USERS[u]), &stake[u].into()).unwrap();
    }
    let mut claims: Vec<(usize, u128, ReleaseAt)> = Vec::new();
    for (u, n) in [(0usize, choice("alice_claims", 3)), (2, choice("carol_claims", 2))] {
        let mut l = Vec::new();
        for k in 0..n {
            let amount = u128_in("claim", 1, MAXA);
            owed += amount;
            let release_at =
                if k == 0 { ReleaseAt::Timestamp(Timestamp::from_seconds(50 + u as u64)) } else { ReleaseAt::Height(Uint64::new(77)) };
            claims.push((u, amount, release_at.clone()));
            l.push(Claim { asset: ClaimAsset::Cw20(Cw20ClaimAsset { amount: amount.into() }), release_at });
        }
        if n > 0 {
            CLAIMS.save(&mut w.cs[ti].store, &ad(USERS[u]), &l).unwrap();
        }
    }
    let extra = u128_in("treasury_funds", 0, MAXA);
    w.cw20_set(TOK, TRE, owed + extra);
    let mut done = false;
    for _ in 0..8 {
        let ok = migrate(&mut w, [Some(1), Some(2), Some(3), None][choice("batch", param("batches", 3)) as usize]);
        check(ok == !done, "a step is possible until everything is moved");
        if !ok {
            break;
        }
        for u in 0..3 {
            check(old_weight(&w, USERS[u]) == stake[u], "weight before the migration stays known");
            let x = new_weight(&w, USERS[u]);
            check(or(x == 0, x == stake[u]), "a stake moves whole, once");
        }
        let (un, inc) = unmoved(&w);
        check(implies(!inc, !un), "complete only when everything is moved");
        check(un == (w.cw20_bal(TOK, MEM) < owed), "what is left to move is reported");
        check(w.cw20_bal(TOK, TRE) + w.cw20_bal(TOK, MEM) == owed + extra, "no token is lost");
        check(w.cw20_bal(TOK, TRE) >= extra, "the treasury's own tokens stay");
        done = !un && !inc;
        if done && choice("again", 2) == 0 {
            break;
        }
    }
    check(done, "the migration ends");
    for u in 0..3 {
        check(new_weight(&w, USERS[u]) == stake[u], "every stake arrived");
        let r: token_staking_api::api::ClaimsResponse = w
            .query(MEM, &token_staking_api::msg::QueryMsg::Claims(token_staking_api::api::ClaimsParams { user: USERS[u].to_string() }))
            .unwrap();
        let mut k = 0;
        for (cu, amount, at) in &claims {
            if *cu == u {
                check(k < r.claims.len(), "every claim arrived");
                check(r.claims[k].amount.u128() == *amount && r.claims[k].release_at == *at, "as it was");
                k += 1;
            }
        }
        check(k == r.claims.len(), "and no other");
    }
    check(w.cw20_bal(TOK, TRE) == extra, "only staked and claimed tokens left the treasury");
    cover("moved");
});
// C22: what an earlier version left behind after calling its migration completed can still be moved; nothing moves before it starts.
entry!(migrate_stage, {
    let mut w = old_dao(false);
    no_panic(true);
    let stage = choice("stage", 3) as usize;
    put(&mut w, "migration_stage", ["migration_not_started", "migration_in_progress", "migration_completed"][stage]);
    let ti = w.idx(TRE).unwrap();
    let (x, y) = (u128_in("stake", 1, MAXA), u128_in("claim", 1, MAXA));
    let mut owed = 0u128;
    let has = (choice("staked", 2) == 1, choice("claimed", 2) == 1);
    if has.0 {
        STAKES.save(&mut w.cs[ti].store, ad("alice"), &x.into()).unwrap();
        owed += x;
    }
    let at = ReleaseAt::Height(Uint64::new(77));
    if has.1 {
        let c = Claim { asset: ClaimAsset::Cw20(Cw20ClaimAsset { amount: y.into() }), release_at: at.clone() };
        CLAIMS.save(&mut w.cs[ti].store, &ad("bob"), &vec![c]).unwrap();
        owed += y;
    }
    let extra = u128_in("treasury_funds", 0, MAXA);
    w.cw20_set(TOK, TRE, owed + extra);
    let (un, inc) = unmoved(&w);
    check(un == or(has.0, has.1) && inc == (stage == 1), "what is left, and the stage, are reported");
    for _ in 0..4 {
        let may = unmoved(&w).0;
        let ok = migrate(&mut w, None);
        if stage == 0 {
            check(!ok, "not before it starts");
        }
        if stage == 2 {
            check(ok == may, "exactly while something is left");
        }
    }
    if stage > 0 {
        let (un, inc) = unmoved(&w);
        check(!un && !inc, "all moved");
        check(new_weight(&w, "alice") == if has.0 { x } else { 0 } && w.cw20_bal(TOK, MEM) == owed, "to the right place");
        check(w.cw20_bal(TOK, TRE) == extra, "and nothing else");
        cover("moved");
    } else {
        check(w.cw20_bal(TOK, TRE) == owed + extra && w.cw20_bal(TOK, MEM) == 0, "nothing moved");
        cover("not");
    }
});

// C22: the same for NFTs.
entry!(migrate_nft, {
    let mut w = old_dao(true);
    no_panic(true);
    let ti = w.idx(TRE).unwrap();
    let ids = ["na", "nb", "nc", "nd"];
    // each token: staked by alice or bob, claim of alice (alone or two together) or bob, or the treasury's own
    let mut place = [0u64; 4];
    for (i, id) in ids.iter().enumerate() {
        w.nft_set(NFT, id, TRE);
        place[i] = if i == 3 { 2 + choice("last", 3) } else { choice("place", 5) };
        if place[i] < 2 {
            let s = NftStake { staker: ad(USERS[place[i] as usize]), token_id: id.to_string() };
            nft_stakes().save(&mut w.cs[ti].store, id.to_string(), &s).unwrap();
        }
    }
    for u in 0..2u64 {
        let tokens: Vec<String> = (0..4).filter(|i| place[*i] == 2 + u).map(|i| ids[i].to_string()).collect();
        if !tokens.is_empty() {
            let release_at = ReleaseAt::Timestamp(Timestamp::from_seconds(50 + u));
            let l: Vec<Claim> = if choice("together", 2) == 0 {
                vec![Claim { asset: ClaimAsset::Cw721(Cw721ClaimAsset { tokens }), release_at }]
            } else {
                tokens
                    .into_iter()
                    .map(|t| Claim { asset: ClaimAsset::Cw721(Cw721ClaimAsset { tokens: vec![t] }), release_at: release_at.clone() })
                    .collect()
            };
            CLAIMS.save(&mut w.cs[ti].store, &ad(USERS[u as usize]), &l).unwrap();
        }
    }
    let n = |u: u64| place.iter().filter(|p| **p == u).count() as u128;
    let stake = [n(0), n(1)];
    let mut done = false;
    let mut batch = 0;
    for k in 0..6 {
        if k < 2 || param("mixed", 0) == 1 {
            batch = choice("batch", 3) as usize;
        }
        let ok = migrate(&mut w, [Some(1), Some(2), None][batch]);
        check(ok, "a step is possible until everything is moved");
        for u in 0..2 {
            check(old_weight(&w, USERS[u]) == stake[u], "weight before the migration stays known");
            check(new_weight(&w, USERS[u]) <= stake[u], "a token moves once");
        }
        let (un, inc) = unmoved(&w);
        check(implies(!inc, !un), "complete only when everything is moved");
        let left = (0..4).any(|i| place[i] != 4 && w.nft_owner(NFT, ids[i]) == TRE);
        check(un == left, "what is left to move is reported");
        done = !un && !inc;
        if done {
            break;
        }
    }
    check(done, "the migration ends");
    check(!migrate(&mut w, None), "nothing more to move");
    for u in 0..2usize {
        check(new_weight(&w, USERS[u]) == stake[u], "every stake arrived");
        let p = nft_staking_api::api::ClaimsParams { user: USERS[u].to_string() };
        let r: nft_staking_api::api::ClaimsResponse = w.query(MEM, &nft_staking_api::msg::QueryMsg::Claims(p)).unwrap();
        let mut got: Vec<String> = Vec::new();
        for c in &r.claims {
            check(c.release_at == ReleaseAt::Timestamp(Timestamp::from_seconds(50 + u as u64)), "release time kept");
            for t in &c.nft_ids {
                got.push(t.clone());
            }
        }
        got.sort();
        let want: Vec<String> = (0..4).filter(|i| place[*i] == 2 + u as u64).map(|i| ids[i].to_string()).collect();
        check(got == want, "every claimed token arrived once");
    }
    for i in 0..4 {
        check((w.nft_owner(NFT, ids[i]) == TRE) == (place[i] == 4), "only staked and claimed tokens left the treasury");
        check((w.nft_owner(NFT, ids[i]) == MEM) == (place[i] != 4), "for the membership contract");
    }
    cover("moved");
});
