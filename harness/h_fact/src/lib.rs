//! The factory with all the real contracts it creates DAOs from.
use cosmwasm_std::*;
use cw_asset::{AssetInfo, AssetInfoUnchecked, AssetUnchecked};
use cw_utils::Duration;
use enterprise_factory_api::api::*;
use enterprise_factory_api::msg::{ExecuteMsg as FX, QueryMsg as FQ};
use enterprise_governance_controller_api::api as ga;
use enterprise_governance_controller_api::msg as gm;
use enterprise_outposts_api::api::{CrossChainMsgSpec, DeployCrossChainTreasuryMsg};
use enterprise_protocol::api::*;
use enterprise_protocol::msg::QueryMsg as EQ;
use enterprise_treasury_api::api as ta;
use enterprise_treasury_api::msg as tm;
use enterprise_versioning_api::api::*;
use enterprise_versioning_api::msg::ExecuteMsg as VX;
use funds_distributor_api::api as da;
use funds_distributor_api::msg as dm;
use membership_common_api::api::*;
use multisig_membership_api::api::UserWeight as MW;
use nft_staking_api::api::NftContract;
use serde::{Deserialize, Serialize};
use symrt::chain::*;
use symrt::*;
pub mod facade;
pub mod facade1;
pub mod life;

code!(
    FACTORY,
    enterprise_factory::contract,
    enterprise_factory_api::msg::InstantiateMsg,
    enterprise_factory_api::msg::ExecuteMsg,
    enterprise_factory_api::msg::QueryMsg,
    |d, e, r| enterprise_factory::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    DAO,
    enterprise::contract,
    enterprise_protocol::msg::InstantiateMsg,
    enterprise_protocol::msg::ExecuteMsg,
    enterprise_protocol::msg::QueryMsg,
    |d, e, r| enterprise::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    VERSIONING,
    enterprise_versioning::contract,
    enterprise_versioning_api::msg::InstantiateMsg,
    enterprise_versioning_api::msg::ExecuteMsg,
    enterprise_versioning_api::msg::QueryMsg
);
code!(
    ATTESTATION,
    attestation::contract,
    attestation_api::msg::InstantiateMsg,
    attestation_api::msg::ExecuteMsg,
    attestation_api::msg::QueryMsg
);
code!(
    CONTROLLER,
    enterprise_governance_controller::contract,
    enterprise_governance_controller_api::msg::InstantiateMsg,
    enterprise_governance_controller_api::msg::ExecuteMsg,
    enterprise_governance_controller_api::msg::QueryMsg,
    |d, e, r| enterprise_governance_controller::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    GOVERNANCE,
    enterprise_governance::contract,
    enterprise_governance_api::msg::InstantiateMsg,
    enterprise_governance_api::msg::ExecuteMsg,
    enterprise_governance_api::msg::QueryMsg
);
code!(
    OUTPOSTS,
    enterprise_outposts::contract,
    enterprise_outposts_api::msg::InstantiateMsg,
    enterprise_outposts_api::msg::ExecuteMsg,
    enterprise_outposts_api::msg::QueryMsg
);
code!(
    TREASURY,
    enterprise_treasury::contract,
    enterprise_treasury_api::msg::InstantiateMsg,
    enterprise_treasury_api::msg::ExecuteMsg,
    enterprise_treasury_api::msg::QueryMsg,
    |d, e, r| enterprise_treasury::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    DISTRIBUTOR,
    funds_distributor::contract,
    funds_distributor_api::msg::InstantiateMsg,
    funds_distributor_api::msg::ExecuteMsg,
    funds_distributor_api::msg::QueryMsg
);
code!(
    MULTISIG,
    multisig_membership::contract,
    multisig_membership_api::msg::InstantiateMsg,
    multisig_membership_api::msg::ExecuteMsg,
    multisig_membership_api::msg::QueryMsg
);
code!(
    TSTAKE,
    token_staking_membership::contract,
    token_staking_api::msg::InstantiateMsg,
    token_staking_api::msg::ExecuteMsg,
    token_staking_api::msg::QueryMsg
);
code!(
    DSTAKE,
    denom_staking_membership::contract,
    denom_staking_api::msg::InstantiateMsg,
    denom_staking_api::msg::ExecuteMsg,
    denom_staking_api::msg::QueryMsg
);
code!(
    NSTAKE,
    nft_staking_membership::contract,
    nft_staking_api::msg::InstantiateMsg,
    nft_staking_api::msg::ExecuteMsg,
    nft_staking_api::msg::QueryMsg
);
code!(
    CW20B,
    cw20_base::contract,
    cw20_base::msg::InstantiateMsg,
    cw20_base::msg::ExecuteMsg,
    cw20_base::msg::QueryMsg
);
code!(
    CW721B,
    cw721_base::entry,
    cw721_base::InstantiateMsg,
    cw721_base::ExecuteMsg<Option<Empty>, Empty>,
    cw721_base::QueryMsg<Empty>
);

pub const FAC: &str = "factory";
pub const VER: &str = "versioning";
pub const TOK: &str = "tok";
pub const NFT: &str = "nft";
pub const ICS: &str = "ics";
pub const CW3: &str = "multi";
pub const DENOM: &str = "udao";
pub const LUNA: &str = "uluna";
pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const MAXW: u128 = 1 << 100;
pub const T0: u64 = 1000;
pub const CW20_ID: u64 = 20;
pub const CW721_ID: u64 = 21;

// ---- the outside world ----
#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
enum IcsQuery {
    NftContract { class_id: String },
}
fn ics_query(_d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    let IcsQuery::NftContract { class_id } = from_json(&b).map_err(|_| ())?;
    let r: Option<String> = if class_id == "class" { Some(NFT.to_string()) } else { None };
    to_json_binary(&r).map_err(|_| ())
}
pub static ICSPROXY: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: ics_query, reply: no_reply };

/// An existing multisig that hands out its voters two at a time.
fn cw3_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<cw3::Cw3QueryMsg>(&b).map_err(|_| ())? {
        cw3::Cw3QueryMsg::ListVoters { start_after, limit } => {
            let n = limit.unwrap_or(2).min(2) as usize;
            let mut voters = Vec::new();
            for (k, v) in d.storage.range(None, None, Order::Ascending) {
                let addr = String::from_utf8(k).map_err(|_| ())?;
                if let Some(s) = &start_after {
                    if addr <= *s {
                        continue;
                    }
                }
                if voters.len() < n {
                    let weight: u64 = from_json(v).map_err(|_| ())?;
                    voters.push(cw3::VoterDetail { addr, weight });
                }
            }
            to_json_binary(&cw3::VoterListResponse { voters }).map_err(|_| ())
        }
        _ => Err(()),
    }
}
pub static CW3C: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: cw3_query, reply: no_reply };

/// Existing token and collection, with the questions the factory asks of them.
fn tok_query(d: Deps, e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<cw20::Cw20QueryMsg>(&b).map_err(|_| ())? {
        cw20::Cw20QueryMsg::TokenInfo {} if d.storage.get(b"empty").is_some() => to_json_binary(&cw20::TokenInfoResponse {
            name: "t".to_string(),
            symbol: "T".to_string(),
            decimals: 6,
            total_supply: Uint128::zero(),
        })
        .map_err(|_| ()),
        cw20::Cw20QueryMsg::Minter {} => {
            let r = if d.storage.get(b"minter").is_some() {
                Some(cw20::MinterResponse { minter: "someone".to_string(), cap: None })
            } else {
                None
            };
            to_json_binary(&r).map_err(|_| ())
        }
        _ => (CW20.query)(d, e, b),
    }
}
fn tok_exec(d: DepsMut, e: Env, i: MessageInfo, b: Binary) -> Result<Response, ()> {
    (CW20.execute)(d, e, i, b)
}
pub static TOKEN: CodeFns = CodeFns { instantiate: no_inst, execute: tok_exec, query: tok_query, reply: no_reply };
fn nft_query(d: Deps, e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<cw721::Cw721QueryMsg>(&b).map_err(|_| ())? {
        cw721::Cw721QueryMsg::NumTokens {} => to_json_binary(&cw721::NumTokensResponse { count: 3 }).map_err(|_| ()),
        _ => (CW721.query)(d, e, b),
    }
}
fn nft_exec(d: DepsMut, e: Env, i: MessageInfo, b: Binary) -> Result<Response, ()> {
    (CW721.execute)(d, e, i, b)
}
pub static COLLECTION: CodeFns = CodeFns { instantiate: no_inst, execute: nft_exec, query: nft_query, reply: no_reply };

// ---- versions ----
/// Code ids of the n-th version: attestation, dao, governance, controller, outposts, treasury,
/// distributor, token, denom, nft, multisig.
pub fn ids(n: u64) -> [u64; 11] {
    let mut a = [0; 11];
    let mut i = 0;
    while i < 11 {
        a[i] = n * 100 + i as u64;
        i += 1;
    }
    a
}
pub fn vinfo(v: Version, ids: [u64; 11]) -> VersionInfo {
    VersionInfo {
        version: v,
        changelog: vec![],
        attestation_code_id: ids[0],
        enterprise_code_id: ids[1],
        enterprise_governance_code_id: ids[2],
        enterprise_governance_controller_code_id: ids[3],
        enterprise_outposts_code_id: ids[4],
        enterprise_treasury_code_id: ids[5],
        funds_distributor_code_id: ids[6],
        token_staking_membership_code_id: ids[7],
        denom_staking_membership_code_id: ids[8],
        nft_staking_membership_code_id: ids[9],
        multisig_membership_code_id: ids[10],
    }
}
pub fn versions() -> [Version; 3] {
    [Version::new(1, 0, 0), Version::new(1, 10, 0), Version::new(1, 9, 5)]
}
pub const LATEST: usize = 1;

pub fn chain() -> World {
    let mut w = World::new();
    w.time = T0;
    w.height = 10;
    w.add(VER, &VERSIONING);
    w.init("creator", VER, to_json_binary(&enterprise_versioning_api::msg::InstantiateMsg { admin: "vadmin".to_string() }).unwrap());
    let vs = versions();
    let mut n = 0;
    while n < 3 {
        let l = ids(n as u64 + 1);
        check(
            w.exec("vadmin", VER, &VX::AddVersion(AddVersionMsg { version: vinfo(vs[n].clone(), l) }), vec![]),
            "version registered",
        );
        let fns: [&'static CodeFns; 11] = [
            &ATTESTATION, &DAO, &GOVERNANCE, &CONTROLLER, &OUTPOSTS, &TREASURY, &DISTRIBUTOR, &TSTAKE, &DSTAKE, &NSTAKE, &MULTISIG,
        ];
        let mut i = 0;
        while i < 11 {
            w.codes.push((l[i], fns[i]));
            i += 1;
        }
        n += 1;
    }
    w.codes.push((CW20_ID, &CW20B));
    w.codes.push((CW721_ID, &CW721B));
    w.add(TOK, &TOKEN);
    w.add(NFT, &COLLECTION);
    w.add(ICS, &ICSPROXY);
    w.add(CW3, &CW3C);
    w.add(FAC, &FACTORY);
    w.init(
        "creator",
        FAC,
        to_json_binary(&enterprise_factory_api::msg::InstantiateMsg {
            config: Config {
                admin: Addr::unchecked("fadmin"),
                enterprise_versioning: Addr::unchecked(VER),
                cw20_code_id: CW20_ID,
                cw721_code_id: CW721_ID,
            },
            global_asset_whitelist: Some(vec![AssetInfoUnchecked::native(LUNA)]),
            global_nft_whitelist: Some(vec!["gnft".to_string()]),
        })
        .unwrap(),
    );
    w
}
pub fn meta() -> DaoMetadata {
    DaoMetadata {
        name: "name".to_string(),
        description: Some("desc".to_string()),
        logo: Logo::Url("logo".to_string()),
        socials: DaoSocialData {
            github_username: Some("gh".to_string()),
            discord_username: Some("dc".to_string()),
            twitter_username: Some("tw".to_string()),
            telegram_username: Some("tg".to_string()),
        },
    }
}
pub fn gcfg(q: u128, t: u128, v: Option<u128>, dur: u64, dep: Option<u128>, early: bool) -> ga::GovConfig {
    ga::GovConfig {
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        veto_threshold: v.map(Decimal::raw),
        vote_duration: dur,
        minimum_deposit: dep.map(Uint128::new),
        allow_early_proposal_execution: early,
    }
}
pub const KINDS: [&str; 8] = ["denom", "import_cw20", "new_cw20", "import_cw721", "new_cw721", "ics721", "import_cw3", "multisig"];
pub fn is_multisig(k: u64) -> bool {
    k >= 6
}
pub fn dao_type(k: u64) -> DaoType {
    match k {
        0 => DaoType::Denom,
        1 | 2 => DaoType::Token,
        3 | 4 | 5 => DaoType::Nft,
        _ => DaoType::Multisig,
    }
}
pub fn new_cw20(bal: &[(&str, u128)], dao: Option<u128>, mint: Option<&str>, unlock: Duration) -> CreateDaoMembershipMsg {
    let mut l = Vec::new();
    for (a, n) in bal {
        l.push(cw20::Cw20Coin { address: a.to_string(), amount: Uint128::new(*n) });
    }
    CreateDaoMembershipMsg::NewCw20(Box::new(NewCw20MembershipMsg {
        token_name: "token".to_string(),
        token_symbol: "TOK".to_string(),
        token_decimals: 6,
        initial_token_balances: l,
        initial_dao_balance: dao.map(Uint128::new),
        token_mint: mint.map(|m| cw20::MinterResponse { minter: m.to_string(), cap: None }),
        token_marketing: None,
        unlocking_period: unlock,
    }))
}
/// Membership of kind k; wa is what alice has (or can stake), wb the same for bob, wc for carol.
pub fn membership(k: u64, unlock: Duration, wa: u128, wb: u128, wc: u128) -> CreateDaoMembershipMsg {
    match k {
        0 => CreateDaoMembershipMsg::NewDenom(NewDenomMembershipMsg { denom: DENOM.to_string(), unlocking_period: unlock }),
        1 => CreateDaoMembershipMsg::ImportCw20(ImportCw20MembershipMsg { cw20_contract: TOK.to_string(), unlocking_period: unlock }),
        2 => new_cw20(&[("alice", wa), ("bob", wb)], Some(wc), None, unlock),
        3 => CreateDaoMembershipMsg::ImportCw721(ImportCw721MembershipMsg { cw721_contract: NFT.to_string(), unlocking_period: unlock }),
        4 => CreateDaoMembershipMsg::NewCw721(NewCw721MembershipMsg {
            nft_name: "nft".to_string(),
            nft_symbol: "NFT".to_string(),
            minter: Some("minter".to_string()),
            unlocking_period: unlock,
        }),
        5 => CreateDaoMembershipMsg::NewIcs721(ImportIcs721MembershipMsg {
            ics721_proxy: ICS.to_string(),
            class_id: "class".to_string(),
            unlocking_period: unlock,
        }),
        6 => CreateDaoMembershipMsg::ImportCw3(ImportCw3MembershipMsg { cw3_contract: CW3.to_string() }),
        _ => CreateDaoMembershipMsg::NewMultisig(NewMultisigMembershipMsg {
            multisig_members: vec![
                MW { user: "alice".to_string(), weight: wa.into() },
                MW { user: "bob".to_string(), weight: wb.into() },
                MW { user: "carol".to_string(), weight: wc.into() },
            ],
        }),
    }
}
pub fn set_voter(w: &mut World, who: &str, weight: u64) {
    let i = w.idx(CW3).unwrap();
    w.cs[i].store.set(who.as_bytes(), &to_json_vec(&weight).unwrap());
}
pub fn council(members: &[&str], q: u128, t: u128) -> ga::DaoCouncilSpec {
    let mut l = Vec::new();
    for m in members {
        l.push(m.to_string());
    }
    ga::DaoCouncilSpec { members: l, quorum: Decimal::raw(q), threshold: Decimal::raw(t), allowed_proposal_action_types: None }
}
pub fn create_msg(g: ga::GovConfig, m: CreateDaoMembershipMsg) -> CreateDaoMsg {
    CreateDaoMsg {
        dao_metadata: meta(),
        gov_config: g,
        dao_council: None,
        dao_membership: m,
        asset_whitelist: None,
        nft_whitelist: None,
        minimum_weight_for_rewards: None,
        cross_chain_treasuries: None,
        attestation_text: None,
    }
}
pub fn daos(w: &World, start_after: Option<u64>, limit: Option<u32>) -> Vec<DaoRecord> {
    let r: AllDaosResponse = w.query(FAC, &FQ::AllDaos(QueryAllDaosMsg { start_after: start_after.map(Uint64::new), limit })).unwrap();
    r.daos
}
/// The main contract of the DAO that goes by the given (treasury) address.
pub fn ent_of(w: &World, treasury: &str) -> String {
    let t: ta::ConfigResponse = w.query(treasury, &tm::QueryMsg::Config {}).unwrap();
    let c: ga::ConfigResponse = w.query(t.admin.as_str(), &gm::QueryMsg::Config {}).unwrap();
    c.enterprise_contract.to_string()
}
pub fn comps(w: &World, ent: &str) -> ComponentContractsResponse {
    w.query(ent, &EQ::ComponentContracts {}).unwrap()
}
pub fn contract<'a>(w: &'a World, a: &str) -> &'a Contract {
    &w.cs[w.idx(a).unwrap()]
}
pub fn weight(w: &World, mem: &str, u: &str) -> u128 {
    let r: UserWeightResponse =
        w.query(mem, &multisig_membership_api::msg::QueryMsg::UserWeight(UserWeightParams { user: u.to_string() })).unwrap();
    r.weight.u128()
}
pub fn total(w: &World, mem: &str) -> u128 {
    let r: TotalWeightResponse = w
        .query(mem, &multisig_membership_api::msg::QueryMsg::TotalWeight(TotalWeightParams { expiration: cw_utils::Expiration::Never {} }))
        .unwrap();
    r.total_weight.u128()
}
pub fn rewards(w: &World, dist: &str, u: &str) -> u128 {
    let r: da::UserRewardsResponse = w
        .query(
            dist,
            &dm::QueryMsg::UserRewards(da::UserRewardsParams { user: u.to_string(), native_denoms: vec![LUNA.to_string()], cw20_assets: vec![] }),
        )
        .unwrap();
    let mut n = 0;
    for r in r.native_rewards {
        n += r.amount.u128();
    }
    n
}
pub fn deploy(chain: &str) -> DeployCrossChainTreasuryMsg {
    DeployCrossChainTreasuryMsg {
        cross_chain_msg_spec: CrossChainMsgSpec {
            chain_id: chain.to_string(),
            chain_bech32_prefix: "juno".to_string(),
            src_ibc_port: "transfer".to_string(),
            src_ibc_channel: "channel-1".to_string(),
            dest_ibc_port: "transfer".to_string(),
            dest_ibc_channel: "channel-9".to_string(),
            uluna_denom: "ibc/luna".to_string(),
            timeout_nanos: None,
        },
        asset_whitelist: None,
        nft_whitelist: None,
        ics_proxy_code_id: 7,
        enterprise_treasury_code_id: 8,
        chain_global_proxy: "proxy".to_string(),
    }
}

/// Everything there is to see of a DAO just created as `m` in version number `v`.
pub fn check_dao(w: &World, treasury: &str, m: &CreateDaoMsg, v: usize, k: u64, unlock: Duration, ws: [u128; 3]) {
    let l = ids(v as u64 + 1);
    let ent = ent_of(w, treasury);
    let c = comps(w, &ent);
    check(c.enterprise_factory_contract == FAC && c.enterprise_versioning_contract == VER, "factory and registry known");
    check(c.enterprise_treasury_contract == treasury, "the DAO goes by its treasury's address");
    // each contract runs its version's code and is upgradable by the DAO alone
    let mem_code = match dao_type(k) {
        DaoType::Denom => l[8],
        DaoType::Token => l[7],
        DaoType::Nft => l[9],
        DaoType::Multisig => l[10],
    };
    let ctl = c.enterprise_governance_controller_contract.to_string();
    let parts: [(&str, u64); 8] = [
        (&ent, l[1]),
        (c.enterprise_governance_contract.as_str(), l[2]),
        (&ctl, l[3]),
        (c.enterprise_outposts_contract.as_str(), l[4]),
        (treasury, l[5]),
        (c.funds_distributor_contract.as_str(), l[6]),
        (c.membership_contract.as_str(), mem_code),
        (c.council_membership_contract.as_str(), l[10]),
    ];
    let mut i = 0;
    while i < 8 {
        let ct = contract(w, parts[i].0);
        check(ct.code_id == parts[i].1, "every component runs the code of the chosen version");
        check(ct.admin.as_deref() == Some(ent.as_str()), "every component is upgradable by the DAO contract alone");
        check(ct.creator == FAC, "created by the factory");
        let mut j = 0;
        while j < i {
            check(parts[i].0 != parts[j].0, "components are distinct");
            j += 1;
        }
        i += 1;
    }
    let d: DaoInfoResponse = w.query(&ent, &EQ::DaoInfo {}).unwrap();
    check(d.metadata == m.dao_metadata && d.dao_type == dao_type(k), "metadata and type as requested");
    check(d.dao_version == versions()[v], "version as requested");
    check(d.creation_date == Timestamp::from_seconds(w.time), "creation date");
    // attestation
    match &m.attestation_text {
        None => check(c.attestation_contract.is_none(), "no attestation asked for"),
        Some(t) => {
            let a = c.attestation_contract.clone().unwrap();
            check(contract(w, a.as_str()).code_id == l[0], "attestation code");
            let r: attestation_api::api::AttestationTextResponse = w.query(a.as_str(), &attestation_api::msg::QueryMsg::AttestationText {}).unwrap();
            check(r.text == *t, "attestation text");
            let r: IsRestrictedUserResponse =
                w.query(&ent, &EQ::IsRestrictedUser(IsRestrictedUserParams { user: "alice".to_string() })).unwrap();
            check(r.is_restricted, "nobody has attested yet");
        }
    }
    // governance rules
    let g: ga::GovConfigResponse = w.query(&ctl, &gm::QueryMsg::GovConfig {}).unwrap();
    check(g.gov_config == m.gov_config, "governance rules as requested");
    check(g.dao_membership_contract == c.membership_contract && g.dao_council_membership_contract == c.council_membership_contract, "governed by its own members");
    let cm = c.council_membership_contract.as_str();
    match &m.dao_council {
        None => check(g.council_gov_config.is_none() && total(w, cm) == 0, "no council"),
        Some(s) => {
            let r = g.council_gov_config.unwrap();
            check(r.quorum == s.quorum && r.threshold == s.threshold, "council rules as requested");
            let powers = s.allowed_proposal_action_types.clone().unwrap_or_else(|| vec![ga::ProposalActionType::UpgradeDao]);
            check(r.allowed_proposal_action_types == powers, "council powers as requested, or the default");
            check(total(w, cm) == s.members.len() as u128, "council total");
            for u in &s.members {
                check(weight(w, cm, u) == 1, "one vote per council member");
            }
        }
    }
    // treasury and distributor
    let t: ta::AssetWhitelistResponse = w.query(treasury, &tm::QueryMsg::AssetWhitelist(ta::AssetWhitelistParams { start_after: None, limit: None })).unwrap();
    let mut asked: Vec<AssetInfo> = Vec::new();
    for a in m.asset_whitelist.clone().unwrap_or_default() {
        let a = a.check(&symrt::world::SimpleApi, None).unwrap();
        check(t.assets.contains(&a), "asset whitelist as requested");
        asked.push(a);
    }
    for a in &t.assets {
        check(asked.contains(a) || own_asset(w, c.membership_contract.as_str(), k, a), "nothing else whitelisted");
    }
    let t: ta::NftWhitelistResponse = w.query(treasury, &tm::QueryMsg::NftWhitelist(ta::NftWhitelistParams { start_after: None, limit: None })).unwrap();
    for a in m.nft_whitelist.clone().unwrap_or_default() {
        check(t.nfts.contains(&Addr::unchecked(a)), "NFT whitelist as requested");
    }
    let asked = m.nft_whitelist.clone().unwrap_or_default();
    for a in &t.nfts {
        check(asked.contains(&a.to_string()) || dao_type(k) == DaoType::Nft, "no other collection whitelisted");
    }
    let dist = c.funds_distributor_contract.as_str();
    let r: da::MinimumEligibleWeightResponse = w.query(dist, &dm::QueryMsg::MinimumEligibleWeight {}).unwrap();
    check(r.minimum_eligible_weight == m.minimum_weight_for_rewards.unwrap_or_default(), "minimum weight for rewards as requested");
    // membership
    let mem = c.membership_contract.as_str();
    match dao_type(k) {
        DaoType::Denom => {
            let r: denom_staking_api::api::DenomConfigResponse = w.query(mem, &denom_staking_api::msg::QueryMsg::DenomConfig {}).unwrap();
            check(r.denom == DENOM && r.unlocking_period == unlock && r.enterprise_contract == ent, "denom and unlocking period as requested");
        }
        DaoType::Token => {
            let r: token_staking_api::api::TokenConfigResponse = w.query(mem, &token_staking_api::msg::QueryMsg::TokenConfig {}).unwrap();
            check(r.unlocking_period == unlock && r.enterprise_contract == ent, "unlocking period as requested");
            let t = r.token_contract.as_str();
            if k == 1 {
                check(t == TOK, "the imported token");
            } else {
                let ct = contract(w, t);
                check(ct.code_id == CW20_ID && ct.admin.as_deref() == Some(ent.as_str()), "a new token of the configured code");
                check(cw20b(w, t, "alice") == ws[0] && cw20b(w, t, "bob") == ws[1] && cw20b(w, t, treasury) == ws[2], "initial balances as requested");
                let i: cw20::TokenInfoResponse = w.query(t, &cw20::Cw20QueryMsg::TokenInfo {}).unwrap();
                check(i.total_supply.u128() == ws[0] + ws[1] + ws[2], "and nothing else minted");
                check(i.name == "token" && i.symbol == "TOK" && i.decimals == 6, "token named as requested");
                let CreateDaoMembershipMsg::NewCw20(o) = &m.dao_membership else { panic!() };
                let r: Option<cw20::MinterResponse> = w.query(t, &cw20::Cw20QueryMsg::Minter {}).unwrap();
                match &o.token_mint {
                    Some(_) => check(r == o.token_mint, "minter and cap as requested"),
                    None => check(r.map_or(true, |r| r.minter == ent), "nobody else mints"),
                }
                let r: cw20::MarketingInfoResponse = w.query(t, &cw20::Cw20QueryMsg::MarketingInfo {}).unwrap();
                let owner = match &o.token_marketing {
                    Some(x) => {
                        check(r.project == x.project && r.description == x.description, "marketing as requested");
                        check(r.logo == x.logo_url.clone().map(cw20::LogoInfo::Url), "logo as requested");
                        x.marketing_owner.clone()
                    }
                    None => None,
                };
                check(r.marketing.map(|a| a.to_string()) == Some(owner.unwrap_or(ent.clone())), "marketing in the hands named, or the DAO's");
            }
        }
        DaoType::Nft => {
            let r: nft_staking_api::api::NftContractConfigResponse = w.query(mem, &nft_staking_api::msg::QueryMsg::NftContractConfig {}).unwrap();
            check(r.unlocking_period == unlock && r.enterprise_contract == ent, "unlocking period as requested");
            match r.nft_contract {
                NftContract::Cw721 { contract: a } => {
                    if k == 3 {
                        check(a == NFT, "the imported collection");
                    } else {
                        let ct = contract(w, &a);
                        check(ct.code_id == CW721_ID && ct.admin.as_deref() == Some(ent.as_str()), "a new collection of the configured code");
                        let r: cw721_base::MinterResponse = w.query(&a, &cw721_base::QueryMsg::<Empty>::Minter {}).unwrap();
                        check(k == 4 && r.minter == "minter", "minter as requested");
                    }
                }
                NftContract::Ics721 { contract: a, class_id } => check(k == 5 && a == ICS && class_id == "class", "the class named"),
            }
        }
        DaoType::Multisig => {
            check(weight(w, mem, "alice") == ws[0] && weight(w, mem, "bob") == ws[1] && weight(w, mem, "carol") == ws[2], "members as requested");
            check(total(w, mem) == ws[0] + ws[1] + ws[2], "and nobody else");
        }
    }
    if dao_type(k) != DaoType::Multisig {
        check(total(w, mem) == 0, "nothing staked yet");
    }
}
/// Whether an asset is the token or denom the DAO is made of.
fn own_asset(w: &World, mem: &str, k: u64, a: &AssetInfo) -> bool {
    match (dao_type(k), a) {
        (DaoType::Denom, AssetInfo::Native(d)) => d == DENOM,
        (DaoType::Token, AssetInfo::Cw20(t)) => {
            let r: token_staking_api::api::TokenConfigResponse = w.query(mem, &token_staking_api::msg::QueryMsg::TokenConfig {}).unwrap();
            r.token_contract == *t
        }
        _ => false,
    }
}
pub fn cw20b(w: &World, t: &str, u: &str) -> u128 {
    let r: cw20::BalanceResponse = w.query(t, &cw20::Cw20QueryMsg::Balance { address: u.to_string() }).unwrap();
    r.balance.u128()
}

// C29: a DAO comes out as ordered, complete and in its own hands, or not at all.
entry!(fac_create, {
    no_panic(true);
    let mut w = chain();
    let k = if param("kinds", 8) == 8 { choice("kind", 8) } else { param("kind", 0) };
    let more = choice("options", 2) == 1;
    let vote = u64_in("vote_duration", 0, 1 << 33);
    let ul = u64_in("unlocking", 0, 1 << 33);
    let unlock = if choice("by_height", 2) == 1 { Duration::Height(ul) } else { Duration::Time(ul) };
    let q = u128_in("quorum", 0, 2 * ONE);
    let t = u128_in("threshold", 0, 2 * ONE);
    let veto = if more { Some(u128_in("veto", 0, 2 * ONE)) } else { None };
    let dep = if bool_in("deposit") { Some(u128_in("minimum_deposit", 0, MAXW)) } else { None };
    let g = gcfg(q, t, veto, vote, dep, more);
    let hi = if k == 6 { u64::MAX as u128 } else { MAXW };
    let ws = if k == 2 || is_multisig(k) {
        [u128_in("alice", 0, hi), u128_in("bob", 0, hi), u128_in("carol", 0, hi)]
    } else {
        [0, 0, 0]
    };
    if k == 6 {
        set_voter(&mut w, "alice", ws[0] as u64);
        set_voter(&mut w, "bob", ws[1] as u64);
        set_voter(&mut w, "carol", ws[2] as u64);
    }
    let mut m = create_msg(g, membership(k, unlock, ws[0], ws[1], ws[2]));
    let mut cap = None;
    let cq = if more { u128_in("council_quorum", 0, 2 * ONE) } else { ONE };
    if more {
        let mut s = council(&["dave", "erin"], cq, ONE / 2);
        s.allowed_proposal_action_types = Some(vec![ga::ProposalActionType::UpdateMetadata, ga::ProposalActionType::UpdateAssetWhitelist]);
        m.dao_council = Some(s);
        if let CreateDaoMembershipMsg::NewCw20(o) = &mut m.dao_membership {
            let c = u128_in("cap", 0, 4 * MAXW);
            cap = Some(c);
            o.token_mint = Some(cw20::MinterResponse { minter: "minter".to_string(), cap: Some(Uint128::new(c)) });
            o.token_marketing = Some(TokenMarketingInfo {
                project: Some("proj".to_string()),
                description: Some("about".to_string()),
                marketing_owner: Some("owner".to_string()),
                logo_url: Some("https://l".to_string()),
            });
        }
        m.asset_whitelist = Some(vec![AssetInfoUnchecked::native("uatom"), AssetInfoUnchecked::cw20(TOK)]);
        m.nft_whitelist = Some(vec![NFT.to_string()]);
        m.minimum_weight_for_rewards = Some(Uint128::new(u128_in("minimum_weight", 0, MAXW)));
        m.attestation_text = Some("attest".to_string());
    }
    let ok = w.exec("creator", FAC, &FX::CreateDao(Box::new(m.clone())), vec![]);
    let frac = |x: u128| and(x > 0, x <= ONE);
    let mut may = and(vote > 0, and(frac(q), frac(t)));
    if let Some(v) = veto {
        may = and(may, frac(v));
    }
    may = and(may, frac(cq));
    if is_multisig(k) {
        may = and(may, dep.is_none());
    } else if let Duration::Time(x) = unlock {
        may = and(may, x >= vote);
    }
    if k == 2 {
        may = and(may, and(ws[0] > 0, and(ws[1] > 0, ws[2] > 0)));
    }
    if let Some(c) = cap {
        may = and(may, ws[0] + ws[1] + ws[2] <= c);
    }
    if k == 6 {
        may = and(may, not(and(ws[0] == 0, and(ws[1] == 0, ws[2] == 0))));
    }
    check(iff(ok, may), "a DAO is created exactly when its rules are sound");
    let l = daos(&w, None, None);
    if !ok {
        check(l.is_empty(), "a refused DAO is not registered");
        cover("refused");
        return;
    }
    check(l.len() == 1 && l[0].dao_id.u64() == 1, "registered once");
    check_dao(&w, l[0].dao_address.as_str(), &m, LATEST, k, unlock, ws);
    cover("created");
});

// C29: the version asked for is the version built.
entry!(fac_version, {
    no_panic(true);
    let mut w = chain();
    let k = [0, 7][choice("kind", 2) as usize];
    let unlock = Duration::Time(100);
    let m = create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, false), membership(k, unlock, 3, 4, 5));
    let v = Version::new(u64_in("major", 0, u64::MAX), u64_in("minor", 0, u64::MAX), u64_in("patch", 0, u64::MAX));
    let ok = w.exec("creator", FAC, &FX::CreateDaoWithVersion(Box::new(CreateDaoWithVersionMsg { version: v.clone(), create_dao_msg: m.clone() })), vec![]);
    let vs = versions();
    let mut there = false;
    let mut n = 0;
    while n < 3 {
        if split(and(v.major == vs[n].major, and(v.minor == vs[n].minor, v.patch == vs[n].patch))) {
            there = true;
            check(ok, "a registered version can be used");
            check_dao(&w, daos(&w, None, None)[0].dao_address.as_str(), &m, n, k, unlock, [3, 4, 5]);
            cover("created");
        }
        n += 1;
    }
    if !there {
        check(!ok && daos(&w, None, None).is_empty(), "a version that is not registered cannot be used");
        cover("refused");
    }
});

/// A simple DAO of kind k that can be created at any time.
pub fn simple(w: &mut World, k: u64) -> CreateDaoMsg {
    if k == 6 {
        set_voter(w, "alice", 3);
        set_voter(w, "bob", 4);
        set_voter(w, "carol", 5);
    }
    create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, false), membership(k, Duration::Time(100), 3, 4, 5))
}

// C29: what cannot make a working DAO is refused, and leaves nothing behind.
entry!(fac_refuse, {
    no_panic(true);
    let mut w = chain();
    let i = w.idx(TOK).unwrap();
    let sup = choice("supply", 3);
    if sup > 0 {
        w.cs[i].store.kv.push((b"empty".to_vec(), vec![1]));
    }
    if sup > 1 {
        w.cs[i].store.kv.push((b"minter".to_vec(), vec![1]));
    }
    let un = Duration::Time(100);
    let g = gcfg(ONE / 2, ONE / 2, None, 100, None, false);
    let places = [TOK, NFT, CW3, "nobody", "NoAddress", VER];
    let p = places[choice("import_from", 6) as usize].to_string();
    let case = choice("case", 12);
    let (mem, may) = match case {
        0 => {
            let may = p == TOK && sup != 1;
            (CreateDaoMembershipMsg::ImportCw20(ImportCw20MembershipMsg { cw20_contract: p, unlocking_period: un }), may)
        }
        1 => {
            let may = p == NFT;
            (CreateDaoMembershipMsg::ImportCw721(ImportCw721MembershipMsg { cw721_contract: p, unlocking_period: un }), may)
        }
        // nobody votes in the multisig imported
        2 => (CreateDaoMembershipMsg::ImportCw3(ImportCw3MembershipMsg { cw3_contract: p }), false),
        3 => (CreateDaoMembershipMsg::NewMultisig(NewMultisigMembershipMsg { multisig_members: vec![] }), false),
        4 => (new_cw20(&[], None, None, un), false),
        5 => (new_cw20(&[], Some(5), None, un), false),
        6 => (new_cw20(&[], None, Some("minter"), un), true),
        7 => (new_cw20(&[("alice", 0)], None, Some("minter"), un), false),
        8 => (new_cw20(&[("alice", 1)], Some(0), None, un), false),
        9 => (new_cw20(&[("alice", 1)], None, None, un), true),
        // somebody twice
        10 => {
            let l = vec![MW { user: "alice".to_string(), weight: 1u128.into() }, MW { user: "alice".to_string(), weight: 2u128.into() }];
            (CreateDaoMembershipMsg::NewMultisig(NewMultisigMembershipMsg { multisig_members: l }), false)
        }
        _ => (membership(0, un, 0, 0, 0), false),
    };
    let mut m = create_msg(g, mem);
    if case == 11 {
        m.dao_council = Some(council(&["dave", "dave"], ONE / 2, ONE / 2));
    }
    let cfg: ConfigResponse = w.query(FAC, &FQ::Config {}).unwrap();
    let n = w.cs.len();
    let ok = w.exec("creator", FAC, &FX::CreateDao(Box::new(m)), vec![]);
    check(ok == may, "only memberships somebody can take part in");
    let l = daos(&w, None, None);
    check(l.len() == ok as usize, "registered exactly when created");
    if !ok {
        check(w.cs.len() == n, "a refused DAO leaves nothing behind");
        cover("refused");
    }
    let cfg2: ConfigResponse = w.query(FAC, &FQ::Config {}).unwrap();
    check(cfg == cfg2, "configuration untouched");
    // and the next DAO is as good as ever
    let m = simple(&mut w, 7);
    check(w.exec("creator", FAC, &FX::CreateDao(Box::new(m.clone())), vec![]), "the next DAO can be created");
    let l = daos(&w, None, None);
    check(l.len() == 1 + ok as usize, "and is registered");
    check_dao(&w, l[l.len() - 1].dao_address.as_str(), &m, LATEST, 7, un, [3, 4, 5]);
    cover("created");
});

// C29: every DAO is registered once, under the next number, and shares nothing with another.
entry!(fac_registry, {
    no_panic(true);
    let mut w = chain();
    let steps = param("steps", 3);
    let mut made: Vec<(String, CreateDaoMsg, u64)> = Vec::new();
    let mut i = 0;
    while i < steps {
        let k = [0, 2, 4, 6][choice("kind", 4) as usize];
        let mut m = simple(&mut w, k);
        let bad = bool_in("bad");
        if bad {
            // fails in the middle of the creation for staking kinds, at the controller otherwise
            m.gov_config.vote_duration = if is_multisig(k) { 0 } else { 101 };
        }
        let opts = choice("options", if bad { 2 } else { 3 });
        if opts == 1 {
            m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
            m.attestation_text = Some("attest".to_string());
            m.asset_whitelist = Some(vec![AssetInfoUnchecked::native(format!("uatom{}", i))]);
            m.nft_whitelist = Some(vec![NFT.to_string()]);
            m.minimum_weight_for_rewards = Some(Uint128::new(5));
        }
        if opts == 2 {
            m.dao_council = Some(council(&["gus"], ONE / 3, ONE / 2));
            m.dao_metadata.name = "other".to_string();
            m.dao_metadata.description = None;
            m.gov_config.veto_threshold = Some(Decimal::raw(ONE / 4));
            m.gov_config.allow_early_proposal_execution = true;
        }
        let ok = w.exec("creator", FAC, &FX::CreateDao(Box::new(m.clone())), vec![]);
        check(ok == !bad, "creation");
        if ok {
            let l = daos(&w, None, None);
            check(l.len() == made.len() + 1, "one more DAO");
            let a = l[l.len() - 1].dao_address.to_string();
            check_dao(&w, &a, &m, LATEST, k, Duration::Time(100), [3, 4, 5]);
            made.push((a, m, k));
        }
        i += 1;
    }
    let l = daos(&w, None, None);
    check(l.len() == made.len(), "all of them");
    let mut all: Vec<String> = Vec::new();
    let mut i = 0;
    while i < made.len() {
        check(l[i].dao_id.u64() == i as u64 + 1 && l[i].dao_address == made[i].0, "numbered in order of creation");
        check_dao(&w, &made[i].0, &made[i].1, LATEST, made[i].2, Duration::Time(100), [3, 4, 5]);
        let e = ent_of(&w, &made[i].0);
        let c = comps(&w, &e);
        for a in [
            c.enterprise_governance_contract,
            c.enterprise_governance_controller_contract,
            c.enterprise_outposts_contract,
            c.enterprise_treasury_contract,
            c.funds_distributor_contract,
            c.membership_contract,
            c.council_membership_contract,
            Addr::unchecked(e),
        ] {
            check(!all.contains(&a.to_string()), "no contract shared between DAOs");
            all.push(a.to_string());
        }
        i += 1;
    }
    // any page
    let start = u64_in("start_after", 0, u64::MAX);
    let some = bool_in("from_start");
    let lim = if bool_in("limit") { Some(1 + choice("n", 3) as u32) } else { None };
    let p = daos(&w, if some { None } else { Some(start) }, lim);
    let mut want = Vec::new();
    for r in &l {
        if (some || r.dao_id.u64() > start) && want.len() < lim.unwrap_or(50) as usize {
            want.push(r.clone());
        }
    }
    check(p == want, "pages of the list are consecutive and complete");
    cover("listed");
});

// C29: the factory obeys its administrator alone, and itself.
entry!(fac_auth, {
    no_panic(true);
    let mut w = chain();
    if bool_in("with_dao") {
        let m = simple(&mut w, 7);
        check(w.exec("creator", FAC, &FX::CreateDao(Box::new(m)), vec![]), "created");
    }
    let before = daos(&w, None, None);
    let who = addr_in("sender", 10);
    let who = who.as_str();
    let old: ConfigResponse = w.query(FAC, &FQ::Config {}).unwrap();
    let n = w.cs.len();
    let s = |b: bool, x: &str| if b { Some(x.to_string()) } else { None };
    let (a, v, c2, c7) = (bool_in("admin"), bool_in("versioning"), bool_in("cw20"), bool_in("cw721"));
    let (i2, i7) = (u64_in("cw20_id", 0, u64::MAX), u64_in("cw721_id", 0, u64::MAX));
    let upd = bool_in("update");
    let msg = if upd {
        FX::UpdateConfig(enterprise_factory_api::api::UpdateConfigMsg {
            new_admin: s(a, "newadmin"),
            new_enterprise_versioning: s(v, "newver"),
            new_cw20_code_id: if c2 { Some(i2) } else { None },
            new_cw721_code_id: if c7 { Some(i7) } else { None },
        })
    } else {
        FX::FinalizeDaoCreation {}
    };
    let ok = w.exec(who, FAC, &msg, vec![]);
    let new: ConfigResponse = w.query(FAC, &FQ::Config {}).unwrap();
    check(w.cs.len() == n && daos(&w, None, None) == before, "no DAO created or lost");
    if upd {
        check(ok == (who == "fadmin"), "configuration changed by the administrator alone");
    } else {
        check(!ok, "creation finalized only as part of a creation");
    }
    if !ok {
        check(old == new, "nothing changed");
        cover("refused");
        return;
    }
    check(new.config.admin == if a { "newadmin" } else { "fadmin" }, "administrator");
    check(new.config.enterprise_versioning == if v { "newver" } else { VER }, "registry");
    check(new.config.cw20_code_id == if c2 { i2 } else { CW20_ID }, "token code");
    check(new.config.cw721_code_id == if c7 { i7 } else { CW721_ID }, "collection code");
    if a {
        check(!w.exec("fadmin", FAC, &msg, vec![]) && w.exec("newadmin", FAC, &msg, vec![]), "handed over");
    }
    cover("updated");
});

// C29: remote treasuries ordered with the DAO are asked for at once, with their fee.
entry!(fac_treasuries, {
    no_panic(true);
    let mut w = chain();
    let k = [0, 7][choice("kind", 2) as usize];
    let mut m = simple(&mut w, k);
    let n = choice("treasuries", 3);
    let mut l = Vec::new();
    for i in 0..n {
        l.push(deploy(["one", "two"][i as usize]));
    }
    m.cross_chain_treasuries = if n == 0 && bool_in("none") { None } else { Some(l) };
    let had = u128_in("factory_has", 0, 3);
    let pays = u128_in("creator_pays", 0, 3);
    w.set_bal(FAC, LUNA, had);
    w.set_bal("creator", LUNA, pays);
    let f = if split(pays == 0) { vec![] } else { vec![coin(pays, LUNA)] };
    let since = w.log.len();
    let ok = w.exec("creator", FAC, &FX::CreateDao(Box::new(m.clone())), f);
    check(iff(ok, had + pays >= n as u128), "created exactly when the fees are there");
    if !ok {
        check(daos(&w, None, None).is_empty(), "or not at all");
        check(w.bal("creator", LUNA) == pays, "and nothing is taken");
        cover("refused");
        return;
    }
    let a = daos(&w, None, None)[0].dao_address.to_string();
    check_dao(&w, &a, &m, LATEST, k, Duration::Time(100), [3, 4, 5]);
    let c = comps(&w, &ent_of(&w, &a));
    let out = c.enterprise_outposts_contract.to_string();
    check(w.bal(FAC, LUNA) == had + pays - n as u128 && w.bal(&out, LUNA) == n as u128, "one unit of fee for each treasury");
    let mut asked = 0;
    for (s, x) in w.log.iter().skip(since) {
        if *s == out {
            if let CosmosMsg::Wasm(_) = x {
                continue;
            }
            asked += 1;
        }
    }
    check(asked == n, "each treasury asked for once");
    cover("created");
});

// C36: the code ids recorded by the factory before the rewrite, from anywhere, as many as asked for.
entry!(lst_codes, {
    let mut w = chain();
    let have = [3u64, 7, 1 << 40, u64::MAX];
    let n = choice("recorded", 5) as usize;
    let f = w.idx(FAC).unwrap();
    for c in have.iter().take(n) {
        let m: cw_storage_plus::Map<u64, ()> = cw_storage_plus::Map::new("enterprise_code_ids");
        m.save(&mut w.cs[f].store, *c, &()).unwrap();
    }
    no_panic(true);
    let start = if bool_in("start") { Some(u64_in("start_after", 0, u64::MAX)) } else { None };
    let limit = if bool_in("limited") { Some(u64_in("limit", 0, u32::MAX as u64) as u32) } else { None };
    let r: EnterpriseCodeIdsResponse =
        w.query(FAC, &FQ::EnterpriseCodeIds(EnterpriseCodeIdsMsg { start_after: start.map(Uint64::new), limit })).unwrap();
    let mut want = Vec::new();
    for c in have.iter().take(n) {
        let past = match start {
            Some(s) => split(*c > s),
            None => true,
        };
        if past {
            if let Some(l) = limit {
                if split(l as u64 <= want.len() as u64) {
                    break;
                }
            }
            want.push(Uint64::new(*c));
        }
    }
    check(r.code_ids == want, "the code ids after the given one");
    let any = u64_in("asked", 0, u64::MAX);
    let q: IsEnterpriseCodeIdResponse = w.query(FAC, &FQ::IsEnterpriseCodeId(IsEnterpriseCodeIdMsg { code_id: Uint64::new(any) })).unwrap();
    // a DAO's address is its treasury's: of the first version, or made before the rewrite
    let mut known = any == ids(1)[5];
    for c in have.iter().take(n) {
        known = or(known, *c == any);
    }
    check(iff(q.is_enterprise_code_id, known), "exactly those, and the first version's, are known");
    cover("listed");
});
