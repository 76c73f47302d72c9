//! The facade for DAOs from before the rewrite. The old DAO itself is not in this repository: a
//! stand-in answers its questions with what the harness chose, and speaks its language only.
use crate::facade::*;
use crate::life::*;
use crate::*;
use common::commons::ModifyValue as MV;
use common::cw::ReleaseAt;
use cw_utils::Expiration;
use enterprise_facade_api::api as fa;
use enterprise_facade_api::msg::QueryMsg as Q;
use enterprise_outposts_api::api::{CrossChainTreasuriesParams, CrossChainTreasuriesResponse, RemoteTreasuryTarget};
use poll_engine_api::api::{Vote, VoteOutcome};
use std::collections::BTreeMap;

code!(
    OLDFACADE,
    enterprise_facade_v1::contract,
    enterprise_facade_v1::msg::InstantiateMsg,
    enterprise_facade_api::msg::ExecuteMsg,
    enterprise_facade_api::msg::QueryMsg
);
pub const OLD: &str = "olddao";

// ---- the language of the old DAO ----
#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub struct OldUser {
    pub user: String,
}
#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub enum OldQ {
    DaoInfo {},
    MemberInfo(fa::QueryMemberInfoMsg),
    ListMultisigMembers(fa::ListMultisigMembersMsg),
    AssetWhitelist(fa::AssetWhitelistParams),
    NftWhitelist(fa::NftWhitelistParams),
    Proposal(fa::ProposalParams),
    Proposals(fa::ProposalsParams),
    MemberVote(fa::MemberVoteParams),
    ProposalVotes(fa::ProposalVotesParams),
    UserStake(OldUser),
    TotalStakedAmount {},
    StakedNfts(fa::StakedNftsParams),
    Claims(fa::ClaimsParams),
    ReleasableClaims(fa::ClaimsParams),
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldMetadata {
    pub name: MV<String>,
    pub description: MV<Option<String>>,
    pub logo: MV<fa::Logo>,
    pub github_username: MV<Option<String>>,
    pub discord_username: MV<Option<String>>,
    pub twitter_username: MV<Option<String>>,
    pub telegram_username: MV<Option<String>>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldGov {
    pub quorum: MV<Decimal>,
    pub threshold: MV<Decimal>,
    pub veto_threshold: MV<Option<Decimal>>,
    pub voting_duration: MV<Uint64>,
    pub unlocking_period: MV<Duration>,
    pub minimum_deposit: MV<Option<Uint128>>,
    pub allow_early_proposal_execution: MV<bool>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldCouncil {
    pub dao_council: Option<ga::DaoCouncilSpec>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldAssets {
    pub add: Vec<AssetInfoUnchecked>,
    pub remove: Vec<AssetInfoUnchecked>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldNfts {
    pub add: Vec<String>,
    pub remove: Vec<String>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldPay {
    pub recipient: String,
    pub assets: Vec<AssetUnchecked>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldUpgrade {
    pub new_dao_code_id: u64,
    pub migrate_msg: Binary,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldMsgs {
    pub action_type: String,
    pub msgs: Vec<String>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldMember {
    pub address: String,
    pub weight: Uint128,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldMembers {
    pub edit_members: Vec<OldMember>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldFunds {
    pub funds: Vec<AssetUnchecked>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldMinimum {
    pub minimum_weight_for_rewards: Uint128,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub enum OldAction {
    UpdateMetadata(OldMetadata),
    UpdateGovConfig(OldGov),
    UpdateCouncil(OldCouncil),
    UpdateAssetWhitelist(OldAssets),
    UpdateNftWhitelist(OldNfts),
    RequestFundingFromDao(OldPay),
    UpgradeDao(OldUpgrade),
    ExecuteMsgs(OldMsgs),
    ModifyMultisigMembership(OldMembers),
    DistributeFunds(OldFunds),
    UpdateMinimumWeightForRewards(OldMinimum),
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldCreate {
    pub title: String,
    pub description: Option<String>,
    pub proposal_actions: Vec<OldAction>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldAmount {
    pub amount: Uint128,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct OldTokens {
    pub tokens: Vec<String>,
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub enum OldUnstake {
    Cw20(OldAmount),
    Cw721(OldTokens),
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub enum OldX {
    CreateProposal(OldCreate),
    CreateCouncilProposal(OldCreate),
    CastVote(fa::CastVoteMsg),
    CastCouncilVote(fa::CastVoteMsg),
    ExecuteProposal(fa::ExecuteProposalMsg),
    Unstake(OldUnstake),
    Claim {},
}
/// What the treasury of version 1.0.0 is told when an old DAO turns into it.
#[derive(Serialize, Deserialize)]
#[serde(deny_unknown_fields)]
pub struct FirstTreasury {
    pub initial_submsgs_limit: Option<u32>,
}
/// What comes with tokens sent to the old DAO.
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case", deny_unknown_fields)]
pub enum OldHook {
    Stake {},
    CreateProposal(OldCreate),
}
#[derive(Serialize, Deserialize, Clone, Copy, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum OldStatus {
    InProgress,
    Passed,
    Rejected,
    Executed,
}
#[derive(Serialize, Deserialize)]
pub struct OldProposal {
    pub proposal_type: fa::ProposalType,
    pub id: u64,
    pub proposer: Option<Addr>,
    pub title: String,
    pub description: String,
    pub status: OldStatus,
    pub started_at: Timestamp,
    pub expires: Expiration,
    pub proposal_actions: Vec<OldAction>,
}
#[derive(Serialize, Deserialize)]
pub struct OldProposalInfo {
    pub proposal: OldProposal,
    pub proposal_status: OldStatus,
    pub results: Vec<(u8, u128)>,
    pub total_votes_available: Uint128,
}
#[derive(Serialize, Deserialize)]
pub struct OldProposals {
    pub proposals: Vec<OldProposalInfo>,
}

/// The old DAO gives the answers it was told to give, to questions it understands.
pub fn old_dao_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    let q: OldQ = from_json(&b).map_err(|_| ())?;
    let k = to_json_vec(&q).map_err(|_| ())?;
    d.storage.get(&k).map(Binary).ok_or(())
}
static OLDDAO1: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: old_dao_query, reply: no_reply };
pub fn answers<T: Serialize>(w: &mut World, q: OldQ, t: &T) {
    let i = w.idx(OLD).unwrap();
    w.cs[i].store.set(&to_json_vec(&q).unwrap(), &to_json_vec(t).unwrap());
}

pub fn old_world(w: &mut World) {
    w.add(FCD, &FACADE);
    w.add("facade1", &OLDFACADE);
    w.add("facade2", &FACADE2);
    w.add(OLD, &OLDDAO1);
    w.init("creator", "facade2", to_json_binary(&enterprise_facade_v2::msg::InstantiateMsg {}).unwrap());
    w.init("creator", "facade1", to_json_binary(&enterprise_facade_v1::msg::InstantiateMsg { enterprise_versioning: VER.to_string() }).unwrap());
    let m = enterprise_facade_api::msg::InstantiateMsg { enterprise_facade_v1: "facade1".to_string(), enterprise_facade_v2: "facade2".to_string() };
    w.init("creator", FCD, to_json_binary(&m).unwrap());
}
pub fn bare() -> World {
    let mut w = World::new();
    w.time = T0;
    w.height = 10;
    old_world(&mut w);
    w
}
pub fn old() -> Addr {
    Addr::unchecked(OLD)
}
pub fn old_type(k: u64) -> fa::DaoType {
    match k {
        0 => fa::DaoType::Token,
        1 => fa::DaoType::Nft,
        _ => fa::DaoType::Multisig,
    }
}
pub fn old_info(k: u64, gov_config: fa::GovConfigV1, dao_council: Option<fa::DaoCouncil>, version: u64) -> OldDaoInfo {
    OldDaoInfo {
        creation_date: Timestamp::from_seconds(5),
        metadata: fa::DaoMetadata {
            name: s("old"),
            description: Some(s("text")),
            logo: fa::Logo::Url(s("logo")),
            socials: fa::DaoSocialData {
                github_username: Some(s("g")),
                discord_username: Some(s("d")),
                twitter_username: None,
                telegram_username: Some(s("t")),
            },
        },
        gov_config,
        dao_council,
        dao_type: old_type(k),
        dao_membership_contract: Addr::unchecked(TOK),
        enterprise_factory_contract: Addr::unchecked(FAC),
        funds_distributor_contract: Addr::unchecked("olddist"),
        dao_code_version: version.into(),
    }
}
pub fn old_gov(q: u128, t: u128, v: Option<u128>, early: bool) -> fa::GovConfigV1 {
    fa::GovConfigV1 {
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        veto_threshold: v.map(Decimal::raw),
        vote_duration: 10,
        unlocking_period: Duration::Time(10),
        minimum_deposit: None,
        allow_early_proposal_execution: early,
    }
}
pub fn plain_old(w: &mut World, k: u64) {
    let i = old_info(k, old_gov(ONE / 2, ONE / 2, None, false), None, 5);
    answers(w, OldQ::DaoInfo {}, &i);
}

// C37: the set-up of an old DAO, in the words of today.
entry!(old_setup, {
    no_panic(true);
    let mut w = bare();
    let k = choice("kind", 3);
    let (q, t) = (u128_in("quorum", 0, ONE), u128_in("threshold", 0, ONE));
    let v = if bool_in("own_veto") { Some(u128_in("veto", 0, ONE)) } else { None };
    let dep = if bool_in("needs_deposit") { Some(u128_in("deposit", 0, MAXW)) } else { None };
    let early = bool_in("early");
    let dur = u64_in("duration", 0, 1 << 40);
    let un = if bool_in("blocks") { Duration::Height(u64_in("unlocking", 0, 1 << 40)) } else { Duration::Time(u64_in("unlocking", 0, 1 << 40)) };
    let version = u64_in("version", 0, 1 << 40);
    let mut g = old_gov(q, t, v, early);
    g.minimum_deposit = dep.map(Uint128::new);
    g.vote_duration = dur;
    g.unlocking_period = un;
    let cnc = if bool_in("council") {
        Some(fa::DaoCouncil {
            members: vec![Addr::unchecked("dave"), Addr::unchecked("erin")],
            allowed_proposal_action_types: vec![ga::ProposalActionType::UpgradeDao, ga::ProposalActionType::UpdateMetadata],
            quorum: Decimal::raw(q),
            threshold: Decimal::raw(t),
        })
    } else {
        None
    };
    let i = old_info(k, g, cnc.clone(), version);
    answers(&mut w, OldQ::DaoInfo {}, &i);
    let a = old();
    let r: fa::DaoInfoResponse = ask(&w, Q::DaoInfo { contract: a.clone() });
    check(r.creation_date == i.creation_date && r.metadata == i.metadata, "creation date and metadata");
    check(r.dao_type == i.dao_type && r.dao_membership_contract == TOK, "kind and membership asset");
    check(r.enterprise_factory_contract == FAC && r.funds_distributor_contract == "olddist", "factory and distributor");
    check(r.dao_council == cnc, "council");
    check(r.dao_code_version.u64() == version, "code version");
    check(r.dao_version.major == 0 && r.dao_version.minor == version && r.dao_version.patch == 0, "a version before 1.0.0");
    let g = r.gov_config;
    check(g.quorum.atomics().u128() == q && g.threshold.atomics().u128() == t, "quorum and threshold");
    check(g.veto_threshold.atomics().u128() == v.unwrap_or(t), "veto threshold");
    check(g.vote_duration == dur && g.unlocking_period == un, "durations");
    check(g.minimum_deposit.map(|d| d.u128()) == dep && g.allow_early_proposal_execution == early, "deposit and early execution");
    let r: fa::TreasuryAddressResponse = ask(&w, Q::TreasuryAddress { contract: a.clone() });
    check(r.treasury_address == OLD, "an old DAO is its own treasury");
    let r: fa::ComponentContractsResponse = ask(&w, Q::ComponentContracts { contract: a.clone() });
    check(r.enterprise_contract == OLD && r.enterprise_factory_contract == FAC && r.funds_distributor_contract == "olddist", "components it has");
    check(
        r.enterprise_versioning_contract.is_none()
            && r.enterprise_governance_contract.is_none()
            && r.enterprise_governance_controller_contract.is_none()
            && r.enterprise_outposts_contract.is_none()
            && r.enterprise_treasury_contract.is_none()
            && r.membership_contract.is_none()
            && r.council_membership_contract.is_none()
            && r.attestation_contract.is_none(),
        "and no others",
    );
    cover("told");
});

// C37: figures come back as the old DAO gives them.
entry!(old_figures, {
    no_panic(true);
    let mut w = bare();
    let k = choice("kind", 3);
    plain_old(&mut w, k);
    let a = old();
    let x = u128_in("figure", 0, u128::MAX);
    let y = u128_in("other", 0, u128::MAX);
    let what = choice("what", 10);
    match what {
        0 => {
            let r = fa::MemberInfoResponse { voting_power: Decimal::raw(x) };
            answers(&mut w, OldQ::MemberInfo(fa::QueryMemberInfoMsg { member_address: s("alice") }), &r);
            let p = |u: &str| Q::MemberInfo { contract: old(), msg: fa::QueryMemberInfoMsg { member_address: s(u) } };
            let g: fa::MemberInfoResponse = ask(&w, p("alice"));
            check(g == r, "member's share");
            check(w.query::<_, fa::MemberInfoResponse>(FCD, &p("bob")).is_none(), "of that member");
        }
        1 => {
            let r = fa::MultisigMembersResponse {
                members: vec![fa::MultisigMember { address: s("alice"), weight: x.into() }, fa::MultisigMember { address: s("bob"), weight: y.into() }],
            };
            let m = fa::ListMultisigMembersMsg { start_after: Some(s("aaa")), limit: Some(2) };
            answers(&mut w, OldQ::ListMultisigMembers(m.clone()), &r);
            let g: fa::MultisigMembersResponse = ask(&w, Q::ListMultisigMembers { contract: a, msg: m });
            check(g == r, "members");
            let m = fa::ListMultisigMembersMsg { start_after: None, limit: Some(2) };
            check(w.query::<_, fa::MultisigMembersResponse>(FCD, &Q::ListMultisigMembers { contract: old(), msg: m }).is_none(), "that page");
        }
        2 => {
            let r = fa::AssetWhitelistResponse { assets: vec![AssetInfo::native(LUNA), AssetInfo::cw20(Addr::unchecked(TOK))] };
            let p = fa::AssetWhitelistParams { start_after: Some(AssetInfoUnchecked::native("ua")), limit: Some(3) };
            answers(&mut w, OldQ::AssetWhitelist(p.clone()), &r);
            let g: fa::AssetWhitelistResponse = ask(&w, Q::AssetWhitelist { contract: a.clone(), params: p });
            check(g == r, "asset whitelist");
            let r = fa::NftWhitelistResponse { nfts: vec![Addr::unchecked("nfta"), Addr::unchecked("nftb")] };
            let p = fa::NftWhitelistParams { start_after: Some(s("n")), limit: None };
            answers(&mut w, OldQ::NftWhitelist(p.clone()), &r);
            let g: fa::NftWhitelistResponse = ask(&w, Q::NftWhitelist { contract: a, params: p });
            check(g == r, "NFT whitelist");
        }
        3 => {
            let v = Vote { poll_id: 3, voter: Addr::unchecked("alice"), outcome: choice("outcome", 4) as u8, amount: x };
            let r = fa::MemberVoteResponse { vote: if bool_in("voted") { Some(v.clone()) } else { None } };
            let p = fa::MemberVoteParams { member: s("alice"), proposal_id: 3 };
            answers(&mut w, OldQ::MemberVote(p.clone()), &r);
            let g: fa::MemberVoteResponse = ask(&w, Q::MemberVote { contract: a.clone(), params: p });
            check(g == r, "a member's vote");
            let o = Vote { poll_id: 3, voter: Addr::unchecked("bob"), outcome: 0, amount: y };
            let r = fa::ProposalVotesResponse { votes: vec![v, o] };
            let p = fa::ProposalVotesParams { proposal_id: 3, start_after: Some(s("al")), limit: Some(7) };
            answers(&mut w, OldQ::ProposalVotes(p.clone()), &r);
            let g: fa::ProposalVotesResponse = ask(&w, Q::ProposalVotes { contract: a, params: p });
            check(g == r, "votes");
        }
        4 => {
            let us = match choice("stake", 3) {
                0 => fa::UserStake::Token(fa::TokenUserStake { amount: x.into() }),
                1 => fa::UserStake::Nft(fa::NftUserStake { tokens: vec![s("a"), s("b")], amount: y.into() }),
                _ => fa::UserStake::None,
            };
            let r = fa::UserStakeResponse { user_stake: us };
            answers(&mut w, OldQ::UserStake(OldUser { user: s("alice") }), &r);
            // the old DAO knows no pages
            let p = |u: &str, l: Option<u32>| fa::UserStakeParams { user: s(u), start_after: None, limit: l };
            let g: fa::UserStakeResponse = ask(&w, Q::UserStake { contract: a.clone(), params: p("alice", None) });
            check(g == r, "stake");
            let g: fa::UserStakeResponse = ask(&w, Q::UserStake { contract: a.clone(), params: p("alice", Some(9)) });
            check(g == r, "stake, whatever the page");
            check(w.query::<_, fa::UserStakeResponse>(FCD, &Q::UserStake { contract: a, params: p("bob", None) }).is_none(), "of that user");
        }
        5 => {
            let r = fa::TotalStakedAmountResponse { total_staked_amount: x.into() };
            answers(&mut w, OldQ::TotalStakedAmount {}, &r);
            let g: fa::TotalStakedAmountResponse = ask(&w, Q::TotalStakedAmount { contract: a });
            check(g == r, "total staked");
        }
        6 => {
            let r = fa::StakedNftsResponse { nfts: vec![s("x"), s("y")] };
            let p = fa::StakedNftsParams { start_after: Some(s("w")), limit: Some(2) };
            answers(&mut w, OldQ::StakedNfts(p.clone()), &r);
            let g: fa::StakedNftsResponse = ask(&w, Q::StakedNfts { contract: a, params: p });
            check(g == r, "staked NFTs");
        }
        7 | 8 => {
            let l = vec![
                fa::Claim {
                    asset: fa::ClaimAsset::Cw20(fa::Cw20ClaimAsset { amount: x.into() }),
                    release_at: ReleaseAt::Timestamp(Timestamp::from_seconds(9)),
                },
                fa::Claim { asset: fa::ClaimAsset::Cw721(fa::Cw721ClaimAsset { tokens: vec![s("a")] }), release_at: ReleaseAt::Height(8u64.into()) },
            ];
            let all = fa::ClaimsResponse { claims: l.clone() };
            let some = fa::ClaimsResponse { claims: vec![l[1].clone()] };
            let p = fa::ClaimsParams { owner: s("alice") };
            answers(&mut w, OldQ::Claims(p.clone()), &all);
            answers(&mut w, OldQ::ReleasableClaims(p.clone()), &some);
            if what == 7 {
                let g: fa::ClaimsResponse = ask(&w, Q::Claims { contract: a, params: p });
                check(g == all, "all claims");
            } else {
                let g: fa::ClaimsResponse = ask(&w, Q::ReleasableClaims { contract: a, params: p });
                check(g == some, "releasable claims");
            }
            let p = fa::ClaimsParams { owner: s("bob") };
            check(w.query::<_, fa::ClaimsResponse>(FCD, &Q::Claims { contract: old(), params: p }).is_none(), "of that owner");
        }
        _ => {
            let p = CrossChainTreasuriesParams { start_after: None, limit: Some(1) };
            let g: CrossChainTreasuriesResponse = ask(&w, Q::CrossChainTreasuries { contract: a.clone(), params: p });
            check(g.treasuries.is_empty(), "no treasuries elsewhere");
            let g: enterprise_treasury_api::api::HasIncompleteV2MigrationResponse = ask(&w, Q::HasIncompleteV2Migration { contract: a.clone() });
            check(!g.has_incomplete_migration, "no migration under way");
            let g: enterprise_treasury_api::api::HasUnmovedStakesOrClaimsResponse = ask(&w, Q::HasUnmovedStakesOrClaims { contract: a.clone() });
            check(!g.has_unmoved_stakes_or_claims, "nothing left to move");
            let g: fa::V2MigrationStageResponse = ask(&w, Q::V2MigrationStage { contract: a });
            check(g.stage == fa::V2MigrationStage::MigrationNotStarted, "migration not started");
        }
    }
    cover("told");
});

// C37: a proposal's status is what its votes and the clock make it.
entry!(old_status, {
    no_panic(true);
    let mut w = bare();
    let (q, t) = (u128_in("quorum", 1, ONE), u128_in("threshold", 1, ONE));
    let own = bool_in("own_veto");
    let v = if own { u128_in("veto", 1, ONE) } else { t };
    let early = bool_in("early");
    let i = old_info(choice("kind", 3), old_gov(q, t, if own { Some(v) } else { None }, early), None, 5);
    answers(&mut w, OldQ::DaoInfo {}, &i);
    let council = bool_in("council");
    // outcomes nobody chose are missing from the results
    let some = choice("voted", 3);
    let yes = u128_in("yes", 0, MAXW);
    let no = if some == 0 { 0 } else { u128_in("no", 0, MAXW) };
    let (ab, vt) = if some == 2 { (u128_in("abstain", 0, MAXW), u128_in("vetoes", 0, MAXW)) } else { (0, 0) };
    let max = u128_in("available", 1, 8 * MAXW);
    assume((z(yes) + z(no) + z(ab) + z(vt)).le(z(max) * z(1u128 << 60)));
    let stored = [OldStatus::InProgress, OldStatus::Passed, OldStatus::Rejected, OldStatus::Executed][choice("stored", 4) as usize];
    let ends = u64_in("ends", 0, 1 << 33);
    w.time = u64_in("now", 0, 1 << 33);
    let mut results = vec![(0u8, yes)];
    let mut map = BTreeMap::new();
    map.insert(0u8, yes);
    if some > 0 {
        results.push((1, no));
        map.insert(1, no);
    }
    if some > 1 {
        results.push((2, ab));
        results.push((3, vt));
        map.insert(2, ab);
        map.insert(3, vt);
    }
    let typ = || if council { fa::ProposalType::Council } else { fa::ProposalType::General };
    let spend = u128_in("spend", 0, MAXW);
    let make = || OldProposalInfo {
        proposal: OldProposal {
            proposal_type: typ(),
            id: 4,
            proposer: Some(Addr::unchecked("alice")),
            title: s("title"),
            description: s("text"),
            status: stored,
            started_at: Timestamp::from_seconds(3),
            expires: Expiration::AtTime(Timestamp::from_seconds(ends)),
            proposal_actions: vec![
                OldAction::RequestFundingFromDao(OldPay { recipient: s("rec"), assets: vec![AssetUnchecked::native(LUNA, spend)] }),
                OldAction::ExecuteMsgs(OldMsgs { action_type: s("kind"), msgs: vec![s("a"), s("b")] }),
            ],
        },
        proposal_status: stored,
        results: results.clone(),
        total_votes_available: max.into(),
    };
    let acts = vec![
        ga::ProposalAction::RequestFundingFromDao(ga::RequestFundingFromDaoMsg {
            remote_treasury_target: None,
            recipient: s("rec"),
            assets: vec![AssetUnchecked::native(LUNA, spend)],
        }),
        ga::ProposalAction::ExecuteMsgs(ga::ExecuteMsgsMsg { action_type: s("kind"), msgs: vec![s("a"), s("b")] }),
    ];
    let pp = fa::ProposalParams { proposal_id: 4 };
    answers(&mut w, OldQ::Proposal(pp.clone()), &make());
    let ps = fa::ProposalsParams { filter: Some(fa::ProposalStatusFilter::InProgress), start_after: Some(2), limit: Some(6) };
    let mut other = make();
    other.proposal.id = 5;
    other.proposal.status = OldStatus::Executed;
    other.proposal_status = OldStatus::Executed;
    answers(&mut w, OldQ::Proposals(ps.clone()), &OldProposals { proposals: vec![make(), other] });

    // the outcome, over mathematical integers
    let na = z(yes) + z(no) + z(vt);
    let any = na.gt(z(0u128));
    let over = |x: u128, th: u128| and(any, (z(x) * z(ONE)).ge(z(th) * na));
    let quorum = ((na + z(ab)) * z(ONE)).ge(z(q) * z(max));
    let (oy, on, ov) = (over(yes, t), over(no, t), over(vt, v));
    let decided = and(quorum, or(ov, or(oy, on)));
    let passed = and(and(quorum, not(ov)), and(oy, or(not(on), yes > no)));

    let r: fa::ProposalResponse = ask(&w, Q::Proposal { contract: old(), params: pp });
    let over = w.time >= ends;
    use fa::ProposalStatus as S;
    match stored {
        OldStatus::Passed => check(r.proposal_status == S::Passed, "passed stays passed"),
        OldStatus::Rejected => check(r.proposal_status == S::Rejected, "rejected stays rejected"),
        OldStatus::Executed => check(r.proposal_status == S::Executed, "executed stays executed"),
        OldStatus::InProgress => match r.proposal_status {
            S::InProgress => {
                check(not(over), "a proposal whose time is up is decided");
                if early || council {
                    check(not(decided), "and may be executed early once decided");
                }
                cover("open");
            }
            S::InProgressCanExecuteEarly => {
                check(and(not(over), and(early || council, decided)), "early execution only where allowed and decided");
                cover("early");
            }
            S::Passed => {
                check(and(over, passed), "passed only when voted for, once its time is up");
                cover("passed");
            }
            S::Rejected => {
                check(and(over, not(passed)), "rejected only when not voted for, once its time is up");
                cover("rejected");
            }
            S::Executed => check(false, "not executed"),
        },
    }
    check(r.proposal.status == r.proposal_status, "one status");
    let p = &r.proposal;
    check(p.id == 4 && p.proposer == Some(Addr::unchecked("alice")) && p.title == "title" && p.description == "text", "who and what");
    check(p.proposal_type == typ() && p.started_at == Timestamp::from_seconds(3), "kind and start");
    check(p.expires == Expiration::AtTime(Timestamp::from_seconds(ends)), "end");
    check(p.proposal_actions == acts, "actions");
    check(r.results == map && r.total_votes_available.u128() == max, "votes");
    let st: fa::ProposalStatusResponse = ask(&w, Q::ProposalStatus { contract: old(), params: fa::ProposalStatusParams { proposal_id: 4 } });
    check(st.status == r.proposal_status && st.expires == p.expires && st.results == r.results, "the status alone says the same");
    let l: fa::ProposalsResponse = ask(&w, Q::Proposals { contract: old(), params: ps });
    check(l.proposals.len() == 2 && l.proposals[0] == r, "listed the same");
    check(l.proposals[1].proposal.id == 5 && l.proposals[1].proposal_status == S::Executed, "each as it is");
});

pub fn remote() -> Option<RemoteTreasuryTarget> {
    Some(RemoteTreasuryTarget { cross_chain_msg_spec: deploy("one").cross_chain_msg_spec })
}
pub fn texts() -> Vec<String> {
    vec![s("m1"), s("m2")]
}
/// An action, and how the old DAO says it, if it can.
pub fn an_action(i: u64, x: u128) -> (ga::ProposalAction, Option<OldAction>) {
    let infos = || vec![AssetInfoUnchecked::native(LUNA), AssetInfoUnchecked::cw20(TOK)];
    let money = || vec![AssetUnchecked::native(LUNA, x), AssetUnchecked::cw20(TOK, 2u128)];
    match i {
        0 => (
            ga::ProposalAction::UpdateMetadata(UpdateMetadataMsg {
                name: MV::Change(s("name")),
                description: MV::Change(None),
                logo: MV::Change(Logo::Url(s("logo"))),
                github_username: MV::NoChange,
                discord_username: MV::Change(Some(s("d"))),
                twitter_username: MV::Change(Some(s("t"))),
                telegram_username: MV::Change(None),
            }),
            Some(OldAction::UpdateMetadata(OldMetadata {
                name: MV::Change(s("name")),
                description: MV::Change(None),
                logo: MV::Change(fa::Logo::Url(s("logo"))),
                github_username: MV::NoChange,
                discord_username: MV::Change(Some(s("d"))),
                twitter_username: MV::Change(Some(s("t"))),
                telegram_username: MV::Change(None),
            })),
        ),
        1 => {
            // the text of a ratio is not followed symbolically
            let (q, t) = (Decimal::raw(ONE / 3), Decimal::percent(51));
            let v = match choice("veto", 3) {
                0 => MV::NoChange,
                1 => MV::Change(None),
                _ => MV::Change(Some(Decimal::percent(70))),
            };
            let d: Uint64 = [1u64, 1 << 40][choice("duration", 2) as usize].into();
            let e = if bool_in("early") { MV::Change(true) } else { MV::NoChange };
            (
                ga::ProposalAction::UpdateGovConfig(ga::UpdateGovConfigMsg {
                    quorum: MV::Change(q),
                    threshold: MV::Change(t),
                    veto_threshold: v.clone(),
                    voting_duration: MV::Change(d),
                    unlocking_period: MV::Change(Duration::Time(77)),
                    minimum_deposit: MV::Change(Some(x.into())),
                    allow_early_proposal_execution: e.clone(),
                }),
                Some(OldAction::UpdateGovConfig(OldGov {
                    quorum: MV::Change(q),
                    threshold: MV::Change(t),
                    veto_threshold: v,
                    voting_duration: MV::Change(d),
                    unlocking_period: MV::Change(Duration::Time(77)),
                    minimum_deposit: MV::Change(Some(x.into())),
                    allow_early_proposal_execution: e,
                })),
            )
        }
        2 => {
            let c = if bool_in("council") { Some(council(&["dave", "erin"], ONE / 2, ONE / 3)) } else { None };
            (ga::ProposalAction::UpdateCouncil(ga::UpdateCouncilMsg { dao_council: c.clone() }), Some(OldAction::UpdateCouncil(OldCouncil { dao_council: c })))
        }
        3 | 14 => (
            ga::ProposalAction::UpdateAssetWhitelist(ga::UpdateAssetWhitelistProposalActionMsg {
                remote_treasury_target: if i == 3 { None } else { remote() },
                add: infos(),
                remove: vec![AssetInfoUnchecked::native("ur")],
            }),
            if i == 3 { Some(OldAction::UpdateAssetWhitelist(OldAssets { add: infos(), remove: vec![AssetInfoUnchecked::native("ur")] })) } else { None },
        ),
        4 | 15 => (
            ga::ProposalAction::UpdateNftWhitelist(ga::UpdateNftWhitelistProposalActionMsg {
                remote_treasury_target: if i == 4 { None } else { remote() },
                add: vec![s("nfta")],
                remove: vec![s("nftb"), s("nftc")],
            }),
            if i == 4 { Some(OldAction::UpdateNftWhitelist(OldNfts { add: vec![s("nfta")], remove: vec![s("nftb"), s("nftc")] })) } else { None },
        ),
        5 | 16 => (
            ga::ProposalAction::RequestFundingFromDao(ga::RequestFundingFromDaoMsg {
                remote_treasury_target: if i == 5 { None } else { remote() },
                recipient: s("rec"),
                assets: money(),
            }),
            if i == 5 { Some(OldAction::RequestFundingFromDao(OldPay { recipient: s("rec"), assets: money() })) } else { None },
        ),
        6 => (
            ga::ProposalAction::ExecuteMsgs(ga::ExecuteMsgsMsg { action_type: s("kind"), msgs: texts() }),
            Some(OldAction::ExecuteMsgs(OldMsgs { action_type: s("kind"), msgs: texts() })),
        ),
        7 | 13 => (
            ga::ProposalAction::ExecuteTreasuryMsgs(ga::ExecuteTreasuryMsgsMsg {
                action_type: s("kind"),
                msgs: texts(),
                remote_treasury_target: if i == 7 { None } else { remote() },
            }),
            if i == 7 { Some(OldAction::ExecuteMsgs(OldMsgs { action_type: s("kind"), msgs: texts() })) } else { None },
        ),
        8 => (
            ga::ProposalAction::ExecuteEnterpriseMsgs(ga::ExecuteEnterpriseMsgsMsg { action_type: s("kind"), msgs: texts() }),
            Some(OldAction::ExecuteMsgs(OldMsgs { action_type: s("kind"), msgs: texts() })),
        ),
        9 => (
            ga::ProposalAction::ModifyMultisigMembership(ga::ModifyMultisigMembershipMsg {
                edit_members: vec![MW { user: s("alice"), weight: x.into() }, MW { user: s("bob"), weight: 0u128.into() }],
            }),
            Some(OldAction::ModifyMultisigMembership(OldMembers {
                edit_members: vec![OldMember { address: s("alice"), weight: x.into() }, OldMember { address: s("bob"), weight: 0u128.into() }],
            })),
        ),
        10 => (ga::ProposalAction::DistributeFunds(ga::DistributeFundsMsg { funds: money() }), Some(OldAction::DistributeFunds(OldFunds { funds: money() }))),
        11 => (
            ga::ProposalAction::UpdateMinimumWeightForRewards(ga::UpdateMinimumWeightForRewardsMsg { minimum_weight_for_rewards: x.into() }),
            Some(OldAction::UpdateMinimumWeightForRewards(OldMinimum { minimum_weight_for_rewards: x.into() })),
        ),
        _ => (ga::ProposalAction::DeployCrossChainTreasury(deploy("one")), None),
    }
}
/// The single message handed out, and whom it is for.
pub fn one(r: fa::AdapterResponse) -> (String, String) {
    check(r.msgs.len() == 1, "one message");
    match &r.msgs[0] {
        fa::AdaptedMsg::Execute(x) => {
            check(x.funds.is_empty(), "no coins");
            (x.target_contract.to_string(), x.msg.clone())
        }
        fa::AdaptedMsg::Bank(_) => {
            check(false, "a message for a contract");
            panic!()
        }
    }
}
pub fn parse<T: serde::de::DeserializeOwned>(j: &str) -> T {
    match serde_json_wasm::from_str::<T>(j) {
        Ok(t) => t,
        Err(_) => {
            check(false, "the old DAO understands the message");
            panic!()
        }
    }
}

// C37: proposals made for an old DAO are as written, in its language, or refused.
entry!(old_propose, {
    no_panic(true);
    let mut w = bare();
    let how = choice("how", 5);
    let k = if how == 2 { choice("kind", 3) } else { 0 };
    plain_old(&mut w, k);
    // what is sent along with tokens is text within text, which is not followed symbolically
    let x = if how == 2 { 123456789 } else { u128_in("amount", 0, u128::MAX) };
    let i = choice("action", 17);
    let (act, want) = an_action(i, x);
    let (second, want2) = an_action(6, 0);
    let text = if bool_in("text") { Some(s("text")) } else { None };
    let m = fa::CreateProposalMsg { title: s("title"), description: text.clone(), proposal_actions: vec![act.clone(), second.clone()], deposit_owner: None };
    let dep = u128_in("deposit", 0, u128::MAX);
    let a = old();
    let q = match how {
        0 => Q::CreateProposalAdapted { contract: a, params: m },
        1 => Q::CreateCouncilProposalAdapted { contract: a, params: m },
        2 => Q::CreateProposalWithTokenDepositAdapted {
            contract: a,
            params: fa::CreateProposalWithTokenDepositMsg { create_proposal_msg: m, deposit_amount: dep.into() },
        },
        3 => Q::CreateProposalWithDenomDepositAdapted {
            contract: a,
            params: fa::CreateProposalWithDenomDepositMsg { create_proposal_msg: m, deposit_amount: dep.into() },
        },
        _ => {
            let m = ga::CreateProposalMsg { title: s("title"), description: text.clone(), proposal_actions: vec![act, second], deposit_owner: None };
            Q::CreateProposalWithNftDepositAdapted { contract: a, params: ga::CreateProposalWithNftDepositMsg { create_proposal_msg: m, deposit_tokens: vec![s("a")] } }
        }
    };
    let r: Option<fa::AdapterResponse> = w.query(FCD, &q);
    let can = how < 2 || (how == 2 && k == 0);
    let want = match want {
        Some(o) if can => OldCreate { title: s("title"), description: text, proposal_actions: vec![o, want2.unwrap()] },
        _ => {
            check(r.is_none(), "what an old DAO cannot do is refused");
            cover("refused");
            return;
        }
    };
    let r = match r {
        Some(r) => r,
        None => {
            check(false, "a proposal can be made");
            panic!()
        }
    };
    let (to, j) = one(r);
    let got = match how {
        2 => {
            check(to == TOK, "the deposit is sent by the DAO's token");
            match parse::<cw20::Cw20ExecuteMsg>(&j) {
                cw20::Cw20ExecuteMsg::Send { contract, amount, msg } => {
                    check(contract == OLD && amount.u128() == dep, "that much, to the DAO");
                    match from_json::<OldHook>(&msg) {
                        Ok(OldHook::CreateProposal(c)) => c,
                        _ => {
                            check(false, "with the proposal");
                            panic!()
                        }
                    }
                }
                _ => {
                    check(false, "tokens are sent");
                    panic!()
                }
            }
        }
        _ => {
            check(to == OLD, "for the DAO");
            match parse::<OldX>(&j) {
                OldX::CreateProposal(c) => {
                    check(how == 0, "the members' proposal");
                    c
                }
                OldX::CreateCouncilProposal(c) => {
                    check(how == 1, "the council's proposal");
                    c
                }
                _ => {
                    check(false, "a proposal");
                    panic!()
                }
            }
        }
    };
    check(got == want, "as written");
    cover("made");
});

// C37: an upgrade leads an old DAO to the code of the version meant.
entry!(old_upgrade, {
    no_panic(true);
    let mut w = chain();
    old_world(&mut w);
    plain_old(&mut w, 0);
    for (i, minor) in [(7u64, 5u64), (8, 6)] {
        let v = vinfo(Version::new(0, minor, 1), ids(i));
        check(w.exec("vadmin", VER, &VX::AddVersion(AddVersionMsg { version: v }), vec![]), "version registered");
    }
    let (ma, mi, pa) = (u64_in("major", 0, 3), u64_in("minor", 0, 12), u64_in("patch", 0, 6));
    let msgs = vec![VersionMigrateMsg { version: Version::new(1, 0, 0), migrate_msg: Binary(vec![1, 2]) }];
    let act = ga::ProposalAction::UpgradeDao(UpgradeDaoMsg { new_version: Version::new(ma, mi, pa), migrate_msgs: msgs });
    let m = fa::CreateProposalMsg { title: s("title"), description: None, proposal_actions: vec![act], deposit_owner: None };
    let r: Option<fa::AdapterResponse> = w.query(FCD, &Q::CreateProposalAdapted { contract: old(), params: m });
    let known = or(and(mi == 5, pa == 1), and(mi == 6, pa == 1));
    let r = match r {
        Some(r) => r,
        None => {
            check(and(ma == 0, not(known)), "an upgrade to a known version, or past 1.0.0, can be proposed");
            cover("unknown");
            return;
        }
    };
    let (to, j) = one(r);
    check(to == OLD, "for the DAO");
    let u = match parse::<OldX>(&j) {
        OldX::CreateProposal(mut c) => {
            check(c.proposal_actions.len() == 1, "one action");
            match c.proposal_actions.remove(0) {
                OldAction::UpgradeDao(u) => u,
                _ => {
                    check(false, "an upgrade");
                    panic!()
                }
            }
        }
        _ => {
            check(false, "a proposal");
            panic!()
        }
    };
    if split(ma >= 1) {
        check(u.new_dao_code_id == ids(1)[5], "first to the treasury of 1.0.0, which the old DAO turns into");
        match from_json::<FirstTreasury>(&u.migrate_msg) {
            Ok(m) => check(m.initial_submsgs_limit.is_none(), "with the message it expects"),
            Err(_) => check(false, "with a message it understands"),
        }
        cover("rewritten");
    } else {
        check(known, "only to versions there are");
        check(u.new_dao_code_id == if split(mi == 5) { ids(7)[1] } else { ids(8)[1] }, "to that version's code");
        check(u.migrate_msg == to_json_binary(&Empty {}).unwrap(), "with nothing to say");
        cover("older");
    }
});

// C37: what the facade says to do with an old DAO, is what was asked, in its language.
entry!(old_operate, {
    no_panic(true);
    let mut w = bare();
    let k = choice("kind", 3);
    plain_old(&mut w, k);
    let x = u128_in("amount", 0, u128::MAX);
    let a = old();
    let toks = vec![s("a"), s("b")];
    let what = choice("what", 10);
    let id = if what <= 2 { u64_in("proposal", 0, 1 << param("id_bits", 14)) } else { 0 };
    let outcome = VoteOutcome::from(if what < 2 { choice("outcome", 4) } else { 0 } as u8);
    let vote = fa::CastVoteMsg { proposal_id: id, outcome };
    let q = match what {
        0 => Q::CastVoteAdapted { contract: a, params: vote.clone() },
        1 => Q::CastCouncilVoteAdapted { contract: a, params: vote.clone() },
        2 => Q::ExecuteProposalAdapted { contract: a, params: fa::ExecuteProposalMsg { proposal_id: id } },
        3 => Q::ClaimAdapted { contract: a },
        4 => Q::UnstakeAdapted { contract: a, params: fa::UnstakeMsg::Cw20(fa::UnstakeCw20Msg { amount: x.into() }) },
        5 => Q::UnstakeAdapted { contract: a, params: fa::UnstakeMsg::Cw721(fa::UnstakeCw721Msg { tokens: toks.clone() }) },
        6 => Q::UnstakeAdapted { contract: a, params: fa::UnstakeMsg::Denom(fa::UnstakeDenomMsg { amount: x.into() }) },
        7 => Q::StakeAdapted { contract: a, params: fa::StakeMsg::Denom(fa::StakeDenomMsg { user: s("alice"), amount: x.into() }) },
        8 => Q::StakeAdapted { contract: a, params: fa::StakeMsg::Cw20(fa::StakeCw20Msg { user: s("alice"), amount: x.into() }) },
        _ => Q::StakeAdapted { contract: a, params: fa::StakeMsg::Cw721(fa::StakeCw721Msg { user: s("alice"), tokens: toks.clone() }) },
    };
    let r: Option<fa::AdapterResponse> = w.query(FCD, &q);
    if what == 6 || what == 7 {
        check(r.is_none(), "old DAOs stake no coins");
        cover("refused");
        return;
    }
    let r = match r {
        Some(r) => r,
        None => {
            check(false, "it can be done");
            panic!()
        }
    };
    if what == 9 {
        check(r.msgs.len() == 2, "one message for each NFT");
        for (m, t) in r.msgs.into_iter().zip(toks) {
            let (to, j) = one(fa::AdapterResponse { msgs: vec![m] });
            check(to == TOK, "for the collection");
            match parse::<cw721::Cw721ExecuteMsg>(&j) {
                cw721::Cw721ExecuteMsg::SendNft { contract, token_id, msg } => {
                    check(contract == OLD && token_id == t, "that NFT, to the DAO");
                    check(from_json::<OldHook>(&msg) == Ok(OldHook::Stake {}), "to stake");
                }
                _ => check(false, "an NFT is sent"),
            }
        }
        cover("nfts");
        return;
    }
    let (to, j) = one(r);
    if what == 8 {
        check(to == TOK, "for the token");
        match parse::<cw20::Cw20ExecuteMsg>(&j) {
            cw20::Cw20ExecuteMsg::Send { contract, amount, msg } => {
                check(contract == OLD && amount.u128() == x, "that much, to the DAO");
                check(from_json::<OldHook>(&msg) == Ok(OldHook::Stake {}), "to stake");
            }
            _ => check(false, "tokens are sent"),
        }
        cover("tokens");
        return;
    }
    check(to == OLD, "for the DAO");
    let want = match what {
        0 => OldX::CastVote(vote),
        1 => OldX::CastCouncilVote(vote),
        2 => OldX::ExecuteProposal(fa::ExecuteProposalMsg { proposal_id: id }),
        3 => OldX::Claim {},
        4 => OldX::Unstake(OldUnstake::Cw20(OldAmount { amount: x.into() })),
        _ => OldX::Unstake(OldUnstake::Cw721(OldTokens { tokens: toks })),
    };
    check(parse::<OldX>(&j) == want, "as asked");
    cover("asked");
});
