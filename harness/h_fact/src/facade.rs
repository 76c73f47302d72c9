//! The facade: one address for reading and operating any DAO.
use crate::life::*;
use crate::*;
use cw_utils::Expiration;
use enterprise_facade_api::api as fa;
use enterprise_facade_api::msg::QueryMsg as Q;
use enterprise_outposts_api::api::{CrossChainTreasuriesParams, CrossChainTreasuriesResponse};
use poll_engine_api::api::VoteOutcome;

code!(
    FACADE,
    enterprise_facade::contract,
    enterprise_facade_api::msg::InstantiateMsg,
    enterprise_facade_api::msg::ExecuteMsg,
    enterprise_facade_api::msg::QueryMsg
);
code!(
    FACADE2,
    enterprise_facade_v2::contract,
    enterprise_facade_v2::msg::InstantiateMsg,
    enterprise_facade_api::msg::ExecuteMsg,
    enterprise_facade_api::msg::QueryMsg
);
/// Stands for the facade of DAOs from before the rewrite: says which DAO it was asked about.
fn v1_query(_d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<Q>(&b).map_err(|_| ())? {
        Q::TreasuryAddress { contract } => {
            let mut s = String::from("v1");
            s.push_str(contract.as_str());
            to_json_binary(&fa::TreasuryAddressResponse { treasury_address: Addr::unchecked(s) }).map_err(|_| ())
        }
        Q::TotalStakedAmount { contract } if contract == "olddao" => {
            to_json_binary(&fa::TotalStakedAmountResponse { total_staked_amount: 77u128.into() }).map_err(|_| ())
        }
        Q::CastVoteAdapted { contract, params } if contract == "olddao" && params.proposal_id == 5 => {
            to_json_binary(&fa::AdapterResponse { msgs: vec![] }).map_err(|_| ())
        }
        _ => Err(()),
    }
}
static FACADE1: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: v1_query, reply: no_reply };
/// A DAO from before the rewrite.
#[derive(Serialize, Deserialize)]
pub struct OldDaoInfo {
    pub creation_date: Timestamp,
    pub metadata: fa::DaoMetadata,
    pub gov_config: fa::GovConfigV1,
    pub dao_council: Option<fa::DaoCouncil>,
    pub dao_type: fa::DaoType,
    pub dao_membership_contract: Addr,
    pub enterprise_factory_contract: Addr,
    pub funds_distributor_contract: Addr,
    pub dao_code_version: Uint64,
}
fn old_query(_d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<EQ>(&b).map_err(|_| ())? {
        EQ::DaoInfo {} => to_json_binary(&OldDaoInfo {
            creation_date: Timestamp::from_seconds(5),
            metadata: fa::DaoMetadata {
                name: "old".to_string(),
                description: None,
                logo: fa::Logo::None,
                socials: fa::DaoSocialData { github_username: None, discord_username: None, twitter_username: None, telegram_username: None },
            },
            gov_config: fa::GovConfigV1 {
                quorum: Decimal::percent(10),
                threshold: Decimal::percent(50),
                veto_threshold: None,
                vote_duration: 10,
                unlocking_period: Duration::Time(10),
                minimum_deposit: None,
                allow_early_proposal_execution: false,
            },
            dao_council: None,
            dao_type: fa::DaoType::Token,
            dao_membership_contract: Addr::unchecked(TOK),
            enterprise_factory_contract: Addr::unchecked(FAC),
            funds_distributor_contract: Addr::unchecked("olddist"),
            dao_code_version: 5u64.into(),
        })
        .map_err(|_| ()),
        _ => Err(()),
    }
}
static OLDDAO: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: old_query, reply: no_reply };

pub const FCD: &str = "facade";
fn with_facade() -> World {
    let mut w = chain();
    w.add(FCD, &FACADE);
    w.add("facade1", &FACADE1);
    w.add("facade2", &FACADE2);
    w.init("creator", "facade2", to_json_binary(&enterprise_facade_v2::msg::InstantiateMsg {}).unwrap());
    let m = enterprise_facade_api::msg::InstantiateMsg { enterprise_facade_v1: "facade1".to_string(), enterprise_facade_v2: "facade2".to_string() };
    w.init("creator", FCD, to_json_binary(&m).unwrap());
    w
}
pub fn ask<T: serde::de::DeserializeOwned>(w: &World, q: Q) -> T {
    match w.query(FCD, &q) {
        Some(r) => r,
        None => {
            check(false, "the facade answers");
            panic!()
        }
    }
}
pub fn s(a: &str) -> String {
    a.to_string()
}
/// The DAO goes by its treasury's address, and by its main contract's too.
fn by(d: &Dao) -> Addr {
    Addr::unchecked(if choice("addressed_by", 2) == 0 { &d.tre } else { &d.ent })
}
fn ftype(k: u64) -> fa::DaoType {
    match dao_type(k) {
        DaoType::Denom => fa::DaoType::Denom,
        DaoType::Token => fa::DaoType::Token,
        DaoType::Nft => fa::DaoType::Nft,
        DaoType::Multisig => fa::DaoType::Multisig,
    }
}

// C33: what the facade says of a DAO's set-up is what was asked for when it was created.
entry!(fcd_info, {
    no_panic(true);
    let mut w = with_facade();
    let k = choice("kind", 8);
    let (q, t) = (u128_in("quorum", 1, ONE), u128_in("threshold", 1, ONE));
    let full = bool_in("everything");
    let v = if full { Some(u128_in("veto", 1, ONE)) } else { None };
    let dur = u64_in("duration", 1, 1 << 32);
    let dep = if full && !is_multisig(k) { Some(u128_in("deposit", 0, MAXW)) } else { None };
    let unlock = Duration::Time(u64_in("unlocking", 1, 1 << 33));
    if let Duration::Time(u) = unlock {
        assume(u >= dur);
    }
    let ws = if symbolic(k) { [3, 4, 5] } else { [2, 2, 1] };
    if k == 6 {
        set_voter(&mut w, "alice", 3);
    }
    let mut m = create_msg(gcfg(q, t, v, dur, dep, full), membership(k, unlock, ws[0], ws[1], ws[2]));
    let types = vec![ga::ProposalActionType::UpdateMetadata, ga::ProposalActionType::UpdateNftWhitelist];
    let (cq, ct) = (u128_in("council_quorum", 1, ONE), u128_in("council_threshold", 1, ONE));
    if full {
        let mut c = council(&["dave", "erin", "carol"], cq, ct);
        c.allowed_proposal_action_types = Some(types.clone());
        m.dao_council = Some(c);
        m.attestation_text = Some(s("text"));
        m.asset_whitelist = Some(vec![AssetInfoUnchecked::native("uatom"), AssetInfoUnchecked::cw20(TOK)]);
        m.nft_whitelist = Some(vec![s("nfta"), s("nftb")]);
    } else {
        m.dao_metadata.logo = Logo::None;
        m.dao_metadata.description = None;
        m.dao_metadata.socials.discord_username = None;
    }
    let md = m.dao_metadata.clone();
    let born = w.time;
    let d = make(&mut w, k, m);
    let mut other = simple(&mut w, 7);
    other.dao_metadata.name = s("other");
    w.time += 5;
    make(&mut w, 7, other);
    let a = by(&d);
    let r: fa::TreasuryAddressResponse = ask(&w, Q::TreasuryAddress { contract: a.clone() });
    check(r.treasury_address == d.tre, "treasury");
    let c = comps(&w, &d.ent);
    let r: fa::ComponentContractsResponse = ask(&w, Q::ComponentContracts { contract: a.clone() });
    check(r.enterprise_contract == d.ent && r.enterprise_factory_contract == FAC, "main contract and factory");
    check(r.enterprise_versioning_contract == Some(Addr::unchecked(VER)), "versioning");
    check(r.enterprise_treasury_contract == Some(Addr::unchecked(&d.tre)), "treasury component");
    check(r.enterprise_governance_contract == Some(Addr::unchecked(&d.gov)), "governance component");
    check(r.enterprise_governance_controller_contract == Some(Addr::unchecked(&d.ctl)), "controller component");
    check(r.enterprise_outposts_contract == Some(Addr::unchecked(&d.out)), "outposts component");
    check(r.funds_distributor_contract == d.dist, "distributor component");
    check(r.membership_contract == Some(Addr::unchecked(&d.mem)), "membership component");
    check(r.council_membership_contract == Some(Addr::unchecked(&d.cnc)), "council component");
    check(r.attestation_contract == c.attestation_contract && c.attestation_contract.is_some() == full, "attestation component");
    let r: fa::DaoInfoResponse = ask(&w, Q::DaoInfo { contract: a.clone() });
    check(r.creation_date == Timestamp::from_seconds(born), "creation date");
    check(r.metadata.name == md.name && r.metadata.description == md.description, "name and description");
    let logo = match md.logo {
        Logo::Url(u) => fa::Logo::Url(u),
        Logo::None => fa::Logo::None,
    };
    check(r.metadata.logo == logo, "logo");
    check(
        r.metadata.socials.github_username == md.socials.github_username
            && r.metadata.socials.discord_username == md.socials.discord_username
            && r.metadata.socials.twitter_username == md.socials.twitter_username
            && r.metadata.socials.telegram_username == md.socials.telegram_username,
        "socials",
    );
    check(r.dao_type == ftype(k), "kind");
    check(r.enterprise_factory_contract == FAC && r.funds_distributor_contract == d.dist, "factory and distributor");
    check(r.dao_version == versions()[LATEST] && r.dao_code_version == Uint64::new(11000), "version");
    let g = r.gov_config;
    check(g.quorum.atomics().u128() == q && g.threshold.atomics().u128() == t, "quorum and threshold");
    check(g.veto_threshold.atomics().u128() == v.unwrap_or(t), "veto threshold");
    check(g.vote_duration == dur && g.allow_early_proposal_execution == full, "duration and early execution");
    check(g.minimum_deposit == dep.map(Uint128::new), "minimum deposit");
    let (asset, ul) = match k {
        0 => (s(DENOM), unlock),
        1 => (s(TOK), unlock),
        2 => (tok_of(&w, &d), unlock),
        3 => (s(NFT), unlock),
        4 => (nft_of(&w, &d), unlock),
        5 => (s("class"), unlock),
        _ => (d.ent.clone(), Duration::Time(0)),
    };
    check(r.dao_membership_contract == asset, "what members stake");
    check(g.unlocking_period == ul, "unlocking period");
    match r.dao_council {
        None => check(!full, "council reported"),
        Some(c) => {
            check(full, "no council");
            check(c.members == vec![Addr::unchecked("carol"), Addr::unchecked("dave"), Addr::unchecked("erin")], "council members");
            check(c.quorum.atomics().u128() == cq && c.threshold.atomics().u128() == ct, "council quorum and threshold");
            check(c.allowed_proposal_action_types == types, "council powers");
        }
    }
    let r: fa::AssetWhitelistResponse = ask(&w, Q::AssetWhitelist { contract: a.clone(), params: fa::AssetWhitelistParams { start_after: None, limit: None } });
    let p = ta::AssetWhitelistParams { start_after: None, limit: None };
    let e: ta::AssetWhitelistResponse = w.query(&d.tre, &tm::QueryMsg::AssetWhitelist(p)).unwrap();
    check(r.assets == e.assets, "asset whitelist");
    check((r.assets.len() >= 2) == full, "asset whitelist size");
    let p = fa::AssetWhitelistParams { start_after: None, limit: Some(1) };
    let r1: fa::AssetWhitelistResponse = ask(&w, Q::AssetWhitelist { contract: a.clone(), params: p });
    check(r1.assets.as_slice() == &e.assets[..e.assets.len().min(1)], "asset whitelist, first page");
    let p = fa::NftWhitelistParams { start_after: None, limit: None };
    let r: fa::NftWhitelistResponse = ask(&w, Q::NftWhitelist { contract: a.clone(), params: p });
    let all = if full { vec![Addr::unchecked("nfta"), Addr::unchecked("nftb")] } else { vec![] };
    check(r.nfts == all, "NFT whitelist");
    if full {
        let p = fa::NftWhitelistParams { start_after: Some(s("nfta")), limit: Some(5) };
        let r: fa::NftWhitelistResponse = ask(&w, Q::NftWhitelist { contract: a.clone(), params: p });
        check(r.nfts == vec![Addr::unchecked("nftb")], "NFT whitelist, next page");
        let p = fa::AssetWhitelistParams { start_after: Some(AssetInfoUnchecked::native("uatom")), limit: None };
        let r: fa::AssetWhitelistResponse = ask(&w, Q::AssetWhitelist { contract: a.clone(), params: p });
        let p = ta::AssetWhitelistParams { start_after: Some(AssetInfoUnchecked::native("uatom")), limit: None };
        let e: ta::AssetWhitelistResponse = w.query(&d.tre, &tm::QueryMsg::AssetWhitelist(p)).unwrap();
        check(r.assets == e.assets, "asset whitelist, next page");
    }
    let r: enterprise_treasury_api::api::HasIncompleteV2MigrationResponse = ask(&w, Q::HasIncompleteV2Migration { contract: a.clone() });
    check(!r.has_incomplete_migration, "nothing to migrate");
    let r: enterprise_treasury_api::api::HasUnmovedStakesOrClaimsResponse = ask(&w, Q::HasUnmovedStakesOrClaims { contract: a.clone() });
    check(!r.has_unmoved_stakes_or_claims, "nothing to move");
    let r: fa::V2MigrationStageResponse = ask(&w, Q::V2MigrationStage { contract: a.clone() });
    check(r.stage == fa::V2MigrationStage::MigrationCompleted, "migration stage");
    cover(if full { "full" } else { "plain" });
});

// C33: ... whatever the version the DAO was made in.
entry!(fcd_version, {
    no_panic(true);
    let mut w = with_facade();
    let top = 1 << 40;
    let v = Version::new(u64_in("major", 1, top), u64_in("minor", 0, top), u64_in("patch", 0, top));
    for o in &versions() {
        assume(not(and(v.major == o.major, and(v.minor == o.minor, v.patch == o.patch))));
    }
    check(w.exec("vadmin", VER, &VX::AddVersion(AddVersionMsg { version: vinfo(v.clone(), ids(2)) }), vec![]), "version registered");
    let k = [0, 2, 3, 4, 5, 7][choice("kind", 6) as usize];
    if k == 5 {
        // a collection of another chain can be staked since then
        assume(or(v.major > 1, v.minor >= 2));
    }
    let m = simple(&mut w, k);
    let m = CreateDaoWithVersionMsg { version: v.clone(), create_dao_msg: m };
    check(w.exec("creator", FAC, &FX::CreateDaoWithVersion(Box::new(m)), vec![]), "created");
    let d = made(&w, k);
    let a = by(&d);
    let r: fa::DaoInfoResponse = ask(&w, Q::DaoInfo { contract: a });
    check(and(r.dao_version.major == v.major, and(r.dao_version.minor == v.minor, r.dao_version.patch == v.patch)), "version");
    check(r.dao_code_version.u64() == v.major * 10_000 + v.minor * 100 + v.patch, "version as one number");
    let asset = match k {
        0 => s(DENOM),
        2 => tok_of(&w, &d),
        3 => s(NFT),
        4 => nft_of(&w, &d),
        5 => s("class"),
        _ => d.ent.clone(),
    };
    check(r.dao_membership_contract == asset, "what members stake");
    check(r.gov_config.unlocking_period == if k == 7 { Duration::Time(0) } else { Duration::Time(100) }, "unlocking period");
    cover("told");
});

// C33: ... and what it says of members and stakes is what they hold.
entry!(fcd_member, {
    no_panic(true);
    let mut w = with_facade();
    let k = choice("kind", 8);
    let hi = if k == 6 { u64::MAX as u128 } else { MAXW };
    let (keep, x, wb, wc) = if symbolic(k) {
        (u128_in("alice_keeps", 0, hi / 2), u128_in("alice_unstakes", 1, hi / 2), u128_in("bob", 1, hi), u128_in("carol", 1, hi))
    } else {
        (1, 1, 1, 1)
    };
    let wa = keep + x;
    if k == 6 {
        set_voter(&mut w, "alice", wa as u64);
        set_voter(&mut w, "bob", wb as u64);
        set_voter(&mut w, "carol", wc as u64);
    }
    let mut m = create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, false), membership(k, Duration::Time(100), wa, wb, wc));
    m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
    let d = make(&mut w, k, m);
    let a = by(&d);
    let power = |w: &World, u: &str| {
        let r: fa::MemberInfoResponse = ask(w, Q::MemberInfo { contract: a.clone(), msg: fa::QueryMemberInfoMsg { member_address: s(u) } });
        r.voting_power
    };
    let claims = |w: &World, u: &str| {
        let p = fa::ClaimsParams { owner: s(u) };
        let r: fa::ClaimsResponse = ask(w, Q::Claims { contract: a.clone(), params: p.clone() });
        let f: fa::ClaimsResponse = ask(w, Q::ReleasableClaims { contract: a.clone(), params: p });
        (r.claims, f.claims)
    };
    let staked = |w: &World, u: &str| {
        let r: fa::UserStakeResponse =
            ask(w, Q::UserStake { contract: a.clone(), params: fa::UserStakeParams { user: s(u), start_after: None, limit: None } });
        r.user_stake
    };
    let tot = |w: &World| {
        let r: fa::TotalStakedAmountResponse = ask(w, Q::TotalStakedAmount { contract: a.clone() });
        r.total_staked_amount.u128()
    };
    let nfts = |w: &World, after: Option<&str>, limit: Option<u32>| {
        let p = fa::StakedNftsParams { start_after: after.map(s), limit };
        let r: fa::StakedNftsResponse = ask(w, Q::StakedNfts { contract: a.clone(), params: p });
        r.nfts
    };
    let members = |w: &World, after: Option<&str>, limit: Option<u32>| -> Option<fa::MultisigMembersResponse> {
        w.query(FCD, &Q::ListMultisigMembers { contract: a.clone(), msg: fa::ListMultisigMembersMsg { start_after: after.map(s), limit } })
    };
    if is_multisig(k) {
        let t = wa + wb + wc;
        check(power(&w, "alice") == Decimal::from_ratio(wa, t), "alice's share of the votes");
        check(power(&w, "carol") == Decimal::from_ratio(wc, t), "carol's share of the votes");
        check(power(&w, "dave").is_zero(), "council members have no share for being in the council");
        check(staked(&w, "alice") == fa::UserStake::None && tot(&w) == 0, "nothing is staked in a multisig");
        check(nfts(&w, None, None).is_empty(), "no NFTs");
        let (c, f) = claims(&w, "alice");
        check(c.is_empty() && f.is_empty(), "no claims");
        let mm = |u: &str, n: u128| fa::MultisigMember { address: s(u), weight: n.into() };
        let l = members(&w, None, None).unwrap().members;
        check(l == vec![mm("alice", wa), mm("bob", wb), mm("carol", wc)], "members");
        let l = members(&w, Some("alice"), Some(1)).unwrap().members;
        check(l == vec![mm("bob", wb)], "members, a page");
        cover("multisig");
        return;
    }
    check(members(&w, None, None).is_none(), "only a multisig lists its members");
    check(power(&w, "alice").is_zero() && tot(&w) == 0, "nothing staked, nobody has a share");
    check(stake(&mut w, &d, "alice", wa) && stake(&mut w, &d, "bob", wb), "staked");
    let t = wa + wb;
    check(tot(&w) == t, "total staked");
    check(power(&w, "alice") == Decimal::from_ratio(wa, t), "alice's share");
    check(power(&w, "bob") == Decimal::from_ratio(wb, t), "bob's share");
    check(power(&w, "dave").is_zero(), "the council has none");
    check(unstake(&mut w, &d, "alice", x), "unstaked");
    let t = keep + wb;
    check(tot(&w) == t, "total staked after unstaking");
    check(power(&w, "bob") == Decimal::from_ratio(wb, t), "bob's share after");
    let st = staked(&w, "alice");
    let at = common::cw::ReleaseAt::Timestamp(Timestamp::from_seconds(w.time + 100));
    let asset = match dao_type(k) {
        DaoType::Denom => {
            check(st == fa::UserStake::Denom(fa::DenomUserStake { amount: keep.into() }), "stake");
            fa::ClaimAsset::Denom(fa::DenomClaimAsset { amount: x.into() })
        }
        DaoType::Token => {
            check(st == fa::UserStake::Token(fa::TokenUserStake { amount: keep.into() }), "stake");
            fa::ClaimAsset::Cw20(fa::Cw20ClaimAsset { amount: x.into() })
        }
        _ => {
            check(st == fa::UserStake::Nft(fa::NftUserStake { tokens: vec![s("aliceb")], amount: 1u128.into() }), "stake");
            fa::ClaimAsset::Cw721(fa::Cw721ClaimAsset { tokens: vec![s("alicea")] })
        }
    };
    let l = if dao_type(k) == DaoType::Nft { vec![s("aliceb"), s("boba")] } else { vec![] };
    check(nfts(&w, None, None) == l, "staked NFTs");
    if dao_type(k) == DaoType::Nft {
        check(nfts(&w, Some("aliceb"), None) == vec![s("boba")] && nfts(&w, None, Some(1)) == vec![s("aliceb")], "staked NFTs, pages");
    }
    let all = vec![fa::Claim { asset, release_at: at }];
    let (c, f) = claims(&w, "alice");
    check(c == all && f.is_empty(), "claim, not yet releasable");
    let (c, f) = claims(&w, "bob");
    check(c.is_empty() && f.is_empty(), "nobody else's claim");
    w.time += 100;
    let (c, f) = claims(&w, "alice");
    check(c == all && f == all, "claim, releasable");
    cover("staked");
});

// C33: ... and of proposals, votes and cross-chain treasuries, exactly what governance says.
fn status(p: &ga::ProposalStatus) -> fa::ProposalStatus {
    match p {
        ga::ProposalStatus::InProgress => fa::ProposalStatus::InProgress,
        ga::ProposalStatus::InProgressCanExecuteEarly => fa::ProposalStatus::InProgressCanExecuteEarly,
        ga::ProposalStatus::Passed => fa::ProposalStatus::Passed,
        ga::ProposalStatus::Rejected => fa::ProposalStatus::Rejected,
        ga::ProposalStatus::Executed => fa::ProposalStatus::Executed,
    }
}
fn same(r: &fa::ProposalResponse, e: &ga::ProposalResponse) -> bool {
    r.proposal_status == status(&e.proposal_status)
        && r.results == e.results
        && r.total_votes_available == e.total_votes_available
        && (r.proposal.proposal_type == fa::ProposalType::Council) == (e.proposal.proposal_type == ga::ProposalType::Council)
        && r.proposal.id == e.proposal.id
        && r.proposal.proposer.as_ref() == Some(&e.proposal.proposer)
        && r.proposal.title == e.proposal.title
        && r.proposal.description == e.proposal.description
        && r.proposal.status == status(&e.proposal.status)
        && r.proposal.started_at == e.proposal.started_at
        && r.proposal.expires == e.proposal.expires
        && r.proposal.proposal_actions == e.proposal.proposal_actions
}
entry!(fcd_props, {
    no_panic(true);
    let mut w = with_facade();
    let k = [0, 7, 4][choice("kind", param("kinds", 2)) as usize];
    let (wa, wb) = if symbolic(k) { (u128_in("alice", 1, MAXW), u128_in("bob", 1, MAXW)) } else { (2, 1) };
    let early = bool_in("early");
    let mut m = create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, early), membership(k, Duration::Time(100), wa, wb, 1));
    let mut c = council(&["dave", "erin"], ONE / 2, ONE / 2);
    c.allowed_proposal_action_types = Some(vec![ga::ProposalActionType::UpdateMetadata]);
    m.dao_council = Some(c);
    let d = make(&mut w, k, m);
    w.set_bal(&d.tre, LUNA, 100);
    check(stake(&mut w, &d, "alice", wa) && stake(&mut w, &d, "bob", wb), "staked");
    w.time += 5;
    let up = |n: &str| {
        vec![ga::ProposalAction::UpdateMetadata(UpdateMetadataMsg {
            name: common::commons::ModifyValue::Change(s(n)),
            description: common::commons::ModifyValue::NoChange,
            logo: common::commons::ModifyValue::NoChange,
            github_username: common::commons::ModifyValue::NoChange,
            discord_username: common::commons::ModifyValue::NoChange,
            twitter_username: common::commons::ModifyValue::NoChange,
            telegram_username: common::commons::ModifyValue::NoChange,
        })]
    };
    check(propose(&mut w, &d, "alice", vec![pay("rec", 7)]), "proposed");
    w.time += 1;
    let c = ga::CreateProposalMsg { title: s("council"), description: Some(s("text")), proposal_actions: up("new"), deposit_owner: None };
    check(w.exec("dave", &d.ctl, &gm::ExecuteMsg::CreateCouncilProposal(c), vec![]), "council proposed");
    w.time += 1;
    check(propose(&mut w, &d, "bob", up("newer")), "proposed another");
    let oa = choice("alice_votes", 4);
    check(cast(&mut w, &d, "alice", 1, oa), "vote");
    check(cast(&mut w, &d, "bob", 1, choice("bob_votes", 2)), "vote");
    let v = ga::CastVoteMsg { proposal_id: 2, outcome: VoteOutcome::Yes };
    check(w.exec("erin", &d.ctl, &gm::ExecuteMsg::CastCouncilVote(v), vec![]), "council vote");
    match choice("when", 3) {
        0 => {}
        1 => w.time += 100,
        _ => {
            w.time += 100;
            run(&mut w, &d, "alice", 1);
            run(&mut w, &d, "alice", 2);
        }
    }
    let a = Addr::unchecked(if early { &d.tre } else { &d.ent });
    let mut id = 1;
    while id <= 3 {
        let p = fa::ProposalParams { proposal_id: id };
        let r: fa::ProposalResponse = ask(&w, Q::Proposal { contract: a.clone(), params: p });
        let e: ga::ProposalResponse = w.query(&d.ctl, &gm::QueryMsg::Proposal(ga::ProposalParams { proposal_id: id })).unwrap();
        check(same(&r, &e), "proposal");
        check((r.proposal.proposal_type == fa::ProposalType::Council) == (id == 2), "proposal type");
        let r: fa::ProposalStatusResponse = ask(&w, Q::ProposalStatus { contract: a.clone(), params: fa::ProposalStatusParams { proposal_id: id } });
        let e: ga::ProposalStatusResponse =
            w.query(&d.ctl, &gm::QueryMsg::ProposalStatus(ga::ProposalStatusParams { proposal_id: id })).unwrap();
        check(r.status == status(&e.status) && r.expires == e.expires && r.results == e.results, "status");
        let who = ["alice", "bob", "erin", "dave"];
        for u in who {
            let p = fa::MemberVoteParams { member: s(u), proposal_id: id };
            let r: fa::MemberVoteResponse = ask(&w, Q::MemberVote { contract: a.clone(), params: p });
            let voted = (id == 1 && (u == "alice" || u == "bob")) || (id == 2 && u == "erin");
            match r.vote {
                None => check(!voted, "a vote is reported"),
                Some(v) => {
                    check(voted && v.voter == u && v.poll_id == id, "only votes cast are reported");
                    check(u != "alice" || (v.outcome as u64 == oa && v.amount == wa), "the vote as cast");
                }
            }
        }
        for (after, limit) in [(None, None), (Some(s("alice")), None), (None, Some(1u32))] {
            let p = fa::ProposalVotesParams { proposal_id: id, start_after: after.clone(), limit };
            let r: fa::ProposalVotesResponse = ask(&w, Q::ProposalVotes { contract: a.clone(), params: p });
            let p = ga::ProposalVotesParams { proposal_id: id, start_after: after, limit };
            let e: ga::ProposalVotesResponse = w.query(&d.ctl, &gm::QueryMsg::ProposalVotes(p)).unwrap();
            check(r.votes == e.votes, "votes");
        }
        id += 1;
    }
    let p = fa::ProposalParams { proposal_id: 4 };
    check(w.query::<_, fa::ProposalResponse>(FCD, &Q::Proposal { contract: a.clone(), params: p }).is_none(), "no such proposal");
    let mut f = 0;
    while f < 4 {
        let (ff, gf) = match f {
            0 => (None, None),
            1 => (Some(fa::ProposalStatusFilter::InProgress), Some(ga::ProposalStatusFilter::InProgress)),
            2 => (Some(fa::ProposalStatusFilter::Passed), Some(ga::ProposalStatusFilter::Passed)),
            _ => (Some(fa::ProposalStatusFilter::Rejected), Some(ga::ProposalStatusFilter::Rejected)),
        };
        for (after, limit) in [(None, None), (Some(1u64), None), (None, Some(2u32))] {
            if f > 0 && limit.is_some() {
                continue;
            }
            let p = fa::ProposalsParams { filter: ff.clone(), start_after: after, limit };
            let r: fa::ProposalsResponse = ask(&w, Q::Proposals { contract: a.clone(), params: p });
            let p = ga::ProposalsParams { filter: gf.clone(), start_after: after, limit };
            let e: ga::ProposalsResponse = w.query(&d.ctl, &gm::QueryMsg::Proposals(p)).unwrap();
            check(r.proposals.len() == e.proposals.len(), "proposals listed");
            let mut i = 0;
            while i < r.proposals.len() && i < e.proposals.len() {
                check(same(&r.proposals[i], &e.proposals[i]), "each as it is");
                if after.is_none() && limit.is_none() {
                    let p = fa::ProposalParams { proposal_id: r.proposals[i].proposal.id };
                    let one: fa::ProposalResponse = ask(&w, Q::Proposal { contract: a.clone(), params: p });
                    check(one == r.proposals[i], "and as when asked for alone");
                }
                i += 1;
            }
            if f == 0 {
                let n = if after.is_some() || limit.is_some() { 2 } else { 3 };
                check(r.proposals.len() == n, "how many");
            }
        }
        f += 1;
    }
    cover("listed");
});

// C33: cross-chain treasuries, and which facade answers for whom.
entry!(fcd_route, {
    no_panic(true);
    let mut w = with_facade();
    w.add("olddao", &OLDDAO);
    let k = [0, 4, 7][choice("kind", 3) as usize];
    let m = simple(&mut w, k);
    let d = make(&mut w, k, m);
    let m = simple(&mut w, 7);
    let other = make(&mut w, 7, m);
    // anybody's address
    check(d.ent.len() <= 10 && other.ctl.len() <= 10, "names");
    let who = addr_in("contract", 10);
    let a = Addr::unchecked(who.clone());
    let r: Option<fa::TreasuryAddressResponse> = w.query(FCD, &Q::TreasuryAddress { contract: a.clone() });
    let who = who.as_str();
    match r {
        None => {
            check(who != d.tre && who != d.ent && who != other.tre && who != other.ent && who != "olddao", "a DAO is known");
            check(w.query::<_, fa::TotalStakedAmountResponse>(FCD, &Q::TotalStakedAmount { contract: a.clone() }).is_none(), "no figures for what is no DAO");
            let q = Q::ClaimAdapted { contract: a.clone() };
            check(w.query::<_, fa::AdapterResponse>(FCD, &q).is_none(), "nothing to do for what is no DAO");
            cover("unknown");
        }
        Some(r) => {
            let t = r.treasury_address;
            if who == "olddao" {
                check(t == "v1olddao", "an old DAO's question goes to the old facade");
                let r: fa::TotalStakedAmountResponse = ask(&w, Q::TotalStakedAmount { contract: a.clone() });
                check(r.total_staked_amount.u128() == 77, "and its answer comes back");
                let p = fa::CastVoteMsg { proposal_id: 5, outcome: VoteOutcome::Yes };
                let r: fa::AdapterResponse = ask(&w, Q::CastVoteAdapted { contract: a.clone(), params: p });
                check(r.msgs.is_empty(), "for what to do as well");
                cover("old");
            } else if who == d.tre || who == d.ent {
                check(t == d.tre, "this DAO's treasury");
                cover("dao");
            } else {
                check(who == other.tre || who == other.ent, "only DAOs are known");
                check(t == other.tre, "that DAO's treasury");
            }
        }
    }
});

entry!(fcd_chains, {
    no_panic(true);
    let mut w = with_facade();
    let k = [0, 4, 7][choice("kind", 3) as usize];
    let mut m = simple(&mut w, k);
    let n = choice("chains", 3);
    let mut l = vec![];
    if n > 0 {
        l.push(deploy("one"));
    }
    if n > 1 {
        l.push(deploy("two"));
    }
    m.cross_chain_treasuries = if n == 0 { None } else { Some(l) };
    if n > 0 {
        w.set_bal(FAC, LUNA, 10);
    }
    let d = make(&mut w, k, m);
    let a = by(&d);
    for (after, limit) in [(None, None), (Some(s("one")), None), (None, Some(1u32))] {
        let p = CrossChainTreasuriesParams { start_after: after.clone(), limit };
        let r: CrossChainTreasuriesResponse = ask(&w, Q::CrossChainTreasuries { contract: a.clone(), params: p.clone() });
        let e: CrossChainTreasuriesResponse = w.query(&d.out, &enterprise_outposts_api::msg::QueryMsg::CrossChainTreasuries(p)).unwrap();
        check(r == e, "cross-chain treasuries");
    }
    cover("chains");
});

// ---- C34: what the facade says to do, does that ----
/// The user signs the messages, all in one transaction.
fn perform(w: &mut World, d: &Dao, who: &str, q: Q) -> bool {
    let r: fa::AdapterResponse = match w.query(FCD, &q) {
        Some(r) => r,
        None => return false,
    };
    let old = w.clone();
    for m in r.msgs {
        let ok = match m {
            fa::AdaptedMsg::Bank(b) => w.dispatch(who, CosmosMsg::Bank(BankMsg::Send { to_address: b.receiver.to_string(), amount: b.funds })).is_ok(),
            fa::AdaptedMsg::Execute(x) => {
                let t = x.target_contract.as_str();
                let j = x.msg.as_str();
                if t == d.ctl {
                    w.exec(who, t, &serde_json_wasm::from_str::<gm::ExecuteMsg>(j).unwrap(), x.funds)
                } else if t == d.mem {
                    match dao_type(d.k) {
                        DaoType::Denom => w.exec(who, t, &serde_json_wasm::from_str::<denom_staking_api::msg::ExecuteMsg>(j).unwrap(), x.funds),
                        DaoType::Token => w.exec(who, t, &serde_json_wasm::from_str::<token_staking_api::msg::ExecuteMsg>(j).unwrap(), x.funds),
                        DaoType::Nft => w.exec(who, t, &serde_json_wasm::from_str::<nft_staking_api::msg::ExecuteMsg>(j).unwrap(), x.funds),
                        DaoType::Multisig => false,
                    }
                } else if dao_type(d.k) == DaoType::Token && t == tok_of(w, d) {
                    w.exec(who, t, &serde_json_wasm::from_str::<cw20::Cw20ExecuteMsg>(j).unwrap(), x.funds)
                } else if dao_type(d.k) == DaoType::Nft && t == nft_of(w, d) {
                    w.exec(who, t, &serde_json_wasm::from_str::<cw721::Cw721ExecuteMsg>(j).unwrap(), x.funds)
                } else {
                    check(false, "the message goes to one of the DAO's contracts");
                    false
                }
            }
        };
        if !ok {
            *w = old;
            return false;
        }
    }
    true
}
/// How many units of the DAO's asset someone holds (NFTs: of those named after alice and bob).
fn holds(w: &World, d: &Dao, who: &str) -> u128 {
    match dao_type(d.k) {
        DaoType::Denom => w.bal(who, DENOM),
        DaoType::Token => {
            let r: cw20::BalanceResponse = w.query(&tok_of(w, d), &cw20::Cw20QueryMsg::Balance { address: s(who) }).unwrap();
            r.balance.u128()
        }
        _ => {
            let mut n = 0;
            for id in ["alicea", "aliceb", "boba", "bobb"] {
                let r: Option<cw721::OwnerOfResponse> = w.query(&nft_of(w, d), &cw721::Cw721QueryMsg::OwnerOf { token_id: s(id), include_expired: None });
                if let Some(r) = r {
                    n += (r.owner == who) as u128;
                }
            }
            n
        }
    }
}
/// Gives what can then be staked or deposited (a new token's balances are set when it is created).
fn give(w: &mut World, d: &Dao, who: &str, n: u128) {
    match d.k {
        0 => w.set_bal(who, DENOM, n),
        1 => w.cw20_set(TOK, who, n),
        3 | 4 | 5 => {
            let c = nft_of(w, d);
            for i in 0..n {
                let mut id = s(who);
                id.push((b'a' + i as u8) as char);
                if d.k == 4 {
                    let m = cw721_base::ExecuteMsg::<Option<Empty>, Empty>::Mint(cw721_base::MintMsg { token_id: id, owner: s(who), token_uri: None, extension: None });
                    check(w.exec("minter", &c, &m, vec![]), "minted");
                } else {
                    w.nft_set(NFT, &id, who);
                }
            }
        }
        _ => {}
    }
}
fn stake_q(d: &Dao, a: &Addr, user: &str, n: u128, ids: &[&str]) -> Q {
    let params = match dao_type(d.k) {
        DaoType::Denom => fa::StakeMsg::Denom(fa::StakeDenomMsg { user: s(user), amount: n.into() }),
        DaoType::Token => fa::StakeMsg::Cw20(fa::StakeCw20Msg { user: s(user), amount: n.into() }),
        _ => fa::StakeMsg::Cw721(fa::StakeCw721Msg { user: s(user), tokens: ids.iter().map(|i| s(i)).collect() }),
    };
    Q::StakeAdapted { contract: a.clone(), params }
}
fn unstake_q(d: &Dao, a: &Addr, n: u128, ids: &[&str]) -> Q {
    let params = match dao_type(d.k) {
        DaoType::Denom => fa::UnstakeMsg::Denom(fa::UnstakeDenomMsg { amount: n.into() }),
        DaoType::Token => fa::UnstakeMsg::Cw20(fa::UnstakeCw20Msg { amount: n.into() }),
        _ => fa::UnstakeMsg::Cw721(fa::UnstakeCw721Msg { tokens: ids.iter().map(|i| s(i)).collect() }),
    };
    Q::UnstakeAdapted { contract: a.clone(), params }
}

entry!(fcd_stake, {
    no_panic(true);
    let mut w = with_facade();
    let k = choice("kind", 6);
    // alice has spare + keep + x; she stakes keep + x and then unstakes x
    let (spare, keep, x) = if symbolic(k) {
        (u128_in("spare", 0, MAXW), u128_in("kept", 0, MAXW), u128_in("unstaked", 1, MAXW))
    } else {
        (0, 1, 1)
    };
    let m = create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, false), membership(k, Duration::Time(100), spare + keep + x, 1, 1));
    let d = make(&mut w, k, m);
    let a = by(&d);
    give(&mut w, &d, "alice", spare + keep + x);
    check(holds(&w, &d, "alice") == spare + keep + x, "to begin with");
    let bobs = holds(&w, &d, "bob");
    // for herself or for somebody else
    let owner = if bool_in("for_bob") { "bob" } else { "alice" };
    let q = stake_q(&d, &a, owner, keep + x, &["alicea", "aliceb"]);
    check(perform(&mut w, &d, "alice", q), "staking succeeds");
    check(weight(&w, &d.mem, owner) == keep + x && total(&w, &d.mem) == keep + x, "staked in the user's name");
    check(weight(&w, &d.mem, "alice") == if owner == "alice" { keep + x } else { 0 }, "and nobody else's");
    check(holds(&w, &d, "alice") == spare && holds(&w, &d, &d.mem) == keep + x, "exactly the stake moved");
    let q = unstake_q(&d, &a, x, &["alicea"]);
    let unst = perform(&mut w, &d, "alice", q.clone());
    check(unst == (owner == "alice"), "only the staker unstakes");
    if !unst {
        check(perform(&mut w, &d, owner, q), "unstaking succeeds");
    }
    check(weight(&w, &d.mem, owner) == keep && total(&w, &d.mem) == keep, "unstaked exactly that");
    check(holds(&w, &d, owner) == if owner == "alice" { spare } else { bobs }, "not paid out yet");
    w.time += 99;
    perform(&mut w, &d, owner, Q::ClaimAdapted { contract: a.clone() });
    check(holds(&w, &d, &d.mem) == keep + x, "nothing paid early");
    w.time += 1;
    check(perform(&mut w, &d, owner, Q::ClaimAdapted { contract: a.clone() }), "claiming succeeds");
    check(holds(&w, &d, &d.mem) == keep, "the claim is paid");
    check(holds(&w, &d, owner) == x + if owner == "alice" { spare } else { bobs }, "to its owner");
    cover("claimed");
});

entry!(fcd_gov, {
    no_panic(true);
    let mut w = with_facade();
    let k = choice("kind", 8);
    let (wa, dep, min) = if symbolic(k) && k != 6 {
        (u128_in("alice", 1, MAXW), u128_in("deposit", 0, MAXW), u128_in("minimum", 1, MAXW))
    } else {
        (1, 1, 1)
    };
    if k == 6 {
        set_voter(&mut w, "alice", wa as u64);
    }
    let with_dep = !is_multisig(k) && bool_in("deposit_needed");
    let mut m = create_msg(
        gcfg(ONE / 2, ONE / 2, None, 100, if with_dep { Some(min) } else { None }, false),
        membership(k, Duration::Time(100), if is_multisig(k) { wa } else { wa + dep }, 1, 1),
    );
    m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
    let d = make(&mut w, k, m);
    let a = by(&d);
    let nft = dao_type(k) == DaoType::Nft;
    give(&mut w, &d, "alice", wa + dep);
    let q = stake_q(&d, &a, "alice", wa, &["alicea"]);
    check(is_multisig(k) || perform(&mut w, &d, "alice", q), "staked");
    w.time += 5;
    w.height += 1;
    w.set_bal(&d.tre, LUNA, 50);
    // 0, 1 or 2 actions on another chain
    let remote = choice("remote", 3);
    let mut acts = vec![pay("rec", 7)];
    let mut i = 0;
    while i < remote {
        acts.push(ga::ProposalAction::DeployCrossChainTreasury(deploy(if i == 0 { "one" } else { "two" })));
        i += 1;
    }
    let msg = fa::CreateProposalMsg { title: s("title"), description: Some(s("text")), proposal_actions: acts.clone(), deposit_owner: Some(s("carol")) };
    let gmsg = ga::CreateProposalMsg { title: s("title"), description: Some(s("text")), proposal_actions: acts.clone(), deposit_owner: Some(s("carol")) };
    let how = if with_dep { 1 + choice("deposit_kind", 3) } else { 0 };
    let q = match how {
        0 => Q::CreateProposalAdapted { contract: a.clone(), params: msg },
        1 => Q::CreateProposalWithDenomDepositAdapted {
            contract: a.clone(),
            params: fa::CreateProposalWithDenomDepositMsg { create_proposal_msg: msg, deposit_amount: dep.into() },
        },
        2 => Q::CreateProposalWithTokenDepositAdapted {
            contract: a.clone(),
            params: fa::CreateProposalWithTokenDepositMsg { create_proposal_msg: msg, deposit_amount: dep.into() },
        },
        _ => Q::CreateProposalWithNftDepositAdapted {
            contract: a.clone(),
            params: ga::CreateProposalWithNftDepositMsg { create_proposal_msg: gmsg, deposit_tokens: vec![s("aliceb")] },
        },
    };
    let ok = perform(&mut w, &d, "alice", q);
    let fits = how == 0
        || match dao_type(k) {
            DaoType::Denom => how == 1,
            DaoType::Token => how == 2,
            _ => how == 3,
        };
    if !fits {
        check(!ok, "a deposit of another kind is refused");
        cover("refused");
        return;
    }
    let enough = how == 0 || nft || dep >= min;
    check(ok == enough, "created exactly when the deposit suffices");
    if !ok {
        check(holds(&w, &d, "alice") == dep, "nothing taken");
        return;
    }
    if how > 0 {
        check(holds(&w, &d, &d.ctl) == dep && holds(&w, &d, "alice") == 0, "the deposit is held");
    }
    let p: ga::ProposalResponse = w.query(&d.ctl, &gm::QueryMsg::Proposal(ga::ProposalParams { proposal_id: 1 })).unwrap();
    check(p.proposal.title == "title" && p.proposal.description == "text" && p.proposal.proposer == "alice", "proposal as written");
    check(p.proposal.proposal_actions == acts && p.proposal.proposal_type == ga::ProposalType::General, "with its actions");
    let outcome = if bool_in("yes") { VoteOutcome::Yes } else { VoteOutcome::No };
    let yes = outcome == VoteOutcome::Yes;
    let v = fa::CastVoteMsg { proposal_id: 1, outcome };
    check(!perform(&mut w, &d, "alice", Q::CastCouncilVoteAdapted { contract: a.clone(), params: v.clone() }), "not a council proposal");
    check(perform(&mut w, &d, "alice", Q::CastVoteAdapted { contract: a.clone(), params: v }), "voted");
    let p: ga::MemberVoteResponse =
        w.query(&d.ctl, &gm::QueryMsg::MemberVote(ga::MemberVoteParams { member: s("alice"), proposal_id: 1 })).unwrap();
    let v = p.vote.unwrap();
    check(v.amount == wa && (v.outcome == VoteOutcome::Yes as u8) == yes, "the vote counts as cast");
    // two others have a vote each in a multisig made anew, and do not use it
    let passed = yes && (k != 7 || split(wa >= 2));
    w.time += 100;
    w.set_bal("alice", LUNA, 10);
    w.set_bal(&d.out, LUNA, 0);
    let luna = w.bal("alice", LUNA);
    check(perform(&mut w, &d, "alice", Q::ExecuteProposalAdapted { contract: a.clone(), params: fa::ExecuteProposalMsg { proposal_id: 1 } }), "executed");
    check(w.bal("rec", LUNA) == if passed { 7 } else { 0 }, "paid when passed");
    check(w.bal("alice", LUNA) == luna - remote as u128, "one uluna for each cross-chain action");
    check(w.bal(&d.tre, LUNA) == if passed { 43 } else { 50 }, "from the treasury");
    if how > 0 {
        check(holds(&w, &d, &d.ctl) == 0 && holds(&w, &d, "carol") == dep, "the deposit goes to its owner");
    }
    cover(if passed { "passed" } else { "rejected" });
});

entry!(fcd_council, {
    no_panic(true);
    let mut w = with_facade();
    let k = [0, 1, 4, 7][choice("kind", 4) as usize];
    let mut m = simple(&mut w, k);
    let mut c = council(&["dave", "erin"], ONE / 2, ONE / 2);
    c.allowed_proposal_action_types = Some(vec![ga::ProposalActionType::UpdateMetadata]);
    m.dao_council = Some(c);
    let d = make(&mut w, k, m);
    let a = by(&d);
    w.time += 5;
    let nm = common::commons::ModifyValue::NoChange;
    let act = vec![ga::ProposalAction::UpdateMetadata(UpdateMetadataMsg {
        name: common::commons::ModifyValue::Change(s("council's")),
        description: nm.clone(),
        logo: common::commons::ModifyValue::NoChange,
        github_username: nm.clone(),
        discord_username: nm.clone(),
        twitter_username: nm.clone(),
        telegram_username: nm,
    })];
    let msg = fa::CreateProposalMsg { title: s("title"), description: None, proposal_actions: act, deposit_owner: None };
    let who = name_in(4);
    let q = Q::CreateCouncilProposalAdapted { contract: a.clone(), params: msg };
    if !perform(&mut w, &d, &who, q) {
        check(who != "dave" && who != "erin", "a council member may propose");
        cover("outsider");
        return;
    }
    check(who == "dave" || who == "erin", "only council members propose");
    let p: ga::ProposalResponse = w.query(&d.ctl, &gm::QueryMsg::Proposal(ga::ProposalParams { proposal_id: 1 })).unwrap();
    check(p.proposal.proposal_type == ga::ProposalType::Council, "a council proposal");
    let v = fa::CastVoteMsg { proposal_id: 1, outcome: VoteOutcome::Yes };
    check(!perform(&mut w, &d, "dave", Q::CastVoteAdapted { contract: a.clone(), params: v.clone() }), "not a general proposal");
    check(perform(&mut w, &d, "dave", Q::CastCouncilVoteAdapted { contract: a.clone(), params: v }), "voted");
    let name = |w: &World| {
        let i: fa::DaoInfoResponse = ask(w, Q::DaoInfo { contract: a.clone() });
        i.metadata.name
    };
    check(name(&w) != "council's", "not yet");
    w.time += 1000;
    check(perform(&mut w, &d, "bob", Q::ExecuteProposalAdapted { contract: a.clone(), params: fa::ExecuteProposalMsg { proposal_id: 1 } }), "executed");
    check(name(&w) == "council's", "done");
    cover("council");
});
