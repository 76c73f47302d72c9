//! Governance controller together with the real governance contract.
use common::commons::ModifyValue::{self, Change, NoChange};
use cosmwasm_std::*;
use cw_asset::{AssetInfoUnchecked, AssetUnchecked};
use cw_utils::Duration;
use enterprise_governance_controller_api::api::*;
use enterprise_governance_controller_api::msg::*;
use enterprise_outposts_api::api::*;
use enterprise_protocol::api::{DaoType, UpdateMetadataMsg, UpgradeDaoMsg};
use enterprise_versioning_api::api::Version;
use membership_common_api::api::*;
use multisig_membership_api::api::UserWeight;
use poll_engine_api::api::*;
use stubs::*;
use symrt::chain::*;
use symrt::*;
pub mod list;
pub mod more;
pub mod pay;
pub mod val;

code!(
    CONTROLLER,
    enterprise_governance_controller::contract,
    InstantiateMsg,
    ExecuteMsg,
    QueryMsg,
    |d, e, r| enterprise_governance_controller::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    GOVERNANCE,
    enterprise_governance::contract,
    enterprise_governance_api::msg::InstantiateMsg,
    enterprise_governance_api::msg::ExecuteMsg,
    enterprise_governance_api::msg::QueryMsg
);

pub const ONE: u128 = 1_000_000_000_000_000_000;
pub const MAXW: u128 = 1 << 100;
pub const TMAX: u64 = 1 << 33;
pub const T0: u64 = 1000;

pub fn gcfg(q: u128, t: u128, v: Option<u128>, dur: u64, dep: Option<u128>, early: bool) -> GovConfig {
    GovConfig {
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        veto_threshold: v.map(Decimal::raw),
        vote_duration: dur,
        minimum_deposit: dep.map(Uint128::new),
        allow_early_proposal_execution: early,
    }
}
pub fn council(types: Option<Vec<ProposalActionType>>, q: u128, t: u128) -> DaoCouncilSpec {
    DaoCouncilSpec {
        members: vec!["alice".to_string(), "bob".to_string()],
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        allowed_proposal_action_types: types,
    }
}
pub fn dao_type(kind: u64) -> DaoType {
    match kind {
        0 => DaoType::Denom,
        1 => DaoType::Token,
        2 => DaoType::Nft,
        _ => DaoType::Multisig,
    }
}
pub fn base(kind: u64) -> World {
    let mut w = World::new();
    w.time = T0;
    w.add(ENT, &ENTERPRISE);
    w.add(CTL, &CONTROLLER);
    w.add(GOV, &GOVERNANCE);
    w.add(MEM, &MEMBERSHIP);
    w.add(CNC, &MEMBERSHIP);
    w.add(TRE, &SINK);
    w.add(OUT, &SINK);
    w.add(DIST, &SINK);
    w.add("sink", &SINK);
    w.add("rej", &REJECT);
    w.add(TOK, &CW20);
    w.add(NFT, &CW721);
    ent_type(&mut w, kind);
    mem_kind(&mut w, kind);
    w.init("factory", GOV, to_json_binary(&enterprise_governance_api::msg::InstantiateMsg { admin: CTL.to_string() }).unwrap());
    w
}
pub fn inst(kind: u64, cfg: GovConfig, c: Option<DaoCouncilSpec>) -> InstantiateMsg {
    InstantiateMsg {
        enterprise_contract: ENT.to_string(),
        dao_type: dao_type(kind),
        gov_config: cfg,
        council_gov_config: c,
        proposal_infos: None,
        initial_cross_chain_treasuries: None,
    }
}
pub fn dao(kind: u64, cfg: GovConfig, c: Option<DaoCouncilSpec>) -> World {
    let mut w = base(kind);
    w.init("factory", CTL, to_json_binary(&inst(kind, cfg, c)).unwrap());
    w
}
pub fn prop(actions: Vec<ProposalAction>, owner: Option<&str>) -> CreateProposalMsg {
    CreateProposalMsg {
        title: "ttl".to_string(),
        description: Some("dsc".to_string()),
        proposal_actions: actions,
        deposit_owner: owner.map(|s| s.to_string()),
    }
}
pub fn create(w: &mut World, who: &str, m: CreateProposalMsg, funds: Vec<Coin>) -> bool {
    w.exec(who, CTL, &ExecuteMsg::CreateProposal(m), funds)
}
pub fn create_council(w: &mut World, who: &str, m: CreateProposalMsg) -> bool {
    w.exec(who, CTL, &ExecuteMsg::CreateCouncilProposal(m), vec![])
}
pub fn vote(w: &mut World, who: &str, id: u64, o: u8) -> bool {
    w.exec(who, CTL, &ExecuteMsg::CastVote(CastVoteMsg { proposal_id: id, outcome: VoteOutcome::from(o) }), vec![])
}
pub fn vote_council(w: &mut World, who: &str, id: u64, o: u8) -> bool {
    w.exec(who, CTL, &ExecuteMsg::CastCouncilVote(CastVoteMsg { proposal_id: id, outcome: VoteOutcome::from(o) }), vec![])
}
pub fn execute(w: &mut World, who: &str, id: u64) -> bool {
    w.exec(who, CTL, &ExecuteMsg::ExecuteProposal(ExecuteProposalMsg { proposal_id: id }), vec![])
}
pub fn proposal(w: &World, id: u64) -> Option<ProposalResponse> {
    w.query(CTL, &QueryMsg::Proposal(ProposalParams { proposal_id: id }))
}
pub fn pstatus(w: &World, id: u64) -> Option<ProposalStatusResponse> {
    w.query(CTL, &QueryMsg::ProposalStatus(ProposalStatusParams { proposal_id: id }))
}
pub fn gov_vote(w: &World, id: u64, who: &str) -> Option<Vote> {
    let r: PollVoterResponse = w
        .query(
            GOV,
            &enterprise_governance_api::msg::QueryMsg::PollVoter(PollVoterParams {
                poll_id: id.into(),
                voter_addr: who.to_string(),
            }),
        )
        .unwrap();
    r.vote
}
pub fn gov_poll(w: &World, id: u64) -> Poll {
    let r: PollResponse =
        w.query(GOV, &enterprise_governance_api::msg::QueryMsg::Poll(PollParams { poll_id: id })).unwrap();
    r.poll
}
pub fn ctl_config(w: &World) -> GovConfigResponse {
    w.query(CTL, &QueryMsg::GovConfig {}).unwrap()
}
/// Messages the controller sent to `to` since `since`.
pub fn count_to(w: &World, since: usize, to: &str) -> usize {
    let mut n = 0;
    for (s, m) in w.log.iter().skip(since) {
        if s == CTL {
            if let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, .. }) = m {
                if contract_addr == to {
                    n += 1;
                }
            }
        }
    }
    n
}

pub fn fund_action(amt: u128) -> ProposalAction {
    ProposalAction::RequestFundingFromDao(RequestFundingFromDaoMsg {
        remote_treasury_target: None,
        recipient: "rcpt".to_string(),
        assets: vec![AssetUnchecked::native("uluna", amt)],
    })
}
/// An action whose message fails when executed.
pub fn bad_action() -> ProposalAction {
    ProposalAction::ExecuteMsgs(ExecuteMsgsMsg {
        action_type: "x".to_string(),
        msgs: vec![r#"{"wasm":{"execute":{"contract_addr":"rej","msg":"e30=","funds":[]}}}"#.to_string()],
    })
}

#[derive(Clone, Copy)]
pub struct Tally {
    y: u128,
    n: u128,
    a: u128,
    v: u128,
}
pub fn tally(oa: u64, wa: u128, ob: u64, wb: u128) -> Tally {
    let mut x = [0u128; 5];
    x[oa as usize] += wa;
    x[ob as usize] += wb;
    Tally { y: x[0], n: x[1], a: x[2], v: x[3] }
}
pub struct Verdict {
    quorum: bool,
    passed: bool,
    vetoed: bool,
    noed: bool,
    draw: bool,
}
/// Outcome of a poll, over mathematical integers (all thresholds positive).
pub fn verdict(t: Tally, q: u128, thr: u128, vthr: u128, max: u128) -> Verdict {
    let total = z(t.y) + z(t.n) + z(t.a) + z(t.v);
    let na = z(t.y) + z(t.n) + z(t.v);
    let some = na.gt(z(0u128));
    let over = |x: u128, th: u128| and(some, (z(x) * z(ONE)).ge(z(th) * na));
    let quorum = (total * z(ONE)).ge(z(q) * z(max));
    let (y, n, v) = (over(t.y, thr), over(t.n, thr), over(t.v, vthr));
    let nv = and(quorum, not(v));
    Verdict {
        quorum,
        passed: and(nv, and(y, or(not(n), t.y > t.n))),
        vetoed: and(quorum, v),
        noed: and(nv, and(n, or(not(y), t.n > t.y))),
        draw: and(nv, and(y, and(n, t.y == t.n))),
    }
}
impl Verdict {
    fn class(&self) -> u128 {
        ite(self.passed, 1, ite(self.vetoed, 2, ite(self.noed, 3, ite(self.draw, 4, 0))))
    }
    fn decided(&self) -> bool {
        or(or(self.passed, self.vetoed), or(self.noed, self.draw))
    }
}

// C05: who wins decides what is executed, when, and that it happens once.
entry!(ctl_execute, {
    // 0 denom, 1 token, 2 NFT, 3 multisig
    let early = choice("early", 2) == 1;
    let kind = if early { choice("kind", 4) } else { [0, 3][choice("late_kind", 2) as usize] };
    let dur = u64_in("duration", 1, 1 << 31);
    let q = u128_in("quorum", 1, ONE);
    let thr = u128_in("threshold", 1, ONE);
    // a veto threshold of its own, in one kind of DAO
    let own_veto = kind == 0 && choice("own_veto", 2) == 1;
    let vt = if own_veto { u128_in("veto", 1, ONE) } else { thr };
    let mut w = dao(kind, gcfg(q, thr, if own_veto { Some(vt) } else { None }, dur, None, early), None);
    no_panic(true);
    let wa = u128_in("alice", 1, MAXW);
    let wb = u128_in("bob", 1, MAXW);
    let rest = u128_in("rest", 0, MAXW);
    let tot = wa + wb + rest;
    let tot_end = u128_in("total_at_end", 1, 4 * MAXW);
    assume((z(wa) + z(wb)).le(z(tot_end) * z(1u128 << 60)));
    mem_user(&mut w, MEM, "alice", wa);
    mem_user(&mut w, MEM, "bob", wb);
    mem_total(&mut w, MEM, tot);
    let ends = T0 + dur;
    mem_total_at(&mut w, MEM, ends, tot_end);
    let fails = choice("action_fails", 2) == 1;
    let amt = u128_in("spend", 1, MAXW);
    let mut acts = vec![fund_action(amt)];
    if fails {
        acts.push(bad_action());
    }
    check(create(&mut w, "alice", prop(acts, None), vec![]), "member creates a proposal");
    let oa = choice("alice_vote", 4);
    let ta = u64_in("ta", T0, TMAX);
    w.time = ta;
    let va = vote(&mut w, "alice", 1, oa as u8);
    check(va == (ta < ends), "votes count only in the voting period");
    if !va {
        return;
    }
    let ob = if param("two_voters", 1) == 1 { choice("bob_vote", 5) } else { 4 };
    let mut tb = ta;
    if ob < 4 {
        tb = u64_in("tb", ta, TMAX);
        w.time = tb;
        if !vote(&mut w, "bob", 1, ob as u8) {
            return;
        }
    }
    let te = u64_in("te", tb, TMAX);
    w.time = te;
    let since = w.log.len();
    let st = pstatus(&w, 1).unwrap();
    let ok = execute(&mut w, "carol", 1);
    let t2 = tally(oa, wa, ob, wb);
    if te >= ends {
        cover("after_end");
        let v = verdict(t2, q, thr, vt, tot_end);
        check(ok, "an expired proposal can be executed");
        let n = sent::<enterprise_treasury_api::msg::ExecuteMsg>(&w, since, CTL, TRE).len();
        check(iff(n == 1, and(v.passed, !fails)), "actions run exactly when the proposal passed");
        check(n <= 1, "actions run at most once");
        check(
            iff(matches!(st.status, ProposalStatus::Passed), v.passed)
                && matches!(st.status, ProposalStatus::Passed | ProposalStatus::Rejected),
            "status reported before execution is the outcome",
        );
        if n == 1 {
            cover("ran");
        }
    } else {
        let v1 = verdict(tally(oa, wa, 4, 0), q, thr, vt, tot);
        let v2 = verdict(t2, q, thr, vt, tot);
        // moment of the last vote that changed the outcome
        let changed = ite(not(v1.class() == v2.class()), tb as u128, ta as u128);
        let waited = if kind == 3 { true } else { te as u128 >= changed + (dur / 10) as u128 };
        let may = and(v2.decided(), waited);
        check(implies(ok, and(early, may)), "early execution needs permission, a decided outcome and the delay");
        check(implies(and(early, may), ok), "a decided proposal can be executed early where allowed");
        let n = count_to(&w, since, TRE);
        check(iff(n == 1, and(ok && !fails, v2.passed)), "early: actions run exactly when the proposal passed");
        check(
            implies(matches!(st.status, ProposalStatus::InProgressCanExecuteEarly), ok),
            "reported as executable early only when it is",
        );
        if ok {
            cover("early");
        }
        if !ok {
            cover("too_early");
            check(!matches!(pstatus(&w, 1).unwrap().status, ProposalStatus::Executed), "not executed");
        }
    }
    if ok {
        let n1 = count_to(&w, since, TRE);
        check(matches!(pstatus(&w, 1).unwrap().status, ProposalStatus::Executed), "marked executed");
        w.time = u64_in("t_again", te, TMAX);
        check(!execute(&mut w, "alice", 1), "a proposal is executed once");
        check(!vote(&mut w, "alice", 1, 0), "no votes after execution");
        check(count_to(&w, since, TRE) == n1, "no further actions");
    }
});

// C05: the action runner itself is closed to everyone else, at any stage.
entry!(ctl_self_only, {
    let mut w = dao(3, gcfg(ONE / 2, ONE / 2, None, 100, None, choice("early", 2) == 1), None);
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 10);
    mem_total(&mut w, MEM, 10);
    check(create(&mut w, "alice", prop(vec![fund_action(5)], None), vec![]), "create");
    if choice("voted", 2) == 1 {
        check(vote(&mut w, "alice", 1, choice("o", 4) as u8), "vote");
    }
    w.time = u64_in("t", T0, TMAX);
    if choice("executed", 2) == 1 {
        execute(&mut w, "bob", 1);
    }
    let who = addr_in("sender", 8);
    assume(who != CTL);
    let who = who.as_str();
    let since = w.log.len();
    let ok = w.exec(who, CTL, &ExecuteMsg::ExecuteProposalActions(ExecuteProposalMsg { proposal_id: 1 }), vec![]);
    check(!ok && w.log.len() == since, "only the controller runs proposal actions");
    check(!execute(&mut w, who, 2), "no execution of a proposal that does not exist");
    cover("refused");
});

pub fn spec() -> CrossChainMsgSpec {
    CrossChainMsgSpec {
        chain_id: "c1".to_string(),
        chain_bech32_prefix: "p".to_string(),
        src_ibc_port: "s".to_string(),
        src_ibc_channel: "sc".to_string(),
        dest_ibc_port: "d".to_string(),
        dest_ibc_channel: "dc".to_string(),
        uluna_denom: "u".to_string(),
        timeout_nanos: Some(5),
    }
}
pub fn remote(on: bool) -> Option<RemoteTreasuryTarget> {
    if on {
        Some(RemoteTreasuryTarget { cross_chain_msg_spec: spec() })
    } else {
        None
    }
}
pub fn no_meta() -> UpdateMetadataMsg {
    UpdateMetadataMsg {
        name: Change("nn".to_string()),
        description: NoChange,
        logo: NoChange,
        github_username: Change(Some("gh".to_string())),
        discord_username: NoChange,
        twitter_username: NoChange,
        telegram_username: NoChange,
    }
}
pub fn cfg_change(q: ModifyValue<Decimal>, unlock: ModifyValue<Duration>) -> UpdateGovConfigMsg {
    UpdateGovConfigMsg {
        quorum: q,
        threshold: NoChange,
        veto_threshold: NoChange,
        voting_duration: NoChange,
        unlocking_period: unlock,
        minimum_deposit: NoChange,
        allow_early_proposal_execution: NoChange,
    }
}
pub fn deploy() -> DeployCrossChainTreasuryMsg {
    DeployCrossChainTreasuryMsg {
        cross_chain_msg_spec: spec(),
        asset_whitelist: None,
        nft_whitelist: None,
        ics_proxy_code_id: 3,
        enterprise_treasury_code_id: 4,
        chain_global_proxy: "gp".to_string(),
    }
}
pub const SINK_MSG: &str = r#"{"wasm":{"execute":{"contract_addr":"sink","msg":"e30=","funds":[]}}}"#;
pub fn msgs() -> Vec<String> {
    vec![SINK_MSG.to_string()]
}
pub const UNLOCK: u64 = 5000;

pub fn action(i: u64, amt: u128, rem: bool) -> ProposalAction {
    use ProposalAction::*;
    match i {
        0 => UpdateMetadata(no_meta()),
        1 => UpdateGovConfig(cfg_change(Change(Decimal::percent(40)), Change(Duration::Time(UNLOCK)))),
        2 => UpdateCouncil(UpdateCouncilMsg { dao_council: Some(council(None, ONE / 4, ONE / 4)) }),
        3 => UpdateAssetWhitelist(UpdateAssetWhitelistProposalActionMsg {
            remote_treasury_target: remote(rem),
            add: vec![AssetInfoUnchecked::Native("a".to_string())],
            remove: vec![AssetInfoUnchecked::Native("b".to_string())],
        }),
        4 => UpdateNftWhitelist(UpdateNftWhitelistProposalActionMsg {
            remote_treasury_target: remote(rem),
            add: vec!["x".to_string()],
            remove: vec!["y".to_string()],
        }),
        5 => RequestFundingFromDao(RequestFundingFromDaoMsg {
            remote_treasury_target: remote(rem),
            recipient: "rcpt".to_string(),
            assets: vec![AssetUnchecked::native("uluna", amt), AssetUnchecked::cw20("tok", amt)],
        }),
        6 => UpgradeDao(UpgradeDaoMsg { new_version: Version::new(1, 2, 0), migrate_msgs: vec![] }),
        7 => ExecuteMsgs(ExecuteMsgsMsg { action_type: "e".to_string(), msgs: msgs() }),
        8 => ExecuteTreasuryMsgs(ExecuteTreasuryMsgsMsg {
            action_type: "t".to_string(),
            msgs: msgs(),
            remote_treasury_target: remote(rem),
        }),
        9 => ExecuteEnterpriseMsgs(ExecuteEnterpriseMsgsMsg { action_type: "n".to_string(), msgs: msgs() }),
        10 => ModifyMultisigMembership(ModifyMultisigMembershipMsg {
            edit_members: vec![UserWeight { user: "bob".to_string(), weight: amt.into() }],
        }),
        11 => DistributeFunds(DistributeFundsMsg { funds: vec![AssetUnchecked::native("uluna", amt)] }),
        12 => UpdateMinimumWeightForRewards(UpdateMinimumWeightForRewardsMsg { minimum_weight_for_rewards: amt.into() }),
        _ => DeployCrossChainTreasury(deploy()),
    }
}
pub fn same<T: serde::de::DeserializeOwned + PartialEq>(m: &Binary, want: &T) -> bool {
    match from_json::<T>(m) {
        Ok(t) => t == *want,
        Err(_) => false,
    }
}
/// Whether `to`/`m` is exactly what action `i` stands for.
pub fn is_expected(i: u64, kind: u64, amt: u128, rem: bool, to: &str, m: &Binary) -> bool {
    use enterprise_outposts_api::msg::ExecuteMsg as O;
    use enterprise_protocol::msg::ExecuteMsg as E;
    use enterprise_treasury_api::api as ta;
    use enterprise_treasury_api::msg::ExecuteMsg as T;
    let treasury = |t: T| {
        if rem {
            to == OUT
                && same(
                    m,
                    &O::ExecuteCrossChainTreasury(ExecuteCrossChainTreasuryMsg { msg: t, treasury_target: remote(true).unwrap() }),
                )
        } else {
            to == TRE && same(m, &t)
        }
    };
    let dt = Some(Duration::Time(UNLOCK));
    match i {
        0 => to == ENT && same(m, &E::UpdateMetadata(no_meta())),
        1 => match kind {
            0 => {
                to == MEM
                    && same(
                        m,
                        &denom_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(denom_staking_api::api::UpdateUnlockingPeriodMsg {
                            new_unlocking_period: dt,
                        }),
                    )
            }
            1 => {
                to == MEM
                    && same(
                        m,
                        &token_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(token_staking_api::api::UpdateUnlockingPeriodMsg {
                            new_unlocking_period: dt,
                        }),
                    )
            }
            2 => {
                to == MEM
                    && same(
                        m,
                        &nft_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(nft_staking_api::api::UpdateUnlockingPeriodMsg {
                            new_unlocking_period: dt,
                        }),
                    )
            }
            _ => false,
        },
        2 => {
            let u = |s: &str| UserWeight { user: s.to_string(), weight: Uint128::one() };
            to == CNC
                && same(
                    m,
                    &multisig_membership_api::msg::ExecuteMsg::SetMembers(multisig_membership_api::api::SetMembersMsg {
                        new_members: vec![u("alice"), u("bob")],
                    }),
                )
        }
        3 => treasury(T::UpdateAssetWhitelist(ta::UpdateAssetWhitelistMsg {
            add: vec![AssetInfoUnchecked::Native("a".to_string())],
            remove: vec![AssetInfoUnchecked::Native("b".to_string())],
        })),
        4 => treasury(T::UpdateNftWhitelist(ta::UpdateNftWhitelistMsg {
            add: vec!["x".to_string()],
            remove: vec!["y".to_string()],
        })),
        5 => treasury(T::Spend(ta::SpendMsg {
            recipient: "rcpt".to_string(),
            assets: vec![AssetUnchecked::native("uluna", amt), AssetUnchecked::cw20("tok", amt)],
        })),
        6 => {
            to == ENT && same(m, &E::UpgradeDao(UpgradeDaoMsg { new_version: Version::new(1, 2, 0), migrate_msgs: vec![] }))
        }
        7 => to == "sink" && m.as_slice() == b"{}",
        8 => treasury(T::ExecuteCosmosMsgs(ta::ExecuteCosmosMsgsMsg { msgs: msgs() })),
        9 => to == ENT && same(m, &E::ExecuteMsgs(enterprise_protocol::api::ExecuteMsgsMsg { msgs: msgs() })),
        10 => {
            to == MEM
                && same(
                    m,
                    &multisig_membership_api::msg::ExecuteMsg::UpdateMembers(multisig_membership_api::api::UpdateMembersMsg {
                        update_members: vec![UserWeight { user: "bob".to_string(), weight: amt.into() }],
                    }),
                )
        }
        11 => {
            to == TRE
                && same(
                    m,
                    &T::DistributeFunds(ta::DistributeFundsMsg {
                        funds: vec![AssetUnchecked::native("uluna", amt)],
                        funds_distributor_contract: DIST.to_string(),
                    }),
                )
        }
        12 => {
            to == DIST
                && same(
                    m,
                    &funds_distributor_api::msg::ExecuteMsg::UpdateMinimumEligibleWeight(
                        funds_distributor_api::api::UpdateMinimumEligibleWeightMsg { minimum_eligible_weight: amt.into() },
                    ),
                )
        }
        _ => to == OUT && same(m, &O::DeployCrossChainTreasury(deploy())),
    }
}

// C05: a passed proposal sends exactly the messages its actions stand for, in order.
entry!(ctl_actions, {
    let kind = choice("kind", 4);
    let mut w = dao(kind, gcfg(ONE / 2, ONE / 2, None, 100, None, false), None);
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 10);
    mem_total(&mut w, MEM, 10);
    let amt = u128_in("amount", 1, MAXW);
    let rem = choice("remote", 2) == 1;
    let i = choice("action", 14);
    let j = if param("pairs", 0) == 1 { choice("action2", 14) } else { (i * 5 + 3) % 14 };
    let msig = |x: u64| x == 10;
    let legal = kind == 3 || !(msig(i) || msig(j));
    let ok = create(&mut w, "alice", prop(vec![action(i, amt, rem), action(j, amt, rem)], None), vec![]);
    check(ok == legal, "membership edits are proposable only in multisig DAOs");
    if !ok {
        return;
    }
    check(vote(&mut w, "alice", 1, 0), "vote");
    w.time = T0 + 100;
    let since = w.log.len();
    check(execute(&mut w, "bob", 1), "execute");
    let mut got = Vec::new();
    for (s, m) in w.log.iter().skip(since) {
        if s == CTL {
            match m {
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    if contract_addr != GOV && contract_addr != CTL {
                        check(funds.is_empty(), "no funds attached");
                        got.push((contract_addr.clone(), msg.clone()));
                    }
                }
                _ => check(false, "unexpected message"),
            }
        }
    }
    let mut want = Vec::new();
    for x in [i, j] {
        if !(x == 1 && kind == 3) {
            want.push(x);
        }
    }
    check(got.len() == want.len(), "one message per action");
    for k in 0..want.len() {
        check(is_expected(want[k], kind, amt, rem, &got[k].0, &got[k].1), "the message is the one proposed");
    }
    if i == 1 || j == 1 {
        check(ctl_config(&w).gov_config.quorum == Decimal::percent(40), "config updated");
    } else {
        check(ctl_config(&w).gov_config.quorum == Decimal::percent(50), "config kept");
    }
    check(ctl_config(&w).council_gov_config.is_some() == (i == 2 || j == 2), "council updated only by its action");
    cover("ran");
});
