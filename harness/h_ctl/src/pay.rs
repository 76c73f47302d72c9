//! What a passed proposal does, for varied contents of every kind of action; whom proposals count for.
use crate::more::create_with;
use crate::*;
use enterprise_outposts_api::msg::ExecuteMsg as O;
use enterprise_protocol::api::{ExecuteMsgsMsg as EntMsgs, Logo, VersionMigrateMsg};
use enterprise_protocol::msg::ExecuteMsg as E;
use enterprise_treasury_api::api as ta;
use enterprise_treasury_api::msg::ExecuteMsg as T;
use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
use multisig_membership_api::msg::ExecuteMsg as M;

/// A message an action stands for.
enum Want {
    Ent(E),
    Tre(T),
    Out(O),
    Mem(M),
    Cnc(M),
    Unlock(Duration),
    MinWeight(u128),
    Raw(String),
}

fn hit(want: &Want, to: &str, m: &Binary, funds: &[Coin]) -> bool {
    let none = funds.is_empty();
    match want {
        Want::Ent(x) => none && to == ENT && same(m, x),
        Want::Tre(x) => none && to == TRE && same(m, x),
        Want::Out(x) => none && to == OUT && same(m, x),
        Want::Mem(x) => none && to == MEM && same(m, x),
        Want::Cnc(x) => none && to == CNC && same(m, x),
        Want::Unlock(d) => {
            none && to == MEM
                && same(
                    m,
                    &denom_staking_api::msg::ExecuteMsg::UpdateUnlockingPeriod(denom_staking_api::api::UpdateUnlockingPeriodMsg {
                        new_unlocking_period: Some(*d),
                    }),
                )
        }
        Want::MinWeight(x) => {
            none && to == DIST
                && same(
                    m,
                    &funds_distributor_api::msg::ExecuteMsg::UpdateMinimumEligibleWeight(
                        funds_distributor_api::api::UpdateMinimumEligibleWeightMsg { minimum_eligible_weight: (*x).into() },
                    ),
                )
        }
        Want::Raw(_) => false,
    }
}

fn strs(l: &[&str]) -> Vec<String> {
    let mut r = Vec::new();
    for s in l {
        r.push(s.to_string());
    }
    r
}
fn nat(l: &[&str]) -> Vec<AssetInfoUnchecked> {
    let mut r = Vec::new();
    for s in l {
        r.push(AssetInfoUnchecked::Native(s.to_string()));
    }
    r
}
fn uw(l: &[(&str, u128)]) -> Vec<UserWeight> {
    let mut r = Vec::new();
    for (u, w) in l {
        r.push(UserWeight { user: u.to_string(), weight: (*w).into() });
    }
    r
}
const RAW: [&str; 2] = [
    r#"{"wasm":{"execute":{"contract_addr":"sink","msg":"e30=","funds":[]}}}"#,
    r#"{"wasm":{"execute":{"contract_addr":"sink","msg":"eyJhIjp7fX0=","funds":[]}}}"#,
];
const RAW_MSG: [&[u8]; 2] = [b"{}", br#"{"a":{}}"#];
fn raws(v: u64) -> Vec<String> {
    match v {
        0 => vec![],
        1 => vec![RAW[1].to_string(), RAW[0].to_string()],
        _ => vec![RAW[0].to_string(), RAW[0].to_string(), RAW[1].to_string()],
    }
}

/// Expected settings after the proposal.
struct After {
    cfg: GovConfig,
    council: Option<CouncilGovConfig>,
}

fn variant(i: u64, v: u64, amt: u128, rem: bool, after: &mut After) -> (ProposalAction, Vec<Want>) {
    use ProposalAction as A;
    let tre = |t: T| {
        if rem {
            Want::Out(O::ExecuteCrossChainTreasury(ExecuteCrossChainTreasuryMsg { msg: t, treasury_target: remote(true).unwrap() }))
        } else {
            Want::Tre(t)
        }
    };
    let some = |s: &str| Change(Some(s.to_string()));
    match i {
        0 => {
            let m = match v {
                0 => UpdateMetadataMsg {
                    name: NoChange,
                    description: some("dd"),
                    logo: Change(Logo::Url("l".to_string())),
                    github_username: NoChange,
                    discord_username: some("di"),
                    twitter_username: some("tw"),
                    telegram_username: some("te"),
                },
                1 => UpdateMetadataMsg {
                    name: NoChange,
                    description: Change(None),
                    logo: Change(Logo::None),
                    github_username: Change(None),
                    discord_username: Change(None),
                    twitter_username: Change(None),
                    telegram_username: Change(None),
                },
                _ => UpdateMetadataMsg {
                    name: NoChange,
                    description: NoChange,
                    logo: NoChange,
                    github_username: NoChange,
                    discord_username: NoChange,
                    twitter_username: NoChange,
                    telegram_username: NoChange,
                },
            };
            (A::UpdateMetadata(m.clone()), vec![Want::Ent(E::UpdateMetadata(m))])
        }
        1 => {
            let mut m = cfg_change(NoChange, NoChange);
            let mut w = Vec::new();
            match v {
                0 => {
                    m.unlocking_period = Change(Duration::Height(3));
                    w.push(Want::Unlock(Duration::Height(3)));
                }
                1 => {
                    m.threshold = Change(Decimal::percent(77));
                    m.veto_threshold = Change(None);
                    m.minimum_deposit = Change(None);
                    after.cfg.threshold = Decimal::percent(77);
                    after.cfg.veto_threshold = None;
                    after.cfg.minimum_deposit = None;
                }
                _ => {
                    m.voting_duration = Change(300u64.into());
                    m.unlocking_period = Change(Duration::Time(300));
                    m.minimum_deposit = Change(Some(amt.into()));
                    m.allow_early_proposal_execution = Change(true);
                    m.veto_threshold = Change(Some(Decimal::percent(9)));
                    after.cfg.vote_duration = 300;
                    after.cfg.minimum_deposit = Some(amt.into());
                    after.cfg.allow_early_proposal_execution = true;
                    after.cfg.veto_threshold = Some(Decimal::percent(9));
                    w.push(Want::Unlock(Duration::Time(300)));
                }
            }
            (A::UpdateGovConfig(m), w)
        }
        2 => {
            let types = vec![ProposalActionType::UpdateMetadata, ProposalActionType::UpdateNftWhitelist];
            let mut s = council(None, ONE / 3, ONE / 5);
            s.members = strs(&["carol", "alice", "dave"]);
            let (spec, members) = match v {
                0 => (None, vec![]),
                1 => {
                    s.allowed_proposal_action_types = Some(types.clone());
                    (Some(s), vec![("carol", 1), ("alice", 1), ("dave", 1)])
                }
                _ => {
                    s.allowed_proposal_action_types = Some(vec![]);
                    s.members = vec![];
                    (Some(s), vec![])
                }
            };
            after.council = spec.as_ref().map(|s| CouncilGovConfig {
                allowed_proposal_action_types: s.allowed_proposal_action_types.clone().unwrap(),
                quorum: s.quorum,
                threshold: s.threshold,
            });
            (
                A::UpdateCouncil(UpdateCouncilMsg { dao_council: spec }),
                vec![Want::Cnc(M::SetMembers(SetMembersMsg { new_members: uw(&members) }))],
            )
        }
        3 => {
            let (add, remove) = match v {
                0 => (nat(&["a", "b", "c"]), vec![]),
                1 => (vec![], vec![AssetInfoUnchecked::Cw20("tok".to_string()), AssetInfoUnchecked::Native("b".to_string())]),
                _ => (vec![AssetInfoUnchecked::Cw20("tok".to_string())], nat(&["a"])),
            };
            (
                A::UpdateAssetWhitelist(UpdateAssetWhitelistProposalActionMsg {
                    remote_treasury_target: remote(rem),
                    add: add.clone(),
                    remove: remove.clone(),
                }),
                vec![tre(T::UpdateAssetWhitelist(ta::UpdateAssetWhitelistMsg { add, remove }))],
            )
        }
        4 => {
            let (add, remove) = match v {
                0 => (strs(&["na", "nb"]), vec![]),
                1 => (vec![], strs(&["nb", "na"])),
                _ => (strs(&["na"]), strs(&["nc", "nb"])),
            };
            (
                A::UpdateNftWhitelist(UpdateNftWhitelistProposalActionMsg {
                    remote_treasury_target: remote(rem),
                    add: add.clone(),
                    remove: remove.clone(),
                }),
                vec![tre(T::UpdateNftWhitelist(ta::UpdateNftWhitelistMsg { add, remove }))],
            )
        }
        5 => {
            let assets = match v {
                0 => vec![AssetUnchecked::cw20("tok", amt)],
                1 => vec![AssetUnchecked::native("ua", amt), AssetUnchecked::native("ub", 7u128), AssetUnchecked::native("ua", 3u128)],
                _ => vec![],
            };
            let recipient = if v == 0 { TRE.to_string() } else { "alice".to_string() };
            (
                A::RequestFundingFromDao(RequestFundingFromDaoMsg {
                    remote_treasury_target: remote(rem),
                    recipient: recipient.clone(),
                    assets: assets.clone(),
                }),
                vec![tre(T::Spend(ta::SpendMsg { recipient, assets }))],
            )
        }
        6 => {
            let mm = |a: u64, b: u64, c: u64, s: &str| VersionMigrateMsg { version: Version::new(a, b, c), migrate_msg: Binary::from(s.as_bytes()) };
            let m = match v {
                0 => UpgradeDaoMsg { new_version: Version::new(2, 0, 0), migrate_msgs: vec![mm(1, 2, 0, "{}"), mm(2, 0, 0, "x")] },
                1 => UpgradeDaoMsg { new_version: Version::new(1, 1, 2), migrate_msgs: vec![mm(1, 1, 2, "{}")] },
                _ => UpgradeDaoMsg { new_version: Version::new(11, 0, 7), migrate_msgs: vec![] },
            };
            (A::UpgradeDao(m.clone()), vec![Want::Ent(E::UpgradeDao(m))])
        }
        7 => {
            let mut w = Vec::new();
            for r in raws(v) {
                w.push(Want::Raw(r));
            }
            (A::ExecuteMsgs(ExecuteMsgsMsg { action_type: "e".to_string(), msgs: raws(v) }), w)
        }
        8 => (
            A::ExecuteTreasuryMsgs(ExecuteTreasuryMsgsMsg {
                action_type: "t".to_string(),
                msgs: raws(v),
                remote_treasury_target: remote(rem),
            }),
            vec![tre(T::ExecuteCosmosMsgs(ta::ExecuteCosmosMsgsMsg { msgs: raws(v) }))],
        ),
        9 => (
            A::ExecuteEnterpriseMsgs(ExecuteEnterpriseMsgsMsg { action_type: "n".to_string(), msgs: raws(v) }),
            vec![Want::Ent(E::ExecuteMsgs(EntMsgs { msgs: raws(v) }))],
        ),
        10 => {
            let l = match v {
                0 => vec![],
                1 => vec![("bob", amt), ("alice", 0)],
                _ => vec![("carol", 0), ("dave", 1), ("alice", amt)],
            };
            (
                A::ModifyMultisigMembership(ModifyMultisigMembershipMsg { edit_members: uw(&l) }),
                vec![Want::Mem(M::UpdateMembers(UpdateMembersMsg { update_members: uw(&l) }))],
            )
        }
        11 => {
            let funds = match v {
                0 => vec![AssetUnchecked::cw20("tok", amt), AssetUnchecked::native("uluna", 4u128)],
                1 => vec![AssetUnchecked::native("uluna", amt), AssetUnchecked::native("uluna", 4u128)],
                _ => vec![],
            };
            (
                A::DistributeFunds(DistributeFundsMsg { funds: funds.clone() }),
                vec![Want::Tre(T::DistributeFunds(ta::DistributeFundsMsg { funds, funds_distributor_contract: DIST.to_string() }))],
            )
        }
        12 => {
            let x = if v == 0 { 0 } else { amt };
            (
                A::UpdateMinimumWeightForRewards(UpdateMinimumWeightForRewardsMsg { minimum_weight_for_rewards: x.into() }),
                vec![Want::MinWeight(x)],
            )
        }
        _ => {
            let mut d = deploy();
            match v {
                0 => {
                    d.asset_whitelist = Some(nat(&["a", "b"]));
                    d.cross_chain_msg_spec.timeout_nanos = None;
                }
                1 => d.nft_whitelist = Some(strs(&["x"])),
                _ => d.chain_global_proxy = "other".to_string(),
            }
            (A::DeployCrossChainTreasury(d.clone()), vec![Want::Out(O::DeployCrossChainTreasury(d))])
        }
    }
}

// C05: whatever an action contains is what runs, all of it or, if another action fails, none of it.
entry!(ctl_payload, {
    let i = choice("action", 14);
    let kind = if i == 10 { 3 } else { 0 };
    let v = choice("variant", 3);
    let rem = matches!(i, 3 | 4 | 5 | 8) && choice("remote", 2) == 1;
    let amt = u128_in("amount", 1, MAXW);
    let had = choice("had_council", 2) == 1;
    let dep = if kind == 0 { Some(20) } else { None };
    let cfg = gcfg(ONE / 2, ONE / 2, Some(ONE / 3), 100, dep, false);
    let mut w = dao(kind, cfg.clone(), if had { Some(council(None, ONE / 2, ONE / 2)) } else { None });
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 10);
    mem_total(&mut w, MEM, 10);
    w.cw20_set(TOK, CTL, 5);
    w.set_bal("alice", DENOM, 20);
    let mut after = After { cfg: cfg.clone(), council: ctl_config(&w).council_gov_config };
    let before_council = after.council.clone();
    let (act, want) = variant(i, v, amt, rem, &mut after);
    let fails = choice("another_fails", 3);
    let mut acts = vec![act];
    match fails {
        1 => acts.push(bad_action()),
        2 => acts.insert(0, bad_action()),
        _ => {}
    }
    let funds = if kind == 0 { vec![coin(20, DENOM)] } else { vec![] };
    check(create(&mut w, "alice", prop(acts, None), funds), "proposed");
    check(vote(&mut w, "alice", 1, 0), "vote");
    w.time = T0 + 100;
    let since = w.log.len();
    check(execute(&mut w, "bob", 1), "executed, whether or not an action fails");
    let mut got: Vec<(String, Binary, Vec<Coin>)> = Vec::new();
    for (s, m) in w.log.iter().skip(since) {
        if s == CTL {
            match m {
                CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                    if contract_addr != GOV && contract_addr != CTL {
                        got.push((contract_addr.clone(), msg.clone(), funds.clone()));
                    }
                }
                CosmosMsg::Bank(BankMsg::Send { to_address, .. }) => check(to_address == "alice", "the deposit goes back"),
                _ => check(false, "unexpected message"),
            }
        }
    }
    let ran = fails == 0;
    check(got.len() == if ran { want.len() } else { 0 }, "exactly the messages the action stands for, none if an action fails");
    if ran {
        let mut k = 0;
        while k < want.len() {
            let (to, m, funds) = &got[k];
            let fine = match &want[k] {
                Want::Raw(s) => to == "sink" && funds.is_empty() && m.as_slice() == RAW_MSG[if s == RAW[0] { 0 } else { 1 }],
                x => hit(x, to, m, funds),
            };
            check(fine, "the message is the one proposed, in its place");
            k += 1;
        }
        cover("ran");
    } else {
        cover("failed");
    }
    let c = ctl_config(&w);
    check(c.gov_config == if ran { after.cfg } else { cfg }, "governance settings are those decided");
    check(c.council_gov_config == if ran { after.council } else { before_council }, "the council is the one decided");
    check(matches!(pstatus(&w, 1).unwrap().status, ProposalStatus::Executed), "counts as executed");
    check(!execute(&mut w, "bob", 1), "once");
});

// C07: who proposes is who sends the proposal, not who gets the deposit back; restricted users never do.
entry!(ctl_creator, {
    let kind = choice("kind", 4);
    let min = if kind < 3 && choice("min", 2) == 1 { Some(u128_in("minimum", 1, MAXW)) } else { None };
    let mut w = dao(kind, gcfg(ONE / 2, ONE / 2, None, 100, min, choice("early", 2) == 1), None);
    no_panic(true);
    let wp = u128_in("proposer_weight", 0, MAXW);
    let wo = u128_in("owner_weight", 0, MAXW);
    mem_user(&mut w, MEM, "prop", wp);
    mem_user(&mut w, MEM, "owner", wo);
    mem_total(&mut w, MEM, wp + wo);
    let r = choice("restricted", 3);
    match r {
        1 => restrict(&mut w, "prop"),
        2 => restrict(&mut w, "owner"),
        _ => {}
    }
    let dep = if kind == 2 { 1 } else { u128_in("deposit", 1, MAXW) };
    w.set_bal("prop", DENOM, dep);
    w.cw20_set(TOK, "prop", dep);
    w.nft_set(NFT, "na", "prop");
    w.nft_approve(NFT, "na", &[CTL]);
    let own = choice("owner_named", 2) == 1;
    // with a deposit, or by the plain message without one
    let with = kind < 3 && choice("with_deposit", 2) == 1;
    let m = prop(vec![], if own { Some("owner") } else { None });
    let ok = if with {
        create_with(&mut w, kind, "prop", dep, &["na"], m)
    } else {
        create(&mut w, "prop", m, vec![])
    };
    let enough = match min {
        None => wp > 0,
        Some(x) => {
            if with {
                dep >= x
            } else {
                false
            }
        }
    };
    check(iff(ok, and(r != 1, enough)), "proposals come from unrestricted, eligible senders, whoever owns the deposit");
    if ok {
        check(proposal(&w, 1).unwrap().proposal.proposer == "prop", "the proposer is the sender");
        cover("proposed");
    } else {
        cover("refused");
    }
});
