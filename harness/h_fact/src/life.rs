//! A DAO's life after creation, with nothing but real contracts.
use crate::*;
use common::commons::ModifyValue::NoChange;

pub struct Dao {
    pub ent: String,
    pub ctl: String,
    pub gov: String,
    pub tre: String,
    pub mem: String,
    pub cnc: String,
    pub dist: String,
    pub out: String,
    pub k: u64,
}
pub fn make(w: &mut World, k: u64, m: CreateDaoMsg) -> Dao {
    check(w.exec("creator", FAC, &FX::CreateDao(Box::new(m)), vec![]), "DAO created");
    made(w, k)
}
/// The DAO created last.
pub fn made(w: &World, k: u64) -> Dao {
    let l = daos(w, None, None);
    let tre = l[l.len() - 1].dao_address.to_string();
    let ent = ent_of(w, &tre);
    let c = comps(w, &ent);
    Dao {
        ent,
        ctl: c.enterprise_governance_controller_contract.to_string(),
        gov: c.enterprise_governance_contract.to_string(),
        tre,
        mem: c.membership_contract.to_string(),
        cnc: c.council_membership_contract.to_string(),
        dist: c.funds_distributor_contract.to_string(),
        out: c.enterprise_outposts_contract.to_string(),
        k,
    }
}
pub fn nft_of(w: &World, d: &Dao) -> String {
    let r: nft_staking_api::api::NftConfigResponse = w.query(&d.mem, &nft_staking_api::msg::QueryMsg::NftConfig {}).unwrap();
    r.nft_contract.to_string()
}
pub fn tok_of(w: &World, d: &Dao) -> String {
    let r: token_staking_api::api::TokenConfigResponse = w.query(&d.mem, &token_staking_api::msg::QueryMsg::TokenConfig {}).unwrap();
    r.token_contract.to_string()
}
fn token_id(who: &str, i: u128) -> String {
    let mut s = who.to_string();
    s.push((b'a' + i as u8) as char);
    s
}
/// Gives `who` n units of the DAO's asset and stakes them (NFTs: n small and concrete).
pub fn stake(w: &mut World, d: &Dao, who: &str, n: u128) -> bool {
    match d.k {
        0 => {
            w.set_bal(who, DENOM, n);
            w.exec(who, &d.mem, &denom_staking_api::msg::ExecuteMsg::Stake { user: None }, vec![coin(n, DENOM)])
        }
        1 | 2 => {
            if d.k == 1 {
                w.cw20_set(TOK, who, n);
            }
            let t = tok_of(w, d);
            let msg = to_json_binary(&token_staking_api::msg::Cw20HookMsg::Stake { user: who.to_string() }).unwrap();
            w.exec(who, &t, &cw20::Cw20ExecuteMsg::Send { contract: d.mem.clone(), amount: n.into(), msg }, vec![])
        }
        3 | 4 | 5 => {
            let c = nft_of(w, d);
            let mut i = 0;
            while i < n {
                let id = token_id(who, i);
                if d.k == 4 {
                    let m = cw721_base::ExecuteMsg::<Option<Empty>, Empty>::Mint(cw721_base::MintMsg {
                        token_id: id.clone(),
                        owner: who.to_string(),
                        token_uri: None,
                        extension: None,
                    });
                    check(w.exec("minter", &c, &m, vec![]), "minted");
                } else {
                    w.nft_set(NFT, &id, who);
                }
                let msg = to_json_binary(&nft_staking_api::msg::Cw721HookMsg::Stake { user: who.to_string() }).unwrap();
                if !w.exec(who, &c, &cw721::Cw721ExecuteMsg::SendNft { contract: d.mem.clone(), token_id: id, msg }, vec![]) {
                    return false;
                }
                i += 1;
            }
            true
        }
        _ => true,
    }
}
/// Unstakes n units (NFTs: the first n).
pub fn unstake(w: &mut World, d: &Dao, who: &str, n: u128) -> bool {
    match d.k {
        0 => w.exec(who, &d.mem, &denom_staking_api::msg::ExecuteMsg::Unstake(denom_staking_api::api::UnstakeMsg { amount: n.into() }), vec![]),
        1 | 2 => w.exec(who, &d.mem, &token_staking_api::msg::ExecuteMsg::Unstake(token_staking_api::api::UnstakeMsg { amount: n.into() }), vec![]),
        3 | 4 | 5 => {
            let mut l = Vec::new();
            let mut i = 0;
            while i < n {
                l.push(token_id(who, i));
                i += 1;
            }
            w.exec(who, &d.mem, &nft_staking_api::msg::ExecuteMsg::Unstake(nft_staking_api::api::UnstakeMsg { nft_ids: l }), vec![])
        }
        _ => false,
    }
}
pub fn sign(w: &mut World, d: &Dao, who: &str) {
    if let Some(a) = comps(w, &d.ent).attestation_contract {
        check(w.exec(who, a.as_str(), &attestation_api::msg::ExecuteMsg::SignAttestation {}, vec![]), "signed");
    }
}
pub fn propose(w: &mut World, d: &Dao, who: &str, acts: Vec<ga::ProposalAction>) -> bool {
    let m = ga::CreateProposalMsg { title: "title".to_string(), description: None, proposal_actions: acts, deposit_owner: None };
    w.exec(who, &d.ctl, &gm::ExecuteMsg::CreateProposal(m), vec![])
}
pub fn cast(w: &mut World, d: &Dao, who: &str, id: u64, o: u64) -> bool {
    use poll_engine_api::api::VoteOutcome::*;
    let outcome = match o {
        0 => Yes,
        1 => No,
        2 => Abstain,
        _ => Veto,
    };
    w.exec(who, &d.ctl, &gm::ExecuteMsg::CastVote(ga::CastVoteMsg { proposal_id: id, outcome }), vec![])
}
pub fn run(w: &mut World, d: &Dao, who: &str, id: u64) -> bool {
    w.exec(who, &d.ctl, &gm::ExecuteMsg::ExecuteProposal(ga::ExecuteProposalMsg { proposal_id: id }), vec![])
}
pub fn pay(to: &str, n: u128) -> ga::ProposalAction {
    ga::ProposalAction::RequestFundingFromDao(ga::RequestFundingFromDaoMsg {
        remote_treasury_target: None,
        recipient: to.to_string(),
        assets: vec![AssetUnchecked::native(LUNA, n)],
    })
}
pub fn symbolic(k: u64) -> bool {
    k < 3 || k >= 6
}

// C30: the treasury pays exactly what its members decided, counting the stakes they hold.
entry!(life_fund, {
    no_panic(true);
    let mut w = chain();
    let k = choice("kind", 8);
    let free = k == 0;
    let q = if free { u128_in("quorum", 1, ONE) } else { ONE / 2 };
    let thr = if free { u128_in("threshold", 1, ONE) } else { ONE / 2 };
    let hi = if k == 6 { u64::MAX as u128 } else { MAXW };
    let (wa, wb, wc) = if symbolic(k) {
        (u128_in("alice", 1, hi), u128_in("bob", 1, hi), u128_in("carol", 1, hi))
    } else {
        (2, 2, 1)
    };
    if k == 6 {
        set_voter(&mut w, "alice", wa as u64);
        set_voter(&mut w, "bob", wb as u64);
        set_voter(&mut w, "carol", wc as u64);
    }
    let mut m = create_msg(gcfg(q, thr, None, 100, None, false), membership(k, Duration::Time(100), wa, wb, wc));
    m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
    let attest = k % 2 == 1;
    if attest {
        m.attestation_text = Some("attest".to_string());
    }
    let d = make(&mut w, k, m);
    let had = u128_in("treasury", 0, MAXW);
    let ask = u128_in("asked", 1, MAXW);
    assume(ask <= had);
    w.set_bal(&d.tre, LUNA, had);
    if attest {
        for u in ["bob", "carol"] {
            sign(&mut w, &d, u);
        }
        if is_multisig(k) {
            check(!propose(&mut w, &d, "alice", vec![pay("rec", ask)]), "no part in governance before attesting");
        }
        sign(&mut w, &d, "alice");
    }
    check(stake(&mut w, &d, "alice", wa) && stake(&mut w, &d, "bob", wb), "staked");
    w.time += 10;
    w.height += 1;
    check(!propose(&mut w, &d, "dave", vec![pay("rec", ask)]), "no proposals without voting power");
    check(propose(&mut w, &d, "alice", vec![pay("rec", ask)]), "proposed");
    let ends = w.time + 100;
    w.time += 10;
    let oa = choice("alice_votes", 3);
    let ob = choice("bob_votes", 3);
    // yes, no, not at all
    if oa < 2 {
        check(cast(&mut w, &d, "alice", 1, oa), "vote");
    }
    if ob < 2 {
        check(cast(&mut w, &d, "bob", 1, ob), "vote");
    }
    check(!cast(&mut w, &d, "dave", 1, 0), "no vote without voting power");
    // meanwhile
    w.time += 10;
    w.height += 1;
    let mut vb = wb;
    let mut tot = wa + wb + if is_multisig(k) { wc } else { 0 };
    match choice("meanwhile", if is_multisig(k) { 1 } else { 4 }) {
        1 => {
            let x = if symbolic(k) { u128_in("unstaked", 1, MAXW) } else { 1 };
            assume(x <= wb);
            check(unstake(&mut w, &d, "bob", x), "unstaked");
            vb = wb - x;
            tot = tot - x;
        }
        2 if k != 2 => {
            check(stake(&mut w, &d, "carol", wc), "staked");
            tot = tot + wc;
        }
        3 if k != 2 => {
            w.time = ends;
            check(stake(&mut w, &d, "carol", wc), "staked too late to count");
        }
        _ => {}
    }
    let y = ite(oa == 0, wa, 0) + ite(ob == 0, vb, 0);
    let n = ite(oa == 1, wa, 0) + ite(ob == 1, vb, 0);
    w.time = ends - 1;
    run(&mut w, &d, "alice", 1);
    check(w.bal("rec", LUNA) == 0, "nothing paid before the vote ends");
    w.time = ends;
    run(&mut w, &d, "carol", 1);
    let cast = z(y) + z(n);
    let passed = and(
        and(cast.gt(z(0u128)), (cast * z(ONE)).ge(z(q) * z(tot))),
        and((z(y) * z(ONE)).ge(z(thr) * cast), not(and((z(n) * z(ONE)).ge(z(thr) * cast), n >= y))),
    );
    let paid = w.bal("rec", LUNA);
    check(paid == ite(passed, ask, 0), "paid exactly when the members decided so");
    check(w.bal(&d.tre, LUNA) == had - paid, "and from the treasury");
    run(&mut w, &d, "alice", 1);
    check(w.bal("rec", LUNA) == paid, "and once");
    if split(passed) {
        cover("paid");
    } else {
        cover("not_paid");
    }
});

// C31: rewards follow the stakes members actually hold, through every contract in between.
entry!(life_rewards, {
    no_panic(true);
    let mut w = chain();
    let k = choice("kind", 8);
    let hi = if k == 6 { u64::MAX as u128 } else { 1 << 60 };
    // alice will keep `keep` and unstake x
    let (keep, x, wb, wc) = if symbolic(k) {
        (u128_in("alice_keeps", 0, hi / 2), u128_in("alice_unstakes", 1, hi / 2), u128_in("bob", 1, hi), u128_in("carol", 1, hi))
    } else {
        (1, 1, 2, 1)
    };
    let wa = keep + x;
    if k == 6 {
        set_voter(&mut w, "alice", wa as u64);
        set_voter(&mut w, "bob", wb as u64);
        set_voter(&mut w, "carol", wc as u64);
    }
    let mut m = create_msg(gcfg(ONE / 2, ONE / 2, None, 100, None, false), membership(k, Duration::Time(100), wa, wb, wc));
    let with_council = bool_in("council");
    if with_council {
        m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
    }
    let d = make(&mut w, k, m);
    let amt = u128_in("distributed", 1, 1 << 60);
    w.set_bal("payer", LUNA, 3 * amt);
    let dist = |w: &mut World| w.exec("payer", &d.dist, &dm::ExecuteMsg::DistributeNative {}, vec![coin(amt, LUNA)]);
    if !is_multisig(k) {
        check(!dist(&mut w), "nobody to distribute to yet");
        check(stake(&mut w, &d, "alice", wa), "staked");
    }
    let mut whole = wa;
    if is_multisig(k) {
        whole = wa + wb + wc;
    }
    // what one unit of weight receives, rounded down
    let idx = |a: u128, t: u128| Decimal::from_ratio(a, t);
    check(dist(&mut w), "distributed");
    let i1 = idx(amt, whole);
    check(rewards(&w, &d.dist, "alice") == (Uint128::new(wa) * i1).u128(), "alice's share follows her stake");
    check(rewards(&w, &d.dist, "dave") == 0 && rewards(&w, &d.dist, "erin") == 0, "council members earn nothing for being in the council");
    if is_multisig(k) {
        check(rewards(&w, &d.dist, "bob") == (Uint128::new(wb) * i1).u128(), "bob's share follows his weight");
        cover("multisig");
        return;
    }
    check(stake(&mut w, &d, "bob", wb), "staked");
    check(unstake(&mut w, &d, "alice", x), "unstaked");
    check(rewards(&w, &d.dist, "bob") == 0, "no reward for the time before");
    check(rewards(&w, &d.dist, "alice") == (Uint128::new(wa) * i1).u128(), "earned rewards stay");
    check(dist(&mut w), "distributed again");
    let i2 = idx(amt, keep + wb);
    check(rewards(&w, &d.dist, "bob") == (Uint128::new(wb) * i2).u128(), "bob's share follows his stake");
    let left = if split(keep == 0) { 0 } else { (Uint128::new(keep) * i2).u128() };
    check(rewards(&w, &d.dist, "alice") == (Uint128::new(wa) * i1).u128() + left, "alice's share follows what she has left");
    check(
        (z(rewards(&w, &d.dist, "alice")) + z(rewards(&w, &d.dist, "bob"))).le(z(2 * amt)),
        "never more than was distributed",
    );
    cover("staked");
});

// C32: once created, a DAO is in nobody's hands but its own.
entry!(life_auth, {
    no_panic(true);
    let mut w = chain();
    let k = [0, 2, 4, 7][choice("kind", 4) as usize];
    let mut m = simple(&mut w, k);
    m.dao_council = Some(council(&["dave", "erin"], ONE / 2, ONE / 2));
    let d = make(&mut w, k, m);
    let other = {
        let m = simple(&mut w, 7);
        make(&mut w, 7, m)
    };
    check(stake(&mut w, &d, "alice", 3 - 2 * (k == 4) as u128), "staked");
    w.time += 10;
    check(propose(&mut w, &d, "alice", vec![pay("alice", 5)]), "proposed");
    // anybody at all: every party and contract has a name no longer than this
    check(d.ent.len() <= 10 && other.ctl.len() <= 10, "names");
    let who = addr_in("sender", 10);
    let who = who.as_str();
    let x = u128_in("amount", 1, MAXW);
    let had = u128_in("treasury", 0, MAXW);
    assume(x <= had);
    w.set_bal(&d.tre, LUNA, had);
    let ent_x = enterprise_protocol::msg::ExecuteMsg::UpdateMetadata(UpdateMetadataMsg {
        name: common::commons::ModifyValue::Change("owned".to_string()),
        description: NoChange,
        logo: NoChange,
        github_username: NoChange,
        discord_username: NoChange,
        twitter_username: NoChange,
        telegram_username: NoChange,
    });
    let own = who == d.ctl;
    let old = w.clone();
    let (ok, may) = match choice("attempt", 12) {
        0 => {
            let m = ta::SpendMsg { recipient: "mallory".to_string(), assets: vec![AssetUnchecked::native(LUNA, x)] };
            (w.exec(who, &d.tre, &tm::ExecuteMsg::Spend(m), vec![]), own)
        }
        1 => {
            let m = da::UpdateUserWeightsMsg { new_user_weights: vec![da::UserWeight { user: "mallory".to_string(), weight: x.into() }] };
            (w.exec(who, &d.dist, &dm::ExecuteMsg::UpdateUserWeights(m), vec![]), own)
        }
        2 => (w.exec(who, &d.ent, &ent_x, vec![]), own),
        3 => {
            let m = poll_engine_api::api::CastVoteParams {
                poll_id: 1u64.into(),
                outcome: poll_engine_api::api::VoteOutcome::Yes,
                voter: "mallory".to_string(),
                amount: x.into(),
            };
            (w.exec(who, &d.gov, &enterprise_governance_api::msg::ExecuteMsg::CastVote(m), vec![]), own)
        }
        4 => {
            let m = poll_engine_api::api::EndPollParams { poll_id: 1u64.into(), maximum_available_votes: 1u128.into(), error_if_already_ended: true, allow_early_ending: true };
            (w.exec(who, &d.gov, &enterprise_governance_api::msg::ExecuteMsg::EndPoll(m), vec![]), own)
        }
        5 => {
            let m = multisig_membership_api::api::UpdateMembersMsg { update_members: vec![MW { user: "mallory".to_string(), weight: x.into() }] };
            (w.exec(who, &d.cnc, &multisig_membership_api::msg::ExecuteMsg::UpdateMembers(m), vec![]), own)
        }
        6 => {
            let m = gm::ExecuteMsg::WeightsChanged(WeightsChangedMsg {
                weight_changes: vec![UserWeightChange { user: "mallory".to_string(), old_weight: 0u128.into(), new_weight: x.into() }],
            });
            (w.exec(who, &d.ctl, &m, vec![]), who == d.mem || who == d.cnc)
        }
        7 => (w.exec(who, &d.ctl, &gm::ExecuteMsg::ExecuteProposalActions(ga::ExecuteProposalMsg { proposal_id: 1 }), vec![]), own),
        8 => {
            let m = enterprise_outposts_api::msg::ExecuteMsg::DeployCrossChainTreasury(deploy("one"));
            w.set_bal(&d.out, LUNA, 5);
            (w.exec(who, &d.out, &m, vec![]), own)
        }
        9 => {
            let m = WeightChangeHookMsg { hook_addr: "mallory".to_string() };
            (w.exec(who, &d.mem, &multisig_membership_api::msg::ExecuteMsg::AddWeightChangeHook(m), vec![]), who == d.ent || own)
        }
        10 => {
            // contract upgrades, by whoever the chain lets
            let all = [&d.ent, &d.ctl, &d.gov, &d.tre, &d.mem, &d.cnc, &d.dist, &d.out];
            let t = all[choice("target", 8) as usize].clone();
            let m = CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: t, new_code_id: 999, msg: Binary::default() });
            (w.dispatch(who, m).is_ok(), who == d.ent)
        }
        _ => {
            let m = enterprise_protocol::msg::ExecuteMsg::FinalizeInstantiation(FinalizeInstantiationMsg {
                enterprise_treasury_contract: "mallory".to_string(),
                enterprise_governance_contract: "mallory".to_string(),
                enterprise_governance_controller_contract: "mallory".to_string(),
                enterprise_outposts_contract: "mallory".to_string(),
                funds_distributor_contract: "mallory".to_string(),
                membership_contract: "mallory".to_string(),
                council_membership_contract: "mallory".to_string(),
                attestation_contract: None,
            });
            (w.exec(who, &d.ent, &m, vec![]), false)
        }
    };
    check(implies(ok, may), "only by the DAO's own decision");
    if ok {
        cover("own");
    } else {
        check(w.bal(&d.tre, LUNA) == old.bal(&d.tre, LUNA), "treasury untouched");
        cover("refused");
    }
});
