//! Deposits, eligibility, weight changes and configuration.
use crate::*;

pub const D0: u128 = 77;

/// Proposes with a deposit the way the DAO type requires it.
pub fn create_with(w: &mut World, kind: u64, who: &str, dep: u128, nfts: &[&str], m: CreateProposalMsg) -> bool {
    match kind {
        0 => {
            let f = if dep == 0 { vec![] } else { vec![coin(dep, DENOM)] };
            create(w, who, m, f)
        }
        1 => {
            let msg = to_json_binary(&Cw20HookMsg::CreateProposal(m)).unwrap();
            w.exec(who, TOK, &cw20::Cw20ExecuteMsg::Send { contract: CTL.to_string(), amount: dep.into(), msg }, vec![])
        }
        _ => {
            let mut t = Vec::new();
            for n in nfts {
                t.push(n.to_string());
            }
            w.exec(
                who,
                CTL,
                &ExecuteMsg::CreateProposalWithNftDeposit(CreateProposalWithNftDepositMsg {
                    create_proposal_msg: m,
                    deposit_tokens: t,
                }),
                vec![],
            )
        }
    }
}
pub fn bal(w: &World, kind: u64, who: &str) -> u128 {
    match kind {
        0 => w.bal(who, DENOM),
        1 => w.cw20_bal(TOK, who),
        _ => {
            let mut n = 0;
            for t in ["na", "nb", "nc"] {
                if w.nft_owner(NFT, t) == who {
                    n += 1;
                }
            }
            n
        }
    }
}

// C06: what happens to a proposal's deposit.
entry!(ctl_deposit, {
    let kind = choice("kind", 3);
    let min = if choice("min", 2) == 1 { Some(u128_in("minimum", 0, MAXW)) } else { None };
    let veto = u128_in("veto", 1, ONE);
    let early = choice("early", 2) == 1;
    let mut w = dao(kind, gcfg(ONE / 2, ONE / 2, Some(veto), 100, min, early), None);
    no_panic(true);
    let wp = u128_in("proposer_weight", 0, MAXW);
    let wa = u128_in("alice", 1, MAXW);
    let wb = u128_in("bob", 1, MAXW);
    let rest = u128_in("rest", 0, MAXW);
    let tot = wa + wb + wp + rest;
    mem_user(&mut w, MEM, "prop", wp);
    mem_user(&mut w, MEM, "alice", wa);
    mem_user(&mut w, MEM, "bob", wb);
    mem_total(&mut w, MEM, tot);
    let nn = 1 + choice("tokens", if kind == 2 { 2 } else { 1 });
    let dep = if kind == 2 { nn as u128 } else { u128_in("deposit", 1, MAXW) };
    let nfts: &[&str] = if nn == 1 { &["na"] } else { &["na", "nb"] };
    // somebody else's money the controller already holds
    let held = if kind == 2 { 1 } else { D0 };
    match kind {
        0 => {
            w.set_bal("prop", DENOM, dep);
            w.set_bal(CTL, DENOM, D0);
        }
        1 => {
            w.cw20_set(TOK, "prop", dep);
            w.cw20_set(TOK, CTL, D0);
        }
        _ => {
            for n in ["na", "nb"] {
                w.nft_set(NFT, n, "prop");
                w.nft_approve(NFT, n, &[CTL]);
            }
            w.nft_set(NFT, "nc", CTL);
        }
    }
    let owner = choice("owner", 2) == 1;
    let who = if owner { "owner" } else { "prop" };
    let acts = match choice("actions", 3) {
        0 => vec![fund_action(5)],
        1 => vec![bad_action()],
        _ => vec![],
    };
    let ok = create_with(&mut w, kind, "prop", dep, nfts, prop(acts, if owner { Some("owner") } else { None }));
    let may = match min {
        None => wp > 0,
        Some(m) => dep >= m,
    };
    check(ok == may, "a proposal needs the minimum deposit, or voting power where there is none");
    if !ok {
        check(bal(&w, kind, "prop") >= dep && bal(&w, kind, CTL) == held, "a refused proposal takes nothing");
        cover("refused");
        return;
    }
    check(bal(&w, kind, CTL) == held + dep, "deposit held while the proposal is open");
    let oa = choice("alice_vote", 5);
    let ob = if param("two_voters", 0) == 1 { choice("bob_vote", 5) } else { [4, 1, 0, 4, 3][oa as usize] };
    if oa < 4 {
        check(vote(&mut w, "alice", 1, oa as u8), "vote");
    }
    if ob < 4 {
        check(vote(&mut w, "bob", 1, ob as u8), "vote");
    }
    let late = !early || choice("late", 2) == 1;
    w.time = if late { T0 + 100 } else { T0 + 50 };
    let before = bal(&w, kind, who);
    let done = execute(&mut w, "bob", 1);
    let v = verdict(tally(oa, wa, ob, wb), ONE / 2, ONE / 2, veto, tot);
    if late {
        check(done, "an expired proposal is resolved");
    }
    if !done {
        check(bal(&w, kind, CTL) == held + dep, "deposit stays until the proposal is resolved");
        return;
    }
    check(bal(&w, kind, CTL) == held, "exactly the deposit leaves, once");
    let lost = or(not(v.quorum), v.vetoed);
    let back = bal(&w, kind, who) == before + dep;
    let conf = bal(&w, kind, TRE) == dep;
    check(iff(conf, lost), "confiscated exactly without quorum or when vetoed");
    check(iff(back, not(lost)), "returned to the deposit owner otherwise");
    if conf {
        cover("confiscated");
    }
    if back {
        cover("returned");
    }
    check(!execute(&mut w, "prop", 1) && bal(&w, kind, CTL) == held, "no second payout");
});

// C06: whose assets may be deposited.
entry!(ctl_nft_deposit, {
    let mut w = dao(2, gcfg(ONE / 2, ONE / 2, None, 100, Some(1), false), None);
    no_panic(true);
    mem_user(&mut w, MEM, "prop", 1);
    mem_total(&mut w, MEM, 1);
    let own = choice("owns", 2) == 1;
    let appr = choice("proposer_approved", 2) == 1;
    let ctl = choice("controller_approved", 2) == 1;
    let twice = choice("twice", 2) == 1;
    w.nft_set(NFT, "na", if own { "prop" } else { "victim" });
    let mut a = Vec::new();
    if appr {
        a.push("prop");
    }
    if ctl {
        a.push(CTL);
    }
    w.nft_approve(NFT, "na", &a);
    let t: &[&str] = if twice { &["na", "na"] } else { &["na"] };
    let ok = create_with(&mut w, 2, "prop", 1, t, prop(vec![], None));
    check(ok == ((own || appr) && ctl && !twice), "only tokens the proposer may move can be deposited");
    check((w.nft_owner(NFT, "na") == CTL) == ok, "token taken only by a successful deposit");
    cover(if ok { "deposited" } else { "refused" });
});

// C06: a deposit in anything but the DAO's own token is refused.
entry!(ctl_wrong_deposit, {
    let kind = choice("kind", 4);
    let min = if kind == 3 { None } else { Some(u128_in("minimum", 1, MAXW)) };
    let mut w = dao(kind, gcfg(ONE / 2, ONE / 2, None, 100, min, false), None);
    no_panic(true);
    mem_user(&mut w, MEM, "prop", 1);
    mem_total(&mut w, MEM, 1);
    let how = choice("how", 5);
    let dep = u128_in("deposit", 1, MAXW);
    w.add("fake", &CW20);
    w.cw20_set("fake", "prop", dep);
    w.cw20_set(TOK, "prop", dep);
    w.set_bal("prop", "uother", dep);
    w.nft_set(NFT, "na", "prop");
    w.nft_approve(NFT, "na", &[CTL]);
    let p = || prop(vec![], None);
    let hook = to_json_binary(&Cw20HookMsg::CreateProposal(p())).unwrap();
    let send = |amount: u128| cw20::Cw20ExecuteMsg::Send { contract: CTL.to_string(), amount: amount.into(), msg: hook.clone() };
    let ok = match how {
        0 => w.exec("prop", "fake", &send(dep), vec![]),
        1 => kind != 1 && w.exec("prop", TOK, &send(dep), vec![]),
        2 => kind != 2 && create_with(&mut w, 2, "prop", 1, &["na"], p()),
        3 => kind != 3 && create(&mut w, "prop", p(), vec![coin(dep, "uother")]),
        // a forged receive hook, without any transfer
        _ => w.exec(
            "prop",
            CTL,
            &ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: "prop".to_string(), amount: dep.into(), msg: hook.clone() }),
            vec![],
        ),
    };
    check(!ok, "a deposit counts only in the DAO's own asset");
    check(w.cw20_bal("fake", CTL) == 0 && w.cw20_bal(TOK, CTL) == 0 && w.bal(CTL, "uother") == 0, "nothing taken");
    cover("refused");
});

// C07: who can vote and create, and with what weight.
entry!(ctl_vote, {
    let kind = choice("kind", 4);
    let mut w = dao(kind, gcfg(ONE / 2, ONE / 2, None, 100, None, choice("early", 2) == 1), Some(council(None, ONE / 2, ONE / 2)));
    no_panic(true);
    let wv = u128_in("weight", 0, MAXW);
    let cv = u128_in("council_weight", 0, MAXW);
    mem_user(&mut w, MEM, "alice", 1);
    mem_user(&mut w, CNC, "alice", 1);
    mem_user(&mut w, MEM, "bob", wv);
    mem_user(&mut w, CNC, "bob", cv);
    mem_total(&mut w, MEM, 1 + wv);
    mem_total(&mut w, CNC, 1 + cv);
    check(create(&mut w, "alice", prop(vec![], None), vec![]), "general proposal");
    check(create_council(&mut w, "alice", prop(vec![], None)), "council proposal");
    let restricted = choice("restricted", 2) == 1;
    if restricted {
        restrict(&mut w, "bob");
    }
    let how = choice("how", 2);
    let id = 1 + choice("id", 3);
    let o = choice("outcome", 4) as u8;
    let earlier = param("revote", 1) == 1 && !restricted && kind == 0 && choice("earlier_vote", 2) == 1;
    if earlier {
        // an earlier vote with other weight and outcome
        mem_user(&mut w, MEM, "bob", 9);
        mem_user(&mut w, CNC, "bob", 9);
        vote(&mut w, "bob", 1, 2);
        vote_council(&mut w, "bob", 2, 2);
        mem_user(&mut w, MEM, "bob", wv);
        mem_user(&mut w, CNC, "bob", cv);
    }
    let ok = if how == 0 { vote(&mut w, "bob", id, o) } else { vote_council(&mut w, "bob", id, o) };
    let weight = if how == 0 { wv } else { cv };
    let right = id == how + 1;
    check(
        iff(ok, and(!restricted && right, weight > 0)),
        "only unrestricted members vote, on the matching kind of proposal",
    );
    for i in 1..3u64 {
        let v = gov_vote(&w, i, "bob");
        if ok && i == id {
            let v = v.unwrap();
            check(v.amount == weight && v.outcome == o, "the vote carries the voter's own weight");
            cover("voted");
        } else if earlier {
            let v = v.unwrap();
            check(v.amount == 9 && v.outcome == 2, "an earlier vote stands until changed");
        } else {
            check(v.is_none(), "no vote recorded otherwise");
            cover("none");
        }
        check(gov_vote(&w, i, "alice").is_none(), "nobody else's vote appears");
    }
});

pub fn types(i: u64) -> Option<Vec<ProposalActionType>> {
    use ProposalActionType::*;
    match i {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![UpdateMetadata]),
        3 => Some(vec![UpdateAssetWhitelist, DeployCrossChainTreasury]),
        _ => Some(vec![UpdateNftWhitelist, UpgradeDao, UpdateMetadata]),
    }
}
pub fn allowed(t: u64, a: u64) -> bool {
    match t {
        0 => a == 6,
        1 => false,
        2 => a == 0,
        3 => a == 3 || a == 13,
        _ => a == 4 || a == 6 || a == 0,
    }
}

// C07, C09: what the council may propose, and the rules its proposals run under.
entry!(ctl_council, {
    let kind = [0, 3][choice("kind", 2) as usize];
    let q = u128_in("quorum", 1, ONE);
    let t = u128_in("threshold", 1, ONE);
    let cq = u128_in("council_quorum", 1, ONE);
    let ct = u128_in("council_threshold", 1, ONE);
    let dur = u64_in("duration", 1, 1 << 31);
    let has = choice("has_council", 2) == 1;
    let ty = if has { choice("types", 5) } else { 0 };
    let mut w = dao(
        kind,
        gcfg(q, t, Some(ONE / 3), dur, None, false),
        if has { Some(council(types(ty), cq, ct)) } else { None },
    );
    no_panic(true);
    let wm = u128_in("weight", 0, MAXW);
    let wc = u128_in("council_weight", 0, MAXW);
    mem_user(&mut w, MEM, "alice", wm);
    mem_user(&mut w, CNC, "alice", wc);
    mem_total(&mut w, MEM, 5 + wm);
    mem_total(&mut w, CNC, 5 + wc);
    let restricted = choice("restricted", 2) == 1;
    if restricted {
        restrict(&mut w, "alice");
    }
    let a = choice("action", 15);
    let b = choice("second", 3);
    let mut acts = if a < 14 { vec![action(a, 1, false)] } else { vec![] };
    let second = [0, 6, 0][b as usize];
    if b > 0 {
        acts.push(action(second, 1, false));
    }
    let fine = (a == 14 || allowed(ty, a)) && (b == 0 || allowed(ty, second));
    let ok = create_council(&mut w, "alice", prop(acts, None));
    check(
        iff(ok, and(has && !restricted && fine, wc > 0)),
        "council proposals: unrestricted council members, allowed kinds of action only",
    );
    if ok {
        let p = gov_poll(&w, 1);
        check(p.quorum == Decimal::raw(cq) && p.threshold == Decimal::raw(ct), "council rules");
        check(p.veto_threshold == Some(Decimal::raw(ONE / 3)), "veto threshold of the DAO");
        check(p.ends_at == Timestamp::from_seconds(T0 + dur), "council voting period");
        check(matches!(proposal(&w, 1).unwrap().proposal.proposal_type, ProposalType::Council), "marked as council proposal");
        cover("council");
    }
    let id = if ok { 2 } else { 1 };
    let ok2 = create(&mut w, "alice", prop(vec![fund_action(1)], None), vec![]);
    check(iff(ok2, and(!restricted, wm > 0)), "general proposals: unrestricted members only");
    if ok2 {
        let p = gov_poll(&w, id);
        check(p.quorum == Decimal::raw(q) && p.threshold == Decimal::raw(t), "general rules");
        check(p.veto_threshold == Some(Decimal::raw(ONE / 3)), "veto threshold");
        check(p.ends_at == Timestamp::from_seconds(T0 + dur), "voting period");
        check(matches!(proposal(&w, id).unwrap().proposal.proposal_type, ProposalType::General), "marked as general");
        cover("general");
    }
});

// C07: a council proposal is decided by the council alone and executed under its rules.
entry!(ctl_council_execute, {
    let cq = u128_in("council_quorum", 1, ONE);
    let ct = u128_in("council_threshold", 1, ONE);
    let early = choice("early", 2) == 1;
    let vt = opt("veto", 1, ONE);
    let mut w = dao(0, gcfg(ONE, ONE, vt, 100, None, early), Some(council(types(2), cq, ct)));
    no_panic(true);
    let n = u128_in("members", 2, 1 << 32);
    mem_user(&mut w, CNC, "alice", 1);
    mem_user(&mut w, CNC, "bob", 1);
    mem_total(&mut w, CNC, n);
    mem_user(&mut w, MEM, "alice", 1000);
    mem_total(&mut w, MEM, 5000);
    check(create_council(&mut w, "alice", prop(vec![action(0, 1, false)], None)), "create");
    let oa = choice("alice_vote", 5);
    let ob = choice("bob_vote", 5);
    if oa < 4 {
        check(vote_council(&mut w, "alice", 1, oa as u8), "vote");
    }
    if ob < 4 {
        check(vote_council(&mut w, "bob", 1, ob as u8), "vote");
    }
    let te = u64_in("t", T0, TMAX);
    w.time = te;
    let since = w.log.len();
    let st = pstatus(&w, 1).unwrap().status;
    let ok = execute(&mut w, "carol", 1);
    let v = verdict(tally(oa, 1, ob, 1), cq, ct, vt.unwrap_or(ct), n);
    check(
        if te >= T0 + 100 {
            iff(matches!(st, ProposalStatus::Passed), v.passed) && matches!(st, ProposalStatus::Passed | ProposalStatus::Rejected)
        } else {
            implies(matches!(st, ProposalStatus::InProgressCanExecuteEarly), v.decided())
                && matches!(st, ProposalStatus::InProgressCanExecuteEarly | ProposalStatus::InProgress)
        },
        "status announced before execution is the outcome",
    );
    check(iff(ok, or(te >= T0 + 100, v.decided())), "council proposals end when decided or expired");
    let ran = count_to(&w, since, ENT) == 1;
    check(iff(ran, and(ok, v.passed)), "council action runs exactly when the council passed it");
    cover(if ran { "ran" } else { "not" });
});

// C07: at most ten actions; restricted users cannot execute either.
entry!(ctl_limits, {
    let mut w = dao(0, gcfg(ONE / 2, ONE / 2, None, 100, None, false), Some(council(types(2), ONE / 2, ONE / 2)));
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 1);
    mem_user(&mut w, CNC, "alice", 1);
    mem_total(&mut w, MEM, 1);
    let n = choice("actions", 13);
    let mut a = Vec::new();
    for _ in 0..n {
        a.push(action(0, 1, false));
    }
    let c = choice("council", 2) == 1;
    let ok = if c { create_council(&mut w, "alice", prop(a, None)) } else { create(&mut w, "alice", prop(a, None), vec![]) };
    check(ok == (n <= 10), "at most ten actions per proposal");
    if ok && !c {
        restrict(&mut w, "mallory");
        w.time = u64_in("t", T0, TMAX);
        check(!execute(&mut w, "mallory", 1), "restricted users cannot execute");
        cover("refused");
    }
});

pub fn changed(v: &[(&str, u128, u128)]) -> ExecuteMsg {
    let mut weight_changes = Vec::new();
    for (u, o, n) in v {
        weight_changes.push(UserWeightChange { user: u.to_string(), old_weight: (*o).into(), new_weight: (*n).into() });
    }
    ExecuteMsg::WeightsChanged(WeightsChangedMsg { weight_changes })
}

// C08: a reported weight change reaches every open vote and the rewards, and nothing else.
entry!(ctl_weights, {
    let mut w = dao(0, gcfg(ONE / 10, ONE / 2, None, 100, None, false), Some(council(types(2), ONE / 2, ONE / 2)));
    no_panic(true);
    let wa = u128_in("alice", 1, MAXW);
    let wb = u128_in("bob", 1, MAXW);
    mem_user(&mut w, MEM, "alice", wa);
    mem_user(&mut w, MEM, "bob", wb);
    mem_total(&mut w, MEM, wa + wb);
    let ca = u128_in("alice_council", 1, MAXW);
    mem_user(&mut w, CNC, "alice", ca);
    mem_total(&mut w, CNC, ca);
    let p = || prop(vec![fund_action(5)], None);
    check(create(&mut w, "alice", p(), vec![]), "p1");
    let o = choice("outcome", 4) as u8;
    check(vote(&mut w, "alice", 1, o), "v1");
    // proposal 1 is resolved before the change, 2 is open, 3 is a council proposal
    w.time = T0 + 100;
    check(execute(&mut w, "bob", 1), "resolve");
    check(create(&mut w, "alice", p(), vec![]), "p2");
    check(create_council(&mut w, "alice", prop(vec![], None)), "p3");
    check(vote(&mut w, "alice", 2, o), "v2");
    check(vote(&mut w, "bob", 2, 1), "v2b");
    check(vote_council(&mut w, "alice", 3, 0), "v3");
    let na = u128_in("alice_new", 0, MAXW);
    let nc = u128_in("carol_new", 0, MAXW);
    let who = addr_in("sender", 8);
    let who = who.as_str();
    let since = w.log.len();
    // the second change names another member, or the first one again
    let twice = choice("twice", 2) == 1;
    let msg = changed(&[("alice", wa, na), if twice { ("alice", na, nc) } else { ("carol", 0, nc) }]);
    let last = if twice { nc } else { na };
    let ok = w.exec(who, CTL, &msg, vec![]);
    check(ok == (who == MEM || who == CNC), "only the membership contracts report weights");
    let eff = who == MEM;
    let v = gov_vote(&w, 2, "alice").unwrap();
    check(v.outcome == o, "the choice is kept");
    check(v.amount == if eff { last } else { wa }, "open vote follows the weight");
    check(gov_vote(&w, 2, "bob").unwrap().amount == wb, "other voters unaffected");
    check(gov_vote(&w, 2, "carol").is_none(), "no vote appears");
    check(gov_vote(&w, 1, "alice").unwrap().amount == wa, "resolved proposals keep their votes");
    let r = gov_poll(&w, 2).results;
    let mut tot = z(0u128);
    for (_, x) in r.iter() {
        tot = tot + z(*x);
    }
    check(tot.eq(z(v.amount) + z(wb)), "tally follows");
    let c3 = gov_vote(&w, 3, "alice").unwrap();
    check(c3.outcome == 0, "council vote keeps its choice");
    if eff {
        check(c3.amount == ca, "a change of DAO weight leaves votes on council proposals alone");
    } else {
        check(c3.amount == ca, "votes on council proposals carry council weight");
    }
    let d = sent::<funds_distributor_api::msg::ExecuteMsg>(&w, since, CTL, DIST);
    check(d.len() == if eff { 1 } else { 0 }, "rewards informed once");
    if eff {
        match &d[0].0 {
            funds_distributor_api::msg::ExecuteMsg::UpdateUserWeights(m) => {
                let u = &m.new_user_weights;
                let (mut got_a, mut got_c) = (None, None);
                for x in u.iter() {
                    if x.user == "alice" {
                        got_a = Some(x.weight.u128());
                    } else {
                        check(x.user == "carol", "only the members reported");
                        got_c = Some(x.weight.u128());
                    }
                }
                check(got_a.is_some() && got_c.is_some() != twice, "every change forwarded");
                check(got_a.unwrap() == last, "the final weight forwarded as reported");
                check(twice || got_c.unwrap() == nc, "new weights forwarded as reported");
            }
            _ => check(false, "unexpected rewards message"),
        }
        cover("applied");
    } else {
        cover("ignored");
    }
});

pub fn opt(name: &str, lo: u128, hi: u128) -> Option<u128> {
    if choice(&format!("has_{}", name), 2) == 1 {
        Some(u128_in(name, lo, hi))
    } else {
        None
    }
}
pub fn valid_ratio(x: u128) -> bool {
    and(x > 0, x <= ONE)
}

// C09: no DAO starts with a configuration under which votes cannot work.
entry!(ctl_inst, {
    let kind = choice("kind", 4);
    let q = u128_in("quorum", 0, u128::MAX);
    let t = u128_in("threshold", 0, u128::MAX);
    let v = opt("veto", 0, u128::MAX);
    let dep = opt("deposit", 0, u128::MAX);
    let dur = u64_in("duration", 0, u64::MAX);
    let mut w = base(kind);
    no_panic(true);
    let c = choice("council", 5);
    let cq = u128_in("council_quorum", 0, u128::MAX);
    let ct = u128_in("council_threshold", 0, u128::MAX);
    let mut cfg = if c == 0 { None } else { Some(council(None, cq, ct)) };
    let mut cok = true;
    if let Some(s) = cfg.as_mut() {
        match c {
            2 => s.members = vec![],
            3 => {
                s.members = vec!["alice".to_string(), "bob".to_string(), "alice".to_string()];
                cok = false;
            }
            4 => {
                let (ty, ok) = atype(choice("type", 14));
                s.allowed_proposal_action_types = Some(vec![ProposalActionType::UpdateMetadata, ty]);
                cok = ok;
            }
            _ => {}
        }
    }
    let good = and(and(valid_ratio(q), valid_ratio(t)), dur > 0);
    let good = and(good, match v {
        Some(x) => valid_ratio(x),
        None => true,
    });
    let good = and(good, !(kind == 3 && dep.is_some()));
    let good = and(good, if c == 0 { true } else { and(cok, and(valid_ratio(cq), valid_ratio(ct))) });
    let ok = w.try_init("factory", CTL, &inst(kind, gcfg(q, t, v, dur, dep, false), cfg));
    check(iff(ok, good), "accepted exactly when the configuration is valid");
    if ok {
        let r = ctl_config(&w);
        let g = r.gov_config;
        check(
            g.quorum == Decimal::raw(q) && g.threshold == Decimal::raw(t) && g.veto_threshold == v.map(Decimal::raw)
                && g.vote_duration == dur && g.minimum_deposit == dep.map(Uint128::new),
            "stored as given",
        );
        check(r.council_gov_config.is_some() == (c != 0), "council stored");
        if c == 1 {
            let cc = r.council_gov_config.unwrap();
            check(
                cc.quorum == Decimal::raw(cq) && cc.threshold == Decimal::raw(ct)
                    && cc.allowed_proposal_action_types == vec![ProposalActionType::UpgradeDao],
                "council defaults to upgrades only",
            );
        }
        cover("accepted");
    } else {
        cover("refused");
    }
});
/// Kind of action and whether a council may be entrusted with it.
pub fn atype(i: u64) -> (ProposalActionType, bool) {
    use ProposalActionType::*;
    match i {
        0 => (UpdateMetadata, true),
        1 => (UpdateGovConfig, false),
        2 => (UpdateCouncil, false),
        3 => (UpdateAssetWhitelist, true),
        4 => (UpdateNftWhitelist, true),
        5 => (RequestFundingFromDao, false),
        6 => (UpgradeDao, true),
        7 => (ExecuteMsgs, false),
        8 => (ExecuteTreasuryMsgs, false),
        9 => (ExecuteEnterpriseMsgs, false),
        10 => (ModifyMultisigMembership, false),
        11 => (DistributeFunds, false),
        12 => (UpdateMinimumWeightForRewards, false),
        _ => (DeployCrossChainTreasury, true),
    }
}

/// One setting of the configuration changed in `m` and `g`; whether the new value is allowed.
fn set_one(which: u64, kind: u64, x: u128, d: u64, m: &mut UpdateGovConfigMsg, g: &mut GovConfig) -> bool {
    match which {
        0 => {
            m.quorum = Change(Decimal::raw(x));
            g.quorum = Decimal::raw(x);
            valid_ratio(x)
        }
        1 => {
            m.threshold = Change(Decimal::raw(x));
            g.threshold = Decimal::raw(x);
            valid_ratio(x)
        }
        2 => {
            let some = choice("some_veto", 2) == 1;
            g.veto_threshold = if some { Some(Decimal::raw(x)) } else { None };
            m.veto_threshold = Change(g.veto_threshold);
            if some { valid_ratio(x) } else { true }
        }
        3 => {
            m.voting_duration = Change(d.into());
            g.vote_duration = d;
            d > 0
        }
        4 => {
            let some = choice("some_deposit", 2) == 1;
            g.minimum_deposit = if some { Some(x.into()) } else { None };
            m.minimum_deposit = Change(g.minimum_deposit);
            !(some && kind == 3)
        }
        5 => {
            g.allow_early_proposal_execution = !g.allow_early_proposal_execution;
            m.allow_early_proposal_execution = Change(g.allow_early_proposal_execution);
            true
        }
        _ => true,
    }
}

// C09: configuration changes by vote keep the configuration valid and change only what they name.
entry!(ctl_config_change, {
    let kind = [0, 3][choice("kind", 2) as usize];
    let had = choice("had", 2) == 1;
    let cfg = gcfg(
        ONE / 2,
        ONE / 2,
        if had { Some(ONE / 3) } else { None },
        100,
        if had && kind == 0 { Some(3) } else { None },
        had,
    );
    let mut w = dao(kind, cfg.clone(), None);
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 10);
    mem_total(&mut w, MEM, 10);
    mem_user(&mut w, CNC, "alice", 0);
    let which = choice("which", 6);
    // another setting changed as well, or none (6)
    let other = which + 1 + choice("other", 6 - which);
    let un = u64_in("unlocking", 0, u64::MAX);
    let unlock = choice("unlock", 3);
    let mut m = cfg_change(NoChange, NoChange);
    let mut g = cfg.clone();
    let one = set_one(which, kind, u128_in("value", 0, u128::MAX), u64_in("duration", 0, u64::MAX), &mut m, &mut g);
    let two = set_one(other, kind, u128_in("value2", 0, u128::MAX), u64_in("duration2", 0, u64::MAX), &mut m, &mut g);
    let good = and(one, two);
    match unlock {
        1 => m.unlocking_period = Change(Duration::Time(un)),
        2 => m.unlocking_period = Change(Duration::Height(un)),
        _ => {}
    }
    let p = prop(vec![ProposalAction::UpdateGovConfig(m)], None);
    let funds = if had && kind == 0 { vec![coin(3, DENOM)] } else { vec![] };
    w.set_bal("alice", DENOM, 3);
    let ok = create(&mut w, "alice", p, funds);
    check(iff(ok, good), "an invalid configuration cannot be proposed");
    if !ok {
        cover("refused");
        return;
    }
    check(vote(&mut w, "alice", 1, 0), "vote");
    w.time = T0 + 100;
    let since = w.log.len();
    check(execute(&mut w, "bob", 1), "execute");
    let r = ctl_config(&w).gov_config;
    let applies = or(unlock != 1, un >= g.vote_duration);
    if applies {
        check(r == g, "exactly the named settings change");
        check(count_to(&w, since, MEM) == if unlock > 0 && kind == 0 { 1 } else { 0 }, "unlocking period forwarded");
        cover("applied");
    } else {
        check(r == cfg, "unlocking below the voting period is refused");
        check(count_to(&w, since, MEM) == 0, "nothing forwarded");
        cover("unlock_refused");
    }
});

// C09: changing the council by vote.
entry!(ctl_council_change, {
    let mut w = dao(0, gcfg(ONE / 2, ONE / 2, None, 100, None, false), if choice("had", 2) == 1 { Some(council(types(2), ONE / 2, ONE / 2)) } else { None });
    no_panic(true);
    mem_user(&mut w, MEM, "alice", 10);
    mem_total(&mut w, MEM, 10);
    let cq = u128_in("council_quorum", 0, u128::MAX);
    let ct = u128_in("council_threshold", 0, u128::MAX);
    let c = choice("council", 4);
    let mut good = true;
    let mut spec = council(None, cq, ct);
    let mut want = vec![ProposalActionType::UpgradeDao];
    match c {
        2 => {
            spec.members = vec!["bob".to_string(), "bob".to_string()];
            good = false;
        }
        3 => {
            let (ty, ok) = atype(choice("type", 14));
            want = vec![ProposalActionType::UpdateMetadata, ty];
            spec.allowed_proposal_action_types = Some(want.clone());
            good = ok;
        }
        _ => {}
    }
    let good = if c == 0 { true } else { and(good, and(valid_ratio(cq), valid_ratio(ct))) };
    let spec = if c == 0 { None } else { Some(spec) };
    let ok = create(&mut w, "alice", prop(vec![ProposalAction::UpdateCouncil(UpdateCouncilMsg { dao_council: spec })], None), vec![]);
    check(iff(ok, good), "an invalid council cannot be proposed");
    if !ok {
        cover("refused");
        return;
    }
    check(vote(&mut w, "alice", 1, 0), "vote");
    w.time = T0 + 100;
    let since = w.log.len();
    check(execute(&mut w, "bob", 1), "execute");
    let r = ctl_config(&w).council_gov_config;
    let s = sent::<multisig_membership_api::msg::ExecuteMsg>(&w, since, CTL, CNC);
    check(s.len() == 1, "council membership replaced");
    let n = match &s[0].0 {
        multisig_membership_api::msg::ExecuteMsg::SetMembers(m) => {
            check(m.new_members.iter().all(|u| u.weight == Uint128::one()), "one member, one vote");
            m.new_members.len()
        }
        _ => 99,
    };
    if c == 0 {
        check(r.is_none() && n == 0, "council removed");
        cover("removed");
    } else {
        let r = r.unwrap();
        check(r.quorum == Decimal::raw(cq) && r.threshold == Decimal::raw(ct), "council rules stored");
        check(r.allowed_proposal_action_types == want, "council powers stored");
        check(n == 2, "council members");
        cover("changed");
    }
});

// C27: the treasuries a DAO is created with are asked for by its creator, in the same block, once.
entry!(ctl_initial_treasuries, {
    let mut w = base(choice("kind", 4));
    no_panic(true);
    let i = w.idx(CTL).unwrap();
    w.cs[i].creator = FAC.to_string();
    w.time = u64_in("created", 1, 1 << 33);
    let n = choice("treasuries", 3);
    let mut l = Vec::new();
    for k in 0..n {
        let mut d = deploy();
        d.enterprise_treasury_code_id = 40 + k;
        l.push(d);
    }
    let mut m = inst(0, gcfg(1, 1, None, 10, None, false), None);
    m.initial_cross_chain_treasuries = if n == 0 && bool_in("none") { None } else { Some(l.clone()) };
    w.init(FAC, CTL, to_json_binary(&m).unwrap());
    let created = w.time;
    let first = attempt(&mut w, created, &l, "first");
    if first {
        attempt(&mut w, created, &[], "second");
    } else {
        attempt(&mut w, created, &l, "second");
    }
});
fn attempt(w: &mut World, created: u64, l: &[DeployCrossChainTreasuryMsg], name: &str) -> bool {
    let who = [FAC, CTL, ENT, GOV, OUT, "alice", "creator"][choice(name, 7) as usize];
    w.time = u64_in("time", w.time, 1 << 33);
    let since = w.log.len();
    let ok = w.exec(who, CTL, &ExecuteMsg::DeployInitialCrossChainTreasuries {}, vec![]);
    check(iff(ok, and(who == FAC, w.time == created)), "only by its creator and in the block it was created in");
    if ok {
        let got: Vec<(enterprise_outposts_api::msg::ExecuteMsg, Vec<Coin>)> = sent(w, since, CTL, OUT);
        check(got.len() == l.len() && w.log.len() == since + 1 + l.len(), "each treasury asked for once");
        let mut i = 0;
        while i < l.len() {
            check(got[i].0 == enterprise_outposts_api::msg::ExecuteMsg::DeployCrossChainTreasury(l[i].clone()), "exactly as requested");
            i += 1;
        }
        cover("asked");
    } else {
        check(w.log.len() == since, "nothing sent");
        cover("refused");
    }
    ok
}
