//! C35: proposals that contradict themselves or could never run are refused when made.
use crate::*;

fn setup(kind: u64) -> World {
    use ProposalActionType::*;
    let mut w = dao(
        kind,
        gcfg(ONE / 2, ONE / 2, None, 100, None, false),
        Some(council(Some(vec![UpdateMetadata, UpdateAssetWhitelist, UpdateNftWhitelist, UpgradeDao]), ONE / 2, ONE / 2)),
    );
    mem_user(&mut w, MEM, "alice", 1);
    mem_user(&mut w, CNC, "alice", 1);
    mem_total(&mut w, MEM, 1);
    mem_total(&mut w, CNC, 1);
    no_panic(true);
    w
}
/// Proposes the action alone, after a harmless one, or before one; as member or as council.
fn propose(w: &mut World, a: ProposalAction, pos: u64, by_council: bool) -> bool {
    let good = action(0, 1, false);
    let acts = match pos {
        0 => vec![a],
        1 => vec![good, a],
        _ => vec![a, good],
    };
    let ok = if by_council { create_council(w, "alice", prop(acts.clone(), None)) } else { create(w, "alice", prop(acts.clone(), None), vec![]) };
    if ok {
        check(proposal(w, 1).unwrap().proposal.proposal_actions == acts, "kept as proposed");
    } else {
        check(proposal(w, 1).is_none(), "nothing is left of a refused proposal");
    }
    ok
}

/// Names an asset: (kind, name, id, valid).
fn asset(i: u64) -> (AssetInfoUnchecked, bool) {
    match i {
        0 => (AssetInfoUnchecked::Native("aa".to_string()), true),
        1 => (AssetInfoUnchecked::Native("bb".to_string()), true),
        2 => (AssetInfoUnchecked::Cw20("aa".to_string()), true),
        3 => (AssetInfoUnchecked::Cw20("bb".to_string()), true),
        4 => (AssetInfoUnchecked::Cw20("BAD".to_string()), false),
        5 => (AssetInfoUnchecked::Cw1155("aa".to_string(), "1".to_string()), true),
        6 => (AssetInfoUnchecked::Cw1155("aa".to_string(), "2".to_string()), true),
        7 => (AssetInfoUnchecked::Cw1155("bb".to_string(), "1".to_string()), true),
        _ => (AssetInfoUnchecked::Cw1155("BAD".to_string(), "1".to_string()), false),
    }
}

entry!(val_assets, {
    let mut w = setup(0);
    let x = choice("x", 9);
    let y = choice("y", 9);
    let (ax, vx) = asset(x);
    let (ay, vy) = asset(y);
    let lists = choice("lists", 5);
    let (add, remove) = match lists {
        0 => (vec![ax, ay], vec![]),
        1 => (vec![], vec![ax, ay]),
        2 => (vec![ax], vec![ay]),
        3 => (vec![ax, AssetInfoUnchecked::Native("cc".to_string())], vec![AssetInfoUnchecked::Cw20("dd".to_string()), ay]),
        _ => (vec![ax], vec![ay]),
    };
    let rem = lists == 4;
    let ok = propose(
        &mut w,
        ProposalAction::UpdateAssetWhitelist(UpdateAssetWhitelistProposalActionMsg { remote_treasury_target: remote(rem), add, remove }),
        choice("pos", 2),
        choice("council", 2) == 1,
    );
    // Another chain's addresses are not judged by this chain's rules.
    // Multi-token contracts: the treasury knows none, so proposing one may well be refused.
    let multi = x > 4 || y > 4;
    let good = vx && vy && x != y;
    check(if rem || (multi && good) { ok || x == y || multi } else { ok == good }, "a whitelist change that repeats or contradicts itself or names no contract is refused");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

fn nft(i: u64) -> String {
    ["aa", "bb", "BAD"][i as usize].to_string()
}
entry!(val_nfts, {
    let mut w = setup(0);
    let x = choice("x", 3);
    let y = choice("y", 3);
    let lists = choice("lists", 5);
    let (add, remove) = match lists {
        0 => (vec![nft(x), nft(y)], vec![]),
        1 => (vec![], vec![nft(x), nft(y)]),
        2 => (vec![nft(x)], vec![nft(y)]),
        3 => (vec![nft(x), "cc".to_string()], vec!["dd".to_string(), nft(y)]),
        _ => (vec![nft(x)], vec![nft(y)]),
    };
    let rem = lists == 4;
    let ok = propose(
        &mut w,
        ProposalAction::UpdateNftWhitelist(UpdateNftWhitelistProposalActionMsg { remote_treasury_target: remote(rem), add, remove }),
        choice("pos", 3),
        choice("council", 2) == 1,
    );
    check(if rem { ok || x == y } else { ok == (x != 2 && y != 2 && x != y) }, "an NFT whitelist change that repeats or contradicts itself or names no contract is refused");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

entry!(val_upgrade, {
    let mut w = setup(0);
    let (a, b, c) = (u64_in("major", 0, u64::MAX), u64_in("minor", 0, u64::MAX), u64_in("patch", 0, u64::MAX));
    let later = or(a > 1, and(a == 1, or(b > 1, and(b == 1, c > 1))));
    let ok = propose(
        &mut w,
        ProposalAction::UpgradeDao(UpgradeDaoMsg { new_version: Version::new(a, b, c), migrate_msgs: vec![] }),
        choice("pos", 3),
        choice("council", 2) == 1,
    );
    check(iff(ok, later), "only upgrades to a later version can be proposed");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

fn text(i: u64) -> (Vec<String>, bool) {
    let good = SINK_MSG.to_string();
    let s = |x: &str| x.to_string();
    match i {
        0 => (vec![], true),
        1 => (vec![good.clone(), good], true),
        2 => (vec![s("")], false),
        3 => (vec![s("{}")], false),
        4 => (vec![good, s("not json")], false),
        5 => (vec![s(r#"{"wasm":{"execute":{"contract_addr":"sink","msg":"e30="}}}"#), good], false),
        6 => (vec![s(r#"{"bank":{"burn":{"amount":[]}}}"#)], true),
        _ => (vec![s(r#"{"wasm":{"execute":{"contract_addr":"sink","msg":"e30=","funds":[]}}"#)], false),
    }
}
entry!(val_msgs, {
    let mut w = setup(choice("kind", 4));
    let (msgs, good) = text(choice("text", 8));
    let t = "x".to_string();
    let a = match choice("action", 4) {
        0 => ProposalAction::ExecuteMsgs(ExecuteMsgsMsg { action_type: t, msgs }),
        1 => ProposalAction::ExecuteTreasuryMsgs(ExecuteTreasuryMsgsMsg { action_type: t, msgs, remote_treasury_target: None }),
        2 => ProposalAction::ExecuteTreasuryMsgs(ExecuteTreasuryMsgsMsg { action_type: t, msgs, remote_treasury_target: remote(true) }),
        _ => ProposalAction::ExecuteEnterpriseMsgs(ExecuteEnterpriseMsgsMsg { action_type: t, msgs }),
    };
    let ok = propose(&mut w, a, choice("pos", 3), false);
    check(ok == good, "texts that are no messages are refused");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

entry!(val_members, {
    let kind = choice("kind", 4);
    let mut w = setup(kind);
    let k = choice("len", 4) as usize;
    let pick = |s: &str, at: usize| if k >= at { choice(s, 4) as usize } else { 0 };
    let (x, y, v) = (pick("x", 1), pick("y", 2), pick("v", 3));
    let n = if k == 3 { ["aa", "bb", "cc", ""] } else { ["aa", "bb", "", "BAD"] };
    let (wx, wy) = (u128_in("wx", 0, u128::MAX), u128_in("wy", 0, u128::MAX));
    let m = |i: usize, w: u128| UserWeight { user: n[i].to_string(), weight: w.into() };
    let list = match k {
        0 => vec![],
        1 => vec![m(x, wx)],
        2 => vec![m(x, wx), m(y, wy)],
        _ => vec![m(x, wx), m(y, wy), m(v, wx)],
    };
    let ok = propose(&mut w, ProposalAction::ModifyMultisigMembership(ModifyMultisigMembershipMsg { edit_members: list }), choice("pos", 2), false);
    let valid = if k == 3 { 3 } else { 2 };
    let good = kind == 3
        && (k < 1 || x < valid)
        && (k < 2 || (y < valid && x != y))
        && (k < 3 || (v < valid && v != x && v != y));
    check(ok == good, "membership edits: multisig only, valid members, each once");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

entry!(val_funds, {
    let mut w = setup(choice("kind", 4));
    let amt = u128_in("amount", 0, u128::MAX);
    let items = |i: u64| -> (AssetUnchecked, bool) {
        match i {
            0 => (AssetUnchecked::native("uluna", amt), true),
            1 => (AssetUnchecked::cw20("aa", amt), true),
            2 => (AssetUnchecked::cw20("BAD", amt), false),
            _ => (AssetUnchecked::cw1155("aa", "1", amt), false),
        }
    };
    let (x, vx) = items(choice("x", 4));
    let (y, vy) = items(choice("y", 4));
    let (one, rcpt) = (choice("one", 2) == 1, choice("recipient", 3));
    let assets = if one { vec![x] } else { vec![x, y] };
    let fine = vx && (one || vy);
    let what = choice("what", 3);
    let recipient = ["carol", "", "BAD"][rcpt as usize].to_string();
    let pos = choice("pos", 2);
    let (ok, good) = match what {
        0 => (propose(&mut w, ProposalAction::DistributeFunds(DistributeFundsMsg { funds: assets }), pos, false), fine),
        1 => (
            propose(&mut w, ProposalAction::RequestFundingFromDao(RequestFundingFromDaoMsg { remote_treasury_target: None, recipient, assets }), pos, false),
            fine && rcpt == 0,
        ),
        _ => (
            propose(&mut w, ProposalAction::RequestFundingFromDao(RequestFundingFromDaoMsg { remote_treasury_target: remote(true), recipient, assets }), pos, false),
            true,
        ),
    };
    check(ok == good, "payments of assets that cannot be paid or to nobody are refused");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});

entry!(val_council, {
    let mut w = setup(choice("kind", 2) * 3);
    let n = ["aa", "bb", "BAD"];
    let (x, y) = (choice("x", 3) as usize, choice("y", 3) as usize);
    let (q, t) = (u128_in("quorum", 0, u128::MAX), u128_in("threshold", 0, u128::MAX));
    let spec = DaoCouncilSpec {
        members: vec!["cc".to_string(), n[x].to_string(), n[y].to_string()],
        quorum: Decimal::raw(q),
        threshold: Decimal::raw(t),
        allowed_proposal_action_types: None,
    };
    let ok = propose(&mut w, ProposalAction::UpdateCouncil(UpdateCouncilMsg { dao_council: Some(spec) }), choice("pos", 3), false);
    let ratio = |v: u128| and(v > 0, v <= ONE);
    check(iff(ok, and(x != y && x < 2 && y < 2, and(ratio(q), ratio(t)))), "councils: valid members, each once, valid rules");
    if ok {
        cover("accepted");
    } else {
        cover("refused");
    }
});
