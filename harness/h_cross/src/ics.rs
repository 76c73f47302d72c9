//! NFTs staked straight from another chain.
use crate::*;
use cw_utils::Duration;
use ics721_callback_proxy_api::msg::{ExecuteMsg as IX, Ics721HookMsg};
use ics721_types::ibc_types::NonFungibleTokenPacketData;
use ics721_types::token_types::{ClassId, TokenId};
use ics721_types::types::Ics721ReceiveCallbackMsg;
use membership_common_api::api::*;
use nft_staking_api::api as na;
use nft_staking_api::msg as nm;

code!(
    PROXY,
    ics721_callback_proxy::contract,
    ics721_callback_proxy_api::msg::InstantiateMsg,
    ics721_callback_proxy_api::msg::ExecuteMsg,
    ics721_callback_proxy_api::msg::QueryMsg
);
code!(
    NSTAKE,
    nft_staking_membership::contract,
    nft_staking_api::msg::InstantiateMsg,
    nft_staking_api::msg::ExecuteMsg,
    nft_staking_api::msg::QueryMsg
);
pub const CBP: &str = "cbproxy";
pub const ICS: &str = "ics";
pub const MEM2: &str = "memb";
pub const IDS: [&str; 3] = ["T1", "t01", "t1"];

fn staked(w: &World, m: &str, u: &str) -> Vec<String> {
    let r: na::UserNftStakeResponse =
        w.query(m, &nm::QueryMsg::UserStake(na::UserNftStakeParams { user: u.to_string(), start_after: None, limit: None })).unwrap();
    check(r.total_user_stake.u128() == r.tokens.len() as u128, "weight is the number of tokens");
    r.tokens
}
fn weight(w: &World, m: &str, u: &str) -> u128 {
    let r: UserWeightResponse = w.query(m, &nm::QueryMsg::UserWeight(UserWeightParams { user: u.to_string() })).unwrap();
    r.weight.u128()
}

// C28: NFTs that arrive with a stake order are staked for the user named, all or none.
entry!(ics_stake, {
    no_panic(true);
    let mut w = World::new();
    w.add(ENT, &ENTERPRISE);
    w.add(CTL, &SINK);
    w.add(ICS, &SINK);
    w.add(NFT, &CW721);
    w.add("nft2", &CW721);
    w.add(CBP, &PROXY);
    for m in [MEM, MEM2] {
        w.add(m, &NSTAKE);
        w.init(
            FAC,
            m,
            to_json_binary(&nm::InstantiateMsg {
                enterprise_contract: ENT.to_string(),
                nft_contract: na::NftContract::Cw721 { contract: NFT.to_string() },
                unlocking_period: Duration::Time(10),
                weight_change_hooks: None,
                total_weight_by_height_checkpoints: None,
                total_weight_by_seconds_checkpoints: None,
            })
            .unwrap(),
        );
    }
    w.init("creator", CBP, to_json_binary(&ics721_callback_proxy_api::msg::InstantiateMsg { ics721_proxy: ICS.to_string() }).unwrap());
    let cfg: ics721_callback_proxy_api::api::ConfigResponse = w.query(CBP, &ics721_callback_proxy_api::msg::QueryMsg::Config {}).unwrap();
    check(cfg.ics721_proxy == ICS, "configured proxy");
    // who holds each token, of either collection, and what is already staked
    let mut owned = [false; 3];
    let mut i = 0;
    while i < 3 {
        owned[i] = bool_in("arrived");
        w.nft_set(NFT, IDS[i], if owned[i] { CBP } else { "carol" });
        w.nft_set("nft2", IDS[i], CBP);
        i += 1;
    }
    w.nft_set(NFT, "td", "bob");
    let msg = to_json_binary(&nm::Cw721HookMsg::Stake { user: "bob".to_string() }).unwrap();
    check(w.exec("bob", NFT, &cw721::Cw721ExecuteMsg::SendNft { contract: MEM.to_string(), token_id: "td".to_string(), msg }, vec![]), "staked before");

    let lists: [&[usize]; 7] = [&[], &[0], &[1], &[0, 1], &[2, 0, 1], &[0, 0], &[1, 2]];
    let list = lists[choice("tokens", 7) as usize];
    let mut token_ids = Vec::new();
    for t in list {
        token_ids.push(TokenId::new(IDS[*t]));
    }
    let user = ["alice", "bob"][choice("user", 2) as usize];
    let to = [MEM, MEM2][choice("membership", 2) as usize];
    let coll = [NFT, "nft2"][choice("collection", 2) as usize];
    let known = choice("hook", 2) == 0;
    let hook = if known {
        to_json_binary(&Ics721HookMsg::Stake { user: user.to_string(), membership_contract: to.to_string() }).unwrap()
    } else {
        to_json_binary(&Empty {}).unwrap()
    };
    let by = addr_in("sender", 6);
    let by = by.as_str();
    let m = IX::Ics721ReceiveCallback(Ics721ReceiveCallbackMsg {
        nft_contract: coll.to_string(),
        original_packet: NonFungibleTokenPacketData {
            class_id: ClassId::new("class"),
            class_uri: None,
            class_data: None,
            token_ids,
            token_uris: None,
            token_data: None,
            sender: "far".to_string(),
            receiver: CBP.to_string(),
            memo: None,
        },
        msg: hook,
    });
    let since = w.log.len();
    let ok = w.exec(by, CBP, &m, vec![]);
    let mut all = true;
    let mut twice = false;
    let mut seen = [false; 3];
    for t in list {
        all = all && owned[*t];
        twice = twice || seen[*t];
        seen[*t] = true;
    }
    let fits = list.is_empty() || (coll == NFT && all && !twice);
    check(ok == (by == ICS && (!known || fits)), "accepted from the ICS721 proxy where every token can be staked");
    let done = ok && known;
    if !done {
        check(w.log.len() <= since + 1, "nothing sent");
        cover("nothing");
    } else {
        cover("staked");
    }
    // the members
    for m in [MEM, MEM2] {
        for u in ["alice", "bob", CBP, ICS] {
            let mut want: Vec<String> = Vec::new();
            if done && m == to && u == user {
                for k in 0..3 {
                    if seen[k] {
                        want.push(IDS[k].to_string());
                    }
                }
            }
            if m == MEM && u == "bob" {
                want.push("td".to_string());
            }
            let got = staked(&w, m, u);
            check(weight(&w, m, u) == want.len() as u128, "weight of each member");
            check(got.len() == want.len(), "exactly the arrived tokens are staked");
            for x in &want {
                check(got.contains(x), "staked for the user named");
            }
        }
    }
    for k in 0..3 {
        let o = w.nft_owner(NFT, IDS[k]);
        let want = if done && seen[k] { to } else if owned[k] { CBP } else { "carol" };
        check(o == want, "tokens move only by staking");
        check(w.nft_owner("nft2", IDS[k]) == CBP, "other collections stay");
    }
});
