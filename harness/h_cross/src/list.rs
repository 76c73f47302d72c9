//! C36: remote treasuries, from any chain on, as many as asked for.
use crate::*;

fn limit_in() -> Option<u32> {
    if bool_in("limited") {
        Some(u64_in("limit", 0, u32::MAX as u64) as u32)
    } else {
        None
    }
}
pub fn last_request(w: &World) -> u32 {
    match &w.log[w.log.len() - 1].1 {
        CosmosMsg::Stargate { value, .. } => {
            let t = Transfer::decode(value.as_slice()).unwrap();
            let memo: Memo = serde_json_wasm::from_str(&t.memo).unwrap();
            memo.wasm.msg.execute_msgs.msgs[0].reply_callback.as_ref().unwrap().callback_id
        }
        _ => panic!(),
    }
}
pub fn answer(w: &mut World, addr: &str) -> bool {
    let callback_id = last_request(w);
    let m = ExecuteMsgReplyCallbackMsg { callback_id, events: vec![], data: Some(reply_data(addr)) };
    w.exec(CHAINS[0].caller, OUT, &X::ExecuteMsgReplyCallback(m), vec![])
}

entry!(lst_chains, {
    let mut w = world();
    let ids = ["1", "10", "2", "b"];
    let n = 2 + choice("more", 3) as usize;
    for i in [2usize, 0, 3, 1] {
        if i < n {
            let mut s = spec(0, None);
            s.chain_id = ids[i].to_string();
            let d = X::DeployCrossChainTreasury(DeployCrossChainTreasuryMsg {
                cross_chain_msg_spec: s,
                asset_whitelist: None,
                nft_whitelist: None,
                ics_proxy_code_id: 1,
                enterprise_treasury_code_id: 2,
                chain_global_proxy: CHAINS[0].global.to_string(),
            });
            check(w.exec(CTL, OUT, &d, vec![]), "deployment asked for");
            check(answer(&mut w, ["p0", "p1", "p2", "p3"][i]) && answer(&mut w, ["t0", "t1", "t2", "t3"][i]), "deployed");
        }
    }
    no_panic(true);
    let start = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
    let limit = limit_in();
    let r = treasuries(&w, start.as_deref(), limit);
    let mut want = Vec::new();
    for i in 0..n {
        let past = match &start {
            Some(s) => *ids[i] > **s,
            None => true,
        };
        if past {
            if let Some(l) = limit {
                if split(l as u64 <= want.len() as u64) {
                    break;
                }
            }
            want.push(i);
        }
    }
    check(r.len() == want.len(), "as many as asked for and there are");
    let mut k = 0;
    while k < want.len() && k < r.len() {
        check(r[k].chain_id == ids[want[k]] && r[k].treasury_addr == ["t0", "t1", "t2", "t3"][want[k]], "each chain with its treasury, in order");
        k += 1;
    }
    cover("listed");
});
