//! Treasuries on other chains, and NFTs arriving from them.
use cosmwasm_std::*;
use enterprise_outposts_api::api::*;
use enterprise_outposts_api::msg::{ExecuteMsg as X, InstantiateMsg, QueryMsg as Q};
use enterprise_treasury_api::api::{SetAdminMsg, SpendMsg};
use enterprise_treasury_api::msg::ExecuteMsg as TX;
use prost::Message;
use serde::Deserialize;
use stubs::*;
use symrt::chain::*;
use symrt::*;
pub mod ics;
pub mod list;

code!(
    OUTPOSTS,
    enterprise_outposts::contract,
    enterprise_outposts_api::msg::InstantiateMsg,
    enterprise_outposts_api::msg::ExecuteMsg,
    enterprise_outposts_api::msg::QueryMsg
);

// ---- what the other side understands ----
#[derive(Clone, PartialEq, prost::Message)]
pub struct Token {
    #[prost(string, tag = "1")]
    pub denom: String,
    #[prost(string, tag = "2")]
    pub amount: String,
}
#[derive(Clone, PartialEq, prost::Message)]
pub struct Transfer {
    #[prost(string, tag = "1")]
    pub source_port: String,
    #[prost(string, tag = "2")]
    pub source_channel: String,
    #[prost(message, tag = "3")]
    pub token: Option<Token>,
    #[prost(string, tag = "4")]
    pub sender: String,
    #[prost(string, tag = "5")]
    pub receiver: String,
    #[prost(uint64, tag = "7")]
    pub timeout_timestamp: u64,
    #[prost(string, tag = "8")]
    pub memo: String,
}
#[derive(Deserialize)]
pub struct Memo {
    pub wasm: MemoWasm,
}
#[derive(Deserialize)]
pub struct MemoWasm {
    pub contract: String,
    pub msg: MemoExec,
}
#[derive(Deserialize)]
pub struct MemoExec {
    pub execute_msgs: MemoMsgs,
}
#[derive(Deserialize)]
pub struct MemoMsgs {
    pub msgs: Vec<MemoMsg>,
}
#[derive(Deserialize)]
pub struct MemoMsg {
    pub msg: CosmosMsg,
    pub reply_callback: Option<Callback>,
}
#[derive(Deserialize)]
pub struct Callback {
    pub callback_id: u32,
    pub ibc_port: String,
    pub ibc_channel: String,
    pub denom: String,
    pub receiver: Option<String>,
}
#[derive(Deserialize)]
pub struct ProxyInit {
    pub allow_cross_chain_msgs: bool,
    pub owner: Option<String>,
}

// ---- two remote chains ----
pub struct Chain {
    pub id: &'static str,
    pub prefix: &'static str,
    pub src: &'static str,
    pub dst: &'static str,
    pub global: &'static str,
    /// who a message of the global proxy appears to come from here (IBC hooks' rule, computed independently)
    pub caller: &'static str,
    /// who the outposts contract appears to be there
    pub owner: &'static str,
    pub proxy_code: u64,
    pub treasury_code: u64,
}
pub const CHAINS: [Chain; 2] = [
    Chain {
        id: "chain-a",
        prefix: "ca",
        src: "channel-10",
        dst: "channel-20",
        global: "gproxya",
        caller: "terra1pkxdy6zz2zku3fky6yh2ccnlgjulpmrjh8q635r3v5gv9xkewjfqysssd3",
        owner: "ca1z6ckmt2mgur23vqmv7dtnt464yufa58sr6fnw9d39lugs0y33mzq430z2t",
        proxy_code: 31,
        treasury_code: 41,
    },
    Chain {
        id: "chain-b",
        prefix: "cb",
        src: "channel-11",
        dst: "channel-21",
        global: "gproxyb",
        caller: "terra17km0g4kdchhh2dzvlvvfvpr8dfgzxa3aj0n2ym89qwne00gz2vqshvjhg9",
        owner: "cb1gumgumsrn6p0wmhlqtswjlypksq3zgtkrnwycue6e09nzed59txq7yxhcs",
        proxy_code: 32,
        treasury_code: 42,
    },
];
/// The global proxy of the first chain over the wrong channels, and the second one's over the first's.
pub const OTHERS: [&str; 3] = [
    "terra1ast59fyv4wly3vn2j5mmnsq8qewp2nz6v8sanu2clv4xmn5mcgjsrshq42",
    "terra1zs43kl2e7nvmwfexnk4p5mq6t2jll0mxyg2pe8pyckvsq92wu3dqcrcefw",
    "terra1tjpthk8gw376z8cu3dszzr78zv06lv4tnqraxe6tkj0ef0ak4k7sa3ps9r",
];
pub fn spec(c: usize, timeout: Option<u64>) -> CrossChainMsgSpec {
    let x = &CHAINS[c];
    CrossChainMsgSpec {
        chain_id: x.id.to_string(),
        chain_bech32_prefix: x.prefix.to_string(),
        src_ibc_port: "transfer".to_string(),
        src_ibc_channel: x.src.to_string(),
        dest_ibc_port: "transfer2".to_string(),
        dest_ibc_channel: x.dst.to_string(),
        uluna_denom: "ibc/luna".to_string(),
        timeout_nanos: timeout,
    }
}
pub fn deploy(c: usize, timeout: Option<u64>) -> X {
    X::DeployCrossChainTreasury(DeployCrossChainTreasuryMsg {
        cross_chain_msg_spec: spec(c, timeout),
        asset_whitelist: Some(vec![cw_asset::AssetInfoUnchecked::native("ux")]),
        nft_whitelist: Some(vec!["nftx".to_string()]),
        ics_proxy_code_id: CHAINS[c].proxy_code,
        enterprise_treasury_code_id: CHAINS[c].treasury_code,
        chain_global_proxy: CHAINS[c].global.to_string(),
    })
}
pub fn order(k: u64) -> TX {
    if k == 0 {
        TX::Spend(SpendMsg { recipient: "rec".to_string(), assets: vec![cw_asset::AssetUnchecked::native("ux", 5u128)] })
    } else {
        TX::SetAdmin(SetAdminMsg { new_admin: "na".to_string() })
    }
}
pub fn remote(c: usize, k: u64, timeout: Option<u64>) -> X {
    X::ExecuteCrossChainTreasury(ExecuteCrossChainTreasuryMsg {
        msg: order(k),
        treasury_target: RemoteTreasuryTarget { cross_chain_msg_spec: spec(c, timeout) },
    })
}
pub fn reply_data(addr: &str) -> Binary {
    let mut data = vec![0x0a, addr.len() as u8];
    data.extend_from_slice(addr.as_bytes());
    Binary::from(data)
}
pub fn world() -> World {
    let mut w = World::new();
    w.add(ENT, &ENTERPRISE);
    w.add(CTL, &SINK);
    w.add(OUT, &OUTPOSTS);
    w.init(FAC, OUT, to_json_binary(&InstantiateMsg { enterprise_contract: ENT.to_string() }).unwrap());
    w
}
pub fn deployed(w: &World, c: usize) -> (Option<String>, Option<String>) {
    let r: CrossChainDeploymentsResponse =
        w.query(OUT, &Q::CrossChainDeployments(CrossChainDeploymentsParams { chain_id: CHAINS[c].id.to_string() })).unwrap();
    check(r.chain_id == CHAINS[c].id, "of the chain asked for");
    (r.proxy_addr, r.treasury_addr)
}
fn treasuries(w: &World, start: Option<&str>, limit: Option<u32>) -> Vec<CrossChainTreasury> {
    let r: CrossChainTreasuriesResponse =
        w.query(OUT, &Q::CrossChainTreasuries(CrossChainTreasuriesParams { start_after: start.map(|s| s.to_string()), limit })).unwrap();
    r.treasuries
}
/// The one transfer sent after `since`, addressed as it must be.
fn transfer(w: &World, since: usize, c: usize, to: &str, timeout: Option<u64>) -> MemoMsg {
    check(w.log.len() == since + 2, "one message sent");
    let (from, m) = &w.log[since + 1];
    check(from == OUT, "by the outposts contract");
    let t = match m {
        CosmosMsg::Stargate { type_url, value } => {
            check(type_url == "/ibc.applications.transfer.v1.MsgTransfer", "an IBC transfer");
            Transfer::decode(value.as_slice()).unwrap()
        }
        _ => {
            check(false, "an IBC transfer");
            panic!()
        }
    };
    check(t.source_port == "transfer" && t.source_channel == CHAINS[c].src, "over the chain's channel");
    check(t.sender == OUT && t.receiver == to, "to the proxy on that chain");
    check(t.token == Some(Token { denom: "uluna".to_string(), amount: "1".to_string() }), "with one uluna");
    let wait = timeout.unwrap_or(900_000_000_000);
    check(t.timeout_timestamp == w.time * 1_000_000_000 + wait, "with the timeout asked for");
    let memo: Memo = serde_json_wasm::from_str(&t.memo).unwrap();
    check(memo.wasm.contract == to, "the hook calls the proxy");
    let mut l = memo.wasm.msg.execute_msgs.msgs;
    check(l.len() == 1, "one message inside");
    l.remove(0)
}
fn callback_ok(m: &MemoMsg, c: usize) -> u32 {
    match &m.reply_callback {
        Some(r) => {
            check(r.ibc_port == "transfer2" && r.ibc_channel == CHAINS[c].dst && r.denom == "ibc/luna", "answers come back the same way");
            check(r.receiver.as_deref() == Some(OUT), "answers come back here");
            r.callback_id
        }
        None => {
            check(false, "an answer is asked for");
            0
        }
    }
}
fn proxy_request(w: &World, since: usize, c: usize, timeout: Option<u64>) -> u32 {
    let m = transfer(w, since, c, CHAINS[c].global, timeout);
    match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, .. }) => {
            check(*code_id == CHAINS[c].proxy_code && funds.is_empty(), "a proxy is created");
            let p: ProxyInit = from_json(msg).unwrap();
            check(p.allow_cross_chain_msgs && p.owner.as_deref() == Some(CHAINS[c].owner), "owned by this DAO's outposts contract");
        }
        _ => check(false, "a proxy is created"),
    }
    callback_ok(&m, c)
}
fn treasury_request(w: &World, since: usize, c: usize, proxy: &str, timeout: Option<u64>) -> u32 {
    let m = transfer(w, since, c, CHAINS[c].global, timeout);
    match &m.msg {
        CosmosMsg::Wasm(WasmMsg::Instantiate { code_id, msg, funds, admin, .. }) => {
            check(*code_id == CHAINS[c].treasury_code && funds.is_empty(), "a treasury is created");
            check(admin.as_deref() == Some(proxy), "the proxy can migrate it");
            let p: enterprise_treasury_api::msg::InstantiateMsg = from_json(msg).unwrap();
            check(p.admin == proxy, "the proxy commands it");
            check(
                p.asset_whitelist == Some(vec![cw_asset::AssetInfoUnchecked::native("ux")]) && p.nft_whitelist == Some(vec!["nftx".to_string()]),
                "with the whitelists asked for",
            );
        }
        _ => check(false, "a treasury is created"),
    }
    callback_ok(&m, c)
}

#[derive(Clone, Copy)]
struct Pending {
    id: u32,
    chain: usize,
    treasury: bool,
    /// index of the proxy it belongs to
    timeout: Option<u64>,
}

// C27: any history of deployments, answers and orders.
entry!(out_history, {
    no_panic(true);
    let mut w = world();
    let names = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"];
    let mut pending: Vec<Pending> = Vec::new();
    let mut proxy: [Option<String>; 2] = [None, None];
    let mut treasury: [Option<String>; 2] = [None, None];
    let mut used: Vec<u32> = Vec::new();
    let steps = param("steps", 4);
    let mut k = 0;
    while k < steps {
        let last = k + 1 == steps;
        let since = w.log.len();
        w.time += 7;
        let timeout = if k == 0 { None } else { Some(1000 + k) };
        match if k == 0 { 0 } else { choice("op", 3) } {
            0 => {
                let c = choice("chain", 2) as usize;
                let ok = w.exec(CTL, OUT, &deploy(c, timeout), vec![]);
                check(ok == treasury[c].is_none(), "at most one treasury per chain");
                if ok {
                    let id = match &proxy[c] {
                        None => {
                            let id = proxy_request(&w, since, c, timeout);
                            pending.push(Pending { id, chain: c, treasury: false, timeout });
                            id
                        }
                        Some(p) => {
                            let id = treasury_request(&w, since, c, p, timeout);
                            pending.push(Pending { id, chain: c, treasury: true, timeout });
                            id
                        }
                    };
                    for u in &used {
                        check(*u != id, "every request has its own number");
                    }
                    used.push(id);
                    cover("deploying");
                }
            }
            1 => {
                let (id, by) = if last {
                    let id = u64_in("callback", 0, u32::MAX as u64) as u32;
                    let by = [CHAINS[0].caller, CHAINS[1].caller, OTHERS[0], OTHERS[1], OTHERS[2], CTL, "gproxya", "alice"]
                        [choice("sender", 8) as usize];
                    (id, by)
                } else if pending.is_empty() {
                    k += 1;
                    continue;
                } else {
                    let p = pending[choice("answered", pending.len() as u64) as usize];
                    (p.id, CHAINS[p.chain].caller)
                };
                let data = if last && bool_in("no_data") { None } else { Some(reply_data(names[k as usize])) };
                let has = data.is_some();
                let ok = w.exec(by, OUT, &X::ExecuteMsgReplyCallback(ExecuteMsgReplyCallbackMsg { callback_id: id, events: vec![], data }), vec![]);
                let mut hit = None;
                let mut i = 0;
                while i < pending.len() {
                    if pending[i].id == id {
                        hit = Some(i);
                    }
                    i += 1;
                }
                let may = match hit {
                    None => false,
                    Some(i) => {
                        let p = pending[i];
                        let free = if p.treasury { treasury[p.chain].is_none() } else { proxy[p.chain].is_none() };
                        by == CHAINS[p.chain].caller && free && has
                    }
                };
                check(ok == may, "an answer counts once, from the chain that was asked, and replaces nothing");
                if ok {
                    let p = pending.remove(hit.unwrap());
                    let name = names[k as usize];
                    if p.treasury {
                        treasury[p.chain] = Some(name.to_string());
                        check(w.log.len() == since + 1, "nothing more to send");
                        cover("treasury");
                    } else {
                        proxy[p.chain] = Some(name.to_string());
                        let id = treasury_request(&w, since, p.chain, name, p.timeout);
                        for u in &used {
                            check(*u != id, "every request has its own number");
                        }
                        used.push(id);
                        pending.push(Pending { id, chain: p.chain, treasury: true, timeout: p.timeout });
                        cover("proxy");
                    }
                }
            }
            _ => {
                let c = choice("chain", 2) as usize;
                let o = if last { choice("order", 2) } else { 0 };
                let ok = w.exec(CTL, OUT, &remote(c, o, timeout), vec![]);
                check(ok == (proxy[c].is_some() && treasury[c].is_some()), "orders go out once the treasury stands");
                if ok {
                    let m = transfer(&w, since, c, proxy[c].as_ref().unwrap(), timeout);
                    check(m.reply_callback.is_none(), "no answer asked for");
                    match &m.msg {
                        CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                            check(Some(contract_addr) == treasury[c].as_ref(), "to that chain's treasury");
                            check(funds.is_empty(), "without funds");
                            let got: TX = from_json(msg).unwrap();
                            check(got == order(o), "exactly the order given");
                        }
                        _ => check(false, "an order"),
                    }
                    cover("order");
                }
            }
        }
        for c in 0..2 {
            check(deployed(&w, c) == (proxy[c].clone(), treasury[c].clone()), "what is deployed where");
        }
        k += 1;
    }
    let mut want = Vec::new();
    for c in 0..2 {
        if let Some(t) = &treasury[c] {
            want.push(CrossChainTreasury { chain_id: CHAINS[c].id.to_string(), treasury_addr: t.clone() });
        }
    }
    check(treasuries(&w, None, None) == want, "every treasury listed");
    if !want.is_empty() {
        check(treasuries(&w, None, Some(1)) == want[..1].to_vec(), "first page");
        check(treasuries(&w, Some(&want[0].chain_id), Some(1)) == want[1..].to_vec(), "next page");
    }
});

// C27: a message waits exactly as long as asked for.
entry!(out_timeout, {
    no_panic(true);
    let w = world();
    let time = u64_in("time", 1, 1 << 32);
    let timeout = if bool_in("own_timeout") { Some(u64_in("timeout", 0, 1 << 61)) } else { None };
    let op = choice("op", 3);
    let sent_with = |time: u64, timeout: Option<u64>, ids: &mut Vec<u32>| -> Vec<u8> {
        let first = ids.is_empty();
        let mut w = w.clone();
        w.time = time;
        check(w.exec(CTL, OUT, &deploy(0, timeout), vec![]), "deploying");
        if first {
            ids.push(proxy_request(&w, w.log.len() - 2, 0, timeout));
        }
        let a = |id: u32, n: &str| {
            X::ExecuteMsgReplyCallback(ExecuteMsgReplyCallbackMsg { callback_id: id, events: vec![], data: Some(reply_data(n)) })
        };
        if op > 0 {
            check(w.exec(CHAINS[0].caller, OUT, &a(ids[0], "px"), vec![]), "proxy");
        }
        if op > 1 {
            if first {
                ids.push(treasury_request(&w, w.log.len() - 2, 0, "px", timeout));
            }
            check(w.exec(CHAINS[0].caller, OUT, &a(ids[1], "tx"), vec![]), "treasury");
            check(w.exec(CTL, OUT, &remote(0, 0, timeout), vec![]), "ordered");
        }
        match &w.log[w.log.len() - 1].1 {
            CosmosMsg::Stargate { value, .. } => value.to_vec(),
            _ => {
                check(false, "an IBC transfer");
                vec![]
            }
        }
    };
    // the same message at another time, and what it must look like at this one
    let mut ids = Vec::new();
    let mut m = Transfer::decode(sent_with(1000, Some(5), &mut ids).as_slice()).unwrap();
    check(m.timeout_timestamp == 1_000_000_000_005, "with the timeout asked for");
    m.timeout_timestamp = time * 1_000_000_000 + timeout.unwrap_or(900_000_000_000);
    let got = sent_with(time, timeout, &mut ids);
    check(got == m.encode_to_vec(), "waits as long as asked for");
    cover("sent");
});

// C27: only governance.
entry!(out_auth, {
    no_panic(true);
    let mut w = world();
    let stage = choice("stage", 3);
    if stage > 0 {
        check(w.exec(CTL, OUT, &deploy(0, None), vec![]), "deploying");
        let a = |id: u32, n: &str| {
            X::ExecuteMsgReplyCallback(ExecuteMsgReplyCallbackMsg { callback_id: id, events: vec![], data: Some(reply_data(n)) })
        };
        let id = proxy_request(&w, w.log.len() - 2, 0, None);
        check(w.exec(CHAINS[0].caller, OUT, &a(id, "px"), vec![]), "proxy");
        if stage > 1 {
            let id = treasury_request(&w, w.log.len() - 2, 0, "px", None);
            check(w.exec(CHAINS[0].caller, OUT, &a(id, "tx"), vec![]), "treasury");
        }
    }
    let before = deployed(&w, 0);
    let since = w.log.len();
    let by = if choice("remote", 2) == 1 { CHAINS[0].caller.to_string() } else { addr_in("sender", 8) };
    let by = by.as_str();
    let op = choice("op", 2);
    let ok = if op == 0 { w.exec(by, OUT, &deploy(0, None), vec![]) } else { w.exec(by, OUT, &remote(0, 0, None), vec![]) };
    check(ok == (by == CTL && if op == 0 { stage < 2 } else { stage == 2 }), "only governance");
    check(deployed(&w, 0) == before, "asking changes nothing yet");
    if !ok {
        check(w.log.len() == since, "nothing sent");
    }
    cover(if ok { "allowed" } else { "refused" });
});
