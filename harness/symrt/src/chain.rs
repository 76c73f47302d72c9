//! Several contracts on one chain: dispatch, sub-messages with revert, replies, bank balances.
use crate::world::*;
use cosmwasm_std::*;

pub struct CodeFns {
    pub instantiate: fn(DepsMut, Env, MessageInfo, Binary) -> Result<Response, ()>,
    pub execute: fn(DepsMut, Env, MessageInfo, Binary) -> Result<Response, ()>,
    pub query: fn(Deps, Env, Binary) -> Result<Binary, ()>,
    pub reply: fn(DepsMut, Env, Reply) -> Result<Response, ()>,
}

/// Wraps a contract crate's entry points.
#[macro_export]
macro_rules! code {
    ($name:ident, $m:path, $i:ty, $e:ty, $q:ty) => {
        $crate::code!($name, $m, $i, $e, $q, |_, _, _| Err(()));
    };
    ($name:ident, $m:path, $i:ty, $e:ty, $q:ty, $r:expr) => {
        pub static $name: $crate::chain::CodeFns = {
            use $m as m;
            $crate::chain::CodeFns {
                instantiate: |d, e, i, b| {
                    let msg: $i = cosmwasm_std::from_json(&b).map_err(|_| ())?;
                    m::instantiate(d, e, i, msg).map_err(|_| ())
                },
                execute: |d, e, i, b| {
                    let msg: $e = cosmwasm_std::from_json(&b).map_err(|_| ())?;
                    m::execute(d, e, i, msg).map_err(|_| ())
                },
                query: |d, e, b| {
                    let msg: $q = cosmwasm_std::from_json(&b).map_err(|_| ())?;
                    m::query(d, e, msg).map_err(|_| ())
                },
                reply: $r,
            }
        };
    };
}

pub fn no_inst(_: DepsMut, _: Env, _: MessageInfo, _: Binary) -> Result<Response, ()> {
    Ok(Response::new())
}
pub fn no_exec(_: DepsMut, _: Env, _: MessageInfo, _: Binary) -> Result<Response, ()> {
    Ok(Response::new())
}
pub fn no_exec_err(_: DepsMut, _: Env, _: MessageInfo, _: Binary) -> Result<Response, ()> {
    Err(())
}
pub fn no_q(_: Deps, _: Env, _: Binary) -> Result<Binary, ()> {
    Err(())
}
pub fn no_reply(_: DepsMut, _: Env, _: Reply) -> Result<Response, ()> {
    Err(())
}
/// A contract that accepts every message and answers no query.
pub static SINK: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: no_q, reply: no_reply };
/// A contract that rejects every message.
pub static REJECT: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec_err, query: no_q, reply: no_reply };

#[derive(Clone)]
pub struct Contract {
    pub addr: String,
    pub code: &'static CodeFns,
    pub code_id: u64,
    pub admin: Option<String>,
    pub creator: String,
    pub store: Store,
}

pub type MigrateFn = fn(DepsMut, Env, Binary) -> Result<Response, ()>;

#[derive(Clone)]
pub struct Bal {
    pub addr: String,
    pub denom: String,
    pub amt: u128,
}

#[derive(Clone)]
pub struct World {
    pub cs: Vec<Contract>,
    pub bank: Vec<Bal>,
    pub height: u64,
    pub time: u64,
    /// nanoseconds past `time`
    pub nanos: u64,
    pub codes: Vec<(u64, &'static CodeFns)>,
    /// migration entry points by code id; a code without one migrates without doing anything
    pub migrators: Vec<(u64, MigrateFn)>,
    /// every message dispatched so far, with its sender (kept only for successful transactions)
    pub log: Vec<(String, CosmosMsg)>,
    pub next_addr: u64,
    pub depth: u32,
}

impl World {
    pub fn new() -> World {
        World {
            cs: Vec::new(),
            bank: Vec::new(),
            height: 1,
            time: 1000,
            codes: Vec::new(),
            migrators: Vec::new(),
            log: Vec::new(),
            nanos: 0,
            next_addr: 0,
            depth: 0,
        }
    }
    pub fn add(&mut self, addr: &str, code: &'static CodeFns) {
        self.cs.push(Contract { addr: addr.to_string(), code, code_id: 0, admin: None, creator: "creator".to_string(), store: Store::new() });
    }
    pub fn idx(&self, addr: &str) -> Option<usize> {
        let mut i = 0;
        while i < self.cs.len() {
            if self.cs[i].addr == addr {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn env(&self, addr: &str) -> Env {
        let mut e = env(addr, self.height, self.time);
        e.block.time = e.block.time.plus_nanos(self.nanos);
        e
    }
    pub fn bal(&self, addr: &str, denom: &str) -> u128 {
        for b in &self.bank {
            if b.addr == addr && b.denom == denom {
                return b.amt;
            }
        }
        0
    }
    pub fn set_bal(&mut self, addr: &str, denom: &str, amt: u128) {
        for b in self.bank.iter_mut() {
            if b.addr == addr && b.denom == denom {
                b.amt = amt;
                return;
            }
        }
        self.bank.push(Bal { addr: addr.to_string(), denom: denom.to_string(), amt });
    }
    fn send(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), ()> {
        for c in coins {
            let a = c.amount.u128();
            let f = self.bal(from, &c.denom);
            if f < a {
                return Err(());
            }
            self.set_bal(from, &c.denom, f - a);
            let t = self.bal(to, &c.denom);
            self.set_bal(to, &c.denom, t + a);
        }
        Ok(())
    }

    /// Instantiates `addr` (already added) as its own transaction; panics if it fails.
    pub fn init(&mut self, sender: &str, addr: &str, msg: Binary) {
        let i = self.idx(addr).unwrap();
        let r = self.call(i, sender, vec![], |c, d, e, inf| (c.instantiate)(d, e, inf, msg));
        let r = match r {
            Ok(r) => r,
            Err(_) => panic!("instantiate failed"),
        };
        if self.run_response(addr, r).is_err() {
            panic!("instantiate messages failed");
        }
    }

    /// Instantiates `addr` (already added); false, and nothing changed, if it is refused.
    pub fn try_init<M: serde::Serialize>(&mut self, sender: &str, addr: &str, msg: &M) -> bool {
        let snap = self.clone();
        let i = self.idx(addr).unwrap();
        let b = to_json_binary(msg).unwrap();
        let ok = match self.call(i, sender, vec![], |c, d, e, inf| (c.instantiate)(d, e, inf, b)) {
            Ok(r) => self.run_response(addr, r).is_ok(),
            Err(()) => false,
        };
        if !ok {
            *self = snap;
        }
        ok
    }

    fn call(
        &mut self,
        i: usize,
        sender: &str,
        funds: Vec<Coin>,
        f: impl FnOnce(&CodeFns, DepsMut, Env, MessageInfo) -> Result<Response, ()>,
    ) -> Result<Response, ()> {
        let mut store = self.cs[i].store.clone();
        let addr = self.cs[i].addr.clone();
        let code = self.cs[i].code;
        let e = self.env(&addr);
        let r = {
            let q = WorldQuerier(self);
            let deps = DepsMut { storage: &mut store, api: &SimpleApi, querier: QuerierWrapper::new(&q) };
            f(code, deps, e, info(sender, funds))
        };
        if r.is_ok() {
            self.cs[i].store = store;
        }
        r
    }

    /// One transaction. On failure everything is reverted.
    pub fn exec<M: serde::Serialize>(&mut self, sender: &str, contract: &str, msg: &M, funds: Vec<Coin>) -> bool {
        let snap = self.clone();
        let b = match to_json_binary(msg) {
            Ok(b) => b,
            Err(_) => return false,
        };
        let m = CosmosMsg::Wasm(WasmMsg::Execute { contract_addr: contract.to_string(), msg: b, funds });
        if self.dispatch(sender, m).is_err() {
            *self = snap;
            return false;
        }
        true
    }

    pub fn query<M: serde::Serialize, T: serde::de::DeserializeOwned>(&self, contract: &str, msg: &M) -> Option<T> {
        let b = to_json_binary(msg).ok()?;
        let r = self.query_raw(contract, b).ok()?;
        from_json(r).ok()
    }
    pub fn query_raw(&self, contract: &str, msg: Binary) -> Result<Binary, ()> {
        let i = self.idx(contract).ok_or(())?;
        let q = WorldQuerier(self);
        let deps = Deps { storage: &self.cs[i].store, api: &SimpleApi, querier: QuerierWrapper::new(&q) };
        (self.cs[i].code.query)(deps, self.env(contract), msg)
    }

    pub fn dispatch(&mut self, sender: &str, m: CosmosMsg) -> Result<(Option<Binary>, Vec<Event>), ()> {
        self.depth += 1;
        if self.depth > 60 {
            self.depth -= 1;
            return Err(());
        }
        let r = self.dispatch_inner(sender, m);
        self.depth -= 1;
        r
    }

    fn dispatch_inner(&mut self, sender: &str, m: CosmosMsg) -> Result<(Option<Binary>, Vec<Event>), ()> {
        self.log.push((sender.to_string(), m.clone()));
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                self.send(sender, &to_address, &amount)?;
                Ok((None, vec![]))
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => {
                self.send(sender, &contract_addr, &funds)?;
                let i = self.idx(&contract_addr).ok_or(())?;
                let r = self.call(i, sender, funds, |c, d, e, inf| (c.execute)(d, e, inf, msg))?;
                self.run_response(&contract_addr, r)
            }
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, label: _ }) => {
                let mut code = None;
                for (c, f) in &self.codes {
                    if *c == code_id {
                        code = Some(*f);
                    }
                }
                let code = code.ok_or(())?;
                self.next_addr += 1;
                let mut addr = String::from("contract");
                addr.push((b'a' + (self.next_addr / 26) as u8) as char);
                addr.push((b'a' + (self.next_addr % 26) as u8) as char);
                self.cs.push(Contract { addr: addr.clone(), code, code_id, admin, creator: sender.to_string(), store: Store::new() });
                self.send(sender, &addr, &funds)?;
                let i = self.cs.len() - 1;
                let r = self.call(i, sender, funds, |c, d, e, inf| (c.instantiate)(d, e, inf, msg))?;
                let (_, ev) = self.run_response(&addr, r)?;
                let mut data = vec![0x0a, addr.len() as u8];
                data.extend_from_slice(addr.as_bytes());
                Ok((Some(Binary::from(data)), ev))
            }
            CosmosMsg::Wasm(WasmMsg::UpdateAdmin { contract_addr, admin }) => {
                let i = self.idx(&contract_addr).ok_or(())?;
                if self.cs[i].admin.as_deref() != Some(sender) {
                    return Err(());
                }
                self.cs[i].admin = Some(admin);
                Ok((None, vec![]))
            }
            CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                let i = self.idx(&contract_addr).ok_or(())?;
                if self.cs[i].admin.as_deref() != Some(sender) {
                    return Err(());
                }
                self.cs[i].code_id = new_code_id;
                let mut f = None;
                for (c, g) in &self.migrators {
                    if *c == new_code_id {
                        f = Some(*g);
                    }
                }
                match f {
                    Some(f) => {
                        let r = self.call(i, sender, vec![], |_, d, e, _| f(d, e, msg))?;
                        self.run_response(&contract_addr, r)
                    }
                    None => Ok((None, vec![])),
                }
            }
            _ => Ok((None, vec![])),
        }
    }

    pub fn run_response(&mut self, contract: &str, r: Response) -> Result<(Option<Binary>, Vec<Event>), ()> {
        let mut data = r.data;
        let mut evs = Vec::new();
        if !r.attributes.is_empty() {
            evs.push(Event::new("wasm").add_attribute("_contract_address", contract).add_attributes(r.attributes));
        }
        for e in r.events {
            evs.push(e);
        }
        for sm in r.messages {
            let wants_ok = matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Success);
            let wants_err = matches!(sm.reply_on, ReplyOn::Always | ReplyOn::Error);
            let snap = if wants_err { Some(self.clone()) } else { None };
            let res = self.dispatch(contract, sm.msg);
            let reply = match res {
                Ok((d, ev)) => {
                    for e in &ev {
                        evs.push(e.clone());
                    }
                    if !wants_ok {
                        continue;
                    }
                    SubMsgResult::Ok(SubMsgResponse { events: ev, data: d })
                }
                Err(()) => match snap {
                    Some(s) => {
                        *self = s;
                        SubMsgResult::Err("failed".to_string())
                    }
                    None => return Err(()),
                },
            };
            let i = self.idx(contract).ok_or(())?;
            let rp = Reply { id: sm.id, result: reply };
            let rr = self.call(i, "", vec![], |c, d, e, _| (c.reply)(d, e, rp))?;
            let (d, ev) = self.run_response(contract, rr)?;
            for e in ev {
                evs.push(e);
            }
            if d.is_some() {
                data = d;
            }
        }
        Ok((data, evs))
    }
}

pub struct WorldQuerier<'a>(pub &'a World);
fn bad() -> QuerierResult {
    SystemResult::Err(SystemError::UnsupportedRequest { kind: String::new() })
}
impl Querier for WorldQuerier<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_json(bin) {
            Ok(q) => q,
            Err(_) => return bad(),
        };
        let r: Result<Binary, ()> = match q {
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => self.0.query_raw(&contract_addr, msg),
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => match self.0.idx(&contract_addr) {
                Some(i) => {
                    let c = &self.0.cs[i];
                    let mut ci = ContractInfoResponse::default();
                    ci.code_id = c.code_id;
                    ci.creator = c.creator.clone();
                    ci.admin = c.admin.clone();
                    to_json_binary(&ci).map_err(|_| ())
                }
                None => Err(()),
            },
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let mut br = BalanceResponse::default();
                br.amount = coin(self.0.bal(&address, &denom), denom);
                to_json_binary(&br).map_err(|_| ())
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let mut br = AllBalanceResponse::default();
                for b in &self.0.bank {
                    if b.addr == address && b.amt != 0 {
                        br.amount.push(coin(b.amt, b.denom.clone()));
                    }
                }
                to_json_binary(&br).map_err(|_| ())
            }
            _ => return bad(),
        };
        match r {
            Ok(b) => SystemResult::Ok(ContractResult::Ok(b)),
            Err(_) => SystemResult::Ok(ContractResult::Err(String::new())),
        }
    }
}

// ---- minimal token contracts ----
fn cw20_get(s: &dyn Storage, a: &str) -> Uint128 {
    match s.get(a.as_bytes()) {
        Some(b) => from_json(b).unwrap(),
        None => Uint128::zero(),
    }
}
fn cw20_move(s: &mut dyn Storage, from: &str, to: &str, amt: Uint128) -> Result<(), ()> {
    let f = cw20_get(s, from);
    if f < amt || amt.is_zero() {
        return Err(());
    }
    s.set(from.as_bytes(), &to_json_vec(&(f - amt)).unwrap());
    let t = cw20_get(s, to);
    s.set(to.as_bytes(), &to_json_vec(&(t + amt)).unwrap());
    Ok(())
}
fn cw20_exec(d: DepsMut, _e: Env, i: MessageInfo, b: Binary) -> Result<Response, ()> {
    let m: cw20::Cw20ExecuteMsg = from_json(&b).map_err(|_| ())?;
    match m {
        cw20::Cw20ExecuteMsg::Transfer { recipient, amount } => {
            cw20_move(d.storage, i.sender.as_str(), &recipient, amount)?;
            Ok(Response::new())
        }
        cw20::Cw20ExecuteMsg::Send { contract, amount, msg } => {
            cw20_move(d.storage, i.sender.as_str(), &contract, amount)?;
            let r = cw20::Cw20ReceiveMsg { sender: i.sender.to_string(), amount, msg };
            Ok(Response::new().add_message(r.into_cosmos_msg(contract).map_err(|_| ())?))
        }
        _ => Err(()),
    }
}
fn cw20_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    let m: cw20::Cw20QueryMsg = from_json(&b).map_err(|_| ())?;
    match m {
        cw20::Cw20QueryMsg::Balance { address } => {
            to_json_binary(&cw20::BalanceResponse { balance: cw20_get(d.storage, &address) }).map_err(|_| ())
        }
        cw20::Cw20QueryMsg::TokenInfo {} => to_json_binary(&cw20::TokenInfoResponse {
            name: "t".to_string(),
            symbol: "T".to_string(),
            decimals: 6,
            total_supply: Uint128::from(1u128 << 120),
        })
        .map_err(|_| ()),
        _ => Err(()),
    }
}
pub static CW20: CodeFns = CodeFns { instantiate: no_inst, execute: cw20_exec, query: cw20_query, reply: no_reply };

impl World {
    pub fn cw20_set(&mut self, token: &str, who: &str, amt: u128) {
        let i = self.idx(token).unwrap();
        self.cs[i].store.set(who.as_bytes(), &to_json_vec(&Uint128::from(amt)).unwrap());
    }
    pub fn cw20_bal(&self, token: &str, who: &str) -> u128 {
        let i = self.idx(token).unwrap();
        cw20_get(&self.cs[i].store, who).u128()
    }
    pub fn nft_set(&mut self, coll: &str, id: &str, owner: &str) {
        let i = self.idx(coll).unwrap();
        self.cs[i].store.set(&nft_key("o/", id), owner.as_bytes());
    }
    pub fn nft_approve(&mut self, coll: &str, id: &str, spenders: &[&str]) {
        let i = self.idx(coll).unwrap();
        let mut v: Vec<String> = Vec::new();
        for s in spenders {
            v.push(s.to_string());
        }
        self.cs[i].store.set(&nft_key("a/", id), &to_json_vec(&v).unwrap());
    }
    pub fn nft_owner(&self, coll: &str, id: &str) -> String {
        let i = self.idx(coll).unwrap();
        match self.cs[i].store.get(&nft_key("o/", id)) {
            Some(b) => String::from_utf8(b).unwrap(),
            None => String::new(),
        }
    }
}

fn nft_key(p: &str, id: &str) -> Vec<u8> {
    let mut k = p.as_bytes().to_vec();
    k.extend_from_slice(id.as_bytes());
    k
}
fn nft_approved(s: &dyn Storage, id: &str) -> Vec<String> {
    s.get(&nft_key("a/", id)).map(|b| from_json(b).unwrap()).unwrap_or_default()
}
fn cw721_move(s: &mut dyn Storage, by: &str, to: &str, id: &str) -> Result<(), ()> {
    let k = nft_key("o/", id);
    let o = s.get(&k).ok_or(())?;
    if o.as_slice() != by.as_bytes() && !nft_approved(s, id).iter().any(|a| a == by) {
        return Err(());
    }
    s.set(&k, to.as_bytes());
    s.remove(&nft_key("a/", id));
    Ok(())
}
fn cw721_exec(d: DepsMut, _e: Env, i: MessageInfo, b: Binary) -> Result<Response, ()> {
    let m: cw721::Cw721ExecuteMsg = from_json(&b).map_err(|_| ())?;
    match m {
        cw721::Cw721ExecuteMsg::TransferNft { recipient, token_id } => {
            cw721_move(d.storage, i.sender.as_str(), &recipient, &token_id)?;
            Ok(Response::new())
        }
        cw721::Cw721ExecuteMsg::SendNft { contract, token_id, msg } => {
            cw721_move(d.storage, i.sender.as_str(), &contract, &token_id)?;
            let r = cw721::Cw721ReceiveMsg { sender: i.sender.to_string(), token_id, msg };
            Ok(Response::new().add_message(r.into_cosmos_msg(contract).map_err(|_| ())?))
        }
        cw721::Cw721ExecuteMsg::Approve { spender, token_id, .. } => {
            let o = d.storage.get(&nft_key("o/", &token_id)).ok_or(())?;
            if o.as_slice() != i.sender.as_bytes() {
                return Err(());
            }
            let mut l = nft_approved(d.storage, &token_id);
            l.push(spender);
            d.storage.set(&nft_key("a/", &token_id), &to_json_vec(&l).unwrap());
            Ok(Response::new())
        }
        _ => Err(()),
    }
}
fn cw721_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    let m: cw721::Cw721QueryMsg = from_json(&b).map_err(|_| ())?;
    match m {
        cw721::Cw721QueryMsg::OwnerOf { token_id, .. } => match d.storage.get(&nft_key("o/", &token_id)) {
            Some(o) => to_json_binary(&cw721::OwnerOfResponse {
                owner: String::from_utf8(o).map_err(|_| ())?,
                approvals: nft_approved(d.storage, &token_id)
                    .into_iter()
                    .map(|spender| cw721::Approval { spender, expires: cw721::Expiration::Never {} })
                    .collect(),
            })
            .map_err(|_| ()),
            None => Err(()),
        },
        cw721::Cw721QueryMsg::ContractInfo {} => to_json_binary(&cw721::ContractInfoResponse {
            name: "n".to_string(),
            symbol: "N".to_string(),
        })
        .map_err(|_| ()),
        _ => Err(()),
    }
}
pub static CW721: CodeFns = CodeFns { instantiate: no_inst, execute: cw721_exec, query: cw721_query, reply: no_reply };
