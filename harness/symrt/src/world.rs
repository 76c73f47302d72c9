//! A minimal deterministic chain: storages, accounts, message dispatch with revert.
use cosmwasm_std::*;
use std::cell::RefCell;

/// Ordered key-value store.
#[derive(Default, Clone)]
pub struct Store {
    pub kv: Vec<(Vec<u8>, Vec<u8>)>,
}

impl Store {
    pub fn new() -> Self {
        Store { kv: Vec::new() }
    }
    fn pos(&self, k: &[u8]) -> Result<usize, usize> {
        let mut i = 0;
        while i < self.kv.len() {
            match self.kv[i].0.as_slice().cmp(k) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Equal => return Ok(i),
                std::cmp::Ordering::Greater => return Err(i),
            }
        }
        Err(i)
    }
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        // by equality alone: a symbolic key need not be ordered among the others to be found
        let mut i = 0;
        while i < self.kv.len() {
            if self.kv[i].0.as_slice() == key {
                return Some(self.kv[i].1.clone());
            }
            i += 1;
        }
        None
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = match start {
            Some(s) => match self.pos(s) {
                Ok(i) => i,
                Err(i) => i,
            },
            None => 0,
        };
        let hi = match end {
            Some(e) => match self.pos(e) {
                Ok(i) => i,
                Err(i) => i,
            },
            None => self.kv.len(),
        };
        let (lo, hi) = if lo > hi { (0, 0) } else { (lo, hi) };
        Box::new(RangeIter {
            s: self,
            lo,
            hi,
            asc: matches!(order, Order::Ascending),
        })
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        match self.pos(key) {
            Ok(i) => self.kv[i].1 = value.to_vec(),
            Err(i) => self.kv.insert(i, (key.to_vec(), value.to_vec())),
        }
    }
    fn remove(&mut self, key: &[u8]) {
        if let Ok(i) = self.pos(key) {
            self.kv.remove(i);
        }
    }
}

struct RangeIter<'a> {
    s: &'a Store,
    lo: usize,
    hi: usize,
    asc: bool,
}
impl Iterator for RangeIter<'_> {
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        if self.lo >= self.hi {
            return None;
        }
        let i = if self.asc {
            self.lo += 1;
            self.lo - 1
        } else {
            self.hi -= 1;
            self.hi
        };
        Some(self.s.kv[i].clone())
    }
}

/// Address rules: non-empty, no upper case; canonical form is the bytes themselves.
pub struct SimpleApi;
impl Api for SimpleApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if human.is_empty() || human.bytes().any(|b| b.is_ascii_uppercase()) {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(human))
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        Ok(CanonicalAddr::from(human.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        let s = String::from_utf8(c.to_vec()).map_err(|_| StdError::generic_err("humanize"))?;
        Ok(Addr::unchecked(s))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unreachable!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unreachable!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unreachable!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unreachable!()
    }
    fn debug(&self, _: &str) {}
}

/// Queries answered by a closure over `(contract, msg bytes)`.
pub struct FnQuerier<'a>(pub &'a dyn Fn(&WasmQuery) -> Option<Binary>);
impl Querier for FnQuerier<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let q: QueryRequest<Empty> = match from_json(bin) {
            Ok(q) => q,
            Err(_) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: String::new(),
                    request: Binary::default(),
                })
            }
        };
        match q {
            QueryRequest::Wasm(w) => match (self.0)(&w) {
                Some(b) => SystemResult::Ok(ContractResult::Ok(b)),
                None => SystemResult::Ok(ContractResult::Err("query failed".to_string())),
            },
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "unsupported".to_string(),
            }),
        }
    }
}

pub fn no_query(_: &WasmQuery) -> Option<Binary> {
    None
}

pub fn env(contract: &str, height: u64, time_s: u64) -> Env {
    Env {
        block: BlockInfo {
            height,
            time: Timestamp::from_seconds(time_s),
            chain_id: "c".to_string(),
        },
        transaction: None,
        contract: ContractInfo {
            address: Addr::unchecked(contract),
        },
    }
}

pub fn info(sender: &str, funds: Vec<Coin>) -> MessageInfo {
    MessageInfo {
        sender: Addr::unchecked(sender),
        funds,
    }
}

pub type Cell<T> = RefCell<T>;
