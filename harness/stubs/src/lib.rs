//! Stand-ins for the neighbours of the contract under check: they answer queries with values the
//! harness chose and accept every message.
use cosmwasm_std::*;
use cw_utils::{Duration, Expiration};
use enterprise_protocol::api::*;
use enterprise_protocol::msg::QueryMsg as EntQuery;
use membership_common_api::api::*;
use serde::{Deserialize, Serialize};
use symrt::chain::*;

pub const ENT: &str = "ent";
pub const GOV: &str = "gov";
pub const CTL: &str = "ctl";
pub const OUT: &str = "outposts";
pub const TRE: &str = "treasury";
pub const DIST: &str = "dist";
pub const MEM: &str = "mem";
pub const CNC: &str = "council";
pub const FAC: &str = "factory";
pub const VER: &str = "versioning";
pub const DENOM: &str = "udao";
pub const TOK: &str = "tok";
pub const NFT: &str = "nft";

fn ad(s: &str) -> Addr {
    Addr::unchecked(s)
}
pub fn components() -> ComponentContractsResponse {
    ComponentContractsResponse {
        enterprise_factory_contract: ad(FAC),
        enterprise_versioning_contract: ad(VER),
        enterprise_governance_contract: ad(GOV),
        enterprise_governance_controller_contract: ad(CTL),
        enterprise_outposts_contract: ad(OUT),
        enterprise_treasury_contract: ad(TRE),
        funds_distributor_contract: ad(DIST),
        membership_contract: ad(MEM),
        council_membership_contract: ad(CNC),
        attestation_contract: None,
    }
}
fn key(p: &str, u: &str) -> Vec<u8> {
    let mut k = p.as_bytes().to_vec();
    k.extend_from_slice(u.as_bytes());
    k
}
fn ser<T: Serialize>(t: &T) -> Result<Binary, ()> {
    to_json_binary(t).map_err(|_| ())
}

fn ent_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    match from_json::<EntQuery>(&b).map_err(|_| ())? {
        EntQuery::DaoInfo {} => {
            let t = match d.storage.get(b"type").map(|v| v[0]).unwrap_or(0) {
                0 => DaoType::Denom,
                1 => DaoType::Token,
                2 => DaoType::Nft,
                _ => DaoType::Multisig,
            };
            ser(&DaoInfoResponse {
                creation_date: Timestamp::from_seconds(1),
                metadata: DaoMetadata {
                    name: "n".to_string(),
                    description: None,
                    logo: Logo::None,
                    socials: DaoSocialData {
                        github_username: None,
                        discord_username: None,
                        twitter_username: None,
                        telegram_username: None,
                    },
                },
                dao_type: t,
                dao_version: enterprise_versioning_api::api::Version::new(1, 1, 1),
            })
        }
        EntQuery::ComponentContracts {} => ser(&components()),
        EntQuery::IsRestrictedUser(p) => {
            ser(&IsRestrictedUserResponse { is_restricted: d.storage.get(&key("r/", &p.user)).is_some() })
        }
    }
}
pub static ENTERPRISE: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: ent_query, reply: no_reply };

/// dao type: 0 denom, 1 token, 2 nft, 3 multisig
pub fn ent_type(w: &mut World, t: u64) {
    let i = w.idx(ENT).unwrap();
    w.cs[i].store.set(b"type", &[t as u8]);
}
pub fn restrict(w: &mut World, user: &str) {
    let i = w.idx(ENT).unwrap();
    w.cs[i].store.set(&key("r/", user), b"y");
}

#[derive(Serialize, Deserialize)]
#[serde(rename_all = "snake_case")]
enum MemQuery {
    UserWeight(UserWeightParams),
    TotalWeight(TotalWeightParams),
    TokenConfig {},
    NftConfig {},
    DenomConfig {},
}
fn getu(d: &Deps, k: &[u8]) -> Uint128 {
    d.storage.get(k).map(|b| from_json(b).unwrap()).unwrap_or_default()
}
fn mem_query(d: Deps, _e: Env, b: Binary) -> Result<Binary, ()> {
    let kind = d.storage.get(b"kind").map(|v| v[0]).unwrap_or(3);
    let unlocking_period = Duration::Time(100);
    match from_json::<MemQuery>(&b).map_err(|_| ())? {
        MemQuery::UserWeight(p) => {
            ser(&UserWeightResponse { user: ad(&p.user), weight: getu(&d, &key("u/", &p.user)) })
        }
        MemQuery::TotalWeight(p) => {
            let total_weight = match p.expiration {
                Expiration::Never {} => getu(&d, b"tot"),
                Expiration::AtTime(t) => match d.storage.get(b"at") {
                    Some(x) => {
                        let x: Timestamp = from_json(x).unwrap();
                        if x != t {
                            return Err(());
                        }
                        getu(&d, b"tot_at")
                    }
                    None => getu(&d, b"tot"),
                },
                Expiration::AtHeight(_) => return Err(()),
            };
            ser(&TotalWeightResponse { total_weight })
        }
        MemQuery::DenomConfig {} if kind == 0 => ser(&denom_staking_api::api::DenomConfigResponse {
            enterprise_contract: ad(ENT),
            denom: DENOM.to_string(),
            unlocking_period,
        }),
        MemQuery::TokenConfig {} if kind == 1 => ser(&token_staking_api::api::TokenConfigResponse {
            enterprise_contract: ad(ENT),
            token_contract: ad(TOK),
            unlocking_period,
        }),
        MemQuery::NftConfig {} if kind == 2 => ser(&nft_staking_api::api::NftConfigResponse {
            enterprise_contract: ad(ENT),
            nft_contract: ad(NFT),
            unlocking_period,
        }),
        _ => Err(()),
    }
}
pub static MEMBERSHIP: CodeFns = CodeFns { instantiate: no_inst, execute: no_exec, query: mem_query, reply: no_reply };

fn put<T: Serialize>(w: &mut World, c: &str, k: &[u8], v: &T) {
    let i = w.idx(c).unwrap();
    w.cs[i].store.set(k, &to_json_vec(v).unwrap());
}
pub fn mem_kind(w: &mut World, t: u64) {
    let i = w.idx(MEM).unwrap();
    w.cs[i].store.set(b"kind", &[t as u8]);
}
pub fn mem_user(w: &mut World, c: &str, user: &str, weight: u128) {
    put(w, c, &key("u/", user), &Uint128::from(weight));
}
/// Current total.
pub fn mem_total(w: &mut World, c: &str, total: u128) {
    put(w, c, b"tot", &Uint128::from(total));
}
/// Total at `at_s`; any other past moment is refused.
pub fn mem_total_at(w: &mut World, c: &str, at_s: u64, total: u128) {
    put(w, c, b"at", &Timestamp::from_seconds(at_s));
    put(w, c, b"tot_at", &Uint128::from(total));
}

/// Messages sent by `from` to `to` since log position `since`, decoded.
pub fn sent<T: serde::de::DeserializeOwned>(w: &World, since: usize, from: &str, to: &str) -> Vec<(T, Vec<Coin>)> {
    let mut out = Vec::new();
    for (s, m) in w.log.iter().skip(since) {
        if s != from {
            continue;
        }
        if let CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) = m {
            if contract_addr == to {
                match from_json::<T>(msg) {
                    Ok(t) => out.push((t, funds.clone())),
                    Err(_) => symrt::check(false, "message understood by its target"),
                }
            }
        }
    }
    out
}
