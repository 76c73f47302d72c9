//! The DAO's main contract, its attestation and the registry of versions.
use common::commons::ModifyValue;
use cosmwasm_std::*;
use enterprise_protocol::api::*;
use enterprise_protocol::msg::{ExecuteMsg as X, InstantiateMsg, MigrateMsg, QueryMsg as Q};
use enterprise_versioning_api::api::*;
use enterprise_versioning_api::msg::{ExecuteMsg as VX, QueryMsg as VQ};
use stubs::*;
use symrt::chain::*;
use symrt::*;
pub mod ver;

code!(
    DAO,
    enterprise::contract,
    enterprise_protocol::msg::InstantiateMsg,
    enterprise_protocol::msg::ExecuteMsg,
    enterprise_protocol::msg::QueryMsg,
    |d, e, r| enterprise::contract::reply(d, e, r).map_err(|_| ())
);
code!(
    VERSIONING,
    enterprise_versioning::contract,
    enterprise_versioning_api::msg::InstantiateMsg,
    enterprise_versioning_api::msg::ExecuteMsg,
    enterprise_versioning_api::msg::QueryMsg
);
code!(
    ATTESTATION,
    attestation::contract,
    attestation_api::msg::InstantiateMsg,
    attestation_api::msg::ExecuteMsg,
    attestation_api::msg::QueryMsg
);

pub const VADMIN: &str = "vadmin";
/// Everybody there is.
/// Any sender whatever; all the chain's parties have names this short.
pub fn who() -> String {
    addr_in("sender", 8)
}
pub fn meta() -> DaoMetadata {
    DaoMetadata {
        name: "name".to_string(),
        description: Some("desc".to_string()),
        logo: Logo::Url("logo".to_string()),
        socials: DaoSocialData {
            github_username: Some("gh".to_string()),
            discord_username: Some("dc".to_string()),
            twitter_username: Some("tw".to_string()),
            telegram_username: Some("tg".to_string()),
        },
    }
}
pub fn kind(t: u64) -> DaoType {
    match t {
        0 => DaoType::Denom,
        1 => DaoType::Token,
        2 => DaoType::Nft,
        _ => DaoType::Multisig,
    }
}
pub fn vinfo(v: Version, ids: [u64; 11]) -> VersionInfo {
    VersionInfo {
        version: v,
        changelog: vec![],
        attestation_code_id: ids[0],
        enterprise_code_id: ids[1],
        enterprise_governance_code_id: ids[2],
        enterprise_governance_controller_code_id: ids[3],
        enterprise_outposts_code_id: ids[4],
        enterprise_treasury_code_id: ids[5],
        funds_distributor_code_id: ids[6],
        token_staking_membership_code_id: ids[7],
        denom_staking_membership_code_id: ids[8],
        nft_staking_membership_code_id: ids[9],
        multisig_membership_code_id: ids[10],
    }
}
/// Code ids of a version with the number n.
pub fn ids(n: u64) -> [u64; 11] {
    let mut a = [0; 11];
    let mut i = 0;
    while i < 11 {
        a[i] = n * 100 + i as u64;
        i += 1;
    }
    a
}
pub fn registry(w: &mut World) {
    w.add(VER, &VERSIONING);
    w.init("creator", VER, to_json_binary(&enterprise_versioning_api::msg::InstantiateMsg { admin: VADMIN.to_string() }).unwrap());
}
pub fn add_version(w: &mut World, v: VersionInfo) -> bool {
    w.exec(VADMIN, VER, &VX::AddVersion(AddVersionMsg { version: v }), vec![])
}
pub fn fin_msg() -> FinalizeInstantiationMsg {
    FinalizeInstantiationMsg {
        enterprise_treasury_contract: TRE.to_string(),
        enterprise_governance_contract: GOV.to_string(),
        enterprise_governance_controller_contract: CTL.to_string(),
        enterprise_outposts_contract: OUT.to_string(),
        funds_distributor_contract: DIST.to_string(),
        membership_contract: MEM.to_string(),
        council_membership_contract: CNC.to_string(),
        attestation_contract: None,
    }
}
/// A DAO contract not yet finalized, with the registry.
pub fn fresh(t: u64, v: Version) -> World {
    let mut w = World::new();
    registry(&mut w);
    w.add(ENT, &DAO);
    for a in [GOV, CTL, OUT, TRE, DIST, MEM, CNC, FAC] {
        w.add(a, &SINK);
        let i = w.idx(a).unwrap();
        w.cs[i].admin = Some(ENT.to_string());
    }
    let i = w.idx(ENT).unwrap();
    w.cs[i].admin = Some(ENT.to_string());
    w.cs[i].creator = FAC.to_string();
    let m = InstantiateMsg {
        enterprise_factory_contract: FAC.to_string(),
        enterprise_versioning_contract: VER.to_string(),
        dao_metadata: meta(),
        dao_creation_date: None,
        dao_type: kind(t),
        dao_version: v,
    };
    w.init(FAC, ENT, to_json_binary(&m).unwrap());
    w
}
pub fn dao(t: u64, v: Version) -> World {
    let mut w = fresh(t, v);
    check(w.exec(FAC, ENT, &X::FinalizeInstantiation(fin_msg()), vec![]), "finalized");
    w
}
pub fn comps(w: &World) -> Option<ComponentContractsResponse> {
    w.query(ENT, &Q::ComponentContracts {})
}
pub fn dinfo(w: &World) -> DaoInfoResponse {
    w.query(ENT, &Q::DaoInfo {}).unwrap()
}
pub fn restricted(w: &World, u: &str) -> bool {
    let r: IsRestrictedUserResponse = w.query(ENT, &Q::IsRestrictedUser(IsRestrictedUserParams { user: u.to_string() })).unwrap();
    r.is_restricted
}
/// The non-branching comparison of two versions.
pub fn veq(a: &Version, b: &Version) -> bool {
    and(a.major == b.major, and(a.minor == b.minor, a.patch == b.patch))
}
pub fn vlt(a: &Version, b: &Version) -> bool {
    or(
        a.major < b.major,
        and(a.major == b.major, or(a.minor < b.minor, and(a.minor == b.minor, a.patch < b.patch))),
    )
}
pub fn any_version(name: &str) -> Version {
    let mut n = name.to_string();
    n.push_str("_major");
    let a = u64_in(&n, 0, u64::MAX);
    n.push_str("_minor");
    let b = u64_in(&n, 0, u64::MAX);
    n.push_str("_patch");
    let c = u64_in(&n, 0, u64::MAX);
    Version::new(a, b, c)
}
fn same_info(a: &DaoInfoResponse, b: &DaoInfoResponse) -> bool {
    and(and(a.creation_date == b.creation_date, veq(&a.dao_version, &b.dao_version)), and(a.metadata == b.metadata, a.dao_type == b.dao_type))
}

fn mark(n: u8) -> Binary {
    Binary::from(vec![b'm', n])
}

// C23: an upgrade goes through every version on the way, in order, and only forward.
entry!(ent_upgrade, {
    no_panic(true);
    let cur = any_version("current");
    let target = any_version("target");
    let mut w = dao(choice("type", 1), cur.clone());
    let cat = [Version::new(1, 0, 0), Version::new(1, 2, 1), Version::new(1, 10, 0), Version::new(2, 0, 3)];
    let mut there = [false; 4];
    let mut code = [0u64; 4];
    let names = ["code0", "code1", "code2", "code3"];
    let n = param("versions", 4) as usize;
    let mut k = 0;
    // registered in any of two orders
    let back = bool_in("registered_backwards");
    while k < n {
        let i = if back { n - 1 - k } else { k };
        there[i] = bool_in("registered");
        if there[i] {
            code[i] = u64_in(names[i], 1, u64::MAX);
            let mut l = ids(i as u64 + 1);
            l[1] = code[i];
            check(add_version(&mut w, vinfo(cat[i].clone(), l)), "version added");
        }
        k += 1;
    }
    // up to two migration messages
    let given = choice("messages", 3);
    let mut at = [9usize; 2];
    let mut ms = Vec::new();
    let mut j = 0;
    while j < given as usize {
        at[j] = choice("message_for", n as u64) as usize;
        ms.push(VersionMigrateMsg { version: cat[at[j]].clone(), migrate_msg: mark(j as u8) });
        j += 1;
    }
    let dup = given == 2 && at[0] == at[1];
    let by = addr_in("sender", 3);
    let by = by.as_str();
    let before = dinfo(&w);
    let since = w.log.len();
    let ok = w.exec(by, ENT, &X::UpgradeDao(UpgradeDaoMsg { new_version: target.clone(), migrate_msgs: ms }), vec![]);
    let mut known = false;
    let mut i = 0;
    while i < n {
        if there[i] {
            known = or(known, veq(&cat[i], &target));
        }
        i += 1;
    }
    let may = and(vlt(&cur, &target), and(known, by == CTL && !dup));
    check(iff(ok, may), "upgraded exactly when governance asks for a later, existing version");
    let after = dinfo(&w);
    if !ok {
        check(same_info(&before, &after), "nothing changed");
        check(w.log.len() == since, "nothing sent");
        cover("refused");
        return;
    }
    check(veq(&after.dao_version, &target), "version is the target");
    check(and(after.metadata == before.metadata && after.dao_type == before.dao_type, after.creation_date == before.creation_date), "identity kept");
    // the migrations, in order
    let mut pos = since + 1;
    let mut i = 0;
    while i < n {
        if there[i] {
            let on_way = and(vlt(&cur, &cat[i]), not(vlt(&target, &cat[i])));
            if split(on_way) {
                check(pos < w.log.len(), "no version skipped");
                let (from, m) = &w.log[pos];
                check(from == ENT, "sent by the DAO");
                match m {
                    CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr, new_code_id, msg }) => {
                        check(contract_addr == ENT, "the DAO itself is migrated");
                        check(*new_code_id == code[i], "to the code of that version");
                        let want = if at[0] == i {
                            mark(0)
                        } else if at[1] == i {
                            mark(1)
                        } else {
                            to_json_binary(&Empty {}).unwrap()
                        };
                        check(*msg == want, "with the message given for that version");
                    }
                    _ => check(false, "a migration"),
                }
                pos += 1;
            }
        }
        i += 1;
    }
    check(pos == w.log.len(), "nothing else is done");
    cover("upgraded");
});

// C23: more versions than one page of the registry.
entry!(ent_upgrade_many, {
    no_panic(true);
    let mut w = dao(3, Version::new(0, 0, 0));
    let n = param("versions", 60);
    let mut i = 1;
    while i <= n {
        let mut l = ids(1);
        l[1] = 1000 + i;
        check(add_version(&mut w, vinfo(Version::new(0, 0, i), l)), "version added");
        i += 1;
    }
    let target = u64_in("target", 0, u64::MAX);
    let since = w.log.len();
    let ok = w.exec(CTL, ENT, &X::UpgradeDao(UpgradeDaoMsg { new_version: Version::new(0, 0, target), migrate_msgs: vec![] }), vec![]);
    check(iff(ok, and(target >= 1, target <= n)), "upgraded exactly to existing later versions");
    if ok {
        check((w.log.len() - since - 1) as u64 == target, "one migration per version");
        let mut k = since + 1;
        let mut want = 1001;
        while k < w.log.len() {
            match &w.log[k].1 {
                CosmosMsg::Wasm(WasmMsg::Migrate { new_code_id, .. }) => check(*new_code_id == want, "in order"),
                _ => check(false, "a migration"),
            }
            want += 1;
            k += 1;
        }
        cover("upgraded");
    }
});

fn migrate_dao(d: DepsMut, e: Env, b: Binary) -> Result<Response, ()> {
    let m: MigrateMsg = from_json(&b).map_err(|_| ())?;
    enterprise::contract::migrate(d, e, m).map_err(|_| ())
}

// C23: the components follow.
entry!(ent_migrate, {
    no_panic(true);
    let t = choice("type", 4);
    let mut w = dao(t, Version::new(1, 0, 0));
    let mut own = ids(7);
    let names = ["id0", "id1", "id2", "id3", "id4", "id5", "id6", "id7", "id8", "id9", "id10"];
    let mut i = 0;
    while i < 11 {
        if i != 1 {
            own[i] = u64_in(names[i], 1000, u64::MAX);
        }
        i += 1;
    }
    check(add_version(&mut w, vinfo(Version::new(1, 1, 0), ids(6))), "version added");
    let there = bool_in("registered");
    if there {
        check(add_version(&mut w, vinfo(Version::new(1, 2, 1), own)), "version added");
    }
    check(add_version(&mut w, vinfo(Version::new(1, 3, 0), ids(8))), "version added");
    let e = w.idx(ENT).unwrap();
    w.cs[e].code_id = 601;
    w.migrators.push((701, migrate_dao));
    let before = dinfo(&w);
    let cb = comps(&w);
    let since = w.log.len();
    let m = to_json_binary(&MigrateMsg { move_excess_membership_assets_to: None }).unwrap();
    let snap = w.clone();
    let r = w.dispatch(ENT, CosmosMsg::Wasm(WasmMsg::Migrate { contract_addr: ENT.to_string(), new_code_id: 701, msg: m }));
    check(r.is_ok() == there, "migrated where the release is known");
    if r.is_err() {
        w = snap;
        check(same_info(&before, &dinfo(&w)), "nothing changed");
        cover("refused");
        return;
    }
    let member = own[[8, 7, 9, 10][t as usize]];
    let want: [(&str, u64); 9] =
        [(ENT, 701), (OUT, own[4]), (DIST, own[6]), (MEM, member), (CNC, own[10]), (GOV, 0), (CTL, 0), (TRE, 0), (FAC, 0)];
    for (a, c) in want {
        let i = w.idx(a).unwrap();
        check(w.cs[i].code_id == c, "each component has the code of its release");
    }
    check(w.log.len() == since + 5, "each migrated once");
    check(same_info(&before, &dinfo(&w)), "identity kept");
    check(comps(&w) == cb, "components kept");
    cover("migrated");
});

// C24: only governance commands the DAO contract.
entry!(ent_auth, {
    no_panic(true);
    let mut w = dao(choice("type", 4), Version::new(1, 0, 0));
    check(add_version(&mut w, vinfo(Version::new(1, 0, 0), ids(1))), "version added");
    check(add_version(&mut w, vinfo(Version::new(1, 2, 1), ids(2))), "version added");
    w.codes.push((100, &ATTESTATION));
    let att = bool_in("attested");
    if att {
        check(w.exec(CTL, ENT, &X::SetAttestation(SetAttestationMsg { attestation_text: "t".to_string() }), vec![]), "set");
    }
    w.set_bal(ENT, "ucoin", 50);
    let by = who();
    let by = by.as_str();
    let op = choice("op", 7);
    let m = match op {
        0 => X::UpdateMetadata(UpdateMetadataMsg {
            name: ModifyValue::Change("other".to_string()),
            description: ModifyValue::NoChange,
            logo: ModifyValue::NoChange,
            github_username: ModifyValue::NoChange,
            discord_username: ModifyValue::NoChange,
            twitter_username: ModifyValue::NoChange,
            telegram_username: ModifyValue::NoChange,
        }),
        1 => X::UpgradeDao(UpgradeDaoMsg { new_version: Version::new(1, 2, 1), migrate_msgs: vec![] }),
        2 => X::SetAttestation(SetAttestationMsg { attestation_text: "u".to_string() }),
        3 => X::RemoveAttestation {},
        4 => X::ExecuteMsgs(ExecuteMsgsMsg {
            msgs: vec![
                "{\"bank\":{\"send\":{\"to_address\":\"bob\",\"amount\":[{\"denom\":\"ucoin\",\"amount\":\"7\"}]}}}".to_string(),
                "{\"wasm\":{\"execute\":{\"contract_addr\":\"gov\",\"msg\":\"e30=\",\"funds\":[]}}}".to_string(),
            ],
        }),
        5 => X::UpdateConfig(UpdateConfigMsg {
            new_versioning_contract: ModifyValue::Change("ver2".to_string()),
            new_factory_contract: ModifyValue::Change("fac2".to_string()),
        }),
        _ => X::FinalizeInstantiation(FinalizeInstantiationMsg { membership_contract: "evil".to_string(), ..fin_msg() }),
    };
    let before = dinfo(&w);
    let cb = comps(&w);
    let since = w.log.len();
    let n = w.cs.len();
    let ok = w.exec(by, ENT, &m, vec![]);
    // setting up the DAO cannot be repeated by anybody
    check(ok == (op != 6 && by == CTL), "only governance");
    if !ok {
        check(same_info(&before, &dinfo(&w)), "nothing changed");
        check(comps(&w) == cb, "no component changed");
        check(w.bal(ENT, "ucoin") == 50, "nothing paid");
        check(w.log.len() == since && w.cs.len() == n, "nothing sent");
        cover("refused");
    } else {
        if op == 4 {
            check(w.bal("bob", "ucoin") == 7, "paid");
            check(w.log.len() == since + 3, "both messages and no more");
            check(
                matches!(&w.log[since + 2].1, CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, .. }) if contract_addr == GOV),
                "in the order given",
            );
        }
        if op == 0 {
            check(dinfo(&w).metadata.name == "other", "renamed");
        }
        if op != 2 && op != 3 && op != 5 {
            check(comps(&w) == cb, "components kept");
        }
        cover("done");
    }
});

fn change<T>(c: u64, some: T, none: T) -> ModifyValue<T> {
    match c {
        0 => ModifyValue::NoChange,
        1 => ModifyValue::Change(some),
        _ => ModifyValue::Change(none),
    }
}
fn pick(c: u64, old: &Option<String>, new: &str) -> Option<String> {
    match c {
        0 => old.clone(),
        1 => Some(new.to_string()),
        _ => None,
    }
}

// C24: an update of the metadata changes exactly what it names.
entry!(ent_metadata, {
    no_panic(true);
    let t = choice("type", 4);
    let created = u64_in("created", 1, 1 << 33);
    let mut w = World::new();
    w.time = created;
    {
        let mut f = fresh(t, Version::new(1, 0, 0));
        f.time = created;
        let i = f.idx(ENT).unwrap();
        f.cs[i].store = symrt::world::Store::new();
        let given = bool_in("date_given");
        let day = u64_in("date", 1, 1 << 33);
        let m = InstantiateMsg {
            enterprise_factory_contract: FAC.to_string(),
            enterprise_versioning_contract: VER.to_string(),
            dao_metadata: meta(),
            dao_creation_date: if given { Some(Timestamp::from_seconds(day)) } else { None },
            dao_type: kind(t),
            dao_version: Version::new(1, 0, 0),
        };
        f.init(FAC, ENT, to_json_binary(&m).unwrap());
        let d = dinfo(&f);
        check(d.creation_date.seconds() == if given { day } else { created }, "creation date");
        check(d.metadata == meta() && d.dao_type == kind(t) && d.dao_version == Version::new(1, 0, 0), "as created");
        check(f.exec(FAC, ENT, &X::FinalizeInstantiation(fin_msg()), vec![]), "finalized");
        w = f;
    }
    if t != 1 {
        cover("created");
        return;
    }
    let before = dinfo(&w);
    let c: [u64; 7] = [
        choice("name", 2),
        choice("description", 3),
        choice("logo", 3),
        choice("github", 3),
        choice("discord", 3),
        choice("twitter", 2),
        choice("telegram", 2),
    ];
    let s = |x: &str| Some(x.to_string());
    let m = X::UpdateMetadata(UpdateMetadataMsg {
        name: change(c[0], "nn".to_string(), String::new()),
        description: change(c[1], s("n1"), None),
        logo: change(c[2], Logo::Url("n2".to_string()), Logo::None),
        github_username: change(c[3], s("n3"), None),
        discord_username: change(c[4], s("n4"), None),
        twitter_username: change(c[5], s("n5"), None),
        telegram_username: change(c[6], s("n6"), None),
    });
    check(w.exec(CTL, ENT, &m, vec![]), "updated");
    let o = meta();
    let want = DaoMetadata {
        name: if c[0] == 0 { o.name } else { "nn".to_string() },
        description: pick(c[1], &o.description, "n1"),
        logo: match c[2] {
            0 => o.logo,
            1 => Logo::Url("n2".to_string()),
            _ => Logo::None,
        },
        socials: DaoSocialData {
            github_username: pick(c[3], &o.socials.github_username, "n3"),
            discord_username: pick(c[4], &o.socials.discord_username, "n4"),
            twitter_username: pick(c[5], &o.socials.twitter_username, "n5"),
            telegram_username: pick(c[6], &o.socials.telegram_username, "n6"),
        },
    };
    let d = dinfo(&w);
    check(d.metadata == want, "exactly the named fields");
    check(and(d.creation_date == before.creation_date, d.dao_type == before.dao_type && d.dao_version == before.dao_version), "the rest kept");
    let cb = comps(&w).unwrap();
    // the configuration likewise
    let (v, f) = (choice("versioning", 2), choice("factory", 2));
    let m = X::UpdateConfig(UpdateConfigMsg {
        new_versioning_contract: change(v, "ver2".to_string(), String::new()),
        new_factory_contract: change(f, "fac2".to_string(), String::new()),
    });
    check(w.exec(CTL, ENT, &m, vec![]), "configured");
    let mut want = cb;
    if v == 1 {
        want.enterprise_versioning_contract = Addr::unchecked("ver2");
    }
    if f == 1 {
        want.enterprise_factory_contract = Addr::unchecked("fac2");
    }
    check(comps(&w).unwrap() == want, "exactly the named settings");
    check(dinfo(&w).metadata == d.metadata, "metadata kept");
    cover("updated");
});

// C24: set up once, by whoever created the DAO.
entry!(ent_finalize, {
    no_panic(true);
    let c = choice("creator", 3);
    let mut w = fresh(c, Version::new(1, 0, 0));
    let i = w.idx(ENT).unwrap();
    let creator = ["creator", FAC, CTL][c as usize];
    w.cs[i].creator = creator.to_string();
    w.cs[i].admin = Some([ENT, FAC, "alice"][choice("admin", 3) as usize].to_string());
    let first = who();
    let first = first.as_str();
    let a = bool_in("attested");
    let mut m = fin_msg();
    if a {
        m.attestation_contract = Some("att".to_string());
    }
    // before that nobody commands it
    check(!w.exec(first, ENT, &X::RemoveAttestation {}, vec![]), "not in operation yet");
    let ok = w.exec(first, ENT, &X::FinalizeInstantiation(m), vec![]);
    check(ok == (first == creator), "by its creator only");
    let want = ComponentContractsResponse {
        attestation_contract: if a { Some(Addr::unchecked("att")) } else { None },
        ..components()
    };
    check(comps(&w) == if ok { Some(want.clone()) } else { None }, "the components given");
    // and never again
    let second = addr_in("second_sender", 7);
    let second = second.as_str();
    let evil = FinalizeInstantiationMsg {
        enterprise_treasury_contract: "evil".to_string(),
        enterprise_governance_contract: "evil".to_string(),
        enterprise_governance_controller_contract: "evil".to_string(),
        enterprise_outposts_contract: "evil".to_string(),
        funds_distributor_contract: "evil".to_string(),
        membership_contract: "evil".to_string(),
        council_membership_contract: "evil".to_string(),
        attestation_contract: None,
    };
    let again = w.exec(second, ENT, &X::FinalizeInstantiation(evil), vec![]);
    check(again == (!ok && second == creator), "once");
    if ok {
        check(comps(&w) == Some(want), "components kept");
        cover("finalized");
    } else {
        cover("refused");
    }
});

// C25: attestation.
entry!(ent_attest, {
    no_panic(true);
    let t = choice("type", 4);
    let code_a = u64_in("attestation_code", 1, u64::MAX - 1);
    let mut w = dao(t, Version::new(1, 2, 1));
    let mut l = ids(2);
    l[0] = code_a;
    check(add_version(&mut w, vinfo(Version::new(1, 0, 0), ids(1))), "version added");
    check(add_version(&mut w, vinfo(Version::new(1, 2, 1), l)), "version added");
    check(add_version(&mut w, vinfo(Version::new(1, 3, 0), ids(3))), "version added");
    w.codes.push((code_a, &ATTESTATION));
    let users = ["alice", "bob", CTL];
    let has = |l: &[String], u: &str| {
        let mut i = 0;
        while i < l.len() {
            if l[i] == u {
                return true;
            }
            i += 1;
        }
        false
    };
    let mut att: Option<String> = None;
    let mut signed: Vec<String> = Vec::new();
    let steps = param("steps", 4);
    let texts = ["text0", "text1", "text2", "text3", "text4", "text5"];
    let mut last = "";
    let mut n = 0;
    while n < steps {
        match choice("op", 3) {
            0 => {
                // a new text, or the one in force
                let text = if att.is_some() && bool_in("same_text") { last } else { texts[n as usize] };
                last = text;
                check(w.exec(CTL, ENT, &X::SetAttestation(SetAttestationMsg { attestation_text: text.to_string() }), vec![]), "set");
                let a = comps(&w).unwrap().attestation_contract;
                check(a.is_some(), "attestation recorded");
                let a = a.unwrap().to_string();
                let i = w.idx(&a);
                check(i.is_some() && Some(a.clone()) != att, "a new attestation contract");
                check(w.cs[i.unwrap()].code_id == code_a, "of the DAO's version");
                let r: attestation_api::api::AttestationTextResponse =
                    w.query(&a, &attestation_api::msg::QueryMsg::AttestationText {}).unwrap();
                check(r.text == text, "with the text");
                att = Some(a);
                signed = Vec::new();
            }
            1 => {
                check(w.exec(CTL, ENT, &X::RemoveAttestation {}, vec![]), "removed");
                att = None;
            }
            _ => {
                if let Some(a) = att.clone() {
                    let u = if choice("signer", 2) == 0 { "alice".to_string() } else { name_in(3) };
                    check(w.exec(&u, &a, &attestation_api::msg::ExecuteMsg::SignAttestation {}, vec![]), "signed");
                    signed.push(u);
                }
            }
        }
        let mut u = 0;
        while u < 3 {
            check(restricted(&w, users[u]) == (att.is_some() && !has(&signed, users[u])), "restricted exactly while an attestation is unsigned");
            u += 1;
        }
        let mut want = components();
        want.attestation_contract = att.clone().map(Addr::unchecked);
        check(comps(&w) == Some(want), "other components kept");
        n += 1;
    }
    // and so for anybody
    let q = if choice("asked", 2) == 0 { name_in(3) } else { name_in(5) };
    check(restricted(&w, &q) == (att.is_some() && !has(&signed, &q)), "whoever is asked about");
    if att.is_some() && has(&signed, "alice") && !has(&signed, "bob") {
        cover("one_signed");
    }
});
