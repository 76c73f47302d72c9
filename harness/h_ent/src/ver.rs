//! Registry of versions.
use crate::*;

fn list(w: &World, start: Option<Version>, limit: Option<u32>) -> Vec<VersionInfo> {
    let r: VersionsResponse = w.query(VER, &VQ::Versions(VersionsParams { start_after: start, limit })).unwrap();
    r.versions
}
fn get(w: &World, v: &Version) -> Option<VersionInfo> {
    let r: Option<VersionResponse> = w.query(VER, &VQ::Version(VersionParams { version: v.clone() }));
    r.map(|r| r.version)
}
fn vadmin(w: &World) -> String {
    let r: AdminResponse = w.query(VER, &VQ::Admin {}).unwrap();
    r.admin.to_string()
}
fn latest(w: &World) -> Option<VersionInfo> {
    let r: Option<VersionResponse> = w.query(VER, &VQ::LatestVersion {});
    r.map(|r| r.version)
}
fn same(a: &VersionInfo, b: &VersionInfo) -> bool {
    let x = fields(a);
    let y = fields(b);
    let mut ok = and(veq(&a.version, &b.version), a.changelog == b.changelog);
    let mut i = 0;
    while i < 11 {
        ok = and(ok, x[i] == y[i]);
        i += 1;
    }
    ok
}
fn fields(a: &VersionInfo) -> [u64; 11] {
    [
        a.attestation_code_id,
        a.enterprise_code_id,
        a.enterprise_governance_code_id,
        a.enterprise_governance_controller_code_id,
        a.enterprise_outposts_code_id,
        a.enterprise_treasury_code_id,
        a.funds_distributor_code_id,
        a.token_staking_membership_code_id,
        a.denom_staking_membership_code_id,
        a.nft_staking_membership_code_id,
        a.multisig_membership_code_id,
    ]
}

// C26: the registry of any versions, added in any order.
entry!(ver_catalog, {
    no_panic(true);
    let mut w = World::new();
    registry(&mut w);
    check(latest(&w).is_none(), "no latest version without versions");
    let n = param("versions", 3) as usize;
    let mut have: Vec<VersionInfo> = Vec::new();
    let mut k = 0;
    while k < n {
        let v = any_version(["v0", "v1", "v2", "v3"][k]);
        let code = u64_in(["code0", "code1", "code2", "code3"][k], 0, u64::MAX);
        let mut l = ids(k as u64 + 1);
        l[1] = code;
        let info = vinfo(v.clone(), l);
        let mut dup = false;
        for h in &have {
            dup = or(dup, veq(&h.version, &v));
        }
        let ok = add_version(&mut w, info.clone());
        check(iff(ok, not(dup)), "added exactly once");
        if ok {
            have.push(info);
        }
        k += 1;
    }
    // each found as registered
    for h in &have {
        match get(&w, &h.version) {
            Some(g) => check(same(&g, h), "found as registered"),
            None => check(false, "found"),
        }
    }
    let other = any_version("other");
    let mut known = false;
    for h in &have {
        known = or(known, veq(&h.version, &other));
    }
    check(iff(get(&w, &other).is_some(), known), "no version made up");
    let l = latest(&w).unwrap();
    let mut among = false;
    for h in &have {
        check(not(vlt(&l.version, &h.version)), "none later than the latest");
        among = or(among, same(&l, h));
    }
    check(among, "the latest is a registered one");
    // the list from any point
    let limit = choice("limit", 4);
    let from = if bool_in("from_start") { None } else { Some(other) };
    let r = list(&w, from.clone(), if limit == 0 { None } else { Some(limit as u32) });
    let mut after = 0u64;
    for h in &have {
        let t = match &from {
            None => true,
            Some(f) => split(vlt(f, &h.version)),
        };
        if t {
            after += 1;
        }
    }
    let want = if limit == 0 || after < limit { after } else { limit };
    check(r.len() as u64 == want, "as many as asked for and there are");
    let mut i = 0;
    while i < r.len() {
        if i > 0 {
            check(vlt(&r[i - 1].version, &r[i].version), "ascending");
        }
        if let Some(f) = &from {
            check(vlt(f, &r[i].version), "after the start");
        }
        // nothing skipped: as many registered ones lie between the start and this as were listed
        let mut among = false;
        for h in &have {
            among = or(among, same(h, &r[i]));
            let past = match &from {
                None => true,
                Some(f) => vlt(f, &h.version),
            };
            if i == 0 {
                check(implies(past, not(vlt(&h.version, &r[0].version))), "nothing skipped");
            } else {
                check(not(and(vlt(&r[i - 1].version, &h.version), vlt(&h.version, &r[i].version))), "nothing skipped");
            }
        }
        check(among, "listed as registered");
        i += 1;
    }
    cover("listed");
});

// C26: only the administrator writes.
entry!(ver_auth, {
    no_panic(true);
    let mut w = World::new();
    registry(&mut w);
    check(add_version(&mut w, vinfo(Version::new(1, 0, 0), ids(1))), "version added");
    let over = bool_in("handed_over");
    if over {
        check(w.exec(VADMIN, VER, &VX::UpdateAdmin(UpdateAdminMsg { new_admin: "newadmin".to_string() }), vec![]), "handed over");
    }
    let adm = if over { "newadmin" } else { VADMIN };
    let by = addr_in("sender", 10);
    let by = by.as_str();
    let op = choice("op", 3);
    let m = match op {
        0 => VX::UpdateAdmin(UpdateAdminMsg { new_admin: "third".to_string() }),
        1 => VX::AddVersion(AddVersionMsg { version: vinfo(Version::new(1, 1, 0), ids(2)) }),
        _ => VX::EditVersion(edit(Version::new(1, 0, 0), 77, [true; 11], true)),
    };
    let ok = w.exec(by, VER, &m, vec![]);
    check(ok == (by == adm), "only the administrator");
    check(vadmin(&w) == if ok && op == 0 { "third" } else { adm }, "administrator");
    check(get(&w, &Version::new(1, 1, 0)).is_some() == (ok && op == 1), "added only by the administrator");
    let g = get(&w, &Version::new(1, 0, 0)).unwrap();
    check((g.enterprise_code_id == 78) == (ok && op == 2) && (g.enterprise_code_id == 101) == !(ok && op == 2), "edited only by the administrator");
    cover(if ok { "allowed" } else { "refused" });
});

fn edit(v: Version, base: u64, on: [bool; 11], log: bool) -> EditVersionMsg {
    let f = |i: usize| if on[i] { Some(base + i as u64) } else { None };
    EditVersionMsg {
        version: v,
        changelog: if log { Some(vec!["new".to_string()]) } else { None },
        attestation_code_id: f(0),
        enterprise_code_id: f(1),
        enterprise_governance_code_id: f(2),
        enterprise_governance_controller_code_id: f(3),
        enterprise_outposts_code_id: f(4),
        enterprise_treasury_code_id: f(5),
        funds_distributor_code_id: f(6),
        token_staking_membership_code_id: f(7),
        denom_staking_membership_code_id: f(8),
        nft_staking_membership_code_id: f(9),
        multisig_membership_code_id: f(10),
    }
}

/// The list and the latest version say the same as asking for each version does.
fn agree(w: &World, have: &[Version]) {
    let l = list(w, None, None);
    check(l.len() == have.len(), "none added, none lost");
    for v in have {
        let g = get(w, v).unwrap();
        let mut found = false;
        for x in &l {
            found = or(found, same(x, &g));
        }
        check(found, "listed as it is");
    }
    let top = latest(w);
    check(top.is_some() == (have.len() > 0), "a latest one exists once there is any");
    if let Some(t) = top {
        let mut among = false;
        for v in have {
            check(not(vlt(&t.version, v)), "none later than the latest");
            among = or(among, same(&t, &get(w, v).unwrap()));
        }
        check(among, "the latest as it is");
    }
}

// C26: any sequence of registrations and edits.
entry!(ver_history, {
    no_panic(true);
    let mut w = World::new();
    registry(&mut w);
    let pool = [any_version("first"), any_version("second")];
    assume(not(veq(&pool[0], &pool[1])));
    let mut at: [Option<[u64; 11]>; 2] = [None, None];
    let mut order: Vec<Version> = Vec::new();
    let steps = param("steps", 3);
    for k in 0..steps {
        let i = choice("which", 2) as usize;
        let v = pool[i].clone();
        if choice("op", 2) == 0 {
            let l = ids(10 + k);
            let ok = add_version(&mut w, vinfo(v.clone(), l));
            check(ok == at[i].is_none(), "registered once");
            if ok {
                at[i] = Some(l);
                order.push(v);
                cover("added");
            }
        } else {
            let mut on = [false; 11];
            on[1] = true;
            on[choice("field", 2) as usize * 7 + 2] = true;
            let base = u64_in("code", 1000, u64::MAX - 100);
            let ok = w.exec(VADMIN, VER, &VX::EditVersion(edit(v, base, on, false)), vec![]);
            check(ok == at[i].is_some(), "only existing versions are edited");
            if let (true, Some(l)) = (ok, at[i].as_mut()) {
                for j in 0..11 {
                    if on[j] {
                        l[j] = base + j as u64;
                    }
                }
                cover("edited");
            }
        }
        for i in 0..2 {
            let g = get(&w, &pool[i]);
            check(g.is_some() == at[i].is_some(), "found iff registered");
            if let (Some(g), Some(l)) = (g, at[i]) {
                let f = fields(&g);
                for j in 0..11 {
                    check(f[j] == l[j], "as registered and edited");
                }
            }
        }
        agree(&w, &order);
    }
});

// C26: an edit changes exactly what it names, in the version it names.
entry!(ver_edit, {
    no_panic(true);
    let mut w = World::new();
    registry(&mut w);
    let a = any_version("first");
    let b = any_version("second");
    assume(not(veq(&a, &b)));
    check(add_version(&mut w, vinfo(a.clone(), ids(1))), "version added");
    check(add_version(&mut w, vinfo(b.clone(), ids(2))), "version added");
    let base = u64_in("codes", 1000, u64::MAX - 100);
    let mut on = [false; 11];
    // every single field, every pair of neighbours, all, none
    let which = choice("fields", 24) as usize;
    let mut i = 0;
    while i < 11 {
        on[i] = match which {
            22 => true,
            23 => false,
            k if k < 11 => k == i,
            k => k - 11 == i || (k - 10) % 11 == i,
        };
        i += 1;
    }
    let log = bool_in("changelog");
    let target = match choice("which", 3) {
        0 => a.clone(),
        1 => b.clone(),
        _ => any_version("third"),
    };
    let ok = w.exec(VADMIN, VER, &VX::EditVersion(edit(target.clone(), base, on, log)), vec![]);
    let is_a = veq(&target, &a);
    let is_b = veq(&target, &b);
    check(iff(ok, or(is_a, is_b)), "only existing versions are edited");
    let mut n = 0;
    for (v, hit, k) in [(&a, is_a, 1u64), (&b, is_b, 2u64)] {
        let g = get(&w, v).unwrap();
        let got = fields(&g);
        let old = ids(k);
        let hit = split(hit);
        check(veq(&g.version, v), "version kept");
        check(g.changelog.len() == (hit && log) as usize, "changelog");
        let mut i = 0;
        while i < 11 {
            let want = if hit && on[i] { base + i as u64 } else { old[i] };
            check(got[i] == want, "exactly the named fields of the named version");
            i += 1;
        }
        n += hit as u32;
    }
    agree(&w, &[a, b]);
    cover(if n == 1 { "edited" } else { "refused" });
});
