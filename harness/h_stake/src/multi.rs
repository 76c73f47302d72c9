//! Multisig membership.
use crate::*;
use multisig_membership_api::msg::*;

pub fn uw(u: &str, x: u128) -> UserWeight {
    UserWeight { user: u.to_string(), weight: x.into() }
}
pub fn inst(init: &[(&str, u128)], cps: Option<Vec<TotalWeightCheckpoint>>) -> InstantiateMsg {
    let mut v = Vec::new();
    for (u, x) in init {
        v.push(uw(u, *x));
    }
    InstantiateMsg {
        enterprise_contract: ENT.to_string(),
        initial_weights: Some(v),
        weight_change_hooks: Some(vec![HOOK.to_string()]),
        total_weight_by_height_checkpoints: cps.clone(),
        total_weight_by_seconds_checkpoints: cps,
    }
}
pub fn base() -> World {
    let mut w = World::new();
    w.time = T0;
    w.height = H0;
    w.add(ENT, &ENTERPRISE);
    w.add(HOOK, &SINK);
    w.add("hookb", &SINK);
    w.add(CTL, &SINK);
    w.add(MEM, &MULTI);
    ent_type(&mut w, 3);
    w
}
pub fn world(init: &[(&str, u128)], cps: Option<Vec<TotalWeightCheckpoint>>) -> World {
    let mut w = base();
    w.init(FAC, MEM, to_json_binary(&inst(init, cps)).unwrap());
    w
}
pub fn members(w: &World) -> Vec<UserWeightResponse> {
    let r: MembersResponse = w.query(MEM, &QueryMsg::Members(MembersParams { start_after: None, limit: None })).unwrap();
    r.members
}
pub const M: [&str; 3] = ["alice", "bob", "carol"];

fn agree(w: &World, m: &[u128; 3], since: usize, before: &[u128; 3]) {
    let mut seen = *before;
    for c in reported(w, since, HOOK) {
        let i = M.iter().position(|x| *x == c.user).unwrap();
        check(c.old_weight.u128() == seen[i], "old weight reported");
        seen[i] = c.new_weight.u128();
    }
    for i in 0..3 {
        check(weight(w, M[i]) == m[i], "member weight as last decided");
        check(seen[i] == m[i], "every change of weight is reported");
    }
    check(now_total(w) == m[0] + m[1] + m[2], "total is the sum of the members");
    let mut s = [0u128; 3];
    for x in members(w) {
        let i = M.iter().position(|y| *y == x.user.as_str()).unwrap();
        s[i] += x.weight.u128();
    }
    check(s == *m, "members listed");
}

// C15: any history of membership edits.
entry!(multi_history, {
    let a = u128_in("a", 0, MAXW);
    let b = u128_in("b", 0, MAXW);
    let mut w = world(&[("alice", a), ("bob", b)], None);
    no_panic(true);
    let mut m = [a, b, 0u128];
    check(now_total(&w) == a + b && weight(&w, "alice") == a && weight(&w, "bob") == b, "initial members");
    let n = param("steps", 2);
    for _ in 0..n {
        let since = w.log.len();
        let before = m;
        let x = u128_in("x", 0, MAXW);
        let y = u128_in("y", 0, MAXW);
        let who: &[usize] = [&[0usize][..], &[2], &[0, 1], &[1, 2], &[2, 0], &[], &[1, 1]][choice("who", 7) as usize];
        let mut l = Vec::new();
        for (k, i) in who.iter().enumerate() {
            l.push(uw(M[*i], if k == 0 { x } else { y }));
        }
        let dup = who.len() == 2 && who[0] == who[1];
        let set = choice("op", 2) == 1;
        let ok = if set {
            w.exec(CTL, MEM, &ExecuteMsg::SetMembers(SetMembersMsg { new_members: l }), vec![])
        } else {
            w.exec(CTL, MEM, &ExecuteMsg::UpdateMembers(UpdateMembersMsg { update_members: l }), vec![])
        };
        check(ok == !dup, "a list naming a member twice is refused");
        if ok {
            if set {
                m = [0, 0, 0];
            }
            for (k, i) in who.iter().enumerate() {
                m[*i] = if k == 0 { x } else { y };
            }
            cover(if set { "set" } else { "updated" });
        }
        agree(&w, &m, since, &before);
    }
});

// C15: duplicates at creation; C14: totals over time.
entry!(multi_inst, {
    let mut w = base();
    no_panic(true);
    let x = u128_in("x", 0, MAXW);
    let y = u128_in("y", 0, MAXW);
    let dup = choice("dup", 2) == 1;
    let ok = w.try_init(FAC, MEM, &inst(&[("alice", x), (if dup { "alice" } else { "bob" }, y)], None));
    check(ok == !dup, "a list naming a member twice is refused");
    if ok {
        w.height = u64_in("h", H0 + 1, TMAX);
        w.time = u64_in("t", T0, TMAX);
        let v = u128_in("new", 0, MAXW);
        let set = choice("set", 2) == 1;
        let ok = if set {
            w.exec(CTL, MEM, &ExecuteMsg::SetMembers(SetMembersMsg { new_members: vec![uw("carol", v)] }), vec![])
        } else {
            w.exec(CTL, MEM, &ExecuteMsg::UpdateMembers(UpdateMembersMsg { update_members: vec![uw("alice", v)] }), vec![])
        };
        check(ok, "update");
        let now = if set { v } else { v + y };
        let at = u64_in("at", 0, TMAX);
        let by_h = choice("by_height", 2) == 1;
        let (b0, b1) = if by_h { (H0 < at, w.height < at) } else { (T0 < at, w.time < at) };
        let want = ite(b1, now, ite(b0, x + y, 0));
        let got = total(&w, if by_h { Expiration::AtHeight(at) } else { Expiration::AtTime(Timestamp::from_seconds(at)) });
        check(got == want, "the total at a moment counts exactly the changes before it");
        cover("asked");
    }
});

// C14: checkpoints carried over from an earlier version of the DAO.
entry!(checkpoints, {
    let c1 = u64_in("c1", 1, H0 - 1);
    let c2 = u64_in("c2", 1, H0 - 1);
    assume(c1 < c2);
    let v1 = u128_in("v1", 0, MAXW);
    let v2 = u128_in("v2", 0, MAXW);
    let cps = Some(vec![
        TotalWeightCheckpoint { height: c1, total_weight: v1.into() },
        TotalWeightCheckpoint { height: c2, total_weight: v2.into() },
    ]);
    let kind = choice("kind", 3);
    let a = u128_in("a", 1, MAXW);
    let w = match kind {
        0 => world(&[("alice", a)], cps),
        1 => crate::world_with(1, Duration::Time(5), None, cps),
        _ => crate::world_with(2, Duration::Time(5), None, cps),
    };
    no_panic(true);
    let at = u64_in("at", 0, H0);
    let by_h = choice("by_height", 2) == 1;
    let got = total(&w, if by_h { Expiration::AtHeight(at) } else { Expiration::AtTime(Timestamp::from_seconds(at)) });
    check(got == ite(c2 < at, v2, ite(c1 < at, v1, 0)), "carried-over totals are kept");
    cover("asked");
});
