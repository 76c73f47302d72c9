//! C36: the treasury's whitelists, from anywhere, as much as asked for.
use crate::*;
use crate::treas::*;
use cw_asset::AssetInfoBase;
use enterprise_treasury_api::msg::ExecuteMsg as X;
use enterprise_treasury_api::msg::QueryMsg as Q;

fn limit_in() -> Option<u32> {
    if bool_in("limited") {
        Some(u64_in("limit", 0, u32::MAX as u64) as u32)
    } else {
        None
    }
}
fn part<T: Clone>(all: &[T], past: impl Fn(&T) -> bool, limit: Option<u32>) -> Vec<T> {
    let mut v = Vec::new();
    for x in all {
        if past(x) {
            if let Some(l) = limit {
                if split(l as u64 <= v.len() as u64) {
                    break;
                }
            }
            v.push(x.clone());
        }
    }
    v
}
/// Coins, then tokens.
fn rank(a: &AssetInfo) -> (u64, String, String) {
    match a {
        AssetInfoBase::Native(d) => (0, d.clone(), String::new()),
        AssetInfoBase::Cw20(a) => (1, a.to_string(), String::new()),
        AssetInfoBase::Cw1155(a, i) => (2, a.to_string(), i.clone()),
        _ => (3, String::new(), String::new()),
    }
}

entry!(lst_assets, {
    let mut w = base(vec![]);
    let all = [
        AssetInfoUnchecked::native("a"),
        AssetInfoUnchecked::native("b1"),
        AssetInfoUnchecked::cw20("b"),
        AssetInfoUnchecked::cw20("c1"),
        AssetInfoUnchecked::cw20("c2"),
    ];
    let m = choice("which", 4);
    let mut add = Vec::new();
    for i in [4usize, 1, 3, 0, 2] {
        // whole groups come and go
        let g = [0, 0, 1, 1, 1][i];
        if m >> g & 1 == 1 {
            add.push(all[i].clone());
        }
    }
    check(w.exec(CTL, TRE, &X::UpdateAssetWhitelist(UpdateAssetWhitelistMsg { add: add.clone(), remove: vec![] }), vec![]), "updated");
    no_panic(true);
    let have: Vec<AssetInfo> = all
        .iter()
        .filter(|a| add.contains(a))
        .map(|a| match a {
            AssetInfoUnchecked::Native(d) => AssetInfo::native(d.clone()),
            AssetInfoUnchecked::Cw20(a) => AssetInfo::cw20(Addr::unchecked(a.clone())),
            AssetInfoUnchecked::Cw1155(a, i) => AssetInfo::cw1155(Addr::unchecked(a.clone()), i.clone()),
            _ => panic!(),
        })
        .collect();
    let n = |l: u64| addr_in("start_after", l);
    let (start, from) = match choice("start", 4) {
        0 => (None, None),
        1 => {
            let s = n(2);
            (Some(AssetInfoUnchecked::Native(s.clone())), Some((0, s, String::new())))
        }
        2 => {
            let s = n(2);
            (Some(AssetInfoUnchecked::Cw20(s.clone())), Some((1, s, String::new())))
        }
        _ => {
            let (s, t) = (n(1), n(1));
            (Some(AssetInfoUnchecked::Cw1155(s.clone(), t.clone())), Some((2, s, t)))
        }
    };
    let limit = limit_in();
    let want = part(
        &have,
        |a| match &from {
            Some(f) => rank(a) > *f,
            None => true,
        },
        limit,
    );
    check(whitelist(&w, start, limit) == want, "the whitelisted assets after the given one");
    cover("listed");
});

entry!(lst_nft_whitelist, {
    let mut w = base(vec![]);
    let add = vec!["b".to_string(), "ab".to_string(), "b1".to_string(), "a".to_string()];
    check(w.exec(CTL, TRE, &X::UpdateNftWhitelist(UpdateNftWhitelistMsg { add, remove: vec![] }), vec![]), "updated");
    no_panic(true);
    let start = if bool_in("start") { Some(addr_in("start_after", 2)) } else { None };
    let limit = limit_in();
    let r: NftWhitelistResponse = w.query(TRE, &Q::NftWhitelist(NftWhitelistParams { start_after: start.clone(), limit })).unwrap();
    let want = part(
        &["a", "ab", "b", "b1"],
        |a| match &start {
            Some(s) => **a > **s,
            None => true,
        },
        limit,
    );
    check(r.nfts.len() == want.len(), "as many as asked for and there are");
    let mut k = 0;
    while k < want.len() && k < r.nfts.len() {
        check(r.nfts[k].as_str() == want[k], "in order");
        k += 1;
    }
    cover("listed");
});
