//! C43: which pools can be created, and what a new pool is.

use astroport::asset::{AssetInfo, PairInfo};
use astroport::{factory, pair};
use cosmwasm_std::{from_json, to_json_binary, Binary, Decimal};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

use crate::ensure;
use crate::chain::*;
use crate::engine::*;
use crate::world::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct New {
    kind: u8,
    assets: Vec<u8>,
    /// which value each parameter takes
    par: [u8; 12],
    /// 0: none, 1: of another shape, else as the type needs them
    params: u8,
    amounts: [u32; 5],
    by: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tracker: bool,
    news: Vec<New>,
}

struct Zoo {
    info: AssetInfo,
    /// may be a pool's asset at all
    sane: bool,
    dec: Option<u8>,
}

fn bad(msg: String) -> Viol {
    Viol { key: String::new(), msg }
}

fn zoo(w: &World) -> R<Vec<Zoo>> {
    let mut z = vec![];
    for (cw20, dec) in [(false, 6), (false, 18), (false, 1), (true, 6), (true, 18), (true, 0), (false, 6), (false, 8)] {
        z.push(Zoo { info: w.tok(&Tok { cw20, dec })?, sane: true, dec: Some(dec) });
    }
    // the longest and the shortest denoms
    for (d, dec) in [("u".repeat(128), 6), ("abc".into(), 6), ("ibc/0:x.y_z-1".into(), 12)] {
        w.native_coin(&d, dec)?;
        for u in USERS {
            w.c.faucet(u, &d, RICH);
        }
        z.push(Zoo { info: native(&d), sane: true, dec: Some(dec) });
    }
    z.push(Zoo { info: native("uknownbynobody"), sane: true, dec: None });
    z.push(Zoo { info: token("wasm1nocontracthere"), sane: true, dec: None });
    z.push(Zoo { info: token(&w.factory), sane: true, dec: None });
    for d in ["ab".to_string(), "u".repeat(129), "1luna".into(), "u luna".into(), "uluna!".into(), "".into(), "/uluna".into()] {
        z.push(Zoo { info: native(&d), sane: false, dec: None });
    }
    for a in ["", "nonsense", "WASM1ABCDEF"] {
        z.push(Zoo { info: token(a), sane: false, dec: None });
    }
    Ok(z)
}

/// a value around its bounds and whether it is inside
fn bounded(i: u8, lo: u128, mid: u128, hi: u128) -> (Decimal, bool) {
    let v = match i % 8 {
        0 => lo,
        1 => hi,
        2 => lo.saturating_sub(1),
        3 => hi + 1,
        _ => mid,
    };
    (Decimal::raw(v), v >= lo && v <= hi)
}

/// the parameters, and whether they are as the type needs them
fn params(k: Kind, n: &New, infos: &[AssetInfo]) -> (Option<Value>, bool) {
    let track = match n.par[11] % 4 {
        0 => Some(true),
        1 => Some(false),
        _ => None,
    };
    if n.params % 12 == 0 {
        return (None, matches!(k, Kind::Xyk | Kind::Transmuter));
    }
    if n.params % 12 == 1 {
        return (Some(json!("nothing")), k == Kind::Transmuter);
    }
    let p = n.par;
    match k {
        Kind::Xyk => (Some(json!({"track_asset_balances": track})), true),
        Kind::Transmuter => (None, true),
        Kind::Stable => {
            let amp: u64 = [0, 1, 2, 100, 5000, 999_999, 1_000_000, 1_000_001, u64::MAX / 100, u64::MAX][p[0] as usize % 10];
            let owner = match p[1] % 4 {
                0 => Some("nonsense"),
                1 => Some(USERS[1]),
                _ => None,
            };
            (Some(json!({"amp": amp, "owner": owner})), (1..=1_000_000).contains(&amp) && owner != Some("nonsense"))
        }
        Kind::Pcl => {
            const E: u128 = 1_000_000_000_000_000_000;
            let (amp, a) = bounded(p[0], E / 10, 40 * E, 99_999_999_999_999_991_611_392);
            let (gamma, b) = bounded(p[1], E / 100_000_000, E / 10_000, E / 50);
            let (mid, c) = bounded(p[2], E / 20_000, E / 400, E / 100);
            let (out, d) = bounded(p[3], E / 20_000, E / 200, E / 100);
            let (fg, e) = bounded(p[4], 0, E / 5000, E);
            let (thr, f) = bounded(p[5], 0, E / 500_000, E / 100);
            let (delta, g) = bounded(p[6], 0, E / 1000, E);
            let half: u64 = [0, 1, 600, 600, 600, 604_800, 604_801, 600][p[7] as usize % 8];
            let scale = [0, 1, E, E, 2 * E, E / 3, E * 1_000_000, 5 * E][p[8] as usize % 8];
            let ok = a && b && c && d && e && f && g && mid < out && (1..=604_800).contains(&half) && scale > 0;
            (
                Some(json!({
                    "amp": amp, "gamma": gamma, "mid_fee": mid, "out_fee": out, "fee_gamma": fg, "repeg_profit_threshold": thr,
                    "min_price_scale_delta": delta, "ma_half_time": half, "price_scale": Decimal::raw(scale), "track_asset_balances": track,
                })),
                ok,
            )
        }
        Kind::Tax => {
            let mut m = serde_json::Map::new();
            for j in 0..p[0] % 3 {
                let d = match p[1 + j as usize] % 8 {
                    0 => "uforeign".to_string(),
                    x => infos.get(x as usize % 2).map(info_str).unwrap_or_default(),
                };
                let rate = [0, 1, 500, 4_999, 5_000, 100][p[4 + j as usize] as usize % 6] as u128 * 100_000_000_000_000;
                let rate = if p[6 + j as usize] % 8 == 0 { 500_000_000_000_000_001 } else { rate };
                let to = if p[8 + j as usize] % 8 == 0 { "Nobody" } else { TAXED };
                // the same denom twice is one entry
                m.insert(d, json!({"tax_rate": Decimal::raw(rate), "tax_recipient": to}));
            }
            let ok = m.iter().all(|(d, v)| {
                infos.contains(&native(d)) && v["tax_recipient"] != "Nobody" && from_json::<Decimal>(serde_json::to_vec(&v["tax_rate"]).unwrap()).unwrap() <= Decimal::percent(50)
            });
            let admin = if p[3] % 8 == 0 { "Nobody" } else { TAXADM };
            let t = track.unwrap_or(false);
            (Some(json!({"tax_configs": m, "tax_config_admin": admin, "track_asset_balances": t})), ok && admin != "Nobody")
        }
    }
}

fn c43(case: &Case, obs: &mut Obs) -> V {
    let w = World::with(&[], true, case.tracker).map_err(|e| bad(format!("world: {e}")))?;
    let z = zoo(&w).map_err(|e| bad(format!("assets: {e}")))?;
    let mut have: Vec<(BTreeSet<String>, String)> = vec![];
    for (n, x) in case.news.iter().enumerate() {
        let k = KINDS[x.kind as usize % KINDS.len()];
        let picks: Vec<&Zoo> = x.assets.iter().map(|i| &z[*i as usize % z.len()]).collect();
        let infos: Vec<AssetInfo> = picks.iter().map(|p| p.info.clone()).collect();
        let key: BTreeSet<String> = infos.iter().map(|i| format!("{i:?}")).collect();
        let (par, fits) = params(k, x, &infos);
        let tracked = par.as_ref().is_some_and(|p| p["track_asset_balances"] == true);
        let mut why: Vec<&str> = vec![];
        let most = if k == Kind::Transmuter { 5 } else { 2 };
        if infos.len() < 2 || infos.len() > most {
            why.push("number of assets");
        }
        if key.len() != infos.len() {
            why.push("the same asset twice");
        }
        if picks.iter().any(|p| !p.sane) {
            why.push("no valid asset");
        }
        if matches!(k, Kind::Stable | Kind::Pcl | Kind::Transmuter) && picks.iter().any(|p| p.dec.is_none()) {
            why.push("unknown precision");
        }
        if k == Kind::Transmuter && infos.iter().any(|i| !i.is_native_token()) {
            why.push("cw20 in a transmuter");
        }
        if !fits {
            why.push("parameters");
        }
        // a pool that is to track its balances needs the factory to know how
        if tracked && !case.tracker {
            why.push("no tracker");
        }
        if have.iter().any(|(h, _)| *h == key) {
            why.push("registered already");
        }
        let before = w.c.state();
        let at = w.c.block().time.seconds();
        let r = w.c.exec(
            USERS[x.by as usize % 4],
            &w.factory,
            &factory::ExecuteMsg::CreatePair {
                pair_type: pair_type(k),
                asset_infos: infos.clone(),
                init_params: par.as_ref().map(|p| to_json_binary(p).unwrap()),
            },
            &[],
        );
        let id = format!("creation {n}, {k:?} of {infos:?} with {par:?}");
        if !why.is_empty() {
            ensure!(r.is_err(), "{id}: accepted although: {why:?}");
            ensure!(w.c.same_state(&before), "{id}: refused, but {}", w.c.diff(&before));
            if why.len() == 1 {
                obs.tag(format!("{k:?} refused: {}", why[0]));
                obs.nontrivial = true;
            }
            continue;
        }
        ensure!(r.is_ok(), "{id}: refused: {r:?}");
        obs.tag(format!("{k:?} created"));
        obs.nontrivial = true;
        // found by its set of assets in any order
        let mut rev = infos.clone();
        rev.reverse();
        let p: PairInfo = w.c.query(&w.factory, &factory::QueryMsg::Pair { asset_infos: rev }).map_err(|e| bad(format!("{id}: not found: {e}")))?;
        let pool = p.contract_addr.to_string();
        ensure!(have.iter().all(|(_, a)| *a != pool), "{id}: is another pool: {pool}");
        ensure!(p.asset_infos == infos && p.pair_type == pair_type(k), "{id}: reports {p:?}");
        let own: PairInfo = w.c.query(&pool, &pair::QueryMsg::Pair {}).map_err(|e| bad(format!("{id}: {e}")))?;
        ensure!(own == p, "{id}: factory says {p:?}, pool says {own:?}");
        let lp = p.liquidity_token.clone();
        ensure!(lp.starts_with(&format!("factory/{pool}/")), "{id}: its LP token is {lp}");
        ensure!(w.c.supply(&lp) == 0, "{id}: {} LP tokens exist at once", w.c.supply(&lp));
        let st: pair::PoolResponse = w.c.query(&pool, &pair::QueryMsg::Pool {}).map_err(|e| bad(format!("{id}: {e}")))?;
        ensure!(
            st.total_share.is_zero() && st.assets == infos.iter().map(|i| asset(i, 0)).collect::<Vec<_>>(),
            "{id}: new pool holds {st:?}"
        );
        for i in &infos {
            let d: Vec<AssetInfo> = vec![i.clone(), i.clone()];
            ensure!(
                w.c.query::<PairInfo, _>(&w.factory, &factory::QueryMsg::Pair { asset_infos: d }).is_err(),
                "{id}: found under {i} twice"
            );
        }
        // its configuration
        let mut c: Value = w.c.query(&pool, &json!({"config": {}})).map_err(|e| bad(format!("{id}: {e}")))?;
        if let Some(s) = c.get("params").and_then(|p| p.as_str()).map(|s| s.to_string()) {
            let b = Binary::from_base64(&s).map_err(|e| bad(format!("{id}: {e}")))?;
            c["params"] = from_json(b).map_err(|e| bad(format!("{id}: {e}")))?;
        }
        ensure!(c["factory_addr"] == w.factory.as_str(), "{id}: its factory is {c}");
        if k != Kind::Transmuter {
            let got = &c["params"];
            let want = par.clone().unwrap_or(json!({}));
            for (f, v) in want.as_object().unwrap() {
                let v = match (k, f.as_str()) {
                    (_, "track_asset_balances") => json!(v.as_bool().unwrap_or(false)),
                    // reported as a decimal
                    (Kind::Stable, "amp") => json!(v.as_u64().unwrap().to_string()),
                    (Kind::Stable, "owner") => continue,
                    _ => v.clone(),
                };
                ensure!(got[f.as_str()] == v, "{id}: {f} is {} instead of {v}", got[f.as_str()]);
            }
        }
        if k == Kind::Pcl {
            ensure!(c["params"]["fee_share"].is_null(), "{id}: shares its fees: {c}");
        }
        let tr: R<Value> = w.c.query(&pool, &json!({"asset_balance_at": {"asset_info": infos[0], "block_height": "1"}}));
        if tracked {
            let v = tr.map_err(|e| bad(format!("{id}: balances not tracked: {e}")))?;
            ensure!(v.is_null(), "{id}: balance before it existed: {v}");
        }
        have.push((key, pool.clone()));
        ensure!(w.c.block().time.seconds() == at, "time");
        // it can be used: a first deposit, if everyone has the assets
        let decs: Vec<u8> = picks.iter().map(|p| p.dec.unwrap_or(0)).collect();
        if picks.iter().any(|p| p.dec.is_none()) {
            continue;
        }
        let real = Pool { kind: k, addr: pool.clone(), lp: lp.clone(), infos: infos.clone(), decs: decs.clone() };
        // of about the same worth in whole tokens, at the concentrated pool's own price
        let scale = match (k, &par) {
            (Kind::Pcl, Some(p)) => p["price_scale"].as_str().unwrap().parse::<f64>().unwrap(),
            _ => 1.0,
        };
        let whole = |i: usize| match (k, i) {
            (Kind::Pcl, 0) => 1000.0,
            (Kind::Pcl, _) => 1000.0 / scale,
            _ => 10_000.0 + x.amounts[i] as f64,
        };
        let d: Vec<u128> = (0..infos.len()).map(|i| (whole(i) * 10f64.powi(decs[i] as i32)) as u128).collect();
        if d.iter().any(|a| *a < 10_000 || *a > RICH / 4) {
            continue;
        }
        if k == Kind::Pcl && scale < 1e-3 {
            continue;
        }
        let dep = w.provide(&real, USERS[0], &d, &ProvideOpts::default());
        ensure!(dep.is_ok(), "{id}: first deposit of {d:?}: {dep:?}");
        let st: pair::PoolResponse = w.c.query(&pool, &pair::QueryMsg::Pool {}).map_err(|e| bad(format!("{id}: {e}")))?;
        let held: Vec<u128> = st.assets.iter().map(|a| a.amount.u128()).collect();
        ensure!(held == d && st.total_share.u128() == w.c.supply(&lp), "{id}: after {d:?} it reports {st:?}");
        obs.tag(format!("{k:?} first deposit"));
    }
    Ok(())
}

fn s43(deep: bool) -> BoxedStrategy<Case> {
    let good = 0u8..11;
    let wild = 0u8..24;
    let assets = prop_oneof![
        10 => prop::collection::vec(good.clone(), 2),
        3 => prop::collection::vec(good.clone(), 0..7),
        3 => prop::sample::subsequence(vec![0u8, 1, 2, 6, 7, 8, 9, 10], 2..=6).prop_shuffle(),
        4 => prop::collection::vec(wild, 2),
    ];
    // mostly values inside the bounds
    let par = prop::array::uniform12(prop_oneof![5 => 4u8..8, 1 => 0u8..8, 1 => any::<u8>()]);
    let new = (0u8..5, assets, par, 0u8..48, prop::array::uniform5(0u32..1_000_000), any::<u8>()).prop_map(|(kind, assets, par, params, amounts, by)| New {
        kind,
        assets,
        par,
        params: if params < 4 { params } else { 7 },
        amounts,
        by,
    });
    (prop::bool::weighted(0.8), prop::collection::vec(new, 1..if deep { 10 } else { 5 })).prop_map(|(tracker, news)| Case { tracker, news }).boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C43",
        rule: "a pool was created, or refused for exactly one reason",
        assumptions: &[
            "Constant-product and sale-tax pools do not look an asset's precision up, so they are created over tokens nobody knows as well.",
            "The account creating a pool may create its type (C16).",
        ],
        parts: vec![Box::new(Gen { name: "creations", quick: 20_000, thorough: 100_000, strategy: s43, run: c43 })],
    }]
}
