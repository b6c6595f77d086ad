//! C42: settings take effect as given, and nothing else changes.

use std::collections::BTreeMap;

use cosmwasm_std::{from_json, to_json_binary, Binary, Decimal, WasmMsg};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::chain::*;
use crate::engine::*;
use crate::props::access::{zoo, Zoo};
use crate::world::*;
use crate::ensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SOp {
    k: u8,
    /// which fields are given
    mask: u16,
    v: [u32; 8],
    secs: u32,
}

/// everything the contracts report about their settings
fn view(z: &Zoo) -> R<BTreeMap<String, Value>> {
    let c = &z.w.c;
    let mut m = BTreeMap::new();
    for k in ["factory", "incentives", "maker", "xyk", "stable", "pcl", "tax", "transmuter", "granter", "vesting", "registry", "router"] {
        let mut v: Value = c.query(&z.at[k], &json!({"config": {}}))?;
        if let Some(p) = v.get("params").and_then(|p| p.as_str()).map(|s| s.to_string()) {
            v["params"] = from_json(Binary::from_base64(&p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        }
        if let Some(l) = v.get("pair_configs").and_then(|l| l.as_array()).cloned() {
            v["pair_configs"] = Value::Object(l.into_iter().map(|x| (x["pair_type"].to_string(), x)).collect());
        }
        m.insert(k.to_string(), v);
    }
    m.insert("tracker".into(), c.query(&z.at["factory"], &json!({"tracker_config": {}}))?);
    let b: Vec<(String, String)> = c.query(&z.at["maker"], &json!({"bridges": {}}))?;
    m.insert("bridges".into(), json!(b.into_iter().collect::<BTreeMap<_, _>>()));
    m.insert("seize".into(), c.query(&z.at["maker"], &json!({"query_seize_config": {}}))?);
    m.insert("wallet".into(), c.query(&z.at["wallet"], &json!({"admin_list": {}}))?);
    m.insert("marketing".into(), c.query(&z.at["xtoken"], &json!({"marketing_info": {}}))?);
    m.insert("minter".into(), c.query(&z.at["xtoken"], &json!({"minter": {}}))?);
    let p: Value = c.query(&z.at["incentives"], &json!({"active_pools": {}}))?;
    m.insert("active".into(), p);
    Ok(m)
}

struct Change {
    to: &'static str,
    by: String,
    msg: Value,
    /// whether every given value is within its bounds
    valid: bool,
    /// (view, path, new value)
    set: Vec<(&'static str, Vec<String>, Value)>,
}



fn change(z: &Zoo, now: &BTreeMap<String, Value>, op: &SOp) -> Option<Change> {
    let x = |i: usize| op.v[i] as usize;
    let given = |i: usize| op.mask >> i & 1 == 1;
    let person = |i: usize| z.people[x(i) % z.people.len()].clone();
    let pick = |i: usize, l: &[u64]| l[x(i) % l.len()];
    let owner = z.own["factory"].clone().unwrap();
    let mut set: Vec<(&'static str, Vec<String>, Value)> = vec![];
    let mut f = serde_json::Map::new();
    let mut valid = true;
    let path = |p: &str| p.split('/').map(String::from).collect::<Vec<_>>();
    let wrap = |params: Value| json!({"update_config": {"params": to_json_binary(&params).unwrap()}});
    let (to, by, msg): (&'static str, String, Value) = match op.k % 12 {
        0 => {
            for (i, (n, v)) in [
                ("token_code_id", json!(pick(0, &[1, 2, 3, 77, 1 << 40]))),
                ("fee_address", json!(person(1))),
                ("generator_address", json!(person(2))),
                ("whitelist_code_id", json!(pick(3, &[1, 2, 9, 1 << 41]))),
                ("coin_registry_address", json!(person(4))),
            ]
            .into_iter()
            .enumerate()
            {
                if given(i) {
                    f.insert(n.into(), v.clone());
                    set.push(("factory", path(n), v));
                }
            }
            ("factory", owner, json!({"update_config": f}))
        }
        1 => {
            let code = pick(0, &[1, 2, 5, 1 << 33]);
            set.push(("tracker", path("code_id"), json!(code)));
            f.insert("tracker_code_id".into(), json!(code));
            if given(1) {
                // only used when there is no tracker yet
                f.insert("token_factory_addr".into(), json!(person(1)));
            }
            ("factory", owner, json!({"update_tracker_config": f}))
        }
        2 => {
            let kind = KINDS[x(0) % 5];
            let (total, maker) = (pick(1, &[0, 1, 30, 9_999, 10_000, 10_001, 65_535]), pick(2, &[0, 1, 5_000, 10_000, 10_001, 65_535]));
            valid = total <= 10_000 && maker <= 10_000;
            let t = serde_json::to_value(pair_type(kind)).unwrap();
            let t = if given(4) { json!({"custom": format!("new-{}", x(4) % 3)}) } else { t };
            let cfg = json!({
                "code_id": pick(3, &[1, 2, 3, 4, 5]),
                "pair_type": t,
                "total_fee_bps": total,
                "maker_fee_bps": maker,
                "is_disabled": given(0),
                "is_generator_disabled": given(1),
                "permissioned": given(2),
            });
            set.push(("factory", vec!["pair_configs".into(), t.to_string()], cfg.clone()));
            ("factory", owner, json!({"update_pair_config": {"config": cfg}}))
        }
        3 => {
            let gas = pick(5, &[399_999, 400_000, 400_001, 1_500_000, 1_500_001, 0]);
            for (i, (n, v)) in [
                ("astro_token", json!(z.toks[x(0) % 5])),
                ("vesting_contract", json!(person(1))),
                ("generator_controller", json!(person(2))),
                ("guardian", json!(person(3))),
                ("incentivization_fee_info", json!({"fee_receiver": person(4), "fee": {"denom": "ugas", "amount": (x(4) % 1000).to_string()}})),
                ("token_transfer_gas_limit", json!(gas)),
            ]
            .into_iter()
            .enumerate()
            {
                if given(i) {
                    f.insert(n.into(), v.clone());
                    set.push(("incentives", path(n), v));
                    valid &= i != 5 || (400_000..=1_500_000).contains(&gas);
                }
            }
            ("incentives", z.own["incentives"].clone().unwrap(), json!({"update_config": f}))
        }
        4 => {
            let cfg = &now["maker"];
            let fac = if x(0) % 4 == 0 { person(0) } else { z.w.factory.clone() };
            let gp = pick(2, &[0, 1, 50, 99, 100, 101, 1 << 33]);
            let spread = [("0.000000000000000001", true), ("0.5", true), ("0.500000000000000001", false), ("0", false), ("0.05", true)][x(3) % 5];
            let cut = pick(4, &[0, 1, 49, 50, 51, 1 << 40]);
            let cool = pick(5, &[29, 30, 31, 600, 601, 0]);
            let share = [("0", false), ("0.000000000000000001", true), ("1", true), ("1.000000000000000001", false), ("0.1", true)][x(6) % 5];
            if given(0) {
                f.insert("factory_contract".into(), json!(fac));
                set.push(("maker", path("factory_contract"), json!(fac)));
            }
            if given(1) {
                f.insert("staking_contract".into(), json!(person(1)));
                set.push(("maker", path("staking_contract"), json!(person(1))));
            }
            if given(2) {
                let v = if x(1) % 3 == 0 { json!({"remove": {}}) } else { json!({"set": person(2)}) };
                set.push(("maker", path("governance_contract"), v.get("set").cloned().unwrap_or(Value::Null)));
                f.insert("governance_contract".into(), v);
            }
            if given(3) {
                f.insert("governance_percent".into(), json!(gp.to_string()));
                set.push(("maker", path("governance_percent"), json!(gp.to_string())));
                valid &= gp <= 100;
            }
            if given(4) {
                let a = json!(z.toks[x(7) % 5]);
                f.insert("basic_asset".into(), a.clone());
                set.push(("maker", path("default_bridge"), a));
            }
            if given(5) {
                f.insert("max_spread".into(), json!(spread.0));
                set.push(("maker", path("max_spread"), json!(spread.0)));
                valid &= spread.1;
            }
            if given(6) {
                let v = json!({"second_fee_receiver": person(3), "second_receiver_cut": cut.to_string()});
                f.insert("second_receiver_params".into(), v.clone());
                set.push(("maker", path("second_receiver_cfg"), v));
                valid &= (1..=50).contains(&cut);
            }
            if given(7) {
                f.insert("collect_cooldown".into(), json!(cool));
                valid &= (30..=600).contains(&cool);
            }
            let mut astro = cfg["astro_token"].clone();
            if given(8) {
                astro = json!(z.toks[x(5) % 5]);
                f.insert("astro_token".into(), astro.clone());
                set.push(("maker", path("astro_token"), astro.clone()));
            }
            if given(9) {
                if x(7) % 4 == 0 {
                    f.insert("dev_fund_config".into(), json!({"set": null}));
                    set.push(("maker", path("dev_fund_conf"), Value::Null));
                } else {
                    let t = &z.toks[x(7) % 5];
                    let v = json!({"address": person(6), "share": share.0, "asset_info": t});
                    f.insert("dev_fund_config".into(), json!({"set": v}));
                    set.push(("maker", path("dev_fund_conf"), v));
                    let fac = if given(0) { json!(fac) } else { cfg["factory_contract"].clone() };
                    let pool = z.pools.values().any(|p| {
                        let l: Vec<Value> = p.infos.iter().map(|i| json!(i)).collect();
                        l.contains(&astro) && l.contains(&json!(t)) && astro != json!(t)
                    });
                    valid &= share.1 && fac == json!(z.w.factory) && pool;
                }
            }
            ("maker", z.own["maker"].clone().unwrap(), json!({"update_config": f}))
        }
        5 => {
            if given(0) {
                f.insert("receiver".into(), json!(person(0)));
                set.push(("seize", path("receiver"), json!(person(0))));
            }
            let l: Vec<Value> = (0..5).filter(|i| given(1 + i)).map(|i| json!(z.toks[i])).collect();
            if !l.is_empty() || given(6) {
                f.insert("seizable_assets".into(), json!(l));
            }
            set.push(("seize", path("seizable_assets"), json!(l)));
            ("maker", z.own["maker"].clone().unwrap(), json!({"update_seize_config": f}))
        }
        6..=8 => {
            let to = ["xyk", "stable", "pcl"][(op.k % 12 - 6) as usize];
            let by = now[to]["owner"].as_str()?.to_string();
            let by = if to == "xyk" { owner } else { by };
            if given(0) {
                set.push((to, path("params/fee_share"), Value::Null));
                (to, by, wrap(json!("disable_fee_share")))
            } else {
                let bps = pick(0, &[0, 1, 2, 999, 1000, 1001, 10_000, 65_535]);
                valid = (1..=1000).contains(&bps);
                set.push((to, path("params/fee_share"), json!({"bps": bps, "recipient": person(1)})));
                (to, by, wrap(json!({"enable_fee_share": {"fee_share_bps": bps, "fee_share_address": person(1)}})))
            }
        }
        9 => {
            let admin = now["tax"]["params"]["tax_config_admin"].as_str()?.to_string();
            let by = if given(4) { owner } else { admin.clone() };
            if given(0) {
                let mut t = serde_json::Map::new();
                let p = &z.pools["tax"];
                for i in 0..2 {
                    if given(2 + i) {
                        let r = [("0", true), ("0.5", true), ("0.500000000000000001", false), ("0.07", true), ("1", false)][x(i) % 5];
                        valid &= r.1;
                        t.insert(info_str(&p.infos[i]), json!({"tax_rate": r.0, "tax_recipient": person(2 + i)}));
                    }
                }
                if given(5) && x(6) % 3 == 0 {
                    // an asset the pool does not hold
                    valid = false;
                    t.insert(info_str(&z.toks[4]), json!({"tax_rate": "0.1", "tax_recipient": person(2)}));
                }
                f.insert("tax_configs".into(), json!(t));
                set.push(("tax", path("params/tax_configs"), json!(t)));
                valid &= by == admin;
            }
            if given(1) {
                f.insert("tax_config_admin".into(), json!(person(5)));
                set.push(("tax", path("params/tax_config_admin"), json!(person(5))));
                valid &= by == admin;
            }
            ("tax", by, wrap(json!(f)))
        }
        10 => {
            let by = now["marketing"]["marketing"].as_str()?.to_string();
            let text = |i: usize| ["", "astro", "a longer text, with punctuation", "Ж"][x(i) % 4];
            for (i, n) in ["project", "description"].into_iter().enumerate() {
                if given(i) {
                    f.insert(n.into(), json!(text(i)));
                    set.push(("marketing", path(n), if text(i).is_empty() { Value::Null } else { json!(text(i)) }));
                }
            }
            if given(2) {
                f.insert("marketing".into(), json!(person(2)));
                set.push(("marketing", path("marketing"), json!(person(2))));
            }
            ("xtoken", by, json!({"update_marketing": f}))
        }
        _ => {
            let a = pick(0, &[0, 1, 1000, 1 << 50]);
            set.push(("incentives", path("astro_per_second"), json!(a.to_string())));
            ("incentives", z.own["incentives"].clone().unwrap(), json!({"set_tokens_per_second": {"amount": a.to_string()}}))
        }
    };
    Some(Change { to, by, msg, valid, set })
}

fn put(v: &mut Value, path: &[String], x: &Value) {
    if path.len() == 1 {
        v[&path[0]] = x.clone();
    } else {
        put(&mut v[&path[0]], &path[1..], x)
    }
}
/// numbers written in different ways are the same
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::String(a), Value::String(b)) => {
            a == b || matches!((a.parse::<Decimal>(), b.parse::<Decimal>()), (Ok(a), Ok(b)) if a == b)
        }
        (Value::Object(a), Value::Object(b)) => {
            a.keys().chain(b.keys()).all(|k| same(a.get(k).unwrap_or(&Value::Null), b.get(k).unwrap_or(&Value::Null)))
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        _ => a == b,
    }
}

fn c42(ops: &Vec<SOp>, o: &mut Obs) -> V {
    let z = zoo()?;
    for (n, op) in ops.iter().enumerate() {
        z.w.c.advance(1, op.secs as u64);
        let before = view(&z)?;
        let Some(ch) = change(&z, &before, op) else { continue };
        let st = z.w.c.state();
        let r = z.w.c.raw(
            &ch.by,
            M::Wasm(WasmMsg::Execute { contract_addr: z.at[ch.to].clone(), msg: to_json_binary(&ch.msg).unwrap(), funds: vec![] }),
        );
        let at = format!("op {n}: {} to {} by {}", ch.msg, ch.to, ch.by);
        ensure!(r.is_ok() == ch.valid, "{at}: expected to be {}: {r:?}", if ch.valid { "accepted" } else { "refused" });
        if let Err(_) = r {
            ensure!(z.w.c.same_state(&st), "{at}: refused, but changed {}", z.w.c.diff(&st));
            o.tag(format!("{} refused", ch.to));
            continue;
        }
        let mut want = before.clone();
        for (v, p, x) in &ch.set {
            put(want.get_mut(*v).unwrap(), p, x);
        }
        let after = view(&z)?;
        for (k, v) in &after {
            ensure!(same(v, &want[k]), "{at}: {k} reports {v}, expected {}", want[k]);
        }
        o.tag(ch.to);
        o.nontrivial |= !ch.set.is_empty();
    }
    Ok(())
}

fn s42(deep: bool) -> BoxedStrategy<Vec<SOp>> {

    let op = (
        prop_oneof![4 => 0u8..12, 3 => Just(4u8), 1 => Just(3u8)],
        prop_oneof![1 => any::<u16>(), 1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| a & b), 1 => (0u32..12).prop_map(|i| 1 << i)],
        any::<[u32; 8]>(),
        0u32..100_000,
    )
        .prop_map(|(k, mask, v, secs)| SOp { k, mask, v, secs });
    prop::collection::vec(op, 1..if deep { 40 } else { 16 }).boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C42",
        rule: "a setting was changed",
        assumptions: &["Addresses are valid. The maker's cooldown is not among what the contract reports; C27 observes its effect."],
        parts: vec![Box::new(Gen { name: "settings", quick: 3000, thorough: 60_000, strategy: s42, run: c42 })],
    }]
}
