//! C16 (registry of pools), C17 (pair configurations and fees).

use std::collections::BTreeMap;

use astroport::asset::{AssetInfo, PairInfo};
use astroport::factory::{self, ExecuteMsg, PairConfig, PairType, PairsResponse, QueryMsg};
use astroport::pair;
use cosmwasm_std::{to_json_binary, Decimal};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

/// names that are prefixes, suffixes and concatenations of each other
const DENOMS: [&str; 9] =
    ["uaa", "uaab", "uab", "uuaa", "ibc/AB", "ibc/ABC", "factory/wasm1owner/x", "factory/wasm1owner/xuaa", "abu"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    Create { by: u8, ty: u8, set: Vec<u8> },
    /// the owner creates many pools at once
    Many { n: u8, skip: u8 },
    Deregister { by: u8, set: Vec<u8> },
    Config { by: u8, ty: u8, total: u16, maker: u16, off: bool, perm: bool, nogen: bool },
    Page { limit: Option<u32> },
}

fn ty(t: u8) -> PairType {
    match t % 5 {
        0 => PairType::Xyk {},
        1 => PairType::Stable {},
        2 => PairType::Custom("transmuter".into()),
        3 => PairType::Custom("xyk".into()),
        _ => PairType::Custom("custom-xyk".into()),
    }
}

struct Fac {
    w: World,
    uni: Vec<AssetInfo>,
}

/// the names a set is filed under, independent of the order given
fn key(s: &[AssetInfo]) -> Vec<String> {
    let mut v: Vec<String> = s.iter().map(|i| format!("{}{}", if i.is_native_token() { "n:" } else { "t:" }, info_str(i))).collect();
    v.sort();
    v
}
/// different sets whose sorted names run together into the same text: a listed finding
fn run_together(s: &[AssetInfo]) -> String {
    let mut v: Vec<String> = s.iter().map(info_str).collect();
    v.sort();
    v.concat()
}

/// the owner, anybody, or an account the factory knows in another role
fn caller(w: &World, by: u8) -> &str {
    match by {
        0 => OWNER,
        10 => FEE,
        11 => &w.factory,
        12 => &w.registry,
        _ => user(by),
    }
}

fn setup_factory() -> R<Fac> {
    let w = World::new(&[], true)?;
    let mut uni = vec![];
    for d in DENOMS {
        w.native_coin(d, 6)?;
        w.c.faucet(OWNER, d, 1000);
        uni.push(native(d));
    }
    for _ in 0..3 {
        uni.push(w.tok(&Tok { cw20: true, dec: 6 })?);
    }
    Ok(Fac { w, uni })
}

impl Fac {
    fn set(&self, s: &[u8]) -> Vec<AssetInfo> {
        s.iter().map(|i| self.uni[*i as usize % self.uni.len()].clone()).collect()
    }
    fn params(&self, t: u8) -> Option<cosmwasm_std::Binary> {
        (t % 5 == 1).then(|| to_json_binary(&pair::StablePoolParams { amp: 100, owner: None }).unwrap())
    }
    fn create(&self, by: &str, t: u8, s: &[AssetInfo]) -> R<Resp> {
        self.w.c.exec(
            by,
            &self.w.factory,
            &ExecuteMsg::CreatePair { pair_type: ty(t), asset_infos: s.to_vec(), init_params: self.params(t) },
            &[],
        )
    }
    fn find(&self, s: &[AssetInfo]) -> R<PairInfo> {
        self.w.c.query(&self.w.factory, &QueryMsg::Pair { asset_infos: s.to_vec() })
    }
    fn pages(&self, limit: Option<u32>) -> Result<Vec<PairInfo>, Viol> {
        let mut all: Vec<PairInfo> = vec![];
        for _ in 0..200 {
            let r: PairsResponse = self.w.c.query(
                &self.w.factory,
                &QueryMsg::Pairs { start_after: all.last().map(|p| p.asset_infos.clone()), limit },
            )?;
            ensure!(r.pairs.len() as u32 <= limit.unwrap_or(30).max(1), "a page of {} for limit {limit:?}", r.pairs.len());
            if r.pairs.is_empty() {
                return Ok(all);
            }
            all.extend(r.pairs);
        }
        viol!("paging with limit {limit:?} does not end")
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Cfg {
    total: u16,
    maker: u16,
    off: bool,
    perm: bool,
    nogen: bool,
}

fn c16(ops: &Vec<FOp>, o: &mut Obs) -> V {
    let f = setup_factory()?;
    let c = &f.w.c;
    let mut cfg: BTreeMap<String, Cfg> = (0..3)
        .map(|t| (ty(t).to_string(), Cfg { total: 30, maker: 3333, off: false, perm: false, nogen: false }))
        .collect();
    // assets in the order given at creation
    let mut m: BTreeMap<Vec<String>, (String, PairType, Vec<AssetInfo>)> = BTreeMap::new();
    let mut gone: Vec<Vec<AssetInfo>> = vec![];
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        let many: Vec<Vec<u8>> = match op {
            FOp::Many { n, skip } => {
                let l = f.uni.len() as u8;
                let mut v = vec![];
                for i in 0..l {
                    for j in 0..i {
                        v.push(if (i + j) % 2 == 0 { vec![i, j] } else { vec![j, i] });
                    }
                }
                v.into_iter().skip(*skip as usize).take(*n as usize).collect()
            }
            FOp::Create { set, .. } => vec![set.clone()],
            _ => vec![],
        };
        for s in &many {
            let (who, t) = match op {
                FOp::Create { by, ty, .. } => (caller(&f.w, *by), *ty),
                _ => (OWNER, 0),
            };
            let st = c.state();
            let mut infos = f.set(s);
            if let (FOp::Create { .. }, [a, 11], false) = (op, s.as_slice(), gone.is_empty()) {
                // once more
                infos = gone[*a as usize % gone.len()].clone();
            }
            let k = key(&infos);
            if m.values().any(|x| key(&x.2) != k && run_together(&x.2) == run_together(&infos)) {
                o.tag("left out: names run together");
                continue;
            }
            let mut uniq = k.clone();
            uniq.dedup();
            let conf = cfg.get(&ty(t).to_string());
            let shape = match t % 5 {
                2 => (2..=5).contains(&infos.len()) && infos.iter().all(|i| i.is_native_token()),
                _ => infos.len() == 2,
            };
            let want = uniq.len() == k.len()
                && !m.contains_key(&k)
                && conf.map(|c| !c.off && (!c.perm || who == OWNER)).unwrap_or(false)
                && shape;
            let r = f.create(who, t, &infos);
            ensure!(
                r.is_ok() == want,
                "op {n}: creating {:?} of {infos:?} by {who}: {:?}, expected {} (configured {conf:?})",
                ty(t),
                r.err(),
                if want { "success" } else { "refusal" }
            );
            if r.is_err() {
                ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                o.tag(if m.contains_key(&k) { "refused: exists" } else { "refused" });
                continue;
            }
            let p = f.find(&infos)?;
            ensure!(
                p.pair_type == ty(t) && p.asset_infos == infos,
                "op {n}: asked for {:?} of {infos:?}, found {p:?}",
                ty(t)
            );
            ensure!(
                m.values().all(|x| x.0 != p.contract_addr.as_str()),
                "op {n}: {infos:?} is filed under the pool of another set"
            );
            let own: PairInfo = c.query(p.contract_addr.as_str(), &pair::QueryMsg::Pair {})?;
            ensure!(own == p, "op {n}: the factory reports {p:?}, the pool itself {own:?}");
            m.insert(k, (p.contract_addr.to_string(), ty(t), infos));
            o.tag("created");
        }
        match op {
            FOp::Deregister { by, set } => {
                let who = caller(&f.w, *by);
                let mut infos = f.set(set);
                if set.len() == 2 && set[0] % 3 > 0 && !m.is_empty() {
                    // one that exists
                    infos = m.values().nth(set[1] as usize % m.len()).unwrap().2.clone();
                    infos.reverse();
                }
                let k = key(&infos);
                if m.values().any(|x| key(&x.2) != k && run_together(&x.2) == run_together(&infos)) {
                    o.tag("left out: names run together");
                    continue;
                }
                let want = who == OWNER && m.contains_key(&k);
                let r = c.exec(who, &f.w.factory, &ExecuteMsg::Deregister { asset_infos: infos.clone() }, &[]);
                ensure!(r.is_ok() == want, "op {n} {op:?}: deregistering {infos:?} by {who}: {:?}", r.err());
                if want {
                    m.remove(&k);
                    gone.push(infos);
                    o.tag("deregistered");
                } else {
                    ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                    o.tag("deregistration refused");
                }
            }
            FOp::Config { by, ty: t, total, maker, off, perm, nogen } => {
                let who = caller(&f.w, *by);
                let code = match *t % 5 {
                    1 => f.w.code(Kind::Stable),
                    2 => f.w.code(Kind::Transmuter),
                    _ => f.w.code(Kind::Xyk),
                };
                let r = c.exec(
                    who,
                    &f.w.factory,
                    &ExecuteMsg::UpdatePairConfig {
                        config: PairConfig {
                            code_id: code,
                            pair_type: ty(*t),
                            total_fee_bps: *total,
                            maker_fee_bps: *maker,
                            is_disabled: *off,
                            is_generator_disabled: *nogen,
                            permissioned: *perm,
                        },
                    },
                    &[],
                );
                let want = who == OWNER && *total <= 10_000 && *maker <= 10_000;
                ensure!(r.is_ok() == want, "op {n} {op:?} by {who}: {:?}", r.err());
                if want {
                    cfg.insert(ty(*t).to_string(), Cfg { total: *total, maker: *maker, off: *off, perm: *perm, nogen: *nogen });
                    o.tag("configured");
                } else {
                    ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                }
            }
            FOp::Page { limit } => {
                let l = f.pages(*limit)?;
                let mut got: Vec<String> = l.iter().map(|p| p.contract_addr.to_string()).collect();
                let mut want: Vec<String> = m.values().map(|x| x.0.clone()).collect();
                got.sort();
                want.sort();
                ensure!(got == want, "op {n} {op:?}: listed {got:?}, registered {want:?}");
                if want.len() > 1 {
                    o.nontrivial = true;
                }
                if want.len() > 30 {
                    o.tag("more than one full page");
                }
            }
            _ => {}
        }
        // every registered set is found in any order, and nothing else is
        let few = matches!(op, FOp::Many { .. }).then_some(5).unwrap_or(usize::MAX);
        for (k, (a, t, infos)) in m.iter().take(few) {
            let mut rev = infos.clone();
            if n % 2 == 0 {
                rev.reverse()
            } else {
                rev.rotate_left(1)
            }
            let p = f.find(&rev).map_err(|e| format!("op {n} {op:?}: {k:?} is not found: {e}"))?;
            ensure!(
                p.contract_addr.as_str() == a && &p.pair_type == t && &p.asset_infos == infos,
                "op {n} {op:?}: {k:?} found {p:?}, created at {a} for {infos:?}"
            );
        }
        for g in gone.iter().filter(|g| !m.contains_key(&key(g))).take(4) {
            if m.values().any(|x| run_together(&x.2) == run_together(g)) {
                continue;
            }
            ensure!(f.find(g).is_err(), "op {n} {op:?}: the deregistered pool of {g:?} is still found");
        }
    }
    Ok(())
}

fn setp() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => prop::collection::vec(0u8..12, 2),
        4 => prop::collection::vec(0u8..6, 2),
        2 => prop::collection::vec(0u8..9, 3..6),
        1 => prop::collection::vec(0u8..12, 0..7),
    ]
    .boxed()
}
fn s16(deep: bool) -> BoxedStrategy<Vec<FOp>> {
    let by = || prop_oneof![4 => Just(0u8), 2 => 1u8..4, 2 => 10u8..13];
    let fee = || prop_oneof![3 => gen::bps(), 1 => Just(10_001u16), 1 => any::<u16>()];
    let op = prop_oneof![
        10 => (by(), prop_oneof![4 => Just(0u8), 4 => 0u8..5, 2 => Just(2u8)], setp()).prop_map(|(by, ty, set)| FOp::Create { by, ty, set }),
        4 => (by(), setp()).prop_map(|(by, set)| FOp::Deregister { by, set }),
        3 => (by(), 0u8..5, fee(), fee(), any::<bool>(), any::<bool>(), any::<bool>())
            .prop_map(|(by, ty, total, maker, off, perm, nogen)| FOp::Config { by, ty, total, maker, off, perm, nogen }),
        3 => prop::option::of(prop_oneof![1u32..5, 5u32..40]).prop_map(|limit| FOp::Page { limit }),
        1 => (1u8..50, 0u8..40).prop_map(|(n, skip)| FOp::Many { n, skip }),
    ];
    prop::collection::vec(op, 1..if deep { 40 } else { 22 }).boxed()
}

/// two different pairs whose sorted names run together (always evaluated: see corpus/C16)
fn c16_join(s: &(Vec<String>, Vec<String>), o: &mut Obs) -> V {
    let w = World::new(&[], true)?;
    let infos = |v: &Vec<String>| v.iter().map(|d| native(d)).collect::<Vec<_>>();
    let (a, b) = (infos(&s.0), infos(&s.1));
    for d in s.0.iter().chain(&s.1) {
        w.native_coin(d, 6)?;
    }
    if a.len() != 2 || b.len() != 2 || key(&a) == key(&b) || a[0] == a[1] || b[0] == b[1] {
        return Ok(());
    }
    o.nontrivial = true;
    let f = Fac { w, uni: vec![] };
    f.create(OWNER, 0, &a)?;
    let pa = f.find(&a)?;
    let joined = run_together(&a) == run_together(&b);
    o.tag(if joined { "names run together" } else { "names stay apart" });
    let fail = |msg: String| -> V {
        Err(Viol { key: if joined { "pair-names-run-together".into() } else { String::new() }, msg })
    };
    if let Ok(p) = f.find(&b) {
        return fail(format!("looking up {b:?} finds the pool of {a:?}: {p:?}"));
    }
    if let Err(e) = f.create(OWNER, 0, &b) {
        return fail(format!("{b:?} cannot be created next to {a:?}: {e}"));
    }
    let pb = f.find(&b)?;
    ensure!(pa != pb && f.find(&a)? == pa, "{a:?} and {b:?} interfere");
    let l = f.pages(Some(1))?;
    ensure!(l.len() == 2, "listed {l:?}");
    Ok(())
}
fn s16j(_: bool) -> BoxedStrategy<(Vec<String>, Vec<String>)> {
    // names cut out of a common text, so that they often share prefixes
    let name = || "[a-c]{3,6}".prop_map(|s| s);
    let cut = ("[a-c]{8,12}", 3usize..5, 3usize..5).prop_map(|(t, i, j)| {
        let f = |i: usize| vec![t[..i].to_string(), t[i..].to_string()];
        (f(i), f(j))
    });
    prop_oneof![
        3 => (prop::collection::vec(name(), 2), prop::collection::vec(name(), 2)),
        1 => cut,
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------------- fees

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FeeOp {
    Config { by: u8, kind: u8, total: u16, maker: u16, off: bool, nogen: bool },
    Address { by: u8, to: u8 },
    Swap { p: u8, o: u8, amt: Amt },
    /// a new factory with these pair configurations (type, total, maker)
    Fresh { cfgs: Vec<(u8, u16, u16)> },
}

const FK: [Kind; 4] = [Kind::Xyk, Kind::Stable, Kind::Tax, Kind::Pcl];

fn c17(case: &(bool, Vec<Setup>, Vec<FeeOp>), o: &mut Obs) -> V {
    let (addr0, setups, ops) = case;
    let w = World::new(&[], *addr0)?;
    let c = &w.c;
    let mut pools = vec![];
    for s in setups {
        let p = s.add(&w)?;
        let v = if s.kind == Kind::Pcl || s.kind == Kind::Stable {
            first_amounts(s, &p, &[1_000_000_000_000, 1_000_000_000_000])
        } else {
            vec![1_000_000_000_000; 2]
        };
        w.provide(&p, USERS[0], &v, &ProvideOpts::default())?;
        pools.push((p, s.clone()));
    }
    let mut fee: BTreeMap<Kind, (u16, u16, bool, bool)> = KINDS.iter().map(|k| (*k, (30, 3333, false, false))).collect();
    let mut to: Option<String> = addr0.then(|| FEE.to_string());
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        match op {
            FeeOp::Config { by, kind, total, maker, off, nogen } => {
                let k = KINDS[*kind as usize % KINDS.len()];
                let who = caller(&w, *by);
                let r = c.exec(
                    who,
                    &w.factory,
                    &ExecuteMsg::UpdatePairConfig {
                        config: PairConfig {
                            code_id: w.code(k),
                            pair_type: pair_type(k),
                            total_fee_bps: *total,
                            maker_fee_bps: *maker,
                            is_disabled: *off,
                            is_generator_disabled: *nogen,
                            permissioned: false,
                        },
                    },
                    &[],
                );
                let want = who == OWNER && *total <= 10_000 && *maker <= 10_000;
                ensure!(r.is_ok() == want, "op {n} {op:?} by {who}: {:?}", r.err());
                if want {
                    fee.insert(k, (*total, *maker, *off, *nogen));
                    o.tag("configured");
                } else {
                    ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                    o.tag(if who == OWNER { "refused: bounds" } else { "refused: caller" });
                }
            }
            FeeOp::Address { by, to: t } => {
                let who = caller(&w, *by);
                let a = ["wasm1feecollector", "wasm1feecollectortwo", "NoAddress"][*t as usize % 3];
                let r = c.exec(
                    who,
                    &w.factory,
                    &ExecuteMsg::UpdateConfig {
                        token_code_id: None,
                        fee_address: Some(a.into()),
                        generator_address: None,
                        whitelist_code_id: None,
                        coin_registry_address: None,
                    },
                    &[],
                );
                let want = who == OWNER && valid_addr(a);
                ensure!(r.is_ok() == want, "op {n} {op:?} by {who}: {:?}", r.err());
                if want {
                    to = Some(a.into());
                    o.tag("fee address set");
                } else {
                    ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                }
            }
            FeeOp::Swap { p, o: d, amt } => {
                let (p, s) = &pools[*p as usize % pools.len()];
                let (oi, ai) = dirs(p, *d, 1 - d % 2);
                let x = amt.of(w.bal(&p.infos[oi], &p.addr)).max(1);
                let (total, maker, _, _) = fee[&p.kind];
                let acc: Vec<u128> =
                    ["wasm1feecollector", "wasm1feecollectortwo"].iter().map(|a| w.bal(&p.infos[ai], a)).collect();
                let Ok(r) = w.swap(p, USERS[1], oi, ai, x, &SwapOpts::loose()) else {
                    o.tag("swap refused");
                    continue;
                };
                let num = |k: &str| -> R<u128> {
                    r.attr(&p.addr, k).and_then(|x| x.parse().ok()).ok_or(format!("swap reports no {k}"))
                };
                let (ret, com) = (num("return_amount")?, num("commission_amount")?);
                if p.kind != Kind::Pcl {
                    let want = mul_div(ret + com, total as u128, 10_000);
                    // stableswap charges the fee before rounding the amounts to the token's precision
                    let slack = if p.kind == Kind::Stable { 1 } else { 0 };
                    ensure!(
                        com.abs_diff(want) <= slack,
                        "op {n} {op:?}: commission {com} on {ret}+{com}, the rate is {total}/10000 ({:?})",
                        p.kind
                    );
                }
                let left = com - s.share.map(|b| mul_div(com, b as u128, 10_000)).unwrap_or(0);
                let want = if to.is_some() { mul_div(left, maker as u128, 10_000) } else { 0 };
                for (i, a) in ["wasm1feecollector", "wasm1feecollectortwo"].iter().enumerate() {
                    let exp = if to.as_deref() == Some(*a) { want } else { 0 };
                    let got = w.bal(&p.infos[ai], a) - acc[i];
                    // concentrated pools split the commission before rounding it to the token's precision
                    let slack = u128::from(p.kind == Kind::Pcl && maker > 0 && to.as_deref() == Some(*a));
                    ensure!(
                        got.abs_diff(exp) <= slack,
                        "op {n} {op:?} ({:?}): {a} received {got} of commission {com}, expected {exp} (maker {maker}/10000, fee address {to:?})",
                        p.kind
                    );
                }
                if want > 0 {
                    o.nontrivial = true;
                    o.tag(format!("{:?} charged", p.kind));
                }
            }
            FeeOp::Fresh { cfgs } => {
                let code = c.store(codes::factory());
                let r = c.init(
                    code,
                    OWNER,
                    &factory::InstantiateMsg {
                        pair_configs: cfgs
                            .iter()
                            .map(|(t, total, maker)| PairConfig {
                                code_id: w.code(Kind::Xyk),
                                pair_type: ty(*t),
                                total_fee_bps: *total,
                                maker_fee_bps: *maker,
                                is_disabled: false,
                                is_generator_disabled: false,
                                permissioned: false,
                            })
                            .collect(),
                        token_code_id: w.cw20_code,
                        fee_address: None,
                        generator_address: None,
                        owner: OWNER.into(),
                        whitelist_code_id: w.whitelist_code,
                        coin_registry_address: w.registry.clone(),
                        tracker_config: None,
                    },
                    &[],
                    "fresh",
                    None,
                );
                let mut t: Vec<u8> = cfgs.iter().map(|x| x.0 % 5).collect();
                t.sort();
                t.dedup();
                let want = t.len() == cfgs.len() && cfgs.iter().all(|x| x.1 <= 10_000 && x.2 <= 10_000);
                ensure!(r.is_ok() == want, "op {n} {op:?}: {r:?}");
                if let Ok(a) = r {
                    let cfg: factory::ConfigResponse = c.query(&a, &QueryMsg::Config {})?;
                    let mut got: Vec<_> =
                        cfg.pair_configs.iter().map(|p| (p.pair_type.to_string(), p.total_fee_bps, p.maker_fee_bps)).collect();
                    let mut exp: Vec<_> = cfgs.iter().map(|x| (ty(x.0).to_string(), x.1, x.2)).collect();
                    got.sort();
                    exp.sort();
                    ensure!(got == exp, "op {n} {op:?}: configured {got:?}");
                    o.tag("fresh factory");
                } else {
                    o.tag("fresh factory refused");
                }
            }
        }
        // what the factory says now
        for (k, (total, maker, ..)) in &fee {
            let r: factory::FeeInfoResponse = c.query(&w.factory, &QueryMsg::FeeInfo { pair_type: pair_type(*k) })?;
            ensure!(
                r.total_fee_bps == *total && r.maker_fee_bps == *maker && r.fee_address.as_ref().map(|a| a.to_string()) == to,
                "op {n} {op:?}: fee info of {k:?} {r:?}, expected {total} {maker} {to:?}"
            );
        }
        ensure!(
            c.query::<factory::FeeInfoResponse, _>(&w.factory, &QueryMsg::FeeInfo { pair_type: PairType::Custom("none".into()) }).is_err(),
            "op {n}: fee info of an unknown type"
        );
        let b: Vec<PairType> = c.query(&w.factory, &QueryMsg::BlacklistedPairTypes {})?;
        let mut got: Vec<String> = b.iter().map(|t| t.to_string()).collect();
        let mut want: Vec<String> =
            fee.iter().filter(|(_, v)| v.2 || v.3).map(|(k, _)| pair_type(*k).to_string()).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "op {n} {op:?}: blacklisted {got:?}, expected {want:?}");
        let cfg: factory::ConfigResponse = c.query(&w.factory, &QueryMsg::Config {})?;
        ensure!(cfg.pair_configs.len() == KINDS.len(), "op {n} {op:?}: {:?}", cfg.pair_configs);
        for p in &cfg.pair_configs {
            let (t, m, off, nogen) =
                fee.iter().find(|(k, _)| pair_type(**k) == p.pair_type).map(|x| *x.1).ok_or("unknown pair type")?;
            ensure!(
                (p.total_fee_bps, p.maker_fee_bps, p.is_disabled, p.is_generator_disabled) == (t, m, off, nogen),
                "op {n} {op:?}: configured {p:?}, expected {t} {m} {off} {nogen}"
            );
        }
    }
    Ok(())
}
fn s17(deep: bool) -> BoxedStrategy<(bool, Vec<Setup>, Vec<FeeOp>)> {
    let by = || prop_oneof![8 => Just(0u8), 2 => 1u8..4, 1 => 10u8..13];
    let fee = || prop_oneof![5 => gen::bps(), 1 => Just(10_001u16), 1 => any::<u16>(), 2 => Just(10_000u16)];
    let op = prop_oneof![
        5 => (by(), 0u8..5, fee(), fee(), prop::bool::weighted(0.2), prop::bool::weighted(0.2))
            .prop_map(|(by, kind, total, maker, off, nogen)| FeeOp::Config { by, kind, total, maker, off, nogen }),
        1 => (by(), 0u8..3).prop_map(|(by, to)| FeeOp::Address { by, to }),
        8 => (0u8..4, 0u8..2, prop_oneof![(1u64..100_000).prop_map(Amt::Rel), gen::amount(0, 10).prop_map(Amt::Abs)])
            .prop_map(|(p, o, amt)| FeeOp::Swap { p, o, amt }),
        1 => prop::collection::vec((0u8..5, fee(), fee()), 0..4).prop_map(|cfgs| FeeOp::Fresh { cfgs }),
    ];
    let pools: Vec<BoxedStrategy<Setup>> = FK
        .iter()
        .map(|k| {
            (usual(*k), 6u8..9, any::<bool>())
                .prop_map(|(mut s, d, cw)| {
                    // the trades matter here, not the tokens
                    s.toks.iter_mut().for_each(|t| t.dec = d);
                    s.toks[0].cw20 = cw;
                    s.tax = vec![None; 2];
                    s
                })
                .boxed()
        })
        .collect();
    (any::<bool>(), pools, prop::collection::vec(op, 1..if deep { 30 } else { 16 })).boxed()
}

pub fn props() -> Vec<Property> {
    let _ = Decimal::zero();
    vec![
        Property {
            id: "C16",
            rule: "several pools are registered when the list is paged",
            assumptions: &[
                "sets whose sorted names run together into the same text share one entry (listed finding); other histories leave such pairs of sets out",
            ],
            parts: vec![
                Box::new(Gen { name: "histories", quick: 6000, thorough: 120_000, strategy: s16, run: c16 }),
                Box::new(Gen { name: "similar names", quick: 4000, thorough: 40_000, strategy: s16j, run: c16_join }),
            ],
        },
        Property {
            id: "C17",
            rule: "a trade paid a non-zero protocol fee",
            assumptions: &[],
            parts: vec![Box::new(Gen { name: "histories", quick: 8000, thorough: 160_000, strategy: s17, run: c17 })],
        },
    ]
}
