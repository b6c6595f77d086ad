//! C12: pools credit only what they received, and only their own assets: well-formed deposits, swaps and withdrawals
//! with mutations of what is declared, attached, allowed or sent.

use astroport::asset::AssetInfo;
use astroport::pair;
use cosmwasm_std::{to_json_binary, Coin, Uint128};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::terms::{any_price, history_of};
use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

/// an asset, of this pool or not
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ent {
    Mine(u8),
    /// of another pool
    Other(u8),
    Lp,
    OtherLp,
    /// this pool's asset with the other variant: a native coin named like the token contract and vice versa
    Confused(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// declared, attached or allowed amount of the i-th asset, in hundredths of the original
    Declare(u8, u16),
    DeclareDelta(u8, i8),
    Attach(u8, u16),
    AttachDelta(u8, i8),
    Allow(u8, u16),
    /// an unrelated coin
    Extra(Ent, u128),
    /// a further declared asset, paid for or not
    Add(Ent, u128, bool),
    /// the i-th declared asset is replaced, paid for or not
    Replace(u8, Ent, bool),
    Drop(u8, bool),
    /// declares the i-th asset twice, with the same amount or splitting it
    Dup(u8, bool),
    Reorder,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Via {
    /// a message to the pool (native) or a token send (cw20)
    Usual,
    /// a message to the pool even for a cw20 asset
    Direct,
    /// a hook message by an account that is not a token
    Forged,
    /// a send of another pool's cw20 token
    Foreign,
    /// through the other asset of the pool
    Crossed,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Provide { amts: Vec<Amt>, bal: bool },
    Swap { o: u8, a: u8, amt: Amt, via: Via },
    Withdraw { part: u32, coin: Ent, pick: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub h: History,
    pub acts: Vec<(Act, Vec<Mut>)>,
}

struct Req {
    declared: Vec<(AssetInfo, u128)>,
    coins: Vec<(String, u128)>,
    allow: Vec<(String, u128)>,
}

struct Env<'a> {
    w: &'a World,
    p: &'a Pool,
    q: &'a Pool,
}
impl Env<'_> {
    fn info(&self, e: Ent) -> AssetInfo {
        match e {
            Ent::Mine(i) => self.p.infos[i as usize % self.p.infos.len()].clone(),
            Ent::Other(i) => self.q.infos[i as usize % self.q.infos.len()].clone(),
            Ent::Lp => native(&self.p.lp),
            Ent::OtherLp => native(&self.q.lp),
            Ent::Confused(i) => match &self.p.infos[i as usize % self.p.infos.len()] {
                AssetInfo::NativeToken { denom } => token(denom),
                AssetInfo::Token { contract_addr } => native(contract_addr.as_str()),
            },
        }
    }
    fn attach(&self, r: &mut Req, i: &AssetInfo, x: u128) {
        match i {
            AssetInfo::NativeToken { denom } => r.coins.push((denom.clone(), x)),
            AssetInfo::Token { contract_addr } => r.allow.push((contract_addr.to_string(), x)),
        }
    }
    fn mutate(&self, r: &mut Req, m: &Mut) {
        let pick = |i: u8, n: usize| (n > 0).then(|| i as usize % n);
        let part = |x: u128, c: u16| mul_div(x, c as u128, 100);
        let shift = |x: u128, d: i8| if d < 0 { x.saturating_sub(d.unsigned_abs() as u128) } else { x + d as u128 };
        match m {
            Mut::Declare(i, c) => pick(*i, r.declared.len()).into_iter().for_each(|i| r.declared[i].1 = part(r.declared[i].1, *c)),
            Mut::DeclareDelta(i, d) => pick(*i, r.declared.len()).into_iter().for_each(|i| r.declared[i].1 = shift(r.declared[i].1, *d)),
            Mut::Attach(i, c) => pick(*i, r.coins.len()).into_iter().for_each(|i| r.coins[i].1 = part(r.coins[i].1, *c)),
            Mut::AttachDelta(i, d) => pick(*i, r.coins.len()).into_iter().for_each(|i| r.coins[i].1 = shift(r.coins[i].1, *d)),
            Mut::Allow(i, c) => pick(*i, r.allow.len()).into_iter().for_each(|i| r.allow[i].1 = part(r.allow[i].1, *c)),
            Mut::Extra(e, x) => {
                if let AssetInfo::NativeToken { denom } = self.info(*e) {
                    r.coins.push((denom, *x))
                }
            }
            Mut::Add(e, x, paid) => {
                let i = self.info(*e);
                if *paid {
                    self.attach(r, &i, *x)
                }
                r.declared.push((i, *x));
            }
            Mut::Replace(i, e, paid) => {
                if let Some(i) = pick(*i, r.declared.len()) {
                    let new = self.info(*e);
                    let (old, x) = std::mem::replace(&mut r.declared[i], (new.clone(), 0));
                    r.declared[i].1 = x;
                    if *paid {
                        let key = match &old {
                            AssetInfo::NativeToken { denom } => denom.clone(),
                            AssetInfo::Token { contract_addr } => contract_addr.to_string(),
                        };
                        r.coins.retain(|c| c.0 != key);
                        r.allow.retain(|c| c.0 != key);
                        self.attach(r, &new, x);
                    }
                }
            }
            Mut::Drop(i, paid) => {
                if let Some(i) = pick(*i, r.declared.len()) {
                    let (old, _) = r.declared.remove(i);
                    if *paid {
                        if let AssetInfo::NativeToken { denom } = old {
                            r.coins.retain(|c| c.0 != denom);
                        }
                    }
                }
            }
            Mut::Dup(i, split) => {
                if let Some(i) = pick(*i, r.declared.len()) {
                    let (info, x) = r.declared[i].clone();
                    if *split {
                        r.declared[i].1 = x / 2;
                        r.declared.push((info, x - x / 2));
                    } else {
                        r.declared.push((info, x));
                    }
                }
            }
            Mut::Reorder => r.declared.reverse(),
        }
    }
    fn funds(&self, r: &Req) -> Vec<Coin> {
        let mut m = std::collections::BTreeMap::new();
        for (d, x) in &r.coins {
            *m.entry(d.clone()).or_insert(0u128) += x;
        }
        m.into_iter().filter(|x| x.1 > 0).map(|(d, x)| Coin::new(x, d)).collect()
    }
    /// the coins are exactly the declared native amounts, every declared asset is the pool's, and declared once
    fn sound(&self, r: &Req) -> Result<(), String> {
        for (k, (i, _)) in r.declared.iter().enumerate() {
            if !self.p.infos.contains(i) {
                return Err(format!("{i} is not the pool's"));
            }
            if r.declared[..k].iter().any(|x| x.0 == *i) {
                return Err(format!("{i} declared twice"));
            }
        }
        let mut want: Vec<Coin> = r
            .declared
            .iter()
            .filter_map(|(i, x)| match i {
                AssetInfo::NativeToken { denom } if *x > 0 => Some(Coin::new(*x, denom.clone())),
                _ => None,
            })
            .collect();
        want.sort_by(|a, b| a.denom.cmp(&b.denom));
        let got = self.funds(r);
        if want != got {
            return Err(format!("declared {want:?}, attached {got:?}"));
        }
        for (i, x) in &r.declared {
            if let AssetInfo::Token { contract_addr } = i {
                let allowed: u128 = r.allow.iter().filter(|a| a.0 == contract_addr.as_str()).map(|a| a.1).sum();
                if allowed < *x {
                    return Err(format!("{x} of {contract_addr} declared, {allowed} allowed"));
                }
            }
        }
        Ok(())
    }
}

const WHO: &str = USERS[0];

fn run(c: &Case, o: &mut Obs) -> V {
    let built = || -> R<(World, Pool, Pool)> {
        let (w, p) = super::terms::start(&c.h)?;
        let q = c.h.setup.add(&w)?;
        let first = match q.kind {
            Kind::Stable | Kind::Pcl => first_amounts(&c.h.setup, &q, &c.h.first),
            _ => c.h.first[..q.infos.len()].to_vec(),
        };
        w.provide(&q, WHO, &first, &ProvideOpts::default())?;
        Ok((w, p, q))
    };
    let Ok((w, p, q)) = built() else {
        o.tag("first deposit refused");
        return Ok(());
    };
    for op in &c.h.ops {
        let _ = apply(&w, &p, op);
    }
    let env = Env { w: &w, p: &p, q: &q };
    for (n, (act, muts)) in c.acts.iter().enumerate() {
        probe(&env, n, act, muts, o)?;
    }
    Ok(())
}

/// result of the request and the balances after it
fn attempt(e: &Env, infos: &[AssetInfo], msgs: Vec<(String, Vec<u8>, Vec<Coin>)>) -> (R<()>, Snap, u128, u128) {
    e.w.c.dry(|| {
        let r = e.w.c.exec_many(WHO, msgs).map(|_| ());
        (r, snap(e.w, infos), e.w.lp_supply(e.p), e.w.lp_bal(e.p, WHO))
    })
}
fn delta(a: &Snap, b: &Snap, who: &str, i: usize) -> i128 {
    let k = a.who.iter().position(|x| x == who).unwrap();
    b.bal[k][i].wrapping_sub(a.bal[k][i]) as i128
}

fn probe(e: &Env, n: usize, act: &Act, muts: &[Mut], o: &mut Obs) -> V {
    let (w, p) = (e.w, e.p);
    let k = p.kind;
    let res = w.reserves(p);
    let infos: Vec<AssetInfo> = p.infos.iter().chain(&e.q.infos).cloned().collect();
    let before = snap(w, &infos);
    let (supply, held) = (w.lp_supply(p), w.lp_bal(p, WHO));
    match act {
        Act::Provide { amts, bal } => {
            let d = deposit_amounts(w, p, amts, *bal);
            let mut r = Req { declared: vec![], coins: vec![], allow: vec![] };
            for (i, x) in p.infos.iter().zip(&d) {
                r.declared.push((i.clone(), *x));
                e.attach(&mut r, i, *x);
            }
            let msgs = |r: &Req| {
                let mut v: Vec<(String, Vec<u8>, Vec<Coin>)> = r
                    .allow
                    .iter()
                    .filter(|a| a.1 > 0)
                    .map(|(t, x)| {
                        let m = cw20::Cw20ExecuteMsg::IncreaseAllowance { spender: p.addr.clone(), amount: Uint128::new(*x), expires: None };
                        (t.clone(), serde_json_vec(&m), vec![])
                    })
                    .collect();
                let m = pair::ExecuteMsg::ProvideLiquidity {
                    assets: r.declared.iter().map(|(i, x)| asset(i, *x)).collect(),
                    slippage_tolerance: Some(cosmwasm_std::Decimal::percent(50)),
                    auto_stake: None,
                    receiver: None,
                    min_lp_to_receive: None,
                };
                v.push((p.addr.clone(), serde_json_vec(&m), e.funds(r)));
                v
            };
            let plain = attempt(e, &infos, msgs(&r)).0.is_ok();
            for m in muts {
                e.mutate(&mut r, m);
            }
            let (out, after, supply2, held2) = attempt(e, &infos, msgs(&r));
            let sound = e.sound(&r);
            match (&sound, &out) {
                (Err(why), Ok(_)) => viol!(
                    "{k:?} probe {n}: deposit declaring {:?} with coins {:?}, allowances {:?} accepted: {why}",
                    r.declared, e.funds(&r), r.allow
                ),
                (Ok(_), Ok(_)) => {
                    let moves: Vec<(&str, &str, usize, u128)> = r
                        .declared
                        .iter()
                        .map(|(i, x)| (WHO, p.addr.as_str(), p.infos.iter().position(|y| y == i).unwrap(), *x))
                        .collect();
                    if let Some(x) = before.after(&moves).diff(&after) {
                        viol!("{k:?} probe {n}: deposit of {:?} by {WHO}: {x}", r.declared);
                    }
                    ensure!(
                        supply2 - supply == held2 - held,
                        "{k:?} probe {n}: deposit mints {} shares, {WHO} receives {}", supply2 - supply, held2 - held
                    );
                    o.tag(format!("{k:?} deposit accepted"));
                    o.nontrivial = true;
                }
                (Err(_), Err(_)) if plain => {
                    o.tag(format!("{k:?} deposit rejected"));
                    o.nontrivial = true;
                }
                (_, Err(_)) => o.tag("deposit refused for another reason"),
            }
        }
        Act::Swap { o: off, a, amt, via } => {
            let (i, a) = dirs(p, *off, *a);
            let x = amt.of(res[i]);
            let usual = w.c.dry(|| w.swap(p, WHO, i, a, x, &any_price())).is_ok();
            let opts = any_price();
            let ask = (p.infos.len() > 2).then(|| p.infos[a].clone());
            let hook = |ask: Option<AssetInfo>| pair::Cw20HookMsg::Swap {
                ask_asset_info: ask,
                belief_price: opts.belief,
                max_spread: opts.max_spread,
                to: None,
            };
            let mut r = Req { declared: vec![(p.infos[i].clone(), x)], coins: vec![], allow: vec![] };
            e.attach(&mut r, &p.infos[i], x);
            for m in muts {
                e.mutate(&mut r, m);
            }
            let Some((info, dx)) = r.declared.first().cloned() else { return Ok(()) };
            r.declared.truncate(1);
            let send = |t: &str, x: u128, h: &pair::Cw20HookMsg| {
                let m = cw20::Cw20ExecuteMsg::Send { contract: p.addr.clone(), amount: Uint128::new(x), msg: to_json_binary(h).unwrap() };
                (t.to_string(), serde_json_vec(&m), vec![])
            };
            let direct = |info: &AssetInfo, dx: u128, f: Vec<Coin>| {
                let m = pair::ExecuteMsg::Swap {
                    offer_asset: asset(info, dx),
                    ask_asset_info: ask.clone(),
                    belief_price: opts.belief,
                    max_spread: opts.max_spread,
                    to: None,
                };
                (p.addr.clone(), serde_json_vec(&m), f)
            };
            // what the pool must have received, if the request may succeed
            let (msg, may): (_, Result<(usize, u128), String>) = match via {
                Via::Usual | Via::Direct => match &info {
                    AssetInfo::Token { contract_addr } if matches!(via, Via::Usual) && w.c.contracts().iter().any(|m| m.addr == *contract_addr) => {
                        let j = p.infos.iter().position(|y| *y == info);
                        (send(contract_addr.as_str(), dx, &hook(ask.clone())), j.map(|j| (j, dx)).ok_or("foreign token".to_string()))
                    }
                    _ => {
                        let f = e.funds(&r);
                        let may = match (&info, p.infos.iter().position(|y| *y == info)) {
                            (AssetInfo::Token { .. }, _) => Err("cw20 assets can be swapped by a send only".to_string()),
                            (_, None) => Err("foreign coin".into()),
                            (AssetInfo::NativeToken { denom }, Some(j)) => {
                                if f == vec![Coin::new(dx, denom.clone())] {
                                    Ok((j, dx))
                                } else {
                                    Err(format!("declared {dx} {denom}, attached {f:?}"))
                                }
                            }
                        };
                        (direct(&info, dx, f), may)
                    }
                },
                Via::Forged => {
                    let m = pair::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                        sender: WHO.into(),
                        amount: Uint128::new(x),
                        msg: to_json_binary(&hook(ask.clone())).unwrap(),
                    });
                    ((p.addr.clone(), serde_json_vec(&m), e.funds(&r)), Err("forged hook".into()))
                }
                Via::Foreign => {
                    let Some(t) = e.q.infos.iter().find_map(|y| match y {
                        AssetInfo::Token { contract_addr } => Some(contract_addr.to_string()),
                        _ => None,
                    }) else {
                        return Ok(());
                    };
                    (send(&t, x, &hook(ask.clone())), Err("another token's hook".into()))
                }
                Via::Crossed => {
                    // the message names one asset of the pool, the coins are the other one's
                    let AssetInfo::NativeToken { denom } = &p.infos[a] else { return Ok(()) };
                    (direct(&p.infos[i], x, vec![Coin::new(x.max(1), denom.clone())]), Err("coins of the other asset".into()))
                }
            };
            let shown = format!("{:?} {:?}", String::from_utf8_lossy(&msg.1), msg.2);
            let (out, after, supply2, held2) = attempt(e, &infos, vec![msg]);
            match (&may, &out) {
                (Err(why), Ok(_)) => viol!("{k:?} probe {n}: swap {shown} accepted: {why}"),
                (Ok((j, dx)), Ok(_)) => {
                    let tax = delta(&before, &after, TAXED, *j);
                    let (u, g) = (delta(&before, &after, WHO, *j), delta(&before, &after, &p.addr, *j));
                    if a != *j {
                        ensure!(
                            u == -(*dx as i128) && g + tax == *dx as i128,
                            "{k:?} probe {n}: swap {shown}: the trader's balance changed by {u}, the pool's by {g}, tax {tax}"
                        );
                    }
                    ensure!(supply2 == supply && held2 == held, "{k:?} probe {n}: swap {shown}: shares moved");
                    for z in p.infos.len()..infos.len() {
                        for who in &before.who {
                            ensure!(delta(&before, &after, who, z) == 0, "{k:?} probe {n}: swap {shown}: foreign assets moved");
                        }
                    }
                    o.tag(format!("{k:?} swap accepted"));
                    o.nontrivial = true;
                }
                (Err(_), Err(_)) if usual => {
                    o.tag(format!("{k:?} swap rejected"));
                    o.nontrivial = true;
                }
                _ => o.tag("swap refused for another reason"),
            }
        }
        Act::Withdraw { part, coin, pick } => {
            let x = lp_part(held, *part);
            let usual = w.c.dry(|| w.withdraw(p, WHO, x, vec![], None)).is_ok();
            let mut r = Req { declared: vec![], coins: vec![], allow: vec![] };
            if *pick && k == Kind::Transmuter {
                // half of the shares as the first asset
                let unit = 10u128.pow(*p.decs.iter().max().unwrap() as u32 - p.decs[0] as u32);
                r.declared.push((p.infos[0].clone(), (x / 2 / unit).min(res[0])));
            }
            let AssetInfo::NativeToken { denom } = e.info(*coin) else { return Ok(()) };
            r.coins.push((denom, x));
            for m in muts {
                e.mutate(&mut r, m);
            }
            let f = e.funds(&r);
            let m = pair::ExecuteMsg::WithdrawLiquidity {
                assets: r.declared.iter().map(|(i, x)| asset(i, *x)).collect(),
                min_assets_to_receive: None,
            };
            let msg = (p.addr.clone(), serde_json_vec(&m), f.clone());
            let (out, after, supply2, held2) = attempt(e, &infos, vec![msg]);
            let bad = if f.len() != 1 || f[0].denom != p.lp {
                Some(format!("attached {f:?}"))
            } else if r.declared.iter().any(|(i, _)| !p.infos.contains(i)) {
                Some("foreign asset".into())
            } else if k != Kind::Transmuter && !r.declared.is_empty() {
                Some("chosen amounts are not supported".into())
            } else {
                None
            };
            match (&bad, &out) {
                (Some(why), Ok(_)) => viol!("{k:?} probe {n}: withdrawal of {:?} with {f:?} accepted: {why}", r.declared),
                (None, Ok(_)) => {
                    let burnt = supply - supply2;
                    ensure!(
                        held - held2 == burnt && burnt <= f[0].amount.u128(),
                        "{k:?} probe {n}: withdrawal with {f:?}: {burnt} burned, {WHO} lost {}", held - held2
                    );
                    if r.declared.is_empty() {
                        ensure!(burnt == f[0].amount.u128(), "{k:?} probe {n}: withdrawal with {f:?} burned {burnt}");
                    }
                    for z in 0..infos.len() {
                        let (u, g) = (delta(&before, &after, WHO, z), delta(&before, &after, &p.addr, z));
                        ensure!(u >= 0 && u == -g, "{k:?} probe {n}: withdrawal with {f:?}: asset {z} of {WHO} {u}, of the pool {g}");
                        if !r.declared.is_empty() {
                            let due: u128 = r.declared.iter().filter(|y| y.0 == infos[z]).map(|y| y.1).sum();
                            ensure!(u == due as i128, "{k:?} probe {n}: withdrawal of {:?} pays {u} of asset {z}", r.declared);
                        }
                    }
                    o.tag(format!("{k:?} withdrawal accepted"));
                    o.nontrivial = true;
                }
                (Some(_), Err(_)) if usual => {
                    o.tag(format!("{k:?} withdrawal rejected"));
                    o.nontrivial = true;
                }
                _ => o.tag("withdrawal refused for another reason"),
            }
        }
    }
    Ok(())
}
fn serde_json_vec<T: Serialize>(m: &T) -> Vec<u8> {
    cosmwasm_std::to_json_vec(m).unwrap()
}

fn ent() -> BoxedStrategy<Ent> {
    prop_oneof![
        2 => (0u8..5).prop_map(Ent::Mine),
        2 => (0u8..5).prop_map(Ent::Other),
        1 => Just(Ent::Lp),
        1 => Just(Ent::OtherLp),
        1 => (0u8..5).prop_map(Ent::Confused),
    ]
    .boxed()
}
fn mutation() -> BoxedStrategy<Mut> {
    let c = || prop_oneof![Just(0u16), Just(50), Just(200), 0u16..300];
    let d = || prop_oneof![Just(1i8), Just(-1)];
    let i = || 0u8..5;
    let x = || prop_oneof![Just(1u128), Just(0), gen::amount(0, 12)];
    prop_oneof![
        2 => (i(), c()).prop_map(|(i, c)| Mut::Declare(i, c)),
        2 => (i(), d()).prop_map(|(i, d)| Mut::DeclareDelta(i, d)),
        2 => (i(), c()).prop_map(|(i, c)| Mut::Attach(i, c)),
        1 => (i(), d()).prop_map(|(i, d)| Mut::AttachDelta(i, d)),
        2 => (i(), c()).prop_map(|(i, c)| Mut::Allow(i, c)),
        3 => (ent(), x()).prop_map(|(e, x)| Mut::Extra(e, x)),
        2 => (ent(), x(), any::<bool>()).prop_map(|(e, x, b)| Mut::Add(e, x, b)),
        2 => (i(), ent(), any::<bool>()).prop_map(|(i, e, b)| Mut::Replace(i, e, b)),
        2 => (i(), any::<bool>()).prop_map(|(i, b)| Mut::Drop(i, b)),
        2 => (i(), any::<bool>()).prop_map(|(i, b)| Mut::Dup(i, b)),
        1 => Just(Mut::Reorder),
    ]
    .boxed()
}
fn act() -> BoxedStrategy<Act> {
    let via = prop_oneof![
        5 => Just(Via::Usual),
        1 => Just(Via::Direct),
        1 => Just(Via::Forged),
        1 => Just(Via::Foreign),
        1 => Just(Via::Crossed),
    ];
    prop_oneof![
        4 => (prop::collection::vec(rel(1), 5), any::<bool>()).prop_map(|(amts, bal)| Act::Provide { amts, bal }),
        4 => (0u8..5, 0u8..5, rel(1), via).prop_map(|(o, a, amt, via)| Act::Swap { o, a, amt, via }),
        2 => (
            prop_oneof![Just(1_000_000u32), 0u32..=1_000_000],
            prop_oneof![5 => Just(Ent::Lp), 2 => Just(Ent::OtherLp), 1 => ent()],
            any::<bool>(),
        )
            .prop_map(|(part, coin, pick)| Act::Withdraw { part, coin, pick }),
    ]
    .boxed()
}
fn cases(deep: bool) -> BoxedStrategy<Case> {
    let n = if deep { 8 } else { 3 };
    let of = move |k| {
        let muts = prop_oneof![1 => prop::collection::vec(mutation(), 0..1), 5 => prop::collection::vec(mutation(), 1..2), 2 => prop::collection::vec(mutation(), 2..4)];
        (history_of(k, 0..n), prop::collection::vec((act(), muts), 12)).prop_map(|(h, acts)| Case { h, acts }).boxed()
    };
    proptest::strategy::Union::new(KINDS.iter().map(|k| of(*k))).boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C12",
        rule: "a request is non-trivial when it is ill-formed and rejected although its well-formed original succeeds, or well-formed, accepted and all balances checked",
        assumptions: &["the simulated chain moves attached coins and checks cw20 allowances as CosmWasm and cw20-base do"],
        parts: vec![Box::new(Gen { name: "requests", quick: 20_000, thorough: 1_000_000, strategy: cases, run })],
    }]
}
