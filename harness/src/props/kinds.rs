//! C07 (sale tax), C08 (transmuter), C35 (tracked balances), C36 (fee split of stableswap and concentrated pools).

use astroport::asset::AssetInfo;
use astroport::pair;
use astroport::pair_xyk_sale_tax::{SaleTaxConfigUpdates, SaleTaxInitParams, TaxConfig};
use cosmwasm_std::{Coin, Decimal, Uint128, Uint64};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::terms::history_of;
use super::xyk::{far, quote, E18};
use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

// ------------------------------------------------------------------------------------------------------------- C07

/// asset a tax entry names
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Key {
    Mine(u8),
    Lp,
    Foreign,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entry {
    pub key: Key,
    /// 18-digit rate
    pub rate: u128,
    /// one of the accounts, the pool, or no valid address
    pub to: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum T {
    Op(Op),
    Update { by: u8, taxes: Option<Vec<Entry>>, admin: Option<u8> },
    /// simulations
    Ask { o: u8, amt: Amt },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TaxCase {
    pub setup: Setup,
    pub first: Vec<u128>,
    pub ops: Vec<T>,
}

fn party(p: &Pool, i: u8) -> String {
    match i % 9 {
        0 => TAXED.into(),
        1 => TAXADM.into(),
        2 => OWNER.into(),
        3 => USERS[0].into(),
        4 => USERS[3].into(),
        5 => FEE.into(),
        6 => p.addr.clone(),
        7 => TAXADM.into(),
        _ => "Nobody!".into(),
    }
}

type Taxes = Vec<Option<(u128, String)>>;

fn c07(c: &TaxCase, o: &mut Obs) -> V {
    let (w, p) = c.setup.build()?;
    let (mut fee, mut maker) = (c.setup.total, c.setup.maker);
    let mut admin = TAXADM.to_string();
    let mut taxes: Taxes = (0..2)
        .map(|i| {
            let j = if c.setup.rev { 1 - i } else { i };
            c.setup.tax[j].filter(|_| p.infos[i].is_native_token()).map(|t| (t as u128 * (E18 / 10_000), TAXED.to_string()))
        })
        .collect();
    let _ = w.provide(&p, USERS[0], &c.first[..2], &ProvideOpts::default());
    for (n, t) in c.ops.iter().enumerate() {
        let res = w.reserves(&p);
        let before = snap(&w, &p.infos);
        let lp = w.lp_supply(&p);
        match t {
            T::Op(op @ Op::Swap { u, o: off, a, amt, to }) => {
                let (off, ask) = dirs(&p, *off, *a);
                let (x, y) = (res[off], res[ask]);
                let dx = amt.of(x);
                let (tax, gets) = match &taxes[off] {
                    Some((r, to)) => (mul_div(dx, *r, E18), to.clone()),
                    None => (0, TAXED.into()),
                };
                let r = apply(&w, &p, op);
                let after = snap(&w, &p.infos);
                if x == 0 || y == 0 || dx == 0 {
                    ensure!(r.is_err(), "op {n}: swap of {dx} against {x}/{y} succeeded");
                    continue;
                }
                let q = quote(x, y, dx - tax, fee, 0, maker);
                let trader = user(*u);
                let to = opt_user(to).unwrap_or_else(|| trader.into());
                match r {
                    Ok(_) => {
                        let cut = if c.setup.fee_addr { q.maker } else { 0 };
                        let want = before.after(&[
                            (trader, &p.addr, off, dx),
                            (&p.addr, &gets, off, tax),
                            (&p.addr, &to, ask, q.net),
                            (&p.addr, FEE, ask, cut),
                        ]);
                        if let Some(d) = want.diff(&after) {
                            viol!("op {n}: sale of {dx} against {x}/{y} (tax {:?}, fee {fee}, maker {maker}): {d}", taxes[off]);
                        }
                        ensure!(w.lp_supply(&p) == lp, "op {n}: a swap changed the LP supply");
                        o.tag(if tax > 0 { "taxed sale" } else { "untaxed sale" });
                        o.nontrivial = true;
                    }
                    Err(e) => {
                        ensure!(before == after, "op {n}: failed swap moved funds");
                        let fair = q.gross > 0
                            && u256(q.spread) * u256(10) <= (u256(q.gross) + u256(q.spread)) * u256(4)
                            && x.max(y).max(dx) < (1 << 110)
                            && !far(x, y);
                        ensure!(!fair, "op {n}: sale of {dx} against {x}/{y} (tax {:?}) refused: {e}", taxes[off]);
                    }
                }
            }
            T::Op(op) => {
                let r = apply(&w, &p, op);
                let after = snap(&w, &p.infos);
                match op {
                    Op::Fees { total, maker: m } => {
                        ensure!(r.is_ok(), "op {n}: valid fee configuration refused: {r:?}");
                        (fee, maker) = (*total, *m);
                    }
                    // liquidity moves between the pool and one account only
                    Op::Provide { .. } | Op::Withdraw { .. } if r.is_ok() => {
                        let me = match op {
                            Op::Provide { u, .. } => user(*u),
                            _ => "",
                        };
                        for (k, who) in before.who.iter().enumerate() {
                            for i in 0..2 {
                                let same = before.bal[k][i] == after.bal[k][i];
                                let may = *who == p.addr || who == me || (me.is_empty() && USERS.contains(&who.as_str()));
                                ensure!(same || may, "op {n}: {op:?} changed the balance of {who}");
                            }
                        }
                        for i in 0..2 {
                            let sum = |s: &Snap| USERS.iter().chain([&p.addr.as_str()]).map(|a| {
                                s.bal[s.who.iter().position(|x| x == a).unwrap()][i]
                            }).sum::<u128>();
                            ensure!(sum(&before) == sum(&after), "op {n}: {op:?}: asset {i} left pool and users");
                        }
                        o.tag("liquidity untaxed");
                    }
                    _ => {}
                }
            }
            T::Update { by, taxes: new, admin: to } => {
                let by = match by % 9 {
                    // usually whoever may
                    0 | 5 | 6 => admin.clone(),
                    x => party(&p, x),
                };
                let key = |k: &Key| match k {
                    Key::Mine(i) => info_str(&p.infos[*i as usize % 2]),
                    Key::Lp => p.lp.clone(),
                    Key::Foreign => "uforeign".into(),
                };
                // a map: one entry per asset
                let mut sent: Vec<(String, &Entry)> = vec![];
                for e in new.iter().flatten() {
                    let k = key(&e.key);
                    sent.retain(|x| x.0 != k);
                    sent.push((k, e));
                }
                let msg = SaleTaxConfigUpdates {
                    tax_configs: new.as_ref().map(|_| {
                        sent.iter()
                            .map(|(k, e)| {
                                (
                                    k.as_str(),
                                    TaxConfig {
                                        tax_rate: Decimal::new(Uint128::new(e.rate)),
                                        tax_recipient: party(&p, e.to),
                                    },
                                )
                            })
                            .collect::<Vec<_>>()
                            .into()
                    }),
                    tax_config_admin: to.map(|i| party(&p, i)),
                };
                let r = w.update_pool(&p, &by, &msg);
                ensure!(before == snap(&w, &p.infos), "op {n}: configuration moved funds");
                let fits = sent.iter().all(|(k, e)| {
                    p.infos.iter().any(|i| i.is_native_token() && info_str(i) == *k)
                        && e.rate <= E18 / 2
                        && valid_addr(&party(&p, e.to))
                }) && to.is_none_or(|i| valid_addr(&party(&p, i)));
                let empty = new.is_none() && to.is_none();
                let may = by == admin && fits;
                ensure!(
                    r.is_ok() == may || empty,
                    "op {n}: {by} (administrator {admin}) sends {msg:?}: {}",
                    if may { "refused" } else { "accepted" }
                );
                if r.is_ok() && !empty {
                    if new.is_some() {
                        taxes = (0..2)
                            .map(|i| {
                                sent.iter()
                                    .find(|x| x.0 == info_str(&p.infos[i]))
                                    .map(|(_, e)| (e.rate, party(&p, e.to)))
                            })
                            .collect();
                    }
                    if let Some(i) = to {
                        admin = party(&p, *i);
                        o.tag("administrator handed over");
                    }
                    o.tag("taxes changed");
                    o.nontrivial = true;
                } else {
                    o.tag("change of taxes rejected");
                }
                let cfg: pair::ConfigResponse = w.c.query(&p.addr, &pair::QueryMsg::Config {})?;
                let cfg: SaleTaxInitParams = cosmwasm_std::from_json(cfg.params.ok_or("no params")?).map_err(|e| e.to_string())?;
                ensure!(cfg.tax_config_admin == admin, "op {n}: administrator is {}, expected {admin}", cfg.tax_config_admin);
                let v = serde_json::to_value(&cfg.tax_configs).unwrap();
                let want: serde_json::Map<_, _> = (0..2)
                    .filter_map(|i| {
                        taxes[i].as_ref().map(|(r, t)| {
                            let v = serde_json::json!({"tax_rate": Decimal::new(Uint128::new(*r)).to_string(), "tax_recipient": t});
                            (info_str(&p.infos[i]), v)
                        })
                    })
                    .collect();
                ensure!(v == serde_json::Value::Object(want.clone()), "op {n}: taxes are {v}, expected {want:?}");
            }
            T::Ask { o: off, amt } => {
                let (off, ask) = dirs(&p, *off, *off + 1);
                let (x, y) = (res[off], res[ask]);
                if x == 0 || y == 0 || far(x, y) || x.max(y) >= 1 << 110 {
                    continue;
                }
                let rate = taxes[off].as_ref().map(|t| t.0).unwrap_or(0);
                let dx = amt.of(x).clamp(1, 1 << 110);
                let q = quote(x, y, dx - mul_div(dx, rate, E18), fee, 0, maker);
                let s = w.sim(&p, off, ask, dx)?;
                let got = (s.return_amount.u128(), s.spread_amount.u128(), s.commission_amount.u128());
                ensure!(
                    (got.0, got.2) == (q.net, q.commission) && got.1.abs_diff(q.spread) <= 2 + dx / E18,
                    "op {n}: simulated sale of {dx} against {x}/{y} (tax {rate}, fee {fee}): {got:?}, expected {q:?}"
                );
                // how much to sell for a given amount: what is left after tax is what the curve asks for
                let want = amt.of(y).min(y);
                if fee >= 10_000 {
                    continue;
                }
                let gross = mul_div(want, 10_000, 10_000 - fee as u128);
                if gross + 2 >= y || want == 0 {
                    continue;
                }
                if let Ok(r) = w.rev_sim(&p, off, ask, want) {
                    let offer = r.offer_amount.u128();
                    let left = offer - mul_div(offer, rate, E18);
                    let due = |g: u128| -> u128 {
                        let k = u256(x) * u256(y) / u256(y - g);
                        let k: Uint128 = k.try_into().unwrap_or(Uint128::MAX);
                        k.u128().saturating_sub(x)
                    };
                    // one unit of the gross amount either way for its 18-digit factor, and the unit the tax is rounded by
                    let (lo, hi) = (due(gross.saturating_sub(1 + gross / E18)), due(gross + 1));
                    ensure!(
                        left + 1 + left / (E18 / 10) >= lo && left <= hi + 2 + hi / (E18 / 10),
                        "op {n}: for {want} against {x}/{y} (tax {rate}, fee {fee}) one is told to sell {offer}, {left} after tax; the curve asks for {lo}..{hi}"
                    );
                    o.tag("reverse simulation");
                }
                o.tag("simulation");
            }
        }
    }
    Ok(())
}

fn mix7() -> OpMix {
    OpMix { swap: 10, fees: 1, gap: 1, ..Default::default() }
}
fn s07(deep: bool) -> BoxedStrategy<TaxCase> {
    let key = || {
        prop_oneof![12 => (0u8..2).prop_map(Key::Mine), 1 => Just(Key::Lp), 1 => Just(Key::Foreign)]
    };
    let rate = || {
        prop_oneof![
            6 => 0..=E18 / 2,
            2 => (0u128..=5000).prop_map(|x| x * (E18 / 10_000)),
            1 => Just(E18 / 2),
            1 => prop_oneof![Just(E18 / 2 + 1), Just(E18), Just(2 * E18), E18 / 2..E18],
            1 => Just(0u128),
            1 => 0u128..1000,
        ]
    };
    let to = || prop_oneof![16 => 0u8..8, 1 => Just(8u8)];
    let entry = (key(), rate(), to()).prop_map(|(key, rate, to)| Entry { key, rate, to });
    let update = (0u8..9, prop::option::weighted(0.85, prop::collection::vec(entry, 0..3)), prop::option::weighted(0.25, to()))
        .prop_map(|(by, taxes, admin)| T::Update { by, taxes, admin });
    let ask = (0u8..2, rel(0)).prop_map(|(o, amt)| T::Ask { o, amt });
    let t = prop_oneof![10 => op(mix7()).prop_map(T::Op), 3 => update, 2 => ask];
    let first = || prop_oneof![4 => first_any(4, 24), 1 => first_any(1, 32)];
    // mostly native assets: cw20 assets cannot be taxed
    let su = (setup(Kind::Tax), prop::bool::weighted(0.7)).prop_map(|(mut s, nat)| {
        if nat {
            s.toks.iter_mut().for_each(|t| t.cw20 = false);
        }
        s
    });
    (su, first(), prop::collection::vec(t, 2..if deep { 50 } else { 18 }))
        .prop_map(|(setup, first, ops)| TaxCase { setup, first, ops })
        .boxed()
}
fn s07_shares(deep: bool) -> BoxedStrategy<History> {
    history(setup(Kind::Tax), first_any(3, 24), super::xyk::mix2, 1..if deep { 40 } else { 14 })
}

// ------------------------------------------------------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum M8 {
    /// per asset: parts of the reserve, or nothing
    Provide { u: u8, amts: Vec<Option<Amt>>, to: Option<u8> },
    Swap { u: u8, o: u8, a: u8, amt: Amt, name: bool, to: Option<u8> },
    /// millionths of the balance
    Withdraw { u: u8, part: u32 },
    /// chosen amounts per asset, millionths of the reserve; LP tokens sent, relative to what they cost
    Pick { u: u8, parts: Vec<Option<u32>>, sent: i8, dup: bool },
    Donate { u: u8, i: u8, amt: Amt },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C8 {
    pub setup: Setup,
    pub first: Vec<u128>,
    pub ops: Vec<M8>,
}

fn c08(c: &C8, o: &mut Obs) -> V {
    let (w, p) = c.setup.build()?;
    let n = p.infos.len();
    let top = *p.decs.iter().max().unwrap();
    let unit: Vec<u128> = p.decs.iter().map(|d| 10u128.pow((top - d) as u32)).collect();
    let worth = |v: &[u128]| v.iter().zip(&unit).map(|(x, u)| u256(*x) * u256(*u)).fold(u256(0), |a, b| a + b);
    let max = u256(u128::MAX);
    let mut ops = vec![M8::Provide { u: 0, amts: c.first[..n].iter().map(|x| Some(Amt::Abs(*x))).collect(), to: None }];
    ops.extend(c.ops.iter().cloned());
    for (k, op) in ops.iter().enumerate() {
        let res = w.reserves(&p);
        let s = w.lp_supply(&p);
        let before = snap(&w, &p.infos);
        let lps: Vec<u128> = USERS.iter().map(|u| w.lp_bal(&p, u)).collect();
        let mut lp_want = lps.clone();
        match op {
            M8::Provide { u, amts, to } => {
                let me = user(*u);
                let d: Vec<Option<u128>> = (0..n).map(|i| amts[i % amts.len()].map(|a| a.of(res[i]))).collect();
                let assets: Vec<_> = (0..n).filter_map(|i| d[i].map(|x| asset(&p.infos[i], x))).collect();
                let mut funds: Vec<Coin> = assets.iter().filter(|a| !a.amount.is_zero()).map(|a| a.as_coin().unwrap()).collect();
                funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                let m = pair::ExecuteMsg::ProvideLiquidity {
                    assets,
                    slippage_tolerance: None,
                    auto_stake: None,
                    receiver: opt_user(to),
                    min_lp_to_receive: None,
                };
                let r = w.c.exec(me, &p.addr, &m, &funds);
                let d: Vec<u128> = d.into_iter().map(|x| x.unwrap_or(0)).collect();
                let mint = worth(&d);
                match r {
                    Ok(_) => {
                        let mint: Uint128 = mint.try_into().map_err(|_| "")?;
                        lp_want[to.unwrap_or(*u) as usize % 4] += mint.u128();
                        let moves: Vec<_> = (0..n).map(|i| (me, p.addr.as_str(), i, d[i])).collect();
                        if let Some(x) = before.after(&moves).diff(&snap(&w, &p.infos)) {
                            viol!("op {k}: deposit {d:?}: {x}");
                        }
                        ensure!(w.lp_supply(&p) == s + mint.u128(), "op {k}: deposit {d:?} worth {mint} minted {}", w.lp_supply(&p) - s);
                        o.tag("deposit");
                    }
                    Err(e) => {
                        ensure!(
                            mint.is_zero() || worth(&res) + mint > max >> 1 || mint > max >> 1,
                            "op {k}: deposit {d:?} (decimals {:?}) refused: {e}", p.decs
                        );
                        o.tag("deposit refused");
                    }
                }
            }
            M8::Swap { u, o: off, a, amt, name, to } => {
                let me = user(*u);
                let (off, ask) = dirs(&p, *off, *a);
                let dx = amt.of(res[off]);
                let ask_info = (*name || n > 2).then(|| p.infos[ask].clone());
                let sim = w.c.query::<pair::SimulationResponse, _>(
                    &p.addr,
                    &pair::QueryMsg::Simulation { offer_asset: asset(&p.infos[off], dx), ask_asset_info: ask_info.clone() },
                );
                let m = pair::ExecuteMsg::Swap {
                    offer_asset: asset(&p.infos[off], dx),
                    ask_asset_info: ask_info,
                    belief_price: None,
                    max_spread: None,
                    to: opt_user(to),
                };
                let funds: Vec<Coin> = (dx > 0).then(|| asset(&p.infos[off], dx).as_coin().unwrap()).into_iter().collect();
                let due = u256(dx) * u256(unit[off]) / u256(unit[ask]);
                match w.c.exec(me, &p.addr, &m, &funds) {
                    Ok(_) => {
                        let due: Uint128 = due.try_into().map_err(|_| "")?;
                        let due = due.u128();
                        ensure!(due <= res[ask], "op {k}: {due} paid from {}", res[ask]);
                        let dest = opt_user(to).unwrap_or_else(|| me.into());
                        let want = before.after(&[(me, &p.addr, off, dx), (&p.addr, &dest, ask, due)]);
                        if let Some(x) = want.diff(&snap(&w, &p.infos)) {
                            viol!("op {k}: swap of {dx} (decimals {} to {}): {x}", p.decs[off], p.decs[ask]);
                        }
                        let sim = sim.map_err(|e| Viol::from(format!("op {k}: swap of {dx} succeeds, its simulation does not: {e}")))?;
                        ensure!(
                            sim.return_amount.u128() == due && sim.spread_amount.is_zero() && sim.commission_amount.is_zero(),
                            "op {k}: swap of {dx} pays {due}, simulated {sim:?}"
                        );
                        o.tag("swap");
                        o.nontrivial = true;
                    }
                    Err(e) => {
                        ensure!(
                            due.is_zero() || due > u256(res[ask]) || u256(dx) * u256(unit[off]) > max,
                            "op {k}: swap of {dx} for {due} refused although the pool has {}: {e}", res[ask]
                        );
                        o.tag("swap refused");
                        if due > u256(res[ask]) {
                            o.nontrivial = true;
                            o.tag("more than the pool has");
                        }
                    }
                }
                // what to offer for a given amount
                let want = amt.of(res[ask]);
                let rev = w.rev_sim(&p, off, ask, want);
                let need = (u256(want) * u256(unit[ask]) + u256(unit[off]) - u256(1)) / u256(unit[off]);
                let have = w.reserves(&p)[ask];
                match rev {
                    Ok(r) => ensure!(
                        u256(r.offer_amount.u128()) == need && want <= have,
                        "op {k}: {want} of {have} cost {need}, quoted {}", r.offer_amount
                    ),
                    Err(e) => ensure!(want > have || u256(want) * u256(unit[ask]) > max >> 1, "op {k}: no quote for {want} of {have}: {e}"),
                }
            }
            M8::Withdraw { u, part } => {
                let me = holder(&w, &p, *u);
                let j = USERS.iter().position(|x| *x == me).unwrap();
                let x = lp_part(lps[j], *part);
                match w.withdraw(&p, me, x, vec![], None) {
                    Ok(_) => {
                        ensure!(x <= lps[j], "op {k}: withdrew more than held");
                        lp_want[j] -= x;
                        let after = snap(&w, &p.infos);
                        let mut moves = vec![];
                        for i in 0..n {
                            let got = res[i].saturating_sub(w.reserves(&p)[i]);
                            let hi = mul_div(res[i], x, s);
                            let lo = hi.saturating_sub(res[i] / E18 + 1);
                            ensure!((lo..=hi).contains(&got), "op {k}: {x} of {s} shares paid {got} of {}, pro-rata {hi}", res[i]);
                            moves.push((p.addr.as_str(), me, i, got));
                        }
                        if let Some(d) = before.after(&moves).diff(&after) {
                            viol!("op {k}: withdrawal: {d}");
                        }
                        o.tag("withdrawal");
                        o.nontrivial = true;
                    }
                    Err(e) => ensure!(x > lps[j] || s == 0, "op {k}: withdrawal of {x} of {s} from {res:?} refused: {e}"),
                }
            }
            M8::Pick { u, parts, sent, dup } => {
                let me = holder(&w, &p, *u);
                let j = USERS.iter().position(|x| *x == me).unwrap();
                let mut v: Vec<(usize, u128)> = (0..n)
                    .filter_map(|i| parts[i % parts.len()].map(|m| (i, mul_div(res[i], m as u128, 1_000_000))))
                    .collect();
                if *dup {
                    v.push(v.first().copied().unwrap_or((0, res[0])));
                }
                let mut sum = vec![0u128; n];
                for (i, x) in &v {
                    sum[*i] = sum[*i].saturating_add(*x);
                }
                let cost: Uint128 = worth(&sum).try_into().unwrap_or(Uint128::MAX);
                let cost = cost.u128();
                let x = match sent {
                    0 => cost,
                    -1 => cost.saturating_sub(1),
                    1 => cost.saturating_add(1),
                    s if *s > 0 => cost.saturating_add(lps[j].saturating_sub(cost) / *s as u128),
                    s => cost / (s.unsigned_abs() as u128),
                };
                if v.is_empty() || x == 0 {
                    continue;
                }
                let r = w.withdraw(&p, me, x, v.iter().map(|(i, x)| asset(&p.infos[*i], *x)).collect(), None);
                let enough = x <= lps[j] && cost <= x && (0..n).all(|i| sum[i] <= res[i]);
                match r {
                    Ok(_) => {
                        ensure!(enough, "op {k}: {me} takes {v:?} (cost {cost}) of {res:?} for {x} shares of {}", lps[j]);
                        let moves: Vec<_> = (0..n).map(|i| (p.addr.as_str(), me, i, sum[i])).collect();
                        if let Some(d) = before.after(&moves).diff(&snap(&w, &p.infos)) {
                            viol!("op {k}: withdrawal of {v:?}: {d}");
                        }
                        lp_want[j] -= cost;
                        ensure!(w.lp_supply(&p) == s - cost, "op {k}: withdrawal of {v:?} burned {} instead of {cost}", s - w.lp_supply(&p));
                        o.tag(if x > cost { "chosen amounts, shares returned" } else { "chosen amounts" });
                        o.nontrivial = true;
                    }
                    Err(e) => {
                        ensure!(!enough || cost == 0, "op {k}: withdrawal of {v:?} (cost {cost}) for {x} of {} shares refused: {e}", lps[j]);
                        o.tag("chosen amounts refused");
                        if cost > x {
                            o.tag("too few shares for the chosen amounts");
                        }
                    }
                }
            }
            M8::Donate { u, i, amt } => {
                let i = *i as usize % n;
                let _ = w.transfer(&p.infos[i], user(*u), &p.addr, amt.of(res[i]).min(1 << 100));
            }
        }
        let now: Vec<u128> = USERS.iter().map(|u| w.lp_bal(&p, u)).collect();
        ensure!(now == lp_want, "op {k} {op:?}: LP balances {now:?}, expected {lp_want:?}");
        ensure!(w.lp_supply(&p) == now.iter().sum::<u128>(), "op {k}: LP supply {} is not what holders have {now:?}", w.lp_supply(&p));
        let (l, h) = (w.lp_supply(&p), worth(&w.reserves(&p)));
        ensure!(u256(l) <= h, "op {k} {op:?}: {l} shares, assets worth {h}");
    }
    // everybody can leave with what the shares are worth
    let st = w.c.dry(|| -> V {
        for (j, who) in USERS.iter().enumerate() {
            let x = w.lp_bal(&p, who);
            if x == 0 {
                continue;
            }
            let r0 = worth(&w.reserves(&p));
            let s0 = w.lp_supply(&p);
            let r = w.withdraw(&p, who, x, vec![], None);
            ensure!(r.is_ok(), "{who} cannot leave with {x} of {s0}: {r:?}");
            let got = r0 - worth(&w.reserves(&p));
            // no less than the shares, up to the units and the 18 digits of the ratio
            let slack = unit.iter().sum::<u128>();
            ensure!(
                got + u256(slack) + r0 / u256(E18 / 10) >= u256(x),
                "{who} ({j}) redeems {x} of {s0} shares for {got} of {r0}"
            );
        }
        Ok(())
    });
    st?;
    let _ = AssetInfo::native("x");
    Ok(())
}

fn s08(deep: bool) -> BoxedStrategy<C8> {
    let to = || prop::option::weighted(0.25, 0u8..4);
    let part = || prop_oneof![Just(1_000_000u32), 0u32..=1_000_000, 0u32..100];
    let m = prop_oneof![
        4 => (0u8..4, prop::collection::vec(prop::option::weighted(0.7, rel(1)), 5), to()).prop_map(|(u, amts, to)| M8::Provide { u, amts, to }),
        6 => (0u8..4, 0u8..5, 0u8..5, rel(1), any::<bool>(), to()).prop_map(|(u, o, a, amt, name, to)| M8::Swap { u, o, a, amt, name, to }),
        3 => (0u8..4, part()).prop_map(|(u, part)| M8::Withdraw { u, part }),
        4 => (0u8..4, prop::collection::vec(prop::option::weighted(0.5, part()), 5), prop_oneof![3 => Just(0i8), 3 => Just(-1), 1 => Just(1), 2 => -5i8..6], prop::bool::weighted(0.1))
            .prop_map(|(u, parts, sent, dup)| M8::Pick { u, parts, sent, dup }),
        1 => (0u8..4, 0u8..5, rel(0)).prop_map(|(u, i, amt)| M8::Donate { u, i, amt }),
    ];
    (
        setup(Kind::Transmuter),
        prop_oneof![4 => first_any(0, 20), 1 => first_any(0, 34)],
        prop::collection::vec(m, 1..if deep { 40 } else { 16 }),
    )
        .prop_map(|(setup, first, ops)| C8 { setup, first, ops })
        .boxed()
}

// ------------------------------------------------------------------------------------------------------------- C35

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tracked {
    pub h: History,
    /// heights asked for, as offsets from the first block
    pub ask: Vec<u8>,
}

fn c35(c: &Tracked, o: &mut Obs) -> V {
    let Ok((w, p)) = c.h.setup.build() else { return Ok(()) };
    let h0 = w.c.block().height;
    // block -> reserves as the last trade or liquidity operation of the block left them
    let mut rec: std::collections::BTreeMap<u64, Vec<u128>> = Default::default();
    rec.insert(h0, vec![0; 2]);
    let first = match p.kind {
        Kind::Pcl => first_amounts(&c.h.setup, &p, &c.h.first),
        _ => c.h.first[..2].to_vec(),
    };
    let mut ops = vec![Op::Provide { u: 0, amts: first.iter().map(|x| Amt::Abs(*x)).collect(), bal: false, to: None }];
    ops.extend(c.h.ops.iter().cloned());
    let mut answers: std::collections::BTreeMap<(usize, u64), Option<u128>> = Default::default();
    for (n, op) in ops.iter().enumerate() {
        let in_block = rec.get(&w.c.block().height).is_some();
        let r = apply(&w, &p, op);
        let counted = matches!(op, Op::Provide { .. } | Op::Swap { .. } | Op::Withdraw { .. });
        if r.is_ok() && counted {
            if in_block {
                o.tag("several operations in one block");
            }
            rec.insert(w.c.block().height, w.reserves(&p));
        }
        let now = w.c.block().height;
        let heights = c.ask.iter().map(|a| h0 + *a as u64).chain([now, now + 1, now - 1, h0, h0 + 1, h0 - 1]);
        for h in heights {
            for i in 0..2 {
                let got: Option<Uint128> = w.c.query(
                    &p.addr,
                    &pair::QueryMsg::AssetBalanceAt { asset_info: p.infos[i].clone(), block_height: Uint64::new(h) },
                )?;
                let want = c.h.setup.track.then(|| rec.range(..h).next_back().map(|x| x.1[i])).flatten();
                let got = got.map(|x| x.u128());
                ensure!(
                    got == want,
                    "after op {n} in block {now}: asset {i} at block {h} was {want:?}, answered {got:?} (records {rec:?})"
                );
                // what was answered for a past block never changes
                if h <= now {
                    let old = answers.entry((i, h)).or_insert(got);
                    ensure!(*old == got, "after op {n}: the balance of asset {i} at block {h} changed from {old:?} to {got:?}");
                }
                if want.is_some_and(|x| x > 0) && h < now {
                    o.tag("past balance");
                    o.nontrivial = true;
                }
            }
        }
        if !c.h.setup.track {
            o.tag("untracked");
            o.nontrivial = true;
        }
    }
    let alien: Option<Uint128> = w
        .c
        .query(&p.addr, &pair::QueryMsg::AssetBalanceAt { asset_info: native("ualien"), block_height: Uint64::new(h0 + 5) })
        .unwrap_or(None);
    ensure!(alien.is_none(), "an asset that is not the pool's has a recorded balance {alien:?}");
    Ok(())
}
// ------------------------------------------------------------------------------------------------ C24, LP tokens

/// Pools created with balance tracking install the tracker on their LP token, by block height. Donations of the history
/// are transfers of LP tokens here.
fn c24_lp(c: &Tracked, o: &mut Obs) -> V {
    let Ok((w, p)) = c.h.setup.build() else { return Ok(()) };
    let conf: pair::ConfigResponse = w.c.query(&p.addr, &pair::QueryMsg::Config {})?;
    if !c.h.setup.track {
        ensure!(conf.tracker_addr.is_none(), "an untracked pool has a tracker");
        return Ok(());
    }
    let Some(at) = conf.tracker_addr else { viol!("a tracked pool has no tracker") };
    let who: Vec<String> = USERS.iter().map(|x| x.to_string()).chain([p.addr.clone()]).collect();
    let h0 = w.c.block().height;
    // block -> balances at its end
    let mut rec: std::collections::BTreeMap<u64, Vec<u128>> = Default::default();
    rec.insert(0, vec![0; who.len()]);
    let first = match p.kind {
        Kind::Pcl => first_amounts(&c.h.setup, &p, &c.h.first),
        _ => c.h.first[..2].to_vec(),
    };
    let mut ops = vec![Op::Provide { u: 0, amts: first.iter().map(|x| Amt::Abs(*x)).collect(), bal: false, to: None }];
    ops.extend(c.h.ops.iter().cloned());
    for (n, op) in ops.iter().enumerate() {
        match op {
            Op::Donate { u, i, amt } => {
                let from = holder(&w, &p, *u);
                let x = amt.of(w.lp_bal(&p, from));
                let _ = w.c.send(from, user(*i), &p.lp, x.min(w.lp_bal(&p, from)));
            }
            x => {
                let _ = apply(&w, &p, x);
            }
        }
        let now = w.c.block().height;
        let cur: Vec<u128> = who.iter().map(|a| w.lp_bal(&p, a)).collect();
        rec.insert(now, cur.clone());
        let heights = c.ask.iter().map(|a| h0 + *a as u64).chain([now, now + 1, now - 1, h0, h0 + 1]);
        for h in heights {
            // the present is answered as it is
            let want = if h == now { cur.clone() } else { rec.range(..h).next_back().unwrap().1.clone() };
            for (k, a) in who.iter().enumerate() {
                let got: Uint128 = w.c.query(
                    at.as_str(),
                    &astroport::tokenfactory_tracker::QueryMsg::BalanceAt { address: a.clone(), unit: Some(h) },
                )?;
                ensure!(
                    got.u128() == want[k],
                    "after op {n} in block {now}: {a} had {} LP tokens at the start of block {h}, answered {got}",
                    want[k]
                );
                if want[k] != cur[k] && want[k] > 0 {
                    o.tag("past balance differs");
                    o.nontrivial = true;
                }
            }
        }
        for (k, a) in who.iter().enumerate() {
            let got: Uint128 = w.c.query(
                at.as_str(),
                &astroport::tokenfactory_tracker::QueryMsg::BalanceAt { address: a.clone(), unit: None },
            )?;
            ensure!(got.u128() == cur[k], "after op {n}: {a} has {} LP tokens, the tracker answers {got}", cur[k]);
        }
    }
    Ok(())
}
pub fn lp_tracker_part() -> Box<dyn Part> {
    Box::new(Gen { name: "pool tokens", quick: 5_000, thorough: 200_000, strategy: s35, run: c24_lp })
}

fn mix35() -> OpMix {
    OpMix { provide: 4, swap: 6, withdraw: 4, donate: 2, gap: 4, fees: 1, share: 1, amp: 0 }
}
fn s35(deep: bool) -> BoxedStrategy<Tracked> {
    let n = if deep { 40 } else { 14 };
    let of = move |k: Kind| {
        let su = (usual(k), prop::bool::weighted(0.9)).prop_map(|(mut s, t)| {
            s.track = t;
            s
        });
        let first = if k == Kind::Pcl { first_tokens(7, 14, 1) } else { first_any(4, 22) };
        (history(su.boxed(), first, mix35, 1..n), prop::collection::vec(0u8..40, 3)).prop_map(|(h, ask)| Tracked { h, ask }).boxed()
    };
    proptest::strategy::Union::new([Kind::Xyk, Kind::Pcl, Kind::Tax].map(of)).boxed()
}

// ------------------------------------------------------------------------------------------------------------- C36

fn c36(h: &History, o: &mut Obs) -> V {
    let Ok((w, p)) = super::terms::start(h) else {
        o.tag("first deposit refused");
        return Ok(());
    };
    let k = p.kind;
    let (mut fee, mut maker, mut share) = (h.setup.total, h.setup.maker, h.setup.share);
    for (n, op) in h.ops.iter().enumerate() {
        let Op::Swap { u, o: off, a, amt, to } = op else {
            let r = apply(&w, &p, op);
            match (op, r.is_ok()) {
                (Op::Fees { total, maker: m }, ok) => {
                    ensure!(ok, "op {n}: valid fee configuration refused: {r:?}");
                    (fee, maker) = (*total, *m);
                }
                (Op::Share(s), ok) => {
                    ensure!(ok, "op {n}: valid fee share {s:?} refused: {r:?}");
                    share = *s;
                    share_bounds(&w, &p)?;
                }
                _ => {}
            }
            continue;
        };
        let (off, ask) = dirs(&p, *off, *a);
        let dx = amt.of(w.reserves(&p)[off]);
        let before = snap(&w, &p.infos);
        let lp = w.lp_supply(&p);
        let opts = SwapOpts {
            belief: (dx % 4 == 0).then(|| Decimal::from_ratio(E18, 1u128)),
            max_spread: Some(Decimal::percent(50)),
            to: opt_user(to),
        };
        let r = w.swap(&p, user(*u), off, ask, dx, &opts);
        let after = snap(&w, &p.infos);
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                ensure!(before == after, "op {n}: failed swap moved funds");
                o.tag("swap refused");
                continue;
            }
        };
        let at = |s: &Snap, who: &str| s.bal[s.who.iter().position(|x| x == who).unwrap()][ask];
        let trader = user(*u);
        let dest = opt_user(to).unwrap_or_else(|| trader.into());
        let net = at(&after, &dest) - at(&before, &dest);
        let lost = at(&before, &p.addr) - at(&after, &p.addr);
        let s = at(&after, SHARE) - at(&before, SHARE);
        let m = at(&after, FEE) - at(&before, FEE);
        let num = |key: &str| r.attr(&p.addr, key).and_then(|x| x.parse::<u128>().ok());
        let Some(commission) = num("commission_amount") else { viol!("op {n}: no commission reported") };
        let shown = format!("op {n}: {k:?} swap of {dx}: trader {net}, commission {commission}, integrator {s}, protocol {m} (fee {fee}, share {share:?}, maker {maker})");
        // nobody else is involved
        let want = before.after(&[
            (trader, &p.addr, off, dx),
            (&p.addr, &dest, ask, net),
            (&p.addr, SHARE, ask, s),
            (&p.addr, FEE, ask, m),
        ]);
        if let Some(d) = want.diff(&after) {
            viol!("{shown}: {d}");
        }
        ensure!(w.lp_supply(&p) == lp, "{shown}: the LP supply changed");
        ensure!(lost == net + s + m, "{shown}: the pool lost {lost}");
        ensure!(num("return_amount") == Some(net), "{shown}: reported return {:?}", num("return_amount"));
        ensure!(num("maker_fee_amount").unwrap_or(0) == m, "{shown}: reported protocol fee {:?}", num("maker_fee_amount"));
        ensure!(num("fee_share_amount").unwrap_or(0) == s, "{shown}: reported integrator fee {:?}", num("fee_share_amount"));
        let gross = net + commission;
        let rate = |x: u128, bps: u128| mul_div(x, bps, 10_000);
        // a concentrated pool computes in whole tokens with 18 digits and rounds every part down once
        let slack = (k == Kind::Pcl) as u128;
        let (sh, mk) = (share.unwrap_or(0) as u128, if h.setup.fee_addr { maker as u128 } else { 0 });
        let close = |got: u128, want: u128| got.abs_diff(want) <= slack;
        ensure!(close(s, rate(commission, sh)) && s <= rate(commission + slack, sh).max(rate(commission, sh)), "{shown}: integrator is due {}", rate(commission, sh));
        ensure!(close(m, rate(commission - s.min(commission), mk)), "{shown}: protocol is due {}", rate(commission - s.min(commission), mk));
        if k == Kind::Stable {
            ensure!(commission == rate(gross, fee as u128), "{shown}: commission of {gross} is {}", rate(gross, fee as u128));
        } else {
            let c = pcl_config(&w, &p)?;
            let (lo, hi) = (c.mid_fee.atomics().u128(), c.out_fee.atomics().u128());
            let (lo, hi) = (mul_div(gross, lo, E18).saturating_sub(1), mul_div_ceil(gross, hi, E18) + 1);
            ensure!((lo..=hi).contains(&commission), "{shown}: commission of {gross} lies outside {lo}..{hi}");
        }
        if s > 0 {
            o.tag(format!("{k:?} integrator paid"));
        }
        if m > 0 {
            o.tag(format!("{k:?} protocol paid"));
        }
        if commission > 0 {
            o.nontrivial = true;
        }
        if s > 0 && m > 0 {
            o.tag(format!("{k:?} three-way split"));
        }
    }
    Ok(())
}
fn mix36() -> OpMix {
    OpMix { provide: 2, swap: 12, withdraw: 1, donate: 1, gap: 2, fees: 2, share: 2, amp: 1 }
}
fn s36(deep: bool) -> BoxedStrategy<History> {
    let n = if deep { 40 } else { 14 };
    let of = move |k: Kind| {
        let lo = if k == Kind::Pcl { 7 } else { 3 };
        prop_oneof![3 => history(usual(k), first_tokens(lo, 15, 2), mix36, 1..n), 1 => history_of(k, 1..n)].boxed()
    };
    proptest::strategy::Union::new([Kind::Stable, Kind::Pcl].map(of)).boxed()
}

const CHAIN: &str = "the simulated chain executes messages, replies and bank transfers as CosmWasm does";

pub fn props() -> Vec<Property> {
    let _ = gen::bps;
    vec![
        Property {
            id: "C07",
            rule: "non-trivial when a sale executed and every balance was compared with the exact tax, curve and fee formula, or taxes were changed; or (second part) a later deposit or withdrawal was compared with the pro-rata formula",
            assumptions: &[CHAIN],
            parts: vec![
                Box::new(Gen { name: "sales", quick: 30_000, thorough: 1_200_000, strategy: s07, run: c07 }),
                Box::new(Gen { name: "liquidity", quick: 12_000, thorough: 400_000, strategy: s07_shares, run: super::xyk::c02 }),
            ],
        },
        Property {
            id: "C08",
            rule: "non-trivial when a trade, a proportional withdrawal or a withdrawal of chosen amounts executed and all balances and shares were compared with the model, or a trade beyond the reserve was refused",
            assumptions: &[CHAIN],
            parts: vec![Box::new(Gen { name: "histories", quick: 40_000, thorough: 1_500_000, strategy: s08, run: c08 })],
        },
        Property {
            id: "C35",
            rule: "non-trivial when a past block's positive balance was compared with the recorded history, or the pool is untracked",
            assumptions: &[CHAIN],
            parts: vec![Box::new(Gen { name: "histories", quick: 12_000, thorough: 400_000, strategy: s35, run: c35 })],
        },
        Property {
            id: "C36",
            rule: "non-trivial when a swap executed with a positive commission and its split was compared with the formula",
            assumptions: &[CHAIN, "the commission is the one the swap reports; C03 checks that what the trader receives is right"],
            parts: vec![Box::new(Gen { name: "histories", quick: 20_000, thorough: 800_000, strategy: s36, run: c36 })],
        },
    ]
}
