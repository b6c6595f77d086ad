//! C09 (ASTRO/xASTRO pool), C23 (staking), C24 (tracker of token-factory balances).

use astroport::pair;
use astroport::pair_xastro::XastroPairInitParams;
use astroport::staking::{ExecuteMsg, InstantiateMsg, QueryMsg, StakingResponse};
use astroport::tokenfactory_tracker as trk;
use astroport::token_factory::*;
use cosmwasm_std::{coin, from_json, to_json_binary, Coin, Decimal, Uint128};
use prost::Message;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::{lp_part, user, Amt};
use crate::world::*;
use crate::{ensure, viol};

const ASTRO: &str = "factory/wasm1assembly/astro";

struct Stk {
    c: Chain,
    addr: String,
    x: String,
}

fn build() -> R<Stk> {
    build_with(codes::tracker())
}
fn build_with(tracker: Code) -> R<Stk> {
    let c = Chain::new();
    for u in USERS {
        c.faucet(u, ASTRO, RICH);
        c.faucet(u, "ujunk", RICH);
    }
    let t = c.store(tracker);
    let s = c.store(codes::staking());
    let addr = c.init(
        s,
        OWNER,
        &InstantiateMsg {
            deposit_token_denom: ASTRO.into(),
            tracking_admin: OWNER.into(),
            tracking_code_id: t,
            token_factory_addr: TF_MODULE.into(),
        },
        &[],
        "staking",
        None,
    )?;
    let cfg: astroport::staking::Config = c.query(&addr, &QueryMsg::Config {})?;
    Ok(Stk { c, addr, x: cfg.xastro_denom })
}

impl Stk {
    fn deposit(&self) -> u128 {
        self.c.balance(&self.addr, ASTRO)
    }
    fn shares(&self) -> u128 {
        self.c.supply(&self.x)
    }
    fn bals(&self) -> Vec<(u128, u128)> {
        USERS.iter().map(|u| (self.c.balance(u, ASTRO), self.c.balance(u, &self.x))).collect()
    }
    /// an account holding xASTRO, chosen by `u`
    fn holder(&self, u: u8) -> usize {
        let v: Vec<_> = (0..4).filter(|i| self.c.balance(USERS[*i], &self.x) > 0).collect();
        if v.is_empty() {
            u as usize % 4
        } else {
            v[u as usize % v.len()]
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Enter { u: u8, amt: Amt, to: Option<u8> },
    /// all minted xASTRO goes straight into unstaking for the staking contract's caller
    EnterLeave { u: u8, amt: Amt, to: u8 },
    Leave { u: u8, part: u32, to: Option<u8> },
    Donate { u: u8, amt: Amt },
    DonateX { u: u8, part: u32 },
    Move { u: u8, part: u32, to: u8 },
    /// malformed: 0 nothing attached, 1 another coin, 2 both coins, 3 the opposite coin
    Bad { u: u8, leave: bool, what: u8 },
    Gap { secs: u32 },
}

fn enter(d: u128, s: u128, a: u128) -> Option<(u128, u128)> {
    if d == 0 || s == 0 {
        (a > 1000).then(|| (a - 1000, 1000))
    } else {
        let m = mul_div(a, s, d);
        (m > 0).then_some((m, 0))
    }
}

fn c23(h: &Vec<SOp>, o: &mut Obs) -> V {
    let k = build()?;
    let c = &k.c;
    for (n, op) in h.iter().enumerate() {
        let (d, s) = (k.deposit(), k.shares());
        let before = k.bals();
        let own = c.balance(&k.addr, &k.x);
        let st = c.state();
        let mut want = before.clone();
        let (mut wd, mut ws, mut wown) = (d, s, own);
        match op {
            SOp::Enter { u, amt, to } => {
                let u = *u as usize % 4;
                let a = amt.of(d).min(RICH / 4);
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                let r = c.exec(
                    USERS[u],
                    &k.addr,
                    &ExecuteMsg::Enter { receiver: to.map(|t| user(t).to_string()) },
                    &if a > 0 { vec![coin(a, ASTRO)] } else { vec![] },
                );
                match (enter(d, s, a), r) {
                    (Some((m, lock)), Ok(r)) if a > 0 => {
                        want[u].0 -= a;
                        want[t].1 += m;
                        wd += a;
                        ws += m + lock;
                        wown += lock;
                        let resp: StakingResponse = from_json(r.data.unwrap_or_default()).map_err(|e| e.to_string())?;
                        ensure!(resp.astro_amount.u128() == a && resp.xastro_amount.u128() == m, "op {n}: response {resp:?}, {a} staked for {m}");
                        o.tag(if lock > 0 { "first stake" } else { "stake" });
                        o.nontrivial |= s > 0;
                        // out again at once never profits
                        let back = c.dry(|| {
                            c.exec(USERS[t], &k.addr, &ExecuteMsg::Leave { receiver: None }, &[coin(m, &k.x)])
                                .map(|_| c.balance(USERS[t], ASTRO))
                        });
                        if let Ok(b) = back {
                            let had = if t == u { before[t].0 - a } else { before[t].0 };
                            ensure!(s == 0 || b - had <= a, "op {n}: staking {a} and unstaking at once returned {}", b - had);
                        }
                    }
                    (None, Err(_)) => o.tag("stake refused"),
                    (_, Err(_)) if a == 0 => {}
                    (w, r) => viol!("op {n}: staking {a} against {d}/{s}: {r:?}, expected {w:?}"),
                }
            }
            SOp::EnterLeave { u, amt, to } => {
                let u = *u as usize % 4;
                let t = *to as usize % 4;
                let a = amt.of(d).min(RICH / 4).max(1);
                let r = c.exec(
                    USERS[u],
                    &k.addr,
                    &ExecuteMsg::EnterWithHook {
                        contract_address: k.addr.clone(),
                        msg: to_json_binary(&ExecuteMsg::Leave { receiver: Some(USERS[t].into()) }).unwrap(),
                    },
                    &[coin(a, ASTRO)],
                );
                match enter(d, s, a) {
                    Some((m, lock)) => {
                        let pay = mul_div(m, d + a, s + m + lock);
                        ensure!(r.is_ok() == (pay > 0), "op {n}: staking {a} against {d}/{s} with a hook: {r:?}");
                        if pay > 0 {
                            want[u].0 -= a;
                            want[t].0 += pay;
                            wd = d + a - pay;
                            ws += lock;
                            wown += lock;
                            o.tag("stake with hook");
                        }
                    }
                    None => ensure!(r.is_err(), "op {n}: staking {a} against {d}/{s} with a hook succeeded"),
                }
            }
            SOp::Leave { u, part, to } => {
                let u = k.holder(*u);
                let x = lp_part(before[u].1, *part);
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                let r = c.exec(
                    USERS[u],
                    &k.addr,
                    &ExecuteMsg::Leave { receiver: to.map(|t| user(t).to_string()) },
                    &[coin(x, &k.x)],
                );
                let pay = if s > 0 { mul_div(x, d, s) } else { 0 };
                if x <= before[u].1 && pay > 0 {
                    ensure!(r.is_ok(), "op {n}: unstaking {x} of {s} from {d} refused: {r:?}");
                    let resp: StakingResponse = from_json(r.unwrap().data.unwrap_or_default()).map_err(|e| e.to_string())?;
                    ensure!(resp.astro_amount.u128() == pay && resp.xastro_amount.u128() == x, "op {n}: response {resp:?}, {x} unstaked for {pay}");
                    want[u].1 -= x;
                    want[t].0 += pay;
                    wd -= pay;
                    ws -= x;
                    o.tag("unstake");
                    o.nontrivial = true;
                } else {
                    ensure!(r.is_err(), "op {n}: unstaking {x} (held {}) of {s} from {d} succeeded", before[u].1);
                }
            }
            SOp::Donate { u, amt } => {
                let u = *u as usize % 4;
                let a = amt.of(d).min(RICH / 4).max(1);
                c.send(USERS[u], &k.addr, ASTRO, a)?;
                want[u].0 -= a;
                wd += a;
                o.tag("donation");
            }
            SOp::DonateX { u, part } => {
                let u = k.holder(*u);
                let x = lp_part(before[u].1, *part / 4);
                if x <= before[u].1 {
                    c.send(USERS[u], &k.addr, &k.x, x)?;
                    want[u].1 -= x;
                    wown += x;
                }
            }
            SOp::Move { u, part, to } => {
                let u = k.holder(*u);
                let t = *to as usize % 4;
                let x = lp_part(before[u].1, *part);
                if x <= before[u].1 {
                    c.send(USERS[u], USERS[t], &k.x, x)?;
                    want[u].1 -= x;
                    want[t].1 += x;
                }
            }
            SOp::Bad { u, leave, what } => {
                let u = *u as usize % 4;
                let (good, other) = if *leave { (k.x.as_str(), ASTRO) } else { (ASTRO, k.x.as_str()) };
                let mut funds: Vec<Coin> = match what % 4 {
                    0 => vec![],
                    1 => vec![coin(5000, "ujunk")],
                    2 => vec![coin(5000, good), coin(5000, "ujunk")],
                    _ => vec![coin(5000, other)],
                };
                funds.sort_by(|a, b| a.denom.cmp(&b.denom));
                let m = if *leave { ExecuteMsg::Leave { receiver: None } } else { ExecuteMsg::Enter { receiver: None } };
                let r = c.exec(USERS[u], &k.addr, &m, &funds);
                ensure!(r.is_err(), "op {n}: {m:?} with {funds:?} succeeded");
                o.tag("malformed");
            }
            SOp::Gap { secs } => c.advance(1, *secs as u64),
        }
        let got = k.bals();
        ensure!(got == want, "op {n} {op:?} against {d}/{s}: balances {got:?}, expected {want:?}");
        let (d1, s1) = (k.deposit(), k.shares());
        ensure!(d1 == wd && s1 == ws, "op {n} {op:?}: deposit/shares {d}/{s} became {d1}/{s1}, expected {wd}/{ws}");
        let own1 = c.balance(&k.addr, &k.x);
        ensure!(own1 == wown, "op {n} {op:?}: the contract holds {own1} xASTRO, expected {wown}");
        ensure!(s1 == 0 || own1 >= 1000, "op {n}: the locked xASTRO is gone");
        if s > 0 {
            ensure!(u256(d1) * u256(s) >= u256(d) * u256(s1), "op {n} {op:?}: backing per share fell: {d}/{s} -> {d1}/{s1}");
        }
        let q: Uint128 = c.query(&k.addr, &QueryMsg::TotalDeposit {})?;
        let q2: Uint128 = c.query(&k.addr, &QueryMsg::TotalShares {})?;
        let q3: Uint128 = c.query(&k.addr, &QueryMsg::TotalSupplyAt { timestamp: None })?;
        let q4: Uint128 = c.query(&k.addr, &QueryMsg::BalanceAt { address: USERS[0].into(), timestamp: None })?;
        ensure!(
            q.u128() == d1 && q2.u128() == s1 && q3.u128() == s1 && q4.u128() == got[0].1,
            "op {n}: queries answer {q}, {q2}, {q3}, {q4} for {d1}/{s1}/{}",
            got[0].1
        );
        if got == before && d1 == d && s1 == s && own1 == own && !matches!(op, SOp::Gap { .. }) {
            // refused: nothing else changed either
            if !matches!(op, SOp::Move { .. } | SOp::DonateX { .. } | SOp::EnterLeave { .. }) {
                ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed state: {}", c.diff(&st));
            }
        }
    }
    Ok(())
}

fn amt() -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => crate::pools::rel(1),
        3 => gen::amount(0, 28).prop_map(Amt::Abs),
        1 => (995u128..1005).prop_map(Amt::Abs),
    ]
    .boxed()
}
fn part() -> BoxedStrategy<u32> {
    prop_oneof![Just(1_000_000u32), 0u32..=1_000_000, 0u32..100].boxed()
}
// --------------------------------------------------------------------------------------------------- C44

/// What staking answers about the past is what the balances and the supply were then.
fn c44(h: &Vec<SOp>, o: &mut Obs) -> V {
    let k = build_with(codes::tracker_v1())?;
    let c = &k.c;
    let people: Vec<&str> = USERS[..4].iter().copied().chain([k.addr.as_str(), "wasm1stranger"]).collect();
    let snap = || -> (Vec<u128>, u128) { (people.iter().map(|p| c.balance(p, &k.x)).collect(), k.shares()) };
    // state at the end of every second in which something happened
    let mut log: Vec<(u64, Vec<u128>, u128)> = vec![(0, snap().0, 0)];
    let ask = |q: Option<u64>, want: &(Vec<u128>, u128), what: &str| -> V {
        let g: Uint128 = c.query(&k.addr, &QueryMsg::TotalSupplyAt { timestamp: q })?;
        ensure!(g.u128() == want.1, "{what}: supply at {q:?} (now {}) was {}, answered {g}", c.time(), want.1);
        for (i, p) in people.iter().enumerate() {
            let g: Uint128 = c.query(&k.addr, &QueryMsg::BalanceAt { address: p.to_string(), timestamp: q })?;
            ensure!(g.u128() == want.0[i], "{what}: balance of {p} at {q:?} (now {}) was {}, answered {g}", c.time(), want.0[i]);
        }
        Ok(())
    };
    for (n, op) in h.iter().enumerate() {
        let before = snap();
        let d = k.deposit();
        let hold = |u: u8, part: u32| {
            let u = k.holder(u);
            (USERS[u], lp_part(before.0[u], part).max(1))
        };
        let r = match op {
            SOp::Enter { u, amt, to } => c
                .exec(user(*u), &k.addr, &ExecuteMsg::Enter { receiver: to.map(|t| user(t).to_string()) }, &[coin(amt.of(d).min(RICH / 4).max(1), ASTRO)])
                .map(|_| "stake"),
            SOp::EnterLeave { u, amt, to } => c
                .exec(
                    user(*u),
                    &k.addr,
                    &ExecuteMsg::EnterWithHook {
                        contract_address: k.addr.clone(),
                        msg: to_json_binary(&ExecuteMsg::Leave { receiver: Some(user(*to).into()) }).unwrap(),
                    },
                    &[coin(amt.of(d).min(RICH / 4).max(1), ASTRO)],
                )
                .map(|_| "stake with hook"),
            SOp::Leave { u, part, to } => {
                let (u, x) = hold(*u, *part);
                c.exec(u, &k.addr, &ExecuteMsg::Leave { receiver: to.map(|t| user(t).to_string()) }, &[coin(x, &k.x)]).map(|_| "unstake")
            }
            SOp::Donate { u, amt } => c.send(user(*u), &k.addr, ASTRO, amt.of(d).min(RICH / 4).max(1)).map(|_| "donation"),
            SOp::DonateX { u, part } => {
                let (u, x) = hold(*u, part / 4);
                c.send(u, &k.addr, &k.x, x).map(|_| "xASTRO sent to the contract")
            }
            SOp::Move { u, part, to } => {
                let (u, x) = hold(*u, *part);
                c.send(u, user(*to), &k.x, x).map(|_| "transfer")
            }
            SOp::Bad { .. } => continue,
            SOp::Gap { secs } => {
                c.advance(1, *secs as u64);
                Ok("time")
            }
        };
        let (b, s) = snap();
        match r {
            Ok(t) => o.tag(t),
            Err(_) => {
                ensure!(before == (b, s), "op {n} {op:?} was refused but moved xASTRO");
                continue;
            }
        }
        if log.last().unwrap().0 == c.time() {
            log.pop();
        }
        ask(None, &(b.clone(), s), &format!("op {n} {op:?}"))?;
        ask(Some(c.time()), &(b.clone(), s), &format!("op {n} {op:?}"))?;
        log.push((c.time(), b, s));
        if let Some(e) = log.iter().rev().nth(1).filter(|e| e.2 != s && e.2 > 0) {
            let _ = e;
            o.nontrivial = true;
        }
    }
    let now = c.time();
    let mut pts: Vec<u64> = log.iter().flat_map(|e| [e.0.saturating_sub(1), e.0, e.0 + 1]).collect();
    pts.extend([now - 1, now, now + 1, now + 100_000]);
    pts.sort();
    pts.dedup();
    for q in pts {
        let e = if q >= now { log.last() } else { log.iter().rev().find(|e| e.0 < q) };
        let e = e.map(|e| (e.1.clone(), e.2)).unwrap_or((vec![0; people.len()], 0));
        ask(Some(q), &e, "at the end")?;
    }
    Ok(())
}

fn s23(deep: bool) -> BoxedStrategy<Vec<SOp>> {
    let to = || prop::option::weighted(0.3, 0u8..4);
    let op = prop_oneof![
        6 => (0u8..4, amt(), to()).prop_map(|(u, amt, to)| SOp::Enter { u, amt, to }),
        1 => (0u8..4, amt(), 0u8..4).prop_map(|(u, amt, to)| SOp::EnterLeave { u, amt, to }),
        5 => (0u8..4, part(), to()).prop_map(|(u, part, to)| SOp::Leave { u, part, to }),
        2 => (0u8..4, amt()).prop_map(|(u, amt)| SOp::Donate { u, amt }),
        1 => (0u8..4, part()).prop_map(|(u, part)| SOp::DonateX { u, part }),
        1 => (0u8..4, part(), 0u8..4).prop_map(|(u, part, to)| SOp::Move { u, part, to }),
        1 => (0u8..4, any::<bool>(), 0u8..4).prop_map(|(u, leave, what)| SOp::Bad { u, leave, what }),
        1 => gen::gap().prop_map(|secs| SOp::Gap { secs }),
    ];
    prop::collection::vec(op, 1..if deep { 60 } else { 20 }).boxed()
}

fn s44(deep: bool) -> BoxedStrategy<Vec<SOp>> {
    let gap = prop_oneof![3 => 0u32..3, 1 => gen::gap()].prop_map(|secs| SOp::Gap { secs });
    let to = || prop::option::weighted(0.3, 0u8..4);
    let op = prop_oneof![
        3 => (0u8..4, amt(), to()).prop_map(|(u, amt, to)| SOp::Enter { u, amt, to }),
        1 => (0u8..4, amt(), 0u8..4).prop_map(|(u, amt, to)| SOp::EnterLeave { u, amt, to }),
        3 => (0u8..4, part(), to()).prop_map(|(u, part, to)| SOp::Leave { u, part, to }),
        1 => (0u8..4, amt()).prop_map(|(u, amt)| SOp::Donate { u, amt }),
        1 => (0u8..4, part()).prop_map(|(u, part)| SOp::DonateX { u, part }),
        2 => (0u8..4, part(), 0u8..4).prop_map(|(u, part, to)| SOp::Move { u, part, to }),
        5 => gap,
    ];
    prop::collection::vec(op, 2..if deep { 60 } else { 24 }).boxed()
}

// ------------------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum XOp {
    /// swap ASTRO for xASTRO
    Stake { u: u8, amt: Amt, to: Option<u8>, lim: u8 },
    Unstake { u: u8, part: u32, to: Option<u8>, lim: u8 },
    Direct(SOp),
    /// deposits and withdrawals of liquidity, foreign assets, hooks
    Bad { u: u8, what: u8, amt: u128 },
    Reverse { x: bool, amt: Amt },
}

fn c09(h: &(bool, Vec<XOp>), o: &mut Obs) -> V {
    let (flip, ops) = h;
    let k = build()?;
    let c = &k.c;
    let code = {
        use astroport_pair_xastro::contract::*;
        use astroport_pair_xastro::queries::query;
        c.store(Code::new("pair_xastro", instantiate, execute, query))
    };
    let mut infos = vec![native(ASTRO), native(&k.x)];
    if *flip {
        infos.reverse();
    }
    let p = c.init(
        code,
        OWNER,
        &pair::InstantiateMsg {
            pair_type: astroport::factory::PairType::Custom("xastro".into()),
            asset_infos: infos.clone(),
            token_code_id: 1,
            factory_addr: OWNER.into(),
            init_params: Some(to_json_binary(&XastroPairInitParams { staking: k.addr.clone() }).unwrap()),
        },
        &[],
        "pair",
        None,
    )?;
    for (n, op) in ops.iter().enumerate() {
        let (d, s) = (k.deposit(), k.shares());
        match op {
            XOp::Stake { .. } | XOp::Unstake { .. } => {
                let (stake, u, to, lim, a) = match op {
                    XOp::Stake { u, amt, to, lim } => (true, *u as usize % 4, to, lim, amt.of(d).clamp(1, RICH / 4)),
                    XOp::Unstake { u, part, to, lim } => {
                        let u = k.holder(*u);
                        (false, u, to, lim, lp_part(c.balance(USERS[u], &k.x), *part))
                    }
                    _ => unreachable!(),
                };
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                let offer = if stake { ASTRO } else { k.x.as_str() };
                let ask = if stake { k.x.as_str() } else { ASTRO };
                let run = |direct: bool| {
                    let r = if direct {
                        let rec = Some(USERS[t].to_string());
                        let m = if stake { ExecuteMsg::Enter { receiver: rec } } else { ExecuteMsg::Leave { receiver: rec } };
                        c.exec(USERS[u], &k.addr, &m, &[coin(a, offer)])
                    } else {
                        c.exec(
                            USERS[u],
                            &p,
                            &pair::ExecuteMsg::Swap {
                                offer_asset: asset(&native(offer), a),
                                ask_asset_info: None,
                                belief_price: (*lim == 1).then(Decimal::one),
                                max_spread: (*lim > 0).then(|| Decimal::percent(50)),
                                to: to.map(|t| user(t).to_string()),
                            },
                            &[coin(a, offer)],
                        )
                    };
                    r.map(|r| (r, k.bals(), k.deposit(), k.shares()))
                };
                let quote = c.query::<pair::SimulationResponse, _>(
                    &p,
                    &pair::QueryMsg::Simulation { offer_asset: asset(&native(offer), a), ask_asset_info: None },
                );
                let had = c.balance(USERS[t], ask);
                let direct = c.dry(|| run(true));
                let st = c.state();
                let swap = run(false);
                match (direct, swap) {
                    (Ok((_, b, d1, s1)), Ok((r, b2, d2, s2))) => {
                        ensure!(
                            b == b2 && d1 == d2 && s1 == s2,
                            "op {n}: swapping {a} {offer} left {b2:?} {d2}/{s2}, staking directly leaves {b:?} {d1}/{s1}"
                        );
                        let got = c.balance(USERS[t], ask) - if t == u { had } else { had };
                        let q = quote.map_err(|e| Viol::from(format!("op {n}: swap of {a} {offer} succeeds but its simulation fails: {e}")))?;
                        ensure!(
                            q.return_amount.u128() == got && q.spread_amount.is_zero() && q.commission_amount.is_zero(),
                            "op {n}: swap of {a} {offer} (deposit {d}, shares {s}) paid {got}, quoted {q:?}"
                        );
                        let at = r.attr(&p, "return_amount");
                        ensure!(at == Some(got.to_string()), "op {n}: swap of {a} {offer} paid {got}, reported {at:?}");
                        o.tag(if stake { "staked through the pool" } else { "unstaked through the pool" });
                        if stake && s == 0 && d > 0 {
                            o.tag("first stake after a donation");
                        }
                        o.nontrivial = true;
                    }
                    (Err(_), Err(_)) => {
                        ensure!(c.same_state(&st), "op {n}: failed swap changed {}", c.diff(&st));
                        o.tag("refused");
                    }
                    (x, y) => viol!("op {n}: swapping {a} {offer} against {d}/{s}: {:?}, staking directly: {:?}", y.map(|y| y.1), x.map(|x| x.1)),
                }
                for den in [ASTRO, k.x.as_str()] {
                    ensure!(c.balance(&p, den) == 0, "op {n}: the pool kept {} {den}", c.balance(&p, den));
                }
            }
            XOp::Reverse { x, amt } => {
                let ask = if *x { k.x.as_str() } else { ASTRO };
                let a = amt.of(if *x { s } else { d });
                let q = c.query::<pair::ReverseSimulationResponse, _>(
                    &p,
                    &pair::QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: asset(&native(ask), a) },
                );
                // only defined by the statement through execution: the offer buys what was asked, up to rounding
                if let (Ok(q), true) = (q, s > 0 && d > 0 && a < s.min(d)) {
                    let f = q.offer_amount.u128();
                    let (num, den) = if *x { (s, d) } else { (d, s) };
                    let got = mul_div(f, num, den);
                    ensure!(
                        got <= a && got + num / den + 2 >= a,
                        "op {n}: {a} {ask} is reverse-quoted at {f}, which buys {got} (deposit {d}, shares {s})"
                    );
                    o.tag("reverse quote");
                }
            }
            XOp::Direct(s) => match s {
                SOp::Enter { u, amt, .. } => {
                    let _ = c.exec(user(*u), &k.addr, &ExecuteMsg::Enter { receiver: None }, &[coin(amt.of(d).clamp(1, RICH / 4), ASTRO)]);
                }
                SOp::Leave { u, part, .. } => {
                    let u = k.holder(*u);
                    let x = lp_part(c.balance(USERS[u], &k.x), *part);
                    let _ = c.exec(USERS[u], &k.addr, &ExecuteMsg::Leave { receiver: None }, &[coin(x, &k.x)]);
                }
                SOp::Donate { u, amt } => c.send(user(*u), &k.addr, ASTRO, amt.of(d).clamp(1, RICH / 4))?,
                SOp::Gap { secs } => c.advance(1, *secs as u64),
                _ => {}
            },
            XOp::Bad { u, what, amt } => {
                let u = user(*u);
                let a = (*amt).clamp(1, RICH / 8);
                let both = |n: u128| {
                    let mut v = vec![coin(n, ASTRO)];
                    if c.balance(u, &k.x) >= n {
                        v.push(coin(n, &k.x));
                    }
                    v.sort_by(|a, b| a.denom.cmp(&b.denom));
                    v
                };
                let st = c.state();
                let r = match what % 6 {
                    0 => {
                        let f = both(a);
                        c.exec(
                            u,
                            &p,
                            &pair::ExecuteMsg::ProvideLiquidity {
                                assets: infos.iter().map(|i| asset(i, f.iter().find(|c| native(&c.denom) == *i).map(|c| c.amount.u128()).unwrap_or(0))).collect(),
                                slippage_tolerance: Some(Decimal::percent(50)),
                                auto_stake: None,
                                receiver: None,
                                min_lp_to_receive: None,
                            },
                            &f,
                        )
                    }
                    1 => c.exec(
                        u,
                        &p,
                        &pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None },
                        &both(a),
                    ),
                    2 => c.exec(
                        u,
                        &p,
                        &pair::ExecuteMsg::Swap {
                            offer_asset: asset(&native("ujunk"), a),
                            ask_asset_info: None,
                            belief_price: None,
                            max_spread: None,
                            to: None,
                        },
                        &[coin(a, "ujunk")],
                    ),
                    // claims more than it sends
                    3 => c.exec(
                        u,
                        &p,
                        &pair::ExecuteMsg::Swap {
                            offer_asset: asset(&native(ASTRO), a + 1 + a / 2),
                            ask_asset_info: None,
                            belief_price: None,
                            max_spread: None,
                            to: None,
                        },
                        &[coin(a, ASTRO)],
                    ),
                    4 => c.exec(
                        u,
                        &p,
                        &pair::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                            sender: u.into(),
                            amount: Uint128::new(a),
                            msg: to_json_binary(&pair::Cw20HookMsg::Swap {
                                ask_asset_info: None,
                                belief_price: None,
                                max_spread: None,
                                to: None,
                            })
                            .unwrap(),
                        }),
                        &both(a),
                    ),
                    _ => c.exec(u, &p, &pair::ExecuteMsg::UpdateConfig { params: Default::default() }, &[]),
                };
                ensure!(r.is_err(), "op {n} {op:?} succeeded");
                ensure!(c.same_state(&st), "op {n} {op:?} failed but changed {}", c.diff(&st));
                o.tag("malformed");
            }
        }
    }
    Ok(())
}

fn s09(deep: bool) -> BoxedStrategy<(bool, Vec<XOp>)> {
    let to = || prop::option::weighted(0.3, 0u8..4);
    let direct = prop_oneof![
        3 => (0u8..4, amt()).prop_map(|(u, amt)| SOp::Enter { u, amt, to: None }),
        2 => (0u8..4, part()).prop_map(|(u, part)| SOp::Leave { u, part, to: None }),
        3 => (0u8..4, amt()).prop_map(|(u, amt)| SOp::Donate { u, amt }),
        1 => gen::gap().prop_map(|secs| SOp::Gap { secs }),
    ];
    let op = prop_oneof![
        5 => (0u8..4, amt(), to(), 0u8..3).prop_map(|(u, amt, to, lim)| XOp::Stake { u, amt, to, lim }),
        5 => (0u8..4, part(), to(), 0u8..3).prop_map(|(u, part, to, lim)| XOp::Unstake { u, part, to, lim }),
        5 => direct.prop_map(XOp::Direct),
        2 => (0u8..4, 0u8..6, gen::amount(0, 20)).prop_map(|(u, what, amt)| XOp::Bad { u, what, amt }),
        2 => (any::<bool>(), amt()).prop_map(|(x, amt)| XOp::Reverse { x, amt }),
    ];
    (any::<bool>(), prop::collection::vec(op, 1..if deep { 50 } else { 16 })).boxed()
}

// ------------------------------------------------------------------------------------------------ C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Mint { to: u8, amt: u128 },
    Burn { u: u8, part: u32 },
    Move { u: u8, to: u8, part: u32 },
    /// more than the account has: has to fail
    Over { u: u8, to: u8 },
    /// a transfer of the token together with another coin, in one message
    Multi { u: u8, to: u8, part: u32 },
    Gap { blocks: u8, secs: u32 },
    /// the hook invoked for another denom
    Foreign { u: u8, to: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TCase {
    seconds: bool,
    ops: Vec<TOp>,
}

fn pc(a: u128, d: &str) -> Option<ProtoCoin> {
    Some(ProtoCoin { denom: d.into(), amount: a.to_string() })
}

fn c24(h: &TCase, o: &mut Obs) -> V {
    let c = Chain::new();
    let code = c.store(codes::tracker());
    for u in USERS {
        c.faucet(u, "ujunk", RICH);
    }
    let adm = OWNER;
    c.raw(adm, M::Stargate("/osmosis.tokenfactory.v1beta1.MsgCreateDenom".into(), MsgCreateDenom { sender: adm.into(), subdenom: "tok".into() }.encode_to_vec().into()))?;
    let den = format!("factory/{adm}/tok");
    let t = c.init(
        code,
        adm,
        &trk::InstantiateMsg {
            tokenfactory_module_address: TF_MODULE.into(),
            tracked_denom: den.clone(),
            track_over_seconds: h.seconds,
        },
        &[],
        "tracker",
        None,
    )?;
    c.raw(
        adm,
        M::Stargate(
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook".into(),
            MsgSetBeforeSendHook { sender: adm.into(), denom: den.clone(), cosmwasm_address: t.clone() }.encode_to_vec().into(),
        ),
    )?;
    let unit = |c: &Chain| if h.seconds { c.time() } else { c.block().height };
    let first = unit(&c);
    // (unit, balances and recorded supply after an event in it)
    let mut log: Vec<(u64, [u128; 4], u128)> = vec![(first.saturating_sub(1), [0; 4], 0)];
    let bals = |c: &Chain| -> [u128; 4] { [0, 1, 2, 3].map(|i| c.balance(USERS[i], &den)) };
    for (n, op) in h.ops.iter().enumerate() {
        let b0 = bals(&c);
        let rec;
        let part = |i: usize, p: u32| mul_div(b0[i], p as u128, 1_000_000);
        match op {
            TOp::Mint { to, amt } => {
                let to = user(*to);
                let m = MsgMint { sender: adm.into(), amount: pc(*amt, &den), mint_to_address: to.into() };
                c.raw(adm, M::Stargate("/osmosis.tokenfactory.v1beta1.MsgMint".into(), m.encode_to_vec().into()))
                    .map_err(|e| Viol::from(format!("op {n}: mint blocked: {e}")))?;
                rec = c.supply(&den);
                o.tag("mint");
            }
            TOp::Burn { u, part: p } => {
                let i = *u as usize % 4;
                let x = part(i, *p);
                if x == 0 {
                    continue;
                }
                let m = MsgBurn { sender: adm.into(), amount: pc(x, &den), burn_from_address: USERS[i].into() };
                rec = c.supply(&den); // recorded before the burn
                c.raw(adm, M::Stargate("/osmosis.tokenfactory.v1beta1.MsgBurn".into(), m.encode_to_vec().into()))
                    .map_err(|e| Viol::from(format!("op {n}: burn blocked: {e}")))?;
                o.tag("burn");
            }
            TOp::Move { u, to, part: p } => {
                let i = *u as usize % 4;
                let x = part(i, *p);
                if x == 0 {
                    continue;
                }
                c.send(USERS[i], user(*to), &den, x).map_err(|e| Viol::from(format!("op {n}: transfer blocked: {e}")))?;
                rec = c.supply(&den);
                o.tag(if USERS[i] == user(*to) { "transfer to oneself" } else { "transfer" });
            }
            TOp::Over { u, to } => {
                let i = *u as usize % 4;
                let st = c.state();
                let r = c.send(USERS[i], user(*to), &den, b0[i] + 1);
                ensure!(r.is_err() && c.same_state(&st), "op {n}: impossible transfer: {r:?}, changed {}", c.diff(&st));
                continue;
            }
            TOp::Multi { u, to, part: p } => {
                let i = *u as usize % 4;
                let x = part(i, *p);
                if x == 0 {
                    continue;
                }
                c.raw(
                    USERS[i],
                    M::Bank(cosmwasm_std::BankMsg::Send {
                        to_address: user(*to).into(),
                        amount: vec![coin(x, &den), coin(7, "ujunk")],
                    }),
                )
                .map_err(|e| Viol::from(format!("op {n}: transfer blocked: {e}")))?;
                rec = c.supply(&den);
            }
            TOp::Gap { blocks, secs } => {
                c.advance(*blocks as u64, *secs as u64);
                continue;
            }
            TOp::Foreign { u, to } => {
                let st = c.state();
                let r = c.sudo(
                    &t,
                    &trk::SudoMsg::BlockBeforeSend { from: user(*u).into(), to: user(*to).into(), amount: coin(1, "ujunk") },
                );
                ensure!(r.is_err() && c.same_state(&st), "op {n}: a transfer of another coin was tracked");
                let r = c.sudo(
                    &t,
                    &trk::SudoMsg::TrackBeforeSend { from: user(*u).into(), to: user(*to).into(), amount: coin(1, &den) },
                );
                ensure!(r.is_ok() && c.same_state(&st), "op {n}: the unmetered hook is the one that tracks, the other changed {}", c.diff(&st));
                continue;
            }
        }
        if log.iter().filter(|e| e.0 == unit(&c)).count() == 1 {
            o.tag("several changes in one unit");
            o.nontrivial = true;
        }
        log.push((unit(&c), bals(&c), rec));
        // the present
        for i in 0..4 {
            let q: Uint128 = c.query(&t, &trk::QueryMsg::BalanceAt { address: USERS[i].into(), unit: None })?;
            ensure!(q.u128() == c.balance(USERS[i], &den), "op {n} {op:?}: {} has {}, tracked {q}", USERS[i], c.balance(USERS[i], &den));
        }
    }
    let now = unit(&c);
    let mut pts: Vec<u64> = log.iter().flat_map(|e| [e.0.saturating_sub(1), e.0, e.0 + 1]).collect();
    pts.extend([now - 1, now, now + 1, now + 1000, 0]);
    pts.sort();
    pts.dedup();
    for q in pts {
        // at the beginning of unit q: after the last event of an earlier unit; now and the future: the latest
        let e = if q >= now { log.last() } else { log.iter().rev().find(|e| e.0 < q) };
        let (b, s) = e.map(|e| (e.1, e.2)).unwrap_or(([0; 4], 0));
        for i in 0..4 {
            let g: Uint128 = c.query(&t, &trk::QueryMsg::BalanceAt { address: USERS[i].into(), unit: Some(q) })?;
            ensure!(g.u128() == b[i], "balance of {} at {q} (now {now}) is {}, tracked {g}; events {log:?}", USERS[i], b[i]);
        }
        let g: Uint128 = c.query(&t, &trk::QueryMsg::TotalSupplyAt { unit: Some(q) })?;
        ensure!(g.u128() == s, "supply at {q} (now {now}) recorded as {s}, tracked {g}; events {log:?}");
        let g: Uint128 = c.query(&t, &trk::QueryMsg::BalanceAt { address: TF_MODULE.into(), unit: Some(q) })?;
        ensure!(g.is_zero(), "the module is tracked with {g} at {q}");
        o.tag("query points");
    }
    Ok(())
}

fn s24(deep: bool) -> BoxedStrategy<TCase> {
    let op = prop_oneof![
        4 => (0u8..4, gen::amount(0, 20)).prop_map(|(to, amt)| TOp::Mint { to, amt }),
        2 => (0u8..4, part()).prop_map(|(u, part)| TOp::Burn { u, part }),
        6 => (0u8..4, 0u8..4, part()).prop_map(|(u, to, part)| TOp::Move { u, to, part }),
        1 => (0u8..4, 0u8..4).prop_map(|(u, to)| TOp::Over { u, to }),
        1 => (0u8..4, 0u8..4, part()).prop_map(|(u, to, part)| TOp::Multi { u, to, part }),
        5 => (0u8..3, 0u32..3).prop_map(|(blocks, secs)| TOp::Gap { blocks: blocks.max((secs > 0) as u8), secs }),
        1 => (0u8..4, 0u8..4).prop_map(|(u, to)| TOp::Foreign { u, to }),
    ];
    (any::<bool>(), prop::collection::vec(op, 1..if deep { 80 } else { 30 }))
        .prop_map(|(seconds, ops)| TCase { seconds, ops })
        .boxed()
}

pub fn props() -> Vec<Property> {
    const SIM: &str = "the simulated chain executes messages, hooks and bank transfers as CosmWasm and the token-factory module do";
    vec![
        Property {
            id: "C09",
            rule: "A case is a history of swaps through the pool, direct staking, donations and malformed calls; non-trivial when a swap executed and was compared with staking directly in the same state.",
            assumptions: &[SIM],
            parts: vec![Box::new(Gen { name: "histories", quick: 20_000, thorough: 1_000_000, strategy: s09, run: c09 })],
        },
        Property {
            id: "C23",
            rule: "A case is a history of stakes, unstakes, donations, transfers and malformed calls by four accounts; non-trivial when a later stake or an unstake executed and was compared with the exact rate.",
            assumptions: &[SIM],
            parts: vec![Box::new(Gen { name: "histories", quick: 20_000, thorough: 1_000_000, strategy: s23, run: c23 })],
        },
        Property {
            id: "C44",
            rule: "A case is a history of stakes, unstakes, transfers and donations by four accounts over time; non-trivial when the supply changed between two moments that are asked about. Every moment of a change and its neighbours are queried, for all accounts and the supply.",
            assumptions: &[SIM, "the tracker behind staking is the released version 1.0.0 its messages are made for"],
            parts: vec![Box::new(Gen { name: "histories", quick: 10_000, thorough: 400_000, strategy: s44, run: c44 })],
        },
        Property {
            id: "C24",
            rule: "A case is a history of mints, burns, transfers and time steps with tracking by height or second; non-trivial when one unit of time saw several changes. All event times and their neighbours are queried.",
            assumptions: &[SIM, "the hook is installed before the first mint"],
            parts: vec![Box::new(Gen { name: "histories", quick: 20_000, thorough: 1_000_000, strategy: s24, run: c24 }), super::kinds::lp_tracker_part()],
        },
    ]
}
