//! C18: multi-hop swaps.

use astroport::asset::AssetInfo;
use astroport::router::{
    Cw20HookMsg, ExecuteMsg, InstantiateMsg, QueryMsg, SimulateSwapOperationsResponse, SwapOperation, SwapResponseData,
};
use cosmwasm_std::{
    from_json, to_json_binary, Binary, Coin, CosmosMsg, Decimal, DepsMut, Env, MessageInfo, Response, Uint128, WasmMsg,
};
use cw20_base::ContractError as CwErr;
use cw20_base::msg::ExecuteMsg as CwExec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

/// a token whose transfers can carry a call of somebody else's choice, and which may send less than asked
fn evil_exec(mut d: DepsMut, e: Env, i: MessageInfo, m: CwExec) -> Result<Response, CwErr> {
    let hook = d.storage.get(b"evil");
    let m = match m {
        CwExec::Send { contract, amount, msg } if d.storage.get(b"shave").is_some() => {
            CwExec::Send { contract, amount: amount.multiply_ratio(1u128, 2u128), msg }
        }
        m => m,
    };
    let fire = matches!(m, CwExec::Transfer { .. });
    let r = cw20_base::contract::execute(d.branch(), e, i, m)?;
    match hook {
        Some(h) if fire => {
            d.storage.remove(b"evil");
            let m: WasmMsg = from_json(h)?;
            Ok(r.add_message(CosmosMsg::Wasm(m)))
        }
        _ => Ok(r),
    }
}
fn evil() -> Code {
    Code::new("evil", cw20_base::contract::instantiate, evil_exec, cw20_base::contract::query)
}

struct Net {
    w: World,
    r: String,
    toks: Vec<AssetInfo>,
    pools: Vec<Pool>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetP {
    cw: Vec<bool>,
    setups: Vec<Setup>,
    depth: Vec<(u128, u128)>,
}

/// (from, to) of the pools between tokens 0..5
const EDGES: [(usize, usize); 6] = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (3, 4)];

fn net(n: &NetP) -> R<Net> {
    let w = World::new(&[], true)?;
    let rc = w.c.store(codes::router());
    let r = w.c.init(rc, OWNER, &InstantiateMsg { astroport_factory: w.factory.clone() }, &[], "router", None)?;
    let mut toks = vec![];
    let dec = [6u8, 6, 8, 6, 5];
    for (i, d) in dec.iter().enumerate() {
        toks.push(w.tok(&Tok { cw20: n.cw[i], dec: *d })?);
    }
    let mut pools = vec![];
    for (k, (a, b)) in EDGES.iter().enumerate() {
        let mut s = n.setups[k].clone();
        s.toks = vec![Tok { cw20: n.cw[*a], dec: dec[*a] }, Tok { cw20: n.cw[*b], dec: dec[*b] }];
        if s.kind == Kind::Transmuter && s.toks.iter().any(|t| t.cw20) {
            s.kind = Kind::Xyk;
        }
        s.share = s.share.filter(|_| matches!(s.kind, Kind::Xyk | Kind::Stable | Kind::Pcl));
        let p = s.add_with(&w, vec![toks[*a].clone(), toks[*b].clone()])?;
        let (x, y) = n.depth[k];
        let v = first_amounts(&s, &p, &[x, if matches!(s.kind, Kind::Pcl | Kind::Stable) { x } else { y }]);
        w.provide(&p, USERS[0], &v, &ProvideOpts::default())?;
        pools.push(p);
    }
    Ok(Net { w, r, toks, pools })
}

impl Net {
    fn pool(&self, a: &AssetInfo, b: &AssetInfo) -> Option<&Pool> {
        self.pools.iter().find(|p| p.infos.contains(a) && p.infos.contains(b))
    }
    /// what the hops pay when somebody makes them one by one: the outcome on the spot, to be undone by the caller
    fn by_hand(&self, hops: &[(AssetInfo, AssetInfo)], to: &str, spread: Option<Decimal>) -> R<()> {
        let n = hops.len();
        for (k, (a, b)) in hops.iter().enumerate() {
            let p = self.pool(a, b).ok_or("no pool")?;
            let i = p.infos.iter().position(|x| x == a).unwrap();
            let j = p.infos.iter().position(|x| x == b).unwrap();
            self.w.swap(
                p,
                &self.r,
                i,
                j,
                self.w.bal(a, &self.r),
                &SwapOpts {
                    belief: (n > 1).then_some(Decimal::MAX),
                    max_spread: spread,
                    to: (k == n - 1).then(|| to.to_string()),
                },
            )?;
        }
        Ok(())
    }
    fn start(&self, who: &str, first: &AssetInfo, amount: u128, ops: Vec<SwapOperation>, min: Option<u128>, to: Option<String>, spread: Option<Decimal>) -> R<Resp> {
        let minimum_receive = min.map(Uint128::new);
        match first {
            AssetInfo::NativeToken { denom } => self.w.c.exec(
                who,
                &self.r,
                &ExecuteMsg::ExecuteSwapOperations { operations: ops, minimum_receive, to, max_spread: spread },
                &if amount > 0 { vec![Coin::new(amount, denom.clone())] } else { vec![] },
            ),
            AssetInfo::Token { contract_addr } => self.w.c.cw20_send(
                who,
                contract_addr.as_str(),
                &self.r,
                amount,
                &Cw20HookMsg::ExecuteSwapOperations { operations: ops, minimum_receive, to, max_spread: spread },
            ),
        }
    }
}
fn op(a: &AssetInfo, b: &AssetInfo) -> SwapOperation {
    SwapOperation::AstroSwap { offer_asset_info: a.clone(), ask_asset_info: b.clone() }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bend {
    No,
    /// an asset of the route replaced
    Broken(u8, u8),
    /// a hop leaving from what it asks for
    Self_(u8),
    Native(u8),
    /// the route begins with something else than what was sent
    Other(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ROp {
    Route {
        u: u8,
        start: u8,
        steps: Vec<u8>,
        amt: Amt,
        /// relative to what would arrive: None no minimum
        min: Option<i8>,
        to: Option<u8>,
        spread: Option<u8>,
        bend: Bend,
    },
    Donate { i: u8, amt: Amt },
    Pool { p: u8, op: Op },
    Outsider { u: u8, a: u8, b: u8, single: bool },
}

fn run(case: &(NetP, Vec<ROp>), o: &mut Obs) -> V {
    let Ok(n) = net(&case.0) else {
        o.tag("unseeded");
        return Ok(());
    };
    let (w, c) = (&n.w, &n.w.c);
    for (k, op_) in case.1.iter().enumerate() {
        let st = c.state();
        match op_ {
            ROp::Donate { i, amt } => {
                let t = &n.toks[*i as usize % 5];
                w.transfer(t, USERS[3], &n.r, amt.of(1_000_000)).ok();
                o.tag("donation");
            }
            ROp::Pool { p, op } => {
                apply(w, &n.pools[*p as usize % n.pools.len()], op).ok();
            }
            ROp::Outsider { u, a, b, single } => {
                let who = if *u == 0 { OWNER } else { user(*u) };
                let r = c.exec(
                    who,
                    &n.r,
                    &ExecuteMsg::ExecuteSwapOperation {
                        operation: op(&n.toks[*a as usize % 5], &n.toks[*b as usize % 5]),
                        to: Some(who.into()),
                        max_spread: None,
                        single: *single,
                    },
                    &[],
                );
                ensure!(r.is_err() && c.same_state(&st), "op {k} {op_:?}: the internal step was accepted from {who}");
                o.tag("outsider refused");
            }
            ROp::Route { u, start, steps, amt, min, to, spread, bend } => {
                // a walk over existing pools
                let mut at = *start as usize % 5;
                let mut hops = vec![];
                for s in steps {
                    let next: Vec<usize> = EDGES
                        .iter()
                        .filter_map(|(a, b)| if *a == at { Some(*b) } else if *b == at { Some(*a) } else { None })
                        .collect();
                    let to = next[*s as usize % next.len()];
                    hops.push((n.toks[at].clone(), n.toks[to].clone()));
                    at = to;
                }
                let len = hops.len();
                let mut ops: Vec<SwapOperation> = hops.iter().map(|(a, b)| op(a, b)).collect();
                let mut first = hops.first().map(|h| h.0.clone()).unwrap_or(n.toks[0].clone());
                let (mut valid, mut routed) = (len > 0 && len <= 50, true);
                if len > 0 {
                    match bend {
                        Bend::Broken(i, t) => {
                            let i = *i as usize % len;
                            let t = &n.toks[*t as usize % 5];
                            valid &= (i + 1 >= len || hops[i + 1].0 == *t) && hops[i].0 != *t;
                            hops[i].1 = t.clone();
                            ops[i] = op(&hops[i].0, t);
                            routed = n.pool(&hops[i].0, t).is_some();
                        }
                        Bend::Self_(i) => {
                            let i = *i as usize % len;
                            let x = hops[i].0.clone();
                            hops.insert(i, (x.clone(), x.clone()));
                            ops.insert(i, op(&x, &x));
                            valid = false;
                        }
                        Bend::Native(i) => {
                            ops[*i as usize % len] = SwapOperation::NativeSwap { offer_denom: "uaa".into(), ask_denom: "ubb".into() };
                            valid = false;
                        }
                        Bend::Other(t) => first = n.toks[*t as usize % 5].clone(),
                        Bend::No => {}
                    }
                }
                let who = user(*u);
                let recv = match to {
                    Some(4) => FEE.to_string(),
                    Some(x) => user(*x).to_string(),
                    None => who.to_string(),
                };
                let spread = spread.map(|s| Decimal::percent(s as u64));
                let p0 = n.pools.iter().find(|p| p.infos.contains(&first)).unwrap();
                let x = amt.of(w.bal(&first, &p0.addr));
                let last = hops.last().map(|h| h.1.clone()).unwrap_or(first.clone());
                // by hand
                let hand = c.dry(|| -> R<(Snap, u128)> {
                    if x > 0 || !first.is_native_token() {
                        w.transfer(&first, who, &n.r, x)?;
                    }
                    let b = w.bal(&last, &recv);
                    n.by_hand(&hops, &recv, spread)?;
                    let got = w.bal(&last, &recv).checked_sub(b).ok_or("less than before")?;
                    Ok((snap(w, &n.toks), got))
                });
                ensure!(c.same_state(&st), "harness: dry run left traces");
                let min = min.map(|m| {
                    let b = hand.as_ref().map(|h| h.1).unwrap_or(1);
                    (b as i128 + m as i128).max(0) as u128
                });
                let want = valid && routed && hand.as_ref().map(|h| h.1 >= min.unwrap_or(0)).unwrap_or(false);
                // quotes
                if len > 0 {
                    let q: R<SimulateSwapOperationsResponse> =
                        c.query(&n.r, &QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(x), operations: ops.clone() });
                    let mut comp: R<u128> = Ok(x);
                    for (a, b) in &hops {
                        comp = comp.and_then(|v| {
                            let p = n.pool(a, b).ok_or("no pool")?;
                            let (i, j) = (p.infos.iter().position(|t| t == a).unwrap(), p.infos.iter().position(|t| t == b).unwrap());
                            Ok(w.sim(p, i, j, v)?.return_amount.u128())
                        });
                    }
                    let want = valid && comp.is_ok();
                    ensure!(
                        q.is_ok() == want && (!want || q.as_ref().unwrap().amount.u128() == *comp.as_ref().unwrap()),
                        "op {k} {op_:?}: quoted {q:?}, the hops' quotes compose to {comp:?} (valid {valid})"
                    );
                    let q: R<Uint128> =
                        c.query(&n.r, &QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(x), operations: ops.clone() });
                    let mut comp: R<u128> = Ok(x);
                    for (a, b) in hops.iter().rev() {
                        comp = comp.and_then(|v| {
                            let p = n.pool(a, b).ok_or("no pool")?;
                            let (i, j) = (p.infos.iter().position(|t| t == a).unwrap(), p.infos.iter().position(|t| t == b).unwrap());
                            Ok(w.rev_sim(p, i, j, v)?.offer_amount.u128())
                        });
                    }
                    let want = valid && comp.is_ok();
                    ensure!(
                        q.is_ok() == want && (!want || q.as_ref().unwrap().u128() == *comp.as_ref().unwrap()),
                        "op {k} {op_:?}: reverse quote {q:?}, the hops' reverse quotes compose to {comp:?} (valid {valid})"
                    );
                    if want {
                        o.tag("reverse quote");
                    }
                }
                let r = n.start(who, &first, x, ops, min, (recv != who).then(|| recv.clone()), spread);
                ensure!(
                    r.is_ok() == want,
                    "op {k} {op_:?}: route {hops:?} with {x} by {who} for at least {min:?}: {:?}; hop by hop it pays {:?} (well formed {valid})",
                    r.as_ref().err(),
                    hand.as_ref().map(|h| h.1)
                );
                match (r, hand) {
                    (Ok(r), Ok((s, got))) => {
                        if let Some(d) = s.diff(&snap(w, &n.toks)) {
                            viol!("op {k} {op_:?}: route {hops:?} with {x}: {d} (hop by hop)");
                        }
                        if first.is_native_token() {
                            let d: SwapResponseData = from_json(r.data.clone().ok_or("no data")?).map_err(|e| e.to_string())?;
                            ensure!(d.return_amount.u128() == got, "op {k} {op_:?}: reported {d:?}, delivered {got}");
                        }
                        for (a, _) in &hops {
                            if *a != last {
                                ensure!(w.bal(a, &n.r) == 0, "op {k} {op_:?}: the router keeps {} of {a}", w.bal(a, &n.r));
                            }
                        }
                        o.tag(format!("{} hop route", if len > 3 { "4 or more".into() } else { len.to_string() }));
                        if len > 1 && got > 0 {
                            o.nontrivial = true;
                        }
                    }
                    (Err(_), h) => {
                        ensure!(c.same_state(&st), "op {k} {op_:?} was refused but changed: {}", c.diff(&st));
                        o.tag(match (valid, h.is_ok()) {
                            (false, _) => "refused: malformed",
                            (_, false) => "refused: a hop fails",
                            _ => "refused: below the minimum",
                        });
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    Ok(())
}

fn netp() -> BoxedStrategy<NetP> {
    let kinds = [Kind::Xyk, Kind::Stable, Kind::Pcl, Kind::Tax, Kind::Transmuter, Kind::Xyk];
    let setups: Vec<BoxedStrategy<Setup>> = kinds
        .iter()
        .map(|k| {
            usual(*k)
                .prop_map(|mut s| {
                    s.total = s.total.min(500);
                    s.tax.iter_mut().flatten().for_each(|t| *t = (*t).min(1000));
                    s.tax.resize(2, None);
                    s
                })
                .boxed()
        })
        .collect();
    (
        prop::collection::vec(prop::bool::weighted(0.35), 5),
        setups,
        prop::collection::vec((gen::mag(9, 16), gen::mag(9, 16)), 6),
    )
        .prop_map(|(cw, setups, depth)| NetP { cw, setups, depth })
        .boxed()
}
fn s18(deep: bool) -> BoxedStrategy<(NetP, Vec<ROp>)> {
    let bend = prop_oneof![
        10 => Just(Bend::No),
        1 => (any::<u8>(), 0u8..5).prop_map(|(a, b)| Bend::Broken(a, b)),
        1 => any::<u8>().prop_map(Bend::Self_),
        1 => any::<u8>().prop_map(Bend::Native),
        1 => (0u8..5).prop_map(Bend::Other),
    ];
    let route = (
        (0u8..4, 0u8..5, prop_oneof![12 => prop::collection::vec(0u8..4, 1..5), 3 => prop::collection::vec(0u8..4, 0..12), 1 => prop::collection::vec(0u8..4, 48..53)]),
        prop_oneof![6 => (1u64..200_000).prop_map(Amt::Rel), 2 => gen::amount(0, 12).prop_map(Amt::Abs), 1 => Just(Amt::Abs(0))],
        prop::option::weighted(0.7, prop_oneof![Just(0i8), Just(1), Just(-1), any::<i8>()]),
        prop::option::weighted(0.4, 0u8..5),
        prop::option::weighted(0.5, 0u8..52),
        bend,
    )
        .prop_map(|((u, start, steps), amt, min, to, spread, bend)| ROp::Route { u, start, steps, amt, min, to, spread, bend });
    let o = prop_oneof![
        8 => route,
        1 => (0u8..5, gen::amount(0, 9).prop_map(Amt::Abs)).prop_map(|(i, amt)| ROp::Donate { i, amt }),
        2 => (0u8..6, crate::pools::op(OpMix::default())).prop_map(|(p, op)| ROp::Pool { p, op }),
        1 => (0u8..4, 0u8..5, 0u8..5, any::<bool>()).prop_map(|(u, a, b, single)| ROp::Outsider { u, a, b, single }),
    ];
    (netp(), prop::collection::vec(o, 1..if deep { 16 } else { 8 })).boxed()
}

// ------------------------------------------------------------------------------------------ hostile tokens

/// a route through a token that calls the router again while it is being traded, and then delivers less
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    cw: (bool, bool),
    amount: u128,
    /// the inner swap: amount, its minimum, for whom
    inner: u128,
    inner_min: Option<u128>,
    back: bool,
    inner_to: u8,
    shave: bool,
    /// millionths of what the route pays when the token behaves
    min: u32,
}
fn hostile(h: &Hostile, o: &mut Obs) -> V {
    let w = World::new(&[], false)?;
    let c = &w.c;
    let rc = c.store(codes::router());
    let r = c.init(rc, OWNER, &InstantiateMsg { astroport_factory: w.factory.clone() }, &[], "router", None)?;
    let a = w.tok(&Tok { cw20: h.cw.0, dec: 6 })?;
    let b = w.tok(&Tok { cw20: h.cw.1, dec: 6 })?;
    let x = w.tok(&Tok { cw20: false, dec: 6 })?;
    let ev = c.store(evil());
    let e = c.init(
        ev,
        OWNER,
        &cw20_base::msg::InstantiateMsg {
            name: "evil".into(),
            symbol: "EVIL".into(),
            decimals: 6,
            initial_balances: vec![cw20::Cw20Coin { address: USERS[0].into(), amount: Uint128::new(RICH) }],
            mint: None,
            marketing: None,
        },
        &[],
        "evil",
        None,
    )?;
    let e = token(&e);
    let mut pools = vec![];
    for (p, q) in [(&a, &e), (&e, &b), (&x, &b)] {
        let p = w.create::<()>(Kind::Xyk, &[p.clone(), q.clone()], &[6, 6], None)?;
        w.provide(&p, USERS[0], &[1_000_000_000, 2_000_000_000], &ProvideOpts::default())?;
        pools.push(p);
    }
    let n = Net { w, r, toks: vec![a.clone(), e.clone(), b.clone(), x.clone()], pools };
    let (w, c) = (&n.w, &n.w.c);
    let route = || vec![op(&a, &e), op(&e, &b)];
    // what it pays when nobody interferes
    let fair = c.dry(|| {
        let z = w.bal(&b, USERS[1]);
        n.start(USERS[1], &a, h.amount, route(), None, None, None).map(|_| w.bal(&b, USERS[1]) - z)
    })?;
    let min = mul_div(fair, h.min as u128, 1_000_000);
    let ev = info_str(&e);
    c.faucet(&ev, &info_str(&x), RICH);
    let inner_to = [USERS[1], USERS[2], FEE][h.inner_to as usize % 3];
    let inner: Vec<SwapOperation> = if h.back { vec![op(&x, &b), op(&b, &x)] } else { vec![op(&x, &b)] };
    let m = WasmMsg::Execute {
        contract_addr: n.r.clone(),
        msg: to_json_binary(&ExecuteMsg::ExecuteSwapOperations {
            operations: inner,
            minimum_receive: h.inner_min.map(Uint128::new),
            to: Some(inner_to.into()),
            max_spread: Some(Decimal::percent(50)),
        })
        .unwrap(),
        funds: vec![Coin::new(h.inner, info_str(&x))],
    };
    c.with_storage(&ev, |s| {
        s.set(b"evil", &to_json_binary(&m).unwrap().0);
        if h.shave {
            s.set(b"shave", b"1");
        }
    });
    let before = w.bal(&b, USERS[1]);
    let st = c.state();
    match n.start(USERS[1], &a, h.amount, route(), Some(min), None, None) {
        Ok(_) => {
            let got = w.bal(&b, USERS[1]) - before;
            ensure!(got >= min, "delivered {got}, the minimum was {min} (a hostile token called the router in between)");
            o.tag("delivered");
        }
        Err(_) => {
            ensure!(c.same_state(&st), "refused but changed: {}", c.diff(&st));
            o.tag("refused");
        }
    }
    o.nontrivial = true;
    Ok(())
}
fn s18h(_: bool) -> BoxedStrategy<Hostile> {
    (
        (any::<bool>(), any::<bool>()),
        gen::mag(3, 8),
        gen::mag(3, 8),
        prop::option::of(gen::mag(0, 8)),
        any::<bool>(),
        0u8..3,
        any::<bool>(),
        prop_oneof![0u32..1_000_000, Just(1_000_000u32), 400_000u32..1_000_001],
    )
        .prop_map(|(cw, amount, inner, inner_min, back, inner_to, shave, min)| Hostile {
            cw,
            amount,
            inner,
            inner_min,
            back,
            inner_to,
            shave,
            min,
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    let _ = Binary::default();
    vec![Property {
        id: "C18",
        rule: "a route of two or more hops delivered something (or a hostile token re-entered the router)",
        assumptions: &["nobody asks the router to deliver to itself"],
        parts: vec![
            Box::new(Gen { name: "routes", quick: 6000, thorough: 120_000, strategy: s18, run }),
            Box::new(Gen { name: "hostile token", quick: 1500, thorough: 20_000, strategy: s18h, run: hostile }),
        ],
    }]
}
