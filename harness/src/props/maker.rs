//! C26, C27: the fee collector (maker).

use std::collections::BTreeMap;

use astroport::asset::AssetInfo;
use astroport::factory::{self, UpdateAddr};
use astroport::maker::*;
use cosmwasm_std::{Decimal, Uint128, Uint64};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

const STK: &str = SHARE;
const SECOND: &str = TAXED;
const DEV: &str = TAXADM;
const N: usize = 5;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    cw20: [bool; N],
    /// pools by pair of tokens: log10 of the reserve of either side, 0 = none
    pools: [(u8, u8); 10],
    fee_to_maker: bool,
    staking: bool,
    gov: bool,
    pct: u8,
    second: Option<u8>,
    cooldown: Option<u16>,
    spread: Option<u8>,
    bridge: Option<u8>,
    ops: Vec<MOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    /// fees arrive
    Fund { t: u8, amt: u128 },
    Collect { by: u8, what: Vec<(u8, Option<Amt>)> },
    Gap { secs: u32, blocks: u16 },
    Enable { by: u8, blocks: u32 },
    Pct { by: u8, pct: u8 },
    Gov { by: u8, set: bool },
    Staking { by: u8 },
    Second { by: u8, cut: u8 },
    Cooldown { by: u8, s: u16 },
    Spread { by: u8, pct: u8 },
    Dev { by: u8, set: Option<(u8, u8)> },
    Default { by: u8, t: u8 },
    Bridges { by: u8, add: Vec<(u8, u8)>, remove: Vec<u8> },
    SeizeCfg { by: u8, to: Option<u8>, list: Vec<u8> },
    Seize { by: u8, what: Vec<(u8, Option<Amt>)> },
    Internal { by: u8, bridge: Option<u8> },
    Trade { p: u8, dir: bool, amt: Amt },
    Deregister { p: u8 },
}

struct Mk {
    staking: bool,
    gov: bool,
    pct: u128,
    second: Option<u128>,
    cooldown: Option<u64>,
    spread: Decimal,
    default: Option<usize>,
    dev: Option<(Decimal, usize)>,
    bridges: BTreeMap<usize, usize>,
    enabled: bool,
    blocks: u64,
    pre: u128,
    rest: u128,
    last_block: u64,
    last_ts: u64,
    seize_to: Option<&'static str>,
    seizable: Vec<usize>,
}

struct Env {
    w: World,
    maker: String,
    gov: String,
    toks: Vec<AssetInfo>,
    pools: Vec<Option<Pool>>,
    live: Vec<bool>,
}

fn idx(a: usize, b: usize) -> usize {
    let (a, b) = (a.min(b), a.max(b));
    // pairs in order (0,1) (0,2) .. (3,4)
    (0..a).map(|x| N - 1 - x).sum::<usize>() + b - a - 1
}
fn pair_of(k: usize) -> (usize, usize) {
    let mut v = vec![];
    for a in 0..N {
        for b in a + 1..N {
            v.push((a, b));
        }
    }
    v[k]
}

/// why the reference did not go through
#[derive(Debug, Clone)]
enum No {
    /// while swapping
    Swap(String),
    /// while splitting the ASTRO
    Split(String),
    /// shares of more than everything: the outcome is not specified
    Unspecified,
}

struct Ref {
    snap: Snap,
    swaps: Vec<[String; 3]>,
    distributed: Option<u128>,
    released: u128,
    dev: u128,
    pre: (u128, u128, u64),
}

impl Env {
    fn pool(&self, a: usize, b: usize) -> Option<&Pool> {
        if a == b {
            return None;
        }
        let k = idx(a, b);
        if self.live[k] {
            self.pools[k].as_ref()
        } else {
            None
        }
    }
    fn valid_bridge(&self, m: &Mk, from: usize, to: usize, depth: u32) -> bool {
        if self.pool(from, to).is_none() {
            return false;
        }
        if to == 0 || self.pool(to, 0).is_some() {
            return true;
        }
        depth < 2 && m.bridges.get(&to).is_some_and(|n| self.valid_bridge(m, to, *n, depth + 1))
    }
    fn route(&self, m: &Mk, t: usize) -> Result<usize, No> {
        if let Some(b) = m.bridges.get(&t) {
            return if self.valid_bridge(m, t, *b, 0) { Ok(*b) } else { Err(No::Swap("bridge".into())) };
        }
        if let Some(d) = m.default {
            if self.pool(t, d).is_some() {
                return Ok(d);
            }
        }
        self.pool(t, 0).map(|_| 0).ok_or(No::Swap(format!("no way from {t}")))
    }
    fn trade(&self, m: &Mk, from: usize, to: usize, amt: u128) -> Result<Resp, String> {
        let p = self.pool(from, to).ok_or("no pool")?;
        let o = p.infos.iter().position(|i| *i == self.toks[from]).unwrap();
        self.w.swap(p, &self.maker, o, 1 - o, amt, &SwapOpts { max_spread: Some(m.spread), ..Default::default() })
    }
    fn swap_events(&self, r: &Resp) -> Vec<[String; 3]> {
        let astro = info_str(&self.toks[0]);
        let mut v = vec![];
        for e in &r.events {
            let g = |k: &str| e.attributes.iter().find(|a| a.key == k).map(|a| a.value.clone()).unwrap_or_default();
            if g("action") == "swap" && g("sender") == self.maker && g("offer_asset") != astro {
                v.push([g("_contract_address"), g("offer_asset"), g("offer_amount")]);
            }
        }
        v
    }
    /// what a collection has to do, executed step by step by hand and rolled back; `perm` chooses among the orders in
    /// which bridge assets may be swapped
    fn reference(&self, m: &Mk, what: &[(usize, Option<u128>)], perm: &mut usize) -> Result<Ref, No> {
        let w = &self.w;
        w.c.dry(|| {
            let mut swaps = vec![];
            let mut todo: Vec<(usize, u128)> = vec![];
            for (t, lim) in what {
                let b = w.bal(&self.toks[*t], &self.maker);
                let b = match lim {
                    Some(l) if *l > 0 && *l < b => *l,
                    _ => b,
                };
                if *t != 0 && b > 0 {
                    todo.push((*t, b));
                }
            }
            let mut depth = 0;
            while !todo.is_empty() {
                let mut next: Vec<usize> = vec![];
                let steps = todo.iter().map(|(t, a)| self.route(m, *t).map(|to| (*t, to, *a))).collect::<Result<Vec<_>, _>>()?;
                for (t, to, a) in steps {
                    let r = self.trade(m, t, to, a).map_err(No::Swap)?;
                    swaps.extend(self.swap_events(&r));
                    if to != 0 && !next.contains(&to) {
                        next.push(to);
                    }
                }
                if !next.is_empty() && depth >= 5 {
                    return Err(No::Swap("too deep".into()));
                }
                next.sort();
                let mut order = vec![];
                while !next.is_empty() {
                    let k = next.len();
                    order.push(next.remove(*perm % k));
                    *perm /= k;
                }
                let n = order.len();
                todo = order.iter().map(|t| (*t, w.bal(&self.toks[*t], &self.maker))).filter(|x| x.1 > 0).collect();
                if n > 0 && todo.is_empty() {
                    return Err(No::Swap("nothing to swap".into()));
                }
                depth += 1;
            }
            // the split
            let bal = w.bal(&self.toks[0], &self.maker);
            let now = w.c.block().height;
            let mut s = Ref { snap: Snap { who: vec![], bal: vec![] }, swaps, distributed: None, released: 0, dev: 0, pre: (m.pre, m.rest, m.last_block) };
            if bal > 0 && !m.enabled {
                s.pre.0 = bal;
                s.pre.1 = bal;
            } else if bal > 0 {
                let mut amount = bal;
                let mut go = true;
                if m.rest > 0 {
                    let passed = (now - m.last_block) as u128;
                    if passed == 0 {
                        go = false;
                    } else if m.rest > bal {
                        return Err(No::Unspecified);
                    } else {
                        let rel = (passed * (m.pre / m.blocks as u128)).min(m.rest);
                        amount = bal - m.rest + rel;
                        s.pre.1 = m.rest - rel;
                        s.pre.2 = now;
                        s.released = rel;
                    }
                }
                if go {
                    let second = m.second.map(|c| mul_div(amount, c, 100)).unwrap_or(0);
                    let gov = if m.gov { mul_div(amount - second, m.pct, 100) } else { 0 };
                    let dev = m.dev.map(|d| dec_mul(amount, d.0)).unwrap_or(0);
                    if second + gov + dev > amount {
                        return Err(No::Unspecified);
                    }
                    let stk = if m.staking { amount - second - gov - dev } else { 0 };
                    for (to, x) in [(SECOND, second), (&self.gov, gov), (STK, stk)] {
                        if x > 0 {
                            w.transfer(&self.toks[0], &self.maker, to, x).map_err(No::Split)?;
                        }
                    }
                    if dev > 0 {
                        let t = m.dev.unwrap().1;
                        let b = w.bal(&self.toks[t], &self.maker);
                        self.trade(m, 0, t, dev).map_err(No::Split)?;
                        let got = w.bal(&self.toks[t], &self.maker) - b;
                        if got > 0 {
                            w.transfer(&self.toks[t], &self.maker, DEV, got).map_err(No::Split)?;
                        }
                    }
                    s.distributed = Some(amount);
                    s.dev = dev;
                }
            }
            s.snap = snap(w, &self.toks);
            Ok(s)
        })
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Which {
    Split,
    Collect,
}

fn run_split(c: &Case, o: &mut Obs) -> V {
    run(c, o, Which::Split)
}
fn run_collect(c: &Case, o: &mut Obs) -> V {
    run(c, o, Which::Collect)
}

/// accepts everything, as governance's fee distributor does for ASTRO
mod sink {
    use cosmwasm_std::*;
    pub fn any(_: DepsMut, _: Env, _: MessageInfo, _: serde_json::Value) -> StdResult<Response> {
        Ok(Response::new())
    }
    pub fn query(_: Deps, _: Env, _: serde_json::Value) -> StdResult<Binary> {
        Err(StdError::generic_err("no"))
    }
}

fn run(case: &Case, o: &mut Obs, which: Which) -> V {
    let w = World::new(&[], true)?;
    let mut toks = vec![];
    for k in 0..N {
        toks.push(w.tok(&Tok { cw20: case.cw20[k], dec: 6 })?);
    }
    let mut pools = vec![];
    for k in 0..10 {
        let (a, b) = pair_of(k);
        let (x, y) = case.pools[k];
        pools.push(if x == 0 || y == 0 {
            None
        } else {
            let p = w.create::<()>(Kind::Xyk, &[toks[a].clone(), toks[b].clone()], &[6, 6], None)?;
            w.provide(&p, USERS[3], &[10u128.pow(x as u32 + 3), 10u128.pow(y as u32 + 3)], &Default::default())?;
            Some(p)
        });
    }
    let code = c_maker(&w);
    let gcode = w.c.store(Code::new("sink", sink::any, sink::any, sink::query));
    let gov = w.c.init(gcode, OWNER, &serde_json::json!({}), &[], "gov", None)?;
    let ok = (case.staking || (case.gov && case.pct == 100))
        && (case.staking || case.gov)
        && case.pct <= 100
        && case.second.map_or(true, |s| (1..=50).contains(&s))
        && case.spread.map_or(true, |s| (1..=50).contains(&s))
        && case.cooldown.map_or(true, |s| (30..=600).contains(&s));
    let dflt = case.bridge.map(|b| b as usize % N).filter(|b| *b != 0);
    let r = w.c.init(
        code,
        OWNER,
        &InstantiateMsg {
            owner: OWNER.into(),
            default_bridge: dflt.map(|b| toks[b].clone()),
            astro_token: toks[0].clone(),
            factory_contract: w.factory.clone(),
            staking_contract: case.staking.then(|| STK.into()),
            governance_contract: case.gov.then(|| gov.clone()),
            governance_percent: Some(Uint64::new(case.pct as u64)),
            max_spread: case.spread.map(|s| Decimal::percent(s as u64)),
            second_receiver_params: case.second.map(|s| SecondReceiverParams {
                second_fee_receiver: SECOND.into(),
                second_receiver_cut: Uint64::new(s as u64),
            }),
            collect_cooldown: case.cooldown.map(|c| c as u64),
        },
        &[],
        "maker",
        None,
    );
    ensure!(r.is_ok() == ok, "creating the collector: {r:?}, valid parameters: {ok}");
    let Ok(maker) = r else {
        o.tag("parameters refused");
        return Ok(());
    };
    if case.fee_to_maker {
        w.c.exec(
            OWNER,
            &w.factory,
            &factory::ExecuteMsg::UpdateConfig {
                token_code_id: None,
                fee_address: Some(maker.clone()),
                generator_address: None,
                whitelist_code_id: None,
                coin_registry_address: None,
            },
            &[],
        )?;
    }
    let live = pools.iter().map(|p| p.is_some()).collect();
    let mut m = Mk {
        staking: case.staking,
        gov: case.gov,
        pct: case.pct as u128,
        second: case.second.map(|x| x as u128),
        cooldown: case.cooldown.map(|x| x as u64),
        spread: case.spread.map(|s| Decimal::percent(s as u64)).unwrap_or(Decimal::percent(5)),
        default: dflt,
        dev: None,
        bridges: Default::default(),
        enabled: false,
        blocks: 0,
        pre: 0,
        rest: 0,
        last_block: 0,
        last_ts: w.c.time(),
        seize_to: None,
        seizable: vec![],
    };
    let mut e = Env { w, maker, gov, toks, pools, live };
    for (n, op) in case.ops.iter().enumerate() {
        let at = format!("op {n} {op:?}");
        let before = e.w.c.state();
        let s0 = snap(&e.w, &e.toks);
        let who = |b: u8| if b == 0 { OWNER } else { USERS[b as usize % 4] };
        let own = |b: u8| b == 0;
        let info = |t: u8| e.toks[t as usize % N].clone();
        let held = |t: usize| e.w.bal(&e.toks[t], &e.maker);
        let mut upd = None;
        let done = |r: &R<Resp>, ok: bool, o: &mut Obs| -> V {
            if ok != r.is_ok() && which == Which::Collect {
                viol!("{at}: {r:?}, expected {}", if ok { "acceptance" } else { "refusal" });
            }
            if r.is_err() {
                o.tag("refused");
                if which == Which::Collect {
                    ensure!(e.w.c.same_state(&before), "{at}: refused but changed {}", e.w.c.diff(&before));
                }
            } else if which == Which::Collect {
                if let Some(d) = s0.diff(&snap(&e.w, &e.toks)) {
                    viol!("{at}: moved funds: {d}");
                }
            }
            Ok(())
        };
        let base = || UpdCfg::default();
        match op {
            MOp::Fund { t, amt } => {
                let t = *t as usize % N;
                e.w.transfer(&e.toks[t], USERS[2], &e.maker, *amt)?;
            }
            MOp::Gap { secs, blocks } => e.w.c.advance(*blocks as u64, *secs as u64),
            MOp::Trade { p, dir, amt } => {
                if let Some(p) = &e.pools[*p as usize % 10] {
                    let i = *dir as usize;
                    let a = amt.of(e.w.reserves(p)[i]);
                    let _ = e.w.swap(p, USERS[1], i, 1 - i, a, &SwapOpts::loose());
                }
            }
            MOp::Deregister { p } => {
                let k = *p as usize % 10;
                if e.live[k] {
                    let infos = e.pools[k].as_ref().unwrap().infos.clone();
                    e.w.c.exec(OWNER, &e.w.factory, &factory::ExecuteMsg::Deregister { asset_infos: infos }, &[])?;
                    e.live[k] = false;
                }
            }
            MOp::Enable { by, blocks } => {
                let r = e.w.c.exec(who(*by), &e.maker, &ExecuteMsg::EnableRewards { blocks: *blocks as u64 }, &[]);
                let ok = own(*by) && !m.enabled && *blocks > 0;
                if ok != r.is_ok() {
                    viol!("{at}: {r:?}, expected accepted: {ok}");
                }
                if ok {
                    m.enabled = true;
                    m.blocks = *blocks as u64;
                    m.last_block = e.w.c.block().height;
                }
                done(&r, ok, o)?;
            }
            MOp::Pct { by, pct } => {
                let ok = own(*by) && *pct <= 100 && (m.staking || *pct == 100);
                upd = Some((*by, UpdCfg { pct: Some(*pct as u64), ..base() }, ok));
                if ok {
                    m.pct = *pct as u128;
                }
            }
            MOp::Gov { by, set } => {
                let ok = own(*by) && (*set || m.staking);
                upd = Some((*by, UpdCfg { gov: Some(if *set { UpdateAddr::Set(e.gov.clone()) } else { UpdateAddr::Remove {} }), ..base() }, ok));
                if ok {
                    m.gov = *set;
                }
            }
            MOp::Staking { by } => {
                upd = Some((*by, UpdCfg { staking: true, ..base() }, own(*by)));
                m.staking |= own(*by);
            }
            MOp::Second { by, cut } => {
                let ok = own(*by) && (1..=50).contains(cut);
                upd = Some((*by, UpdCfg { second: Some(*cut), ..base() }, ok));
                if ok {
                    m.second = Some(*cut as u128);
                }
            }
            MOp::Cooldown { by, s } => {
                let ok = own(*by) && (30..=600).contains(s);
                upd = Some((*by, UpdCfg { cooldown: Some(*s as u64), ..base() }, ok));
                if ok {
                    m.cooldown = Some(*s as u64);
                }
            }
            MOp::Spread { by, pct } => {
                let ok = own(*by) && (1..=50).contains(pct);
                let d = Decimal::percent(*pct as u64);
                upd = Some((*by, UpdCfg { spread: Some(d), ..base() }, ok));
                if ok {
                    m.spread = d;
                }
            }
            MOp::Default { by, t } => {
                let t = 1 + *t as usize % (N - 1);
                upd = Some((*by, UpdCfg { bridge: Some(e.toks[t].clone()), ..base() }, own(*by)));
                if own(*by) {
                    m.default = Some(t);
                }
            }
            MOp::Dev { by, set } => {
                let d = set.map(|(pct, t)| (Decimal::permille(pct as u64 * 5), 1 + t as usize % (N - 1)));
                let ok = own(*by) && d.map_or(true, |(s, t)| !s.is_zero() && s <= Decimal::one() && e.pool(0, t).is_some());
                let msg = UpdateDevFundConfig {
                    set: d.map(|(share, t)| DevFundConfig { address: DEV.into(), share, asset_info: e.toks[t].clone() }),
                };
                upd = Some((*by, UpdCfg { dev: Some(msg), ..base() }, ok));
                if ok {
                    m.dev = d;
                }
            }
            MOp::Bridges { by, add, remove } => {
                let mut ok = own(*by);
                let old = m.bridges.clone();
                for r in remove {
                    m.bridges.remove(&(*r as usize % N));
                }
                for (a, b) in add {
                    let (a, b) = (*a as usize % N, *b as usize % N);
                    ok &= a != b && e.valid_bridge(&m, a, b, 0);
                    m.bridges.insert(a, b);
                }
                let r = e.w.c.exec(
                    who(*by),
                    &e.maker,
                    &ExecuteMsg::UpdateBridges {
                        add: Some(add.iter().map(|(a, b)| (info(*a), info(*b))).collect()),
                        remove: Some(remove.iter().map(|a| info(*a)).collect()),
                    },
                    &[],
                );
                if r.is_err() {
                    m.bridges = old;
                } else if !ok && which == Which::Split {
                    return Ok(());
                }
                done(&r, ok, o)?;
            }
            MOp::SeizeCfg { by, to, list } => {
                let to = to.map(|t| [FEE, USERS[0]][t as usize % 2]);
                let r = e.w.c.exec(
                    who(*by),
                    &e.maker,
                    &ExecuteMsg::UpdateSeizeConfig { receiver: to.map(String::from), seizable_assets: list.iter().map(|t| info(*t)).collect() },
                    &[],
                );
                done(&r, own(*by), o)?;
                if own(*by) {
                    m.seize_to = to.or(m.seize_to);
                    m.seizable = list.iter().map(|t| *t as usize % N).collect();
                }
            }
            MOp::Seize { by, what } => {
                let mut want = s0.clone();
                let mut ok = !what.is_empty() && !m.seizable.is_empty();
                let mut left: Vec<u128> = (0..N).map(held).collect();
                let full = left.clone();
                let mut msg = vec![];
                for (t, lim) in what {
                    let t = *t as usize % N;
                    let lim = lim.as_ref().map(|l| l.of(full[t]));
                    msg.push(AssetWithLimit { info: e.toks[t].clone(), limit: lim.map(Uint128::new) });
                    ok &= m.seizable.contains(&t);
                    let x = lim.unwrap_or(u128::MAX).min(full[t]);
                    if x > 0 {
                        ok &= m.seize_to.is_some() && x <= left[t];
                        left[t] = left[t].saturating_sub(x);
                        want = want.after(&[(&e.maker, m.seize_to.unwrap_or(FEE), t, x)]);
                    }
                }
                let r = e.w.c.exec(who(*by), &e.maker, &ExecuteMsg::Seize { assets: msg }, &[]);
                if which == Which::Collect {
                    ensure!(r.is_ok() == ok, "{at}: {r:?}, expected accepted: {ok}");
                    if ok {
                        if let Some(d) = want.diff(&snap(&e.w, &e.toks)) {
                            viol!("{at}: {d}");
                        }
                        if want != s0 {
                            o.tag("seized");
                            o.nontrivial = true;
                        }
                    } else {
                        o.tag("seizing refused");
                        ensure!(e.w.c.same_state(&before), "{at}: refused but changed {}", e.w.c.diff(&before));
                    }
                }
            }
            MOp::Internal { by, bridge } => {
                let msg = match bridge {
                    Some(t) => ExecuteMsg::SwapBridgeAssets { assets: vec![info(*t)], depth: 0 },
                    None => ExecuteMsg::DistributeAstro {},
                };
                let r = e.w.c.exec(who(*by), &e.maker, &msg, &[]);
                done(&r, false, o)?;
                if r.is_ok() {
                    return Ok(());
                }
            }
            MOp::Collect { by, what } => {
                let what: Vec<(usize, Option<u128>)> =
                    what.iter().map(|(t, l)| (*t as usize % N, l.as_ref().map(|l| l.of(held(*t as usize % N))))).collect();
                let dup = what.iter().enumerate().any(|(k, x)| what[..k].iter().any(|y| y.0 == x.0));
                let now = e.w.c.time();
                let early = m.cooldown.is_some_and(|c| now < m.last_ts + c);
                let mut k = 0;
                let first = e.reference(&m, &what, &mut { k });
                let r = e.w.c.exec(
                    who(*by),
                    &e.maker,
                    &ExecuteMsg::Collect {
                        assets: what.iter().map(|(t, l)| AssetWithLimit { info: e.toks[*t].clone(), limit: l.map(Uint128::new) }).collect(),
                    },
                    &[],
                );
                if r.is_err() {
                    ensure!(e.w.c.same_state(&before), "{at}: refused but changed {}", e.w.c.diff(&before));
                }
                if dup || early {
                    o.tag(if early { "collection too early" } else { "duplicate assets" });
                    if which == Which::Collect {
                        ensure!(r.is_err(), "{at}: accepted, too early: {early}, duplicates: {dup}");
                    } else if r.is_ok() {
                        return Ok(());
                    }
                    continue;
                }
                if matches!(first, Err(No::Unspecified)) {
                    o.tag("shares exceed everything");
                    return Ok(());
                }
                // the order in which several bridge assets are swapped is not specified
                let after = e.w.c.state();
                let s1 = snap(&e.w, &e.toks);
                let mut last = Some(first);
                let mut matched = None;
                let mut why = String::new();
                e.w.c.restore(&before);
                for _ in 0..24 {
                    let mut left = k;
                    let x = match last.take() {
                        Some(x) => x,
                        None => e.reference(&m, &what, &mut left),
                    };
                    match (&x, &r) {
                        (Ok(x), Ok(r)) => {
                            let sw = e.swap_events(r);
                            let same_swaps = x.swaps == sw;
                            match x.snap.diff(&s1) {
                                None if same_swaps => matched = Some(x.released),
                                d => {
                                    // whose business is it?
                                    let d = d.unwrap_or_default();
                                    let strangers = s1.who.iter().enumerate().find(|(k, a)| {
                                        let known = [SECOND, STK, DEV, e.gov.as_str(), e.maker.as_str(), FEE].contains(&a.as_str())
                                            || e.pools.iter().flatten().any(|p| p.addr == **a);
                                        !known && s1.bal[*k] != s0.bal[*k]
                                    });
                                    let lost = (1..N).find(|t| {
                                        let b = |s: &Snap| s.bal[s.who.iter().position(|x| *x == e.maker).unwrap()][*t];
                                        b(&x.snap) != b(&s1)
                                    });
                                    if let Some((_, a)) = strangers {
                                        why = format!("{at}: {a} is affected by a collection: {d}");
                                    } else if !same_swaps {
                                        if which == Which::Collect {
                                            why = format!("{at}: swaps {sw:?}, expected {:?}", x.swaps);
                                        } else {
                                            why = "-".into();
                                        }
                                    } else if which == Which::Split {
                                        why = format!("{at}: {} ASTRO to distribute ({} released), dev share {}: {d}", x.distributed.unwrap_or(0), x.released, x.dev);
                                    } else if lost.is_some() && m.dev.is_none() {
                                        why = format!("{at}: {d}");
                                    } else {
                                        why = "-".into();
                                    }
                                }
                            }
                        }
                        (Err(_), Err(_)) => matched = Some(0),
                        (Ok(x), Err(err)) => {
                            why = if which == Which::Collect || x.swaps.is_empty() || m.enabled {
                                format!("{at}: refused: {err}; expected swaps {:?}, {:?} distributed", x.swaps, x.distributed)
                            } else {
                                "-".into()
                            }
                        }
                        (Err(no), Ok(_)) => {
                            why = if (which == Which::Split) == matches!(no, No::Split(_)) {
                                format!("{at}: accepted, but {no:?}")
                            } else {
                                "-".into()
                            }
                        }
                    }
                    if matched.is_some() {
                        if let Ok(x) = x {
                            if !x.swaps.is_empty() {
                                o.tag("fees swapped");
                                o.nontrivial |= which == Which::Collect;
                                if x.swaps.iter().any(|s| s[1] != x.swaps[0][1]) {
                                    o.tag("several hops or assets");
                                }
                            }
                            if x.distributed.is_some() {
                                o.tag("distributed");
                                o.nontrivial |= which == Which::Split;
                            }
                            if x.released > 0 {
                                o.tag("stock released");
                            }
                            if x.dev > 0 {
                                o.tag("development fund paid");
                            }
                            (m.pre, m.rest, m.last_block) = x.pre;
                            m.last_ts = now;
                        } else {
                            o.tag("collection impossible");
                        }
                        break;
                    }
                    k += 1;
                }
                e.w.c.restore(&after);
                if matched.is_none() {
                    if why == "-" {
                        return Ok(());
                    }
                    viol!("{why}");
                }
            }
        }
        if let Some((by, u, ok)) = upd {
            let r = e.w.c.exec(who(by), &e.maker, &u.msg(), &[]);
            if r.is_ok() != ok && which == Which::Split {
                return Ok(());
            }
            done(&r, ok, o)?;
        }
        // what the collector says about itself
        let q: ConfigResponse = e.w.c.query(&e.maker, &QueryMsg::Config {})?;
        let split_ok = q.pre_upgrade_astro_amount.u128() == m.pre && q.remainder_reward.u128() == m.rest;
        if which == Which::Split {
            ensure!(split_ok, "{at}: stock reported {} of {}, expected {} of {}", q.remainder_reward, q.pre_upgrade_astro_amount, m.rest, m.pre);
        } else if !split_ok {
            return Ok(());
        }
        if which == Which::Collect {
            let same = q.governance_percent.u64() as u128 == m.pct
                && q.max_spread == m.spread
                && q.governance_contract.map(String::from) == m.gov.then(|| e.gov.clone())
                && q.staking_contract.map(String::from) == m.staking.then(|| STK.to_string())
                && q.second_receiver_cfg.as_ref().map(|s| (s.second_fee_receiver.to_string(), s.second_receiver_cut.u64() as u128))
                    == m.second.map(|s| (SECOND.to_string(), s))
                && q.default_bridge == m.default.map(|t| e.toks[t].clone())
                && q.dev_fund_conf.as_ref().map(|d| (d.share, d.asset_info.clone(), d.address.clone()))
                    == m.dev.map(|(s, t)| (s, e.toks[t].clone(), DEV.to_string()))
                && q.owner == OWNER;
            ensure!(same, "{at}: configuration is not as last set by the owner");
            let b: Vec<(String, String)> = e.w.c.query(&e.maker, &QueryMsg::Bridges {})?;
            let mut want: Vec<(String, String)> = m.bridges.iter().map(|(a, b)| (info_str(&e.toks[*a]), info_str(&e.toks[*b]))).collect();
            want.sort();
            ensure!(b == want, "{at}: bridges {b:?}, expected {want:?}");
            let s: SeizeConfig = e.w.c.query(&e.maker, &QueryMsg::QuerySeizeConfig {})?;
            ensure!(
                s.receiver.as_str() == m.seize_to.unwrap_or("") && s.seizable_assets == m.seizable.iter().map(|t| e.toks[*t].clone()).collect::<Vec<_>>(),
                "{at}: seizing set to {s:?}"
            );
        }
    }
    Ok(())
}

#[derive(Default)]
struct UpdCfg {
    pct: Option<u64>,
    gov: Option<UpdateAddr>,
    staking: bool,
    second: Option<u8>,
    cooldown: Option<u64>,
    spread: Option<Decimal>,
    bridge: Option<AssetInfo>,
    dev: Option<UpdateDevFundConfig>,
}
impl UpdCfg {
    fn msg(self) -> ExecuteMsg {
        ExecuteMsg::UpdateConfig {
            factory_contract: None,
            staking_contract: self.staking.then(|| STK.into()),
            governance_contract: self.gov,
            governance_percent: self.pct.map(Uint64::new),
            basic_asset: self.bridge,
            max_spread: self.spread,
            second_receiver_params: self.second.map(|s| SecondReceiverParams {
                second_fee_receiver: SECOND.into(),
                second_receiver_cut: Uint64::new(s as u64),
            }),
            collect_cooldown: self.cooldown,
            astro_token: None,
            dev_fund_config: self.dev.map(Box::new),
        }
    }
}

fn c_maker(w: &World) -> u64 {
    w.c.store(codes::maker())
}

fn strategy(deep: bool) -> BoxedStrategy<Case> {
    let by = || prop_oneof![9 => Just(0u8), 1 => 1u8..4];
    let anyu = || 0u8..4;
    let amt = || prop_oneof![3 => gen::mag(0, 6), 4 => gen::mag(3, 10)];
    let what = || {
        prop_oneof![
            12 => (prop::sample::subsequence(vec![0u8, 1, 2, 3, 4], 0..=5).prop_shuffle(), prop::collection::vec(prop::option::weighted(0.3, rel(1)), 5))
                .prop_map(|(t, l)| t.into_iter().zip(l).collect::<Vec<_>>()),
            1 => prop::collection::vec((0u8..5, prop::option::weighted(0.35, rel(1))), 0..5),
        ]
    };
    let pct = || prop_oneof![3 => 0u8..=100, 1 => Just(100u8), 1 => Just(0u8), 1 => 99u8..103];
    let op = prop_oneof![
        8 => (0u8..5, amt()).prop_map(|(t, amt)| MOp::Fund { t, amt }),
        10 => (anyu(), what()).prop_map(|(by, what)| MOp::Collect { by, what }),
        6 => (gen::gap(), prop_oneof![1 => Just(0u16), 3 => 1u16..20, 1 => 1u16..1000]).prop_map(|(secs, blocks)| MOp::Gap { secs, blocks }),
        2 => (by(), prop_oneof![1 => Just(0u32), 1 => Just(1), 3 => 1u32..50, 3 => 1u32..2000]).prop_map(|(by, blocks)| MOp::Enable { by, blocks }),
        1 => (by(), pct()).prop_map(|(by, pct)| MOp::Pct { by, pct }),
        1 => (by(), any::<bool>()).prop_map(|(by, set)| MOp::Gov { by, set }),
        1 => by().prop_map(|by| MOp::Staking { by }),
        1 => (by(), prop_oneof![4 => 1u8..=50, 1 => Just(0u8), 1 => 51u8..101]).prop_map(|(by, cut)| MOp::Second { by, cut }),
        1 => (by(), prop_oneof![3 => Just(30u16), 2 => 30u16..=600, 1 => 0u16..30, 1 => 601u16..1000]).prop_map(|(by, s)| MOp::Cooldown { by, s }),
        1 => (by(), prop_oneof![6 => 1u8..=50, 1 => Just(0u8), 1 => 51u8..100]).prop_map(|(by, pct)| MOp::Spread { by, pct }),
        2 => (by(), prop::option::weighted(0.8, (prop_oneof![6 => 1u8..60, 1 => Just(200u8), 1 => Just(0u8), 1 => 200u8..=255], 0u8..4))).prop_map(|(by, set)| MOp::Dev { by, set }),
        1 => (by(), 0u8..4).prop_map(|(by, t)| MOp::Default { by, t }),
        3 => (by(), prop::collection::vec((prop_oneof![9 => 1u8..5, 1 => Just(0u8)], 0u8..5), 0..4), prop::collection::vec(0u8..5, 0..3))
            .prop_map(|(by, add, remove)| MOp::Bridges { by, add, remove }),
        1 => (by(), prop::option::weighted(0.7, anyu()), prop::collection::vec(prop_oneof![6 => 1u8..5, 1 => Just(0u8)], 0..4)).prop_map(|(by, to, list)| MOp::SeizeCfg { by, to, list }),
        2 => (anyu(), prop::collection::vec((prop_oneof![6 => 1u8..5, 1 => Just(0u8)], prop::option::of(rel(1))), 0..3)).prop_map(|(by, what)| MOp::Seize { by, what }),
        1 => (anyu(), prop::option::of(0u8..5)).prop_map(|(by, bridge)| MOp::Internal { by, bridge }),
        1 => (0u8..10, any::<bool>(), rel(0)).prop_map(|(p, dir, amt)| MOp::Trade { p, dir, amt }),
        1 => (0u8..10).prop_map(|p| MOp::Deregister { p }),
    ];
    let pool = prop_oneof![3 => Just((0u8, 0u8)), 12 => (6u8..12, 6u8..12), 1 => (2u8..6, 2u8..6)];
    // what a collector in operation has been through
    let pre = (
        prop::collection::vec((0u8..5, amt()), 0..6),
        prop::option::weighted(0.3, 1u32..100),
        prop::option::weighted(0.6, prop_oneof![3 => Just(1u32), 3 => 1u32..200]),
        prop::option::weighted(0.4, prop::sample::subsequence(vec![1u8, 2, 3, 4], 1..=4)),
        prop::option::weighted(0.3, (1u8..60, 0u8..4)),
    )
        .prop_map(|(funds, first, enable, seize, dev)| {
            let mut v: Vec<MOp> = vec![];
            if first.is_some() {
                v.push(MOp::Fund { t: 0, amt: 12_345_678 });
                v.push(MOp::Gap { secs: 600, blocks: 1 });
                v.push(MOp::Collect { by: 1, what: vec![] });
            }
            v.extend(enable.map(|blocks| MOp::Enable { by: 0, blocks }));
            v.extend(funds.into_iter().map(|(t, amt)| MOp::Fund { t, amt }));
            v.extend(seize.map(|list| MOp::SeizeCfg { by: 0, to: Some(0), list }));
            v.extend(dev.map(|d| MOp::Dev { by: 0, set: Some(d) }));
            v.push(MOp::Gap { secs: 600, blocks: 1 });
            v
        });
    (
        (
            prop::array::uniform5(prop::bool::weighted(0.25)),
            prop::array::uniform10(pool),
            any::<bool>(),
            prop::bool::weighted(0.8),
            prop::bool::weighted(0.7),
            prop_oneof![3 => 0u8..80, 2 => Just(100u8), 1 => pct()],
            prop::option::of(prop_oneof![19 => 1u8..=50, 1 => 0u8..100]),
            prop::option::weighted(0.2, prop_oneof![9 => 30u16..=600, 1 => 0u16..1000]),
        ),
        prop::option::weighted(0.6, prop_oneof![2 => 1u8..=50, 3 => Just(50u8), 1 => 0u8..100]),
        prop::option::weighted(0.4, 0u8..5),
        (pre, prop::collection::vec(op, 1..if deep { 60 } else { 25 })),
    )
        .prop_map(|((cw20, pools, fee_to_maker, staking, gov, mut pct, second, cooldown), spread, bridge, (mut pre, ops))| {
            pre.extend(ops);
            let ops = pre;
            if !staking && pct % 4 != 0 {
                pct = 100;
            }
            Case { cw20, pools, fee_to_maker, staking, gov, pct, second, cooldown, spread, bridge, ops }
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C26",
            rule: "a collection distributed ASTRO",
            assumptions: &[
                "configured shares add up to at most everything (otherwise the case ends)",
                "swaps of fee tokens follow the configured routes (C27); fee pools are constant-product pools",
                "the ASTRO token is not changed after deployment",
            ],
            parts: vec![Box::new(Gen { name: "distribution", quick: 12_000, thorough: 300_000, strategy, run: run_split })],
        },
        Property {
            id: "C27",
            rule: "a collection swapped fee tokens or assets were seized",
            assumptions: &[
                "fee pools are constant-product pools; ASTRO is not its own default bridge",
                "bridge tokens reached on the way are swapped in full, several of them in any order",
            ],
            parts: vec![Box::new(Gen { name: "collection", quick: 12_000, thorough: 300_000, strategy, run: run_collect })],
        },
    ]
}
