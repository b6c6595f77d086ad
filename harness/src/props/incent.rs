//! C19, C20, C21: the incentives contract (staked LP, reward accrual, eligibility of emissions and schedules).

use std::collections::{BTreeMap, BTreeSet};

use astroport::asset::{Asset, AssetInfo};
use astroport::factory as fac;
use astroport::incentives::*;
use astroport::pair::StablePoolParams;
use astroport::vesting;
use cosmwasm_std::{coin, Coin, Decimal256, Uint128, Uint512};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::lp_part;
use crate::world::*;
use crate::{ensure, viol};

const WEEK: u64 = 7 * 86400;
const EPOCH0: u64 = 1_696_809_600;
const NT: usize = 9;
const ASTRO: usize = 7;
const LP0: usize = 8;
const TREAS: &str = "wasm1treasury";
const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Which {
    Solvency,
    Accrual,
    Eligible,
    Lists,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum RAmt {
    Rate(u128),
    /// exactly one unit per second, plus this many units
    Edge(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Inc {
    p: u8,
    tok: u8,
    amt: RAmt,
    weeks: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IOp {
    Deposit { p: u8, u: u8, part: u32, to: Option<u8> },
    /// provide liquidity with automatic staking
    Auto { p: u8, u: u8, amt: u128, to: Option<u8> },
    Withdraw { p: u8, u: u8, part: u32, over: bool },
    Claim { u: u8, pools: u8, dup: bool },
    /// `mis`: 0 right funds, 1 one unit short, 2 an unrelated coin on top, 3 the fee treated the wrong way round
    Incent { u: u8, what: Vec<Inc>, mis: u8 },
    Setup { by: u8, pools: Vec<(u8, u32)> },
    Rate { by: u8, aps: u64 },
    Remove { by: u8, p: u8, tok: u8, bypass: bool },
    Orphans { by: u8, limit: Option<u8> },
    Block { by: u8, add: Vec<u8>, remove: Vec<u8> },
    Deregister { p: u8 },
    NoGen { kind: u8, on: bool },
    SweepBlocked,
    Fee(Option<(u8, u32)>),
    Refuse { tok: u8 },
    /// direct message from an outsider pretending to be the factory
    FakeDeactivate { p: u8, by: u8 },
    Gap { secs: u32 },
    /// to the end of a running schedule, plus -1, 0 or 1 seconds
    Edge { p: u8, k: u8, d: i8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ICase {
    lp_exp: [u8; 4],
    fee: Option<(u8, u32)>,
    /// seconds after the start of a week
    off: u32,
    ops: Vec<IOp>,
}

// ------------------------------------------------------------------------------------------------ reference

type F = Uint512;
fn one() -> F {
    F::from(1u128) << 100
}
fn fx(x: u128) -> F {
    F::from(x)
}
fn floor(x: F) -> u128 {
    let q = x >> 100;
    Uint128::try_from(q).map(|x| x.u128()).unwrap_or(u128::MAX)
}

#[derive(Clone, Debug, Default)]
struct Ext {
    s: Vec<(u128, u64, u64)>,
    orphan: F,
}
#[derive(Clone, Debug, Default)]
struct Acc {
    v: F,
    /// how many separately rounded pieces it may be made of
    pieces: u128,
}
#[derive(Clone, Debug, Default)]
struct PoolM {
    known: bool,
    registered: bool,
    total: u128,
    stake: [u128; 4],
    pos: [bool; 4],
    last: u64,
    int: Option<F>,
    ext: BTreeMap<usize, Ext>,
    /// [user][token]; ASTRO emission apart at NT
    acc: Vec<Vec<Acc>>,
    /// finished while nobody was staked, not yet accounted for by the contract
    unsaved: Vec<(usize, F)>,
    updates: u128,
    seen: [u128; 4],
}
#[derive(Clone, Debug, Default)]
struct Model {
    pools: Vec<PoolM>,
    active: Vec<(usize, u128)>,
    aps: u128,
    blocked: BTreeSet<usize>,
    nogen: BTreeSet<u8>,
    fee: Option<(usize, u128)>,
    /// orphaned rewards the owner can claim: exact sum of floors, number of contributions
    pot: BTreeMap<usize, (u128, u128)>,
    /// tokens whose transfers failed at some point: amounts no longer predictable
    murky: BTreeSet<usize>,
}
impl Model {
    fn rate(&self, p: usize) -> (u128, u128) {
        let total: u128 = self.active.iter().map(|a| a.1).sum();
        match self.active.iter().find(|a| a.0 == p) {
            Some((_, a)) => (self.aps * a, total),
            None => (0, 1),
        }
    }
    fn advance(&mut self, now: u64) {
        for i in 0..self.pools.len() {
            let (num, den) = self.rate(i);
            let p = &mut self.pools[i];
            let (t0, total, stake) = (p.last, p.total, p.stake);
            p.last = now;
            if now <= t0 {
                continue;
            }
            let share = |orphan: &mut F, got: F, acc: &mut Vec<Vec<Acc>>, k: usize| {
                if total == 0 {
                    *orphan += got;
                } else {
                    let all = *orphan + got;
                    *orphan = F::zero();
                    for u in 0..4 {
                        acc[u][k].v += all * fx(stake[u]) / fx(total);
                    }
                }
            };
            if let Some(orphan) = p.int.as_mut() {
                let got = one() * fx(num) * fx((now - t0) as u128) / fx(den);
                share(orphan, got, &mut p.acc, NT);
            }
            let mut done = vec![];
            for (k, e) in p.ext.iter_mut() {
                let mut got = F::zero();
                for (a, s, t) in &e.s {
                    let (x, y) = ((*s).max(t0), (*t).min(now));
                    if y > x {
                        got += one() * fx(*a) * fx((y - x) as u128) / fx((t - s) as u128);
                    }
                }
                share(&mut e.orphan, got, &mut p.acc, *k);
                if e.s.iter().all(|s| s.2 <= now) {
                    done.push(*k);
                }
            }
            for k in done {
                let e = p.ext.remove(&k).unwrap();
                if !e.orphan.is_zero() {
                    p.unsaved.push((k, e.orphan));
                }
                for u in 0..4 {
                    p.acc[u][k].pieces += 1;
                }
            }
        }
    }
    /// the contract brings pool `p` up to date and stores it
    fn touch(&mut self, p: usize) {
        let q = &mut self.pools[p];
        q.updates += 1;
        for (k, x) in std::mem::take(&mut q.unsaved) {
            let e = self.pot.entry(k).or_default();
            e.0 += floor(x);
            e.1 += 1;
        }
    }
    fn touch_active(&mut self) {
        for (p, _) in self.active.clone() {
            self.touch(p);
        }
    }
    fn tol(&self, p: usize, u: usize) -> u128 {
        let q = &self.pools[p];
        (q.updates - q.seen[u] + 2) * (q.stake[u] / E18 + 1)
    }
    /// what user `u` is owed from `p`: (token, at least, at most)
    fn owed(&self, p: usize, u: usize) -> Vec<(usize, u128, u128)> {
        let t = self.tol(p, u);
        (0..=NT)
            .map(|k| {
                let a = &self.pools[p].acc[u][k];
                let hi = floor(a.v + (one() >> 40));
                (k, floor(a.v).saturating_sub(t + a.pieces + 1), hi)
            })
            .collect()
    }
    fn paid(&mut self, p: usize, u: usize) {
        let q = &mut self.pools[p];
        for k in 0..=NT {
            q.acc[u][k] = Acc::default();
        }
        q.seen[u] = q.updates;
    }
}

// ------------------------------------------------------------------------------------------------ world

struct I {
    w: World,
    inc: String,
    infos: Vec<AssetInfo>,
    pools: Vec<Pool>,
    kinds: [u8; 3],
}

fn ends(now: u64, weeks: u64) -> u64 {
    EPOCH0 + ((now - EPOCH0) / WEEK + 1) * WEEK + weeks * WEEK
}

fn build(case: &ICase) -> R<I> {
    let w = World::new(&[], true)?;
    let c = &w.c;
    c.set_time(EPOCH0 + 40 * WEEK + case.off as u64 % WEEK as u32 as u64);
    let mut infos = vec![];
    for cw20 in [false, true, false, false, true, false, true] {
        let t = w.tok(&Tok { cw20, dec: 6 })?;
        w.fund(&t, OWNER, RICH)?;
        infos.push(t);
    }
    let astro = native("factory/wasm1assembly/astro");
    for u in USERS {
        c.faucet(u, "factory/wasm1assembly/astro", RICH);
        c.faucet(u, "ufee", RICH);
        c.faucet(u, "ujunk", RICH);
    }
    infos.push(astro.clone());
    let vcode = c.store(codes::vesting());
    let v = c.init(vcode, OWNER, &vesting::InstantiateMsg { owner: OWNER.into(), vesting_token: astro.clone() }, &[], "vesting", None)?;
    let icode = c.store(codes::incentives());
    let inc = c.init(
        icode,
        OWNER,
        &InstantiateMsg {
            owner: OWNER.into(),
            factory: w.factory.clone(),
            astro_token: astro,
            vesting_contract: v.clone(),
            incentivization_fee_info: case.fee.map(|f| fee_info(&infos, f)),
            guardian: Some(USERS[2].into()),
        },
        &[],
        "incentives",
        None,
    )?;
    c.faucet(OWNER, "factory/wasm1assembly/astro", RICH);
    c.exec(
        OWNER,
        &v,
        &vesting::ExecuteMsg::RegisterVestingAccounts {
            vesting_accounts: vec![vesting::VestingAccount {
                address: inc.clone(),
                schedules: vec![vesting::VestingSchedule {
                    start_point: vesting::VestingSchedulePoint { time: 1, amount: Uint128::new(RICH) },
                    end_point: None,
                }],
            }],
        },
        &[coin(RICH, "factory/wasm1assembly/astro")],
    )?;
    let upd = |x: ExecuteMsg| c.exec(OWNER, &inc, &x, &[]);
    upd(ExecuteMsg::UpdateConfig {
        astro_token: None,
        vesting_contract: None,
        generator_controller: Some(USERS[3].into()),
        guardian: None,
        incentivization_fee_info: None,
        token_transfer_gas_limit: None,
    })?;
    c.exec(
        OWNER,
        &w.factory,
        &fac::ExecuteMsg::UpdateConfig {
            token_code_id: None,
            fee_address: None,
            generator_address: Some(inc.clone()),
            whitelist_code_id: None,
            coin_registry_address: None,
        },
        &[],
    )?;
    let mut pools = vec![];
    for (kind, a, b) in [(Kind::Xyk, 0, 1), (Kind::Xyk, 0, 2), (Kind::Stable, 1, 2)] {
        let params = StablePoolParams { amp: 100, owner: None };
        let is = [infos[a].clone(), infos[b].clone()];
        let p = w.create(kind, &is, &[6, 6], (kind == Kind::Stable).then_some(&params))?;
        let big = 10u128.pow(24);
        w.provide(&p, USERS[0], &[big, big], &ProvideOpts { receiver: Some(OWNER.into()), ..Default::default() })?;
        for (u, e) in USERS.iter().zip(case.lp_exp) {
            c.send(OWNER, u, &p.lp, 10u128.pow(e as u32 % 22 + 1))?;
        }
        pools.push(p);
    }
    infos.push(native(&pools[0].lp));
    Ok(I { w, inc, infos, pools, kinds: [0, 0, 1] })
}
fn fee_info(infos: &[AssetInfo], f: (u8, u32)) -> IncentivizationFeeInfo {
    IncentivizationFeeInfo { fee_receiver: addr(FEE), fee: coin(f.1 as u128 + 1, fee_denom(infos, f.0)) }
}
fn fee_denom(infos: &[AssetInfo], k: u8) -> String {
    if k % 2 == 0 {
        "ufee".into()
    } else {
        info_str(&infos[3])
    }
}

impl I {
    fn lp(&self, p: usize) -> String {
        if p < 3 {
            self.pools[p].lp.clone()
        } else {
            info_str(&self.infos[3])
        }
    }
    fn bals(&self, who: &str) -> Vec<u128> {
        let mut v: Vec<u128> = self.infos.iter().map(|i| self.w.bal(i, who)).collect();
        v.push(self.w.c.balance(who, &self.pools[1].lp));
        v.push(self.w.c.balance(who, &self.pools[2].lp));
        v.push(self.w.c.balance(who, "ufee"));
        v
    }
    fn pending(&self, p: usize, u: usize) -> R<BTreeMap<usize, u128>> {
        let r: Vec<Asset> = self.w.c.query(
            &self.inc,
            &QueryMsg::PendingRewards { lp_token: self.lp(p), user: USERS[u].into() },
        )?;
        let mut m = BTreeMap::new();
        for a in r {
            let k = self.infos.iter().position(|i| *i == a.info).ok_or("unknown reward token")?;
            *m.entry(k).or_insert(0) += a.amount.u128();
        }
        Ok(m)
    }
    fn exec(&self, who: &str, m: &ExecuteMsg, funds: &[Coin]) -> R<Resp> {
        self.w.c.exec(who, &self.inc, m, funds)
    }
}
fn lp_slot(p: usize) -> usize {
    [LP0, NT, NT + 1][p]
}
fn who(by: u8) -> &'static str {
    match by % 4 {
        0 => OWNER,
        1 => USERS[3],
        2 => USERS[2],
        _ => USERS[1],
    }
}

/// promised amounts of each token: what stakers can claim, what is still to be distributed, what nobody earned
fn promised(k: &I, m: &Model) -> R<Vec<u128>> {
    let mut due = vec![0u128; NT];
    for p in 0..3 {
        due_lp(k, m, p, &mut due)?;
    }
    Ok(due)
}
fn due_lp(k: &I, m: &Model, p: usize, due: &mut [u128]) -> R<()> {
    let c = &k.w.c;
    if !m.pools[p].known {
        return Ok(());
    }
    let infos: Vec<RewardInfo> = c.query(&k.inc, &QueryMsg::RewardInfo { lp_token: k.lp(p) })?;
    for r in infos {
        if !r.reward.is_external() {
            continue;
        }
        let t = k.infos.iter().position(|i| i == r.reward.asset_info()).ok_or("unknown reward token")?;
        let mut all = r.orphaned;
        let sch: Vec<ScheduleResponse> = c.query(
            &k.inc,
            &QueryMsg::ExternalRewardSchedules {
                reward: info_str(&k.infos[t]),
                lp_token: k.lp(p),
                start_after: None,
                limit: None,
            },
        )?;
        for s in sch {
            all += s.rps * Decimal256::from_ratio(s.end_ts - s.start_ts, 1u8);
        }
        due[t] += Uint128::try_from(all.to_uint_floor()).map(|x| x.u128()).unwrap_or(u128::MAX);
    }
    for u in 0..4 {
        if m.pools[p].pos[u] {
            let owe = k.pending(p, u)?;
            for t in 0..NT {
                // emissions are paid by the vesting contract, so ASTRO is left out here
                if t != ASTRO {
                    due[t] += owe.get(&t).copied().unwrap_or(0);
                }
            }
        }
    }
    Ok(())
}

enum Out {
    Go,
    /// the model no longer follows the contract; what went wrong belongs to another property
    Stop,
}

struct Run<'a> {
    k: &'a I,
    m: Model,
    which: Which,
    o: &'a mut Obs,
    n: usize,
}

impl Run<'_> {
    /// a mismatch that breaks property `of`
    fn bad<T>(&mut self, of: Which, msg: String) -> Result<Option<T>, Viol> {
        if self.which == of {
            viol!("op {}: {msg}", self.n)
        }
        self.o.tag("diverged");
        Ok(None)
    }
    /// compares accepted/refused with the expectation
    fn verdict(&mut self, of: Which, r: &R<Resp>, want: Result<(), &str>, what: &str) -> Result<Option<bool>, Viol> {
        match (r, want) {
            (Ok(_), Ok(())) => Ok(Some(true)),
            (Err(_), Err(_)) => Ok(Some(false)),
            (Ok(_), Err(why)) => self.bad(of, format!("{what} was accepted although {why}")),
            (Err(e), Ok(())) => self.bad(of, format!("{what} was refused: {e}")),
        }
    }
    /// rewards user `u` got for the pools `ps`, given all their balance changes with the LP moved taken out
    fn got(&mut self, u: usize, ps: &[usize], delta: &[i128]) -> Result<Option<()>, Viol> {
        let mut lo = [0u128; NT];
        let mut hi = [0u128; NT];
        let mut total = 0;
        for p in ps {
            for (t, l, h) in self.m.owed(*p, u) {
                let t = if t == NT { ASTRO } else { t };
                lo[t] += l;
                hi[t] += h;
                total += h;
            }
        }
        for t in 0..NT {
            if self.m.murky.contains(&t) {
                continue;
            }
            let d = delta[t];
            if d < lo[t] as i128 || d > hi[t] as i128 {
                let msg = format!(
                    "{} got {d} of {} from pools {ps:?}, earned between {} and {}",
                    USERS[u], info_str(&self.k.infos[t]), lo[t], hi[t]
                );
                return self.bad(Which::Accrual, msg);
            }
        }
        if total > 0 {
            self.o.tag("rewards paid");
            if self.which == Which::Accrual {
                self.o.nontrivial = true;
            }
        }
        for p in ps {
            self.m.paid(*p, u);
        }
        Ok(Some(()))
    }

    fn incent(&self, m: &mut Model, what: &[(usize, usize, u128, u64)], now: u64) -> Result<u128, &'static str> {
        let mut fees = 0;
        for (p, t, amt, weeks) in what {
            let end = ends(now, *weeks);
            if *weeks == 0 || *weeks > 25 {
                return Err("the duration is out of range");
            }
            if *amt < (end - now) as u128 {
                return Err("it emits less than one unit per second");
            }
            if m.blocked.contains(t) {
                return Err("the token is blocked");
            }
            if *p >= 3 || !m.pools[*p].registered {
                return Err("the pool is not registered");
            }
            let q = &mut m.pools[*p];
            if !q.ext.contains_key(t) {
                if q.ext.len() >= 5 && *t != ASTRO {
                    return Err("the pool already has five reward tokens");
                }
                if *t != ASTRO {
                    if let Some(f) = m.fee {
                        fees += f.1;
                    }
                }
            }
            q.ext.entry(*t).or_default().s.push((*amt, now, end));
            q.known = true;
        }
        Ok(fees)
    }

    fn setup_ok(&self, who: &str, pools: &[(usize, u128)]) -> Result<(), &'static str> {
        let m = &self.m;
        if who != OWNER && who != USERS[3] {
            return Err("the sender is neither the owner nor the controller");
        }
        let mut seen = BTreeSet::new();
        for (p, a) in pools {
            if *a == 0 {
                return Err("an allocation is zero");
            }
            if !seen.insert(p) {
                return Err("a pool is listed twice");
            }
            if *p >= 3 || !m.pools[*p].registered {
                return Err("a pool is not registered");
            }
            if pool_toks(*p).iter().any(|t| m.blocked.contains(t)) {
                return Err("a pool holds a blocked token");
            }
            if m.nogen.contains(&self.k.kinds[*p]) {
                return Err("a pool's type is excluded");
            }
        }
        Ok(())
    }

    fn op(&mut self, op: &IOp) -> Result<Out, Viol> {
        macro_rules! go {
            ($e:expr) => {
                match $e? {
                    Some(x) => x,
                    None => return Ok(Out::Stop),
                }
            };
        }
        let k = self.k;
        let c = &k.w.c;
        let now = c.time();
        self.m.advance(now);
        let before = c.state();
        let mut refused = false;
        match op {
            IOp::Deposit { p, u, part, to } => {
                let (p, u) = (*p as usize % 4, *u as usize % 4);
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                let lp = k.lp(p);
                let have = c.balance(USERS[u], &lp);
                let amt = lp_part(have, *part);
                if amt == 0 || amt > have {
                    return Ok(Out::Go);
                }
                let b = k.bals(USERS[t]);
                let r = k.exec(USERS[u], &ExecuteMsg::Deposit { recipient: to.map(|_| USERS[t].into()) }, &[coin(amt, &lp)]);
                let want = if p < 3 && self.m.pools[p].registered { Ok(()) } else { Err("the token is no registered pool's LP") };
                if go!(self.verdict(Which::Solvency, &r, want, "staking")) {
                    let a = k.bals(USERS[t]);
                    let mut d: Vec<i128> = a.iter().zip(&b).map(|(a, b)| *a as i128 - *b as i128).collect();
                    if t == u {
                        d[lp_slot(p)] += amt as i128;
                    }
                    self.m.pools[p].known = true;
                    go!(self.staked(p, t, amt, &d));
                    self.o.tag("stake");
                } else {
                    refused = true;
                }
            }
            IOp::Auto { p, u, amt, to } => {
                let (p, u) = (*p as usize % 3, *u as usize % 4);
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                if t == u || !self.m.pools[p].registered {
                    return Ok(Out::Go);
                }
                let b = k.bals(USERS[t]);
                let r = k.w.provide(
                    &k.pools[p],
                    USERS[u],
                    &[*amt, *amt],
                    &ProvideOpts { auto_stake: Some(true), receiver: to.map(|_| USERS[t].into()), ..Default::default() },
                );
                if let Ok(r) = r {
                    let minted: u128 = match r.attr(&k.pools[p].addr, "share").and_then(|s| s.parse().ok()) {
                        Some(x) => x,
                        None => return Ok(Out::Stop),
                    };
                    let d: Vec<i128> = k.bals(USERS[t]).iter().zip(&b).map(|(a, b)| *a as i128 - *b as i128).collect();
                    self.m.pools[p].known = true;
                    go!(self.staked(p, t, minted, &d));
                    self.o.tag("stake from the pool");
                } else {
                    self.o.tag("deposit too small");
                    return Ok(Out::Go);
                }
            }
            IOp::Withdraw { p, u, part, over } => {
                let p = *p as usize % 3;
                let s: Vec<usize> = (0..4).filter(|u| self.m.pools[p].stake[*u] > 0).collect();
                let u = if s.is_empty() { *u as usize % 4 } else { s[*u as usize % s.len()] };
                let have = self.m.pools[p].stake[u];
                let amt = if *over { have + 1 + *part as u128 } else { lp_part(have, *part).max(1) };
                go!(self.withdraw(p, u, amt));
                refused = amt > have;
            }
            IOp::Claim { u, pools, dup } => {
                let u = *u as usize % 4;
                let mut ps: Vec<usize> = (0..3).filter(|p| pools >> p & 1 == 1).collect();
                if *dup && !ps.is_empty() {
                    ps.push(ps[0]);
                }
                let want = if *dup && !ps.is_empty() {
                    Err("a pool is listed twice")
                } else if ps.iter().any(|p| !self.m.pools[*p].pos[u]) {
                    Err("there is no such stake")
                } else {
                    Ok(())
                };
                let mut told: BTreeMap<usize, u128> = BTreeMap::new();
                if want.is_ok() {
                    for p in &ps {
                        for (t, a) in k.pending(*p, u)? {
                            *told.entry(t).or_default() += a;
                        }
                    }
                }
                let b = k.bals(USERS[u]);
                let r = k.exec(USERS[u], &ExecuteMsg::ClaimRewards { lp_tokens: ps.iter().map(|p| k.lp(*p)).collect() }, &[]);
                if go!(self.verdict(Which::Accrual, &r, want, "claiming")) {
                    let d: Vec<i128> = k.bals(USERS[u]).iter().zip(&b).map(|(a, b)| *a as i128 - *b as i128).collect();
                    for t in 0..NT {
                        let q = told.get(&t).copied().unwrap_or(0);
                        if !self.m.murky.contains(&t) && d[t] != q as i128 {
                            go!(self.bad(Which::Accrual, format!(
                                "{} was told {q} of {} and claimed {}", USERS[u], info_str(&k.infos[t]), d[t])));
                        }
                    }
                    for p in &ps {
                        self.m.touch(*p);
                    }
                    go!(self.got(u, &ps, &d));
                    self.o.tag("claim");
                } else {
                    refused = true;
                }
            }
            IOp::Incent { u, what, mis } => {
                let u = *u as usize % 4;
                let mut list = vec![];
                for w in what {
                    let weeks = w.weeks as u64;
                    let dur = (ends(now, weeks) - now) as u128;
                    let a = match w.amt {
                        RAmt::Rate(r) => r.saturating_mul(dur).min(RICH / 64) + r % 977,
                        RAmt::Edge(d) => (dur as i128 + d as i128).max(1) as u128,
                    };
                    list.push((w.p as usize % 4, w.tok as usize % NT, a, weeks));
                }
                // an LP reward has to be affordable
                for l in list.iter_mut().filter(|l| l.1 == LP0) {
                    l.2 = l.2.min(c.balance(USERS[u], &k.pools[0].lp) / 4).max(1);
                }
                let mut after = self.m.clone();
                let res = self.incent(&mut after, &list, now);
                let mut fees = *res.as_ref().unwrap_or(&0);
                let mut need: BTreeMap<String, u128> = BTreeMap::new();
                let mut allow: BTreeMap<String, u128> = BTreeMap::new();
                for (_, t, a, _) in &list {
                    match &k.infos[*t] {
                        AssetInfo::NativeToken { denom } => *need.entry(denom.clone()).or_default() += a,
                        AssetInfo::Token { contract_addr } => *allow.entry(contract_addr.to_string()).or_default() += a,
                    }
                }
                let mut wrong = None;
                if *mis % 4 == 3 {
                    match (fees, self.m.fee) {
                        (0, Some(f)) => {
                            fees = f.1;
                            wrong = Some("a fee was attached that is not due");
                        }
                        (x, _) if x > 0 => {
                            fees = 0;
                            wrong = Some("the fee is missing");
                        }
                        _ => {}
                    }
                }
                if fees > 0 {
                    let d = fee_denom(&k.infos, self.m.fee.unwrap().0 as u8);
                    *need.entry(d).or_default() += fees;
                }
                match *mis % 4 {
                    1 => {
                        let j = *mis as usize / 4;
                        if need.len() + allow.len() > 0 {
                            let v = j % (need.len() + allow.len());
                            let x = need.values_mut().chain(allow.values_mut()).nth(v).unwrap();
                            if *x > 1 {
                                *x -= 1;
                                wrong = Some("the funds are one unit short");
                            }
                        }
                    }
                    2 => {
                        need.insert("ujunk".into(), 5);
                        wrong = Some("an unrelated coin was attached");
                    }
                    _ => {}
                }
                let poor = need.iter().any(|(d, a)| c.balance(USERS[u], d) < *a)
                    || allow.iter().any(|(t, a)| c.cw20_balance(t, USERS[u]) < *a);
                let funds: Vec<Coin> = need.iter().filter(|x| *x.1 > 0).map(|(d, a)| coin(*a, d)).collect();
                let mut msgs: Vec<(String, Vec<u8>, Vec<Coin>)> = vec![];
                // allowances are set to exactly what is needed, in the same transaction
                for (t, a) in &allow {
                    let cur: cw20::AllowanceResponse = c.query(
                        t,
                        &cw20::Cw20QueryMsg::Allowance { owner: USERS[u].into(), spender: k.inc.clone() },
                    )?;
                    if !cur.allowance.is_zero() {
                        return Err("harness: allowance left over".into());
                    }
                    msgs.push((
                        t.clone(),
                        cosmwasm_std::to_json_vec(&cw20::Cw20ExecuteMsg::IncreaseAllowance {
                            spender: k.inc.clone(),
                            amount: Uint128::new(*a),
                            expires: None,
                        })
                        .unwrap(),
                        vec![],
                    ));
                }
                let sched = |l: &(usize, usize, u128, u64)| {
                    (k.lp(l.0), InputSchedule { reward: asset(&k.infos[l.1], l.2), duration_periods: l.3 })
                };
                let msg = if list.len() == 1 {
                    let (lp_token, schedule) = sched(&list[0]);
                    ExecuteMsg::Incentivize { lp_token, schedule }
                } else {
                    ExecuteMsg::IncentivizeMany(list.iter().map(sched).collect())
                };
                msgs.push((k.inc.clone(), cosmwasm_std::to_json_vec(&msg).unwrap(), funds));
                let fee0: u128 = self.m.fee.map(|f| c.balance(FEE, &fee_denom(&k.infos, f.0 as u8))).unwrap_or(0);
                let held: Vec<u128> = k.bals(&k.inc);
                let r = c.exec_many(USERS[u], msgs).map(|mut v| v.pop().unwrap());
                let want = match (&res, wrong) {
                    _ if list.is_empty() && wrong.is_none() => Ok(()),
                    (Err(e), _) => Err(*e),
                    (_, Some(w)) => Err(w),
                    _ if poor => Err("the sender cannot pay"),
                    _ => Ok(()),
                };
                if go!(self.verdict(Which::Eligible, &r, want, &format!("incentivizing {list:?}"))) {
                    self.m = after;
                    for l in &list {
                        self.m.touch(l.0);
                        self.o.tag("schedule added");
                        if self.which != Which::Accrual {
                            self.o.nontrivial = true;
                        }
                    }
                    if let Some(f) = self.m.fee {
                        let d = fee_denom(&k.infos, f.0 as u8);
                        let g = c.balance(FEE, &d) - fee0;
                        if g != fees {
                            go!(self.bad(Which::Eligible, format!("the fee receiver got {g}, due {fees}")));
                        }
                    }
                    let now_held = k.bals(&k.inc);
                    for t in 0..NT {
                        let add: u128 = list.iter().filter(|l| l.1 == t).map(|l| l.2).sum();
                        if now_held[t] != held[t] + add {
                            go!(self.bad(Which::Eligible, format!(
                                "the contract received {} of {} for schedules worth {add}",
                                now_held[t] as i128 - held[t] as i128, info_str(&k.infos[t]))));
                        }
                    }
                } else {
                    refused = true;
                    self.o.tag("schedule refused");
                }
            }
            IOp::Setup { by, pools } => {
                let list: Vec<(usize, u128)> = pools.iter().map(|(p, a)| (*p as usize % 4, *a as u128)).collect();
                let w = who(*by);
                let want = self.setup_ok(w, &list);
                let r = k.exec(
                    w,
                    &ExecuteMsg::SetupPools { pools: list.iter().map(|(p, a)| (k.lp(*p), Uint128::new(*a))).collect() },
                    &[],
                );
                if go!(self.verdict(Which::Eligible, &r, want, &format!("setting up {list:?}"))) {
                    self.m.touch_active();
                    self.m.active = list.clone();
                    for (p, _) in &list {
                        self.m.touch(*p);
                        self.m.pools[*p].known = true;
                        self.m.pools[*p].int.get_or_insert(F::zero());
                    }
                    self.o.tag("active pools set");
                    if self.which == Which::Eligible && !list.is_empty() {
                        self.o.nontrivial = true;
                    }
                } else {
                    refused = true;
                }
            }
            IOp::Rate { by, aps } => {
                let w = who(*by);
                let want = if w == OWNER { Ok(()) } else { Err("the sender is not the owner") };
                let r = k.exec(w, &ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(*aps as u128) }, &[]);
                if go!(self.verdict(Which::Eligible, &r, want, "setting the emission rate")) {
                    self.m.touch_active();
                    self.m.aps = *aps as u128;
                    self.o.tag("rate set");
                } else {
                    refused = true;
                }
            }
            IOp::Remove { by, p, tok, bypass } => {
                let (p, w) = (*p as usize % 3, who(*by));
                let live: Vec<usize> = self.m.pools[p].ext.keys().copied().collect();
                let t = if live.is_empty() || tok % 8 == 7 { *tok as usize % NT } else { live[*tok as usize % live.len()] };
                let bypass = *bypass && self.which == Which::Solvency;
                let want = if w != OWNER {
                    Err("the sender is not the owner")
                } else if !self.m.pools[p].ext.contains_key(&t) {
                    Err("there is no such reward")
                } else {
                    Ok(())
                };
                let b = k.bals(TREAS);
                let r = k.exec(
                    w,
                    &ExecuteMsg::RemoveRewardFromPool {
                        lp_token: k.lp(p),
                        reward: info_str(&k.infos[t]),
                        bypass_upcoming_schedules: bypass,
                        receiver: TREAS.into(),
                    },
                    &[],
                );
                if go!(self.verdict(Which::Eligible, &r, want, "removing a reward")) {
                    let e = self.m.pools[p].ext.remove(&t).unwrap();
                    self.m.touch(p);
                    for u in 0..4 {
                        self.m.pools[p].acc[u][t].pieces += 1;
                    }
                    let left: F = e
                        .s
                        .iter()
                        .filter(|s| s.2 > now)
                        .fold(e.orphan, |x, s| x + one() * fx(s.0) * fx((s.2 - now) as u128) / fx((s.2 - s.1) as u128));
                    let g = k.bals(TREAS)[t] - b[t];
                    let most = floor(left + (one() >> 20));
                    if bypass {
                        self.m.murky.insert(t);
                        self.o.tag("reward removed, rest skipped");
                    } else if !self.m.murky.contains(&t) && (g > most || g + 2 < floor(left)) {
                        go!(self.bad(Which::Accrual, format!("removing a reward returned {g}, {most} was left")));
                    }
                    self.o.tag("reward removed");
                } else {
                    refused = true;
                }
            }
            IOp::Orphans { by, limit } => {
                let w = who(*by);
                let b = k.bals(TREAS);
                let r = k.exec(w, &ExecuteMsg::ClaimOrphanedRewards { limit: *limit, receiver: TREAS.into() }, &[]);
                if w != OWNER {
                    go!(self.verdict(Which::Eligible, &r, Err("the sender is not the owner"), "taking orphaned rewards"));
                    refused = true;
                } else {
                    let d: Vec<u128> = k.bals(TREAS).iter().zip(&b).map(|(a, b)| a - b).collect();
                    // native tokens first, then cw20, each by name
                    let mut keys: Vec<usize> = self.m.pot.keys().copied().collect();
                    keys.sort_by_key(|t| (matches!(k.infos[*t], AssetInfo::Token { .. }), info_str(&k.infos[*t])));
                    let take: Vec<usize> = keys.into_iter().take(limit.unwrap_or(10).min(10) as usize).collect();
                    if r.is_err() && !take.is_empty() {
                        go!(self.bad(Which::Accrual, format!("taking orphaned rewards was refused: {r:?}")));
                    }
                    for t in 0..NT {
                        let (hi, cnt) = if take.contains(&t) { self.m.pot[&t] } else { (0, 0) };
                        if !self.m.murky.contains(&t) && (d[t] > hi || d[t] + cnt < hi) {
                            go!(self.bad(Which::Accrual, format!(
                                "orphaned rewards in {} paid {}, expected {hi}", info_str(&k.infos[t]), d[t])));
                        }
                    }
                    for t in take {
                        self.m.pot.remove(&t);
                        self.o.tag("orphaned rewards taken");
                    }
                }
            }
            IOp::Block { by, add, remove } => {
                let w = who(*by);
                let add: Vec<usize> = add.iter().map(|t| *t as usize % NT).collect();
                let remove: Vec<usize> = remove.iter().map(|t| *t as usize % NT).collect();
                let mut all: Vec<usize> = add.iter().chain(&remove).copied().collect();
                all.sort();
                let n0 = all.len();
                all.dedup();
                let want = if w != OWNER && w != USERS[2] {
                    Err("the sender is neither the owner nor the guardian")
                } else if all.len() != n0 {
                    Err("a token is listed twice")
                } else if remove.iter().any(|t| !self.m.blocked.contains(t)) {
                    Err("a token to unblock is not blocked")
                } else if add.iter().any(|t| self.m.blocked.contains(t)) {
                    Err("a token to block is blocked already")
                } else if add.contains(&ASTRO) {
                    Err("ASTRO cannot be blocked")
                } else {
                    Ok(())
                };
                let r = k.exec(
                    w,
                    &ExecuteMsg::UpdateBlockedTokenslist {
                        add: add.iter().map(|t| k.infos[*t].clone()).collect(),
                        remove: remove.iter().map(|t| k.infos[*t].clone()).collect(),
                    },
                    &[],
                );
                if go!(self.verdict(Which::Eligible, &r, want, &format!("blocking {add:?}, unblocking {remove:?}"))) {
                    for t in &remove {
                        self.m.blocked.remove(t);
                    }
                    self.m.blocked.extend(add.iter().copied());
                    let hit = |p: usize| pool_toks(p).iter().any(|t| add.contains(t));
                    if self.m.active.iter().any(|a| hit(a.0)) {
                        self.m.touch_active();
                        self.m.active.retain(|a| !hit(a.0));
                        self.o.tag("active pool blocked");
                    }
                } else {
                    refused = true;
                }
            }
            IOp::Deregister { p } => {
                let p = *p as usize % 3;
                let r = c.exec(OWNER, &k.w.factory, &fac::ExecuteMsg::Deregister { asset_infos: k.pools[p].infos.clone() }, &[]);
                let want = if self.m.pools[p].registered { Ok(()) } else { Err("it is not registered") };
                if go!(self.verdict(Which::Eligible, &r, want, "deregistering a pool")) {
                    self.m.pools[p].registered = false;
                    if self.m.active.iter().any(|a| a.0 == p) {
                        self.m.touch_active();
                        self.m.active.retain(|a| a.0 != p);
                        self.o.tag("active pool deregistered");
                    }
                } else {
                    refused = true;
                }
            }
            IOp::NoGen { kind, on } => {
                let kd = *kind % 2;
                let kind = if kd == 0 { Kind::Xyk } else { Kind::Stable };
                c.exec(
                    OWNER,
                    &k.w.factory,
                    &fac::ExecuteMsg::UpdatePairConfig {
                        config: fac::PairConfig {
                            code_id: k.w.code(kind),
                            pair_type: pair_type(kind),
                            total_fee_bps: 30,
                            maker_fee_bps: 3333,
                            is_disabled: false,
                            is_generator_disabled: *on,
                            permissioned: false,
                        },
                    },
                    &[],
                )?;
                if *on {
                    self.m.nogen.insert(kd);
                } else {
                    self.m.nogen.remove(&kd);
                }
            }
            IOp::SweepBlocked => {
                let r = k.exec(USERS[1], &ExecuteMsg::DeactivateBlockedPools {}, &[]);
                go!(self.verdict(Which::Eligible, &r, Ok(()), "sweeping excluded pools"));
                let ng = self.m.nogen.clone();
                let out = |p: usize| ng.contains(&k.kinds[p]);
                if self.m.active.iter().any(|a| out(a.0)) {
                    self.m.touch_active();
                    self.m.active.retain(|a| !out(a.0));
                    self.o.tag("active pool of an excluded type");
                }
            }
            IOp::Fee(f) => {
                // a fee cannot be unset, only replaced
                if let Some(f) = f {
                    k.exec(
                        OWNER,
                        &ExecuteMsg::UpdateConfig {
                            astro_token: None,
                            vesting_contract: None,
                            generator_controller: None,
                            guardian: None,
                            incentivization_fee_info: Some(fee_info(&k.infos, *f)),
                            token_transfer_gas_limit: None,
                        },
                        &[],
                    )?;
                    self.m.fee = Some((f.0 as usize, f.1 as u128 + 1));
                }
            }
            IOp::Refuse { tok } => {
                if self.which == Which::Solvency {
                    // a reward token that fails to be transferred from now on (or works again)
                    let t = [0usize, 2, 3, 5][*tok as usize % 4];
                    let d = info_str(&k.infos[t]);
                    let mut r = c.refuse.borrow_mut();
                    if !r.remove(&d) {
                        r.insert(d);
                        self.m.murky.insert(t);
                    }
                    self.o.tag("reward token out of order");
                }
            }
            IOp::FakeDeactivate { p, by } => {
                let r = k.exec(who(*by), &ExecuteMsg::DeactivatePool { lp_token: k.lp(*p as usize % 3) }, &[]);
                go!(self.verdict(Which::Eligible, &r, Err("the sender is not the factory"), "deactivating a pool"));
                refused = true;
            }
            IOp::Gap { secs } => {
                c.advance(1, *secs as u64);
                return Ok(Out::Go);
            }
            IOp::Edge { p, k: j, d } => {
                let mut t: Vec<u64> =
                    self.m.pools[*p as usize % 3].ext.values().flat_map(|e| e.s.iter().map(|s| s.2)).filter(|t| *t > now + 1).collect();
                t.sort();
                if !t.is_empty() {
                    let t = (t[*j as usize % t.len()] as i64 + *d as i64) as u64;
                    c.advance(1, t - now);
                }
                return Ok(Out::Go);
            }
        }
        if refused {
            ensure!(c.same_state(&before), "op {}: a refused operation changed something: {}", self.n, c.diff(&before));
        }
        Ok(Out::Go)
    }

    fn staked(&mut self, p: usize, t: usize, amt: u128, d: &[i128]) -> Result<Option<()>, Viol> {
        self.m.touch(p);
        if self.got(t, &[p], d)?.is_none() {
            return Ok(None);
        }
        let q = &mut self.m.pools[p];
        q.stake[t] += amt;
        q.total += amt;
        q.pos[t] = true;
        Ok(Some(()))
    }

    fn withdraw(&mut self, p: usize, u: usize, amt: u128) -> Result<Option<()>, Viol> {
        let k = self.k;
        let have = self.m.pools[p].stake[u];
        let b = k.bals(USERS[u]);
        let r = k.exec(USERS[u], &ExecuteMsg::Withdraw { lp_token: k.lp(p), amount: Uint128::new(amt) }, &[]);
        let want = if amt <= have && amt > 0 { Ok(()) } else { Err("it exceeds the stake") };
        match self.verdict(Which::Solvency, &r, want, &format!("{} unstaking {amt} of {have}", USERS[u]))? {
            None => return Ok(None),
            Some(false) => return Ok(Some(())),
            _ => {}
        }
        let mut d: Vec<i128> = k.bals(USERS[u]).iter().zip(&b).map(|(a, b)| *a as i128 - *b as i128).collect();
        let s = lp_slot(p);
        if s >= NT && d[s] != amt as i128 {
            return self.bad(Which::Solvency, format!("unstaking {amt} returned {}", d[s]));
        }
        d[s] -= amt as i128;
        if d[s] < 0 {
            return self.bad(Which::Solvency, format!("unstaking {amt} returned {} less", -d[s]));
        }
        self.m.touch(p);
        if self.got(u, &[p], &d)?.is_none() {
            return Ok(None);
        }
        let q = &mut self.m.pools[p];
        q.stake[u] -= amt;
        q.total -= amt;
        q.pos[u] = q.stake[u] > 0;
        self.o.tag("unstake");
        Ok(Some(()))
    }

    fn lists(&mut self) -> V {
        let k = self.k;
        let c = &k.w.c;
        let lim = [None, Some(1u8), Some(2), Some(3)][self.n % 4];
        let n = self.n;
        let fits = |len: usize, what: &str| -> V {
            ensure!(len <= lim.unwrap_or(50) as usize, "op {n}: a page of {len} {what}, {lim:?} asked for");
            Ok(())
        };
        for p in 0..3 {
            let m = &self.m.pools[p];
            let mut got: Vec<(String, Uint128)> = vec![];
            loop {
                let page: Vec<(String, Uint128)> = c.query(
                    &k.inc,
                    &QueryMsg::PoolStakers { lp_token: k.lp(p), start_after: got.last().map(|x| x.0.clone()), limit: lim },
                )?;
                fits(page.len(), "stakers")?;
                got.extend(page.iter().cloned());
                if page.is_empty() {
                    break;
                }
                ensure!(got.len() <= 4, "op {n}: pool {p} lists {} stakers: {got:?}", got.len());
            }
            got.sort();
            let mut want: Vec<(String, Uint128)> =
                (0..4).filter(|u| m.stake[*u] > 0).map(|u| (USERS[u].to_string(), Uint128::new(m.stake[u]))).collect();
            want.sort();
            ensure!(got == want, "op {n}: pool {p} lists the stakers {got:?}, expected {want:?}");
            if want.len() > 1 && lim.is_some() {
                self.o.tag("several pages of stakers");
            }
            if m.known {
                let i: astroport::incentives::PoolInfoResponse = c.query(&k.inc, &QueryMsg::PoolInfo { lp_token: k.lp(p) })?;
                ensure!(i.total_lp.u128() == m.total, "op {n}: pool {p} reports {} staked, {} are", i.total_lp, m.total);
            }
            // schedules of every reward, from now on and without gaps or overlaps
            let now = c.time();
            for (t, e) in &m.ext {
                let end = e.s.iter().map(|s| s.2).max().unwrap_or(0);
                let mut at = now;
                let mut first = true;
                let mut pages = 0;
                while at < end {
                    let page: Vec<ScheduleResponse> = c.query(
                        &k.inc,
                        &QueryMsg::ExternalRewardSchedules {
                            reward: info_str(&k.infos[*t]),
                            lp_token: k.lp(p),
                            start_after: (!first).then_some(at),
                            limit: lim,
                        },
                    )?;
                    fits(page.len(), "schedules")?;
                    ensure!(!page.is_empty(), "op {n}: pool {p}: the schedules of {} end at {at}, not {end}", info_str(&k.infos[*t]));
                    for x in page {
                        ensure!(x.start_ts == at && x.end_ts > at, "op {n}: pool {p}: schedule {x:?} follows one up to {at}");
                        for y in [x.start_ts, x.end_ts - 1] {
                            let f = e
                                .s
                                .iter()
                                .filter(|s| s.1 <= y && s.2 > y)
                                .fold(Decimal256::zero(), |f, s| f + Decimal256::from_ratio(s.0, s.2 - s.1));
                            ensure!(x.rps == f, "op {n}: pool {p}: schedule {x:?} of {}, funded {f} per second", info_str(&k.infos[*t]));
                        }
                        at = x.end_ts;
                        first = false;
                    }
                    pages += 1;
                }
                ensure!(at == end.max(now), "op {n}: pool {p}: the schedules of {} go on to {at}, funded until {end}", info_str(&k.infos[*t]));
                if pages > 1 {
                    self.o.tag("several pages of schedules");
                    self.o.nontrivial = true;
                }
            }
        }
        let mut got: Vec<AssetInfo> = vec![];
        loop {
            let page: Vec<AssetInfo> =
                c.query(&k.inc, &QueryMsg::BlockedTokensList { start_after: got.last().cloned(), limit: lim })?;
            fits(page.len(), "blocked tokens")?;
            got.extend(page.iter().cloned());
            if page.is_empty() {
                break;
            }
            ensure!(got.len() <= 20, "op {n}: paging through blocked tokens does not end");
        }
        let mut got: Vec<String> = got.iter().map(info_str).collect();
        got.sort();
        let mut want: Vec<String> = self.m.blocked.iter().map(|t| info_str(&k.infos[*t])).collect();
        want.sort();
        ensure!(got == want, "op {n}: blocked tokens are listed as {got:?}, expected {want:?}");
        let mut got: Vec<String> = vec![];
        loop {
            let page: Vec<String> = c.query(&k.inc, &QueryMsg::ListPools { start_after: got.last().cloned(), limit: lim })?;
            fits(page.len(), "pools")?;
            got.extend(page.iter().cloned());
            if page.is_empty() {
                break;
            }
            ensure!(got.len() <= 20, "op {n}: paging through pools does not end");
        }
        got.sort();
        let mut want: Vec<String> = (0..3).filter(|p| self.m.pools[*p].known).map(|p| k.lp(p)).collect();
        want.sort();
        ensure!(got == want, "op {n}: pools are listed as {got:?}, expected {want:?}");
        if want.len() > 1 && self.m.pools.iter().any(|p| p.stake.iter().filter(|s| **s > 0).count() > 1) {
            self.o.nontrivial = true;
        }
        Ok(())
    }

    fn after(&mut self) -> Result<Out, Viol> {
        let k = self.k;
        let c = &k.w.c;
        self.m.advance(c.time());
        match self.which {
            Which::Solvency => {
                let mut need = promised(k, &self.m)?;
                // unclaimed leftovers of rewards that ended while nobody was staked
                let st = c.dry(|| {
                    let b = k.bals(TREAS);
                    c.refuse.replace(Default::default());
                    let _ = k.exec(OWNER, &ExecuteMsg::ClaimOrphanedRewards { limit: None, receiver: TREAS.into() }, &[]);
                    k.bals(TREAS).iter().zip(&b).map(|(a, b)| a - b).collect::<Vec<_>>()
                });
                for t in 0..NT {
                    need[t] += st[t];
                }
                let have = k.bals(&k.inc);
                for t in 0..NT {
                    let stake = if t == LP0 { self.m.pools[0].total } else { 0 };
                    ensure!(
                        have[t] >= need[t].saturating_add(stake),
                        "op {}: the contract holds {} of {} but owes {} in rewards and {stake} in stakes",
                        self.n, have[t], info_str(&k.infos[t]), need[t]
                    );
                }
                for p in 1..3 {
                    let have = c.balance(&k.inc, &k.lp(p));
                    ensure!(have == self.m.pools[p].total, "op {}: pool {p}: {have} LP held, {} staked", self.n, self.m.pools[p].total);
                }
                for p in 0..3 {
                    for u in 0..4 {
                        let d: Uint128 = c.query(&k.inc, &QueryMsg::Deposit { lp_token: k.lp(p), user: USERS[u].into() })?;
                        ensure!(d.u128() == self.m.pools[p].stake[u], "op {}: {} has {d} staked in pool {p}, expected {}", self.n, USERS[u], self.m.pools[p].stake[u]);
                    }
                }
                // somebody leaves with everything
                let j = self.n % 12;
                let (p, u) = (j % 3, j / 3);
                let s = self.m.pools[p].stake[u];
                if s > 0 {
                    let r = c.dry(|| k.exec(USERS[u], &ExecuteMsg::Withdraw { lp_token: k.lp(p), amount: Uint128::new(s) }, &[]).map(|_| ()));
                    ensure!(r.is_ok(), "op {}: {} cannot unstake {s}: {r:?}", self.n, USERS[u]);
                    self.o.tag("full exit tried");
                    self.o.nontrivial = true;
                }
            }
            Which::Accrual => {
                for p in 0..3 {
                    for u in 0..4 {
                        if !self.m.pools[p].pos[u] {
                            continue;
                        }
                        let got = match k.pending(p, u) {
                            Ok(g) => g,
                            Err(e) => viol!("op {}: pending rewards of {} in pool {p}: {e}", self.n, USERS[u]),
                        };
                        let mut lo = [0u128; NT];
                        let mut hi = [0u128; NT];
                        for (t, l, h) in self.m.owed(p, u) {
                            let t = if t == NT { ASTRO } else { t };
                            lo[t] += l;
                            hi[t] += h;
                        }
                        for t in 0..NT {
                            let g = got.get(&t).copied().unwrap_or(0);
                            ensure!(
                                self.m.murky.contains(&t) || (lo[t] <= g && g <= hi[t]),
                                "op {}: {} is told {g} of {} in pool {p}, earned between {} and {}",
                                self.n, USERS[u], info_str(&k.infos[t]), lo[t], hi[t]
                            );
                        }
                    }
                }
            }
            Which::Eligible => {
                let act: Vec<(String, Uint128)> = c.query(&k.inc, &QueryMsg::ActivePools {})?;
                let mut a: Vec<_> = act.iter().map(|x| (x.0.clone(), x.1.u128())).collect();
                let mut b: Vec<_> = self.m.active.iter().map(|x| (k.lp(x.0), x.1)).collect();
                a.sort();
                b.sort();
                ensure!(a == b, "op {}: active pools are {a:?}, expected {b:?}", self.n);
                let mut sum = Decimal256::zero();
                for p in 0..3 {
                    if !self.m.pools[p].known {
                        continue;
                    }
                    let infos: Vec<RewardInfo> = c.query(&k.inc, &QueryMsg::RewardInfo { lp_token: k.lp(p) })?;
                    let rps = infos.iter().find(|r| !r.reward.is_external()).map(|r| r.rps).unwrap_or_default();
                    let (num, den) = self.m.rate(p);
                    ensure!(rps == Decimal256::from_ratio(num, den), "op {}: pool {p} emits {rps} per second, expected {num}/{den}", self.n);
                    sum += rps;
                    let mut ext: Vec<usize> = infos
                        .iter()
                        .filter(|r| r.reward.is_external())
                        .filter_map(|r| k.infos.iter().position(|i| i == r.reward.asset_info()))
                        .collect();
                    ext.sort();
                    let want: Vec<usize> = self.m.pools[p].ext.keys().copied().collect();
                    ensure!(ext == want, "op {}: pool {p} pays {ext:?}, expected {want:?}", self.n);
                    for r in infos.iter().filter(|r| r.reward.is_external()) {
                        let t = k.infos.iter().position(|i| i == r.reward.asset_info()).unwrap();
                        let now = c.time();
                        let f = self.m.pools[p].ext[&t]
                            .s
                            .iter()
                            .filter(|s| s.2 > now)
                            .fold(Decimal256::zero(), |x, s| x + Decimal256::from_ratio(s.0, s.2 - s.1));
                        ensure!(r.rps == f, "op {}: pool {p} pays {} per second of {}, scheduled {f}", self.n, r.rps, info_str(&k.infos[t]));
                        let fee: bool = c.query(&k.inc, &QueryMsg::IsFeeExpected { lp_token: k.lp(p), reward: info_str(&k.infos[t]) })?;
                        ensure!(!fee, "op {}: a fee is announced for a running reward", self.n);
                    }
                }
                ensure!(sum <= Decimal256::from_ratio(self.m.aps, 1u8), "op {}: {sum} per second emitted, configured {}", self.n, self.m.aps);
            }
            Which::Lists => self.lists()?,
        }
        Ok(Out::Go)
    }
}
fn pool_toks(p: usize) -> [usize; 2] {
    [[0, 1], [0, 2], [1, 2]][p]
}

fn run(case: &ICase, which: Which, o: &mut Obs) -> V {
    let k = build(case)?;
    let now = k.w.c.time();
    let m = Model {
        pools: vec![
            PoolM { registered: true, last: now, acc: vec![vec![Acc::default(); NT + 1]; 4], ..Default::default() };
            3
        ],
        fee: case.fee.map(|f| (f.0 as usize, f.1 as u128 + 1)),
        ..Default::default()
    };
    let mut r = Run { k: &k, m, which, o, n: 0 };
    for (n, op) in case.ops.iter().enumerate() {
        r.n = n;
        if let Out::Stop = r.op(op)? {
            return Ok(());
        }
        r.after()?;
    }
    // everybody leaves, once right away and once after everything has ended
    r.n = case.ops.len();
    let end = r.m.pools.iter().flat_map(|p| p.ext.values()).flat_map(|e| e.s.iter().map(|s| s.2)).max();
    let c = &k.w.c;
    if let Some(e) = end {
        if e > c.time() {
            c.advance(1, e - c.time() + (case.off % 3) as u64);
        }
    }
    r.m.advance(c.time());
    for p in 0..3 {
        for u in 0..4 {
            let s = r.m.pools[p].stake[(u + p) % 4];
            if s > 0 && r.withdraw(p, (u + p) % 4, s)?.is_none() {
                return Ok(());
            }
        }
    }
    Ok(())
}
fn c19(c: &ICase, o: &mut Obs) -> V {
    run(c, Which::Solvency, o)
}
fn c20(c: &ICase, o: &mut Obs) -> V {
    run(c, Which::Accrual, o)
}
fn c41(c: &ICase, o: &mut Obs) -> V {
    run(c, Which::Lists, o)
}
fn c21(c: &ICase, o: &mut Obs) -> V {
    run(c, Which::Eligible, o)
}

fn ops(deep: bool, w: [u32; 3]) -> BoxedStrategy<ICase> {
    let [user, inc, adm] = w;
    let part = || prop_oneof![2 => Just(1_000_000u32), 1 => 1u32..1_000_000, 1 => 1u32..1000, 1 => Just(500_000)];
    let by = || prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
    let pl = || prop_oneof![5 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)];
    let us = || prop_oneof![3 => Just(0u8), 3 => Just(1u8), 1 => 0u8..4];
    let one = (
        prop_oneof![12 => pl(), 1 => Just(3u8)],
        prop_oneof![6 => Just(3u8), 4 => Just(4u8), 6 => 0u8..7, 1 => Just(7u8), 1 => Just(8u8)],
        prop_oneof![6 => gen::mag(0, 14).prop_map(RAmt::Rate), 1 => (-2i8..2).prop_map(RAmt::Edge)],
        prop_oneof![8 => 1u8..4, 3 => 4u8..26, 1 => Just(25u8), 1 => prop_oneof![Just(0u8), Just(26u8), any::<u8>()]],
    )
        .prop_map(|(p, tok, amt, weeks)| Inc { p, tok, amt, weeks });
    let mis = prop_oneof![8 => Just(0u8), 1 => any::<u8>()];
    let fee = || prop::option::of((0u8..2, 0u32..1_000_000));
    let toks = || prop_oneof![4 => prop::collection::vec(0u8..3, 1..3), 1 => prop::collection::vec(0u8..9, 0..4)];
    let op = prop_oneof![
        4 * user => (prop_oneof![20 => pl(), 1 => Just(3u8)], us(), part(), prop::option::weighted(0.2, 0u8..4)).prop_map(|(p, u, part, to)| IOp::Deposit { p, u, part, to }),
        (user + 1) / 2 => (pl(), us(), gen::mag(3, 20), prop::option::of(0u8..4)).prop_map(|(p, u, amt, to)| IOp::Auto { p, u, amt, to }),
        3 * user => (pl(), us(), part(), prop::bool::weighted(0.08)).prop_map(|(p, u, part, over)| IOp::Withdraw { p, u, part, over }),
        3 * user => (us(), prop_oneof![Just(1u8), Just(2), Just(3), 0u8..8], prop::bool::weighted(0.05)).prop_map(|(u, pools, dup)| IOp::Claim { u, pools, dup }),
        3 * inc => (0u8..4, prop_oneof![4 => prop::collection::vec(one.clone(), 1), 2 => prop::collection::vec(one, 1..5)], mis).prop_map(|(u, what, mis)| IOp::Incent { u, what, mis }),
        2 * inc => (by(), pl(), any::<u8>(), prop::bool::weighted(0.35)).prop_map(|(by, p, tok, bypass)| IOp::Remove { by, p, tok, bypass }),
        inc => (by(), prop::option::of(0u8..4)).prop_map(|(by, limit)| IOp::Orphans { by, limit }),
        2 * adm => (by(), prop::collection::vec((prop_oneof![20 => 0u8..3, 1 => Just(3u8)], prop_oneof![9 => 1u32..1000, 1 => Just(0u32)]), 0..4)).prop_map(|(by, pools)| IOp::Setup { by, pools }),
        2 * adm => (by(), prop_oneof![2 => Just(0u64), 5 => gen::mag(0, 15).prop_map(|x| x as u64)]).prop_map(|(by, aps)| IOp::Rate { by, aps }),
        adm => (prop_oneof![Just(0u8), Just(2u8), 0u8..4], toks(), prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(0u8..9, 1..3)]).prop_map(|(by, add, remove)| IOp::Block { by, add, remove }),
        adm => (prop_oneof![Just(0u8), Just(2u8)], Just(vec![]), prop::collection::vec(0u8..3, 1..3)).prop_map(|(by, add, remove)| IOp::Block { by, add, remove }),
        1 => pl().prop_map(|p| IOp::Deregister { p }),
        1 => (0u8..2, any::<bool>()).prop_map(|(kind, on)| IOp::NoGen { kind, on }),
        1 => Just(IOp::SweepBlocked),
        1 => fee().prop_map(IOp::Fee),
        1 => (0u8..4).prop_map(|tok| IOp::Refuse { tok }),
        1 => (pl(), 0u8..4).prop_map(|(p, by)| IOp::FakeDeactivate { p, by }),
        4 => prop_oneof![3 => 1u32..1000, 3 => 1000u32..1_000_000, 2 => 1_000_000u32..20_000_000].prop_map(|secs| IOp::Gap { secs }),
        3 => (pl(), any::<u8>(), -1i8..2).prop_map(|(p, k, d)| IOp::Edge { p, k, d }),
    ];
    (
        [0u8..22, 0u8..22, 0u8..22, 0u8..22],
        fee(),
        prop_oneof![Just(0u32), Just(WEEK as u32 - 1), 0u32..WEEK as u32],
        prop::collection::vec(op, 3..if deep { 60 } else { 28 }),
        0u8..8,
    )
        .prop_map(|(lp_exp, fee, off, mut ops, pre)| {
            // mostly start with something staked and something to earn
            let inc = |p, tok, weeks| IOp::Incent {
                u: 2,
                what: vec![Inc { p, tok, amt: RAmt::Rate(1_000_003), weeks }],
                mis: 0,
            };
            let mut first = vec![];
            if pre & 1 == 1 {
                first.push(IOp::Deposit { p: 0, u: 0, part: 700_000, to: None });
                first.push(IOp::Deposit { p: 0, u: 1, part: 900_000, to: None });
            }
            if pre & 2 == 2 {
                first.push(inc(0, 3, 2));
                first.push(inc(0, 4, 1));
                first.push(inc(0, 3, 4));
            }
            if pre & 4 == 4 {
                first.push(IOp::Rate { by: 0, aps: 1_000_000_007 });
                first.push(IOp::Setup { by: 0, pools: vec![(0, 3), (1, 5), (2, 1)] });
            }
            ops.splice(0..0, first);
            ICase { lp_exp, fee, off, ops }
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C19",
            rule: "a user's full exit was tried at some point of the history, or a reward schedule was funded",
            assumptions: &["The vesting contract that pays emissions is funded. Reward tokens are plain cw20 or native tokens (native ones may fail to transfer)."],
            parts: vec![Box::new(Gen { name: "history", quick: 12000, thorough: 60_000, strategy: |d| ops(d, [2, 2, 1]), run: c19 })],
        },
        Property {
            id: "C20",
            rule: "at least one reward was paid to a staker",
            assumptions: &["The vesting contract that pays emissions is funded. Amounts are compared up to the 18-decimal resolution of the reward per staked unit, plus one unit per separately rounded piece."],
            parts: vec![Box::new(Gen { name: "history", quick: 12000, thorough: 60_000, strategy: |d| ops(d, [2, 2, 1]), run: c20 })],
        },
        Property {
            id: "C41",
            rule: "several stakers and several pools were listed, or a reward's schedules took several pages",
            assumptions: &["Page sizes 1, 2, 3 and the default."],
            parts: vec![Box::new(Gen { name: "history", quick: 6000, thorough: 40_000, strategy: |d| ops(d, [2, 3, 2]), run: c41 })],
        },
        Property {
            id: "C21",
            rule: "active pools were set or a schedule was funded",
            assumptions: &["Allocation points and emission rates stay far below the point where their product overflows."],
            parts: vec![Box::new(Gen { name: "history", quick: 12000, thorough: 60_000, strategy: |d| ops(d, [1, 2, 3]), run: c21 })],
        },
    ]
}
