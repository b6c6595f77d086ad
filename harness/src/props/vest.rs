//! C22: vesting schedules.

use astroport::astro_converter;
use astroport::vesting::*;
use cosmwasm_std::{coin, Uint128};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::lp_part;
use crate::world::*;
use crate::{ensure, viol};

/// start relative to now, start amount, end: (seconds after the start, additional amount)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sch {
    start: i32,
    amt: u128,
    end: Option<(i32, i128)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum VOp {
    /// `off`: what is attached differs from the sum by this much
    Register { by: u8, acc: Vec<(u8, Vec<Sch>)>, off: i8, wrong: bool },
    Claim { u: u8, part: Option<u32>, over: bool, to: Option<u8> },
    Withdraw { by: u8, acc: u8, part: u32, to: Option<u8> },
    Donate { u: u8, amt: u128 },
    Gap { secs: u32 },
    /// jump to the end (or start) of a running schedule, plus -1, 0 or 1 seconds
    Edge { acc: u8, k: u8, end: bool, d: i8 },
    Migrate,
}

#[derive(Clone, Debug)]
struct M1 {
    t0: u64,
    a0: u128,
    end: Option<(u64, u128)>,
}
impl M1 {
    fn unlocked(&self, now: u64) -> u128 {
        match self.end {
            _ if now < self.t0 => 0,
            None => self.a0,
            Some((t1, a1)) if now >= t1 => a1,
            Some((t1, a1)) => self.a0 + mul_div(a1 - self.a0, (now - self.t0) as u128, (t1 - self.t0) as u128),
        }
    }
    fn total(&self) -> u128 {
        self.end.map(|e| e.1).unwrap_or(self.a0)
    }
}
#[derive(Clone, Debug, Default)]
struct Acc {
    s: Vec<M1>,
    released: u128,
}
impl Acc {
    fn avail(&self, now: u64) -> u128 {
        self.s.iter().map(|s| s.unlocked(now)).sum::<u128>() - self.released
    }
    fn left(&self) -> u128 {
        self.s.iter().map(|s| s.total()).sum::<u128>() - self.released
    }
}

fn run(case: &(bool, Vec<VOp>), o: &mut Obs) -> V {
    let (cw20, ops) = case;
    let w = World::new(&[], false)?;
    let c = &w.c;
    let mut info = if *cw20 {
        w.tok(&Tok { cw20: true, dec: 6 })?
    } else {
        native("ibc/oldastro")
    };
    let junk = w.tok(&Tok { cw20: *cw20, dec: 6 })?;
    for u in USERS.iter().chain([&OWNER]) {
        w.fund(&info, u, RICH)?;
        w.fund(&junk, u, RICH)?;
    }
    let code = c.store(codes::vesting().migrate(astroport_vesting::contract::migrate));
    let v = c.init(code, OWNER, &InstantiateMsg { owner: OWNER.into(), vesting_token: info.clone() }, &[], "vesting", Some(OWNER.into()))?;
    let conv = {
        use astro_token_converter::contract::*;
        c.store(Code::new("converter", instantiate, execute, query))
    };
    let conv = c.init(
        conv,
        OWNER,
        &astro_converter::InstantiateMsg {
            old_astro_asset_info: info.clone(),
            new_astro_denom: "factory/x/newastro".into(),
            outpost_burn_params: (!*cw20).then(|| astro_converter::OutpostBurnParams {
                terra_burn_addr: "terra1burn".into(),
                old_astro_transfer_channel: "channel-1".into(),
            }),
        },
        &[],
        "conv",
        None,
    )?;
    c.faucet(&conv, "factory/x/newastro", RICH * 10);
    let mut migrated = false;
    let mut m: Vec<Option<Acc>> = vec![None; 4];
    let mut extra = 0u128;
    for (n, op) in ops.iter().enumerate() {
        let now = c.time();
        let before = c.state();
        let bal: Vec<u128> = USERS.iter().chain([&OWNER]).map(|u| w.bal(&info, u)).collect();
        let mut want = bal.clone();
        let mut refused = false;
        match op {
            VOp::Register { by, acc, off, wrong } => {
                let who = if *by == 0 { OWNER } else { USERS[*by as usize % 4] };
                let mut sum = 0u128;
                let mut ok = who == OWNER && !*wrong;
                let mut model = m.clone();
                let mut accs = vec![];
                let mut limit = false;
                for (a, ss) in acc {
                    let a = *a as usize % 4;
                    let mut sch = vec![];
                    let mut mine = vec![];
                    for s in ss {
                        let t0 = (now as i64 + s.start as i64) as u64;
                        let end = s.end.map(|(d, x)| ((t0 as i64 + d as i64) as u64, (s.amt as i128 + x).max(0) as u128));
                        sum = sum.saturating_add(end.map(|e| e.1).unwrap_or(s.amt));
                        if let Some((t1, a1)) = end {
                            ok &= t0 < t1 && t1 > now && s.amt < a1;
                        }
                        let p = |time, amount| VestingSchedulePoint { time, amount: Uint128::new(amount) };
                        sch.push(VestingSchedule { start_point: p(t0, s.amt), end_point: end.map(|e| p(e.0, e.1)) });
                        mine.push(M1 { t0, a0: s.amt, end });
                    }
                    accs.push(VestingAccount { address: USERS[a].into(), schedules: sch });
                    let e = model[a].get_or_insert_with(Default::default);
                    // at most eight schedules per account; how many may be added at once is not specified
                    limit |= e.s.len() + mine.len() > 8;
                    mine.append(&mut e.s);
                    e.s = mine;
                }
                let pay = (sum as i128 + *off as i128).max(0) as u128;
                ok &= pay == sum && sum < RICH / 100;
                let msg = ExecuteMsg::RegisterVestingAccounts { vesting_accounts: accs.clone() };
                let use_info = if *wrong { &junk } else { &info };
                let r = if sum >= RICH / 100 {
                    Err("too rich".to_string())
                } else if let astroport::asset::AssetInfo::Token { contract_addr } = use_info {
                    c.cw20_send(who, contract_addr.as_str(), &v, pay, &Cw20HookMsg::RegisterVestingAccounts { vesting_accounts: accs })
                } else {
                    c.exec(who, &v, &msg, &if pay > 0 { vec![coin(pay, info_str(use_info))] } else { vec![] })
                };
                // a registration of nothing at all is not specified
                if ok && !((limit || sum == 0) && r.is_err()) {
                    ensure!(r.is_ok(), "op {n} at {now}: {msg:?} paid with {pay} refused: {}", r.unwrap_err());
                    m = model;
                    let k = if who == OWNER { 4 } else { *by as usize % 4 };
                    want[k] -= pay;
                    o.tag("registered");
                } else {
                    ensure!(r.is_err(), "op {n} at {now}: {who} registered {msg:?} with {pay} of {use_info}, sum {sum}");
                    refused = true;
                    o.tag("registration refused");
                }
            }
            VOp::Claim { u, part, over, to } => {
                let u = *u as usize % 4;
                let av = m[u].as_ref().map(|a| a.avail(now));
                let amount = part.map(|p| lp_part(av.unwrap_or(5), p) + u128::from(*over));
                let t = to.map(|t| t as usize % 4).unwrap_or(u);
                let r = c.exec(
                    USERS[u],
                    &v,
                    &ExecuteMsg::Claim { recipient: to.map(|_| USERS[t].into()), amount: amount.map(Uint128::new) },
                    &[],
                );
                match av {
                    Some(av) if amount.unwrap_or(av) <= av => {
                        let pay = amount.unwrap_or(av);
                        ensure!(r.is_ok(), "op {n} at {now}: claim of {amount:?} with {av} available: {}", r.unwrap_err());
                        m[u].as_mut().unwrap().released += pay;
                        want[t] += pay;
                        if pay > 0 {
                            o.tag("claimed");
                            o.nontrivial = true;
                        }
                    }
                    _ => {
                        ensure!(r.is_err(), "op {n} at {now}: claim of {amount:?} with {av:?} available succeeded");
                        refused = true;
                    }
                }
            }
            VOp::Withdraw { by, acc, part, to } => {
                let who = if *by == 0 { OWNER } else { USERS[*by as usize % 4] };
                let a = *acc as usize % 4;
                let live: Vec<usize> = m[a]
                    .as_ref()
                    .map(|x| (0..x.s.len()).filter(|i| x.s[*i].t0 <= now && x.s[*i].end.is_some_and(|e| now < e.0)).collect())
                    .unwrap_or_default();
                let left = match &live[..] {
                    [i] => {
                        let s = &m[a].as_ref().unwrap().s[*i];
                        s.total() - s.unlocked(now)
                    }
                    _ => 1000,
                };
                let amount = lp_part(left, *part);
                let t = to.map(|t| t as usize % 4).unwrap_or(if who == OWNER { 4 } else { *by as usize % 4 });
                let r = c.exec(
                    who,
                    &v,
                    &ExecuteMsg::WithdrawFromActiveSchedule {
                        account: USERS[a].into(),
                        recipient: to.map(|_| USERS[t].into()),
                        withdraw_amount: Uint128::new(amount),
                    },
                    &[],
                );
                if who == OWNER && live.len() == 1 && amount > 0 && amount < left {
                    ensure!(r.is_ok(), "op {n} at {now}: withdrawal of {amount}/{left} refused: {}", r.unwrap_err());
                    let x = m[a].as_mut().unwrap();
                    let s = &mut x.s[live[0]];
                    let un = s.unlocked(now);
                    let (t1, a1) = s.end.unwrap();
                    *s = M1 { t0: now, a0: un, end: Some((t1, a1 - amount)) };
                    want[t] += amount;
                    o.tag("early withdrawal");
                    o.nontrivial = true;
                } else {
                    ensure!(r.is_err(), "op {n} at {now}: {who} withdrew {amount} of {left} from {:?} ({} active)", m[a], live.len());
                    refused = true;
                    o.tag("withdrawal refused");
                }
            }
            VOp::Donate { u, amt } => {
                let u = *u as usize % 4;
                w.transfer(&info, USERS[u], &v, *amt)?;
                want[u] -= amt;
                extra += amt;
            }
            VOp::Gap { secs } => c.advance(1, *secs as u64),
            VOp::Edge { acc, k, end, d } => {
                if let Some(a) = &m[*acc as usize % 4] {
                    if !a.s.is_empty() {
                        let s = &a.s[*k as usize % a.s.len()];
                        let t = if *end { s.end.map(|e| e.0).unwrap_or(s.t0) } else { s.t0 };
                        let t = (t as i64 + *d as i64) as u64;
                        if t > now {
                            c.advance(1, t - now);
                            o.tag("schedule edge");
                        }
                    }
                }
            }
            VOp::Migrate => {
                let st = c.state();
                c.with_storage(&v, |s| cw2::set_contract_version(s, "astroport-vesting", "1.3.1")).map_err(|e| e.to_string())?;
                let held = w.bal(&info, &v);
                let r = c.migrate(OWNER, &v, code, &MigrateMsg { converter_contract: conv.clone() });
                if migrated || held == 0 {
                    ensure!(r.is_err(), "op {n}: migration with {held} held succeeded");
                    c.restore(&st);
                } else {
                    ensure!(r.is_ok(), "op {n}: migration refused: {}", r.unwrap_err());
                    migrated = true;
                    ensure!(w.bal(&info, &v) == 0, "op {n}: old tokens left behind");
                    info = native("factory/x/newastro");
                    for u in USERS.iter().chain([&OWNER]) {
                        c.faucet(u, "factory/x/newastro", RICH);
                    }
                    want = USERS.iter().chain([&OWNER]).map(|u| w.bal(&info, u)).collect();
                    o.tag("migrated to the new token");
                }
            }
        }
        if refused {
            ensure!(c.same_state(&before), "op {n} {op:?} was refused but changed: {}", c.diff(&before));
        }
        let now = c.time();
        let got: Vec<u128> = USERS.iter().chain([&OWNER]).map(|u| w.bal(&info, u)).collect();
        ensure!(got == want, "op {n} {op:?} at {now}: balances {got:?}, expected {want:?}");
        let left: u128 = m.iter().flatten().map(|a| a.left()).sum();
        let held = w.bal(&info, &v);
        ensure!(held == left + extra, "op {n} {op:?}: the contract holds {held}, registered and not released {left}, donated {extra}");
        let mut all = vec![];
        for (u, a) in m.iter().enumerate() {
            let q: R<Uint128> = c.query(&v, &QueryMsg::AvailableAmount { address: USERS[u].into() });
            match a {
                None => ensure!(q.is_err(), "op {n}: {} has {q:?} available without a schedule", USERS[u]),
                Some(a) => {
                    let want = a.avail(now);
                    ensure!(
                        q.as_ref().is_ok_and(|q| q.u128() == want),
                        "op {n} {op:?} at {now}: available {q:?}, expected {want} from {a:?}"
                    );
                    let r: VestingAccountResponse = c.query(&v, &QueryMsg::VestingAccount { address: USERS[u].into() })?;
                    let tot: u128 = r.info.schedules.iter().map(|s| s.end_point.unwrap_or(s.start_point).amount.u128()).sum();
                    ensure!(
                        r.info.released_amount.u128() == a.released && r.info.schedules.len() == a.s.len() && tot - a.released == a.left(),
                        "op {n} {op:?}: account reported as {r:?}, expected {a:?}"
                    );
                    all.push(USERS[u].to_string());
                }
            }
        }
        if n % 4 == 0 {
            for (asc, lim) in [(true, 1u32), (false, 1), (true, 3), (false, 30)] {
                let mut got: Vec<String> = vec![];
                loop {
                    let r: VestingAccountsResponse = c.query(
                        &v,
                        &QueryMsg::VestingAccounts {
                            start_after: got.last().cloned(),
                            limit: Some(lim),
                            order_by: Some(if asc { OrderBy::Asc } else { OrderBy::Desc }),
                        },
                    )?;
                    if r.vesting_accounts.is_empty() || got.len() > 8 {
                        break;
                    }
                    got.extend(r.vesting_accounts.iter().map(|a| a.address.to_string()));
                }
                if !asc {
                    got.reverse();
                }
                if got != all {
                    viol!("op {n}: listing {got:?} (asc {asc}, page {lim}), expected {all:?}");
                }
            }
        }
    }
    Ok(())
}

fn strategy(deep: bool) -> BoxedStrategy<(bool, Vec<VOp>)> {
    let when = || prop_oneof![Just(0i32), -5000i32..5000, -5i32..5, 100_000i32..10_000_000];
    let end = prop_oneof![
        2 => Just(None),
        8 => (1i32..100_000, prop_oneof![(1i128..1000), gen::mag(0, 20).prop_map(|x| x as i128)]).prop_map(Some),
        1 => (-5i32..5, -5i128..1000).prop_map(Some),
    ];
    let sch = (when(), prop_oneof![2 => Just(0u128), 3 => gen::amount(0, 20), 1 => 0u128..3], end).prop_map(|(start, amt, end)| Sch { start, amt, end });
    let accs = prop::collection::vec((0u8..4, prop::collection::vec(sch, 1..4)), 1..4);
    let by = || prop_oneof![8 => Just(0u8), 1 => 1u8..4];
    let part = || prop_oneof![Just(1_000_000u32), Just(999_999), 0u32..1_000_000, 0u32..100];
    let to = || prop::option::weighted(0.3, 0u8..4);
    let op = prop_oneof![
        4 => (by(), accs, prop_oneof![9 => Just(0i8), 1 => -2i8..3], prop::bool::weighted(0.05))
            .prop_map(|(by, acc, off, wrong)| VOp::Register { by, acc, off, wrong }),
        5 => (0u8..4, prop::option::of(part()), prop::bool::weighted(0.1), to()).prop_map(|(u, part, over, to)| VOp::Claim { u, part, over, to }),
        3 => (by(), 0u8..4, part(), to()).prop_map(|(by, acc, part, to)| VOp::Withdraw { by, acc, part, to }),
        1 => (0u8..4, gen::mag(0, 10)).prop_map(|(u, amt)| VOp::Donate { u, amt }),
        4 => gen::gap().prop_map(|secs| VOp::Gap { secs }),
        3 => (0u8..4, 0u8..8, any::<bool>(), -1i8..2).prop_map(|(acc, k, end, d)| VOp::Edge { acc, k, end, d }),
        1 => Just(VOp::Migrate),
    ];
    (any::<bool>(), prop::collection::vec(op, 1..if deep { 60 } else { 22 })).boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C22",
        rule: "a claim paid something or an early withdrawal took place",
        assumptions: &["the number of schedules an account may hold is only checked not to be exceeded silently"],
        parts: vec![Box::new(Gen { name: "histories", quick: 30_000, thorough: 1_000_000, strategy, run })],
    }]
}
