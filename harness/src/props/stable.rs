//! C03, C04: the stableswap pool.

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

use crate::engine::*;
use crate::exact::{self, b, ceil_to, fixed, stable, ten, B};
use crate::pools::*;
use crate::props::xyk::E18;
use crate::world::*;
use crate::{ensure, viol};

fn d_of(w: &World, p: &Pool, amp: u64) -> B {
    let r = w.reserves(p);
    stable::d(amp, fixed(r[0], p.decs[0]), fixed(r[1], p.decs[1]))
}

const UNIT: u32 = 26;

/// resolution of the contract's solver (it stops at steps below 1e-6 tokens), in share units
fn newton(s: u128, d: B, gp: u8) -> u128 {
    let e = b(s) * ten(UNIT - 6) * b(2) / d.max(b(1));
    e.as_u128() + 1 + 10u128.pow(gp.saturating_sub(6) as u32)
}
/// how far a trade may be from the exact curve, in units of the asked asset
fn trade_tol(reserve: u128, dec: u8) -> u128 {
    2 + reserve / 1_000_000_000_000_000 + 2 * 10u128.pow(dec.saturating_sub(6) as u32) * u128::from(dec > 6)
}
/// within the range real pools are in: solver and decimals have to cope
fn normal(res: &[u128], d: B, p: &Pool) -> bool {
    let v: Vec<B> = (0..2).map(|i| fixed(res[i], p.decs[i])).collect();
    d >= ten(UNIT - 3) && d <= ten(UNIT + 15) && v[0] <= v[1] * b(10_000) && v[1] <= v[0] * b(10_000)
}

fn c03(h: &History, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    let mut fee = h.setup.total;
    let mut ops = vec![Op::Provide {
        u: 0,
        amts: (0..2).map(|i| Amt::Abs(tokens(h.first[i], p.decs[i]))).collect(),
        bal: false,
        to: None,
    }];
    ops.extend(h.ops.iter().cloned());
    let gp = p.decs[0].max(p.decs[1]);
    for (n, op) in ops.iter().enumerate() {
        let amp = amp_now(&w, &p)?;
        let res = w.reserves(&p);
        let s = w.lp_supply(&p);
        let before = snap(&w, &p.infos);
        let d0 = d_of(&w, &p, amp);
        let live = res.iter().all(|x| *x > 0);
        if live && normal(&res, d0, &p) {
            let q: cosmwasm_std::Uint128 = w.c.query(&p.addr, &astroport::pair::QueryMsg::QueryComputeD {})?;
            let (q, d) = (q.u128(), exact::floor_to(d0, gp));
            let tol = newton(d, d0, gp) + d / 1_000_000_000_000_000;
            ensure!(q.abs_diff(d) <= tol, "op {n}: the pool quotes an invariant of {q}, {res:?} (amp {amp}) have {d} (tolerance {tol})");
        }
        match op {
            Op::Provide { u, amts, bal, to } => {
                let dep = deposit_amounts(&w, &p, amts, *bal);
                let lp0: Vec<u128> = USERS.iter().map(|x| w.lp_bal(&p, x)).collect();
                if apply(&w, &p, op).is_err() {
                    o.tag("deposit refused");
                    continue;
                }
                let to_i = to.unwrap_or(*u) as usize % 4;
                let d1 = d_of(&w, &p, amp);
                let got = w.lp_bal(&p, USERS[to_i]) - lp0[to_i];
                let exp = before.after(&[(user(*u), &p.addr, 0, dep[0]), (user(*u), &p.addr, 1, dep[1])]);
                if let Some(x) = exp.diff(&snap(&w, &p.infos)) {
                    viol!("op {n}: deposit {dep:?}: {x}");
                }
                let (want, locked) = if s == 0 {
                    ((exact::floor_to(d1, gp)).saturating_sub(1000), 1000)
                } else {
                    let m = b(s) * (d1 - d0) / d0;
                    (m.as_u128(), 0)
                };
                ensure!(
                    w.lp_supply(&p) == s + got + locked,
                    "op {n}: deposit minted {got}, supply {s} -> {}",
                    w.lp_supply(&p)
                );
                o.tag(if s == 0 { "first deposit" } else { "later deposit" });
                if !(if s == 0 { normal(&w.reserves(&p), d1, &p) } else { normal(&res, d0, &p) }) {
                    o.tag("beyond solver range");
                    continue;
                }
                let tol = 2 + want / 1_000_000_000_000_000 + newton(s + want, if s == 0 { d1 } else { d0 }, gp);
                ensure!(
                    got.abs_diff(want) <= tol,
                    "op {n}: deposit {dep:?} into {res:?}/{s} (amp {amp}, decimals {:?}) minted {got}, the invariant grew by {want} shares (tolerance {tol})",
                    p.decs
                );
                if s > 0 && live {
                    // out again at once: the pool is left with at least the invariant it had
                    let left = w.c.dry(|| {
                        w.withdraw(&p, USERS[to_i], got, vec![], None)
                            .map(|_| (w.reserves(&p), w.lp_supply(&p)))
                    });
                    if let Ok((r1, s1)) = left {
                        ensure!(s1 == s, "op {n}: supply {s} -> {s1} after in and out");
                        let t = |i: usize| b(r1[i] + 2 + r1[i] / 1_000_000_000_000_000 + mul_div(r1[i], tol, s));
                        let dd = stable::d(amp, t(0) * ten(26 - p.decs[0] as u32), t(1) * ten(26 - p.decs[1] as u32));
                        ensure!(dd >= d0, "op {n}: deposit {dep:?} into {res:?}/{s} and withdrawal left {r1:?}");
                        o.tag("in and out");
                    }
                }
                o.nontrivial |= s > 0;
            }
            Op::Swap { u, o: off, a, amt, to } => {
                let (off, ask) = dirs(&p, *off, *a);
                let dx = amt.of(res[off]);
                let r = apply(&w, &p, op);
                if let Err(e) = r {
                    o.tag("swap refused");
                    // (the price observation is a decimal of raw amounts: 18 against 0 decimals may not fit)
                    if normal(&res, d0, &p) && dx > 0 && p.decs[0].abs_diff(p.decs[1]) <= 12 {
                        let y1 = stable::y(amp, fixed(res[off] + dx, p.decs[off]), d0);
                        let out = fixed(res[ask], p.decs[ask]).saturating_sub(y1);
                        let offer = fixed(dx, p.decs[off]);
                        // the 1:1 rate is lost by clearly less than half, and both sides are above the unit
                        let fair = out * b(10) >= offer * b(6) && offer <= fixed(res[off], p.decs[off]) * b(10)
                            && exact::floor_to(out, p.decs[ask]) > 10 * trade_tol(res[ask], p.decs[ask]) && exact::floor_to(offer, p.decs[ask]) > 10;
                        ensure!(!fair, "op {n}: swap of {dx} of asset {off} against {res:?} (amp {amp}) refused: {e}");
                    }
                    continue;
                }
                ensure!(live && dx > 0, "op {n}: swap of {dx} against {res:?} succeeded");
                if !normal(&res, d0, &p) {
                    o.tag("beyond solver range");
                    continue;
                }
                let y1 = stable::y(amp, fixed(res[off] + dx, p.decs[off]), d0);
                let y1 = ceil_to(y1, p.decs[ask]);
                let exact = res[ask].saturating_sub(y1);
                let after = snap(&w, &p.infos);
                let rec = opt_user(to).unwrap_or_else(|| user(*u).into());
                let k = after.who.iter().position(|x| *x == rec).unwrap();
                let net = after.bal[k][ask] - before.bal[k][ask];
                let f = |g: u128| g - mul_div(g, fee as u128, 10_000);
                let tol = trade_tol(res[ask], p.decs[ask]);
                let (lo, hi) = (f(exact.saturating_sub(tol)), f(exact + tol).max(f(exact)));
                ensure!(
                    (lo..=hi).contains(&net),
                    "op {n}: swap of {dx} of asset {off} against {res:?} (amp {amp}, decimals {:?}, fee {fee}) paid {net}, the curve allows {} (tolerance {tol})",
                    p.decs,
                    f(exact)
                );
                o.tag("swap");
                o.nontrivial = true;
            }
            Op::Withdraw { u, part } => {
                let h = holder(&w, &p, *u);
                let have = w.lp_bal(&p, h);
                let x = lp_part(have, *part);
                let r = apply(&w, &p, op);
                let due: Vec<u128> = res.iter().map(|r| if s > 0 { mul_div(*r, x, s) } else { 0 }).collect();
                match r {
                    Ok(_) => {
                        let after = snap(&w, &p.infos);
                        let k = USERS.iter().position(|y| *y == h).unwrap();
                        let mut moves = vec![];
                        for i in 0..2 {
                            let got = after.bal[k][i].saturating_sub(before.bal[k][i]);
                            let lo = due[i].saturating_sub(res[i] / E18 + 1);
                            ensure!((lo..=due[i]).contains(&got), "op {n}: withdrawing {x} of {s} from {} paid {got}", res[i]);
                            moves.push((p.addr.as_str(), h, i, got));
                        }
                        if let Some(d) = before.after(&moves).diff(&after) {
                            viol!("op {n}: withdrawal: {d}");
                        }
                        ensure!(w.lp_supply(&p) == s - x && w.lp_bal(&p, h) == have - x, "op {n}: withdrawn shares were not burned");
                        o.tag("withdrawal");
                    }
                    Err(e) => {
                        o.tag("withdrawal refused");
                        let both = (0..2).all(|i| due[i] > res[i] / E18 + 1);
                        ensure!(
                            !(x <= have && both && normal(&res, d0, &p)),
                            "op {n}: withdrawal of {x} of {s} from {res:?} refused: {e}"
                        );
                    }
                }
            }
            _ => {
                let r = apply(&w, &p, op);
                if let (Op::Fees { total, .. }, Ok(_)) = (op, &r) {
                    fee = *total;
                }
            }
        }
    }
    Ok(())
}

fn mix() -> OpMix {
    OpMix {
        amp: 1,
        gap: 2,
        ..Default::default()
    }
}

fn s03(deep: bool) -> BoxedStrategy<History> {
    prop_oneof![
        5 => history(setup(Kind::Stable), first_tokens(6, 17, 2), mix, 1..if deep { 30 } else { 12 }),
        1 => history(setup(Kind::Stable), first_tokens(3, 22, 4), mix, 1..10),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------ C04

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum AmpOp {
    /// by `u` (0: factory owner, 1: pool owner, others: strangers); target is absolute, or current * `0.1`
    Start { u: u8, abs: Option<u64>, milli: u32, secs: i64 },
    Stop { u: u8 },
    Wait { secs: u32 },
    /// to this many seconds around the end of the ramp (or of the day after the last change)
    Around { end: bool, d: i8 },
    /// the pool's owner hands over to this caller
    Owner { u: u8 },
    Trade { amt: Amt, o: u8 },
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct AmpCase {
    amp: u64,
    own: bool,
    ops: Vec<AmpOp>,
}

const CALLERS: [&str; 4] = [OWNER, "wasm1poolowner", "wasm1alice", "wasm1bobby"];
const DAY: u64 = 86_400;

fn c04(h: &AmpCase, o: &mut Obs) -> V {
    use astroport::pair::*;
    let w = World::new(&[], true)?;
    let infos = [w.tok(&Tok { cw20: false, dec: 6 })?, w.tok(&Tok { cw20: false, dec: 6 })?];
    let p = match w.create(
        Kind::Stable,
        &infos,
        &[6, 6],
        Some(&StablePoolParams {
            amp: h.amp,
            owner: h.own.then(|| CALLERS[1].to_string()),
        }),
    ) {
        Ok(p) => {
            ensure!((1..=1_000_000).contains(&h.amp), "pool created with amplification {}", h.amp);
            p
        }
        Err(e) => {
            ensure!(!(1..=1_000_000).contains(&h.amp), "amplification {} refused: {e}", h.amp);
            o.tag("bad start value");
            return Ok(());
        }
    };
    w.provide(&p, USERS[0], &[3_000_000_000_000, 1_000_000_000_000], &ProvideOpts::default())?;
    let mut owner = if h.own { 1 } else { 0 };
    // model: value at t0, value at t1
    let (mut a0, mut a1, mut t0, mut t1) = (h.amp * 100, h.amp * 100, w.c.time(), w.c.time());
    let now_amp = |a0: u64, a1: u64, t0: u64, t1: u64, t: u64| -> u64 {
        if t >= t1 {
            return a1;
        }
        let (el, len) = ((t - t0) as u128, (t1 - t0) as u128);
        if a1 > a0 {
            a0 + ((a1 - a0) as u128 * el / len) as u64
        } else {
            a0 - ((a0 - a1) as u128 * el / len) as u64
        }
    };
    for (n, op) in h.ops.iter().enumerate() {
        let t = w.c.time();
        let cur = now_amp(a0, a1, t0, t1, t);
        match op {
            AmpOp::Wait { secs } => w.c.advance(1, *secs as u64),
            AmpOp::Around { end, d } => {
                let x = if *end { t1 } else { t0 + DAY };
                let x = x.saturating_add_signed(*d as i64);
                if x > t {
                    w.c.advance(1, x - t);
                }
            }
            AmpOp::Owner { u } => {
                // only when the pool has its own owner does it have a handover of its own
                if owner == 0 && !h.own {
                    continue;
                }
                let new = *u as usize % 4;
                let r = w
                    .c
                    .exec(CALLERS[owner], &p.addr, &ExecuteMsg::ProposeNewOwner { owner: CALLERS[new].into(), expires_in: 100 }, &[])
                    .and_then(|_| w.c.exec(CALLERS[new], &p.addr, &ExecuteMsg::ClaimOwnership {}, &[]));
                if r.is_ok() {
                    owner = new;
                }
            }
            AmpOp::Trade { amt, o: off } => {
                let x = amt.of(1_000_000_000_000);
                let _ = w.swap(&p, USERS[1], *off as usize % 2, 1 - *off as usize % 2, x, &SwapOpts::loose());
            }
            AmpOp::Stop { u } => {
                let u = *u as usize % 4;
                let r = w.update_pool(&p, CALLERS[u], &StablePoolUpdateParams::StopChangingAmp {});
                ensure!(r.is_ok() == (u == owner), "op {n}: stop by {} (owner {}): {r:?}", CALLERS[u], CALLERS[owner]);
                if r.is_ok() {
                    (a0, a1, t0, t1) = (cur, cur, t, t);
                    o.tag("stopped");
                }
            }
            AmpOp::Start { u, abs, milli, secs } => {
                let u = *u as usize % 4;
                let next = abs.unwrap_or((cur as u128 * *milli as u128 / 100_000) as u64);
                let end = t.saturating_add_signed(*secs);
                let r = w.update_pool(
                    &p,
                    CALLERS[u],
                    &StablePoolUpdateParams::StartChangingAmp { next_amp: next, next_amp_time: end },
                );
                let bad = if u != owner {
                    Some("caller")
                } else if !(1..=1_000_000).contains(&next) {
                    Some("range")
                } else if next as u128 * 1000 < cur as u128 || next as u128 * 100 > cur as u128 * 10 {
                    Some("factor")
                } else if t < t0 + DAY {
                    Some("too soon")
                } else if end < t + DAY {
                    Some("too fast")
                } else {
                    None
                };
                match (bad, &r) {
                    (None, Ok(_)) => {
                        (a0, a1, t0, t1) = (cur, next * 100, t, end);
                        o.tag("ramp started");
                        o.nontrivial = true;
                    }
                    (Some(b), Err(_)) => o.tag(format!("start refused: {b}")),
                    (None, Err(e)) => viol!("op {n}: change of {cur} to {next}00 by {end} at {t} (last change {t0}) refused: {e}"),
                    (Some(b), Ok(_)) => viol!("op {n}: change of {cur} to {next}00 by {end} at {t} (last change {t0}) by {} accepted despite {b}", CALLERS[u]),
                }
            }
        }
        let t = w.c.time();
        let want = now_amp(a0, a1, t0, t1, t);
        let got = amp_now(&w, &p)?;
        ensure!(got == want, "op {n}: amplification {got} at {t}, the ramp {a0}@{t0} -> {a1}@{t1} gives {want}");
        if t > t0 && t < t1 {
            o.tag("inside a ramp");
        }
        // and it is the one the pool computes with
        let d: cosmwasm_std::Uint128 = w.c.query(&p.addr, &QueryMsg::QueryComputeD {})?;
        let res = w.reserves(&p);
        let dd = exact::floor_to(d_of(&w, &p, want), 6);
        ensure!(d.u128().abs_diff(dd) <= 2, "op {n}: D {d} with amplification {want}, exactly {dd}");
        let dx = 1_000_000_000;
        let q = w.sim(&p, 0, 1, dx)?;
        let y = ceil_to(stable::y(want, fixed(res[0] + dx, 6), stable::d(want, fixed(res[0], 6), fixed(res[1], 6))), 6);
        let gross = (q.return_amount + q.commission_amount).u128();
        ensure!(
            gross.abs_diff(res[1] - y) <= 3,
            "op {n}: a trade is quoted at {gross}, the curve with amplification {want} gives {}",
            res[1] - y
        );
    }
    Ok(())
}

fn s04(deep: bool) -> BoxedStrategy<AmpCase> {
    let op = prop_oneof![
        5 => (prop_oneof![6 => Just(9u8), 1 => 0u8..4],
              prop_oneof![6 => Just(None), 1 => prop_oneof![Just(0u64), Just(1), Just(1_000_000), Just(1_000_001), Just(u64::MAX), 0u64..2000].prop_map(Some)],
              prop_oneof![3 => 100u32..10_000, 1 => 90u32..110, 1 => 9_900u32..10_100, 1 => 50u32..12_000],
              prop_oneof![3 => 86_400i64..2_000_000, 1 => 86_395i64..86_405, 1 => -1000i64..86_400])
            .prop_map(|(u, abs, milli, secs)| AmpOp::Start { u, abs, milli, secs }),
        1 => prop_oneof![3 => Just(9u8), 1 => 0u8..4].prop_map(|u| AmpOp::Stop { u }),
        4 => prop_oneof![0u32..100, 1000u32..400_000].prop_map(|secs| AmpOp::Wait { secs }),
        3 => (any::<bool>(), -2i8..3).prop_map(|(end, d)| AmpOp::Around { end, d }),
        1 => (0u8..4).prop_map(|u| AmpOp::Owner { u }),
        1 => (rel(0), 0u8..2).prop_map(|(amt, o)| AmpOp::Trade { amt, o }),
    ];
    (
        prop_oneof![6 => 1u64..5000, 1 => Just(1), 1 => Just(1_000_000), 1 => 1u64..=1_000_000, 1 => prop_oneof![Just(0u64), Just(1_000_001)]],
        any::<bool>(),
        prop::collection::vec(op, 1..if deep { 60 } else { 25 }),
    )
        .prop_map(|(amp, own, mut ops)| {
            // 9 stands for whoever owns the pool at first
            let ow = u8::from(own);
            for x in &mut ops {
                if let AmpOp::Start { u, .. } | AmpOp::Stop { u } = x {
                    if *u == 9 {
                        *u = ow
                    }
                }
            }
            AmpCase { amp, own, ops }
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C03",
            rule: "A case is a generated pool (precisions, amplification, fees) with a history of deposits, trades, withdrawals, donations and amplification ramps; non-trivial when a later deposit or a trade executed within the solver's range and was compared with the exactly solved curve.",
            assumptions: &[
                "the simulated chain executes messages, replies and bank transfers as CosmWasm does",
                "exact values are compared only for invariants of 0.001 to 1e15 tokens and reserve ratios up to 10000; beyond, only conservation of funds is checked",
            ],
            parts: vec![Box::new(Gen {
                name: "histories",
                quick: 20_000,
                thorough: 600_000,
                strategy: s03,
                run: c03,
            })],
        },
        Property {
            id: "C04",
            rule: "A case is a start value, whether the pool has its own owner, and a sequence of starts, stops, handovers, trades and time steps by all callers; non-trivial when a ramp was accepted and followed.",
            assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
            parts: vec![Box::new(Gen {
                name: "ramps",
                quick: 20_000,
                thorough: 600_000,
                strategy: s04,
                run: c04,
            })],
        },
    ]
}
