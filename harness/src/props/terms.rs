//! C10 (declared limits), C11 (quotes equal execution), C12 (only what was received): the same probes on every kind
//! of pool, at states reached by generated histories.

use astroport::asset::Asset;
use astroport::pair;
use cosmwasm_std::{Decimal, Decimal256, Uint128};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::exact::b as big;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case<P> {
    pub h: History,
    pub probes: Vec<P>,
}

/// the pool, its first deposit made
pub fn start(h: &History) -> R<(World, Pool)> {
    let (w, p) = h.setup.build()?;
    let first = match p.kind {
        Kind::Stable | Kind::Pcl => first_amounts(&h.setup, &p, &h.first),
        _ => h.first[..p.infos.len()].to_vec(),
    };
    w.provide(&p, USERS[0], &first, &ProvideOpts::default())?;
    Ok((w, p))
}

fn mix() -> OpMix {
    OpMix { donate: 1, fees: 1, share: 1, provide: 5, swap: 8, ..Default::default() }
}
fn mix_ramp() -> OpMix {
    OpMix { amp: 1, ..mix() }
}

pub fn history_of(kind: Kind, n: std::ops::Range<usize>) -> BoxedStrategy<History> {
    match kind {
        Kind::Stable => history(usual(kind), first_tokens(6, 15, 3), mix_ramp, n),
        Kind::Pcl => history(usual(kind), first_tokens(6, 15, 1), mix_ramp, n),
        Kind::Transmuter => history(usual(kind), first_any(3, 24), mix, n),
        _ => prop_oneof![
            4 => history(usual(kind), first_any(5, 20), mix, n.clone()),
            1 => history(usual(kind), first_any(2, 30), mix, n),
        ]
        .boxed(),
    }
}
fn case<P: std::fmt::Debug + Clone + 'static>(
    probe: fn() -> BoxedStrategy<P>,
    weights: [u32; 5],
    deep: bool,
) -> BoxedStrategy<Case<P>> {
    let n = if deep { 30 } else { 10 };
    let of = |k| {
        (history_of(k, 0..n), prop::collection::vec(probe(), n + 1)).prop_map(|(h, probes)| Case { h, probes }).boxed()
    };
    proptest::strategy::Union::new_weighted(KINDS.iter().zip(weights).filter(|x| x.1 > 0).map(|(k, w)| (w, of(*k))).collect::<Vec<_>>())
        .boxed()
}
struct At {
    n: usize,
    /// the pool has been in an extreme state (its profit measure may still remember)
    rough: bool,
    /// somebody has sent the pool assets since the last trade
    donated: bool,
    /// the curve of a concentrated pool has changed since it last measured its profit anew: what it lost by that (the
    /// same reserves make a smaller invariant when the amplification is lower) may be more than a trade earns
    ramped: bool,
}
impl At {
    fn extreme(&self, w: &World, p: &Pool, x: u128) -> bool {
        ((self.rough || self.ramped) && p.kind == Kind::Pcl) || extreme(w, p, x)
    }
}
/// run the history, calling `f` before every operation and at the end
fn walk<P>(c: &Case<P>, f: fn(&World, &Pool, &P, &At, &mut Obs) -> V, o: &mut Obs) -> V {
    let Ok((w, p)) = start(&c.h) else {
        o.tag("first deposit refused");
        return Ok(());
    };
    let mut at = At { n: 0, rough: false, donated: false, ramped: false };
    let mut until = 0;
    for n in 0..=c.h.ops.len() {
        at.n = n;
        at.rough |= extreme(&w, &p, 0);
        f(&w, &p, &c.probes[n % c.probes.len()], &at, o)?;
        if let Some(op) = c.h.ops.get(n) {
            let r = apply(&w, &p, op);
            match op {
                Op::Donate { .. } => at.donated = true,
                Op::Amp { .. } | Op::StopAmp if r.is_ok() => {
                    at.donated = true;
                    at.ramped = true;
                    if let Op::Amp { secs, .. } = op {
                        until = w.c.time() + *secs as u64;
                    }
                }
                Op::Withdraw { .. } if r.is_ok() && p.kind == Kind::Pcl => {
                    at.donated = false;
                    // (a ramp under way goes on changing the curve)
                    at.ramped &= w.c.time() < until;
                }
                _ => {}
            }
        }
    }
    Ok(())
}

/// accepts whatever the pool pays
pub fn any_price() -> SwapOpts {
    SwapOpts { belief: Some(Decimal::MAX), max_spread: Some(Decimal::percent(50)), to: None }
}
fn attr(r: &Resp, p: &Pool, key: &str) -> u128 {
    r.attr(&p.addr, key).and_then(|x| x.parse().ok()).unwrap_or(u128::MAX)
}
/// reserves and amounts at which the contracts may refuse because their arithmetic ends there: more than 2^100 units
/// meet 128-bit intermediate results, less than a thousandth of a whole token of a stableswap pool or 100 whole tokens of a
/// concentrated pool (or one side 1000 times the other) the resolution of the solvers (1e-5 tokens); 1e9 tokens of a
/// concentrated pool the room of its fixed-point numbers
fn extreme(w: &World, p: &Pool, x: u128) -> bool {
    let tiny = match p.kind {
        Kind::Stable => w.reserves(p).iter().zip(&p.decs).any(|(r, d)| *r < 1000 || *r < 10u128.pow(*d as u32) / 1000),
        Kind::Pcl => pcl_sizes(w, p).map(|s| !comfortable(s)).unwrap_or(true),
        _ => false,
    };
    // the price of one asset in units of the other does not fit 128 bits
    let r = w.reserves(p);
    let steep = p.kind != Kind::Transmuter && r.iter().max().unwrap() >> 60 > *r.iter().min().unwrap();
    tiny || steep || w.reserves(p).iter().any(|r| *r >= 1 << 100) || x >= 1 << 100
}

/// internal reserves a concentrated pool can compute with
fn comfortable(s: [f64; 2]) -> bool {
    s[0].min(s[1]) >= 100.0 && s[0].max(s[1]) <= (1e3 * s[0].min(s[1])).min(1e9)
}
/// the swap leaves that domain, or is too little to be told from a loss with the resolution of the concentrated solver
fn far(w: &World, p: &Pool, o: usize, x: u128, ret: u128) -> bool {
    if p.kind != Kind::Pcl {
        return false;
    }
    let Ok(s) = pcl_sizes(w, p) else { return true };
    let r = w.reserves(p);
    let mut t = s;
    t[o] *= 1.0 + x as f64 / r[o] as f64;
    t[1 - o] *= 1.0 - ret as f64 / r[1 - o] as f64;
    !comfortable(t) || t[o] - s[o] < 1e-2
}

struct Swapped {
    got: u128,
    ret: u128,
    spread: u128,
    commission: u128,
}
fn try_swap(w: &World, p: &Pool, o: usize, a: usize, x: u128, opts: &SwapOpts) -> R<Swapped> {
    let who = USERS[1];
    w.c.dry(|| {
        let before = w.bal(&p.infos[a], who);
        let r = w.swap(p, who, o, a, x, opts)?;
        Ok(Swapped {
            got: w.bal(&p.infos[a], who) - before,
            ret: attr(&r, p, "return_amount"),
            spread: attr(&r, p, "spread_amount"),
            commission: attr(&r, p, "commission_amount"),
        })
    })
}
fn try_provide(w: &World, p: &Pool, amts: &[u128], opts: &ProvideOpts) -> R<u128> {
    let who = USERS[1];
    w.c.dry(|| {
        let before = w.lp_bal(p, who);
        w.provide(p, who, amts, opts)?;
        Ok(w.lp_bal(p, who) - before)
    })
}
fn try_withdraw(w: &World, p: &Pool, who: &str, x: u128, min: Option<Vec<Asset>>) -> R<Vec<u128>> {
    w.c.dry(|| {
        let before: Vec<u128> = p.infos.iter().map(|i| w.bal(i, who)).collect();
        w.withdraw(p, who, x, vec![], min)?;
        Ok(p.infos.iter().zip(before).map(|(i, b)| w.bal(i, who) - b).collect())
    })
}

// ------------------------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Quote {
    Swap { o: u8, a: u8, amt: Amt },
    Rev { o: u8, a: u8, amt: Amt },
    Provide { amts: Vec<Amt>, bal: bool, slip: Option<u8>, rev: bool },
    Withdraw { u: u8, part: u32 },
}
fn quote() -> BoxedStrategy<Quote> {
    prop_oneof![
        4 => (0u8..5, 0u8..5, rel(1)).prop_map(|(o, a, amt)| Quote::Swap { o, a, amt }),
        3 => (0u8..5, 0u8..5, rel(0)).prop_map(|(o, a, amt)| Quote::Rev { o, a, amt }),
        3 => (prop::collection::vec(rel(1), 5), any::<bool>(), prop::option::of(0u8..60), any::<bool>())
            .prop_map(|(amts, bal, slip, rev)| Quote::Provide { amts, bal, slip, rev }),
        2 => (0u8..4, prop_oneof![Just(1_000_000u32), 0u32..=1_000_000, 0u32..100]).prop_map(|(u, part)| Quote::Withdraw { u, part }),
    ]
    .boxed()
}

fn c11(c: &Case<Quote>, o: &mut Obs) -> V {
    walk(c, c11_probe, o)
}
fn c11_probe(w: &World, p: &Pool, q: &Quote, at: &At, obs: &mut Obs) -> V {
    let (k, n) = (p.kind, at.n);
    let res = w.reserves(p);
    match q {
        Quote::Swap { o, a, amt } => {
            let (o, a) = dirs(p, *o, *a);
            let x = amt.of(res[o]);
            let sim = w.sim(p, o, a, x);
            let ex = try_swap(w, p, o, a, x, &any_price());
            match (&sim, &ex) {
                (Ok(s), Ok(e)) => {
                    let (r, sp, cm) = (s.return_amount.u128(), s.spread_amount.u128(), s.commission_amount.u128());
                    ensure!(
                        r == e.got && r == e.ret && sp == e.spread && cm == e.commission,
                        "{k:?} probe {n}: swap of {x} ({o}->{a}) at {res:?}: quoted {r} (spread {sp}, commission {cm}), paid {} (reported {}, spread {}, commission {})",
                        e.got, e.ret, e.spread, e.commission
                    );
                    obs.tag(format!("{k:?} swap"));
                    obs.nontrivial = true;
                }
                (Ok(s), Err(e)) => {
                    ensure!(
                        s.return_amount.is_zero() || at.extreme(w, p, x) || far(w, p, o, x, s.return_amount.u128()) || x >> 60 > s.return_amount.u128() || s.return_amount.u128() >> 60 > x,
                        "{k:?} probe {n}: swap of {x} ({o}->{a}) at {res:?}: quoted {}, refused: {e}",
                        s.return_amount
                    );
                    obs.tag(format!("{k:?} swap refused"));
                }
                (Err(s), Ok(e)) => {
                    ensure!(
                        at.extreme(w, p, x),
                        "{k:?} probe {n}: swap of {x} ({o}->{a}) at {res:?}: no quote ({s}), but it pays {}",
                        e.got
                    );
                }
                (Err(_), Err(_)) => obs.tag(format!("{k:?} neither quoted nor executed")),
            }
        }
        Quote::Rev { o, a, amt } => {
            let (o, a) = dirs(p, *o, *a);
            let y = amt.of(res[a]);
            if y == 0 {
                return Ok(());
            }
            match w.rev_sim(p, o, a, y) {
                Ok(s) => {
                    let x = s.offer_amount.u128();
                    // what the solvers (stableswap stops at steps of 1e-6 tokens, concentrated at 1e-5) and the
                    // inversion may round
                    let fuzz = |i: usize, v: u128| match k {
                        Kind::Transmuter => 0,
                        Kind::Stable => 2 + v / 100_000_000_000_000 + 10u128.pow(p.decs[i] as u32) / 500_000,
                        Kind::Pcl => 2 + v / 1_000_000_000 + 10u128.pow(p.decs[i] as u32) / 10_000_000,
                        _ => 2 + v / 100_000_000_000_000,
                    };
                    let (dx, dy) = (fuzz(o, x), fuzz(a, y));
                    if k == Kind::Transmuter && {
                        // rounding the offer up may buy more than the pool has
                        let unit = |i: usize| 10u128.pow(18 - p.decs[i] as u32);
                        mul_div(x, unit(o), unit(a)) > res[a]
                    } {
                        return Ok(());
                    }
                    if at.extreme(w, p, x) && matches!(k, Kind::Stable | Kind::Pcl) || (k == Kind::Pcl && y > res[a] / 2) {
                        return Ok(());
                    }
                    match try_swap(w, p, o, a, x + dx, &any_price()) {
                        Ok(e) => {
                            ensure!(
                                e.got + dy >= y,
                                "{k:?} probe {n}: {y} of asset {a} asked at {res:?} ({:?} decimals): offering the quoted {x} of asset {o} pays {}",
                                p.decs, e.got
                            );
                            // and it is not a waste (concentrated pools quote with the highest fee)
                            if k != Kind::Pcl && x > 10 * dx && dx > 0 {
                                if let Ok(e) = try_swap(w, p, o, a, x - dx, &any_price()) {
                                    ensure!(
                                        e.got <= y + dy,
                                        "{k:?} probe {n}: {y} of asset {a} asked at {res:?} ({:?} decimals): the quoted {x} of asset {o} is too much: {} pay {}",
                                        p.decs, x - dx, e.got
                                    );
                                }
                            }
                            if y > 10 * dy {
                                obs.tag(format!("{k:?} reverse"));
                                obs.nontrivial = true;
                            }
                        }
                        Err(e) => {
                            ensure!(
                                y < 10 * dy || at.extreme(w, p, x) || far(w, p, o, x, y),
                                "{k:?} probe {n}: {y} of asset {a} asked at {res:?} ({:?} decimals): offering the quoted {x} of asset {o} is refused: {e}",
                                p.decs
                            );
                        }
                    }
                }
                Err(e) => {
                    // less than a hundredth of the reserve can always be bought
                    ensure!(
                        y >= res[a] / 100 || at.extreme(w, p, y) || k != Kind::Transmuter,
                        "{k:?} probe {n}: no reverse quote for {y} of asset {a} at {res:?} ({:?} decimals): {e}",
                        p.decs
                    );
                    obs.tag(format!("{k:?} no reverse quote"));
                }
            }
        }
        Quote::Provide { amts, bal, slip, rev } => {
            if k == Kind::Transmuter {
                return Ok(());
            }
            let d = deposit_amounts(w, p, amts, *bal);
            let slip = slip.map(|s| Decimal::percent(s as u64));
            let mut assets = p.listed(&d);
            if *rev {
                assets.reverse();
            }
            let sim: R<Uint128> = w.c.query(&p.addr, &pair::QueryMsg::SimulateProvide { assets, slippage_tolerance: slip });
            let ex = try_provide(w, p, &d, &ProvideOpts { slip, ..Default::default() });
            match (&sim, &ex) {
                (Ok(s), Ok(e)) => {
                    ensure!(s.u128() == *e, "{k:?} probe {n}: deposit {d:?} at {res:?}: quoted {s} shares, minted {e}");
                    obs.tag(format!("{k:?} deposit"));
                    obs.nontrivial = true;
                }
                (Ok(s), Err(e)) => {
                    ensure!(
                        s.is_zero() || d.contains(&0) || at.extreme(w, p, 0),
                        "{k:?} probe {n}: deposit {d:?} at {res:?} (tolerance {slip:?}): quoted {s} shares, refused: {e}"
                    );
                    obs.tag(format!("{k:?} deposit refused"));
                }
                (Err(s), Ok(e)) => viol!("{k:?} probe {n}: deposit {d:?} at {res:?} (tolerance {slip:?}): no quote ({s}), but it mints {e}"),
                (Err(_), Err(_)) => obs.tag(format!("{k:?} deposit neither quoted nor executed")),
            }
        }
        Quote::Withdraw { u, part } => {
            let h = holder(w, p, *u);
            let x = lp_part(w.lp_bal(p, h), *part);
            let share: R<Vec<Asset>> = w.c.query(&p.addr, &pair::QueryMsg::Share { amount: Uint128::new(x) });
            let sim: R<Vec<Asset>> = if k == Kind::Transmuter {
                share.clone()
            } else {
                w.c.query(&p.addr, &pair::QueryMsg::SimulateWithdraw { lp_amount: Uint128::new(x) })
            };
            let ex = try_withdraw(w, p, h, x, None);
            if let (Ok(s), Ok(t)) = (&share, &sim) {
                ensure!(s == t, "{k:?} probe {n}: withdrawal of {x}: share query {s:?}, simulation {t:?}");
            }
            match (&share, &ex) {
                (Ok(s), Ok(e)) => {
                    let want: Vec<u128> = p
                        .infos
                        .iter()
                        .map(|i| s.iter().filter(|y| y.info == *i).map(|y| y.amount.u128()).sum())
                        .collect();
                    ensure!(want == *e, "{k:?} probe {n}: withdrawal of {x} at {res:?}: quoted {want:?}, paid {e:?}");
                    obs.tag(format!("{k:?} withdrawal"));
                    obs.nontrivial = true;
                }
                (Ok(s), Err(e)) => ensure!(
                    s.iter().any(|y| y.amount.is_zero()) || x > w.lp_bal(p, h) || at.extreme(w, p, 0),
                    "{k:?} probe {n}: withdrawal of {x} of {} at {res:?}: quoted {s:?}, refused: {e}",
                    w.lp_supply(p)
                ),
                (Err(s), Ok(e)) => viol!("{k:?} probe {n}: withdrawal of {x} at {res:?}: no quote ({s}), but it pays {e:?}"),
                _ => {}
            }
        }
    }
    Ok(())
}

fn s11(deep: bool) -> BoxedStrategy<Case<Quote>> {
    case(quote, [2, 3, 3, 2, 2], deep)
}

// ------------------------------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Limit {
    /// `max` in 1/10000 (none: the default); the belief price is set so that the shortfall is about `at`/1000 of the
    /// allowed one
    Spread { o: u8, a: u8, amt: Amt, max: Option<u16>, at: Option<u16> },
    MinLp { amts: Vec<Amt>, bal: bool },
    Slip { amts: Vec<Amt>, tol: Option<u16> },
    /// entries: which asset (one past the last is a foreign one), and the difference to what is paid
    MinAssets { u: u8, part: u32, min: Vec<(u8, i8)> },
}
fn limit() -> BoxedStrategy<Limit> {
    let max = || {
        prop::option::weighted(0.8, prop_oneof![Just(0u16), Just(1), Just(50), Just(5000), Just(5001), 0u16..300, 0u16..6000])
    };
    prop_oneof![
        5 => (0u8..5, 0u8..5, rel(1), max(), prop::option::weighted(0.6, prop_oneof![0u16..2000, 900u16..1100, Just(999), Just(1001)]))
            .prop_map(|(o, a, amt, max, at)| Limit::Spread { o, a, amt, max, at }),
        2 => (prop::collection::vec(rel(1), 5), prop::bool::weighted(0.7)).prop_map(|(amts, bal)| Limit::MinLp { amts, bal }),
        3 => (prop::collection::vec(rel(1), 5), max()).prop_map(|(amts, tol)| Limit::Slip { amts, tol }),
        1 => (0u32..6, 100u64..1000, prop::collection::vec(900u64..1100, 5), max()).prop_map(|(e, m, v, tol)| {
            // nearly balanced
            let amts = v.iter().map(|x| Amt::Rel((m * 10u64.pow(e) * x / 100_000).max(1))).collect();
            Limit::Slip { amts, tol }
        }),
        3 => (
            0u8..4,
            prop_oneof![Just(1_000_000u32), 0u32..=1_000_000],
            prop_oneof![
                // every asset once, in any order
                3 => (any::<[u8; 8]>(), prop::collection::vec(prop_oneof![4 => Just(0i8), 1 => Just(-1), 1 => Just(1)], 5)).prop_map(|(k, d)| {
                    let mut v: Vec<usize> = (0..5).collect();
                    v.sort_by_key(|i| k[*i]);
                    v.into_iter().map(|i| (i as u8 + 100, d[i])).collect::<Vec<_>>()
                }),
                2 => prop::collection::vec((0u8..6, -3i8..=3), 0..6),
            ],
        )
            .prop_map(|(u, part, min)| Limit::MinAssets { u, part, min }),
    ]
    .boxed()
}

/// is `short / whole` certainly at most / certainly more than `m` (18 decimals), for a shortfall between `lo` and `hi`
enum Verdict {
    Within,
    Beyond,
    Close,
}
/// (the contracts carry ratios to 18 decimals)
/// `whole - got` compared with `m` of `whole`, `whole` known to lie in `lo..=hi`
fn verdict(lo: u128, hi: u128, got: u128, m: u128) -> Verdict {
    let one = big(E18);
    if big(got) * one >= big(hi) * (one - big(m)) {
        Verdict::Within
    } else if (big(got) + big(1)) * one < big(lo) * (one.saturating_sub(big(m) + big(2))) {
        Verdict::Beyond
    } else {
        Verdict::Close
    }
}

fn c10(c: &Case<Limit>, o: &mut Obs) -> V {
    walk(c, c10_probe, o)
}
fn c10_probe(w: &World, p: &Pool, q: &Limit, at: &At, obs: &mut Obs) -> V {
    let (k, n) = (p.kind, at.n);
    let res = w.reserves(p);
    let dec = |bps: u16| Decimal::from_ratio(bps, 10_000u32);
    match q {
        Limit::Spread { o, a, amt, max, at: target } => {
            if k == Kind::Transmuter {
                return Ok(());
            }
            let (o, a) = dirs(p, *o, *a);
            let x = amt.of(res[o]);
            let taxed = w.bal(&p.infos[o], TAXED);
            let who = USERS[1];
            let free = w.c.dry(|| {
                let before = w.bal(&p.infos[a], who);
                let r = w.swap(p, who, o, a, x, &any_price())?;
                R::Ok((
                    w.bal(&p.infos[a], who) - before,
                    attr(&r, p, "commission_amount"),
                    attr(&r, p, "spread_amount"),
                    w.bal(&p.infos[o], TAXED) - taxed,
                ))
            });
            let Ok((got, commission, spread, tax)) = free else { return Ok(()) };
            let x_eff = x - if k == Kind::Tax { tax } else { 0 };
            // what the limits are compared with: before the commission, except in concentrated pools
            let gross = if k == Kind::Pcl { got } else { got + commission };
            let m = max.map(dec);
            let bound = m.unwrap_or(if k == Kind::Pcl { Decimal::percent(5) } else { Decimal::permille(5) });
            let bound = bound.atomics().u128();
            let mut opts = SwapOpts { belief: None, max_spread: m, to: None };
            let (lo, hi) = if let Some(t) = target {
                // expected return such that the shortfall is `t`/1000 of the bound
                let s = bound.min(E18 / 2) / 1000 * *t as u128;
                let e = big(gross) * big(E18) / (big(E18).saturating_sub(big(s)) + big((s >= E18) as u128));
                if e.is_zero() || e > big(1 << 120) || x_eff >= 1 << 120 || x_eff == 0 {
                    return Ok(());
                }
                let belief = big(x_eff) * big(E18) / e;
                if belief.is_zero() || belief > big(u128::MAX) {
                    return Ok(());
                }
                opts.belief = Some(Decimal::raw(belief.as_u128()));
                // offer / belief, the inverse carried to 18 decimals
                let e = big(x_eff) * big(E18) / belief;
                if e > big(1 << 120) {
                    return Ok(());
                }
                let e = e.as_u128();
                (e.saturating_sub(2 + x_eff / E18), e)
            } else {
                match k {
                    Kind::Xyk | Kind::Tax => {
                        let e = big(x_eff) * big(res[a]) / big(res[o]);
                        if e > big(1 << 120) {
                            return Ok(());
                        }
                        let e = e.as_u128();
                        ((e.saturating_sub(2 + x_eff / E18)).max(gross), (e + 1).max(gross))
                    }
                    Kind::Stable => {
                        let e = big(x_eff) * big(10u128.pow(p.decs[a] as u32));
                        let u = big(10u128.pow(p.decs[o] as u32));
                        let (f, c) = ((e / u).as_u128(), ((e + u - big(1)) / u).as_u128());
                        (f.saturating_sub(1).max(gross), (c + 1).max(gross))
                    }
                    // against the pool's own price oracle, as reported
                    _ => (got + spread, got + spread),
                }
            };
            let r = try_swap(w, p, o, a, x, &opts);
            let tag = if target.is_some() { "belief price" } else { "spread" };
            if bound > E18 / 2 {
                ensure!(r.is_err(), "{k:?} probe {n}: swap with a maximum spread of {m:?} accepted");
                obs.tag("maximum above 50%");
                return Ok(());
            }
            match (verdict(lo, hi, gross, bound), r) {
                (Verdict::Within, Err(e)) if gross > 0 => viol!(
                    "{k:?} probe {n}: swap of {x} ({o}->{a}) at {res:?} pays {got} (+{commission} commission), expected {lo}..{hi}, tolerance {m:?}, belief {:?}: refused: {e}",
                    opts.belief
                ),
                (Verdict::Beyond, Ok(_)) => viol!(
                    "{k:?} probe {n}: swap of {x} ({o}->{a}) at {res:?} pays {got} (+{commission} commission), expected {lo}..{hi}, tolerance {m:?}, belief {:?}: accepted",
                    opts.belief
                ),
                (Verdict::Within, Ok(_)) => {
                    obs.tag(format!("{k:?} {tag} within"));
                    obs.nontrivial = true;
                }
                (Verdict::Beyond, Err(_)) => {
                    obs.tag(format!("{k:?} {tag} beyond"));
                    obs.nontrivial = true;
                }
                _ => obs.tag(format!("{k:?} {tag} close")),
            }
        }
        Limit::MinLp { amts, bal } => {
            let d = deposit_amounts(w, p, amts, *bal);
            let opts = |min| ProvideOpts { slip: Some(Decimal::percent(50)), min_lp: min, ..Default::default() };
            let Ok(l) = try_provide(w, p, &d, &opts(None)) else { return Ok(()) };
            let exact = try_provide(w, p, &d, &opts(Some(l)));
            ensure!(exact == Ok(l), "{k:?} probe {n}: deposit {d:?} at {res:?} mints {l}; with a minimum of {l}: {exact:?}");
            let more = try_provide(w, p, &d, &opts(Some(l + 1)));
            ensure!(more.is_err(), "{k:?} probe {n}: deposit {d:?} at {res:?} mints {l}; with a minimum of {}: {more:?}", l + 1);
            obs.tag(format!("{k:?} minimum of shares"));
            obs.nontrivial = true;
        }
        Limit::Slip { amts, tol } => {
            if matches!(k, Kind::Transmuter | Kind::Stable) || w.lp_supply(p) == 0 {
                return Ok(());
            }
            let d = deposit_amounts(w, p, amts, false);
            let t = tol.map(dec);
            let bound = t.unwrap_or(if k == Kind::Pcl { Decimal::percent(5) } else { Decimal::permille(5) });
            let bound = bound.atomics().u128();
            let r = try_provide(w, p, &d, &ProvideOpts { slip: t, ..Default::default() });
            if k == Kind::Pcl {
                // value of the deposit against the shares it mints, at the pool's virtual price
                let free = try_provide(w, p, &d, &ProvideOpts { slip: Some(Decimal::percent(50)), ..Default::default() });
                let l = match (&free, &r) {
                    (Ok(l), _) => *l as f64 / 1e6,
                    (_, Ok(l)) => viol!("{k:?} probe {n}: deposit {d:?} at {res:?} mints {l} with tolerance {t:?} but is refused with 50%"),
                    _ => return Ok(()),
                };
                let num = |x: &dyn ToString| x.to_string().parse::<f64>().unwrap_or(f64::NAN);
                let Ok(c) = pcl_config(w, p) else { return Ok(()) };
                let scale = num(&c.price_scale);
                let vp: Decimal256 = match w.c.query(&p.addr, &astroport::pair_concentrated::QueryMsg::LpPrice {}) {
                    Ok(v) => v,
                    Err(_) => return Ok(()),
                };
                let whole = |i: usize| d[i] as f64 / 10f64.powi(p.decs[i] as i32);
                let value = whole(0) + whole(1) * scale;
                let slip = 1.0 - l / (value / 2.0 / scale.sqrt() / num(&vp));
                // the pool's own measure may lag behind it (donations, dust) until the next trade
                if at.donated || at.extreme(w, p, 0) || value < 1.0 || !(slip.abs() < 1.0) {
                    return Ok(());
                }
                let b = bound as f64 / 1e18;
                // a deposit in the proportion of the reserves trades nothing and has no price to slip
                let ratio = l / (l + w.lp_supply(p) as f64 / 1e6);
                let traded = (0..2).all(|i| {
                    let r = res[i] as f64 / 10f64.powi(p.decs[i] as i32);
                    (whole(i) - (r + whole(i)) * ratio).abs() > 1e-3
                });
                let fuzz = 1e-4 + 2e-6 / l;
                if bound > E18 / 2 {
                    ensure!(r.is_err() || !traded, "{k:?} probe {n}: deposit {d:?} with a tolerance of {t:?} accepted");
                } else if slip > b + fuzz && slip > 1e-3 && traded {
                    ensure!(r.is_err(), "{k:?} probe {n}: deposit {d:?} at {res:?} loses {slip}, tolerance {t:?}: accepted");
                    obs.tag("Pcl deposit beyond");
                    obs.nontrivial = true;
                } else if slip + fuzz < b {
                    ensure!(r.is_ok(), "{k:?} probe {n}: deposit {d:?} at {res:?} loses {slip}, tolerance {t:?}: {r:?}");
                    obs.tag("Pcl deposit within");
                    obs.nontrivial = true;
                }
                return Ok(());
            }
            if d.contains(&0) || res.contains(&0) {
                return Ok(());
            }
            if bound > E18 / 2 {
                ensure!(r.is_err(), "{k:?} probe {n}: deposit with a tolerance of {t:?} accepted");
                return Ok(());
            }
            // d0/d1 (1 - t) <= r0/r1 both ways; 18-decimal ratios may decide otherwise when the two are that close
            let rest = big(E18 - bound);
            let (mut within, mut beyond) = (true, false);
            for (i, j) in [(0, 1), (1, 0)] {
                let left = big(d[i]) * big(res[j]) * rest;
                let right = big(res[i]) * big(d[j]) * big(E18);
                // error of either ratio: 1e-18
                let err = (big(d[j]) * big(res[j])) * big(3);
                within &= left + err <= right;
                beyond |= left > right + err;
            }
            if within {
                // shares may still round to nothing
                if let Err(e) = &r {
                    let s = big(w.lp_supply(p));
                    let none = (0..2).any(|i| (big(d[i]) * s / big(res[i])).is_zero());
                    ensure!(none || at.extreme(w, p, d[0].max(d[1])) , "{k:?} probe {n}: deposit {d:?} at {res:?}, tolerance {t:?}: refused: {e}");
                } else {
                    obs.tag(format!("{k:?} deposit within"));
                    obs.nontrivial = true;
                }
            } else if beyond {
                ensure!(r.is_err(), "{k:?} probe {n}: deposit {d:?} at {res:?}, tolerance {t:?}: accepted");
                obs.tag(format!("{k:?} deposit beyond"));
                obs.nontrivial = true;
            }
        }
        Limit::MinAssets { u, part, min } => {
            let h = holder(w, p, *u);
            let x = lp_part(w.lp_bal(p, h), *part);
            let Ok(paid) = try_withdraw(w, p, h, x, None) else { return Ok(()) };
            // indices from 100 on: all assets in some order
            let full = !min.is_empty() && min.iter().all(|(i, _)| *i >= 100);
            let list: Vec<(usize, i8)> = if full {
                min.iter().map(|(i, d)| (*i as usize - 100, *d)).filter(|(i, _)| *i < p.infos.len()).collect()
            } else {
                min.iter().map(|(i, d)| (*i as usize % (p.infos.len() + 1), *d)).collect()
            };
            let due = |i: usize| if i < p.infos.len() { paid[i] } else { 0 };
            let entries: Vec<(usize, u128)> = list
                .iter()
                .map(|(i, d)| (*i, if *d < 0 { due(*i).saturating_sub(d.unsigned_abs() as u128) } else { due(*i) + *d as u128 }))
                .collect();
            let assets: Vec<Asset> = entries
                .iter()
                .map(|(i, m)| asset(p.infos.get(*i).unwrap_or(&native("uforeign")), *m))
                .collect();
            let r = try_withdraw(w, p, h, x, Some(assets.clone()));
            // an asset of another kind is none of the pool's, whatever its minimum
            if entries.iter().any(|(i, m)| *m > due(*i) || *i >= p.infos.len()) {
                ensure!(r.is_err(), "{k:?} probe {n}: withdrawal of {x} pays {paid:?}, minimum {entries:?}: accepted");
                obs.tag(format!("{k:?} minimum of assets beyond"));
                obs.nontrivial = true;
            } else if full {
                ensure!(r == Ok(paid.clone()), "{k:?} probe {n}: withdrawal of {x} pays {paid:?}, minimum {entries:?}: {r:?}");
                obs.tag(format!("{k:?} minimum of assets within"));
                obs.nontrivial = true;
            }
        }
    }
    Ok(())
}
fn s10(deep: bool) -> BoxedStrategy<Case<Limit>> {
    case(limit, [3, 3, 3, 2, 1], deep)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C10",
            rule: "a probe is non-trivial when the operation succeeds without the limit and the limit is clearly met or clearly missed",
            assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
            parts: vec![Box::new(Gen { name: "limits", quick: 30_000, thorough: 1_500_000, strategy: s10, run: c10 })],
        },
        Property {
        id: "C11",
        rule: "a probe is non-trivial when the pool quoted it and executed it on the same state (reverse quotes: for more than ten times the solvers' resolution)",
        assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
        parts: vec![Box::new(Gen { name: "quotes", quick: 30_000, thorough: 1_500_000, strategy: s11, run: c11 })],
        },
    ]
}
