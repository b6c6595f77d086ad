//! C13 (cumulative prices), C14 (price observations), C28 (the TWAP oracle).

use astroport::asset::AssetInfo;
use astroport::observation::OracleObservation;
use astroport::oracle;
use astroport::pair::{self, CumulativePricesResponse};
use cosmwasm_std::{Decimal, Uint128, Uint256};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::props::xyk::E18;
use crate::world::*;
use crate::{ensure, viol};

fn counters(w: &World, p: &Pool) -> R<Vec<u128>> {
    let r: CumulativePricesResponse = w.c.query(&p.addr, &pair::QueryMsg::CumulativePrices {})?;
    // (from, to) for both directions, in the pool's order
    let f = |a: &AssetInfo, b: &AssetInfo| {
        let v: Vec<_> = r.cumulative_prices.iter().filter(|x| &x.0 == a && &x.1 == b).collect();
        if v.len() == 1 && r.cumulative_prices.len() == 2 {
            Ok(v[0].2.u128())
        } else {
            Err(format!("cumulative prices {:?}", r.cumulative_prices))
        }
    };
    Ok(vec![f(&p.infos[0], &p.infos[1])?, f(&p.infos[1], &p.infos[0])?])
}

/// what one second adds to the two counters times `secs`; None when it is not representable (or not quoted)
fn step(w: &World, p: &Pool, secs: u64) -> Option<[u128; 2]> {
    let r = w.reserves(p);
    if r[0] == 0 || r[1] == 0 || secs == 0 {
        return Some([0, 0]);
    }
    let mut v = [0; 2];
    for i in 0..2 {
        v[i] = if p.kind == Kind::Stable {
            let s = w.sim(p, i, 1 - i, 10u128.pow(p.decs[i] as u32)).ok()?;
            let one = (s.return_amount + s.commission_amount).u128();
            if one == 0 {
                return None;
            }
            let d = p.decs[1 - i] as u32;
            let one = if d >= 6 { one / 10u128.pow(d - 6) } else { one * 10u128.pow(6 - d) };
            one.checked_mul(secs as u128)?
        } else {
            let q = u256(secs as u128 * 1_000_000) * u256(r[1 - i]) / u256(r[i]);
            q.try_into().map(|x: Uint128| x.u128()).ok()?
        };
    }
    Some(v)
}

fn c13(h: &History, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    let first = if p.kind == Kind::Stable { first_amounts(&h.setup, &p, &h.first) } else { h.first[..2].to_vec() };
    let mut ops = vec![Op::Provide { u: 0, amts: first.iter().map(|x| Amt::Abs(*x)).collect(), bal: false, to: None }];
    ops.extend(h.ops.iter().cloned());
    // the counters as of `last`
    let mut acc = [0u128; 2];
    let mut last = w.c.time();
    let (mut wraps, mut started) = (false, false);
    for (n, op) in ops.iter().enumerate() {
        let secs = w.c.time() - last;
        let st = step(&w, &p, secs);
        let r = apply(&w, &p, op);
        if !started {
            // the counters start with the first operation
            started = r.is_ok() && matches!(op, Op::Provide { .. } | Op::Swap { .. } | Op::Withdraw { .. });
            if started {
                if h.setup.amp % 3 == 0 {
                    preset(&w, &p, u128::MAX - (1 << (h.setup.amp % 90)));
                }
                last = w.c.time();
                let c = counters(&w, &p)?;
                acc = [c[0], c[1]];
            }
            continue;
        }
        if r.is_ok() && matches!(op, Op::Provide { .. } | Op::Swap { .. } | Op::Withdraw { .. }) {
            match st {
                Some(s) => {
                    for i in 0..2 {
                        wraps |= acc[i].checked_add(s[i]).is_none();
                        acc[i] = acc[i].wrapping_add(s[i]);
                    }
                    if s[0] > 0 || s[1] > 0 {
                        o.nontrivial = true;
                        o.tag("advanced by an operation");
                    } else if secs == 0 {
                        o.tag("same second");
                    } else {
                        o.tag("no price");
                    }
                }
                // nothing to compare with: take the pool's word and go on
                None => {
                    let c = counters(&w, &p)?;
                    acc = [c[0], c[1]];
                    o.tag("unquotable");
                }
            }
            last = w.c.time();
        }
        // the query extrapolates to now
        match step(&w, &p, w.c.time() - last) {
            Some(s) => {
                let got = counters(&w, &p).map_err(|e| format!("op {n} {op:?}: the query failed: {e}"))?;
                let want = vec![acc[0].wrapping_add(s[0]), acc[1].wrapping_add(s[1])];
                ensure!(
                    got == want,
                    "op {n} {op:?}: counters {got:?}, expected {want:?} (reserves {:?}, {} s since the last operation)",
                    w.reserves(&p),
                    w.c.time() - last
                );
                if s[0] > 0 && !matches!(op, Op::Provide { .. } | Op::Swap { .. } | Op::Withdraw { .. }) {
                    o.tag("extrapolated");
                }
            }
            None => o.tag("not representable"),
        }
    }
    if wraps {
        o.tag("wrapped around");
    }
    Ok(())
}
fn mix13() -> OpMix {
    OpMix { gap: 8, ..Default::default() }
}
fn mix13s() -> OpMix {
    OpMix { gap: 8, amp: 1, ..Default::default() }
}
fn s13(deep: bool) -> BoxedStrategy<History> {
    let n = if deep { 40 } else { 18 };
    let wide = || (gen::mag(0, 5), gen::mag(26, 36), any::<bool>()).prop_map(|(a, b, s)| if s { vec![a, b] } else { vec![b, a] }).boxed();
    prop_oneof![
        3 => history(setup(Kind::Xyk), first_any(3, 24), mix13, 1..n),
        2 => history(setup(Kind::Tax), first_any(3, 24), mix13, 1..n),
        1 => history(setup(Kind::Xyk), wide(), mix13, 4..24),
        1 => history(setup(Kind::Tax), wide(), mix13, 4..24),
        4 => history(setup(Kind::Stable), first_tokens(6, 18, 2), mix13s, 1..n),
    ]
    .boxed()
}

// --------------------------------------------------------------------------------------------- observations

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ObsOp {
    /// trade; `m` millionths of the reserve, or a few units
    Swap { o: u8, amt: Amt },
    Gap { blocks: u8, secs: u32 },
    Other(Op),
    /// ask for a past moment: millionths of the span kept, or near the k-th kept record (plus a few seconds)
    Ask { at: u32 },
    Near { k: u32, off: i8 },
    Deep,
    /// `n` blocks with a trade in each, `every` seconds apart
    Run { n: u16, every: u8, m: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ObsHist {
    pub setup: Setup,
    pub first: Vec<u128>,
    pub ops: Vec<ObsOp>,
}

const CAP: usize = 3000;

struct Series {
    /// kept and dropped records: time, price, average (18 digits)
    all: Vec<(u64, u128, u128)>,
    /// trades of the latest trading second, not yet a record
    pend: Option<(u64, u128, u128)>,
    sum: Uint256,
}
impl Series {
    fn kept(&self) -> &[(u64, u128, u128)] {
        &self.all[self.all.len().saturating_sub(CAP)..]
    }
    fn commit(&mut self, now: u64) {
        if let Some((ts, b, q)) = self.pend {
            if now > ts {
                let price = mul_div(b, E18, q);
                self.sum += u256(price);
                if self.all.len() >= CAP {
                    self.sum -= u256(self.all[self.all.len() - CAP].1);
                }
                let n = (self.all.len() + 1).min(CAP) as u128;
                let avg: Uint128 = (self.sum / u256(n)).try_into().unwrap();
                self.all.push((ts, price, avg.u128()));
                self.pend = None;
            }
        }
    }
    /// (low, high) of the right answer for a moment
    fn at(&self, t: u64) -> Option<(u128, u128)> {
        let k = self.kept();
        // rounding: every recorded average is carried on from the one before
        let tol = self.all.len() as u128 + 2;
        if k.is_empty() {
            return self.pend.filter(|p| p.0 <= t).map(|p| (mul_div(p.1, E18, p.2), mul_div(p.1, E18, p.2)));
        }
        let i = k.partition_point(|r| r.0 <= t);
        if i == 0 {
            return None;
        }
        let (l, r) = (k[i - 1], k.get(i));
        let Some(r) = r.filter(|_| l.0 < t) else {
            return Some((l.2.saturating_sub(tol), l.2 + 1));
        };
        let d = mul_div(l.2.abs_diff(r.2), (t - l.0) as u128, (r.0 - l.0) as u128);
        let v = if r.2 >= l.2 { l.2 + d } else { l.2 - d };
        // the slope is a decimal of 18 digits: its error grows with the distance and the difference
        let e = tol + mul_div(l.2.abs_diff(r.2), (t - l.0) as u128, E18) + (t - l.0) as u128 + 2;
        Some((v.saturating_sub(e), v + e))
    }
}

fn ask(w: &World, p: &Pool, s: &Series, t: u64, what: &str, o: &mut Obs) -> V {
    let now = w.c.time();
    let t = t.min(now);
    let got: R<OracleObservation> = w.c.query(&p.addr, &pair::QueryMsg::Observe { seconds_ago: now - t });
    match (s.at(t), got) {
        (Some((lo, hi)), Ok(g)) => {
            let x = g.price.atomics().u128();
            ensure!(
                g.timestamp == t && lo <= x && x <= hi,
                "{what}: observed {g:?} at {t}, expected {lo}..={hi} ({} records)",
                s.all.len()
            );
            o.tag("answered");
        }
        (None, Err(_)) => o.tag("too old or none"),
        (None, Ok(g)) => viol!("{what}: observed {g:?} at {t}, but the records start at {:?} ({:?} pending)", s.kept().first(), s.pend),
        (Some(_), Err(e)) => viol!("{what}: moment {t} is covered (records from {:?}, {} of them) but the query failed: {e}", s.kept().first(), s.all.len()),
    }
    Ok(())
}

fn c14(h: &ObsHist, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    let d = first_amounts(&h.setup, &p, &h.first);
    if w.provide(&p, USERS[0], &d, &ProvideOpts::default()).is_err() {
        o.tag("unseeded");
        return Ok(());
    }
    let mut s = Series { all: vec![], pend: None, sum: Uint256::zero() };
    let min = |dec: u8, x: u128| Uint256::from(x) * Uint256::from(100_000u32) >= Uint256::from(10u128).pow(dec as u32);
    // one trade; keeps the series in step
    let trade = |s: &mut Series, off: usize, dx: u128, o: &mut Obs| -> V {
        let ask_i = 1 - off;
        let b0 = w.bal(&p.infos[ask_i], USERS[1]);
        if w.swap(&p, USERS[1], off, ask_i, dx, &SwapOpts::loose()).is_err() {
            o.tag("refused");
            return Ok(());
        }
        let got = w.bal(&p.infos[ask_i], USERS[1]) - b0;
        s.commit(w.c.time());
        if min(p.decs[off], dx) && min(p.decs[ask_i], got) {
            let (b, q) = if off == 0 { (dx, got) } else { (got, dx) };
            s.pend = match s.pend {
                Some((ts, b0, q0)) if ts == w.c.time() => {
                    o.tag("several trades in one second");
                    Some((ts, b0 + b, q0 + q))
                }
                _ => Some((w.c.time(), b, q)),
            };
        } else {
            o.tag("too small to count");
        }
        Ok(())
    };
    for (n, op) in h.ops.iter().enumerate() {
        let now = w.c.time();
        let what = format!("op {n} {op:?}");
        let span = |s: &Series| s.kept().first().map(|x| x.0).unwrap_or(now.saturating_sub(100));
        match op {
            ObsOp::Swap { o: off, amt } => {
                let off = *off as usize % 2;
                trade(&mut s, off, amt.of(w.bal(&p.infos[off], &p.addr)), o)?;
            }
            ObsOp::Gap { blocks, secs } => w.c.advance(*blocks as u64, *secs as u64),
            ObsOp::Other(x) => {
                let _ = apply(&w, &p, x);
            }
            ObsOp::Ask { at } => {
                let a = span(&s);
                ask(&w, &p, &s, a + (now - a) * *at as u64 / 1_000_000, &what, o)?;
            }
            ObsOp::Near { k, off } => {
                let kept = s.kept();
                if !kept.is_empty() {
                    let t = kept[*k as usize % kept.len()].0;
                    ask(&w, &p, &s, t.saturating_add_signed(*off as i64), &what, o)?;
                }
            }
            ObsOp::Deep => {
                for t in [now, now.saturating_sub(1), span(&s), span(&s) - 1] {
                    ask(&w, &p, &s, t, &what, o)?;
                }
            }
            ObsOp::Run { n, every, m } => {
                for i in 0..*n {
                    w.c.advance(1, *every as u64);
                    let off = (i % 2) as usize;
                    let dx = Amt::Rel(*m as u64 * 10 + (i as u64 * 7919) % 97).of(d[off]);
                    trade(&mut s, off, dx, o)?;
                }
                if s.all.len() > CAP {
                    o.tag("wrapped around");
                }
            }
        }
    }
    // a last sweep over everything kept
    w.c.advance(1, 3);
    let k = s.kept().to_vec();
    for r in k.iter().step_by((k.len() / 12).max(1)) {
        for d in [-1i64, 0, 1] {
            ask(&w, &p, &s, r.0.saturating_add_signed(d), "at the end", o)?;
        }
    }
    o.nontrivial = s.all.len() >= 2;
    Ok(())
}
fn obs_setup() -> BoxedStrategy<Setup> {
    (prop_oneof![Just(Kind::Stable), Just(Kind::Pcl)].prop_flat_map(usual), 5u8..=18, 0u8..=6)
        .prop_map(|(mut s, d, e)| {
            // a price is a decimal of raw amounts: keep it representable
            for (i, t) in s.toks.iter_mut().enumerate() {
                t.dec = if i == 0 { d } else { d.saturating_sub(e).max(5) };
            }
            s.total = s.total.min(3000);
            s
        })
        .boxed()
}
fn obs_op() -> BoxedStrategy<ObsOp> {
    prop_oneof![
        8 => (0u8..2, prop_oneof![6 => (1u64..50_000).prop_map(Amt::Rel), 1 => (1u128..200).prop_map(Amt::Abs)])
            .prop_map(|(o, amt)| ObsOp::Swap { o, amt }),
        4 => (0u8..3, prop_oneof![3 => 1u32..12, 1 => Just(0u32), 1 => gen::gap()]).prop_map(|(blocks, secs)| ObsOp::Gap { blocks: blocks.max((secs > 0) as u8), secs: if blocks == 0 { 0 } else { secs } }),
        1 => op(OpMix { swap: 0, gap: 0, ..Default::default() }).prop_map(ObsOp::Other),
        2 => (0u32..=1_000_000).prop_map(|at| ObsOp::Ask { at }),
        2 => (any::<u32>(), -2i8..=2).prop_map(|(k, off)| ObsOp::Near { k, off }),
        1 => Just(ObsOp::Deep),
    ]
    .boxed()
}
fn s14(deep: bool) -> BoxedStrategy<ObsHist> {
    (obs_setup(), first_tokens(9, 14, 1), prop::collection::vec(obs_op(), 2..if deep { 80 } else { 40 }))
        .prop_map(|(setup, first, ops)| ObsHist { setup, first, ops })
        .boxed()
}
fn s14w(_: bool) -> BoxedStrategy<ObsHist> {
    (
        obs_setup(),
        (gen::mag(11, 14), 800u128..1250).prop_map(|(a, m)| vec![a, a * m / 1000]),
        prop::collection::vec(obs_op(), 0..6),
        (2960u16..3010, 1u8..9, 1u16..400),
        prop::collection::vec(obs_op(), 20..60),
        prop::option::weighted(0.3, (2990u16..3010, 1u8..9, 1u16..400)),
        prop::collection::vec(obs_op(), 10..30),
    )
        .prop_map(|(mut setup, first, a, r, b, r2, c)| {
            for t in &mut setup.toks {
                t.cw20 = false;
            }
            setup.total = setup.total.min(100);
            let run = |(n, every, m)| ObsOp::Run { n, every, m };
            let mut ops = a;
            ops.push(run(r));
            ops.extend(b);
            ops.extend(r2.map(run));
            ops.extend(c);
            ObsHist { setup, first, ops }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------- oracle

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OrOp {
    Pool(Op),
    /// the time is relative to the end of the period
    Update { off: i32 },
    Gap { secs: u32 },
    Consult { i: u8, amt: u128 },
    Foreign { amt: u128 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OrCase {
    pub h: History,
    pub rev: bool,
    /// the counters start this far below the point where they wrap around
    pub near_wrap: Option<u128>,
    pub ops: Vec<OrOp>,
}

fn c28(k: &OrCase, o: &mut Obs) -> V {
    let (w, p) = k.h.setup.build()?;
    let first = if p.kind == Kind::Xyk { k.h.first[..2].to_vec() } else { first_amounts(&k.h.setup, &p, &k.h.first) };
    let first: Vec<u128> = first.iter().map(|x| (*x).min(RICH / 4)).collect();
    let _ = w.provide(&p, USERS[0], &first, &ProvideOpts::default());
    for op in &k.h.ops {
        let _ = apply(&w, &p, op);
    }
    if let Some(d) = k.near_wrap {
        preset(&w, &p, u128::MAX - d);
    }
    let oc = {
        use astroport_oracle::contract::*;
        w.c.store(Code::new("oracle", instantiate, execute, query))
    };
    let mut infos = p.infos.clone();
    if k.rev {
        infos.reverse();
    }
    let stranger = w.tok(&Tok { cw20: k.rev, dec: 6 })?;
    let mk = |infos: &[AssetInfo]| {
        w.c.init(
            oc,
            USERS[3],
            &oracle::InstantiateMsg { factory_contract: w.factory.clone(), asset_infos: infos.to_vec() },
            &[],
            "oracle",
            None,
        )
    };
    ensure!(
        mk(&[infos[0].clone(), stranger.clone()]).is_err(),
        "an oracle for a pair that is not registered was created"
    );
    let start = match counters(&w, &p) {
        Ok(c) => c,
        Err(_) => {
            ensure!(mk(&infos).is_err(), "oracle created without prices");
            return Ok(());
        }
    };
    let orc = mk(&infos)?;
    let mut rec = (w.c.time(), start);
    let mut avg: [Uint256; 2] = [Uint256::zero(); 2]; // 18 digits
    let mut prev_time = rec.0;
    for (n, op) in k.ops.iter().enumerate() {
        match op {
            OrOp::Pool(x) => {
                let _ = apply(&w, &p, x);
            }
            OrOp::Gap { secs } => w.c.advance(1, *secs as u64),
            OrOp::Update { off } => {
                let due = rec.0 + 86_400;
                let t = due.saturating_add_signed(*off as i64);
                if t > w.c.time() {
                    w.c.set_time(t);
                }
                let now = w.c.time();
                let c = counters(&w, &p);
                let st = w.c.state();
                let r = w.c.exec(user((n % 4) as u8), &orc, &oracle::ExecuteMsg::Update {}, &[]);
                if now - rec.0 < 86_400 {
                    ensure!(r.is_err(), "op {n}: updated {} s after the last update", now - rec.0);
                    ensure!(w.c.same_state(&st), "op {n}: refused update changed {}", w.c.diff(&st));
                    o.tag("too early");
                } else if let Ok(c) = c {
                    ensure!(r.is_ok(), "op {n}: update {} s after the last one refused: {r:?}", now - rec.0);
                    for i in 0..2 {
                        let d = c[i].wrapping_sub(rec.1[i]);
                        if c[i] < rec.1[i] {
                            o.tag("wrapped around");
                        }
                        avg[i] = u256(d) * u256(E18) / u256((now - rec.0) as u128);
                    }
                    prev_time = rec.0;
                    rec = (now, c);
                    o.tag("updated");
                } else {
                    ensure!(r.is_err(), "op {n}: updated without prices");
                }
            }
            OrOp::Consult { i, amt } => {
                let i = *i as usize % 2;
                let got: R<Vec<(AssetInfo, Uint256)>> = w.c.query(
                    &orc,
                    &oracle::QueryMsg::Consult { token: p.infos[i].clone(), amount: Uint128::new(*amt) },
                );
                if avg[i].is_zero() {
                    // nothing measured yet: the pool's own quote of one token, scaled
                    let one = 10u128.pow(p.decs[i] as u32);
                    match (w.sim(&p, i, 1 - i, one), got) {
                        (Ok(s), Ok(g)) => {
                            let want = Uint256::from(s.return_amount) * u256(*amt) / u256(one);
                            ensure!(
                                g == vec![(p.infos[1 - i].clone(), want)],
                                "op {n}: nothing measured, the pool quotes {} for one token; {amt} answered {g:?}",
                                s.return_amount
                            );
                            o.tag("answered with the quote");
                        }
                        (Err(_), Err(_)) => {}
                        (a, b) => viol!("op {n}: quote {a:?}, answer {b:?}"),
                    }
                } else {
                    let full = Uint512::from(u256(*amt)) * Uint512::from(avg[i]) / Uint512::from(E18) / Uint512::from(1_000_000u128);
                    let want: Result<Uint256, _> = full.try_into();
                    match (want, got) {
                        (Ok(want), Ok(g)) => {
                            ensure!(
                                g == vec![(p.infos[1 - i].clone(), want)],
                                "op {n}: {amt} of asset {i} answered {g:?}, the average of {}..{} is {} / 10^24: expected {want}",
                                prev_time,
                                rec.0,
                                avg[i]
                            );
                            o.nontrivial = true;
                            o.tag("answered with the average");
                        }
                        (Err(_), _) => o.tag("not representable"),
                        (Ok(w), Err(e)) => {
                            // 256-bit intermediate of the decimal product
                            ensure!(w.to_string().len() > 45, "op {n}: {amt} of asset {i}, average {}: {e}", avg[i])
                        }
                    }
                }
            }
            OrOp::Foreign { amt } => {
                let t = if amt % 2 == 0 { stranger.clone() } else { native(&p.lp) };
                let got: R<Vec<(AssetInfo, Uint256)>> =
                    w.c.query(&orc, &oracle::QueryMsg::Consult { token: t.clone(), amount: Uint128::new(*amt) });
                ensure!(got.is_err(), "op {n}: {t} is not of the pair, answered {got:?}");
            }
        }
    }
    Ok(())
}
/// start the pool's counters elsewhere (they only ever grow by what is measured)
fn preset(w: &World, p: &Pool, v: u128) {
    w.c.with_storage(&p.addr, |s| {
        let Some(Ok(mut j)) = s.get(b"config").map(|raw| serde_json::from_slice::<serde_json::Value>(&raw)) else { return };
        for k in ["price0_cumulative_last", "price1_cumulative_last"] {
            if let Some(x) = j.get_mut(k) {
                *x = v.to_string().into();
            }
        }
        if let Some(a) = j.get_mut("cumulative_prices").and_then(|a| a.as_array_mut()) {
            for x in a {
                x[2] = v.to_string().into();
            }
        }
        s.set(b"config", &serde_json::to_vec(&j).unwrap());
    })
}
fn s28(deep: bool) -> BoxedStrategy<OrCase> {
    let kind = prop_oneof![3 => Just(Kind::Xyk), 2 => Just(Kind::Stable), 1 => Just(Kind::Pcl)];
    let h = kind.prop_flat_map(|k| {
        let f = if k == Kind::Xyk { first_any(5, 22) } else { first_tokens(6, 14, 1) };
        history(usual(k), f, mix13, 0..4)
    });
    let m = || OpMix { gap: 2, ..Default::default() };
    let oop = prop_oneof![
        5 => op(m()).prop_map(OrOp::Pool),
        4 => prop_oneof![3 => Just(0i32), 1 => Just(-1), 2 => -5000i32..200_000, 1 => Just(-86_400)].prop_map(|off| OrOp::Update { off }),
        2 => (1u32..50_000).prop_map(|secs| OrOp::Gap { secs }),
        5 => (0u8..2, prop_oneof![gen::amount(0, 30), Just(0u128), Just(u128::MAX)]).prop_map(|(i, amt)| OrOp::Consult { i, amt }),
        1 => any::<u128>().prop_map(|amt| OrOp::Foreign { amt }),
    ];
    (h, any::<bool>(), prop::option::weighted(0.3, gen::amount(0, 36)), prop::collection::vec(oop, 1..if deep { 40 } else { 20 }))
        .prop_map(|(h, rev, near_wrap, ops)| OrCase { h, rev, near_wrap, ops })
        .boxed()
}

pub fn props() -> Vec<Property> {
    let _ = Decimal::one();
    vec![
        Property {
            id: "C13",
            rule: "an operation advanced the counters by a positive amount that was compared with the reserves (or quotes) in force",
            assumptions: &["stableswap: the one-unit price is what the pool's own simulation returns before commission (decided by C03 and C11)"],
            parts: vec![super::pcl::twap_part(), Box::new(Gen { name: "histories", quick: 16_000, thorough: 600_000, strategy: s13, run: c13 })],
        },
        Property {
            id: "C14",
            rule: "the series had at least two records and every answer was compared with the reference series",
            assumptions: &[],
            parts: vec![
                Box::new(Gen { name: "histories", quick: 10_000, thorough: 400_000, strategy: s14, run: c14 }),
                Box::new(Gen { name: "full buffer", quick: 64, thorough: 4_000, strategy: s14w, run: c14 }),
            ],
        },
        Property {
            id: "C28",
            rule: "an answer was computed from a measured average and compared with the reference",
            assumptions: &["the pair's counters are what C13 decides"],
            parts: vec![Box::new(Gen { name: "histories", quick: 12_000, thorough: 400_000, strategy: s28, run: c28 })],
        },
    ]
}
