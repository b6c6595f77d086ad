//! C05 (share value), C38 (curve and fees), C39 (re-peg) of the concentrated pool: a reference model of the pool in
//! double-double arithmetic, followed along generated histories.

use astroport::pair::{self, CumulativePricesResponse};
use astroport::pair_concentrated::{ConcentratedPoolUpdateParams, UpdatePoolParams};
use cosmwasm_std::{Decimal, Decimal256};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::dd::{self, n as num, Dd};
use crate::engine::*;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

/// what decides a share's value, and the parameters in force
#[derive(Clone, Debug)]
pub struct Now {
    pub amp: Dd,
    pub gamma: Dd,
    pub scale: Dd,
    /// whole tokens
    pub x: [Dd; 2],
    /// whole shares
    pub lp: Dd,
    pub mid: Dd,
    pub out: Dd,
    pub fee_gamma: Dd,
    pub threshold: Dd,
    pub delta: Dd,
    pub half: u64,
    pub time: u64,
}
pub fn now(w: &World, p: &Pool) -> R<Now> {
    let c = pcl_config(w, p)?;
    let r = w.reserves(p);
    Ok(Now {
        amp: Dd::dec(c.amp),
        gamma: Dd::dec(c.gamma),
        scale: Dd::dec(c.price_scale),
        x: [0, 1].map(|i| Dd::amount(r[i], p.decs[i])),
        lp: Dd::amount(w.lp_supply(p), 6),
        mid: Dd::dec(c.mid_fee),
        out: Dd::dec(c.out_fee),
        fee_gamma: Dd::dec(c.fee_gamma),
        threshold: Dd::dec(c.repeg_profit_threshold),
        delta: Dd::dec(c.min_price_scale_delta),
        half: c.ma_half_time,
        time: w.c.time(),
    })
}
impl Now {
    /// internal reserves
    fn ix(&self) -> [Dd; 2] {
        [self.x[0], self.x[1] * self.scale]
    }
    /// invariant, in units of the first asset
    fn d(&self) -> Dd {
        let [x, y] = self.ix();
        dd::d(self.amp, self.gamma, x, y)
    }
    /// virtual price
    fn v(&self) -> Dd {
        self.d() / (num(2.0) * self.scale.sqrt() * self.lp)
    }
    /// fee rate at internal reserves; below 1/1000 the weight of the minimum fee is nothing
    fn fee(&self, x: Dd, y: Dd) -> Dd {
        let k = self.weight(x, y);
        let k = if k <= num(1e-3) { num(0.0) } else { k };
        k * self.mid + (num(1.0) - k) * self.out
    }
    fn weight(&self, x: Dd, y: Dd) -> Dd {
        let s = x + y;
        // never more than one
        let k = num(4.0) * x * y / (s * s);
        let gap = (num(1.0) - k).max(num(0.0));
        if self.fee_gamma.f() == 0.0 {
            return num(0.0);
        }
        self.fee_gamma / (self.fee_gamma + gap)
    }
    /// (gross amount paid, fee), whole tokens, for `x` tokens of asset `o`
    fn swap(&self, o: usize, x: Dd) -> (Dd, Dd) {
        let mut ix = self.ix();
        let d = self.d();
        ix[o] = ix[o] + if o == 1 { x * self.scale } else { x };
        let y = dd::y(self.amp, self.gamma, ix[o], d);
        let mut dy = ix[1 - o] - y;
        ix[1 - o] = y;
        let rate = self.fee(ix[0], ix[1]);
        if o == 0 {
            dy = dy / self.scale;
        }
        (dy, dy * rate)
    }
    /// shares for a deposit (whole), while there are shares
    fn provide(&self, dep: [Dd; 2]) -> Dd {
        let with = Now { x: [self.x[0] + dep[0], self.x[1] + dep[1]], ..self.clone() };
        let share = self.lp * with.d() / self.d() - self.lp;
        let i = [dep[0], dep[1] * self.scale];
        let sum = i[0] + i[1];
        let half = sum * num(0.5);
        let diff = if i[0] > half { i[0] - half } else { half - i[0] };
        let [x, y] = with.ix();
        share * (num(1.0) - diff * self.fee(x, y) / sum)
    }
}

// ------------------------------------------------------------------------------------------ histories

/// changes of the pool's parameters; fees in 1e-6, the others as in [PclP]
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Upd {
    pub mid: Option<u32>,
    pub out: Option<u32>,
    pub fee_gamma: Option<u32>,
    pub threshold: Option<u32>,
    pub delta: Option<u32>,
    pub half_time: Option<u64>,
}
impl Upd {
    pub fn msg(&self) -> ConcentratedPoolUpdateParams {
        ConcentratedPoolUpdateParams::Update(UpdatePoolParams {
            mid_fee: self.mid.map(|x| Decimal::from_ratio(x, 1_000_000u32)),
            out_fee: self.out.map(|x| Decimal::from_ratio(x, 1_000_000u32)),
            fee_gamma: self.fee_gamma.map(|x| Decimal::from_ratio(x, 10_000_000u32)),
            repeg_profit_threshold: self.threshold.map(|x| Decimal::from_ratio(x, 1_000_000_000u32)),
            min_price_scale_delta: self.delta.map(|x| Decimal::from_ratio(x, 1_000_000_000u32)),
            ma_half_time: self.half_time,
        })
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum P {
    Op(Op),
    Update(Upd),
    /// a trade whose proceeds are around the least that counts, in 1e-8 tokens
    Tiny { o: u8, k: u32 },
    /// time passes until the ramp of amp and gamma ends, and so many seconds more
    RampEnd(i8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Setup,
    pub first: Vec<u128>,
    /// seconds between the pool's creation and its first deposit
    pub wait: u32,
    pub ops: Vec<P>,
}

/// the moving state of the pool besides its reserves
struct Model {
    /// relative errors of the prices, of the profit
    e_oracle: f64,
    e_last: f64,
    e_prof: f64,
    oracle: Dd,
    last: Dd,
    upd: u64,
    prof: Dd,
    real: Dd,
    /// end of the ramp of amp and gamma
    until: u64,
    ramped: bool,
    /// fee shares
    maker: f64,
    share: f64,
    fee_addr: bool,
}
/// what a trade or deposit may do to the price scale
#[derive(Debug)]
struct Peg {
    stay: bool,
    go: Option<(Dd, f64)>,
    /// the pool after it, before payments are rounded
    at: Option<Now>,
    why: String,
}
enum Fate {
    Refused,
    Either,
    Fine,
}
impl Model {
    /// A trade or deposit that left the reserves `x` (unrounded) and `lp` shares and was priced at `price`. `e`:
    /// relative errors of the price and of the share value.
    fn update(&mut self, a: &Now, x: [Dd; 2], lp: Dd, price: Dd, e: (f64, f64)) -> (Fate, Peg) {
        if self.upd < a.time {
            let p = (a.time - self.upd) as f64 / a.half as f64;
            let alpha = 0.5f64.powf(p);
            let gap = (self.last - self.oracle).f().abs();
            self.oracle = self.last * num(1.0 - alpha) + self.oracle * num(alpha);
            // the power is computed to ten digits
            self.e_oracle = (self.e_last * (1.0 - alpha) + self.e_oracle * alpha)
                + 3e-10 * gap / self.oracle.f()
                + 1e-15
                + 1e-18 / self.oracle.f();
            self.upd = a.time;
        }
        self.last = price;
        self.e_last = e.0 + 1e-18 / price.f();
        let at = Now { x, lp, ..a.clone() };
        let v = at.v();
        let m = 1e-11 + e.1;
        let gain = ((v - self.real) / self.real).f();
        let fate = if gain < -m && a.time >= self.until {
            Fate::Refused
        } else if gain < m && a.time >= self.until {
            Fate::Either
        } else {
            Fate::Fine
        };
        self.prof = self.prof * v / self.real;
        self.e_prof += m;
        self.real = v;
        let mut peg = Peg { stay: true, go: None, at: Some(at.clone()), why: String::new() };
        let ratio = (self.oracle / a.scale).f();
        let norm = ((self.oracle - a.scale) / a.scale).f().abs();
        let e_norm = self.e_oracle * ratio + 1e-17;
        let (min, tenth) = (a.delta.f(), norm / 10.0);
        let delta = min.max(tenth);
        // (surely, maybe)
        let apart = (norm > min + e_norm, norm > min - e_norm && norm > 0.0);
        let m = self.e_prof + m;
        let spare = (num(2.0) * self.real - self.prof - num(1.0) - num(2.0) * a.threshold).f();
        let rich = (spare > 2.0 * m, spare > -2.0 * m);
        if apart.1 && rich.1 {
            let up = self.oracle > a.scale;
            let d = if up { num(1.0 + delta) } else { num(1.0 - delta) };
            let new = a.scale * d;
            let e_new = 1e-14
                + 2e-18 / a.scale.f()
                + delta * 4e-18 / norm
                + if tenth > min * 0.999 { e_norm / 10.0 } else { 0.0 };
            // near the oracle price the side may be misjudged
            let e_new = if norm < e_norm * 4.0 { delta * 2.0 + e_new } else { e_new };
            let moved = Now { scale: new, ..at.clone() };
            let v = moved.v();
            let left = (num(2.0) * v - self.prof - num(1.0)).f();
            // the new scale's error moves the value too, at most as much as itself
            let m = m + e_new;
            let keeps = (left > 2.0 * m, left > -2.0 * m);
            if keeps.1 {
                peg.go = Some((new, e_new));
                peg.stay = !(apart.0 && rich.0 && keeps.0);
            }
            peg.why = format!("norm {norm:.3e} delta {delta:.3e} spare {spare:.3e} left {left:.3e}");
        } else {
            peg.why = format!("norm {norm:.3e} delta {delta:.3e} spare {spare:.3e}");
        }
        (fate, peg)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Show {
    /// trades and deposits are priced by the curve
    Price,
    /// the price scale moves as it must
    Peg,
    /// cumulative prices
    Twap,
    /// no step takes more from the holders than the rules allow
    Value,
}

/// errors of the contract's solver, calibrated: internal tokens for a trade of `dy` (internal), `d` the invariant
fn solver(a: &Now, dy: f64, ask: f64) -> f64 {
    let g = a.gamma.f();
    1e-10 + 1e-14 * a.d().f() + 1e-5 * (dy / ask).min(1.0).powi(2) + dy * 1e-16 / (g * g)
}

fn counters(w: &World, p: &Pool) -> R<[u128; 2]> {
    let r: CumulativePricesResponse = w.c.query(&p.addr, &pair::QueryMsg::CumulativePrices {})?;
    let f = |i: usize| {
        r.cumulative_prices
            .iter()
            .find(|x| x.0 == p.infos[i] && x.1 == p.infos[1 - i])
            .map(|x| x.2.u128())
            .ok_or(format!("cumulative prices {:?}", r.cumulative_prices))
    };
    Ok([f(0)?, f(1)?])
}
/// price of the second asset in the first for a small purchase of it
fn small(a: &Now) -> (Dd, f64) {
    let x = if a.x[0].f() * 1e-4 < 1.0 { a.x[0] * num(1e-4) } else { num(1.0) };
    let (gross, fee) = a.swap(0, x);
    let dy = (gross * a.scale).f();
    (x / (gross - fee), solver(a, dy, a.ix()[1].f()) / dy)
}

fn inside(s: [f64; 2]) -> bool {
    s.iter().all(|x| (100.0..=1e9).contains(x)) && s[0] / s[1] <= 1e3 && s[1] / s[0] <= 1e3
}

fn resolve(op: &P, w: &World, p: &Pool, a: &Now, until: u64) -> R<P> {
    Ok(match op {
        P::Tiny { o, k } => {
            let of = (*o % 2) as usize;
            let ask = num(*k as f64 * 1e-8);
            let x = if of == 0 { ask * a.scale } else { ask / a.scale };
            // the price on the curve may be far from the scale
            let (gross, fee) = a.swap(of, x);
            let x = if (gross - fee).f() > 0.0 { x * ask / (gross - fee) } else { x };
            let raw = (x.f() * 10f64.powi(p.decs[of] as i32)).round().clamp(1.0, w.reserves(p)[of] as f64);
            P::Op(Op::Swap { u: 0, o: of as u8, a: 1 - of as u8, amt: Amt::Abs(raw as u128), to: None })
        }
        P::RampEnd(x) => {
            let t = until as i64 + *x as i64 - a.time as i64;
            P::Op(Op::Gap { blocks: 1, secs: t.clamp(0, 10_000_000) as u32 })
        }
        _ => op.clone(),
    })
}

fn walk(h: &Case, o: &mut Obs, show: Show) -> V {
    let (w, p) = h.setup.build()?;
    let born = w.c.time();
    if h.wait > 0 {
        w.c.advance(1, h.wait as u64);
    }
    let price = Dd::dec(pcl_config(&w, &p)?.price_scale);
    let mut m = Model {
        e_oracle: 0.0,
        e_last: 0.0,
        e_prof: 0.0,
        oracle: price,
        last: price,
        upd: born,
        prof: num(1.0),
        real: num(1.0),
        until: born,
        ramped: false,
        maker: h.setup.maker as f64 / 1e4,
        share: h.setup.share.unwrap_or(0) as f64 / 1e4,
        fee_addr: h.setup.fee_addr,
    };
    // what the counters must be: value, error, time
    let mut twap = ([0.0f64; 2], [0.0f64; 2], born);
    let add = |twap: &mut ([f64; 2], [f64; 2], u64), price: (Dd, f64), now: u64| {
        let t = (now - twap.2) as f64;
        let q = price.0.f() * 1e6;
        let r = 1e6 / price.0.f();
        // the counter from the first asset to the second adds the inverse
        for (i, x) in [r, q].into_iter().enumerate() {
            twap.0[i] += t * (x - 0.5);
            twap.1[i] += t * (0.51 + x * (price.1 + 1e-15) + if i == 0 { x * x * 1e-24 } else { 0.0 });
        }
        twap.2 = now;
    };
    let first = first_amounts(&h.setup, &p, &h.first);
    if w.provide(&p, USERS[0], &first, &ProvideOpts::default()).is_err() {
        o.tag("first deposit refused");
        return Ok(());
    }
    let a = now(&w, &p)?;
    add(&mut twap, (m.last, 0.0), a.time);
    if !inside(pcl_sizes(&w, &p)?) {
        o.tag("small first deposit");
        return Ok(());
    }
    if show == Show::Price {
        let mint = (a.d() / (num(2.0) * a.scale.sqrt())).f() * 1e6;
        let got = w.lp_supply(&p) as f64;
        ensure!(
            (mint - got).abs() <= 1.5 + mint * 1e-13,
            "the first deposit {first:?} made {got} shares, the curve gives {mint}"
        );
        let own = w.lp_bal(&p, USERS[0]);
        ensure!(
            w.lp_bal(&p, &p.addr) == 1000 && own + 1000 == w.lp_supply(&p),
            "the first depositor has {own} shares of {}",
            w.lp_supply(&p)
        );
    }
    for op in &h.ops {
        let a = now(&w, &p)?;
        if !inside(pcl_sizes(&w, &p)?) {
            o.tag("left the domain");
            break;
        }
        if show == Show::Twap {
            let got = counters(&w, &p)?;
            let mut t = twap;
            add(&mut t, small(&a), a.time);
            check_twap(&t, got, "the query")?;
        }
        let st = w.c.state();
        let res = w.reserves(&p);
        let real;
        let op = match op {
            P::Tiny { .. } | P::RampEnd(_) => {
                real = resolve(op, &w, &p, &a, m.until)?;
                &real
            }
            x => x,
        };
        match op {
            P::Tiny { .. } | P::RampEnd(_) => {}
            P::Op(Op::Swap { u, o: dir, amt, to, .. }) => {
                let (of, ask) = dirs(&p, *dir, 1 - (*dir % 2));
                let raw = amt.of(res[of]);
                let x = Dd::amount(raw, p.decs[of]);
                // keep the pool in the domain
                let ix = a.ix();
                let xi = if of == 0 { x } else { x * a.scale };
                if raw == 0 || (ix[of] + xi).f() > 1e9 {
                    continue;
                }
                let (gross, fee) = a.swap(of, x);
                // observations keep the ratio of the amounts in a decimal
                let ratio = raw as f64 / ((gross - fee).f() * 10f64.powi(p.decs[ask] as i32)).max(0.5);
                if !(1e-17..1e17).contains(&ratio) {
                    continue;
                }
                let mut post = a.x;
                post[of] = post[of] + x;
                let mf = if m.fee_addr { m.maker } else { 0.0 };
                let share = fee * num(m.share);
                let maker = (fee - share) * num(mf);
                let out = gross - fee + share + maker;
                post[ask] = post[ask] - out;
                let sizes = Now { x: post, ..a.clone() }.ix().map(|x| x.f());
                if !inside(sizes) {
                    continue;
                }
                let unit = if of == 0 { a.scale.f() } else { 1.0 };
                let e = solver(&a, gross.f() * unit, ix[ask].f()) / unit;
                // at the limit of what counts as a trade, at the fee's step
                if (out.f() - 1e-5).abs() < e + 1e-9 {
                    continue;
                }
                let after = |i: usize| if i == of { ix[i] + xi } else { ix[i] - gross * num(unit) };
                let step = (a.weight(after(0), after(1)).f() - 1e-3).abs() < 1e-8;
                let counts = out.f() >= 1e-5 && x.f() >= 1e-5;
                let spread = if of == 0 { x / m.oracle - gross } else { x * m.oracle - gross };
                let e_spread = e + m.e_oracle * if of == 0 { (x / m.oracle).f() } else { (x * m.oracle).f() };
                // as the query would see it: trades pay by the price before
                let seen = small(&a);
                let mut next = Model { ..m };
                let (fate, peg) = if counts {
                    let price = if of == 0 { x / out } else { out / x };
                    next.update(&a, post, a.lp, price, (e / out.f(), e * unit / a.d().f()))
                } else {
                    (Fate::Fine, Peg { stay: true, go: None, at: None, why: "not a trade".into() })
                };
                let who = user(*u);
                let to = opt_user(to);
                let r = w.swap(
                    &p,
                    who,
                    of,
                    ask,
                    raw,
                    &SwapOpts {
                        // any price
                        belief: Some(Decimal::MAX),
                        max_spread: Some(Decimal::percent(50)),
                        to,
                    },
                );
                let dec = 10f64.powi(p.decs[ask] as i32);
                match (&r, &fate) {
                    (Err(x), Fate::Fine) => {
                        // nothing to pay: the bank refuses to send it
                        let net = (gross - fee).f() * dec;
                        if net < 1.0 + e * dec {
                            w.c.restore(&st);
                            continue;
                        }
                        if show == Show::Peg {
                            viol!("a trade of {raw} of asset {of} was refused: {x}; {}", peg.why)
                        }
                        o.tag("refused");
                        w.c.restore(&st);
                        return Ok(());
                    }
                    (Ok(_), Fate::Refused) => {
                        if show == Show::Peg || show == Show::Value {
                            viol!("a trade of {raw} of asset {of} lowered the share value to {:?} and went through", next.real)
                        }
                        return Ok(());
                    }
                    (Err(_), _) => {
                        o.tag("refused: makes a loss");
                        w.c.restore(&st);
                        continue;
                    }
                    _ => {}
                }
                let r = r?;
                let get = |k: &str| -> R<f64> {
                    r.attr(&p.addr, k).ok_or(format!("no {k}"))?.parse::<u128>().map(|x| x as f64).map_err(|e| e.to_string())
                };
                if show == Show::Value && !step {
                    let tol = e * dec + 1.5 + gross.f() * dec * 1e-12;
                    let total = (gross - fee + maker + share).f() * dec;
                    let paid = (res[ask] - w.reserves(&p)[ask]) as f64;
                    ensure!(paid <= total + tol, "{raw} of asset {of} took {paid} out of the pool, the curve allows {total}");
                }
                if show == Show::Price {
                    let tol = e * dec + 1.5 + gross.f() * dec * 1e-12;
                    let net = (gross - fee).f() * dec;
                    let (pay, com) = (get("return_amount")?, get("commission_amount")?);
                    if !step {
                        ensure!(
                            (pay - net).abs() <= tol,
                            "{raw} of asset {of} pays {pay}, the curve less fee gives {net} (tolerance {tol:.2e}); {a:?}"
                        );
                        let com_tol = fee.f() * dec * 1e-9 + e * dec * 0.02 + 1.5;
                        ensure!(
                            (com - fee.f() * dec).abs() <= com_tol,
                            "{raw} of asset {of} costs {com}, the fee is {}",
                            fee.f() * dec
                        );
                        // the split of the fee
                        for (k, x) in [("maker_fee_amount", maker.f() * dec), ("fee_share_amount", share.f() * dec)] {
                            let y = get(k)?;
                            ensure!((x - y).abs() <= com_tol, "{raw} of asset {of}: {k} {y}, expected {x}");
                        }
                    }
                    o.tag(if counts { "trade" } else { "dust trade" });
                    o.nontrivial = true;
                }
                if show == Show::Peg {
                    let got = get("spread_amount")?;
                    let want = spread.f().max(0.0) * dec;
                    let tol = 1.5 + e_spread * dec + want * 1e-12;
                    ensure!(
                        (got - want).abs() <= tol,
                        "{raw} of asset {of}: spread {got} against the oracle price, expected {want} (tolerance {tol:.2e})"
                    );
                    if m.e_oracle > 0.0 && spread.f() * dec > 1e3 * tol {
                        o.tag("spread tells the oracle price");
                    }
                }
                add(&mut twap, seen, a.time);
                m = next;
                settle(&w, &p, &a, &mut m, &peg, show, o)?;
            }
            P::Op(Op::Provide { u, amts, bal, to }) => {
                let amounts = deposit_amounts(&w, &p, amts, *bal);
                let d = [0, 1].map(|i| Dd::amount(amounts[i], p.decs[i]));
                let x = [a.x[0] + d[0], a.x[1] + d[1]];
                let with = Now { x, ..a.clone() };
                let ix = with.ix();
                if amounts.iter().all(|x| *x == 0) || !inside(ix.map(|x| x.f())) {
                    continue;
                }
                let share = a.provide(d);
                let part = share / (a.lp + share);
                let diff = [0, 1].map(|i| {
                    let b = x[i] * part;
                    if d[i] > b { d[i] - b } else { b - d[i] }
                });
                let e = [0, 1].map(|i| (x[i].f() * 1e-14 + 1e-12 / if i == 1 { a.scale.f() } else { 1.0 }) * 4.0);
                if (0..2).any(|i| (diff[i].f() - 1e-5).abs() < e[i] + 1e-10) {
                    continue;
                }
                if (a.weight(ix[0], ix[1]).f() - 1e-3).abs() < 1e-8 {
                    continue;
                }
                let counts = diff.iter().all(|x| x.f() >= 1e-5);
                let seen = (m.last, m.e_last);
                let value = d[0] + d[1] * a.scale;
                let fair = value / (num(2.0) * a.scale.sqrt()) / m.real;
                let slip = if counts { ((fair - share) / fair).f() } else { 0.0 };
                let mut next = Model { ..m };
                let (fate, peg) = if counts {
                    let price = diff[0] / diff[1];
                    let e_price = e[0] / diff[0].f() + e[1] / diff[1].f();
                    next.update(&a, x, a.lp + share, price, (e_price, 1e-13))
                } else {
                    (Fate::Fine, Peg { stay: true, go: None, at: None, why: "balanced".into() })
                };
                let before = w.lp_supply(&p);
                let r = w.provide(
                    &p,
                    user(*u),
                    &amounts,
                    &ProvideOpts { slip: Some(Decimal::percent(50)), receiver: opt_user(to), ..Default::default() },
                );
                let mint = share.f() * 1e6;
                match (&r, &fate) {
                    (Err(x), Fate::Fine) => {
                        if slip < 0.499 && mint > 1.0 + a.lp.f() * 1e6 * 1e-13 && show == Show::Peg {
                            viol!("a deposit of {amounts:?} was refused: {x}; {}, slippage {slip}", peg.why)
                        }
                        w.c.restore(&st);
                        continue;
                    }
                    (Ok(_), Fate::Refused) => {
                        if show == Show::Peg || show == Show::Value {
                            viol!("a deposit of {amounts:?} lowered the share value to {:?} and went through", next.real)
                        }
                        return Ok(());
                    }
                    (Err(_), _) => {
                        o.tag("refused: makes a loss");
                        w.c.restore(&st);
                        continue;
                    }
                    _ => {}
                }
                if show == Show::Price || show == Show::Value {
                    let got = (w.lp_supply(&p) - before) as f64;
                    let tol = 1.5 + a.lp.f() * 1e6 * 1e-13 + mint * 1e-17 / (a.gamma.f() * a.gamma.f());
                    ensure!(
                        got - mint <= tol && (show == Show::Value || mint - got <= tol),
                        "a deposit of {amounts:?} makes {got} shares, the growth of the invariant less fee gives {mint} \
                         (tolerance {tol:.2e}); {a:?}"
                    );
                    o.tag(if counts { "deposit" } else { "balanced deposit" });
                    o.nontrivial = true;
                }
                add(&mut twap, seen, a.time);
                m = next;
                settle(&w, &p, &a, &mut m, &peg, show, o)?;
            }
            P::Op(x @ Op::Withdraw { u, part }) => {
                let who = holder(&w, &p, *u);
                let lp = lp_part(w.lp_bal(&p, who), *part);
                let total = w.lp_supply(&p);
                if lp >= total {
                    continue;
                }
                let keep = num(1.0) - Dd::from(lp - 1) / Dd::from(total);
                let left = [a.x[0] * keep, a.x[1] * keep];
                let at = Now { x: left, lp: Dd::amount(total - lp, 6), ..a.clone() };
                if !inside(at.ix().map(|x| x.f())) {
                    continue;
                }
                if let Err(e) = apply(&w, &p, x) {
                    let dust = res.iter().any(|r| mul_div(*r, lp - 1, total) < 2);
                    if show == Show::Peg && !dust {
                        viol!("a withdrawal of {lp} shares of {total} was refused: {e}")
                    }
                    return Ok(());
                }
                m.real = at.v();
                m.e_prof += 1e-11;
                no_move(&w, &p, &a, show, "a withdrawal")?;
            }
            P::Op(x @ Op::Amp { secs, .. }) => {
                if apply(&w, &p, x).is_ok() {
                    m.until = a.time + *secs as u64;
                    m.ramped = true;
                    o.tag("ramp");
                }
                no_move(&w, &p, &a, show, "a promotion")?;
            }
            P::Op(Op::StopAmp) => {
                if apply(&w, &p, &Op::StopAmp).is_ok() {
                    m.until = a.time;
                }
                no_move(&w, &p, &a, show, "stopping a promotion")?;
            }
            P::Op(x @ Op::Fees { maker, .. }) => {
                if apply(&w, &p, x).is_ok() {
                    m.maker = *maker as f64 / 1e4;
                }
                no_move(&w, &p, &a, show, "a change of fees")?;
            }
            P::Op(x @ Op::Share(s)) => {
                if apply(&w, &p, x).is_ok() {
                    m.share = s.unwrap_or(0) as f64 / 1e4;
                }
                no_move(&w, &p, &a, show, "a change of fee share")?;
            }
            P::Op(x @ Op::Donate { .. }) => {
                if apply(&w, &p, x).is_ok() && !inside(pcl_sizes(&w, &p)?) {
                    w.c.restore(&st);
                }
                no_move(&w, &p, &a, show, "a donation")?;
            }
            P::Op(x) => {
                let _ = apply(&w, &p, x);
                no_move(&w, &p, &a, show, "time")?;
            }
            P::Update(x) => {
                let _ = w.update_pool(&p, OWNER, &x.msg());
                no_move(&w, &p, &a, show, "a change of parameters")?;
            }
        }
    }
    if show == Show::Twap && w.c.time() > born {
        o.nontrivial = true;
    }
    Ok(())
}
fn check_twap(t: &([f64; 2], [f64; 2], u64), got: [u128; 2], what: &str) -> V {
    for i in 0..2 {
        let d = (got[i] as f64 - t.0[i]).abs();
        ensure!(
            d <= 1.0 + t.1[i] + t.0[i] * 1e-12,
            "{what}: cumulative price {i} is {}, the history gives {} (within {:.3e})",
            got[i],
            t.0[i],
            t.1[i]
        );
    }
    Ok(())
}
fn no_move(w: &World, p: &Pool, a: &Now, show: Show, what: &str) -> V {
    if show == Show::Peg {
        let s = Dd::dec(pcl_config(w, p)?.price_scale);
        ensure!(s == a.scale, "{what} moved the price scale from {:?} to {s:?}", a.scale);
    }
    Ok(())
}
/// compare the price scale with what it may be, and go on from it
fn settle(w: &World, p: &Pool, a: &Now, m: &mut Model, peg: &Peg, show: Show, o: &mut Obs) -> V {
    let b = now(w, p)?;
    let (stay, go) = (peg.stay, peg.go);
    if b.scale == a.scale {
        if show == Show::Peg {
            ensure!(
                stay || go.is_some_and(|(n, e)| ((n - a.scale) / a.scale).f().abs() <= e),
                "the price scale stayed at {:?}, it moves to {:?} ({})",
                a.scale.f(),
                go.map(|x| x.0.f()),
                peg.why
            );
            o.tag("scale stays");
        }
    } else {
        if show == Show::Peg {
            let Some((n, e)) = go else { viol!("the price scale moved from {:?} to {:?}, it stays ({})", a.scale.f(), b.scale.f(), peg.why) };
            let d = ((n - b.scale) / b.scale).f().abs();
            ensure!(
                d <= e,
                "the price scale moved from {:?} to {:?}, expected {:?} within {e:.2e} ({})",
                a.scale.f(),
                b.scale.f(),
                n.f(),
                peg.why
            );
            o.tag("scale moves");
            o.nontrivial = true;
        }
        if show == Show::Value {
            let x = w.reserves(p);
            let at = Now { scale: b.scale, x: [0, 1].map(|i| Dd::amount(x[i], p.decs[i])), ..b.clone() };
            let left = (num(2.0) * at.v() - m.prof - num(1.0)).f();
            let e = 2.0 * m.e_prof + 1e-10 + 10.0 / b.d().f().max(1.0) * 1e-6;
            ensure!(
                left >= -e,
                "moving the price scale from {:?} to {:?} left a share at {:?} with an accumulated profit of {:?}: \
                 more than half of it is spent",
                a.scale.f(),
                b.scale.f(),
                at.v().f(),
                m.prof.f()
            );
            o.tag("scale moves");
            o.nontrivial = true;
        }
        if let Some(at) = &peg.at {
            m.real = Now { scale: b.scale, ..at.clone() }.v();
        }
        m.e_prof += 1e-11;
    }
    if show == Show::Peg && !stay {
        o.tag("must move");
    }
    Ok(())
}

fn c13(h: &Case, o: &mut Obs) -> V {
    walk(h, o, Show::Twap)
}
fn c38(h: &Case, o: &mut Obs) -> V {
    walk(h, o, Show::Price)
}
fn c05_spend(h: &Case, o: &mut Obs) -> V {
    walk(h, o, Show::Value)
}
fn c39(h: &Case, o: &mut Obs) -> V {
    walk(h, o, Show::Peg)
}

// ------------------------------------------------------------------------------------------ C05

/// internal reserves between which the share value is measured
fn roomy(s: [f64; 2]) -> bool {
    s.iter().all(|x| (1.0..=1e10).contains(x)) && s[0] / s[1] <= 1e4 && s[1] / s[0] <= 1e4
}

fn c05(h: &Case, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    if h.wait > 0 {
        w.c.advance(1, h.wait as u64);
    }
    let first = first_amounts(&h.setup, &p, &h.first);
    if w.provide(&p, USERS[0], &first, &ProvideOpts::default()).is_err() {
        o.tag("first deposit refused");
        return Ok(());
    }
    let mut ramped = false;
    let mut until = w.c.time();
    for op in &h.ops {
        let a = now(&w, &p)?;
        let size = pcl_sizes(&w, &p)?;
        if !roomy(size) {
            o.tag("left the domain");
            break;
        }
        let st = w.c.state();
        let res = w.reserves(&p);
        let total = w.lp_supply(&p);
        let op = &resolve(op, &w, &p, &a, until)?;
        let what = match op {
            P::Op(Op::Swap { .. }) => "trade",
            P::Op(Op::Provide { .. }) => "deposit",
            P::Op(Op::Withdraw { .. }) => "withdrawal",
            P::Op(Op::Donate { .. }) => "donation",
            _ => "",
        };
        let r = match op {
            P::Op(x) => apply(&w, &p, x),
            P::Update(x) => w.update_pool(&p, OWNER, &x.msg()).map(|_| ()),
            P::Tiny { .. } | P::RampEnd(_) => Ok(()),
        };
        if r.is_err() {
            continue;
        }
        if let P::Op(Op::Amp { secs, .. }) = op {
            ramped = true;
            until = a.time + *secs as u64;
        }
        if what.is_empty() {
            continue;
        }
        let b = now(&w, &p)?;
        if b.lp.f() < 1e-3 || !roomy(pcl_sizes(&w, &p)?) {
            w.c.restore(&st);
            o.tag("step left out");
            continue;
        }
        if what == "withdrawal" {
            let lp = total - w.lp_supply(&p);
            let out: Vec<_> = res.iter().zip(w.reserves(&p)).map(|(a, b)| a - b).collect();
            for i in 0..2 {
                let most = mul_div(res[i], lp, total);
                ensure!(out[i] <= most, "a withdrawal of {lp} of {total} shares took {} of {} of asset {i}", out[i], res[i]);
                let least = mul_div(res[i], lp - 1, total);
                let slack = res[i] / 1_000_000_000_000_000_000 + 2;
                ensure!(
                    out[i] + slack >= least,
                    "a withdrawal of {lp} of {total} shares took only {} of {} of asset {i}",
                    out[i],
                    res[i]
                );
            }
        }
        // the value of a share at the price scale before
        let held = Now { scale: a.scale, amp: a.amp, gamma: a.gamma, ..b.clone() };
        let (d0, d1) = (a.d(), held.d());
        let loss = (d0 / a.lp * b.lp - d1).f();
        let g = a.gamma.f();
        let tol = 1e-6 + 1e-15 * d0.f() + d0.f() * 1e-19 / (g * g);
        ensure!(
            loss <= tol,
            "a {what} ({op:?}) cost the holders {loss:.6e} tokens of value {:.6e} (tolerance {tol:.1e})",
            d0.f()
        );
        let v = b.v();
        if !ramped {
            ensure!(v.f() >= 1.0 - 1e-9 - tol / d0.f(), "after a {what} ({op:?}) a share is worth {:?} of its initial value", v.f());
        }
        let q: Decimal256 = w.c.query(&p.addr, &astroport::pair_concentrated::QueryMsg::LpPrice {})?;
        let q = Dd::dec256(q).f();
        ensure!(
            ((q - v.f()) / v.f()).abs() <= 1e-9 + 1e-5 / b.d().f() + 2.0 * tol / d0.f() + 2e-18 / v.f(),
            "the pool quotes a share value of {q}, its reserves give {}",
            v.f()
        );
        let q: Decimal256 = w.c.query(&p.addr, &astroport::pair_concentrated::QueryMsg::ComputeD {})?;
        ensure!(
            (Dd::dec256(q) - b.d()).f().abs() <= 2.0 * tol,
            "the pool quotes an invariant of {q}, its reserves give {:?} (tolerance {tol:.1e})",
            b.d()
        );
        o.tag(what);
        if a.scale != b.scale {
            o.tag("scale moves");
        }
        o.nontrivial = true;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ strategies

fn mix() -> OpMix {
    OpMix { provide: 5, swap: 10, withdraw: 3, donate: 1, gap: 7, fees: 1, share: 1, amp: 1 }
}
fn upd() -> BoxedStrategy<Upd> {
    let f = || prop::option::weighted(0.4, prop_oneof![Just(50u32), Just(10_000), 50u32..=10_000]);
    let zero = |hi: u32| prop_oneof![1 => Just(0u32), 3 => 1u32..=hi];
    (
        f(),
        f(),
        prop::option::weighted(0.3, prop_oneof![Just(2_300u32), 1u32..=10_000_000]),
        prop::option::weighted(0.3, zero(1_000_000)),
        prop::option::weighted(0.3, zero(10_000_000)),
        prop::option::weighted(0.3, prop_oneof![Just(600u64), 1u64..=604_800]),
    )
        .prop_map(|(mid, out, fee_gamma, threshold, delta, half_time)| Upd {
            mid,
            out,
            fee_gamma,
            threshold,
            delta,
            half_time,
        })
        .boxed()
}
fn ops(n: std::ops::Range<usize>) -> BoxedStrategy<Vec<P>> {
    // trades of a size that moves the price, gaps of a size that moves the oracle
    let trade = (0u8..4, 0u8..2, 100u64..400_000, prop::option::weighted(0.1, 0u8..4))
        .prop_map(|(u, o, r, to)| P::Op(Op::Swap { u, o, a: 1 - o, amt: Amt::Rel(r), to }));
    let gap = (0u8..2, prop_oneof![1u32..60, 60u32..3600, 3600u32..100_000])
        .prop_map(|(b, secs)| P::Op(Op::Gap { blocks: b.max(1), secs }));
    let step = prop_oneof![
        20 => op(mix()).prop_map(P::Op),
        10 => trade,
        8 => gap,
        1 => upd().prop_map(P::Update),
        1 => (0u8..2, 950u32..1150).prop_map(|(o, k)| P::Tiny { o, k }),
        1 => (-1i8..=1).prop_map(P::RampEnd),
    ];
    prop::collection::vec(step, n).boxed()
}
/// parameters under which re-pegs are frequent
fn lively() -> BoxedStrategy<Setup> {
    (usual(Kind::Pcl), prop::bool::weighted(0.7), 0u32..2_000, prop_oneof![1 => Just(0u32), 6 => 1u32..2_000_000])
        .prop_map(|(mut s, l, t, d)| {
            if l {
                s.pcl.threshold = t;
                s.pcl.delta = d;
            }
            s
        })
        .boxed()
}
fn case(setup: BoxedStrategy<Setup>, first: BoxedStrategy<Vec<u128>>, n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (setup, first, prop_oneof![2 => Just(0u32), 1 => 1u32..100_000], ops(n))
        .prop_map(|(setup, first, wait, ops)| Case { setup, first, wait, ops })
        .boxed()
}
fn s_tame(deep: bool) -> BoxedStrategy<Case> {
    case(lively(), first_tokens(9, 15, 1), 1..if deep { 60 } else { 24 })
}
fn s05(deep: bool) -> BoxedStrategy<Case> {
    let n = if deep { 60 } else { 20 };
    let wild = setup(Kind::Pcl)
        .prop_map(|mut s| {
            s.pcl.gamma = s.pcl.gamma.max(1_000);
            s
        })
        .boxed();
    prop_oneof![
        2 => case(lively(), first_tokens(7, 15, 1), 1..n),
        1 => case(wild, first_tokens(7, 15, 1), 1..n),
    ]
    .boxed()
}

pub fn twap_part() -> Box<dyn Part> {
    Box::new(Gen { name: "concentrated", quick: 2_500, thorough: 100_000, strategy: s_tame, run: c13 })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            rule: "at least one deposit, trade, withdrawal or donation went through and the value of a share was measured before and after it in 31-digit arithmetic (spending: the price scale moved and the profit left was compared with the profit made)",
            assumptions: &["both reserves at least one token (internal), at most 10^10, ratio at most 10^4, before and after each step: outside, the contract's solver tolerance is not small against the pool", "gamma at least 1e-5: the contract keeps 18 digits of gamma squared", "the solver's precision (1e-6 tokens + 1e-15 of the pool) is allowed per step"],
            parts: vec![Box::new(Gen { name: "histories", quick: 6_000, thorough: 300_000, strategy: s05, run: c05 }),
                Box::new(Gen { name: "spending", quick: 3_500, thorough: 150_000, strategy: s_tame, run: c05_spend })],
        },
        Property {
            id: "C38",
            rule: "at least one trade or deposit went through and was compared with the curve solved by bisection in 31-digit arithmetic",
            assumptions: &["both reserves between 100 and 10^9 tokens (internal), ratio at most 1000, before and after each step", "parameters as deployed pools have them (gamma at least 5e-5)", "tolerance: the solver's (at most 1e-5 tokens for trades comparable with the pool, about 1e-11 for small ones)"],
            parts: vec![Box::new(Gen { name: "histories", quick: 5_000, thorough: 250_000, strategy: s_tame, run: c38 })],
        },
        Property {
            id: "C39",
            rule: "the price scale moved at least once in the history, every step compared with the model",
            assumptions: &["both reserves between 100 and 10^9 tokens (internal), ratio at most 1000, before and after each step", "parameters as deployed pools have them", "within 1e-11 of a decision's limit either outcome is accepted"],
            parts: vec![Box::new(Gen { name: "histories", quick: 6_000, thorough: 250_000, strategy: s_tame, run: c39 })],
        },
    ]
}
