//! C06: the parameters of a concentrated pool stay within bounds, amplification and gamma move gradually.

use astroport::pair_concentrated::{ConcentratedPoolParams, ConcentratedPoolUpdateParams, PromoteParams, UpdatePoolParams};
use cosmwasm_std::Decimal;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::pools::*;
use crate::world::*;
use crate::ensure;

const E18: u128 = 1_000_000_000_000_000_000;
const DAY: u64 = 86_400;
const FEE: (u128, u128) = (50_000_000_000_000, 10_000_000_000_000_000);
const FEE_GAMMA: (u128, u128) = (0, E18);
const THRESHOLD: (u128, u128) = (0, 10_000_000_000_000_000);
const DELTA: (u128, u128) = (0, E18);
const HALF: (u64, u64) = (1, 604_800);
// the constant in the code is 1e23 as a float, a little less
const AMP: (u128, u128) = (100_000_000_000_000_000, 99_999_999_999_999_990_000_000);
const GAMMA: (u128, u128) = (10_000_000_000, 20_000_000_000_000_000);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct U {
    mid: Option<u128>,
    out: Option<u128>,
    fee_gamma: Option<u128>,
    threshold: Option<u128>,
    delta: Option<u128>,
    half: Option<u64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Update { stranger: bool, u: U },
    /// `rel`: the targets are multiples (1e-4) of the values in force
    Promote { stranger: bool, rel: bool, amp: u128, gamma: u128, secs: u64 },
    Stop { stranger: bool },
    Share { stranger: bool, bps: Option<u16> },
    Wait(u64),
    Swap { o: u8, part: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// mid, out, fee gamma, threshold, delta, amp, gamma
    init: [u128; 7],
    half: u64,
    steps: Vec<Step>,
}

fn d(x: u128) -> Decimal {
    Decimal::new(x.into())
}
fn within<T: PartialOrd>(x: T, b: (T, T)) -> bool {
    x >= b.0 && x <= b.1
}

#[derive(Clone, Debug)]
struct M {
    mid: u128,
    out: u128,
    fee_gamma: u128,
    threshold: u128,
    delta: u128,
    half: u64,
    /// amp and gamma at t0 and from t1 on
    from: [u128; 2],
    to: [u128; 2],
    t0: u64,
    t1: u64,
    share: Option<u16>,
}
impl M {
    fn now(&self, t: u64) -> [u128; 2] {
        if t >= self.t1 {
            return self.to;
        }
        [0, 1].map(|i| {
            let (l, p) = (u256((self.t1 - t) as u128), u256((t - self.t0) as u128));
            let x = (u256(self.from[i]) * l + u256(self.to[i]) * p) / u256((self.t1 - self.t0) as u128);
            cosmwasm_std::Uint128::try_from(x).unwrap().u128()
        })
    }
    /// the parameters after an update; None if it must be refused
    fn updated(&self, u: &U) -> Option<M> {
        let mut m = self.clone();
        macro_rules! set {
            ($f:ident, $b:expr) => {
                if let Some(x) = u.$f {
                    if !within(x, $b) {
                        return None;
                    }
                    m.$f = x;
                }
            };
        }
        set!(mid, FEE);
        set!(out, FEE);
        set!(fee_gamma, FEE_GAMMA);
        set!(threshold, THRESHOLD);
        set!(delta, DELTA);
        set!(half, HALF);
        if m.out <= m.mid {
            return None;
        }
        Some(m)
    }
}

fn c06(h: &Case, o: &mut Obs) -> V {
    let w = World::new(&[Fees { kind: Kind::Pcl, total: 0, maker: 0 }], false)?;
    let toks = [Tok { cw20: false, dec: 6 }, Tok { cw20: false, dec: 6 }];
    let infos = toks.iter().map(|t| w.tok(t)).collect::<R<Vec<_>>>()?;
    let [mid, out, fee_gamma, threshold, delta, amp, gamma] = h.init;
    let m = M {
        mid,
        out,
        fee_gamma,
        threshold,
        delta,
        half: h.half,
        from: [amp, gamma],
        to: [amp, gamma],
        t0: 0,
        t1: 0,
        share: None,
    };
    let u = U {
        mid: Some(mid),
        out: Some(out),
        fee_gamma: Some(fee_gamma),
        threshold: Some(threshold),
        delta: Some(delta),
        half: Some(h.half),
    };
    let fine = m.updated(&u).is_some() && within(amp, AMP) && within(gamma, GAMMA);
    let r = w.create(
        Kind::Pcl,
        &infos,
        &[6, 6],
        Some(&ConcentratedPoolParams {
            amp: d(amp),
            gamma: d(gamma),
            mid_fee: d(mid),
            out_fee: d(out),
            fee_gamma: d(fee_gamma),
            repeg_profit_threshold: d(threshold),
            min_price_scale_delta: d(delta),
            price_scale: Decimal::one(),
            ma_half_time: h.half,
            track_asset_balances: None,
            fee_share: None,
        }),
    );
    ensure!(r.is_ok() == fine, "a pool created with {h:?}: {:?}, expected success: {fine}", r.err());
    let Ok(p) = r else {
        o.tag("creation refused");
        return Ok(());
    };
    w.provide(&p, USERS[0], &[1_000_000_000_000, 1_000_000_000_000], &ProvideOpts::default())?;
    let mut m = m;
    compare(&w, &p, &m, "creation")?;
    for s in &h.steps {
        let t = w.c.time();
        let who = |stranger: bool| if stranger { USERS[1] } else { OWNER };
        let mut next = m.clone();
        // Some(true): must be accepted
        let (r, want) = match s {
            Step::Update { stranger, u } => {
                let r = w.update_pool(
                    &p,
                    who(*stranger),
                    &ConcentratedPoolUpdateParams::Update(UpdatePoolParams {
                        mid_fee: u.mid.map(d),
                        out_fee: u.out.map(d),
                        fee_gamma: u.fee_gamma.map(d),
                        repeg_profit_threshold: u.threshold.map(d),
                        min_price_scale_delta: u.delta.map(d),
                        ma_half_time: u.half,
                    }),
                );
                let x = m.updated(u);
                let ok = x.is_some() && !stranger;
                if let Some(x) = x {
                    next = x;
                }
                (r, Some(ok))
            }
            Step::Promote { stranger, rel, amp, gamma, secs } => {
                let cur = m.now(t);
                // the contract starts from its own values, equal up to the last digits
                let c = pcl_config(&w, &p)?;
                let own = [c.amp.atomics().u128(), c.gamma.atomics().u128()];
                let mut to = [*amp, *gamma];
                if *rel {
                    to = [0, 1].map(|i| mul_div(own[i], [*amp, *gamma][i], 10_000));
                }
                let r = w.update_pool(
                    &p,
                    who(*stranger),
                    &ConcentratedPoolUpdateParams::Promote(PromoteParams {
                        next_amp: d(to[0]),
                        next_gamma: d(to[1]),
                        future_time: t + secs,
                    }),
                );
                let mut ok = Some(
                    !stranger && t >= m.t0 + DAY && *secs >= DAY && within(to[0], AMP) && within(to[1], GAMMA),
                );
                if ok == Some(true) {
                    for i in 0..2 {
                        let (hi, lo) = (to[i].max(cur[i]), to[i].min(cur[i]));
                        if hi > lo * 10 + lo / 1_000_000_000_000 + 20 {
                            ok = Some(false);
                        } else if hi + 20 > lo * 10 && hi != lo * 10 && ok == Some(true) {
                            // at the limit
                            ok = None;
                        }
                    }
                }
                next.from = own;
                next.to = to;
                next.t0 = t;
                next.t1 = t + secs;
                (r, ok)
            }
            Step::Stop { stranger } => {
                let c = pcl_config(&w, &p)?;
                let r = w.update_pool(&p, who(*stranger), &ConcentratedPoolUpdateParams::StopChangingAmpGamma {});
                next.to = [c.amp.atomics().u128(), c.gamma.atomics().u128()];
                next.t1 = t;
                (r, Some(!stranger))
            }
            Step::Share { stranger, bps } => {
                let r = match bps {
                    Some(b) => w.update_pool(
                        &p,
                        who(*stranger),
                        &ConcentratedPoolUpdateParams::EnableFeeShare {
                            fee_share_bps: *b,
                            fee_share_address: SHARE.into(),
                        },
                    ),
                    None => w.update_pool(&p, who(*stranger), &ConcentratedPoolUpdateParams::DisableFeeShare),
                };
                next.share = *bps;
                (r, Some(!stranger && bps.map_or(true, |b| (1..=1000).contains(&b))))
            }
            Step::Wait(secs) => {
                w.c.advance(1 + secs / 6, *secs);
                (Ok(Resp::default()), Some(true))
            }
            Step::Swap { o: of, part } => {
                let of = *of as usize % 2;
                let x = mul_div(w.reserves(&p)[of], *part as u128, 1_000_000);
                let _ = w.swap(&p, USERS[1], of, 1 - of, x, &SwapOpts::loose());
                (Ok(Resp::default()), Some(true))
            }
        };
        if let Some(want) = want {
            ensure!(
                r.is_ok() == want,
                "{s:?} at {t}: {:?}, expected success: {want}; in force {m:?}",
                r.err()
            );
        }
        let name = match s {
            Step::Update { .. } => "update",
            Step::Promote { .. } => "promotion",
            Step::Stop { .. } => "stop",
            Step::Share { .. } => "fee share",
            Step::Wait(_) => "",
            Step::Swap { .. } => "",
        };
        if r.is_ok() {
            if t < m.t1 && matches!(s, Step::Wait(_)) {
                o.tag("during a promotion");
            }
            if !name.is_empty() {
                o.tag(name);
                o.nontrivial = true;
            }
            m = next;
        } else {
            o.tag(format!("{name} refused"));
        }
        compare(&w, &p, &m, &format!("{s:?}"))?;
    }
    Ok(())
}

fn compare(w: &World, p: &Pool, m: &M, what: &str) -> V {
    let c = pcl_config(w, p)?;
    let a = |x: Decimal| x.atomics().u128();
    let got = (a(c.mid_fee), a(c.out_fee), a(c.fee_gamma), a(c.repeg_profit_threshold), a(c.min_price_scale_delta), c.ma_half_time);
    let want = (m.mid, m.out, m.fee_gamma, m.threshold, m.delta, m.half);
    ensure!(got == want, "after {what}: parameters {got:?}, expected {want:?}");
    let now = m.now(w.c.time());
    for (i, (x, name)) in [(a(c.amp), "amp"), (a(c.gamma), "gamma")].into_iter().enumerate() {
        ensure!(x.abs_diff(now[i]) <= 2, "after {what}: {name} {x}, expected {}; {m:?} at {}", now[i], w.c.time());
        ensure!(within(x, [AMP, GAMMA][i]), "after {what}: {name} {x} out of bounds");
    }
    let s = c.fee_share.map(|x| (x.bps, x.recipient.to_string()));
    ensure!(s == m.share.map(|b| (b, SHARE.to_string())), "after {what}: fee share {s:?}, expected {:?}", m.share);
    Ok(())
}

/// mostly within the bounds, often at them or next to them
fn near(b: (u128, u128)) -> BoxedStrategy<u128> {
    let (lo, hi) = b;
    prop_oneof![
        12 => lo..=hi,
        4 => (0u32..19, 1u128..1000).prop_map(move |(e, x)| (x * 10u128.pow(e)).clamp(lo, hi)),
        1 => Just(lo),
        1 => Just(hi),
        1 => Just(lo.saturating_sub(1)),
        1 => Just(if hi == AMP.1 { 100_000 * E18 + 1 } else { hi + 1 }),
    ]
    .boxed()
}
fn half() -> BoxedStrategy<u64> {
    prop_oneof![8 => HALF.0..=HALF.1, 1 => Just(HALF.0), 1 => Just(HALF.1), 1 => Just(0u64), 1 => Just(HALF.1 + 1)].boxed()
}
fn step() -> BoxedStrategy<Step> {
    let stranger = || prop::bool::weighted(0.06);
    let op = |b: (u128, u128)| prop::option::weighted(0.35, near(b));
    let update = (stranger(), op(FEE), op(FEE), op(FEE_GAMMA), op(THRESHOLD), op(DELTA), prop::option::weighted(0.3, half()))
        .prop_map(|(stranger, mid, out, fee_gamma, threshold, delta, half)| Step::Update {
            stranger,
            u: U { mid, out, fee_gamma, threshold, delta, half },
        });
    let secs = || {
        prop_oneof![
            9 => DAY..DAY * 30,
            1 => Just(DAY),
            1 => Just(DAY - 1),
            1 => 0u64..DAY,
            2 => DAY..1_000_000_000,
        ]
    };
    let factor = || prop_oneof![9 => 1_000u128..=10_000, 9 => 10_000u128..=100_000, 2 => 9_000u128..11_000, 1 => Just(100_001u128), 1 => Just(999u128), 1 => 0u128..1_000_000];
    let promote = prop_oneof![
        5 => (stranger(), factor(), factor(), secs()).prop_map(|(stranger, amp, gamma, secs)| Step::Promote { stranger, rel: true, amp, gamma, secs }),
        1 => (stranger(), near(AMP), near(GAMMA), secs()).prop_map(|(stranger, amp, gamma, secs)| Step::Promote { stranger, rel: false, amp, gamma, secs }),
    ];
    prop_oneof![
        6 => update,
        4 => promote,
        1 => stranger().prop_map(|stranger| Step::Stop { stranger }),
        1 => (stranger(), prop::option::weighted(0.8, prop_oneof![4 => 1u16..=1000, 1 => Just(0u16), 1 => Just(1001u16), 1 => any::<u16>()]))
            .prop_map(|(stranger, bps)| Step::Share { stranger, bps }),
        6 => prop_oneof![2 => 1u64..DAY, 3 => DAY..DAY * 40, 1 => Just(DAY), 1 => Just(DAY - 1), 1 => 1u64..1_000_000_000].prop_map(Step::Wait),
        1 => (0u8..2, 1u64..300_000).prop_map(|(o, part)| Step::Swap { o, part }),
    ]
    .boxed()
}
fn s06(deep: bool) -> BoxedStrategy<Case> {
    let fees = prop_oneof![
        5 => (FEE.0..=FEE.1, FEE.0..=FEE.1).prop_map(|(a, b)| (a.min(b), a.max(b).max(a.min(b) + 1))),
        1 => (near(FEE), near(FEE)),
        1 => near(FEE).prop_map(|x| (x, x)),
    ];
    let tame = |b: (u128, u128)| prop_oneof![6 => b.0..=b.1, 1 => near(b)];
    (
        (fees, tame(FEE_GAMMA), tame(THRESHOLD), tame(DELTA)),
        (
            prop_oneof![6 => E18..1000 * E18, 1 => tame(AMP)],
            prop_oneof![6 => 100_000_000_000u128..1_000_000_000_000_000, 1 => tame(GAMMA)],
        ),
        prop_oneof![6 => HALF.0..=HALF.1, 1 => half()],
        prop::collection::vec(step(), 1..if deep { 40 } else { 16 }),
    )
        .prop_map(|(((mid, out), fg, th, de), (amp, gamma), half, steps)| Case {
            init: [mid, out, fg, th, de, amp, gamma],
            half,
            steps,
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C06",
        rule: "at least one change of the pool's parameters was accepted; after every step the Config query was compared with the model",
        assumptions: &["the end of a promotion is at most 30 years away", "a change by a factor within 20 units of the last digit of ten may be accepted or refused"],
        parts: vec![Box::new(Gen { name: "parameters", quick: 20_000, thorough: 1_000_000, strategy: s06, run: c06 })],
    }]
}
