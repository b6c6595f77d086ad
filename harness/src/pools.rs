//! Generated pools (any kind) and generated histories of operations on them.

use astroport::pair::{
    StablePoolParams, StablePoolUpdateParams, XYKPoolParams, XYKPoolUpdateParams,
};
use astroport::pair_concentrated::{ConcentratedPoolParams, ConcentratedPoolUpdateParams, PromoteParams};
use astroport::pair_xyk_sale_tax::{SaleTaxInitParams, TaxConfig};
use cosmwasm_std::{Decimal, StdError};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::gen;
use crate::world::*;

const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PclP {
    /// amp * 10
    pub amp: u32,
    /// gamma * 1e8
    pub gamma: u32,
    /// fees * 1e6
    pub mid: u32,
    pub out: u32,
    /// fee_gamma * 1e7
    pub fee_gamma: u32,
    /// 1e9
    pub threshold: u32,
    /// 1e9
    pub delta: u32,
    pub half_time: u64,
    /// initial price scale = mantissa (1e4..1e5) * 10^exp / 1e4
    pub price: (u32, i8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub kind: Kind,
    pub toks: Vec<Tok>,
    pub rev: bool,
    pub total: u16,
    pub maker: u16,
    pub fee_addr: bool,
    pub track: bool,
    /// integrator fee share in bps
    pub share: Option<u16>,
    /// stableswap amplification
    pub amp: u64,
    pub pcl: PclP,
    /// sale taxes per token, 1/10000
    pub tax: Vec<Option<u16>>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
    Abs(u128),
    /// millionths of the pool's reserve
    Rel(u64),
}
impl Amt {
    pub fn of(&self, reserve: u128) -> u128 {
        match self {
            Amt::Abs(x) => *x,
            Amt::Rel(m) => mul_div(reserve, *m as u128, 1_000_000).max(1),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// amounts per asset; `bal` forces the amounts into the pool's proportion of the first one
    Provide { u: u8, amts: Vec<Amt>, bal: bool, to: Option<u8> },
    Swap { u: u8, o: u8, a: u8, amt: Amt, to: Option<u8> },
    /// share of the LP tokens of the `u`-th holder, in millionths
    Withdraw { u: u8, part: u32 },
    Donate { u: u8, i: u8, amt: Amt },
    Gap { blocks: u8, secs: u32 },
    Fees { total: u16, maker: u16 },
    Share(Option<u16>),
    /// stableswap and concentrated: start a ramp to the current value times `num`/10000, ending `secs` from now
    Amp { num: u32, secs: u32 },
    StopAmp,
}

pub fn pcl_params(p: &PclP, track: bool) -> ConcentratedPoolParams {
    let ten = |e: i8| {
        if e >= 0 {
            Decimal::from_ratio(10u128.pow(e as u32), 1u128)
        } else {
            Decimal::from_ratio(1u128, 10u128.pow((-e) as u32))
        }
    };
    ConcentratedPoolParams {
        amp: Decimal::from_ratio(p.amp, 10u32),
        gamma: Decimal::from_ratio(p.gamma, 100_000_000u32),
        mid_fee: Decimal::from_ratio(p.mid, 1_000_000u32),
        out_fee: Decimal::from_ratio(p.out, 1_000_000u32),
        fee_gamma: Decimal::from_ratio(p.fee_gamma, 10_000_000u32),
        repeg_profit_threshold: Decimal::from_ratio(p.threshold, 1_000_000_000u32),
        min_price_scale_delta: Decimal::from_ratio(p.delta, 1_000_000_000u32),
        price_scale: Decimal::from_ratio(p.price.0, 10_000u32) * ten(p.price.1),
        ma_half_time: p.half_time,
        track_asset_balances: Some(track),
        fee_share: None,
    }
}

impl Setup {
    pub fn build(&self) -> R<(World, Pool)> {
        let w = World::new(
            &[Fees {
                kind: self.kind,
                total: self.total,
                maker: self.maker,
            }],
            self.fee_addr,
        )?;
        let p = self.add(&w)?;
        Ok((w, p))
    }
    /// create the tokens and the pool in an existing world
    pub fn add(&self, w: &World) -> R<Pool> {
        let infos: Vec<_> = self
            .toks
            .iter()
            .map(|t| w.tok(t))
            .collect::<R<_>>()?;
        self.add_with(w, infos)
    }
    pub fn add_with(&self, w: &World, mut infos: Vec<astroport::asset::AssetInfo>) -> R<Pool> {
        let mut decs: Vec<_> = self.toks.iter().map(|t| t.dec).collect();
        let taxes: Vec<_> = infos
            .iter()
            .zip(&self.tax)
            .filter(|(i, _)| i.is_native_token())
            .filter_map(|(i, t)| {
                t.map(|t| {
                    (
                        info_str(i),
                        TaxConfig {
                            tax_rate: Decimal::from_ratio(t, 10_000u32),
                            tax_recipient: TAXED.to_string(),
                        },
                    )
                })
            })
            .collect();
        if self.rev {
            infos.reverse();
            decs.reverse();
        }
        let p = match self.kind {
            Kind::Xyk => w.create(
                self.kind,
                &infos,
                &decs,
                Some(&XYKPoolParams {
                    track_asset_balances: Some(self.track),
                }),
            )?,
            Kind::Stable => w.create(
                self.kind,
                &infos,
                &decs,
                Some(&StablePoolParams {
                    amp: self.amp,
                    owner: None,
                }),
            )?,
            Kind::Pcl => w.create(self.kind, &infos, &decs, Some(&pcl_params(&self.pcl, self.track)))?,
            Kind::Tax => w.create(
                self.kind,
                &infos,
                &decs,
                Some(&SaleTaxInitParams {
                    tax_configs: taxes
                        .iter()
                        .map(|(k, v)| (k.as_str(), v.clone()))
                        .collect::<Vec<_>>()
                        .into(),
                    tax_config_admin: TAXADM.into(),
                    track_asset_balances: self.track,
                }),
            )?,
            Kind::Transmuter => w.create::<()>(self.kind, &infos, &decs, None)?,
        };
        if self.share.is_some() {
            set_share(w, &p, self.share)?;
        }
        Ok(p)
    }
}

pub fn set_share(w: &World, p: &Pool, bps: Option<u16>) -> R<Resp> {
    macro_rules! m {
        ($t:ident) => {
            match bps {
                Some(b) => w.update_pool(
                    p,
                    OWNER,
                    &$t::EnableFeeShare {
                        fee_share_bps: b,
                        fee_share_address: SHARE.into(),
                    },
                ),
                None => w.update_pool(p, OWNER, &$t::DisableFeeShare {}),
            }
        };
    }
    match p.kind {
        Kind::Xyk => match bps {
            Some(b) => w.update_pool(
                p,
                OWNER,
                &XYKPoolUpdateParams::EnableFeeShare {
                    fee_share_bps: b,
                    fee_share_address: SHARE.into(),
                },
            ),
            None => w.update_pool(p, OWNER, &XYKPoolUpdateParams::DisableFeeShare),
        },
        Kind::Stable => m!(StablePoolUpdateParams),
        Kind::Pcl => m!(ConcentratedPoolUpdateParams),
        _ => Err(StdError::generic_err("no fee share").to_string()),
    }
}

/// the integrator's fee share is between 1 and 1000 basis points
pub fn share_bounds(w: &World, p: &Pool) -> crate::engine::V {
    for bps in [0, 1, 1000, 1001, 10_000, u16::MAX] {
        let ok = w.c.dry(|| set_share(w, p, Some(bps)).is_ok());
        crate::ensure!(
            ok == (1..=1000).contains(&bps),
            "a fee share of {bps} basis points is {}",
            if ok { "accepted" } else { "refused" }
        );
    }
    Ok(())
}

/// an account that holds LP tokens (if there is one), chosen by `u`
pub fn holder(w: &World, p: &Pool, u: u8) -> &'static str {
    let v: Vec<_> = USERS.iter().filter(|x| w.lp_bal(p, x) > 0).collect();
    if v.is_empty() {
        user(u)
    } else {
        v[u as usize % v.len()]
    }
}
pub fn user(u: u8) -> &'static str {
    USERS[u as usize % USERS.len()]
}
pub fn opt_user(u: &Option<u8>) -> Option<String> {
    u.map(|u| user(u).to_string())
}

/// the concrete amounts of a deposit operation
pub fn deposit_amounts(w: &World, p: &Pool, amts: &[Amt], bal: bool) -> Vec<u128> {
    let r = w.reserves(p);
    let mut v: Vec<u128> = p
        .infos
        .iter()
        .enumerate()
        .map(|(i, _)| amts[i % amts.len()].of(r[i]))
        .collect();
    if bal && r.iter().all(|x| *x > 0) && v[0] > 0 {
        for i in 1..v.len() {
            v[i] = mul_div_ceil(v[0], r[i], r[0]);
        }
    }
    v
}

/// apply an operation; the error is the contract's
pub fn apply(w: &World, p: &Pool, op: &Op) -> R<()> {
    match op {
        Op::Provide { u, amts, bal, to } => {
            let v = deposit_amounts(w, p, amts, *bal);
            w.provide(
                p,
                user(*u),
                &v,
                &ProvideOpts {
                    slip: Some(Decimal::percent(50)),
                    receiver: opt_user(to),
                    ..Default::default()
                },
            )
            .map(|_| ())
        }
        Op::Swap { u, o, a, amt, to } => {
            let (o, a) = dirs(p, *o, *a);
            let x = amt.of(w.bal(&p.infos[o], &p.addr));
            w.swap(
                p,
                user(*u),
                o,
                a,
                x,
                &SwapOpts {
                    // some traders accept any price: these trades go through whatever they pay, also nothing
                    belief: (x % 4 == 0).then(|| Decimal::from_ratio(E18, 1u128)),
                    max_spread: Some(Decimal::percent(50)),
                    to: opt_user(to),
                },
            )
            .map(|_| ())
        }
        Op::Withdraw { u, part } => {
            let h = holder(w, p, *u);
            w.withdraw(p, h, lp_part(w.lp_bal(p, h), *part), vec![], None)
                .map(|_| ())
        }
        Op::Donate { u, i, amt } => {
            let i = *i as usize % p.infos.len();
            let x = amt.of(w.bal(&p.infos[i], &p.addr));
            w.transfer(&p.infos[i], user(*u), &p.addr, x)
        }
        Op::Gap { blocks, secs } => {
            w.c.advance(*blocks as u64, *secs as u64);
            Ok(())
        }
        Op::Fees { total, maker } => w.update_pair_config(p.kind, *total, *maker).map(|_| ()),
        Op::Share(s) => set_share(w, p, *s).map(|_| ()),
        Op::Amp { num, secs } if p.kind == Kind::Pcl => {
            let c = pcl_config(w, p)?;
            let future_time = w.c.time() + *secs as u64;
            w.update_pool(
                p,
                OWNER,
                &ConcentratedPoolUpdateParams::Promote(PromoteParams {
                    next_amp: c.amp * Decimal::from_ratio((*num).clamp(1_000, 100_000), 10_000u32),
                    // between a seventh and seven times
                    next_gamma: c.gamma * Decimal::from_ratio(1_400 + secs % 8_600, 1_400 + (secs / 8_600) % 8_600),
                    future_time,
                }),
            )
            .map(|_| ())
        }
        Op::StopAmp if p.kind == Kind::Pcl => {
            w.update_pool(p, OWNER, &ConcentratedPoolUpdateParams::StopChangingAmpGamma {}).map(|_| ())
        }
        Op::Amp { num, secs } => {
            let next_amp = (amp_now(w, p)? * *num as u64 / 10_000).max(1);
            w.update_pool(
                p,
                OWNER,
                &StablePoolUpdateParams::StartChangingAmp {
                    next_amp,
                    next_amp_time: w.c.time() + *secs as u64,
                },
            )
            .map(|_| ())
        }
        Op::StopAmp => w
            .update_pool(p, OWNER, &StablePoolUpdateParams::StopChangingAmp {})
            .map(|_| ()),
    }
}

/// the amplification in force, in hundredths
pub fn amp_now(w: &World, p: &Pool) -> R<u64> {
    let c: astroport::pair::ConfigResponse =
        w.c.query(&p.addr, &astroport::pair::QueryMsg::Config {})?;
    let c: astroport::pair::StablePoolConfig =
        cosmwasm_std::from_json(c.params.ok_or("no params")?).map_err(|e| e.to_string())?;
    Ok((c.amp.atomics().u128() / 10_000_000_000_000_000) as u64)
}

/// amounts of whole tokens (in millionths) in a token's own precision
pub fn tokens(millionths: u128, dec: u8) -> u128 {
    mul_div(millionths, 10u128.pow(dec as u32), 1_000_000)
}
/// millionths of whole tokens for a first deposit: `lo..hi` decimal orders of the first amount, the second within
/// `skew` orders of it
pub fn first_tokens(lo: u32, hi: u32, skew: u32) -> BoxedStrategy<Vec<u128>> {
    (gen::amount(lo, hi), prop_oneof![1 => Just(0i32), 3 => -(skew as i32)..=(skew as i32)], 100u128..1000)
        .prop_map(|(a, e, m)| {
            let p = 10u128.pow(e.unsigned_abs());
            let b = if e >= 0 { a * p } else { a / p };
            vec![a, (mul_div(b, m, 500)).max(1)]
        })
        .boxed()
}

pub fn lp_part(b: u128, part: u32) -> u128 {
    mul_div(b, part as u128, 1_000_000).max(1)
}
pub fn dirs(p: &Pool, o: u8, a: u8) -> (usize, usize) {
    let n = p.infos.len();
    let o = o as usize % n;
    let mut a = a as usize % n;
    if a == o {
        a = (o + 1) % n;
    }
    (o, a)
}

// ----------------------------------------------------------------------------------------------- strategies

pub fn tok() -> BoxedStrategy<Tok> {
    (prop::bool::weighted(0.35), gen::decimals())
        .prop_map(|(cw20, dec)| Tok { cw20, dec })
        .boxed()
}
/// cw20 tokens of the standard contract have at most 18 decimals
pub fn toks(n: usize) -> BoxedStrategy<Vec<Tok>> {
    prop::collection::vec(tok(), n).boxed()
}

pub fn pcl_p() -> BoxedStrategy<PclP> {
    (
        prop_oneof![Just(400u32), 10u32..2000, 1u32..1_000_000],
        prop_oneof![Just(14_500u32), 1_000u32..200_000, 1u32..2_000_000],
        (50u32..=10_000, 50u32..=10_000),
        prop_oneof![Just(2_300u32), 1u32..10_000_000],
        (prop_oneof![Just(2_000u32), 0u32..10_000_000], prop_oneof![Just(146_000u32), 0u32..10_000_000]),
        prop_oneof![Just(600u64), 1u64..604_800],
        (10_000u32..100_000, -4i8..4),
    )
        .prop_map(|(amp, gamma, (a, b), fee_gamma, (threshold, delta), half_time, price)| PclP {
            amp,
            gamma,
            mid: a.min(b).min(9_999),
            out: a.max(b).max(a.min(b) + 1).min(10_000),
            fee_gamma,
            threshold,
            delta,
            half_time,
            price,
        })
        .boxed()
}

pub fn setup(kind: Kind) -> BoxedStrategy<Setup> {
    let n = match kind {
        Kind::Transmuter => (2usize..=5).boxed(),
        _ => Just(2usize).boxed(),
    };
    n.prop_flat_map(move |n| {
        (
            toks(n),
            any::<bool>(),
            gen::bps(),
            gen::bps(),
            prop::bool::weighted(0.8),
            any::<bool>(),
            prop::option::weighted(0.4, prop_oneof![Just(1u16), Just(1000), 1u16..=1000]),
            prop_oneof![Just(100u64), Just(1), 1u64..2000, 1u64..=1_000_000],
            pcl_p(),
            prop::collection::vec(
                prop::option::weighted(0.6, prop_oneof![Just(0u16), Just(5000), 1u16..5000]),
                n,
            ),
        )
            .prop_map(
                move |(mut toks, rev, total, maker, fee_addr, track, share, amp, pcl, tax)| {
                    if kind == Kind::Transmuter {
                        toks.iter_mut().for_each(|t| t.cw20 = false);
                    }
                    Setup {
                        kind,
                        toks,
                        rev,
                        total,
                        maker,
                        fee_addr,
                        track,
                        share: share.filter(|_| matches!(kind, Kind::Xyk | Kind::Stable | Kind::Pcl)),
                        amp,
                        pcl,
                        tax,
                    }
                },
            )
    })
    .boxed()
}

/// relative amounts: log-uniform from a millionth to `10^hi` times the reserve
pub fn rel(hi: u32) -> BoxedStrategy<Amt> {
    prop_oneof![
        6 => (0u32..6 + hi, 100u64..1000).prop_map(|(e, m)| Amt::Rel((m * 10u64.pow(e) / 100).max(1))),
        2 => gen::amount(0, 12).prop_map(Amt::Abs),
        1 => (0u128..4).prop_map(Amt::Abs),
    ]
    .boxed()
}

pub struct OpMix {
    pub provide: u32,
    pub swap: u32,
    pub withdraw: u32,
    pub donate: u32,
    pub gap: u32,
    pub fees: u32,
    pub share: u32,
    pub amp: u32,
}
impl Default for OpMix {
    fn default() -> Self {
        OpMix {
            provide: 4,
            swap: 6,
            withdraw: 3,
            donate: 1,
            gap: 3,
            fees: 0,
            share: 0,
            amp: 0,
        }
    }
}

pub fn op(m: OpMix) -> BoxedStrategy<Op> {
    let to = || prop::option::weighted(0.25, 0u8..4);
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (
            m.provide,
            (0u8..4, prop::collection::vec(rel(1), 5), prop::bool::weighted(0.65), to())
                .prop_map(|(u, amts, bal, to)| Op::Provide { u, amts, bal, to })
                .boxed(),
        ),
        (
            m.swap,
            (0u8..4, 0u8..5, 0u8..5, rel(1), to())
                .prop_map(|(u, o, a, amt, to)| Op::Swap { u, o, a, amt, to })
                .boxed(),
        ),
        (
            m.withdraw,
            (
                0u8..4,
                prop_oneof![Just(1_000_000u32), 0u32..=1_000_000, 0u32..100],
            )
                .prop_map(|(u, part)| Op::Withdraw { u, part })
                .boxed(),
        ),
        (
            m.donate,
            (0u8..4, 0u8..5, rel(0)).prop_map(|(u, i, amt)| Op::Donate { u, i, amt }).boxed(),
        ),
        (
            m.gap,
            (0u8..4, gen::gap())
                .prop_map(|(blocks, secs)| Op::Gap {
                    blocks: blocks.max((secs > 0) as u8),
                    secs: if blocks == 0 { 0 } else { secs },
                })
                .boxed(),
        ),
        (
            m.fees,
            (gen::bps(), gen::bps())
                .prop_map(|(total, maker)| Op::Fees { total, maker })
                .boxed(),
        ),
        (
            m.share,
            prop::option::weighted(0.7, 1u16..=1000).prop_map(Op::Share).boxed(),
        ),
    ];
    v.push((
        m.amp,
        prop_oneof![
            4 => (prop_oneof![5u32..2100, 90u32..110], prop_oneof![80_000u32..2_000_000])
                .prop_map(|(num, secs)| Op::Amp { num, secs }),
            1 => Just(Op::StopAmp),
        ]
        .boxed(),
    ));
    v.retain(|(w, _)| *w > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// a pool, the amounts of its first deposit and a history
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub setup: Setup,
    pub first: Vec<u128>,
    pub ops: Vec<Op>,
}

/// `lo..hi` decimal orders of the first deposit's amounts; `skew` orders of difference between them
pub fn history(
    setup: BoxedStrategy<Setup>,
    first: BoxedStrategy<Vec<u128>>,
    mix: fn() -> OpMix,
    n: std::ops::Range<usize>,
) -> BoxedStrategy<History> {
    (setup, first, prop::collection::vec(op(mix()), n))
        .prop_map(|(setup, first, ops)| History { setup, first, ops })
        .boxed()
}
pub fn first_any(lo: u32, hi: u32) -> BoxedStrategy<Vec<u128>> {
    prop::collection::vec(gen::amount(lo, hi), 5).boxed()
}

// ------------------------------------------------------------------------------------------------ snapshots

/// balances of every known account in every asset
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub who: Vec<String>,
    pub bal: Vec<Vec<u128>>,
}

pub fn snap(w: &World, infos: &[astroport::asset::AssetInfo]) -> Snap {
    let mut who: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    who.extend([OWNER, FEE, SHARE, TAXED, TAXADM].map(String::from));
    who.extend(w.c.contracts().iter().map(|m| m.addr.to_string()));
    let bal = who
        .iter()
        .map(|a| infos.iter().map(|i| w.bal(i, a)).collect())
        .collect();
    Snap { who, bal }
}

impl Snap {
    /// `self` with the moves `(from, to, asset, amount)` applied
    pub fn after(&self, moves: &[(&str, &str, usize, u128)]) -> Snap {
        let mut s = self.clone();
        for (f, t, i, a) in moves {
            for (x, w) in s.who.iter().enumerate() {
                if w == f {
                    s.bal[x][*i] = s.bal[x][*i].wrapping_sub(*a);
                }
                if w == t {
                    s.bal[x][*i] = s.bal[x][*i].wrapping_add(*a);
                }
            }
        }
        s
    }
    /// first difference, for reports
    pub fn diff(&self, o: &Snap) -> Option<String> {
        if self.who != o.who {
            return Some("set of accounts changed".into());
        }
        for (k, w) in self.who.iter().enumerate() {
            for i in 0..self.bal[k].len() {
                if self.bal[k][i] != o.bal[k][i] {
                    return Some(format!(
                        "{w} has {} of asset {i}, expected {}",
                        o.bal[k][i], self.bal[k][i]
                    ));
                }
            }
        }
        None
    }
}

/// first deposit (amounts per asset) of a pool whose curve is balanced at its price: `v[0]` millionths of whole tokens
/// of the first asset and, for concentrated pools, the same value of the second one times `v[1]/v[0]`
pub fn first_amounts(s: &Setup, p: &Pool, v: &[u128]) -> Vec<u128> {
    let b = v[1 % v.len()];
    let b = if s.kind == Kind::Pcl {
        let (m, e) = s.pcl.price;
        let b = mul_div(b, 10_000, m as u128);
        if e >= 0 {
            b / 10u128.pow(e as u32)
        } else {
            b * 10u128.pow((-e) as u32)
        }
    } else {
        b
    };
    vec![tokens(v[0], p.decs[0]).max(1), tokens(b, p.decs[1]).max(1)]
}
/// parameters as deployed pools have them
pub fn pcl_usual() -> BoxedStrategy<PclP> {
    (
        prop_oneof![Just(400u32), 50u32..5000],
        prop_oneof![Just(14_500u32), 5_000u32..1_000_000],
        (100u32..=3000, 100u32..=10_000),
        prop_oneof![Just(2_300u32), 1_000u32..1_000_000],
        (prop_oneof![Just(2_000u32), 100u32..100_000], prop_oneof![Just(146_000u32), 1_000u32..1_000_000]),
        prop_oneof![Just(600u64), 60u64..10_000],
        (10_000u32..100_000, -3i8..3),
    )
        .prop_map(|(amp, gamma, (a, b), fee_gamma, (threshold, delta), half_time, price)| PclP {
            amp,
            gamma,
            mid: a.min(b).min(9_999),
            out: a.max(b).max(a.min(b) + 1).min(10_000),
            fee_gamma,
            threshold,
            delta,
            half_time,
            price,
        })
        .boxed()
}
pub fn usual(kind: Kind) -> BoxedStrategy<Setup> {
    (setup(kind), pcl_usual())
        .prop_map(|(mut s, pcl)| {
            s.pcl = pcl;
            s
        })
        .boxed()
}

/// parameters in force of a concentrated pool
pub fn pcl_config(w: &World, p: &Pool) -> R<astroport::pair_concentrated::ConcentratedPoolConfig> {
    let c: astroport::pair::ConfigResponse = w.c.query(&p.addr, &astroport::pair::QueryMsg::Config {})?;
    cosmwasm_std::from_json(c.params.ok_or("no params")?).map_err(|e| e.to_string())
}
/// reserves of a concentrated pool as its curve sees them: whole tokens, the second asset in units of the first; for
/// size checks only
pub fn pcl_sizes(w: &World, p: &Pool) -> R<[f64; 2]> {
    let scale: f64 = pcl_config(w, p)?.price_scale.to_string().parse().map_err(|_| "price scale")?;
    let r = w.reserves(p);
    let whole = |i: usize| r[i] as f64 / 10f64.powi(p.decs[i] as i32);
    Ok([whole(0), whole(1) * scale])
}
