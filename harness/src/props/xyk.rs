//! C01, C02: the constant-product pool.

use cosmwasm_std::Decimal;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

use crate::engine::*;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

/// ratios the contracts' 18-digit decimals cannot hold are refused; no trade or deposit is owed there
pub fn far(a: u128, b: u128) -> bool {
    a.max(1) / b.max(1) > 1 << 60 || b.max(1) / a.max(1) > 1 << 60
}

pub const E18: u128 = 1_000_000_000_000_000_000;

#[derive(Debug, Clone, Default)]
pub struct Quote {
    pub gross: u128,
    pub spread: u128,
    pub commission: u128,
    pub net: u128,
    pub share: u128,
    pub maker: u128,
}

/// the constant-product trade, from the statement: reserves (x, y), offer dx
pub fn quote(x: u128, y: u128, dx: u128, fee: u16, share: u16, maker: u16) -> Quote {
    let k = u256(x) * u256(y);
    let den = u256(x) + u256(dx);
    // the new reserve is k/den carried to 18 decimals; what exceeds it in whole units is paid
    let q = k / den;
    let frac = (k - q * den) * u256(E18) / den;
    let y1 = if frac.is_zero() { q } else { q + u256(1) };
    let gross = u256(y) - y1;
    let gross: Uint128 = gross.try_into().unwrap();
    let gross = gross.u128();
    let ideal = mul_div(dx, y, x);
    let commission = mul_div(gross, fee as u128, 10_000);
    let share_amt = mul_div(commission, share as u128, 10_000);
    Quote {
        gross,
        spread: ideal.saturating_sub(gross),
        commission,
        net: gross - commission,
        share: share_amt,
        maker: mul_div(commission - share_amt, maker as u128, 10_000),
    }
}
use cosmwasm_std::Uint128;

fn mix() -> OpMix {
    OpMix {
        swap: 10,
        fees: 1,
        share: 1,
        ..Default::default()
    }
}

fn c01(h: &History, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    let (mut fee, mut maker, mut share) = (h.setup.total, h.setup.maker, h.setup.share);
    let r = w.provide(&p, USERS[0], &h.first[..2], &ProvideOpts::default());
    let seeded = r.is_ok();
    o.tag(if seeded { "seeded" } else { "unseeded" });
    for (n, op) in h.ops.iter().enumerate() {
        let Op::Swap { u, o: off, a, amt, to } = op else {
            let r = apply(&w, &p, op);
            match (op, r.is_ok()) {
                (Op::Fees { total, maker: m }, ok) => {
                    ensure!(ok, "op {n}: valid fee configuration refused: {r:?}");
                    (fee, maker) = (*total, *m);
                }
                (Op::Share(s), ok) => {
                    ensure!(ok, "op {n}: valid fee share {s:?} refused: {r:?}");
                    share = *s;
                    share_bounds(&w, &p)?;
                }
                _ => {}
            }
            continue;
        };
        let (off, ask) = dirs(&p, *off, *a);
        let res = w.reserves(&p);
        let (x, y) = (res[off], res[ask]);
        let dx = amt.of(x);
        let before = snap(&w, &p.infos);
        let lp = w.lp_supply(&p);
        let r = apply(&w, &p, op);
        let after = snap(&w, &p.infos);
        if x == 0 || y == 0 || dx == 0 {
            ensure!(r.is_err(), "op {n}: swap of {dx} against reserves {x}/{y} succeeded");
            o.tag("swap on empty pool");
            continue;
        }
        let q = quote(x, y, dx, fee, share.unwrap_or(0), maker);
        let trader = user(*u);
        let to = opt_user(to).unwrap_or_else(|| trader.into());
        match r {
            Ok(_) => {
                let fee_to_maker = if h.setup.fee_addr { q.maker } else { 0 };
                let want = before.after(&[
                    (trader, &p.addr, off, dx),
                    (&p.addr, &to, ask, q.net),
                    (&p.addr, SHARE, ask, q.share),
                    (&p.addr, FEE, ask, fee_to_maker),
                ]);
                if let Some(d) = want.diff(&after) {
                    viol!("op {n}: swap of {dx} against {x}/{y} (fee {fee}, share {share:?}, maker {maker}): {d}");
                }
                ensure!(w.lp_supply(&p) == lp, "op {n}: a swap changed the LP supply");
                o.nontrivial = true;
                o.tag("swap");
                if q.maker > 0 && q.share > 0 && h.setup.fee_addr {
                    o.tag("three-way fee split");
                }
                if q.net == 0 {
                    o.tag("swap for nothing");
                }
            }
            Err(e) => {
                ensure!(before == after, "op {n}: failed swap moved funds");
                // a trade within the loosest spread limit has to go through
                let spread_ok = q.gross > 0
                    && u256(q.spread) * u256(10) <= (u256(q.gross) + u256(q.spread)) * u256(4)
                    && x.max(y).max(dx) < (1 << 110)
                    && !far(x, y);
                ensure!(
                    !spread_ok,
                    "op {n}: swap of {dx} against {x}/{y} refused: {e} (gross {} spread {})",
                    q.gross,
                    q.spread
                );
                o.tag("swap refused");
            }
        }
    }
    Ok(())
}

fn s01(deep: bool) -> BoxedStrategy<History> {
    prop_oneof![
        4 => history(setup(Kind::Xyk), first_any(4, 24), mix, 1..if deep { 40 } else { 14 }),
        1 => history(setup(Kind::Xyk), first_any(1, 34), mix, 1..10),
    ]
    .boxed()
}

/// one well-formed trade against chosen reserves: reaches more numeric corners per second than histories do
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Single {
    pub setup: Setup,
    pub first: Vec<u128>,
    pub donate: [u128; 2],
    pub trades: Vec<(bool, Amt)>,
}

pub fn c02(h: &History, o: &mut Obs) -> V {
    let (w, p) = h.setup.build()?;
    let mut minted: u128 = 0;
    let mut burned: u128 = 0;
    let mut ops = vec![Op::Provide {
        u: 0,
        amts: h.first[..2].iter().map(|x| Amt::Abs(*x)).collect(),
        bal: false,
        to: None,
    }];
    ops.extend(h.ops.iter().cloned());
    for (n, op) in ops.iter().enumerate() {
        let res = w.reserves(&p);
        let s = w.lp_supply(&p);
        let before = snap(&w, &p.infos);
        let lp_all: Vec<u128> = USERS.iter().map(|u| w.lp_bal(&p, u)).collect();
        let k0 = u256(res[0]) * u256(res[1]);
        match op {
            Op::Provide { u, amts, bal, to } => {
                let d = deposit_amounts(&w, &p, amts, *bal);
                let r = apply(&w, &p, op);
                let to_i = to.unwrap_or(*u) as usize % 4;
                // 18-digit slippage arithmetic of the contract overflows on extreme ratios
                let sane = d.iter().chain(&res).all(|x| *x < 1 << 110) && !far(d[0], d[1]) && !far(res[0], res[1]);
                let want = if s == 0 {
                    isqrt256(u256(d[0]) * u256(d[1])).checked_sub(1000).unwrap_or(0)
                } else {
                    mul_div(d[0], s, res[0]).min(mul_div(d[1], s, res[1]))
                };
                match r {
                    Ok(_) => {
                        ensure!(d[0] > 0 && d[1] > 0, "op {n}: deposit {d:?} with a zero side succeeded");
                        ensure!(want > 0, "op {n}: deposit {d:?} into {res:?}/{s} minted nothing and succeeded");
                        let locked = if s == 0 { 1000 } else { 0 };
                        if s == 0 {
                            ensure!(w.lp_bal(&p, &p.addr) == 1000, "first deposit locked {}", w.lp_bal(&p, &p.addr));
                            o.tag("first deposit");
                        } else {
                            o.tag("later deposit");
                            o.nontrivial = true;
                        }
                        let mut lp_want = lp_all.clone();
                        lp_want[to_i] += want;
                        let lp_now: Vec<u128> = USERS.iter().map(|u| w.lp_bal(&p, u)).collect();
                        ensure!(lp_now == lp_want, "op {n}: deposit {d:?} into {res:?}/{s}: LP balances {lp_now:?}, expected {lp_want:?}");
                        minted += want + locked;
                        let exp = before.after(&[(user(*u), &p.addr, 0, d[0]), (user(*u), &p.addr, 1, d[1])]);
                        if let Some(x) = exp.diff(&snap(&w, &p.infos)) {
                            viol!("op {n}: deposit {d:?}: {x}");
                        }
                        // in and out at once never profits
                        let b = snap(&w, &p.infos);
                        let rec = USERS[to_i];
                        let back = w.c.dry(|| {
                            let r = w.withdraw(&p, rec, want, vec![], None);
                            (r.is_ok(), snap(&w, &p.infos))
                        });
                        // (what was donated before there were any shares belongs to nobody)
                        if back.0 && (s > 0 || res.iter().all(|x| *x == 0)) {
                            let k = b.who.iter().position(|x| x == rec).unwrap();
                            for i in 0..2 {
                                let got = back.1.bal[k][i] - b.bal[k][i];
                                ensure!(got <= d[i], "op {n}: deposit {d:?} into {res:?}/{s}, withdrawn at once, returned {got} of asset {i}");
                            }
                            o.tag("deposit and withdraw at once");
                        }
                    }
                    Err(e) => {
                        let fair = s > 0 && res[0] > 0 && res[1] > 0 && {
                            // within the 50% tolerance by a margin
                            let a = u256(d[0]) * u256(res[1]);
                            let b = u256(d[1]) * u256(res[0]);
                            a * u256(10) >= b * u256(6) && b * u256(10) >= a * u256(6)
                        };
                        ensure!(
                            !(sane && d[0] > 0 && d[1] > 0 && want > 0 && (s == 0 || fair)),
                            "op {n}: deposit {d:?} into {res:?}/{s} (worth {want}) refused: {e}"
                        );
                        o.tag("deposit refused");
                    }
                }
            }
            Op::Withdraw { u, part } => {
                let h = holder(&w, &p, *u);
                let who = USERS.iter().position(|x| *x == h).unwrap();
                let x = lp_part(lp_all[who], *part);
                let r = apply(&w, &p, op);
                if r.is_ok() {
                    ensure!(x <= lp_all[who], "op {n}: withdrew more than held");
                    let after = snap(&w, &p.infos);
                    let mut moves = vec![];
                    for i in 0..2 {
                        let got = after.bal[who][i].saturating_sub(before.bal[who][i]);
                        let hi = mul_div(res[i], x, s);
                        let lo = hi.saturating_sub(res[i] / E18 + 1);
                        ensure!(
                            (lo..=hi).contains(&got),
                            "op {n}: withdrawing {x} of {s} from {} paid {got}, pro-rata is {hi}",
                            res[i]
                        );
                        moves.push((p.addr.as_str(), h, i, got));
                    }
                    if let Some(d) = before.after(&moves).diff(&after) {
                        viol!("op {n}: withdrawal: {d}");
                    }
                    burned += x;
                    let mut lp_want = lp_all.clone();
                    lp_want[who] -= x;
                    let lp_now: Vec<u128> = USERS.iter().map(|u| w.lp_bal(&p, u)).collect();
                    ensure!(lp_now == lp_want, "op {n}: withdrawal of {x}: LP balances {lp_now:?}, expected {lp_want:?}");
                    o.tag("withdrawal");
                    o.nontrivial = true;
                } else if x <= lp_all[who] && s > 0 {
                    // both refunds positive: nothing may stand in the way of leaving the pool
                    let both = (0..2).all(|i| {
                        mul_div(res[i], x, s) > res[i] / E18 + 1
                    });
                    ensure!(!both || far(res[0], res[1]), "op {n}: withdrawal of {x} of {s} from {res:?} refused: {r:?}");
                }
            }
            _ => {
                let _ = apply(&w, &p, op);
            }
        }
        let res1 = w.reserves(&p);
        let s1 = w.lp_supply(&p);
        ensure!(s1 == minted - burned, "op {n}: supply {s1}, minted {minted}, burned {burned}");
        ensure!(
            s1 == USERS.iter().map(|u| w.lp_bal(&p, u)).sum::<u128>() + w.lp_bal(&p, &p.addr),
            "op {n}: LP supply {s1} is not what holders have"
        );
        if s1 > 0 {
            ensure!(w.lp_bal(&p, &p.addr) >= 1000, "op {n}: locked liquidity left the pool");
        }
        if s > 0 && s1 > 0 {
            // k1/s1^2 >= k0/s0^2, up to the 18-digit resolution of the trade's quotient
            let k1 = u256(res1[0]) * u256(res1[1]);
            let l = Uint512::from(k1) * Uint512::from(u256(s)) * Uint512::from(u256(s));
            let r = Uint512::from(k0) * Uint512::from(u256(s1)) * Uint512::from(u256(s1));
            let tol = (u256(res1[0].max(res1[1])) / u256(E18) + u256(1)) * u256(1);
            let tol = if tol == u256(1) {
                Uint512::zero()
            } else {
                Uint512::from(tol) * Uint512::from(u256(s)) * Uint512::from(u256(s))
            };
            ensure!(
                l + tol >= r,
                "op {n} {op:?}: reserves {res:?}/{s} -> {res1:?}/{s1}: value per share fell"
            );
        }
    }
    let _ = Decimal::one();
    Ok(())
}

pub fn mix2() -> OpMix {
    OpMix {
        provide: 6,
        withdraw: 5,
        ..Default::default()
    }
}

fn s02(deep: bool) -> BoxedStrategy<History> {
    prop_oneof![
        5 => history(setup(Kind::Xyk), first_any(3, 24), mix2, 1..if deep { 40 } else { 16 }),
        1 => history(setup(Kind::Xyk), first_any(0, 34), mix2, 1..10),
        1 => history(setup(Kind::Xyk), first_any(0, 5), mix2, 1..16),
    ]
    .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "A case is a generated pool (asset kinds, order, fee settings, tracking) with a history of deposits, trades, donations, withdrawals, fee changes; non-trivial when at least one trade executed and its every balance was compared with the exact formula.",
            assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
            parts: vec![Box::new(Gen {
                name: "histories",
                quick: 40_000,
                thorough: 1_500_000,
                strategy: s01,
                run: c01,
            })],
        },
        Property {
            id: "C02",
            rule: "A case is a generated pool with a history of operations by four accounts; non-trivial when a later deposit or a withdrawal executed and was compared with the pro-rata formula.",
            assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
            parts: vec![Box::new(Gen {
                name: "histories",
                quick: 40_000,
                thorough: 1_500_000,
                strategy: s02,
                run: c02,
            })],
        },
    ]
}
