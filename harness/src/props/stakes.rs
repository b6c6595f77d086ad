//! C40: deposits that ask for automatic staking.

use astroport::factory as fac;
use astroport::incentives as inc;
use cosmwasm_std::{Decimal, Uint128};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::terms::history_of;
use crate::chain::*;
use crate::engine::*;
use crate::ensure;
use crate::pools::*;
use crate::world::*;

const ASTRO: &str = "factory/wasm1assembly/astro";

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    h: History,
    /// is there an incentives contract: always, never, from the n-th operation on
    has: Option<u8>,
    /// which deposits are staked (bits), of which this many receivers
    staked: u32,
    first: bool,
}

fn incentives(w: &World) -> R<String> {
    let c = &w.c;
    let v = c.init(
        c.store(codes::vesting()),
        OWNER,
        &astroport::vesting::InstantiateMsg { owner: OWNER.into(), vesting_token: native(ASTRO) },
        &[],
        "vesting",
        None,
    )?;
    c.init(
        c.store(codes::incentives()),
        OWNER,
        &inc::InstantiateMsg {
            owner: OWNER.into(),
            factory: w.factory.clone(),
            astro_token: native(ASTRO),
            vesting_contract: v,
            incentivization_fee_info: None,
            guardian: None,
        },
        &[],
        "incentives",
        None,
    )
}
fn set(w: &World, to: &str) -> R<()> {
    w.c.exec(
        OWNER,
        &w.factory,
        &fac::ExecuteMsg::UpdateConfig {
            token_code_id: None,
            fee_address: None,
            generator_address: Some(to.into()),
            whitelist_code_id: None,
            coin_registry_address: None,
        },
        &[],
    )
    .map(|_| ())
}
fn stakes(w: &World, p: &Pool, at: &str) -> R<Vec<u128>> {
    USERS
        .iter()
        .map(|u| {
            w.c.query::<Uint128, _>(at, &inc::QueryMsg::Deposit { lp_token: p.lp.clone(), user: u.to_string() }).map(|x| x.u128())
        })
        .collect()
}
fn free(w: &World, p: &Pool) -> Vec<u128> {
    USERS.iter().map(|u| w.lp_bal(p, u)).chain([w.lp_bal(p, &p.addr), w.lp_bal(p, OWNER)]).collect()
}

/// the deposit with staking against the same deposit without
fn probe(w: &World, p: &Pool, at: Option<&str>, u: usize, to: Option<u8>, v: &[u128], o: &mut Obs) -> V {
    let st = w.c.state();
    let opts = |auto| ProvideOpts {
        slip: Some(Decimal::percent(50)),
        auto_stake: auto,
        receiver: opt_user(&to),
        ..Default::default()
    };
    let plain = w.provide(p, USERS[u], v, &opts(Some(false)));
    let want = (snap(w, &p.infos), w.lp_supply(p), free(w, p));
    w.c.restore(&st);
    let (f0, total) = (free(w, p), w.lp_supply(p));
    let s0 = at.map(|a| stakes(w, p, a)).transpose()?;
    let r = w.provide(p, USERS[u], v, &opts(Some(true)));
    let Some(at) = at else {
        ensure!(r.is_err(), "a deposit was staked without an incentives contract");
        ensure!(w.c.same_state(&st), "a refused deposit changed {}", w.c.diff(&st));
        o.tag("no incentives contract");
        return Ok(());
    };
    if p.kind == Kind::Transmuter {
        ensure!(r.is_err(), "a transmuter deposit asked for staking and was accepted");
        ensure!(w.c.same_state(&st), "a refused deposit changed {}", w.c.diff(&st));
        o.tag("not supported");
        return Ok(());
    }
    if let Err(e) = plain {
        ensure!(r.is_err(), "a deposit of {v:?} refused without staking ({e}) was accepted with staking");
        o.tag("refused");
        return Ok(());
    }
    if let Err(e) = r {
        crate::viol!("a deposit of {v:?} accepted without staking was refused with staking: {e}")
    }
    let t = to.map(|t| t as usize % 4).unwrap_or(u);
    if let Some(d) = want.0.diff(&snap(w, &p.infos)) {
        crate::viol!("a deposit of {v:?} with staking moved other amounts than without: {d}")
    }
    let (f1, s1) = (free(w, p), stakes(w, p, at)?);
    ensure!(w.lp_supply(p) == want.1, "a deposit with staking made shares up to {}, without up to {}", w.lp_supply(p), want.1);
    let minted = want.2[t] - f0[t];
    let s0 = s0.unwrap();
    for k in 0..4 {
        ensure!(f1[k] == f0[k], "{} has {} free shares after a staked deposit, had {}", USERS[k], f1[k], f0[k]);
        let s = s0[k] + if k == t { minted } else { 0 };
        ensure!(s1[k] == s, "{} has {} shares staked, expected {s}: a deposit of {v:?} makes {minted}", USERS[k], s1[k]);
    }
    ensure!(f1[4..] == want.2[4..], "the pool and the owner hold {:?} shares, without staking {:?}", &f1[4..], &want.2[4..]);
    ensure!(
        w.lp_bal(p, at) == s1.iter().sum::<u128>() && want.1 - total >= minted,
        "the incentives contract holds {} shares, {:?} are staked",
        w.lp_bal(p, at),
        s1
    );
    // the receiver can have them back
    w.c.dry(|| -> V {
        let r = w.c.exec(
            USERS[t],
            at,
            &inc::ExecuteMsg::Withdraw { lp_token: p.lp.clone(), amount: Uint128::new(s1[t]) },
            &[],
        );
        ensure!(r.is_ok(), "{} cannot unstake {}: {:?}", USERS[t], s1[t], r.err());
        ensure!(w.lp_bal(p, USERS[t]) == f1[t] + s1[t], "unstaking {} gave {}", s1[t], w.lp_bal(p, USERS[t]) - f1[t]);
        Ok(())
    })?;
    o.tag(if t == u { "own deposit staked" } else { "deposit staked for another" });
    o.nontrivial = true;
    Ok(())
}

fn run(c: &Case, o: &mut Obs) -> V {
    let (w, p) = c.h.setup.build()?;
    let at = incentives(&w)?;
    let mut on = c.has == Some(0);
    if on {
        set(&w, &at)?;
    }
    let first = if c.h.setup.kind == Kind::Pcl || c.h.setup.kind == Kind::Stable {
        first_amounts(&c.h.setup, &p, &c.h.first)
    } else {
        c.h.first[..p.infos.len()].to_vec()
    };
    if c.first {
        probe(&w, &p, on.then_some(at.as_str()), 0, (c.staked % 3 == 0).then_some(1), &first, o)?;
    }
    if w.lp_supply(&p) == 0 && w.provide(&p, USERS[0], &first, &ProvideOpts::default()).is_err() {
        return Ok(());
    }
    for (i, op) in c.h.ops.iter().enumerate() {
        if c.has == Some(i as u8 + 1) && !on {
            set(&w, &at)?;
            on = true;
        }
        match op {
            Op::Provide { u, amts, bal, to } if c.staked >> (i % 32) & 1 == 1 => {
                let v = deposit_amounts(&w, &p, amts, *bal);
                probe(&w, &p, on.then_some(at.as_str()), *u as usize % 4, *to, &v, o)?;
            }
            Op::Withdraw { u, part } if c.staked >> ((i + 7) % 32) & 1 == 1 => {
                // somebody unstakes
                let s = stakes(&w, &p, &at)?;
                let t = *u as usize % 4;
                let _ = w.c.exec(
                    USERS[t],
                    &at,
                    &inc::ExecuteMsg::Withdraw { lp_token: p.lp.clone(), amount: Uint128::new(lp_part(s[t], *part)) },
                    &[],
                );
            }
            x => {
                let _ = apply(&w, &p, x);
            }
        }
    }
    Ok(())
}

fn strat(deep: bool) -> BoxedStrategy<Case> {
    let n = if deep { 30 } else { 10 };
    let h = prop_oneof![
        3 => history_of(Kind::Xyk, 0..n),
        3 => history_of(Kind::Tax, 0..n),
        3 => history_of(Kind::Stable, 0..n),
        3 => history_of(Kind::Pcl, 0..n),
        1 => history_of(Kind::Transmuter, 0..n),
    ];
    (h, prop_oneof![6 => Just(Some(0u8)), 1 => Just(None), 2 => (1u8..8).prop_map(Some)], any::<u32>(), prop::bool::weighted(0.4))
        .prop_map(|(h, has, staked, first)| Case { h, has, staked: staked | staked >> 5, first })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C40",
        rule: "a deposit was staked automatically and every balance, stake and the supply compared with the same deposit without staking",
        assumptions: &["the simulated chain executes messages, replies and bank transfers as CosmWasm does"],
        parts: vec![Box::new(Gen { name: "deposits", quick: 8_000, thorough: 300_000, strategy: strat, run })],
    }]
}
