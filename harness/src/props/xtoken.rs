//! C25: the cw20 xASTRO token with balance history.

use std::collections::BTreeMap;

use astroport::xastro_token::{InstantiateMsg, QueryMsg};
use cosmwasm_std::{to_json_binary, Uint128};
use cw20::{AllAccountsResponse, AllAllowancesResponse, AllowanceResponse, BalanceResponse, Cw20Coin, Expiration, MinterResponse, TokenInfoResponse};
use cw20_base::msg::ExecuteMsg;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::lp_part;
use crate::world::*;
use crate::ensure;

const NAMES: [&str; 5] = [USERS[0], USERS[1], USERS[2], USERS[3], "wasm1minter"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amount {
    /// millionths of the balance
    Part(u32),
    /// just above the balance (or the allowance)
    Over,
    Abs(u128),
    Zero,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Exp {
    Height(i8),
    Time(i16),
    Never,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    Transfer { f: u8, t: u8, a: Amount },
    Send { f: u8, a: Amount, ok: bool },
    Mint { by: u8, t: u8, a: Amount },
    Burn { by: u8, a: Amount },
    Allow { o: u8, s: u8, a: u128, e: Option<Exp>, less: bool },
    TransferFrom { o: u8, s: u8, t: u8, a: Amount },
    SendFrom { o: u8, s: u8, a: Amount, ok: bool },
    BurnFrom { o: u8, s: u8, a: Amount },
    Next { blocks: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    init: Vec<(u8, u128)>,
    cap: Option<u128>,
    ops: Vec<TOp>,
}

type St = (BTreeMap<usize, u128>, u128);

fn sink() -> Code {
    use cosmwasm_std::*;
    fn inst(_: DepsMut, _: Env, _: MessageInfo, _: serde_json::Value) -> StdResult<Response> {
        Ok(Response::new())
    }
    fn exec(_: DepsMut, _: Env, _: MessageInfo, m: serde_json::Value) -> StdResult<Response> {
        // the message sent along decides
        let b: Binary = serde_json::from_value(m["receive"]["msg"].clone()).map_err(|e| StdError::generic_err(e.to_string()))?;
        if b.as_slice() == b"true" {
            Ok(Response::new())
        } else {
            Err(StdError::generic_err("refused"))
        }
    }
    fn query(_: Deps, _: Env, _: serde_json::Value) -> StdResult<Binary> {
        Err(StdError::generic_err("none"))
    }
    Code::new("sink", inst, exec, query)
}

fn run(case: &Case, o: &mut Obs) -> V {
    let c = Chain::new();
    let code = {
        use astroport_xastro_token::contract::*;
        c.store(Code::new("xastro", instantiate, execute, query))
    };
    let sk = c.store(sink());
    let sk = c.init(sk, OWNER, &serde_json::json!({}), &[], "sink", None)?;
    let h0 = c.block().height;
    let sum: u128 = case.init.iter().map(|x| x.1).sum();
    let t = c.init(
        code,
        OWNER,
        &InstantiateMsg {
            name: "xASTRO".into(),
            symbol: "xASTRO".into(),
            decimals: 6,
            initial_balances: case
                .init
                .iter()
                .map(|(u, a)| Cw20Coin { address: NAMES[*u as usize % 5].into(), amount: Uint128::new(*a) })
                .collect(),
            mint: Some(MinterResponse { minter: NAMES[4].into(), cap: case.cap.map(Uint128::new) }),
            marketing: None,
        },
        &[],
        "xastro",
        None,
    );
    let mut names: Vec<String> = NAMES.map(String::from).to_vec();
    names.push(sk.clone());
    let over = case.cap.is_some_and(|c| sum > c);
    let dup = (1..case.init.len()).any(|i| case.init[..i].iter().any(|x| x.0 % 5 == case.init[i].0 % 5));
    let t = match t {
        Err(_) if over || dup => return Ok(()),
        t => t?,
    };
    ensure!(!over, "created with a supply of {sum} above the cap {:?}", case.cap);
    let mut bal: BTreeMap<usize, u128> = Default::default();
    for (u, a) in &case.init {
        *bal.entry(*u as usize % 5).or_default() += a;
    }
    let mut supply = sum;
    let mut allow: BTreeMap<(usize, usize), (u128, Expiration)> = Default::default();
    // state at the end of each block with a change, oldest first
    let mut hist: Vec<(u64, St)> = vec![(h0, (bal.clone(), supply))];
    let mut multi = false;
    for n in 0..=case.ops.len() {
        if n > 0 {
            let op = &case.ops[n - 1];
            let before = c.state();
            let get = |b: &BTreeMap<usize, u128>, u: usize| b.get(&u).copied().unwrap_or(0);
            let now = c.block();
            let val = |b: u128, a: &Amount| match a {
                Amount::Part(p) => lp_part(b, *p),
                Amount::Over => b.saturating_add(1),
                Amount::Abs(x) => *x,
                Amount::Zero => 0,
            };
            let (mut b2, mut s2, mut al2) = (bal.clone(), supply, allow.clone());
            let mv = |b: &mut BTreeMap<usize, u128>, f: Option<usize>, t: Option<usize>, a: u128| -> bool {
                if let Some(f) = f {
                    if get(b, f) < a {
                        return false;
                    }
                    *b.entry(f).or_default() -= a;
                }
                if let Some(t) = t {
                    *b.entry(t).or_default() += a;
                }
                true
            };
            let spend = |al: &mut BTreeMap<(usize, usize), (u128, Expiration)>, o: usize, s: usize, a: u128| -> bool {
                match al.get_mut(&(o, s)) {
                    Some((x, e)) if !e.is_expired(&now) && *x >= a => {
                        *x -= a;
                        true
                    }
                    _ => false,
                }
            };
            let hook = |ok: bool| to_json_binary(&ok).unwrap();
            // mostly an account that holds something / a pair with an allowance
            let pick = |f: u8| {
                let h: Vec<usize> = (0..5).filter(|i| get(&bal, *i) > 0).collect();
                if f < 8 && !h.is_empty() { h[f as usize % h.len()] } else { f as usize % 5 }
            };
            let pair = |ow: u8, s: u8| {
                let h: Vec<(usize, usize)> = allow.keys().filter(|k| get(&bal, k.0) > 0).copied().collect();
                if ow < 8 && !h.is_empty() { h[s as usize % h.len()] } else { (ow as usize % 5, s as usize % 5) }
            };
            let (who, msg, ok) = match op {
                TOp::Transfer { f, t, a } => {
                    let (f, t) = (pick(*f), *t as usize % 6);
                    let a = val(get(&bal, f), a);
                    let ok = a > 0 && mv(&mut b2, Some(f), Some(t), a);
                    (f, ExecuteMsg::Transfer { recipient: names[t].clone(), amount: a.into() }, ok)
                }
                TOp::Send { f, a, ok: h } => {
                    let f = pick(*f);
                    let a = val(get(&bal, f), a);
                    let ok = a > 0 && *h && mv(&mut b2, Some(f), Some(5), a);
                    (f, ExecuteMsg::Send { contract: sk.clone(), amount: a.into(), msg: hook(*h) }, ok)
                }
                TOp::Mint { by, t, a } => {
                    let (by, t) = (4 - (*by as usize % 5), *t as usize % 6);
                    let a = match (a, case.cap) {
                        (Amount::Part(p), Some(cap)) => lp_part(cap - supply, *p),
                        (Amount::Over, Some(cap)) => cap - supply + 1,
                        (a, _) => val(1 << 60, a),
                    };
                    let ok = by == 4 && a > 0 && case.cap.is_none_or(|c| supply + a <= c) && mv(&mut b2, None, Some(t), a);
                    s2 += a;
                    (by, ExecuteMsg::Mint { recipient: names[t].clone(), amount: a.into() }, ok)
                }
                TOp::Burn { by, a } => {
                    let by = 4 - (*by as usize % 5);
                    let a = val(get(&bal, by), a);
                    let ok = by == 4 && a > 0 && mv(&mut b2, Some(by), None, a);
                    s2 = s2.saturating_sub(a);
                    (by, ExecuteMsg::Burn { amount: a.into() }, ok)
                }
                TOp::Allow { o: ow, s, a, e, less } => {
                    let (ow, s) = (pick(*ow), *s as usize % 5);
                    let exp = e.map(|e| match e {
                        Exp::Height(d) => Expiration::AtHeight((now.height as i64 + d as i64) as u64),
                        Exp::Time(d) => Expiration::AtTime(cosmwasm_std::Timestamp::from_seconds((now.time.seconds() as i64 + d as i64) as u64)),
                        Exp::Never => Expiration::Never {},
                    });
                    let spender = names[s].clone();
                    let amount = Uint128::new(*a);
                    let mut ok = ow != s;
                    if *less {
                        match al2.get_mut(&(ow, s)) {
                            Some(x) if x.0 > *a => {
                                x.0 -= a;
                                if let Some(e) = exp {
                                    ok &= !e.is_expired(&now);
                                    x.1 = e;
                                }
                            }
                            Some(_) => {
                                al2.remove(&(ow, s));
                            }
                            None => ok = false,
                        }
                        (ow, ExecuteMsg::DecreaseAllowance { spender, amount, expires: exp }, ok)
                    } else {
                        let x = al2.entry((ow, s)).or_insert((0, Expiration::Never {}));
                        x.0 += a;
                        if let Some(e) = exp {
                            ok &= !e.is_expired(&now);
                            x.1 = e;
                        }
                        (ow, ExecuteMsg::IncreaseAllowance { spender, amount, expires: exp }, ok)
                    }
                }
                TOp::TransferFrom { o: ow, s, t, a } => {
                    let ((ow, s), t) = (pair(*ow, *s), *t as usize % 6);
                    let al = allow.get(&(ow, s)).map(|x| x.0).unwrap_or(3);
                    let a = val(if matches!(a, Amount::Part(_)) { al.min(get(&bal, ow)) } else { al }, a);
                    let ok = spend(&mut al2, ow, s, a) && mv(&mut b2, Some(ow), Some(t), a);
                    (s, ExecuteMsg::TransferFrom { owner: names[ow].clone(), recipient: names[t].clone(), amount: a.into() }, ok)
                }
                TOp::SendFrom { o: ow, s, a, ok: h } => {
                    let (ow, s) = pair(*ow, *s);
                    let al = allow.get(&(ow, s)).map(|x| x.0).unwrap_or(3);
                    let a = val(if matches!(a, Amount::Part(_)) { al.min(get(&bal, ow)) } else { al }, a);
                    let ok = *h && spend(&mut al2, ow, s, a) && mv(&mut b2, Some(ow), Some(5), a);
                    (s, ExecuteMsg::SendFrom { owner: names[ow].clone(), contract: sk.clone(), amount: a.into(), msg: hook(*h) }, ok)
                }
                TOp::BurnFrom { o: ow, s, a } => {
                    let (ow, s) = if *s == 0 { (pick(*ow), 4) } else { pair(*ow, *s) };
                    let al = allow.get(&(ow, s)).map(|x| x.0).unwrap_or(3);
                    let a = val(if matches!(a, Amount::Part(_)) { al.min(get(&bal, ow)) } else { al }, a);
                    let ok = s == 4 && spend(&mut al2, ow, s, a) && mv(&mut b2, Some(ow), None, a);
                    s2 = s2.saturating_sub(a);
                    (s, ExecuteMsg::BurnFrom { owner: names[ow].clone(), amount: a.into() }, ok)
                }
                TOp::Next { blocks } => {
                    c.advance(*blocks as u64, *blocks as u64 * 5);
                    continue;
                }
            };
            let r = c.exec(NAMES[who], &t, &msg, &[]);
            // moving nothing with somebody's allowance is harmless either way
            let zero = matches!(&msg, ExecuteMsg::TransferFrom { amount, .. } | ExecuteMsg::SendFrom { amount, .. } | ExecuteMsg::BurnFrom { amount, .. } if amount.is_zero());
            if ok && !(zero && r.is_err()) {
                ensure!(r.is_ok(), "op {n} {msg:?} by {} refused: {} (balances {bal:?}, allowances {allow:?}, supply {supply})", NAMES[who], r.unwrap_err());
                if !matches!(op, TOp::Mint { .. } | TOp::Burn { .. } | TOp::BurnFrom { .. }) {
                    s2 = supply;
                }
                if b2 != bal || s2 != supply {
                    if hist.last().unwrap().0 == now.height {
                        multi = hist.len() > 2;
                        hist.pop();
                    }
                    hist.push((now.height, (b2.clone(), s2)));
                }
                (bal, supply, allow) = (b2, s2, al2);
                o.tag(match op {
                    TOp::Transfer { .. } | TOp::Send { .. } => "moved",
                    TOp::Mint { .. } => "minted",
                    TOp::Burn { .. } | TOp::BurnFrom { .. } => "burned",
                    TOp::Allow { .. } => "allowance",
                    _ => "moved by allowance",
                });
            } else {
                ensure!(r.is_err(), "op {n} {msg:?} by {} succeeded (balances {bal:?}, allowances {allow:?}, supply {supply})", NAMES[who]);
                ensure!(c.same_state(&before), "op {n} {msg:?} was refused but changed: {}", c.diff(&before));
                o.tag(match op {
                    TOp::Transfer { .. } | TOp::Send { .. } => "refused: transfer",
                    TOp::Mint { .. } => "refused: mint",
                    TOp::Burn { .. } => "refused: burn",
                    TOp::Allow { .. } => "refused: allowance",
                    _ => "refused: by allowance",
                });
            }
        }
        let info: TokenInfoResponse = c.query(&t, &QueryMsg::TokenInfo {})?;
        let got: Vec<u128> = names
            .iter()
            .map(|x| c.query::<BalanceResponse, _>(&t, &QueryMsg::Balance { address: x.clone() }).map(|b| b.balance.u128()))
            .collect::<R<_>>()?;
        let want: Vec<u128> = (0..6).map(|i| bal.get(&i).copied().unwrap_or(0)).collect();
        ensure!(got == want, "after op {n}: balances {got:?}, expected {want:?}");
        ensure!(
            info.total_supply.u128() == supply && got.iter().sum::<u128>() == supply,
            "after op {n}: supply {}, balances sum to {}, expected {supply}",
            info.total_supply,
            got.iter().sum::<u128>()
        );
        if n == case.ops.len() || n % 5 == 4 {
            o.nontrivial |= multi;
            let now = c.block().height;
            let mut hs: Vec<u64> = hist.iter().flat_map(|x| [x.0.saturating_sub(1), x.0, x.0 + 1]).collect();
            hs.extend([0, now, now + 1, now + 1000]);
            hs.sort();
            hs.dedup();
            for h in hs {
                let s = hist.iter().rev().find(|x| x.0 <= h).map(|x| x.1 .1).unwrap_or(0);
                let q: Uint128 = c.query(&t, &QueryMsg::TotalSupplyAt { block: h })?;
                ensure!(q.u128() == s, "after op {n}: supply at {h} answered {q}, expected {s} from {hist:?}");
                let b = hist.iter().rev().find(|x| x.0 < h).map(|x| &x.1 .0);
                for (i, x) in names.iter().enumerate() {
                    let want = b.and_then(|b| b.get(&i)).copied().unwrap_or(0);
                    let q: BalanceResponse = c.query(&t, &QueryMsg::BalanceAt { address: x.clone(), block: h })?;
                    ensure!(q.balance.u128() == want, "after op {n}: balance of {x} at {h} answered {}, expected {want} from {hist:?}", q.balance);
                }
            }
            for lim in [1u32, 2, 30] {
                let mut l: Vec<String> = vec![];
                loop {
                    let r: AllAccountsResponse = c.query(&t, &QueryMsg::AllAccounts { start_after: l.last().cloned(), limit: Some(lim) })?;
                    if r.accounts.is_empty() || l.len() > 20 {
                        break;
                    }
                    l.extend(r.accounts);
                }
                // accounts that once held tokens may be listed, everybody holding some must be
                let mut must: Vec<&String> = (0..6).filter(|i| want[*i] > 0).map(|i| &names[i]).collect();
                must.retain(|x| !l.contains(x));
                let mut u = l.clone();
                u.sort();
                u.dedup();
                let foreign = l.iter().any(|x| !names.iter().position(|y| y == x).is_some_and(|i| bal.contains_key(&i)));
                ensure!(must.is_empty() && u.len() == l.len() && !foreign, "after op {n}: accounts listed {l:?}, missing {must:?}");
                for ow in 0..5 {
                    let mut l: Vec<(String, u128)> = vec![];
                    loop {
                        let r: AllAllowancesResponse = c.query(
                            &t,
                            &QueryMsg::AllAllowances { owner: names[ow].clone(), start_after: l.last().map(|x| x.0.clone()), limit: Some(lim) },
                        )?;
                        if r.allowances.is_empty() || l.len() > 20 {
                            break;
                        }
                        l.extend(r.allowances.into_iter().map(|a| (a.spender, a.allowance.u128())));
                    }
                    let mut want: Vec<(String, u128)> =
                        allow.iter().filter(|x| x.0 .0 == ow).map(|x| (names[x.0 .1].clone(), x.1 .0)).collect();
                    want.sort();
                    ensure!(l == want, "after op {n}: allowances of {ow} listed {l:?}, expected {want:?}");
                    for s in 0..5 {
                        let q: AllowanceResponse = c.query(&t, &QueryMsg::Allowance { owner: names[ow].clone(), spender: names[s].clone() })?;
                        let want = allow.get(&(ow, s)).copied().unwrap_or((0, Expiration::Never {}));
                        ensure!((q.allowance.u128(), q.expires) == want, "after op {n}: allowance {ow}->{s} {q:?}, expected {want:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

fn strategy(deep: bool) -> BoxedStrategy<Case> {
    let a = || {
        prop_oneof![
            6 => prop_oneof![Just(1_000_000u32), 0u32..1_000_000].prop_map(Amount::Part),
            1 => Just(Amount::Over),
            2 => gen::mag(0, 20).prop_map(Amount::Abs),
            1 => Just(Amount::Zero),
        ]
    };
    let u = || 0u8..10;
    let e = || prop::option::weighted(0.4, prop_oneof![(-1i8..10).prop_map(Exp::Height), (-10i16..100).prop_map(Exp::Time), Just(Exp::Never)]);
    let by = || prop_oneof![5 => Just(0u8), 1 => 0u8..5];
    let ok = || prop::bool::weighted(0.8);
    let op = prop_oneof![
        5 => (u(), 0u8..6, a()).prop_map(|(f, t, a)| TOp::Transfer { f, t, a }),
        2 => (u(), a(), ok()).prop_map(|(f, a, ok)| TOp::Send { f, a, ok }),
        3 => (by(), 0u8..6, a()).prop_map(|(by, t, a)| TOp::Mint { by, t, a }),
        2 => (by(), a()).prop_map(|(by, a)| TOp::Burn { by, a }),
        6 => (u(), prop_oneof![Just(4u8), 0u8..5], gen::mag(0, 20), e(), prop::bool::weighted(0.15)).prop_map(|(o, s, a, e, less)| TOp::Allow { o, s, a, e, less }),
        3 => (u(), u(), 0u8..6, a()).prop_map(|(o, s, t, a)| TOp::TransferFrom { o, s, t, a }),
        2 => (u(), u(), a(), ok()).prop_map(|(o, s, a, ok)| TOp::SendFrom { o, s, a, ok }),
        2 => (u(), by(), a()).prop_map(|(o, s, a)| TOp::BurnFrom { o, s, a }),
        5 => (0u8..4).prop_map(|blocks| TOp::Next { blocks }),
    ];
    (
        prop::collection::vec((0u8..5, gen::amount(0, 20)), 0..6),
        prop::option::of(gen::mag(20, 24)),
        prop::collection::vec(op, 1..if deep { 80 } else { 40 }),
    )
        .prop_map(|(init, cap, ops)| Case { init, cap, ops })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C25",
        rule: "balances changed in at least three blocks, in one of them more than once",
        assumptions: &["expiry arithmetic of allowances is cw20-base's"],
        parts: vec![Box::new(Gen { name: "histories", quick: 8_000, thorough: 300_000, strategy, run })],
    }]
}
