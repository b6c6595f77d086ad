//! C31 (ASTRO converter), C32 (whitelist wallet), C33 (fee granter), C34 (coin registry).

use std::collections::{BTreeMap, BTreeSet};

use astroport::{astro_converter as conv, fee_granter as fg, native_coin_registry as ncr, pair};
use cosmwasm_std::{coin, to_json_binary, BankMsg, Binary, Coin, CosmosMsg, Empty, Uint128, WasmMsg};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use prost::Message;
use serde::{Deserialize, Serialize};

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::world::*;
use crate::{ensure, viol};

// ------------------------------------------------------------------------------------------------ C34

const DEN: [&str; 6] = ["uaaa", "uaab", "factory/x/y", "ibc/0123", "zzz", "u"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RegOp {
    /// owner (0) or somebody else records precisions
    Add { by: u8, l: Vec<(u8, u8)> },
    /// `att`: attached coins
    Register { by: u8, l: Vec<(u8, u8)>, att: Vec<(u8, u32)> },
    Remove { by: u8, l: Vec<u8> },
}

fn c34(ops: &Vec<RegOp>, o: &mut Obs) -> V {
    let c = Chain::new();
    let code = c.store(codes::registry());
    let r = c.init(code, OWNER, &ncr::InstantiateMsg { owner: OWNER.into() }, &[], "reg", None)?;
    for u in USERS.iter().chain([&OWNER]) {
        for d in DEN {
            c.faucet(u, d, 1 << 80);
        }
    }
    let who = |b: u8| if b == 0 { OWNER } else { USERS[b as usize % 4] };
    let names = |l: &[(u8, u8)]| -> Vec<(String, u8)> { l.iter().map(|x| (DEN[x.0 as usize % 6].to_string(), x.1)).collect() };
    let uniq = |l: &[(String, u8)]| l.iter().map(|x| &x.0).collect::<BTreeSet<_>>().len() == l.len();
    let mut m: BTreeMap<String, u8> = Default::default();
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        let mut m2 = m.clone();
        let (res, ok) = match op {
            RegOp::Add { by, l } => {
                let l = names(l);
                m2.extend(l.clone());
                let ok = *by == 0 && uniq(&l) && l.iter().all(|x| x.1 <= 18);
                (c.exec(who(*by), &r, &ncr::ExecuteMsg::Add { native_coins: l }, &[]), Some(ok))
            }
            RegOp::Register { by, l, att } => {
                let l = names(l);
                let att: BTreeMap<String, u128> = att.iter().map(|x| (DEN[x.0 as usize % 6].to_string(), x.1 as u128 + 1)).collect();
                let fresh = l.iter().all(|x| !m.contains_key(&x.0));
                m2.extend(l.clone());
                let ok = uniq(&l) && l.iter().all(|x| x.1 <= 18 && att.contains_key(&x.0)) && fresh;
                // with nothing attached and nothing to record there is nothing to do
                let ok = if l.is_empty() && att.is_empty() { None } else { Some(ok) };
                if !fresh {
                    o.tag("already recorded");
                }
                let funds: Vec<Coin> = att.iter().map(|(d, a)| coin(*a, d)).collect();
                (c.exec(who(*by), &r, &ncr::ExecuteMsg::Register { native_coins: l }, &funds), ok)
            }
            RegOp::Remove { by, l } => {
                let l: Vec<String> = l.iter().map(|x| DEN[*x as usize % 6].to_string()).collect();
                let ok = *by == 0 && l.iter().all(|d| m2.remove(d).is_some());
                (c.exec(who(*by), &r, &ncr::ExecuteMsg::Remove { native_coins: l }, &[]), Some(ok))
            }
        };
        match ok {
            Some(true) => {
                ensure!(res.is_ok(), "op {n} {op:?} refused: {} (recorded {m:?})", res.unwrap_err());
                o.nontrivial |= !m.is_empty() && m != m2;
                o.tag(match op {
                    RegOp::Add { .. } => "recorded by the owner",
                    RegOp::Register { .. } => "recorded by a holder",
                    RegOp::Remove { .. } => "removed",
                });
                m = m2;
            }
            Some(false) => {
                ensure!(res.is_err(), "op {n} {op:?} succeeded (recorded {m:?})");
                ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
                o.tag("refused");
            }
            None => {}
        }
        for d in DEN {
            ensure!(c.balance(&r, d) == 0, "op {n} {op:?}: the registry keeps {} {d}", c.balance(&r, d));
            for u in USERS.iter().chain([&OWNER]) {
                ensure!(c.balance(u, d) == 1 << 80, "op {n} {op:?}: {u} has {} {d}", c.balance(u, d));
            }
            let q: R<u8> = c.query(&r, &ncr::QueryMsg::NativeToken { denom: d.into() });
            ensure!(q.as_ref().ok() == m.get(d), "op {n} {op:?}: {d} answered {q:?}, recorded {m:?}");
        }
        for lim in [Some(1u32), Some(2), None] {
            let mut l: Vec<(String, u8)> = vec![];
            loop {
                let r: Vec<ncr::CoinResponse> =
                    c.query(&r, &ncr::QueryMsg::NativeTokens { start_after: l.last().map(|x| x.0.clone()), limit: lim })?;
                if r.is_empty() || l.len() > 12 {
                    break;
                }
                l.extend(r.into_iter().map(|x| (x.denom, x.decimals)));
            }
            let want: Vec<_> = m.clone().into_iter().collect();
            ensure!(l == want, "op {n} {op:?}: listed {l:?} (page {lim:?}), recorded {want:?}");
        }
    }
    Ok(())
}
fn s34(deep: bool) -> BoxedStrategy<Vec<RegOp>> {
    let by = || prop_oneof![2 => Just(0u8), 1 => 1u8..4];
    let dec = || prop_oneof![4 => 0u8..=18, 1 => 17u8..21, 1 => any::<u8>()];
    let l = || prop::collection::vec((0u8..6, dec()), 0..4);
    let op = prop_oneof![
        2 => (by(), l()).prop_map(|(by, l)| RegOp::Add { by, l }),
        2 => (0u8..4, l(), prop::collection::vec((0u8..6, any::<u32>()), 0..5)).prop_map(|(by, l, att)| RegOp::Register { by, l, att }),
        2 => (0u8..4, l(), 0u32..9).prop_map(|(by, l, a)| RegOp::Register { by, att: l.iter().map(|x| (x.0, a)).collect(), l }),
        2 => (by(), prop::collection::vec(0u8..6, 0..3)).prop_map(|(by, l)| RegOp::Remove { by, l }),
    ];
    prop::collection::vec(op, 1..if deep { 60 } else { 20 }).boxed()
}

// ------------------------------------------------------------------------------------------------ C33

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FgOp {
    /// 0 owner, 1..=5 possible admins; `pay`: 0 exact, 1 one more, 2 another coin, 3 nothing, 4 exact and another coin
    Grant { by: u8, g: u8, amt: u128, bypass: bool, pay: u8 },
    Revoke { by: u8, g: u8 },
    Move { by: u8, amt: u128, to: Option<u8> },
    Admins { by: u8, add: Vec<u8>, del: Vec<u8> },
}
const GAS: &str = "inj";
const P33: [&str; 6] = [OWNER, USERS[0], USERS[1], USERS[2], USERS[3], "wasm1someone"];

fn c33(ops: &Vec<FgOp>, o: &mut Obs) -> V {
    let c = Chain::new();
    let code = {
        use astroport_fee_granter::contract::*;
        use astroport_fee_granter::query::query;
        c.store(Code::new("fee_granter", instantiate, execute, query))
    };
    for p in P33 {
        c.faucet(p, GAS, RICH);
        c.faucet(p, "uother", RICH);
    }
    let mut admins: BTreeSet<String> = [USERS[0].to_string()].into();
    let f = c.init(
        code,
        OWNER,
        &fg::InstantiateMsg { owner: OWNER.into(), admins: admins.iter().cloned().collect(), gas_denom: GAS.into() },
        &[],
        "granter",
        None,
    )?;
    let grantees: Vec<String> = (0..4).map(|i| format!("wasm1grantee{i}")).collect();
    let mut m: BTreeMap<String, u128> = Default::default();
    let mut regrant = BTreeSet::new();
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        let ext = c.ext().len();
        let (b0, o0) = (c.balance(&f, GAS), c.balance(&f, "uother"));
        let may = |b: u8| b == 0 || admins.contains(P33[b as usize % 6]);
        // expected balance of the contract, and of the receiver
        let mut want = b0;
        let mut msgs: Vec<(&str, String, u128)> = vec![];
        let mut m2 = m.clone();
        let mut a2 = admins.clone();
        let (by, res, ok) = match op {
            FgOp::Grant { by, g, amt, bypass, pay } => {
                let g = grantees[*g as usize % 4].clone();
                let mut funds = match pay % 5 {
                    0 => vec![coin(*amt, GAS)],
                    1 => vec![coin(*amt + 1, GAS)],
                    2 => vec![coin(*amt + 1, "uother")],
                    3 => vec![],
                    _ => vec![coin(*amt, GAS), coin(5, "uother")],
                };
                funds.retain(|c| !c.amount.is_zero());
                let exact = funds.len() == 1 && funds[0] == coin(*amt, GAS);
                let ok = may(*by) && !m.contains_key(&g) && (exact || *bypass);
                let r = c.exec(
                    P33[*by as usize % 6],
                    &f,
                    &fg::ExecuteMsg::Grant { grantee_contract: g.clone(), amount: Uint128::new(*amt), bypass_amount_check: *bypass },
                    &funds,
                );
                want += funds.iter().filter(|c| c.denom == GAS).map(|c| c.amount.u128()).sum::<u128>();
                m2.insert(g.clone(), *amt);
                if ok && regrant.contains(&g) {
                    o.tag("granted again after revocation");
                }
                msgs.push(("/cosmos.feegrant.v1beta1.MsgGrantAllowance", g, *amt));
                (*by, r, ok)
            }
            FgOp::Revoke { by, g } => {
                let g = grantees[*g as usize % 4].clone();
                let had = m2.remove(&g).is_some();
                let r = c.exec(P33[*by as usize % 6], &f, &fg::ExecuteMsg::Revoke { grantee_contract: g.clone() }, &[]);
                if may(*by) && had {
                    regrant.insert(g.clone());
                }
                msgs.push(("/cosmos.feegrant.v1beta1.MsgRevokeAllowance", g, 0));
                (*by, r, may(*by) && had)
            }
            FgOp::Move { by, amt, to } => {
                let me = P33[*by as usize % 6];
                let t = to.map(|t| grantees[t as usize % 4].clone());
                let to = t.clone().unwrap_or(me.into());
                let had = c.balance(&to, GAS);
                let r = c.exec(me, &f, &fg::ExecuteMsg::TransferCoins { amount: Uint128::new(*amt), receiver: t.clone() }, &[]);
                let ok = may(*by) && *amt > 0 && *amt <= b0;
                let t = to;
                if ok {
                    want -= amt;
                    ensure!(c.balance(&t, GAS) == had + amt, "op {n} {op:?}: {t} received {}", c.balance(&t, GAS) as i128 - had as i128);
                    o.tag("moved");
                }
                (*by, r, ok)
            }
            FgOp::Admins { by, add, del } => {
                let name = |l: &[u8]| -> Vec<String> { l.iter().map(|x| P33[*x as usize % 6].to_string()).collect() };
                let (add, del) = (name(add), name(del));
                let fresh = add.iter().all(|x| a2.insert(x.clone()));
                for d in &del {
                    a2.remove(d);
                }
                let ok = *by == 0 && fresh && a2.len() <= 2;
                let r = c.exec(P33[*by as usize % 6], &f, &fg::ExecuteMsg::UpdateAdmins { add, remove: del }, &[]);
                if ok {
                    o.tag("admins changed");
                }
                (*by, r, ok)
            }
        };
        let _ = by;
        // repeating a name in one list is not specified
        let vague = matches!(op, FgOp::Admins { add, del, .. } if { let s: BTreeSet<_> = add.iter().chain(del).map(|x| x % 6).collect(); s.len() < add.len() + del.len() });
        if ok && !(vague && res.is_err()) {
            ensure!(res.is_ok(), "op {n} {op:?} refused: {} (grants {m:?}, admins {admins:?})", res.unwrap_err());
            o.nontrivial |= m != m2 && !m.is_empty();
            if m != m2 {
                o.tag(if m2.len() > m.len() { "granted" } else { "revoked" });
            }
            m = m2;
            admins = a2;
            ensure!(c.balance(&f, GAS) == want, "op {n} {op:?}: the granter holds {}, expected {want}", c.balance(&f, GAS));
            let ext = &c.ext()[ext..];
            ensure!(ext.len() == msgs.len(), "op {n} {op:?} sent {ext:?}");
            for (e, (url, g, amt)) in ext.iter().zip(&msgs) {
                ensure!(e.kind == *url && e.sender == f, "op {n} {op:?} sent {e:?}");
                // hand-written protobuf: granter = 1, grantee = 2, allowance = 3 (Any: type_url = 1, value = 2)
                #[derive(Clone, PartialEq, Message)]
                struct PCoin {
                    #[prost(string, tag = "1")]
                    denom: String,
                    #[prost(string, tag = "2")]
                    amount: String,
                }
                #[derive(Clone, PartialEq, Message)]
                struct Basic {
                    #[prost(message, repeated, tag = "1")]
                    limit: Vec<PCoin>,
                    #[prost(bytes, optional, tag = "2")]
                    exp: Option<Vec<u8>>,
                }
                #[derive(Clone, PartialEq, Message)]
                struct PAny {
                    #[prost(string, tag = "1")]
                    url: String,
                    #[prost(bytes, tag = "2")]
                    value: Vec<u8>,
                }
                #[derive(Clone, PartialEq, Message)]
                struct Gr {
                    #[prost(string, tag = "1")]
                    granter: String,
                    #[prost(string, tag = "2")]
                    grantee: String,
                    #[prost(message, optional, tag = "3")]
                    allowance: Option<PAny>,
                }
                let x = Gr::decode(e.bytes.as_slice()).map_err(|e| e.to_string())?;
                ensure!(x.granter == f && x.grantee == *g, "op {n} {op:?} sent {x:?}");
                if url.ends_with("Grant") || url.ends_with("GrantAllowance") {
                    let a = x.allowance.ok_or("no allowance")?;
                    let b = Basic::decode(a.value.as_slice()).map_err(|e| e.to_string())?;
                    ensure!(
                        a.url == "/cosmos.feegrant.v1beta1.BasicAllowance"
                            && b.exp.is_none()
                            && b.limit == vec![PCoin { denom: GAS.into(), amount: amt.to_string() }],
                        "op {n} {op:?} granted {a:?} {b:?}"
                    );
                }
            }
        } else if matches!(op, FgOp::Revoke { by, .. } if may(*by)) {
            // revoking a grant that does not exist is left to the chain
            if res.is_err() {
                ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
            }
        } else {
            ensure!(res.is_err(), "op {n} {op:?} succeeded (grants {m:?}, admins {admins:?}, held {b0})");
            ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
            o.tag("refused");
        }
        ensure!(c.balance(&f, "uother") == o0 || matches!(op, FgOp::Grant { bypass: true, .. }), "op {n} {op:?}: foreign coins kept");
        let cfg: fg::Config = c.query(&f, &fg::QueryMsg::Config {})?;
        let got: BTreeSet<String> = cfg.admins.iter().map(|a| a.to_string()).collect();
        ensure!(
            cfg.owner == OWNER && got == admins && cfg.admins.len() == got.len() && cfg.gas_denom == GAS,
            "op {n} {op:?}: config {cfg:?}, expected admins {admins:?}"
        );
        for lim in [Some(1u32), Some(3), None] {
            let mut l: Vec<(String, u128)> = vec![];
            loop {
                let r: Vec<fg::GrantResponse> =
                    c.query(&f, &fg::QueryMsg::GrantsList { start_after: l.last().map(|x| x.0.clone()), limit: lim })?;
                if r.is_empty() || l.len() > 9 {
                    break;
                }
                l.extend(r.into_iter().map(|x| (x.grantee_contract, x.amount.u128())));
            }
            ensure!(l == m.clone().into_iter().collect::<Vec<_>>(), "op {n} {op:?}: listed {l:?}, granted {m:?}");
        }
        for g in &grantees {
            let q: fg::GrantResponse = c.query(&f, &fg::QueryMsg::GrantFor { grantee_contract: g.clone() })?;
            ensure!(q.amount.u128() == m.get(g).copied().unwrap_or(0) && q.grantee_contract == *g, "op {n} {op:?}: {q:?}, granted {m:?}");
        }
    }
    Ok(())
}
fn s33(deep: bool) -> BoxedStrategy<Vec<FgOp>> {
    let by = || prop_oneof![3 => Just(0u8), 2 => Just(1u8), 2 => 2u8..6];
    let amt = || prop_oneof![6 => gen::amount(0, 24), 1 => Just(0u128)];
    let op = prop_oneof![
        5 => (by(), 0u8..4, amt(), prop::bool::weighted(0.2), prop_oneof![5 => Just(0u8), 2 => 0u8..5])
            .prop_map(|(by, g, amt, bypass, pay)| FgOp::Grant { by, g, amt, bypass, pay }),
        3 => (by(), 0u8..4).prop_map(|(by, g)| FgOp::Revoke { by, g }),
        2 => (by(), amt(), prop::option::of(0u8..4)).prop_map(|(by, amt, to)| FgOp::Move { by, amt, to }),
        2 => (prop_oneof![3 => Just(0u8), 1 => 1u8..6], prop::collection::vec(0u8..6, 0..3), prop::collection::vec(0u8..6, 0..3))
            .prop_map(|(by, add, del)| FgOp::Admins { by, add, del }),
    ];
    prop::collection::vec(op, 1..if deep { 60 } else { 20 }).boxed()
}

// ------------------------------------------------------------------------------------------------ C32

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WMsg {
    Pay { to: u8, amt: u32 },
    Burn { amt: u32 },
    /// call to the wallet itself
    Own(Box<WOp>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Exec { by: u8, l: Vec<WMsg> },
    Freeze { by: u8 },
    Admins { by: u8, l: Vec<u8> },
}
/// 0..=3 users, 4 the wallet itself
#[derive(Clone, PartialEq, Debug)]
struct Wm {
    admins: BTreeSet<usize>,
    mutable: bool,
    bal: [u128; 5],
}
type WlExec = cw1_whitelist::msg::ExecuteMsg<Empty>;
fn wmsg(op: &WOp, wallet: &str) -> WlExec {
    use cw1_whitelist::msg::ExecuteMsg as E;
    match op {
        WOp::Exec { l, .. } => E::Execute {
            msgs: l
                .iter()
                .map(|m| match m {
                    WMsg::Pay { to, amt } => CosmosMsg::Bank(BankMsg::Send {
                        to_address: USERS[*to as usize % 4].into(),
                        amount: vec![coin(*amt as u128, "ucoin")],
                    }),
                    WMsg::Burn { amt } => CosmosMsg::Bank(BankMsg::Burn { amount: vec![coin(*amt as u128, "ucoin")] }),
                    WMsg::Own(op) => CosmosMsg::Wasm(WasmMsg::Execute {
                        contract_addr: wallet.into(),
                        msg: to_json_binary(&wmsg(op, wallet)).unwrap(),
                        funds: vec![],
                    }),
                })
                .collect(),
        },
        WOp::Freeze { .. } => E::Freeze {},
        WOp::Admins { l, .. } => E::UpdateAdmins {
            admins: l.iter().map(|x| if *x as usize % 5 == 4 { wallet.to_string() } else { USERS[*x as usize % 5].to_string() }).collect(),
        },
    }
}
/// the meaning of an operation by `who`; false: refused as a whole
fn wapply(m: &mut Wm, who: usize, op: &WOp) -> bool {
    if !m.admins.contains(&who) {
        return false;
    }
    match op {
        WOp::Exec { l, .. } => l.iter().all(|x| match x {
            WMsg::Pay { to, amt } => {
                let a = *amt as u128;
                let ok = a > 0 && m.bal[4] >= a;
                if ok {
                    m.bal[4] -= a;
                    m.bal[*to as usize % 4] += a;
                }
                ok
            }
            WMsg::Burn { amt } => {
                let a = *amt as u128;
                let ok = a > 0 && m.bal[4] >= a;
                if ok {
                    m.bal[4] -= a;
                }
                ok
            }
            WMsg::Own(op) => wapply(m, 4, op),
        }),
        WOp::Freeze { .. } => {
            let ok = m.mutable;
            m.mutable = false;
            ok
        }
        WOp::Admins { l, .. } => {
            m.admins = l.iter().map(|x| *x as usize % 5).collect();
            m.mutable
        }
    }
}
fn c32(case: &(Vec<u8>, bool, Vec<WOp>), o: &mut Obs) -> V {
    let (first, mutable, ops) = case;
    let c = Chain::new();
    let code = {
        use astroport_whitelist::contract::*;
        c.store(Code::new("whitelist", instantiate, execute, query).sudo(sudo))
    };
    let adm = |l: &[u8]| -> Vec<String> { l.iter().map(|x| USERS[*x as usize % 4].to_string()).collect() };
    let w = c.init(code, OWNER, &cw1_whitelist::msg::InstantiateMsg { admins: adm(first), mutable: *mutable }, &[], "wallet", None)?;
    c.faucet(&w, "ucoin", 1 << 33);
    let mut m = Wm { admins: first.iter().map(|x| *x as usize % 4).collect(), mutable: *mutable, bal: [0, 0, 0, 0, 1 << 33] };
    let name = |i: usize| if i == 4 { w.as_str() } else { USERS[i] };
    let mut froze = false;
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        let by = match op {
            WOp::Exec { by, .. } | WOp::Freeze { by } | WOp::Admins { by, .. } => *by as usize % 4,
        };
        // mostly an admin
        let by = if matches!(op, WOp::Exec { by, .. } | WOp::Freeze { by } | WOp::Admins { by, .. } if *by < 8) {
            let l: Vec<usize> = m.admins.iter().filter(|x| **x < 4).copied().collect();
            if l.is_empty() { by } else { l[by % l.len()] }
        } else {
            by
        };
        let msg = wmsg(op, &w);
        for i in 0..5 {
            let q: cw1_answer::CanExecute = c.query(
                &w,
                &cw1_whitelist::msg::QueryMsg::<Empty>::CanExecute {
                    sender: name(i).into(),
                    msg: CosmosMsg::Bank(BankMsg::Send { to_address: USERS[0].into(), amount: vec![coin(1, "ucoin")] }),
                },
            )?;
            let works = c.dry(|| {
                c.exec(name(i), &w, &wmsg(&WOp::Exec { by: 0, l: vec![WMsg::Pay { to: 0, amt: 1 }] }, &w), &[]).is_ok()
            });
            ensure!(q.can_execute == m.admins.contains(&i), "op {n}: {} may execute: {}, admins {:?}", name(i), q.can_execute, m.admins);
            ensure!(works == (q.can_execute && m.bal[4] > 0), "op {n}: executing as {}: {works}, the query says {}", name(i), q.can_execute);
        }
        let mut m2 = m.clone();
        let r = c.exec(name(by), &w, &msg, &[]);
        if wapply(&mut m2, by, op) {
            ensure!(r.is_ok(), "op {n} {msg:?} by {} refused: {} ({m:?})", name(by), r.unwrap_err());
            o.tag(match op {
                WOp::Exec { .. } => "executed",
                WOp::Freeze { .. } => "froze",
                WOp::Admins { .. } => "admins changed",
            });
            m = m2;
            froze |= !m.mutable;
        } else {
            ensure!(r.is_err(), "op {n} {msg:?} by {} succeeded ({m:?})", name(by));
            ensure!(c.same_state(&st), "op {n} {msg:?} was refused but changed: {}", c.diff(&st));
            o.tag(if froze { "refused, frozen" } else { "refused" });
            o.nontrivial |= froze && !matches!(op, WOp::Exec { .. });
        }
        let l: cw1_whitelist::msg::AdminListResponse = c.query(&w, &cw1_whitelist::msg::QueryMsg::<Empty>::AdminList {})?;
        let got: BTreeSet<String> = l.admins.iter().cloned().collect();
        let want: BTreeSet<String> = m.admins.iter().map(|i| name(*i).to_string()).collect();
        ensure!(got == want && l.mutable == m.mutable, "op {n} {msg:?}: list {l:?}, expected {m:?}");
        for i in 0..5 {
            ensure!(c.balance(name(i), "ucoin") == m.bal[i], "op {n} {msg:?}: {} has {}, expected {}", name(i), c.balance(name(i), "ucoin"), m.bal[i]);
        }
    }
    Ok(())
}
mod cw1_answer {
    #[derive(serde::Deserialize)]
    pub struct CanExecute {
        pub can_execute: bool,
    }
}
fn s32(deep: bool) -> BoxedStrategy<(Vec<u8>, bool, Vec<WOp>)> {
    let by = || 0u8..12;
    let leaf = || {
        prop_oneof![
            4 => (0u8..4, prop_oneof![9 => any::<u32>(), 1 => Just(0)]).prop_map(|(to, amt)| WMsg::Pay { to, amt }),
            1 => any::<u32>().prop_map(|amt| WMsg::Burn { amt }),
        ]
    };
    let simple = move || {
        prop_oneof![
            2 => (by(), prop::collection::vec(leaf(), 0..3)).prop_map(|(by, l)| WOp::Exec { by, l }),
            1 => by().prop_map(|by| WOp::Freeze { by }),
            4 => (by(), prop::collection::vec(0u8..5, 0..4)).prop_map(|(by, l)| WOp::Admins { by, l }),
        ]
    };
    let nested = move || prop_oneof![3 => leaf(), 2 => simple().prop_map(|o| WMsg::Own(Box::new(o)))];
    let op = prop_oneof![
        3 => (by(), prop::collection::vec(nested(), 0..4)).prop_map(|(by, l)| WOp::Exec { by, l }),
        1 => simple(),
    ];
    (prop::collection::vec(0u8..4, 0..4), prop::bool::weighted(0.85), prop::collection::vec(op, 1..if deep { 50 } else { 16 })).boxed()
}

// ------------------------------------------------------------------------------------------------ C31

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum COp {
    /// convert old tokens directly, or through the pool
    Convert { u: u8, amt: u128, to: Option<u8>, pool: bool },
    /// 0 nothing attached, 1 new tokens, 2 junk, 3 old and junk, 4 forged hook by a user, 5 hook from another cw20,
    /// 6 pool swap declaring more than attached, 7 the wrong entry point for this kind of old token, 8 pool liquidity,
    /// 9 pool swap of the new token
    Bad { u: u8, what: u8, amt: u128 },
    /// burn, or ship for burning
    Burn { u: u8, timeout: Option<u64>, pay: bool },
    Donate { u: u8, amt: u128, new: bool, pool: bool },
    Gap { secs: u32 },
}
fn c31(case: &(bool, u128, Vec<COp>), o: &mut Obs) -> V {
    let (cw20, stock, ops) = case;
    let w = World::new(&[], false)?;
    let c = &w.c;
    let old = if *cw20 { w.tok(&Tok { cw20: true, dec: 6 })? } else { native("ibc/oldastro") };
    let junk20 = w.tok(&Tok { cw20: true, dec: 6 })?;
    let new = native("factory/x/newastro");
    for u in USERS {
        w.fund(&old, u, 1 << 100)?;
        w.fund(&junk20, u, 1 << 100)?;
        c.faucet(u, "ujunk", 1 << 100);
        c.faucet(u, "factory/x/newastro", 1 << 100);
    }
    let code = {
        use astro_token_converter::contract::*;
        c.store(Code::new("converter", instantiate, execute, query))
    };
    let k = c.init(
        code,
        OWNER,
        &conv::InstantiateMsg {
            old_astro_asset_info: old.clone(),
            new_astro_denom: "factory/x/newastro".into(),
            outpost_burn_params: (!*cw20).then(|| conv::OutpostBurnParams {
                terra_burn_addr: "terra1burn".into(),
                old_astro_transfer_channel: "channel-7".into(),
            }),
        },
        &[],
        "conv",
        None,
    )?;
    c.faucet(&k, "factory/x/newastro", *stock);
    // a constant-product pool of the two that is then migrated
    let xyk = c.store(codes::pair(Kind::Xyk));
    let pc = {
        use astroport_pair_converter::contract::*;
        use astroport_pair_converter::queries::query;
        c.store(Code::new("pair_converter", instantiate, execute, query).migrate(migrate))
    };
    let mut infos = vec![new.clone(), old.clone()];
    if stock % 2 == 0 {
        infos.reverse();
    }
    let p = c.init(
        xyk,
        OWNER,
        &pair::InstantiateMsg {
            pair_type: astroport::factory::PairType::Xyk {},
            asset_infos: infos,
            token_code_id: 1,
            factory_addr: w.factory.clone(),
            init_params: None,
        },
        &[],
        "pair",
        Some(OWNER.into()),
    )?;
    c.with_storage(&p, |s| cw2::set_contract_version(s, "astroport-pair", "1.3.3")).map_err(|e| e.to_string())?;
    c.migrate(OWNER, &p, pc, &astroport_pair_converter::migration::MigrateMsg { converter_contract: k.clone() })?;

    // (old, new) balances: users, converter, pool, gone
    let bals = || -> Vec<(u128, u128)> {
        let mut v: Vec<_> = USERS.iter().map(|u| (w.bal(&old, u), w.bal(&new, u))).collect();
        v.extend([&k, &p].map(|a| (w.bal(&old, a), w.bal(&new, a))));
        v
    };
    for (n, op) in ops.iter().enumerate() {
        let st = c.state();
        let b = bals();
        let mut want = b.clone();
        let ext = c.ext().len();
        let (r, ok) = match op {
            COp::Convert { u, amt, to, pool } => {
                let u = *u as usize % 4;
                let t = to.map(|t| t as usize % 4);
                let rc = t.map(|t| USERS[t].to_string());
                let ok = *amt > 0 && *amt <= b[u].0 && *amt <= b[4].1;
                if *pool {
                    let q: R<pair::SimulationResponse> =
                        c.query(&p, &pair::QueryMsg::Simulation { offer_asset: asset(&old, *amt), ask_asset_info: None });
                    ensure!(
                        q.as_ref().is_ok_and(|q| q.return_amount.u128() == *amt && q.commission_amount.is_zero() && q.spread_amount.is_zero()),
                        "op {n}: the pool quotes {q:?} for {amt}"
                    );
                    let q: R<pair::ReverseSimulationResponse> =
                        c.query(&p, &pair::QueryMsg::ReverseSimulation { ask_asset: asset(&new, *amt), offer_asset_info: None });
                    ensure!(q.as_ref().is_ok_and(|q| q.offer_amount.u128() == *amt), "op {n}: the pool quotes back {q:?} for {amt}");
                }
                let r = match (*cw20, *pool) {
                    (true, false) => c.cw20_send(USERS[u], &info_str(&old), &k, *amt, &conv::Cw20HookMsg { receiver: rc }),
                    (true, true) => c.cw20_send(
                        USERS[u],
                        &info_str(&old),
                        &p,
                        *amt,
                        &pair::Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: None, to: rc },
                    ),
                    (false, pool) => {
                        let funds = if *amt > 0 { vec![coin(*amt, "ibc/oldastro")] } else { vec![] };
                        if pool {
                            c.exec(
                                USERS[u],
                                &p,
                                &pair::ExecuteMsg::Swap {
                                    offer_asset: asset(&old, *amt),
                                    ask_asset_info: None,
                                    belief_price: None,
                                    max_spread: None,
                                    to: rc,
                                },
                                &funds,
                            )
                        } else {
                            c.exec(USERS[u], &k, &conv::ExecuteMsg::Convert { receiver: rc }, &funds)
                        }
                    }
                };
                if ok {
                    want[u].0 -= amt;
                    want[4].0 += amt;
                    want[4].1 -= amt;
                    want[t.unwrap_or(u)].1 += amt;
                    o.tag(if *pool { "converted through the pool" } else { "converted" });
                    o.nontrivial = true;
                }
                (r, Some(ok))
            }
            COp::Bad { u, what, amt } => {
                let u = USERS[*u as usize % 4];
                let amt = (*amt).max(1);
                let jc = coin(amt, "ujunk");
                let recv = |s: &str| cw20::Cw20ReceiveMsg {
                    sender: s.into(),
                    amount: Uint128::new(amt),
                    msg: to_json_binary(&conv::Cw20HookMsg { receiver: None }).unwrap(),
                };
                let swap_hook = pair::Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: None, to: None };
                let swap = |info: &astroport::asset::AssetInfo, a: u128| pair::ExecuteMsg::Swap {
                    offer_asset: asset(info, a),
                    ask_asset_info: None,
                    belief_price: None,
                    max_spread: None,
                    to: None,
                };
                let conv_msg = conv::ExecuteMsg::Convert { receiver: None };
                let r = match what % 10 {
                    0 => c.exec(u, &k, &conv_msg, &[]),
                    1 => c.exec(u, &k, &conv_msg, &[coin(amt, "factory/x/newastro")]),
                    2 => c.exec(u, &k, &conv_msg, &[jc]),
                    3 => c.exec(u, &k, &conv_msg, &[coin(amt, if *cw20 { "factory/x/newastro" } else { "ibc/oldastro" }), jc]),
                    4 => {
                        let swap = pair::ExecuteMsg::Receive(cw20::Cw20ReceiveMsg {
                            sender: u.into(),
                            amount: Uint128::new(amt),
                            msg: to_json_binary(&swap_hook).unwrap(),
                        });
                        let r = c.exec(u, &p, &swap, &[]);
                        ensure!(r.is_err(), "op {n}: forged hook accepted by the pool");
                        c.exec(u, &k, &conv::ExecuteMsg::Receive(recv(u)), &[])
                    }
                    5 => {
                        let r = c.cw20_send(u, &info_str(&junk20), &p, amt, &swap_hook);
                        ensure!(r.is_err(), "op {n}: foreign cw20 accepted by the pool");
                        c.cw20_send(u, &info_str(&junk20), &k, amt, &conv::Cw20HookMsg { receiver: None })
                    }
                    6 => c.exec(u, &p, &swap(&old, amt + 1), &if *cw20 { vec![] } else { vec![coin(amt, "ibc/oldastro")] }),
                    7 => {
                        if *cw20 {
                            c.exec(u, &k, &conv::ExecuteMsg::TransferForBurning { timeout: None }, &[])
                        } else {
                            c.exec(u, &k, &conv::ExecuteMsg::Burn {}, &[])
                        }
                    }
                    8 => {
                        let r = c.exec(
                            u,
                            &p,
                            &pair::ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None },
                            &[coin(amt, "ujunk")],
                        );
                        ensure!(r.is_err(), "op {n}: withdrawal accepted by the pool");
                        c.exec(
                            u,
                            &p,
                            &pair::ExecuteMsg::ProvideLiquidity {
                                assets: vec![asset(&new, amt), asset(&old, 0)],
                                slippage_tolerance: None,
                                auto_stake: None,
                                receiver: None,
                                min_lp_to_receive: None,
                            },
                            &[coin(amt, "factory/x/newastro")],
                        )
                    }
                    _ => {
                        let q: R<pair::SimulationResponse> =
                            c.query(&p, &pair::QueryMsg::Simulation { offer_asset: asset(&new, amt), ask_asset_info: None });
                        ensure!(q.is_err(), "op {n}: the pool quotes the new token: {q:?}");
                        c.exec(u, &p, &swap(&new, amt), &[coin(amt, "factory/x/newastro")])
                    }
                };
                o.tag("malformed");
                (r, Some(false))
            }
            COp::Burn { u, timeout, pay } => {
                let u = USERS[*u as usize % 4];
                let held = b[4].0;
                let funds = if *pay { vec![coin(1, "ujunk")] } else { vec![] };
                let ok = held > 0 && !*pay && (*cw20 || timeout.is_none_or(|t| (120..=600).contains(&t)));
                let s0 = if *cw20 { c.cw20_supply(&info_str(&old)) } else { 0 };
                let r = if *cw20 {
                    c.exec(u, &k, &conv::ExecuteMsg::Burn {}, &funds)
                } else {
                    c.exec(u, &k, &conv::ExecuteMsg::TransferForBurning { timeout: *timeout }, &funds)
                };
                if ok {
                    ensure!(r.is_ok(), "op {n} {op:?} with {held} old tokens refused: {}", r.unwrap_err());
                    want[4].0 = 0;
                    if *cw20 {
                        let s1 = c.cw20_supply(&info_str(&old));
                        ensure!(s0 - s1 == held, "op {n}: burned {} of {held}", s0 - s1);
                    } else {
                        let x = c.ext();
                        ensure!(x.len() == ext + 1 && x[ext].kind == "ibc" && x[ext].sender == k, "op {n}: sent {:?}", &x[ext..]);
                        let at = c.block().time.plus_seconds(timeout.unwrap_or(300)).nanos();
                        let v: serde_json::Value = serde_json::from_str(&x[ext].body).unwrap();
                        let t = &v["transfer"];
                        ensure!(
                            t["channel_id"] == "channel-7"
                                && t["to_address"] == "terra1burn"
                                && t["amount"]["amount"] == held.to_string()
                                && t["amount"]["denom"] == "ibc/oldastro"
                                && t["timeout"]["timestamp"] == at.to_string(),
                            "op {n}: shipped {v}"
                        );
                    }
                    o.tag("burned");
                }
                (r.map(|_| Resp::default()), Some(ok))
            }
            COp::Donate { u, amt, new: nw, pool } => {
                let u = *u as usize % 4;
                let to = if *pool { 5 } else { 4 };
                let (i, have) = if *nw { (&new, b[u].1) } else { (&old, b[u].0) };
                let a = (*amt).min(have).max(1);
                if have > 0 {
                    w.transfer(i, USERS[u], if *pool { &p } else { &k }, a)?;
                    if *nw {
                        want[u].1 -= a;
                        want[to].1 += a;
                    } else {
                        want[u].0 -= a;
                        want[to].0 += a;
                    }
                }
                (Ok(Resp::default()), Some(true))
            }
            COp::Gap { secs } => {
                c.advance(1, *secs as u64);
                continue;
            }
        };
        match ok {
            Some(true) => ensure!(r.is_ok(), "op {n} {op:?} refused: {} ({b:?})", r.unwrap_err()),
            _ => {
                ensure!(r.is_err(), "op {n} {op:?} succeeded ({b:?})");
                ensure!(c.same_state(&st), "op {n} {op:?} was refused but changed: {}", c.diff(&st));
            }
        }
        let got = bals();
        if got != want {
            viol!("op {n} {op:?}: balances {got:?}, expected {want:?}");
        }
    }
    Ok(())
}
fn s31(deep: bool) -> BoxedStrategy<(bool, u128, Vec<COp>)> {
    let amt = || prop_oneof![8 => gen::amount(0, 24), 1 => Just(0u128)];
    let op = prop_oneof![
        6 => (0u8..4, amt(), prop::option::of(0u8..4), any::<bool>()).prop_map(|(u, amt, to, pool)| COp::Convert { u, amt, to, pool }),
        3 => (0u8..4, 0u8..10, gen::mag(0, 20)).prop_map(|(u, what, amt)| COp::Bad { u, what, amt }),
        3 => (0u8..4, prop::option::weighted(0.6, prop_oneof![Just(120u64), Just(600), 100u64..700, any::<u64>()]), prop::bool::weighted(0.1))
            .prop_map(|(u, timeout, pay)| COp::Burn { u, timeout, pay }),
        1 => (0u8..4, gen::mag(0, 20), any::<bool>(), any::<bool>()).prop_map(|(u, amt, new, pool)| COp::Donate { u, amt, new, pool }),
        1 => gen::gap().prop_map(|secs| COp::Gap { secs }),
    ];
    (any::<bool>(), gen::mag(10, 27), prop::collection::vec(op, 1..if deep { 50 } else { 16 })).boxed()
}

// the Neutron flavour of the converter ships through Neutron's own message and needs its fee

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NCase {
    held: u128,
    ntrn: u128,
    /// fees (recv, ack, timeout) asked by the chain
    fee: (u64, u64, u64),
    timeout: Option<u64>,
    attach: u8,
    amt: u128,
}
fn c31n(k: &NCase, o: &mut Obs) -> V {
    use astroport_v4::astro_converter as conv;
    use astro_token_converter_neutron::contract::{execute, instantiate};
    use cosmwasm_std::testing::{mock_env, mock_info, MockApi, MockQuerier, MockStorage};
    use cosmwasm_std::{ContractResult, OwnedDeps, SystemResult};
    use neutron_sdk_09::bindings::msg::{IbcFee, NeutronMsg};
    use neutron_sdk_09::bindings::query::NeutronQuery;
    let env = mock_env();
    let me = env.contract.address.to_string();
    let (fr, fa, ft) = k.fee;
    let coins1 = |a: u64| if a > 0 { vec![coin(a as u128, "untrn")] } else { vec![] };
    let fee = move || IbcFee {
        recv_fee: coins1(fr),
        ack_fee: {
            let mut v = coins1(fa);
            v.push(coin(7, "uusd"));
            v
        },
        timeout_fee: coins1(ft),
    };
    let q: MockQuerier<NeutronQuery> =
        MockQuerier::new(&[(&me, &[coin(k.held, "ibc/old"), coin(k.ntrn, "untrn")])]).with_custom_handler(move |r| {
            let b: ContractResult<Binary> = match r {
                NeutronQuery::MinIbcFee {} => {
                    to_json_binary(&neutron_sdk_09::query::min_ibc_fee::MinIbcFeeResponse { min_fee: fee() }).into()
                }
                _ => ContractResult::Err("unsupported".into()),
            };
            SystemResult::Ok(b)
        });
    let mut init: OwnedDeps<MockStorage, MockApi, MockQuerier> =
        OwnedDeps { storage: MockStorage::default(), api: MockApi::default(), querier: MockQuerier::default(), custom_query_type: Default::default() };
    instantiate(
        init.as_mut(),
        env.clone(),
        mock_info("owner", &[]),
        conv::InstantiateMsg {
            old_astro_asset_info: astroport_v4::asset::AssetInfo::NativeToken { denom: "ibc/old".into() },
            new_astro_denom: "factory/x/new".into(),
            outpost_burn_params: Some(conv::OutpostBurnParams {
                terra_burn_addr: "terra1burn".into(),
                old_astro_transfer_channel: "channel-7".into(),
            }),
        },
    )
    .map_err(|e| e.to_string())?;
    let mut deps: OwnedDeps<MockStorage, MockApi, MockQuerier<NeutronQuery>, NeutronQuery> =
        OwnedDeps { storage: init.storage, api: MockApi::default(), querier: q, custom_query_type: Default::default() };
    let mut run = |who: &str, m: conv::ExecuteMsg, f: &[Coin]| execute(deps.as_mut(), env.clone(), mock_info(who, f), m);
    // conversion: one bank message with the amount attached
    let r = run("alice", conv::ExecuteMsg::Convert { receiver: None }, &[coin(k.amt, "ibc/old")]).map_err(|e| e.to_string())?;
    let want: CosmosMsg<NeutronMsg> = BankMsg::Send { to_address: "alice".into(), amount: vec![coin(k.amt, "factory/x/new")] }.into();
    ensure!(r.messages.len() == 1 && r.messages[0].msg == want, "conversion of {} sent {:?}", k.amt, r.messages);
    ensure!(run("alice", conv::ExecuteMsg::Convert { receiver: None }, &[coin(k.amt, "factory/x/new")]).is_err(), "new tokens converted");
    ensure!(run("alice", conv::ExecuteMsg::Convert { receiver: None }, &[]).is_err(), "nothing converted");
    ensure!(run("alice", conv::ExecuteMsg::Burn {}, &[]).is_err(), "burnt on an outpost");
    let funds = match k.attach % 3 {
        0 => vec![],
        1 => vec![coin(5, "untrn")],
        _ => vec![coin(5, "ujunk")],
    };
    let r = run("bob", conv::ExecuteMsg::TransferForBurning { timeout: k.timeout }, &funds);
    let need = fr as u128 + fa as u128 + ft as u128;
    let ok = k.attach % 3 < 2 && k.held > 0 && k.ntrn >= need && k.timeout.is_none_or(|t| (120..=600).contains(&t));
    if ok {
        let r = r.map_err(|e| format!("{k:?} refused: {e}"))?;
        ensure!(r.messages.len() == 1, "{k:?} sent {:?}", r.messages);
        let CosmosMsg::Custom(NeutronMsg::IbcTransfer { source_channel, sender, receiver, token, timeout_timestamp, fee, .. }) = &r.messages[0].msg
        else {
            viol!("{k:?} sent {:?}", r.messages)
        };
        ensure!(
            source_channel == "channel-7"
                && *sender == me
                && receiver == "terra1burn"
                && *token == coin(k.held, "ibc/old")
                && *timeout_timestamp == env.block.time.plus_seconds(k.timeout.unwrap_or(300)).nanos()
                && fee.ack_fee.iter().chain(&fee.timeout_fee).all(|c| c.denom == "untrn"),
            "{k:?} sent {:?}",
            r.messages
        );
        o.nontrivial = true;
        o.tag("shipped");
    } else {
        ensure!(r.is_err(), "{k:?} accepted: {r:?}");
    }
    Ok(())
}
fn s31n(_: bool) -> BoxedStrategy<NCase> {
    let f = || prop_oneof![2 => Just(0u64), 3 => 1u64..1000];
    (
        prop_oneof![1 => Just(0u128), 9 => gen::amount(0, 30)],
        prop_oneof![0u128..3000, gen::mag(0, 12)],
        (f(), f(), f()),
        prop::option::of(prop_oneof![6 => 118u64..603, 1 => any::<u64>()]),
        0u8..3,
        gen::amount(0, 30),
    )
        .prop_map(|(held, ntrn, fee, timeout, attach, amt)| NCase { held, ntrn, fee, timeout, attach, amt })
        .boxed()
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C31",
            rule: "old tokens were converted or shipped",
            assumptions: &["IBC transfers are recorded and escrowed, not executed; the Neutron flavour runs on cosmwasm-std's mock dependencies"],
            parts: vec![
                Box::new(Gen { name: "histories", quick: 8_000, thorough: 300_000, strategy: s31, run: c31 }),
                Box::new(Gen { name: "neutron", quick: 20_000, thorough: 500_000, strategy: s31n, run: c31n }),
            ],
        },
        Property {
            id: "C32",
            rule: "a change was attempted after the list was frozen",
            assumptions: &[],
            parts: vec![Box::new(Gen { name: "histories", quick: 12_000, thorough: 400_000, strategy: s32, run: c32 })],
        },
        Property {
            id: "C33",
            rule: "a grant or revocation happened while other grants were in force",
            assumptions: &["the chain's fee-grant module refuses a second grant between two accounts and the revocation of none"],
            parts: vec![Box::new(Gen { name: "histories", quick: 12_000, thorough: 400_000, strategy: s33, run: c33 })],
        },
        Property {
            id: "C34",
            rule: "a record changed while others existed",
            assumptions: &[],
            parts: vec![Box::new(Gen { name: "histories", quick: 12_000, thorough: 400_000, strategy: s34, run: c34 })],
        },
    ]
}
