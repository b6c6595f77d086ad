//! C29: ownership hand-over; C30: access control of every administrative message.

use std::collections::{BTreeMap, BTreeSet};

use astroport::asset::AssetInfo;
use astroport::incentives as inc;
use astroport::pair_xyk_sale_tax::{SaleTaxConfigUpdates, SaleTaxInitParams, TaxConfig};
use astroport::{factory, fee_granter as fg, maker as mk, native_coin_registry as ncr, pair, pair_concentrated as pcl, router, vesting};
use cosmwasm_std::{coin, to_json_binary, to_json_vec, Addr, Binary, Coin, CosmosMsg, Decimal, Empty, Uint128, WasmMsg};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::chain::*;
use crate::engine::*;
use crate::gen;
use crate::pools::*;
use crate::world::*;
use crate::{ensure, viol};

const ASTRO: &str = "factory/wasm1assembly/astro";
const GAS: &str = "ugas";
/// contracts with an owner
const OWNED: [&str; 8] = ["factory", "registry", "vesting", "granter", "incentives", "maker", "stable", "pcl"];

/// one of everything
pub(super) struct Zoo {
    pub(super) w: World,
    pub(super) at: BTreeMap<&'static str, String>,
    pub(super) pools: BTreeMap<&'static str, Pool>,
    pub(super) toks: Vec<AssetInfo>,
    /// owners; for the two pools `None` until they got one of their own
    pub(super) own: BTreeMap<&'static str, Option<String>>,
    pub(super) controller: String,
    pub(super) guardian: String,
    pub(super) taxadmin: String,
    pub(super) admins: BTreeSet<String>,
    pub(super) wallet: BTreeSet<String>,
    pub(super) frozen: bool,
    pub(super) minter: Option<String>,
    pub(super) marketing: Option<String>,
    /// the factory's current answer to "who is the incentives contract"
    pub(super) people: Vec<String>,
}

pub(super) fn zoo() -> R<Zoo> {
    let fees = |kind, total, maker| Fees { kind, total, maker };
    let w = World::new(&[fees(Kind::Xyk, 30, 3333), fees(Kind::Stable, 5, 5000), fees(Kind::Pcl, 0, 5000), fees(Kind::Tax, 30, 3333)], true)?;
    let c = &w.c;
    let toks = vec![
        w.tok(&Tok { cw20: false, dec: 6 })?,
        w.tok(&Tok { cw20: false, dec: 6 })?,
        w.tok(&Tok { cw20: true, dec: 6 })?,
        native(ASTRO),
        w.tok(&Tok { cw20: false, dec: 6 })?,
    ];
    w.native_coin(ASTRO, 6)?;
    for u in USERS.iter().chain([&OWNER]) {
        for d in [ASTRO, GAS] {
            c.faucet(u, d, RICH);
        }
        if !USERS.contains(u) {
            for t in &toks {
                w.fund(t, u, RICH)?;
            }
        }
    }
    let mut at = BTreeMap::new();
    let mut pools = BTreeMap::new();
    let vcode = c.store(codes::vesting());
    let v = c.init(vcode, OWNER, &vesting::InstantiateMsg { owner: OWNER.into(), vesting_token: native(ASTRO) }, &[], "vesting", None)?;
    let icode = c.store(codes::incentives());
    let i = c.init(
        icode,
        OWNER,
        &inc::InstantiateMsg {
            owner: OWNER.into(),
            factory: w.factory.clone(),
            astro_token: native(ASTRO),
            vesting_contract: v.clone(),
            incentivization_fee_info: None,
            guardian: Some(USERS[2].into()),
        },
        &[],
        "incentives",
        None,
    )?;
    let sch = |a: u128| vesting::VestingSchedule { start_point: vesting::VestingSchedulePoint { time: 1, amount: Uint128::new(a) }, end_point: None };
    let run = vesting::VestingSchedule {
        start_point: vesting::VestingSchedulePoint { time: c.time(), amount: Uint128::zero() },
        end_point: Some(vesting::VestingSchedulePoint { time: c.time() + 50_000_000, amount: Uint128::new(1_000_000_000) }),
    };
    c.exec(
        OWNER,
        &v,
        &vesting::ExecuteMsg::RegisterVestingAccounts {
            vesting_accounts: vec![
                vesting::VestingAccount { address: i.clone(), schedules: vec![sch(10u128.pow(15))] },
                vesting::VestingAccount { address: USERS[1].into(), schedules: vec![run] },
            ],
        },
        &[coin(10u128.pow(15) + 1_000_000_000, ASTRO)],
    )?;
    c.exec(
        OWNER,
        &i,
        &inc::ExecuteMsg::UpdateConfig {
            astro_token: None,
            vesting_contract: None,
            generator_controller: Some(USERS[3].into()),
            guardian: None,
            incentivization_fee_info: None,
            token_transfer_gas_limit: None,
        },
        &[],
    )?;
    let mcode = c.store(codes::maker());
    let m = c.init(
        mcode,
        OWNER,
        &mk::InstantiateMsg {
            owner: OWNER.into(),
            default_bridge: None,
            astro_token: native(ASTRO),
            factory_contract: w.factory.clone(),
            staking_contract: Some(SHARE.into()),
            governance_contract: None,
            governance_percent: None,
            max_spread: Some(Decimal::percent(50)),
            second_receiver_params: None,
            collect_cooldown: None,
        },
        &[],
        "maker",
        None,
    )?;
    c.exec(
        OWNER,
        &w.factory,
        &factory::ExecuteMsg::UpdateConfig {
            token_code_id: None,
            fee_address: Some(m.clone()),
            generator_address: Some(i.clone()),
            whitelist_code_id: None,
            coin_registry_address: None,
        },
        &[],
    )?;
    let big = 1_000_000_000_000u128;
    for (name, kind, a, b) in [("xyk", Kind::Xyk, 0, 3), ("stable", Kind::Stable, 0, 2), ("pcl", Kind::Pcl, 0, 1), ("tax", Kind::Tax, 1, 3), ("transmuter", Kind::Transmuter, 1, 4)] {
        let is = [toks[a].clone(), toks[b].clone()];
        let d = [6, 6];
        let usual = PclP { amp: 400, gamma: 14_500, mid: 2600, out: 4500, fee_gamma: 2300, threshold: 2000, delta: 146_000, half_time: 600, price: (10_000, 0) };
        let p = match kind {
            Kind::Stable => w.create(kind, &is, &d, Some(&pair::StablePoolParams { amp: 100, owner: None }))?,
            Kind::Pcl => w.create(kind, &is, &d, Some(&pcl_params(&usual, false)))?,
            Kind::Tax => w.create(
                kind,
                &is,
                &d,
                Some(&SaleTaxInitParams {
                    tax_configs: vec![(info_str(&toks[1]).as_str(), TaxConfig { tax_rate: Decimal::percent(5), tax_recipient: TAXED.to_string() })].into(),
                    tax_config_admin: TAXADM.into(),
                    track_asset_balances: false,
                }),
            )?,
            _ => w.create::<()>(kind, &is, &d, None)?,
        };
        for u in [USERS[0], OWNER] {
            w.provide(&p, u, &[big, big], &Default::default())?;
        }
        at.insert(name, p.addr.clone());
        pools.insert(name, p);
    }
    let code = {
        use astroport_fee_granter::contract::*;
        use astroport_fee_granter::query::query;
        c.store(Code::new("granter", instantiate, execute, query))
    };
    let g = c.init(code, OWNER, &fg::InstantiateMsg { owner: OWNER.into(), admins: vec![USERS[0].into()], gas_denom: GAS.into() }, &[], "granter", None)?;
    c.faucet(&g, GAS, 10u128.pow(12));
    let wl = c.init(w.whitelist_code, OWNER, &cw1_whitelist::msg::InstantiateMsg { admins: vec![OWNER.into(), USERS[0].into()], mutable: true }, &[], "wallet", None)?;
    c.faucet(&wl, GAS, 10u128.pow(12));
    let rc = c.store(codes::router());
    let r = c.init(rc, OWNER, &router::InstantiateMsg { astroport_factory: w.factory.clone() }, &[], "router", None)?;
    c.faucet(&r, &info_str(&toks[0]), 10u128.pow(9));
    let xc = {
        use astroport_xastro_token::contract::*;
        c.store(Code::new("xtoken", instantiate, execute, query))
    };
    let xt = c.init(
        xc,
        OWNER,
        &astroport::xastro_token::InstantiateMsg {
            name: "xASTRO".into(),
            symbol: "xASTRO".into(),
            decimals: 6,
            initial_balances: vec![cw20::Cw20Coin { address: USERS[0].into(), amount: Uint128::new(1_000_000) }],
            mint: Some(cw20::MinterResponse { minter: OWNER.into(), cap: None }),
            marketing: Some(astroport::xastro_token::InstantiateMarketingInfo {
                project: Some("p".into()),
                description: None,
                marketing: Some(OWNER.into()),
                logo: None,
            }),
        },
        &[],
        "xtoken",
        None,
    )?;
    // staked LP tokens, emissions, an external reward, collected fees
    c.exec(OWNER, &i, &inc::ExecuteMsg::SetupPools { pools: vec![(pools["xyk"].lp.clone(), Uint128::new(100)), (pools["pcl"].lp.clone(), Uint128::new(50))] }, &[])?;
    c.exec(OWNER, &i, &inc::ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(1000) }, &[])?;
    for p in ["xyk", "pcl"] {
        c.exec(USERS[0], &i, &inc::ExecuteMsg::Deposit { recipient: None }, &[coin(1000, pools[p].lp.clone())])?;
    }
    c.exec(
        USERS[1],
        &i,
        &inc::ExecuteMsg::Incentivize {
            lp_token: pools["xyk"].lp.clone(),
            schedule: inc::InputSchedule { reward: astroport::asset::Asset { info: toks[4].clone(), amount: Uint128::new(10u128.pow(12)) }, duration_periods: 3 },
        },
        &[coin(10u128.pow(12), info_str(&toks[4]))],
    )?;
    for (k, t) in toks.iter().enumerate() {
        w.fund(t, &m, 1_000_000 + k as u128)?;
    }
    for (k, a) in [("factory", &w.factory), ("registry", &w.registry), ("vesting", &v), ("incentives", &i), ("maker", &m), ("granter", &g), ("wallet", &wl), ("router", &r), ("xtoken", &xt)] {
        at.insert(k, a.clone());
    }
    let own = OWNED.iter().map(|k| (*k, (*k != "stable" && *k != "pcl").then(|| OWNER.to_string()))).collect();
    let mut people: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    people.extend([OWNER, FEE, SHARE, TAXED, TAXADM, "wasm1newowner", "wasm1secondowner"].map(String::from));
    people.extend(at.values().cloned());
    people.push(info_str(&toks[2]));
    Ok(Zoo {
        w,
        at,
        pools,
        toks,
        own,
        controller: USERS[3].into(),
        guardian: USERS[2].into(),
        taxadmin: TAXADM.into(),
        admins: [USERS[0].to_string()].into(),
        wallet: [OWNER.to_string(), USERS[0].to_string()].into(),
        frozen: false,
        minter: Some(OWNER.into()),
        marketing: Some(OWNER.into()),
        people,
    })
}

impl Zoo {
    fn owner(&self, k: &str) -> String {
        self.own[k].clone().unwrap_or_else(|| self.own["factory"].clone().unwrap())
    }
    fn owner_reported(&self, k: &str) -> R<String> {
        let v: serde_json::Value = self.w.c.query(&self.at[k], &json!({"config": {}}))?;
        Ok(v["owner"].as_str().unwrap_or("nobody").to_string())
    }
    fn lp(&self, k: &str) -> String {
        self.pools[k].lp.clone()
    }
}

// ------------------------------------------------------------------------------------ privileged messages

#[derive(Clone, Debug, PartialEq)]
enum Role {
    Owner(&'static str),
    FactoryOwner,
    Controller,
    Guardian,
    /// the contract of that name itself
    Only(&'static str),
    Granter,
    TaxAdmin,
    /// factory owner or tax administrator
    Tax,
    Wallet,
    /// may change the list of wallet admins
    WalletMutable,
    Minter,
    Marketing,
}

impl Zoo {
    fn holders(&self, r: &Role) -> Vec<String> {
        let fo = || self.owner("factory");
        match r {
            Role::Owner(k) => vec![self.owner(k)],
            Role::FactoryOwner => vec![fo()],
            Role::Controller => vec![self.owner("incentives"), self.controller.clone()],
            Role::Guardian => vec![self.owner("incentives"), self.guardian.clone()],
            Role::Only(k) => vec![self.at[k].clone()],
            Role::Granter => std::iter::once(self.owner("granter")).chain(self.admins.iter().cloned()).collect(),
            Role::TaxAdmin => vec![self.taxadmin.clone()],
            Role::Tax => vec![fo(), self.taxadmin.clone()],
            Role::Wallet => self.wallet.iter().cloned().collect(),
            Role::WalletMutable => if self.frozen { vec![] } else { self.wallet.iter().cloned().collect() },
            Role::Minter => self.minter.iter().cloned().collect(),
            Role::Marketing => self.marketing.iter().cloned().collect(),
        }
    }
}

struct Priv {
    to: String,
    msg: Vec<u8>,
    funds: Vec<Coin>,
    role: Role,
    /// what the role table looks like once this was accepted
    then: Box<dyn Fn(&mut Zoo)>,
}

const KINDS_OF_MSG: u8 = 52;

fn privileged(z: &Zoo, k: u8, x: u64) -> Priv {
    let one = |v: &[String]| v[x as usize % v.len()].clone();
    let person = one(&z.people);
    let someone = person.clone();
    let pick = |n: usize| x as usize % n;
    let tok = z.toks[pick(5)].clone();
    let amt = Uint128::new(x as u128 % 1000 + 1);
    fn noop() -> Box<dyn Fn(&mut Zoo)> {
        Box::new(|_| ())
    }
    fn j<T: Serialize>(t: &T) -> Vec<u8> {
        to_json_vec(t).unwrap()
    }
    fn upd<T: Serialize>(t: &T) -> Vec<u8> {
        to_json_vec(&pair::ExecuteMsg::UpdateConfig { params: to_json_binary(t).unwrap() }).unwrap()
    }
    let mut funds = vec![];
    let mut then = noop();
    let iupd = |a: Option<AssetInfo>, v: Option<String>, c: Option<String>, g: Option<String>, f: Option<inc::IncentivizationFeeInfo>, l: Option<u64>| inc::ExecuteMsg::UpdateConfig {
        astro_token: a,
        vesting_contract: v,
        generator_controller: c,
        guardian: g,
        incentivization_fee_info: f,
        token_transfer_gas_limit: l,
    };
    let mupd = |f: fn(&mut serde_json::Value, &Zoo, u64)| {
        let mut v = json!({"update_config": {}});
        f(&mut v, z, x);
        to_json_vec(&v).unwrap()
    };
    let fupd = |code: Option<u64>, fee: Option<String>, gen: Option<String>, wl: Option<u64>, reg: Option<String>| factory::ExecuteMsg::UpdateConfig {
        token_code_id: code,
        fee_address: fee,
        generator_address: gen,
        whitelist_code_id: wl,
        coin_registry_address: reg,
    };
    let (to, role, msg): (&str, Role, Vec<u8>) = match k % KINDS_OF_MSG {
        // factory
        0 => ("factory", Role::Owner("factory"), j(&fupd(Some(z.w.cw20_code), None, None, None, None))),
        1 => ("factory", Role::Owner("factory"), j(&fupd(None, Some(person), None, None, None))),
        2 => ("factory", Role::Owner("factory"), j(&fupd(None, None, None, Some(z.w.whitelist_code), Some(z.w.registry.clone())))),
        3 => {
            let kind = KINDS[pick(5)];
            (
                "factory",
                Role::Owner("factory"),
                j(&factory::ExecuteMsg::UpdatePairConfig {
                    config: factory::PairConfig {
                        code_id: z.w.code(kind),
                        pair_type: pair_type(kind),
                        total_fee_bps: (x % 100) as u16,
                        maker_fee_bps: (x % 10_000) as u16,
                        is_disabled: x % 7 == 0,
                        is_generator_disabled: x % 3 == 0,
                        permissioned: x % 2 == 0,
                    },
                }),
            )
        }
        4 => {
            let ps: Vec<&Pool> = z.pools.values().collect();
            ("factory", Role::Owner("factory"), j(&factory::ExecuteMsg::Deregister { asset_infos: ps[pick(ps.len())].infos.clone() }))
        }
        5 => ("factory", Role::Owner("factory"), j(&factory::ExecuteMsg::UpdateTrackerConfig { tracker_code_id: z.w.tracker_code, token_factory_addr: None })),
        // coin registry
        6 => ("registry", Role::Owner("registry"), j(&ncr::ExecuteMsg::Add { native_coins: vec![(format!("unew{}", x % 50), (x % 19) as u8)] })),
        7 => ("registry", Role::Owner("registry"), j(&ncr::ExecuteMsg::Remove { native_coins: vec![info_str(&z.toks[4])] })),
        // vesting
        8 => {
            funds = vec![coin(amt.u128(), ASTRO)];
            (
                "vesting",
                Role::Owner("vesting"),
                j(&vesting::ExecuteMsg::RegisterVestingAccounts {
                    vesting_accounts: vec![vesting::VestingAccount {
                        address: person,
                        schedules: vec![vesting::VestingSchedule {
                            start_point: vesting::VestingSchedulePoint { time: z.w.c.time(), amount: amt },
                            end_point: None,
                        }],
                    }],
                }),
            )
        }
        9 => (
            "vesting",
            Role::Owner("vesting"),
            j(&vesting::ExecuteMsg::WithdrawFromActiveSchedule { account: USERS[1].into(), recipient: (x % 2 == 0).then_some(person), withdraw_amount: amt }),
        ),
        // fee granter
        10 => ("granter", Role::Granter, j(&fg::ExecuteMsg::Grant { grantee_contract: person, amount: amt, bypass_amount_check: x % 2 == 0 })),
        11 => ("granter", Role::Granter, j(&fg::ExecuteMsg::Revoke { grantee_contract: person })),
        12 => ("granter", Role::Granter, j(&fg::ExecuteMsg::TransferCoins { amount: amt, receiver: (x % 2 == 0).then_some(person) })),
        13 => {
            let add = x % 3 != 0;
            then = Box::new(move |z| {
                if add {
                    z.admins.insert(someone.clone());
                } else {
                    z.admins.remove(&someone);
                }
            });
            let l = vec![person];
            ("granter", Role::Owner("granter"), j(&if add { fg::ExecuteMsg::UpdateAdmins { add: l, remove: vec![] } } else { fg::ExecuteMsg::UpdateAdmins { add: vec![], remove: l } }))
        }
        // incentives
        14 => (
            "incentives",
            Role::Controller,
            j(&inc::ExecuteMsg::SetupPools { pools: vec![(z.lp(["xyk", "pcl", "stable"][pick(3)]), amt)] }),
        ),
        15 => ("incentives", Role::Owner("incentives"), j(&inc::ExecuteMsg::SetTokensPerSecond { amount: amt })),
        16 => ("incentives", Role::Owner("incentives"), j(&iupd(None, Some(z.at["vesting"].clone()), None, None, None, None))),
        17 => {
            then = Box::new(move |z| z.controller = someone.clone());
            ("incentives", Role::Owner("incentives"), j(&iupd(None, None, Some(person), None, None, None)))
        }
        18 => {
            then = Box::new(move |z| z.guardian = someone.clone());
            ("incentives", Role::Owner("incentives"), j(&iupd(None, None, None, Some(person), None, None)))
        }
        19 => (
            "incentives",
            Role::Owner("incentives"),
            j(&iupd(None, None, None, None, Some(inc::IncentivizationFeeInfo { fee_receiver: addr(&person), fee: coin(amt.u128(), GAS) }), Some(500_000 + x % 1000))),
        ),
        20 => (
            "incentives",
            Role::Owner("incentives"),
            j(&inc::ExecuteMsg::RemoveRewardFromPool { lp_token: z.lp("xyk"), reward: info_str(&z.toks[4]), bypass_upcoming_schedules: x % 2 == 0, receiver: person }),
        ),
        21 => ("incentives", Role::Owner("incentives"), j(&inc::ExecuteMsg::ClaimOrphanedRewards { limit: None, receiver: person })),
        22 => {
            let l = vec![if x % 2 == 0 { z.toks[1].clone() } else { tok }];
            ("incentives", Role::Guardian, j(&if x % 3 == 0 { inc::ExecuteMsg::UpdateBlockedTokenslist { add: vec![], remove: l } } else { inc::ExecuteMsg::UpdateBlockedTokenslist { add: l, remove: vec![] } }))
        }
        23 => ("incentives", Role::Only("factory"), j(&inc::ExecuteMsg::DeactivatePool { lp_token: z.lp(["xyk", "pcl"][pick(2)]) })),
        // maker
        24 => ("maker", Role::Owner("maker"), mupd(|v, _, x| v["update_config"]["governance_percent"] = json!((x % 101).to_string()))),
        25 => ("maker", Role::Owner("maker"), mupd(|v, z, x| v["update_config"]["staking_contract"] = json!(z.people[x as usize % z.people.len()]))),
        26 => ("maker", Role::Owner("maker"), mupd(|v, z, x| v["update_config"]["governance_contract"] = json!({"set": z.people[x as usize % z.people.len()]}))),
        27 => (
            "maker",
            Role::Owner("maker"),
            mupd(|v, z, x| {
                v["update_config"]["second_receiver_params"] =
                    json!({"second_fee_receiver": z.people[x as usize % z.people.len()], "second_receiver_cut": (x % 50 + 1).to_string()})
            }),
        ),
        28 => (
            "maker",
            Role::Owner("maker"),
            mupd(|v, z, x| {
                v["update_config"]["dev_fund_config"] =
                    json!({"set": {"address": z.people[x as usize % z.people.len()], "share": "0.1", "asset_info": z.toks[0]}})
            }),
        ),
        29 => ("maker", Role::Owner("maker"), mupd(|v, z, _| v["update_config"]["factory_contract"] = json!(z.w.factory))),
        30 => ("maker", Role::Owner("maker"), mupd(|v, z, x| v["update_config"]["basic_asset"] = json!(z.toks[x as usize % 3]))),
        31 => ("maker", Role::Owner("maker"), mupd(|v, _, x| v["update_config"]["max_spread"] = json!(format!("0.{}", x % 5 * 10 + 9)))),
        32 => ("maker", Role::Owner("maker"), mupd(|v, _, x| v["update_config"]["collect_cooldown"] = json!(30 + x % 100))),
        33 => {
            let (a, b) = [(z.toks[0].clone(), z.toks[3].clone()), (z.toks[2].clone(), z.toks[0].clone()), (z.toks[1].clone(), z.toks[0].clone())][pick(3)].clone();
            ("maker", Role::Owner("maker"), j(&mk::ExecuteMsg::UpdateBridges { add: Some(vec![(a.clone(), b)]), remove: (x % 2 == 0).then(|| vec![a]) }))
        }
        34 => ("maker", Role::Owner("maker"), j(&mk::ExecuteMsg::EnableRewards { blocks: x % 50 + 1 })),
        35 => ("maker", Role::Owner("maker"), j(&mk::ExecuteMsg::UpdateSeizeConfig { receiver: Some(person), seizable_assets: vec![tok] })),
        36 => ("maker", Role::Only("maker"), j(&mk::ExecuteMsg::DistributeAstro {})),
        37 => ("maker", Role::Only("maker"), j(&mk::ExecuteMsg::SwapBridgeAssets { assets: vec![z.toks[0].clone()], depth: x % 5 })),
        // pools
        38 => ("xyk", Role::FactoryOwner, upd(&pair::XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: (x % 1000 + 1) as u16, fee_share_address: person })),
        39 => ("xyk", Role::FactoryOwner, upd(&pair::XYKPoolUpdateParams::DisableFeeShare)),
        40 => (
            "stable",
            Role::Owner("stable"),
            upd(&match pick(4) {
                0 => pair::StablePoolUpdateParams::StartChangingAmp { next_amp: 50 + x % 200, next_amp_time: z.w.c.time() + 100_000 },
                1 => pair::StablePoolUpdateParams::StopChangingAmp {},
                2 => pair::StablePoolUpdateParams::EnableFeeShare { fee_share_bps: (x % 1000 + 1) as u16, fee_share_address: person },
                _ => pair::StablePoolUpdateParams::DisableFeeShare {},
            }),
        ),
        41 => (
            "pcl",
            Role::Owner("pcl"),
            upd(&match pick(5) {
                0 => pcl::ConcentratedPoolUpdateParams::Promote(pcl::PromoteParams {
                    next_amp: Decimal::from_ratio(50 + x % 20, 1u8),
                    next_gamma: Decimal::from_ratio(150u128, 1_000_000u128),
                    future_time: z.w.c.time() + 100_000,
                }),
                1 => pcl::ConcentratedPoolUpdateParams::StopChangingAmpGamma {},
                2 => pcl::ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: (x % 1000 + 1) as u16, fee_share_address: person },
                3 => pcl::ConcentratedPoolUpdateParams::DisableFeeShare,
                _ => pcl::ConcentratedPoolUpdateParams::Update(pcl::UpdatePoolParams {
                    mid_fee: Some(Decimal::permille(1)),
                    out_fee: Some(Decimal::permille(3 + x % 5)),
                    fee_gamma: None,
                    repeg_profit_threshold: None,
                    min_price_scale_delta: None,
                    ma_half_time: Some(600 + x % 100),
                }),
            }),
        ),
        42 => {
            let t: Vec<(&str, TaxConfig<String>)> = vec![];
            ("tax", Role::TaxAdmin, upd(&SaleTaxConfigUpdates { tax_configs: Some(t.into()), tax_config_admin: None }))
        }
        43 => {
            then = Box::new(move |z| z.taxadmin = someone.clone());
            ("tax", Role::TaxAdmin, upd(&SaleTaxConfigUpdates { tax_configs: None, tax_config_admin: Some(person) }))
        }
        44 => ("tax", Role::Tax, upd(&SaleTaxConfigUpdates::default())),
        // wallet
        45 => {
            let m: CosmosMsg<Empty> = CosmosMsg::Bank(cosmwasm_std::BankMsg::Send { to_address: person, amount: vec![coin(amt.u128(), GAS)] });
            ("wallet", Role::Wallet, j(&cw1_whitelist::msg::ExecuteMsg::Execute { msgs: vec![m] }))
        }
        46 => {
            let a: BTreeSet<String> = [person, z.people[(x as usize / 7) % z.people.len()].clone()].into();
            let l: Vec<String> = a.iter().cloned().collect();
            then = Box::new(move |z| z.wallet = a.clone());
            ("wallet", Role::WalletMutable, j(&cw1_whitelist::msg::ExecuteMsg::<Empty>::UpdateAdmins { admins: l }))
        }
        47 => {
            then = Box::new(|z| z.frozen = true);
            ("wallet", Role::WalletMutable, j(&cw1_whitelist::msg::ExecuteMsg::<Empty>::Freeze {}))
        }
        // router
        48 => {
            let to = Some(person);
            let op = router::SwapOperation::AstroSwap { offer_asset_info: z.toks[0].clone(), ask_asset_info: z.toks[3].clone() };
            ("router", Role::Only("router"), j(&router::ExecuteMsg::ExecuteSwapOperation { operation: op, to, max_spread: Some(Decimal::percent(50)), single: x % 2 == 0 }))
        }
        // xASTRO token
        49 => ("xtoken", Role::Minter, j(&cw20_base::msg::ExecuteMsg::Mint { recipient: person, amount: amt })),
        50 => {
            // handing over the role is not offered by this token: nobody's business
            let _ = &someone;
            ("xtoken", Role::Marketing, j(&cw20_base::msg::ExecuteMsg::UpdateMarketing { project: Some(format!("p{x}")), description: None, marketing: None }))
        }
        _ => {
            then = Box::new(move |z| z.marketing = Some(someone.clone()));
            ("xtoken", Role::Marketing, j(&cw20_base::msg::ExecuteMsg::UpdateMarketing { project: None, description: None, marketing: Some(person) }))
        }
    };
    Priv { to: z.at[to].clone(), msg, funds, role, then }
}

fn call(z: &Zoo, by: &str, p: &Priv) -> R<Resp> {
    z.w.c.raw(by, M::Wasm(WasmMsg::Execute { contract_addr: p.to.clone(), msg: Binary::from(p.msg.clone()), funds: p.funds.clone() }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
    /// a privileged message, tried by others first (`by`), then by a holder of the role
    Try { k: u8, x: u32, by: Vec<u8>, really: bool },
    Handover { c: u8, to: u8 },
    Gap { secs: u32 },
    Trade { p: u8, dir: bool, amt: u32 },
    Stake { u: u8, amt: u32, out: bool },
    Claim { u: u8 },
    Collect { t: u8 },
    Donate { t: u8, c: u8 },
}

fn c30(ops: &Vec<AOp>, o: &mut Obs) -> V {
    let mut z = zoo()?;
    for (n, op) in ops.iter().enumerate() {
        let at = format!("op {n} {op:?}");
        let u = |u: u8| USERS[u as usize % 4];
        match op {
            AOp::Gap { secs } => z.w.c.advance((*secs as u64).min(1000), *secs as u64),
            AOp::Trade { p, dir, amt } => {
                let k = ["xyk", "stable", "pcl", "tax", "transmuter"][*p as usize % 5];
                let i = *dir as usize;
                let _ = z.w.swap(&z.pools[k], u(*p), i, 1 - i, *amt as u128 * 1000 + 1, &SwapOpts::loose());
            }
            AOp::Stake { u: w, amt, out } => {
                let lp = z.lp("xyk");
                let a = *amt as u128 + 1;
                let _ = if *out {
                    z.w.c.exec(u(*w), &z.at["incentives"], &inc::ExecuteMsg::Withdraw { lp_token: lp, amount: Uint128::new(a) }, &[])
                } else {
                    z.w.c.exec(u(*w), &z.at["incentives"], &inc::ExecuteMsg::Deposit { recipient: None }, &[coin(a, lp)])
                };
            }
            AOp::Claim { u: w } => {
                let _ = z.w.c.exec(u(*w), &z.at["incentives"], &inc::ExecuteMsg::ClaimRewards { lp_tokens: vec![z.lp("xyk")] }, &[]);
                let _ = z.w.c.exec(u(*w), &z.at["vesting"], &vesting::ExecuteMsg::Claim { recipient: None, amount: None }, &[]);
            }
            AOp::Collect { t } => {
                let a = mk::AssetWithLimit { info: z.toks[*t as usize % 5].clone(), limit: None };
                let _ = z.w.c.exec(USERS[1], &z.at["maker"], &mk::ExecuteMsg::Collect { assets: vec![a] }, &[]);
            }
            AOp::Donate { t, c } => {
                let to: Vec<_> = z.at.values().collect();
                let _ = z.w.transfer(&z.toks[*t as usize % 5], USERS[1], to[*c as usize % to.len()], 12345);
            }
            AOp::Handover { c, to } => {
                let k = OWNED[*c as usize % 8];
                let (old, new) = (z.owner(k), z.people[*to as usize % z.people.len()].clone());
                if old == new {
                    continue;
                }
                let m = pair::ExecuteMsg::ProposeNewOwner { owner: new.clone(), expires_in: 1000 };
                z.w.c.exec(&old, &z.at[k], &m, &[]).map_err(|e| format!("{at}: {e}"))?;
                z.w.c.exec(&new, &z.at[k], &pair::ExecuteMsg::ClaimOwnership {}, &[]).map_err(|e| format!("{at}: {e}"))?;
                z.own.insert(k, Some(new));
                o.tag("ownership handed over");
            }
            AOp::Try { k, x, by, really } => {
                let p = privileged(&z, *k, *x as u64);
                let holders = z.holders(&p.role);
                let before = z.w.c.state();
                let valid = holders.first().map(|h| {
                    z.w.c.dry(|| {
                        for c in &p.funds {
                            z.w.c.faucet(h, &c.denom, c.amount.u128());
                        }
                        call(&z, h, &p)
                    })
                });
                let name: String = String::from_utf8_lossy(&p.msg).chars().take(60).collect();
                for b in by {
                    let b = &z.people[*b as usize % z.people.len()];
                    if holders.contains(b) {
                        continue;
                    }
                    if let Ok(r) = call(&z, b, &p) {
                        viol!("{at}: {name} accepted from {b}, reserved to {holders:?} ({:?}): {:?}", p.role, r.events.first());
                    }
                    ensure!(z.w.c.same_state(&before), "{at}: {name} was refused to {b} but changed {}", z.w.c.diff(&before));
                    if matches!(valid, Some(Ok(_))) {
                        o.nontrivial = true;
                        o.tag("refused to others");
                    } else {
                        o.tag("refused to others, invalid anyway");
                    }
                }
                match valid {
                    Some(Err(e)) => ensure!(!e.contains("nauthorized"), "{at}: {name} refused to {holders:?}, to whom it is reserved: {e}"),
                    Some(Ok(_)) if *really => {
                        let h = &holders[*x as usize % holders.len()];
                        for c in &p.funds {
                            z.w.c.faucet(h, &c.denom, c.amount.u128());
                        }
                        let r = call(&z, h, &p);
                        ensure!(r.is_ok(), "{at}: {name} accepted from {}, refused to {h}: {r:?}", holders[0]);
                        (p.then)(&mut z);
                        o.tag(format!("done {:02}", k % KINDS_OF_MSG));
                    }
                    _ => {}
                }
            }
        }
        for k in OWNED {
            let q = z.owner_reported(k)?;
            ensure!(q == z.owner(k), "{at}: {k} is owned by {q}, expected {}", z.owner(k));
        }
    }
    Ok(())
}

fn c30_ops(deep: bool) -> BoxedStrategy<Vec<AOp>> {
    let op = prop_oneof![
        20 => (0u8..KINDS_OF_MSG, any::<u32>(), prop::collection::vec(0u8..40, 1..5), prop::bool::weighted(0.6)).prop_map(|(k, x, by, really)| AOp::Try { k, x, by, really }),
        2 => (0u8..8, 0u8..40).prop_map(|(c, to)| AOp::Handover { c, to }),
        1 => gen::gap().prop_map(|secs| AOp::Gap { secs }),
        1 => (0u8..5, any::<bool>(), 0u32..1_000_000).prop_map(|(p, dir, amt)| AOp::Trade { p, dir, amt }),
        1 => (0u8..4, 0u32..2000, any::<bool>()).prop_map(|(u, amt, out)| AOp::Stake { u, amt, out }),
        1 => (0u8..4).prop_map(|u| AOp::Claim { u }),
        1 => (0u8..5).prop_map(|t| AOp::Collect { t }),
        1 => (0u8..5, 0u8..20).prop_map(|(t, c)| AOp::Donate { t, c }),
    ];
    prop::collection::vec(op, 1..if deep { 60 } else { 25 }).boxed()
}

// --------------------------------------------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    /// `who`/`to`: 0 the current owner, 1 the proposed one, otherwise someone
    Propose { c: u8, by: u8, to: u8, exp: u64 },
    Drop { c: u8, by: u8 },
    Claim { c: u8, by: u8 },
    Gap { secs: u32 },
    /// to the moment a proposal expires
    Edge { c: u8, d: i8 },
    /// something only the owner may do
    Use { c: u8, by: u8, x: u32 },
}

const MAX_TTL: u64 = 1_209_600;

fn c29(ops: &Vec<HOp>, o: &mut Obs) -> V {
    let mut z = zoo()?;
    let mut prop: BTreeMap<&'static str, (String, u64)> = Default::default();
    // earlier proposed addresses, to try again later
    let mut past: Vec<String> = vec![];
    for (n, op) in ops.iter().enumerate() {
        let at = format!("op {n} {op:?}");
        let name = |c: u8| OWNED[c as usize % 8];
        let who = |k: &str, b: u8| match b {
            0 => z.owner(k),
            1 => prop.get(k).map(|p| p.0.clone()).unwrap_or(OWNER.into()),
            2 if !past.is_empty() => past[past.len() - 1].clone(),
            3 if !past.is_empty() => past[past.len() / 2].clone(),
            b => z.people[b as usize % z.people.len()].clone(),
        };
        let before = z.w.c.state();
        let now = z.w.c.time();
        let (res, ok) = match op {
            HOp::Gap { secs } => {
                z.w.c.advance(1, *secs as u64);
                continue;
            }
            HOp::Edge { c, d } => {
                if let Some(p) = prop.get(name(*c)) {
                    let t = (p.1 as i64 + *d as i64) as u64;
                    if t > now {
                        z.w.c.advance(1, t - now);
                    }
                }
                continue;
            }
            HOp::Propose { c, by, to, exp } => {
                let k = name(*c);
                let by = who(k, *by);
                let valid = *to != 255;
                let to = if valid { who(k, *to) } else { "NOT-an-address".into() };
                let ok = by == z.owner(k) && valid && to != by && *exp <= MAX_TTL;
                let r = z.w.c.exec(&by, &z.at[k], &pair::ExecuteMsg::ProposeNewOwner { owner: to.clone(), expires_in: *exp }, &[]);
                if ok {
                    prop.insert(k, (to.clone(), now + exp));
                    past.push(to);
                }
                (r, ok)
            }
            HOp::Drop { c, by } => {
                let k = name(*c);
                let by = who(k, *by);
                let ok = by == z.owner(k);
                let r = z.w.c.exec(&by, &z.at[k], &pair::ExecuteMsg::DropOwnershipProposal {}, &[]);
                if ok {
                    prop.remove(k);
                }
                (r, ok)
            }
            HOp::Claim { c, by } => {
                let k = name(*c);
                let by = who(k, *by);
                let ok = prop.get(k).is_some_and(|p| p.0 == by && now <= p.1);
                if prop.get(k).is_some_and(|p| p.0 == by && now > p.1) {
                    o.tag("claimed too late");
                    o.nontrivial = true;
                }
                let r = z.w.c.exec(&by, &z.at[k], &pair::ExecuteMsg::ClaimOwnership {}, &[]);
                if ok {
                    prop.remove(k);
                    z.own.insert(k, Some(by));
                    o.tag("claimed");
                    o.nontrivial = true;
                }
                (r, ok)
            }
            HOp::Use { c, by, x } => {
                let k = name(*c);
                let by = who(k, *by);
                let msg = match k {
                    "factory" => 0,
                    "registry" => 6,
                    "vesting" => 8,
                    "granter" => 13,
                    "incentives" => 18,
                    "maker" => 33,
                    "stable" => 40,
                    _ => 41,
                };
                // a fixed harmless variant of each
                let x = match msg {
                    6 | 8 => *x as u64,
                    40 | 41 => 3,
                    _ => 0,
                };
                let p = privileged(&z, msg, x);
                for f in &p.funds {
                    z.w.c.faucet(&by, &f.denom, f.amount.u128());
                }
                let ok = by == z.owner(k);
                let st = z.w.c.state();
                let r = call(&z, &by, &p);
                if msg == 8 && ok && r.as_ref().is_err_and(|e| !e.contains("nauthorized")) {
                    // the number of schedules of one account is limited
                    continue;
                }
                if r.is_err() {
                    ensure!(z.w.c.same_state(&st), "{at}: refused but changed {}", z.w.c.diff(&st));
                    ensure!(!ok, "{at}: refused to the owner {by}: {r:?}");
                    z.w.c.restore(&before);
                    o.tag("use refused");
                } else {
                    ensure!(ok, "{at}: accepted from {by}, the owner is {}", z.owner(k));
                    o.tag("used");
                }
                continue;
            }
        };
        match (&res, ok) {
            (Ok(_), true) => {}
            (Err(_), false) => {
                o.tag("refused");
                ensure!(z.w.c.same_state(&before), "{at}: refused but changed {}", z.w.c.diff(&before));
            }
            _ => viol!("{at} at {now}: {res:?}, expected accepted: {ok}; owners {:?}, proposals {prop:?}", z.own),
        }
        for k in OWNED {
            let q = z.owner_reported(k)?;
            ensure!(q == z.owner(k), "{at}: {k} is owned by {q}, expected {}", z.owner(k));
        }
    }
    Ok(())
}

fn c29_ops(deep: bool) -> BoxedStrategy<Vec<HOp>> {
    let by = || prop_oneof![8 => Just(0u8), 2 => 1u8..4, 2 => 4u8..40];
    let to = || prop_oneof![1 => Just(0u8), 3 => 1u8..4, 8 => 4u8..40, 1 => Just(255u8)];
    let cl = || prop_oneof![1 => Just(0u8), 8 => Just(1u8), 3 => 2u8..4, 1 => 4u8..40];
    let exp = prop_oneof![3 => 0u64..5, 5 => 1u64..100_000, 2 => Just(MAX_TTL), 1 => Just(MAX_TTL + 1), 1 => Just(u64::MAX), 1 => 0u64..3_000_000];
    // a few contracts per case, so that the steps meet
    (prop::collection::vec(0u8..8, 1..3), any::<u8>())
        .prop_flat_map(move |(cs, _)| {
            let c = move || prop::sample::select(cs.clone());
            let op = prop_oneof![
                6 => (c(), by(), to(), exp.clone()).prop_map(|(c, by, to, exp)| HOp::Propose { c, by, to, exp }),
                1 => (c(), by()).prop_map(|(c, by)| HOp::Drop { c, by }),
                6 => (c(), cl()).prop_map(|(c, by)| HOp::Claim { c, by }),
                2 => gen::gap().prop_map(|secs| HOp::Gap { secs }),
                4 => (c(), -1i8..2).prop_map(|(c, d)| HOp::Edge { c, d }),
                3 => (c(), prop_oneof![3 => Just(0u8), 2 => 1u8..4, 1 => 4u8..40], any::<u32>()).prop_map(|(c, by, x)| HOp::Use { c, by, x }),
            ];
            prop::collection::vec(op, 1..if deep { 60 } else { 25 })
        })
        .boxed()
}

pub fn props() -> Vec<Property> {
    let _: Option<Addr> = None;
    vec![
        Property {
            id: "C29",
            rule: "a proposal was claimed in time, or its target tried too late",
            assumptions: &["a stableswap or concentrated pool without an owner of its own is owned by the factory's owner; a proposal made by whoever was its owner stays valid when the factory changes hands"],
            parts: vec![Box::new(Gen { name: "ownership", quick: 12_000, thorough: 400_000, strategy: c29_ops, run: c29 })],
        },
        Property {
            id: "C30",
            rule: "a message its role holder could have sent successfully was refused to someone else",
            assumptions: &["one deployment with one of everything; the concentrated pools for other chains are not built here"],
            parts: vec![Box::new(Gen { name: "privileged messages", quick: 10_000, thorough: 300_000, strategy: c30_ops, run: c30 })],
        },
    ]
}
