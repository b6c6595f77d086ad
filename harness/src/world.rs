//! A factory, a coin registry, tokens and pools on the simulated chain, with short-hands for pool operations.

use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::{self, PairConfig, PairType};
use astroport::pair;
use cosmwasm_std::{to_json_binary, to_json_vec, Addr, Coin, Decimal, Uint128};
use serde::{Deserialize, Serialize};

use crate::chain::*;

pub const OWNER: &str = "wasm1owner";
pub const FEE: &str = "wasm1feecollector";
pub const SHARE: &str = "wasm1integrator";
pub const TAXED: &str = "wasm1taxman";
pub const TAXADM: &str = "wasm1taxadmin";
pub const USERS: [&str; 4] = ["wasm1alice", "wasm1bobby", "wasm1carol", "wasm1david"];
pub const RICH: u128 = 1_000_000_000_000_000_000_000_000_000_000_000_000; // 1e36

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Kind {
    Xyk,
    Stable,
    Pcl,
    Tax,
    Transmuter,
}

pub fn pair_type(k: Kind) -> PairType {
    match k {
        Kind::Xyk => PairType::Xyk {},
        Kind::Stable => PairType::Stable {},
        Kind::Pcl => PairType::Custom("concentrated".into()),
        Kind::Tax => PairType::Custom("astroport-pair-xyk-sale-tax".into()),
        Kind::Transmuter => PairType::Custom("transmuter".into()),
    }
}

pub const KINDS: [Kind; 5] = [Kind::Xyk, Kind::Stable, Kind::Pcl, Kind::Tax, Kind::Transmuter];

pub mod codes {
    use super::*;
    pub fn cw20() -> Code {
        Code::new(
            "cw20",
            cw20_base::contract::instantiate,
            cw20_base::contract::execute,
            cw20_base::contract::query,
        )
    }
    pub fn factory() -> Code {
        use astroport_factory::contract::*;
        Code::new("factory", instantiate, execute, query).reply(reply)
    }
    pub fn pair(k: Kind) -> Code {
        match k {
            Kind::Xyk => {
                use astroport_pair::contract::*;
                Code::new("pair", instantiate, execute, query).reply(reply)
            }
            Kind::Stable => {
                use astroport_pair_stable::contract::*;
                Code::new("pair_stable", instantiate, execute, query).reply(reply)
            }
            Kind::Pcl => {
                use astroport_pair_concentrated::contract::*;
                use astroport_pair_concentrated::queries::query;
                Code::new("pair_concentrated", instantiate, execute, query).reply(reply)
            }
            Kind::Tax => {
                use astroport_pair_xyk_sale_tax::contract::*;
                Code::new("pair_sale_tax", instantiate, execute, query)
                    .reply(reply)
                    .migrate(migrate)
            }
            Kind::Transmuter => {
                use astroport_pair_transmuter::contract::*;
                use astroport_pair_transmuter::queries::query;
                Code::new("pair_transmuter", instantiate, execute, query).reply(reply)
            }
        }
    }
    pub fn registry() -> Code {
        use astroport_native_coin_registry::contract::*;
        Code::new("coin_registry", instantiate, execute, query)
    }
    pub fn tracker() -> Code {
        use astroport_tokenfactory_tracker::contract::*;
        use astroport_tokenfactory_tracker::query::query;
        Code::new("tracker", instantiate, no_execute, query)
            .sudo(sudo)
            .migrate(migrate)
    }
    /// the release of the tracker that staking was made for (and is tested with)
    pub fn tracker_v1() -> Code {
        use tracker_v1::contract::*;
        use tracker_v1::query::query;
        Code::new("tracker_v1", instantiate, no_execute, query).sudo(sudo)
    }
    fn no_execute(
        _: cosmwasm_std::DepsMut,
        _: cosmwasm_std::Env,
        _: cosmwasm_std::MessageInfo,
        _: serde_json::Value,
    ) -> Result<cosmwasm_std::Response, cosmwasm_std::StdError> {
        Err(cosmwasm_std::StdError::generic_err("no execute entry point"))
    }
    pub fn incentives() -> Code {
        Code::new(
            "incentives",
            astroport_incentives::instantiate::instantiate,
            astroport_incentives::execute::execute,
            astroport_incentives::query::query,
        )
        .reply(astroport_incentives::reply::reply)
    }
    pub fn vesting() -> Code {
        use astroport_vesting::contract::*;
        Code::new("vesting", instantiate, execute, query)
    }
    pub fn router() -> Code {
        use astroport_router::contract::*;
        Code::new("router", instantiate, execute, query).reply(reply)
    }
    pub fn staking() -> Code {
        use astroport_staking::contract::*;
        Code::new("staking", instantiate, execute, query).reply(reply)
    }
    pub fn maker() -> Code {
        use astroport_maker::contract::*;
        Code::new("maker", instantiate, execute, query).reply(astroport_maker::reply::reply)
    }
    pub fn whitelist() -> Code {
        use astroport_whitelist::contract::*;
        Code::new("whitelist", instantiate, execute, query)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tok {
    pub cw20: bool,
    pub dec: u8,
}

#[derive(Clone, Debug)]
pub struct Fees {
    pub kind: Kind,
    pub total: u16,
    pub maker: u16,
}

pub struct World {
    pub c: Chain,
    pub factory: String,
    pub registry: String,
    pub cw20_code: u64,
    pub pair_codes: Vec<(Kind, u64)>,
    pub tracker_code: u64,
    pub whitelist_code: u64,
    n_tok: std::cell::Cell<u32>,
}

pub fn addr(s: &str) -> Addr {
    Addr::unchecked(s)
}
pub fn native(d: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: d.into() }
}
pub fn token(a: &str) -> AssetInfo {
    AssetInfo::Token {
        contract_addr: addr(a),
    }
}
pub fn asset(i: &AssetInfo, amount: u128) -> Asset {
    Asset {
        info: i.clone(),
        amount: Uint128::new(amount),
    }
}
pub fn info_str(i: &AssetInfo) -> String {
    match i {
        AssetInfo::NativeToken { denom } => denom.clone(),
        AssetInfo::Token { contract_addr } => contract_addr.to_string(),
    }
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub kind: Kind,
    pub addr: String,
    pub lp: String,
    pub infos: Vec<AssetInfo>,
    pub decs: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct ProvideOpts {
    pub slip: Option<Decimal>,
    pub auto_stake: Option<bool>,
    pub receiver: Option<String>,
    pub min_lp: Option<u128>,
}
#[derive(Clone, Debug, Default)]
pub struct SwapOpts {
    pub belief: Option<Decimal>,
    pub max_spread: Option<Decimal>,
    pub to: Option<String>,
}
impl SwapOpts {
    pub fn loose() -> Self {
        SwapOpts {
            max_spread: Some(Decimal::percent(50)),
            ..Default::default()
        }
    }
}

impl Pool {
    /// A deposit's list of assets. Any order means the same, so half of the amounts are listed backwards;
    /// concentrated pools also accept a list without the asset that is not deposited.
    pub fn listed(&self, amounts: &[u128]) -> Vec<Asset> {
        let mut l: Vec<Asset> = self.infos.iter().zip(amounts).map(|(i, a)| asset(i, *a)).collect();
        let n: u128 = amounts.iter().fold(0, |n, a| n ^ (a >> 1) ^ (a >> 5));
        if self.kind == Kind::Pcl && l.iter().filter(|a| !a.amount.is_zero()).count() == 1 && n & 2 == 0 {
            l.retain(|a| !a.amount.is_zero());
        }
        if n & 1 == 1 {
            l.reverse();
        }
        l
    }
}
impl World {
    pub fn new(fees: &[Fees], fee_address: bool) -> R<World> {
        Self::with(fees, fee_address, true)
    }
    pub fn with(fees: &[Fees], fee_address: bool, tracker: bool) -> R<World> {
        let c = Chain::new();
        let cw20_code = c.store(codes::cw20());
        let reg_code = c.store(codes::registry());
        let fac_code = c.store(codes::factory());
        let tracker_code = c.store(codes::tracker());
        let whitelist_code = c.store(codes::whitelist());
        let pair_codes: Vec<_> = KINDS.iter().map(|k| (*k, c.store(codes::pair(*k)))).collect();
        let registry = c.init(
            reg_code,
            OWNER,
            &astroport::native_coin_registry::InstantiateMsg {
                owner: OWNER.into(),
            },
            &[],
            "registry",
            None,
        )?;
        let factory = c.init(
            fac_code,
            OWNER,
            &factory::InstantiateMsg {
                pair_configs: pair_codes
                    .iter()
                    .map(|(k, code)| {
                        let f = fees.iter().find(|f| f.kind == *k);
                        PairConfig {
                            code_id: *code,
                            pair_type: pair_type(*k),
                            total_fee_bps: f.map(|f| f.total).unwrap_or(30),
                            maker_fee_bps: f.map(|f| f.maker).unwrap_or(3333),
                            is_disabled: false,
                            is_generator_disabled: false,
                            permissioned: false,
                        }
                    })
                    .collect(),
                token_code_id: cw20_code,
                fee_address: fee_address.then(|| FEE.into()),
                generator_address: None,
                owner: OWNER.into(),
                whitelist_code_id: whitelist_code,
                coin_registry_address: registry.clone(),
                tracker_config: tracker.then(|| factory::TrackerConfig {
                    code_id: tracker_code,
                    token_factory_addr: TF_MODULE.into(),
                }),
            },
            &[],
            "factory",
            None,
        )?;
        Ok(World {
            c,
            factory,
            registry,
            cw20_code,
            pair_codes,
            tracker_code,
            whitelist_code,
            n_tok: Default::default(),
        })
    }

    pub fn code(&self, k: Kind) -> u64 {
        self.pair_codes.iter().find(|(x, _)| *x == k).unwrap().1
    }

    /// a new token every user holds `RICH` of
    pub fn tok(&self, t: &Tok) -> R<AssetInfo> {
        let n = self.n_tok.get();
        self.n_tok.set(n + 1);
        let letter = ["tkna", "tknb", "tknc", "tknd", "tkne", "tknf", "tkng", "tknh"][n as usize % 8];
        if t.cw20 {
            let a = self.c.init(
                self.cw20_code,
                OWNER,
                &cw20_base::msg::InstantiateMsg {
                    name: letter.into(),
                    symbol: letter.to_uppercase(),
                    decimals: t.dec,
                    initial_balances: USERS
                        .iter()
                        .map(|u| cw20::Cw20Coin {
                            address: u.to_string(),
                            amount: Uint128::new(RICH),
                        })
                        .collect(),
                    mint: Some(cw20::MinterResponse {
                        minter: OWNER.into(),
                        cap: None,
                    }),
                    marketing: None,
                },
                &[],
                letter,
                None,
            )?;
            Ok(token(&a))
        } else {
            let d = format!("u{letter}{n}");
            self.native_coin(&d, t.dec)?;
            for u in USERS {
                self.c.faucet(u, &d, RICH);
            }
            Ok(native(&d))
        }
    }
    pub fn native_coin(&self, denom: &str, dec: u8) -> R<()> {
        self.c
            .exec(
                OWNER,
                &self.registry,
                &astroport::native_coin_registry::ExecuteMsg::Add {
                    native_coins: vec![(denom.to_string(), dec)],
                },
                &[],
            )
            .map(|_| ())
    }

    pub fn bal(&self, i: &AssetInfo, who: &str) -> u128 {
        match i {
            AssetInfo::NativeToken { denom } => self.c.balance(who, denom),
            AssetInfo::Token { contract_addr } => self.c.cw20_balance(contract_addr.as_str(), who),
        }
    }
    /// plain transfer (e.g. a donation)
    pub fn transfer(&self, i: &AssetInfo, from: &str, to: &str, amount: u128) -> R<()> {
        match i {
            AssetInfo::NativeToken { denom } => self.c.send(from, to, denom, amount),
            AssetInfo::Token { contract_addr } => self
                .c
                .exec(
                    from,
                    contract_addr.as_str(),
                    &cw20::Cw20ExecuteMsg::Transfer {
                        recipient: to.into(),
                        amount: Uint128::new(amount),
                    },
                    &[],
                )
                .map(|_| ()),
        }
    }
    /// give `who` more of `i`
    pub fn fund(&self, i: &AssetInfo, who: &str, amount: u128) -> R<()> {
        match i {
            AssetInfo::NativeToken { denom } => {
                self.c.faucet(who, denom, amount);
                Ok(())
            }
            AssetInfo::Token { contract_addr } => self
                .c
                .exec(
                    OWNER,
                    contract_addr.as_str(),
                    &cw20::Cw20ExecuteMsg::Mint {
                        recipient: who.into(),
                        amount: Uint128::new(amount),
                    },
                    &[],
                )
                .map(|_| ()),
        }
    }

    pub fn create<T: Serialize>(
        &self,
        kind: Kind,
        infos: &[AssetInfo],
        decs: &[u8],
        params: Option<&T>,
    ) -> R<Pool> {
        self.c.exec(
            OWNER,
            &self.factory,
            &factory::ExecuteMsg::CreatePair {
                pair_type: pair_type(kind),
                asset_infos: infos.to_vec(),
                init_params: params.map(|p| to_json_binary(p).unwrap()),
            },
            &[],
        )?;
        let p: PairInfo = self.c.query(
            &self.factory,
            &factory::QueryMsg::Pair {
                asset_infos: infos.to_vec(),
            },
        )?;
        Ok(Pool {
            kind,
            addr: p.contract_addr.to_string(),
            lp: p.liquidity_token,
            infos: infos.to_vec(),
            decs: decs.to_vec(),
        })
    }

    pub fn reserves(&self, p: &Pool) -> Vec<u128> {
        p.infos.iter().map(|i| self.bal(i, &p.addr)).collect()
    }
    pub fn lp_supply(&self, p: &Pool) -> u128 {
        self.c.supply(&p.lp)
    }
    pub fn lp_bal(&self, p: &Pool, who: &str) -> u128 {
        self.c.balance(who, &p.lp)
    }

    pub fn provide_msgs(
        &self,
        p: &Pool,
        amounts: &[u128],
        o: &ProvideOpts,
    ) -> Vec<(String, Vec<u8>, Vec<Coin>)> {
        let mut msgs = vec![];
        let mut funds = vec![];
        for (i, a) in p.infos.iter().zip(amounts) {
            match i {
                AssetInfo::NativeToken { denom } => {
                    if *a > 0 {
                        funds.push(Coin::new(*a, denom.clone()))
                    }
                }
                AssetInfo::Token { contract_addr } => {
                    if *a > 0 {
                        msgs.push((
                            contract_addr.to_string(),
                            to_json_vec(&cw20::Cw20ExecuteMsg::IncreaseAllowance {
                                spender: p.addr.clone(),
                                amount: Uint128::new(*a),
                                expires: None,
                            })
                            .unwrap(),
                            vec![],
                        ));
                    }
                }
            }
        }
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        msgs.push((
            p.addr.clone(),
            to_json_vec(&pair::ExecuteMsg::ProvideLiquidity {
                assets: p.listed(amounts),
                slippage_tolerance: o.slip,
                auto_stake: o.auto_stake,
                receiver: o.receiver.clone(),
                min_lp_to_receive: o.min_lp.map(Uint128::new),
            })
            .unwrap(),
            funds,
        ));
        msgs
    }
    pub fn provide(&self, p: &Pool, who: &str, amounts: &[u128], o: &ProvideOpts) -> R<Resp> {
        self.c
            .exec_many(who, self.provide_msgs(p, amounts, o))
            .map(|mut v| v.pop().unwrap())
    }
    pub fn swap(
        &self,
        p: &Pool,
        who: &str,
        offer: usize,
        ask: usize,
        amount: u128,
        o: &SwapOpts,
    ) -> R<Resp> {
        let ask_asset_info = (p.infos.len() > 2).then(|| p.infos[ask].clone());
        match &p.infos[offer] {
            AssetInfo::NativeToken { denom } => self.c.exec(
                who,
                &p.addr,
                &pair::ExecuteMsg::Swap {
                    offer_asset: asset(&p.infos[offer], amount),
                    ask_asset_info,
                    belief_price: o.belief,
                    max_spread: o.max_spread,
                    to: o.to.clone(),
                },
                &if amount > 0 {
                    vec![Coin::new(amount, denom.clone())]
                } else {
                    vec![]
                },
            ),
            AssetInfo::Token { contract_addr } => self.c.cw20_send(
                who,
                contract_addr.as_str(),
                &p.addr,
                amount,
                &pair::Cw20HookMsg::Swap {
                    ask_asset_info,
                    belief_price: o.belief,
                    max_spread: o.max_spread,
                    to: o.to.clone(),
                },
            ),
        }
    }
    pub fn withdraw(
        &self,
        p: &Pool,
        who: &str,
        lp: u128,
        assets: Vec<Asset>,
        min: Option<Vec<Asset>>,
    ) -> R<Resp> {
        self.c.exec(
            who,
            &p.addr,
            &pair::ExecuteMsg::WithdrawLiquidity {
                assets,
                min_assets_to_receive: min,
            },
            &if lp > 0 {
                vec![Coin::new(lp, p.lp.clone())]
            } else {
                vec![]
            },
        )
    }
    pub fn sim(&self, p: &Pool, offer: usize, ask: usize, amount: u128) -> R<pair::SimulationResponse> {
        self.c.query(
            &p.addr,
            &pair::QueryMsg::Simulation {
                offer_asset: asset(&p.infos[offer], amount),
                ask_asset_info: (p.infos.len() > 2).then(|| p.infos[ask].clone()),
            },
        )
    }
    pub fn rev_sim(
        &self,
        p: &Pool,
        offer: usize,
        ask: usize,
        amount: u128,
    ) -> R<pair::ReverseSimulationResponse> {
        self.c.query(
            &p.addr,
            &pair::QueryMsg::ReverseSimulation {
                offer_asset_info: (p.infos.len() > 2).then(|| p.infos[offer].clone()),
                ask_asset: asset(&p.infos[ask], amount),
            },
        )
    }
    pub fn update_pair_config(&self, k: Kind, total: u16, maker: u16) -> R<Resp> {
        self.c.exec(
            OWNER,
            &self.factory,
            &factory::ExecuteMsg::UpdatePairConfig {
                config: PairConfig {
                    code_id: self.code(k),
                    pair_type: pair_type(k),
                    total_fee_bps: total,
                    maker_fee_bps: maker,
                    is_disabled: false,
                    is_generator_disabled: false,
                    permissioned: false,
                },
            },
            &[],
        )
    }
    pub fn update_pool<T: Serialize>(&self, p: &Pool, who: &str, params: &T) -> R<Resp> {
        self.c.exec(
            who,
            &p.addr,
            &pair::ExecuteMsg::UpdateConfig {
                params: to_json_binary(params).unwrap(),
            },
            &[],
        )
    }
}

// --------------------------------------------------------------------------------------- number helpers

pub use cosmwasm_std::{Uint256, Uint512};

pub fn u256(x: u128) -> Uint256 {
    Uint256::from(x)
}
/// floor(a*b/c)
pub fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    let q = u256(a) * u256(b) / u256(c);
    q.try_into().map(|x: Uint128| x.u128()).unwrap_or(u128::MAX)
}
pub fn mul_div_ceil(a: u128, b: u128, c: u128) -> u128 {
    let n = u256(a) * u256(b);
    let q = (n + u256(c) - Uint256::one()) / u256(c);
    q.try_into().map(|x: Uint128| x.u128()).unwrap_or(u128::MAX)
}
pub fn isqrt256(n: Uint256) -> u128 {
    // Newton from above
    if n.is_zero() {
        return 0;
    }
    let mut x = Uint256::one() << (((n.to_string().len() as u32 * 3322 / 1000) / 2 + 2).min(255));
    loop {
        let y = (x + n / x) >> 1;
        if y >= x {
            return x.try_into().map(|x: Uint128| x.u128()).unwrap_or(u128::MAX);
        }
        x = y;
    }
}
/// value of a Decimal (18 digits) applied to an integer, rounded down, exactly
pub fn dec_mul(a: u128, d: Decimal) -> u128 {
    mul_div(a, d.atomics().u128(), 1_000_000_000_000_000_000)
}
