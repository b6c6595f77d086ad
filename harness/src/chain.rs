//! A small deterministic CosmWasm chain: contracts, native bank with before-send hooks, tokenfactory,
//! sub-messages with replies, transactional rollback. Everything the contracts observe (queries, replies,
//! hook ordering, rejection of zero coins) follows the behaviour of the real modules.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

use cosmwasm_std::{
    from_json, to_json_binary, to_json_vec, Addr, Api, BankMsg, BankQuery, Binary, BlockInfo,
    CanonicalAddr, Coin, ContractInfo, ContractInfoResponse, ContractResult, CosmosMsg, Deps,
    DepsMut, Empty, Env, Event, IbcMsg, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    QueryRequest, Record, RecoverPubkeyError, Reply, ReplyOn, Response, StdError, StdResult,
    Storage, SubMsgResponse, SubMsgResult, SystemError, SystemResult, Timestamp, TransactionInfo,
    Uint128, VerificationError, WasmMsg, WasmQuery,
};
use prost::Message;
use serde::de::DeserializeOwned;
use serde::Serialize;

pub const TF_MODULE: &str = "wasm1tokenfactorymodule";

// ---------------------------------------------------------------------------------------------------- api

#[derive(Clone, Copy)]
pub struct VApi;

pub fn valid_addr(s: &str) -> bool {
    s.len() > 6
        && s.len() <= 90
        && s.starts_with("wasm1")
        && s.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())
}

impl Api for VApi {
    fn addr_validate(&self, human: &str) -> StdResult<Addr> {
        if valid_addr(human) {
            Ok(Addr::unchecked(human))
        } else {
            Err(StdError::generic_err(format!("invalid address: {human}")))
        }
    }
    fn addr_canonicalize(&self, human: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(human)?;
        Ok(human.as_bytes().into())
    }
    fn addr_humanize(&self, canonical: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(
            String::from_utf8(canonical.to_vec()).map_err(|_| StdError::generic_err("utf8"))?,
        ))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn secp256k1_recover_pubkey(
        &self,
        _: &[u8],
        _: &[u8],
        _: u8,
    ) -> Result<Vec<u8>, RecoverPubkeyError> {
        Err(RecoverPubkeyError::unknown_err(1))
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn ed25519_batch_verify(
        &self,
        _: &[&[u8]],
        _: &[&[u8]],
        _: &[&[u8]],
    ) -> Result<bool, VerificationError> {
        Ok(false)
    }
    fn debug(&self, _: &str) {}
}

// ---------------------------------------------------------------------------------------------- contracts

#[derive(Debug, Clone)]
pub enum M {
    Bank(BankMsg),
    Wasm(WasmMsg),
    Stargate(String, Binary),
    Ibc(IbcMsg),
    Custom(String),
    Other(String),
}

pub struct Sub {
    id: u64,
    msg: M,
    reply_on: ReplyOn,
}

pub struct CResp {
    subs: Vec<Sub>,
    attrs: Vec<cosmwasm_std::Attribute>,
    events: Vec<Event>,
    data: Option<Binary>,
}

pub fn conv<C: Serialize>(msg: CosmosMsg<C>) -> M {
    match msg {
        CosmosMsg::Bank(b) => M::Bank(b),
        CosmosMsg::Wasm(w) => M::Wasm(w),
        CosmosMsg::Stargate { type_url, value } => M::Stargate(type_url, value),
        CosmosMsg::Ibc(i) => M::Ibc(i),
        CosmosMsg::Custom(c) => M::Custom(serde_json::to_string(&c).unwrap_or_default()),
        _ => M::Other("unsupported message".into()),
    }
}

fn conv_resp<C: Serialize>(r: Response<C>) -> CResp {
    CResp {
        subs: r
            .messages
            .into_iter()
            .map(|s| Sub {
                id: s.id,
                msg: conv(s.msg),
                reply_on: s.reply_on,
            })
            .collect(),
        attrs: r.attributes,
        events: r.events,
        data: r.data,
    }
}

type ExecFn = Box<dyn Fn(DepsMut, Env, MessageInfo, &[u8]) -> Result<CResp, String>>;
type SysFn = Box<dyn Fn(DepsMut, Env, &[u8]) -> Result<CResp, String>>;
type QueryFn = Box<dyn Fn(Deps, Env, &[u8]) -> Result<Binary, String>>;
type ReplyFn = Box<dyn Fn(DepsMut, Env, Reply) -> Result<CResp, String>>;

pub struct Code {
    pub name: &'static str,
    inst: ExecFn,
    exec: ExecFn,
    query: QueryFn,
    reply: Option<ReplyFn>,
    sudo: Option<SysFn>,
    migrate: Option<SysFn>,
}

fn parse<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    from_json::<T>(b).map_err(|e| e.to_string())
}

impl Code {
    pub fn new<I, X, Q, C1, C2, E1, E2, E3>(
        name: &'static str,
        inst: fn(DepsMut, Env, MessageInfo, I) -> Result<Response<C1>, E1>,
        exec: fn(DepsMut, Env, MessageInfo, X) -> Result<Response<C2>, E2>,
        query: fn(Deps, Env, Q) -> Result<Binary, E3>,
    ) -> Self
    where
        I: DeserializeOwned + 'static,
        X: DeserializeOwned + 'static,
        Q: DeserializeOwned + 'static,
        C1: Serialize + 'static,
        C2: Serialize + 'static,
        E1: ToString + 'static,
        E2: ToString + 'static,
        E3: ToString + 'static,
    {
        Code {
            name,
            inst: Box::new(move |d, e, i, m| {
                inst(d, e, i, parse(m)?)
                    .map(conv_resp)
                    .map_err(|e| e.to_string())
            }),
            exec: Box::new(move |d, e, i, m| {
                exec(d, e, i, parse(m)?)
                    .map(conv_resp)
                    .map_err(|e| e.to_string())
            }),
            query: Box::new(move |d, e, m| query(d, e, parse(m)?).map_err(|e| e.to_string())),
            reply: None,
            sudo: None,
            migrate: None,
        }
    }
    pub fn reply<C: Serialize + 'static, E: ToString + 'static>(
        mut self,
        f: fn(DepsMut, Env, Reply) -> Result<Response<C>, E>,
    ) -> Self {
        self.reply = Some(Box::new(move |d, e, r| {
            f(d, e, r).map(conv_resp).map_err(|e| e.to_string())
        }));
        self
    }
    pub fn sudo<S: DeserializeOwned + 'static, C: Serialize + 'static, E: ToString + 'static>(
        mut self,
        f: fn(DepsMut, Env, S) -> Result<Response<C>, E>,
    ) -> Self {
        self.sudo = Some(Box::new(move |d, e, m| {
            f(d, e, parse(m)?).map(conv_resp).map_err(|e| e.to_string())
        }));
        self
    }
    pub fn migrate<S: DeserializeOwned + 'static, C: Serialize + 'static, E: ToString + 'static>(
        mut self,
        f: fn(DepsMut, Env, S) -> Result<Response<C>, E>,
    ) -> Self {
        self.migrate = Some(Box::new(move |d, e, m| {
            f(d, e, parse(m)?).map(conv_resp).map_err(|e| e.to_string())
        }));
        self
    }
}

// -------------------------------------------------------------------------------------------------- state

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub addr: Addr,
    pub code: usize,
    pub creator: Addr,
    pub admin: Option<Addr>,
    pub label: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ext {
    pub sender: String,
    pub kind: String,
    pub body: String,
    pub bytes: Vec<u8>,
}

#[derive(Default, Clone, PartialEq)]
pub struct St {
    pub kv: Vec<BTreeMap<Vec<u8>, Vec<u8>>>,
    pub meta: Vec<Meta>,
    by_addr: BTreeMap<String, usize>,
    pub bank: BTreeMap<String, BTreeMap<String, u128>>, // addr -> denom -> amount
    pub supply: BTreeMap<String, u128>,
    tf_admin: BTreeMap<String, String>,
    hooks: BTreeMap<String, String>,
    pub grants: BTreeSet<(String, String)>,
    /// messages that left the chain (IBC, custom, fee grants), in order
    pub ext: Vec<Ext>,
}

enum Undo {
    Kv(usize, Vec<u8>, Option<Vec<u8>>),
    Bank(String, String, u128),
    Supply(String, u128),
    Contract,
    Meta(usize, Meta),
    TfAdmin(String, Option<String>),
    Hook(String, Option<String>),
    Grant(String, String, bool),
    Ext,
}

pub struct Chain {
    st: RefCell<St>,
    undo: RefCell<Vec<Undo>>,
    codes: RefCell<Vec<std::rc::Rc<Code>>>,
    pub height: Cell<u64>,
    pub nanos: Cell<u64>,
    /// addresses that refuse to receive native coins, or denoms whose transfers fail (fault injection)
    pub refuse: RefCell<BTreeSet<String>>,
    /// how many contract panics (traps) were seen
    pub traps: Cell<u64>,
    pub last_trap: RefCell<String>,
    pub calls: Cell<u64>,
    /// nesting of dry runs: the journal is kept while positive
    nest: Cell<u32>,
}

#[derive(Debug, Clone, Default)]
pub struct Resp {
    pub events: Vec<Event>,
    pub data: Option<Binary>,
}

impl Resp {
    /// value of the first attribute `key` emitted by `contract`
    pub fn attr(&self, contract: &str, key: &str) -> Option<String> {
        for e in &self.events {
            if e.ty.starts_with("wasm")
                && e.attributes
                    .iter()
                    .any(|a| a.key == "_contract_address" && a.value == contract)
            {
                if let Some(a) = e.attributes.iter().find(|a| a.key == key) {
                    return Some(a.value.clone());
                }
            }
        }
        None
    }
}

struct KvStore<'a> {
    c: &'a Chain,
    id: usize,
}

impl Storage for KvStore<'_> {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.c.st.borrow().kv[self.id].get(key).cloned()
    }
    fn range<'b>(
        &'b self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'b> {
        Box::new(KvIter {
            c: self.c,
            id: self.id,
            lo: match start {
                Some(s) => Bound::Included(s.to_vec()),
                None => Bound::Unbounded,
            },
            hi: match end {
                Some(s) => Bound::Excluded(s.to_vec()),
                None => Bound::Unbounded,
            },
            order,
        })
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        assert!(!value.is_empty(), "TL;DR: Value must not be empty in Storage::set");
        let old = self.c.st.borrow_mut().kv[self.id].insert(key.to_vec(), value.to_vec());
        self.c
            .undo
            .borrow_mut()
            .push(Undo::Kv(self.id, key.to_vec(), old));
    }
    fn remove(&mut self, key: &[u8]) {
        let old = self.c.st.borrow_mut().kv[self.id].remove(key);
        if old.is_some() {
            self.c
                .undo
                .borrow_mut()
                .push(Undo::Kv(self.id, key.to_vec(), old));
        }
    }
}

struct KvIter<'a> {
    c: &'a Chain,
    id: usize,
    lo: Bound<Vec<u8>>,
    hi: Bound<Vec<u8>>,
    order: Order,
}

fn range_ok(lo: &Bound<Vec<u8>>, hi: &Bound<Vec<u8>>) -> bool {
    match (lo, hi) {
        (Bound::Unbounded, _) | (_, Bound::Unbounded) => true,
        (Bound::Included(a), Bound::Included(b)) => a <= b,
        (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) => a < b,
    }
}

impl Iterator for KvIter<'_> {
    type Item = Record;
    fn next(&mut self) -> Option<Record> {
        if !range_ok(&self.lo, &self.hi) {
            return None;
        }
        let st = self.c.st.borrow();
        let mut r = st.kv[self.id].range((self.lo.clone(), self.hi.clone()));
        let (k, v) = match self.order {
            Order::Ascending => r.next()?,
            Order::Descending => r.next_back()?,
        };
        match self.order {
            Order::Ascending => self.lo = Bound::Excluded(k.clone()),
            Order::Descending => self.hi = Bound::Excluded(k.clone()),
        }
        Some((k.clone(), v.clone()))
    }
}

struct ChainQ<'a>(&'a Chain);

impl Querier for ChainQ<'_> {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        let ok = |b: StdResult<Binary>| {
            SystemResult::Ok(match b {
                Ok(b) => ContractResult::Ok(b),
                Err(e) => ContractResult::Err(e.to_string()),
            })
        };
        match req {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = self.0.balance(&address, &denom);
                ok(to_json_binary(&serde_json::json!({"amount":{"denom":denom,"amount":amount.to_string()}})))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<_> = self
                    .0
                    .st
                    .borrow()
                    .bank
                    .get(&address)
                    .map(|m| {
                        m.iter()
                            .filter(|(_, a)| **a > 0)
                            .map(|(d, a)| serde_json::json!({"denom":d,"amount":a.to_string()}))
                            .collect()
                    })
                    .unwrap_or_default();
                ok(to_json_binary(&serde_json::json!({ "amount": v })))
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let amount = self.0.supply(&denom);
                ok(to_json_binary(&serde_json::json!({"amount":{"denom":denom,"amount":amount.to_string()}})))
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => {
                match self.0.id(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some(id) => SystemResult::Ok(match self.0.call_query(id, msg.as_slice()) {
                        Ok(b) => ContractResult::Ok(b),
                        Err(e) => ContractResult::Err(e),
                    }),
                }
            }
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => {
                match self.0.id(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some(id) => SystemResult::Ok(ContractResult::Ok(
                        self.0.st.borrow().kv[id]
                            .get(key.as_slice())
                            .cloned()
                            .unwrap_or_default()
                            .into(),
                    )),
                }
            }
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => {
                match self.0.id(&contract_addr) {
                    None => SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                    Some(id) => {
                        let m = self.0.st.borrow().meta[id].clone();
                        let mut r = ContractInfoResponse::default();
                        r.code_id = m.code as u64 + 1;
                        r.creator = m.creator.to_string();
                        r.admin = m.admin.map(|a| a.to_string());
                        ok(to_json_binary(&r))
                    }
                }
            }
            QueryRequest::Wasm(WasmQuery::CodeInfo { code_id }) => {
                if (code_id as usize) <= self.0.codes.borrow().len() && code_id > 0 {
                    ok(to_json_binary(&serde_json::json!({
                        "code_id": code_id, "creator": "wasm1codecreator",
                        "checksum": Binary::from(vec![code_id as u8; 32]),
                    })))
                } else {
                    ok(Err(StdError::generic_err("no such code")))
                }
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "query".into(),
            }),
        }
    }
}

fn pb_bytes(tag: u8, data: &[u8], out: &mut Vec<u8>) {
    if data.is_empty() {
        return;
    }
    out.push(tag << 3 | 2);
    let mut n = data.len();
    while n >= 0x80 {
        out.push((n as u8) | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
    out.extend_from_slice(data);
}

pub type R<T> = Result<T, String>;

pub fn panic_text(p: Box<dyn Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

impl Default for Chain {
    fn default() -> Self {
        Self::new()
    }
}

impl Chain {
    pub fn new() -> Self {
        Chain {
            st: Default::default(),
            undo: Default::default(),
            codes: Default::default(),
            height: Cell::new(1_000),
            nanos: Cell::new(1_700_000_000_000_000_000),
            refuse: Default::default(),
            traps: Cell::new(0),
            last_trap: Default::default(),
            calls: Cell::new(0),
            nest: Cell::new(0),
        }
    }

    pub fn store(&self, c: Code) -> u64 {
        let mut v = self.codes.borrow_mut();
        v.push(std::rc::Rc::new(c));
        v.len() as u64
    }

    pub fn state(&self) -> St {
        self.st.borrow().clone()
    }
    pub fn same_state(&self, o: &St) -> bool {
        *self.st.borrow() == *o
    }
    /// names of contracts / bank entries that differ, for reports
    pub fn diff(&self, o: &St) -> String {
        let s = self.st.borrow();
        let mut out = vec![];
        for (i, kv) in s.kv.iter().enumerate() {
            if o.kv.get(i) != Some(kv) {
                out.push(format!("storage of {}", s.meta[i].label));
            }
        }
        for a in s.bank.keys().chain(o.bank.keys()).collect::<BTreeSet<_>>() {
            for d in s
                .bank
                .get(a)
                .into_iter()
                .chain(o.bank.get(a))
                .flat_map(|m| m.keys())
                .collect::<BTreeSet<_>>()
            {
                let (x, y) = (
                    o.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0),
                    s.bank.get(a).and_then(|m| m.get(d)).copied().unwrap_or(0),
                );
                if x != y {
                    out.push(format!("{a} {d}: {x} -> {y}"));
                }
            }
        }
        out.join("; ")
    }

    pub fn time(&self) -> u64 {
        self.nanos.get() / 1_000_000_000
    }
    pub fn advance(&self, blocks: u64, secs: u64) {
        self.height.set(self.height.get() + blocks);
        self.nanos.set(self.nanos.get() + secs * 1_000_000_000);
    }
    pub fn set_time(&self, secs: u64) {
        self.nanos.set(secs * 1_000_000_000);
    }
    pub fn block(&self) -> BlockInfo {
        BlockInfo {
            height: self.height.get(),
            time: Timestamp::from_nanos(self.nanos.get()),
            chain_id: "vp-1".into(),
        }
    }
    fn env(&self, id: usize) -> Env {
        Env {
            block: self.block(),
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo {
                address: self.st.borrow().meta[id].addr.clone(),
            },
        }
    }
    pub fn id(&self, addr: &str) -> Option<usize> {
        self.st.borrow().by_addr.get(addr).copied()
    }
    pub fn contracts(&self) -> Vec<Meta> {
        self.st.borrow().meta.clone()
    }
    pub fn ext(&self) -> Vec<Ext> {
        self.st.borrow().ext.clone()
    }

    // ---- bank
    pub fn balance(&self, addr: &str, denom: &str) -> u128 {
        self.st
            .borrow()
            .bank
            .get(addr)
            .and_then(|m| m.get(denom))
            .copied()
            .unwrap_or(0)
    }
    pub fn supply(&self, denom: &str) -> u128 {
        self.st.borrow().supply.get(denom).copied().unwrap_or(0)
    }
    pub fn set_hook(&self, denom: &str, contract: &str) {
        self.st
            .borrow_mut()
            .hooks
            .insert(denom.into(), contract.into());
    }
    fn set_balance(&self, addr: &str, denom: &str, v: u128) {
        let mut st = self.st.borrow_mut();
        let m = st.bank.entry(addr.into()).or_default();
        let old = if v == 0 {
            m.remove(denom)
        } else {
            m.insert(denom.into(), v)
        }
        .unwrap_or(0);
        if m.is_empty() {
            st.bank.remove(addr);
        }
        drop(st);
        self.undo
            .borrow_mut()
            .push(Undo::Bank(addr.into(), denom.into(), old));
    }
    fn set_supply(&self, denom: &str, v: u128) {
        let old = if v == 0 {
            self.st.borrow_mut().supply.remove(denom)
        } else {
            self.st.borrow_mut().supply.insert(denom.into(), v)
        }
        .unwrap_or(0);
        self.undo.borrow_mut().push(Undo::Supply(denom.into(), old));
    }
    /// faucet: new native coins out of nothing, no hook
    pub fn faucet(&self, addr: &str, denom: &str, amount: u128) {
        self.set_supply(denom, self.supply(denom).checked_add(amount).expect("faucet"));
        self.set_balance(
            addr,
            denom,
            self.balance(addr, denom).checked_add(amount).expect("faucet"),
        );
        self.settle();
    }
    fn before_send(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        let hook = self.st.borrow().hooks.get(denom).cloned();
        if let Some(h) = hook {
            for kind in ["block_before_send", "track_before_send"] {
                let msg = serde_json::json!({kind: {"from": from, "to": to,
                    "amount": {"denom": denom, "amount": amount.to_string()}}});
                let m = self.mark();
                let r = self.sudo_inner(&h, serde_json::to_vec(&msg).unwrap().as_slice());
                if r.is_err() {
                    self.rollback(m);
                    if kind == "block_before_send" {
                        r?;
                    }
                }
            }
        }
        Ok(())
    }
    fn raw_move(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        self.before_send(from, to, denom, amount)?;
        let b = self.balance(from, denom);
        if b < amount {
            return Err(format!("insufficient funds: {b}{denom} < {amount}{denom}"));
        }
        self.set_balance(from, denom, b - amount);
        self.set_balance(to, denom, self.balance(to, denom) + amount);
        Ok(())
    }
    fn bank_send(&self, from: &str, to: &str, coins: &[Coin]) -> R<()> {
        if coins.is_empty() {
            return Err("invalid coins: empty".into());
        }
        let mut seen = BTreeSet::new();
        for c in coins {
            if c.amount.is_zero() {
                return Err(format!("invalid coins: zero {}", c.denom));
            }
            if !seen.insert(&c.denom) {
                return Err(format!("invalid coins: duplicate {}", c.denom));
            }
        }
        if !valid_addr(to) {
            return Err(format!("invalid recipient {to}"));
        }
        if self.refuse.borrow().contains(to) || coins.iter().any(|c| self.refuse.borrow().contains(&c.denom)) {
            return Err(format!("{to} is not allowed to receive these funds"));
        }
        // the chain keeps coins sorted by denom
        let mut v: Vec<_> = coins.iter().collect();
        v.sort_by(|a, b| a.denom.cmp(&b.denom));
        for c in v {
            self.raw_move(from, to, &c.denom, c.amount.u128())?;
        }
        Ok(())
    }
    fn bank_burn(&self, from: &str, coins: &[Coin]) -> R<()> {
        if coins.is_empty() || coins.iter().any(|c| c.amount.is_zero()) {
            return Err("invalid coins".into());
        }
        for c in coins {
            let b = self.balance(from, &c.denom);
            if b < c.amount.u128() {
                return Err("insufficient funds to burn".into());
            }
            self.set_balance(from, &c.denom, b - c.amount.u128());
            self.set_supply(&c.denom, self.supply(&c.denom) - c.amount.u128());
        }
        Ok(())
    }

    // ---- journal
    fn mark(&self) -> usize {
        self.undo.borrow().len()
    }
    fn rollback(&self, mark: usize) {
        let mut u = self.undo.borrow_mut();
        let mut st = self.st.borrow_mut();
        while u.len() > mark {
            match u.pop().unwrap() {
                Undo::Kv(id, k, Some(v)) => {
                    st.kv[id].insert(k, v);
                }
                Undo::Kv(id, k, None) => {
                    st.kv[id].remove(&k);
                }
                Undo::Bank(a, d, v) => {
                    let m = st.bank.entry(a.clone()).or_default();
                    if v == 0 {
                        m.remove(&d);
                    } else {
                        m.insert(d, v);
                    }
                    if m.is_empty() {
                        st.bank.remove(&a);
                    }
                }
                Undo::Supply(d, v) => {
                    if v == 0 {
                        st.supply.remove(&d);
                    } else {
                        st.supply.insert(d, v);
                    }
                }
                Undo::Contract => {
                    let m = st.meta.pop().unwrap();
                    st.kv.pop();
                    st.by_addr.remove(m.addr.as_str());
                }
                Undo::Meta(i, m) => st.meta[i] = m,
                Undo::TfAdmin(d, v) => {
                    match v {
                        Some(v) => st.tf_admin.insert(d, v),
                        None => st.tf_admin.remove(&d),
                    };
                }
                Undo::Hook(d, v) => {
                    match v {
                        Some(v) => st.hooks.insert(d, v),
                        None => st.hooks.remove(&d),
                    };
                }
                Undo::Grant(a, b, had) => {
                    if had {
                        st.grants.insert((a, b));
                    } else {
                        st.grants.remove(&(a, b));
                    }
                }
                Undo::Ext => {
                    st.ext.pop();
                }
            }
        }
    }

    // ---- contract calls
    fn guarded<T>(&self, f: impl FnOnce() -> R<T>) -> R<T> {
        self.calls.set(self.calls.get() + 1);
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => {
                self.traps.set(self.traps.get() + 1);
                let s = format!("TRAP: {}", panic_text(p));
                *self.last_trap.borrow_mut() = s.clone();
                Err(s)
            }
        }
    }
    fn code_of(&self, id: usize) -> std::rc::Rc<Code> {
        let c = self.st.borrow().meta[id].code;
        self.codes.borrow()[c].clone()
    }
    fn with_deps<T>(&self, id: usize, f: impl FnOnce(DepsMut, Env) -> R<T>) -> R<T> {
        let mut store = KvStore { c: self, id };
        let q = ChainQ(self);
        let env = self.env(id);
        self.guarded(move || {
            f(
                DepsMut {
                    storage: &mut store,
                    api: &VApi,
                    querier: QuerierWrapper::new(&q),
                },
                env,
            )
        })
    }
    fn call_query(&self, id: usize, msg: &[u8]) -> R<Binary> {
        let code = self.code_of(id);
        let store = KvStore { c: self, id };
        let q = ChainQ(self);
        let env = self.env(id);
        self.guarded(move || {
            (code.query)(
                Deps {
                    storage: &store,
                    api: &VApi,
                    querier: QuerierWrapper::new(&q),
                },
                env,
                msg,
            )
        })
    }

    fn process(&self, id: usize, resp: CResp) -> R<Resp> {
        let addr = self.st.borrow().meta[id].addr.to_string();
        let mut out = Resp {
            events: vec![],
            data: resp.data,
        };
        if !resp.attrs.is_empty() {
            out.events.push(
                Event::new("wasm")
                    .add_attribute("_contract_address", &addr)
                    .add_attributes(resp.attrs),
            );
        }
        for e in resp.events {
            let mut e2 = Event::new(format!("wasm-{}", e.ty));
            e2 = e2.add_attribute("_contract_address", &addr);
            e2.attributes.extend(e.attributes);
            out.events.push(e2);
        }
        for s in resp.subs {
            let m = self.mark();
            let r = self.exec_msg(&addr, s.msg);
            let (want, result) = match r {
                Ok(r) => {
                    out.events.extend(r.events.clone());
                    (
                        matches!(s.reply_on, ReplyOn::Always | ReplyOn::Success),
                        SubMsgResult::Ok(SubMsgResponse {
                            events: r.events,
                            data: r.data,
                        }),
                    )
                }
                Err(e) => {
                    self.rollback(m);
                    if matches!(s.reply_on, ReplyOn::Always | ReplyOn::Error) {
                        (true, SubMsgResult::Err(e))
                    } else {
                        return Err(e);
                    }
                }
            };
            if want {
                let code = self.code_of(id);
                let reply = code
                    .reply
                    .as_ref()
                    .ok_or_else(|| format!("{} has no reply entry point", code.name))?;
                let rr = self.with_deps(id, |d, e| reply(d, e, Reply { id: s.id, result }))?;
                let rr = self.process(id, rr)?;
                out.events.extend(rr.events);
                if rr.data.is_some() {
                    out.data = rr.data;
                }
            }
        }
        Ok(out)
    }

    fn call_execute(&self, sender: &str, contract: &str, msg: &[u8], funds: &[Coin]) -> R<Resp> {
        let id = self
            .id(contract)
            .ok_or_else(|| format!("no such contract: {contract}"))?;
        if !funds.is_empty() {
            self.bank_send(sender, contract, funds)?;
        }
        let mut funds = funds.to_vec();
        funds.sort_by(|a, b| a.denom.cmp(&b.denom));
        let code = self.code_of(id);
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds,
        };
        let r = self.with_deps(id, |d, e| (code.exec)(d, e, info, msg))?;
        self.process(id, r)
    }

    fn call_instantiate(
        &self,
        sender: &str,
        code_id: u64,
        msg: &[u8],
        funds: &[Coin],
        label: &str,
        admin: Option<String>,
    ) -> R<(String, Resp)> {
        if label.is_empty() {
            return Err("label is required".into());
        }
        let n = self.codes.borrow().len() as u64;
        if code_id == 0 || code_id > n {
            return Err(format!("no such code {code_id}"));
        }
        let id = self.st.borrow().kv.len();
        let addr = format!("wasm1contract{id:04}");
        {
            let mut st = self.st.borrow_mut();
            st.kv.push(BTreeMap::new());
            st.meta.push(Meta {
                addr: Addr::unchecked(&addr),
                code: code_id as usize - 1,
                creator: Addr::unchecked(sender),
                admin: admin.map(Addr::unchecked),
                label: label.into(),
            });
            st.by_addr.insert(addr.clone(), id);
        }
        self.undo.borrow_mut().push(Undo::Contract);
        if !funds.is_empty() {
            self.bank_send(sender, &addr, funds)?;
        }
        let code = self.code_of(id);
        let info = MessageInfo {
            sender: Addr::unchecked(sender),
            funds: funds.to_vec(),
        };
        let r = self.with_deps(id, |d, e| (code.inst)(d, e, info, msg))?;
        let r = self.process(id, r)?;
        Ok((addr, r))
    }

    fn sudo_inner(&self, contract: &str, msg: &[u8]) -> R<Resp> {
        let id = self
            .id(contract)
            .ok_or_else(|| format!("no such contract: {contract}"))?;
        let code = self.code_of(id);
        let f = code.sudo.as_ref().ok_or("no sudo entry point")?;
        let r = self.with_deps(id, |d, e| f(d, e, msg))?;
        self.process(id, r)
    }

    fn log(&self, sender: &str, kind: &str, body: String, bytes: Vec<u8>) {
        self.st.borrow_mut().ext.push(Ext {
            sender: sender.into(),
            kind: kind.into(),
            body,
            bytes,
        });
        self.undo.borrow_mut().push(Undo::Ext);
    }

    pub fn exec_msg(&self, sender: &str, msg: M) -> R<Resp> {
        match msg {
            M::Bank(BankMsg::Send { to_address, amount }) => {
                self.bank_send(sender, &to_address, &amount)?;
                Ok(Resp::default())
            }
            M::Bank(BankMsg::Burn { amount }) => {
                self.bank_burn(sender, &amount)?;
                Ok(Resp::default())
            }
            M::Wasm(WasmMsg::Execute {
                contract_addr,
                msg,
                funds,
            }) => {
                let mut r = self.call_execute(sender, &contract_addr, msg.as_slice(), &funds)?;
                r.data = r.data.map(|d| {
                    let mut o = vec![];
                    pb_bytes(1, d.as_slice(), &mut o);
                    o.into()
                });
                Ok(r)
            }
            M::Wasm(WasmMsg::Instantiate {
                admin,
                code_id,
                msg,
                funds,
                label,
            }) => {
                let (a, mut r) =
                    self.call_instantiate(sender, code_id, msg.as_slice(), &funds, &label, admin)?;
                let mut o = vec![];
                pb_bytes(1, a.as_bytes(), &mut o);
                if let Some(d) = &r.data {
                    pb_bytes(2, d.as_slice(), &mut o);
                }
                r.data = Some(o.into());
                Ok(r)
            }
            M::Wasm(WasmMsg::Migrate {
                contract_addr,
                new_code_id,
                msg,
            }) => self.migrate_inner(sender, &contract_addr, new_code_id, msg.as_slice()),
            M::Wasm(WasmMsg::UpdateAdmin {
                contract_addr,
                admin,
            }) => self.set_admin(sender, &contract_addr, Some(admin)),
            M::Wasm(WasmMsg::ClearAdmin { contract_addr }) => {
                self.set_admin(sender, &contract_addr, None)
            }
            M::Wasm(_) => Err("unsupported wasm message".into()),
            M::Bank(_) => Err("unsupported bank message".into()),
            M::Ibc(m) => {
                if let IbcMsg::Transfer {
                    channel_id, amount, ..
                } = &m
                {
                    self.bank_send(
                        sender,
                        &format!("wasm1escrow{}", channel_id.replace('-', "")),
                        std::slice::from_ref(amount),
                    )?;
                }
                self.log(
                    sender,
                    "ibc",
                    serde_json::to_string(&m).unwrap_or_default(),
                    vec![],
                );
                Ok(Resp::default())
            }
            M::Custom(c) => {
                self.log(sender, "custom", c, vec![]);
                Ok(Resp::default())
            }
            M::Other(o) => Err(o),
            M::Stargate(url, value) => self.stargate(sender, &url, value),
        }
    }

    fn set_admin(&self, sender: &str, contract: &str, admin: Option<String>) -> R<Resp> {
        let id = self.id(contract).ok_or("no such contract")?;
        let old = self.st.borrow().meta[id].clone();
        if old.admin.as_ref().map(|a| a.as_str()) != Some(sender) {
            return Err("unauthorized: not the contract admin".into());
        }
        self.st.borrow_mut().meta[id].admin = admin.map(Addr::unchecked);
        self.undo.borrow_mut().push(Undo::Meta(id, old));
        Ok(Resp::default())
    }

    fn migrate_inner(&self, sender: &str, contract: &str, code_id: u64, msg: &[u8]) -> R<Resp> {
        let id = self.id(contract).ok_or("no such contract")?;
        let old = self.st.borrow().meta[id].clone();
        if old.admin.as_ref().map(|a| a.as_str()) != Some(sender) {
            return Err("unauthorized: not the contract admin".into());
        }
        if code_id == 0 || code_id as usize > self.codes.borrow().len() {
            return Err("no such code".into());
        }
        self.st.borrow_mut().meta[id].code = code_id as usize - 1;
        self.undo.borrow_mut().push(Undo::Meta(id, old));
        let code = self.code_of(id);
        let f = code.migrate.as_ref().ok_or("no migrate entry point")?;
        let r = self.with_deps(id, |d, e| f(d, e, msg))?;
        self.process(id, r)
    }

    fn stargate(&self, sender: &str, url: &str, value: Binary) -> R<Resp> {
        use astroport::token_factory::*;
        let bad = |e: prost::DecodeError| e.to_string();
        let coin = |c: Option<ProtoCoin>| -> R<(String, u128)> {
            let c = c.ok_or("no amount")?;
            let a: u128 = c.amount.parse().map_err(|_| "bad amount".to_string())?;
            if a == 0 {
                return Err("invalid coins: zero".into());
            }
            Ok((c.denom, a))
        };
        match url {
            "/osmosis.tokenfactory.v1beta1.MsgCreateDenom" => {
                let m = MsgCreateDenom::decode(value.as_slice()).map_err(bad)?;
                if m.sender != sender {
                    return Err("unauthorized: sender".into());
                }
                if m.subdenom.len() > 44 {
                    return Err("subdenom too long".into());
                }
                let d = format!("factory/{}/{}", sender, m.subdenom);
                if self.st.borrow().tf_admin.contains_key(&d) {
                    return Err("denom exists".into());
                }
                self.st
                    .borrow_mut()
                    .tf_admin
                    .insert(d.clone(), sender.into());
                self.undo.borrow_mut().push(Undo::TfAdmin(d.clone(), None));
                Ok(Resp {
                    events: vec![],
                    data: Some(MsgCreateDenomResponse { new_token_denom: d }.into()),
                })
            }
            "/osmosis.tokenfactory.v1beta1.MsgMint" => {
                let m = MsgMint::decode(value.as_slice()).map_err(bad)?;
                let (d, a) = coin(m.amount)?;
                let to = if m.mint_to_address.is_empty() {
                    sender
                } else {
                    &m.mint_to_address
                };
                if m.sender != sender
                    || self.st.borrow().tf_admin.get(&d).map(|s| s.as_str()) != Some(sender)
                {
                    return Err("unauthorized: not the denom admin".into());
                }
                if !valid_addr(to) {
                    return Err("invalid mint recipient".into());
                }
                let s = self.supply(&d).checked_add(a).ok_or("supply overflow")?;
                self.set_supply(&d, s);
                self.set_balance(TF_MODULE, &d, self.balance(TF_MODULE, &d) + a);
                if self.refuse.borrow().contains(to) {
                    return Err(format!("{to} is not allowed to receive funds"));
                }
                self.raw_move(TF_MODULE, to, &d, a)?;
                Ok(Resp::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgBurn" => {
                let m = MsgBurn::decode(value.as_slice()).map_err(bad)?;
                let (d, a) = coin(m.amount)?;
                let from = if m.burn_from_address.is_empty() {
                    sender
                } else {
                    &m.burn_from_address
                };
                if m.sender != sender
                    || self.st.borrow().tf_admin.get(&d).map(|s| s.as_str()) != Some(sender)
                {
                    return Err("unauthorized: not the denom admin".into());
                }
                self.raw_move(from, TF_MODULE, &d, a)?;
                self.bank_burn(TF_MODULE, &[Coin::new(a, d)])?;
                Ok(Resp::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetBeforeSendHook" => {
                let m = MsgSetBeforeSendHook::decode(value.as_slice()).map_err(bad)?;
                if m.sender != sender
                    || self.st.borrow().tf_admin.get(&m.denom).map(|s| s.as_str()) != Some(sender)
                {
                    return Err("unauthorized: not the denom admin".into());
                }
                let old = self
                    .st
                    .borrow_mut()
                    .hooks
                    .insert(m.denom.clone(), m.cosmwasm_address);
                self.undo.borrow_mut().push(Undo::Hook(m.denom, old));
                Ok(Resp::default())
            }
            "/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata" => Ok(Resp::default()),
            _ => {
                self.log(sender, url, value.to_base64(), value.to_vec());
                Ok(Resp::default())
            }
        }
    }

    // ---- transactions
    fn tx<T>(&self, f: impl FnOnce() -> R<T>) -> R<T> {
        let m = self.mark();
        let r = f();
        if r.is_err() {
            self.rollback(m);
        }
        self.settle();
        r
    }
    pub fn exec<T: Serialize>(&self, sender: &str, contract: &str, msg: &T, funds: &[Coin]) -> R<Resp> {
        let b = to_json_vec(msg).map_err(|e| e.to_string())?;
        self.tx(|| self.call_execute(sender, contract, &b, funds))
    }
    /// several messages in one transaction
    pub fn exec_many(&self, sender: &str, msgs: Vec<(String, Vec<u8>, Vec<Coin>)>) -> R<Vec<Resp>> {
        self.tx(|| {
            msgs.iter()
                .map(|(c, m, f)| self.call_execute(sender, c, m, f))
                .collect()
        })
    }
    pub fn send(&self, from: &str, to: &str, denom: &str, amount: u128) -> R<()> {
        self.tx(|| self.bank_send(from, to, &[Coin::new(amount, denom)]))
    }
    pub fn raw(&self, sender: &str, m: M) -> R<Resp> {
        self.tx(|| self.exec_msg(sender, m))
    }
    pub fn sudo<T: Serialize>(&self, contract: &str, msg: &T) -> R<Resp> {
        let b = to_json_vec(msg).map_err(|e| e.to_string())?;
        self.tx(|| self.sudo_inner(contract, &b))
    }
    pub fn init<T: Serialize>(
        &self,
        code: u64,
        sender: &str,
        msg: &T,
        funds: &[Coin],
        label: &str,
        admin: Option<&str>,
    ) -> R<String> {
        let b = to_json_vec(msg).map_err(|e| e.to_string())?;
        self.tx(|| self.call_instantiate(sender, code, &b, funds, label, admin.map(|s| s.into())))
            .map(|(a, _)| a)
    }
    pub fn migrate<T: Serialize>(&self, sender: &str, contract: &str, code: u64, msg: &T) -> R<Resp> {
        let b = to_json_vec(msg).map_err(|e| e.to_string())?;
        self.tx(|| self.migrate_inner(sender, contract, code, &b))
    }
    pub fn query<T: DeserializeOwned, Q: Serialize>(&self, contract: &str, msg: &Q) -> R<T> {
        let b = to_json_vec(msg).map_err(|e| e.to_string())?;
        let id = self
            .id(contract)
            .ok_or_else(|| format!("no such contract: {contract}"))?;
        from_json(self.call_query(id, &b)?).map_err(|e| e.to_string())
    }
    /// run `f`, then undo everything it did (also block/time)
    pub fn dry<T>(&self, f: impl FnOnce() -> T) -> T {
        let (h, n, m) = (self.height.get(), self.nanos.get(), self.mark());
        self.nest.set(self.nest.get() + 1);
        let r = f();
        self.rollback(m);
        self.nest.set(self.nest.get() - 1);
        self.height.set(h);
        self.nanos.set(n);
        r
    }
    fn settle(&self) {
        if self.nest.get() == 0 {
            self.undo.borrow_mut().clear();
        }
    }
    pub fn restore(&self, st: &St) {
        *self.st.borrow_mut() = st.clone();
        self.undo.borrow_mut().clear();
    }
    /// direct storage access of a contract, for fault injection and white-box setup
    pub fn with_storage<T>(&self, contract: &str, f: impl FnOnce(&mut dyn Storage) -> T) -> T {
        let id = self.id(contract).expect("contract");
        let mut s = KvStore { c: self, id };
        let r = f(&mut s);
        self.settle();
        r
    }

    // ---- cw20 convenience
    pub fn cw20_balance(&self, token: &str, addr: &str) -> u128 {
        let r: R<cw20::BalanceResponse> = self.query(
            token,
            &cw20::Cw20QueryMsg::Balance {
                address: addr.into(),
            },
        );
        r.map(|b| b.balance.u128()).unwrap_or(0)
    }
    pub fn cw20_supply(&self, token: &str) -> u128 {
        let r: R<cw20::TokenInfoResponse> =
            self.query(token, &cw20::Cw20QueryMsg::TokenInfo {});
        r.map(|b| b.total_supply.u128()).unwrap_or(0)
    }
    pub fn cw20_send<T: Serialize>(&self, from: &str, token: &str, to: &str, amount: u128, hook: &T) -> R<Resp> {
        self.exec(
            from,
            token,
            &cw20::Cw20ExecuteMsg::Send {
                contract: to.into(),
                amount: Uint128::new(amount),
                msg: to_json_binary(hook).map_err(|e| e.to_string())?,
            },
            &[],
        )
    }
}
