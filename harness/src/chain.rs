//! A small deterministic chain around the real contract: storage with rollback and access counting,
//! a bank, sub-message/reply semantics, and atomic transactions. All messages and answers are JSON,
//! as on the real chain.
use cosmwasm_std::testing::{mock_env, MockApi};
use cosmwasm_std::{
    from_json, Addr, BankMsg, BankQuery, Binary, Coin, ContractResult as CwResult, CosmosMsg, Deps,
    DepsMut, Empty, Env, Event, MessageInfo, Order, Querier, QuerierResult, QuerierWrapper,
    QueryRequest, Record, Reply, ReplyOn, Response, Storage, SubMsgResponse, SubMsgResult,
    SystemError, SystemResult, Timestamp, Uint128,
};
use prost::Message;
use serde_json::Value;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sumtree_orderbook as ob;

pub const CONTRACT: &str = "osmo1contractaddressofthebook";
/// Storage accesses one entry point call may make before it counts as running away.
pub const GAS: u64 = 100_000;

#[derive(Clone, Default)]
pub struct MemStore {
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
    journal: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    journaling: bool,
    pub reads: Cell<u64>,
    pub writes: Cell<u64>,
    gas: Cell<u64>,
}

impl MemStore {
    fn begin(&mut self) {
        self.journal.clear();
        self.journaling = true;
        self.reads.set(0);
        self.writes.set(0);
        self.gas.set(GAS);
    }
    fn commit(&mut self) {
        self.journal.clear();
        self.journaling = false;
    }
    fn rollback(&mut self) {
        while let Some((k, v)) = self.journal.pop() {
            match v {
                Some(v) => {
                    self.map.insert(k, v);
                }
                None => {
                    self.map.remove(&k);
                }
            }
        }
        self.journaling = false;
    }
    fn spend(&self) {
        let g = self.gas.get();
        if g == 0 {
            panic!("out of gas: more than {GAS} storage accesses in one call");
        }
        self.gas.set(g - 1);
    }
    fn note(&mut self, k: &[u8]) {
        if self.journaling {
            let old = self.map.get(k).cloned();
            self.journal.push((k.to_vec(), old));
        }
    }
}

impl Storage for MemStore {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        self.spend();
        self.reads.set(self.reads.get() + 1);
        self.map.get(key).cloned()
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        let lo = start.map_or(Bound::Unbounded, |s| Bound::Included(s.to_vec()));
        let hi = end.map_or(Bound::Unbounded, |s| Bound::Excluded(s.to_vec()));
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let f = move |(k, v): (&Vec<u8>, &Vec<u8>)| {
            self.spend();
            self.reads.set(self.reads.get() + 1);
            (k.clone(), v.clone())
        };
        let it = self.map.range((lo, hi));
        match order {
            Order::Ascending => Box::new(it.map(f)),
            Order::Descending => Box::new(it.rev().map(f)),
        }
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        self.spend();
        self.writes.set(self.writes.get() + 1);
        self.note(key);
        self.map.insert(key.to_vec(), value.to_vec());
    }
    fn remove(&mut self, key: &[u8]) {
        self.spend();
        self.writes.set(self.writes.get() + 1);
        self.note(key);
        self.map.remove(key);
    }
}

pub type Bank = BTreeMap<(String, String), u128>;

#[derive(Clone, Default)]
pub struct ChainQuerier {
    pub supply: BTreeMap<String, u128>,
    /// denoms for which the supply query itself fails
    pub broken: BTreeSet<String>,
    pub bank: Bank,
}

fn jb<T: serde::Serialize>(v: &T) -> Binary {
    Binary(serde_json::to_vec(v).unwrap())
}

impl Querier for ChainQuerier {
    fn raw_query(&self, bin: &[u8]) -> QuerierResult {
        let req: QueryRequest<Empty> = match from_json(bin) {
            Ok(r) => r,
            Err(e) => {
                return SystemResult::Err(SystemError::InvalidRequest {
                    error: e.to_string(),
                    request: bin.into(),
                })
            }
        };
        let coin = |d: &str, a: u128| serde_json::json!({"denom": d, "amount": a.to_string()});
        match req {
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                if self.broken.contains(&denom) {
                    return SystemResult::Ok(CwResult::Err("no such denom".into()));
                }
                let a = self.supply.get(&denom).copied().unwrap_or(0);
                SystemResult::Ok(CwResult::Ok(jb(
                    &serde_json::json!({"amount": coin(&denom, a)}),
                )))
            }
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let a = self.bank.get(&(address, denom.clone())).copied().unwrap_or(0);
                SystemResult::Ok(CwResult::Ok(jb(
                    &serde_json::json!({"amount": coin(&denom, a)}),
                )))
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let v: Vec<Value> = self
                    .bank
                    .iter()
                    .filter(|((a, _), n)| *a == address && **n > 0)
                    .map(|((_, d), n)| coin(d, *n))
                    .collect();
                SystemResult::Ok(CwResult::Ok(jb(&serde_json::json!({ "amount": v }))))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest {
                kind: "only bank queries exist here".into(),
            }),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pay {
    pub from: String,
    pub to: String,
    pub coins: Vec<(String, u128)>,
    pub reply_on_error: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct TxOk {
    pub data: Option<Vec<u8>>,
    pub attrs: Vec<(String, String)>,
    pub events: Vec<(String, Vec<(String, String)>)>,
    pub pays: Vec<Pay>,
    pub reads: u64,
    pub writes: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TxErr {
    /// the JSON was not accepted as a message
    Parse(String),
    /// the contract returned an error
    Contract(String),
    /// the sender could not pay
    Funds(String),
    /// a payment of the contract was refused by the bank
    Bank(String),
    /// the contract panicked
    Panic(String),
}
impl TxErr {
    pub fn text(&self) -> String {
        match self {
            TxErr::Parse(s) => format!("parse: {s}"),
            TxErr::Contract(s) => format!("error: {s}"),
            TxErr::Funds(s) => format!("funds: {s}"),
            TxErr::Bank(s) => format!("bank: {s}"),
            TxErr::Panic(s) => format!("PANIC: {s}"),
        }
    }
}
pub type TxRes = Result<TxOk, TxErr>;

#[derive(Clone)]
pub struct Chain {
    pub store: MemStore,
    pub q: ChainQuerier,
    pub env: Env,
    /// the next transaction is followed by another one in its block
    pub same_block: bool,
    /// recipients the bank refuses to pay
    pub blocked: BTreeSet<String>,
    /// payments (by position within the transaction) the bank refuses
    pub fail_pays: BTreeSet<usize>,
    /// payments attempted in the last transaction, in order (also in failed ones)
    pub attempted: Vec<Pay>,
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

enum Call<'a> {
    Execute(&'a str, Vec<Coin>),
    Sudo,
    Instantiate(&'a str),
    Migrate,
}

impl Chain {
    pub fn new() -> Self {
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(CONTRACT);
        env.block.time = Timestamp::from_nanos(1_700_000_000_000_000_000);
        env.block.height = 1000;
        Chain {
            store: MemStore::default(),
            q: ChainQuerier::default(),
            env,
            same_block: false,
            blocked: BTreeSet::new(),
            fail_pays: BTreeSet::new(),
            attempted: vec![],
        }
    }

    pub fn balance(&self, a: &str, d: &str) -> u128 {
        self.q.bank.get(&(a.to_string(), d.to_string())).copied().unwrap_or(0)
    }

    /// Creates new tokens; never lets a denom's supply exceed u128::MAX. Returns what was minted.
    pub fn mint(&mut self, a: &str, d: &str, want: u128) -> u128 {
        let s = self.q.supply.entry(d.to_string()).or_insert(0);
        let n = want.min(u128::MAX - *s);
        *s += n;
        *self.q.bank.entry((a.to_string(), d.to_string())).or_insert(0) += n;
        n
    }

    /// The tokens of the start stay where they are and do not count towards the supply any more, so that a single
    /// account can hold as much as can exist.
    pub fn set_genesis_aside(&mut self, denoms: &[&str]) {
        for d in denoms {
            let n = self.balance("osmo1genesis", d);
            if let Some(s) = self.q.supply.get_mut(*d) {
                *s -= n;
            }
        }
    }

    pub fn transfer(&mut self, from: &str, to: &str, d: &str, n: u128) -> Result<(), String> {
        let b = self.q.bank.entry((from.to_string(), d.to_string())).or_insert(0);
        if *b < n {
            return Err(format!("{from} has {b}{d}, needs {n}"));
        }
        *b -= n;
        *self.q.bank.entry((to.to_string(), d.to_string())).or_insert(0) += n;
        Ok(())
    }

    fn pay(&mut self, p: &Pay, idx: usize) -> Result<(), String> {
        if p.from != CONTRACT {
            return Err(format!("contract cannot send from {}", p.from));
        }
        if self.fail_pays.contains(&idx) || self.blocked.contains(&p.to) {
            return Err("injected bank failure".into());
        }
        if p.coins.is_empty() {
            return Err("invalid coins: empty".into());
        }
        if p.to.is_empty() {
            return Err("empty recipient".into());
        }
        for (d, n) in &p.coins {
            if *n == 0 {
                return Err(format!("invalid coins: 0{d}"));
            }
        }
        let before = self.q.bank.clone();
        for (d, n) in &p.coins {
            if let Err(e) = self.transfer(CONTRACT, &p.to, d, *n) {
                self.q.bank = before;
                return Err(e);
            }
        }
        Ok(())
    }

    fn decode_pay(msg: &CosmosMsg) -> Result<Pay, String> {
        match msg {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => Ok(Pay {
                from: CONTRACT.into(),
                to: to_address.clone(),
                coins: amount.iter().map(|c| (c.denom.clone(), c.amount.u128())).collect(),
                reply_on_error: false,
            }),
            CosmosMsg::Stargate { type_url, value } if type_url == "/cosmos.bank.v1beta1.MsgSend" => {
                let m = osmosis_std::types::cosmos::bank::v1beta1::MsgSend::decode(value.as_slice())
                    .map_err(|e| e.to_string())?;
                let mut coins = vec![];
                for c in m.amount {
                    coins.push((
                        c.denom.clone(),
                        c.amount
                            .parse::<u128>()
                            .ok()
                            .filter(|n| n.to_string() == c.amount)
                            .ok_or_else(|| format!("amount {}", c.amount))?,
                    ));
                }
                Ok(Pay {
                    from: m.from_address,
                    to: m.to_address,
                    coins,
                    reply_on_error: false,
                })
            }
            other => Err(format!("unsupported message {other:?}")),
        }
    }

    fn deps_mut<'a>(store: &'a mut MemStore, api: &'a MockApi, q: &'a ChainQuerier) -> DepsMut<'a> {
        DepsMut {
            storage: store,
            api,
            querier: QuerierWrapper::new(q),
        }
    }

    fn call(&mut self, call: &Call, bytes: &[u8]) -> Result<Response, TxErr> {
        let api = MockApi::default();
        let env = self.env.clone();
        let store = &mut self.store;
        let q = &self.q;
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = Self::deps_mut(store, &api, q);
            match call {
                Call::Execute(sender, funds) => {
                    let info = MessageInfo {
                        sender: Addr::unchecked(*sender),
                        funds: funds.clone(),
                    };
                    match from_json(bytes) {
                        Err(e) => Err(TxErr::Parse(e.to_string())),
                        Ok(m) => ob::contract::execute(deps, env, info, m)
                            .map_err(|e| TxErr::Contract(e.to_string())),
                    }
                }
                Call::Instantiate(sender) => {
                    let info = MessageInfo {
                        sender: Addr::unchecked(*sender),
                        funds: vec![],
                    };
                    match from_json(bytes) {
                        Err(e) => Err(TxErr::Parse(e.to_string())),
                        Ok(m) => ob::contract::instantiate(deps, env, info, m)
                            .map_err(|e| TxErr::Contract(e.to_string())),
                    }
                }
                Call::Sudo => match from_json(bytes) {
                    Err(e) => Err(TxErr::Parse(e.to_string())),
                    Ok(m) => {
                        ob::sudo::sudo(deps, env, m).map_err(|e| TxErr::Contract(e.to_string()))
                    }
                },
                Call::Migrate => match from_json(bytes) {
                    Err(e) => Err(TxErr::Parse(e.to_string())),
                    Ok(m) => ob::contract::migrate(deps, env, m)
                        .map_err(|e| TxErr::Contract(e.to_string())),
                },
            }
        }));
        match r {
            Ok(x) => x,
            Err(e) => Err(TxErr::Panic(panic_text(e))),
        }
    }

    fn reply(&mut self, id: u64, result: SubMsgResult) -> Result<Response, TxErr> {
        let api = MockApi::default();
        let env = self.env.clone();
        let store = &mut self.store;
        let q = &self.q;
        match catch_unwind(AssertUnwindSafe(|| {
            ob::contract::reply(Self::deps_mut(store, &api, q), env, Reply { id, result })
        })) {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(TxErr::Bank(e.to_string())),
            Err(e) => Err(TxErr::Panic(panic_text(e))),
        }
    }

    fn conv(e: &[cosmwasm_std::Attribute]) -> Vec<(String, String)> {
        e.iter().map(|a| (a.key.clone(), a.value.clone())).collect()
    }

    fn settle(&mut self, resp: Response, out: &mut TxOk, depth: u32) -> Result<(), TxErr> {
        out.attrs.extend(Self::conv(&resp.attributes));
        out.events
            .extend(resp.events.iter().map(|e: &Event| (e.ty.clone(), Self::conv(&e.attributes))));
        if resp.data.is_some() {
            out.data = resp.data.map(|d| d.0);
        }
        if depth > 8 {
            return Err(TxErr::Bank("too deep".into()));
        }
        for sm in resp.messages {
            let want_err = matches!(sm.reply_on, ReplyOn::Error | ReplyOn::Always);
            let want_ok = matches!(sm.reply_on, ReplyOn::Success | ReplyOn::Always);
            let done = match Self::decode_pay(&sm.msg) {
                Err(e) => Err(e),
                Ok(mut p) => {
                    p.reply_on_error = want_err;
                    let idx = self.attempted.len();
                    self.attempted.push(p.clone());
                    let r = self.pay(&p, idx);
                    if r.is_ok() {
                        out.pays.push(p);
                    }
                    r
                }
            };
            match done {
                Ok(()) if want_ok => {
                    let r = self.reply(
                        sm.id,
                        SubMsgResult::Ok(SubMsgResponse {
                            events: vec![],
                            data: None,
                        }),
                    )?;
                    self.settle(r, out, depth + 1)?;
                }
                Ok(()) => {}
                Err(e) if want_err => {
                    let r = self.reply(sm.id, SubMsgResult::Err(e))?;
                    self.settle(r, out, depth + 1)?;
                }
                Err(e) => return Err(TxErr::Bank(e)),
            }
        }
        Ok(())
    }

    fn tx(&mut self, call: Call, pre: &[(String, String, String, u128)], msg: &[u8]) -> TxRes {
        let bank0 = self.q.bank.clone();
        self.attempted.clear();
        self.store.begin();
        let r = (|| {
            for (from, to, d, n) in pre {
                self.transfer(from, to, d, *n).map_err(TxErr::Funds)?;
            }
            let resp = self.call(&call, msg)?;
            let mut out = TxOk::default();
            self.settle(resp, &mut out, 0)?;
            out.reads = self.store.reads.get();
            out.writes = self.store.writes.get();
            Ok(out)
        })();
        if r.is_err() {
            self.store.rollback();
            self.q.bank = bank0;
        } else {
            self.store.commit();
        }
        if !std::mem::take(&mut self.same_block) {
            self.env.block.height += 1;
            self.env.block.time = self.env.block.time.plus_nanos(1_000_000_007);
        }
        r
    }

    pub fn instantiate(&mut self, sender: &str, msg: &Value) -> TxRes {
        self.tx(Call::Instantiate(sender), &[], &serde_json::to_vec(msg).unwrap())
    }

    pub fn execute(&mut self, sender: &str, funds: &[(String, u128)], msg: &Value) -> TxRes {
        self.execute_raw(sender, funds, &serde_json::to_vec(msg).unwrap())
    }

    pub fn execute_raw(&mut self, sender: &str, funds: &[(String, u128)], msg: &[u8]) -> TxRes {
        let mut pre = vec![];
        let mut coins = vec![];
        for (d, n) in funds {
            // zero coins never reach a contract on the chain
            if *n > 0 {
                pre.push((sender.to_string(), CONTRACT.to_string(), d.clone(), *n));
                coins.push(Coin {
                    denom: d.clone(),
                    amount: Uint128::new(*n),
                });
            }
        }
        self.tx(Call::Execute(sender, coins), &pre, msg)
    }

    /// Raw sudo call without any token transfer.
    pub fn sudo(&mut self, msg: &Value) -> TxRes {
        self.tx(Call::Sudo, &[], &serde_json::to_vec(msg).unwrap())
    }

    /// What the pool module does for a swap: hand over the input, then call sudo.
    pub fn sudo_swap(&mut self, sender: &str, denom: &str, amount: u128, msg: &Value) -> TxRes {
        let mut pre = vec![];
        if amount > 0 {
            pre.push((
                sender.to_string(),
                CONTRACT.to_string(),
                denom.to_string(),
                amount,
            ));
        }
        self.tx(Call::Sudo, &pre, &serde_json::to_vec(msg).unwrap())
    }

    pub fn migrate(&mut self) -> TxRes {
        self.tx(Call::Migrate, &[], b"{}")
    }

    /// Lets time pass, with a block every five seconds; zero keeps the next transaction's block open.
    pub fn advance(&mut self, nanos: u64) {
        self.same_block = nanos == 0;
        self.env.block.time = self.env.block.time.plus_nanos(nanos);
        self.env.block.height += nanos / 5_000_000_000;
    }

    pub fn query_raw(&self, msg: &[u8]) -> Result<Vec<u8>, TxErr> {
        let api = MockApi::default();
        self.store.gas.set(GAS);
        self.store.reads.set(0);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let deps = Deps {
                storage: &self.store,
                api: &api,
                querier: QuerierWrapper::new(&self.q),
            };
            match from_json(msg) {
                Err(e) => Err(TxErr::Parse(e.to_string())),
                Ok(m) => ob::contract::query(deps, self.env.clone(), m)
                    .map(|b| b.0)
                    .map_err(|e| TxErr::Contract(e.to_string())),
            }
        }));
        match r {
            Ok(x) => x,
            Err(e) => Err(TxErr::Panic(panic_text(e))),
        }
    }

    pub fn query(&self, msg: &Value) -> Result<Value, TxErr> {
        let b = self.query_raw(&serde_json::to_vec(msg).unwrap())?;
        serde_json::from_slice(&b).map_err(|e| TxErr::Parse(format!("answer is not JSON: {e}")))
    }
}
