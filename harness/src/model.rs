//! Independent reference model: one first-in-first-out queue per (tick, side), exact arithmetic,
//! naive loops. Written from the documentation, not from the contract's data structures.
use bnum::BUint;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type U = BUint<8>; // 512 bits
pub const MIN_TICK: i64 = -108_000_000;
pub const MAX_TICK: i64 = 182_402_823;
pub const DECADE: i64 = 9_000_000;
pub const E18: u128 = 1_000_000_000_000_000_000;
pub const GOV: &str = "osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp";
pub const BREAKER: &str = "osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl";
pub const FEE_DEFAULT: &str = "osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6";
pub const BASE: &str = "ubase";
pub const QUOTE: &str = "uquote";
pub const MAX_FEE: u128 = E18 / 20;
pub const MAX_BOUNTY: u128 = E18 / 100;

pub fn u(x: u128) -> U {
    U::from(x)
}
pub fn to_u128(x: U) -> Option<u128> {
    u128::try_from(x).ok()
}

/// Price of a tick in units of 10^-18: 10^k + r * 10^(k-6) for tick = 9e6 k + r.
pub fn price(tick: i64) -> u128 {
    assert!((MIN_TICK..=MAX_TICK).contains(&tick));
    let k = tick.div_euclid(DECADE);
    let r = tick.rem_euclid(DECADE) as u128;
    let ten = |e: i64| 10u128.pow(e as u32);
    ten(k + 18) + r * ten(k + 12)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Round {
    Down,
    Up,
}

fn div(n: U, d: U, r: Round) -> U {
    let q = n / d;
    if r == Round::Up && q * d != n {
        q + u(1)
    } else {
        q
    }
}
/// base amount -> quote amount
pub fn mul_price(a: u128, p: u128, r: Round) -> U {
    div(u(a) * u(p), u(E18), r)
}
/// quote amount -> base amount
pub fn div_price(a: u128, p: u128, r: Round) -> U {
    div(u(a) * u(E18), u(p), r)
}
/// `amount * share` with a share in units of 10^-18, rounded down
pub fn share(a: u128, s: u128) -> u128 {
    to_u128(u(a) * u(s) / u(E18)).unwrap()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    pub id: u64,
    pub tick: i64,
    pub bid: bool,
    pub owner: String,
    /// resting, neither filled nor cancelled
    pub open: u128,
    /// filled, not yet claimed
    pub unclaimed: u128,
    pub placed: u128,
    pub claimed: U,
    pub bounty: Option<u128>,
    pub placed_at: u64,
    /// everything placed in its queue before it
    pub start: U,
    pub live: bool,
    /// an earlier order of the queue had been cancelled while this one was resting
    pub behind_cancel: bool,
    pub claims: u32,
}
impl Order {
    /// what listings show as quantity: open plus filled-but-unclaimed
    pub fn quantity(&self) -> u128 {
        self.open + self.unclaimed
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Queue {
    pub ids: Vec<u64>,
    pub placed_total: U,
    pub swapped_total: U,
    pub cancelled_total: U,
    pub cancels: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AuthMsg {
    TransferAdmin(String),
    CancelAdminTransfer,
    RejectAdminTransfer,
    ClaimAdmin,
    RenounceAdminship,
    OfferModerator(String),
    RejectModeratorOffer,
    ClaimModerator,
    SetActive(bool),
    SetMakerFee(u128),
    SetMakerFeeRecipient(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum SudoMsg {
    TransferAdmin(String),
    RemoveAdmin,
    SetActive(bool),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Place {
        sender: String,
        tick: i64,
        bid: bool,
        qty: u128,
        bounty: Option<u128>,
        funds: Vec<(String, u128)>,
    },
    Cancel {
        sender: String,
        tick: i64,
        id: u64,
        funds: Vec<(String, u128)>,
    },
    Claim {
        sender: String,
        tick: i64,
        id: u64,
        funds: Vec<(String, u128)>,
    },
    Batch {
        sender: String,
        list: Vec<(i64, u64)>,
        funds: Vec<(String, u128)>,
    },
    Swap {
        sender: String,
        tin: String,
        amount: u128,
        tout: String,
        min_out: u128,
        fee: u128,
        limit: Option<i64>,
    },
    Auth {
        sender: String,
        msg: AuthMsg,
    },
    Sudo(SudoMsg),
    Advance(u64),
    Migrate,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Place,
    Cancel,
    Claim,
    Batch,
    Swap,
    Auth,
    Sudo,
    Other,
}
impl Act {
    pub fn kind(&self) -> Kind {
        match self {
            Act::Place { .. } => Kind::Place,
            Act::Cancel { .. } => Kind::Cancel,
            Act::Claim { .. } => Kind::Claim,
            Act::Batch { .. } => Kind::Batch,
            Act::Swap { .. } => Kind::Swap,
            Act::Auth { .. } => Kind::Auth,
            Act::Sudo(_) => Kind::Sudo,
            _ => Kind::Other,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Why {
    Inactive,
    BadTick,
    BadQuantity,
    BadBounty,
    BadFunds,
    NotFound,
    NotOwner,
    Filled,
    NothingFilled,
    TooMany,
    BadFee,
    BadDenoms,
    ZeroInput,
    BadLimit,
    NoLiquidity,
    MinOut,
    ZeroOutput,
    Unauthorized,
    BadAddress,
    FeeTooHigh,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fill {
    pub tick: i64,
    pub amount: u128,
    pub charge: u128,
    /// tick emptied by the fill
    pub emptied: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SwapPlan {
    pub sell_base: bool,
    pub input: u128,
    pub out: u128,
    pub fills: Vec<Fill>,
    pub refund: u128,
    pub dust: u128,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ClaimPlan {
    pub id: u64,
    pub filled: u128,
    pub value: u128,
    pub bounty: u128,
    pub fee: u128,
    pub to_owner: u128,
    pub remaining: u128,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Effects {
    /// payments: (recipient, denom, amount)
    pub pays: Vec<(String, String, u128)>,
    pub placed: Option<u64>,
    pub cancelled: Option<(u64, u128)>,
    pub claims: Vec<ClaimPlan>,
    pub swap: Option<SwapPlan>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub orders: Vec<Order>,
    pub queues: BTreeMap<(i64, bool), Queue>,
    pub next_bid: i64,
    pub next_ask: i64,
    pub active: bool,
    pub fee: u128,
    pub recipient: String,
    pub admin: Option<String>,
    pub admin_offer: Option<String>,
    pub moderator: Option<String>,
    pub moderator_offer: Option<String>,
    /// exact rounding gains kept by the contract, per denom, in units of 10^-18
    pub kept: BTreeMap<String, U>,
}

pub fn valid_addr(a: &str) -> bool {
    // MockApi's rule: 3..=90 characters, lower case
    a.len() >= 3 && a.len() <= 90 && a.to_lowercase() == a
}

impl Model {
    pub fn new() -> Self {
        Model {
            orders: vec![],
            queues: BTreeMap::new(),
            next_bid: MIN_TICK,
            next_ask: MAX_TICK,
            active: true,
            fee: 0,
            recipient: FEE_DEFAULT.into(),
            admin: Some(GOV.into()),
            admin_offer: None,
            moderator: Some(BREAKER.into()),
            moderator_offer: None,
            kept: BTreeMap::new(),
        }
    }

    pub fn order(&self, tick: i64, id: u64) -> Option<&Order> {
        self.orders.get(id as usize).filter(|o| o.live && o.tick == tick)
    }
    pub fn live(&self) -> impl Iterator<Item = &Order> {
        self.orders.iter().filter(|o| o.live)
    }
    pub fn open_at(&self, tick: i64, bid: bool) -> u128 {
        self.queues
            .get(&(tick, bid))
            .map_or(0, |q| q.ids.iter().map(|i| self.orders[*i as usize].open).sum())
    }
    pub fn open_total(&self, bid: bool) -> u128 {
        self.live().filter(|o| o.bid == bid).map(|o| o.open).sum()
    }
    /// Ticks with open liquidity on a side, best price first.
    pub fn liquid(&self, bid: bool) -> Vec<(i64, u128)> {
        let mut m: BTreeMap<i64, u128> = BTreeMap::new();
        for o in self.live().filter(|o| o.bid == bid && o.open > 0) {
            *m.entry(o.tick).or_insert(0) += o.open;
        }
        let mut v: Vec<_> = m.into_iter().collect();
        if bid {
            v.reverse();
        }
        v
    }
    pub fn ticks(&self) -> Vec<i64> {
        let mut v: Vec<i64> = self.queues.keys().map(|k| k.0).collect();
        v.dedup();
        v
    }
    fn keep(&mut self, denom: &str, x: U) {
        let e = self.kept.entry(denom.to_string()).or_insert(u(0));
        *e = *e + x;
    }

    pub fn plan_swap(
        &self,
        sell_base: bool,
        amount: u128,
        limit: Option<i64>,
    ) -> Result<SwapPlan, Why> {
        if amount == 0 {
            return Err(Why::ZeroInput);
        }
        let end = if sell_base { MIN_TICK } else { MAX_TICK };
        let bound = limit.unwrap_or(end);
        if !(MIN_TICK..=MAX_TICK).contains(&bound) {
            return Err(Why::BadLimit);
        }
        if sell_base && bound > self.next_bid || !sell_base && bound < self.next_ask {
            return Err(Why::BadLimit);
        }
        let mut rest = amount;
        let mut plan = SwapPlan {
            sell_base,
            input: amount,
            out: 0,
            fills: vec![],
            refund: 0,
            dust: 0,
        };
        let mut last = E18;
        let mut dusted = false;
        for (tick, liq) in self.liquid(sell_base) {
            if sell_base && tick < bound || !sell_base && tick > bound {
                break;
            }
            let p = price(tick);
            last = p;
            let can = if sell_base {
                mul_price(rest, p, Round::Down)
            } else {
                div_price(rest, p, Round::Down)
            };
            if can == u(0) {
                plan.dust = rest;
                rest = 0;
                dusted = true;
                break;
            }
            let amount = if can < u(liq) { to_u128(can).unwrap() } else { liq };
            let charge = if sell_base {
                div_price(amount, p, Round::Up)
            } else {
                mul_price(amount, p, Round::Up)
            };
            let charge = to_u128(charge).unwrap();
            rest = rest.checked_sub(charge).expect("model: charge beyond input");
            plan.out += amount;
            plan.fills.push(Fill {
                tick,
                amount,
                charge,
                emptied: amount == liq,
            });
        }
        if !dusted {
            let value = if sell_base {
                mul_price(rest, last, Round::Down)
            } else {
                div_price(rest, last, Round::Down)
            };
            if value != u(0) && bound == end {
                return Err(Why::NoLiquidity);
            }
            plan.refund = rest;
        }
        Ok(plan)
    }

    fn apply_fill(&mut self, f: &Fill, sell_base: bool) {
        let q = self.queues.get_mut(&(f.tick, sell_base)).unwrap();
        q.swapped_total = q.swapped_total + u(f.amount);
        let ids = q.ids.clone();
        let mut left = f.amount;
        for id in ids {
            if left == 0 {
                break;
            }
            let o = &mut self.orders[id as usize];
            let t = o.open.min(left);
            o.open -= t;
            o.unclaimed += t;
            left -= t;
        }
        assert_eq!(left, 0);
        // forget exhausted prefix entries that are gone
        let orders = &self.orders;
        self.queues
            .get_mut(&(f.tick, sell_base))
            .unwrap()
            .ids
            .retain(|i| orders[*i as usize].open > 0);
    }

    pub fn plan_claim(&self, tick: i64, id: u64) -> Result<ClaimPlan, Why> {
        let o = self.order(tick, id).ok_or(Why::NotFound)?;
        if o.unclaimed == 0 {
            return Err(Why::NothingFilled);
        }
        let p = price(tick);
        let v = if o.bid {
            div_price(o.unclaimed, p, Round::Down)
        } else {
            mul_price(o.unclaimed, p, Round::Down)
        };
        let v = to_u128(v).expect("model: claim value beyond supply");
        let bounty = share(v, o.bounty.unwrap_or(0));
        let fee = share(v, self.fee);
        Ok(ClaimPlan {
            id,
            filled: o.unclaimed,
            value: v,
            bounty,
            fee,
            to_owner: v - bounty - fee,
            remaining: o.open,
        })
    }

    fn do_claim(&mut self, sender: &str, tick: i64, id: u64, e: &mut Effects) -> Result<(), Why> {
        let c = self.plan_claim(tick, id)?;
        let o = &mut self.orders[id as usize];
        let d = if o.bid { BASE } else { QUOTE };
        o.claimed = o.claimed + u(c.filled);
        o.unclaimed = 0;
        o.claims += 1;
        if o.open == 0 {
            o.live = false;
        }
        let (bid, owner) = (o.bid, o.owner.clone());
        for (to, n) in [(owner.as_str(), c.to_owner), (sender, c.bounty)] {
            if n > 0 {
                e.pays.push((to.to_string(), d.to_string(), n));
            }
        }
        if c.fee > 0 {
            e.pays.push((self.recipient.clone(), d.to_string(), c.fee));
            if self.recipient == crate::chain::CONTRACT {
                self.keep(d, u(c.fee) * u(E18));
            }
        }
        // exact value minus what is paid out
        let p = price(tick);
        let exact = if bid {
            // quote filled / p, in 1e-18 units rounded up (upper bound of the remainder)
            div(u(c.filled) * u(E18) * u(E18), u(p), Round::Up)
        } else {
            u(c.filled) * u(p)
        };
        self.keep(d, exact - u(c.value) * u(E18));
        e.claims.push(c);
        Ok(())
    }

    fn is_admin(&self, s: &str) -> bool {
        self.admin.as_deref() == Some(s)
    }

    pub fn apply(&mut self, act: &Act, now: u64) -> Result<Effects, Why> {
        let mut e = Effects::default();
        let gated = matches!(
            act.kind(),
            Kind::Place | Kind::Cancel | Kind::Claim | Kind::Batch | Kind::Swap
        );
        if gated && !self.active {
            return Err(Why::Inactive);
        }
        match act {
            Act::Place {
                sender,
                tick,
                bid,
                qty,
                bounty,
                funds,
            } => {
                if !(MIN_TICK..=MAX_TICK).contains(tick) {
                    return Err(Why::BadTick);
                }
                if *qty == 0 {
                    return Err(Why::BadQuantity);
                }
                if bounty.unwrap_or(0) > MAX_BOUNTY {
                    return Err(Why::BadBounty);
                }
                let funds: Vec<_> = funds.iter().filter(|f| f.1 > 0).collect();
                let denom = if *bid { QUOTE } else { BASE };
                if funds.len() != 1 || funds[0].0 != denom || funds[0].1 != *qty {
                    return Err(Why::BadFunds);
                }
                let id = self.orders.len() as u64;
                let q = self.queues.entry((*tick, *bid)).or_default();
                let start = q.placed_total;
                q.placed_total = q.placed_total + u(*qty);
                q.ids.push(id);
                self.orders.push(Order {
                    id,
                    tick: *tick,
                    bid: *bid,
                    owner: sender.clone(),
                    open: *qty,
                    unclaimed: 0,
                    placed: *qty,
                    claimed: u(0),
                    bounty: *bounty,
                    placed_at: now,
                    start,
                    live: true,
                    behind_cancel: false,
                    claims: 0,
                });
                if *bid {
                    self.next_bid = self.next_bid.max(*tick);
                } else {
                    self.next_ask = self.next_ask.min(*tick);
                }
                e.placed = Some(id);
            }
            Act::Cancel {
                sender,
                tick,
                id,
                funds,
            } => {
                if funds.iter().any(|f| f.1 > 0) {
                    return Err(Why::BadFunds);
                }
                let o = self.order(*tick, *id).ok_or(Why::NotFound)?.clone();
                if o.owner != *sender {
                    return Err(Why::NotOwner);
                }
                if o.unclaimed > 0 {
                    return Err(Why::Filled);
                }
                let q = self.queues.get_mut(&(o.tick, o.bid)).unwrap();
                q.ids.retain(|i| i != id);
                q.cancelled_total = q.cancelled_total + u(o.open);
                q.cancels += 1;
                for i in q.ids.iter().filter(|i| *i > id) {
                    self.orders[*i as usize].behind_cancel = true;
                }
                let m = &mut self.orders[*id as usize];
                m.live = false;
                m.open = 0;
                let d = if o.bid { QUOTE } else { BASE };
                e.pays.push((o.owner.clone(), d.into(), o.open));
                e.cancelled = Some((*id, o.open));
            }
            Act::Claim {
                sender,
                tick,
                id,
                funds,
            } => {
                if funds.iter().any(|f| f.1 > 0) {
                    return Err(Why::BadFunds);
                }
                self.do_claim(sender, *tick, *id, &mut e)?;
            }
            Act::Batch {
                sender,
                list,
                funds,
            } => {
                if funds.iter().any(|f| f.1 > 0) {
                    return Err(Why::BadFunds);
                }
                if list.len() > 100 {
                    return Err(Why::TooMany);
                }
                for (t, id) in list {
                    let _ = self.do_claim(sender, *t, *id, &mut e);
                }
            }
            Act::Swap {
                sender,
                tin,
                amount,
                tout,
                min_out,
                fee,
                limit,
            } => {
                if *fee != 0 {
                    return Err(Why::BadFee);
                }
                let sell_base = match (tin.as_str(), tout.as_str()) {
                    (BASE, QUOTE) => true,
                    (QUOTE, BASE) => false,
                    _ => return Err(Why::BadDenoms),
                };
                if !valid_addr(sender) {
                    return Err(Why::BadAddress);
                }
                let plan = self.plan_swap(sell_base, *amount, *limit)?;
                if plan.out < *min_out {
                    return Err(Why::MinOut);
                }
                if plan.out == 0 {
                    return Err(Why::ZeroOutput);
                }
                for f in &plan.fills {
                    self.apply_fill(f, sell_base);
                    let p = price(f.tick);
                    let exact = if sell_base {
                        u(f.amount) * u(E18) * u(E18) / u(p)
                    } else {
                        u(f.amount) * u(p)
                    };
                    self.keep(tin, u(f.charge) * u(E18) - exact);
                }
                self.keep(tin, u(plan.dust) * u(E18));
                let last = plan.fills.last().unwrap().tick;
                if sell_base {
                    self.next_bid = last;
                } else {
                    self.next_ask = last;
                }
                e.pays.push((sender.clone(), tout.clone(), plan.out));
                if plan.refund > 0 {
                    e.pays.push((sender.clone(), tin.clone(), plan.refund));
                }
                e.swap = Some(plan);
            }
            Act::Auth { sender, msg } => self.auth(sender, msg)?,
            Act::Sudo(m) => match m {
                SudoMsg::TransferAdmin(a) => {
                    if !valid_addr(a) {
                        return Err(Why::BadAddress);
                    }
                    self.admin = Some(a.clone());
                }
                SudoMsg::RemoveAdmin => self.admin = None,
                SudoMsg::SetActive(b) => self.active = *b,
            },
            Act::Advance(_) | Act::Migrate => {}
        }
        Ok(e)
    }

    fn auth(&mut self, s: &str, msg: &AuthMsg) -> Result<(), Why> {
        let need = |b: bool| if b { Ok(()) } else { Err(Why::Unauthorized) };
        let addr = |a: &str| if valid_addr(a) { Ok(()) } else { Err(Why::BadAddress) };
        match msg {
            AuthMsg::TransferAdmin(a) => {
                need(self.is_admin(s))?;
                addr(a)?;
                self.admin_offer = Some(a.clone());
            }
            AuthMsg::CancelAdminTransfer => {
                need(self.is_admin(s))?;
                self.admin_offer = None;
            }
            AuthMsg::RejectAdminTransfer => {
                need(self.admin_offer.as_deref() == Some(s))?;
                self.admin_offer = None;
            }
            AuthMsg::ClaimAdmin => {
                need(self.admin_offer.as_deref() == Some(s))?;
                self.admin = Some(s.to_string());
                self.admin_offer = None;
            }
            AuthMsg::RenounceAdminship => {
                need(self.is_admin(s))?;
                self.admin = None;
            }
            AuthMsg::OfferModerator(a) => {
                need(self.is_admin(s))?;
                addr(a)?;
                self.moderator_offer = Some(a.clone());
            }
            AuthMsg::RejectModeratorOffer => {
                need(self.moderator_offer.as_deref() == Some(s))?;
                self.moderator_offer = None;
            }
            AuthMsg::ClaimModerator => {
                need(self.moderator_offer.as_deref() == Some(s))?;
                self.moderator = Some(s.to_string());
                self.moderator_offer = None;
            }
            AuthMsg::SetActive(b) => {
                need(self.is_admin(s) || self.moderator.as_deref() == Some(s))?;
                self.active = *b;
            }
            AuthMsg::SetMakerFee(f) => {
                need(self.is_admin(s))?;
                if *f > MAX_FEE {
                    return Err(Why::FeeTooHigh);
                }
                self.fee = *f;
            }
            AuthMsg::SetMakerFeeRecipient(a) => {
                need(self.is_admin(s))?;
                addr(a)?;
                self.recipient = a.clone();
            }
        }
        Ok(())
    }

    /// What the contract owes: (base, quote), each open deposit plus value of unclaimed fills.
    pub fn owed(&self) -> (u128, u128) {
        let (mut b, mut q) = (0u128, 0u128);
        for o in self.live() {
            if o.bid {
                q += o.open;
            } else {
                b += o.open;
            }
            if o.unclaimed > 0 {
                let v = self.plan_claim(o.tick, o.id).unwrap().value;
                if o.bid {
                    b += v;
                } else {
                    q += v;
                }
            }
        }
        (b, q)
    }
}

/// Decimal string with 18 fractional digits, as Decimal/Decimal256 serialise it.
pub fn dec(atomics: u128) -> String {
    let w = atomics / E18;
    let f = atomics % E18;
    if f == 0 {
        return w.to_string();
    }
    let s = format!("{f:018}");
    format!("{w}.{}", s.trim_end_matches('0'))
}

/// Parses a decimal string into units of 10^-18.
pub fn parse_dec(s: &str) -> Option<U> {
    let (w, f) = match s.split_once('.') {
        Some((w, f)) => (w, f),
        None => (s, ""),
    };
    if w.is_empty() || f.len() > 18 || !w.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut n = u(0);
    for c in w.bytes().chain(f.bytes()).chain(std::iter::repeat(b'0').take(18 - f.len())) {
        n = n.checked_mul(u(10))?.checked_add(u((c - b'0') as u128))?;
    }
    Some(n)
}

/// A decimal string that must be a whole number.
pub fn parse_whole(s: &str) -> Option<u128> {
    let x = parse_dec(s)?;
    if x % u(E18) != u(0) {
        return None;
    }
    to_u128(x / u(E18))
}
pub fn parse_whole_u(s: &str) -> Option<U> {
    let x = parse_dec(s)?;
    if x % u(E18) != u(0) {
        return None;
    }
    Some(x / u(E18))
}
