//! Generated histories: abstract operations that are resolved against the current model state, so that
//! every prefix, subset and shrink of a history is meaningful.
use crate::model::*;
use proptest::prelude::*;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};

/// Traders. Two addresses are prefixes of one another on purpose.
pub const USERS: [&str; 6] = [
    "osmo1aa",
    "osmo1aab",
    "osmo1bob",
    "osmo1carol",
    "osmo1zed",
    "osmo1keeper",
];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SelKind {
    Live,
    Filled,
    Untouched,
    Partial,
    Dead,
    WrongTick,
    Bogus,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sel {
    pub k: SelKind,
    pub n: u16,
}

/// Amount of a swap, relative to the book.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Amt {
    N(u128),
    /// what it takes to consume this many 1/10000 of the side's liquidity, plus a bit
    Part(u16, i8),
    /// exactly the best tick, plus a bit
    Best(i8),
    /// exactly the first k ticks, plus a bit
    Ticks(u8, i8),
    /// exactly the first k orders of the best tick, plus a bit
    Orders(u8, i8),
    /// exactly the first k ticks and what n units cost at the next one (the last one if there is none), plus a bit;
    /// all ticks for k = 255
    Edge(u8, u8, i8),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lim {
    None,
    Tick(u8, i8),
    Best(i32),
    Extreme,
    Raw(i64),
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum MinOut {
    Zero,
    Exact(i8),
    Max,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SwapBad {
    No,
    Fee(u8),
    SameDenom,
    ForeignIn,
    ForeignOut,
    BadSender,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum PlaceBad {
    No,
    NoFunds,
    WrongDenom,
    TooMuch,
    TooLittle,
    TwoCoins,
    ZeroQty,
    TickLow(u8),
    TickHigh(u8),
    TickMin,
    TickMax,
    Bounty(u128),
    Foreign,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pat {
    Front,
    Back,
    EveryOther,
    EveryOtherBack,
    Outside,
    Middle,
    Scatter(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Place {
        u: u8,
        t: u8,
        bid: bool,
        q: u128,
        b: Option<u128>,
        bad: PlaceBad,
    },
    Cancel {
        other: Option<u8>,
        s: Sel,
        coins: bool,
    },
    Claim {
        by: Option<u8>,
        s: Sel,
        coins: bool,
    },
    Batch {
        #[serde(default)]
        coins: bool,
        u: u8,
        list: Vec<Sel>,
    },
    Swap {
        u: u8,
        sell: bool,
        a: Amt,
        lim: Lim,
        min: MinOut,
        bad: SwapBad,
    },
    MassPlace {
        u: u8,
        t: u8,
        bid: bool,
        n: u8,
        q: u128,
        step: u8,
        #[serde(default)]
        b: Option<u128>,
    },
    MassCancel {
        t: u8,
        bid: bool,
        pat: Pat,
        n: u8,
    },
    MassClaim {
        t: u8,
        bid: bool,
        pat: Pat,
        n: u8,
    },
    /// one order on each of n ticks, going away from the tick on the worse side (step may be negative)
    Ladder {
        u: u8,
        t: u8,
        bid: bool,
        n: u16,
        step: i32,
        q: u128,
        vary: u8,
    },
    /// cancels untouched orders of a side all over the book
    SideCancel {
        bid: bool,
        pat: Pat,
        n: u16,
    },
    SideClaim {
        bid: bool,
        pat: Pat,
        n: u16,
    },
    Auth {
        who: Who,
        m: AOp,
    },
    Sudo(SOp),
    Pause(bool),
    Fee(u128),
    Recipient(u8),
    Advance(u32),
    Migrate,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Who {
    Admin,
    Moderator,
    AdminOffered,
    ModOffered,
    Gov,
    User(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AOp {
    TransferAdmin(u8),
    CancelAdminTransfer,
    RejectAdminTransfer,
    ClaimAdmin,
    Renounce,
    OfferModerator(u8),
    RejectModerator,
    ClaimModerator,
    SetActive(bool),
    SetFee(u128),
    SetRecipient(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SOp {
    TransferAdmin(u8),
    RemoveAdmin,
    SetActive(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub ticks: Vec<i64>,
    pub ops: Vec<Op>,
}

pub fn user(u: u8) -> String {
    match u {
        250 => GOV.to_string(),
        251 => BREAKER.to_string(),
        252 => FEE_DEFAULT.to_string(),
        _ => USERS[u as usize % USERS.len()].to_string(),
    }
}
/// Somebody who sends an order book message: a trader, the current admin or moderator, or one of the
/// addresses the contract starts with.
pub fn party(m: &Model, u: u8) -> String {
    match u {
        // the book itself may be the fee recipient, but sends no messages
        253 if m.recipient != crate::chain::CONTRACT => m.recipient.clone(),
        253 => user(4),
        254 => who(m, Who::Admin),
        255 => who(m, Who::Moderator),
        _ => user(u),
    }
}
/// A trader below n most of the time.
pub fn acct(n: u8) -> BoxedStrategy<u8> {
    prop_oneof![24 => 0..n, 1 => 250u8..=255].boxed()
}
/// addresses for role messages; some are invalid
pub fn role_addr(u: u8) -> String {
    if u == 10 {
        return crate::chain::CONTRACT.into();
    }
    match u % 10 {
        8 => "Osmo1UPPER".into(),
        9 => "x".into(),
        6 => GOV.into(),
        7 => BREAKER.into(),
        n => USERS[n as usize % USERS.len()].into(),
    }
}
pub fn who(m: &Model, w: Who) -> String {
    match w {
        Who::Admin => m.admin.clone().unwrap_or_else(|| user(4)),
        Who::Moderator => m.moderator.clone().unwrap_or_else(|| user(4)),
        Who::AdminOffered => m.admin_offer.clone().unwrap_or_else(|| user(3)),
        Who::ModOffered => m.moderator_offer.clone().unwrap_or_else(|| user(3)),
        Who::Gov => GOV.into(),
        Who::User(u) => user(u),
    }
}

pub fn pick_order(m: &Model, s: Sel) -> Option<(i64, u64)> {
    let f: Vec<&Order> = match s.k {
        SelKind::Live => m.live().collect(),
        SelKind::Filled => m.live().filter(|o| o.unclaimed > 0).collect(),
        SelKind::Untouched => m.live().filter(|o| o.unclaimed == 0).collect(),
        SelKind::Partial => m
            .live()
            .filter(|o| o.open > 0 && o.quantity() < o.placed || o.unclaimed > 0 && o.open > 0)
            .collect(),
        SelKind::Dead => m.orders.iter().filter(|o| !o.live).collect(),
        SelKind::WrongTick => m.live().collect(),
        SelKind::Bogus => vec![],
    };
    if f.is_empty() {
        return None;
    }
    let o = f[s.n as usize % f.len()];
    match s.k {
        SelKind::WrongTick => {
            let t = m.ticks();
            let other = t.iter().find(|x| **x != o.tick).copied().unwrap_or(o.tick ^ 1);
            Some((other, o.id))
        }
        _ => Some((o.tick, o.id)),
    }
}
fn sel(m: &Model, s: Sel, ticks: &[i64]) -> (i64, u64) {
    if let Some(x) = pick_order(m, s) {
        return x;
    }
    if s.k != SelKind::Bogus {
        if let Some(x) = pick_order(
            m,
            Sel {
                k: SelKind::Live,
                n: s.n,
            },
        ) {
            return x;
        }
    }
    let t = ticks[s.n as usize % ticks.len()];
    match s.n % 4 {
        0 => (t, m.orders.len() as u64),
        1 => (t + 1, s.n as u64),
        2 => (t, u64::MAX),
        _ => (i64::MIN + s.n as i64, s.n as u64),
    }
}

/// Input needed to take exactly `out` from the side's best ticks.
pub fn input_for(m: &Model, sell: bool, mut out: u128) -> u128 {
    let mut inp: u128 = 0;
    for (t, liq) in m.liquid(sell) {
        if out == 0 {
            break;
        }
        let x = out.min(liq);
        out -= x;
        let p = price(t);
        let c = if sell {
            div_price(x, p, Round::Up)
        } else {
            mul_price(x, p, Round::Up)
        };
        inp = inp.saturating_add(to_u128(c).unwrap_or(u128::MAX));
    }
    inp
}
fn nudge(x: u128, d: i8) -> u128 {
    if d >= 0 {
        x.saturating_add(d as u128)
    } else {
        x.saturating_sub(d.unsigned_abs() as u128)
    }
}

pub fn swap_amount(m: &Model, sell: bool, a: Amt) -> u128 {
    let l = m.liquid(sell);
    let total: u128 = l.iter().map(|x| x.1).sum();
    match a {
        Amt::N(n) => n,
        Amt::Part(p, d) => {
            let out = to_u128(u(total) * u(p as u128) / u(10_000)).unwrap();
            nudge(input_for(m, sell, out.max(1)), d)
        }
        Amt::Best(d) => nudge(input_for(m, sell, l.first().map_or(1, |x| x.1)), d),
        Amt::Ticks(k, d) => {
            let k = 1 + k as usize % l.len().max(1);
            let out: u128 = l.iter().take(k).map(|x| x.1).sum();
            nudge(input_for(m, sell, out.max(1)), d)
        }
        Amt::Edge(k, n, d) => {
            let k = if k == u8::MAX { l.len() } else { 1 + k as usize % l.len().max(1) };
            let Some(next) = l.get(k).or(l.last()) else { return 1 + n as u128 };
            let out: u128 = l.iter().take(k).map(|x| x.1).sum();
            let p = price(next.0);
            let c = if sell { div_price(n as u128, p, Round::Up) } else { mul_price(n as u128, p, Round::Up) };
            nudge(input_for(m, sell, out).saturating_add(to_u128(c).unwrap_or(u128::MAX)), d)
        }
        Amt::Orders(k, d) => {
            let Some(best) = l.first() else { return 1 };
            let q: Vec<u128> = m
                .live()
                .filter(|o| o.tick == best.0 && o.bid == sell && o.open > 0)
                .map(|o| o.open)
                .collect();
            let k = 1 + k as usize % q.len();
            let out: u128 = q.iter().take(k).sum();
            nudge(input_for(m, sell, out), d)
        }
    }
}

fn pattern(ids: Vec<(i64, u64)>, pat: Pat, n: usize) -> Vec<(i64, u64)> {
    let len = ids.len();
    let v: Vec<(i64, u64)> = match pat {
        Pat::Front => ids,
        Pat::Back => ids.into_iter().rev().collect(),
        Pat::EveryOther => ids.into_iter().step_by(2).collect(),
        Pat::EveryOtherBack => ids.into_iter().rev().step_by(2).collect(),
        Pat::Outside => {
            let mut v = vec![];
            for i in 0..len.div_ceil(2) {
                v.push(ids[i]);
                if len - 1 - i != i {
                    v.push(ids[len - 1 - i]);
                }
            }
            v
        }
        Pat::Middle => {
            let mut v = vec![];
            let mid = len / 2;
            for i in 0..len {
                let j = if i % 2 == 0 {
                    mid.checked_add(i / 2)
                } else {
                    mid.checked_sub(i / 2 + 1)
                };
                if let Some(j) = j {
                    if j < len {
                        v.push(ids[j]);
                    }
                }
            }
            v
        }
        Pat::Scatter(s) => {
            // fixed permutation from a seed, no RNG: multiplicative step through the list
            let mut rest = ids;
            let mut v = vec![];
            let mut x = s as usize + 1;
            while !rest.is_empty() {
                x = x.wrapping_mul(2654435761).wrapping_add(12345);
                let i = (x >> 7) % rest.len();
                v.push(rest.remove(i));
            }
            v
        }
    };
    v.into_iter().take(n).collect()
}

impl Case {
    pub fn tick(&self, t: u8) -> i64 {
        self.ticks[t as usize % self.ticks.len()]
    }

    /// The concrete acts an operation stands for in the current state.
    pub fn resolve(&self, op: &Op, m: &Model) -> Vec<Act> {
        match op {
            Op::Place {
                u,
                t,
                bid,
                q,
                b,
                bad,
            } => {
                let mut tick = self.tick(*t);
                let (d, other) = if *bid { (QUOTE, BASE) } else { (BASE, QUOTE) };
                let mut q = *q;
                let mut b = *b;
                let mut funds = vec![(d.to_string(), q)];
                match bad {
                    PlaceBad::No => {}
                    PlaceBad::NoFunds => funds.clear(),
                    PlaceBad::WrongDenom => funds[0].0 = other.into(),
                    PlaceBad::Foreign => funds[0].0 = "uother".into(),
                    PlaceBad::TooMuch => funds[0].1 = q.saturating_add(1),
                    PlaceBad::TooLittle => funds[0].1 = q.saturating_sub(1),
                    PlaceBad::TwoCoins => funds.push((other.into(), 1)),
                    PlaceBad::ZeroQty => {
                        q = 0;
                    }
                    PlaceBad::TickLow(n) => tick = MIN_TICK - 1 - *n as i64,
                    PlaceBad::TickHigh(n) => tick = MAX_TICK + 1 + *n as i64,
                    PlaceBad::TickMin => tick = i64::MIN,
                    PlaceBad::TickMax => tick = i64::MAX,
                    PlaceBad::Bounty(x) => b = Some(*x),
                }
                vec![Act::Place {
                    sender: party(m, *u),
                    tick,
                    bid: *bid,
                    qty: q,
                    bounty: b,
                    funds,
                }]
            }
            Op::Cancel { other, s, coins } => {
                let (tick, id) = sel(m, *s, &self.ticks);
                let owner = m.orders.get(id as usize).map(|o| o.owner.clone());
                let sender = match other {
                    Some(x) => party(m, *x),
                    None => owner.unwrap_or_else(|| user(0)),
                };
                vec![Act::Cancel {
                    sender,
                    tick,
                    id,
                    funds: if *coins { vec![(BASE.into(), 1)] } else { vec![] },
                }]
            }
            Op::Claim { by, s, coins } => {
                let (tick, id) = sel(m, *s, &self.ticks);
                let owner = m.orders.get(id as usize).map(|o| o.owner.clone());
                let sender = match by {
                    Some(x) => party(m, *x),
                    None => owner.unwrap_or_else(|| user(0)),
                };
                vec![Act::Claim {
                    sender,
                    tick,
                    id,
                    funds: if *coins { vec![(QUOTE.into(), 1)] } else { vec![] },
                }]
            }
            Op::Batch { u, list, coins } => vec![Act::Batch {
                sender: party(m, *u),
                list: list.iter().map(|s| sel(m, *s, &self.ticks)).collect(),
                funds: if *coins { vec![([BASE, QUOTE, "uother"][list.len() % 3].into(), 1 + *u as u128)] } else { vec![] },
            }],
            Op::Swap {
                u: us,
                sell,
                a,
                lim,
                min,
                bad,
            } => {
                let amount = swap_amount(m, *sell, *a);
                let ptr = if *sell { m.next_bid } else { m.next_ask };
                let limit = match lim {
                    Lim::None => None,
                    Lim::Tick(t, d) => Some(self.tick(*t).saturating_add(*d as i64)),
                    Lim::Best(d) => Some(ptr.saturating_add(if *sell { -*d } else { *d } as i64)),
                    Lim::Extreme => Some(if *sell { MIN_TICK } else { MAX_TICK }),
                    Lim::Raw(n) => Some(*n),
                };
                let out = m.plan_swap(*sell, amount, limit).map_or(0, |p| p.out);
                let min_out = match min {
                    MinOut::Zero => 0,
                    MinOut::Exact(d) => nudge(out, *d),
                    MinOut::Max => u128::MAX,
                };
                let (mut tin, mut tout) = if *sell { (BASE, QUOTE) } else { (QUOTE, BASE) };
                let mut fee = 0;
                let mut sender = party(m, *us);
                let mut amount = amount;
                match bad {
                    SwapBad::No => {}
                    SwapBad::Fee(n) => fee = 1 + *n as u128,
                    SwapBad::SameDenom => tout = tin,
                    SwapBad::ForeignIn => {
                        tin = "uother";
                        amount = amount.min(1_000_000);
                    }
                    SwapBad::ForeignOut => tout = "uother",
                    SwapBad::BadSender => sender = "Osmo1UPPER".into(),
                }
                vec![Act::Swap {
                    sender,
                    tin: tin.into(),
                    amount,
                    tout: tout.into(),
                    min_out,
                    fee,
                    limit,
                }]
            }
            Op::MassPlace {
                u,
                t,
                bid,
                n,
                q,
                step,
                b,
            } => (0..*n as u128)
                .map(|i| {
                    let qty = (*q).max(1).saturating_add((i * *step as u128) % 17);
                    let d = if *bid { QUOTE } else { BASE };
                    Act::Place {
                        sender: user(u.wrapping_add((i % 3) as u8)),
                        tick: self.tick(*t),
                        bid: *bid,
                        qty,
                        bounty: *b,
                        funds: vec![(d.into(), qty)],
                    }
                })
                .collect(),
            Op::MassCancel { t, bid, pat, n } => {
                let tick = self.tick(*t);
                let ids = m
                    .live()
                    .filter(|o| o.tick == tick && o.bid == *bid && o.unclaimed == 0)
                    .map(|o| (o.tick, o.id))
                    .collect();
                pattern(ids, *pat, *n as usize)
                    .into_iter()
                    .map(|(tick, id)| Act::Cancel {
                        sender: m.orders[id as usize].owner.clone(),
                        tick,
                        id,
                        funds: vec![],
                    })
                    .collect()
            }
            Op::MassClaim { t, bid, pat, n } => {
                let tick = self.tick(*t);
                let ids = m
                    .live()
                    .filter(|o| o.tick == tick && o.bid == *bid && o.unclaimed > 0)
                    .map(|o| (o.tick, o.id))
                    .collect();
                pattern(ids, *pat, *n as usize)
                    .into_iter()
                    .map(|(tick, id)| Act::Claim {
                        sender: m.orders[id as usize].owner.clone(),
                        tick,
                        id,
                        funds: vec![],
                    })
                    .collect()
            }
            Op::Ladder { u, t, bid, n, step, q, vary } => {
                let d = if *bid { QUOTE } else { BASE };
                let step = if *bid { -(*step as i64) } else { *step as i64 };
                (0..*n as i64)
                    .map(|i| (i, self.tick(*t).saturating_add(i * step)))
                    .filter(|x| (MIN_TICK..=MAX_TICK).contains(&x.1))
                    .map(|(i, tick)| {
                        let qty = (*q).max(1).saturating_add((i as u128 * *vary as u128) % 17);
                        Act::Place {
                            sender: user(u.wrapping_add((i % 3) as u8)),
                            tick,
                            bid: *bid,
                            qty,
                            bounty: None,
                            funds: vec![(d.into(), qty)],
                        }
                    })
                    .collect()
            }
            Op::SideCancel { bid, pat, n } => {
                let ids = m.live().filter(|o| o.bid == *bid && o.unclaimed == 0).map(|o| (o.tick, o.id)).collect();
                pattern(ids, *pat, *n as usize)
                    .into_iter()
                    .map(|(tick, id)| Act::Cancel {
                        sender: m.orders[id as usize].owner.clone(),
                        tick,
                        id,
                        funds: vec![],
                    })
                    .collect()
            }
            Op::SideClaim { bid, pat, n } => {
                let ids = m.live().filter(|o| o.bid == *bid && o.unclaimed > 0).map(|o| (o.tick, o.id)).collect();
                pattern(ids, *pat, *n as usize)
                    .into_iter()
                    .map(|(tick, id)| Act::Claim {
                        sender: m.orders[id as usize].owner.clone(),
                        tick,
                        id,
                        funds: vec![],
                    })
                    .collect()
            }
            Op::Auth { who: wh, m: a } => {
                let msg = match a {
                    AOp::TransferAdmin(x) => AuthMsg::TransferAdmin(role_addr(*x)),
                    AOp::CancelAdminTransfer => AuthMsg::CancelAdminTransfer,
                    AOp::RejectAdminTransfer => AuthMsg::RejectAdminTransfer,
                    AOp::ClaimAdmin => AuthMsg::ClaimAdmin,
                    AOp::Renounce => AuthMsg::RenounceAdminship,
                    AOp::OfferModerator(x) => AuthMsg::OfferModerator(role_addr(*x)),
                    AOp::RejectModerator => AuthMsg::RejectModeratorOffer,
                    AOp::ClaimModerator => AuthMsg::ClaimModerator,
                    AOp::SetActive(b) => AuthMsg::SetActive(*b),
                    AOp::SetFee(f) => AuthMsg::SetMakerFee(*f),
                    AOp::SetRecipient(x) => AuthMsg::SetMakerFeeRecipient(role_addr(*x)),
                };
                vec![Act::Auth {
                    sender: who(m, *wh),
                    msg,
                }]
            }
            Op::Sudo(s) => vec![Act::Sudo(match s {
                SOp::TransferAdmin(x) => SudoMsg::TransferAdmin(role_addr(*x)),
                SOp::RemoveAdmin => SudoMsg::RemoveAdmin,
                SOp::SetActive(b) => SudoMsg::SetActive(*b),
            })],
            Op::Pause(b) => vec![Act::Auth {
                sender: who(m, Who::Moderator),
                msg: AuthMsg::SetActive(!*b),
            }],
            Op::Fee(f) => vec![Act::Auth {
                sender: who(m, Who::Admin),
                msg: AuthMsg::SetMakerFee(*f),
            }],
            Op::Recipient(x) => vec![Act::Auth {
                sender: who(m, Who::Admin),
                msg: AuthMsg::SetMakerFeeRecipient(user(*x)),
            }],
            Op::Advance(n) => vec![Act::Advance(*n as u64 * if *n > 100_000_000 { 20_000_003 } else { 1_000_003 })],
            Op::Migrate => vec![Act::Migrate],
        }
    }
}

// ---------------------------------------------------------------- strategies

#[derive(Clone, Debug)]
pub struct Cfg {
    pub ops: std::ops::Range<usize>,
    pub ticks: TickStyle,
    pub max_ticks: usize,
    pub place: u32,
    pub cancel: u32,
    pub claim: u32,
    pub batch: u32,
    pub swap: u32,
    pub mass: u32,
    pub auth: u32,
    pub sudo: u32,
    pub pause: u32,
    pub fee: u32,
    pub advance: u32,
    pub migrate: u32,
    /// weight of invalid placements and swaps against 20 valid ones
    pub bad: u32,
    /// swaps with limit ticks and minimum outputs
    pub guards: u32,
    pub bounty: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TickStyle {
    /// anything
    Any,
    /// only tick 0 (price one)
    One,
    /// prices between 1/10 and 10, so that quantities mean similar values
    Near,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            ops: 4..60,
            ticks: TickStyle::Any,
            max_ticks: 5,
            place: 30,
            cancel: 14,
            claim: 14,
            batch: 2,
            swap: 22,
            mass: 3,
            auth: 0,
            sudo: 0,
            pause: 0,
            fee: 1,
            advance: 2,
            migrate: 0,
            bad: 1,
            guards: 4,
            bounty: 6,
        }
    }
}

pub fn any_tick() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => -40i64..40,
        3 => (-12i64..=20, -3i64..=3).prop_map(|(k, d)| (k * DECADE + d).clamp(MIN_TICK, MAX_TICK)),
        2 => prop_oneof![0i64..4, 0i64..3_000_000].prop_map(|d| MIN_TICK + d),
        2 => prop_oneof![0i64..4, 0i64..3_000_000].prop_map(|d| MAX_TICK - d),
        3 => MIN_TICK..=MAX_TICK,
        6 => -9_000_000i64..=9_000_000,
        2 => (-9i64..=9).prop_map(|k| k * 1_000_000),
    ]
    .boxed()
}
pub fn near_tick() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => -30i64..30,
        4 => -9_000_000i64..=9_000_000,
        2 => (-9i64..=9).prop_map(|k| k * 1_000_000),
        1 => Just(0i64),
    ]
    .boxed()
}

pub fn ticks(style: TickStyle, max: usize) -> BoxedStrategy<Vec<i64>> {
    match style {
        TickStyle::One => Just(vec![0]).boxed(),
        TickStyle::Near => (prop::collection::vec(near_tick(), 1..=max), 0u8..16).prop_map(move |(t, k)| mirrored(t, k, max)).boxed(),
        TickStyle::Any => prop_oneof![
            3 => (prop::collection::vec(any_tick(), 1..=max), 0u8..16).prop_map(move |(t, k)| mirrored(t, k, max)),
            3 => (prop::collection::vec(near_tick(), 1..=max), 0u8..16).prop_map(move |(t, k)| mirrored(t, k, max)),
            // neighbours
            2 => (any_tick(), prop::collection::vec(0i64..4, 1..=max))
                .prop_map(|(t, d)| d.into_iter().map(|d| (t + d).clamp(MIN_TICK, MAX_TICK)).collect()),
        ]
        .boxed(),
    }
}
/// Now and then a tick and its mirror image, or ticks that agree in some of their bits or digits.
fn mirrored(mut t: Vec<i64>, k: u8, max: usize) -> Vec<i64> {
    let x = t[0];
    let y = match k {
        0 => -x,
        1 => x + (1 << 16),
        2 => x - (1 << 24),
        3 => x + 9_000_000,
        4 => x.signum() * x.abs() / 10,
        _ => return t,
    };
    if max > 1 && (MIN_TICK..=MAX_TICK).contains(&y) {
        t.truncate(max - 1);
        t.push(y);
    }
    t
}

/// Round numbers and the limits of integer types.
pub fn special() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => (0u32..34, 0u128..3).prop_map(|(k, d)| (10u128.pow(k) + d).saturating_sub(1).max(1)),
        1 => (0u32..31, 1u128..100).prop_map(|(k, m)| 10u128.pow(k) * m),
        3 => (0u32..126, 0u128..3).prop_map(|(k, d)| ((1u128 << k) + d).saturating_sub(1).max(1)),
        1 => prop_oneof![(0u128..3).prop_map(|d| u128::MAX - d), (0u128..3).prop_map(|d| (1u128 << 127) + d - 1)],
        1 => (prop::sample::select(vec![31u32, 32, 53, 63, 64, 96, 120]), 0u128..3).prop_map(|(k, d)| ((1u128 << k) + d).saturating_sub(1)),
    ]
    .boxed()
}

/// Quantities of one case share a magnitude most of the time.
pub fn qty(scale: u8) -> BoxedStrategy<u128> {
    let small = 1u128..30;
    match scale % 5 {
        0 => prop_oneof![24 => small, 1 => special()].boxed(),
        1 => prop_oneof![1 => small, 6 => 1u128..2_000_000, 1 => special()].boxed(),
        2 => prop_oneof![1 => 1u128..2_000_000, 6 => E18..1000 * E18, 1 => special()].boxed(),
        3 => prop_oneof![
            1 => 1u128..30,
            6 => (0u32..110, 1u128..1000).prop_map(|(s, m)| (m << s).max(1)),
            2 => special(),
        ]
        .boxed(),
        _ => prop_oneof![
            3 => (90u32..118, 512u128..1024).prop_map(|(s, m)| m << s),
            1 => Just(u128::MAX / 4),
            2 => 1u128..30,
            1 => special(),
        ]
        .boxed(),
    }
}

pub fn bounty() -> BoxedStrategy<u128> {
    prop_oneof![
        2 => Just(MAX_BOUNTY),
        1 => Just(0u128),
        1 => Just(1u128),
        1 => Just(MAX_BOUNTY - 1),
        4 => 0u128..=MAX_BOUNTY,
        2 => (1u128..=100).prop_map(|k| k * E18 / 10_000),
    ]
    .boxed()
}
fn some_bounty() -> BoxedStrategy<Option<u128>> {
    prop_oneof![3 => Just(None), 2 => bounty().prop_map(Some)].boxed()
}
pub fn fee() -> BoxedStrategy<u128> {
    prop_oneof![
        2 => Just(MAX_FEE),
        2 => Just(0u128),
        1 => Just(1u128),
        1 => Just(MAX_FEE - 1),
        4 => 0u128..=MAX_FEE,
        2 => (1u128..=50).prop_map(|k| k * E18 / 1000),
    ]
    .boxed()
}
pub fn sel_s() -> BoxedStrategy<Sel> {
    let k = prop_oneof![
        6 => Just(SelKind::Live),
        5 => Just(SelKind::Filled),
        4 => Just(SelKind::Untouched),
        3 => Just(SelKind::Partial),
        1 => Just(SelKind::Dead),
        1 => Just(SelKind::WrongTick),
        1 => Just(SelKind::Bogus),
    ];
    (k, 0u16..400).prop_map(|(k, n)| Sel { k, n }).boxed()
}
pub fn cancel_sel() -> BoxedStrategy<Sel> {
    let k = prop_oneof![
        3 => Just(SelKind::Live),
        12 => Just(SelKind::Untouched),
        2 => Just(SelKind::Partial),
        1 => Just(SelKind::Filled),
        1 => Just(SelKind::Dead),
        1 => Just(SelKind::Bogus),
        1 => Just(SelKind::WrongTick),
    ];
    (k, 0u16..400).prop_map(|(k, n)| Sel { k, n }).boxed()
}
pub fn claim_sel() -> BoxedStrategy<Sel> {
    let k = prop_oneof![
        2 => Just(SelKind::Live),
        12 => Just(SelKind::Filled),
        4 => Just(SelKind::Partial),
        1 => Just(SelKind::Untouched),
        1 => Just(SelKind::Dead),
        1 => Just(SelKind::Bogus),
        1 => Just(SelKind::WrongTick),
    ];
    (k, 0u16..400).prop_map(|(k, n)| Sel { k, n }).boxed()
}
pub fn pat() -> BoxedStrategy<Pat> {
    prop_oneof![
        Just(Pat::Front),
        Just(Pat::Back),
        Just(Pat::EveryOther),
        Just(Pat::EveryOtherBack),
        Just(Pat::Outside),
        Just(Pat::Middle),
        (0u16..1000).prop_map(Pat::Scatter),
        (0u16..1000).prop_map(Pat::Scatter),
    ]
    .boxed()
}
pub fn amt(scale: u8) -> BoxedStrategy<Amt> {
    prop_oneof![
        3 => qty(scale).prop_map(Amt::N),
        1 => (0u128..4).prop_map(Amt::N),
        1 => (1u128..3000).prop_map(Amt::N),
        8 => (0u16..=10_000, -1i8..=1).prop_map(|(p, d)| Amt::Part(p, d)),
        3 => (-1i8..=1).prop_map(Amt::Best),
        4 => (0u8..6, -1i8..=1).prop_map(|(k, d)| Amt::Ticks(k, d)),
        4 => (0u8..12, -1i8..=1).prop_map(|(k, d)| Amt::Orders(k, d)),
        3 => (prop_oneof![1 => 0u8..6, 1 => Just(255u8)], prop_oneof![2 => Just(1u8), 1 => 1u8..40], -1i8..=1).prop_map(|(k, n, d)| Amt::Edge(k, n, d)),
    ]
    .boxed()
}

pub fn place_bad() -> BoxedStrategy<PlaceBad> {
    prop_oneof![
        Just(PlaceBad::NoFunds),
        Just(PlaceBad::WrongDenom),
        Just(PlaceBad::TooMuch),
        Just(PlaceBad::TooLittle),
        Just(PlaceBad::TwoCoins),
        Just(PlaceBad::ZeroQty),
        (0u8..3).prop_map(PlaceBad::TickLow),
        (0u8..3).prop_map(PlaceBad::TickHigh),
        Just(PlaceBad::TickMin),
        Just(PlaceBad::TickMax),
        prop_oneof![
            Just(MAX_BOUNTY + 1),
            Just(E18),
            Just(MAX_BOUNTY * 2),
            Just(u128::MAX)
        ]
        .prop_map(PlaceBad::Bounty),
        Just(PlaceBad::Foreign),
    ]
    .boxed()
}

pub fn place(cfg: &Cfg, scale: u8) -> BoxedStrategy<Op> {
    let bad = prop_oneof![
        20 => Just(PlaceBad::No),
        cfg.bad => place_bad(),
    ];
    let b = prop_oneof![
        20 => Just(None),
        cfg.bounty => bounty().prop_map(Some),
    ];
    (acct(5), 0u8..6, any::<bool>(), qty(scale), b, bad)
        .prop_map(|(u, t, bid, q, b, bad)| Op::Place {
            u,
            t,
            bid,
            q,
            b,
            bad,
        })
        .boxed()
}
pub fn swap(cfg: &Cfg, scale: u8) -> BoxedStrategy<Op> {
    let bad = prop_oneof![
        20 => Just(SwapBad::No),
        cfg.bad => prop_oneof![
            (0u8..9).prop_map(SwapBad::Fee),
            Just(SwapBad::SameDenom),
            Just(SwapBad::ForeignIn),
            Just(SwapBad::ForeignOut),
            Just(SwapBad::BadSender)
        ],
    ];
    let lim = prop_oneof![
        10 => Just(Lim::None),
        cfg.guards => prop_oneof![
            6 => (0u8..6, -1i8..=1).prop_map(|(t, d)| Lim::Tick(t, d)),
            3 => (-2i32..5).prop_map(Lim::Best),
            1 => Just(Lim::Extreme),
            1 => prop_oneof![Just(MIN_TICK - 1), Just(MAX_TICK + 1), Just(i64::MIN), Just(i64::MAX)].prop_map(Lim::Raw),
        ],
    ];
    let min = prop_oneof![
        10 => Just(MinOut::Zero),
        cfg.guards => prop_oneof![
            8 => (-1i8..=1).prop_map(MinOut::Exact),
            1 => Just(MinOut::Max),
        ],
    ];
    (acct(6), any::<bool>(), amt(scale), lim, min, bad)
        .prop_map(|(u, sell, a, lim, min, bad)| Op::Swap {
            u,
            sell,
            a,
            lim,
            min,
            bad,
        })
        .boxed()
}

pub fn cancel() -> BoxedStrategy<Op> {
    let other = prop_oneof![12 => Just(None), 1 => prop_oneof![2 => 0u8..6, 1 => 250u8..=255].prop_map(Some)];
    let coins = prop_oneof![25 => Just(false), 1 => Just(true)];
    (other, cancel_sel(), coins)
        .prop_map(|(other, s, coins)| Op::Cancel { other, s, coins })
        .boxed()
}
pub fn claim() -> BoxedStrategy<Op> {
    let by = prop_oneof![2 => Just(None), 1 => prop_oneof![2 => 0u8..6, 1 => 250u8..=255].prop_map(Some)];
    let coins = prop_oneof![25 => Just(false), 1 => Just(true)];
    (by, claim_sel(), coins)
        .prop_map(|(by, s, coins)| Op::Claim { by, s, coins })
        .boxed()
}
/// Neighbouring orders with something to claim, so many of them as a batch takes.
pub fn run_of_filled() -> BoxedStrategy<Vec<Sel>> {
    (0u16..400, prop_oneof![3 => 1u16..30, 2 => 30u16..101, 1 => Just(100u16)], sel_s())
        .prop_map(|(from, n, x)| {
            let mut v: Vec<Sel> = (from..from + n).map(|n| Sel { k: SelKind::Filled, n }).collect();
            if n < 100 && from % 2 == 0 {
                v.insert(from as usize % v.len(), x);
            }
            v
        })
        .boxed()
}
pub fn batch(max: usize) -> BoxedStrategy<Op> {
    (acct(6), prop_oneof![8 => prop::collection::vec(sel_s(), 0..max), 1 => run_of_filled()], prop_oneof![25 => Just(false), 1 => Just(true)])
        .prop_map(|(u, list, coins)| Op::Batch { u, list, coins })
        .boxed()
}
pub fn mass(scale: u8, bounty: bool) -> BoxedStrategy<Op> {
    let t = 0u8..6;
    prop_oneof![
        4 => (0u8..5, t.clone(), any::<bool>(), 1u8..14, qty(scale), 0u8..4, some_bounty())
            .prop_map(move |(u, t, bid, n, q, step, b)| Op::MassPlace { u, t, bid, n, q: q >> 4, step, b: b.filter(|_| bounty) }),
        4 => (t.clone(), any::<bool>(), pat(), 1u8..14)
            .prop_map(|(t, bid, pat, n)| Op::MassCancel { t, bid, pat, n }),
        2 => (t, any::<bool>(), pat(), 1u8..14)
            .prop_map(|(t, bid, pat, n)| Op::MassClaim { t, bid, pat, n }),
    ]
    .boxed()
}
pub fn auth() -> BoxedStrategy<Op> {
    let w = prop_oneof![
        6 => Just(Who::Admin),
        3 => Just(Who::Moderator),
        4 => Just(Who::AdminOffered),
        3 => Just(Who::ModOffered),
        1 => Just(Who::Gov),
        3 => (0u8..6).prop_map(Who::User),
    ];
    let a = prop_oneof![
        4 => (0u8..10).prop_map(AOp::TransferAdmin),
        1 => Just(AOp::CancelAdminTransfer),
        1 => Just(AOp::RejectAdminTransfer),
        4 => Just(AOp::ClaimAdmin),
        1 => Just(AOp::Renounce),
        3 => (0u8..10).prop_map(AOp::OfferModerator),
        1 => Just(AOp::RejectModerator),
        3 => Just(AOp::ClaimModerator),
        3 => any::<bool>().prop_map(AOp::SetActive),
        3 => prop_oneof![3 => fee(), 1 => Just(MAX_FEE + 1), 1 => Just(E18), 1 => Just(u128::MAX)].prop_map(AOp::SetFee),
        2 => (0u8..11).prop_map(AOp::SetRecipient),
    ];
    (w, a).prop_map(|(who, m)| Op::Auth { who, m }).boxed()
}
pub fn sudo() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => (0u8..10).prop_map(SOp::TransferAdmin),
        1 => Just(SOp::RemoveAdmin),
        3 => any::<bool>().prop_map(SOp::SetActive),
    ]
    .prop_map(Op::Sudo)
    .boxed()
}

pub fn op(cfg: &Cfg, scale: u8) -> BoxedStrategy<Op> {
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (cfg.place, place(cfg, scale)),
        (cfg.cancel, cancel()),
        (cfg.claim, claim()),
        (cfg.batch, batch(10)),
        (cfg.swap, swap(cfg, scale)),
        (cfg.mass, mass(scale, cfg.bounty > 0)),
        (cfg.auth, auth()),
        (cfg.sudo, sudo()),
        (cfg.pause, any::<bool>().prop_map(Op::Pause).boxed()),
        (
            cfg.fee,
            prop_oneof![fee().prop_map(Op::Fee), (0u8..6).prop_map(Op::Recipient)].boxed(),
        ),
        (
            cfg.advance,
            // up to years, and zero for the same block
            prop_oneof![2 => Just(0u32), 2 => 1u32..1_000_000, 1 => 1_000_000u32..=u32::MAX].prop_map(Op::Advance).boxed(),
        ),
        (cfg.migrate, Just(Op::Migrate).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    Union::new_weighted(v).boxed()
}

pub fn case(cfg: Cfg) -> BoxedStrategy<Case> {
    (ticks(cfg.ticks, cfg.max_ticks), 0u8..5)
        .prop_flat_map(move |(ticks, scale)| {
            // the same side and tick often enough for queues to build up
            let ops = prop::collection::vec(op(&cfg, scale), cfg.ops.clone());
            (Just(ticks), ops)
        })
        .prop_map(|(ticks, ops)| Case { ticks, ops })
        .boxed()
}

/// Few large histories on one tick: hundreds of orders and cancellations in all patterns.
pub fn deep_case(n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (near_tick(), any::<bool>(), 0u8..3)
        .prop_flat_map(move |(t, bid, scale)| {
            let o = prop_oneof![
                5 => (0u8..5, 1u8..40, qty(scale), 0u8..4).prop_map(move |(u, n, q, step)| Op::MassPlace {
                    u, t: 0, bid, n, q: (q >> 3).max(1), step, b: None }),
                6 => (pat(), 1u8..40).prop_map(move |(pat, n)| Op::MassCancel { t: 0, bid, pat, n }),
                1 => (pat(), 1u8..20).prop_map(move |(pat, n)| Op::MassClaim { t: 0, bid, pat, n }),
                3 => cancel(),
                3 => claim(),
                1 => (acct(6), run_of_filled()).prop_map(|(u, list)| Op::Batch { u, list, coins: false }),
                1 => (0u8..5, qty(scale)).prop_map(move |(u, q)| Op::Place { u, t: 0, bid, q, b: None, bad: PlaceBad::No }),
                4 => (0u8..6, prop_oneof![
                        3 => (0u16..2000, 0i8..=0).prop_map(|(p, d)| Amt::Part(p, d)),
                        2 => (0u8..30, -1i8..=1).prop_map(|(k, d)| Amt::Orders(k, d)),
                    ]).prop_map(move |(u, a)| Op::Swap { u, sell: bid, a, lim: Lim::None, min: MinOut::Zero, bad: SwapBad::No }),
            ];
            (Just(t), prop::collection::vec(o, n.clone()))
        })
        .prop_map(|(t, ops)| Case { ticks: vec![t], ops })
        .boxed()
}

/// One tick with over a thousand orders and over a thousand cancellations.
pub fn huge_case() -> BoxedStrategy<Case> {
    (near_tick(), any::<bool>(), 0u8..3)
        .prop_flat_map(|(t, bid, scale)| {
            let place = move || (0u8..5, 150u8..=255, qty(scale), 0u8..4).prop_map(move |(u, n, q, step)| Op::MassPlace {
                u, t: 0, bid, n, q: (q >> 3).max(1), step, b: None });
            let o = prop_oneof![
                5 => place(),
                9 => (pat(), 100u8..=255).prop_map(move |(pat, n)| Op::MassCancel { t: 0, bid, pat, n }),
                1 => (pat(), 1u8..10).prop_map(move |(pat, n)| Op::MassClaim { t: 0, bid, pat, n }),
                2 => cancel(),
                2 => claim(),
                3 => (0u8..6, prop_oneof![
                        3 => (0u16..1500, 0i8..=0).prop_map(|(p, d)| Amt::Part(p, d)),
                        2 => (0u8..120, -1i8..=1).prop_map(|(k, d)| Amt::Orders(k, d)),
                    ]).prop_map(move |(u, a)| Op::Swap { u, sell: bid, a, lim: Lim::None, min: MinOut::Zero, bad: SwapBad::No }),
            ];
            (Just(t), prop::collection::vec(place(), 3..7), prop::collection::vec(o, 12..36))
        })
        .prop_map(|(t, mut first, ops)| {
            first.extend(ops);
            Case { ticks: vec![t], ops: first }
        })
        .boxed()
}

/// Long queues that are filled and claimed in batches as large as they may be.
pub fn batch_case(n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (ticks(TickStyle::Near, 3), any::<bool>(), 0u8..3)
        .prop_flat_map(move |(t, side, scale)| {
            let bid = prop_oneof![6 => Just(side), 1 => Just(!side)];
            let cfg = Cfg { bounty: 12, bad: 0, ..Cfg::default() };
            let o = prop_oneof![
                8 => (0u8..5, 0u8..3, bid.clone(), 15u8..41, qty(scale), 0u8..4, some_bounty()).prop_map(|(u, t, bid, n, q, step, b)| Op::MassPlace {
                    u, t, bid, n, q: (q >> 3).max(1), step, b }),
                2 => place(&cfg, scale),
                6 => (0u8..6, bid, 1500u16..10_001).prop_map(|(u, sell, p)| Op::Swap {
                    u, sell, a: Amt::Part(p, 0), lim: Lim::None, min: MinOut::Zero, bad: SwapBad::No }),
                6 => (acct(6), run_of_filled()).prop_map(|(u, list)| Op::Batch { u, list, coins: false }),
                2 => batch(110),
                1 => (0u8..3, any::<bool>(), pat(), 1u8..10).prop_map(|(t, bid, pat, n)| Op::MassCancel { t, bid, pat, n }),
                1 => cancel(),
                1 => claim(),
                1 => prop_oneof![fee().prop_map(Op::Fee), (0u8..6).prop_map(Op::Recipient)],
            ];
            (Just(t), prop::collection::vec(o, n.clone()))
        })
        .prop_map(|(ticks, ops)| Case { ticks, ops })
        .boxed()
}

/// Books with hundreds of used ticks, many of them emptied again, and swaps across them.
pub fn wide_case() -> BoxedStrategy<Case> {
    (prop::collection::vec(any_tick(), 1..3), prop::collection::vec(near_tick(), 1..3), any::<bool>(), 0u8..4)
        .prop_flat_map(|(far, near, side, scale)| {
            let step = prop_oneof![
                6 => Just(1i32),
                2 => -3i32..6,
                2 => 10i32..2000,
                1 => 10_000i32..300_000,
                1 => Just(1_000_000i32),
                1 => Just(9_000_000i32),
            ];
            let n = prop_oneof![2 => 1u16..40, 4 => 30u16..180, 2 => 120u16..420];
            // mostly one side, so that a swap has a way to go
            let bid = prop_oneof![5 => Just(side), 1 => Just(!side)];
            let o = prop_oneof![
                5 => (0u8..5, 0u8..4, bid.clone(), n.clone(), step, qty(scale), 0u8..4).prop_map(
                    |(u, t, bid, n, step, q, vary)| Op::Ladder { u, t, bid, n, step, q: (q >> 9).max(1), vary }),
                2 => (bid.clone(), pat(), 1u16..200).prop_map(|(bid, pat, n)| Op::SideCancel { bid, pat, n }),
                2 => (bid.clone(), pat(), 1u16..60).prop_map(|(bid, pat, n)| Op::SideClaim { bid, pat, n }),
                1 => (0u8..5, 0u8..4, any::<bool>(), qty(scale)).prop_map(|(u, t, bid, q)| Op::Place { u, t, bid, q, b: None, bad: PlaceBad::No }),
                6 => (0u8..6, bid,
                    prop_oneof![
                        3 => (0u16..=10_000, -1i8..=1).prop_map(|(p, d)| Amt::Part(p, d)),
                        3 => (any::<u8>(), -1i8..=1).prop_map(|(k, d)| Amt::Ticks(k, d)),
                        2 => (-1i8..=1).prop_map(|d| Amt::Part(10_000, d)),
                        2 => (any::<u8>(), 1u8..4, -1i8..=1).prop_map(|(k, n, d)| Amt::Edge(k, n, d)),
                    ],
                    prop_oneof![
                        4 => Just(Lim::None),
                        1 => (0i32..400).prop_map(Lim::Best),
                        1 => (0i32..9_000_000).prop_map(Lim::Best),
                    ],
                    prop_oneof![5 => Just(MinOut::Zero), 1 => (-1i8..=1).prop_map(MinOut::Exact)],
                ).prop_map(|(u, sell, a, lim, min)| Op::Swap { u, sell, a, lim, min, bad: SwapBad::No }),
            ];
            let ticks: Vec<i64> = far.into_iter().chain(near).collect();
            (Just(ticks), prop::collection::vec(o, 3..14))
        })
        .prop_map(|(ticks, ops)| Case { ticks, ops })
        .boxed()
}
