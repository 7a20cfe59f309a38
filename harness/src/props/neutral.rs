//! What must not matter: surroundings (C29), names (C30), how orders are divided (C31), the unit of the
//! quote denom (C32). One run of the real contract is compared with another run of it.
use super::batch::{nonzero, snapshot};
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The model only chooses what the operations refer to; nothing is compared with it.
pub struct Guide {
    pub w: World,
    pub dead: bool,
}
impl Guide {
    pub fn new() -> Self {
        Guide { w: World::new(0), dead: false }
    }
    /// The act on the first chain. None: it cannot be funded any more.
    pub fn run(&mut self, act: &Act) -> Option<TxRes> {
        if self.dead || !fund(&mut self.w.chain, act) {
            self.dead = true;
            return None;
        }
        self.w.steps += 1;
        let now = self.w.now();
        let r = run_act(&mut self.w.chain, act);
        let m = &mut self.w.model;
        match catch_unwind(AssertUnwindSafe(|| m.apply(act, now))) {
            Ok(Ok(_)) if r.is_ok() => self.w.bump(match act.kind() {
                Kind::Place => "placed",
                Kind::Cancel => "cancelled",
                Kind::Claim | Kind::Batch => "claimed",
                Kind::Swap => "swapped",
                _ => "other",
            }),
            Ok(_) => self.w.bump("refused"),
            Err(_) => self.dead = true,
        }
        Some(r)
    }
}

pub fn short(r: &TxRes) -> String {
    match r {
        Ok(t) => format!("accepted, pays {:?}, data {:?}, events {:?} {:?}", t.pays, t.data.as_ref().map(|d| String::from_utf8_lossy(d).into_owned()), t.attrs, t.events),
        Err(e) => format!("refused ({})", e.text()),
    }
}
pub fn alike(x: &TxRes, y: &TxRes) -> bool {
    match (x, y) {
        (Ok(a), Ok(b)) => a.pays == b.pays && a.data == b.data && a.events == b.events && a.attrs == b.attrs,
        (Err(TxErr::Panic(_)), Err(e)) => matches!(e, TxErr::Panic(_)),
        (Err(_), Err(e)) => !matches!(e, TxErr::Panic(_)),
        _ => false,
    }
}

// ------------------------------------------------------------------ C29

fn untime(v: &mut Value) {
    match v {
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                if k == "placed_at" {
                    *x = Value::Null;
                } else {
                    untime(x);
                }
            }
        }
        Value::Array(l) => l.iter_mut().for_each(untime),
        _ => {}
    }
}

/// Puts the chain into other surroundings. The clock never runs backwards.
fn surround(c: &mut Chain, style: u8, s: u64, given: &mut Bank) {
    let now = c.env.block.time.nanos();
    let (year, day, max) = (31_557_600_000_000_000u64, 86_400_000_000_000u64, u64::MAX - (1 << 40));
    let t = match style % 6 {
        0 => now,
        1 => now.saturating_add(s % 3),
        2 => now.saturating_add(s % 40 * year),
        3 => now.saturating_add(s % (2 * day)),
        4 => (now / 1_000_000_000 + 1 + s % 100_000).saturating_mul(1_000_000_000),
        _ => now.saturating_add(if s % 7 == 0 { s % (100 * year) } else { s % 1_000_000_000 }),
    };
    c.env.block.time = cosmwasm_std::Timestamp::from_nanos(t.min(max));
    c.env.block.height = match s >> 8 & 3 {
        0 => 0,
        1 => s >> 12,
        2 => c.env.block.height,
        _ => u64::MAX / 2 + (s >> 20),
    };
    c.env.block.chain_id = ["osmosis-1", "", "osmo-test-5", "cosmos-testnet-14002"][(s >> 5 & 3) as usize].into();
    c.env.transaction = match s >> 10 & 3 {
        0 => None,
        1 => Some(cosmwasm_std::TransactionInfo { index: 0 }),
        _ => Some(cosmwasm_std::TransactionInfo { index: (s >> 16) as u32 }),
    };
    if s >> 3 & 3 == 0 {
        let d = [BASE, QUOTE, "uother"][(s >> 7) as usize % 3];
        let n = c.mint("osmo1donor", d, 1 + ((s >> 11) % 1_000_000_000_000) as u128);
        if n > 0 && c.transfer("osmo1donor", CONTRACT, d, n).is_ok() {
            *given.entry((CONTRACT.into(), d.into())).or_insert(0) += n;
        }
    }
}

fn elsewhere(case: &Case, style: u8, seeds: &[u64]) -> (World, Option<String>) {
    let mut g = Guide::new();
    let mut d = g.w.chain.clone();
    let mut given = Bank::new();
    d.env.block.time = cosmwasm_std::Timestamp::from_nanos([0, 1, 1_700_000_000_000_000_000, 4_102_444_800_000_000_000][(style / 6 % 4) as usize]);
    let mut times: BTreeMap<u64, u64> = BTreeMap::new();
    let mut i = 0usize;
    let r: Result<(), String> = (|| {
        for op in &case.ops {
            for act in case.resolve(op, &g.w.model) {
                i += 1;
                let s = seeds[i % seeds.len()].wrapping_mul(2 * i as u64 + 1);
                let Some(x) = g.run(&act) else { return Ok(()) };
                if act.kind() == Kind::Other {
                    continue;
                }
                surround(&mut d, style, s, &mut given);
                if !fund(&mut d, &act) {
                    return Ok(());
                }
                let at = d.env.block.time.nanos();
                let y = run_act(&mut d, &act);
                // the clock is moved above only
                d.env.block.time = cosmwasm_std::Timestamp::from_nanos(at);
                if !alike(&x, &y) {
                    return Err(format!("{act:?}: {}\n    in other surroundings: {}", short(&x), short(&y)));
                }
                if let (Act::Place { .. }, Ok(t)) = (&act, &y) {
                    if let Some(id) = t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok()) {
                        times.insert(id, at);
                    }
                }
                if g.dead {
                    return Ok(());
                }
            }
        }
        let (mut a, mut b) = (snapshot(&g.w.chain)?, snapshot(&d)?);
        for v in &b {
            for o in v["orders"].as_array().map_or(&[][..], |l| l) {
                let o = parse_order(o)?;
                if times.get(&o.id) != Some(&o.placed_at) {
                    return Err(format!("order {} carries placement time {}, it was placed at {:?}", o.id, o.placed_at, times.get(&o.id)));
                }
            }
        }
        a.iter_mut().chain(b.iter_mut()).for_each(untime);
        if a != b {
            let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap_or(0);
            return Err(format!("state {:?}\n    in other surroundings: {:?}", a.get(k), b.get(k)));
        }
        let mut bank = d.q.bank.clone();
        for (k, n) in &given {
            let e = bank.entry(k.clone()).or_insert(0);
            *e = e.checked_sub(*n).ok_or_else(|| format!("tokens given to the contract were paid out: {k:?} {n}"))?;
        }
        if nonzero(&bank) != nonzero(&g.w.chain.q.bank) {
            return Err(format!("balances differ: {}", show_delta(&deltas(&g.w.chain.q.bank, &bank))));
        }
        Ok(())
    })();
    (g.w, r.err())
}

pub fn c29() -> Property {
    let c = Cfg { batch: 4, fee: 3, auth: 3, sudo: 1, pause: 2, bad: 2, guards: 6, advance: 3, ..Cfg::default() };
    let run = |(c, style, s): &(Case, u8, Vec<u64>)| {
        let (w, f) = elsewhere(c, *style, s);
        let nt = w.stat("swapped") > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    let seeds = || prop::collection::vec(any::<u64>(), 3..20);
    Property {
        id: "C29",
        rule: "Generated histories run twice on the real contract; the second time with another clock (standing still, nanoseconds, hours, centuries, from time zero on), block height, chain id, transaction index and with tokens given to the contract in between; every outcome, payment, answer, event and all published state compared, placement times against the second clock; non-trivial: a swap, a claim and a cancellation were accepted",
        assumptions: vec!["block times do not decrease"],
        parts: vec![
            part("histories", 18_000, 350_000, { let c = c.clone(); move || (case(c.clone()), any::<u8>(), seeds()) }, run),
            part("queues with many cancellations", 1400, 30_000, move || (deep_case(8..40), any::<u8>(), seeds()), run),
        ],
    }
}

// ------------------------------------------------------------------ C30

#[derive(Clone)]
struct Names {
    acct: BTreeMap<String, String>,
    denom: BTreeMap<String, String>,
}
impl Names {
    fn new(perm: &[u16], denoms: u8) -> Self {
        let old: Vec<String> = USERS.iter().chain(&[GOV, BREAKER, FEE_DEFAULT]).map(|s| s.to_string()).collect();
        let mut pool = old.clone();
        pool.extend(["abc".to_string(), "a".repeat(90), "osmo1".into(), "osmo1aa1".into(), "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a".into(), "000".into(), "osmo1zed2".into(), "osmo1contractaddressofthebook2".into(), "zz-top_9/9".into()]);
        let mut acct = BTreeMap::new();
        for (i, o) in old.into_iter().enumerate() {
            let k = perm[i % perm.len()] as usize % pool.len();
            acct.insert(o, pool.remove(k));
        }
        let (b, q) = match denoms % 8 {
            0 => ("zbase".to_string(), "aquote".to_string()),
            1 => (QUOTE.to_string(), BASE.to_string()),
            2 => ("factory/osmo1aa/token".into(), "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2".into()),
            3 => ("usd".into(), "usdc".into()),
            4 => ("uabc".into(), "uab".into()),
            5 => ("a".repeat(128), "Z99".into()),
            6 => ("gamm/pool/1".into(), "gamm/pool/11".into()),
            _ => (BASE.into(), QUOTE.into()),
        };
        Names { acct, denom: BTreeMap::from([(BASE.to_string(), b), (QUOTE.to_string(), q)]) }
    }
    fn a(&self, s: &str) -> String {
        self.acct.get(s).cloned().unwrap_or_else(|| s.into())
    }
    fn d(&self, s: &str) -> String {
        self.denom.get(s).cloned().unwrap_or_else(|| s.into())
    }
    fn coins(&self, v: &[(String, u128)]) -> Vec<(String, u128)> {
        v.iter().map(|(d, n)| (self.d(d), *n)).collect()
    }
    /// An attribute or a JSON string: a name, or an amount with its denom.
    fn text(&self, s: &str) -> String {
        if let Some(x) = self.acct.get(s).or_else(|| self.denom.get(s)) {
            return x.clone();
        }
        let one = |s: &str| {
            let k = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(0);
            match self.denom.get(&s[k..]) {
                Some(d) if k > 0 => format!("{}{d}", &s[..k]),
                _ => s.to_string(),
            }
        };
        s.split(',').map(one).collect::<Vec<_>>().join(",")
    }
    fn json(&self, v: &mut Value) {
        match v {
            Value::String(s) => *s = self.text(s),
            Value::Array(l) => l.iter_mut().for_each(|x| self.json(x)),
            Value::Object(o) => o.values_mut().for_each(|x| self.json(x)),
            _ => {}
        }
    }
    fn act(&self, a: &Act) -> Act {
        match a.clone() {
            Act::Place { sender, tick, bid, qty, bounty, funds } => Act::Place { sender: self.a(&sender), tick, bid, qty, bounty, funds: self.coins(&funds) },
            Act::Cancel { sender, tick, id, funds } => Act::Cancel { sender: self.a(&sender), tick, id, funds: self.coins(&funds) },
            Act::Claim { sender, tick, id, funds } => Act::Claim { sender: self.a(&sender), tick, id, funds: self.coins(&funds) },
            Act::Batch { sender, list, funds } => Act::Batch { sender: self.a(&sender), list, funds: self.coins(&funds) },
            Act::Swap { sender, tin, amount, tout, min_out, fee, limit } => Act::Swap { sender: self.a(&sender), tin: self.d(&tin), amount, tout: self.d(&tout), min_out, fee, limit },
            Act::Auth { sender, msg: AuthMsg::SetMakerFeeRecipient(r) } => Act::Auth { sender, msg: AuthMsg::SetMakerFeeRecipient(self.a(&r)) },
            x => x,
        }
    }
    fn attrs(&self, v: &[(String, String)]) -> Vec<(String, String)> {
        v.iter().map(|(k, s)| (k.clone(), self.text(s))).collect()
    }
    fn tx(&self, t: &TxOk) -> TxOk {
        TxOk {
            data: t.data.clone(),
            attrs: self.attrs(&t.attrs),
            events: t.events.iter().map(|(k, v)| (k.clone(), self.attrs(v))).collect(),
            pays: t.pays.iter().map(|p| Pay { from: p.from.clone(), to: self.a(&p.to), coins: self.coins(&p.coins), reply_on_error: p.reply_on_error }).collect(),
            reads: 0,
            writes: 0,
        }
    }
}

fn renamed(case: &Case, perm: &[u16], denoms: u8) -> (World, Option<String>) {
    let mut g = Guide::new();
    let n = Names::new(perm, denoms);
    let (b, q) = (n.d(BASE), n.d(QUOTE));
    let mut d = Chain::new();
    d.mint("osmo1genesis", &b, 1);
    d.mint("osmo1genesis", &q, 1);
    d.mint("osmo1genesis", "uother", 1_000_000);
    let r: Result<(), String> = (|| {
        d.instantiate("osmo1creator", &json!({"base_denom": b, "quote_denom": q})).map_err(|e| format!("a book of {b} and {q} is refused: {}", e.text()))?;
        d.set_genesis_aside(&[&b, &q]);
        // the fee recipient of the start has no part in the renaming; a first message puts the renamed one in
        for (c, to) in [(&mut g.w.chain, FEE_DEFAULT.to_string()), (&mut d, n.a(FEE_DEFAULT))] {
            let a = Act::Auth { sender: GOV.into(), msg: AuthMsg::SetMakerFeeRecipient(to) };
            run_act(c, &a).map_err(|e| format!("{a:?} is refused: {}", e.text()))?;
        }
        for op in &case.ops {
            for act in case.resolve(op, &g.w.model) {
                let Some(x) = g.run(&act) else { return Ok(()) };
                let other = n.act(&act);
                if !fund(&mut d, &other) {
                    return Ok(());
                }
                let y = run_act(&mut d, &other);
                let x = x.map(|t| n.tx(&t));
                let same = if act.kind() == Kind::Auth { x.is_ok() == y.is_ok() } else { alike(&x, &y) };
                if !same {
                    return Err(format!("{act:?}\n    (renamed) {}\n    {other:?}\n    {}", short(&x), short(&y)));
                }
                if g.dead {
                    return Ok(());
                }
            }
        }
        let (mut a, b) = (snapshot(&g.w.chain)?, snapshot(&d)?);
        // the last four are role holders and offers, which keep their names
        let k = a.len() - 4;
        a[..k].iter_mut().for_each(|v| n.json(v));
        if a != b {
            let k = (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)).unwrap_or(0);
            return Err(format!("state (renamed) {:?}\n    of the renamed history {:?}", a.get(k), b.get(k)));
        }
        for u in USERS.iter().chain(&[GOV, BREAKER, FEE_DEFAULT]) {
            for (start, limit) in [(None, None), (Some((0i64, 0u64)), Some(2u64))] {
                let q = |who: &str| json!({"orders_by_owner": {"owner": who, "start_from": start, "limit": limit}});
                let (mut x, y) = (g.w.chain.query(&q(u)).map_err(|e| e.text())?, d.query(&q(&n.a(u))).map_err(|e| e.text())?);
                n.json(&mut x);
                if x != y {
                    return Err(format!("orders of {u} (renamed) {x}\n    in the renamed history {y}"));
                }
            }
        }
        let bank = |c: &Chain, r: bool| -> BTreeMap<(String, String), u128> {
            let keep = |a: &str| a != "osmo1genesis";
            nonzero(&c.q.bank).into_iter().filter(|x| keep(&x.0 .0)).map(|((a, d), v)| if r { ((n.a(&a), n.d(&d)), v) } else { ((a, d), v) }).collect()
        };
        if bank(&g.w.chain, true) != bank(&d, false) {
            return Err(format!("balances (renamed) {:?}\n    of the renamed history {:?}", bank(&g.w.chain, true), bank(&d, false)));
        }
        Ok(())
    })();
    (g.w, r.err())
}

pub fn c30() -> Property {
    let c = Cfg { batch: 4, fee: 4, pause: 1, bad: 3, guards: 5, bounty: 12, ..Cfg::default() };
    Property {
        id: "C30",
        rule: "Generated histories run twice on the real contract; the second time all traders - among them the addresses that hold roles and receive fees - exchange names with each other and with fresh ones, and the two denoms have other names, also each other's; every outcome, payment, answer, event, listing and balance must be the renamed one; non-trivial: a swap, a claim and a cancellation were accepted",
        assumptions: vec!["role holders and offers keep their names: the protocol's addresses are part of the contract"],
        parts: vec![part(
            "histories",
            18_000,
            350_000,
            move || (case(c.clone()), prop::collection::vec(any::<u16>(), 9), any::<u8>()),
            |(c, p, d): &(Case, Vec<u16>, u8)| {
                let (w, f) = renamed(c, p, *d);
                let nt = w.stat("swapped") > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0;
                outcome(&w, f, nt)
            },
        )],
    }
}

// ------------------------------------------------------------------ C31

#[derive(Default, Clone)]
struct Tally {
    /// per recipient
    got: BTreeMap<String, U>,
    gross: U,
    claims: u64,
    refund: U,
}
impl Tally {
    fn claim(&mut self, t: &TxOk) {
        self.claims += 1;
        for p in &t.pays {
            for c in &p.coins {
                let e = self.got.entry(p.to.clone()).or_default();
                *e = *e + u(c.1);
                self.gross = self.gross + u(c.1);
            }
        }
    }
    fn refund(&mut self, t: &TxOk) {
        for c in t.pays.iter().flat_map(|p| &p.coins) {
            self.refund = self.refund + u(c.1);
        }
    }
}

struct Split {
    d: Chain,
    /// first book's order -> the parts of the second
    parts: BTreeMap<u64, Vec<u64>>,
    one: BTreeMap<u64, Tally>,
    many: BTreeMap<u64, Tally>,
    extra: u64,
    split: u64,
}
impl Split {
    fn live(&self, tick: i64, id: u64) -> Result<Vec<u64>, String> {
        let Some(p) = self.parts.get(&id) else { return Ok(vec![]) };
        if tick_vals(&self.d, tick, false).is_err() {
            return Ok(vec![]);
        }
        let l: BTreeSet<u64> = list_by_tick(&self.d, tick)?.iter().map(|o| o.id).collect();
        Ok(p.iter().copied().filter(|i| l.contains(i)).collect())
    }

    fn step(&mut self, act: &Act, x: &TxRes, s: u64) -> Result<bool, String> {
        match act {
            Act::Place { sender, tick, bid, qty, bounty, funds } => {
                let Ok(t) = x else {
                    if !fund(&mut self.d, act) {
                        return Ok(false);
                    }
                    if run_act(&mut self.d, act).is_ok() {
                        return Err(format!("{act:?} is refused on the one book and accepted on the other"));
                    }
                    return Ok(true);
                };
                let id: u64 = t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok()).ok_or("no order id")?;
                let k = (1 + s % 4).min((*qty).min(4) as u64) as u128;
                let mut rest = *qty;
                let mut ids = vec![];
                self.split += u64::from(k > 1);
                for i in 0..k {
                    let after = k - 1 - i;
                    let n = if after == 0 {
                        rest
                    } else {
                        let room = rest - after;
                        match s >> (8 + 4 * i) & 3 {
                            0 => 1,
                            1 => room,
                            2 => (rest / (after + 1)).max(1),
                            _ => 1 + (room - 1) / (2 + (s >> 20 & 7) as u128),
                        }
                    };
                    rest -= n;
                    let a = Act::Place { sender: sender.clone(), tick: *tick, bid: *bid, qty: n, bounty: *bounty, funds: funds.iter().map(|f| (f.0.clone(), n)).collect() };
                    if !fund(&mut self.d, &a) {
                        return Ok(false);
                    }
                    let r = run_act(&mut self.d, &a).map_err(|e| format!("{a:?}, a part of the accepted {act:?}, is refused: {}", e.text()))?;
                    ids.push(r.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok()).ok_or("no order id")?);
                }
                self.parts.insert(id, ids);
            }
            Act::Cancel { sender, tick, id, funds } => {
                let part = |c: &mut Chain, p: u64| run_act(c, &Act::Cancel { sender: sender.clone(), tick: *tick, id: p, funds: funds.clone() });
                if let Ok(t) = x {
                    self.one.entry(*id).or_default().refund(t);
                    for p in self.live(*tick, *id)? {
                        let r = part(&mut self.d, p).map_err(|e| format!("{act:?} is accepted, for part {p} it is refused: {}", e.text()))?;
                        self.many.entry(*id).or_default().refund(&r);
                    }
                    let (a, b) = (self.one[id].refund, self.many.get(id).map_or(u(0), |t| t.refund));
                    if a != b {
                        return Err(format!("{act:?} gives back {a}, for the parts together {b}"));
                    }
                }
            }
            Act::Claim { sender, tick, id, funds } => {
                if let Ok(t) = x {
                    self.one.entry(*id).or_default().claim(t);
                }
                for p in self.live(*tick, *id)? {
                    let a = Act::Claim { sender: sender.clone(), tick: *tick, id: p, funds: funds.clone() };
                    if !fund(&mut self.d, &a) {
                        return Ok(false);
                    }
                    match run_act(&mut self.d, &a) {
                        Ok(t) if x.is_ok() => self.many.entry(*id).or_default().claim(&t),
                        Ok(_) => return Err(format!("{act:?} is refused, for part {p} it is accepted")),
                        Err(TxErr::Panic(e)) => return Err(format!("{a:?} panics: {e}")),
                        Err(_) => {}
                    }
                }
            }
            _ => {
                if !fund(&mut self.d, act) {
                    return Ok(false);
                }
                let y = run_act(&mut self.d, act);
                if !alike(x, &y) {
                    return Err(format!("{act:?}: {}\n    on the divided book: {}", short(x), short(&y)));
                }
            }
        }
        Ok(true)
    }

    /// Somebody claims a part at another moment.
    fn more(&mut self, m: &Model, s: u64) -> Result<(), String> {
        let l: Vec<(i64, u64, u64)> = m.live().flat_map(|o| self.parts.get(&o.id).into_iter().flatten().map(move |p| (o.tick, o.id, *p))).collect();
        if l.is_empty() {
            return Ok(());
        }
        for k in 0..=(s >> 40 & 3) {
            let (tick, id, p) = l[(s >> 4).wrapping_mul(k * 2 + 1) as usize % l.len()];
            let who = if s >> 33 & 1 == 0 { "osmo1keeper".to_string() } else { m.orders[id as usize].owner.clone() };
            let a = Act::Claim { sender: who, tick, id: p, funds: vec![] };
            match run_act(&mut self.d, &a) {
                Ok(t) => {
                    self.many.entry(id).or_default().claim(&t);
                    self.extra += 1;
                }
                Err(TxErr::Panic(e)) => return Err(format!("{a:?} panics: {e}")),
                Err(_) => {}
            }
        }
        Ok(())
    }

    fn compare(&self, c: &Chain) -> Result<(), String> {
        for q in [json!({"orderbook_state": {}}), json!({"get_total_pool_liquidity": {}})] {
            let (mut a, mut b) = (c.query(&q).map_err(|e| e.text())?, self.d.query(&q).map_err(|e| e.text())?);
            for v in [&mut a, &mut b] {
                if let Some(o) = v.as_object_mut() {
                    o.remove("current_order_id");
                    o.remove("next_order_id");
                }
            }
            if q.get("orderbook_state").is_some() {
                for k in ["next_bid_tick", "next_ask_tick"] {
                    if a[k] != b[k] {
                        return Err(format!("{k} is {}, on the divided book {}", a[k], b[k]));
                    }
                }
            } else if a != b {
                return Err(format!("pool liquidity {a}\n    on the divided book {b}"));
            }
        }
        let all = |c: &Chain| -> Result<Vec<i64>, String> {
            let v = c.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
            v["ticks"].as_array().ok_or("ticks")?.iter().map(|t| geti(t, "tick_id").ok_or_else(|| "tick id".to_string())).collect()
        };
        let (x, y) = (all(c)?, all(&self.d)?);
        if x != y {
            return Err(format!("ticks {x:?}, on the divided book {y:?}"));
        }
        for t in x {
            let (a, b) = (tick_vals(c, t, true)?, tick_vals(&self.d, t, true)?);
            for (bid, a, b) in [(false, &a.0, &b.0), (true, &a.1, &b.1)] {
                if a.liq != b.liq || a.ctt != b.ctt || a.etas + a.unreal != b.etas + b.unreal {
                    return Err(format!("tick {t} {}: {a:?}\n    on the divided book {b:?}", dir(bid)));
                }
            }
            let (l, m) = (list_by_tick(c, t)?, list_by_tick(&self.d, t)?);
            let m: BTreeMap<u64, &Listed> = m.iter().map(|o| (o.id, o)).collect();
            let mut seen = 0;
            for o in &l {
                let open = o.quantity - filled_of(if o.bid { &a.1 } else { &a.0 }, o);
                let mut sum = 0u128;
                for p in self.parts.get(&o.id).into_iter().flatten() {
                    if let Some(q) = m.get(p) {
                        seen += 1;
                        if q.owner != o.owner || q.bid != o.bid || q.bounty != o.bounty {
                            return Err(format!("order {o:?} has the part {q:?}"));
                        }
                        sum += q.quantity - filled_of(if q.bid { &b.1 } else { &b.0 }, q);
                    }
                }
                if sum != open {
                    return Err(format!("order {} has {open} open, its parts have {sum}", o.id));
                }
            }
            if seen != m.len() {
                return Err(format!("tick {t} lists {l:?}\n    on the divided book {m:?}"));
            }
        }
        Ok(())
    }

    fn tallies(&self, exact: bool) -> Result<(), String> {
        let none = Tally::default();
        for id in self.parts.keys() {
            let (a, b) = (self.one.get(id).unwrap_or(&none), self.many.get(id).unwrap_or(&none));
            // each claim rounds the value, and each share of it, down once
            let n = U::from(3 * (a.claims + b.claims));
            if a.refund != b.refund {
                return Err(format!("order {id} gets {} back, its parts {}", a.refund, b.refund));
            }
            if a.gross.abs_diff(b.gross) > n {
                return Err(format!("claims of order {id} pay {} in {} claims, of its parts {} in {}", a.gross, a.claims, b.gross, b.claims));
            }
            if !exact {
                continue;
            }
            for who in a.got.keys().chain(b.got.keys()) {
                let (x, y) = (a.got.get(who).copied().unwrap_or_default(), b.got.get(who).copied().unwrap_or_default());
                if x.abs_diff(y) > n {
                    return Err(format!("claims of order {id} pay {who} {x} in {} claims, of its parts {y} in {}", a.claims, b.claims));
                }
            }
        }
        Ok(())
    }
}

/// A batch, taken apart.
fn single(a: Act) -> Vec<Act> {
    match a {
        Act::Batch { sender, list, .. } => list.into_iter().map(|(tick, id)| Act::Claim { sender: sender.clone(), tick, id, funds: vec![] }).collect(),
        x => vec![x],
    }
}

fn divided(case: &Case, fee: u128, extra: bool, seeds: &[u64]) -> (World, Option<String>, u64, u64) {
    let mut g = Guide::new();
    let mut t = Split { d: g.w.chain.clone(), parts: BTreeMap::new(), one: BTreeMap::new(), many: BTreeMap::new(), extra: 0, split: 0 };
    let mut i = 0usize;
    let r: Result<(), String> = (|| {
        let set = Act::Auth { sender: GOV.into(), msg: AuthMsg::SetMakerFee(fee) };
        let Some(x) = g.run(&set) else { return Ok(()) };
        t.step(&set, &x, 0)?;
        for op in &case.ops {
            for act in case.resolve(op, &g.w.model).into_iter().flat_map(single) {
                i += 1;
                let s = seeds[i % seeds.len()].wrapping_mul(2 * i as u64 + 1);
                if extra && s >> 50 & 3 == 0 {
                    t.more(&g.w.model, s)?;
                }
                let Some(x) = g.run(&act) else { return Ok(()) };
                if !t.step(&act, &x, s)? || g.dead {
                    return Ok(());
                }
                if i % if i < 60 { 6 } else { 50 } == 0 {
                    t.compare(&g.w.chain).map_err(|m| format!("after {act:?}: {m}"))?;
                }
            }
        }
        t.compare(&g.w.chain)?;
        // everybody leaves
        if let Some(x) = g.run(&Act::Sudo(SudoMsg::SetActive(true))) {
            t.step(&Act::Sudo(SudoMsg::SetActive(true)), &x, 0)?;
        }
        for (tick, id) in shuffled(&g.w.model, seeds[0]) {
            let who = g.w.model.orders[id as usize].owner.clone();
            for act in [Act::Claim { sender: who.clone(), tick, id, funds: vec![] }, Act::Cancel { sender: who.clone(), tick, id, funds: vec![] }] {
                let Some(x) = g.run(&act) else { return Ok(()) };
                t.step(&act, &x, 0)?;
            }
        }
        t.compare(&g.w.chain).map_err(|m| format!("everybody has left: {m}"))?;
        t.tallies(!extra)
    })();
    (g.w, r.err(), t.extra, t.split)
}

pub fn c31() -> Property {
    let c = Cfg { batch: 0, fee: 0, pause: 1, bad: 1, guards: 4, bounty: 8, mass: 4, cancel: 18, ..Cfg::default() };
    let run = |(c, fee, extra, s): &(Case, u128, bool, Vec<u64>)| {
        let (mut w, f, n, k) = divided(c, *fee, *extra, s);
        w.stats.insert("claims at other moments", n);
        w.stats.insert("orders divided", k);
        let nt = k > 0 && w.stat("swapped") > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    let seeds = || prop::collection::vec(any::<u64>(), 3..20);
    Property {
        id: "C31",
        rule: "Generated histories on two books of the real contract; on the second every order is placed in up to four parts, messages about it go to all its parts, and parts are also claimed at other moments; swaps and their answers, best ticks, liquidity, tick totals and open quantities must be the same, refunds together the same, and claims together pay the same up to rounding per claim; in the end everybody leaves; non-trivial: an order was divided, and a swap, a claim and a cancellation were accepted",
        assumptions: vec!["the maker fee is set once at the start of the history"],
        parts: vec![
            part("histories", 5000, 200_000, { let c = c.clone(); move || (case(c.clone()), fee(), any::<bool>(), seeds()) }, run),
            part("queues with many cancellations", 500, 20_000, move || (deep_case(8..40), fee(), any::<bool>(), seeds()), run),
        ],
    }
}

// ------------------------------------------------------------------ C32

#[derive(Clone, Copy)]
struct Unit {
    shift: i64,
    ten: u128,
}
impl Unit {
    fn tick(&self, t: i64) -> i64 {
        t + self.shift
    }
    fn coins(&self, v: &[(String, u128)]) -> Option<Vec<(String, u128)>> {
        v.iter().map(|(d, n)| Some((d.clone(), if d == QUOTE { n.checked_mul(self.ten)? } else { *n }))).collect()
    }
    fn act(&self, a: &Act) -> Option<Act> {
        Some(match a.clone() {
            Act::Place { sender, tick, bid, qty, bounty, funds } => Act::Place { sender, tick: self.tick(tick), bid, qty: if bid { qty.checked_mul(self.ten)? } else { qty }, bounty, funds: self.coins(&funds)? },
            Act::Cancel { sender, tick, id, funds } => Act::Cancel { sender, tick: self.tick(tick), id, funds: self.coins(&funds)? },
            Act::Claim { sender, tick, id, funds } => Act::Claim { sender, tick: self.tick(tick), id, funds: self.coins(&funds)? },
            Act::Batch { sender, list, funds } => Act::Batch { sender, list: list.iter().map(|x| (self.tick(x.0), x.1)).collect(), funds: self.coins(&funds)? },
            Act::Swap { sender, tin, amount, tout, min_out, fee, limit } => {
                let amount = if tin == QUOTE { amount.checked_mul(self.ten)? } else { amount };
                let min_out = if tout == QUOTE { min_out.checked_mul(self.ten)? } else { min_out };
                Act::Swap { sender, tin, amount, tout, min_out, fee, limit: limit.map(|t| self.tick(t)) }
            }
            x => x,
        })
    }
    /// Payments in the other unit.
    fn pays(&self, t: &TxOk) -> Option<Vec<(String, Vec<(String, u128)>)>> {
        t.pays.iter().map(|p| Some((p.to.clone(), self.coins(&p.coins)?))).collect()
    }
}
/// Any limit that stays on the same side of everything after the shift.
fn plain(a: &Act) -> bool {
    match a {
        Act::Place { tick, .. } => (0..=9 * 9_000_000).contains(tick),
        Act::Swap { limit: Some(t), .. } => (0..=9 * 9_000_000).contains(t),
        _ => true,
    }
}
fn data_out(t: &TxOk) -> Option<u128> {
    let v: Value = serde_json::from_slice(t.data.as_ref()?).ok()?;
    gets(&v, "token_out_amount").parse().ok()
}

fn redenominated(case: &Case, k: u32) -> (World, Option<String>, u64) {
    let mut g = Guide::new();
    let mut d = g.w.chain.clone();
    let un = Unit { shift: 9_000_000 * k as i64, ten: 10u128.pow(k) };
    let mut n = 0u64;
    let r: Result<(), String> = (|| {
        for op in &case.ops {
            for mut act in case.resolve(op, &g.w.model) {
                if let Act::Place { bounty, .. } = &mut act {
                    *bounty = None;
                }
                if !plain(&act) {
                    continue;
                }
                let Some(other) = un.act(&act) else { return Ok(()) };
                let Some(x) = g.run(&act) else { return Ok(()) };
                if !fund(&mut d, &other) {
                    return Ok(());
                }
                let y = run_act(&mut d, &other);
                n += 1;
                match (&x, &y) {
                    (Ok(a), Ok(b)) => {
                        let Some(want) = un.pays(a) else { return Ok(()) };
                        let got: Vec<_> = b.pays.iter().map(|p| (p.to.clone(), p.coins.clone())).collect();
                        if want != got {
                            return Err(format!("{act:?} pays, in the other unit, {want:?}\n    {other:?} pays {got:?}"));
                        }
                        if let Act::Swap { tout, .. } = &act {
                            let f = if tout == QUOTE { un.ten } else { 1 };
                            if data_out(a).map(|v| v * f) != data_out(b) || data_out(b).is_none() {
                                return Err(format!("{act:?} answers {:?}, {other:?} {:?}", data_out(a), data_out(b)));
                            }
                        }
                    }
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("{act:?} is {}\n    {other:?} is {}", short(&x), short(&y))),
                }
                if g.dead {
                    return Ok(());
                }
            }
        }
        let (s, t) = (g.w.chain.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?, d.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?);
        for (k, end) in [("next_bid_tick", MIN_TICK), ("next_ask_tick", MAX_TICK)] {
            let (a, b) = (geti(&s, k).ok_or("tick")?, geti(&t, k).ok_or("tick")?);
            if b != if a == end { a } else { un.tick(a) } {
                return Err(format!("{k} is {a}, in the other unit {b}"));
            }
        }
        for t in g.w.model.ticks() {
            let (l, m) = (list_by_tick(&g.w.chain, t)?, list_by_tick(&d, un.tick(t))?);
            let q = |o: &Listed, n: u128| if o.bid { n * un.ten } else { n };
            let l: Vec<_> = l.iter().map(|o| (o.id, o.bid, o.owner.clone(), q(o, o.quantity), q(o, o.placed))).collect();
            let m: Vec<_> = m.iter().map(|o| (o.id, o.bid, o.owner.clone(), o.quantity, o.placed)).collect();
            if l != m {
                return Err(format!("tick {t}: orders, in the other unit, {l:?}\n    {m:?}"));
            }
            let (a, b) = (tick_vals(&g.w.chain, t, true)?, tick_vals(&d, un.tick(t), true)?);
            if a.0 != b.0 || a.1.liq * un.ten != b.1.liq || a.1.ctt * u(un.ten) != b.1.ctt || (a.1.etas + a.1.unreal) * u(un.ten) != b.1.etas + b.1.unreal {
                return Err(format!("tick {t}: {a:?}\n    in the other unit {b:?}"));
            }
        }
        Ok(())
    })();
    (g.w, r.err(), n)
}

pub fn c32() -> Property {
    let c = Cfg { batch: 4, fee: 0, bounty: 0, pause: 1, bad: 2, guards: 6, ..Cfg::default() };
    // ticks whose price is a whole number
    let tick = || {
        prop_oneof![
            3 => (0i64..9).prop_map(|j| j * 1_000_000),
            3 => (1u32..6, 0i64..1_000_000).prop_map(|(k, r)| k as i64 * 9_000_000 + r % (9 * 10i64.pow(k)) * 10i64.pow(6 - k)),
            2 => (0i64..9_000_000).prop_map(|r| 54_000_000 + r),
        ]
    };
    let cases = move || {
        (prop::collection::vec(tick(), 1..5), 0u8..2, 1u32..12)
            .prop_flat_map({
                let c = c.clone();
                move |(ticks, scale, k)| (Just(ticks), prop::collection::vec(op(&c, scale), 4..50), Just(k))
            })
            .prop_map(|(ticks, ops, k)| (Case { ticks, ops }, k))
    };
    Property {
        id: "C32",
        rule: "Generated histories at whole-number prices run twice on the real contract; the second time every amount of the quote denom is multiplied by a power of ten and every tick moved up by 9,000,000 per power; every outcome, payment, answer, best tick, listing and tick total must be the same in the new unit; non-trivial: a swap, a claim and a cancellation were accepted",
        assumptions: vec!["no fee and no bounty, whose rounding depends on the unit"],
        parts: vec![part("histories", 18_000, 350_000, cases, |(c, k): &(Case, u32)| {
            let (mut w, f, n) = redenominated(c, *k);
            w.stats.insert("messages in both units", n);
            let nt = w.stat("swapped") > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0;
            outcome(&w, f, nt)
        })],
    }
}
