//! Runs one act on the real contract (through the chain) and on the reference model and reports
//! every disagreement, labelled with what kind of disagreement it is.
use crate::chain::*;
use crate::model::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub mod w {
    pub const OUT_PLACE: u64 = 1 << 0;
    pub const OUT_CANCEL: u64 = 1 << 1;
    pub const OUT_CLAIM: u64 = 1 << 2;
    pub const OUT_BATCH: u64 = 1 << 3;
    pub const OUT_SWAP: u64 = 1 << 4;
    pub const OUT_AUTH: u64 = 1 << 5;
    pub const OUT_SUDO: u64 = 1 << 6;
    /// outcome differs because of the pause switch
    pub const OUT_PAUSE: u64 = 1 << 7;
    pub const PAY_PLACE: u64 = 1 << 8;
    pub const PAY_CANCEL: u64 = 1 << 9;
    pub const PAY_CLAIM: u64 = 1 << 10;
    pub const PAY_BATCH: u64 = 1 << 11;
    pub const PAY_SWAP: u64 = 1 << 12;
    pub const PAY_OTHER: u64 = 1 << 13;
    /// swap response data
    pub const DATA: u64 = 1 << 14;
    pub const EVENTS: u64 = 1 << 15;
    /// order records: who, what, how much is left
    pub const ORDERS: u64 = 1 << 16;
    /// queue positions: start position, effective amount swapped, unrealised cancels
    pub const ETAS: u64 = 1 << 17;
    pub const TICKLIQ: u64 = 1 << 18;
    pub const TOTAL: u64 = 1 << 19;
    pub const PTR: u64 = 1 << 20;
    pub const ROLES: u64 = 1 << 21;
    pub const CONF: u64 = 1 << 22;
    pub const ACTIVE: u64 = 1 << 23;
    pub const PANIC: u64 = 1 << 24;
    pub const OUT_MIGRATE: u64 = 1 << 25;
    pub const OUT_TRADE: u64 = OUT_PLACE | OUT_CANCEL | OUT_CLAIM | OUT_BATCH | OUT_SWAP;
    pub const PAY_TRADE: u64 = PAY_PLACE | PAY_CANCEL | PAY_CLAIM | PAY_BATCH | PAY_SWAP;
    pub const STATE: u64 = ORDERS | TICKLIQ | TOTAL | PTR | ROLES | CONF | ACTIVE;
}

#[derive(Clone, Debug)]
pub struct Div {
    pub bit: u64,
    pub why: Option<Why>,
    pub got_ok: bool,
    pub msg: String,
}

#[derive(Clone)]
pub struct World {
    pub chain: Chain,
    pub model: Model,
    /// which observations to make
    pub watch: u64,
    /// the model could not follow the contract any more
    pub lost: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub steps: u64,
    /// highest effective amount swapped seen per (tick, bid)
    pub etas_seen: BTreeMap<(i64, bool), U>,
}

pub fn dir(bid: bool) -> &'static str {
    if bid {
        "bid"
    } else {
        "ask"
    }
}

/// The wire form of an act. None for acts that are no message.
pub fn wire(act: &Act) -> Value {
    match act {
        Act::Place {
            tick,
            bid,
            qty,
            bounty,
            ..
        } => {
            let mut m = json!({"tick_id": tick, "order_direction": dir(*bid), "quantity": qty.to_string()});
            if let Some(b) = bounty {
                m["claim_bounty"] = json!(dec(*b));
            }
            json!({ "place_limit": m })
        }
        Act::Cancel { tick, id, .. } => json!({"cancel_limit": {"tick_id": tick, "order_id": id}}),
        Act::Claim { tick, id, .. } => json!({"claim_limit": {"tick_id": tick, "order_id": id}}),
        Act::Batch { list, .. } => json!({"batch_claim": {"orders": list}}),
        Act::Swap {
            sender,
            tin,
            amount,
            tout,
            min_out,
            fee,
            limit,
        } => {
            let mut m = json!({
                "sender": sender,
                "token_in": {"denom": tin, "amount": amount.to_string()},
                "token_out_denom": tout,
                "token_out_min_amount": min_out.to_string(),
                "swap_fee": dec(*fee),
            });
            match limit {
                None => json!({ "swap_exact_amount_in": m }),
                Some(t) => {
                    m["target_tick"] = json!(t);
                    json!({ "swap_to_tick": m })
                }
            }
        }
        Act::Auth { msg, .. } => {
            let m = match msg {
                AuthMsg::TransferAdmin(a) => json!({"transfer_admin": {"new_admin": a}}),
                AuthMsg::CancelAdminTransfer => json!({"cancel_admin_transfer": {}}),
                AuthMsg::RejectAdminTransfer => json!({"reject_admin_transfer": {}}),
                AuthMsg::ClaimAdmin => json!({"claim_admin": {}}),
                AuthMsg::RenounceAdminship => json!({"renounce_adminship": {}}),
                AuthMsg::OfferModerator(a) => json!({"offer_moderator": {"new_moderator": a}}),
                AuthMsg::RejectModeratorOffer => json!({"reject_moderator_offer": {}}),
                AuthMsg::ClaimModerator => json!({"claim_moderator": {}}),
                AuthMsg::SetActive(b) => json!({"set_active": {"active": b}}),
                AuthMsg::SetMakerFee(f) => json!({"set_maker_fee": {"fee": dec(*f)}}),
                AuthMsg::SetMakerFeeRecipient(a) => {
                    json!({"set_maker_fee_recipient": {"recipient": a}})
                }
            };
            json!({ "auth": m })
        }
        Act::Sudo(m) => match m {
            SudoMsg::TransferAdmin(a) => json!({"transfer_admin": {"new_admin": a}}),
            SudoMsg::RemoveAdmin => json!({"remove_admin": {}}),
            SudoMsg::SetActive(b) => json!({"set_active": {"active": b}}),
        },
        Act::Advance(_) | Act::Migrate => Value::Null,
    }
}

fn out_bit(k: Kind) -> u64 {
    match k {
        Kind::Place => w::OUT_PLACE,
        Kind::Cancel => w::OUT_CANCEL,
        Kind::Claim => w::OUT_CLAIM,
        Kind::Batch => w::OUT_BATCH,
        Kind::Swap => w::OUT_SWAP,
        Kind::Auth => w::OUT_AUTH,
        Kind::Sudo => w::OUT_SUDO,
        Kind::Other => w::OUT_MIGRATE,
    }
}
fn pay_bit(k: Kind) -> u64 {
    match k {
        Kind::Place => w::PAY_PLACE,
        Kind::Cancel => w::PAY_CANCEL,
        Kind::Claim => w::PAY_CLAIM,
        Kind::Batch => w::PAY_BATCH,
        Kind::Swap => w::PAY_SWAP,
        _ => w::PAY_OTHER,
    }
}

/// Non-zero balance changes (wrapping u128 differences).
pub fn deltas(a: &Bank, b: &Bank) -> BTreeMap<(String, String), u128> {
    let mut m = BTreeMap::new();
    let keys: BTreeSet<_> = a.keys().chain(b.keys()).cloned().collect();
    for k in keys {
        let d = b.get(&k).copied().unwrap_or(0).wrapping_sub(a.get(&k).copied().unwrap_or(0));
        if d != 0 {
            m.insert(k, d);
        }
    }
    m
}

pub fn show_delta(m: &BTreeMap<(String, String), u128>) -> String {
    let mut s = String::new();
    for ((a, d), n) in m {
        if *n >> 127 == 0 {
            s += &format!("{a} +{n}{d}; ");
        } else {
            s += &format!("{a} -{}{d}; ", n.wrapping_neg());
        }
    }
    s
}

pub fn gets<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("<missing>")
}
pub fn geti(v: &Value, k: &str) -> Option<i64> {
    v.get(k).and_then(|x| x.as_i64())
}

/// Runs an act on a chain alone: needed tokens are minted first. None: the act cannot be funded.
pub fn fund(chain: &mut Chain, act: &Act) -> bool {
    let need: Vec<(String, String, u128)> = match act {
        Act::Place { sender, funds, .. }
        | Act::Cancel { sender, funds, .. }
        | Act::Claim { sender, funds, .. }
        | Act::Batch { sender, funds, .. } => {
            funds.iter().map(|f| (sender.clone(), f.0.clone(), f.1)).collect()
        }
        Act::Swap {
            sender,
            tin,
            amount,
            ..
        } => vec![(sender.clone(), tin.clone(), *amount)],
        _ => vec![],
    };
    let mut sum: BTreeMap<(String, String), u128> = BTreeMap::new();
    for (a, d, n) in need {
        let e = sum.entry((a, d)).or_insert(0);
        match e.checked_add(n) {
            Some(x) => *e = x,
            None => return false,
        }
    }
    for ((a, d), n) in sum {
        let b = chain.balance(&a, &d);
        if b < n && chain.mint(&a, &d, n - b) < n - b {
            return false;
        }
    }
    true
}

pub fn run_act(chain: &mut Chain, act: &Act) -> TxRes {
    let m = wire(act);
    match act {
        Act::Place { sender, funds, .. }
        | Act::Cancel { sender, funds, .. }
        | Act::Claim { sender, funds, .. }
        | Act::Batch { sender, funds, .. } => chain.execute(sender, funds, &m),
        Act::Auth { sender, .. } => chain.execute(sender, &[], &m),
        Act::Swap {
            sender,
            tin,
            amount,
            ..
        } => chain.sudo_swap(sender, tin, *amount, &m),
        Act::Sudo(_) => chain.sudo(&m),
        Act::Advance(n) => {
            chain.advance(*n);
            Ok(TxOk::default())
        }
        Act::Migrate => chain.migrate(),
    }
}

pub fn new_chain() -> Chain {
    let mut c = Chain::new();
    c.mint("osmo1genesis", BASE, 1);
    c.mint("osmo1genesis", QUOTE, 1);
    c.mint("osmo1genesis", "uother", 1_000_000);
    c.instantiate(
        "osmo1creator",
        &json!({"base_denom": BASE, "quote_denom": QUOTE}),
    )
    .expect("a book for two existing denoms must instantiate");
    c.set_genesis_aside(&[BASE, QUOTE]);
    c
}

/// One order as listed by the contract.
#[derive(Clone, Debug, PartialEq)]
pub struct Listed {
    pub tick: i64,
    pub id: u64,
    pub bid: bool,
    pub owner: String,
    pub quantity: u128,
    pub placed: u128,
    pub bounty: Option<u128>,
    pub placed_at: u64,
    pub etas: U,
}

pub fn parse_order(v: &Value) -> Result<Listed, String> {
    let f = || -> Option<Listed> {
        Some(Listed {
            tick: geti(v, "tick_id")?,
            id: v.get("order_id")?.as_u64()?,
            bid: match gets(v, "order_direction") {
                "bid" => true,
                "ask" => false,
                _ => return None,
            },
            owner: gets(v, "owner").to_string(),
            quantity: gets(v, "quantity").parse().ok()?,
            placed: gets(v, "placed_quantity").parse().ok()?,
            bounty: match v.get("claim_bounty") {
                None | Some(Value::Null) => None,
                Some(Value::String(s)) => Some(to_u128(parse_dec(s)?)?),
                _ => return None,
            },
            placed_at: gets(v, "placed_at").parse().ok()?,
            etas: parse_whole_u(gets(v, "etas"))?,
        })
    };
    f().ok_or_else(|| format!("unreadable order record {v}"))
}

/// The filled part of an order according to the published data.
pub fn filled_of(s: &SideVals, o: &Listed) -> u128 {
    let x = s.etas.saturating_add(s.unreal).saturating_sub(o.etas);
    if x > u(o.quantity) {
        o.quantity
    } else {
        to_u128(x).unwrap()
    }
}

pub fn list_by_tick(c: &Chain, tick: i64) -> Result<Vec<Listed>, String> {
    let v = c
        .query(&json!({"orders_by_tick": {"tick_id": tick}}))
        .map_err(|e| e.text())?;
    v["orders"]
        .as_array()
        .ok_or("no orders array")?
        .iter()
        .map(parse_order)
        .collect()
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SideVals {
    pub liq: u128,
    pub ctt: U,
    pub etas: U,
    pub unreal: U,
}

/// (ask, bid) values of a tick, including unrealised cancellations when asked for.
pub fn tick_vals(c: &Chain, tick: i64, unreal: bool) -> Result<(SideVals, SideVals), String> {
    let v = c
        .query(&json!({"ticks_by_id": {"tick_ids": [tick]}}))
        .map_err(|e| e.text())?;
    let t = &v["ticks"][0];
    if geti(t, "tick_id") != Some(tick) {
        return Err(format!("asked for tick {tick}, got {t}"));
    }
    let side = |k: &str| -> Result<SideVals, String> {
        let s = &t["tick_state"][k];
        let g = |k: &str| {
            parse_whole_u(gets(s, k)).ok_or_else(|| format!("tick {tick}: {k} = {}", gets(s, k)))
        };
        Ok(SideVals {
            liq: parse_whole(gets(s, "total_amount_of_liquidity"))
                .ok_or_else(|| format!("tick {tick}: liquidity {s}"))?,
            ctt: g("cumulative_total_value")?,
            etas: g("effective_total_amount_swapped")?,
            unreal: u(0),
        })
    };
    let (mut a, mut b) = (side("ask_values")?, side("bid_values")?);
    if unreal {
        let v = c
            .query(&json!({"get_unrealized_cancels": {"tick_ids": [tick]}}))
            .map_err(|e| e.text())?;
        let t = &v["ticks"][0];
        let x = &t["unrealized_cancels"];
        let g = |k: &str| parse_whole_u(gets(x, k)).ok_or_else(|| format!("tick {tick}: {k}: {x}"));
        a.unreal = g("ask_unrealized_cancels")?;
        b.unreal = g("bid_unrealized_cancels")?;
    }
    Ok((a, b))
}

impl World {
    pub fn new(watch: u64) -> Self {
        World {
            chain: new_chain(),
            model: Model::new(),
            watch,
            lost: false,
            stats: BTreeMap::new(),
            steps: 0,
            etas_seen: BTreeMap::new(),
        }
    }

    pub fn bump(&mut self, k: &'static str) {
        *self.stats.entry(k).or_insert(0) += 1;
    }
    pub fn stat(&self, k: &'static str) -> u64 {
        self.stats.get(k).copied().unwrap_or(0)
    }
    pub fn now(&self) -> u64 {
        self.chain.env.block.time.nanos()
    }

    /// Applies one act to both sides. Returns the disagreements among the watched kinds.
    pub fn apply(&mut self, act: &Act) -> Vec<Div> {
        self.apply_full(act).0
    }

    pub fn apply_full(&mut self, act: &Act) -> (Vec<Div>, Option<(TxRes, Result<Effects, Why>)>) {
        let mut out: Vec<Div> = vec![];
        if self.lost || !fund(&mut self.chain, act) {
            return (out, None);
        }
        self.steps += 1;
        let kind = act.kind();
        let was_active = self.model.active;
        let bank0 = self.chain.q.bank.clone();
        let now = self.now();
        let res = run_act(&mut self.chain, act);
        let want = self.model.apply(act, now);
        let gated = matches!(
            kind,
            Kind::Place | Kind::Cancel | Kind::Claim | Kind::Batch | Kind::Swap
        );
        let pause = |w: &World| -> bool {
            gated
                && (!was_active
                    || w.chain.query(&json!({"is_active": {}})).ok() == Some(Value::Bool(false)))
        };
        let mut push = |bit: u64, why: Option<Why>, got_ok: bool, msg: String| {
            out.push(Div {
                bit,
                why,
                got_ok,
                msg: format!("{msg}\n    at {act:?}"),
            })
        };
        match (&res, &want) {
            (Err(TxErr::Panic(p)), w_) => {
                push(w::PANIC, w_.as_ref().err().copied(), false, format!("contract panicked: {p}"));
                if w_.is_ok() {
                    let b = if pause(self) { w::OUT_PAUSE } else { out_bit(kind) };
                    push(b, None, false, format!("panicked instead of succeeding: {p}"));
                    self.lost = true;
                }
            }
            (Err(e), Ok(_)) => {
                let b = if pause(self) { w::OUT_PAUSE } else { out_bit(kind) };
                push(b, None, false, format!("refused although valid: {}", e.text()));
                self.lost = true;
            }
            (Ok(_), Err(y)) => {
                let b = if *y == Why::Inactive { w::OUT_PAUSE } else { out_bit(kind) };
                push(b, Some(*y), true, format!("accepted although it must be refused ({y:?})"));
                self.lost = true;
            }
            (Err(_), Err(y)) => {
                self.bump("refused");
                let k = match y {
                    Why::Inactive => "refused: paused",
                    Why::Filled => "refused: cancel of filled order",
                    Why::NothingFilled => "refused: nothing to claim",
                    Why::NoLiquidity => "refused: not enough liquidity",
                    Why::MinOut => "refused: minimum output",
                    Why::BadLimit => "refused: limit tick",
                    Why::ZeroOutput => "refused: zero output",
                    Why::Unauthorized => "refused: unauthorized",
                    Why::NotOwner => "refused: not the owner",
                    Why::NotFound => "refused: no such order",
                    Why::BadFunds => "refused: funds",
                    _ => "refused: other",
                };
                self.bump(k);
            }
            (Ok(tx), Ok(eff)) => {
                // balances
                let mut exp: BTreeMap<(String, String), u128> = BTreeMap::new();
                let mut mv = |from: &str, to: &str, d: &str, n: u128| {
                    let e = exp.entry((from.to_string(), d.to_string())).or_insert(0);
                    *e = e.wrapping_sub(n);
                    let e = exp.entry((to.to_string(), d.to_string())).or_insert(0);
                    *e = e.wrapping_add(n);
                };
                match act {
                    Act::Place { sender, funds, .. } => {
                        for f in funds {
                            mv(sender, CONTRACT, &f.0, f.1)
                        }
                    }
                    Act::Swap {
                        sender, tin, amount, ..
                    } => mv(sender, CONTRACT, tin, *amount),
                    _ => {}
                }
                for (to, d, n) in &eff.pays {
                    mv(CONTRACT, to, d, *n);
                }
                exp.retain(|_, v| *v != 0);
                let got = deltas(&bank0, &self.chain.q.bank);
                if got != exp {
                    push(
                        pay_bit(kind),
                        None,
                        true,
                        format!(
                            "balance changes differ:\n    expected {}\n    observed {}",
                            show_delta(&exp),
                            show_delta(&got)
                        ),
                    );
                }
                if let (Act::Swap { .. }, Some(p)) = (act, &eff.swap) {
                    let d: Option<Value> =
                        tx.data.as_ref().and_then(|d| serde_json::from_slice(d).ok());
                    let exp = json!({"token_out_amount": p.out.to_string()});
                    if d.as_ref() != Some(&exp) {
                        push(w::DATA, None, true, format!("swap data {d:?}, expected {exp}"));
                    }
                }
                if self.watch & w::EVENTS != 0 {
                    if let Err(e) = self.check_events(act, tx, eff) {
                        push(w::EVENTS, None, true, e);
                    }
                }
                self.classify(act, eff);
            }
        }
        if !self.lost {
            let r = want.as_ref().ok();
            self.check_touched(act, r, &mut out);
        }
        let watch = self.watch;
        out.retain(|d| d.bit & watch != 0);
        (out, Some((res, want)))
    }

    fn classify(&mut self, act: &Act, eff: &Effects) {
        match act {
            Act::Place { .. } => self.bump("placed"),
            Act::Cancel { .. } => {
                self.bump("cancelled");
                let id = eff.cancelled.unwrap().0;
                if self.model.orders[id as usize].claims > 0 {
                    self.bump("cancelled after partial claim");
                }
            }
            Act::Claim { .. } | Act::Batch { .. } => {
                if matches!(act, Act::Batch { .. }) {
                    self.bump("batches");
                    if eff.claims.len() > 64 {
                        self.bump("batches with more than 64 claims");
                    }
                }
                for c in &eff.claims {
                    self.bump("claimed");
                    if c.remaining > 0 {
                        self.bump("claimed partially");
                    }
                    if self.model.orders[c.id as usize].behind_cancel {
                        self.bump("claimed behind a cancelled order");
                    }
                    if c.bounty > 0 {
                        self.bump("bounty paid");
                    }
                    if c.fee > 0 {
                        self.bump("fee paid");
                    }
                    if c.value == 0 {
                        self.bump("claimed dust of no value");
                    }
                }
            }
            Act::Swap { limit, .. } => {
                self.bump("swapped");
                let p = eff.swap.as_ref().unwrap();
                if p.fills.len() > 1 {
                    self.bump("swapped over several ticks");
                }
                if limit.is_some() {
                    self.bump("swapped to a limit tick");
                }
                if p.refund > 0 {
                    self.bump("swap with refund");
                }
                if p.dust > 0 {
                    self.bump("swap with dust");
                }
                if p.fills.iter().any(|f| {
                    self.model.queues.get(&(f.tick, p.sell_base)).map_or(0, |q| q.cancels) > 0
                }) {
                    self.bump("swapped on a tick with cancellations");
                }
            }
            Act::Auth { .. } => self.bump("auth ok"),
            Act::Sudo(_) => self.bump("sudo ok"),
            Act::Migrate => self.bump("migrated"),
            Act::Advance(_) => {}
        }
    }

    fn check_events(&self, act: &Act, tx: &TxOk, eff: &Effects) -> Result<(), String> {
        let has = |attrs: &[(String, String)], want: &[(&str, String)]| -> Result<(), String> {
            for (k, v) in want {
                let got: Vec<&String> =
                    attrs.iter().filter(|a| a.0 == *k).map(|a| &a.1).collect();
                if got.len() != 1 || got[0] != v {
                    return Err(format!("event attribute {k}: {got:?}, expected {v}"));
                }
            }
            Ok(())
        };
        let denoms = |bid: bool| {
            if bid {
                (QUOTE.to_string(), BASE.to_string())
            } else {
                (BASE.to_string(), QUOTE.to_string())
            }
        };
        let claims: Vec<_> = tx.events.iter().filter(|e| e.0 == "limitClaimed").collect();
        if claims.len() != eff.claims.len() {
            return Err(format!(
                "{} claim events for {} claims",
                claims.len(),
                eff.claims.len()
            ));
        }
        match act {
            Act::Place {
                sender, tick, bid, qty, ..
            } => {
                let (od, xd) = denoms(*bid);
                has(
                    &tx.attrs,
                    &[
                        ("method", "placeLimit".into()),
                        ("owner", sender.clone()),
                        ("tick_id", tick.to_string()),
                        ("order_id", eff.placed.unwrap().to_string()),
                        ("order_direction", dir(*bid).into()),
                        ("quantity", qty.to_string()),
                        ("order_denom", od),
                        ("output_denom", xd),
                    ],
                )?;
            }
            Act::Cancel { sender, .. } => {
                let (id, qty) = eff.cancelled.unwrap();
                let o = &self.model.orders[id as usize];
                let (od, xd) = denoms(o.bid);
                has(
                    &tx.attrs,
                    &[
                        ("method", "cancelLimit".into()),
                        ("owner", sender.clone()),
                        ("tick_id", o.tick.to_string()),
                        ("order_id", id.to_string()),
                        ("quantity", qty.to_string()),
                        ("order_direction", dir(o.bid).into()),
                        ("initial_quantity", o.placed.to_string()),
                        ("order_denom", od),
                        ("output_denom", xd),
                    ],
                )?;
            }
            Act::Claim { sender, .. } | Act::Batch { sender, .. } => {
                let m = if matches!(act, Act::Claim { .. }) {
                    "claimLimit"
                } else {
                    "batchClaimLimit"
                };
                has(&tx.attrs, &[("method", m.into())])?;
                for (ev, c) in claims.iter().zip(&eff.claims) {
                    let o = &self.model.orders[c.id as usize];
                    let (od, xd) = denoms(o.bid);
                    has(
                        &ev.1,
                        &[
                            ("sender", sender.clone()),
                            ("tick_id", o.tick.to_string()),
                            ("order_id", c.id.to_string()),
                            ("quantity_remaining", c.remaining.to_string()),
                            ("owner", o.owner.clone()),
                            ("order_direction", dir(o.bid).into()),
                            ("amount_claimed", c.to_owner.to_string()),
                            ("placed_quantity", o.placed.to_string()),
                            ("fully_claimed", (c.remaining == 0).to_string()),
                            ("order_denom", od),
                            ("output_denom", xd),
                        ],
                    )?;
                }
            }
            Act::Swap {
                sender,
                tin,
                amount,
                tout,
                min_out,
                ..
            } => {
                has(
                    &tx.attrs,
                    &[
                        ("method", "swapExactAmountIn".into()),
                        ("sender", sender.clone()),
                        ("token_in", format!("{amount}{tin}")),
                        ("token_out_denom", tout.clone()),
                        ("token_out_min_amount", min_out.to_string()),
                        ("output_quantity", eff.swap.as_ref().unwrap().out.to_string()),
                    ],
                )?;
            }
            _ => {}
        }
        Ok(())
    }

    fn check_touched(&mut self, act: &Act, eff: Option<&Effects>, out: &mut Vec<Div>) {
        let mut ticks: BTreeSet<i64> = BTreeSet::new();
        // in books with many ticks or orders only some of the steps are followed by a look at the book
        if (self.model.queues.len() > 24 || self.steps > 300 && self.model.live().count() > 300)
            && self.steps % 16 != 0
            && matches!(act, Act::Place { .. } | Act::Cancel { .. } | Act::Claim { .. })
        {
            return;
        }
        match act {
            Act::Place { tick, .. } | Act::Cancel { tick, .. } | Act::Claim { tick, .. } => {
                ticks.insert(*tick);
            }
            Act::Batch { list, .. } => ticks.extend(list.iter().map(|x| x.0)),
            Act::Swap { .. } => {
                if let Some(p) = eff.and_then(|e| e.swap.as_ref()) {
                    ticks.extend(p.fills.iter().map(|f| f.tick));
                }
            }
            _ => {}
        }
        // small books are looked at as a whole every time
        let used = self.model.ticks();
        if used.len() <= 4 && self.model.live().count() <= 12 {
            ticks.extend(used.iter());
        }
        for t in ticks {
            if used.contains(&t) {
                self.check_tick(t, out);
            }
        }
        self.check_globals(out);
    }

    pub fn check_all(&mut self) -> Vec<Div> {
        let mut out = vec![];
        if self.lost {
            return out;
        }
        for t in self.model.ticks() {
            self.check_tick(t, &mut out);
        }
        self.check_globals(&mut out);
        let watch = self.watch;
        out.retain(|d| d.bit & watch != 0);
        out
    }

    pub fn check_tick(&mut self, tick: i64, out: &mut Vec<Div>) {
        let mut push = |bit: u64, msg: String| {
            out.push(Div {
                bit,
                why: None,
                got_ok: true,
                msg,
            })
        };
        let mut listed = vec![];
        if self.watch & (w::ORDERS | w::ETAS) != 0 {
            match list_by_tick(&self.chain, tick) {
                Err(e) => {
                    push(w::ORDERS, format!("orders_by_tick {tick}: {e}"));
                    return;
                }
                Ok(l) => listed = l,
            }
            let want: Vec<Listed> = self
                .model
                .live()
                .filter(|o| o.tick == tick)
                .map(|o| Listed {
                    tick,
                    id: o.id,
                    bid: o.bid,
                    owner: o.owner.clone(),
                    quantity: o.quantity(),
                    placed: o.placed,
                    bounty: o.bounty,
                    placed_at: o.placed_at,
                    etas: u(0),
                })
                .collect();
            let got: Vec<Listed> = listed
                .iter()
                .map(|l| Listed {
                    etas: u(0),
                    ..l.clone()
                })
                .collect();
            if got != want {
                push(
                    w::ORDERS,
                    format!("orders at tick {tick} differ:\n    expected {want:?}\n    listed   {got:?}"),
                );
                return;
            }
        }
        if self.watch & (w::TICKLIQ | w::ETAS) != 0 {
            let (a, b) = match tick_vals(&self.chain, tick, self.watch & w::ETAS != 0) {
                Err(e) => {
                    push(w::TICKLIQ | w::ETAS, e);
                    return;
                }
                Ok(x) => x,
            };
            for (bid, s) in [(false, a), (true, b)] {
                let open = self.model.open_at(tick, bid);
                if s.liq != open {
                    push(
                        w::TICKLIQ,
                        format!(
                            "tick {tick} {}: reports liquidity {}, open orders sum to {open}",
                            dir(bid),
                            s.liq
                        ),
                    );
                }
                if self.watch & w::ETAS == 0 {
                    continue;
                }
                let placed = self.model.queues.get(&(tick, bid)).map_or(u(0), |q| q.placed_total);
                if s.ctt != placed {
                    push(
                        w::ETAS,
                        format!("tick {tick} {}: cumulative total {}, placed {placed}", dir(bid), s.ctt),
                    );
                }
                let seen = self.etas_seen.entry((tick, bid)).or_insert(u(0));
                if s.etas < *seen {
                    push(w::ETAS, format!("tick {tick} {}: effective amount swapped fell from {seen} to {}", dir(bid), s.etas));
                }
                *seen = s.etas;
                let pos = s.etas.saturating_add(s.unreal);
                if pos > s.ctt {
                    push(
                        w::ETAS,
                        format!(
                            "tick {tick} {}: swapped {} + unrealised {} beyond cumulative total {}",
                            dir(bid), s.etas, s.unreal, s.ctt
                        ),
                    );
                }
                for l in listed.iter().filter(|l| l.bid == bid) {
                    let o = &self.model.orders[l.id as usize];
                    if l.etas != o.start + o.claimed {
                        push(
                            w::ETAS,
                            format!(
                                "order {}: start position {}, expected {}",
                                l.id, l.etas, o.start + o.claimed
                            ),
                        );
                    }
                    let filled = filled_of(&s, l);
                    if filled != o.unclaimed {
                        push(
                            w::ETAS,
                            format!(
                                "order {} on tick {tick}: published data say {filled} is filled, it is {}",
                                l.id, o.unclaimed
                            ),
                        );
                    }
                }
            }
        }
    }

    pub fn check_globals(&mut self, out: &mut Vec<Div>) {
        let mut push = |bit: u64, msg: String| {
            out.push(Div {
                bit,
                why: None,
                got_ok: true,
                msg,
            })
        };
        let m = &self.model;
        let c = &self.chain;
        let mut cmp = |bit: u64, q: Value, want: Value| {
            if self.watch & bit == 0 {
                return;
            }
            let got = c.query(&q);
            if got.as_ref().ok() != Some(&want) {
                push(bit, format!("query {q}: got {got:?}, expected {want}"));
            }
        };
        if self.watch & w::TOTAL != 0 {
            cmp(
                w::TOTAL,
                json!({"get_total_pool_liquidity": {}}),
                json!({"total_pool_liquidity": [
                    {"denom": BASE, "amount": m.open_total(false).to_string()},
                    {"denom": QUOTE, "amount": m.open_total(true).to_string()}]}),
            );
        }
        if self.watch & w::PTR != 0 {
            let q = json!({"orderbook_state": {}});
            let got = c.query(&q).ok();
            let ok = got.as_ref().map_or(false, |v| {
                geti(v, "next_bid_tick") == Some(m.next_bid)
                    && geti(v, "next_ask_tick") == Some(m.next_ask)
                    && gets(v, "base_denom") == BASE
                    && gets(v, "quote_denom") == QUOTE
            });
            if !ok {
                out.push(Div {
                    bit: w::PTR,
                    why: None,
                    got_ok: true,
                    msg: format!("best ticks: {got:?}, expected bid {} ask {}", m.next_bid, m.next_ask),
                });
            }
        }
        let mut push = |bit: u64, msg: String| {
            out.push(Div {
                bit,
                why: None,
                got_ok: true,
                msg,
            })
        };
        let mut cmp = |bit: u64, q: Value, want: Value| {
            if self.watch & bit == 0 {
                return;
            }
            let got = c.query(&q);
            if got.as_ref().ok() != Some(&want) {
                push(bit, format!("query {q}: got {got:?}, expected {want}"));
            }
        };
        cmp(w::ROLES, json!({"auth": {"admin": {}}}), json!(m.admin));
        cmp(w::ROLES, json!({"auth": {"admin_offer": {}}}), json!(m.admin_offer));
        cmp(w::ROLES, json!({"auth": {"moderator": {}}}), json!(m.moderator));
        cmp(w::ROLES, json!({"auth": {"moderator_offer": {}}}), json!(m.moderator_offer));
        cmp(w::CONF, json!({"get_maker_fee": {}}), json!(dec(m.fee)));
        cmp(w::ACTIVE, json!({"is_active": {}}), json!(m.active));
    }
}
