//! Batch claims against single claims (C09), listings (C11).
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Everything published about ticks and their orders.
pub fn snapshot(c: &Chain) -> Result<Vec<Value>, String> {
    let mut v = vec![];
    let all = c.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    for t in all["ticks"].as_array().ok_or("no ticks")? {
        let id = geti(t, "tick_id").ok_or("tick id")?;
        v.push(c.query(&json!({"orders_by_tick": {"tick_id": id}})).map_err(|e| e.text())?);
        v.push(c.query(&json!({"get_unrealized_cancels": {"tick_ids": [id]}})).map_err(|e| e.text())?);
    }
    v.push(all);
    for q in [
        json!({"get_total_pool_liquidity": {}}),
        json!({"orderbook_state": {}}),
        json!({"get_maker_fee": {}}),
        json!({"is_active": {}}),
        json!({"auth": {"admin": {}}}),
        json!({"auth": {"admin_offer": {}}}),
        json!({"auth": {"moderator": {}}}),
        json!({"auth": {"moderator_offer": {}}}),
    ] {
        v.push(c.query(&q).map_err(|e| e.text())?);
    }
    Ok(v)
}
/// Brings a snapshot to a form that does not depend on when cancellations were worked into a tick.
pub fn settled(mut v: Vec<Value>) -> Result<Vec<Value>, String> {
    let n = v.len() - 9;
    let mut un = BTreeMap::new();
    for x in v[..n].iter_mut().skip(1).step_by(2) {
        let t = &x["ticks"][0];
        let id = geti(t, "tick_id").ok_or("tick id")?;
        for (i, k) in ["ask_unrealized_cancels", "bid_unrealized_cancels"].iter().enumerate() {
            un.insert((id, i), parse_whole_u(gets(&t["unrealized_cancels"], k)).ok_or("unrealised")?);
        }
        *x = Value::Null;
    }
    for t in v[n]["ticks"].as_array_mut().ok_or("ticks")? {
        let id = geti(t, "tick_id").ok_or("tick id")?;
        for (i, k) in ["ask_values", "bid_values"].iter().enumerate() {
            let s = t["tick_state"][k].clone();
            let g = |k: &str| parse_whole_u(gets(&s, k)).ok_or_else(|| format!("{k}: {s}"));
            let (e, r) = (g("effective_total_amount_swapped")?, g("cumulative_realized_cancels")?);
            let unreal = un.get(&(id, i)).copied().ok_or("no unrealised cancels")?;
            t["tick_state"][k] = json!({
                "liquidity": gets(&s, "total_amount_of_liquidity"),
                "placed": gets(&s, "cumulative_total_value"),
                "position": (e + unreal).to_string(),
                "cancels": (r + unreal).to_string(),
            });
        }
    }
    Ok(v)
}
pub fn nonzero(b: &Bank) -> Bank {
    b.iter().filter(|x| *x.1 > 0).map(|(k, v)| (k.clone(), *v)).collect()
}

// ------------------------------------------------------------------ C09

fn claim_events(t: &TxOk) -> Vec<BTreeMap<String, String>> {
    t.events
        .iter()
        .filter(|e| e.0 == "limitClaimed")
        .map(|e| e.1.iter().cloned().collect())
        .collect()
}
fn paid(p: &[Pay]) -> Vec<(String, Vec<(String, u128)>)> {
    let mut v: Vec<_> = p.iter().map(|p| (p.to.clone(), p.coins.clone())).collect();
    v.sort();
    v
}

/// Returns (claims done, entries that failed).
fn batch_vs_single(c: &Chain, sender: &str, list: &[(i64, u64)]) -> Result<(u64, u64), String> {
    let mut b = c.clone();
    for (i, d) in [BASE, QUOTE, "uother"].iter().enumerate() {
        let n = 1 + (list.len() * 7 + i) as u128 % 50;
        if b.mint(sender, d, n) < n {
            continue;
        }
        let was = nonzero(&b.q.bank);
        let coins = [(d.to_string(), n)];
        if b.execute(sender, &coins, &json!({"batch_claim": {"orders": list}})).is_ok() {
            return Err(format!("a batch of {} entries with {n} {d} attached is accepted", list.len()));
        }
        let (tick, id) = *list.get(i).unwrap_or(&(0, 0));
        if b.execute(sender, &coins, &json!({"claim_limit": {"tick_id": tick, "order_id": id}})).is_ok() {
            return Err(format!("a claim of order {id} with {n} {d} attached is accepted"));
        }
        if nonzero(&b.q.bank) != was || (i == 0 && snapshot(&b)? != snapshot(c)?) {
            return Err("a claim refused for its coins left a trace".into());
        }
    }
    let mut b = c.clone();
    let r = b.execute(sender, &[], &json!({"batch_claim": {"orders": list}}));
    if list.len() > 100 {
        if r.is_ok() {
            return Err(format!("a batch of {} entries is accepted", list.len()));
        }
        if snapshot(&b)? != snapshot(c)? || nonzero(&b.q.bank) != nonzero(&c.q.bank) {
            return Err("a rejected batch left a trace".into());
        }
        return Ok((0, 0));
    }
    let t = r.map_err(|e| format!("a batch of {} entries fails: {}", list.len(), e.text()))?;
    let mut s = c.clone();
    let (mut ev, mut pays, mut bad) = (vec![], vec![], 0);
    for (tick, id) in list {
        match s.execute(sender, &[], &json!({"claim_limit": {"tick_id": tick, "order_id": id}})) {
            Ok(x) => {
                ev.extend(claim_events(&x));
                pays.extend(x.pays);
            }
            Err(_) => bad += 1,
        }
    }
    if claim_events(&t) != ev {
        return Err(format!("claim events of the batch {:?}\n    of single claims {ev:?}", claim_events(&t)));
    }
    if paid(&t.pays) != paid(&pays) {
        return Err(format!("payments of the batch {:?}\n    of single claims {:?}", paid(&t.pays), paid(&pays)));
    }
    if nonzero(&b.q.bank) != nonzero(&s.q.bank) {
        return Err(format!("balances differ: {}", show_delta(&deltas(&s.q.bank, &b.q.bank))));
    }
    let (x, y) = (settled(snapshot(&b)?)?, settled(snapshot(&s)?)?);
    if let Some(i) = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)) {
        return Err(format!("state after the batch {:?}\n    after single claims {:?}", x.get(i), y.get(i)));
    }
    Ok((ev.len() as u64, bad))
}

pub fn c09() -> Property {
    let watch = w::OUT_BATCH | w::PAY_BATCH;
    let c = Cfg { batch: 10, claim: 4, swap: 30, bounty: 10, fee: 3, guards: 0, bad: 0, mass: 5, pause: 0, ..Cfg::default() };
    type L = Vec<(u8, Vec<Sel>)>;
    let run = move |(c, lists): &(Case, L)| {
        let (mut n, mut bad) = (0, 0);
        let mut long = 0u64;
        let mut before = |w: &mut World, act: &Act| {
            if let Act::Batch { sender, list, .. } = act {
                let r = batch_vs_single(&w.chain, sender, list)?;
                n += r.0;
                bad += u64::from(r.0 > 0) * r.1;
            }
            Ok(())
        };
        let (mut w, mut f) = history(c, &Hist { watch, keep: all }, &mut before, &mut nopa);
        if f.is_none() && !w.lost {
            for (u, l) in lists {
                let op = Op::Batch { u: *u, list: l.clone(), coins: false };
                if l.len() > 100 {
                    long += 1;
                }
                for act in c.resolve(&op, &w.model) {
                    if let Err(m) = before(&mut w, &act) {
                        f = Some(format!("{m}\n    at {act:?}"));
                    }
                }
                if f.is_some() {
                    break;
                }
            }
        }
        w.stats.insert("entries claimed", n);
        w.stats.insert("entries failing beside claimed ones", bad);
        w.stats.insert("lists over 100", long);
        outcome(&w, f, n >= 2 && bad > 0)
    };
    let lists = |max: usize| prop::collection::vec((0u8..6, prop_oneof![
        6 => prop::collection::vec(sel_s(), 0..12),
        3 => prop::collection::vec(sel_s(), 0..max),
        2 => run_of_filled(),
        1 => prop::collection::vec(sel_s(), 97..104),
    ]), 1..4);
    Property {
        id: "C09",
        rule: "In generated books batches of 0 to 110 entries (claimable, repeated, unknown, unfilled, closed, wrong tick) on one copy of the state and single claims in that order on another: events, payments, balances and all published state compared; non-trivial: at least two entries claimed and one failing in a batch with claims",
        assumptions: vec!["no payment is rejected by the bank (that case is C19)"],
        parts: vec![
            part("histories", 12_000, 250_000, { let c = c.clone(); move || (case(Cfg { ops: 6..45, ..c.clone() }), lists(30)) }, run),
            part("many orders", 3200, 60_000, move || (case(Cfg { mass: 30, max_ticks: 2, ops: 8..30, ..c.clone() }), lists(110)), run),
            part("many ticks", 240, 6000, move || (wide_case(), lists(110)), run),
        ],
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum B {
    No,
    /// key of the n-th order or tick, moved by d
    At(u16, i8),
    Raw(i64, u64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    who: u8,
    from: B,
    to: B,
    limit: Option<u64>,
}

fn bound() -> BoxedStrategy<B> {
    prop_oneof![
        3 => Just(B::No),
        8 => (0u16..400, -1i8..=1).prop_map(|(n, d)| B::At(n, d)),
        1 => (prop_oneof![Just(i64::MIN), Just(i64::MAX), Just(0i64), any_tick()], prop_oneof![Just(0u64), Just(u64::MAX), 0u64..50]).prop_map(|(t, i)| B::Raw(t, i)),
    ]
    .boxed()
}
fn asks() -> BoxedStrategy<Vec<Ask>> {
    let lim = prop_oneof![
        4 => Just(None),
        4 => (0u64..12).prop_map(Some),
        2 => (12u64..130).prop_map(Some),
        1 => (100u64..700).prop_map(Some),
        1 => prop_oneof![Just(u64::MAX), Just(100u64), Just(1u64 << 32)].prop_map(Some),
    ];
    prop::collection::vec((0u8..12, bound(), bound(), lim).prop_map(|(who, from, to, limit)| Ask { who, from, to, limit }), 1..16).boxed()
}

fn entry(o: &Order) -> Listed {
    Listed {
        tick: o.tick,
        id: o.id,
        bid: o.bid,
        owner: o.owner.clone(),
        quantity: o.quantity(),
        placed: o.placed,
        bounty: o.bounty,
        placed_at: o.placed_at,
        etas: u(0),
    }
}
fn listing(c: &Chain, q: &Value) -> Result<(Vec<Listed>, u64), String> {
    let v = c.query(q).map_err(|e| format!("{q}: {}", e.text()))?;
    let mut l = vec![];
    for o in v["orders"].as_array().ok_or("no orders")? {
        l.push(Listed { etas: u(0), ..parse_order(o)? });
    }
    Ok((l, v["count"].as_u64().ok_or("no count")?))
}
fn same(q: &Value, got: &(Vec<Listed>, u64), want: &[Listed], count: usize) -> Result<(), String> {
    if got.0 != want {
        return Err(format!("{q}\n    lists    {:?}\n    expected {want:?}", got.0));
    }
    if got.1 != count as u64 {
        return Err(format!("{q}: count {}, expected {count}", got.1));
    }
    Ok(())
}

fn ask_once(w: &World, a: &Ask, paged: &mut u64) -> Result<(), String> {
    let m = &w.model;
    let c = &w.chain;
    let by_key = |b: &B, keys: &[(i64, u64)]| -> Option<(i64, u64)> {
        match b {
            B::No => None,
            B::At(_, _) if keys.is_empty() => None,
            B::At(n, d) => {
                let k = keys[*n as usize % keys.len()];
                Some(match (n / 7 % 2, *d) {
                    (0, d) => (k.0, if d < 0 { k.1.saturating_sub(1) } else { k.1 + d as u64 }),
                    (_, d) => (k.0 + d as i64, k.1),
                })
            }
            B::Raw(t, i) => Some((*t, *i)),
        }
    };
    // by owner
    let owner = if a.who >= 11 { "osmo1nobody".to_string() } else { user(a.who) };
    let mut mine: Vec<&Order> = m.live().filter(|o| o.owner == owner).collect();
    mine.sort_by_key(|o| (o.tick, o.id));
    let keys: Vec<(i64, u64)> = mine.iter().map(|o| (o.tick, o.id)).collect();
    let (from, to) = (by_key(&a.from, &keys), by_key(&a.to, &keys));
    let q = json!({"orders_by_owner": {"owner": owner, "start_from": from, "end_at": to, "limit": a.limit}});
    let want: Vec<Listed> = mine
        .iter()
        .filter(|o| from.map_or(true, |k| (o.tick, o.id) >= k) && to.map_or(true, |k| (o.tick, o.id) <= k))
        .take(a.limit.unwrap_or(100).min(1 << 20) as usize)
        .map(|o| entry(o))
        .collect();
    same(&q, &listing(c, &q)?, &want, mine.len())?;
    // paging through everything
    if let Some(step @ 1..=40) = a.limit {
        let mut all = vec![];
        let mut from: Option<(i64, u64)> = None;
        for _ in 0..mine.len() + 8 {
            let q = json!({"orders_by_owner": {"owner": owner, "start_from": from, "limit": step}});
            let (p, _) = listing(c, &q)?;
            *paged += 1;
            let n = p.len();
            all.extend(p);
            if (n as u64) < step {
                break;
            }
            from = all.last().map(|o| (o.tick, o.id + 1));
        }
        let want: Vec<Listed> = mine.iter().map(|o| entry(o)).collect();
        if all != want {
            return Err(format!("paging by {step} through the orders of {owner} gives {all:?}\n    expected {want:?}"));
        }
    }
    // by tick
    let ticks = m.ticks();
    let tick = if ticks.is_empty() || a.who >= 11 { 123_456 } else { ticks[a.who as usize % ticks.len()] };
    let here: Vec<&Order> = m.live().filter(|o| o.tick == tick).collect();
    let keys: Vec<(i64, u64)> = here.iter().map(|o| (o.tick, o.id)).collect();
    let id = |b: &B| by_key(b, &keys).map(|k| k.1);
    let (from, to) = (id(&a.from), id(&a.to));
    let q = json!({"orders_by_tick": {"tick_id": tick, "start_from": from, "end_at": to, "limit": a.limit}});
    let inside: Vec<Listed> = here
        .iter()
        .filter(|o| from.map_or(true, |k| o.id >= k) && to.map_or(true, |k| o.id <= k))
        .map(|o| entry(o))
        .collect();
    let n = inside.len();
    let want: Vec<Listed> = inside.into_iter().take(a.limit.unwrap_or(1 << 20).min(1 << 20) as usize).collect();
    same(&q, &listing(c, &q)?, &want, n)?;
    if let Some(step @ 1..=40) = a.limit {
        let mut all = vec![];
        let mut from = 0u64;
        for _ in 0..here.len() + 8 {
            let q = json!({"orders_by_tick": {"tick_id": tick, "start_from": from, "limit": step}});
            let (p, _) = listing(c, &q)?;
            *paged += 1;
            let n = p.len();
            all.extend(p);
            if (n as u64) < step {
                break;
            }
            from = all.last().map_or(0, |o| o.id + 1);
        }
        let want: Vec<Listed> = here.iter().map(|o| entry(o)).collect();
        if all != want {
            return Err(format!("paging by {step} through tick {tick} gives {all:?}\n    expected {want:?}"));
        }
    }
    // ticks
    let keys: Vec<(i64, u64)> = ticks.iter().map(|t| (*t, 0)).collect();
    let tk = |b: &B| match b {
        B::At(n, d) if !keys.is_empty() => Some(keys[*n as usize % keys.len()].0 + *d as i64),
        B::Raw(t, _) => Some(*t),
        _ => None,
    };
    let (from, to) = (tk(&a.from), tk(&a.to));
    let limit = a.limit.map(|l| l.min(u32::MAX as u64));
    let q = json!({"all_ticks": {"start_from": from, "end_at": to, "limit": limit}});
    let v = c.query(&q).map_err(|e| format!("{q}: {}", e.text()))?;
    let want: Vec<i64> = ticks
        .iter()
        .copied()
        .filter(|t| from.map_or(true, |k| *t >= k) && to.map_or(true, |k| *t <= k))
        .take(limit.unwrap_or(1 << 20) as usize)
        .collect();
    let l = v["ticks"].as_array().ok_or("no ticks")?;
    let got: Vec<i64> = l.iter().filter_map(|t| geti(t, "tick_id")).collect();
    if got != want || l.len() != want.len() {
        return Err(format!("{q} lists {got:?}, expected {want:?}"));
    }
    // the same ticks asked for one by one, in another order, one of them twice
    if !got.is_empty() {
        let mut ids: Vec<i64> = got.iter().rev().copied().collect();
        ids.push(got[0]);
        let q = json!({"ticks_by_id": {"tick_ids": ids}});
        let r = c.query(&q).map_err(|e| format!("{q}: {}", e.text()))?;
        let mut exp: Vec<Value> = l.iter().rev().cloned().collect();
        exp.push(l[0].clone());
        if r["ticks"] != json!(exp) {
            return Err(format!("{q} gives {r}, all_ticks {v}"));
        }
        let r = c.query(&json!({"get_unrealized_cancels": {"tick_ids": ids}})).map_err(|e| format!("unrealised cancels of {ids:?}: {}", e.text()))?;
        let back: Vec<i64> = r["ticks"].as_array().ok_or("no ticks")?.iter().filter_map(|t| geti(t, "tick_id")).collect();
        if back != ids {
            return Err(format!("unrealised cancels of {ids:?} names {back:?}"));
        }
    }
    // a tick never used
    let mut fresh = from.unwrap_or(7);
    while ticks.contains(&fresh) {
        fresh = fresh.wrapping_add(1);
    }
    let mut ids = got;
    ids.insert(a.who as usize % (ids.len() + 1), fresh);
    for k in ["ticks_by_id", "get_unrealized_cancels"] {
        match c.query(&json!({k: {"tick_ids": ids}})) {
            Err(TxErr::Contract(_)) => {}
            x => return Err(format!("{k} of the unused tick {fresh}: {x:?}")),
        }
    }
    Ok(())
}

/// Every limit and every start gives its part of the full listing.
fn every_limit(w: &World) -> Result<u64, String> {
    let (m, c) = (&w.model, &w.chain);
    let Some(owner) = USERS.iter().max_by_key(|x| m.live().filter(|o| o.owner == **x).count()) else { return Ok(0) };
    let ticks = m.ticks();
    let Some(tick) = ticks.iter().max_by_key(|t| m.live().filter(|o| o.tick == **t).count()) else { return Ok(0) };
    let mut n = 0;
    let lists: [(&str, &str, Value); 3] = [
        ("orders_by_owner", "orders", json!({"owner": owner, "limit": 100_000})),
        ("orders_by_tick", "orders", json!({"tick_id": tick, "limit": 100_000})),
        ("all_ticks", "ticks", json!({"limit": 100_000})),
    ];
    for (name, field, base) in lists {
        let get = |q: &Value| -> Result<Vec<Value>, String> {
            let v = c.query(&json!({name: q})).map_err(|e| format!("{name} {q}: {}", e.text()))?;
            Ok(v[field].as_array().ok_or("no list")?.clone())
        };
        let full = get(&base)?;
        for k in 0..full.len().min(300) + 2 {
            let mut q = base.clone();
            q["limit"] = json!(k);
            let l = get(&q)?;
            n += 1;
            if l[..] != full[..k.min(full.len())] {
                return Err(format!("{name} {q} lists {} entries, not the first of {}", l.len(), full.len()));
            }
        }
        for (k, e) in full.iter().enumerate().step_by(1 + full.len() / 60) {
            let mut q = base.clone();
            q["start_from"] = match name {
                "orders_by_owner" => json!([e["tick_id"], e["order_id"]]),
                "orders_by_tick" => e["order_id"].clone(),
                _ => e["tick_id"].clone(),
            };
            let l = get(&q)?;
            n += 1;
            if l[..] != full[k..] {
                return Err(format!("{name} {q} lists {} entries, not the last {} of {}", l.len(), full.len() - k, full.len()));
            }
        }
    }
    Ok(n)
}

pub fn c11() -> Property {
    let watch = w::ORDERS;
    let c = Cfg { cancel: 12, claim: 12, guards: 0, bad: 1, advance: 4, ..Cfg::default() };
    let run = move |(c, q): &(Case, Vec<Ask>)| {
        let mut pages = 0;
        let mut i = 0usize;
        let (mut w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut |w, _, _, _| {
            if w.steps % 6 == 5 && (w.model.queues.len() < 24 || w.steps % 60 == 5) {
                i += 1;
                ask_once(w, &q[i % q.len()], &mut pages)?;
            }
            Ok(())
        });
        if f.is_none() && !w.lost {
            f = q.iter().find_map(|a| ask_once(&w, a, &mut pages).err());
            if f.is_none() && (w.model.live().count() > 60 || w.model.queues.len() > 24) {
                match every_limit(&w) {
                    Ok(n) => pages += n,
                    Err(e) => f = Some(e),
                }
            }
        }
        w.stats.insert("pages", pages);
        let most = USERS.iter().map(|x| w.model.live().filter(|o| o.owner == *x).count()).max().unwrap_or(0);
        if most > 100 {
            w.stats.insert("an owner with more than 100 orders", 1);
        }
        outcome(&w, f, w.model.live().count() >= 4 && w.stat("claimed") + w.stat("cancelled") > 0)
    };
    let many = || {
        let c = Cfg { mass: 0, place: 6, cancel: 4, claim: 6, swap: 8, ticks: TickStyle::Near, ..Cfg::default() };
        let m = (0u8..5, 0u8..3, any::<bool>(), 20u8..70, 1u128..1000).prop_map(|(u, t, bid, n, q)| Op::MassPlace { u, t, bid, n, q, step: 1, b: None });
        (case(Cfg { ops: 4..14, max_ticks: 3, ..c.clone() }), prop::collection::vec(m, 3..8), asks()).prop_map(|(mut c, m, q)| {
            let mut i = 0;
            for x in m {
                c.ops.insert(i, x);
                i = (i + 2).min(c.ops.len());
            }
            (c, q)
        })
    };
    Property {
        id: "C11",
        rule: "During and after generated histories listings by owner, by tick and of ticks with generated bounds (at, beside and far from existing keys, inverted), limits and page sizes, compared with the model's resting orders; owners whose addresses are prefixes of each other, owners with over 100 orders; non-trivial: at least four resting orders after a claim or cancellation; a part in which order ids go on at high numbers (moved in the storage of a copy) against the same history without, in its case non-trivial: two placements later and a claim or cancellation",
        assumptions: vec!["the tick listing without limit returns everything (the README mentions 100, the code and its tests do not)"],
        parts: vec![
            part("histories", 7000, 300_000, { let c = c.clone(); move || (case(c.clone()), asks()) }, run),
            part("many orders", 260, 12_000, many, run),
            part("many ticks", 120, 6000, || (wide_case(), asks()), run),
            super::upgrade::late_part(4000, 200_000),
        ],
    }
}
