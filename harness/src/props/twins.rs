//! Faults (C19), independence and mirror (C25), migration and old records (C27): runs of the real
//! contract compared with other runs of the real contract.
use super::batch::{nonzero, settled, snapshot};
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C19

/// The act on copies with payments refused. Returns (fault runs, payments).
fn faults(c0: &Chain, act: &Act, exhaustive: bool) -> Result<(u64, usize), String> {
    let mut base = c0.clone();
    if !fund(&mut base, act) {
        return Ok((0, 0));
    }
    let mut good = base.clone();
    let r = run_act(&mut good, act);
    let Ok(tx) = r else { return Ok((0, 0)) };
    let n = good.attempted.len();
    if n == 0 {
        return Ok((0, 0));
    }
    let mut sets: Vec<BTreeSet<usize>> = vec![];
    if n <= 3 || (n == 4 && exhaustive) {
        for m in 1u32..1 << n {
            sets.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    } else {
        sets.extend((0..n).map(|i| BTreeSet::from([i])));
        sets.push((0..n).collect());
        sets.push(BTreeSet::from([0, n - 1]));
    }
    let before = snapshot(&base)?;
    let bank = nonzero(&base.q.bank);
    let mut runs = 0;
    let mut check = |mut c: Chain, what: String| -> Result<(), String> {
        runs += 1;
        let r = run_act(&mut c, act);
        let mut retried = false;
        match r {
            Ok(_) => return Err(format!("{what}: the transaction succeeds")),
            Err(TxErr::Panic(p)) => return Err(format!("{what}: panic {p}")),
            Err(_) => {}
        }
        if snapshot(&c)? != before || nonzero(&c.q.bank) != bank {
            return Err(format!("{what}: the refused transaction changed something"));
        }
        c.fail_pays.clear();
        c.blocked.clear();
        c.env = base.env.clone();
        if let Ok(t) = run_act(&mut c, act) {
            retried = t.pays == tx.pays && t.data == tx.data && t.events == tx.events && t.attrs == tx.attrs;
        }
        if !retried || nonzero(&c.q.bank) != nonzero(&good.q.bank) || snapshot(&c)? != snapshot(&good)? {
            return Err(format!("{what}: trying again without the fault gives another result"));
        }
        Ok(())
    };
    for s in sets {
        let mut c = base.clone();
        c.fail_pays = s.clone();
        check(c, format!("{act:?} with payments {s:?} of {n} refused by the bank"))?;
    }
    let to: BTreeSet<String> = good.attempted.iter().map(|p| p.to.clone()).collect();
    for t in to {
        let mut c = base.clone();
        c.blocked.insert(t.clone());
        check(c, format!("{act:?} with payments to {t} refused by the bank"))?;
    }
    // the contract cannot pay at all
    let mut c = base.clone();
    for d in [BASE, QUOTE] {
        let have = c.balance(CONTRACT, d);
        if have > 0 {
            let _ = c.transfer(CONTRACT, "osmo1void", d, have);
        }
    }
    if run_act(&mut c, act).is_ok() {
        let need = |d: &str| tx.pays.iter().flat_map(|p| &p.coins).filter(|x| x.0 == d).map(|x| x.1).fold(0u128, |a, b| a.saturating_add(b));
        let extra = match act {
            Act::Swap { tin, amount, .. } => Some((tin.as_str(), *amount)),
            _ => None,
        };
        for d in [BASE, QUOTE] {
            let got = extra.filter(|e| e.0 == d).map_or(0, |e| e.1);
            if need(d) > got {
                return Err(format!("{act:?} succeeds although the contract cannot pay {}{d}", need(d)));
            }
        }
    }
    Ok((runs, n))
}

pub fn c19() -> Property {
    let c = Cfg { fee: 5, bounty: 30, batch: 4, swap: 26, claim: 22, guards: 8, bad: 0, mass: 2, ..Cfg::default() };
    let run = move |c: &Case| {
        let (mut n, mut many, mut swaps) = (0u64, 0u64, 0u64);
        let mut before = |w: &mut World, act: &Act| {
            if !matches!(act.kind(), Kind::Place | Kind::Auth | Kind::Sudo | Kind::Other) {
                let (r, k) = faults(&w.chain, act, true)?;
                n += r;
                many += u64::from(k >= 2);
                swaps += u64::from(k >= 2 && act.kind() == Kind::Swap);
            }
            Ok(())
        };
        let (mut w, f) = history(c, &Hist { watch: 0, keep: all }, &mut before, &mut nopa);
        w.stats.insert("runs with a fault", n);
        w.stats.insert("transactions with several payments", many);
        w.stats.insert("swaps with refund", swaps);
        outcome(&w, f, many > 0)
    };
    Property {
        id: "C19",
        rule: "Every paying message of generated histories is first run on copies with every combination (over three payments: each single, first and last, all) of its payments refused by the bank, each recipient blocked, and an emptied contract account: it must fail, leave all published state and balances, and succeed identically afterwards; non-trivial: a transaction with at least two payments was faulted",
        assumptions: vec!["a transaction that returns an error is rolled back by the chain"],
        parts: vec![
            part("histories", 4400, 90_000, { let c = c.clone(); move || case(Cfg { ops: 4..40, ..c.clone() }) }, run),
            part("short", 12_000, 250_000, move || case(Cfg { ops: 3..12, max_ticks: 2, ..c.clone() }), run),
        ],
    }
}

// ------------------------------------------------------------------ C25

/// Liquidity of every tick: (tick, bid) -> amount
fn liquidity(c: &Chain) -> Result<BTreeMap<(i64, bool), u128>, String> {
    let v = c.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    let mut m = BTreeMap::new();
    for t in v["ticks"].as_array().ok_or("ticks")? {
        for (bid, k) in [(false, "ask_values"), (true, "bid_values")] {
            let n = parse_whole(gets(&t["tick_state"][k], "total_amount_of_liquidity")).ok_or("liquidity")?;
            m.insert((geti(t, "tick_id").ok_or("tick id")?, bid), n);
        }
    }
    Ok(m)
}

/// One act as seen by one tick and side.
#[derive(Clone, Debug)]
enum Seen {
    Act(Act),
    /// this much was filled here
    Fill(u128),
}
type Rec = (Seen, Vec<(String, Vec<(String, u128)>)>, bool);

fn pays_of(r: &TxRes) -> Vec<(String, Vec<(String, u128)>)> {
    let mut v: Vec<_> = r.as_ref().map_or(vec![], |t| t.pays.iter().map(|p| (p.to.clone(), p.coins.clone())).collect());
    v.sort();
    v
}

/// The side's orders and values, ids renumbered by rank among the side's placements.
fn side_view(c: &Chain, tick: i64, bid: bool, ids: &dyn Fn(u64) -> Option<u64>) -> Result<String, String> {
    if tick_vals(c, tick, false).is_err() {
        return Ok("unused".into());
    }
    let l = list_by_tick(c, tick)?;
    let (a, b) = tick_vals(c, tick, true)?;
    let s = if bid { b } else { a };
    let mut out = format!("liquidity {} placed {} position {};", s.liq, s.ctt, s.etas + s.unreal);
    for o in l.iter().filter(|o| o.bid == bid) {
        out += &format!(" #{:?} {} {}/{} at {} bounty {:?};", ids(o.id), o.owner, o.quantity, o.placed, o.etas, o.bounty);
    }
    Ok(out)
}

fn project(case: &Case) -> (World, Option<String>, u64, u64) {
    let mut recs: BTreeMap<(i64, bool), Vec<Rec>> = BTreeMap::new();
    // acts everybody sees, in place: roles, fees, pauses
    let mut keys: BTreeSet<(i64, bool)> = BTreeSet::new();
    let mut w = World::new(0);
    let mut common: Vec<(usize, Act)> = vec![];
    let mut seq: BTreeMap<(i64, bool), Vec<usize>> = BTreeMap::new();
    let mut i = 0usize;
    let mut side_of: BTreeMap<(i64, u64), bool> = BTreeMap::new();
    let r: Result<(), String> = (|| {
        for op in &case.ops {
            for act in case.resolve(op, &w.model) {
                if w.lost {
                    return Ok(());
                }
                i += 1;
                let l0 = liquidity(&w.chain)?;
                let (_, res) = w.apply_full(&act);
                let Some((tx, _)) = res else { continue };
                if w.lost {
                    return Ok(());
                }
                let ok = tx.is_ok();
                let mut note = |k: (i64, bool), s: Seen, p: Vec<_>| {
                    keys.insert(k);
                    recs.entry(k).or_default().push((s, p, ok));
                    seq.entry(k).or_default().push(i);
                };
                match &act {
                    Act::Place { tick, bid, .. } => {
                        if let Ok(t) = &tx {
                            let id: u64 = t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok()).ok_or("no order id")?;
                            side_of.insert((*tick, id), *bid);
                            note((*tick, *bid), Seen::Act(act.clone()), vec![]);
                        }
                    }
                    Act::Cancel { tick, id, .. } | Act::Claim { tick, id, .. } => {
                        if let Some(bid) = side_of.get(&(*tick, *id)) {
                            note((*tick, *bid), Seen::Act(act.clone()), pays_of(&tx));
                        }
                    }
                    Act::Swap { .. } if ok => {
                        let l1 = liquidity(&w.chain)?;
                        for (k, n) in &l0 {
                            let m = l1.get(k).copied().unwrap_or(0);
                            if m > *n {
                                return Err(format!("a swap raised the liquidity of {k:?} from {n} to {m}"));
                            }
                            if m < *n {
                                note(*k, Seen::Fill(n - m), vec![]);
                            }
                        }
                    }
                    Act::Auth { .. } | Act::Sudo(_) if ok => common.push((i, act.clone())),
                    _ => {}
                }
            }
        }
        Ok(())
    })();
    if let Err(m) = r {
        return (w, Some(m), 0, 0);
    }
    if w.lost {
        return (w, None, 0, 0);
    }
    let (mut n, mut foreign) = (0u64, 0u64);
    for k in keys {
        if foreign < i as u64 - recs[&k].len() as u64 {
            foreign = i as u64 - recs[&k].len() as u64;
        }
        n += 1;
        if let Err(m) = project_one(&w, k, &recs[&k], &seq[&k], &common) {
            return (w, Some(format!("tick {} {}: {m}", k.0, dir(k.1))), n, foreign);
        }
    }
    (w, None, n, foreign)
}

/// Only what this tick and side saw, on a fresh book.
fn project_one(w: &World, (tick, bid): (i64, bool), recs: &[Rec], seq: &[usize], common: &[(usize, Act)]) -> Result<(), String> {
    let mut c = new_chain();
    let mut map: BTreeMap<u64, u64> = BTreeMap::new();
    let mut order: Vec<u64> = w.model.orders.iter().filter(|o| o.tick == tick && o.bid == bid).map(|o| o.id).collect();
    order.reverse();
    let mut com = common.iter().peekable();
    for ((s, pays, ok), at) in recs.iter().zip(seq) {
        while com.peek().map_or(false, |x| x.0 < *at) {
            let _ = run_act(&mut c, &com.next().unwrap().1);
        }
        let p = price(tick);
        match s {
            Seen::Fill(x) => {
                // input that takes exactly this much here
                let inp = if bid { div_price(*x, p, Round::Up) } else { mul_price(*x, p, Round::Up) };
                let (tin, tout) = if bid { (BASE, QUOTE) } else { (QUOTE, BASE) };
                let a = Act::Swap { sender: "osmo1zed".into(), tin: tin.into(), amount: to_u128(inp).unwrap(), tout: tout.into(), min_out: *x, fee: 0, limit: None };
                if !fund(&mut c, &a) {
                    return Ok(());
                }
                let r = run_act(&mut c, &a).map_err(|e| format!("a fill of {x} alone is refused: {}", e.text()))?;
                let got: u128 = r.pays.iter().flat_map(|p| &p.coins).filter(|c| c.0 == tout).map(|c| c.1).sum();
                if got != *x {
                    return Err(format!("a fill of {x} alone gives {got}"));
                }
            }
            Seen::Act(a) => {
                let b = match a {
                    Act::Cancel { sender, tick, id, funds } => Act::Cancel { sender: sender.clone(), tick: *tick, id: map.get(id).copied().ok_or("order")?, funds: funds.clone() },
                    Act::Claim { sender, tick, id, funds } => Act::Claim { sender: sender.clone(), tick: *tick, id: map.get(id).copied().ok_or("order")?, funds: funds.clone() },
                    x => x.clone(),
                };
                if !fund(&mut c, &b) {
                    return Ok(());
                }
                let r = run_act(&mut c, &b);
                if let (Act::Place { .. }, Ok(t)) = (a, &r) {
                    let id: u64 = t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok()).ok_or("no order id")?;
                    map.insert(order.pop().ok_or("order")?, id);
                }
                if r.is_ok() != *ok {
                    return Err(format!("{a:?} is {} in the full history, alone it is {:?}", if *ok { "accepted" } else { "refused" }, r.map(|_| ()).map_err(|e| e.text())));
                }
                if !matches!(a, Act::Place { .. }) && pays_of(&r) != *pays {
                    return Err(format!("{a:?} pays {pays:?} in the full history, alone {:?}", pays_of(&r)));
                }
            }
        }
    }
    let full = side_view(&w.chain, tick, bid, &|id| map.get(&id).copied())?;
    let alone = side_view(&c, tick, bid, &Some)?;
    if full != alone {
        return Err(format!("after the full history: {full}\n    after its own part alone: {alone}"));
    }
    Ok(())
}

/// Ticks of the mirrored book: 0 stays, the ends of the range change places.
fn mirror_tick(t: i64) -> i64 {
    let d = 1_000_000;
    if t > MAX_TICK {
        MIN_TICK.saturating_sub(t - MAX_TICK)
    } else if t < MIN_TICK {
        MAX_TICK.saturating_add(MIN_TICK.saturating_sub(t))
    } else if t > MAX_TICK - d {
        MIN_TICK + (MAX_TICK - t)
    } else if t < MIN_TICK + d {
        MAX_TICK - (t - MIN_TICK)
    } else {
        -t
    }
}
fn flip(d: &str) -> String {
    match d {
        BASE => QUOTE.into(),
        QUOTE => BASE.into(),
        x => x.into(),
    }
}
fn mirror(a: &Act) -> Act {
    let f = |v: &Vec<(String, u128)>| v.iter().map(|(d, n)| (flip(d), *n)).collect::<Vec<_>>();
    match a {
        Act::Place { sender, tick, bid, qty, bounty, funds } => Act::Place { sender: sender.clone(), tick: mirror_tick(*tick), bid: !bid, qty: *qty, bounty: *bounty, funds: f(funds) },
        Act::Cancel { sender, tick, id, funds } => Act::Cancel { sender: sender.clone(), tick: mirror_tick(*tick), id: *id, funds: f(funds) },
        Act::Claim { sender, tick, id, funds } => Act::Claim { sender: sender.clone(), tick: mirror_tick(*tick), id: *id, funds: f(funds) },
        Act::Batch { sender, list, funds } => Act::Batch { sender: sender.clone(), list: list.iter().map(|x| (mirror_tick(x.0), x.1)).collect(), funds: f(funds) },
        Act::Swap { sender, tin, amount, tout, min_out, fee, limit } => Act::Swap { sender: sender.clone(), tin: flip(tin), amount: *amount, tout: flip(tout), min_out: *min_out, fee: *fee, limit: limit.map(mirror_tick) },
        x => x.clone(),
    }
}

fn mirrored(case: &Case) -> (World, Option<String>) {
    let mut w = World::new(0);
    let mut m = new_chain();
    // same supplies on both sides
    let r: Result<(), String> = (|| {
        for op in &case.ops {
            for act in case.resolve(op, &w.model) {
                if w.lost {
                    return Ok(());
                }
                let b = mirror(&act);
                let (_, res) = w.apply_full(&act);
                let funded = fund(&mut m, &b);
                let Some((x, _)) = res else { continue };
                if !funded {
                    return Ok(());
                }
                let y = run_act(&mut m, &b);
                if x.is_ok() != y.is_ok() {
                    return Err(format!("{act:?}: {:?}\n    mirrored {:?}", x.map(|_| ()).map_err(|e| e.text()), y.map(|_| ()).map_err(|e| e.text())));
                }
                if let (Ok(x), Ok(y)) = (&x, &y) {
                    let fl = |p: &Vec<Pay>| p.iter().map(|p| (p.to.clone(), p.coins.iter().map(|c| (flip(&c.0), c.1)).collect::<Vec<_>>())).collect::<Vec<_>>();
                    let id = |p: &Vec<Pay>| p.iter().map(|p| (p.to.clone(), p.coins.clone())).collect::<Vec<_>>();
                    let (mut a, mut c) = (fl(&x.pays), id(&y.pays));
                    a.sort();
                    c.sort();
                    if a != c || x.data != y.data {
                        return Err(format!("{act:?}: pays (mirrored) {a:?}, the mirrored message pays {c:?}; data {:?} / {:?}", x.data, y.data));
                    }
                }
            }
        }
        if w.lost {
            return Ok(());
        }
        // books
        let (l, r) = (list_by_tick(&w.chain, 0)?, list_by_tick(&m, 0)?);
        let r: Vec<Listed> = r.into_iter().map(|o| Listed { bid: !o.bid, ..o }).collect();
        if l != r {
            return Err(format!("orders {l:?}\n    mirrored {r:?}"));
        }
        if tick_vals(&w.chain, 0, true).is_ok() {
            let (a, b) = tick_vals(&w.chain, 0, true)?;
            let (c, d) = tick_vals(&m, 0, true)?;
            if (&a, &b) != (&d, &c) {
                return Err(format!("tick values {a:?} {b:?}\n    mirrored {d:?} {c:?}"));
            }
        }
        let (s, t) = (w.chain.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?, m.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?);
        let (nb, na) = (geti(&s, "next_bid_tick").ok_or("bid")?, geti(&s, "next_ask_tick").ok_or("ask")?);
        if Some(mirror_tick(nb)) != geti(&t, "next_ask_tick") || Some(mirror_tick(na)) != geti(&t, "next_bid_tick") {
            return Err(format!("best ticks {s}\n    mirrored {t}"));
        }
        Ok(())
    })();
    (w, r.err())
}

/// Two acts on different ticks or sides, in both orders.
fn swapped_order(w: &World, a: &Act, b: &Act) -> Result<bool, String> {
    // tokens for both come first, so that what one pays does not change what the other needs
    let mut base = w.chain.clone();
    for z in [a, b] {
        if let Act::Place { sender, funds, .. } | Act::Cancel { sender, funds, .. } | Act::Claim { sender, funds, .. } = z {
            for (d, n) in funds {
                if base.mint(sender, d, *n) < *n {
                    return Ok(false);
                }
            }
        }
    }
    let run = |x: &Act, y: &Act| -> (Chain, Vec<TxRes>) {
        let mut c = base.clone();
        let mut v = vec![];
        for z in [x, y] {
            c.env = base.env.clone();
            v.push(run_act(&mut c, z));
        }
        (c, v)
    };
    let ((c, r), (d, s)) = (run(a, b), run(b, a));
    for (i, act) in [a, b].iter().enumerate() {
        let (x, y) = (&r[i], &s[1 - i]);
        if x.is_ok() != y.is_ok() || pays_of(x) != pays_of(y) {
            return Err(format!("{act:?} gives {:?}, in the other order {:?}", pays_of(x), pays_of(y)));
        }
    }
    if settled(snapshot(&c)?)? != settled(snapshot(&d)?)? || nonzero(&c.q.bank) != nonzero(&d.q.bank) {
        return Err(format!("{a:?} and {b:?} in the other order leave another state: {:?}\n    {:?}", settled(snapshot(&c)?)?, settled(snapshot(&d)?)?));
    }
    Ok(r.iter().all(|x| x.is_ok()))
}

fn side(m: &Model, a: &Act) -> Option<(i64, bool)> {
    match a {
        Act::Place { tick, bid, .. } => Some((*tick, *bid)),
        Act::Cancel { tick, id, .. } | Act::Claim { tick, id, .. } => m.orders.get(*id as usize).filter(|o| o.tick == *tick).map(|o| (*tick, o.bid)),
        _ => None,
    }
}

pub fn c25() -> Property {
    let c = Cfg { batch: 0, auth: 0, pause: 0, fee: 2, guards: 1, bad: 0, mass: 5, cancel: 20, ..Cfg::default() };
    let proj = move |c: &Case| {
        let (mut w, f, n, foreign) = project(c);
        w.stats.insert("ticks and sides replayed alone", n);
        outcome(&w, f, n >= 2 && foreign >= 3 && w.stat("swapped") > 0 && w.stat("cancelled") > 0)
    };
    let mir = move |c: &Case| {
        let (w, f) = mirrored(c);
        outcome(&w, f, w.stat("swapped") > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0)
    };
    let ex = move |(c, x, y): &(Case, Vec<Op>, Vec<Op>)| {
        let (mut w, mut f) = history(c, &Hist { watch: 0, keep: all }, &mut nop, &mut nopa);
        let mut n = 0u64;
        if f.is_none() && !w.lost {
            'l: for (x, y) in x.iter().zip(y) {
                for a in c.resolve(x, &w.model).into_iter().take(1) {
                    for b in c.resolve(y, &w.model).into_iter().take(1) {
                        let (Some(k), Some(l)) = (side(&w.model, &a), side(&w.model, &b)) else { continue };
                        if k == l || a.kind() == Kind::Place && b.kind() == Kind::Place {
                            continue;
                        }
                        match swapped_order(&w, &a, &b) {
                            Ok(true) => n += 1,
                            Ok(false) => {}
                            Err(m) => {
                                f = Some(m);
                                break 'l;
                            }
                        }
                    }
                }
            }
        }
        w.stats.insert("pairs exchanged", n);
        outcome(&w, f, n > 0)
    };
    let some = || {
        let o = prop_oneof![1 => place(&Cfg { bad: 0, ..Cfg::default() }, 1), 2 => cancel(), 2 => claim()];
        prop::collection::vec(o, 8)
    };
    Property {
        id: "C25",
        rule: "Generated histories on several ticks; what each tick and side saw (swaps as direct fills) is replayed alone on a fresh book and compared in outcomes, payments, orders and values; histories at price one against their mirror image; pairs of messages on different ticks or sides in both orders; non-trivial: two sides replayed in a history with at least three foreign messages, a fill and a cancellation; mirror: a swap, a claim and a cancellation; exchange: both messages accepted",
        assumptions: vec![],
        parts: vec![
            part("one tick and side alone", 9000, 200_000, { let c = c.clone(); move || case(Cfg { ops: 6..50, ..c.clone() }) }, proj),
            part("mirror at price one", 12_000, 250_000, { let c = c.clone(); move || case(Cfg { ticks: TickStyle::One, guards: 6, bad: 3, batch: 3, max_ticks: 1, ..c.clone() }) }, mir),
            part("exchanged messages", 8000, 200_000, move || (case(Cfg { ops: 4..30, fee: 0, ..c.clone() }), some(), some()), ex),
        ],
    }
}

// ------------------------------------------------------------------ C27

/// Turns every order record into the form of the version before placement times.
pub fn age(c: &mut Chain, which: u64) -> u64 {
    let mut n = 0;
    for (i, v) in c.store.map.values_mut().enumerate() {
        let Ok(Value::Object(mut o)) = serde_json::from_slice::<Value>(v) else { continue };
        if !(o.contains_key("etas") && o.contains_key("placed_quantity")) {
            continue;
        }
        if which != 0 && (i as u64).wrapping_mul(2654435761) >> 7 & 1 == which & 1 {
            continue;
        }
        if o.remove("placed_at").is_some() {
            // field order does not matter to the reader
            *v = serde_json::to_vec(&Value::Object(o)).unwrap();
            n += 1;
        }
    }
    n
}

fn untimed(mut v: Vec<Value>) -> Vec<Value> {
    for x in &mut v {
        if let Some(l) = x.get_mut("orders").and_then(|l| l.as_array_mut()) {
            for o in l {
                o["placed_at"] = Value::Null;
            }
        }
    }
    v
}

/// The same history on the chain followed by the model and on a second one that is migrated or aged.
fn neutral(case: &Case, seeds: &[u8], aging: bool) -> (World, Option<String>, u64) {
    let mut w = World::new(0);
    let mut d = w.chain.clone();
    let mut n = 0u64;
    let mut aged: BTreeSet<u64> = BTreeSet::new();
    let mut i = 0usize;
    let r: Result<(), String> = (|| {
        for op in &case.ops {
            for act in case.resolve(op, &w.model) {
                if w.lost {
                    return Ok(());
                }
                i += 1;
                let s = seeds[i % seeds.len()];
                if s % 8 == 0 {
                    if aging {
                        let k = age(&mut d, if s < 128 { 0 } else { s as u64 });
                        if k > 0 {
                            n += 1;
                            for t in w.model.ticks() {
                                for o in list_by_tick(&d, t).map_err(|e| format!("listing old records: {e}"))? {
                                    if o.placed_at == 0 {
                                        aged.insert(o.id);
                                    }
                                }
                            }
                        }
                    }
                    if !aging || s % 16 == 0 {
                        let (env, same) = (d.env.clone(), d.same_block);
                        let before = snapshot(&d)?;
                        let bank = nonzero(&d.q.bank);
                        let r = d.migrate().map_err(|e| format!("migration fails: {}", e.text()))?;
                        if snapshot(&d)? != before || nonzero(&d.q.bank) != bank || !r.pays.is_empty() {
                            return Err(format!("migration changed the state from {before:?}\n    to {:?}", snapshot(&d)?));
                        }
                        d.env = env;
                        d.same_block = same;
                        if !aging {
                            n += 1;
                        }
                    }
                }
                let (_, res) = w.apply_full(&act);
                let funded = fund(&mut d, &act);
                let Some((x, _)) = res else { continue };
                if !funded {
                    return Err("funding differs".into());
                }
                let y = run_act(&mut d, &act);
                let same = match (&x, &y) {
                    (Ok(a), Ok(b)) => a.pays == b.pays && a.data == b.data && a.events == b.events && a.attrs == b.attrs,
                    (Err(_), Err(TxErr::Panic(_))) => matches!(x, Err(TxErr::Panic(_))),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return Err(format!("{act:?}: {x:?}\n    with {}: {y:?}", if aging { "old records" } else { "migrations" }));
                }
            }
        }
        if w.lost {
            return Ok(());
        }
        let (a, b) = (snapshot(&w.chain)?, snapshot(&d)?);
        if untimed(a.clone()) != untimed(b.clone()) || !aging && a != b || nonzero(&w.chain.q.bank) != nonzero(&d.q.bank) {
            return Err(format!("state {a:?}\n    with {}: {b:?}", if aging { "old records" } else { "migrations" }));
        }
        for u in USERS {
            let q = json!({"orders_by_owner": {"owner": u, "limit": 1000}});
            let (a, b) = (w.chain.query(&q).map_err(|e| e.text())?, d.query(&q).map_err(|e| format!("{q}: {}", e.text()))?);
            if untimed(vec![a.clone()]) != untimed(vec![b.clone()]) {
                return Err(format!("{q}: {a}\n    with old records: {b}"));
            }
        }
        // the zero time stays, other times are true
        for t in w.model.ticks() {
            for o in list_by_tick(&d, t)? {
                let want = if aged.contains(&o.id) { 0 } else { w.model.orders[o.id as usize].placed_at };
                if o.placed_at != want {
                    return Err(format!("order {}: placement time {}, expected {want}", o.id, o.placed_at));
                }
            }
        }
        Ok(())
    })();
    (w, r.err(), n)
}

pub fn c27() -> Property {
    let c = Cfg { batch: 3, fee: 2, auth: 2, pause: 1, bad: 1, guards: 2, ..Cfg::default() };
    let seeds = || prop::collection::vec(any::<u8>(), 5..40);
    let mk = |aging: bool| {
        move |(c, s): &(Case, Vec<u8>)| {
            let (mut w, f, n) = neutral(c, s, aging);
            w.stats.insert(if aging { "times records were aged" } else { "migrations" }, n);
            outcome(&w, f, n > 0 && w.stat("claimed") > 0 && w.stat("cancelled") > 0)
        }
    };
    Property {
        id: "C27",
        rule: "Generated histories on two copies, one of them migrated at generated moments, respectively with all or some order records rewritten without placement time; all outcomes, payments, events, listings and published state compared; non-trivial: at least one migration or aging, a claim and a cancellation",
        assumptions: vec!["records of the earlier version are those of this version without the placement time"],
        parts: vec![
            part("migrations", 6000, 250_000, { let c = c.clone(); move || (case(c.clone()), seeds()) }, mk(false)),
            part("old records", 7000, 300_000, move || (case(c.clone()), seeds()), mk(true)),
        ],
    }
}
