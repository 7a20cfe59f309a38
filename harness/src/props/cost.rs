//! Cost in storage accesses (C21).
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// Accesses allowed, one and a half times to twice what the contract needs.
const CANCEL: (f64, f64) = (110.0, 18.0);
const CLAIM: (f64, f64) = (40.0, 4.0);
/// Placements may take this many more than the dearest placement on a small book.
const PLACE_OVER: u64 = 5;
const SWAP: (u64, u64) = (20, 7);

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0;
        (x ^ (x >> 29)).wrapping_mul(0x9E3779B97F4A7C15) >> 20
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
}

/// Order in which the chosen of n orders are cancelled.
pub fn sequence(style: u8, n: usize, seed: u64) -> Vec<usize> {
    let mut r = Rng(seed);
    let mut v: Vec<usize> = (0..n).collect();
    match style % 10 {
        0 => v,
        1 => {
            v.reverse();
            v
        }
        // ends inwards
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        // middle outwards
        3 => {
            let mut o: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
            o.reverse();
            o
        }
        // every second ascending, then the rest descending
        4 => {
            let mut o: Vec<usize> = (0..n).step_by(2).collect();
            o.extend((0..n).skip(1).step_by(2).collect::<Vec<_>>().into_iter().rev());
            o
        }
        // bisection
        5 => {
            let mut o = vec![];
            let mut q = std::collections::VecDeque::from([(0usize, n)]);
            while let Some((a, b)) = q.pop_front() {
                if a < b {
                    let m = (a + b) / 2;
                    o.push(m);
                    q.push_back((a, m));
                    q.push_back((m + 1, b));
                }
            }
            o
        }
        // short runs downwards, runs upwards
        6 => {
            let k = 2 + r.below(7);
            v.chunks(k).flat_map(|c| c.iter().rev().copied().collect::<Vec<_>>()).collect()
        }
        // runs upwards, runs downwards
        7 => {
            let k = 2 + r.below(7);
            let mut o: Vec<Vec<usize>> = v.chunks(k).map(|c| c.to_vec()).collect();
            o.reverse();
            o.concat()
        }
        _ => {
            for i in (1..n).rev() {
                let j = r.below(i + 1);
                v.swap(i, j);
            }
            v
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    bid: bool,
    tick: i64,
    orders: usize,
    /// of 100: share of orders cancelled
    share: u64,
    style: u8,
    seed: u64,
    /// one fill every so many cancellations, 0: none
    fill_every: usize,
    /// orders placed later, between cancellations
    late: bool,
    /// all of the same owner
    one_owner: bool,
}

fn deep(max: usize) -> impl Strategy<Value = Deep> {
    deep_between(20, max)
}
fn deep_between(min: usize, max: usize) -> impl Strategy<Value = Deep> {
    (any::<bool>(), prop_oneof![3 => Just(0i64), 1 => -50i64..50], (min..=max), prop_oneof![4 => 50u64..=100, 1 => 0u64..10], any::<u8>(), any::<u64>(), prop_oneof![Just(0usize), 1usize..40], any::<bool>(), any::<bool>())
        .prop_map(|(bid, tick, orders, share, style, seed, fill_every, late, one_owner)| Deep { fill_every: if orders > 5000 { fill_every * (orders / 1000) } else { fill_every }, bid, tick, orders, share, style, seed, late, one_owner })
}

#[derive(Default)]
struct Seen {
    cancels: u64,
    claims: u64,
    worst: BTreeMap<&'static str, f64>,
}
fn measure() -> bool {
    static M: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *M.get_or_init(|| std::env::var("OB_MEASURE").is_ok())
}
impl Seen {
    fn top(&mut self, k: &'static str, x: f64) {
        let e = self.worst.entry(k).or_insert(0.0);
        if x > *e {
            *e = x;
        }
    }
}

fn go(c: &mut Chain, a: &Act) -> Result<Option<TxOk>, String> {
    if !fund(c, a) {
        return Ok(None);
    }
    match run_act(c, a) {
        Ok(t) => Ok(Some(t)),
        // whether it must succeed is the business of other properties, unless it ran away
        Err(e) if e.text().contains("out of gas") => Err(format!("{a:?}: {}", e.text())),
        Err(_) => Ok(None),
    }
}
fn place(bid: bool, tick: i64, qty: u128, who: usize) -> Act {
    let d = if bid { QUOTE } else { BASE };
    // some carry a bounty
    let bounty = [None, Some(5_000_000_000_000_000), None, Some(0), Some(10_000_000_000_000_000)][(qty % 5) as usize];
    Act::Place { sender: USERS[who % USERS.len()].into(), tick, bid, qty, bounty, funds: vec![(d.into(), qty)] }
}
fn swap(bid_book: bool, amount: u128) -> Act {
    let (tin, tout) = if bid_book { (BASE, QUOTE) } else { (QUOTE, BASE) };
    Act::Swap { sender: "osmo1zed".into(), tin: tin.into(), amount, tout: tout.into(), min_out: 1, fee: 0, limit: None }
}
fn order_id(t: &TxOk) -> Option<u64> {
    t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok())
}

/// The dearest placement on a book of a handful of orders: on fresh ticks and ticks in use, with and without fills and
/// cancellations, settled or not, improving the best tick or not.
fn small_place() -> u64 {
    static P: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    *P.get_or_init(|| {
        let mut books = vec![new_chain()];
        let mut c = new_chain();
        let mut step = |a: Act| {
            let t = go(&mut c, &a).ok().flatten();
            books.push(c.clone());
            t.and_then(|t| order_id(&t)).unwrap_or(0)
        };
        for bid in [true, false] {
            let ids: Vec<u64> = (0..7).map(|i| step(place(bid, 0, 1000, i))).collect();
            let out = |i: usize| Act::Cancel { sender: USERS[i].into(), tick: 0, id: ids[i], funds: vec![] };
            step(out(1));
            step(out(4));
            step(swap(bid, 500));
            step(Act::Claim { sender: USERS[0].into(), tick: 0, id: ids[0], funds: vec![] });
            step(swap(bid, 800));
            step(Act::Claim { sender: USERS[2].into(), tick: 0, id: ids[2], funds: vec![] });
            step(out(5));
            step(swap(bid, 900));
        }
        let mut top = 0;
        for b in &books {
            for (bid, tick) in [(true, 0), (false, 0), (true, 7), (false, -7), (true, -9), (false, 9)] {
                for qty in [776, 777] {
                    let mut b = b.clone();
                    if let Ok(Some(t)) = go(&mut b, &place(bid, tick, qty, 3)) {
                        top = top.max(t.reads + t.writes);
                    }
                }
            }
        }
        top
    })
}

fn check_deep(d: &Deep, seen: &mut Seen) -> Result<(), String> {
    let mut c = new_chain();
    let mut r = Rng(d.seed ^ 0xabcdef);
    let mut ids: Vec<(u64, usize)> = vec![];
    let qty = |r: &mut Rng| 1000 + r.below(5000) as u128;
    let first = if d.late { d.orders / 2 } else { d.orders };
    let put = |c: &mut Chain, ids: &mut Vec<(u64, usize)>, r: &mut Rng| -> Result<(), String> {
        let who = if d.one_owner { 1 } else { r.below(USERS.len()) };
        if let Some(t) = go(c, &place(d.bid, d.tick, qty(r), who))? {
            let cost = t.reads + t.writes;
            if measure() {
                eprintln!("P {} {cost}", small_place());
            }
            if cost > small_place() + PLACE_OVER {
                return Err(format!("placing order {} on one tick takes {cost} storage accesses, at most {} on a small book", ids.len(), small_place()));
            }
            ids.push((order_id(&t).ok_or("no order id")?, who));
        }
        Ok(())
    };
    for _ in 0..first {
        put(&mut c, &mut ids, &mut r)?;
    }
    let mut plan: Vec<usize> = sequence(d.style, d.orders, d.seed);
    if d.style & 128 == 0 {
        // only some, in the same order
        plan.retain(|_| r.next() % 100 < d.share);
    } else {
        plan.truncate((d.orders as u64 * d.share / 100) as usize);
    }
    let mut k = 0u64;
    let mut later: Vec<usize> = vec![];
    let mut gone = vec![false; d.orders];
    let mut queue: std::collections::VecDeque<usize> = plan.into();
    let mut n = 0;
    while let Some(i) = queue.pop_front() {
        n += 1;
        if i >= ids.len() {
            if ids.len() < d.orders {
                put(&mut c, &mut ids, &mut r)?;
                if ids.len() <= i {
                    queue.push_back(i);
                }
                if n > 4 * d.orders {
                    break;
                }
                if ids.len() <= i {
                    continue;
                }
            } else {
                continue;
            }
        }
        let a = Act::Cancel { sender: USERS[ids[i].1].into(), tick: d.tick, id: ids[i].0, funds: vec![] };
        match go(&mut c, &a)? {
            Some(t) => {
                let cost = (t.reads + t.writes) as f64;
                let lg = ((k + 2) as f64).log2();
                seen.top("cancel per log", cost / (lg + 2.5));
                if measure() {
                    eprintln!("C {} {}", lg as u32, cost);
                }
                if cost > CANCEL.0 + CANCEL.1 * lg {
                    return Err(format!("after {k} cancellations on the tick, cancelling the {i}th of {} orders takes {cost} storage accesses", ids.len()));
                }
                k += 1;
                gone[i] = true;
                seen.cancels += 1;
            }
            None => later.push(i),
        }
        if d.fill_every > 0 && n % d.fill_every == 0 {
            let x = 1 + r.below(4000 * d.fill_every) as u128;
            if let Some(t) = go(&mut c, &swap(d.bid, x))? {
                let cost = t.reads + t.writes;
                if cost > SWAP.0 + SWAP.1 {
                    return Err(format!("a swap over one tick with {} orders and {k} cancellations takes {cost} storage accesses", ids.len()));
                }
            }
            claim_some(&mut c, d, &ids, &mut gone, &mut r, k, seen, 3)?;
        }
    }
    // fill everything step by step, claiming along the way
    for _ in 0..6 {
        let (a, b) = tick_vals(&c, d.tick, false)?;
        let liq = if d.bid { b.liq } else { a.liq };
        if liq == 0 {
            break;
        }
        let _ = go(&mut c, &swap(d.bid, 1 + liq / 4))?;
        claim_some(&mut c, d, &ids, &mut gone, &mut r, k, seen, 6)?;
    }
    let _ = later;
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn claim_some(c: &mut Chain, d: &Deep, ids: &[(u64, usize)], gone: &mut [bool], r: &mut Rng, k: u64, seen: &mut Seen, tries: usize) -> Result<(), String> {
    for j in 0..tries {
        // mostly the oldest ones, which are filled
        let live: Vec<usize> = (0..ids.len()).filter(|i| !gone[*i]).take(if j % 2 == 0 { 5 } else { usize::MAX }).collect();
        if live.is_empty() {
            return Ok(());
        }
        let i = live[r.below(live.len())];
        let before = ids.len();
        // by the owner or by somebody else
        let who = if r.below(3) == 0 { r.below(USERS.len()) } else { ids[i].1 };
        let a = Act::Claim { sender: USERS[who].into(), tick: d.tick, id: ids[i].0, funds: vec![] };
        if let Some(t) = go(c, &a)? {
            let cost = (t.reads + t.writes) as f64;
            let lg = ((k + 2) as f64).log2();
            seen.top("claim per log", cost / (lg + 4.0));
            if measure() {
                eprintln!("L {} {}", lg as u32, cost);
            }
            if cost > CLAIM.0 + CLAIM.1 * lg {
                return Err(format!("with {k} cancellations and at most {before} orders on the tick, a claim takes {cost} storage accesses"));
            }
            seen.claims += 1;
            let q = serde_json::json!({"orders_by_tick": {"tick_id": d.tick, "start_from": ids[i].0, "end_at": ids[i].0}});
            if c.query(&q).map_err(|e| e.text())?["orders"].as_array().map_or(true, |x| x.is_empty()) {
                gone[i] = true;
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ many ticks

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    bid: bool,
    /// orders and cancellations per tick, from the best tick on
    ticks: Vec<(u16, u16)>,
    gap: i64,
    /// ticks of the other side
    other: usize,
    /// of 100: how far the swap goes
    depth: u64,
    seed: u64,
    style: u8,
}
fn wide(max: usize, per: u16) -> impl Strategy<Value = Wide> {
    (
        any::<bool>(),
        prop::collection::vec((prop_oneof![3 => 1u16..per, 1 => Just(per)], prop_oneof![1 => Just(0u16), 3 => 0u16..per]), 1..max),
        prop_oneof![3 => 1i64..4, 1 => 1i64..2000],
        0usize..20,
        1u64..=110,
        any::<u64>(),
        any::<u8>(),
    )
        .prop_map(|(bid, ticks, gap, other, depth, seed, style)| Wide { bid, ticks, gap, other, depth, seed, style })
}

fn cost(c: &Chain, a: &Act) -> Result<Option<u64>, String> {
    let mut d = c.clone();
    Ok(go(&mut d, a)?.map(|t| t.reads + t.writes))
}

fn check_wide(x: &Wide, seen: &mut Seen) -> Result<u64, String> {
    let mut r = Rng(x.seed);
    let at = |i: usize| if x.bid { -1 - i as i64 * x.gap } else { 1 + i as i64 * x.gap };
    let (mut big, mut small) = (new_chain(), new_chain());
    let mut total = 0u128;
    let mut sample: Option<(i64, u64, usize)> = None;
    for (i, (n, k)) in x.ticks.iter().enumerate() {
        let mut ids = vec![];
        for _ in 0..*n + *k {
            let q = 1000 + r.below(2000) as u128;
            let who = if x.style & 64 == 0 { r.below(USERS.len()) } else { 2 };
            let Some(t) = go(&mut big, &place(x.bid, at(i), q, who))? else { return Ok(0) };
            let cost = t.reads + t.writes;
            seen.top("place", cost as f64);
            if cost > small_place() + PLACE_OVER {
                return Err(format!("placing at tick {} takes {cost} storage accesses, at most {} on a small book", at(i), small_place()));
            }
            ids.push((order_id(&t).ok_or("no order id")?, who, q));
        }
        let mut liq: u128 = ids.iter().map(|x| x.2).sum();
        let gone: Vec<usize> = sequence(x.style, ids.len(), x.seed ^ i as u64).into_iter().take(*k as usize).collect();
        for j in &gone {
            let a = Act::Cancel { sender: USERS[ids[*j].1].into(), tick: at(i), id: ids[*j].0, funds: vec![] };
            if go(&mut big, &a)?.is_some() {
                liq -= ids[*j].2;
            }
        }
        if let Some(j) = (0..ids.len()).find(|j| !gone.contains(j)) {
            sample = Some((at(i), ids[j].0, ids[j].1));
        }
        if liq > 0 && go(&mut small, &place(x.bid, at(i), liq, 0))?.is_none() {
            return Ok(0);
        }
        total += liq;
    }
    for i in 0..x.other {
        let t = if x.bid { 5 + i as i64 } else { -5 - i as i64 };
        for _ in 0..3 {
            go(&mut big, &place(!x.bid, t, 500, 1))?;
        }
        go(&mut small, &place(!x.bid, t, 1500, 1))?;
    }
    let n = x.ticks.len();
    // the same swap on both books
    let mut amount = total * x.depth as u128 / 100;
    // input and output are close near price one; stay below what the book can take
    amount = amount.min(total * 99 / 100 / if x.gap > 100 { 2 } else { 1 }).max(1);
    let s = swap(x.bid, amount);
    let (mut b, mut t) = (big.clone(), small.clone());
    let mut done = 0;
    if let (Some(p), Some(q)) = (go(&mut b, &s)?, go(&mut t, &s)?) {
        let (p, q) = (p.reads + p.writes, q.reads + q.writes);
        // ticks in the path: those touched, and one more
        let mut path = 1;
        for i in 0..n {
            let v = |c: &Chain| tick_vals(c, at(i), false).map(|v| if x.bid { v.1.liq } else { v.0.liq });
            if v(&big)? != v(&b)? {
                path = i + 2;
            }
        }
        let path = path.min(n) as u64;
        seen.top("swap per tick", p as f64 / (path as f64 + 2.5));
        if measure() {
            eprintln!("S {path} {p}");
        }
        if p > SWAP.0 + SWAP.1 * path {
            return Err(format!("a swap over {path} ticks takes {p} storage accesses"));
        }
        if p > q + q / 4 + 6 {
            return Err(format!("a swap over {path} ticks takes {p} storage accesses, with one order and no cancellation per tick {q}"));
        }
        done = path;
    }
    // placements do not notice the rest of the book
    for (a, what) in [(place(x.bid, at(0), 777, 2), "an order at the best tick"), (place(x.bid, at(0), 776, 2), "an order with a bounty"), (place(x.bid, at(n / 2) + if x.bid { -1 } else { 1 }, 777, 2), "an order"), (place(!x.bid, if x.bid { 3 } else { -3 }, 777, 2), "an order on the other side")] {
        for c in [&big, &b] {
            if let Some(p) = cost(c, &a)? {
                if p > small_place() + PLACE_OVER {
                    return Err(format!("placing {what} takes {p} storage accesses, at most {} on a small book", small_place()));
                }
            }
        }
    }
    if let Some((tick, id, who)) = sample {
        let k = x.ticks.iter().map(|t| t.1).max().unwrap_or(0) as f64;
        let lg = (k + 2.0).log2();
        let a = Act::Cancel { sender: USERS[who].into(), tick, id, funds: vec![] };
        if let Some(p) = cost(&big, &a)? {
            if p as f64 > CANCEL.0 + CANCEL.1 * lg {
                return Err(format!("a cancellation in a book of {n} ticks, with at most {k} cancellations on one, takes {p} storage accesses"));
            }
        }
        let all = swap(x.bid, total * 9 / 10);
        let mut c = big.clone();
        if go(&mut c, &all)?.is_some() {
            let a = Act::Claim { sender: USERS[who].into(), tick, id, funds: vec![] };
            if let Some(p) = cost(&c, &a)? {
                if p as f64 > CLAIM.0 + CLAIM.1 * lg {
                    return Err(format!("a claim in a book of {n} ticks, with at most {k} cancellations on one, takes {p} storage accesses"));
                }
            }
        }
    }
    Ok(done)
}

pub fn c21() -> Property {
    let dp = |d: &Deep| {
        let mut s = Seen::default();
        let f = check_deep(d, &mut s).err();
        if measure() {
            eprintln!("M {:?} {} {} {}", s.worst, d.orders, d.style % 10, s.cancels);
        }
        Outcome { fail: f, nontrivial: s.cancels >= 2 && s.claims > 0 && d.orders >= 50, classes: vec![("cancellations", s.cancels), ("claims", s.claims), ("orders", d.orders as u64)] }
    };
    let wd = |x: &Wide| {
        let mut s = Seen::default();
        let r = check_wide(x, &mut s);
        if measure() {
            eprintln!("M {:?}", s.worst);
        }
        let (f, n) = match r {
            Ok(n) => (None, n),
            Err(m) => (Some(m), 0),
        };
        Outcome { fail: f, nontrivial: n >= 2, classes: vec![("ticks in swap paths", n), ("ticks", x.ticks.len() as u64)] }
    };
    Property {
        id: "C21",
        rule: "Storage reads and writes counted per message. One tick with up to hundreds (thorough: thousands) of orders, cancelled in ten adversarial orders, with fills, late orders and claims in between: cancel and claim within a + b*log2(cancellations), a single-tick swap and a placement within a constant; books of many ticks: the same swap against a twin book of equal liquidity with one order and no cancellation per tick, linear in the ticks of its path; placements against the dearest on a book of a handful of orders; non-trivial: two cancellations, a claim and fifty orders, respectively a swap over two ticks",
        assumptions: vec!["cost is counted as storage reads and writes; the constants are one and a half times to twice what the contract uses"],
        parts: vec![
            part("one deep tick", 900, 12_000, || deep(400), dp),
            part("very deep tick", 64, 800, || deep(2500), dp),
            part("enormous tick", 8, 100, || deep_between(30_000, 40_000), dp),
            part("many ticks", 500, 12_000, || wide(60, 14), wd),
            part("one tick among few", 200, 5_000, || wide(3, 150), wd),
            part("hundreds of ticks", 40, 600, || wide(500, 4), wd),
        ],
    }
}
