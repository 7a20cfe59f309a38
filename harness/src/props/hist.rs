//! Properties decided by comparing whole histories with the reference model, plus what each adds.
use proptest::prelude::*;
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn cfg() -> Cfg {
    Cfg::default()
}

/// A part: histories of `cfg`, watching `watch`, with a settlement of everything at the end.
fn simple(
    name: &'static str,
    quick: u32,
    thorough: u32,
    c: Cfg,
    watch: u64,
    keep: Keep,
    nontrivial: fn(&World) -> bool,
) -> Box<dyn Part> {
    part(
        name,
        quick,
        thorough,
        move || case(c.clone()),
        move |c: &Case| {
            let (w, f) = history(c, &Hist { watch, keep }, &mut nop, &mut nopa);
            outcome(&w, f, nontrivial(&w))
        },
    )
}

/// A few orders that are filled and claimed again and again.
fn long_case() -> BoxedStrategy<Case> {
    case(Cfg { ops: 30..160, ticks: TickStyle::Near, max_ticks: 1, place: 4, claim: 40, swap: 40, cancel: 2, batch: 1, mass: 0, guards: 1, bad: 0, bounty: 20, ..cfg() })
}

fn deep(name: &'static str, quick: u32, thorough: u32, n: std::ops::Range<usize>, watch: u64, keep: Keep, leave: bool) -> Box<dyn Part> {
    deep_of(name, quick, thorough, move || deep_case(n.clone()), watch, keep, leave)
}

/// Over a thousand cancellations on one tick.
fn huge(quick: u32, thorough: u32, watch: u64, keep: Keep, leave: bool) -> Box<dyn Part> {
    deep_of("over a thousand cancellations", quick, thorough, huge_case, watch, keep, leave)
}

fn deep_of(
    name: &'static str,
    quick: u32,
    thorough: u32,
    make: impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static,
    watch: u64,
    keep: Keep,
    leave: bool,
) -> Box<dyn Part> {
    part(
        name,
        quick,
        thorough,
        move || (make(), 0u64..64),
        move |(c, seed): &(Case, u64)| {
            // the full listing is only looked at in the end and by what happens
            let (mut w, mut f) = history(c, &Hist { watch, keep }, &mut nop, &mut nopa);
            if f.is_none() && leave {
                f = drain(&w, *seed, watch & (w::PAY_CLAIM | w::PAY_CANCEL)).err();
            }
            let cancels = w.model.queues.values().map(|q| q.cancels).max().unwrap_or(0);
            w.stats.insert("cancellations on the tick", cancels as u64);
            outcome(&w, f, cancels >= 20 && w.stat("claimed behind a cancelled order") > 0)
        },
    )
}

/// Books of hundreds of ticks.
fn wide(name: &'static str, quick: u32, thorough: u32, watch: u64, keep: Keep, leave: bool) -> Box<dyn Part> {
    part(
        name,
        quick,
        thorough,
        move || (wide_case(), 0u64..64),
        move |(c, seed): &(Case, u64)| {
            let mut most = 0usize;
            let (mut w, mut f) = history(c, &Hist { watch, keep }, &mut nop, &mut |_, _, _, e| {
                if let Ok(Effects { swap: Some(p), .. }) = e {
                    most = most.max(p.fills.len());
                }
                Ok(())
            });
            if f.is_none() && leave {
                f = drain(&w, *seed, watch & (w::PAY_CLAIM | w::PAY_CANCEL)).err();
            }
            w.stats.insert("most ticks filled by one swap", most as u64);
            outcome(&w, f, most >= 30)
        },
    )
}

// ------------------------------------------------------------------ C01

/// Claims every resting order in some order: filled ones must pay the model's quantity, others refuse.
fn settle(w: &World, seed: u64, watch: u64) -> Result<(), String> {
    if w.lost || !w.model.active {
        return Ok(());
    }
    let mut w = w.clone();
    w.watch = watch;
    for (tick, id) in shuffled(&w.model, seed) {
        let act = Act::Claim {
            sender: w.model.orders[id as usize].owner.clone(),
            tick,
            id,
            funds: vec![],
        };
        if let Some(d) = w.apply(&act).first() {
            return Err(format!("final claims: {}", d.msg));
        }
        if w.lost {
            break;
        }
    }
    if let Some(d) = w.check_all().first() {
        return Err(format!("after the final claims: {}", d.msg));
    }
    Ok(())
}

const FIFO: u64 = w::OUT_CLAIM | w::OUT_BATCH | w::OUT_CANCEL | w::OUT_SWAP | w::PAY_CLAIM | w::PAY_BATCH | w::ORDERS | w::ETAS | w::PANIC;

pub fn c01() -> Property {
    let watch = FIFO;
    let c = Cfg {
        guards: 1,
        bad: 0,
        mass: 5,
        max_ticks: 3,
        cancel: 18,
        ..cfg()
    };
    let run = move |(c, seed): &(Case, u64)| {
        let (w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
        if f.is_none() {
            f = settle(&w, *seed, watch).err();
        }
        let nt = w.stat("claimed behind a cancelled order") > 0 && w.stat("swapped") > 1;
        outcome(&w, f, nt)
    };
    Property {
        id: "C01",
        rule: "Generated histories of placements, cancellations, swaps and claims on up to three ticks (and deep ones on one tick), every step and a final claim of every order compared with a naive first-in-first-out queue; non-trivial: at least one order behind a cancelled order was claimed and more than one swap filled something (deep: at least 20 cancellations on the tick)",
        assumptions: vec!["the chain simulator's rollback, bank and reply semantics match the real chain"],
        parts: vec![
            part("histories", 9000, 400_000, move || (case(c.clone()), 0u64..64), run),
            part(
                "one price",
                5000,
                300_000,
                move || {
                    let c = Cfg { ticks: TickStyle::Near, max_ticks: 1, guards: 0, bad: 0, mass: 8, cancel: 20, ops: 8..80, ..cfg() };
                    (case(c), 0u64..64)
                },
                run,
            ),
            deep("deep queue", 130, 6000, 15..60, watch, all, false),
            deep("very deep queue", 12, 1500, 80..160, watch, all, false),
            huge(16, 400, watch, all, false),
            part("one order for long", 500, 30_000, || (long_case(), 0u64..64), run),
        ],
    }
}

// ------------------------------------------------------------------ C02

pub fn c02() -> Property {
    let watch = w::PAY_TRADE | w::PAY_OTHER | w::ORDERS | w::DATA;
    let c = Cfg { fee: 3, bounty: 10, bad: 4, auth: 1, migrate: 1, pause: 1, ..cfg() };
    let run = move |(c, seed): &(Case, u64)| {
        let mut obligations = 0u64;
        let (mut w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut |w, _, _, _| {
            let (b, q) = w.model.owed();
            obligations += 1;
            for (d, n) in [(BASE, b), (QUOTE, q)] {
                let have = w.chain.balance(CONTRACT, d);
                if have < n {
                    return Err(format!("the contract holds {have}{d} but owes {n}{d}"));
                }
                // all it keeps is rounding dust
                let kept = w.model.kept.get(d).copied().unwrap_or(u(0)) / u(E18);
                let pending = w.model.live().filter(|o| o.unclaimed > 0).count() as u128;
                // every step's remainder is counted rounded down by less than one unit of 10^-18
                let steps = w.stat("swapped") as u128 * 64 / E18 + 2 + pending;
                if u(have - n) > kept + u(steps) {
                    return Err(format!(
                        "the contract keeps {}{d} beyond its obligations, rounding accounts for {kept}",
                        have - n
                    ));
                }
            }
            Ok(())
        });
        // whatever happened, also where the model could not follow: own data must be covered
        if f.is_none() {
            f = solvent(&w.chain).err();
        }
        if f.is_none() {
            f = drain(&w, *seed, w::PAY_CLAIM | w::PAY_CANCEL).err().filter(|m| m.contains("bank:") || m.contains("balance"));
        }
        w.stats.insert("solvency comparisons", obligations);
        let nt = w.stat("claimed") > 0 && w.stat("swapped") > 0 && w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C02",
        rule: "Generated histories with bounties, maker fees and invalid messages over all tick magnitudes; balances compared with obligations after every message and each balance change with the entitlement; non-trivial: at least one claim, one swap and one cancellation went through",
        assumptions: vec!["token supply per denom at most 2^128-1", "the pool module hands over exactly the swap input before calling sudo"],
        parts: vec![
            part("histories", 9000, 400_000, {
                let c = c.clone();
                move || (case(c.clone()), 0u64..64)
            }, run),
            part("deep queue", 60, 2500, || (deep_case(15..40), 0u64..64), run),
            part("large batches", 120, 6000, || (batch_case(5..20), 0u64..64), run),
            part("wide book", 30, 2000, || (wide_case(), 0u64..64), run),
        ],
    }
}

// ------------------------------------------------------------------ C03, C04

fn swap_heavy() -> Cfg {
    Cfg { swap: 40, place: 34, cancel: 10, claim: 6, bad: 0, guards: 3, fee: 0, advance: 0, ..cfg() }
}

pub fn c03() -> Property {
    let watch = w::OUT_SWAP | w::PAY_SWAP | w::DATA | w::TICKLIQ | w::TOTAL | w::ORDERS | w::PTR | w::PANIC;
    fn nt(w: &World) -> bool {
        w.stat("swapped over several ticks") > 0 && w.stat("swapped") > 1
    }
    Property {
        id: "C03",
        rule: "Generated books (crossed, emptied, extreme ticks, dust) and swaps of both directions, amounts aimed at exact tick and order boundaries; fills, charge, refund, response and tick liquidity compared with an exact-arithmetic matcher; non-trivial: one swap crossed several ticks and more than one swap filled",
        assumptions: vec![],
        parts: vec![
            simple("any ticks", 9000, 400_000, swap_heavy(), watch, all, nt),
            simple("near prices", 7000, 300_000, Cfg { ticks: TickStyle::Near, max_ticks: 6, ..swap_heavy() }, watch, all, nt),
            wide("wide book", 250, 8000, watch, all, false),
            // many short books: exotic prices and quantities
            simple("short", 20_000, 1_000_000, Cfg { ops: 2..10, max_ticks: 3, cancel: 2, claim: 1, mass: 0, ..swap_heavy() }, watch, all, |w| w.stat("swapped") > 0),
        ],
    }
}

pub fn c04() -> Property {
    let watch = w::OUT_SWAP | w::PAY_SWAP | w::DATA | w::STATE | w::PANIC;
    let c = Cfg { bad: 8, guards: 30, ..swap_heavy() };
    fn nt(w: &World) -> bool {
        w.stat("swapped") > 0 && (w.stat("refused: minimum output") + w.stat("refused: limit tick") + w.stat("refused: not enough liquidity") + w.stat("swap with refund")) > 0
    }
    Property {
        id: "C04",
        rule: "Swaps with minimum outputs at, one below and one above the exact output, limit ticks around every tick and the best price, wrong fees, denoms and senders on generated books; outcome, refund and whole state compared with the model; non-trivial: a swap went through and another was refused by a guard or refunded",
        assumptions: vec![],
        parts: vec![
            simple("guards", 10_000, 400_000, c.clone(), watch, all, nt),
            wide("wide book", 200, 8000, watch, all, false),
            simple("near prices", 8000, 300_000, Cfg { ticks: TickStyle::Near, max_ticks: 6, ..c.clone() }, watch, all, nt),
            simple("short", 16_000, 1_000_000, Cfg { ops: 2..12, max_ticks: 3, cancel: 2, claim: 1, mass: 0, ..c }, watch, all, nt),
        ],
    }
}

// ------------------------------------------------------------------ C06, C07, C08

pub fn c06() -> Property {
    let watch = w::OUT_CANCEL | w::PAY_CANCEL | w::ORDERS | w::TICKLIQ | w::TOTAL | w::PTR | w::ETAS | w::OUT_CLAIM | w::PAY_CLAIM | w::PANIC;
    fn nt(w: &World) -> bool {
        w.stat("cancelled") > 0 && (w.stat("refused: cancel of filled order") > 0 || w.stat("cancelled after partial claim") > 0 || w.stat("claimed behind a cancelled order") > 0)
    }
    let c = Cfg { cancel: 34, guards: 1, bad: 0, max_ticks: 3, mass: 5, ..cfg() };
    let run = move |(c, seed): &(Case, u64)| {
        let (w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
        if f.is_none() {
            // every caller other than the owner is refused, for every resting order
            f = strangers(&w).err();
        }
        if f.is_none() {
            f = settle(&w, *seed, watch).err();
        }
        outcome(&w, f, nt(&w))
    };
    Property {
        id: "C06",
        rule: "Histories heavy in cancellations by owners and strangers, of untouched, partly filled, partly claimed, unknown and closed orders, with and without funds, and in bulk patterns; outcome, refund, queue data and later claims compared with the model; non-trivial: a cancellation went through and one was refused as filled, followed a partial claim, or had a claimed order behind it",
        assumptions: vec![],
        parts: vec![
            part("histories", 9000, 400_000, move || (case(c.clone()), 0u64..64), run),
            deep("deep queue", 110, 5000, 15..60, watch, all, true),
            huge(16, 400, watch, all, true),
            wide("wide book", 40, 3000, watch, all, true),
        ],
    }
}

fn strangers(w: &World) -> Result<(), String> {
    if w.lost || !w.model.active {
        return Ok(());
    }
    let mut w = w.clone();
    w.watch = w::OUT_CANCEL | w::ORDERS;
    let ids: Vec<(i64, u64)> = w.model.live().map(|o| (o.tick, o.id)).collect();
    let mut senders: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    for x in (250u8..=255).map(|x| party(&w.model, x)).chain([CONTRACT.to_string()]) {
        if !senders.contains(&x) {
            senders.push(x);
        }
    }
    for (tick, id) in ids.into_iter().take(12) {
        for s in &senders {
            if *s != w.model.orders[id as usize].owner {
                let a = Act::Cancel { sender: s.clone(), tick, id, funds: vec![] };
                if let Some(d) = w.apply(&a).first() {
                    return Err(d.msg.clone());
                }
            }
        }
    }
    Ok(())
}

pub fn c07() -> Property {
    let watch = w::OUT_CLAIM | w::OUT_BATCH | w::PAY_CLAIM | w::PAY_BATCH | w::ORDERS | w::PANIC;
    fn nt(w: &World) -> bool {
        w.stat("claimed") > 0 && w.stat("bounty paid") + w.stat("fee paid") > 0
    }
    let c = Cfg { claim: 30, bounty: 30, fee: 6, cancel: 6, guards: 1, bad: 0, ..cfg() };
    let run = move |(c, seed): &(Case, u64)| {
        let (w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
        if f.is_none() {
            f = settle(&w, *seed, watch).err();
        }
        outcome(&w, f, nt(&w))
    };
    Property {
        id: "C07",
        rule: "Histories heavy in (partial, repeated) claims by owners and others with bounties 0..1 %, maker fees 0..5 %, all tick magnitudes and quantities up to the supply; every payment compared with exact arithmetic; non-trivial: a claim paid a bounty or a fee",
        assumptions: vec![],
        parts: vec![
            part("histories", 9000, 400_000, {
                let c = c.clone();
                move || (case(c.clone()), 0u64..64)
            }, run),
            part("short", 20_000, 1_000_000, move || (case(Cfg { ops: 3..12, max_ticks: 1, mass: 0, ..c.clone() }), 0u64..64), run),
            part("large batches", 200, 8000, || (batch_case(5..30), 0u64..64), run),
            part("one order for long", 600, 30_000, || (long_case(), 0u64..64), run),
        ],
    }
}

pub fn c08() -> Property {
    let watch = w::OUT_TRADE | w::PANIC | w::PAY_CLAIM | w::PAY_CANCEL | w::PAY_BATCH;
    fn keep(d: &Div) -> bool {
        // refused although valid, or not paid in full
        !d.got_ok && d.why.is_none() || d.bit & (w::PAY_CLAIM | w::PAY_CANCEL | w::PAY_BATCH) != 0
    }
    let c = Cfg { mass: 5, guards: 2, bad: 1, fee: 2, auth: 1, migrate: 1, ..cfg() };
    let run = move |(c, seed): &(Case, u64)| {
        let (w, mut f) = history(c, &Hist { watch, keep }, &mut nop, &mut nopa);
        if f.is_none() {
            f = drain(&w, *seed, w::PAY_CLAIM | w::PAY_CANCEL).err();
        }
        if f.is_none() {
            f = drain(&w, seed + 1, w::PAY_CLAIM | w::PAY_CANCEL).err();
        }
        let live = w.model.live().count();
        let nt = live >= 3 && w.model.live().any(|o| o.unclaimed > 0) && w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C08",
        rule: "After generated histories (dust orders, extreme ticks, cancellations in all patterns) every owner leaves in two generated orders on a copy of the state; non-trivial: at least three orders were resting, one with unclaimed fills, and something had been cancelled",
        assumptions: vec!["messages are only required to work while the book is active"],
        parts: vec![
            part("histories", 16_000, 300_000, {
                let c = c.clone();
                move || (case(c.clone()), 0u64..64)
            }, run),
            part("short", 24_000, 600_000, move || (case(Cfg { ops: 2..14, max_ticks: 3, ..c.clone() }), 0u64..64), run),
            deep("deep queue", 90, 4000, 15..60, watch, keep, true),
            huge(16, 400, watch, keep, true),
            wide("wide book", 60, 3000, watch, keep, true),
        ],
    }
}

// ------------------------------------------------------------------ C10, C12, C15

pub fn c10() -> Property {
    let watch = w::TICKLIQ | w::TOTAL;
    let c = Cfg { mass: 4, bad: 4, pause: 1, migrate: 1, ..cfg() };
    let run = move |c: &Case| {
        let (w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
        if f.is_none() && !w.lost {
            f = listing_total(&w).err();
        }
        let nt = w.stat("swapped") > 0 && w.stat("cancelled") > 0 && w.stat("claimed") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C10",
        rule: "Histories with failing messages mixed in; pool totals and tick liquidity compared with the model after every message and with the contract's own listing at the end; non-trivial: a swap, a cancellation and a claim went through",
        assumptions: vec![],
        parts: vec![
            part("histories", 20_000, 400_000, move || case(c.clone()), run),
            deep("deep queue", 60, 3000, 15..50, watch, all, true),
            wide("wide book", 60, 3000, watch, all, true),
        ],
    }
}

/// Totals against the contract's own orders and published positions, without the model.
fn listing_total(w: &World) -> Result<(), String> {
    let v = w.chain.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    let (mut base, mut quote) = (u(0), u(0));
    for t in v["ticks"].as_array().ok_or("no ticks")? {
        let tick = geti(t, "tick_id").ok_or("tick id")?;
        let (a, b) = tick_vals(&w.chain, tick, true)?;
        let (mut oa, mut ob) = (u(0), u(0));
        for o in list_by_tick(&w.chain, tick)? {
            let s = if o.bid { &b } else { &a };
            let filled = filled_of(s, &o);
            if o.bid {
                ob = ob + u(o.quantity - filled);
            } else {
                oa = oa + u(o.quantity - filled);
            }
        }
        if oa != u(a.liq) || ob != u(b.liq) {
            return Err(format!("tick {tick} reports liquidity {} / {}, its orders are open for {oa} / {ob}", a.liq, b.liq));
        }
        base = base + oa;
        quote = quote + ob;
    }
    let got = w.chain.query(&json!({"get_total_pool_liquidity": {}}));
    let want = json!({"total_pool_liquidity": [
        {"denom": BASE, "amount": base.to_string()}, {"denom": QUOTE, "amount": quote.to_string()}]});
    if got.as_ref().ok() != Some(&want) {
        return Err(format!("pool reports {got:?}, orders are open for {want}"));
    }
    Ok(())
}

pub fn c12() -> Property {
    let watch = w::PTR;
    let c = Cfg { bad: 3, guards: 8, place: 34, ..cfg() };
    let run = move |c: &Case| {
        let mut spots = 0u64;
        let (mut w, f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut |w, act, _, _| {
            if matches!(act, Act::Auth { .. } | Act::Sudo(_)) {
                return Ok(());
            }
            if w.model.queues.len() > 24 && w.steps % 16 != 0 && !matches!(act, Act::Swap { .. }) {
                return Ok(());
            }
            spots += 1;
            never_hidden(w)?;
            spot(w)
        });
        w.stats.insert("spot price comparisons", spots);
        let nt = w.stat("swapped over several ticks") > 0 && w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C12",
        rule: "Histories over up to five ticks of any magnitude; best ticks compared with the model, with the liquidity published for every tick and with the spot price queries after every message; non-trivial: a swap crossed ticks and an order was cancelled",
        assumptions: vec![],
        parts: vec![
            part("histories", 18_000, 400_000, {
                let c = c.clone();
                move || case(c.clone())
            }, run),
            part("short", 24_000, 600_000, move || case(Cfg { ops: 1..10, ..c.clone() }), run),
            part("wide book", 400, 8000, wide_case, run),
        ],
    }
}

fn never_hidden(w: &World) -> Result<(), String> {
    let st = w.chain.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?;
    let (nb, na) = (geti(&st, "next_bid_tick").ok_or("no bid tick")?, geti(&st, "next_ask_tick").ok_or("no ask tick")?);
    let v = w.chain.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    for t in v["ticks"].as_array().ok_or("no ticks")? {
        let tick = geti(t, "tick_id").ok_or("tick id")?;
        let liq = |side: &str| parse_dec(gets(&t["tick_state"][side], "total_amount_of_liquidity")).map_or(true, |x| x > u(0));
        if liq("bid_values") && tick > nb {
            return Err(format!("tick {tick} has open bids above the best bid tick {nb}"));
        }
        if liq("ask_values") && tick < na {
            return Err(format!("tick {tick} has open asks below the best ask tick {na}"));
        }
    }
    Ok(())
}

fn spot(w: &World) -> Result<(), String> {
    let q = |quote: &str, base: &str| {
        w.chain.query(&json!({"spot_price": {"quote_asset_denom": quote, "base_asset_denom": base}}))
    };
    let pb = price(w.model.next_bid);
    let pa = price(w.model.next_ask);
    let inv = to_u128(u(E18) * u(E18) / u(pa)).unwrap();
    for (a, b, want) in [(QUOTE, BASE, pb), (BASE, QUOTE, inv)] {
        let got = q(a, b);
        if got.as_ref().ok() != Some(&json!({"spot_price": dec(want)})) {
            return Err(format!("spot price for quote {a} base {b}: {got:?}, expected {}", dec(want)));
        }
    }
    for (a, b) in [(BASE, BASE), (QUOTE, QUOTE), ("uother", BASE), (QUOTE, "uother"), ("", "")] {
        match q(a, b) {
            Err(TxErr::Contract(_)) => {}
            x => return Err(format!("spot price for foreign pair {a} {b}: {x:?}")),
        }
    }
    Ok(())
}

pub fn c15() -> Property {
    let watch = w::OUT_PLACE | w::PAY_PLACE | w::ORDERS | w::TICKLIQ | w::TOTAL | w::PTR | w::ETAS | w::PANIC;
    let c = Cfg { place: 60, bad: 20, bounty: 20, guards: 0, swap: 12, advance: 4, ..cfg() };
    fn nt(w: &World) -> bool {
        w.stat("placed") > 1 && w.stat("refused") > 0
    }
    Property {
        id: "C15",
        rule: "Histories in which half of the placements are invalid in one respect (tick just outside, zero or mismatched quantity, wrong or several coins, bounty just above 1 %); outcome and the full order record compared with the model; non-trivial: more than one placement was accepted and one message refused; a part in which order ids go on at high numbers (moved in the storage of a copy) against the same history without, in its case non-trivial: two placements later and a claim or cancellation",
        assumptions: vec![],
        parts: vec![
            simple("histories", 10_000, 400_000, c.clone(), watch, all, nt),
            simple("short", 16_000, 800_000, Cfg { ops: 1..12, ..c }, watch, all, nt),
            super::upgrade::late_part(8000, 300_000),
        ],
    }
}

// ------------------------------------------------------------------ C16, C17, C18

pub fn c16() -> Property {
    let watch = w::OUT_AUTH | w::OUT_SUDO | w::ROLES | w::CONF | w::ACTIVE | w::PAY_CLAIM | w::PAY_BATCH | w::PAY_OTHER | w::PANIC;
    let c = Cfg { auth: 60, sudo: 10, place: 8, swap: 6, claim: 6, cancel: 1, mass: 0, batch: 1, guards: 0, bad: 0, fee: 3, max_ticks: 2, ..cfg() };
    let run = move |c: &Case| {
        let (mut w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
        if f.is_none() {
            f = everyone_tries(&w).err();
        }
        let nt = w.stat("auth ok") >= 3 && w.stat("refused: unauthorized") > 0;
        w.stats.insert("role messages accepted", w.stat("auth ok"));
        outcome(&w, f, nt)
    };
    Property {
        id: "C16",
        rule: "Sequences of all role and configuration messages by role holders, offer holders and others, mixed with governance calls and trading; outcomes, published roles and fee payments compared with a state machine, and at the end every sender tries every message on a copy; non-trivial: at least three role messages accepted and one refused as unauthorised",
        assumptions: vec!["address validity is that of cosmwasm's MockApi"],
        parts: vec![
            part("histories", 18_000, 400_000, {
                let c = c.clone();
                move || case(c.clone())
            }, run),
            part("short", 24_000, 400_000, move || case(Cfg { ops: 1..10, ..c.clone() }), run),
        ],
    }
}

fn everyone_tries(w: &World) -> Result<(), String> {
    if w.lost {
        return Ok(());
    }
    let mut senders: Vec<String> = USERS.iter().map(|s| s.to_string()).collect();
    senders.push(GOV.into());
    senders.push(BREAKER.into());
    senders.push(CONTRACT.into());
    let a = "osmo1carol".to_string();
    let msgs = [
        AuthMsg::TransferAdmin(a.clone()),
        AuthMsg::CancelAdminTransfer,
        AuthMsg::RejectAdminTransfer,
        AuthMsg::ClaimAdmin,
        AuthMsg::RenounceAdminship,
        AuthMsg::OfferModerator(a.clone()),
        AuthMsg::RejectModeratorOffer,
        AuthMsg::ClaimModerator,
        AuthMsg::SetActive(!w.model.active),
        AuthMsg::SetMakerFee(E18 / 50),
        AuthMsg::SetMakerFeeRecipient(a),
    ];
    for s in senders {
        for m in &msgs {
            let mut c = w.clone();
            let act = Act::Auth { sender: s.clone(), msg: m.clone() };
            if let Some(d) = c.apply(&act).first() {
                return Err(d.msg.clone());
            }
        }
    }
    Ok(())
}

fn every_query(c: &Chain, m: &Model) -> Vec<Result<Value, String>> {
    let mut q = vec![
        json!({"orderbook_state": {}}),
        json!({"denoms": {}}),
        json!({"is_active": {}}),
        json!({"get_swap_fee": {}}),
        json!({"get_maker_fee": {}}),
        json!({"get_total_pool_liquidity": {}}),
        json!({"all_ticks": {}}),
        json!({"auth": {"admin": {}}}),
        json!({"auth": {"moderator": {}}}),
        json!({"auth": {"admin_offer": {}}}),
        json!({"auth": {"moderator_offer": {}}}),
        json!({"spot_price": {"quote_asset_denom": QUOTE, "base_asset_denom": BASE}}),
        json!({"spot_price": {"quote_asset_denom": BASE, "base_asset_denom": QUOTE}}),
        json!({"ticks_by_id": {"tick_ids": m.ticks()}}),
        json!({"get_unrealized_cancels": {"tick_ids": m.ticks()}}),
    ];
    for s in USERS {
        q.push(json!({"orders_by_owner": {"owner": s}}));
    }
    for t in m.ticks() {
        q.push(json!({"orders_by_tick": {"tick_id": t}}));
    }
    for (i, o) in [(BASE, QUOTE), (QUOTE, BASE)] {
        for n in ["1", "1000"] {
            for name in ["calc_out_amount_given_in", "calc_out_amt_given_in"] {
                q.push(json!({name: {"token_in": {"denom": i, "amount": n}, "token_out_denom": o, "swap_fee": "0"}}));
            }
        }
    }
    q.iter().map(|q| c.query(q).map_err(|e| format!("{q}: {}", e.text()))).collect()
}

pub fn c17() -> Property {
    let watch = w::OUT_PAUSE | w::ACTIVE | w::OUT_SUDO | w::OUT_AUTH | w::ROLES | w::CONF | w::OUT_TRADE | w::PAY_TRADE | w::STATE | w::PANIC;
    fn keep(_: &Div) -> bool {
        true
    }
    let c = Cfg { pause: 14, sudo: 8, auth: 14, guards: 1, bad: 0, mass: 1, max_ticks: 3, migrate: 1, ..cfg() };
    let run = move |c: &Case| {
        let mut silent = 0u64;
        let before_q: std::cell::RefCell<Option<(bool, Vec<Result<Value, String>>)>> = std::cell::RefCell::new(None);
        let (mut w, f) = history(
            c,
            &Hist { watch, keep },
            &mut |w, act| {
                let toggles = matches!(act, Act::Auth { msg: AuthMsg::SetActive(_), .. } | Act::Sudo(SudoMsg::SetActive(_)));
                let trades = matches!(act.kind(), Kind::Place | Kind::Cancel | Kind::Claim | Kind::Batch | Kind::Swap);
                *before_q.borrow_mut() = if toggles || trades && !w.model.active {
                    Some((toggles, every_query(&w.chain, &w.model)))
                } else {
                    None
                };
                Ok(())
            },
            &mut |w, _act, tx, _| {
                if let Some((toggles, mut b)) = before_q.borrow_mut().take() {
                    if toggles && tx.is_err() {
                        return Ok(());
                    }
                    silent += 1;
                    let mut a = every_query(&w.chain, &w.model);
                    if toggles {
                        let _ = a.remove(2);
                        let _ = b.remove(2);
                    }
                    for (x, y) in a.iter().zip(&b) {
                        if x != y {
                            return Err(format!("a query answers differently: before {y:?}, after {x:?}"));
                        }
                    }
                }
                Ok(())
            },
        );
        w.stats.insert("whole states compared around a pause", silent);
        let nt = w.stat("refused: paused") > 1 && w.stat("swapped") > 0 && silent > 2;
        outcome(&w, f, nt)
    };
    Property {
        id: "C17",
        rule: "Histories with the switch set and released by admin, moderator, governance and strangers; every trading message while paused must be refused, all queries must answer as before and after release the book must go on as in the model; non-trivial: at least two messages refused because paused, a swap went through, and more than two whole-state comparisons",
        assumptions: vec![],
        parts: vec![
            part("histories", 10_000, 250_000, {
                let c = c.clone();
                move || case(c.clone())
            }, run),
            part("short", 18_000, 400_000, move || case(Cfg { ops: 1..12, max_ticks: 2, ..c.clone() }), run),
        ],
    }
}

pub fn c18() -> Property {
    let watch = w::CONF | w::OUT_AUTH | w::PAY_CLAIM | w::PAY_BATCH | w::PAY_SWAP | w::PAY_CANCEL | w::OUT_CLAIM | w::PANIC;
    let c = Cfg { fee: 14, auth: 14, sudo: 2, claim: 24, guards: 0, bad: 0, bounty: 10, cancel: 6, mass: 1, max_ticks: 3, ..cfg() };
    fn nt(w: &World) -> bool {
        w.stat("fee paid") > 0 && w.stat("auth ok") > 1
    }
    Property {
        id: "C18",
        rule: "Histories with frequent fee and recipient changes (0, 5 %, just above, huge; valid and invalid recipients; all senders) between fills and claims; published fee and every claim payment compared with the model; non-trivial: a claim paid a fee and at least two role messages were accepted",
        assumptions: vec!["address validity is that of cosmwasm's MockApi"],
        parts: vec![
            simple("histories", 10_000, 400_000, c.clone(), watch, all, nt),
            simple("short", 14_000, 600_000, Cfg { ops: 3..14, max_ticks: 1, ..c }, watch, all, nt),
        ],
    }
}

// ------------------------------------------------------------------ C23

/// Follows nothing but events.
#[derive(Default)]
struct Indexer {
    orders: BTreeMap<(i64, u64), (String, String, u128, u128)>,
    paid: BTreeMap<(String, String), U>,
}

fn attr<'a>(a: &'a [(String, String)], k: &str) -> Result<&'a str, String> {
    a.iter().find(|x| x.0 == k).map(|x| x.1.as_str()).ok_or(format!("no attribute {k}"))
}
fn num<T: std::str::FromStr>(a: &[(String, String)], k: &str) -> Result<T, String> {
    attr(a, k)?.parse().map_err(|_| format!("attribute {k} is no number"))
}

impl Indexer {
    fn follow(&mut self, tx: &TxOk) -> Result<(), String> {
        let a = &tx.attrs;
        match attr(a, "method").unwrap_or("") {
            "placeLimit" => {
                let q: u128 = num(a, "quantity")?;
                let old = self.orders.insert(
                    (num(a, "tick_id")?, num(a, "order_id")?),
                    (attr(a, "owner")?.into(), attr(a, "order_direction")?.into(), q, q),
                );
                if old.is_some() {
                    return Err("order placed twice".into());
                }
            }
            "cancelLimit" => {
                let k = (num(a, "tick_id")?, num(a, "order_id")?);
                match self.orders.remove(&k) {
                    None => return Err("cancelled an order never placed".into()),
                    Some(o) => {
                        if o.2 != num::<u128>(a, "quantity")? {
                            return Err("cancelled quantity differs from what events left".into());
                        }
                    }
                }
            }
            _ => {}
        }
        for e in &tx.events {
            if e.0 != "limitClaimed" {
                continue;
            }
            let a = &e.1;
            let k = (num(a, "tick_id")?, num(a, "order_id")?);
            let rem: u128 = num(a, "quantity_remaining")?;
            let amount: u128 = num(a, "amount_claimed")?;
            let Some(o) = self.orders.get_mut(&k) else {
                return Err(format!("claimed an order never placed: {k:?}"));
            };
            if rem >= o.2 {
                return Err("a claim event leaves no less than before".into());
            }
            o.2 = rem;
            let e = self.paid.entry((o.0.clone(), attr(a, "output_denom")?.into())).or_insert(u(0));
            *e = *e + u(amount);
            match attr(a, "fully_claimed")? {
                "true" => {
                    self.orders.remove(&k);
                }
                "false" => {}
                x => return Err(format!("fully_claimed = {x}")),
            }
        }
        Ok(())
    }
    fn agrees(&self, c: &Chain, m: &Model) -> Result<(), String> {
        let mut seen = BTreeMap::new();
        for t in m.ticks() {
            for o in list_by_tick(c, t)? {
                seen.insert((o.tick, o.id), (o.owner, dir(o.bid).to_string(), o.quantity, o.placed));
            }
        }
        if seen != self.orders {
            return Err(format!("an indexer following the events believes {:?}, listed are {seen:?}", self.orders));
        }
        Ok(())
    }
}

pub fn c23() -> Property {
    let watch = w::EVENTS;
    let c = Cfg { batch: 8, claim: 18, guards: 2, bounty: 12, fee: 2, ..cfg() };
    let run = move |c: &Case| {
        let mut ix = Indexer::default();
        let mut n = 0u64;
        let mut paid: BTreeMap<(String, String), U> = BTreeMap::new();
        let (mut w, f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut |w, act, tx, eff| {
            if let (Ok(tx), Ok(e)) = (tx, eff) {
                ix.follow(tx)?;
                for c in &e.claims {
                    let o = &w.model.orders[c.id as usize];
                    let d = if o.bid { BASE } else { QUOTE };
                    let e = paid.entry((o.owner.clone(), d.to_string())).or_insert(u(0));
                    *e = *e + u(c.to_owner);
                }
                let mut x = ix.paid.clone();
                x.retain(|_, v| *v > u(0));
                let mut y = paid.clone();
                y.retain(|_, v| *v > u(0));
                if x != y {
                    return Err(format!("claim payments by events {x:?}, paid {y:?}"));
                }
                if matches!(act.kind(), Kind::Place | Kind::Cancel | Kind::Claim | Kind::Batch) {
                    n += 1;
                    ix.agrees(&w.chain, &w.model)?;
                }
            }
            Ok(())
        });
        w.stats.insert("indexer comparisons", n);
        let nt = w.stat("claimed partially") > 0 && w.stat("cancelled") > 0 && w.stat("batches") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C23",
        rule: "Histories with batch claims (failing entries included) and partial claims; an indexer fed only with events is compared with the listings after every message and all attributes with the model; non-trivial: a partial claim, a cancellation and a batch went through",
        assumptions: vec![],
        parts: vec![
            part("histories", 10_000, 400_000, move || case(c.clone()), run),
            part("large batches", 300, 15_000, || batch_case(5..30), run),
        ],
    }
}

// ------------------------------------------------------------------ C24

pub fn c24() -> Property {
    let watch = w::ETAS | w::ORDERS;
    fn nt(w: &World) -> bool {
        w.stat("claimed behind a cancelled order") > 0 && w.stat("swapped") > 1
    }
    let c = Cfg { cancel: 22, mass: 6, guards: 1, bad: 1, max_ticks: 3, ..cfg() };
    let run = move |c: &Case| {
        let mut n = 0u64;
        let (mut w, f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut |w, act, _, _| {
            if w.steps % 3 == 0 && w.model.active && matches!(act.kind(), Kind::Swap | Kind::Cancel | Kind::Claim) {
                n += predict(w)?;
            }
            Ok(())
        });
        w.stats.insert("single claims predicted from published data", n);
        outcome(&w, f, nt(&w))
    };
    Property {
        id: "C24",
        rule: "After generated histories with pending cancellations on both sides of ticks, the fill of every order is computed from published data only and compared with a claim and a cancellation tried on a copy, and with the model; on wide books all ticks asked for at once against each asked for alone (there non-trivial: over 20 ticks); non-trivial: an order behind a cancelled one was claimed and more than one swap filled",
        assumptions: vec![],
        parts: vec![
            part("histories", 8000, 300_000, move || case(c.clone()), run),
            deep("deep queue", 90, 4000, 15..50, watch, all, false),
            huge(16, 400, watch, all, false),
            part("wide book", 40, 3000, wide_case, move |c: &Case| {
                let (w, mut f) = history(c, &Hist { watch, keep: all }, &mut nop, &mut nopa);
                if f.is_none() && !w.lost {
                    f = together(&w).err();
                }
                let nt = w.model.ticks().len() > 20;
                outcome(&w, f, nt)
            }),
        ],
    }
}

/// Asking for all ticks at once, in another order and some of them twice, gives what asking for each gives.
fn together(w: &World) -> Result<(), String> {
    let mut ids: Vec<i64> = w.model.ticks();
    let n = ids.len();
    if n == 0 {
        return Ok(());
    }
    ids.rotate_left(n / 3);
    ids.push(ids[0]);
    ids.push(ids[n / 2]);
    for (q, part) in [("ticks_by_id", "tick_state"), ("get_unrealized_cancels", "unrealized_cancels")] {
        let ask = |l: &[i64]| w.chain.query(&json!({q: {"tick_ids": l}})).map_err(|e| format!("{q} for {} ticks: {}", l.len(), e.text()));
        let got = ask(&ids)?;
        let got = got["ticks"].as_array().cloned().unwrap_or_default();
        if got.len() != ids.len() {
            return Err(format!("{q} for {} ticks answers for {}", ids.len(), got.len()));
        }
        for (t, g) in ids.iter().zip(&got) {
            let one = ask(&[*t])?;
            if one["ticks"][0] != *g || g[part].is_null() {
                return Err(format!("{q} for tick {t} alone answers {}, among {} others {g}", one["ticks"][0], ids.len() - 1));
            }
        }
    }
    Ok(())
}

/// For every order of one tick: published data against a claim and a cancellation on a copy.
fn predict(w: &World) -> Result<u64, String> {
    let ticks = w.model.ticks();
    if ticks.is_empty() {
        return Ok(0);
    }
    let tick = ticks[w.steps as usize % ticks.len()];
    let (a, b) = tick_vals(&w.chain, tick, true)?;
    let (a2, b2) = tick_vals(&w.chain, tick, true)?;
    if a != a2 || b != b2 {
        return Err("asking twice gives different answers".into());
    }
    let l = list_by_tick(&w.chain, tick)?;
    let mut n = 0;
    for o in l.iter().skip(w.steps as usize % 3).step_by(3).take(4) {
        let s = if o.bid { &b } else { &a };
        let filled = filled_of(s, &o);
        n += 1;
        let mut c = w.chain.clone();
        let r = c.execute(&o.owner, &[], &json!({"claim_limit": {"tick_id": tick, "order_id": o.id}}));
        match (filled, &r) {
            (0, Ok(_)) => return Err(format!("published data say nothing of order {} is filled, yet it is claimed", o.id)),
            (0, Err(_)) => {}
            (_, Err(e)) => return Err(format!("published data say {filled} of order {} is filled, the claim fails: {}", o.id, e.text())),
            (f, Ok(_)) => {
                let left = list_by_tick(&c, tick)?.iter().find(|x| x.id == o.id).map_or(0, |x| x.quantity);
                if left != o.quantity - f {
                    return Err(format!("published data say {f} of order {} is filled, the claim leaves {left} of {}", o.id, o.quantity));
                }
            }
        }
        let mut c = w.chain.clone();
        let r = c.execute(&o.owner, &[], &json!({"cancel_limit": {"tick_id": tick, "order_id": o.id}}));
        if r.is_ok() != (filled == 0) {
            return Err(format!("published data say {filled} of order {} is filled, cancelling it: {:?}", o.id, r.map(|_| ()).map_err(|e| e.text())));
        }
    }
    Ok(n)
}
