//! Quotes (C05) and the shape of swap outcomes (C28): the contract compared with itself.
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use serde_json::{json, Value};

fn book() -> Cfg {
    Cfg { swap: 30, place: 36, cancel: 10, claim: 5, bad: 3, guards: 2, fee: 0, advance: 0, ..Cfg::default() }
}

pub fn quote(c: &Chain, name: &str, tin: &str, a: u128, tout: &str, fee: u128) -> Result<Value, TxErr> {
    c.query(&json!({name: {"token_in": {"denom": tin, "amount": a.to_string()}, "token_out_denom": tout, "swap_fee": dec(fee)}}))
}

/// A plain swap on a copy; None if the input cannot exist.
pub fn try_swap(c: &Chain, tin: &str, a: u128, tout: &str, fee: u128, limit: Option<i64>) -> Option<(Chain, TxRes)> {
    let mut c = c.clone();
    let act = Act::Swap { sender: "osmo1quoter".into(), tin: tin.into(), amount: a, tout: tout.into(), min_out: 0, fee, limit };
    if !fund(&mut c, &act) {
        return None;
    }
    let r = run_act(&mut c, &act);
    Some((c, r))
}

// ------------------------------------------------------------------ C05

/// 1: swap and quote give the same, 0: both refuse or not comparable
fn compare_quote(c: &Chain, tin: &str, a: u128, tout: &str, fee: u128) -> Result<u64, String> {
    let what = format!("quote of {a}{tin} for {tout} at fee {}", dec(fee));
    let q1 = quote(c, "calc_out_amount_given_in", tin, a, tout, fee);
    let q2 = quote(c, "calc_out_amt_given_in", tin, a, tout, fee);
    let q3 = quote(c, "calc_out_amount_given_in", tin, a, tout, fee);
    for q in [&q1, &q2] {
        if let Err(TxErr::Panic(p)) = q {
            return Err(format!("{what} panics: {p}"));
        }
    }
    if q1.is_ok() != q2.is_ok() || q1.is_ok() && q1 != q2 {
        return Err(format!("{what}: the two quote queries disagree: {q1:?} / {q2:?}"));
    }
    if q1 != q3 {
        return Err(format!("{what}: asking twice gives {q1:?} and {q3:?}"));
    }
    // quotes work in a paused book, too: compare with the swap after release
    let mut d = c.clone();
    if c.query(&json!({"is_active": {}})).ok() == Some(Value::Bool(false)) {
        if d.sudo(&json!({"set_active": {"active": true}})).is_err() {
            return Ok(0);
        }
    }
    let Some((e, r)) = try_swap(&d, tin, a, tout, fee, None) else {
        return Ok(0);
    };
    match (&q1, &r) {
        (Ok(v), Ok(t)) => {
            let n = gets(&v["token_out"], "amount").parse::<u128>().map_err(|_| format!("{what}: {v}"))?;
            let got = e.balance("osmo1quoter", tout).wrapping_sub(d.balance("osmo1quoter", tout));
            let data: Value = t.data.as_ref().and_then(|x| serde_json::from_slice(x).ok()).unwrap_or(Value::Null);
            if gets(&v["token_out"], "denom") != tout || n != got || gets(&data, "token_out_amount") != n.to_string() {
                return Err(format!("{what}: {v}, the swap pays {got} and reports {data}"));
            }
            Ok(1)
        }
        (Err(_), Err(_)) => Ok(0),
        (Ok(v), Err(x)) => {
            // a swap of something for nothing is refused; the quote may say so by zero
            if gets(&v["token_out"], "amount") == "0" && !matches!(x, TxErr::Panic(_)) {
                return Ok(0);
            }
            Err(format!("{what}: {v}, but the swap is refused: {}", x.text()))
        }
        (Err(x), Ok(_)) => Err(format!("{what} is refused ({}), but the swap works", x.text())),
    }
}

pub fn c05() -> Property {
    let c = Cfg { bad: 5, pause: 1, ..book() };
    let run = move |c: &Case| {
        let mut n = 0u64;
        let mut same = 0u64;
        let mut before = |w: &mut World, act: &Act| -> Result<(), String> {
            if let Act::Swap { tin, amount, tout, fee, .. } = act {
                n += 1;
                same += compare_quote(&w.chain, tin, *amount, tout, *fee)?;
            }
            if w.steps % 5 == 4 && (w.model.queues.len() < 30 || w.steps % 8 == 0) {
                for sell in [true, false] {
                    let a = match w.steps / 5 % 6 {
                        0 => Amt::Best(0),
                        1 => Amt::Best(1),
                        2 => Amt::Ticks(1, 0),
                        3 => Amt::Part(3333, 0),
                        4 => Amt::Part(10_000, 1),
                        _ => Amt::N(0),
                    };
                    let a = swap_amount(&w.model, sell, a);
                    let (i, o) = if sell { (BASE, QUOTE) } else { (QUOTE, BASE) };
                    n += 1;
                    same += compare_quote(&w.chain, i, a, o, 0)?;
                    for (i, o, f) in [(i, i, 0), (i, "uother", 0), ("uother", o, 0), (i, o, 1), (i, o, E18 / 100)] {
                        if w.steps % 15 == 4 {
                            compare_quote(&w.chain, i, a.min(1000), o, f)?;
                        }
                    }
                }
            }
            Ok(())
        };
        let (mut w, f) = history(c, &Hist { watch: 0, keep: all }, &mut before, &mut nopa);
        w.stats.insert("quotes compared with a swap", n);
        w.stats.insert("quotes equal to a successful swap", same);
        outcome(&w, f, same >= 2)
    };
    Property {
        id: "C05",
        rule: "In generated books (also paused ones) both quote queries, asked twice, compared with the same swap on a copy: same output or both refused, for amounts at tick and order boundaries, zero, dust, too much, wrong fees and denoms; non-trivial: at least two quotes equal to successful swaps",
        assumptions: vec!["a swap refused because nothing would come out may be quoted as zero or refused"],
        parts: vec![
            part("any ticks", 9000, 400_000, { let c = c.clone(); move || case(c.clone()) }, run),
            part("near prices", 7000, 300_000, { let c = c.clone(); move || case(Cfg { ticks: TickStyle::Near, max_ticks: 6, ..c.clone() }) }, run),
            part("wide book", 200, 8000, wide_case, run),
            part("short", 14_000, 700_000, move || case(Cfg { ops: 2..12, max_ticks: 3, ..c.clone() }), run),
        ],
    }
}

// ------------------------------------------------------------------ C28

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Probe {
    sell: bool,
    a: Amt,
    b: Amt,
    lim: Lim,
}

fn probe() -> BoxedStrategy<Probe> {
    (0u8..5)
        .prop_flat_map(|s| {
            let lim = prop_oneof![
                3 => Just(Lim::None),
                1 => (0u8..6, -1i8..=1).prop_map(|(t, d)| Lim::Tick(t, d)),
                1 => (0i32..4).prop_map(Lim::Best),
                1 => Just(Lim::Extreme),
            ];
            let a = move || prop_oneof![3 => amt(s), 2 => (0u16..300, -1i8..=1).prop_map(|(p, d)| Amt::Part(p, d)), 1 => (1u128..20).prop_map(Amt::N)];
            (any::<bool>(), a(), a(), lim)
        })
        .prop_map(|(sell, a, b, lim)| Probe { sell, a, b, lim })
        .boxed()
}

/// Output of a swap: what the trader got.
fn out_of(c: &Chain, sell: bool, a: u128, limit: Option<i64>) -> Option<(Chain, u128, u128)> {
    let (i, o) = if sell { (BASE, QUOTE) } else { (QUOTE, BASE) };
    let (d, r) = try_swap(c, i, a, o, 0, limit)?;
    let t = r.ok()?;
    let got = |den: &str| t.pays.iter().filter(|p| p.to == "osmo1quoter").flat_map(|p| &p.coins).filter(|c| c.0 == den).map(|c| c.1).sum::<u128>();
    Some((d, got(o), got(i)))
}

fn liquid(c: &Chain, bids: bool) -> Result<Vec<(i64, u128)>, String> {
    let v = c.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    let mut l = vec![];
    for t in v["ticks"].as_array().ok_or("ticks")? {
        let k = if bids { "bid_values" } else { "ask_values" };
        let n = parse_whole(gets(&t["tick_state"][k], "total_amount_of_liquidity")).ok_or("liquidity")?;
        if n > 0 {
            l.push((geti(t, "tick_id").ok_or("tick id")?, n));
        }
    }
    if bids {
        l.reverse();
    }
    Ok(l)
}

fn probe_once(w: &World, case: &Case, p: &Probe, stats: &mut [u64; 4]) -> Result<(), String> {
    let c = &w.chain;
    let ptr = if p.sell { w.model.next_bid } else { w.model.next_ask };
    let limit = match p.lim {
        Lim::None => None,
        Lim::Tick(t, d) => Some(case.tick(t).saturating_add(d as i64)),
        Lim::Best(d) => Some(ptr.saturating_add(if p.sell { -d } else { d } as i64)),
        Lim::Extreme => Some(if p.sell { MIN_TICK } else { MAX_TICK }),
        Lim::Raw(n) => Some(n),
    };
    let a = swap_amount(&w.model, p.sell, p.a);
    let b = swap_amount(&w.model, p.sell, p.b);
    let Some(sum) = a.checked_add(b) else { return Ok(()) };
    let what = format!("{} with limit {limit:?}", if p.sell { "selling base" } else { "selling quote" });
    let mut seen: Vec<(u128, u128)> = vec![];
    for x in [a, b, a.saturating_add(1), sum] {
        let Some((d, out, back)) = out_of(c, p.sell, x, limit) else { continue };
        // bounds by price
        let l0 = liquid(c, p.sell)?;
        let l1 = liquid(&d, p.sell)?;
        let left = |t: i64| l1.iter().find(|y| y.0 == t).map_or(0, |y| y.1);
        let touched: Vec<&(i64, u128)> = l0.iter().filter(|(t, n)| left(*t) != *n).collect();
        let (Some(best), Some(last)) = (l0.first(), touched.last()) else {
            return Err(format!("{what}: {x} gives {out} but takes no liquidity"));
        };
        stats[0] += 1;
        let used = x - back.min(x);
        let top = price(best.0);
        let most = if p.sell { mul_price(used, top, Round::Down) } else { div_price(used, top, Round::Down) };
        if u(out) > most {
            return Err(format!("{what}: {x} ({back} back) gives {out}, more than the best price {top}e-18 allows"));
        }
        // the rest that is kept could not buy one unit at the next tick
        let worst = if left(last.0) > 0 { last.0 } else { l1.first().map_or(last.0, |y| y.0) };
        let pw = price(worst);
        let n = touched.len() as u128;
        let charged = used.saturating_sub(n);
        let least = if p.sell { mul_price(charged, pw, Round::Down) } else { div_price(charged, pw, Round::Down) };
        if u(out) + u(1) < least {
            return Err(format!("{what}: {x} ({back} back) gives {out}, less than the worst price {pw}e-18 over {n} ticks allows ({least})"));
        }
        if let Some(lim) = limit {
            if touched.iter().any(|t| if p.sell { t.0 < lim } else { t.0 > lim }) {
                return Err(format!("{what}: {x} takes liquidity beyond the limit"));
            }
        }
        seen.push((x, out));
    }
    seen.sort();
    for v in seen.windows(2) {
        stats[1] += 1;
        if v[0].0 <= v[1].0 && v[0].1 > v[1].1 {
            return Err(format!("{what}: {} gives {}, but {} gives only {}", v[0].0, v[0].1, v[1].0, v[1].1));
        }
        if v[0].0 == v[1].0 && v[0].1 != v[1].1 {
            return Err(format!("{what}: {} gives {} and {}", v[0].0, v[0].1, v[1].1));
        }
    }
    // splitting
    for (x, y) in [(a, b), (b, a)] {
        let Some((d, o1, r1)) = out_of(c, p.sell, x, limit) else { continue };
        let Some((_, o2, r2)) = out_of(&d, p.sell, y, limit) else { continue };
        let Some((_, o, r)) = out_of(c, p.sell, sum, limit) else { continue };
        stats[2] += 1;
        if u(o1) + u(o2) > u(o) {
            return Err(format!("{what}: {x} then {y} give {o1} + {o2} (back {r1} + {r2}), {sum} at once gives {o} (back {r})"));
        }
    }
    Ok(())
}

pub fn c28() -> Property {
    let c = Cfg { swap: 12, place: 44, cancel: 10, claim: 3, bad: 0, guards: 0, ..book() };
    let run = move |(c, ps): &(Case, Vec<Probe>)| {
        let (mut w, mut f) = history(c, &Hist { watch: 0, keep: all }, &mut nop, &mut nopa);
        let mut s = [0u64; 4];
        if f.is_none() && !w.lost {
            for p in ps {
                if let Err(m) = probe_once(&w, c, p, &mut s) {
                    f = Some(m);
                    break;
                }
            }
        }
        w.stats.insert("swaps within price bounds", s[0]);
        w.stats.insert("pairs in order", s[1]);
        w.stats.insert("splits compared", s[2]);
        outcome(&w, f, s[1] > 1 && s[2] > 0)
    };
    let probes = || prop::collection::vec(probe(), 1..8);
    Property {
        id: "C28",
        rule: "On generated books swaps of amounts a, b, a+1 and a+b with and without limit tick on copies of one state: outputs in the order of inputs, between best and worst price touched, a then b against a+b; non-trivial: at least two ordered pairs and one split where all swaps succeed",
        assumptions: vec!["only swaps that succeed are compared"],
        parts: vec![
            part("any ticks", 7000, 300_000, { let c = c.clone(); move || (case(Cfg { ops: 4..30, ..c.clone() }), probes()) }, run),
            part("near prices", 7000, 300_000, { let c = c.clone(); move || (case(Cfg { ops: 4..30, ticks: TickStyle::Near, max_ticks: 6, ..c.clone() }), probes()) }, run),
            part("short", 14_000, 700_000, move || (case(Cfg { ops: 1..8, max_ticks: 3, ..c.clone() }), probes()), run),
        ],
    }
}
