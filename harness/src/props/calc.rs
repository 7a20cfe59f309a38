//! Conversions (C13, C14), creation of books (C20).
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use cosmwasm_std::{Decimal256, Uint128, Uint256};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use sumtree_orderbook::tick_math::{self, RoundingDirection};
use sumtree_orderbook::types::OrderDirection;

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("panic: {}", panic_text(e)))
}
fn to_u(x: Uint256) -> U {
    let b = x.to_be_bytes();
    U::from_be_slice(&b).unwrap()
}
fn from_u(x: U) -> Option<Uint256> {
    if x.bits() > 256 {
        return None;
    }
    let mut a = [0u8; 32];
    for (i, d) in x.digits()[..4].iter().enumerate() {
        a[24 - 8 * i..32 - 8 * i].copy_from_slice(&d.to_be_bytes());
    }
    Some(Uint256::from_be_bytes(a))
}

// ------------------------------------------------------------------ C13

fn price_of(tick: i64) -> Result<Option<U>, String> {
    guarded(|| tick_math::tick_to_price(tick))
        .map(|r| r.ok().map(|p| to_u(p.atomics())))
        .map_err(|e| format!("tick {tick}: {e}"))
}

fn tick_ok(tick: i64) -> Result<(), String> {
    let got = price_of(tick)?;
    if (MIN_TICK..=MAX_TICK).contains(&tick) {
        let want = u(price(tick));
        if got != Some(want) {
            return Err(format!("tick {tick}: price {got:?} (in 10^-18), expected {want}"));
        }
    } else if got.is_some() {
        return Err(format!("tick {tick} is out of range but has price {got:?}"));
    }
    Ok(())
}

const BLOCK: i64 = 50_000;

fn sweep_block(b: u64) -> Outcome {
    let lo = MIN_TICK + b as i64 * BLOCK;
    let hi = (lo + BLOCK).min(MAX_TICK + 1);
    let mut last: Option<u128> = None;
    let mut n = 0;
    let mut fail = None;
    for t in lo - 1..hi {
        let r = match guarded(|| tick_math::tick_to_price(t)) {
            Err(e) => {
                fail = Some(format!("tick {t}: {e}"));
                break;
            }
            Ok(r) => r,
        };
        if t < MIN_TICK {
            if r.is_ok() {
                fail = Some(format!("tick {t} is out of range but has a price"));
                break;
            }
            continue;
        }
        n += 1;
        let got = r.ok().and_then(|p| Uint128::try_from(p.atomics()).ok()).map(|x| x.u128());
        let want = price(t);
        if got != Some(want) {
            fail = Some(format!("tick {t}: price {got:?} (in 10^-18), expected {want}"));
            break;
        }
        if last.map_or(false, |l| l >= want) {
            fail = Some(format!("tick {t}: price not above that of the tick before"));
            break;
        }
        last = Some(want);
    }
    Outcome {
        fail,
        nontrivial: true,
        classes: vec![("ticks", n)],
    }
}

pub fn c13() -> Property {
    let blocks = ((MAX_TICK - MIN_TICK) / BLOCK + 1) as u64;
    Property {
        id: "C13",
        rule: "Single ticks (edges of decades, of the range, uniform, outside) and whole blocks of 50,000 neighbouring ticks against the closed form in integer arithmetic; pairs for order; placements and spot prices at generated ticks through the book; the blocks together are all 290,402,824 ticks; non-trivial: tick in range and not zero, or pair of different ticks, or block",
        assumptions: vec![],
        parts: vec![
            part("single ticks", 400_000, 4_000_000, || prop_oneof![8 => any_tick(), 1 => any::<i64>(),
                    1 => (-5i64..5).prop_map(|d| MIN_TICK + d), 1 => (-5i64..5).prop_map(|d| MAX_TICK + d),
                    1 => prop_oneof![Just(i64::MIN), Just(i64::MAX)]], |t: &i64| Outcome {
                fail: tick_ok(*t).err(),
                nontrivial: *t != 0 && (MIN_TICK..=MAX_TICK).contains(t),
                classes: vec![],
            }),
            part("pairs", 120_000, 2_000_000, || (any_tick(), prop_oneof![3 => -3i64..=3, 1 => -20_000_000i64..20_000_000]), |(a, d): &(i64, i64)| {
                let b = (*a + *d).clamp(MIN_TICK, MAX_TICK);
                let f = || -> Result<(), String> {
                    let (x, y) = (price_of(*a)?, price_of(b)?);
                    let (Some(x), Some(y)) = (x, y) else { return Err(format!("ticks {a}, {b}: no price")) };
                    if a.cmp(&b) != x.cmp(&y) {
                        return Err(format!("ticks {a} and {b} have prices {x} and {y}"));
                    }
                    Ok(())
                };
                Outcome { fail: f().err(), nontrivial: *a != b, classes: vec![] }
            }),
            Box::new(Sweep { name: "blocks", quick: blocks, total: blocks, f: sweep_block }),
            part("through the book", 6000, 100_000, || (prop_oneof![9 => any_tick(), 1 => any::<i64>(), 1 => (-3i64..3).prop_map(|d| MIN_TICK + d), 1 => (-3i64..3).prop_map(|d| MAX_TICK + d)], any::<bool>(), 1u128..1000), |(t, bid, q): &(i64, bool, u128)| {
                Outcome { fail: book_price(*t, *bid, *q).err(), nontrivial: (MIN_TICK..=MAX_TICK).contains(t), classes: vec![] }
            }),
        ],
    }
}

fn book_price(t: i64, bid: bool, q: u128) -> Result<(), String> {
    let mut c = new_chain();
    let d = if bid { QUOTE } else { BASE };
    c.mint("osmo1aa", d, q);
    let r = c.execute("osmo1aa", &[(d.to_string(), q)], &json!({"place_limit": {"tick_id": t, "order_direction": dir(bid), "quantity": q.to_string()}}));
    let ok = (MIN_TICK..=MAX_TICK).contains(&t);
    if r.is_ok() != ok {
        return Err(format!("placing at tick {t}: {:?}", r.map(|_| ()).map_err(|e| e.text())));
    }
    if !ok {
        return Ok(());
    }
    // the spot price on the side of the order is the tick's price, or its inverse
    let (qa, ba) = if bid { (QUOTE, BASE) } else { (BASE, QUOTE) };
    let v = c
        .query(&json!({"spot_price": {"quote_asset_denom": qa, "base_asset_denom": ba}}))
        .map_err(|e| format!("spot price at tick {t}: {}", e.text()))?;
    let p = price(t);
    let want = if bid { u(p) } else { u(E18) * u(E18) / u(p) };
    let got = parse_dec(gets(&v, "spot_price"));
    if got != Some(want) {
        return Err(format!("{} at tick {t}: spot price {got:?}, expected {want}", dir(bid)));
    }
    Ok(())
}

/// Deterministic sweep over numbered blocks: a seeded sample (quick) or all (thorough).
pub struct Sweep {
    pub name: &'static str,
    pub quick: u64,
    pub total: u64,
    pub f: fn(u64) -> Outcome,
}
impl Part for Sweep {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, _id: &str, seed: u64, thorough: bool) -> (PartStats, Option<Failure>) {
        let list: Vec<u64> = if thorough || self.quick >= self.total {
            (0..self.total).collect()
        } else {
            // both ends, the middle and a seeded sample
            let mut v = vec![0, self.total - 1, (-MIN_TICK / BLOCK) as u64];
            let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
            while (v.len() as u64) < self.quick.min(self.total) {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let b = (x >> 20) % self.total;
                if !v.contains(&b) {
                    v.push(b);
                }
            }
            v
        };
        let next = std::sync::atomic::AtomicUsize::new(0);
        let st = std::sync::Mutex::new((PartStats::default(), Vec::<(u64, String)>::new()));
        std::thread::scope(|s| {
            for _ in 0..SHARDS {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(b) = list.get(i) else { break };
                    let o = (self.f)(*b);
                    let mut g = st.lock().unwrap();
                    g.0.evaluations += 1;
                    g.0.nontrivial.insert(*b);
                    for (k, v) in o.classes {
                        let e = g.0.classes.entry(k).or_insert((0, 0));
                        e.0 += 1;
                        e.1 += v;
                    }
                    if let Some(m) = o.fail {
                        g.1.push((*b, m));
                        break;
                    }
                });
            }
        });
        let (mut st, mut bad) = st.into_inner().unwrap();
        st.samples.push(list[0].to_string());
        bad.sort();
        let f = bad.into_iter().next().map(|(b, message)| Failure {
            shard: 0,
            message,
            case: b.to_string(),
            shrinks: 0,
        });
        (st, f)
    }
    fn replay(&self, _id: &str, case: &str) -> Result<Outcome, String> {
        Ok((self.f)(case.parse().map_err(|e| format!("{e}"))?))
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PriceSel {
    Tick(i64),
    /// mantissa << shift, in 10^-18
    Raw(u128, u8),
    Zero,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AmtSel {
    N(u128),
    /// about k times the price (or what k units cost), plus d
    TimesPrice(u64, i8),
    TimesInverse(u64, i8),
    Max(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
    p: PriceSel,
    a: AmtSel,
}

fn conv() -> BoxedStrategy<Conv> {
    let p = prop_oneof![
        12 => any_tick().prop_map(PriceSel::Tick),
        4 => (1u128..=u128::MAX, 0u8..=128).prop_map(|(m, s)| PriceSel::Raw(m, s)),
        4 => (1u128..1_000_000, 0u8..=200).prop_map(|(m, s)| PriceSel::Raw(m, s)),
        1 => Just(PriceSel::Zero),
    ];
    let a = prop_oneof![
        4 => (0u128..40).prop_map(AmtSel::N),
        4 => (0u32..128, any::<u128>()).prop_map(|(s, m)| AmtSel::N(m >> s)),
        4 => (0u64..1_000_000, -2i8..=2).prop_map(|(k, d)| AmtSel::TimesPrice(k, d)),
        4 => (0u64..1_000_000, -2i8..=2).prop_map(|(k, d)| AmtSel::TimesInverse(k, d)),
        1 => (0u8..3).prop_map(AmtSel::Max),
    ];
    (p, a).prop_map(|(p, a)| Conv { p, a }).boxed()
}

fn check_conv(c: &Conv) -> Result<(bool, &'static str), String> {
    let p: U = match &c.p {
        PriceSel::Tick(t) => u(price(*t)),
        PriceSel::Raw(m, s) => u(*m) << (*s as u32).min(256 - (128 - m.leading_zeros())),
        PriceSel::Zero => u(0),
    };
    let bump = |x: U, d: i8| -> u128 {
        let x = if d < 0 { x.saturating_sub(u(-d as u128)) } else { x.saturating_add(u(d as u128)) };
        to_u128(x).unwrap_or(u128::MAX)
    };
    let a: u128 = match c.a {
        AmtSel::N(n) => n,
        AmtSel::TimesPrice(k, d) => bump(u(k as u128) * p / u(E18), d),
        AmtSel::TimesInverse(k, d) if p != u(0) => bump(u(k as u128) * u(E18) / p, d),
        AmtSel::TimesInverse(k, _) => k as u128,
        AmtSel::Max(d) => u128::MAX - d as u128,
    };
    let price = Decimal256::new(from_u(p).expect("256 bits"));
    let is_tick = matches!(c.p, PriceSel::Tick(_));
    // a decimal of 18 places in 256 bits
    let cap = (u(1) << 256u32) - u(1);
    let exact = |mul: bool, r: Round| -> Option<U> {
        let (n, d) = if mul { (u(a) * p, u(E18)) } else { (u(a) * u(E18), p) };
        if d == u(0) {
            return None;
        }
        let q = n / d;
        Some(if r == Round::Up && q * d != n { q + u(1) } else { q })
    };
    for mul in [true, false] {
        for r in [Round::Down, Round::Up] {
            let want = exact(mul, r);
            let rd = || if r == Round::Up { RoundingDirection::Up } else { RoundingDirection::Down };
            let f = guarded(|| {
                if mul {
                    tick_math::multiply_by_price(Uint128::new(a), price, rd())
                } else {
                    tick_math::divide_by_price(Uint128::new(a), price, rd())
                }
                .ok()
                .map(to_u)
            });
            // asks convert base to quote, bids quote to base
            let g = guarded(|| {
                tick_math::amount_to_value(
                    if mul { OrderDirection::Ask } else { OrderDirection::Bid },
                    Uint128::new(a),
                    price,
                    rd(),
                )
                .ok()
                .map(to_u)
            });
            for (name, got) in [("conversion", f), ("amount_to_value", g)] {
                let op = if mul { "*" } else { "/" };
                let got = match got {
                    Ok(x) => x,
                    // zero and prices no tick has are outside the property
                    Err(_) if !is_tick => continue,
                    Err(e) => return Err(format!("{name}: {a} {op} {p}e-18 {r:?}: {e}")),
                };
                match (got, want) {
                    (Some(x), Some(y)) if x == y => {}
                    // zero converts to zero, at whatever price
                    (Some(x), None) if a == 0 && x == u(0) => {}
                    (Some(x), y) => return Err(format!("{name}: {a} {op} {p}e-18 {r:?} gives {x}, exact is {y:?}")),
                    (None, None) => {}
                    (None, Some(y)) => {
                        let fits = (y + u(1)).checked_mul(u(E18)).map_or(false, |z| z <= cap);
                        if is_tick || fits {
                            return Err(format!("{name}: {a} {op} {p}e-18 {r:?} is refused, exact is {y}"));
                        }
                    }
                }
            }
        }
    }
    let inexact = p != u(0) && ((u(a) * p) % u(E18) != u(0) || (u(a) * u(E18)) % p != u(0));
    Ok((a != 0 && inexact, if is_tick { "tick price" } else { "other price" }))
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Amounts (small, all magnitudes, near multiples of the price and of its inverse, maximal) at tick prices of the whole range and at arbitrary 256-bit prices, both conversions, both roundings, against exact 512-bit arithmetic; non-trivial: amount not zero and at least one of the conversions has a remainder",
        assumptions: vec!["for prices no tick has, an error is accepted where the result in 18 decimals does not fit 256 bits"],
        parts: vec![part("conversions", 800_000, 20_000_000, conv, |c: &Conv| match check_conv(c) {
            Err(m) => Outcome { fail: Some(m), ..Default::default() },
            Ok((nontrivial, k)) => Outcome { fail: None, nontrivial, classes: vec![(k, 1)] },
        })],
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Birth {
    base: String,
    quote: String,
    /// supplies of base, quote
    sb: u128,
    sq: u128,
    /// the supply query of base, quote fails
    fb: bool,
    fq: bool,
    sender: String,
}

fn denom() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just("ubase".to_string()),
        4 => Just("uquote".to_string()),
        2 => Just("uosmo".to_string()),
        1 => Just("uosmo2".to_string()),
        1 => Just("uOsmo".to_string()),
        1 => Just(String::new()),
        1 => Just(" ".to_string()),
        2 => Just("ibc/D189335C6E4A68B513C10AB227BF1C1D38C746766278BA3EEB4FB14124F1D858".to_string()),
        2 => Just("factory/osmo1z0qrq605sjgcqpylfl4aa6s90x738j7m58wyatt0tdzflg2ha26q67k743/wbtc".to_string()),
        1 => "[a-z]{3,12}",
        1 => "\\PC{1,20}",
    ]
    .boxed()
}
/// A denom that differs little from another, or not at all.
fn beside(d: &str, how: u8, x: char) -> String {
    let n = d.chars().count();
    match how % 12 {
        0 => d.to_string(),
        1 => format!("{d}{x}"),
        2 => format!("{x}{d}"),
        3 => d.chars().take(n.saturating_sub(1)).collect(),
        4 => d.chars().skip(1).collect(),
        5 => d.chars().rev().collect(),
        6 => d.to_uppercase(),
        7 => d.to_lowercase(),
        8 => format!("{d}/{d}"),
        // one character in the middle replaced
        9 => d.chars().enumerate().map(|(i, c)| if i == n / 2 { x } else { c }).collect(),
        // cut where a path ends
        10 => d.rsplit('/').next().unwrap_or("").to_string(),
        _ => format!("{d}{x}{x}"),
    }
}
fn birth() -> BoxedStrategy<Birth> {
    let supply = || prop_oneof![2 => Just(0u128), 2 => Just(1u128), 4 => 1u128..1_000_000, 1 => Just(u128::MAX)];
    let rarely = || prop_oneof![12 => Just(false), 1 => Just(true)];
    let sender = prop_oneof![3 => Just("osmo1creator".to_string()), 1 => Just(GOV.to_string()), 1 => Just("x".to_string()), 1 => Just("osmo1Upper".to_string()), 1 => Just(CONTRACT.to_string())];
    let close = prop_oneof![3 => Just(None), 2 => (any::<u8>(), prop::sample::select("0 19aAzu/.-_:\t\0é".chars().collect::<Vec<_>>())).prop_map(Some)];
    (denom(), denom(), close, any::<bool>(), supply(), supply(), (rarely(), rarely()), sender)
        .prop_map(|(mut base, mut quote, close, turn, sb, sq, (fb, fq), sender)| {
            if let Some((how, x)) = close {
                quote = beside(&base, how, x);
            }
            if turn {
                std::mem::swap(&mut base, &mut quote);
            }
            Birth { base, quote, sb, sq, fb, fq, sender }
        })
        .boxed()
}

fn check_birth(b: &Birth) -> Result<bool, String> {
    let mut c = Chain::new();
    c.mint("osmo1genesis", &b.base, b.sb);
    if b.base != b.quote {
        c.mint("osmo1genesis", &b.quote, b.sq);
    }
    c.mint("osmo1genesis", "uforeign", 1_000_000);
    if b.fb {
        c.q.broken.insert(b.base.clone());
    }
    if b.fq {
        c.q.broken.insert(b.quote.clone());
    }
    let supply = |d: &str| c.q.supply.get(d).copied().unwrap_or(0);
    let valid = b.base != b.quote && supply(&b.base) > 0 && supply(&b.quote) > 0 && !b.fb && !b.fq;
    let r = c.instantiate(&b.sender, &json!({"base_denom": b.base, "quote_denom": b.quote}));
    match (&r, valid) {
        (Err(TxErr::Panic(p)), _) => return Err(format!("instantiation panics: {p}")),
        (Ok(_), false) => return Err("a book is created although it must not be".into()),
        (Err(e), true) => return Err(format!("a valid book is not created: {}", e.text())),
        (Err(_), false) => return Ok(false),
        (Ok(t), true) => {
            if !t.pays.is_empty() {
                return Err("instantiation sends tokens".into());
            }
        }
    }
    let q = |c: &Chain, q: Value, want: Value| -> Result<(), String> {
        let got = c.query(&q);
        if got.as_ref().ok() == Some(&want) {
            Ok(())
        } else {
            Err(format!("fresh book, query {q}: {got:?}, expected {want}"))
        }
    };
    q(&c, json!({"denoms": {}}), json!({"base_denom": b.base, "quote_denom": b.quote}))?;
    q(&c, json!({"is_active": {}}), json!(true))?;
    q(&c, json!({"all_ticks": {}}), json!({"ticks": []}))?;
    q(&c, json!({"get_maker_fee": {}}), json!("0"))?;
    q(&c, json!({"get_swap_fee": {}}), json!({"swap_fee": "0"}))?;
    q(&c, json!({"auth": {"admin": {}}}), json!(GOV))?;
    q(&c, json!({"auth": {"moderator": {}}}), json!(BREAKER))?;
    q(&c, json!({"auth": {"admin_offer": {}}}), Value::Null)?;
    q(&c, json!({"auth": {"moderator_offer": {}}}), Value::Null)?;
    q(&c, json!({"get_total_pool_liquidity": {}}), json!({"total_pool_liquidity": [{"denom": b.base, "amount": "0"}, {"denom": b.quote, "amount": "0"}]}))?;
    // names that are no addresses may be refused
    if b.sender.len() >= 3 && b.sender == b.sender.to_lowercase() {
        q(&c, json!({"orders_by_owner": {"owner": b.sender}}), json!({"orders": [], "count": 0}))?;
    }
    let s = c.query(&json!({"orderbook_state": {}})).map_err(|e| e.text())?;
    if geti(&s, "next_bid_tick") != Some(MIN_TICK) || geti(&s, "next_ask_tick") != Some(MAX_TICK) || gets(&s, "base_denom") != b.base || gets(&s, "quote_denom") != b.quote {
        return Err(format!("fresh book: {s}"));
    }
    // the creator has no rights
    if b.sender != GOV && b.sender != BREAKER {
        for m in [json!({"set_active": {"active": false}}), json!({"transfer_admin": {"new_admin": "osmo1aa"}}), json!({"set_maker_fee": {"fee": "0.01"}})] {
            if c.execute(&b.sender, &[], &json!({ "auth": m })).is_ok() {
                return Err(format!("the creator may {m}"));
            }
        }
    }
    // trading works in the right roles, and only there
    let place = |c: &mut Chain, bid: bool, d: &str, n: u128| {
        if c.balance("osmo1aa", d) < n && c.mint("osmo1aa", d, n) < n {
            return None;
        }
        Some(c.execute("osmo1aa", &[(d.to_string(), n)], &json!({"place_limit": {"tick_id": 0, "order_direction": dir(bid), "quantity": n.to_string()}})))
    };
    for (bid, right, wrong) in [(true, &b.quote, &b.base), (false, &b.base, &b.quote)] {
        for w in [wrong.as_str(), "uforeign"] {
            if w != right {
                if let Some(Ok(_)) = place(&mut c.clone(), bid, w, 5) {
                    return Err(format!("{} accepts {w}", dir(bid)));
                }
            }
        }
        match place(&mut c, bid, right, 1000) {
            None => return Ok(true),
            Some(Err(e)) => return Err(format!("{} of {right} is refused: {}", dir(bid), e.text())),
            Some(Ok(_)) => {}
        }
    }
    q(&c, json!({"get_total_pool_liquidity": {}}), json!({"total_pool_liquidity": [{"denom": b.base, "amount": "1000"}, {"denom": b.quote, "amount": "1000"}]}))?;
    let l = list_by_tick(&c, 0)?;
    if l.len() != 2 || l[0].id + 1 != l[1].id || !l[0].bid || l[1].bid {
        return Err(format!("first two orders: {l:?}"));
    }
    // default roles and default recipient at work
    c.execute(GOV, &[], &json!({"auth": {"set_maker_fee": {"fee": "0.05"}}})).map_err(|e| format!("the default admin cannot set the fee: {}", e.text()))?;
    c.execute(BREAKER, &[], &json!({"auth": {"set_active": {"active": false}}})).map_err(|e| format!("the default moderator cannot pause: {}", e.text()))?;
    c.execute(GOV, &[], &json!({"auth": {"set_active": {"active": true}}})).map_err(|e| format!("the default admin cannot release: {}", e.text()))?;
    for (tin, tout, id) in [(&b.base, &b.quote, l[0].id), (&b.quote, &b.base, l[1].id)] {
        if c.mint("osmo1bob", tin, 400) < 400 {
            return Ok(true);
        }
        let m = json!({"swap_exact_amount_in": {"sender": "osmo1bob", "token_in": {"denom": tin, "amount": "400"}, "token_out_denom": tout, "token_out_min_amount": "400", "swap_fee": "0"}});
        c.sudo_swap("osmo1bob", tin, 400, &m).map_err(|e| format!("swap of {tin}: {}", e.text()))?;
        let f0 = c.balance(FEE_DEFAULT, tin);
        c.execute("osmo1aa", &[], &json!({"claim_limit": {"tick_id": 0, "order_id": id}})).map_err(|e| format!("claim: {}", e.text()))?;
        if c.balance(FEE_DEFAULT, tin) != f0 + 20 {
            return Err("the default fee recipient does not get the fee".into());
        }
    }
    Ok(true)
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        rule: "Denoms (equal, differing in one character, in length, case or path, odd strings), supplies 0, 1, maximal, failing supply queries and senders; outcome against the two conditions, then all published state, roles, denoms, fee and default recipient by queries and by trading; non-trivial: the book was created",
        assumptions: vec!["a bank supply query for an unknown denom answers zero, as on Osmosis"],
        parts: vec![part("creation", 40_000, 600_000, birth, |b: &Birth| match check_birth(b) {
            Err(m) => Outcome { fail: Some(m), ..Default::default() },
            Ok(n) => Outcome { fail: None, nontrivial: n, classes: vec![(if n { "created" } else { "refused" }, 1)] },
        })],
    }
}
