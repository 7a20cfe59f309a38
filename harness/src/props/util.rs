//! Shared pieces of the property checks.
use crate::chain::*;
use crate::driver::Outcome;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use serde_json::json;

pub type Step<'a> = dyn FnMut(&mut World, &Act, &TxRes, &Result<Effects, Why>) -> Result<(), String> + 'a;
pub type Keep = fn(&Div) -> bool;

pub fn all(_: &Div) -> bool {
    true
}

/// What shape of histories a check needs before anything else counts.
pub struct Hist {
    pub watch: u64,
    pub keep: Keep,
}

/// Runs a history. Every watched disagreement is a failure.
pub fn history(
    case: &Case,
    h: &Hist,
    before: &mut dyn FnMut(&mut World, &Act) -> Result<(), String>,
    after: &mut Step,
) -> (World, Option<String>) {
    let mut w = World::new(h.watch);
    let r = play(&mut w, case, h.keep, before, after);
    (w, r.err())
}

pub fn play(
    w: &mut World,
    case: &Case,
    keep: Keep,
    before: &mut dyn FnMut(&mut World, &Act) -> Result<(), String>,
    after: &mut Step,
) -> Result<(), String> {
    for (i, op) in case.ops.iter().enumerate() {
        if w.lost {
            break;
        }
        for act in case.resolve(op, &w.model) {
            if w.lost {
                break;
            }
            before(w, &act).map_err(|m| format!("operation {i}: {m}"))?;
            let (divs, res) = w.apply_full(&act);
            if let Some(d) = divs.iter().find(|d| keep(d)) {
                return Err(format!("operation {i}: {}", d.msg));
            }
            if let Some((tx, eff)) = res {
                if !w.lost {
                    after(w, &act, &tx, &eff).map_err(|m| format!("operation {i}, {act:?}: {m}"))?;
                }
            }
        }
    }
    if let Some(d) = w.check_all().iter().find(|d| keep(d)) {
        return Err(format!("at the end: {}", d.msg));
    }
    Ok(())
}

pub fn outcome(w: &World, fail: Option<String>, nontrivial: bool) -> Outcome {
    let mut classes: Vec<(&'static str, u64)> = w.stats.iter().map(|(k, v)| (*k, *v)).collect();
    if w.lost {
        classes.push(("abandoned: another property is broken", 1));
    }
    classes.push(("messages", w.steps));
    Outcome {
        fail,
        nontrivial,
        classes,
    }
}

pub fn nop(_: &mut World, _: &Act) -> Result<(), String> {
    Ok(())
}
pub fn nopa(_: &mut World, _: &Act, _: &TxRes, _: &Result<Effects, Why>) -> Result<(), String> {
    Ok(())
}

/// All resting orders, in an order given by a seed.
pub fn shuffled(m: &Model, seed: u64) -> Vec<(i64, u64)> {
    let mut rest: Vec<(i64, u64)> = m.live().map(|o| (o.tick, o.id)).collect();
    let mut x = seed | 1;
    let mut v = vec![];
    match seed % 4 {
        0 => return rest,
        1 => {
            rest.reverse();
            return rest;
        }
        _ => {}
    }
    while !rest.is_empty() {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let i = (x >> 33) as usize % rest.len();
        v.push(rest.remove(i));
    }
    v
}

fn must(w: &mut World, act: Act, what: &str) -> Result<Effects, String> {
    let (divs, r) = w.apply_full(&act);
    if let Some(d) = divs.first() {
        return Err(format!("{what}: {}", d.msg));
    }
    match r {
        Some((Ok(_), Ok(e))) => Ok(e),
        Some((Err(e), Ok(_))) => Err(format!("{what}: {act:?} is refused: {}", e.text())),
        Some((Ok(_), Err(y))) => Err(format!("{what}: {act:?} is accepted although it must not be ({y:?})")),
        Some((Err(_), Err(y))) => Err(format!("{what}: model refuses {act:?} ({y:?})")),
        None => Err(String::new()),
    }
}

/// Everybody leaves: claim what is filled, cancel what is open; then the book must be empty and usable.
pub fn drain(w0: &World, seed: u64, watch: u64) -> Result<(), String> {
    if w0.lost {
        return Ok(());
    }
    let mut w = w0.clone();
    w.watch = 0;
    if !w.model.active {
        w.apply(&Act::Sudo(SudoMsg::SetActive(true)));
        if w.lost {
            // not this property
            return Ok(());
        }
    }
    w.watch = watch;
    for (tick, id) in shuffled(&w.model, seed) {
        let o = w.model.orders[id as usize].clone();
        if o.unclaimed > 0 {
            let by = if seed % 3 == 0 { "osmo1keeper".to_string() } else { o.owner.clone() };
            must(
                &mut w,
                Act::Claim {
                    sender: by,
                    tick,
                    id,
                    funds: vec![],
                },
                "leaving the book",
            )?;
        }
        if w.model.order(tick, id).is_some() {
            must(
                &mut w,
                Act::Cancel {
                    sender: o.owner.clone(),
                    tick,
                    id,
                    funds: vec![],
                },
                "leaving the book",
            )?;
        }
    }
    for t in w.model.ticks() {
        let l = list_by_tick(&w.chain, t)?;
        if !l.is_empty() {
            return Err(format!("everybody has left, but tick {t} still lists {l:?}"));
        }
        let (a, b) = tick_vals(&w.chain, t, false)?;
        if a.liq != 0 || b.liq != 0 {
            return Err(format!("everybody has left, but tick {t} reports liquidity {} / {}", a.liq, b.liq));
        }
    }
    let got = w.chain.query(&json!({"get_total_pool_liquidity": {}}));
    let want = json!({"total_pool_liquidity": [{"denom": BASE, "amount": "0"}, {"denom": QUOTE, "amount": "0"}]});
    if got.as_ref().ok() != Some(&want) {
        return Err(format!("everybody has left, but the pool reports {got:?}"));
    }
    Ok(())
}

/// What the contract owes according to its own published data: (base, quote).
pub fn self_owed(c: &Chain) -> Result<(u128, u128), String> {
    let v = c.query(&json!({"all_ticks": {}})).map_err(|e| e.text())?;
    let (mut b, mut q) = (0u128, 0u128);
    for t in v["ticks"].as_array().ok_or("no ticks")? {
        let tick = geti(t, "tick_id").ok_or("no tick id")?;
        let l = list_by_tick(c, tick)?;
        if l.is_empty() {
            continue;
        }
        let (a, d) = tick_vals(c, tick, true)?;
        for o in l {
            let s = if o.bid { &d } else { &a };
            let filled = filled_of(s, &o);
            let open = o.quantity - filled;
            let p = price(tick);
            if o.bid {
                q = q.saturating_add(open);
                b = b.saturating_add(to_u128(div_price(filled, p, Round::Down)).unwrap_or(u128::MAX));
            } else {
                b = b.saturating_add(open);
                q = q.saturating_add(to_u128(mul_price(filled, p, Round::Down)).unwrap_or(u128::MAX));
            }
        }
    }
    Ok((b, q))
}

/// The contract holds at least what it owes by its own data.
pub fn solvent(c: &Chain) -> Result<(), String> {
    let (b, q) = self_owed(c)?;
    for (d, n) in [(BASE, b), (QUOTE, q)] {
        let have = c.balance(CONTRACT, d);
        if have < n {
            return Err(format!("the contract holds {have}{d} but owes {n}{d}"));
        }
    }
    Ok(())
}
