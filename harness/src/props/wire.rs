//! Wire format and published schema (C22), strange messages (C26).
use super::batch::{nonzero, snapshot};
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use cosmwasm_schema::{schema_for, QueryResponses};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use sumtree_orderbook::msg::{ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg, SudoMsg as ContractSudo};

// ------------------------------------------------------------------ JSON schema, as far as it is used

fn digits(s: &str) -> bool {
    !s.is_empty() && s.len() <= 78 && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0'))
}
fn decimal(s: &str) -> bool {
    match s.split_once('.') {
        None => digits(s),
        Some((a, b)) => digits(a) && !b.is_empty() && b.len() <= 18 && b.bytes().all(|c| c.is_ascii_digit()),
    }
}

pub fn validate(root: &Value, s: &Value, v: &Value, at: &str) -> Result<(), String> {
    let bad = |m: String| Err(format!("{at}: {m}"));
    if let Some(b) = s.as_bool() {
        return if b { Ok(()) } else { bad("nothing allowed".into()) };
    }
    if let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
        let name = r.rsplit('/').next().unwrap_or("");
        let Some(d) = root["definitions"].get(name) else { return bad(format!("schema lacks {r}")) };
        validate(root, d, v, at)?;
        // number types carried as strings
        let ok = match (name, v.as_str()) {
            ("Uint64" | "Uint128" | "Uint256" | "Timestamp", Some(x)) => digits(x),
            ("Decimal" | "Decimal256", Some(x)) => decimal(x),
            _ => true,
        };
        if !ok {
            return bad(format!("{v} is not a proper {name}"));
        }
    }
    if let Some(l) = s.get("allOf").and_then(|x| x.as_array()) {
        for x in l {
            validate(root, x, v, at)?;
        }
    }
    if let Some(l) = s.get("anyOf").and_then(|x| x.as_array()) {
        if !l.iter().any(|x| validate(root, x, v, at).is_ok()) {
            return bad(format!("{v} fits no alternative"));
        }
    }
    if let Some(l) = s.get("oneOf").and_then(|x| x.as_array()) {
        let n = l.iter().filter(|x| validate(root, x, v, at).is_ok()).count();
        if n != 1 {
            return bad(format!("{v} fits {n} alternatives"));
        }
    }
    if let Some(l) = s.get("enum").and_then(|x| x.as_array()) {
        if !l.contains(v) {
            return bad(format!("{v} is none of {l:?}"));
        }
    }
    if let Some(t) = s.get("type") {
        let is = |t: &str| match t {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "string" => v.is_string(),
            "object" => v.is_object(),
            "array" => v.is_array(),
            "number" => v.is_number(),
            "integer" => v.is_i64() || v.is_u64(),
            _ => false,
        };
        let ok = match t {
            Value::String(t) => is(t),
            Value::Array(l) => l.iter().any(|t| t.as_str().map_or(false, is)),
            _ => false,
        };
        if !ok {
            return bad(format!("{v} is not of type {t}"));
        }
    }
    if v.is_number() {
        match s.get("format").and_then(|f| f.as_str()) {
            Some("int64") if !v.is_i64() => return bad(format!("{v} is no int64")),
            Some("uint64" | "uint") if !v.is_u64() => return bad(format!("{v} is no uint64")),
            _ => {}
        }
        if let Some(m) = s.get("minimum").and_then(|m| m.as_f64()) {
            if v.as_f64().map_or(true, |x| x < m) {
                return bad(format!("{v} is below {m}"));
            }
        }
    }
    if let Some(o) = v.as_object() {
        for r in s.get("required").and_then(|r| r.as_array()).unwrap_or(&vec![]) {
            if !o.contains_key(r.as_str().unwrap_or("")) {
                return bad(format!("{v} lacks {r}"));
            }
        }
        for (k, x) in o {
            match s.get("properties").and_then(|p| p.get(k)) {
                Some(p) => validate(root, p, x, &format!("{at}.{k}"))?,
                None => match s.get("additionalProperties") {
                    Some(Value::Bool(false)) => return bad(format!("{k} is not in the schema")),
                    Some(p) => validate(root, p, x, &format!("{at}.{k}"))?,
                    None => {}
                },
            }
        }
    }
    if let Some(a) = v.as_array() {
        match s.get("items") {
            Some(Value::Array(l)) => {
                for (i, (p, x)) in l.iter().zip(a).enumerate() {
                    validate(root, p, x, &format!("{at}[{i}]"))?;
                }
            }
            Some(p) => {
                for (i, x) in a.iter().enumerate() {
                    validate(root, p, x, &format!("{at}[{i}]"))?;
                }
            }
            None => {}
        }
        for (k, f) in [("minItems", true), ("maxItems", false)] {
            if let Some(n) = s.get(k).and_then(|n| n.as_u64()) {
                if f && (a.len() as u64) < n || !f && a.len() as u64 > n {
                    return bad(format!("{v}: {k} {n}"));
                }
            }
        }
    }
    Ok(())
}

fn fits(schema: &Value, v: &Value) -> Result<(), String> {
    validate(schema, schema, v, "")
}
fn responses() -> &'static BTreeMap<String, Value> {
    static S: OnceLock<BTreeMap<String, Value>> = OnceLock::new();
    S.get_or_init(|| {
        QueryMsg::response_schemas()
            .map(|m| m.into_iter().map(|(k, v)| (k, serde_json::to_value(v).unwrap())).collect())
            .unwrap_or_default()
    })
}
fn messages() -> &'static BTreeMap<&'static str, Value> {
    static S: OnceLock<BTreeMap<&'static str, Value>> = OnceLock::new();
    S.get_or_init(|| {
        BTreeMap::from([
            ("execute", serde_json::to_value(schema_for!(ExecuteMsg)).unwrap()),
            ("sudo", serde_json::to_value(schema_for!(ContractSudo)).unwrap()),
            ("query", serde_json::to_value(schema_for!(QueryMsg)).unwrap()),
            ("instantiate", serde_json::to_value(schema_for!(InstantiateMsg)).unwrap()),
            ("migrate", serde_json::to_value(schema_for!(MigrateMsg)).unwrap()),
        ])
    })
}

// ------------------------------------------------------------------ C22

/// All forms of all queries: groups whose members differ only in an optional field being absent or null.
fn queries(c: &Case, m: &Model, pick: u64) -> Vec<Vec<Value>> {
    let mut out: Vec<Vec<Value>> = vec![];
    for k in ["orderbook_state", "denoms", "is_active", "get_swap_fee", "get_maker_fee", "get_total_pool_liquidity"] {
        out.push(vec![json!({ k: {} })]);
    }
    for k in ["admin", "admin_offer", "moderator", "moderator_offer"] {
        out.push(vec![json!({"auth": {k: {}}})]);
    }
    for (a, b) in [(BASE, QUOTE), (QUOTE, BASE)] {
        out.push(vec![json!({"spot_price": {"quote_asset_denom": a, "base_asset_denom": b}})]);
        for n in [1u128, 12345, 1 << 40] {
            for k in ["calc_out_amount_given_in", "calc_out_amt_given_in"] {
                out.push(vec![json!({k: {"token_in": {"denom": a, "amount": n.to_string()}, "token_out_denom": b, "swap_fee": "0"}})]);
            }
        }
    }
    let used = m.ticks();
    for l in [vec![], used.iter().take(1).copied().collect::<Vec<_>>(), used.clone()] {
        for k in ["ticks_by_id", "get_unrealized_cancels"] {
            out.push(vec![json!({k: {"tick_ids": l}})]);
        }
    }
    let t = c.tick((pick % 7) as u8);
    let id = pick >> 3 & 15;
    let mut group = |name: &str, fixed: &[(&str, Value)], opt: &[(&str, Value)]| {
        for mask in 0..1u32 << opt.len() {
            // present ones have a value, the others are absent or null
            let mut base = serde_json::Map::new();
            for (k, v) in fixed {
                base.insert(k.to_string(), v.clone());
            }
            let mut missing = vec![];
            for (i, (k, v)) in opt.iter().enumerate() {
                if mask >> i & 1 == 1 {
                    base.insert(k.to_string(), v.clone());
                } else {
                    missing.push(*k);
                }
            }
            let mut g = vec![json!({ name: Value::Object(base.clone()) })];
            for k in &missing {
                let mut b = base.clone();
                b.insert(k.to_string(), Value::Null);
                g.push(json!({ name: Value::Object(b) }));
            }
            for k in &missing {
                base.insert(k.to_string(), Value::Null);
            }
            g.push(json!({ name: Value::Object(base) }));
            out.push(g);
        }
    };
    let owner = USERS[(pick >> 7) as usize % USERS.len()];
    // small limits mostly, and some of every magnitude the format has
    let n = json!(match pick >> 13 & 7 {
        0 => u64::MAX,
        1 => u64::MAX >> (pick >> 16 & 63),
        _ => pick >> 10 & 7,
    });
    let (t, id) = match pick >> 22 & 15 {
        0 => (i64::MIN, u64::MAX),
        1 => (i64::MAX, u64::MAX - 3),
        2 => (MIN_TICK, 1 << 32),
        _ => (t, id),
    };
    let end = id.saturating_add(3);
    group("all_ticks", &[], &[("start_from", json!(t)), ("end_at", json!(t)), ("limit", n.clone())]);
    group("orders_by_owner", &[("owner", json!(owner))], &[("start_from", json!([t, id])), ("end_at", json!([t, end])), ("limit", n.clone())]);
    group("orders_by_tick", &[("tick_id", json!(t))], &[("start_from", json!(id)), ("end_at", json!(end)), ("limit", n)]);
    out
}

fn answers(c: &Case, w: &World, pick: u64) -> Result<(u64, u64), String> {
    let (mut ok, mut refused) = (0, 0);
    for g in queries(c, &w.model, pick) {
        let mut first: Option<Result<Vec<u8>, ()>> = None;
        for q in g {
            let name = q.as_object().and_then(|o| o.keys().next()).cloned().unwrap_or_default();
            fits(&messages()["query"], &q).map_err(|e| format!("query {q} does not follow the published schema: {e}"))?;
            let raw = w.chain.query_raw(&serde_json::to_vec(&q).unwrap());
            match &raw {
                Err(TxErr::Parse(e)) => return Err(format!("query {q} is not understood: {e}")),
                Err(e @ TxErr::Panic(_)) => return Err(format!("query {q}: {}", e.text())),
                // everything but a quote has an answer
                Err(e) if !name.starts_with("calc_out") => return Err(format!("query {q} is refused: {}", e.text())),
                Err(_) => refused += 1,
                Ok(b) => {
                    ok += 1;
                    let v: Value = serde_json::from_slice(b).map_err(|e| format!("answer to {q} is not JSON: {e}"))?;
                    let Some(s) = responses().get(&name) else { return Err(format!("no response schema published for {name}")) };
                    fits(s, &v).map_err(|e| format!("answer to {q} does not follow the published schema: {e}\n    {v}"))?;
                    if name.starts_with("calc_out") {
                        let a = gets(&v["token_out"], "amount");
                        if !digits(a) {
                            return Err(format!("{q}: amount {a}"));
                        }
                    }
                }
            }
            let r = raw.map_err(|_| ());
            match &first {
                None => first = Some(r),
                Some(f) if *f != r => return Err(format!("query {q} is answered differently when an optional field is null instead of absent: {:?}, {:?}", f.as_ref().map(|b| String::from_utf8_lossy(b).to_string()), r.as_ref().map(|b| String::from_utf8_lossy(b).to_string()))),
                _ => {}
            }
        }
    }
    Ok((ok, refused))
}

/// The same message written differently.
fn spellings(v: &Value) -> Vec<Vec<u8>> {
    fn reversed(v: &Value, out: &mut String, space: &str) {
        match v {
            Value::Object(o) => {
                out.push('{');
                for (i, (k, x)) in o.iter().rev().enumerate() {
                    if i > 0 {
                        out.push(',');
                        out.push_str(space);
                    }
                    out.push_str(&json!(k).to_string());
                    out.push_str(space);
                    out.push(':');
                    out.push_str(space);
                    reversed(x, out, space);
                }
                out.push('}');
            }
            x => out.push_str(&x.to_string()),
        }
    }
    let mut a = String::new();
    reversed(v, &mut a, "");
    let mut b = String::new();
    reversed(v, &mut b, "\n ");
    let mut all = vec![a.into_bytes(), b.into_bytes(), serde_json::to_vec_pretty(v).unwrap()];
    if let Some(p) = v.get("place_limit") {
        if p.get("claim_bounty").is_none() {
            let mut x = v.clone();
            x["place_limit"]["claim_bounty"] = Value::Null;
            all.push(serde_json::to_vec(&x).unwrap());
        }
    }
    all
}

fn spelled(w: &World, act: &Act) -> Result<u64, String> {
    let (sender, funds, kind) = match act {
        Act::Place { sender, funds, .. } | Act::Cancel { sender, funds, .. } | Act::Claim { sender, funds, .. } | Act::Batch { sender, funds, .. } => (sender, funds.clone(), "execute"),
        Act::Auth { sender, .. } => (sender, vec![], "execute"),
        Act::Sudo(_) | Act::Swap { .. } => (&String::new(), vec![], "sudo"),
        _ => return Ok(0),
    };
    let m = wire(act);
    fits(&messages()[kind], &m).map_err(|e| format!("message {m} does not follow the published schema: {e}"))?;
    if kind == "sudo" {
        return Ok(0);
    }
    let mut base = w.chain.clone();
    if !fund(&mut base, act) {
        return Ok(0);
    }
    let mut a = base.clone();
    let r = run_act(&mut a, act);
    if let Err(TxErr::Parse(e)) = &r {
        return Err(format!("message {m} is not understood: {e}"));
    }
    let mut n = 0;
    let all = spellings(&m);
    // placements without bounty always in all forms, others in one form in turn
    let one = (w.steps % all.len() as u64) as usize;
    for (i, raw) in all.iter().enumerate() {
        if i != one && i < 3 {
            continue;
        }
        let mut b = base.clone();
        let s = b.execute_raw(sender, &funds, raw);
        let same = match (&r, &s) {
            (Ok(x), Ok(y)) => x.pays == y.pays && x.data == y.data && x.events == y.events && x.attrs == y.attrs,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same || nonzero(&a.q.bank) != nonzero(&b.q.bank) || a.store.map != b.store.map {
            return Err(format!("{m} gives {r:?}\n    written {} it gives {s:?}", String::from_utf8_lossy(raw)));
        }
        n += 1;
    }
    Ok(n)
}

pub fn c22() -> Property {
    fn keep(d: &Div) -> bool {
        d.got_ok || d.why.is_none()
    }
    let c = Cfg { auth: 6, sudo: 2, fee: 4, batch: 4, bounty: 30, bad: 1, guards: 3, migrate: 1, ..Cfg::default() };
    let watch = w::DATA | w::PAY_TRADE | w::PAY_OTHER;
    let run = move |(c, picks): &(Case, Vec<u64>)| {
        let (mut n, mut r, mut sp, mut i) = (0u64, 0u64, 0u64, 0usize);
        let counts = std::cell::RefCell::new((0u64, 0u64));
        let (mut w, mut f) = history(
            c,
            &Hist { watch, keep },
            &mut |w, act| {
                sp += spelled(w, act)?;
                Ok(())
            },
            &mut |w, act, tx, _| {
                i += 1;
                if let (Act::Swap { .. }, Ok(t)) = (act, tx) {
                    let d = t.data.as_ref().ok_or("a swap returns no data")?;
                    let v: Value = serde_json::from_slice(d).map_err(|e| format!("swap data is not JSON: {e}"))?;
                    let o = v.as_object().ok_or("swap data is no object")?;
                    if o.len() != 1 || !o.get("token_out_amount").and_then(|x| x.as_str()).map_or(false, digits) {
                        return Err(format!("swap data {v}"));
                    }
                }
                let p = picks[i % picks.len()];
                if p % 16 == 0 {
                    let (a, b) = answers(c, w, p >> 4)?;
                    let mut x = counts.borrow_mut();
                    x.0 += a;
                    x.1 += b;
                }
                Ok(())
            },
        );
        if f.is_none() && !w.lost {
            match answers(c, &w, picks[0] >> 4) {
                Ok((a, b)) => {
                    n += a;
                    r += b;
                }
                Err(m) => f = Some(format!("at the end: {m}")),
            }
        }
        let x = counts.borrow();
        n += x.0;
        r += x.1;
        w.stats.insert("answers checked", n);
        w.stats.insert("queries refused", r);
        w.stats.insert("messages in other spellings", sp);
        outcome(&w, f, n > 30 && sp > 2 && w.stat("swapped") > 0)
    };
    Property {
        id: "C22",
        rule: "At generated moments of generated histories, every query in every combination of optional fields given, absent and null: accepted, answers equal for absent and null, answer valid against the response schema the contract generates for it, numbers canonical; every message valid against the message schemas and repeated in other JSON spellings; swap data and payments compared with the model; non-trivial: more than 30 answers, three respelled messages and a swap",
        assumptions: vec!["the schema validator of the harness covers the keywords schemars emits"],
        parts: vec![
            part("histories", 2000, 80_000, { let c = c.clone(); move || (case(Cfg { ops: 3..40, ..c.clone() }), prop::collection::vec(any::<u64>(), 5..20)) }, run),
            part("large numbers", 600, 20_000, move || (deep_case(3..25), prop::collection::vec(any::<u64>(), 5..20)), run),
        ],
    }
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    /// 0 execute, 1 governance, 2 query, 3 swap (tokens handed over first when they exist)
    kind: u8,
    sender: String,
    funds: Vec<(String, u128)>,
    /// "@t3", "@o3", "@ot3": a tick of the history, the id or tick of a resting order
    msg: Value,
}

fn odd_str() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(USERS.to_vec()).prop_map(|s| s.to_string()),
        3 => Just(BASE.to_string()),
        3 => Just(QUOTE.to_string()),
        1 => Just(CONTRACT.to_string()),
        1 => Just(String::new()),
        1 => Just("osmo1creator".to_string()),
        1 => Just(" ".to_string()),
        1 => Just("ab".to_string()),
        1 => Just("OSMO1BOB".to_string()),
        1 => Just("a\u{0}b\"\\\u{1F600}".to_string()),
        1 => Just("x".repeat(90)),
        1 => Just("x".repeat(91)),
        1 => (prop::sample::select(vec!["x", "osmo1", "ab/", "\u{e9}"]), prop_oneof![3 => 1usize..40, 3 => prop::sample::select(vec![63usize, 64, 65, 127, 128, 129, 255, 256, 257]), 1 => 300usize..5000, 1 => Just(70_000usize)])
            .prop_map(|(x, n)| x.repeat(n)),
        1 => Just("uother".to_string()),
        1 => ".{0,12}",
    ]
    .boxed()
}
fn odd_denom() -> BoxedStrategy<String> {
    prop_oneof![5 => Just(BASE.to_string()), 5 => Just(QUOTE.to_string()), 2 => odd_str()].boxed()
}
fn odd_tick() -> BoxedStrategy<Value> {
    prop_oneof![
        5 => (0u8..7).prop_map(|n| json!(format!("@t{n}"))),
        3 => (0u8..30).prop_map(|n| json!(format!("@ot{n}"))),
        3 => any_tick().prop_map(|t| json!(t)),
        1 => any::<i64>().prop_map(|t| json!(t)),
        1 => prop::sample::select(vec![i64::MIN, i64::MAX, i64::MIN + 1, -1, 0, 1, MAX_TICK, MAX_TICK + 1, MIN_TICK, MIN_TICK - 1, i64::MAX - 1, i32::MAX as i64, i32::MIN as i64]).prop_map(|t| json!(t)),
    ]
    .boxed()
}
fn odd_id() -> BoxedStrategy<Value> {
    prop_oneof![
        5 => (0u8..30).prop_map(|n| json!(format!("@o{n}"))),
        2 => (0u64..40).prop_map(|t| json!(t)),
        1 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, i64::MAX as u64, 1 << 32]).prop_map(|t| json!(t)),
        1 => any::<u64>().prop_map(|t| json!(t)),
    ]
    .boxed()
}
fn odd_u128() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => 0u128..5,
        3 => 1u128..1_000_000,
        2 => any::<u128>(),
        2 => (0u32..128, 0u128..3).prop_map(|(b, d)| (1u128 << b).saturating_sub(1).saturating_add(d)),
        1 => Just(u128::MAX),
        2 => (0u32..39).prop_map(|e| 10u128.pow(e.min(38))),
    ]
    .boxed()
}
fn odd_dec() -> BoxedStrategy<Value> {
    prop::sample::select(vec![
        "0", "0.0", "1", "0.01", "0.010000000000000001", "0.000000000000000001", "0.05", "0.050000000000000001", "0.5", "0.999999999999999999",
        "100", "340282366920938463463.374607431768211455", "340282366920938463463.374607431768211456", "340282366920938463463374607431768211455",
        "115792089237316195423570985008687907853269984665640564039457.584007913129639935",
        "115792089237316195423570985008687907853269984665640564039457.584007913129639936", "-1", "", ".", "1.", "x", "1e5", "0.0000000000000000001",
    ])
    .prop_map(|s| json!(s))
    .boxed()
}
fn opt(s: BoxedStrategy<Value>) -> BoxedStrategy<Value> {
    prop_oneof![3 => s, 1 => Just(Value::Null)].boxed()
}
fn odd_coin() -> BoxedStrategy<Value> {
    (odd_denom(), odd_u128()).prop_map(|(d, n)| json!({"denom": d, "amount": n.to_string()})).boxed()
}
fn odd_limit() -> BoxedStrategy<Value> {
    prop_oneof![2 => (0u64..4).prop_map(|n| json!(n)), 1 => Just(json!(u64::MAX)), 1 => Just(json!(u64::MAX / 2)), 1 => any::<u32>().prop_map(|n| json!(n)), 1 => Just(Value::Null)].boxed()
}
fn pair() -> BoxedStrategy<Value> {
    prop_oneof![3 => (0u8..30).prop_map(|n| json!([format!("@ot{n}"), format!("@o{n}")])), 2 => (odd_tick(), odd_id()).prop_map(|(t, i)| json!([t, i]))].boxed()
}
fn odd_query() -> BoxedStrategy<Value> {
    let ids = || prop_oneof![6 => prop::collection::vec(odd_tick(), 0..5), 1 => (odd_tick(), 100usize..300).prop_map(|(t, n)| vec![t; n])];
    prop_oneof![
        (odd_denom(), odd_denom()).prop_map(|(a, b)| json!({"spot_price": {"quote_asset_denom": a, "base_asset_denom": b}})),
        (any::<bool>(), odd_coin(), odd_denom(), prop_oneof![4 => Just(json!("0")), 1 => odd_dec()]).prop_map(|(x, c, d, f)| {
            let k = if x { "calc_out_amount_given_in" } else { "calc_out_amt_given_in" };
            json!({k: {"token_in": c, "token_out_denom": d, "swap_fee": f}})
        }),
        (any::<bool>(), odd_u128(), any::<bool>()).prop_map(|(x, n, s)| {
            let k = if x { "calc_out_amount_given_in" } else { "calc_out_amt_given_in" };
            let (a, b) = if s { (BASE, QUOTE) } else { (QUOTE, BASE) };
            json!({k: {"token_in": {"denom": a, "amount": n.to_string()}, "token_out_denom": b, "swap_fee": "0"}})
        }),
        (opt(odd_tick()), opt(odd_tick()), odd_limit()).prop_map(|(a, b, l)| json!({"all_ticks": {"start_from": a, "end_at": b, "limit": l}})),
        (odd_str(), opt(pair()), opt(pair()), odd_limit()).prop_map(|(o, a, b, l)| json!({"orders_by_owner": {"owner": o, "start_from": a, "end_at": b, "limit": l}})),
        (odd_tick(), opt(odd_id()), opt(odd_id()), odd_limit()).prop_map(|(o, a, b, l)| json!({"orders_by_tick": {"tick_id": o, "start_from": a, "end_at": b, "limit": l}})),
        ids().prop_map(|v| json!({"ticks_by_id": {"tick_ids": v}})),
        ids().prop_map(|v| json!({"get_unrealized_cancels": {"tick_ids": v}})),
    ]
    .boxed()
}
fn odd_exec() -> BoxedStrategy<Value> {
    prop_oneof![
        4 => (odd_tick(), prop_oneof![9 => Just("bid"), 9 => Just("ask"), 1 => Just("Bid"), 1 => Just("")], odd_u128(), prop_oneof![3 => Just(Value::Null), 1 => odd_dec()])
            .prop_map(|(t, d, q, b)| json!({"place_limit": {"tick_id": t, "order_direction": d, "quantity": q.to_string(), "claim_bounty": b}})),
        2 => pair().prop_map(|p| json!({"cancel_limit": {"tick_id": p[0], "order_id": p[1]}})),
        2 => pair().prop_map(|p| json!({"claim_limit": {"tick_id": p[0], "order_id": p[1]}})),
        2 => prop_oneof![4 => prop::collection::vec(pair(), 0..6), 1 => (pair(), 90usize..130).prop_map(|(p, n)| vec![p; n]), 1 => prop::collection::vec(pair(), 90..110)]
            .prop_map(|v| json!({"batch_claim": {"orders": v}})),
        2 => odd_auth().prop_map(|m| json!({"auth": m})),
    ]
    .boxed()
}
fn odd_auth() -> BoxedStrategy<Value> {
    prop_oneof![
        odd_str().prop_map(|a| json!({"transfer_admin": {"new_admin": a}})),
        odd_str().prop_map(|a| json!({"offer_moderator": {"new_moderator": a}})),
        odd_str().prop_map(|a| json!({"set_maker_fee_recipient": {"recipient": a}})),
        odd_dec().prop_map(|a| json!({"set_maker_fee": {"fee": a}})),
        prop::sample::select(vec!["cancel_admin_transfer", "reject_admin_transfer", "claim_admin", "renounce_adminship", "reject_moderator_offer", "claim_moderator"]).prop_map(|k| json!({k: {}})),
        any::<bool>().prop_map(|a| json!({"set_active": {"active": a}})),
    ]
    .boxed()
}
fn odd_sudo() -> BoxedStrategy<Value> {
    prop_oneof![
        2 => odd_str().prop_map(|a| json!({"transfer_admin": {"new_admin": a}})),
        1 => Just(json!({"remove_admin": {}})),
        1 => any::<bool>().prop_map(|a| json!({"set_active": {"active": a}})),
        1 => Just(json!({"set_active": {"active": true}})),
    ]
    .boxed()
}
fn odd_swap() -> BoxedStrategy<Value> {
    let straight = (any::<bool>()).prop_map(|s| if s { (BASE.to_string(), QUOTE.to_string()) } else { (QUOTE.to_string(), BASE.to_string()) });
    let denoms = prop_oneof![4 => straight, 1 => (odd_denom(), odd_denom())];
    (odd_str(), denoms, odd_u128(), prop_oneof![3 => Just(0u128), 1 => odd_u128()], prop_oneof![9 => Just(json!("0")), 1 => odd_dec()], opt(odd_tick()), prop_oneof![Just(false), Just(true)])
        .prop_map(|(s, (a, b), n, m, f, t, lim)| {
            let mut x = json!({"sender": s, "token_in": {"denom": a, "amount": n.to_string()}, "token_out_denom": b, "token_out_min_amount": m.to_string(), "swap_fee": f});
            if lim && !t.is_null() {
                x["target_tick"] = t;
                json!({ "swap_to_tick": x })
            } else {
                json!({ "swap_exact_amount_in": x })
            }
        })
        .boxed()
}
fn funds() -> BoxedStrategy<Vec<(String, u128)>> {
    prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec((odd_denom(), odd_u128()), 1..4)].boxed()
}
fn raw() -> BoxedStrategy<Raw> {
    // the chain names real accounts as senders, so no endless ones
    let who = || prop_oneof![3 => odd_str().prop_map(|s| s.chars().take(130).collect()), 1 => Just("osmo1creator".to_string())];
    prop_oneof![
        4 => (who(), funds(), odd_exec(), any::<bool>()).prop_map(|(sender, funds, msg, fit)| {
            let mut funds = funds;
            // most placements come with what they need
            if fit {
                if let Some(p) = msg.get("place_limit") {
                    let d = if p["order_direction"] == "bid" { QUOTE } else { BASE };
                    funds = vec![(d.to_string(), gets(p, "quantity").parse().unwrap_or(0))];
                } else {
                    funds = vec![];
                }
            }
            Raw { kind: 0, sender, funds, msg }
        }),
        1 => odd_sudo().prop_map(|msg| Raw { kind: 1, sender: String::new(), funds: vec![], msg }),
        4 => odd_query().prop_map(|msg| Raw { kind: 2, sender: String::new(), funds: vec![], msg }),
        3 => odd_swap().prop_map(|msg| Raw { kind: 3, sender: String::new(), funds: vec![], msg }),
    ]
    .boxed()
}

fn subst(v: &mut Value, c: &Case, orders: &[(i64, u64)]) {
    match v {
        Value::String(s) if s.starts_with('@') => {
            let num = |p: &str| s.strip_prefix(p).and_then(|x| x.parse::<usize>().ok());
            if let Some(n) = num("@ot") {
                *v = json!(if orders.is_empty() { 0 } else { orders[n % orders.len()].0 });
            } else if let Some(n) = num("@o") {
                *v = json!(if orders.is_empty() { 0 } else { orders[n % orders.len()].1 });
            } else if let Some(n) = num("@t") {
                *v = json!(c.tick(n as u8));
            }
        }
        Value::Array(l) => l.iter_mut().for_each(|x| subst(x, c, orders)),
        Value::Object(o) => o.values_mut().for_each(|x| subst(x, c, orders)),
        _ => {}
    }
}

/// Accesses one message on the small books used here may reasonably need, per batch entry and tick.
const WORK: u64 = 30_000;

fn strange(w: &World, case: &Case, raws: &[Raw], st: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    let mut c = w.chain.clone();
    let mut orders: Vec<(i64, u64)> = w.model.live().map(|o| (o.tick, o.id)).collect();
    for r in raws {
        let mut m = r.msg.clone();
        subst(&mut m, case, &orders);
        let text = serde_json::to_vec(&m).unwrap();
        let mut bump = |k: &'static str| *st.entry(k).or_insert(0) += 1;
        if r.kind == 2 {
            let before = c.store.map.len();
            match c.query_raw(&text) {
                Err(e @ TxErr::Panic(_)) => return Err(format!("query {m}: {}", e.text())),
                Err(TxErr::Parse(_)) => bump("not parsed"),
                Err(_) => bump("queries refused"),
                Ok(_) => bump("queries answered"),
            }
            if c.store.reads.get() > WORK {
                return Err(format!("query {m} reads {} records of {before}", c.store.reads.get()));
            }
            continue;
        }
        // the book has no code that sends messages to itself, so it cannot deposit its own tokens again
        let mut ok = r.sender != CONTRACT || r.funds.is_empty();
        for (d, n) in &r.funds {
            let b = c.balance(&r.sender, d);
            ok &= b >= *n || c.mint(&r.sender, d, n - b) == n - b;
        }
        // the same denom twice needs the sum
        let mut pre = r.funds.clone();
        pre.sort();
        pre.dedup_by(|a, b| a.0 == b.0);
        if !ok || pre.len() != r.funds.len() {
            bump("skipped: tokens cannot exist");
            continue;
        }
        let all = c.query(&json!({"is_active": {}})).ok() == Some(json!(false));
        if all && r.kind != 1 {
            // keep going behind the pause switch only half of the time
            if m.to_string().len() % 2 == 0 {
                let _ = c.sudo(&json!({"set_active": {"active": true}}));
            }
        }
        let before = snapshot(&c)?;
        let bank = nonzero(&c.q.bank);
        let res = match r.kind {
            0 => c.execute_raw(&r.sender, &r.funds, &text),
            1 => c.sudo(&m),
            _ => {
                let body = m.as_object().and_then(|o| o.values().next()).cloned().unwrap_or_default();
                let (d, n) = (gets(&body["token_in"], "denom").to_string(), gets(&body["token_in"], "amount").parse::<u128>().unwrap_or(0));
                let s = gets(&body, "sender").to_string();
                let b = c.balance(&s, &d);
                if s == CONTRACT || b < n && c.mint(&s, &d, n - b) < n - b {
                    bump("swaps without the tokens");
                    // cannot happen on a chain; it still must not crash
                    let mut x = c.clone();
                    match x.sudo(&m) {
                        Err(e @ TxErr::Panic(_)) => return Err(format!("sudo {m}: {}", e.text())),
                        _ => continue,
                    }
                }
                c.sudo_swap(&s, &d, n, &m)
            }
        };
        let what = ["execute", "sudo", "query", "swap"][r.kind as usize % 4];
        match res {
            Err(e @ TxErr::Panic(_)) => return Err(format!("{what} {m} from {:?} with {:?}: {}", r.sender, r.funds, e.text())),
            Err(e) => {
                bump(if matches!(e, TxErr::Parse(_)) { "not parsed" } else { "refused" });
                if snapshot(&c).ok() != Some(before) || r.kind != 3 && nonzero(&c.q.bank) != bank {
                    return Err(format!("{what} {m} is refused ({}) but left a trace", e.text()));
                }
            }
            Ok(t) => {
                bump("accepted");
                if t.reads + t.writes > WORK {
                    return Err(format!("{what} {m} takes {} storage accesses", t.reads + t.writes));
                }
                // the book stays readable
                snapshot(&c).map_err(|e| format!("after {what} {m} the book cannot be read: {e}"))?;
                if m.get("place_limit").is_some() {
                    if let (Some(t), Some(id)) = (geti(&m["place_limit"], "tick_id"), t.attrs.iter().find(|a| a.0 == "order_id").and_then(|a| a.1.parse().ok())) {
                        orders.push((t, id));
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c26() -> Property {
    fn keep(d: &Div) -> bool {
        d.bit & w::PANIC != 0
    }
    let run = |(c, raws): &(Case, Vec<Raw>)| {
        let before: std::cell::RefCell<Option<Vec<Value>>> = Default::default();
        let (mut w, mut f) = history(
            c,
            &Hist { watch: w::PANIC, keep },
            &mut |w, _| {
                *before.borrow_mut() = if w.steps % 3 == 0 { Some(snapshot(&w.chain)?) } else { None };
                Ok(())
            },
            &mut |w, _, tx, _| {
                if let (Err(e), Some(b)) = (tx, before.borrow_mut().take()) {
                    if snapshot(&w.chain)? != b {
                        return Err(format!("refused ({}) but left a trace", e.text()));
                    }
                }
                Ok(())
            },
        );
        let mut st = BTreeMap::new();
        if f.is_none() {
            f = strange(&w, c, raws, &mut st).err();
        }
        let acc = st.get("accepted").copied().unwrap_or(0);
        let refused = st.get("refused").copied().unwrap_or(0);
        w.stats.extend(st);
        outcome(&w, f, acc > 0 && refused > 1)
    };
    let c = Cfg { bad: 30, guards: 20, auth: 5, sudo: 3, pause: 2, batch: 5, fee: 3, ops: 0..30, ..Cfg::default() };
    let raws = |n: std::ops::Range<usize>| prop::collection::vec(raw(), n);
    Property {
        id: "C26",
        rule: "Messages and queries with extreme and strange field values (ticks over all of i64, ids over u64, amounts over u128, decimals up to and beyond 256 bits, empty, long, unicode strings, unneeded and missing funds, long lists, maximal limits), referring to ticks and orders of a generated history or to nothing, run one after the other on the state that history left: no panic, no more than a fixed number of storage accesses, refused messages leave no trace; non-trivial: at least one strange message was accepted and two refused",
        assumptions: vec!["tokens of a denom never exceed 2^128-1 in total", "exact-output swap and quote are excluded"],
        parts: vec![
            part("after a history", 6000, 300_000, { let c = c.clone(); move || (case(c.clone()), raws(1..30)) }, run),
            part("on a fresh book", 8000, 400_000, move || (case(Cfg { ops: 0..3, ..c.clone() }), raws(3..40)), run),
            part("after extreme amounts", 3000, 150_000, move || (deep_case(2..20), raws(1..30)), run),
        ],
    }
}
