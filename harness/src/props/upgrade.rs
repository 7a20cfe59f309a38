//! Books kept by the released version go on unchanged under this code (C33).
use super::batch::{nonzero, snapshot};
use super::neutral::{alike, short, Guide};
use super::util::*;
use crate::chain::*;
use crate::driver::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::OnceLock;

/// A book as the released version left it behind.
#[derive(Serialize, Deserialize)]
struct Book {
    ticks: Vec<i64>,
    acts: Vec<Act>,
    /// which of the messages were accepted
    ok: String,
    /// key in hexadecimal, value as text
    store: Vec<(String, String)>,
    bank: Vec<(String, String, String)>,
    /// of everything that was published then
    digest: String,
}

fn books() -> &'static [Book] {
    static B: OnceLock<Vec<Book>> = OnceLock::new();
    B.get_or_init(|| serde_json::from_str(include_str!("../../golden/books.json")).expect("golden books"))
}

fn hex(k: &[u8]) -> String {
    k.iter().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Everything published, the owners' lists among it.
fn published(c: &Chain) -> Result<Vec<Value>, String> {
    let mut v = snapshot(c)?;
    for u in USERS.iter().chain(&[GOV, BREAKER, FEE_DEFAULT]) {
        v.push(c.query(&json!({"orders_by_owner": {"owner": u, "limit": 100_000}})).map_err(|e| e.text())?);
    }
    for x in [(BASE, QUOTE), (QUOTE, BASE)] {
        v.push(c.query(&json!({"spot_price": {"quote_asset_denom": x.0, "base_asset_denom": x.1}})).unwrap_or(Value::Null));
    }
    Ok(v)
}
fn digest(v: &[Value]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in serde_json::to_vec(v).unwrap() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

fn cfg() -> Cfg {
    Cfg { batch: 3, fee: 4, auth: 4, sudo: 1, pause: 2, guards: 3, bounty: 12, mass: 5, ..Cfg::default() }
}

/// Writes the books down (a command of its own: it is run once, on the released version).
pub fn record(path: &str) {
    let mut r = TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &[77; 32]));
    let mut out = vec![];
    let mut size = 0;
    for i in 0..4000 {
        let g = match i % 20 {
            0 => deep_case(6..14),
            1..=6 => case(Cfg { ops: 4..16, ..cfg() }),
            7..=10 => case(Cfg { ops: 20..50, auth: 30, sudo: 3, ..cfg() }),
            _ => case(Cfg { ops: 12..50, ..cfg() }),
        };
        let c = g.new_tree(&mut r).unwrap().current();
        let mut w = Guide::new();
        let (mut acts, mut ok) = (vec![], String::new());
        'h: for op in &c.ops {
            for act in c.resolve(op, &w.w.model) {
                let Some(x) = w.run(&act) else { break 'h };
                ok.push(if x.is_ok() { '1' } else { '0' });
                acts.push(act);
            }
        }
        let live = w.w.model.live().count();
        let interesting = live >= 3 && w.w.stat("swapped") > 0 && w.w.stat("cancelled") > 0;
        if w.dead || !(interesting || i % 23 == 0) {
            continue;
        }
        let Ok(p) = published(&w.w.chain) else { continue };
        let b = Book {
            ticks: c.ticks.clone(),
            acts,
            ok,
            store: w.w.chain.store.map.iter().map(|(k, v)| (hex(k), String::from_utf8(v.clone()).expect("stored values are JSON"))).collect(),
            bank: nonzero(&w.w.chain.q.bank).into_iter().map(|((a, d), n)| (a, d, n.to_string())).collect(),
            digest: digest(&p),
        };
        let n = serde_json::to_vec(&b).unwrap().len();
        if n > 250_000 {
            continue;
        }
        size += n;
        out.push(b);
        if size > 2_500_000 || out.len() >= 160 {
            break;
        }
    }
    println!("{} books, {size} bytes", out.len());
    std::fs::write(path, serde_json::to_string(&out).unwrap()).unwrap();
}

/// None: the messages do something else today, so that the book says nothing about what was stored.
fn upgraded(b: &Book, c: &Case) -> (World, Option<String>, bool) {
    let mut g = Guide::new();
    for (act, ok) in b.acts.iter().zip(b.ok.chars()) {
        match g.run(act) {
            Some(r) if r.is_ok() == (ok == '1') && !g.dead => {}
            _ => return (g.w, None, false),
        }
    }
    let bank: Bank = b.bank.iter().map(|(a, d, n)| ((a.clone(), d.clone()), n.parse().unwrap())).collect();
    if nonzero(&g.w.chain.q.bank) != bank {
        return (g.w, None, false);
    }
    let was = match published(&g.w.chain) {
        Ok(p) if digest(&p) == b.digest => p,
        _ => return (g.w, None, false),
    };
    g.w.stats.clear();
    let mut d = g.w.chain.clone();
    d.store = MemStore::default();
    d.store.map = b.store.iter().map(|(k, v)| (unhex(k), v.clone().into_bytes())).collect();
    let r: Result<(), String> = (|| {
        record_of(&g.w.chain, "after the instantiation")?;
        d.migrate().map_err(|e| format!("the migration fails: {}", e.text()))?;
        d.env = g.w.chain.env.clone();
        d.same_block = g.w.chain.same_block;
        record_of(&d, "after the migration")?;
        same(&was, &published(&d).map_err(|e| format!("after the upgrade a query fails: {e}"))?, "after the upgrade")?;
        let case = Case { ticks: b.ticks.iter().chain(&c.ticks).copied().collect(), ops: vec![] };
        for op in &c.ops {
            for act in case.resolve(op, &g.w.model) {
                if !both(&mut g, &mut d, &act)? {
                    return Ok(());
                }
            }
        }
        same(&published(&g.w.chain)?, &published(&d)?, "in the end")?;
        // everybody leaves
        let all: Vec<_> = g.w.model.live().map(|o| (o.owner.clone(), o.tick, o.id)).collect();
        for (sender, tick, id) in all {
            let (funds, s) = (vec![], sender.clone());
            let go = both(&mut g, &mut d, &Act::Claim { sender: s, tick, id, funds })?
                && both(&mut g, &mut d, &Act::Cancel { sender, tick, id, funds: vec![] })?;
            if !go {
                return Ok(());
            }
        }
        same(&published(&g.w.chain)?, &published(&d)?, "when everybody has left")?;
        if nonzero(&g.w.chain.q.bank) != nonzero(&d.q.bank) {
            return Err(format!("balances differ: {}", show_delta(&deltas(&g.w.chain.q.bank, &d.q.bank))));
        }
        Ok(())
    })();
    (g.w, r.err(), true)
}
/// The standard record of the contract's name and version (cw2), which upgrades are decided by.
fn record_of(c: &Chain, when: &str) -> Result<(), String> {
    let v: Value = c.store.map.get(&b"contract_info"[..]).and_then(|v| serde_json::from_slice(v).ok()).unwrap_or(Value::Null);
    match (v["contract"].as_str(), v["version"].as_str()) {
        (Some("crates.io:sumtree-orderbook"), Some(x)) if !x.is_empty() => Ok(()),
        _ => Err(format!("{when} the contract's name and version are recorded as {v}")),
    }
}
/// One message on both books. False: it cannot be paid for any more.
fn both(g: &mut Guide, d: &mut Chain, act: &Act) -> Result<bool, String> {
    let Some(x) = g.run(act) else { return Ok(false) };
    if !fund(d, act) {
        return Ok(false);
    }
    let y = run_act(d, act);
    if !alike(&x, &y) {
        return Err(format!("{act:?}: {}\n    in the upgraded book: {}", short(&x), short(&y)));
    }
    Ok(!g.dead)
}
fn same(a: &[Value], b: &[Value], when: &str) -> Result<(), String> {
    match (0..a.len().max(b.len())).find(|k| a.get(*k) != b.get(*k)) {
        None => Ok(()),
        Some(k) => Err(format!("{when} the book publishes {:?}\n    instead of {:?}", b.get(k), a.get(k))),
    }
}

// ------------------------------------------------------------------ books with a long past

/// Order ids from which a book goes on.
const LATE: [u64; 9] = [250, 65_530, 1 << 31, (1 << 32) - 9, (1 << 32) + 1, (1 << 53) - 7, (1 << 53) + 1, 1 << 63, u64::MAX - 100_000];

/// Translates between the ids of a young book and of one with a long past.
struct Aged {
    base: u64,
    shift: u64,
}
impl Aged {
    fn to(&self, id: u64) -> u64 {
        if (self.base..1_000_000).contains(&id) {
            id + self.shift
        } else {
            id
        }
    }
    fn back(&self, id: u64) -> u64 {
        if id >= self.base + self.shift {
            id - self.shift
        } else {
            id
        }
    }
    fn act(&self, a: &Act) -> Act {
        let mut a = a.clone();
        match &mut a {
            Act::Cancel { id, .. } | Act::Claim { id, .. } => *id = self.to(*id),
            Act::Batch { list, .. } => list.iter_mut().for_each(|o| o.1 = self.to(o.1)),
            _ => {}
        }
        a
    }
    fn res(&self, r: TxRes) -> TxRes {
        let one = |l: &mut Vec<(String, String)>| {
            for (k, v) in l {
                if let (true, Ok(n)) = (k == "order_id", v.parse::<u64>()) {
                    *v = self.back(n).to_string();
                }
            }
        };
        r.map(|mut t| {
            one(&mut t.attrs);
            t.events.iter_mut().for_each(|e| one(&mut e.1));
            t
        })
    }
    fn value(&self, v: &mut Value) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    match x.as_u64() {
                        Some(n) if k == "order_id" => *x = json!(self.back(n)),
                        _ => self.value(x),
                    }
                }
            }
            Value::Array(l) => l.iter_mut().for_each(|x| self.value(x)),
            _ => {}
        }
    }
    fn published(&self, c: &Chain) -> Result<Vec<Value>, String> {
        let mut p = published(c)?;
        p.iter_mut().for_each(|v| self.value(v));
        Ok(p)
    }
}

/// A history during which, as it were, a great many other orders come and go: from then on the ids are high,
/// and nothing else differs. (The counter is moved in the storage, where the released version keeps it; where
/// it is not found there the case says nothing.)
fn late(case: &Case, when: u8, how: u8) -> (World, Option<String>, bool) {
    let mut g = Guide::new();
    let mut d: Option<(Chain, Aged)> = None;
    let mut later = 0;
    let r: Result<(), String> = (|| {
        for (i, op) in case.ops.iter().enumerate() {
            if d.is_none() && i >= when as usize % case.ops.len() && !g.dead && !g.w.model.orders.is_empty() {
                let (mut c, base) = (g.w.chain.clone(), g.w.model.orders.len() as u64);
                let next = LATE[how as usize % LATE.len()];
                match c.store.map.get_mut(&b"order_id"[..]) {
                    Some(v) if *v == base.to_string().into_bytes() => *v = next.to_string().into_bytes(),
                    _ => return Ok(()),
                }
                d = Some((c, Aged { base, shift: next - base }));
            }
            for act in case.resolve(op, &g.w.model) {
                let Some(x) = g.run(&act) else { return Ok(()) };
                let Some((c, a)) = &mut d else { continue };
                if g.dead {
                    return Ok(());
                }
                let act = a.act(&act);
                if !fund(c, &act) {
                    return Ok(());
                }
                let y = a.res(run_act(c, &act));
                if !alike(&x, &y) {
                    return Err(format!("{act:?}: {}\n    in the book whose order ids went on at {}: {}", short(&x), a.base + a.shift, short(&y)));
                }
                later += (x.is_ok() && matches!(act, Act::Place { .. })) as u32;
            }
        }
        let Some((c, a)) = &d else { return Ok(()) };
        same(&published(&g.w.chain)?, &a.published(c)?, &format!("after order ids went on at {}", a.base + a.shift))
    })();
    let used = d.is_some() && later >= 2 && g.w.stat("claimed") + g.w.stat("cancelled") > 0;
    (g.w, r.err(), used)
}
/// Part of C11, C15 and C33.
pub fn late_part(quick: u32, thorough: u32) -> Box<dyn Part> {
    let c = Cfg { ops: 4..30, place: 40, auth: 0, sudo: 0, pause: 0, guards: 1, batch: 4, ..cfg() };
    part("late in a book's life", quick, thorough, move || (case(c.clone()), any::<u8>(), any::<u8>()), |(c, when, how): &(Case, u8, u8)| {
        let (mut w, f, used) = late(c, *when, *how);
        w.stats.insert("with a long past", used as u64);
        outcome(&w, f, used)
    })
}

pub fn c33() -> Property {
    let run = |(n, c): &(u16, Case)| {
        let all = books();
        let (mut w, f, used) = upgraded(&all[*n as usize % all.len()], c);
        w.stats.insert("book taken over", used as u64);
        let nt = used && w.stat("swapped") + w.stat("claimed") + w.stat("cancelled") > 0;
        outcome(&w, f, nt)
    };
    Property {
        id: "C33",
        rule: "Books of generated histories which the released version left in storage (recorded once, harness/golden/books.json) are taken over by this code after a migration; everything published, and then every outcome, payment and event of a generated continuation and of everybody's leaving, is compared with a book which this code ran from the start; books whose history has other outcomes or publishes something else today are left out; non-trivial: the book was taken over and a swap, claim or cancellation was accepted afterwards; a part in which order ids go on at high numbers (moved in the storage of a copy) against the same history without, in its case non-trivial: two placements later and a claim or cancellation",
        assumptions: vec!["the released version is the one of this repository's commit; what its messages do is the matter of the other properties"],
        parts: vec![
            part("every book", 3000, 40_000, || (any::<u16>(), case(Cfg { ops: 1..25, ..cfg() })), run),
            part("plain continuation", 3000, 40_000, || (any::<u16>(), case(Cfg { ops: 1..25, auth: 0, sudo: 0, pause: 0, bad: 0, guards: 1, ..cfg() })), run),
            late_part(5000, 200_000),
        ],
    }
}
