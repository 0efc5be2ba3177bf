//! Displayed symbols and strings read back as themselves, and all ways of reading agree.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};

use crate::conc;
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::Vocab;
use crate::props::c11;
use crate::props::c20::rule_key;
use crate::rng::Rng;

fn codes(s: &ProductionString) -> Vec<u32> {
    s.symbols().iter().map(|s| s.code()).collect()
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What each way of reading a string gives: its codes, or that it is refused.
fn read_string(t: &str) -> Result<Vec<(&'static str, Option<ProductionString>)>, String> {
    Ok(vec![
        ("parse_prod_string", lib("parse_prod_string", || parse_prod_string(t).ok())?),
        ("str::parse", lib("str::parse", || t.parse::<ProductionString>().ok())?),
        ("from_str", lib("from_str", || <ProductionString as std::str::FromStr>::from_str(t).ok())?),
        ("parse_prod_string again", lib("parse_prod_string", || parse_prod_string(&t.to_string()).ok())?),
    ])
}

fn agree_string(t: &str) -> Result<Option<ProductionString>, String> {
    let mut all = read_string(t)?;
    let (_, first) = all.remove(0);
    for (how, r) in all {
        ensure!(
            r.as_ref().map(codes) == first.as_ref().map(codes) && r == first,
            "{}: {how} gives {:?} instead of {:?}",
            c11::short(t),
            r.map(|r| r.to_string()),
            first.map(|r| r.to_string())
        );
    }
    Ok(first)
}

/// The string as text reads back as itself, whatever way it was made.
fn round_trip(s: &ProductionString) -> Case {
    let t = lib("display", || s.to_string())?;
    let back = agree_string(&t)?;
    let Some(back) = back else { return Err(format!("{} is displayed but cannot be read", c11::short(&t))) };
    ensure!(codes(&back) == codes(s), "{} is read back as {}", c11::short(&t), c11::short(&back.to_string()));
    ensure!(back == *s && *s == back, "{} is read back as what is not equal to it", c11::short(&t));
    ensure!(hash(&back) == hash(s), "{} is read back with another hash", c11::short(&t));
    ensure!(lib("display", || back.to_string())? == t, "{} is displayed in another way afterwards", c11::short(&t));
    ensure!(lib("display", || format!("{s}"))? == t, "{} is displayed in another way by format", c11::short(&t));
    Ok(())
}

fn plain_string(v: &Vocab, s: &[usize], p: &ProductionString) -> Case {
    let t = lib("display", || p.to_string())?;
    ensure!(t == v.text(s), "{} is displayed as {}", v.show(s), c11::short(&t));
    round_trip(p)
}

/// All the ways to make and to look at the same string.
fn views(rng: &mut Rng, v: &Vocab, s: &[usize]) -> Case {
    let p = v.string(s);
    plain_string(v, s, &p)?;
    let mut pushed = if rng.chance(1, 2) { ProductionString::new() } else { ProductionString::empty() };
    let cut = rng.below(s.len() + 1);
    if cut == 1 {
        pushed = ProductionString::from(v.syms[s[0]]);
    } else {
        for i in &s[..cut] {
            pushed.push_symbol(v.syms[*i]);
        }
    }
    plain_string(v, &s[..cut], &pushed)?;
    for i in &s[cut..] {
        pushed.push_symbol(v.syms[*i]);
    }
    plain_string(v, s, &pushed)?;
    ensure!(pushed == p && hash(&pushed) == hash(&p), "{}: pushed symbol by symbol it is another string", v.show(s));
    let want: Vec<u32> = s.iter().map(|i| v.syms[*i].code()).collect();
    ensure!(p.len() == s.len() && p.is_empty() == s.is_empty(), "{} has the length {}", v.show(s), p.len());
    let by = |what: &str, got: Vec<u32>| -> Case {
        ensure!(got == want, "{}: {what} gives other symbols", v.show(s));
        Ok(())
    };
    by("symbols()", p.symbols().iter().map(|s| s.code()).collect())?;
    by("iter()", p.iter().map(|s| s.code()).collect())?;
    by("a borrowing loop", (&p).into_iter().map(|s| s.code()).collect())?;
    by("an index", (0..p.len()).map(|i| p[i].code()).collect())?;
    by("a clone", codes(&p.clone()))?;
    by("a consuming loop", p.clone().into_iter().map(|s| s.code()).collect())?;
    if !s.is_empty() {
        let mut o = s.to_vec();
        let k = rng.below(s.len());
        match rng.below(3) {
            0 => {
                o.remove(k);
            }
            1 => o.push(s[k]),
            _ => o[k] = (o[k] + 1) % v.len(),
        }
        if o != s {
            let q = v.string(&o);
            ensure!(q != p && q.to_string() != p.to_string(), "{} equals {}", v.show(s), v.show(&o));
        }
    }
    Ok(())
}

fn symbol(v: &Vocab, i: usize) -> Case {
    let (n, s) = (&v.names[i], v.syms[i]);
    let shown = lib("display", || s.to_string())?;
    ensure!(shown == *n, "symbol {n:?} is displayed as {shown:?}");
    agree_symbol(n)?;
    for (how, got) in [
        ("str::parse", lib("parse", || shown.parse::<Symbol>().ok())?),
        ("its code", lib("try_from", || Symbol::try_from(s.code()).ok())?),
        ("from_code", Some(Symbol::from_code(s.code()))),
    ] {
        ensure!(got == Some(s), "symbol {n:?} reads back as {got:?} by {how}");
        ensure!(got.is_some_and(|g| hash(&g) == hash(&s)), "symbol {n:?} reads back with another hash");
    }
    ensure!(s.name().as_deref() == Some(n.as_str()), "symbol {n:?} has the name {:?}", s.name());
    let one = ProductionString::from(s);
    plain_string(v, &[i], &one)
}

fn agree_symbol(t: &str) -> Result<Option<u32>, String> {
    let sys = System::new();
    let set: RefCell<HashSet<u32>> = RefCell::default();
    let all = [
        ("get_code", lib("get_code", || get_code(t).ok())?),
        ("build", lib("Symbol::build", || Symbol::build(t).ok().map(|s| s.code()))?),
        ("build of a String", lib("Symbol::build", || Symbol::build(t.to_string()).ok().map(|s| s.code()))?),
        ("str::parse", lib("parse", || t.parse::<Symbol>().ok().map(|s| s.code()))?),
        ("TryFrom<&str>", lib("try_from", || Symbol::try_from(t).ok().map(|s| s.code()))?),
        ("TryFrom<String>", lib("try_from", || Symbol::try_from(t.to_string()).ok().map(|s| s.code()))?),
        ("System::add_symbol of &str", lib("add_symbol", || sys.add_symbol(t).ok().map(|s| s.code()))?),
        ("System::add_symbol of String", lib("add_symbol", || sys.add_symbol(t.to_string()).ok().map(|s| s.code()))?),
        ("System::get_symbol", lib("get_symbol", || sys.get_symbol(t).map(|s| s.code()))?),
        ("add_symbol to a set", lib("add_symbol", || set.add_symbol(t).ok().map(|s| s.code()))?),
        ("get_symbol of a set", lib("get_symbol", || set.get_symbol(t).map(|s| s.code()))?),
    ];
    for (how, got) in &all {
        ensure!(*got == all[0].1, "{}: {how} gives {got:?}, but {} gives {:?}", c11::short(t), all[0].0, all[0].1);
    }
    if let Some(c) = all[0].1 {
        ensure!(lib("get_name", || get_name(c))?.as_deref() == Some(t.trim()), "{}: code {c} has the name {:?}", c11::short(t), get_name(c));
    }
    Ok(all[0].1)
}

fn agree_rule(t: &str) -> Result<Option<Production>, String> {
    let sys = || System::new();
    let list = || RefCell::new(Vec::<Production>::new());
    let set = || RefCell::new(HashSet::<u32>::new());
    let (l, s) = (list(), sys());
    let mut all = vec![
        ("parse_production", lib("parse_production", || parse_production(t).ok())?),
        ("str::parse", lib("parse", || t.parse::<Production>().ok())?),
        ("TryFrom<&str>", lib("try_from", || Production::try_from(t).ok())?),
        ("TryFrom<String>", lib("try_from", || Production::try_from(t.to_string()).ok())?),
        ("System::add_production of &str", lib("add_production", || s.add_production(t).ok())?),
        ("System::add_production of String", lib("add_production", || sys().add_production(t.to_string()).ok())?),
        ("add_production to a list, of &str", lib("add_production", || l.add_production(t).ok())?),
        ("add_production to a list, of String", lib("add_production", || list().add_production(t.to_string()).ok())?),
        ("parse_and_add_production to set and list", lib("parse_and_add_production", || parse_and_add_production(&set(), &list(), t).ok())?),
        ("parse_and_add_production to a system", lib("parse_and_add_production", || parse_and_add_production(&sys(), &sys(), t).ok())?),
    ];
    let first = all.remove(0).1;
    let key = first.as_ref().map(rule_key);
    for (how, got) in all {
        ensure!(got.as_ref().map(rule_key) == key, "{}: {how} gives {:?}, but parse_production {key:?}", c11::short(t), got.as_ref().map(rule_key));
        if let (Some(a), Some(b)) = (&first, &got) {
            ensure!(a == b && b == a && hash(a) == hash(b), "{}: {how} gives a rule that is not equal", c11::short(t));
        }
    }
    let stored = l.borrow().iter().map(rule_key).collect::<Vec<_>>();
    ensure!(stored == key.iter().cloned().collect::<Vec<_>>(), "{}: a list is left with {stored:?} instead of {key:?}", c11::short(t));
    ensure!(s.production_len() == key.iter().count(), "{}: a system is left with {} rules", c11::short(t), s.production_len());
    Ok(first)
}

pub fn hostile(rng: &mut Rng, cov: &mut Cov, ws: &[char]) -> Case {
    let t = c11::any_text(rng, ws);
    cov.distinct(&t);
    match agree_string(&t)? {
        Some(s) => {
            // Whatever was read from text is made of words of text.
            round_trip(&s).map_err(|e| format!("from {}: {e}", c11::short(&t)))?;
            cov.count("hostile strings read", 1);
        }
        None => cov.count("hostile strings refused by all", 1),
    }
    let c = agree_symbol(&t)?;
    cov.count(if c.is_some() { "hostile symbols read" } else { "hostile symbols refused by all" }, 1);
    for t in [t.clone(), format!("A -> {t}"), format!("{t} -> B"), format!("A < B > C -> 0.5 {t}")] {
        let r = agree_rule(&t)?;
        cov.count(if r.is_some() { "hostile rules read" } else { "hostile rules refused by all" }, 1);
    }
    Ok(())
}

pub fn plain(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(1, 12);
    let v = gen::vocab(rng, n, Place::Text)?;
    for i in 0..n {
        symbol(&v, i)?;
        cov.count("symbols", 1);
    }
    let mut len = gen::length(rng, 20, if tier == Tier::Quick { 5_000 } else { 70_000 });
    if !cfg!(miri) && rng.chance(1, 1_000) {
        len = *rng.pick(&[65_535, 65_536, 65_537, 100_001, 140_000, 270_000]);
    }
    let s = gen::syms(rng, n, len);
    views(rng, &v, &s)?;
    cov.count("strings", 1);
    cov.max("symbols of a string", len as u64);
    // Read from a layout of its own.
    let t = gen::string_text(rng, &v, &s);
    let p = agree_string(&t)?.ok_or_else(|| format!("{} is refused", c11::short(&t)))?;
    plain_string(&v, &s, &p)?;
    // Derived.
    let sys = System::new();
    for _ in 0..rng.range(1, 4) {
        let r = gen::rule(rng, &v, Shape { contexts: 2, alternatives: 3, body: 4, over: false });
        gen::add_rule(rng, &sys, &v, &r)?;
        if gen::body_as_text(&v, &r.bodies[0]) {
            let t = gen::rule_text(rng, &v, &r, &r.bodies[0], true);
            ensure!(agree_rule(&t)?.is_some(), "rule {t:?} is refused");
            cov.count("rules", 1);
        }
    }
    let mut p = v.string(&s[..s.len().min(200)]);
    for _ in 0..4 {
        // Chances that total too much are not the matter here.
        let Ok(q) = lib("derive_once", || sys.derive_once(p.clone()).map_err(|e| e.to_string()))? else { break };
        if q.len() > 20_000 {
            break;
        }
        let back = v.back(&q)?;
        plain_string(&v, &back, &q)?;
        cov.count("derived strings", 1);
        p = q;
    }
    cov.distinct(&format!("{:?} {}", v.names, t));
    cov.sample(|| format!("symbols {:?}, text {t:?}, derived {p}", v.names));
    Ok(())
}

/// Strings are displayed and read while other threads name new symbols.
fn round(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Case {
    let salt = rng.next();
    conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        for _ in 0..per {
            // Some names are new to all threads, some shared, some this thread's own.
            let names: Vec<String> = (0..rng.range(1, 6))
                .map(|k| match rng.below(3) {
                    0 => format!("q{salt:x}{k}"),
                    1 => format!("q{salt:x}t{t}n{}", rng.below(40)),
                    _ => format!("w{}", rng.below(30)),
                })
                .collect();
            let t = names.join(" ");
            let s = lib("parse_prod_string", || parse_prod_string(&t).map_err(|e| e.to_string()))??;
            let shown = lib("display", || s.to_string())?;
            ensure!(shown == t, "{t:?} is displayed as {shown:?} while others name symbols");
            round_trip(&s)?;
        }
        Ok(())
    })?;
    cov.count("strings read and displayed concurrently", (nthreads * per) as u64);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 16 == 3 {
        let (n, level) = conc::shape(rng);
        let per = *rng.pick(&[2, 10, 40]);
        return round(rng, n, level, per, cov);
    }
    if i % 2 == 0 {
        let ws = gen::unicode_ws();
        for _ in 0..4 {
            hostile(rng, cov, &ws)?;
        }
        return Ok(());
    }
    plain(rng, cov, tier)
}
