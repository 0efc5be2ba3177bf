//! Names and codes of symbols.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU32, Ordering};

use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, get_name, SymbolStore};

use crate::conc::{self, tick};
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::rng::{hash_str, Rng};

/// Obtains the code of a name in one of the ways there are. The name is one token.
fn obtain(how: usize, name: &str, padded: &str, sys: &System) -> Result<u32, String> {
    lib("obtaining a code", || {
        let e = |e: Error| format!("{name:?} is refused: {e}");
        Ok(match how {
            0 | 1 => get_code(padded).map_err(e)?,
            2 => Symbol::build(padded).map_err(e)?.code(),
            3 => Symbol::try_from(padded).map_err(e)?.code(),
            4 => Symbol::try_from(padded.to_string()).map_err(e)?.code(),
            5 => padded.parse::<Symbol>().map_err(e)?.code(),
            6 => sys.add_symbol(padded).map_err(e)?.code(),
            7 => parser::parse_prod_string(name).map_err(e)?.symbols()[0].code(),
            8 => parser::parse_production(&format!("{name} -> ")).map_err(e)?.head().target().code(),
            9 => sys.add_production(format!("{name} -> a").as_str()).map_err(e)?.head().target().code(),
            _ => {
                let _ = sys.get_symbol(name);
                get_code(name).map_err(e)?
            }
        })
    })?
}

/// What the code must answer to.
fn confirm(code: u32, name: &str) -> Case {
    let got = lib("get_name", || get_name(code))?;
    ensure!(got.as_deref() == Some(name), "code {code} was obtained for {name:?}, but its name is {got:?}");
    let s = Symbol::from_code(code);
    let (n, d) = lib("name", || (s.name(), s.to_string()))?;
    ensure!(n.as_deref() == Some(name), "symbol {code} was obtained for {name:?}, but its name is {n:?}");
    ensure!(d == name, "symbol {code} was obtained for {name:?}, but displays as {d:?}");
    let t = lib("try_from code", || Symbol::try_from(code).map(|s| s.code()).map_err(|e| e.to_string()))?;
    ensure!(t == Ok(code), "code {code} was obtained for {name:?}, but is refused as a symbol: {t:?}");
    Ok(())
}

fn pad(rng: &mut Rng, name: &str) -> String {
    const WS: &[&str] = &["", "", " ", "\t", "\n ", "\u{a0}", "\u{2003}", "\u{3000}\u{85}", "\r\n", "\u{2028}"];
    format!("{}{}{}", rng.pick(WS), name, rng.pick(WS))
}

/// Names that something short of a comparison of all of a name may take for one another, or for codes.
fn near(rng: &mut Rng, last: u32) -> Vec<String> {
    if rng.chance(1, 3) {
        let n = rng.range(1, 12);
        return (0..n)
            .map(|_| {
                let far = *rng.pick(&[3, 40, 300, 1_100, 3_000, 12_000]);
                let k = last.wrapping_add(rng.below(far) as u32);
                match rng.below(6) {
                    0 => format!("{k:04x}h"),
                    1 => format!("0{k}"),
                    _ => format!("{k}"),
                }
            })
            .collect();
    }
    let len = *rng.pick(&[2, 9, 17, 33, 50, 64, 65, 100, 130, 257, 300, 600, 1_100, 4_200]);
    let base: Vec<char> = {
        let one = rng.chance(1, 2);
        let abc: Vec<char> = "abcdefghijklmnopqrstuvwxyzäßλ".chars().collect();
        (0..len).map(|_| if one { 'k' } else { *rng.pick(&abc) }).collect()
    };
    let mut out: BTreeMap<String, ()> = BTreeMap::new();
    out.insert(base.iter().collect(), ());
    for _ in 0..rng.range(2, 10) {
        let mut t = base.clone();
        let at = match rng.below(4) {
            0 => len / 2,
            1 => *rng.pick(&[0, len - 1]),
            _ => rng.below(len),
        };
        match rng.below(4) {
            // The same characters in another order.
            0 => {
                let b = rng.below(len);
                t.swap(at, b)
            }
            1 => t[at] = t[at].to_ascii_uppercase(),
            2 => t[at] = *rng.pick(&['z', 'y', 'é', '7']),
            _ => t.truncate(at.max(1)),
        }
        out.insert(t.into_iter().collect(), ());
    }
    let mut out: Vec<String> = out.into_keys().collect();
    rng.shuffle(&mut out);
    out
}

/// Names longer than anybody writes, which differ at one place: each is a name of its own.
fn huge(rng: &mut Rng, cov: &mut Cov) -> Case {
    let len = *rng.pick(&[5_000, 40_000, 70_000, 140_000, 300_000, 1_100_000]) + rng.below(300);
    let base: String = (0..len).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
    let sys = System::new();
    let mut all = vec![base.clone()];
    for at in [0, 1, len / 3, len / 2, len - 2, len - 1, rng.below(len), 65_536.min(len - 1), len - 1 - 4_096.min(len - 1)] {
        let mut t = base.clone().into_bytes();
        t[at] = if rng.chance(1, 2) { t[at].to_ascii_uppercase() } else { b'0' + rng.below(10) as u8 };
        all.push(String::from_utf8(t).unwrap());
    }
    all.push(base[..len - 1].to_string());
    all.push(base[1..].to_string());
    all.push(base.clone() + "a");
    all.push(base.clone() + "é");
    all.sort();
    all.dedup();
    rng.shuffle(&mut all);
    let brief = |e: String| if e.len() > 400 { format!("names of {len} characters that differ at one place: {} ...", e.chars().take(120).collect::<String>()) } else { e };
    let mut codes: HashMap<u32, usize> = HashMap::new();
    for (k, n) in all.iter().enumerate() {
        let how = rng.below(11);
        let code = obtain(how, n, n, &sys).map_err(brief)?;
        if let Some(o) = codes.insert(code, k) {
            return Err(format!("two different names of {} and {} characters have the same code {code}", all[o].len(), n.len()));
        }
        confirm(code, n).map_err(brief)?;
    }
    for (c, k) in &codes {
        confirm(*c, &all[*k]).map_err(brief)?;
        let again = obtain(rng.below(11), &all[*k], &all[*k], &sys).map_err(brief)?;
        ensure!(again == *c, "a name of {} characters has code {c} and then {again}", all[*k].len());
    }
    cov.count("very long names", all.len() as u64);
    cov.max("characters of a name", len as u64);
    Ok(())
}

fn sequential(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    let sys = System::new();
    let mut model: HashMap<String, u32> = HashMap::new();
    let mut names: HashMap<u32, String> = HashMap::new();
    let mut order: Vec<String> = vec![];
    // Numerals are names like any other, also those that codes of others may reach.
    let mut last = 100u32;
    let mut twins: Vec<String> = vec![];
    // One of the first histories is longer than any number of 16 bits.
    let ops = match (rng.below(30), tier) {
        _ if i == 24 && std::env::var_os("MON_SANITIZED").is_none() => 140_000,
        (0, Tier::Quick) => 12_000,
        (0, Tier::Thorough) => 150_000,
        _ => rng.range(20, 300),
    };
    for op in 0..ops {
        if i == 24 && op == 0 {
            twins = (0..90).rev().map(|k| format!("{}", 1_500 * k + 7 * (k % 11))).collect();
        }
        if twins.is_empty() && rng.chance(1, 25) {
            twins = near(rng, last);
        }
        let name = match rng.below(4) {
            _ if !twins.is_empty() => twins.pop().unwrap(),
            0 if !order.is_empty() => rng.pick(&order).clone(),
            1 => {
                let mut n = gen::names(rng, 1, gen::Place::Text).remove(0);
                if rng.chance(1, 2) {
                    n.push_str(&format!("{}", rng.below(50)));
                }
                // One token only.
                if !gen::plain_name(&n, gen::Place::Text) {
                    n = format!("n{op}");
                }
                n
            }
            2 => format!("q{i}x{op}"),
            _ => format!("Q{i}X{}", op / 2),
        };
        let how = rng.below(11);
        let padded = pad(rng, &name);
        let code = obtain(how, &name, &padded, &sys)?;
        last = code;
        match model.get(&name) {
            Some(c) => ensure!(*c == code, "name {name:?} has code {c} and then {code}"),
            None => {
                if let Some(o) = names.get(&code) {
                    return Err(format!("names {o:?} and {name:?} have the same code {code}"));
                }
                model.insert(name.clone(), code);
                names.insert(code, name.clone());
                order.push(name.clone());
            }
        }
        confirm(code, &name)?;
        if op % 8 == 0 {
            let old = rng.pick(&order).clone();
            confirm(model[&old], &old)?;
        }
        // Codes nobody was given.
        let odd = match rng.below(12) {
            0 => Some(rng.next() as u32),
            1 => Some(rng.below(120) as u32),
            2 => Some(u32::MAX - rng.below(3) as u32),
            3 => Some(code.wrapping_add(1 + rng.below(300) as u32)),
            _ => None,
        };
        if let Some(c) = odd {
            let n = lib("get_name", || get_name(c))?;
            match (&n, names.get(&c)) {
                (got, Some(w)) => ensure!(got.as_ref() == Some(w), "code {c} belongs to {w:?}, but its name is {got:?}"),
                (Some(n), None) => {
                    let back = lib("get_code", || get_code(n).map_err(|e| e.to_string()))?;
                    ensure!(back == Ok(c), "code {c} has the name {n:?}, which has code {back:?}");
                }
                (None, None) => {
                    let t = lib("try_from code", || Symbol::try_from(c).map(|s| s.code()).map_err(|e| e.to_string()))?;
                    ensure!(t.is_err(), "code {c} was never issued, but is accepted as a symbol");
                    lib("display", || Symbol::from_code(c).to_string())?;
                    cov.count("codes never issued", 1);
                }
            }
        }
        if rng.chance(1, 20) {
            let ws = gen::unicode_ws();
            let n = rng.below(4);
            let blank: String = (0..n).map(|_| *rng.pick(&ws)).collect();
            let all = [
                lib("get_code", || get_code(&blank).is_err())?,
                lib("build", || Symbol::build(&blank).is_err())?,
                lib("try_from", || Symbol::try_from(blank.as_str()).is_err())?,
                lib("try_from", || Symbol::try_from(blank.clone()).is_err())?,
                lib("from_str", || blank.parse::<Symbol>().is_err())?,
                lib("add_symbol", || sys.add_symbol(blank.as_str()).is_err())?,
            ];
            ensure!(all == [true; 6], "the blank name {blank:?} is accepted: {all:?}");
            cov.count("blank names", 1);
        }
    }
    for (n, c) in &model {
        confirm(*c, n)?;
    }
    cov.count("names", model.len() as u64);
    cov.count("lookups", ops as u64);
    cov.max("names in one history", model.len() as u64);
    cov.distinct(&order.join(" "));
    cov.sample(|| format!("{} operations on {} names: {}", ops, model.len(), order.iter().take(12).cloned().collect::<Vec<_>>().join(" ")));
    Ok(())
}

/// What one thread saw: name index, code, whether it was the thread's first sight of the name.
type Seen = Vec<(usize, u32)>;

pub struct Round {
    pub names: Vec<String>,
    pub seen: Vec<Seen>,
    pub order: Vec<(u64, usize, usize)>,
}

/// Threads ask for the same names at the same time, look up what they got and what others got.
pub fn race(rng: &mut Rng, tag: &str, nthreads: usize, level: u32, k: usize, lookups: bool) -> Result<Round, String> {
    let names: Vec<String> = (0..k).map(|n| format!("{tag}n{n}")).collect();
    let slots: Vec<AtomicU32> = (0..k).map(|_| AtomicU32::new(0)).collect();
    let sys = System::new();
    let salt = rng.next();
    let same_order = rng.chance(1, 2);
    let every_way = rng.chance(1, 2);
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut seen: Seen = vec![];
        let mut order = vec![];
        let mut idx: Vec<usize> = (0..k).collect();
        if !same_order {
            rng.shuffle(&mut idx);
        }
        let peek = |seen: &mut Seen, j: usize| -> Case {
            let c = slots[j].load(Ordering::Relaxed);
            if c != 0 {
                let n = lib("get_name", || get_name(c))?;
                ensure!(n.as_deref() == Some(&names[j]), "thread {t}: code {c} was obtained for {:?} by another thread, but its name is {n:?}", names[j]);
                seen.push((j, c));
            }
            Ok(())
        };
        for i in idx {
            if lookups {
                peek(&mut seen, i)?;
            }
            let how = if every_way { rng.below(11) } else { 0 };
            let code = obtain(how, &names[i], &names[i], &sys)?;
            order.push((tick(), t, i));
            slots[i].store(code, Ordering::Relaxed);
            confirm(code, &names[i]).map_err(|e| format!("thread {t}: {e}"))?;
            seen.push((i, code));
            if lookups {
                let j = rng.below(k);
                peek(&mut seen, j)?;
            }
        }
        Ok((seen, order))
    })?;
    let (seen, orders): (Vec<Seen>, Vec<Vec<(u64, usize, usize)>>) = out.into_iter().unzip();
    let mut order = orders.concat();
    order.sort();
    Ok(Round { names, seen, order })
}

pub fn agree(r: &Round) -> Case {
    let mut code: BTreeMap<usize, u32> = BTreeMap::new();
    let mut owner: HashMap<u32, usize> = HashMap::new();
    for (t, seen) in r.seen.iter().enumerate() {
        for (i, c) in seen {
            let first = *code.entry(*i).or_insert(*c);
            ensure!(first == *c, "threads were given codes {first} and {c} for {:?} (the latter thread {t})", r.names[*i]);
            let o = *owner.entry(*c).or_insert(*i);
            ensure!(o == *i, "code {c} was given for {:?} and for {:?}", r.names[o], r.names[*i]);
        }
    }
    for (i, c) in code {
        confirm(c, &r.names[i]).map_err(|e| format!("afterwards: {e}"))?;
        let again = lib("get_code", || get_code(&r.names[i]).map_err(|e| e.to_string()))?;
        ensure!(again == Ok(c), "afterwards {:?} has code {again:?} instead of {c}", r.names[i]);
    }
    Ok(())
}

/// The order in which the threads got what they asked for.
pub fn interleaving(order: &[(u64, usize, usize)]) -> String {
    order.iter().map(|(_, t, i)| format!("{t}:{i}")).collect::<Vec<_>>().join(",")
}

fn concurrent(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    for round in 0..12 {
        let (n, level) = conc::shape(rng);
        let k = *rng.pick(&[1, 1, 2, 3, 8, 40]);
        let look = rng.chance(2, 3);
        let r = race(rng, &format!("c{i}r{round}"), n, level, k, look)?;
        agree(&r)?;
        cov.count("concurrent lookups", (n * k) as u64);
        cov.count("sightings across threads", r.seen.iter().map(|s| s.len() as u64).sum());
        cov.distinct(&format!("{n} {k} {}", interleaving(&r.order)));
        cov.count("concurrent rounds", 1);
    }
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 160 == 7 {
        huge(rng, cov)?;
    }
    if i % 3 == 0 {
        return sequential(rng, i, cov, tier);
    }
    concurrent(rng, i, cov)
}

/// A small version for Miri. The outcome is printed.
pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let (n, _) = conc::shape(rng);
    let k = rng.range(1, 2);
    let look = rng.chance(1, 2);
    let r = race(rng, "m", n, 0, k, look)?;
    agree(&r)?;
    let o = interleaving(&r.order);
    Ok(format!("threads={n} names={k} order={o} h{}", hash_str(&o) % 1000))
}
