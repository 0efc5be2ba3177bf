//! A system knows exactly the symbols it was given.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use rusty_systems::parser::parse_and_add_production;
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family;

use crate::conc::{self, tick};
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{Rule, Vocab};
use crate::rng::Rng;

static FAMILIES: AtomicU64 = AtomicU64::new(0);

/// What a system was given.
#[derive(Clone, Default)]
struct Known {
    names: BTreeSet<usize>,
    /// Codes that no name was ever given.
    bare: BTreeSet<u32>,
}

impl Known {
    fn len(&self) -> usize {
        self.names.len() + self.bare.len()
    }
    fn rule(&mut self, r: &Rule) {
        self.names.insert(r.target);
        self.names.extend(r.pre.iter().flatten());
        self.names.extend(r.post.iter().flatten());
        self.names.extend(r.bodies.iter().flat_map(|b| &b.syms));
    }
}

fn padded(rng: &mut Rng, n: &str) -> String {
    let ws = [" ", "\t", "\n", "\u{3000}", "\u{a0}", "\u{2003}\u{85}", ""];
    format!("{}{n}{}", rng.pick(&ws), rng.pick(&ws))
}

fn check_one(sys: &System, v: &Vocab, known: &Known, i: usize, ask: &str) -> Case {
    let got = lib("get_symbol", || sys.get_symbol(ask))?;
    let want = known.names.contains(&i);
    ensure!(
        got.is_some() == want,
        "{:?} is {}found by {ask:?} although it was {}given",
        v.names[i],
        if want { "not " } else { "" },
        if want { "" } else { "not " }
    );
    if let Some(s) = got {
        ensure!(s == v.syms[i] && s.code() == v.syms[i].code(), "{ask:?} finds another symbol, {s}");
        ensure!(s.name().as_deref() == Some(v.names[i].as_str()), "{ask:?} finds a symbol with the name {:?}", s.name());
    }
    Ok(())
}

fn check(sys: &System, v: &Vocab, known: &Known) -> Case {
    let n = lib("symbol_len", || sys.symbol_len())?;
    ensure!(n == known.len(), "{n} symbols are counted although {} were given: {:?} and {} bare codes", known.len(), known.names.iter().map(|i| v.names[*i].as_str()).collect::<Vec<_>>(), known.bare.len());
    for i in 0..v.len() {
        check_one(sys, v, known, i, &v.names[i])?;
    }
    let m = lib("symbol_len", || sys.symbol_len())?;
    ensure!(m == n, "asking for names changes the number of symbols from {n} to {m}");
    Ok(())
}

fn of_family(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Result<(System, Known), String> {
    let mut known = Known::default();
    if rng.chance(1, 2) {
        let s = if rng.chance(1, 2) { System::new() } else { System::default() };
        return Ok((s, known));
    }
    let mut b = family::SystemFamily::define();
    for _ in 0..rng.below(10) {
        let i = rng.below(v.len());
        known.names.insert(i);
        let n = padded(rng, &v.names[i]);
        let d = if rng.chance(1, 2) { Some("what it means".to_string()) } else { None };
        b = if rng.chance(1, 2) { b.with_terminal(n, d) } else { b.with_production(n, d) };
    }
    let name = format!("C19 {}", FAMILIES.fetch_add(1, Ordering::Relaxed));
    let f: Arc<SystemFamily> = lib("register", || b.register(&name).map_err(|e| e.to_string()))??;
    let how = rng.below(4);
    let sys = lib("of_family", || match how {
        0 => System::of_family(name.as_str()),
        1 => System::of_family(name.clone()),
        2 => System::of_family(f.clone()),
        _ => System::of_family((*f).clone()),
    }.map_err(|e| e.to_string()))?
    .map_err(|e| format!("a family of the symbols {:?} has no system: {e}", known.names))?;
    cov.count("systems of a family", 1);
    Ok((sys, known))
}

/// A conversion of the user's that adds to the very system that it is converted for.
struct Adds<'a>(&'a System, Symbol, Symbol);

impl TryFrom<Adds<'_>> for Symbol {
    type Error = Error;
    fn try_from(a: Adds<'_>) -> Result<Symbol, Error> {
        a.0.add_symbol(a.1)?;
        Ok(a.2)
    }
}

const REFUSED: &[&str] = &["", "  ", "-> {}", "{}", "{} {} -> {}", "< -> {}", "{} < {}", "{} -> 1.5 {}", "{} -> 0 {}", "{} -> -1 {}", "{} -> nan {}", "{} < > {} -> {}", "{} > {}"];

pub fn history(rng: &mut Rng, cov: &mut Cov) -> Case {
    let k = rng.range(1, 14);
    let v = gen::vocab(rng, k, Place::Text)?;
    let n = rng.range(1, 3);
    let mut all: Vec<(System, Known)> = vec![];
    for _ in 0..n {
        let s = of_family(rng, &v, cov)?;
        check(&s.0, &v, &s.1)?;
        all.push(s);
    }
    let mut trail = vec![];
    for _ in 0..rng.range(1, if cfg!(miri) { 8 } else { 24 }) {
        let at = rng.below(n);
        let i = rng.below(v.len());
        let (sys, known) = &mut all[at];
        let (sys, name, sym) = (&*sys, &v.names[i], v.syms[i]);
        let how = rng.below(14);
        trail.push(format!("{how}{i}"));
        match how {
            0..=3 => {
                let t = padded(rng, name);
                let r = lib("add_symbol", || match how {
                    0 => sys.add_symbol(t.as_str()),
                    1 => sys.add_symbol(t.clone()),
                    2 => sys.add_symbol(sym.code()),
                    _ => sys.add_symbol(sym),
                }.map_err(|e| e.to_string()))?
                .map_err(|e| format!("symbol {t:?} is refused: {e}"))?;
                known.names.insert(i);
                ensure!(r == sym, "adding {t:?} returns the symbol {r}");
                cov.count("symbols added", 1);
            }
            4 => {
                // Nobody gave these codes a name.
                let code = u32::MAX - rng.below(4) as u32;
                let r = lib("add_symbol", || sys.add_symbol(code).map_err(|e| e.to_string()))?;
                ensure!(r.is_err(), "code {code}, which no symbol has, is accepted");
                let r = lib("add_symbol", || sys.add_symbol(Symbol::from_code(code)).map_err(|e| e.to_string()))??;
                ensure!(r.code() == code, "adding the symbol of code {code} returns another");
                known.bare.insert(code);
                let t = format!("code:{code}");
                ensure!(lib("get_symbol", || sys.get_symbol(&t))?.is_none(), "{t:?} is found, although nothing has this name");
            }
            5 => {
                let t = *rng.pick(&["", " ", "\t\n", "\u{3000}", "\u{85} "]);
                ensure!(lib("add_symbol", || sys.add_symbol(t).is_err())?, "the blank symbol {t:?} is accepted");
                ensure!(lib("get_symbol", || sys.get_symbol(t).is_none())?, "the blank symbol {t:?} is found");
            }
            6 => {
                let mut t = rng.pick(REFUSED).to_string();
                while t.contains("{}") {
                    t = t.replacen("{}", &v.names[rng.below(v.len())], 1);
                }
                // A name that reads as a number may make the text a rule.
                let r = lib("add_production", || sys.add_production(t.as_str()).map_err(|e| e.to_string()))?;
                if let Ok(p) = r {
                    let mut r = Rule { pre: None, target: v.back(&(*p.head().target()).into())?[0], post: None, bodies: vec![] };
                    r.pre = p.head().pre_context().map(|s| v.back(s)).transpose()?;
                    r.post = p.head().post_context().map(|s| v.back(s)).transpose()?;
                    known.rule(&r);
                    for b in p.all_bodies() {
                        known.names.extend(v.back(b.string())?);
                    }
                } else {
                    cov.count("rules refused", 1);
                }
            }
            7 | 8 => {
                let mut r = gen::rule(rng, &v, Shape { contexts: 3, alternatives: 3, body: 5, over: false });
                match rng.below(8) {
                    // Contexts that are there and have nothing in them.
                    0 => r.pre = Some(vec![]),
                    1 => r.post = Some(vec![]),
                    2 => r.post = r.pre.clone(),
                    _ => {}
                }
                if r.pre.as_ref().is_some_and(|c| c.is_empty()) || r.post.as_ref().is_some_and(|c| c.is_empty()) {
                    lib("add_production", || sys.add_production(r.build(&v)?).map_err(|e| e.to_string()))??;
                } else {
                    gen::add_rule(rng, sys, &v, &r)?;
                }
                known.rule(&r);
                cov.count("rules added", 1);
            }
            9 => {
                // Part of the rule goes elsewhere.
                let mut r = gen::rule(rng, &v, Shape { contexts: 3, alternatives: 1, body: 5, over: false });
                while !gen::body_as_text(&v, &r.bodies[0]) {
                    r.bodies[0].syms.clear();
                }
                let t = gen::rule_text(rng, &v, &r, &r.bodies[0], true);
                let symbols = RefCell::new(HashSet::new());
                let rules: RefCell<Vec<Production>> = RefCell::new(vec![]);
                let how = rng.below(3);
                let done = lib("parse_and_add_production", || match how {
                    0 => parse_and_add_production(sys, &rules, &t),
                    1 => parse_and_add_production(&symbols, sys, &t),
                    _ => parse_and_add_production(sys, sys, &t),
                }.map_err(|e| e.to_string()))?;
                done.map_err(|e| format!("rule {t:?} is refused: {e}"))?;
                known.rule(&r);
                cov.count("rules added to stores", 1);
            }
            10 => {
                let len = rng.below(12);
                let s = gen::syms(rng, v.len(), len);
                // Rules whose chances total too much may refuse.
                let _ = lib("derive", || sys.derive(v.string(&s), 2.into()).map(|s| s.len()).map_err(|e| e.to_string()))?;
                let _ = lib("derive_once", || sys.derive_once(v.string(&s)).map(|s| s.len()).map_err(|e| e.to_string()))?;
                cov.count("derivations", 1);
            }
            11 => {
                let t = format!("never given {}", rng.next());
                ensure!(lib("get_symbol", || sys.get_symbol(&t))?.is_none(), "{t:?} is found, although nobody gave it");
                let _ = lib("get_symbol", || sys.get_symbol(&t))?;
                ensure!(lib("get_symbol", || sys.get_symbol(&t))?.is_none(), "{t:?} is found after asking for it");
            }
            12 => {
                let j = rng.below(v.len());
                let a = Adds(sys, sym, v.syms[j]);
                let r = lib("add_symbol", || sys.add_symbol(a).map_err(|e| e.to_string()))??;
                ensure!(r == v.syms[j], "adding {:?} by a conversion returns {r}", v.names[j]);
                known.names.extend([i, j]);
            }
            _ => {
                let t = padded(rng, name);
                check_one(sys, &v, known, i, &t)?;
                cov.count("questions", 1);
            }
        }
        for (s, k) in &all {
            check(s, &v, k)?;
            cov.count("states compared", 1);
        }
    }
    cov.max("symbols of a system", all.iter().map(|(_, k)| k.len()).max().unwrap_or(0) as u64);
    cov.distinct(&format!("{:?} {trail:?}", v.names));
    cov.sample(|| format!("symbols {:?}, history {trail:?}", v.names));
    Ok(())
}

/// Very many symbols.
fn many(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = match rng.below(4) {
        _ if std::env::var_os("MON_SANITIZED").is_some() => 5_000,
        0 => 140_000,
        1 => 70_000,
        _ if tier == Tier::Thorough => 60_000,
        _ => 5_000,
    };
    let salt = rng.next();
    let sys = System::new();
    for i in 0..n {
        let s = lib("add_symbol", || sys.add_symbol(format!("m{i}x{salt}")).map_err(|e| e.to_string()))??;
        if i % 97 == 0 {
            ensure!(lib("symbol_len", || sys.symbol_len())? == i + 1, "not {} symbols", i + 1);
            ensure!(lib("get_symbol", || sys.get_symbol(&format!("m{i}x{salt}")))? == Some(s), "symbol {i} is not found");
        }
    }
    for i in 0..n {
        let there = lib("get_symbol", || sys.get_symbol(&format!("m{i}x{salt}")).is_some())?;
        ensure!(there, "symbol {i} of {n} is not found");
        if i % 50 == 0 {
            ensure!(lib("get_symbol", || sys.get_symbol(&format!("o{i}x{salt}")).is_none())?, "a symbol is found that was not given");
        }
    }
    ensure!(lib("symbol_len", || sys.symbol_len())? == n, "not {n} symbols");
    cov.max("symbols of a system", n as u64);
    cov.distinct(&format!("many {salt}"));
    Ok(())
}

#[derive(Default)]
struct Log {
    /// symbol, begin, end
    adds: Vec<(usize, u64, u64)>,
    /// symbol, found, begin, end
    asks: Vec<(usize, bool, u64, u64)>,
    /// count, begin, end
    lens: Vec<(usize, u64, u64)>,
}

fn round(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    let k = rng.range(2, 40);
    let v = Vocab::new((0..k).map(|i| format!("c{i}")).collect())?;
    let sys = System::new();
    let fam = format!("C19 {}", FAMILIES.fetch_add(1, Ordering::Relaxed));
    let in_family = rng.range(1, k);
    let mut b = SystemFamily::define();
    for n in &v.names[..in_family] {
        b = b.with_terminal(n, None);
    }
    lib("register", || b.register(&fam).map_err(|e| e.to_string()))??;
    let salt = rng.next();
    let logs = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut log = Log::default();
        for _ in 0..per {
            let i = rng.below(k);
            match rng.below(10) {
                how @ 0..=3 => {
                    let a = tick();
                    lib("add_symbol", || match how {
                        0 => sys.add_symbol(v.names[i].as_str()),
                        1 => sys.add_symbol(v.names[i].clone()),
                        2 => sys.add_symbol(v.syms[i].code()),
                        _ => sys.add_symbol(v.syms[i]),
                    }.map_err(|e| e.to_string()))??;
                    log.adds.push((i, a, tick()));
                }
                4 => {
                    let r = gen::rule(&mut rng, &v, Shape { contexts: 2, alternatives: 2, body: 4, over: false });
                    let mut known = Known::default();
                    known.rule(&r);
                    let p = r.build(&v)?;
                    let a = tick();
                    lib("add_production", || sys.add_production(p).map_err(|e| e.to_string()))??;
                    let b = tick();
                    log.adds.extend(known.names.iter().map(|i| (*i, a, b)));
                }
                5 => {
                    let a = tick();
                    let n = lib("symbol_len", || sys.symbol_len())?;
                    log.lens.push((n, a, tick()));
                }
                6 if rng.chance(1, 4) => {
                    let s = lib("of_family", || System::of_family(fam.as_str()).map_err(|e| e.to_string()))??;
                    let n = lib("symbol_len", || s.symbol_len())?;
                    ensure!(n == in_family, "a system of a family of {in_family} symbols has {n}");
                }
                _ => {
                    let a = tick();
                    let got = lib("get_symbol", || sys.get_symbol(&v.names[i]))?;
                    log.asks.push((i, got.is_some(), a, tick()));
                    if let Some(s) = got {
                        ensure!(s == v.syms[i], "{:?} finds {s}", v.names[i]);
                    }
                }
            }
        }
        Ok(log)
    })?;
    // By symbol: when it began to be added first, and by when it was there at the latest.
    let mut begun: BTreeMap<usize, u64> = BTreeMap::new();
    let mut done: BTreeMap<usize, u64> = BTreeMap::new();
    let mut earliest_seen: BTreeMap<usize, u64> = BTreeMap::new();
    for l in &logs {
        for (i, a, b) in &l.adds {
            let e = begun.entry(*i).or_insert(*a);
            *e = (*e).min(*a);
            let e = done.entry(*i).or_insert(*b);
            *e = (*e).min(*b);
        }
        for (i, found, _, b) in &l.asks {
            if *found {
                let e = earliest_seen.entry(*i).or_insert(*b);
                *e = (*e).min(*b);
            }
        }
    }
    let mut trail = vec![];
    let mut lens: Vec<(usize, u64, u64)> = vec![];
    for l in &logs {
        for (i, found, a, b) in &l.asks {
            let name = &v.names[*i];
            if *found {
                ensure!(begun.get(i).is_some_and(|x| x < b), "{name:?} is found before anyone begins to add it");
            } else {
                ensure!(done.get(i).is_none_or(|x| x > a), "{name:?} is not found after it was added");
                ensure!(earliest_seen.get(i).is_none_or(|x| x > a), "{name:?} is not found after it had been found");
            }
            cov.count(if *found { "concurrent questions answered yes" } else { "concurrent questions answered no" }, 1);
            trail.push(*found as u8);
        }
        for (n, a, b) in &l.lens {
            let least = done.values().filter(|x| *x < a).count();
            let most = begun.values().filter(|x| *x < b).count();
            ensure!(least <= *n && *n <= most, "{n} symbols are counted, although at least {least} and at most {most} had been added");
            lens.push((*n, *a, *b));
        }
    }
    for (n, _, b) in &lens {
        for (m, a, _) in &lens {
            ensure!(b > a || n <= m, "{m} symbols are counted after {n} had been");
        }
    }
    cov.count("concurrent counts", lens.len() as u64);
    let known = Known { names: begun.keys().copied().collect(), bare: BTreeSet::new() };
    check(&sys, &v, &known)?;
    Ok(trail.iter().map(|x| x.to_string()).collect())
}

/// Whoever sees a rule finds its symbols.
fn visible(rng: &mut Rng, nthreads: usize, level: u32, cov: &mut Cov) -> Case {
    let rules = rng.range(1, 8);
    let body = *rng.pick(if cfg!(miri) { &[1, 3, 5, 8] } else { &[1, 3, 20, 60] });
    let mut names: Vec<String> = (0..rules).map(|i| format!("v{i}")).collect();
    for i in 0..rules {
        names.extend((0..body).map(|j| format!("v{i}b{j}")));
    }
    let v = Vocab::new(names)?;
    let sys = System::new();
    let salt = rng.next();
    let over = std::sync::atomic::AtomicBool::new(false);
    let seen = conc::threads(nthreads.max(2), salt, level, |t, _| {
        let mut rng = Rng::new(salt, "visible", t as u64);
        let mut seen = 0u64;
        let all = |i: usize, how: &str| -> Case {
            // The last ones are the likeliest to be late.
            for j in (0..body).rev().map(|j| rules + i * body + j).chain([i]) {
                ensure!(lib("get_symbol", || sys.get_symbol(&v.names[j]))? == Some(v.syms[j]), "a rule of {:?} is there ({how}), but {:?} is not found", v.names[i], v.names[j]);
            }
            Ok(())
        };
        if t == 0 {
            for i in 0..rules {
                let b: Vec<usize> = (0..body).map(|j| rules + i * body + j).collect();
                let text = format!("{} -> {}", v.names[i], v.text(&b));
                for _ in 0..rng.below(3) * 200 {
                    std::hint::spin_loop();
                }
                let r = lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))
                    .and_then(|r| r)
                    .and_then(|_| all(i, "to the thread that added it"));
                if r.is_err() {
                    over.store(true, Ordering::SeqCst);
                    return r.map(|_| seen);
                }
            }
            over.store(true, Ordering::SeqCst);
            return Ok(seen);
        }
        let mut known = 0;
        while known < rules {
            let over = over.load(Ordering::SeqCst);
            if rng.chance(1, 2) {
                let n = lib("production_len", || sys.production_len())?;
                ensure!(n >= known && n <= rules, "{n} rules are counted after {known}");
                for i in known..n {
                    all(i, "it is counted")?;
                    seen += 1;
                }
                known = n;
            } else {
                let got = lib("derive_once", || sys.derive_once(v.string(&[known])).map_err(|e| e.to_string()))??;
                if v.back(&got)? != [known] {
                    all(known, "it has been applied")?;
                    let n = lib("symbol_len", || sys.symbol_len())?;
                    ensure!(n >= (known + 1) * (body + 1), "{} rules of {} symbols each are there, but only {n} symbols are counted", known + 1, body + 1);
                    known += 1;
                    seen += 1;
                }
            }
            // The thread that adds may have failed.
            if over && known < rules && lib("production_len", || sys.production_len())? < rules {
                return Err("a rule that was added is not counted".to_string());
            }
            if rng.chance(1, 4) {
                std::thread::yield_now();
            }
        }
        Ok(seen)
    })?;
    cov.count("rules looked at as soon as they are seen", seen.iter().sum());
    cov.distinct(&format!("visible {nthreads} {rules} {body} {level}"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 499 == 17 {
        return many(rng, cov, tier);
    }
    if i % 3 == 0 {
        let (n, level) = conc::shape(rng);
        let per = *rng.pick(&[2, 5, 20, 60]);
        visible(rng, n, level, cov)?;
        for _ in 0..4 {
            let t = round(rng, n, level, per, cov)?;
            cov.distinct(&format!("{n} {t}"));
            cov.count("concurrent rounds", 1);
        }
        return Ok(());
    }
    history(rng, cov)
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let (n, _) = conc::shape(rng);
    let mut cov = Cov::default();
    let per = rng.range(2, 5);
    let t = round(rng, n, 0, per, &mut cov)?;
    Ok(format!("threads={n} ops={} answers=#{t}", n * per))
}
