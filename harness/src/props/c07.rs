//! Derivations while rules are being added.
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicBool, Ordering};

use rusty_systems::prelude::*;

use crate::conc::{self, tick};
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::model::Vocab;
use crate::rng::Rng;

enum Event {
    Added(usize, u64, u64),
    /// The rules a derivation used.
    Derived(BTreeSet<usize>, u64, u64),
    Counted(usize, u64, u64),
}

/// Reads from the result which rules were in force: T_k leaves a mark in every step and every
/// copy, or nowhere.
fn used(v: &Vocab, k: usize, copies: usize, iters: usize, got: &ProductionString) -> Result<BTreeSet<usize>, String> {
    let s = v.back(got)?;
    let mut at = 0;
    let mut used = BTreeSet::new();
    for copy in 0..copies {
        for t in 0..k {
            ensure!(s.get(at) == Some(&t), "T{t} is missing in {}", v.show(&s));
            at += 1;
            let start = at;
            while s.get(at) == Some(&(k + t)) {
                at += 1;
            }
            let n = at - start;
            ensure!(
                n == 0 || n == iters,
                "the rule for T{t} was in force in {n} of {iters} steps of one derivation (copy {copy})"
            );
            if copy == 0 && n > 0 {
                used.insert(t);
            }
            ensure!(
                used.contains(&t) == (n > 0),
                "the rule for T{t} was in force for one of its places and not for another in the same derivation"
            );
        }
    }
    ensure!(at == s.len(), "more symbols than expected: {}", v.show(&s));
    Ok(used)
}

fn run(rng: &mut Rng, adders: usize, derivers: usize, level: u32, k: usize, iters: usize, copies: usize, cov: &mut Cov) -> Result<String, String> {
    let mut names: Vec<String> = (0..k).map(|i| format!("T{i}")).collect();
    names.extend((0..k).map(|i| format!("M{i}")));
    let v = Vocab::new(names)?;
    let sys = System::new();
    let salt = rng.next();
    let done = AtomicBool::new(false);
    let left = std::sync::atomic::AtomicUsize::new(adders);
    let by_step = rng.chance(1, 4);
    let axiom: Vec<usize> = (0..copies).flat_map(|_| 0..k).collect();
    let rounds = if cfg!(miri) { 2 } else { 12 };
    let out = conc::threads(adders + derivers, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut ev = vec![];
        if t < adders {
            let mut mine: Vec<usize> = (0..k).filter(|i| i % adders == t).collect();
            rng.shuffle(&mut mine);
            for i in mine {
                if !cfg!(miri) {
                    for _ in 0..rng.below(3) * 400 {
                        std::hint::spin_loop();
                    }
                    if rng.chance(1, 6) {
                        std::thread::yield_now();
                    }
                }
                let text = format!("T{i} -> T{i} M{i}");
                let start = tick();
                lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("{text:?} is refused: {e}"))?;
                let end = tick();
                ev.push(Event::Added(i, start, end));
            }
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                done.store(true, Ordering::SeqCst);
            }
            return Ok(ev);
        }
        for round in 0..rounds {
            let last = done.load(Ordering::SeqCst);
            let n = if by_step { 1 } else { iters };
            let start = tick();
            let got = lib("derive", || {
                if by_step {
                    sys.derive_once(v.string(&axiom)).map_err(|e| e.to_string())
                } else {
                    sys.derive(v.string(&axiom), RunSettings::for_max_iterations(n)).map_err(|e| e.to_string())
                }
            })?
            .map_err(|e| format!("a derivation is refused: {e}"))?;
            let end = tick();
            ev.push(Event::Derived(used(&v, k, copies, n, &got)?, start, end));
            let start = tick();
            let c = lib("production_len", || sys.production_len())?;
            ev.push(Event::Counted(c, start, tick()));
            if last && round > 0 {
                break;
            }
        }
        Ok(ev)
    })?;
    let mut added: Vec<(usize, u64, u64)> = vec![];
    let mut derived = vec![];
    let mut counted = vec![];
    for e in out.into_iter().flatten() {
        match e {
            Event::Added(i, s, e) => added.push((i, s, e)),
            Event::Derived(u, s, e) => derived.push((u, s, e)),
            Event::Counted(c, s, e) => counted.push((c, s, e)),
        }
    }
    judge(k, &added, &derived, &counted, cov)
}

/// One order of additions must explain what all derivations used and all counts.
fn judge(k: usize, added: &[(usize, u64, u64)], derived: &[(BTreeSet<usize>, u64, u64)], counted: &[(usize, u64, u64)], cov: &mut Cov) -> Result<String, String> {
    for (u, s, e) in derived {
        for (i, a, b) in added {
            if b < s {
                ensure!(u.contains(i), "the rule for T{i} had been added before a derivation began that did not use it");
            }
            if a > e {
                ensure!(!u.contains(i), "a derivation used the rule for T{i}, whose addition began after it had ended");
            }
        }
        for (c, a, b) in counted {
            if b < s {
                ensure!(*c <= u.len(), "{c} rules were counted before a derivation began that used {}", u.len());
            }
            if a > e {
                ensure!(*c >= u.len(), "{c} rules were counted after a derivation had ended that used {}", u.len());
            }
        }
        if u.len() < k && !u.is_empty() {
            cov.count("derivations between additions", 1);
        }
    }
    for (c, s, e) in counted {
        let lo = added.iter().filter(|(_, _, b)| b < s).count();
        let hi = added.iter().filter(|(_, a, _)| a < e).count();
        ensure!(lo <= *c && *c <= hi, "{c} rules were counted when between {lo} and {hi} had been added");
        for (c2, s2, _) in counted {
            ensure!(!(e < s2 && c2 < c), "{c} rules were counted, and later {c2}");
        }
    }
    // All derivations see the same order of additions.
    let mut by_size: Vec<&(BTreeSet<usize>, u64, u64)> = derived.iter().collect();
    by_size.sort_by_key(|d| d.0.len());
    for w in by_size.windows(2) {
        ensure!(
            w[0].0.is_subset(&w[1].0),
            "no order of additions explains both a derivation with the rules {:?} and one with {:?}",
            w[0].0,
            w[1].0
        );
    }
    for (a, _, e) in derived {
        for (b, s, _) in derived {
            ensure!(!(e < s && !a.is_subset(b)), "a derivation used the rules {a:?}, and a later one only {b:?}");
        }
    }
    cov.count("derivations", derived.len() as u64);
    cov.count("additions", added.len() as u64);
    let trail = derived.iter().map(|d| d.0.len().to_string()).collect::<Vec<_>>().join(",");
    Ok(trail)
}

/// Very long derivations. A rule brings a symbol into a circle, in which it goes on with every step: where it ends tells
/// when it entered.
fn long(rng: &mut Rng, nthreads: usize, level: u32, cov: &mut Cov, tier: Tier) -> Result<String, String> {
    let k = rng.range(1, 6);
    let around = *rng.pick(&[3, 5, 7, 11]);
    let iters = if cfg!(miri) { rng.range(5, 60) } else { rng.range(200, if tier == Tier::Quick { 40_000 } else { 400_000 }) };
    let mut names: Vec<String> = (0..k).map(|i| format!("T{i}")).collect();
    names.extend((0..around).map(|i| format!("circle{i}")));
    let v = Vocab::new(names)?;
    let sys = System::new();
    for i in 0..around {
        let text = format!("circle{i} -> circle{}", (i + 1) % around);
        lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    let axiom: Vec<usize> = (0..k).collect();
    let adders = rng.range(1, nthreads.max(2) - 1);
    let derivers = rng.range(1, 3);
    // How long one takes decides over the delays.
    let t0 = std::time::Instant::now();
    let _ = lib("derive", || sys.derive(v.string(&axiom), RunSettings::from(iters)).map(|_| ()).map_err(|e| e.to_string()))??;
    let took = t0.elapsed().as_micros() as usize + 1;
    let salt = rng.next();
    let out = conc::threads(adders + derivers, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "long", t as u64);
        let mut ev = vec![];
        if t < adders {
            for i in (0..k).filter(|i| i % adders == t) {
                std::thread::sleep(std::time::Duration::from_micros(rng.below(took * 2) as u64));
                let text = format!("T{i} -> circle0");
                let start = tick();
                lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("{text:?} is refused: {e}"))?;
                ev.push(Event::Added(i, start, tick()));
            }
            return Ok(ev);
        }
        for _ in 0..4 {
            let start = tick();
            let got = lib("derive", || sys.derive(v.string(&axiom), RunSettings::from(iters)).map_err(|e| e.to_string()))?
                .map_err(|e| format!("a derivation is refused: {e}"))?;
            let end = tick();
            let got = v.back(&got)?;
            ensure!(got.len() == k, "{iters} steps give {}", v.show(&got));
            let mut used = BTreeSet::new();
            for (i, s) in got.iter().enumerate() {
                if *s == k + (iters - 1) % around {
                    used.insert(i);
                } else {
                    ensure!(*s == i, "the rule for T{i} was in force for some of the {iters} steps of one derivation, but not from the first: {}", v.show(&got));
                }
            }
            ev.push(Event::Derived(used, start, end));
        }
        Ok(ev)
    })?;
    let (mut added, mut derived) = (vec![], vec![]);
    for e in out.into_iter().flatten() {
        match e {
            Event::Added(i, s, e) => added.push((i, s, e)),
            Event::Derived(u, s, e) => derived.push((u, s, e)),
            Event::Counted(..) => {}
        }
    }
    for (_, s, e) in &derived {
        if added.iter().any(|(_, a, b)| s < b && a < e) {
            cov.count("long derivations with additions meanwhile", 1);
        }
    }
    cov.max("steps of a derivation", iters as u64);
    judge(k, &added, &derived, &[], cov)
}

/// One rule that gets more and more alternatives. Of those in force, each is chosen by some of the very many
/// symbols, in every step.
fn alternatives(rng: &mut Rng, nthreads: usize, level: u32, cov: &mut Cov) -> Result<String, String> {
    let k = rng.range(2, 9);
    let copies = 60 * k;
    let mut names: Vec<String> = vec!["T".into()];
    names.extend((0..k).map(|i| format!("M{i}")));
    let v = Vocab::new(names)?;
    let sys = System::new();
    // Another rule, so that the number of rules is not that of the additions.
    let noise = rng.below(3);
    for i in 0..noise {
        let text = format!("Z{i} -> Z{i} Z{i}");
        lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    let input = v.string(&vec![0; copies]);
    let salt = rng.next();
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "alternatives", t as u64);
        let mut ev = vec![];
        let mut mine: Vec<usize> = (0..k).filter(|i| i % nthreads == t).collect();
        rng.shuffle(&mut mine);
        let mut rounds = 6;
        while !mine.is_empty() || rounds > 0 {
            if rng.chance(1, 2) && !mine.is_empty() {
                let i = mine.pop().unwrap();
                let text = format!("T -> T M{i}");
                let start = tick();
                lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("{text:?} is refused: {e}"))?;
                ev.push(Event::Added(i, start, tick()));
                continue;
            }
            rounds -= (rounds > 0) as usize;
            let n = rng.below(4);
            let start = tick();
            let got = lib("derive", || {
                if n == 0 {
                    sys.derive_once(input.clone()).map_err(|e| e.to_string())
                } else {
                    sys.derive(input.clone(), RunSettings::from(n)).map_err(|e| e.to_string())
                }
            })?
            .map_err(|e| format!("a derivation is refused: {e}"))?;
            let end = tick();
            let n = n.max(1);
            let got = v.back(&got)?;
            if got.len() == copies {
                ensure!(got.iter().all(|x| *x == 0), "{copies} times T became {}", v.show(&got));
                ev.push(Event::Derived(BTreeSet::new(), start, end));
                continue;
            }
            ensure!(got.len() == copies * (n + 1), "{n} steps of {copies} times T, which leaves one mark with each step, give {} symbols", got.len());
            // What was left first is last.
            let mut steps = vec![BTreeSet::new(); n];
            for c in got.chunks(n + 1) {
                ensure!(c[0] == 0 && c[1..].iter().all(|x| *x > 0), "{n} steps of T give {}", v.show(c));
                for (s, x) in steps.iter_mut().zip(&c[1..]) {
                    s.insert(x - 1);
                }
            }
            for s in &steps {
                ensure!(*s == steps[0], "alternatives {:?} were chosen among in one step of a derivation, and {s:?} in another", steps[0]);
            }
            ev.push(Event::Derived(steps.swap_remove(0), start, end));
        }
        Ok(ev)
    })?;
    let (mut added, mut derived) = (vec![], vec![]);
    for e in out.into_iter().flatten() {
        match e {
            Event::Added(i, s, e) => added.push((i, s, e)),
            Event::Derived(u, s, e) => derived.push((u, s, e)),
            Event::Counted(..) => {}
        }
    }
    judge(k, &added, &derived, &[], cov).map_err(|e| format!("alternatives M0, M1... of one rule for T, here called rules for T0, T1...: {e}"))
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 20 == 3 {
        let (n, level) = conc::shape(rng);
        let t = long(rng, n.min(8), level, cov, tier)?;
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("long {t}"));
        return Ok(());
    }
    if i % 10 == 4 {
        let (n, level) = conc::shape(rng);
        let n = if rng.chance(1, 3) { 1 } else { n.min(8) };
        let t = alternatives(rng, n, level, cov)?;
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("alternatives {n} {t}"));
        return Ok(());
    }
    for _ in 0..4 {
        let (n, level) = conc::shape(rng);
        let adders = rng.range(1, n.max(2) - 1);
        let derivers = (n.max(2) - adders).max(1);
        let k = *rng.pick(&[1, 2, 4, 10, 30]);
        let iters = *rng.pick(&[1, 2, 3, 5, 10, 20]);
        let copies = *rng.pick(&[1, 2, 3, 8]);
        let t = run(rng, adders, derivers, level, k, iters, copies, cov)?;
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("{adders} {derivers} {k} {iters} {t}"));
        cov.sample(|| format!("{adders} threads add {k} rules, {derivers} derive {iters} steps; rules in force per derivation: {t}"));
    }
    Ok(())
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let mut cov = Cov::default();
    let adders = rng.range(1, 2);
    let iters = rng.range(2, 3);
    let t = run(rng, adders, 1, 0, 2, iters, 1, &mut cov)?;
    let between = cov.counts.get("derivations between additions").copied().unwrap_or(0);
    Ok(format!("adders={adders} between={between} seen={t}"))
}
