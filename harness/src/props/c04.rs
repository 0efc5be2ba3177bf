//! Random alternatives: their chances and their independence.
use std::sync::Mutex;

use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::system;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::model::{Body, Rule, Vocab};
use crate::rng::Rng;
use crate::stats;

/// A vocabulary of targets and marks. Alternative i leaves mark i.
struct Coin {
    v: Vocab,
    k: usize,
    p: Vec<f64>,
    chances: Vec<Option<u32>>,
}

impl Coin {
    /// Symbols: 0 and 1 are targets, 2.. are the marks.
    fn new(rng: &mut Rng, chances: Vec<Option<u32>>) -> Result<Coin, String> {
        let k = chances.len();
        let mut names = gen::names(rng, 2, Place::Text);
        names.extend((0..k).map(|i| format!("m{i}")));
        names.dedup();
        let v = Vocab::new(names)?;
        Ok(Coin { v, k, p: stats::expected(&chances), chances })
    }
    fn rule(&self, target: usize) -> Rule {
        Rule {
            pre: None,
            target,
            post: None,
            bodies: self.chances.iter().enumerate().map(|(i, c)| Body { chance: *c, syms: vec![2 + i] }).collect(),
        }
    }
    fn text(&self) -> String {
        let t: Vec<String> = self.chances.iter().take(30).map(|c| c.map_or("-".into(), |m| format!("{:.3}", m as f64 / 1000.0))).collect();
        format!("{} alternatives with chances [{}]", self.k, t.join(" "))
    }
    fn choices(&self, got: &ProductionString) -> Result<Vec<usize>, String> {
        let s = self.v.back(got)?;
        s.iter()
            .map(|x| x.checked_sub(2).ok_or_else(|| format!("{} was not replaced", self.v.names[*x])))
            .collect()
    }
}

fn once(sys: &System, s: ProductionString) -> Result<ProductionString, String> {
    lib("derive_once", || sys.derive_once(s).map_err(|e| e.to_string()))?
}

fn some_chances(rng: &mut Rng, k: usize) -> Vec<Option<u32>> {
    match rng.below(6) {
        0 => vec![None; k],
        1 => {
            // Exactly one in all, or nearly.
            let mut c: Vec<Option<u32>> = (0..k).map(|_| Some((1000 / k) as u32)).collect();
            c[rng.below(k)] = Some((1000 - (k - 1) * (1000 / k)) as u32);
            c
        }
        2 => {
            // One rare alternative.
            let mut c = vec![None; k];
            c[rng.below(k)] = Some(*rng.pick(&[1, 2, 5, 10, 990, 999]));
            c
        }
        _ => gen::chances(rng, k, false),
    }
}

/// Frequencies and independence within long and over many short strings.
fn distribution(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let k = *rng.pick(&[2, 2, 2, 3, 3, 4, 5, 7, 12, 40, 200]);
    let ch = some_chances(rng, k);
    let coin = Coin::new(rng, ch)?;
    let sys = System::new();
    gen::add_rule(rng, &sys, &coin.v, &coin.rule(0))?;
    gen::add_rule(rng, &sys, &coin.v, &coin.rule(1))?;
    let mult = if tier == Tier::Quick { 1 } else { 8 };
    let n = rng.range(20_000, 80_000) * mult;
    let what = coin.text();
    let mode = rng.below(6);
    match mode {
        // One long string, of one symbol or of two that have the same chances.
        0 | 1 => {
            let s: Vec<usize> = (0..n).map(|i| if mode == 0 { 0 } else { i % 2 }).collect();
            let got = coin.choices(&once(&sys, coin.v.string(&s))?)?;
            ensure!(got.len() == n, "{n} symbols became {}", got.len());
            stats::sequence(&got, &coin.p, &format!("{what}, in one string"))?;
            if mode == 1 {
                let a: Vec<usize> = got.iter().step_by(2).copied().collect();
                stats::sequence(&a, &coin.p, &format!("{what}, for one of two symbols"))?;
            }
        }
        // Many short strings: every position by itself, and all in sequence.
        2 => {
            let len = rng.range(1, 9);
            let mut by_pos = vec![vec![]; len];
            let mut all = vec![];
            for _ in 0..n / len {
                let got = coin.choices(&once(&sys, coin.v.string(&vec![0; len]))?)?;
                ensure!(got.len() == len, "{len} symbols became {}", got.len());
                for (p, x) in got.iter().enumerate() {
                    by_pos[p].push(*x);
                }
                all.extend(got);
            }
            for (p, s) in by_pos.iter().enumerate() {
                stats::sequence(s, &coin.p, &format!("{what}, at position {p} of strings of {len}"))?;
            }
            stats::sequence(&all, &coin.p, &format!("{what}, over many strings of {len}"))?;
        }
        // The rule by itself.
        3 => {
            let p = coin.rule(0).build(&coin.v)?;
            let mut seq = Vec::with_capacity(n);
            for _ in 0..n {
                let b = lib("Production::body", || p.body().map_err(|e| e.to_string()))??;
                let at = p.all_bodies().iter().position(|x| std::ptr::eq(x, b));
                seq.push(match at {
                    Some(i) => i,
                    None => coin.choices(b.string())?[0],
                });
            }
            stats::sequence(&seq, &coin.p, &format!("{what}, asking the rule"))?;
        }
        // Every step of a derivation leaves a mark.
        4 => {
            let sys = System::new();
            let mut r = coin.rule(0);
            for b in &mut r.bodies {
                b.syms.insert(0, 0);
            }
            gen::add_rule(rng, &sys, &coin.v, &r)?;
            let steps = rng.range(2, 60);
            let width = rng.range(1, 400);
            let mut runs: Vec<Vec<usize>> = vec![];
            let mut total = 0;
            while total < n {
                let s = coin.v.string(&vec![0; width]);
                let got = lib("derive", || sys.derive(s, RunSettings::for_max_iterations(steps)).map_err(|e| e.to_string()))??;
                let got = coin.v.back(&got)?;
                ensure!(got.len() == width * (steps + 1), "{width} symbols that leave one mark per step gave {} symbols after {steps} steps", got.len());
                for w in got.chunks(steps + 1) {
                    ensure!(w[0] == 0 && w[1..].iter().all(|x| *x >= 2), "{steps} steps gave {}", coin.v.show(w));
                    runs.push(w[1..].iter().map(|x| x - 2).collect());
                }
                total += width * steps;
            }
            let all: Vec<usize> = runs.iter().flatten().copied().collect();
            stats::sequence(&all, &coin.p, &format!("{what}, over {steps} steps of a derivation"))?;
            for st in [0, steps - 1, rng.below(steps)] {
                let one: Vec<usize> = runs.iter().map(|r| r[st]).collect();
                stats::sequence(&one, &coin.p, &format!("{what}, in one step of {steps}"))?;
            }
            let pairs: Vec<(usize, usize)> = runs.iter().map(|r| (r[steps - 1], r[steps - 2])).collect();
            stats::independent(&pairs, &coin.p, &coin.p, &format!("{what}, in the first and second step"))?;
        }
        // A list of rules, with contexts, one symbol among others.
        _ => {
            let mut r = coin.rule(0);
            r.pre = Some(vec![1]);
            let list = vec![r.build(&coin.v)?];
            let s: Vec<usize> = (0..2 * n).map(|i| (i + 1) % 2).collect();
            let got = lib("derive_once", || system::derive_once(coin.v.string(&s), &list).map_err(|e| e.to_string()))??;
            let got = coin.v.back(&got)?;
            let seq: Vec<usize> = got.iter().filter(|x| **x >= 2).map(|x| x - 2).collect();
            ensure!(seq.len() == n && got.len() == 2 * n, "{n} matches gave {} choices", seq.len());
            stats::sequence(&seq, &coin.p, &format!("{what}, in context"))?;
        }
    }
    cov.count("random choices", n as u64);
    cov.distinct(&format!("{what} {mode}"));
    cov.sample(|| format!("{what}, {n} choices, way {mode}"));
    Ok(())
}

/// Calls, systems and threads do not repeat each other's choices.
fn across(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let k = rng.range(2, 4);
    let ch = vec![None; k];
    let coin = Coin::new(rng, ch)?;
    let what = coin.text();
    let shared = System::new();
    gen::add_rule(rng, &shared, &coin.v, &coin.rule(0))?;
    let len = rng.range(64, 256);
    let s = vec![0; len];

    // Calls on one system, and on systems made alike.
    let mut calls = vec![];
    let mut systems = vec![];
    for _ in 0..40 {
        calls.push(coin.choices(&once(&shared, coin.v.string(&s))?)?);
        let own = System::new();
        gen::add_rule(rng, &own, &coin.v, &coin.rule(0))?;
        systems.push(coin.choices(&once(&own, coin.v.string(&s))?)?);
    }
    stats::unrelated(&calls, &coin.p, &format!("{what}, calls on one system"))?;
    stats::unrelated(&systems, &coin.p, &format!("{what}, systems made alike"))?;
    let mix: Vec<Vec<usize>> = calls.iter().zip(&systems).flat_map(|(a, b)| [a.clone(), b.clone()]).collect();
    stats::unrelated(&mix, &coin.p, &format!("{what}, one system and others"))?;
    for group in [&calls, &systems] {
        for pos in [0, 1, len - 1] {
            let seq: Vec<usize> = group.iter().map(|g| g[pos]).collect();
            stats::frequencies(&seq, &coin.p, &format!("{what}, at position {pos} of each call"))?;
        }
    }

    // Threads that run together, and threads that run one after the other.
    let nthreads = 8;
    for together in [true, false] {
        let out: Mutex<Vec<Result<Vec<usize>, String>>> = Mutex::new(vec![]);
        let work = || {
            let mut seq = vec![];
            for _ in 0..3 {
                match once(&shared, coin.v.string(&s)).and_then(|g| coin.choices(&g)) {
                    Ok(g) => seq.extend(g),
                    Err(e) => {
                        out.lock().unwrap().push(Err(e));
                        return;
                    }
                }
            }
            out.lock().unwrap().push(Ok(seq));
        };
        std::thread::scope(|sc| {
            let mut handles = vec![];
            for _ in 0..nthreads {
                let h = sc.spawn(work);
                if together {
                    handles.push(h);
                } else {
                    let _ = h.join();
                }
            }
        });
        let seqs = out.into_inner().unwrap().into_iter().collect::<Result<Vec<_>, _>>()?;
        stats::unrelated(&seqs, &coin.p, &format!("{what}, threads"))?;
        for q in &seqs {
            stats::sequence(q, &coin.p, &format!("{what}, on one thread of {nthreads}"))?;
        }
        let all: Vec<usize> = seqs.concat();
        stats::sequence(&all, &coin.p, &format!("{what}, on all threads"))?;
    }

    // The first choice of many threads.
    let count = if tier == Tier::Quick { 200 } else { 1000 };
    let mut first = vec![];
    for _ in 0..count {
        let r = std::thread::scope(|sc| {
            sc.spawn(|| once(&shared, coin.v.string(&[0, 0])).and_then(|g| coin.choices(&g))).join()
        });
        let g = r.map_err(|_| "harness: a thread failed".to_string())??;
        ensure!(g.len() == 2, "2 symbols became {}", g.len());
        first.push(g);
    }
    let a: Vec<usize> = first.iter().map(|g| g[0]).collect();
    stats::sequence(&a, &coin.p, &format!("{what}, the first choice of each new thread"))?;
    cov.count("random choices", (80 * len + 2 * 3 * 8 * len + count * 2) as u64);
    cov.count("threads", count as u64 + 16);
    cov.distinct(&format!("{what} {len}"));
    Ok(())
}

/// Other processes do not repeat the choices of this one.
fn processes(rng: &mut Rng, cov: &mut Cov) -> Case {
    if cfg!(miri) || std::env::var_os("MON_SANITIZED").is_some() {
        return Ok(());
    }
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut seqs = vec![draws(256)?];
    for _ in 0..rng.range(3, 6) {
        let out = std::process::Command::new(&exe).arg("DRAWS").output().expect("harness: cannot run itself");
        assert!(out.status.success(), "harness: the child failed");
        seqs.push(out.stdout.iter().map(|b| (*b - b'0') as usize).collect());
    }
    seqs.push(draws(256)?);
    for q in &seqs {
        assert_eq!(q.len(), 256);
    }
    stats::unrelated(&seqs, &[0.5, 0.5], "a fair choice in several processes")?;
    cov.count("processes compared", seqs.len() as u64 - 1);
    Ok(())
}

pub fn draws(n: usize) -> Result<Vec<usize>, String> {
    let v = Vocab::new(vec!["coin".into(), "tossed".into(), "heads".into(), "tails".into()])?;
    let sys = System::new();
    for t in ["coin -> heads", "coin -> tails"] {
        lib("add", || sys.add_production(t).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    let got = once(&sys, v.string(&vec![0; n]))?;
    Ok(v.back(&got)?.iter().map(|x| x.saturating_sub(2)).collect())
}

/// What totals are accepted, and which are refused.
fn totals(rng: &mut Rng, cov: &mut Cov) -> Case {
    let over = rng.chance(1, 2);
    let k = *rng.pick(&[2, 2, 3, 3, 5, 6, 7, 9, 10, 11, 30, 60, 100, 333, 700, 1000]);
    let mut c: Vec<Option<u32>> = if over {
        gen::chances(rng, k, true)
    } else if rng.chance(3, 4) {
        // Stated for all of them, totalling exactly one.
        let mut parts = vec![1u32; k];
        let mut left = 1000 - k as u32;
        let even = rng.chance(1, 2);
        for (i, p) in parts.iter_mut().enumerate() {
            let give = if i + 1 == k {
                left
            } else if even {
                (left / (k - i) as u32).min(left)
            } else {
                rng.below(left as usize + 1) as u32
            };
            *p += give;
            left -= give;
        }
        rng.shuffle(&mut parts);
        parts.into_iter().map(Some).collect()
    } else {
        gen::chances(rng, k, false)
    };
    if over && rng.chance(1, 2) {
        c.push(None);
        rng.shuffle(&mut c);
    }
    let stated: u32 = c.iter().flatten().sum();
    assert!(over == (stated > 1000), "harness: {stated}");
    let coin = Coin::new(rng, c)?;
    let what = coin.text();
    let sys = System::new();
    gen::add_rule(rng, &sys, &coin.v, &coin.rule(0))?;
    // Does not concern strings in which the rule does not apply.
    let other = once(&sys, coin.v.string(&[1, 2, 1])).map_err(|e| format!("{what}: a string it does not apply to is refused: {e}"))?;
    ensure!(coin.v.back(&other)? == [1, 2, 1], "{what}: a string it does not apply to became {other}");
    let p: Production = coin.rule(0).build(&coin.v)?;
    // A rule that gets there in the second step.
    let r = Rule { pre: None, target: 1, post: None, bodies: vec![Body { chance: None, syms: vec![0] }] };
    gen::add_rule(rng, &sys, &coin.v, &r)?;
    for round in 0..30 {
        let s: Vec<usize> = match round % 3 {
            0 => vec![0],
            1 => vec![2, 0, 2],
            _ => vec![1, 2, 0],
        };
        let got = once(&sys, coin.v.string(&s));
        let body = lib("Production::body", || p.body().map(|b| b.len()).map_err(|e| e.to_string()))?;
        let deep = lib("derive", || sys.derive(coin.v.string(&[1]), RunSettings::from(2)).map_err(|e| e.to_string()))?;
        let shallow = lib("derive", || sys.derive(coin.v.string(&[1]), RunSettings::from(1)).map_err(|e| e.to_string()))?;
        ensure!(shallow.is_ok(), "{what}: a step before it applies is refused");
        if over {
            ensure!(got.is_err(), "{what}: they total {stated}/1000, yet {} became {}", coin.v.show(&s), got.unwrap());
            ensure!(body.is_err(), "{what}: they total {stated}/1000, yet the rule chose");
            ensure!(deep.is_err(), "{what}: they total {stated}/1000, yet the derivation reached {}", deep.unwrap());
        } else {
            ensure!(got.is_ok(), "{what}: they total {stated}/1000, yet {} is refused: {}", coin.v.show(&s), got.unwrap_err());
            ensure!(body.is_ok() && deep.is_ok(), "{what}: they total {stated}/1000, yet choosing is refused");
        }
    }
    // An alternative by itself applies whatever its chance.
    let solo = System::new();
    let m = rng.range(1, 1000) as u32;
    let r = Rule { pre: None, target: 0, post: None, bodies: vec![Body { chance: Some(m), syms: vec![2] }] };
    gen::add_rule(rng, &solo, &coin.v, &r)?;
    let got = once(&solo, coin.v.string(&vec![0; 200]))?;
    ensure!(coin.v.back(&got)? == vec![2; 200], "a rule with one alternative of chance {m}/1000 did not always apply");
    cov.count(if over { "totals above one" } else { "totals of at most one" }, 1);
    cov.distinct(&what);
    Ok(())
}

/// Equal alternatives are still separate ones, and empty bodies are alternatives.
fn equal_bodies(rng: &mut Rng, cov: &mut Cov) -> Case {
    let k = rng.range(2, 6);
    let ch = gen::chances(rng, k, false);
    let coin = Coin::new(rng, ch)?;
    let mut r = coin.rule(0);
    // Alternatives show as mark 0, mark 1 or as nothing at all, next to a fixed symbol.
    let shows: Vec<usize> = (0..k).map(|_| rng.below(3)).collect();
    for (b, s) in r.bodies.iter_mut().zip(&shows) {
        b.syms = match s {
            0 => vec![1, 2],
            1 => vec![1, 3],
            _ => vec![1],
        };
    }
    let sys = System::new();
    gen::add_rule(rng, &sys, &coin.v, &r)?;
    let n = 20_000;
    let got = coin.v.back(&once(&sys, coin.v.string(&vec![0; n]))?)?;
    let mut seq = vec![];
    let mut i = 0;
    while i < got.len() {
        ensure!(got[i] == 1, "unexpected {}", coin.v.names[got[i]]);
        match got.get(i + 1) {
            Some(2) => {
                seq.push(0);
                i += 2;
            }
            Some(3) => {
                seq.push(1);
                i += 2;
            }
            _ => {
                seq.push(2);
                i += 1;
            }
        }
    }
    ensure!(seq.len() == n, "{n} symbols gave {} choices", seq.len());
    let mut p = vec![0.0; 3];
    for (s, q) in shows.iter().zip(&coin.p) {
        p[*s] += q;
    }
    stats::sequence(&seq, &p, &format!("{}, shown as {shows:?}", coin.text()))?;
    cov.count("random choices", n as u64);
    cov.distinct(&format!("{}{shows:?}", coin.text()));
    Ok(())
}

/// No choice repeats an earlier one, however far apart the two are.
fn every_distance(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let coin = Coin::new(rng, vec![None; 2])?;
    let sys = System::new();
    gen::add_rule(rng, &sys, &coin.v, &coin.rule(0))?;
    let n = if tier == Tier::Quick { 1 << 17 } else { 1 << 19 };
    let piece = *rng.pick(&[1, 7, 256, 5000, 1 << 16, n]);
    let mut seq = Vec::with_capacity(n + piece);
    while seq.len() < n {
        seq.extend(coin.choices(&once(&sys, coin.v.string(&vec![0; piece]))?)?);
    }
    seq.truncate(n);
    stats::every_lag(&seq, &format!("a fair choice, in strings of {piece}"))?;
    cov.count("random choices", n as u64);
    cov.max("distances between choices", n as u64 / 2);
    cov.distinct(&format!("every distance {piece} {:?}", coin.v.names));
    Ok(())
}

/// Each of very many alternatives is chosen as often as the others.
fn many_alternatives(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let k = *rng.pick(&[127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025]);
    let k = if rng.chance(1, 8) { 3000 } else { k };
    let coin = Coin::new(rng, vec![None; k])?;
    let sys = System::new();
    gen::add_rule(rng, &sys, &coin.v, &coin.rule(0))?;
    let n = 200 * k * if tier == Tier::Quick { 1 } else { 4 };
    let got = coin.choices(&once(&sys, coin.v.string(&vec![0; n]))?)?;
    ensure!(got.len() == n, "{n} symbols became {}", got.len());
    stats::frequencies(&got, &coin.p, &format!("{k} equal alternatives"))?;
    cov.count("random choices", n as u64);
    cov.max("alternatives", k as u64);
    cov.distinct(&format!("many alternatives {k} {n}"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    match i % 100 {
        22 => return every_distance(rng, cov, tier),
        44 => return many_alternatives(rng, cov, tier),
        _ => {}
    }
    match i % 20 {
        0..=7 => distribution(rng, cov, tier),
        8 => across(rng, cov, tier),
        9 => processes(rng, cov),
        10..=12 => equal_bodies(rng, cov),
        _ => totals(rng, cov),
    }
}
