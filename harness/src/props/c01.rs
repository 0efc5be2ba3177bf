//! One derivation step against the reference model.
use rusty_systems::prelude::*;
use rusty_systems::system;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{self, Body, Rule, Rules, Vocab};
use crate::rng::Rng;

fn step(v: &Vocab, sys: &System, rules: &Rules, s: &[usize], cov: &mut Cov, what: &str) -> Result<Option<Vec<usize>>, String> {
    let input = v.string(s);
    // A derivation of one step is that step.
    let got = if cov.counts.get("steps").is_some_and(|n| n % 7 == 3) {
        lib("derive", || sys.derive(input, RunSettings::for_max_iterations(1)).map_err(|e| e.to_string()))?
    } else {
        lib("derive_once", || sys.derive_once(input).map_err(|e| e.to_string()))?
    };
    cov.count("steps", 1);
    cov.count("symbols rewritten", s.len() as u64);
    cov.max("longest string", s.len() as u64);
    cov.max("most rules", rules.0.len() as u64);
    model::check_step(v, &rules.0, s, got, what)
}

/// Systems share the vocabulary and are used in turn, so that anything kept between calls shows.
fn history(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(1, 8);
    let v = gen::vocab(rng, n, Place::Text)?;
    let pool = rng.range(1, 4);
    let mut systems: Vec<(System, Rules)> = (0..pool).map(|_| (System::new(), Rules::default())).collect();
    let shape = Shape {
        contexts: *rng.pick(&[0, 1, 2, 3, 6]),
        alternatives: *rng.pick(&[1, 1, 2, 5]),
        body: *rng.pick(&[1, 2, 4, 9]),
        over: rng.chance(1, 3),
    };
    let ops = if tier == Tier::Thorough && rng.chance(1, 20) { rng.range(200, 600) } else { rng.range(5, 50) };
    let mut key = String::new();
    let mut last: Vec<usize> = vec![];
    for op in 0..ops {
        let which = rng.below(pool);
        let (sys, rules) = &mut systems[which];
        if rng.chance(1, 3) && rules.0.len() < 60 {
            let mut r = gen::rule(rng, &v, shape);
            if !rules.0.is_empty() && rng.chance(1, 4) {
                // Another alternative for a rule that is there.
                let o = rng.pick(&rules.0).clone();
                r = Rule { bodies: r.bodies, ..o };
            }
            let i = rules.add(&r);
            let got = gen::add_rule(rng, sys, &v, &r)?;
            model::check_rule(&v, &rules.0[i], &got, "rule returned by the addition")?;
            let len = lib("production_len", || sys.production_len())?;
            ensure!(len == rules.0.len(), "{} rules counted instead of {}", len, rules.0.len());
            cov.count("rules added", 1);
            key += &r.show(&v);
        } else {
            let s = if rng.chance(1, 3) {
                last.clone()
            } else {
                let len = gen::length(rng, 12, 300);
                gen::string_for(rng, v.len(), &rules.0, len)
            };
            key += &format!("/{which}:{}", v.show(&s));
            let what = format!("operation {op}, system {which}");
            if rng.chance(1, 4) {
                // The free function over an explicit list, where equal heads are not merged.
                let mut list = rules.0.clone();
                if rng.chance(1, 2) {
                    list.push(gen::rule(rng, &v, shape));
                    rng.shuffle(&mut list);
                }
                let real = list.iter().map(|r| r.build(&v)).collect::<Result<Vec<_>, _>>()?;
                let input = v.string(&s);
                for i in 0..s.len().min(40) {
                    let found = lib("find_matching", || system::find_matching(&real, &input, i))?;
                    let at = found.map(|f| (f as *const _ as usize - real.as_ptr() as usize) / std::mem::size_of_val(f));
                    let want = model::find(&list, &s, i);
                    ensure!(at == want, "find_matching at {i} of {}: rule {at:?} instead of {want:?}; rules: {}", v.show(&s), list.iter().map(|r| r.show(&v)).collect::<Vec<_>>().join("; "));
                }
                let got = lib("derive_once", || system::derive_once(input, &real).map_err(|e| e.to_string()))?;
                cov.count("steps over a list of rules", 1);
                model::check_step(&v, &list, &s, got, &what)?;
                continue;
            }
            if let Some(out) = step(&v, sys, rules, &s, cov, &what)? {
                last = if out.len() <= 400 { out } else { out[..400].to_vec() };
            }
        }
    }
    cov.distinct(&key);
    cov.sample(|| key.clone());
    Ok(())
}

/// Every string up to a length over a small alphabet.
fn exhaustive(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(2, 3);
    let v = gen::vocab(rng, n, Place::Text)?;
    let shape = Shape { contexts: rng.range(0, 2), alternatives: 1, body: 2, over: false };
    let sys = System::new();
    let mut rules = Rules::default();
    for _ in 0..rng.range(1, 6) {
        let r = gen::rule(rng, &v, shape);
        rules.add(&r);
        gen::add_rule(rng, &sys, &v, &r)?;
    }
    let top = match (n, tier) {
        (2, Tier::Quick) => 8,
        (2, Tier::Thorough) => 11,
        (_, Tier::Quick) => 5,
        _ => 7,
    };
    for len in 0..=top {
        for code in 0..(n as u64).pow(len as u32) {
            let mut c = code;
            let s: Vec<usize> = (0..len)
                .map(|_| {
                    let x = (c % n as u64) as usize;
                    c /= n as u64;
                    x
                })
                .collect();
            step(&v, &sys, &rules, &s, cov, "exhaustive")?;
        }
    }
    cov.distinct(&rules.0.iter().map(|r| r.show(&v)).collect::<Vec<_>>().join(";"));
    Ok(())
}

fn long(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(2, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let shape = Shape { contexts: *rng.pick(&[0, 1, 4, 20]), alternatives: *rng.pick(&[1, 3]), body: 3, over: false };
    let sys = System::new();
    let mut rules = Rules::default();
    for _ in 0..rng.range(1, 5) {
        let mut r = gen::rule(rng, &v, shape);
        if shape.alternatives > 1 {
            // All alternatives of a symbol are equally long, which keeps the question of
            // whether a result is possible easy to decide.
            let len = 1 + r.target % 3;
            for b in &mut r.bodies {
                b.syms = gen::syms(rng, n, len);
            }
        } else if rules.0.iter().any(|x| x.same_head(&r)) {
            continue;
        }
        rules.add(&r);
        gen::add_rule(rng, &sys, &v, &r)?;
    }
    // Asking about contexts costs the whole prefix in the current code, so those stay shorter.
    let top = match (shape.contexts, tier) {
        (0, Tier::Quick) => 100_000,
        (0, Tier::Thorough) => 1_200_000,
        (_, Tier::Quick) => 5_000,
        _ => 12_000,
    };
    let len = if rng.chance(1, 2) { top } else { rng.range(top / 20, top) };
    let s = gen::string_for(rng, n, &rules.0, len);
    if rules.0.iter().any(|r| r.total() > 1000) {
        return Ok(());
    }
    step(&v, &sys, &rules, &s, cov, "long string")?;
    cov.distinct(&format!("{len}{}", rules.0[0].show(&v)));
    Ok(())
}

/// Strings and results of more than a million symbols.
fn huge(rng: &mut Rng, cov: &mut Cov, top: bool) -> Case {
    let n = rng.range(2, 5);
    let v = gen::vocab(rng, n, Place::Text)?;
    let sys = System::new();
    let mut rules = Rules::default();
    let want = if top { (1 << 24) + rng.range(1, 1000) } else { (1 << 20) + rng.range(1, 500_000) };
    let body = rng.range(2, 3000);
    for (target, len) in [(0, body), (1, rng.range(0, 2))] {
        let r = Rule { pre: None, target, post: None, bodies: vec![Body { chance: None, syms: gen::syms(rng, n, len) }] };
        rules.add(&r);
        gen::add_rule(rng, &sys, &v, &r)?;
    }
    let k = want / body + 1;
    let mut s = vec![0; k];
    for _ in 0..rng.below(k / 10 + 2) {
        s.push(rng.below(n));
    }
    for _ in 0..rng.below(20) {
        let at = rng.below(s.len());
        s[at] = rng.below(n);
    }
    if let Some(out) = step(&v, &sys, &rules, &s, cov, "huge string")? {
        cov.max("longest result", out.len() as u64);
        if !top {
            // And the result by itself.
            let out: Vec<usize> = out.into_iter().map(|x| if x == 0 { 1 } else { x }).collect();
            step(&v, &sys, &rules, &out, cov, "huge string")?;
        }
    }
    cov.distinct(&format!("huge {want} {body}"));
    Ok(())
}

fn many_rules(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(10, 400);
    let v = gen::vocab(rng, n, Place::Text)?;
    let sys = System::new();
    let mut rules = Rules::default();
    let shape = Shape { contexts: *rng.pick(&[0, 0, 1, 3]), alternatives: 2, body: 3, over: true };
    let count = if tier == Tier::Quick { rng.range(50, 500) } else { rng.range(50, 2000) };
    for k in 0..count {
        let mut r = gen::rule(rng, &v, shape);
        if rng.chance(1, 3) {
            r.target = k % n;
        }
        rules.add(&r);
        gen::add_rule(rng, &sys, &v, &r)?;
        if k % 97 == 0 {
            let s = gen::string_for(rng, n, &rules.0, 20);
            step(&v, &sys, &rules, &s, cov, "many rules, while adding")?;
        }
    }
    // Without the refused rules, so that a step as a whole succeeds.
    for _ in 0..4 {
        let bad: Vec<usize> = rules.0.iter().filter(|r| r.total() > 1000 && r.bodies.len() > 1).map(|r| r.target).collect();
        let len = rng.range(1, 300);
        let s: Vec<usize> = gen::string_for(rng, n, &rules.0, len).into_iter().filter(|x| !bad.contains(x)).collect();
        step(&v, &sys, &rules, &s, cov, "many rules")?;
    }
    cov.distinct(&format!("{count} {} {}", rules.0.len(), rules.0[0].show(&v)));
    Ok(())
}

fn big_bodies(rng: &mut Rng, cov: &mut Cov) -> Case {
    let n = rng.range(2, 5);
    let v = gen::vocab(rng, n, Place::Text)?;
    let sys = System::new();
    let mut rules = Rules::default();
    let k = rng.range(1, 3);
    for _ in 0..k {
        let alts = rng.range(1, 40);
        let big = rng.chance(1, 2);
        let bodies = gen::chances(rng, alts, false)
            .into_iter()
            .map(|chance| {
                let len = if big { gen::length(rng, 50, 5000) } else { rng.range(0, 3) };
                Body { chance, syms: gen::syms(rng, n, len) }
            })
            .collect();
        let r = Rule { pre: None, target: rng.below(n), post: None, bodies };
        let over = rules.0.iter().filter(|x| x.same_head(&r)).map(|x| x.total()).sum::<u32>() + r.total() > 1000;
        if !over {
            rules.add(&r);
            gen::add_rule(rng, &sys, &v, &r)?;
        }
    }
    for _ in 0..5 {
        let len = rng.range(1, 20);
        let s = gen::syms(rng, n, len);
        step(&v, &sys, &rules, &s, cov, "big bodies")?;
    }
    cov.distinct(&format!("{:?}", rules.0.iter().map(|r| r.bodies.len()).collect::<Vec<_>>()));
    Ok(())
}

/// One system used for very many steps.
fn long_life(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(2, 5);
    let v = gen::vocab(rng, n, Place::Text)?;
    let shape = Shape { contexts: *rng.pick(&[0, 2]), alternatives: *rng.pick(&[1, 2]), body: 2, over: false };
    let sys = System::new();
    let mut rules = Rules::default();
    for _ in 0..4 {
        let r = gen::rule(rng, &v, shape);
        rules.add(&r);
        gen::add_rule(rng, &sys, &v, &r)?;
    }
    for i in 0..if tier == Tier::Quick { 5_000 } else { 80_000 } {
        let len = rng.range(0, 6);
        let s = gen::string_for(rng, n, &rules.0, len);
        step(&v, &sys, &rules, &s, cov, "long-lived system")?;
        if i % 1000 == 999 {
            let mut r = gen::rule(rng, &v, shape);
            r.bodies.truncate(1);
            r.bodies[0].chance = None;
            rules.add(&r);
            gen::add_rule(rng, &sys, &v, &r)?;
        }
    }
    cov.distinct(&rules.0.iter().map(|r| r.show(&v)).collect::<Vec<_>>().join(";"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 6000 == 131 {
        return huge(rng, cov, i == 131);
    }
    match i % 40 {
        0..=2 => exhaustive(rng, cov, tier),
        3 => long(rng, cov, tier),
        4 => many_rules(rng, cov, tier),
        5 | 6 => big_bodies(rng, cov),
        7 => long_life(rng, cov, tier),
        _ => history(rng, cov, tier),
    }
}
