//! Text of rules.
use rusty_systems::parser::{parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionBody;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{check_chance, check_rule, Body, Rule, Vocab};
use crate::rng::Rng;

fn refused<T: std::fmt::Debug>(what: &str, text: &str, f: impl FnOnce() -> Result<T, Error>) -> Case {
    match lib(what, || f().map_err(|e| e.to_string())).map_err(|e| format!("{text:?}: {e}"))? {
        Err(_) => Ok(()),
        Ok(p) => Err(format!("{what} accepts {text:?} as {p:?}")),
    }
}

fn valid(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let (contexts, body) = if !cfg!(miri) && rng.chance(1, 60) {
        // Larger than anybody writes, and still of the grammar.
        (*rng.pick(&[1, 300, 1_500, 6_000]), *rng.pick(&[3, 2_000, 20_000, 70_000]))
    } else {
        (*rng.pick(&[1, 2, 3, 3, 8, 40]), *rng.pick(&[0, 1, 3, 6, 6, 60, 400]))
    };
    let mut r = gen::rule(rng, v, Shape { contexts, alternatives: 1, body, over: false });
    if rng.chance(1, 3) {
        r.bodies[0].chance = Some(rng.range(1, 1000) as u32);
    }
    let b = r.bodies[0].clone();
    if !gen::body_as_text(v, &b) {
        return Ok(());
    }
    for _ in 0..3 {
        let t = gen::rule_text(rng, v, &r, &b, true);
        let p = lib("parse_production", || parse_production(&t).map_err(|e| e.to_string()))
            .map_err(|e| format!("{t:?}: {e}"))?
            .map_err(|e| format!("{t:?} is refused: {e}"))?;
        check_rule(v, &r, &p, &format!("{t:?}"))?;
        for (stated, got) in [(&r.pre, p.head().pre_context()), (&r.post, p.head().post_context())] {
            ensure!(stated.is_some() || got.is_none(), "{t:?}: a context is read where none is stated");
        }
        let (head, rest) = t.split_once("->").expect("an arrow");
        let h = lib("parse_production_head", || parse_production_head(head).map_err(|e| e.to_string()))?
            .map_err(|e| format!("head {head:?} is refused: {e}"))?;
        ensure!(h == *p.head(), "head {head:?} is read differently alone");
        let b2 = lib("parse_production_body", || parse_production_body(rest).map_err(|e| e.to_string()))?
            .map_err(|e| format!("body {rest:?} is refused: {e}"))?;
        ensure!(b2.string() == p.all_bodies()[0].string(), "body {rest:?} is read differently alone");
        check_chance(b.chance, &b2, &format!("body {rest:?}"))?;
        cov.count("rules read", 1);
        cov.distinct(&t);
        cov.sample(|| format!("{t:?}"));
    }
    Ok(())
}

fn malformed(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let word = |rng: &mut Rng| v.names[rng.below(v.len())].clone();
    let words = |rng: &mut Rng, lo: usize, hi: usize| (0..rng.range(lo, hi)).map(|_| word(rng)).collect::<Vec<_>>().join(" ");
    // No arrow.
    let t = words(rng, 0, 6);
    refused("parse_production", &t, || parse_production(&t))?;
    let t = format!("{} < {} > {}", word(rng), word(rng), word(rng));
    refused("parse_production", &t, || parse_production(&t))?;
    let t = format!("{} - > {}", word(rng), word(rng));
    refused("parse_production", &t, || parse_production(&t))?;
    // Not exactly one target.
    let (a, b) = (words(rng, 2, 4), words(rng, 0, 3));
    let left = if rng.chance(1, 2) { format!("{} < ", words(rng, 1, 2)) } else { String::new() };
    let right = if rng.chance(1, 2) { format!(" > {}", words(rng, 1, 2)) } else { String::new() };
    for target in ["", " ", a.as_str()] {
        let head = format!("{left}{target}{right}");
        let t = format!("{head} -> {b}");
        refused("parse_production", &t, || parse_production(&t))?;
        refused("parse_production_head", &head, || parse_production_head(&head))?;
    }
    // What follows the first '<' is the target.
    let head = format!("{} < {} < {}{right}", words(rng, 0, 2), words(rng, 1, 2), words(rng, 0, 2));
    let t = format!("{head} -> {b}");
    refused("parse_production", &t, || parse_production(&t))?;
    refused("parse_production_head", &head, || parse_production_head(&head))?;
    // Chances out of range, whatever the text around them.
    let bad = *rng.pick(&[
        "0", "0.0", "-0", "-0.0", "0e5", "-0.5", "-1", "-1e-9", "1.5", "1.001", "1.0000002", "2", "100", "1e9", "1e40", "-1e40", "inf",
        "-inf", "+inf", "infinity", "Infinity", "INF", "nan", "NaN", "-NaN", "NAN", "1e999", "0.000",
    ]);
    let body = format!("{bad} {}", words(rng, 0, 4));
    let t = format!("{} -> {body}", word(rng));
    refused("parse_production", &t, || parse_production(&t))?;
    refused("parse_production_body", &body, || parse_production_body(&body))?;
    let sys = System::new();
    refused("add_production", &t, || sys.add_production(t.as_str()))?;
    ensure!(sys.production_len() == 0, "a refused rule is counted");
    cov.count("texts refused", 14);
    Ok(())
}

fn chance_values(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    for _ in 0..40 {
        let f = match rng.below(8) {
            0 => f32::from_bits(rng.next() as u32),
            1 => *rng.pick(&[0.0, -0.0, 1.0, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, -1.0, 2.0]),
            2 => f32::from_bits(1.0f32.to_bits() + 1 + rng.below(3) as u32),
            3 => f32::from_bits(1.0f32.to_bits() - rng.below(3) as u32),
            4 => f32::from_bits(rng.below(4) as u32 | if rng.chance(1, 2) { 1 << 31 } else { 0 }),
            5 => -(rng.unit() as f32),
            _ => rng.unit() as f32,
        };
        let syms = gen::syms(rng, v.len(), 3);
        let ok = f > 0.0 && f <= 1.0;
        let got = lib("try_with_chance", || ProductionBody::try_with_chance(f, v.string(&syms)).map_err(|e| e.to_string()))?;
        ensure!(got.is_ok() == ok, "a body with the chance {f:?} is {}", if ok { "refused" } else { "accepted" });
        if let Ok(b) = got {
            ensure!(b.chance().is_user_set() && b.chance().unwrap() == f, "the chance {f:?} is kept as {:?}", b.chance());
            ensure!(v.back(b.string())? == syms, "a body with a chance changed");
        }
        // The text of the number says the same.
        let text = match rng.below(4) {
            // Every digit there is: the exact value, which has no exponent.
            0 if f.is_finite() => format!("{f:.160} {}", v.names[syms[0]]),
            1 => format!("{f:e} {}", v.names[syms[0]]),
            _ => format!("{f:?} {}", v.names[syms[0]]),
        };
        let got = lib("parse_production_body", || parse_production_body(&text).map_err(|e| e.to_string()))?;
        ensure!(got.is_ok() == ok, "the body {text:?} is {}", if ok { "refused" } else { "accepted" });
        if let Ok(b) = got {
            ensure!(b.chance().is_user_set() && b.chance().unwrap() == f && b.len() == 1, "the body {text:?} is read as {b:?}");
        }
    }
    cov.count("chances tried", 40);
    Ok(())
}

/// All small rules over three names in one layout each.
fn sweep(rng: &mut Rng, cov: &mut Cov) -> Case {
    let v = gen::vocab(rng, 3, Place::Text)?;
    let lists: Vec<Vec<usize>> = std::iter::once(vec![])
        .chain((0..3).map(|a| vec![a]))
        .chain((0..9).map(|x| vec![x / 3, x % 3]))
        .collect();
    for pre in &lists {
        for post in &lists {
            for target in 0..3 {
                let opt = |l: &Vec<usize>| if l.is_empty() { None } else { Some(l.clone()) };
                let chance = if rng.chance(1, 2) { Some(rng.range(1, 1000) as u32) } else { None };
                let b = Body { chance, syms: rng.pick(&lists).clone() };
                let r = Rule { pre: opt(pre), target, post: opt(post), bodies: vec![b.clone()] };
                if !gen::body_as_text(&v, &b) {
                    continue;
                }
                let t = gen::rule_text(rng, &v, &r, &b, true);
                let p = lib("parse_production", || parse_production(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("{t:?} is refused: {e}"))?;
                check_rule(&v, &r, &p, &format!("{t:?}"))?;
                cov.count("rules read", 1);
            }
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    if i % 40 == 0 {
        return sweep(rng, cov);
    }
    let n = *rng.pick(&[1, 2, 3, 5, 12]);
    let v = gen::vocab(rng, n, Place::Text)?;
    for _ in 0..6 {
        valid(rng, &v, cov)?;
    }
    malformed(rng, &v, cov)?;
    if i % 4 == 1 {
        chance_values(rng, &v, cov)?;
    }
    Ok(())
}
