//! Symbols, strings, rules and paths are values: equal when what they hold is equal, and nobody else's.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};

use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::parser::{parse_prod_string, parse_production, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Chance, Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::get_name;
use rusty_systems::system;

use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{check_chance, check_rule, Body, Rule, Vocab};
use crate::rng::Rng;

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Equality, its symmetry, its negation and the hashes against the model's view.
fn same<T: PartialEq + Hash>(a: &T, b: &T, want: bool, show: impl Fn() -> String) -> Case {
    let got = lib("==", || (a == b, b == a, a != b))?;
    let word = |b: bool| if b { "equal" } else { "different" };
    ensure!(got == (want, want, !want), "{}: {} by ==, {} the other way round, {} by !=, but they are {}", show(), word(got.0), word(got.1), word(!got.2), word(want));
    ensure!(!want || hash(a) == hash(b), "{}: equal, with different hashes", show());
    Ok(())
}

/// A world of strings, each with a model of what was put into it.
pub fn strings(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let mut world: Vec<(ProductionString, Vec<usize>)> = vec![(ProductionString::new(), vec![])];
    let mut trail = vec![];
    for _ in 0..rng.range(4, 30) {
        let k = rng.below(world.len());
        let how = rng.below(14);
        trail.push(format!("{how}/{k}"));
        let made = match how {
            0 => (ProductionString::new(), vec![]),
            1 => (ProductionString::empty(), vec![]),
            2 => (ProductionString::default(), vec![]),
            3 => {
                let i = rng.below(v.len());
                (ProductionString::from(v.syms[i]), vec![i])
            }
            4 => {
                let n = gen::length(rng, 6, 300);
                let s = gen::syms(rng, v.len(), n);
                (v.string(&s), s)
            }
            5 => {
                let n = rng.range(0, 8);
                let s = gen::syms(rng, v.len(), n);
                let t = v.text(&s);
                let p = lib("parse_prod_string", || parse_prod_string(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("{t:?} is refused: {e}"))?;
                (p, s)
            }
            6 => (world[k].0.clone(), world[k].1.clone()),
            7 => {
                let mut p = world[rng.below(world.len())].0.clone();
                p.clone_from(&world[k].0);
                (p, world[k].1.clone())
            }
            8 => {
                // Rebuilt from its own symbols, in one of the ways to get at them.
                let (p, s) = &world[k];
                let syms: Vec<Symbol> = match rng.below(5) {
                    0 => p.symbols().clone(),
                    1 => p.iter().copied().collect(),
                    2 => p.into_iter().collect(),
                    3 => p.clone().into_iter().collect(),
                    _ => p.all_symbols(),
                };
                (ProductionString::from(syms), s.clone())
            }
            9 => {
                // Taken apart from both ends, or in part.
                let (p, s) = &world[k];
                let mut it = p.clone().into_iter();
                let cut = rng.below(s.len() + 1);
                let mut front: Vec<Symbol> = it.by_ref().take(cut).collect();
                let back: Vec<Symbol> = it.rev().collect();
                front.extend(back.iter().rev());
                (ProductionString::from(front), s.clone())
            }
            _ => {
                let n = match rng.below(12) {
                    0 => rng.range(1, 200),
                    1 => 0,
                    _ => rng.range(1, 4),
                };
                for _ in 0..n {
                    let i = rng.below(v.len());
                    lib("push_symbol", || world[k].0.push_symbol(v.syms[i]))?;
                    world[k].1.push(i);
                }
                continue;
            }
        };
        if world.len() < 8 {
            world.push(made);
        } else {
            world[k] = made;
        }
    }
    for (p, s) in &world {
        let show = || format!("a string of {} (made by {})", v.show(s), trail.join(" "));
        let n = s.len();
        let got = lib("len", || (p.len(), p.is_empty(), p.symbols().len(), p.iter().len(), p.into_iter().count()))?;
        ensure!(got == (n, n == 0, n, n, n), "{}: its lengths are {got:?}", show());
        let back = v.back(p)?;
        ensure!(back == *s, "{} holds {}", show(), v.show(&back));
        for (i, x) in s.iter().enumerate() {
            ensure!(lib("index", || p[i])? == v.syms[*x], "{}: another symbol at {i}", show());
        }
        for i in [n, n + 1, usize::MAX] {
            let got = user_panics(|| p[i]);
            ensure!(got.is_none(), "{} has {} at {i}", show(), got.unwrap());
        }
        let rev: Vec<u32> = p.iter().rev().map(|s| s.code()).collect();
        ensure!(rev == s.iter().rev().map(|i| v.syms[*i].code()).collect::<Vec<_>>(), "{}: another order from the end", show());
    }
    let mut set = HashSet::new();
    let mut want = BTreeSet::new();
    let mut map: HashMap<ProductionString, Vec<usize>> = HashMap::new();
    let mut list: Vec<ProductionString> = vec![];
    for (p, s) in &world {
        let (a, b, c) = (set.insert(p.clone()), want.insert(s.clone()), list.contains(p));
        ensure!(a == b && a != c, "{} is new to a set: {a}, to a list: {}; should be {b}", v.show(s), !c);
        list.push(p.clone());
        map.entry(p.clone()).or_insert_with(|| s.clone());
    }
    ensure!(set.len() == want.len() && map.len() == want.len(), "{} strings are {} in a set and {} in a map", want.len(), set.len(), map.len());
    for (p, s) in &world {
        ensure!(map.get(p) == Some(s), "{} is found as {:?} in a map", v.show(s), map.get(p));
        for (q, t) in &world {
            same(p, q, s == t, || format!("{} and {} (made by {})", v.show(s), v.show(t), trail.join(" ")))?;
            cov.count("pairs of strings compared", 1);
        }
    }
    // The longest is no longer than it was when the others are gone, and the others are the same without it.
    let k = (0..world.len()).max_by_key(|k| world[*k].1.len()).unwrap();
    let (p, s) = world.swap_remove(k);
    for i in 0..3 {
        for (q, _) in &mut world {
            q.push_symbol(v.syms[i % v.len()]);
        }
    }
    ensure!(v.back(&p)? == s, "{} changed while symbols were added to others", v.show(&s));
    drop(p);
    for (q, t) in &world {
        let back = v.back(q)?;
        ensure!(back.len() == t.len() + 3 && back[..t.len()] == t[..], "{}: three symbols more, it is {}", v.show(t), v.show(&back));
    }
    cov.count("strings made", world.len() as u64 + 1);
    cov.distinct(&format!("{} {}", trail.join(" "), v.show(&s)));
    cov.sample(|| format!("{} (made by {})", v.show(&s), trail.join(" ")));
    Ok(())
}

/// The same symbols with the parts of the head moved by one: a different head.
/// Very long strings that differ in one place.
fn long(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let n = match rng.below(3) {
        0 => *rng.pick(&[255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537]),
        1 => rng.range(500, 6_000),
        _ => rng.range(6_000, 70_000),
    };
    let s = gen::syms(rng, v.len(), n);
    let a = v.string(&s);
    for _ in 0..4 {
        let at = match rng.below(6) {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            _ => rng.below(n),
        };
        if v.len() > 1 {
            let mut t = s.clone();
            t[at] = (t[at] + rng.range(1, v.len() - 1)) % v.len();
            same(&a, &v.string(&t), false, || format!("two strings of {n} symbols that differ at {at}"))?;
            if at + 1 < n {
                let mut t = s.clone();
                t.swap(at, at + 1);
                same(&a, &v.string(&t), s == t, || format!("two strings of {n} symbols that differ at {at} and {} by exchange", at + 1))?;
            }
        }
        let mut t = s.clone();
        t.insert(at, s[at]);
        same(&a, &v.string(&t), false, || format!("a string of {n} symbols and one with another at {at}"))?;
    }
    let mut by_push = ProductionString::new();
    for x in &s {
        by_push.push_symbol(v.syms[*x]);
    }
    same(&a, &by_push, true, || format!("two strings of the same {n} symbols"))?;
    ensure!(v.back(&by_push)? == s, "a string of {n} symbols that were pushed one by one holds others");
    // Symbols that have no name, the extreme ones among them, in runs.
    let mut wild: Vec<u32> = vec![];
    while wild.len() < n {
        let c = match rng.below(4) {
            0 => *rng.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65_535, 65_536]),
            1 => v.syms[rng.below(v.len())].code(),
            2 => rng.next() as u32,
            _ => *wild.last().unwrap_or(&u32::MAX),
        };
        let times = *rng.pick(&[1, 1, 2, 5, 300]);
        wild.extend(std::iter::repeat_n(c, times));
    }
    let p = ProductionString::from(wild.iter().map(|c| Symbol::from_code(*c)).collect::<Vec<_>>());
    let mut pushed = ProductionString::new();
    for c in &wild {
        pushed.push_symbol(Symbol::from_code(*c));
    }
    ensure!(p == pushed && hash(&p) == hash(&pushed), "a string of {} nameless symbols collected is not the same as pushed", wild.len());
    ensure!(p.len() == wild.len() && pushed.symbols().iter().map(|s| s.code()).eq(wild.iter().copied()), "a string of {} nameless symbols holds others", wild.len());
    ensure!(pushed.iter().map(|s| s.code()).eq(wild.iter().copied()), "a string of {} nameless symbols is iterated over as others", wild.len());
    ensure!((&pushed).into_iter().map(|s| s.code()).eq(wild.iter().copied()), "a string of {} nameless symbols is looped over as others", wild.len());
    ensure!(pushed.clone().into_iter().map(|s| s.code()).eq(wild.iter().copied()), "a clone of {} nameless symbols gives others away", wild.len());
    ensure!(pushed.into_iter().map(|s| s.code()).eq(wild.iter().copied()), "a string of {} nameless symbols gives others away", wild.len());
    ensure!(p.into_iter().map(|s| s.code()).eq(wild.iter().copied()), "a collected string of {} nameless symbols gives others away", wild.len());
    cov.max("symbols in a string", n as u64);
    Ok(())
}

fn near(rng: &mut Rng, r: &Rule, n: usize) -> Rule {
    let mut o = r.clone();
    match rng.below(7) {
        0 => std::mem::swap(&mut o.pre, &mut o.post),
        1 => {
            // The target becomes the end of the left context, and the next symbol the target.
            if let Some(post) = o.post.as_mut().filter(|p| p.len() > 1) {
                let next = post.remove(0);
                o.pre.get_or_insert_with(Vec::new).push(o.target);
                o.target = next;
            } else {
                o.target = (o.target + 1) % n;
            }
        }
        2 => {
            if let Some(pre) = o.pre.as_mut().filter(|p| p.len() > 1) {
                pre.pop();
            } else {
                o.pre = Some(vec![o.target]);
            }
        }
        3 => {
            if let Some(post) = &mut o.post {
                post.reverse();
            } else {
                o.post = Some(vec![o.target]);
            }
        }
        4 => {
            if let Some(post) = &mut o.post {
                let last = *post.last().unwrap();
                post.push(last);
            } else {
                o.post = Some(vec![rng.below(n)]);
            }
        }
        5 => {
            if let Some(pre) = &mut o.pre {
                let k = rng.below(pre.len());
                pre[k] = (pre[k] + 1) % n;
            } else {
                o.target = (o.target + 1) % n;
            }
        }
        _ => o.target = (o.target + 1) % n,
    }
    o
}

/// What was put in is what is there: heads, alternatives and chances, in order.
fn holds(v: &Vocab, r: &Rule, p: &Production, what: &str) -> Case {
    check_rule(v, r, p, what)?;
    ensure!(r.pre.is_some() == p.head().pre_context().is_some(), "{what}: {} has a left context: {}", r.show(v), p.head().pre_context().is_some());
    ensure!(r.post.is_some() == p.head().post_context().is_some(), "{what}: {} has a right context: {}", r.show(v), p.head().post_context().is_some());
    Ok(())
}

/// A world of rules, each with a model of what was put into it.
pub fn rules(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let shape = Shape { contexts: 3, alternatives: 4, body: 5, over: false };
    let mut world: Vec<(Production, Rule)> = vec![];
    let mut trail = vec![];
    let body = |rng: &mut Rng| {
        let n = rng.range(0, 4);
        Body { chance: rng.chance(1, 3).then(|| 1 + rng.below(1000) as u32), syms: gen::syms(rng, v.len(), n) }
    };
    for _ in 0..rng.range(4, 20) {
        if world.is_empty() {
            let r = gen::rule(rng, v, shape);
            world.push((r.build(v)?, r));
        }
        let k = rng.below(world.len());
        let j = rng.below(world.len());
        let how = rng.below(10);
        trail.push(format!("{how}/{k}/{j}"));
        let made = match how {
            0 => {
                let r = gen::rule(rng, v, shape);
                (r.build(v)?, r)
            }
            1 | 2 => {
                let mut r = near(rng, &world[k].1, v.len());
                r.bodies.truncate(1);
                (r.build(v)?, r)
            }
            3 => (world[k].0.clone(), world[k].1.clone()),
            4 => {
                let mut p = world[j].0.clone();
                p.clone_from(&world[k].0);
                (p, world[k].1.clone())
            }
            5 => {
                // A new rule with the head of another.
                let b = body(rng);
                let (p, r) = &world[k];
                let p = Production::new(p.head().clone(), b.build(v)?);
                (p, Rule { bodies: vec![b], ..r.clone() })
            }
            6 => {
                // Through text.
                let mut r = gen::rule(rng, v, Shape { alternatives: 1, ..shape });
                if rng.chance(1, 2) {
                    r = Rule { bodies: r.bodies, ..world[k].1.clone() };
                }
                while !gen::body_as_text(v, &r.bodies[0]) {
                    r.bodies[0].syms.remove(0);
                }
                let t = gen::rule_text(rng, v, &r, &r.bodies[0], false);
                let p = lib("parse_production", || parse_production(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("{t:?} is refused: {e}"))?;
                (p, r)
            }
            7 | 8 => {
                for _ in 0..rng.range(1, 3) {
                    let b = body(rng);
                    let pb = b.build(v)?;
                    lib("add_body", || world[k].0.add_body(pb))?;
                    world[k].1.bodies.push(b);
                }
                continue;
            }
            _ => {
                if world[k].1.bodies.len() > 200 {
                    continue;
                }
                // Into itself too, and whatever the heads are.
                let (p, r) = (world[j].0.clone(), world[j].1.clone());
                lib("merge", || world[k].0.merge(p))?;
                world[k].1.bodies.extend(r.bodies);
                continue;
            }
        };
        if world.len() < 7 {
            world.push(made);
        } else {
            world[k] = made;
        }
    }
    let what = format!("a rule (made by {})", trail.join(" "));
    let mut set = HashSet::new();
    let mut heads = HashSet::new();
    let mut want: Vec<&Rule> = vec![];
    for (p, r) in &world {
        holds(v, r, p, &what)?;
        holds(v, r, &p.clone(), &format!("a copy of {what}"))?;
        let new = !want.iter().any(|o| o.same_head(r));
        let (a, b) = (set.insert(p.clone()), heads.insert(p.head().clone()));
        ensure!(a == new && b == new, "{} is new to a set: {a}, its head: {b}; should be {new}", r.show(v));
        want.push(r);
        for (q, o) in &world {
            same(p, q, r.same_head(o), || format!("the rules {} and {}", r.show(v), o.show(v)))?;
            same(p.head(), q.head(), r.same_head(o), || format!("the heads of {} and {}", r.show(v), o.show(v)))?;
            cov.count("pairs of rules compared", 1);
        }
    }
    let list: Vec<Production> = world.iter().map(|(p, _)| p.clone()).collect();
    for (p, r) in &world {
        let at = lib("position", || list.iter().position(|q| q == p))?;
        let first = world.iter().position(|(_, o)| o.same_head(r));
        ensure!(at == first, "{} is at {at:?} of a list instead of {first:?}", r.show(v));
        ensure!(set.contains(p) && heads.contains(p.head()), "{} is not found in a set", r.show(v));
        // The set has the first of those with equal heads.
        let (fp, fr) = (set.get(p).unwrap(), world[first.unwrap()].1.clone());
        holds(v, &fr, fp, "the rule in a set")?;
    }
    stores(rng, v, &world, cov)?;
    cov.count("rules made", world.len() as u64);
    cov.distinct(&world.iter().map(|(_, r)| r.show(v)).collect::<Vec<_>>().join(";"));
    Ok(())
}

/// What stores answer with is a copy, and so is what they were given.
fn stores(rng: &mut Rng, v: &Vocab, world: &[(Production, Rule)], cov: &mut Cov) -> Case {
    let (sys, cell) = (System::new(), RefCell::new(Vec::<Production>::new()));
    let mut kept: Vec<(Production, Rule)> = vec![];
    let mut merged: Vec<Rule> = vec![];
    let mut asked: Vec<&(Production, Rule)> = vec![];
    let extra = Body { chance: None, syms: vec![0, 0] };
    for both in world {
        let (p, r) = both;
        // Not asked here: whether a store takes chances of more than one.
        if r.total() + merged.iter().find(|o| o.same_head(r)).map_or(0, |o| o.total()) > 1000 {
            continue;
        }
        asked.push(both);
        let mut mine = p.clone();
        let mut got = lib("add_production", || sys.add_production(mine.clone()).map_err(|e| e.to_string()))?.map_err(|e| format!("{} is refused: {e}", r.show(v)))?;
        match merged.iter_mut().find(|o| o.same_head(r)) {
            Some(o) => o.bodies.extend(r.bodies.iter().cloned()),
            None => merged.push(r.clone()),
        }
        let now = merged.iter().find(|o| o.same_head(r)).unwrap().clone();
        holds(v, &now, &got, "what a system answers with")?;
        if rng.chance(1, 2) {
            // Changing the answer, or what was given, changes neither the system nor the other.
            got.add_body(extra.build(v)?);
            mine.merge(got.clone());
            holds(v, &Rule { bodies: now.bodies.iter().cloned().chain([extra.clone()]).collect(), ..now.clone() }, &got, "the answer, with another alternative")?;
            cov.count("answers changed by the user", 1);
        } else {
            kept.push((got, now));
        }
        let c = lib("add_production", || cell.add_production(p.clone()).map_err(|e| e.to_string()))??;
        kept.push((c, r.clone()));
    }
    for (p, r) in &kept {
        holds(v, r, p, "what a store had answered with, after later additions")?;
    }
    ensure!(sys.production_len() == merged.len(), "the system has {} rules instead of {}", sys.production_len(), merged.len());
    for r in &merged {
        // The alternatives in the system, seen by adding one more.
        let again = Production::new(r.head(v)?, extra.build(v)?);
        let got = lib("add_production", || sys.add_production(again).map_err(|e| e.to_string()))??;
        let want = Rule { bodies: r.bodies.iter().cloned().chain([extra.clone()]).collect(), ..r.clone() };
        holds(v, &want, &got, "the rule in the system after the user changed their copies")?;
    }
    let mut taken = cell.into_inner();
    ensure!(taken.len() == asked.len(), "the list has {} rules instead of {}", taken.len(), asked.len());
    for (p, (_, r)) in taken.iter().zip(asked) {
        holds(v, r, p, "the rule in a list")?;
    }
    // Removing neighbours with equal heads keeps the first of each.
    let before: Vec<Rule> = world.iter().map(|(_, r)| r.clone()).collect();
    taken = world.iter().map(|(p, _)| p.clone()).collect();
    taken.dedup();
    let mut want: Vec<Rule> = vec![];
    for r in before {
        if want.last().is_none_or(|o| !o.same_head(&r)) {
            want.push(r);
        }
    }
    ensure!(taken.len() == want.len(), "removing equal neighbours from a list leaves {} rules instead of {}", taken.len(), want.len());
    for (p, r) in taken.iter().zip(&want) {
        holds(v, r, p, "the rule in a list without equal neighbours")?;
    }
    Ok(())
}

/// Deriving reads strings and rules, and changes none of them.
pub fn untouched(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let mut list: Vec<Rule> = vec![];
    for _ in 0..rng.range(1, 5) {
        let r = gen::rule(rng, v, Shape { contexts: 2, alternatives: 3, body: 3, over: false });
        if !list.iter().any(|o| o.same_head(&r)) {
            list.push(r);
        }
    }
    let real = list.iter().map(|r| r.build(v)).collect::<Result<Vec<_>, _>>()?;
    let n = rng.range(0, 8);
    let s = gen::string_for(rng, v.len(), &list, n);
    let st = v.string(&s);
    for _ in 0..rng.range(1, 4) {
        let _ = lib("derive", || system::derive(st.clone(), &real, RunSettings::for_max_iterations(2)).is_ok())?;
        let _ = lib("derive_once", || system::derive_once(st.clone(), &real).is_ok())?;
        for i in 0..=s.len() {
            let _ = lib("find_matching", || system::find_matching(&real, &st, i).map(|p| p.body().is_ok()))?;
        }
    }
    ensure!(v.back(&st)? == s, "{} changed while it was derived", v.show(&s));
    for (p, r) in real.iter().zip(&list) {
        holds(v, r, p, "a rule after it was used")?;
        let mut ok = false;
        if let Ok(b) = lib("body", || p.body())? {
            ok = p.all_bodies().iter().any(|o| std::ptr::eq(o, b));
            ensure!(ok, "{}: the alternative chosen is not one of the rule's", r.show(v));
        }
        cov.count("alternatives chosen", ok as u64);
    }
    cov.distinct(&format!("{} {}", v.show(&s), list.iter().map(|r| r.show(v)).collect::<Vec<_>>().join(";")));
    Ok(())
}

/// Heads of text against heads that were built.
pub fn heads(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let mut all: Vec<(ProductionHead, Rule)> = vec![];
    let first = gen::rule(rng, v, Shape { contexts: 3, alternatives: 1, body: 0, over: false });
    let mut r = Rule { bodies: vec![Body { chance: None, syms: vec![] }], ..first };
    for _ in 0..rng.range(2, 7) {
        let h = if rng.chance(1, 2) {
            r.head(v)?
        } else {
            let t = gen::rule_text(rng, v, &r, &r.bodies[0], false);
            let t = t.split("->").next().unwrap().to_string();
            lib("parse_production_head", || parse_production_head(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("{t:?} is refused: {e}"))?
        };
        all.push((h, r.clone()));
        r = match rng.below(4) {
            0 => r,
            1 => all[rng.below(all.len())].1.clone(),
            _ => near(rng, &r, v.len()),
        };
    }
    let mut map: HashMap<ProductionHead, usize> = HashMap::new();
    for (i, (h, r)) in all.iter().enumerate() {
        let first = all.iter().position(|(_, o)| o.same_head(r)).unwrap();
        let got = *map.entry(h.clone()).or_insert(i);
        ensure!(got == first, "the head of {} is taken for that of {} in a map", r.show(v), all[got].1.show(v));
        for (g, o) in &all {
            same(h, g, r.same_head(o), || format!("the heads of {} and {}", r.show(v), o.show(v)))?;
            cov.count("pairs of heads compared", 1);
        }
    }
    cov.distinct(&all.iter().map(|(_, r)| r.show(v)).collect::<Vec<_>>().join(";"));
    Ok(())
}

/// Symbols in all the ways to come by them.
pub fn symbols(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let mut all: Vec<(Symbol, u32, String)> = vec![];
    for i in 0..v.len() {
        let (n, code) = (v.names[i].as_str(), v.syms[i].code());
        for how in 0..6 {
            if rng.chance(1, 3) {
                continue;
            }
            let made = lib("making a symbol", || -> rusty_systems::Result<Symbol> {
                match how {
                    0 => Symbol::build(n),
                    1 => Symbol::try_from(n),
                    2 => Symbol::try_from(n.to_string()),
                    3 => n.parse(),
                    4 => Symbol::try_from(code),
                    _ => Ok(Symbol::from_code(code)),
                }
            })?;
            let s = made.map_err(|e| format!("{n:?} (way {how}) is refused: {e}"))?;
            all.push((s, code, n.to_string()));
        }
    }
    for _ in 0..rng.below(6) {
        // Codes that are nobody's, and those next to somebody's or alike in their low bits.
        let c = match rng.below(5) {
            0 => u32::MAX - rng.below(5) as u32,
            1 => v.syms[rng.below(v.len())].code() ^ (1 << rng.below(32)),
            2 => v.syms[rng.below(v.len())].code().wrapping_add(1 << 16),
            3 => v.syms[rng.below(v.len())].code() | 0x8000_0000,
            _ => rng.next() as u32,
        };
        let s = lib("from_code", || Symbol::from_code(c))?;
        let n = lib("name", || get_name(c))?;
        ensure!(lib("name", || s.name())? == n, "the symbol of code {c} has the name {:?}, and the code {n:?}", s.name());
        ensure!(lib("try_from", || Symbol::try_from(c).is_ok())? == n.is_some(), "code {c} has the name {n:?}, and as a symbol is accepted: {}", n.is_none());
        all.push((s, c, n.unwrap_or_default()));
    }
    let mut set: HashSet<Symbol> = HashSet::new();
    let mut want = BTreeSet::new();
    for (s, c, n) in &all {
        let copy = *s;
        ensure!(s.code() == *c && copy.code() == *c, "a symbol of code {c} ({n:?}) has the code {}", s.code());
        let (a, b) = (set.insert(*s), want.insert(*c));
        ensure!(a == b, "the symbol of code {c} ({n:?}) is new to a set: {a}");
        for (t, d, m) in &all {
            same(s, t, c == d, || format!("the symbols of codes {c} ({n:?}) and {d} ({m:?})"))?;
            cov.count("pairs of symbols compared", 1);
        }
    }
    ensure!(set.len() == want.len(), "{} symbols are {} in a set", want.len(), set.len());
    // A set of all the symbols of a string or rule.
    let n = rng.range(0, 30);
    let s = gen::syms(rng, v.len(), n);
    let p = v.string(&s);
    let got: HashSet<Symbol> = lib("all_symbols", || p.all_symbols())?;
    let want: HashSet<u32> = s.iter().map(|i| v.syms[*i].code()).collect();
    ensure!(got.iter().map(|s| s.code()).collect::<HashSet<_>>() == want && got.len() == want.len(), "the {} symbols of {} are {} in a set", want.len(), v.show(&s), got.len());
    cov.distinct(&format!("{:?} {s:?}", all.iter().map(|a| &a.2).collect::<Vec<_>>()));
    Ok(())
}

fn coordinate(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MAX,
        3 => f64::MIN_POSITIVE,
        4 => 5e-324,
        5 => f64::INFINITY,
        6 => f64::NAN,
        7 => (rng.unit() - 0.5) * 1e-12,
        8 => rng.below(10) as f64,
        _ => (rng.unit() - 0.5) * 2000.0,
    }
}

fn bits(p: &Point) -> (u64, u64) {
    (p.x().to_bits(), p.y().to_bits())
}

/// A world of paths, each with a model of what was put into it.
pub fn paths(rng: &mut Rng, cov: &mut Cov) -> Case {
    let mut world: Vec<(Path, Vec<(f64, f64)>)> = vec![(Path::new(), vec![])];
    let mut trail = vec![];
    for _ in 0..rng.range(3, 24) {
        let k = rng.below(world.len());
        let how = rng.below(12);
        trail.push(format!("{how}/{k}"));
        let made = match how {
            0 => (Path::default(), vec![]),
            1 => (world[k].0.clone(), world[k].1.clone()),
            2 => {
                let n = gen::length(rng, 5, 200);
                let pts: Vec<(f64, f64)> = (0..n).map(|_| (coordinate(rng), coordinate(rng))).collect();
                (lib("collect", || pts.iter().map(|(x, y)| Point::new(*x, *y)).collect::<Path>())?, pts)
            }
            3 => (world[k].0.iter().copied().collect(), world[k].1.clone()),
            4 => (world[k].0.clone().into_iter().rev().collect(), world[k].1.iter().rev().copied().collect()),
            5 => {
                let mut p = world[rng.below(world.len())].0.clone();
                p.clone_from(&world[k].0);
                (p, world[k].1.clone())
            }
            6 => {
                let (x, y) = (coordinate(rng), coordinate(rng));
                let moved = lib("+", || world[k].0.clone() + Vector::new(x, y))?;
                (moved, world[k].1.iter().map(|(a, b)| (a + x, b + y)).collect())
            }
            _ => {
                for _ in 0..rng.range(0, 6) {
                    let (x, y) = (coordinate(rng), coordinate(rng));
                    if rng.chance(1, 2) {
                        lib("push", || world[k].0.push(Point::new(x, y)))?;
                    } else {
                        lib("push", || world[k].0.push(Vector::new(x, y)))?;
                    }
                    world[k].1.push((x, y));
                }
                continue;
            }
        };
        if world.len() < 6 {
            world.push(made);
        } else {
            world[k] = made;
        }
    }
    for (p, m) in &world {
        let show = || format!("a path of {:?} (made by {})", &m[..m.len().min(12)], trail.join(" "));
        let n = m.len();
        let got = lib("len", || (p.len(), p.is_empty(), p.iter().len(), p.clone().into_iter().len()))?;
        ensure!(got == (n, n == 0, n, n), "{}: its lengths are {got:?}", show());
        // NaN is NaN, whatever its bits.
        let alike = |p: &Point, m: &(f64, f64)| {
            let b = bits(p);
            (b.0 == m.0.to_bits() || p.x().is_nan() && m.0.is_nan()) && (b.1 == m.1.to_bits() || p.y().is_nan() && m.1.is_nan())
        };
        ensure!(lib("get_start", || p.get_start().copied())?.as_ref().map(bits) == p.get(0).map(bits), "{}: starts elsewhere", show());
        for i in 0..n {
            let got = lib("get", || (p.get(i).copied(), p[i]))?;
            ensure!(got.0.is_some_and(|g| alike(&g, &m[i])) && alike(&got.1, &m[i]), "{}: at {i}, {:?} and {:?}", show(), got.0, got.1);
        }
        for i in [n, n + 1, usize::MAX] {
            ensure!(lib("get", || p.get(i).is_none())?, "{} has a point at {i}", show());
            ensure!(user_panics(|| p[i]).is_none(), "{} gives a point for the index {i}", show());
        }
        ensure!(p.iter().zip(m).all(|(g, m)| alike(g, m)), "{}: other points by iter()", show());
        ensure!(p.clone().into_iter().zip(m).all(|(g, m)| alike(&g, m)), "{}: other points by into_iter()", show());
        for (a, b) in p.iter().zip(p.clone().into_iter().rev()) {
            let ((ax, ay), (bx, by)) = ((a.x(), a.y()), (b.x(), b.y()));
            ensure!((*a == b) == (ax == bx && ay == by) && (*a != b) != (*a == b), "{a} and {b} are equal: {}", *a == b);
            let (s, t) = (Vector::from(*a), Vector::from(b));
            ensure!(bits(&Point::from(s)) == bits(a) && (s == t) == (ax == bx && ay == by), "{a} and {b} are equal as vectors: {}", s == t);
        }
        cov.count("points looked at", n as u64);
    }
    cov.count("paths made", world.len() as u64);
    cov.distinct(&format!("{} {:?}", trail.join(" "), world.last().map(|w| &w.1)));
    Ok(())
}

/// Alternatives and their chances.
pub fn bodies(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let n = rng.range(0, 6);
    let s = gen::syms(rng, v.len(), n);
    let st = v.string(&s);
    let plain = lib("new", || ProductionBody::new(st.clone()))?;
    check_chance(None, &plain, "a body without a chance")?;
    let f = match rng.below(8) {
        0 => 1.0,
        1 => f32::MIN_POSITIVE,
        2 => 1.0f32 - f32::EPSILON / 2.0,
        3 => f32::from_bits(1),
        _ => (rng.range(1, 1000) as f32) / 1000.0,
    };
    let stated = lib("try_with_chance", || ProductionBody::try_with_chance(f, st.clone()).map_err(|e| e.to_string()))?
        .map_err(|e| format!("chance {f:e} is refused: {e}"))?;
    for b in [&plain, &stated, &plain.clone(), &stated.clone()] {
        ensure!(v.back(b.string())? == s && b.len() == n && b.is_empty() == s.is_empty(), "a body of {} holds {} ({} symbols)", v.show(&s), b.string(), b.len());
        ensure!(*b.string() == st, "a body of {} holds another string", v.show(&s));
    }
    let none = lib("empty", ProductionBody::empty)?;
    ensure!(none.is_empty() && none.len() == 0 && none.string().is_empty(), "the empty body holds {}", none.string());
    check_chance(None, &none, "the empty body")?;
    for (c, want) in [(*plain.chance(), None), (*stated.chance(), Some(f)), (Chance::empty(), None), (lib("Chance::new", || Chance::new(f))?, Some(f))] {
        let d = rng.unit() as f32;
        ensure!(c.is_user_set() == want.is_some() && c.is_derived() == want.is_none(), "a chance of {want:?} is set: {}, derived: {}", c.is_user_set(), c.is_derived());
        ensure!(c.unwrap_or(d).to_bits() == want.unwrap_or(d).to_bits(), "a chance of {want:?} is {:e} (or else {d:e})", c.unwrap_or(d));
        let got = user_panics(|| (c.unwrap().to_bits(), c.expect("a chance").to_bits()));
        ensure!(got == want.map(|w| (w.to_bits(), w.to_bits())), "a chance of {want:?} unwraps to {got:?}");
    }
    for bad in [0.0, -0.0, -f, 1.0 + f32::EPSILON, 1.0 + f, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN] {
        let got = lib("try_with_chance", || ProductionBody::try_with_chance(bad, st.clone()).is_ok())?;
        ensure!(!got || (bad > 0.0 && bad <= 1.0), "a chance of {bad:e} is accepted");
    }
    cov.count("chances looked at", 4);
    cov.distinct(&format!("{s:?} {:x}", f.to_bits()));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _tier: Tier) -> Case {
    let n = rng.range(1, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    if i % 800 == 9 {
        return long(rng, &v, cov);
    }
    match i % 8 {
        0 | 1 => strings(rng, &v, cov),
        2 | 3 => rules(rng, &v, cov),
        4 => heads(rng, &v, cov),
        5 => symbols(rng, &v, cov),
        6 => paths(rng, cov),
        _ => {
            bodies(rng, &v, cov)?;
            untouched(rng, &v, cov)
        }
    }
}
