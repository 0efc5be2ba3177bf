//! n iterations are n single steps.
use std::collections::BTreeSet;

use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::SvgPathInterpretation;
use rusty_systems::interpretation::NullInterpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{self, Body, Rule, Rules, Vocab};
use crate::rng::Rng;

struct Fixture {
    v: Vocab,
    sys: System,
    list: Vec<Production>,
    rules: Rules,
}

impl Fixture {
    fn new(rng: &mut Rng, v: Vocab, make: Vec<Rule>) -> Result<Fixture, String> {
        let sys = System::new();
        let mut rules = Rules::default();
        for r in make {
            if rules.0.iter().any(|x| x.same_head(&r)) {
                continue;
            }
            rules.add(&r);
            gen::add_rule(rng, &sys, &v, &r)?;
        }
        let list = rules.0.iter().map(|r| r.build(&v)).collect::<Result<Vec<_>, _>>()?;
        Ok(Fixture { v, sys, list, rules })
    }
    fn show(&self) -> String {
        self.rules.0.iter().map(|r| r.show(&self.v)).collect::<Vec<_>>().join("; ")
    }
    fn derive(&self, s: &[usize], settings: RunSettings, free: bool) -> Result<Vec<usize>, String> {
        let input = self.v.string(s);
        let n = settings.max_iterations;
        let got = lib("derive", || {
            if free {
                system::derive(input, &self.list, settings).map_err(|e| e.to_string())
            } else {
                self.sys.derive(input, settings).map_err(|e| e.to_string())
            }
        })?
        .map_err(|e| format!("{n} iterations of {} are refused: {e}; rules: {}", self.v.show(s), self.show()))?;
        self.v.back(&got)
    }
    fn single(&self, s: &[usize], free: bool) -> Result<Vec<usize>, String> {
        let input = self.v.string(s);
        let got = lib("derive_once", || {
            if free {
                system::derive_once(input, &self.list).map_err(|e| e.to_string())
            } else {
                self.sys.derive_once(input).map_err(|e| e.to_string())
            }
        })?
        .map_err(|e| format!("a step of {} is refused: {e}; rules: {}", self.v.show(s), self.show()))?;
        self.v.back(&got)
    }
    fn same(&self, a: &[usize], b: &[usize], what: &str, from: &[usize]) -> Case {
        ensure!(
            a == b,
            "{what}: {} instead of {}; from {}; rules: {}",
            self.v.show(a),
            self.v.show(b),
            self.v.show(from),
            self.show()
        );
        Ok(())
    }
}

fn settings(rng: &mut Rng, n: usize) -> RunSettings {
    match rng.below(6) {
        0 => RunSettings::for_max_iterations(n),
        1 => RunSettings::from(n),
        2 => n.into(),
        3 => AbopTurtleInterpretation::new(n, 10.0).run_settings(),
        4 => SvgPathInterpretation::new_with(3, 4, AbopTurtleInterpretation::new(n, 10.0)).run_settings(),
        #[allow(clippy::needless_update)]
        _ => RunSettings { max_iterations: n, ..RunSettings::default() },
    }
}

fn general(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(1, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let shape = Shape { contexts: *rng.pick(&[0, 0, 1, 3]), alternatives: 1, body: *rng.pick(&[1, 2, 3]), over: false };
    let count = rng.range(1, 7);
    let make = (0..count).map(|_| gen::rule(rng, &v, shape)).collect();
    let f = Fixture::new(rng, v, make)?;
    let len = gen::length(rng, 6, 200);
    let s = gen::string_for(rng, n, &f.rules.0, len);
    let cap = if tier == Tier::Quick { 3_000 } else { 30_000 };
    let want_n = match rng.below(4) {
        0 => rng.range(0, 3),
        1 => rng.range(0, 40),
        2 => *rng.pick(&[10, 11, 16, 32, 64, 100, 128, 200, 255, 256, 257]),
        _ => rng.range(0, 9),
    };
    // The trace of single steps, as the library takes them, each of them checked.
    let mut trace = vec![s.clone()];
    for _ in 0..want_n {
        let last = trace.last().unwrap();
        if last.len() > cap || (shape.contexts > 0 && last.len() > 600) {
            break;
        }
        let next = f.single(last, rng.chance(1, 2))?;
        f.same(&next, &model::step_det(&f.rules.0, last), "single step", last)?;
        trace.push(next);
    }
    let iters = trace.len() - 1;
    let before = (lib("len", || f.sys.production_len())?, lib("len", || f.sys.symbol_len())?);
    for free in [false, true] {
        let got = f.derive(&s, settings(rng, iters), free)?;
        f.same(&got, &trace[iters], &format!("{iters} iterations (rule list: {free})"), &s)?;
        let zero = f.derive(&s, settings(rng, 0), free)?;
        f.same(&zero, &s, "zero iterations", &s)?;
    }
    for _ in 0..3 {
        // Any prefix, and any split of it.
        let k = rng.range(0, iters);
        let a = rng.range(0, k);
        let mid = f.derive(&s, settings(rng, a), rng.chance(1, 2))?;
        f.same(&mid, &trace[a], &format!("{a} iterations"), &s)?;
        let end = f.derive(&mid, settings(rng, k - a), rng.chance(1, 2))?;
        f.same(&end, &trace[k], &format!("{a} and then {} iterations", k - a), &s)?;
    }
    let again = f.derive(&s, settings(rng, iters), false)?;
    f.same(&again, &trace[iters], "the same derivation repeated", &s)?;
    let d = RunSettings::default();
    let dn = d.max_iterations;
    if dn <= iters {
        let got = f.derive(&s, d, false)?;
        f.same(&got, &trace[dn], &format!("default settings ({dn} iterations)"), &s)?;
    }
    for it in [0, 1, iters] {
        for free in [false, true] {
            let got = f.derive(&[], settings(rng, it), free)?;
            ensure!(got.is_empty(), "{it} iterations of the empty string give {}", f.v.show(&got));
        }
    }
    let after = (lib("len", || f.sys.production_len())?, lib("len", || f.sys.symbol_len())?);
    ensure!(before == after, "deriving changed the number of rules and symbols from {before:?} to {after:?}");
    let known: BTreeSet<usize> =
        f.rules.0.iter().flat_map(|r| {
            r.pre.iter().flatten().chain(r.post.iter().flatten()).chain(std::iter::once(&r.target)).chain(r.bodies.iter().flat_map(|b| b.syms.iter())).copied().collect::<Vec<_>>()
        }).collect();
    for (i, name) in f.v.names.iter().enumerate() {
        let got = lib("get_symbol", || f.sys.get_symbol(name))?;
        ensure!(got.is_some() == known.contains(&i), "after deriving, the system's answer for symbol {name:?} is {got:?}; rules: {}", f.show());
    }
    if trace.windows(2).any(|w| w[0] != w[1]) {
        cov.distinct(&format!("{}{}{}", f.show(), f.v.show(&s), iters));
    }
    if trace.last().unwrap().is_empty() && !s.is_empty() {
        cov.count("derivations that die out", 1);
    }
    cov.count("single steps", iters as u64);
    cov.max("most iterations", iters as u64);
    cov.max("longest string", trace.iter().map(|t| t.len()).max().unwrap() as u64);
    cov.sample(|| format!("{} from {} for {iters} iterations: {}", f.show(), f.v.show(&s), f.v.show(&trace[iters])));
    Ok(())
}

/// Strings that go on changing, or change again after a while, without growing.
fn long_runs(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = rng.range(2, 7);
    let v = gen::vocab(rng, n, Place::Text)?;
    let one = |syms: Vec<usize>| vec![Body { chance: None, syms }];
    let mut make: Vec<Rule> = vec![];
    let kind = rng.below(4);
    match kind {
        // A cycle of symbols.
        0 => {
            for a in 0..n {
                make.push(Rule { pre: None, target: a, post: None, bodies: one(vec![(a + 1) % n]) });
            }
        }
        // An automaton over triples of cells.
        1 => {
            for a in 0..2 {
                for b in 0..2 {
                    for c in 0..2 {
                        make.push(Rule { pre: Some(vec![a]), target: b, post: Some(vec![c]), bodies: one(vec![rng.below(2)]) });
                    }
                }
            }
        }
        // A signal that travels through symbols that otherwise stay as they are.
        2 => {
            make.push(Rule { pre: Some(vec![0]), target: 1, post: None, bodies: one(vec![0]) });
            make.push(Rule { pre: None, target: 0, post: Some(vec![1]), bodies: one(vec![1]) });
        }
        // Chains that end in extinction.
        _ => {
            for a in 0..n - 1 {
                make.push(Rule { pre: None, target: a, post: None, bodies: one(vec![a + 1]) });
            }
            make.push(Rule { pre: None, target: n - 1, post: None, bodies: one(vec![]) });
        }
    }
    let f = Fixture::new(rng, v, make)?;
    let top: usize = match (kind, tier) {
        (0, Tier::Quick) => 20_000,
        (0, Tier::Thorough) => 200_000,
        (3, _) => 100_000,
        (_, Tier::Quick) => 300,
        _ => 1_500,
    };
    let len = if kind == 0 { rng.range(1, 6) } else { rng.range(2, 40) };
    let mut s = gen::syms(rng, if kind == 1 { 2 } else { n }, len);
    if kind == 2 {
        s = vec![1; len];
        s[0] = 0;
    }
    let mut states = vec![s.clone()];
    for _ in 0..top.min(600) {
        let next = model::step_det(&f.rules.0, states.last().unwrap());
        states.push(next);
    }
    let at = |k: usize| -> Vec<usize> {
        if kind == 0 {
            return s.iter().map(|x| (x + k) % n).collect();
        }
        states.get(k).cloned().unwrap_or_else(|| {
            let mut x = states.last().unwrap().clone();
            for _ in states.len() - 1..k {
                if x.is_empty() {
                    break;
                }
                x = model::step_det(&f.rules.0, &x);
            }
            x
        })
    };
    for k in [1, 2, 3, n, n + 1, 2 * n, rng.range(0, top), rng.range(0, top.min(300)), top] {
        let free = rng.chance(1, 2);
        let got = f.derive(&s, settings(rng, k), free)?;
        f.same(&got, &at(k), &format!("{k} iterations"), &s)?;
        cov.max("most iterations", k as u64);
    }
    cov.distinct(&format!("{kind} {n} {}", f.v.show(&s)));
    Ok(())
}

/// Long strings in which little happens, wherever that is.
fn sparse(rng: &mut Rng, cov: &mut Cov) -> Case {
    let n = rng.range(4, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let one = |syms: Vec<usize>| vec![Body { chance: None, syms }];
    // 0 -> 1 -> 2 -> 0 or so; the others stay as they are.
    let grow = rng.chance(1, 2);
    let make = vec![
        Rule { pre: None, target: 0, post: None, bodies: one(vec![1]) },
        Rule { pre: None, target: 1, post: None, bodies: one(if grow { vec![3, 2] } else { vec![2] }) },
        Rule { pre: None, target: 2, post: None, bodies: one(match rng.below(3) { 0 => vec![0], 1 => vec![0, 0], _ => vec![] }) },
    ];
    let f = Fixture::new(rng, v, make)?;
    let len = match rng.below(3) {
        0 => rng.range(60, 3_000),
        1 => *rng.pick(&[255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537]),
        _ => rng.range(3_000, 70_000),
    };
    let mut s: Vec<usize> = (0..len).map(|_| 3 + rng.below(n - 3)).collect();
    for _ in 0..rng.range(1, 3) {
        let at = match rng.below(4) {
            0 => len - 1,
            1 => 0,
            2 => len / 2,
            _ => rng.below(len),
        };
        s[at] = rng.below(3);
    }
    let k = rng.range(1, 7);
    let mut want = s.clone();
    for _ in 0..k {
        want = model::step_det(&f.rules.0, &want);
    }
    let free = rng.chance(1, 2);
    let got = f.derive(&s, settings(rng, k), free)?;
    f.same(&got, &want, &format!("{k} iterations, first difference at {:?}", got.iter().zip(&want).position(|(a, b)| a != b)), &s)?;
    cov.max("longest string", len as u64);
    cov.distinct(&format!("sparse {len} {k} {grow}"));
    Ok(())
}

/// Very many iterations, of which the outcome is known.
fn very_long(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let n = *rng.pick(&[2, 3, 5, 7]);
    let v = gen::vocab(rng, n, Place::Text)?;
    let make = (0..n).map(|a| Rule { pre: None, target: a, post: None, bodies: vec![Body { chance: None, syms: vec![(a + 1) % n] }] }).collect();
    let f = Fixture::new(rng, v, make)?;
    let len = rng.range(1, 2);
    let s = gen::syms(rng, n, len);
    let top = if tier == Tier::Quick { 300_000 } else { 3_000_000 };
    for k in [(1 << 16) - 1, 1 << 16, (1 << 16) + 1, (1 << 17) + rng.below(3), rng.range(70_000, top)] {
        let free = rng.chance(1, 2);
        let got = f.derive(&s, settings(rng, k), free)?;
        let want: Vec<usize> = s.iter().map(|x| (x + k) % n).collect();
        f.same(&got, &want, &format!("{k} iterations"), &s)?;
        cov.max("most iterations", k as u64);
    }
    // More than could ever be taken, of a string that is gone at once.
    let one = gen::vocab(rng, 1, Place::Text)?;
    let dying = Fixture::new(rng, one, vec![Rule { pre: None, target: 0, post: None, bodies: vec![Body { chance: None, syms: vec![] }] }])?;
    let k = rng.range(1 << 16, 1 << 20);
    let got = dying.derive(&[0, 0], settings(rng, k), rng.chance(1, 2))?;
    dying.same(&got, &[], &format!("{k} iterations of what is gone"), &[0, 0])?;
    cov.distinct(&format!("very long {n} {k}"));
    Ok(())
}

/// Random alternatives: iterations are still all taken, even when a step happens to change nothing.
fn random_alternatives(rng: &mut Rng, cov: &mut Cov) -> Case {
    let v = gen::vocab(rng, 3, Place::Text)?;
    let sys = System::new();
    // 0 stays with chance 1/2 or becomes 1: after 64 iterations it is 1, but for 2^-64.
    let r = Rule {
        pre: None,
        target: 0,
        post: None,
        bodies: vec![Body { chance: Some(500), syms: vec![0] }, Body { chance: Some(500), syms: vec![1] }],
    };
    let mut rules = Rules::default();
    rules.add(&r);
    gen::add_rule(rng, &sys, &v, &r)?;
    let len = rng.range(1, 3);
    let s = vec![0; len];
    let input = v.string(&s);
    let got = lib("derive", || sys.derive(input, RunSettings::for_max_iterations(80)).map_err(|e| e.to_string()))??;
    let got = v.back(&got)?;
    ensure!(got == vec![1; len], "80 iterations of a symbol that becomes another with chance 1/2 left {}", v.show(&got));
    // Every iteration leaves its mark.
    let r = Rule {
        pre: None,
        target: 2,
        post: None,
        bodies: vec![Body { chance: None, syms: vec![2, 1] }, Body { chance: None, syms: vec![2, 1] }, Body { chance: Some(100), syms: vec![2, 1] }],
    };
    gen::add_rule(rng, &sys, &v, &r)?;
    let k = rng.range(0, 60);
    let got = lib("derive", || sys.derive(v.string(&[2, 1]), RunSettings::from(k)).map_err(|e| e.to_string()))??;
    let got = v.back(&got)?;
    ensure!(got.len() == k + 2 && got[0] == 2, "{k} iterations of X -> X Y gave {}", v.show(&got));
    cov.distinct(&format!("{:?}{len}{k}", v.names));
    Ok(())
}

/// The library's own interpretations agree on the settings they were given.
fn run_settings(rng: &mut Rng) -> Case {
    let n = rng.range(0, 1000);
    let t = AbopTurtleInterpretation::new(n, 3.0);
    ensure!(t.run_settings().max_iterations == n, "an interpretation for {n} iterations asks for {}", t.run_settings().max_iterations);
    let s = SvgPathInterpretation::new_with(1, 2, t.clone());
    ensure!(s.run_settings().max_iterations == n, "an SVG of an interpretation for {n} iterations asks for {}", s.run_settings().max_iterations);
    ensure!(
        NullInterpretation::default().run_settings().max_iterations == RunSettings::default().max_iterations,
        "the null interpretation does not use the default settings"
    );
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 499 == 7 {
        return very_long(rng, cov, tier);
    }
    if i % 97 == 5 {
        return sparse(rng, cov);
    }
    match i % 20 {
        0 => long_runs(rng, cov, tier),
        1 => random_alternatives(rng, cov),
        2 => {
            run_settings(rng)?;
            general(rng, cov, tier)
        }
        _ => general(rng, cov, tier),
    }
}
