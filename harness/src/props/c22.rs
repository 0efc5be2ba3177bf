//! User-supplied stores receive exactly what is parsed, in order.
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, LinkedList};

use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::SymbolStore;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{Body, Rule, Vocab};
use crate::props::c20::rule_key;
use crate::rng::Rng;

/// A store of the user's own. It writes down what it receives, and may refuse at some point.
#[derive(Default)]
struct Symbols {
    got: RefCell<Vec<u32>>,
    fail_at: Cell<Option<usize>>,
}

impl SymbolStore for Symbols {
    fn add_symbol<S>(&self, symbol: S) -> rusty_systems::Result<Symbol>
    where
        S: TryInto<Symbol>,
        S::Error: Into<Error>,
    {
        let s = symbol.try_into().map_err(Into::into)?;
        if self.fail_at.get() == Some(self.got.borrow().len()) {
            return Err(Error::general("the symbol store is full"));
        }
        self.got.borrow_mut().push(s.code());
        Ok(s)
    }
    fn get_symbol(&self, name: &str) -> Option<Symbol> {
        let s = Symbol::build(name).ok()?;
        self.got.borrow().contains(&s.code()).then_some(s)
    }
}

#[derive(Default)]
struct Rules {
    got: RefCell<Vec<Production>>,
    full: Cell<bool>,
}

impl ProductionStore for Rules {
    fn add_production<P>(&self, production: P) -> rusty_systems::Result<Production>
    where
        P: TryInto<Production>,
        P::Error: Into<Error>,
    {
        let p = production.try_into().map_err(Into::into)?;
        if self.full.get() {
            return Err(Error::execution("the rule store is full"));
        }
        self.got.borrow_mut().push(p.clone());
        Ok(p)
    }
}

/// Left context, target, right context, bodies.
fn in_order(r: &Rule) -> Vec<usize> {
    let mut o: Vec<usize> = r.pre.iter().flatten().copied().collect();
    o.push(r.target);
    o.extend(r.post.iter().flatten());
    o.extend(r.bodies.iter().flat_map(|b| &b.syms));
    o
}

fn codes(v: &Vocab, s: &[usize]) -> Vec<u32> {
    s.iter().map(|i| v.syms[*i].code()).collect()
}

fn list(s: &[u32]) -> String {
    let names: Vec<String> = s.iter().take(40).map(|c| Symbol::from_code(*c).to_string()).collect();
    format!("[{}{}] ({} symbols)", names.join(" "), if s.len() > 40 { " ..." } else { "" }, s.len())
}

/// The symbols listed are exactly these.
fn listed(what: &str, x: &impl SymbolIterable, want: &[u32]) -> Case {
    let got: Vec<u32> = lib("all_symbols_iter", || x.all_symbols_iter().map(|s| s.code()).collect())?;
    ensure!(got == want, "{what} lists the symbols {} instead of {}", list(&got), list(want));
    let got: Vec<Symbol> = lib("all_symbols", || x.all_symbols())?;
    ensure!(got.iter().map(|s| s.code()).eq(want.iter().copied()), "{what} collects other symbols than it lists");
    let set: HashSet<Symbol> = lib("all_symbols", || x.all_symbols())?;
    let want_set: HashSet<u32> = want.iter().copied().collect();
    ensure!(set.len() == want_set.len() && set.iter().all(|s| want_set.contains(&s.code())), "{what}: the set of its symbols has {} members instead of {}", set.len(), want_set.len());
    let linked: LinkedList<Symbol> = lib("all_symbols", || x.all_symbols())?;
    ensure!(linked.len() == want.len(), "{what} collects {} symbols instead of {}", linked.len(), want.len());
    // Another way of going through.
    let n = want.len();
    let (got, count, last) = lib("all_symbols_iter", || {
        let nth = x.all_symbols_iter().nth(n / 2).map(|s| s.code());
        (nth, x.all_symbols_iter().count(), x.all_symbols_iter().last().map(|s| s.code()))
    })?;
    ensure!(got == want.get(n / 2).copied() && count == n && last == want.last().copied(), "{what} lists other symbols when it is gone through in another way");
    Ok(())
}

fn all_listings(v: &Vocab, r: &Rule, p: &Production) -> Case {
    let shown = r.show(v);
    let want = codes(v, &in_order(r));
    listed(&format!("rule {shown}"), p, &want)?;
    let bodies: usize = r.bodies.iter().map(|b| b.syms.len()).sum();
    listed(&format!("the head of {shown}"), p.head(), &want[..want.len() - bodies])?;
    for (b, m) in p.all_bodies().iter().zip(&r.bodies).take(20) {
        listed(&format!("a body of {shown}"), b, &codes(v, &m.syms))?;
        listed(&format!("the string of a body of {shown}"), b.string(), &codes(v, &m.syms))?;
    }
    for c in [(p.head().pre_context(), &r.pre), (p.head().post_context(), &r.post)] {
        if let (Some(s), Some(m)) = c {
            listed(&format!("a context of {shown}"), s, &codes(v, m))?;
        }
    }
    Ok(())
}

fn same_rule(v: &Vocab, r: &Rule, p: &Production, what: &str) -> Case {
    let want = rule_key(&r.build(v)?);
    // A context that is empty, and none, mean the same.
    let norm = |s: &str| s.replace("Some(\"\")", "None");
    ensure!(norm(&rule_key(p)) == norm(&want), "{what}: {} instead of {}, which is {}", rule_key(p), want, r.show(v));
    Ok(())
}

fn text_rule(rng: &mut Rng, v: &Vocab, body: usize) -> (Rule, String) {
    let mut r = gen::rule(rng, v, Shape { contexts: 4, alternatives: 1, body, over: false });
    while !gen::body_as_text(v, &r.bodies[0]) {
        r.bodies[0].syms.remove(0);
    }
    let t = gen::rule_text(rng, v, &r, &r.bodies[0], true);
    (r, t)
}

/// A history of rules parsed into stores of the user's own.
pub fn own(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let (symbols, rules) = (Symbols::default(), Rules::default());
    let (mut want_symbols, mut want_rules): (Vec<u32>, Vec<Rule>) = (vec![], vec![]);
    let mut trail = vec![];
    for _ in 0..rng.range(1, 8) {
        let (r, t) = text_rule(rng, v, 8);
        trail.push(t.clone());
        let occ = codes(v, &in_order(&r));
        match rng.below(8) {
            0 => {
                // The user's store refuses a symbol.
                let k = rng.below(occ.len());
                symbols.fail_at.set(Some(want_symbols.len() + k));
                let got = lib("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &t).map(|_| ()).map_err(|e| e.to_string()))?;
                symbols.fail_at.set(None);
                ensure!(got.is_err(), "{t:?}: the symbol store refuses a symbol, and nobody is told");
                ensure!(got.as_ref().is_err_and(|e| e.contains("the symbol store is full")), "{t:?}: the symbol store's error becomes {got:?}");
                let stored = symbols.got.borrow().clone();
                ensure!(stored.len() >= want_symbols.len() + k && stored[..want_symbols.len()] == want_symbols[..], "{t:?}: symbols are lost from the store");
                want_symbols = stored;
                rules.got.borrow_mut().truncate(want_rules.len());
                cov.count("symbols refused by the user's store", 1);
            }
            1 => {
                rules.full.set(true);
                let got = lib("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &t).map(|_| ()).map_err(|e| e.to_string()))?;
                rules.full.set(false);
                ensure!(got.as_ref().is_err_and(|e| e.contains("the rule store is full")), "{t:?}: the rule store's error becomes {got:?}");
                want_symbols = symbols.got.borrow().clone();
                cov.count("rules refused by the user's store", 1);
            }
            2 => {
                let bad = *rng.pick(&["", " ", "-> a", "a", "a b -> c", "a -> 2 b", "a < -> b"]);
                let got = lib("parse_and_add_production", || parse_and_add_production(&symbols, &rules, bad).is_ok())?;
                ensure!(!got, "{bad:?} is accepted as a rule");
            }
            _ => {
                let got = lib("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &t).map_err(|e| e.to_string()))?;
                let p = got.map_err(|e| format!("{t:?} is refused: {e}"))?;
                same_rule(v, &r, &p, &format!("{t:?} returns"))?;
                want_symbols.extend(occ);
                want_rules.push(r);
                cov.count("rules stored", 1);
            }
        }
        let got = symbols.got.borrow().clone();
        ensure!(got == want_symbols, "{t:?}: the store has received {} instead of {}", list(&got), list(&want_symbols));
        let got = rules.got.borrow();
        ensure!(got.len() == want_rules.len(), "{t:?}: the store has received {} rules instead of {}", got.len(), want_rules.len());
        for (p, r) in got.iter().zip(&want_rules) {
            same_rule(v, r, p, &format!("{t:?}: the store has received"))?;
        }
    }
    cov.count("symbols received", want_symbols.len() as u64);
    cov.distinct(&trail.join("\n"));
    cov.sample(|| format!("{trail:?}"));
    Ok(())
}

/// The rules go to a store that returns more than it was given: a system, which merges, or one of the user's own.
pub fn elsewhere(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let symbols = Symbols::default();
    let set: RefCell<HashSet<u32>> = RefCell::default();
    let (sys, other) = (System::new(), Swaps::default());
    let mut want: Vec<u32> = vec![];
    let mut rules: Vec<Rule> = vec![];
    for _ in 0..rng.range(2, 8) {
        let (mut r, mut t) = text_rule(rng, v, 5);
        if !rules.is_empty() && rng.chance(2, 3) {
            let o = rng.pick(&rules);
            (r.pre, r.target, r.post) = (o.pre.clone(), o.target, o.post.clone());
            t = gen::rule_text(rng, v, &r, &r.bodies[0], true);
        }
        let occ = codes(v, &in_order(&r));
        let p = if rng.chance(1, 2) {
            let p = lib("parse_and_add_production", || parse_and_add_production(&symbols, &sys, &t).map_err(|e| e.to_string()))?
                .map_err(|e| format!("{t:?} is refused: {e}"))?;
            let mut merged = r.clone();
            match rules.iter_mut().find(|o| (&o.pre, o.target, &o.post) == (&r.pre, r.target, &r.post)) {
                Some(o) => {
                    o.bodies.extend(r.bodies.iter().cloned());
                    merged = o.clone();
                }
                None => rules.push(r.clone()),
            }
            same_rule(v, &merged, &p, &format!("{t:?} put into a system returns"))?;
            lib("parse_and_add_production", || parse_and_add_production(&set, &other, &t).map_err(|e| e.to_string()))?
        } else {
            for c in &occ {
                set.borrow_mut().insert(*c);
            }
            lib("parse_and_add_production", || parse_and_add_production(&symbols, &other, &t).map_err(|e| e.to_string()))?
        };
        let p = p.map_err(|e| format!("{t:?} is refused: {e}"))?;
        let shown = p.body().map(|b| b.string().to_string()).map_err(|e| e.to_string())?;
        ensure!(p.all_bodies().len() == 1 && shown == "swapped" && p.head().target().to_string() == "swap", "{t:?}: the rule that the store answers with is not returned");
        let last = other.0.borrow().last().cloned();
        let Some(last) = last else { return Err(format!("{t:?} does not get to the rule store")) };
        same_rule(v, &r, &last, &format!("{t:?}: the store has received"))?;
        want.extend(occ);
        let got = symbols.got.borrow().clone();
        ensure!(got == want, "{t:?}: the store has received {} instead of {}", list(&got), list(&want));
        let all: HashSet<u32> = want.iter().copied().collect();
        ensure!(*set.borrow() == all, "{t:?}: the set has {} codes instead of {}", set.borrow().len(), all.len());
        cov.count("rules stored elsewhere", 1);
    }
    Ok(())
}

/// Answers with another rule.
#[derive(Default)]
struct Swaps(RefCell<Vec<Production>>);

impl ProductionStore for Swaps {
    fn add_production<P>(&self, production: P) -> rusty_systems::Result<Production>
    where
        P: TryInto<Production>,
        P::Error: Into<Error>,
    {
        self.0.borrow_mut().push(production.try_into().map_err(Into::into)?);
        parse_production("swap -> swapped")
    }
}

/// A history of additions to the standard cells.
pub fn cells(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let set: RefCell<HashSet<u32>> = RefCell::default();
    let vec: RefCell<Vec<Production>> = RefCell::default();
    let (mut want_set, mut want): (HashSet<u32>, Vec<Rule>) = (HashSet::new(), vec![]);
    let mut trail = vec![];
    for _ in 0..rng.range(1, 16) {
        let i = rng.below(v.len());
        let (n, s) = (&v.names[i], v.syms[i]);
        let how = rng.below(11);
        trail.push(format!("{how}{i}"));
        match how {
            0..=4 => {
                let padded = format!("{}{n}{}", rng.pick(&["", " ", "\t", "\u{3000}"]), rng.pick(&["", "\n", "\u{a0}"]));
                let got = lib("add_symbol", || match how {
                    0 => set.add_symbol(padded.as_str()),
                    1 => set.add_symbol(padded.clone()),
                    2 => set.add_symbol(s.code()),
                    _ => set.add_symbol(s),
                }.map_err(|e| e.to_string()))?
                .map_err(|e| format!("symbol {n:?} is refused: {e}"))?;
                ensure!(got == s, "adding {n:?} to a set returns {got}");
                want_set.insert(s.code());
            }
            5 => {
                let (r, t) = text_rule(rng, v, 6);
                let p = lib("parse_and_add_production", || parse_and_add_production(&set, &vec, &t).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("{t:?} is refused: {e}"))?;
                same_rule(v, &r, &p, &format!("{t:?} returns"))?;
                want_set.extend(codes(v, &in_order(&r)));
                want.push(r);
            }
            6 => {
                let (r, t) = text_rule(rng, v, 6);
                let p = lib("add_production", || match rng.below(3) {
                    0 => vec.add_production(t.as_str()),
                    1 => vec.add_production(t.clone()),
                    _ => parse_production(&t).and_then(|p| vec.add_production(p)),
                }.map_err(|e| e.to_string()))?
                .map_err(|e| format!("{t:?} is refused: {e}"))?;
                same_rule(v, &r, &p, &format!("{t:?} returns"))?;
                want.push(r);
            }
            7 => {
                // A rule with a head that the list may have already: it keeps them apart.
                let mut r = gen::rule(rng, v, Shape { contexts: 2, alternatives: 3, body: 4, over: false });
                if !want.is_empty() && rng.chance(1, 2) {
                    let o = rng.pick(&want);
                    (r.pre, r.target, r.post) = (o.pre.clone(), o.target, o.post.clone());
                }
                let p = r.build(v)?;
                let got = lib("add_production", || vec.add_production(p).map_err(|e| e.to_string()))??;
                same_rule(v, &r, &got, "adding a rule to a list returns")?;
                all_listings(v, &r, &got)?;
                want.push(r);
            }
            8 => {
                let bad = *rng.pick(&["", "a", "-> a", "a b -> c", "a -> 2 b"]);
                ensure!(lib("add_production", || vec.add_production(bad).is_err())?, "a list accepts {bad:?} as a rule");
                ensure!(lib("add_symbol", || set.add_symbol(" ").is_err())?, "a set accepts a blank symbol");
                ensure!(lib("add_symbol", || set.add_symbol(u32::MAX - 7).is_err())?, "a set accepts a code that was never given");
            }
            9 => {
                // A symbol made of a code is one as well, whether or not that code has a name.
                let code = match rng.below(3) {
                    0 => s.code(),
                    1 => u32::MAX - rng.below(5) as u32,
                    _ => rng.next() as u32,
                };
                let nameless = Symbol::from_code(code);
                let got = lib("add_symbol", || set.add_symbol(nameless).map_err(|e| e.to_string()))?.map_err(|e| format!("the symbol of code {code} is refused: {e}"))?;
                ensure!(got == nameless && got.code() == code, "adding the symbol of code {code} returns {got}");
                want_set.insert(code);
            }
            _ => {
                // The user looks, and takes the collections out and puts them back.
                let (a, b) = (set.take(), vec.take());
                set.replace(a);
                vec.replace(b);
            }
        }
        ensure!(*set.borrow() == want_set, "the set has {} codes instead of {}", set.borrow().len(), want_set.len());
        for i in 0..v.len() {
            let got = lib("get_symbol", || set.get_symbol(&v.names[i]))?;
            let want = want_set.contains(&v.syms[i].code()).then_some(v.syms[i]);
            ensure!(got == want, "the set finds {got:?} instead of {want:?} for {:?}", v.names[i]);
        }
        let got = vec.borrow();
        ensure!(got.len() == want.len(), "the list has {} rules instead of {}", got.len(), want.len());
        for (p, r) in got.iter().zip(&want) {
            same_rule(v, r, p, "the list keeps")?;
        }
    }
    // The list works as the rules of a derivation.
    cov.count("additions to cells", trail.len() as u64);
    cov.distinct(&format!("{:?} {trail:?}", v.names));
    Ok(())
}

pub fn listings(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let len = gen::length(rng, 12, 3000);
    let s = gen::syms(rng, v.len(), len);
    listed("a string", &v.string(&s), &codes(v, &s))?;
    let t = gen::string_text(rng, v, &s);
    let p = lib("parse_prod_string", || parse_prod_string(&t).map_err(|e| e.to_string()))??;
    listed("a string that was read", &p, &codes(v, &s))?;
    for _ in 0..4 {
        let mut r = gen::rule(rng, v, Shape { contexts: 5, alternatives: 6, body: 6, over: true });
        if rng.chance(1, 4) {
            // Empty contexts and bodies among others.
            if rng.chance(1, 2) {
                r.pre = Some(vec![]);
            }
            if rng.chance(1, 2) {
                r.post = Some(vec![]);
            }
            r.bodies.insert(0, Body { chance: None, syms: vec![] });
        }
        let mut p = r.build(v)?;
        all_listings(v, &r, &p)?;
        let mut o = gen::rule(rng, v, Shape { contexts: 0, alternatives: 3, body: 5, over: true });
        p.merge(o.build(v)?);
        r.bodies.append(&mut o.bodies);
        all_listings(v, &r, &p)?;
        let b = Body { chance: None, syms: vec![rng.below(v.len())] };
        p.add_body(b.build(v)?);
        r.bodies.push(b);
        all_listings(v, &r, &p)?;
        cov.count("rules listed", 3);
        cov.distinct(&format!("{:?} {}", v.names, r.show(v)));
    }
    Ok(())
}

/// Rules of extreme size, listed, stored and added.
fn big(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let v = gen::vocab(rng, 5, Place::Text)?;
    let n = if tier == Tier::Quick { 200_000 } else { 600_000 };
    let mut r = Rule { pre: None, target: 0, post: None, bodies: vec![] };
    for i in 0..n {
        let len = [1, 0, 2, 1, 0][i % 5];
        r.bodies.push(Body { chance: None, syms: gen::syms(rng, 5, len) });
    }
    let head = r.head(&v)?;
    let mut p = Production::new(head, ProductionBody::new(v.string(&r.bodies[0].syms)));
    for b in &r.bodies[1..] {
        p.add_body(ProductionBody::new(v.string(&b.syms)));
    }
    listed("a rule of very many bodies", &p, &codes(&v, &in_order(&r)))?;
    let sys = System::new();
    lib("add_production", || sys.add_production(p).map(|_| ()).map_err(|e| e.to_string()))??;
    let used: HashSet<usize> = in_order(&r).into_iter().collect();
    ensure!(lib("symbol_len", || sys.symbol_len())? == used.len(), "a rule of very many bodies has other symbols");
    cov.max("bodies of a rule", n as u64);
    // A long text.
    let mut r = Rule { pre: Some(gen::syms(rng, 5, n / 4)), target: 0, post: Some(gen::syms(rng, 5, n / 3)), bodies: vec![Body { chance: Some(500), syms: gen::syms(rng, 5, n) }] };
    r.pre.as_mut().unwrap().push(1);
    let t = gen::rule_text(rng, &v, &r, &r.bodies[0], true);
    let (symbols, rules) = (Symbols::default(), Rules::default());
    let p = lib("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &t).map_err(|e| e.to_string()))??;
    let want = codes(&v, &in_order(&r));
    ensure!(*symbols.got.borrow() == want, "of a very long rule the store has received {}", list(&symbols.got.borrow()));
    ensure!(rules.got.borrow().len() == 1 && rule_key(&rules.got.borrow()[0]) == rule_key(&p), "of a very long rule the store has received another");
    all_listings(&v, &r, &p)?;
    cov.max("symbols of a rule", want.len() as u64);
    // A list keeps all it is given, one like the other or not.
    let list: RefCell<Vec<Production>> = RefCell::default();
    let set: RefCell<HashSet<u32>> = RefCell::default();
    let total = *rng.pick(&[3_000, 20_000, 70_000]);
    let mut keys: Vec<String> = vec![];
    let mut turn = rng.below(3);
    for k in 0..total {
        if rng.chance(1, 400) {
            turn = rng.below(3);
        }
        let t = [format!("{} -> x {}", v.names[0], v.names[1]), format!("{} -> x {}", v.names[1], v.names[0]), format!("{} -> x{}", v.names[0], k % 5)][turn].clone();
        let p = lib("adding a rule", || if k % 2 == 0 { list.add_production(t.as_str()) } else { parse_and_add_production(&set, &list, &t) }.map_err(|e| e.to_string()))??;
        keys.push(rule_key(&p));
        ensure!(list.borrow().len() == k + 1, "a list has {} rules after {} were added, the last {t:?}", list.borrow().len(), k + 1);
    }
    ensure!(list.borrow().iter().map(rule_key).eq(keys.iter().cloned()), "a list of {total} rules keeps others than it was given");
    cov.max("rules of a list", total as u64);
    // And a set keeps all symbols.
    let many = *rng.pick(&[10_000u32, 70_000, 140_000]);
    let set: RefCell<HashSet<u32>> = RefCell::default();
    for c in 0..many {
        lib("add_symbol", || set.add_symbol(Symbol::from_code(u32::MAX - c)).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    let kept = set.borrow();
    ensure!(kept.len() == many as usize && (0..many).all(|c| kept.contains(&(u32::MAX - c))), "a set has {} codes after {many} were added", kept.len());
    cov.distinct(&format!("big {}", rng.next()));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 1999 == 5 {
        return big(rng, cov, tier);
    }
    let n = rng.range(1, 9);
    let v = gen::vocab(rng, n, Place::Text)?;
    match i % 3 {
        0 if i % 2 == 0 => elsewhere(rng, &v, cov),
        0 => own(rng, &v, cov),
        1 => cells(rng, &v, cov),
        _ => listings(rng, &v, cov),
    }
}
