//! A refused request changes nothing: two worlds are given the same requests, but one of them
//! is spared those that the other refused.
use std::cell::RefCell;
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use rusty_systems::parser::parse_and_add_production;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, SystemFamily};

use crate::conc;
use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place, Shape};
use crate::model::{Body, Rule, Vocab};
use crate::props::c11;
use crate::rng::Rng;

static WORLDS: AtomicU64 = AtomicU64::new(0);

struct World {
    id: u64,
    sys: System,
    symbols: RefCell<HashSet<u32>>,
    rules: RefCell<Vec<Production>>,
    families: Vec<Option<Arc<SystemFamily>>>,
}

impl World {
    fn new() -> World {
        World {
            id: WORLDS.fetch_add(1, Ordering::Relaxed),
            sys: System::new(),
            symbols: RefCell::default(),
            rules: RefCell::default(),
            families: vec![None; 3],
        }
    }
    fn family(&self, i: usize) -> String {
        format!("C20 {} {i}", self.id)
    }
}

/// A rule, so that two can be compared in full.
pub fn rule_key(p: &Production) -> String {
    let list = |s: &ProductionString| s.symbols().iter().map(|s| s.code().to_string()).collect::<Vec<_>>().join(" ");
    let mut o = format!("{:?} < {} > {:?} ->", p.head().pre_context().map(list), p.head().target().code(), p.head().post_context().map(list));
    for b in p.all_bodies() {
        o += &format!(" {}:{} {} |", b.chance().is_user_set(), b.chance().unwrap_or(-1.0).to_bits(), list(b.string()));
    }
    o
}

/// A conversion that fails, or panics.
struct Bad(bool);

impl TryFrom<Bad> for Production {
    type Error = Error;
    fn try_from(b: Bad) -> Result<Production, Error> {
        if b.0 {
            panic!("the user's conversion panics");
        }
        Err(Error::general("the user's conversion fails"))
    }
}

impl TryFrom<Bad> for Symbol {
    type Error = Error;
    fn try_from(b: Bad) -> Result<Symbol, Error> {
        if b.0 {
            panic!("the user's conversion panics");
        }
        Err(Error::general("the user's conversion fails"))
    }
}

impl family::TryIntoFamily for Bad {
    fn into_family(self) -> rusty_systems::Result<Arc<SystemFamily>> {
        if self.0 {
            panic!("the user's conversion panics");
        }
        Err(Error::general("the user's conversion fails"))
    }
}

/// A request, the same in both worlds.
#[derive(Clone, Debug)]
enum Ask {
    Rule(String, usize),
    Built(Rule),
    BadRule(bool, usize),
    Symbol(String, usize),
    Code(u32, usize),
    BadSymbol(bool, usize),
    Family(usize, Vec<usize>, usize),
    BlankFamily(String),
    OfFamily(usize, usize),
    Chance(u32),
}

/// Makes the request. Ok is what it returned, Err that it was refused.
fn make(w: &mut World, a: &Ask, v: &Vocab) -> Result<Result<String, String>, String> {
    let mut got = None;
    let done = match a {
        Ask::Rule(t, how) => lib("adding a rule", || match how {
            0 => w.sys.add_production(t.as_str()),
            1 => w.sys.add_production(t.clone()),
            2 => w.rules.add_production(t.as_str()),
            3 => w.rules.add_production(t.clone()),
            4 => parse_and_add_production(&w.symbols, &w.rules, t),
            5 => parse_and_add_production(&w.sys, &w.sys, t),
            6 => parse_and_add_production(&w.symbols, &w.sys, t),
            7 => parse_and_add_production(&w.sys, &w.rules, t),
            _ => t.parse::<Production>().and_then(|p| w.sys.add_production(p)),
        }
        .map(|p| rule_key(&p))
        .map_err(|e| e.to_string()))?,
        Ask::Built(r) => {
            let p = r.build(v)?;
            lib("adding a rule", || w.sys.add_production(p).map(|p| rule_key(&p)).map_err(|e| e.to_string()))?
        }
        Ask::BadRule(true, how) => {
            let r = user_panics(|| match how {
                0 => w.sys.add_production(Bad(true)).is_ok(),
                _ => w.rules.add_production(Bad(true)).is_ok(),
            });
            ensure!(r.is_none(), "a conversion's panic is not passed on");
            Err("panic".into())
        }
        Ask::BadRule(_, how) => lib("adding a rule", || match how {
            0 => w.sys.add_production(Bad(false)),
            _ => w.rules.add_production(Bad(false)),
        }
        .map(|p| rule_key(&p))
        .map_err(|e| e.to_string()))?,
        Ask::Symbol(t, how) => lib("adding a symbol", || match how {
            0 => w.sys.add_symbol(t.as_str()),
            1 => w.sys.add_symbol(t.clone()),
            2 => w.symbols.add_symbol(t.as_str()),
            _ => w.symbols.add_symbol(t.clone()),
        }
        .map(|s| s.code().to_string())
        .map_err(|e| e.to_string()))?,
        Ask::Code(c, how) => lib("adding a symbol", || match how {
            0 => w.sys.add_symbol(*c),
            _ => w.symbols.add_symbol(*c),
        }
        .map(|s| s.code().to_string())
        .map_err(|e| e.to_string()))?,
        Ask::BadSymbol(true, how) => {
            let r = user_panics(|| match how {
                0 => w.sys.add_symbol(Bad(true)).is_ok(),
                _ => w.symbols.add_symbol(Bad(true)).is_ok(),
            });
            ensure!(r.is_none(), "a conversion's panic is not passed on");
            Err("panic".into())
        }
        Ask::BadSymbol(_, how) => lib("adding a symbol", || match how {
            0 => w.sys.add_symbol(Bad(false)),
            _ => w.symbols.add_symbol(Bad(false)),
        }
        .map(|s| s.code().to_string())
        .map_err(|e| e.to_string()))?,
        Ask::Family(i, syms, how) => {
            let name = w.family(*i);
            let r = lib("registering a family", || {
                let mut b = SystemFamily::define();
                for (k, s) in syms.iter().enumerate() {
                    b = if k % 2 == 0 { b.with_terminal(&v.names[*s], None) } else { b.with_production(&v.names[*s], None) };
                }
                match how {
                    0 => b.register(&name),
                    _ => b.build(&name).and_then(family::register),
                }
                .map_err(|e| e.to_string())
            })?;
            match r {
                Ok(f) => {
                    got = Some((*i, f));
                    Ok("registered".to_string())
                }
                Err(e) => Err(e),
            }
        }
        Ask::BlankFamily(n) => {
            let r = lib("registering a family", || SystemFamily::define().register(n).map_err(|e| e.to_string()))?;
            ensure!(r.is_err(), "a family of the blank name {n:?} is registered");
            let r = lib("building a family", || SystemFamily::define().build(n).map_err(|e| e.to_string()))?;
            ensure!(r.is_err(), "a family of the blank name {n:?} is built");
            ensure!(lib("get_family", || family::get_family(n).is_none() && !family::family_exists(n))?, "a family of the blank name {n:?} is found");
            Err("blank".into())
        }
        Ask::OfFamily(i, how) => {
            let name = w.family(*i);
            match how {
                0 => lib("of_family", || System::of_family(name.as_str()).map(|s| s.symbol_len().to_string()).map_err(|e| e.to_string()))?,
                1 => lib("of_family", || System::of_family(Bad(false)).map(|s| s.symbol_len().to_string()).map_err(|e| e.to_string()))?,
                2 => {
                    user_panics(|| System::of_family(Bad(true)).is_ok());
                    Err("panic".into())
                }
                _ => {
                    // A blank symbol name is no symbol.
                    let f = lib("build", || SystemFamily::define().with_terminal(" ", None).build(&name).map_err(|e| e.to_string()))??;
                    lib("of_family", || System::of_family(f).map(|s| s.symbol_len().to_string()).map_err(|e| e.to_string()))?
                }
            }
        }
        Ask::Chance(bits) => {
            let c = f32::from_bits(*bits);
            lib("try_with_chance", || ProductionBody::try_with_chance(c, ProductionString::empty()).map(|b| format!("{:?}", b.chance())).map_err(|e| e.to_string()))?
        }
    };
    if let Some((i, f)) = got {
        ensure!(w.families[i].is_none(), "a family is registered under a name that is taken");
        w.families[i] = Some(f);
    }
    Ok(done)
}

/// Both worlds answer every question alike.
fn same(a: &World, b: &World, v: &Vocab, text: &[usize], exact: bool) -> Case {
    let len = |w: &World| lib("lengths", || (w.sys.symbol_len(), w.sys.production_len()));
    let (x, y) = (len(a)?, len(b)?);
    ensure!(x == y, "there are {} symbols and {} rules instead of {} and {}", x.0, x.1, y.0, y.1);
    for n in &v.names {
        let q = |w: &World| lib("get_symbol", || (w.sys.get_symbol(n).is_some(), w.symbols.get_symbol(n).is_some()));
        let (x, y) = (q(a)?, q(b)?);
        ensure!(x == y, "symbol {n:?}: system and set say {x:?} instead of {y:?}");
    }
    ensure!(*a.symbols.borrow() == *b.symbols.borrow(), "the set has the codes {:?} instead of {:?}", a.symbols.borrow(), b.symbols.borrow());
    let list = |w: &World| w.rules.borrow().iter().map(rule_key).collect::<Vec<_>>();
    ensure!(list(a) == list(b), "the list has the rules {:?} instead of {:?}", list(a), list(b));
    for (i, (f, g)) in a.families.iter().zip(&b.families).enumerate() {
        ensure!(f.is_some() == g.is_some(), "family {i} is registered in one world only");
        for (w, f) in [(a, f), (b, g)] {
            let name = w.family(i);
            let got = lib("get_family", || family::get_family(&name))?;
            ensure!(lib("family_exists", || family::family_exists(&name))? == f.is_some(), "family {name:?} exists or not, but not as it should");
            match (got, f) {
                (None, None) => {}
                (Some(x), Some(y)) => ensure!(Arc::ptr_eq(&x, y), "family {name:?} is not any more the one that was registered"),
                (x, _) => return Err(format!("family {name:?} is {}", if x.is_some() { "found though it was refused" } else { "lost" })),
            }
        }
        if let (Some(f), Some(g)) = (f, g) {
            let set = |f: &SystemFamily| f.symbols().map(|s| s.name.clone()).collect::<BTreeSet<_>>();
            ensure!(set(f) == set(g), "family {i} has the symbols {:?} instead of {:?}", set(f), set(g));
        }
    }
    let derive = |w: &World| lib("derive", || w.sys.derive(v.string(text), 2.into()).map_err(|e| e.to_string()));
    if exact {
        let (x, y) = (derive(a)?, derive(b)?);
        ensure!(x == y, "{} becomes {x:?} instead of {y:?}", v.show(text));
    }
    Ok(())
}

fn ask(rng: &mut Rng, v: &Vocab, usual: usize, exact: bool, ws: &[char]) -> Ask {
    let fresh = |rng: &mut Rng| v.names[rng.below(v.len())].clone();
    match rng.below(24) {
        0..=4 => {
            // Something that can be accepted.
            let mut r = gen::rule(rng, v, Shape { contexts: 2, alternatives: if exact { 1 } else { 4 }, body: 3, over: false });
            let cut = |s: &mut Vec<usize>| s.iter_mut().for_each(|x| *x %= usual);
            r.pre.iter_mut().for_each(cut);
            r.post.iter_mut().for_each(cut);
            r.target %= usual;
            r.bodies.iter_mut().for_each(|b| cut(&mut b.syms));
            if exact {
                // Rules of one head never differ, so that derivations are determined.
                let mut k = r.target * 7 + r.pre.iter().flatten().sum::<usize>() * 3 + r.post.iter().flatten().sum::<usize>();
                k += r.pre.as_ref().map_or(0, |p| p.len()) + 2 * r.post.as_ref().map_or(0, |p| p.len());
                r.bodies = vec![Body { chance: None, syms: (0..k % 3).map(|j| (k + j) % usual).collect() }];
            }
            Ask::Built(r)
        }
        5..=12 => {
            // A rule with something wrong, with symbols known and unknown, and heads in use.
            let head = match rng.below(4) {
                0 => fresh(rng),
                1 => format!("{} < {}", fresh(rng), fresh(rng)),
                2 => format!("{} > {}", fresh(rng), fresh(rng)),
                _ => v.names[rng.below(usual)].clone(),
            };
            let t = match rng.below(12) {
                0 => format!("{head} {}", fresh(rng)),
                1 => format!("{head} {} -> {}", fresh(rng), fresh(rng)),
                2 => format!("-> {} {}", fresh(rng), fresh(rng)),
                3 => format!("{head} -> {} {}", rng.pick(&["1.5", "0", "-0.5", "nan", "inf", "-inf", "1e9", "1.0000002", "0.0", "-0"]), fresh(rng)),
                4 => format!("{} < -> {}", fresh(rng), fresh(rng)),
                5 => format!("< > {} -> {}", fresh(rng), fresh(rng)),
                6 => format!("{} {} < {} {} > {} -> {}", fresh(rng), fresh(rng), fresh(rng), fresh(rng), fresh(rng), fresh(rng)),
                7 => rng.pick(&["", " ", "\n", "->", " -> ", "<", "- >", "a - > b"]).to_string(),
                // White space that separates nothing in a rule, so that a name would be blank.
                8 => format!("{head} -> {} {} {}", fresh(rng), rng.pick(&["\u{3000}", "\u{a0}", "\u{2003}\u{85}"]), fresh(rng)),
                9 => format!("{} \u{3000} < {} -> {}", fresh(rng), fresh(rng), fresh(rng)),
                10 => format!("{} > {} \u{a0} -> {}", fresh(rng), fresh(rng), fresh(rng)),
                _ => c11::any_text(rng, ws),
            };
            Ask::Rule(t, rng.below(9))
        }
        13 => Ask::BadRule(rng.chance(1, 2), rng.below(2)),
        14 => Ask::BadSymbol(rng.chance(1, 2), rng.below(2)),
        15 | 16 => {
            let t = match rng.below(3) {
                0 => rng.pick(&["", " ", "\t", "\u{3000}", "\r\n"]).to_string(),
                _ => v.names[rng.below(usual)].clone(),
            };
            Ask::Symbol(t, rng.below(4))
        }
        17 => Ask::Code(if rng.chance(1, 2) { u32::MAX - rng.below(9) as u32 } else { v.syms[rng.below(usual)].code() }, rng.below(2)),
        18..=20 => {
            let len = rng.below(4);
            Ask::Family(rng.below(3), gen::syms(rng, v.len(), len), rng.below(2))
        }
        21 => Ask::BlankFamily(rng.pick(&["", " ", "\t \n", "\u{3000}"]).to_string()),
        22 => Ask::OfFamily(rng.below(3), rng.below(4)),
        _ => Ask::Chance(match rng.below(3) {
            0 => rng.next() as u32,
            1 => (1.0f32).to_bits() + rng.below(3) as u32 - 1,
            _ => *rng.pick(&[0, 0x8000_0000, 1, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000]),
        }),
    }
}

/// What nobody has reason to refuse is accepted, whatever was refused before.
fn still_accepted(rng: &mut Rng, cov: &mut Cov) -> Case {
    let mut w = World::new();
    let v = Vocab::new(vec!["n".into(), "m".into()])?;
    for how in 0..9 {
        let q = Ask::Rule("n < m -> 0.5 n".into(), how);
        let got = make(&mut w, &q, &v)?;
        ensure!(got.is_ok(), "after others were refused, {q:?} is refused as well: {got:?}");
    }
    lib("add_symbol", || w.sys.add_symbol("n").map(|_| ()).map_err(|e| e.to_string()))??;
    lib("add_symbol", || w.symbols.add_symbol("m").map(|_| ()).map_err(|e| e.to_string()))??;
    lib("try_with_chance", || ProductionBody::try_with_chance(0.5, v.string(&[0])).map(|_| ()).map_err(|e| e.to_string()))??;
    let name = w.family(rng.below(3));
    lib("register", || SystemFamily::define().with_terminal("n", None).register(&name).map(|_| ()).map_err(|e| e.to_string()))??;
    lib("of_family", || System::of_family(name).map(|_| ()).map_err(|e| e.to_string()))??;
    cov.count("requests accepted", 14);
    Ok(())
}

pub fn history(rng: &mut Rng, cov: &mut Cov) -> Case {
    let usual = rng.range(1, 6);
    let n = usual + rng.range(1, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let ws = [' ', '\u{3000}', '\u{85}', '\t'];
    let exact = rng.chance(1, 2);
    let (mut a, mut b) = (World::new(), World::new());
    let mut log = vec![];
    let mut refused = 0;
    for _ in 0..rng.range(3, if cfg!(miri) { 9 } else { 40 }) {
        let q = ask(rng, &v, usual, exact, &ws);
        let got = make(&mut a, &q, &v)?;
        let text = gen::syms(rng, usual, 6);
        match &got {
            Ok(x) => {
                // What an accepted rule returns shows all that went before.
                let twin = make(&mut b, &q, &v)?;
                ensure!(twin.as_ref() == Ok(x), "after requests that were refused, {q:?} yields {x:?} instead of {twin:?}; requests: {log:?}");
                cov.count("requests accepted", 1);
            }
            Err(_) => {
                refused += 1;
                cov.count("requests refused", 1);
                // Rarely, again and again.
                if !cfg!(miri) && rng.chance(1, 20_000) {
                    let times = *rng.pick(&[300, 1_500, 5_000, 70_000]);
                    for _ in 0..times {
                        ensure!(make(&mut a, &q, &v)?.is_err(), "what was refused, {q:?}, is accepted when asked for again; requests: {log:?}");
                    }
                    cov.count("requests refused", times);
                    cov.max("refusals in a row", times);
                    still_accepted(rng, cov)?;
                }
                same(&a, &b, &v, &text, false).map_err(|e| format!("after the refused request {q:?}: {e}; requests: {log:?}"))?;
            }
        }
        log.push(format!("{}{q:?}", if got.is_err() { "refused " } else { "" }));
    }
    // Texts that look malformed may be rules after all, even with alternatives.
    let determined = exact && !log.iter().any(|l| l.starts_with("Rule("));
    for _ in 0..4 {
        let text = gen::syms(rng, usual, 8);
        same(&a, &b, &v, &text, determined).map_err(|e| format!("{e}; requests: {log:?}"))?;
    }
    // All alternatives of all heads.
    for i in 0..v.len() {
        let probe = Rule { pre: None, target: i, post: None, bodies: vec![Body { chance: None, syms: vec![] }] };
        let (x, y) = (make(&mut a, &Ask::Built(probe.clone()), &v)?, make(&mut b, &Ask::Built(probe), &v)?);
        ensure!(x == y, "the rule of {:?} is {x:?} instead of {y:?}; requests: {log:?}", v.names[i]);
    }
    if rng.chance(1, 50) {
        still_accepted(rng, cov)?;
    }
    cov.max("refused requests in a history", refused);
    cov.distinct(&log.join("\n"));
    cov.sample(|| log.join("; "));
    Ok(())
}

/// Refused requests amid accepted ones, by several threads at once.
fn round(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    let heads = rng.range(1, 3);
    let mut names: Vec<String> = (0..heads).map(|h| format!("R{h}")).collect();
    names.extend((0..nthreads * per).map(|m| format!("r{m}")));
    names.push("refused".into());
    let v = Vocab::new(names)?;
    let sys = System::new();
    let id = WORLDS.fetch_add(1, Ordering::Relaxed);
    let fam = format!("C20 {id}");
    let first = lib("register", || SystemFamily::define().with_terminal("f", None).register(&fam).map_err(|e| e.to_string()))??;
    let salt = rng.next();
    let logs = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut mine: Vec<(usize, usize)> = vec![];
        for k in 0..per {
            let h = rng.below(heads);
            let head = v.names[h].as_str();
            match rng.below(9) {
                0 => ensure!(lib("add_production", || sys.add_production(format!("{head} -> 1.5 refused")).is_err())?, "a chance of 1.5 is accepted"),
                1 => ensure!(lib("add_production", || sys.add_production(format!("refused {head} -> refused")).is_err())?, "two targets are accepted"),
                2 => ensure!(lib("add_production", || sys.add_production(Bad(false)).is_err())?, "a failed conversion is accepted"),
                3 => ensure!(lib("add_symbol", || sys.add_symbol(u32::MAX).is_err() && sys.add_symbol(" ").is_err())?, "no symbol is accepted"),
                4 => {
                    let r = lib("register", || SystemFamily::define().with_terminal("g", None).register(&fam).is_err())?;
                    ensure!(r, "a family name is taken twice");
                }
                5 if user_panics(|| sys.add_production(Bad(true)).is_ok()).is_some() => return Err("a conversion's panic is not passed on".into()),
                _ => {
                    let m = t * per + k;
                    lib("add_production", || sys.add_production(format!("{head} -> r{m}")).map_err(|e| e.to_string()))??;
                    mine.push((h, m));
                }
            }
        }
        Ok(mine)
    })?;
    let all: BTreeSet<(usize, usize)> = logs.iter().flatten().copied().collect();
    let used: BTreeSet<usize> = all.iter().map(|x| x.0).collect();
    let (p, s) = lib("lengths", || (sys.production_len(), sys.symbol_len()))?;
    ensure!(p == used.len(), "{p} rules instead of {}", used.len());
    ensure!(s == used.len() + all.len(), "{s} symbols instead of {}", used.len() + all.len());
    ensure!(lib("get_symbol", || sys.get_symbol("refused").is_none())?, "the symbol of refused rules is known");
    for h in &used {
        let r = Rule { pre: None, target: *h, post: None, bodies: vec![Body { chance: None, syms: vec![] }] };
        let p = r.build(&v)?;
        let p = lib("add_production", || sys.add_production(p).map_err(|e| e.to_string()))??;
        let got: BTreeSet<Vec<usize>> = p.all_bodies().iter().map(|b| v.back(b.string())).collect::<Result<_, _>>()?;
        let mut want: BTreeSet<Vec<usize>> = all.iter().filter(|x| x.0 == *h).map(|x| vec![heads + x.1]).collect();
        want.insert(vec![]);
        ensure!(got == want && p.all_bodies().len() == want.len(), "rule {h} has the alternatives {got:?} instead of {want:?}");
    }
    let now = lib("get_family", || family::get_family(&fam))?;
    ensure!(now.is_some_and(|n| Arc::ptr_eq(&n, &first)), "the family is replaced by one that was refused");
    cov.count("concurrent rounds", 1);
    Ok(format!("{:?}", logs.iter().map(|l| l.iter().map(|x| x.0).collect::<Vec<_>>()).collect::<Vec<_>>()))
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    if i % 8 == 0 {
        let (n, level) = conc::shape(rng);
        let per = *rng.pick(&[2, 5, 20]);
        let t = round(rng, n, level, per, cov)?;
        cov.distinct(&format!("{n} {t}"));
        return Ok(());
    }
    history(rng, cov)
}
