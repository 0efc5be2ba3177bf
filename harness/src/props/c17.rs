//! Progress, whatever the users' own code does.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

use rusty_systems::error::Error;
use rusty_systems::parser;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::{get_code, get_name, SymbolStore};
use rusty_systems::system::family::{self, TryIntoFamily};

use crate::conc;
use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::ensure;
use crate::model::Vocab;
use crate::rng::Rng;

/// What is shared by all threads of a round.
struct Ctx {
    systems: Vec<System>,
    v: Vocab,
    heads: usize,
    marks: usize,
    families: Vec<String>,
    next_mark: AtomicUsize,
}

/// What a thread knows to have happened.
#[derive(Default)]
struct Log {
    /// (system, head, mark)
    rules: Vec<(usize, usize, usize)>,
    symbols: Vec<(usize, usize)>,
    families: Vec<(usize, usize)>,
    counts: BTreeMap<&'static str, u64>,
    violation: Option<String>,
}

impl Log {
    fn count(&mut self, n: &'static str) {
        *self.counts.entry(n).or_insert(0) += 1;
    }
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Fine,
    Fail,
    Panic,
    /// The conversion of the error panics.
    FailPanic,
}

/// A conversion the user wrote: it uses the library itself, and may fail or panic.
struct Conv<'a> {
    ctx: &'a Ctx,
    log: &'a RefCell<Log>,
    rng: Rng,
    depth: usize,
    end: End,
    rule: Option<Production>,
    symbol: Option<Symbol>,
    family: Option<Arc<SystemFamily>>,
}

struct UserError {
    panics: bool,
}

impl From<UserError> for Error {
    fn from(e: UserError) -> Error {
        if e.panics {
            panic!("the user's error conversion");
        }
        Error::general("the user's conversion failed")
    }
}

impl Conv<'_> {
    fn run(&mut self) -> Result<(), UserError> {
        for _ in 0..self.rng.below(3) {
            if let Err(e) = act(self.ctx, &mut self.rng, self.depth + 1, self.log) {
                self.log.borrow_mut().violation.get_or_insert(format!("within a conversion: {e}"));
            }
            self.log.borrow_mut().count("operations within conversions");
        }
        match self.end {
            End::Fine => Ok(()),
            End::Fail => Err(UserError { panics: false }),
            End::FailPanic => Err(UserError { panics: true }),
            End::Panic => panic!("the user's conversion"),
        }
    }
}

impl TryFrom<Conv<'_>> for Production {
    type Error = UserError;
    fn try_from(mut c: Conv) -> Result<Production, UserError> {
        c.run()?;
        Ok(c.rule.take().unwrap())
    }
}

impl TryFrom<Conv<'_>> for Symbol {
    type Error = UserError;
    fn try_from(mut c: Conv) -> Result<Symbol, UserError> {
        c.run()?;
        Ok(c.symbol.unwrap())
    }
}

impl TryIntoFamily for Conv<'_> {
    fn into_family(mut self) -> rusty_systems::Result<Arc<SystemFamily>> {
        self.run()?;
        Ok(self.family.take().unwrap())
    }
}

/// A store the user wrote.
struct Store<'a>(RefCell<Conv<'a>>);

impl SymbolStore for Store<'_> {
    fn add_symbol<S>(&self, symbol: S) -> rusty_systems::Result<Symbol>
    where
        S: TryInto<Symbol>,
        S::Error: Into<Error>,
    {
        self.0.borrow_mut().run()?;
        symbol.try_into().map_err(Into::into)
    }
    fn get_symbol(&self, _: &str) -> Option<Symbol> {
        None
    }
}

fn rule(ctx: &Ctx, head: usize, mark: usize) -> Result<Production, String> {
    let ctxs = |on: bool| on.then(|| ctx.v.string(&[0]));
    let h = ProductionHead::build(ctxs(head % 2 == 1), ctx.v.syms[1 + head], ctxs(head % 3 == 2)).map_err(|e| e.to_string())?;
    Ok(Production::new(h, ProductionBody::new(ctx.v.string(&[0, 1 + ctx.heads + mark]))))
}

/// Makes the call, whose conversion ends as stated. Whether it succeeded.
fn call<T>(what: &str, end: End, f: impl FnOnce() -> rusty_systems::Result<T>, log: &RefCell<Log>) -> Result<Option<T>, String> {
    match end {
        End::Fine => {
            let r = lib(what, || f().map_err(|e| e.to_string()))?.map_err(|e| format!("{what} fails: {e}"))?;
            Ok(Some(r))
        }
        End::Fail => {
            ensure!(lib(what, || f().is_err())?, "{what} succeeds although its conversion fails");
            log.borrow_mut().count("conversions failed");
            Ok(None)
        }
        End::Panic | End::FailPanic => {
            let r = user_panics(|| f().is_ok());
            ensure!(r != Some(true), "{what} succeeds although its conversion panics");
            log.borrow_mut().count("conversions panicked");
            Ok(None)
        }
    }
}

fn violated(log: &RefCell<Log>) -> Case {
    match log.borrow().violation.clone() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

fn act(ctx: &Ctx, rng: &mut Rng, depth: usize, log: &RefCell<Log>) -> Case {
    let s = rng.below(ctx.systems.len());
    let sys = &ctx.systems[s];
    let v = &ctx.v;
    let user = depth < 2 && rng.chance(1, 2);
    let end = if !user { End::Fine } else { *rng.pick(&[End::Fine, End::Fine, End::Fail, End::Panic, End::FailPanic]) };
    let mut conv = Conv { ctx, log, rng: Rng::new(rng.next(), "conv", 0), depth, end, rule: None, symbol: None, family: None };
    log.borrow_mut().count("operations");
    match rng.below(16) {
        0..=3 => {
            let head = rng.below(ctx.heads);
            let mark = ctx.next_mark.fetch_add(1, Ordering::Relaxed);
            if mark >= ctx.marks {
                return Ok(());
            }
            let p = rule(ctx, head, mark)?;
            let got = if user {
                conv.rule = Some(p);
                call("add_production", end, || sys.add_production(conv), log)?
            } else if rng.chance(1, 3) {
                let p = Some(p);
                call("add_production", end, || sys.add_production(p.unwrap()), log)?
            } else {
                let mut t = String::new();
                if head % 2 == 1 {
                    t += &format!("{} < ", v.names[0]);
                }
                t += &v.names[1 + head];
                if head % 3 == 2 {
                    t += &format!(" > {}", v.names[0]);
                }
                t += &format!(" -> {} {}", v.names[0], v.names[1 + ctx.heads + mark]);
                call("add_production", end, || sys.add_production(t.as_str()), log)?
            };
            if let Some(p) = got {
                ensure!(*p.head().target() == v.syms[1 + head], "adding a rule for {} returned one for {}", v.names[1 + head], p.head().target());
                log.borrow_mut().rules.push((s, head, mark));
            }
        }
        4 => {
            // A store of the user's own, with the system for the rules.
            let head = 6 * rng.below(ctx.heads.div_ceil(6));
            let mark = ctx.next_mark.fetch_add(1, Ordering::Relaxed);
            if mark >= ctx.marks {
                return Ok(());
            }
            let t = format!("{} -> {} {}", v.names[1 + head], v.names[0], v.names[1 + ctx.heads + mark]);
            let store = Store(RefCell::new(conv));
            let p = call("parse_and_add_production", end, || parser::parse_and_add_production(&store, sys, &t), log)?;
            if p.is_some() {
                log.borrow_mut().rules.push((s, head, mark));
            }
        }
        5 | 6 => {
            let i = rng.below(v.len());
            let got = if user {
                conv.symbol = Some(v.syms[i]);
                call("add_symbol", end, || sys.add_symbol(conv), log)?
            } else {
                call("add_symbol", end, || sys.add_symbol(v.names[i].as_str()), log)?
            };
            if let Some(g) = got {
                ensure!(g == v.syms[i], "adding symbol {:?} returned {g}", v.names[i]);
                log.borrow_mut().symbols.push((s, i));
            }
        }
        7 => {
            let i = rng.below(v.len());
            let got = lib("get_symbol", || sys.get_symbol(&v.names[i]))?;
            ensure!(got.is_none() || got == Some(v.syms[i]), "{:?} is found as {got:?}", v.names[i]);
        }
        8 => {
            let (p, q) = lib("lengths", || (sys.production_len(), sys.symbol_len()))?;
            ensure!(p <= ctx.heads && q <= v.len(), "{p} rules and {q} symbols are counted");
        }
        9 | 10 => {
            let len = rng.range(1, 6);
            let st: Vec<usize> = (0..len).map(|_| rng.below(1 + ctx.heads)).collect();
            let n = rng.below(3);
            let once = rng.chance(1, 2);
            let r = lib("derive", || {
                let st = v.string(&st);
                let r = if once { sys.derive_once(st) } else { sys.derive(st, n.into()) };
                r.map_err(|e| e.to_string())
            })?
            .map_err(|e| format!("deriving {} fails: {e}", v.show(&st)))?;
            v.back(&r)?;
        }
        11 => {
            let i = rng.below(v.len());
            let c = lib("get_code", || get_code(&v.names[i]).map_err(|e| e.to_string()))??;
            ensure!(c == v.syms[i].code(), "the code of {:?} is {c} and was {}", v.names[i], v.syms[i].code());
            let n = lib("get_name", || get_name(c))?;
            ensure!(n.as_ref() == Some(&v.names[i]), "the name of code {c} is {n:?}");
            let d = lib("display", || v.syms[i].to_string())?;
            ensure!(d == v.names[i], "{:?} displays as {d:?}", v.names[i]);
        }
        12 => {
            let f = rng.below(ctx.families.len());
            let name = &ctx.families[f];
            if rng.chance(1, 4) {
                // An initializer that panics. The registry is there for everyone all the same.
                let mut ran = false;
                let got = user_panics(|| {
                    family::get_or_init_family(name, || -> family::SystemFamily {
                        ran = true;
                        panic!("the user's initializer panics")
                    })
                });
                ensure!(got.is_some() != ran, "get_or_init_family returns: {}, and its panicking initializer ran: {ran}", got.is_some());
                return violated(log);
            }
            let tag = rng.next() as usize;
            let built = family::SystemFamily::define().with_terminal(format!("t{tag}"), None).build(name).map_err(|e| e.to_string())?;
            let ok = if rng.chance(1, 2) {
                lib("register", || family::register(built).is_ok())?
            } else {
                let f = lib("get_or_init_family", || family::get_or_init_family(name, || built))?;
                let mine = f.terminals().any(|t| t.name == format!("t{tag}"));
                mine
            };
            if ok {
                log.borrow_mut().families.push((f, tag));
            }
        }
        13 => {
            let name = rng.pick(&ctx.families);
            lib("get_family", || family::get_family(name).map(|f| f.name().clone()))?;
            lib("of_family", || System::of_family(name.as_str()).is_ok())?;
        }
        14 => {
            let built = family::SystemFamily::define().with_terminal(v.names[0].clone(), None).build("passing").map_err(|e| e.to_string())?;
            conv.family = Some(Arc::new(built));
            let got = call("of_family", end, || System::of_family(conv), log)?;
            if let Some(g) = got {
                let n = lib("symbol_len", || g.symbol_len())?;
                ensure!(n == 1, "a system of a family of one symbol has {n}");
            }
        }
        _ => {
            let t = v.text(&[0, 1, 0]);
            let r = lib("parse_prod_string", || parser::parse_prod_string(&t).map_err(|e| e.to_string()))??;
            ensure!(v.back(&r)? == [0, 1, 0], "{t:?} is read as {r}");
        }
    }
    violated(log)
}

static ROUNDS: AtomicU64 = AtomicU64::new(0);

fn context(rng: &mut Rng, heads: usize, marks: usize) -> Result<Ctx, String> {
    let k = ROUNDS.fetch_add(1, Ordering::Relaxed);
    let mut names = vec!["f".to_string()];
    names.extend((0..heads).map(|h| format!("H{h}")));
    names.extend((0..marks).map(|m| format!("m{m}")));
    Ok(Ctx {
        systems: (0..rng.range(1, 3)).map(|_| System::new()).collect(),
        v: Vocab::new(names)?,
        heads,
        marks,
        families: (0..3).map(|i| format!("C17 {k} {i}")).collect(),
        next_mark: AtomicUsize::new(0),
    })
}

/// The state afterwards: everything that succeeded, nothing else, and all in working order.
fn aftermath(ctx: &Ctx, logs: &[Log]) -> Case {
    let v = &ctx.v;
    for (s, sys) in ctx.systems.iter().enumerate() {
        let mut rules: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        let mut symbols: BTreeSet<usize> = BTreeSet::new();
        for l in logs {
            for (_, h, m) in l.rules.iter().filter(|r| r.0 == s) {
                ensure!(rules.entry(*h).or_default().insert(*m), "harness: a mark was used twice");
                symbols.extend([0, 1 + h, 1 + ctx.heads + m]);
            }
            symbols.extend(l.symbols.iter().filter(|x| x.0 == s).map(|x| x.1));
        }
        let (p, q) = lib("lengths", || (sys.production_len(), sys.symbol_len()))?;
        ensure!(p == rules.len(), "{p} rules are counted although {} were added", rules.len());
        ensure!(q == symbols.len(), "{q} symbols are counted although {} were added", symbols.len());
        for i in 0..v.len() {
            let got = lib("get_symbol", || sys.get_symbol(&v.names[i]).is_some())?;
            ensure!(got == symbols.contains(&i), "symbol {:?} is {}found although it was {}added", v.names[i], if got { "" } else { "not " }, if got { "not " } else { "" });
        }
        for (h, want) in &rules {
            let p = lib("add_production", || sys.add_production(rule(ctx, *h, 0)?).map_err(|e| e.to_string()))??;
            let mut got = vec![];
            for b in p.all_bodies() {
                let b = v.back(b.string())?;
                ensure!(b.len() == 2 && b[0] == 0, "an alternative reads {}", v.show(&b));
                got.push(b[1] - 1 - ctx.heads);
            }
            // The one just added to look at the others.
            ensure!(got.pop() == Some(0), "the alternative added last is not the last");
            let set: BTreeSet<usize> = got.iter().copied().collect();
            ensure!(set.len() == got.len() && set == *want, "rule {h} has the alternatives {got:?} although {want:?} were added");
        }
        let st = v.string(&[0, 1]);
        lib("derive", || sys.derive(st, 2.into()).map_err(|e| e.to_string()))??;
    }
    for (f, name) in ctx.families.iter().enumerate() {
        let tags: Vec<usize> = logs.iter().flat_map(|l| l.families.iter().filter(|x| x.0 == f).map(|x| x.1)).collect();
        ensure!(tags.len() <= 1, "family {name:?} was registered {} times", tags.len());
        let got = lib("get_family", || family::get_family(name))?;
        ensure!(got.is_some() == (tags.len() == 1), "family {name:?} is {}there", if got.is_some() { "" } else { "not " });
    }
    let k = ROUNDS.fetch_add(1, Ordering::Relaxed);
    let n = format!("C17 after {k}");
    lib("register", || family::SystemFamily::define().register(&n).map_err(|e| e.to_string()))??;
    let c = lib("get_code", || get_code(&n).map_err(|e| e.to_string()))??;
    ensure!(lib("get_name", || get_name(c))? == Some(n), "a new name is not known");
    Ok(())
}

fn round(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    let heads = rng.range(1, 5);
    let ctx = context(rng, heads, nthreads * per * 2 + 1)?;
    // The first mark is for looking.
    ctx.next_mark.store(1, Ordering::Relaxed);
    let salt = rng.next();
    let logs = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let log = RefCell::new(Log::default());
        for _ in 0..per {
            act(&ctx, &mut rng, 0, &log)?;
        }
        Ok(log.into_inner())
    })?;
    aftermath(&ctx, &logs)?;
    let mut trail = vec![];
    for l in &logs {
        for (k, n) in &l.counts {
            cov.count(k, *n);
        }
        trail.push(format!("{:?}/{:?}", l.rules, l.families.len()));
    }
    Ok(trail.join(" "))
}

/// While one thread is within its conversion, all others get all they ask for.
fn hostage(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    let heads = rng.range(1, 4);
    let ctx = context(rng, heads, nthreads * per * 2 + 2)?;
    ctx.next_mark.store(2, Ordering::Relaxed);
    struct Waits<'a>(&'a (dyn Fn() + Sync), Production, Symbol, Option<Arc<SystemFamily>>);
    impl TryFrom<Waits<'_>> for Production {
        type Error = Error;
        fn try_from(w: Waits) -> Result<Production, Error> {
            (w.0)();
            Ok(w.1)
        }
    }
    impl TryFrom<Waits<'_>> for Symbol {
        type Error = Error;
        fn try_from(w: Waits) -> Result<Symbol, Error> {
            (w.0)();
            Ok(w.2)
        }
    }
    impl TryIntoFamily for Waits<'_> {
        fn into_family(self) -> rusty_systems::Result<Arc<SystemFamily>> {
            (self.0)();
            Ok(self.3.unwrap())
        }
    }
    let inside = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let late = AtomicUsize::new(0);
    let gone = AtomicUsize::new(0);
    let until = |what: &dyn Fn() -> bool| -> bool {
        let start = std::time::Instant::now();
        for k in 0u64.. {
            if what() || gone.load(Ordering::SeqCst) > 0 {
                return true;
            }
            if cfg!(miri) {
                std::thread::yield_now();
                if k > 100_000 {
                    return false;
                }
            } else {
                std::thread::sleep(std::time::Duration::from_micros(50));
                if start.elapsed().as_secs() > 30 {
                    return false;
                }
            }
        }
        true
    };
    let salt = rng.next();
    let how = rng.below(3);
    let logs = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let log = RefCell::new(Log::default());
        let r = (|| -> Case {
            if t == 0 {
                let wait = || {
                    inside.store(1, Ordering::SeqCst);
                    if !until(&|| done.load(Ordering::SeqCst) == nthreads - 1) {
                        late.store(1, Ordering::SeqCst);
                    }
                };
                let fam = family::SystemFamily::define().with_terminal("f", None).build("hostage").map_err(|e| e.to_string())?;
                let w = Waits(&wait, rule(&ctx, 0, 1)?, ctx.v.syms[0], Some(Arc::new(fam)));
                let sys = &ctx.systems[0];
                match how {
                    0 => {
                        lib("add_production", || sys.add_production(w).map_err(|e| e.to_string()))??;
                        log.borrow_mut().rules.push((0, 0, 1));
                    }
                    1 => {
                        lib("add_symbol", || sys.add_symbol(w).map_err(|e| e.to_string()))??;
                        log.borrow_mut().symbols.push((0, 0));
                    }
                    _ => {
                        lib("of_family", || System::of_family(w).map_err(|e| e.to_string()))??;
                    }
                }
                ensure!(late.load(Ordering::SeqCst) == 0, "while one thread converts its argument, others cannot go on for half a minute");
                return Ok(());
            }
            ensure!(until(&|| inside.load(Ordering::SeqCst) == 1), "the conversion is not begun");
            for _ in 0..per {
                act(&ctx, &mut rng, 1, &log)?;
            }
            done.fetch_add(1, Ordering::SeqCst);
            Ok(())
        })();
        if r.is_err() {
            gone.store(1, Ordering::SeqCst);
        }
        r.map(|_| log.into_inner())
    })?;
    aftermath(&ctx, &logs)?;
    cov.count("rounds with a conversion under way", 1);
    let trail: Vec<String> = logs.iter().map(|l| format!("{:?}", l.rules)).collect();
    Ok(format!("{how} {}", trail.join(" ")))
}

/// Very many threads at once, most of which wait for each other's initializers.
fn crowd(rng: &mut Rng, nthreads: usize, cov: &mut Cov) -> Case {
    static ROUNDS: AtomicU64 = AtomicU64::new(0);
    let id = ROUNDS.fetch_add(1, Ordering::Relaxed);
    let salt = rng.next();
    let names = if rng.chance(2, 3) { nthreads } else { rng.range(1, 9) };
    let sys = System::new();
    let inits = AtomicUsize::new(0);
    let slow = if names > 9 { *rng.pick(&[0, 1, 1, 3]) } else { *rng.pick(&[0, 1, 20, 20, 50]) };
    conc::threads(nthreads, salt, 0, |t, _| {
        for k in 0..3 {
            let n = format!("C17 crowd {id} {k} {}", t % names);
            let f = lib("get_or_init_family", || {
                family::get_or_init_family(&n, || {
                    inits.fetch_add(1, Ordering::Relaxed);
                    std::thread::sleep(std::time::Duration::from_millis(slow));
                    family::SystemFamily::define().build(&n).expect("harness: a family with a name")
                })
            })?;
            ensure!(*f.name() == n, "the family {n:?} has the name {:?}", f.name());
            let c = lib("get_code", || get_code(&format!("crowd{}", (t + k) % 40)).map_err(|e| e.to_string()))??;
            ensure!(lib("get_name", || get_name(c))?.is_some(), "a code without a name");
            lib("add_production", || sys.add_production(format!("crowd{} -> crowd{k}", t % 7).as_str()).map_err(|e| e.to_string()))??;
            let s = parser::parse_prod_string("crowd0 crowd1").map_err(|e| e.to_string())?;
            let got = lib("derive_once", || sys.derive_once(s).map_err(|e| e.to_string()))??;
            ensure!(got.len() == 2, "two symbols became {}", got.len());
        }
        Ok(())
    })?;
    let n = inits.load(Ordering::Relaxed);
    ensure!(n == 3 * names.min(nthreads), "initializers of {} families ran {n} times", 3 * names.min(nthreads));
    ensure!(sys.production_len() == 7.min(nthreads), "{} rules instead of {}", sys.production_len(), 7.min(nthreads));
    cov.max("threads at once", nthreads as u64);
    cov.distinct(&format!("crowd {nthreads} {names} {slow}"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    if i % 40 == 3 {
        let n = if std::env::var_os("MON_SANITIZED").is_some() { 30 } else { *rng.pick(&[20, 33, 48, 70, 130, 260]) };
        crowd(rng, n, cov)?;
    }
    for _ in 0..6 {
        let (n, level) = conc::shape(rng);
        let per = *rng.pick(&[1, 2, 5, 20]);
        let t = if rng.chance(4, 5) { round(rng, n, level, per, cov)? } else { hostage(rng, n, level, per, cov)? };
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("{n} {t}"));
        cov.sample(|| format!("{n} threads with {per} operations each: {t}"));
    }
    Ok(())
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let (n, _) = conc::shape(rng);
    let mut cov = Cov::default();
    let per = rng.range(1, 3);
    let t = if rng.chance(3, 4) { round(rng, n, 0, per, &mut cov)? } else { hostage(rng, n, 0, 1, &mut cov)? };
    Ok(format!("threads={n} ops={} order={}", n * per, t.replace(' ', "")))
}
