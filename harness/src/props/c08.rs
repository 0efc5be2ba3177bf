//! The registry of families.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, get_family, get_or_init_family, SymbolDescription};

use crate::conc::{self, tick};
use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::rng::Rng;

type Described = BTreeMap<String, Option<String>>;

fn described<'a>(it: impl Iterator<Item = &'a SymbolDescription>) -> Result<Described, String> {
    let mut m = Described::new();
    for d in it {
        ensure!(m.insert(d.name.clone(), d.description.clone()).is_none(), "symbol {:?} is listed twice", d.name);
    }
    Ok(m)
}

/// How many symbols families of this name have besides their tag.
fn extent(name: &str) -> usize {
    1 + name.bytes().map(|b| b as usize).sum::<usize>() % 9
}

fn described_as(name: &str, tag: &str) -> family::Builder {
    let mut b = SystemFamily::define().with_terminal(tag, Some("the maker")).with_production("X", None);
    for i in 1..extent(name) {
        b = b.with_production(format!("X{i}"), None);
    }
    b
}

/// A family whose only terminal names the thread that made it.
fn tagged(name: &str, tag: &str) -> SystemFamily {
    described_as(name, tag)
        .build(name)
        .expect("harness: a family with a name")
}

fn tag_of(f: &SystemFamily) -> Result<String, String> {
    let t = described(f.terminals())?;
    ensure!(t.len() == 1, "a family has {} terminals instead of one", t.len());
    Ok(t.into_keys().next().unwrap())
}

#[derive(Debug, Clone, PartialEq)]
enum Saw {
    /// Registered, or initialised: (tag of the family, its address, whether the caller's is the one).
    Bound(String, usize, bool),
    /// Found by a lookup.
    Found(String, usize),
    /// A lookup found nothing.
    Nothing,
    /// A registration was refused.
    Refused,
    /// Only that it exists.
    Exists,
}

struct Event {
    name: usize,
    start: u64,
    end: u64,
    saw: Saw,
}

fn race(rng: &mut Rng, tag: &str, nthreads: usize, level: u32, k: usize, per: usize, cov: &mut Cov) -> Result<String, String> {
    let names: Vec<String> = (0..k).map(|i| format!("{tag}f{i}")).collect();
    let aliases: Vec<String> = names.iter().map(|n| format!("{n} alias")).collect();
    let inits: Vec<AtomicUsize> = (0..k).map(|_| AtomicUsize::new(0)).collect();
    let salt = rng.next();
    let style = rng.below(3);
    // Families are kept alive, so that addresses identify them.
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut ev = vec![];
        let mut keep: Vec<Arc<SystemFamily>> = vec![];
        for op in 0..per {
            let i = rng.below(k);
            let name = &names[i];
            let me = format!("by{t}x{op}");
            let how = match style {
                0 => *rng.pick(&[0, 4]),
                1 => *rng.pick(&[0, 1]),
                _ => rng.below(8),
            };
            let start = tick();
            let saw = match how {
                // An initializer that fails binds nothing, and hinders nobody.
                0 | 5 if rng.chance(1, 8) => {
                    let mut ran = false;
                    let f = user_panics(|| {
                        get_or_init_family(name, || -> SystemFamily {
                            ran = true;
                            panic!("the user's initializer panics")
                        })
                    });
                    match f {
                        Some(f) => {
                            ensure!(!ran, "{name}: a family is returned although its initializer panics");
                            let (got, p) = (tag_of(&f)?, Arc::as_ptr(&f) as usize);
                            keep.push(f);
                            Saw::Found(got, p)
                        }
                        None => {
                            ensure!(ran, "{name}: get_or_init_family panicked, and not its initializer");
                            Saw::Nothing
                        }
                    }
                }
                // Half of these take their time to initialise.
                0 | 5 => {
                    let mut ran = false;
                    let slow = rng.chance(1, 2);
                    let alias = rng.chance(1, 3);
                    let f = lib("get_or_init_family", || {
                        get_or_init_family(name, || {
                            ran = true;
                            inits[i].fetch_add(1, Ordering::SeqCst);
                            if slow && !cfg!(miri) {
                                std::thread::yield_now();
                            }
                            // The name asked for counts, whatever the family calls itself.
                            described_as(name, &me)
                                .build(if alias { &aliases[i] } else { name })
                                .expect("harness: a family with a name")
                        })
                    })?;
                    let got = tag_of(&f)?;
                    if ran {
                        ensure!(got == me, "{name}: the initializer of {me} ran, but the family of {got} was returned");
                    } else {
                        ensure!(got != me, "{name}: the family of {me} was returned although its initializer did not run");
                    }
                    let p = Arc::as_ptr(&f) as usize;
                    keep.push(f);
                    if ran {
                        Saw::Bound(got, p, true)
                    } else {
                        Saw::Found(got, p)
                    }
                }
                1 => {
                    let r = lib("Builder::register", || {
                        described_as(name, &me)
                            .register(name)
                            .map_err(|e| e.to_string())
                    })?;
                    match r {
                        Ok(f) => {
                            let got = tag_of(&f)?;
                            ensure!(got == me, "{name}: registering the family of {me} returned that of {got}");
                            let p = Arc::as_ptr(&f) as usize;
                            keep.push(f);
                            Saw::Bound(got, p, true)
                        }
                        Err(_) => Saw::Refused,
                    }
                }
                2 => {
                    let f = tagged(name, &me);
                    match lib("register", || family::register(f).map_err(|e| e.to_string()))? {
                        Ok(f) => {
                            let got = tag_of(&f)?;
                            ensure!(got == me, "{name}: registering the family of {me} returned that of {got}");
                            let p = Arc::as_ptr(&f) as usize;
                            keep.push(f);
                            Saw::Bound(got, p, true)
                        }
                        Err(_) => Saw::Refused,
                    }
                }
                3 => {
                    if lib("family_exists", || family::family_exists(name))? {
                        Saw::Exists
                    } else {
                        Saw::Nothing
                    }
                }
                6 => match lib("of_family", || System::of_family(name.as_str()).map_err(|e| e.to_string()))? {
                    Ok(s) => {
                        ensure!(s.symbol_len() == 1 + extent(name), "{name}: a system of the family has {} symbols instead of {}", s.symbol_len(), 1 + extent(name));
                        ensure!(s.get_symbol("X").is_some(), "{name}: a system of the family lacks its symbol");
                        Saw::Exists
                    }
                    Err(_) => Saw::Nothing,
                },
                _ => match lib("get_family", || get_family(name))? {
                    Some(f) => {
                        let got = tag_of(&f)?;
                        let p = Arc::as_ptr(&f) as usize;
                        keep.push(f);
                        Saw::Found(got, p)
                    }
                    None => Saw::Nothing,
                },
            };
            let end = tick();
            ev.push(Event { name: i, start, end, saw });
        }
        Ok((ev, keep))
    })?;
    let (evs, kept): (Vec<_>, Vec<_>) = out.into_iter().unzip();
    let events: Vec<Event> = evs.into_iter().flatten().collect();
    let mut trail = String::new();
    for (i, name) in names.iter().enumerate() {
        let mine: Vec<&Event> = events.iter().filter(|e| e.name == i).collect();
        let bound: Vec<&&Event> = mine.iter().filter(|e| matches!(e.saw, Saw::Bound(..))).collect();
        ensure!(
            bound.len() <= 1,
            "{name}: {} registrations succeeded: {:?}",
            bound.len(),
            bound.iter().map(|e| e.saw.clone()).collect::<Vec<_>>()
        );
        let ran = inits[i].load(Ordering::SeqCst);
        ensure!(ran <= 1, "{name}: initializers ran {ran} times");
        let now = lib("get_family", || get_family(name))?;
        ensure!(get_family(&aliases[i]).is_none(), "{name}: {:?} is bound, which nobody asked for", aliases[i]);
        let Some(b) = bound.first() else {
            ensure!(now.is_none(), "{name}: a family is there although nobody registered one");
            for e in &mine {
                ensure!(e.saw == Saw::Nothing, "{name}: nobody registered a family, yet a thread saw {:?}", e.saw);
            }
            continue;
        };
        let Saw::Bound(tag, ptr, _) = &b.saw else { unreachable!() };
        trail += &format!("{tag};");
        let now = now.ok_or_else(|| format!("{name}: the family of {tag} was registered and is gone"))?;
        ensure!(Arc::as_ptr(&now) as usize == *ptr, "{name}: a lookup afterwards gives another family than the one of {tag}");
        for e in &mine {
            match &e.saw {
                Saw::Bound(..) => {}
                Saw::Found(t, p) => {
                    ensure!(t == tag && p == ptr, "{name}: a thread found the family of {t}, another copy than that of {tag}");
                    ensure!(e.end > b.start, "{name}: the family of {tag} was found before its registration began");
                }
                Saw::Nothing => {
                    ensure!(e.start < b.end, "{name}: nothing was found although the family of {tag} had been registered before");
                    if e.end > b.start {
                        cov.count("lookups during the registration", 1);
                    }
                }
                Saw::Refused => ensure!(e.end > b.start, "{name}: a registration was refused before any other had begun"),
                Saw::Exists => ensure!(e.end > b.start, "{name}: the family existed before its registration began"),
            }
            if e.start < b.end && b.start < e.end {
                cov.count("calls that overlap the registration", 1);
            }
        }
        let dup = lib("register", || family::register(tagged(name, "late")).is_err())?;
        ensure!(dup, "{name}: a second registration succeeds afterwards");
        let late = lib("register", || SystemFamily::define().with_terminal("late", None).register(name).is_err())?;
        ensure!(late, "{name}: a second registration succeeds afterwards");
        let again = lib("get_or_init_family", || get_or_init_family(name, || tagged(name, "late")))?;
        ensure!(Arc::ptr_eq(&again, &now), "{name}: afterwards it is initialised again");
    }
    drop(kept);
    cov.count("calls", events.len() as u64);
    Ok(trail)
}

/// All describe the same, possibly nothing at all, and still only one is bound.
fn alike(rng: &mut Rng, tag: &str, cov: &mut Cov) -> Case {
    let name = format!("{tag} alike");
    let (nthreads, level) = conc::shape(rng);
    let per = *rng.pick(&[1, 1, 3]);
    let (t, p) = *rng.pick(&[(0, 0), (0, 0), (0, 1), (1, 0), (2, 3)]);
    let define = || {
        let mut b = SystemFamily::define();
        for i in 0..t {
            b = b.with_terminal(format!("t{i}"), Some("a terminal".to_string()));
        }
        for i in 0..p {
            b = b.with_production(format!("p{i}"), None);
        }
        b
    };
    let build = || define().build(&name).expect("harness: a family with a name");
    let style = rng.below(4);
    let inits = AtomicUsize::new(0);
    let salt = rng.next();
    // Families are kept alive, so that addresses identify them.
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "alike", t as u64);
        let mut seen: Vec<(bool, Arc<SystemFamily>)> = vec![];
        for _ in 0..per {
            match if style == 3 { rng.below(3) } else { style } {
                0 => {
                    let mut ran = false;
                    let f = lib("get_or_init_family", || {
                        get_or_init_family(&name, || {
                            ran = true;
                            inits.fetch_add(1, Ordering::SeqCst);
                            build()
                        })
                    })?;
                    seen.push((ran, f));
                }
                1 => {
                    if let Ok(f) = lib("Builder::register", || define().register(&name).map_err(|e| e.to_string()))? {
                        seen.push((true, f));
                    }
                }
                _ => {
                    let f = build();
                    if let Ok(f) = lib("register", || family::register(f).map_err(|e| e.to_string()))? {
                        seen.push((true, f));
                    }
                }
            }
        }
        Ok(seen)
    })?;
    let seen: Vec<(bool, Arc<SystemFamily>)> = out.into_iter().flatten().collect();
    let what = format!("{name}, of {t} terminals and {p} productions");
    let bound = seen.iter().filter(|x| x.0).count();
    ensure!(bound == 1, "{what}: {bound} of {} threads have bound it", nthreads);
    ensure!(inits.load(Ordering::SeqCst) <= 1, "{what}: initializers ran {} times", inits.load(Ordering::SeqCst));
    let now = lib("get_family", || get_family(&name))?.ok_or_else(|| format!("{what}: it is gone"))?;
    for (_, f) in &seen {
        ensure!(Arc::ptr_eq(f, &now), "{what}: a thread has another copy than the one that is looked up");
    }
    for i in 0..2 {
        ensure!(lib("register", || family::register(build()).is_err())?, "{what}: an identical family is registered again ({i})");
        ensure!(lib("register", || family::register((*now).clone()).is_err())?, "{what}: a copy of the family is registered again ({i})");
        ensure!(lib("register", || define().register(&name).is_err())?, "{what}: an identical description is registered again ({i})");
        let more = lib("register", || define().with_terminal("more".to_string(), None).register(&name).is_err())?;
        ensure!(more, "{what}: a larger description is registered again ({i})");
        ensure!(lib("register", || SystemFamily::define().register(&name).is_err())?, "{what}: a description of nothing is registered again ({i})");
        let mut ran = false;
        let again = lib("get_or_init_family", || {
            get_or_init_family(&name, || {
                ran = true;
                build()
            })
        })?;
        ensure!(!ran && Arc::ptr_eq(&again, &now), "{what}: it is initialised again ({i})");
        let again = lib("get_family", || get_family(&name))?;
        ensure!(again.is_some_and(|f| Arc::ptr_eq(&f, &now)), "{what}: a lookup gives another copy after a registration was refused ({i})");
    }
    ensure!(described(now.terminals())?.len() == t && described(now.productions())?.len() == p, "{what}: it has other symbols");
    cov.count("races of identical families", 1);
    cov.distinct(&format!("alike {nthreads} {per} {style} {t} {p}"));
    Ok(())
}

/// A family is bound for good, also when nobody has kept a copy of it.
fn forgotten(rng: &mut Rng, tag: &str, cov: &mut Cov) -> Case {
    let name = format!("{tag} forgotten");
    let first = rng.below(3);
    lib("register", || match first {
        0 => drop(get_or_init_family(&name, || tagged(&name, "first"))),
        1 => drop(described_as(&name, "first").register(&name)),
        _ => drop(family::register(tagged(&name, "first"))),
    })?;
    for i in 0..rng.range(1, 6) {
        // Lookups of it come and go as well.
        if rng.chance(1, 3) {
            let f = lib("get_family", || get_family(&name))?.ok_or_else(|| format!("{name}: it is gone"))?;
            ensure!(tag_of(&f)? == "first", "{name}: it is another ({i})");
        }
        match rng.below(5) {
            0 => ensure!(lib("register", || family::register(tagged(&name, "second")).is_err())?, "{name}: nobody holds a copy, and it is registered again ({i})"),
            1 => ensure!(lib("register", || described_as(&name, "second").register(&name).is_err())?, "{name}: nobody holds a copy, and it is registered again ({i})"),
            2 => {
                let mut ran = false;
                let f = lib("get_or_init_family", || {
                    get_or_init_family(&name, || {
                        ran = true;
                        tagged(&name, "second")
                    })
                })?;
                ensure!(!ran && tag_of(&f)? == "first", "{name}: nobody holds a copy, and it is initialised again ({i})");
            }
            3 => ensure!(lib("family_exists", || family::family_exists(&name))?, "{name}: nobody holds a copy, and it no longer exists ({i})"),
            _ => ensure!(lib("of_family", || System::of_family(name.as_str()).is_ok_and(|s| s.symbol_len() == 1 + extent(&name)))?, "{name}: nobody holds a copy, and there is no system of it ({i})"),
        }
    }
    let f = lib("get_family", || get_family(&name))?.ok_or_else(|| format!("{name}: it is gone"))?;
    ensure!(tag_of(&f)? == "first", "{name}: nobody held a copy, and it is another");
    cov.count("families nobody keeps", 1);
    Ok(())
}

/// Names that differ from this one, however little.
fn near(name: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![name.to_uppercase(), name.to_lowercase(), name.trim().to_string(), name.replace(' ', ""), name.replace(' ', "_"), name.replace(' ', "\u{a0}"), name.replace(' ', "  ")];
    for c in ["\u{feff}", " ", "\t", "\n", "\r\n", "\0", "\u{200b}", "\u{200d}", "\u{301}", "\u{a0}", "\u{2060}", "\u{ad}", "\u{3000}", "x", "s", "/", ".", "-", "_", "0", "#", "\"", "'"] {
        out.push(format!("{c}{name}"));
        out.push(format!("{name}{c}"));
        out.push(format!("{c}{name}{c}"));
        let mid = name.char_indices().nth(name.chars().count() / 2).map_or(0, |x| x.0);
        out.push(format!("{}{c}{}", &name[..mid], &name[mid..]));
    }
    let chars: Vec<char> = name.chars().collect();
    out.push(chars[1..].iter().collect());
    out.push(chars[..chars.len() - 1].iter().collect());
    out.push(chars.iter().rev().collect());
    out.push(format!("{name}{name}"));
    out.push(name.replace('ü', "u\u{308}"));
    out.push(name.replace('o', "0"));
    out.push(name.replace('n', "\u{ff4e}"));
    // A capital somewhere.
    for (k, c) in chars.iter().enumerate() {
        if c.is_lowercase() {
            let mut t = chars.clone();
            t[k] = c.to_uppercase().next().unwrap();
            out.push(t.into_iter().collect());
            break;
        }
    }
    out.retain(|o| o != name);
    out
}

/// What is described is what one gets, in the family and in its systems.
fn content(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    let n = gen::length(rng, 12, 300);
    let names = gen::names(rng, n, Place::Text);
    let mut terminals = Described::new();
    let mut productions = Described::new();
    let mut b = SystemFamily::define();
    for name in &names {
        let d = match rng.below(6) {
            0..=2 => None,
            3 => {
                let odd = ["", " ", "\n", "\t \u{a0}", " a", "a ", "\na\n", "a  b", "A", "a", "ü", "日本\n日", "a\u{0}b", "\u{feff}", "None", "\"", "\\n", "e\u{301}"];
                Some(rng.pick(&odd).to_string())
            }
            4 => {
                let n = gen::length(rng, 40, 70_000);
                Some((0..n).map(|_| *rng.pick(&['a', 'B', ' ', 'é', '\n', '日'])).collect())
            }
            _ => Some(format!("about {name}")),
        };
        let (t, p) = match rng.below(5) {
            0 => (true, true),
            1 | 2 => (true, false),
            _ => (false, true),
        };
        if t {
            b = b.with_terminal(name.as_str(), d.as_deref());
            terminals.insert(name.clone(), d.clone());
        }
        if p {
            b = b.with_production(name.as_str(), d.as_deref());
            productions.insert(name.clone(), d.clone());
        }
    }
    let name = format!("content {i} {}", rng.pick(&["", "ü", " ", "\n", "a b"]));
    let registered = rng.chance(1, 2);
    let f: Arc<SystemFamily> = if registered {
        lib("register", || b.register(&name).map_err(|e| e.to_string()))?.map_err(|e| format!("{name:?} is refused: {e}"))?
    } else {
        Arc::new(lib("build", || b.build(&name).map_err(|e| e.to_string()))?.map_err(|e| format!("{name:?} is refused: {e}"))?)
    };
    ensure!(*f.name() == name, "family {name:?} is called {:?}", f.name());
    let t = described(f.terminals())?;
    let p = described(f.productions())?;
    ensure!(t == terminals, "family described with terminals {terminals:?} has {t:?}");
    ensure!(p == productions, "family described with productions {productions:?} has {p:?}");
    let mut all: Vec<&String> = f.symbols().map(|d| &d.name).collect();
    all.sort();
    let mut want: Vec<&String> = terminals.keys().chain(productions.keys()).collect();
    want.sort();
    ensure!(all == want, "family has symbols {all:?} instead of {want:?}");
    let known: BTreeSet<&String> = want.into_iter().collect();
    let how = if registered { rng.below(4) } else { rng.below(2) };
    let sys = lib("of_family", || {
        match how {
            0 => System::of_family(f.clone()),
            1 => System::of_family((*f).clone()),
            2 => System::of_family(name.as_str()),
            _ => System::of_family(name.clone()),
        }
        .map_err(|e| e.to_string())
    })?
    .map_err(|e| format!("a system of {name:?} is refused: {e}"))?;
    ensure!(sys.symbol_len() == known.len(), "a system of a family of {} symbols has {}", known.len(), sys.symbol_len());
    ensure!(sys.production_len() == 0, "a system of a family has {} rules", sys.production_len());
    for k in known {
        ensure!(lib("get_symbol", || sys.get_symbol(k))?.is_some(), "a system of a family lacks its symbol {k:?}");
    }
    if !registered {
        ensure!(get_family(&name).is_none() && !family::family_exists(&name), "a family that was only built is registered");
        ensure!(lib("of_family", || System::of_family(name.as_str()).is_err())?, "a system of an unknown family is given");
    }
    for blank in ["", " ", "\t\n"] {
        ensure!(lib("build", || SystemFamily::define().build(blank).is_err())?, "a family named {blank:?} is built");
        ensure!(lib("register", || SystemFamily::define().register(blank).is_err())?, "a family named {blank:?} is registered");
        ensure!(get_family(blank).is_none(), "a family named {blank:?} is registered");
    }
    // Names that are alike are not the same.
    if registered {
        for other in near(&name) {
            // Not one that an earlier case has bound.
            let found = lib("get_family", || get_family(&other))?;
            ensure!(found.is_none_or(|o| o.name() == &other && !Arc::ptr_eq(&o, &f)), "family {name:?} is also found as {other:?}");
            if rng.chance(1, 8) {
                ensure!(!lib("family_exists", || family::family_exists(&other))?, "family {name:?} also exists as {other:?}");
                ensure!(lib("of_family", || System::of_family(other.as_str()).is_err())?, "a system of family {name:?} is given for {other:?}");
            }
            cov.count("names near those that are bound", 1);
        }
        // And can be bound apart.
        let other = rng.pick(&near(&name)).clone();
        if !other.trim().is_empty() && !other.starts_with("content ") {
            let o = lib("register", || described_as(&other, "near").register(&other).map_err(|e| e.to_string()))?;
            let o = o.map_err(|e| format!("family {other:?} is refused beside {name:?}: {e}"))?;
            let (a, b) = lib("get_family", || (get_family(&name), get_family(&other)))?;
            ensure!(a.is_some_and(|a| Arc::ptr_eq(&a, &f)) && b.is_some_and(|b| Arc::ptr_eq(&b, &o)), "families {name:?} and {other:?} are confused");
        }
    }
    cov.distinct(&format!("{t:?}{p:?}{how}"));
    cov.count("families described", 1);
    Ok(())
}

/// Very many families, of which nobody keeps a reference: each stays as it was registered.
fn crowd(rng: &mut Rng, tag: &str, total: usize, nthreads: usize, cov: &mut Cov) -> Case {
    let name = |i: usize| format!("{tag} {i}");
    let salt = rng.next();
    let style = rng.below(3);
    conc::threads(nthreads, salt, 0, |t, _| {
        for i in (t..total).step_by(nthreads) {
            let n = name(i);
            let tag = format!("T{}", i % 1000);
            match (style + i / nthreads) % 3 {
                0 => drop(lib("get_or_init_family", || get_or_init_family(&n, || tagged(&n, &tag)))?),
                1 => drop(lib("register", || family::register(tagged(&n, &tag)).map_err(|e| e.to_string()))??),
                _ => drop(lib("Builder::register", || described_as(&n, &tag).register(&n).map_err(|e| e.to_string()))??),
            }
        }
        Ok(())
    })?;
    let mut ask: Vec<usize> = (0..total.min(3_000)).map(|j| if j < 1_500 { j } else { rng.below(total) }).collect();
    ask.extend([total - 1, total / 2]);
    for i in ask {
        let n = name(i);
        let f = lib("get_family", || get_family(&n))?.ok_or_else(|| format!("family {i} of {total} is gone"))?;
        let t = tag_of(&f)?;
        ensure!(t == format!("T{}", i % 1000) && *f.name() == n, "family {i} of {total} is {} with the terminal {t}", f.name());
        if rng.chance(1, 3) {
            ensure!(lib("register", || family::register(tagged(&n, "other")).is_err())?, "family {i} of {total} can be registered again");
            let g = lib("get_or_init_family", || get_or_init_family(&n, || tagged(&n, "other")))?;
            ensure!(Arc::ptr_eq(&f, &g), "family {i} of {total} is replaced");
        }
    }
    cov.count("families nobody holds", total as u64);
    cov.distinct(&format!("{tag} {total} {nthreads}"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    if i % 400 == 7 && std::env::var_os("MON_SANITIZED").is_none() {
        let total = if i == 407 { 70_000 } else { *rng.pick(&[2_000, 4_500, 9_000]) };
        let n = *rng.pick(&[1, 3, 8]);
        crowd(rng, &format!("crowd{i}"), total, n, cov)?;
    }
    if i % 4 == 0 {
        return content(rng, i, cov);
    }
    for r in 0..6 {
        alike(rng, &format!("{i}a{r}"), cov)?;
        forgotten(rng, &format!("{i}a{r}"), cov)?;
    }
    for r in 0..10 {
        let (n, level) = conc::shape(rng);
        let k = *rng.pick(&[1, 1, 1, 2, 5]);
        let per = *rng.pick(&[1, 1, 2, 6, 15]);
        let t = race(rng, &format!("{i}r{r}"), n, level, k, per, cov)?;
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("{n} {k} {per} {t}"));
        cov.sample(|| format!("{n} threads, {k} names, {per} calls each; bound by {t}"));
    }
    Ok(())
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let (n, _) = conc::shape(rng);
    let mut cov = Cov::default();
    let per = rng.range(1, 2);
    let t = race(rng, "m", n, 0, 1, per, &mut cov)?;
    let over = cov.counts.get("calls that overlap the registration").copied().unwrap_or(0);
    Ok(format!("threads={n} overlapping={over} bound={t}"))
}
