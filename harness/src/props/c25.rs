//! Work and memory stay in proportion to what is asked, and nothing is kept.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hint::black_box;

use rusty_systems::geometry::{Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{parser as plant, AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPath};
use rusty_systems::interpretation::NullInterpretation;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system;
use rusty_systems::system::family;

use crate::conc::{cpu, live, metered};
use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::rng::Rng;

fn sym(n: &str) -> Symbol {
    Symbol::build(n).expect("a symbol")
}

fn string(names: &[&str], n: usize) -> ProductionString {
    let s: Vec<Symbol> = names.iter().map(|n| sym(n)).collect();
    (0..n).map(|i| s[(i * 7 + i / 5) % s.len()]).collect::<Vec<_>>().into()
}

fn rule(t: &str) -> Production {
    parse_production(t).expect("a rule")
}

fn slice(t: &[&str]) -> Vec<Production> {
    t.iter().map(|t| rule(t)).collect()
}

fn points(n: usize) -> impl Iterator<Item = Point> {
    (0..n).map(|i| Point::new((i as f64 * 0.37).sin() * 100.0, i as f64 * 0.11))
}

/// Something whose cost should grow with n and no faster: (name, the largest n, the thing).
/// What `prepare` makes is not measured.
type Job = Box<dyn Fn()>;
type Prepare = fn(usize) -> Job;

const BRANCHY: [&str; 8] = ["Forward", "+", "Forward", "-", "Move", "Forward", "X", "+"];

const GROWTH: &[(&str, usize, Prepare)] = &[
    ("one derivation step of a string of n symbols", 256_000, |n| {
        let (s, r) = (string(&["A", "B", "C"], n), slice(&["A -> A B", "B ->", "D -> A"]));
        Box::new(move || drop(black_box(system::derive_once(s.clone(), &r).expect("a derivation"))))
    }),
    ("one derivation step of n symbols with contexts", 256_000, |n| {
        let (s, r) = (string(&["A", "B", "C"], n), slice(&["A < B > C -> C C", "C > B C -> A", "A B C < A -> B", "A A < B -> A", "A -> B"]));
        Box::new(move || drop(black_box(system::derive_once(s.clone(), &r).expect("a derivation"))))
    }),
    ("one derivation step of n symbols that no rule matches", 256_000, |n| {
        let (s, r) = (string(&["B", "C"], n), slice(&["A -> B", "A < B -> C"]));
        Box::new(move || drop(black_box(system::derive_once(s.clone(), &r).expect("a derivation"))))
    }),
    ("one derivation step of n symbols in a system", 256_000, |n| {
        let (s, sys) = (string(&["A", "B", "C"], n), System::new());
        for r in ["A -> A B", "B ->", "A < C -> C C"] {
            sys.add_production(r).expect("a rule");
        }
        Box::new(move || drop(black_box(sys.derive_once(s.clone()).expect("a derivation"))))
    }),
    ("one derivation step to a body of n symbols", 256_000, |n| {
        let r = vec![Production::new(ProductionHead::build(None, sym("A"), None).unwrap(), ProductionBody::new(string(&["A", "B", "C"], n)))];
        Box::new(move || drop(black_box(system::derive_once(sym("A").into(), &r).expect("a derivation"))))
    }),
    ("n derivation steps of a short string", 256_000, |n| {
        let r = slice(&["A -> B", "B -> A", "A < C -> C"]);
        let s = string(&["A", "B", "C"], 4);
        Box::new(move || drop(black_box(system::derive(s.clone(), &r, RunSettings::for_max_iterations(n)).expect("a derivation"))))
    }),
    ("n derivation steps of a short string in a system", 256_000, |n| {
        let sys = System::new();
        for r in ["A -> B", "B -> A", "A < C -> C"] {
            sys.add_production(r).expect("a rule");
        }
        let s = string(&["A", "B", "C"], 4);
        Box::new(move || drop(black_box(sys.derive(s.clone(), RunSettings::for_max_iterations(n)).expect("a derivation"))))
    }),
    ("n derivation steps of a string that stays as it is", 8_192, |n| {
        let (r, s) = (slice(&["A -> A", "D -> A"]), string(&["A", "B", "C"], 128));
        Box::new(move || drop(black_box(system::derive(s.clone(), &r, RunSettings::for_max_iterations(n)).expect("a derivation"))))
    }),
    ("n derivation steps of a string of changing length", 8_192, |n| {
        let sys = System::new();
        for r in ["A -> B C", "B -> A", "C ->", "D -> E", "E -> D"] {
            sys.add_production(r).expect("a rule");
        }
        let s = string(&["A", "E", "D"], 128);
        Box::new(move || drop(black_box(sys.derive(s.clone(), RunSettings::for_max_iterations(n)).expect("a derivation"))))
    }),
    ("doubling a string until it has n symbols", 1 << 18, |n| {
        let r = slice(&["A -> A B", "B -> B A"]);
        let steps = n.ilog2() as usize;
        Box::new(move || drop(black_box(system::derive(sym("A").into(), &r, RunSettings::for_max_iterations(steps)).expect("a derivation"))))
    }),
    ("one derivation step with n rules", 64_000, |n| {
        let other: Vec<Symbol> = (0..16).map(|i| sym(&format!("R{i}"))).collect();
        let r: Vec<Production> = (0..n)
            .map(|i| {
                let pre = ProductionString::from(vec![other[i % 16], other[i / 16 % 16], other[i / 256 % 16]]);
                Production::new(ProductionHead::build(Some(pre), other[i % 13], None).unwrap(), ProductionBody::empty())
            })
            .collect();
        let s = string(&["A", "B"], 20);
        Box::new(move || drop(black_box(system::derive_once(s.clone(), &r).expect("a derivation"))))
    }),
    ("choosing among n alternatives", 256_000, |n| {
        let mut p = rule("A -> B");
        for _ in 1..n {
            p.add_body(ProductionBody::new(sym("B").into()));
        }
        let r = vec![p];
        let s = string(&["A"], 3);
        Box::new(move || drop(black_box(system::derive_once(s.clone(), &r).expect("a derivation"))))
    }),
    ("adding n alternatives to a rule", 256_000, |n| {
        let b = parse_production_body("0.0001 A B").expect("a body");
        Box::new(move || {
            let mut p = Production::new(ProductionHead::build(None, sym("A"), None).unwrap(), b.clone());
            for _ in 1..n {
                p.add_body(b.clone());
            }
            black_box(p.all_bodies().len());
        })
    }),
    ("merging rules of n alternatives", 128_000, |n| {
        let mut p = rule("A -> B");
        for _ in 1..n {
            p.add_body(ProductionBody::new(sym("B").into()));
        }
        Box::new(move || {
            let mut q = p.clone();
            q.merge(p.clone());
            black_box(q.all_bodies().len());
        })
    }),
    ("matching a context of n symbols", 256_000, |n| {
        let s = string(&["A", "B", "C"], 2 * n + 1);
        let at = |from: usize, to: usize| Some(s.iter().copied().skip(from).take(to - from).collect::<Vec<_>>().into());
        let p = Production::new(ProductionHead::build(at(0, n), s[n], at(n + 1, 2 * n + 1)).unwrap(), ProductionBody::empty());
        Box::new(move || assert!(black_box(p.matches(&s, n))))
    }),
    ("comparing and hashing a string of n symbols", 256_000, |n| {
        let (s, t) = (string(&["A", "B", "C"], n), string(&["A", "B", "C"], n));
        Box::new(move || {
            let set: HashSet<ProductionString> = [s.clone(), t.clone()].into_iter().collect();
            assert!(black_box(s == t && set.len() == 1));
        })
    }),
    ("pushing n symbols", 512_000, |n| {
        let a = sym("A");
        Box::new(move || {
            let mut s = ProductionString::new();
            for _ in 0..n {
                s.push_symbol(a);
            }
            assert_eq!(black_box(s).len(), n);
        })
    }),
    ("displaying a string of n symbols", 64_000, |n| {
        let s = string(&["A", "Bcd", "C"], n);
        Box::new(move || drop(black_box(s.to_string())))
    }),
    ("listing the symbols of a rule of n", 256_000, |n| {
        let part = string(&["A", "B"], n / 4);
        let mut p = Production::new(ProductionHead::build(Some(part.clone()), sym("A"), Some(part.clone())).unwrap(), ProductionBody::new(part.clone()));
        for i in 0..n / 8 {
            p.add_body(ProductionBody::new(string(&["A", "B"], i % 3)));
        }
        Box::new(move || drop(black_box(p.all_symbols::<Vec<Symbol>>())))
    }),
    ("reading the tokens of a text of n symbols", 128_000, |n| {
        let t = "A Bcd<C ;( e".repeat(n / 6);
        Box::new(move || assert!(black_box(TokenIterator::new(&t).count()) > 0))
    }),
    ("reading a token of n characters", 1_000_000, |n| {
        let t = format!("{} {}", "é".repeat(n / 2), "+".repeat(n / 2));
        Box::new(move || assert_eq!(black_box(TokenIterator::new(&t).count()), 2))
    }),
    ("reading white space of n characters", 1_000_000, |n| {
        let t = format!("{}A{}", " \t".repeat(n / 4), "\n\u{3000}".repeat(n / 4));
        Box::new(move || assert_eq!(black_box(parse_prod_string(&t)).map_or(0, |s| s.len()), 1))
    }),
    ("reading a string of n symbols", 128_000, |n| {
        let t = "A Bcd C ".repeat(n / 3);
        Box::new(move || drop(black_box(parse_prod_string(&t).expect("a string"))))
    }),
    ("reading a rule with a body of n symbols", 128_000, |n| {
        let t = format!("A -> {}", "A Bcd C ".repeat(n / 3));
        Box::new(move || drop(black_box(parse_production(&t).expect("a rule"))))
    }),
    ("reading a head with contexts of n symbols", 128_000, |n| {
        let t = format!("{} < A > {}", "A Bcd ".repeat(n / 4), "A Bcd ".repeat(n / 4));
        Box::new(move || drop(black_box(parse_production_head(&t).expect("a head"))))
    }),
    ("reading a refused rule of n symbols", 128_000, |n| {
        let t = format!("A {} -> A", "A Bcd ".repeat(n / 2));
        Box::new(move || assert!(black_box(parse_production(&t)).is_err()))
    }),
    ("adding a rule of n symbols to a system", 128_000, |n| {
        let t = format!("A -> {}", "A Bcd C ".repeat(n / 3));
        Box::new(move || {
            let s = System::new();
            black_box(s.add_production(t.as_str()).expect("a rule"));
        })
    }),
    ("adding n symbols to a system", 16_000, |n| {
        let names: Vec<String> = (0..n).map(|i| format!("grow{i}")).collect();
        for n in &names {
            sym(n);
        }
        Box::new(move || {
            let s = System::new();
            for n in &names {
                s.add_symbol(n.as_str()).expect("a symbol");
            }
            assert_eq!(s.symbol_len(), names.len());
            assert!(names.iter().all(|n| s.get_symbol(n).is_some()));
        })
    }),
    ("looking up n names", 16_000, |n| {
        let names: Vec<String> = (0..n).map(|i| format!("grow{i}")).collect();
        for n in &names {
            sym(n);
        }
        Box::new(move || assert!(names.iter().all(|n| Symbol::build(n).is_ok_and(|s| s.name().as_ref() == Some(n)))))
    }),
    ("a family of n symbols", 16_000, |n| {
        let names: Vec<String> = (0..n).map(|i| format!("grow{i}")).collect();
        Box::new(move || {
            let mut d = SystemFamily::define();
            for (i, n) in names.iter().enumerate() {
                d = if i % 2 == 0 { d.with_terminal(n.as_str(), Some("described")) } else { d.with_production(n.as_str(), None) };
            }
            assert_eq!(black_box(d.build("a family").expect("a family")).symbols().count(), names.len());
        })
    }),
    ("n rules in a list and a set", 128_000, |n| {
        let p = rule("A < B > C -> A");
        Box::new(move || {
            let (set, list): (RefCell<HashSet<u32>>, RefCell<Vec<Production>>) = Default::default();
            for _ in 0..n {
                list.add_production(p.clone()).expect("a rule");
                set.add_symbol(*p.head().target()).expect("a symbol");
            }
            assert_eq!(list.borrow().len(), n);
        })
    }),
    ("drawing n symbols", 256_000, |n| {
        let (s, sys) = (string(&BRANCHY, n), AbopTurtleInterpretation::system().expect("a system"));
        Box::new(move || drop(black_box(AbopTurtleInterpretation::new(1, 22.5).interpret(&sys, &s).expect("a drawing"))))
    }),
    ("drawing n branches one after another", 64_000, |n| {
        let (f, o, c) = (sym("Forward"), sym("["), sym("]"));
        let s = ProductionString::from((0..n).flat_map(|_| [o, f, c]).collect::<Vec<_>>());
        let sys = AbopTurtleInterpretation::system().expect("a system");
        Box::new(move || drop(black_box(AbopTurtleInterpretation::new(1, 22.5).interpret(&sys, &s).expect("a drawing"))))
    }),
    ("drawing n branches within each other", 64_000, |n| {
        let (f, o, c) = (sym("Forward"), sym("["), sym("]"));
        let s = ProductionString::from((0..n).flat_map(|_| [f, o]).chain((0..n).flat_map(|_| [c, f])).collect::<Vec<_>>());
        let sys = AbopTurtleInterpretation::system().expect("a system");
        Box::new(move || drop(black_box(AbopTurtleInterpretation::new(1, 22.5).interpret(&sys, &s).expect("a drawing"))))
    }),
    ("drawing n unknown symbols and turns", 256_000, |n| {
        let (s, sys) = (string(&["+", "Y", "Z", "+", "-"], n), AbopTurtleInterpretation::system().expect("a system"));
        Box::new(move || drop(black_box(AbopTurtleInterpretation::new(1, 22.5).interpret(&sys, &s).expect("a drawing"))))
    }),
    ("an SVG of n segments", 64_000, |n| {
        let (s, sys) = (string(&["Forward", "+", "Forward", "Forward", "Forward", "+"], n), AbopTurtleInterpretation::system().expect("a system"));
        Box::new(move || {
            let svg = AbopSvgInterpretation::new(100, 100).interpret(&sys, &s).expect("a drawing");
            drop(black_box(svg.to_svg()))
        })
    }),
    ("an SVG of n paths", 32_000, |n| {
        let (s, sys) = (string(&["Forward", "Move"], n), AbopTurtleInterpretation::system().expect("a system"));
        Box::new(move || {
            let svg = AbopSvgInterpretation::new(100, 100).interpret(&sys, &s).expect("a drawing");
            drop(black_box(svg.to_svg()))
        })
    }),
    ("the text of a drawing of n paths", 128_000, |n| {
        let (s, sys) = (string(&["Forward", "Move"], n), AbopTurtleInterpretation::system().expect("a system"));
        let svg = AbopSvgInterpretation::new(100, 100).interpret(&sys, &s).expect("a drawing");
        Box::new(move || drop(black_box(svg.to_svg())))
    }),
    ("a path element of n points", 64_000, |n| {
        let p = SvgPath::from(points(n).collect::<Path>());
        Box::new(move || drop(black_box(p.to_svg())))
    }),
    ("pushing n points", 512_000, |n| {
        Box::new(move || {
            let mut p = Path::new();
            for q in points(n) {
                p.push(q);
            }
            assert_eq!(black_box(p).len(), n);
        })
    }),
    ("moving a path of n points", 256_000, |n| {
        let p: Path = points(n).collect();
        Box::new(move || drop(black_box(p.clone() + Vector::new(1.0, 2.0))))
    }),
    ("the bounds of n points", 256_000, |n| {
        let p: Path = points(n).collect();
        Box::new(move || drop(black_box(p.bounds())))
    }),
    ("the bounds of n paths", 64_000, |n| {
        let p: Vec<Path> = (0..n).map(|i| points(i % 4).collect()).collect();
        Box::new(move || drop(black_box(p.bounds())))
    }),
    ("a plant file with n comments, blank and setting lines", 64_000, |n| {
        let t = format!("{}initial: A\nA -> A\n", "# one two three\n\n  \nn = 3\n".repeat(n / 4));
        Box::new(move || assert!(black_box(plant::parse(&t)).is_ok()))
    }),
    ("a plant file with an axiom and a body of n symbols", 64_000, |n| {
        let t = format!("initial: {}\nA -> {}\n", "A Bcd ".repeat(n / 4), "C + ".repeat(n / 4));
        Box::new(move || assert!(black_box(plant::parse(&t)).is_ok()))
    }),
];

/// Smallest CPU time of some runs, in nanoseconds.
fn time(job: &Job, runs: usize) -> Result<u64, String> {
    let mut best = u64::MAX;
    for _ in 0..runs {
        let t = cpu();
        lib("the call", job)?;
        best = best.min(cpu() - t);
    }
    Ok(best)
}

/// Sixteen times as much may take this many times as long. Quadratic growth takes 256 times.
const LIMIT: u64 = 90;

fn growth(which: usize, cov: &mut Cov) -> Case {
    let (name, max, prepare) = GROWTH[which];
    let at = |e: String| format!("{name}: {e}");
    // Of each size: n, time, peak, calls for memory, bytes these asked for.
    let mut seen: Vec<(usize, u64, i64, u64, i64)> = vec![];
    let mut n = max / 1024;
    while n <= max {
        let job = prepare(n);
        // Caches, lazily made tables.
        lib("the call", &job).map_err(at)?;
        let (r, peak, calls, bytes) = metered(|| lib("the call", &job));
        r.map_err(at)?;
        let t = time(&job, 3).map_err(at)?;
        seen.push((n, t, peak, calls, bytes));
        cov.count("sizes measured", 1);
        cov.max("largest n", n as u64);
        if let [.., (n0, t0, p0, c0, b0), _, (n1, t1, p1, c1, b1)] = seen[..] {
            let memory = p1 > 1 << 20 && p1 > 64 * p0.max(1024);
            // Neither what is read nor what is returned has become more.
            let flat = name.starts_with("n derivation steps") && p1 > 65536 + 4 * p0;
            if memory || flat {
                return Err(format!("{name}: for n = {n0} it takes up to {p0} bytes at a time, for n = {n1} {p1} bytes"));
            }
            if c1 > 4096 && c1 > 64 * c0.max(16) {
                return Err(format!("{name}: for n = {n0} it asks for memory {c0} times, for n = {n1} {c1} times"));
            }
            if b1 > 8 << 20 && b1 > 64 * b0.max(4096) {
                return Err(format!("{name}: for n = {n0} it asks for {b0} bytes of memory in all, for n = {n1} for {b1}"));
            }
            if t1 > 20_000_000 && t1 > LIMIT * t0.max(20_000) {
                // Measured again, more carefully.
                let small = prepare(n0);
                lib("the call", &small).map_err(at)?;
                let mut again = (t0, t1);
                for _ in 0..4 {
                    again = (again.0.max(time(&small, 5).map_err(at)?), again.1.min(time(&job, 2).map_err(at)?));
                    cov.count("measured again", 1);
                }
                if again.1 > 20_000_000 && again.1 > LIMIT * again.0.max(20_000) {
                    return Err(format!("{name}: for n = {n0} it takes {} microseconds of CPU time, for n = {n1} {}", again.0 / 1000, again.1 / 1000));
                }
            }
            cov.max("growth of time for 16 times as much, percent of linear", t1 * 100 / (16 * t0.max(1)));
            cov.max("growth of the bytes asked for, for 16 times as much, percent of linear", (b1.max(1) * 100 / (16 * b0.max(1024))) as u64);
            cov.max("growth of peak memory for 16 times as much, percent of linear", (p1.max(1) * 100 / (16 * p0.max(1024))) as u64);
        }
        if t > 1_500_000_000 {
            cov.count("stopped growing because of the time it takes", 1);
            break;
        }
        n *= 4;
    }
    let (_, _, p, _, _) = seen.last().copied().unwrap();
    cov.max("largest peak in bytes", p.max(0) as u64);
    cov.distinct(&format!("{name} {}", seen.len()));
    cov.sample(|| {
        let s: Vec<String> = seen.iter().map(|(n, t, p, c, b)| format!("n={n}: {} us, {p} bytes at a time, {c} allocations of {b} bytes", t / 1000)).collect();
        format!("{name}: {}", s.join("; "))
    });
    Ok(())
}

/// A conversion that fails, or panics.
struct Bad(bool);

impl TryFrom<Bad> for Production {
    type Error = Error;
    fn try_from(b: Bad) -> Result<Self, Error> {
        if b.0 {
            panic!("as planned");
        }
        Err(Error::general("as planned"))
    }
}

impl TryFrom<Bad> for Symbol {
    type Error = Error;
    fn try_from(b: Bad) -> Result<Self, Error> {
        if b.0 {
            panic!("as planned");
        }
        Err(Error::general("as planned"))
    }
}

fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("mon-c25-{}", std::process::id()))
}

/// Things after which nothing is left.
const REPEATED: &[(&str, fn(usize) -> Job)] = &[
    ("a derivation from a list", |k| {
        let (s, r) = (string(&["A", "B", "C"], k), slice(&["A -> A B", "B ->", "A < C > A -> C"]));
        Box::new(move || drop(system::derive(s.clone(), &r, 3.into())))
    }),
    ("a derivation with random alternatives", |k| {
        let mut p = rule("A -> 0.3 B");
        p.add_body(ProductionBody::new(string(&["A"], 2)));
        let (s, r) = (string(&["A", "B", "C"], k), vec![p]);
        Box::new(move || drop(system::derive(s.clone(), &r, 3.into())))
    }),
    ("a derivation that fails", |k| {
        let mut p = rule("A -> 0.8 B");
        p.add_body(ProductionBody::try_with_chance(0.9, sym("C").into()).unwrap());
        let (s, r) = (string(&["C", "B", "A"], k + 3), vec![p]);
        Box::new(move || drop(system::derive(s.clone(), &r, 3.into())))
    }),
    ("derivations to nothing, to the same and to more", |k| {
        let (list, sys) = (slice(&["A ->", "B ->", "C -> ", "E -> E", "G -> G G", "A < D -> D"]), System::new());
        for r in &list {
            sys.add_production(r.clone()).expect("a rule");
        }
        let strings = [string(&["A"], k), string(&["A", "B", "C"], k), string(&["E"], k), string(&["F"], k), string(&["G"], 1 + k % 7), string(&["A", "D"], k), ProductionString::empty()];
        Box::new(move || {
            for s in &strings {
                drop(system::derive_once(s.clone(), &list));
                drop(sys.derive_once(s.clone()));
                for n in [0, 1, 3] {
                    drop(system::derive(s.clone(), &list, n.into()));
                    drop(sys.derive(s.clone(), n.into()));
                }
            }
        })
    }),
    ("derivations one after another", |k| {
        let r = slice(&["A -> A B", "B -> A", "C ->", "D -> E", "E -> D", "D < D -> C D"]);
        let s = string(&["A", "C", "D"], 2 + k % 12);
        Box::new(move || {
            let mut s = s.clone();
            for _ in 0..6 {
                match system::derive_once(s, &r) {
                    Ok(t) => s = t,
                    Err(_) => break,
                }
            }
        })
    }),
    ("a derivation in a system", |k| {
        let (s, sys) = (string(&["A", "B", "C"], k), System::new());
        for r in ["A -> A B", "B ->", "A < C > A -> C"] {
            sys.add_production(r).expect("a rule");
        }
        Box::new(move || drop(sys.derive(s.clone(), 2.into())))
    }),
    ("a system with rules", |k| {
        let t = format!("A -> {}", "A B ".repeat(k % 50));
        Box::new(move || {
            let s = System::new();
            for r in ["B -> C", "A < B -> C", t.as_str(), "B -> A"] {
                s.add_production(r).expect("a rule");
            }
            s.add_symbol("D").expect("a symbol");
            drop(s.derive_once(sym("A").into()));
        })
    }),
    ("a system of a family", |_| {
        Box::new(|| {
            drop(System::of_family(rusty_systems::interpretation::abop::abop_family()));
            drop(System::of_family("ABOP"));
            drop(AbopTurtleInterpretation::system());
            drop(NullInterpretation::system());
            drop(System::of_family("no such family"));
        })
    }),
    ("rules refused by a system", |k| {
        let (sys, p) = (System::new(), k % 2 == 0);
        sys.add_production("A -> B").expect("a rule");
        Box::new(move || {
            for t in ["", "A", "-> A", "A B -> C", "A -> 7 B", "A < -> B", "# -> 1.5"] {
                drop(sys.add_production(t));
                drop(sys.add_production(t.to_string()));
            }
            if p {
                user_panics(|| sys.add_production(Bad(true)).is_ok());
            }
            drop(sys.add_production(Bad(false)));
        })
    }),
    ("symbols refused by a system, and those it has", |k| {
        let (sys, p) = (System::new(), k % 2 == 0);
        sys.add_symbol("A").expect("a symbol");
        Box::new(move || {
            for t in ["", " ", "\t\n", "A", " A "] {
                drop(sys.add_symbol(t));
            }
            drop(sys.add_symbol(u32::MAX - 3));
            drop(sys.add_symbol(sym("A")));
            if p {
                user_panics(|| sys.add_symbol(Bad(true)).is_ok());
            }
            drop(sys.add_symbol(Bad(false)));
            black_box((sys.symbol_len(), sys.production_len()));
        })
    }),
    ("questions to a system and the registry", |_| {
        let sys = System::new();
        sys.add_symbol("A").expect("a symbol");
        Box::new(move || {
            for n in ["A", "B", " A ", "", "what nobody has"] {
                black_box(sys.get_symbol(n));
                drop(rusty_systems::symbols::get_code(n));
            }
            drop(rusty_systems::symbols::get_name(u32::MAX - 3));
            drop(sym("A").name());
            drop((sym("A").to_string(), Symbol::from_code(u32::MAX - 3).to_string()));
        })
    }),
    ("strings read", |k| {
        let t = "A B ( ) C;".repeat(1 + k % 20);
        Box::new(move || {
            for t in [t.as_str(), "A B C", "", "A -> B", "<", "A > B", ";", "- + ->", "\u{3000}A\tB"] {
                drop(parse_prod_string(t));
                drop(t.parse::<ProductionString>());
                black_box(TokenIterator::new(t).count());
            }
        })
    }),
    ("rules read", |k| {
        let t = format!("A -> {}", "A B ".repeat(k % 50));
        Box::new(move || {
            for t in [t.as_str(), "A < B > C -> 0.5 D", "", "A", "A B -> C", "A -> 3 B", "> A -> B", "A -> B -> C", "< A > -> "] {
                drop(parse_production(t));
                drop(t.parse::<Production>());
                drop(parse_production_head(t));
                drop(parse_production_body(t));
            }
        })
    }),
    ("rules put into stores", |_| {
        Box::new(|| {
            let (set, list): (RefCell<HashSet<u32>>, RefCell<Vec<Production>>) = Default::default();
            for t in ["A -> B", "A < B -> C D", "A", "A -> -> B"] {
                drop(parse_and_add_production(&set, &list, t));
                drop(list.add_production(t));
            }
            black_box(set.get_symbol("A"));
        })
    }),
    ("values copied, compared and merged", |k| {
        let (s, p) = (string(&["A", "B"], k), rule("A < B > C -> 0.5 D"));
        Box::new(move || {
            let mut q = p.clone();
            q.merge(p.clone());
            q.add_body(ProductionBody::new(s.clone()));
            let set: HashSet<Production> = [q, p.clone()].into_iter().collect();
            let v: Vec<Symbol> = p.all_symbols();
            black_box((set.len(), v.len(), s.to_string().len(), p.matches(&s, 1)));
        })
    }),
    ("drawings", |k| {
        let (s, sys) = (string(&BRANCHY, k), AbopTurtleInterpretation::system().expect("a system"));
        let bad = ProductionString::from(vec![sym("Forward"), sym("["), sym("Forward"), sym("]"), sym("]")]);
        let open = ProductionString::from(vec![sym("["), sym("Forward"), sym("["), sym("Move")]);
        Box::new(move || {
            for s in [&s, &bad, &open] {
                drop(AbopTurtleInterpretation::new(1, 22.5).interpret(&sys, s));
                drop(AbopSvgInterpretation::new(70, 30).interpret(&sys, s).map(|s| s.to_svg()));
                drop(NullInterpretation::default_interpret(&sys, s));
            }
        })
    }),
    ("paths and boxes", |k| {
        let p: Path = points(k).collect();
        Box::new(move || {
            let q = p.clone() + Vector::up();
            black_box((p.bounds(), vec![p.clone(), q.clone()].bounds(), SvgPath::from(q).to_svg()));
        })
    }),
    ("plants read", |k| {
        let t = format!("n = 3\ndelta = 20\ninitial: {}\nA -> A B\n", "A ".repeat(1 + k % 40));
        Box::new(move || {
            for t in [t.as_str(), "", "n = x\ninitial: A\nA -> A", "n = 3\nA -> A", "initial: A", "delta = \u{221e}", "initial: A\nwhat is this", "initial: ->\nA -> A"] {
                drop(plant::parse(t));
            }
        })
    }),
    ("files read and written", |k| {
        let s = string(&BRANCHY, k % 40);
        Box::new(move || {
            let d = scratch();
            std::fs::create_dir_all(&d).expect("scratch directory");
            std::fs::write(d.join("p"), "n = 2\ninitial: Forward\nForward -> Forward +").expect("scratch file");
            std::fs::write(d.join("q"), b"\xff\xfe").expect("scratch file");
            std::fs::write(d.join("r"), "initial: A\nwhat is this").expect("scratch file");
            let sys = AbopTurtleInterpretation::system().expect("a system");
            let svg = AbopSvgInterpretation::new(10, 10).interpret(&sys, &s).expect("an SVG");
            for f in ["p", "q", "r", "none", "."] {
                drop(plant::parse_file(d.join(f)));
            }
            for f in ["s", "s", ".", "no/such"] {
                drop(svg.save_file(d.join(f)));
            }
        })
    }),
    ("families refused, found and built", |_| {
        drop(SystemFamily::define().with_terminal("A", None).register("c25"));
        Box::new(|| {
            drop(SystemFamily::define().with_terminal("B", Some("again")).register("c25"));
            drop(SystemFamily::define().with_production("B", None).register(" "));
            drop(SystemFamily::define().with_terminal("B", None).build("c25"));
            drop(SystemFamily::define().build(""));
            drop((family::get_family("c25"), family::get_family("c25 none")));
            drop(family::get_or_init_family("c25", || unreachable!()));
            user_panics(|| drop(family::get_or_init_family("c25 none", || panic!("as planned"))));
        })
    }),
];

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count())
}

fn repeated(rng: &mut Rng, which: usize, cov: &mut Cov) -> Case {
    let (name, prepare) = REPEATED[which];
    let at = |e: String| format!("{name}: {e}");
    let job = prepare(rng.range(0, 120));
    for _ in 0..2 {
        lib("the call", &job).map_err(at)?;
    }
    // Twice as many each time, so that what grows in leaps has to leap each time.
    let mut levels = vec![live()];
    let files = open_files();
    let mut total = 0;
    for k in 0..7 {
        for _ in 0..6 << k {
            lib("the call", &job).map_err(at)?;
        }
        total += 6 << k;
        levels.push(live());
    }
    let grown = levels.windows(2).filter(|w| w[1] > w[0]).count();
    if grown >= 5 && levels[7] - levels[0] > 64 {
        return Err(format!("{name}: repeated {total} times, it keeps ever more memory: {levels:?} bytes"));
    }
    let now = open_files();
    if now >= files + total / 2 {
        return Err(format!("{name}: repeated {total} times, it has {now} files open instead of {files}"));
    }
    drop(job);
    cov.count("calls repeated", total as u64);
    cov.max("bytes kept after repeating", (levels[7] - levels[0]).max(0) as u64);
    cov.distinct(&format!("{name} {:?}", rng.next() % 64));
    cov.sample(|| format!("{name}: {levels:?} bytes after 0, 6, 18, 42, ... calls"));
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    let i = i as usize;
    let r = if i < 4 * GROWTH.len() && i % 4 == 3 || i % 40 == 39 {
        growth(i / 4 % GROWTH.len(), cov)
    } else {
        repeated(rng, i % REPEATED.len(), cov)
    };
    let _ = std::fs::remove_dir_all(scratch());
    r
}
