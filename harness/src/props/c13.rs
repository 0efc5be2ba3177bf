//! The turtle.
use std::cell::RefCell;
use std::collections::HashSet;

use rusty_systems::geometry::Path;
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::model::Vocab;
use crate::plants;
use crate::rng::Rng;
use crate::turtle::{self, Act, P};

pub fn segments(paths: &[Path]) -> Vec<(P, P)> {
    let mut out = vec![];
    for p in paths {
        let pts: Vec<P> = p.iter().map(|p| P { x: p.x(), y: p.y() }).collect();
        out.extend(pts.windows(2).map(|w| (w[0], w[1])));
    }
    out
}

/// Compares what is drawn with what should be.
pub fn compare(got: Result<Vec<Path>, String>, acts: &[Act], delta: f32, what: &dyn Fn() -> String) -> Result<Option<usize>, String> {
    match (turtle::draw(acts.iter().copied(), delta), got) {
        (None, Err(_)) => Ok(None),
        (None, Ok(_)) => Err(format!("{}: a branch is finished that was never started, but it is drawn", what())),
        (Some(_), Err(e)) => Err(format!("{} is refused: {e}", what())),
        (Some(d), Ok(paths)) => {
            let segs = segments(&paths);
            ensure!(segs.len() == d.segments.len(), "{}: {} segments are drawn instead of {}", what(), segs.len(), d.segments.len());
            let tol = turtle::tolerance(&d, acts.len(), delta);
            for (i, (w, g)) in d.segments.iter().zip(&segs).enumerate() {
                ensure!(
                    turtle::near(w.0, g.0, tol) && turtle::near(w.1, g.1, tol),
                    "{}: segment {i} goes from {:?} to {:?} instead of from {:?} to {:?}",
                    what(),
                    g.0,
                    g.1,
                    w.0,
                    w.1
                );
            }
            Ok(Some(segs.len()))
        }
    }
}

fn deltas(rng: &mut Rng) -> f32 {
    match rng.below(6) {
        0 => *rng.pick(&[0.0, -0.0, 90.0, 45.0, 180.0, 360.0, -90.0, 60.0, 30.0, 22.5, 25.7, 720.0, 1e-3, 1e4, -1e4, 359.99, 120.0]),
        1 => rng.range(0, 720) as f32 - 360.0,
        2 => (rng.unit() * 2e4 - 1e4) as f32,
        _ => (rng.unit() * 180.0) as f32,
    }
}

/// Which of the instructions a store knows, and what the store is.
fn acts(v: &Vocab, s: &[usize], known: &[bool]) -> Vec<Act> {
    s.iter().map(|i| if known[*i] { turtle::act(&v.names[*i]) } else { Act::Nothing }).collect()
}

fn string(rng: &mut Rng, v: &Vocab, len: usize, broken: bool) -> Vec<usize> {
    let find = |n: &str| v.names.iter().position(|x| x == n).unwrap();
    match rng.below(6) {
        0 => gen::syms(rng, v.len(), len),
        1 => {
            // Deep nesting.
            let k = len / 3;
            let mut s = vec![];
            for _ in 0..k {
                s.push(find("["));
                s.push(find(rng.pick(&["Forward", "+", "-", "Move", "["])));
                if s[s.len() - 1] == find("[") {
                    s.pop();
                }
            }
            for _ in 0..k {
                s.push(find("]"));
                if rng.chance(1, 2) {
                    s.push(find("Forward"));
                }
            }
            if broken {
                s.push(find("]"));
            }
            s
        }
        2 => {
            // Few kinds, so that runs and repetitions occur.
            let a = find(rng.pick(&["Forward", "Move", "+", "-"]));
            let b = find(rng.pick(&["Forward", "Move", "+", "-", "X"]));
            let c = find("Forward");
            (0..len).map(|_| *rng.pick(&[a, a, b, c])).collect()
        }
        _ => {
            let mut s = plants::balanced(rng, v, len);
            if broken {
                let at = rng.below(s.len() + 1);
                s.insert(at, find("]"));
            }
            s
        }
    }
}

fn one(rng: &mut Rng, v: &Vocab, s: &[usize], cov: &mut Cov) -> Case {
    let delta = deltas(rng);
    let n = rng.below(9);
    let t = AbopTurtleInterpretation::new(n, delta);
    ensure!(t.n() == n && (t.delta() == delta), "the settings of the turtle are n = {}, delta = {}", t.n(), t.delta());
    let st = v.string(s);
    let what = || format!("delta {delta}: {}", v.show(s));
    let all = vec![true; v.len()];
    let (got, known) = match rng.below(4) {
        0 | 1 => {
            let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
            (lib("interpret", || t.interpret(&sys, &st).map_err(|e| e.to_string())).map_err(|e| format!("{}: {e}", what()))?, all)
        }
        k => {
            // A store that knows some of the symbols.
            let known: Vec<bool> = (0..v.len()).map(|_| rng.chance(3, 4)).collect();
            let got = if k == 2 {
                let sys = System::new();
                for (i, k) in known.iter().enumerate() {
                    if *k {
                        sys.add_symbol(v.syms[i]).map_err(|e| e.to_string())?;
                    }
                }
                lib("interpret", || t.interpret(&sys, &st).map_err(|e| e.to_string()))
            } else {
                let set: HashSet<u32> = known.iter().enumerate().filter(|(_, k)| **k).map(|(i, _)| v.syms[i].code()).collect();
                let set = RefCell::new(set);
                lib("interpret", || t.interpret(&set, &st).map_err(|e| e.to_string()))
            };
            let names: Vec<&String> = known.iter().enumerate().filter(|(_, k)| **k).map(|(i, _)| &v.names[i]).collect();
            (got.map_err(|e| format!("{} in a store of {names:?}: {e}", what()))?, known)
        }
    };
    let a = acts(v, s, &known);
    match compare(got, &a, delta, &what)? {
        None => cov.count("strings refused", 1),
        Some(n) => {
            cov.count("strings drawn", 1);
            cov.count("segments drawn", n as u64);
            cov.max("segments in a drawing", n as u64);
        }
    }
    cov.distinct(&format!("{delta} {}", v.text(s)));
    cov.sample(what);
    Ok(())
}

/// Angles and strings beyond reason: no crash, and the right number of segments.
fn wild(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let delta = *rng.pick(&[f32::MAX, f32::MIN, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, 1e-45, 1e30]);
    let s = string(rng, v, 60, false);
    let st = v.string(&s);
    let t = AbopTurtleInterpretation::new(usize::MAX, delta);
    let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let got = lib("interpret", || t.interpret(&sys, &st).map_err(|e| e.to_string()))?;
    match (turtle::draw(acts(v, &s, &vec![true; v.len()]).into_iter(), 1.0), got) {
        (Some(d), Ok(p)) => ensure!(segments(&p).len() == d.segments.len(), "delta {delta}: {} segments in {}", segments(&p).len(), v.show(&s)),
        (None, Err(_)) => {}
        (d, g) => return Err(format!("delta {delta}: {} is {} although {}", v.show(&s), if g.is_ok() { "drawn" } else { "refused" }, if d.is_some() { "fine" } else { "unbalanced" })),
    }
    // The default turtle.
    let d = AbopTurtleInterpretation::default();
    let got = lib("default_interpret", || AbopTurtleInterpretation::default_interpret(&sys, &st).map_err(|e| e.to_string()))?;
    compare(got, &acts(v, &s, &vec![true; v.len()]), d.delta(), &|| format!("default turtle: {}", v.show(&s)))?;
    // The null interpretation never fails, and the SVG one fails as the turtle does.
    let svg = lib("svg interpret", || AbopSvgInterpretation::new(10, 20).interpret(&sys, &st).is_ok())?;
    ensure!(svg == turtle::draw(acts(v, &s, &vec![true; v.len()]).into_iter(), 1.0).is_some(), "the SVG of {} is {}", v.show(&s), if svg { "drawn" } else { "refused" });
    cov.count("wild angles", 1);
    Ok(())
}

/// Every string of up to six instructions.
fn sweep(rng: &mut Rng, v: &Vocab, slice: u64, slices: u64, cov: &mut Cov) -> Case {
    let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let delta = deltas(rng);
    let t = AbopTurtleInterpretation::new(0, delta);
    let all = vec![true; v.len()];
    for len in 0..=6u32 {
        let n = 7u64.pow(len);
        let mut x = slice;
        while x < n {
            let mut y = x;
            let s: Vec<usize> = (0..len)
                .map(|_| {
                    let d = (y % 7) as usize;
                    y /= 7;
                    d
                })
                .collect();
            let got = lib("interpret", || t.interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))?;
            compare(got, &acts(v, &s, &all), delta, &|| format!("delta {delta}: {}", v.show(&s)))?;
            cov.count("strings of the exhaustive sweep", 1);
            x += slices;
        }
    }
    cov.distinct(&format!("sweep {slice} {delta}"));
    Ok(())
}

/// Very many of the same instruction in a row, and then a drawing that shows what became of them.
fn runs(rng: &mut Rng, v: &Vocab) -> Vec<usize> {
    let find = |n: &str| v.names.iter().position(|x| x == n).unwrap();
    let mut s = vec![];
    let mut depth = 0;
    for _ in 0..rng.range(1, 4) {
        let n = match rng.below(3) {
            0 => *rng.pick(&[127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537]),
            1 => rng.range(100, 2_000),
            _ => rng.range(2_000, 70_000),
        };
        let mut k = *rng.pick(&["+", "-", "Forward", "Move", "[", "]", "X"]);
        let n = if k == "]" { n.min(depth) } else { n };
        if depth > 70_000 {
            k = "+";
        }
        match k {
            "[" => depth += n,
            "]" => depth -= n,
            _ => {}
        }
        // Something else within the run, now and then.
        let cut = if rng.chance(1, 2) { rng.below(n + 1) } else { n };
        s.extend((0..cut).map(|_| find(k)));
        if cut < n {
            s.push(find(rng.pick(&["Forward", "+", "Move", "X"])));
            s.extend((cut..n).map(|_| find(k)));
        }
        for _ in 0..rng.range(1, 4) {
            s.push(find(rng.pick(&["Forward", "Move", "+", "-", "Forward"])));
        }
    }
    s.extend((0..depth).map(|_| find("]")));
    s.push(find("Forward"));
    s
}

/// Symbols with codes that were never given to any name, and stores that know only some of the instructions: what is not
/// known is passed over.
fn strangers(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let delta = deltas(rng);
    let t = AbopTurtleInterpretation::new(1, delta);
    let known: Vec<bool> = (0..v.len()).map(|_| rng.chance(1, 2)).collect();
    let codes = [0, 1, 2, 10, 99, u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32, 1 << 24, 3_000_000_000];
    let used: HashSet<u32> = v.syms.iter().map(|s| s.code()).collect();
    let len = rng.range(1, 40);
    let s = plants::balanced(rng, v, len);
    let mut st = ProductionString::new();
    let mut a = vec![];
    let mut shown = vec![];
    let mut stranger = |rng: &mut Rng, st: &mut ProductionString, a: &mut Vec<Act>, shown: &mut Vec<String>| {
        let c = *rng.pick(&codes);
        if !used.contains(&c) {
            st.push_symbol(Symbol::from_code(c));
            a.push(Act::Nothing);
            shown.push(format!("code {c}"));
        }
    };
    for x in &s {
        if rng.chance(1, 3) {
            stranger(rng, &mut st, &mut a, &mut shown);
        }
        st.push_symbol(v.syms[*x]);
        a.push(if known[*x] { turtle::act(&v.names[*x]) } else { Act::Nothing });
        shown.push(v.names[*x].clone());
    }
    stranger(rng, &mut st, &mut a, &mut shown);
    let names: Vec<&String> = known.iter().enumerate().filter(|(_, k)| **k).map(|(i, _)| &v.names[i]).collect();
    let got = if rng.chance(1, 2) {
        let sys = System::new();
        for (i, k) in known.iter().enumerate() {
            if *k {
                sys.add_symbol(v.syms[i]).map_err(|e| e.to_string())?;
            }
        }
        lib("interpret", || t.interpret(&sys, &st).map_err(|e| e.to_string()))
    } else {
        let set: HashSet<u32> = known.iter().enumerate().filter(|(_, k)| **k).map(|(i, _)| v.syms[i].code()).collect();
        let set = RefCell::new(set);
        lib("interpret", || t.interpret(&set, &st).map_err(|e| e.to_string()))
    };
    let what = || format!("delta {delta}, in a store of {names:?}: {}", shown.join(" "));
    compare(got.map_err(|e| format!("{}: {e}", what()))?, &a, delta, &what)?;
    cov.count("strings with symbols nobody named", 1);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    let n = *rng.pick(&[0, 1, 4]);
    let v = plants::vocab(rng, n)?;
    const SLICES: u64 = 160;
    if i < SLICES {
        return sweep(rng, &v, i, SLICES, cov);
    }
    for _ in 0..6 {
        let len = gen::length(rng, 40, if tier == Tier::Quick { 5_000 } else { 60_000 });
        let broken = rng.chance(1, 6);
        let s = string(rng, &v, len, broken);
        one(rng, &v, &s, cov)?;
    }
    if i % 100 == 9 {
        let s = runs(rng, &v);
        one(rng, &v, &s, cov)?;
    }
    if i % 10 == 3 {
        strangers(rng, &v, cov)?;
    }
    if i % 200 == 7 {
        let s = string(rng, &v, 120_000, false);
        one(rng, &v, &s, cov)?;
    }
    wild(rng, &v, cov)
}
