//! Undefined behaviour: small cases of the other monitors, run by Miri, and what the library lets threads share or hand
//! over, shared and handed over.
use std::cell::RefCell;
use std::fmt::Debug;

use rusty_systems::error::{Error, ErrorKind};
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgCircle, SvgDecorations, SvgElement, SvgGroup, SvgPath, SvgScale, SvgTranslate};
use rusty_systems::interpretation::NullInterpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Chance, Production, ProductionBody, ProductionHead};
use rusty_systems::system::family::{Builder, SymbolDescription};

use crate::core::{lib, Case, Cov, Tier};
use crate::gen::{self, Place, Shape};
use crate::model::{self, Rules};
use crate::rng::Rng;

use super::{c02, c19, c20, c21, c22};

/// A system derived, displayed and drawn.
fn derive(rng: &mut Rng) -> Case {
    let n = rng.range(1, 4);
    let mut names: Vec<String> = vec!["Forward".into(), "[".into(), "]".into(), "+".into()];
    names.extend(gen::names(rng, n, Place::Text).into_iter().filter(|n| !["Forward", "[", "]", "+"].contains(&n.as_str())).collect::<Vec<_>>());
    let v = model::Vocab::new(names)?;
    let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let mut rules = Rules::default();
    for _ in 0..rng.range(1, 4) {
        let r = gen::rule(rng, &v, Shape { contexts: 3, alternatives: 2, body: 3, over: false });
        gen::add_rule(rng, &sys, &v, &r)?;
        rules.add(&r);
    }
    let len = rng.range(1, 10);
    let mut s = gen::string_for(rng, v.len(), &rules.0, len);
    for _ in 0..2 {
        let got = lib("derive_once", || sys.derive_once(v.string(&s)).map_err(|e| e.to_string()))?;
        model::check_step(&v, &rules.0, &s, got.clone(), "under Miri")?;
        let Ok(got) = got else { break };
        s = v.back(&got)?;
        s.truncate(16);
        let p = v.string(&s);
        let paths = lib("interpret", || AbopTurtleInterpretation::new(1, 30.0).interpret(&sys, &p).map(|p| p.len()).map_err(|e| e.to_string()))?;
        if paths.is_ok() {
            lib("to_svg", || AbopSvgInterpretation::new(20, 10).interpret(&sys, &p).map(|s| s.to_svg().len()).map_err(|e| e.to_string()))??;
        }
    }
    Ok(())
}

/// A value, and what is done to it in several threads if the compiler lets them have it.
struct Probe<T> {
    value: T,
    threads: usize,
    times: usize,
    act: fn(&T),
}

/// Types that threads may not share, or not own in turn. The compiler chooses these where the others do not apply.
trait Alone {
    fn share(&self) -> bool {
        false
    }
    fn hand_over(&self) -> bool {
        false
    }
}
impl<T> Alone for &Probe<T> {}

trait Shared {
    fn share(&self) -> bool;
}
impl<T: Sync> Shared for Probe<T> {
    fn share(&self) -> bool {
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                s.spawn(|| {
                    for _ in 0..self.times {
                        (self.act)(&self.value);
                    }
                });
            }
        });
        true
    }
}

trait HandedOver {
    fn hand_over(&self) -> bool;
}
impl<T: Send + Clone> HandedOver for Probe<T> {
    fn hand_over(&self) -> bool {
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                let (mine, act, times) = (self.value.clone(), self.act, self.times);
                s.spawn(move || {
                    for _ in 0..times {
                        act(&mine);
                    }
                });
            }
            for _ in 0..self.times {
                (self.act)(&self.value);
            }
        });
        true
    }
}

fn used<T: Clone + Debug>(x: &T) {
    let y = x.clone();
    std::hint::black_box(format!("{y:?}").len());
}

fn error_used(e: &Error) {
    let f = e.clone();
    let mut of: Option<&dyn std::error::Error> = Some(&f);
    while let Some(g) = of {
        std::hint::black_box(g.to_string().len());
        of = g.source();
    }
    std::hint::black_box(format!("{e:?}").len());
}

/// Everything public that threads may have, had by several at once.
fn shared(rng: &mut Rng, cov: &mut Cov) -> Case {
    let mut free = vec![];
    macro_rules! probe {
        ($what:expr, $value:expr, $act:expr) => {{
            let p = Probe { value: $value, threads: rng.range(2, if cfg!(miri) { 2 } else { 4 }), times: if cfg!(miri) { 2 } else { 20 }, act: $act };
            let a = lib($what, || (&p).share())?;
            let b = lib($what, || (&p).hand_over())?;
            cov.count(if a { "values shared" } else { "values that cannot be shared" }, 1);
            cov.count(if b { "values handed over" } else { "values that cannot be handed over" }, 1);
            free.push(format!("{}{}{}", $what, a as u8, b as u8));
        }};
    }
    let which = rng.below(8);
    let v = gen::vocab(rng, 3, Place::Text)?;
    let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let string = lib("parse", || "Forward + Forward [ - Forward ] Forward".parse::<ProductionString>().map_err(|e| e.to_string()))??;
    if which == 0 || which == 1 {
        probe!("an error of a number", Error::from("x".parse::<f32>().unwrap_err()), error_used);
        probe!("an error of a count", Error::from("x".parse::<usize>().unwrap_err()), error_used);
        probe!("an error of a file", Error::from(std::io::Error::other("planned")), error_used);
        probe!("an error", Error::new(ErrorKind::Execution, "planned"), error_used);
        if let Err(e) = lib("parse", || "A B".parse::<Production>())? {
            probe!("an error of a rule", e, error_used);
        }
        if let Err(e) = lib("interpret", || {
            let s: ProductionString = "]".parse()?;
            AbopTurtleInterpretation::default().interpret(&sys, &s).map(|_| ())
        })? {
            probe!("an error of a drawing", e, error_used);
        }
    }
    if which == 2 || which == 3 {
        let svg = lib("interpret", || AbopSvgInterpretation::new(20, 10).interpret(&sys, &string).map_err(|e| e.to_string()))??;
        let svg_used: fn(&Svg) = |s| {
            let t = s.clone();
            std::hint::black_box(t.to_svg().len());
        };
        probe!("a drawing", svg, svg_used);
        probe!("an empty drawing", Svg::default(), svg_used);
        let paths = lib("interpret", || AbopTurtleInterpretation::new(1, 30.0).interpret(&sys, &string).map_err(|e| e.to_string()))??;
        probe!("the paths", paths.clone(), |p: &Vec<Path>| {
            std::hint::black_box((p.bounds(), p.iter().map(|p| p.len()).sum::<usize>()));
        });
        let one = paths.into_iter().next().unwrap_or_default();
        probe!("a path", one.clone(), |p: &Path| {
            used(p);
            std::hint::black_box((p.bounds(), p.iter().count()));
        });
        probe!("a path to draw", SvgPath::from(one), |p: &SvgPath| {
            std::hint::black_box(p.clone().to_svg().len());
        });
        probe!("a group", SvgGroup::default(), |g: &SvgGroup| {
            std::hint::black_box(g.clone().to_svg().len());
        });
        probe!("a box", BoundingBox::default(), used::<BoundingBox>);
        probe!("decorations", SvgDecorations { fill: Some("a<\"".into()), ..Default::default() }, |d: &SvgDecorations| {
            std::hint::black_box(d.clone().to_attr_string().len());
        });
        if let Ok(c) = SvgCircle::build(Point::new(1.0, 2.0), 3.0) {
            probe!("a circle", c, |c: &SvgCircle| {
                std::hint::black_box(c.clone().to_svg().len());
            });
        }
        probe!("a scale", SvgScale::default(), used::<SvgScale>);
        probe!("a translation", SvgTranslate::default(), used::<SvgTranslate>);
        probe!("a point", Point::new(1.0, 2.0), |p: &Point| {
            std::hint::black_box(p.to_string().len());
        });
        probe!("a vector", Vector::new(1.0, 2.0), used::<Vector>);
    }
    if which == 4 || which == 5 {
        let turtle: fn(&AbopTurtleInterpretation) = |t| {
            let u = t.clone();
            let Ok(sys) = AbopTurtleInterpretation::system() else { return };
            let Ok(s) = "Forward [ + Forward ] Forward".parse::<ProductionString>() else { return };
            std::hint::black_box(t.interpret(&sys, &s).map(|p| p.len()).unwrap_or(0) + u.run_settings().max_iterations);
        };
        probe!("a turtle", AbopTurtleInterpretation::new(1, 30.0), turtle);
        probe!("a drawer", AbopSvgInterpretation::new(20, 10), |d: &AbopSvgInterpretation| {
            let Ok(sys) = AbopTurtleInterpretation::system() else { return };
            let Ok(s) = "Forward [ + Forward ] Forward".parse::<ProductionString>() else { return };
            std::hint::black_box(d.clone().interpret(&sys, &s).map(|p| p.to_svg().len()).unwrap_or(0));
        });
        probe!("no interpretation", NullInterpretation::default(), |n: &NullInterpretation| {
            let Ok(sys) = NullInterpretation::system() else { return };
            std::hint::black_box(n.interpret(&sys, &ProductionString::empty()).is_ok());
        });
        probe!("a builder", SystemFamily::define().with_terminal("X", Some("x")), |b: &Builder| {
            std::hint::black_box(std::ptr::from_ref(b));
        });
        let family = SystemFamily::define().with_terminal("Y", None).with_production("X", Some("x")).build("shared").map_err(|e| e.to_string())?;
        probe!("a family", family, |f: &SystemFamily| {
            let g = f.clone();
            std::hint::black_box((g.name().len(), g.symbols().map(|s: &SymbolDescription| s.clone()).count()));
        });
        probe!("settings", RunSettings::for_max_iterations(3), used::<RunSettings>);
    }
    if which >= 6 {
        let r = gen::rule(rng, &v, Shape { contexts: 3, alternatives: 2, body: 3, over: false });
        let p = r.build(&v)?;
        probe!("a head", p.head().clone(), used::<ProductionHead>);
        probe!("a body", r.bodies[0].build(&v)?, used::<ProductionBody>);
        probe!("a chance", Chance::new(0.5), used::<Chance>);
        probe!("a symbol", v.syms[0], |s: &Symbol| {
            std::hint::black_box((s.to_string().len(), *s == s.clone()));
        });
        probe!("a string", v.string(&[0, 1, 2]), |s: &ProductionString| {
            std::hint::black_box((s.clone().to_string().len(), s.iter().count()));
        });
        probe!("a rule", p.clone(), |p: &Production| {
            let s = ProductionString::from(*p.head().target());
            std::hint::black_box((p.matches(&s, 0), p.body().is_ok(), p.clone().all_bodies().len()));
        });
        probe!("a store of rules", RefCell::new(vec![p.clone()]), |s: &RefCell<Vec<Production>>| {
            let _ = s.add_production("z -> z z");
        });
        sys.add_production(p).map_err(|e| e.to_string())?;
        probe!("a system", sys, |s: &System| {
            let Ok(t) = "Forward X Forward".parse::<ProductionString>() else { return };
            std::hint::black_box((s.derive_once(t.clone()).is_ok(), s.derive(t, RunSettings::for_max_iterations(2)).is_ok(), format!("{s:?}").len()));
        });
    }
    cov.distinct(&format!("{which} {}", rng.next()));
    cov.sample(|| free.join(", "));
    Ok(())
}

pub fn case(rng: &mut Rng, _: u64, cov: &mut Cov, _: Tier) -> Case {
    shared(rng, cov)
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let mut cov = Cov::default();
    let which = rng.below(13);
    let n = rng.range(1, 4);
    match which {
        0 => c19::history(rng, &mut cov)?,
        1 => c20::history(rng, &mut cov)?,
        2 => c21::plain(rng, &mut cov, Tier::Quick)?,
        3 => c21::hostile(rng, &mut cov, &[' ', '\u{3000}', '\u{85}'])?,
        4..=6 => {
            let v = gen::vocab(rng, n, Place::Text)?;
            match which {
                4 => c22::own(rng, &v, &mut cov)?,
                5 => c22::cells(rng, &v, &mut cov)?,
                _ => c22::listings(rng, &v, &mut cov)?,
            }
        }
        7 | 8 => derive(rng)?,
        9 => c02::wide(rng)?,
        _ => shared(rng, &mut cov)?,
    }
    Ok(format!("part{which}=1 case=#{}", rng.next() % 1_000_000))
}
