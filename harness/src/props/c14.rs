//! SVG output.
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::plants;
use crate::props::c13;
use crate::rng::Rng;
use crate::svgx;
use crate::turtle::P;

/// An interpretation whose drawing is given.
#[derive(Debug, Default, Clone)]
struct Fixed(Vec<Path>);

impl Interpretation for Fixed {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> {
        Ok(System::new())
    }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        Ok(self.0.clone())
    }
}

fn canvas(rng: &mut Rng) -> (usize, usize) {
    let d = |rng: &mut Rng| match rng.below(8) {
        0 => *rng.pick(&[1, 2, 3, 10, 100, 500, 640, 480, 1080, 4096, 100_000, 1 << 31, 1 << 40]),
        1 => rng.range(1, 1_000_000),
        2 => {
            // Up to where whole numbers can still be told apart, and odd ones among them.
            let top = 1usize << rng.range(16, 52);
            let any = top / 2 + rng.below(top / 2);
            *rng.pick(&[top - 1, top, top + 1, top + 3, any])
        }
        _ => rng.range(1, 2000),
    };
    match rng.below(12) {
        0 => (500, 500),
        1 => (0, 0),
        2 => (0, d(rng)),
        3 => (d(rng), 0),
        _ => (d(rng), d(rng)),
    }
}

/// A coordinate: offsets and extents of many magnitudes.
struct Shape {
    ox: f64,
    oy: f64,
    sx: f64,
    sy: f64,
    grid: bool,
}

fn shape(rng: &mut Rng) -> Shape {
    let size = |rng: &mut Rng| match rng.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 10f64.powi(rng.range(0, 12) as i32 - 6),
        3 => 1e9 * rng.unit(),
        _ => 100.0 * rng.unit(),
    };
    let off = |rng: &mut Rng| match rng.below(4) {
        0 => 0.0,
        1 => 1e6 * (rng.unit() - 0.5),
        _ => 100.0 * (rng.unit() - 0.5),
    };
    let mut s = Shape { ox: off(rng), oy: off(rng), sx: size(rng), sy: size(rng), grid: rng.chance(1, 3) };
    // Extents that drown in their offset are only rounding.
    for (o, e) in [(&mut s.ox, s.sx), (&mut s.oy, s.sy)] {
        if e != 0.0 && e < 1e-6 * o.abs() {
            *o = 0.0;
        }
    }
    s
}

fn point(rng: &mut Rng, s: &Shape) -> Point {
    let u = |rng: &mut Rng| if s.grid { rng.below(4) as f64 / 4.0 } else { rng.unit() };
    Point::new(s.ox + s.sx * u(rng), s.oy + s.sy * u(rng))
}

pub fn show(paths: &[Path]) -> String {
    let mut t: Vec<String> = paths
        .iter()
        .take(6)
        .map(|p| p.iter().take(8).map(|q| format!("({:?}, {:?})", q.x(), q.y())).collect::<Vec<_>>().join(" "))
        .collect();
    if paths.len() > 6 {
        t.push(format!("... {} paths", paths.len()));
    }
    t.join(" / ")
}

fn judge(text: &str, w: usize, h: usize, paths: &[Path]) -> Case {
    let segs = c13::segments(paths);
    let all: Vec<P> = paths.iter().flat_map(|p| p.iter().map(|p| P { x: p.x(), y: p.y() })).collect();
    svgx::judge(text, w, h, &segs, &all, 0.0).map_err(|e| {
        let cut: String = text.chars().take(600).collect();
        format!("the SVG of {} on {w}x{h}: {e}; it reads {cut}", show(paths))
    })
}

fn drawing(rng: &mut Rng, cov: &mut Cov) -> Case {
    let s = shape(rng);
    let k = match rng.below(10) {
        0 => 0,
        1 | 2 => 1,
        _ => rng.range(1, 12),
    };
    let k = if rng.chance(1, 300) { 3000 } else { k };
    // Rarely, more than any number of 16 bits.
    let huge = if cfg!(miri) || std::env::var_os("MON_SANITIZED").is_some() { 9 } else { rng.below(8_000) };
    let k = match huge {
        0 => *rng.pick(&[40_000, 66_000, 140_000]),
        1 => 2,
        _ => k,
    };
    let mut paths: Vec<Path> = vec![];
    for _ in 0..k {
        let n = match rng.below(8) {
            _ if huge == 0 => 2,
            _ if huge == 1 => *rng.pick(&[70_000, 110_000, 150_000]),
            0 => 0,
            1 => 1,
            2 => 2,
            3 => gen::length(rng, 10, 2000),
            _ => rng.range(2, 12),
        };
        let mut p = Path::new();
        for _ in 0..n {
            p.push(point(rng, &s));
        }
        paths.push(p);
    }
    let (w, h) = canvas(rng);
    let i = SvgPathInterpretation::new_with(w, h, Fixed(paths.clone()));
    ensure!(i.width() == w && i.height() == h, "the canvas is {}x{} instead of {w}x{h}", i.width(), i.height());
    let sys = System::new();
    let svg = lib("interpret", || i.interpret(&sys, &ProductionString::empty()).map_err(|e| e.to_string()))
        .map_err(|e| format!("{} on {w}x{h}: {e}", show(&paths)))?
        .map_err(|e| format!("{} on {w}x{h} is refused: {e}", show(&paths)))?;
    let text = lib("to_svg", || svg.to_svg())?;
    judge(&text, w, h, &paths)?;
    ensure!(text == svg.to_svg() && text == svg.clone().to_svg(), "the SVG of {} is not the same each time", show(&paths));
    cov.count("drawings", 1);
    cov.count("segments", c13::segments(&paths).len() as u64);
    cov.distinct(&text);
    cov.sample(|| text.clone());
    Ok(())
}

/// A turtle's drawing, all the way.
fn turtle(rng: &mut Rng, cov: &mut Cov) -> Case {
    let v = plants::vocab(rng, 0)?;
    let len = gen::length(rng, 40, 3000);
    let s = plants::balanced(rng, &v, len);
    let delta = *rng.pick(&[90.0f32, 22.5, 60.0, 45.0, 0.0, 17.3]);
    let (w, h) = canvas(rng);
    let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let t = AbopTurtleInterpretation::new(3, delta);
    let paths = lib("interpret", || t.interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))??;
    let i = AbopSvgInterpretation::new_with(w, h, t);
    ensure!(i.run_settings().max_iterations == 3, "the SVG of a turtle is derived {} times instead of 3", i.run_settings().max_iterations);
    let svg = lib("interpret", || i.interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))?.map_err(|e| format!("the SVG of {} is refused: {e}", v.show(&s)))?;
    judge(&svg.to_svg(), w, h, &paths)?;
    // Drawn as an SVG, the turtle's system is the turtle's.
    let own = lib("system", || AbopSvgInterpretation::system().map_err(|e| e.to_string()))??;
    ensure!(own.symbol_len() == sys.symbol_len() && own.production_len() == 0, "the system of drawings has {} symbols and {} rules instead of {} and none", own.symbol_len(), own.production_len(), sys.symbol_len());
    let again = lib("interpret", || i.interpret(&own, &v.string(&s)).map_err(|e| e.to_string()))??;
    ensure!(again.to_svg() == svg.to_svg(), "with the system of drawings {} is drawn differently", v.show(&s));
    // The defaults.
    let d = AbopSvgInterpretation::new(w, h);
    ensure!(d.width() == w && d.height() == h, "the canvas is {}x{} instead of {w}x{h}", d.width(), d.height());
    let paths = lib("interpret", || AbopTurtleInterpretation::default().interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))??;
    let svg = lib("interpret", || d.interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))??;
    judge(&svg.to_svg(), w, h, &paths)?;
    let svg = lib("default_interpret", || AbopSvgInterpretation::default_interpret(&sys, &v.string(&s)).map_err(|e| e.to_string()))??;
    let def = AbopSvgInterpretation::default();
    judge(&svg.to_svg(), def.width(), def.height(), &paths)?;
    cov.count("drawings", 3);
    cov.count("turtle strings", 1);
    Ok(())
}

fn save(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    let dir = std::env::temp_dir().join(format!("mon-c14-{}-{i}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let r = (|| -> Case {
        let path = dir.join(*rng.pick(&["a.svg", "b", "ü.svg"]));
        for n in [3000usize, 2, 0, 500] {
            let s = shape(rng);
            let p: Path = (0..n).map(|_| point(rng, &s)).collect();
            let paths = vec![p];
            let i = SvgPathInterpretation::new_with(100, 100, Fixed(paths.clone()));
            let svg = lib("interpret", || i.interpret(&System::new(), &ProductionString::empty()).map_err(|e| e.to_string()))??;
            lib("save_file", || svg.save_file(&path).map_err(|e| e.to_string()))?.map_err(|e| format!("saving to {path:?}: {e}"))?;
            let text = std::fs::read_to_string(&path).map_err(|e| format!("the saved file cannot be read: {e}"))?;
            ensure!(text.trim_end() == svg.to_svg(), "the file saved over a longer or shorter one is not the SVG ({} bytes instead of {})", text.len(), svg.to_svg().len());
            judge(&text, 100, 100, &paths)?;
            for bad in [dir.join("no/such/place.svg"), dir.clone()] {
                ensure!(lib("save_file", || svg.save_file(&bad).is_err())?, "saving to {bad:?} succeeds");
            }
        }
        cov.count("files saved", 4);
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    for _ in 0..8 {
        drawing(rng, cov)?;
    }
    turtle(rng, cov)?;
    if i % 25 == 0 {
        save(rng, i, cov)?;
    }
    Ok(())
}
