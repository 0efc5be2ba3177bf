//! Single SVG elements render what they hold.
use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::interpretation::svg::{Svg, SvgCircle, SvgDecorations, SvgElement, SvgGroup, SvgPath, SvgScale, SvgTransformEl, SvgTranslate};

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::rng::Rng;
use crate::svgx::{xml, Element};

/// A finite number of any magnitude.
fn number(rng: &mut Rng) -> f64 {
    match rng.below(10) {
        0 => 0.0,
        1 => -0.0,
        2 => rng.range(0, 1000) as f64,
        3 => loop {
            let f = f64::from_bits(rng.next());
            if f.is_finite() {
                break f;
            }
        },
        4 => *rng.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 1e16, 0.1, 1.0 / 3.0, f64::EPSILON]),
        _ => (rng.unit() - 0.5) * 10f64.powi(rng.range(0, 8) as i32),
    }
}

/// Text that an attribute can hold: colours, and whatever has a meaning in XML.
fn value(rng: &mut Rng) -> String {
    const PARTS: &[&str] = &[
        "black", "none", "#12ab", "url(#a)", "rgb(1, 2, 3)", " ", "\"", "'", "<", ">", "&", "&amp;", "&lt;", "&#34;", "]]>", "<!--", "-->", "=", "/>",
        "é", "日本", "\u{1F600}", "\u{a0}", "%", "{}", "\\", "",
    ];
    if rng.chance(1, 2) {
        return rng.pick(&["black", "none", "red", "#ff0000", "currentColor"]).to_string();
    }
    (0..rng.range(0, 5)).map(|_| *rng.pick(PARTS)).collect()
}

fn decorations(rng: &mut Rng) -> SvgDecorations {
    SvgDecorations {
        fill: rng.chance(1, 2).then(|| value(rng)),
        stroke: rng.chance(1, 2).then(|| value(rng)),
        stroke_width: rng.chance(1, 2).then(|| match rng.below(4) {
            0 => 0.0,
            1 => 0.2,
            2 => f32::MIN_POSITIVE,
            _ => rng.unit() as f32 * 100.0,
        }),
    }
}

fn plain(s: &str) -> String {
    s.chars().take(400).collect()
}

/// The one number of an attribute.
fn num(e: &Element, name: &str) -> Result<f64, String> {
    let t = e.attr(name).ok_or_else(|| format!("no {name}"))?;
    one(t)
}

fn one(t: &str) -> Result<f64, String> {
    let t = t.trim();
    let ok = t.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) && t.chars().any(|c| c.is_ascii_digit());
    match t.parse::<f64>() {
        Ok(f) if ok && f.is_finite() => Ok(f),
        _ => Err(format!("{t:?} is no number")),
    }
}

fn same(a: f64, b: f64) -> bool {
    a == b
}

fn decorated(e: &Element, d: &SvgDecorations) -> Case {
    for (name, want) in [("fill", &d.fill), ("stroke", &d.stroke)] {
        let got = e.attr(name).map(|s| s.to_string());
        ensure!(got == *want, "{name} is {got:?} instead of {want:?}");
    }
    match d.stroke_width {
        None => ensure!(e.attr("stroke-width").is_none(), "a stroke width nobody asked for"),
        Some(w) => {
            let t = e.attr("stroke-width").ok_or("no stroke width")?.to_string();
            one(&t)?;
            ensure!(t.trim().parse::<f32>() == Ok(w), "the stroke width is {t} instead of {w}");
        }
    }
    Ok(())
}

/// No attribute beyond those that mean something here, and none twice (which the reader refuses).
fn only(e: &Element, names: &[&str]) -> Case {
    for (k, v) in &e.attrs {
        ensure!(names.contains(&k.as_str()), "an attribute {k}={v:?} nobody asked for");
    }
    Ok(())
}

fn circle(rng: &mut Rng, cov: &mut Cov) -> Case {
    let (x, y) = (number(rng), number(rng));
    let r = match rng.below(12) {
        0 => f64::NAN,
        1 => f64::NEG_INFINITY,
        2 => -f64::MIN_POSITIVE,
        3 => -0.0,
        4 => -number(rng).abs(),
        _ => number(rng).abs(),
    };
    let made = lib("SvgCircle::build", || {
        if rng.chance(1, 2) { SvgCircle::build(Point::new(x, y), r) } else { SvgCircle::build(Vector::new(x, y), r) }.map_err(|e| e.to_string())
    })?;
    ensure!(made.is_ok() == (r >= 0.0), "a circle of radius {r:?} is {made:?}");
    let Ok(mut c) = made else {
        cov.count("circles refused", 1);
        return Ok(());
    };
    ensure!(same(c.centre.x(), x) && same(c.centre.y(), y) && same(c.radius, r), "a circle of radius {r:?} at ({x:?}, {y:?}) is {c:?}");
    for again in 0..2 {
        let t = lib("to_svg", || c.to_svg())?;
        let judged = (|| -> Case {
            let e = xml(&t)?;
            ensure!(e.name == "circle" && e.children.is_empty(), "it is a <{}> with {} children", e.name, e.children.len());
            let (cx, cy, cr) = (num(&e, "cx")?, num(&e, "cy")?, num(&e, "r")?);
            ensure!(same(cx, c.centre.x()) && same(cy, c.centre.y()) && same(cr, c.radius), "it is at ({cx:?}, {cy:?}) with radius {cr:?}");
            decorated(&e, &c.decorations)?;
            only(&e, &["cx", "cy", "r", "fill", "stroke", "stroke-width"])
        })();
        judged.map_err(|e| format!("{c:?}: {e}; it reads {}", plain(&t)))?;
        ensure!(t == c.to_svg() && t == c.clone().to_svg(), "{c:?} is not the same each time");
        cov.distinct(&t);
        if again == 0 {
            c.decorations = decorations(rng);
            if rng.chance(1, 2) {
                c.centre = Point::new(number(rng), number(rng));
                c.radius = number(rng).abs();
            }
        }
    }
    cov.count("circles", 1);
    Ok(())
}

fn path(rng: &mut Rng, cov: &mut Cov) -> Case {
    let n = match rng.below(12) {
        0 => 0,
        1 => 1,
        2 if rng.chance(1, 1_500) && !cfg!(miri) && std::env::var_os("MON_SANITIZED").is_none() => *rng.pick(&[66_000, 140_000, 450_000, 800_000]),
        2 => rng.range(100, 3000),
        _ => rng.range(2, 12),
    };
    let pts: Vec<(f64, f64)> = (0..n).map(|_| (number(rng), number(rng))).collect();
    let p: Path = pts.iter().map(|(x, y)| Point::new(*x, *y)).collect();
    let e = SvgPath::from(p);
    ensure!(e.fill().is_none() && e.stroke().is_none() && e.len() == n, "a path element of {n} points has {}, fill {:?}, stroke {:?}", e.len(), e.fill(), e.stroke());
    let t = lib("to_svg", || e.to_svg())?;
    let judged = (|| -> Case {
        let x = xml(&t)?;
        ensure!(x.name == "path" && x.children.is_empty(), "it is a <{}> with {} children", x.name, x.children.len());
        only(&x, &["d"])?;
        let d = x.attr("d").unwrap_or("");
        let mut words = d.split([' ', ',']).filter(|w| !w.is_empty());
        for (i, (px, py)) in pts.iter().enumerate() {
            let c = words.next().ok_or_else(|| format!("it ends before point {i}"))?;
            ensure!(c == if i == 0 { "M" } else { "L" }, "{c:?} before point {i}");
            let (gx, gy) = (one(words.next().unwrap_or(""))?, one(words.next().unwrap_or(""))?);
            ensure!(same(gx, *px) && same(gy, *py), "point {i} is ({gx:?}, {gy:?}) instead of ({px:?}, {py:?})");
        }
        ensure!(words.next().is_none(), "it goes on after the last of {n} points");
        Ok(())
    })();
    judged.map_err(|e| format!("a path element of {n} points, {:?}...: {e}; it reads {}", &pts[..n.min(6)], plain(&t)))?;
    ensure!(t == e.to_svg() && t == e.clone().to_svg(), "a path element is not the same each time");
    cov.count("paths", 1);
    cov.count("points", n as u64);
    cov.distinct(&t);
    Ok(())
}

fn attributes(rng: &mut Rng, cov: &mut Cov) -> Case {
    let d = decorations(rng);
    let t = lib("to_attr_string", || d.to_attr_string())?;
    let judged = (|| -> Case {
        let e = xml(&format!("<a {t}/>"))?;
        decorated(&e, &d)?;
        only(&e, &["fill", "stroke", "stroke-width"])
    })();
    judged.map_err(|e| format!("{d:?}: {e}; they read {}", plain(&t)))?;
    cov.count("decorations", 1);
    cov.distinct(&t);
    cov.sample(|| t.clone());
    // What is empty is empty, and well formed.
    let (svg, g) = (lib("to_svg", || Svg::default().to_svg())?, lib("to_svg", || SvgGroup::default().to_svg())?);
    for (name, t) in [("svg", &svg), ("g", &g)] {
        let e = xml(t).map_err(|e| format!("an empty <{name}>: {e}; it reads {t}"))?;
        ensure!(e.name == name && e.children.is_empty(), "an empty <{name}> reads {t}");
        ensure!(e.attr("fill").is_none() && e.attr("stroke").is_none() && e.attr("transform").is_none_or(|t| t.trim().is_empty()), "an empty <{name}> reads {t}");
    }
    for (t, name) in [(lib("to_transform", || SvgScale::default().to_transform())?, "scale"), (lib("to_transform", || SvgTranslate::default().to_transform())?, "translate")] {
        let inner = t.trim().strip_prefix(name).and_then(|t| t.trim().strip_prefix('(')).and_then(|t| t.strip_suffix(')'));
        let Some(inner) = inner else { return Err(format!("a {name} reads {t:?}")) };
        for w in inner.split([' ', ',']).filter(|w| !w.is_empty()) {
            one(w).map_err(|e| format!("a {name} reads {t:?}: {e}"))?;
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    match i % 3 {
        0 => circle(rng, cov),
        1 => path(rng, cov),
        _ => attributes(rng, cov),
    }
}
