//! The laws of the plane.
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::rng::Rng;

fn coord(rng: &mut Rng) -> f64 {
    match rng.below(10) {
        0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 5e-324, 1e300, -1e300, 1e15, 1e-9]),
        1 => rng.range(0, 20) as f64 - 10.0,
        2 => 10f64.powi(rng.range(0, 40) as i32 - 20) * (rng.unit() - 0.5),
        _ => 200.0 * (rng.unit() - 0.5),
    }
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn arithmetic(rng: &mut Rng) -> Case {
    let (a, b, c, d) = (coord(rng), coord(rng), coord(rng), coord(rng));
    let (p, q, v, w) = (Point::new(a, b), Point::new(c, d), Vector::new(a, b), Vector::new(c, d));
    ensure!(p.x() == a && p.y() == b && v.x() == a && v.y() == b, "({a}, {b}) has the coordinates {p} {v}");
    let k = coord(rng);
    for (what, got, want) in [
        ("point + vector", { let r = p + w; (r.x(), r.y()) }, (a + c, b + d)),
        ("point + point", { let r = p + q; (r.x(), r.y()) }, (a + c, b + d)),
        ("point - vector", { let r = p - w; (r.x(), r.y()) }, (a - c, b - d)),
        ("point - point", { let r = p - q; (r.x(), r.y()) }, (a - c, b - d)),
        ("vector + vector", { let r = v + w; (r.x(), r.y()) }, (a + c, b + d)),
        ("vector - vector", { let r = v - w; (r.x(), r.y()) }, (a - c, b - d)),
        ("-point", { let r = -p; (r.x(), r.y()) }, (-a, -b)),
        ("-vector", { let r = -v; (r.x(), r.y()) }, (-a, -b)),
        ("vector of point", { let r = Vector::from(p); (r.x(), r.y()) }, (a, b)),
        ("point of vector", { let r = Point::from(v); (r.x(), r.y()) }, (a, b)),
    ] {
        ensure!(same(got.0, want.0) && same(got.1, want.1), "{what}: ({a}, {b}) and ({c}, {d}) give {got:?} instead of {want:?}");
    }
    // Division may be done by way of the reciprocal: allow for its rounding.
    let r = p / k;
    for (g, x) in [(r.x(), a), (r.y(), b)] {
        let want = x / k;
        let ok = same(g, want) || (g - want).abs() <= 4e-16 * want.abs() + 1e-300 || !want.is_finite() || k.abs() < 1e-290;
        ensure!(ok, "({a}, {b}) / {k} gives {r}");
    }
    let n = v.norm();
    let want = a.hypot(b);
    if a.abs().max(b.abs()) < 1e150 && a.abs().max(b.abs()) > 1e-150 {
        ensure!((n - want).abs() <= 1e-14 * want, "the length of ({a}, {b}) is {n} instead of {want}");
    }
    for (v, x, y) in [(Vector::up(), 0.0, 1.0), (Vector::down(), 0.0, -1.0), (Vector::zero(), 0.0, 0.0), (Vector::default(), 0.0, 0.0)] {
        ensure!(v.x() == x && v.y() == y, "({x}, {y}) is {v}");
    }
    ensure!(Point::zero().x() == 0.0 && Point::zero().y() == 0.0 && Point::default().x() == 0.0 && Point::default().y() == 0.0, "the origin is {}", Point::zero());
    Ok(())
}

fn rotation(rng: &mut Rng) -> Case {
    let angle = |rng: &mut Rng| match rng.below(8) {
        0 => *rng.pick(&[0.0, 90.0, -90.0, 180.0, 270.0, 360.0, 45.0, 30.0, 60.0, 22.5, -360.0, 720.0, 1e-9, 89.999999, 3600.0]),
        1 => rng.range(0, 3600) as f64 - 1800.0,
        2 => 1e6 * (rng.unit() - 0.5),
        3 => {
            let most = rng.pick(&[4e6, 1e7, 1e8, 5e9, 1e11]);
            most * (rng.unit() - 0.5)
        }
        4 => {
            let most = *rng.pick(&[1 << 24, 1 << 31, 1usize << 33, 1 << 40]);
            let whole = rng.below(most) as f64;
            if rng.chance(1, 2) { whole } else { -whole }
        }
        _ => 720.0 * (rng.unit() - 0.5),
    };
    let (x, y) = loop {
        let (x, y) = (coord(rng), coord(rng));
        let m = x.abs().max(y.abs());
        if m == 0.0 || (m > 1e-140 && m < 1e140) {
            break (x, y);
        }
    };
    let v = Vector::new(x, y);
    let len = x.hypot(y);
    let (a, b) = (angle(rng), angle(rng));
    let tol = len * (1e-13 + 1e-15 * (a.abs() + b.abs()));
    let ra = v.rotate(a);
    ensure!((ra.x().hypot(ra.y()) - len).abs() <= tol, "({x}, {y}) rotated by {a} has length {} instead of {len}", ra.x().hypot(ra.y()));
    // Exact reduction, then the definition.
    let (s, c) = a.rem_euclid(360.0).to_radians().sin_cos();
    let want = (c * x - s * y, s * x + c * y);
    ensure!((ra.x() - want.0).abs() <= tol && (ra.y() - want.1).abs() <= tol, "({x}, {y}) rotated by {a} is {ra} instead of {want:?}");
    let rab = ra.rotate(b);
    let once = v.rotate(a + b);
    ensure!((rab.x() - once.x()).abs() <= 4.0 * tol && (rab.y() - once.y()).abs() <= 4.0 * tol, "({x}, {y}) rotated by {a}, then {b} is {rab}; by the sum {once}");
    let k = rng.range(0, 20) as f64 - 10.0;
    let turned = v.rotate(a + 360.0 * k);
    let t2 = tol + len * 1e-15 * 360.0 * k.abs() * 4.0;
    ensure!((turned.x() - ra.x()).abs() <= t2 && (turned.y() - ra.y()).abs() <= t2, "({x}, {y}) rotated by {a} is {ra}, and after {k} more turns {turned}");
    let back = ra.rotate(-a);
    ensure!((back.x() - x).abs() <= 4.0 * tol && (back.y() - y).abs() <= 4.0 * tol, "({x}, {y}) rotated by {a} and back is {back}");
    // Counter-clockwise: up turns to the left.
    let left = Vector::up().rotate(90.0);
    ensure!((left.x() + 1.0).abs() < 1e-12 && left.y().abs() < 1e-12, "up rotated by 90 degrees is {left}");
    Ok(())
}

/// Exact to within rounding, computed with care for cancellation.
fn mean(xs: &[f64]) -> f64 {
    // Kahan-Neumaier.
    let (mut sum, mut c) = (0.0f64, 0.0f64);
    for x in xs {
        let t = sum + x;
        c += if sum.abs() >= x.abs() { (sum - t) + x } else { (x - t) + sum };
        sum = t;
    }
    (sum + c) / xs.len() as f64
}

fn check_box(b: Option<BoundingBox>, pts: &[(f64, f64)], what: &str) -> Case {
    let few = || format!("{:?}{}", &pts[..pts.len().min(8)], if pts.len() > 8 { "..." } else { "" });
    if pts.is_empty() {
        ensure!(b.is_none(), "{what} without points has the bounds {b:?}");
        return Ok(());
    }
    let Some(b) = b else { return Err(format!("{what} of {} points has no bounds: {}", pts.len(), few())) };
    let xs: Vec<f64> = pts.iter().map(|p| p.0).collect();
    let ys: Vec<f64> = pts.iter().map(|p| p.1).collect();
    let lo = |v: &[f64]| v.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = |v: &[f64]| v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let want = (lo(&xs), hi(&xs), lo(&ys), hi(&ys));
    ensure!(
        (b.min_x, b.max_x, b.min_y, b.max_y) == want,
        "{what} {} has the bounds x {}..{}, y {}..{} instead of x {}..{}, y {}..{}",
        few(),
        b.min_x,
        b.max_x,
        b.min_y,
        b.max_y,
        want.0,
        want.1,
        want.2,
        want.3
    );
    let m = (mean(&xs), mean(&ys));
    let big = |v: &[f64]| v.iter().map(|x| x.abs()).sum::<f64>() / v.len() as f64;
    let tol = |v: &[f64]| big(v) * (v.len() as f64) * 4e-16 + 1e-300;
    ensure!(
        (b.com.x() - m.0).abs() <= tol(&xs) && (b.com.y() - m.1).abs() <= tol(&ys),
        "{what} {} has its centre of mass at {} instead of {m:?}",
        few(),
        b.com
    );
    let (w, h) = (want.1 - want.0, want.3 - want.2);
    ensure!(b.width() == w && b.height() == h, "{what} {} is {} wide and {} high instead of {w} and {h}", few(), b.width(), b.height());
    let c = b.center();
    let mid = (want.0 + w / 2.0, want.2 + h / 2.0);
    let t = |a: f64, b: f64| 1e-15 * (a.abs() + b.abs()) * 4.0 + 1e-300;
    ensure!(
        (c.x() - mid.0).abs() <= t(want.0, want.1) && (c.y() - mid.1).abs() <= t(want.2, want.3),
        "{what} {} has its centre at {c} instead of {mid:?}",
        few()
    );
    Ok(())
}

fn boxes(rng: &mut Rng, cov: &mut Cov) -> Case {
    let ordinary = rng.chance(1, 2);
    let pt = |rng: &mut Rng| {
        if ordinary {
            (100.0 * (rng.unit() - rng.unit()), 100.0 * (rng.unit() - rng.unit()))
        } else {
            loop {
                let (x, y) = (coord(rng), coord(rng));
                if x.abs() < 1e290 && y.abs() < 1e290 {
                    break (x, y);
                }
            }
        }
    };
    let k = match rng.below(6) {
        0 => 0,
        1 => 1,
        _ => rng.range(2, 8),
    };
    let (ox, oy) = match rng.below(4) {
        0 => (1000.0, 1000.0),
        1 => (-1000.0, -1000.0),
        2 => (1000.0, -1000.0),
        _ => (0.0, 0.0),
    };
    let plain = rng.chance(1, 4);
    let mut paths: Vec<Path> = vec![];
    let mut all: Vec<(f64, f64)> = vec![];
    for _ in 0..k {
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => gen::length(rng, 10, 3000),
            _ => rng.range(2, 10),
        };
        let mut pts: Vec<(f64, f64)> = (0..n).map(|_| { let p = pt(rng); (p.0 + ox, p.1 + oy) }).collect();
        // On a line through the origin, around the origin, all in one place.
        match if plain { rng.below(5) } else { 9 } {
            0 => pts.iter_mut().for_each(|p| p.0 = 0.0),
            1 => pts.iter_mut().for_each(|p| p.1 = 0.0),
            2 => pts.iter_mut().for_each(|p| *p = (0.0, 0.0)),
            3 => pts.iter_mut().for_each(|p| *p = (ox, oy)),
            _ => {}
        }
        if plain && rng.chance(1, 2) {
            let other: Vec<(f64, f64)> = pts.iter().rev().map(|p| (-p.0, -p.1)).collect();
            pts.extend(other);
        }
        let n = pts.len();
        let mut path = Path::new();
        ensure!(path.is_empty() && path.len() == 0 && path.get_start().is_none() && path.get(0).is_none(), "a new path is not empty");
        if rng.chance(1, 2) {
            for (x, y) in &pts {
                if rng.chance(1, 2) {
                    path.push(Point::new(*x, *y));
                } else {
                    path.push(Vector::new(*x, *y));
                }
            }
        } else {
            path = pts.iter().map(|(x, y)| Point::new(*x, *y)).collect();
        }
        ensure!(path.len() == n && path.is_empty() == (n == 0), "a path of {n} points has {} points", path.len());
        for (i, (x, y)) in pts.iter().enumerate() {
            let g = path.get(i).ok_or(format!("point {i} of {n} is missing"))?;
            ensure!(g.x() == *x && g.y() == *y && path[i].x() == *x && path[i].y() == *y, "point {i} of a path is {g} instead of ({x}, {y})");
        }
        ensure!(path.get(n).is_none(), "a path of {n} points has a point more");
        let it: Vec<(f64, f64)> = path.iter().map(|p| (p.x(), p.y())).collect();
        ensure!(it == pts, "iterating over a path gives other points");
        let it: Vec<(f64, f64)> = path.clone().into_iter().map(|p| (p.x(), p.y())).collect();
        ensure!(it == pts, "iterating over a path gives other points");
        ensure!(path.get_start().map(|p| (p.x(), p.y())) == pts.first().copied(), "a path starts at {:?}", path.get_start());
        check_box(lib("bounds", || path.bounds())?, &pts, "a path")?;
        let d = (coord(rng), coord(rng));
        if d.0.abs() < 1e290 && d.1.abs() < 1e290 {
            let moved = path.clone() + Vector::new(d.0, d.1);
            let want: Vec<(f64, f64)> = pts.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect();
            let got: Vec<(f64, f64)> = moved.iter().map(|p| (p.x(), p.y())).collect();
            ensure!(got == want, "a path moved by {d:?} has other points");
            check_box(lib("bounds", || moved.bounds())?, &want, "a moved path")?;
        }
        cov.count("paths", 1);
        all.extend(pts);
        paths.push(path);
    }
    check_box(lib("bounds", || paths.bounds())?, &all, "a list of paths")?;
    let z = BoundingBox::zero();
    ensure!((z.min_x, z.max_x, z.min_y, z.max_y, z.width(), z.height()) == (0.0, 0.0, 0.0, 0.0, 0.0, 0.0), "the zero box is {z:?}");
    cov.count("lists of paths", 1);
    cov.max("points in a list", all.len() as u64);
    cov.distinct(&format!("{:?}{}", all.iter().take(20).collect::<Vec<_>>(), all.len()));
    cov.sample(|| format!("{} paths with {} points: {:?}", paths.len(), all.len(), all.iter().take(5).collect::<Vec<_>>()));
    Ok(())
}

/// Points at infinity are points.
fn far(rng: &mut Rng, cov: &mut Cov) -> Case {
    let one = rng.chance(1, 2);
    let odd = [f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN];
    let k = rng.range(1, 4);
    let mut all: Vec<(f64, f64)> = vec![];
    let mut paths: Vec<Path> = vec![];
    let pt = |rng: &mut Rng| match rng.below(4) {
        0 => (*rng.pick(&odd), *rng.pick(&odd)),
        1 => (coord(rng), *rng.pick(&odd)),
        2 if !one => (coord(rng), coord(rng)),
        _ => (*rng.pick(&odd), coord(rng)),
    };
    for _ in 0..k {
        let pts: Vec<(f64, f64)> = (0..rng.below(4)).map(|_| pt(rng)).collect();
        let path: Path = pts.iter().map(|(x, y)| Point::new(*x, *y)).collect();
        corners(lib("bounds", || path.bounds())?, &pts, "a path")?;
        all.extend(pts);
        paths.push(path);
    }
    corners(lib("bounds", || paths.bounds())?, &all, "a list of paths")?;
    // And so are points nowhere.
    let nowhere: Path = std::iter::once(Point::new(f64::NAN, coord(rng))).collect();
    ensure!(lib("bounds", || nowhere.bounds())?.is_some(), "a path of {:?} has no bounds", nowhere[0]);
    paths = vec![Path::new(), nowhere];
    ensure!(lib("bounds", || paths.bounds())?.is_some(), "a list of paths with one point, {:?}, has no bounds", paths[1][0]);
    cov.count("lists of paths with points at infinity", 1);
    Ok(())
}

fn corners(b: Option<BoundingBox>, pts: &[(f64, f64)], what: &str) -> Case {
    let Some(b) = b else {
        ensure!(pts.is_empty(), "{what} {pts:?} has no bounds");
        return Ok(());
    };
    ensure!(!pts.is_empty(), "{what} without points has the bounds {b:?}");
    let lo = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::INFINITY, f64::min);
    let hi = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::NEG_INFINITY, f64::max);
    let want = (lo(|p| p.0), hi(|p| p.0), lo(|p| p.1), hi(|p| p.1));
    let got = (b.min_x, b.max_x, b.min_y, b.max_y);
    ensure!(got == want, "{what} {pts:?} has the bounds {got:?} instead of {want:?}");
    Ok(())
}

/// Very many points, of which any few decide.
fn very_long(rng: &mut Rng, cov: &mut Cov) -> Case {
    let n = match rng.below(4) {
        0 => *rng.pick(&[255, 256, 257, 1024, 4096, 65_535, 65_536, 65_537]),
        1 => rng.range(65_000, 300_000),
        _ => rng.range(1_000, 65_000),
    };
    let mut pts: Vec<(f64, f64)> = (0..n).map(|_| (rng.unit(), rng.unit())).collect();
    for _ in 0..rng.range(1, 5) {
        let at = match rng.below(4) {
            0 => n - 1,
            1 => 0,
            _ => rng.below(n),
        };
        let far = 200.0 * (rng.unit() - 0.5);
        let x = *rng.pick(&[-7.0, 8.0, far, 0.5]);
        if rng.chance(1, 2) {
            pts[at].0 = x;
        } else {
            pts[at].1 = x;
        }
    }
    let path: Path = pts.iter().map(|(x, y)| Point::new(*x, *y)).collect();
    check_box(lib("bounds", || path.bounds())?, &pts, "a long path")?;
    // The same points in paths of any length, thousands of them or two.
    let most = *rng.pick(&[1, 2, 3, 50, n]);
    let mut paths: Vec<Path> = vec![];
    let mut left = &pts[..];
    while !left.is_empty() {
        let k = rng.range(1, most.min(left.len()));
        paths.push(left[..k].iter().map(|(x, y)| Point::new(*x, *y)).collect());
        if rng.chance(1, 9) {
            paths.push(Path::new());
        }
        left = &left[k..];
    }
    check_box(lib("bounds", || paths.bounds())?, &pts, "a long list of paths")?;
    cov.max("points in a path", n as u64);
    cov.max("paths in a list", paths.len() as u64);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    for _ in 0..20 {
        arithmetic(rng)?;
        rotation(rng)?;
    }
    cov.count("operations", 20 * 20);
    for _ in 0..5 {
        boxes(rng, cov)?;
    }
    far(rng, cov)?;
    if i % 1000 == 17 {
        very_long(rng, cov)?;
    }
    Ok(())
}
