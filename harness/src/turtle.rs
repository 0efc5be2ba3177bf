//! The turtle, independently: it counts its turns, and computes each heading afresh.

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Forward,
    Move,
    Plus,
    Minus,
    Push,
    Pop,
    Nothing,
}

pub const NAMES: [(&str, Act); 6] =
    [("Forward", Act::Forward), ("Move", Act::Move), ("+", Act::Plus), ("-", Act::Minus), ("[", Act::Push), ("]", Act::Pop)];

pub fn act(name: &str) -> Act {
    NAMES.iter().find(|(n, _)| *n == name).map_or(Act::Nothing, |(_, a)| *a)
}

#[derive(Default, Debug)]
pub struct Drawing {
    pub segments: Vec<(P, P)>,
    /// Where the turtle ended: part of the drawing's extent, even if nothing is drawn there.
    pub end: Option<P>,
    pub turns: u64,
    pub deepest: usize,
}

/// None: a branch is finished that was never started.
pub fn draw(acts: impl Iterator<Item = Act>, delta: f32) -> Option<Drawing> {
    let mut d = Drawing::default();
    let (mut pos, mut k) = (P { x: 0.0, y: 0.0 }, 0i64);
    let mut stack = vec![];
    for a in acts {
        match a {
            Act::Forward | Act::Move => {
                // The product is exact, and so is the remainder.
                let degrees = (k as f64 * delta as f64).rem_euclid(360.0);
                let (sin, cos) = degrees.to_radians().sin_cos();
                let to = P { x: pos.x - 5.0 * sin, y: pos.y + 5.0 * cos };
                if a == Act::Forward {
                    d.segments.push((pos, to));
                }
                pos = to;
            }
            Act::Plus => k += 1,
            Act::Minus => k -= 1,
            Act::Push => {
                stack.push((pos, k));
                d.deepest = d.deepest.max(stack.len());
            }
            Act::Pop => (pos, k) = stack.pop()?,
            Act::Nothing => {}
        }
        d.turns += matches!(a, Act::Plus | Act::Minus) as u64;
    }
    d.end = Some(pos);
    Some(d)
}

/// How far rounding may carry a turtle that rounds at every turn and step.
pub fn tolerance(d: &Drawing, steps: usize, delta: f32) -> f64 {
    let per_turn = 1e-15 + (delta as f64).abs() * 1e-17;
    let (n, t) = (steps as f64, d.turns as f64);
    1e-9 + 20.0 * (n + 1.0) * (t + 1.0) * per_turn + n * n * 1e-14
}

pub fn near(a: P, b: P, tol: f64) -> bool {
    (a.x - b.x).abs() <= tol && (a.y - b.y).abs() <= tol
}
