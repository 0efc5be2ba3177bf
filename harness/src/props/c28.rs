//! What is displayed arrives whole, or the writer's failure is reported.
use std::fmt::{self, Display, Write};

use rusty_systems::error::Error;
use rusty_systems::geometry::{Point, Vector};
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_prod_string, parse_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::ProductionStore;
use rusty_systems::symbols::get_code;
use rusty_systems::system::family::{get_or_init_family, register};

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::props::c11::short;
use crate::rng::Rng;

/// A writer that takes so many bytes and then fails, for good or for once.
struct Limited {
    got: String,
    left: usize,
    failed: u32,
    recovers: bool,
    writes: u64,
}

impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if s.len() > self.left || (self.failed > 0 && !self.recovers) {
            self.failed += 1;
            if self.recovers {
                self.left = usize::MAX;
            }
            return Err(fmt::Error);
        }
        if self.left != usize::MAX {
            self.left -= s.len();
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// A writer that uses the library while it is written to.
struct Busy<'a> {
    got: String,
    salt: &'a str,
    writes: usize,
    strange: Option<String>,
}

impl Write for Busy<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.got.push_str(s);
        self.writes += 1;
        let name = format!("{}w{}", self.salt, self.writes % 7);
        let (a, b) = match self.writes % 6 {
            0 => (get_code(&name).ok(), Symbol::build(&name).ok().map(|s| s.code())),
            1 => {
                let t = Symbol::build(&name).ok();
                (t.map(|t| t.code()), t.and_then(|t| t.to_string().parse::<Symbol>().ok()).map(|s| s.code()))
            }
            2 => {
                let sys = System::new();
                let p = sys.add_production(format!("{name} -> {name} {name}")).ok();
                let d = sys.derive_once(parse_prod_string(&name).unwrap_or_default()).ok();
                (p.map(|_| 2), d.map(|d| d.len() as u32))
            }
            3 => {
                let f = get_or_init_family(&name, || SystemFamily::define().build(&name).expect("harness: a family with a name"));
                (Some(1), Some(register((*f).clone()).is_err() as u32))
            }
            4 => (Some(1), Some(parse_production("a b -> c").is_err() as u32)),
            _ => (None, get_code(" ").ok()),
        };
        if a != b {
            self.strange = Some(format!("within a writer, {a:?} and {b:?} (write {})", self.writes));
        }
        Ok(())
    }
}

/// An io::Write whose writes fall short, are interrupted, and fail from some byte on.
struct Pipe<'a> {
    got: Vec<u8>,
    left: usize,
    rng: &'a mut Rng,
}

impl std::io::Write for Pipe<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 8) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.left == 0 {
            return Err(std::io::Error::other("the pipe is full"));
        }
        let n = self.rng.range(1, b.len()).min(self.left);
        self.got.extend_from_slice(&b[..n]);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn shown(rng: &mut Rng, what: &str, x: &impl Display, want: Option<&str>, salt: &str, cov: &mut Cov) -> Case {
    let text = lib("to_string", || x.to_string())?;
    if let Some(want) = want {
        ensure!(text == want, "{what} is displayed as {} instead of {}", short(&text), short(want));
    }
    ensure!(lib("format", || format!("{x}"))? == text, "{what} is displayed in two ways");
    let mut limits = vec![0, text.len(), text.len() + 1, text.len().saturating_sub(1), usize::MAX];
    for _ in 0..3 {
        limits.push(rng.below(text.len() + 1));
    }
    for left in limits {
        let recovers = rng.chance(1, 3);
        let mut w = Limited { got: String::new(), left, failed: 0, recovers, writes: 0 };
        let r = lib("display", || write!(w, "{x}"))?;
        ensure!(
            r.is_ok() == (w.failed == 0),
            "{what}, {} bytes: a writer that takes {left} has failed {} times, and displaying says {r:?}",
            text.len(),
            w.failed
        );
        if r.is_ok() {
            ensure!(w.got == text, "{what}: a writer that takes {left} bytes was given {} instead of {}", short(&w.got), short(&text));
        } else {
            ensure!(text.starts_with(&w.got), "{what}: before it failed, a writer was given {}, which does not begin {}", short(&w.got), short(&text));
            cov.count("writers that failed", 1);
        }
        cov.count("writes observed", w.writes);
    }
    let mut w = Busy { got: String::new(), salt, writes: 0, strange: None };
    let r = lib("display", || write!(w, "{x}"))?;
    ensure!(r.is_ok() && w.got == text, "{what}: a writer that uses the library was given {} instead of {} ({r:?})", short(&w.got), short(&text));
    if let Some(s) = w.strange {
        return Err(format!("{what}: {s}"));
    }
    // To the world outside.
    let left = if rng.chance(1, 2) { usize::MAX } else { rng.below(text.len() + 1) };
    let mut p = Pipe { got: vec![], left, rng };
    let r = lib("display", || std::io::Write::write_fmt(&mut p, format_args!("{x}")))?;
    ensure!(r.is_ok() == (left >= text.len()), "{what}, {} bytes: a pipe takes {left}, and displaying says {r:?}", text.len());
    let n = left.min(text.len());
    ensure!(p.got == text.as_bytes()[..n], "{what}: a pipe that takes {left} bytes was given others");
    ensure!(lib("to_string", || x.to_string())? == text, "{what} is displayed in another way afterwards");
    cov.count("values displayed", 1);
    Ok(())
}

/// Values that a user would show. `(1.5,-2)`
fn vector(rng: &mut Rng, salt: &str, cov: &mut Cov) -> Case {
    let mut number = || match rng.below(10) {
        0 => 0.0,
        1 => -1.0,
        2 => f64::from_bits(rng.next()),
        3 => f64::MAX,
        4 => 5e-324,
        5 => 1.0 / 3.0,
        6 => f64::INFINITY,
        _ => (rng.unit() - 0.5) * 10f64.powi(rng.below(40) as i32 - 20),
    };
    let (x, y) = (number(), number());
    let (p, v) = (Point::new(x, y), Vector::new(x, y));
    for (what, t) in [("a point", lib("to_string", || p.to_string())?), ("a vector", lib("to_string", || v.to_string())?)] {
        let inner = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).ok_or_else(|| format!("{what} ({x:e}, {y:e}) is displayed as {t}"))?;
        let back: Vec<Option<f64>> = inner.split(',').map(|n| n.trim().parse().ok()).collect();
        let like = |a: Option<f64>, b: f64| a.is_some_and(|a| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan());
        ensure!(back.len() == 2 && like(back[0], x) && like(back[1], y), "{what} ({x:e}, {y:e}) is displayed as {t}");
    }
    shown(rng, "a point", &p, None, salt, cov)?;
    shown(rng, "a vector", &v, None, salt, cov)?;
    cov.distinct(&format!("{x:e} {y:e}"));
    Ok(())
}

fn strings(rng: &mut Rng, salt: &str, cov: &mut Cov) -> Case {
    let n = rng.range(1, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let len = gen::length(rng, 6, 120);
    let s = gen::syms(rng, n, len);
    let p = v.string(&s);
    shown(rng, &format!("the string {}", short(&v.text(&s))), &p, Some(&v.text(&s)), salt, cov)?;
    let i = rng.below(n);
    shown(rng, &format!("the symbol {:?}", v.names[i]), &v.syms[i], Some(&v.names[i]), salt, cov)?;
    // A symbol without a name, by itself and among others.
    let code = u32::MAX - rng.below(1000) as u32;
    let t = format!("code:{code}");
    let nameless = lib("from_code", || Symbol::from_code(code))?;
    shown(rng, "a symbol without a name", &nameless, Some(&t), salt, cov)?;
    let mut q = v.string(&s);
    q.push_symbol(nameless);
    q.push_symbol(v.syms[i]);
    let t = format!("{}{}{t} {}", v.text(&s), if s.is_empty() { "" } else { " " }, v.names[i]);
    shown(rng, &format!("the string {}", short(&t)), &q, Some(&t), salt, cov)?;
    for token in lib("TokenIterator", || TokenIterator::new(&t).take(20).collect::<Vec<_>>())? {
        let want = if token.text.is_empty() { None } else { Some(token.text) };
        shown(rng, &format!("the token {:?}", token.text), &token, want, salt, cov)?;
    }
    cov.distinct(&t);
    cov.sample(|| format!("{t:?} to writers that fail, fall short, or use the library"));
    Ok(())
}

/// Errors, with and without a cause, of every way to come by them.
fn errors(rng: &mut Rng, salt: &str, cov: &mut Cov) -> Case {
    let message = match rng.below(3) {
        0 => String::new(),
        1 => "a".repeat(rng.range(1, 300)),
        _ => (0..rng.range(1, 40)).map(|_| *rng.pick(&['ä', 'x', ' ', '\n', '\u{10ffff}', '{', '}', '%'])).collect(),
    };
    let io = || std::io::Error::other(message.clone());
    let e: Error = match rng.below(8) {
        0 => lib("Error::general", || Error::general(&message))?,
        1 => lib("Error::definition", || Error::definition(message.clone()))?,
        2 => lib("Error::execution", || Error::execution(&message))?,
        3 => lib("Error::parse_error", || Error::parse_error(&message))?,
        4 => lib("Error::from", || Error::from(io()))?,
        5 => "x".parse::<f32>().map_err(Error::from).expect_err("harness: no number"),
        6 => match lib("parse_production", || parse_production(&format!("{} b -> {message}", message.replace('>', "")))) {
            Ok(Err(e)) => e,
            Ok(Ok(_)) => Error::default(),
            Err(e) => return Err(e),
        },
        _ => Error::default(),
    };
    let text = lib("to_string", || e.to_string())?;
    shown(rng, &format!("the error {}", short(&text)), &e, None, salt, cov)?;
    shown(rng, "a copy of an error", &e.clone(), Some(&text), salt, cov)?;
    cov.distinct(&text);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    let salt = format!("c28q{}", i % 512);
    match i % 4 {
        0 => vector(rng, &salt, cov),
        1 => errors(rng, &salt, cov),
        _ => strings(rng, &salt, cov),
    }
}
