//! Errors say what went wrong and keep their cause.
use std::cell::RefCell;
use std::error::Error as StdError;
use std::fmt;
use std::io;
use std::num::{IntErrorKind, ParseFloatError, ParseIntError};
use std::path::{Path, PathBuf};
use std::sync::RwLock;

use rusty_systems::error::ErrorKind;
use rusty_systems::interpretation::abop::{parser as plant, AbopTurtleInterpretation};
use rusty_systems::parser::{parse_and_add_production, parse_prod_string, parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::symbols::{get_code, SymbolStore};
use rusty_systems::system::family;

use crate::core::{lib, user_panics, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::props::c11;
use crate::rng::Rng;

/// What holds of every error.
fn sound(what: &str, e: &Error) -> Case {
    let shown = lib("display", || e.to_string())?;
    ensure!(shown.chars().any(|c| c.is_alphanumeric()), "{what}: the error's message is {shown:?}");
    ensure!(lib("display", || format!("{e}"))? == shown && lib("display", || e.to_string())? == shown, "{what}: the error's message changes");
    ensure!(!lib("debug", || format!("{e:?}"))?.is_empty(), "{what}: the error cannot be shown to a developer");
    let c = lib("clone", || e.clone())?;
    ensure!(c.to_string() == shown, "{what}: a clone of the error {shown:?} says {:?}", c.to_string());
    let cause = |e: &Error| e.source().map(|s| s.to_string());
    ensure!(cause(&c) == cause(e), "{what}: a clone of the error {shown:?} has the cause {:?} instead of {:?}", cause(&c), cause(e));
    if let Some(s) = e.source() {
        ensure!(shown.contains(&s.to_string()), "{what}: the error {shown:?} does not show its cause {:?}", s.to_string());
    }
    // The chain of causes ends.
    let mut at: Option<&dyn StdError> = e.source();
    let mut n = 0;
    while let Some(s) = at {
        n += 1;
        ensure!(n < 50, "{what}: the causes of the error {shown:?} do not end");
        at = s.source();
    }
    Ok(())
}

/// The error has this very cause, also when it is cloned and the original is gone.
fn caused<E: StdError + 'static>(what: &str, e: Error, same: &dyn Fn(&E) -> bool, message: &str) -> Case {
    sound(what, &e)?;
    let look = |e: &Error, which: &str| -> Case {
        let shown = e.to_string();
        let Some(s) = e.source() else { return Err(format!("{what}: {which} {shown:?} has no cause")) };
        let Some(c) = s.downcast_ref::<E>() else { return Err(format!("{what}: {which} {shown:?} has a cause of another kind, {s:?}")) };
        ensure!(same(c), "{what}: {which} {shown:?} has another cause, {c:?}");
        ensure!(shown.contains(message), "{what}: {which} says {shown:?}, but not {message:?}");
        Ok(())
    };
    look(&e, "the error")?;
    let c = e.clone();
    let d = c.clone();
    look(&c, "a clone of the error")?;
    drop(e);
    look(&c, "a clone of the error, after the error is gone,")?;
    drop(c);
    look(&d, "a clone of a clone of the error")?;
    // As users pass errors on.
    let boxed: Box<dyn StdError> = Box::new(d);
    ensure!(boxed.source().and_then(|s| s.downcast_ref::<E>()).is_some_and(same), "{what}: the error loses its cause in a box");
    Ok(())
}

#[derive(Debug)]
struct Custom(String, Option<Box<Custom>>);

/// How many causes lie below.
fn depth(e: &dyn StdError) -> usize {
    e.source().map_or(0, |s| 1 + depth(s))
}

fn custom(s: &str) -> Custom {
    Custom(s.into(), None)
}

impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "custom {}", self.0)
    }
}

impl StdError for Custom {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.1.as_ref().map(|c| &**c as _)
    }
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Interrupted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::Other,
];

fn int_error(rng: &mut Rng) -> ParseIntError {
    loop {
        let r: Result<(), ParseIntError> = match rng.below(6) {
            0 => "".parse::<u32>().map(|_| ()),
            1 => "x".parse::<usize>().map(|_| ()),
            2 => "300".parse::<u8>().map(|_| ()),
            3 => "-300".parse::<i8>().map(|_| ()),
            4 => "0".parse::<std::num::NonZeroU32>().map(|_| ()),
            _ => "99999999999999999999999".parse::<u64>().map(|_| ()),
        };
        if let Err(e) = r {
            return e;
        }
    }
}

fn float_error(rng: &mut Rng) -> ParseFloatError {
    if rng.chance(1, 2) { "".parse::<f32>().unwrap_err() } else { "one".parse::<f64>().unwrap_err() }
}

fn conversions(rng: &mut Rng, cov: &mut Cov) -> Case {
    let word = gen::names(rng, 1, Place::Text).remove(0);
    let m = format!("message {word}");
    for kind in [ErrorKind::General, ErrorKind::Parse, ErrorKind::Definitions, ErrorKind::Duplicate, ErrorKind::Execution, ErrorKind::Locking, ErrorKind::Io, ErrorKind::Infallible] {
        let what = format!("an error of kind {kind:?}");
        for e in [lib("new", || Error::new(kind.clone(), &m))?, lib("new", || Error::new(kind.clone(), m.clone()))?] {
            sound(&what, &e)?;
            ensure!(e.to_string().contains(&m), "{what} says {e} instead of {m:?}");
            ensure!(e.source().is_none(), "{what} has a cause that nobody gave it");
        }
    }
    for (what, e) in [
        ("a general error", Error::general(&m)),
        ("an error of a definition", Error::definition(&m)),
        ("a parse error", Error::parse_error(&m)),
        ("an error of execution", Error::execution(&m)),
    ] {
        sound(what, &e)?;
        ensure!(e.to_string().contains(&m), "{what} says {e} instead of {m:?}");
    }
    sound("the default error", &Error::default())?;
    let e = int_error(rng);
    let k: IntErrorKind = e.kind().clone();
    caused::<ParseIntError>("a ParseIntError", Error::from(e.clone()), &|c| *c == e && *c.kind() == k, &e.to_string())?;
    let e = float_error(rng);
    caused::<ParseFloatError>("a ParseFloatError", Error::from(e.clone()), &|c| *c == e, &e.to_string())?;
    // Errors of input and output: of the system, of a kind only, with a message, with a cause of their own.
    let code = rng.range(1, 133) as i32;
    let e = io::Error::from_raw_os_error(code);
    let (msg, kind) = (e.to_string(), e.kind());
    caused::<io::Error>(&format!("system error {code}"), e.into(), &|c| c.raw_os_error() == Some(code) && c.kind() == kind, &msg)?;
    let kind = *rng.pick(KINDS);
    let e = io::Error::from(kind);
    let msg = e.to_string();
    caused::<io::Error>(&format!("{kind:?}"), e.into(), &|c| c.kind() == kind && c.get_ref().is_none(), &msg)?;
    let e = io::Error::new(kind, m.clone());
    caused::<io::Error>(&format!("{kind:?} with a message"), e.into(), &|c| c.kind() == kind && c.to_string() == m, &m)?;
    // The cause may have causes of its own.
    let mut c = custom(&word);
    for _ in 0..rng.below(4) {
        c = Custom(word.clone(), Some(Box::new(c)));
    }
    let below = depth(&c);
    let e = io::Error::new(kind, c);
    let e: Error = e.into();
    let inner = |e: &Error| e.source().and_then(|s| s.downcast_ref::<io::Error>()).and_then(|s| s.get_ref()).and_then(|s| s.downcast_ref::<Custom>()).map(|c| c.0.clone());
    ensure!(inner(&e) == Some(word.clone()) && inner(&e.clone()) == Some(word.clone()), "{kind:?} with an inner error loses it");
    let d = depth(&e);
    ensure!(d == below + 1, "{kind:?} with an inner error has {d} causes, one after the other, instead of {}", below + 1);
    caused::<io::Error>(&format!("{kind:?} with an inner error"), e, &|c| c.kind() == kind, &word)?;
    // By the question mark.
    fn user(t: &str) -> rusty_systems::Result<f32> {
        let n: usize = t.parse()?;
        let f: f32 = format!("{t}x").parse()?;
        Ok(f + n as f32)
    }
    caused::<ParseFloatError>("a number read by the user", lib("user", || user("7"))?.unwrap_err(), &|_| true, "")?;
    caused::<ParseIntError>("a number read by the user", lib("user", || user("7z"))?.unwrap_err(), &|c| *c.kind() == IntErrorKind::InvalidDigit, "")?;
    // A poisoned lock.
    let lock = RwLock::new(1);
    user_panics(|| {
        let _g = lock.write();
        panic!("poison")
    });
    let e: Error = match lock.read() {
        Ok(_) => return Err("harness: the lock is not poisoned".into()),
        Err(p) => {
            let m = p.to_string();
            let e = lib("from", || Error::from(p))?;
            ensure!(e.to_string().contains(&m), "a poisoned lock says {e} instead of {m:?}");
            e
        }
    };
    sound("a poisoned lock", &e)?;
    cov.count("conversions of errors", 28);
    cov.distinct(&format!("{code} {kind:?} {word}"));
    Ok(())
}

/// A user's value whose conversion fails for a cause of its own.
struct Fails(u8);

fn cause_of(k: u8) -> Error {
    match k {
        0 => "x".parse::<u32>().unwrap_err().into(),
        1 => "x".parse::<f32>().unwrap_err().into(),
        _ => io::Error::new(io::ErrorKind::TimedOut, custom("slow")).into(),
    }
}

impl TryFrom<Fails> for Symbol {
    type Error = Error;
    fn try_from(f: Fails) -> Result<Symbol, Error> {
        Err(cause_of(f.0))
    }
}

impl TryFrom<Fails> for Production {
    type Error = Error;
    fn try_from(f: Fails) -> Result<Production, Error> {
        Err(cause_of(f.0))
    }
}

struct FailsIo;

impl TryFrom<FailsIo> for Symbol {
    type Error = io::Error;
    fn try_from(_: FailsIo) -> Result<Symbol, io::Error> {
        Err(io::Error::new(io::ErrorKind::TimedOut, custom("slow")))
    }
}

impl TryFrom<FailsIo> for Production {
    type Error = ParseIntError;
    fn try_from(_: FailsIo) -> Result<Production, ParseIntError> {
        Err("12q".parse::<u32>().unwrap_err())
    }
}

impl family::TryIntoFamily for Fails {
    fn into_family(self) -> rusty_systems::Result<std::sync::Arc<SystemFamily>> {
        Err(cause_of(self.0))
    }
}

/// Causes pass through the library unharmed.
fn passed_on(cov: &mut Cov) -> Case {
    let sys = System::new();
    let set: RefCell<std::collections::HashSet<u32>> = RefCell::default();
    let list: RefCell<Vec<Production>> = RefCell::default();
    for k in 0..3 {
        let all: Vec<(&str, Option<Error>)> = vec![
            ("System::add_symbol", lib("add_symbol", || sys.add_symbol(Fails(k)).err())?),
            ("System::add_production", lib("add_production", || sys.add_production(Fails(k)).err())?),
            ("add_symbol to a set", lib("add_symbol", || set.add_symbol(Fails(k)).err())?),
            ("add_production to a list", lib("add_production", || list.add_production(Fails(k)).err())?),
            ("System::of_family", lib("of_family", || System::of_family(Fails(k)).err())?),
        ];
        for (what, e) in all {
            let Some(e) = e else { return Err(format!("{what}: a conversion that fails is reported as success")) };
            let what = format!("{what} of what cannot be converted");
            let m = cause_of(k).to_string();
            match k {
                0 => caused::<ParseIntError>(&what, e, &|c| *c.kind() == IntErrorKind::InvalidDigit, &m)?,
                1 => caused::<ParseFloatError>(&what, e, &|_| true, &m)?,
                _ => caused::<io::Error>(&what, e, &|c| c.kind() == io::ErrorKind::TimedOut && c.get_ref().is_some(), &m)?,
            }
        }
    }
    for (what, e) in [("System", lib("add_symbol", || sys.add_symbol(FailsIo).err())?), ("a set", lib("add_symbol", || set.add_symbol(FailsIo).err())?)] {
        let Some(e) = e else { return Err(format!("{what}: a conversion that fails is reported as success")) };
        caused::<io::Error>(&format!("add_symbol to {what}"), e, &|c| c.kind() == io::ErrorKind::TimedOut && c.get_ref().is_some(), "custom slow")?;
    }
    for (what, e) in [("System", lib("add_production", || sys.add_production(FailsIo).err())?), ("a list", lib("add_production", || list.add_production(FailsIo).err())?)] {
        let Some(e) = e else { return Err(format!("{what}: a conversion that fails is reported as success")) };
        caused::<ParseIntError>(&format!("add_production to {what}"), e, &|c| *c.kind() == IntErrorKind::InvalidDigit, "invalid digit")?;
    }
    cov.count("causes passed on", 19);
    Ok(())
}

/// Numbers in plant files that are none.
fn numbers(rng: &mut Rng, cov: &mut Cov) -> Case {
    const VALUES: &[&str] = &[
        "", "x", "-1", "-0", "+", "-", "1.5", "1e3", "0x10", "1_000", "18446744073709551616", "99999999999999999999999", "٣", "½", "1 2", "one", "1,5", "--1", "+ 1",
        "22.5.5", "22..5", "1e", "e5", ".", "1e+", "2 2", "22,5", "22°", "22.5f", "nan x", "in f", "infinit", "1.5e3.2", "∞", "5-", "\u{3000}", "=", "= 5", "1=1", "5;", "\"5\"", "'5'", "NaN5",
        "5", "0", "22.5", "1e2", "+5",
    ];
    let mut value = rng.pick(VALUES).to_string();
    if rng.chance(1, 3) {
        let c: Vec<char> = (0..rng.range(1, 6)).map(|_| *rng.pick(&['0', '1', '9', '.', 'e', '-', '+', 'x', ' ', '_', 'é', 'E'])).collect();
        value = c.into_iter().collect();
    }
    let value = value.trim().to_string();
    let name = *rng.pick(&["n", "N", "d", "D", "delta", "∂"]);
    let mut lines = vec!["initial: X".to_string(), "X -> X X".to_string()];
    if rng.chance(1, 2) {
        lines.push(format!("{} = {}", if name.eq_ignore_ascii_case("n") { "delta" } else { "n" }, rng.range(0, 60)));
    }
    let at = rng.below(lines.len() + 1);
    lines.insert(at, format!("{}{name}{}={}{value}{}", rng.pick(&["", "  "]), rng.pick(&["", " "]), rng.pick(&["", " ", "\t"]), rng.pick(&["", " ", " # the value"])));
    let t = lines.join(rng.pick(&["\n", "\r\n", "\n\n"]));
    let r = lib("plant parse", || plant::parse(&t).map(|_| ()))?;
    let what = format!("{t:?}");
    cov.distinct(&format!("{name} {value}"));
    if name.eq_ignore_ascii_case("n") {
        match value.parse::<usize>() {
            Ok(_) => ensure!(r.is_ok(), "{what} is refused: {}", r.unwrap_err()),
            Err(want) => {
                let Err(e) = r else { return Err(format!("{what} is accepted, although {value:?} is no count")) };
                caused::<ParseIntError>(&what, e, &|c| *c == want, &want.to_string())?;
                cov.count("bad counts", 1);
            }
        }
    } else {
        match value.parse::<f32>() {
            Ok(_) => {}
            Err(want) => {
                let Err(e) = r else { return Err(format!("{what} is accepted, although {value:?} is no angle")) };
                caused::<ParseFloatError>(&what, e, &|c| *c == want, &want.to_string())?;
                cov.count("bad angles", 1);
            }
        }
    }
    Ok(())
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Files that cannot be read.
fn files(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    let dir = Scratch(std::env::temp_dir().join(format!("mon-c23-{}-{i}", std::process::id())));
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let d = &dir.0;
    let fine = d.join("fine.plant");
    std::fs::write(&fine, "n = 3\ninitial: X\nX -> X X\n").expect("scratch file");
    let _ = std::os::unix::fs::symlink(d.join("loop"), d.join("loop"));
    let _ = std::os::unix::fs::symlink(d.join("nowhere"), d.join("dangling"));
    let mut bytes = b"initial: X\nX -> X ".to_vec();
    let cut = rng.below(bytes.len() + 1);
    bytes.splice(cut..cut, rng.pick::<&[u8]>(&[&[0xff], &[0xc3], &[0xe6, 0x97], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xc0, 0xaf]]).iter().copied());
    std::fs::write(d.join("bytes"), &bytes).expect("scratch file");
    std::fs::write(d.join("bad number"), "n = 3x\ninitial: X\nX -> X\n").expect("scratch file");
    let paths: Vec<PathBuf> = vec![
        d.join("missing"),
        d.join("no").join("such").join("directory"),
        d.clone(),
        d.join("loop"),
        d.join("dangling"),
        d.join("bytes"),
        fine.join("inside a file"),
        d.join("x".repeat(300)),
        d.join("nul\0inside"),
        PathBuf::from(""),
        d.join("日本 missing"),
        d.join("x/".repeat(3000)),
    ];
    for p in &paths {
        let Err(want) = std::fs::read_to_string(p) else { return Err(format!("harness: {p:?} can be read")) };
        let what = format!("file {:?}", p.to_string_lossy().chars().take(80).collect::<String>());
        let got = match rng.below(3) {
            0 => lib("parse_file", || plant::parse_file(p).map(|_| ()))?,
            1 => lib("parse_file", || plant::parse_file::<&Path>(p.as_path()).map(|_| ()))?,
            _ => lib("parse_file", || plant::parse_file(p.to_str().expect("text")).map(|_| ()))?,
        };
        let Err(e) = got else { return Err(format!("{what}, which cannot be read ({want}), is reported as read")) };
        caused::<io::Error>(&what, e, &|c| c.kind() == want.kind() && c.raw_os_error() == want.raw_os_error(), &want.to_string())?;
        cov.count(&format!("files refused: {:?}", want.kind()), 1);
    }
    let r = lib("parse_file", || plant::parse_file(&fine).map(|_| ()))?;
    ensure!(r.is_ok(), "a file that can be read is refused: {}", r.unwrap_err());
    let r = lib("parse_file", || plant::parse_file(d.join("bad number")).map(|_| ()))?;
    let Err(e) = r else { return Err("a file with a bad number is read".into()) };
    caused::<ParseIntError>("a file with a bad number", e, &|c| *c.kind() == IntErrorKind::InvalidDigit, "invalid digit")?;
    cov.distinct(&format!("file {bytes:?}"));
    Ok(())
}

/// All errors that text can cause are sound.
fn texts(rng: &mut Rng, cov: &mut Cov, ws: &[char]) -> Case {
    let t = c11::any_text(rng, ws);
    cov.distinct(&t);
    for t in [t.clone(), format!("A -> {t}"), format!("{t} -> B"), format!("initial: A\nA -> B\n{t}")] {
        let sys = System::new();
        let all: Vec<(&str, Option<Error>)> = vec![
            ("parse_prod_string", lib("parse_prod_string", || parse_prod_string(&t).err())?),
            ("parse_production", lib("parse_production", || parse_production(&t).err())?),
            ("parse_production_head", lib("parse_production_head", || parse_production_head(&t).err())?),
            ("parse_production_body", lib("parse_production_body", || parse_production_body(&t).err())?),
            ("get_code", lib("get_code", || get_code(&t).err())?),
            ("Symbol", lib("parse", || t.parse::<Symbol>().err())?),
            ("add_production", lib("add_production", || sys.add_production(t.as_str()).err())?),
            ("add_symbol", lib("add_symbol", || sys.add_symbol(t.as_str()).err())?),
            ("parse_and_add_production", lib("parse_and_add_production", || parse_and_add_production(&sys, &sys, &t).err())?),
            ("plant parse", lib("plant parse", || plant::parse(&t).err())?),
        ];
        for (what, e) in all {
            if let Some(e) = e {
                sound(&format!("{what} of {}", c11::short(&t)), &e)?;
                cov.count(&format!("errors of {what}"), 1);
            }
        }
    }
    Ok(())
}

/// The errors of everything else.
fn others(rng: &mut Rng, cov: &mut Cov) -> Case {
    let sys = System::new();
    for x in ["F -> 0.9 F", "F -> 0.8 F F"] {
        lib("add_production", || sys.add_production(x).map(|_| ()).map_err(|e| e.to_string()))??;
    }
    let f = || parse_prod_string("F F");
    let rule = lib("add_production", || sys.add_production("F -> 0.7"))?.map_err(|e| e.to_string())?;
    let n = rng.next();
    let turtle = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
    let fam = format!("C23 {n}");
    let bad_chance = *rng.pick(&[0.0f32, -1.0, 1.5, f32::NAN, f32::INFINITY, -0.0]);
    let register = || SystemFamily::define().with_terminal("a", None).register(&fam);
    let first = lib("register", register)?;
    ensure!(first.is_ok(), "a family is refused");
    let all: Vec<(&str, Option<Error>)> = vec![
        ("derive with chances over one", lib("derive", || sys.derive(f()?, 1.into()).err().map_or(Ok(None), |e| Ok::<_, Error>(Some(e))))?.ok().flatten()),
        ("derive_once with chances over one", lib("derive_once", || f().and_then(|s| sys.derive_once(s)).err())?),
        ("body of a rule with chances over one", lib("body", || rule.body().err())?),
        ("a chance out of range", lib("try_with_chance", || ProductionBody::try_with_chance(bad_chance, ProductionString::empty()).err())?),
        ("a code that was never given", lib("try_from", || Symbol::try_from(u32::MAX - 3).err())?),
        ("adding a code that was never given", lib("add_symbol", || sys.add_symbol(u32::MAX - 3).err())?),
        ("registering a family twice", lib("register", || register().err())?),
        ("registering a built family twice", lib("register", || SystemFamily::define().build(&fam).and_then(family::register).err())?),
        ("a family without a name", lib("register", || SystemFamily::define().register(" ").err())?),
        ("building a family without a name", lib("build", || SystemFamily::define().build("").err())?),
        ("a system of no family", lib("of_family", || System::of_family(format!("C23 never {n}")).err())?),
        ("a system of a family with a blank symbol", lib("of_family", || SystemFamily::define().with_terminal("", None).build("x").and_then(System::of_family).err())?),
        ("an unbalanced branch", lib("interpret", || parse_prod_string("Forward ] Forward").and_then(|s| AbopTurtleInterpretation::new(1, 9.0).interpret(&turtle, &s)).err())?),
        ("a plant without rules", lib("plant parse", || plant::parse("initial: X").err())?),
        ("a plant without a start", lib("plant parse", || plant::parse("X -> X").err())?),
        ("an empty plant", lib("plant parse", || plant::parse(" \n ").err())?),
        ("a plant with an infinite angle", lib("plant parse", || plant::parse("delta = inf\ninitial: X\nX -> X").err())?),
    ];
    for (what, e) in all {
        let Some(e) = e else { return Err(format!("{what} is not an error")) };
        sound(what, &e)?;
        cov.count("other errors", 1);
    }
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    match i % 8 {
        0 => conversions(rng, cov),
        1 if i % 64 == 1 => passed_on(cov),
        1 => others(rng, cov),
        2..=4 => {
            for _ in 0..4 {
                numbers(rng, cov)?;
            }
            Ok(())
        }
        5 => files(rng, i, cov),
        _ => {
            let ws = gen::unicode_ws();
            texts(rng, cov, &ws)
        }
    }
}
