//! Text of production strings.
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_prod_string, TokenKind};
use rusty_systems::prelude::*;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, is_op, Place};
use crate::rng::Rng;

/// The tokens of a text: maximal runs of operators, and maximal runs of anything else that is
/// not white space.
pub fn split(text: &str) -> Vec<(usize, &str)> {
    let mut out: Vec<(usize, &str)> = vec![];
    let mut start = None;
    let mut in_op = false;
    for (i, c) in text.char_indices() {
        if c.is_whitespace() {
            if let Some(s) = start.take() {
                out.push((s, &text[s..i]));
            }
        } else if start.is_some() && is_op(c) == in_op {
            continue;
        } else {
            if let Some(s) = start.take() {
                out.push((s, &text[s..i]));
            }
            start = Some(i);
            in_op = is_op(c);
        }
    }
    if let Some(s) = start {
        out.push((s, &text[s..]));
    }
    out
}

/// The symbols the text stands for. None when it has to be refused.
pub fn symbols(text: &str) -> Option<Vec<&str>> {
    let mut out = vec![];
    for (_, t) in split(text) {
        match t {
            ";" => break,
            "->" | "<" | ">" => return None,
            t => out.push(t),
        }
    }
    Some(out)
}

fn short(t: &str) -> String {
    if t.chars().count() <= 120 {
        return format!("{t:?}");
    }
    format!("{:?}... ({} bytes)", t.chars().take(120).collect::<String>(), t.len())
}

pub fn check(text: &str) -> Result<Option<usize>, String> {
    let want = split(text);
    let got = lib("TokenIterator", || TokenIterator::new(text).collect::<Vec<_>>()).map_err(|e| format!("{}: {e}", short(text)))?;
    let mut n = 0;
    for (i, t) in got.iter().enumerate() {
        if t.text.is_empty() {
            ensure!(i + 1 == got.len(), "{}: an empty token precedes {:?}", short(text), got[i + 1].text);
            ensure!(t.kind == TokenKind::Terminator && t.is_terminal(), "{}: the end is taken for a {}", short(text), t.kind);
            break;
        }
        let Some((at, w)) = want.get(i) else {
            return Err(format!("{}: there is one token too many, {:?}", short(text), t.text));
        };
        ensure!(t.text == *w, "{}: token {i} is {:?} instead of {w:?}", short(text), t.text);
        ensure!(
            t.start == *at && t.end == at + w.len(),
            "{}: token {i}, {w:?}, is said to be at {}..{}, but is at {at}..{}",
            short(text),
            t.start,
            t.end,
            at + w.len()
        );
        let kind = match *w {
            ";" => TokenKind::Terminator,
            "->" => TokenKind::Arrow,
            "<" => TokenKind::ContextLeft,
            ">" => TokenKind::ContextRight,
            _ => TokenKind::Symbol,
        };
        ensure!(t.kind == kind, "{}: token {i}, {w:?}, is taken for a {}", short(text), t.kind);
        ensure!(t.is_terminal() == (kind == TokenKind::Terminator), "{}: whether {w:?} ends a string", short(text));
        ensure!(!t.kind.to_string().is_empty(), "{}: what token {w:?} is displays as nothing", short(text));
        ensure!(t.as_ref() == *w && t.to_string() == *w, "{}: token {w:?} displays as {t}", short(text));
        n += 1;
    }
    let stop = want.iter().position(|(_, t)| *t == ";").map_or(want.len(), |p| p + 1);
    ensure!(n >= stop, "{}: only {n} of {} tokens are found", short(text), want.len());

    let parsed = lib("parse_prod_string", || parse_prod_string(text).map_err(|e| e.to_string())).map_err(|e| format!("{}: {e}", short(text)))?;
    match (symbols(text), parsed) {
        (None, Err(_)) => Ok(None),
        (None, Ok(s)) => Err(format!("{} has a reserved word, but is read as {s}", short(text))),
        (Some(_), Err(e)) => Err(format!("{} is refused: {e}", short(text))),
        (Some(w), Ok(s)) => {
            ensure!(s.len() == w.len(), "{} has {} symbols, but is read as {}: {}", short(text), w.len(), s.len(), short(&s.to_string()));
            ensure!(s.is_empty() == w.is_empty(), "{}: whether it is empty", short(text));
            for (i, (w, g)) in w.iter().zip(s.symbols()).enumerate() {
                ensure!(g.name().as_deref() == Some(w), "{}: symbol {i} is {g} instead of {w}", short(text));
            }
            // Looking up the symbols one by one gives the same ones.
            for (w, g) in w.iter().zip(s.symbols()).take(20) {
                let one = lib("Symbol::build", || Symbol::build(*w).map_err(|e| e.to_string()))??;
                ensure!(one == *g, "{}: symbol {w:?} is another one than the one of that name", short(text));
            }
            Ok(Some(w.len()))
        }
    }
}

const ALPHABET: &[char] = &['a', 'é', ' ', '\u{3000}', '+', '-', ';', '<', '>', '('];

/// Every string of up to five characters over an alphabet, in slices.
fn sweep(i: u64, slices: u64, cov: &mut Cov) -> Case {
    let k = ALPHABET.len() as u64;
    let mut total = 0;
    for len in 0..=5u32 {
        let n = k.pow(len);
        let mut x = i;
        while x < n {
            let mut s = String::new();
            let mut y = x;
            for _ in 0..len {
                s.push(ALPHABET[(y % k) as usize]);
                y /= k;
            }
            check(&s)?;
            total += 1;
            x += slices;
        }
    }
    cov.count("texts of the exhaustive sweep", total);
    cov.distinct(&format!("sweep {i}"));
    Ok(())
}

fn fragment(rng: &mut Rng, names: &[String], ws: &[char]) -> String {
    match rng.below(10) {
        0..=3 => rng.pick(names).clone(),
        4 => (0..rng.range(1, 4)).map(|_| *rng.pick(&['+', '-', '(', ')', '<', '>', ';'])).collect(),
        5 => rng.pick(&["+", "-", "(", ")", "[", "]", "--", "++", "<-", "-<", ">-", "->>", "<->", ";;", "+;", "-->"]).to_string(),
        6 => match rng.below(12) {
            0 => rng.pick(&["->", "<", ">"]).to_string(),
            1 => ";".into(),
            _ => "+".into(),
        },
        7 => (0..rng.range(1, 3)).map(|_| *rng.pick(ws)).collect(),
        _ => " ".into(),
    }
}

/// Tokens and gaps of very many bytes.
fn big(rng: &mut Rng, most: bool, cov: &mut Cov) -> Case {
    let size = |rng: &mut Rng| match rng.below(5) {
        0 => *rng.pick(&[255, 256, 257, 4095, 4096, 4097, 32_767, 32_768, 65_535, 65_536, 65_537, 131_072]),
        1 => rng.range(60_000, 140_000),
        2 => rng.range(1, 5_000),
        _ => rng.range(0, 6),
    };
    let mut t = String::new();
    for _ in 0..rng.range(1, 9) {
        let n = size(rng);
        match rng.below(5) {
            0 | 1 => {
                let c = *rng.pick(&['a', 'é', '日', '\u{1F600}']);
                t.extend((0..n).map(|i| if i % 11 == 3 { 'b' } else { c }));
            }
            2 => {
                let c = *rng.pick(&['+', '-', '(']);
                t.extend((0..n).map(|_| c));
            }
            3 => {
                let c = *rng.pick(&[' ', '\n', '\t', '\u{3000}', '\u{a0}']);
                t.extend((0..n).map(|_| c));
            }
            _ => t.push_str(&"ab + c ".repeat(n.min(40_000))),
        }
        if rng.chance(1, 2) {
            t.push_str(rng.pick(&[" ", "x", "-", " é ", " y"]));
        }
    }
    if most {
        t.push_str(&" ".repeat((1 << 24) - rng.below(10)));
        t.push_str("after that+something");
    }
    match check(&t)? {
        None => cov.count("texts refused", 1),
        Some(k) => cov.max("symbols in a text", k as u64),
    }
    cov.max("bytes in a text", t.len() as u64);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    const SLICES: u64 = 400;
    if i < SLICES {
        return sweep(i, SLICES, cov);
    }
    let ws = gen::unicode_ws();
    if i == SLICES {
        // Every white space alone, between, around, next to operators and at the very end.
        for w in &ws {
            for t in [
                format!("{w}"), format!("a{w}b"), format!("{w}a"), format!("a{w}"), format!("é{w}日"), format!("{w}+{w}"),
                format!("+{w}a{w}-"), format!("{w}{w}a{w}{w}b{w}{w}"), format!("a{w};{w}b"), format!("{w};"), format!("-{w}>"),
            ] {
                check(&t)?;
                cov.count("texts", 1);
            }
        }
        cov.count("kinds of white space", ws.len() as u64);
        return Ok(());
    }
    if i < SLICES + 40 {
        // Every character there is, next to an ordinary symbol and to an operator.
        let part = i - SLICES - 1;
        for c in (0..=0x10ffffu32).filter(|c| *c as u64 % 39 == part).filter_map(char::from_u32) {
            if tier == Tier::Quick && c as u32 > 0x3100 && c as u32 % 16 != 0 {
                continue;
            }
            check(&format!("a{c}b+{c} {c}"))?;
            cov.count("characters swept", 1);
        }
        return Ok(());
    }
    if i % 500 == 450 {
        big(rng, i == 450, cov)?;
    }
    for _ in 0..30 {
        let n = rng.range(1, 6);
        let names: Vec<String> = gen::names(rng, n, Place::Text);
        let long = rng.chance(1, 200);
        let n = if long { rng.range(2_000, 40_000) } else { rng.below(14) };
        let mut t = String::new();
        for _ in 0..n {
            t += &fragment(rng, &names, &ws);
            if long && rng.chance(19, 20) {
                // Long texts should not end at once.
                t = t.replace(';', "z").replace('<', "+").replace('>', "+");
            }
            if long && t.len() > 400 {
                let piece = std::mem::take(&mut t);
                t = piece.repeat(rng.range(2, 100));
                break;
            }
        }
        match check(&t)? {
            None => cov.count("texts refused", 1),
            Some(k) => {
                cov.count("texts read", 1);
                cov.count("symbols read", k as u64);
                cov.max("symbols in a text", k as u64);
            }
        }
        cov.distinct(&t);
        cov.sample(|| format!("{t:?} is {:?}", symbols(&t)));
    }
    // Texts that are certainly valid, in many layouts.
    let n = rng.range(1, 8);
    let v = gen::vocab(rng, n, Place::Text)?;
    let len = gen::length(rng, 12, 3000);
    let s = gen::syms(rng, v.len(), len);
    let t = gen::string_text(rng, &v, &s);
    let got = lib("parse_prod_string", || parse_prod_string(&t).map_err(|e| e.to_string()))?.map_err(|e| format!("{} is refused: {e}", short(&t)))?;
    let got = v.back(&got)?;
    ensure!(got == s, "{} is read as {}", short(&t), v.show(&got));
    Ok(())
}
