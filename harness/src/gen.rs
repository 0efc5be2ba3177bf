//! Generators of names, rules, strings and layouts.

use rusty_systems::prelude::*;
use rusty_systems::productions::Production;

use crate::core::lib;
use crate::model::{chance_text, Body, Rule, Vocab};
use crate::rng::Rng;

pub const ASCII_WS: &[&str] = &[" ", "  ", "\t", "\n", "\r", "\x0c", " \t ", "\r\n", "   \n\t  "];

/// Every character that Unicode counts as white space.
pub fn unicode_ws() -> Vec<char> {
    (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| c.is_whitespace()).collect()
}

const PUNCT: &[&str] = &[
    "[", "]", "{", "}", "|", "!", "*", ":", "'", "\"", "&", "\\", "/", "%", "@", "_", "~", "^", "?", ",", ".", "$",
    "`", "[[", "]]", "[]", "*/", "//", "#", "=", "==",
];
const OPS: &[&str] = &["+", "-", "++", "--", "+-", "-+", "(", ")", "()", ")(", "+++", "-(", "<<", ">>", "<>", "(((((((("];
const NUMS: &[&str] = &["1", "0", "0.5", "inf", "nan", "NaN", "infinity", "1e5", "00", "1.", ".5", "0x10", "1_000", "٣", "1e999"];
const UNI: &[&str] = &[
    "é", "e\u{301}", "É", "ß", "ss", "SS", "日本", "日", "本", "İ", "i\u{307}", "ı", "ﬁ", "fi", "ſ", "s", "K", "K",
    "Å", "Å", "\u{1F600}", "\u{1F1FF}\u{1F1E6}", "א", "ا", "Ω", "Ω", "ƒ", "한", "한", "𝔸", "A", "Α", "А", "∂", "→",
    "ÿ", "ā", "\u{10FFFF}", "\u{E000}", "\u{FFFD}",
];
const ODD: &[&str] = &[
    "a\u{200b}", "\u{feff}a", "a", "\u{200d}", "\u{0}", "\u{1}", "\u{7f}", "a\u{0}", "\u{ad}", "a\u{ad}b", "ab",
    "\u{180e}", "\u{2060}", "code:100", "code:101", "EOS", "\u{1b}[0m",
];
const WORDS: &[&str] = &[
    "Forward", "Move", "X", "F", "G", "S", "Company", "surname", "forward", "FORWARD", "Forwards", "n", "N", "d", "delta",
    "initial", "x", "XX", "Move1", "A1", "A2", "A10", "A01", "axiom",
];

/// What a name is allowed to contain.
#[derive(Clone, Copy, PartialEq)]
pub enum Place {
    /// Anything that is one symbol both in rules and in strings.
    Text,
    /// As Text, but also without '#', '=' and whatever else has a meaning in a plant file.
    Plant,
}

fn one_name(rng: &mut Rng, flavour: usize) -> String {
    match flavour {
        0 => ((b'a' + rng.below(26) as u8) as char).to_string(),
        1 => {
            let n = rng.range(1, 5);
            (0..n).map(|_| if rng.chance(2, 3) { 'a' } else { 'b' }).collect()
        }
        2 => rng.pick(WORDS).to_string(),
        3 => rng.pick(UNI).to_string(),
        4 => rng.pick(PUNCT).to_string(),
        5 => rng.pick(OPS).to_string(),
        6 => rng.pick(NUMS).to_string(),
        7 => {
            let n = *rng.pick(&[15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]);
            let mut s: String = (0..n - 1).map(|i| (b'a' + (i % 7) as u8) as char).collect();
            s.push((b'a' + rng.below(5) as u8) as char);
            s
        }
        8 => rng.pick(ODD).to_string(),
        9 => format!("s{}", rng.below(1000)),
        10 => ((b'A' + rng.below(26) as u8) as char).to_string(),
        _ => {
            let n = rng.range(1, 4);
            (0..n)
                .map(|_| loop {
                    let c = char::from_u32(match rng.below(4) {
                        0 => rng.below(0x80) as u32,
                        1 => rng.below(0x800) as u32,
                        2 => rng.below(0x10000) as u32,
                        _ => rng.below(0x110000) as u32,
                    });
                    if let Some(c) = c {
                        if !c.is_whitespace() && !"<>-+();".contains(c) {
                            break c;
                        }
                    }
                })
                .collect()
        }
    }
}

pub fn is_op(c: char) -> bool {
    "<>-+();".contains(c)
}

/// Whether the name is one symbol both in rule text and in string text.
pub fn plain_name(n: &str, place: Place) -> bool {
    if n.is_empty() || n.chars().any(char::is_whitespace) || matches!(n, "->" | "<" | ">" | ";") || n.contains("->") {
        return false;
    }
    let ops = n.chars().filter(|c| is_op(*c)).count();
    if ops != 0 && (ops != n.chars().count() || n.contains(';')) {
        return false;
    }
    !(place == Place::Plant && (n.contains('#') || n.contains('=') || n.to_lowercase().contains("initial")))
}

pub fn names(rng: &mut Rng, n: usize, place: Place) -> Vec<String> {
    let mono = if rng.chance(1, 2) { Some(rng.below(12)) } else { None };
    let mut out: Vec<String> = Vec::new();
    let mut tries = 0;
    while out.len() < n {
        tries += 1;
        let flavour = match mono {
            Some(f) if tries < 3 * n => f,
            _ => rng.below(12),
        };
        let mut name = one_name(rng, flavour);
        if tries > 20 * n {
            name = format!("z{}", out.len());
        }
        if plain_name(&name, place) && !out.contains(&name) {
            out.push(name);
        }
    }
    out
}

pub fn vocab(rng: &mut Rng, n: usize, place: Place) -> Result<Vocab, String> {
    Vocab::new(names(rng, n, place))
}

/// A length that is usually small but reaches the sizes where buffers and tables grow.
pub fn length(rng: &mut Rng, small: usize, large: usize) -> usize {
    if cfg!(miri) {
        return rng.range(0, small.min(5));
    }
    match rng.below(20) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => rng.range(0, large),
        4 => {
            let b = *rng.pick(&[8usize, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 4096, 10_000, 65_536]);
            (b + rng.below(3)).saturating_sub(1).min(large)
        }
        _ => rng.range(1, small),
    }
}

/// Stated chances (in thousandths) for k alternatives. `over` makes them total more than one.
pub fn chances(rng: &mut Rng, k: usize, over: bool) -> Vec<Option<u32>> {
    let mut out: Vec<Option<u32>> = vec![None; k];
    if over {
        // At least 1.002 in total.
        let stated = rng.range(2.min(k), k);
        let total = 1002 + rng.below(900) as u32;
        let mut left = total;
        for (i, o) in out.iter_mut().take(stated).enumerate() {
            let rest = (stated - i - 1) as u32;
            let c = if rest == 0 { left } else { 1 + rng.below((left - rest).min(999) as usize) as u32 };
            let c = c.min(1000);
            *o = Some(c);
            left -= c.min(left);
        }
        if out.iter().flatten().sum::<u32>() < 1002 {
            out[0] = Some(1000);
            if k > 1 {
                out[1] = Some(2 + rng.below(900) as u32);
            }
        }
    } else {
        let stated = match rng.below(4) {
            0 => 0,
            1 => k,
            _ => rng.range(0, k),
        };
        let total: u32 = match rng.below(3) {
            0 => 1000,
            1 => stated as u32,
            _ => rng.range(stated, 1000) as u32,
        };
        let mut left = total.max(stated as u32).min(1000);
        if stated as u32 > 1000 {
            return out;
        }
        for (i, o) in out.iter_mut().take(stated).enumerate() {
            let rest = (stated - i - 1) as u32;
            let c = if rest == 0 {
                left
            } else {
                let hi = (left - rest).min(if rng.chance(1, 3) { left } else { 2 * left / (rest + 1) }.max(1));
                1 + rng.below(hi as usize) as u32
            };
            *o = Some(c);
            left -= c;
        }
    }
    rng.shuffle(&mut out);
    out
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub contexts: usize,
    pub alternatives: usize,
    pub body: usize,
    pub over: bool,
}

pub fn syms(rng: &mut Rng, n: usize, len: usize) -> Vec<usize> {
    (0..len).map(|_| rng.below(n)).collect()
}

pub fn rule(rng: &mut Rng, v: &Vocab, shape: Shape) -> Rule {
    let n = v.len();
    let ctx = |rng: &mut Rng| {
        if shape.contexts > 0 && rng.chance(1, 2) {
            let len = rng.range(1, shape.contexts);
            Some(syms(rng, n, len))
        } else {
            None
        }
    };
    let k = if shape.alternatives > 1 && rng.chance(1, 2) { rng.range(2, shape.alternatives) } else { 1 };
    let over = shape.over && k > 1 && rng.chance(1, 8);
    let bodies = if k == 1 {
        let chance = if rng.chance(1, 6) { Some(rng.range(1, 1000) as u32) } else { None };
        let len = rng.range(0, shape.body);
        vec![Body { chance, syms: syms(rng, n, len) }]
    } else {
        chances(rng, k, over)
            .into_iter()
            .map(|chance| {
                let len = rng.range(0, shape.body);
                Body { chance, syms: syms(rng, n, len) }
            })
            .collect()
    };
    Rule { pre: ctx(rng), target: rng.below(n), post: ctx(rng), bodies }
}

/// A string in which the rules find something to match, or almost.
pub fn string_for(rng: &mut Rng, n: usize, rules: &[Rule], len: usize) -> Vec<usize> {
    let mut s = Vec::with_capacity(len + 8);
    while s.len() < len {
        if !rules.is_empty() && rng.chance(1, 2) {
            let r = rng.pick(rules);
            let at = s.len();
            s.extend(r.pre.iter().flatten());
            s.push(r.target);
            s.extend(r.post.iter().flatten());
            if rng.chance(1, 4) {
                let i = at + rng.below(s.len() - at);
                s[i] = rng.below(n);
            }
        } else {
            s.push(rng.below(n));
        }
    }
    s.truncate(len);
    s
}

fn ws(rng: &mut Rng, lines: bool) -> &'static str {
    if rng.chance(3, 4) {
        return " ";
    }
    loop {
        let w = *rng.pick(ASCII_WS);
        if lines || !w.contains(['\n', '\r']) {
            return w;
        }
    }
}

/// Whether the body reads the same when it is written as text.
pub fn body_as_text(v: &Vocab, b: &Body) -> bool {
    b.chance.is_some() || b.syms.first().is_none_or(|s| v.names[*s].parse::<f32>().is_err())
}

fn chance_spelling(rng: &mut Rng, milli: u32) -> String {
    // More digits than anybody writes.
    let many = |rng: &mut Rng| if rng.chance(1, 40) { *rng.pick(&[60, 120, 300, 1_000, 5_000]) } else { rng.range(1, 24) };
    match rng.below(9) {
        6 => {
            let n = many(rng);
            format!("{}{}", chance_text(milli), "0".repeat(n))
        }
        7 => {
            let n = many(rng);
            format!("{}{}.{:03}", "0".repeat(n), milli / 1000, milli % 1000)
        }
        8 => format!("0.{}{milli}e{}", "0".repeat(25), 25 + milli.to_string().len() - 3),
        0 if milli < 1000 => format!(".{milli:03}"),
        1 => format!("{milli}e-3"),
        2 if milli == 1000 => "1".into(),
        3 if milli < 1000 => format!("0.{milli:03}000"),
        4 if milli < 1000 => format!("{}E-2", milli as f64 / 10.0),
        _ => chance_text(milli),
    }
}

/// The text of a rule with a single alternative, in a random layout.
/// `lines`: whether white space may include line breaks.
pub fn rule_text(rng: &mut Rng, v: &Vocab, r: &Rule, b: &Body, lines: bool) -> String {
    let mut o = String::new();
    if rng.chance(1, 6) {
        o += ws(rng, lines);
    }
    let list = |o: &mut String, rng: &mut Rng, s: &[usize]| {
        for x in s {
            o.push_str(&v.names[*x]);
            o.push_str(ws(rng, lines));
        }
    };
    if let Some(p) = &r.pre {
        list(&mut o, rng, p);
        o.push('<');
        o += ws(rng, lines);
    }
    o += &v.names[r.target];
    if let Some(p) = &r.post {
        o += ws(rng, lines);
        o.push('>');
        for x in p {
            o += ws(rng, lines);
            o += &v.names[*x];
        }
    }
    // The arrow may be attached to its neighbours, where that is unambiguous.
    if o.ends_with(is_op) || rng.chance(4, 5) {
        o += ws(rng, lines);
    }
    o += "->";
    let mut first = true;
    if let Some(c) = b.chance {
        let t = chance_spelling(rng, c);
        if t.starts_with(is_op) || rng.chance(4, 5) {
            o += ws(rng, lines);
        }
        o += &t;
        first = false;
    }
    for x in &b.syms {
        if !first || v.names[*x].starts_with(is_op) || rng.chance(4, 5) {
            o += ws(rng, lines);
        }
        o += &v.names[*x];
        first = false;
    }
    if rng.chance(1, 4) {
        o += ws(rng, lines);
    }
    o
}

/// Text of a production string, in a random layout.
pub fn string_text(rng: &mut Rng, v: &Vocab, s: &[usize]) -> String {
    string_text_in(rng, v, s, true)
}

/// `lines`: whether white space may include line breaks.
pub fn string_text_in(rng: &mut Rng, v: &Vocab, s: &[usize], lines: bool) -> String {
    let mut o = String::new();
    if rng.chance(1, 6) {
        o += ws(rng, lines);
    }
    let mut prev_op = None;
    for x in s {
        let n = &v.names[*x];
        let op = n.starts_with(is_op);
        let attach = matches!(prev_op, Some(p) if p != op) && rng.chance(1, 4);
        if !o.is_empty() && !attach {
            o += ws(rng, lines);
        }
        o += n;
        prev_op = Some(op);
    }
    if rng.chance(1, 4) {
        o += ws(rng, lines);
    }
    o
}

/// Adds the rule to a store in one of the ways there are. Returns what the last call returned.
pub fn add_rule<P: ProductionStore>(rng: &mut Rng, store: &P, v: &Vocab, r: &Rule) -> Result<Production, String> {
    let one_by_one = rng.chance(2, 3);
    if !one_by_one {
        let p = r.build(v)?;
        return lib("add_production", || store.add_production(p).map_err(|e| e.to_string()))?
            .map_err(|e| format!("rule {} is refused: {e}", r.show(v)));
    }
    let mut last = None;
    for b in &r.bodies {
        let single = Rule { bodies: vec![b.clone()], ..r.clone() };
        let how = if body_as_text(v, b) { rng.below(4) } else { 3 };
        let text = rule_text(rng, v, r, b, true);
        let got = lib("add_production", || match how {
            0 => store.add_production(text.as_str()).map_err(|e| e.to_string()),
            1 => store.add_production(text.clone()).map_err(|e| e.to_string()),
            2 => match text.parse::<Production>() {
                Ok(p) => store.add_production(p).map_err(|e| e.to_string()),
                Err(e) => Err(e.to_string()),
            },
            _ => store.add_production(single.build(v)?).map_err(|e| e.to_string()),
        })?;
        last = Some(got.map_err(|e| format!("rule {text:?} is refused: {e}"))?);
    }
    Ok(last.expect("a rule has a body"))
}
