//! Hostile text.
use rusty_systems::interpretation::abop::{parser as plant, AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::SvgElement;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{parse_prod_string, parse_production, parse_production_body, parse_production_head};
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;

use crate::core::{lib, utf8, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::rng::Rng;

pub fn short(t: &str) -> String {
    if t.len() <= 300 {
        return format!("{t:?}");
    }
    let cut: String = t.chars().take(120).collect();
    format!("{cut:?}... ({} bytes)", t.len())
}

/// What comes out of a parser can be used.
fn use_string(sys: &System, s: ProductionString) -> Result<(), Error> {
    let _ = s.to_string().len() + format!("{s:?}").len();
    let mut s = s;
    for _ in 0..3 {
        if s.len() > 20_000 {
            break;
        }
        s = match sys.derive_once(s) {
            Ok(s) => s,
            Err(e) => {
                let _ = e.to_string();
                return Err(e);
            }
        };
    }
    let _ = s.to_string();
    let t = AbopTurtleInterpretation::new(1, 33.5);
    let _ = t.interpret(sys, &s).map(|p| p.len());
    let _ = AbopSvgInterpretation::new(70, 30).interpret(sys, &s).map(|svg| svg.to_svg().len());
    Ok(())
}

fn use_rule(p: Production) {
    let _ = format!("{p:?}").len();
    let h = p.head().clone();
    let mut text: Vec<Symbol> = vec![];
    if let Some(pre) = h.pre_context() {
        let _ = pre.to_string();
        text.extend(pre.iter());
    }
    text.push(*h.target());
    if let Some(post) = h.post_context() {
        let _ = post.to_string();
        text.extend(post.iter());
    }
    for b in p.all_bodies() {
        let _ = (b.string().to_string(), format!("{:?}", b.chance()), b.len());
    }
    let s = ProductionString::from(text);
    for i in 0..s.len().min(40) + 2 {
        let _ = p.matches(&s, i);
    }
    let _ = p.body().map(|b| b.len());
    let _ = p.all_symbols_iter_count();
    let sys = System::new();
    if sys.add_production(p.clone()).is_ok() {
        let mut twice = p.clone();
        twice.merge(p);
        let _ = twice.body().map(|b| b.len());
        let _ = sys.add_production(twice);
        let _ = use_string(&sys, s);
    }
}

trait Symbols {
    fn all_symbols_iter_count(&self) -> usize;
}

impl Symbols for Production {
    fn all_symbols_iter_count(&self) -> usize {
        use rusty_systems::symbols::iterator::SymbolIterable;
        self.all_symbols_iter().count()
    }
}

pub struct Fed {
    ok: u64,
    err: u64,
}

/// Gives the text to everything that reads text.
pub fn feed(t: &str, deep: bool) -> Result<Fed, String> {
    let mut f = Fed { ok: 0, err: 0 };
    let mut tally = |ok: bool| if ok { f.ok += 1 } else { f.err += 1 };
    let at = |e: String| format!("{}: {e}", short(t));
    let mut bad = None;
    let r = lib("TokenIterator", || TokenIterator::new(t).for_each(|k| bad = bad.take().or(utf8("a token", k.text).err())));
    if let Some(b) = bad {
        return Err(b);
    }
    r.map_err(at)?;
    tally(lib("TokenIterator", || TokenIterator::new(t).map(|t| t.to_string().len() + t.text.len()).sum::<usize>() > 0).map_err(at)?);
    let r = lib("parse_prod_string", || parse_prod_string(t)).map_err(at)?;
    tally(r.is_ok());
    match r {
        Ok(s) => {
            let shown = lib("Display", || s.to_string()).map_err(at)?;
            utf8("the display of a string", &shown)?;
            let sys = AbopTurtleInterpretation::system().map_err(|e| e.to_string())?;
            lib("using a string that was read", || use_string(&sys, s)).map_err(at)?.map_err(|e| at(e.to_string()))?;
        }
        Err(e) => ensure!(!e.to_string().is_empty(), "{}: an error without a message", short(t)),
    }
    let r = lib("parse_production", || parse_production(t)).map_err(at)?;
    tally(r.is_ok());
    if let Ok(p) = r {
        lib("using a rule that was read", || use_rule(p)).map_err(at)?;
    }
    let r = lib("parse_production_head", || parse_production_head(t)).map_err(at)?;
    tally(r.is_ok());
    if let Ok(h) = r {
        lib("using a head that was read", || format!("{h:?}").len()).map_err(at)?;
    }
    let r = lib("parse_production_body", || parse_production_body(t)).map_err(at)?;
    tally(r.is_ok());
    if let Ok(b) = r {
        lib("using a body that was read", || {
            let head = parse_production_head("H").unwrap();
            use_rule(Production::new(head, b));
        })
        .map_err(at)?;
    }
    let r = lib("Symbol::build", || Symbol::build(t)).map_err(at)?;
    tally(r.is_ok());
    if let Ok(s) = r {
        let (n, s, d) = lib("using a symbol that was read", || (s.name(), s.to_string(), format!("{s:?}"))).map_err(at)?;
        for x in [n.as_deref().unwrap_or(""), &s, &d] {
            utf8("a symbol", x)?;
        }
    }
    tally(lib("Symbol from_str", || t.parse::<Symbol>().is_ok()).map_err(at)?);
    tally(lib("Symbol try_from", || Symbol::try_from(t).is_ok() == Symbol::try_from(t.to_string()).is_ok()).map_err(at)?);
    tally(lib("ProductionString from_str", || t.parse::<ProductionString>().is_ok()).map_err(at)?);
    tally(lib("Production from_str", || t.parse::<Production>().is_ok()).map_err(at)?);
    tally(lib("Production try_from", || Production::try_from(t).is_ok() == Production::try_from(t.to_string()).is_ok()).map_err(at)?);
    let sys = System::new();
    tally(lib("add_production", || sys.add_production(t).is_ok()).map_err(at)?);
    tally(lib("add_symbol", || sys.add_symbol(t).is_ok()).map_err(at)?);
    tally(lib("get_symbol", || sys.get_symbol(t).is_some()).map_err(at)?);
    let r = lib("plant parse", || plant::parse(t)).map_err(at)?;
    tally(r.is_ok());
    if let Ok((i, sys, s)) = r {
        let _ = lib("using a plant that was read", || {
            let _ = format!("{i:?}").len();
            let one = AbopTurtleInterpretation::new(1, i.delta());
            let _ = use_string(&sys, s.clone());
            let _ = one.interpret(&sys, &s).map(|p| p.len());
            let _ = AbopSvgInterpretation::new_with(10, 10, one).interpret(&sys, &s).map(|svg| svg.to_svg().len());
        })
        .map_err(at)?;
    }
    if deep {
        // The same with something valid around it.
        for w in [format!("A -> {t}"), format!("{t} -> A"), format!("A < {t}"), format!("initial: {t}\nA -> B"), format!("initial: A\nA -> {t}\n{t}"), format!("n = {t}\ndelta = {t}\ninitial: A\nA -> A")] {
            let at = |e: String| format!("{}: {e}", short(&w));
            if let Ok(p) = lib("parse_production", || parse_production(&w)).map_err(at)? {
                lib("using a rule that was read", || use_rule(p)).map_err(at)?;
                tally(true);
            }
            if let Ok((i, sys, s)) = lib("plant parse", || plant::parse(&w)).map_err(at)? {
                let _ = lib("using a plant that was read", || {
                    let _ = use_string(&sys, s.clone());
                    let _ = AbopTurtleInterpretation::new(1, i.delta()).interpret(&sys, &s).map(|p| p.len());
                })
                .map_err(at)?;
                tally(true);
            }
        }
    }
    Ok(f)
}

const FRAGMENTS: &[&str] = &[
    "", " ", "\n", "\r\n", "\t", "\u{a0}", "\u{85}", "\u{2003}", "\u{3000}", "\u{feff}", "\u{2028}", "\0", "a", "A", "é", "日", "\u{1F600}", "e\u{301}",
    "->", "<", ">", "-", "+", "(", ")", ";", ";;", "--", ">-", "<-", "-<", "→", "=", "#", ":", "initial:", "initial", "n", "N", "d", "D", "delta", "∂",
    "n=", "n = 3", "delta = 20", "0", "-0", "1", "0.5", "1.0", "1.5", "1e-3", "inf", "-inf", "nan", "NaN", "1e999", "-1e999", "1e-999", "99999999999999999999",
    "-1", "+1", "0x10", "1_0", "٣", "²", "½", "Ⅷ", "Forward", "Move", "X", "[", "]", "[[", "{", "}", "%", "%s", "{}", "{0}", "\\", "\"", "'", "`", "$", "&",
    "A -> B", "A -> 0.5 B", "A -> 0 B", "A < B > C -> D", "initial: A", "\u{200b}", "\u{202e}", "\u{10FFFF}",
];

pub fn any_text(rng: &mut Rng, ws: &[char]) -> String {
    let mut t = String::new();
    match rng.below(5) {
        0 => {
            for _ in 0..rng.below(40) {
                if let Some(c) = char::from_u32(match rng.below(5) {
                    0 | 1 => rng.below(0x80) as u32,
                    2 => rng.below(0x800) as u32,
                    3 => rng.below(0x10000) as u32,
                    _ => rng.below(0x110000) as u32,
                }) {
                    t.push(c);
                }
            }
        }
        1 | 2 => {
            for _ in 0..rng.below(14) {
                t += rng.pick(FRAGMENTS);
                if rng.chance(1, 3) {
                    t.push(' ');
                }
            }
        }
        3 => {
            // Lines of a plant, some of them damaged.
            for _ in 0..rng.range(1, 8) {
                match rng.below(6) {
                    0 => t += &format!("{} = {}", rng.pick(&["n", "N", "d", "delta", "∂", "x", "", "n n"]), rng.pick(FRAGMENTS)),
                    1 => t += &format!("initial: {} {}", rng.pick(FRAGMENTS), rng.pick(FRAGMENTS)),
                    2 => t += &format!("{} -> {} {}", rng.pick(FRAGMENTS), rng.pick(FRAGMENTS), rng.pick(FRAGMENTS)),
                    3 => t += &format!("# {}", rng.pick(FRAGMENTS)),
                    _ => t += "A -> A + [ Forward A ]",
                }
                t += rng.pick(&["\n", "\r\n", "\n\n", "\r", "\u{2028}", " # x\n"]);
            }
        }
        _ => {
            // White space of every kind around little.
            for _ in 0..rng.below(12) {
                t.push(*rng.pick(ws));
                if rng.chance(1, 2) {
                    t += rng.pick(FRAGMENTS);
                }
            }
        }
    }
    // Damage.
    for _ in 0..rng.below(4) {
        if t.is_empty() {
            break;
        }
        let cs: Vec<char> = t.chars().collect();
        let i = rng.below(cs.len());
        let mut cs = cs;
        match rng.below(4) {
            0 => {
                cs.remove(i);
            }
            1 => cs.insert(i, *rng.pick(&['<', '>', '-', ';', '=', '#', ':', '\u{3000}', '\0', '\n', 'é'])),
            2 => cs[i] = *rng.pick(&['0', '.', 'e', '-', ' ', '\u{85}', '日']),
            _ => {
                let j = rng.below(cs.len());
                cs.swap(i, j);
            }
        }
        t = cs.into_iter().collect();
    }
    t
}

/// A plant file of arbitrary bytes.
fn file(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    let dir = std::env::temp_dir().join(format!("mon-c11-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join(format!("{i}.plant"));
    let mut b = any_text(rng, &[' ', '\u{3000}']).into_bytes();
    for _ in 0..rng.below(4) {
        let at = rng.below(b.len() + 1);
        b.insert(at, rng.next() as u8);
    }
    std::fs::write(&path, &b).expect("scratch file");
    let r = lib("parse_file", || plant::parse_file(&path).map(|_| ()).map_err(|e| e.to_string()));
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    let r = r.map_err(|e| format!("a file of the bytes {b:?}: {e}"))?;
    if std::str::from_utf8(&b).is_err() {
        ensure!(r.is_err(), "a file that is not text, {b:?}, is read");
    }
    cov.count("files of arbitrary bytes", 1);
    Ok(())
}

/// What the unchanged code needs is a small part of this.
const STACK: usize = 192 << 10;

/// Texts so long that work which is not bounded by their size would show.
fn huge(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    let size = if tier == Tier::Quick { 300_000 } else { 2_000_000 };
    let piece = match i % 20 {
        15 => "[ ".to_string(),
        16 => format!("{} [ + ", rng.pick(&["F", "f", "a", "]"])),
        17 => "] ".into(),
        18 => format!("[ {} ] ", rng.pick(&["F", "[ F ]", ""])),
        0 => "a".into(),
        1 => " ".into(),
        2 => "\u{3000}".into(),
        3 => "-".into(),
        4 => "<".into(),
        5 => "a -> ".into(),
        6 => "+ ".into(),
        7 => "a ".into(),
        8 => "( ".into(),
        9 => "1".into(),
        10 => "A -> A\n".into(),
        11 => "n = 1\n".into(),
        12 => "#".into(),
        13 => "é+".into(),
        14 => "A < ".into(),
        _ => format!("{} ", rng.pick(FRAGMENTS).replace('\n', "")),
    };
    let head = *rng.pick(&["", "A -> ", "initial: ", "initial: A\nA -> B\n", "0.5 ", "0."]);
    let tail = *rng.pick(&["", " -> B", "\ninitial: A", ";", "\nA -> B"]);
    // Every rule added to a system is returned with all alternatives merged so far: adding very
    // many with one head takes time that grows with their square, by the interface.
    let size = if piece.contains("->") && piece.contains('\n') { size / 20 } else { size };
    let t = format!("{head}{}{tail}", piece.repeat(size / piece.len().max(1)));
    // A stack that work which nests as the text grows would soon fill.
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || feed(&t, false)).expect("a thread");
        h.join().expect("feed does not panic")
    })?;
    cov.count("long texts", 1);
    cov.max("bytes in a text", t.len() as u64);
    cov.distinct(&t);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    const N: u64 = 400;
    if i < N {
        // Every pair of fragments, glued and apart, and some triples.
        let all = FRAGMENTS.len() as u64;
        let mut x = i;
        while x < all * all {
            let (a, b) = (FRAGMENTS[(x / all) as usize], FRAGMENTS[(x % all) as usize]);
            for t in [format!("{a}{b}"), format!("{a} {b}"), format!("{a}{b}{}", rng.pick(FRAGMENTS)), format!("{} {a}\n{b}", rng.pick(FRAGMENTS))] {
                let f = feed(&t, true)?;
                cov.count("values read", f.ok);
                cov.count("texts refused", f.err);
                cov.count("texts", 1);
            }
            x += N;
        }
        cov.distinct(&format!("pairs {i}"));
        return Ok(());
    }
    if i % 53 == 0 {
        return huge(rng, i / 53, cov, tier);
    }
    let ws = gen::unicode_ws();
    for _ in 0..12 {
        let t = any_text(rng, &ws);
        let f = feed(&t, true)?;
        cov.count("values read", f.ok);
        cov.count("texts refused", f.err);
        cov.count("texts", 1);
        cov.distinct(&t);
        cov.sample(|| format!("{t:?}"));
    }
    if i % 8 == 0 {
        file(rng, i, cov)?;
    }
    Ok(())
}

/// A handful of texts under Miri.
pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let ws = ['\u{3000}', '\u{85}', ' ', '\u{2003}'];
    let mut n = 0;
    for _ in 0..2 {
        let t = any_text(rng, &ws);
        n += feed(&t, false)?.ok;
    }
    Ok(format!("read={n} case=#{}", rng.next() % 100_000))
}
