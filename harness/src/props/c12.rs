//! Plant files.
use rusty_systems::interpretation::abop::{parser as plant, AbopTurtleInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen;
use crate::model::{check_rule, check_step, Body, Rule, Vocab};
use crate::plants::{self, Kind, Plant};
use crate::rng::Rng;

type Parsed = (AbopTurtleInterpretation, System, ProductionString);

fn check(rng: &mut Rng, v: &Vocab, p: &Plant, got: &Parsed) -> Case {
    let t = &p.text;
    let (i, sys, axiom) = got;
    ensure!(i.n() == p.n, "n is {} instead of {} in {t:?}", i.n(), p.n);
    ensure!(i.run_settings().max_iterations == p.n, "the system is to be derived {} times instead of {} in {t:?}", i.run_settings().max_iterations, p.n);
    ensure!(i.delta() == p.delta, "delta is {} instead of {} in {t:?}", i.delta(), p.delta);
    let a = v.back(axiom).map_err(|e| format!("{e} in {t:?}"))?;
    ensure!(a == p.axiom, "the axiom is {} instead of {} in {t:?}", v.show(&a), v.show(&p.axiom));
    let rules = p.rules();
    ensure!(sys.production_len() == rules.0.len(), "there are {} rules instead of {} in {t:?}", sys.production_len(), rules.0.len());
    for name in plants::TURTLE {
        ensure!(sys.get_symbol(name).is_some(), "the system does not know {name:?} in {t:?}");
    }
    for r in &rules.0 {
        for s in r.pre.iter().flatten().chain([&r.target]).chain(r.post.iter().flatten()).chain(r.bodies.iter().flat_map(|b| &b.syms)) {
            ensure!(
                sys.get_symbol(&v.names[*s]) == Some(v.syms[*s]),
                "the system does not know {:?}, which a rule uses, in {t:?}",
                v.names[*s]
            );
        }
    }
    // The rules and their order, seen through derivations...
    for _ in 0..3 {
        let len = rng.range(1, 30);
        let s = gen::string_for(rng, v.len(), &rules.0, len);
        let got = lib("derive_once", || sys.derive_once(v.string(&s)).map_err(|e| e.to_string()))?;
        check_step(v, &rules.0, &s, got, &format!("a system read from {t:?}"))?;
    }
    // ... and through what the system returns when one more alternative is added to each.
    for r in &rules.0 {
        let probe = Body { chance: None, syms: vec![0] };
        let mut want = r.clone();
        want.bodies.push(probe.clone());
        let one = Rule { bodies: vec![probe], ..r.clone() };
        let got = lib("add_production", || sys.add_production(one.build(v)?).map_err(|e| e.to_string()))??;
        check_rule(v, &want, &got, &format!("a system read from {t:?}"))?;
    }
    Ok(())
}

fn read(t: &str) -> Result<Result<Parsed, String>, String> {
    lib("plant parse", || plant::parse(t).map_err(|e| e.to_string())).map_err(|e| format!("{t:?}: {e}"))
}

fn good(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let kind = Kind {
        rules: *rng.pick(&[1, 2, 4, 8, 20]),
        random: rng.chance(1, 3),
        contexts: *rng.pick(&[0, 0, 1, 2]),
        body: *rng.pick(&[0, 2, 6, 20]),
        axiom: *rng.pick(&[1, 1, 3, 12]),
        max_n: *rng.pick(&[0, 1, 3, 12, 1000, usize::MAX - 1]),
        balanced: false,
    };
    let p = plants::plant(rng, v, kind);
    let got = read(&p.text)?.map_err(|e| format!("{:?} is refused: {e}", p.text))?;
    check(rng, v, &p, &got)?;
    cov.count("plants read", 1);
    cov.count("lines of rules", p.lines.len() as u64);
    cov.distinct(&p.text);
    cov.sample(|| format!("{:?}", p.text));
    Ok(())
}

/// Numbers with something odd in them: what reads as one counts, and the rest is refused.
fn numbers(rng: &mut Rng, cov: &mut Cov) -> Case {
    let word = "zz";
    for _ in 0..4 {
        let of_n = rng.chance(1, 2);
        let mut t: Vec<char> = rng.pick(&["3", "30", "0", "12.5", "3.0", "7e0", "0.5", "-4", "18446744073709551615", "1e38", "00", ".5", "5."]).chars().collect();
        for _ in 0..rng.below(3) {
            let c = *rng.pick(&['.', ',', '_', '-', '+', ' ', 'e', 'E', 'x', '0', '9', '٣', ';', '\'', 'f', '%', '°', '=', 'u', '\u{a0}', '½', 'i', '/', '*']);
            let at = rng.below(t.len() + 1);
            t.insert(at, c);
        }
        let t: String = t.into_iter().collect();
        let line = if of_n { plants::n_line(rng, &t) } else { plants::delta_line(rng, &t) };
        let text = format!("{line}\ninitial: {word}\n{word} -> {word} {word}");
        let got = read(&text)?;
        if of_n {
            match (t.trim().parse::<usize>(), got) {
                (Ok(n), Ok(got)) => ensure!(got.0.n() == n, "n is {} instead of {n} in {text:?}", got.0.n()),
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return Err(format!("{text:?} is refused: {e}")),
                (Err(e), Ok(got)) => return Err(format!("{text:?} is read, with {} for n: {e}", got.0.n())),
            }
        } else {
            match (t.trim().parse::<f32>().ok().filter(|d| d.is_finite()), got) {
                (Some(d), Ok(got)) => ensure!(got.0.delta().to_bits() == d.to_bits(), "delta is {} instead of {d} in {text:?}", got.0.delta()),
                (None, Err(_)) => {}
                (Some(_), Err(e)) => return Err(format!("{text:?} is refused: {e}")),
                (None, Ok(got)) => return Err(format!("{text:?} is read, with {} for delta, which is no number", got.0.delta())),
            }
        }
        cov.count("odd numbers", 1);
    }
    Ok(())
}

/// Angles next to the middle between two that can be represented: which of the two is the nearer is decided by the last
/// digit.
fn nearest(rng: &mut Rng, cov: &mut Cov) -> Case {
    let bits = (rng.range(0x3a00_0000, 0x4980_0000)) as u32;
    let (lo, hi) = (f32::from_bits(bits), f32::from_bits(bits + 1));
    let middle = (lo as f64 + hi as f64) / 2.0;
    let mut digits: Vec<char> = format!("{middle:.60}").chars().collect();
    while digits.last() == Some(&'0') {
        digits.pop();
    }
    let above = rng.chance(1, 2);
    let tail = rng.range(1, 30);
    let want = if above {
        digits.extend((0..tail).map(|_| '0'));
        digits.push('1');
        hi
    } else {
        // One less in the last place, and nines.
        for d in digits.iter_mut().rev() {
            match *d {
                '.' => {}
                '0' => *d = '9',
                x => {
                    *d = (x as u8 - 1) as char;
                    break;
                }
            }
        }
        digits.extend((0..tail).map(|_| '9'));
        lo
    };
    let negative = rng.chance(1, 4);
    let t: String = negative.then_some('-').into_iter().chain(digits).collect();
    let want = if negative { -want } else { want };
    let line = plants::delta_line(rng, &t);
    let text = format!("{line}\ninitial: A\nA -> A A");
    let got = read(&text)?.map_err(|e| format!("{text:?} is refused: {e}"))?;
    ensure!(got.0.delta().to_bits() == want.to_bits(), "delta is {} instead of {want}, which is nearer, in {text:?}", got.0.delta());
    cov.count("angles next to the middle of two", 1);
    Ok(())
}

/// Files of many kilobytes or megabytes, of which the end counts as much as the beginning.
fn big(rng: &mut Rng, v: &Vocab, path: &std::path::Path, cov: &mut Cov) -> Case {
    let kind = Kind { rules: 5, random: false, contexts: 1, body: 6, axiom: 5, max_n: 20, balanced: false };
    let mut p = plants::plant(rng, v, kind);
    let size = *rng.pick(&[4_000, 8_192, 66_000, 66_000, 140_000, 1_100_000, 3_300_000]);
    let mut filler = String::with_capacity(size + 100);
    let how = rng.below(4);
    while filler.len() < size {
        filler += match how {
            0 => "# a comment of no importance, with é and 日\n",
            1 => "\n",
            2 => "#\n   \n\t\n",
            _ => "                                          ",
        };
    }
    filler.push('\n');
    // At the beginning, at the end or between two lines.
    let mut cuts: Vec<usize> = vec![0, p.text.len()];
    cuts.extend(p.text.match_indices('\n').map(|(i, _)| i + 1));
    let at = *rng.pick(&cuts);
    let (head, tail) = p.text.split_at(at);
    let sep = if head.is_empty() || head.ends_with('\n') { "" } else { "\n" };
    let text = format!("{head}{sep}{filler}{tail}");
    p.text = format!("{head}{sep}[{} bytes that do not count]{tail}", filler.len());
    std::fs::write(path, &text).expect("scratch file");
    let by_file = lib("parse_file", || plant::parse_file(path).map_err(|e| e.to_string()))?.map_err(|e| format!("the file {:?} is refused: {e}", p.text))?;
    check(rng, v, &p, &by_file)?;
    let by_text = lib("plant parse", || plant::parse(&text).map_err(|e| e.to_string()))?.map_err(|e| format!("{:?} is refused: {e}", p.text))?;
    check(rng, v, &p, &by_text)?;
    // A line at the very end that cannot be read.
    let sep = if text.ends_with('\n') { "" } else { "\n" };
    let bad = format!("{text}{sep}A B");
    std::fs::write(path, &bad).expect("scratch file");
    ensure!(lib("parse_file", || plant::parse_file(path).is_err())?, "the file {:?}, followed by \"A B\", is read", p.text);
    let mut bytes = text.into_bytes();
    bytes.push(0xff);
    std::fs::write(path, &bytes).expect("scratch file");
    ensure!(lib("parse_file", || plant::parse_file(path).is_err())?, "the file {:?}, with a last byte that is no text, is read", p.text);
    cov.count("big files read", 1);
    cov.max("bytes in a file", bytes.len() as u64);
    Ok(())
}

/// One line that cannot be read, or one that is missing, spoils the file.
fn bad(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let kind = Kind { rules: 3, random: false, contexts: 1, body: 4, axiom: 4, max_n: 5, balanced: false };
    let p = plants::plant(rng, v, kind);
    let word = |rng: &mut Rng| v.names[rng.below(v.len())].clone();
    let rule = p.lines.iter().map(|r| plants::rule_line(rng, v, r)).collect::<Vec<_>>();
    let axiom = plants::initial_line(rng, v, &p.axiom);
    let mut settings = vec![plants::n_line(rng, "3"), plants::delta_line(rng, "30")];
    rng.shuffle(&mut settings);
    settings.truncate(rng.below(3));
    let what = rng.below(10);
    let line = match what {
        0 => {
            let bad = *rng.pick(&["-1", "1.5", "x", "", "1 2", "0x10", "18446744073709551616", "1e3", "٣", "3;", "inf", "99999999999999999999999", "1_000", "3,0", "- 1"]);
            plants::n_line(rng, bad)
        }
        1 => {
            let bad = *rng.pick(&["x", "", "1,5", "1 5", "0x10", "22.5deg", "٣", "1.2.3", "--1", "90°", "e", ".", "1e", "nan", "inf", "-inf", "NaN", "infinity", "1e39", "- 1", "1_0"]);
            plants::delta_line(rng, bad)
        }
        2 => {
            let name = *rng.pick(&["foo", "angle", "nn", "iterations", "", "n n", "deltas", "dd", "seed", "x", "width", "delta n"]);
            format!("{name} = {}", rng.below(10))
        }
        3 => format!("{} {}", word(rng), word(rng)),
        4 => format!("{} {} -> {}", word(rng), word(rng), word(rng)),
        5 => format!("-> {}", word(rng)),
        6 => format!("{} -> {} {}", word(rng), rng.pick(&["0", "1.5", "-0.5", "2", "nan", "inf", "-0"]), word(rng)),
        7 => word(rng),
        8 => format!("{} -> {}{}{}", word(rng), word(rng), rng.pick(&[" = ", " =", "= ", "=", " = 3 = "]), word(rng)),
        _ => format!("{} < > {} -> {}", word(rng), word(rng), word(rng)),
    };
    let mut t = plants::weave(rng, vec![rule.clone(), vec![axiom.clone()], settings.clone(), vec![line.clone()]]);
    let text = plants::join(rng, &t);
    ensure!(read(&text)?.is_err(), "{text:?} is read although the line {line:?} means nothing");
    // An axiom that cannot be read.
    let broken = format!("initial: {} {} {}", word(rng), rng.pick(&["->", "<", ">"]), word(rng));
    t = plants::weave(rng, vec![rule.clone(), vec![broken.clone()], settings.clone()]);
    let text = plants::join(rng, &t);
    ensure!(read(&text)?.is_err(), "{text:?} is read although {broken:?} has a reserved word");
    // Nothing but settings and comments, no axiom, no rule.
    let noise: Vec<String> = (0..rng.below(4)).map(|_| rng.pick(&["", "# initial: A", "# A -> B", "  ", "#"]).to_string()).collect();
    for (what, queues) in [
        ("a rule", vec![vec![axiom.clone()], settings.clone(), noise.clone()]),
        ("an axiom", vec![rule.clone(), settings.clone(), noise.clone()]),
        ("anything", vec![settings.clone(), noise.clone()]),
        ("anything", vec![noise.clone()]),
    ] {
        let lines = plants::weave(rng, queues);
        let text = plants::join(rng, &lines);
        ensure!(read(&text)?.is_err(), "{text:?} is read although it lacks {what}");
    }
    // The same without the bad line is fine.
    let lines = plants::weave(rng, vec![rule, vec![axiom], settings]);
    let text = plants::join(rng, &lines);
    read(&text)?.map_err(|e| format!("{text:?} is refused: {e}"))?;
    cov.count("files refused", 6);
    cov.distinct(&text);
    Ok(())
}

fn files(rng: &mut Rng, v: &Vocab, i: u64, cov: &mut Cov) -> Case {
    let dir = std::env::temp_dir().join(format!("mon-c12-{}-{i}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let r = (|| -> Case {
        let kind = Kind { rules: 5, random: false, contexts: 1, body: 6, axiom: 5, max_n: 20, balanced: false };
        let p = plants::plant(rng, v, kind);
        let path = dir.join(*rng.pick(&["a.plant", "b", "ü 日.plant", ".hidden", "x.svg"]));
        std::fs::write(&path, &p.text).expect("scratch file");
        let got = lib("parse_file", || plant::parse_file(&path).map_err(|e| e.to_string()))?.map_err(|e| format!("the file {:?} is refused: {e}", p.text))?;
        check(rng, v, &p, &got)?;
        let by_str = lib("parse_file", || plant::parse_file(path.to_str().unwrap()).map_err(|e| e.to_string()))??;
        check(rng, v, &p, &by_str)?;
        for other in [dir.join("missing"), dir.clone(), path.join("below"), std::path::PathBuf::new()] {
            ensure!(lib("parse_file", || plant::parse_file(&other).is_err())?, "{other:?} is read as a plant");
        }
        let mut bytes = p.text.clone().into_bytes();
        let at = rng.below(bytes.len() + 1);
        bytes.insert(at, 0xff);
        std::fs::write(&path, &bytes).expect("scratch file");
        ensure!(lib("parse_file", || plant::parse_file(&path).is_err())?, "a file that is not text is read as a plant");
        cov.count("files read", 2);
        if i % 400 == 0 {
            big(rng, v, &path, cov)?;
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// The same lines in every placement of the settings and the axiom.
fn placements(rng: &mut Rng, v: &Vocab, cov: &mut Cov) -> Case {
    let rules: Vec<Rule> = (0..2)
        .map(|k| Rule { pre: None, target: k, post: None, bodies: vec![Body { chance: None, syms: gen::syms(rng, v.len(), 3) }] })
        .filter(|r| gen::body_as_text(v, &r.bodies[0]))
        .collect();
    if rules.len() < 2 {
        return Ok(());
    }
    let axiom = gen::syms(rng, v.len(), 3);
    let items: Vec<String> = vec![
        plants::rule_line(rng, v, &rules[0]),
        plants::rule_line(rng, v, &rules[1]),
        plants::initial_line(rng, v, &axiom),
        plants::n_line(rng, "4"),
        plants::delta_line(rng, "12.5"),
    ];
    // All 120 orders; that of the two rules matters only for precedence, which their targets rule out.
    let mut perm = [0, 1, 2, 3, 4];
    fn go(k: usize, perm: &mut [usize; 5], f: &mut dyn FnMut(&[usize; 5]) -> Case) -> Case {
        if k == 5 {
            return f(perm);
        }
        for i in k..5 {
            perm.swap(k, i);
            go(k + 1, perm, f)?;
            perm.swap(k, i);
        }
        Ok(())
    }
    let mut n = 0;
    go(0, &mut perm, &mut |perm| {
        let lines: Vec<String> = perm.iter().map(|i| items[*i].clone()).collect();
        let text = plants::join(rng, &lines);
        let mut lines = rules.clone();
        if perm.iter().position(|x| *x == 1) < perm.iter().position(|x| *x == 0) {
            lines.reverse();
        }
        let p = Plant { n: 4, delta: 12.5, axiom: axiom.clone(), lines, text };
        let got = read(&p.text)?.map_err(|e| format!("{:?} is refused: {e}", p.text))?;
        n += 1;
        check(rng, v, &p, &got)
    })?;
    cov.count("plants read", n);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    let n = *rng.pick(&[0, 1, 2, 5, 10]);
    let v = plants::vocab(rng, n)?;
    for _ in 0..4 {
        good(rng, &v, cov)?;
    }
    bad(rng, &v, cov)?;
    numbers(rng, cov)?;
    nearest(rng, cov)?;
    if i % 10 == 0 {
        files(rng, &v, i, cov)?;
    }
    if i % 40 == 1 {
        placements(rng, &v, cov)?;
    }
    Ok(())
}
