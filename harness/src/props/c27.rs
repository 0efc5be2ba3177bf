//! The lsystem tool describes its symbols, from the outside.
use std::collections::BTreeMap;
use std::ffi::OsString;

use rusty_systems::interpretation::abop::abop_family;

use super::c15::{failed, listing, run, shown, Faults, Scratch, Stdout};
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::rng::Rng;
use crate::turtle;

/// Without the escape sequences for colours.
fn plain(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Names with their descriptions, once each.
type Section = BTreeMap<String, String>;

fn family() -> Result<[Section; 2], String> {
    let f = lib("abop_family", abop_family)?;
    let mut out: [Section; 2] = Default::default();
    for t in f.terminals() {
        out[0].insert(t.name.clone(), t.description.clone().unwrap_or_default());
    }
    for t in f.productions() {
        out[1].insert(t.name.clone(), t.description.clone().unwrap_or_default());
    }
    // The description is of what the turtle does.
    for (n, _) in turtle::NAMES.iter() {
        ensure!(out.iter().any(|s| s.contains_key(*n)), "the turtle's family lacks {n}");
    }
    Ok(out)
}

fn complete(out: &str) -> Case {
    let want = family()?;
    let mut got: [Section; 2] = Default::default();
    let mut section = None;
    for line in plain(out).lines() {
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        let low = line.to_lowercase();
        let (name, rest) = line.split_once(char::is_whitespace).unwrap_or((line, ""));
        if section != Some(0) && low.starts_with("terminals") {
            section = Some(0);
        } else if section != Some(1) && low.starts_with("productions") {
            section = Some(1);
        } else if let Some(s) = section {
            let old = got[s].insert(name.to_string(), rest.trim().to_string());
            ensure!(old.is_none(), "{name} is described twice");
        } else {
            return Err(format!("{line:?} comes before the first heading"));
        }
    }
    for (k, what) in ["terminals", "productions"].iter().enumerate() {
        ensure!(got[k] == want[k], "the {what} are given as {:?} instead of {:?}", got[k], want[k]);
    }
    Ok(())
}

fn args(rng: &mut Rng) -> Vec<OsString> {
    let a: &[&str] = rng.pick::<&[&str]>(&[&["describe"], &["describe"], &["-v", "describe"], &["describe", "--verbose"], &["--verbose", "describe"], &["describe", "-v"]]);
    a.iter().map(OsString::from).collect()
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    let s = Scratch::new(i);
    let dir = s.0.join("d");
    std::fs::create_dir_all(&dir).expect("scratch");
    for f in ["out.svg", "p", "describe.svg"] {
        if rng.chance(1, 2) {
            std::fs::write(dir.join(f), "initial: X\nX -> X").expect("scratch");
        }
    }
    let before = listing(&dir);
    let a = args(rng);
    let mut faults = Faults::default();
    let mut stdout = Stdout::Pipe;
    let mut hopeless = false;
    match rng.below(10) {
        0 => (),
        1 => {
            stdout = Stdout::Full;
            hopeless = true;
        }
        2 => {
            stdout = Stdout::Broken;
            hopeless = true;
        }
        3 => {
            // Neither text nor descriptions: only that it is given.
            let w: &[&str] = rng.pick::<&[&str]>(&[&["--help"], &["--version"], &["help"], &["describe", "--help"], &["interpret", "--help"], &["help", "interpret"]]);
            let w: Vec<OsString> = w.iter().map(OsString::from).collect();
            let r = run(&dir, &s.0, &w, Stdout::Pipe, &Faults::default())?;
            ensure!(r.code == Some(0) && !r.out.trim().is_empty(), "lsystem {} exits with {:?} and says {:?}", shown(&w), r.code, r.out);
            ensure!(listing(&dir) == before, "lsystem {} changes files", shown(&w));
            cov.count("helps", 1);
            cov.distinct(&shown(&w));
            return Ok(());
        }
        k => {
            let mut words: Vec<String> = vec![];
            let mild = k < 6;
            for _ in 0..rng.range(0, 16) {
                words.push(match rng.below(4) {
                    0 => "w:EINTR".to_string(),
                    1 => format!("w:s{}", rng.range(1, 30)),
                    _ => "w:n".to_string(),
                });
            }
            let star = if rng.chance(1, 2) { "*" } else { "" };
            if mild {
                words.push(format!("w:s{}*", rng.range(1, 20)));
            } else {
                words.push(format!("w:{}{star}", rng.pick(&["EIO", "ENOSPC", "EPIPE", "EAGAIN", "EDQUOT", "EFBIG"])));
            }
            faults.plan = Some(words.join(" "));
            faults.std = true;
        }
    }
    let what = format!("lsystem {} with faults {:?} of standard output", shown(&a), faults.plan.as_deref().unwrap_or(if hopeless { "all writes fail" } else { "none" }));
    let r = run(&dir, &s.0, &a, stdout, &faults)?;
    let log = std::fs::read_to_string(s.0.join("faults")).unwrap_or_default();
    let hard = hopeless || log.lines().any(|l| l.contains(" E") && !l.ends_with("EINTR"));
    ensure!(listing(&dir) == before, "{what}: files have changed");
    ensure!(r.signal.is_none(), "{what}: the tool is ended by signal {:?}", r.signal);
    if hard {
        failed(&r, &what)?;
        ensure!(complete(&r.out).is_err() || faults.plan.is_some(), "{what}: harness: everything was written");
        cov.count("descriptions that cannot be written", 1);
    } else {
        ensure!(r.code == Some(0), "{what}: the tool exits with {:?}: {}", r.code, r.err);
        ensure!(r.err.trim().is_empty(), "{what}: success, but standard error says {:?}", r.err);
        complete(&r.out).map_err(|e| format!("{what}: {e}"))?;
        cov.count("descriptions complete", 1);
    }
    cov.count("faults injected", log.lines().count() as u64);
    cov.distinct(&format!("{what} {log}"));
    cov.sample(|| what);
    Ok(())
}
