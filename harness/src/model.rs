//! Reference models, written from the documented meaning and independent of the library's code.

use std::collections::HashMap;

use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

use crate::core::{lib, Case};
use crate::ensure;

/// The symbols a case works with. Models speak of indices, the library of codes.
pub struct Vocab {
    pub names: Vec<String>,
    pub syms: Vec<Symbol>,
    idx: HashMap<u32, usize>,
}

impl Vocab {
    pub fn new(names: Vec<String>) -> Result<Vocab, String> {
        let mut syms = Vec::new();
        let mut idx = HashMap::new();
        for (i, n) in names.iter().enumerate() {
            let s = lib("Symbol::build", || Symbol::build(n).map_err(|e| e.to_string()))?
                .map_err(|e| format!("symbol {n:?} is refused: {e}"))?;
            if let Some(j) = idx.insert(s.code(), i) {
                let other: &String = &names[j];
                return Err(format!("names {other:?} and {n:?} share code {}", s.code()));
            }
            syms.push(s);
        }
        Ok(Vocab { names, syms, idx })
    }
    pub fn len(&self) -> usize {
        self.names.len()
    }
    pub fn string(&self, s: &[usize]) -> ProductionString {
        ProductionString::from(s.iter().map(|i| self.syms[*i]).collect::<Vec<_>>())
    }
    pub fn text(&self, s: &[usize]) -> String {
        s.iter().map(|i| self.names[*i].as_str()).collect::<Vec<_>>().join(" ")
    }
    pub fn back(&self, s: &ProductionString) -> Result<Vec<usize>, String> {
        s.symbols()
            .iter()
            .map(|c| {
                self.idx
                    .get(&c.code())
                    .copied()
                    .ok_or_else(|| format!("the result has a symbol that nobody put there: {c} (code {})", c.code()))
            })
            .collect()
    }
    pub fn show(&self, s: &[usize]) -> String {
        if s.len() <= 60 {
            return format!("[{}]", self.text(s));
        }
        format!("[{} ...] ({} symbols)", self.text(&s[..60]), s.len())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    /// In thousandths, so that sums are exact.
    pub chance: Option<u32>,
    pub syms: Vec<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub pre: Option<Vec<usize>>,
    pub target: usize,
    pub post: Option<Vec<usize>>,
    pub bodies: Vec<Body>,
}

pub fn chance_text(milli: u32) -> String {
    if milli == 1000 {
        "1.0".into()
    } else {
        format!("0.{milli:03}")
    }
}

impl Rule {
    pub fn same_head(&self, o: &Rule) -> bool {
        self.pre == o.pre && self.target == o.target && self.post == o.post
    }
    pub fn total(&self) -> u32 {
        self.bodies.iter().filter_map(|b| b.chance).sum()
    }
    pub fn matches(&self, s: &[usize], i: usize) -> bool {
        if i >= s.len() || s[i] != self.target {
            return false;
        }
        if let Some(pre) = &self.pre {
            if pre.len() > i || s[i - pre.len()..i] != pre[..] {
                return false;
            }
        }
        if let Some(post) = &self.post {
            if post.len() > s.len() - i - 1 || s[i + 1..i + 1 + post.len()] != post[..] {
                return false;
            }
        }
        true
    }
    pub fn show(&self, v: &Vocab) -> String {
        let mut o = String::new();
        if let Some(p) = &self.pre {
            o += &format!("{} < ", v.text(p));
        }
        o += &v.names[self.target];
        if let Some(p) = &self.post {
            o += &format!(" > {}", v.text(p));
        }
        o += " ->";
        for (i, b) in self.bodies.iter().enumerate() {
            if i > 0 {
                o += " |";
            }
            if i > 12 {
                o += " ...";
                break;
            }
            if let Some(c) = b.chance {
                o += &format!(" {}", chance_text(c));
            }
            if b.syms.len() > 40 {
                o += &format!(" ({} symbols)", b.syms.len());
            } else {
                o += &format!(" {}", v.text(&b.syms));
            }
        }
        o
    }
    pub fn head(&self, v: &Vocab) -> Result<ProductionHead, String> {
        lib("ProductionHead::build", || {
            ProductionHead::build(
                self.pre.as_ref().map(|p| v.string(p)),
                v.syms[self.target],
                self.post.as_ref().map(|p| v.string(p)),
            )
            .map_err(|e| e.to_string())
        })?
    }
    /// The rule with all its bodies, built without parsing.
    pub fn build(&self, v: &Vocab) -> Result<Production, String> {
        let head = self.head(v)?;
        let mut bodies = self.bodies.iter();
        let first = bodies.next().expect("a rule has a body").build(v)?;
        let mut p = Production::new(head, first);
        for b in bodies {
            p.add_body(b.build(v)?);
        }
        Ok(p)
    }
}

impl Body {
    pub fn build(&self, v: &Vocab) -> Result<ProductionBody, String> {
        let s = v.string(&self.syms);
        match self.chance {
            None => Ok(ProductionBody::new(s)),
            Some(c) => {
                let f: f32 = chance_text(c).parse().unwrap();
                lib("try_with_chance", || ProductionBody::try_with_chance(f, s).map_err(|e| e.to_string()))?
                    .map_err(|e| format!("chance {f} is refused: {e}"))
            }
        }
    }
}

/// The rules of a system: merged by head, in the order their heads first appeared.
#[derive(Clone, Default)]
pub struct Rules(pub Vec<Rule>);

impl Rules {
    pub fn add(&mut self, r: &Rule) -> usize {
        if let Some(i) = self.0.iter().position(|x| x.same_head(r)) {
            self.0[i].bodies.extend(r.bodies.iter().cloned());
            return i;
        }
        self.0.push(r.clone());
        self.0.len() - 1
    }
}

/// The first rule that matches.
pub fn find(rules: &[Rule], s: &[usize], i: usize) -> Option<usize> {
    rules.iter().position(|r| r.matches(s, i))
}

/// What each position may become. None when the step must be refused because a rule that
/// applies has chances that total more than one.
pub fn step<'a>(rules: &'a [Rule], s: &'a [usize]) -> Option<Vec<Vec<&'a [usize]>>> {
    let mut out = Vec::with_capacity(s.len());
    let totals: Vec<u32> = rules.iter().map(|r| r.total()).collect();
    let mut by_target: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, r) in rules.iter().enumerate() {
        by_target.entry(r.target).or_default().push(i);
    }
    for i in 0..s.len() {
        let found = by_target.get(&s[i]).and_then(|c| c.iter().find(|r| rules[**r].matches(s, i)));
        match found {
            None => out.push(vec![&s[i..i + 1]]),
            Some(r) => {
                let r = *r;
                if rules[r].bodies.len() > 1 && totals[r] > 1000 {
                    return None;
                }
                out.push(rules[r].bodies.iter().map(|b| &b.syms[..]).collect());
            }
        }
    }
    Some(out)
}

/// One deterministic step: every rule has a single body.
pub fn step_det(rules: &[Rule], s: &[usize]) -> Vec<usize> {
    let alts = step(rules, s).expect("a single body is never refused");
    let mut out = Vec::new();
    for a in alts {
        out.extend_from_slice(a[0]);
    }
    out
}

/// Whether `out` is a concatenation of one alternative per position.
pub fn member(alts: &[Vec<&[usize]>], out: &[usize]) -> bool {
    let mut at = vec![0usize];
    for a in alts {
        let mut next = Vec::with_capacity(at.len());
        for o in &at {
            for piece in a {
                if out[*o..].starts_with(piece) {
                    next.push(o + piece.len());
                }
            }
        }
        next.sort_unstable();
        next.dedup();
        if next.is_empty() {
            return false;
        }
        at = next;
    }
    at.last() == Some(&out.len())
}

/// Compares one step of the library with the model. Returns the library's result.
pub fn check_step(
    v: &Vocab,
    rules: &[Rule],
    s: &[usize],
    got: Result<ProductionString, String>,
    what: &str,
) -> Result<Option<Vec<usize>>, String> {
    let show = || {
        let mut t: Vec<String> = rules.iter().take(30).map(|r| r.show(v)).collect();
        if rules.len() > 30 {
            t.push(format!("... {} rules", rules.len()));
        }
        t.join("; ")
    };
    match (step(rules, s), got) {
        (None, Err(_)) => Ok(None),
        (None, Ok(g)) => Err(format!(
            "{what}: chances total more than one, yet {} became {g}; rules: {}",
            v.show(s),
            show()
        )),
        (Some(_), Err(e)) => Err(format!("{what}: {} is refused ({e}); rules: {}", v.show(s), show())),
        (Some(alts), Ok(g)) => {
            let g = v.back(&g).map_err(|e| format!("{what}: {} : {e}; rules: {}", v.show(s), show()))?;
            let ok = if alts.iter().all(|a| a.len() == 1) {
                let mut at = 0;
                alts.iter().all(|a| {
                    let ok = g[at..].starts_with(a[0]);
                    at += if ok { a[0].len() } else { 0 };
                    ok
                }) && at == g.len()
            } else {
                member(&alts, &g)
            };
            if !ok {
                let want: Vec<usize> = alts.iter().flat_map(|a| a[0].iter().copied()).collect();
                let d = want.iter().zip(&g).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "{what}: {} became {}, which is not one of the results the rules give (for example {}; first difference of that one at {d}); rules: {}",
                    v.show(s), v.show(&g), v.show(&want), show()
                ));
            }
            Ok(Some(g))
        }
    }
}

/// Checks a rule the library returned against the model rule.
pub fn check_rule(v: &Vocab, want: &Rule, got: &Production, what: &str) -> Case {
    let h = got.head();
    ensure!(
        *h.target() == v.syms[want.target],
        "{what}: target is {} instead of {}",
        h.target(),
        v.names[want.target]
    );
    for (side, w, g) in [("left", &want.pre, h.pre_context()), ("right", &want.post, h.post_context())] {
        let w = w.clone().unwrap_or_default();
        let g = match g {
            Some(g) => v.back(g)?,
            None => vec![],
        };
        ensure!(w == g, "{what}: {side} context of {} is {}", want.show(v), v.show(&g));
    }
    let bodies = got.all_bodies();
    ensure!(
        bodies.len() == want.bodies.len(),
        "{what}: {} has {} alternatives instead of {}",
        want.show(v),
        bodies.len(),
        want.bodies.len()
    );
    for (i, (w, g)) in want.bodies.iter().zip(bodies).enumerate() {
        let gs = v.back(g.string())?;
        ensure!(
            gs == w.syms,
            "{what}: alternative {i} of {} reads {}",
            want.show(v),
            v.show(&gs)
        );
        check_chance(w.chance, g, &format!("{what}: alternative {i} of {}", want.show(v)))?;
        ensure!(g.len() == w.syms.len() && g.is_empty() == w.syms.is_empty(), "{what}: length of alternative {i} of {}", want.show(v));
    }
    Ok(())
}

pub fn check_chance(want: Option<u32>, got: &ProductionBody, what: &str) -> Case {
    let c = got.chance();
    match want {
        None => ensure!(
            c.is_derived() && !c.is_user_set(),
            "{what}: has a chance although none was stated"
        ),
        Some(m) => {
            ensure!(c.is_user_set() && !c.is_derived(), "{what}: its stated chance is missing");
            let f = c.unwrap_or(-1.0) as f64;
            ensure!(
                (f - m as f64 / 1000.0).abs() < 1e-6,
                "{what}: its chance is {f} instead of {}",
                chance_text(m)
            );
        }
    }
    Ok(())
}
