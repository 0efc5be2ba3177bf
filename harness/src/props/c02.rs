//! Where a rule matches, against the definition.
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::model::{Body, Rule, Vocab};
use crate::rng::Rng;

fn outside(len: usize) -> [usize; 9] {
    [
        len,
        len + 1,
        len + 2,
        len + 63,
        2 * len + 5,
        u32::MAX as usize,
        isize::MAX as usize,
        usize::MAX - 1,
        usize::MAX,
    ]
}

fn check(v: &Vocab, r: &Rule, p: &Production, s: &[usize], real: &ProductionString, i: usize, cov: &mut Cov) -> Case {
    let got = lib("matches", || p.matches(real, i)).map_err(|e| format!("{e}: rule {} at {i} of {}", r.show(v), v.show(s)))?;
    let want = r.matches(s, i);
    ensure!(
        got == want,
        "rule {} {} at position {i} of {}",
        r.show(v),
        if got { "matches" } else { "does not match" },
        v.show(s)
    );
    let head = lib("head matches", || p.head().matches(real, i))?;
    ensure!(head == want, "the head of rule {} answers {head} at position {i} of {}, the rule {want}", r.show(v), v.show(s));
    cov.count(if want { "positions that match" } else { "positions that do not match" }, 1);
    if i < s.len() {
        let pre = lib("pre_matches", || p.head().pre_matches(real, i))?;
        let post = lib("post_matches", || p.head().post_matches(real, i))?;
        let left = Rule { post: None, target: s[i], ..r.clone() };
        let right = Rule { pre: None, target: s[i], ..r.clone() };
        ensure!(pre == left.matches(s, i), "the left context of {} answers {pre} at {i} of {}", r.show(v), v.show(s));
        ensure!(post == right.matches(s, i), "the right context of {} answers {post} at {i} of {}", r.show(v), v.show(s));
    }
    Ok(())
}

/// Every context of up to two symbols against every string of up to six, over two symbols.
fn small_scope(rng: &mut Rng, cov: &mut Cov, tier: Tier) -> Case {
    let v = gen::vocab(rng, 2, Place::Text)?;
    let contexts: Vec<Option<Vec<usize>>> = {
        let mut c: Vec<Option<Vec<usize>>> = vec![None, Some(vec![])];
        for a in 0..2 {
            c.push(Some(vec![a]));
            for b in 0..2 {
                c.push(Some(vec![a, b]));
                if tier == Tier::Thorough {
                    for d in 0..2 {
                        c.push(Some(vec![a, b, d]));
                    }
                }
            }
        }
        c
    };
    let mut strings: Vec<Vec<usize>> = vec![vec![]];
    let top = if tier == Tier::Thorough { 8 } else { 6 };
    for len in 1..=top {
        for code in 0..1usize << len {
            strings.push((0..len).map(|b| code >> b & 1).collect());
        }
    }
    let real: Vec<ProductionString> = strings.iter().map(|s| v.string(s)).collect();
    for pre in &contexts {
        for post in &contexts {
            let r = Rule { pre: pre.clone(), target: 0, post: post.clone(), bodies: vec![Body { chance: None, syms: vec![1] }] };
            let p = r.build(&v)?;
            for (s, q) in strings.iter().zip(&real) {
                for i in (0..s.len()).chain(outside(s.len())) {
                    check(&v, &r, &p, s, q, i, cov)?;
                }
            }
            cov.distinct(&format!("{:?}{:?}{:?}", v.names, pre, post));
        }
    }
    Ok(())
}

/// Long contexts, planted in the string exactly or with one symbol changed, at its very edges
/// and inside it.
fn planted(rng: &mut Rng, cov: &mut Cov) -> Case {
    let n = rng.range(1, 6);
    let v = gen::vocab(rng, n, Place::Text)?;
    let ctx = |rng: &mut Rng| {
        if rng.chance(1, 4) {
            return None;
        }
        let len = match rng.below(4) {
            0 => rng.range(0, 3),
            1 => rng.range(1, 20),
            2 => *rng.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]),
            _ => rng.range(1, 6),
        };
        Some(gen::syms(rng, n, len))
    };
    let r = Rule {
        pre: ctx(rng),
        target: rng.below(n),
        post: ctx(rng),
        bodies: vec![Body { chance: None, syms: vec![] }],
    };
    // The rule as built, as parsed and as returned by a system.
    let how = rng.below(4);
    let parsable = |c: &Option<Vec<usize>>| c.as_ref().is_none_or(|c| !c.is_empty());
    let p = match how {
        1 if parsable(&r.pre) && parsable(&r.post) => {
            let t = gen::rule_text(rng, &v, &r, &r.bodies[0], true);
            lib("parse", || t.parse::<Production>().map_err(|e| e.to_string()))?.map_err(|e| format!("{t:?} is refused: {e}"))?
        }
        2 => {
            let sys = System::new();
            gen::add_rule(rng, &sys, &v, &Rule { pre: None, ..r.clone() })?;
            let p = r.build(&v)?;
            lib("add_production", || sys.add_production(p).map_err(|e| e.to_string()))??
        }
        3 => {
            let h = lib("head", || {
                ProductionHead::build(r.pre.as_ref().map(|p| v.string(p)), v.syms[r.target], r.post.as_ref().map(|p| v.string(p)))
                    .map_err(|e| e.to_string())
            })??;
            let mut a = Production::new(h.clone(), ProductionBody::empty());
            let b = Production::new(h, ProductionBody::new(v.string(&[0])));
            lib("merge", || a.merge(b))?;
            a
        }
        _ => r.build(&v)?,
    };
    let pre = r.pre.clone().unwrap_or_default();
    let post = r.post.clone().unwrap_or_default();
    let mut whole = pre.clone();
    whole.push(r.target);
    whole.extend(&post);

    let mut try_string = |s: &[usize], cov: &mut Cov| -> Case {
        let q = v.string(s);
        if s.len() <= 300 {
            for i in 0..s.len() {
                check(&v, &r, &p, s, &q, i, cov)?;
            }
        }
        for i in outside(s.len()) {
            check(&v, &r, &p, s, &q, i, cov)?;
        }
        Ok(())
    };
    try_string(&whole, cov)?;
    for around in 0..3 {
        let a_len = if around == 1 { 0 } else { rng.range(1, 5) };
        let b_len = if around == 2 { 0 } else { rng.range(1, 5) };
        let mut s = gen::syms(rng, n, a_len);
        s.extend(&whole);
        s.extend(gen::syms(rng, n, b_len));
        try_string(&s, cov)?;
        // One symbol short on either side.
        try_string(&s[1..], cov)?;
        try_string(&s[..s.len() - 1], cov)?;
    }
    // One symbol changed at a time.
    if n > 1 {
        let spots: Vec<usize> = if whole.len() <= 24 {
            (0..whole.len()).collect()
        } else {
            let mut x: Vec<usize> = vec![0, 1, pre.len().saturating_sub(1), pre.len(), whole.len() - 1];
            x.extend((0..8).map(|_| rng.below(whole.len())));
            x.into_iter().filter(|i| *i < whole.len()).collect()
        };
        for i in spots {
            let mut s = whole.clone();
            s[i] = (s[i] + 1 + rng.below(n - 1)) % n;
            let q = v.string(&s);
            check(&v, &r, &p, &s, &q, pre.len(), cov)?;
            cov.count("near misses", 1);
        }
    }
    // A long string in which it occurs now and then.
    let len = rng.range(1, 400);
    let s = gen::string_for(rng, n, std::slice::from_ref(&r), len);
    let q = v.string(&s);
    for _ in 0..40 {
        let i = rng.below(len);
        check(&v, &r, &p, &s, &q, i, cov)?;
    }
    cov.max("longest context", pre.len().max(post.len()) as u64);
    cov.distinct(&r.show(&v));
    cov.sample(|| r.show(&v));
    Ok(())
}

/// One long context, at the edges of a string too short for it.
pub fn wide(rng: &mut Rng) -> Case {
    let v = gen::vocab(rng, 2, Place::Text)?;
    let mut cov = Cov::default();
    let len = *rng.pick(&[2, 4, 7, 8, 9, 16, 17, 33, 65]);
    let pre = rng.chance(1, 2).then(|| vec![0; len]);
    let post = if pre.is_none() || rng.chance(1, 2) { Some(vec![0; len]) } else { None };
    let r = Rule { pre, target: 0, post, bodies: vec![Body { chance: None, syms: vec![1] }] };
    let p = r.build(&v)?;
    for n in [1, len, len + 1, 2 * len, 2 * len + 1] {
        let s = vec![0; n];
        let real = v.string(&s);
        for i in [0, 1, len - 1, len, n - 1, n, n.saturating_sub(len + 1), n.saturating_sub(len)] {
            check(&v, &r, &p, &s, &real, i, &mut cov)?;
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, tier: Tier) -> Case {
    if i % 400 < 8 {
        return small_scope(rng, cov, tier);
    }
    planted(rng, cov)
}
