//! Rules added concurrently.
use std::collections::{BTreeSet, HashMap};

use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

use crate::conc::{self, tick};
use crate::core::{lib, Case, Cov, Tier};
use crate::ensure;
use crate::model::Vocab;
use crate::rng::Rng;

struct Event {
    start: u64,
    end: u64,
    head: usize,
    /// The unique marks of the alternatives added by this call.
    ids: Vec<usize>,
    /// The marks in the rule the call returned.
    got: Vec<usize>,
}

/// Reads the marks of a rule's alternatives: every body is [filler.., mark].
fn marks(p: &Production, of_mark: &HashMap<u32, usize>) -> Result<Vec<usize>, String> {
    p.all_bodies()
        .iter()
        .map(|b| {
            let last = b.string().symbols().last().ok_or("an alternative lost its body")?;
            let id = *of_mark.get(&last.code()).ok_or_else(|| format!("an alternative reads {}", b.string()))?;
            ensure!(b.len() == 1 + id % 3, "alternative {id} reads {}", b.string());
            let chance = if id % 2 == 0 { Some((id % 900 + 1) as u32) } else { None };
            crate::model::check_chance(chance, b, &format!("alternative {id}"))?;
            Ok(id)
        })
        .collect()
}

/// Threads add alternatives to the same few rules.
fn alternatives(rng: &mut Rng, nthreads: usize, level: u32, per: usize, nheads: usize, cov: &mut Cov) -> Result<String, String> {
    let total = nthreads * per * 2 + nheads;
    let mut names = vec!["f".to_string()];
    names.extend((0..nheads).map(|h| format!("H{h}")));
    names.extend((0..total).map(|i| format!("k{i}")));
    let v = Vocab::new(names)?;
    let mark = |id: usize| 1 + nheads + id;
    let of_mark: HashMap<u32, usize> = (0..total).map(|i| (v.syms[mark(i)].code(), i)).collect();
    let sys = System::new();
    let salt = rng.next();
    let by_text = rng.below(3);
    // Heads of several kinds: free, and with contexts.
    let head = |h: usize| -> (Option<Vec<usize>>, Option<Vec<usize>>) {
        match h % 4 {
            0 => (None, None),
            1 => (Some(vec![0]), None),
            2 => (None, Some(vec![0])),
            _ => (Some(vec![0]), Some(vec![0])),
        }
    };
    let add = |rng: &mut Rng, h: usize, ids: &[usize]| -> Result<Event, String> {
        let (pre, post) = head(h);
        let body = |id: usize| -> Vec<usize> {
            let mut b = vec![0; id % 3];
            b.push(mark(id));
            b
        };
        let chance = |id: usize| if id % 2 == 0 { Some((id % 900 + 1) as u32) } else { None };
        let text = by_text == 0 || (by_text == 1 && rng.chance(1, 2));
        // Two heads of a kind differ in their target.
        let target = 1 + h;
        if text && ids.len() == 1 {
            let mut t = String::new();
            if pre.is_some() {
                t += "f < ";
            }
            t += &v.names[target];
            if post.is_some() {
                t += " > f";
            }
            t += " -> ";
            if let Some(c) = chance(ids[0]) {
                t += &format!("{} ", crate::model::chance_text(c));
            }
            t += &v.text(&body(ids[0]));
            let start = tick();
            let p = lib("add_production", || sys.add_production(t.as_str()).map_err(|e| e.to_string()))?
                .map_err(|e| format!("{t:?} is refused: {e}"))?;
            let end = tick();
            ensure!(*p.head().target() == v.syms[target], "adding {t:?} returned a rule for {}", p.head().target());
            return Ok(Event { start, end, head: h, ids: ids.to_vec(), got: marks(&p, &of_mark)? });
        }
        let hd = ProductionHead::build(pre.map(|p| v.string(&p)), v.syms[target], post.map(|p| v.string(&p))).map_err(|e| e.to_string())?;
        let mk = |id: usize| -> Result<ProductionBody, String> {
            let s = v.string(&body(id));
            match chance(id) {
                Some(c) => ProductionBody::try_with_chance(c as f32 / 1000.0, s).map_err(|e| e.to_string()),
                None => Ok(ProductionBody::new(s)),
            }
        };
        let mut p = Production::new(hd, mk(ids[0])?);
        for id in &ids[1..] {
            p.add_body(mk(*id)?);
        }
        let start = tick();
        let p = lib("add_production", || sys.add_production(p).map_err(|e| e.to_string()))?.map_err(|e| format!("a rule is refused: {e}"))?;
        let end = tick();
        Ok(Event { start, end, head: h, ids: ids.to_vec(), got: marks(&p, &of_mark)? })
    };
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut ev = vec![];
        for j in 0..per {
            let h = rng.below(nheads);
            let id = (t * per + j) * 2;
            let ids: Vec<usize> = match rng.below(4) {
                0 => vec![id, id + 1],
                1 => vec![id + 1],
                _ => vec![id],
            };
            ev.push(add(&mut rng, h, &ids)?);
            if rng.chance(1, 4) {
                let n = lib("production_len", || sys.production_len())?;
                ensure!(n >= 1 && n <= nheads, "{n} rules are counted while at most {nheads} heads are added");
            }
        }
        Ok(ev)
    })?;
    let events: Vec<Event> = out.into_iter().flatten().collect();
    // The final order, by adding one more to each.
    let used: BTreeSet<usize> = events.iter().map(|e| e.head).collect();
    let n = lib("production_len", || sys.production_len())?;
    ensure!(n == used.len(), "{n} rules are counted although {} heads were added", used.len());
    let mut trail = String::new();
    for h in used {
        let probe = total - 1 - h;
        let fin = add(rng, h, &[probe])?.got;
        ensure!(fin.last() == Some(&probe), "the last alternative of rule {h} is not the one added last: {fin:?}");
        let fin = &fin[..fin.len() - 1];
        let pos: HashMap<usize, usize> = fin.iter().enumerate().map(|(i, x)| (*x, i)).collect();
        ensure!(pos.len() == fin.len(), "rule {h} has an alternative twice: {fin:?}");
        let mine: Vec<&Event> = events.iter().filter(|e| e.head == h).collect();
        let want: BTreeSet<usize> = mine.iter().flat_map(|e| e.ids.iter().copied()).collect();
        let have: BTreeSet<usize> = fin.iter().copied().collect();
        ensure!(
            want == have,
            "rule {h}: alternatives {:?} were added and lost, {:?} were never added to it",
            want.difference(&have).collect::<Vec<_>>(),
            have.difference(&want).collect::<Vec<_>>()
        );
        for e in &mine {
            ensure!(fin.starts_with(&e.got), "an addition to rule {h} returned {:?}, which is no beginning of {fin:?}", e.got);
            // The rule as it was just after this addition, which no other addition's can be.
            ensure!(e.got.ends_with(&e.ids), "an addition of {:?} to rule {h} returned a rule that ends otherwise: {:?}", e.ids, e.got);
            for w in e.ids.windows(2) {
                ensure!(pos[&w[0]] < pos[&w[1]], "the alternatives {:?} of one rule were reordered: {fin:?}", e.ids);
            }
        }
        for a in &mine {
            for b in &mine {
                if a.end < b.start {
                    ensure!(
                        pos[&a.ids[0]] < pos[&b.ids[0]],
                        "alternative {} was in rule {h} before {} was begun to be added, yet comes after it: {fin:?}",
                        a.ids[0],
                        b.ids[0]
                    );
                    ensure!(!a.got.contains(&b.ids[0]), "an addition returned an alternative, {}, that nobody had begun to add", b.ids[0]);
                }
                if a.start < b.start && b.start < a.end {
                    cov.count("overlapping additions", 1);
                }
            }
        }
        trail += &format!("{h}:{:?}", fin);
    }
    cov.count("additions", events.len() as u64);
    Ok(trail)
}

/// Threads add the same alternatives again and again: each addition counts.
fn alike(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    let v = Vocab::new((0..5).map(|i| format!("e{i}")).collect())?;
    let sys = System::new();
    let salt = rng.next();
    let kinds = rng.range(1, 6);
    let text = |k: usize| format!("e0 ->{} {}", ["", " 0.001", " 0.002"][k % 3], ["", "e1"][k / 3 % 2]);
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut rng = Rng::new(salt, "thread", t as u64);
        let mut ev = vec![];
        for _ in 0..per {
            let k = rng.below(kinds);
            let text = text(k);
            let p = lib("add_production", || sys.add_production(text.as_str()).map_err(|e| e.to_string()))??;
            ev.push((k, p.all_bodies().len()));
        }
        Ok(ev)
    })?;
    let mut want = vec![0; kinds];
    let mut sizes: Vec<usize> = vec![];
    for (k, n) in out.into_iter().flatten() {
        want[k] += 1;
        sizes.push(n);
    }
    let total = sizes.len();
    sizes.sort_unstable();
    ensure!(sizes.iter().copied().eq(1..=total), "{total} equal or similar alternatives were added, and the rules returned had {sizes:?}");
    let p = lib("add_production", || sys.add_production("e0 -> e4").map_err(|e| e.to_string()))??;
    let mut have = vec![0; kinds];
    for b in &p.all_bodies()[..p.all_bodies().len() - 1] {
        let c = if b.chance().is_user_set() { (b.chance().unwrap() * 1000.0).round() as usize } else { 0 };
        let k = c + 3 * b.len();
        ensure!(k < kinds && (b.is_empty() || b.string()[0] == v.syms[1]), "an alternative reads {}", b.string());
        have[k] += 1;
    }
    ensure!(have == want, "alternatives were added {want:?} times and are there {have:?} times");
    cov.count("equal alternatives added", total as u64);
    Ok(format!("{want:?}"))
}

/// Threads add different rules that match at the same place: their order is seen from outside.
fn order(rng: &mut Rng, nthreads: usize, level: u32, per: usize, cov: &mut Cov) -> Result<String, String> {
    // Rule i has the left context L or, when odd, the right context R of its own.
    let n = nthreads * per;
    let mut names = vec!["T".to_string()];
    names.extend((0..n).map(|i| format!("ctx{i}")));
    names.extend((0..n).map(|i| format!("won{i}")));
    let v = Vocab::new(names)?;
    let sys = System::new();
    let salt = rng.next();
    let out = conc::threads(nthreads, salt, level, |t, _| {
        let mut ev = vec![];
        for j in 0..per {
            let i = t + j * nthreads;
            let text = if i % 2 == 0 { format!("ctx{i} < T -> won{i}") } else { format!("T > ctx{i} -> won{i}") };
            let start = tick();
            lib("add_production", || sys.add_production(text.as_str()).map(|_| ()).map_err(|e| e.to_string()))?
                .map_err(|e| format!("{text:?} is refused: {e}"))?;
            let end = tick();
            ev.push((i, start, end));
        }
        Ok(ev)
    })?;
    let mut at = vec![(0, 0); n];
    for (i, s, e) in out.into_iter().flatten() {
        at[i] = (s, e);
    }
    let count = lib("production_len", || sys.production_len())?;
    ensure!(count == n, "{count} rules are counted instead of {n}");
    // For every left and right pair, which comes first.
    let mut before = vec![vec![false; n]; n];
    for l in (0..n).step_by(2) {
        for r in (1..n).step_by(2) {
            let s = v.string(&[1 + l, 0, 1 + r]);
            let got = lib("derive_once", || sys.derive_once(s).map_err(|e| e.to_string()))??;
            let got = v.back(&got)?;
            ensure!(got.len() == 3 && got[0] == 1 + l && got[2] == 1 + r, "ctx{l} T ctx{r} became {}", v.show(&got));
            if got[1] == 1 + n + l {
                before[l][r] = true;
            } else if got[1] == 1 + n + r {
                before[r][l] = true;
            } else {
                return Err(format!("ctx{l} T ctx{r} became {}: neither rule is there", v.show(&got)));
            }
        }
    }
    let observed = before.clone();
    for a in 0..n {
        for b in 0..n {
            if at[a].1 < at[b].0 {
                ensure!(!observed[b][a], "rule {b} takes precedence although rule {a} had been added before its addition began");
                before[a][b] = true;
            } else if at[b].1 > at[a].0 {
                cov.count("overlapping additions", 1);
            }
        }
    }
    // One global order must explain all of it.
    let mut left: BTreeSet<usize> = (0..n).collect();
    let mut seq = vec![];
    while !left.is_empty() {
        let Some(next) = left.iter().copied().find(|a| left.iter().all(|b| !before[*b][*a])) else {
            return Err(format!("no order of additions explains which rules take precedence among {left:?}"));
        };
        left.remove(&next);
        seq.push(next);
    }
    cov.count("additions", n as u64);
    Ok(format!("{seq:?}"))
}

/// One rule grows very long, by additions of many alternatives each: every addition takes the place after another.
fn long_rule(rng: &mut Rng, nthreads: usize, total: usize, cov: &mut Cov) -> Result<String, String> {
    let v = Vocab::new((0..4).map(|i| format!("e{i}")).collect())?;
    let sys = System::new();
    let salt = rng.next();
    let target = v.syms[0];
    let largest = (total / 12).max(2);
    let out = conc::threads(nthreads, salt, 0, |t, _| {
        let mut rng = Rng::new(salt, "long", t as u64);
        let mut ev = vec![];
        let mut mine = 0;
        while mine < total / nthreads {
            // The alternatives of an addition all have the same length, its thread's.
            let n = if rng.chance(1, 2) { 1 } else { 1 + rng.below(largest) };
            let body = || ProductionBody::new(v.string(&vec![1; t]));
            let head = ProductionHead::build(None, target, None).map_err(|e| e.to_string())?;
            let mut p = Production::new(head, body());
            for _ in 1..n {
                p.add_body(body());
            }
            let p = lib("add_production", || sys.add_production(p).map_err(|e| e.to_string()))??;
            let len = p.all_bodies().len();
            ensure!(len >= n, "{n} alternatives were added, and the rule returned has {len}");
            ensure!(p.all_bodies()[len - n..].iter().all(|b| b.len() == t), "an addition of {n} returned a rule that ends with others ({len})");
            ev.push((len - n, len));
            mine += n;
        }
        Ok(ev)
    })?;
    let mut spans: Vec<(usize, usize)> = out.into_iter().flatten().collect();
    spans.sort_unstable();
    let mut at = 0;
    for (a, b) in &spans {
        ensure!(*a == at, "{} additions to one rule: one made it {b} long, starting at {a}, where the one before had ended at {at}", spans.len());
        at = *b;
    }
    let n = lib("production_len", || sys.production_len())?;
    ensure!(n == 1, "{n} rules are counted although all {at} alternatives have the same head");
    let p = lib("add_production", || sys.add_production("e0 -> e2").map_err(|e| e.to_string()))??;
    ensure!(p.all_bodies().len() == at + 1, "a rule of {at} alternatives has {} after one more", p.all_bodies().len());
    cov.max("alternatives in one rule", at as u64);
    Ok(format!("{at} in {}", spans.len()))
}

/// Very many rules, and then further alternatives for any of them.
fn many_rules(rng: &mut Rng, nthreads: usize, total: usize, cov: &mut Cov) -> Result<String, String> {
    let mut names: Vec<String> = vec!["f".into(), "g".into()];
    names.extend((0..total.div_ceil(4)).map(|i| format!("m{i}")));
    let v = Vocab::new(names)?;
    let sys = System::new();
    let salt = rng.next();
    let mk = |i: usize, len: usize| -> Result<Production, String> {
        let ctx = |yes: bool| if yes { Some(v.string(&[0])) } else { None };
        let head = ProductionHead::build(ctx(i & 1 == 1), v.syms[2 + i / 4], ctx(i & 2 == 2)).map_err(|e| e.to_string())?;
        Ok(Production::new(head, ProductionBody::new(v.string(&vec![1; len]))))
    };
    let out = conc::threads(nthreads, salt, 0, |t, _| {
        for i in (t..total).step_by(nthreads) {
            let p = lib("add_production", || sys.add_production(mk(i, 0)?).map_err(|e| e.to_string()))??;
            ensure!(p.all_bodies().len() == 1, "rule {i} has {} alternatives after its first", p.all_bodies().len());
        }
        Ok(())
    })?;
    drop(out);
    let n = lib("production_len", || sys.production_len())?;
    ensure!(n == total, "{n} rules are counted after {total} with different heads were added");
    let again: Vec<usize> = (0..200).map(|j| if j < 100 { j * total / 100 } else { rng.below(total) }).chain([0, total - 1]).collect();
    let mut times: HashMap<usize, usize> = HashMap::new();
    let out = conc::threads(nthreads, salt, 0, |t, _| {
        let mut ev = vec![];
        for i in again.iter().skip(t).step_by(nthreads) {
            let p = lib("add_production", || sys.add_production(mk(*i, 2)?).map_err(|e| e.to_string()))??;
            ensure!(p.all_bodies()[0].is_empty() && p.all_bodies()[1..].iter().all(|b| b.len() == 2), "rule {i} has lost alternatives: {:?}", p.all_bodies().iter().map(|b| b.len()).collect::<Vec<_>>());
            ev.push((*i, p.all_bodies().len()));
        }
        Ok(ev)
    })?;
    let mut got: HashMap<usize, Vec<usize>> = HashMap::new();
    for (i, n) in out.into_iter().flatten() {
        *times.entry(i).or_default() += 1;
        got.entry(i).or_default().push(n);
    }
    for (i, mut sizes) in got {
        sizes.sort_unstable();
        ensure!(
            sizes.iter().copied().eq(2..=1 + times[&i]),
            "rule {i} of {total}: {} alternatives were added to its first, and the rules returned had {sizes:?}",
            times[&i]
        );
    }
    let n = lib("production_len", || sys.production_len())?;
    ensure!(n == total, "{n} rules are counted instead of {total} after more alternatives for some of them");
    cov.max("rules in one system", total as u64);
    Ok(format!("{total} rules"))
}

pub fn case(rng: &mut Rng, index: u64, cov: &mut Cov, _: Tier) -> Case {
    if index % 40 == 7 && std::env::var_os("MON_SANITIZED").is_none() {
        let n = *rng.pick(&[1, 2, 4, 8]);
        let t = if index % 80 == 7 {
            let total = *rng.pick(&[5_000, 5_000, 70_000, 140_000]);
            long_rule(rng, n, total, cov)?
        } else {
            let total = *rng.pick(&[3_000, 6_000, 11_000, 17_000]);
            many_rules(rng, n, total, cov)?
        };
        cov.distinct(&format!("{n} {t}"));
    }
    for _ in 0..6 {
        let (n, level) = conc::shape(rng);
        let t = if rng.chance(1, 6) {
            let per = *rng.pick(&[1, 3, 10]);
            alike(rng, n, level, per, cov)?
        } else if rng.chance(2, 3) {
            let per = *rng.pick(&[1, 2, 5, 20]);
            let heads = *rng.pick(&[1, 1, 2, 4, 8]);
            alternatives(rng, n, level, per, heads, cov)?
        } else {
            let per = *rng.pick(&[1, 1, 2, 3]);
            order(rng, n, level, per, cov)?
        };
        cov.count("concurrent rounds", 1);
        cov.distinct(&format!("{n} {t}"));
        cov.sample(|| format!("{n} threads, final order {t}"));
    }
    Ok(())
}

pub fn miri(rng: &mut Rng) -> Result<String, String> {
    let (n, _) = conc::shape(rng);
    let mut cov = Cov::default();
    let t = if rng.chance(2, 3) {
        let heads = rng.range(1, 2);
        alternatives(rng, n, 0, 1, heads, &mut cov)?
    } else {
        order(rng, n, 0, 1, &mut cov)?
    };
    let over = cov.counts.get("overlapping additions").copied().unwrap_or(0);
    Ok(format!("threads={n} overlapping={over} order={}", t.replace(' ', "")))
}
