//! Decisions about random choices. Each one errs with probability below 1e-13 (Bernstein's
//! inequality), so that the many made in a run practically never raise a false alarm.

use crate::core::Case;
use crate::ensure;

const L: f64 = 30.7; // ln(2 / 1e-13)

pub fn within(n: u64, p: f64, count: u64, slack: f64) -> bool {
    let n = n as f64;
    let p = p.clamp(0.0, 1.0);
    let t = L / 3.0 + (L * L / 9.0 + 2.0 * n * p * (1.0 - p) * L).sqrt();
    (count as f64 - n * p).abs() <= t + slack + n * 4e-6
}

/// As `within`, but tight where the probability is 0 or 1 up to rounding.
pub fn sharp(n: u64, p: f64, count: u64) -> bool {
    if p < 1e-9 {
        return count as f64 <= 3.0 + n as f64 * 1e-5;
    }
    if p > 1.0 - 1e-9 {
        return (n - count) as f64 <= 3.0 + n as f64 * 1e-5;
    }
    within(n, p, count, 0.0)
}

/// The chances alternatives have by definition.
pub fn expected(chances: &[Option<u32>]) -> Vec<f64> {
    let stated: u32 = chances.iter().flatten().sum();
    let open = chances.iter().filter(|c| c.is_none()).count();
    let rest = (1000.0 - stated as f64) / 1000.0;
    let mut p: Vec<f64> = chances
        .iter()
        .map(|c| match c {
            Some(m) => *m as f64 / 1000.0,
            None => rest / open as f64,
        })
        .collect();
    if open == 0 {
        *p.last_mut().unwrap() += rest;
    }
    p
}

pub fn frequencies(seq: &[usize], p: &[f64], what: &str) -> Case {
    let mut c = vec![0u64; p.len()];
    for x in seq {
        c[*x] += 1;
    }
    for (i, k) in c.iter().enumerate() {
        ensure!(
            sharp(seq.len() as u64, p[i], *k),
            "{what}: alternative {i} was chosen {k} times of {} although its chance is {:.6}",
            seq.len(),
            p[i]
        );
    }
    Ok(())
}

/// Choices at a distance of `lag` are independent: tested on disjoint pairs.
pub fn lag(seq: &[usize], p: &[f64], lag: usize, what: &str) -> Case {
    let mut pairs: Vec<(usize, usize)> = Vec::with_capacity(seq.len() / 2);
    for block in seq.chunks_exact(2 * lag) {
        for r in 0..lag {
            pairs.push((block[r], block[lag + r]));
        }
    }
    independent(&pairs, p, p, &format!("{what}, choices {lag} apart"))
}

/// Fair choices between two are independent at every distance up to half the sequence. That two
/// of them agree is a fair choice by itself, and these are independent for any one distance.
pub fn every_lag(seq: &[usize], what: &str) -> Case {
    let n = seq.len();
    let mut bits = vec![0u64; n / 64 + 2];
    for (i, x) in seq.iter().enumerate() {
        bits[i / 64] |= (*x as u64 & 1) << (i % 64);
    }
    for lag in 1..=n / 2 {
        let words = (n - lag) / 64;
        let (q, r) = (lag / 64, lag % 64);
        let mut differ = 0u64;
        for w in 0..words {
            let hi = if r == 0 { 0 } else { bits[w + q + 1] << (64 - r) };
            differ += (bits[w] ^ (bits[w + q] >> r | hi)).count_ones() as u64;
        }
        let pairs = words as u64 * 64;
        ensure!(
            within(pairs, 0.5, differ, 8.0),
            "{what}: of {pairs} pairs of choices {lag} apart, {differ} differ although half of them should"
        );
    }
    Ok(())
}

pub fn independent(pairs: &[(usize, usize)], p: &[f64], q: &[f64], what: &str) -> Case {
    let n = pairs.len() as u64;
    if n < 50 {
        return Ok(());
    }
    let equal = pairs.iter().filter(|(a, b)| a == b).count() as u64;
    let pe: f64 = p.iter().zip(q).map(|(a, b)| a * b).sum();
    ensure!(
        within(n, pe, equal, 0.0),
        "{what}: {equal} of {n} pairs are equal although {:.1} are expected of independent choices",
        pe * n as f64
    );
    let k = p.len().min(5);
    let mut cells = vec![0u64; k * k];
    for (a, b) in pairs {
        if *a < k && *b < k {
            cells[a * k + b] += 1;
        }
    }
    for i in 0..k {
        for j in 0..k {
            ensure!(
                within(n, p[i] * q[j], cells[i * k + j], 0.0),
                "{what}: alternatives {i} and {j} met {} times of {n} although {:.1} are expected of independent choices",
                cells[i * k + j],
                p[i] * q[j] * n as f64
            );
        }
    }
    Ok(())
}

pub fn sequence(seq: &[usize], p: &[f64], what: &str) -> Case {
    frequencies(seq, p, what)?;
    if p.iter().any(|x| *x > 0.995) {
        return Ok(());
    }
    for l in [1, 2, 3, 4, 5, 7, 8, 16, 64] {
        lag(seq, p, l, what)?;
    }
    Ok(())
}

/// Sequences of choices are independent of each other. Long ones must differ.
pub fn unrelated(seqs: &[Vec<usize>], p: &[f64], what: &str) -> Case {
    let top = p.iter().cloned().fold(0.0, f64::max);
    let mut pairs = vec![];
    for w in seqs.chunks_exact(2) {
        pairs.extend(w[0].iter().copied().zip(w[1].iter().copied()));
    }
    independent(&pairs, p, p, &format!("{what}, compared in pairs"))?;
    pairs.clear();
    for w in seqs.get(1..).unwrap_or(&[]).chunks_exact(2) {
        pairs.extend(w[0].iter().copied().zip(w[1].iter().copied()));
    }
    independent(&pairs, p, p, &format!("{what}, compared in pairs"))?;
    for (i, a) in seqs.iter().enumerate() {
        for (j, b) in seqs.iter().enumerate().take(i) {
            let n = a.len().min(b.len());
            // The chance that they agree by accident is at most top^n.
            if (n as f64) * -top.ln() > 60.0 {
                ensure!(a[..n] != b[..n], "{what}: sequences {j} and {i} of {n} random choices are identical");
            }
        }
    }
    Ok(())
}
