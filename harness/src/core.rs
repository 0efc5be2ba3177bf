//! Running cases, recording what was observed, and telling apart the three verdicts.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::rng::{hash_str, Rng};

/// What a shard observed.
#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, String>,
}

impl Cov {
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Records one distinct, non-trivial case or state by the key that identifies it.
    pub fn distinct(&mut self, key: &str) {
        self.distinct.insert(hash_str(key));
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counts.get_mut(name) {
            *c += n;
        } else {
            self.counts.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let c = self.maxima.entry(name.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn merge(&mut self, other: Cov) {
        self.evals += other.evals;
        self.distinct.extend(other.distinct);
        for (k, v) in other.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in other.maxima {
            let c = self.maxima.entry(k).or_insert(0);
            *c = (*c).max(v);
        }
        for s in other.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        self.notes.extend(other.notes);
    }
}

/// Err is a violation, with its witness.
pub type Case = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static EXPECTED: Cell<u32> = const { Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        // This one ends the process, and is what check.py looks for.
        let end = text.contains("unsafe precondition");
        if end || EXPECTED.with(|e| e.get()) == 0 && std::env::var_os("MON_TRACE").is_some() {
            eprintln!("panic: {text} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((text, at)));
    }));
}

fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Calls into the library. A panic there is returned as a witness.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (text, at) = last_panic();
            Err(format!("{what} panicked: {text} (at {at})"))
        }
    }
}

/// What the library returns as text is text. Otherwise its behaviour is undefined from here on.
pub fn utf8(what: &str, s: &str) -> Result<(), String> {
    match std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        Ok(_) => Ok(()),
        Err(_) => Err(format!("undefined behaviour: {what} returns a str that is not UTF-8: {:?}", s.as_bytes())),
    }
}

/// As `lib`, for a call whose panic is expected because the user's own code panics in it.
pub fn user_panics<T>(f: impl FnOnce() -> T) -> Option<T> {
    EXPECTED.with(|e| e.set(e.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    EXPECTED.with(|e| e.set(e.get() - 1));
    let _ = last_panic();
    r
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub shard: u64,
    pub nshards: u64,
    pub cases: u64,
    pub out: String,
    pub progress: String,
    pub only: Option<u64>,
    /// Seconds after which no further case is started.
    pub budget: u64,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_out(o: &Opts, cov: &Cov, verdict: &str, index: u64, witness: &str) {
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    };
    let text = format!(
        "{{\"verdict\":{},\"index\":{},\"witness\":{},\"evals\":{},\"counts\":{{{}}},\"maxima\":{{{}}},\"samples\":[{}],\"notes\":{{{}}}}}\n",
        js(verdict),
        index,
        js(witness),
        cov.evals,
        map(&cov.counts),
        map(&cov.maxima),
        cov.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        cov.notes.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(",")
    );
    std::fs::write(&o.out, text).expect("cannot write the result file");
    let mut bytes = Vec::with_capacity(cov.distinct.len() * 8);
    for h in &cov.distinct {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", o.out), bytes).expect("cannot write the hash file");
}

/// Runs the cases of this shard. Exit code 0: all held. 10: a violation, in the result file.
/// 3: the harness itself failed.
pub fn run(o: &Opts, case: &dyn Fn(&mut Rng, u64, &mut Cov, Tier) -> Case) -> i32 {
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(&o.progress)
        .expect("cannot open the progress file");
    let mut cov = Cov::default();
    let indices: Box<dyn Iterator<Item = u64>> = match o.only {
        Some(i) => Box::new(std::iter::once(i)),
        None => Box::new((o.shard..o.cases).step_by(o.nshards as usize)),
    };
    let start = std::time::Instant::now();
    for i in indices {
        if start.elapsed().as_secs() >= o.budget {
            cov.count("shards stopped by the time budget", 1);
            break;
        }
        progress.write_all_at(format!("{i:020}").as_bytes(), 0).expect("progress");
        let mut rng = Rng::new(o.seed, &o.prop, i);
        cov.eval();
        match catch_unwind(AssertUnwindSafe(|| case(&mut rng, i, &mut cov, o.tier))) {
            Ok(Ok(())) => {}
            Ok(Err(witness)) => {
                write_out(o, &cov, "violated", i, &witness);
                let _ = writeln!(std::io::stderr(), "case {i}: {witness}");
                return 10;
            }
            Err(_) => {
                let (text, at) = last_panic();
                let witness = format!("case {i}: uncaught panic: {text} (at {at})");
                // A panic raised outside the harness comes from a library call that was
                // not expected to be able to fail at all (an iterator, a comparison...).
                if at.starts_with("src/") {
                    write_out(o, &cov, "harness", i, &witness);
                    eprintln!("{witness}");
                    return 3;
                }
                write_out(o, &cov, "violated", i, &witness);
                eprintln!("{witness}");
                return 10;
            }
        }
    }
    write_out(o, &cov, "held", 0, "");
    0
}
