//! The lsystem tool, from the outside.
use std::collections::BTreeSet;
use std::ffi::{OsStr, OsString};
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::core::{Case, Cov, Tier};
use crate::ensure;
use crate::gen::{self, Place};
use crate::model::{step, Rule, Vocab};
use crate::plants::{self, Kind, Plant};
use crate::rng::Rng;
use crate::svgx;
use crate::turtle::{self, Drawing};

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(i: u64) -> Scratch {
        // Under /tmp, which is resolved, so that names stay as they are given.
        let base = std::fs::canonicalize(std::env::temp_dir()).expect("temporary directory");
        let d = base.join(format!("mon-c15-{}-{i}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub err: String,
    pub out: String,
}

pub enum Stdout {
    Pipe,
    Full,
    Broken,
}

/// What is wrong with the surroundings of a run.
#[derive(Default)]
pub struct Faults {
    pub plan: Option<String>,
    /// A limit on the size of files, in blocks of 512 bytes.
    pub limit: Option<u64>,
    /// Whether the plan holds for standard output as well.
    pub std: bool,
}

pub fn run(dir: &Path, logs: &Path, args: &[OsString], stdout: Stdout, faults: &Faults) -> Result<Ran, String> {
    let exe = std::env::var_os("MON_CLI").expect("MON_CLI names the tool");
    let mut c = match faults.limit {
        None => Command::new(exe),
        Some(n) => {
            let mut c = Command::new("/bin/sh");
            c.arg("-c").arg(format!("ulimit -f {n}; trap '' XFSZ; exec \"$@\"")).arg("sh").arg(exe);
            c
        }
    };
    let log = logs.join("faults");
    let _ = std::fs::remove_file(&log);
    if let Some(p) = &faults.plan {
        let shim = std::env::var_os("MON_SHIM").expect("MON_SHIM names the shim");
        c.env("LD_PRELOAD", shim).env("MONF_DIR", dir).env("MONF_PLAN", p).env("MONF_LOG", &log);
        if faults.std {
            c.env("MONF_STD", "1");
        }
    }
    c.args(args).current_dir(dir).stdin(Stdio::null()).process_group(0);
    // Pipes hold far more than the tool ever prints, and know no limits of size.
    c.stderr(Stdio::piped());
    match stdout {
        Stdout::Pipe => {
            c.stdout(Stdio::piped());
        }
        Stdout::Full => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
        }
        Stdout::Broken => {
            // The reader is gone before anything is written.
            let mut reader = Command::new("/bin/true").stdin(Stdio::piped()).spawn().expect("true");
            let pipe = reader.stdin.take().unwrap();
            reader.wait().expect("true");
            c.stdout(pipe);
        }
    }
    let mut p = c.spawn().map_err(|e| format!("harness: the tool cannot be started: {e}")).expect("the tool");
    let start = Instant::now();
    let mut nap = Duration::from_micros(200);
    let status = loop {
        if let Some(s) = p.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(nap);
        nap = (nap * 3 / 2).min(Duration::from_millis(10));
        if start.elapsed() > Duration::from_secs(40) {
            let _ = p.kill();
            let _ = p.wait();
            return Err(format!("lsystem {} does not finish", shown(args)));
        }
    };
    fn text(p: Option<impl Read>) -> String {
        let mut b = vec![];
        p.map(|mut p| p.read_to_end(&mut b));
        String::from_utf8_lossy(&b).into_owned()
    }
    Ok(Ran { code: status.code(), signal: status.signal(), err: text(p.stderr.take()), out: text(p.stdout.take()) })
}

pub fn shown(args: &[OsString]) -> String {
    args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ")
}

/// Everything in a directory, with its contents.
pub fn listing(dir: &Path) -> BTreeSet<(PathBuf, Vec<u8>)> {
    let mut out = BTreeSet::new();
    for e in std::fs::read_dir(dir).expect("scratch directory") {
        let p = e.expect("scratch directory").path();
        let m = std::fs::symlink_metadata(&p).expect("scratch directory");
        if m.is_dir() {
            out.extend(listing(&p));
            out.insert((p, b"directory".to_vec()));
        } else if m.is_symlink() {
            out.insert((p, b"link".to_vec()));
        } else {
            let b = std::fs::read(&p).expect("scratch file");
            out.insert((p, b));
        }
    }
    out
}

/// What a plant may come to. A plant of chance may come to several things.
struct Expected {
    drawings: Vec<(Drawing, usize)>,
    may_fail: bool,
}

fn expected(v: &Vocab, rules: &[Rule], axiom: &[usize], n: usize, delta: f32, limit: usize, ways: usize) -> Option<Expected> {
    let mut now: BTreeSet<Vec<usize>> = [axiom.to_vec()].into();
    let mut may_fail = false;
    for _ in 0..n {
        let mut next = BTreeSet::new();
        for s in &now {
            let Some(alts) = step(rules, s) else {
                may_fail = true;
                continue;
            };
            let mut ends: BTreeSet<Vec<usize>> = [vec![]].into();
            for a in alts {
                if a.len() == 1 {
                    ends = ends
                        .into_iter()
                        .map(|mut e| {
                            e.extend_from_slice(a[0]);
                            e
                        })
                        .collect();
                } else {
                    ends = ends.iter().flat_map(|e| a.iter().map(move |b| [e, *b].concat())).collect();
                }
                if ends.len() > ways || ends.iter().any(|e| e.len() > limit) {
                    return None;
                }
            }
            next.extend(ends);
            if next.len() > ways {
                return None;
            }
        }
        if next == now && !may_fail {
            break;
        }
        now = next;
    }
    let mut drawings = vec![];
    for s in &now {
        match turtle::draw(s.iter().map(|i| turtle::act(&v.names[*i])), delta) {
            None => may_fail = true,
            Some(d) => drawings.push((d, s.len())),
        }
    }
    Some(Expected { drawings, may_fail })
}

fn right(text: &str, w: usize, h: usize, e: &Expected, delta: f32) -> Case {
    let mut why = Err("it should have failed".to_string());
    for (d, steps) in &e.drawings {
        let end: Vec<_> = d.end.into_iter().collect();
        why = svgx::judge(text, w, h, &d.segments, &end, turtle::tolerance(d, *steps, delta));
        if why.is_ok() {
            break;
        }
    }
    why
}

/// A run that fails says so, and does not crash.
pub fn failed(r: &Ran, what: &str) -> Case {
    ensure!(r.signal.is_none(), "{what}: the tool is ended by signal {}: {}", r.signal.unwrap(), r.err);
    ensure!(r.code != Some(101), "{what}: the tool panics: {}", r.err);
    ensure!(r.code != Some(0), "{what}: the tool reports success");
    ensure!(!r.err.trim().is_empty(), "{what}: the tool exits with {:?} without a message on standard error", r.code);
    Ok(())
}

fn name(rng: &mut Rng) -> OsString {
    let mut base: Vec<u8> = match rng.below(8) {
        0 => "日本 é".as_bytes().to_vec(),
        1 => b"a\xff\xfeb".to_vec(),
        2 => b"with space".to_vec(),
        3 => b".hidden".to_vec(),
        4 => b"a.b.c".to_vec(),
        5 => b"name.".to_vec(),
        6 => b"svg".to_vec(),
        _ => b"plant".to_vec(),
    };
    if rng.chance(1, 12) {
        base.extend(std::iter::repeat_n(b'x', 200));
    }
    OsString::from_vec(base)
}

/// The file the tool is to write when asked for `o`.
fn target(o: &Path) -> PathBuf {
    let file = o.file_name().expect("a file name").as_bytes();
    let dot = file.iter().rposition(|c| *c == b'.').filter(|p| *p > 0);
    let (stem, ext) = match dot {
        None => (file, None),
        Some(p) => (&file[..p], Some(&file[p + 1..])),
    };
    if ext.is_some_and(|e| e.eq_ignore_ascii_case(b"svg")) {
        return o.to_path_buf();
    }
    o.with_file_name(OsStr::from_bytes(&[stem, b".svg"].concat()))
}

struct Request {
    args: Vec<OsString>,
    file: PathBuf,
    /// Where the drawing is to be.
    out: PathBuf,
    w: usize,
    h: usize,
    verbose: bool,
}

fn request(rng: &mut Rng, dir: &Path, faulty: bool) -> Request {
    let mut input = name(rng);
    input.push(*rng.pick(&[".lsys", ".plant", "", ".svg.txt"]));
    let file = dir.join("in").join(&input);
    std::fs::create_dir_all(dir.join("in")).expect("scratch");
    let absolute = faulty || rng.chance(1, 2);
    let verbose = rng.chance(1, 3);
    let mut opts: Vec<Vec<OsString>> = vec![];
    let (mut w, mut h) = (500, 500);
    let size = |rng: &mut Rng| match rng.below(4) {
        0 => *rng.pick(&[1usize, 2, 10, 500, 4096, 100_000]),
        _ => rng.range(1, 2000),
    };
    let flag = |rng: &mut Rng, names: &[&str], value: &OsStr| -> Vec<OsString> {
        let n = *rng.pick(names);
        if n.starts_with("--") && rng.chance(1, 2) {
            let mut o = OsString::from(format!("{n}="));
            o.push(value);
            return vec![o];
        }
        vec![n.into(), value.to_os_string()]
    };
    if rng.chance(2, 3) {
        w = size(rng);
        opts.push(flag(rng, &["--width"], OsStr::new(&w.to_string())));
    }
    if rng.chance(2, 3) {
        h = size(rng);
        opts.push(flag(rng, &["--height"], OsStr::new(&h.to_string())));
    }
    let mut out = dir.join("out.svg");
    if faulty || rng.chance(4, 5) {
        let mut n = name(rng);
        n.push(*rng.pick(&[".svg", ".SVG", ".sVg", "", ".png", ".svgz", ".tar.gz", ".svg.bak", ".xsvg"]));
        let sub = *rng.pick(&["", "", "sub", "sub/deeper"]);
        std::fs::create_dir_all(dir.join(sub)).expect("scratch");
        let relative = Path::new(sub).join(n);
        out = target(&dir.join(&relative));
        let given = if absolute { dir.join(relative) } else { relative };
        opts.push(flag(rng, &["-o", "--output"], given.as_os_str()));
    }
    if verbose {
        opts.push(vec![(*rng.pick(&["-v", "--verbose"])).into()]);
    }
    opts.push(vec![if absolute { file.clone().into_os_string() } else { Path::new("in").join(&input).into_os_string() }]);
    rng.shuffle(&mut opts);
    let mut args: Vec<OsString> = vec![];
    if verbose && rng.chance(1, 3) {
        // Global options may come first.
        opts.retain(|o| o != &vec![OsString::from("-v")] && o != &vec![OsString::from("--verbose")]);
        args.push("-v".into());
    }
    args.push("interpret".into());
    args.extend(opts.into_iter().flatten());
    Request { args, file, out, w, h, verbose }
}

fn small_plant(rng: &mut Rng, v: &Vocab) -> Option<(Plant, Expected)> {
    let random = rng.chance(1, 4);
    let kind = Kind {
        rules: if random { 2 } else { *rng.pick(&[1, 2, 4, 8]) },
        random,
        contexts: *rng.pick(&[0, 0, 1, 2]),
        body: if random { 3 } else { *rng.pick(&[1, 4, 8, 20]) },
        axiom: *rng.pick(&[1, 1, 3, 12]),
        max_n: *rng.pick(&[0, 1, 2, 3, 5]),
        balanced: rng.chance(9, 10),
    };
    let p = plants::plant(rng, v, kind);
    let e = expected(v, &p.rules().0, &p.axiom, p.n, p.delta, 20_000, 200)?;
    Some((p, e))
}

/// Judges one run of a plant: success exactly if the drawing is there.
fn verdict(r: &Ran, q: &Request, p: &Plant, e: &Expected, spoiled: bool, before: &BTreeSet<(PathBuf, Vec<u8>)>, dir: &Path, what: &str) -> Case {
    let after = listing(dir);
    if r.code == Some(0) {
        ensure!(!e.drawings.is_empty(), "{what}: success, although the plant cannot be drawn");
        let text = match std::fs::read(&q.out) {
            Ok(b) => String::from_utf8(b).map_err(|_| format!("{what}: the SVG is not UTF-8"))?,
            Err(x) => return Err(format!("{what}: success, but {:?} cannot be read: {x}", q.out)),
        };
        right(&text, q.w, q.h, e, p.delta).map_err(|x| format!("{what}: success, but {x}"))?;
        let changed: Vec<_> = after.symmetric_difference(before).filter(|(p, _)| *p != q.out).collect();
        ensure!(changed.is_empty(), "{what}: other files have changed too: {:?}", changed.iter().map(|c| &c.0).collect::<Vec<_>>());
        return Ok(());
    }
    failed(r, what)?;
    if !spoiled {
        ensure!(e.may_fail, "{what}: the tool fails: {}", r.err);
        ensure!(after == *before, "{what}: the run fails, but files have changed");
    }
    Ok(())
}

fn good(rng: &mut Rng, v: &Vocab, i: u64, cov: &mut Cov) -> Case {
    let Some((p, e)) = small_plant(rng, v) else {
        cov.count("plants too large to follow", 1);
        return Ok(());
    };
    let s = Scratch::new(i);
    let dir = s.0.join("d");
    std::fs::create_dir_all(&dir).expect("scratch");
    let q = request(rng, &dir, false);
    std::fs::write(&q.file, &p.text).expect("scratch");
    if rng.chance(1, 3) {
        // A longer file is in the way.
        std::fs::write(&q.out, vec![b'z'; 300_000]).expect("scratch");
    }
    let before = listing(&dir);
    let stdout = match rng.below(8) {
        0 => Stdout::Full,
        1 => Stdout::Broken,
        _ => Stdout::Pipe,
    };
    let full = !matches!(stdout, Stdout::Pipe);
    let what = format!("lsystem {} on {:?}{}", shown(&q.args), p.text, if full { " without a usable standard output" } else { "" });
    let r = run(&dir, &s.0, &q.args, stdout, &Faults::default())?;
    verdict(&r, &q, &p, &e, false, &before, &dir, &what)?;
    cov.count(if r.code == Some(0) { "drawings written" } else { "plants that cannot be drawn" }, 1);
    cov.count("runs without a usable standard output", full as u64);
    cov.count("verbose runs", q.verbose as u64);
    cov.distinct(&what);
    cov.sample(|| what.clone());
    // Once more over what is there: nothing of the past may be left.
    if rng.chance(1, 4) && r.code == Some(0) {
        if let Some((p2, e2)) = small_plant(rng, v) {
            std::fs::write(&q.file, &p2.text).expect("scratch");
            let before = listing(&dir);
            let r = run(&dir, &s.0, &q.args, Stdout::Pipe, &Faults::default())?;
            verdict(&r, &q, &p2, &e2, false, &before, &dir, &format!("lsystem {} on {:?}, again", shown(&q.args), p2.text))?;
            cov.count("drawings written over others", 1);
        }
    }
    Ok(())
}

/// Reading, opening and writing fail, stop short or are interrupted.
fn faulty(rng: &mut Rng, v: &Vocab, i: u64, cov: &mut Cov) -> Case {
    let Some((p, e)) = small_plant(rng, v) else { return Ok(()) };
    let s = Scratch::new(i);
    let dir = s.0.join("d");
    std::fs::create_dir_all(&dir).expect("scratch");
    let q = request(rng, &dir, true);
    std::fs::write(&q.file, &p.text).expect("scratch");
    if rng.chance(1, 2) {
        std::fs::write(&q.out, vec![b'z'; 3000]).expect("scratch");
    }
    let before = listing(&dir);
    let mut faults = Faults::default();
    if rng.chance(1, 4) {
        faults.limit = Some(*rng.pick(&[0, 1, 1, 2, 4, 8, 64]));
    } else {
        const HARD: &[&str] = &["EIO", "ENOSPC", "EDQUOT", "EFBIG", "EACCES", "EAGAIN", "EMFILE", "ENOMEM", "EROFS"];
        let mut words: Vec<String> = vec![];
        for kind in ["o", "r", "w"] {
            if rng.chance(1, 3) {
                continue;
            }
            for _ in 0..rng.below(4) {
                let w = match rng.below(5) {
                    0 => "n".into(),
                    1 => "EINTR".into(),
                    2 if rng.chance(1, 3) => rng.pick(HARD).to_string(),
                    _ if kind == "o" => "n".into(),
                    _ => format!("s{}", *rng.pick(&[1, 2, 3, 7, 16, 100, 1000])),
                };
                words.push(format!("{kind}:{w}"));
            }
            if kind != "o" {
                match rng.below(8) {
                    0 => words.push(format!("{kind}:{}*", rng.pick(HARD))),
                    1 | 2 => words.push(format!("{kind}:s{}*", rng.range(1, 50))),
                    _ => {}
                }
            }
        }
        faults.plan = Some(words.join(" "));
    }
    let what = format!("lsystem {} on {:?} with faults {:?}, limit {:?}", shown(&q.args), p.text, faults.plan, faults.limit);
    let r = run(&dir, &s.0, &q.args, Stdout::Pipe, &faults)?;
    let log = std::fs::read_to_string(s.0.join("faults")).unwrap_or_default();
    let hard = log.lines().any(|l| l.contains(" E") && !l.ends_with("EINTR"));
    // With a limit, the drawing may or may not fit: the verdict compares success with the file.
    let fits = faults.limit.is_none_or(|n| match expected_size(&q.out, r.code) {
        Some(b) => b <= n * 512,
        None => false,
    });
    let spoiled = hard || (faults.limit.is_some() && (!fits || r.code != Some(0)));
    if faults.limit.is_some() && r.code != Some(0) && !e.may_fail {
        // It really did not fit: without the limit, the file is larger.
        failed(&r, &what)?;
        let again = run(&dir, &s.0, &q.args, Stdout::Pipe, &Faults::default())?;
        ensure!(again.code == Some(0), "{what}: the tool fails even without the limit: {}", again.err);
        let size = std::fs::metadata(&q.out).map(|m| m.len()).unwrap_or(0);
        ensure!(size > faults.limit.unwrap() * 512, "{what}: the tool fails although the {size} bytes fit: {}", r.err);
        cov.count("writes cut short by a limit", 1);
    } else {
        verdict(&r, &q, &p, &e, spoiled, &before, &dir, &what)?;
    }
    cov.count("runs with faults", 1);
    cov.count("faults that occurred", log.lines().count() as u64);
    cov.count("runs with an error that cannot be overcome", hard as u64);
    cov.count("runs that succeed in spite of faults", (r.code == Some(0) && !log.is_empty()) as u64);
    cov.distinct(&what);
    Ok(())
}

fn expected_size(out: &Path, code: Option<i32>) -> Option<u64> {
    (code == Some(0)).then(|| std::fs::metadata(out).map(|m| m.len()).ok()).flatten()
}

/// Requests that cannot be met.
fn refused(rng: &mut Rng, v: &Vocab, i: u64, cov: &mut Cov) -> Case {
    let s = Scratch::new(i);
    let dir = s.0.join("d");
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut q = request(rng, &dir, false);
    let word = |rng: &mut Rng| v.names[rng.below(v.len())].clone();
    let fine = "n = 1\ninitial: Forward X\nX -> Forward + Forward\n";
    let kind = rng.below(18);
    let mut old = rng.chance(1, 2);
    let text: Vec<u8> = match kind {
        0 => format!("initial: Forward ]\nX -> {}\n", word(rng)).into_bytes(),
        1 => b"n = 3\ninitial: Forward X\nX -> X [ Forward ] ]\n".to_vec(),
        2 => b"n = 1\ninitial: X\nX -> 0.6 Forward\nX -> 0.6 Move\n".to_vec(),
        3 => b"n = 1\ninitial: X\n".to_vec(),
        4 => b"n = 1\nX -> Forward\n".to_vec(),
        5 => b"".to_vec(),
        6 => b"n = 1\ninitial: X\nX -> Forward \xff\xfe\n".to_vec(),
        7 => format!("{fine}n = {}\n", rng.pick(&["-1", "many", "1.5", ""])).into_bytes(),
        8 => format!("{fine}{} -> {}\n", *rng.pick(&["", "X Move", "X <", "> X", "X < > X"]), word(rng)).into_bytes(),
        9 => format!("{fine}delta = {}\n", rng.pick(&["x", "", "1,5", "nan", "inf"])).into_bytes(),
        10 => format!("{fine}{}\n", word(rng)).into_bytes(),
        11 => format!("{fine}\n X -> {} Forward\n", rng.pick(&["0", "1.01", "-1", "nan"])).into_bytes(),
        // The file is fine but somewhere else, or cannot be a file.
        12 | 13 => fine.into(),
        // The output is in the way.
        _ => fine.into(),
    };
    std::fs::write(&q.file, &text).expect("scratch");
    let mut what = format!("lsystem {} on {:?}", shown(&q.args), String::from_utf8_lossy(&text));
    match kind {
        12 => {
            std::fs::remove_file(&q.file).expect("scratch");
            what += ", which is not there";
        }
        13 => {
            std::fs::remove_file(&q.file).expect("scratch");
            std::fs::create_dir(&q.file).expect("scratch");
            what += ", which is a directory";
        }
        14 => {
            old = false;
            std::fs::create_dir_all(&q.out).expect("scratch");
            what += ", with a directory at the output";
        }
        15 => {
            old = false;
            std::os::unix::fs::symlink("/dev/full", &q.out).expect("scratch");
            what += ", with a full device at the output";
        }
        16 => {
            old = false;
            std::os::unix::fs::symlink(dir.join("no/such/place.svg"), &q.out).expect("scratch");
            what += ", with a dangling link at the output";
        }
        17 => {
            old = false;
            let bad = *rng.pick(&["no/such/place.svg", "in/../none/x.svg", "file/x.svg", "file/", "..", "", "/", "."]);
            std::fs::write(dir.join("file.svg"), "x").expect("scratch");
            std::fs::write(dir.join("file"), "x").expect("scratch");
            if bad == "file/" {
                // That is file.svg.
                return Ok(());
            }
            let file = q.file.clone().into_os_string();
            q.args = vec!["interpret".into(), file, "-o".into(), bad.into()];
            what = format!("lsystem {} on {fine:?}", shown(&q.args));
        }
        _ => {}
    }
    if old {
        std::fs::write(&q.out, "the drawing of yesterday").expect("scratch");
    }
    let before = listing(&dir);
    let r = run(&dir, &s.0, &q.args, Stdout::Pipe, &Faults::default())?;
    failed(&r, &what)?;
    ensure!(listing(&dir) == before, "{what}: the run fails, but files have changed");
    cov.count("requests refused", 1);
    cov.distinct(&what);
    Ok(())
}

/// The command line itself.
fn line(rng: &mut Rng, i: u64, cov: &mut Cov) -> Case {
    let s = Scratch::new(i);
    let dir = s.0.join("d");
    std::fs::create_dir_all(&dir).expect("scratch");
    std::fs::write(dir.join("p"), "n = 0\ninitial: Forward\nX -> X\n").expect("scratch");
    let os = |w: &[&str]| w.iter().map(OsString::from).collect::<Vec<_>>();
    let bad: &[&[&str]] = &[
        &[],
        &["interpret"],
        &["draw", "p"],
        &["interpret", "p", "q"],
        &["interpret", "p", "--width", "x"],
        &["interpret", "p", "--width", "-1"],
        &["interpret", "p", "--height", "1.5"],
        &["interpret", "p", "--height", "99999999999999999999999"],
        &["interpret", "p", "--size", "3"],
        &["interpret", "p", "-o"],
        &["interpret", "p", "--width", ""],
        &["interpret", ""],
        &["describe", "p"],
    ];
    let args = os(rng.pick(bad));
    let before = listing(&dir);
    let r = run(&dir, &s.0, &args, Stdout::Pipe, &Faults::default())?;
    let what = format!("lsystem {}", shown(&args));
    failed(&r, &what)?;
    ensure!(listing(&dir) == before, "{what}: the run fails, but files have changed");
    cov.count("command lines refused", 1);
    cov.distinct(&what);
    Ok(())
}

pub fn case(rng: &mut Rng, i: u64, cov: &mut Cov, _: Tier) -> Case {
    let v = if rng.chance(1, 2) { Vocab::new(plants::TURTLE.iter().map(|s| s.to_string()).collect())? } else { plants::vocab(rng, 3)? };
    debug_assert!(v.names.iter().all(|n| gen::plain_name(n, Place::Plant)));
    match rng.below(10) {
        0..=4 => good(rng, &v, i, cov),
        5 | 6 => faulty(rng, &v, i, cov),
        7 | 8 => refused(rng, &v, i, cov),
        _ => line(rng, i, cov),
    }
}
