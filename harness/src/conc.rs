//! Threads, logical time and perturbation of schedules.

use std::alloc::{GlobalAlloc, Layout, System as Heap};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

use crate::core::lib;

/// Delays threads at random where they allocate. Allocations happen inside and between the
/// library's critical sections, and the delays need no knowledge of where these are.
pub struct Perturbing;

thread_local! {
    static STATE: Cell<u64> = const { Cell::new(0) };
    static LEVEL: Cell<u32> = const { Cell::new(0) };
}

fn perturb() {
    let _ = STATE.try_with(|c| {
        let mut x = c.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        let level = LEVEL.try_with(|l| l.get()).unwrap_or(0) as u64;
        let roll = x >> 40 & 0xff;
        if roll < 8 * level {
            c.set(0);
            match x >> 8 & 7 {
                0..=3 => std::thread::yield_now(),
                4 | 5 => {
                    for _ in 0..(x >> 16 & 0x3ff) {
                        std::hint::spin_loop();
                    }
                }
                6 => std::thread::sleep(std::time::Duration::from_micros(1 + (x >> 16 & 31))),
                _ => {
                    for _ in 0..8 {
                        std::thread::yield_now();
                    }
                }
            }
            c.set(x);
        }
    });
}

unsafe impl GlobalAlloc for Perturbing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        perturb();
        meter(l.size() as i64);
        Heap.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        perturb();
        meter(-(l.size() as i64));
        Heap.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        perturb();
        meter(n as i64 - l.size() as i64);
        Heap.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        perturb();
        meter(l.size() as i64);
        Heap.alloc_zeroed(l)
    }
}

// What this thread took from the heap, less what it gave back; and the most it ever had since asked.
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
}

fn meter(by: i64) {
    let _ = LIVE.try_with(|c| {
        let n = c.get() + by;
        c.set(n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
        let _ = CALLS.try_with(|p| p.set(p.get() + (by > 0) as u64));
        let _ = BYTES.try_with(|p| p.set(p.get() + by.max(0)));
    });
}

/// Bytes this thread has on the heap.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// The most bytes beyond those it had before, the calls for more, and the bytes these asked for,
/// while f ran.
pub fn metered<T>(f: impl FnOnce() -> T) -> (T, i64, u64, i64) {
    let (before, calls, bytes) = (live(), CALLS.with(|c| c.get()), BYTES.with(|c| c.get()));
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get()) - before, CALLS.with(|c| c.get()) - calls, BYTES.with(|c| c.get()) - bytes)
}

/// Nanoseconds of CPU time this thread has used.
pub fn cpu() -> u64 {
    #[repr(C)]
    struct Time {
        sec: i64,
        nano: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Time) -> i32;
    }
    let mut t = Time { sec: 0, nano: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0;
    }
    t.sec as u64 * 1_000_000_000 + t.nano as u64
}

static CLOCK: AtomicU64 = AtomicU64::new(1);

/// Logical time. A call is recorded before it is made, its return afterwards.
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// A barrier that nobody waits at for ever: a thread that fails opens it for all.
pub struct Gate {
    n: usize,
    arrived: AtomicUsize,
    open: AtomicBool,
}

impl Gate {
    pub fn new(n: usize) -> Gate {
        Gate { n, arrived: AtomicUsize::new(0), open: AtomicBool::new(false) }
    }
    /// Waits until all have arrived at the given round (counted from one).
    pub fn wait(&self, round: usize) {
        self.arrived.fetch_add(1, Ordering::SeqCst);
        let mut k = 0;
        while self.arrived.load(Ordering::SeqCst) < round * self.n && !self.open.load(Ordering::SeqCst) {
            k += 1;
            if k % 64 == 0 || cfg!(miri) {
                std::thread::yield_now();
            } else {
                std::hint::spin_loop();
            }
        }
    }
    pub fn abandon(&self) {
        self.open.store(true, Ordering::SeqCst);
    }
}

/// Runs f on n threads that start together. The first failure is returned.
pub fn threads<R: Send>(
    n: usize,
    seed: u64,
    level: u32,
    f: impl Fn(usize, &Gate) -> Result<R, String> + Sync,
) -> Result<Vec<R>, String> {
    let gate = Gate::new(n);
    let out: Mutex<Vec<(usize, Result<R, String>)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..n {
            let (gate, out, f) = (&gate, &out, &f);
            // With very many threads, small stacks.
            let stack = if n > 40 { 1 << 19 } else { 2 << 20 };
            let spawned = std::thread::Builder::new().stack_size(stack).spawn_scoped(s, move || {
                gate.wait(1);
                LEVEL.with(|l| l.set(level));
                STATE.with(|c| c.set(if level == 0 || cfg!(miri) { 0 } else { (seed ^ (t as u64 + 1) << 17) | 1 }));
                let r = lib("a thread", || f(t, gate)).unwrap_or_else(Err);
                STATE.with(|c| c.set(0));
                if r.is_err() {
                    gate.abandon();
                }
                out.lock().unwrap().push((t, r));
            });
            if let Err(e) = spawned {
                eprintln!("no thread {t} of {n}: {e}");
                std::process::exit(3);
            }
        }
    });
    let mut out = out.into_inner().unwrap();
    out.sort_by_key(|(t, _)| *t);
    out.into_iter().map(|(_, r)| r).collect()
}

/// How strongly to perturb, and how many threads to use.
pub fn shape(rng: &mut crate::rng::Rng) -> (usize, u32) {
    let level = *rng.pick(&[0, 0, 1, 2, 4, 8]);
    let n = if cfg!(miri) { rng.range(2, 3) } else { *rng.pick(&[2, 2, 3, 3, 4, 6, 8, 12]) };
    (n, level)
}
