//! One simulated run: the choice tapes every decision is drawn from, the
//! event digest, the statistics, and the seams to clocks and hash seeds.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use llm_samplers_simstd::sim;

// ------------------------------------------------------------------ PRNG

#[derive(Clone, Debug)]
pub struct Prng(pub u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        let mut p = Prng(seed ^ 0x9E37_79B9_7F4A_7C15);
        p.next();
        p
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32) * n as u64 >> 32) as u32
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Prng::new(a ^ b.rotate_left(23).wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}

// ------------------------------------------------------------------ tape

/// A sequence of small integers; recorded from the PRNG or replayed.
/// Index 0 is always the simplest choice, so shrinking lowers values and
/// drops entries.
#[derive(Clone, Debug)]
pub struct Tape {
    replay: Option<Vec<u32>>,
    rng: Prng,
    pub vals: Vec<u32>,
}

impl Tape {
    pub fn record(seed: u64) -> Self {
        Tape {
            replay: None,
            rng: Prng::new(seed),
            vals: vec![],
        }
    }
    pub fn replay(vals: Vec<u32>) -> Self {
        Tape {
            replay: Some(vals),
            rng: Prng::new(0),
            vals: vec![],
        }
    }
    pub fn draw(&mut self, n: u32) -> u32 {
        self.decide(n, |r| r.below(n))
    }
    /// Record what `f` decides (a value below `n`), or replay it.
    pub fn decide(&mut self, n: u32, f: impl FnOnce(&mut Prng) -> u32) -> u32 {
        let v = match &self.replay {
            Some(t) => t.get(self.vals.len()).copied().unwrap_or(0),
            None => f(&mut self.rng),
        }
        .min(n.saturating_sub(1));
        self.vals.push(v);
        v
    }
}

// ------------------------------------------------------------- violation

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable class: what the minimiser must preserve.
    pub class: String,
    pub msg: String,
}

pub type Check = Result<(), Violation>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        class: class.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {
        if !($c) { return $crate::ctx::viol($class, format!($($a)*)); }
    };
}

// ------------------------------------------------------------------- ctx

pub struct Ctx {
    pub plan: Tape,
    pub sched: Tape,
    pub run_seed: u64,
    pub stats: BTreeMap<String, u64>,
    pub digest: u64,
    /// Digest of the scheduling decisions alone (0: nothing was scheduled).
    pub sched_digest: u64,
    pub nontrivial: bool,
    pub sim_steps: u64,
    pub log: Option<Vec<String>>,
    pub thorough: bool,
}

impl Ctx {
    pub fn new(plan: Tape, sched: Tape, run_seed: u64, tracing: bool) -> Self {
        Ctx {
            plan,
            sched,
            run_seed,
            stats: BTreeMap::new(),
            digest: 0xcbf2_9ce4_8422_2325,
            sched_digest: 0,
            nontrivial: false,
            sim_steps: 0,
            log: tracing.then(Vec::new),
            thorough: false,
        }
    }

    // -- choices
    pub fn draw(&mut self, n: u32) -> u32 {
        self.plan.draw(n)
    }
    /// Inclusive range; `lo` is simplest.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    /// True with probability `num`/`den`; false is simplest.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u32) as usize].clone()
    }
    /// Index drawn by weight.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let n = ws.len() as u32;
        self.plan.decide(n, |r| {
            let mut x = r.below(total);
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u32;
                }
                x -= w;
            }
            n - 1
        }) as usize
    }
    /// Multiple of `step` in `[lo, lo + step*(n-1)]`.
    pub fn grid(&mut self, lo: f32, step: f32, n: u32) -> f32 {
        lo + step * self.draw(n) as f32
    }
    /// Hidden seed for a stream (not shrunk value by value).
    pub fn seed(&mut self) -> u64 {
        let a = self.draw(1 << 16) as u64;
        mix(0x5eed, a)
    }

    // -- observations
    pub fn stat(&mut self, k: &str) {
        self.stat_n(k, 1);
    }
    pub fn stat_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn ev(&mut self, s: &str) {
        for b in s.bytes() {
            self.digest = (self.digest ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.digest = (self.digest ^ 0xff).wrapping_mul(0x100_0000_01b3);
        if let Some(l) = &mut self.log {
            l.push(s.to_string());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.log.is_some() {
            let s = f();
            self.log.as_mut().unwrap().push(s);
        }
    }
}

// ------------------------------------------------------- hash-seed seam

thread_local! {
    static HASH_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0x1234_5678) };
}

/// From here on this thread's `RandomState`s (and `getrandom`) derive from `s`.
/// Takes effect for `RandomState` only on a thread that has not used one yet.
pub fn set_entropy(s: u64) {
    HASH_SEED.with(|h| h.set(s));
}

/// The process's only entropy source: everything that would ask the kernel
/// (std's hash seeds, the getrandom crate behind `thread_rng`) asks here.
///
/// # Safety
/// Same contract as libc's getrandom: `buf` is valid for `len` bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.try_with(|h| h.get()).unwrap_or(1);
    for i in 0..len {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 27;
        *buf.add(i) = (z >> 13) as u8;
    }
    let _ = HASH_SEED.try_with(|h| h.set(s));
    len as isize
}

/// Every third clock runs evenly, the others in jumps.
fn start_clock(seed: u64) {
    sim::set_clock(std::time::Duration::from_nanos(seed >> 8), if seed % 3 == 0 { 0 } else { mix(seed, 9) | 1 });
}

/// Run `f` on a fresh thread whose hash seeds and clock come from `seed`.
pub fn on_fresh_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> std::thread::Result<T> {
    std::thread::scope(|s| {
        s.spawn(move || {
            set_entropy(seed);
            start_clock(mix(seed, 7));
            f()
        })
        .join()
    })
}

// ------------------------------------------------------- simulated tasks

pub type Task<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Run tasks under the seeded scheduler; scheduling decisions go on the
/// schedule tape.  `policy` chooses how the scheduler explores.
pub fn run_tasks(ctx: &mut Ctx, tasks: Vec<Task<'_>>, max_steps: u64) -> Result<sim::Report, Violation> {
    let policy = ctx.weighted(&[3, 4, 3, 3]);
    let tape = Arc::new(Mutex::new(std::mem::replace(&mut ctx.sched, Tape::replay(vec![]))));
    let t2 = tape.clone();
    let n = tasks.len();
    // PCT-style priorities, used by policy 3 only.
    let mut pr = Prng::new(mix(ctx.run_seed, 0x9c7));
    let mut prio: Vec<u64> = (0..n).map(|_| pr.next() >> 1).collect();
    let chooser: sim::Chooser = Box::new(move |runnable: &[usize]| {
        let k = runnable.len() as u32;
        t2.lock().unwrap().decide(k, |r| match policy {
            0 => (r.below(8) == 0).then(|| r.below(k)).unwrap_or(0),
            1 => (r.below(3) == 0).then(|| r.below(k)).unwrap_or(0),
            2 => r.below(k),
            _ => {
                if r.below(12) == 0 {
                    // Demote whoever leads.
                    let lead = *runnable.iter().max_by_key(|t| prio[**t]).unwrap();
                    prio[lead] = r.next() >> 20;
                }
                (0..k).max_by_key(|i| prio[runnable[*i as usize]]).unwrap()
            }
        }) as usize
    });
    let seed = ctx.run_seed;
    let rep = sim::run(tasks, chooser, max_steps, &|i| {
        set_entropy(mix(seed, 100 + i as u64));
        start_clock(mix(seed, 200 + i as u64));
    });
    ctx.sched = std::mem::replace(&mut *tape.lock().unwrap(), Tape::replay(vec![]));
    ctx.sim_steps += rep.steps;
    ctx.stat_n("sched:scheduling_points", rep.steps);
    ctx.stat_n("sched:context_switches", rep.switches);
    ctx.stat_n("sched:lock_contention", rep.contended);
    if rep.switches > n as u64 {
        ctx.stat("sched:runs_with_preemption");
    }
    for e in &rep.trace {
        ctx.digest = mix(ctx.digest, (e.task as u64) << 8 | e.next as u64);
        ctx.sched_digest = mix(ctx.sched_digest, (e.task as u64) << 8 | e.next as u64);
    }
    if ctx.log.is_some() {
        let lines: Vec<String> = rep
            .trace
            .iter()
            .map(|e| {
                let obj = if e.object == usize::MAX { String::new() } else { format!(" #{}", e.object) };
                let sw = if e.next == e.task { String::new() } else { format!("  -> switch to task {}", e.next) };
                format!("  sched: task {} at {}{obj}{sw}", e.task, e.label)
            })
            .collect();
        ctx.log.as_mut().unwrap().extend(lines);
    }
    match &rep.outcome {
        sim::Outcome::Completed => (),
        sim::Outcome::Deadlock(w) => return viol("deadlock", format!("every remaining thread is blocked: {w}")),
        sim::Outcome::StepLimit => return viol("livelock", format!("no completion within {max_steps} scheduling points")),
    }
    if let Some(p) = rep.escaped.iter().flatten().next() {
        return viol("unexpected-panic", format!("a simulated task panicked: {}", panic_text(p.as_ref())));
    }
    Ok(rep)
}

// --------------------------------------------------------- panic capture

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(f) = p.downcast_ref::<crate::res::SimFault>() {
        return format!("injected fault #{}", f.0);
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        return s.to_string();
    }
    if let Some(s) = p.downcast_ref::<String>() {
        return s.clone();
    }
    "panic with a non-text payload".to_string()
}

/// Call into the code under test; a panic becomes `Err`.  The simulator's own
/// abort unwinds straight through.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<sim::SimAbort>() => std::panic::resume_unwind(p),
        Err(p) => Err(p),
    }
}

// --------------------------------------------------------- memory seam

/// Counts what each thread has allocated and not freed.
pub struct Counting;

thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}

/// Bytes this thread allocated, less those it freed.
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}

fn count(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

// SAFETY: forwards to the system allocator.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        count(l.size() as i64);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        count(-(l.size() as i64));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        std::alloc::System.realloc(p, l, n)
    }
}
