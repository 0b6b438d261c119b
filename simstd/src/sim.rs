//! The cooperative scheduler.  Simulated tasks are real threads, but exactly
//! one of them runs at any moment: each parks at every scheduling point and
//! the scheduler's chooser decides who is released next.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

/// Payload of the panic that unwinds every task when a run is abandoned
/// (deadlock, step limit).  Harness code must never swallow it.
#[derive(Debug, Clone, Copy)]
pub struct SimAbort;

/// Why a run stopped.
#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Completed,
    Deadlock(String),
    StepLimit,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}

/// Picks one of the runnable tasks (by index); index 0 is "keep running the current one"
/// when it is runnable.
pub type Chooser = Box<dyn FnMut(&[usize]) -> usize + Send>;

/// One scheduling decision, in order.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Event {
    pub task: usize,
    pub label: &'static str,
    pub object: usize,
    pub next: usize,
}

struct State {
    tasks: Vec<Status>,
    current: usize,
    chooser: Chooser,
    steps: u64,
    max_steps: u64,
    abort: Option<Outcome>,
    objects: BTreeMap<usize, usize>,
    trace: Vec<Event>,
    switches: u64,
    contended: u64,
    seq: u64,
}

pub struct Sim {
    st: Mutex<State>,
    cvs: Vec<Condvar>,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
    static JOLTS: Cell<u64> = const { Cell::new(0) };
}

fn cur() -> Option<(Arc<Sim>, usize)> {
    CUR.try_with(|c| c.borrow().clone()).ok().flatten()
}

/// Simulated monotonic time as seen by this task (nanoseconds).
pub fn clock() -> Duration {
    // Each reading moves time forward: a little, as on an idle machine, or,
    // where the simulation says so, by whatever a preempted task, a paused
    // virtual machine or a suspended laptop loses between two readings.
    let lost = match jolt() {
        0 => 137,
        // Anything from a tenth of a microsecond to a minute, by magnitude.
        r => (100 << (r >> 32) % 30) + r % 100,
    };
    CLOCK.with(|c| {
        c.set(c.get().saturating_add(lost));
        Duration::from_nanos(c.get())
    })
}
/// Simulated time of day: as above, and it may be set back.
pub fn wall_clock() -> Duration {
    let back = match jolt() {
        r if r % 4 == 1 => (r >> 8) % 3_600_000_000_000,
        _ => 0,
    };
    clock().saturating_sub(Duration::from_nanos(back))
}
fn jolt() -> u64 {
    JOLTS.with(|j| {
        let mut x = j.get();
        if x != 0 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            j.set(x);
        }
        x
    })
}
/// From here on this task's clock starts at `d`; `jolts` other than zero is
/// the seed of its jumps.
pub fn set_clock(d: Duration, jolts: u64) {
    CLOCK.with(|c| c.set(d.as_nanos() as u64));
    JOLTS.with(|j| j.set(jolts));
}
pub fn advance_clock(d: Duration) {
    CLOCK.with(|c| c.set(c.get().saturating_add(d.as_nanos() as u64)))
}

impl Sim {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn pick(&self, st: &mut State, me: usize, label: &'static str, object: usize) -> Option<usize> {
        let n = st.tasks.len();
        let runnable: Vec<usize> = (0..n)
            .map(|i| (me + i) % n)
            .filter(|&i| st.tasks[i] == Status::Ready)
            .collect();
        if runnable.is_empty() {
            if st.tasks.iter().any(|t| *t != Status::Done) {
                let who = st
                    .tasks
                    .iter()
                    .enumerate()
                    .filter_map(|(i, t)| match t {
                        Status::Blocked(o) => Some(format!("task {i} waits for lock {o}")),
                        _ => None,
                    })
                    .collect::<Vec<_>>()
                    .join(", ");
                st.abort.get_or_insert(Outcome::Deadlock(who));
            }
            return None;
        }
        let k = if runnable.len() == 1 {
            0
        } else {
            let k = (st.chooser)(&runnable);
            k.min(runnable.len() - 1)
        };
        let next = runnable[k];
        st.trace.push(Event {
            task: me,
            label,
            object,
            next,
        });
        if next != me {
            st.switches += 1;
        }
        st.current = next;
        Some(next)
    }

    fn wake_all(&self) {
        self.cvs.iter().for_each(|c| c.notify_all());
    }

    /// Park `me` (whose status becomes `status`), let the chooser pick who
    /// runs next, and return once `me` is picked again.
    fn switch(&self, me: usize, status: Status, label: &'static str, object: usize) {
        let mut st = self.lock();
        if st.abort.is_none() {
            st.tasks[me] = status;
            st.steps += 1;
            if st.steps > st.max_steps {
                st.abort = Some(Outcome::StepLimit);
            } else {
                match self.pick(&mut st, me, label, object) {
                    Some(next) if next == me => return,
                    Some(next) => self.cvs[next].notify_all(),
                    None => (),
                }
            }
        }
        if st.abort.is_some() {
            self.wake_all();
        }
        while st.abort.is_none() && st.current != me {
            st = self.cvs[me].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        let aborted = st.abort.is_some();
        drop(st);
        if aborted && !std::thread::panicking() {
            resume_unwind(Box::new(SimAbort));
        }
    }
}

/// A scheduling point: any runnable task may be run next.
pub fn yield_point(label: &'static str) {
    if std::thread::panicking() {
        return;
    }
    if let Some((sim, me)) = cur() {
        sim.switch(me, Status::Ready, label, usize::MAX);
    }
}

/// Id of the simulated task this thread is.
pub fn task_id() -> Option<usize> {
    cur().map(|(_, i)| i)
}

/// Next value of the run-wide event counter (stamps invoke/return events).
pub fn next_seq() -> u64 {
    match cur() {
        Some((sim, _)) => {
            let mut st = sim.lock();
            st.seq += 1;
            st.seq
        }
        None => 0,
    }
}

fn object_id(sim: &Sim, addr: usize) -> usize {
    let mut st = sim.lock();
    let n = st.objects.len();
    *st.objects.entry(addr).or_insert(n)
}

fn aborted(sim: &Sim) -> bool {
    sim.lock().abort.is_some()
}

/// Acquire a lock cooperatively: `try_acquire` is retried each time the task
/// is scheduled; between attempts the task is blocked on `addr`.
/// Returns `None` when not simulated (the caller then blocks for real).
pub(crate) fn acquire<G>(
    addr: usize,
    label: &'static str,
    mut try_acquire: impl FnMut() -> Option<G>,
) -> Option<G> {
    let (sim, me) = cur()?;
    if std::thread::panicking() {
        // Unwinding (drop glue): no scheduling decisions here.  Only one
        // task runs, so a free lock is simply taken.
        return try_acquire();
    }
    let id = object_id(&sim, addr);
    sim.switch(me, Status::Ready, label, id);
    loop {
        if let Some(g) = try_acquire() {
            return Some(g);
        }
        if aborted(&sim) {
            resume_unwind(Box::new(SimAbort));
        }
        sim.lock().contended += 1;
        sim.switch(me, Status::Blocked(id), "blocked", id);
    }
}

/// A lock at `addr` was released: its waiters become runnable.
pub(crate) fn released(addr: usize, label: &'static str) {
    let Some((sim, me)) = cur() else { return };
    {
        let mut st = sim.lock();
        if let Some(id) = st.objects.get(&addr).copied() {
            for t in st.tasks.iter_mut() {
                if *t == Status::Blocked(id) {
                    *t = Status::Ready;
                }
            }
        }
        if st.abort.is_some() {
            return;
        }
    }
    if !std::thread::panicking() {
        let id = object_id(&sim, addr);
        sim.switch(me, Status::Ready, label, id);
    }
}

/// The object at `addr` is gone; a later one at the same address is new.
pub(crate) fn forget(addr: usize) {
    if let Some((sim, _)) = cur() {
        let mut st = sim.lock();
        if st.objects.contains_key(&addr) {
            let n = st.objects.len();
            let _ = n;
            // Keep ids dense and unique: park the old id under an
            // unreachable key.
            let id = st.objects.remove(&addr).unwrap();
            let mut k = usize::MAX - id;
            while st.objects.contains_key(&k) {
                k -= 1;
            }
            st.objects.insert(k, id);
        }
    }
}

/// What a run did.
pub struct Report {
    pub outcome: Outcome,
    pub trace: Vec<Event>,
    pub steps: u64,
    pub switches: u64,
    pub contended: u64,
    /// Panic payloads that escaped task bodies (never `SimAbort`).
    pub escaped: Vec<Option<Box<dyn std::any::Any + Send>>>,
}

/// Run the tasks to completion, one at a time, under `chooser`.
/// `init(i)` runs first on task `i`'s fresh thread.
pub fn run<'env>(
    tasks: Vec<Box<dyn FnOnce() + Send + 'env>>,
    chooser: Chooser,
    max_steps: u64,
    init: &(dyn Fn(usize) + Sync),
) -> Report {
    let n = tasks.len();
    let sim = Arc::new(Sim {
        st: Mutex::new(State {
            tasks: vec![Status::Ready; n],
            current: usize::MAX,
            chooser,
            steps: 0,
            max_steps,
            abort: None,
            objects: BTreeMap::new(),
            trace: Vec::new(),
            switches: 0,
            contended: 0,
            seq: 0,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
    });
    let mut escaped = Vec::new();
    std::thread::scope(|scope| {
        let handles: Vec<_> = tasks
            .into_iter()
            .enumerate()
            .map(|(i, body)| {
                let sim = sim.clone();
                scope.spawn(move || {
                    init(i);
                    CUR.with(|c| *c.borrow_mut() = Some((sim.clone(), i)));
                    {
                        let mut st = sim.lock();
                        while st.abort.is_none() && st.current != i {
                            st = sim.cvs[i].wait(st).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    let r = catch_unwind(AssertUnwindSafe(body));
                    CUR.with(|c| *c.borrow_mut() = None);
                    let mut st = sim.lock();
                    st.tasks[i] = Status::Done;
                    if st.abort.is_none() {
                        if let Some(next) = sim.pick(&mut st, i, "done", usize::MAX) {
                            sim.cvs[next].notify_all();
                        }
                    }
                    if st.abort.is_some() {
                        sim.wake_all();
                    }
                    drop(st);
                    match r {
                        Ok(()) => None,
                        Err(p) if p.is::<SimAbort>() => None,
                        Err(p) => Some(p),
                    }
                })
            })
            .collect();
        {
            let mut st = sim.lock();
            // First task to run is a scheduling decision too.
            let all: Vec<usize> = (0..n).collect();
            let k = if n > 1 { (st.chooser)(&all) } else { 0 };
            st.current = k.min(n - 1);
            let c = st.current;
            sim.cvs[c].notify_all();
        }
        for h in handles {
            escaped.push(h.join().unwrap_or_else(Some));
        }
    });
    let mut st = sim.lock();
    Report {
        outcome: st.abort.clone().unwrap_or(Outcome::Completed),
        trace: std::mem::take(&mut st.trace),
        steps: st.steps,
        switches: st.switches,
        contended: st.contended,
        escaped,
    }
}
