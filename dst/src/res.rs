//! The simulated resource provider: RNG and token history behind the
//! library's own `HasSamplerResources` seam, with fault injection.

use std::cell::RefCell;
use std::fmt;
use std::sync::Arc;

use llm_samplers::prelude::*;
use rand::RngCore;

use crate::ctx::Prng;

/// The harness's lock type is the one the (shimmed) library uses.
#[cfg(llm_samplers_sim)]
pub use llm_samplers_simstd::sync::Mutex as SimMutex;
#[cfg(not(llm_samplers_sim))]
pub use std::sync::Mutex as SimMutex;

/// A scheduling point inside a provider callback.  Without the hook the
/// library's locks are invisible to the scheduler, so a task must not be
/// parked while it may hold one.
pub fn seam_yield(_label: &'static str) {
    #[cfg(llm_samplers_sim)]
    llm_samplers_simstd::sim::yield_point(_label);
}

/// Panic payload of injected panics.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SimFault(pub u32);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// The resource is not there.
    Missing,
    /// The provider fails before running the callback.
    ErrBefore,
    /// The provider runs the callback, then fails (an RNG access rolls back).
    ErrAfter,
    /// The provider reports an interruption.
    Interrupted,
    /// The provider reports a failing RNG device.
    RandErr,
    PanicBefore,
    PanicAfter,
    /// The generator / reader panics while the library is using it.
    PanicDuring,
}

impl Fault {
    pub fn name(self) -> &'static str {
        match self {
            Fault::Missing => "missing_resource",
            Fault::ErrBefore => "error_before_access",
            Fault::ErrAfter => "error_after_access",
            Fault::Interrupted => "interrupted",
            Fault::RandErr => "rng_device_error",
            Fault::PanicBefore => "panic_before_access",
            Fault::PanicAfter => "panic_after_access",
            Fault::PanicDuring => "panic_during_access",
        }
    }
    pub fn panics(self) -> bool {
        matches!(self, Fault::PanicBefore | Fault::PanicAfter | Fault::PanicDuring)
    }
}

pub const ERR_FAULTS: [Fault; 5] =
    [Fault::Missing, Fault::ErrBefore, Fault::ErrAfter, Fault::Interrupted, Fault::RandErr];
pub const PANIC_FAULTS: [Fault; 3] = [Fault::PanicBefore, Fault::PanicAfter, Fault::PanicDuring];

#[derive(Debug)]
struct RngDown;
impl fmt::Display for RngDown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("rng device down")
    }
}
impl std::error::Error for RngDown {}

/// The error an `Err`-type fault surfaces as, textually (SamplerError is not
/// PartialEq).
pub fn fault_error(f: Fault, id: u32, what: &str) -> SamplerError {
    match f {
        Fault::Missing => SamplerError::MissingResource(what.to_string()),
        Fault::Interrupted => SamplerError::Interrupted(Interruption::NewTokensGvien(vec![id])),
        Fault::RandErr => SamplerError::RandError(rand::Error::new(RngDown)),
        _ => SamplerError::InternalError(format!("sim-fault-{id}-{what}")),
    }
}

// ------------------------------------------------------------------ RNGs

#[derive(Clone)]
pub enum SimRng {
    Seeded(Prng),
    /// Every draw is the same word.
    Const(u64),
    /// Draws cycle through the pattern.
    Pattern(Vec<u64>, usize),
    /// A generator shared by several sessions.
    Shared(Arc<SimMutex<Prng>>),
}

impl SimRng {
    pub fn seeded(s: u64) -> Self {
        SimRng::Seeded(Prng::new(s))
    }
}

/// Generator state the harness keeps a handle on.
pub struct RngState {
    pub rng: SimRng,
    pub draws: u64,
    pub panic: Option<u32>,
    pub nest: Nest,
}

/// Something else the embedder does while the library is using a resource
/// (another session's next call, on the same stack).
pub type Nest = Arc<std::sync::Mutex<Option<Box<dyn FnMut() + Send>>>>;

fn run_nested(n: &Nest) {
    // Taken out meanwhile, so that it does not nest in itself.
    let f = n.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(mut f) = f {
        f();
        *n.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
    }
}

/// The generator given to the library's own resource provider.
pub struct HandleRng(pub Arc<std::sync::Mutex<RngState>>);

impl HandleRng {
    fn st(&self) -> std::sync::MutexGuard<'_, RngState> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl RngCore for HandleRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let p = self.st().panic;
        if let Some(id) = p {
            std::panic::resume_unwind(Box::new(SimFault(id)));
        }
        let nest = self.st().nest.clone();
        run_nested(&nest);
        let shared = match &self.st().rng {
            SimRng::Shared(m) => Some(m.clone()),
            _ => None,
        };
        let mut st = self.st();
        st.draws += 1;
        if let Some(m) = shared {
            drop(st);
            return m.lock().unwrap().next();
        }
        match &mut st.rng {
            SimRng::Seeded(p) => p.next(),
            SimRng::Const(c) => *c,
            SimRng::Pattern(v, i) => {
                *i += 1;
                v[(*i - 1) % v.len()]
            }
            SimRng::Shared(_) => unreachable!(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// --------------------------------------------------------------- history

#[derive(Clone)]
pub enum Hist {
    Own(Vec<TID>),
    Shared(Arc<SimMutex<Vec<TID>>>),
}

// -------------------------------------------------------------- provider

/// Everything the provider saw since `begin_call`.
#[derive(Clone, Debug, Default)]
pub struct CallLog {
    pub accesses: u32,
    pub rng_accesses: u32,
    pub rng_draws: u64,
    pub hist_accesses: u32,
    /// Every access: resource and the stage it was made for.
    pub seq: Vec<(&'static str, u32)>,
    /// History contents handed out, access by access.
    pub snapshots: Vec<Vec<TID>>,
    /// Faults that fired: (kind, id, resource, access index).
    pub fired: Vec<(Fault, u32, &'static str, u32)>,
    /// Value of the stage counter when the last fault fired.
    pub stage_at_fault: Option<u32>,
}

/// Faults and bookkeeping around the library's own `SimpleSamplerResources`
/// (a shared history is the harness's own, as an embedder's would be).
pub struct SimRes {
    pub inner: SimpleSamplerResources,
    pub rng: Arc<std::sync::Mutex<RngState>>,
    pub shared_hist: Option<Arc<SimMutex<Vec<TID>>>>,
    /// What the owned history must contain.
    pub mirror: Option<Vec<TID>>,
    /// Faults for the coming call: (access index, kind, id).
    pub plan: Vec<(u32, Fault, u32)>,
    pub log: RefCell<CallLog>,
    /// Index of the stage now running, maintained by `Tap`s.
    pub stage: Arc<std::sync::atomic::AtomicU32>,
    /// Whether accesses are scheduling points.
    pub yields: bool,
}

impl fmt::Debug for SimRes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SimRes")
    }
}

impl SimRes {
    pub fn new(rng: Option<SimRng>, hist: Option<Hist>) -> Self {
        let has_rng = rng.is_some();
        let state = Arc::new(std::sync::Mutex::new(RngState {
            rng: rng.unwrap_or(SimRng::Const(0)),
            draws: 0,
            panic: None,
            nest: Nest::default(),
        }));
        let (own, shared_hist) = match hist {
            Some(Hist::Own(v)) => (Some(v), None),
            Some(Hist::Shared(m)) => (None, Some(m)),
            None => (None, None),
        };
        SimRes {
            inner: SimpleSamplerResources::new(
                has_rng.then(|| Box::new(HandleRng(state.clone())) as Box<dyn RngCore + Send + Sync>),
                own.clone(),
            ),
            rng: state,
            shared_hist,
            mirror: own,
            plan: vec![],
            log: RefCell::default(),
            stage: Arc::default(),
            yields: true,
        }
    }
    pub fn seeded(seed: u64, hist: Vec<TID>) -> Self {
        Self::new(Some(SimRng::seeded(seed)), Some(Hist::Own(hist)))
    }
    /// Arm faults for the next call and clear the call log.
    pub fn begin_call(&mut self, plan: Vec<(u32, Fault, u32)>) {
        self.plan = plan;
        self.log = RefCell::default();
        self.rng_state().draws = 0;
        self.stage.store(0, std::sync::atomic::Ordering::SeqCst);
    }
    pub fn end_call(&mut self) -> CallLog {
        self.plan.clear();
        let mut l = self.log.borrow().clone();
        l.rng_draws = self.rng_state().draws;
        l
    }
    /// Have `f` run at every resource access from now on.
    pub fn nest(&mut self, f: Box<dyn FnMut() + Send>) {
        *self.rng_state().nest.lock().unwrap() = Some(f);
    }
    pub fn unnest(&mut self) {
        *self.rng_state().nest.lock().unwrap() = None;
    }
    fn run_nested(&self) {
        let n = self.rng_state().nest.clone();
        run_nested(&n);
    }
    fn rng_state(&self) -> std::sync::MutexGuard<'_, RngState> {
        self.rng.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn push_token(&mut self, t: TID) {
        if let Some(m) = &self.shared_hist {
            m.lock().unwrap().push(t);
        } else if let Some(v) = &mut self.mirror {
            v.push(t);
            self.inner
                .with_last_tokens_mut(&mut |v| v.push(t))
                .expect("a present history is writable");
        }
    }

    /// The fault (if any) planned for the access now starting.
    fn enter(&self, what: &'static str) -> Option<(Fault, u32)> {
        if self.yields {
            seam_yield(if what == "rng" { "rng access" } else { "history access" });
        }
        self.run_nested();
        let mut l = self.log.borrow_mut();
        let n = l.accesses;
        l.accesses += 1;
        l.seq.push((what, self.stage.load(std::sync::atomic::Ordering::SeqCst)));
        if what == "rng" {
            l.rng_accesses += 1;
        } else {
            l.hist_accesses += 1;
        }
        let hit = self.plan.iter().find(|(a, _, _)| *a == n).map(|(_, f, id)| (*f, *id));
        if let Some((f, id)) = hit {
            l.fired.push((f, id, what, n));
            l.stage_at_fault = Some(self.stage.load(std::sync::atomic::Ordering::SeqCst));
        }
        hit
    }

    fn before(hit: Option<(Fault, u32)>, what: &str) -> Result<bool, SamplerError> {
        match hit {
            Some((f @ (Fault::Missing | Fault::ErrBefore | Fault::Interrupted | Fault::RandErr), id)) => {
                Err(fault_error(f, id, what))
            }
            Some((Fault::PanicBefore, id)) => std::panic::resume_unwind(Box::new(SimFault(id))),
            _ => Ok(true),
        }
    }

    /// The provider itself failed first: a planned later fault did not fire.
    fn unfired(&self, hit: Option<(Fault, u32)>, e: SamplerError) -> Result<(), SamplerError> {
        if hit.is_some() {
            let mut l = self.log.borrow_mut();
            l.fired.pop();
            l.stage_at_fault = None;
        }
        Err(e)
    }

    fn after(&self, hit: Option<(Fault, u32)>, what: &str) -> Result<(), SamplerError> {
        if self.yields {
            seam_yield("resource access done");
        }
        self.run_nested();
        match hit {
            Some((Fault::ErrAfter, id)) => Err(fault_error(Fault::ErrAfter, id, what)),
            Some((Fault::PanicAfter | Fault::PanicDuring, id)) => {
                std::panic::resume_unwind(Box::new(SimFault(id)))
            }
            _ => Ok(()),
        }
    }
}

impl HasSamplerResources for SimRes {
    fn with_rng_mut(&mut self, fun: &mut dyn FnMut(&mut dyn RngCore)) -> Result<(), SamplerError> {
        let hit = self.enter("rng");
        Self::before(hit, "rng")?;
        let saved = self.rng_state().rng.clone();
        if let Some((Fault::PanicDuring, id)) = hit {
            self.rng_state().panic = Some(id);
        }
        let r = crate::ctx::guard(|| self.inner.with_rng_mut(fun));
        self.rng_state().panic = None;
        if matches!(hit, Some((Fault::ErrAfter | Fault::PanicAfter | Fault::PanicDuring, _))) {
            // A transactional generator: a failed access hands nothing out.
            self.rng_state().rng = saved;
        }
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => return self.unfired(hit, e),
            Err(p) => std::panic::resume_unwind(p),
        }
        self.after(hit, "rng")
    }

    fn with_last_tokens(&self, fun: &mut dyn FnMut(&Vec<TID>)) -> Result<(), SamplerError> {
        let hit = self.enter("last_tokens");
        Self::before(hit, "last_tokens")?;
        match &self.shared_hist {
            Some(m) => {
                let snap = m.lock().unwrap().clone();
                self.log.borrow_mut().snapshots.push(snap.clone());
                fun(&snap);
            }
            None => {
                if let Err(e) = self.inner.with_last_tokens(fun) {
                    return self.unfired(hit, e);
                }
            }
        }
        self.after(hit, "last_tokens")
    }

    fn with_last_tokens_mut(&mut self, fun: &mut dyn FnMut(&mut Vec<TID>)) -> Result<(), SamplerError> {
        let hit = self.enter("last_tokens");
        Self::before(hit, "last_tokens")?;
        match &self.shared_hist {
            Some(m) => fun(&mut m.lock().unwrap()),
            None => self.inner.with_last_tokens_mut(fun)?,
        }
        self.after(hit, "last_tokens")
    }
}
