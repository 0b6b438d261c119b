//! A simulated generation session: one sampler chain driven over a sequence
//! of calls, with its own resources and planned faults, recorded stage by
//! stage.


use llm_samplers::prelude::*;

use crate::ctx::Ctx;
use crate::gen::*;
use crate::res::*;

#[derive(Clone, Debug)]
pub struct CallPlan {
    pub items: Items,
    pub faults: Vec<(u32, Fault, u32)>,
    /// Feed the picked token back into the history.
    pub feed: bool,
    /// Use `sample` + token query instead of `sample_token`.
    pub two_step: bool,
    /// The caller marks its list as already normalised (and it is).
    pub presoftmax: bool,
    /// The list is made by the constructor that sorts.
    pub presorted: bool,
}

#[derive(Clone, Debug)]
pub enum RngKind {
    Seeded(u64),
    Const(u64),
    Pattern(Vec<u64>),
    None,
}

impl RngKind {
    pub fn make(&self) -> Option<SimRng> {
        match self {
            RngKind::Seeded(s) => Some(SimRng::seeded(*s)),
            RngKind::Const(c) => Some(SimRng::Const(*c)),
            RngKind::Pattern(p) => Some(SimRng::Pattern(p.clone(), 0)),
            RngKind::None => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct SessionPlan {
    pub specs: Vec<Spec>,
    pub rng: RngKind,
    pub hist: Option<Vec<TID>>,
    pub calls: Vec<CallPlan>,
}

#[derive(Clone, Debug)]
pub struct CallRec {
    pub out: Out,
    /// The chain's answer to "which token was last picked", after the call.
    pub token_after: Option<TID>,
    pub stages: Vec<StageRec>,
    pub logits_in: Snap,
    pub logits_out: Snap,
    pub log: CallLog,
    /// The (owned) history the call could see.
    pub hist: Option<Vec<TID>>,
}

impl SessionPlan {
    /// For stages chosen after the history was: looking for repeated sequences
    /// takes time cubic in its length.
    pub fn bound_history(&mut self) {
        if let (Some(h), true) = (&mut self.hist, self.specs.iter().any(|s| s.kind() == Kind::Seq)) {
            h.drain(..h.len().saturating_sub(400));
        }
    }
    pub fn ids(&self) -> Vec<TID> {
        self.calls.iter().flat_map(|c| c.items.iter().map(|i| i.0)).collect()
    }
    pub fn make_res(&self) -> SimRes {
        SimRes::new(self.rng.make(), self.hist.clone().map(Hist::Own))
    }

    /// Run every call on one long-lived chain.
    pub fn run(&self, res: &mut SimRes, yields: bool) -> Vec<CallRec> {
        let log = TapLog::default();
        res.yields = yields;
        let mut chain = tapped_chain(&self.specs, &log, &res.stage, yields);
        self.calls.iter().map(|c| run_call(&mut chain, &log, res, c)).collect()
    }
}

thread_local! {
    /// How much more memory than they need this thread's lists have.
    pub static SPARE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub fn input(c: &CallPlan) -> Logits {
    let mut l = if c.presorted && c.items.iter().all(|i| i.1.is_finite()) {
        let mut l = Logits::try_from_iter_top_k(c.items.iter().map(|i| i.1), c.items.len()).expect("finite logits are accepted");
        for l in l.iter_mut() {
            l.token_id = c.items[l.token_id as usize].0;
        }
        l
    } else {
        make_logits(&c.items)
    };
    let spare = SPARE.get();
    if spare > 0 {
        l.reserve(spare);
    }
    if c.presoftmax {
        let _ = l.ensure_softmax();
    }
    l
}

pub fn run_call(chain: &mut SamplerChain, log: &TapLog, res: &mut SimRes, c: &CallPlan) -> CallRec {
    let mut logits = input(c);
    log.lock().unwrap().clear();
    res.begin_call(c.faults.clone());
    let hist = res.mirror.clone();
    let logits_in = Snap::of(&logits);
    let out = call(|| {
        if c.two_step {
            chain.sample(res, &mut logits)?;
            Ok(chain.sampled_token_id())
        } else {
            chain.sample_token(res, &mut logits)
        }
    });
    let rec = CallRec {
        token_after: chain.sampled_token_id(),
        stages: std::mem::take(&mut *log.lock().unwrap()),
        logits_in,
        logits_out: Snap::of(&logits),
        log: res.end_call(),
        hist,
        out,
    };
    if c.feed {
        if let Some(t) = rec.out.token() {
            res.push_token(t);
        }
    }
    rec
}

/// How the session generator is tilted.
#[derive(Clone)]
pub struct Shape {
    pub max_stages: u32,
    pub max_calls: u32,
    pub shapers: Vec<Kind>,
    pub pickers: Vec<Kind>,
    /// Fault probability per call, in eighths.
    pub fault8: u32,
    pub panics: bool,
    pub logits: LogitOpts,
    /// Allow lists with no candidates.
    pub empty_lists: bool,
    /// Allow runs whose provider lacks a resource altogether.
    pub missing: bool,
    /// Also use degenerate generators.
    pub degenerate_rng: bool,
}

impl Default for Shape {
    fn default() -> Self {
        Shape {
            max_stages: 4,
            max_calls: 4,
            shapers: SHAPERS.to_vec(),
            pickers: PICKERS.to_vec(),
            fault8: 0,
            panics: false,
            logits: LogitOpts::default(),
            empty_lists: false,
            missing: false,
            degenerate_rng: false,
        }
    }
}

pub fn gen_session(ctx: &mut Ctx, sh: &Shape) -> SessionPlan {
    let ncalls = match ctx.weighted(&[29_500, 480, 20, 2]) {
        0 => ctx.range(1, sh.max_calls),
        1 => ctx.range(10, 40),
        // Enough for a counter of eight bits.
        2 => ctx.range(257, 300),
        _ => ctx.range(1025, 1050),
    };
    let mut calls = vec![];
    let mut fid = 1;
    let same_shape = ctx.chance(1, 2) || ncalls > 100;
    for i in 0..ncalls {
        let items = if i > 0 && same_shape {
            let c: &CallPlan = &calls[0];
            c.items.clone()
        } else if sh.empty_lists && ctx.chance(1, 12) {
            vec![]
        } else {
            gen_items(ctx, LogitOpts { long: sh.logits.long && ncalls < 100, ..sh.logits })
        };
        let mut faults = vec![];
        if sh.fault8 > 0 && ctx.chance(sh.fault8, 8) {
            faults.push(gen_fault(ctx, fid, sh.panics));
            fid += 1;
        }
        calls.push(CallPlan {
            items,
            faults,
            feed: ctx.chance(2, 3),
            two_step: ctx.chance(1, 4),
            presoftmax: ctx.chance(1, 6),
            presorted: ctx.chance(1, 6),
        });
    }
    // Lists that are easily taken for one another.
    if sh.logits.ties && calls.len() > 1 && ctx.chance(1, 10) {
        let lists = gen_cousins(ctx, calls.len());
        for (c, l) in calls.iter_mut().zip(lists) {
            if c.items.len() > 1 {
                c.items = l;
            }
        }
    }
    let ids: Vec<TID> = {
        let mut v: Vec<TID> = calls.iter().flat_map(|c| c.items.iter().map(|i| i.0)).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let nst = if sh.max_stages > 3 && ncalls < 100 && ctx.chance(1, 100) { ctx.range(6, 40) } else { ctx.range(0, sh.max_stages - 1) };
    let mut specs: Vec<Spec> = vec![];
    for _ in 0..nst {
        let k = ctx.pick(&sh.shapers);
        let s = gen_spec(ctx, k, &ids);
        specs.push(s);
    }
    let k = ctx.pick(&sh.pickers);
    let s = gen_spec(ctx, k, &ids);
    specs.push(s);
    let mut hist = if sh.missing && ctx.chance(1, 10) { None } else { Some(gen_hist(ctx, &ids, 14)) };
    if ncalls < 100 && !specs.iter().any(|s| s.kind() == Kind::Seq) && ctx.chance(1, 800) {
        if let Some(h) = &mut hist {
            long_hist(ctx, &ids, h);
        }
    }
    let rng = if sh.missing && ctx.chance(1, 10) {
        RngKind::None
    } else if sh.degenerate_rng && ctx.chance(1, 4) {
        match ctx.draw(4) {
            0 => RngKind::Const(0),
            1 => RngKind::Const(u64::MAX),
            2 => RngKind::Pattern(vec![0, u64::MAX]),
            _ => RngKind::Const(1 << 63),
        }
    } else {
        RngKind::Seeded(ctx.seed())
    };
    SessionPlan { specs, rng, hist, calls }
}

pub fn describe(ctx: &mut Ctx, who: &str, p: &SessionPlan) {
    if ctx.log.is_none() {
        return;
    }
    let mut s = vec![format!("{who}: stages {:?}, rng {:?}, history {:?}", p.specs, p.rng, p.hist)];
    for (i, c) in p.calls.iter().enumerate() {
        s.push(format!(
            "{who}: call {i}: logits {:?}{}{}{}{} faults {:?}",
            c.items,
            if c.two_step { " (sample + query)" } else { "" },
            if c.presoftmax { " (already normalised)" } else { "" },
            if c.presorted { " (sorted when made)" } else { "" },
            if c.feed { "" } else { " (token not fed back)" },
            c.faults.iter().map(|f| format!("access {} {} #{}", f.0, f.1.name(), f.2)).collect::<Vec<_>>()
        ));
    }
    for l in s {
        ctx.note(|| l);
    }
}

/// Record what happened: digest, trace and fault counters.
pub fn account(ctx: &mut Ctx, who: &str, recs: &[CallRec]) {
    for (i, r) in recs.iter().enumerate() {
        ctx.ev(&format!("{who} call {i}: {:?} -> token query {:?}; left {:?}", r.out, r.token_after, r.logits_out));
        ctx.stat("calls");
        if r.out.is_ok() {
            ctx.stat("calls_ok");
        }
        for f in &r.log.fired {
            ctx.stat(&format!("fault:{}:{}", f.2, f.0.name()));
        }
        if !r.log.fired.is_empty() && r.stages.last().is_some_and(|s| s.stage > 0) {
            ctx.stat("probe:fault_after_an_earlier_stage_ran");
        }
    }
}


/// Run sessions as concurrent simulated threads; nothing is shared between
/// them but the process.
pub fn run_sessions(ctx: &mut Ctx, plans: &[SessionPlan]) -> Result<Vec<Vec<CallRec>>, crate::ctx::Violation> {
    let slots: Vec<std::sync::Mutex<Vec<CallRec>>> = plans.iter().map(|_| Default::default()).collect();
    let tasks: Vec<crate::ctx::Task> = plans
        .iter()
        .zip(&slots)
        .map(|(p, slot)| {
            Box::new(move || {
                let mut res = p.make_res();
                let r = p.run(&mut res, true);
                *slot.lock().unwrap() = r;
            }) as crate::ctx::Task
        })
        .collect();
    crate::ctx::run_tasks(ctx, tasks, 400_000)?;
    Ok(slots.into_iter().map(|s| s.into_inner().unwrap()).collect())
}
