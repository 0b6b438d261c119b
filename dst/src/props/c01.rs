//! C01: a sampler shared between threads behaves as if calls ran one at a
//! time; C02 reuses the machinery with panicking calls.

use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;
use llm_samplers_simstd::sim;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;

#[derive(Clone, Debug)]
pub enum Subject {
    One(Spec),
    Chain(Vec<Spec>),
    /// A shared chain whose last stage is itself behind a shared handle.
    Nested(Vec<Spec>),
}

impl Subject {
    pub fn build(&self) -> Shared {
        match self {
            Subject::One(s) => s.build_shared(),
            Subject::Chain(v) => Arc::new(SimMutex::new(plain_chain(v))),
            Subject::Nested(v) => {
                let (last, init) = v.split_last().unwrap();
                let mut c = plain_chain(init);
                c.push_sampler(last.build_shared());
                Arc::new(SimMutex::new(c))
            }
        }
    }
    pub fn last(&self) -> &Spec {
        match self {
            Subject::One(s) => s,
            Subject::Chain(v) | Subject::Nested(v) => v.last().unwrap(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpKind {
    SampleToken,
    /// The candidate list's own convenience method, from a list to a token.
    Convenience,
    Sample,
    Get,
    /// Through a chain local to the caller, with the shared sampler last.
    ChainLast { pre: Vec<Spec>, two_step: bool },
    /// Through a local chain, with the shared sampler before a local stage.
    ChainMid { post: Spec },
}

#[derive(Clone, Debug)]
pub struct OpPlan {
    pub client: usize,
    pub kind: OpKind,
    pub subject: usize,
    pub items: Items,
    pub seed: u64,
    pub hist: Vec<TID>,
    pub faults: Vec<(u32, Fault, u32)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OpRes {
    pub out: Out,
    pub left: Snap,
    /// The local chain's answer to a token query after the call.
    pub local_token: Option<Option<TID>>,
}

pub struct Timed {
    pub inv: u64,
    pub ret: u64,
    pub res: OpRes,
    pub log: CallLog,
}

/// The shared handle as one stage of a chain; tells the provider when a call
/// is inside it (1) and when it is past it (2).
#[derive(Debug)]
struct Gate {
    h: Shared,
    at: Arc<std::sync::atomic::AtomicU32>,
}
impl Gate {
    fn set(&self, v: u32) {
        self.at.store(v, std::sync::atomic::Ordering::SeqCst);
    }
}
impl Sampler for Gate {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.h.sample_prepend(res)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.h.sampled_token_id()
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<TID>, SamplerError> {
        self.set(1);
        let r = self.h.sample_token(res, l);
        self.set(2);
        r
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.set(1);
        let r = self.h.sample(res, l);
        self.set(2);
        r
    }
}

pub fn exec(op: &OpPlan, shared: &Shared, yields: bool) -> (OpRes, CallLog) {
    let mut res = SimRes::seeded(op.seed, op.hist.clone());
    res.yields = yields;
    res.begin_call(op.faults.clone());
    let mut logits = make_logits(&op.items);
    let mut h = Gate { h: shared.clone(), at: res.stage.clone() };
    let mut local_token = None;
    let out = match &op.kind {
        OpKind::SampleToken => call(|| h.sample_token(&mut res, &mut logits)),
        OpKind::Convenience => call(|| logits.sample_token(&mut res, &mut h)),
        OpKind::Sample => call(|| h.sample(&mut res, &mut logits).map(|_| None)),
        OpKind::Get => call(|| Ok(h.sampled_token_id())),
        OpKind::ChainLast { pre, two_step } => {
            let mut c = plain_chain(pre);
            c.push_sampler(h);
            let o = call(|| {
                if *two_step {
                    c.sample(&mut res, &mut logits)?;
                    Ok(c.sampled_token_id())
                } else {
                    c.sample_token(&mut res, &mut logits)
                }
            });
            if yields {
                sim::yield_point("before the local token query");
            }
            local_token = Some(c.sampled_token_id());
            o
        }
        OpKind::ChainMid { post } => {
            let mut c = SamplerChain::new();
            c.push_sampler(h);
            c.push_sampler(post.build());
            let o = call(|| c.sample_token(&mut res, &mut logits));
            local_token = Some(c.sampled_token_id());
            o
        }
    };
    let left = Snap::of(&logits);
    (OpRes { out, left, local_token }, res.end_call())
}

pub fn gen_subject(ctx: &mut Ctx, ids: &[TID]) -> Subject {
    let p = ctx.pick(&PICKERS);
    let last = gen_spec(ctx, p, ids);
    match ctx.weighted(&[4, 3, 1]) {
        0 => Subject::One(last),
        k => {
            let n = ctx.range(1, 2);
            let mut v: Vec<Spec> = (0..n)
                .map(|_| {
                    let s = ctx.pick(&SHAPERS);
                    gen_spec(ctx, s, ids)
                })
                .collect();
            v.push(last);
            if k == 1 {
                Subject::Chain(v)
            } else {
                Subject::Nested(v)
            }
        }
    }
}

/// Ops for `nclients` clients on `nsubj` subjects.  Candidate ids of op `i`
/// are `1000*i..`, so any token names the op it came from.
pub fn gen_ops(ctx: &mut Ctx, nclients: usize, nsubj: usize, max_ops: u32, fault8: u32) -> Vec<OpPlan> {
    let total = ctx.range(nclients as u32, max_ops) as usize;
    let mut ops = vec![];
    for i in 0..total {
        let client = if i < nclients { i } else { ctx.draw(nclients as u32) as usize };
        let base = 1000 * (i as u32 + 1);
        let mut items = gen_items(ctx, LogitOpts { lo: 2, hi: 5, base, wide: false, ..Default::default() });
        if ctx.chance(1, 12) {
            items.clear();
        }
        let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
        let kind = match ctx.weighted(&[5, 1, 2, 4, 2]) {
            0 if ctx.chance(1, 4) => OpKind::Convenience,
            0 => OpKind::SampleToken,
            1 => OpKind::Sample,
            2 => OpKind::Get,
            3 => {
                let n = ctx.range(0, 2);
                let pre = (0..n)
                    .map(|_| {
                        let k = ctx.pick(&[Kind::Temp, Kind::TopK, Kind::Rep, Kind::TopP]);
                        gen_spec(ctx, k, &ids)
                    })
                    .collect();
                OpKind::ChainLast { pre, two_step: ctx.chance(1, 3) }
            }
            _ => {
                let k = ctx.pick(&[Kind::Temp, Kind::Greedy]);
                OpKind::ChainMid { post: gen_spec(ctx, k, &ids) }
            }
        };
        let faults = if fault8 > 0 && ctx.chance(fault8, 8) { vec![gen_fault(ctx, 100 + i as u32, false)] } else { vec![] };
        ops.push(OpPlan {
            client,
            kind,
            subject: ctx.draw(nsubj as u32) as usize,
            seed: ctx.seed(),
            hist: gen_hist(ctx, &ids, 6),
            items,
            faults,
        });
    }
    ops
}

/// Run the ops under the scheduler, each client its own in order.
pub fn run_ops(ctx: &mut Ctx, nclients: usize, subjects: &[Shared], ops: &[OpPlan]) -> Result<Vec<Timed>, Violation> {
    let out: Vec<Mutex<Option<Timed>>> = ops.iter().map(|_| Mutex::new(None)).collect();
    let tasks: Vec<Task> = (0..nclients)
        .map(|c| {
            let out = &out;
            Box::new(move || {
                for (i, op) in ops.iter().enumerate().filter(|(_, o)| o.client == c) {
                    sim::yield_point("next op");
                    let inv = sim::next_seq();
                    let (res, log) = exec(op, &subjects[op.subject], true);
                    let ret = sim::next_seq();
                    *out[i].lock().unwrap() = Some(Timed { inv, ret, res, log });
                }
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 20_000)?;
    Ok(out.into_iter().map(|o| o.into_inner().unwrap().expect("op ran")).collect())
}

pub fn trace_ops(ctx: &mut Ctx, subjects: &[Subject], ops: &[OpPlan], recs: &[Timed]) {
    if ctx.log.is_some() {
        for (i, s) in subjects.iter().enumerate() {
            ctx.note(|| format!("shared sampler {i}: {s:?}"));
        }
    }
    let mut order: Vec<usize> = (0..ops.len()).collect();
    order.sort_by_key(|i| recs[*i].inv);
    for i in order {
        let (o, r) = (&ops[i], &recs[i]);
        ctx.ev(&format!(
            "op {i} client {} on shared {} {:?}{}: logits {:?} history {:?} faults fired {:?} => {:?} local query {:?} [{}..{}]",
            o.client,
            o.subject,
            o.kind,
            if o.faults.is_empty() { "" } else { " (fault armed)" },
            o.items,
            o.hist,
            r.log.fired.iter().map(|f| f.0.name()).collect::<Vec<_>>(),
            r.res.out,
            r.res.local_token,
            r.inv,
            r.ret
        ));
        ctx.stat("ops");
        for f in &r.log.fired {
            ctx.stat(&format!("fault:{}:{}", f.2, f.0.name()));
        }
    }
    let overlap = (0..ops.len())
        .any(|i| (0..i).any(|j| recs[i].inv < recs[j].ret && recs[j].inv < recs[i].ret && ops[i].subject == ops[j].subject));
    if overlap {
        ctx.stat("probe:overlapping_ops_on_one_sampler");
        ctx.nontrivial = true;
    }
}

/// Is there an order of this subject's ops, consistent with real time, in
/// which running them one after another gives every observed result?
pub fn linearizable(subj: &Subject, ops: &[OpPlan], recs: &[Timed], which: &[usize]) -> bool {
    fn go(subj: &Subject, ops: &[OpPlan], recs: &[Timed], left: &mut Vec<usize>, prefix: &mut Vec<usize>, budget: &mut u32) -> bool {
        if left.is_empty() {
            return true;
        }
        let min_ret = left.iter().map(|i| recs[*i].ret).min().unwrap();
        let mut cands: Vec<usize> = left.iter().copied().filter(|i| recs[*i].inv < min_ret).collect();
        cands.sort_by_key(|i| recs[*i].ret);
        for c in cands {
            if *budget == 0 {
                return true; // give up without an alarm
            }
            *budget -= 1;
            let s = subj.build();
            for p in prefix.iter() {
                exec(&ops[*p], &s, false);
            }
            let (r, _) = exec(&ops[c], &s, false);
            if r != recs[c].res {
                continue;
            }
            let k = left.iter().position(|x| *x == c).unwrap();
            left.swap_remove(k);
            prefix.push(c);
            let ok = go(subj, ops, recs, left, prefix, budget);
            prefix.pop();
            left.push(c);
            if ok {
                return true;
            }
        }
        false
    }
    go(subj, ops, recs, &mut which.to_vec(), &mut vec![], &mut 4000)
}

pub fn run(ctx: &mut Ctx) -> Check {
    if ctx.chance(1, 8) {
        return lock_order(ctx);
    }
    let nclients = ctx.range(2, 3) as usize;
    let nsubj = ctx.range(1, 2) as usize;
    let fault8 = ctx.pick(&[0u32, 0, 2]);
    let ops = gen_ops(ctx, nclients, nsubj, 6, fault8);
    let ids: Vec<TID> = ops.iter().flat_map(|o| o.items.iter().map(|i| i.0)).collect();
    let subjects: Vec<Subject> = (0..nsubj).map(|_| gen_subject(ctx, &ids)).collect();
    let shared: Vec<Shared> = subjects.iter().map(|s| s.build()).collect();
    let recs = run_ops(ctx, nclients, &shared, &ops)?;
    trace_ops(ctx, &subjects, &ops, &recs);
    for (i, (o, r)) in ops.iter().zip(&recs).enumerate() {
        if let Out::Panic(m) = &r.res.out {
            return viol("panic", format!("op {i} panicked: {m}"));
        }
        if o.kind != OpKind::Get {
            for t in r.res.out.token().into_iter().chain(r.res.local_token.flatten()) {
                ensure!(
                    o.items.iter().any(|x| x.0 == t),
                    "foreign-token",
                    "op {i} (client {}) got token {t}, which is not among its own candidates {:?}",
                    o.client,
                    o.items
                );
            }
        }
        if r.log.fired.is_empty() {
            ensure!(
                r.res.out.is_ok(),
                "spurious-error",
                "op {i} failed although no fault was injected into it: {:?}",
                r.res.out
            );
        }
    }
    for (s, subj) in subjects.iter().enumerate() {
        let which: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].subject == s).collect();
        ensure!(
            linearizable(subj, &ops, &recs, &which),
            "not-linearizable",
            "the results on shared sampler {s} match no one-at-a-time order of its {} calls",
            which.len()
        );
    }
    Ok(())
}

/// Chains using two shared samplers in opposite orders: always completes, and
/// each caller is handed its own token.
fn lock_order(ctx: &mut Ctx) -> Check {
    let n = ctx.range(2, 3) as usize;
    let mut plans = vec![];
    for i in 0..n {
        let items = gen_items(ctx, LogitOpts { lo: 2, hi: 5, base: 1000 * (i as u32 + 1), wide: false, ..Default::default() });
        plans.push((items, ctx.seed(), ctx.chance(1, 2), ctx.range(1, 2)));
    }
    let pa = ctx.pick(&PICKERS);
    let pb = ctx.pick(&PICKERS);
    let (sa, sb) = (gen_spec(ctx, pa, &[0, 1, 2]), gen_spec(ctx, pb, &[0, 1, 2]));
    let (a, b) = (sa.build_shared(), sb.build_shared());
    let outs: Vec<Mutex<Vec<Out>>> = plans.iter().map(|_| Default::default()).collect();
    let tasks: Vec<Task> = plans
        .iter()
        .enumerate()
        .map(|(i, (items, seed, swap, reps))| {
            let (a, b, outs) = (a.clone(), b.clone(), &outs);
            Box::new(move || {
                let mut c = SamplerChain::new();
                let (x, y) = if *swap { (b, a) } else { (a, b) };
                c.push_sampler(x);
                c.push_sampler(y);
                let mut res = SimRes::seeded(*seed, vec![]);
                for _ in 0..*reps {
                    let mut l = make_logits(items);
                    let o = call(|| c.sample_token(&mut res, &mut l));
                    outs[i].lock().unwrap().push(o);
                }
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 20_000)?;
    ctx.stat("probe:two_shared_samplers_in_opposite_orders");
    ctx.nontrivial = true;
    for (i, o) in outs.iter().enumerate() {
        for o in o.lock().unwrap().iter() {
            ctx.ev(&format!("client {i}: {o:?}"));
            match o {
                Out::Tok(Some(t)) => ensure!(
                    plans[i].0.iter().any(|x| x.0 == *t),
                    "foreign-token",
                    "client {i} got token {t}, which is not among its own candidates"
                ),
                other => return viol("spurious-error", format!("client {i}: {other:?} without any fault")),
            }
        }
    }
    Ok(())
}
