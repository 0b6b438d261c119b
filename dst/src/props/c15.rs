//! C15: whatever came before, every stage does its documented step, with the
//! options in force, to the list it receives.

use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::*;
use crate::res::*;
use crate::session::*;

/// What one stage did, with the options it had then.
#[derive(Clone, Debug)]
struct Step {
    stage: usize,
    who: u32,
    spec: Spec,
    before: Snap,
    after: Snap,
    ok: bool,
}
type Steps = Arc<Mutex<Vec<Step>>>;

/// A stage that can be reconfigured while sessions use it; it records what
/// every call of it did.
#[derive(Debug)]
struct Live {
    stage: usize,
    spec: Spec,
    s: Box<dyn Dup>,
    steps: Steps,
}

impl Live {
    fn new(stage: usize, spec: &Spec, steps: &Steps) -> Self {
        Live { stage, spec: spec.clone(), s: spec.build_dup(), steps: steps.clone() }
    }
    /// The options now in force (the running estimate moves by itself).
    fn now(&self) -> Spec {
        let mu = HasSamplerMetadata::<usize, f32>::sampler_options(&*self.s).iter().find_map(|(md, v)| match v {
            Some(SamplerOptionValue::Float(f)) if md.key == "mu" => Some(*f),
            _ => None,
        });
        let mut s = self.spec.clone();
        if let Spec::Miro1 { mu: m, .. } | Spec::Miro2 { mu: m, .. } = &mut s {
            *m = mu;
        }
        s
    }
    fn set(&mut self, e: &Edit) {
        match e {
            Edit::Text(t) => {
                let mut m = Model::of(&self.spec);
                assert!(m.configure(t), "the harness makes acceptable descriptions");
                self.s.configure(t).expect("an acceptable description is accepted");
                self.spec = m.spec(&self.spec);
            }
            Edit::Bias(i, t, v) => {
                let b = self.s.bias().expect("a bias list");
                b.retain(|x| x.0 != *t);
                if let Some(v) = v {
                    let at = *i as usize % (b.len() + 1);
                    b.insert(at, (*t, *v));
                }
                self.spec = Spec::FlatBias(b.clone());
            }
        }
    }
    fn run<T>(&mut self, l: &mut Logits, f: impl FnOnce(&mut Box<dyn Dup>, &mut Logits) -> Result<T, SamplerError>) -> Result<T, SamplerError> {
        let before = Snap::of(l);
        let spec = self.now();
        let r = f(&mut self.s, l);
        let step = Step { stage: self.stage, who: WHO.with(|w| w.get()), spec, before, after: Snap::of(l), ok: r.is_ok() };
        self.steps.lock().unwrap().push(step);
        r
    }
}

thread_local! {
    static WHO: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

impl Sampler for Live {
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.run(l, |s, l| s.sample(res, l).map(|_| ()))?;
        Ok(l)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.s.sampled_token_id()
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<TID>, SamplerError> {
        self.run(l, |s, l| s.sample_token(res, l))
    }
}

/// The embedder's own stage: edits the list, or gives up in mid-chain.
#[derive(Debug)]
struct Own {
    acts: Vec<Act>,
    at: usize,
}
#[derive(Clone, Debug)]
enum Act {
    Nothing,
    /// Add to one candidate's logit.
    Nudge(u32, f32),
    /// Take one out.
    Remove(u32),
    /// Cut the least likely off a sorted list, which stays sorted.
    Trim,
    /// Add another candidate.
    Add(TID, f32),
    Fail,
    Panic(u32),
}
impl Sampler for Own {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        let a = self.acts.get(self.at).cloned().unwrap_or(Act::Nothing);
        self.at += 1;
        edit(l, &a)?;
        Ok(l)
    }
}

fn edit(l: &mut Logits, a: &Act) -> Result<(), SamplerError> {
    let n = l.len();
    match a {
        Act::Nothing => (),
        Act::Nudge(..) | Act::Remove(_) if n == 0 => (),
        Act::Nudge(i, d) => {
            l[*i as usize % n].logit += d;
            l.set_sorted(false);
            l.set_softmax(false);
        }
        Act::Remove(i) => {
            if n > 1 {
                l.remove(*i as usize % n);
                l.set_softmax(false);
            }
        }
        Act::Trim => {
            if n > 2 && l.get_sorted() {
                l.pop();
                l.set_softmax(false);
            }
        }
        Act::Add(t, v) => {
            if l.iter().all(|x| x.token_id != *t) {
                l.push(Logit { token_id: *t, logit: *v, prob: 0.0 });
                l.set_sorted(false);
                l.set_softmax(false);
            }
        }
        Act::Fail => return Err(SamplerError::InternalError("the embedder's stage gives up".into())),
        Act::Panic(id) => std::panic::resume_unwind(Box::new(SimFault(*id))),
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Edit {
    Text(String),
    Bias(u32, TID, Option<f32>),
}

/// Make candidates equally likely, a power of two of them (and perhaps some
/// impossible ones).
fn flatten(ctx: &mut Ctx, items: &mut Vec<(TID, f32)>) {
    let n = match items.len() {
        0 => return,
        n => 1usize << n.ilog2(),
    };
    let l = ctx.pick(&[0.0f32, 1.5, -3.0, 12.25]);
    if ctx.chance(2, 3) {
        items.truncate(n);
    }
    for (i, x) in items.iter_mut().enumerate() {
        x.1 = if i < n { l } else { f32::NEG_INFINITY };
    }
}

/// Whether all candidates that are possible are equally likely and a power of
/// two in number: then their probabilities, and sums of them, are exact.
fn exact(b: &Snap) -> bool {
    let mut live = b.items.iter().map(|i| i.1).filter(|l| *l != f32::NEG_INFINITY);
    let Some(first) = live.next() else { return false };
    let mut n = 1usize;
    live.all(|l| {
        n += 1;
        l == first
    }) && first.is_finite() && n.is_power_of_two()
}

/// A legal change of a stage's options.
fn gen_edit(ctx: &mut Ctx, spec: &Spec, ids: &[TID]) -> Option<Edit> {
    if matches!(spec, Spec::FlatBias(_)) {
        let t = if ids.is_empty() || ctx.chance(1, 5) { 900_000 } else { ids[ctx.draw(ids.len() as u32) as usize] };
        let v = if ctx.chance(1, 4) { None } else { Some(ctx.pick(&[1.0f32, -2.5, 7.0, 0.0, f32::NEG_INFINITY])) };
        return Some(Edit::Bias(ctx.draw(6), t, v));
    }
    let k = spec.kind();
    let to = gen_spec(ctx, k, ids);
    let m = Model::of(&to);
    if m.keys.is_empty() {
        return None;
    }
    let n = ctx.weighted(&[4, 2]) + 1;
    let mut parts = vec![];
    for _ in 0..n {
        let (key, v) = &m.keys[ctx.draw(m.keys.len() as u32) as usize];
        parts.push(format!("{key}={}", v.show()));
    }
    Some(Edit::Text(parts.join(":")))
}

#[derive(Clone, Debug)]
struct Client {
    /// Which of the stages it runs, in order; `None`: its own.
    route: Vec<Option<usize>>,
    acts: Vec<Act>,
    plan: SessionPlan,
    /// Per call: go on with the list the call before left, edited thus.
    again: Vec<Option<Act>>,
    /// How the call is made.
    how: Vec<u32>,
}

pub fn run(ctx: &mut Ctx) -> Check {
    let nclients = ctx.weighted(&[4, 3]) + 1;
    let nstages = ctx.range(1, 5) as usize;
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 0, 2, 3]),
        max_calls: 4,
        empty_lists: true,
        degenerate_rng: true,
        logits: LogitOpts { ties: ctx.chance(1, 2), ..Default::default() },
        ..Default::default()
    };
    let mut plans: Vec<SessionPlan> = (0..nclients)
        .map(|_| {
            let mut p = gen_session(ctx, &sh);
            if p.calls.len() > 1 && ctx.chance(1, 8) {
                let lists = gen_cousins(ctx, p.calls.len());
                p.calls.iter_mut().zip(lists).for_each(|(c, l)| c.items = l);
            }
            super::c04::maybe_ban(ctx, &mut p);
            p
        })
        .collect();
    let ids = plans[0].ids();
    let mut specs: Vec<Spec> = (0..nstages)
        .map(|_| {
            let k = if ctx.chance(1, 10) {
                ctx.pick(&HISTORY)
            } else {
                ctx.pick(&[Kind::TopK, Kind::TopP, Kind::MinP, Kind::TopA, Kind::Tail, Kind::Typ, Kind::Temp, Kind::Bias, Kind::Miro1, Kind::Miro2])
            };
            gen_spec(ctx, k, &ids)
        })
        .collect();
    if ctx.chance(1, 2) {
        specs.push(if ctx.chance(1, 2) { Spec::Rand } else { Spec::Greedy });
    }
    if ctx.chance(1, 12) {
        let at = ctx.draw(specs.len() as u32) as usize;
        specs.insert(at, Spec::Temp(ctx.pick(&[-1.0f32, -0.5])));
    }
    // Lists of 2, 4, 8 ... equals and options right on the boundary: what
    // reaches a bound by being equal to it can be told there.
    if ctx.chance(1, 8) {
        for p in &mut plans {
            for c in &mut p.calls {
                flatten(ctx, &mut c.items);
            }
        }
        let by = ctx.pick(&[4.0f32, 8.0, 16.0, 32.0]);
        for s in &mut specs {
            match s {
                Spec::TopP { p, .. } => *p = (1 + ctx.draw(by as u32)) as f32 / by,
                Spec::MinP { p, .. } => *p = ctx.pick(&[1.0f32, 1.0, 0.5]),
                Spec::TopA { a1, a2, .. } => (*a1, *a2) = ctx.pick(&[(1.0f32, 1.0f32), (by, 2.0), (by / 2.0, 2.0), (2.0, 1.0)]),
                Spec::FlatBias(l) if ctx.chance(1, 2) => l.iter_mut().for_each(|x| x.1 = f32::NEG_INFINITY),
                _ => (),
            }
        }
        ctx.stat("probe:equals_on_the_boundary");
    }
    // Probabilities as the ranks of words have them: where a power law's
    // exponent is exactly one, its formulas divide nothing by nothing.
    if ctx.chance(1, 12) {
        let by = ctx.pick(&[1.0f32, 1.0, 1.0, 0.5, 2.0]);
        for p in &mut plans {
            for c in &mut p.calls {
                let top = ctx.pick(&[0.0f32, 0.0, 1.0, -8.0]);
                c.items.iter_mut().enumerate().for_each(|(i, x)| x.1 = top - by * (i as f32 + 1.0).ln());
                if ctx.chance(1, 2) {
                    c.items.reverse();
                }
            }
        }
        for s in &mut specs {
            if let Spec::Miro1 { m, n_vocab, .. } = s {
                *m = ctx.pick(&[2usize, 2, 3, *m]);
                *n_vocab = ctx.pick(&[2usize, 10, 1000, *n_vocab]);
            }
        }
        ctx.stat("probe:a_power_law");
    }
    // "Not recommended", but an option like any other.
    if ctx.chance(1, 10) {
        for s in &mut specs {
            if let Spec::TopK { keep, .. } | Spec::TopP { keep, .. } | Spec::MinP { keep, .. } | Spec::TopA { keep, .. } | Spec::Tail { keep, .. } | Spec::Typ { keep, .. } = s {
                *keep = 0;
            }
        }
        ctx.stat("probe:nothing_need_be_kept");
    }
    let clients: Vec<Client> = plans
        .drain(..)
        .map(|mut plan| {
            plan.specs = specs.clone();
            plan.bound_history();
            let mut route: Vec<Option<usize>> = (0..specs.len()).map(Some).collect();
            if nclients > 1 && ctx.chance(1, 3) {
                let n = ctx.draw(specs.len() as u32) as usize;
                route.rotate_left(n);
            }
            let n = plan.calls.len();
            let own = ctx.chance(1, 2);
            let mut acts = vec![];
            if own {
                let at = ctx.draw(route.len() as u32 + 1) as usize;
                route.insert(at, None);
                acts = (0..n).map(|i| gen_act(ctx, &plan.calls[i].items)).collect();
            }
            let again = (0..n)
                .map(|i| {
                    (i > 0 && ctx.chance(1, 4)).then(|| match gen_act(ctx, &plan.calls[i].items) {
                        Act::Fail | Act::Panic(_) => Act::Nothing,
                        a => a,
                    })
                })
                .collect();
            let how = (0..n).map(|_| ctx.draw(4)).collect();
            Client { route, acts, plan, again, how }
        })
        .collect();
    let nedits = ctx.weighted(&[2, 2, 2, 1]);
    let edits: Vec<(usize, Edit)> = (0..nedits)
        .filter_map(|_| {
            let s = ctx.draw(specs.len() as u32) as usize;
            gen_edit(ctx, &specs[s], &ids).map(|e| (s, e))
        })
        .collect();
    for (i, c) in clients.iter().enumerate() {
        describe(ctx, &format!("session {i}"), &c.plan);
        ctx.note(|| format!("session {i}: stages in order {:?} (none: its own, which does {:?}); calls on the list left before, after {:?}", c.route, c.acts, c.again));
    }
    ctx.note(|| format!("meanwhile, on the stages: {edits:?}"));

    let steps: Steps = Default::default();
    let live: Vec<Arc<SimMutex<Live>>> = specs.iter().enumerate().map(|(i, s)| Arc::new(SimMutex::new(Live::new(i, s, &steps)))).collect();
    let outs: Vec<Mutex<Vec<(Out, bool)>>> = clients.iter().map(|_| Default::default()).collect();
    let mut tasks: Vec<Task> = vec![];
    for (w, (c, o)) in clients.iter().zip(&outs).enumerate() {
        let live = live.clone();
        tasks.push(Box::new(move || {
            WHO.with(|x| x.set(w as u32));
            let mut chain = SamplerChain::new();
            for r in &c.route {
                match r {
                    Some(i) => {
                        let h: Shared = live[*i].clone();
                        chain.push_sampler(h);
                    }
                    None => {
                        chain.push_sampler(Own { acts: c.acts.clone(), at: 0 });
                    }
                }
            }
            let mut res = c.plan.make_res();
            let mut last: Option<Logits> = None;
            for (i, k) in c.plan.calls.iter().enumerate() {
                seam_yield("between calls");
                let mut l = match (&c.again[i], last.take()) {
                    (Some(a), Some(mut l)) => {
                        let _ = edit(&mut l, a);
                        l
                    }
                    _ => input(k),
                };
                res.begin_call(k.faults.clone());
                let r = call(|| match c.how[i] {
                    0 => chain.sample_token(&mut res, &mut l),
                    1 => l.sample_token(&mut res, &mut chain),
                    2 => chain.sample(&mut res, &mut l).map(|_| None),
                    _ => l.sample(&mut res, &mut chain).map(|_| None),
                });
                let fired = !res.end_call().fired.is_empty();
                if let (true, Some(t)) = (k.feed, r.token()) {
                    res.push_token(t);
                }
                last = Some(l);
                o.lock().unwrap().push((r, fired));
            }
        }));
    }
    if !edits.is_empty() {
        let (live, edits) = (live.clone(), &edits);
        tasks.push(Box::new(move || {
            for (s, e) in edits {
                seam_yield("about to reconfigure");
                live[*s].lock().unwrap().set(e);
            }
        }));
        ctx.stat("probe:stages_reconfigured_live");
    }
    run_tasks(ctx, tasks, 400_000)?;
    for (i, o) in outs.iter().enumerate() {
        for (k, (r, fired)) in o.lock().unwrap().iter().enumerate() {
            ctx.ev(&format!("session {i} call {k}: {r:?}"));
            ctx.stat("calls");
            ctx.stat_n("fault:resource:any", *fired as u64);
            ctx.stat_n("fault:embedder_stage:failed", matches!(r, Out::Err(e) if e.contains("gives up")) as u64);
            ctx.stat_n("fault:embedder_stage:panicked", matches!(r, Out::Fault(_)) as u64);
        }
    }
    let steps = std::mem::take(&mut *steps.lock().unwrap());
    for s in steps.iter() {
        ctx.ev(&format!("session {} stage {} {:?}: {:?} -> {:?}", s.who, s.stage, s.spec, s.before, s.after));
        if s.ok {
            if s.before.items.len() > s.after.items.len() {
                ctx.nontrivial = true;
            }
            if s.before.sorted || s.before.softmax {
                ctx.stat("probe:stage_given_a_marked_list");
            }
            rule(ctx, s)?;
        }
    }
    Ok(())
}

fn gen_act(ctx: &mut Ctx, items: &[(TID, f32)]) -> Act {
    let i = ctx.draw(items.len().max(1) as u32);
    match ctx.weighted(&[3, 3, 2, 2, 2, 1, 1]) {
        0 => Act::Nothing,
        1 => Act::Nudge(i, ctx.pick(&[2.0f32, -3.0, 9.0, 0.25])),
        2 => Act::Remove(i),
        3 => Act::Trim,
        4 => Act::Add(700_000 + i, ctx.pick(&[0.5f32, 6.0, -4.0])),
        5 => Act::Fail,
        _ => Act::Panic(900 + i),
    }
}

/// Check one stage's work against its definition.
fn rule(ctx: &mut Ctx, s: &Step) -> Check {
    let (b, a) = (&s.before, &s.after);
    let who = || format!("session {} stage {} ({:?}): {b:?} -> {a:?}", s.who, s.stage, s.spec);
    let n = b.items.len();
    // Infinite logits (a ban under a negative temperature) and lists of
    // nothing but impossible candidates have no probabilities.
    let illegal = b.items.iter().any(|i| i.1 == f32::INFINITY || i.1.is_nan());
    let dead = n > 0 && b.items.iter().all(|i| !i.1.is_finite());
    if illegal || dead && !matches!(s.spec, Spec::Temp(_) | Spec::FlatBias(_) | Spec::TopK { .. }) {
        ctx.stat("list_without_probabilities");
        return Ok(());
    }
    match &s.spec {
        Spec::Temp(t) => {
            for (id, l, _) in &a.items {
                let Some(was) = b.get(*id) else { continue };
                let want = if *t == 0.0 { was } else { was / t };
                ensure!(
                    close(want, *l),
                    "adjusted-wrongly",
                    "{}: candidate {id} goes from {was} to {l} where temperature {t} makes it {want}",
                    who()
                );
            }
            ctx.stat("rule:temperature");
        }
        Spec::FlatBias(list) => {
            for (id, l, _) in &a.items {
                let Some(was) = b.get(*id) else { continue };
                let want = list.iter().find(|x| x.0 == *id).map_or(was, |x| was + x.1);
                ensure!(
                    close(want, *l),
                    "adjusted-wrongly",
                    "{}: candidate {id} goes from {was} to {l}, which should be {want}",
                    who()
                );
            }
            ctx.stat("rule:bias");
        }
        Spec::TopK { k, keep } => cut(s, "top_k", (*k).max(*keep).min(n), (*k).max(*keep).min(n))?,
        Spec::TopP { p, keep } => {
            let (pr, mut eps) = ranked(b);
            if exact(b) {
                eps = 0.0;
                ctx.stat("rule:on_the_boundary");
            }
            let pick = |p: f64| {
                let mut sum = 0.0;
                pr.iter()
                    .enumerate()
                    .find_map(|(i, x)| {
                        sum += x;
                        (sum >= p && i + 1 >= *keep).then_some(i + 1)
                    })
                    .unwrap_or(n)
            };
            ctx.stat("rule:top_p");
            cut(s, "top_p", pick(*p as f64 - eps), pick(*p as f64 + eps))?;
        }
        Spec::MinP { p, keep } => {
            let share = *p as f64;
            ctx.stat("rule:min_p");
            above(s, "min_p", share == 0.0, |top| top * share, *keep, exact(b))?;
        }
        Spec::TopA { a1, a2, keep } => {
            let (a1, a2) = (*a1 as f64, *a2 as f64);
            ctx.stat("rule:top_a");
            above(s, "top_a", a1 == 0.0 || a2 == 0.0, |top| a1 * top.powf(a2), *keep, exact(b) && (a2 == 1.0 || a2 == 2.0))?;
        }
        Spec::Tail { z, keep } => {
            ctx.stat("rule:tail_free");
            tail(s, *z as f64, *keep)?;
        }
        Spec::Typ { p, keep } => {
            ctx.stat("rule:typical");
            typical(s, *p as f64, *keep)?;
        }
        Spec::Miro1 { n_vocab, m, mu: Some(mu), .. } if n > 0 && *m > 0 => {
            if let Some((lo, hi)) = miro1(b, *n_vocab as f64, *m, *mu as f64) {
                ctx.stat("rule:mirostat_1");
                cut(s, "mirostat 1", lo.min(n), hi.min(n))?;
            }
        }
        _ => (),
    }
    Ok(())
}

fn close(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 2e-6 * a.abs().max(b.abs())
}

/// Probabilities in descending order, and how far single precision may be off
/// in a sum of them.
fn ranked(b: &Snap) -> (Vec<f64>, f64) {
    let mut p = b.softmax64();
    p.sort_by(|x, y| y.total_cmp(x));
    (p, 2e-5 + b.items.len() as f64 * 2e-7)
}

/// The survivors must be the likeliest `lo..=hi`.
fn cut(s: &Step, what: &str, lo: usize, hi: usize) -> Check {
    let (b, a) = (&s.before, &s.after);
    let n = a.items.len();
    ensure!(
        lo <= n && n <= hi,
        "cut-wrong",
        "session {} stage {} ({:?}): {what} keeps {n} of {} candidates instead of {}: {b:?} -> {a:?}",
        s.who,
        s.stage,
        s.spec,
        b.items.len(),
        if lo == hi { format!("{lo}") } else { format!("{lo} to {hi}") }
    );
    let sorted = |x: &Snap| {
        let mut v: Vec<f32> = x.items.iter().map(|i| i.1).collect();
        v.sort_by(|x, y| y.total_cmp(x));
        v
    };
    let (want, got) = (sorted(b), sorted(a));
    ensure!(
        want[..n] == got[..],
        "kept-wrong-ones",
        "session {} stage {} ({:?}): {what} does not keep the likeliest {n}: {b:?} -> {a:?}",
        s.who,
        s.stage,
        s.spec
    );
    Ok(())
}

/// Keep what reaches a threshold that depends on the greatest probability.
fn above(s: &Step, what: &str, off: bool, threshold: impl Fn(f64) -> f64, keep: usize, exact: bool) -> Check {
    let n = s.before.items.len();
    let (p, _) = ranked(&s.before);
    if off || n == 0 {
        return cut(s, what, n, n);
    }
    let t = threshold(p[0]);
    let count = |t: f64| p.iter().filter(|x| **x >= t).count().max(keep).max(1).min(n);
    if exact && t > 1e-30 {
        return cut(s, what, count(t), count(t));
    }
    let eps = 5e-5 + 4.0 * drift(n);
    // Far below the smallest single precision number all is zero.
    cut(s, what, count(t * (1.0 + eps) + 1e-37), count(t * (1.0 - eps) - 1e-37))
}

/// How far a single precision sum of `n` terms may be off, relatively, where
/// that exceeds what the other tolerances leave room for.
fn drift(n: usize) -> f64 {
    if n <= 128 {
        0.0
    } else {
        n as f64 * 1.2e-7
    }
}

fn tail(s: &Step, z: f64, keep: usize) -> Check {
    let n = s.before.items.len();
    if z >= 1.0 || n < 3 {
        return cut(s, "tail free", n, n);
    }
    let (p, _) = ranked(&s.before);
    let d1: Vec<f64> = p.windows(2).map(|w| w[0] - w[1]).collect();
    let d2: Vec<f64> = d1.windows(2).map(|w| (w[0] - w[1]).abs()).collect();
    let sum: f64 = d2.iter().sum();
    // What rounding can do to the normalised sum.
    let eps = 1e-5 + p.iter().map(|x| x * 5e-6).sum::<f64>() / sum.max(1e-300) + n as f64 * 2e-7;
    if !(eps < 0.02) {
        return Ok(());
    }
    let pick = |z: f64| {
        let mut acc = 0.0;
        d2.iter()
            .enumerate()
            .find_map(|(i, x)| {
                acc += x / sum;
                (acc > z && i >= keep).then_some(i)
            })
            .unwrap_or(n)
    };
    cut(s, "tail free", pick(z - eps), pick(z + eps))
}

fn typical(s: &Step, p: f64, keep: usize) -> Check {
    let (b, a) = (&s.before, &s.after);
    let n = b.items.len();
    let pr = b.softmax64();
    let ent: f64 = pr.iter().filter(|x| **x > 0.0).map(|x| -x * x.ln()).sum();
    // Beyond single precision's range everything is equally untypical.
    let score = |x: f64| if x < 1e-35 { 1e3 } else { (-x.ln() - ent).abs() };
    let all: Vec<(TID, f64, f64)> = b.items.iter().zip(&pr).map(|(i, x)| (i.0, *x, score(*x))).collect();
    let slack = |sc: f64| 2e-4 + sc * 2e-5 + drift(n) * (1.0 + ent);
    let (kept, lost): (Vec<(TID, f64, f64)>, Vec<_>) = all.into_iter().partition(|x| a.get(x.0).is_some());
    let who = || format!("session {} stage {} ({:?}): {b:?} -> {a:?} (entropy {ent})", s.who, s.stage, s.spec);
    let worst = kept.iter().map(|x| x.2).fold(0.0, f64::max);
    let best_lost = lost.iter().map(|x| x.2).fold(f64::INFINITY, f64::min);
    ensure!(
        worst <= best_lost + slack(worst.min(best_lost)),
        "kept-wrong-ones",
        "{}: a candidate {worst} away from typical is kept, one {best_lost} away is not",
        who()
    );
    let eps = 2e-5 + n as f64 * 2e-7;
    let mass: f64 = kept.iter().map(|x| x.1).sum();
    let (k, least) = (kept.len(), keep.max(1).min(n));
    ensure!(k >= least, "cut-wrong", "{}: keeps {k} candidates, fewer than {least}", who());
    ensure!(
        lost.is_empty() || mass > p - eps,
        "cut-wrong",
        "{}: stops at a mass of {mass}, which does not exceed {p}",
        who()
    );
    if k > least {
        // Without the last one the mass did not suffice.
        let last = kept.iter().filter(|x| x.2 >= worst - slack(worst)).map(|x| x.1).fold(0.0, f64::max);
        ensure!(
            mass - last <= p + eps,
            "cut-wrong",
            "{}: goes on although {} of the mass, which exceeds {p}, was already there",
            who(),
            mass - last
        );
    }
    Ok(())
}

/// Between how many and how many candidates Mirostat v1 keeps.
fn miro1(b: &Snap, n_vocab: f64, m: usize, mu: f64) -> Option<(usize, usize)> {
    let (p, _) = ranked(b);
    let (mut tb, mut tt, mut err) = (0.0, 0.0, 0.0);
    for (i, w) in p.windows(2).take(m - 1).enumerate() {
        if w[1] < 1e-30 {
            return None;
        }
        let t = ((i as f64 + 2.0) / (i as f64 + 1.0)).ln();
        tb += t * (w[0] / w[1]).ln();
        tt += t * t;
        err += t * (2e-6 + (w[0] / w[1]).ln().abs() * 1e-6);
    }
    if tt == 0.0 {
        return None;
    }
    let s = tb / tt;
    let ds = err / tt + s.abs() * (1e-5 + 2.0 * drift(m));
    if s - ds < 0.02 {
        return None;
    }
    let k = |s: f64| {
        let e = s - 1.0;
        let scale = if e.abs() < 1e-9 { 1.0 / n_vocab.ln() } else { e / (1.0 - n_vocab.powf(-e)) };
        (scale * mu.exp2()).powf(1.0 / s)
    };
    let ks = [k(s - ds), k(s), k(s + ds)];
    if ks.iter().any(|k| !k.is_finite()) {
        return None;
    }
    let (lo, mut hi) = ks.iter().fold((f64::MAX, 0f64), |a, k| (a.0.min(*k), a.1.max(*k)));
    // Single precision ends at 2^128: what is beyond that may keep everything.
    let e = (s - 1.0).abs().max(1.0);
    if mu + e.log2() > 125.0 {
        hi = f64::MAX;
    }
    // Whether a fraction counts is nobody's promise.
    Some(((lo * 0.999).floor().max(1.0) as usize, (hi * 1.001).ceil().max(1.0) as usize))
}
