//! C18: sampling only reads what the embedder lends it: no call changes the
//! token history, stages touch only the resources they are documented to
//! need, and nothing is touched after an access failed.

use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

/// A history several parties append to, and what they appended.
#[derive(Clone)]
struct Store {
    cur: Arc<SimMutex<Vec<TID>>>,
    want: Arc<Mutex<Vec<TID>>>,
}
impl Store {
    fn new(v: Vec<TID>) -> Self {
        Store { cur: Arc::new(SimMutex::new(v.clone())), want: Arc::new(Mutex::new(v)) }
    }
    fn edit(&self, f: impl Fn(&mut Vec<TID>)) {
        let mut g = self.cur.lock().unwrap();
        f(&mut g);
        f(&mut self.want.lock().unwrap());
    }
    /// What differs from what the embedder put there, if anything.
    fn diff(&self) -> Option<String> {
        let g = self.cur.lock().unwrap();
        let w = self.want.lock().unwrap();
        (*g != *w).then(|| format!("the embedder left {:?}, it now reads {:?}", *w, *g))
    }
}

fn own_diff(res: &SimRes) -> Option<String> {
    let want = res.mirror.as_ref()?;
    let mut got = vec![];
    res.inner.with_last_tokens(&mut |v| got = v.clone()).ok()?;
    (got != *want).then(|| format!("the embedder left {want:?}, it now reads {got:?}"))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Chain,
    Boxed,
    Shared,
    Nested,
}

struct Sess {
    plan: SessionPlan,
    via: Via,
    /// The list's own convenience methods make the call.
    conv: bool,
    shared: bool,
    prefix: Vec<bool>,
    /// After which calls an edit of the embedder's panics half way.
    slips: Vec<bool>,
}

fn rules(specs: &[Spec], log: &CallLog) -> Check {
    for (n, (what, stage)) in log.seq.iter().enumerate() {
        let s = &specs[*stage as usize];
        let ok = if *what == "rng" { s.uses_rng() } else { s.is_history() && !s.switched_off() };
        ensure!(ok, "needless-access", "access {n} of the call: stage {stage} ({s:?}) used the {what}, which it has no need of");
    }
    if let Some((f, id, what, at)) = log.fired.first() {
        ensure!(
            log.accesses == at + 1,
            "access-after-failure",
            "access {at} ({what}) failed ({} #{id}), yet the call went on to make {} more",
            f.name(),
            log.accesses - at - 1
        );
    }
    Ok(())
}

fn drive(s: &Sess, store: Option<&Store>, out: &Mutex<Vec<CallRec>>) -> Check {
    let p = &s.plan;
    let log = TapLog::default();
    let mut res = match store {
        Some(st) => SimRes::new(p.rng.make(), Some(Hist::Shared(st.cur.clone()))),
        None => p.make_res(),
    };
    let chain = tapped_chain(&p.specs, &log, &res.stage, true);
    let mut outer = SamplerChain::new();
    match s.via {
        Via::Chain => outer = chain,
        Via::Boxed => drop(outer.push_sampler(Box::new(chain) as Box<dyn Sampler>)),
        Via::Shared => {
            let h: Shared = Arc::new(SimMutex::new(chain));
            drop(outer.push_sampler(h));
        }
        Via::Nested => drop(outer.push_sampler(chain)),
    }
    let diff = |res: &SimRes| match store {
        Some(st) => st.diff(),
        None => own_diff(res),
    };
    for (i, c) in p.calls.iter().enumerate() {
        if s.prefix[i] {
            res.begin_call(vec![]);
            if let Err(p) = guard(|| outer.sample_prepend(&mut res)) {
                return viol("unexpected-panic", format!("prefix call: {}", panic_text(p.as_ref())));
            }
            let l = res.end_call();
            ensure!(l.accesses == 0, "needless-access", "call {i}: built-in samplers have no prefix, yet asking for it made {} accesses", l.accesses);
            if let Some(d) = diff(&res) {
                return viol("history-changed", format!("call {i}: asking for the prefix changed the token history: {d}"));
            }
        }
        let mut logits = input(c);
        log.lock().unwrap().clear();
        res.begin_call(c.faults.clone());
        let hist = res.mirror.clone();
        let logits_in = Snap::of(&logits);
        let o = call(|| match (s.conv, c.two_step) {
            (false, false) => outer.sample_token(&mut res, &mut logits),
            (false, true) => {
                outer.sample(&mut res, &mut logits)?;
                Ok(outer.sampled_token_id())
            }
            (true, false) => logits.sample_token(&mut res, &mut outer),
            (true, true) => {
                logits.sample(&mut res, &mut outer)?;
                Ok(outer.sampled_token_id())
            }
        });
        let rec = CallRec {
            token_after: outer.sampled_token_id(),
            stages: std::mem::take(&mut *log.lock().unwrap()),
            logits_in,
            logits_out: Snap::of(&logits),
            log: res.end_call(),
            hist,
            out: o,
        };
        if let Out::Panic(m) = &rec.out {
            return viol("unexpected-panic", format!("call {i}: {m}"));
        }
        if let Some(d) = diff(&res) {
            return viol(
                "history-changed",
                format!("call {i} ({:?}) changed the token history: {d}", rec.out),
            );
        }
        rules(&p.specs, &rec.log).map_err(|v| Violation { msg: format!("call {i}: {}", v.msg), ..v })?;
        let t = rec.out.token();
        out.lock().unwrap().push(rec);
        if let (true, Some(t)) = (c.feed, t) {
            match store {
                Some(st) => st.edit(|v| v.push(t)),
                None => res.push_token(t),
            }
        }
        if let (None, true, Some(m)) = (store, s.slips[i], &mut res.mirror) {
            m.push(7);
            let inner = &mut res.inner;
            let r = guard(|| {
                inner.with_last_tokens_mut(&mut |v| {
                    v.push(7);
                    std::panic::resume_unwind(Box::new(SimFault(70)))
                })
            });
            if r.is_ok() {
                return viol("panic-lost", format!("after call {i}: an edit of the token history that panicked returned {r:?}"));
            }
        }
        // Only the embedder's own edit shows.
        if let Some(d) = diff(&res) {
            return viol("history-changed", format!("after call {i} the token history differs: {d}"));
        }
    }
    let _ = res.stage.load(Ordering::SeqCst);
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> Check {
    let n = ctx.range(1, 2) as usize;
    let shared_hist = ctx.chance(1, 2);
    let writers = if shared_hist { ctx.range(0, 2) as usize } else { 0 };
    let fault8 = ctx.pick(&[0u32, 2, 4]);
    let panics = ctx.chance(1, 3);
    let sh = Shape {
        fault8,
        panics,
        shapers: if ctx.chance(1, 2) {
            vec![Kind::Rep, Kind::Seq, Kind::FreqPres, Kind::Temp, Kind::TopK, Kind::Seq]
        } else {
            SHAPERS.to_vec()
        },
        missing: true,
        empty_lists: true,
        degenerate_rng: true,
        ..Default::default()
    };
    let mut sess = vec![];
    for _ in 0..n {
        let mut plan = gen_session(ctx, &sh);
        let via = ctx.pick(&[Via::Chain, Via::Boxed, Via::Shared, Via::Nested]);
        if via == Via::Shared {
            // A panic rightly disables the handle (C02).
            for c in plan.calls.iter_mut() {
                c.faults.retain(|f| !f.1.panics());
            }
        }
        let prefix = plan.calls.iter().map(|_| ctx.chance(1, 4)).collect();
        let slips = plan.calls.iter().map(|_| ctx.chance(1, 12)).collect();
        sess.push(Sess { slips, via, conv: ctx.chance(1, 3), shared: shared_hist, prefix, plan });
    }
    let store = Store::new(sess[0].plan.hist.clone().unwrap_or_default());
    let edits: Vec<Vec<(u32, TID)>> = (0..writers)
        .map(|_| {
            let k = ctx.range(1, 4);
            (0..k).map(|_| (ctx.draw(4), ctx.draw(6))).collect()
        })
        .collect();
    for (i, s) in sess.iter().enumerate() {
        describe(ctx, &format!("session {i} ({:?}, convenience methods {}, shared history {})", s.via, s.conv, s.shared), &s.plan);
    }
    ctx.note(|| format!("other writers of the shared history: {edits:?}"));

    let recs: Vec<Mutex<Vec<CallRec>>> = (0..n).map(|_| Mutex::default()).collect();
    let verdicts: Vec<Mutex<Check>> = (0..n).map(|_| Mutex::new(Ok(()))).collect();
    let mut tasks: Vec<Task> = vec![];
    for i in 0..n {
        let (s, st, r, v) = (&sess[i], &store, &recs[i], &verdicts[i]);
        tasks.push(Box::new(move || {
            *v.lock().unwrap() = drive(s, s.shared.then_some(st), r);
        }));
    }
    for e in &edits {
        let st = store.clone();
        tasks.push(Box::new(move || {
            for (kind, t) in e {
                seam_yield("history writer");
                st.edit(|v| match kind {
                    0 | 1 => v.push(*t),
                    2 => drop(v.pop()),
                    _ => {
                        if !v.is_empty() {
                            v.remove(0);
                        }
                    }
                });
            }
        }));
    }
    run_tasks(ctx, tasks, 400_000)?;
    let mut touched = false;
    for i in 0..n {
        let r = std::mem::take(&mut *recs[i].lock().unwrap());
        account(ctx, &format!("session {i}"), &r);
        for c in &r {
            touched |= c.log.hist_accesses > 0;
            if !c.log.fired.is_empty() {
                ctx.stat("probe:history_checked_after_a_failed_call");
            }
            ctx.stat_n("accesses_checked", c.log.accesses as u64);
        }
    }
    if shared_hist && writers > 0 {
        ctx.stat("probe:other_writers");
    }
    for v in verdicts {
        v.into_inner().unwrap()?;
    }
    if let (true, Some(d)) = (shared_hist, store.diff()) {
        return viol("history-changed", format!("after all sessions: {d}"));
    }
    ctx.nontrivial = touched;
    Ok(())
}
