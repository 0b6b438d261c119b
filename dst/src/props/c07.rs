//! C07: a session's results depend only on its own inputs.

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::session::*;
use llm_samplers::prelude::*;

/// Everything a caller can see of a call, bit for bit.
fn sig(r: &CallRec) -> String {
    fn snap(s: &Snap) -> String {
        let mut o = String::new();
        for (t, l, p) in &s.items {
            o.push_str(&format!("{t}:{:08x}", l.to_bits()));
            if s.softmax {
                o.push_str(&format!("/{:08x}", p.to_bits()));
            }
            o.push(' ');
        }
        o
    }
    let mut o = format!("{:?} query {:?} draws {} left {}", r.out, r.token_after, r.log.rng_draws, snap(&r.logits_out));
    for s in &r.stages {
        o.push_str(&format!(" | {} {:?} {:?} {}", s.stage, s.ok, s.opts_after, snap(&s.after)));
    }
    o
}

fn compare(how: &str, who: usize, a: &[CallRec], b: &[CallRec]) -> Check {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(
            sig(x) == sig(y),
            "not-reproducible",
            "session {who} call {i}: alone it gives\n    {:?} (token query {:?}), leaving {:?}\n  {how} it gives\n    {:?} (token query {:?}), leaving {:?}",
            x.out,
            x.token_after,
            x.logits_out,
            y.out,
            y.token_after,
            y.logits_out
        );
    }
    ensure!(a.len() == b.len(), "not-reproducible", "session {who}: different number of calls");
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> Check {
    let n = ctx.range(2, 3) as usize;
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 1, 3]),
        panics: ctx.chance(1, 3),
        max_stages: 4,
        max_calls: 4,
        missing: true,
        degenerate_rng: true,
        empty_lists: true,
        ..Default::default()
    };
    let mut plans: Vec<SessionPlan> = (0..n).map(|_| gen_session(ctx, &sh)).collect();
    // Sessions often differ only in what they are fed, as when one process
    // serves several requests with one configuration.
    if ctx.chance(1, 2) {
        let specs = plans[0].specs.clone();
        for p in plans.iter_mut().skip(1) {
            p.specs = specs.clone();
            p.bound_history();
        }
        ctx.stat("probe:same_stages_different_inputs");
    }
    // ... and on inputs that are easily taken for one another.
    if ctx.chance(1, 4) {
        ctx.stat("probe:lookalike_inputs");
        let mut lists = gen_cousins(ctx, plans.iter().map(|p| p.calls.len()).sum()).into_iter();
        for c in plans.iter_mut().flat_map(|p| p.calls.iter_mut()) {
            c.items = lists.next().expect("as many as calls");
        }
    }
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), p);
    }
    let seed = ctx.run_seed;
    let solo = |p: &SessionPlan, e: u64| -> Result<Vec<CallRec>, Violation> {
        match on_fresh_thread(e, || p.run(&mut p.make_res(), false)) {
            Ok(r) => Ok(r),
            Err(p) => viol("unexpected-panic", panic_text(p.as_ref())),
        }
    };
    let base: Vec<Vec<CallRec>> = plans.iter().map(|p| solo(p, mix(seed, 1))).collect::<Result<_, _>>()?;
    for (i, r) in base.iter().enumerate() {
        account(ctx, &format!("session {i} alone"), r);
    }
    if base.iter().filter(|r| r.iter().any(|c| c.out.token().is_some())).count() > 1 {
        ctx.nontrivial = true;
    }
    // Other hash seeds, other clock, lists with memory to spare.
    for (i, p) in plans.iter().enumerate() {
        let spare = [0, 1, 40, 700][(mix(seed, 6) % 4) as usize];
        let r = match on_fresh_thread(mix(seed, 2), || {
            SPARE.set(spare);
            let r = p.run(&mut p.make_res(), false);
            SPARE.set(0);
            r
        }) {
            Ok(r) => r,
            Err(p) => return viol("unexpected-panic", panic_text(p.as_ref())),
        };
        compare("run again with different hash seeds and clock, and memory to spare in its lists", i, &base[i], &r)?;
        ctx.stat("compared:entropy_and_clock");
    }
    // Interleaved as threads.
    let par = run_sessions(ctx, &plans)?;
    for i in 0..n {
        compare("with the other sessions interleaved", i, &base[i], &par[i])?;
        ctx.stat("compared:interleaved");
    }
    // Round robin over live chains on one thread.
    let rr = match on_fresh_thread(mix(seed, 3), || round_robin(&plans)) {
        Ok(r) => r,
        Err(p) => return viol("unexpected-panic", panic_text(p.as_ref())),
    };
    for i in 0..n {
        compare("alternating with the other sessions on one thread", i, &base[i], &rr[i])?;
        ctx.stat("compared:alternating");
    }
    // On clones of one another's samplers.
    if plans[0].specs == plans[1].specs {
        let tw = match on_fresh_thread(mix(seed, 4), || twins(&plans[0], &plans[1])) {
            Ok(r) => r,
            Err(p) => return viol("unexpected-panic", panic_text(p.as_ref())),
        };
        for i in 0..2 {
            compare("on a clone of the other session's samplers, alternating with it", i, &base[i], &tw[i])?;
            ctx.stat("compared:clones");
        }
    }
    // Moved from thread to thread, one call on each.
    {
        let i = (seed % n as u64) as usize;
        let r = match moved(&plans[i], mix(seed, 5)) {
            Ok(r) => r,
            Err(p) => return viol("unexpected-panic", panic_text(p.as_ref())),
        };
        compare("moved to another thread after every call", i, &base[i], &r)?;
        ctx.stat("compared:moved_between_threads");
    }
    // One session's calls made from inside another's resource accesses.
    let nested = nested(ctx, &plans[0], &plans[1])?;
    for i in 0..2 {
        if i == 1 && nested[1].is_empty() {
            continue;
        }
        let m = nested[i].len();
        compare(
            if i == 0 { "with the other session's calls made from inside its resource accesses" } else { "from inside the other session's resource accesses" },
            i,
            &base[i][..m],
            &nested[i],
        )?;
        ctx.stat_n("compared:nested_calls", m as u64);
    }
    // The one candidate order and the last session's remains must not matter:
    // the same plan on a chain that is new, after all of the above.
    let again = plans[0].run(&mut plans[0].make_res(), false);
    compare("after the others have finished", 0, &base[0], &again)?;
    Ok(())
}

fn twins(a: &SessionPlan, b: &SessionPlan) -> [Vec<CallRec>; 2] {
    let logs = [TapLog::default(), TapLog::default()];
    let mut res = [a.make_res(), b.make_res()];
    for r in res.iter_mut() {
        r.yields = false;
    }
    let mut chains = tapped_twins(&a.specs, [&logs[0], &logs[1]], [&res[0].stage, &res[1].stage], false);
    let mut out = [vec![], vec![]];
    for k in 0..a.calls.len().max(b.calls.len()) {
        for (i, p) in [a, b].into_iter().enumerate() {
            if let Some(c) = p.calls.get(k) {
                out[i].push(run_call(&mut chains[i], &logs[i], &mut res[i], c));
            }
        }
    }
    out
}

fn round_robin(plans: &[SessionPlan]) -> Vec<Vec<CallRec>> {
    let mut live: Vec<(SamplerChain, TapLog, crate::res::SimRes)> = plans
        .iter()
        .map(|p| {
            let log = TapLog::default();
            let mut res = p.make_res();
            res.yields = false;
            let c = tapped_chain(&p.specs, &log, &res.stage, false);
            (c, log, res)
        })
        .collect();
    let mut out: Vec<Vec<CallRec>> = plans.iter().map(|_| vec![]).collect();
    for k in 0..plans.iter().map(|p| p.calls.len()).max().unwrap_or(0) {
        for (i, p) in plans.iter().enumerate() {
            if let Some(c) = p.calls.get(k) {
                let (ch, log, res) = &mut live[i];
                out[i].push(run_call(ch, log, res, c));
            }
        }
    }
    out
}

/// Each call on a thread of its own.
fn moved(p: &SessionPlan, seed: u64) -> std::thread::Result<Vec<CallRec>> {
    let log = TapLog::default();
    let mut res = p.make_res();
    res.yields = false;
    let mut chain = tapped_chain(&p.specs, &log, &res.stage, false);
    let mut out = vec![];
    for (k, c) in p.calls.iter().enumerate() {
        out.push(on_fresh_thread(mix(seed, k as u64), || run_call(&mut chain, &log, &mut res, c))?);
    }
    Ok(out)
}

/// Run `inner`'s calls while `outer` is using its resources, on one thread
/// (a simulated one, so that waiting for itself is seen).
fn nested(ctx: &mut Ctx, outer: &SessionPlan, inner: &SessionPlan) -> Result<[Vec<CallRec>; 2], Violation> {
    let slot: std::sync::Mutex<[Vec<CallRec>; 2]> = Default::default();
    let mut pr = Prng::new(mix(ctx.run_seed, 77));
    let task = || {
        let ilog = TapLog::default();
        let mut ires = inner.make_res();
        ires.yields = false;
        let mut ichain = tapped_chain(&inner.specs, &ilog, &ires.stage, false);
        let mut left = inner.calls.clone().into_iter();
        let irecs: std::sync::Arc<std::sync::Mutex<Vec<CallRec>>> = Default::default();
        let i2 = irecs.clone();
        let mut ores = outer.make_res();
        ores.nest(Box::new(move || {
            if pr.below(3) > 0 {
                if let Some(c) = left.next() {
                    let r = run_call(&mut ichain, &ilog, &mut ires, &c);
                    i2.lock().unwrap().push(r);
                }
            }
        }));
        let o = outer.run(&mut ores, false);
        ores.unnest();
        let i = std::mem::take(&mut *irecs.lock().unwrap());
        *slot.lock().unwrap() = [o, i];
    };
    run_tasks(ctx, vec![Box::new(task)], 400_000)?;
    Ok(slot.into_inner().unwrap())
}
