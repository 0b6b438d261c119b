//! C02: a panicking call is contained.

use llm_samplers::prelude::*;

use super::c01::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    let nclients = ctx.range(2, 3) as usize;
    let nsubj = ctx.range(1, 2) as usize;
    let mut ops = gen_ops(ctx, nclients, nsubj, 7, 0);
    let ids: Vec<TID> = ops.iter().flat_map(|o| o.items.iter().map(|i| i.0)).collect();
    let subjects: Vec<Subject> = (0..nsubj)
        .map(|_| {
            let k = ctx.pick(&RANDOM_PICKERS);
            let last = gen_spec(ctx, k, &ids);
            match ctx.draw(3) {
                0 => Subject::One(last),
                1 => {
                    let k = ctx.pick(&HISTORY);
                    let first = if ctx.chance(1, 2) { Spec::Rep { pen: 1.5, last_n: 8 } } else { gen_spec(ctx, k, &ids) };
                    Subject::Chain(vec![first, last])
                }
                _ => Subject::Nested(vec![Spec::Temp(0.5), last]),
            }
        })
        .collect();
    // Arm panics on up to two ops.
    for n in 0..ctx.range(1, 2) {
        let i = ctx.draw(ops.len() as u32) as usize;
        let at = ctx.weighted(&[5, 3, 1]) as u32;
        ops[i].faults = vec![(at, ctx.pick(&PANIC_FAULTS), 100 + i as u32 + n)];
    }
    for o in ops.iter_mut() {
        // Keep it decidable which sampler a panicking access belongs to.
        if let OpKind::ChainLast { pre, .. } = &mut o.kind {
            for s in pre.iter_mut() {
                if !s.is_history() {
                    *s = if ctx.chance(1, 3) {
                        // A pick made before the call breaks off.
                        Spec::Greedy
                    } else if ctx.chance(1, 2) {
                        Spec::Temp(2.0)
                    } else {
                        let k = ctx.pick(&HISTORY);
                        gen_spec(ctx, k, &ids)
                    };
                }
            }
        }
        if let OpKind::ChainMid { post } = &mut o.kind {
            *post = Spec::Greedy;
        }
    }
    // An unshared session that must not notice anything.
    let mut bystander = gen_session(ctx, &Shape { max_stages: 3, max_calls: 2, ..Default::default() });
    if ctx.chance(1, 2) {
        // Of the same kinds as what may panic.
        let own = bystander.ids();
        let mut kinds: Vec<Kind> = vec![];
        for s in &subjects {
            if let Subject::Chain(v) = s {
                kinds.push(v[0].kind());
            }
        }
        for o in ops.iter().filter(|o| !o.faults.is_empty()) {
            if let OpKind::ChainLast { pre, .. } = &o.kind {
                kinds.extend(pre.iter().map(|s| s.kind()));
            }
        }
        for k in kinds.into_iter().take(2) {
            let s = gen_spec(ctx, k, &own);
            bystander.specs.insert(0, s);
        }
        bystander.bound_history();
    }
    let alone = |b: &SessionPlan| {
        let mut res = b.make_res();
        b.run(&mut res, false)
    };
    let solo = alone(&bystander);

    let shared: Vec<Shared> = subjects.iter().map(|s| s.build()).collect();
    let by = std::sync::Mutex::new(vec![]);
    let recs = {
        // The bystander is one more client task.
        let out: Vec<std::sync::Mutex<Option<Timed>>> = ops.iter().map(|_| std::sync::Mutex::new(None)).collect();
        let mut tasks: Vec<Task> = (0..nclients)
            .map(|c| {
                let (out, ops, shared) = (&out, &ops, &shared);
                Box::new(move || {
                    for (i, op) in ops.iter().enumerate().filter(|(_, o)| o.client == c) {
                        llm_samplers_simstd::sim::yield_point("next op");
                        let inv = llm_samplers_simstd::sim::next_seq();
                        let (res, log) = exec(op, &shared[op.subject], true);
                        let ret = llm_samplers_simstd::sim::next_seq();
                        *out[i].lock().unwrap() = Some(Timed { inv, ret, res, log });
                    }
                }) as Task
            })
            .collect();
        let (bys, byo) = (&bystander, &by);
        tasks.push(Box::new(move || {
            let mut res = bys.make_res();
            *byo.lock().unwrap() = bys.run(&mut res, true);
        }));
        run_tasks(ctx, tasks, 100_000)?;
        out.into_iter().map(|o| o.into_inner().unwrap().expect("op ran")).collect::<Vec<_>>()
    };
    trace_ops(ctx, &subjects, &ops, &recs);

    // Which calls panicked inside a shared sampler?
    let mut poisoners: Vec<usize> = vec![];
    for (i, (o, r)) in ops.iter().zip(&recs).enumerate() {
        if let Some((kind, id, what, _)) = r.log.fired.first() {
            ensure!(
                r.res.out == Out::Fault(*id),
                "panic-lost",
                "op {i}: the provider panicked ({}, {what}) but the caller saw {:?}",
                kind.name(),
                r.res.out
            );
            if r.log.stage_at_fault == Some(1) {
                poisoners.push(i);
                ctx.stat("probe:panic_inside_shared_sampler");
            } else {
                ctx.stat("probe:panic_in_local_stage_before_shared");
            }
            ctx.nontrivial = true;
        } else if let Out::Panic(m) = &r.res.out {
            return viol("panic-spread", format!("op {i} panicked although no panic was injected into it: {m}"));
        } else if let Out::Fault(f) = &r.res.out {
            return viol("panic-spread", format!("op {i} received another call's panic #{f}"));
        }
        if let Some(Some(t)) = r.res.local_token {
            ensure!(
                r.res.out.is_ok() && r.log.fired.is_empty(),
                "token-after-panic",
                "op {i}: its chain reports token {t} after a call that gave {:?}",
                r.res.out
            );
        }
    }
    for (i, (o, r)) in ops.iter().zip(&recs).enumerate() {
        let after = poisoners.iter().any(|p| ops[*p].subject == o.subject && recs[*p].ret < r.inv);
        let could = poisoners.iter().any(|p| *p != i && ops[*p].subject == o.subject && recs[*p].inv < r.ret);
        let own = !r.log.fired.is_empty();
        if after && !own {
            ctx.stat("probe:call_after_poisoning");
            match (&o.kind, &r.res.out) {
                (OpKind::Get, Out::Tok(None)) => (),
                (OpKind::Get, other) => {
                    return viol("query-after-panic", format!("op {i}: token query on a sampler another thread panicked in gave {other:?}, not nothing"))
                }
                (_, Out::Err(_)) => (),
                (_, other) => {
                    return viol("call-after-panic", format!("op {i}: call on a sampler another thread panicked in gave {other:?}, not an error"))
                }
            }
            if matches!(o.kind, OpKind::SampleToken | OpKind::Sample) {
                let before = Snap::of(&make_logits(&o.items));
                ensure!(
                    r.res.left.same_set(&before),
                    "refused-call-touched-logits",
                    "op {i}: the refused call changed the caller's logits from {before:?} to {:?}",
                    r.res.left
                );
            }
        }
        if !could && !own {
            ensure!(
                r.res.out.is_ok(),
                "innocent-call-failed",
                "op {i}: no panic could have reached it, yet it gave {:?}",
                r.res.out
            );
        }
    }
    for (s, subj) in subjects.iter().enumerate() {
        let which: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].subject == s).collect();
        ensure!(
            linearizable(subj, &ops, &recs, &which),
            "not-linearizable",
            "with panics at {poisoners:?}, the results on shared sampler {s} match no one-at-a-time order"
        );
    }
    // The bystander, and the same session begun after everything.
    let later = alone(&bystander);
    let got = by.into_inner().unwrap();
    for (when, got) in [("next to", &got), ("after", &later)] {
        for (i, (g, s)) in got.iter().zip(&solo).enumerate() {
            ensure!(
                g.out == s.out && g.logits_out == s.logits_out,
                "bystander-affected",
                "an unshared session's call {i} gave {:?} {when} the panics and {:?} before",
                g.out,
                s.out
            );
        }
    }
    Ok(())
}
