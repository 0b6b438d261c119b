//! C14: a forbidden token is never generated.

use std::sync::Arc;

use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

/// Bans issued on a live bias list, by another thread, while a session that
/// uses it goes on: every call that starts after a ban honours it.
fn live(ctx: &mut Ctx) -> Check {
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 0, 2]),
        max_stages: 4,
        max_calls: 6,
        degenerate_rng: true,
        logits: LogitOpts { lo: 2, ..Default::default() },
        ..Default::default()
    };
    let p = gen_session(ctx, &sh);
    let ids: Vec<TID> = p.calls[0].items.iter().map(|x| x.0).collect();
    // (token, whether an entry is replaced in place, which)
    let n = ctx.range(1, 4.min(ids.len() as u32 - 1));
    let mut bans: Vec<(TID, bool, u32)> = vec![];
    for _ in 0..n {
        let t = ids[ctx.draw(ids.len() as u32) as usize];
        if bans.iter().all(|b| b.0 != t) {
            bans.push((t, ctx.chance(1, 2), ctx.draw(8)));
        }
    }
    let banned: Vec<TID> = bans.iter().map(|b| b.0).collect();
    let mut plan = p;
    for c in plan.calls.iter_mut() {
        if c.items.iter().all(|x| banned.contains(&x.0) || x.1 == f32::NEG_INFINITY) {
            c.items.push((950, 0.125));
        }
    }
    let start: Vec<(TID, f32)> = (0..ctx.range(0, 3)).map(|i| (910_000 + i, 0.5)).collect();
    describe(ctx, "session", &plan);
    ctx.note(|| format!("bias list {start:?}, then banned one by one (in place?): {bans:?}"));
    let bias = Arc::new(SimMutex::new(SampleFlatBias::new(start)));
    let in_force: std::sync::Mutex<Vec<TID>> = Default::default();
    let out: std::sync::Mutex<Vec<(Vec<TID>, Out, Option<TID>, Snap, bool)>> = Default::default();
    let b2 = bias.clone();
    let (bans, f2, o2, p2) = (&bans, &in_force, &out, &plan);
    let tasks: Vec<Task> = vec![
        Box::new(move || {
            let mut c = SamplerChain::new();
            let handle: Shared = bias;
            c.push_sampler(handle);
            for s in &p2.specs {
                c.push_sampler(s.build());
            }
            let mut res = p2.make_res();
            for k in &p2.calls {
                seam_yield("between calls");
                let mut l = input(k);
                res.begin_call(k.faults.clone());
                let now = f2.lock().unwrap().clone();
                let r = call(|| c.sample_token(&mut res, &mut l));
                let fired = !res.end_call().fired.is_empty();
                if let (true, Some(t)) = (k.feed, r.token()) {
                    res.push_token(t);
                }
                o2.lock().unwrap().push((now, r, c.sampled_token_id(), Snap::of(&l), fired));
            }
        }),
        Box::new(move || {
            for (t, in_place, at) in bans {
                seam_yield("about to ban");
                let mut g = b2.lock().unwrap();
                let free: Vec<usize> = (0..g.len()).filter(|i| g[*i].1.is_finite()).collect();
                match free.get(*at as usize % free.len().max(1)) {
                    Some(i) if *in_place => g[*i] = (*t, f32::NEG_INFINITY),
                    _ => {
                        let n = g.len();
                        g.insert(*at as usize % (n + 1), (*t, f32::NEG_INFINITY));
                    }
                }
                drop(g);
                f2.lock().unwrap().push(*t);
            }
        }),
    ];
    run_tasks(ctx, tasks, 400_000)?;
    ctx.stat("probe:bans_issued_live");
    for (k, (now, o, t, left, fired)) in out.into_inner().unwrap().into_iter().enumerate() {
        ctx.ev(&format!("call {k}, {now:?} banned: {o:?}"));
        ctx.stat_n("fault:resource:any", fired as u64);
        for t in o.token().into_iter().chain(t) {
            ensure!(
                !now.contains(&t),
                "forbidden-token",
                "call {k}: generated token {t}, although {now:?} were banned before the call began; stages {:?}, input {:?}, surviving {left:?}",
                plan.specs,
                plan.calls[k].items
            );
        }
        ensure!(
            o.token().is_some() || fired,
            "no-pick",
            "call {k}: {o:?} with permitted candidates on offer; stages {:?}, input {:?}",
            plan.specs,
            plan.calls[k].items
        );
        ctx.nontrivial |= !now.is_empty() && o.token().is_some();
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> Check {
    if ctx.chance(1, 6) {
        return live(ctx);
    }
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 2, 4]),
        panics: ctx.chance(1, 4),
        max_stages: 5,
        max_calls: 6,
        degenerate_rng: true,
        logits: LogitOpts { lo: 2, ..Default::default() },
        ..Default::default()
    };
    let n = ctx.weighted(&[3, 3]) + 1;
    let share = n > 1 && ctx.chance(1, 3);
    let mut plans = vec![];
    for _ in 0..n {
        let mut p = gen_session(ctx, &sh);
        let mut ids = p.calls[0].items.iter().map(|x| x.0).collect::<Vec<_>>();
        // Forbid some, preferably the most attractive, never all.
        let most = if ctx.chance(1, 10) { 12 } else { 4 };
        let k = ctx.range(1, (ids.len() as u32 - 1).min(most)) as usize;
        let mut banned = vec![];
        for _ in 0..k {
            let by_rank = ctx.chance(2, 3);
            let best = p.calls[0]
                .items
                .iter()
                .filter(|x| ids.contains(&x.0))
                .max_by(|a, b| a.1.total_cmp(&b.1))
                .map(|x| x.0)
                .unwrap();
            let t = if by_rank { best } else { ids[ctx.draw(ids.len() as u32) as usize] };
            ids.retain(|x| *x != t);
            banned.push(t);
        }
        for c in p.calls.iter_mut() {
            if c.items.iter().all(|x| banned.contains(&x.0)) {
                c.items = vec![(900, 0.25), (901, -0.5)];
            }
        }
        // The model itself forbids some of them in some calls.
        let by_model_only = ctx.chance(1, 6);
        if by_model_only || ctx.chance(1, 4) {
            for c in p.calls.iter_mut() {
                for x in c.items.iter_mut() {
                    if banned.contains(&x.0) && (by_model_only || ctx.chance(1, 2)) {
                        x.1 = f32::NEG_INFINITY;
                    }
                }
            }
        }
        // One bias stage bans them all, or two share the work; benign biases
        // may stand among the bans, in any order.
        let cut = if banned.len() > 1 && ctx.chance(1, 4) { 1 + ctx.draw(banned.len() as u32 - 1) as usize } else { banned.len() };
        let (mut at, mut lo) = (0, 0);
        for part in [&banned[..cut], &banned[cut..]] {
            if part.is_empty() || by_model_only {
                continue;
            }
            let mut list: Vec<(TID, f32)> = part.iter().map(|t| (*t, f32::NEG_INFINITY)).collect();
            if ctx.chance(1, 3) {
                let n = ctx.pick(&[2u32, 7, 9, 20, 2, 7, 9, 20, 70, 260]);
                for i in 0..n {
                    let t = if ctx.chance(1, 2) || ids.is_empty() { 900_000 + 7 * i } else { ids[ctx.draw(ids.len() as u32) as usize] };
                    if list.iter().all(|x| x.0 != t) && !banned.contains(&t) {
                        let v = ctx.pick(&[0.0f32, 0.5, -1.0, 4.0, 30.0]);
                        let i = ctx.draw(list.len() as u32 + 1) as usize;
                        list.insert(i, (t, v));
                    }
                }
                ctx.stat("probe:bans_among_other_biases");
            }
            // Anywhere up to the picking stage.
            let pos = if ctx.chance(1, 2) { ctx.draw(p.specs.len() as u32) as usize } else { lo };
            let ok = pos >= lo
                && !p.specs[..pos].iter().any(|s| s.is_picker())
                && !(share && p.specs[..pos].iter().any(|s| !s.is_modifier()));
            let pos = if ok { pos } else { lo };
            p.specs.insert(pos, Spec::FlatBias(list));
            (at, lo) = (pos, pos + 1);
            if pos > 0 {
                ctx.stat("probe:ban_after_other_stages");
            }
        }
        // The history is full of the forbidden tokens now and then.
        if ctx.chance(1, 3) {
            if let Some(h) = p.hist.as_mut() {
                h.extend(banned.iter().cycle().take(6));
            }
        }
        plans.push((p, banned, at));
    }
    for (i, (p, b, _)) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}, forbidding {b:?}"), p);
    }
    let shared = share;
    // (result, token query, surviving list, faulted, permitted candidates
    // were there until the last ban was applied)
    let recs: Vec<Vec<(Out, Option<TID>, Snap, bool, bool)>> = if shared {
        // Sessions with different bans end in one shared picker.
        ctx.stat("probe:shared_picker_with_different_bans");
        for (p, _, _) in plans.iter_mut() {
            for c in p.calls.iter_mut() {
                c.faults.retain(|f| !f.1.panics());
            }
        }
        let last = plans[0].0.specs.last().unwrap().build_shared();
        let out: Vec<std::sync::Mutex<Vec<_>>> = plans.iter().map(|_| Default::default()).collect();
        let tasks: Vec<Task> = plans
            .iter()
            .zip(&out)
            .map(|((p, _, _), o)| {
                let last: Shared = Arc::clone(&last);
                Box::new(move || {
                    let mut c = plain_chain(&p.specs[..p.specs.len() - 1]);
                    c.push_sampler(last);
                    let mut res = p.make_res();
                    for k in &p.calls {
                        let mut l = input(k);
                        res.begin_call(k.faults.clone());
                        let r = call(|| c.sample_token(&mut res, &mut l));
                        let fired = !res.end_call().fired.is_empty();
                        if let (true, Some(t)) = (k.feed, r.token()) {
                            res.push_token(t);
                        }
                        o.lock().unwrap().push((r, c.sampled_token_id(), Snap::of(&l), fired, true));
                    }
                }) as Task
            })
            .collect();
        run_tasks(ctx, tasks, 400_000)?;
        out.into_iter().map(|o| o.into_inner().unwrap()).collect()
    } else {
        let ps: Vec<SessionPlan> = plans.iter().map(|p| p.0.clone()).collect();
        let r = run_sessions(ctx, &ps)?;
        for (i, r) in r.iter().enumerate() {
            account(ctx, &format!("session {i}"), r);
        }
        r.into_iter()
            .zip(&plans)
            .map(|(r, (_, banned, at))| {
                r.into_iter()
                    .map(|c| {
                        let open = c
                            .stages
                            .iter()
                            .filter(|s| s.stage <= *at)
                            .all(|s| s.before.items.iter().any(|x| !banned.contains(&x.0)));
                        (c.out, c.token_after, c.logits_out, !c.log.fired.is_empty(), open)
                    })
                    .collect()
            })
            .collect()
    };
    for (i, ((p, banned, _), r)) in plans.iter().zip(&recs).enumerate() {
        for (k, (o, t, left, fired, open)) in r.iter().enumerate() {
            if shared {
                ctx.ev(&format!("session {i} call {k}: {o:?}"));
                ctx.stat_n("fault:resource:any", *fired as u64);
            }
            if !open {
                // An earlier filter left nothing but forbidden tokens.
                ctx.stat("everything_left_is_forbidden");
                continue;
            }
            for t in o.token().into_iter().chain(*t) {
                ensure!(
                    !banned.contains(&t),
                    "forbidden-token",
                    "session {i} call {k}: generated token {t}, which a negative-infinity bias forbids; stages {:?}, input {:?}, surviving {left:?}",
                    p.specs,
                    p.calls[k].items
                );
            }
            if o.token().is_some() {
                ctx.nontrivial = true;
                if left.items.iter().any(|x| banned.contains(&x.0)) {
                    ctx.stat("probe:forbidden_token_still_listed");
                }
            } else if !fired {
                // Avoiding the forbidden tokens must not cost the rest.
                ensure!(
                    false,
                    "no-pick",
                    "session {i} call {k}: {o:?} with permitted candidates on offer; stages {:?}, input {:?}",
                    p.specs,
                    p.calls[k].items
                );
            }
            if *fired {
                ctx.stat("probe:fault_in_a_session_with_bans");
            }
        }
    }
    Ok(())
}
