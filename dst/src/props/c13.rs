//! C13: progress: a call whose resources are healthy finishes, without
//! error, and a picking chain picks.

use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;

use super::c04::maybe_ban;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    let n = ctx.weighted(&[3, 3, 1]) + 1;
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 3, 5]),
        panics: ctx.chance(1, 3),
        max_stages: 6,
        max_calls: 5,
        empty_lists: true,
        degenerate_rng: true,
        ..Default::default()
    };
    let mut plans: Vec<SessionPlan> = (0..n)
        .map(|_| {
            let mut p = gen_session(ctx, &sh);
            maybe_ban(ctx, &mut p);
            if ctx.chance(1, 3) {
                // Short lists are where cut-off rules run out of candidates.
                for c in p.calls.iter_mut() {
                    let k = ctx.range(1, 3) as usize;
                    c.items.truncate(k);
                    if !c.items.is_empty() && c.items.iter().all(|x| !x.1.is_finite()) {
                        c.items[0].1 = 0.5;
                    }
                }
            }
            if ctx.chance(1, 24) {
                let big: Items = (0..2000u32).map(|i| (i, ((i * 7919) % 1000) as f32 * 0.01)).collect();
                p.calls[0].items = big;
                ctx.stat("probe:large_vocabulary");
            }
            if ctx.chance(1, 24) {
                p.hist = Some((0..600u32).map(|i| (i * i + i / 7) % 9).collect());
                ctx.stat("probe:long_history");
            }
            // Everything forbidden in some call: the worst the model and the
            // bans can do to a list.
            if ctx.chance(1, 6) {
                let k = ctx.draw(p.calls.len() as u32) as usize;
                p.calls[k].items.iter_mut().for_each(|x| x.1 = f32::NEG_INFINITY);
                p.calls[k].presoftmax = false;
            }
            p
        })
        .collect();
    let shared = n > 1 && ctx.chance(1, 3);
    if shared {
        // A panic would rightly disable the shared stage; C02 covers that.
        for p in plans.iter_mut() {
            for c in p.calls.iter_mut() {
                c.faults.retain(|f| !f.1.panics());
            }
        }
    }
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), p);
    }
    let recs = if shared {
        ctx.note(|| format!("all sessions end in one shared {:?}", plans[0].specs.last().unwrap()));
        ctx.stat("probe:shared_last_stage");
        let last = plans[0].specs.last().unwrap().build_shared();
        let out: Vec<Mutex<Vec<(Out, CallLog)>>> = plans.iter().map(|_| Default::default()).collect();
        let tasks: Vec<Task> = plans
            .iter()
            .zip(&out)
            .map(|(p, o)| {
                let last: Shared = Arc::clone(&last);
                Box::new(move || {
                    let mut c = plain_chain(&p.specs[..p.specs.len() - 1]);
                    c.push_sampler(last);
                    let mut res = p.make_res();
                    for k in &p.calls {
                        let mut l = input(k);
                        res.begin_call(k.faults.clone());
                        let r = call(|| c.sample_token(&mut res, &mut l));
                        let log = res.end_call();
                        if let (true, Some(t)) = (k.feed, r.token()) {
                            res.push_token(t);
                        }
                        o.lock().unwrap().push((r, log));
                    }
                }) as Task
            })
            .collect();
        run_tasks(ctx, tasks, 400_000)?;
        out.into_iter().map(|o| o.into_inner().unwrap()).collect::<Vec<_>>()
    } else {
        let recs = run_sessions(ctx, &plans)?;
        for (i, r) in recs.iter().enumerate() {
            account(ctx, &format!("session {i}"), r);
        }
        for r in recs.iter().flatten() {
            if r.out.is_ok() {
                ensure!(
                    r.token_after == r.out.token(),
                    "token-query-disagrees",
                    "a call gave {:?}, the token query afterwards {:?}",
                    r.out,
                    r.token_after
                );
            }
        }
        recs.into_iter().map(|r| r.into_iter().map(|c| (c.out, c.log)).collect()).collect()
    };
    for (i, (p, r)) in plans.iter().zip(&recs).enumerate() {
        let mut after_fault = false;
        for (k, (o, log)) in r.iter().enumerate() {
            if shared {
                ctx.ev(&format!("session {i} call {k}: {o:?}"));
            }
            if !log.fired.is_empty() {
                for f in &log.fired {
                    if shared {
                        ctx.stat(&format!("fault:{}:{}", f.2, f.0.name()));
                    }
                }
                after_fault = true;
                continue;
            }
            let c = &p.calls[k];
            let who = format!("session {i} call {k} ({} candidates)", c.items.len());
            if after_fault {
                ctx.stat("probe:call_after_faults_stopped");
                ctx.nontrivial = true;
            }
            if p.specs.len() > 2 || n > 1 {
                ctx.nontrivial = true;
            }
            if !c.items.is_empty() && c.items.iter().all(|x| x.1 == f32::NEG_INFINITY) {
                // Nothing may be picked; greedily, the greatest is still one of them.
                ctx.stat("probe:nothing_possible");
                let greedy = matches!(if shared { &plans[0] } else { p }.specs.last(), Some(Spec::Greedy));
                ensure!(
                    matches!(o, Out::Err(_) | Out::Tok(None)) || greedy && matches!(o, Out::Tok(_)),
                    if matches!(o, Out::Panic(_)) { "panic" } else { "picked-the-impossible" },
                    "{who}: stages {:?} over a list in which nothing is possible gave {o:?}",
                    p.specs
                );
                after_fault = true;
                continue;
            }
            match o {
                Out::Tok(Some(_)) if !c.items.is_empty() => (),
                Out::Tok(None) if c.items.is_empty() => ctx.stat("probe:empty_list"),
                Out::Tok(t) => {
                    return viol("no-progress", format!("{who}: stages {:?} over {:?} picked {t:?}", p.specs, c.items))
                }
                Out::Err(e) => {
                    return viol(
                        "error-without-cause",
                        format!("{who}: stages {:?} over {:?} failed although no resource did: {e}", p.specs, c.items),
                    )
                }
                Out::Panic(m) => {
                    return viol("panic", format!("{who}: stages {:?} over {:?} panicked: {m}", p.specs, c.items))
                }
                Out::Fault(f) => return viol("panic", format!("{who}: stray injected panic #{f}")),
            }
        }
    }
    Ok(())
}
