//! C03: resource failures surface as that failure and leave no trace.

use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    if ctx.chance(1, 16) {
        return bare_providers(ctx);
    }
    let mut sh = Shape {
        fault8: ctx.pick(&[3u32, 5]),
        panics: ctx.chance(1, 3),
        missing: true,
        max_calls: 5,
        ..Default::default()
    };
    // Lean towards stages that use resources.
    sh.shapers.extend(HISTORY);
    sh.pickers.extend(RANDOM_PICKERS);
    let n = ctx.weighted(&[6, 2]) + 1;
    let plans: Vec<SessionPlan> = (0..n)
        .map(|_| {
            let mut p = gen_session(ctx, &sh);
            // Sometimes a picker sits in the middle of the chain too.
            if ctx.chance(1, 6) {
                let ids = p.ids();
                let k = ctx.pick(&PICKERS);
                let s = gen_spec(ctx, k, &ids);
                let at = ctx.draw(p.specs.len() as u32) as usize;
                p.specs.insert(at, s);
            }
            p
        })
        .collect();
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), p);
    }
    let recs = run_sessions(ctx, &plans)?;
    for (i, r) in recs.iter().enumerate() {
        account(ctx, &format!("session {i}"), r);
    }
    for (p, r) in plans.iter().zip(&recs) {
        if r.iter().any(|c| !c.log.fired.is_empty()) && r.iter().any(|c| c.out.is_ok()) {
            ctx.nontrivial = true;
        }
        per_call(ctx, p, r)?;
        twin(ctx, p, r)?;
    }
    Ok(())
}

fn per_call(ctx: &mut Ctx, p: &SessionPlan, recs: &[CallRec]) -> Check {
    for (i, r) in recs.iter().enumerate() {
        let what = format!("call {i}");
        if let Some((kind, id, res, _)) = r.log.fired.first() {
            if kind.panics() {
                ensure!(
                    r.out == Out::Fault(*id),
                    "panic-lost",
                    "{what}: the {res} provider panicked but the caller saw {:?}",
                    r.out
                );
            } else {
                let want = Out::Err(err_text(&fault_error(*kind, *id, res)));
                ensure!(
                    r.out == want,
                    "error-not-surfaced",
                    "{what}: the {res} provider failed ({}) but the caller saw {:?}, not {want:?}",
                    kind.name(),
                    r.out
                );
            }
            ctx.stat("probe:fault_fired");
        } else if let Out::Panic(m) = &r.out {
            return viol("panic", format!("{what} panicked: {m}"));
        } else if let Out::Fault(f) = &r.out {
            return viol("panic-spread", format!("{what} got injected panic #{f} it was not given"));
        } else if let Out::Err(e) = &r.out {
            let missing_rng = matches!(p.rng, RngKind::None) && e.contains("MissingResource") && e.contains("rng");
            let reads = p.specs.iter().any(|s| s.is_history() && !s.switched_off());
            let missing_hist = reads && p.hist.is_none() && e.contains("MissingResource") && e.contains("last_tokens");
            ensure!(
                missing_rng || missing_hist,
                "spurious-error",
                "{what} failed with {e} although every resource it needs is present and healthy"
            );
            ctx.stat("probe:absent_resource_reported");
        }
        if !r.out.is_ok() {
            ensure!(
                r.token_after.is_none(),
                "token-after-failure",
                "{what} failed ({:?}) yet the chain reports token {:?} as picked",
                r.out,
                r.token_after
            );
            // No stage after the failing one ran, and no stage's settings or
            // learning state moved.
            let last = r.stages.last().expect("a stage failed");
            ensure!(
                last.ok != Some(true),
                "stages-after-failure",
                "{what} failed, but the last stage that ran ({}) succeeded",
                last.stage
            );
            if let Some(k) = r.log.stage_at_fault {
                ensure!(
                    last.stage as u32 == k,
                    "stages-after-failure",
                    "{what}: the resource failed in stage {k} but stage {} ran afterwards",
                    last.stage
                );
            }
            ensure!(
                last.opts_before == last.opts_after,
                "state-moved-on-failure",
                "{what}: stage {} failed but its state moved from {:?} to {:?}",
                last.stage,
                last.opts_before,
                last.opts_after
            );
            if p.specs[last.stage].is_picker() {
                ensure!(
                    last.token.is_none(),
                    "token-after-failure",
                    "{what}: the failing picker (stage {}) still reports token {:?}",
                    last.stage,
                    last.token
                );
            }
        }
        for (k, s) in r.stages.iter().enumerate() {
            ensure!(
                s.stage == k,
                "stage-order",
                "{what}: stage {} ran where stage {k} was due",
                s.stage
            );
            if k + 1 < r.stages.len() {
                ensure!(s.ok == Some(true), "stages-after-failure", "{what}: stage {k} failed but later stages ran");
            }
        }
        // A needed but absent resource is an error, never ignored.
        if r.out.is_ok() && !r.logits_in.items.is_empty() {
            let picks = p.specs.iter().any(|s| s.uses_rng());
            ensure!(
                !(picks && matches!(p.rng, RngKind::None)),
                "absent-resource-ignored",
                "{what} succeeded with a random picker and no generator"
            );
            let reads = p.specs.iter().any(|s| s.needs_history());
            ensure!(
                !(reads && p.hist.is_none()),
                "absent-resource-ignored",
                "{what} succeeded with a history stage and no token history"
            );
        }
    }
    Ok(())
}

/// Leaving the failed calls out changes nothing for the others.
fn twin(ctx: &mut Ctx, p: &SessionPlan, recs: &[CallRec]) -> Check {
    if recs.iter().all(|r| r.out.is_ok()) {
        return Ok(());
    }
    // A picker mid-chain legitimately picks before a later stage fails.
    if p.specs[..p.specs.len() - 1].iter().any(|s| s.is_picker()) {
        return Ok(());
    }
    let mut q = p.clone();
    let keep: Vec<usize> = (0..recs.len()).filter(|i| recs[*i].out.is_ok()).collect();
    q.calls = keep
        .iter()
        .map(|i| CallPlan { faults: vec![], ..p.calls[*i].clone() })
        .collect();
    if q.calls.is_empty() {
        return Ok(());
    }
    ctx.stat("probe:recovery_compared_with_fault_free_twin");
    let mut res = q.make_res();
    let clean = q.run(&mut res, false);
    for (i, c) in keep.iter().zip(&clean) {
        let r = &recs[*i];
        ensure!(
            r.out == c.out && r.token_after == c.token_after && r.logits_out == c.logits_out,
            "failure-leaves-trace",
            "call {i} gave {:?} (left {:?}), but {:?} (left {:?}) when the failed calls before it never happened",
            r.out,
            r.logits_out,
            c.out,
            c.logits_out
        );
        let (a, b) = (r.stages.last(), c.stages.last());
        ensure!(
            a.map(|s| &s.opts_after) == b.map(|s| &s.opts_after),
            "failure-leaves-trace",
            "call {i} left settings {:?}, but {:?} when the failed calls before it never happened",
            a.map(|s| &s.opts_after),
            b.map(|s| &s.opts_after)
        );
    }
    Ok(())
}

/// The providers that have no resources at all.
fn bare_providers(ctx: &mut Ctx) -> Check {
    let items = gen_items(ctx, LogitOpts::default());
    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
    let all: Vec<Kind> = SHAPERS.iter().chain(PICKERS.iter()).copied().collect();
    let k = ctx.pick(&all);
    let spec = gen_spec(ctx, k, &ids);
    let which = ctx.draw(3);
    let mut s = spec.build();
    let mut l = make_logits(&items);
    let out = match which {
        0 => call(|| s.sample_token(&mut NilSamplerResources::new(), &mut l)),
        1 => call(|| s.sample_token(&mut (), &mut l)),
        _ => call(|| s.sample_token(&mut SimpleSamplerResources::new(None, None), &mut l)),
    };
    ctx.ev(&format!("{spec:?} with bare provider {which}: {out:?}"));
    ctx.stat("probe:bare_provider");
    let want = if spec.uses_rng() {
        Some("rng")
    } else if spec.needs_history() {
        Some("last_tokens")
    } else {
        None
    };
    match (&out, want) {
        (Out::Err(e), _) if e.contains("MissingResource") && (spec.uses_rng() || spec.is_history() && !spec.switched_off()) => Ok(()),
        (Out::Tok(_), None) => Ok(()),
        _ => viol("bare-provider", format!("{spec:?} over {items:?} with an empty provider gave {out:?}")),
    }
}
