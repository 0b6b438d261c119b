//! C04: candidates are conserved stage by stage.

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 2, 3]),
        panics: ctx.chance(1, 3),
        max_stages: 5,
        empty_lists: true,
        degenerate_rng: true,
        ..Default::default()
    };
    let n = ctx.weighted(&[6, 2]) + 1;
    let plans: Vec<SessionPlan> = (0..n)
        .map(|_| {
            let mut p = gen_session(ctx, &sh);
            maybe_ban(ctx, &mut p);
            p
        })
        .collect();
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), p);
    }
    let recs = run_sessions(ctx, &plans)?;
    for (i, r) in recs.iter().enumerate() {
        account(ctx, &format!("session {i}"), r);
    }
    for (p, r) in plans.iter().zip(&recs) {
        for (i, c) in r.iter().enumerate() {
            if c.stages.iter().any(|s| s.after.items.len() < s.before.items.len()) {
                ctx.nontrivial = true;
                ctx.stat("probe:stage_removed_candidates");
            }
            for s in &c.stages {
                stage(ctx, &p.specs[s.stage], s, i)?;
            }
            if let Some(t) = c.out.token() {
                let last = c.stages.last().unwrap();
                picked(&c.logits_out, t, &p.specs[last.stage], i)?;
            }
            // Stage boundaries: what one stage leaves is what the next gets.
            for w in c.stages.windows(2) {
                ensure!(
                    w[0].after == w[1].before,
                    "list-changed-between-stages",
                    "call {i}: stage {} left {:?} but stage {} was given {:?}",
                    w[0].stage,
                    w[0].after,
                    w[1].stage,
                    w[1].before
                );
            }
        }
    }
    Ok(())
}

/// Sometimes make a few candidates impossible (logit -inf), leaving at least
/// one possible.
pub fn maybe_ban(ctx: &mut Ctx, p: &mut SessionPlan) {
    if !ctx.chance(1, 3) {
        return;
    }
    for c in p.calls.iter_mut() {
        let n = c.items.len();
        if n < 2 {
            continue;
        }
        for _ in 0..ctx.range(1, 2) {
            let k = ctx.draw(n as u32) as usize;
            if c.items.iter().filter(|x| x.1.is_finite()).count() > 1 {
                c.items[k].1 = f32::NEG_INFINITY;
            }
        }
    }
}

pub fn picked(left: &Snap, t: u32, spec: &Spec, call: usize) -> Check {
    let Some(l) = left.get(t) else {
        return viol("picked-not-a-candidate", format!("call {call}: picked {t}, which is not among the surviving candidates {left:?}"));
    };
    let max = left.items.iter().map(|x| x.1).fold(f32::NEG_INFINITY, f32::max);
    if *spec == Spec::Greedy {
        ensure!(
            l == max,
            "greedy-not-greatest",
            "call {call}: greedy picked {t} (logit {l}) although {max} was on offer in {left:?}"
        );
    }
    ensure!(
        (l as f64 - max as f64) > -104.0,
        "picked-impossible",
        "call {call}: picked {t} (logit {l}, best {max}), whose probability is zero, from {left:?}"
    );
    Ok(())
}

fn stage(ctx: &mut Ctx, spec: &Spec, s: &StageRec, call: usize) -> Check {
    let (b, a) = (&s.before, &s.after);
    let who = || format!("call {call} stage {} ({spec:?}, {})", s.stage, match s.ok {
        Some(true) => "ok",
        Some(false) => "failed",
        None => "panicked",
    });
    let (mut bi, mut ai) = (b.ids(), a.ids());
    bi.sort_unstable();
    ai.sort_unstable();
    let dup = ai.windows(2).any(|w| w[0] == w[1]);
    ensure!(!dup, "duplicated", "{}: duplicates a candidate: {b:?} -> {a:?}", who());
    if let Some(x) = ai.iter().find(|x| bi.binary_search(x).is_err()) {
        return viol("invented", format!("{}: invents candidate {x}: {b:?} -> {a:?}", who()));
    }
    if s.ok != Some(true) {
        ctx.stat("probe:failed_stage_checked");
    }
    if spec.is_modifier() || matches!(spec, Spec::Greedy | Spec::Rand) {
        ensure!(bi == ai, "lost", "{}: loses candidates: {b:?} -> {a:?}", who());
    }
    if !spec.is_modifier() {
        for (t, l, _) in &a.items {
            let was = b.get(*t).unwrap();
            ensure!(
                was.to_bits() == l.to_bits(),
                "filter-rewrote-logit",
                "{}: changes candidate {t} from {was} to {l}",
                who()
            );
        }
        let keep = spec.min_keep().min(bi.len());
        ensure!(
            ai.len() >= keep,
            "kept-too-few",
            "{}: keeps {} of {} candidates, fewer than {keep}: {b:?} -> {a:?}",
            who(),
            ai.len(),
            bi.len()
        );
        let by_rank = matches!(
            spec.kind(),
            Kind::TopK | Kind::TopP | Kind::MinP | Kind::TopA | Kind::Tail | Kind::Miro1 | Kind::Miro2
        );
        if by_rank && ai.len() < bi.len() {
            let worst = a.items.iter().map(|x| x.1).fold(f32::INFINITY, f32::min);
            let best_lost = b
                .items
                .iter()
                .filter(|x| ai.binary_search(&x.0).is_err())
                .map(|x| x.1)
                .fold(f32::NEG_INFINITY, f32::max);
            ensure!(
                best_lost <= worst,
                "dropped-a-likelier-one",
                "{}: drops a candidate at {best_lost} and keeps one at {worst}: {b:?} -> {a:?}",
                who()
            );
        }
    }
    if let Some(t) = s.token {
        if s.ok == Some(true) && !a.items.is_empty() {
            ensure!(
                a.get(t).is_some(),
                "picked-not-a-candidate",
                "{}: picked {t}, not a survivor in {a:?}",
                who()
            );
        }
    }
    Ok(())
}
