//! C09: Mirostat's feedback loop.

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    if ctx.chance(1, 12) {
        return converges(ctx);
    }
    let sh = Shape {
        max_stages: 3,
        max_calls: 6,
        shapers: vec![Kind::Temp, Kind::Bias, Kind::Rep, Kind::FreqPres, Kind::TopK],
        pickers: vec![Kind::Miro2, Kind::Miro1],
        fault8: ctx.pick(&[0u32, 2, 4]),
        panics: ctx.chance(1, 3),
        empty_lists: true,
        missing: false,
        degenerate_rng: true,
        ..Default::default()
    };
    let n = ctx.weighted(&[5, 2]) + 1;
    let plans: Vec<SessionPlan> = (0..n)
        .map(|_| {
            let mut p = gen_session(ctx, &sh);
            // Learning states all along the scale.
            if ctx.chance(1, 2) {
                let m = ctx.pick(&[4.0f32, 0.25, 1.0, 2.0, 3.0, 8.0, -1.0, 30.0]);
                if let Some(Spec::Miro1 { mu, .. } | Spec::Miro2 { mu, .. }) = p.specs.last_mut() {
                    *mu = Some(m);
                }
            }
            // All equal, each exactly as surprising as the learning state allows.
            if ctx.chance(1, 10) {
                let bits = ctx.range(1, 5);
                let k = ctx.draw(p.calls.len() as u32) as usize;
                p.calls[k].items = (0..1u32 << bits).map(|t| (t, 1.5)).collect();
                if k == 0 {
                    if let Some(Spec::Miro1 { mu, .. } | Spec::Miro2 { mu, .. }) = p.specs.last_mut() {
                        *mu = Some(bits as f32);
                    }
                }
            }
            // Nothing possible at all.
            if ctx.chance(1, 10) {
                let k = ctx.draw(p.calls.len() as u32) as usize;
                p.calls[k].items.iter_mut().for_each(|x| x.1 = f32::NEG_INFINITY);
                p.calls[k].presoftmax = false;
            }
            p
        })
        .collect();
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), p);
    }
    let recs = run_sessions(ctx, &plans)?;
    for (i, r) in recs.iter().enumerate() {
        account(ctx, &format!("session {i}"), r);
    }
    for (i, (p, r)) in plans.iter().zip(&recs).enumerate() {
        let mut mu = match p.specs.last().unwrap() {
            Spec::Miro1 { tau, mu, .. } | Spec::Miro2 { tau, mu, .. } => mu.unwrap_or(tau * 2.0),
            _ => unreachable!(),
        };
        for (k, c) in r.iter().enumerate() {
            let Some(s) = c.stages.iter().find(|s| s.stage + 1 == p.specs.len()) else { continue };
            let who = format!("session {i} call {k} {:?}", p.specs.last().unwrap());
            let (b, a) = (s.opt(false, "mu").unwrap_or(f32::NAN), s.opt(true, "mu").unwrap_or(f32::NAN));
            ensure!(
                b.to_bits() == mu.to_bits(),
                "state-moved-between-calls",
                "{who}: the learning state was {mu} after the last call and is {b} before this one"
            );
            step(ctx, p.specs.last().unwrap(), s, b, a, &who)?;
            mu = a;
        }
    }
    Ok(())
}

fn law(spec: &Spec, s: &StageRec, mu: f32) -> Option<(f64, f64)> {
    let (tau, eta) = match spec {
        Spec::Miro1 { tau, eta, .. } | Spec::Miro2 { tau, eta, .. } => (*tau, *eta),
        _ => unreachable!(),
    };
    let t = s.token?;
    let k = s.after.at(t)?;
    let surprise = -s.after.softmax64()[k].log2();
    Some((mu as f64 - eta as f64 * (surprise - tau as f64), surprise))
}

fn step(ctx: &mut Ctx, spec: &Spec, s: &StageRec, b: f32, a: f32, who: &str) -> Check {
    if s.ok == Some(true) && !s.before.items.is_empty() {
        ctx.nontrivial = true;
        ctx.stat("probe:feedback_step");
        let Some((want, surprise)) = law(spec, s, b) else {
            return viol("no-pick", format!("{who}: no token picked from {:?}", s.before));
        };
        ensure!(
            (a as f64 - want).abs() <= 2e-3 * (1.0 + want.abs() * 0.01),
            "feedback-wrong",
            "{who}: picked {:?} with surprise {surprise:.4}; the learning state should go from {b} to {want:.4} but went to {a}",
            s.token
        );
        if let Spec::Miro2 { .. } = spec {
            // The candidates drawn from: exactly those no more surprising
            // than the learning state, and always the likeliest.
            let p = s.before.softmax64();
            let best = p.iter().cloned().fold(0.0, f64::max);
            // Powers of two are computed without rounding.
            let exact = s.before.items.len().is_power_of_two() && s.before.items.iter().all(|x| x.1 == s.before.items[0].1);
            for ((t, _, _), p) in s.before.items.iter().zip(&p) {
                let sur = -p.log2();
                let kept = s.after.get(*t).is_some();
                let slack = if exact { 0.0 } else { 1e-3 * (1.0 + sur.abs() * 0.01) };
                if *p == 0.0 || sur > 120.0 {
                    // Below f32 resolution.
                    continue;
                }
                if kept && sur > b as f64 + slack && (*p < best || s.after.items.len() > 1) {
                    return viol("kept-too-surprising", format!("{who}: keeps candidate {t} with surprise {sur:.4} although the limit is {b}: {:?} -> {:?}", s.before, s.after));
                }
                if !kept && (sur < b as f64 - slack || exact && sur == b as f64) {
                    return viol("dropped-unsurprising", format!("{who}: drops candidate {t} with surprise {sur:.4} although the limit is {b}: {:?} -> {:?}", s.before, s.after));
                }
            }
            if s.after.items.len() < s.before.items.len() {
                ctx.stat("probe:truncated_by_surprise");
            } else {
                ctx.stat("probe:nothing_to_truncate");
            }
        }
    } else {
        ctx.stat(if s.before.items.is_empty() { "probe:empty_list" } else { "probe:no_step_on_failure" });
        ensure!(
            a.to_bits() == b.to_bits(),
            "feedback-without-pick",
            "{who}: no token was picked, yet the learning state went from {b} to {a}"
        );
    }
    Ok(())
}

fn estimate(s: &Boxed) -> f32 {
    match s.get_option("mu") {
        Ok(SamplerOptionValue::Float(m)) => m as f32,
        _ => f32::NAN,
    }
}

/// Over a long generation the mean surprise approaches the target.
fn converges(ctx: &mut Ctx) -> Check {
    let n = ctx.pick(&[64usize, 128, 32]);
    let shape = ctx.draw(3);
    let spread = ctx.pick(&[1.0f32, 0.5, 1.5]);
    // Forbidden or hopeless tokens among them.
    let dead = ctx.pick(&[0usize, 2, n / 4]);
    let dead_logit = ctx.pick(&[f32::NEG_INFINITY, -300.0]);
    let mut g = Prng::new(ctx.seed());
    let lists: Vec<Items> = (0..8)
        .map(|_| {
            let mut ids: Vec<TID> = (0..n as u32).collect();
            for i in (1..n).rev() {
                ids.swap(i, g.below(i as u32 + 1) as usize);
            }
            (0..n)
                .map(|i| {
                    let x = match shape {
                        // Zipf-like, noisy, and flat.
                        0 => -spread * ((i + 1) as f32).ln(),
                        1 => spread * (g.below(1000) as f32 / 250.0 - 2.0),
                        _ => spread * 0.1 * (g.below(100) as f32 / 100.0),
                    };
                    (ids[i], if i >= n - dead { dead_logit } else { x })
                })
                .collect()
        })
        .collect();
    let ent = lists
        .iter()
        .map(|i| {
            let s = Snap::of(&make_logits(i));
            s.softmax64().iter().filter(|p| **p > 0.0).map(|p| -p * p.log2()).sum::<f64>()
        })
        .fold(f64::INFINITY, f64::min);
    let tau = ctx.pick(&[1.0f32, 0.5, 1.5, 2.0, 2.5, 3.0]);
    let eta = ctx.pick(&[0.1f32, 0.25, 0.5]);
    if ent < tau as f64 + 0.5 {
        ctx.stat("target_out_of_reach_skipped");
        return Ok(());
    }
    let spec = if ctx.chance(1, 2) {
        Spec::Miro1 { n_vocab: n, m: ctx.pick(&[100usize, 20]), tau, eta, mu: None }
    } else {
        Spec::Miro2 { tau, eta, mu: None }
    };
    let mut s = spec.build();
    let mut res = SimRes::seeded(ctx.seed(), vec![]);
    res.yields = false;
    let total = 1500;
    let faulty = ctx.chance(1, 2);
    let mut fp = Prng::new(ctx.run_seed);
    let (mut sum, mut cnt) = (0.0f64, 0u32);
    let mut last = None;
    for i in 0..total {
        let it = &lists[g.below(lists.len() as u32) as usize];
        let mut l = make_logits(it);
        let plan = if faulty && fp.below(12) == 0 { vec![(0, ERR_FAULTS[fp.below(5) as usize], i)] } else { vec![] };
        res.begin_call(plan);
        let before = estimate(&s);
        ensure!(
            Some(before.to_bits()) == last.or(Some(before.to_bits())),
            "state-moved-between-calls",
            "{spec:?} call {i}: the learning state is {before} before the call but was {:?} after the last",
            last.map(f32::from_bits)
        );
        let o = call(|| s.sample_token(&mut res, &mut l));
        let fired = !res.end_call().fired.is_empty();
        let after = estimate(&s);
        last = Some(after.to_bits());
        match o {
            Out::Tok(Some(t)) => {
                let snap = Snap::of(&l);
                let k = snap.at(t).unwrap_or(0);
                let surprise = -snap.softmax64()[k].log2();
                sum += surprise;
                cnt += 1;
                let want = before as f64 - eta as f64 * (surprise - tau as f64);
                ensure!(
                    (after as f64 - want).abs() <= 2e-3 * (1.0 + want.abs() * 0.01),
                    "feedback-wrong",
                    "{spec:?} call {i}: picked {t} with surprise {surprise:.4}; the learning state should go from {before} to {want:.4} but went to {after}"
                );
            }
            Out::Err(_) if before.to_bits() != after.to_bits() => {
                return viol("feedback-without-pick", format!("{spec:?} call {i}: no token was picked, yet the learning state went from {before} to {after}"));
            }
            Out::Err(_) if fired => ctx.stat("fault:rng:during_long_run"),
            o => return viol("no-pick", format!("{spec:?} call {i}: {o:?}")),
        }
    }
    let mean = sum / cnt as f64;
    ctx.sim_steps += total as u64;
    ctx.nontrivial = true;
    ctx.stat(if matches!(spec, Spec::Miro1 { .. }) { "probe:long_run_v1" } else { "probe:long_run_v2" });
    ctx.ev(&format!("{spec:?}, {n} candidates, least entropy {ent:.2}: mean surprise {mean:.3} over {cnt} tokens"));
    if let Spec::Miro1 { n_vocab, m, .. } = spec {
        // Candidates without any probability among those the fit looks at.
        if mean == 0.0 && dead > 0 && n_vocab - dead < m {
            return viol(
                "v1-greedy-with-dead-candidates",
                format!("{spec:?} over {n} candidates, {dead} of them with logit {dead_logit}, entropy of at least {ent:.2} bits: all {cnt} tokens were the likeliest one"),
            );
        }
    }
    // The learning state telescopes: sum(surprise - target) is what it moved
    // by over eta, and it stays within about 2*tau + log2(n) + 5 of zero.
    let bound = (2.0 * tau as f64 + (n as f64).log2() + 8.0) / (eta as f64 * cnt as f64) + 0.05;
    ensure!(
        (mean - tau as f64).abs() <= bound,
        "misses-target",
        "{spec:?} over {n} candidates with entropy of at least {ent:.2} bits: the mean surprise of {cnt} tokens is {mean:.3}, not {tau} (within {bound:.3})"
    );
    Ok(())
}
