//! C05: the cached "sorted" and "normalised" markers are always truthful.

use llm_samplers::prelude::*;

use super::c04::maybe_ban;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 3, 4]),
        panics: ctx.chance(1, 3),
        max_stages: 5,
        empty_lists: true,
        logits: LogitOpts { ties: ctx.chance(1, 2), ..Default::default() },
        ..Default::default()
    };
    let mut p = gen_session(ctx, &sh);
    maybe_ban(ctx, &mut p);
    // Negative temperatures are legal input: they reverse the ranking.
    if ctx.chance(1, 5) && p.calls.iter().all(|c| c.items.iter().all(|x| x.1.is_finite())) {
        let at = ctx.draw(p.specs.len() as u32) as usize;
        p.specs.insert(at, Spec::Temp(ctx.pick(&[-1.0f32, -0.5, -2.0])));
        ctx.stat("probe:negative_temperature");
    }
    describe(ctx, "session", &p);
    let recs = run_sessions(ctx, std::slice::from_ref(&p))?.pop().unwrap();
    account(ctx, "session", &recs);
    for (i, c) in recs.iter().enumerate() {
        for s in &c.stages {
            let who = format!(
                "call {i}, after stage {} ({:?}{})",
                s.stage,
                p.specs[s.stage],
                if s.ok == Some(true) { "" } else { ", failed" }
            );
            truthful(ctx, &s.after, &who)?;
        }
        truthful(ctx, &c.logits_out, &format!("call {i}, at the caller"))?;
    }
    if recs.iter().any(|c| !c.log.fired.is_empty()) {
        ctx.stat("probe:markers_checked_after_failure");
        // A caller that keeps using the list a failed call left behind gets
        // what it would get from an unmarked copy of it.
        for c in recs.iter().filter(|c| !c.out.is_ok() && !c.logits_out.items.is_empty()) {
            reuse(ctx, &c.logits_out)?;
        }
    }
    reset_twin(ctx, &p)
}

pub fn truthful(ctx: &mut Ctx, s: &Snap, who: &str) -> Check {
    if s.sorted || s.softmax {
        ctx.stat("markers_set");
        if s.items.len() > 1 {
            ctx.nontrivial = true;
        }
        let bad = s.items.windows(2).find(|w| !(w[0].1 >= w[1].1));
        ensure!(
            bad.is_none(),
            if s.sorted { "sorted-lie" } else { "softmax-order-lie" },
            "{who}: the list claims to be {} but {:?} comes before {:?} in {s:?}",
            if s.sorted { "sorted" } else { "normalised (hence ranked)" },
            bad.unwrap()[0],
            bad.unwrap()[1]
        );
    }
    if s.softmax {
        for ((t, l, p), want) in s.items.iter().zip(s.softmax64()) {
            ensure!(
                (*p as f64 - want).abs() < 1e-4,
                "softmax-lie",
                "{who}: the list claims normalised probabilities, but candidate {t} (logit {l}) has {p}, not {want:.6}, in {s:?}"
            );
        }
    }
    Ok(())
}

/// What a list left by a failed call gives when it is used as it stands, and
/// when its markers are cleared first.
fn reuse(ctx: &mut Ctx, left: &Snap) -> Check {
    let k = ctx.pick(&[Kind::TopK, Kind::TopP, Kind::MinP, Kind::Rand]);
    let spec = gen_spec(ctx, k, &left.ids());
    let mut l = make_logits(&left.items.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>());
    for (l, x) in l.iter_mut().zip(&left.items) {
        l.prob = x.2;
    }
    let mut fresh = l.clone();
    l.set_sorted(left.sorted);
    l.set_softmax(left.softmax);
    fresh.set_sorted(false);
    fresh.set_softmax(false);
    let mut ra = crate::res::SimRes::seeded(11, vec![]);
    let mut rb = crate::res::SimRes::seeded(11, vec![]);
    let a = call(|| spec.build().sample_token(&mut ra, &mut l));
    let b = call(|| spec.build().sample_token(&mut rb, &mut fresh));
    let (sa, sb) = (Snap::of(&l), Snap::of(&fresh));
    ctx.stat("probe:list_reused_after_failure");
    ensure!(
        values(&sa) == values(&sb) && logit_of(&sa, &a) == logit_of(&sb, &b),
        "stale-markers-after-failure",
        "the list a failed call left, {left:?}, gives {spec:?} => {a:?} {sa:?} as it stands but {b:?} {sb:?} with cleared markers"
    );
    Ok(())
}

/// The two zeros are equal logits, hence a tie.
fn zero(x: f32) -> f32 {
    x + 0.0
}
fn values(s: &Snap) -> Vec<u32> {
    let mut v: Vec<u32> = s.items.iter().map(|x| zero(x.1).to_bits()).collect();
    v.sort_unstable();
    v
}
fn logit_of(s: &Snap, o: &Out) -> Option<Option<u32>> {
    match o {
        Out::Tok(t) => Some(t.and_then(|t| s.get(t)).map(|l| zero(l).to_bits())),
        _ => None,
    }
}

/// Clears the markers, so the next stage recomputes everything.
#[derive(Debug)]
struct Reset;
impl Sampler for Reset {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        l.set_sorted(false);
        l.set_softmax(false);
        Ok(l)
    }
}

/// The same stages with the caches cleared before each give the same result.
fn reset_twin(ctx: &mut Ctx, p: &SessionPlan) -> Check {
    // Exact ties may be broken either way; leave them out.
    let tied = p.calls.iter().any(|c| {
        let mut v: Vec<f32> = c.items.iter().map(|x| x.1).filter(|x| x.is_finite()).collect();
        v.sort_by(f32::total_cmp);
        v.windows(2).any(|w| w[1] - w[0] < 1e-3)
    });
    if tied {
        return Ok(());
    }
    ctx.stat("probe:cache_twin_compared");
    let mut cached = plain_chain(&p.specs);
    let mut reset = SamplerChain::new();
    for s in &p.specs {
        reset.push_sampler(Reset);
        reset.push_sampler(s.build());
    }
    let (mut ra, mut rb) = (p.make_res(), p.make_res());
    for (i, c) in p.calls.iter().enumerate() {
        let (mut la, mut lb) = (input(c), input(c));
        ra.begin_call(vec![]);
        rb.begin_call(vec![]);
        let a = call(|| cached.sample_token(&mut ra, &mut la));
        let b = call(|| reset.sample_token(&mut rb, &mut lb));
        let (sa, sb) = (Snap::of(&la), Snap::of(&lb));
        ensure!(
            values(&sa) == values(&sb) && logit_of(&sa, &a) == logit_of(&sb, &b),
            "cache-changes-result",
            "call {i} gives {a:?} {sa:?} with cached ordering/probabilities and {b:?} {sb:?} when they are recomputed before every stage"
        );
        let (ta, tb) = (a.token(), b.token());
        if ta != tb {
            return Ok(()); // a tie created by a penalty: histories differ from here on
        }
        if let Some(t) = ta {
            ra.push_token(t);
            rb.push_token(t);
        }
    }
    Ok(())
}
