//! C19: a clone of a sampler is an independent copy: it carries on from the
//! state it was cloned in, and neither it nor the original notices what
//! becomes of the other.

use std::sync::Mutex;

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::*;
use crate::res::*;
use crate::session::*;

#[derive(Clone, Debug)]
enum Step {
    Call(CallPlan),
    /// Reconfigure a stage by text (accepted or refused).
    Conf(usize, String),
    /// Put an entry on a stage's bias list (if it has one).
    Bias(usize, TID, f32),
}

type Stages = Vec<Box<dyn Dup>>;

fn build(specs: &[Spec]) -> Stages {
    specs.iter().map(|s| s.build_dup()).collect()
}

fn dup(s: &Stages) -> Stages {
    s.iter().map(|s| s.dup()).collect()
}

fn bits(s: &Snap) -> String {
    let mut o = String::new();
    for (t, l, p) in &s.items {
        o.push_str(&format!("{t}:{:08x}", l.to_bits()));
        if s.softmax {
            o.push_str(&format!("/{:08x}", p.to_bits()));
        }
        o.push(' ');
    }
    o
}

fn state(s: &Stages) -> String {
    s.iter()
        .map(|s| {
            let o: Vec<String> = HasSamplerMetadata::<usize, f32>::sampler_options(&**s)
                .iter()
                .map(|(md, v)| format!("{}={v:?}", md.key))
                .collect();
            format!("[{} token {:?}]", o.join(" "), s.sampled_token_id())
        })
        .collect()
}

/// One step of a session; what it did, in text, bit for bit.
fn step(stages: &mut Stages, res: &mut SimRes, st: &Step) -> String {
    let what = match st {
        Step::Conf(i, text) => match guard(|| stages[*i].configure(text)) {
            Ok(Ok(())) => format!("configured {i}"),
            Ok(Err(_)) => format!("configuration of {i} refused"),
            Err(p) => format!("configuring {i} panicked: {}", panic_text(p.as_ref())),
        },
        Step::Bias(i, t, v) => match stages[*i].bias() {
            Some(b) => {
                b.retain(|x| x.0 != *t);
                b.push((*t, *v));
                format!("biased {i}: {b:?}")
            }
            None => "no bias list".to_string(),
        },
        Step::Call(c) => {
            let mut logits = input(c);
            let twin = logits.clone();
            let whole = Snap::of(&logits);
            res.begin_call(c.faults.clone());
            let out = call(|| {
                let mut t = None;
                for (i, s) in stages.iter_mut().enumerate() {
                    res.stage.store(i as u32, std::sync::atomic::Ordering::SeqCst);
                    t = s.sample_token(res, &mut logits)?;
                }
                Ok(t)
            });
            let left = Snap::of(&logits);
            let _ = res.end_call();
            if c.feed {
                if let Some(t) = out.token() {
                    res.push_token(t);
                }
            }
            // The list's own clones are copies too.
            let mut note = String::new();
            if Snap::of(&twin) != whole {
                note = format!("; THE LIST'S CLONE CHANGED: {whole:?} became {:?}", Snap::of(&twin));
            }
            let mut reused = twin;
            reused.clone_from(&logits);
            if bits(&Snap::of(&reused)) != bits(&left) || Snap::of(&reused) != left {
                note = format!("; THE LIST'S CLONE DIFFERS: {left:?} cloned over another gives {:?}", Snap::of(&reused));
            }
            let mut fresh = make_logits(&[(9, 1.0), (8, 0.5)]);
            let _ = fresh.ensure_softmax();
            fresh.clone_from(&logits);
            if bits(&Snap::of(&fresh)) != bits(&left) || Snap::of(&fresh) != left {
                note = format!("; THE LIST'S CLONE DIFFERS: {left:?} cloned over another gives {:?}", Snap::of(&fresh));
            }
            let copy = logits.clone();
            if Snap::of(&copy) != left || bits(&Snap::of(&copy)) != bits(&left) {
                note = format!("; THE LIST'S CLONE DIFFERS: {left:?} cloned to {:?}", Snap::of(&copy));
            }
            format!("{out:?} leaving {left:?} = {}{note}", bits(&left))
        }
    };
    format!("{what}; state {}", state(stages))
}

fn steps(ctx: &mut Ctx, plan: &SessionPlan, lo: u32, hi: u32, fid: &mut u32, sh: &Shape) -> Vec<Step> {
    let n = ctx.range(lo, hi);
    let mut v = vec![];
    let mut models: Vec<Model> = plan.specs.iter().map(Model::of).collect();
    for _ in 0..n {
        if ctx.chance(1, 4) {
            let i = ctx.draw(plan.specs.len() as u32) as usize;
            if plan.specs[i].kind() == Kind::Bias {
                v.push(Step::Bias(i, ctx.draw(6), ctx.pick(&[1.0f32, -4.0, f32::NEG_INFINITY])));
                continue;
            }
            let legal = legal_conf(ctx, &plan.specs[i]);
            models[i].configure(&legal);
            v.push(Step::Conf(i, legal));
            continue;
        }
        let mut faults = vec![];
        if sh.fault8 > 0 && ctx.chance(sh.fault8, 8) {
            faults.push(gen_fault(ctx, *fid, sh.panics));
            *fid += 1;
        }
        v.push(Step::Call(CallPlan {
            items: if ctx.chance(1, 2) { plan.calls[0].items.clone() } else { gen_items(ctx, LogitOpts::default()) },
            faults,
            feed: ctx.chance(2, 3),
            two_step: false,
            presoftmax: ctx.chance(1, 6),
            presorted: ctx.chance(1, 6),
        }));
    }
    v
}

/// Option text that leaves the sampler with legal options: those of another
/// sampler of its kind; now and then followed by a refused one.
fn legal_conf(ctx: &mut Ctx, like: &Spec) -> String {
    let to = Model::of(&gen_spec(ctx, like.kind(), &[0, 1, 2]));
    if to.keys.is_empty() {
        return ctx.pick(&["", "x=1"]).to_string();
    }
    let mut parts = vec![];
    for _ in 0..ctx.range(1, 2) {
        let (k, v) = &to.keys[ctx.draw(to.keys.len() as u32) as usize];
        parts.push(format!("{k}={}", v.show()));
    }
    if ctx.chance(1, 6) {
        parts.push("nope=1".to_string());
    }
    parts.join(":")
}

/// Samplers of the same kinds with a life of their own.
fn others(plan: &SessionPlan, calls: usize) -> Stages {
    let mut s: Stages = plan.specs.iter().map(|x| x.cousin().build_dup()).collect();
    let mut res = SimRes::seeded(99, vec![1, 2, 1, 2, 3]);
    res.yields = false;
    for _ in 0..calls {
        for x in s.iter_mut() {
            let mut l = make_logits(&[(0, 0.5), (1, 1.5), (2, -1.0)]);
            let _ = call(|| x.sample_token(&mut res, &mut l));
        }
    }
    s
}

pub fn run(ctx: &mut Ctx) -> Check {
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 1, 3]),
        panics: ctx.chance(1, 3),
        max_stages: 3,
        max_calls: 1,
        missing: false,
        degenerate_rng: true,
        ..Default::default()
    };
    let mut plan = gen_session(ctx, &sh);
    if ctx.chance(1, 2) {
        // Adaptive state is what clones most easily get wrong.
        let last = plan.specs.len() - 1;
        let k = ctx.pick(&[Kind::Miro2, Kind::Miro1]);
        plan.specs[last] = gen_spec(ctx, k, &plan.ids());
    }
    let mut fid = 1;
    let prefix = steps(ctx, &plan, 0, 4, &mut fid, &sh);
    let ncopies = ctx.range(1, 3) as usize;
    // Suffix 0 is the original's.  Copy i is cloned from copy `from[i]`.
    let from: Vec<usize> = (0..=ncopies).map(|i| if i == 0 { 0 } else { ctx.draw(i as u32) as usize }).collect();
    // A copy may be written over another sampler of its kind, itself used.
    let over: Vec<bool> = (0..=ncopies).map(|i| i > 0 && ctx.chance(1, 3)).collect();
    let over_calls = ctx.range(0, 2) as usize;
    let same = ctx.chance(1, 4);
    let mut tails: Vec<Vec<Step>> = vec![];
    for i in 0..=ncopies {
        let t = if same && i > 0 { tails[0].clone() } else { steps(ctx, &plan, 1, 4, &mut fid, &sh) };
        tails.push(t);
    }
    // The original may be gone before the clones are used.
    let drop_original = ctx.chance(1, 4);
    let threads = ctx.chance(1, 2);
    describe(ctx, "session", &plan);
    ctx.note(|| format!("before cloning: {prefix:?}"));
    for (i, t) in tails.iter().enumerate() {
        ctx.note(|| format!("{}: {t:?}", if i == 0 { "the original afterwards".to_string() } else { format!("copy {i} (of {}) afterwards", from[i]) }));
    }

    // What each must do: a sampler of its own, never cloned.
    let mut want: Vec<Vec<String>> = vec![];
    for (i, t) in tails.iter().enumerate() {
        let mut s = build(&plan.specs);
        let mut res = plan.make_res();
        res.yields = false;
        let w: Vec<String> = prefix.iter().chain(t).map(|x| step(&mut s, &mut res, x)).collect();
        if let Some(l) = w.iter().find(|l| l.contains("THE LIST'S CLONE")) {
            return viol("list-clone-wrong", l.clone());
        }
        if i == 0 {
            for l in &w[..prefix.len()] {
                ctx.ev(&format!("before cloning: {l}"));
            }
        }
        want.push(w[prefix.len()..].to_vec());
    }

    // What they do.
    let mut s = build(&plan.specs);
    let mut res = plan.make_res();
    res.yields = false;
    for x in &prefix {
        let _ = step(&mut s, &mut res, x);
    }
    let before = state(&s);
    let mut sets: Vec<Option<(Stages, SimRes)>> = vec![];
    for i in 0..=ncopies {
        let st = if i == 0 {
            std::mem::take(&mut s)
        } else {
            let of = &sets[from[i]].as_ref().expect("made already").0;
            if over[i] {
                let mut st = others(&plan, over_calls);
                for (a, b) in st.iter_mut().zip(of) {
                    ensure!(a.become_copy(&**b), "clone-differs", "copy {i}: not of the same type");
                }
                ctx.stat("probe:cloned_over_another");
                st
            } else {
                dup(of)
            }
        };
        ensure!(state(&st) == before, "clone-differs", "copy {i} of {before} reads {}", state(&st));
        // Each goes on with its own copy of the resources as they stand.
        let rng = res.rng.lock().unwrap().rng.clone();
        let rng = (!matches!(plan.rng, RngKind::None)).then_some(rng);
        sets.push(Some((st, SimRes::new(rng, res.mirror.clone().map(Hist::Own)))));
    }
    let first = if drop_original {
        sets[0] = None;
        ctx.stat("probe:original_dropped");
        1
    } else {
        0
    };
    let mut got: Vec<Vec<String>> = vec![vec![]; ncopies + 1];
    if threads {
        ctx.stat("probe:clones_on_threads");
        let outs: Vec<Mutex<Vec<String>>> = (0..=ncopies).map(|_| Mutex::default()).collect();
        let mut tasks: Vec<Task> = vec![];
        for (i, slot) in sets.iter_mut().enumerate().skip(first) {
            let (mut st, mut rs) = slot.take().unwrap();
            let (t, o) = (&tails[i], &outs[i]);
            rs.yields = true;
            tasks.push(Box::new(move || {
                for x in t {
                    seam_yield("between steps");
                    let r = step(&mut st, &mut rs, x);
                    o.lock().unwrap().push(r);
                }
            }));
        }
        run_tasks(ctx, tasks, 400_000)?;
        for (g, o) in got.iter_mut().zip(outs) {
            *g = o.into_inner().unwrap();
        }
    } else {
        // In turns, in a seeded order.
        let mut left: Vec<usize> = (first..=ncopies).flat_map(|i| tails[i].iter().map(move |_| i)).collect();
        while !left.is_empty() {
            let i = left.swap_remove(ctx.draw(left.len() as u32) as usize);
            let x = &tails[i][got[i].len()];
            let (st, rs) = sets[i].as_mut().unwrap();
            rs.yields = false;
            got[i].push(step(st, rs, x));
        }
    }
    for i in first..=ncopies {
        for (k, (g, w)) in got[i].iter().zip(&want[i]).enumerate() {
            ensure!(
                g == w,
                "clone-not-independent",
                "{} step {k} ({:?}):\n    a sampler of its own gives {w}\n    with clones about it gives  {g}",
                if i == 0 { "the original,".to_string() } else { format!("copy {i} of {},", from[i]) },
                tails[i][k]
            );
            ctx.ev(&format!("{i} step {k}: {g}"));
            ctx.stat("steps_compared");
            if !matches!(&tails[i][k], Step::Call(..)) {
                ctx.stat("reconfigurations");
            } else {
                ctx.stat("calls");
            }
        }
        ensure!(got[i].len() == want[i].len(), "clone-not-independent", "copy {i} made {} steps of {}", got[i].len(), want[i].len());
    }
    if prefix.iter().any(|s| matches!(s, Step::Call(c) if !c.faults.is_empty())) {
        ctx.stat("probe:cloned_after_a_failing_call");
    }
    ctx.nontrivial = !prefix.is_empty();
    Ok(())
}
