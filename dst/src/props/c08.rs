//! C08: random picks follow the candidates' probabilities, driven by nothing
//! but the supplied generator.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;

#[derive(Default, Clone)]
struct Tally {
    /// candidate -> (count, expected, variance)
    by: BTreeMap<TID, (f64, f64, f64)>,
    /// Same pick as the call before.
    rep: (f64, f64, f64),
    n: u64,
    /// Picks made although the provider failed, zero-probability picks, ...
    bad: Option<(&'static str, String)>,
    faults: BTreeMap<&'static str, u64>,
    last: Option<TID>,
    draws_min: u64,
    sample: String,
}

impl Tally {
    fn note(&mut self, left: &Snap, t: TID, count_rep: bool) {
        let ps = left.softmax64();
        self.n += 1;
        for ((id, _, _), p) in left.items.iter().zip(&ps) {
            let e = self.by.entry(*id).or_default();
            e.1 += p;
            e.2 += p * (1.0 - p);
            if *id == t {
                e.0 += 1.0;
                if *p < 1e-40 && self.bad.is_none() {
                    self.bad = Some(("zero-probability-pick", format!("picked {t}, whose probability is {p:e}, from {left:?}")));
                }
            }
        }
        // Given everything before this call, it repeats the previous pick
        // with exactly that candidate's probability.
        if let (Some(l), true) = (self.last, count_rep) {
            if let Some(k) = left.items.iter().position(|x| x.0 == l) {
                let p = ps[k];
                self.rep.1 += p;
                self.rep.2 += p * (1.0 - p);
                if l == t {
                    self.rep.0 += 1.0;
                }
            }
        }
        self.last = Some(t);
    }
    fn merge(&mut self, o: Tally) {
        for (k, v) in o.by {
            let e = self.by.entry(k).or_default();
            e.0 += v.0;
            e.1 += v.1;
            e.2 += v.2;
        }
        self.rep.0 += o.rep.0;
        self.rep.1 += o.rep.1;
        self.rep.2 += o.rep.2;
        self.n += o.n;
        if self.bad.is_none() {
            self.bad = o.bad;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
    }
}

fn off(x: (f64, f64, f64)) -> bool {
    (x.0 - x.1).abs() > 7.0 * x.2.max(0.0).sqrt() + 6.0
}

pub fn run(ctx: &mut Ctx) -> Check {
    match ctx.weighted(&[150, 90, 90, 3]) {
        0 => statistics(ctx),
        1 => degenerate(ctx),
        3 => vocabulary(ctx),
        _ => who_draws(ctx),
    }
}

fn statistics(ctx: &mut Ctx) -> Check {
    let items = gen_items(ctx, LogitOpts { lo: 2, hi: 10, wide: false, ..Default::default() });
    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
    let mut specs = vec![];
    for _ in 0..ctx.weighted(&[5, 3, 2]) {
        let k = ctx.pick(&SHAPERS);
        specs.push(gen_spec(ctx, k, &ids));
    }
    let k = ctx.pick(&RANDOM_PICKERS);
    specs.push(gen_spec(ctx, k, &ids));
    let hist = gen_hist(ctx, &ids, 8);
    let ntasks = ctx.weighted(&[5, 2, 1]) + 1;
    let shared_rng = ntasks > 1 && ctx.chance(1, 2);
    let shared_sampler = ntasks > 1 && ctx.chance(1, 3);
    let faulty = ctx.chance(1, 2);
    let seeds: Vec<u64> = (0..ntasks).map(|i| mix(ctx.seed(), i as u64)).collect();
    let total = if ctx.thorough { 3000 } else { 1500 };
    let per = total / ntasks;
    ctx.note(|| {
        format!(
            "{per} picks on each of {ntasks} threads: stages {specs:?}, logits {items:?}, history {hist:?}{}{}{}",
            if shared_rng { ", one shared generator" } else { "" },
            if shared_sampler { ", one shared picker" } else { "" },
            if faulty { ", a failing resource in about one call in ten" } else { "" }
        )
    });
    let gen = Arc::new(SimMutex::new(Prng::new(seeds[0])));
    let last_shared = shared_sampler.then(|| specs.last().unwrap().build_shared());
    let out: Mutex<Vec<Tally>> = Mutex::new(vec![]);
    let body = |i: usize| {
        let rng = if shared_rng { SimRng::Shared(gen.clone()) } else { SimRng::seeded(seeds[i]) };
        let mut res = SimRes::new(Some(rng), Some(Hist::Own(hist.clone())));
        res.yields = ntasks > 1;
        let mut c = match &last_shared {
            None => plain_chain(&specs),
            Some(s) => {
                let mut c = plain_chain(&specs[..specs.len() - 1]);
                c.push_sampler(s.clone());
                c
            }
        };
        let mut t = Tally::default();
        let mut fp = Prng::new(seeds[i] ^ 0xfa);
        for n in 0..per {
            let plan = if faulty && fp.below(10) == 0 {
                vec![(fp.below(3), ERR_FAULTS[fp.below(5) as usize], n as u32)]
            } else {
                vec![]
            };
            let mut l = make_logits(&items);
            res.begin_call(plan);
            // What the generator was consulted for is conditioned on the
            // survivors, so the exact chain does not matter here.
            let o = call(|| c.sample_token(&mut res, &mut l));
            let log = res.end_call();
            for f in &log.fired {
                *t.faults.entry(f.0.name()).or_default() += 1;
            }
            match o {
                Out::Tok(Some(tok)) if log.fired.is_empty() => t.note(&Snap::of(&l), tok, true),
                Out::Err(_) if !log.fired.is_empty() => (),
                o => {
                    if t.bad.is_none() {
                        let class = if log.fired.is_empty() { "no-pick" } else { "pick-without-generator" };
                        t.bad = Some((class, format!("call {n}: {o:?} (faults fired: {:?})", log.fired)));
                    }
                }
            }
        }
        out.lock().unwrap().push(t);
    };
    if ntasks == 1 {
        body(0);
    } else {
        let b = &body;
        let tasks: Vec<Task> = (0..ntasks).map(|i| Box::new(move || b(i)) as Task).collect();
        run_tasks(ctx, tasks, 2_000_000)?;
        ctx.stat(if shared_rng { "probe:shared_generator" } else { "probe:parallel_sessions" });
    }
    let mut t = Tally::default();
    let parts = out.into_inner().unwrap();
    for p in parts.iter().cloned() {
        // Each thread's own picks follow the odds too.
        verdict(&p, "one thread's picks")?;
        t.merge(p);
    }
    for (k, v) in &t.faults {
        ctx.stat_n(&format!("fault:resource:{k}"), *v);
    }
    ctx.stat_n("picks", t.n);
    ctx.sim_steps += t.n;
    if t.by.values().filter(|x| x.2 > 1.0).count() > 1 {
        ctx.nontrivial = true;
        ctx.stat("probe:several_candidates_in_play");
    }
    ctx.ev(&format!(
        "{} picks: {}",
        t.n,
        t.by.iter().map(|(k, v)| format!("{k}: {} of {:.1} expected", v.0, v.1)).collect::<Vec<_>>().join(", ")
    ));
    verdict(&t, "all picks")
}

fn verdict(t: &Tally, who: &str) -> Check {
    if let Some((class, m)) = &t.bad {
        return viol(class, m.clone());
    }
    for (k, v) in &t.by {
        ensure!(
            !off(*v),
            "odds-not-followed",
            "{who}: candidate {k} was picked {} times where its probabilities add up to {:.1} (standard deviation {:.1}) over {} picks",
            v.0,
            v.1,
            v.2.sqrt(),
            t.n
        );
    }
    ensure!(
        !off(t.rep),
        "picks-not-independent",
        "{who}: a call repeated the previous pick {} times where {:.1} are expected (standard deviation {:.1})",
        t.rep.0,
        t.rep.1,
        t.rep.2.sqrt()
    );
    Ok(())
}

/// Extreme generators never produce an impossible pick, a panic or an error.
fn degenerate(ctx: &mut Ctx) -> Check {
    let items = gen_items(ctx, LogitOpts::default());
    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
    let mut items = items;
    if ctx.chance(1, 2) && items.len() > 1 {
        for _ in 0..ctx.range(1, 3) {
            let k = ctx.draw(items.len() as u32) as usize;
            if items.iter().filter(|x| x.1.is_finite()).count() > 1 {
                items[k].1 = f32::NEG_INFINITY;
            }
        }
    }
    let k = ctx.pick(&RANDOM_PICKERS);
    let spec = gen_spec(ctx, k, &ids);
    let words = [0u64, u64::MAX, 1, 1 << 63, 0xffff_ffff, 0xffff_ffff << 32, u64::MAX << 9, (1 << 41) - 1, u64::MAX - (1 << 32)];
    let pat: Vec<u64> = (0..ctx.range(1, 3)).map(|_| ctx.pick(&words)).collect();
    let mut res = SimRes::new(Some(SimRng::Pattern(pat.clone(), 0)), Some(Hist::Own(vec![])));
    let mut s = spec.build();
    ctx.stat("probe:degenerate_generator");
    for i in 0..4 {
        let mut l = make_logits(&items);
        if i == 3 {
            // As a chain whose earlier stage removed what cannot happen.
            l.retain(|x| x.logit.is_finite());
        }
        res.begin_call(vec![]);
        let o = call(|| s.sample_token(&mut res, &mut l));
        let left = Snap::of(&l);
        ctx.ev(&format!("{spec:?} generator words {pat:x?} call {i} over {items:?}: {o:?}"));
        match o {
            Out::Tok(Some(t)) => {
                let p = left.items.iter().zip(left.softmax64()).find(|x| x.0 .0 == t).map(|x| x.1);
                ensure!(
                    p.is_some_and(|p| p > 1e-40),
                    "zero-probability-pick",
                    "{spec:?} with generator words {pat:x?} picked {t} (probability {p:?}) from {left:?}"
                );
                ctx.nontrivial |= left.items.len() > 1;
            }
            o => return viol("no-pick", format!("{spec:?} with generator words {pat:x?} gave {o:?} over {items:?}")),
        }
    }
    Ok(())
}

/// Picks from lists of thousands, where no single candidate is picked often:
/// how much of the mass each part of the list gets, and how often a pick is
/// one that was made before.
fn vocabulary(ctx: &mut Ctx) -> Check {
    let n = ctx.pick(&[3000u32, 10_000, 33_000]);
    let spread = ctx.pick(&[0u32, 1, 4]);
    let hot = ctx.range(0, 2);
    let mut r = Prng::new(ctx.seed());
    let mut items: Items = (0..n).map(|i| (i, r.below(1 << 16) as f32 / 65536.0 * spread as f32)).collect();
    for _ in 0..hot {
        let k = r.below(n) as usize;
        items[k].1 = (n as f32).ln();
    }
    let spec = match ctx.draw(3) {
        0 => Spec::Miro2 { tau: 30.0, eta: 0.0, mu: None },
        _ => Spec::Rand,
    };
    let picks = if ctx.thorough { 6000 } else { 3000 };
    ctx.note(|| format!("{picks} picks by {spec:?} among {n} candidates, {hot} of them likely, the others' logits within {spread}"));
    let mut res = SimRes::new(Some(SimRng::seeded(ctx.seed())), Some(Hist::Own(vec![])));
    let mut s = spec.build();
    let mut l = make_logits(&items);
    let p: Vec<f64> = Snap::of(&l).softmax64();
    let live = |i: usize| (p[i], p[i] * (1.0 - p[i]));
    let mut seen = vec![false; n as usize];
    let mut mass = 0.0;
    let mut again = (0.0, 0.0, 0.0);
    let mut parts = vec![(0.0, 0.0, 0.0); 24];
    // A candidate's part by eighth of the list, by bits of its id, by odds.
    let part = |i: usize| [i * 8 / n as usize, 8 + i % 8, 16 + ((p[i] * n as f64 * 4.0) as usize).min(7)];
    let mut odds = vec![0.0; 24];
    for i in 0..n as usize {
        part(i).iter().for_each(|k| odds[*k] += p[i]);
    }
    for call_no in 0..picks {
        res.begin_call(vec![]);
        let o = call(|| s.sample_token(&mut res, &mut l));
        let draws = res.end_call().rng_draws;
        let Out::Tok(Some(t)) = o else {
            return viol("no-pick", format!("{spec:?} call {call_no} among {n}: {o:?}"));
        };
        let t = t as usize;
        ensure!(t < seen.len() && live(t).0 > 0.0, "zero-probability-pick", "{spec:?} picked {t} among {n}");
        ensure!(draws > 0, "generator-not-consulted", "{spec:?} call {call_no} among {n} candidates picked {t} without consulting the generator");
        again.0 += seen[t] as u32 as f64;
        again.1 += mass;
        again.2 += mass * (1.0 - mass);
        if !seen[t] {
            seen[t] = true;
            mass += p[t];
        }
        for k in part(t) {
            parts[k].0 += 1.0;
        }
    }
    let k = picks as f64;
    for (x, q) in parts.iter_mut().zip(&odds) {
        (x.1, x.2) = (k * q, k * q * (1.0 - q));
    }
    ctx.stat("probe:picks_from_thousands");
    ctx.stat_n("picks", picks);
    ctx.sim_steps += picks;
    ctx.nontrivial = true;
    ctx.ev(&format!("{} repeated picks of {:.1} expected; parts {:?}", again.0, again.1, parts.iter().map(|x| x.0).collect::<Vec<_>>()));
    ensure!(
        !off(again),
        "odds-not-followed",
        "{spec:?}: of {picks} picks among {n} candidates {} had been made before, where {:.1} are expected (standard deviation {:.1})",
        again.0,
        again.1,
        again.2.sqrt()
    );
    for (k, x) in parts.iter().enumerate() {
        ensure!(
            !off(*x),
            "odds-not-followed",
            "{spec:?}: part {k} of {n} candidates was picked {} times where {:.1} are expected (standard deviation {:.1})",
            x.0,
            x.1,
            x.2.sqrt()
        );
    }
    Ok(())
}

/// Who consults the generator, and how much of the outcome it decides.
fn who_draws(ctx: &mut Ctx) -> Check {
    let items = gen_items(ctx, LogitOpts { lo: 2, hi: 10, wide: false, ..Default::default() });
    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
    let mut specs = vec![];
    for _ in 0..ctx.range(0, 3) {
        let k = ctx.pick(&SHAPERS);
        specs.push(gen_spec(ctx, k, &ids));
    }
    let k = ctx.pick(&PICKERS);
    specs.push(gen_spec(ctx, k, &ids));
    let random = specs.iter().any(|s| s.uses_rng());
    let hist = gen_hist(ctx, &ids, 8);
    let seed = ctx.seed();
    let run1 = |seed: u64| {
        let mut res = SimRes::seeded(seed, hist.clone());
        let mut c = plain_chain(&specs);
        let mut v = vec![];
        for _ in 0..6 {
            let mut l = make_logits(&items);
            res.begin_call(vec![]);
            let o = call(|| c.sample_token(&mut res, &mut l));
            v.push((o, Snap::of(&l), res.end_call()));
        }
        v
    };
    let a = on_fresh_thread(1, || run1(seed)).map_err(|p| Violation { class: "unexpected-panic".into(), msg: panic_text(p.as_ref()) })?;
    let b = on_fresh_thread(2, || run1(seed)).map_err(|p| Violation { class: "unexpected-panic".into(), msg: panic_text(p.as_ref()) })?;
    let c = on_fresh_thread(2, || run1(seed ^ 0x55)).map_err(|p| Violation { class: "unexpected-panic".into(), msg: panic_text(p.as_ref()) })?;
    for (i, ((x, y), z)) in a.iter().zip(&b).zip(&c).enumerate() {
        ctx.ev(&format!("{specs:?} call {i}: {:?} after {} draws", x.0, x.2.rng_draws));
        ensure!(
            x.0 == y.0 && x.1 == y.1,
            "other-randomness",
            "{specs:?} call {i} over {items:?}: the same generator state gave {:?} and, with other hash seeds and clock, {:?}",
            x.0,
            y.0
        );
        if random {
            let open = x.1.softmax64().iter().filter(|p| **p > 1e-6).count();
            if open > 1 {
                ctx.nontrivial = true;
                ctx.stat("probe:generator_consulted");
                ensure!(
                    x.2.rng_draws > 0,
                    "generator-not-consulted",
                    "{specs:?} call {i} picked {:?} among {open} live candidates {:?} without consulting the generator",
                    x.0,
                    x.1
                );
            }
        } else {
            ctx.stat("probe:deterministic_chain");
            ensure!(
                x.2.rng_accesses == 0,
                "needless-randomness",
                "{specs:?} call {i}: no stage is random, yet the generator was consulted"
            );
            ensure!(
                x.0 == z.0,
                "other-randomness",
                "{specs:?} call {i} is deterministic but gave {:?} and {:?} with different generators",
                x.0,
                z.0
            );
        }
    }
    Ok(())
}
