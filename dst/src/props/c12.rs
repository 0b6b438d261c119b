//! C12: reconfiguring samplers while they are in use.

use std::borrow::Cow;
use std::sync::{Arc, Mutex};

use anyhow::Result as AResult;
use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use llm_samplers_simstd::sim;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::*;
use crate::res::*;

/// An embedder's own sampler, using every option type and both hooks.
#[derive(Debug)]
struct Custom {
    alpha: usize,
    alphabet: f32,
    flag: bool,
    name: Cow<'static, str>,
    fussy: bool,
    post: Arc<Mutex<Vec<&'static str>>>,
}
const CUSTOM: [(&str, SamplerOptionType); 4] = [
    ("alpha", SamplerOptionType::UInt),
    ("alphabet", SamplerOptionType::Float),
    ("flag", SamplerOptionType::Bool),
    ("name", SamplerOptionType::String),
];
fn custom_md() -> Vec<SamplerOptionMetadata> {
    CUSTOM.iter().map(|(key, option_type)| SamplerOptionMetadata { key, description: None, option_type: *option_type }).collect()
}
impl Sampler for Custom {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Custom {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "custom", description: None, options: custom_md() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        let vals = [
            Some(SamplerOptionValue::UInt(self.alpha)),
            Some(SamplerOptionValue::Float(self.alphabet)),
            Some(SamplerOptionValue::Bool(self.flag)),
            Some(SamplerOptionValue::String(Cow::Borrowed(&*self.name))),
        ];
        SamplerOptions::from(custom_md().into_iter().zip(vals))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        let vals = [
            Some(SamplerOptionValueMut::UInt(&mut self.alpha)),
            Some(SamplerOptionValueMut::Float(&mut self.alphabet)),
            Some(SamplerOptionValueMut::Bool(&mut self.flag)),
            Some(SamplerOptionValueMut::String(&mut self.name)),
        ];
        SamplerOptions::from(custom_md().into_iter().zip(vals))
    }
}
impl ConfigurableSampler<usize, f32> for Custom {
    fn pre_set_option(&mut self, md: &SamplerOptionMetadata, val: &mut SamplerOptionValue) -> AResult<()> {
        match (md.key, val) {
            ("alpha", SamplerOptionValue::UInt(u)) if *u > 100 => anyhow::bail!("alpha must not exceed 100"),
            ("alphabet", SamplerOptionValue::Float(f)) => *f = f.min(1.0),
            _ => (),
        }
        Ok(())
    }
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> AResult<()> {
        self.post.lock().unwrap().push(md.key);
        if self.fussy && md.key == "flag" && self.flag {
            anyhow::bail!("the flag must stay down");
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
enum Op {
    Configure(String),
    Set(String, Val),
    Get(String),
    Sample { items: Items, seed: u64, hist: Vec<TID>, fault: Option<(u32, Fault, u32)> },
}

/// What a refusal says, and what it says about a name.
#[derive(Clone, Debug)]
struct Why(String, Option<(&'static str, String)>);
impl Why {
    fn of(e: anyhow::Error) -> Why {
        let kind = match e.downcast_ref::<ConfigureSamplerError>() {
            Some(ConfigureSamplerError::UnknownOrBadType(k)) => Some(("an unknown name", k.clone())),
            Some(ConfigureSamplerError::AmbiguousKey(k)) => Some(("an ambiguous name", k.clone())),
            _ => None,
        };
        Why(e.to_string(), kind)
    }
}

#[derive(Clone, Debug)]
enum Res {
    Conf(Result<(), Why>),
    Got(Result<Val, Why>),
    Sampled(Out, Snap, bool),
}

#[derive(Debug)]
struct Entry {
    task: usize,
    op: Op,
    res: Res,
    opts: Vec<(&'static str, String)>,
}

fn apply(s: &mut Boxed, op: &Op) -> Res {
    match op {
        Op::Configure(t) => Res::Conf(s.configure(t).map_err(Why::of)),
        Op::Set(k, v) => Res::Conf(s.set_option(k, v.to_option()).map_err(Why::of)),
        Op::Get(k) => Res::Got(s.get_option(k).map(|v| Val::of_option(&v)).map_err(Why::of)),
        Op::Sample { items, seed, hist, fault } => {
            let mut res = SimRes::seeded(*seed, hist.clone());
            // The caller holds the sampler's lock: without the hook a
            // parked lock holder would block for real.
            res.yields = false;
            res.begin_call(fault.iter().copied().collect());
            let mut l = make_logits(items);
            let o = call(|| s.sample_token(&mut res, &mut l));
            let fired = !res.end_call().fired.is_empty();
            Res::Sampled(o, Snap::of(&l), fired)
        }
    }
}

/// A sampler's description lists the options it has, of the types they have.
fn described(b: &Boxed, model: &Model) -> Check {
    let of = |v: &Val| match v {
        Val::U(_) => SamplerOptionType::UInt,
        Val::F(_) => SamplerOptionType::Float,
        Val::B(_) => SamplerOptionType::Bool,
        Val::S(_) => SamplerOptionType::String,
    };
    let mut want: Vec<(&str, SamplerOptionType)> = model.keys.iter().map(|(k, v)| (*k, of(v))).collect();
    want.sort_by_key(|x| x.0);
    let d = HasSamplerMetadata::<usize, f32>::sampler_metadata(&**b);
    let mut got: Vec<_> = d.options.iter().map(|o| (o.key, o.option_type)).collect();
    got.sort_by_key(|x| x.0);
    ensure!(got == want, "description-differs", "{:?} describes its options as {got:?}, but has {want:?}", d.name);
    let mut live: Vec<_> = HasSamplerMetadata::<usize, f32>::sampler_options(&**b).iter().map(|o| (o.0.key, o.0.option_type)).collect();
    live.sort_by_key(|x| x.0);
    ensure!(live == want, "description-differs", "{:?} lists its options as {live:?}, but has {want:?}", d.name);
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> Check {
    let kinds = [
        Kind::Miro2, Kind::Miro1, Kind::Temp, Kind::TopK, Kind::TopP, Kind::MinP, Kind::TopA, Kind::Tail, Kind::Typ,
        Kind::FreqPres, Kind::Rep, Kind::Seq,
    ];
    let custom = ctx.chance(1, 6);
    let k = ctx.pick(&kinds);
    let spec = gen_spec(ctx, k, &[0, 1, 2, 3, 4]);
    let fresh = !custom && ctx.chance(1, 8);
    let mut model = if custom {
        Model {
            keys: vec![("alpha", Val::U(3)), ("alphabet", Val::F(0.5)), ("flag", Val::B(false)), ("name", Val::S("nn".into()))],
            custom: true,
            fussy: ctx.chance(1, 3),
            ..Model::plain(vec![])
        }
    } else {
        Model::of(&spec)
    };
    let post: Arc<Mutex<Vec<&'static str>>> = Arc::default();
    let ntasks = ctx.weighted(&[4, 4, 2]) + 1;
    let mut ops: Vec<Vec<Op>> = vec![];
    for _ in 0..ntasks {
        let mut v = vec![];
        for _ in 0..ctx.range(1, 6) {
            v.push(match ctx.weighted(&[4, 3, 2, 4]) {
                0 => Op::Configure(gen_config(ctx, &model)),
                1 => {
                    let i = ctx.draw(model.keys.len() as u32) as usize;
                    let key = gen_key(ctx, &model, i);
                    let mut val = gen_val(ctx, &model.keys[i].1.clone());
                    if custom && ctx.chance(1, 3) {
                        val = ctx.pick(&[Val::U(101), Val::F(2.5)]);
                    }
                    Op::Set(key, val)
                }
                2 => {
                    let i = ctx.draw(model.keys.len() as u32) as usize;
                    Op::Get(gen_key(ctx, &model, i))
                }
                _ => {
                    let items = gen_items(ctx, LogitOpts { lo: 2, hi: 8, wide: false, ..Default::default() });
                    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
                    Op::Sample {
                        hist: gen_hist(ctx, &ids, 10),
                        seed: ctx.seed(),
                        fault: if ctx.chance(1, 5) { Some(gen_fault(ctx, 5, false)) } else { None },
                        items,
                    }
                }
            });
        }
        ops.push(v);
    }
    let first: Boxed = if custom {
        Box::new(Custom { alpha: 3, alphabet: 0.5, flag: false, name: Cow::Borrowed("nn"), fussy: model.fussy, post: post.clone() })
    } else if fresh {
        spec.build_default()
    } else {
        match ctx.weighted(&[4, 1, 1]) {
            0 => spec.build(),
            1 => spec.build_by_setters(),
            _ => spec.build_by_text(),
        }
    };
    if fresh {
        model = Model::of_default(&spec, &shown(&first));
        ctx.stat("probe:started_from_the_defaults");
    }
    ctx.note(|| format!("{}sampler {}", if fresh { "default " } else { "" }, if custom { "Custom (hooks, all option types)".to_string() } else { format!("{spec:?}") }));
    ensure!(
        shown(&first) == model.show(),
        "fresh-options-differ",
        "a fresh {}{spec:?} reports options {:?}, not {:?}",
        if fresh { "default sampler, not " } else { "" },
        shown(&first),
        model.show()
    );
    if !custom {
        described(&first, &model)?;
    }
    let shared = Arc::new(SimMutex::new(first));
    // Entries are appended while the sampler's lock is held, so the log is
    // in the order the operations took effect.
    let log: Mutex<Vec<Entry>> = Mutex::new(vec![]);
    let tasks: Vec<Task> = ops
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let (shared, log) = (shared.clone(), &log);
            Box::new(move || {
                for op in ops {
                    sim::yield_point("next op");
                    let mut g = shared.lock().unwrap_or_else(|e| e.into_inner());
                    let res = match guard(|| apply(&mut g, op)) {
                        Ok(r) => r,
                        Err(p) => Res::Conf(Err(Why(format!("PANIC {}", panic_text(p.as_ref())), None))),
                    };
                    let e = Entry { task: t, op: op.clone(), res, opts: shown(&g) };
                    log.lock().unwrap().push(e);
                }
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 10_000)?;
    let mut sampled = false;
    let mut changed = false;
    for (n, e) in log.into_inner().unwrap().into_iter().enumerate() {
        ctx.ev(&format!("{n}: task {} {:?} => {:?}; options now {:?}", e.task, e.op, e.res, e.opts));
        let who = format!("step {n} (task {}, {:?})", e.task, e.op);
        let before = model.clone();
        match (&e.op, &e.res) {
            (_, Res::Conf(Err(Why(m, _)))) if m.starts_with("PANIC") => return viol("panic", format!("{who}: {m}")),
            (Op::Configure(text), Res::Conf(got)) => {
                let ok = model.configure_as(text, got.is_ok());
                verdict(ctx, got, ok, &who)?;
                if !ok && e.opts == before.show() && !custom {
                    // All or nothing is fine too.
                    model = before.clone();
                }
                if let ([part], Err(w)) = (&text.split(':').map(str::trim).filter(|p| !p.is_empty()).collect::<Vec<_>>()[..], got) {
                    reason(before.why_not(part.split_once('=').map_or("", |x| x.0)), part.split_once('=').map_or("", |x| x.0), w, &who)?;
                }
            }
            (Op::Set(k, v), Res::Conf(got)) => {
                let ok = model.set_as(k, v.clone(), got.is_ok());
                verdict(ctx, got, ok, &who)?;
                if let Err(w) = got {
                    reason(before.why_not(k), k, w, &who)?;
                }
            }
            (Op::Get(k), Res::Got(got)) => {
                let want = model.resolve(k).map(|i| model.keys[i].1.clone());
                ensure!(
                    got.clone().ok() == want,
                    "get-wrong",
                    "{who}: read {got:?}, but the option's value is {want:?}"
                );
                if let Err(w) = got {
                    reason(before.why_not(k), k, w, &who)?;
                }
            }
            (Op::Sample { items, seed, hist, fault }, Res::Sampled(o, left, fired)) => {
                sampled = true;
                if *fired {
                    ctx.stat("fault:resource:during_reconfigured_call");
                }
                // Only the learning state may move by sampling.
                if !custom {
                    // A sampler constructed with the current settings does
                    // exactly the same.
                    let mut twin = model.spec(&spec).build();
                    let mut res = SimRes::seeded(*seed, hist.clone());
                    res.yields = false;
                    res.begin_call(fault.iter().copied().collect());
                    let mut l = make_logits(items);
                    let o2 = call(|| twin.sample_token(&mut res, &mut l));
                    ensure!(
                        o2 == *o && Snap::of(&l) == *left,
                        "configured-differs-from-constructed",
                        "{who}: gave {o:?} leaving {left:?}, but a sampler constructed with the current options {:?} gives {o2:?} leaving {:?}",
                        before.show(),
                        Snap::of(&l)
                    );
                    let mu = |s: &[(&'static str, String)]| s.iter().find(|x| x.0 == "mu").and_then(|x| x.1.parse::<f32>().ok());
                    let t2 = shown(&twin);
                    ensure!(
                        mu(&t2).map(f32::to_bits) == mu(&e.opts).map(f32::to_bits),
                        "configured-differs-from-constructed",
                        "{who}: learning state became {:?}; in a sampler constructed with the same options it becomes {:?}",
                        mu(&e.opts),
                        mu(&t2)
                    );
                    if let Some(v) = mu(&e.opts) {
                        model.put("mu", Val::F(v));
                    }
                }
            }
            _ => unreachable!(),
        }
        // Where the hook after setting fails, nothing says whether the option
        // stays set.
        if model.fussy && matches!(e.res, Res::Conf(Err(_))) && model.get("flag") == Some(&Val::B(true)) {
            let up = e.opts.iter().any(|x| x.0 == "flag" && x.1 == "true");
            model.put("flag", Val::B(up));
            ctx.stat("fault:configure:hook_after_setting_failed");
        }
        changed |= model.show() != before.show();
        ensure!(
            e.opts == model.show(),
            "options-differ",
            "{who}: options went from {:?} to {:?}, not to {:?}",
            before.show(),
            e.opts,
            model.show()
        );
    }
    if custom {
        let got = post.lock().unwrap().clone();
        ctx.stat("probe:custom_hooks");
        ensure!(
            got == model.post,
            "post-hook-wrong",
            "the post-set hook ran for {got:?}, not once per option set {:?}",
            model.post
        );
    }
    if sampled && changed {
        ctx.nontrivial = true;
    }
    if ntasks > 1 {
        ctx.stat("probe:reconfigured_from_other_threads");
    }
    Ok(())
}

/// A refused name is refused for what it is.
fn reason(want: Option<&'static str>, key: &str, got: &Why, who: &str) -> Check {
    let Some(want) = want else { return Ok(()) };
    let key = key.trim();
    let ok = got.1.as_ref().is_some_and(|(kind, k)| *kind == want && (key.is_empty() || k == key));
    ensure!(ok, "wrong-reason", "{who}: refused with {:?} ({:?}), though {key:?} is {want}", got.0, got.1);
    Ok(())
}

fn verdict(ctx: &mut Ctx, got: &Result<(), Why>, ok: bool, who: &str) -> Check {
    ctx.stat(if ok { "accepted" } else { "fault:configure:refused" });
    ensure!(
        got.is_ok() == ok,
        if ok { "refused-good-option" } else { "accepted-bad-option" },
        "{who}: {}",
        match got {
            Ok(()) => "accepted".to_string(),
            Err(e) => format!("refused: {}", e.0),
        }
    );
    Ok(())
}
