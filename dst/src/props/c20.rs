//! C20: a session runs in bounded memory: what samplers, chains and lists
//! hold on to does not grow with the number of calls, and is given back
//! when they are dropped.

use std::sync::Arc;

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::Model;
use crate::res::*;
use crate::session::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// One chain for the whole session.
    Chain,
    /// The same behind the shared handle.
    Shared,
    /// Chains made by the builder, used once and dropped.
    Rebuilt,
    /// The samplers are cloned now and then and the clones used instead.
    Cloned,
    /// Reconfigured now and then.
    Reconfigured,
}

struct Loop {
    specs: Vec<Spec>,
    how: How,
    items: Vec<Items>,
    faults: Vec<Vec<(u32, Fault, u32)>>,
    hist: Vec<TID>,
    seed: u64,
    texts: Vec<(usize, String)>,
    fresh_ids: bool,
    fresh_values: bool,
}

/// Every session in memory: live bytes after each power-of-two call count.
fn run_loop(l: &Loop, marks: &[usize]) -> (Vec<i64>, u64, u64, u64) {
    let mut res = SimRes::new(Some(SimRng::seeded(l.seed)), Some(Hist::Own(l.hist.clone())));
    res.yields = false;
    let mut stages: Vec<Box<dyn Dup>> = l.specs.iter().map(|s| s.build_dup()).collect();
    let mut chain = plain_chain(&l.specs);
    let mut shared: Option<Shared> = (l.how == How::Shared).then(|| Arc::new(SimMutex::new(plain_chain(&l.specs))) as Shared);
    let mut out = Vec::with_capacity(marks.len() + 1);
    let (mut ok, mut failed, mut digest) = (0, 0, 0u64);
    let mut hist: Vec<TID> = l.hist.clone();
    for k in 0..*marks.last().unwrap() {
        let mut logits = make_logits(&l.items[k % l.items.len()]);
        if l.fresh_ids {
            // Different candidates every time.
            for (i, x) in logits.iter_mut().enumerate() {
                x.token_id = (k * 64 + i) as u32;
            }
        }
        if l.fresh_values {
            // Different logits every time, and not always as many.
            for (i, x) in logits.iter_mut().enumerate() {
                x.logit += ((k * 64 + i) as f32 * 0.7312).sin();
            }
            if k % 5 == 3 && logits.len() > 1 {
                logits.pop();
            }
        }
        let slot = |i: usize| if l.fresh_values { format!("s{i} of {k}") } else { format!("s{i}") };
        res.begin_call(l.faults[k % l.faults.len()].clone());
        let o = match l.how {
            How::Chain => call(|| chain.sample_token(&mut res, &mut logits)),
            How::Shared => call(|| shared.as_mut().unwrap().sample_token(&mut res, &mut logits)),
            How::Rebuilt => {
                if k % 2 == 1 {
                    // Put together by hand, as any user may.
                    let mut c = match k % 8 {
                        1 => plain_chain(&l.specs),
                        3 => l.specs.iter().fold(SamplerChain::new(), |c, s| c + s.build()),
                        5 => SamplerChain::new() + (Box::new(plain_chain(&l.specs)) as Box<dyn Sampler>),
                        _ => SamplerChain::new() + (Arc::new(SimMutex::new(plain_chain(&l.specs))) as Shared),
                    };
                    call(|| logits.sample_token(&mut res, &mut c))
                } else {
                let mut b = SamplerChainBuilder::<usize, f32>::default();
                for (i, s) in l.specs.iter().enumerate() {
                    let (s2, s3) = (s.clone(), s.clone());
                    b.push_slot(
                        slot(i),
                        match i {
                            0 => SamplerSlot::new_chain(move || s2.build(), [s3.build()]),
                            1 => SamplerSlot::new_single(move || s2.build(), None::<SampleGreedy>),
                            _ => SamplerSlot::new_static(move || s2.build()),
                        },
                    );
                }
                for (i, t) in &l.texts {
                    let _ = b.configure(slot(*i), t);
                }
                let mut c = b.into_chain();
                call(|| c.sample_token(&mut res, &mut logits))
                }
            }
            How::Cloned => {
                if k % 3 == 0 {
                    let c: Vec<Box<dyn Dup>> = stages.iter().map(|s| s.dup()).collect();
                    stages = c;
                }
                call(|| {
                    let mut t = None;
                    for s in stages.iter_mut() {
                        t = s.sample_token(&mut res, &mut logits)?;
                    }
                    Ok(t)
                })
            }
            How::Reconfigured => {
                if !l.texts.is_empty() {
                    let (i, t) = &l.texts[k % l.texts.len()];
                    let _ = stages[*i].configure(t);
                    if l.fresh_values {
                        // A value never given before.
                        let key = l.specs[*i].kind();
                        let key = match key {
                            Kind::TopP | Kind::MinP | Kind::Typ => "p",
                            Kind::Tail => "z",
                            Kind::Temp => "temperature",
                            Kind::Miro1 | Kind::Miro2 => "eta",
                            _ => "no such thing",
                        };
                        let _ = stages[*i].configure(&format!("{key}={}", 0.5 + k as f32 * 1e-5));
                    }
                }
                call(|| {
                    let mut t = None;
                    for s in stages.iter_mut() {
                        t = s.sample_token(&mut res, &mut logits)?;
                    }
                    Ok(t)
                })
            }
        };
        let _ = res.end_call();
        if let Out::Panic(m) = &o {
            std::panic::resume_unwind(Box::new(m.clone()));
        }
        match o {
            Out::Tok(t) => {
                ok += 1;
                digest = mix(digest, t.map_or(u64::MAX, |t| t as u64));
                // The embedder keeps a window of the newest tokens.
                if let (Some(t), false) = (t, hist.is_empty()) {
                    let _ = res.inner.with_last_tokens_mut(&mut |v| {
                        v.remove(0);
                        v.push(t);
                    });
                    hist.remove(0);
                    hist.push(t);
                }
            }
            _ => failed += 1,
        }
        drop(logits);
        if marks.contains(&(k + 1)) {
            res.begin_call(vec![]);
            out.push(live_bytes());
        }
    }
    (out, ok, failed, digest)
}

pub fn run(ctx: &mut Ctx) -> Check {
    let first = gen_items(ctx, LogitOpts { lo: 2, hi: 8, long: false, ..Default::default() });
    let ids: Vec<TID> = first.iter().map(|x| x.0).collect();
    let mut items = vec![first];
    for _ in 0..ctx.range(0, 4) {
        items.push(gen_items(ctx, LogitOpts { lo: 1, hi: 8, long: false, ..Default::default() }));
    }
    let n = ctx.range(0, 2);
    let mut specs = vec![];
    for _ in 0..n {
        let k = ctx.pick(&SHAPERS);
        specs.push(gen_spec(ctx, k, &ids));
    }
    let k = ctx.pick(&PICKERS);
    specs.push(gen_spec(ctx, k, &ids));
    let how = ctx.pick(&[How::Chain, How::Shared, How::Rebuilt, How::Cloned, How::Reconfigured]);
    let fault4 = ctx.pick(&[0u32, 1, 3]);
    let panics = how != How::Shared && ctx.chance(1, 3);
    let mut faults = vec![vec![]];
    for i in 0..ctx.range(0, 4) {
        faults.push(if ctx.chance(fault4, 4) { vec![gen_fault(ctx, i + 1, panics)] } else { vec![] });
    }
    let mut hist = gen_hist(ctx, &ids, 12);
    hist.truncate(24);
    let mut texts = vec![];
    for _ in 0..ctx.range(0, 3) {
        let i = ctx.draw(specs.len() as u32) as usize;
        let to = gen_spec(ctx, specs[i].kind(), &ids);
        let mut t = Model::of(&to).keys.iter().map(|(k, v)| format!("{k}={}", v.show())).collect::<Vec<_>>().join(":");
        if ctx.chance(1, 3) {
            t.push_str(":nope=1");
        }
        texts.push((i, t));
    }
    let l = Loop { specs, how, items, faults, hist, seed: ctx.seed(), texts, fresh_ids: ctx.chance(1, 2), fresh_values: ctx.chance(1, 2) };
    ctx.note(|| format!("stages {:?}, {:?}, reconfigured with {:?}", l.specs, l.how, l.texts));
    ctx.note(|| format!("lists {:?}{}, history {:?}", l.items, match (l.fresh_ids, l.fresh_values) {
        (true, true) => " with new token ids and logits every call",
        (true, false) => " with new token ids every call",
        (false, true) => " with new logits every call",
        _ => "",
    }, l.hist));
    ctx.note(|| format!("faults, call by call, over and over: {:?}", l.faults));
    let marks = [256usize, 512, 1024, 2048];
    let seed = ctx.run_seed;
    let r = on_fresh_thread(mix(seed, 1), || {
        let start = live_bytes();
        let r = run_loop(&l, &marks);
        (start, r, live_bytes())
    });
    let (start, (at, ok, failed, digest), end) = match r {
        Ok(r) => r,
        Err(p) => return viol("unexpected-panic", panic_text(p.as_ref())),
    };
    ctx.ev(&format!("{ok} calls succeeded, {failed} failed; tokens {digest:016x}"));
    ctx.stat_n("calls", ok + failed);
    ctx.stat_n("calls_failed", failed);
    ctx.stat(&format!("kind:{:?}", l.how));
    let grew: Vec<i64> = at.windows(2).map(|w| w[1] - w[0]).collect();
    ctx.stat_n("windows_measured", grew.len() as u64);
    ensure!(
        !grew.iter().all(|g| *g > 0) || grew.iter().sum::<i64>() < 1024,
        "memory-grows",
        "live bytes after {marks:?} calls: {:?} above the start - every doubling of the calls keeps more",
        at.iter().map(|a| a - start).collect::<Vec<_>>()
    );
    // Dropped, everything is given back (thread-wide caches may stay).
    ensure!(
        end - start < 64 * 1024,
        "memory-not-returned",
        "{} bytes are still held after the chain was dropped",
        end - start
    );
    ctx.nontrivial = ok > 0;
    Ok(())
}
