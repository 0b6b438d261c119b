//! C17: candidate lists built from a live stream of logits.

use std::sync::Mutex;

use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;

/// What the model hands out, one logit at a time.
#[derive(Clone, Debug)]
struct Stream {
    vals: Vec<f32>,
    hint: Hint,
    /// Panic instead of handing out this one.
    breaks: Option<(u32, u32)>,
    /// Sample with another chain while asked for this one.
    nest: Option<u32>,
}
#[derive(Clone, Copy, Debug)]
enum Hint {
    Nothing,
    Exact,
    AtLeastHalf,
    AtMostHuge,
}
#[derive(Clone, Debug)]
enum Way {
    All,
    Best(usize),
    /// From a vector of all.
    Vector,
}
#[derive(Clone, Debug)]
struct Build {
    stream: Stream,
    way: Way,
}

#[derive(Default)]
struct Seen {
    pulled: u32,
    /// Asked again after the end.
    past_end: u32,
    nested: Option<Out>,
}

struct Source<'a> {
    s: &'a Stream,
    at: u32,
    ended: bool,
    yields: bool,
    seen: &'a mut Seen,
}
impl Iterator for Source<'_> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        if self.yields {
            seam_yield("next logit");
        }
        let i = self.at;
        if let Some((_, id)) = self.s.breaks.filter(|b| b.0 == i) {
            std::panic::resume_unwind(Box::new(SimFault(id)));
        }
        if self.s.nest == Some(i) {
            self.seen.nested = Some(side_session());
        }
        let Some(v) = self.s.vals.get(i as usize) else {
            if self.ended {
                self.seen.past_end += 1;
            }
            self.ended = true;
            return None;
        };
        self.at += 1;
        self.seen.pulled += 1;
        Some(*v)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.s.vals.len() - (self.at as usize).min(self.s.vals.len());
        match self.s.hint {
            Hint::Nothing => (0, None),
            Hint::Exact => (n, Some(n)),
            Hint::AtLeastHalf => (n / 2, None),
            Hint::AtMostHuge => (0, Some(usize::MAX)),
        }
    }
}

/// An unrelated session, run in the middle of a build.
fn side_session() -> Out {
    let mut res = SimRes::seeded(7, vec![1, 1, 2]);
    res.yields = false;
    let mut l = Logits::try_from_iter_top_k([0.5f32, 2.0, f32::NAN, 1.0], 2).expect("finite logits are accepted");
    let mut c = SamplerChain::new() + SampleRepetition::new(1.5, 8) + SampleGreedy::new();
    let a = call(|| c.sample_token(&mut res, &mut l));
    let mut l = Logits::try_from_iter([0.5f32, 2.0, 1.0]).expect("finite logits are accepted");
    let b = call(|| c.sample_token(&mut res, &mut l));
    if a == b && l.len() == 3 {
        a
    } else {
        b
    }
}

#[derive(Debug)]
enum Built {
    List(Snap, Out, Snap),
    Refused(LogitsError),
    Broke(u32),
    Panic(String),
}

fn build(b: &Build, yields: bool, seen: &mut Seen) -> Result<Logits, LogitsError> {
    let src = Source { s: &b.stream, at: 0, ended: false, yields, seen };
    match b.way {
        Way::All => Logits::try_from_iter(src),
        Way::Best(k) => Logits::try_from_iter_top_k(src, k),
        Way::Vector => Logits::try_from(src.collect::<Vec<f32>>()),
    }
}

fn once(b: &Build, yields: bool, seen: &mut Seen) -> Built {
    match guard(|| build(b, yields, seen)) {
        Ok(Ok(mut l)) => {
            let s = Snap::of(&l);
            let mut res = SimRes::seeded(1, vec![]);
            res.yields = false;
            let t = call(|| SampleGreedy::new().sample_token(&mut res, &mut l));
            let _ = l.ensure_sorted();
            Built::List(s, t, Snap::of(&l))
        }
        Ok(Err(e)) => Built::Refused(e),
        Err(p) => match p.downcast_ref::<SimFault>() {
            Some(f) => Built::Broke(f.0),
            None => Built::Panic(panic_text(p.as_ref())),
        },
    }
}

/// A stream with more logits than sixteen bits can number.
fn huge_build(ctx: &mut Ctx, id: u32) -> Build {
    let n = ctx.pick(&[65_536u32, 65_537, 70_001]);
    let mut r = Prng::new(ctx.seed());
    let vals: Vec<f32> = match ctx.draw(3) {
        0 => (0..n).map(|_| r.below(1 << 20) as f32 / 1024.0 - 500.0).collect(),
        1 => (0..n).map(|i| (n - i) as f32).collect(),
        _ => (0..n).map(|i| i as f32 * 0.5).collect(),
    };
    Build {
        way: if ctx.chance(1, 2) { Way::All } else { Way::Best(ctx.pick(&[3usize, 40, 300])) },
        stream: Stream {
            hint: ctx.pick(&[Hint::Nothing, Hint::Exact, Hint::AtLeastHalf, Hint::AtMostHuge]),
            breaks: ctx.chance(1, 8).then(|| (n - 1, id)),
            nest: None,
            vals,
        },
    }
}

fn gen_build(ctx: &mut Ctx, id: u32) -> Build {
    let n = match ctx.weighted(&[8, 3, 1]) {
        0 => ctx.range(0, 9),
        1 => ctx.range(10, 60),
        _ => ctx.range(200, 700),
    } as usize;
    let shape = ctx.draw(5);
    let mut vals: Vec<f32> = (0..n)
        .map(|i| match shape {
            0 => ctx.draw(41) as f32 * 0.25 - 5.0,
            1 => (n - i) as f32,
            2 => i as f32,
            3 => 1.5,
            _ => ctx.draw(2001) as f32 * 0.5 - 500.0,
        })
        .collect();
    if n > 0 {
        for _ in 0..ctx.weighted(&[3, 2, 1, 1]) {
            let i = ctx.draw(n as u32) as usize;
            vals[i] = ctx.pick(&[f32::NEG_INFINITY, f32::INFINITY, f32::NAN, -0.0, 0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::NAN]);
        }
    }
    let ks = [3usize, 1, 2, 5, 10, 40, 0, 500, usize::MAX, 1 << 44];
    let way = match ctx.weighted(&[3, 5, 1]) {
        0 => Way::All,
        1 if ctx.chance(1, 5) && n > 0 => Way::Best((n + ctx.draw(3) as usize).saturating_sub(1)),
        1 => Way::Best(ctx.pick(&ks)),
        _ => Way::Vector,
    };
    Build {
        way,
        stream: Stream {
            hint: ctx.pick(&[Hint::Nothing, Hint::Exact, Hint::AtLeastHalf, Hint::AtMostHuge]),
            breaks: ctx.chance(1, 5).then(|| (ctx.draw(n as u32 + 1), id)),
            nest: ctx.chance(1, 6).then(|| ctx.draw(n as u32 + 1)),
            vals,
        },
    }
}

pub fn run(ctx: &mut Ctx) -> Check {
    let ntasks = ctx.weighted(&[3, 3, 1]) + 1;
    let mut id = 0;
    if ctx.chance(1, 500) {
        let b = huge_build(ctx, 1);
        ctx.note(|| format!("a stream of {}: {:?} {:?} {:?}", b.stream.vals.len(), b.way, b.stream.hint, b.stream.breaks));
        let mut seen = Seen::default();
        let r = once(&b, false, &mut seen);
        ctx.stat("probe:very_long_stream");
        let who = format!("a stream of {} ({:?})", b.stream.vals.len(), b.way);
        return judge(ctx, &b, &r, &seen, &who);
    }
    let plans: Vec<Vec<Build>> = (0..ntasks)
        .map(|_| {
            (0..ctx.range(1, 3))
                .map(|_| {
                    id += 1;
                    gen_build(ctx, id)
                })
                .collect()
        })
        .collect();
    for (i, p) in plans.iter().enumerate() {
        for b in p {
            ctx.note(|| format!("task {i}: {b:?}"));
        }
    }
    let outs: Vec<Mutex<Vec<(Built, Seen, i64)>>> = plans.iter().map(|_| Default::default()).collect();
    let want_side = side_session();
    let tasks: Vec<Task> = plans
        .iter()
        .zip(&outs)
        .map(|(p, o)| {
            Box::new(move || {
                for b in p {
                    seam_yield("between builds");
                    let mut seen = Seen::default();
                    let r = once(b, true, &mut seen);
                    // What a repetition leaves behind: nothing (made without
                    // the scheduler, whose records take memory too).
                    let before = live_bytes();
                    drop(once(b, false, &mut Seen::default()));
                    let left = live_bytes() - before;
                    o.lock().unwrap().push((r, seen, left));
                }
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 400_000)?;
    if ntasks > 1 {
        ctx.stat("probe:lists_built_concurrently");
    }
    for (i, (p, o)) in plans.iter().zip(outs).enumerate() {
        for (j, (b, (r, seen, left))) in p.iter().zip(o.into_inner().unwrap()).enumerate() {
            ctx.ev(&format!("task {i} build {j}: {r:?}, {} read", seen.pulled));
            let who = format!("task {i} build {j} ({:?}, length hint {:?})", b.way, b.stream.hint);
            judge(ctx, b, &r, &seen, &who)?;
            ensure!(left == 0, "memory-kept", "{who}: {left} bytes are left behind by {r:?}");
            if let Some(n) = &seen.nested {
                ctx.stat("probe:session_inside_a_build");
                ensure!(*n == want_side, "nested-session-differs", "{who}: a session run meanwhile got {n:?} instead of {want_side:?}");
            }
        }
    }
    Ok(())
}

/// At most the beginning of a stream, for messages.
struct Few<'a>(&'a [f32]);
impl std::fmt::Display for Few<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0.get(..800) {
            Some(v) => write!(f, "{v:?} and {} more", self.0.len() - v.len()),
            None => write!(f, "{:?}", self.0),
        }
    }
}

fn judge(ctx: &mut Ctx, b: &Build, r: &Built, seen: &Seen, who: &str) -> Check {
    let vals = &b.stream.vals;
    let stream = Few(vals);
    let nan = vals.iter().position(|v| v.is_nan());
    ensure!(seen.past_end == 0, "read-past-end", "{who}: the stream is asked {} more times after its end", seen.past_end);
    let best = match b.way {
        Way::Best(k) => Some(k),
        _ => None,
    };
    // The stream breaks off before the first refusable value.
    let breaks = b.stream.breaks.filter(|x| match (&b.way, nan) {
        (Way::All, Some(n)) => x.0 as usize <= n,
        _ => true,
    });
    match r {
        Built::Panic(p) => viol("unexpected-panic", format!("{who}: {p}; stream {stream}")),
        Built::Broke(id) => {
            ctx.stat("fault:stream:panicked");
            ctx.nontrivial = true;
            ensure!(b.stream.breaks.is_some_and(|x| x.1 == *id), "panic-misplaced", "{who}: another build's panic {id}");
            Ok(())
        }
        // A list of none needs no stream; a refused one may stop reading.
        _ if breaks.is_some() && best != Some(0) => {
            viol("panic-lost", format!("{who}: the stream panics, and the build returns {r:?}; stream {stream}"))
        }
        Built::Refused(e) => {
            ctx.stat("refused");
            ctx.nontrivial = true;
            let ok = best.is_none() && matches!((e, nan), (LogitsError::InvalidLogit(i), Some(n)) if *i == n);
            ensure!(ok, "refused-wrongly", "{who}: {e:?}; stream {stream}");
            Ok(())
        }
        Built::List(s, picked, sorted) => {
            let all: Vec<(TID, f32)> = vals.iter().enumerate().map(|(i, v)| (i as TID, *v)).collect();
            ensure!(!s.softmax || s.items.is_empty(), "marked-wrongly", "{who}: a new list claims to be normalised: {s:?}");
            for (t, l, _) in &s.items {
                let ok = all.get(*t as usize).is_some_and(|x| x.1.to_bits() == l.to_bits());
                ensure!(ok, "misnumbered", "{who}: candidate {t} with logit {l} is not what the stream gave; stream {stream}, list {s:?}");
            }
            let mut ids = s.ids();
            ids.sort_unstable();
            ensure!(ids.windows(2).all(|w| w[0] != w[1]), "misnumbered", "{who}: a candidate twice: {s:?}");
            match best {
                None => {
                    ensure!(nan.is_none(), "accepted-nan", "{who}: accepts NaN at {nan:?}: {s:?}");
                    ensure!(s.items.len() == all.len(), "lost-candidates", "{who}: {} of {} candidates", s.items.len(), all.len());
                    ensure!(s.items.iter().zip(&all).all(|(a, b)| a.0 == b.0), "misnumbered", "{who}: not in the stream's order: {s:?}");
                }
                Some(k) => {
                    let mut fin: Vec<f32> = vals.iter().copied().filter(|v| v.is_finite()).collect();
                    fin.sort_by(|a, b| b.partial_cmp(a).unwrap());
                    fin.truncate(k);
                    ctx.nontrivial |= s.items.len() >= 2;
                    ensure!(s.items.iter().all(|x| x.1.is_finite()), "accepted-nan", "{who}: keeps what is not finite: {s:?}");
                    ensure!(
                        s.items.len() == fin.len() && s.items.iter().zip(&fin).all(|(a, b)| a.1 == *b),
                        "not-the-best",
                        "{who}: keeps {s:?} instead of the logits {}; stream {stream}",
                        Few(&fin)
                    );
                }
            }
            let odd = s.sorted && !s.items.windows(2).all(|w| w[0].1 >= w[1].1);
            ensure!(!odd, "marked-wrongly", "{who}: claims to be sorted: {s:?}");
            // And it is usable: the greatest is picked, sorting it agrees.
            let top = s.items.iter().map(|x| x.1).fold(f32::NEG_INFINITY, f32::max);
            let good = match picked {
                Out::Tok(Some(t)) => s.get(*t) == Some(top),
                Out::Tok(None) => s.items.is_empty(),
                _ => false,
            };
            ensure!(good, "unusable", "{who}: greedy sampling gives {picked:?} from {s:?}");
            ensure!(
                sorted.same_set(s) && sorted.items.windows(2).all(|w| w[0].1 >= w[1].1),
                "unusable",
                "{who}: sorting {s:?} gives {sorted:?}"
            );
            ctx.stat("lists_built");
            Ok(())
        }
    }
}
