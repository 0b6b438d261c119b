//! Workload pieces: stage specifications, logits, histories, and the `Tap`
//! probe that records what each stage of a chain is given and gives back.

use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::{guard, panic_text, Ctx};
use crate::res::{seam_yield, Fault, SimFault, ERR_FAULTS, PANIC_FAULTS};

pub type Boxed = Box<dyn BuildableSampler<usize, f32>>;

// ------------------------------------------------------------ stage specs

#[derive(Clone, Debug, PartialEq)]
pub enum Spec {
    FlatBias(Vec<(TID, f32)>),
    FreqPres { freq: f32, pres: f32, last_n: usize },
    Rep { pen: f32, last_n: usize },
    Seq { flat: f32, stack: f32, min_len: usize, tol: usize, merge: usize, last_n: usize },
    Temp(f32),
    TopK { k: usize, keep: usize },
    TopP { p: f32, keep: usize },
    MinP { p: f32, keep: usize },
    TopA { a1: f32, a2: f32, keep: usize },
    Tail { z: f32, keep: usize },
    Typ { p: f32, keep: usize },
    Greedy,
    Rand,
    Miro1 { n_vocab: usize, m: usize, tau: f32, eta: f32, mu: Option<f32> },
    Miro2 { tau: f32, eta: f32, mu: Option<f32> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Bias,
    FreqPres,
    Rep,
    Seq,
    Temp,
    TopK,
    TopP,
    MinP,
    TopA,
    Tail,
    Typ,
    Greedy,
    Rand,
    Miro1,
    Miro2,
}
use Kind as K;

pub const HISTORY: [Kind; 3] = [K::FreqPres, K::Rep, K::Seq];
pub const FILTERS: [Kind; 6] = [K::TopK, K::TopP, K::MinP, K::TopA, K::Tail, K::Typ];
pub const SHAPERS: [Kind; 11] = [
    K::Temp, K::TopK, K::Bias, K::Rep, K::FreqPres, K::TopP, K::MinP, K::TopA, K::Tail, K::Typ, K::Seq,
];
pub const PICKERS: [Kind; 4] = [K::Rand, K::Greedy, K::Miro2, K::Miro1];
pub const RANDOM_PICKERS: [Kind; 3] = [K::Rand, K::Miro2, K::Miro1];

impl Spec {
    pub fn kind(&self) -> Kind {
        match self {
            Spec::FlatBias(_) => K::Bias,
            Spec::FreqPres { .. } => K::FreqPres,
            Spec::Rep { .. } => K::Rep,
            Spec::Seq { .. } => K::Seq,
            Spec::Temp(_) => K::Temp,
            Spec::TopK { .. } => K::TopK,
            Spec::TopP { .. } => K::TopP,
            Spec::MinP { .. } => K::MinP,
            Spec::TopA { .. } => K::TopA,
            Spec::Tail { .. } => K::Tail,
            Spec::Typ { .. } => K::Typ,
            Spec::Greedy => K::Greedy,
            Spec::Rand => K::Rand,
            Spec::Miro1 { .. } => K::Miro1,
            Spec::Miro2 { .. } => K::Miro2,
        }
    }
    pub fn is_picker(&self) -> bool {
        PICKERS.contains(&self.kind())
    }
    /// Rewrites logits and never removes a candidate.
    pub fn is_modifier(&self) -> bool {
        matches!(self.kind(), K::Bias | K::FreqPres | K::Rep | K::Seq | K::Temp)
    }
    pub fn is_history(&self) -> bool {
        HISTORY.contains(&self.kind())
    }
    /// With these options the history decides the result.
    pub fn needs_history(&self) -> bool {
        match *self {
            Spec::Rep { pen, last_n } => last_n > 0 && pen > 1.0,
            Spec::FreqPres { freq, pres, last_n } => last_n > 0 && (freq != 0.0 || pres != 0.0),
            Spec::Seq { flat, stack, min_len, last_n, .. } => {
                (flat != 0.0 || stack != 0.0) && min_len >= 2 && last_n / 2 >= min_len
            }
            _ => false,
        }
    }
    /// A penalty switched off: of nothing, or over no tokens.
    pub fn switched_off(&self) -> bool {
        match *self {
            Spec::Rep { pen, last_n } => last_n == 0 || pen == 1.0,
            Spec::FreqPres { freq, pres, last_n } => last_n == 0 || freq == 0.0 && pres == 0.0,
            Spec::Seq { flat, stack, last_n, .. } => last_n == 0 || flat == 0.0 && stack == 0.0,
            _ => false,
        }
    }
    pub fn uses_rng(&self) -> bool {
        RANDOM_PICKERS.contains(&self.kind())
    }
    pub fn min_keep(&self) -> usize {
        match *self {
            Spec::TopK { keep, .. }
            | Spec::TopP { keep, .. }
            | Spec::MinP { keep, .. }
            | Spec::TopA { keep, .. }
            | Spec::Tail { keep, .. }
            | Spec::Typ { keep, .. } => keep.max(1),
            _ => 1,
        }
    }

    /// A sampler of the same kind with other settings.
    pub fn cousin(&self) -> Spec {
        match self {
            Spec::FlatBias(_) => Spec::FlatBias(vec![(1, 0.25), (77, f32::NEG_INFINITY)]),
            Spec::FreqPres { .. } => Spec::FreqPres { freq: 0.375, pres: 0.625, last_n: 6 },
            Spec::Rep { .. } => Spec::Rep { pen: 1.375, last_n: 7 },
            Spec::Seq { .. } => Spec::Seq { flat: 0.375, stack: 0.625, min_len: 4, tol: 3, merge: 2, last_n: 31 },
            Spec::Temp(_) => Spec::Temp(0.875),
            Spec::TopK { .. } => Spec::TopK { k: 7, keep: 4 },
            Spec::TopP { .. } => Spec::TopP { p: 0.625, keep: 4 },
            Spec::MinP { .. } => Spec::MinP { p: 0.375, keep: 4 },
            Spec::TopA { .. } => Spec::TopA { a1: 0.375, a2: 1.25, keep: 4 },
            Spec::Tail { .. } => Spec::Tail { z: 0.375, keep: 4 },
            Spec::Typ { .. } => Spec::Typ { p: 0.375, keep: 4 },
            Spec::Greedy => Spec::Greedy,
            Spec::Rand => Spec::Rand,
            Spec::Miro1 { .. } => Spec::Miro1 { n_vocab: 777, m: 17, tau: 1.75, eta: 0.375, mu: Some(9.5) },
            Spec::Miro2 { .. } => Spec::Miro2 { tau: 1.75, eta: 0.375, mu: Some(9.5) },
        }
    }

    pub fn build(&self) -> Boxed {
        match self.clone() {
            Spec::FlatBias(b) => Box::new(SampleFlatBias::new(b)),
            Spec::FreqPres { freq, pres, last_n } => Box::new(SampleFreqPresence::new(freq, pres, last_n)),
            Spec::Rep { pen, last_n } => Box::new(SampleRepetition::new(pen, last_n)),
            Spec::Seq { flat, stack, min_len, tol, merge, last_n } => {
                Box::new(SampleSeqRepetition::new(flat, stack, min_len, tol, merge, last_n))
            }
            Spec::Temp(t) => Box::new(SampleTemperature::new(t)),
            Spec::TopK { k, keep } => Box::new(SampleTopK::new(k, keep)),
            Spec::TopP { p, keep } => Box::new(SampleTopP::new(p, keep)),
            Spec::MinP { p, keep } => Box::new(SampleMinP::new(p, keep)),
            Spec::TopA { a1, a2, keep } => Box::new(SampleTopA::new(a1, a2, keep)),
            Spec::Tail { z, keep } => Box::new(SampleTailFree::new(z, keep)),
            Spec::Typ { p, keep } => Box::new(SampleLocallyTypical::new(p, keep)),
            Spec::Greedy => Box::new(SampleGreedy::new()),
            Spec::Rand => Box::new(SampleRandDistrib::new()),
            Spec::Miro1 { n_vocab, m, tau, eta, mu } => {
                let s = SampleMirostat1::new(n_vocab, tau, eta).m(m);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
            Spec::Miro2 { tau, eta, mu } => {
                let s = SampleMirostat2::new(tau, eta);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
        }
    }

    /// The same sampler, made from the default one by its setters.
    pub fn build_by_setters(&self) -> Boxed {
        match self.clone() {
            Spec::FlatBias(b) => {
                let mut s = SampleFlatBias::default();
                s.extend(b);
                Box::new(s)
            }
            Spec::FreqPres { freq, pres, last_n } => {
                Box::new(SampleFreqPresence::default().last_n(last_n).frequency(freq).presence(pres))
            }
            Spec::Rep { pen, last_n } => Box::new(SampleRepetition::default().penalty(pen).last_n(last_n)),
            Spec::Seq { flat, stack, min_len, tol, merge, last_n } => Box::new(
                SampleSeqRepetition::default()
                    .stacking_penalty(stack)
                    .flat_penalty(flat)
                    .last_n(last_n)
                    .max_merge(merge)
                    .tolerance(tol)
                    .min_length(min_len),
            ),
            Spec::Temp(t) => Box::new(SampleTemperature::default().temperature(t)),
            Spec::TopK { k, keep } => Box::new(SampleTopK::default().min_keep(keep).k(k)),
            Spec::TopP { p, keep } => Box::new(SampleTopP::default().min_keep(keep).p(p)),
            Spec::MinP { p, keep } => Box::new(SampleMinP::default().min_keep(keep).p(p)),
            Spec::TopA { a1, a2, keep } => Box::new(SampleTopA::default().a2(a2).min_keep(keep).a1(a1)),
            Spec::Tail { z, keep } => Box::new(SampleTailFree::default().min_keep(keep).z(z)),
            Spec::Typ { p, keep } => Box::new(SampleLocallyTypical::default().min_keep(keep).p(p)),
            Spec::Greedy => Box::new(SampleGreedy::default()),
            Spec::Rand => Box::new(SampleRandDistrib::default()),
            Spec::Miro1 { n_vocab, m, tau, eta, mu } => {
                let s = SampleMirostat1::default().eta(eta).m(m).tau(tau).n_vocab(n_vocab);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
            Spec::Miro2 { tau, eta, mu } => {
                let s = SampleMirostat2::default().eta(eta).tau(tau);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
        }
    }

    /// The sampler nobody has configured yet.
    pub fn build_default(&self) -> Boxed {
        match self {
            Spec::FlatBias(_) | Spec::Greedy | Spec::Rand => return self.build(),
            Spec::FreqPres { .. } => Box::new(SampleFreqPresence::default()),
            Spec::Rep { .. } => Box::new(SampleRepetition::default()),
            Spec::Seq { .. } => Box::new(SampleSeqRepetition::default()),
            Spec::Temp(_) => Box::new(SampleTemperature::default()),
            Spec::TopK { .. } => Box::new(SampleTopK::default()),
            Spec::TopP { .. } => Box::new(SampleTopP::default()),
            Spec::MinP { .. } => Box::new(SampleMinP::default()),
            Spec::TopA { .. } => Box::new(SampleTopA::default()),
            Spec::Tail { .. } => Box::new(SampleTailFree::default()),
            Spec::Typ { .. } => Box::new(SampleLocallyTypical::default()),
            Spec::Miro1 { .. } => Box::new(SampleMirostat1::default()),
            Spec::Miro2 { .. } => Box::new(SampleMirostat2::default()),
        }
    }

    /// The same sampler, made from the default one by configuring it.
    pub fn build_by_text(&self) -> Boxed {
        let mut s = self.build_default();
        let text = crate::opts::Model::of(self).keys.iter().map(|(k, v)| format!("{k}={}", v.show())).collect::<Vec<_>>().join(":");
        s.configure(&text).expect("valid options are accepted");
        s
    }

    /// The sampler, kept clonable.
    pub fn build_dup(&self) -> Box<dyn Dup> {
        match self.clone() {
            Spec::FlatBias(b) => Box::new(SampleFlatBias::new(b)),
            Spec::FreqPres { freq, pres, last_n } => Box::new(SampleFreqPresence::new(freq, pres, last_n)),
            Spec::Rep { pen, last_n } => Box::new(SampleRepetition::new(pen, last_n)),
            Spec::Seq { flat, stack, min_len, tol, merge, last_n } => {
                Box::new(SampleSeqRepetition::new(flat, stack, min_len, tol, merge, last_n))
            }
            Spec::Temp(t) => Box::new(SampleTemperature::new(t)),
            Spec::TopK { k, keep } => Box::new(SampleTopK::new(k, keep)),
            Spec::TopP { p, keep } => Box::new(SampleTopP::new(p, keep)),
            Spec::MinP { p, keep } => Box::new(SampleMinP::new(p, keep)),
            Spec::TopA { a1, a2, keep } => Box::new(SampleTopA::new(a1, a2, keep)),
            Spec::Tail { z, keep } => Box::new(SampleTailFree::new(z, keep)),
            Spec::Typ { p, keep } => Box::new(SampleLocallyTypical::new(p, keep)),
            Spec::Greedy => Box::new(SampleGreedy::new()),
            Spec::Rand => Box::new(SampleRandDistrib::new()),
            Spec::Miro1 { n_vocab, m, tau, eta, mu } => {
                let s = SampleMirostat1::new(n_vocab, tau, eta).m(m);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
            Spec::Miro2 { tau, eta, mu } => {
                let s = SampleMirostat2::new(tau, eta);
                Box::new(if let Some(mu) = mu { s.mu(mu) } else { s })
            }
        }
    }

    /// The sampler and its clone.
    pub fn build_pair(&self) -> (Boxed, Boxed) {
        let a = self.build_dup();
        let b = a.dup();
        (a, b)
    }

    /// The concrete sampler behind the library's shared handle.
    pub fn build_shared(&self) -> Shared {
        use crate::res::SimMutex as M;
        match self.clone() {
            Spec::FlatBias(b) => Arc::new(M::new(SampleFlatBias::new(b))),
            Spec::FreqPres { freq, pres, last_n } => Arc::new(M::new(SampleFreqPresence::new(freq, pres, last_n))),
            Spec::Rep { pen, last_n } => Arc::new(M::new(SampleRepetition::new(pen, last_n))),
            Spec::Rand => Arc::new(M::new(SampleRandDistrib::new())),
            Spec::Greedy => Arc::new(M::new(SampleGreedy::new())),
            Spec::Miro1 { n_vocab, m, tau, eta, mu } => {
                let s = SampleMirostat1::new(n_vocab, tau, eta).m(m);
                Arc::new(M::new(if let Some(mu) = mu { s.mu(mu) } else { s }))
            }
            Spec::Miro2 { tau, eta, mu } => {
                let s = SampleMirostat2::new(tau, eta);
                Arc::new(M::new(if let Some(mu) = mu { s.mu(mu) } else { s }))
            }
            other => {
                let b: Box<dyn BuildableSampler<usize, f32>> = other.build();
                Arc::new(M::new(b))
            }
        }
    }
}

/// A sampler one can still clone.
pub trait Dup: BuildableSampler<usize, f32> {
    fn dup(&self) -> Box<dyn Dup>;
    fn any(&self) -> &dyn std::any::Any;
    /// Become a copy of another of the same type.
    fn become_copy(&mut self, of: &dyn Dup) -> bool;
    /// Its bias list, if that is what it is.
    fn bias(&mut self) -> Option<&mut Vec<(TID, f32)>>;
}
impl<T: BuildableSampler<usize, f32> + Clone + 'static> Dup for T {
    fn dup(&self) -> Box<dyn Dup> {
        Box::new(self.clone())
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn become_copy(&mut self, of: &dyn Dup) -> bool {
        match of.any().downcast_ref::<T>() {
            Some(o) => {
                self.clone_from(o);
                true
            }
            None => false,
        }
    }
    fn bias(&mut self) -> Option<&mut Vec<(TID, f32)>> {
        (self as &mut dyn std::any::Any).downcast_mut::<SampleFlatBias>().map(|b| &mut **b)
    }
}

/// The library's shared sampler handle.
pub type Shared = Arc<crate::res::SimMutex<dyn Sampler>>;

/// Parameters of one stage.  `ids` are the candidate ids in play.
pub fn gen_spec(ctx: &mut Ctx, kind: Kind, ids: &[TID]) -> Spec {
    let keep = |ctx: &mut Ctx| ctx.pick(&[1usize, 1, 2, 3, 5, 1, 2, 3, 5, 1, 50, 1, 2, 3, 5, 1, 2, 3, 5, usize::MAX]);
    let last_n = |ctx: &mut Ctx| ctx.pick(&[64usize, 1, 2, 3, 5, 8, 1000, 0, usize::MAX]);
    // Usually a value from the list, sometimes one between its extremes.
    let frac = |ctx: &mut Ctx, xs: &[f32]| {
        if ctx.chance(1, 6) {
            let (lo, hi) = xs.iter().fold((f32::MAX, f32::MIN), |a, x| (a.0.min(*x), a.1.max(*x)));
            lo + (hi - lo) * (1 + ctx.draw(99)) as f32 / 100.0
        } else if ctx.chance(1, 12) {
            // A hair off one of them.
            let hi = xs.iter().fold(f32::MIN, |a, x| a.max(*x));
            let eps = ctx.pick(&[1e-3f32, -1e-3, 1e-4, -1e-4, 1e-6, -1e-6, 5e-4, -9e-3]);
            (ctx.pick(xs) * (1.0 + eps)).min(hi)
        } else {
            ctx.pick(xs)
        }
    };
    // "Between 0 and 1" is advice; nothing stops an embedder from asking for
    // more.
    let tame = frac;
    let frac = |ctx: &mut Ctx, xs: &[f32]| {
        if ctx.chance(1, 60) {
            ctx.pick(&[1.5f32, -0.5, 40.0, -3.0, 0.0, 1.0])
        } else {
            frac(ctx, xs)
        }
    };
    // What is added to a logit may also be next to nothing.
    let add = |ctx: &mut Ctx, xs: &[f32]| {
        let x = frac(ctx, xs);
        if ctx.chance(1, 12) {
            x * ctx.pick(&[0.005f32, 0.05, 0.0005])
        } else {
            x
        }
    };
    match kind {
        K::Bias => {
            let n = match ctx.weighted(&[57, 3, 1]) {
                0 => ctx.range(1, 3),
                1 => ctx.range(8, 40),
                _ => ctx.range(65, 270),
            };
            let mut b: Vec<(TID, f32)> = vec![];
            // A long list is mostly about tokens not on offer.
            let first = if n > 60 { ctx.draw(n) } else { n };
            for i in 0..n {
                let id = if i < first && n > 60 {
                    1_000_000 + 3 * i
                } else if ids.is_empty() || ctx.chance(1, 6) {
                    900_000 + ctx.draw(5)
                } else {
                    ids[ctx.draw(ids.len() as u32) as usize]
                };
                if b.iter().all(|x| x.0 != id) {
                    // Now and then two that cancel out.
                    let bias = match b.last() {
                        Some((_, last)) if ctx.chance(1, 4) => -last,
                        _ => add(ctx, &[1.0f32, -1.5, 3.25, -8.0, 20.0, 0.0]),
                    };
                    b.push((id, bias));
                }
            }
            Spec::FlatBias(b)
        }
        K::FreqPres => Spec::FreqPres {
            freq: add(ctx, &[0.5f32, 0.05, 1.0, 2.0, 0.0, -0.25]),
            pres: add(ctx, &[0.25f32, 0.1, 1.0, 0.0, 3.0, -0.5]),
            last_n: last_n(ctx),
        },
        K::Rep => Spec::Rep { pen: tame(ctx, &[1.5f32, 1.1, 1.0625, 2.0, 10.0, 1.0125]), last_n: last_n(ctx) },
        K::Seq => Spec::Seq {
            flat: add(ctx, &[1.0f32, 0.5, 0.0, 2.5]),
            stack: add(ctx, &[0.5f32, 0.25, 1.0, 0.0]),
            min_len: ctx.pick(&[2usize, 3, 4, 2, 3, 4, 2, 3, 4, 0, 1, usize::MAX]),
            tol: ctx.pick(&[0usize, 0, 1, 2, 0, 1, 2, usize::MAX]),
            merge: ctx.pick(&[1usize, 0, 2, 1, 0, 2, 3, usize::MAX]),
            last_n: ctx.pick(&[64usize, 4, 6, 8, 12, 16, 64, 5, 7, 0, usize::MAX]),
        },
        K::Temp if ctx.chance(1, 16) => Spec::Temp(ctx.pick(&[0.004f32, 200.0, 0.0009])),
        K::Temp => Spec::Temp(tame(ctx, &[0.5f32, 0.8, 1.25, 2.0, 0.1, 5.0, 1.0, 0.05, 0.0])),
        K::TopK => Spec::TopK { k: ctx.pick(&[2usize, 1, 3, 4, 8, 40, 0, 2, 1, 3, 4, 8, 5, usize::MAX]), keep: keep(ctx) },
        K::TopP => Spec::TopP { p: frac(ctx, &[0.5f32, 0.9, 0.95, 0.1, 0.75, 1.0, 0.0]), keep: keep(ctx) },
        K::MinP => Spec::MinP { p: frac(ctx, &[0.1f32, 0.05, 0.5, 0.01, 0.9, 0.0]), keep: keep(ctx) },
        K::TopA => Spec::TopA {
            a1: frac(ctx, &[0.2f32, 0.5, 1.0, 0.05, 0.0]),
            a2: frac(ctx, &[2.0f32, 1.0, 0.5, 3.0, 0.0]),
            keep: keep(ctx),
        },
        K::Tail => Spec::Tail { z: frac(ctx, &[0.5f32, 0.25, 0.75, 0.95, 0.99, 1.0, 0.1, 0.0]), keep: keep(ctx) },
        K::Typ => Spec::Typ { p: frac(ctx, &[0.5f32, 0.2, 0.95, 0.8, 1.0, 0.0]), keep: keep(ctx) },
        K::Greedy => Spec::Greedy,
        K::Rand => Spec::Rand,
        K::Miro1 => Spec::Miro1 {
            n_vocab: if ctx.chance(1, 4) { 32_000 } else { ids.len().max(1) },
            m: ctx.pick(&[100usize, 2, 5, 1, 100, 2, 5, 3, usize::MAX]),
            tau: frac(ctx, &[2.0f32, 1.0, 3.0, 5.0, 0.5]),
            eta: frac(ctx, &[0.5f32, 0.1, 1.0, 0.25]),
            mu: if ctx.chance(1, 4) { Some(frac(ctx, &[1.5f32, 0.5, 6.0, 20.0, 0.0, -2.0])) } else { None },
        },
        K::Miro2 => Spec::Miro2 {
            tau: frac(ctx, &[2.0f32, 1.0, 3.0, 5.0, 0.5]),
            eta: frac(ctx, &[0.5f32, 0.1, 1.0, 0.25]),
            mu: if ctx.chance(1, 4) { Some(frac(ctx, &[1.5f32, 0.5, 6.0, 20.0, 0.0, -2.0])) } else { None },
        },
    }
}

// ------------------------------------------------------------------ logits

pub type Items = Vec<(TID, f32)>;

pub fn make_logits(items: &[(TID, f32)]) -> Logits {
    let mut l = Logits::try_from_iter(items.iter().map(|i| i.1)).expect("finite logits are accepted");
    for (l, i) in l.iter_mut().zip(items) {
        l.token_id = i.0;
    }
    l
}

#[derive(Clone, Copy)]
pub struct LogitOpts {
    pub lo: u32,
    pub hi: u32,
    /// First candidate id; ids are `base..base+n` in some order.
    pub base: TID,
    pub ties: bool,
    pub wide: bool,
    /// Allow lists of hundreds.
    pub long: bool,
}
impl Default for LogitOpts {
    fn default() -> Self {
        LogitOpts { lo: 1, hi: 10, base: 0, ties: true, wide: true, long: true }
    }
}

/// Lists alike in length, extremes and total weight, different within:
/// what a careless cache would take for one another.
pub fn gen_cousins(ctx: &mut Ctx, n: usize) -> Vec<Items> {
    let len = ctx.range(4, 7) as usize;
    let base = ctx.pick(&[0u32, 10]);
    let top = ctx.pick(&[8u32, 16, 32]);
    let mid = len - 2;
    // The middle weights add up to `pot`, each between 1 and `top`.
    let pot = mid as u32 * ctx.range(2, top / 2);
    (0..n)
        .map(|_| {
            let mut w = vec![pot / mid as u32; mid];
            for _ in 0..ctx.range(0, 4) {
                let (i, j) = (ctx.draw(mid as u32) as usize, ctx.draw(mid as u32) as usize);
                if i != j {
                    let d = ctx.range(1, top).min(w[i] - 1).min(top - w[j]);
                    w[i] -= d;
                    w[j] += d;
                }
            }
            w.insert(0, top);
            w.push(1);
            w.iter().enumerate().map(|(i, w)| (base + i as u32, (*w as f32).ln())).collect()
        })
        .collect()
}

pub fn gen_items(ctx: &mut Ctx, o: LogitOpts) -> Items {
    // Mostly short lists; now and then ones long enough for size thresholds.
    let n = match ctx.weighted(&[2750, 225, if o.long { 50 } else { 0 }, if o.long && o.base == 0 { 3 } else { 0 }]) {
        0 => ctx.range(o.lo, o.hi),
        1 => o.hi * 4,
        2 => ctx.pick(&[64u32, 65, 100, 129, 200, 257, 400]),
        _ => return gen_vocabulary(ctx, o),
    } as usize;
    let shape = ctx.weighted(&[2, 5, 2, if o.wide { 2 } else { 0 }, if o.ties { 1 } else { 0 }, 3, o.wide as u32]);
    let reversed = ctx.chance(1, 2);
    let mut v: Vec<f32> = match shape {
        // A plain descending ramp.
        0 => (0..n).map(|i| (n - i) as f32 * 0.5).collect(),
        // Random, possibly tied.
        1 => (0..n).map(|_| ctx.draw(41) as f32 * 0.25 - 5.0).collect(),
        // One or two candidates dominate.
        2 => {
            let hot = ctx.draw(n.max(1) as u32) as usize;
            let top = ctx.pick(&[9.0f32, 9.0, 11.0, 12.5]);
            (0..n).map(|i| if i == hot { top } else { ctx.draw(8) as f32 * 0.25 }).collect()
        }
        // So wide that probabilities underflow.
        3 => (0..n).map(|_| ctx.draw(81) as f32 * 5.0 - 200.0).collect(),
        4 => {
            let x = ctx.pick(&[0.0f32, 1.0, -3.0]);
            vec![x; n]
        }
        // Far beyond what the exponential can tell apart.
        6 => (0..n).map(|_| ctx.draw(41) as f32 * 500.0 - 10_000.0).collect(),
        // Closer to one another still.
        5 if ctx.chance(1, 5) => (0..n).map(|_| 2.0 + ctx.draw(64) as f32 * 0.001).collect(),
        // Near-uniform with small differences.
        _ => (0..n).map(|_| ctx.draw(64) as f32 * 0.03).collect(),
    };
    if !o.ties {
        // Push ties apart.
        for (i, x) in v.iter_mut().enumerate() {
            *x += (i as f32) * 0.0078125;
        }
        let mut s = v.clone();
        s.sort_by(f32::total_cmp);
        if s.windows(2).any(|w| w[0] == w[1]) {
            v = (0..n).map(|i| (n - i) as f32 * 0.375).collect();
        }
    }
    if reversed {
        v.reverse();
    }
    let rot = if n > 1 { ctx.draw(n as u32) } else { 0 };
    let base = if o.base == 0 && ctx.chance(1, 12) { ctx.pick(&[50_000u32, 4_000_000_000]) } else { o.base };
    // Ids alike in their lower bits.
    let stride = if base == 50_000 && ctx.chance(1, 2) { ctx.pick(&[65_536u32, 256, 1 << 20]) } else { 1 };
    v.into_iter()
        .enumerate()
        .map(|(i, x)| (base + (i as u32 + rot) % n.max(1) as u32 * stride, x))
        .collect()
}

/// A list the size of a model's vocabulary.
fn gen_vocabulary(ctx: &mut Ctx, o: LogitOpts) -> Items {
    let n = match ctx.weighted(&[6, 4, 1]) {
        0 => ctx.pick(&[513u32, 777, 1000, 1025]),
        1 => ctx.pick(&[2049u32, 3000, 4097]),
        _ => ctx.pick(&[10_000u32, 33_000, 66_000]),
    };
    let mut r = crate::ctx::Prng::new(ctx.seed());
    let shape = ctx.weighted(&[3, 2, 1, o.wide as u32]);
    let hot = r.below(n);
    let base = ctx.pick(&[0u32, 50_000]);
    (0..n)
        .map(|i| {
            let u = (r.next() >> 40) as f32 / (1u32 << 24) as f32;
            let x = match shape {
                // Peaked, as a model's are.
                0 => 12.0 * u.powi(6) - 3.0 + if i == hot { 2.0 } else { 0.0 },
                1 => u * 0.5,
                2 => n as f32 * 0.01 - i as f32 * 0.01,
                _ => 200.0 * u - 100.0,
            };
            // Ties are pushed apart only where asked for.
            (base + i, if o.ties { (x * 64.0).round() / 64.0 } else { x + i as f32 * 1e-5 })
        })
        .collect()
}

/// A token history over candidate ids and foreign ids; repeats are common.
pub fn gen_hist(ctx: &mut Ctx, ids: &[TID], max: u32) -> Vec<TID> {
    let n = if ctx.chance(1, 40) { ctx.range(40, 160) } else { ctx.range(0, max) } as usize;
    let mut h: Vec<TID> = vec![];
    let alphabet = if n >= 40 { ctx.pick(&[5u32, 1, 2, 40, 200]) } else { ctx.range(1, 5) };
    while h.len() < n {
        match ctx.weighted(&[6, 2, 1]) {
            1 if h.len() >= 2 => {
                // Repeat a recent run, so sequences recur.
                let l = ctx.range(2, 4.min(h.len() as u32)) as usize;
                let at = ctx.draw((h.len() - l + 1) as u32) as usize;
                let part = h[at..at + l].to_vec();
                h.extend(part);
            }
            2 => h.push(800_000 + ctx.draw(3)),
            _ if ids.is_empty() => h.push(800_000),
            _ => {
                let k = ctx.draw((ids.len() as u32).min(alphabet)) as usize;
                h.push(ids[k]);
            }
        }
    }
    h
}

/// What comes before `h` in a session that has gone on for long.
pub fn long_hist(ctx: &mut Ctx, ids: &[TID], h: &mut Vec<TID>) {
    let n = ctx.pick(&[255u32, 256, 257, 300, 513, 1025, 2049, 4097]) as usize;
    let alphabet = ctx.pick(&[1usize, 3, 17, 300]).min(ids.len());
    let mut r = crate::ctx::Prng::new(ctx.seed());
    let mut v: Vec<TID> = (h.len()..n)
        .map(|_| if alphabet == 0 || r.below(20) == 0 { 800_000 + r.below(3) } else { ids[r.below(alphabet as u32) as usize] })
        .collect();
    v.append(h);
    *h = v;
}

// --------------------------------------------------------------- snapshots

#[derive(Clone)]
pub struct Snap {
    pub items: Vec<(TID, f32, f32)>,
    pub sorted: bool,
    pub softmax: bool,
    index: std::sync::OnceLock<std::collections::BTreeMap<TID, usize>>,
}

impl Snap {
    pub fn of(l: &Logits) -> Self {
        Snap {
            items: l.iter().map(|l| (l.token_id, l.logit, l.prob)).collect(),
            sorted: l.get_sorted(),
            softmax: l.get_softmax(),
            index: Default::default(),
        }
    }
    pub fn ids(&self) -> Vec<TID> {
        self.items.iter().map(|i| i.0).collect()
    }
    pub fn get(&self, id: TID) -> Option<f32> {
        self.at(id).map(|i| self.items[i].1)
    }
    /// Where a token is in the list.
    pub fn at(&self, id: TID) -> Option<usize> {
        if self.items.len() <= 64 {
            return self.items.iter().position(|i| i.0 == id);
        }
        let m = self.index.get_or_init(|| self.items.iter().enumerate().rev().map(|(i, x)| (x.0, i)).collect());
        m.get(&id).copied()
    }
    /// Same candidates with bit-identical logits, in any order.
    pub fn same_set(&self, o: &Snap) -> bool {
        self.key() == o.key()
    }
    pub fn key(&self) -> Vec<(TID, u32)> {
        let mut v: Vec<_> = self.items.iter().map(|i| (i.0, i.1.to_bits())).collect();
        v.sort_unstable();
        v
    }
    /// Softmax in f64 over the candidates, in list order.
    pub fn softmax64(&self) -> Vec<f64> {
        let m = self.items.iter().map(|i| i.1 as f64).fold(f64::NEG_INFINITY, f64::max);
        let e: Vec<f64> = self.items.iter().map(|i| (i.1 as f64 - m).exp()).collect();
        let s: f64 = e.iter().sum();
        e.into_iter().map(|x| x / s).collect()
    }
}

impl PartialEq for Snap {
    fn eq(&self, o: &Snap) -> bool {
        let same = |a: f32, b: f32| a == b || (a.is_nan() && b.is_nan());
        (self.sorted, self.softmax, self.items.len()) == (o.sorted, o.softmax, o.items.len())
            && self.items.iter().zip(&o.items).all(|(a, b)| a.0 == b.0 && same(a.1, b.1) && same(a.2, b.2))
    }
}

impl std::fmt::Debug for Snap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[")?;
        for (i, (t, l, p)) in self.items.iter().enumerate() {
            if i == 500 {
                write!(f, " and {} more", self.items.len() - i)?;
                break;
            }
            write!(f, "{}{t}:{l}", if i > 0 { " " } else { "" })?;
            if self.softmax {
                write!(f, "({p})")?;
            }
        }
        write!(f, "]{}{}", if self.sorted { " sorted" } else { "" }, if self.softmax { " softmax" } else { "" })
    }
}

// -------------------------------------------------------------- outcomes

/// What a call gave its caller.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// `sample_token`: the token; `sample`: `None`.
    Tok(Option<TID>),
    Err(String),
    /// A panic that carried an injected fault.
    Fault(u32),
    Panic(String),
}

impl Out {
    pub fn token(&self) -> Option<TID> {
        match self {
            Out::Tok(t) => *t,
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Tok(_))
    }
}

pub fn err_text(e: &SamplerError) -> String {
    format!("{e:?}")
}

/// Run a sampler call, catching panics.
pub fn call(f: impl FnOnce() -> Result<Option<TID>, SamplerError>) -> Out {
    match guard(f) {
        Ok(Ok(t)) => Out::Tok(t),
        Ok(Err(e)) => Out::Err(err_text(&e)),
        Err(p) => match p.downcast_ref::<SimFault>() {
            Some(f) => Out::Fault(f.0),
            None => Out::Panic(panic_text(p.as_ref())),
        },
    }
}

// ------------------------------------------------------------------ faults

/// One fault for a call: an access index near the start, and a kind.
pub fn gen_fault(ctx: &mut Ctx, id: u32, panics: bool) -> (u32, Fault, u32) {
    let at = ctx.weighted(&[6, 3, 1]) as u32;
    let kind = if panics && ctx.chance(1, 3) { ctx.pick(&PANIC_FAULTS) } else { ctx.pick(&ERR_FAULTS) };
    (at, kind, id)
}

// --------------------------------------------------------------------- Tap

#[derive(Clone, Debug)]
pub struct StageRec {
    pub stage: usize,
    pub before: Snap,
    pub after: Snap,
    /// `None`: panicked.
    pub ok: Option<bool>,
    pub token: Option<TID>,
    pub opts_before: Vec<(&'static str, String)>,
    pub opts_after: Vec<(&'static str, String)>,
}

impl StageRec {
    pub fn opt(&self, after: bool, key: &str) -> Option<f32> {
        let o = if after { &self.opts_after } else { &self.opts_before };
        o.iter().find(|x| x.0 == key).and_then(|x| x.1.parse().ok())
    }
}

pub type TapLog = Arc<Mutex<Vec<StageRec>>>;

/// Stands in a chain in place of `inner`, forwards everything to it and
/// records what goes in and what comes out.
#[derive(Debug)]
pub struct Tap {
    pub stage: usize,
    pub inner: Boxed,
    pub log: TapLog,
    pub counter: Arc<std::sync::atomic::AtomicU32>,
    pub yields: bool,
}

impl Tap {
    fn opts(&self) -> Vec<(&'static str, String)> {
        options(&self.inner)
    }
    fn run<T>(&mut self, logits: &mut Logits, f: impl FnOnce(&mut Boxed, &mut Logits) -> Result<T, SamplerError>) -> Result<T, SamplerError> {
        if self.yields {
            seam_yield("between stages");
        }
        self.counter.store(self.stage as u32, std::sync::atomic::Ordering::SeqCst);
        let before = Snap::of(logits);
        let opts_before = self.opts();
        let inner = &mut self.inner;
        let l2 = &mut *logits;
        let r = guard(move || f(inner, l2));
        let rec = StageRec {
            stage: self.stage,
            before,
            after: Snap::of(logits),
            ok: r.as_ref().ok().map(|r| r.is_ok()),
            token: self.inner.sampled_token_id(),
            opts_before,
            opts_after: self.opts(),
        };
        self.log.lock().unwrap().push(rec);
        match r {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        }
    }
}

impl Sampler for Tap {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        Sampler::sample_prepend(&*self.inner, res)
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, logits: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.run(logits, |s, l| s.sample(res, l).map(|_| ()))?;
        Ok(logits)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.inner.sampled_token_id()
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, logits: &mut Logits) -> Result<Option<TID>, SamplerError> {
        self.run(logits, |s, l| s.sample_token(res, l))
    }
}

/// A sampler's options as (key, value) text, read through its option list.
pub fn options(s: &Boxed) -> Vec<(&'static str, String)> {
    HasSamplerMetadata::<usize, f32>::sampler_options(&**s)
        .iter()
        .map(|(md, v)| {
            (
                md.key,
                match v {
                    Some(SamplerOptionValue::UInt(u)) => format!("{u}"),
                    Some(SamplerOptionValue::Float(f)) => format!("{f:?}"),
                    Some(SamplerOptionValue::Bool(b)) => format!("{b}"),
                    Some(SamplerOptionValue::String(s)) => s.to_string(),
                    None => "-".to_string(),
                },
            )
        })
        .collect()
}

/// A chain whose every stage is tapped.
pub fn tapped_chain(specs: &[Spec], log: &TapLog, counter: &Arc<std::sync::atomic::AtomicU32>, yields: bool) -> SamplerChain {
    let mut c = SamplerChain::new();
    for (i, s) in specs.iter().enumerate() {
        c.push_sampler(Tap { stage: i, inner: s.build(), log: log.clone(), counter: counter.clone(), yields });
    }
    c
}

/// Two such chains whose samplers are clones of each other.
pub fn tapped_twins(
    specs: &[Spec],
    logs: [&TapLog; 2],
    counters: [&Arc<std::sync::atomic::AtomicU32>; 2],
    yields: bool,
) -> [SamplerChain; 2] {
    let mut c = [SamplerChain::new(), SamplerChain::new()];
    for (i, s) in specs.iter().enumerate() {
        let (a, b) = s.build_pair();
        for (k, inner) in [a, b].into_iter().enumerate() {
            c[k].push_sampler(Tap { stage: i, inner, log: logs[k].clone(), counter: counters[k].clone(), yields });
        }
    }
    c
}

pub fn plain_chain(specs: &[Spec]) -> SamplerChain {
    let mut c = SamplerChain::new();
    for s in specs {
        c.push_sampler(s.build());
    }
    c
}
