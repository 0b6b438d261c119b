//! Reference model of a configurable sampler's options.

use std::borrow::Cow;

use llm_samplers::configure::*;

use crate::ctx::Ctx;
use crate::gen::*;

#[derive(Clone, Debug)]
pub enum Val {
    U(usize),
    F(f32),
    B(bool),
    S(String),
}

impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.same_type(o) && self.show() == o.show()
    }
}

impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::U(u) => format!("{u}"),
            Val::F(f) => format!("{f:?}"),
            Val::B(b) => format!("{b}"),
            Val::S(s) => s.clone(),
        }
    }
    fn same_type(&self, o: &Val) -> bool {
        std::mem::discriminant(self) == std::mem::discriminant(o)
    }
    pub fn to_option(&self) -> SamplerOptionValue<'static> {
        match self {
            Val::U(u) => SamplerOptionValue::UInt(*u as u64),
            Val::F(f) => SamplerOptionValue::Float(*f as f64),
            Val::B(b) => SamplerOptionValue::Bool(*b),
            Val::S(s) => SamplerOptionValue::String(Cow::Owned(s.clone())),
        }
    }
    pub fn of_option(v: &SamplerOptionValue) -> Val {
        match v {
            SamplerOptionValue::UInt(u) => Val::U(*u as usize),
            SamplerOptionValue::Float(f) => Val::F(*f as f32),
            SamplerOptionValue::Bool(b) => Val::B(*b),
            SamplerOptionValue::String(s) => Val::S(s.to_string()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Model {
    pub keys: Vec<(&'static str, Val)>,
    /// The custom sampler's hooks are in force.
    pub custom: bool,
    /// ... and its hook after setting fails once the flag is up.
    pub fussy: bool,
    /// What the hook after setting was called for.
    pub post: Vec<&'static str>,
    /// Whether not-a-number counts as a value; nothing says, so the
    /// oracles try both.
    pub no_nan: bool,
}

impl Model {
    pub fn plain(keys: Vec<(&'static str, Val)>) -> Model {
        Model { keys, custom: false, fussy: false, post: vec![], no_nan: false }
    }

    /// The options of a sampler nobody has configured yet, as documented;
    /// where the documentation contradicts itself, as the sampler says.
    pub fn of_default(spec: &Spec, says: &[(&'static str, String)]) -> Model {
        let d = match spec {
            Spec::FlatBias(_) | Spec::Greedy | Spec::Rand => spec.clone(),
            Spec::FreqPres { .. } => Spec::FreqPres { freq: 0.0, pres: 0.0, last_n: 64 },
            Spec::Rep { .. } => Spec::Rep { pen: 1.1, last_n: 64 },
            Spec::Seq { .. } => Spec::Seq { flat: 0.0, stack: 0.0, min_len: 4, tol: 0, merge: 1, last_n: 64 },
            Spec::Temp(_) => Spec::Temp(1.0),
            Spec::TopK { .. } => Spec::TopK { k: 40, keep: 1 },
            Spec::TopP { .. } => Spec::TopP { p: 0.9, keep: 1 },
            Spec::MinP { .. } => Spec::MinP { p: 0.05, keep: 1 },
            Spec::TopA { .. } => Spec::TopA { a1: 0.2, a2: 2.0, keep: 1 },
            Spec::Tail { .. } => Spec::Tail { z: 1.0, keep: 1 },
            Spec::Typ { .. } => Spec::Typ { p: 1.0, keep: 1 },
            Spec::Miro1 { .. } => Spec::Miro1 { n_vocab: 0, m: 100, tau: 5.0, eta: 0.1, mu: None },
            Spec::Miro2 { .. } => Spec::Miro2 { tau: 5.0, eta: 0.1, mu: None },
        };
        let mut m = Model::of(&d);
        let unsure = match spec {
            Spec::Temp(_) => "temperature",
            Spec::MinP { .. } => "p",
            Spec::Seq { .. } => "min_length",
            _ => return m,
        };
        if let Some((_, t)) = says.iter().find(|x| x.0 == unsure) {
            match m.get(unsure) {
                Some(Val::F(_)) => m.put(unsure, Val::F(t.parse().unwrap_or(f32::NAN))),
                _ => m.put(unsure, Val::U(t.parse().unwrap_or(0))),
            }
        }
        m
    }

    /// Why a name is refused.
    pub fn why_not(&self, key: &str) -> Option<&'static str> {
        let key = key.trim();
        match self.resolve(key) {
            Some(_) => None,
            None if self.keys.iter().any(|k| k.0.starts_with(key)) => Some("an ambiguous name"),
            None => Some("an unknown name"),
        }
    }

    pub fn of(spec: &Spec) -> Model {
        use Val::*;
        let keys = match *spec {
            Spec::FlatBias(_) | Spec::Greedy | Spec::Rand => vec![],
            Spec::FreqPres { freq, pres, last_n } => {
                vec![("frequency_penalty", F(freq)), ("presence_penalty", F(pres)), ("last_n", U(last_n))]
            }
            Spec::Rep { pen, last_n } => vec![("penalty", F(pen)), ("last_n", U(last_n))],
            Spec::Seq { flat, stack, min_len, tol, merge, last_n } => vec![
                ("flat_penalty", F(flat)),
                ("stacking_penalty", F(stack)),
                ("min_length", U(min_len)),
                ("tolerance", U(tol)),
                ("max_merge", U(merge)),
                ("last_n", U(last_n)),
            ],
            Spec::Temp(t) => vec![("temperature", F(t))],
            Spec::TopK { k, keep } => vec![("k", U(k)), ("min_keep", U(keep))],
            Spec::TopP { p, keep } | Spec::MinP { p, keep } | Spec::Typ { p, keep } => {
                vec![("p", F(p)), ("min_keep", U(keep))]
            }
            Spec::TopA { a1, a2, keep } => vec![("a1", F(a1)), ("a2", F(a2)), ("min_keep", U(keep))],
            Spec::Tail { z, keep } => vec![("z", F(z)), ("min_keep", U(keep))],
            Spec::Miro1 { n_vocab, m, tau, eta, mu } => vec![
                ("tau", F(tau)),
                ("eta", F(eta)),
                ("mu", F(mu.unwrap_or(tau * 2.0))),
                ("m", U(m)),
                ("n_vocab", U(n_vocab)),
            ],
            Spec::Miro2 { tau, eta, mu } => {
                vec![("tau", F(tau)), ("eta", F(eta)), ("mu", F(mu.unwrap_or(tau * 2.0)))]
            }
        };
        Model::plain(keys)
    }

    pub fn get(&self, key: &str) -> Option<&Val> {
        self.keys.iter().find(|k| k.0 == key).map(|k| &k.1)
    }
    pub fn put(&mut self, key: &str, v: Val) {
        if let Some(k) = self.keys.iter_mut().find(|k| k.0 == key) {
            k.1 = v;
        }
    }
    fn f(&self, k: &str) -> f32 {
        match self.get(k) {
            Some(Val::F(f)) => *f,
            o => panic!("no float option {k}: {o:?}"),
        }
    }
    fn u(&self, k: &str) -> usize {
        match self.get(k) {
            Some(Val::U(u)) => *u,
            o => panic!("no integer option {k}: {o:?}"),
        }
    }

    /// The sampler one would construct with these settings.
    pub fn spec(&self, like: &Spec) -> Spec {
        match like {
            Spec::FlatBias(_) | Spec::Greedy | Spec::Rand => like.clone(),
            Spec::FreqPres { .. } => Spec::FreqPres {
                freq: self.f("frequency_penalty"),
                pres: self.f("presence_penalty"),
                last_n: self.u("last_n"),
            },
            Spec::Rep { .. } => Spec::Rep { pen: self.f("penalty"), last_n: self.u("last_n") },
            Spec::Seq { .. } => Spec::Seq {
                flat: self.f("flat_penalty"),
                stack: self.f("stacking_penalty"),
                min_len: self.u("min_length"),
                tol: self.u("tolerance"),
                merge: self.u("max_merge"),
                last_n: self.u("last_n"),
            },
            Spec::Temp(_) => Spec::Temp(self.f("temperature")),
            Spec::TopK { .. } => Spec::TopK { k: self.u("k"), keep: self.u("min_keep") },
            Spec::TopP { .. } => Spec::TopP { p: self.f("p"), keep: self.u("min_keep") },
            Spec::MinP { .. } => Spec::MinP { p: self.f("p"), keep: self.u("min_keep") },
            Spec::Typ { .. } => Spec::Typ { p: self.f("p"), keep: self.u("min_keep") },
            Spec::TopA { .. } => Spec::TopA { a1: self.f("a1"), a2: self.f("a2"), keep: self.u("min_keep") },
            Spec::Tail { .. } => Spec::Tail { z: self.f("z"), keep: self.u("min_keep") },
            Spec::Miro1 { .. } => Spec::Miro1 {
                n_vocab: self.u("n_vocab"),
                m: self.u("m"),
                tau: self.f("tau"),
                eta: self.f("eta"),
                mu: Some(self.f("mu")),
            },
            Spec::Miro2 { .. } => Spec::Miro2 { tau: self.f("tau"), eta: self.f("eta"), mu: Some(self.f("mu")) },
        }
    }

    /// An exact name, else an unambiguous prefix.
    pub fn resolve(&self, key: &str) -> Option<usize> {
        let key = key.trim();
        if let Some(i) = self.keys.iter().position(|k| k.0 == key) {
            return Some(i);
        }
        let hits: Vec<usize> = (0..self.keys.len()).filter(|i| self.keys[*i].0.starts_with(key)).collect();
        match hits[..] {
            [i] => Some(i),
            _ => None,
        }
    }

    /// Set one option; false (and nothing changed) if it is refused.
    pub fn set(&mut self, key: &str, v: Val) -> bool {
        let Some(i) = self.resolve(key) else { return false };
        self.set_at(i, v)
    }
    fn set_at(&mut self, i: usize, mut v: Val) -> bool {
        if self.no_nan && matches!(v, Val::F(f) if f.is_nan()) {
            return false;
        }
        if self.custom {
            match (self.keys[i].0, &mut v) {
                ("alpha", Val::U(u)) if *u > 100 => return false,
                ("alphabet", Val::F(f)) => *f = f.min(1.0),
                _ => (),
            }
        }
        if !self.keys[i].1.same_type(&v) {
            return false;
        }
        self.keys[i].1 = v;
        if self.custom {
            self.post.push(self.keys[i].0);
            if self.fussy && self.keys[i] == ("flag", Val::B(true)) {
                return false;
            }
        }
        if !self.custom && self.keys[i].0 == "tau" {
            let t = self.f("tau");
            self.put("mu", Val::F(t * 2.0));
        }
        true
    }

    /// Apply a description.  Returns whether all of it is acceptable; on
    /// refusal the parts before the first bad one have been applied.
    pub fn configure(&mut self, text: &str) -> bool {
        for part in text.split(':').map(str::trim).filter(|p| !p.is_empty()) {
            let (k, v) = part.split_once('=').unwrap_or(("", part));
            let Some(i) = self.resolve(k) else { return false };
            let Some(v) = parse(&self.keys[i].1, v.trim()) else { return false };
            if !self.set_at(i, v) {
                return false;
            }
        }
        true
    }

    /// As `configure`, where the text's not-a-numbers count as values or not
    /// depending on what happened.
    pub fn configure_as(&mut self, text: &str, accepted: bool) -> bool {
        let before = self.clone();
        let ok = self.configure(text);
        if ok != accepted && text.to_lowercase().contains("nan") {
            let mut alt = Model { no_nan: true, ..before };
            if alt.configure(text) == accepted {
                alt.no_nan = false;
                *self = alt;
                return accepted;
            }
        }
        ok
    }
    /// As `set`, likewise.
    pub fn set_as(&mut self, key: &str, v: Val, accepted: bool) -> bool {
        if !accepted && matches!(v, Val::F(f) if f.is_nan()) {
            return false;
        }
        self.set(key, v)
    }

    pub fn show(&self) -> Vec<(&'static str, String)> {
        let mut v: Vec<_> = self.keys.iter().map(|(k, v)| (*k, v.show())).collect();
        v.sort();
        v
    }
}

fn parse(like: &Val, s: &str) -> Option<Val> {
    Some(match like {
        Val::U(_) => Val::U(s.parse::<u64>().ok()? as usize),
        Val::F(_) => Val::F(s.parse::<f64>().ok()? as f32),
        Val::B(_) => Val::B(match s {
            "true" | "t" | "yes" | "1" => true,
            "false" | "f" | "no" | "0" => false,
            _ => return None,
        }),
        Val::S(_) => Val::S(s.to_string()),
    })
}

pub fn shown(s: &Boxed) -> Vec<(&'static str, String)> {
    let mut v = options(s);
    v.sort();
    v
}

/// A value text for the option, good or bad.
fn gen_text(ctx: &mut Ctx, like: &Val) -> String {
    let bad = ctx.chance(1, 6);
    match like {
        Val::U(_) if bad => ctx.pick(&["x", "-1", "1.5", "", "18446744073709551616"]),
        Val::U(_) if ctx.chance(1, 8) => {
            ctx.pick(&["4294967297", "9007199254740993", "18446744073709551615", "9223372036854775808", "0", "+3"])
        }
        Val::U(_) => ctx.pick(&["2", "1", "3", "5", "64", "007", " 4 "]),
        Val::F(_) if bad => ctx.pick(&["x", "", "1,5", "--1", "0x1"]),
        Val::F(_) if ctx.chance(1, 8) => {
            ctx.pick(&["inf", "-inf", "INF", "+inf", "nan", "NaN", "-0", "1e-3", "0.1", "16777217", "-2.5E2", "+.75"])
        }
        Val::F(_) => ctx.pick(&["0.5", "0.25", "0.75", "1.5", "2", ".5", " 1e0 ", "3."]),
        Val::B(_) if bad => ctx.pick(&["maybe", "", "2"]),
        Val::B(_) => ctx.pick(&["true", "t", "yes", "1", "false", "f", "no", "0"]),
        Val::S(_) => ctx.pick(&["plain", "with space", "", " trimmed "]),
    }
    .to_string()
}

/// A way to name option `i`: in full, by a prefix, or wrongly.
pub fn gen_key(ctx: &mut Ctx, m: &Model, i: usize) -> String {
    let full = m.keys[i].0;
    match ctx.weighted(&[4, 4, 1, 1]) {
        0 => full.to_string(),
        1 => full[..ctx.range(1, full.len() as u32) as usize].to_string(),
        2 => ctx.pick(&["nope", "zz", "P", "_"]).to_string(),
        _ => format!("{full}_"),
    }
}

pub fn gen_config(ctx: &mut Ctx, m: &Model) -> String {
    let mut parts = vec![];
    for _ in 0..ctx.weighted(&[3, 3, 2, 1]) + 1 {
        if m.keys.is_empty() {
            parts.push(ctx.pick(&["", "x=1", "5", " "]).to_string());
            continue;
        }
        let i = ctx.draw(m.keys.len() as u32) as usize;
        let v = gen_text(ctx, &m.keys[i].1);
        parts.push(match ctx.weighted(&[8, 1, 1, 1]) {
            0 => format!("{}={v}", gen_key(ctx, m, i)),
            1 => v,
            2 => format!("  {} = {v}  ", gen_key(ctx, m, i)),
            _ => String::new(),
        });
    }
    parts.join(":")
}

pub fn gen_val(ctx: &mut Ctx, like: &Val) -> Val {
    let like = if ctx.chance(1, 6) {
        ctx.pick(&[Val::U(0), Val::F(0.0), Val::B(false), Val::S(String::new())])
    } else {
        like.clone()
    };
    match like {
        Val::U(_) if ctx.chance(1, 8) => {
            Val::U(ctx.pick(&[4_294_967_297usize, 9_007_199_254_740_993, usize::MAX, 1 << 63, 0]))
        }
        Val::U(_) => Val::U(ctx.pick(&[2usize, 1, 3, 5, 64])),
        Val::F(_) if ctx.chance(1, 8) => {
            Val::F(ctx.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -0.0, 0.1, 1e-30, f32::MAX, f32::MIN_POSITIVE / 8.0]))
        }
        Val::F(_) => Val::F(ctx.pick(&[0.5f32, 0.25, 0.75, 1.5, 2.0])),
        Val::B(_) => Val::B(ctx.chance(1, 2)),
        Val::S(_) => Val::S(ctx.pick(&["a", "bb"]).to_string()),
    }
}
