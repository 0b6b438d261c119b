//! C16: option text carries a sampler's settings exactly, through restarts
//! too.

use std::borrow::Cow;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;
use llm_samplers_simstd::sim;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::*;
use crate::res::*;
use crate::session::*;

pub fn run(ctx: &mut Ctx) -> Check {
    if ctx.weighted(&[3, 2]) == 0 {
        restarts(ctx)
    } else {
        match ctx.draw(6) {
            0 => operators::<u64, f64>(ctx),
            1 => operators::<u8, f32>(ctx),
            2 => operators::<u16, f64>(ctx),
            3 => operators::<i32, f32>(ctx),
            4 => operators::<usize, f32>(ctx),
            _ => operators::<i8, f64>(ctx),
        }
    }
}

// --------------------------------------------------------------- restarts

/// What became of one stage's text on its way to the store.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Wear {
    Whole,
    /// Never written: the text of the save before stays.
    Lost,
    /// Only the first part was written (in thousandths).
    Torn(u32),
    /// One character is another one.
    Garbled(u32, char),
    /// Written behind the rest of the text before.
    Doubled,
}

#[derive(Clone, Debug)]
enum Step {
    Call(CallPlan),
    Conf(usize, String),
    Save(Vec<Wear>, Style),
    /// The process dies here.
    Crash,
}

/// How the embedder writes settings out.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Style {
    /// Names cut to an unambiguous prefix where there is one.
    short: bool,
    /// Spaces around everything.
    airy: bool,
    /// How numbers are written.
    num: u32,
}

/// A session's effective history: what it would be without crashes.
#[derive(Clone, Debug)]
enum Eff {
    Step(Step),
    /// Stages made anew with these settings.
    Anew(Vec<Spec>),
}

#[derive(Clone, Debug)]
struct Done {
    eff: Eff,
    got: String,
}

#[derive(Clone)]
struct Saved {
    text: Vec<String>,
    /// Whether the text is all that was written, stage by stage.
    whole: bool,
    rng: Option<SimRng>,
    hist: Option<Vec<TID>>,
    /// How much of the effective history it stands for.
    at: usize,
}

#[derive(Clone, Debug)]
struct Plan {
    base: SessionPlan,
    boot: Vec<Spec>,
    steps: Vec<Step>,
}

type Stages = Vec<Box<dyn Dup>>;

fn opts_of(s: &dyn Dup) -> Vec<(&'static str, Val)> {
    HasSamplerMetadata::<usize, f32>::sampler_options(s)
        .iter()
        .map(|(md, v)| {
            let v = match v.as_ref().expect("the library's own options can be read") {
                SamplerOptionValue::UInt(u) => Val::U(*u),
                SamplerOptionValue::Float(f) => Val::F(*f),
                SamplerOptionValue::Bool(b) => Val::B(*b),
                SamplerOptionValue::String(s) => Val::S(s.to_string()),
            };
            (md.key, v)
        })
        .collect()
}

fn sorted(v: Vec<(&'static str, Val)>) -> Vec<(&'static str, String)> {
    let mut v: Vec<_> = v.into_iter().map(|(k, v)| (k, v.show())).collect();
    v.sort();
    v
}

/// Write a sampler's settings out, in the order it lists them.
fn write_out(s: &dyn Dup, st: Style) -> String {
    let o = opts_of(s);
    let m = Model::plain(o.clone());
    let mut parts = vec![];
    for (i, (k, v)) in o.iter().enumerate() {
        let mut name = k.to_string();
        if st.short {
            if let Some(n) = (1..k.len()).find(|n| m.resolve(&k[..*n]) == Some(i)) {
                name.truncate(n);
            }
        }
        let val = match v {
            Val::F(f) => match st.num {
                0 => format!("{}", *f as f64),
                1 => format!("{:e}", *f as f64),
                2 => format!("{f}"),
                _ => format!("{:?}", *f as f64),
            },
            Val::U(u) if st.num == 1 => format!("00{u}"),
            other => other.show(),
        };
        parts.push(if st.airy { format!(" {name}\t=  {val} ") } else { format!("{name}={val}") });
    }
    let mut t = parts.join(":");
    if st.airy {
        t = format!(": {t} :\n");
    }
    t
}

fn wear(text: &str, before: &str, w: Wear) -> String {
    match w {
        Wear::Whole => text.to_string(),
        Wear::Lost => before.to_string(),
        Wear::Torn(p) => {
            let mut n = text.len() * p as usize / 1000;
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            text[..n].to_string()
        }
        Wear::Garbled(p, c) => {
            let n = text.chars().count();
            if n == 0 {
                return c.to_string();
            }
            let at = (n - 1) * p as usize / 1000;
            text.chars().enumerate().map(|(i, x)| if i == at { c } else { x }).collect()
        }
        Wear::Doubled => format!("{text}:{text}"),
    }
}

fn one(stages: &mut Stages, res: &mut SimRes, st: &Step) -> (String, bool) {
    let mut died = false;
    let what = match st {
        Step::Conf(i, t) => match guard(|| stages[*i].configure(t)) {
            Ok(Ok(())) => format!("configured {i}"),
            Ok(Err(_)) => format!("configuration of {i} refused"),
            Err(p) => format!("configuring {i} panicked: {}", panic_text(p.as_ref())),
        },
        Step::Call(c) => {
            let mut logits = input(c);
            res.begin_call(c.faults.clone());
            let out = call(|| {
                let mut t = None;
                for s in stages.iter_mut() {
                    t = s.sample_token(res, &mut logits)?;
                }
                Ok(t)
            });
            let _ = res.end_call();
            died = matches!(out, Out::Fault(_));
            if c.feed {
                if let Some(t) = out.token() {
                    res.push_token(t);
                }
            }
            let mut s = format!("{out:?} leaving");
            for l in logits.iter() {
                s.push_str(&format!(" {}:{:?}/{:08x}", l.token_id, l.logit, l.logit.to_bits()));
            }
            s
        }
        Step::Save(..) | Step::Crash => String::new(),
    };
    let o: Vec<String> = stages.iter().map(|s| format!("{:?}", opts_of(&**s).iter().map(|(k, v)| format!("{k}={}", v.show())).collect::<Vec<_>>())).collect();
    (format!("{what}; settings {}", o.join(" ")), died)
}

#[derive(Default)]
struct Session {
    done: Vec<Done>,
    bad: Option<Violation>,
    restarts: u32,
    by_panic: u32,
    damaged: u32,
    refused: u32,
}

/// Make a stage anew from text; the settings it must then have.
fn revive(boot: &Spec, text: &str) -> Result<(Box<dyn Dup>, Spec, bool), Violation> {
    let mut s = boot.build_dup();
    let mut m = Model::of(boot);
    let start = m.clone();
    let got = match guard(|| s.configure(text)) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(p) => return viol("panic", format!("configuring a fresh {boot:?} with {text:?} panicked: {}", panic_text(p.as_ref()))),
    };
    let ok = m.configure_as(text, got.is_ok());
    ensure!(
        got.is_ok() == ok,
        if ok { "refused-good-text" } else { "accepted-bad-text" },
        "a fresh {boot:?} given the text {text:?}: {got:?}"
    );
    if !ok && sorted(opts_of(&*s)) == start.show() {
        // All or nothing is fine too.
        m = start;
    }
    ensure!(
        sorted(opts_of(&*s)) == m.show(),
        "parsed-wrongly",
        "a fresh {boot:?} given the text {text:?} has settings {:?}; the text says {:?}",
        sorted(opts_of(&*s)),
        m.show()
    );
    Ok((s, m.spec(boot), ok))
}

fn live(p: &Plan, out: &mut Session) -> Result<(), Violation> {
    let mut stages: Stages = p.base.specs.iter().map(|s| s.build_dup()).collect();
    let mut res = p.base.make_res();
    // Deployed with its settings written out once.
    let mut saved = Saved {
        text: stages.iter().map(|s| write_out(&**s, Style { short: false, airy: false, num: 0 })).collect(),
        whole: true,
        rng: p.base.rng.make(),
        hist: p.base.hist.clone(),
        at: 0,
    };
    for st in &p.steps {
        seam_yield("between steps");
        let mut crash = matches!(st, Step::Crash);
        match st {
            Step::Crash => (),
            Step::Save(w, style) => {
                let text: Vec<String> = stages
                    .iter()
                    .zip(&saved.text)
                    .zip(w)
                    .map(|((s, old), w)| wear(&write_out(&**s, *style), old, *w))
                    .collect();
                let whole = stages.iter().zip(&text).all(|(s, t)| *t == write_out(&**s, *style));
                if !whole {
                    out.damaged += 1;
                }
                saved = Saved {
                    whole,
                    text,
                    rng: (!matches!(p.base.rng, RngKind::None)).then(|| res.rng.lock().unwrap().rng.clone()),
                    hist: res.mirror.clone(),
                    at: out.done.len(),
                };
            }
            _ => {
                let (got, died) = one(&mut stages, &mut res, st);
                if died {
                    crash = true;
                    out.by_panic += 1;
                } else {
                    out.done.push(Done { eff: Eff::Step(st.clone()), got });
                }
            }
        }
        if crash {
            out.restarts += 1;
            out.done.truncate(saved.at);
            let mut anew = vec![];
            stages.clear();
            for ((boot, text), like) in p.boot.iter().zip(&saved.text).zip(&p.base.specs) {
                // A bias list is no option; the embedder has it anyway.
                let boot = if boot.kind() == Kind::Bias { like } else { boot };
                let (s, spec, ok) = revive(boot, text)?;
                if !ok {
                    out.refused += 1;
                }
                stages.push(s);
                anew.push(spec);
            }
            res = SimRes::new(saved.rng.clone(), saved.hist.clone().map(Hist::Own));
            if !saved.whole {
                out.done.push(Done { eff: Eff::Anew(anew), got: String::new() });
                // From here on the text in the store is what it is.
                saved.at = out.done.len();
                saved.text = stages.iter().map(|s| write_out(&**s, Style { short: false, airy: false, num: 0 })).collect();
                saved.whole = true;
            }
        }
    }
    Ok(())
}

fn gen_wear(ctx: &mut Ctx) -> Wear {
    match ctx.weighted(&[6, 1, 2, 2, 1]) {
        0 => Wear::Whole,
        1 => Wear::Lost,
        2 => Wear::Torn(ctx.draw(1000)),
        3 => Wear::Garbled(ctx.draw(1001), ctx.pick(&['0', '9', '.', '-', '+', 'e', ':', '=', ' ', 'x', 'p', '\u{0}', 'é', '_', 'm', '1'])),
        _ => Wear::Doubled,
    }
}

fn gen_style(ctx: &mut Ctx) -> Style {
    Style { short: ctx.chance(1, 3), airy: ctx.chance(1, 3), num: ctx.draw(4) }
}

fn gen_plan(ctx: &mut Ctx) -> Plan {
    let sh = Shape {
        fault8: ctx.pick(&[0u32, 1, 2]),
        panics: true,
        max_stages: 3,
        max_calls: 6,
        missing: false,
        degenerate_rng: true,
        ..Default::default()
    };
    let mut base = gen_session(ctx, &sh);
    if ctx.chance(1, 2) {
        let last = base.specs.len() - 1;
        let k = ctx.pick(&[Kind::Miro2, Kind::Miro1]);
        base.specs[last] = gen_spec(ctx, k, &base.ids());
    }
    let ids = base.ids();
    let boot: Vec<Spec> = base.specs.clone().iter().map(|s| gen_spec(ctx, s.kind(), &ids)).collect();
    let careless = ctx.chance(1, 3);
    let mut steps = vec![];
    let mut left = base.calls.clone();
    left.reverse();
    while let Some(c) = left.pop() {
        steps.push(Step::Call(c));
        match ctx.weighted(&[3, 4, 2, 2]) {
            1 => {
                let w: Vec<Wear> = base.specs.iter().map(|_| if careless { gen_wear(ctx) } else { Wear::Whole }).collect();
                steps.push(Step::Save(w, gen_style(ctx)));
            }
            2 => {
                let i = ctx.draw(base.specs.len() as u32) as usize;
                let to = Model::of(&gen_spec(ctx, base.specs[i].kind(), &ids));
                if !to.keys.is_empty() {
                    let (k, v) = &to.keys[ctx.draw(to.keys.len() as u32) as usize];
                    let mut t = format!("{k}={}", v.show());
                    if ctx.chance(1, 4) {
                        // A value with more digits than fit.
                        if let Val::F(f) = v {
                            t = format!("{k}={}", *f as f64 * (1.0 + ctx.draw(1000) as f64 * 1.234_567_89e-5));
                        }
                    }
                    steps.push(Step::Conf(i, t));
                }
            }
            3 => steps.push(Step::Crash),
            _ => (),
        }
    }
    if !steps.iter().any(|s| matches!(s, Step::Crash)) {
        let at = ctx.draw(steps.len() as u32) as usize;
        steps.insert(at, Step::Crash);
    }
    Plan { base, boot, steps }
}

fn restarts(ctx: &mut Ctx) -> Check {
    let plans: Vec<Plan> = (0..ctx.range(1, 2)).map(|_| gen_plan(ctx)).collect();
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), &p.base);
        ctx.note(|| format!("session {i} is restarted from {:?}; steps {:?}", p.boot, p.steps));
    }
    let outs: Vec<Mutex<Session>> = plans.iter().map(|_| Mutex::default()).collect();
    let tasks: Vec<Task> = plans
        .iter()
        .zip(&outs)
        .map(|(p, o)| {
            Box::new(move || {
                let mut s = Session::default();
                s.bad = live(p, &mut s).err();
                *o.lock().unwrap() = s;
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 400_000)?;
    for (i, (p, o)) in plans.iter().zip(outs).enumerate() {
        let s = o.into_inner().unwrap();
        if let Some(v) = s.bad {
            return Err(v);
        }
        ctx.stat_n("fault:process:crash_and_restart", s.restarts as u64);
        ctx.stat_n("fault:process:panic_in_mid_call", s.by_panic as u64);
        ctx.stat_n("fault:store:lost_torn_or_garbled_text", s.damaged as u64);
        ctx.stat_n("probe:damaged_text_refused", s.refused as u64);
        // The session that was never stopped.
        let mut stages: Stages = p.base.specs.iter().map(|s| s.build_dup()).collect();
        let mut res = p.base.make_res();
        res.yields = false;
        for (n, d) in s.done.iter().enumerate() {
            match &d.eff {
                Eff::Anew(specs) => {
                    stages = specs.iter().map(|s| s.build_dup()).collect();
                    ctx.ev(&format!("session {i} step {n}: made anew as {specs:?}"));
                }
                Eff::Step(st) => {
                    let (want, _) = one(&mut stages, &mut res, st);
                    ctx.ev(&format!("session {i} step {n}: {}", d.got));
                    ctx.stat("steps_compared");
                    ensure!(
                        d.got == want,
                        "restart-differs",
                        "session {i} step {n} ({st:?}):\n    never stopped:             {want}\n    restarted from saved text: {}",
                        d.got
                    );
                }
            }
        }
        if s.restarts > 0 && s.done.len() > 1 {
            ctx.nontrivial = true;
        }
    }
    Ok(())
}

// -------------------------------------------------------------- operators

/// A number type an embedder may use for its options, and the reference
/// conversions.
trait Num: ConfigurableNumValue + Debug + Send + Sync + PartialEq {
    fn of_u(u: u64) -> Option<Self>;
    /// The acceptable readings of a number (none: it must be refused).
    fn of_f(text: &str) -> Vec<Self>;
    fn as_f(self) -> f64;
    fn as_u(self) -> u64;
    fn zero() -> Self;
}
macro_rules! uints {
    ($($t:ty),*) => {$(
        impl Num for $t {
            fn of_u(u: u64) -> Option<Self> { <$t>::try_from(u).ok() }
            fn of_f(_: &str) -> Vec<Self> { vec![] }
            fn as_f(self) -> f64 { self as f64 }
            fn as_u(self) -> u64 { self as u64 }
            fn zero() -> Self { 0 as $t }
        }
    )*};
}
uints!(u64, u8, u16, i32, usize, i8);
impl Num for f64 {
    fn of_u(_: u64) -> Option<Self> {
        None
    }
    fn of_f(t: &str) -> Vec<Self> {
        t.parse::<f64>().into_iter().collect()
    }
    fn as_f(self) -> f64 {
        self
    }
    fn as_u(self) -> u64 {
        0
    }
    fn zero() -> Self {
        0.0
    }
}
impl Num for f32 {
    fn of_u(_: u64) -> Option<Self> {
        None
    }
    fn of_f(t: &str) -> Vec<Self> {
        // Through f64, as documented; directly is no less exact.
        let a = t.parse::<f64>().ok().map(|x| x as f32);
        let b = t.parse::<f32>().ok();
        a.into_iter().chain(b).collect()
    }
    fn as_f(self) -> f64 {
        self as f64
    }
    fn as_u(self) -> u64 {
        0
    }
    fn zero() -> Self {
        0.0
    }
}

/// An embedder's sampler with options of its own types.
#[derive(Debug)]
struct Own<UI, F> {
    count: UI,
    weight: F,
    flag: bool,
    label: Cow<'static, str>,
    /// Never to be touched.
    sealed: UI,
    other: F,
}
const KEYS: [(&str, SamplerOptionType); 6] = [
    ("count", SamplerOptionType::UInt),
    ("weight", SamplerOptionType::Float),
    ("flag", SamplerOptionType::Bool),
    ("label", SamplerOptionType::String),
    ("sealed", SamplerOptionType::UInt),
    ("other", SamplerOptionType::Float),
];
fn mds() -> Vec<SamplerOptionMetadata> {
    KEYS.iter().map(|(key, option_type)| SamplerOptionMetadata { key, description: None, option_type: *option_type }).collect()
}
impl<UI: Num, F: Num> HasSamplerMetadata<UI, F> for Own<UI, F> {
    fn sampler_metadata(&self) -> SamplerMetadata {
        SamplerMetadata { name: "own", description: None, options: mds() }
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, UI, F>> {
        SamplerOptions::from(mds().into_iter().zip([
            Some(SamplerOptionValue::UInt(self.count)),
            Some(SamplerOptionValue::Float(self.weight)),
            Some(SamplerOptionValue::Bool(self.flag)),
            Some(SamplerOptionValue::String(Cow::Borrowed(&*self.label))),
            None,
            Some(SamplerOptionValue::Float(self.other)),
        ]))
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, UI, F>> {
        SamplerOptions::from(mds().into_iter().zip([
            Some(SamplerOptionValueMut::UInt(&mut self.count)),
            Some(SamplerOptionValueMut::Float(&mut self.weight)),
            Some(SamplerOptionValueMut::Bool(&mut self.flag)),
            Some(SamplerOptionValueMut::String(&mut self.label)),
            None,
            Some(SamplerOptionValueMut::Float(&mut self.other)),
        ]))
    }
}
impl<UI: Num, F: Num> ConfigurableSampler<UI, F> for Own<UI, F> {}

/// What the sampler must hold.
#[derive(Clone, Debug)]
struct Held {
    vals: [String; 6],
}
impl<UI: Num, F: Num> Own<UI, F> {
    fn held(&self) -> Held {
        Held {
            vals: [
                format!("{:?}", self.count),
                format!("{:?}", self.weight),
                format!("{}", self.flag),
                format!("{}", self.label),
                format!("{:?}", self.sealed),
                format!("{:?}", self.other),
            ],
        }
    }
}

/// What one value's text may be taken for; none: refused.
fn readings<UI: Num, F: Num>(i: usize, t: &str) -> (Vec<String>, bool) {
    let t = t.trim();
    match KEYS[i].1 {
        SamplerOptionType::UInt => (t.parse::<u64>().ok().and_then(UI::of_u).iter().map(|v| format!("{v:?}")).collect(), false),
        SamplerOptionType::Float => {
            let v = F::of_f(t);
            // Neither a number that is none nor one beyond the type's
            // range has to be accepted.
            let soft = v.iter().any(|x| x.as_f().is_nan() || x.as_f().is_infinite()) && !plain_inf(t);
            (v.iter().map(|v| format!("{v:?}")).collect(), soft)
        }
        SamplerOptionType::Bool => (
            match t {
                "true" | "t" | "yes" | "1" => vec!["true".to_string()],
                "false" | "f" | "no" | "0" => vec!["false".to_string()],
                _ => vec![],
            },
            false,
        ),
        SamplerOptionType::String => (vec![t.to_string()], false),
    }
}
fn plain_inf(t: &str) -> bool {
    ["inf", "+inf", "-inf"].contains(&t)
}

#[derive(Clone, Debug)]
enum Op {
    /// The description for one option (or for no option at all).
    Text { key: String, at: Option<usize>, val: String, text: String },
    /// Parse by type, then set.
    Typed { at: usize, val: String },
    Get(usize),
}

#[derive(Debug)]
struct Entry {
    task: usize,
    op: Op,
    res: Result<String, String>,
    parsed: Option<Result<String, String>>,
    held: Held,
}

fn digits(ctx: &mut Ctx, n: u32) -> String {
    (0..n).map(|_| char::from(b'0' + ctx.draw(10) as u8)).collect()
}

/// A value text: mostly well-formed, of every shape.
fn gen_value(ctx: &mut Ctx, t: SamplerOptionType) -> String {
    let mut s = match t {
        SamplerOptionType::UInt => match ctx.weighted(&[4, 3, 2, 2, 1]) {
            0 => ctx.draw(300).to_string(),
            4 => format!("{}{}", "0".repeat(ctx.pick(&[1usize, 9, 20, 40])), ctx.draw(300)),
            1 => {
                let n = ctx.range(1, 21);
                digits(ctx, n)
            }
            2 => {
                // About the edges of the types.
                let e = ctx.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64]);
                let v = (1i128 << e) + ctx.draw(3) as i128 - 1;
                v.to_string()
            }
            _ => ctx.pick(&["-1", "1.0", "1e3", "0x10", "1_000", "", "+7", "-0", "٣", "1 2", "true", "18446744073709551616"]).to_string(),
        },
        SamplerOptionType::Float => match ctx.weighted(&[4, 3, 3, 2, 2, 2]) {
            5 => {
                // Written out at length.
                let d = ctx.range(1, 9);
                let d = digits(ctx, d);
                let zeros = "0".repeat(ctx.pick(&[1usize, 7, 20, 45, 120, 310]));
                let sign = ctx.pick(&["", "-", "+"]);
                match ctx.draw(4) {
                    0 => format!("{sign}0.{zeros}{d}"),
                    1 => format!("{sign}{d}{zeros}"),
                    2 => format!("{sign}{zeros}{d}.5"),
                    _ => format!("{sign}{d}.{d}{zeros}e-{}", ctx.draw(40)),
                }
            }
            0 => format!("{}.{}", ctx.draw(20), ctx.draw(1000)),
            1 => {
                let (a, b) = (ctx.range(1, 20), ctx.range(1, 25));
                let sign = ctx.pick(&["", "-", "+"]);
                format!("{sign}{}.{}", digits(ctx, a), digits(ctx, b))
            }
            2 => {
                let a = ctx.range(1, 5);
                let sign = ctx.pick(&["", "-", "+"]);
                let e = ctx.draw(620) as i32 - 310;
                let big = ctx.pick(&["e", "E"]);
                let (x, y) = (ctx.draw(10), digits(ctx, a));
                format!("{sign}{x}.{y}{big}{e}")
            }
            3 => ctx.pick(&["inf", "-inf", "+inf", "INF", "-INF", "+INF", "nan", "infinity", "-0", "0.1", "16777217", "9007199254740993", "1e-46", "3.4028236e38", "5e-324", "1e999"]).to_string(),
            _ => ctx.pick(&["", ".", "-", "e5", "1e", "1,5", "0x1p3", "1.2.3", "--1", "1 e3", "in", "1f", "½", "true"]).to_string(),
        },
        SamplerOptionType::Bool => ctx
            .pick(&["true", "t", "yes", "1", "false", "f", "no", "0", "maybe", "2", "", "tr", "fal", "01", "10", "y e s", "on", "off", "-1", "0.0"])
            .to_string(),
        SamplerOptionType::String => match ctx.draw(3) {
            0 => ctx.pick(&["plain", "two words", "", "ünïcode ", "1.5", "true", "a\tb", "\u{1f600}", "\"quoted\""]).to_string(),
            1 => {
                let n = ctx.range(1, 60);
                digits(ctx, n)
            }
            _ => "x".repeat(ctx.draw(300) as usize),
        },
    };
    if ctx.chance(1, 8) {
        s = format!("{}{s}{}", ctx.pick(&[" ", "\t", "\u{a0}", "\n "]), ctx.pick(&["", " ", "\r\n", "\u{2003}"]));
    }
    s
}

fn gen_op(ctx: &mut Ctx) -> Op {
    let i = ctx.draw(KEYS.len() as u32) as usize;
    let val = gen_value(ctx, KEYS[i].1);
    match ctx.weighted(&[5, 2, 2]) {
        0 => {
            let full = KEYS[i].0;
            let (key, at) = match ctx.weighted(&[4, 3, 1, 1]) {
                0 => (full.to_string(), Some(i)),
                // All the names differ in their first letter.
                1 => (full[..ctx.range(1, full.len() as u32) as usize].to_string(), Some(i)),
                2 => (ctx.pick(&["x", "Count", "counts", "_"]).to_string(), None),
                // Ambiguous: no name at all.
                _ => (String::new(), None),
            };
            let text = match ctx.weighted(&[5, 1, 1]) {
                0 => format!("{key}={val}"),
                1 => format!("::  {key} \t= {val} : "),
                // A bare value names no option.
                _ if key.is_empty() && !val.contains('=') && !val.trim().is_empty() => val.clone(),
                _ => format!(" {key}={val}"),
            };
            Op::Text { key, at, val, text }
        }
        1 => Op::Typed { at: i, val },
        _ => Op::Get(i),
    }
}

fn parse_and_set<UI: Num, F: Num>(s: &mut Own<UI, F>, at: usize, val: &str) -> (Result<String, String>, Option<Result<String, String>>) {
    match SamplerOptionValue::parse_value(KEYS[at].1, val) {
        Err(e) => (Err(e.to_string()), Some(Err(e.to_string()))),
        Ok(v) => {
            let shown = match &v {
                SamplerOptionValue::UInt(u) => format!("{u}"),
                SamplerOptionValue::Float(f) => format!("{f:?}"),
                SamplerOptionValue::Bool(b) => format!("{b}"),
                SamplerOptionValue::String(s) => s.to_string(),
            };
            let r = s.set_option(KEYS[at].0, v).map(|_| String::new()).map_err(|e| e.to_string());
            (r, Some(Ok(shown)))
        }
    }
}

fn operators<UI: Num, F: Num>(ctx: &mut Ctx) -> Check {
    let ops: Vec<Vec<Op>> = (0..ctx.range(1, 3))
        .map(|_| (0..ctx.range(1, 6)).map(|_| gen_op(ctx)).collect())
        .collect();
    ctx.note(|| format!("an embedder's sampler with {} and {} options; {ops:?}", std::any::type_name::<UI>(), std::any::type_name::<F>()));
    let first = Own::<UI, F> {
        count: UI::of_u(3).unwrap(),
        weight: F::zero(),
        flag: false,
        label: Cow::Borrowed("start"),
        sealed: UI::of_u(9).unwrap(),
        other: F::zero(),
    };
    let mut model = first.held();
    let shared = Arc::new(SimMutex::new(first));
    let log: Mutex<Vec<Entry>> = Mutex::default();
    let tasks: Vec<Task> = ops
        .iter()
        .enumerate()
        .map(|(task, ops)| {
            let (shared, log) = (shared.clone(), &log);
            Box::new(move || {
                for op in ops {
                    sim::yield_point("next op");
                    let mut g = shared.lock().unwrap_or_else(|e| e.into_inner());
                    let r = guard(|| match op {
                        Op::Text { text, .. } => (g.configure(text).map(|_| String::new()).map_err(|e| e.to_string()), None),
                        Op::Typed { at, val } => parse_and_set(&mut g, *at, val),
                        Op::Get(i) => (
                            g.get_option(KEYS[*i].0)
                                .map(|v| match v {
                                    SamplerOptionValue::UInt(u) => format!("{u}"),
                                    SamplerOptionValue::Float(f) => format!("{f:?}"),
                                    SamplerOptionValue::Bool(b) => format!("{b}"),
                                    SamplerOptionValue::String(s) => s.to_string(),
                                })
                                .map_err(|e| e.to_string()),
                            None,
                        ),
                    });
                    let (res, parsed) = r.unwrap_or_else(|p| (Err(format!("PANIC {}", panic_text(p.as_ref()))), None));
                    let e = Entry { task, op: op.clone(), res, parsed, held: g.held() };
                    log.lock().unwrap().push(e);
                }
            }) as Task
        })
        .collect();
    run_tasks(ctx, tasks, 10_000)?;
    let mut kinds = HashSet::new();
    for (n, e) in log.into_inner().unwrap().into_iter().enumerate() {
        ctx.ev(&format!("{n}: task {} {:?} => {:?} {:?}; now {:?}", e.task, e.op, e.res, e.parsed, e.held.vals));
        let who = format!("step {n} (task {}, {:?})", e.task, e.op);
        if let Err(m) = &e.res {
            ensure!(!m.starts_with("PANIC"), "panic", "{who}: {m}");
        }
        let (at, val) = match &e.op {
            Op::Get(i) => {
                ctx.stat("reads");
                if KEYS[*i].0 == "sealed" {
                    ensure!(e.res.is_err(), "read-wrongly", "{who}: an option without access was read as {:?}", e.res);
                } else {
                    // Exact in the wide types.
                    let g = e.held.vals[*i].clone();
                    let want = if KEYS[*i].1 == SamplerOptionType::Float { widen::<F>(&g) } else { g };
                    ensure!(e.res.as_ref() == Ok(&want), "read-wrongly", "{who}: read {:?}, but the sampler holds {want}", e.res);
                }
                ensure!(e.held.vals == model.vals, "parsed-wrongly", "{who}: reading changed {:?} to {:?}", model.vals, e.held.vals);
                continue;
            }
            Op::Text { at, val, .. } => (*at, val.clone()),
            Op::Typed { at, val } => (Some(*at), val.clone()),
        };
        // What it may mean.
        let nothing = matches!(&e.op, Op::Text { text, .. } if text.split(':').all(|p| p.trim().is_empty()));
        let (mut may, mut soft) = match at {
            Some(i) if KEYS[i].0 != "sealed" => readings::<UI, F>(i, &val),
            _ => (vec![], false),
        };
        if let (Some(Ok(p)), Some(i)) = (&e.parsed, at) {
            let t = val.trim();
            let want = match KEYS[i].1 {
                SamplerOptionType::UInt => t.parse::<u64>().ok().map(|u| u.to_string()),
                SamplerOptionType::Float => t.parse::<f64>().ok().map(|f| format!("{f:?}")),
                SamplerOptionType::Bool => readings::<UI, F>(i, t).0.pop(),
                SamplerOptionType::String => Some(t.to_string()),
            };
            ensure!(want.as_ref() == Some(p), "parsed-wrongly", "{who}: the text was taken for {p}, but means {want:?}");
        }
        if val.contains(['=', ':']) {
            // Not a value one can write.
            may.clear();
            soft = true;
        }
        let ok = !may.is_empty();
        if nothing {
            ensure!(e.res.is_ok(), "refused-good-text", "{who}: {:?}", e.res);
        } else if !soft {
            ensure!(e.res.is_ok() || !ok, "refused-good-text", "{who}: {:?}, but it means {may:?}", e.res);
            ensure!(e.res.is_err() || ok, "accepted-bad-text", "{who}: accepted; settings now {:?}", e.held.vals);
        }
        let mut want = vec![model.clone()];
        if e.res.is_ok() && !nothing {
            let i = at.expect("an acceptable text names an option");
            want = may
                .iter()
                .map(|v| {
                    let mut m = model.clone();
                    m.vals[i] = v.clone();
                    m
                })
                .collect();
        }
        let hit = want.into_iter().find(|m| m.vals == e.held.vals);
        match hit {
            Some(m) => model = m,
            None => {
                return viol(
                    "parsed-wrongly",
                    format!("{who}: {:?}; settings went from {:?} to {:?}; the text means {may:?}", e.res, model.vals, e.held.vals),
                )
            }
        }
        kinds.insert((at, e.res.is_ok()));
        ctx.stat(if e.res.is_ok() { "accepted" } else { "fault:configure:refused" });
    }
    if kinds.len() > 1 {
        ctx.nontrivial = true;
    }
    Ok(())
}

/// A held float as the wide type shows it.
fn widen<F: Num>(shown: &str) -> String {
    let v = if std::any::type_name::<F>() == "f32" {
        shown.parse::<f32>().unwrap() as f64
    } else {
        shown.parse::<f64>().unwrap()
    };
    format!("{v:?}")
}
