//! C11: the chain builder, over histories of operations.

use std::cell::Cell;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::opts::*;
use crate::res::SimFault;

type Log = Arc<Mutex<Vec<(String, Vec<(&'static str, String)>)>>>;

/// A library sampler with a name tag; tells the log when it is run.
#[derive(Debug)]
struct Tagged {
    tag: String,
    inner: Boxed,
    log: Log,
}
impl Sampler for Tagged {
    fn sample<'a>(&mut self, _: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.log.lock().unwrap().push((self.tag.clone(), shown(&self.inner)));
        Ok(l)
    }
}
impl HasSamplerMetadata<usize, f32> for Tagged {
    fn sampler_metadata(&self) -> SamplerMetadata {
        self.inner.sampler_metadata()
    }
    fn sampler_options(&self) -> SamplerOptions<SamplerOptionValue<'_, usize, f32>> {
        self.inner.sampler_options()
    }
    fn sampler_options_mut(&mut self) -> SamplerOptions<SamplerOptionValueMut<'_, usize, f32>> {
        self.inner.sampler_options_mut()
    }
}
impl ConfigurableSampler<usize, f32> for Tagged {
    fn post_set_option(&mut self, md: &SamplerOptionMetadata) -> anyhow::Result<()> {
        self.inner.post_set_option(md)
    }
}

#[derive(Clone, Debug)]
enum Slot {
    Static,
    Single(Option<(String, Model)>),
    Chain(Vec<(String, Model)>),
}

#[derive(Clone, Debug)]
struct MSlot {
    name: String,
    def: Spec,
    slot: Slot,
    tag: String,
}

type B = SamplerChainBuilder<usize, f32>;

/// What the real builder's slot holds now, by option values.
fn contents(s: &SamplerSlot<usize, f32>) -> (&'static str, Vec<Vec<(&'static str, String)>>) {
    match s {
        SamplerSlot::Static { .. } => ("static", vec![]),
        SamplerSlot::Single { sampler, .. } => ("single", sampler.iter().map(shown).collect()),
        SamplerSlot::Chain { samplers, .. } => ("chain", samplers.iter().map(shown).collect()),
    }
}
fn model_contents(s: &MSlot) -> (&'static str, Vec<Vec<(&'static str, String)>>) {
    match &s.slot {
        Slot::Static => ("static", vec![]),
        Slot::Single(o) => ("single", o.iter().map(|x| x.1.show()).collect()),
        Slot::Chain(v) => ("chain", v.iter().map(|x| x.1.show()).collect()),
    }
}

fn agree(b: &B, m: &[MSlot], who: &str) -> Check {
    let names: Vec<&str> = b.iter().map(|s| s.0.as_str()).collect();
    let want: Vec<&str> = m.iter().map(|s| s.name.as_str()).collect();
    ensure!(names == want, "slots-differ", "{who}: slots are {names:?}, not {want:?}");
    for (i, ((n, s), w)) in b.iter().zip(m).enumerate() {
        let (g, w) = (contents(s), model_contents(w));
        ensure!(g == w, "slot-contents-differ", "{who}: slot {i} ({n}) holds {g:?}, not {w:?}");
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> Check {
    let log = Log::default();
    // Counts down to a factory panic; 0 = factories behave.
    let fuse: Rc<Cell<u32>> = Rc::new(Cell::new(0));
    let mut b = B::default();
    let mut m: Vec<MSlot> = vec![];
    let mut tagno = 0;
    let names = ["a", "b", "temp", "c", "a", "b", "temp", "c", "A", " b", "temp ", "temp2", ""];
    let kinds: Vec<Kind> = SHAPERS.iter().chain(PICKERS.iter()).copied().collect();
    // Now and then a builder edited for long, or one of many slots.
    let nops = if ctx.chance(1, 80) {
        ctx.stat("probe:long_edit_history");
        ctx.range(40, 150)
    } else {
        ctx.range(2, 14)
    };
    let wide = nops > 20 && ctx.chance(1, 2);
    // Of the long ones some keep asking the same slot for more.
    let deep = nops > 20 && !wide && ctx.chance(2, 3);
    let mut interesting = 0;
    // Some builders are made from a list of slots.
    let batch = if ctx.chance(1, 3) { ctx.range(2, 5) } else { 0 };
    let mut first = vec![];
    for op in 0..nops + batch {
        let what = if op < batch || m.is_empty() { 0 } else { ctx.weighted(&if deep { [1, 60, 2, 0, 1] } else { [if nops > 20 && !wide { 1 } else { 4 }, 9, 3, 1, 1] }) };
        match what {
            0 => {
                // Add a slot.
                let name = ctx.pick(&names).to_string();
                let k = ctx.pick(&kinds);
                let def = gen_spec(ctx, k, &[0, 1, 2, 3]);
                tagno += 1;
                let tag = format!("{name}{tagno}");
                let make = {
                    let (def, tag, log, fuse) = (def.clone(), tag.clone(), log.clone(), fuse.clone());
                    move || {
                        if fuse.get() > 0 {
                            fuse.set(fuse.get() - 1);
                            if fuse.get() == 0 {
                                std::panic::resume_unwind(Box::new(SimFault(7)));
                            }
                        }
                        Box::new(Tagged { tag: tag.clone(), inner: def.build(), log: log.clone() }) as Boxed
                    }
                };
                let given = |i: usize| Tagged { tag: format!("{tag}-given{i}"), inner: def.build(), log: log.clone() };
                let def_model = Model::of(&def);
                let (slot, mslot) = match ctx.weighted(&[2, 4, 4]) {
                    0 => (SamplerSlot::new_static(make), Slot::Static),
                    1 if ctx.chance(1, 3) => {
                        (SamplerSlot::new_single(make, Some(given(0))), Slot::Single(Some((format!("{tag}-given0"), def_model))))
                    }
                    1 => (SamplerSlot::new_single(make, None::<Tagged>), Slot::Single(None)),
                    _ => {
                        let n = if ctx.chance(1, 400) { ctx.range(20, 70) as usize } else { ctx.weighted(&[5, 2, 1]) };
                        (
                            SamplerSlot::new_chain(make, (0..n).map(|i| Box::new(given(i)) as Boxed).collect::<Vec<_>>()),
                            Slot::Chain((0..n).map(|i| (format!("{tag}-given{i}"), def_model.clone())).collect()),
                        )
                    }
                };
                ctx.ev(&format!("op {op}: add slot {name:?} {mslot:?} of {def:?}"));
                if m.iter().any(|s| s.name == name) {
                    ctx.stat("probe:duplicate_slot_name");
                }
                m.push(MSlot { name: name.clone(), def, slot: mslot, tag });
                if op < batch {
                    first.push((name, slot));
                    if first.len() == batch as usize {
                        ctx.ev("the slots so far are made a builder");
                        b = B::from(std::mem::take(&mut first));
                        agree(&b, &m, "made from a list of slots")?;
                    }
                    continue;
                }
                match ctx.draw(4) {
                    0 => b.push_slot(name, slot),
                    1 => b += (name, slot),
                    2 => b = b + (name, slot),
                    _ if m.len() == 1 => b = B::from([(name, slot)]),
                    _ => b.push((name, slot)),
                }
            }
            1 => {
                // Configure by name.
                let mut name = m[ctx.draw(m.len() as u32) as usize].name.clone();
                if ctx.chance(1, 10) {
                    name = ctx.pick(&["nowhere", "", "A", "te", " b", "b ", "temp ", "Temp"]).to_string();
                }
                if deep {
                    if let Some(s) = m.iter().find(|s| matches!(s.slot, Slot::Chain(_))) {
                        name = s.name.clone();
                    }
                }
                let target = m.iter().position(|s| s.name == name);
                let like = target.map(|i| match &m[i].slot {
                    Slot::Single(Some(o)) => o.1.clone(),
                    _ => Model::of(&m[i].def),
                });
                let text = gen_config(ctx, &like.clone().unwrap_or(Model::plain(vec![])));
                let boom = ctx.chance(1, 8);
                fuse.set(boom as u32);
                let got = guard(|| b.configure(&name, &text));
                let blew = boom && fuse.get() == 0;
                fuse.set(0);
                let shown_got = match &got {
                    Ok(Ok(())) => "accepted".to_string(),
                    Ok(Err(e)) => format!("refused: {e}"),
                    Err(p) => format!("panicked: {}", panic_text(p.as_ref())),
                };
                ctx.ev(&format!("op {op}: configure {name:?} with {text:?}: {shown_got}"));
                let who = format!("op {op}: configure({name:?}, {text:?})");
                if blew {
                    ctx.stat("fault:factory:panic");
                    interesting += 1;
                    ensure!(got.is_err(), "factory-panic-lost", "{who}: the factory panicked but the caller saw {shown_got}");
                    agree(&b, &m, &format!("{who}, whose factory panicked"))?;
                    continue;
                }
                let Ok(got) = got else {
                    return viol("panic", format!("{who} {shown_got}"));
                };
                let ok = match target {
                    None => {
                        ctx.stat("refused:unknown_slot");
                        false
                    }
                    Some(i) => {
                        let s = &mut m[i];
                        match &mut s.slot {
                            Slot::Static => {
                                ctx.stat("refused:static_slot");
                                false
                            }
                            Slot::Single(Some((_, cur))) => {
                                let mut next = cur.clone();
                                let ok = next.configure_as(&text, got.is_ok());
                                if ok {
                                    *cur = next;
                                } else {
                                    // Up to the refused part, or not at all.
                                    ctx.stat("fault:configure:refused_on_occupant");
                                    interesting += 1;
                                    let now = contents(&b[i].1).1;
                                    if now.first() == Some(&next.show()) {
                                        *cur = next;
                                    }
                                }
                                ok
                            }
                            Slot::Single(o @ None) => {
                                let mut next = Model::of(&s.def);
                                let ok = next.configure_as(&text, got.is_ok());
                                if ok {
                                    *o = Some((s.tag.clone(), next));
                                } else {
                                    ctx.stat("fault:configure:refused_on_fresh");
                                    interesting += 1;
                                }
                                ok
                            }
                            Slot::Chain(v) => {
                                let mut next = Model::of(&s.def);
                                let ok = next.configure_as(&text, got.is_ok());
                                if ok {
                                    v.push((s.tag.clone(), next));
                                    if v.len() > 1 {
                                        ctx.stat("probe:chain_slot_grew");
                                    }
                                    if v.len() > 40 {
                                        ctx.stat("probe:chain_slot_of_many");
                                    }
                                } else {
                                    ctx.stat("fault:configure:refused_on_fresh");
                                    interesting += 1;
                                }
                                ok
                            }
                        }
                    }
                };
                ensure!(
                    got.is_ok() == ok,
                    if ok { "refused-good-configuration" } else { "accepted-bad-configuration" },
                    "{who} was {shown_got}"
                );
                if let Err(e) = &got {
                    let want = match target {
                        None => "an unknown slot",
                        Some(i) if matches!(m[i].slot, Slot::Static) => "a static slot",
                        _ => "a failed configuration",
                    };
                    let says = match e.downcast_ref::<BuildSamplersError>() {
                        Some(BuildSamplersError::UnknownSlot(n)) => ("an unknown slot", n.as_str()),
                        Some(BuildSamplersError::CannotConfigureStatic(n)) => ("a static slot", n.as_str()),
                        Some(BuildSamplersError::ConfigureFailed { name, .. }) => ("a failed configuration", name.as_str()),
                        None => ("nothing of the kind", ""),
                    };
                    ensure!(says == (want, name.as_str()), "wrong-reason", "{who} was {shown_got}, which reports {says:?}, not {want} {name:?}");
                }
                agree(&b, &m, &format!("after {who} ({shown_got})"))?;
            }
            2 => {
                // Make sure a slot is populated.
                let i = ctx.draw(m.len() as u32) as usize;
                let boom = ctx.chance(1, 6);
                fuse.set(boom as u32);
                let got = guard(|| b[i].1.ensure_present());
                let blew = boom && fuse.get() == 0;
                fuse.set(0);
                ctx.ev(&format!("op {op}: ensure_present on slot {i}{}", if blew { ": factory panicked" } else { "" }));
                let who = format!("op {op}: ensure_present on slot {i}");
                if blew {
                    ctx.stat("fault:factory:panic");
                    interesting += 1;
                    ensure!(got.is_err(), "factory-panic-lost", "{who}: the factory's panic vanished");
                } else {
                    if let Err(p) = got {
                        return viol("panic", format!("{who} panicked: {}", panic_text(p.as_ref())));
                    }
                    let s = &mut m[i];
                    let d = Model::of(&s.def);
                    match &mut s.slot {
                        Slot::Single(o @ None) => *o = Some((s.tag.clone(), d)),
                        Slot::Chain(v) if v.is_empty() => v.push((s.tag.clone(), d)),
                        _ => ctx.stat("probe:already_present"),
                    }
                }
                agree(&b, &m, &format!("after {who}"))?;
            }
            3 => {
                let i = ctx.draw(m.len() as u32) as usize;
                ctx.ev(&format!("op {op}: remove slot {i}"));
                b.remove(i);
                m.remove(i);
            }
            _ => {
                let (i, j) = (ctx.draw(m.len() as u32) as usize, ctx.draw(m.len() as u32) as usize);
                ctx.ev(&format!("op {op}: swap slots {i} and {j}"));
                b.swap(i, j);
                m.swap(i, j);
            }
        }
        agree(&b, &m, &format!("after op {op}"))?;
    }
    // The finished chain runs exactly what the slots hold, in order.
    let mut chain = match guard(|| b.into_chain()) {
        Ok(c) => c,
        Err(p) => return viol("panic", format!("building the chain panicked: {}", panic_text(p.as_ref()))),
    };
    let mut l = make_logits(&[(0, 1.0), (1, 2.0)]);
    let want: Vec<(String, Vec<(&'static str, String)>)> = m
        .iter()
        .flat_map(|s| match &s.slot {
            Slot::Static => vec![(s.tag.clone(), Model::of(&s.def).show())],
            Slot::Single(o) => o.iter().map(|x| (x.0.clone(), x.1.show())).collect(),
            Slot::Chain(v) => v.iter().map(|x| (x.0.clone(), x.1.show())).collect(),
        })
        .collect();
    for pass in 0..2 {
        log.lock().unwrap().clear();
        let o = call(|| chain.sample_token(&mut (), &mut l));
        ensure!(o == Out::Tok(None), "built-chain-fails", "sampling with the built chain gave {o:?}");
        let ran = log.lock().unwrap().clone();
        ensure!(
            ran == want,
            "built-chain-differs",
            "pass {pass}: the built chain runs {ran:?}, but the slots hold {want:?}"
        );
    }
    ctx.ev(&format!("built chain: {want:?}"));
    if interesting > 0 && want.len() > 1 {
        ctx.nontrivial = true;
    }
    Ok(())
}
