//! C06: history penalties come from one consistent snapshot of the recent
//! tokens, applied exactly once.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

use llm_samplers::prelude::*;
use llm_samplers_simstd::sim;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;

/// Which candidates a history stage changes, and to what.
/// `None`: not decided for this stage (fuzzy sequence matching).
pub fn model(spec: &Spec, items: &[(TID, f32)], hist: &[TID]) -> BTreeMap<TID, f32> {
    let mut out = BTreeMap::new();
    match *spec {
        Spec::FreqPres { freq, pres, last_n } => {
            let w = &hist[hist.len() - last_n.min(hist.len())..];
            for (t, l) in items {
                let n = w.iter().filter(|x| *x == t).count();
                if n > 0 {
                    out.insert(*t, l - (n as f32 * freq + pres));
                }
            }
        }
        Spec::Rep { pen, last_n } => {
            let w = &hist[hist.len() - last_n.min(hist.len())..];
            for (t, l) in items {
                if w.contains(t) {
                    out.insert(*t, if *l <= 0.0 { l * pen } else { l / pen });
                }
            }
        }
        Spec::Seq { flat, stack, min_len, last_n, .. } => {
            for (t, n) in exact_runs(min_len, last_n, hist) {
                if let Some((_, l)) = items.iter().find(|x| x.0 == t) {
                    out.insert(t, l - (n as f32 * stack + flat));
                }
            }
        }
        _ => (),
    }
    out
}

/// Tokens that would continue an earlier occurrence of the text's current
/// ending (at least `min_len` long, exact match, within the window), with the
/// length of the longest repeated sequence they would complete.
pub fn exact_runs(min_len: usize, last_n: usize, hist: &[TID]) -> BTreeMap<TID, usize> {
    let mut out = BTreeMap::new();
    let w = &hist[hist.len() - last_n.min(hist.len())..];
    let n = w.len();
    if n / 2 < min_len || last_n < min_len || min_len < 2 {
        return out;
    }
    for len in min_len..=n - min_len {
        let ending = &w[n - len..];
        // An occurrence whose continuation is not itself the last token.
        for at in 0..n {
            if at + len + 1 >= n {
                break;
            }
            if &w[at..at + len] == ending {
                let e = out.entry(w[at + len]).or_insert(0);
                *e = (*e).max(len + 1);
            }
        }
    }
    out
}

/// Matches with tolerance that every reading of the documentation finds:
/// element by element, up to `tol` differences, no two side by side, the
/// ends alike.
fn fuzzy_least(w: &[TID], min_len: usize, tol: usize) -> BTreeMap<TID, usize> {
    let mut out = BTreeMap::new();
    let n = w.len();
    for len in min_len..=n - min_len {
        let ending = &w[n - len..];
        for at in 0..n {
            if at + len + 1 >= n {
                break;
            }
            let differ: Vec<usize> = (0..len).filter(|i| w[at + i] != ending[*i]).collect();
            if differ.len() <= tol
                && differ.windows(2).all(|d| d[1] > d[0] + 1)
                && !differ.contains(&0)
                && !differ.contains(&(len - 1))
            {
                let e = out.entry(w[at + len]).or_insert(0);
                *e = (*e).max(len + 1);
            }
        }
    }
    out
}

/// Lengths of all matches any reading could find: both ends alike, up to
/// `tol` elements of the ending stand for one to `merge` others each.
fn fuzzy_most(w: &[TID], min_len: usize, tol: usize, merge: usize) -> BTreeMap<TID, Vec<usize>> {
    let mut out: BTreeMap<TID, Vec<usize>> = BTreeMap::new();
    let n = w.len();
    let merge = merge.min(n);
    for len in min_len..=n - min_len {
        let ending = &w[n - len..];
        for at in 0..n {
            let hay = &w[at..];
            if hay.len() <= len + 1 || hay[0] != ending[0] {
                continue;
            }
            // cost[j]: fewest tolerated elements so that the ending's first
            // i elements use up j of hay.
            const NO: usize = usize::MAX;
            let mut cost = vec![NO; hay.len() + 1];
            cost[1] = 0;
            for (i, e) in ending.iter().enumerate().skip(1) {
                let mut next = vec![NO; hay.len() + 1];
                for j in (1..hay.len()).filter(|j| cost[*j] != NO) {
                    if hay[j] == *e {
                        next[j + 1] = next[j + 1].min(cost[j]);
                    }
                    if i + 1 < len && cost[j] < tol {
                        for c in 1..=merge.min(hay.len() - j) {
                            next[j + c] = next[j + c].min(cost[j] + 1);
                        }
                    }
                }
                cost = next;
            }
            for j in (2..hay.len()).filter(|j| cost[*j] != NO) {
                out.entry(hay[j]).or_default().push(j + 1);
            }
        }
    }
    out
}

fn close(a: f32, b: f32) -> bool {
    a == b || (a.is_finite() && b.is_finite() && (a - b).abs() <= 2e-5 * (1.0f32).max(a.abs()).max(b.abs()))
}

/// Does `after` follow from `before` under this history?
pub fn explains(spec: &Spec, before: &Snap, after: &Snap, hist: &[TID]) -> bool {
    let items: Vec<(TID, f32)> = before.items.iter().map(|x| (x.0, x.1)).collect();
    if after.items.len() != items.len() {
        return false;
    }
    let m = model(spec, &items, hist);
    if let Spec::Seq { flat, stack, min_len, tol, merge, last_n } = *spec {
        if tol > 0 {
            // Fuzzy matching: bounds only.  What every reading of the
            // documentation matches is penalised at least as much; whatever
            // is penalised has a match under some reading, of that length.
            let w = &hist[hist.len() - last_n.min(hist.len())..];
            if min_len < 2 || last_n < min_len || w.len() / 2 < min_len {
                return items.iter().all(|(t, l)| after.get(*t).is_some_and(|a| a.to_bits() == l.to_bits()));
            }
            let least = fuzzy_least(w, min_len, tol);
            let most = (w.len() <= 40).then(|| fuzzy_most(w, min_len, tol, merge.max(1)));
            let cost = |k: usize, l: f32| l - (k as f32 * stack + flat);
            return items.iter().all(|(t, l)| {
                let Some(a) = after.get(*t) else { return false };
                let least = least.get(t).copied();
                if a.to_bits() == l.to_bits() && least.is_none() {
                    return true;
                }
                match &most {
                    Some(most) => {
                        most.get(t).is_some_and(|ks| ks.iter().any(|k| Some(*k) >= least && close(a, cost(*k, *l))))
                    }
                    None => w.contains(t) && (least.unwrap_or(2)..=w.len()).any(|k| close(a, cost(k, *l))),
                }
            });
        }
    }
    items.iter().all(|(t, l)| match (m.get(t), after.get(*t)) {
        (_, None) => false,
        (None, Some(a)) => a.to_bits() == l.to_bits(),
        (Some(want), Some(a)) => close(*want, a),
    })
}

/// Now and then, logits at the edges of their type.
fn odd_logits(ctx: &mut Ctx, items: &mut Items) {
    while ctx.chance(1, 6) {
        let k = ctx.draw(items.len() as u32) as usize;
        items[k].1 = ctx.pick(&[f32::NEG_INFINITY, 0.0, -0.0, 1e-30, -1e30, 1e30]);
    }
}

/// A shared, versioned history.
struct Store {
    cur: Arc<SimMutex<Vec<TID>>>,
    versions: Mutex<Vec<Vec<TID>>>,
}
impl Store {
    fn edit(&self, f: impl FnOnce(&mut Vec<TID>)) {
        let mut g = self.cur.lock().unwrap();
        f(&mut g);
        self.versions.lock().unwrap().push(g.clone());
    }
    fn now(&self) -> usize {
        self.versions.lock().unwrap().len() - 1
    }
}

#[derive(Clone, Debug)]
enum Edit {
    Push(TID),
    /// Forget the oldest `n`.
    Slide(usize),
    /// Take back the newest `n`.
    Undo(usize),
    Clear,
    Replace(Vec<TID>),
}

struct Rec {
    session: usize,
    call: usize,
    specs: Vec<Spec>,
    out: Out,
    stages: Vec<StageRec>,
    fired: Vec<(Fault, u32, &'static str, u32)>,
    lo: usize,
    hi: usize,
}

pub fn run(ctx: &mut Ctx) -> Check {
    let nsess = ctx.range(1, 2) as usize;
    let nwrite = ctx.weighted(&[3, 5, 2]);
    let items = gen_items(ctx, LogitOpts { lo: 2, hi: 7, ..Default::default() });
    let ids: Vec<TID> = items.iter().map(|x| x.0).collect();
    let mut items = items;
    odd_logits(ctx, &mut items);
    let items = items;
    let start = gen_hist(ctx, &ids, 16);
    let fault8 = ctx.pick(&[0u32, 1, 3]);
    let panics = ctx.chance(1, 4);
    struct Sess {
        specs: Vec<Spec>,
        calls: Vec<(Items, Vec<(u32, Fault, u32)>, bool)>,
        seed: u64,
    }
    let mut sess = vec![];
    for s in 0..nsess {
        let mut specs = vec![];
        for _ in 0..ctx.range(1, 3) {
            let k = ctx.pick(&[Kind::Rep, Kind::FreqPres, Kind::Seq, Kind::Temp, Kind::Seq, Kind::TopK]);
            specs.push(gen_spec(ctx, k, &ids));
        }
        if ctx.chance(1, 2) {
            specs.push(Spec::Greedy);
        }
        if !specs.iter().any(|s| s.is_history()) {
            specs[0] = gen_spec(ctx, Kind::Rep, &ids);
        }
        let mut calls = vec![];
        for c in 0..ctx.range(1, 4) {
            let mut it = if ctx.chance(1, 2) {
                items.clone()
            } else {
                // Fresh values over the same ids, half of them negative.
                ids.iter().map(|t| (*t, ctx.draw(33) as f32 * 0.25 - 4.0)).collect()
            };
            odd_logits(ctx, &mut it);
            let f = if fault8 > 0 && ctx.chance(fault8, 8) {
                vec![gen_fault(ctx, 100 * (s as u32 + 1) + c, panics)]
            } else {
                vec![]
            };
            calls.push((it, f, ctx.chance(1, 2)));
        }
        sess.push(Sess { specs, calls, seed: ctx.seed() });
    }
    let seq = sess.iter().any(|s| s.specs.iter().any(|s| matches!(s, Spec::Seq { .. })));
    let many = items.len() > 60;
    let start = if !seq && items.len() < 5000 && ctx.chance(if many { 50 } else { 2 }, 100) {
        ctx.stat("probe:very_long_history");
        let mut v = start;
        if many || ctx.chance(1, 2) {
            long_hist(ctx, &ids, &mut v);
        } else {
            // One token fills it.
            let n = ctx.pick(&[257u32, 256, 300, 511, 700]) as usize;
            let other = ids[ctx.draw(ids.len() as u32) as usize];
            v = vec![ids[ctx.draw(ids.len() as u32) as usize]; n];
            for _ in 0..ctx.range(0, 4) {
                v[ctx.draw(n as u32) as usize] = other;
            }
        }
        v
    } else if seq && ids.len() > 1 && ctx.chance(1, 60) {
        // Something said long ago, and now again.
        ctx.stat("probe:a_far_repetition");
        let gap = ctx.pick(&[30u32, 62, 100, 130, 255, 260, 300, 513, 600]);
        let motif: Vec<TID> = (0..ctx.range(3, 8)).map(|_| ids[ctx.draw(ids.len() as u32) as usize]).collect();
        let mut v = start;
        v.extend(&motif);
        v.extend((0..gap).map(|i| 900_000 + i));
        v.extend(&motif[..motif.len() - 1]);
        for s in sess.iter_mut().flat_map(|s| s.specs.iter_mut()) {
            if let Spec::Seq { last_n, tol, .. } = s {
                *last_n = ctx.pick(&[usize::MAX, 1000, gap as usize + 12, gap as usize]);
                *tol = 0;
            }
        }
        v
    } else {
        start
    };
    let mut edits: Vec<Vec<Edit>> = vec![];
    for _ in 0..nwrite {
        let mut v = vec![];
        for _ in 0..ctx.range(1, 6) {
            v.push(match ctx.weighted(&[6, 1, 2, 1, 1]) {
                0 => Edit::Push(ids[ctx.draw(ids.len() as u32) as usize]),
                1 => Edit::Slide(ctx.range(1, 4) as usize),
                2 => Edit::Undo(ctx.range(1, 3) as usize),
                3 => Edit::Clear,
                _ => Edit::Replace(gen_hist(ctx, &ids, 10)),
            });
        }
        edits.push(v);
    }
    // Own-history sessions exercise the library's own provider.
    let own = nsess == 1 && nwrite == 0;
    ctx.note(|| format!("history {start:?}{}", if own { " (owned)" } else { " (shared)" }));
    for (i, s) in sess.iter().enumerate() {
        ctx.note(|| format!("session {i}: stages {:?}, calls {:?}", s.specs, s.calls));
    }
    for (i, e) in edits.iter().enumerate() {
        ctx.note(|| format!("writer {i}: {e:?}"));
    }
    let store = Store { cur: Arc::new(SimMutex::new(start.clone())), versions: Mutex::new(vec![start.clone()]) };
    let recs: Mutex<Vec<Rec>> = Mutex::new(vec![]);
    {
        let mut tasks: Vec<Task> = vec![];
        for (i, s) in sess.iter().enumerate() {
            let (store, recs, start) = (&store, &recs, &start);
            tasks.push(Box::new(move || {
                let hist = if own { Hist::Own(start.clone()) } else { Hist::Shared(store.cur.clone()) };
                let mut res = SimRes::new(Some(SimRng::seeded(s.seed)), Some(hist));
                let log = TapLog::default();
                let mut chain = tapped_chain(&s.specs, &log, &res.stage, true);
                for (k, (items, faults, feed)) in s.calls.iter().enumerate() {
                    log.lock().unwrap().clear();
                    res.begin_call(faults.clone());
                    let mut l = make_logits(items);
                    let lo = store.now();
                    let out = call(|| chain.sample_token(&mut res, &mut l));
                    let hi = store.now();
                    let cl = res.end_call();
                    recs.lock().unwrap().push(Rec {
                        session: i,
                        call: k,
                        specs: s.specs.clone(),
                        stages: std::mem::take(&mut *log.lock().unwrap()),
                        fired: cl.fired,
                        lo,
                        hi,
                        out: out.clone(),
                    });
                    if *feed {
                        if let Some(t) = out.token() {
                            if own {
                                res.push_token(t);
                            }
                            store.edit(|v| v.push(t));
                        }
                    }
                }
            }));
        }
        for e in &edits {
            let store = &store;
            tasks.push(Box::new(move || {
                for e in e {
                    sim::yield_point("before edit");
                    store.edit(|v| match e {
                        Edit::Push(t) => v.push(*t),
                        Edit::Slide(n) => {
                            v.drain(..(*n).min(v.len()));
                        }
                        Edit::Undo(n) => v.truncate(v.len() - (*n).min(v.len())),
                        Edit::Clear => v.clear(),
                        Edit::Replace(x) => *v = x.clone(),
                    });
                }
            }));
        }
        run_tasks(ctx, tasks, 20_000)?;
    }
    let versions = store.versions.into_inner().unwrap();
    for r in recs.into_inner().unwrap() {
        for f in &r.fired {
            ctx.stat(&format!("fault:{}:{}", f.2, f.0.name()));
        }
        if r.hi > r.lo {
            ctx.stat("probe:history_changed_during_a_call");
        }
        ctx.ev(&format!(
            "session {} call {} (history versions {}..={}): {:?}",
            r.session, r.call, r.lo, r.hi, r.out
        ));
        if let Out::Panic(m) = &r.out {
            return viol("panic", format!("session {} call {} panicked: {m}", r.session, r.call));
        }
        if r.fired.is_empty() {
            ensure!(r.out.is_ok(), "spurious-error", "session {} call {}: {:?}", r.session, r.call, r.out);
        }
        for s in &r.stages {
            let spec = &r.specs[s.stage];
            if !spec.is_history() {
                continue;
            }
            ctx.stat("history_stage_runs");
            let who = format!("session {} call {} stage {} {spec:?}", r.session, r.call, s.stage);
            if s.ok != Some(true) {
                ctx.stat("probe:unreadable_history");
                ensure!(
                    s.before.same_set(&s.after),
                    "penalty-without-history",
                    "{who}: the history could not be read, yet logits changed from {:?} to {:?}",
                    s.before,
                    s.after
                );
                continue;
            }
            let hit = (r.lo..=r.hi).find(|v| explains(spec, &s.before, &s.after, &versions[*v]));
            if !s.before.same_set(&s.after) {
                ctx.nontrivial = true;
                ctx.stat("probe:penalty_applied");
                if let Spec::Seq { tol, .. } = spec {
                    ctx.stat(if *tol == 0 { "probe:sequence_penalty_exact" } else { "probe:sequence_penalty_fuzzy" });
                }
            }
            ensure!(
                hit.is_some(),
                "penalty-unexplained",
                "{who}: {:?} -> {:?} follows from no history that existed during the call: {:?}",
                s.before,
                s.after,
                &versions[r.lo..=r.hi]
            );
        }
    }
    Ok(())
}
