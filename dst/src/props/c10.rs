//! C10: chains and wrappers are transparent.

use std::sync::{Arc, Mutex};

use llm_samplers::configure::*;
use llm_samplers::prelude::*;

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::res::*;
use crate::session::*;

#[derive(Clone, Debug)]
enum Node {
    Leaf(usize),
    /// A nested chain.
    Chain(Vec<Node>),
    /// Behind `Box<dyn Sampler>`.
    Boxed(Box<Node>),
    /// Behind the shared handle.
    Shared(Box<Node>),
    /// A chain made by the builder, out of slots (`EMPTY`: an empty one).
    Built(Vec<(usize, u8)>),
}

const EMPTY: usize = usize::MAX;

type Prep = Arc<Mutex<Vec<usize>>>;

/// A leaf: forwards to a library sampler and leaves a mark when asked for
/// its prefix.
#[derive(Debug)]
struct Leaf {
    id: usize,
    inner: Boxed,
    prep: Prep,
    ran: Prep,
}

impl Sampler for Leaf {
    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
        self.prep.lock().unwrap().push(self.id);
        let _ = res.with_last_tokens_mut(&mut |v| v.push(700_000 + self.id as u32));
    }
    fn sample<'a>(&mut self, res: &mut dyn HasSamplerResources, l: &'a mut Logits) -> Result<&'a mut Logits, SamplerError> {
        self.ran.lock().unwrap().push(self.id);
        self.inner.sample(res, l)
    }
    fn sampled_token_id(&self) -> Option<TID> {
        self.inner.sampled_token_id()
    }
    fn sample_token(&mut self, res: &mut dyn HasSamplerResources, l: &mut Logits) -> Result<Option<TID>, SamplerError> {
        self.ran.lock().unwrap().push(self.id);
        self.inner.sample_token(res, l)
    }
}
impl HasSamplerMetadata<usize, f32> for Leaf {}
impl ConfigurableSampler<usize, f32> for Leaf {}

fn gen_tree(ctx: &mut Ctx, next: &mut usize, max: usize, depth: u32) -> Node {
    let k = if depth == 0 || *next + 1 >= max { 0 } else { ctx.weighted(&[4, 4, 2, 2, 2]) };
    let leaf = |next: &mut usize| {
        *next += 1;
        *next - 1
    };
    match k {
        0 => Node::Leaf(leaf(next)),
        1 => {
            let n = ctx.range(0, 3);
            let mut v = vec![];
            for _ in 0..n {
                if *next < max {
                    v.push(gen_tree(ctx, next, max, depth - 1));
                }
            }
            Node::Chain(v)
        }
        2 => Node::Boxed(Box::new(gen_tree(ctx, next, max, depth - 1))),
        3 => Node::Shared(Box::new(gen_tree(ctx, next, max, depth - 1))),
        _ => {
            let mut v = vec![];
            for _ in 0..ctx.range(0, 4) {
                if ctx.chance(1, 5) {
                    v.push((EMPTY, ctx.draw(2) as u8));
                } else if *next < max {
                    v.push((leaf(next), ctx.draw(4) as u8));
                }
            }
            Node::Built(v)
        }
    }
}

struct Maker<'a> {
    specs: &'a [Spec],
    prep: Prep,
    ran: Prep,
}

impl Maker<'_> {
    fn leaf(&self, i: usize) -> Leaf {
        Leaf { id: i, inner: self.specs[i].build(), prep: self.prep.clone(), ran: self.ran.clone() }
    }
    fn add(&self, c: &mut SamplerChain, n: &Node) {
        match n {
            Node::Leaf(i) => {
                match i % 3 {
                    0 => {
                        c.push_sampler(self.leaf(*i));
                    }
                    1 => *c += self.leaf(*i),
                    _ => *c = std::mem::take(c) + self.leaf(*i),
                }
            }
            other => {
                c.push_sampler(self.make(other));
            }
        }
    }
    fn make(&self, n: &Node) -> Box<dyn Sampler> {
        match n {
            Node::Leaf(i) => Box::new(self.leaf(*i)),
            Node::Chain(v) => {
                let mut c = SamplerChain::new();
                for x in v {
                    self.add(&mut c, x);
                }
                Box::new(c)
            }
            Node::Boxed(x) => {
                let inner: Box<dyn Sampler> = self.make(x);
                Box::new(inner)
            }
            Node::Shared(x) => {
                let s: Shared = match &**x {
                    Node::Leaf(i) => Arc::new(SimMutex::new(self.leaf(*i))),
                    other => Arc::new(SimMutex::new(self.make(other))),
                };
                Box::new(s)
            }
            Node::Built(v) => {
                let mut b = SamplerChainBuilder::<usize, f32>::default();
                for (i, kind) in v {
                    if *i == EMPTY {
                        b.push_slot(
                            "unused".into(),
                            if *kind == 0 {
                                SamplerSlot::new_chain(|| unreachable!("never configured"), [])
                            } else {
                                SamplerSlot::new_single(|| unreachable!("never configured"), None::<Leaf>)
                            },
                        );
                        continue;
                    }
                    let mut once = Some(self.leaf(*i));
                    let name = format!("s{i}");
                    match kind {
                        0 => b += (
                            name,
                            SamplerSlot::new_static(move || Box::new(once.take().expect("one instance")) as Box<dyn BuildableSampler<usize, f32>>),
                        ),
                        1 => b.push_slot(
                            name,
                            SamplerSlot::new_single(|| unreachable!("the slot is occupied"), once.take()),
                        ),
                        2 => {
                            b.push_slot(
                                name.clone(),
                                SamplerSlot::new_single(
                                    move || Box::new(once.take().expect("one instance")) as Box<dyn BuildableSampler<usize, f32>>,
                                    None::<Leaf>,
                                ),
                            );
                            b.iter_mut().last().unwrap().1.ensure_present();
                        }
                        _ => b.push_slot(
                            name,
                            SamplerSlot::new_chain(
                                || unreachable!("the slot is occupied"),
                                [Box::new(once.take().unwrap()) as Box<dyn BuildableSampler<usize, f32>>],
                            ),
                        ),
                    }
                }
                Box::new(b.into_chain())
            }
        }
    }
}

/// The reference: walk the tree, applying each leaf by hand.
struct Flat {
    leaves: Vec<Boxed>,
    ran: Vec<usize>,
}
impl Flat {
    fn run(&mut self, n: &Node, res: &mut SimRes, l: &mut Logits) -> Result<Option<TID>, SamplerError> {
        match n {
            Node::Leaf(i) => {
                self.ran.push(*i);
                Sampler::sample(&mut *self.leaves[*i], res, l)?;
                Ok(Sampler::sampled_token_id(&*self.leaves[*i]))
            }
            Node::Chain(v) => {
                let mut t = None;
                for x in v {
                    t = self.run(x, res, l)?;
                }
                Ok(t)
            }
            Node::Boxed(x) | Node::Shared(x) => self.run(x, res, l),
            Node::Built(v) => {
                let mut t = None;
                for (i, _) in v.iter().filter(|x| x.0 != EMPTY) {
                    t = self.run(&Node::Leaf(*i), res, l)?;
                }
                Ok(t)
            }
        }
    }
}

/// What the embedder holds and calls.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Root {
    Chain,
    /// `Box<dyn Sampler>`.
    Boxed,
    /// The shared handle.
    Shared,
    /// A lone stage behind `Box<dyn BuildableSampler>`.
    Slot,
}

struct Plan {
    root: Root,
    tree: Node,
    session: SessionPlan,
    /// Before which calls the prefix is asked for.
    prepend: Vec<bool>,
}

struct Got {
    calls: Vec<(Out, Option<TID>, Snap, CallLog, Vec<usize>)>,
    /// Per prefix: the stages asked, and the history then.
    prep: Vec<(Vec<usize>, Option<Vec<TID>>)>,
    after_push: Option<Option<TID>>,
}

fn run_real(p: &Plan, yields: bool) -> Got {
    let (prep, ran) = (Prep::default(), Prep::default());
    let mk = Maker { specs: &p.session.specs, prep: prep.clone(), ran: ran.clone() };
    let mut res = p.session.make_res();
    res.yields = yields;
    let mut got = Got { calls: vec![], prep: vec![], after_push: None };
    match p.root {
        Root::Chain => {
            let mut top = SamplerChain::new();
            mk.add(&mut top, &p.tree);
            drive(p, &mut top, &mut res, &prep, &ran, &mut got);
            // A chain that has grown has not picked anything yet.
            top += SampleGreedy::new();
            got.after_push = Some(top.sampled_token_id());
        }
        Root::Boxed => drive(p, &mut mk.make(&p.tree), &mut res, &prep, &ran, &mut got),
        Root::Shared => {
            let mut top: Shared = Arc::new(SimMutex::new(mk.make(&p.tree)));
            drive(p, &mut top, &mut res, &prep, &ran, &mut got)
        }
        Root::Slot => {
            let mut top: Boxed = Box::new(mk.leaf(0));
            drive(p, &mut top, &mut res, &prep, &ran, &mut got)
        }
    }
    got
}

/// The calls, made on the outermost wrapper itself.
fn drive<S: Sampler>(p: &Plan, top: &mut S, res: &mut SimRes, prep: &Prep, ran: &Prep, got: &mut Got) {
    for (k, c) in p.session.calls.iter().enumerate() {
        if p.prepend[k] {
            res.begin_call(vec![]);
            top.sample_prepend(res);
            let mut h = None;
            let _ = res.with_last_tokens(&mut |v| h = Some(v.clone()));
            res.end_call();
            got.prep.push((std::mem::take(&mut *prep.lock().unwrap()), h));
        }
        ran.lock().unwrap().clear();
        let mut l = input(c);
        res.begin_call(c.faults.clone());
        let out = call(|| match (c.two_step, k % 2) {
            (true, 0) => {
                top.sample(res, &mut l)?;
                Ok(top.sampled_token_id())
            }
            (true, _) => {
                l.sample(res, top)?;
                Ok(top.sampled_token_id())
            }
            (false, 0) => top.sample_token(res, &mut l),
            (false, _) => l.sample_token(res, top),
        });
        let log = res.end_call();
        let r = ran.lock().unwrap().clone();
        got.calls.push((out.clone(), top.sampled_token_id(), Snap::of(&l), log, r));
        if c.feed {
            if let Some(t) = out.token() {
                res.push_token(t);
            }
        }
    }
}

fn run_model(p: &Plan) -> Got {
    let mut f = Flat { leaves: p.session.specs.iter().map(|s| s.build()).collect(), ran: vec![] };
    let mut res = p.session.make_res();
    res.yields = false;
    let mut got = Got { calls: vec![], prep: vec![], after_push: (p.root == Root::Chain).then_some(None) };
    for (k, c) in p.session.calls.iter().enumerate() {
        if p.prepend[k] {
            let order: Vec<usize> = leaves(&p.tree);
            for i in &order {
                if p.session.hist.is_some() {
                    res.push_token(700_000 + *i as u32);
                }
            }
            let mut h = None;
            let _ = res.with_last_tokens(&mut |v| h = Some(v.clone()));
            got.prep.push((order, h));
        }
        f.ran.clear();
        let mut l = input(c);
        res.begin_call(c.faults.clone());
        let out = call(|| f.run(&p.tree, &mut res, &mut l));
        let log = res.end_call();
        // Alone, a stage answers for itself; a chain for its last stage in this call.
        let lone = match &p.tree {
            Node::Leaf(i) => Some(Sampler::sampled_token_id(&*f.leaves[*i])),
            _ => None,
        };
        got.calls.push((out.clone(), lone.unwrap_or(out.token()), Snap::of(&l), log, f.ran.clone()));
        if c.feed {
            if let Some(t) = out.token() {
                res.push_token(t);
            }
        }
    }
    got
}

fn leaves(n: &Node) -> Vec<usize> {
    match n {
        Node::Leaf(i) => vec![*i],
        Node::Chain(v) => v.iter().flat_map(leaves).collect(),
        Node::Boxed(x) | Node::Shared(x) => leaves(x),
        Node::Built(v) => v.iter().map(|x| x.0).filter(|x| *x != EMPTY).collect(),
    }
}

fn depth(n: &Node) -> usize {
    match n {
        Node::Leaf(_) => 0,
        Node::Chain(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        Node::Boxed(x) | Node::Shared(x) => 1 + depth(x),
        Node::Built(_) => 1,
    }
}

pub fn run(ctx: &mut Ctx) -> Check {
    let n = ctx.weighted(&[5, 2]) + 1;
    let mut plans = vec![];
    for _ in 0..n {
        let sh = Shape { max_stages: 6, max_calls: 3, fault8: ctx.pick(&[0u32, 2, 4]), empty_lists: true, missing: true, ..Default::default() };
        let mut session = gen_session(ctx, &sh);
        // Pickers anywhere: the last one counts.
        if ctx.chance(1, 4) {
            let ids = session.ids();
            let k = ctx.pick(&PICKERS);
            let s = gen_spec(ctx, k, &ids);
            session.specs.insert(0, s);
        }
        // ... and it may not be the last stage.
        let max = session.specs.len();
        if max > 1 && ctx.chance(1, 6) {
            let by = 1 + ctx.draw(max as u32 - 1) as usize;
            session.specs.rotate_left(by);
            session.bound_history();
            ctx.stat("probe:stages_behind_the_picker");
        }
        let mut next = 0;
        let deep = if ctx.chance(1, 16) { 9 } else { 3 };
        let mut top = vec![];
        while next < max {
            top.push(gen_tree(ctx, &mut next, max, deep));
        }
        if ctx.chance(1, 24) {
            top.push(if ctx.chance(1, 2) { Node::Chain(vec![]) } else { Node::Built(vec![(EMPTY, 0)]) });
            ctx.stat("probe:an_empty_chain_last");
        }
        let mut root = ctx.pick(&[Root::Chain, Root::Boxed, Root::Shared, Root::Slot]);
        let mut tree = Node::Chain(top);
        if root == Root::Slot {
            // The picker stays, or whatever the last stage is.
            session.specs.drain(..session.specs.len().saturating_sub(1));
            tree = Node::Leaf(0);
        } else if session.specs.len() == 1 && root != Root::Chain && ctx.chance(1, 2) {
            tree = Node::Leaf(0);
        }
        if session.specs.is_empty() {
            (root, tree) = (Root::Chain, Node::Chain(vec![]));
        }
        ctx.stat(&format!("probe:called-as-{root:?}"));
        // Seldom asked for more than once, but that is the embedder's choice.
        let often = ctx.chance(1, 3);
        let prepend = (0..session.calls.len()).map(|k| if k == 0 || often { ctx.chance(1, 2) } else { false }).collect();
        plans.push(Plan { root, tree, session, prepend });
    }
    for (i, p) in plans.iter().enumerate() {
        describe(ctx, &format!("session {i}"), &p.session);
        ctx.note(|| format!("session {i}: wrapped as {:?}, called as {:?}", p.tree, p.root));
    }
    let slots: Vec<Mutex<Option<Got>>> = plans.iter().map(|_| Mutex::new(None)).collect();
    let tasks: Vec<Task> = plans
        .iter()
        .zip(&slots)
        .map(|(p, s)| Box::new(move || *s.lock().unwrap() = Some(run_real(p, true))) as Task)
        .collect();
    run_tasks(ctx, tasks, 400_000)?;
    for (i, (p, s)) in plans.iter().zip(slots).enumerate() {
        let got = s.into_inner().unwrap().expect("ran");
        let want = run_model(p);
        if depth(&p.tree) > 1 && p.session.specs.len() > 1 {
            ctx.nontrivial = true;
            ctx.stat("probe:nested");
        }
        ctx.ev(&format!("session {i} {:?}: {:?}", p.tree, got.calls.iter().map(|c| (&c.0, &c.2)).collect::<Vec<_>>()));
        for (k, (g, w)) in got.prep.iter().zip(&want.prep).enumerate() {
            ctx.stat("probe:prepend");
            ctx.stat_n("probe:prepend_again", (k > 0) as u64);
            ensure!(
                g.0 == w.0,
                "prepend-wrong",
                "session {i}: prefixes were asked of stages {:?} (the {}. time), not of each once in order {:?}; wrapping {:?}",
                g.0,
                k + 1,
                w.0,
                p.tree
            );
            ensure!(
                g.1 == w.1,
                "prepend-wrong",
                "session {i}: the history after prepending for the {}. time is {:?}, not {:?}",
                k + 1,
                g.1,
                w.1
            );
        }
        for (k, (g, w)) in got.calls.iter().zip(&want.calls).enumerate() {
            for f in &g.3.fired {
                ctx.stat(&format!("fault:{}:{}", f.2, f.0.name()));
            }
            ensure!(
                g.0 == w.0,
                "wrapper-changes-result",
                "session {i} call {k}: wrapped as {:?} the stages give {:?}, applied one by one {:?}",
                p.tree,
                g.0,
                w.0
            );
            ensure!(
                g.2 == w.2,
                "wrapper-changes-result",
                "session {i} call {k}: wrapped as {:?} the stages leave {:?}, applied one by one {:?}",
                p.tree,
                g.2,
                w.2
            );
            ensure!(
                g.1 == w.1,
                "wrong-token-reported",
                "session {i} call {k}: the chain reports {:?}, the last stage picked {:?}",
                g.1,
                w.1
            );
            ensure!(
                g.4 == w.4,
                "stages-run-wrongly",
                "session {i} call {k}: stages {:?} ran, not {:?}",
                g.4,
                w.4
            );
            ensure!(
                (g.3.rng_draws, g.3.accesses, &g.3.snapshots) == (w.3.rng_draws, w.3.accesses, &w.3.snapshots),
                "wrapper-changes-resource-use",
                "session {i} call {k}: wrapped, the stages made {} resource accesses and {} draws; one by one {} and {}",
                g.3.accesses,
                g.3.rng_draws,
                w.3.accesses,
                w.3.rng_draws
            );
        }
        ensure!(
            got.after_push == want.after_push,
            "token-after-growth",
            "session {i}: a chain that just got another stage reports token {:?}",
            got.after_push
        );
    }
    // An empty chain passes everything through and picks nothing.
    let it = gen_items(ctx, LogitOpts::default());
    let mut l = make_logits(&it);
    let before = Snap::of(&l);
    let o = call(|| SamplerChain::new().sample_token(&mut (), &mut l));
    ensure!(
        o == Out::Tok(None) && Snap::of(&l) == before,
        "empty-chain",
        "an empty chain gave {o:?} and left {:?} of {before:?}",
        Snap::of(&l)
    );
    Ok(())
}
