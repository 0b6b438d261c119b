use crate::ctx::{Check, Ctx};

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Check,
    /// Simulated runs per tier.
    pub quick: u64,
    pub thorough: u64,
    /// What makes a run non-trivial.
    pub rule: &'static str,
    /// Which part of the system ran as the real thing, and what stood in.
    pub real: &'static str,
    pub stub: &'static str,
}

const REAL: &str = "llm-samplers, unmodified: every sampler, chain, wrapper, resource provider, builder and option code path the workload reaches (compiled with the guarded simulation hook)";
const STUB: &str = "thread scheduler, lock wake-ups, clocks, hash seeds/OS entropy, the generator behind SimpleSamplerResources, the failing resource provider around it, the LLM producing logits";

pub fn all() -> Vec<Prop> {
    macro_rules! p {
        ($id:expr, $m:ident, $q:expr, $t:expr, $rule:expr) => {
            Prop { id: $id, run: $m::run, quick: $q, thorough: $t, rule: $rule, real: REAL, stub: STUB }
        };
    }
    vec![
        p!("C01", c01, 500_000, 15_000_000, "a run is a seeded set of clients, shared samplers, operations, faults and one schedule; non-trivial: at least two operations on one shared sampler overlapped in simulated time (or chains took two shared samplers in opposite orders); distinct: by digest of the schedule and every result"),
        p!("C02", c02, 450_000, 13_500_000, "a run is a seeded set of clients sharing samplers, with panicking resource accesses, next to an unshared session, under one schedule; non-trivial: an injected panic fired; distinct: by digest of the schedule and every result"),
        p!("C03", c03, 625_000, 18_750_000, "a run is one or two seeded sessions with failing and panicking resource accesses; non-trivial: a fault fired in a session that also had a successful call; distinct: by digest of the schedule and every result"),
        p!("C04", c04, 750_000, 22_500_000, "a run is one or two seeded sessions over generated candidate lists; non-trivial: some stage removed candidates; distinct: by digest of the schedule and every result"),
        p!("C05", c05, 750_000, 22_500_000, "a run is a seeded session whose list markers are compared with the list after every stage, and a twin that never uses them; non-trivial: a list of two or more candidates carried a marker; distinct: by digest of every result"),
        p!("C06", c06, 500_000, 15_000_000, "a run is one or two sessions reading a token history that other tasks edit, under one schedule; non-trivial: a penalty was applied; distinct: by digest of the schedule and every result"),
        p!("C07", c07, 120_000, 3_600_000, "a run executes two or three seeded sessions alone, alone with other entropy and clock, interleaved as threads, alternating on one thread, and once more afterwards; non-trivial: at least two sessions picked tokens; distinct: by digest of the schedule and every result"),
        p!("C08", c08, 36_000, 1_080_000, "a run is about 1500 picks compared with the expected counts, or a degenerate generator, or a who-consults-the-generator comparison; non-trivial: at least two candidates with a real chance; distinct: by digest of all counts"),
        p!("C09", c09, 250_000, 7_500_000, "a run is one or two seeded Mirostat sessions checked step by step, or a 1500-token generation checked for convergence; non-trivial: at least one feedback step; distinct: by digest of every result"),
        p!("C10", c10, 750_000, 22_500_000, "a run is one or two seeded stage lists, wrapped in a random tree of chains, boxes, shared handles and builder slots, against the same stages applied one by one; non-trivial: nesting of two or more levels over two or more stages; distinct: by digest of tree and results"),
        p!("C11", c11, 1_000_000, 30_000_000, "a run is a seeded history of builder operations with refused configurations and panicking factories, compared with a reference model after each; non-trivial: some fault fired and the built chain has two or more stages; distinct: by digest of the history and results"),
        p!("C12", c12, 500_000, 15_000_000, "a run is a seeded set of tasks configuring, reading and sampling with one sampler under one schedule, compared step by step with a reference model; non-trivial: a sample call and an option change both happened; distinct: by digest of the effective history"),
        p!("C13", c13, 500_000, 15_000_000, "a run is one to three sessions with faults that stop; non-trivial: a call after a fault, or several sessions, or three or more stages; distinct: by digest of the schedule and every result"),
        p!("C14", c14, 500_000, 15_000_000, "a run is one or two sessions with forbidden tokens; non-trivial: a token was generated; distinct: by digest of the schedule and every result"),
        p!("C15", c15, 500_000, 15_000_000, "a run is one or two sessions sharing reconfigurable stages, with failing accesses, failing embedder stages, edited and reused lists, every step of every stage compared with the stage's definition under the options then in force; non-trivial: some stage removed candidates; distinct: by digest of the schedule and every result"),
        p!("C16", c16, 500_000, 15_000_000, "a run is one or two sessions killed at seeded points (also in mid-call) and made anew from the option text saved, whole or damaged, compared with sessions never stopped; or one to three operators configuring an embedder's sampler of some number types by text; non-trivial: a session went on after a restart, or texts of two kinds were applied; distinct: by digest of the schedule and every result"),
        p!("C17", c17, 500_000, 15_000_000, "a run is one to three tasks building candidate lists from streams that hint their length variously, break off with a panic, are held up between any two values or run another session meanwhile; non-trivial: two or more candidates kept, or a refusal, or a broken stream; distinct: by digest of every result"),
        p!("C18", c18, 500_000, 15_000_000, "a run is one or two sessions with failing accesses, over histories of their own or one history other tasks edit, with the history compared with what the embedder put there after every call and every access checked against what its stage needs; non-trivial: a call accessed the history; distinct: by digest of the schedule and every result"),
        p!("C19", c19, 500_000, 15_000_000, "a run is a session whose samplers are cloned after a prefix of calls, failures and reconfigurations, original and clones then going on differently, in turns or as threads, each compared step by step with samplers never cloned; non-trivial: something happened before the cloning; distinct: by digest of every result"),
        p!("C20", c20, 18_000, 540_000, "a run is a session of 2048 calls with recurring failures, reconfiguration, cloning or rebuilding, its live memory measured at every doubling of the calls and after it is dropped; non-trivial: some call succeeded; distinct: by digest of the results"),
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
