//! Batches, worker processes, confirmation, minimisation, replay files and
//! evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

use crate::ctx::*;
use crate::props::{self, Prop};

const HANG: Duration = Duration::from_secs(60);

// --------------------------------------------------------------- one run

pub struct RunResult {
    pub check: Check,
    pub ctx: Ctx,
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if let Some(l) = i.location() {
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}:{}", l.file(), l.line());
        }
    }));
}

fn run_seed(base: u64, prop: &str, idx: u64) -> u64 {
    let tag = prop.bytes().fold(0u64, |a, b| a.wrapping_mul(257).wrapping_add(b as u64));
    mix(mix(base, tag), idx)
}

/// Execute one simulated run on fresh threads.
fn exec(p: &Prop, seed: u64, tapes: Option<(Vec<u32>, Vec<u32>)>, tracing: bool, thorough: bool) -> RunResult {
    let (plan, sched) = match tapes {
        Some((a, b)) => (Tape::replay(a), Tape::replay(b)),
        None => (Tape::record(mix(seed, 1)), Tape::record(mix(seed, 2))),
    };
    let mut ctx = Ctx::new(plan, sched, seed, tracing);
    ctx.thorough = thorough;
    let r = on_fresh_thread(mix(seed, 3), || (p.run)(&mut ctx));
    let check = match r {
        Ok(c) => c,
        Err(e) => viol(
            "unexpected-panic",
            format!(
                "panic outside any call that may fail: {} ({})",
                panic_text(e.as_ref()),
                LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner())
            ),
        ),
    };
    RunResult { check, ctx }
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}

// ---------------------------------------------------------------- worker

/// `worker ID BASE TIER START STRIDE END`
pub fn worker(a: &[&str]) -> i32 {
    quiet_panics();
    let p = props::find(a[0]).expect("property");
    let n: Vec<u64> = [a[1], a[3], a[4], a[5]].iter().map(|s| s.parse().unwrap()).collect();
    let (base, start, stride, end) = (n[0], n[1], n[2], n[3]);
    let thorough = a[2] == "thorough";
    let deadline = Instant::now() + Duration::from_secs_f64(std::env::var("DST_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(600.0));
    // Watchdog: one run must not take this long (real time, outside the
    // simulation; it only turns a stuck process into a report).
    static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
    std::thread::spawn(|| {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CUR.load(Ordering::SeqCst);
            if c != last.0 {
                last = (c, Instant::now());
            } else if last.1.elapsed() > HANG {
                println!("H\t{c}");
                let _ = std::io::stdout().flush();
                std::process::exit(0);
            }
        }
    });
    let known = known(p.id);
    // For finding runs that are needlessly expensive.
    let slow: Option<f64> = std::env::var("DST_SLOW").ok().and_then(|s| s.parse().ok());
    let mut digests = HashSet::new();
    let mut scheds = HashSet::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut nontrivial, mut steps) = (0u64, 0u64, 0u64);
    let mut samples = vec![];
    let mut idx = start;
    let out = std::io::stdout();
    while idx < end && Instant::now() < deadline {
        CUR.store(idx, Ordering::SeqCst);
        {
            let mut o = out.lock();
            let _ = writeln!(o, "R\t{idx}");
            let _ = o.flush();
        }
        let began = Instant::now();
        let r = exec(&p, run_seed(base, p.id, idx), None, false, thorough);
        if slow.is_some_and(|s| began.elapsed().as_secs_f64() > s) {
            eprintln!("{} run {idx} took {:.1} s", p.id, began.elapsed().as_secs_f64());
        }
        runs += 1;
        steps += r.ctx.sim_steps;
        for (k, v) in &r.ctx.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
        }
        if r.ctx.sched_digest != 0 {
            scheds.insert(r.ctx.sched_digest);
        }
        if r.ctx.nontrivial {
            nontrivial += 1;
            digests.insert(r.ctx.digest);
            if samples.len() < 2 {
                samples.push(idx);
            }
        }
        if let Err(v) = r.check {
            if let Some(k) = known.iter().position(|k| k.matches(&v)) {
                *stats.entry(format!("known:{k}")).or_insert(0) += 1;
                idx += stride;
                continue;
            }
            println!("V\t{idx}\t{}\t{}", v.class, one_line(&v.msg));
            break;
        }
        idx += stride;
    }
    CUR.store(u64::MAX - 1, Ordering::SeqCst);
    let mut o = std::io::BufWriter::new(out.lock());
    let _ = writeln!(o, "N\t{runs}\t{nontrivial}\t{steps}");
    for (k, v) in stats {
        let _ = writeln!(o, "S\t{k}\t{v}");
    }
    for d in digests {
        let _ = writeln!(o, "D\t{d:x}");
    }
    for d in scheds {
        let _ = writeln!(o, "C\t{d:x}");
    }
    for s in samples {
        let _ = writeln!(o, "X\t{s}");
    }
    let _ = writeln!(o, "E");
    let _ = o.flush();
    drop(o);
    std::process::exit(0);
}

// --------------------------------------------------------------- attempt

/// A single execution in a fresh process, described on stdin.
#[derive(Clone, Debug)]
struct Attempt {
    prop: String,
    seed: u64,
    thorough: bool,
    /// Seeds of the runs to execute first in the same process.
    prefix: Vec<u64>,
    tapes: Option<(Vec<u32>, Vec<u32>)>,
    trace: bool,
}

fn csv<T: std::fmt::Display>(v: &[T]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn uncsv<T: std::str::FromStr>(s: &str) -> Vec<T> {
    s.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

impl Attempt {
    fn text(&self) -> String {
        let mut s = format!("property: {}\nrun_seed: {}\ntier: {}\n", self.prop, self.seed, if self.thorough { "thorough" } else { "quick" });
        if !self.prefix.is_empty() {
            let _ = writeln!(s, "earlier_run_seeds: {}", csv(&self.prefix));
        }
        if let Some((a, b)) = &self.tapes {
            let _ = writeln!(s, "plan: {}\nschedule: {}", csv(a), csv(b));
        }
        if self.trace {
            s.push_str("trace: yes\n");
        }
        s
    }
    fn parse(s: &str) -> Option<Attempt> {
        let mut a = Attempt { prop: String::new(), seed: 0, thorough: false, prefix: vec![], tapes: None, trace: false };
        let (mut plan, mut sched) = (None, None);
        for l in s.lines() {
            if l.starts_with('#') {
                continue;
            }
            let Some((k, v)) = l.split_once(':') else { continue };
            let v = v.trim();
            match k {
                "property" => a.prop = v.to_string(),
                "run_seed" => a.seed = v.parse().ok()?,
                "tier" => a.thorough = v == "thorough",
                "earlier_run_seeds" => a.prefix = uncsv(v),
                "plan" => plan = Some(uncsv(v)),
                "schedule" => sched = Some(uncsv(v)),
                "trace" => a.trace = true,
                _ => (),
            }
        }
        if let (Some(p), Some(s)) = (plan, sched) {
            a.tapes = Some((p, s));
        }
        (!a.prop.is_empty()).then_some(a)
    }
}

pub fn attempt() -> i32 {
    quiet_panics();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    let a = Attempt::parse(&s).expect("attempt description");
    let p = props::find(&a.prop).expect("property");
    for s in &a.prefix {
        exec(&p, *s, None, false, a.thorough);
    }
    let r = exec(&p, a.seed, a.tapes.clone(), a.trace, a.thorough);
    let mut o = String::new();
    for l in r.ctx.log.iter().flatten() {
        let _ = writeln!(o, "L\t{}", one_line(l));
    }
    let _ = writeln!(o, "T\t{}\t{}", csv(&r.ctx.plan.vals), csv(&r.ctx.sched.vals));
    match r.check {
        Ok(()) => o.push_str("OK\n"),
        Err(v) => {
            let _ = writeln!(o, "V\t{}\t{}", v.class, one_line(&v.msg));
        }
    }
    print!("{o}");
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

struct Verdict {
    /// `None`: held.
    viol: Option<Violation>,
    tapes: Option<(Vec<u32>, Vec<u32>)>,
    log: Vec<String>,
}

/// Run an attempt in a fresh process.  A crash or a hang is a verdict too.
fn spawn_attempt(a: &Attempt, limit: Duration) -> Result<Verdict, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe)
        .arg("attempt")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(a.text().as_bytes());
    }
    let mut o = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = o.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let s = match rx.recv_timeout(limit) {
        Ok(s) => s,
        Err(_) => {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok(Verdict {
                viol: Some(Violation { class: "hang".into(), msg: format!("a run did not finish within {} s", limit.as_secs()) }),
                tapes: None,
                log: vec![],
            });
        }
    };
    let st = ch.wait().map_err(|e| e.to_string())?;
    let mut v = Verdict { viol: None, tapes: None, log: vec![] };
    let mut ended = false;
    for l in s.lines() {
        let f: Vec<&str> = l.splitn(3, '\t').collect();
        match f.as_slice() {
            ["L", ..] => v.log.push(l[2..].replace("\\n", "\n")),
            ["T", a, b] => v.tapes = Some((uncsv(a), uncsv(b))),
            ["OK"] => ended = true,
            ["V", c, m] => {
                ended = true;
                v.viol = Some(Violation { class: c.to_string(), msg: m.to_string() });
            }
            _ => (),
        }
    }
    if !ended {
        v.viol = Some(Violation { class: "crash".into(), msg: format!("the process running the code under test died: {st}") });
    }
    Ok(v)
}

// ---------------------------------------------------------------- shrink

fn shrink(a: Attempt, class: &str, budget: Duration, max: u32) -> (Attempt, u32) {
    let t0 = Instant::now();
    let mut best = a;
    let mut tries = 0;
    // Returns whether the candidate still fails the same way.
    let mut try_one = |best: &mut Attempt, plan: Vec<u32>, sched: Vec<u32>| -> Option<bool> {
        if tries >= max || t0.elapsed() > budget {
            return None;
        }
        tries += 1;
        let mut c = best.clone();
        c.tapes = Some((plan, sched));
        let v = spawn_attempt(&c, Duration::from_secs(10)).ok()?;
        let hit = v.viol.as_ref().is_some_and(|x| x.class == class);
        if hit {
            if let Some(t) = v.tapes {
                c.tapes = Some(trim(t));
            }
            *best = c;
        }
        Some(hit)
    };
    loop {
        let start = best.tapes.clone().unwrap();
        // Schedule first: fewer preemptions make everything else simpler.
        for which in [1usize, 0] {
            let get = |b: &Attempt| {
                let t = b.tapes.as_ref().unwrap();
                if which == 0 { t.0.clone() } else { t.1.clone() }
            };
            let with = |b: &Attempt, v: Vec<u32>| {
                let t = b.tapes.clone().unwrap();
                if which == 0 { (v, t.1) } else { (t.0, v) }
            };
            let mut size = get(&best).len().max(1);
            loop {
                let mut i = 0;
                while i < get(&best).len() {
                    let cur = get(&best);
                    let j = (i + size).min(cur.len());
                    // Drop the chunk (plan only: dropping shifts what follows).
                    let mut cand = cur.clone();
                    cand.drain(i..j);
                    let (p, s) = with(&best, cand);
                    match try_one(&mut best, p, s) {
                        None => return (best, tries),
                        Some(true) => continue,
                        Some(false) => (),
                    }
                    if cur[i..j].iter().any(|x| *x != 0) {
                        let mut cand = cur.clone();
                        cand[i..j].iter_mut().for_each(|x| *x = 0);
                        let (p, s) = with(&best, cand);
                        match try_one(&mut best, p, s) {
                            None => return (best, tries),
                            Some(_) => (),
                        }
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size = (size / 2).max(1);
            }
            if which == 0 {
                let mut i = 0;
                while i < get(&best).len() {
                    let cur = get(&best);
                    for v in [cur[i] / 2, cur[i].saturating_sub(1)] {
                        if v < cur[i] {
                            let mut cand = get(&best);
                            if i >= cand.len() || cand[i] <= v {
                                break;
                            }
                            cand[i] = v;
                            let (p, s) = with(&best, cand);
                            if try_one(&mut best, p, s).is_none() {
                                return (best, tries);
                            }
                        }
                    }
                    i += 1;
                }
            }
        }
        if best.tapes.as_ref() == Some(&start) {
            return (best, tries);
        }
    }
}

fn trim((mut a, mut b): (Vec<u32>, Vec<u32>)) -> (Vec<u32>, Vec<u32>) {
    for v in [&mut a, &mut b] {
        while v.last() == Some(&0) {
            v.pop();
        }
    }
    (a, b)
}

// ----------------------------------------------------------------- check

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

struct Known {
    class: String,
    needle: String,
    what: String,
}

impl Known {
    fn matches(&self, v: &Violation) -> bool {
        v.class == self.class && v.msg.contains(&self.needle)
    }
}

/// Open entries of the known-findings file:
/// `open: property=<id> class=<class> match="<text>" <what fails>`
fn known(prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("open: ")?.strip_prefix(&format!("property={prop} "))?;
            let l = l.strip_prefix("class=")?;
            let (class, l) = l.split_once(' ')?;
            let (needle, what) = l.strip_prefix("match=\"")?.split_once('"')?;
            Some(Known { class: class.into(), needle: needle.into(), what: what.trim().into() })
        })
        .collect()
}

#[derive(Default)]
struct Batch {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    stats: BTreeMap<String, u64>,
    digests: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    samples: BTreeSet<u64>,
    /// Lowest failing run and what it reported, plus the stride of its worker.
    viol: Option<(u64, Violation)>,
    ended: usize,
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let seed_text = std::env::var("VERIF_SEED").unwrap_or_default();
    let base: u64 = seed_text.trim().parse().unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let thorough = tier == "thorough";
    let workers: u64 = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let total: u64 = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.thorough } else { p.quick });
    if std::env::var_os("DST_WALL").is_none() {
        std::env::set_var("DST_WALL", if thorough { "780" } else { "240" });
    }
    println!("property={id} tier={tier} seed={base} runs={total} workers={workers}");

    let b = match batch(&p, base, tier, workers, total) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("harness error: {e}");
            return 2;
        }
    };
    let mut code = 0;
    let mut violations = 0;
    for (i, k) in known(p.id).iter().enumerate() {
        if b.stats.contains_key(&format!("known:{i}")) {
            println!("KNOWN-FINDING: property={id} {}", k.what);
        }
    }
    if let Some((idx, v)) = &b.viol {
        match report(&p, base, thorough, workers, *idx, v) {
            Ok(path) => {
                println!("VIOLATION property={id} replay={}", path.display());
                violations = 1;
                code = 1;
            }
            Err(e) => {
                eprintln!("harness error: {e}");
                return 2;
            }
        }
    }
    if code == 0 && b.runs == 0 {
        eprintln!("harness error: nothing was run");
        return 2;
    }
    if let Err(e) = evidence(&p, base, tier, workers, &b, violations, t0) {
        eprintln!("harness error: evidence: {e}");
        return 2;
    }
    println!(
        "{id}: {} runs, {} distinct non-trivial, {} distinct schedules, {} scheduling points, {:.1} s",
        b.runs,
        b.digests.len(),
        b.scheds.len(),
        b.steps,
        t0.elapsed().as_secs_f64()
    );
    code
}

fn batch(p: &Prop, base: u64, tier: &str, workers: u64, total: u64) -> Result<Batch, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let mut kids = vec![];
    for w in 0..workers {
        let mut ch = Command::new(&exe)
            .args(["worker", p.id, &base.to_string(), tier, &w.to_string(), &workers.to_string(), &total.to_string()])
            .stdout(Stdio::piped())
            .stderr(if std::env::var_os("DST_SLOW").is_some() { Stdio::inherit() } else { Stdio::null() })
            .stdin(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let out = ch.stdout.take().unwrap();
        kids.push(ch);
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send((w, Some(l))).is_err() {
                    return;
                }
            }
            let _ = tx.send((w, None));
        });
    }
    drop(tx);
    let n = workers as usize;
    let mut b = Batch::default();
    let mut at: Vec<u64> = vec![0; n];
    let mut done = vec![false; n];
    let mut clean = vec![false; n];
    let lower = |b: &mut Batch, i: u64, v: Violation| {
        if b.viol.as_ref().is_none_or(|x| i < x.0) {
            b.viol = Some((i, v));
        }
    };
    for (w, l) in rx {
        let w = w as usize;
        match l {
            Some(l) => {
                let f: Vec<&str> = l.splitn(4, '\t').collect();
                let num = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                match f[0] {
                    "R" => at[w] = num(1),
                    "V" => lower(&mut b, num(1), Violation { class: f[2].into(), msg: f.get(3).unwrap_or(&"").to_string() }),
                    "H" => {
                        clean[w] = true;
                        lower(&mut b, num(1), Violation { class: "hang".into(), msg: format!("a run did not finish within {} s", HANG.as_secs()) });
                    }
                    "N" => {
                        b.runs += num(1);
                        b.nontrivial += num(2);
                        b.steps += num(3);
                    }
                    "S" => *b.stats.entry(f[1].to_string()).or_insert(0) += num(2),
                    "D" => drop(b.digests.insert(u64::from_str_radix(f[1], 16).unwrap_or(0))),
                    "C" => drop(b.scheds.insert(u64::from_str_radix(f[1], 16).unwrap_or(0))),
                    "X" => drop(b.samples.insert(num(1))),
                    "E" => clean[w] = true,
                    _ => (),
                }
            }
            None => {
                done[w] = true;
                b.ended += 1;
                let st = kids[w].wait().map_err(|e| e.to_string())?;
                if !clean[w] {
                    lower(&mut b, at[w], Violation { class: "crash".into(), msg: format!("the process running the code under test died: {st}") });
                }
            }
        }
        // Once something failed, nobody needs to go past it.
        if let Some((i, _)) = &b.viol {
            let i = *i;
            if (0..n).all(|w| done[w] || at[w] > i || clean[w]) && b.ended < n {
                for (w, k) in kids.iter_mut().enumerate() {
                    if !done[w] && !clean[w] {
                        clean[w] = true;
                        let _ = k.kill();
                    }
                }
            }
        }
    }
    for mut k in kids {
        let _ = k.wait();
    }
    Ok(b)
}

/// Confirm in a fresh process, minimise, write the replay file.
fn report(p: &Prop, base: u64, thorough: bool, stride: u64, idx: u64, v: &Violation) -> Result<PathBuf, String> {
    let mut a = Attempt { prop: p.id.into(), seed: run_seed(base, p.id, idx), thorough, prefix: vec![], tapes: None, trace: false };
    let limit = HANG + Duration::from_secs(10);
    let mut got = spawn_attempt(&a, limit)?;
    if got.viol.is_none() {
        // Perhaps it needs what earlier runs left behind in the process.
        let mut k = 1;
        loop {
            let from = idx.saturating_sub(k * stride);
            a.prefix = (0..).map(|j| idx % stride + j * stride).skip_while(|i| *i < from).take_while(|i| *i < idx).map(|i| run_seed(base, p.id, i)).collect();
            got = spawn_attempt(&a, Duration::from_secs(200))?;
            if got.viol.is_some() || k * stride > idx {
                break;
            }
            k *= 4;
        }
    }
    let Some(first) = got.viol.clone() else {
        return Err(format!("run {idx} reported [{}] {} but does not repeat: the simulation is missing a source of nondeterminism", v.class, v.msg));
    };
    println!("run {idx} (seed {}): [{}] {}", a.seed, first.class, first.msg);
    let mut tries = 0;
    if first.class != "hang" && first.class != "crash" && got.tapes.is_some() {
        a.tapes = got.tapes.clone().map(trim);
        if spawn_attempt(&a, limit)?.viol.as_ref().map(|x| &x.class) == Some(&first.class) {
            let (s, t) = shrink(a.clone(), &first.class, Duration::from_secs(25), 600);
            a = s;
            tries = t;
        } else {
            a.tapes = None;
        }
    }
    a.trace = true;
    let fin = spawn_attempt(&a, limit)?;
    a.trace = false;
    let fv = fin.viol.clone().unwrap_or(first);
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}-{}.replay", p.id, fv.class.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), a.seed));
    let mut s = String::from("# Replay with: ./run.sh replay <this file>\n");
    s.push_str(&a.text());
    let _ = writeln!(s, "class: {}\nmessage: {}", fv.class, fv.msg);
    let _ = writeln!(s, "# found by VERIF_SEED={base} run {idx}; {tries} minimisation attempts; trace of the minimised run:");
    for l in &fin.log {
        for l in l.lines() {
            let _ = writeln!(s, "#   {l}");
        }
    }
    std::fs::write(&path, s).map_err(|e| e.to_string())?;
    println!("minimised ({tries} attempts): [{}] {}", fv.class, fv.msg);
    Ok(path)
}

pub fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Some(mut a) = Attempt::parse(&s) else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let field = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
    a.trace = true;
    match spawn_attempt(&a, HANG + Duration::from_secs(140)) {
        Err(e) => {
            eprintln!("harness error: {e}");
            2
        }
        Ok(v) => {
            for l in &v.log {
                println!("{l}");
            }
            match v.viol {
                Some(x) => {
                    let same = x.class == field("class") && (x.msg == field("message") || x.class == "hang" || x.class == "crash");
                    println!("[{}] {}", x.class, x.msg);
                    println!("{}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
                    println!("VIOLATION property={} replay={file}", a.prop);
                    1
                }
                None => {
                    println!("the property held: the recorded violation does not occur on this tree");
                    0
                }
            }
        }
    }
}

/// Print one line per run: digest, tapes' hashes, verdict.  Used by the
/// determinism test.
pub fn event_log(id: &str, seed: &str, from: &str, count: &str) -> i32 {
    quiet_panics();
    let p = props::find(id).expect("property");
    let (seed, from, count): (u64, u64, u64) = (seed.parse().unwrap(), from.parse().unwrap(), count.parse().unwrap());
    for i in from..from + count {
        let r = exec(&p, run_seed(seed, id, i), None, true, false);
        let mut h = 0u64;
        for x in r.ctx.plan.vals.iter().chain(&r.ctx.sched.vals) {
            h = mix(h, *x as u64);
        }
        let mut lh = 0u64;
        for l in r.ctx.log.iter().flatten() {
            lh = l.bytes().fold(lh, |a, b| (a ^ b as u64).wrapping_mul(0x100_0000_01b3));
        }
        println!("{i} {:x} {h:x} {lh:x} {} {:?}", r.ctx.digest, r.ctx.sim_steps, r.check.err().map(|v| v.class));
    }
    0
}

// -------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn obj(m: &[(String, u64)]) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

fn evidence(p: &Prop, base: u64, tier: &str, workers: u64, b: &Batch, violations: u64, t0: Instant) -> Result<(), String> {
    let mut samples = vec![];
    for i in b.samples.iter().take(2) {
        let a = Attempt { prop: p.id.into(), seed: run_seed(base, p.id, *i), thorough: tier == "thorough", prefix: vec![], tapes: None, trace: true };
        let v = spawn_attempt(&a, Duration::from_secs(30))?;
        let mut lines: Vec<String> = v.log.iter().take(60).map(|l| l.chars().take(400).collect()).collect();
        if v.log.len() > 60 {
            lines.push(format!("... {} more lines", v.log.len() - 60));
        }
        samples.push(format!(
            "{{\"run\": {i}, \"seed\": \"{}\", \"trace\": [{}]}}",
            a.seed,
            lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", ")
        ));
    }
    let group = |pre: &str| -> Vec<(String, u64)> { b.stats.iter().filter_map(|(k, v)| k.strip_prefix(pre).map(|k| (k.to_string(), *v))).collect() };
    let rest: Vec<(String, u64)> = b
        .stats
        .iter()
        .filter(|(k, _)| !["fault:", "probe:", "sched:"].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| (k.clone(), *v))
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let hooked = cfg!(llm_samplers_sim);
    let s = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {base}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"nontrivial_runs\": {},\n  \"distinct_schedules\": {},\n  \"simulated_time_scheduling_points\": {},\n  \"runs_per_hour\": {},\n  \"seeds\": \"every run has a seed of its own, derived from VERIF_SEED, the property and the run's index\",\n  \"worker_processes\": {workers},\n  \"faults_injected\": {},\n  \"scheduler\": {},\n  \"probes\": {},\n  \"workload\": {},\n  \"hook_on\": {hooked},\n  \"real_components\": {},\n  \"simulated_components\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"sampling, not enumeration: a clean batch is evidence, not proof\", \"scheduling points are lock operations, resource accesses and stage boundaries; between them a task runs undisturbed; memory shared without locks or atomics, of which the crate has none, would be seen only at those points\"],\n \"wall_s\": {wall:.3}, \"violations\": {violations}\n}}\n",
        js(p.id),
        js(tier),
        b.runs,
        b.digests.len(),
        js(p.rule),
        b.nontrivial,
        b.scheds.len(),
        b.steps,
        (b.runs as f64 / wall.max(1e-9) * 3600.0) as u64,
        obj(&group("fault:")),
        obj(&group("sched:")),
        obj(&group("probe:")),
        obj(&rest),
        js(p.real),
        js(p.stub),
        samples.join(", "),
    );
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join(format!("{}.json", p.id)), s).map_err(|e| e.to_string())
}
