//! Monitoring framework: runs the deterministic cases of a check on all cores
//! under panic, divergence and memory monitors, aggregates what the oracles
//! observed, and writes evidence, replay files and the verdict.
//!
//! Verdicts: 0 held on everything observed, 1 violated (with a replay file),
//! 2 inconclusive (too little observed, watchdog, harness error).

use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const EXIT_OK: i32 = 0;
pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_INCONCLUSIVE: i32 = 2;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of cases (quick, thorough)
    pub cases: (u64, u64),
    pub case: fn(&mut Ctx),
    /// strata (counted by the workload generator or the reference model, never
    /// by the code under test) that a run must have reached to be conclusive
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct Violation {
    pub idx: u64,
    pub msg: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub seed: u64,
    pub tier: Tier,
    pub idx: u64,
    pub rng: Rng,
    pub replaying: bool,
    slot: usize,
    evals: u64,
    calls: u64,
    skipped: u64,
    strata: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    max_dev: BTreeMap<&'static str, f64>,
    violations: Vec<Violation>,
}

const MAX_WORKERS: usize = 64;
struct Slot {
    /// odd while inside the code under test
    seq: AtomicU64,
    idx: AtomicU64,
    clock: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot { seq: AtomicU64::new(0), idx: AtomicU64::new(u64::MAX), clock: AtomicU64::new(u64::MAX) };
static SLOTS: [Slot; MAX_WORKERS] = [SLOT0; MAX_WORKERS];

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
}

fn own_cpu_clock() -> u64 {
    let mut c = 0i32;
    // SAFETY: plain libc calls with valid out-pointers.
    unsafe {
        if pthread_getcpuclockid(pthread_self(), &mut c) != 0 {
            return u64::MAX;
        }
    }
    c as u32 as u64
}

fn cpu_seconds(clock: u64) -> Option<f64> {
    if clock == u64::MAX {
        return None;
    }
    let mut t = Timespec { s: 0, ns: 0 };
    // SAFETY: valid out-pointer; a stale clock id only yields an error.
    let r = unsafe { clock_gettime(clock as u32 as i32, &mut t) };
    if r == 0 { Some(t.s as f64 + t.ns as f64 * 1e-9) } else { None }
}

/// CPU seconds used by this thread.
pub fn thread_cpu() -> f64 {
    cpu_seconds(3).unwrap_or(0.0) // CLOCK_THREAD_CPUTIME_ID
}

fn rss_gb() -> f64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<f64>().ok()))
        .map(|p| p * 4096.0 / 1e9)
        .unwrap_or(0.0)
}

impl Ctx {
    /// Run the code under test; a panic becomes `Err(message)`.
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.calls += 1;
        let s = &SLOTS[self.slot].seq;
        s.fetch_add(1, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        s.fetch_add(1, Ordering::Relaxed);
        r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
    }

    /// Like `call`, but a panic is itself a violation.
    pub fn must<T>(&mut self, what: impl Fn() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match self.call(f) {
            Ok(v) => Some(v),
            Err(m) => {
                let w = what();
                self.viol(format!("panic in {w}: {m}"));
                None
            }
        }
    }

    pub fn viol(&mut self, msg: String) {
        if self.violations.len() < 20 {
            self.violations.push(Violation { idx: self.idx, msg });
        }
    }

    /// One oracle comparison; `ok == false` is a violation.
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let m = msg();
            self.viol(m);
        }
        ok
    }

    /// |got - want| <= tol, with the worst ratio recorded under `what`.
    pub fn close(&mut self, what: &'static str, got: f64, want: f64, tol: f64, msg: impl FnOnce() -> String) -> bool {
        let d = (got - want).abs();
        self.dev(what, d / tol);
        self.check(d <= tol, || format!("{what}: got {got:e} want {want:e} |diff| {d:e} > tol {tol:e}; {}", msg()))
    }

    pub fn dev(&mut self, what: &'static str, ratio: f64) {
        let e = self.max_dev.entry(what).or_insert(0.0);
        if ratio > *e {
            *e = ratio;
        }
    }

    pub fn strat(&mut self, s: &'static str) {
        *self.strata.entry(s).or_insert(0) += 1;
    }

    pub fn skip(&mut self) {
        self.skipped += 1;
    }

    /// Record a distinct, non-trivial case.
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 3_000_000 {
            self.distinct.insert(h);
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 || (self.samples.len() < 12 && self.idx % 97 == 0) {
            let s = f();
            self.samples.push(s);
        }
    }

    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }
}

fn new_ctx(id: &'static str, seed: u64, tier: Tier, slot: usize) -> Ctx {
    Ctx {
        id, seed, tier, idx: 0,
        rng: Rng::new(0),
        replaying: false,
        slot,
        evals: 0, calls: 0, skipped: 0,
        strata: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: Vec::new(),
        max_dev: BTreeMap::new(),
        violations: Vec::new(),
    }
}

fn run_case(check: &Check, ctx: &mut Ctx, idx: u64) -> bool {
    ctx.idx = idx;
    ctx.rng = Rng::for_case(ctx.seed, check.id, idx);
    SLOTS[ctx.slot].idx.store(idx, Ordering::Relaxed);
    // A panic that escapes here is a bug of the harness, not of the code under test.
    match catch_unwind(AssertUnwindSafe(|| (check.case)(ctx))) {
        Ok(()) => true,
        Err(_) => {
            let m = PANIC_MSG.with(|m| m.borrow().clone());
            eprintln!("harness error in case {idx} of {}: {m}", check.id);
            false
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o
}

pub fn verif_dir() -> String {
    std::env::var("SATMON_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn replay_path(id: &str, seed: u64, idx: u64) -> String {
    format!("{}/evidence/replay/{}-s{}-c{}.txt", verif_dir(), id, seed, idx)
}

fn write_replay(id: &str, seed: u64, tier: Tier, v: &Violation) -> String {
    let path = replay_path(id, seed, v.idx);
    let _ = std::fs::create_dir_all(format!("{}/evidence/replay", verif_dir()));
    let body = format!(
        "property={id}\nseed={seed}\ncase={}\ntier={}\n# re-run with: ./check.sh {id} --replay {path}\n\n{}\n",
        v.idx, tier_name(tier), v.msg
    );
    let _ = std::fs::write(&path, body);
    path
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn num(x: f64) -> String {
    if x.is_finite() { format!("{x:e}") } else { "1e308".into() }
}

struct Totals {
    evals: u64,
    calls: u64,
    skipped: u64,
    cases: u64,
    strata: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    max_dev: BTreeMap<&'static str, f64>,
    violations: Vec<Violation>,
    harness_errors: u64,
}

fn write_evidence(check: &Check, seed: u64, tier: Tier, t: &Totals, wall: f64, note: &str) {
    let mut o = String::new();
    let _ = write!(o, "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n", check.id, tier_name(tier), seed);
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n", t.evals, t.distinct.len(), esc(check.rule));
    let _ = write!(o, "  \"cases\": {},\n  \"calls_into_code_under_test\": {},\n  \"skipped_ill_conditioned\": {},\n", t.cases, t.calls, t.skipped);
    let _ = write!(o, "  \"strata_observed\": {{");
    for (i, (k, v)) in t.strata.iter().enumerate() {
        let _ = write!(o, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    let _ = write!(o, "}},\n  \"max_deviation_over_tolerance\": {{");
    for (i, (k, v)) in t.max_dev.iter().enumerate() {
        let _ = write!(o, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), num(*v));
    }
    let _ = write!(o, "}},\n  \"samples\": [");
    for (i, s) in t.samples.iter().take(8).enumerate() {
        let _ = write!(o, "{}\n   \"{}\"", if i > 0 { "," } else { "" }, esc(s));
    }
    let _ = write!(o, "],\n  \"note\": \"{}\"\n }},\n \"assumptions\": [", esc(note));
    for (i, s) in check.assumptions.iter().enumerate() {
        let _ = write!(o, "{}\"{}\"", if i > 0 { ", " } else { "" }, esc(s));
    }
    let _ = write!(o, "],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, t.violations.len());
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{}.tmp", check.id);
    if std::fs::write(&tmp, o).is_ok() {
        let _ = std::fs::rename(&tmp, format!("{dir}/{}.json", check.id));
    }
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Run a check to its verdict, in this process.
pub fn run(check: &'static Check, seed: u64, tier: Tier, progress: Option<&str>) -> i32 {
    quiet_panics();
    let start = Instant::now();
    let n = match std::env::var("SATMON_CASES").ok().and_then(|s| s.parse::<u64>().ok()) {
        Some(n) => n,
        None => if tier == Tier::Quick { check.cases.0 } else { check.cases.1 },
    };
    let soft = Duration::from_secs(if tier == Tier::Quick { 240 } else { 3000 });
    let hard = Duration::from_secs(if tier == Tier::Quick { 800 } else { 4 * 3600 });
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(1, 16);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let live = AtomicUsize::new(workers);
    let totals = Mutex::new(Totals {
        evals: 0, calls: 0, skipped: 0, cases: 0,
        strata: BTreeMap::new(), distinct: HashSet::new(), samples: Vec::new(),
        max_dev: BTreeMap::new(), violations: Vec::new(), harness_errors: 0,
    });
    let prog = progress.and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok());
    let prog = prog.as_ref();

    std::thread::scope(|sc| {
        for w in 0..workers {
            let (next, stop, live, totals) = (&next, &stop, &live, &totals);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    SLOTS[w].clock.store(own_cpu_clock(), Ordering::Relaxed);
                    let mut ctx = new_ctx(check.id, seed, tier, w);
                    let mut done = 0u64;
                    let mut herr = 0u64;
                    while !stop.load(Ordering::Relaxed) {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= n || start.elapsed() > soft {
                            break;
                        }
                        if let Some(f) = prog {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&(idx + 1).to_le_bytes(), (w * 8) as u64);
                        }
                        if !run_case(check, &mut ctx, idx) {
                            herr += 1;
                            stop.store(true, Ordering::Relaxed);
                        }
                        done += 1;
                        if ctx.failed() {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    if let Some(f) = prog {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&0u64.to_le_bytes(), (w * 8) as u64);
                    }
                    let mut t = totals.lock().unwrap();
                    t.evals += ctx.evals;
                    t.calls += ctx.calls;
                    t.skipped += ctx.skipped;
                    t.cases += done;
                    t.harness_errors += herr;
                    for (k, v) in ctx.strata {
                        *t.strata.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in ctx.max_dev {
                        let e = t.max_dev.entry(k).or_insert(0.0);
                        if v > *e {
                            *e = v;
                        }
                    }
                    if t.distinct.len() < 20_000_000 {
                        t.distinct.extend(ctx.distinct);
                    }
                    t.samples.extend(ctx.samples);
                    t.violations.extend(ctx.violations);
                    SLOTS[w].clock.store(u64::MAX, Ordering::Relaxed);
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("spawn worker");
        }
        // Watchdog: a single call that burns 30 s of its own CPU time does not
        // return on inputs where a normal call takes micro- to milliseconds.
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); workers];
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let rss = rss_gb();
            for w in 0..workers {
                let s = SLOTS[w].seq.load(Ordering::Relaxed);
                if s % 2 == 0 {
                    seen[w] = (0, 0.0);
                    continue;
                }
                let Some(cpu) = cpu_seconds(SLOTS[w].clock.load(Ordering::Relaxed)) else { continue };
                if seen[w].0 != s {
                    seen[w] = (s, cpu);
                    continue;
                }
                let used = cpu - seen[w].1;
                if used > 30.0 || (used > 0.5 && rss > 6.0) {
                    let v = Violation {
                        idx: SLOTS[w].idx.load(Ordering::Relaxed),
                        msg: format!("a call does not return: {used:.1} s of CPU time in one call, process at {rss:.1} GB"),
                    };
                    let mut t = totals.lock().unwrap();
                    t.violations.push(v);
                    finish(check, seed, tier, &mut t, start.elapsed().as_secs_f64(), n);
                    std::process::exit(EXIT_VIOLATION);
                }
            }
            if start.elapsed() > hard || rss > 14.0 {
                eprintln!("inconclusive: watchdog ({:.0} s, {rss:.1} GB)", start.elapsed().as_secs_f64());
                std::process::exit(EXIT_INCONCLUSIVE);
            }
        }
    });
    let mut t = totals.into_inner().unwrap();
    finish(check, seed, tier, &mut t, start.elapsed().as_secs_f64(), n)
}

fn finish(check: &Check, seed: u64, tier: Tier, t: &mut Totals, wall: f64, planned: u64) -> i32 {
    t.violations.sort_by_key(|v| v.idx);
    t.samples.sort();
    t.samples.dedup();
    // spread the samples instead of taking the alphabetically first ones
    if t.samples.len() > 8 {
        let k = t.samples.len();
        t.samples = (0..8).map(|i| t.samples[i * k / 8].clone()).collect();
    }
    let mut missing: Vec<&str> = check.required.iter().copied().filter(|s| !t.strata.contains_key(s)).collect();
    if t.evals == 0 || t.distinct.is_empty() {
        missing.push("any evaluation");
    }
    let note = format!("{} of {} planned cases ran", t.cases, planned);
    write_evidence(check, seed, tier, t, wall, &note);
    println!(
        "{} {} seed={} cases={} evaluations={} distinct={} calls={} skipped={} wall={:.1}s",
        check.id, tier_name(tier), seed, t.cases, t.evals, t.distinct.len(), t.calls, t.skipped, wall
    );
    for (k, v) in &t.max_dev {
        println!("  worst {k}: {v:.3e} of tolerance");
    }
    if let Some(v) = t.violations.first() {
        let path = write_replay(check.id, seed, tier, v);
        println!("  case {}: {}", v.idx, v.msg);
        println!("VIOLATION property={} replay={}", check.id, path);
        let _ = std::io::stdout().flush();
        return EXIT_VIOLATION;
    }
    if t.harness_errors > 0 {
        println!("inconclusive: harness error");
        return EXIT_INCONCLUSIVE;
    }
    if !missing.is_empty() {
        println!("inconclusive: not observed: {}", missing.join(", "));
        return EXIT_INCONCLUSIVE;
    }
    if t.cases * 20 < planned {
        println!("inconclusive: only {} of {} cases ran in time", t.cases, planned);
        return EXIT_INCONCLUSIVE;
    }
    EXIT_OK
}

/// Run one case alone; exit status as for `run`.
pub fn replay(check: &'static Check, seed: u64, tier: Tier, idx: u64) -> i32 {
    quiet_panics();
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let mut ctx = new_ctx(check.id, seed, tier, 0);
            ctx.replaying = true;
            let ok = run_case(check, &mut ctx, idx);
            (ok, ctx.evals, ctx.violations)
        })
        .expect("spawn");
    let Ok((ok, evals, viol)) = h.join() else { return EXIT_INCONCLUSIVE };
    println!("{} case {idx} seed {seed}: {evals} evaluations, {} violations", check.id, viol.len());
    for v in &viol {
        println!("  {}", v.msg);
    }
    if !viol.is_empty() {
        println!("VIOLATION property={} replay={}", check.id, replay_path(check.id, seed, idx));
        EXIT_VIOLATION
    } else if ok {
        EXIT_OK
    } else {
        EXIT_INCONCLUSIVE
    }
}

/// Run the check in a child process, so that a stack overflow or abort in the
/// code under test is observed instead of ending the monitor.
pub fn supervise(check: &'static Check, seed: u64, tier: Tier) -> i32 {
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            eprintln!("inconclusive: {e}");
            return EXIT_INCONCLUSIVE;
        }
    };
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let prog = format!("{dir}/.progress-{}-{}", check.id, std::process::id());
    let t0 = Instant::now();
    let status = std::process::Command::new(&exe)
        .args(["child", check.id, &seed.to_string(), tier_name(tier), &prog])
        .status();
    let data = std::fs::read(&prog).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            eprintln!("inconclusive: {e}");
            return EXIT_INCONCLUSIVE;
        }
    };
    use std::os::unix::process::ExitStatusExt;
    if let Some(c) = status.code() {
        return c;
    }
    let sig = status.signal().unwrap_or(0);
    // SIGABRT / SIGSEGV / SIGILL / SIGBUS / SIGFPE: find the case that did it, alone.
    if [4, 6, 7, 8, 11].contains(&sig) {
        for c in data.chunks_exact(8) {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            if v == 0 {
                continue;
            }
            let idx = v - 1;
            let s = std::process::Command::new(&exe)
                .args(["case", check.id, &seed.to_string(), tier_name(tier), &idx.to_string()])
                .stdout(std::process::Stdio::null())
                .status();
            if let Ok(s) = s {
                if let Some(sg) = s.signal() {
                    if [4, 6, 7, 8, 11].contains(&sg) {
                        let v = Violation { idx, msg: format!("the process is ended by signal {sg} (stack overflow or abort) in this case") };
                        let mut t = Totals {
                            evals: 1, calls: 1, skipped: 0, cases: 1,
                            strata: BTreeMap::new(), distinct: HashSet::new(), samples: vec![v.msg.clone()],
                            max_dev: BTreeMap::new(), violations: vec![v], harness_errors: 0,
                        };
                        return finish(check, seed, tier, &mut t, t0.elapsed().as_secs_f64(), 1);
                    }
                }
            }
        }
    }
    eprintln!("inconclusive: child ended by signal {sig}");
    EXIT_INCONCLUSIVE
}
