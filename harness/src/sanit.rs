//! The sanitizer stage: the same check, the same seed, rebuilt with the compiler's
//! address or thread sanitizer (the latter with an instrumented standard library) and
//! run over a slice of its cases. Only a report of the sanitizer is a violation here -
//! everything else has been decided by the plain build - and a stage that cannot be
//! built or run is recorded as such.
use crate::fw::*;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// (sanitizer, cases quick, cases thorough)
pub fn wanted(id: &str) -> Option<(&'static str, u64, u64)> {
    match id {
        "C08" => Some(("address", 30_000, 2_000_000)),
        "C29" => Some(("address", 100_000, 5_000_000)),
        "C04" => Some(("thread", 2_500, 150_000)),
        "C26" => Some(("thread", 4_000, 300_000)),
        _ => None,
    }
}

const TARGET: &str = "x86_64-unknown-linux-gnu";

pub fn stage(id: &'static str, seed: u64, t: Tier) -> i32 {
    let Some((kind, q, th)) = wanted(id) else { return EXIT_OK };
    let (n, limit) = if t == Tier::Quick { (q, 150) } else { (th, 3000) };
    let name = if kind == "thread" { "tsan" } else { "asan" };
    let home = verif_dir();
    let target = format!("{home}/harness/target/{name}");
    let t0 = Instant::now();
    // cargo decides by file times; judge the tree that is there now instead
    if let Ok(rd) = std::fs::read_dir(format!("{target}/{TARGET}/release/.fingerprint")) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("satellite-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let mut build = Command::new("cargo");
    build.args(["+nightly", "build", "--release", "--offline", "--target", TARGET]);
    if kind == "thread" {
        build.arg("-Zbuild-std");
    }
    build
        .current_dir(format!("{home}/harness"))
        .env("CARGO_TARGET_DIR", &target)
        .env("CARGO_NET_OFFLINE", "true")
        .env("RUSTFLAGS", format!("-Zsanitizer={kind}"));
    let (ended, txt) = watched(build, &format!("{home}/evidence/.{name}-build-{id}-{}.log", std::process::id()), 400);
    if ended != Some(0) {
        let why = txt.lines().find(|l| l.starts_with("error")).unwrap_or("out of time").to_string();
        return absent(id, name, &format!("build: {why}"));
    }
    let built = t0.elapsed().as_secs_f64();
    let scratch = format!("{home}/evidence/.{name}-{id}-{}", std::process::id());
    let _ = std::fs::create_dir_all(format!("{scratch}/evidence"));
    let mut run = Command::new(format!("{target}/{TARGET}/release/satmon"));
    run.args(["child", id, &seed.to_string(), "quick"])
        .arg(format!("{scratch}/progress"))
        .env("SATMON_VERIF", &scratch)
        .env("SATMON_CASES", n.to_string())
        .env("ASAN_OPTIONS", "detect_leaks=0:exitcode=66:symbolize=0")
        .env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:history_size=4");
    let (ended, txt) = watched(run, &format!("{scratch}/log"), limit);
    let done = std::fs::read_to_string(format!("{scratch}/evidence/{id}.json")).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&scratch);
    let bad = txt.lines().find(|l| {
        (l.contains("ERROR: AddressSanitizer") && !l.contains("stack-overflow") && !l.contains("out of memory") && !l.contains("exceeds maximum"))
            || l.contains("WARNING: ThreadSanitizer: data race")
            || l.contains("WARNING: ThreadSanitizer: heap-use-after-free")
    });
    if let Some(b) = bad {
        let path = format!("{home}/evidence/replay/{id}-s{seed}-{name}.txt");
        let _ = std::fs::create_dir_all(format!("{home}/evidence/replay"));
        let tail: String = txt.chars().take(20000).collect();
        let _ = std::fs::write(&path, format!("property={id}\nseed={seed}\nstage={name}\ntier={}\n{tail}\n", tier_name(t)));
        println!("  {name}: {}", b.trim());
        note(id, name, &format!("\"ran\": true, \"report\": \"{}\"", esc(b.trim())));
        println!("VIOLATION property={id} replay={path}");
        return EXIT_VIOLATION;
    }
    let field = |k: &str| -> u64 {
        let k = format!("\"{k}\": ");
        done.find(&k).and_then(|i| done[i + k.len()..].split(|c: char| !c.is_ascii_digit()).next().and_then(|v| v.parse().ok())).unwrap_or(0)
    };
    let calls = field("calls_into_code_under_test");
    match ended {
        None => return absent(id, name, "out of time"),
        Some(_) if calls == 0 => return absent(id, name, txt.lines().last().unwrap_or("no output")),
        _ => {}
    }
    println!("  {name}: {n} cases, {calls} calls, no report, built in {built:.0}s, {:.0}s", t0.elapsed().as_secs_f64());
    note(id, name, &format!("\"ran\": true, \"cases\": {n}, \"calls\": {calls}, \"reports\": 0, \"build_s\": {built:.1}, \"wall_s\": {:.1}", t0.elapsed().as_secs_f64()));
    EXIT_OK
}

fn absent(id: &str, name: &str, why: &str) -> i32 {
    println!("  {name}: did not run ({why})");
    note(id, name, &format!("\"ran\": false, \"why\": \"{}\"", esc(why)));
    EXIT_OK
}

/// Run to the end or to the limit (None); what it printed.
pub fn watched(mut c: Command, log: &str, limit: u64) -> (Option<i32>, String) {
    let Ok(out) = std::fs::File::create(log) else { return (None, String::new()) };
    let t0 = Instant::now();
    let child: std::io::Result<Child> = c
        .process_group(0)
        .stdin(Stdio::null())
        .stdout(out.try_clone().map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
        .stderr(Stdio::from(out))
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            let _ = std::fs::remove_file(log);
            return (None, e.to_string());
        }
    };
    let code = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s.code().unwrap_or(-1)),
            Ok(None) if t0.elapsed() < Duration::from_secs(limit) => std::thread::sleep(Duration::from_millis(50)),
            _ => {
                let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).status();
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        }
    };
    let mut txt = String::new();
    let mut raw = Vec::new();
    let _ = std::fs::File::open(log).and_then(|mut f| f.read_to_end(&mut raw));
    txt.push_str(&String::from_utf8_lossy(&raw));
    let _ = std::fs::remove_file(log);
    (code, txt)
}

/// Put the stage's record into the evidence the check has just written.
fn note(id: &str, name: &str, fields: &str) {
    let p = format!("{}/evidence/{id}.json", verif_dir());
    if let Ok(s) = std::fs::read_to_string(&p) {
        let _ = std::fs::write(&p, s.replacen("\"coverage\": {", &format!("\"coverage\": {{\n    \"{name}\": {{{fields}}},"), 1));
    }
}
