//! The interpreter stage: small workloads of /verif/miri under Miri, which watches
//! every access for undefined behaviour and data races. Only a report by Miri or by
//! the workload's own oracle is a violation; a stage that cannot run is recorded as such.
use crate::fw::*;
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn wanted(id: &str) -> bool {
    id == "C04" || id == "C08"
}

pub fn stage(id: &'static str, seed: u64, t: Tier) -> i32 {
    let (n, limit) = if matches!(t, Tier::Quick) { (8u64, 300) } else { (96, 3000) };
    let dir = format!("{}/miri", verif_dir());
    let t0 = Instant::now();
    let lo = seed.wrapping_mul(1000) % 1_000_000_000;
    let log = format!("{}/evidence/.miri-{id}-{}.log", verif_dir(), std::process::id());
    let out = match std::fs::File::create(&log) {
        Ok(f) => f,
        Err(_) => return EXIT_OK,
    };
    // cargo decides by file times; judge the tree that is there now instead
    if let Ok(rd) = std::fs::read_dir(format!("{dir}/target/miri/x86_64-unknown-linux-gnu/debug/.fingerprint")) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with("satellite-") {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
    let child = Command::new("cargo")
        .args(["+nightly", "miri", "run", "--offline", "-q", "--", id, &seed.to_string()])
        .current_dir(&dir)
        .env("CARGO_TARGET_DIR", format!("{dir}/target"))
        .env("CARGO_NET_OFFLINE", "true")
        .env("MIRIFLAGS", format!("-Zmiri-deterministic-floats -Zmiri-many-seeds={}..{}", lo, lo + n))
        .process_group(0)
        .stdin(Stdio::null())
        .stdout(out.try_clone().map(Stdio::from).unwrap_or_else(|_| Stdio::null()))
        .stderr(Stdio::from(out))
        .spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            note(id, &format!("\"ran\": false, \"why\": \"{}\"", esc(&e.to_string())));
            return EXIT_OK;
        }
    };
    let ended = loop {
        match child.try_wait() {
            Ok(Some(_)) => break true,
            Ok(None) if t0.elapsed() > Duration::from_secs(limit) => {
                let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).status();
                let _ = child.kill();
                let _ = child.wait();
                break false;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(50)),
            Err(_) => break false,
        }
    };
    let mut txt = String::new();
    let _ = std::fs::File::open(&log).and_then(|mut f| f.read_to_string(&mut txt));
    let _ = std::fs::remove_file(&log);
    let oks: Vec<u64> = txt.lines().filter_map(|l| l.trim().strip_prefix("MON-OK ")).filter_map(|v| v.parse().ok()).collect();
    let bad = txt.lines().find(|l| l.contains("MON-VIOLATION") || l.contains("error: Undefined Behavior") || l.contains("Data race detected"));
    if let Some(b) = bad {
        let path = format!("{}/evidence/replay/{id}-s{seed}-miri.txt", verif_dir());
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", verif_dir()));
        let tail: String = txt.chars().take(20000).collect();
        let _ = std::fs::write(&path, format!(
            "property={id}\nseed={seed}\nstage=miri\ncommand=cd {dir} && MIRIFLAGS='-Zmiri-deterministic-floats -Zmiri-many-seeds={lo}..{}' cargo +nightly miri run --offline -- {id} {seed}\n{tail}\n", lo + n));
        println!("  miri: {}", b.trim());
        note(id, &format!("\"ran\": true, \"report\": \"{}\"", esc(b.trim())));
        println!("VIOLATION property={id} replay={path}");
        return EXIT_VIOLATION;
    }
    let wall = t0.elapsed().as_secs_f64();
    if oks.is_empty() {
        let why = if ended { txt.lines().find(|l| l.contains("error")).unwrap_or("no output").to_string() } else { "out of time".into() };
        println!("  miri: did not run ({why})");
        note(id, &format!("\"ran\": false, \"why\": \"{}\"", esc(&why)));
    } else {
        println!("  miri: {} schedules, {} observations, no report, {wall:.0}s", oks.len(), oks.iter().sum::<u64>());
        note(id, &format!("\"ran\": true, \"schedules\": {}, \"observations\": {}, \"reports\": 0, \"wall_s\": {wall:.1}", oks.len(), oks.iter().sum::<u64>()));
    }
    EXIT_OK
}

/// Put the stage's record into the evidence the check has just written.
fn note(id: &str, fields: &str) {
    let p = format!("{}/evidence/{id}.json", verif_dir());
    if let Ok(s) = std::fs::read_to_string(&p) {
        let _ = std::fs::write(&p, s.replacen("\"coverage\": {", &format!("\"coverage\": {{\n    \"miri\": {{{fields}}},"), 1));
    }
}
