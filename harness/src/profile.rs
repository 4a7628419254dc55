//! C28: the same source built under other profiles (crate `digest`, built by
//! check.sh) must answer every call as this build does.

use crate::fw::{verif_dir, Check, Ctx};
use crate::menu::*;
use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

const PROFILES: [(&str, &str); 2] = [("debug", "unoptimised build with assertions"), ("release", "optimised build without assertions")];

struct Server(Child);

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

thread_local! {
    static SERVERS: RefCell<[Option<Server>; 2]> = const { RefCell::new([None, None]) };
}

extern "C" {
    fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
}

struct Answer {
    call: u64,
    ok: bool,
    out: Out,
}

/// Wait until the child has something to say.
fn ready(s: &Server) -> bool {
    use std::os::fd::AsRawFd;
    let Some(o) = s.0.stdout.as_ref() else { return false };
    let mut fd = [o.as_raw_fd(), 1]; // { int fd; short events = POLLIN; short revents }
    // SAFETY: one valid pollfd.
    unsafe { poll(&mut fd, 1, 300_000) == 1 }
}

fn ask(s: &mut Server, kind: u64, seed: u64) -> Option<Answer> {
    let mut q = kind.to_le_bytes().to_vec();
    q.extend(seed.to_le_bytes());
    let i = s.0.stdin.as_mut()?;
    i.write_all(&q).ok()?;
    i.flush().ok()?;
    if !ready(s) {
        return None;
    }
    let o = s.0.stdout.as_mut()?;
    let mut w = [0u8; 8];
    o.read_exact(&mut w).ok()?;
    let len = u64::from_le_bytes(w);
    if len > 1 << 30 {
        return None;
    }
    let mut b = vec![0u8; len as usize];
    o.read_exact(&mut b).ok()?;
    let mut at = 0;
    let mut get = || {
        let x = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
        at += 8;
        x
    };
    let (call, ok, n) = (get(), get() == 1, get());
    let num = (0..n).map(|_| get()).collect();
    let n = get();
    let mut text = vec![];
    for _ in 0..n {
        let l = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
        at += 8;
        text.push(String::from_utf8_lossy(&b[at..at + l]).into_owned());
        at += l;
    }
    Some(Answer { call, ok, out: Out { num, text } })
}

/// Equal, up to what another order of rounding may do to a well-conditioned answer.
fn same(a: u64, b: u64, rel: f64) -> (bool, f64) {
    if a == b {
        return (true, 0.0);
    }
    let (x, y) = (f64::from_bits(a), f64::from_bits(b));
    if x.is_nan() && y.is_nan() {
        return (true, 0.0);
    }
    let tol = 1e-9 + rel * x.abs().max(y.abs());
    let (d, lo, hi) = ((x - y).abs(), x.min(y), x.max(y));
    // one side of the seam of an angle or the other
    let pi = std::f64::consts::PI;
    let seam = [(-pi, pi), (0.0, 2.0 * pi), (-180.0, 180.0), (0.0, 360.0)].iter().any(|(l, h)| (lo - l).abs() < 1e-6 && (hi - h).abs() < 1e-6);
    (d <= tol || seam, if seam { 0.0 } else { d / tol })
}

fn profile_case(ctx: &mut Ctx) {
    let kind = (ctx.idx % KINDS.len() as u64) as usize;
    let seed = ctx.rng.u64();
    // orbits of every sort now and then; the rest well conditioned
    let any = (1..=3).contains(&kind) && ctx.rng.chance(0.5);
    let c = Call::draw(&mut Rng::new(seed), kind, !any);
    ctx.strat(KINDS[kind]);
    ctx.strat(if any { "orbits of every sort" } else { "well-conditioned calls" });
    let here = ctx.call(|| c.run());
    let h = hash(&c);
    ctx.seen(h);
    for (k, (dir, name)) in PROFILES.iter().enumerate() {
        let there = SERVERS.with(|s| {
            let s = &mut s.borrow_mut()[k];
            if s.is_none() {
                let bin = format!("{}/digest/target/{dir}/digest", verif_dir());
                *s = Command::new(&bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok().map(Server);
                assert!(s.is_some(), "{bin} does not run");
            }
            let a = s.as_mut().and_then(|s| ask(s, kind as u64 + if any { 100 } else { 0 }, seed));
            if a.is_none() {
                *s = None;
            }
            a
        });
        let short = || format!("{c:?}").chars().take(900).collect::<String>();
        let Some(a) = there else {
            ctx.viol(format!("the {name} ended or did not answer; {}", short()));
            return;
        };
        if a.call != h {
            // the generator itself rounded differently: not the same call
            ctx.skip();
            continue;
        }
        ctx.strat(name);
        if !ctx.check(a.ok == here.is_ok(), || format!("the {name} {}, this one {}; {}", if a.ok { "returns" } else { "panics" }, match &here { Ok(_) => "returns".to_string(), Err(m) => format!("panics ({m})") }, short())) {
            return;
        }
        let Ok(o) = &here else { continue };
        if a.out == *o {
            ctx.strat("identical to the last bit");
            ctx.check(true, String::new);
            continue;
        }
        if any {
            // rounding may decide where the theory is chaotic or at the edge of a verdict
            let near: Vec<Out> = [1e-12, -1e-12, 1e-11, -1e-11].iter().filter_map(|b| ctx.call(|| c.nudged(*b).run()).ok()).collect();
            let calm = near.len() == 4 && near.iter().all(|n| n.text == o.text && n.num.len() == o.num.len() && n.num.iter().zip(&o.num).all(|(x, y)| same(*x, *y, 1e-7).0));
            if !calm || c.ecc() > 0.98 {
                ctx.skip();
                continue;
            }
        }
        if !ctx.check(a.out.text == o.text && a.out.num.len() == o.num.len(), || format!("the {name} answers {:?}, this one {:?}; {}", a.out.text, o.text, short())) {
            return;
        }
        for j in 0..o.num.len() {
            // of records from damaged or extreme text, what was read
            if kind == 0 && !matches!(j % 99, 0..=6 | 7 | 10 | 13 | 96..=98) {
                continue;
            }
            let (ok, dev) = same(a.out.num[j], o.num[j], if (1..=3).contains(&kind) { 1e-7 } else { 1e-9 });
            ctx.dev("difference between builds", dev);
            if !ctx.check(ok, || format!("the {name} gives {:e} as number {j}, this one {:e}; {}", f64::from_bits(a.out.num[j]), f64::from_bits(o.num[j]), short())) {
                return;
            }
        }
    }
    ctx.sample(|| format!("{c:?}").chars().take(300).collect());
}

pub const C28: Check = Check {
    id: "C28",
    rule: "calls of every kind (ordinary and extreme orbits; good, damaged and junk text) answered by three builds of the same source: the monitor's own, an unoptimised one with assertions and overflow checks, a fully optimised one without; same texts and verdicts, same numbers up to rounding, no panic in one only; a case is one call answered by all three",
    cases: (250_000, 15_000_000),
    case: profile_case,
    required: &[
        "unoptimised build with assertions", "optimised build without assertions", "orbits of every sort", "well-conditioned calls",
        "parsing", "predictions from text", "predictions from elements", "predictions for datetimes", "calendar", "sidereal time", "frames", "look angles",
        "vectors and doppler", "angles", "stages",
    ],
    assumptions: &["one processor architecture"],
};
