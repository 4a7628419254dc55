//! Checks about every call alike: C26 (silent and repeatable), C27 (bounded
//! resources), C29 (returns for every number).

use crate::fw::{thread_cpu, Check, Ctx, Tier};
use crate::gen::{self, Tle};
use crate::menu::*;
use crate::rng::{Hash, Rng};
use crate::watch;
use satellite::io::{parse, parse_multiple, twoline2satrec, Satrec};
use satellite::propogation::sgp4::sgp4;
use satellite::propogation::sgp4init::sgp4init;


fn short(c: &Call) -> String {
    format!("{c:?}").chars().take(600).collect()
}

// ---------------------------------------------------------------- C26

/// First place where two outcomes of the same call differ.
fn differ(a: &Out, b: &Out) -> String {
    if let Some(k) = (0..a.num.len().min(b.num.len())).find(|k| a.num[*k] != b.num[*k]) {
        return format!("number {k}: {:e} then {:e}", f64::from_bits(a.num[k]), f64::from_bits(b.num[k]));
    }
    if let Some(k) = (0..a.text.len().min(b.text.len())).find(|k| a.text[*k] != b.text[*k]) {
        return format!("text {k}: {:?} then {:?}", a.text[k], b.text[k]);
    }
    format!("{}/{} results then {}/{}", a.num.len(), a.text.len(), b.num.len(), b.text.len())
}

fn silent_case(ctx: &mut Ctx) {
    let n = 4 + ctx.rng.usize(6);
    let mut calls: Vec<Call> = vec![];
    let mut kinds = vec![];
    for k in 0..n {
        let kind = (k + ctx.idx as usize) % KINDS.len();
        let c = Call::draw(&mut ctx.rng, kind, false);
        // and neighbours of it: what an answer remembered for too long would betray
        for _ in 0..ctx.rng.below(3) {
            ctx.strat("almost the same call");
            calls.push(c.sibling(&mut ctx.rng));
            kinds.push(kind);
        }
        calls.push(c);
        kinds.push(kind);
    }
    let n = calls.len();
    let mut first = vec![];
    for (k, c) in calls.iter().enumerate() {
        ctx.strat(KINDS[kinds[k]]);
        ctx.seen(hash(c));
        let Some((o, seen)) = ctx.must(|| short(c), || watch::observe(|| c.run())) else { return };
        if !ctx.check(seen.is_none(), || format!("a library call used {}(); {}", seen.unwrap_or(""), short(c))) {
            return;
        }
        first.push(o);
    }
    // again, in another order, after everything else
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    for k in order {
        let Some((o, seen)) = ctx.must(|| short(&calls[k]), || watch::observe(|| calls[k].run())) else { return };
        ctx.strat("repeated in another order");
        ctx.check(seen.is_none(), || format!("a library call used {}() when repeated; {}", seen.unwrap_or(""), short(&calls[k])));
        if !ctx.check(o == first[k], || format!("the same call gave another result: {}; {}", differ(&first[k], &o), short(&calls[k]))) {
            return;
        }
    }
    if ctx.idx % 64 == 0 {
        ctx.strat("repeated on another thread");
        let cs = calls.clone();
        let there: Vec<Option<Out>> = std::thread::spawn(move || cs.iter().map(|c| std::panic::catch_unwind(|| c.run()).ok()).collect()).join().unwrap_or_default();
        for (k, o) in there.into_iter().enumerate() {
            let Some(o) = o else {
                ctx.viol(format!("a panic on another thread; {}", short(&calls[k])));
                return;
            };
            ctx.check(o == first[k], || format!("the same call gave another result on another thread: {}; {}", differ(&first[k], &o), short(&calls[k])));
        }
    }
    ctx.sample(|| short(&calls[0]));
}

pub const C26: Check = Check {
    id: "C26",
    rule: "calls of every kind (parsing of good, damaged and streamed text, predictions from text, elements and for datetimes, calendar, sidereal time, frames, look angles, vectors, angles, stages) run while the C library's output, file, environment, clock, process and network entry points are interposed, together with neighbouring calls that differ in one argument by little, then repeated in another order and on another thread; no such entry point may be used and every repetition must be bit-identical; a case is a set of calls, distinct ones are single calls",
    cases: (100_000, 6_000_000),
    case: silent_case,
    required: &[
        "parsing", "predictions from text", "predictions from elements", "predictions for datetimes", "calendar", "sidereal time", "frames", "look angles",
        "vectors and doppler", "angles", "stages", "repeated in another order", "repeated on another thread", "almost the same call",
    ],
    assumptions: &["side effects go through the C library, as the standard library's do"],
};

// ---------------------------------------------------------------- C27

fn retention(ctx: &mut Ctx) {
    let kind = ctx.rng.usize(KINDS.len());
    let n = 1500;
    let mut r = Rng::new(ctx.rng.u64());
    let run = |ctx: &mut Ctx, r: &mut Rng, n: usize| -> Option<i64> {
        let mut kept = 0;
        for _ in 0..n {
            let c = Call::draw(r, kind, false);
            ctx.seen(hash(&c));
            let (_, m) = ctx.must(|| short(&c), || watch::measure(|| drop(c.run())))?;
            kept += m.kept;
        }
        Some(kept)
    };
    // whatever is set up once does not count
    if run(ctx, &mut r, 50).is_none() {
        return;
    }
    let Some(kept) = run(ctx, &mut r, n) else { return };
    ctx.strat("memory kept after calls");
    ctx.dev("memory kept after calls", kept.max(0) as f64 / 65536.0);
    ctx.check(kept <= 65536, || format!("{kept} bytes are still held after {n} calls whose results were dropped ({})", KINDS[kind]));
}

/// The same texts over and over, most of them malformed: the second round keeps nothing.
fn rounds(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let mut texts: Vec<(String, String)> = vec![];
    let mut seen = vec![];
    for _ in 0..300 {
        let t = Tle::any(r);
        let (mut a, mut b) = t.lines();
        for _ in 0..r.below(3) {
            let s = if r.chance(0.5) { &mut a } else { &mut b };
            let k = r.usize(s.len().max(1));
            if !s.is_ascii() {
                continue;
            }
            match r.below(4) {
                0 => s.truncate(k),
                1 if k < s.len() => s.replace_range(k..k + 1, "é"),
                _ if k < s.len() => s.replace_range(k..k + 1, r.pick(&["x", ".", " ", "-", "9", "\n"])),
                _ => {}
            }
        }
        seen.push(crate::text::hash_str(&a) ^ crate::text::hash_str(&b).rotate_left(1));
        texts.push((a, b));
    }
    let nm = gen::name(r);
    seen.into_iter().for_each(|h| ctx.seen(h));
    let mut kept = 0;
    let mut bad = 0u64;
    for round in 0..21 {
        for (a, b) in &texts {
            let Some((n, m)) = ctx.must(|| format!("{a:?} {b:?}"), || watch::measure(|| {
                let both = format!("{nm}\n{a}\n{b}\n");
                parse(&both).is_err() as u64 + twoline2satrec(a, b).is_err() as u64 + parse_multiple(&both).1.len() as u64
            })) else { return };
            // the first round may set things up
            if round > 0 {
                kept += m.kept;
                bad += n;
            }
        }
    }
    ctx.strat("memory kept after the same texts again");
    ctx.dev("memory kept after the same texts again", kept.max(0) as f64 / 16384.0);
    ctx.check(kept <= 16384, || format!("{kept} bytes are still held after parsing the same 300 texts twenty more times ({bad} errors)"));
}

/// The same calls of any kind over and over: what the first round did not set up is not kept.
fn again(ctx: &mut Ctx) {
    let kind = (ctx.idx / 64) as usize % KINDS.len();
    let cs: Vec<Call> = (0..100).map(|_| Call::draw(&mut ctx.rng, kind, false)).collect();
    cs.iter().for_each(|c| ctx.seen(hash(c)));
    let (mut total, mut least) = (0, i64::MAX);
    for round in 0..121 {
        let mut kept = 0;
        for c in &cs {
            let Some((_, m)) = ctx.must(|| short(c), || watch::measure(|| drop(c.run()))) else { return };
            kept += m.kept;
        }
        if round > 0 {
            total += kept;
        }
        if round > 100 {
            least = least.min(kept);
        }
    }
    ctx.strat("memory kept after the same calls again");
    ctx.dev("memory kept after the same calls again", total.max(0) as f64 / 2048.0);
    ctx.check(total <= 2048 && least <= 0, || format!("{total} bytes are still held after making the same 100 calls 120 more times, at least {least} more each time ({})", KINDS[kind]));
}

fn stream(r: &mut Rng, sets: usize, kind: u64) -> String {
    let mut s = String::new();
    for _ in 0..sets {
        let t = Tle::ordinary(r);
        let (l1, l2) = t.lines();
        let e = if kind == 1 { "\r\n" } else { "\n" };
        match kind {
            // nothing but faults: bad fields, stray lines, orphans, titles
            2 => { s.push_str(&l1.replace('.', "x")); s.push_str(e); s.push_str(&l2); s.push_str(e); }
            3 => { s.push_str("stray line"); s.push_str(e); s.push_str("another one"); s.push_str(e); }
            4 => { s.push_str(&l2); s.push_str(e); s.push_str(&l1); s.push_str(e); }
            5 => { s.push_str(&gen::name(r)); s.push_str("\n\n  \n"); s.push_str(&l1); s.push_str(e); s.push_str(&l2); s.push_str(e); }
            6 => { s.push_str(" \t \n\n"); }
            _ => { s.push_str(&l1); s.push_str(e); s.push_str(&l2); s.push_str(e); }
        }
    }
    s
}

const STREAMS: [&str; 7] = ["pairs", "CRLF pairs", "bad records", "stray lines", "orphan lines", "named records and blank lines", "blank lines only"];

fn peak(ctx: &mut Ctx) {
    if ctx.rng.chance(0.5) {
        let kind = ctx.rng.below(7);
        let sets = ctx.rng.log(1.0, 3000.0) as usize;
        let text = stream(&mut ctx.rng, sets, kind);
        let which = ctx.rng.below(2);
        let Some((_, m)) = ctx.must(|| "a long text".into(), || watch::measure(|| match which {
            0 => drop(parse_multiple(&text)),
            _ => drop(parse(&text)),
        })) else { return };
        ctx.strat("peak memory of parsing");
        let bound = 200.0 * text.len() as f64 + 262144.0;
        ctx.dev("peak memory of parsing", m.peak as f64 / bound);
        ctx.seen(text.len() as u64 * 8 + kind);
        ctx.check((m.peak as f64) <= bound, || format!("parsing {} bytes ({}) took {} bytes at once", text.len(), STREAMS[kind as usize], m.peak));
    } else {
        let kind = 1 + ctx.rng.usize(KINDS.len() - 1);
        let c = Call::draw(&mut ctx.rng, kind, false);
        ctx.seen(hash(&c));
        let Some((_, m)) = ctx.must(|| short(&c), || watch::measure(|| drop(c.run()))) else { return };
        ctx.strat("peak memory of other calls");
        ctx.dev("peak memory of other calls", m.peak as f64 / 262144.0);
        ctx.check(m.peak <= 262144 && m.blocks <= 4000, || format!("{} bytes in {} allocations at once; {}", m.peak, m.blocks, short(&c)));
    }
}

/// Least CPU seconds of `f` over a few runs.
fn cost(ctx: &mut Ctx, runs: usize, what: &str, mut f: impl FnMut()) -> Option<f64> {
    let mut best = f64::INFINITY;
    for _ in 0..runs {
        let t0 = thread_cpu();
        ctx.must(|| what.to_string(), &mut f)?;
        best = best.min(thread_cpu() - t0);
    }
    Some(best)
}

/// Cost may grow by `factor` times `slack`; measured again before it is believed.
fn growth(ctx: &mut Ctx, name: &'static str, factor: f64, slack: f64, floor: f64, msg: String, mut small: impl FnMut(), mut large: impl FnMut()) {
    let mut worst = f64::INFINITY;
    for _ in 0..4 {
        let Some(a) = cost(ctx, 3, &msg, &mut small) else { return };
        let Some(b) = cost(ctx, 1, &msg, &mut large) else { return };
        worst = worst.min(b / (factor * slack * a + floor));
        if worst <= 1.0 {
            break;
        }
    }
    ctx.strat(name);
    ctx.dev(name, worst);
    ctx.check(worst <= 1.0, || format!("{name}: {:.1} times what {factor} times as much work should cost; {msg}", worst * slack));
}

fn work(ctx: &mut Ctx) {
    let big = ctx.tier == Tier::Thorough;
    match ctx.rng.below(5) {
        0 => {
            let kind = ctx.rng.below(7);
            let n = if big { 6000 } else { 2500 };
            let n = if kind >= 3 && kind != 5 { n * 2 } else { n };
            let mut r = Rng::new(ctx.rng.u64());
            let small = stream(&mut r, n, kind);
            let large = small.repeat(16);
            ctx.seen(n as u64 * 8 + kind);
            let msg = format!("parse_multiple of {n} and {} items of {}", n * 16, STREAMS[kind as usize]);
            growth(ctx, "time to parse a stream", 16.0, 6.0, 0.02, msg, || drop(parse_multiple(&small)), || drop(parse_multiple(&large)));
        }
        1 => {
            let k = ctx.rng.below(12);
            let unit = ["x", "é ", "1 ", " 0", " ", "\t", "0 ", "0", "\u{3000}", "x ", "\r", "-"][k as usize];
            let side = ctx.rng.below(4);
            let (a, b) = Tle::ordinary(&mut ctx.rng).lines();
            let text = move |n: usize| {
                let u = unit.repeat(n);
                match side {
                    0 => format!("{u}\n{a}{u}\n{b}{u}"),
                    1 => format!("{u}X\n{a}\n{b}\n"),
                    2 => format!("X{u}X\n{u}{a}\n{u}{b}\n"),
                    _ => format!("{}{u}{}\n{u}{}\n", &a[..40], &a[40..], &b[..30]),
                }
            };
            let (small, large) = (text(20_000), text(320_000));
            ctx.seen(k + 1000 + 100 * side);
            growth(ctx, "time to parse long lines", 16.0, 6.0, 0.005, format!("lines padded with {unit:?}"), || drop((parse(&small), parse_multiple(&small))), || drop((parse(&large), parse_multiple(&large))));
        }
        2 | 3 => {
            let tle = Tle::any(&mut ctx.rng);
            let (a, b) = tle.lines();
            let Some(Ok(mut rec)) = ctx.must(|| "twoline2satrec".into(), || twoline2satrec(&a, &b)) else {
                ctx.skip();
                return;
            };
            ctx.seen(tle.hash());
            let mut other = rec.clone();
            let sign = ctx.rng.sign();
            if ctx.rng.chance(0.5) {
                // a prediction costs the same however many were made before
                let ts: Vec<f64> = (0..100).map(|_| sign * ctx.rng.uni(0.0, 20_000.0)).collect();
                let n = if big { 100_000 } else { 5_000 };
                let mut used = rec.clone();
                for k in 0..n {
                    let _ = ctx.must(|| "sgp4".into(), || sgp4(&mut used, ts[k % ts.len()] * 0.37));
                }
                growth(ctx, "time to predict after many predictions", 1.0, 20.0, 2e-4, tle.show(), || ts.iter().for_each(|t| drop(sgp4(&mut rec, *t))), || ts.iter().for_each(|t| drop(sgp4(&mut used, *t))));
            } else {
                // proportional to the time at most (the resonance integrator's steps)
                let t = sign * ctx.rng.log(20_000.0, 300_000.0);
                growth(ctx, "time to predict far from epoch", 64.0, 8.0, 1e-3, format!("t = {t} and 64 times that; {}", tle.show()),
                    || for _ in 0..4 { let mut r = rec.clone(); drop(sgp4(&mut r, t)) },
                    || for _ in 0..4 { let mut r = other.clone(); drop(sgp4(&mut r, t * 64.0)) });
                other.t = 0.0;
            }
        }
        _ => {
            let kind = 3 + ctx.rng.usize(KINDS.len() - 3);
            let cs: Vec<Call> = (0..50).map(|_| Call::draw(&mut ctx.rng, kind, true)).collect();
            ctx.seen(hash(&cs[0]));
            let mut later = cs.clone();
            let n = if big { 3000 } else { 100 };
            growth(ctx, "time of calls after many calls", 1.0, 20.0, 5e-4, KINDS[kind].to_string(),
                || cs.iter().for_each(|c| drop(c.run())),
                || {
                    for _ in 0..1 { later.iter().for_each(|c| drop(c.run())) }
                });
            for _ in 0..n {
                let _ = ctx.must(|| KINDS[kind].into(), || later.iter().for_each(|c| drop(c.run())));
            }
            later.truncate(50);
            growth(ctx, "time of calls after many calls", 1.0, 20.0, 5e-4, KINDS[kind].to_string(), || cs.iter().for_each(|c| drop(c.run())), || later.iter().for_each(|c| drop(c.run())));
        }
    }
}

fn resource_case(ctx: &mut Ctx) {
    match ctx.idx % 32 {
        0 if ctx.idx % 256 == 0 => rounds(ctx),
        0 => retention(ctx),
        1 | 2 => work(ctx),
        3 if ctx.idx % 64 == 3 => again(ctx),
        _ => peak(ctx),
    }
}

pub const C27: Check = Check {
    id: "C27",
    rule: "under a counting allocator and per-thread CPU clocks: bytes still held after 1500 different calls of one kind whose results were dropped, and after parsing 300 texts, most of them malformed, twenty more times, and after making the same 100 calls of one kind 120 more times; peak bytes while parsing texts of up to 9000 lines and during other calls; CPU time of parsing 16 times the text, of predicting 64 times as far, and after thousands of earlier predictions; a case is one such measurement, distinct ones are (call) or (text shape)",
    cases: (12_000, 600_000),
    case: resource_case,
    required: &[
        "memory kept after calls", "memory kept after the same texts again", "memory kept after the same calls again", "peak memory of parsing", "peak memory of other calls", "time to parse a stream", "time to parse long lines",
        "time to predict after many predictions", "time to predict far from epoch", "time of calls after many calls",
    ],
    assumptions: &["growth in CPU time is judged with a margin of 6 (parsing), 8 (far from epoch) or 20 (after many calls), and only after four measurements agree"],
};

// ---------------------------------------------------------------- C29

fn wild(r: &mut Rng) -> f64 {
    const EDGE: [f64; 22] = [
        0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::EPSILON, 1e300, -1e300,
        1e16, -1e16, 9.3e18, 1.9e19, 4.5e15, 1e-300, 0.5,
    ];
    match r.below(6) {
        0 | 1 => *r.pick(&EDGE),
        2 => r.sign() * r.log(1e-12, 1e12),
        3 => f64::from_bits(r.u64()),
        4 => r.range(-400, 400) as f64,
        _ => r.uni(-7.0, 7.0),
    }
}

/// An ordinary value, or now and then a wild one.
fn maybe(r: &mut Rng, p: f64, x: f64) -> f64 {
    if r.chance(p) { wild(r) } else { x }
}

fn wild_time(r: &mut Rng) -> f64 {
    let t = wild(r);
    // work grows with the offset (C27); anything not finite must end at once
    if t.is_finite() && t.abs() > 1e7 { r.uni(-1e7, 1e7) } else { t }
}

fn wild_case(ctx: &mut Ctx) {
    use chrono::prelude::*;
    use satellite::propogation::dpper::{dpper, DpperInit, DpperOptions};
    use satellite::propogation::{dscom::*, dsinit::*, dspace::*, initl::*};
    let p = *ctx.rng.pick(&[0.05, 0.2, 0.5, 1.0]);
    let kind = ctx.idx % 9;
    let r = &mut ctx.rng;
    let mut h = Hash::new();
    h.u64(kind);
    match kind {
        0..=2 => {
            // elements straight into the engine
            let e = Tle::any(r).elements();
            let e = [maybe(r, p, e.jd_epoch - 2433281.5), maybe(r, p, e.bstar), maybe(r, p, e.ecc), maybe(r, p, e.argp), maybe(r, p, e.incl), maybe(r, p, e.ma), maybe(r, p, e.no), maybe(r, p, e.node)];
            let m = r.below(3);
            let ts: Vec<f64> = (0..3).map(|_| wild_time(r)).collect();
            e.iter().chain(&ts).for_each(|x| h.f64(*x));
            ctx.seen(h.get());
            ctx.strat(if e.iter().all(|x| x.is_finite()) { "finite elements" } else { "elements that are not finite" });
            let Some(outs) = ctx.must(|| format!("sgp4init({e:?}) and sgp4 at {ts:?}, mode {m}"), || {
                let mut rec = Satrec::zero();
                let mut out = vec![(0.0, sgp4init(&mut rec, init(m, &e)))];
                for t in &ts {
                    out.push((*t, sgp4(&mut rec, *t)));
                }
                out
            }) else { return };
            for (t, o) in outs {
                match o {
                    Ok(s) => {
                        let fin = [s.position.x, s.position.y, s.position.z, s.velocity.x, s.velocity.y, s.velocity.z].iter().all(|x| x.is_finite());
                        ctx.strat("delivered");
                        // within what element sets can express: the rest is only asked to return
                        let sane = e[0].abs() < 1e5 && e[1].abs() <= 1.0 && (0.0..1.0).contains(&e[2]) && (e[4] == 0.0 || e[4] > 1e-9) && [3, 4, 5, 7].iter().all(|k| e[*k].abs() < 1000.0) && e[6] > 1e-4 && e[6] < 0.44;
                        if sane && t.abs() <= 1e7 {
                            ctx.strat("delivered for plausible elements");
                            ctx.check(fin, || format!("a delivered prediction is not finite: {s:?}; elements {e:?} at {t}, mode {m}"));
                        } else {
                            ctx.check(true, String::new);
                        }
                    }
                    Err(x) => {
                        ctx.strat("refused");
                        ctx.check((1..=6).contains(&x.code()), || format!("undocumented error code {}", x.code()));
                    }
                }
            }
        }
        3 => {
            let c = [wild(r), wild(r), wild(r), wild(r), wild(r), wild(r), wild(r)];
            let y = match r.below(3) { 0 => r.u64(), 1 => r.below(5000), _ => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, 1900, 2000, 2100]) };
            let d = wild(r);
            c.iter().for_each(|x| h.f64(*x));
            ctx.seen(h.get());
            ctx.strat("calendar");
            ctx.must(|| format!("jday{c:?}"), || satellite::ext::jday(c[0], c[1], c[2], c[3], c[4], c[5], c[6]));
            ctx.must(|| format!("days2mdhms({y}, {d})"), || satellite::ext::days2mdhms(y, d));
            ctx.must(|| format!("gstime({d})"), || satellite::propogation::gstime::gstime(d));
            ctx.check(true, String::new);
        }
        4 => {
            // any datetime chrono can hold
            let d = match r.below(4) {
                0 => *r.pick(&[chrono::DateTime::<Utc>::MIN_UTC, chrono::DateTime::<Utc>::MAX_UTC]),
                1 => match Utc.timestamp_opt(r.range(-8_000_000_000_000, 8_000_000_000_000), r.below(1_000_000_000) as u32) { chrono::LocalResult::Single(d) => d, _ => Utc.timestamp_opt(0, 0).unwrap() },
                2 => {
                    // a leap second, as chrono keeps it
                    let d = datetime(r);
                    d.with_second(59).and_then(|d| d.with_nanosecond(1_000_000_000 + r.below(1_000_000_000) as u32)).unwrap_or(d)
                }
                _ => datetime(r),
            };
            h.u64(d.timestamp() as u64);
            h.u64(d.nanosecond() as u64);
            ctx.seen(h.get());
            ctx.strat("any datetime");
            let Some(j) = ctx.must(|| format!("jday_datetime({d:?})"), || satellite::ext::jday_datetime(d)) else { return };
            let Some(g) = ctx.must(|| format!("gstime_datetime({d:?})"), || satellite::propogation::gstime::gstime_datetime(d)) else { return };
            ctx.check(j.is_finite() && g.is_finite(), || format!("a date gives {j} and {g}; {d:?}"));
            let tle = Tle::any(&mut ctx.rng);
            let (a, b) = tle.lines();
            // near epoch for resonant orbits, whose cost grows with the distance in time
            if (tle.no_e8 > 700_000_000 && tle.ecc_e7 < 3_000_000) || (d.year() > 1900 && d.year() < 2200) {
                ctx.must(|| format!("propogate_datetime({a:?} {b:?} {d:?})"), || twoline2satrec(&a, &b).map(|r| satellite::propogation::propogate_datetime(&r, d).is_ok()).unwrap_or(false));
            }
        }
        5 => {
            use satellite::transforms::*;
            use satellite::{Geodedic, Vec3};
            let x: Vec<f64> = (0..10).map(|_| wild(r)).collect();
            x.iter().for_each(|x| h.f64(*x));
            ctx.seen(h.get());
            ctx.strat("geometry");
            let v = |k: usize| Vec3 { x: x[k], y: x[k + 1], z: x[k + 2] };
            let g = || Geodedic { latitude: x[7], longitude: x[8], height: x[9] };
            ctx.must(|| format!("eci_to_geodedic({:?}, {})", v(0), x[6]), || eci_to_geodedic(&v(0), x[6]));
            ctx.must(|| format!("frames {x:?}"), || (eci_to_ecf(&v(0), x[6]), ecf_to_eci(&v(0), x[6]), geodedic_to_ecf(&g())));
            ctx.must(|| format!("look angles {x:?}"), || (topocentric(&g(), &v(3)), ecf_to_look_angles(&g(), &v(3))));
            ctx.must(|| format!("vectors {x:?}"), || (v(0).range(&v(3)), v(0).add(&v(3)), v(0).subtract(&v(3)), satellite::doppler_factor::doppler_factor(v(0), v(3), v(6))));
            ctx.must(|| format!("angles {x:?}"), || (radians_to_degrees(x[0]), degrees_to_radians(x[0])));
            ctx.check(true, String::new);
        }
        6 => {
            let mut x = |y: f64| maybe(r, p, y);
            let (ep, ar, i, n, no, tc) = (x(0.1), x(1.0), x(0.5), x(2.0), x(0.01), x(10.0));
            let d = x(20000.3);
            let opts = format!("{ep} {ar} {i} {n} {no} {tc} {d}");
            h.bytes(opts.as_bytes());
            ctx.seen(h.get());
            ctx.strat("initialisation stages");
            let m = mode(ctx.rng.below(3));
            ctx.must(|| format!("initl {opts}"), || initl(InitlOptions { opsmode: m.clone(), method: InitlMethod::N, satn: "1".into(), ecco: ep, epoch: d, inclo: i, no }).gsto);
            ctx.must(|| format!("dscom {opts}"), || dscom(DscomOptions { epoch: d, ep, argpp: ar, tc, inclp: i, nodep: n, np: no }).zmol);
            let mut rec = Satrec::zero();
            rec.t = tc;
            rec.zmol = n;
            rec.ee2 = ar;
            ctx.must(|| format!("dpper {opts}"), || dpper(&rec, DpperOptions { init: DpperInit::N, opsmode: m.clone(), inclo: i, ep, inclp: i, nodep: n, argpp: ar, mp: no }).mp);
            ctx.check(true, String::new);
        }
        _ => {
            let x: Vec<f64> = (0..60).map(|_| if r.chance(p) { wild(r) } else { r.uni(-1.0, 1.0) }).collect();
            let t = wild_time(r);
            let irez = *r.pick(&[0.0, 1.0, 2.0, 1.0, 2.0, 3.0, f64::NAN]);
            let no = if r.chance(0.5) { r.uni(0.004, 0.0093) } else { x[0] };
            // integrator states this crate returns are numbers
            let at = if r.chance(0.5) { 0.0 } else { wild_time(r) };
            let at = if at.is_nan() { 720.0 } else { at };
            x.iter().for_each(|x| h.f64(*x));
            h.f64(t);
            ctx.seen(h.get());
            ctx.strat("resonance stages");
            ctx.must(|| format!("dspace t={t} atime={at} irez={irez} no={no} {x:?}"), || {
                dspace(DspaceOptions {
                    irez, d2201: x[1], d2211: x[2], d3210: x[3], d3222: x[4], d4410: x[5], d4422: x[6], d5220: x[7], d5232: x[8], d5421: x[9], d5433: x[10],
                    dedt: x[11], del1: x[12], del2: x[13], del3: x[14], didt: x[15], dmdt: x[16], dnodt: x[17], domdt: x[18], argpo: x[19], argpdot: x[20],
                    t, tc: t, gsto: x[21], xfact: x[22], xlamo: x[23], no, atime: at, em: x[24], argpm: x[25], inclm: x[26], xli: x[27], mm: x[28], xni: x[29],
                    nodem: x[30], nm: x[31],
                })
                .nm
            });
            ctx.must(|| format!("dsinit no={no} {x:?}"), || {
                dsinit(DsinitOptions {
                    cosim: x[1], argpo: x[2], s1: x[3], s2: x[4], s3: x[5], s4: x[6], s5: x[7], sinim: x[8], ss1: x[9], ss2: x[10], ss3: x[11], ss4: x[12], ss5: x[13],
                    sz1: x[14], sz3: x[15], sz11: x[16], sz13: x[17], sz21: x[18], sz23: x[19], sz31: x[20], sz33: x[21], t, tc: t, gsto: x[22], mo: x[23], mdot: x[24], no,
                    nodeo: x[25], nodedot: x[26], xpidot: x[27], z1: x[28], z3: x[29], z11: x[30], z13: x[31], z21: x[32], z23: x[33], z31: x[34], z33: x[35], ecco: x[36],
                    eccsq: x[37], emsq: x[38], em: x[39], argpm: x[40], inclm: x[41], mm: x[42], nm: no, nodem: x[43], irez, atime: at, d2201: 0.0, d2211: 0.0, d3210: 0.0,
                    d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0, dedt: 0.0, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, del1: 0.0,
                    del2: 0.0, del3: 0.0, xfact: 0.0, xlamo: 0.0, xli: 0.0, xni: 0.0,
                })
                .em
            });
            ctx.check(true, String::new);
        }
    }
}

pub const C29: Check = Check {
    id: "C29",
    rule: "NaN, infinities, subnormals, extremes and arbitrary bit patterns (and finite nonsense) as elements, offsets, dates, angles, vectors, heights and stage inputs, every datetime chrono can hold, leap seconds; every call runs under the panic, overflow and CPU-time monitors, delivered predictions of plausible elements must be finite, refusals must carry a documented code; a case is one argument vector",
    cases: (1_000_000, 60_000_000),
    case: wild_case,
    required: &[
        "finite elements", "elements that are not finite", "delivered", "delivered for plausible elements", "refused", "calendar", "any datetime", "geometry", "initialisation stages", "resonance stages",
    ],
    assumptions: &["finite offsets beyond 1e7 minutes are not drawn: the work of a resonant orbit grows with the offset (C27)", "the range refusals of the latitude/longitude conversions are C18's"],
};
