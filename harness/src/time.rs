//! Checks of the time functions and of the whole chain: C05, C12, C13, C21.

use crate::fw::{Check, Ctx};
use crate::gen::{days_from_1970, is_leap, mlen, tsince, Tle};
use crate::geo::{axes, geo_to_ecf, judge_bearing, latitude, longitude, rotz, sub, turn_diff};
use crate::oracle::{build_init, conv, dist, norm, prop, show, RefSet};
use crate::rng::{Hash, Rng};
use chrono::{DateTime, TimeZone, Utc};
use satellite::io::{parse, parse_multiple, twoline2satrec};
use satellite::propogation::gstime::{gstime, gstime_datetime};
use satellite::propogation::propogate_datetime;
use std::f64::consts::PI;

const DAY_NS: i128 = 86_400_000_000_000;

fn dt(ns: i128) -> DateTime<Utc> {
    let s = ns.div_euclid(1_000_000_000);
    Utc.timestamp_opt(s as i64, ns.rem_euclid(1_000_000_000) as u32).unwrap()
}

fn tle_ns(t: &Tle) -> i128 {
    let (d, ns) = t.epoch_exact();
    ((d - 2440587.5) as i128) * DAY_NS + ns as i128
}

fn year_ns(y: i64) -> i128 {
    days_from_1970(y, 1, 1) as i128 * DAY_NS
}

fn hash2(a: u64, b: i128) -> u64 {
    let mut h = Hash::new();
    h.u64(a);
    h.u64(b as u64);
    h.get()
}

/// nanoseconds within a day
fn of_day(r: &mut Rng) -> i128 {
    (match r.below(10) {
        0 => 0,
        1 => DAY_NS - 1 - r.below(3) as i128,
        2 => DAY_NS - 1_000_000_000 + r.below(1_000_000_000) as i128,
        3 => 43200_000_000_000 + r.range(-2_000_000, 2_000_000) as i128,
        4 => r.below(86400) as i128 * 1_000_000_000,
        5 => r.below(1440) as i128 * 60_000_000_000 + r.range(-2, 2).max(0) as i128,
        6 => r.below(86_400_000) as i128 * 1_000_000,
        7 => r.below(24) as i128 * 3_600_000_000_000 + 999_999_999,
        _ => r.below(DAY_NS as u64) as i128,
    })
    .clamp(0, DAY_NS - 1)
}

/// a day from 1970, biased to month and year ends and leap days
fn some_day(r: &mut Rng, lo: i64, hi: i64) -> i64 {
    let y = r.range(lo, hi);
    match r.below(5) {
        0 => {
            let m = r.range(1, 12);
            days_from_1970(y, m, if r.chance(0.5) { 1 } else { mlen(y, m) })
        }
        1 => {
            let y = if is_leap(y) { y } else { y - y % 4 }.max(lo);
            days_from_1970(y, 2, mlen(y, 2))
        }
        _ => days_from_1970(y, 1, 1) + r.below(365) as i64,
    }
}

// ---------------------------------------------------------------- C05

fn datetime_case(ctx: &mut Ctx) {
    let tle = if ctx.rng.chance(0.8) { Tle::ordinary(&mut ctx.rng) } else { Tle::any(&mut ctx.rng) };
    let (l1, l2) = tle.lines();
    let mut el = tle.elements();
    // by text, or through the element interface in either mode
    let mode = match ctx.rng.below(8) {
        0 => Some(false),
        1 | 2 => Some(true),
        _ => None,
    };
    if mode.is_some() && ctx.rng.chance(0.5) {
        el.node -= 2.0 * PI;
    }
    let fresh = || match mode {
        Some(afspc) => Ok(build_init(&el, afspc).0),
        None => twoline2satrec(&l1, &l2).map_err(|_| ()),
    };
    let Some(r) = ctx.must(|| tle.show(), fresh) else { return };
    let Ok(mut rec) = r else {
        ctx.skip();
        return;
    };
    if mode.is_some() {
        ctx.strat(if mode == Some(true) { "record initialised from elements, AFSPC mode" } else { "record initialised from elements" });
    }
    let ep = tle_ns(&tle);
    let rs = RefSet::new(&el, mode == Some(true));
    // what the record was used for before does not matter
    let mut past = vec![];
    if ctx.rng.chance(0.4) {
        for _ in 0..1 + ctx.rng.usize(3) {
            let t = if ctx.rng.chance(0.3) { ctx.rng.sign() * ctx.rng.log(1e5, 5e6) } else { tsince(&mut ctx.rng) };
            if ctx.must(|| tle.show(), || prop(&mut rec, t)).is_none() {
                return;
            }
            past.push(t);
        }
        ctx.strat(if rec.error == 0 { "record used before" } else { "record whose last prediction was refused" });
    }
    for _ in 0..4 {
        let r = &mut ctx.rng;
        let (lo, hi) = (year_ns(1957), year_ns(2057) - 1);
        let when = match r.below(16) {
            0 => some_day(r, 1957, 2056) as i128 * DAY_NS + of_day(r),
            1 => ep,
            2 => ep + r.range(-120_000_000_000, 120_000_000_000) as i128,
            3 => (ep.div_euclid(DAY_NS) + r.range(-40, 40) as i128) * DAY_NS + of_day(r),
            4 => ep + r.range(-366, 366) as i128 * DAY_NS + r.below(DAY_NS as u64) as i128,
            _ => ep + (r.range(-30 * 86400, 30 * 86400) as i128) * 1_000_000_000 + r.below(1_000_000_000) as i128,
        };
        let when = when.clamp(lo, hi);
        let t = (when - ep) as f64 / 6e10;
        let d = dt(when);
        let msg = || format!("{} at {} ({t:?} min); mode {mode:?}, used before for {past:?}", tle.show(), d.to_rfc3339());
        let before = format!("{:?}", (rec.t, rec.error, rec.jdsatepoch, rec.no, rec.mo, rec.nodeo, rec.atime, rec.xli, rec.xni));
        let Some(got) = ctx.must(msg, || conv(propogate_datetime(&rec, d))) else { return };
        let after = format!("{:?}", (rec.t, rec.error, rec.jdsatepoch, rec.no, rec.mo, rec.nodeo, rec.atime, rec.xli, rec.xni));
        ctx.check(before == after, || format!("the caller's record changed; {}", msg()));
        // a fresh record at the exact offset and at +-0.3 ms
        let Some(q) = ctx.must(msg, || {
            let mut f = fresh().ok()?;
            let w = prop(&mut f, t);
            let mut f = fresh().ok()?;
            let a = prop(&mut f, t - 5e-6);
            let mut f = fresh().ok()?;
            let b = prop(&mut f, t + 5e-6);
            Some((w, a, b))
        }) else { return };
        let Some((want, a, b)) = q else { return };
        ctx.strat(if when < ep { "before epoch" } else if when == ep { "at epoch" } else { "after epoch" });
        if when.rem_euclid(1_000_000_000) != 0 {
            ctx.strat("fractional second");
        }
        let yd = d.format("%m-%d").to_string();
        match yd.as_str() {
            "02-29" => ctx.strat("29 February"),
            "12-31" | "01-01" => ctx.strat("year end"),
            _ => {}
        }
        if (when - ep).abs() > 366 * DAY_NS {
            ctx.strat("more than a year from epoch");
        }
        // where the theory itself amplifies rounding, neighbouring offsets say nothing
        let ex = rs.expect(t);
        if !ex.stable || ex.tol_r > 1e-3 || tle.ecc_e7 > 9_800_000 || !rs.steady(t, 5e-6) {
            ctx.skip();
            continue;
        }
        ctx.seen(hash2(tle.hash(), when));
        match (&want, &a, &b) {
            (Ok(w), Ok(a), Ok(b)) => {
                let tr = 2.0 * dist(&w.r, &a.r).max(dist(&w.r, &b.r)) + 1e-6;
                let tv = 2.0 * dist(&w.v, &a.v).max(dist(&w.v, &b.v)) + 1e-9;
                match &got {
                    Ok(g) => {
                        ctx.close("position (km)", dist(&g.r, &w.r), 0.0, tr, || format!("got {} want {}; {}", show(&got), show(&want), msg()));
                        ctx.close("velocity (km/s)", dist(&g.v, &w.v), 0.0, tv, || format!("got {} want {}; {}", show(&got), show(&want), msg()));
                    }
                    Err(c) => {
                        ctx.check(false, || format!("refused with {c} although the offset is fine; {}", msg()));
                    }
                }
            }
            (Err(w), Err(a), Err(b)) if w == a && w == b => {
                ctx.strat("failing prediction");
                ctx.check(got.as_ref().err() == Some(w), || format!("got {} but the prediction at that offset fails with {w}; {}", show(&got), msg()));
            }
            _ => ctx.skip(),
        }
        ctx.sample(|| format!("{} -> {}", msg(), show(&got)));
    }
}

pub const C05: Check = Check {
    id: "C05",
    rule: "element sets of every regime and 4 datetimes each (around epoch, within a month, within a year, anywhere 1957-2056, at month/year ends, leap days and midnights, with nanosecond parts): result compared with a fresh record asked for the exact offset in integer nanoseconds, tolerance twice the motion in 0.3 ms; same verdicts; record unchanged; a case is (element set, datetime)",
    cases: (40_000, 1_500_000),
    case: datetime_case,
    required: &[
        "record initialised from elements, AFSPC mode", "record initialised from elements", "record used before", "record whose last prediction was refused",
        "before epoch", "at epoch", "after epoch", "fractional second", "29 February", "year end", "more than a year from epoch", "failing prediction"],
    assumptions: &["the epoch is the one printed in the columns; UTC days have 86400 s"],
};

// ---------------------------------------------------------------- C12

fn first_day() -> i64 {
    days_from_1970(1901, 1, 1)
}
const DAYS_1901_2099: u64 = 72684;

fn civil(mut z: i64) -> (i64, i64, i64) {
    // day count from 1970 to a date, by walking years and months
    let mut y = 1970;
    while z < 0 {
        y -= 1;
        z += if is_leap(y) { 366 } else { 365 };
    }
    loop {
        let n = if is_leap(y) { 366 } else { 365 };
        if z < n {
            break;
        }
        z -= n;
        y += 1;
    }
    let mut m = 1;
    while z >= mlen(y, m) {
        z -= mlen(y, m);
        m += 1;
    }
    (y, m, z + 1)
}

/// seconds by which a Julian date misses an instant
fn jd_err(jd: f64, day: i64, ns: i128) -> f64 {
    ((jd - 2440587.5 - day as f64) - ns as f64 / 86400e9) * 86400.0
}

fn julian_case(ctx: &mut Ctx) {
    let day = first_day() + (ctx.idx % DAYS_1901_2099) as i64;
    let (y, m, d) = civil(day);
    if m == 2 && d == 29 {
        ctx.strat("29 February");
    } else if (m, d) == (3, 1) {
        ctx.strat("1 March");
    } else if (m, d) == (12, 31) || (m, d) == (1, 1) {
        ctx.strat("year end");
    } else if d == mlen(y, m) {
        ctx.strat("month end");
    }
    if y == 1901 || y == 2099 || y == 2000 {
        ctx.strat("first, last or century year");
    }
    for k in 0..4 {
        let ns = match k {
            0 => 0,
            1 => DAY_NS - 1,
            _ => of_day(&mut ctx.rng),
        };
        ctx.seen(hash2(day as u64, ns));
        let (h, mi, s, sub) = (ns / 3_600_000_000_000, ns / 60_000_000_000 % 60, ns / 1_000_000_000 % 60, ns % 1_000_000_000);
        let msg = || format!("{y}-{m:02}-{d:02} {h:02}:{mi:02}:{s:02}.{sub:09}");
        let style = ctx.rng.below(4);
        let part = ctx.rng.uni(0.0, 1.0);
        let (fs, fm) = match style {
            // part of the fraction in either
            3 => (s as f64 + part * sub as f64 / 1e9, (1.0 - part) * sub as f64 / 1e6),
            0 => (s as f64, sub as f64 / 1e6),
            1 => (s as f64 + sub as f64 / 1e9, 0.0),
            _ => (0.0, s as f64 * 1000.0 + sub as f64 / 1e6),
        };
        let Some(j) = ctx.must(msg, || satellite::ext::jday(y as f64, m as f64, d as f64, h as f64, mi as f64, fs, fm)) else { return };
        ctx.close("jday (s)", jd_err(j, day, ns), 0.0, 1e-4, || format!("jday gives {j:.9}; {}", msg()));
        let at = day as i128 * DAY_NS + ns;
        let Some(jd) = ctx.must(msg, || satellite::ext::jday_datetime(dt(at))) else { return };
        ctx.close("jday_datetime (s)", jd_err(jd, day, ns), 0.0, 1e-4, || format!("jday_datetime gives {jd:.9}; {}", msg()));
        if sub != 0 {
            ctx.strat("fractional second");
        }
        // later by at least a millisecond is strictly larger
        let step = match ctx.rng.below(4) {
            0 => 1_000_000,
            1 => 1_000_000_000,
            2 => DAY_NS - ns,
            _ => ctx.rng.log(1e6, 1e15) as i128,
        }
        .max(1_000_000);
        let later = at + step;
        if later < (days_from_1970(2100, 1, 1) as i128) * DAY_NS {
            let Some(j2) = ctx.must(msg, || satellite::ext::jday_datetime(dt(later))) else { return };
            if later.div_euclid(DAY_NS) != at.div_euclid(DAY_NS) {
                ctx.strat("step over midnight");
            }
            ctx.check(j2 > jd, || format!("{step} ns later gives {j2:.9}, not after {jd:.9}; {}", msg()));
            ctx.close("difference (s)", (j2 - jd) * 86400.0, step as f64 / 1e9, 2e-4, msg);
        }
        ctx.sample(|| format!("{} -> {jd:.9}", msg()));
    }
}

pub const C12: Check = Check {
    id: "C12",
    rule: "every day from 1901 to 2099 in turn, at midnight, at its last nanosecond and at two random times of day (seconds and milliseconds split three ways): jday and jday_datetime against a day count in integers, and strict increase over steps of 1 ms to 11 days; a case is an instant",
    cases: (DAYS_1901_2099 * 30, DAYS_1901_2099 * 1000),
    case: julian_case,
    required: &["29 February", "1 March", "year end", "month end", "first, last or century year", "fractional second", "step over midnight"],
    assumptions: &["a Julian date held in one double is exact to 0.1 ms at best"],
};

// ---------------------------------------------------------------- C13

/// IAU-82 GMST for (days from J2000.0 in two parts), whole turns removed early.
pub fn gmst(d1: f64, d2: f64) -> f64 {
    let t = (d1 + d2) / 36525.0;
    // 876600 h per century is one turn per day exactly
    let turns = (d1.fract() + d2) + (67310.54841 + t * (8640184.812866 + t * (0.093104 - 6.2e-6 * t))) / 86400.0;
    turns.rem_euclid(1.0) * 2.0 * PI
}

/// of an instant in nanoseconds from 1970
pub fn gmst_ns(ns: i128) -> f64 {
    let day = ns.div_euclid(DAY_NS);
    gmst((day - 10957) as f64 - 0.5, ns.rem_euclid(DAY_NS) as f64 / DAY_NS as f64)
}

fn sidereal_case(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let jd = match r.below(8) {
        0 => r.range(2415020, 2488070) as f64,
        1 => r.range(2415020, 2488069) as f64 + 0.5,
        2 => 2451545.0 + r.sign() * r.log(1e-6, 36525.0),
        3 => *r.pick(&[2415020.0, 2488070.0, 2451545.0, 2451544.5, 2433281.5, 2440587.5]),
        _ => r.uni(2415020.0, 2488070.0),
    };
    ctx.strat(if jd < 2451545.0 { "before 2000" } else { "after 2000" });
    if (jd - 2451545.0).abs() > 30000.0 {
        ctx.strat("far from 2000");
    }
    let msg = || format!("gstime({jd:?})");
    ctx.seen(jd.to_bits());
    let Some(g) = ctx.must(msg, || gstime(jd)) else { return };
    ctx.check((0.0..=2.0 * PI).contains(&g), || format!("out of range: {g:?}; {}", msg()));
    let want = gmst(jd - 2451545.0, 0.0);
    ctx.close("gstime (rad)", turn_diff(g, want), 0.0, 3e-10, || format!("got {g:?} want {want:?}; {}", msg()));
    if want < 0.01 || want > 2.0 * PI - 0.01 {
        ctx.strat("near the turn");
    }
    // one day later
    if jd + 1.0 <= 2488070.0 {
        let Some(g2) = ctx.must(msg, || gstime(jd + 1.0)) else { return };
        ctx.close("daily advance (rad)", turn_diff(g2 - g, 0.0172027908), 0.0, 1e-8, msg);
    }
    // as a datetime
    let at = some_day(&mut ctx.rng, 1901, 2099) as i128 * DAY_NS + of_day(&mut ctx.rng);
    let d = dt(at);
    let msg = || format!("gstime_datetime({})", d.to_rfc3339());
    let Some(g) = ctx.must(msg, || gstime_datetime(d)) else { return };
    ctx.check((0.0..=2.0 * PI).contains(&g), || format!("out of range: {g:?}; {}", msg()));
    ctx.close("gstime_datetime (rad)", turn_diff(g, gmst_ns(at)), 0.0, 1.2e-8, msg);
    if at.rem_euclid(1_000_000_000) != 0 {
        ctx.strat("fractional second");
    }
    ctx.sample(|| format!("{} -> {g:?}", msg()));
}

pub const C13: Check = Check {
    id: "C13",
    rule: "Julian dates 2415020-2488070 (uniform, whole and half days, around J2000, end points) and datetimes 1901-2099 with nanosecond parts: angle in one turn and equal to the IAU-82 expression evaluated with whole turns removed first, and its daily advance; a case is a Julian date",
    cases: (5_000_000, 300_000_000),
    case: sidereal_case,
    required: &["before 2000", "after 2000", "far from 2000", "near the turn", "fractional second"],
    assumptions: &["3e-10 rad covers evaluating the expression in doubles; 0.16 ms of Julian-date rounding for datetimes"],
};

// ---------------------------------------------------------------- C21

/// WGS-84 geodetic coordinates by bisection on latitude: slow, simple, independent.
fn ecf_to_geo(p: &[f64; 3]) -> (f64, f64, f64) {
    let (a, b) = (crate::geo::A, crate::geo::B);
    let rho = p[0].hypot(p[1]);
    let z = p[2];
    // for latitude f the foot point is (a^2 c/w, b^2 s/w); the position lies on
    // its normal iff (rho - rf) s - (z - zf) c = 0, which grows with f
    let off = |f: f64| {
        let (s, c) = f.sin_cos();
        let w = (a * a * c * c + b * b * s * s).sqrt();
        (rho - a * a * c / w) * s - (z - b * b * s / w) * c
    };
    let (mut lo, mut hi) = (-PI / 2.0, PI / 2.0);
    for _ in 0..70 {
        let m = 0.5 * (lo + hi);
        if off(m) < 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    let f = 0.5 * (lo + hi);
    let (s, c) = f.sin_cos();
    let w = (a * a * c * c + b * b * s * s).sqrt();
    let h = (rho - a * a * c / w) * c + (z - b * b * s / w) * s;
    (f, p[1].atan2(p[0]), h)
}

fn chain_case(ctx: &mut Ctx) {
    let mut tle = Tle::ordinary(&mut ctx.rng);
    tle.yy = if ctx.rng.chance(0.5) { 57 + ctx.rng.below(43) as u32 } else { ctx.rng.below(56) as u32 };
    let el = tle.elements();
    let rs = RefSet::new(&el, false);
    let (l1, l2) = tle.lines();
    let ep = tle_ns(&tle);
    let how = ctx.rng.below(4);
    let Some(r) = ctx.must(|| tle.show(), || match how {
        0 => twoline2satrec(&l1, &l2),
        1 => parse(&format!("{l1}\n{l2}")),
        2 => parse(&format!("0 SAT\r\n{l1}\r\n{l2}\r\n")),
        _ => {
            let (mut a, _) = parse_multiple(&format!("OTHER\nSAT\n{l1}\n{l2}\n"));
            a.pop().ok_or(satellite::io::SatrecParseError::InvalidTLEBadLineCount)
        }
    }) else { return };
    let rec = match r {
        Ok(q) => q,
        Err(e) => {
            let ex = rs.expect(0.0);
            if ex.stable && ex.out.res.is_ok() {
                ctx.check(false, || format!("ordinary element set refused: {e:?}; {}", tle.show()));
            }
            ctx.skip();
            return;
        }
    };
    for _ in 0..4 {
        let when = ep + match ctx.rng.below(4) {
            0 => ctx.rng.range(-86400, 86400) as i128 * 1_000_000_000,
            _ => ctx.rng.range(-30 * 86400, 30 * 86400) as i128 * 1_000_000_000 + ctx.rng.below(1_000_000_000) as i128,
        };
        let t = (when - ep) as f64 / 6e10;
        let ex = rs.expect(t);
        if !ex.stable || ex.tol_r > 1e-4 {
            ctx.skip();
            continue;
        }
        let (olat, olon) = (latitude(&mut ctx.rng), longitude(&mut ctx.rng));
        let oh = ctx.rng.uni(-0.4, 9.0);
        let d = dt(when);
        let msg = || format!("{} at {} from lat {olat:?} lon {olon:?} h {oh:?}", tle.show(), d.to_rfc3339());
        let obs = || satellite::Geodedic { latitude: olat, longitude: olon, height: oh };
        use satellite::transforms as tr;
        let Some(out) = ctx.must(msg, || {
            let res = match propogate_datetime(&rec, d) {
                Ok(x) => x,
                Err(e) => return Err(e.code() as u32),
            };
            let g = gstime_datetime(d);
            let sp = tr::eci_to_geodedic(&res.position, g);
            let ecf = tr::eci_to_ecf(&res.position, g);
            let b = tr::ecf_to_look_angles(&obs(), &ecf);
            let under = tr::ecf_to_look_angles(&satellite::Geodedic { latitude: sp.latitude, longitude: sp.longitude, height: 0.0 }, &ecf);
            Ok((sp, crate::geo::arr(&ecf), b, under, g))
        }) else { return };
        let want = match (&out, &ex.out.res) {
            (Ok(_), Ok(s)) => s,
            (Err(c), Err(w)) => {
                ctx.check(c == w, || format!("refused with {c}, the model says {w}; {}", msg()));
                continue;
            }
            (o, w) => {
                let (o, w) = (o.is_ok(), show(w));
                ctx.check(false, || format!("chain {} but the model says {w}; {}", if o { "delivers" } else { "refuses" }, msg()));
                continue;
            }
        };
        let Ok((sp, ecf, b, under, _)) = out else { continue };
        ctx.seen(hash2(tle.hash(), when));
        let p = rotz(&want.r, -gmst_ns(when));
        let rr = norm(&p);
        // 0.25 ms of Julian-date rounding in the prediction and 0.12 ms in the rotation
        let tol = ex.tol_r + 2.5e-4 * norm(&want.v) + rr * 1.2e-8 + 1e-6;
        ctx.close("Earth-fixed position (km)", dist(&ecf, &p), 0.0, tol, || format!("got {ecf:?} want {p:?}; {}", msg()));
        let (lat, lon, h) = ecf_to_geo(&p);
        ctx.close("height (km)", sp.height, h, tol, msg);
        ctx.close("latitude (rad)", sp.latitude, lat, tol / 6300.0, msg);
        let rho = p[0].hypot(p[1]);
        if rho > 10.0 {
            ctx.close("longitude (rad)", turn_diff(sp.longitude, lon), 0.0, 2.0 * tol / rho, msg);
        }
        let q = geo_to_ecf(sp.latitude, sp.longitude, sp.height);
        ctx.close("sub-satellite point (km)", dist(&q, &p), 0.0, tol + 1e-6, msg);
        let (s, e, u) = axes(olat, olon);
        let dv = sub(&p, &geo_to_ecf(olat, olon, oh));
        let l = [crate::geo::dot(&dv, &s), crate::geo::dot(&dv, &e), crate::geo::dot(&dv, &u)];
        ctx.strat(if l[2] > 0.0 { "above the horizon" } else { "below the horizon" });
        ctx.strat(if t < 0.0 { "before epoch" } else { "after epoch" });
        ctx.strat(if rs.base.flags & (1 << crate::refmodel::flag::DEEP) != 0 { "deep space" } else { "near earth" });
        ctx.strat(if p[2] > 0.0 { "northern" } else { "southern" });
        ctx.strat(if tle.year() < 2000 { "last century" } else { "this century" });
        judge_bearing(ctx, &b, &l, tol, &msg);
        // seen from right below
        ctx.close("overhead: range is height (km)", under.range, sp.height.abs(), 1e-5, msg);
        ctx.close("overhead: elevation", under.elevation, PI / 2.0, 2e-6, msg);
        ctx.sample(|| format!("{} -> {b:?}", msg()));
    }
}

pub const C21: Check = Check {
    id: "C21",
    rule: "ordinary element sets of both kinds, read through one of four entry points, at instants within 30 days of epoch with nanosecond parts, from random observers: Earth-fixed position, latitude, longitude, height, azimuth, elevation and range of the documented pipeline against reference model + own sidereal time + own ellipsoid (bisection) + local axes, and the zenith relation from the sub-satellite point; a case is (element set, instant)",
    cases: (300_000, 15_000_000),
    case: chain_case,
    required: &["above the horizon", "below the horizon", "before epoch", "after epoch", "deep space", "near earth", "northern", "southern", "last century", "this century"],
    assumptions: &["Julian dates held in doubles place an instant to 0.25 ms"],
};
