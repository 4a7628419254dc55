//! Checks of the parsers: C06-C11.

use crate::fw::{Check, Ctx};
use crate::gen::{self, is_leap, jd_midnight, mlen, name, Tle};
use crate::oracle::{prop, show};
use crate::refmodel::{RefSat, WGS84};
use crate::rng::{Hash, Rng};
use satellite::io::{parse, parse_multiple, parse_satrec, twoline2satrec, Satrec, SatrecParseError};
use std::f64::consts::PI;

pub fn hash_str(s: &str) -> u64 {
    let mut h = Hash::new();
    h.bytes(s.as_bytes());
    h.get()
}

fn rel(ctx: &mut Ctx, what: &'static str, got: f64, want: f64, tol: f64, msg: &dyn Fn() -> String) -> bool {
    ctx.close(what, got, want, want.abs() * tol, msg)
}

// ---------------------------------------------------------------- C06

fn check_fields(ctx: &mut Ctx, rec: &Satrec, tle: &Tle, satnum: &str, raw: bool, msg: &dyn Fn() -> String) {
    let e = tle.elements();
    let xp = 1440.0 / (2.0 * PI);
    ctx.check(rec.satnum == satnum, || format!("catalogue number {:?}, columns say {:?}; {}", rec.satnum, satnum, msg()));
    ctx.check(rec.epochyr == tle.yy as i64, || format!("epoch year {}, columns say {}; {}", rec.epochyr, tle.yy, msg()));
    rel(ctx, "epoch day", rec.epochdays, tle.day_val(), 1e-15, msg);
    rel(ctx, "first derivative", rec.ndot, tle.ndot_e8 as f64 / 1e8 / (xp * 1440.0), 1e-14, msg);
    rel(ctx, "second derivative", rec.nddot, tle.nddot_val() / (xp * 1440.0 * 1440.0), 1e-14, msg);
    rel(ctx, "drag term", rec.bstar, e.bstar, 1e-15, msg);
    rel(ctx, "inclination", rec.inclo, e.incl, 1e-15, msg);
    rel(ctx, "node", rec.nodeo, e.node, 1e-15, msg);
    rel(ctx, "eccentricity", rec.ecco, e.ecc, 1e-15, msg);
    rel(ctx, "argument of perigee", rec.argpo, e.argp, 1e-15, msg);
    rel(ctx, "mean anomaly", rec.mo, e.ma, 1e-15, msg);
    if raw {
        rel(ctx, "mean motion", rec.no, e.no, 1e-14, msg);
    } else if tle.no_e8 > 1_000_000 && tle.ecc_e7 < 9_000_000 {
        let want = RefSat::new(e, false, WGS84).no;
        rel(ctx, "mean motion (recovered)", rec.no, want, 1e-11, msg);
    }
    if tle.no_e8 > 0 {
        let a = (398600.5f64 / (e.no / 60.0).powi(2)).cbrt() / 6378.137;
        rel(ctx, "semi-major axis", rec.a, a, 1e-12, msg);
        ctx.close("apogee altitude", rec.alta, a * (1.0 + e.ecc) - 1.0, 1e-12 * a, msg);
        ctx.close("perigee altitude", rec.altp, a * (1.0 - e.ecc) - 1.0, 1e-12 * a, msg);
    }
}

/// Now and then print blanks for the leading zeros of these digits (never the last one, nor after a sign).
fn blank_zeros(r: &mut Rng, line: &mut String, low: usize, high: usize) -> bool {
    let zeros = line[low..high - 1].chars().take_while(|c| *c == '0').count();
    if zeros == 0 || !r.chance(0.3) || (low == 45 && &line[44..45] != " ") {
        return false;
    }
    let n = 1 + r.below(zeros as u64) as usize;
    line.replace_range(low..low + n, &" ".repeat(n));
    true
}

fn decode_case(ctx: &mut Ctx) {
    let mut tle = Tle::any(&mut ctx.rng);
    // uniform digits in every column, often enough
    let r = &mut ctx.rng;
    if r.chance(0.6) {
        tle.incl_e4 = r.below(1_800_001);
        tle.node_e4 = r.below(3_600_000);
        tle.argp_e4 = r.below(3_600_000);
        tle.ma_e4 = r.below(3_600_000);
        tle.ndot_e8 = r.range(-99_999_999, 99_999_999);
        tle.nddot = (r.range(-99999, 99999), r.range(-9, 9) as i32);
        tle.bstar = (r.range(-99999, 99999), r.range(-9, 0) as i32);
    }
    match r.below(6) {
        0 => tle.bstar.0 = r.range(-99, 99),
        1 => tle.nddot.0 = r.range(-999, 999),
        2 => tle.ecc_e7 = r.below(1000),
        _ => {}
    }
    let (mut l1, mut l2) = tle.lines();
    let mut satnum = tle.satnum.to_string();
    if tle.style.zero_satnum {
        satnum = format!("{:05}", tle.satnum);
    }
    if r.chance(0.1) {
        // Alpha-5 catalogue numbers
        satnum = format!("{}{:04}", *r.pick(&['A', 'T', 'Z', 'B']), r.below(10000));
        l1.replace_range(2..7, &satnum);
        l2.replace_range(2..7, &satnum);
        ctx.strat("alpha-5 catalogue number");
    }
    // Leading zeros of an implied-decimal field left blank (the same columns, the same value).
    let blanked = (blank_zeros(&mut ctx.rng, &mut l1, 45, 50), blank_zeros(&mut ctx.rng, &mut l1, 54, 59), blank_zeros(&mut ctx.rng, &mut l2, 26, 33));
    let tail = *ctx.rng.pick(&["", "", "", " ", "     ", "\r", " \r", "  trailing remark", "\t"]);
    l1.push_str(tail);
    l2.push_str(tail);
    if ctx.rng.chance(0.25) {
        // classification, designator and what follows the last decoded field are free text
        let r = &mut ctx.rng;
        let mut free = |n: usize| -> String {
            let v: Vec<char> = if r.chance(0.5) { (32..127u8).map(char::from).collect() } else { "0123456789-+. EU".chars().collect() };
            (0..n).map(|_| *r.pick(&v)).collect()
        };
        let (c, d) = (free(1), free(8));
        l1.replace_range(7..8, &c);
        l1.replace_range(9..17, &d);
        for (l, k) in [(&mut l1, 61), (&mut l2, 63)] {
            let n = l.trim_end().len().max(k) - k;
            let t = free(n);
            l.replace_range(k..k + n.min(l.len() - k), &t);
        }
        if ctx.rng.chance(0.1) {
            l1.push_str(" \u{661F}\u{96FB}é");
            l2.push_str("é");
        }
        ctx.strat("free text in the columns that are not decoded");
    }
    if tle.style.no_tail && tail.is_empty() {
        ctx.strat("nothing after the last field");
    }
    for (c, s) in [
        (tle.ndot_e8 < 0, "negative first derivative"), (tle.nddot.0 < 0, "negative second derivative"), (tle.bstar.0 < 0, "negative drag"),
        (tle.nddot.0 != 0 && tle.nddot.0.abs() < 10000, "second derivative with leading zeros"),
        (tle.bstar.0 != 0 && tle.bstar.0.abs() < 10000, "drag with leading zeros"), (tle.bstar.1 > 0, "positive drag exponent"),
        (tle.nddot.1 > 0, "positive second-derivative exponent"),
        (tle.ecc_e7 < 100_000, "eccentricity with leading zeros"), (tle.style.plus_signs, "explicit plus signs"),
        (tle.incl_e4 >= 1_000_000, "three-digit inclination"), (tle.no_e8 < 1_000_000_000, "mean motion below ten"),
        (blanked.0, "second derivative with leading blanks"), (blanked.1, "drag with leading blanks"), (blanked.2, "eccentricity with leading blanks"),
        (tle.satnum < 10000, "catalogue number with leading zeros or blanks"), (tle.yy < 10, "epoch year below ten"),
    ] {
        if c {
            ctx.strat(s);
        }
    }
    let msg = || format!("{l1:?} {l2:?}");
    ctx.seen(hash_str(&l1) ^ hash_str(&l2).rotate_left(1));
    let Some(r) = ctx.must(|| format!("parse_satrec({l1:?}, {l2:?})"), || parse_satrec(&l1, &l2)) else { return };
    match r {
        Ok(rec) => {
            ctx.check(rec.name.is_none() && rec.error == 0, || format!("fresh record has a name or an error; {}", msg()));
            check_fields(ctx, &rec, &tle, &satnum, true, &msg)
        }
        Err(e) => {
            ctx.check(false, || format!("well-formed element set refused: {e:?}; {}", msg()));
            return;
        }
    }
    ctx.sample(|| format!("{l1} / {l2}"));
    let which = ctx.rng.below(4);
    let Some(r) = ctx.must(&msg, || match which {
        0 => twoline2satrec(&l1, &l2),
        1 => parse(&format!("{l1}\n{l2}\n")),
        2 => parse(&format!("0 NAME\n{l1}\n{l2}")),
        _ => {
            let (mut v, mut e) = parse_multiple(&format!("NAME\n{l1}\n{l2}"));
            match (v.pop(), e.pop()) {
                (Some(x), None) => Ok(x),
                (None, Some(SatrecParseError::SatrecMultiError(_, b))) => Err(*b),
                _ => Err(SatrecParseError::InvalidTLEBadLineCount),
            }
        }
    }) else { return };
    match r {
        Ok(rec) => {
            ctx.strat("decoded through a full entry point");
            check_fields(ctx, &rec, &tle, &satnum, false, &msg)
        }
        Err(SatrecParseError::Sgp4InitError(_)) => {}
        Err(e) => {
            ctx.check(false, || format!("well-formed element set refused: {e:?}; {}", msg()));
        }
    }
}

pub const C06: Check = Check {
    id: "C06",
    rule: "element sets printed from integer column values (all digits, signs, leading zeros/blanks, exponents, leading blanks in place of zeros, alpha-5 numbers, trailing text and equivalent print styles drawn at random); every decoded field of parse_satrec and of one full entry point compared with the printed value; a case is a pair of lines",
    cases: (2_000_000, 120_000_000),
    case: decode_case,
    required: &[
        "negative first derivative", "negative second derivative", "negative drag", "second derivative with leading zeros", "drag with leading zeros",
        "positive drag exponent", "positive second-derivative exponent", "eccentricity with leading zeros", "explicit plus signs", "three-digit inclination",
        "mean motion below ten", "catalogue number with leading zeros or blanks", "free text in the columns that are not decoded", "epoch year below ten", "alpha-5 catalogue number", "second derivative with leading blanks", "drag with leading blanks", "eccentricity with leading blanks",
        "nothing after the last field", "decoded through a full entry point",
    ],
    assumptions: &["a value equal to the printed one up to a few units of rounding counts as exact"],
};

// ---------------------------------------------------------------- C07

fn epoch_case(ctx: &mut Ctx) {
    // enumerate (two-digit year, day of year) completely, random fractions
    let combos = 36525u64;
    let mut k = ctx.idx % combos;
    let mut yy = 0u32;
    loop {
        let y = if yy < 57 { 2000 + yy as i64 } else { 1900 + yy as i64 };
        let n = if is_leap(y) { 366 } else { 365 };
        if k < n {
            break;
        }
        k -= n;
        yy += 1;
    }
    let doy = k + 1;
    let mut tle = Tle::ordinary(&mut ctx.rng);
    tle.yy = yy;
    let y = tle.year();
    if is_leap(y) {
        ctx.strat(if doy == 60 { "29 February" } else if doy == 366 { "day 366" } else { "leap year" });
    } else {
        ctx.strat(if doy == 60 { "1 March of a common year" } else if doy == 365 { "31 December of a common year" } else { "common year" });
    }
    if yy == 56 || yy == 57 {
        ctx.strat("century pivot");
    }
    for j in 0..6 {
        let frac = match j {
            0 => 0,
            1 => 99_999_999,
            2 => *ctx.rng.pick(&[1, 50_000_000, 49_999_999, 50_000_001, 4_166_666, 4_166_667, 99_998_842, 99_998_843, 69_444, 69_445]),
            _ => ctx.rng.below(100_000_000),
        };
        tle.day_e8 = doy * 100_000_000 + frac;
        let (l1, l2) = tle.lines();
        let msg = || format!("epoch columns {:?} of {l1:?}", &l1[18..32]);
        let Some(r) = ctx.must(&msg, || parse_satrec(&l1, &l2)) else { return };
        let Ok(rec) = r else {
            ctx.check(false, || format!("well-formed element set refused; {}", msg()));
            return;
        };
        let (d, ns) = tle.epoch_exact();
        // difference in days: subtract the midnight first, so nothing is lost
        let diff = ((rec.jdsatepoch - d) - ns as f64 / 86400e9) * 86400.0;
        ctx.close("epoch Julian date (s)", diff, 0.0, 1e-4, &msg);
        ctx.seen(tle.day_e8 ^ ((yy as u64) << 48));
        if j == 2 {
            if let Some(Ok(q)) = ctx.must(&msg, || twoline2satrec(&l1, &l2)) {
                ctx.check(q.jdsatepoch == rec.jdsatepoch && q.epochyr == rec.epochyr && q.epochdays == rec.epochdays, || format!("entry points disagree on the epoch; {}", msg()));
            }
        }
        // the calendar split
        let days = tle.day_val();
        split(ctx, y, days, ns, doy);
        ctx.sample(|| format!("year {y} day {days} -> JD {:.9}", rec.jdsatepoch));
    }
    // every year the split is valid for
    let y = ctx.rng.range(1901, 2099);
    let doy = 1 + ctx.rng.below(if is_leap(y) { 366 } else { 365 });
    let f = ctx.rng.below(100_000_000);
    split(ctx, y, (doy * 100_000_000 + f) as f64 / 1e8, f * 864_000, doy);
}

fn split(ctx: &mut Ctx, y: i64, days: f64, ns: u64, doy: u64) {
    let msg = || format!("days2mdhms({y}, {days:?})");
    let Some(m) = ctx.must(msg, || satellite::ext::days2mdhms(y as u64, days)) else { return };
    let ok = m.month.fract() == 0.0
        && m.day.fract() == 0.0
        && m.hour.fract() == 0.0
        && m.minute.fract() == 0.0
        && (1.0..=12.0).contains(&m.month)
        && m.day >= 1.0
        && m.day <= mlen(y, (m.month as i64).clamp(1, 12)) as f64
        && (0.0..=23.0).contains(&m.hour)
        && (0.0..=59.0).contains(&m.minute)
        && m.second >= 0.0
        && m.second < 60.0;
    if !ctx.check(ok, || format!("calendar fields out of range: {} {} {} {} {}; {}", m.month, m.day, m.hour, m.minute, m.second, msg())) {
        return;
    }
    let jd0 = jd_midnight(y, m.month as i64, m.day as i64) - jd_midnight(y, 1, 1);
    let got = (jd0 - (doy as f64 - 1.0)) * 86400.0 + m.hour * 3600.0 + m.minute * 60.0 + m.second;
    ctx.close("calendar split (s)", got, ns as f64 / 1e9, 1e-4, msg);
}

pub const C07: Check = Check {
    id: "C07",
    rule: "every (two-digit year, day of year) pair in turn with fractions 0, the last printable one and random ones: decoded Julian date against day counting in integer arithmetic, and the month/day/h/m/s split checked for range and for denoting the same instant (also for random years 1901-2099); a case is (year, day at printed resolution)",
    cases: (36525 * 20, 36525 * 1200),
    case: epoch_case,
    required: &["29 February", "day 366", "leap year", "1 March of a common year", "31 December of a common year", "common year", "century pivot"],
    assumptions: &["a Julian date held in one double is exact to 0.1 ms at best"],
};

// ---------------------------------------------------------------- C08

const HOSTILE: [&str; 34] = [
    "é", "\u{20AC}", "\u{1F6F0}", "\u{0}", "\u{FEFF}", "\u{2028}", "\r", "\n", "\r\n", "\t", "\u{A0}", "\u{85}", "0", "9", "-", "+", ".", "e", "E", " ", "nan",
    "inf", "-9", "1e9", "999999999999999999999", "--", "..", "\u{0301}", "\u{D7FF}", "\u{10FFFF}", "x", "2 ", "1 ", "0 ",
];

fn mutate(r: &mut Rng, s: &str, n: usize) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..n {
        let len = cs.len();
        match r.below(9) {
            0 if len > 0 => { let k = r.usize(len); cs.remove(k); }
            1 => {
                let k = r.usize(len + 1);
                let h: Vec<char> = r.pick(&HOSTILE).chars().collect();
                for (j, c) in h.into_iter().enumerate() {
                    cs.insert(k + j, c);
                }
            }
            2 | 3 if len > 0 => {
                let k = r.usize(len);
                let h: Vec<char> = r.pick(&HOSTILE).chars().collect();
                for (j, c) in h.into_iter().enumerate() {
                    if k + j < cs.len() {
                        cs[k + j] = c;
                    }
                }
            }
            4 if len > 0 => cs.truncate(r.usize(len + 1)),
            5 if len > 1 => {
                let (a, b) = (r.usize(len), r.usize(len));
                cs.swap(a, b);
            }
            6 if len > 0 => {
                let k = r.usize(len);
                cs[k] = char::from_digit(r.below(10) as u32, 10).unwrap();
            }
            7 if len > 2 => {
                let a = r.usize(len);
                let b = a + r.usize((len - a).min(20));
                let part: Vec<char> = cs[a..b].to_vec();
                let at = r.usize(len);
                for (j, c) in part.into_iter().enumerate() {
                    cs.insert(at + j, c);
                }
            }
            _ if len > 0 => {
                let k = r.usize(len);
                cs[k] = char::from_u32(32 + r.below(95) as u32).unwrap();
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

fn junk(r: &mut Rng, n: usize) -> String {
    match r.below(4) {
        0 => (0..n).map(|_| char::from_u32(r.below(0xD800) as u32).unwrap_or('x')).collect(),
        1 => (0..n).map(|_| char::from_u32(32 + r.below(95) as u32).unwrap()).collect(),
        2 => (0..n).map(|_| *r.pick(&['0', '1', '2', ' ', '-', '+', '.', '\n', '9', 'E'])).collect(),
        _ => (0..n / 3 + 1).map(|_| *r.pick(&HOSTILE)).collect(),
    }
}

/// What the entry points make of a text and a pair of lines.
fn outcome(text: &str, a: &str, b: &str) -> String {
    let rec = |r: Result<Satrec, SatrecParseError>| match r {
        Ok(r) => format!("{:?} {} {:x?}", r.name, r.satnum, dump(&r)),
        Err(e) => format!("{e:?}"),
    };
    let (v, e) = parse_multiple(text);
    let mut s = format!("{e:?}");
    for x in [parse(text), twoline2satrec(a, b), parse_satrec(a, b)].into_iter().chain(v.into_iter().map(Ok)) {
        s.push_str(" | ");
        s.push_str(&rec(x));
    }
    s
}

fn total_case(ctx: &mut Ctx) {
    let kind = ctx.rng.below(10);
    let tle = if ctx.rng.chance(0.7) { Tle::ordinary(&mut ctx.rng) } else { Tle::any(&mut ctx.rng) };
    let (l1, l2) = tle.lines();
    let r = &mut ctx.rng;
    let (text, a, b): (String, String, String);
    let label;
    let mut huge = false;
    match kind {
        0 => {
            let n = r.usize(300);
            text = junk(r, n);
            (a, b) = (junk(r, 70), junk(r, 70));
            label = "arbitrary text";
        }
        1 => {
            // every truncation point
            let k = r.usize(l1.len() + 1);
            let j = r.usize(l2.len() + 1);
            a = l1[..k].to_string();
            b = if r.chance(0.5) { l2.clone() } else { l2[..j].to_string() };
            text = format!("{a}\n{b}");
            label = "truncated lines";
        }
        2 | 3 => {
            let n = 1 + r.usize(4);
            a = mutate(r, &l1, n);
            b = if r.chance(0.5) { mutate(r, &l2, n) } else { l2.clone() };
            text = if r.chance(0.5) { format!("{a}\n{b}") } else { format!("{}\n{a}\n{b}\n", name(r)) };
            label = "mutated element lines";
        }
        4 => {
            // one column of one line replaced by a multi-byte character
            let k = r.usize(69);
            let on1 = r.chance(0.5);
            let mut s = if on1 { l1.clone() } else { l2.clone() };
            if k < s.len() {
                s.replace_range(k..k + 1, r.pick(&["é", "€", "\u{1F6F0}"]));
            }
            (a, b) = if on1 { (s, l2.clone()) } else { (l1.clone(), s) };
            text = format!("{a}\n{b}");
            label = "non-ASCII columns";
        }
        5 => {
            // extreme numbers in a field
            const F: [(usize, usize, usize); 13] = [
                (1, 18, 20), (1, 20, 32), (1, 33, 43), (1, 44, 50), (1, 50, 52), (1, 54, 59), (1, 59, 61),
                (2, 8, 16), (2, 17, 25), (2, 26, 33), (2, 34, 42), (2, 43, 51), (2, 52, 63),
            ];
            const V: [&str; 22] = [
                "99999999999999", "-999999999999", "1e308", "-1e308", "1e-308", "0", "-0", "+", "-", ".", "nan", "inf", "-inf", "infinity",
                "1e99", "00000000000000", "--1", "1.2.3", "9e9", "-1", "-9.9", "0x10",
            ];
            let f = *r.pick(&F);
            let v = *r.pick(&V);
            let w = f.2 - f.1;
            let v = format!("{:>w$}", &v[..v.len().min(w)], w = w);
            let (mut p, mut q) = (l1.clone(), l2.clone());
            if f.0 == 1 { if p.len() >= f.2 { p.replace_range(f.1..f.2, &v) } } else { q.replace_range(f.1..f.2, &v) }
            (a, b) = (p, q);
            text = format!("{a}\r\n{b}\r\n");
            label = "extreme field values";
        }
        6 => {
            // wrong numbers of lines and odd separators
            let n = r.usize(9);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(match r.below(6) {
                    0 => &l1,
                    1 => &l2,
                    2 => "",
                    3 => "1 ",
                    4 => "2",
                    _ => "NAME",
                });
                t.push_str(r.pick(&["\n", "\r\n", "\n\n", "\r", " \n", "\n\t\n"]));
            }
            text = t;
            (a, b) = (l2.clone(), l1.clone());
            label = "wrong line counts";
        }
        7 => {
            let n = if r.chance(0.01) { 3_000_000 } else if r.chance(0.05) { 200_000 } else { r.usize(3000) };
            let c = *r.pick(&["1", " ", "\n", "1 \n", "é", "0 ", "1 2 ", "\n1 ", "2 \n", "\t", "0", "-", "\r", "\u{3000}", ".", "9"]);
            let u = c.repeat(n);
            let k = r.usize(60);
            text = match r.below(8) {
                0 | 1 => u,
                2 => format!("{u}X\n{l1}\n{l2}\n"),
                3 => format!("X{u}X{u}\n{l1}\n{l2}\n"),
                4 => format!("X\n{u}{l1}\n{u}{l2}\n"),
                5 => format!("X\n{l1}{u}\n{l2}{u}"),
                6 => format!("{}{u}{}\n{l2}", &l1[..k], &l1[k..]),
                _ => format!("{l1}\n{}{u}{}\n{u}", &l2[..k], &l2[k..]),
            };
            huge = n > 1_000_000;
            a = format!("{l1}{}", "x".repeat(n.min(200_000)));
            b = format!("{l2}{}", "9".repeat(n.min(200_000)));
            label = "very long or repetitive text";
        }
        8 => {
            // streams with faults
            let mut t = String::new();
            for _ in 0..1 + r.usize(12) {
                let e = Tle::any(r);
                let (x, y) = e.lines();
                let s = match r.below(4) {
                    0 => format!("{}\n{x}\n{y}\n", name(r)),
                    1 => format!("{x}\n{y}\n"),
                    2 => { let q = format!("{}\n{x}\n{y}\n", name(r)); mutate(r, &q, 3) }
                    _ => format!("{}\n", junk(r, 40)),
                };
                t.push_str(&s);
            }
            text = t;
            (a, b) = (String::new(), l2.clone());
            label = "faulty streams";
        }
        _ => {
            let q = format!("{}\n{l1}\n{l2}\n", name(r));
            let n = 1 + r.usize(12);
            text = mutate(r, &q, n);
            (a, b) = (mutate(r, &l1, 2), junk(r, 10));
            label = "mutated texts";
        }
    }
    ctx.strat(label);
    if huge {
        ctx.strat("text of millions of characters");
    }
    ctx.seen(hash_str(&text) ^ hash_str(&a).rotate_left(1) ^ hash_str(&b).rotate_left(2));
    let cut = |s: &str| -> String { s.chars().take(400).collect() };
    macro_rules! probe {
        ($what:expr, $e:expr) => {
            match ctx.call(|| $e) {
                Ok(ok) => { ctx.check(true, String::new); if ok { ctx.strat("accepted"); } else { ctx.strat("refused"); } }
                Err(m) => { ctx.check(false, || format!("{} panics: {m}", $what)); return; }
            }
        };
    }
    probe!(format!("parse({:?})", cut(&text)), parse(&text).is_ok());
    probe!(format!("parse_multiple({:?})", cut(&text)), { let (v, e) = parse_multiple(&text); !v.is_empty() && e.is_empty() });
    probe!(format!("twoline2satrec({:?}, {:?})", cut(&a), cut(&b)), twoline2satrec(&a, &b).is_ok());
    probe!(format!("parse_satrec({:?}, {:?})", cut(&a), cut(&b)), parse_satrec(&a, &b).is_ok());
    probe!(format!("parse_satrec({:?}, {:?})", cut(&text), cut(&a)), parse_satrec(&text, &a).is_ok());
    // what stands next to the text in memory is not part of it
    if text.len() < 20_000 && ctx.rng.chance(0.3) {
        let tail = *ctx.rng.pick(&[" 90001", "0", "99999999", "\n2 ", "\r\n", "  ", "é", "E-5"]);
        let around = |s: &str| format!("1 {s}{tail}");
        let (t2, a2, b2) = (around(&text), around(&a), around(&b));
        let (s, p, q) = (&t2[2..2 + text.len()], &a2[2..2 + a.len()], &b2[2..2 + b.len()]);
        let Some((x, y)) = ctx.must(|| "parsing a part of a longer text".into(), || (outcome(&text, &a, &b), outcome(s, p, q))) else { return };
        ctx.strat("part of a longer text");
        ctx.check(x == y, || format!("parsed inside a longer text, followed by {tail:?}: {y}, alone: {x}; {:?} {:?} {:?}", cut(&text), cut(&a), cut(&b)));
    }
    ctx.sample(|| format!("{label}: {:?}", cut(&text)));
}

pub const C08: Check = Check {
    id: "C08",
    rule: "arbitrary text, truncations at every column, mutated element lines and streams, non-ASCII columns, extreme numbers, wrong line counts and separators, very long text; all four parsing entry points run under the panic, overflow, CPU-time and memory monitors; a case is (text, line pair)",
    cases: (400_000, 40_000_000),
    case: total_case,
    required: &[
        "arbitrary text", "truncated lines", "mutated element lines", "non-ASCII columns", "extreme field values", "wrong line counts",
        "very long or repetitive text", "text of millions of characters", "faulty streams", "mutated texts", "part of a longer text",
    ],
    assumptions: &["a call that uses 30 s of CPU time does not return", "integer overflow checks and debug assertions are compiled in"],
};

// ---------------------------------------------------------------- C09 / C10 helpers

fn dump(r: &Satrec) -> Vec<u64> {
    [r.epochdays, r.ndot, r.nddot, r.bstar, r.inclo, r.nodeo, r.ecco, r.mo, r.no, r.argpo, r.a, r.alta, r.altp, r.jdsatepoch, r.gsto]
        .iter()
        .map(|x| x.to_bits())
        .chain([r.epochyr as u64, r.error as u64])
        .collect()
}

/// Same record: same decoded fields and same predictions.
fn same_record(a: &Satrec, b: &Satrec) -> bool {
    if a.satnum != b.satnum || dump(a) != dump(b) {
        return false;
    }
    let (mut x, mut y) = (a.clone(), b.clone());
    for t in [0.0, 1234.5] {
        let (p, q) = (prop(&mut x, t), prop(&mut y, t));
        if show(&p) != show(&q) {
            return false;
        }
    }
    true
}

fn title(r: &mut Rng, nm: &str) -> String {
    let bare = nm.len() <= 1;
    let k = if nm.starts_with("0 ") { 2 * r.below(2) } else { r.below(7) };
    match k {
        5 if !bare => format!("{}{nm}", r.pick(&[" ", "  ", "\t", "      "])),
        6 if !bare => format!("0 {}{nm}{}", r.pick(&[" ", "   ", "\t"]), r.pick(&["", " "])),
        0 => format!("0 {nm}"),
        1 if !bare => format!("{nm:24}"),
        2 if !bare => format!("0 {nm:24}"),
        3 if !bare => format!("{nm} "),
        _ => nm.to_string(),
    }
}

fn blank(r: &mut Rng) -> &'static str {
    *r.pick(&["", " ", "   ", "\t", " \t "])
}

// ---------------------------------------------------------------- C09

fn framing_case(ctx: &mut Ctx) {
    let tle = if ctx.rng.chance(0.85) { Tle::ordinary(&mut ctx.rng) } else { Tle::any(&mut ctx.rng) };
    let (mut l1, mut l2) = tle.lines();
    let r = &mut ctx.rng;
    let nm = name(r);
    let mut lines: Vec<String> = vec![];
    let mut label;
    let mut odd = false;
    match r.below(10) {
        0 | 1 | 2 => {
            lines = vec![l1.clone(), l2.clone()];
            label = "two lines";
        }
        3 | 4 | 5 => {
            let t = if r.chance(0.04) {
                // of three lines the first is the title, whatever it looks like
                odd = true;
                r.pick(&["1 WARE", "2 BE", "1 ", "2 ", &l1, &l2, "1 25544U"]).to_string()
            } else {
                title(r, &nm)
            };
            lines = vec![t, l1.clone(), l2.clone()];
            label = "three lines";
        }
        6 => {
            // wrong line numbers
            let c = r.pick(&["0", "3", "2", "1", " ", "A", "é"]).to_string();
            if r.chance(0.5) { l1.replace_range(0..1, &c) } else { l2.replace_range(0..1, &c) }
            lines = if r.chance(0.5) { vec![l1.clone(), l2.clone()] } else { vec![title(r, &nm), l1.clone(), l2.clone()] };
            label = "altered line number";
        }
        7 => {
            lines = if r.chance(0.5) { vec![l2.clone(), l1.clone()] } else { vec![title(r, &nm), l2.clone(), l1.clone()] };
            label = "swapped lines";
        }
        8 => {
            let n = *r.pick(&[0usize, 1, 4, 5, 6, 7, 9, 12]);
            for k in 0..n {
                lines.push(match k % 3 {
                    0 => title(r, &nm),
                    1 => l1.clone(),
                    _ => l2.clone(),
                });
            }
            label = "wrong number of lines";
        }
        _ => {
            // element lines of two satellites after a title, or a title alone
            let (m1, m2) = Tle::ordinary(r).lines();
            lines = match r.below(3) {
                0 => vec![l1.clone(), l2.clone(), m1, m2],
                1 => vec![title(r, &nm)],
                _ => vec![l1.clone(), l2.clone(), title(r, &nm)],
            };
            label = "other arrangement";
        }
    }
    // blank lines anywhere, and line endings
    let crlf = r.chance(0.4);
    let mixed = r.chance(0.1);
    let mut eol = if crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut blanks = 0;
    for (k, l) in lines.iter().enumerate() {
        if mixed {
            eol = r.pick(&["\n", "\r\n"]);
        }
        while r.chance(0.2) {
            text.push_str(blank(r));
            text.push_str(eol);
            blanks += 1;
        }
        text.push_str(l);
        if k + 1 < lines.len() || r.chance(0.7) {
            text.push_str(eol);
        }
    }
    if text.ends_with('\n') || lines.is_empty() {
        while r.chance(0.3) {
            text.push_str(blank(r));
            text.push_str(eol);
            blanks += 1;
        }
    }
    if label == "altered line number" && lines[lines.len() - 2].starts_with('1') && lines[lines.len() - 1].starts_with('2') {
        label = if lines.len() == 2 { "two lines" } else { "three lines" };
    }
    ctx.strat(label);
    if odd {
        ctx.strat("title that looks like an element line");
    }
    if blanks > 0 {
        ctx.strat("blank lines");
    }
    if crlf {
        ctx.strat("CRLF");
    }
    if mixed {
        ctx.strat("mixed line endings");
    }
    if lines.first().map_or(false, |l| l.starts_with("0 0 ")) {
        ctx.strat("name that starts with a zero and a blank");
    }
    ctx.seen(hash_str(&text));
    // what must come out
    let n = lines.len();
    enum Want {
        Count,
        Line,
        Rec(String, String, Option<String>),
    }
    let want = match n {
        2 | 3 => {
            let (p, q) = (&lines[n - 2], &lines[n - 1]);
            if !p.starts_with('1') || !q.starts_with('2') {
                Want::Line
            } else {
                let nm = if n == 3 {
                    let t = &lines[0];
                    Some(t.strip_prefix("0 ").unwrap_or(t).trim().to_string())
                } else {
                    None
                };
                Want::Rec(p.clone(), q.clone(), nm)
            }
        }
        _ => Want::Count,
    };
    let Some(got) = ctx.must(|| format!("parse({text:?})"), || parse(&text)) else { return };
    ctx.sample(|| format!("{label}: {text:?}"));
    match want {
        Want::Count => {
            ctx.check(matches!(got, Err(SatrecParseError::InvalidTLEBadLineCount)), || format!("expected a bad line count, got {:?}; {text:?}", got.as_ref().map(|r| r.name.clone())));
        }
        Want::Line => {
            ctx.check(matches!(got, Err(SatrecParseError::InvalidTLELineCheckFailed)), || format!("expected a failed line check, got {:?}; {text:?}", got.as_ref().map(|r| r.name.clone())));
        }
        Want::Rec(p, q, nm) => {
            let Some(alone) = ctx.must(|| format!("twoline2satrec({p:?}, {q:?})"), || twoline2satrec(&p, &q)) else { return };
            match (got, alone) {
                (Ok(g), Ok(a)) => {
                    ctx.check(g.name == nm, || format!("name {:?}, expected {:?}; {text:?}", g.name, nm));
                    ctx.check(same_record(&g, &a), || format!("record differs from parsing its two lines; {text:?}"));
                }
                (Err(g), Err(a)) => {
                    ctx.strat("record itself refused");
                    ctx.check(g == a, || format!("refused with {g:?}, its two lines with {a:?}; {text:?}"));
                }
                (g, a) => {
                    ctx.check(false, || format!("parse accepts: {}, its two lines accepted: {}; {text:?}", g.is_ok(), a.is_ok()));
                }
            }
        }
    }
}

pub const C09: Check = Check {
    id: "C09",
    rule: "texts assembled from element lines, titles (with/without '0 ', padded, digits first, non-ASCII, 24/25 and more characters), blank lines, LF/CRLF, altered or swapped line numbers and wrong line counts; the outcome is compared with an independent statement of the framing rules and the record with parsing its two lines alone; a case is a text",
    cases: (1_000_000, 60_000_000),
    case: framing_case,
    required: &["two lines", "three lines", "altered line number", "swapped lines", "wrong number of lines", "other arrangement", "blank lines", "CRLF", "mixed line endings", "name that starts with a zero and a blank", "title that looks like an element line", "record itself refused"],
    assumptions: &["blank means only spaces, tabs and line-ending characters"],
};

// ---------------------------------------------------------------- C10

fn corrupt(r: &mut Rng, tle: &Tle) -> (String, String) {
    let (mut l1, mut l2) = tle.lines();
    match r.below(6) {
        0 => l1.replace_range(20..24, "XX.X"),
        1 => l2.replace_range(8..12, "abcd"),
        2 => l2.replace_range(53..56, "? ?"),
        3 => { l1.truncate(30); }
        4 => { l2.truncate(20); }
        _ => l2.replace_range(26..33, "12 4567"),
    }
    (l1, l2)
}

enum Out10 {
    Rec(String, String, Option<String>),
    Err(usize, Option<(String, String)>),
}

/// Equal up to blanks around the quoted text.
fn same_error(a: &SatrecParseError, b: &SatrecParseError) -> bool {
    use SatrecParseError::*;
    match (a, b) {
        (FloatParseError(n, l, h, t), FloatParseError(m, k, i, u)) | (IntParseError(n, l, h, t), IntParseError(m, k, i, u)) => n == m && l == k && h == i && t.trim() == u.trim(),
        (CompoundError(n, t), CompoundError(m, u)) => n == m && t.trim() == u.trim(),
        _ => a == b,
    }
}

fn stream_case(ctx: &mut Ctx) {
    let huge = ctx.idx % 40_000 == 20_000;
    let r = &mut ctx.rng;
    let big = huge || r.below(400) == 0;
    let n = if huge { 40_000 + r.usize(10_000) } else if big { 300 + r.usize(1500) } else { r.usize(14) };
    let style = r.below(4); // 0 all named, 1 all unnamed, 2/3 mixed
    let faults = r.chance(0.6);
    let mixed = r.chance(0.1);
    let mut eol = if r.chance(0.4) { "\r\n" } else { "\n" };
    let mut lines: Vec<String> = vec![];
    let mut want: Vec<Out10> = vec![];
    let mut strata: Vec<&'static str> = vec![];
    // after a stray title-like line an unnamed record would legitimately be
    // named by it, so such a line is followed by anything else
    let mut stray_before = false;
    let mut orphan1_before = false;
    let pool: Vec<Tle> = if big { (0..40).map(|_| Tle::ordinary(r)).collect() } else { vec![] };
    for _ in 0..n {
        let at = lines.len();
        let kind = if faults { r.below(10) } else { 0 };
        let mut named = match style {
            0 => true,
            1 => false,
            _ => r.chance(0.5),
        };
        let tle = if big { r.pick(&pool).clone() } else { Tle::ordinary(r) };
        match kind {
            7 => {
                // stray line
                let s = match r.below(5) {
                    0 => "# comment".to_string(),
                    1 => name(r),
                    2 => "X 25544U bad line".to_string(),
                    3 => "12345".to_string(),
                    _ => tle.lines().0[1..].trim().to_string(),
                };
                lines.push(s);
                want.push(Out10::Err(at, None));
                stray_before = true;
                orphan1_before = false;
                strata.push("stray line");
                continue;
            }
            8 => {
                // an element line that lost its partner
                let (a, b) = tle.lines();
                let first = r.chance(0.5);
                if !first && orphan1_before {
                    continue;
                }
                lines.push(if first { a } else { b });
                want.push(Out10::Err(at, None));
                stray_before = false;
                orphan1_before = first;
                strata.push("orphan element line");
                continue;
            }
            _ => {}
        }
        if stray_before {
            named = true;
        }
        let nm = if named {
            let q = name(r);
            lines.push(title(r, &q));
            Some(q)
        } else {
            None
        };
        strata.push(if named { "named record" } else { "unnamed record" });
        let (a, b) = if kind == 6 || kind == 9 { corrupt(r, &tle) } else { tle.lines() };
        lines.push(a.clone());
        lines.push(b.clone());
        if kind == 6 || kind == 9 {
            strata.push("bad record");
            want.push(Out10::Err(at, Some((a, b))));
        } else {
            want.push(Out10::Rec(a, b, nm));
        }
        stray_before = false;
        orphan1_before = false;
    }
    let mut text = String::new();
    let mut blanks = false;
    for (k, l) in lines.iter().enumerate() {
        if mixed {
            eol = ctx.rng.pick(&["\n", "\r\n"]);
        }
        while ctx.rng.chance(0.1) {
            text.push_str(blank(&mut ctx.rng));
            text.push_str(eol);
            blanks = true;
        }
        text.push_str(l);
        if k + 1 < lines.len() || ctx.rng.chance(0.6) {
            text.push_str(eol);
        }
    }
    for s in strata {
        ctx.strat(s);
    }
    if blanks {
        ctx.strat("blank lines");
    }
    if eol == "\r\n" {
        ctx.strat("CRLF");
    }
    if big {
        ctx.strat("long stream");
    }
    if mixed {
        ctx.strat("mixed line endings");
    }
    if lines.len() > 65536 {
        ctx.strat("stream of more than 65536 lines");
    }
    if n == 0 {
        ctx.strat("empty stream");
    }
    let brief = |t: &str| -> String { t.chars().take(1500).collect() };
    let Some((recs, errs)) = ctx.must(|| format!("parse_multiple({:?})", brief(&text)), || parse_multiple(&text)) else { return };
    if n > 0 {
        ctx.seen(hash_str(&text));
    }
    // expected outcome, record by record
    let mut want_recs: Vec<(Satrec, Option<String>)> = vec![];
    let mut want_errs: Vec<(usize, Option<SatrecParseError>)> = vec![];
    let mut at = 0usize;
    for w in &want {
        match w {
            Out10::Rec(a, b, nm) => {
                let Some(x) = ctx.must(|| format!("twoline2satrec({a:?}, {b:?})"), || twoline2satrec(a, b)) else { return };
                match x {
                    Ok(rec) => want_recs.push((rec, nm.clone())),
                    Err(e) => want_errs.push((at, Some(e))),
                }
                at += 2 + nm.is_some() as usize;
            }
            Out10::Err(k, pair) => {
                at = *k;
                match pair {
                    Some((a, b)) => {
                        let Some(x) = ctx.must(|| format!("twoline2satrec({a:?}, {b:?})"), || twoline2satrec(a, b)) else { return };
                        match x {
                            Err(e) => want_errs.push((at, Some(e))),
                            Ok(_) => {
                                // C11's business
                                ctx.skip();
                                return;
                            }
                        }
                        at += 2 + (lines[*k] != *a) as usize;
                    }
                    None => {
                        want_errs.push((at, None));
                        at += 1;
                    }
                }
            }
        }
    }
    ctx.check(recs.len() == want_recs.len(), || {
        format!("{} records come out, {} good ones went in ({} errors); {:?}", recs.len(), want_recs.len(), errs.len(), brief(&text))
    });
    for (k, (g, (w, nm))) in recs.iter().zip(&want_recs).enumerate() {
        let ok = ctx.check(g.name == *nm, || format!("record {k} is named {:?}, expected {:?}; {:?}", g.name, nm, brief(&text)))
            && ctx.check(g.satnum == w.satnum && (big || same_record(g, w)), || format!("record {k} ({}) differs from the one that went in ({}); {:?}", g.satnum, w.satnum, brief(&text)));
        if !ok {
            return;
        }
    }
    ctx.check(errs.len() == want_errs.len(), || format!("{} errors reported, expected {:?}; got {errs:?}; {:?}", errs.len(), want_errs, brief(&text)));
    for (g, (k, inner)) in errs.iter().zip(&want_errs) {
        let ok = match g {
            SatrecParseError::SatrecMultiError(i, b) => i == k && inner.as_ref().map(|e| same_error(b, e)).unwrap_or(true),
            _ => false,
        };
        if !ctx.check(ok, || format!("error {g:?}, expected index {k} with {inner:?}; {:?}", brief(&text))) {
            return;
        }
    }
    ctx.sample(|| format!("{} good records, {} faults: {:?}", want_recs.len(), want_errs.len(), brief(&text).chars().take(300).collect::<String>()));
}

pub const C10: Check = Check {
    id: "C10",
    rule: "streams of 0-14 (sometimes 300-1800, a few 40000-50000) items: named and unnamed good records, records with a corrupted or truncated field, stray lines, orphaned element lines, blank lines, LF/CRLF; the records that come out must be exactly the good ones, in order, equal to parsing each alone and rightly named, and the errors exactly the faults with the index of their first line and the fault's own error; a case is a stream",
    cases: (300_000, 20_000_000),
    case: stream_case,
    required: &["named record", "unnamed record", "bad record", "stray line", "orphan element line", "blank lines", "CRLF", "mixed line endings", "long stream", "stream of more than 65536 lines", "empty stream"],
    assumptions: &["a free-standing text line directly before an unnamed record is that record's title"],
};

// ---------------------------------------------------------------- C11

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Int,
    Float,
    Mant,
    Exp,
    Ecc,
    Sign,
}

/// (line, columns, whole field's columns, kind, words one of which names the field)
const FIELDS: [(u8, usize, usize, usize, usize, Kind, &[&str]); 14] = [
    (1, 18, 20, 18, 20, Kind::Int, &["epochyr", "year"]),
    (1, 20, 32, 20, 32, Kind::Float, &["epochday", "day"]),
    (1, 33, 43, 33, 43, Kind::Float, &["ndot"]),
    (1, 44, 50, 44, 52, Kind::Mant, &["nndot", "nddot"]),
    (1, 50, 52, 44, 52, Kind::Exp, &["nndot", "nddot"]),
    (1, 53, 54, 53, 61, Kind::Sign, &["bst"]),
    (1, 54, 59, 53, 61, Kind::Mant, &["bst"]),
    (1, 59, 61, 53, 61, Kind::Exp, &["bst"]),
    (2, 8, 16, 8, 16, Kind::Float, &["incl"]),
    (2, 17, 25, 17, 25, Kind::Float, &["node", "raan"]),
    (2, 26, 33, 26, 33, Kind::Ecc, &["ecc"]),
    (2, 34, 42, 34, 42, Kind::Float, &["arg"]),
    (2, 43, 51, 43, 51, Kind::Float, &["mo", "anomaly"]),
    (2, 52, 63, 52, 63, Kind::Float, &["no", "motion"]),
];

fn bad_text(r: &mut Rng, old: &str, kind: Kind) -> String {
    let w = old.len();
    let fit = |s: &str| -> String { format!("{:>w$}", &s[..s.len().min(w)], w = w) };
    if r.chance(0.3) && kind != Kind::Sign {
        // one to three characters that occur in no number, anywhere in the printed part
        let from = w - old.trim_start().len();
        let mut s: Vec<u8> = old.as_bytes().to_vec();
        if r.chance(0.05) {
            // a digit of another script
            let d = *r.pick(&["\u{663}", "\u{FF11}", "\u{B2}", "\u{96A}"]);
            if from + d.len() <= w {
                let k = from + r.usize(w - from - d.len() + 1);
                s[k..k + d.len()].copy_from_slice(d.as_bytes());
                return String::from_utf8(s).unwrap();
            }
        }
        for _ in 0..1 + r.usize(3) {
            let k = from.min(w - 1) + r.usize((w - from).max(1));
            s[k] = if r.chance(0.4) { *r.pick(b"OoIlSBD,_'") } else {
                loop {
                    let c = 33 + r.below(94) as u8;
                    if !b"0123456789.eE+-".contains(&c) {
                        break c;
                    }
                }
            };
        }
        return String::from_utf8(s).unwrap();
    }
    match kind {
        Kind::Sign => r.pick(&["X", ".", "*", "/", "?", "0", "3", "e"]).to_string(),
        Kind::Exp => r.pick(&["  ", "--", "++", "-A", "X5", "- ", "+ ", "-.", "?3"]).to_string(),
        Kind::Int => r.pick(&["  ", "A5", "5A", "--", "+-", ". ", "1.", "é", "X "]).to_string(),
        Kind::Mant => {
            let k = 1 + r.usize(w - 2);
            let mut s = old.to_string();
            match r.below(6) {
                0 => " ".repeat(w),
                1 => { s.replace_range(k..k + 1, " "); if s.trim().contains(' ') { s } else { fit("1 3") } }
                2 => { s.replace_range(k..k + 1, "A"); s }
                3 => { s.replace_range(k..k + 1, "."); s }
                4 => fit(r.pick(&["--12", "+-12", "1-23", "nan", "inf"])),
                _ => { let k = k.max(2); s.replace_range(k..k + 1, "-"); s }
            }
        }
        Kind::Ecc => {
            let k = 1 + r.usize(w - 2);
            let mut s = old.to_string();
            let c = *r.pick(&[" ", "A", ".", "-", "+", "_", "x", "e", "E"]);
            match r.below(4) {
                0 => " ".repeat(w),
                1 => fit(r.pick(&["nan", "inf", "-1234", "+1234", "0x12", "1e5", "12e3456", "0001e01", "2E-0003"])),
                _ => { s.replace_range(k..k + 1, c); s }
            }
        }
        Kind::Float => {
            let t = old.trim().to_string();
            match r.below(9) {
                0 => " ".repeat(w),
                1 => fit(r.pick(&["nan", "NaN", "inf", "-inf", "Infinity", "+nan", "INF"])),
                2 => fit(r.pick(&["abc", "..", "--1.5", "+-1.5", "1.2.3", "-", "+", ".", "1,5", "0x1F", "1.5-", "12:30"])),
                _ => {
                    // damage one character of the printed number
                    let mut s = old.to_string();
                    let lo = w - t.len();
                    let k = lo + r.usize(t.len());
                    let c = match r.below(6) {
                        0 if k > lo && k + 1 < w => " ",
                        1 => "A",
                        2 => "x",
                        3 => if k > lo { "-" } else { "*" },
                        4 => if k > lo { "+" } else { "," },
                        _ => "?",
                    };
                    s.replace_range(k..k + 1, c);
                    s
                }
            }
        }
    }
}

/// A strict reading of one field: its value, certainly not a number, or neither for sure.
enum Grade {
    Value(f64),
    Malformed,
    Unclear,
}

/// `[+-]digits[.digits]` without blanks inside, as an exact decimal.
fn plain(t: &str) -> Option<f64> {
    let d = t.strip_prefix(['+', '-']).unwrap_or(t);
    let digits = d.bytes().filter(|c| c.is_ascii_digit()).count();
    let points = d.bytes().filter(|c| *c == b'.').count();
    if digits == 0 || points > 1 || digits + points != d.len() {
        return None;
    }
    let k: u64 = d.replace('.', "").parse().ok()?;
    let after = d.find('.').map(|p| d.len() - p - 1).unwrap_or(0);
    let v = k as f64 / 10f64.powi(after as i32);
    Some(if t.starts_with('-') { -v } else { v })
}

fn grade(kind: Kind, text: &str) -> Grade {
    let t = text.trim_matches(' ');
    match kind {
        Kind::Float => match plain(t) {
            Some(v) => Grade::Value(v),
            None => match t.find(['e', 'E']) {
                Some(k) if plain(&t[..k]).is_some() && plain(&t[k + 1..]).is_some() && !t[k + 1..].contains('.') => Grade::Unclear,
                _ => Grade::Malformed,
            },
        },
        Kind::Int => match plain(t) {
            Some(_) if t.contains('.') => Grade::Malformed,
            Some(v) if !t.starts_with(['+', '-']) => Grade::Value(v),
            Some(_) => Grade::Unclear,
            None => Grade::Malformed,
        },
        Kind::Sign => match text {
            " " | "+" => Grade::Value(1.0),
            "-" => Grade::Value(-1.0),
            _ => Grade::Malformed,
        },
        Kind::Exp => {
            let b = text.as_bytes();
            match (b[0], b[1].is_ascii_digit()) {
                (b'+', true) => Grade::Value((b[1] - b'0') as f64),
                (b'-', true) => Grade::Value(-((b[1] - b'0') as f64)),
                (c, d) if c.is_ascii_digit() && (d || b[1] == b' ') || c == b' ' && d => Grade::Unclear,
                _ => Grade::Malformed,
            }
        }
        Kind::Mant => {
            // five digits with an implied point before them, leading zeros may be blank
            let five = &text[text.len() - 5..];
            let sign = &text[..text.len() - 5];
            match plain(five.trim_start_matches(' ')) {
                Some(v) if five.bytes().all(|c| c.is_ascii_digit() || c == b' ') && ["", " ", "+", "-"].contains(&sign) && (!five.starts_with(' ') || sign.trim().is_empty()) => {
                    Grade::Value(if sign == "-" { -v } else { v } / 1e5)
                }
                _ => match plain(t) {
                    Some(_) if !t.contains('.') => Grade::Unclear,
                    _ => match t.strip_prefix(['+', '-']).map(|t| t.trim_matches(' ')) {
                        Some(t) if plain(t).is_some() && !t.starts_with(['+', '-']) && !t.contains('.') => Grade::Unclear,
                        _ => Grade::Malformed,
                    },
                },
            }
        }
        Kind::Ecc => {
            let d = text.trim_start_matches(' ');
            if d.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
                Grade::Malformed
            } else if d.len() != t.len() {
                Grade::Unclear
            } else {
                Grade::Value(plain(d).unwrap() / 1e7)
            }
        }
    }
}

fn names(e: &SatrecParseError) -> Option<(&'static str, Option<(usize, usize)>, &str, &'static str)> {
    match e {
        SatrecParseError::FloatParseError(n, a, b, t) => Some((n, Some((*a, *b)), t, "float")),
        SatrecParseError::IntParseError(n, a, b, t) => Some((n, Some((*a, *b)), t, "int")),
        SatrecParseError::CompoundError(n, t) => Some((n, None, t, "compound")),
        _ => None,
    }
}

fn through(ctx: &mut Ctx, which: u64, a: &str, b: &str) -> Option<Result<Satrec, SatrecParseError>> {
    let (p, q) = (a.to_string(), b.to_string());
    ctx.must(|| format!("parsing {p:?} {q:?}"), || match which {
        0 => parse_satrec(a, b),
        1 => twoline2satrec(a, b),
        2 => parse(&format!("{a}\n{b}\n")),
        3 => parse(&format!("SAT\r\n{a}\r\n{b}\r\n")),
        _ => {
            let (mut v, mut e) = parse_multiple(&format!("SAT\n{a}\n{b}\n"));
            match (v.len(), e.len()) {
                (1, 0) => Ok(v.pop().unwrap()),
                (0, 1) => match e.pop().unwrap() {
                    SatrecParseError::SatrecMultiError(0, x) => Err(*x),
                    x => Err(x),
                },
                _ => Err(SatrecParseError::InvalidTLEBadLineCount),
            }
        }
    })
}

const ENTRY: [&str; 5] = ["parse_satrec", "twoline2satrec", "parse (two lines)", "parse (three lines)", "parse_multiple"];
const FIELD_STRATA: [&str; 14] = [
    "bad epoch year", "bad epoch day", "bad first derivative", "bad second-derivative digits", "bad second-derivative exponent", "bad drag sign",
    "bad drag digits", "bad drag exponent", "bad inclination", "bad node", "bad eccentricity", "bad argument of perigee", "bad mean anomaly", "bad mean motion",
];

fn malformed_case(ctx: &mut Ctx) {
    let mut tle = Tle::ordinary(&mut ctx.rng);
    tle.style.no_tail = false;
    let (l1, l2) = tle.lines();
    let which = ctx.rng.below(5);
    ctx.strat(ENTRY[which as usize]);
    match ctx.rng.below(4) {
        0 => {
            // a line cut short
            let on1 = ctx.rng.chance(0.5);
            let k = if on1 { 7 + ctx.rng.usize(54) } else { 8 + ctx.rng.usize(55) };
            let (a, b) = if on1 { (l1[..k].to_string(), l2.clone()) } else { (l1.clone(), l2[..k].to_string()) };
            // the first field the cut reaches
            let f = FIELDS.iter().find(|f| (f.0 == 1) == on1 && k < f.2);
            let Some(f) = f else { return };
            ctx.strat("line cut short");
            ctx.seen(hash_str(&a) ^ hash_str(&b).rotate_left(3) ^ which);
            let Some(r) = through(ctx, which, &a, &b) else { return };
            match r {
                Ok(_) => {
                    ctx.check(false, || format!("a line cut at column {k} is accepted by {}; {a:?} {b:?}", ENTRY[which as usize]));
                }
                Err(e) => {
                    // some fields may legitimately be looked at before others; any field
                    // that the cut reaches is a right answer
                    let ok = names(&e).map(|(n, ..)| FIELDS.iter().any(|g| (g.0 == 1) == on1 && k < g.2 && g.6.iter().any(|w| n.to_lowercase().contains(w)))).unwrap_or(false);
                    ctx.check(ok, || format!("line cut at column {k} (first field cut {:?}) reported as {e:?}; {a:?} {b:?}", f.6));
                }
            }
            ctx.sample(|| format!("{a:?} {b:?} through {}", ENTRY[which as usize]));
        }
        1 => {
            // random damage: whatever is accepted must be finite
            let n = 1 + ctx.rng.usize(3);
            let mut a = l1.clone().into_bytes();
            let mut b = l2.clone().into_bytes();
            for _ in 0..n {
                let c = *ctx.rng.pick(b"0123456789 -+.einfaNEX");
                if ctx.rng.chance(0.5) {
                    let k = 2 + ctx.rng.usize(a.len() - 2);
                    a[k] = c;
                } else {
                    let k = 2 + ctx.rng.usize(b.len() - 2);
                    b[k] = c;
                }
            }
            if ctx.rng.chance(0.1) {
                b[52..63].copy_from_slice(ctx.rng.pick(&[b"-1.00000000", b" 0.00000000", b"-0.00000000", b"-15.0000000", b"      1e300", b"     1e-300", b"     -1e300"]).as_slice());
            }
            let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
            ctx.strat("random damage");
            ctx.seen(hash_str(&a) ^ hash_str(&b).rotate_left(3) ^ which);
            let Some(r) = through(ctx, which, &a, &b) else { return };
            // what a strict reading of the columns says
            let grades: Vec<Grade> = FIELDS.iter().map(|f| grade(f.5, if f.0 == 1 { &a[f.1..f.2] } else { &b[f.1..f.2] })).collect();
            let malformed = grades.iter().position(|g| matches!(g, Grade::Malformed));
            let values: Option<Vec<f64>> = grades.iter().map(|g| if let Grade::Value(v) = g { Some(*v) } else { None }).collect();
            match (&r, malformed, &values) {
                (Ok(_), Some(k), _) => {
                    ctx.check(false, || format!("accepted by {} with a malformed field ({}); {a:?} {b:?}", ENTRY[which as usize], FIELD_STRATA[k]));
                }
                (Err(e), None, Some(_)) => {
                    ctx.check(matches!(e, SatrecParseError::Sgp4InitError(_)), || format!("every field is a number, yet {} refuses: {e:?}; {a:?} {b:?}", ENTRY[which as usize]));
                }
                (Err(SatrecParseError::Sgp4InitError(e)), Some(k), _) => {
                    ctx.check(false, || format!("a malformed field ({}) is reported by {} as {e:?}; {a:?} {b:?}", FIELD_STRATA[k], ENTRY[which as usize]));
                }
                (Err(e), Some(_), _) => {
                    // by the name of a field that is malformed, or may be
                    let ok = names(e).map(|(n, ..)| FIELDS.iter().zip(&grades).any(|(f, g)| !matches!(g, Grade::Value(_)) && f.6.iter().any(|w| n.to_lowercase().contains(w)))).unwrap_or(false);
                    ctx.check(ok, || format!("{} reports {e:?}, which is not the malformed field; {a:?} {b:?}", ENTRY[which as usize]));
                }
                (Ok(q), None, Some(v)) if which == 0 => {
                    ctx.strat("random damage, still numbers");
                    let msg = || format!("after random damage; {a:?} {b:?}");
                    let (xp, deg) = (1440.0 / (2.0 * PI), PI / 180.0);
                    ctx.check(q.epochyr as f64 == v[0], || format!("epoch year {} want {}; {}", q.epochyr, v[0], msg()));
                    rel(ctx, "epoch day", q.epochdays, v[1], 1e-15, &msg);
                    rel(ctx, "first derivative", q.ndot, v[2] / (xp * 1440.0), 1e-14, &msg);
                    rel(ctx, "second derivative", q.nddot, v[3] * 10f64.powi(v[4] as i32) / (xp * 1440.0 * 1440.0), 1e-14, &msg);
                    rel(ctx, "drag term", q.bstar, v[5] * v[6] * 10f64.powi(v[7] as i32), 1e-14, &msg);
                    for (what, got, want) in [("inclination", q.inclo, v[8]), ("node", q.nodeo, v[9]), ("argument of perigee", q.argpo, v[11]), ("mean anomaly", q.mo, v[12])] {
                        rel(ctx, what, got, want * deg, 1e-14, &msg);
                    }
                    rel(ctx, "eccentricity", q.ecco, v[10], 1e-14, &msg);
                    rel(ctx, "mean motion", q.no, v[13] / xp, 1e-14, &msg);
                }
                _ => {}
            }
            match r {
                Ok(q) => {
                    ctx.strat("random damage, accepted");
                    let v = [q.epochdays, q.ndot, q.nddot, q.bstar, q.inclo, q.nodeo, q.ecco, q.argpo, q.mo, q.no, q.jdsatepoch, q.a, q.alta, q.altp];
                    // the decoded fields alone do not exclude a mean motion of zero, which has no axis;
                    // a date at the edge of what numbers hold may overflow in its split
                    let n = if q.epochdays.abs() > 1e290 { 10 } else if which == 0 { 11 } else { v.len() };
                    ctx.check(v[..n].iter().all(|x| x.is_finite()), || format!("accepted with non-finite elements {v:?}; {a:?} {b:?}"));
                }
                Err(_) => ctx.strat("random damage, refused"),
            }
        }
        _ => {
            let k = ctx.rng.usize(FIELDS.len());
            let f = FIELDS[k];
            let src = if f.0 == 1 { &l1 } else { &l2 };
            let bad = bad_text(&mut ctx.rng, &src[f.1..f.2], f.5);
            let mut s = src.clone();
            s.replace_range(f.1..f.2, &bad);
            let (a, b) = if f.0 == 1 { (s.clone(), l2.clone()) } else { (l1.clone(), s.clone()) };
            ctx.strat(FIELD_STRATA[k]);
            ctx.seen(hash_str(&a) ^ hash_str(&b).rotate_left(3) ^ which);
            let Some(r) = through(ctx, which, &a, &b) else { return };
            match r {
                Ok(_) => {
                    ctx.check(false, || format!("{} {bad:?} is accepted by {}; {a:?} {b:?}", FIELD_STRATA[k], ENTRY[which as usize]));
                }
                Err(e) => {
                    let ok = match names(&e) {
                        None => false,
                        Some((n, cols, text, kind)) => {
                            let named = f.6.iter().any(|w| n.to_lowercase().contains(w));
                            let located = match cols {
                                Some((lo, hi)) => lo >= f.3 && hi <= f.4 && s.get(lo..hi).map(|t| t == text || t.trim() == text).unwrap_or(false),
                                None => bad.contains(|c: char| !c.is_ascii()) || text.contains(bad.trim()) || bad.trim().is_empty(),
                            };
                            let kind_ok = match f.5 {
                                Kind::Float => bad.contains(|c: char| !c.is_ascii()) || kind == "float" && cols == Some((f.1, f.2)),
                                Kind::Int => kind == "int" || bad.contains(|c: char| !c.is_ascii()),
                                _ => true,
                            };
                            named && located && kind_ok
                        }
                    };
                    ctx.check(ok, || format!("{} {bad:?} reported as {e:?}; {a:?} {b:?}", FIELD_STRATA[k]));
                }
            }
            ctx.sample(|| format!("{}: {bad:?} through {}", FIELD_STRATA[k], ENTRY[which as usize]));
        }
    }
}

pub const C11: Check = Check {
    id: "C11",
    rule: "one numeric field of a well-formed element set made unreadable (letters, blank, embedded blank, doubled sign or point, NaN/inf text), or a line cut at every column, or random damage; through all five entry routes; a malformed or missing field must be refused by an error naming that field (kind, columns and text), and whatever is accepted must have finite elements; a case is (line pair, entry point)",
    cases: (2_000_000, 120_000_000),
    case: malformed_case,
    required: &[
        "bad epoch year", "bad epoch day", "bad first derivative", "bad second-derivative digits", "bad second-derivative exponent", "bad drag sign",
        "bad drag digits", "bad drag exponent", "bad inclination", "bad node", "bad eccentricity", "bad argument of perigee", "bad mean anomaly", "bad mean motion",
        "line cut short", "random damage", "random damage, refused", "random damage, still numbers", "parse_satrec", "twoline2satrec", "parse (two lines)", "parse (three lines)", "parse_multiple",
    ],
    assumptions: &["exponent notation inside a decimal field is a number"],
};

#[allow(dead_code)]
fn _g() {
    let _ = gen::ALL;
}
