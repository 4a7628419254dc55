//! Workload generator: element sets at text resolution, stratified over the
//! regimes of the theory, and the time offsets asked for.

use crate::refmodel::Elements;
use crate::rng::{Hash, Rng};
use std::f64::consts::PI;

/// A well-formed element set, in the integer units of its printed columns.
#[derive(Clone, Debug)]
pub struct Tle {
    pub satnum: u32,
    pub class: char,
    pub desig: String, // 8 columns
    pub yy: u32,
    pub day_e8: u64,
    pub ndot_e8: i64,
    pub nddot: (i64, i32), // signed 5-digit mantissa, exponent
    pub bstar: (i64, i32),
    pub ephtype: char,
    pub elset: u32,
    pub incl_e4: u64,
    pub node_e4: u64,
    pub ecc_e7: u64,
    pub argp_e4: u64,
    pub ma_e4: u64,
    pub no_e8: u64,
    pub rev: u32,
    pub style: Style,
}

/// Equivalent ways of printing the same numbers.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    pub plus_signs: bool,      // '+' instead of ' ' in sign columns
    pub blank_pad: bool,       // blanks instead of zeros in front of degrees
    pub zero_satnum: bool,     // leading zeros of the catalogue number
    pub lead_zero_ndot: bool,  // "0.0000123" style first derivative
    pub exp_plus_zero: bool,   // "+0" instead of "-0" for zero exponents
    pub no_tail: bool,         // nothing after the last decoded column
    pub blank_day: bool,       // blanks instead of zeros in front of the day of year
    pub blank_no: bool,        // (mean motion below 10) blank or zero in front
    pub blank_yy: bool,        // " 5" instead of "05" as epoch year
}

pub fn checksum(line: &str) -> u32 {
    line.chars().map(|c| c.to_digit(10).unwrap_or(if c == '-' { 1 } else { 0 })).sum::<u32>() % 10
}

fn exp_field(m: i64, e: i32, st: &Style) -> String {
    let sign = if m < 0 { '-' } else if st.plus_signs { '+' } else { ' ' };
    let es = if e < 0 || (e == 0 && !st.exp_plus_zero) { '-' } else { '+' };
    format!("{}{:05}{}{}", sign, m.unsigned_abs(), es, e.unsigned_abs())
}

pub fn pow10(e: i32) -> f64 {
    // exact for |e| <= 22
    let mut p = 1.0f64;
    for _ in 0..e.abs() {
        p *= 10.0;
    }
    p
}

fn mant(m: i64, e: i32) -> f64 {
    // m * 1e-5 * 10^e, correctly rounded (both operands exact)
    let k = e - 5;
    if k >= 0 { m as f64 * pow10(k) } else { m as f64 / pow10(k) }
}

impl Tle {
    pub fn lines(&self) -> (String, String) {
        let st = &self.style;
        let pad = |v: u64| -> String {
            // DDD.DDDD
            if st.blank_pad { format!("{:3}.{:04}", v / 10000, v % 10000) } else { format!("{:03}.{:04}", v / 10000, v % 10000) }
        };
        let day = if st.blank_day {
            format!("{:3}.{:08}", self.day_e8 / 100_000_000, self.day_e8 % 100_000_000)
        } else {
            format!("{:03}.{:08}", self.day_e8 / 100_000_000, self.day_e8 % 100_000_000)
        };
        let nsign = if self.ndot_e8 < 0 { '-' } else if st.plus_signs { '+' } else { ' ' };
        let ndot = format!("{}.{:08}", nsign, self.ndot_e8.unsigned_abs());
        let ndot = if st.lead_zero_ndot && self.ndot_e8 >= 0 && !st.plus_signs {
            format!("0.{:08}", self.ndot_e8.unsigned_abs())
        } else {
            ndot
        };
        let sat = if st.zero_satnum { format!("{:05}", self.satnum) } else { format!("{:5}", self.satnum) };
        let mut l1 = format!(
            "1 {}{} {:8} {}{} {} {} {} {} {:4}",
            sat, self.class, self.desig, if st.blank_yy { format!("{:2}", self.yy) } else { format!("{:02}", self.yy) }, day, ndot,
            exp_field(self.nddot.0, self.nddot.1, st),
            exp_field(self.bstar.0, self.bstar.1, st),
            self.ephtype, self.elset
        );
        l1.push_str(&checksum(&l1).to_string());
        let no = if st.blank_no {
            format!("{:2}.{:08}", self.no_e8 / 100_000_000, self.no_e8 % 100_000_000)
        } else {
            format!("{:02}.{:08}", self.no_e8 / 100_000_000, self.no_e8 % 100_000_000)
        };
        let mut l2 = format!(
            "2 {} {} {} {:07} {} {} {}{:5}",
            sat, pad(self.incl_e4), pad(self.node_e4), self.ecc_e7, pad(self.argp_e4), pad(self.ma_e4), no, self.rev
        );
        l2.push_str(&checksum(&l2).to_string());
        if st.no_tail {
            l1.truncate(61);
            l2.truncate(63);
        }
        (l1, l2)
    }

    pub fn bstar_val(&self) -> f64 {
        mant(self.bstar.0, self.bstar.1)
    }
    pub fn nddot_val(&self) -> f64 {
        mant(self.nddot.0, self.nddot.1)
    }
    pub fn day_val(&self) -> f64 {
        self.day_e8 as f64 / 1e8
    }
    pub fn ecc_val(&self) -> f64 {
        self.ecc_e7 as f64 / 1e7
    }
    pub fn no_val(&self) -> f64 {
        self.no_e8 as f64 / 1e8
    }
    pub fn year(&self) -> i64 {
        if self.yy < 57 { 2000 + self.yy as i64 } else { 1900 + self.yy as i64 }
    }

    /// Epoch as (integer Julian day number at the preceding noon + 0.5, i.e.
    /// JD of midnight) and nanoseconds of the day: exact.
    pub fn epoch_exact(&self) -> (f64, u64) {
        let doy = self.day_e8 / 100_000_000;
        let frac = self.day_e8 % 100_000_000;
        let jd0 = jd_midnight(self.year(), 1, 1) + doy as f64 - 1.0;
        (jd0, frac * 864_000) // 1e-8 day = 864000 ns
    }

    pub fn jd_epoch(&self) -> f64 {
        let (d, ns) = self.epoch_exact();
        d + ns as f64 / 86400e9
    }

    /// Elements in radians and radians per minute, straight from the columns.
    pub fn elements(&self) -> Elements {
        let deg = |v: u64| v as f64 / 1e4 / 180.0 * PI;
        Elements {
            jd_epoch: self.jd_epoch(),
            bstar: self.bstar_val(),
            ecc: self.ecc_val(),
            incl: deg(self.incl_e4),
            node: deg(self.node_e4),
            argp: deg(self.argp_e4),
            ma: deg(self.ma_e4),
            no: self.no_val() * 2.0 * PI / 1440.0,
        }
    }

    pub fn hash(&self) -> u64 {
        let (a, b) = self.lines();
        let mut h = Hash::new();
        h.bytes(a.as_bytes());
        h.bytes(b.as_bytes());
        h.get()
    }

    pub fn show(&self) -> String {
        let (a, b) = self.lines();
        format!("{a} | {b}")
    }
}

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub const MLEN: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

pub fn mlen(y: i64, m: i64) -> i64 {
    if m == 2 && is_leap(y) { 29 } else { MLEN[(m - 1) as usize] }
}

/// Days from 1970-01-01 of a proleptic Gregorian date, by counting (independent
/// of any closed formula).
pub fn days_from_1970(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    if y >= 1970 {
        for k in 1970..y {
            n += if is_leap(k) { 366 } else { 365 };
        }
    } else {
        for k in y..1970 {
            n -= if is_leap(k) { 366 } else { 365 };
        }
    }
    for k in 1..m {
        n += mlen(y, k);
    }
    n + d - 1
}

/// Julian date of 0h UT.
pub fn jd_midnight(y: i64, m: i64, d: i64) -> f64 {
    2440587.5 + days_from_1970(y, m, d) as f64
}

/// What kind of orbit to draw.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Regime {
    Leo,
    LowPerigee,
    NearGeneral,
    Boundary225,
    DeepGeneral,
    Sync,
    HalfDay,
    HighEcc,
    VeryHigh,
    SubOrbital,
    Random,
}

pub const NEAR: [Regime; 4] = [Regime::Leo, Regime::LowPerigee, Regime::NearGeneral, Regime::Boundary225];
pub const DEEP: [Regime; 6] = [Regime::DeepGeneral, Regime::Sync, Regime::HalfDay, Regime::HighEcc, Regime::VeryHigh, Regime::Boundary225];
pub const ALL: [Regime; 11] = [
    Regime::Leo, Regime::LowPerigee, Regime::NearGeneral, Regime::Boundary225, Regime::DeepGeneral,
    Regime::Sync, Regime::HalfDay, Regime::HighEcc, Regime::VeryHigh, Regime::SubOrbital, Regime::Random,
];

const RE: f64 = 6378.137;
const MU: f64 = 398600.5;

/// revolutions per day of a semi-major axis in km
pub fn revs(a: f64) -> f64 {
    86400.0 / (2.0 * PI) * (MU / (a * a * a)).sqrt()
}

fn clamp_i(v: f64, lo: u64, hi: u64) -> u64 {
    if !(v > lo as f64) { lo } else { (v as u64).min(hi) }
}

fn angle(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 => *r.pick(&[0, 900000, 1800000, 2700000, 3599999, 1, 450000, 1800001, 1799999]),
        _ => r.below(3600000),
    }
}

fn inclination(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => *r.pick(&[0u64, 1, 10, 100, 1000, 10000]),
        1 => *r.pick(&[29999u64, 30000, 30001, 29000, 31000, 114591, 114592, 114590, 110000, 118000]),
        2 => *r.pick(&[1800000u64, 1799999, 1799990, 1799000, 1790000, 1770000, 1769999, 1770001]),
        3 => *r.pick(&[900000u64, 900001, 899999, 634349, 1165651, 986000, 516000]),
        4 => r.below(30000),
        5 => r.below(130000),
        6 => 1770000 + r.below(30001),
        _ => r.below(1800001),
    }
}

fn drag(r: &mut Rng) -> (i64, i32) {
    let m = match r.below(8) {
        0 => *r.pick(&[0i64, 1, 10, 99, 123, 10000, 99999]),
        1 => r.range(1, 999),
        _ => r.range(10000, 99999),
    };
    let e = match r.below(12) {
        0 => 0,
        1 => -1,
        2 => -2,
        3 => r.range(-9, 2) as i32,
        _ => *r.pick(&[-3, -3, -4, -4, -4, -5]),
    };
    let s = if r.chance(0.12) { -1 } else { 1 };
    if r.chance(0.08) { (0, 0) } else { (s * m, e) }
}

impl Tle {
    pub fn random(r: &mut Rng, reg: Regime) -> Tle {
        let mut ecc_e7: u64;
        let mut no: f64;
        match reg {
            Regime::Leo => {
                let hp = r.uni(200.0, 2000.0);
                let e = if r.chance(0.5) { r.uni(0.0, 0.01) } else { r.uni(0.0, 0.1) };
                ecc_e7 = (e * 1e7) as u64;
                no = revs((RE + hp) / (1.0 - e));
            }
            Regime::LowPerigee => {
                let base = *r.pick(&[98.0, 156.0, 220.0]);
                let hp = if r.chance(0.4) { base + r.uni(-3.0, 3.0) } else { r.uni(40.0, 260.0) };
                let e = if r.chance(0.4) { r.uni(0.0, 0.02) } else { r.uni(0.0, 0.45) };
                ecc_e7 = (e * 1e7) as u64;
                no = revs((RE + hp) / (1.0 - e));
            }
            Regime::NearGeneral => {
                no = r.uni(6.41, 17.0);
                let a = (MU / (no * 2.0 * PI / 86400.0).powi(2)).cbrt();
                let emax = (1.0 - (RE + 70.0) / a).max(0.0);
                ecc_e7 = (r.uni(0.0, emax) * 1e7) as u64;
            }
            Regime::Boundary225 => {
                no = 6.4 + r.uni(-0.02, 0.02) * r.f();
                ecc_e7 = (r.uni(0.0, 0.45) * 1e7) as u64;
            }
            Regime::DeepGeneral => {
                no = r.uni(0.5, 6.4);
                let a = (MU / (no * 2.0 * PI / 86400.0).powi(2)).cbrt();
                let emax = (1.0 - (RE + 100.0) / a).max(0.0);
                ecc_e7 = (r.uni(0.0, emax) * 1e7) as u64;
            }
            Regime::Sync => {
                no = match r.below(4) {
                    0 => 1.0027 + r.uni(-0.002, 0.002),
                    1 => *r.pick(&[0.8, 1.2]) + r.uni(-0.002, 0.002),
                    _ => r.uni(0.8, 1.2),
                };
                ecc_e7 = match r.below(3) {
                    0 => r.below(3000),
                    1 => (r.uni(0.0, 0.1) * 1e7) as u64,
                    _ => (r.uni(0.0, 0.8) * 1e7) as u64,
                };
            }
            Regime::HalfDay => {
                no = match r.below(4) {
                    0 => 2.0057 + r.uni(-0.003, 0.003),
                    1 => *r.pick(&[1.89299, 2.11757]) + r.uni(-0.002, 0.002),
                    _ => r.uni(1.893, 2.1175),
                };
                ecc_e7 = match r.below(5) {
                    0 => *r.pick(&[5000000u64, 4999999, 6500000, 6500001, 6499999, 7000000, 6999999, 7150000, 7150001, 7000001]),
                    1 => (r.uni(0.49, 0.66) * 1e7) as u64,
                    2 => (r.uni(0.64, 0.72) * 1e7) as u64,
                    _ => (r.uni(0.5, 0.76) * 1e7) as u64,
                };
            }
            Regime::HighEcc => {
                let e = if r.chance(0.4) { 1.0 - r.log(1e-7, 0.1) } else { r.uni(0.7, 0.99) };
                ecc_e7 = (e * 1e7) as u64;
                let hp = r.uni(-500.0, 3000.0);
                no = revs((RE + hp) / (1.0 - e).max(1e-7));
                if r.chance(0.3) {
                    no = r.uni(0.1, 6.4);
                }
            }
            Regime::VeryHigh => {
                no = r.log(0.01, 0.8);
                ecc_e7 = (r.uni(0.0, 0.9) * 1e7) as u64;
            }
            Regime::SubOrbital => {
                no = if r.chance(0.5) { r.uni(16.5, 20.0) } else { r.uni(1.0, 99.0) };
                ecc_e7 = if r.chance(0.5) { r.below(1000000) } else { r.below(9999999) };
            }
            Regime::Random => {
                no = match r.below(10) {
                    0 => 0.0,
                    1 => r.log(1e-8, 0.1),
                    2 => r.uni(17.0, 99.99),
                    _ => r.uni(0.05, 17.0),
                };
                ecc_e7 = r.below(10000000);
            }
        }
        if r.chance(0.08) && reg != Regime::HalfDay {
            ecc_e7 = *r.pick(&[0u64, 1, 9, 10, 11, 999, 1000, 1001, 100, 5000000, 9999999]);
        }
        if !(no >= 0.0) {
            no = 1.0;
        }
        let yy = match r.below(6) {
            0 => *r.pick(&[0u32, 56, 57, 58, 99, 4, 96, 20, 24]),
            _ => r.below(100) as u32,
        };
        let year = if yy < 57 { 2000 + yy as i64 } else { 1900 + yy as i64 };
        let last = if is_leap(year) { 366 } else { 365 };
        let doy = match r.below(8) {
            0 => *r.pick(&[1u64, 31, 32, 59, 60, 61, 90, 91, 334, 335, 364, 365, last]),
            _ => 1 + r.below(last),
        };
        let frac = match r.below(8) {
            0 => *r.pick(&[0u64, 1, 99_999_999, 50_000_000, 49_999_999, 25_000_000]),
            _ => r.below(100_000_000),
        };
        Tle {
            satnum: if r.chance(0.2) { r.below(1000) as u32 } else { r.below(100000) as u32 },
            class: *r.pick(&['U', 'U', 'U', 'C', 'S', ' ']),
            desig: if r.chance(0.3) {
                "        ".to_string()
            } else {
                format!("{:02}{:03}{:3}", r.below(100), r.below(1000), r.pick(&["A", "B", "AB", "ZZZ", "D", "BQR"]))
            },
            yy,
            day_e8: doy * 100_000_000 + frac,
            ndot_e8: match r.below(5) {
                0 => 0,
                1 => r.range(-99_999_999, 99_999_999),
                _ => r.range(-99_999, 99_999),
            },
            nddot: match r.below(4) {
                0 => (r.range(-99999, 99999), r.range(-9, 9) as i32),
                1 => (r.range(-999, 999), r.range(-9, 0) as i32),
                2 => (r.range(10000, 99999), r.range(-7, -2) as i32),
                _ => (0, 0),
            },
            bstar: drag(r),
            ephtype: *r.pick(&['0', '0', '0', ' ', '2']),
            elset: r.below(10000) as u32,
            incl_e4: inclination(r),
            node_e4: angle(r),
            ecc_e7: ecc_e7.min(9_999_999),
            argp_e4: angle(r),
            ma_e4: angle(r),
            no_e8: clamp_i(no * 1e8, 0, 9_999_999_999),
            rev: r.below(100000) as u32,
            style: Style {
                plus_signs: r.chance(0.15),
                blank_pad: r.chance(0.6),
                zero_satnum: r.chance(0.7),
                lead_zero_ndot: r.chance(0.1),
                exp_plus_zero: r.chance(0.5),
                no_tail: r.chance(0.05),
                blank_day: r.chance(0.1),
                blank_no: r.chance(0.8),
                blank_yy: r.chance(0.1),
            },
        }
    }

    pub fn any(r: &mut Rng) -> Tle {
        let reg = *r.pick(&ALL);
        Tle::random(r, reg)
    }

    /// An element set that practically every catalogue would contain.
    pub fn ordinary(r: &mut Rng) -> Tle {
        let reg = *r.pick(&[Regime::Leo, Regime::Leo, Regime::NearGeneral, Regime::DeepGeneral, Regime::Sync, Regime::HalfDay]);
        let mut t = Tle::random(r, reg);
        t.bstar = (r.range(0, 99999), -(r.range(3, 6)) as i32);
        if r.chance(0.1) {
            t.bstar.0 = -t.bstar.0;
        }
        t
    }
}

/// Time offsets in minutes, including the integrator's step boundaries.
pub fn tsince(r: &mut Rng) -> f64 {
    let s = r.sign();
    match r.below(16) {
        0 => 0.0,
        1 => s * r.uni(0.0, 1.0),
        2 => s * 720.0 * r.range(1, 5) as f64,
        3 => s * 720.0 * r.range(1, 60) as f64,
        4 => s * (720.0 * r.range(1, 20) as f64 + r.sign() * r.log(1e-9, 1.0)),
        5 => s * r.uni(0.0, 720.0),
        6 | 7 => s * r.uni(0.0, 1440.0),
        8 | 9 => s * r.uni(0.0, 10080.0),
        10 | 11 => s * r.uni(0.0, 43200.0),
        12 => s * r.range(0, 2000) as f64 * 10.0,
        13 => s * r.log(1e-6, 1e6),
        14 => s * r.uni(0.0, 525600.0),
        _ => s * r.log(1e5, 1.05e7),
    }
}

pub fn name(r: &mut Rng) -> String {
    const FIXED: [&str; 30] = [
        "ISS (ZARYA)", "HUBBLE", "NOAA 19 [+]", "1KUNS-PF", "2001 MARS", "0-STAR", "0", "00", "COSMOS 2251 DEB",
        "X", "ABCDEFGHIJKLMNOPQRSTUVWX", "ABCDEFGHIJKLMNOPQRSTUVWXY", "25544", "OBJECT A / B", "TÜRKSAT 6A",
        "\u{661F}\u{96FB}", "é", "0é", "1", "2", "ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOP",
        "-", "SAT  DOUBLE  SPACE", "#comment-like", "SL-16 R/B", "100 SAT", "2SAT", "12345678901234567890123", "0x10 SAT", "A\tB",
    ];
    if r.chance(0.02) {
        // with a line number in front this one is read back whole
        return r.pick(&["0 G", "0 0 7", "0 1 SAT", "0 ISS"]).to_string();
    }
    if r.chance(0.01) {
        // long ones
        let u = *r.pick(&["N", "NAME ", "\u{661F}", "Ü", "A(B)"]);
        let n = if r.chance(0.1) { 70_000 } else { 10 + r.usize(1000) };
        return u.repeat(n).trim().to_string();
    }
    if r.chance(0.6) {
        return r.pick(&FIXED).to_string();
    }
    let n = 1 + r.usize(30);
    let cs: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -()[]/.+&'".chars().collect();
    let s: String = (0..n).map(|_| *r.pick(&cs)).collect();
    let s = s.trim().to_string();
    if s.is_empty() || s.starts_with("0 ") || s.starts_with("1 ") || s.starts_with("2 ") { "SAT".into() } else { s }
}
