//! A menu of calls into the library: drawn at random, run any number of times, and
//! reduced to plain numbers and texts. Used where a property is about every call
//! alike (silence, repeatability, bounded resources, build profile).

use crate::gen::{self, tsince, Tle};
use crate::rng::{Hash, Rng};
use chrono::prelude::*;
use satellite::doppler_factor::doppler_factor;
use satellite::ext::{days2mdhms, jday, jday_datetime};
use satellite::io::{parse, parse_multiple, parse_satrec, twoline2satrec, Satrec, SatrecParseError};
use satellite::propogation::dpper::{dpper, DpperInit, DpperOpsMode, DpperOptions};
use satellite::propogation::dscom::{dscom, DscomOptions};
use satellite::propogation::gstime::{gstime, gstime_datetime};
use satellite::propogation::initl::{initl, InitlMethod, InitlOptions};
use satellite::propogation::propogate_datetime;
use satellite::propogation::sgp4::{sgp4, SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::{sgp4init, SGP4InitOptions};
use satellite::transforms::*;
use satellite::{Geodedic, Vec3};

#[derive(Default, PartialEq, Clone, Debug)]
pub struct Out {
    /// bits of numbers, so that equal means identical
    pub num: Vec<u64>,
    pub text: Vec<String>,
}

impl Out {
    fn n(&mut self, x: f64) {
        self.num.push(x.to_bits());
    }
    fn v(&mut self, v: &Vec3) {
        self.n(v.x);
        self.n(v.y);
        self.n(v.z);
    }
    fn state(&mut self, r: Result<SGP4Result, SGP4Error>) {
        match r {
            Ok(s) => {
                self.v(&s.position);
                self.v(&s.velocity);
            }
            Err(e) => self.text.push(format!("{e:?} {}", e.code())),
        }
    }
    fn record(&mut self, r: &Satrec) {
        for x in numbers(r) {
            self.n(x);
        }
        self.n(r.error as f64);
        self.n(r.epochyr as f64);
        self.n(r.isimp as f64);
        self.text.push(r.satnum.clone());
        self.text.push(format!("{:?}", r.name));
    }
    fn parsed(&mut self, r: Result<Satrec, SatrecParseError>) {
        match r {
            Ok(r) => self.record(&r),
            Err(e) => self.text.push(format!("{e:?}")),
        }
    }
}

/// Every numeric field of a record.
pub fn numbers(z: &Satrec) -> [f64; 96] {
    [z.epochdays, z.ndot, z.nddot, z.bstar, z.inclo, z.nodeo, z.ecco, z.mo, z.no, z.a, z.argpo, z.alta, z.altp, z.jdsatepoch, z.aycof, z.con41, z.cc1, z.cc4, z.cc5, z.d2, z.d3, z.d4, z.delmo, z.eta, z.argpdot, z.omgcof, z.sinmao, z.t, z.t2cof, z.t3cof, z.t4cof, z.t5cof, z.x1mth2, z.x7thm1, z.mdot, z.nodedot, z.xlcof, z.xmcof, z.nodecf, z.irez, z.d2201, z.d2211, z.d3210, z.d3222, z.d4410, z.d4422, z.d5220, z.d5232, z.d5421, z.d5433, z.dedt, z.del1, z.del2, z.del3, z.didt, z.dmdt, z.dnodt, z.domdt, z.e3, z.ee2, z.peo, z.pgho, z.pho, z.pinco, z.plo, z.se2, z.se3, z.sgh2, z.sgh3, z.sgh4, z.sh2, z.sh3, z.si2, z.si3, z.sl2, z.sl3, z.sl4, z.gsto, z.xfact, z.xgh2, z.xgh3, z.xgh4, z.xh2, z.xh3, z.xi2, z.xi3, z.xl2, z.xl3, z.xl4, z.xlamo, z.zmol, z.zmos, z.atime, z.xli, z.xni, z.t]
}

pub fn hash(c: &Call) -> u64 {
    let mut h = Hash::new();
    h.bytes(format!("{c:?}").as_bytes());
    h.get()
}

pub fn mode(k: u64) -> DpperOpsMode {
    match k % 3 {
        0 => DpperOpsMode::I,
        1 => DpperOpsMode::A,
        _ => DpperOpsMode::UNDEFINED,
    }
}

#[derive(Clone, Debug)]
pub enum Call {
    /// one of the four parsing entry points
    Text(u64, String, String),
    /// a record from text, then predictions in sequence
    Track(String, String, Vec<f64>),
    /// a record from elements, in a mode, then predictions in sequence
    Init(u64, [f64; 8], Vec<f64>),
    /// a record from text, then predictions for datetimes
    Dates(String, String, Vec<DateTime<Utc>>),
    Calendar([f64; 7], u64, f64, DateTime<Utc>),
    Sidereal(f64, DateTime<Utc>),
    Frames([f64; 3], [f64; 3], f64),
    Look([f64; 3], [f64; 3]),
    Vectors([f64; 3], [f64; 3], [f64; 3]),
    Angles(f64, f64),
    /// initialisation and periodics stages
    Stages(u64, [f64; 8], f64),
}

pub const KINDS: [&str; 11] = [
    "parsing", "predictions from text", "predictions from elements", "predictions for datetimes", "calendar", "sidereal time", "frames", "look angles",
    "vectors and doppler", "angles", "stages",
];

fn v3(a: &[f64; 3]) -> Vec3 {
    Vec3 { x: a[0], y: a[1], z: a[2] }
}

pub fn datetime(r: &mut Rng) -> DateTime<Utc> {
    let y = r.range(1957, 2056);
    let m = r.range(1, 12);
    let d = r.range(1, gen::mlen(y, m));
    let s = r.below(86400) as u32;
    let date = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap();
    let ns = if r.chance(0.5) { 0 } else { r.below(1_000_000_000) as u32 };
    Utc.from_utc_datetime(&date.and_hms_nano_opt(s / 3600, s / 60 % 60, s % 60, ns).unwrap())
}

/// A text to parse: good sets, streams, damaged ones, junk.
pub fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[1u64, 1, 1, 2, 3, 8]);
    let mut s = String::new();
    for _ in 0..n {
        let t = Tle::any(r);
        let (l1, l2) = t.lines();
        if r.chance(0.5) {
            s.push_str(&gen::name(r));
            s.push('\n');
        }
        s.push_str(&l1);
        s.push_str(if r.chance(0.2) { "\r\n" } else { "\n" });
        s.push_str(&l2);
        s.push('\n');
    }
    if r.chance(0.5) {
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(3) {
            let k = r.usize(cs.len());
            cs[k] = *r.pick(&['0', '9', ' ', '-', '+', '.', 'x', '\n', 'é', 'E', '\t']);
        }
        if r.chance(0.2) {
            cs.truncate(r.usize(cs.len()));
        }
        s = cs.into_iter().collect();
    }
    s
}

fn elements(r: &mut Rng, ordinary: bool) -> [f64; 8] {
    let e = if ordinary { Tle::ordinary(r) } else { Tle::any(r) }.elements();
    [e.jd_epoch - 2433281.5, e.bstar, e.ecc, e.argp, e.incl, e.ma, e.no, e.node]
}

fn times(r: &mut Rng, ordinary: bool) -> Vec<f64> {
    (0..1 + r.below(4)).map(|_| if ordinary { r.uni(-14400.0, 14400.0) } else { tsince(r).clamp(-1e5, 1e5) }).collect()
}

impl Call {
    /// A call of a kind (index into KINDS). `ordinary` keeps to well-conditioned orbits.
    pub fn draw(r: &mut Rng, kind: usize, ordinary: bool) -> Call {
        let set = |r: &mut Rng| if ordinary { Tle::ordinary(r) } else { Tle::any(r) };
        match kind {
            0 => {
                let which = r.below(4);
                let a = text(r);
                if which < 2 {
                    return Call::Text(which, a, String::new());
                }
                let (l1, l2) = set(r).lines();
                if r.chance(0.5) {
                    Call::Text(which, l1, l2)
                } else {
                    let k = r.usize(a.len() + 1);
                    let k = (k..=a.len()).find(|k| a.is_char_boundary(*k)).unwrap_or(0);
                    Call::Text(which, a[..k].to_string(), l2)
                }
            }
            1 => {
                let (l1, l2) = set(r).lines();
                Call::Track(l1, l2, times(r, ordinary))
            }
            2 => Call::Init(r.below(3), elements(r, ordinary), times(r, ordinary)),
            3 => {
                let t = set(r);
                let (l1, l2) = t.lines();
                let (days, _) = t.epoch_exact();
                let epoch = Utc.timestamp_opt(((days - 2440587.5) * 86400.0) as i64, 0).single().unwrap_or_default();
                let n = 1 + r.below(3);
                let ds = (0..n)
                    .map(|_| {
                        if !ordinary && r.chance(0.3) {
                            datetime(r)
                        } else {
                            epoch + chrono::Duration::nanoseconds((r.uni(-10.0, 10.0) * 86400e9) as i64)
                        }
                    })
                    .collect();
                Call::Dates(l1, l2, ds)
            }
            4 => {
                let d = datetime(r);
                let f = [r.range(1901, 2099) as f64, r.range(1, 12) as f64, r.range(1, 31) as f64, r.range(0, 23) as f64, r.range(0, 59) as f64, r.uni(0.0, 60.0), r.uni(0.0, 1000.0)];
                Call::Calendar(f, r.range(1901, 2099) as u64, r.uni(1.0, 367.0), d)
            }
            5 => Call::Sidereal(r.uni(2415020.5, 2488069.5), datetime(r)),
            6 => Call::Frames(point(r), geodetic(r), if r.chance(0.5) { r.uni(0.0, 6.3) } else { r.uni(-100.0, 100.0) }),
            7 => Call::Look(geodetic(r), point(r)),
            8 => Call::Vectors(point(r), point(r), [r.uni(-8.0, 8.0), r.uni(-8.0, 8.0), r.uni(-8.0, 8.0)]),
            9 => Call::Angles(r.uni(-400.0, 400.0), if r.chance(0.7) { r.uni(-89.0, 89.0) } else { r.uni(-300.0, 300.0) }),
            _ => Call::Stages(r.below(3), elements(r, ordinary), r.uni(-1e5, 1e5)),
        }
    }

    /// Eccentricity of the orbit, if the call is about one.
    pub fn ecc(&self) -> f64 {
        match self {
            Call::Track(_, b, _) | Call::Dates(_, b, _) => b.get(26..33).and_then(|s| s.trim().parse::<f64>().ok()).unwrap_or(0.0) * 1e-7,
            Call::Init(_, e, _) | Call::Stages(_, e, _) => e[2],
            _ => 0.0,
        }
    }

    /// The same predictions a little earlier or later, by a relative amount.
    pub fn nudged(&self, by: f64) -> Call {
        let mut c = self.clone();
        match &mut c {
            Call::Track(_, _, ts) => ts.iter_mut().for_each(|t| *t += *t * by + by),
            Call::Init(_, e, ts) => {
                ts.iter_mut().for_each(|t| *t += *t * by + by);
                e[6] *= 1.0 + by;
                e[5] += by;
            }
            Call::Dates(_, _, ds) => ds.iter_mut().for_each(|d| *d += chrono::Duration::nanoseconds((by * 1e12) as i64)),
            _ => {}
        }
        c
    }

    /// A call that differs in one argument, by little or in a telling way.
    pub fn sibling(&self, r: &mut Rng) -> Call {
        let mut c = self.clone();
        match &mut c {
            Call::Text(_, a, b) | Call::Track(a, b, _) | Call::Dates(a, b, _) if r.chance(0.4) => {
                let s = if b.is_empty() || r.chance(0.5) { a } else { b };
                let mut cs: Vec<char> = s.chars().collect();
                if !cs.is_empty() {
                    let k = r.usize(cs.len());
                    if cs[k].is_ascii_digit() && k > 0 {
                        cs[k] = (b'0' + r.below(10) as u8) as char;
                    }
                    *s = cs.into_iter().collect();
                }
            }
            Call::Text(w, _, _) => *w = if *w < 2 { 1 - *w } else { 5 - *w },
            Call::Track(_, _, ts) => near(r, ts),
            Call::Init(m, e, ts) => match r.below(3) {
                0 => *m = (*m + 1) % 3,
                1 => near(r, e),
                _ => near(r, ts),
            },
            Call::Dates(_, _, ds) => ds.iter_mut().for_each(|d| *d += nanos(r)),
            Call::Calendar(f, y, day, d) => match r.below(4) {
                0 => near(r, f),
                1 => *y = 1901 + (*y - 1900) % 199,
                2 => near(r, std::slice::from_mut(day)),
                _ => *d += nanos(r),
            },
            Call::Sidereal(j, d) => {
                if r.chance(0.5) {
                    near(r, std::slice::from_mut(j))
                } else {
                    *d += nanos(r)
                }
            }
            Call::Frames(p, g, th) => match r.below(3) {
                0 => near(r, p),
                1 => near(r, g),
                _ => near(r, std::slice::from_mut(th)),
            },
            Call::Look(g, p) => {
                let x = if r.chance(0.5) { g } else { p };
                near(r, x)
            }
            Call::Vectors(a, b, v) => match r.below(3) {
                0 => near(r, a),
                1 => near(r, b),
                _ => near(r, v),
            },
            Call::Angles(x, l) => {
                let x = if r.chance(0.5) { x } else { l };
                near(r, std::slice::from_mut(x))
            }
            Call::Stages(m, e, t) => match r.below(3) {
                0 => *m = (*m + 1) % 3,
                1 => near(r, e),
                _ => near(r, std::slice::from_mut(t)),
            },
        }
        c
    }

    pub fn run(&self) -> Out {
        let mut o = Out::default();
        match self {
            Call::Text(0, a, _) => o.parsed(parse(a)),
            Call::Text(1, a, _) => {
                let (recs, errs) = parse_multiple(a);
                for r in &recs {
                    o.record(r);
                }
                for e in &errs {
                    o.text.push(format!("{e:?}"));
                }
            }
            Call::Text(2, a, b) => o.parsed(twoline2satrec(a, b)),
            Call::Text(_, a, b) => o.parsed(parse_satrec(a, b)),
            Call::Track(a, b, ts) => match twoline2satrec(a, b) {
                Ok(mut r) => {
                    for t in ts {
                        o.state(sgp4(&mut r, *t));
                    }
                    o.record(&r);
                }
                Err(e) => o.text.push(format!("{e:?}")),
            },
            Call::Init(m, e, ts) => {
                let mut r = Satrec::zero();
                o.state(sgp4init(&mut r, init(*m, e)));
                for t in ts {
                    o.state(sgp4(&mut r.clone(), *t));
                }
                o.record(&r);
            }
            Call::Dates(a, b, ds) => match twoline2satrec(a, b) {
                Ok(r) => {
                    for d in ds {
                        o.state(propogate_datetime(&r, *d));
                    }
                }
                Err(e) => o.text.push(format!("{e:?}")),
            },
            Call::Calendar(f, y, day, d) => {
                o.n(jday(f[0], f[1], f[2], f[3], f[4], f[5], f[6]));
                let m = days2mdhms(*y, *day);
                for x in [m.month, m.day, m.hour, m.minute, m.second] {
                    o.n(x);
                }
                o.n(jday_datetime(*d));
            }
            Call::Sidereal(jd, d) => {
                o.n(gstime(*jd));
                o.n(gstime_datetime(*d));
            }
            Call::Frames(p, g, th) => {
                let q = eci_to_geodedic(&v3(p), *th);
                o.n(q.latitude);
                o.n(q.longitude);
                o.n(q.height);
                o.v(&eci_to_ecf(&v3(p), *th));
                o.v(&ecf_to_eci(&v3(p), *th));
                o.v(&geodedic_to_ecf(&Geodedic { latitude: g[0], longitude: g[1], height: g[2] }));
            }
            Call::Look(g, p) => {
                let ob = Geodedic { latitude: g[0], longitude: g[1], height: g[2] };
                let tc = topocentric(&ob, &v3(p));
                let (b, c) = (topocentric_to_look_angles(&tc), ecf_to_look_angles(&ob, &v3(p)));
                for x in [tc.top_s, tc.top_e, tc.top_z, b.azimuth, b.elevation, b.range, c.azimuth, c.elevation, c.range] {
                    o.n(x);
                }
            }
            Call::Vectors(a, b, v) => {
                let (a, b, v) = (v3(a), v3(b), v3(v));
                o.n(a.range(&b));
                o.v(&a.add(&v));
                o.v(&a.subtract(&b));
                o.n(doppler_factor(b, a, v));
            }
            Call::Angles(x, lat) => {
                o.n(radians_to_degrees(*x));
                o.n(degrees_to_radians(*x));
                // these refuse what is out of range, by panicking
                let lat = *lat;
                for (f, v) in [(degrees_lat as fn(f64) -> f64, lat * 0.017), (degrees_long, lat * 0.034), (radians_lat, lat), (radians_long, lat * 2.0)] {
                    match std::panic::catch_unwind(|| f(v)) {
                        Ok(x) => o.n(x),
                        Err(_) => o.text.push("refused".into()),
                    }
                }
            }
            Call::Stages(m, e, t) => {
                let q = initl(InitlOptions { opsmode: mode(*m), method: InitlMethod::N, satn: "1".into(), ecco: e[2], epoch: e[0], inclo: e[4], no: e[6] });
                for x in [q.no, q.ainv, q.ao, q.con41, q.con42, q.cosio, q.cosio2, q.eccsq, q.omeosq, q.posq, q.rp, q.rteosq, q.sinio, q.gsto] {
                    o.n(x);
                }
                let d = dscom(DscomOptions { epoch: e[0], ep: e[2], argpp: e[3], tc: *t, inclp: e[4], nodep: e[7], np: q.no });
                for x in [d.day, d.e3, d.ee2, d.se2, d.sgh4, d.sh3, d.si3, d.sl4, d.s5, d.ss5, d.xgh4, d.xh3, d.xi3, d.xl4, d.zmol, d.zmos, d.z33, d.sz33] {
                    o.n(x);
                }
                let mut r = Satrec::zero();
                let _ = sgp4init(&mut r, init(*m, e));
                r.t = *t;
                let p = dpper(&r, DpperOptions { init: DpperInit::N, opsmode: mode(*m), inclo: e[4], ep: e[2], inclp: e[4], nodep: e[7], argpp: e[3], mp: e[5] });
                for x in [p.ep, p.inclp, p.nodep, p.argpp, p.mp] {
                    o.n(x);
                }
            }
        }
        o
    }
}

/// Move one number by a few units in the last place or a small fraction, or change its sign.
fn near(r: &mut Rng, x: &mut [f64]) {
    if x.is_empty() {
        return;
    }
    let k = r.usize(x.len());
    x[k] = match r.below(5) {
        0 | 1 => f64::from_bits(x[k].to_bits() + 1 + r.below(3)),
        2 | 3 => x[k] * (1.0 + r.log(1e-15, 1e-3)),
        _ if x[k].abs() < 1e4 => -x[k],
        _ => x[k],
    };
}

fn nanos(r: &mut Rng) -> chrono::Duration {
    chrono::Duration::nanoseconds(r.log(1.0, 1e12) as i64)
}

pub fn init(m: u64, e: &[f64; 8]) -> SGP4InitOptions {
    SGP4InitOptions { opsmode: mode(m), satn: "90001".into(), epoch: e[0], xbstar: e[1], xecco: e[2], xargpo: e[3], xinclo: e[4], xmo: e[5], xno: e[6], xnodeo: e[7] }
}

fn point(r: &mut Rng) -> [f64; 3] {
    let d = r.dir();
    let len = r.log(6400.0, 400_000.0);
    [d[0] * len, d[1] * len, d[2] * len]
}

fn geodetic(r: &mut Rng) -> [f64; 3] {
    [r.uni(-1.5707, 1.5707), r.uni(-3.1415, 3.1415), r.uni(-0.4, 9.0)]
}
