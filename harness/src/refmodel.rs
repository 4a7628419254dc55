//! Executable reference model: the SGP4/SDP4 theory as published (Spacetrack
//! Report #3 as revised by Vallado, Crawford, Hujsak & Kelso, AIAA 2006-6753).
//! It is written independently of the code under test, is parametric over the
//! gravity constants, and is validated against the published verification
//! ephemerides (`selftest`), which use WGS-72.
//!
//! Next to each state vector it reports: which branches of the theory were
//! taken (`flags`), how close the evaluation came to a branch boundary
//! (`margin`), and whether Kepler's equation converged.

use std::f64::consts::PI;
pub const TAU: f64 = 2.0 * PI;

#[derive(Clone, Copy, Debug)]
pub struct Grav {
    pub mu: f64,
    pub re: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}

pub const WGS72: Grav = Grav { mu: 398600.8, re: 6378.135, j2: 0.001082616, j3: -0.00000253881, j4: -0.00000165597 };
pub const WGS84: Grav = Grav { mu: 398600.5, re: 6378.137, j2: 0.00108262998905, j3: -0.00000253215306, j4: -0.00000161098761 };

impl Grav {
    pub fn xke(&self) -> f64 {
        60.0 / (self.re * self.re * self.re / self.mu).sqrt()
    }
}

/// Mean elements at epoch, in radians and radians/minute; `no` is the
/// (Kozai) mean motion as printed in an element set.
#[derive(Clone, Copy, Debug)]
pub struct Elements {
    pub jd_epoch: f64,
    pub bstar: f64,
    pub ecc: f64,
    pub incl: f64,
    pub node: f64,
    pub argp: f64,
    pub ma: f64,
    pub no: f64,
}

pub mod flag {
    pub const NAMES: [&str; 40] = [
        "near_earth", "deep_space", "simple_drag", "full_drag", "perigee_lt_156", "perigee_lt_98",
        "ecc_le_1e-4", "incl_180_guard", "res_none", "res_sync", "res_halfday", "g_e_le_0.65",
        "g_e_gt_0.65", "g520_e_gt_0.715", "g520_e_le_0.715", "g5_e_lt_0.7", "g5_e_ge_0.7",
        "incl_lt_3deg", "incl_gt_177deg", "lyddane", "direct_periodics", "lyddane_wrap",
        "afspc_node_wrap", "neg_incl_flip", "em_floor_1e-6", "kepler_clamp", "kepler_multi",
        "int_forward", "int_backward", "int_zero_steps", "int_many_steps", "err1", "err2", "err3",
        "err4", "err6", "ok", "retrograde", "t_negative", "t_zero",
    ];
    pub const NEAR: u64 = 0;
    pub const DEEP: u64 = 1;
    pub const SIMPLE: u64 = 2;
    pub const FULL: u64 = 3;
    pub const P156: u64 = 4;
    pub const P98: u64 = 5;
    pub const LOWE: u64 = 6;
    pub const I180: u64 = 7;
    pub const RES0: u64 = 8;
    pub const RES1: u64 = 9;
    pub const RES2: u64 = 10;
    pub const GLE65: u64 = 11;
    pub const GGT65: u64 = 12;
    pub const G715P: u64 = 13;
    pub const G715M: u64 = 14;
    pub const G7M: u64 = 15;
    pub const G7P: u64 = 16;
    pub const I3: u64 = 17;
    pub const I177: u64 = 18;
    pub const LYD: u64 = 19;
    pub const DIRECT: u64 = 20;
    pub const LYDWRAP: u64 = 21;
    pub const AFWRAP: u64 = 22;
    pub const NEGI: u64 = 23;
    pub const EMFLOOR: u64 = 24;
    pub const KCLAMP: u64 = 25;
    pub const KMULTI: u64 = 26;
    pub const INTF: u64 = 27;
    pub const INTB: u64 = 28;
    pub const INT0: u64 = 29;
    pub const INTM: u64 = 30;
    pub const E1: u64 = 31;
    pub const E2: u64 = 32;
    pub const E3: u64 = 33;
    pub const E4: u64 = 34;
    pub const E6: u64 = 35;
    pub const OK: u64 = 36;
    pub const RETRO: u64 = 37;
    pub const TNEG: u64 = 38;
    pub const TZERO: u64 = 39;
}

/// Third-body coefficients of one perturbing body.
#[derive(Clone, Copy, Debug, Default)]
pub struct Body {
    // secular rates need these
    pub s: [f64; 8],  // s[1..=7]
    pub z1: f64,
    pub z2: f64,
    pub z3: f64,
    pub zi: [f64; 3],  // z11, z12, z13
    pub zh: [f64; 3],  // z21, z22, z23
    pub zg: [f64; 3],  // z31, z32, z33
    pub ecc_body: f64,
    pub rate: f64,
    pub phase: f64, // mean longitude of the body at the satellite epoch
}

impl Body {
    /// (de, di, dl, dgh, dh) periodic amplitudes at body anomaly `zm`.
    fn periodics(&self, zm: f64, emsq: f64) -> [f64; 5] {
        let zf = zm + 2.0 * self.ecc_body * zm.sin();
        let (sf, cf) = (zf.sin(), zf.cos());
        let f2 = 0.5 * sf * sf - 0.25;
        let f3 = -0.5 * sf * cf;
        let s = &self.s;
        let e = 2.0 * s[1] * (s[6] * f2 + s[7] * f3);
        let i = 2.0 * s[2] * (self.zi[1] * f2 + (self.zi[2] - self.zi[0]) * f3);
        let l = -2.0 * s[3] * (self.z2 * f2 + (self.z3 - self.z1) * f3 + (-21.0 - 9.0 * emsq) * self.ecc_body * sf);
        let gh = 2.0 * s[4] * (self.zg[1] * f2 + (self.zg[2] - self.zg[0]) * f3 - 9.0 * self.ecc_body * sf);
        let h = -2.0 * s[2] * (self.zh[1] * f2 + (self.zh[2] - self.zh[0]) * f3);
        [e, i, l, gh, h]
    }
}

#[derive(Clone, Debug)]
pub struct RefSat {
    pub g: Grav,
    pub xke: f64,
    pub el: Elements,
    pub afspc: bool,
    pub no: f64, // Brouwer mean motion
    pub ao: f64,
    pub deep: bool,
    pub simple: bool,
    pub eta: f64,
    pub c1: f64,
    pub c4: f64,
    pub c5: f64,
    pub d: [f64; 3],
    pub tcof: [f64; 4], // t2..t5
    pub omgcof: f64,
    pub xmcof: f64,
    pub nodecf: f64,
    pub delmo: f64,
    pub mdot: f64,
    pub argpdot: f64,
    pub nodedot: f64,
    pub gsto: f64,
    // deep space
    pub sun: Body,
    pub moon: Body,
    pub rates: [f64; 5], // dedt didt dmdt dnodt domdt
    pub irez: u8,
    pub dd: [f64; 10],
    pub del: [f64; 3],
    pub xfact: f64,
    pub xlamo: f64,
    pub flags: u64,
    pub margin: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct State {
    pub r: [f64; 3],
    pub v: [f64; 3],
}

#[derive(Clone, Debug)]
pub struct Out {
    pub res: Result<State, u32>,
    pub flags: u64,
    pub margin: f64,
    pub kepler_ok: bool,
    /// radius in Earth radii before the decay test (NaN if not reached)
    pub mrt: f64,
    /// the guarded quantities as far as reached (NaN otherwise): mean motion,
    /// mean eccentricity, perturbed eccentricity, semi-latus rectum, radius
    pub guards: [f64; 5],
    /// sensitivity amplification from the 180-degree-inclination singularity
    pub incl_cond: f64,
}

/// Greenwich sidereal time (IAU-82), radians in [0, 2pi).
pub fn gmst(jd: f64) -> f64 {
    let t = (jd - 2451545.0) / 36525.0;
    let sec = 67310.54841 + t * (876600.0 * 3600.0 + 8640184.812866 + t * (0.093104 - t * 6.2e-6));
    let a = (sec / 240.0 * (PI / 180.0)) % TAU;
    if a < 0.0 { a + TAU } else { a }
}

/// The "old way" of finding GMST (AFSPC mode), radians in [0, 2pi).
pub fn gmst_afspc(jd: f64) -> f64 {
    let ts70 = jd - 2433281.5 - 7305.0;
    let ds70 = (ts70 + 1.0e-8).floor();
    let tfrac = ts70 - ds70;
    let c1 = 1.72027916940703639e-2;
    let a = (1.7321343856509374 + c1 * ds70 + (c1 + TAU) * tfrac + ts70 * ts70 * 5.07551419432269442e-15) % TAU;
    if a < 0.0 { a + TAU } else { a }
}

const RPTIM: f64 = 4.37526908801129966e-3;

impl RefSat {
    pub fn new(el: Elements, afspc: bool, g: Grav) -> RefSat {
        let xke = g.xke();
        let mut fl = 0u64;
        let mut margin = f64::INFINITY;
        let mut set = |b: u64| fl |= 1 << b;
        let e = el.ecc;
        let ci = el.incl.cos();
        let si = el.incl.sin();
        let ci2 = ci * ci;
        let ci4 = ci2 * ci2;
        let b2 = 1.0 - e * e; // beta^2
        let b = b2.sqrt();
        // --- recover Brouwer mean motion from Kozai ---
        let a1 = (xke / el.no).powf(2.0 / 3.0);
        let dterm = 0.75 * g.j2 * (3.0 * ci2 - 1.0) / (b * b2);
        let d1 = dterm / (a1 * a1);
        let a2 = a1 * (1.0 - d1 / 3.0 - d1 * d1 - 134.0 / 81.0 * d1 * d1 * d1);
        let d0 = dterm / (a2 * a2);
        let no = el.no / (1.0 + d0);
        let ao = (xke / no).powf(2.0 / 3.0);
        let rp = ao * (1.0 - e);
        let perige = (rp - 1.0) * g.re;
        margin = margin.min((rp - (220.0 / g.re + 1.0)).abs());
        let mut simple = rp < 220.0 / g.re + 1.0;
        // --- atmospheric density parameter s and (q0 - s)^4 ---
        let mut s = 78.0;
        margin = margin.min((perige - 156.0).abs() * 1e-4).min((perige - 98.0).abs() * 1e-4);
        if perige < 156.0 {
            set(flag::P156);
            s = perige - 78.0;
            if perige < 98.0 {
                set(flag::P98);
                s = 20.0;
            }
        }
        let qs4 = ((120.0 - s) / g.re).powi(4);
        let s = s / g.re + 1.0;
        let xi = 1.0 / (ao - s);
        let eta = ao * e * xi;
        let eta2 = eta * eta;
        let eeta = e * eta;
        let psi2 = (1.0 - eta2).abs();
        let coef = qs4 * xi.powi(4);
        let coef1 = coef / psi2.powf(3.5);
        let x3thm1 = 3.0 * ci2 - 1.0;
        let x1mth2 = 1.0 - ci2;
        let c2 = coef1 * no
            * (ao * (1.0 + 1.5 * eta2 + eeta * (4.0 + eta2))
                + 0.375 * g.j2 * xi / psi2 * x3thm1 * (8.0 + 3.0 * eta2 * (8.0 + eta2)));
        let c1 = el.bstar * c2;
        let c3 = if e > 1e-4 { -2.0 * coef * xi * (g.j3 / g.j2) * no * si / e } else { 0.0 };
        let c4 = 2.0 * no * coef1 * ao * b2
            * (eta * (2.0 + 0.5 * eta2) + e * (0.5 + 2.0 * eta2)
                - g.j2 * xi / (ao * psi2)
                    * (-3.0 * x3thm1 * (1.0 - 2.0 * eeta + eta2 * (1.5 - 0.5 * eeta))
                        + 0.75 * x1mth2 * (2.0 * eta2 - eeta * (1.0 + eta2)) * (2.0 * el.argp).cos()));
        let c5 = 2.0 * coef1 * ao * b2 * (1.0 + 2.75 * (eta2 + eeta) + eeta * eta2);
        let pinv2 = 1.0 / (ao * b2).powi(2);
        let k1 = 1.5 * g.j2 * pinv2 * no;
        let k2 = 0.5 * k1 * g.j2 * pinv2;
        let k3 = -0.46875 * g.j4 * pinv2 * pinv2 * no;
        let mdot = no + 0.5 * k1 * b * x3thm1 + 0.0625 * k2 * b * (13.0 - 78.0 * ci2 + 137.0 * ci4);
        let argpdot = -0.5 * k1 * (1.0 - 5.0 * ci2)
            + 0.0625 * k2 * (7.0 - 114.0 * ci2 + 395.0 * ci4)
            + k3 * (3.0 - 36.0 * ci2 + 49.0 * ci4);
        let hdot1 = -k1 * ci;
        let nodedot = hdot1 + (0.5 * k2 * (4.0 - 19.0 * ci2) + 2.0 * k3 * (3.0 - 7.0 * ci2)) * ci;
        let omgcof = el.bstar * c3 * el.argp.cos();
        let xmcof = if e > 1e-4 { -2.0 / 3.0 * coef * el.bstar / eeta } else { 0.0 };
        if !(e > 1e-4) { set(flag::LOWE); }
        if ci < 0.0 { set(flag::RETRO); }
        let nodecf = 3.5 * b2 * hdot1 * c1;
        let gsto = if afspc { gmst_afspc(el.jd_epoch) } else { gmst(el.jd_epoch) };
        let period = TAU / no;
        margin = margin.min((period - 225.0).abs() * 1e-4);
        let deep = period >= 225.0;
        if deep { simple = true; }
        let mut sat = RefSat {
            g, xke, el, afspc, no, ao, deep, simple, eta, c1, c4, c5,
            d: [0.0; 3],
            tcof: [1.5 * c1, 0.0, 0.0, 0.0],
            omgcof, xmcof, nodecf,
            delmo: (1.0 + eta * el.ma.cos()).powi(3),
            mdot, argpdot, nodedot, gsto,
            sun: Body::default(), moon: Body::default(),
            rates: [0.0; 5], irez: 0, dd: [0.0; 10], del: [0.0; 3], xfact: 0.0, xlamo: 0.0,
            flags: 0, margin: 0.0,
        };
        if !simple {
            set(flag::FULL);
            let c1sq = c1 * c1;
            let d2 = 4.0 * ao * xi * c1sq;
            let t = d2 * xi * c1 / 3.0;
            let d3 = (17.0 * ao + s) * t;
            let d4 = 0.5 * t * ao * xi * (221.0 * ao + 31.0 * s) * c1;
            sat.d = [d2, d3, d4];
            sat.tcof[1] = d2 + 2.0 * c1sq;
            sat.tcof[2] = 0.25 * (3.0 * d3 + c1 * (12.0 * d2 + 10.0 * c1sq));
            sat.tcof[3] = 0.2 * (3.0 * d4 + 12.0 * c1 * d3 + 6.0 * d2 * d2 + 15.0 * c1sq * (2.0 * d2 + c1sq));
        } else {
            set(flag::SIMPLE);
        }
        set(if deep { flag::DEEP } else { flag::NEAR });
        sat.flags = fl;
        sat.margin = margin;
        if deep {
            sat.init_deep();
        }
        sat
    }

    fn init_deep(&mut self) {
        let el = self.el;
        let e = el.ecc;
        let e2 = e * e;
        let beta2 = 1.0 - e2;
        let beta = beta2.sqrt();
        let (si, ci) = (el.incl.sin(), el.incl.cos());
        let (sn, cn) = (el.node.sin(), el.node.cos());
        let (so, co) = (el.argp.sin(), el.argp.cos());
        // days since 1900 Jan 0.5
        let day = (el.jd_epoch - 2433281.5) + 18261.5;
        // Moon's ascending node and orbit orientation relative to the equator
        let lunar_node = (4.5236020 - 9.2422029e-4 * day) % TAU;
        let (st, ct) = (lunar_node.sin(), lunar_node.cos());
        let zcosil = 0.91375164 - 0.03568096 * ct;
        let zsinil = (1.0 - zcosil * zcosil).sqrt();
        let zsinhl = 0.089683511 * st / zsinil;
        let zcoshl = (1.0 - zsinhl * zsinhl).sqrt();
        let gam = 5.8351514 + 0.0019443680 * day;
        let zx = (0.39785416 * st / zsinil).atan2(zcoshl * ct + 0.91744867 * zsinhl * st) + gam - lunar_node;

        let body = |cosg: f64, sing: f64, cosi: f64, sini: f64, cosh: f64, sinh: f64, cc: f64| -> Body {
            // direction cosines of the body's orbit axes in the satellite's orbit frame
            let a1 = cosg * cosh + sing * cosi * sinh;
            let a3 = -sing * cosh + cosg * cosi * sinh;
            let a7 = -cosg * sinh + sing * cosi * cosh;
            let a9 = sing * sinh + cosg * cosi * cosh;
            let (a8, a10) = (sing * sini, cosg * sini);
            let (a2, a4) = (ci * a7 + si * a8, ci * a9 + si * a10);
            let (a5, a6) = (-si * a7 + ci * a8, -si * a9 + ci * a10);
            let (x1, x2) = (a1 * co + a2 * so, a3 * co + a4 * so);
            let (x3, x4) = (-a1 * so + a2 * co, -a3 * so + a4 * co);
            let (x5, x6, x7, x8) = (a5 * so, a6 * so, a5 * co, a6 * co);
            let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
            let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
            let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
            let z1 = 2.0 * (3.0 * (a1 * a1 + a2 * a2) + z31 * e2) + beta2 * z31;
            let z2 = 2.0 * (6.0 * (a1 * a3 + a2 * a4) + z32 * e2) + beta2 * z32;
            let z3 = 2.0 * (3.0 * (a3 * a3 + a4 * a4) + z33 * e2) + beta2 * z33;
            let z11 = -6.0 * a1 * a5 + e2 * (-24.0 * x1 * x7 - 6.0 * x3 * x5);
            let z12 = -6.0 * (a1 * a6 + a3 * a5) + e2 * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5));
            let z13 = -6.0 * a3 * a6 + e2 * (-24.0 * x2 * x8 - 6.0 * x4 * x6);
            let z21 = 6.0 * a2 * a5 + e2 * (24.0 * x1 * x5 - 6.0 * x3 * x7);
            let z22 = 6.0 * (a4 * a5 + a2 * a6) + e2 * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
            let z23 = 6.0 * a4 * a6 + e2 * (24.0 * x2 * x6 - 6.0 * x4 * x8);
            let s3 = cc / self.no;
            let s2 = -0.5 * s3 / beta;
            let s4 = s3 * beta;
            let s1 = -15.0 * e * s4;
            Body {
                s: [0.0, s1, s2, s3, s4, x1 * x3 + x2 * x4, x2 * x3 + x1 * x4, x2 * x4 - x1 * x3],
                z1, z2, z3,
                zi: [z11, z12, z13], zh: [z21, z22, z23], zg: [z31, z32, z33],
                ..Body::default()
            }
        };
        let mut sun = body(0.1945905, -0.98088458, 0.91744867, 0.39785416, cn, sn, 2.9864797e-6);
        sun.ecc_body = 0.01675;
        sun.rate = 1.19459e-5;
        sun.phase = (6.2565837 + 0.017201977 * day) % TAU;
        let mut moon = body(zx.cos(), zx.sin(), zcosil, zsinil, zcoshl * cn + zsinhl * sn, sn * zcoshl - cn * zsinhl, 4.7968065e-7);
        moon.ecc_body = 0.05490;
        moon.rate = 1.5835218e-4;
        moon.phase = (4.7199672 + 0.22997150 * day - gam) % TAU;

        // --- secular rates ---
        let polar = el.incl < 5.2359877e-2 || el.incl > PI - 5.2359877e-2;
        if el.incl < 5.2359877e-2 { self.flags |= 1 << flag::I3; }
        if el.incl > PI - 5.2359877e-2 { self.flags |= 1 << flag::I177; }
        self.margin = self.margin.min((el.incl - 5.2359877e-2).abs()).min((el.incl - PI + 5.2359877e-2).abs());
        let mut r = [0.0; 5];
        for bd in [&sun, &moon] {
            let s = &bd.s;
            let n = bd.rate;
            r[0] += n * s[1] * s[5];
            r[1] += n * s[2] * (bd.zi[0] + bd.zi[2]);
            r[2] -= n * s[3] * (bd.z1 + bd.z3 - 14.0 - 6.0 * e2);
            let gh = n * s[4] * (bd.zg[0] + bd.zg[2] - 6.0);
            let mut h = if polar { 0.0 } else { -n * s[2] * (bd.zh[0] + bd.zh[2]) };
            if si != 0.0 { h /= si; }
            r[3] += h;
            r[4] += gh - ci * h;
        }
        self.rates = r;
        self.sun = sun;
        self.moon = moon;

        // --- resonance ---
        let n = self.no;
        let mut irez = 0u8;
        for th in [0.0052359877, 0.0034906585] {
            self.margin = self.margin.min((n - th).abs() * 10.0);
        }
        if n < 0.0052359877 && n > 0.0034906585 { irez = 1; }
        if e >= 0.5 {
            for th in [8.26e-3, 9.24e-3] {
                self.margin = self.margin.min((n - th).abs() * 10.0);
            }
            if n >= 8.26e-3 && n <= 9.24e-3 { irez = 2; }
        }
        self.irez = irez;
        self.flags |= 1 << [flag::RES0, flag::RES1, flag::RES2][irez as usize];
        if irez == 0 { return; }
        let aonv = (n / self.xke).powf(2.0 / 3.0); // 1/a
        let theta = self.gsto % TAU;
        if irez == 2 {
            let e3 = e * e2;
            let poly = |c: [f64; 4]| c[0] + c[1] * e + c[2] * e2 + c[3] * e3;
            let g201 = -0.306 - (e - 0.64) * 0.440;
            let (g211, g310, g322, g410, g422, g520);
            if e <= 0.65 {
                self.flags |= 1 << flag::GLE65;
                g211 = poly([3.616, -13.2470, 16.2900, 0.0]);
                g310 = poly([-19.302, 117.3900, -228.4190, 156.5910]);
                g322 = poly([-18.9068, 109.7927, -214.6334, 146.5816]);
                g410 = poly([-41.122, 242.6940, -471.0940, 313.9530]);
                g422 = poly([-146.407, 841.8800, -1629.014, 1083.4350]);
                g520 = poly([-532.114, 3017.977, -5740.032, 3708.2760]);
            } else {
                self.flags |= 1 << flag::GGT65;
                g211 = poly([-72.099, 331.819, -508.738, 266.724]);
                g310 = poly([-346.844, 1582.851, -2415.925, 1246.113]);
                g322 = poly([-342.585, 1554.908, -2366.899, 1215.972]);
                g410 = poly([-1052.797, 4758.686, -7193.992, 3651.957]);
                g422 = poly([-3581.690, 16178.110, -24462.770, 12422.520]);
                if e > 0.715 {
                    self.flags |= 1 << flag::G715P;
                    g520 = poly([-5149.66, 29936.92, -54087.36, 31324.56]);
                } else {
                    self.flags |= 1 << flag::G715M;
                    g520 = poly([1464.74, -4664.75, 3763.64, 0.0]);
                }
            }
            let (g533, g521, g532);
            if e < 0.7 {
                self.flags |= 1 << flag::G7M;
                g533 = poly([-919.22770, 4988.6100, -9064.7700, 5542.21]);
                g521 = poly([-822.71072, 4568.6173, -8491.4146, 5337.524]);
                g532 = poly([-853.66600, 4690.2500, -8624.7700, 5341.4]);
            } else {
                self.flags |= 1 << flag::G7P;
                g533 = poly([-37995.780, 161616.52, -229838.20, 109377.94]);
                g521 = poly([-51752.104, 218913.95, -309468.16, 146349.42]);
                g532 = poly([-40023.880, 170470.89, -242699.48, 115605.82]);
            }
            let ci2 = ci * ci;
            let si2 = si * si;
            let f220 = 0.75 * (1.0 + 2.0 * ci + ci2);
            let f221 = 1.5 * si2;
            let f321 = 1.875 * si * (1.0 - 2.0 * ci - 3.0 * ci2);
            let f322 = -1.875 * si * (1.0 + 2.0 * ci - 3.0 * ci2);
            let f441 = 35.0 * si2 * f220;
            let f442 = 39.3750 * si2 * si2;
            let f522 = 9.84375 * si * (si2 * (1.0 - 2.0 * ci - 5.0 * ci2) + 0.33333333 * (-2.0 + 4.0 * ci + 6.0 * ci2));
            let f523 = si * (4.92187512 * si2 * (-2.0 - 4.0 * ci + 10.0 * ci2) + 6.56250012 * (1.0 + 2.0 * ci - 3.0 * ci2));
            let f542 = 29.53125 * si * (2.0 - 8.0 * ci + ci2 * (-12.0 + 8.0 * ci + 10.0 * ci2));
            let f543 = 29.53125 * si * (-2.0 - 8.0 * ci + ci2 * (12.0 + 8.0 * ci - 10.0 * ci2));
            let k2 = 3.0 * n * n * aonv.powi(2);
            let k3 = k2 * aonv;
            let k4 = k3 * aonv;
            let k5 = k4 * aonv;
            let (r22, r32, r44, r52, r54) = (1.7891679e-6, 3.7393792e-7, 7.3636953e-9, 1.1428639e-7, 2.1765803e-9);
            self.dd = [
                k2 * r22 * f220 * g201,
                k2 * r22 * f221 * g211,
                k3 * r32 * f321 * g310,
                k3 * r32 * f322 * g322,
                2.0 * k4 * r44 * f441 * g410,
                2.0 * k4 * r44 * f442 * g422,
                k5 * r52 * f522 * g520,
                k5 * r52 * f523 * g532,
                2.0 * k5 * r54 * f542 * g521,
                2.0 * k5 * r54 * f543 * g533,
            ];
            self.xlamo = (el.ma + 2.0 * el.node - 2.0 * theta) % TAU;
            self.xfact = self.mdot + r[2] + 2.0 * (self.nodedot + r[3] - RPTIM) - n;
        } else {
            let g200 = 1.0 + e2 * (-2.5 + 0.8125 * e2);
            let g310 = 1.0 + 2.0 * e2;
            let g300 = 1.0 + e2 * (-6.0 + 6.60937 * e2);
            let f220 = 0.75 * (1.0 + ci).powi(2);
            let f311 = 0.9375 * si * si * (1.0 + 3.0 * ci) - 0.75 * (1.0 + ci);
            let f330 = 1.875 * (1.0 + ci).powi(3);
            let k = 3.0 * n * n * aonv * aonv;
            self.del = [
                k * f311 * g310 * 2.1460748e-6 * aonv,
                2.0 * k * f220 * g200 * 1.7891679e-6,
                3.0 * k * f330 * g300 * 2.2123015e-7 * aonv,
            ];
            self.xlamo = (el.ma + el.node + el.argp - theta) % TAU;
            self.xfact = self.mdot + self.argpdot + self.nodedot - RPTIM + r[2] + r[4] + r[3] - n;
        }
    }

    /// Resonance acceleration: (ndot, dndot/dlambda).
    fn resonance(&self, lam: f64, atime: f64) -> (f64, f64) {
        if self.irez == 1 {
            const PH: [f64; 3] = [0.13130908, 2.8843198, 0.37448087];
            let (mut a, mut b) = (0.0, 0.0);
            for k in 0..3 {
                let m = (k + 1) as f64;
                let ang = m * (lam - PH[k]);
                a += self.del[k] * ang.sin();
                b += m * self.del[k] * ang.cos();
            }
            (a, b)
        } else {
            // (multiple of omega, multiple of lambda, phase) per term
            const G22: f64 = 5.7686396;
            const G32: f64 = 0.95240898;
            const G44: f64 = 1.8014998;
            const G52: f64 = 1.0508330;
            const G54: f64 = 4.4108898;
            const T: [(f64, f64, f64); 10] = [
                (2.0, 1.0, G22), (0.0, 1.0, G22), (1.0, 1.0, G32), (-1.0, 1.0, G32), (2.0, 2.0, G44),
                (0.0, 2.0, G44), (1.0, 1.0, G52), (-1.0, 1.0, G52), (1.0, 2.0, G54), (-1.0, 2.0, G54),
            ];
            let om = self.el.argp + self.argpdot * atime;
            let (mut a, mut b) = (0.0, 0.0);
            for k in 0..10 {
                let ang = T[k].0 * om + T[k].1 * lam - T[k].2;
                a += self.dd[k] * ang.sin();
                b += T[k].1 * self.dd[k] * ang.cos();
            }
            (a, b)
        }
    }

    /// The second component of `resonance` is the derivative of the first.
    pub fn resonance_selfcheck(&self) -> Result<(), String> {
        if self.irez == 0 {
            return Ok(());
        }
        for k in 0..24 {
            let lam = k as f64 * 0.27;
            let h = 1e-4;
            let num = (self.resonance(lam + h, 720.0).0 - self.resonance(lam - h, 720.0).0) / (2.0 * h);
            let (nd, der) = self.resonance(lam, 720.0);
            if (num - der).abs() > 1e-6 * (der.abs() + nd.abs()) + 1e-20 {
                return Err(format!("resonance derivative {num:e} vs {der:e}"));
            }
        }
        Ok(())
    }

    /// Resonance integration from epoch to `t`: time of the last whole step, the
    /// integrator's longitude and mean motion there, mean motion and longitude at t.
    pub fn integrate(&self, t: f64) -> (f64, f64, f64, f64, f64) {
        // Euler-Maclaurin integration from epoch in 720-minute steps
        let delt = if t > 0.0 { 720.0 } else { -720.0 };
        let mut steps = (t.abs() / 720.0).floor();
        // same stopping rule, |t - atime| >= 720
        while (t - steps * delt).abs() >= 720.0 { steps += 1.0; }
        let steps = steps as u64;
        let mut lam = self.xlamo;
        let mut ni = self.no;
        for k in 0..steps {
            let (nd, ndl) = self.resonance(lam, k as f64 * delt);
            let ld = ni + self.xfact;
            lam += ld * delt + nd * 259200.0;
            ni += nd * delt + ndl * ld * 259200.0;
        }
        let at = steps as f64 * delt;
        let (nd, ndl) = self.resonance(lam, at);
        let ld = ni + self.xfact;
        let ft = t - at;
        let n = ni + nd * ft + ndl * ld * ft * ft * 0.5;
        let xl = lam + ld * ft + nd * ft * ft * 0.5;
        (at, lam, ni, n, xl)
    }

    /// Lunar-solar periodics at time `t`, applied to (e, i, node, argp, M), less
    /// the values `zero` (e, i, l, gh, h) they have at epoch; with the branches
    /// taken and the distance to the nearest branch boundary.
    pub fn lunisolar(&self, t: f64, start: [f64; 5], zero: [f64; 5], afspc: bool) -> ([f64; 5], u64, f64) {
        let el = &self.el;
        let (mut fl, mut margin) = (0u64, f64::INFINITY);
        let [mut ep, mut ip, mut np, mut wp, mut mp] = start;
        let e2 = el.ecc * el.ecc;
        let ps = self.sun.periodics(self.sun.phase + self.sun.rate * t, e2);
        let pm = self.moon.periodics(self.moon.phase + self.moon.rate * t, e2);
        let p: Vec<f64> = (0..5).map(|k| ps[k] + pm[k] - zero[k]).collect();
        let (pe, pinc, pl, pgh, ph) = (p[0], p[1], p[2], p[3], p[4]);
        ip += pinc;
        ep += pe;
        let (si, ci) = (ip.sin(), ip.cos());
        margin = margin.min((ip - 0.2).abs());
        if ip >= 0.2 {
            fl |= 1 << flag::DIRECT;
            let ph = ph / si;
            wp += pgh - ci * ph;
            np += ph;
            mp += pl;
        } else {
            fl |= 1 << flag::LYD;
            let (sn, cn) = (np.sin(), np.cos());
            let alf = si * sn + ph * cn + pinc * ci * sn;
            let bet = si * cn - ph * sn + pinc * ci * cn;
            np %= TAU;
            if np < 0.0 && afspc { np += TAU; fl |= 1 << flag::AFWRAP; }
            let xls = mp + wp + ci * np + pl + pgh - pinc * np * si;
            let old = np;
            np = alf.atan2(bet);
            if np < 0.0 && afspc { np += TAU; fl |= 1 << flag::AFWRAP; }
            margin = margin.min(((old - np).abs() - PI).abs());
            if (old - np).abs() > PI {
                fl |= 1 << flag::LYDWRAP;
                if np < old { np += TAU } else { np -= TAU }
            }
            mp += pl;
            wp = xls - mp - ci * np;
        }
        ([ep, ip, np, wp, mp], fl, margin)
    }

    pub fn at(&self, t: f64) -> Out {
        let g = &self.g;
        let el = &self.el;
        let xke = self.xke;
        let mut fl = self.flags;
        let mut margin = self.margin;
        let j3oj2 = g.j3 / g.j2;
        if t < 0.0 { fl |= 1 << flag::TNEG; }
        if t == 0.0 { fl |= 1 << flag::TZERO; }
        let mut guards = [f64::NAN; 5];
        let fail = |code: u32, fl: u64, margin: f64, mrt: f64, guards: [f64; 5]| Out {
            res: Err(code),
            flags: fl | 1 << match code { 1 => flag::E1, 2 => flag::E2, 3 => flag::E3, 4 => flag::E4, _ => flag::E6 },
            margin, kepler_ok: true, mrt, incl_cond: 0.0, guards,
        };
        // --- secular gravity and drag ---
        let xmdf = el.ma + self.mdot * t;
        let argpdf = el.argp + self.argpdot * t;
        let mut m = xmdf;
        let mut w = argpdf;
        let mut node = el.node + self.nodedot * t + self.nodecf * t * t;
        let mut tempa = 1.0 - self.c1 * t;
        let mut tempe = el.bstar * self.c4 * t;
        let mut templ = self.tcof[0] * t * t;
        if !self.simple {
            let delta = self.omgcof * t + self.xmcof * ((1.0 + self.eta * xmdf.cos()).powi(3) - self.delmo);
            m = xmdf + delta;
            w = argpdf - delta;
            let t2 = t * t;
            let t3 = t2 * t;
            let t4 = t3 * t;
            tempa -= self.d[0] * t2 + self.d[1] * t3 + self.d[2] * t4;
            tempe += el.bstar * self.c5 * (m.sin() - el.ma.sin());
            templ += self.tcof[1] * t3 + t4 * (self.tcof[2] + t * self.tcof[3]);
        }
        let mut n = self.no;
        let mut e = el.ecc;
        let mut inc = el.incl;
        // largest angle reduced modulo a turn: beyond ~1e9 rad its phase is noise
        let mut phase = xmdf.abs().max(argpdf.abs()).max(node.abs());
        if self.deep {
            let r = &self.rates;
            e += r[0] * t;
            inc += r[1] * t;
            w += r[4] * t;
            node += r[3] * t;
            m += r[2] * t;
            if self.irez != 0 {
                let (at, lam, _, n1, xl) = self.integrate(t);
                n = n1;
                let steps = (at / 720.0).abs() as u64;
                fl |= 1 << if steps == 0 { flag::INT0 } else if t > 0.0 { flag::INTF } else { flag::INTB };
                if steps > 20 { fl |= 1 << flag::INTM; }
                phase = phase.max(lam.abs()).max(xl.abs());
                let theta = (self.gsto + t * RPTIM) % TAU;
                m = if self.irez == 2 { xl - 2.0 * node + 2.0 * theta } else { xl - node - w + theta };
            }
        }
        phase = phase.max(m.abs()).max(w.abs()).max((self.no * templ).abs());
        if !(phase < 1e9) {
            margin = 0.0;
        }
        margin = margin.min(n.abs() * 100.0);
        guards[0] = n;
        if !(n > 0.0) {
            return fail(2, fl, if n.is_nan() && el.no <= 0.0 { 1.0 } else if n == 0.0 { 1.0 } else { margin }, f64::NAN, guards);
        }
        let a = (xke / n).powf(2.0 / 3.0) * tempa * tempa;
        let n = xke / a.powf(1.5);
        e -= tempe;
        margin = margin.min((e - 1.0).abs()).min((e + 0.001).abs());
        guards[1] = e;
        if !(e < 1.0 && e >= -0.001) {
            return fail(1, fl, margin, f64::NAN, guards);
        }
        if e < 1e-6 {
            e = 1e-6;
            fl |= 1 << flag::EMFLOOR;
        }
        m += self.no * templ;
        let xlm = m + w + node;
        let node = node % TAU;
        let w = w % TAU;
        let xlm = xlm % TAU;
        let m = (xlm - w - node) % TAU;
        // --- lunar-solar periodics ---
        let (mut ep, mut ip, mut np, mut wp, mut mp) = (e, inc, node, w, m);
        if self.deep {
            let (q, f2, m2) = self.lunisolar(t, [ep, ip, np, wp, mp], [0.0; 5], self.afspc);
            [ep, ip, np, wp, mp] = q;
            fl |= f2;
            margin = margin.min(m2);
            margin = margin.min(ip.abs().max(if ip == 0.0 { 1.0 } else { 0.0 }));
            if ip < 0.0 {
                fl |= 1 << flag::NEGI;
                ip = -ip;
                np += PI;
                wp -= PI;
            }
            margin = margin.min(ep.abs()).min((ep - 1.0).abs());
            guards[2] = ep;
            if ep < 0.0 || ep > 1.0 {
                return fail(3, fl, margin, f64::NAN, guards);
            }
        }
        let (si, ci) = (ip.sin(), ip.cos());
        // --- long period periodics ---
        let aycof = -0.5 * j3oj2 * si;
        let den = if (ci + 1.0).abs() > 1.5e-12 { 1.0 + ci } else { fl |= 1 << flag::I180; 1.5e-12 };
        if ci > -0.9999999 || ci == -1.0 {} else { margin = margin.min(((ci + 1.0).abs() - 1.5e-12).abs() * 1e4); }
        let xlcof = -0.25 * j3oj2 * si * (3.0 + 5.0 * ci) / den;
        let axn = ep * wp.cos();
        let tmp = 1.0 / (a * (1.0 - ep * ep));
        let ayn = ep * wp.sin() + tmp * aycof;
        let xl = mp + wp + np + tmp * xlcof * axn;
        let incl_cond = (tmp * xlcof * axn).abs() * 4e-16 / den.abs();
        // --- Kepler ---
        let u = (xl - np) % TAU;
        let mut eo = u;
        let mut corr = 9999.9f64;
        let (mut se, mut ce) = (0.0, 0.0);
        let mut it = 0;
        while corr.abs() >= 1e-12 && it < 10 {
            se = eo.sin();
            ce = eo.cos();
            corr = (u - ayn * ce + axn * se - eo) / (1.0 - ce * axn - se * ayn);
            if corr.abs() >= 0.95 {
                fl |= 1 << flag::KCLAMP;
                margin = margin.min((corr.abs() - 0.95).abs());
                corr = 0.95f64.copysign(corr);
            }
            eo += corr;
            it += 1;
        }
        if it > 5 { fl |= 1 << flag::KMULTI; }
        let kepler_ok = corr.abs() < 1e-9;
        // --- short period ---
        let ecose = axn * ce + ayn * se;
        let esine = axn * se - ayn * ce;
        let el2 = axn * axn + ayn * ayn;
        let pl = a * (1.0 - el2);
        margin = margin.min(pl.abs());
        guards[3] = pl;
        if pl < 0.0 {
            let mut o = fail(4, fl, margin, f64::NAN, guards);
            o.kepler_ok = kepler_ok;
            return o;
        }
        let rl = a * (1.0 - ecose);
        let rdotl = a.sqrt() * esine / rl;
        let rvdotl = pl.sqrt() / rl;
        let betal = (1.0 - el2).sqrt();
        let tt = esine / (1.0 + betal);
        let sinu = a / rl * (se - ayn - axn * tt);
        let cosu = a / rl * (ce - axn + ayn * tt);
        let u0 = sinu.atan2(cosu);
        let sin2u = 2.0 * cosu * sinu;
        let cos2u = 1.0 - 2.0 * sinu * sinu;
        let k1 = 0.5 * g.j2 / pl;
        let k2 = k1 / pl;
        let ci2 = ci * ci;
        let con41 = 3.0 * ci2 - 1.0;
        let x1mth2 = 1.0 - ci2;
        let x7thm1 = 7.0 * ci2 - 1.0;
        let rk = rl * (1.0 - 1.5 * k2 * betal * con41) + 0.5 * k1 * x1mth2 * cos2u;
        let uk = u0 - 0.25 * k2 * x7thm1 * sin2u;
        let nk = np + 1.5 * k2 * ci * sin2u;
        let ik = ip + 1.5 * k2 * ci * si * cos2u;
        let rdk = rdotl - n * k1 * x1mth2 * sin2u / xke;
        let rfdk = rvdotl + n * k1 * (x1mth2 * cos2u + 1.5 * con41) / xke;
        let (su, cu) = (uk.sin(), uk.cos());
        let (sn, cn) = (nk.sin(), nk.cos());
        let (sik, cik) = (ik.sin(), ik.cos());
        let uv = [-sn * cik * su + cn * cu, cn * cik * su + sn * cu, sik * su];
        let vv = [-sn * cik * cu - cn * su, cn * cik * cu - sn * su, sik * cu];
        let vk = g.re * xke / 60.0;
        margin = margin.min((rk - 1.0).abs());
        guards[4] = rk;
        if rk < 1.0 {
            let mut o = fail(6, fl, margin, rk, guards);
            o.kepler_ok = kepler_ok;
            return o;
        }
        let st = State {
            r: [rk * uv[0] * g.re, rk * uv[1] * g.re, rk * uv[2] * g.re],
            v: [
                (rdk * uv[0] + rfdk * vv[0]) * vk,
                (rdk * uv[1] + rfdk * vv[1]) * vk,
                (rdk * uv[2] + rfdk * vv[2]) * vk,
            ],
        };
        Out { res: Ok(st), flags: fl | 1 << flag::OK, margin, kepler_ok, mrt: rk, incl_cond, guards }
    }
}
