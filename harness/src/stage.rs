//! Checks of the public stages of the engine: C22 (resonance integrator),
//! C23 (initialisation stages), C24 (lunar-solar periodics), C25 (what a record reports).

use crate::fw::{Check, Ctx};
use crate::gen::{tsince, Regime, Tle};
use crate::geo::turn_diff;
use crate::oracle::*;
use crate::refmodel::*;
use crate::rng::Hash;
use satellite::io::{twoline2satrec, Satrec};
use satellite::propogation::dpper::{dpper, DpperInit, DpperOpsMode, DpperOptions};
use satellite::propogation::dscom::{dscom, DscomOptions, DscomResult};
use satellite::propogation::dsinit::{dsinit, DsinitOptions};
use satellite::propogation::dspace::{dspace, DspaceOptions, DspaceResult};
use satellite::propogation::initl::{initl, InitlMethod, InitlOptions};
use satellite::propogation::sgp4init::sgp4init;
use std::f64::consts::PI;

const RPTIM: f64 = 4.37526908801129966e-3;

/// A deep-space set with a bounded eccentricity.
fn deep_tle(ctx: &mut Ctx, regs: &[Regime]) -> Tle {
    let reg = *ctx.rng.pick(regs);
    let mut t = Tle::random(&mut ctx.rng, reg);
    if t.ecc_e7 > 9_000_000 {
        t.ecc_e7 = ctx.rng.below(9_000_000);
    }
    t
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Copy)]
struct Start {
    em: f64,
    argpm: f64,
    inclm: f64,
    mm: f64,
    nodem: f64,
}

fn call_dspace(r: &RefSat, s: &Start, t: f64, state: (f64, f64, f64)) -> DspaceResult {
    let d = &r.dd;
    dspace(DspaceOptions {
        irez: r.irez as f64,
        d2201: d[0], d2211: d[1], d3210: d[2], d3222: d[3], d4410: d[4], d4422: d[5], d5220: d[6], d5232: d[7], d5421: d[8], d5433: d[9],
        dedt: r.rates[0], didt: r.rates[1], dmdt: r.rates[2], dnodt: r.rates[3], domdt: r.rates[4],
        del1: r.del[0], del2: r.del[1], del3: r.del[2],
        argpo: r.el.argp, argpdot: r.argpdot,
        t, tc: t, gsto: r.gsto, xfact: r.xfact, xlamo: r.xlamo, no: r.no,
        atime: state.0, xli: state.1, xni: state.2,
        em: s.em, argpm: s.argpm, inclm: s.inclm, mm: s.mm, nodem: s.nodem, nm: r.no,
    })
}

fn resume_case(ctx: &mut Ctx) {
    let tle = deep_tle(ctx, &[Regime::Sync, Regime::Sync, Regime::HalfDay, Regime::HalfDay, Regime::DeepGeneral]);
    let afspc = ctx.rng.chance(0.3);
    let el = tle.elements();
    let rf = RefSat::new(el, afspc, WGS84);
    if !rf.deep || !(rf.no > 1e-5) {
        ctx.skip();
        return;
    }
    ctx.strat(match rf.irez {
        0 => "no resonance",
        1 => "one-day resonance",
        _ => "half-day resonance",
    });
    let s = Start {
        em: el.ecc,
        argpm: ctx.rng.uni(-7.0, 7.0),
        inclm: el.incl,
        mm: ctx.rng.uni(-7.0, 7.0),
        nodem: ctx.rng.uni(-7.0, 7.0),
    };
    // the state is carried from call to call, as the published routine keeps it
    let mut state = (0.0, rf.xlamo, rf.no);
    let span = *ctx.rng.pick(&[2000.0, 20_000.0, 100_000.0]);
    let mut t_prev = 0.0f64;
    let n = 3 + ctx.rng.below(12);
    let mut h = Hash::new();
    h.u64(tle.hash());
    let mut hist = vec![];
    for _ in 0..n {
        let r = &mut ctx.rng;
        let t = match r.below(12) {
            0 => 0.0,
            1 => t_prev,
            2 => -t_prev,
            3 => state.0,
            4 => t_prev + r.sign() * r.uni(0.0, 800.0),
            5 => state.0 + r.sign() * 720.0,
            6 => 720.0 * r.range(-60, 60) as f64,
            7 => t_prev * 0.5,
            8 | 9 => t_prev + if t_prev < 0.0 { -1.0 } else { 1.0 } * r.uni(0.0, span * 0.3),
            _ => r.uni(-span, span),
        };
        let t = t.clamp(-200_000.0, 200_000.0);
        hist.push(t);
        h.f64(t);
        let at0 = state.0;
        if rf.irez != 0 {
            ctx.strat(if at0 == 0.0 {
                "started at epoch"
            } else if t * at0 <= 0.0 {
                "other side of epoch than the kept state"
            } else if t.abs() < at0.abs() {
                "before the kept state"
            } else if (t - at0).abs() < 720.0 {
                "resumed without a step"
            } else {
                "resumed with further steps"
            });
            if t != 0.0 && t % 720.0 == 0.0 {
                ctx.strat("a multiple of the step");
            }
        }
        let desc = || format!("{} mode={} times asked for {:?}, state before the last one {:?}", tle.show(), if afspc { "A" } else { "I" }, hist, state);
        let Some(a) = ctx.must(desc, || call_dspace(&rf, &s, t, state)) else { return };
        let Some(b) = ctx.must(desc, || call_dspace(&rf, &s, t, (0.0, rf.xlamo, rf.no))) else { return };
        let th = (rf.gsto + t * RPTIM) % TAU;
        let want_node = s.nodem + rf.rates[3] * t;
        let want_argp = s.argpm + rf.rates[4] * t;
        let ok = [
            ctx.close("eccentricity", a.em, s.em + rf.rates[0] * t, 1e-13, desc),
            ctx.close("inclination", a.inclm, s.inclm + rf.rates[1] * t, 1e-12, desc),
            ctx.close("node", a.nodem, want_node, 1e-11, desc),
            ctx.close("argument of perigee", a.argpm, want_argp, 1e-11, desc),
        ];
        if rf.irez == 0 {
            ctx.close("mean anomaly", a.mm, s.mm + rf.rates[2] * t, 1e-10, desc);
            ctx.close("mean motion", a.nm, rf.no, 1e-15, desc);
            ctx.close("change of mean motion", a.dndt, 0.0, 1e-15, desc);
        } else {
            let (at, lam, ni, n1, xl) = rf.integrate(t);
            let want_mm = if rf.irez == 2 { xl - 2.0 * want_node + 2.0 * th } else { xl - want_node - want_argp + th };
            let k = 1.0 + at.abs() / 7200.0;
            let slack = 1e-15 * xl.abs();
            ctx.close("mean anomaly", turn_diff(a.mm, want_mm), 0.0, 1e-11 * k + slack, desc);
            ctx.close("mean motion", a.nm, n1, 1e-14 * k, desc);
            ctx.close("change of mean motion", a.dndt, n1 - rf.no, 1e-14 * k, desc);
            ctx.close("kept longitude", a.xli, lam, 1e-11 * k + slack, desc);
            ctx.close("kept mean motion", a.xni, ni, 1e-14 * k, desc);
            ctx.check(a.atime == at, || format!("the kept state is at {} not {at}; {}", a.atime, desc()));
            ctx.close("resumed against restarted, mean anomaly", turn_diff(a.mm, b.mm), 0.0, 1e-11 * k + slack, desc);
            ctx.close("resumed against restarted, mean motion", a.nm, b.nm, 1e-14 * k, desc);
            ctx.check(a.atime == b.atime, || format!("resumed state at {}, restarted at {}; {}", a.atime, b.atime, desc()));
        }
        if ctx.failed() || ok.contains(&false) {
            return;
        }
        state = (a.atime, a.xli, a.xni);
        t_prev = t;
    }
    ctx.seen(h.get());
    ctx.sample(|| format!("{} times {:?}", tle.show(), hist));
}

pub const C22: Check = Check {
    id: "C22",
    rule: "a resonant or non-resonant deep-space set, random mean elements and a random history of times (forward, backward, repeated, across epoch, on and around the 720-minute step), the integrator state of each answer being handed to the next call; every answer compared with a restart from epoch and with an independent integration; a case is (elements, history)",
    cases: (300_000, 20_000_000),
    case: resume_case,
    required: &[
        "no resonance", "one-day resonance", "half-day resonance", "started at epoch", "other side of epoch than the kept state", "before the kept state",
        "resumed without a step", "resumed with further steps", "a multiple of the step",
    ],
    assumptions: &["eccentricity up to 0.9, times within 200,000 minutes of epoch"],
};

// ---------------------------------------------------------------- C23

fn call_dsinit(el: &Elements, r: &RefSat, q: &DscomResult, t: f64, tc: f64, start: (f64, f64, f64, f64)) -> satellite::propogation::dsinit::DinitResult {
    dsinit(DsinitOptions {
        cosim: q.cosim, sinim: q.sinim, argpo: el.argp,
        s1: q.s1, s2: q.s2, s3: q.s3, s4: q.s4, s5: q.s5,
        ss1: q.ss1, ss2: q.ss2, ss3: q.ss3, ss4: q.ss4, ss5: q.ss5,
        sz1: q.sz1, sz3: q.sz3, sz11: q.sz11, sz13: q.sz13, sz21: q.sz21, sz23: q.sz23, sz31: q.sz31, sz33: q.sz33,
        t, tc, gsto: r.gsto, mo: el.ma, mdot: r.mdot, no: r.no, nodeo: el.node, nodedot: r.nodedot, xpidot: r.argpdot + r.nodedot,
        z1: q.z1, z3: q.z3, z11: q.z11, z13: q.z13, z21: q.z21, z23: q.z23, z31: q.z31, z33: q.z33,
        ecco: el.ecc, eccsq: el.ecc * el.ecc, emsq: q.emsq, em: q.em, argpm: start.0, inclm: el.incl, mm: start.1, nm: q.nm, nodem: start.2,
        irez: 0.0, atime: start.3,
        d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0,
        dedt: 0.0, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, del1: 0.0, del2: 0.0, del3: 0.0,
        xfact: 0.0, xlamo: 0.0, xli: 0.0, xni: 0.0,
    })
}

fn stages_case(ctx: &mut Ctx) {
    let tle = if ctx.rng.chance(0.2) {
        let mut t = Tle::any(&mut ctx.rng);
        t.ecc_e7 = t.ecc_e7.min(9_000_000);
        t
    } else {
        deep_tle(ctx, &[Regime::DeepGeneral, Regime::Sync, Regime::Sync, Regime::HalfDay, Regime::HalfDay, Regime::VeryHigh, Regime::HighEcc])
    };
    let afspc = ctx.rng.chance(0.4);
    let el = tle.elements();
    let rf = RefSat::new(el, afspc, WGS84);
    let desc = || format!("{} mode={}", tle.show(), if afspc { "A" } else { "I" });
    let mut h = Hash::new();
    h.u64(tle.hash());
    // --- initl
    let epoch = el.jd_epoch - 2433281.5;
    let mode = if afspc { DpperOpsMode::A } else if ctx.rng.chance(0.2) { DpperOpsMode::UNDEFINED } else { DpperOpsMode::I };
    let Some(q) = ctx.must(desc, || initl(InitlOptions { opsmode: mode, method: InitlMethod::N, satn: "1".into(), ecco: el.ecc, epoch, inclo: el.incl, no: el.no })) else { return };
    let (ci, si, e2) = (el.incl.cos(), el.incl.sin(), el.ecc * el.ecc);
    let p = rf.ao * (1.0 - e2);
    // how much the mean-motion recovery amplifies rounding
    let k = 1.0 + (el.no / rf.no - 1.0).abs() * 1e3;
    for (n, got, want, tol) in [
        ("initl no", q.no, rf.no, 1e-13 * k * rf.no.abs()),
        ("initl ao", q.ao, rf.ao, 1e-13 * k * rf.ao.abs()),
        ("initl ainv", q.ainv, 1.0 / rf.ao, 1e-13 * k / rf.ao.abs()),
        ("initl con41", q.con41, 3.0 * ci * ci - 1.0, 1e-14),
        ("initl con42", q.con42, 1.0 - 5.0 * ci * ci, 1e-14),
        ("initl cosio", q.cosio, ci, 1e-14),
        ("initl cosio2", q.cosio2, ci * ci, 1e-14),
        ("initl sinio", q.sinio, si, 1e-14),
        ("initl eccsq", q.eccsq, e2, 1e-15),
        ("initl omeosq", q.omeosq, 1.0 - e2, 1e-15),
        ("initl rteosq", q.rteosq, (1.0 - e2).sqrt(), 1e-14),
        ("initl posq", q.posq, p * p, 1e-12 * k * p * p),
        ("initl rp", q.rp, rf.ao * (1.0 - el.ecc), 1e-13 * k * rf.ao.abs()),
        ("initl gsto", turn_diff(q.gsto, rf.gsto), 0.0, 1e-9),
    ] {
        if rf.no.is_finite() && rf.no > 0.0 {
            ctx.close(n, got, want, tol, desc);
        }
    }
    ctx.check((0.0..=TAU).contains(&q.gsto), || format!("initl gsto {} outside one turn; {}", q.gsto, desc()));
    ctx.check(q.method == InitlMethod::N, || format!("initl method; {}", desc()));
    ctx.strat(if afspc { "AFSPC sidereal time" } else { "IAU-82 sidereal time" });
    if !rf.deep || !(rf.no > 1e-5) || ctx.failed() {
        ctx.strat("near-earth set");
        return;
    }
    // --- dscom, with and without a time offset
    let tc = if ctx.rng.chance(0.5) { 0.0 } else { tsince(&mut ctx.rng).clamp(-1e6, 1e6) };
    let mut el2 = el;
    el2.jd_epoch += tc / 1440.0;
    let rb = RefSat::new(el2, afspc, WGS84);
    h.f64(tc);
    let call = |tc: f64| dscom(DscomOptions { epoch, ep: el.ecc, argpp: el.argp, tc, inclp: el.incl, nodep: el.node, np: rf.no });
    let Some(d) = ctx.must(desc, || call(tc)) else { return };
    if tc != 0.0 {
        ctx.strat("third bodies away from epoch");
    }
    let (s, m) = (&rb.sun, &rb.moon);
    let day = epoch + 18261.5 + tc / 1440.0;
    let gam = 5.8351514 + 0.0019443680 * day;
    let z = 3e-11; // amplitude errors: the lunar node is known to 1e-12 or so
    let mut items: Vec<(&'static str, f64, f64, f64)> = vec![
        ("dscom snodm", d.snodm, el.node.sin(), 1e-14), ("dscom cnodm", d.cnodm, el.node.cos(), 1e-14),
        ("dscom sinim", d.sinim, si, 1e-14), ("dscom cosim", d.cosim, ci, 1e-14),
        ("dscom sinomm", d.sinomm, el.argp.sin(), 1e-14), ("dscom cosomm", d.cosomm, el.argp.cos(), 1e-14),
        ("dscom day", d.day, day, 1e-10), ("dscom gam", d.gam, gam, 1e-11),
        ("dscom em", d.em, el.ecc, 0.0), ("dscom emsq", d.emsq, e2, 1e-15), ("dscom rtemsq", d.rtemsq, (1.0 - e2).sqrt(), 1e-14),
        ("dscom nm", d.nm, rf.no, 0.0),
        ("dscom peo", d.peo, 0.0, 0.0), ("dscom pgho", d.pgho, 0.0, 0.0), ("dscom pho", d.pho, 0.0, 0.0), ("dscom pinco", d.pinco, 0.0, 0.0), ("dscom plo", d.plo, 0.0, 0.0),
        ("dscom zmol", turn_diff(d.zmol, m.phase), 0.0, 1e-9), ("dscom zmos", turn_diff(d.zmos, s.phase), 0.0, 1e-9),
    ];
    for (b, g) in [
        (s, [d.ss1, d.ss2, d.ss3, d.ss4, d.ss5, d.ss6, d.ss7, d.sz1, d.sz2, d.sz3, d.sz11, d.sz12, d.sz13, d.sz21, d.sz22, d.sz23, d.sz31, d.sz32, d.sz33,
            d.se2, d.se3, d.si2, d.si3, d.sl2, d.sl3, d.sl4, d.sgh2, d.sgh3, d.sgh4, d.sh2, d.sh3]),
        (m, [d.s1, d.s2, d.s3, d.s4, d.s5, d.s6, d.s7, d.z1, d.z2, d.z3, d.z11, d.z12, d.z13, d.z21, d.z22, d.z23, d.z31, d.z32, d.z33,
            d.ee2, d.e3, d.xi2, d.xi3, d.xl2, d.xl3, d.xl4, d.xgh2, d.xgh3, d.xgh4, d.xh2, d.xh3]),
    ] {
        let c = &b.s;
        let w = [
            c[1], c[2], c[3], c[4], c[5], c[6], c[7], b.z1, b.z2, b.z3, b.zi[0], b.zi[1], b.zi[2], b.zh[0], b.zh[1], b.zh[2], b.zg[0], b.zg[1], b.zg[2],
            2.0 * c[1] * c[6], 2.0 * c[1] * c[7], 2.0 * c[2] * b.zi[1], 2.0 * c[2] * (b.zi[2] - b.zi[0]),
            -2.0 * c[3] * b.z2, -2.0 * c[3] * (b.z3 - b.z1), 2.0 * c[3] * (21.0 + 9.0 * e2) * b.ecc_body,
            2.0 * c[4] * b.zg[1], 2.0 * c[4] * (b.zg[2] - b.zg[0]), -18.0 * c[4] * b.ecc_body,
            -2.0 * c[2] * b.zh[1], -2.0 * c[2] * (b.zh[2] - b.zh[0]),
        ];
        for j in 0..w.len() {
            let scale = match j {
                0..=3 => c[j + 1].abs() * 1e-2,
                4..=6 => 1.0,
                7..=18 => 60.0,
                19 | 20 => 2.0 * c[1].abs(),
                21 | 22 | 29 | 30 => 2.0 * c[2].abs() * 60.0,
                23..=25 => 2.0 * c[3].abs() * 60.0,
                _ => 2.0 * c[4].abs() * 60.0,
            };
            items.push((if std::ptr::eq(b, s) { "dscom solar coefficients" } else { "dscom lunar coefficients" }, g[j], w[j], z * scale + 1e-300));
        }
    }
    for (j, (n, got, want, tol)) in items.into_iter().enumerate() {
        ctx.close(n, got, want, tol.max(1e-300), || format!("item {j} tc={tc:?} {}", desc()));
    }
    // --- dsinit
    let Some(d0) = ctx.must(desc, || call(0.0)) else { return };
    let t = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.uni(-20_000.0, 20_000.0) };
    let tc = if ctx.rng.chance(0.5) { 0.0 } else { ctx.rng.uni(-20_000.0, 20_000.0) };
    h.f64(t);
    let start = (ctx.rng.uni(-7.0, 7.0), ctx.rng.uni(-7.0, 7.0), ctx.rng.uni(-7.0, 7.0), 0.0);
    let msg = || format!("t={t:?} tc={tc:?} {}", desc());
    let Some(i) = ctx.must(msg, || call_dsinit(&el, &rf, &d0, t, tc, start)) else { return };
    if rf.margin < 1e-9 {
        ctx.skip();
        return;
    }
    ctx.strat(["dsinit without resonance", "dsinit one-day", "dsinit half-day"][rf.irez as usize]);
    if t != 0.0 {
        ctx.strat("dsinit away from epoch");
    }
    ctx.check(i.irez == rf.irez as f64, || format!("resonance class {} want {}; {}", i.irez, rf.irez, msg()));
    let zs = [&rf.sun, &rf.moon];
    let sum = |f: &dyn Fn(&Body) -> f64| zs.iter().map(|b| f(b).abs()).sum::<f64>();
    let inv = if si == 0.0 { 1.0 } else { 1.0 / si.abs() };
    let sc = [
        sum(&|b| b.rate * b.s[1]),
        sum(&|b| b.rate * b.s[2] * 60.0),
        sum(&|b| b.rate * b.s[3] * 60.0),
        sum(&|b| b.rate * b.s[2] * 60.0) * inv,
        sum(&|b| b.rate * b.s[4] * 60.0) + sum(&|b| b.rate * b.s[2] * 60.0) * inv,
    ];
    let rr = rf.rates;
    for (n, got, j) in [("dedt", i.dedt, 0), ("didt", i.didt, 1), ("dmdt", i.dmdt, 2), ("dnodt", i.dnodt, 3), ("domdt", i.domdt, 4)] {
        ctx.close(n, got, rr[j], 1e-11 * sc[j], msg);
    }
    ctx.close("dndt", i.dndt, 0.0, 1e-300, msg);
    let at = t.abs() * 1e-11;
    ctx.close("dsinit em", i.em, el.ecc + rr[0] * t, 1e-14 + at * sc[0], msg);
    ctx.close("dsinit inclm", i.inclm, el.incl + rr[1] * t, 1e-14 + at * sc[1], msg);
    ctx.close("dsinit mm", i.mm, start.1 + rr[2] * t, 1e-14 + at * sc[2], msg);
    ctx.close("dsinit nodem", i.nodem, start.2 + rr[3] * t, 1e-14 + at * sc[3], msg);
    ctx.close("dsinit argpm", i.argpm, start.0 + rr[4] * t, 1e-14 + at * sc[4], msg);
    ctx.close("dsinit nm", i.nm, rf.no, 1e-17, msg);
    if rf.irez != 0 {
        let th = tc * RPTIM; // the sidereal angle the resonance starts from, beyond epoch
        let turns = if rf.irez == 2 { 2.0 } else { 1.0 };
        ctx.close("xlamo", turn_diff(i.xlamo, rf.xlamo - turns * th), 0.0, 1e-11, msg);
        ctx.close("xfact", i.xfact, rf.xfact, 1e-13 * rf.no + 1e-11 * (sc[2] + sc[3] + sc[4]), msg);
        ctx.check(i.xli == i.xlamo && i.xni == rf.no && i.atime == 0.0, || format!("the integrator does not start at epoch: {} {} {}; {}", i.xli, i.xni, i.atime, msg()));
        let g = [i.d2201, i.d2211, i.d3210, i.d3222, i.d4410, i.d4422, i.d5220, i.d5232, i.d5421, i.d5433];
        if rf.irez == 2 {
            // cancellation inside the eccentricity polynomials and inclination functions
            let a = (rf.no / rf.xke).powf(2.0 / 3.0);
            let base = 3.0 * rf.no * rf.no * a * a;
            let cs = [
                base * 1.8e-6 * 3.0 * 2.0, base * 1.8e-6 * 1.5 * 1e3, base * a * 3.8e-7 * 12.0 * 7e3, base * a * 3.8e-7 * 12.0 * 7e3,
                base * a * a * 1.5e-8 * 105.0 * 2e4, base * a * a * 1.5e-8 * 40.0 * 6e4,
                base * a * a * a * 1.2e-7 * 80.0 * 1.2e5, base * a * a * a * 1.2e-7 * 80.0 * 6e5,
                base * a * a * a * 4.4e-9 * 800.0 * 8e5, base * a * a * a * 4.4e-9 * 800.0 * 6e5,
            ];
            for j in 0..10 {
                ctx.close("half-day coefficients", g[j], rf.dd[j], 2e-15 * cs[j], || format!("coefficient {j}; {}", msg()));
            }
        } else {
            let g = [i.del1, i.del2, i.del3];
            let a = (rf.no / rf.xke).powf(2.0 / 3.0);
            let base = 3.0 * rf.no * rf.no * a * a;
            let cs = [base * a * 2.2e-6 * 10.0 * 3.0, base * 3.6e-6 * 3.0 * 4.0, base * a * 6.7e-7 * 15.0 * 10.0];
            for j in 0..3 {
                ctx.close("one-day coefficients", g[j], rf.del[j], 2e-15 * cs[j], || format!("coefficient {j}; {}", msg()));
            }
        }
    }
    ctx.seen(h.get());
    ctx.sample(msg);
}

pub const C23: Check = Check {
    id: "C23",
    rule: "element sets of all regimes through the three public initialisation stages called one by one (initl in every operation mode; dscom at and away from epoch; dsinit at and away from epoch with arbitrary mean angles); every returned quantity compared with an independent evaluation of the published formulas; a case is (elements, offsets)",
    cases: (600_000, 40_000_000),
    case: stages_case,
    required: &[
        "AFSPC sidereal time", "IAU-82 sidereal time", "near-earth set", "third bodies away from epoch", "dsinit without resonance", "dsinit one-day",
        "dsinit half-day", "dsinit away from epoch",
    ],
    assumptions: &["eccentricity up to 0.9"],
};

// ---------------------------------------------------------------- C24

fn periodics_case(ctx: &mut Ctx) {
    let tle = deep_tle(ctx, &[Regime::DeepGeneral, Regime::Sync, Regime::HalfDay, Regime::VeryHigh, Regime::HighEcc]);
    let el = tle.elements();
    let mut rf = RefSat::new(el, false, WGS84);
    if !rf.deep || !(rf.no > 1e-5) {
        ctx.skip();
        return;
    }
    let Some((mut rec, _)) = ctx.must(|| tle.show(), || build_init(&el, false)) else { return };
    let r = &mut ctx.rng;
    // bodies that leave the inclination alone: it stays what it is to the last bit
    let level = r.chance(0.03);
    if level {
        [rec.si2, rec.si3, rec.xi2, rec.xi3] = [0.0; 4];
        rf.sun.zi = [0.0; 3];
        rf.moon.zi = [0.0; 3];
    }
    let t = tsince(r).clamp(-2e6, 2e6);
    rec.t = t;
    let zero = if r.chance(0.5) { [0.0; 5] } else { [r.uni(-1e-2, 1e-2), r.uni(-1e-2, 1e-2), r.uni(-1e-2, 1e-2), r.uni(-1e-2, 1e-2), r.uni(-1e-2, 1e-2)] };
    let zero = if level { [zero[0], 0.0, zero[2], zero[3], zero[4]] } else { zero };
    [rec.peo, rec.pinco, rec.plo, rec.pgho, rec.pho] = zero;
    let incl = match r.below(8) {
        0 => r.uni(0.15, 0.25),
        1 => 0.2 + r.sign() * r.log(1e-6, 1e-2),
        2 => r.uni(0.0, 0.02),
        3 => r.uni(-0.02, 0.0),
        4 => r.uni(0.0, 0.2),
        5 => r.uni(3.0, 3.1),
        _ => r.uni(0.2, PI),
    };
    let incl = if level { 0.2 + r.range(-2, 2) as f64 * 2f64.powi(-55) } else { incl };
    let start = [r.uni(0.0, 0.999), incl, r.uni(-13.0, 13.0), r.uni(-13.0, 13.0), r.uni(-13.0, 13.0)];
    let which = r.below(3);
    let mode = [DpperOpsMode::A, DpperOpsMode::I, DpperOpsMode::UNDEFINED][which as usize].clone();
    let afspc = which == 0;
    let opt = |init: DpperInit, t: &DpperOpsMode| DpperOptions { init, opsmode: t.clone(), inclo: el.incl, ep: start[0], inclp: start[1], nodep: start[2], argpp: start[3], mp: start[4] };
    let desc = || format!("{} mode {} t={t:?} e,i,node,argp,M={start:?} epoch values {zero:?}", tle.show(), ["A", "I", "undefined"][which as usize]);
    let Some(y) = ctx.must(desc, || dpper(&rec, opt(DpperInit::Y, &mode))) else { return };
    ctx.check([y.ep, y.inclp, y.nodep, y.argpp, y.mp] == start, || format!("the initial call changes the elements to {:?}; {}", [y.ep, y.inclp, y.nodep, y.argpp, y.mp], desc()));
    let Some(q) = ctx.must(desc, || dpper(&rec, opt(DpperInit::N, &mode))) else { return };
    let got = [q.ep, q.inclp, q.nodep, q.argpp, q.mp];
    let (want, fl, margin) = rf.lunisolar(t, start, zero, afspc);
    // on the limit of 0.2 rad itself the choice is exact when nothing is added
    let near = |s: &[f64; 5], f: u64, m: f64| m < 1e-9 && !(level && s[1] == incl && f & (1 << flag::DIRECT) != 0) && !(level && f & (1 << flag::LYD) != 0 && m == (incl - 0.2).abs());
    if near(&start, fl, margin) {
        ctx.skip();
        return;
    }
    let mut tol = [1e-11; 5];
    for j in 0..5 {
        let mut z2 = zero;
        if !(level && j == 1) {
            z2[j] += 1e-12;
        }
        let mut s2 = start;
        if !(level && j == 1) {
            s2[j] *= 1.0 + 4e-16;
        }
        for (s, z, k) in [(start, z2, 1.0), (s2, zero, 16.0)] {
            let (w, f, m) = rf.lunisolar(t, s, z, afspc);
            if f != fl || near(&s, f, m) {
                ctx.skip();
                return;
            }
            for i in 0..5 {
                tol[i] += k * (w[i] - want[i]).abs();
            }
        }
    }
    if level {
        ctx.strat(if incl == 0.2 { "exactly 0.2 rad" } else { "next to 0.2 rad" });
    }
    ctx.strat(if fl & (1 << flag::LYD) == 0 { "direct periodics" } else { "Lyddane modification" });
    if fl & (1 << flag::LYDWRAP) != 0 {
        ctx.strat("node carried across the half turn");
    }
    if fl & (1 << flag::AFWRAP) != 0 {
        ctx.strat("node made positive (AFSPC)");
    }
    if which == 2 {
        ctx.strat("undefined mode");
    }
    if zero[0] != 0.0 {
        ctx.strat("non-zero values at epoch");
    }
    for (j, n) in ["eccentricity", "inclination", "node", "argument of perigee", "mean anomaly"].into_iter().enumerate() {
        ctx.close(n, got[j], want[j], tol[j], desc);
    }
    let mut h = Hash::new();
    h.u64(tle.hash());
    h.f64(t);
    h.f64(start[2]);
    ctx.seen(h.get());
    ctx.sample(desc);
}

pub const C24: Check = Check {
    id: "C24",
    rule: "deep-space records, times within four years, arbitrary mean elements (inclination next to zero, below zero, around 0.2 rad, next to a half turn), arbitrary values at epoch and all operation modes through the public periodics stage; compared with an independent evaluation, and the initial call with its input; a case is (elements, time, mean elements)",
    cases: (800_000, 50_000_000),
    case: periodics_case,
    required: &["direct periodics", "Lyddane modification", "node carried across the half turn", "node made positive (AFSPC)", "undefined mode", "non-zero values at epoch", "exactly 0.2 rad", "next to 0.2 rad"],
    assumptions: &["cases within 1e-9 of a branch of the theory are not compared"],
};

// ---------------------------------------------------------------- C25

struct Kept([f64; 17], bool, bool);

fn kept(r: &Satrec) -> Kept {
    Kept(
        [r.bstar, r.ecco, r.inclo, r.nodeo, r.argpo, r.mo, r.no, r.jdsatepoch, r.gsto, r.irez, r.epochdays, r.epochyr as f64, r.ndot, r.nddot, r.a, r.alta, r.altp],
        r.method == InitlMethod::D,
        r.operationmode == DpperOpsMode::A,
    )
}

/// All a record holds.
fn whole(r: &Satrec) -> (Vec<u64>, u32, i64, i64, Option<String>, String, [bool; 5]) {
    (
        crate::menu::numbers(r).iter().map(|x| x.to_bits()).collect(),
        r.error,
        r.epochyr,
        r.isimp,
        r.name.clone(),
        r.satnum.clone(),
        [r.method == InitlMethod::D, r.method == InitlMethod::N, r.operationmode == DpperOpsMode::A, r.operationmode == DpperOpsMode::I, r.init == DpperInit::Y],
    )
}

fn report_case(ctx: &mut Ctx) {
    let tle = Tle::any(&mut ctx.rng);
    let text = ctx.rng.chance(0.5);
    let afspc = !text && ctx.rng.chance(0.4);
    let el = tle.elements();
    let prior = if !text && ctx.rng.chance(0.4) {
        ctx.strat("used record");
        let (a, b) = Tle::any(&mut ctx.rng).lines();
        Some((a, b, tsince(&mut ctx.rng).clamp(-1e6, 1e6)))
    } else {
        None
    };
    let desc = || format!("{} mode={} {} {}", tle.show(), if afspc { "A" } else { "I" }, if text { "from text" } else { "from elements" }, prior.as_ref().map(|p| format!("after {p:?}")).unwrap_or_default());
    let (l1, l2) = tle.lines();
    let built = ctx.must(desc, || {
        if text {
            twoline2satrec(&l1, &l2).ok().map(|r| (r, Ok(())))
        } else {
            // on a blank record or on one that held something else
            let mut rec = match &prior {
                Some((a, b, t)) => match twoline2satrec(a, b) {
                    Ok(mut r) => {
                        let _ = prop(&mut r, *t);
                        r
                    }
                    Err(_) => Satrec::zero(),
                },
                None => Satrec::zero(),
            };
            rec.jdsatepoch = el.jd_epoch;
            rec.satnum = "98765".into();
            rec.name = Some("A NAME".into());
            let q = sgp4init(&mut rec, init_options(&el, afspc, "12345"));
            Some((rec, q.map(|_| ()).map_err(|e| e.code())))
        }
    });
    let Some(Some((mut rec, outcome))) = built else {
        ctx.skip();
        return;
    };
    // what was decoded is what the model has to be asked about
    let e = Elements { jd_epoch: rec.jdsatepoch, bstar: rec.bstar, ecc: rec.ecco, incl: rec.inclo, node: rec.nodeo, argp: rec.argpo, ma: rec.mo, no: el.no };
    let rf = RefSat::new(e, afspc, WGS84);
    let same = |a: f64, b: f64| (a - b).abs() <= 4e-15 * (a.abs() + b.abs());
    ctx.check(
        same(e.bstar, el.bstar) && same(e.ecc, el.ecc) && same(e.incl, el.incl) && same(e.node, el.node) && same(e.argp, el.argp) && same(e.ma, el.ma),
        || format!("the record does not hold the elements it was built from: {e:?}; {}", desc()),
    );
    if !text {
        ctx.check(rec.name.as_deref() == Some("A NAME") && rec.satnum == "98765" && rec.jdsatepoch == el.jd_epoch, || format!("initialisation changed name, number or epoch; {}", desc()));
    }
    ctx.check((rec.operationmode == DpperOpsMode::A) == afspc, || format!("operation mode lost; {}", desc()));
    match outcome {
        Ok(()) => {
            ctx.strat("accepted");
            ctx.check(rec.error == 0, || format!("error {} in an accepted record; {}", rec.error, desc()));
        }
        Err(c) => {
            ctx.strat("refused at epoch");
            ctx.check(rec.error == c as u32, || format!("error {} in a record refused with {c}; {}", rec.error, desc()));
        }
    }
    if rf.no.is_finite() && rf.no > 0.0 && el.ecc < 0.99 {
        let k = 1.0 + (el.no / rf.no - 1.0).abs() * 1e3;
        ctx.close("mean motion", rec.no, rf.no, 1e-13 * k * rf.no, desc);
        ctx.close("sidereal angle at epoch", turn_diff(rec.gsto, rf.gsto), 0.0, 1e-9, desc);
        let j = rf.no * 1e-13 * k + (rf.mdot - rf.no).abs() * 1e-11;
        ctx.close("rate of mean anomaly", rec.mdot, rf.mdot, j, desc);
        ctx.close("rate of perigee", rec.argpdot, rf.argpdot, j + rf.argpdot.abs() * 1e-11 + (rf.nodedot.abs()) * 1e-11, desc);
        ctx.close("rate of node", rec.nodedot, rf.nodedot, j + rf.nodedot.abs() * 1e-11 + (rf.argpdot.abs()) * 1e-11, desc);
        if rf.margin > 1e-9 {
            ctx.check((rec.method == InitlMethod::D) == rf.deep, || format!("deep space {} for a period of {} minutes; {}", !rf.deep, TAU / rf.no, desc()));
            ctx.check(rec.irez == rf.irez as f64, || format!("resonance class {} want {}; {}", rec.irez, rf.irez, desc()));
            ctx.strat(if !rf.deep { "near earth" } else { ["deep space", "one-day resonance", "half-day resonance"][rf.irez as usize] });
        }
    }
    if ctx.failed() {
        return;
    }
    // a prediction leaves in the record its time and verdict, and nothing else a user can rely on
    let before = kept(&rec);
    let (nm, sn) = (rec.name.clone(), rec.satnum.clone());
    for i in 0..3 {
        if ctx.rng.chance(0.3) {
            // a clone reports the same, whatever was predicted before
            let Some(copy) = ctx.must(desc, || rec.clone()) else { return };
            ctx.strat("clone");
            ctx.check(whole(&copy) == whole(&rec), || format!("a clone of the record after {i} predictions differs from it; {}", desc()));
            if ctx.rng.chance(0.5) {
                rec = copy;
            }
        }
        let t = tsince(&mut ctx.rng).clamp(-1e6, 1e6);
        let Some(p) = ctx.must(|| format!("t={t:?} {}", desc()), || prop(&mut rec, t)) else { return };
        ctx.strat(if p.is_ok() { "prediction delivered" } else { "prediction refused" });
        let after = kept(&rec);
        ctx.check(
            before.0.iter().zip(&after.0).all(|(a, b)| a.to_bits() == b.to_bits()) && before.1 == after.1 && before.2 == after.2 && rec.name == nm && rec.satnum == sn,
            || format!("predicting for {t:?} changed the record from {:?} to {:?}; {}", before.0, after.0, desc()),
        );
        ctx.check(rec.t.to_bits() == t.to_bits(), || format!("predicting for {t:?} left time {:?} in the record; {}", rec.t, desc()));
        ctx.check(rec.error == p.as_ref().err().copied().unwrap_or(0), || format!("predicting for {t:?} gave {} and left error {}; {}", show(&p), rec.error, desc()));
    }
    ctx.seen(tle.hash());
    ctx.sample(desc);
}

pub const C25: Check = Check {
    id: "C25",
    rule: "records built from text and from elements in both modes over all regimes; every user-visible parameter (elements, recovered mean motion, secular rates, sidereal angle, deep-space and resonance class, mode, verdict) compared with an independent computation, on blank records and on ones that held another satellite, and with itself after further predictions and with its clones; a case is an element set",
    cases: (600_000, 40_000_000),
    case: report_case,
    required: &["accepted", "refused at epoch", "near earth", "deep space", "one-day resonance", "half-day resonance", "prediction delivered", "prediction refused", "clone", "used record"],
    assumptions: &["classes are not compared within 1e-9 of their limits"],
};

