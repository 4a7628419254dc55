//! Checks of the propagation engine: C01-C04, C19, C20.

use crate::fw::{Check, Ctx, Tier};
use crate::gen::{self, tsince, Regime, Tle};
use crate::oracle::*;
use crate::refmodel::*;
use crate::rng::Hash;
use satellite::io::{twoline2satrec, Satrec, SatrecParseError};
use satellite::propogation::dpper::DpperOpsMode;
use satellite::propogation::initl::InitlMethod;
use satellite::propogation::sgp4init::sgp4init;

fn count_flags(ctx: &mut Ctx, f: u64) {
    for (k, n) in flag::NAMES.iter().enumerate() {
        if f & (1 << k) != 0 {
            ctx.strat(n);
        }
    }
}

fn case_hash(tle: &Tle, t: f64, afspc: bool) -> u64 {
    let mut h = Hash::new();
    h.u64(tle.hash());
    h.f64(t);
    h.u64(afspc as u64);
    h.get()
}

/// Compare one prediction with the model. Returns false on violation.
fn compare(ctx: &mut Ctx, what: &'static str, got: &Result<State, u32>, ex: &Expect, msg: &dyn Fn() -> String) -> bool {
    match (got, &ex.out.res) {
        (Ok(g), Ok(w)) => {
            let dr = dist(&g.r, &w.r);
            let dv = dist(&g.v, &w.v);
            ctx.dev(what, (dr / ex.tol_r).max(dv / ex.tol_v));
            ctx.check(dr <= ex.tol_r && dv <= ex.tol_v, || {
                format!("{what}: off by {dr:e} km (tol {:e}), {dv:e} km/s (tol {:e}); got {} want {}; {}", ex.tol_r, ex.tol_v, show(got), show(&ex.out.res), msg())
            })
        }
        (Err(a), Err(b)) if a == b => ctx.check(true, String::new),
        _ => ctx.check(false, || format!("{what}: verdict {} but the model says {}; {}", show(got), show(&ex.out.res), msg())),
    }
}

/// Build a record for an element set, by text or through the element interface.
/// None: refused (as the model demands) or already reported.
fn build(ctx: &mut Ctx, tle: &Tle, el: &Elements, afspc: bool, text: bool, rs: &RefSet) -> Option<Satrec> {
    if text {
        let (l1, l2) = tle.lines();
        let r = ctx.must(|| format!("twoline2satrec({:?}, {:?})", l1, l2), || twoline2satrec(&l1, &l2))?;
        match r {
            Ok(rec) => Some(rec),
            Err(SatrecParseError::Sgp4InitError(e)) => {
                let ex = rs.expect(0.0);
                if ex.stable {
                    compare(ctx, "init", &Err(e.code() as u32), &ex, &|| ctx_msg(tle, false, 0.0));
                }
                None
            }
            Err(e) => {
                ctx.check(false, || format!("well-formed element set refused: {e:?}; {}", tle.show()));
                None
            }
        }
    } else {
        let e = *el;
        let (rec, r) = ctx.must(|| format!("sgp4init for {}", tle.show()), || build_init(&e, afspc))?;
        let ex = rs.expect(0.0);
        if ex.stable && ex.tol_r < 1e-2 {
            compare(ctx, "init", &conv(r), &ex, &|| ctx_msg(tle, afspc, 0.0));
        }
        Some(rec)
    }
}

fn model_case(ctx: &mut Ctx, deep: bool) {
    let reg = if deep { *ctx.rng.pick(&gen::DEEP) } else { *ctx.rng.pick(&gen::NEAR) };
    let mut tle = Tle::random(&mut ctx.rng, reg);
    if ctx.rng.chance(0.5) {
        // keep most of the drag terms realistic, so that long arcs survive
        tle.bstar = (ctx.rng.range(0, 99999), -(ctx.rng.range(3, 7) as i32));
    }
    let mut el = tle.elements();
    let text = ctx.rng.chance(if deep { 0.6 } else { 0.8 });
    if !text && ctx.rng.chance(0.3) {
        // the same angles, a turn less
        for a in [&mut el.node, &mut el.argp, &mut el.ma] {
            if ctx.rng.chance(0.5) {
                *a -= 2.0 * std::f64::consts::PI;
            }
        }
    }
    if !text && ctx.rng.chance(0.1) {
        // next to the equator, direct or retrograde, closer than any text can say
        let d = ctx.rng.log(1e-9, 1e-3);
        el.incl = if ctx.rng.chance(0.6) { std::f64::consts::PI - d } else { d };
    }
    let afspc = if text { false } else { ctx.rng.chance(0.6) };
    let rs = if text { RefSet::new(&el, afspc) } else { RefSet::given(&el, afspc) };
    let is_deep = rs.base.flags & (1 << flag::DEEP) != 0;
    if is_deep != deep || rs.base.margin < 1e-10 {
        ctx.skip();
        return;
    }
    if afspc {
        ctx.strat("mode_afspc");
    } else {
        ctx.strat("mode_improved");
    }
    if !text && el.node < 0.0 {
        ctx.strat("a node below zero");
    }
    let Some(mut rec) = build(ctx, &tle, &el, afspc, text, &rs) else { return };
    if ctx.failed() {
        return;
    }
    let n = 4 + ctx.rng.usize(5);
    for _ in 0..n {
        let t = tsince(&mut ctx.rng);
        let ex = rs.expect(t);
        let Some(got) = ctx.must(|| ctx_msg(&tle, afspc, t), || prop(&mut rec, t)) else { return };
        if !ex.stable || ex.tol_r > 1.0 {
            ctx.skip();
            continue;
        }
        // verdicts are C03's; here only predictions both sides deliver
        if let (Ok(_), Ok(_)) = (&got, &ex.out.res) {
            count_flags(ctx, ex.out.flags);
            if !text && el.incl > 3.14159 && el.incl < std::f64::consts::PI && std::f64::consts::PI - el.incl < 1.7e-6 {
                ctx.strat("within microradians of a half turn");
            }
            if ex.tol_r < 1e-6 {
                ctx.strat("tolerance below a millimetre");
            }
            ctx.seen(case_hash(&tle, t, afspc));
            if !compare(ctx, "prediction", &got, &ex, &|| ctx_msg(&tle, afspc, t)) {
                return;
            }
        } else if got.is_ok() != ex.out.res.is_ok() {
            compare(ctx, "prediction", &got, &ex, &|| ctx_msg(&tle, afspc, t));
            return;
        }
        ctx.sample(|| format!("{} -> {}", ctx_msg(&tle, afspc, t), show(&got)));
    }
}

pub const C01: Check = Check {
    id: "C01",
    rule: "seeded element sets in text form over the near-earth regimes (LEO, perigee around the 98/156/220 km drag breakpoints, general, periods around 225 min; special inclinations, eccentricities, drag terms), 4-8 time offsets each from 0 to +-20 years; every delivered state is compared with the reference model, tolerance from the model's own conditioning; a case is (element set, t), non-trivial when the model is well conditioned there",
    cases: (900_000, 60_000_000),
    case: |c| model_case(c, false),
    required: &[
        "near_earth", "simple_drag", "full_drag", "perigee_lt_156", "perigee_lt_98", "ecc_le_1e-4", "incl_180_guard",
        "em_floor_1e-6", "kepler_clamp", "kepler_multi", "retrograde", "t_negative", "t_zero", "ok", "tolerance below a millimetre", "within microradians of a half turn",
    ],
    assumptions: &["the reference model (validated against published ephemerides by its self-test) is the SGP4 theory", "WGS-84 constants as documented by the crate"],
};

pub const C02: Check = Check {
    id: "C02",
    rule: "seeded deep-space element sets (general, 24 h and 12 h resonance bands with their eccentricity breakpoints, high eccentricity, very high orbits, periods around 225 min), by text or by element initialisation in both operation modes, 4-8 offsets each from 0 to +-20 years including multiples of 720 min; compared with the reference model; a case is (element set, mode, t), non-trivial when the model is well conditioned there",
    cases: (80_000, 4_000_000),
    case: |c| model_case(c, true),
    required: &[
        "deep_space", "res_none", "res_sync", "res_halfday", "g_e_le_0.65", "g_e_gt_0.65", "g520_e_gt_0.715", "g520_e_le_0.715",
        "g5_e_lt_0.7", "g5_e_ge_0.7", "incl_lt_3deg", "incl_gt_177deg", "lyddane", "direct_periodics", "lyddane_wrap",
        "neg_incl_flip", "int_forward", "int_backward", "int_zero_steps", "int_many_steps", "mode_afspc",
        "mode_improved", "retrograde", "t_negative", "t_zero", "ok", "tolerance below a millimetre", "within microradians of a half turn",
    ],
    assumptions: &["the reference model (validated against published ephemerides by its self-test) is the SDP4 theory", "WGS-84 constants as documented by the crate"],
};

// ---------------------------------------------------------------- C03

fn verdict_case(ctx: &mut Ctx) {
    let mut tle = match ctx.rng.below(6) {
        0 => Tle::random(&mut ctx.rng, Regime::HighEcc),
        1 => Tle::random(&mut ctx.rng, Regime::SubOrbital),
        2 => Tle::random(&mut ctx.rng, Regime::Sync),
        _ => Tle::any(&mut ctx.rng),
    };
    match ctx.rng.below(4) {
        // strong drag: decays within the offsets asked for
        0 => tle.bstar = (ctx.rng.range(10000, 99999), ctx.rng.range(-3, 1) as i32),
        1 => tle.bstar = (-ctx.rng.range(10000, 99999), ctx.rng.range(-3, 1) as i32),
        _ => {}
    }
    if ctx.rng.chance(0.2) {
        tle.ecc_e7 = ctx.rng.below(400); // near-circular: perturbed eccentricity may turn negative
    }
    let mut el = tle.elements();
    let text = ctx.rng.chance(0.5);
    let afspc = if text { false } else { ctx.rng.chance(0.3) };
    if !text {
        match ctx.rng.below(12) {
            0 => el.no = -el.no,
            1 => el.no = 0.0,
            2 => el.ecc = ctx.rng.uni(0.99, 1.2),
            3 => el.ecc = -ctx.rng.log(1e-6, 0.01),
            4 => el.ecc = 1.0 - ctx.rng.log(1e-14, 1e-2),
            _ => {}
        }
    }
    let odd = !(el.no > 0.0) || el.ecc >= 1.0;
    let rs = RefSet::new(&el, afspc);
    let mut rec;
    let stable0 = rs.expect(0.0).stable;
    if text {
        let (l1, l2) = tle.lines();
        let Some(r) = ctx.must(|| format!("twoline2satrec({l1:?}, {l2:?})"), || twoline2satrec(&l1, &l2)) else { return };
        let ex = rs.expect(0.0);
        match r {
            Ok(q) => {
                ctx.check(q.error == 0, || format!("accepted record carries error {}; {}", q.error, tle.show()));
                if ex.stable {
                    if let Err(c) = ex.out.res {
                        ctx.check(false, || format!("element set accepted although the model refuses it at epoch with {c}; {}", tle.show()));
                        return;
                    }
                }
                rec = q;
            }
            Err(SatrecParseError::Sgp4InitError(e)) => {
                count_flags(ctx, ex.out.flags & (0x1f << flag::E1));
                if stable0 {
                    ctx.strat("refused at epoch");
                    ctx.check(ex.out.res.as_ref().err() == Some(&(e.code() as u32)), || {
                        format!("refused at epoch with {} but the model says {}; {}", e.code(), show(&ex.out.res), tle.show())
                    });
                }
                return;
            }
            Err(e) => {
                ctx.check(false, || format!("well-formed element set refused: {e:?}; {}", tle.show()));
                return;
            }
        }
    } else {
        let Some((q, r)) = ctx.must(|| format!("sgp4init {el:?}"), || build_init(&el, afspc)) else { return };
        let ex = rs.expect(0.0);
        let code = r.as_ref().err().map(|e| e.code() as u32).unwrap_or(0);
        ctx.check(q.error == code, || format!("after initialisation the record holds error {} but the result is {code}; {el:?}", q.error));
        if ex.stable && !odd {
            ctx.check(ex.out.res.as_ref().err().copied().unwrap_or(0) == code, || {
                format!("initialisation verdict {code} but the model says {}; {el:?} afspc={afspc}", show(&ex.out.res))
            });
        }
        if r.is_err() {
            ctx.strat("initialisation refused, record still asked for other times");
        }
        rec = q;
    }
    for _ in 0..8 {
        let t = tsince(&mut ctx.rng);
        let ex = rs.expect(t);
        let Some(got) = ctx.must(|| format!("sgp4 {} t={t:?}", tle.show()), || prop(&mut rec, t)) else { return };
        let code = got.as_ref().err().copied().unwrap_or(0);
        let err = rec.error;
        ctx.check(err == code, || format!("record holds error {err} but the result is {}; {} el={el:?} t={t:?}", show(&got), tle.show()));
        ctx.check([0, 1, 2, 3, 4, 6].contains(&code), || format!("undocumented error code {code}"));
        if let Ok(s) = &got {
            let fin = s.r.iter().chain(s.v.iter()).all(|x| x.is_finite());
            if !odd {
                ctx.check(fin, || format!("non-finite prediction {}; {} el={el:?} afspc={afspc} t={t:?}", show(&got), tle.show()));
                let rr = norm(&s.r);
                ctx.check(!(rr < 6378.137 * (1.0 - 1e-12)), || format!("prediction inside the Earth, radius {rr}; {} t={t:?}", tle.show()));
            }
        }
        if !ex.stable {
            ctx.skip();
            continue;
        }
        if odd && ex.out.res.is_ok() {
            ctx.skip();
            continue;
        }
        count_flags(ctx, ex.out.flags);
        ctx.seen(case_hash(&tle, t, afspc) ^ el.no.to_bits() ^ el.ecc.to_bits().rotate_left(7));
        let want = ex.out.res.as_ref().err().copied().unwrap_or(0);
        if !ctx.check(code == want, || {
            format!("verdict {} but the model says {} (margin {:e}); {} el={el:?} afspc={afspc} t={t:?}", show(&got), show(&ex.out.res), ex.out.margin, tle.show())
        }) {
            return;
        }
        if want != 0 {
            ctx.sample(|| format!("error {want}: {} t={t:?}", tle.show()));
        }
    }
}

pub const C03: Check = Check {
    id: "C03",
    rule: "seeded element sets biased to high eccentricity, sub-orbital, strongly dragged (either sign), near-circular deep-space, zero or negative mean motion, by text and by element initialisation; verdict and error code compared with the reference model at epoch and at 8 offsets, record error field compared with the result, delivered states checked finite and outside the Earth; a case is (elements, t), non-trivial when the model's verdict is not within rounding of another",
    cases: (120_000, 6_000_000),
    case: verdict_case,
    required: &["err1", "err2", "err3", "err4", "err6", "ok", "refused at epoch", "initialisation refused, record still asked for other times", "deep_space", "near_earth"],
    assumptions: &["the reference model is the theory", "verdicts within 1e-10 (relative) of a guard are not judged"],
};

// ---------------------------------------------------------------- C04

fn same(a: &Result<State, u32>, b: &Result<State, u32>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            let sc = 1.0 + norm(&x.r) * 1e-6;
            (0..3).all(|k| x.r[k].to_bits() == y.r[k].to_bits() && x.v[k].to_bits() == y.v[k].to_bits())
                || (dist(&x.r, &y.r) < 1e-7 * sc && dist(&x.v, &y.v) < 1e-10 * sc)
        }
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// Another element set of the same object, mostly of the same epoch too.
fn alike(r: &mut crate::rng::Rng, tle: &Tle) -> Tle {
    let mut t = tle.clone();
    let by = r.sign() as i64 * *r.pick(&[1i64, 7, 100, 12345]);
    let wrap = |x: u64| (x as i64 + by).rem_euclid(3_600_000) as u64;
    match r.below(9) {
        0 => t.incl_e4 = (t.incl_e4 as i64 + by).clamp(0, 1_750_000) as u64,
        1 => t.node_e4 = wrap(t.node_e4),
        2 => t.argp_e4 = wrap(t.argp_e4),
        3 | 4 => t.ma_e4 = wrap(t.ma_e4),
        5 => t.ecc_e7 = (t.ecc_e7 as i64 + by).clamp(0, 9_000_000) as u64,
        6 => t.no_e8 = (t.no_e8 as i64 + by * 10).max(1_000_000) as u64,
        7 => t.bstar = (r.range(1, 99999), -5),
        _ => t.day_e8 = if t.day_e8 > 200_00000000 { t.day_e8 - 10_000_000_000 } else { t.day_e8 + 1_00000000 },
    }
    t
}

/// Text and elements, AFSPC mode, the record, whether it is built from the text.
type Sat = (Tle, Elements, bool, Satrec, bool);

fn route(tle: &Tle, el: &Elements, afspc: bool, text: bool) -> (Satrec, Result<State, u32>) {
    if text {
        let (a, b) = tle.lines();
        if let Ok(mut rec) = twoline2satrec(&a, &b) {
            let r = prop(&mut rec, 0.0);
            return (rec, r);
        }
    }
    let (rec, r) = build_init(el, afspc);
    (rec, conv(r))
}

fn history_case(ctx: &mut Ctx) {
    // several satellites, mostly of kinds that keep state between calls
    let nsat = 1 + ctx.rng.usize(4);
    let mut sats: Vec<Sat> = vec![];
    while sats.len() < nsat {
        let reg = *ctx.rng.pick(&[Regime::Sync, Regime::HalfDay, Regime::DeepGeneral, Regime::Leo, Regime::LowPerigee, Regime::HighEcc, Regime::VeryHigh, Regime::NearGeneral]);
        let mut tle = Tle::random(&mut ctx.rng, reg);
        if ctx.rng.chance(0.6) {
            tle.bstar = (ctx.rng.range(0, 99999), -(ctx.rng.range(3, 6) as i32));
        }
        let mut twin = false;
        if let (Some((prev, ..)), true) = (sats.last(), ctx.rng.chance(0.5)) {
            // the same object and epoch, one quantity corrected
            tle = alike(&mut ctx.rng, prev);
            twin = true;
        }
        let el = tle.elements();
        let (afspc, text) = *ctx.rng.pick(&[(false, false), (false, true), (false, true), (true, false)]);
        let Some((rec, r)) = ctx.must(|| tle.show(), || route(&tle, &el, afspc, text)) else { return };
        if r.is_err() && ctx.rng.chance(0.8) {
            continue;
        }
        ctx.strat(match reg {
            Regime::Sync => "24 h resonant",
            Regime::HalfDay => "12 h resonant",
            Regime::Leo | Regime::LowPerigee | Regime::NearGeneral => "near earth",
            _ => "other deep space",
        });
        if twin {
            ctx.strat("two element sets of one object and epoch");
        }
        if text {
            ctx.strat("record built from text");
        }
        sats.push((tle, el, afspc, rec, text));
    }
    // the times that will be compared, asked for again and again
    let mut times: Vec<f64> = (0..3 + ctx.rng.usize(6)).map(|_| short_t(ctx)).collect();
    if ctx.rng.chance(0.3) {
        times.push(0.0);
    }
    let mut fresh: Vec<Vec<Result<State, u32>>> = {
        let mut all = vec![];
        for (tle, el, afspc, _, text) in &sats {
            let mut v = vec![];
            for &t in &times {
                let Some(r) = ctx.must(|| ctx_msg(tle, *afspc, t), || { let (mut q, _) = route(tle, el, *afspc, *text); prop(&mut q, t) }) else { return };
                v.push(r);
            }
            all.push(v);
        }
        all
    };
    let steps = 20 + ctx.rng.usize(60);
    let mut clones: Vec<(usize, Satrec)> = vec![];
    let mut trail: Vec<String> = vec![];
    let mut last = f64::NAN;
    for _ in 0..steps {
        let s = ctx.rng.usize(sats.len());
        match ctx.rng.below(12) {
            10 if sats.len() > 1 => {
                // two satellites asked for one time change places, and are asked again
                let j = (s + 1 + ctx.rng.usize(sats.len() - 1)) % sats.len();
                let k = ctx.rng.usize(times.len());
                let t = times[k];
                for i in [j, s] {
                    let rec = &mut sats[i].3;
                    let Some(_) = ctx.must(|| format!("t={t:?}"), || prop(rec, t)) else { return };
                }
                sats.swap(s, j);
                fresh.swap(s, j);
                clones.iter_mut().for_each(|(c, _)| if *c == s { *c = j } else if *c == j { *c = s });
                trail.push(format!("{j}@{t:?} {s}@{t:?} swap {s}<->{j}"));
                ctx.strat("records changed places");
                for i in [s, j] {
                    let rec = &mut sats[i].3;
                    let Some(r) = ctx.must(|| format!("t={t:?}"), || prop(rec, t)) else { return };
                    if !ctx.check(same(&r, &fresh[i][k]), || {
                        format!("answer {} after changing places but a fresh record gives {}; {}; history {}", show(&r), show(&fresh[i][k]), ctx_msg(&sats[i].0, sats[i].2, t), trail.join(" "))
                    }) {
                        return;
                    }
                }
            }
            11 => {
                // the variable gets a new record of another, or the same, satellite
                let (tle, el, afspc, rec, text) = &mut sats[s];
                let Some((q, _)) = ctx.must(|| tle.show(), || route(tle, el, *afspc, *text)) else { return };
                *rec = q;
                trail.push(format!("rebuild {s}"));
                ctx.strat("record rebuilt in place");
            }
            0 => {
                if clones.len() < 6 {
                    clones.push((s, sats[s].3.clone()));
                    trail.push(format!("clone {s}"));
                    ctx.strat("clone taken mid-history");
                }
            }
            1 => {
                // disturb with an unrelated time, possibly far away or failing
                let t = tsince(&mut ctx.rng).clamp(-3e6, 3e6);
                let rec = &mut sats[s].3;
                let Some(r) = ctx.must(|| format!("disturb t={t:?}"), || prop(rec, t)) else { return };
                if r.is_err() {
                    ctx.strat("failed call inside the history");
                }
                trail.push(format!("{s}@{t:?}"));
            }
            2 if !clones.is_empty() => {
                let c = ctx.rng.usize(clones.len());
                let k = ctx.rng.usize(times.len());
                let (si, rec) = &mut clones[c];
                let si = *si;
                let t = times[k];
                let Some(r) = ctx.must(|| format!("clone of {}", sats[si].0.show()), || prop(rec, t)) else { return };
                trail.push(format!("clone{c}@{t:?}"));
                ctx.strat("compared on a clone");
                if !ctx.check(same(&r, &fresh[si][k]), || {
                    format!("clone answers {} but a fresh record {}; {}; history {}", show(&r), show(&fresh[si][k]), ctx_msg(&sats[si].0, sats[si].2, t), trail.join(" "))
                }) {
                    return;
                }
            }
            _ => {
                let k = ctx.rng.usize(times.len());
                let t = times[k];
                let rec = &mut sats[s].3;
                let Some(r) = ctx.must(|| format!("t={t:?}"), || prop(rec, t)) else { return };
                trail.push(format!("{s}@{t:?}"));
                if t < last {
                    ctx.strat("backward step");
                } else if t > last {
                    ctx.strat("forward step");
                } else if t == last {
                    ctx.strat("repeated time");
                }
                last = t;
                let mut h = Hash::new();
                h.u64(sats[s].0.hash());
                h.f64(t);
                h.bytes(trail[trail.len().saturating_sub(3)..].join(" ").as_bytes());
                ctx.seen(h.get());
                if !ctx.check(same(&r, &fresh[s][k]), || {
                    format!("answer {} after a history but a fresh record gives {}; {}; history {}", show(&r), show(&fresh[s][k]), ctx_msg(&sats[s].0, sats[s].2, t), trail.join(" "))
                }) {
                    return;
                }
            }
        }
    }
    // an absolute anchor, so that "fresh" answers cannot all be stale in the same way
    for (si, (tle, el, afspc, ..)) in sats.iter().enumerate() {
        let rs = RefSet::new(el, *afspc);
        for (k, &t) in times.iter().enumerate() {
            let ex = rs.expect(t);
            if ex.stable && ex.tol_r < 1e-2 {
                compare(ctx, "fresh answer vs model", &fresh[si][k], &ex, &|| ctx_msg(tle, *afspc, t));
            }
        }
    }
    ctx.sample(|| format!("{} satellites, {} compared times, history: {}", sats.len(), times.len(), trail.iter().take(12).cloned().collect::<Vec<_>>().join(" ")));
    if ctx.idx % 64 == 0 {
        thread_case(ctx, &sats, &times, &fresh);
    }
}

fn short_t(ctx: &mut Ctx) -> f64 {
    let s = ctx.rng.sign();
    match ctx.rng.below(6) {
        0 => s * 720.0 * ctx.rng.range(0, 40) as f64,
        1 => s * ctx.rng.uni(0.0, 720.0),
        2 => s * ctx.rng.uni(0.0, 3000.0),
        3 => s * ctx.rng.uni(0.0, 20000.0),
        4 => s * ctx.rng.uni(0.0, 300000.0),
        _ => ctx.rng.range(-30, 30) as f64 * 60.0,
    }
}

/// The same records used from several threads at once: own clones through
/// `sgp4`, and one shared record through the datetime interface.
fn thread_case(ctx: &mut Ctx, sats: &[Sat], times: &[f64], fresh: &[Vec<Result<State, u32>>]) {
    use chrono::{Duration, TimeZone, Utc};
    ctx.strat("concurrent run");
    let base = Utc.with_ymd_and_hms(2010, 6, 1, 0, 0, 0).unwrap();
    let shared: Vec<Satrec> = sats.iter().map(|s| s.3.clone()).collect();
    let dts: Vec<_> = (0..8).map(|k| base + Duration::seconds(k * 86413)).collect();
    let Some(want_dt) = ctx.must(|| "propogate_datetime".into(), || {
        shared.iter().map(|r| dts.iter().map(|d| conv(satellite::propogation::propogate_datetime(r, *d))).collect::<Vec<_>>()).collect::<Vec<_>>()
    }) else { return };
    let barrier = std::sync::Barrier::new(4);
    let seeds: Vec<u64> = (0..4).map(|_| ctx.rng.u64()).collect();
    let results: Vec<Result<(u64, Option<String>), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|&sd| {
            let (shared, dts, want_dt, barrier) = (&shared, &dts, &want_dt, &barrier);
            sc.spawn(move || {
                let mut r = crate::rng::Rng::new(sd);
                let mut own: Vec<Satrec> = sats.iter().map(|s| s.3.clone()).collect();
                let mut n = 0u64;
                barrier.wait();
                for _ in 0..60 {
                    let s = r.usize(own.len());
                    if r.chance(0.6) {
                        let k = r.usize(times.len());
                        let got = prop(&mut own[s], times[k]);
                        if !same(&got, &fresh[s][k]) {
                            return (n, Some(format!("in a thread: {} but single-threaded {}; {}", show(&got), show(&fresh[s][k]), ctx_msg(&sats[s].0, sats[s].2, times[k]))));
                        }
                    } else {
                        let k = r.usize(dts.len());
                        let got = conv(satellite::propogation::propogate_datetime(&shared[s], dts[k]));
                        if !same(&got, &want_dt[s][k]) {
                            return (n, Some(format!("shared record in a thread: {} but single-threaded {}; {}", show(&got), show(&want_dt[s][k]), sats[s].0.show())));
                        }
                    }
                    n += 1;
                }
                (n, None)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "panic in a thread".to_string())).collect()
    });
    for r in results {
        match r {
            Ok((n, v)) => {
                for _ in 0..n {
                    ctx.check(true, String::new);
                }
                if let Some(m) = v {
                    ctx.check(false, || m);
                }
            }
            Err(m) => {
                ctx.check(false, || m);
            }
        }
    }
}

pub const C04: Check = Check {
    id: "C04",
    rule: "random call histories (20-80 calls) over 1-4 interleaved satellites (built from elements or from text; often two element sets of one object and epoch) with clones, records changing places or rebuilt in place, failed calls, forward/backward/repeated times and step boundaries; each answer is compared with the answer of a freshly initialised record and fresh answers with the reference model; every 64th history is also replayed from 4 threads on clones and on shared records; a case is (element set, time, last three operations)",
    cases: (30_000, 1_500_000),
    case: history_case,
    required: &[
        "24 h resonant", "12 h resonant", "near earth", "other deep space", "clone taken mid-history", "compared on a clone",
        "failed call inside the history", "backward step", "forward step", "repeated time", "concurrent run",
        "two element sets of one object and epoch", "record built from text", "records changed places", "record rebuilt in place",
    ],
    assumptions: &["answers equal to 0.1 mm / 0.1 um/s count as the same answer"],
};

// ---------------------------------------------------------------- C19

fn physical_case(ctx: &mut Ctx) {
    let mut tle = Tle::ordinary(&mut ctx.rng);
    if ctx.rng.chance(0.2) {
        tle.incl_e4 = ctx.rng.below(1800001);
    }
    tle.bstar = (ctx.rng.range(0, 10000), -2 - ctx.rng.range(0, 3) as i32); // <= 0.001
    if ctx.rng.chance(0.1) {
        tle.bstar.0 = -tle.bstar.0;
    }
    let el = tle.elements();
    let a = (398600.5 / (el.no / 60.0).powi(2)).cbrt();
    let (rp, ra) = (a * (1.0 - el.ecc), a * (1.0 + el.ecc));
    if rp < 6378.137 + 150.0 || el.ecc > 0.85 || a > 80000.0 || tle.incl_e4 > 1_750_000 {
        ctx.skip();
        return;
    }
    let (l1, l2) = tle.lines();
    let deep = 2.0 * std::f64::consts::PI / el.no >= 225.0;
    let Some(r) = ctx.must(|| tle.show(), || twoline2satrec(&l1, &l2)) else { return };
    let Ok(mut rec) = r else {
        ctx.skip(); // verdicts are C03's
        return;
    };
    ctx.strat(if deep { "deep space" } else { "near earth" });
    // drag bends the model's mean elements; far from epoch with strong drag the
    // polynomial drag model itself is not physical, so shorten those arcs
    let rs = RefSat::new(el, false, WGS84);
    let tmax = if tle.bstar_val().abs() > 2e-4 && rp < 6378.137 + 400.0 { 1440.0 } else { 14400.0 };
    for _ in 0..6 {
        let t = match ctx.rng.below(6) {
            0 => 0.0,
            1 => ctx.rng.sign() * 720.0 * ctx.rng.range(1, (tmax / 720.0) as i64) as f64,
            _ => ctx.rng.uni(-tmax, tmax),
        };
        if t == 0.0 {
            ctx.strat("at epoch");
        } else if t % 720.0 == 0.0 {
            ctx.strat("at a multiple of 720 min");
        }
        let h = 0.01; // minutes
        let mut st = vec![];
        for k in [-2.0, -1.0, 0.0, 1.0, 2.0] {
            let Some(g) = ctx.must(|| format!("{} t={t:?}", tle.show()), || prop(&mut rec, t + k * h)) else { return };
            match g {
                Ok(s) => st.push(s),
                Err(_) => break,
            }
        }
        if st.len() < 5 {
            ctx.skip();
            continue;
        }
        // The arc is only judged where the theory itself is smooth there (Lyddane's
        // modification and the drag polynomials have genuine kinks).
        let slack = 40.0 + if deep { 0.02 * ra } else { 0.0 } + drag_slack(&tle, t, rp);
        let h_s = h * 60.0;
        let deriv = |p: &dyn Fn(usize) -> [f64; 3]| -> [f64; 3] {
            let mut d = [0.0; 3];
            for j in 0..3 {
                d[j] = (p(0)[j] - 8.0 * p(1)[j] + 8.0 * p(3)[j] - p(4)[j]) / (12.0 * h_s);
            }
            d
        };
        // |second difference| and |gravity| at an inner point of the stencil
        let accel = |p: &dyn Fn(usize) -> [f64; 3], k: usize| -> (f64, f64) {
            let acc = (0..3).map(|j| (p(k + 1)[j] - 2.0 * p(k)[j] + p(k - 1)[j]).powi(2)).sum::<f64>().sqrt() / (h_s * h_s);
            (acc, 398600.5 / norm(&p(k)).powi(2))
        };
        let smooth = |q: &RefSat| -> bool {
            let f: Vec<Out> = [-2.0, -1.0, 0.0, 1.0, 2.0].iter().map(|k| q.at(t + k * h)).collect();
            let m = (1u64 << flag::LYD) | (1 << flag::DIRECT) | (1 << flag::NEGI) | (1 << flag::EMFLOOR);
            if !f.iter().all(|o| o.kepler_ok && o.res.is_ok() && o.flags & m == f[0].flags & m) {
                return false;
            }
            let q: Vec<State> = f.into_iter().filter_map(|o| o.res.ok()).collect();
            let p = |k: usize| q[k].r;
            let rr = norm(&q[2].r);
            dist(&deriv(&p), &q[2].v) < 0.004 * norm(&q[2].v)
                && (1..4).all(|k| {
                    let (acc, g) = accel(&p, k);
                    (acc - g).abs() < 0.015 * g + 1.5e-6
                })
                && rr > rp - 0.8 * slack
                && rr < ra + 0.8 * slack
        };
        if !smooth(&rs) {
            ctx.skip();
            continue;
        }
        ctx.seen(case_hash(&tle, t, false));
        let s = &st[2];
        let sp = norm(&s.v);
        let p = |k: usize| st[k].r;
        let dv = dist(&s.v, &deriv(&p));
        let msg = |what: &str| format!("{what}; {} t={t:?}", tle.show());
        ctx.close("velocity vs derivative", dv / sp, 0.0, 0.005, || msg("velocity is not the derivative of position"));
        // continuity: the second differences are gravity everywhere on the stencil
        for k in 1..4 {
            let (acc, g) = accel(&p, k);
            ctx.close("acceleration vs gravity", acc, g, 0.02 * g + 2e-6, || msg("the track has a jump or kink"));
        }
        // radius band
        let rr = norm(&s.r);
        ctx.check(rr > rp - slack && rr < ra + slack, || msg(&format!("radius {rr} outside perigee-apogee band {rp}..{ra} (slack {slack})")));
        // orbital plane
        if !deep {
            let hv = [s.r[1] * s.v[2] - s.r[2] * s.v[1], s.r[2] * s.v[0] - s.r[0] * s.v[2], s.r[0] * s.v[1] - s.r[1] * s.v[0]];
            let inc = (hv[2] / norm(&hv)).acos();
            ctx.close("inclination", inc.to_degrees(), el.incl.to_degrees(), 2.0, || msg("orbital plane does not have the element's inclination"));
            // rotating the node rotates the track
            let mut t2 = tle.clone();
            let dn = 1 + ctx.rng.below(3_599_999);
            t2.node_e4 = (tle.node_e4 + dn) % 3_600_000;
            let (a1, a2) = t2.lines();
            let Some(r2) = ctx.must(|| t2.show(), || twoline2satrec(&a1, &a2).map(|mut q| prop(&mut q, t))) else { return };
            ctx.strat("node rotation");
            match r2 {
                Ok(Ok(s2)) => {
                    let w = dn as f64 / 1e4 / 180.0 * std::f64::consts::PI;
                    let rot = |v: &[f64; 3]| [v[0] * w.cos() - v[1] * w.sin(), v[0] * w.sin() + v[1] * w.cos(), v[2]];
                    let d = dist(&rot(&s.r), &s2.r);
                    ctx.close("node rotation", d, 0.0, 1e-4, || msg(&format!("track not rotated with the node: {}", t2.show())));
                    let d = dist(&rot(&s.v), &s2.v);
                    ctx.close("node rotation (velocity)", d, 0.0, 1e-7, || msg(&format!("track not rotated with the node: {}", t2.show())));
                }
                other => {
                    // near the 180-degree singularity rounding may flip the decay verdict
                    let bad = !matches!(other, Ok(Err(6)));
                    ctx.check(!bad, || msg("rotated element set refused"));
                }
            }
        }
        ctx.sample(|| format!("{} t={t:.3} speed={sp:.4} km/s radius={rr:.2} km", tle.show()));
        if ctx.failed() {
            return;
        }
    }
}

/// A whole arc sampled finely enough that its sixth differences vanish unless it jumps.
fn arc_case(ctx: &mut Ctx) {
    let mut tle = Tle::ordinary(&mut ctx.rng);
    match ctx.rng.below(4) {
        0 => {
            // slow node of a low deep-space orbit near the ends of the half circles
            tle.incl_e4 = 1 + ctx.rng.below(114_000);
            tle.no_e8 = ctx.rng.below(500_000_000) + 120_000_000;
            tle.ecc_e7 = ctx.rng.below(3_000_000);
            tle.node_e4 = *ctx.rng.pick(&[0u64, 900_000, 1_800_000, 2_700_000]) + ctx.rng.below(10_000);
            if ctx.rng.chance(0.5) {
                tle.node_e4 = (tle.node_e4 + 3_600_000 - 10_000) % 3_600_000;
            }
            ctx.strat("arc: node near a quadrant");
        }
        1 => tle.incl_e4 = ctx.rng.below(250_000),
        2 => tle.incl_e4 = ctx.rng.below(1_750_001),
        _ => {}
    }
    tle.bstar = (ctx.rng.range(0, 10000), -2 - ctx.rng.range(0, 3) as i32);
    let el = tle.elements();
    let a = (398600.5 / (el.no / 60.0).powi(2)).cbrt();
    let rp = a * (1.0 - el.ecc);
    if rp < 6378.137 + 150.0 || el.ecc > 0.85 || a > 80000.0 || tle.incl_e4 > 1_750_000 {
        ctx.skip();
        return;
    }
    let (l1, l2) = tle.lines();
    let Some(r) = ctx.must(|| tle.show(), || twoline2satrec(&l1, &l2)) else { return };
    let Ok(mut rec) = r else {
        ctx.skip(); // verdicts are C03's
        return;
    };
    let rs = RefSat::new(el, false, WGS84);
    let tmax = if tle.bstar_val().abs() > 2e-4 && rp < 6378.137 + 400.0 { 1440.0 } else { 14400.0 };
    // a tenth of a radian per step at perigee, where the motion is fastest
    let dt = 0.1 * (1.0 - el.ecc).powi(2) / (el.no * (1.0 - el.ecc * el.ecc).sqrt());
    let n = ((2.0 * tmax / dt) as usize).min(1500);
    let t0 = -tmax + ctx.rng.uni(0.0, 1.0) * (2.0 * tmax - n as f64 * dt).max(0.0);
    const W: [f64; 7] = [1.0, -6.0, 15.0, -20.0, 15.0, -6.0, 1.0];
    const M: u64 = (1u64 << flag::LYD) | (1 << flag::DIRECT) | (1 << flag::NEGI) | (1 << flag::EMFLOOR);
    let rough = |w: &[[f64; 3]]| (0..3).map(|j| (0..7).map(|k| W[k] * w[k][j]).sum::<f64>().powi(2)).sum::<f64>().sqrt();
    let (mut got, mut want, mut fl) = (vec![], vec![], vec![]);
    for i in 0..n {
        let t = t0 + i as f64 * dt;
        let Some(g) = ctx.must(|| format!("{} t={t:?}", tle.show()), || prop(&mut rec, t)) else { return };
        let o = rs.at(t);
        match (g, o.res) {
            (Ok(s), Ok(q)) if o.kepler_ok => {
                got.push(s.r);
                want.push(q.r);
                fl.push(o.flags & M);
            }
            _ => {
                got.clear();
                want.clear();
                fl.clear();
                continue;
            }
        }
        let m = got.len();
        if m < 7 {
            continue;
        }
        if !fl[m - 7..].iter().all(|f| *f == fl[m - 1]) || rough(&want[m - 7..]) > 0.5 {
            continue; // the theory itself is not smooth here
        }
        if i % 50 == 0 {
            ctx.seen(case_hash(&tle, t, false));
        }
        let d = rough(&got[m - 7..]);
        if !ctx.close("smoothness of an arc", d, 0.0, 1.0, || format!("the track jumps within {:?} minutes before t={t:?}; {}", 6.0 * dt, tle.show())) {
            return;
        }
    }
    ctx.strat("arc followed");
}

fn motion_case(ctx: &mut Ctx) {
    if ctx.rng.chance(0.12) {
        arc_case(ctx)
    } else {
        physical_case(ctx)
    }
}

/// How far drag may move the radius, generously.
fn drag_slack(tle: &Tle, t: f64, rp: f64) -> f64 {
    let alt = (rp - 6378.137).max(100.0);
    let dens = (-(alt - 150.0) / 60.0).exp().max(1e-4);
    tle.bstar_val().abs() * t.abs() * dens * 400.0 + 0.01 * t.abs() / 1440.0
}

pub const C19: Check = Check {
    id: "C19",
    rule: "ordinary element sets (perigee above 150 km, inclination up to 175 degrees, |drag| <= 0.001), offsets within ten days including epoch and multiples of 720 min; on a 5-point stencil around each the monitors check velocity = derivative of position, acceleration = gravity (no jump or kink), radius within the perigee-apogee band, plane inclination, and rotation of the track with the node; one case in eight follows a whole arc (up to 1500 samples, a tenth of a radian apart at perigee) and requires its sixth differences to stay below 1 km wherever those of the theory stay below 0.5 km; independent of the reference model except to leave out points where the theory itself is not smooth; a case is (element set, t)",
    cases: (150_000, 8_000_000),
    case: motion_case,
    required: &["near earth", "deep space", "at epoch", "at a multiple of 720 min", "node rotation", "arc: node near a quadrant", "arc followed"],
    assumptions: &["tolerances: 0.5 % of speed, 2 % of gravity, 2 degrees of inclination, 40 km + 2 % (deep) + drag on radius"],
};

// ---------------------------------------------------------------- C20

/// A blank record holds nothing.
fn blank_record(ctx: &mut Ctx) {
    let Some(z) = ctx.must(|| "Satrec::zero()".to_string(), Satrec::zero) else { return };
    let nums = [z.epochdays, z.ndot, z.nddot, z.bstar, z.inclo, z.nodeo, z.ecco, z.mo, z.no, z.a, z.argpo, z.alta, z.altp, z.jdsatepoch, z.aycof, z.con41, z.cc1, z.cc4, z.cc5, z.d2, z.d3, z.d4, z.delmo, z.eta, z.argpdot, z.omgcof, z.sinmao, z.t, z.t2cof, z.t3cof, z.t4cof, z.t5cof, z.x1mth2, z.x7thm1, z.mdot, z.nodedot, z.xlcof, z.xmcof, z.nodecf, z.irez, z.d2201, z.d2211, z.d3210, z.d3222, z.d4410, z.d4422, z.d5220, z.d5232, z.d5421, z.d5433, z.dedt, z.del1, z.del2, z.del3, z.didt, z.dmdt, z.dnodt, z.domdt, z.e3, z.ee2, z.peo, z.pgho, z.pho, z.pinco, z.plo, z.se2, z.se3, z.sgh2, z.sgh3, z.sgh4, z.sh2, z.sh3, z.si2, z.si3, z.sl2, z.sl3, z.sl4, z.gsto, z.xfact, z.xgh2, z.xgh3, z.xgh4, z.xh2, z.xh3, z.xi2, z.xi3, z.xl2, z.xl3, z.xl4, z.xlamo, z.zmol, z.zmos, z.atime, z.xli, z.xni];
    ctx.check(nums.iter().all(|x| *x == 0.0), || format!("a blank record holds a non-zero number (position {:?})", nums.iter().position(|x| *x != 0.0)));
    ctx.check(z.name.is_none() && z.satnum.is_empty() && z.error == 0 && z.epochyr == 0 && z.isimp == 0, || "a blank record has a name, a number, an error or a flag".into());
}

fn reinit_case(ctx: &mut Ctx) {
    if ctx.idx % 64 == 0 {
        blank_record(ctx);
    }
    let tle_a = Tle::any(&mut ctx.rng);
    let tle_b = if ctx.rng.chance(0.7) { Tle::any(&mut ctx.rng) } else { Tle::ordinary(&mut ctx.rng) };
    let (ea, eb) = (tle_a.elements(), tle_b.elements());
    let (ma, mb) = (ctx.rng.chance(0.4), ctx.rng.chance(0.4));
    let times: Vec<f64> = (0..5).map(|_| tsince(&mut ctx.rng).clamp(-1e6, 1e6)).collect();
    // previous life of the record
    let kind = ctx.rng.below(5);
    let (a1, a2) = tle_a.lines();
    let t0 = tsince(&mut ctx.rng).clamp(-1e6, 1e6);
    let Some(prev) = ctx.must(|| format!("building {}", tle_a.show()), || match kind {
        0 => Some(Satrec::zero()),
        1 => twoline2satrec(&a1, &a2).ok(),
        2 => twoline2satrec(&a1, &a2).ok().map(|mut r| {
            let _ = prop(&mut r, t0);
            r
        }),
        3 => {
            let (mut r, _) = build_init(&ea, ma);
            let _ = prop(&mut r, t0);
            Some(r)
        }
        _ => satellite::io::parse_satrec(&a1, &a2).ok(),
    }) else { return };
    let Some(mut used) = prev else {
        ctx.skip();
        return;
    };
    ctx.strat(["blank record", "record parsed from text", "record parsed and propagated", "record initialised and propagated", "record decoded only"][kind as usize]);
    used.jdsatepoch = eb.jd_epoch;
    let Some((mut fresh, rf)) = ctx.must(|| tle_b.show(), || build_init(&eb, mb)) else { return };
    let Some(ru) = ctx.must(|| tle_b.show(), || sgp4init(&mut used, init_options(&eb, mb, "12345"))) else { return };
    let (rf, ru) = (conv(rf), conv(ru));
    if rf.is_err() {
        ctx.strat("new elements refused at epoch");
    } else {
        ctx.strat("new elements accepted");
    }
    let desc = || format!("previous content kind {kind}: {} | new: {} mode={}", tle_a.show(), tle_b.show(), mb);
    ctx.check(same(&rf, &ru), || format!("initial prediction {} on a used record, {} on a fresh one; {}", show(&ru), show(&rf), desc()));
    // what both report of the satellite
    let reports = |r: &Satrec| {
        let n = [r.bstar, r.ecco, r.inclo, r.nodeo, r.argpo, r.mo, r.no, r.gsto, r.mdot, r.argpdot, r.nodedot, r.irez, r.t, r.error as f64];
        (n.map(|x| if x.is_nan() { u64::MAX } else { (x + 0.0).to_bits() }), r.method == InitlMethod::D, r.operationmode == DpperOpsMode::A)
    };
    ctx.check(reports(&fresh) == reports(&used), || format!("a used record reports its elements, rates, class, mode or verdict otherwise than a fresh one: {:?} {:?}; {}", reports(&used), reports(&fresh), desc()));
    let mut h = Hash::new();
    h.u64(tle_a.hash());
    h.u64(tle_b.hash());
    h.u64(kind);
    ctx.seen(h.get());
    let rs = RefSet::new(&eb, mb);
    for &t in &times {
        let Some(x) = ctx.must(|| desc(), || prop(&mut fresh, t)) else { return };
        let Some(y) = ctx.must(|| desc(), || prop(&mut used, t)) else { return };
        if !ctx.check(same(&x, &y), || format!("t={t:?}: {} on a re-initialised record, {} on a fresh one; {}", show(&y), show(&x), desc())) {
            return;
        }
        let ex = rs.expect(t);
        if ex.stable && ex.tol_r < 1e-2 {
            compare(ctx, "vs model", &y, &ex, &|| desc());
        }
    }
    // text route == element route
    let (b1, b2) = tle_b.lines();
    let Some(tx) = ctx.must(|| tle_b.show(), || twoline2satrec(&b1, &b2)) else { return };
    match tx {
        Ok(mut rec) => {
            let Some(dec) = ctx.must(|| tle_b.show(), || satellite::io::parse_satrec(&b1, &b2)) else { return };
            let Ok(dec) = dec else {
                ctx.check(false, || format!("parse_satrec refuses what twoline2satrec accepts: {}", tle_b.show()));
                return;
            };
            let e2 = Elements { jd_epoch: dec.jdsatepoch, bstar: dec.bstar, ecc: dec.ecco, incl: dec.inclo, node: dec.nodeo, argp: dec.argpo, ma: dec.mo, no: dec.no };
            let Some((mut q, _)) = ctx.must(|| tle_b.show(), || build_init(&e2, false)) else { return };
            ctx.strat("text route compared with element route");
            for &t in &times {
                let Some(x) = ctx.must(|| desc(), || prop(&mut rec, t)) else { return };
                let Some(y) = ctx.must(|| desc(), || prop(&mut q, t)) else { return };
                if !ctx.check(same(&x, &y), || format!("t={t:?}: text route {} element route {}; {}", show(&x), show(&y), tle_b.show())) {
                    return;
                }
            }
        }
        Err(SatrecParseError::Sgp4InitError(e)) => {
            let ex0 = rs.base.at(0.0);
            if !mb && ex0.margin > 1e-8 {
                ctx.check(rf.as_ref().err() == Some(&(e.code() as u32)), || format!("text route refuses with {}, element route gives {}; {}", e.code(), show(&rf), tle_b.show()));
            }
        }
        Err(e) => {
            ctx.check(false, || format!("well-formed element set refused: {e:?}; {}", tle_b.show()));
        }
    }
    ctx.sample(desc);
}

pub const C20: Check = Check {
    id: "C20",
    rule: "pairs (previous content of a record: blank, parsed, propagated, initialised in either mode, decoded only; new elements and mode); initial prediction and five later ones compared between the re-initialised and a fresh record, with the reference model, and between the text and the element route; a case is (previous elements, kind, new elements)",
    cases: (200_000, 10_000_000),
    case: reinit_case,
    required: &[
        "blank record", "record parsed from text", "record parsed and propagated", "record initialised and propagated", "record decoded only",
        "new elements refused at epoch", "new elements accepted", "text route compared with element route",
    ],
    assumptions: &["answers equal to 0.1 mm / 0.1 um/s count as the same answer"],
};

#[allow(dead_code)]
fn _unused(_: Tier) {}
