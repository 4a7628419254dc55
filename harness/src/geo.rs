//! Checks of the frame, geodetic, look-angle, Doppler and unit functions: C14-C18.

use crate::fw::{Check, Ctx};
use crate::oracle::{dist, norm};
use crate::rng::{Hash, Rng};
use satellite::transforms as tr;
use satellite::{Bearing, Geodedic, TopoCentric, Vec3};
use std::f64::consts::{FRAC_PI_2, PI};

pub type V = [f64; 3];

pub fn vec3(v: &V) -> Vec3 {
    Vec3 { x: v[0], y: v[1], z: v[2] }
}
pub fn arr(v: &Vec3) -> V {
    [v.x, v.y, v.z]
}
pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
/// rotate about the polar axis by +angle
pub fn rotz(v: &V, a: f64) -> V {
    let (s, c) = a.sin_cos();
    [v[0] * c - v[1] * s, v[0] * s + v[1] * c, v[2]]
}

fn hash(v: &[f64]) -> u64 {
    let mut h = Hash::new();
    for x in v {
        h.f64(*x);
    }
    h.get()
}

// WGS-84
pub const A: f64 = 6378.137;
pub const B: f64 = 6356.7523142;

/// Earth-fixed position of a geodetic point: foot point on the ellipsoid from
/// the parametric (not the reference's prime-vertical) form, plus height along
/// the normal.
pub fn geo_to_ecf(lat: f64, lon: f64, h: f64) -> V {
    let (sp, cp) = lat.sin_cos();
    let (sl, cl) = lon.sin_cos();
    let w = (A * A * cp * cp + B * B * sp * sp).sqrt();
    let rho = A * A * cp / w + h * cp;
    let z = B * B * sp / w + h * sp;
    [rho * cl, rho * sl, z]
}

/// local axes (south, east, up)
pub fn axes(lat: f64, lon: f64) -> (V, V, V) {
    let (sp, cp) = lat.sin_cos();
    let (sl, cl) = lon.sin_cos();
    ([sp * cl, sp * sl, -cp], [-sl, cl, 0.0], [cp * cl, cp * sl, sp])
}

fn magnitude(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 if r.chance(0.2) => r.log(1e-140, 1e140),
        0 => r.log(1e-6, 1e9),
        1 => r.log(1e3, 1e9),
        2 => 0.0,
        3 => 42164.17,
        _ => r.uni(6000.0, 50000.0),
    }
}

fn direction(r: &mut Rng) -> V {
    match r.below(8) {
        0 => *r.pick(&[[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]]),
        1 => {
            let a = r.uni(-PI, PI);
            [a.cos(), a.sin(), 0.0]
        }
        _ => r.dir(),
    }
}

pub fn angle(r: &mut Rng, max: f64) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, PI, -PI, FRAC_PI_2, -FRAC_PI_2, 2.0 * PI, -2.0 * PI, 1.5 * PI, 3.0 * PI, PI / 4.0]),
        1 => r.uni(-max, max),
        2 => r.sign() * r.log(1e-9, max),
        _ => r.uni(0.0, 2.0 * PI),
    }
}

fn scaled(d: &V, m: f64) -> V {
    [d[0] * m, d[1] * m, d[2] * m]
}

// ---------------------------------------------------------------- C14

fn rotation_case(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let m = magnitude(r);
    let d = direction(r);
    let v = scaled(&d, m);
    let g = angle(r, 1e4);
    let (d2, m2) = (direction(r), magnitude(r));
    let w = scaled(&d2, m2);
    let g2 = angle(r, 1e4);
    ctx.strat(if g == 0.0 { "zero angle" } else if g < 0.0 { "negative angle" } else if g > 2.0 * PI { "more than one turn" } else { "within a turn" });
    if m != 0.0 && !(1e-6..1e9).contains(&m) {
        ctx.strat("out of scale");
    }
    if d[2] == 0.0 {
        ctx.strat("equatorial vector");
    }
    if d[2].abs() == 1.0 {
        ctx.strat("polar vector");
    }
    ctx.seen(hash(&[v[0], v[1], v[2], g]));
    let msg = || format!("vector {v:?} angle {g:?}");
    // whole turns may be taken off first
    let turns = (g.abs() + g2.abs()) * 2.3e-16;
    let tol = m * (2e-14 + turns) + 1e-300;
    let Some((ecf, eci)) = ctx.must(msg, || (arr(&tr::eci_to_ecf(&vec3(&v), g)), arr(&tr::ecf_to_eci(&vec3(&v), g)))) else { return };
    let (we, wi) = (rotz(&v, -g), rotz(&v, g));
    for k in 0..3 {
        ctx.close("eci_to_ecf", ecf[k], we[k], tol, msg);
        ctx.close("ecf_to_eci", eci[k], wi[k], tol, msg);
    }
    ctx.check(ecf[2] == v[2] && eci[2] == v[2], || format!("polar component changed: {ecf:?} {eci:?}; {}", msg()));
    ctx.close("length kept", norm(&ecf), m, tol, msg);
    ctx.close("length kept (inverse)", norm(&eci), m, tol, msg);
    let Some((b1, b2)) = ctx.must(msg, || (arr(&tr::ecf_to_eci(&vec3(&ecf), g)), arr(&tr::eci_to_ecf(&vec3(&eci), g)))) else { return };
    ctx.close("there and back", dist(&b1, &v), 0.0, 3.0 * tol, msg);
    ctx.close("back and there", dist(&b2, &v), 0.0, 3.0 * tol, msg);
    // distances between two bodies
    let Some((w1, w2)) = ctx.must(msg, || (arr(&tr::eci_to_ecf(&vec3(&w), g)), arr(&tr::ecf_to_eci(&vec3(&w), g)))) else { return };
    let tol2 = (m + m2) * (4e-14 + 2.0 * turns) + 1e-300;
    ctx.close("distances kept", dist(&w1, &ecf), dist(&v, &w), tol2, msg);
    ctx.close("distances kept (inverse)", dist(&w2, &eci), dist(&v, &w), tol2, msg);
    // a point of the rotating Earth keeps its coordinates, whatever the two instants
    let Some(q) = ctx.must(msg, || {
        let a = tr::eci_to_ecf(&tr::ecf_to_eci(&vec3(&v), g), g);
        let b = tr::eci_to_ecf(&tr::ecf_to_eci(&vec3(&v), g2), g2);
        (arr(&a), arr(&b))
    }) else { return };
    ctx.close("fixed point", dist(&q.0, &q.1), 0.0, 6.0 * tol, msg);
    // two rotations compose
    let Some(c) = ctx.must(msg, || arr(&tr::eci_to_ecf(&tr::eci_to_ecf(&vec3(&v), g), g2))) else { return };
    let want = rotz(&rotz(&v, -g), -g2);
    ctx.close("composition", dist(&c, &want), 0.0, 4.0 * tol, msg);
    ctx.sample(|| format!("{} -> {ecf:?}", msg()));
}

pub const C14: Check = Check {
    id: "C14",
    rule: "vectors of length 0 and 1e-6..1e9 km, now and then 1e-140..1e140 (axis-aligned, equatorial, polar, uniform) and angles up to +-1e4 rad incl. exact multiples of a quarter turn: both conversions against a rotation about the polar axis, plus inverse, length, distance, fixed-point and composition relations; a case is (vector, angle)",
    cases: (4_000_000, 200_000_000),
    case: rotation_case,
    required: &["zero angle", "negative angle", "more than one turn", "within a turn", "equatorial vector", "polar vector", "out of scale"],
    assumptions: &["relative error up to 2e-14, and an ulp of the angle, is rounding"],
};

// ---------------------------------------------------------------- C15

pub fn latitude(r: &mut Rng) -> f64 {
    match r.below(9) {
        0 => *r.pick(&[0.0, FRAC_PI_2, -FRAC_PI_2, PI / 4.0, -PI / 4.0]),
        1 => r.sign() * (FRAC_PI_2 - r.log(1e-12, 1e-2)),
        2 => r.sign() * r.log(1e-12, 1e-2),
        _ => r.uni(-1.0, 1.0).asin(),
    }
}

pub fn longitude(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, PI, -PI, FRAC_PI_2, -FRAC_PI_2]),
        1 => r.sign() * (PI - r.log(1e-12, 1e-2)),
        _ => r.uni(-PI, PI),
    }
}

/// A longitude, sometimes written as another turn of the same (0..2 pi and the like).
fn turned(r: &mut Rng) -> f64 {
    let lon = longitude(r);
    if r.chance(0.05) { lon + 2.0 * PI * r.range(-2, 2) as f64 } else { lon }
}

fn height(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => *r.pick(&[0.0, -100.0, 1e6, 0.37, 8.8]),
        1 => r.uni(-100.0, 0.0),
        2 => r.log(1e-6, 10.0),
        3 => r.log(1000.0, 1e6),
        4 => r.uni(35000.0, 36500.0),
        _ => r.uni(0.0, 2000.0),
    }
}

/// Same angle modulo a turn.
pub fn turn_diff(a: f64, b: f64) -> f64 {
    let d = (a - b) % (2.0 * PI);
    let d = d.abs();
    d.min(2.0 * PI - d)
}

fn geodetic_case(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (lat, lon, h) = (latitude(r), turned(r), height(r));
    if lon.abs() > PI {
        ctx.strat("longitude past half a turn");
    }
    let r = &mut ctx.rng;
    let g = angle(r, 100.0).clamp(-100.0, 100.0);
    if FRAC_PI_2 - lat.abs() < 1e-9 {
        ctx.strat(if lat > 0.0 { "north pole" } else { "south pole" });
    } else if lat == 0.0 {
        ctx.strat("equator");
    }
    if PI - lon.abs() < 1e-3 {
        ctx.strat("date line");
    }
    if h < 0.0 {
        ctx.strat("below the ellipsoid");
    }
    if h > 1e5 {
        ctx.strat("beyond 100000 km");
    }
    if g.abs() > 2.0 * PI {
        ctx.strat("sidereal angle of several turns");
    }
    if g < 0.0 {
        ctx.strat("negative sidereal angle");
    }
    let want = geo_to_ecf(lat, lon, h);
    let msg = || format!("latitude {lat:?} longitude {lon:?} height {h:?} sidereal angle {g:?}");
    ctx.seen(hash(&[lat, lon, h, g]));
    let rr = norm(&want);
    let Some(ecf) = ctx.must(msg, || arr(&tr::geodedic_to_ecf(&Geodedic { latitude: lat, longitude: lon, height: h }))) else { return };
    ctx.close("geodedic_to_ecf (km)", dist(&ecf, &want), 0.0, 1e-7 * (1.0 + rr / 1e4), msg);
    // and the other way
    let eci = rotz(&want, g);
    let Some(gd) = ctx.must(msg, || tr::eci_to_geodedic(&vec3(&eci), g)) else { return };
    let (glat, glon, gh) = (gd.latitude, gd.longitude, gd.height);
    let tol = 1e-6 * (1.0 + rr / 1e4);
    ctx.check(glat.abs() <= FRAC_PI_2 + 1e-12 && glon.abs() <= PI + 1e-9 && gh.is_finite(), || format!("out of range: latitude {glat:?} longitude {glon:?} height {gh:?}; {}", msg()));
    let back = geo_to_ecf(glat, glon, gh);
    ctx.close("eci_to_geodedic maps back (km)", dist(&back, &want), 0.0, tol, || format!("got latitude {glat:?} longitude {glon:?} height {gh:?}; {}", msg()));
    ctx.close("latitude", glat, lat, 2e-10, msg);
    ctx.close("height (km)", gh, h, tol, msg);
    if lat.cos() > 1e-6 {
        ctx.close("longitude", turn_diff(glon, lon), 0.0, 2e-10 / lat.cos() * (1.0 + rr / 1e4), msg);
    }
    // an arbitrary position, not built from geodetic coordinates
    let (d, m) = (direction(&mut ctx.rng), ctx.rng.uni(6300.0, 60000.0));
    let p = scaled(&d, m);
    let msg = || format!("inertial position {p:?} sidereal angle {g:?}");
    let Some(gd) = ctx.must(msg, || tr::eci_to_geodedic(&vec3(&p), g)) else { return };
    let back = rotz(&geo_to_ecf(gd.latitude, gd.longitude, gd.height), g);
    ctx.check(gd.latitude.abs() <= FRAC_PI_2 + 1e-12 && gd.longitude.abs() <= PI + 1e-9, || format!("out of range: {gd:?}; {}", msg()));
    ctx.close("eci_to_geodedic maps back (km)", dist(&back, &p), 0.0, 1e-6 * (1.0 + m / 1e4), || format!("got {gd:?}; {}", msg()));
    // the crate's own functions compose to the identity
    let Some(own) = ctx.must(msg, || arr(&tr::ecf_to_eci(&tr::geodedic_to_ecf(&tr::eci_to_geodedic(&vec3(&p), g)), g))) else { return };
    ctx.close("own round trip (km)", dist(&own, &p), 0.0, 1e-6 * (1.0 + m / 1e4), msg);
    ctx.sample(|| format!("{} -> {gd:?}", msg()));
}

pub const C15: Check = Check {
    id: "C15",
    rule: "geodetic points (poles, equator, date line and their neighbourhoods, uniform elsewhere; heights -100..1e6 km) and arbitrary positions, under sidereal angles up to +-100 rad: both conversions against the WGS-84 ellipsoid in parametric form, ranges and round trips; a case is (point, angle)",
    cases: (3_000_000, 200_000_000),
    case: geodetic_case,
    required: &["north pole", "south pole", "equator", "date line", "below the ellipsoid", "beyond 100000 km", "sidereal angle of several turns", "negative sidereal angle", "longitude past half a turn"],
    assumptions: &["WGS-84: semi-axes 6378.137 and 6356.7523142 km"],
};

// ---------------------------------------------------------------- C16

/// Judge a bearing against a local vector (south, east, up).
pub fn judge_bearing(ctx: &mut Ctx, b: &Bearing, l: &V, slack: f64, msg: &dyn Fn() -> String) {
    let rho = norm(l);
    let hor = l[0].hypot(l[1]);
    ctx.close("range (km)", b.range, rho, slack + rho * 1e-13, msg);
    ctx.check(b.elevation.abs() <= FRAC_PI_2 && b.azimuth >= -1e-12 && b.azimuth <= 2.0 * PI + 1e-12, || {
        format!("angles out of range: azimuth {:?} elevation {:?}; {}", b.azimuth, b.elevation, msg())
    });
    let want_el = l[2].atan2(hor);
    // asin loses half the digits at the zenith
    let cond = (rho / hor.max(rho * 1e-9)).min(1e9);
    let tol_el = (slack / rho) * 4.0 + 1e-15 * cond.min(3e7) + 1e-14;
    ctx.close("elevation (rad)", b.elevation, want_el, tol_el.max(if cond > 1e6 { 5e-8 } else { 0.0 }), msg);
    if hor > rho * 1e-9 && hor > slack * 100.0 {
        let want_az = l[1].atan2(-l[0]); // east over north
        ctx.close("azimuth (rad)", turn_diff(b.azimuth, want_az), 0.0, 4.0 * slack / hor + 1e-13, msg);
    } else {
        ctx.strat("zenith or nadir");
    }
    // the three numbers together give the vector back
    let (ce, se) = (b.elevation.cos(), b.elevation.sin());
    let q = [-b.range * ce * b.azimuth.cos(), b.range * ce * b.azimuth.sin(), b.range * se];
    if hor > rho * 1e-9 && hor > slack * 100.0 {
        ctx.close("reconstructed vector (km)", dist(&q, l), 0.0, 10.0 * slack + rho * (tol_el.max(if cond > 1e6 { 5e-8 } else { 0.0 }) + 1e-12), msg);
    }
}

fn quadrant(az: f64) -> &'static str {
    match ((az / FRAC_PI_2).rem_euclid(4.0)) as u32 {
        0 => "north-east",
        1 => "south-east",
        2 => "south-west",
        _ => "north-west",
    }
}

fn look_case(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let (lat, lon) = (latitude(r), turned(r));
    let h = match r.below(5) {
        0 => 0.0,
        1 => r.uni(-0.5, 9.0),
        2 => r.uni(0.0, 500.0),
        3 if r.chance(0.3) => if r.chance(0.5) { -r.log(0.5, 100.0) } else { r.log(500.0, 1e6) },
        _ => r.uni(0.0, 3.0),
    };
    let obs = geo_to_ecf(lat, lon, h);
    let (s, e, u) = axes(lat, lon);
    // the satellite: anywhere, or at a chosen bearing
    let sat: V = match r.below(4) {
        0 => {
            let far = if r.chance(0.8) { 1e6 } else { 1e10 };
            let m = r.log(6300.0, far);
            scaled(&r.dir(), m)
        }
        1 => {
            let m = r.log(0.1, 50000.0);
            let az = *r.pick(&[0.0, FRAC_PI_2, PI, 1.5 * PI]);
            let el: f64 = if r.chance(0.5) { 0.0 } else { r.uni(-1.5, 1.5) };
            let (n, ea, up) = (el.cos() * f64::cos(az) * m, el.cos() * f64::sin(az) * m, el.sin() * m);
            [0, 1, 2].map(|k| obs[k] - s[k] * n + e[k] * ea + u[k] * up)
        }
        2 => {
            let m = r.sign() * r.log(0.1, 1e5);
            [0, 1, 2].map(|k| obs[k] + u[k] * m)
        }
        _ => {
            let close = if r.chance(0.8) { 1.0 } else { 1e-6 };
            let m = r.log(close, 50000.0);
            let d = r.dir();
            [0, 1, 2].map(|k| obs[k] + d[k] * m)
        }
    };
    let d = sub(&sat, &obs);
    let rho = norm(&d);
    if rho < 1e-7 {
        ctx.skip();
        return;
    }
    let l = [dot(&d, &s), dot(&d, &e), dot(&d, &u)];
    if FRAC_PI_2 - lat.abs() < 1e-9 {
        ctx.strat("observer at a pole");
    }
    if PI - lon.abs() < 1e-3 {
        ctx.strat("observer at the date line");
    }
    ctx.strat(if l[2] > 0.0 { "above the horizon" } else { "below the horizon" });
    ctx.strat(quadrant(l[1].atan2(-l[0])));
    ctx.seen(hash(&[lat, lon, h, sat[0], sat[1], sat[2]]));
    let msg = || format!("observer lat {lat:?} lon {lon:?} h {h:?}, satellite {sat:?}");
    let o = || Geodedic { latitude: lat, longitude: lon, height: h };
    let slack = 1e-10 + (norm(&sat) + 6400.0 + h.abs()) * 2e-14;
    if h > 500.0 {
        ctx.strat("observer in space");
    }
    if norm(&sat) > 1e6 {
        ctx.strat("beyond a million km");
    }
    if rho < 0.05 {
        ctx.strat("satellite next to the observer");
    }
    let Some(tc) = ctx.must(msg, || tr::topocentric(&o(), &vec3(&sat))) else { return };
    ctx.close("south (km)", tc.top_s, l[0], slack, msg);
    ctx.close("east (km)", tc.top_e, l[1], slack, msg);
    ctx.close("up (km)", tc.top_z, l[2], slack, msg);
    let Some(b) = ctx.must(msg, || tr::ecf_to_look_angles(&o(), &vec3(&sat))) else { return };
    judge_bearing(ctx, &b, &l, slack * 3.0, &msg);
    ctx.sample(|| format!("{} -> {b:?}", msg()));

    // the angles of a local vector on its own
    let r = &mut ctx.rng;
    let v: V = match r.below(4) {
        0 => {
            let q = [0.0, -0.0, 1.0, -1.0];
            [*r.pick(&q), *r.pick(&q), *r.pick(&q)]
        }
        1 => {
            let a = r.log(1e-3, 1e6);
            let c = r.log(1e-3, 1e6);
            [r.sign() * a, r.sign() * c, r.sign() * r.log(1e-3, 1e6)]
        }
        _ => {
            let m = r.log(1e-3, 1e6);
            scaled(&r.dir(), m)
        }
    };
    if norm(&v) == 0.0 {
        return;
    }
    if v.iter().filter(|x| **x == 0.0).count() == 2 {
        ctx.strat("axis-aligned local vector");
    }
    let msg = || format!("topocentric_to_look_angles(south {:?}, east {:?}, up {:?})", v[0], v[1], v[2]);
    let Some(b) = ctx.must(msg, || tr::topocentric_to_look_angles(&TopoCentric { top_s: v[0], top_e: v[1], top_z: v[2] })) else { return };
    judge_bearing(ctx, &b, &v, norm(&v) * 1e-14, &msg);

    // vector algebra
    let r = &mut ctx.rng;
    let (p, q, w) = (scaled(&direction(r), magnitude(r)), scaled(&direction(r), magnitude(r)), scaled(&direction(r), magnitude(r)));
    let msg = || format!("vectors {p:?} {q:?} {w:?}");
    let Some((add, sb, d1, d2, d0, pw, wq)) = ctx.must(msg, || {
        let (a, b, c) = (vec3(&p), vec3(&q), vec3(&w));
        (arr(&a.add(&b)), arr(&a.subtract(&b)), a.range(&b), b.range(&a), a.range(&a), a.range(&c), c.range(&b))
    }) else { return };
    for k in 0..3 {
        ctx.check(add[k] == p[k] + q[k], || format!("sum component {k}: {:?}; {}", add[k], msg()));
        ctx.check(sb[k] == p[k] - q[k], || format!("difference component {k}: {:?}; {}", sb[k], msg()));
    }
    let want = (p[0] - q[0]).hypot(p[1] - q[1]).hypot(p[2] - q[2]);
    ctx.close("distance", d1, want, want * 4e-15 + 1e-300, msg);
    ctx.check(d1 == d2, || format!("distance not symmetric: {d1:?} {d2:?}; {}", msg()));
    ctx.check(d0 == 0.0, || format!("distance to itself {d0:?}; {}", msg()));
    ctx.check(d1 <= (pw + wq) * (1.0 + 1e-14), || format!("triangle inequality: {d1:?} > {pw:?} + {wq:?}; {}", msg()));
}

pub const C16: Check = Check {
    id: "C16",
    rule: "observers (poles, date line, equator, uniform; -100..1e6 km high) and satellites (anywhere within 1e10 km, down to a millimetre away, at cardinal bearings, at zenith/nadir, on the horizon): local components against projections on the local axes, bearing against the local vector and its reconstruction; local vectors on their own, axis-aligned included; Vec3 sums, differences, distances; a case is (observer, satellite)",
    cases: (3_000_000, 200_000_000),
    case: look_case,
    required: &["observer at a pole", "observer at the date line", "above the horizon", "below the horizon", "north-east", "south-east", "south-west", "north-west", "zenith or nadir", "axis-aligned local vector", "observer in space", "beyond a million km", "satellite next to the observer"],
    assumptions: &["azimuth is unconstrained within a nanoradian of zenith and nadir"],
};

// ---------------------------------------------------------------- C17

const LIGHT: f64 = 299792.458;

fn doppler_case(ctx: &mut Ctx) {
    let r = &mut ctx.rng;
    let obs = match r.below(4) {
        0 => [0.0, 0.0, 0.0],
        1 => scaled(&direction(r), r.clone().log(6300.0, 1e5)),
        _ => scaled(&r.dir(), 6371.0),
    };
    let near = r.chance(0.2);
    let rel = scaled(&direction(r), if near { if r.chance(0.2) { 0.0 } else { r.log(1e-2, 100.0) } } else if r.chance(0.9) { r.log(100.0, 1e6) } else { r.log(1e6, 1e9) });
    let pos = [obs[0] + rel[0], obs[1] + rel[1], obs[2] + rel[2]];
    let speed = match r.below(5) {
        0 => 0.0,
        1 => r.log(1e-6, 12.0),
        2 if r.chance(0.5) => r.log(12.0, 1e5),
        _ => r.uni(0.5, 12.0),
    };
    let n = norm(&rel);
    let los = if n > 0.0 { scaled(&rel, 1.0 / n) } else { [1.0, 0.0, 0.0] };
    let vd: V = match r.below(6) {
        0 => los,
        1 => scaled(&los, -1.0),
        2 => {
            // across the line of sight
            let d = r.dir();
            let k = dot(&d, &los);
            let c = [d[0] - k * los[0], d[1] - k * los[1], d[2] - k * los[2]];
            scaled(&c, 1.0 / norm(&c))
        }
        _ => direction(r),
    };
    let vel = scaled(&vd, speed);
    let radial = dot(&vd, &los);
    ctx.strat(if speed == 0.0 { "at rest" } else if radial > 0.999 { "straight away" } else if radial < -0.999 { "straight in" } else if radial.abs() < 1e-9 { "across" } else if radial > 0.0 { "receding" } else { "approaching" });
    if speed > 12.0 {
        ctx.strat("faster than any orbit");
    }
    if n > 1e6 {
        ctx.strat("beyond a million km");
    }
    ctx.seen(hash(&[obs[0], obs[1], obs[2], pos[0], pos[1], pos[2], vel[0], vel[1], vel[2]]));
    let msg = || format!("observer {obs:?} satellite {pos:?} velocity {vel:?}");
    // distance change over the next second, without cancellation:
    // |rel+v| - |rel| = (2 rel.v + v.v) / (|rel+v| + |rel|)
    let rl = sub(&pos, &obs);
    let nx = [rl[0] + vel[0], rl[1] + vel[1], rl[2] + vel[2]];
    let both = norm(&nx) + norm(&rl);
    let change = if both > 0.0 { (2.0 * dot(&rl, &vel) + dot(&vel, &vel)) / both } else { 0.0 };
    let scale = norm(&pos) + norm(&obs) + n;
    let scale = scale + speed;
    let tol = scale * 4e-15 / LIGHT + 1e-15;
    let Some(f) = ctx.must(msg, || satellite::doppler_factor::doppler_factor(vec3(&obs), vec3(&pos), vec3(&vel))) else { return };
    ctx.close("doppler factor", f, 1.0 - change / LIGHT, tol, msg);
    if change.abs() / LIGHT > 4.0 * tol {
        ctx.strat("sign decidable");
        ctx.check((f > 1.0) == (change < 0.0), || format!("factor {f:?} although the distance changes by {change:?} km; {}", msg()));
    }
    // only the relative geometry counts
    let sh = scaled(&ctx.rng.dir(), ctx.rng.clone().log(1.0, 1e5));
    let a = ctx.rng.uni(-PI, PI);
    let mv = |p: &V| [p[0] + sh[0], p[1] + sh[1], p[2] + sh[2]];
    let Some(f2) = ctx.must(msg, || satellite::doppler_factor::doppler_factor(vec3(&mv(&obs)), vec3(&mv(&pos)), vec3(&vel))) else { return };
    let tol2 = (2.0 * scale + norm(&sh) * 4.0) * 4e-15 / LIGHT + 2e-15;
    ctx.close("shifted", f2, f, tol2, msg);
    let Some(f3) = ctx.must(msg, || satellite::doppler_factor::doppler_factor(vec3(&rotz(&obs, a)), vec3(&rotz(&pos, a)), vec3(&rotz(&vel, a)))) else { return };
    ctx.close("rotated about z", f3, f, tol2, msg);
    let cyc = |p: &V| [p[2], p[0], p[1]];
    let Some(f4) = ctx.must(msg, || satellite::doppler_factor::doppler_factor(vec3(&cyc(&obs)), vec3(&cyc(&pos)), vec3(&cyc(&vel)))) else { return };
    ctx.close("axes permuted", f4, f, tol2, msg);
    ctx.sample(|| format!("{} -> {f:?}", msg()));
}

pub const C17: Check = Check {
    id: "C17",
    rule: "observers at the centre, on the surface and elsewhere; satellites 0..1e9 km from them; velocities 0..1e5 km/s straight in, straight away, across and at random: factor against the exact one-second distance change, sign, and invariance under shift, rotation and axis permutation; a case is (observer, position, velocity)",
    cases: (3_000_000, 200_000_000),
    case: doppler_case,
    required: &["at rest", "straight away", "straight in", "across", "receding", "approaching", "sign decidable", "faster than any orbit", "beyond a million km"],
    assumptions: &["speed of light 299792.458 km/s"],
};

// ---------------------------------------------------------------- C18

fn next(x: f64, up: bool) -> f64 {
    let b = x.to_bits();
    f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
}

fn units_case(ctx: &mut Ctx) {
    if ctx.idx == 0 {
        constants(ctx);
    }
    let r = &mut ctx.rng;
    let x = match r.below(6) {
        0 if r.chance(0.1) => r.sign() * r.log(1e300, 1.79e308),
        0 => r.sign() * r.log(1e-300, 1e300),
        1 => r.sign() * r.log(1e-6, 1e6),
        2 => *r.pick(&[0.0, -0.0, f64::MAX, f64::MIN, 5e-324, 1.0, -1.0, 45.0, 90.0, 180.0, 360.0, -360.0, PI, FRAC_PI_2, -PI, 57.29577951308232]),
        3 => r.uni(-PI, PI),
        _ => r.uni(-720.0, 720.0),
    };
    ctx.seen(x.to_bits());
    let msg = || format!("angle {x:?}");
    let Some((d, q)) = ctx.must(msg, || (tr::radians_to_degrees(x), tr::degrees_to_radians(x))) else { return };
    // scale first so that neither side can overflow where the result is finite
    if x.abs() < 3e306 {
        ctx.close("radians_to_degrees", d, x / PI * 180.0, x.abs() * 60.0 * 1e-15 + 1e-300, msg);
    } else {
        // the number of degrees may be beyond what a number holds
        ctx.strat("angle near the largest number");
        ctx.check(d.abs() >= 1e307 && d.is_sign_positive() == x.is_sign_positive(), || format!("radians_to_degrees gives {d:?}; {}", msg()));
    }
    ctx.close("degrees_to_radians", q, x / 180.0 * PI, x.abs() / 50.0 * 1e-15 + 1e-300, msg);
    let Some((a, b)) = ctx.must(msg, || (tr::degrees_to_radians(d), tr::radians_to_degrees(q))) else { return };
    if d.is_finite() {
        ctx.close("there and back", a, x, x.abs() * 1e-15 + 1e-300, msg);
    }
    ctx.close("back and there", b, x, x.abs() * 1e-15 + 1e-300, msg);

    type F = (&'static str, fn(f64) -> f64, f64, bool);
    const FS: [F; 4] = [
        ("degrees_lat", tr::degrees_lat, FRAC_PI_2, true),
        ("degrees_long", tr::degrees_long, PI, true),
        ("radians_lat", tr::radians_lat, 90.0, false),
        ("radians_long", tr::radians_long, 180.0, false),
    ];
    for (name, f, lim, to_deg) in FS {
        let r = &mut ctx.rng;
        let sg = r.sign();
        let (v, inside) = match r.below(9) {
            0 => (sg * lim, true),
            1 => (sg * next(lim, false), true),
            2 => (sg * next(lim, true), false),
            3 => (sg * (lim + r.log(1e-12, 1e6)), false),
            4 => (sg * *r.pick(&[f64::INFINITY, f64::MAX, 1e300, lim * 2.0, lim * 1.5]), false),
            5 => (sg * *r.pick(&[0.0, f64::MIN_POSITIVE, 1e-300]), true),
            6 => (sg * (lim - r.log(1e-12, lim)), true),
            _ => (r.uni(-lim, lim), true),
        };
        let inside = inside || v.abs() <= lim;
        let msg = || format!("{name}({v:?})");
        let got = ctx.call(|| f(v));
        if inside {
            ctx.strat(if v.abs() == lim { "end point" } else { "inside" });
            match got {
                Ok(g) => {
                    let want = if to_deg { v / PI * 180.0 } else { v / 180.0 * PI };
                    ctx.close("range-checked conversion", g, want, want.abs() * 1e-15 + 1e-300, msg);
                }
                Err(m) => {
                    ctx.check(false, || format!("refuses a value in range: {m}; {}", msg()));
                }
            }
        } else {
            ctx.strat(if v.is_infinite() { "infinite" } else if v.abs() == next(lim, true) { "just outside" } else { "outside" });
            ctx.check(got.is_err(), || format!("accepts a value out of range, returning {got:?}; {}", msg()));
        }
    }
    ctx.sample(|| format!("{x:?} rad = {d:?} deg, {x:?} deg = {q:?} rad"));
}

fn constants(ctx: &mut Ctx) {
    use satellite::constants as k;
    let m = || "constants".to_string();
    let eps = 4e-16;
    ctx.close("pi", k::PI, PI, 0.0 + 1e-300, m);
    ctx.close("TWO_PI", k::TWO_PI, 2.0 * PI, 1e-300, m);
    ctx.close("DEG_2_RAD", k::DEG_2_RAD, PI / 180.0, eps, m);
    ctx.close("RAD_TO_DEG", k::RAD_TO_DEG * k::DEG_2_RAD, 1.0, eps, m);
    ctx.close("miles", k::KM_TO_MI * k::MI_TO_KM, 1.0, eps, m);
    ctx.close("mile in km", k::MI_TO_KM, 1.609344, 1e-4, m);
    ctx.close("minutes per day", k::MINUTES_PER_DAY, 1440.0, 1e-300, m);
    ctx.close("two thirds", k::X2O3 * 1.5, 1.0, eps, m);
    ctx.close("speed of light", k::C, LIGHT, 1e-300, m);
    ctx.close("XPDOTP", k::XPDOTP * 2.0 * PI, 1440.0, 1e-12, m);
    ctx.close("XKE", k::XKE, 60.0 / (k::EARTH_RADIUS.powi(3) / k::MU).sqrt(), 1e-15, m);
    ctx.close("TUMIN", k::TUMIN * k::XKE, 1.0, 1e-15, m);
    ctx.close("J3OJ2", k::J3OJ2 * k::J2, k::J3, 1e-20, m);
    ctx.close("gravity", k::MU, 398600.5, 1e-9, m);
    ctx.close("radius", k::EARTH_RADIUS, A, 1e-12, m);
}

pub const C18: Check = Check {
    id: "C18",
    rule: "angles of every magnitude for the plain conversions (scaling and mutual inverse); for the four range-checked ones the end points, their floating-point neighbours on both sides, infinities and random values inside and outside; the constants' mutual consistency once; a case is an angle",
    cases: (2_000_000, 100_000_000),
    case: units_case,
    required: &["end point", "inside", "just outside", "outside", "infinite", "angle near the largest number"],
    assumptions: &["NaN is neither inside nor outside the ranges and is not judged"],
};
