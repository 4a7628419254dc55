//! Comparison of the code under test with the reference model, with a
//! tolerance derived from the model's own conditioning at the point asked for.

use crate::gen::Tle;
use crate::refmodel::*;
use satellite::io::Satrec;
use satellite::propogation::dpper::DpperOpsMode;
use satellite::propogation::sgp4::{sgp4, SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::{sgp4init, SGP4InitOptions};

pub fn opsmode(afspc: bool) -> DpperOpsMode {
    if afspc { DpperOpsMode::A } else { DpperOpsMode::I }
}

pub fn init_options(el: &Elements, afspc: bool, satn: &str) -> SGP4InitOptions {
    SGP4InitOptions {
        opsmode: opsmode(afspc),
        satn: satn.to_string(),
        epoch: el.jd_epoch - 2433281.5,
        xbstar: el.bstar,
        xecco: el.ecc,
        xargpo: el.argp,
        xinclo: el.incl,
        xmo: el.ma,
        xno: el.no,
        xnodeo: el.node,
    }
}

/// A record initialised through the element interface, and the outcome of the
/// initialisation itself.
pub fn build_init(el: &Elements, afspc: bool) -> (Satrec, Result<SGP4Result, SGP4Error>) {
    let mut rec = Satrec::zero();
    rec.jdsatepoch = el.jd_epoch;
    let r = sgp4init(&mut rec, init_options(el, afspc, "99999"));
    (rec, r)
}

pub fn prop(rec: &mut Satrec, t: f64) -> Result<State, u32> {
    conv(sgp4(rec, t))
}

pub fn conv(r: Result<SGP4Result, SGP4Error>) -> Result<State, u32> {
    match r {
        Ok(q) => Ok(State { r: [q.position.x, q.position.y, q.position.z], v: [q.velocity.x, q.velocity.y, q.velocity.z] }),
        Err(e) => Err(e.code() as u32),
    }
}

pub fn dist(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let d = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt();
    if d.is_nan() { f64::INFINITY } else { d }
}

pub fn norm(a: &[f64; 3]) -> f64 {
    (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt()
}

/// What the model says at (el, t), and how far rounding may legitimately move it.
pub struct Expect {
    pub out: Out,
    /// the verdict is not within rounding distance of another one
    pub stable: bool,
    /// tolerances on position (km) and velocity (km/s)
    pub tol_r: f64,
    pub tol_v: f64,
}

/// Distance of each guarded quantity from its threshold.
fn guard_room(g: &[f64; 5]) -> [f64; 5] {
    [g[0].abs(), (g[1] - 1.0).abs().min((g[1] + 0.001).abs()), g[2].abs().min((g[2] - 1.0).abs()), g[3].abs(), (g[4] - 1.0).abs()]
}

const K: f64 = 256.0;

/// The model and its neighbours at rounding distance.
pub struct RefSet {
    pub base: RefSat,
    near: Vec<(RefSat, f64)>,
}

impl RefSet {
    /// For elements that went through text: any of them may be a rounding error off.
    pub fn new(el: &Elements, afspc: bool) -> RefSet {
        Self::around(el, afspc, false)
    }

    /// For elements handed over as numbers: the theory's choices that look at the
    /// eccentricity itself see exactly this one.
    pub fn given(el: &Elements, afspc: bool) -> RefSet {
        Self::around(el, afspc, true)
    }

    fn around(el: &Elements, afspc: bool, exact: bool) -> RefSet {
        let u = 1.0 + 3.0 * f64::EPSILON;
        let mk = |f: &dyn Fn(&mut Elements)| {
            let mut e = *el;
            f(&mut e);
            RefSat::new(e, afspc, WGS84)
        };
        let base = RefSat::new(*el, afspc, WGS84);
        let mut other = mk(&|e| e.ecc *= u);
        if exact && other.flags != base.flags {
            other = mk(&|e| e.ecc /= u);
        }
        let mut near = vec![
            (mk(&|e| e.no *= u), K),
            (other, K),
            (mk(&|e| { e.incl *= u; e.node *= u }), K),
            (mk(&|e| { e.argp *= u; e.ma /= u }), K),
            (mk(&|e| e.bstar *= u), K),
        ];
        if base.flags & (1 << flag::DEEP) != 0 {
            near.push((mk(&|e| e.jd_epoch += 1e-9), 2.0));
            near.push((mk(&|e| e.jd_epoch -= 1e-9), 2.0));
        }
        RefSet { base, near }
    }

    /// No guard of the model comes near its threshold within +-dt minutes of t.
    pub fn steady(&self, t: f64, dt: f64) -> bool {
        let o = self.base.at(t);
        let room = guard_room(&o.guards);
        [t - dt, t - 0.37 * dt, t + 0.61 * dt, t + dt].iter().all(|&u| {
            let q = self.base.at(u);
            (0..5).all(|j| {
                let d = (q.guards[j] - o.guards[j]).abs();
                !(d > 0.0) || 4.0 * d < room[j]
            })
        })
    }

    pub fn expect(&self, t: f64) -> Expect {
        let out = self.base.at(t);
        let mut stable = out.margin > 1e-10 && out.kepler_ok;
        let (mut tr, mut tv) = (5e-7, 1e-9);
        if let Ok(s) = &out.res {
            tr += norm(&s.r) * 1e-13;
            tv += norm(&s.v) * 1e-12;
        }
        let mut spread = [0.0f64; 5];
        let mut add = |o: &Out, k: f64, stable: &mut bool| {
          for j in 0..5 {
            let d = (o.guards[j] - out.guards[j]).abs();
            if d > 0.0 { spread[j] += k * d; }
          }
          match (&out.res, &o.res) {
            (Ok(a), Ok(b)) => {
                tr += k * dist(&a.r, &b.r);
                tv += k * dist(&a.v, &b.v);
                if !o.kepler_ok { *stable = false; }
            }
            (Err(a), Err(b)) if a == b => {}
            _ => *stable = false,
          }
        };
        for (m, k) in &self.near {
            add(&m.at(t), *k, &mut stable);
        }
        if t != 0.0 {
            add(&self.base.at(t * (1.0 + 2.0 * f64::EPSILON)), K, &mut stable);
        }
        // no guard may be within reach of rounding
        let room = guard_room(&out.guards);
        for j in 0..5 {
            if spread[j] >= room[j] && spread[j] > 0.0 {
                stable = false;
            }
        }
        if let Ok(s) = &out.res {
            tr += norm(&s.r) * out.incl_cond * K;
            tv += norm(&s.v) * out.incl_cond * K;
        }
        if !tr.is_finite() || !tv.is_finite() {
            stable = false;
        }
        Expect { out, stable, tol_r: tr, tol_v: tv }
    }
}

pub fn show(r: &Result<State, u32>) -> String {
    match r {
        Ok(s) => format!("r=[{:.9}, {:.9}, {:.9}] v=[{:.12}, {:.12}, {:.12}]", s.r[0], s.r[1], s.r[2], s.v[0], s.v[1], s.v[2]),
        Err(c) => format!("error {c}"),
    }
}

pub fn ctx_msg(t: &Tle, afspc: bool, at: f64) -> String {
    format!("{} mode={} t={:?}", t.show(), if afspc { "A" } else { "I" }, at)
}
