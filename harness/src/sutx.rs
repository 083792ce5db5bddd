//! Thin access layer to the crate under test, and the comparison with the reference model.

use crate::engine::sut;
use crate::gens::Orbit;
use crate::oracle::sgp4::{wgs84, Elements, Fail, Mode, Model, State};
use satellite::io::{Satrec, SatrecParseError};
use satellite::propogation::dpper::DpperOpsMode;
use satellite::propogation::sgp4::{sgp4, SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::{sgp4init, SGP4InitOptions};

pub fn opsmode(m: Mode) -> DpperOpsMode { if m == Mode::Afspc { DpperOpsMode::A } else { DpperOpsMode::I } }

pub fn init_opts(el: &Elements) -> SGP4InitOptions {
    SGP4InitOptions {
        opsmode: opsmode(el.mode), satn: "00005".to_string(), epoch: el.epoch, xbstar: el.bstar, xecco: el.e,
        xargpo: el.argp, xinclo: el.i, xmo: el.m, xno: el.n, xnodeo: el.node,
    }
}

/// Direct initialisation: record plus what the initialiser returned.
pub fn init_direct(el: &Elements) -> Result<(Satrec, Result<SGP4Result, SGP4Error>), String> {
    sut(|| { let mut r = Satrec::zero(); let res = sgp4init(&mut r, init_opts(el)); (r, res) })
}

pub enum Ready { Rec(Satrec), InitFailed(u8) }

/// Initialises an orbit the way the case says. A failing initialisation is an error code.
pub fn ready(o: &Orbit) -> Result<Ready, String> {
    if o.text() {
        let (l1, l2) = (o.tle.line1(), o.tle.line2());
        match sut(|| satellite::io::twoline2satrec(&l1, &l2))? {
            Ok(r) => Ok(Ready::Rec(r)),
            Err(SatrecParseError::Sgp4InitError(e)) => Ok(Ready::InitFailed(e.code())),
            Err(e) => Err(format!("a well-formed element set was rejected: {:?}\n{}\n{}", e, l1, l2)),
        }
    } else {
        let (rec, res) = init_direct(&o.elements())?;
        match res { Ok(_) => Ok(Ready::Rec(rec)), Err(e) => Ok(Ready::InitFailed(e.code())) }
    }
}

pub fn prop(rec: &mut Satrec, t: f64) -> Result<Result<State, u8>, String> {
    sut(|| sgp4(rec, t)).map(|r| conv(&r))
}

pub fn conv(r: &Result<SGP4Result, SGP4Error>) -> Result<State, u8> {
    match r {
        Ok(s) => Ok(State { r: [s.position.x, s.position.y, s.position.z], v: [s.velocity.x, s.velocity.y, s.velocity.z] }),
        Err(e) => Err(e.code()),
    }
}

pub fn dist(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}
pub fn norm(a: &[f64; 3]) -> f64 { dist(a, &[0.0; 3]) }

pub enum Expect {
    /// ill-conditioned: a rounding-size change of the input changes the branch taken
    Knife,
    Fail(Fail),
    State { s: State, tol_r: f64, tol_v: f64 },
}

fn perturb(el: &Elements, t: f64, k: usize, rel: f64) -> (Elements, f64) {
    // four sign patterns (rows of a Hadamard-like table) over the inputs
    const P: [[f64; 9]; 4] = [
        [1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0],
        [1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0, 1.0],
        [-1.0, -1.0, 1.0, 1.0, -1.0, 1.0, -1.0, 1.0, -1.0],
        [1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, -1.0, 1.0],
    ];
    let p = &P[k];
    let mut q = *el;
    // exact thresholds of the theory on eccentricity are decided on the very same number by both sides
    const EXACT: [f64; 6] = [0.0, 1.0e-4, 0.5, 0.65, 0.7, 0.715];
    if !EXACT.contains(&el.e) { q.e += p[0] * rel * el.e; }
    q.i += p[1] * rel * el.i;
    q.node += p[2] * rel * el.node.abs().max(1.0);
    q.argp += p[3] * rel * el.argp.abs().max(1.0);
    q.m += p[4] * rel * el.m.abs().max(1.0);
    q.n += p[5] * rel * el.n;
    q.bstar += p[6] * rel * el.bstar;
    q.epoch += p[8] * rel * 1e4; // 1e-9 day at 1e-13: resolution of a Julian date
    (q, t + p[7] * rel * t)
}

pub struct Ref { pub base: Model, close: Vec<Model>, wide: Vec<Model>, el: Elements }

impl Ref {
    pub fn new(el: &Elements) -> Ref {
        let g = wgs84();
        Ref {
            base: Model::new(el, &g),
            close: (0..4).map(|k| Model::new(&perturb(el, 0.0, k, 1e-13).0, &g)).collect(),
            wide: (0..4).map(|k| Model::new(&perturb(el, 0.0, k, 1e-10).0, &g)).collect(),
            el: *el,
        }
    }

    /// initialisation takes one branch in the neighbourhood
    pub fn init_stable(&self) -> bool { self.wide.iter().chain(self.close.iter()).all(|m| m.br == self.base.br) }

    pub fn expect(&self, t: f64) -> Expect {
        let mut p0 = 0.0;
        let (r0, b0) = self.base.propagate_phase(t, &mut p0);
        if b0 >> 63 == 1 { return Expect::Knife; }
        for k in 0..4 {
            let tt = perturb(&self.el, t, k, 1e-10).1;
            if self.wide[k].propagate(tt).1 != b0 { return Expect::Knife; }
        }
        let mut dr: f64 = 0.0;
        let mut dv: f64 = 0.0;
        for k in 0..4 {
            let tt = perturb(&self.el, t, k, 1e-13).1;
            let mut p = 0.0;
            let (r, b) = self.close[k].propagate_phase(tt, &mut p);
            if b != b0 { return Expect::Knife; }
            // the position on the orbit is left to rounding: no outcome is determined
            if p0.is_finite() && !((p - p0).abs() < 1e-3) { return Expect::Knife; }
            match (&r0, &r) {
                (Ok(a), Ok(b)) => { dr = dr.max(dist(&a.r, &b.r)); dv = dv.max(dist(&a.v, &b.v)); }
                (Err(a), Err(b)) if a == b => {}
                _ => return Expect::Knife,
            }
        }
        match r0 {
            Err(f) => Expect::Fail(f),
            Ok(s) => {
                if !(dr.is_finite() && dv.is_finite()) { return Expect::Knife; }
                Expect::State { s, tol_r: 1e-7 + 1e-13 * norm(&s.r) + 4.0 * dr, tol_v: 1e-10 + 1e-12 * norm(&s.v) + 4.0 * dv }
            }
        }
    }
}

/// Compares one propagation outcome with the reference. Ok(true) = compared, Ok(false) = knife edge.
pub fn compare(ex: &Expect, got: &Result<State, u8>, what: &str) -> Result<bool, String> {
    match (ex, got) {
        (Expect::Knife, _) => Ok(false),
        (Expect::Fail(f), Err(c)) => if *f as u8 == *c { Ok(true) } else { Err(format!("{}: error code {} where the theory gives {}", what, c, *f as u8)) },
        (Expect::Fail(f), Ok(s)) => Err(format!("{}: state {:?} where the theory declares failure {}", what, s, *f as u8)),
        (Expect::State { s, .. }, Err(c)) => Err(format!("{}: error code {} where the theory gives {:?}", what, c, s)),
        (Expect::State { s, tol_r, tol_v }, Ok(g)) => {
            // negated comparisons: NaN is a mismatch. A tolerance as large as the orbit decides nothing.
            if *tol_r > 1e-3 * norm(&s.r) { return Ok(false); }
            let (dr, dv) = (dist(&s.r, &g.r), dist(&s.v, &g.v));
            if !(dr <= *tol_r) { return Err(format!("{}: position {:?} differs from the theory's {:?} by {:e} km (tolerance {:e})", what, g.r, s.r, dr, tol_r)); }
            if !(dv <= *tol_v) { return Err(format!("{}: velocity {:?} differs from the theory's {:?} by {:e} km/s (tolerance {:e})", what, g.v, s.v, dv, tol_v)); }
            Ok(true)
        }
    }
}
