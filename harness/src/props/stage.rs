//! C23, C24: the individually callable stages of the deep-space theory.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::{self, Orbit, Regime};
use crate::mine::{self, spice_f};
use crate::oracle::sgp4::{self as o, wgs84, Mode, Model, Orb, Resonance, RPTIM};
use crate::oracle::time::{ang_diff, TAU};
use crate::sutx::opsmode;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use satellite::propogation::{dpper, dscom, dsinit, dspace, initl};
use serde::{Deserialize, Serialize};

const YEAR: f64 = 525_960.0;

/// The mean elements handed to the secular step.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Means { pub em: f64, pub incl: f64, pub node: f64, pub argp: f64, pub m: f64 }

fn means() -> BoxedStrategy<Means> {
    let turn = || spice_f((-10.0..10.0f64).boxed(), mine::ANGLE_RAD, -10.0, 10.0);
    (spice_f((0.0..0.9f64).boxed(), mine::ECC, 0.0, 0.9), spice_f((0.0..3.14f64).boxed(), mine::ANGLE_RAD, 0.0, 3.14), turn(), turn(), spice_f((-100.0..100.0f64).boxed(), mine::ANGLE_RAD, -100.0, 100.0))
        .prop_map(|(em, incl, node, argp, m)| Means { em, incl, node, argp, m }).boxed()
}

fn step_options(m: &Model, x: &Means, t: f64, tc: f64, state: (f64, f64, f64)) -> dspace::DspaceOptions {
    let d = m.deep.as_ref().unwrap();
    let r = &d.reso;
    dspace::DspaceOptions {
        irez: match r.kind { Resonance::None => 0.0, Resonance::OneDay => 1.0, Resonance::HalfDay => 2.0 },
        d2201: r.d[0], d2211: r.d[1], d3210: r.d[2], d3222: r.d[3], d4410: r.d[4], d4422: r.d[5],
        d5220: r.d[6], d5232: r.d[7], d5421: r.d[8], d5433: r.d[9],
        dedt: d.rates.e, del1: r.del[0], del2: r.del[1], del3: r.del[2],
        didt: d.rates.i, dmdt: d.rates.m, dnodt: d.rates.node, domdt: d.rates.argp,
        argpo: m.el.argp, argpdot: m.argpdot, t, tc, gsto: m.ep.gsto, xfact: r.xfact, xlamo: r.xlamo, no: m.ep.n,
        atime: state.0, em: x.em, argpm: x.argp, inclm: x.incl, xli: state.1, mm: x.m, xni: state.2, nodem: x.node, nm: m.ep.n,
    }
}

fn near(name: &str, got: f64, want: f64, tol: f64) -> Verdict {
    if (got - want).abs() <= tol { Ok(()) } else { Err(format!("{} = {:e}, expected {:e} (tolerance {:e})", name, got, want, tol)) }
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Resume { pub orbit: Orbit, pub means: Means, pub times: Vec<f64> }

pub struct C23;
impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "random resonant coefficient sets (computed by the reference) x 2..10 times (increasing, decreasing, repeated, sign-changing, exact multiples of 720 min, to +-150 years); secular step with the integrator state carried over vs. from epoch; non-trivial: a resonant set and at least one evaluation that starts from a carried state different from the epoch state";
    const ASSUMPTIONS: &'static [&'static str] = &["resumed and restarted results compared to 1e-9 rad / 1e-12 rad/min"];
    type Case = Resume;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 1_200_000 } else { 18_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Resume> {
        let one = prop_oneof![12 => gens::minutes(5.0 * YEAR), 1 => gens::minutes(150.0 * YEAR), 4 => (-12i32..13).prop_map(|k| k as f64 * 720.0), 4 => -5000.0..5000.0f64].boxed();
        let times = prop_oneof![
            4 => prop::collection::vec(one.clone(), 2..=10),
            // a walk: every time is near the previous one
            3 => (one, prop::collection::vec(prop_oneof![3 => -800.0..800.0f64, 1 => Just(0.0f64), 1 => Just(720.0f64), 1 => Just(-720.0f64), 1 => -3000.0..3000.0f64], 1..=9))
                .prop_map(|(t0, ds)| { let mut v = vec![t0]; for d in ds { let l = *v.last().unwrap(); v.push(l + d); } v }),
        ];
        (prop_oneof![gens::orbit(Regime::OneDay), gens::orbit(Regime::HalfDay)], means(), times)
            .prop_map(|(orbit, means, times)| Resume { orbit, means, times }).boxed()
    }
    fn check(c: &Resume, obs: &mut Obs) -> Verdict {
        let m = Model::new(&c.orbit.elements(), &wgs84());
        let d = match &m.deep { Some(d) if d.reso.kind != Resonance::None => d, _ => { obs.label("not resonant"); return Ok(()); } };
        let start = (0.0, d.reso.xlamo, m.ep.n);
        let mut carried = start;
        for (k, &t) in c.times.iter().enumerate() {
            let a = sut(|| dspace::dspace(step_options(&m, &c.means, t, t, carried)))?;
            let b = sut(|| dspace::dspace(step_options(&m, &c.means, t, t, start)))?;
            if carried.0 != 0.0 { obs.nontrivial = true; }
            let w = |n: &str| format!("evaluation {} at t = {} min resumed from atime = {}: {}", k, t, carried.0, n);
            near(&w("em"), a.em, b.em, 1e-12)?;
            near(&w("inclm"), a.inclm, b.inclm, 1e-12)?;
            near(&w("argpm"), a.argpm, b.argpm, 1e-12 * (1.0 + b.argpm.abs()))?;
            near(&w("nodem"), a.nodem, b.nodem, 1e-12 * (1.0 + b.nodem.abs()))?;
            near(&w("mm"), a.mm, b.mm, 1e-9)?;
            near(&w("nm"), a.nm, b.nm, 1e-12)?;
            near(&w("dndt"), a.dndt, b.dndt, 1e-12)?;
            carried = (a.atime, a.xli, a.xni);
        }
        if obs.nontrivial {
            obs.label(if d.reso.kind == Resonance::OneDay { "one-day" } else { "half-day" });
            if c.times.windows(2).any(|w| w[0] * w[1] < 0.0) { obs.label("sign change") }
            if c.times.windows(2).any(|w| w[1].abs() < w[0].abs() && w[0] * w[1] > 0.0) { obs.label("towards epoch") }
            if c.times.windows(2).any(|w| w[1].abs() > w[0].abs() && w[0] * w[1] > 0.0) { obs.label("away from epoch") }
            if c.times.windows(2).any(|w| w[1] == w[0]) { obs.label("repeated time") }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stages {
    pub orbit: Orbit,
    /// elapsed time handed to each stage, and the separate `tc` input
    pub t: f64,
    pub tc: f64,
    pub means: Means,
    /// saved periodics at epoch: e, i, l, gh, h
    pub saved: [f64; 5],
    /// added to the element handed to the periodic step (inclination decides the branch)
    pub incl: f64,
}

fn check_initl(c: &Stages, el: &o::Elements, ep: &o::Epoch) -> Verdict {
    for method in [initl::InitlMethod::N, initl::InitlMethod::D] {
        let r = sut(|| initl::initl(initl::InitlOptions { opsmode: opsmode(el.mode), method, satn: c.orbit.tle.satnum.clone(), ecco: el.e, epoch: el.epoch, inclo: el.i, no: el.n }))?;
        let k = |n: &str, g: f64, w: f64, t: f64| near(&format!("epoch initialisation: {}", n), g, w, t);
        k("no", r.no, ep.n, 1e-11 * ep.n.abs())?;
        k("ao", r.ao, ep.a, 1e-10 * ep.a)?;
        k("ainv", r.ainv, 1.0 / ep.a, 1e-10 / ep.a)?;
        k("con41", r.con41, ep.con41, 1e-13)?;
        k("con42", r.con42, ep.con42, 1e-13)?;
        k("cosio", r.cosio, ep.cosi, 1e-14)?;
        k("cosio2", r.cosio2, ep.cosi * ep.cosi, 1e-14)?;
        k("sinio", r.sinio, ep.sini, 1e-14)?;
        k("eccsq", r.eccsq, ep.e2, 1e-15)?;
        k("omeosq", r.omeosq, ep.omeosq, 1e-15)?;
        k("rteosq", r.rteosq, ep.rteosq, 1e-14 / ep.rteosq)?;
        k("posq", r.posq, ep.posq, 1e-9 * ep.posq)?;
        k("rp", r.rp, ep.rp, 1e-10 * ep.a)?;
        if r.method != initl::InitlMethod::N { return Err("epoch initialisation: method is not near-Earth, which is for the caller to change".into()); }
        if !(r.gsto >= 0.0 && r.gsto <= TAU && ang_diff(r.gsto, ep.gsto) <= 1e-8) { return Err(format!("epoch initialisation: gsto = {}, expected {}", r.gsto, ep.gsto)); }
    }
    Ok(())
}

fn check_dscom(c: &Stages, el: &o::Elements, n: f64) -> Verdict {
    let ls = o::lunar_solar(el.epoch, c.tc, el.e, el.i, el.node, el.argp, n);
    let r = sut(|| dscom::dscom(dscom::DscomOptions { epoch: el.epoch, ep: el.e, argpp: el.argp, tc: c.tc, inclp: el.i, nodep: el.node, np: n }))?;
    let k = |nm: &str, g: f64, w: f64, t: f64| near(&format!("lunar-solar coefficients: {}", nm), g, w, t);
    k("snodm", r.snodm, el.node.sin(), 1e-13)?;
    k("cnodm", r.cnodm, el.node.cos(), 1e-13)?;
    k("sinim", r.sinim, el.i.sin(), 1e-13)?;
    k("cosim", r.cosim, el.i.cos(), 1e-13)?;
    k("sinomm", r.sinomm, el.argp.sin(), 1e-13)?;
    k("cosomm", r.cosomm, el.argp.cos(), 1e-13)?;
    k("day", r.day, ls.day, 1e-9)?;
    k("gam", r.gam, ls.gam, 1e-10)?;
    k("em", r.em, el.e, 0.0)?;
    k("emsq", r.emsq, el.e * el.e, 1e-15)?;
    k("rtemsq", r.rtemsq, (1.0 - el.e * el.e).sqrt(), 1e-14 / (1.0 - el.e * el.e).sqrt())?;
    k("nm", r.nm, n, 0.0)?;
    for (nm, v) in [("peo", r.peo), ("pinco", r.pinco), ("plo", r.plo), ("pgho", r.pgho), ("pho", r.pho)] { k(nm, v, 0.0, 0.0)?; }
    for (nm, g, w) in [("zmol", r.zmol, ls.moon.zmo), ("zmos", r.zmos, ls.sun.zmo)] {
        if !(ang_diff(g, w) <= 1e-9 && g.abs() < TAU + 1e-9) { return Err(format!("lunar-solar coefficients: {} = {}, expected {}", nm, g, w)); }
    }
    // the moon's geometry comes from a day count of tens of thousands: phases good to ~1e-11
    let za = 1e-8;
    for (b, z, s, per, who) in [
        (&ls.sun,
         [r.sz1, r.sz2, r.sz3, r.sz11, r.sz12, r.sz13, r.sz21, r.sz22, r.sz23, r.sz31, r.sz32, r.sz33],
         [r.ss1, r.ss2, r.ss3, r.ss4, r.ss5, r.ss6, r.ss7],
         [r.se2, r.se3, r.si2, r.si3, r.sl2, r.sl3, r.sl4, r.sgh2, r.sgh3, r.sgh4, r.sh2, r.sh3], "sun"),
        (&ls.moon,
         [r.z1, r.z2, r.z3, r.z11, r.z12, r.z13, r.z21, r.z22, r.z23, r.z31, r.z32, r.z33],
         [r.s1, r.s2, r.s3, r.s4, r.s5, r.s6, r.s7],
         [r.ee2, r.e3, r.xi2, r.xi3, r.xl2, r.xl3, r.xl4, r.xgh2, r.xgh3, r.xgh4, r.xh2, r.xh3], "moon"),
    ] {
        let wz = [b.z1, b.z2, b.z3, b.z11, b.z12, b.z13, b.z21, b.z22, b.z23, b.z31, b.z32, b.z33];
        const NZ: [&str; 12] = ["z1", "z2", "z3", "z11", "z12", "z13", "z21", "z22", "z23", "z31", "z32", "z33"];
        for j in 0..12 { k(&format!("{} {}", who, NZ[j]), z[j], wz[j], za)?; }
        for j in 0..4 { k(&format!("{} s{}", who, j + 1), s[j], b.s[j + 1], 1e-11 * b.s[j + 1].abs())?; }
        for j in 4..7 { k(&format!("{} s{}", who, j + 1), s[j], b.s[j + 1], za)?; }
        let wp = [b.e2, b.e3, b.i2, b.i3, b.l2, b.l3, b.l4, b.gh2, b.gh3, b.gh4, b.h2, b.h3];
        // scale of each coefficient: 2 s_k times a geometry product of order ten
        let sc = [b.s[1], b.s[1], b.s[2], b.s[2], b.s[3], b.s[3], b.s[3], b.s[4], b.s[4], b.s[4], b.s[2], b.s[2]];
        const NP: [&str; 12] = ["e2", "e3", "i2", "i3", "l2", "l3", "l4", "gh2", "gh3", "gh4", "h2", "h3"];
        for j in 0..12 { k(&format!("{} {}", who, NP[j]), per[j], wp[j], 2.0 * za * sc[j].abs())?; }
    }
    Ok(())
}

fn check_dsinit(c: &Stages, m: &Model) -> Verdict {
    let el = &m.el;
    let d = m.deep.as_ref().unwrap();
    let (s, z) = (&d.ls.sun, &d.ls.moon);
    let n = m.ep.n;
    let x = &c.means;
    // the stale inputs a caller may hand over must not matter where the stage defines its outputs
    let junk = 0.125;
    let r = sut(|| dsinit::dsinit(dsinit::DsinitOptions {
        cosim: m.ep.cosi, argpo: el.argp, s1: z.s[1], s2: z.s[2], s3: z.s[3], s4: z.s[4], s5: z.s[5], sinim: m.ep.sini,
        ss1: s.s[1], ss2: s.s[2], ss3: s.s[3], ss4: s.s[4], ss5: s.s[5],
        sz1: s.z1, sz3: s.z3, sz11: s.z11, sz13: s.z13, sz21: s.z21, sz23: s.z23, sz31: s.z31, sz33: s.z33,
        t: c.t, tc: c.tc, gsto: m.ep.gsto, mo: el.m, mdot: m.mdot, no: n, nodeo: el.node, nodedot: m.nodedot, xpidot: m.argpdot + m.nodedot,
        z1: z.z1, z3: z.z3, z11: z.z11, z13: z.z13, z21: z.z21, z23: z.z23, z31: z.z31, z33: z.z33,
        ecco: el.e, eccsq: el.e * el.e, emsq: el.e * el.e, em: el.e, argpm: x.argp, inclm: el.i, mm: x.m, nm: n, nodem: x.node,
        irez: 0.0, atime: junk,
        d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0,
        dedt: junk, didt: junk, dmdt: junk, dnodt: junk, domdt: junk, del1: 0.0, del2: 0.0, del3: 0.0, xfact: 0.0, xlamo: 0.0, xli: 0.0, xni: 0.0,
    }))?;
    let k = |nm: &str, g: f64, w: f64, t: f64| near(&format!("deep-space initialisation: {}", nm), g, w, t);
    let q = d.rates;
    // scale of the secular rates
    let sc = s.zn * s.s[3] * 30.0 / m.ep.rteosq + z.zn * z.s[3] * 30.0 / m.ep.rteosq;
    let hs = if m.ep.sini.abs() > 0.05 { 1.0 / m.ep.sini.abs() } else { 1.0 };
    k("dedt", r.dedt, q.e, 1e-10 * sc)?;
    k("didt", r.didt, q.i, 1e-10 * sc)?;
    k("dmdt", r.dmdt, q.m, 1e-10 * sc)?;
    k("domdt", r.domdt, q.argp, 1e-10 * sc * hs)?;
    k("dnodt", r.dnodt, q.node, 1e-10 * sc * hs)?;
    let t = c.t;
    let tt = 1e-10 * sc * hs * t.abs();
    k("em", r.em, el.e + q.e * t, 1e-13 + tt)?;
    k("inclm", r.inclm, el.i + q.i * t, 1e-13 + tt)?;
    k("argpm", r.argpm, x.argp + q.argp * t, 1e-12 + tt)?;
    k("nodem", r.nodem, x.node + q.node * t, 1e-12 + tt)?;
    k("mm", r.mm, x.m + q.m * t, 1e-12 + tt)?;
    k("nm", r.nm, n, 1e-15)?;
    k("dndt", r.dndt, 0.0, 0.0)?;
    let reso = &d.reso;
    let irez = match reso.kind { Resonance::None => 0.0, Resonance::OneDay => 1.0, Resonance::HalfDay => 2.0 };
    if r.irez != irez { return Err(format!("deep-space initialisation: resonance class {} where {} applies (n = {}, e = {})", r.irez, irez, n, el.e)); }
    let theta = m.ep.gsto + c.tc * RPTIM;
    match reso.kind {
        Resonance::None => {}
        Resonance::OneDay => {
            let kk = 3.0 * n * n * (n / m.g.xke).powf(4.0 / 3.0);
            for (j, g) in [r.del1, r.del2, r.del3].iter().enumerate() { k(&format!("del{}", j + 1), *g, reso.del[j], 1e-10 * reso.del[j].abs() + 1e-13 * kk * 1e-6)?; }
            let w = el.m + el.node + el.argp - theta;
            if !(ang_diff(r.xlamo, w) <= 1e-10 + 1e-14 * theta.abs()) { return Err(format!("deep-space initialisation: xlamo = {}, expected {}", r.xlamo, w)); }
        }
        Resonance::HalfDay => {
            let got = [r.d2201, r.d2211, r.d3210, r.d3222, r.d4410, r.d4422, r.d5220, r.d5232, r.d5421, r.d5433];
            const N: [&str; 10] = ["d2201", "d2211", "d3210", "d3222", "d4410", "d4422", "d5220", "d5232", "d5421", "d5433"];
            // the eccentricity polynomials cancel from coefficients of 1e5 down to tens
            for j in 0..10 { k(N[j], got[j], reso.d[j], 1e-9 * reso.d[j].abs() + 1e-21)?; }
            let w = el.m + 2.0 * el.node - 2.0 * theta;
            if !(ang_diff(r.xlamo, w) <= 1e-10 + 1e-14 * theta.abs()) { return Err(format!("deep-space initialisation: xlamo = {}, expected {}", r.xlamo, w)); }
        }
    }
    if irez != 0.0 {
        k("xfact", r.xfact, reso.xfact, 1e-15 + 1e-10 * sc * hs)?;
        k("xli", r.xli, r.xlamo, 0.0)?;
        k("xni", r.xni, n, 0.0)?;
        k("atime", r.atime, 0.0, 0.0)?;
    }
    Ok(())
}

fn check_dspace(c: &Stages, m: &Model) -> Verdict {
    let d = m.deep.as_ref().unwrap();
    let x = &c.means;
    let t = c.t;
    let r = sut(|| dspace::dspace(step_options(m, x, t, c.tc, (0.0, d.reso.xlamo, m.ep.n))))?;
    let k = |nm: &str, g: f64, w: f64, tol: f64| near(&format!("secular step (t = {}, tc = {}): {}", t, c.tc, nm), g, w, tol);
    let q = d.rates;
    let s = 1e-13 * t.abs();
    k("em", r.em, x.em + q.e * t, 1e-13 + s * q.e.abs())?;
    k("inclm", r.inclm, x.incl + q.i * t, 1e-13 + s * q.i.abs())?;
    let argp = x.argp + q.argp * t;
    let node = x.node + q.node * t;
    k("argpm", r.argpm, argp, 1e-12 + s * q.argp.abs())?;
    k("nodem", r.nodem, node, 1e-12 + s * q.node.abs())?;
    if d.reso.kind == Resonance::None {
        k("mm", r.mm, x.m + q.m * t, 1e-12 + s * q.m.abs())?;
        k("nm", r.nm, m.ep.n, 1e-16)?;
        k("dndt", r.dndt, 0.0, 0.0)?;
        return Ok(());
    }
    let (n, l) = d.reso.integrate(m.ep.n, m.el.argp, m.argpdot, t);
    // conditioning of the integration: the reference's response to a rounding-size change
    let mut r2 = d.reso.clone();
    r2.xlamo += 1e-13;
    r2.xfact += 1e-16 * m.ep.n;
    let (n2, l2) = r2.integrate(m.ep.n * (1.0 + 1e-13), m.el.argp, m.argpdot, t);
    let (tn, tl) = (1e-14 + 8.0 * (n - n2).abs(), 1e-10 + 8.0 * (l - l2).abs());
    let theta = m.ep.gsto + c.tc * RPTIM;
    let mm = if d.reso.kind == Resonance::OneDay { l - node - argp + theta } else { l - 2.0 * node + 2.0 * theta };
    k("nm", r.nm, n, tn)?;
    k("dndt", r.dndt, n - m.ep.n, tn)?;
    if !(ang_diff(r.mm, mm) <= tl + 1e-14 * theta.abs() + 2.0 * s * (q.node.abs() + q.argp.abs())) {
        return Err(format!("secular step (t = {}): mm = {}, expected {} (mod 2 pi)", t, r.mm, mm));
    }
    Ok(())
}

fn check_dpper(c: &Stages, m: &Model, obs: &mut Obs) -> Verdict {
    let d = m.deep.as_ref().unwrap();
    let (s, z) = (&d.ls.sun, &d.ls.moon);
    let mut rec = satellite::io::Satrec::zero();
    rec.se2 = s.e2; rec.se3 = s.e3; rec.si2 = s.i2; rec.si3 = s.i3; rec.sl2 = s.l2; rec.sl3 = s.l3; rec.sl4 = s.l4;
    rec.sgh2 = s.gh2; rec.sgh3 = s.gh3; rec.sgh4 = s.gh4; rec.sh2 = s.h2; rec.sh3 = s.h3;
    rec.ee2 = z.e2; rec.e3 = z.e3; rec.xi2 = z.i2; rec.xi3 = z.i3; rec.xl2 = z.l2; rec.xl3 = z.l3; rec.xl4 = z.l4;
    rec.xgh2 = z.gh2; rec.xgh3 = z.gh3; rec.xgh4 = z.gh4; rec.xh2 = z.h2; rec.xh3 = z.h3;
    rec.zmos = s.zmo; rec.zmol = z.zmo; rec.t = c.t;
    rec.peo = c.saved[0]; rec.pinco = c.saved[1]; rec.plo = c.saved[2]; rec.pgho = c.saved[3]; rec.pho = c.saved[4];
    let x = &c.means;
    let opts = |init| dpper::DpperOptions { init, opsmode: opsmode(m.el.mode), inclo: m.el.i, ep: x.em, inclp: c.incl, nodep: x.node, argpp: x.argp, mp: x.m };
    let y = sut(|| dpper::dpper(&rec, opts(dpper::DpperInit::Y)))?;
    if (y.ep, y.inclp, y.nodep, y.argpp, y.mp) != (x.em, c.incl, x.node, x.argp, x.m) {
        return Err("periodic step: the initialisation form changes the elements".into());
    }
    let r = sut(|| dpper::dpper(&rec, opts(dpper::DpperInit::N)))?;
    let (a, b) = (o::long_period(s, c.t), o::long_period(z, c.t));
    let mut tot = [0.0; 5];
    for k in 0..5 { tot[k] = a[k] + b[k] - c.saved[k]; }
    let inp = Orb { e: x.em, i: c.incl, node: x.node, argp: x.argp, m: x.m };
    let mut br = 0;
    let w = o::apply_periodics(inp, tot, m.el.mode, &mut br);
    // knife edge: the branch changes, or the node is undefined, within rounding of the input
    let mut tol = 1e-11 + 1e-13 * (x.node.abs() + x.argp.abs() + x.m.abs());
    for (de, sgn) in [(1e-9, 1.0), (1e-9, -1.0), (1e-12, 1.0), (1e-12, -1.0)] {
        let mut i2 = inp;
        i2.i += de * sgn;
        i2.node += de * sgn;
        let mut t2 = tot;
        for k in 0..5 { t2[k] += 1e-3 * de * sgn; }
        let mut b2 = 0;
        let v = o::apply_periodics(i2, t2, m.el.mode, &mut b2);
        if b2 != br { obs.label("periodic step at a knife edge"); return Ok(()); }
        if de < 1e-10 { tol += 8.0 * ((v.node - w.node).abs() + (v.argp - w.argp).abs()); }
    }
    if !(tol < 1e-3) { obs.label("periodic step ill-conditioned"); return Ok(()); }
    obs.label(if br & (1 << 20) != 0 { "periodics applied directly" } else { "periodics in Lyddane's form" });
    if br & ((1 << 24) | (1 << 25)) != 0 { obs.label("node quadrant correction") }
    let k = |nm: &str, g: f64, want: f64, tl: f64| near(&format!("periodic step: {}", nm), g, want, tl);
    k("ep", r.ep, w.e, 1e-12)?;
    k("inclp", r.inclp, w.i, 1e-12)?;
    k("nodep", r.nodep, w.node, tol)?;
    k("argpp", r.argpp, w.argp, tol)?;
    k("mp", r.mp, w.m, 1e-11 + 1e-13 * x.m.abs())?;
    Ok(())
}

pub struct C24;
impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "random element set (all regimes, both operation modes) x elapsed times t, tc x random mean elements and saved periodics; each stage function called with reference-computed inputs and every output compared with the independently written formula; non-trivial: the deep-space stages were compared";
    const ASSUMPTIONS: &'static [&'static str] = &["relative tolerance about 1e-9 of each quantity's scale", "branch switches within 1e-9 of the input are not compared"];
    type Case = Stages;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_400_000 } else { 36_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Stages> {
        let p = || prop_oneof![20 => Just(0.0f64), 10 => -2e-3..2e-3f64, 1 => -3.0..3.0f64];
        let t = || prop_oneof![4 => Just(0.0f64), 16 => gens::minutes(3.0 * YEAR), 1 => gens::minutes(150.0 * YEAR)];
        let inc = crate::mine::spice_f(prop_oneof![3 => 0.0..3.14f64, 2 => 0.0..0.21f64, 1 => 0.199..0.201f64, 1 => -0.01..0.01f64].boxed(), crate::mine::ANGLE_RAD, -0.01, 3.14);
        let orb = prop_oneof![1 => gens::orbit(Regime::Near), 4 => gens::orbit(Regime::Deep), 3 => gens::orbit(Regime::OneDay), 3 => gens::orbit(Regime::HalfDay)];
        (orb, t(), prop_oneof![1 => Just(None), 2 => t().prop_map(Some)], means(), [p(), p(), p(), p(), p()], inc)
            .prop_map(|(orbit, t, tc, means, saved, incl)| Stages { orbit, t, tc: tc.unwrap_or(t), means, saved, incl }).boxed()
    }
    fn check(c: &Stages, obs: &mut Obs) -> Verdict {
        let el = c.orbit.elements();
        let m = Model::new(&el, &wgs84());
        check_initl(c, &el, &m.ep)?;
        check_dscom(c, &el, m.ep.n)?;
        obs.label(if el.mode == Mode::Afspc { "AFSPC mode" } else { "improved mode" });
        if m.deep.is_none() { obs.label("near-Earth: first two stages only"); return Ok(()); }
        obs.nontrivial = true;
        // the flat-orbit limit of the secular rates is decided on the same inclination by both sides
        check_dsinit(c, &m)?;
        check_dspace(c, &m)?;
        check_dpper(c, &m, obs)?;
        obs.label(match m.deep.as_ref().unwrap().reso.kind { Resonance::None => "non-resonant", Resonance::OneDay => "one-day", Resonance::HalfDay => "half-day" });
        Ok(())
    }
}
