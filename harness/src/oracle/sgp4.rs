//! Independent reference model of the SGP4/SDP4 theory, written from the published description
//! (Hoots & Roehrich, Spacetrack Report #3; Hoots, Schumacher & Glover 2004; Vallado et al. 2006).
//! Pure functions only: `Model::new(elements)` and `model.propagate(t)`.

use super::time::TAU;
use std::f64::consts::PI;

#[derive(Clone, Copy, Debug)]
pub struct Grav {
    pub re: f64,
    pub xke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}

pub fn wgs84() -> Grav {
    // the constants of this library (mu = 398600.5 km^3/s^2, re = 6378.137 km)
    let re: f64 = 6378.137;
    let mu: f64 = 398600.5;
    Grav { re, xke: 60.0 / (re * re * re / mu).sqrt(), j2: 0.00108262998905, j3: -0.00000253215306, j4: -0.00000161098761 }
}

#[allow(dead_code)]
pub fn wgs72() -> Grav {
    let re: f64 = 6378.135;
    let mu: f64 = 398600.8;
    Grav { re, xke: 60.0 / (re * re * re / mu).sqrt(), j2: 0.001082616, j3: -0.00000253881, j4: -0.00000165597 }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Improved, Afspc }

/// Mean elements at epoch: angles in rad, `n` = Kozai mean motion in rad/min, epoch in days since 1949-12-31.
#[derive(Clone, Copy, Debug)]
pub struct Elements {
    pub epoch: f64,
    pub bstar: f64,
    pub e: f64,
    pub i: f64,
    pub node: f64,
    pub argp: f64,
    pub m: f64,
    pub n: f64,
    pub mode: Mode,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail { Ecc = 1, MeanMotion = 2, PertEcc = 3, SemiLatus = 4, Decayed = 6 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct State { pub r: [f64; 3], pub v: [f64; 3] }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Resonance { None, OneDay, HalfDay }

/// Coefficients of one perturbing body (Sun or Moon).
#[derive(Clone, Copy, Debug, Default)]
pub struct Body {
    // geometry products of the published theory
    pub s: [f64; 8],       // s[1]..s[7]
    pub z1: f64, pub z2: f64, pub z3: f64,
    pub z11: f64, pub z12: f64, pub z13: f64,
    pub z21: f64, pub z22: f64, pub z23: f64,
    pub z31: f64, pub z32: f64, pub z33: f64,
    // long-period periodic coefficients
    pub e2: f64, pub e3: f64,
    pub i2: f64, pub i3: f64,
    pub l2: f64, pub l3: f64, pub l4: f64,
    pub gh2: f64, pub gh3: f64, pub gh4: f64,
    pub h2: f64, pub h3: f64,
    pub zn: f64, // mean motion of the body
    pub ze: f64, // eccentricity of the body
    pub zmo: f64, // mean anomaly at epoch
}

pub const ZNS: f64 = 1.19459e-5;
pub const ZES: f64 = 0.01675;
pub const ZNL: f64 = 1.5835218e-4;
pub const ZEL: f64 = 0.05490;
pub const RPTIM: f64 = 4.37526908801129966e-3;

/// Orientation of the perturbing body's orbit: (cos g, sin g, cos i, sin i, cos h, sin h), h relative to the node.
fn body(cg: f64, sg: f64, ci: f64, si: f64, ch: f64, sh: f64, cc: f64, zn: f64, ze: f64, zmo: f64,
        e: f64, incl: f64, argp: f64, n: f64) -> Body {
    let (sini, cosi) = incl.sin_cos();
    let (sino, coso) = argp.sin_cos();
    let e2 = e * e;
    let eta2 = 1.0 - e2;
    let eta = eta2.sqrt();

    let a1 = cg * ch + sg * ci * sh;
    let a3 = cg * ci * sh - sg * ch;
    let a7 = sg * ci * ch - cg * sh;
    let a8 = sg * si;
    let a9 = sg * sh + cg * ci * ch;
    let a10 = cg * si;
    let a2 = cosi * a7 + sini * a8;
    let a4 = cosi * a9 + sini * a10;
    let a5 = cosi * a8 - sini * a7;
    let a6 = cosi * a10 - sini * a9;

    let x1 = a1 * coso + a2 * sino;
    let x2 = a3 * coso + a4 * sino;
    let x3 = a2 * coso - a1 * sino;
    let x4 = a4 * coso - a3 * sino;
    let x5 = a5 * sino;
    let x6 = a6 * sino;
    let x7 = a5 * coso;
    let x8 = a6 * coso;

    let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
    let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
    let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
    // 2*(3*(..) + z3k e^2) + (1 - e^2) z3k = 6*(..) + (1 + e^2) z3k
    let z1 = 6.0 * (a1 * a1 + a2 * a2) + (1.0 + e2) * z31;
    let z2 = 12.0 * (a1 * a3 + a2 * a4) + (1.0 + e2) * z32;
    let z3 = 6.0 * (a3 * a3 + a4 * a4) + (1.0 + e2) * z33;
    let z11 = -6.0 * a1 * a5 - e2 * (24.0 * x1 * x7 + 6.0 * x3 * x5);
    let z12 = -6.0 * (a1 * a6 + a3 * a5) - e2 * (24.0 * (x2 * x7 + x1 * x8) + 6.0 * (x3 * x6 + x4 * x5));
    let z13 = -6.0 * a3 * a6 - e2 * (24.0 * x2 * x8 + 6.0 * x4 * x6);
    let z21 = 6.0 * a2 * a5 + e2 * (24.0 * x1 * x5 - 6.0 * x3 * x7);
    let z22 = 6.0 * (a4 * a5 + a2 * a6) + e2 * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
    let z23 = 6.0 * a4 * a6 + e2 * (24.0 * x2 * x6 - 6.0 * x4 * x8);

    let s3 = cc / n;
    let s2 = -0.5 * s3 / eta;
    let s4 = s3 * eta;
    let s1 = -15.0 * e * s4;
    let s5 = x1 * x3 + x2 * x4;
    let s6 = x2 * x3 + x1 * x4;
    let s7 = x2 * x4 - x1 * x3;

    Body {
        s: [0.0, s1, s2, s3, s4, s5, s6, s7],
        z1, z2, z3, z11, z12, z13, z21, z22, z23, z31, z32, z33,
        e2: 2.0 * s1 * s6,
        e3: 2.0 * s1 * s7,
        i2: 2.0 * s2 * z12,
        i3: 2.0 * s2 * (z13 - z11),
        l2: -2.0 * s3 * z2,
        l3: -2.0 * s3 * (z3 - z1),
        l4: 2.0 * s3 * (21.0 + 9.0 * e2) * ze,
        gh2: 2.0 * s4 * z32,
        gh3: 2.0 * s4 * (z33 - z31),
        gh4: -18.0 * s4 * ze,
        h2: -2.0 * s2 * z22,
        h3: -2.0 * s2 * (z23 - z21),
        zn, ze, zmo,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct LunarSolar { pub sun: Body, pub moon: Body, pub day: f64, pub gam: f64 }

/// Lunar and solar geometry at `epoch` + `tc` minutes.
pub fn lunar_solar(epoch: f64, tc: f64, e: f64, incl: f64, node: f64, argp: f64, n: f64) -> LunarSolar {
    let (sn, cn) = node.sin_cos();
    let day = epoch + 18261.5 + tc / 1440.0;
    let xnodce = (4.5236020 - 9.2422029e-4 * day) % TAU;
    let (stem, ctem) = xnodce.sin_cos();
    let zcosil = 0.91375164 - 0.03568096 * ctem;
    let zsinil = (1.0 - zcosil * zcosil).sqrt();
    let zsinhl = 0.089683511 * stem / zsinil;
    let zcoshl = (1.0 - zsinhl * zsinhl).sqrt();
    let gam = 5.8351514 + 0.0019443680 * day;
    let zy = zcoshl * ctem + 0.91744867 * zsinhl * stem;
    let zx = (0.39785416 * stem / zsinil).atan2(zy) + gam - xnodce;

    let zmos = (6.2565837 + 0.017201977 * day) % TAU;
    let zmol = (4.7199672 + 0.22997150 * day - gam) % TAU;

    let sun = body(0.1945905, -0.98088458, 0.91744867, 0.39785416, cn, sn,
                   2.9864797e-6, ZNS, ZES, zmos, e, incl, argp, n);
    let moon = body(zx.cos(), zx.sin(), zcosil, zsinil,
                    zcoshl * cn + zsinhl * sn, sn * zcoshl - cn * zsinhl,
                    4.7968065e-7, ZNL, ZEL, zmol, e, incl, argp, n);
    LunarSolar { sun, moon, day, gam }
}

/// Secular lunar-solar rates (e, i, M, argp, node).
#[derive(Clone, Copy, Debug, Default)]
pub struct Rates { pub e: f64, pub i: f64, pub m: f64, pub argp: f64, pub node: f64 }

pub fn secular_rates(ls: &[&Body; 2], e: f64, incl: f64) -> Rates {
    let (sini, cosi) = incl.sin_cos();
    let flat = incl < 5.2359877e-2 || incl > PI - 5.2359877e-2;
    let mut r = Rates::default();
    for b in ls {
        r.e += b.s[1] * b.zn * b.s[5];
        r.i += b.s[2] * b.zn * (b.z11 + b.z13);
        r.m -= b.zn * b.s[3] * (b.z1 + b.z3 - 14.0 - 6.0 * e * e);
        let gh = b.s[4] * b.zn * (b.z31 + b.z33 - 6.0);
        let h = if flat || sini == 0.0 { 0.0 } else { -b.zn * b.s[2] * (b.z21 + b.z23) / sini };
        r.argp += gh - cosi * h;
        r.node += h;
    }
    r
}

/// Long-period corrections of one body at t minutes past epoch: (de, di, dl, dgh, dh).
pub fn long_period(b: &Body, t: f64) -> [f64; 5] {
    let zm = b.zmo + b.zn * t;
    let zf = zm + 2.0 * b.ze * zm.sin();
    let (s, c) = zf.sin_cos();
    let f2 = 0.5 * s * s - 0.25;
    let f3 = -0.5 * s * c;
    [
        b.e2 * f2 + b.e3 * f3,
        b.i2 * f2 + b.i3 * f3,
        b.l2 * f2 + b.l3 * f3 + b.l4 * s,
        b.gh2 * f2 + b.gh3 * f3 + b.gh4 * s,
        b.h2 * f2 + b.h3 * f3,
    ]
}

/// Mean or osculating elements in flight.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Orb { pub e: f64, pub i: f64, pub node: f64, pub argp: f64, pub m: f64 }

/// Applies long-period corrections d = (de, di, dl, dgh, dh); Lyddane's form below 0.2 rad.
pub fn apply_periodics(o: Orb, d: [f64; 5], mode: Mode, br: &mut u64) -> Orb {
    let [de, di, dl, dgh, dh] = d;
    let e = o.e + de;
    let i = o.i + di;
    let (si, ci) = i.sin_cos();
    if i >= 0.2 {
        *br |= 1 << 20;
        let dnode = dh / si;
        Orb { e, i, node: o.node + dnode, argp: o.argp + dgh - ci * dnode, m: o.m + dl }
    } else {
        *br |= 1 << 21;
        let (sn, cn) = o.node.sin_cos();
        let alf = si * sn + dh * cn + di * ci * sn;
        let bet = si * cn - dh * sn + di * ci * cn;
        let mut old = o.node % TAU;
        if old < 0.0 && mode == Mode::Afspc { old += TAU; *br |= 1 << 22; }
        let xls = o.m + o.argp + ci * old + dl + dgh - di * old * si;
        let mut node = alf.atan2(bet);
        if node < 0.0 && mode == Mode::Afspc { node += TAU; *br |= 1 << 23; }
        if (old - node).abs() > PI {
            if node < old { node += TAU; *br |= 1 << 24; } else { node -= TAU; *br |= 1 << 25; }
        }
        let m = o.m + dl;
        Orb { e, i, node, argp: xls - m - ci * node, m }
    }
}

/// Geopotential resonance model.
#[derive(Clone, Debug)]
pub struct Reso {
    pub kind: Resonance,
    pub del: [f64; 3],      // one-day
    pub d: [f64; 10],       // half-day: 2201 2211 3210 3222 4410 4422 5220 5232 5421 5433
    pub xlamo: f64,
    pub xfact: f64,
}

impl Reso {
    pub fn none() -> Reso { Reso { kind: Resonance::None, del: [0.0; 3], d: [0.0; 10], xlamo: 0.0, xfact: 0.0 } }

    /// Derivatives (xndt, d xndt / d lambda) at resonance angle `l`, perigee `w`.
    fn derivs(&self, l: f64, w: f64) -> (f64, f64) {
        match self.kind {
            Resonance::None => (0.0, 0.0),
            Resonance::OneDay => {
                const FAS: [f64; 3] = [0.13130908, 2.8843198, 0.37448087];
                let mut a = 0.0;
                let mut b = 0.0;
                for k in 0..3 {
                    let m = (k + 1) as f64;
                    let x = m * (l - FAS[k]);
                    a += self.del[k] * x.sin();
                    b += m * self.del[k] * x.cos();
                }
                (a, b)
            }
            Resonance::HalfDay => {
                const G22: f64 = 5.7686396;
                const G32: f64 = 0.95240898;
                const G44: f64 = 1.8014998;
                const G52: f64 = 1.0508330;
                const G54: f64 = 4.4108898;
                // (multiple of perigee, multiple of lambda, phase)
                const T: [(f64, f64, f64); 10] = [
                    (2.0, 1.0, G22), (0.0, 1.0, G22), (1.0, 1.0, G32), (-1.0, 1.0, G32),
                    (2.0, 2.0, G44), (0.0, 2.0, G44), (1.0, 1.0, G52), (-1.0, 1.0, G52),
                    (1.0, 2.0, G54), (-1.0, 2.0, G54),
                ];
                let mut a = 0.0;
                let mut b = 0.0;
                for k in 0..10 {
                    let (kw, kl, ph) = T[k];
                    let x = kw * w + kl * l - ph;
                    a += self.d[k] * x.sin();
                    b += kl * self.d[k] * x.cos();
                }
                (a, b)
            }
        }
    }

    /// Integrates from epoch to t. Returns (mean motion, resonance angle).
    pub fn integrate(&self, n0: f64, argpo: f64, argpdot: f64, t: f64) -> (f64, f64) {
        let step = if t > 0.0 { 720.0 } else { -720.0 };
        let whole = (t.abs() / 720.0).floor() as i64;
        let mut l = self.xlamo;
        let mut n = n0;
        let mut at = 0.0;
        for _ in 0..whole {
            let (nd, dn) = self.derivs(l, argpo + argpdot * at);
            let ld = n + self.xfact;
            let ndd = dn * ld;
            l += ld * step + nd * 259200.0;
            n += nd * step + ndd * 259200.0;
            at += step;
        }
        let ft = t - at;
        let (nd, dn) = self.derivs(l, argpo + argpdot * at);
        let ld = n + self.xfact;
        (n + nd * ft + dn * ld * ft * ft * 0.5, l + ld * ft + nd * ft * ft * 0.5)
    }
}

pub fn resonance_kind(n: f64, e: f64) -> Resonance {
    if n < 0.0052359877 && n > 0.0034906585 {
        Resonance::OneDay
    } else if n >= 8.26e-3 && n <= 9.24e-3 && e >= 0.5 {
        Resonance::HalfDay
    } else {
        Resonance::None
    }
}

fn poly(c: [f64; 4], e: f64) -> f64 { c[0] + e * (c[1] + e * (c[2] + e * c[3])) }

/// Half-day resonance coefficients d2201..d5433.
pub fn half_day(n: f64, e: f64, incl: f64, xke: f64) -> [f64; 10] {
    let (s, c) = incl.sin_cos();
    let s2 = s * s;
    let c2 = c * c;
    let g201 = -0.306 - (e - 0.64) * 0.440;
    let (g211, g310, g322, g410, g422, g520);
    if e <= 0.65 {
        g211 = poly([3.616, -13.2470, 16.2900, 0.0], e);
        g310 = poly([-19.302, 117.3900, -228.4190, 156.5910], e);
        g322 = poly([-18.9068, 109.7927, -214.6334, 146.5816], e);
        g410 = poly([-41.122, 242.6940, -471.0940, 313.9530], e);
        g422 = poly([-146.407, 841.8800, -1629.014, 1083.4350], e);
        g520 = poly([-532.114, 3017.977, -5740.032, 3708.2760], e);
    } else {
        g211 = poly([-72.099, 331.819, -508.738, 266.724], e);
        g310 = poly([-346.844, 1582.851, -2415.925, 1246.113], e);
        g322 = poly([-342.585, 1554.908, -2366.899, 1215.972], e);
        g410 = poly([-1052.797, 4758.686, -7193.992, 3651.957], e);
        g422 = poly([-3581.690, 16178.110, -24462.770, 12422.520], e);
        g520 = if e > 0.715 {
            poly([-5149.66, 29936.92, -54087.36, 31324.56], e)
        } else {
            poly([1464.74, -4664.75, 3763.64, 0.0], e)
        };
    }
    let (g533, g521, g532);
    if e < 0.7 {
        g533 = poly([-919.22770, 4988.6100, -9064.7700, 5542.21], e);
        g521 = poly([-822.71072, 4568.6173, -8491.4146, 5337.524], e);
        g532 = poly([-853.66600, 4690.2500, -8624.7700, 5341.4], e);
    } else {
        g533 = poly([-37995.780, 161616.52, -229838.20, 109377.94], e);
        g521 = poly([-51752.104, 218913.95, -309468.16, 146349.42], e);
        g532 = poly([-40023.880, 170470.89, -242699.48, 115605.82], e);
    }
    let f220 = 0.75 * (1.0 + 2.0 * c + c2);
    let f221 = 1.5 * s2;
    let f321 = 1.875 * s * (1.0 - 2.0 * c - 3.0 * c2);
    let f322 = -1.875 * s * (1.0 + 2.0 * c - 3.0 * c2);
    let f441 = 35.0 * s2 * f220;
    let f442 = 39.3750 * s2 * s2;
    let f522 = 9.84375 * s * (s2 * (1.0 - 2.0 * c - 5.0 * c2) + 0.33333333 * (-2.0 + 4.0 * c + 6.0 * c2));
    let f523 = s * (4.92187512 * s2 * (-2.0 - 4.0 * c + 10.0 * c2) + 6.56250012 * (1.0 + 2.0 * c - 3.0 * c2));
    let f542 = 29.53125 * s * (2.0 - 8.0 * c + c2 * (-12.0 + 8.0 * c + 10.0 * c2));
    let f543 = 29.53125 * s * (-2.0 - 8.0 * c + c2 * (12.0 + 8.0 * c - 10.0 * c2));
    let ainv = (n / xke).powf(2.0 / 3.0);
    let k2 = 3.0 * n * n * ainv * ainv;
    let k3 = k2 * ainv;
    let k4 = k3 * ainv;
    let k5 = k4 * ainv;
    const ROOT22: f64 = 1.7891679e-6;
    const ROOT32: f64 = 3.7393792e-7;
    const ROOT44: f64 = 7.3636953e-9;
    const ROOT52: f64 = 1.1428639e-7;
    const ROOT54: f64 = 2.1765803e-9;
    [
        k2 * ROOT22 * f220 * g201,
        k2 * ROOT22 * f221 * g211,
        k3 * ROOT32 * f321 * g310,
        k3 * ROOT32 * f322 * g322,
        2.0 * k4 * ROOT44 * f441 * g410,
        2.0 * k4 * ROOT44 * f442 * g422,
        k5 * ROOT52 * f522 * g520,
        k5 * ROOT52 * f523 * g532,
        2.0 * k5 * ROOT54 * f542 * g521,
        2.0 * k5 * ROOT54 * f543 * g533,
    ]
}

/// One-day resonance coefficients del1..del3.
pub fn one_day(n: f64, e: f64, incl: f64, xke: f64) -> [f64; 3] {
    let (s, c) = incl.sin_cos();
    let e2 = e * e;
    let g200 = 1.0 + e2 * (-2.5 + 0.8125 * e2);
    let g310 = 1.0 + 2.0 * e2;
    let g300 = 1.0 + e2 * (-6.0 + 6.60937 * e2);
    let p = 1.0 + c;
    let f220 = 0.75 * p * p;
    let f311 = 0.9375 * s * s * (1.0 + 3.0 * c) - 0.75 * p;
    let f330 = 1.875 * p * p * p;
    let ainv = (n / xke).powf(2.0 / 3.0);
    let k = 3.0 * n * n * ainv * ainv;
    [k * f311 * g310 * 2.1460748e-6 * ainv, 2.0 * k * f220 * g200 * 1.7891679e-6, 3.0 * k * f330 * g300 * 2.2123015e-7 * ainv]
}

/// Epoch quantities (the theory's first stage).
#[derive(Clone, Copy, Debug)]
pub struct Epoch {
    pub n: f64, pub a: f64, pub con41: f64, pub con42: f64, pub cosi: f64, pub sini: f64,
    pub e2: f64, pub omeosq: f64, pub rteosq: f64, pub posq: f64, pub rp: f64, pub gsto: f64,
}

pub fn epoch_stage(el: &Elements, g: &Grav) -> Epoch {
    let (sini, cosi) = el.i.sin_cos();
    let c2 = cosi * cosi;
    let e2 = el.e * el.e;
    let omeosq = 1.0 - e2;
    let rteosq = omeosq.sqrt();
    // recover the Brouwer mean motion from the Kozai one
    let a1 = (g.xke / el.n).powf(2.0 / 3.0);
    let k = 0.75 * g.j2 * (3.0 * c2 - 1.0) / (rteosq * omeosq);
    let d1 = k / (a1 * a1);
    let a0 = a1 * (1.0 - d1 * (1.0 / 3.0 + d1 * (1.0 + 134.0 / 81.0 * d1)));
    let d0 = k / (a0 * a0);
    let n = el.n / (1.0 + d0);
    let a = (g.xke / n).powf(2.0 / 3.0);
    let p = a * omeosq;
    let gsto = match el.mode {
        Mode::Improved => super::time::gmst(el.epoch + 2433281.5),
        Mode::Afspc => {
            let ts70 = el.epoch - 7305.0;
            let ds70 = (ts70 + 1.0e-8).floor();
            let frac = ts70 - ds70;
            let c1 = 1.72027916940703639e-2;
            let th = 1.7321343856509374 + c1 * ds70 + (c1 + TAU) * frac + ts70 * ts70 * 5.07551419432269442e-15;
            th.rem_euclid(TAU)
        }
    };
    Epoch { n, a, con41: 3.0 * c2 - 1.0, con42: 1.0 - 5.0 * c2, cosi, sini, e2, omeosq, rteosq, posq: p * p, rp: a * (1.0 - el.e), gsto }
}

#[derive(Clone, Debug)]
pub struct Deep { pub ls: LunarSolar, pub rates: Rates, pub reso: Reso }

#[derive(Clone, Debug)]
pub struct Model {
    pub g: Grav,
    pub el: Elements,
    pub ep: Epoch,
    pub simple: bool,
    pub c1: f64, pub c4: f64, pub c5: f64,
    pub d2: f64, pub d3: f64, pub d4: f64,
    pub t2: f64, pub t3: f64, pub t4: f64, pub t5: f64,
    pub eta: f64, pub omgcof: f64, pub xmcof: f64, pub delmo: f64,
    pub mdot: f64, pub argpdot: f64, pub nodedot: f64, pub nodecf: f64,
    pub deep: Option<Deep>,
    /// branch signature of initialisation
    pub br: u64,
}

impl Model {
    pub fn new(el: &Elements, g: &Grav) -> Model {
        let ep = epoch_stage(el, g);
        let mut br = 0u64;
        let e = el.e;
        let n = ep.n;
        let a = ep.a;
        let perigee_km = (ep.rp - 1.0) * g.re;
        let low = ep.rp < 220.0 / g.re + 1.0;
        if low { br |= 1; }
        let s_km = if perigee_km >= 156.0 { 78.0 } else if perigee_km >= 98.0 { br |= 2; perigee_km - 78.0 } else { br |= 4; 20.0 };
        let sfour = 1.0 + s_km / g.re;
        let q = (120.0 - s_km) / g.re;
        let q4 = (q * q) * (q * q);
        let xi = 1.0 / (a - sfour);
        if a > sfour { br |= 8; }
        let eta = a * e * xi;
        let eta2 = eta * eta;
        if eta2 < 1.0 { br |= 16; }
        let ee = e * eta;
        let psi = (1.0 - eta2).abs();
        let coef = q4 * xi.powi(4);
        let coef1 = coef / psi.powf(3.5);
        let c2 = coef1 * n * (a * (1.0 + 1.5 * eta2 + ee * (4.0 + eta2))
            + 0.375 * g.j2 * xi / psi * ep.con41 * (8.0 + 3.0 * eta2 * (8.0 + eta2)));
        let c1 = el.bstar * c2;
        let j3oj2 = g.j3 / g.j2;
        let ecc_ok = e > 1.0e-4;
        if ecc_ok { br |= 32; }
        let c3 = if ecc_ok { -2.0 * coef * xi * j3oj2 * n * ep.sini / e } else { 0.0 };
        let th2 = ep.cosi * ep.cosi;
        let th4 = th2 * th2;
        let c4 = 2.0 * n * coef1 * a * ep.omeosq
            * (eta * (2.0 + 0.5 * eta2) + e * (0.5 + 2.0 * eta2)
                - g.j2 * xi / (a * psi)
                    * (-3.0 * ep.con41 * (1.0 - 2.0 * ee + eta2 * (1.5 - 0.5 * ee))
                        + 0.75 * (1.0 - th2) * (2.0 * eta2 - ee * (1.0 + eta2)) * (2.0 * el.argp).cos()));
        let c5 = 2.0 * coef1 * a * ep.omeosq * (1.0 + 2.75 * (eta2 + ee) + ee * eta2);
        let pinv2 = 1.0 / ep.posq;
        let k1 = 1.5 * g.j2 * pinv2 * n;
        let k2 = 0.5 * k1 * g.j2 * pinv2;
        let k3 = -0.46875 * g.j4 * pinv2 * pinv2 * n;
        let mdot = n + 0.5 * k1 * ep.rteosq * ep.con41 + 0.0625 * k2 * ep.rteosq * (13.0 - 78.0 * th2 + 137.0 * th4);
        let argpdot = -0.5 * k1 * ep.con42 + 0.0625 * k2 * (7.0 - 114.0 * th2 + 395.0 * th4) + k3 * (3.0 - 36.0 * th2 + 49.0 * th4);
        let h1 = -k1 * ep.cosi;
        let nodedot = h1 + (0.5 * k2 * (4.0 - 19.0 * th2) + 2.0 * k3 * (3.0 - 7.0 * th2)) * ep.cosi;
        let omgcof = el.bstar * c3 * el.argp.cos();
        let xmcof = if ecc_ok { -2.0 / 3.0 * coef * el.bstar / ee } else { 0.0 };
        let nodecf = 3.5 * ep.omeosq * h1 * c1;
        let w = 1.0 + eta * el.m.cos();

        let is_deep = TAU / n >= 225.0;
        let deep = if is_deep {
            br |= 64;
            let ls = lunar_solar(el.epoch, 0.0, e, el.i, el.node, el.argp, n);
            let rates = secular_rates(&[&ls.sun, &ls.moon], e, el.i);
            if el.i < 5.2359877e-2 { br |= 128; }
            if el.i > PI - 5.2359877e-2 { br |= 256; }
            let kind = resonance_kind(n, e);
            let mut reso = Reso::none();
            reso.kind = kind;
            match kind {
                Resonance::None => {}
                Resonance::OneDay => {
                    br |= 512;
                    reso.del = one_day(n, e, el.i, g.xke);
                    reso.xlamo = (el.m + el.node + el.argp - ep.gsto) % TAU;
                    reso.xfact = mdot + argpdot + nodedot - RPTIM + rates.m + rates.argp + rates.node - n;
                }
                Resonance::HalfDay => {
                    br |= 1024;
                    if e <= 0.65 { br |= 2048; }
                    if e > 0.715 { br |= 4096; }
                    if e < 0.7 { br |= 8192; }
                    reso.d = half_day(n, e, el.i, g.xke);
                    reso.xlamo = (el.m + 2.0 * el.node - 2.0 * ep.gsto) % TAU;
                    reso.xfact = mdot + rates.m + 2.0 * (nodedot + rates.node - RPTIM) - n;
                }
            }
            Some(Deep { ls, rates, reso })
        } else { None };

        let simple = low || is_deep;
        let mut m = Model {
            g: *g, el: *el, ep, simple, c1, c4, c5,
            d2: 0.0, d3: 0.0, d4: 0.0, t2: 1.5 * c1, t3: 0.0, t4: 0.0, t5: 0.0,
            eta, omgcof, xmcof, delmo: w * w * w, mdot, argpdot, nodedot, nodecf, deep, br,
        };
        if !simple {
            let c1sq = c1 * c1;
            m.d2 = 4.0 * a * xi * c1sq;
            let f = m.d2 * xi * c1 / 3.0;
            m.d3 = (17.0 * a + sfour) * f;
            m.d4 = 0.5 * f * a * xi * (221.0 * a + 31.0 * sfour) * c1;
            m.t3 = m.d2 + 2.0 * c1sq;
            m.t4 = 0.25 * (3.0 * m.d3 + c1 * (12.0 * m.d2 + 10.0 * c1sq));
            m.t5 = 0.2 * (3.0 * m.d4 + 12.0 * c1 * m.d3 + 6.0 * m.d2 * m.d2 + 15.0 * c1sq * (2.0 * m.d2 + c1sq));
        }
        m
    }

    /// Returns the outcome and the branch signature (initialisation and propagation). The second
    /// signature bit 63 is set when the result is not well defined (Kepler's equation did not converge,
    /// the resonance integration ran away, or the inclination is within rounding noise of 180 degrees).
    pub fn propagate(&self, t: f64) -> (Result<State, Fail>, u64) {
        let mut phase = 0.0;
        self.propagate_phase(t, &mut phase)
    }

    /// also gives the unreduced mean longitude, to judge how well the phase is determined
    pub fn propagate_phase(&self, t: f64, phase: &mut f64) -> (Result<State, Fail>, u64) {
        let g = &self.g;
        let el = &self.el;
        let mut br = self.br;
        // secular gravity and drag
        let m0 = el.m + self.mdot * t;
        let w0 = el.argp + self.argpdot * t;
        let mut node = el.node + self.nodedot * t + self.nodecf * t * t;
        let mut argp = w0;
        let mut m = m0;
        let mut ta = 1.0 - self.c1 * t;
        let mut te = el.bstar * self.c4 * t;
        let mut tl = self.t2 * t * t;
        if !self.simple {
            let q = 1.0 + self.eta * m0.cos();
            let d = self.omgcof * t + self.xmcof * (q * q * q - self.delmo);
            m = m0 + d;
            argp = w0 - d;
            let t2 = t * t;
            ta -= t2 * (self.d2 + t * (self.d3 + t * self.d4));
            te += el.bstar * self.c5 * (m.sin() - el.m.sin());
            tl += t2 * t * (self.t3 + t * (self.t4 + t * self.t5));
        }
        let mut n = self.ep.n;
        let mut e = el.e;
        let mut incl = el.i;
        if let Some(d) = &self.deep {
            e += d.rates.e * t;
            incl += d.rates.i * t;
            argp += d.rates.argp * t;
            node += d.rates.node * t;
            m += d.rates.m * t;
            let theta = (self.ep.gsto + t * RPTIM) % TAU;
            match d.reso.kind {
                Resonance::None => {}
                k => {
                    let (nn, l) = d.reso.integrate(self.ep.n, el.argp, self.argpdot, t);
                    // a runaway integration (eccentricity next to 1) is chaotic: no well-defined value
                    if !((nn - self.ep.n).abs() < 0.3 * self.ep.n) { br |= 1 << 63; }
                    n = nn;
                    m = if k == Resonance::OneDay { l - node - argp + theta } else { l - 2.0 * node + 2.0 * theta };
                }
            }
        }
        if !(n > 0.0) { return (Err(Fail::MeanMotion), br | 1 << 40); }
        let a = (g.xke / n).powf(2.0 / 3.0) * ta * ta;
        if ta < 0.0 { br |= 1 << 39; }
        let n = g.xke / a.powf(1.5);
        e -= te;
        if !(e < 1.0 && e >= -0.001) { return (Err(Fail::Ecc), br | 1 << 41); }
        if e < 1.0e-6 { e = 1.0e-6; br |= 1 << 42; }
        m += self.ep.n * tl;
        *phase = m + argp + node;
        let xlm = (m + argp + node) % TAU;
        node %= TAU;
        argp %= TAU;
        m = (xlm - argp - node) % TAU;

        let mut o = Orb { e, i: incl, node, argp, m };
        if let Some(d) = &self.deep {
            let ds = long_period(&d.ls.sun, t);
            let dm = long_period(&d.ls.moon, t);
            let mut tot = [0.0; 5];
            for k in 0..5 { tot[k] = ds[k] + dm[k]; }
            o = apply_periodics(o, tot, el.mode, &mut br);
            if o.i < 0.0 {
                br |= 1 << 26;
                o.i = -o.i;
                o.node += PI;
                o.argp -= PI;
            }
            if !(o.e >= 0.0 && o.e <= 1.0) { return (Err(Fail::PertEcc), br | 1 << 43); }
        }
        let (sini, cosi) = o.i.sin_cos();
        let j3oj2 = g.j3 / g.j2;
        let aycof = -0.5 * j3oj2 * sini;
        // "divide by zero for inclination of 180 deg" guard of the published code
        let den = if (cosi + 1.0).abs() > 1.5e-12 { 1.0 + cosi } else { br |= 1 << 27; 1.5e-12 };
        // 1 + cos(i) is rounding noise there: the published formula has no well-defined value
        if den > 1.5e-12 && den < 1e-9 { br |= 1 << 63; }
        let xlcof = -0.25 * j3oj2 * sini * (3.0 + 5.0 * cosi) / den;

        let axn = o.e * o.argp.cos();
        let inv = 1.0 / (a * (1.0 - o.e * o.e));
        let ayn = o.e * o.argp.sin() + inv * aycof;
        let xl = o.m + o.argp + o.node + inv * xlcof * axn;

        // Kepler
        let u = (xl - o.node) % TAU;
        let mut eo = u;
        let mut se = 0.0;
        let mut ce = 0.0;
        let mut corr = f64::MAX;
        let mut iter = 0;
        while corr.abs() >= 1.0e-12 && iter < 10 {
            se = eo.sin();
            ce = eo.cos();
            corr = (u - ayn * ce + axn * se - eo) / (1.0 - ce * axn - se * ayn);
            corr = corr.clamp(-0.95, 0.95);
            eo += corr;
            iter += 1;
        }
        if !(corr.abs() < 1e-9) { br |= 1 << 63; }

        let ecose = axn * ce + ayn * se;
        let esine = axn * se - ayn * ce;
        let el2 = axn * axn + ayn * ayn;
        let pl = a * (1.0 - el2);
        if !(pl >= 0.0) { return (Err(Fail::SemiLatus), br | 1 << 44); }
        let r = a * (1.0 - ecose);
        let rdot = a.sqrt() * esine / r;
        let rfdot = pl.sqrt() / r;
        let beta = (1.0 - el2).sqrt();
        let esb = esine / (1.0 + beta);
        let sinu = a / r * (se - ayn - axn * esb);
        let cosu = a / r * (ce - axn + ayn * esb);
        let su0 = sinu.atan2(cosu);
        let sin2u = 2.0 * sinu * cosu;
        let cos2u = 1.0 - 2.0 * sinu * sinu;
        let k1 = 0.5 * g.j2 / pl;
        let k2 = k1 / pl;
        let th2 = cosi * cosi;
        let con41 = 3.0 * th2 - 1.0;
        let x1mth2 = 1.0 - th2;
        let mrt = r * (1.0 - 1.5 * k2 * beta * con41) + 0.5 * k1 * x1mth2 * cos2u;
        let su = su0 - 0.25 * k2 * (7.0 * th2 - 1.0) * sin2u;
        let xnode = o.node + 1.5 * k2 * cosi * sin2u;
        let xinc = o.i + 1.5 * k2 * cosi * sini * cos2u;
        let mvt = rdot - n * k1 * x1mth2 * sin2u / g.xke;
        let rvdot = rfdot + n * k1 * (x1mth2 * cos2u + 1.5 * con41) / g.xke;

        // orientation: rotate (cos su, sin su, 0) by inclination about x, then by node about z
        let (ss, cs) = su.sin_cos();
        let (sn, cn) = xnode.sin_cos();
        let (si, ci) = xinc.sin_cos();
        let rot = |x: f64, y: f64| -> [f64; 3] { [cn * x - sn * ci * y, sn * x + cn * ci * y, si * y] };
        let uu = rot(cs, ss);
        let vv = rot(-ss, cs);
        let vk = g.re * g.xke / 60.0;
        let mut st = State { r: [0.0; 3], v: [0.0; 3] };
        for k in 0..3 {
            st.r[k] = mrt * uu[k] * g.re;
            st.v[k] = (mvt * uu[k] + rvdot * vv[k]) * vk;
        }
        if !(mrt >= 1.0) { return (Err(Fail::Decayed), br | 1 << 45); }
        (Ok(st), br)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use super::super::time;

    fn parse(l1: &str, l2: &str) -> Elements {
        let f = |s: &str| s.trim().parse::<f64>().unwrap();
        let yy: i64 = l1[18..20].trim().parse().unwrap();
        let y = time::tle_year(yy);
        let jd = time::JD2000_MIDNIGHT + time::day_number(y, 1, 1) as f64 + (f(&l1[20..32]) - 1.0);
        let mant: f64 = f(&l1[53..59]) * 1e-5;
        let ex: i32 = l1[59..61].trim().parse().unwrap();
        let d = PI / 180.0;
        Elements {
            epoch: jd - 2433281.5, bstar: mant * 10f64.powi(ex),
            i: f(&l2[8..16]) * d, node: f(&l2[17..25]) * d, e: f(&l2[26..33]) * 1e-7,
            argp: f(&l2[34..42]) * d, m: f(&l2[43..51]) * d, n: f(&l2[52..63]) / (1440.0 / TAU), mode: Mode::Afspc,
        }
    }

    // Published verification output (tcppver, WGS-72, AFSPC mode).
    #[test]
    fn tcppver() {
        let cases: &[(&str, &str, &[(f64, [f64; 6])])] = &[
            ("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
             "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667",
             &[(0.0, [7022.46529266, -1400.08296755, 0.03995155, 1.893841015, 6.405893759, 4.534807250]),
               (360.0, [-7154.03120202, -3783.17682504, -3536.19412294, 4.741887409, -4.151817765, -2.093935425])]),
            ("1 88888U          80275.98708465  .00073094  13844-3  66816-4 0    87",
             "2 88888  72.8435 115.9689 0086731  52.6988 110.5714 16.05824518  1058",
             &[(0.0, [2328.96975262, -5995.22051338, 1719.97297192, 2.912073281, -0.983417956, -7.090816210]),
               (120.0, [1020.69234558, 2286.56260634, -6191.55565927, -3.746543902, 6.467532721, 1.827985678])]),
            ("1 11801U          80230.29629788  .01431103  00000-0  14311-1      13",
             "2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    13",
             &[(0.0, [7473.37102491, 428.94748312, 5828.74846783, 5.107155391, 6.444680305, -0.186133297]),
               (360.0, [-3305.22148694, 32410.84323331, -24697.16974954, -1.301137319, -1.151315600, -0.283335823]),
               (720.0, [14271.29083858, 24110.44309009, -4725.76320143, -0.320504528, 2.679841539, -2.084054355]),
               (1440.0, [9787.87836256, 33753.32249667, -15030.79874625, -1.094251553, 0.923589906, -1.522311008])]),
            ("1 08195U 75081A   06176.33215444  .00000099  00000-0  11873-3 0   813",
             "2 08195  64.1586 279.0717 6877146 264.7651  20.2257  2.00491383225656",
             &[(0.0, [2349.89483350, -14785.93811562, 0.02119378, 2.721488096, -3.256811655, 4.498416672]),
               (120.0, [15223.91713658, -17852.95881713, 25280.39558224, 1.079041732, 0.875187372, 2.485682813])]),
            ("1 28626U 05008A   06176.46683397 -.00000205  00000-0  10000-3 0  2190",
             "2 28626   0.0019 286.9433 0000335  13.7918  55.6504  1.00270176  4891",
             &[(0.0, [42080.71852213, -2646.86387436, 0.81851294, 0.193105177, 3.068688251, 0.000438449]),
               (120.0, [37740.00085593, 18802.76872802, 3.45512584, -1.371035206, 2.752105932, 0.000336883])]),
            ("1 04632U 70093B   04031.91070959 -.00000084  00000-0  10000-3 0  9955",
             "2 04632  11.4628 273.1101 1450506 207.6000 143.9350  1.20231981 44145",
             &[(0.0, [2334.11450085, -41920.44035349, -0.03867437, 2.826321032, -0.065091664, 0.570936053]),
               (-5184.0, [-29020.02587128, 13819.84419063, -5713.33679183, -1.768068390, -3.235371192, -0.395206135]),
               (-5064.0, [-32982.56870101, -11125.54996609, -6803.28472771, 0.617446996, -3.379240041, 0.085954707])]),
            ("1 09880U 77021A   06176.56157475  .00000421  00000-0  10000-3 0  9814",
             "2 09880  64.5968 349.3786 7069051 270.0229  16.3320  2.00813614112380",
             &[(0.0, [13020.06750784, -2449.07193500, 1.15896030, 4.247363935, 1.597178501, 4.956708611]),
               (120.0, [19190.32482476, 9249.01266902, 26596.71345328, -0.624960193, 1.324550562, 2.495697637])]),
            ("1 06251U 62025E   06176.82412014  .00008885  00000-0  12808-3 0  3985",
             "2 06251  58.0579  54.0425 0030035 139.1568 221.1854 15.56387291  6774",
             &[(0.0, [3988.31022699, 5498.96657235, 0.90055879, -3.290032738, 2.357652820, 6.496623475]),
               (120.0, [-3935.69800083, 409.10980837, 5471.33577327, -3.374784183, -6.635211043, -1.942056221])]),
        ];
        for (l1, l2, rows) in cases {
            let m = Model::new(&parse(l1, l2), &wgs72());
            for (t, want) in rows.iter() {
                let (st, _) = m.propagate(*t);
                let st = st.unwrap();
                for k in 0..3 {
                    assert!((st.r[k] - want[k]).abs() < 2e-8, "{} t={} r={:?} want {:?}", &l1[2..7], t, st.r, want);
                    assert!((st.v[k] - want[k + 3]).abs() < 2e-9, "{} t={} v={:?} want {:?}", &l1[2..7], t, st.v, want);
                }
            }
        }
    }
}
