//! Generators shared by the properties.

use crate::oracle::sgp4::{Elements, Mode};
use crate::mine::{self, spice, spice_f, spice_i64, spice_u32};
use crate::oracle::time;
use crate::oracle::tle::{Implied, Tle};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// Offsets below (and whole turns above) TLE resolution, for entry through the initialiser.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Jitter { pub e: f64, pub i: f64, pub node: f64, pub argp: f64, pub m: f64, pub n: f64, pub turns: [i8; 3] }

/// An element set and how it reaches the library: as text, or (jitter given) through the initialiser.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Orbit { pub tle: Tle, pub afspc: bool, pub jit: Option<Jitter> }

impl Orbit {
    pub fn text(&self) -> bool { self.jit.is_none() && !self.afspc }
    pub fn elements(&self) -> Elements {
        let mut el = self.tle.elements(if self.afspc { Mode::Afspc } else { Mode::Improved });
        if let Some(j) = self.jit {
            let q = 1e-4 * PI / 180.0;
            el.e += j.e * 1e-7;
            el.i = (el.i + j.i * q).min(PI);
            el.node += j.node * q + j.turns[0] as f64 * time::TAU;
            el.argp += j.argp * q + j.turns[1] as f64 * time::TAU;
            el.m += j.m * q + j.turns[2] as f64 * time::TAU;
            el.n += j.n * 1e-8 * time::TAU / 1440.0;
        }
        el
    }
}

pub fn jitter() -> BoxedStrategy<Option<Jitter>> {
    let one = prop_oneof![
        // exact TLE values through the initialiser
        1 => Just(Jitter { e: 0.0, i: 0.0, node: 0.0, argp: 0.0, m: 0.0, n: 0.0, turns: [0; 3] }),
        3 => (0.0..1.0f64, 0.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64, 0.0..1.0f64, prop_oneof![12 => Just([0i8; 3]), 4 => [-2i8..3, -2i8..3, -2i8..3], 1 => [any::<i8>(), any::<i8>(), any::<i8>()]])
            .prop_map(|(e, i, node, argp, m, n, turns)| Jitter { e, i, node, argp, m, n, turns }),
    ];
    prop_oneof![3 => Just(None), 2 => one.prop_map(Some)].boxed()
}

pub fn incl() -> BoxedStrategy<u32> {
    spice_u32(prop_oneof![
        8 => 0u32..=1_800_000,
        2 => select(vec![0u32, 1, 10, 100, 1000, 29_998, 29_999, 30_000, 30_001, 30_002, 114_590, 114_591, 114_592, 114_593, 280_000, 517_000, 634_349, 634_350, 900_000, 899_999, 900_001, 1_165_650, 1_770_000, 1_769_999, 1_770_001, 1_799_999, 1_799_000, 1_800_000]),
        2 => 0u32..150_000,
        1 => 1_700_000u32..1_800_000,
        1 => 100_000u32..130_000,
    ].boxed(), mine::ANGLE_DEG, 1e4, 1_800_000)
}

pub fn angle() -> BoxedStrategy<u32> {
    spice(prop_oneof![
        6 => 0u32..3_600_000,
        1 => select(vec![0u32, 1, 900_000, 1_799_999, 1_800_000, 1_800_001, 2_700_000, 3_599_999, 3_600_000]),
    ].boxed(), mine::ANGLE_DEG, |v| if v.abs() < 1e5 { Some((v.rem_euclid(360.0) * 1e4).round() as u32) } else { None })
}

pub const YEAR_OF: &[mine::Reading] = &[|v| v, |v| v - 1900.0, |v| v - 2000.0];
pub const FRAC_OF: &[mine::Reading] = &[|v| v, |v| v / 24.0, |v| v / 1440.0, |v| v / 86400.0, |v| v.fract(), |v| v * 1e-8, |v| v / 1000.0];

/// (two-digit year, day of year in 1e-8 days)
pub fn epoch() -> BoxedStrategy<(u8, u64)> {
    let yy = prop_oneof![4 => 0u8..100, 1 => select(vec![0u8, 1, 4, 56, 57, 58, 60, 68, 69, 70, 96, 99])];
    let doy = prop_oneof![4 => 0u32..366, 1 => select(vec![0u32, 30, 31, 58, 59, 60, 89, 90, 180, 364, 365])];
    let frac = prop_oneof![4 => 0u64..100_000_000, 1 => select(vec![0u64, 1, 25_000_000, 50_000_000, 99_999_999, 99_999_998, 4_166_667])];
    let yy = spice(yy.boxed(), YEAR_OF, |v| if (0.0..100.0).contains(&v.round()) { Some(v.round() as u8) } else { None });
    let doy = spice_u32(doy.boxed(), &[|v| v - 1.0, |v| v], 1.0, 365);
    let frac = spice(frac.boxed(), FRAC_OF, |v| if (0.0..1.0).contains(&v) { Some((v * 1e8).round().min(99_999_999.0) as u64) } else { None });
    let base = (yy, doy, frac).prop_map(|(yy, d, f)| {
        let len = time::year_len(time::tle_year(yy as i64)) as u64;
        (yy, (d as u64 % len + 1) * 100_000_000 + f)
    }).boxed();
    // whole epochs: Julian dates, days since 1950, days since 2000, centuries since 2000
    spice(base, &[|v| v, |v| v + 2433281.5, |v| v + 2451545.0, |v| v * 36525.0 + 2451545.0, |v| v + 2400000.5, |v| v + 7305.0 + 2433281.5], |jd| {
        if !(2435839.5..2472364.0).contains(&jd) { return None; }
        let d = jd - 2451544.5;
        let mut y = 1957;
        while y < 2057 && time::day_number(y + 1, 1, 1) <= d.floor() as i64 { y += 1; }
        let doy = d.floor() as i64 - time::day_number(y, 1, 1) + 1;
        if !(1957..=2056).contains(&y) { return None; }
        Some(((y % 100) as u8, doy as u64 * 100_000_000 + ((d - d.floor()) * 1e8).round().min(99_999_999.0) as u64))
    })
}

/// the nearest number of the implied-decimal form
pub fn to_implied(v: f64) -> Option<Implied> {
    if v == 0.0 { return Some(Implied { neg: false, mant: 0, exp: 0, plus: false }); }
    let (m, x) = (v.abs(), v.abs().log10().floor() as i32 + 1);
    let (mut mant, mut exp) = ((m * 10f64.powi(5 - x)).round(), x);
    if mant > 99_999.0 { mant = (mant / 10.0).round(); exp += 1; }
    if exp < -9 { mant = (m * 10f64.powi(14)).round(); exp = -9; }
    if !(mant >= 0.0 && mant <= 99_999.0) || exp > 9 { return None; }
    Some(Implied { neg: v < 0.0, mant: mant as u32, exp: exp as i8, plus: false })
}

pub fn implied(exp: std::ops::Range<i8>) -> BoxedStrategy<Implied> {
    let (lo, hi) = (exp.start, exp.end);
    let base = implied_base(exp);
    // mined numbers as the value, or as the mantissa
    let base = spice(base, &[|v| v, |v| -v, |v| v * 1e-5, |v| -v * 1e-5], move |v| to_implied(v).filter(|i| i.mant == 0 || (i.exp >= lo - 1 && i.exp < hi)));
    spice(base, &[|v| v], move |v| if v >= 0.0 && v <= 99_999.0 && v.fract() == 0.0 { Some(Implied { neg: false, mant: v as u32, exp: lo, plus: false }) } else { None })
}
fn implied_base(exp: std::ops::Range<i8>) -> BoxedStrategy<Implied> {
    (prop_oneof![3 => Just(false), 1 => Just(true)],
     prop_oneof![4 => 0u32..100_000, 1 => 0u32..1000, 1 => select(vec![0u32, 1, 10, 99, 100, 999, 1000, 9999, 10_000, 12_345, 99_999])],
     exp, any::<bool>())
        .prop_map(|(neg, mant, exp, plus)| Implied { neg, mant, exp, plus: plus && !neg }).boxed()
}

pub fn bstar() -> BoxedStrategy<Implied> {
    prop_oneof![
        1 => Just(Implied { neg: false, mant: 0, exp: 0, plus: false }),
        6 => implied(-5..-2),
        2 => implied(-2..0),
        1 => implied(-9..2),
    ].boxed()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Regime { Near, Deep, OneDay, HalfDay, Border, Raw }

pub const MU: f64 = 398600.5;
pub const RE: f64 = 6378.137;

fn n_of_a(a_km: f64) -> u64 {
    ((MU / (a_km * a_km * a_km)).sqrt() * 86400.0 / time::TAU * 1e8).round() as u64
}
fn a_of_n(n: f64) -> f64 { // rev/day
    let w = n * time::TAU / 86400.0;
    (MU / (w * w)).cbrt()
}

#[derive(Clone, Copy, Debug)]
enum Ecc { Abs(u32), Frac(f64) }

fn ecc() -> BoxedStrategy<Ecc> {
    spice(prop_oneof![
        4 => (0.0..1.0f64).prop_map(|x| Ecc::Frac(x * x)),
        1 => Just(Ecc::Abs(0)),
        1 => (0u32..2500).prop_map(Ecc::Abs),
        1 => select(vec![1u32, 9, 10, 11, 999, 1000, 1001, 2000]).prop_map(Ecc::Abs),
        2 => (0u32..300_000).prop_map(Ecc::Abs),
        1 => (0.9..1.0f64).prop_map(Ecc::Frac),
    ].boxed(), mine::ECC, |v| if (0.0..1.0).contains(&v) { Some(Ecc::Abs((v * 1e7).round().min(9_999_999.0) as u32)) } else { None })
}

/// lowest perigee height (km); now and then inside the Earth, which the theory declares a failure only where the satellite is there
fn floor() -> BoxedStrategy<f64> { prop_oneof![6 => Just(150.0f64), 1 => -2500.0..150.0f64].boxed() }

fn pick(e: Ecc, emax: f64) -> u32 {
    let top = (emax.clamp(0.0, 0.9999999) * 1e7) as u32;
    match e { Ecc::Abs(x) => x.min(top), Ecc::Frac(f) => (f * top as f64) as u32 }
}

/// one time in several the mean motion (rev/day) of a mined number, with perigee above `-low` km
fn by_motion(base: BoxedStrategy<(u64, u32)>, lo: f64, hi: f64, low: f64) -> BoxedStrategy<(u64, u32)> {
    if mine::mined().nums.is_empty() { return base; }
    let n = spice(Just(0.0f64).boxed(), mine::MOTION, move |v| if v >= lo && v <= hi { Some(v) } else { None });
    (base, n, ecc()).prop_map(move |(b, n, e)| if n == 0.0 { b } else { ((n * 1e8).round() as u64, pick(e, 1.0 - (RE - low) / a_of_n(n))) }).boxed()
}

/// (n, ecc) in TLE units
pub fn shape(r: Regime) -> BoxedStrategy<(u64, u32)> {
    match r {
        Regime::Near => {
            let hp = prop_oneof![
                5 => 160.0..1500.0f64,
                2 => 60.0..260.0f64,
                1 => (select(vec![98.0f64, 156.0, 220.0]), -8.0..8.0f64).prop_map(|(a, b)| a + b),
                2 => 1500.0..5500.0f64,
                1 => -1500.0..100.0f64,
            ];
            let hp = spice(hp.boxed(), mine::RADIUS, |r| if (RE - 1500.0..12_200.0).contains(&r) { Some(r - RE) } else { None });
            let rp = (hp, ecc()).prop_map(|(hp, e)| {
                let rp = RE + hp;
                let e = pick(e, 1.0 - rp / 12_230.0);
                (n_of_a(rp / (1.0 - e as f64 * 1e-7)), e)
            }).boxed();
            // mined mean motions
            by_motion(rp, 6.4, 17.4, 1500.0)
        }
        Regime::Deep => {
            let n = prop_oneof![
                4 => 0.2..6.39f64,
                2 => 2.13..6.39f64,
                1 => 1.21..1.88f64,
                1 => 0.02..0.8f64,
                1 => (select(vec![0.8f64, 1.2, 1.893_05, 2.117_66]), -0.02..0.02f64).prop_map(|(a, b)| a + b),
            ];
            let n = spice_f(n.boxed(), mine::MOTION, 0.02, 6.39);
            (n, ecc(), floor()).prop_map(|(n, e, h)| {
                let emax = 1.0 - (RE + h) / a_of_n(n);
                ((n * 1e8).round() as u64, pick(e, emax))
            }).boxed()
        }
        Regime::OneDay => {
            let n = prop_oneof![
                3 => 0.8..1.2f64,
                3 => 0.99..1.015f64,
                1 => (select(vec![0.8f64, 1.2]), -0.003..0.003f64).prop_map(|(a, b)| a + b),
            ];
            let n = spice_f(n.boxed(), mine::MOTION, 0.797, 1.203);
            (n, ecc(), floor()).prop_map(|(n, e, h)| ((n * 1e8).round() as u64, pick(e, 1.0 - (RE + h) / a_of_n(n)))).boxed()
        }
        Regime::HalfDay => {
            let n = prop_oneof![
                3 => 1.893..2.1177f64,
                3 => 1.99..2.02f64,
                1 => (select(vec![1.893_05f64, 2.117_66]), -0.003..0.003f64).prop_map(|(a, b)| a + b),
            ];
            let n = spice_f(n.boxed(), mine::MOTION, 1.89, 2.121);
            let e = prop_oneof![
                5 => 5_000_000u32..7_500_000,
                1 => select(vec![4_999_999u32, 5_000_000, 5_000_001, 6_499_999, 6_500_000, 6_500_001, 6_999_999, 7_000_000, 7_000_001, 7_149_999, 7_150_000, 7_150_001]),
                1 => 7_100_000u32..7_600_000,
            ];
            let e = spice(e.boxed(), mine::ECC, |v| if (0.5..0.78).contains(&v) { Some((v * 1e7).round() as u32) } else { None });
            (n, e).prop_map(|(n, e)| {
                let emax = 1.0 - (RE + 120.0) / a_of_n(n);
                ((n * 1e8).round() as u64, e.min((emax * 1e7) as u32))
            }).boxed()
        }
        // around the 225-minute border
        Regime::Border => (6.36..6.44f64, ecc(), floor()).prop_map(|(n, e, h)| {
            ((n * 1e8).round() as u64, pick(e, 1.0 - (RE + h) / a_of_n(n)))
        }).boxed(),
        // anything the columns can hold
        Regime::Raw => (spice_i64(prop_oneof![3 => 0i64..2_000_000_000, 2 => 0i64..10_000_000_000, 1 => 0i64..100_000_000, 1 => select(vec![0i64, 1, 2, 1000, 100_000_000, 1_700_000_000, 9_999_999_999])].boxed(), mine::MOTION, 1e8, 0, 9_999_999_999).prop_map(|n| n as u64),
                        spice_u32(prop_oneof![2 => 0u32..10_000_000, 1 => 9_000_000u32..10_000_000, 1 => 0u32..100_000, 1 => select(vec![0u32, 1, 9_999_999, 9_999_990, 9_990_000])].boxed(), mine::ECC, 1e7, 9_999_999)).boxed(),
    }
}

pub fn tle(r: Regime) -> BoxedStrategy<Tle> {
    let bs = if r == Regime::Raw { prop_oneof![1 => bstar(), 2 => implied(-9..10)].boxed() } else { bstar() };
    // numbers and derivatives play no part in the theory; they vary only when the source holds something to aim at
    let aside = if mine::mined().nums.is_empty() && mine::mined().words.is_empty() { Just((5u32, 0u32)).boxed() } else { (spice_u32((0u32..100_000).boxed(), mine::PLAIN, 1.0, 99_999), spice_u32(Just(0u32).boxed(), mine::PLAIN, 1e8, 99_999_999)).boxed() };
    // angles that equal or oppose one another
    let equal = prop_oneof![30 => Just(0u8), 1 => 1u8..9];
    (shape(r), epoch(), bs, incl(), angle(), angle(), angle(), (aside, equal))
        .prop_map(|((n, ecc), (yy, day), bstar, incl, mut node, mut argp, mut ma, ((num, ndot), equal))| {
            match equal {
                1 => argp = node, 2 => ma = argp, 3 => ma = node, 4 => node = incl, 5 => argp = incl,
                6 => { argp = node; ma = node; }
                7 => ma = (3_600_000 - argp) % 3_600_000,
                8 => argp = (3_600_000 - node) % 3_600_000,
                _ => {}
            }
            let mut t = Tle::simple();
            t.satnum = format!("{:05}", num); t.ndot = ndot;
            t.n = n; t.ecc = ecc; t.yy = yy; t.day = day; t.bstar = bstar; t.incl = incl; t.node = node; t.argp = argp; t.ma = ma;
            t
        }).boxed()
}

pub fn orbit(r: Regime) -> BoxedStrategy<Orbit> {
    (tle(r), prop_oneof![2 => Just(false), 1 => Just(true)], jitter()).prop_map(|(tle, afspc, jit)| Orbit { tle, afspc, jit }).boxed()
}

pub fn any_orbit() -> BoxedStrategy<Orbit> {
    prop_oneof![4 => orbit(Regime::Near), 3 => orbit(Regime::Deep), 2 => orbit(Regime::OneDay), 2 => orbit(Regime::HalfDay), 1 => orbit(Regime::Border)].boxed()
}

/// signed log-uniform magnitude
pub fn logu(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    (lo.ln()..hi.ln(), any::<bool>()).prop_map(|(x, s)| if s { -x.exp() } else { x.exp() }).boxed()
}

pub fn minutes(max: f64) -> BoxedStrategy<f64> {
    spice_f(prop_oneof![
        2 => -1440.0..1440.0f64,
        1 => Just(0.0f64),
        1 => (-40i32..41).prop_map(|k| k as f64 * 720.0),
        1 => (-40i32..41, -1i32..2).prop_map(|(k, d)| k as f64 * 720.0 + d as f64 * 1e-6),
        1 => (-60i32..61).prop_map(|k| k as f64 * 360.0),
        3 => logu(1e-3, max),
        2 => -43200.0..43200.0f64,
    ].boxed(), mine::MINUTES, -max, max)
}

/// the first set with some elements of another one, or moved into another branch of the theory
pub fn relative(first: &Tle, o: &Tle, mix: u16) -> Tle {
    let mut t = first.clone();
    if mix & 1 != 0 { t.ma = o.ma; }
    if mix & 2 != 0 { t.node = o.node; }
    if mix & 4 != 0 { t.argp = o.argp; }
    if mix & 8 != 0 { t.yy = o.yy; t.day = o.day; }
    if mix & 16 != 0 { t.incl = o.incl; }
    if mix & 32 != 0 { t.bstar = o.bstar; }
    if mix & 64 != 0 { t.satnum = o.satnum.clone(); }
    match mix >> 7 & 7 {
        1 => t.ecc = o.ecc % 1000,
        2 => t.bstar.mant = 0,
        3 => t.n = o.n,
        4 => { t.ecc = o.ecc % 1000; t.bstar = o.bstar; }
        _ => {}
    }
    t
}
