//! C13-C18: frames, coordinates, look angles, Doppler factor, vectors.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::logu;
use crate::mine::{self, spice_f};
use crate::oracle::time::{ang_diff, TAU};
use crate::sutx::{dist, norm};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use satellite::{transforms as tr, Geodedic, TopoCentric, Vec3};
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

pub type V = [f64; 3];

pub fn v3(a: &V) -> Vec3 { Vec3 { x: a[0], y: a[1], z: a[2] } }
pub fn arr(v: &Vec3) -> V { [v.x, v.y, v.z] }
pub fn add(a: &V, b: &V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn sub(a: &V, b: &V) -> V { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn scale(a: &V, k: f64) -> V { [a[0] * k, a[1] * k, a[2] * k] }
pub fn dot(a: &V, b: &V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
pub fn rotz(a: &V, w: f64) -> V { let (s, c) = w.sin_cos(); [c * a[0] - s * a[1], s * a[0] + c * a[1], a[2]] }
fn rotx(a: &V, w: f64) -> V { let (s, c) = w.sin_cos(); [a[0], c * a[1] - s * a[2], s * a[1] + c * a[2]] }

fn comp(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    spice_f(prop_oneof![6 => logu(lo, hi), 1 => Just(0.0f64), 1 => select(vec![1.0f64, -1.0, 6378.137, -42164.0])].boxed(), mine::LENGTH, -hi, hi)
}
/// now and then of a mined length
fn long(base: BoxedStrategy<V>) -> BoxedStrategy<V> {
    if mine::mined().nums.is_empty() { return base; }
    (base, spice_f(Just(0.0f64).boxed(), mine::LENGTH, 1e-3, 1e7)).prop_map(|(v, l)| { let n = norm(&v); if l == 0.0 || n == 0.0 { v } else { scale(&v, l / n) } }).boxed()
}
fn vec_any() -> BoxedStrategy<V> {
    // components that equal or oppose one another
    (vec_base(), prop_oneof![30 => Just(0u8), 1 => 1u8..7]).prop_map(|(mut v, k)| { match k { 1 => v[1] = v[0], 2 => v[2] = v[1], 3 => v[1] = -v[0], 4 => { v[1] = v[0]; v[2] = v[0]; } 5 => v[2] = -v[0], 6 => v[2] = v[0], _ => {} } v }).boxed()
}
fn vec_base() -> BoxedStrategy<V> { long(prop_oneof![3 => [comp(1e-3, 1e7), comp(1e-3, 1e7), comp(1e-3, 1e7)], 2 => [-5e4..5e4f64, -5e4..5e4f64, -5e4..5e4f64]].boxed()) }

fn gmst() -> BoxedStrategy<f64> {
    let base = prop_oneof![4 => 0.0..TAU, 2 => -40.0..40.0f64, 1 => (-16i32..17).prop_map(|k| k as f64 * FRAC_PI_2), 1 => (-6i32..7, logu(1e-12, 1e-3)).prop_map(|(k, d)| k as f64 * PI + d)].boxed();
    spice_f(base, mine::ANGLE_RAD, -40.0, 40.0)
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Turn { pub v: V, pub gmst: f64, pub turns: i8 }

pub struct C13;
impl Prop for C13 {
    const ID: &'static str = "C13";
    const RULE: &'static str = "random vectors (components 0, 1e-3..1e7 km, both signs) x random sidereal angles (quadrant boundaries, several turns, negative) x whole-turn shifts; non-trivial: the angle is not a multiple of a turn and the vector has an equatorial component";
    const ASSUMPTIONS: &'static [&'static str] = &["relative agreement 1e-13 per unit of angle"];
    type Case = Turn;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 24_000_000 } else { 360_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Turn> {
        (vec_any(), gmst(), -3i8..4).prop_map(|(v, gmst, turns)| Turn { v, gmst, turns }).boxed()
    }
    fn check(c: &Turn, obs: &mut Obs) -> Verdict {
        let n = norm(&c.v);
        let tol = 1e-13 * n * (1.0 + c.gmst.abs());
        obs.nontrivial = c.gmst.sin().abs() > 1e-9 && c.v[0].hypot(c.v[1]) > 0.0;
        let f = arr(&sut(|| tr::eci_to_ecf(&v3(&c.v), c.gmst))?);
        let e = arr(&sut(|| tr::ecf_to_eci(&v3(&c.v), c.gmst))?);
        let close = |what: &str, a: &V, b: &V, t: f64| if dist(a, b) <= t { Ok(()) } else { Err(format!("{}: {:?}, expected {:?}", what, a, b)) };
        close("inertial to Earth-fixed", &f, &rotz(&c.v, -c.gmst), tol)?;
        close("Earth-fixed to inertial", &e, &rotz(&c.v, c.gmst), tol)?;
        for (w, x) in [("inertial to Earth-fixed", &f), ("Earth-fixed to inertial", &e)] {
            if !((norm(x) - n).abs() <= 1e-14 * n) { return Err(format!("{}: length {} becomes {}", w, n, norm(x))); }
            if x[2] != c.v[2] { return Err(format!("{}: polar component {} becomes {}", w, c.v[2], x[2])); }
        }
        close("there and back", &arr(&sut(|| tr::ecf_to_eci(&v3(&f), c.gmst))?), &c.v, tol)?;
        close("back and there", &arr(&sut(|| tr::eci_to_ecf(&v3(&e), c.gmst))?), &c.v, tol)?;
        let g2 = c.gmst + c.turns as f64 * TAU;
        let t2 = 1e-13 * n * (1.0 + g2.abs() + c.gmst.abs());
        close("whole turns, inertial to Earth-fixed", &arr(&sut(|| tr::eci_to_ecf(&v3(&c.v), g2))?), &f, t2)?;
        close("whole turns, Earth-fixed to inertial", &arr(&sut(|| tr::ecf_to_eci(&v3(&c.v), g2))?), &e, t2)
    }
}

// ---------------------------------------------------------------- C14

const A: f64 = 6378.137;
const B: f64 = 6356.7523142;

/// Point at height h along the ellipsoid normal, and the normal.
pub fn geodetic(lat: f64, lon: f64, h: f64) -> (V, V) {
    let (sp, cp) = lat.sin_cos();
    let (sl, cl) = lon.sin_cos();
    let d = ((A * cp).powi(2) + (B * sp).powi(2)).sqrt();
    let foot = [A * A * cp / d * cl, A * A * cp / d * sl, B * B * sp / d];
    let up = [cp * cl, cp * sl, sp];
    (add(&foot, &scale(&up, h)), up)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place { pub lat: f64, pub lon: f64, pub h: f64, pub gmst: f64 }

pub fn latitude() -> BoxedStrategy<f64> {
    spice_f(latitude_base(), mine::ANGLE_RAD, -FRAC_PI_2, FRAC_PI_2)
}
fn latitude_base() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -FRAC_PI_2..FRAC_PI_2,
        1 => select(vec![0.0f64, FRAC_PI_2, -FRAC_PI_2, PI / 4.0, -PI / 4.0]),
        1 => (logu(1e-12, 1e-2), any::<bool>()).prop_map(|(d, s)| { let x = FRAC_PI_2 - d.abs(); if s { x } else { -x } }),
        1 => logu(1e-12, 1e-2),
    ].boxed()
}
pub fn longitude() -> BoxedStrategy<f64> {
    spice_f(prop_oneof![12 => longitude_base(), 1 => -TAU..TAU].boxed(), mine::ANGLE_RAD, -TAU, TAU)
}
fn longitude_base() -> BoxedStrategy<f64> {
    prop_oneof![
        5 => -PI..PI,
        1 => select(vec![0.0f64, PI, -PI, FRAC_PI_2, -FRAC_PI_2]),
        1 => (logu(1e-12, 1e-2), any::<bool>()).prop_map(|(d, s)| { let x = PI - d.abs(); if s { x } else { -x } }),
    ].boxed()
}
fn height() -> BoxedStrategy<f64> {
    spice_f(prop_oneof![3 => -10.0..10.0f64, 3 => 10.0..2000.0f64, 2 => 2000.0..50_000.0f64, 1 => 50_000.0..500_000.0f64, 1 => Just(0.0f64)].boxed(), mine::LENGTH, -10.0, 500_000.0)
}

pub struct C14;
impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "random latitude (poles and their neighbourhood, equator), longitude (date line and its neighbourhood), height -10..500000 km, sidereal angle of several turns; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["1e-8 km in position, 1e-9 rad in latitude, 1e-6 km in height; longitude is not compared within 1e-9 rad of a pole, where it is undefined"];
    type Case = Place;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 16_000_000 } else { 240_000_000 } }
    fn fixed(_: Tier) -> Vec<Place> {
        let mut v = vec![];
        for i in -18..=18 { for j in -12..=12 { for h in [-10.0, 0.0, 0.37, 400.0, 35786.0, 400000.0] { for g in [0.0, 3.0, -7.0] {
            v.push(Place { lat: i as f64 * PI / 36.0, lon: j as f64 * PI / 12.0, h, gmst: g });
        } } } }
        v
    }
    fn strategy(_: Tier) -> BoxedStrategy<Place> {
        // and angles that equal or oppose one another
        (latitude(), longitude(), height(), gmst(), prop_oneof![30 => Just(0u8), 1 => 1u8..5]).prop_map(|(lat, mut lon, h, mut gmst, k)| {
            match k { 1 => lon = lat, 2 => gmst = lon, 3 => gmst = -lon, 4 => gmst = lat, _ => {} }
            Place { lat, lon, h, gmst }
        }).boxed()
    }
    fn check(c: &Place, obs: &mut Obs) -> Verdict {
        obs.nontrivial = true;
        let (p, _) = geodetic(c.lat, c.lon, c.h);
        let r = norm(&p);
        let got = arr(&sut(|| tr::geodedic_to_ecf(&Geodedic { latitude: c.lat, longitude: c.lon, height: c.h }))?);
        if !(dist(&got, &p) <= 1e-8 + 1e-13 * r) { return Err(format!("Cartesian position {:?}, expected {:?}", got, p)); }
        let eci = rotz(&p, c.gmst);
        let g = sut(|| tr::eci_to_geodedic(&v3(&eci), c.gmst))?;
        let pole = FRAC_PI_2 - c.lat.abs();
        if pole < 1e-3 { obs.label("next to a pole"); }
        if PI - c.lon.abs() < 1e-3 { obs.label("next to the date line"); }
        if !((g.latitude - c.lat).abs() <= 1e-9) { return Err(format!("recovered latitude {} instead of {}", g.latitude, c.lat)); }
        if !((g.height - c.h).abs() <= 1e-6) { return Err(format!("recovered height {} instead of {}", g.height, c.h)); }
        if !(g.latitude.abs() <= FRAC_PI_2 + 1e-12) { return Err(format!("recovered latitude {} beyond a quarter turn", g.latitude)); }
        if !(g.longitude.abs() <= PI + 1e-12) { return Err(format!("recovered longitude {} beyond half a turn", g.longitude)); }
        if pole > 1e-9 {
            let tol = 1e-11 + 1e-13 * c.gmst.abs() + 1e-13 / pole;
            if !(ang_diff(g.longitude, c.lon) <= tol) { return Err(format!("recovered longitude {} instead of {}", g.longitude, c.lon)); }
        }
        // the library's own way there and back
        let e2 = sut(|| tr::ecf_to_eci(&v3(&got), c.gmst))?;
        let g2 = sut(|| tr::eci_to_geodedic(&e2, c.gmst))?;
        let back = arr(&sut(|| tr::geodedic_to_ecf(&g2))?);
        if !(dist(&back, &p) <= 2e-6 + 1e-9 * r) { return Err(format!("there and back: {:?} instead of {:?}", back, p)); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Target { Point(V), Offset { az: f64, el: f64, range: f64 } }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Look { pub lat: f64, pub lon: f64, pub h: f64, pub target: Target }

pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "random observer x random target (point in space, or azimuth/elevation/range offset with cardinal directions, horizon, zenith and nadir); the target is reconstructed from the reported angles in an independently built local frame; non-trivial: target at least 1 m away";
    const ASSUMPTIONS: &'static [&'static str] = &["reconstruction to 1e-6 km + 1e-9 of the range (1e-7 within 2.6 degrees of zenith or nadir, where the arc sine is steep)"];
    type Case = Look;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 20_000_000 } else { 300_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Look> {
        let az = prop_oneof![3 => 0.0..TAU, 1 => (0i32..8).prop_map(|k| k as f64 * PI / 4.0), 1 => (0i32..5, logu(1e-9, 1e-3)).prop_map(|(k, d)| k as f64 * FRAC_PI_2 + d)];
        let el = prop_oneof![4 => -FRAC_PI_2..FRAC_PI_2, 1 => select(vec![0.0f64, FRAC_PI_2, -FRAC_PI_2]), 1 => logu(1e-9, 1e-2), 1 => (logu(1e-7, 1e-2), any::<bool>()).prop_map(|(d, s)| if s { FRAC_PI_2 - d.abs() } else { d.abs() - FRAC_PI_2 })];
        let range = prop_oneof![2 => 0.01..100.0f64, 4 => 100.0..5000.0f64, 2 => 5000.0..500_000.0f64];
        let (az, el, range) = (spice_f(az.boxed(), mine::ANGLE_RAD, -TAU, 2.0 * TAU), spice_f(el.boxed(), mine::ANGLE_RAD, -FRAC_PI_2, FRAC_PI_2), spice_f(range.boxed(), mine::LENGTH, 0.01, 500_000.0));
        let target = prop_oneof![
            3 => (az, el, range).prop_map(|(az, el, range)| Target::Offset { az, el, range }),
            2 => long([-5e4..5e4f64, -5e4..5e4f64, -5e4..5e4f64].boxed()).prop_map(Target::Point),
            1 => Just(Target::Point([0.0; 3])),
        ];
        (latitude(), longitude(), spice_f(prop_oneof![2 => -0.5..9.0f64, 1 => 0.0..40_000.0f64].boxed(), mine::LENGTH, -0.5, 40_000.0), target).prop_map(|(lat, lon, h, target)| Look { lat, lon, h, target }).boxed()
    }
    fn check(c: &Look, obs: &mut Obs) -> Verdict {
        let (p, up) = geodetic(c.lat, c.lon, c.h);
        let (sp, cp) = c.lat.sin_cos();
        let (sl, cl) = c.lon.sin_cos();
        let north = [-sp * cl, -sp * sl, cp];
        let east = [-sl, cl, 0.0];
        let q = match &c.target {
            Target::Point(q) => *q,
            Target::Offset { az, el, range } => {
                let (sa, ca) = az.sin_cos();
                let (se, ce) = el.sin_cos();
                add(&p, &scale(&add(&scale(&add(&scale(&north, ca), &scale(&east, sa)), ce), &scale(&up, se)), *range))
            }
        };
        let d = sub(&q, &p);
        let range = norm(&d);
        if range < 1e-3 { obs.label("too close"); return Ok(()); }
        obs.nontrivial = true;
        let obsr = Geodedic { latitude: c.lat, longitude: c.lon, height: c.h };
        let b = sut(|| tr::ecf_to_look_angles(&obsr, &v3(&q)))?;
        let base = 1e-8 + 1e-12 * range;
        if !((b.range - range).abs() <= base) { return Err(format!("range {} where the distance is {}", b.range, range)); }
        if !(b.elevation.abs() <= FRAC_PI_2 + 1e-12) { return Err(format!("elevation {} beyond a quarter turn", b.elevation)); }
        if !(b.azimuth >= -1e-12 && b.azimuth <= TAU + 1e-12) { return Err(format!("azimuth {} outside one non-negative turn", b.azimuth)); }
        let (sa, ca) = b.azimuth.sin_cos();
        let (se, ce) = b.elevation.sin_cos();
        let rec = add(&p, &scale(&add(&scale(&add(&scale(&north, ca), &scale(&east, sa)), ce), &scale(&up, se)), b.range));
        let steep = (dot(&d, &up) / range).abs() > 0.999;
        let tol = 1e-6 + range * if steep { 1e-7 } else { 1e-9 };
        if !(dist(&rec, &q) <= tol) { return Err(format!("following azimuth {} elevation {} range {} reaches {:?} instead of {:?}", b.azimuth, b.elevation, b.range, rec, q)); }
        let t = sut(|| tr::topocentric(&obsr, &v3(&q)))?;
        let w = [-dot(&d, &north), dot(&d, &east), dot(&d, &up)];
        let g = [t.top_s, t.top_e, t.top_z];
        if !(dist(&w, &g) <= base) { return Err(format!("south/east/up {:?}, expected {:?}", g, w)); }
        if !((norm(&g) - range).abs() <= base) { return Err(format!("south/east/up length {} where the distance is {}", norm(&g), range)); }
        let b2 = sut(|| tr::topocentric_to_look_angles(&TopoCentric { top_s: w[0], top_e: w[1], top_z: w[2] }))?;
        let (e1, e2) = ((b2.elevation - b.elevation).abs(), ang_diff(b2.azimuth, b.azimuth) * w[0].hypot(w[1]));
        if !((b2.range - range).abs() <= base && e1 <= 1e-6 && e2 <= 1e-6 + 1e-9 * range) { return Err(format!("look angles from components differ: {:?} / {:?}", b2, b)); }
        obs.label(match (dot(&d, &north) >= 0.0, dot(&d, &east) >= 0.0) { (true, true) => "north-east", (true, false) => "north-west", (false, true) => "south-east", _ => "south-west" });
        obs.label(if dot(&d, &up) >= 0.0 { "above the horizon" } else { "below the horizon" });
        Ok(())
    }
}

// ---------------------------------------------------------------- C16

pub struct C16;
impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "random finite angles over 600 orders of magnitude, uniform within and just outside the valid ranges, and the range ends with their floating-point neighbours (fixed list); each value is used as radians and as degrees; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["conversions to 4 units of rounding"];
    type Case = f64;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 8_000_000 } else { 120_000_000 } }
    fn fixed(_: Tier) -> Vec<f64> {
        let mut v = vec![0.0, -0.0];
        for x in [FRAC_PI_2, PI, TAU, 90.0, 180.0, 360.0, 270.0, 1.0, 0.5] {
            let mut up: f64 = x;
            let mut dn: f64 = x;
            v.push(x); v.push(-x);
            for _ in 0..8 {
                up = up.next_up(); dn = dn.next_down();
                v.extend([up, -up, dn, -dn]);
            }
            for k in 1..15 { let d = 10f64.powi(-k); v.extend([x + d, x - d, -x + d, -x - d]); }
        }
        for k in -3600..=3600 { v.push(k as f64 / 10.0); v.push(k as f64 * PI / 1800.0); }
        v
    }
    fn strategy(_: Tier) -> BoxedStrategy<f64> {
        let base = prop_oneof![
            3 => -200.0..200.0f64, 3 => -4.0..4.0f64, 1 => logu(1e-300, 1e300), 1 => -1e4..1e4f64,
            2 => (select(vec![FRAC_PI_2, PI, 90.0f64, 180.0]), logu(1e-14, 1.0), any::<bool>()).prop_map(|(x, d, s)| if s { x + d } else { -x + d }),
        ].boxed();
        spice_f(base, &[|v| v, |v| -v, |v| v.to_radians(), |v| -v.to_radians(), |v| v.to_degrees(), |v| -v.to_degrees()], -1e300, 1e300)
    }
    fn check(x: &f64, obs: &mut Obs) -> Verdict {
        let x = *x;
        obs.nontrivial = true;
        let close = |a: f64, b: f64| (a - b).abs() <= 9e-16 * b.abs() + 1e-310;
        let d = sut(|| tr::radians_to_degrees(x))?;
        let r = sut(|| tr::degrees_to_radians(x))?;
        if !close(d, x / PI * 180.0) { return Err(format!("{} rad -> {} deg", x, d)); }
        if !close(r, x / 180.0 * PI) { return Err(format!("{} deg -> {} rad", x, r)); }
        let (b1, b2) = (sut(|| tr::degrees_to_radians(d))?, sut(|| tr::radians_to_degrees(r))?);
        if !close(b1, x) { return Err(format!("{} rad -> {} deg -> {} rad", x, d, b1)); }
        if !close(b2, x) { return Err(format!("{} deg -> {} rad -> {} deg", x, r, b2)); }
        let mut guard = |name: &str, got: Result<f64, String>, ok: bool, want: f64| -> Verdict {
            obs.label(format!("{} {}", name, if ok { "inside" } else { "outside" }));
            match (got, ok) {
                (Ok(v), true) => if close(v, want) { Ok(()) } else { Err(format!("{}({}) = {}, expected {}", name, x, v, want)) },
                (Err(_), false) => Ok(()),
                (Ok(v), false) => Err(format!("{}({:?}) = {} although the value is out of range", name, x, v)),
                (Err(e), true) => Err(format!("{}({:?}) refused a valid value: {}", name, x, e)),
            }
        };
        guard("degrees_lat", sut(|| tr::degrees_lat(x)), x.abs() <= FRAC_PI_2, d)?;
        guard("degrees_long", sut(|| tr::degrees_long(x)), x.abs() <= PI, d)?;
        guard("radians_lat", sut(|| tr::radians_lat(x)), x.abs() <= 90.0, r)?;
        guard("radians_long", sut(|| tr::radians_long(x)), x.abs() <= 180.0, r)?;
        use satellite::constants as k;
        if !close(x * k::KM_TO_MI * k::MI_TO_KM, x) || !close(k::KM_TO_MI, 0.62137) { return Err(format!("km/mile factors do not undo each other: {} -> {}", x, x * k::KM_TO_MI * k::MI_TO_KM)); }
        if !close(x * k::DEG_2_RAD * k::RAD_TO_DEG, x) { return Err("angle factors do not undo each other".into()); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dop { pub loc: V, pub pos: V, pub vel: V, pub shift: V, pub rot: [f64; 2] }

pub struct C17;
impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "random observer location, satellite position and velocity at orbital scales (free, radial, tangential, chord of equal ranges, zero velocity), random translation and rotation of the configuration; compared with a cancellation-free formula for the range change; non-trivial: non-zero velocity";
    const ASSUMPTIONS: &'static [&'static str] = &["absolute agreement of the factor to 2e-15 plus the rounding of the ranges"];
    type Case = Dop;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 16_000_000 } else { 240_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Dop> {
        let unit = || [-1.0..1.0f64, -1.0..1.0f64, -1.0..1.0f64].prop_map(|a| { let n = norm(&a); if n < 1e-3 { [1.0, 0.0, 0.0] } else { scale(&a, 1.0 / n) } });
        let loc = prop_oneof![3 => unit().prop_map(|u| scale(&u, 6370.0)), 1 => Just([0.0; 3]), 1 => vec_any()];
        let off = (unit(), spice_f(prop_oneof![100.0..5000.0f64, 5000.0..500_000.0f64].boxed(), mine::LENGTH, 100.0, 500_000.0)).prop_map(|(u, r)| scale(&u, r));
        let kind = prop_oneof![4 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)];
        (loc, off, unit(), spice_f(prop_oneof![4 => 0.0..12.0f64, 1 => 0.0..0.01f64, 1 => 12.0..400.0f64].boxed(), mine::LENGTH, 0.0, 400.0), kind, [-2e4..2e4f64, -2e4..2e4f64, -2e4..2e4f64], [-7.0..7.0f64, -7.0..7.0f64])
            .prop_map(|(loc, off, u, speed, kind, shift, rot)| {
                let r = norm(&off);
                let e = scale(&off, 1.0 / r);
                let mut t = sub(&u, &scale(&e, dot(&u, &e)));
                let tn = norm(&t);
                t = if tn < 1e-6 { [0.0; 3] } else { scale(&t, 1.0 / tn) };
                let vel = match kind {
                    0 => scale(&u, speed),
                    1 => scale(&e, if u[0] < 0.0 { -speed } else { speed }),
                    2 => scale(&t, speed),
                    // chord: both ends at the same range
                    3 => { let a = speed / r; add(&scale(&e, r * (a.cos() - 1.0)), &scale(&t, r * a.sin())) }
                    _ => [0.0; 3],
                };
                Dop { loc, pos: add(&loc, &off), vel, shift, rot }
            }).boxed()
    }
    fn check(c: &Dop, obs: &mut Obs) -> Verdict {
        const C: f64 = 299792.458;
        let f = |l: &V, p: &V, v: &V| sut(|| satellite::doppler_factor::doppler_factor(v3(l), v3(p), v3(v)));
        let d = sub(&c.pos, &c.loc);
        let change = |d: &V, v: &V| { let s = norm(d) + norm(&add(d, v)); if s == 0.0 { 0.0 } else { (2.0 * dot(d, v) + dot(v, v)) / s } };
        let dr = change(&d, &c.vel);
        let big = norm(&c.loc) + norm(&c.pos) + norm(&c.vel) + norm(&c.shift);
        let tol = 2e-15 + 4e-15 * big / C;
        let got = f(&c.loc, &c.pos, &c.vel)?;
        obs.nontrivial = norm(&c.vel) > 0.0;
        obs.label(if dr > 1e-9 { "receding" } else if dr < -1e-9 { "approaching" } else { "no range change" });
        let want = 1.0 + dr.abs() / C;
        if !((got - want).abs() <= tol) { return Err(format!("factor {:.17}, expected {:.17} (range change {} km in one second)", got, want, dr)); }
        if !(got >= 1.0) { return Err(format!("factor {:.17} below one", got)); }
        if f(&c.loc, &c.pos, &[0.0; 3])? != 1.0 { return Err("factor differs from one without motion".into()); }
        let moved = f(&add(&c.loc, &c.shift), &add(&c.pos, &c.shift), &c.vel)?;
        if !((moved - got).abs() <= 2.0 * tol) { return Err(format!("factor {:.17} becomes {:.17} when everything is translated by {:?}", got, moved, c.shift)); }
        let ro = |a: &V| rotx(&rotz(a, c.rot[0]), c.rot[1]);
        let turned = f(&ro(&c.loc), &ro(&c.pos), &ro(&c.vel))?;
        if !((turned - got).abs() <= 2.0 * tol) { return Err(format!("factor {:.17} becomes {:.17} when everything is rotated", got, turned)); }
        let back = f(&c.loc, &add(&c.pos, &c.vel), &scale(&c.vel, -1.0))?;
        if !((back - got).abs() <= 2.0 * tol) { return Err(format!("factor {:.17} becomes {:.17} when start and end are exchanged", got, back)); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vecs { pub a: V, pub b: V, pub c: V }

pub struct C18;
impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "random triples of vectors (components 0, 1e-3..1e7, integers, one component changed by one unit of rounding, equal vectors); non-trivial: the vectors are not all equal";
    const ASSUMPTIONS: &'static [&'static str] = &["relative agreement to a few units of rounding"];
    type Case = Vecs;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 16_000_000 } else { 240_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Vecs> {
        let near = (vec_any(), 0usize..3, any::<bool>()).prop_map(|(a, k, s)| { let mut b = a; b[k] = if s { b[k].next_up() } else { b[k].next_down() }; (a, b) });
        let axis = (vec_any(), 0usize..3, logu(1e-3, 1e5)).prop_map(|(a, k, d)| { let mut b = a; b[k] += d; (a, b) });
        let ints = ([-10000i32..10000, -10000i32..10000, -10000i32..10000], [-10000i32..10000, -10000i32..10000, -10000i32..10000])
            .prop_map(|(a, b)| ([a[0] as f64, a[1] as f64, a[2] as f64], [b[0] as f64, b[1] as f64, b[2] as f64]));
        let pair = prop_oneof![4 => (vec_any(), vec_any()), 1 => near, 2 => axis, 1 => ints, 1 => vec_any().prop_map(|a| (a, a))];
        (pair, vec_any()).prop_map(|((a, b), c)| Vecs { a, b, c }).boxed()
    }
    fn check(q: &Vecs, obs: &mut Obs) -> Verdict {
        obs.nontrivial = !(q.a == q.b && q.b == q.c);
        let (a, b, c) = (v3(&q.a), v3(&q.b), v3(&q.c));
        let ulp = |x: f64| 4.5e-16 * x;
        let s = arr(&sut(|| a.add(&b))?);
        let s2 = arr(&sut(|| b.add(&a))?);
        let d = arr(&sut(|| a.subtract(&b))?);
        let u = arr(&sut(|| a.add(&b).subtract(&b))?);
        for k in 0..3 {
            let m = q.a[k].abs() + q.b[k].abs();
            if !((s[k] - (q.a[k] + q.b[k])).abs() <= ulp(m)) { return Err(format!("component {} of the sum of {:?} and {:?} is {}", k, q.a, q.b, s[k])); }
            if s[k] != s2[k] { return Err(format!("addition of {:?} and {:?} does not commute", q.a, q.b)); }
            if !((d[k] - (q.a[k] - q.b[k])).abs() <= ulp(m)) { return Err(format!("component {} of the difference of {:?} and {:?} is {}", k, q.a, q.b, d[k])); }
            if !((u[k] - q.a[k]).abs() <= 2.0 * ulp(m)) { return Err(format!("subtracting {:?} from the sum gives {:?} instead of {:?}", q.b, u, q.a)); }
        }
        let rab = sut(|| a.range(&b))?;
        let rba = sut(|| b.range(&a))?;
        let (rbc, rac) = (sut(|| b.range(&c))?, sut(|| a.range(&c))?);
        // Euclidean length by nested hypotenuses
        let w = sub(&q.a, &q.b);
        let want = w[0].hypot(w[1]).hypot(w[2]);
        if !((rab - want).abs() <= 4e-15 * want + 1e-150) { return Err(format!("distance of {:?} and {:?} is {}, expected {}", q.a, q.b, rab, want)); }
        if !((rab - rba).abs() <= 1e-15 * want + 1e-150) { return Err(format!("distance is not symmetric: {} / {}", rab, rba)); }
        if sut(|| a.range(&a))? != 0.0 { return Err("distance to itself is not zero".into()); }
        if q.a != q.b && want > 1e-150 && !(rab > 0.0) { return Err(format!("zero distance between different points {:?} {:?}", q.a, q.b)); }
        if !(rac <= (rab + rbc) * (1.0 + 1e-14) + 1e-150 && rab <= (rac + rbc) * (1.0 + 1e-14) + 1e-150) { return Err(format!("triangle inequality violated: {} {} {}", rab, rbc, rac)); }
        let t = sut(|| a.add(&c).range(&b.add(&c)))?;
        let big = norm(&q.a) + norm(&q.b) + norm(&q.c);
        if !((t - rab).abs() <= 4e-15 * big) { return Err(format!("distance {} becomes {} under translation by {:?}", rab, t, q.c)); }
        if arr(&a) != q.a || arr(&b) != q.b || arr(&c) != q.c { return Err("an operand was changed".into()); }
        if q.a == q.b { obs.label("equal points") }
        Ok(())
    }
}

// ---------------------------------------------------------------- C29

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct View { pub obs: [f64; 3], pub sat: [f64; 3], pub gmst: f64, pub turn: f64, pub lift: f64 }

/// where a reported direction points: east, north, up
fn pointed(b: &satellite::Bearing) -> V {
    let (sa, ca) = b.azimuth.sin_cos();
    let (se, ce) = b.elevation.sin_cos();
    [b.range * ce * sa, b.range * ce * ca, b.range * se]
}

pub struct C29;
impl Prop for C29 {
    const ID: &'static str = "C29";
    const RULE: &'static str = "random observer and satellite (latitude, longitude, height) x sidereal angle x turn about the polar axis x change of height; the library's answers for the configuration and its images compared with one another; non-trivial: every case with observer and satellite at least 1 km apart";
    const ASSUMPTIONS: &'static [&'static str] = &["directions compared as points: 4e-6 km + 2e-9 of the range (2e-7 within 2.6 degrees of zenith or nadir); coordinates 2e-9 rad, 4e-6 km; longitudes 2e-11 rad and more next to a pole"];
    type Case = View;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 6_000_000 } else { 90_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<View> {
        let h = spice_f(prop_oneof![3 => -0.5..9.0f64, 1 => 0.0..3000.0f64].boxed(), mine::LENGTH, -0.5, 3000.0);
        let s = spice_f(prop_oneof![3 => 100.0..2000.0f64, 2 => 2000.0..50_000.0f64, 1 => 50_000.0..500_000.0f64].boxed(), mine::LENGTH, 100.0, 500_000.0);
        // half of the time the satellite is near the observer's zenith
        let rel = prop_oneof![2 => Just(None), 2 => [-0.3..0.3f64, -0.3..0.3f64].prop_map(Some), 1 => Just(Some([0.0; 2]))];
        (latitude(), longitude(), h, latitude(), longitude(), s, rel, gmst(), prop_oneof![4 => -TAU..TAU, 1 => (-4i32..5).prop_map(|k| k as f64 * FRAC_PI_2)], logu(1e-3, 1e4)).prop_map(|(lat, lon, h, lat2, lon2, h2, rel, gmst, turn, lift)| {
            let (lat2, lon2) = match rel { Some(d) => ((lat + d[0]).clamp(-FRAC_PI_2, FRAC_PI_2), lon + d[1]), None => (lat2, lon2) };
            View { obs: [lat, lon, h], sat: [lat2, lon2, h2], gmst, turn, lift }
        }).boxed()
    }
    fn check(c: &View, obs: &mut Obs) -> Verdict {
        let (p, up) = geodetic(c.sat[0], c.sat[1], c.sat[2]);
        let (o, _) = geodetic(c.obs[0], c.obs[1], c.obs[2]);
        if dist(&p, &o) < 1.0 { obs.label("too close"); return Ok(()); }
        obs.nontrivial = true;
        let eci = rotz(&p, c.gmst);
        let site = |lat: f64, lon: f64| Geodedic { latitude: lat, longitude: lon, height: c.obs[2] };
        // what a user computes
        let see = |g: &Geodedic, eci: &V, gmst: f64| sut(|| { let e = v3(eci); (tr::ecf_to_look_angles(g, &tr::eci_to_ecf(&e, gmst)), tr::eci_to_geodedic(&e, gmst)) });
        let (look, geo) = see(&site(c.obs[0], c.obs[1]), &eci, c.gmst)?;
        let base = pointed(&look);
        let steep = (base[2] / norm(&base)).abs() > 0.999;
        let tol = 4e-6 + look.range * if steep { 2e-7 } else { 2e-9 };
        let pole = (FRAC_PI_2 - c.sat[0].abs()).max(0.0);
        let ltol = 2e-11 + 4e-13 * (c.gmst.abs() + c.turn.abs() + TAU) + 4e-13 / pole;
        let (lat, lon) = (c.obs[0], c.obs[1]);
        let w = c.turn;
        let m = |v: &V, k: usize| { let mut v = *v; v[k] = -v[k]; v };
        let images: [(&str, Geodedic, V, f64, V, [f64; 2]); 5] = [
            ("observer and satellite turned about the axis (sidereal angle)", site(lat, lon + w), eci, c.gmst - w, base, [geo.latitude, geo.longitude + w]),
            ("satellite and sidereal angle turned", site(lat, lon), rotz(&eci, w), c.gmst + w, base, [geo.latitude, geo.longitude]),
            ("mirrored at the equator", site(-lat, lon), m(&eci, 2), c.gmst, m(&base, 1), [-geo.latitude, geo.longitude]),
            ("mirrored at the Greenwich meridian", site(lat, -lon), m(&eci, 1), -c.gmst, m(&base, 0), [geo.latitude, -geo.longitude]),
            ("a whole turn of the sidereal angle", site(lat, lon), eci, c.gmst + TAU, base, [geo.latitude, geo.longitude]),
        ];
        for (what, g, e, th, want, place) in &images {
            let (b, q) = see(g, e, *th)?;
            let back = arr(&sut(|| tr::ecf_to_eci(&tr::eci_to_ecf(&v3(e), *th), *th))?);
            if !(dist(&back, e) <= 1e-12 * norm(e) * (1.0 + th.abs())) { return Err(format!("{}: inertial to Earth-fixed and back by {}: {:?} becomes {:?}", what, th, e, back)); }
            if !((b.range - look.range).abs() <= 1e-7 + 1e-11 * look.range) { return Err(format!("{}: range {} becomes {}", what, look.range, b.range)); }
            if !(dist(&pointed(&b), want) <= tol) { return Err(format!("{}: {:?} becomes {:?}, which points to {:?} instead of {:?} (east, north, up)", what, look, b, pointed(&b), want)); }
            if !((q.latitude - place[0]).abs() <= 2e-9 && (q.height - geo.height).abs() <= 4e-6) { return Err(format!("{}: coordinates {:?} become {:?}", what, geo, q)); }
            if pole > 1e-9 && !(ang_diff(q.longitude, place[1]) <= ltol) { return Err(format!("{}: coordinates {:?} become {:?}", what, geo, q)); }
        }
        // raised along the vertical
        let q = sut(|| tr::eci_to_geodedic(&v3(&rotz(&add(&p, &scale(&up, c.lift.abs())), c.gmst)), c.gmst))?;
        if !((q.latitude - geo.latitude).abs() <= 2e-9 && (q.height - geo.height - c.lift.abs()).abs() <= 4e-6) { return Err(format!("raised by {} km: coordinates {:?} become {:?}", c.lift.abs(), geo, q)); }
        if pole > 1e-9 && !(ang_diff(q.longitude, geo.longitude) <= ltol) { return Err(format!("raised by {} km: coordinates {:?} become {:?}", c.lift.abs(), geo, q)); }
        // overhead where the library says the satellite stands
        if geo.height - c.obs[2] > 1.0 {
            let g = Geodedic { latitude: geo.latitude, longitude: geo.longitude, height: c.obs[2] };
            let (b, _) = see(&g, &eci, c.gmst)?;
            if !((b.range - (geo.height - c.obs[2])).abs() <= 1e-5 && (FRAC_PI_2 - b.elevation).abs() <= 1e-7 + (2e-5 + 1e-12 * (geo.height + 6400.0) * c.gmst.abs()) / b.range) {
                return Err(format!("from the point {:?} below it the satellite stands at {:?}", g, b));
            }
            // and the distance is the one of the two positions
            let d = sut(|| tr::geodedic_to_ecf(&site(lat, lon)).range(&tr::eci_to_ecf(&v3(&eci), c.gmst)))?;
            if !((d - look.range).abs() <= 1e-7 + 1e-11 * d) { return Err(format!("range {} where observer and satellite are {} apart", look.range, d)); }
        }
        obs.label(if look.elevation > 0.0 { "above the horizon" } else { "below the horizon" });
        if steep { obs.label("next to zenith or nadir"); }
        if pole < 1e-3 { obs.label("satellite next to a pole"); }
        Ok(())
    }
}
