//! C27: extreme and non-finite numbers.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::{self, logu, Orbit, Regime};
use crate::oracle::time::TAU;
use crate::props::geom::v3;
use crate::sutx::{conv, norm, prop, ready, Ready};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use satellite::{ext, transforms as tr, Geodedic};
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

/// a number by its bits (JSON has no NaN)
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct N(pub u64);
impl N { fn f(self) -> f64 { f64::from_bits(self.0) } }

fn number() -> BoxedStrategy<N> {
    crate::mine::spice(number_base(), crate::mine::SIGNED, |v| Some(N(v.to_bits())))
}
fn number_base() -> BoxedStrategy<N> {
    prop_oneof![
        3 => (-1e5..1e5f64).prop_map(|x| N(x.to_bits())),
        2 => logu(1e-300, 1e300).prop_map(|x| N(x.to_bits())),
        2 => logu(1e3, 1e20).prop_map(|x| N(x.to_bits())),
        1 => (-1_000_000i64..1_000_000).prop_map(|x| N((x as f64).to_bits())),
        2 => select(vec![f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 9007199254740992.0, 1e16, -1e16, 1.8446744073709552e19, PI, -PI, FRAC_PI_2, 2451545.0]).prop_map(|x| N(x.to_bits())),
        1 => any::<u64>().prop_map(N),
    ].boxed()
}

/// mostly ordinary, one or several components extreme
fn vector() -> BoxedStrategy<[N; 3]> {
    let usual = || prop_oneof![4 => -5e4..5e4f64, 1 => Just(0.0f64)].prop_map(|x| N(x.to_bits()));
    prop_oneof![
        3 => (usual(), usual(), usual(), number(), 0usize..3).prop_map(|(a, b, c, x, k)| { let mut v = [a, b, c]; v[k] = x; v }),
        2 => [usual(), usual(), usual()],
        2 => [number(), number(), number()],
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Extreme {
    Propagate(Orbit, Vec<N>),
    Date(Orbit, i64, u32),
    Geodetic([N; 3], N),
    Rotate([N; 3], N),
    Cartesian([N; 3]),
    Look([N; 3], [N; 3]),
    Doppler([N; 3], [N; 3], [N; 3]),
    Vector([N; 3], [N; 3]),
    Sidereal(N),
    Instant(i64, u32),
    Calendar([N; 7]),
    DayOfYear(u64, N),
    Angle(N),
}
use Extreme::*;

fn v(a: &[N; 3]) -> [f64; 3] { [a[0].f(), a[1].f(), a[2].f()] }
/// squares and their sums neither overflow nor vanish
fn tame(a: &[f64; 3]) -> bool { a.iter().all(|x| x.abs() < 1e150) }
fn nan(a: &[f64]) -> bool { a.iter().any(|x| x.is_nan()) }

const MIN_S: i64 = -8_334_601_228_800;
const MAX_S: i64 = 8_210_266_876_799;

pub struct C27;
impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "every public numeric function on numbers of all magnitudes, infinities, NaN and arbitrary bit patterns, mixed with ordinary ones, and on instants across the whole range of the date type; propagation of near-Earth and non-resonant records at such times; non-trivial: at least one argument is outside the ordinary range (not finite, beyond 1e6, or a date outside 1901..2099)";
    const ASSUMPTIONS: &'static [&'static str] = &["a call that uses 120 CPU seconds does not return", "resonant orbits take one integration step per 12 hours and are not asked for astronomically long times"];
    type Case = Extreme;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 4_000_000 } else { 60_000_000 } }
    fn fixed(_: Tier) -> Vec<Extreme> {
        let mut out = vec![];
        let s: Vec<N> = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 5e-324, f64::MAX, f64::MIN, 1e15, -1e15, 1e17, -1e18, 1e22, 7000.0].iter().map(|x| N(x.to_bits())).collect();
        let o = N(7000f64.to_bits());
        for x in &s {
            out.push(Sidereal(*x)); out.push(Angle(*x)); out.push(DayOfYear(2020, *x)); out.push(DayOfYear(u64::MAX, *x));
            for k in 0..7 { let mut c = [N(1f64.to_bits()); 7]; c[k] = *x; out.push(Calendar(c)); }
            for y in &s {
                for k in 0..3 { let mut p = [o; 3]; p[k] = *x; out.push(Geodetic(p, *y)); out.push(Rotate(p, *y)); out.push(Vector(p, [*y, o, o])); }
            }
        }
        for (a, n) in [(MIN_S, 0), (MAX_S, 999_999_999), (0, 0), (-1, 999_999_999), (59, 1_999_999_999), (-62_167_219_200, 0), (-62_167_219_201, 0), (9_223_372_036, 854_775_807), (9_223_372_037, 0), (-9_223_372_037, 0), (i32::MAX as i64 + 1, 0), (i32::MIN as i64 - 1, 0)] { out.push(Instant(a, n)); }
        out
    }
    fn strategy(_: Tier) -> BoxedStrategy<Extreme> {
        let plain = prop_oneof![3 => gens::orbit(Regime::Near), 2 => gens::orbit(Regime::Deep), 1 => gens::any_orbit(), 1 => gens::orbit(Regime::Raw)];
        let secs = || prop_oneof![3 => MIN_S..=MAX_S, 2 => -62_167_219_200i64..253_402_300_800, 1 => select(vec![MIN_S, MAX_S, -9_223_372_037, 9_223_372_037, 0])].boxed();
        let secs = || crate::mine::spice_i64(secs(), &[|v| v, |v| -v, |v| (v - 2440587.5) * 86400.0, |v| (v - 1970.0) * 31_556_952.0], 1.0, MIN_S, MAX_S);
        let ns = || prop_oneof![3 => 0u32..1_000_000_000, 1 => 1_000_000_000u32..2_000_000_000, 1 => Just(0u32)];
        prop_oneof![
            4 => (plain.clone(), prop::collection::vec(number(), 1..=3)).prop_map(|(o, t)| Propagate(o, t)),
            2 => (plain, secs(), ns()).prop_map(|(mut o, s, n)| { o.jit = None; o.afspc = false; Date(o, s, n) }),
            3 => (vector(), number()).prop_map(|(p, g)| Geodetic(p, g)),
            2 => (vector(), number()).prop_map(|(p, g)| Rotate(p, g)),
            1 => vector().prop_map(Cartesian),
            2 => (vector(), vector()).prop_map(|(p, q)| Look(p, q)),
            2 => (vector(), vector(), vector()).prop_map(|(a, b, c)| Doppler(a, b, c)),
            1 => (vector(), vector()).prop_map(|(a, b)| Vector(a, b)),
            1 => number().prop_map(Sidereal),
            2 => (secs(), ns()).prop_map(|(s, n)| Instant(s, n)),
            1 => prop::array::uniform7(number()).prop_map(Calendar),
            1 => (prop_oneof![3 => 0u64..3000, 1 => any::<u64>()], prop_oneof![1 => number(), 1 => (0.0..400.0f64).prop_map(|x| N(x.to_bits()))]).prop_map(|(y, d)| DayOfYear(y, d)),
            1 => number().prop_map(Angle),
        ].boxed()
    }
    fn check(c: &Extreme, obs: &mut Obs) -> Verdict {
        let odd = |a: &[f64]| a.iter().any(|x| !(x.abs() <= 1e6));
        match c {
            Propagate(o, ts) => {
                let mut rec = match ready(o)? { Ready::Rec(r) => r, _ => { obs.label("rejected at epoch"); return Ok(()); } };
                for t in ts {
                    let t = t.f();
                    if rec.irez != 0.0 && !t.is_nan() && !(t.abs() <= 1e8) { obs.label("resonant, skipped"); continue; }
                    obs.nontrivial |= odd(&[t]);
                    match prop(&mut rec, t)? {
                        Ok(s) => {
                            if t.is_nan() { return Err(format!("time NaN gives the state {:?}", s)); }
                            if !s.r.iter().chain(s.v.iter()).all(|x| x.is_finite()) { return Err(format!("time {:e}: state {:?} is not finite", t, s)); }
                            if !(norm(&s.r) >= 6378.137 * (1.0 - 1e-9)) { return Err(format!("time {:e}: state {:?} inside the Earth", t, s)); }
                            if rec.error != 0 { return Err(format!("time {:e}: a state, but the record's error is {}", t, rec.error)); }
                            obs.label("state");
                        }
                        Err(e) => {
                            if ![1, 2, 3, 4, 6].contains(&e) || rec.error != e as u32 { return Err(format!("time {:e}: error {} and {} on the record", t, e, rec.error)); }
                            obs.label("failure");
                        }
                    }
                }
            }
            Date(o, s, n) => {
                let rec = match ready(o)? { Ready::Rec(r) => r, _ => { obs.label("rejected at epoch"); return Ok(()); } };
                // one integration step per 12 hours
                if rec.irez != 0.0 && !(-1e10..1e10).contains(&(*s as f64)) { obs.label("resonant, skipped"); return Ok(()); }
                let dt = match chrono::DateTime::<chrono::Utc>::from_timestamp(*s, *n) { Some(d) => d, None => { obs.label("no such instant"); return Ok(()); } };
                obs.nontrivial = true;
                match conv(&sut(|| satellite::propogation::propogate_datetime(&rec, dt))?) {
                    Ok(st) => {
                        if !st.r.iter().chain(st.v.iter()).all(|x| x.is_finite()) || !(norm(&st.r) >= 6378.137 * (1.0 - 1e-9)) { return Err(format!("{}: state {:?}", dt, st)); }
                        obs.label("dated state");
                    }
                    Err(_) => obs.label("dated failure"),
                }
            }
            Geodetic(p, g) => {
                obs.label("geodetic");
                let (p, g) = (v(p), g.f());
                obs.nontrivial = odd(&p) || odd(&[g]);
                let q = sut(|| tr::eci_to_geodedic(&v3(&p), g))?;
                if nan(&p) && !nan(&[q.latitude, q.longitude, q.height]) { return Err(format!("position {:?} gives {:?}", p, q)); }
                if !g.is_finite() && q.longitude.is_finite() { return Err(format!("sidereal angle {} gives longitude {}", g, q.longitude)); }
                if tame(&p) && !nan(&p) {
                    if !(q.latitude.abs() <= FRAC_PI_2 + 1e-12) { return Err(format!("position {:?}: latitude {}", p, q.latitude)); }
                    if !q.height.is_finite() { return Err(format!("position {:?}: height {}", p, q.height)); }
                    if g.is_finite() && !(q.longitude.abs() <= PI + 1e-12) { return Err(format!("position {:?}, sidereal angle {:e}: longitude {}", p, g, q.longitude)); }
                }
            }
            Rotate(p, g) => {
                obs.label("rotation");
                let (p, g) = (v(p), g.f());
                obs.nontrivial = odd(&p) || odd(&[g]);
                for (f, name) in [(tr::eci_to_ecf as fn(&satellite::Vec3, f64) -> satellite::Vec3, "eci_to_ecf"), (tr::ecf_to_eci, "ecf_to_eci")] {
                    let q = sut(|| f(&v3(&p), g))?;
                    if !g.is_finite() && (q.x.is_finite() || q.y.is_finite()) { return Err(format!("{} by {} gives {:?}", name, g, q)); }
                    if (p[0].is_nan() || p[1].is_nan()) && !(q.x.is_nan() && q.y.is_nan()) { return Err(format!("{} of {:?} gives {:?}", name, p, q)); }
                    if q.z != p[2] && !(q.z.is_nan() && p[2].is_nan()) { return Err(format!("{} of {:?} changes the polar component to {}", name, p, q.z)); }
                    if g.is_finite() && p[0].abs() < 1e150 && p[1].abs() < 1e150 && !((q.x.hypot(q.y) - p[0].hypot(p[1])).abs() <= 1e-12 * p[0].hypot(p[1]) + 1e-300) { return Err(format!("{} of {:?} by {:e} gives {:?}", name, p, g, q)); }
                }
            }
            Cartesian(p) => {
                obs.label("Cartesian");
                let p = v(p);
                obs.nontrivial = odd(&p);
                let q = sut(|| tr::geodedic_to_ecf(&Geodedic { latitude: p[0], longitude: p[1], height: p[2] }))?;
                if nan(&p) && !nan(&[q.x, q.y, q.z]) { return Err(format!("coordinates {:?} give {:?}", p, q)); }
                if p.iter().all(|x| x.is_finite()) && tame(&p) && !(q.x.is_finite() && q.y.is_finite() && q.z.is_finite()) { return Err(format!("coordinates {:?} give {:?}", p, q)); }
            }
            Look(p, q) => {
                obs.label("look angles");
                let (p, q) = (v(p), v(q));
                obs.nontrivial = odd(&p) || odd(&q);
                let site = || Geodedic { latitude: p[0], longitude: p[1], height: p[2] };
                let t = sut(|| tr::topocentric(&site(), &v3(&q)))?;
                let b = sut(|| tr::ecf_to_look_angles(&site(), &v3(&q)))?;
                if nan(&p) || nan(&q) {
                    if !nan(&[b.range]) || !nan(&[t.top_s, t.top_e, t.top_z]) { return Err(format!("observer {:?}, target {:?}: {:?}, {:?}", p, q, t, b)); }
                } else if tame(&p) && tame(&q) {
                    if !(b.range.is_finite() && b.range >= 0.0) { return Err(format!("observer {:?}, target {:?}: range {}", p, q, b.range)); }
                    // squares below the smallest number
                    if b.range > 1e-140 {
                        if !(b.elevation.abs() <= FRAC_PI_2 + 1e-12) { return Err(format!("observer {:?}, target {:?}: elevation {}", p, q, b.elevation)); }
                        if !(b.azimuth >= -1e-12 && b.azimuth <= TAU + 1e-12) { return Err(format!("observer {:?}, target {:?}: azimuth {}", p, q, b.azimuth)); }
                    }
                }
            }
            Doppler(a, b, w) => {
                obs.label("Doppler factor");
                let (a, b, w) = (v(a), v(b), v(w));
                obs.nontrivial = odd(&a) || odd(&b) || odd(&w);
                let f = sut(|| satellite::doppler_factor::doppler_factor(v3(&a), v3(&b), v3(&w)))?;
                if nan(&a) || nan(&b) || nan(&w) { if !f.is_nan() { return Err(format!("{:?} {:?} {:?}: factor {}", a, b, w, f)); } }
                else if tame(&a) && tame(&b) && tame(&w) && !(f.is_finite() && f >= 1.0) { return Err(format!("{:?} {:?} {:?}: factor {}", a, b, w, f)); }
            }
            Vector(a, b) => {
                obs.label("vectors");
                let (a, b) = (v(a), v(b));
                obs.nontrivial = odd(&a) || odd(&b);
                let (s, d, r) = (sut(|| v3(&a).add(&v3(&b)))?, sut(|| v3(&a).subtract(&v3(&b)))?, sut(|| v3(&a).range(&v3(&b)))?);
                let same = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan());
                if !(same(s.x, a[0] + b[0]) && same(s.y, a[1] + b[1]) && same(s.z, a[2] + b[2])) { return Err(format!("{:?} + {:?} gives {:?}", a, b, s)); }
                if !(same(d.x, a[0] - b[0]) && same(d.y, a[1] - b[1]) && same(d.z, a[2] - b[2])) { return Err(format!("{:?} - {:?} gives {:?}", a, b, d)); }
                if nan(&a) || nan(&b) { if r.is_finite() { return Err(format!("distance of {:?} and {:?}: {}", a, b, r)); } }
                else if tame(&a) && tame(&b) { if !(r.is_finite() && r >= 0.0) { return Err(format!("distance of {:?} and {:?}: {}", a, b, r)); } }
                else if !(r.is_nan() || r >= 0.0) { return Err(format!("distance of {:?} and {:?}: {}", a, b, r)); }
            }
            Sidereal(j) => {
                obs.label("sidereal angle");
                let j = j.f();
                obs.nontrivial = !(j.abs() < 3e6);
                let g = sut(|| satellite::propogation::gstime::gstime(j))?;
                if j.is_finite() && j.abs() < 1e90 { if !(g >= 0.0 && g <= TAU + 1e-12) { return Err(format!("Julian date {:e}: sidereal angle {}", j, g)); } }
                else if !j.is_finite() && g.is_finite() { return Err(format!("Julian date {}: sidereal angle {}", j, g)); }
            }
            Instant(s, n) => {
                let dt = match chrono::DateTime::<chrono::Utc>::from_timestamp(*s, *n) { Some(d) => d, None => { obs.label("no such instant"); return Ok(()); } };
                obs.label("instant");
                obs.nontrivial = !(-2_177_452_800..4_102_444_800).contains(s);
                let j = sut(|| ext::jday_datetime(dt))?;
                let g = sut(|| satellite::propogation::gstime::gstime_datetime(dt))?;
                // beyond 2100 and before 1901 the formula leaves the Gregorian calendar by up to one day per 133 years
                let want = 2440587.5 + (*s as f64 + *n as f64 * 1e-9) / 86400.0;
                let off = 3.0 + (want - 2451545.0).abs() / 365.25 / 100.0;
                if !((j - want).abs() <= off) { return Err(format!("{}: Julian date {} (expected about {})", dt, j, want)); }
                if !(g >= 0.0 && g <= TAU + 1e-12) { return Err(format!("{}: sidereal angle {}", dt, g)); }
            }
            Calendar(a) => {
                obs.label("Julian date");
                let a: Vec<f64> = a.iter().map(|x| x.f()).collect();
                obs.nontrivial = odd(&a);
                let j = sut(|| ext::jday(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
                if nan(&a) && !j.is_nan() { return Err(format!("calendar {:?}: Julian date {}", a, j)); }
                if a.iter().all(|x| x.abs() < 1e300) && !j.is_finite() { return Err(format!("calendar {:?}: Julian date {}", a, j)); }
            }
            DayOfYear(y, d) => {
                obs.label("day of year");
                let d = d.f();
                obs.nontrivial = !(d >= 1.0 && d < 367.0) || *y > 2100 || *y < 1900;
                let m = sut(|| ext::days2mdhms(*y, d))?;
                if !(m.month >= 1.0 && m.month <= 12.0) { return Err(format!("year {} day {}: month {}", y, d, m.month)); }
                if d.is_nan() && !nan(&[m.day, m.hour, m.minute, m.second]) { return Err(format!("year {} day {}: day {} {}:{}:{}", y, d, m.day, m.hour, m.minute, m.second)); }
                if (1.0..367.0).contains(&d) && !(m.day >= 1.0 && m.day <= 32.0 && m.hour >= 0.0 && m.hour <= 24.0 && m.minute >= 0.0 && m.minute <= 60.0 && m.second >= -1e-6 && m.second <= 60.0 + 1e-6) { return Err(format!("year {} day {}: day {} {}:{}:{}", y, d, m.day, m.hour, m.minute, m.second)); }
            }
            Angle(x) => {
                obs.label("angle");
                let x = x.f();
                obs.nontrivial = odd(&[x]);
                let (a, b) = (sut(|| tr::radians_to_degrees(x))?, sut(|| tr::degrees_to_radians(x))?);
                if x.is_nan() != a.is_nan() || x.is_nan() != b.is_nan() { return Err(format!("{}: {} degrees, {} radians", x, a, b)); }
                // outside the range the guards panic; that is C16's
                for f in [tr::degrees_lat as fn(f64) -> f64, tr::degrees_long, tr::radians_lat, tr::radians_long] {
                    if let Ok(y) = sut(|| f(x)) { if y.is_nan() != x.is_nan() || !(y.is_nan() || y.abs() <= 180.0 * (1.0 + 1e-12)) { return Err(format!("guarded conversion of {} gives {}", x, y)); } }
                }
            }
        }
        Ok(())
    }
}
