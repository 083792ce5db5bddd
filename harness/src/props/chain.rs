//! C25, C26: the documented chain from text to ground view; independence of records.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::{self, Orbit, Regime};
use crate::oracle::sgp4::State;
use crate::oracle::time::{self, TAU};
use crate::props::geom::{add, dot, geodetic, latitude, longitude, rotz, scale, sub, v3, arr};
use crate::props::orbit::{from_unix, same};
use crate::sutx::{conv, dist, norm, prop, ready, Expect, Ready, Ref};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use satellite::io::{Satrec, SatrecParseError};
use satellite::{transforms as tr, Geodedic};
use serde::{Deserialize, Serialize};
use std::f64::consts::{FRAC_PI_2, PI};

const YEAR: f64 = 525_960.0;

// ---------------------------------------------------------------- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct View { pub orbit: Orbit, pub offset_ns: i64, pub lat: f64, pub lon: f64, pub h: f64, pub entry: u8 }

/// offsets within `d`, for outcomes that hold over less than the clock resolves
pub fn fine(d: f64) -> impl Iterator<Item = f64> { (-64..=64).map(move |k| d * k as f64 / 64.0).chain((1..12).flat_map(move |k| { let x = d / 64.0 / 2f64.powi(k); [x, -x] })) }

pub struct C25;
impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "random element-set text x instant (nanoseconds from epoch, to +-3 years) x observer, pushed through the documented chain (parse, propagate to the instant, sidereal angle of the instant, Earth-fixed position, geodetic position, look angles, Doppler factor); every output compared with the same chain computed by the reference model, split-precision sidereal time and ellipsoid geometry; non-trivial: the whole chain was compared";
    const ASSUMPTIONS: &'static [&'static str] = &["instants resolve 5e-6 min (Julian date), sidereal angles 1.5e-8 rad; tolerances follow the reference's response to these"];
    type Case = View;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 300_000 } else { 4_500_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<View> {
        let o = prop_oneof![6 => gens::orbit(Regime::Near), 2 => gens::orbit(Regime::Deep), 1 => gens::orbit(Regime::OneDay), 1 => gens::orbit(Regime::HalfDay)]
            .prop_map(|mut o| { o.jit = None; o.afspc = false; o });
        let off = prop_oneof![
            3 => -3 * 86_400_000_000_000i64..3 * 86_400_000_000_000,
            2 => -90 * 86_400_000_000_000i64..90 * 86_400_000_000_000,
            1 => -1000 * 86_400_000_000_000i64..1000 * 86_400_000_000_000,
            1 => -2_000_000_000i64..2_000_000_000,
            1 => (-100_000i64..100_000).prop_map(|k| k * 1_000_000_000),
        ].boxed();
        let off = crate::mine::spice_i64(off, crate::mine::MINUTES, 60e9, -1000 * 86_400_000_000_000, 1000 * 86_400_000_000_000);
        (o, off, latitude(), longitude(), crate::mine::spice_f(prop_oneof![3 => -0.4..9.0f64, 1 => 0.0..2000.0f64].boxed(), crate::mine::LENGTH, -0.4, 2000.0), 0u8..8)
            .prop_map(|(orbit, offset_ns, lat, lon, h, entry)| View { orbit, offset_ns, lat, lon, h, entry }).boxed()
    }
    fn check(c: &View, obs: &mut Obs) -> Verdict {
        const NS: i128 = 1_000_000_000;
        let t = &c.orbit.tle;
        let el = c.orbit.elements();
        let rf = Ref::new(&el);
        if !rf.init_stable() { obs.label("knife edge at initialisation"); return Ok(()); }
        // the observer's library calls first: nothing of the chain may depend on their order
        let when: i128 = t.epoch_ns() as i128 + 10957 * 86400 * NS + c.offset_ns as i128;
        let minutes = c.offset_ns as f64 / 60e9;
        let dt = from_unix(when.div_euclid(NS) as i64, when.rem_euclid(NS) as u32);
        let (l1, l2) = (t.line1(), t.line2());
        let parsed = match c.entry {
            0 => sut(|| satellite::io::twoline2satrec(&l1, &l2))?,
            1 => sut(|| satellite::io::parse(&format!("{}\n{}\n", l1, l2)))?,
            2 => sut(|| satellite::io::parse(&format!("0 SAT\r\n{}\r\n{}\r\n", l1, l2)))?,
            3 => sut(|| satellite::io::parse(&format!("SAT\n{}\n{}", l1, l2)))?,
            k => {
                // alone or after another reading of the same set, titled or not
                let (copies, text) = match k {
                    4 => (1, format!("SAT\n{}\n{}\n", l1, l2)),
                    5 => (1, format!("{}\n{}\n", l1, l2)),
                    6 => (2, format!("{}\r\n{}\r\n{}\r\n{}\r\n", l1, l2, l1, l2)),
                    _ => (2, format!("0 SAT\n{}\n{}\n{}\n{}", l1, l2, l1, l2)),
                };
                let (mut r, mut e) = sut(|| satellite::io::parse_multiple(&text))?;
                if r.len() + e.len() != copies { return Err(format!("{} sets give {} records and {} errors", copies, r.len(), e.len())); }
                match (r.pop(), e.pop()) {
                    (Some(r), None) => Ok(r),
                    (None, Some(SatrecParseError::SatrecMultiError(_, e))) => Err(*e),
                    (r, e) => return Err(format!("copies of one set give record {} and error {:?}", r.is_some(), e)),
                }
            }
        };
        let rec = match (parsed, rf.expect(0.0)) {
            (Ok(r), Expect::Fail(f)) => { let _ = r; return Err(format!("accepted although the theory declares failure {} at epoch", f as u8)); }
            (Ok(r), _) => r,
            (Err(SatrecParseError::Sgp4InitError(_)), Expect::Fail(_)) => { obs.label("rejected at epoch"); return Ok(()); }
            (Err(SatrecParseError::Sgp4InitError(_)), Expect::Knife) => { obs.label("knife edge at epoch"); return Ok(()); }
            (Err(e), _) => return Err(format!("rejected: {:?}", e)),
        };
        let got = conv(&sut(|| satellite::propogation::propogate_datetime(&rec, dt))?);
        // reference states around the instant
        const D: f64 = 5e-6;
        let (s, tr0, tv0) = match (rf.expect(minutes), &got) {
            (Expect::Knife, _) => { obs.label("knife edge"); return Ok(()); }
            (Expect::Fail(_), Err(_)) => { obs.label("failure"); return Ok(()); }
            (Expect::Fail(f), Ok(_)) => {
                // a state may exist at the very epoch only
                if (minutes.abs() <= D && !matches!(rf.expect(0.0), Expect::Fail(_))) || fine(D).any(|d| matches!(rf.expect(minutes + d), Expect::State { .. } | Expect::Knife)) { obs.label("knife edge"); return Ok(()); }
                return Err(format!("{}: a state where the theory declares failure {}", dt, f as u8));
            }
            (Expect::State { s, tol_r, tol_v }, _) => (s, tol_r, tol_v),
        };
        let (mut dr, mut dv): (f64, f64) = (tr0, tv0);
        for d in [-D, D] {
            match rf.expect(minutes + d) {
                Expect::State { s: q, .. } => { dr = dr.max(1.5 * dist(&s.r, &q.r)); dv = dv.max(1.5 * dist(&s.v, &q.v)); }
                _ => { obs.label("knife edge"); return Ok(()); }
            }
        }
        let g = match got { Ok(g) => g, Err(_) if fine(D).any(|d| !matches!(rf.expect(minutes + d), Expect::State { .. })) => { obs.label("knife edge"); return Ok(()); } Err(e) => return Err(format!("{}: error {} where the theory gives {:?}", dt, e, s)) };
        let (tol, tolv) = (dr + tr0 + 1e-6, dv + tv0 + 1e-9);
        if !(tol <= 1e-3 * norm(&s.r)) { obs.label("ill-conditioned"); return Ok(()); }
        if !(dist(&g.r, &s.r) <= tol) { return Err(format!("{}: position {:?}, expected {:?} (tolerance {:e})", dt, g.r, s.r, tol)); }
        if !(dist(&g.v, &s.v) <= tolv) { return Err(format!("{}: velocity {:?}, expected {:?} (tolerance {:e})", dt, g.v, s.v, tolv)); }
        // Earth-fixed
        let day: i128 = 86400 * NS;
        let j2000: i128 = (10957 * 86400 + 43200) * NS;
        let e = when - j2000;
        let gm = time::gmst_split(e.div_euclid(day) as f64, e.rem_euclid(day) as f64 / day as f64);
        let gl = sut(|| satellite::propogation::gstime::gstime_datetime(dt))?;
        let lib_eci = v3(&g.r);
        let f = sut(|| tr::eci_to_ecf(&lib_eci, gl))?;
        let want = rotz(&s.r, -gm);
        let tole = tol + 3e-8 * norm(&s.r);
        if !(dist(&arr(&f), &want) <= tole) { return Err(format!("{}: Earth-fixed position {:?}, expected {:?} (tolerance {:e})", dt, arr(&f), want, tole)); }
        // sub-satellite point and height
        let p = sut(|| tr::eci_to_geodedic(&lib_eci, gl))?;
        if !(p.latitude.abs() <= FRAC_PI_2 + 1e-12 && p.longitude.abs() <= PI + 1e-12) { return Err(format!("{}: geodetic position {:?} out of range", dt, p)); }
        let (back, _) = geodetic(p.latitude, p.longitude, p.height);
        let tolg = tole + 2e-6 + 2e-9 * norm(&s.r);
        if !(dist(&back, &want) <= tolg) { return Err(format!("{}: geodetic position {:?} is the point {:?}, expected {:?}", dt, p, back, want)); }
        // from the observer
        let (site, up) = geodetic(c.lat, c.lon, c.h);
        let look = sut(|| tr::ecf_to_look_angles(&Geodedic { latitude: c.lat, longitude: c.lon, height: c.h }, &f))?;
        let d = sub(&want, &site);
        let range = norm(&d);
        if range < 10.0 { obs.label("satellite next to the observer"); return Ok(()); }
        if !((look.range - range).abs() <= tole + 1e-7) { return Err(format!("{}: range {}, expected {}", dt, look.range, range)); }
        if !(look.elevation.abs() <= FRAC_PI_2 + 1e-12 && look.azimuth >= -1e-12 && look.azimuth <= TAU + 1e-12) { return Err(format!("{}: look angles {:?} out of range", dt, look)); }
        let (sp, cp) = c.lat.sin_cos();
        let (sl, cl) = c.lon.sin_cos();
        let (north, east) = ([-sp * cl, -sp * sl, cp], [-sl, cl, 0.0]);
        let (sa, ca) = look.azimuth.sin_cos();
        let (se, ce) = look.elevation.sin_cos();
        let seen = add(&site, &scale(&add(&scale(&add(&scale(&north, ca), &scale(&east, sa)), ce), &scale(&up, se)), look.range));
        let steep = (dot(&d, &up) / range).abs() > 0.999;
        if !(dist(&seen, &want) <= 2.0 * tole + 1e-6 + range * if steep { 1e-7 } else { 1e-9 }) {
            return Err(format!("{}: azimuth {} elevation {} range {} point at {:?}, the satellite is at {:?}", dt, look.azimuth, look.elevation, look.range, seen, want));
        }
        // Doppler factor in the inertial frame
        let site_eci = rotz(&site, gm);
        let dop = sut(|| satellite::doppler_factor::doppler_factor(v3(&site_eci), v3(&g.r), v3(&g.v)))?;
        let rel = sub(&s.r, &site_eci);
        let change = (2.0 * dot(&rel, &s.v) + dot(&s.v, &s.v)) / (norm(&rel) + norm(&add(&rel, &s.v)));
        let told = 1e-14 + (tolv + (tol * norm(&s.v) + 1e-8) / range + 1e-15 * range) / 299792.458 * 4.0;
        if !((dop - 1.0 - change.abs() / 299792.458).abs() <= told) { return Err(format!("{}: Doppler factor {:.15}, expected {:.15} (tolerance {:e})", dt, dop, 1.0 + change.abs() / 299792.458, told)); }
        obs.nontrivial = true;
        obs.label(if rf.base.deep.is_some() { "deep-space" } else { "near-Earth" });
        obs.label(if dot(&d, &up) > 0.0 { "above the horizon" } else { "below the horizon" });
        obs.label(match c.entry { 0 => "two-line parser", 1 => "single-set parser", 2 | 3 => "single-set parser, titled", 4 | 5 => "multi-set parser", _ => "multi-set parser, second set" });
        Ok(())
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act { Go(f64), Date(i64), Fresh, Clone }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fleet { pub orbits: Vec<Orbit>, pub acts: Vec<(u8, Act)>, pub threads: bool }

type Answer = Option<Result<State, u8>>;

/// one step on one record
fn step(o: &Orbit, rec: &mut Option<Satrec>, a: &Act) -> Result<Answer, String> {
    let make = || -> Result<Option<Satrec>, String> { Ok(match ready(o)? { Ready::Rec(r) => Some(r), _ => None }) };
    if rec.is_none() || matches!(a, Act::Fresh) { *rec = make()?; }
    let r = match rec { Some(r) => r, None => return Ok(None) };
    match a {
        Act::Go(t) => Ok(Some(prop(r, *t)?)),
        Act::Date(s) => {
            let epoch = (o.tle.epoch_ns() as i128).div_euclid(1_000_000_000) as i64 + 10957 * 86400;
            // entry through the initialiser leaves no calendar epoch on the record
            if !o.text() { return Ok(None); }
            Ok(Some(conv(&sut(|| satellite::propogation::propogate_datetime(r, from_unix(epoch + s, 0)))?)))
        }
        Act::Clone => { let c = sut(|| r.clone())?; *r = c; Ok(None) }
        Act::Fresh => Ok(None),
    }
}

pub struct C26;
impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "2..4 element sets (mostly of equal satellite number, some the same set twice, some differing in a few elements only) and up to 16 operations on random ones of them (propagate, propagate to date, parse anew, clone); the interleaved run, and a run with one thread per set, compared with running each set's operations alone; non-trivial: operations on at least two records are interleaved";
    const ASSUMPTIONS: &'static [&'static str] = &["answers compared to 1e-6 km / 1e-8 km/s"];
    type Case = Fleet;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 100_000 } else { 1_500_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Fleet> {
        let act = prop_oneof![8 => gens::minutes(YEAR / 4.0).prop_map(Act::Go), 2 => (-5_000_000i64..5_000_000).prop_map(Act::Date), 1 => Just(Act::Fresh), 1 => Just(Act::Clone)];
        let o = prop_oneof![6 => gens::any_orbit(), 2 => gens::orbit(Regime::OneDay), 2 => gens::orbit(Regime::HalfDay), 1 => gens::orbit(Regime::Raw)];
        (vec(o, 2..=4), 0u8..5, prop::array::uniform4(any::<u16>()), vec((any::<u8>(), act), 3..=16), prop_oneof![3 => Just(false), 1 => Just(true)])
            .prop_map(|(mut orbits, twin, mix, acts, threads)| {
                if twin == 2 {
                    // relatives: the first set with some elements of the others
                    for k in 1..orbits.len() {
                        let mut t = gens::relative(&orbits[0].tle, &orbits[k].tle, mix[k]);
                        if mix[k] & 64 != 0 { t.satnum = format!("{:05}", k); }
                        orbits[k].tle = t;
                    }
                }
                if twin == 0 { let k = orbits.len() - 1; orbits[k] = orbits[0].clone(); }
                if twin == 1 { for (k, o) in orbits.iter_mut().enumerate() { o.tle.satnum = format!("{:05}", k + 1); } }
                Fleet { orbits, acts, threads }
            }).boxed()
    }
    fn check(c: &Fleet, obs: &mut Obs) -> Verdict {
        let n = c.orbits.len();
        let who = |k: u8| k as usize % n;
        // alone
        let mut alone: Vec<Vec<Answer>> = vec![vec![]; n];
        for k in 0..n {
            let mut rec = None;
            for (w, a) in &c.acts { if who(*w) == k { alone[k].push(step(&c.orbits[k], &mut rec, a)?); } }
        }
        let differ = |k: usize, j: usize, g: &Answer| -> Verdict {
            let same = match (g, &alone[k][j]) { (Some(a), Some(b)) => same(a, b, 1e-6), (None, None) => true, _ => false };
            if same { Ok(()) } else { Err(format!("operation {} on set {}: among others {:?}, alone {:?}", j, k, g, alone[k][j])) }
        };
        let mut recs: Vec<Option<Satrec>> = vec![None; n];
        let mut at = vec![0usize; n];
        for (w, a) in &c.acts {
            let k = who(*w);
            let g = step(&c.orbits[k], &mut recs[k], a)?;
            differ(k, at[k], &g)?;
            at[k] += 1;
        }
        obs.nontrivial = at.iter().filter(|x| **x > 0).count() >= 2;
        if c.threads {
            obs.label("threads");
            let res: Vec<Result<Vec<Answer>, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
                    let mut rec = None;
                    let mut out = vec![];
                    for (w, a) in &c.acts { if *w as usize % n == k { out.push(step(&c.orbits[k], &mut rec, a)?); } }
                    Ok(out)
                })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            });
            for (k, r) in res.into_iter().enumerate() { for (j, g) in r?.iter().enumerate() { differ(k, j, g)?; } }
        }
        if c.orbits[0] == c.orbits[n - 1] { obs.label("the same set twice") }
        Ok(())
    }
}
