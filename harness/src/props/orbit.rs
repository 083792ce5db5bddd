//! C01-C05, C12, C19-C21: whole-propagator properties.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::{self, Orbit, Regime};
use crate::oracle::sgp4::{wgs84, Mode, Model, Resonance, State};
use crate::oracle::time::{self, ang_diff, TAU};
use crate::sutx::{compare, conv, dist, init_direct, init_opts, norm, prop, ready, Expect, Ready, Ref};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use satellite::io::Satrec;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Track { pub orbit: Orbit, pub times: Vec<f64> }

#[derive(Clone, Copy, PartialEq)]
enum Class { Near, Deep, Resonant }

fn class(m: &Model) -> Class {
    match &m.deep { None => Class::Near, Some(d) if d.reso.kind == Resonance::None => Class::Deep, _ => Class::Resonant }
}

fn track_check(c: &Track, want: Class, obs: &mut Obs) -> Verdict {
    let el = c.orbit.elements();
    let rf = Ref::new(&el);
    if class(&rf.base) != want { obs.label("other orbit class"); return Ok(()); }
    if !rf.init_stable() { obs.label("knife edge at initialisation"); }
    let ex0 = rf.expect(0.0);
    let mut rec = match ready(&c.orbit)? {
        Ready::Rec(r) => {
            if rf.init_stable() {
                if let Expect::Fail(f) = ex0 { return Err(format!("initialised although the theory declares failure {} at epoch", f as u8)); }
            }
            r
        }
        Ready::InitFailed(code) => {
            obs.label(format!("rejected at epoch, code {}", code));
            if !rf.init_stable() { return Ok(()); }
            let decided = compare(&ex0, &Err(code), "initialisation")?;
            obs.nontrivial = decided;
            return Ok(());
        }
    };
    let mut decided = 0;
    for &t in &c.times {
        let got = prop(&mut rec, t)?;
        if !rf.init_stable() { continue; }
        let ex = rf.expect(t);
        if compare(&ex, &got, &format!("t = {} min", t))? {
            decided += 1;
            match ex { Expect::Fail(f) => obs.label(format!("failure {}", f as u8)), _ => obs.label("state compared") }
        } else { obs.label("knife edge or ill-conditioned time"); }
    }
    obs.nontrivial = decided > 0;
    if decided > 0 {
        let b = &rf.base;
        obs.label(if c.orbit.text() { "entry: text" } else if c.orbit.afspc { "entry: initialiser, AFSPC" } else { "entry: initialiser, improved" });
        match want {
            Class::Near => {
                if b.simple { obs.label("simplified drag") } else { obs.label("full drag series") }
                if b.br & 2 != 0 { obs.label("perigee 98..156 km") }
                if b.br & 4 != 0 { obs.label("perigee < 98 km") }
                if b.br & 32 == 0 { obs.label("near-circular") }
                if el.bstar < 0.0 { obs.label("negative drag") }
                if el.i > 1.6 { obs.label("retrograde") }
            }
            _ => {
                if el.i < 0.2 { obs.label("low inclination") }
                if el.i < 5.2359877e-2 { obs.label("inclination < 3 deg") }
                if el.i > 3.1 { obs.label("near-retrograde equatorial") }
                if let Some(d) = &b.deep {
                    match d.reso.kind { Resonance::OneDay => obs.label("one-day resonance"), Resonance::HalfDay => obs.label("half-day resonance"), _ => {} }
                }
            }
        }
        if c.times.iter().any(|t| *t < 0.0) { obs.label("negative time") }
    }
    Ok(())
}

fn track(o: BoxedStrategy<Orbit>, max: f64, n: usize) -> BoxedStrategy<Track> {
    (o, prop::collection::vec(gens::minutes(max), 1..=n)).prop_map(|(orbit, times)| Track { orbit, times }).boxed()
}

const YEAR: f64 = 525_960.0;

const ROUND: &str = "reference model validated against published verification vectors (2e-8 km); tolerance = 1e-7 km + 4x the reference's response to 1e-13 relative input changes; cases where a 1e-10 relative change switches a branch of the theory are executed but not compared";

pub struct C01;
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "random near-Earth element sets (stratified over perigee height, eccentricity, inclination, drag; text and initialiser entry) x 1..4 times; non-trivial: at least one time compared with the independent reference away from knife edges";
    const ASSUMPTIONS: &'static [&'static str] = &[ROUND];
    type Case = Track;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 4_000_000 } else { 60_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Track> {
        track(prop_oneof![10 => gens::orbit(Regime::Near), 1 => gens::orbit(Regime::Border)].boxed(), 150.0 * YEAR, 4)
    }
    fn check(c: &Track, obs: &mut Obs) -> Verdict { track_check(c, Class::Near, obs) }
}

pub struct C02;
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "random non-resonant deep-space element sets (all inclinations, epochs 1957..2056, both operation modes, text and initialiser entry) x 1..4 times; non-trivial: at least one time compared with the independent reference";
    const ASSUMPTIONS: &'static [&'static str] = &[ROUND];
    type Case = Track;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 3_000_000 } else { 45_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Track> {
        track(prop_oneof![10 => gens::orbit(Regime::Deep), 1 => gens::orbit(Regime::Border), 1 => gens::orbit(Regime::HalfDay)].boxed(), 150.0 * YEAR, 4)
    }
    fn check(c: &Track, obs: &mut Obs) -> Verdict { track_check(c, Class::Deep, obs) }
}

pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "random element sets in and at the edges of the 24 h and 12 h resonance windows x 1..3 times (zero, exact multiples of the 720 min step, to +-150 years); non-trivial: at least one time compared with the independent reference";
    const ASSUMPTIONS: &'static [&'static str] = &[ROUND];
    type Case = Track;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 400_000 } else { 6_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Track> {
        (prop_oneof![gens::orbit(Regime::OneDay), gens::orbit(Regime::HalfDay)], prop::collection::vec(prop_oneof![20 => gens::minutes(10.0 * YEAR), 1 => gens::minutes(150.0 * YEAR)], 1..=3)).prop_map(|(orbit, times)| Track { orbit, times }).boxed()
    }
    fn check(c: &Track, obs: &mut Obs) -> Verdict {
        let m = Model::new(&c.orbit.elements(), &wgs84());
        match class(&m) {
            Class::Resonant => track_check(c, Class::Resonant, obs),
            // just outside the window: no resonance terms
            Class::Deep => { obs.label("just outside the resonance window"); track_check(c, Class::Deep, obs) }
            Class::Near => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op { Go(f64), Date(i64, u32), CloneSwap, CloneGo(f64), Reinit(u8) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History { pub orbits: Vec<Orbit>, pub ops: Vec<Op> }

pub fn same(a: &Result<State, u8>, b: &Result<State, u8>, tol: f64) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            // identical bits (including non-finite garbage, which is C05's business) or close
            let bits = x.r.iter().chain(&x.v).zip(y.r.iter().chain(&y.v)).all(|(p, q)| p.to_bits() == q.to_bits());
            bits || (dist(&x.r, &y.r) <= tol && dist(&x.v, &y.v) <= tol * 1e-2)
        }
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

pub fn from_unix(secs: i64, ns: u32) -> chrono::DateTime<chrono::Utc> {
    chrono::DateTime::<chrono::Utc>::from_timestamp(secs, ns).expect("instant in range")
}

/// fields visible to a user (text form), without name
pub fn fingerprint(r: &Satrec) -> Vec<(&'static str, u64)> {
    let b = |x: f64| if x == 0.0 { 0 } else { x.to_bits() };
    vec![
        ("error", r.error as u64), ("epochyr", r.epochyr as u64), ("epochdays", b(r.epochdays)), ("ndot", b(r.ndot)), ("nddot", b(r.nddot)),
        ("bstar", b(r.bstar)), ("inclo", b(r.inclo)), ("nodeo", b(r.nodeo)), ("ecco", b(r.ecco)), ("mo", b(r.mo)), ("no", b(r.no)), ("a", b(r.a)),
        ("argpo", b(r.argpo)), ("alta", b(r.alta)), ("altp", b(r.altp)), ("jdsatepoch", b(r.jdsatepoch)), ("isimp", r.isimp as u64),
        ("aycof", b(r.aycof)), ("con41", b(r.con41)), ("cc1", b(r.cc1)), ("cc4", b(r.cc4)), ("cc5", b(r.cc5)), ("d2", b(r.d2)), ("d3", b(r.d3)), ("d4", b(r.d4)),
        ("delmo", b(r.delmo)), ("eta", b(r.eta)), ("argpdot", b(r.argpdot)), ("omgcof", b(r.omgcof)), ("sinmao", b(r.sinmao)), ("t", b(r.t)),
        ("t2cof", b(r.t2cof)), ("t3cof", b(r.t3cof)), ("t4cof", b(r.t4cof)), ("t5cof", b(r.t5cof)), ("x1mth2", b(r.x1mth2)), ("x7thm1", b(r.x7thm1)),
        ("mdot", b(r.mdot)), ("nodedot", b(r.nodedot)), ("xlcof", b(r.xlcof)), ("xmcof", b(r.xmcof)), ("nodecf", b(r.nodecf)), ("irez", b(r.irez)),
        ("atime", b(r.atime)), ("xli", b(r.xli)), ("xni", b(r.xni)), ("xlamo", b(r.xlamo)), ("xfact", b(r.xfact)), ("gsto", b(r.gsto)),
    ]
}

pub struct C04;
impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "1..3 element sets (half of the time differing in a few elements only) and a history of up to 14 operations (rarely repeated up to 60 times; times also equal to, opposite to or near an earlier one; propagate, propagate to date, clone and continue with the clone, propagate a clone, re-initialise with another set); every answer compared with a freshly initialised record; non-trivial: at least two answers on one record";
    const ASSUMPTIONS: &'static [&'static str] = &["answers compared to 1e-6 km / 1e-8 km/s plus the state's own sensitivity to a 1e-9 min shift"];
    type Case = History;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 100_000 } else { 1_500_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<History> {
        let t = prop_oneof![8 => gens::minutes(2.0 * YEAR), 1 => gens::minutes(150.0 * YEAR)];
        let op = prop_oneof![
            8 => t.clone().prop_map(Op::Go),
            2 => (crate::mine::spice_i64((-1_000_000_000i64..4_000_000_000).boxed(), crate::mine::SIGNED, 1.0, -1_000_000_000, 4_000_000_000), 0u32..1_000_000_000).prop_map(|(s, n)| Op::Date(s, n)),
            1 => Just(Op::CloneSwap),
            1 => t.prop_map(Op::CloneGo),
            2 => (0u8..3).prop_map(Op::Reinit),
        ];
        let o = prop_oneof![6 => gens::any_orbit(), 1 => gens::orbit(Regime::Raw)];
        // times related to an earlier one; now and then the whole history many times over
        let again = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>(), 0u8..8), 1..4)];
        let reps = prop_oneof![999 => Just(1u16), 1 => 2u16..60].boxed();
        let reps = crate::mine::spice(Just(1u16).boxed(), &[|v| v, |v| v / 4.0, |v| v / 10.0], |v| if (1.0..300.0).contains(&v.ceil()) { Some(v.ceil() as u16) } else { None }).prop_flat_map(move |n| if n == 1 { reps.clone() } else { prop_oneof![20 => Just(1u16), 1 => Just(n)].boxed() });
        (prop::collection::vec(o, 1..=3), prop::collection::vec(op, 2..=14), prop::option::of([any::<u16>(), any::<u16>()]), again, reps).prop_map(|(mut orbits, mut ops, kin, again, reps)| {
            for (i, j, k) in again {
                let (i, j) = (i as usize % ops.len(), j as usize % ops.len());
                if let (Op::Go(a), Op::Go(_)) = (ops[i.min(j)].clone(), &ops[i.max(j)]) {
                    let t = match k { 0 | 1 => a, 2 => -a, 3 => 2.0 * a, 4 => a * (1.0 + 1e-9), 5 => a + 720.0, 6 => a - 720.0, _ => a / 2.0 };
                    ops[i.max(j)] = Op::Go(t);
                }
            }
            if reps > 1 { let one = ops.clone(); for _ in 1..reps { ops.extend(one.iter().cloned()); } }
            // half of the time the sets differ in a few elements only
            if let Some(mix) = kin { for k in 1..orbits.len() { let t = gens::relative(&orbits[0].tle, &orbits[k].tle, mix[k - 1]); orbits[k].tle = t; } }
            History { orbits, ops }
        }).boxed()
    }
    fn check(c: &History, obs: &mut Obs) -> Verdict {
        let fresh = |k: usize| -> Result<Option<Satrec>, String> {
            match ready(&c.orbits[k])? { Ready::Rec(r) => Ok(Some(r)), _ => Ok(None) }
        };
        let mut cur = 0usize;
        let mut rec = match fresh(0)? { Some(r) => r, None => { obs.label("first set rejected at epoch"); return Ok(()); } };
        let mut answers = 0;
        let mut reinits = 0;
        let mut kinds = (false, false, false); // pos, neg, fail
        let mut reused = false;
        for (i, op) in c.ops.iter().enumerate() {
            let go = |rec: &mut Satrec, t: f64, what: &str| -> Result<Result<State, u8>, String> {
                let got = prop(rec, t)?;
                let mut f = fresh(cur)?.ok_or_else(|| "initialisation is not deterministic".to_string())?;
                let want = prop(&mut f, t)?;
                let mut tol = 1e-6;
                if !same(&got, &want, tol) {
                    // conditioning of this very state
                    let mut f2 = fresh(cur)?.unwrap();
                    if let (Ok(a), Ok(b)) = (&want, &prop(&mut f2, t + 1e-9 + t.abs() * 1e-14)?) { tol += 4.0 * dist(&a.r, &b.r); }
                    if !same(&got, &want, tol) {
                        return Err(format!("operation {} ({}): used record gives {:?}, fresh record {:?}", i, what, got, want));
                    }
                }
                Ok(got)
            };
            match op {
                Op::Go(t) => {
                    let r = go(&mut rec, *t, "propagate")?;
                    answers += 1;
                    if *t > 0.0 { kinds.0 = true } else if *t < 0.0 { kinds.1 = true }
                    if r.is_err() { kinds.2 = true }
                    let e = match r { Ok(_) => 0u32, Err(code) => code as u32 };
                    if rec.error != e { return Err(format!("operation {}: error field {} after outcome {}", i, rec.error, e)); }
                }
                Op::CloneSwap => { rec = sut(|| rec.clone())?; reused = true; }
                Op::CloneGo(t) => {
                    let before = fingerprint(&rec);
                    let mut cl = sut(|| rec.clone())?;
                    let _ = go(&mut cl, *t, "propagate clone")?;
                    if fingerprint(&rec) != before { return Err(format!("operation {}: propagating a clone changed the original", i)); }
                    answers += 1;
                }
                Op::Date(s, n) => {
                    if !c.orbits[cur].text() { continue; }
                    let before = fingerprint(&rec);
                    let name = rec.name.clone();
                    let when = from_unix(*s, *n);
                    let got = conv(&sut(|| satellite::propogation::propogate_datetime(&rec, when))?);
                    let after = fingerprint(&rec);
                    if after != before || rec.name != name {
                        let d = before.iter().zip(&after).find(|(a, b)| a != b).map(|(a, _)| a.0).unwrap_or("name");
                        return Err(format!("operation {}: propagating to a date changed the caller's record (field {})", i, d));
                    }
                    let f = fresh(cur)?.unwrap();
                    let want = conv(&sut(|| satellite::propogation::propogate_datetime(&f, when))?);
                    if !same(&got, &want, 1e-5) { return Err(format!("operation {}: propagate to date {}: used record gives {:?}, fresh record {:?}", i, when, got, want)); }
                    answers += 1;
                }
                Op::Reinit(k) => {
                    let k = *k as usize % c.orbits.len();
                    let el = c.orbits[k].elements();
                    // re-initialise the used record with the raw elements
                    let r1 = conv(&sut(|| satellite::propogation::sgp4init::sgp4init(&mut rec, init_opts(&el)))?);
                    let (f, r2) = init_direct(&el)?;
                    if !same(&r1, &conv(&r2), 1e-6) { return Err(format!("operation {}: re-initialising gives {:?}, a new record {:?}", i, r1, conv(&r2))); }
                    if rec.error != f.error { return Err(format!("operation {}: error field after re-initialising is {}, on a new record {}", i, rec.error, f.error)); }
                    reinits += 1;
                    // the published elements and class too (working storage of the theory is not judged)
                    let shown = |r: &Satrec| ([r.bstar, r.ecco, r.argpo, r.inclo, r.mo, r.no, r.nodeo, r.gsto].map(f64::to_bits), r.method == satellite::propogation::initl::InitlMethod::D, r.operationmode == satellite::propogation::dpper::DpperOpsMode::A);
                    if r1.is_ok() && shown(&rec) != shown(&f) { return Err(format!("operation {}: re-initialising leaves elements, sidereal time, class and mode {:?}, a new record has {:?}", i, shown(&rec), shown(&f))); }
                    // compare with a directly initialised record at a few times, then continue with a fresh one
                    let mut f = f;
                    if r1.is_ok() {
                        for t in [0.0, 17.0, 1440.0, -4321.0, 20_000.0] {
                            let a = prop(&mut rec, t)?;
                            let b = prop(&mut f, t)?;
                            if !same(&a, &b, 1e-6) { return Err(format!("operation {}: t = {} after re-initialising: used record {:?}, new record {:?}", i, t, a, b)); }
                        }
                    }
                    match fresh(k)? { Some(r) => { rec = r; cur = k; } None => { obs.label("re-initialised with a rejected set"); return Ok(()); } }
                }
            }
        }
        obs.nontrivial = answers >= 2;
        if kinds.0 && kinds.1 { obs.label("both time directions") }
        if kinds.2 { obs.label("failure inside history") }
        if reinits > 0 { obs.label("re-initialised") }
        if reused { obs.label("cloned") }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wild { pub orbit: Orbit, pub neg_n: bool, pub times: Vec<f64> }

fn usable(res: &Result<State, u8>, rec_error: u32, what: &str) -> Verdict {
    match res {
        Ok(s) => {
            if !s.r.iter().chain(&s.v).all(|x| x.is_finite()) { return Err(format!("{}: success with a non-finite state {:?}", what, s)); }
            if !(norm(&s.r) >= 6378.137 * (1.0 - 1e-12)) { return Err(format!("{}: success with a position inside the Earth: {} km", what, norm(&s.r))); }
            if rec_error != 0 { return Err(format!("{}: success, but the record's error field is {}", what, rec_error)); }
        }
        Err(c) => {
            if ![1, 2, 3, 4, 6].contains(c) { return Err(format!("{}: undocumented error code {}", what, c)); }
            if rec_error != *c as u32 { return Err(format!("{}: error {} returned, but the record's error field is {}", what, c, rec_error)); }
        }
    }
    Ok(())
}

pub struct C05;
impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "random element sets of every regime, one third physically absurd (mean motion 0..100 rev/day or negative, eccentricity to 0.9999999, drag terms to 1e9, sub-orbital) x 1..5 times to +-60 years on one record; non-trivial: at least one propagation after initialisation, or a classified rejection at epoch";
    const ASSUMPTIONS: &'static [&'static str] = &["error classification compared with the reference only away from knife edges", "not returning within 120 CPU seconds counts as a hang"];
    const HANG_IS_VIOLATION: bool = true;
    type Case = Wild;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 400_000 } else { 6_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Wild> {
        let o = prop_oneof![2 => gens::any_orbit(), 2 => gens::orbit(Regime::Raw), 1 => (gens::any_orbit(), gens::implied(-3..3)).prop_map(|(mut o, b)| { o.tle.bstar = b; o })];
        (o, prop_oneof![12 => Just(false), 1 => Just(true)], prop::collection::vec(prop_oneof![12 => gens::minutes(60.0 * YEAR), 1 => gens::minutes(150.0 * YEAR)], 1..=5))
            .prop_map(|(orbit, neg_n, times)| Wild { orbit, neg_n, times }).boxed()
    }
    fn check(c: &Wild, obs: &mut Obs) -> Verdict {
        let mut el = c.orbit.elements();
        let mut rec;
        let mut r0;
        if c.neg_n { el.n = -el.n; }
        if c.orbit.text() {
            let (l1, mut l2) = (c.orbit.tle.line1(), c.orbit.tle.line2());
            if c.neg_n {
                // a negative mean motion in columns 53-63
                let n = format!("{:>11}", format!("-{}.{:07}", (c.orbit.tle.n / 100_000_000) % 10, (c.orbit.tle.n % 100_000_000) / 10));
                el.n = n.trim().parse::<f64>().unwrap() * TAU / 1440.0;
                l2.replace_range(52..63, &n);
            }
            match sut(|| satellite::io::twoline2satrec(&l1, &l2))? {
                Ok(r) => { rec = r; r0 = None; }
                Err(satellite::io::SatrecParseError::Sgp4InitError(e)) => { r0 = Some(e.code()); rec = Satrec::zero(); }
                Err(e) => return Err(format!("well-formed text rejected: {:?}", e)),
            }
        } else {
            let (r, res) = init_direct(&el)?;
            rec = r;
            let cv = conv(&res);
            usable(&cv, rec.error, "initialisation")?;
            r0 = cv.err();
        }
        let rf = Ref::new(&el);
        let stable = rf.init_stable();
        if stable {
            match (rf.expect(0.0), r0) {
                (Expect::Fail(f), None) => return Err(format!("initialised although the theory declares failure {} at epoch", f as u8)),
                (Expect::Fail(f), Some(x)) => if f as u8 != x { return Err(format!("rejected at epoch with code {}, theory {}", x, f as u8)) },
                (Expect::State { .. }, Some(x)) => return Err(format!("rejected at epoch with code {}, theory gives a state", x)),
                _ => {}
            }
        }
        if let Some(x) = r0 {
            obs.nontrivial = true;
            obs.label(format!("rejected at epoch, code {}", x));
            if c.orbit.text() {
                // the failure stays classified when the same elements go through the initialiser
                let (r, res) = init_direct(&el)?;
                rec = r;
                usable(&conv(&res), rec.error, "initialisation")?;
            }
            r0 = Some(x);
        }
        let _ = r0;
        for &t in &c.times {
            let got = prop(&mut rec, t)?;
            usable(&got, rec.error, &format!("t = {} min", t))?;
            obs.nontrivial = true;
            if let Err(x) = got { obs.label(format!("failure {}", x)); } else { obs.label("state"); }
            if stable {
                match (rf.expect(t), &got) {
                    (Expect::Fail(f), Err(x)) if f as u8 != *x => return Err(format!("t = {} min: error {} where the theory gives {}", t, x, f as u8)),
                    (Expect::Fail(f), Ok(_)) => return Err(format!("t = {} min: success where the theory declares failure {}", t, f as u8)),
                    (Expect::State { .. }, Err(x)) => return Err(format!("t = {} min: error {} where the theory gives a state", t, x)),
                    _ => {}
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dated { pub orbit: Orbit, pub offset_ns: i64, pub absolute: Option<(i64, u32)> }

pub struct C12;
impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "random parsed element set x random UTC instant (absolute 1901..2099 with boundary instants, or a nanosecond offset from epoch); the exact elapsed time is computed in integer nanoseconds; non-trivial: a state or error was compared";
    const ASSUMPTIONS: &'static [&'static str] = &["elapsed minutes accurate to 5e-6 min (resolution of a Julian date), propagated through the state's own sensitivity"];
    type Case = Dated;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 300_000 } else { 4_500_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Dated> {
        let plain = |s: BoxedStrategy<Orbit>| s.prop_map(|mut o| { o.jit = None; o.afspc = false; o }).boxed();
        let o = plain(gens::any_orbit());
        // decades from epoch: resonant orbits take thousands of integration steps, so fewer of them
        let far = plain(prop_oneof![6 => gens::orbit(Regime::Near), 5 => gens::orbit(Regime::Deep), 1 => gens::any_orbit()].boxed());
        let off = prop_oneof![
            2 => -86_400_000_000_000i64..86_400_000_000_000,
            2 => -30 * 86_400_000_000_000i64..30 * 86_400_000_000_000,
            1 => -5_000_000_000i64..5_000_000_000,
            1 => (-1000i64..1000).prop_map(|k| k * 1_000_000_000),
        ].boxed();
        let off = crate::mine::spice_i64(off, crate::mine::MINUTES, 60e9, -9_000_000_000_000_000_000, 9_000_000_000_000_000_000);
        let secs = prop_oneof![
            3 => -2_177_452_800i64..4_102_444_800,
            2 => (-3000i64..17000, prop::sample::select(vec![0i64, 1, 59, 60, 3599, 3600, 43199, 43200, 43201, 86399])).prop_map(|(d, s)| (d * 86400) + s),
            1 => ((1902i64..2100), prop::sample::select(vec![(1i64, 1i64), (2, 28), (2, 29), (3, 1), (12, 31), (6, 30), (7, 1)]), 0i64..86400).prop_map(|(y, (m, d), s)| (time::day_number(y, m, d.min(time::month_len(y, m))) + 10957) * 86400 + s),
        ];
        let ns = prop_oneof![2 => 0u32..1_000_000_000, 1 => Just(0u32), 1 => (0u32..1000).prop_map(|m| m * 1_000_000), 1 => prop::sample::select(vec![1u32, 999, 500_000_000, 999_999_999, 999_000_000])];
        let when = if crate::mine::mined().nums.is_empty() { (secs, ns).boxed() } else {
            prop_oneof![1 => (secs, ns), 1 => crate::props::timep::instant().prop_map(|i| (i.day * 86400 + 10957 * 86400 + i.ns / 1_000_000_000, (i.ns % 1_000_000_000) as u32))].boxed()
        };
        prop_oneof![
            3 => (o, off).prop_map(|(orbit, offset_ns)| Dated { orbit, offset_ns, absolute: None }),
            2 => (far, when).prop_map(|(orbit, (s, n))| Dated { orbit, offset_ns: 0, absolute: Some((s, n)) }),
        ].boxed()
    }
    fn check(c: &Dated, obs: &mut Obs) -> Verdict {
        const NS: i128 = 1_000_000_000;
        let epoch_unix: i128 = c.orbit.tle.epoch_ns() as i128 + 10957 * 86400 * NS;
        let when: i128 = match c.absolute { Some((s, n)) => s as i128 * NS + n as i128, None => epoch_unix + c.offset_ns as i128 };
        // the calendar formula serves 1901..2099
        if !(-2_177_452_800 * NS..4_102_444_800 * NS).contains(&when) { obs.label("outside the calendar's range"); return Ok(()); }
        let minutes = (when - epoch_unix) as f64 / 60e9;
        let dt = from_unix(when.div_euclid(NS) as i64, when.rem_euclid(NS) as u32);
        let rec = match ready(&c.orbit)? { Ready::Rec(r) => r, _ => { obs.label("rejected at epoch"); return Ok(()); } };
        let got = conv(&sut(|| satellite::propogation::propogate_datetime(&rec, dt))?);
        let mut states = vec![];
        for d in [0.0, -5e-6, 5e-6, -2.5e-6, 2.5e-6] {
            let mut r = rec.clone();
            states.push(prop(&mut r, minutes + d)?);
        }
        let base = states[0].clone();
        match (&got, &base) {
            (Ok(g), Ok(w)) => {
                let (mut tr, mut tv) = (0f64, 0f64);
                for a in &states[1..] {
                    match a { Ok(a) => { tr = tr.max(dist(&w.r, &a.r)); tv = tv.max(dist(&w.v, &a.v)); } Err(_) => { obs.label("knife edge"); return Ok(()); } }
                }
                let (mut tr, mut tv) = (1.5 * tr + 1e-6, 1.5 * tv + 1e-9);
                if !(dist(&g.r, &w.r) <= tr && dist(&g.v, &w.v) <= tv) {
                    // next to the theory's singularities rounding noise can exceed the clock's resolution
                    match Ref::new(&c.orbit.elements()).expect(minutes) {
                        Expect::State { tol_r, tol_v, .. } => { tr += tol_r; tv += tol_v; }
                        _ => { obs.label("knife edge"); return Ok(()); }
                    }
                }
                // a drag term carried over a century can leave the state to rounding noise: nothing to compare
                if !(tr <= 1e-3 * norm(&w.r)) { obs.label("ill-conditioned"); return Ok(()); }
                obs.nontrivial = true;
                if when % NS != 0 { obs.label("sub-second instant") }
                obs.label(if minutes < 0.0 { "before epoch" } else { "after epoch" });
                if !(dist(&g.r, &w.r) <= tr) { return Err(format!("{}: position {:?}, by elapsed minutes ({}) {:?}: {} km apart (tolerance {:e})", dt, g.r, minutes, w.r, dist(&g.r, &w.r), tr)); }
                if !(dist(&g.v, &w.v) <= tv) { return Err(format!("{}: velocity {:?}, by elapsed minutes ({}) {:?}", dt, g.v, minutes, w.v)); }
                Ok(())
            }
            (Err(a), Err(b)) if a == b => { obs.nontrivial = true; obs.label("failure"); Ok(()) }
            (a, b) => {
                // outcome changes within the resolution of the instant
                for d in crate::props::chain::fine(5e-6) { let mut r = rec.clone(); states.push(prop(&mut r, minutes + d)?); }
                if minutes.abs() <= 5e-6 { let mut r = rec.clone(); states.push(prop(&mut r, 0.0)?); }
                if states.iter().any(|s| match (s, a) { (Ok(_), Ok(_)) => true, (Err(x), Err(y)) => x == y, _ => false }) { obs.label("knife edge"); return Ok(()); }
                Err(format!("{}: {:?}, by elapsed minutes ({}) {:?}", dt, a, minutes, b))
            }
        }
    }
}

// ---------------------------------------------------------------- C19

pub struct C19;
impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "random element sets of non-decaying orbits (perigee above 200 km, |drag term| up to 1e-3, eccentricity to 0.95, inclination to 175 deg, at least 0.7 rev/day) x 1..4 times to +-3 years; central difference of positions over 2 s against velocity; non-trivial: at least one comparison where the orbit's size is unaffected by drag (mean axis within 2 percent of epoch)";
    const ASSUMPTIONS: &'static [&'static str] = &["the model's velocity omits small rate terms: agreement to 1 percent of speed", "times within 2 s of a branch switch of the theory (Lyddane limit) are not compared"];
    type Case = Track;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_400_000 } else { 36_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Track> {
        let b = prop_oneof![1 => Just(crate::oracle::tle::Implied { neg: false, mant: 0, exp: 0, plus: false }), 4 => gens::implied(-6..-2)];
        track((gens::any_orbit(), b).prop_map(|(mut o, b)| { o.tle.bstar = b; o }).boxed(), 3.0 * YEAR, 4)
    }
    fn check(c: &Track, obs: &mut Obs) -> Verdict {
        let el = c.orbit.elements();
        let m = Model::new(&el, &wgs84());
        if (m.ep.rp - 1.0) * 6378.137 < 200.0 || el.e > 0.95 || el.i > 175f64.to_radians() || el.n * 1440.0 / TAU < 0.7 { obs.label("outside the domain"); return Ok(()); }
        let mut rec = match ready(&c.orbit)? { Ready::Rec(r) => r, _ => { obs.label("rejected at epoch"); return Ok(()); } };
        let h = 1.0 / 60.0;
        for &t in &c.times {
            // domain: drag has not reshaped the orbit, and no branch of the theory switches nearby
            let (r0, b0) = m.propagate(t);
            let ok = match r0 {
                Ok(s) => { let h = [s.r[1] * s.v[2] - s.r[2] * s.v[1], s.r[2] * s.v[0] - s.r[0] * s.v[2], s.r[0] * s.v[1] - s.r[1] * s.v[0]]; 
                    // the Moon and the Sun may have lowered the perigee by now
                    let (r, v) = (norm(&s.r), norm(&s.v));
                    let a = 1.0 / (2.0 / r - v * v / 398600.5);
                    let e = (1.0 - norm(&h).powi(2) / (398600.5 * a)).max(0.0).sqrt();
                    h[2] / norm(&h) > 178.5f64.to_radians().cos() && a > 0.0 && a * (1.0 - e) > 6478.137 && e < 0.95 }
                Err(_) => false,
            };
            let stable = [-2.0 * h, -h, h, 2.0 * h].iter().all(|d| m.propagate(t + d).1 == b0);
            let drag = (m.c1 * t).abs() + (m.d2 * t * t).abs() + (m.d3 * t * t * t).abs() + (m.d4 * t * t * t * t).abs();
            let dm = m.ep.n * (2.0 * m.t2 * t).abs().max((3.0 * m.t3 * t * t).abs()).max((4.0 * m.t4 * t.powi(3)).abs()).max((5.0 * m.t5 * t.powi(4)).abs()) / m.ep.n;
            let de = (el.bstar * m.c4 * t).abs();
            if !ok || !stable || b0 >> 63 == 1 || b0 & (1 << 42) != 0 || drag > 0.005 || dm > 0.005 || de > 0.005 * (1.0 - el.e) { obs.label("time outside the domain"); continue; }
            let s0 = prop(&mut rec, t)?;
            let s1 = prop(&mut rec, t - h)?;
            let s2 = prop(&mut rec, t + h)?;
            let (a, p, q) = match (s0, s1, s2) { (Ok(a), Ok(p), Ok(q)) => (a, p, q), _ => { obs.label("propagation error"); continue; } };
            let mut fd = [0.0; 3];
            for k in 0..3 { fd[k] = (q.r[k] - p.r[k]) / 2.0; }
            let d = dist(&fd, &a.v);
            let speed = norm(&a.v);
            obs.nontrivial = true;
            obs.label(match class(&m) { Class::Near => "near-Earth", Class::Deep => "deep-space", Class::Resonant => "resonant" });
            // central difference is second order; position rounding noise is below 1e-5 km
            let w = speed / norm(&a.r);
            let tol = 0.01 * speed + speed * w * w + 2e-5;
            if !(d <= tol) { return Err(format!("t = {} min: velocity {:?} but position moves at {:?} km/s (difference {} km/s, tolerance {})", t, a.v, fd, d, tol)); }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sym { pub orbit: Orbit, pub other: (u8, u64), pub also: crate::oracle::tle::Tle, pub satnum: u32, pub node: f64, pub turns: [i8; 3], pub times: Vec<f64> }

pub struct C20;
impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "random near-Earth element set x node shift x other epoch, satellite number, mean-motion derivatives, unused columns and operation mode x whole-turn shifts x 1..4 times; related propagations compared with each other; non-trivial: at least one pair of states compared";
    const ASSUMPTIONS: &'static [&'static str] = &["agreement to 1e-7 km plus 8x the state's response to 1e-13 relative changes"];
    type Case = Sym;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_400_000 } else { 36_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Sym> {
        (gens::orbit(Regime::Near), gens::epoch(), gens::orbit(Regime::Near), 0u32..100_000, prop_oneof![4 => -7.0..7.0f64, 1 => prop::sample::select(vec![std::f64::consts::PI, -std::f64::consts::PI, std::f64::consts::FRAC_PI_2, TAU])],
         [-3i8..4, -3i8..4, -3i8..4], prop::collection::vec(gens::minutes(2.0 * YEAR), 1..=4))
            .prop_map(|(orbit, other, also, satnum, node, turns, times)| Sym { orbit, other, also: also.tle, satnum, node, turns, times }).boxed()
    }
    fn check(c: &Sym, obs: &mut Obs) -> Verdict {
        let el = c.orbit.elements();
        let rf = Ref::new(&el);
        if class(&rf.base) != Class::Near || !rf.init_stable() { obs.label("outside the domain"); return Ok(()); }
        if let Expect::Knife = rf.expect(0.0) { obs.label("knife edge at epoch"); return Ok(()); }
        let (base, r0) = init_direct(&el)?;
        let mut elr = el; elr.node += c.node;
        let mut elt = el;
        elt.node += c.turns[0] as f64 * TAU; elt.argp += c.turns[1] as f64 * TAU; elt.m += c.turns[2] as f64 * TAU;
        let mut ele = el;
        let mut other = c.orbit.tle.clone();
        other.yy = c.other.0; other.day = c.other.1; other.satnum = format!("{:05}", c.satnum);
        ele.epoch = other.jd() - 2433281.5;
        // no near-Earth term uses these
        (other.ndot_neg, other.ndot, other.nddot, other.filler) = (c.also.ndot_neg, c.also.ndot, c.also.nddot, c.also.filler);
        ele.mode = if matches!(el.mode, crate::oracle::sgp4::Mode::Afspc) { crate::oracle::sgp4::Mode::Improved } else { crate::oracle::sgp4::Mode::Afspc };
        let (rot, r1) = init_direct(&elr)?;
        let (turn, r2) = init_direct(&elt)?;
        let (ep, r3) = init_direct(&ele)?;
        let code = |r: &Result<satellite::propogation::sgp4::SGP4Result, satellite::propogation::sgp4::SGP4Error>| r.as_ref().err().map(|e| e.code());
        for (r, w) in [(&r1, "node shift"), (&r2, "whole-turn shift"), (&r3, "other epoch and operation mode")] {
            if code(r) != code(&r0) { return Err(format!("initialisation outcome changes under {}: {:?} / {:?}", w, code(&r0), code(r))); }
        }
        if r0.is_err() { obs.label("rejected at epoch"); return Ok(()); }
        let mut recs = vec![("node shift", rot, c.node), ("whole-turn shift", turn, 0.0), ("other epoch and operation mode", ep, 0.0)];
        // the text form too: other epoch, number and name
        if c.orbit.jit.is_none() {
            let text = format!("SOME NAME\n{}\n{}\n", other.line1(), other.line2());
            match sut(|| satellite::io::parse(&text))? {
                Ok(mut r) => { r.satnum = "XYZ".into(); recs.push(("other epoch, number, name, derivatives and unused columns (text)", r, 0.0)); }
                Err(e) => return Err(format!("text with another epoch is rejected: {:?}", e)),
            }
        }
        let mut base = base;
        for &t in &c.times {
            let b = prop(&mut base, t)?;
            let tol = match rf.expect(t) { Expect::Knife => { obs.label("knife edge"); continue; } Expect::State { tol_r, tol_v, .. } => (2.0 * tol_r, 2.0 * tol_v), Expect::Fail(_) => (0.0, 0.0) };
            for (w, rec, ang) in recs.iter_mut() {
                let g = prop(rec, t)?;
                match (&b, &g) {
                    (Ok(x), Ok(y)) => {
                        let rotz = |v: &[f64; 3]| { let (s, k) = ang.sin_cos(); [k * v[0] - s * v[1], s * v[0] + k * v[1], v[2]] };
                        let (er, ev) = (rotz(&x.r), rotz(&x.v));
                        obs.nontrivial = true;
                        if tol.0 > 1e-3 * norm(&x.r) { continue; }
                        if !(dist(&er, &y.r) <= tol.0 && dist(&ev, &y.v) <= tol.1) {
                            return Err(format!("t = {} min, {}: expected {:?} {:?}, got {:?} {:?}", t, w, er, ev, y.r, y.v));
                        }
                    }
                    (Err(x), Err(y)) if x == y => obs.label("same failure"),
                    _ => return Err(format!("t = {} min, {}: outcomes differ: {:?} / {:?}", t, w, b, g)),
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C21

fn close(name: &str, got: f64, want: f64, rel: f64, abs: f64) -> Verdict {
    if (got - want).abs() <= rel * want.abs() + abs { Ok(()) } else { Err(format!("{} = {:e}, expected {:e}", name, got, want)) }
}

pub struct C21;
impl Prop for C21 {
    const ID: &'static str = "C21";
    const RULE: &'static str = "random element set of every regime through text or initialiser; published fields compared with independently derived values; non-trivial: the set initialised";
    const ASSUMPTIONS: &'static [&'static str] = &["flags compared only where a 1e-10 relative change of the input does not switch them"];
    type Case = Orbit;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 6_000_000 } else { 90_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Orbit> { prop_oneof![8 => gens::any_orbit(), 2 => gens::orbit(Regime::Border), 1 => gens::orbit(Regime::Raw)].boxed() }
    fn check(o: &Orbit, obs: &mut Obs) -> Verdict {
        let el = o.elements();
        let rec = match ready(o)? { Ready::Rec(r) => r, _ => { obs.label("rejected at epoch"); return Ok(()); } };
        obs.nontrivial = true;
        let rf = Ref::new(&el);
        let m = &rf.base;
        let xke = m.g.xke;
        if o.text() {
            let a = (xke / el.n).powf(2.0 / 3.0);
            close("a", rec.a, a, 1e-11, 0.0)?;
            close("alta", rec.alta, a * (1.0 + el.e) - 1.0, 1e-11, 1e-11 * a)?;
            close("altp", rec.altp, a * (1.0 - el.e) - 1.0, 1e-11, 1e-11 * a)?;
            close("jdsatepoch", rec.jdsatepoch, o.tle.jd(), 0.0, 2e-9)?;
        }
        close("no", rec.no, m.ep.n, 1e-10, 0.0)?;
        close("ecco", rec.ecco, el.e, 1e-14, 1e-16)?;
        close("inclo", rec.inclo, el.i, 1e-13, 0.0)?;
        close("nodeo", rec.nodeo, el.node, 1e-13, 1e-15)?;
        close("argpo", rec.argpo, el.argp, 1e-13, 1e-15)?;
        close("mo", rec.mo, el.m, 1e-13, 1e-15)?;
        close("bstar", rec.bstar, el.bstar, 1e-14, 0.0)?;
        let sc = m.ep.n;
        close("mdot", rec.mdot, m.mdot, 1e-9, 1e-14 * sc)?;
        close("argpdot", rec.argpdot, m.argpdot, 1e-9, 1e-12 * m.ep.n / m.ep.posq)?;
        close("nodedot", rec.nodedot, m.nodedot, 1e-9, 1e-12 * m.ep.n / m.ep.posq)?;
        let g = if el.mode == Mode::Improved { time::gmst(el.epoch + 2433281.5) } else { m.ep.gsto };
        if !(ang_diff(rec.gsto, g) <= 2e-8 && rec.gsto >= 0.0 && rec.gsto < TAU + 1e-12) { return Err(format!("gsto = {}, expected {}", rec.gsto, g)); }
        // the initialiser itself answers with the state at epoch
        let (rec0, res0) = init_direct(&el)?;
        match (conv(&res0), prop(&mut rec0.clone(), 0.0)?) {
            (Ok(a), Ok(b)) => if !(dist(&a.r, &b.r) <= 1e-8 && dist(&a.v, &b.v) <= 1e-10) { return Err(format!("the initialiser answers {:?}, the state at epoch is {:?}", a, b)); },
            (Err(a), Err(b)) if a == b => {}
            (a, b) => return Err(format!("the initialiser answers {:?}, propagation to epoch {:?}", a, b)),
        }
        if rec.error != 0 { return Err(format!("error field is {} after success", rec.error)); }
        if rec.init != satellite::propogation::dpper::DpperInit::N { return Err("record not marked initialised".into()); }
        if (rec.operationmode == satellite::propogation::dpper::DpperOpsMode::A) != o.afspc { return Err("operation mode changed".into()); }
        if rf.init_stable() {
            let deep = rec.method == satellite::propogation::initl::InitlMethod::D;
            if deep != m.deep.is_some() { return Err(format!("deep-space flag {} for a period of {} min", deep, TAU / m.ep.n)); }
            let irez = match &m.deep { None => 0.0, Some(d) => match d.reso.kind { Resonance::None => 0.0, Resonance::OneDay => 1.0, Resonance::HalfDay => 2.0 } };
            if rec.irez != irez { return Err(format!("resonance class {} where {} applies (n = {} rad/min, e = {})", rec.irez, irez, m.ep.n, el.e)); }
            if (rec.isimp == 1) != m.simple || (rec.isimp != 0 && rec.isimp != 1) { return Err(format!("simplified-drag flag {} for perigee {} km, period {} min", rec.isimp, (m.ep.rp - 1.0) * 6378.137, TAU / m.ep.n)); }
            obs.label(format!("deep {} resonance {} simplified {}", deep, irez, m.simple));
        } else { obs.label("knife edge: flags not compared"); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C28

/// Kepler's ellipse with the first-order secular drift of node and perigee; knows nothing of SGP4
fn kepler(el: &crate::oracle::sgp4::Elements, t: f64) -> State {
    const J2: f64 = 0.00108263;
    const RE: f64 = 6378.137;
    const MU: f64 = 398600.5;
    let (c, b) = (el.i.cos(), (1.0 - el.e * el.e).sqrt());
    let w = |n: f64| (MU.sqrt() / RE.powf(1.5) * 60.0 / n).powf(2.0 / 3.0); // semi-major axis, Earth radii
    let d = 0.75 * J2 * (3.0 * c * c - 1.0) / (b * b * b * w(el.n).powi(2));
    let nb = el.n / (1.0 + d);
    let a = w(nb);
    let p = a * b * b;
    let k = 1.5 * J2 * nb / (p * p);
    let node = el.node - k * c * t;
    let argp = el.argp + 0.5 * k * (5.0 * c * c - 1.0) * t;
    let m = (el.m + el.n * t).rem_euclid(TAU);
    let mut e = if el.e < 0.8 { m } else { std::f64::consts::PI };
    for _ in 0..60 { let f = (e - el.e * e.sin() - m) / (1.0 - el.e * e.cos()); e -= f.clamp(-0.7, 0.7); if f.abs() < 1e-13 { break; } }
    let (x, y) = (a * RE * (e.cos() - el.e), a * RE * b * e.sin());
    let edot = nb / 60.0 / (1.0 - el.e * e.cos());
    let (vx, vy) = (-a * RE * e.sin() * edot, a * RE * b * e.cos() * edot);
    let turn = |x: f64, y: f64| {
        let (so, co) = argp.sin_cos();
        let (u, v) = (co * x - so * y, so * x + co * y);
        let (si, ci) = el.i.sin_cos();
        let (sn, cn) = node.sin_cos();
        [cn * u - sn * ci * v, sn * u + cn * ci * v, si * v]
    };
    State { r: turn(x, y), v: turn(vx, vy) }
}

pub struct C28;
impl Prop for C28 {
    const ID: &'static str = "C28";
    const RULE: &'static str = "drag-free element sets of 0.5 rev/day and more, inclination to 168 deg, perigee from 100 km height, x 1..4 times within 10 days of epoch; non-trivial: at least one state compared with the secular Kepler motion where the tolerance is below 0.3 of the distance";
    const ASSUMPTIONS: &'static [&'static str] = &["tolerance, relative to distance and speed, times (1-e)^-2: near Earth 0.006 + 0.0025 per day, deep space 0.018 + 0.0015 per day; about twice the largest periodic deviation measured over millions of sets"];
    type Case = Track;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 5_000_000 } else { 60_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Track> {
        let none = crate::oracle::tle::Implied { neg: false, mant: 0, exp: 0, plus: false };
        let o = prop_oneof![3 => gens::orbit(Regime::Near), 2 => gens::orbit(Regime::Deep), 1 => gens::orbit(Regime::OneDay), 1 => gens::orbit(Regime::HalfDay)];
        track(o.prop_map(move |mut o| { o.tle.bstar = none; o }).boxed(), 14_400.0, 4)
    }
    fn check(c: &Track, obs: &mut Obs) -> Verdict {
        let el = c.orbit.elements();
        let nd = el.n * 1440.0 / TAU;
        let a = (398600.5 / (el.n / 60.0).powi(2)).cbrt();
        if a.is_nan() || nd < 0.5 || el.i > 168f64.to_radians() || a * (1.0 - el.e) < 6478.137 { obs.label("outside the domain"); return Ok(()); }
        let near = TAU / el.n < 225.0;
        let tol = |days: f64| (if near { 0.006 + 0.0025 * days } else { 0.018 + 0.0015 * days }) / (1.0 - el.e).powi(2);
        if tol(0.0) > 0.3 { obs.label("too eccentric to compare"); return Ok(()); }
        let mut rec = match ready(&c.orbit)? {
            Ready::Rec(r) => r,
            _ => return Err(format!("a drag-free set of perigee height {} km was not accepted", a * (1.0 - el.e) - 6378.137)),
        };
        for &t in &c.times {
            if !(t.abs() <= 14_400.0) { continue; }
            let tol = tol(t.abs() / 1440.0);
            if tol > 0.3 { obs.label("too eccentric to compare"); continue; }
            let k = kepler(&el, t);
            let g = prop(&mut rec, t)?.map_err(|e| format!("a drag-free set fails {t} minutes from epoch: {e:?}"))?;
            let (d, dv) = (dist(&g.r, &k.r) / norm(&k.r), dist(&g.v, &k.v) / norm(&k.v));
            if !(d <= tol) { return Err(format!("{t} minutes from epoch the satellite is {d:.4} of its distance away from the secular Kepler motion, tolerance {tol:.4}: {g:?}, expected about {k:?}")); }
            if !(dv <= tol) { return Err(format!("{t} minutes from epoch the velocity is {dv:.4} of its size away from the secular Kepler motion, tolerance {tol:.4}: {g:?}, expected about {k:?}")); }
            obs.nontrivial = true;
            obs.label(if near { "near Earth" } else { "deep space" });
            if t < 0.0 { obs.label("negative time") }
            if tol < 0.03 { obs.label("tolerance below 3 %") }
        }
        Ok(())
    }
}
