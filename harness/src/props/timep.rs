//! C11, C22: time conversions.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::mine::{self, spice_f, spice_i64};
use crate::oracle::time::{self, ang_diff, TAU};
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

const NS_DAY: i128 = 86_400_000_000_000;

/// day 0 = 2000-01-01; nanosecond of the day
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Instant { pub day: i64, pub ns: i64 }

impl Instant {
    pub fn utc(&self) -> chrono::DateTime<chrono::Utc> {
        chrono::DateTime::<chrono::Utc>::from_timestamp((self.day + 10957) * 86400 + self.ns / 1_000_000_000, (self.ns % 1_000_000_000) as u32).expect("instant in range")
    }
}

/// days 1901-01-01 .. 2099-12-31 relative to 2000-01-01
pub fn day_range() -> (i64, i64) { (time::day_number(1901, 1, 1), time::day_number(2099, 12, 31)) }

pub fn ns_of_day() -> BoxedStrategy<i64> {
    const DAY: i64 = 86_400_000_000_000;
    let base = ns_of_day_base();
    // hours, minutes, seconds of day, fractions of a second
    let base = spice_i64(base, &[|v| v * 3600.0, |v| v * 60.0, |v| v, |v| v * 1e-3, |v| v * 1e-9, |v| v * 86400.0, |v| v.fract() * 86400.0, |v| (v + 0.5).fract() * 86400.0], 1e9, 0, DAY - 1);
    // the same, as one field of a clock reading
    let field = spice_i64(Just(-1i64).boxed(), mine::PLAIN, 1.0, 0, 999_999_999);
    (base, field, 0u8..5).prop_map(|(ns, f, k)| {
        if f < 0 { return ns; }
        let (h, m, s, n) = (ns / 3_600_000_000_000, ns / 60_000_000_000 % 60, ns / 1_000_000_000 % 60, ns % 1_000_000_000);
        let (h, m, s, n) = match k { 0 => (f % 24, m, s, n), 1 => (h, f % 60, s, n), 2 => (h, m, f % 60, n), 3 => (h, m, s, f), _ => (h, m, s, f % 1000 * 1_000_000) };
        ((h * 60 + m) * 60 + s) * 1_000_000_000 + n
    }).boxed()
}
fn ns_of_day_base() -> BoxedStrategy<i64> {
    prop_oneof![
        3 => 0i64..86_400_000_000_000,
        2 => (0i64..86_400_000).prop_map(|ms| ms * 1_000_000),
        1 => (0i64..86_400).prop_map(|s| s * 1_000_000_000),
        1 => (0i64..86_400, select(vec![1i64, 999, 1000, 999_999, 1_000_000, 499_999_999, 500_000_000, 999_000_000, 999_999_999])).prop_map(|(s, n)| s * 1_000_000_000 + n),
        1 => select(vec![0i64, 1, 43_200_000_000_000, 43_199_999_999_999, 86_399_999_999_999, 86_399_000_000_000]),
    ].boxed()
}

pub fn instant() -> BoxedStrategy<Instant> {
    let (a, b) = day_range();
    let edge = (1901i64..=2099, select(vec![(1i64, 1i64), (1, 31), (2, 1), (2, 28), (2, 29), (3, 1), (4, 30), (12, 31)]))
        .prop_map(|(y, (m, d))| time::day_number(y, m, d.min(time::month_len(y, m))));
    let day = prop_oneof![4 => a..=b, 2 => edge].boxed();
    // Julian dates, Unix times, days and centuries since 2000
    let day = spice_i64(day, &[|v| v - 2451544.5, |v| (v / 86400.0).floor() - 10957.0, |v| v, |v| v * 36525.0, |v| v - 51544.0, |v| v - 2451545.0], 1.0, a, b);
    // one calendar field
    let field = spice_i64(Just(-1i64).boxed(), mine::PLAIN, 1.0, 0, 3000);
    let day = (day, field, 0u8..3).prop_map(|(d, f, k)| {
        if f < 0 { return d; }
        let mut y = 2000 + d * 400 / 146_097;
        while time::day_number(y, 1, 1) > d { y -= 1; }
        while time::day_number(y + 1, 1, 1) <= d { y += 1; }
        let (mut m, mut dd) = time::month_day(y, d - time::day_number(y, 1, 1) + 1);
        match k {
            0 if (1901..=2099).contains(&f) => y = f,
            0 => y = 2000 + f % 100,
            1 => m = (f - 1).rem_euclid(12) + 1,
            _ => dd = (f - 1).rem_euclid(31) + 1,
        }
        time::day_number(y, m, dd.min(time::month_len(y, m)))
    });
    (day, ns_of_day()).prop_map(|(day, ns)| Instant { day, ns }).boxed()
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Gst { Jd(f64), At(Instant) }

/// a Julian date near which the sidereal angle passes through zero
fn near_wrap(day: i64, off: f64) -> f64 {
    let d = day as f64 + 0.5;
    let slow = |x: f64| { let t = x / 36525.0; (67310.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t * t * t) / 86400.0 };
    let mut f = 0.0;
    for _ in 0..4 { let s = slow(d + f) + 0.5; f = 1.0 - (s - s.floor()); }
    2451545.0 + d + f + off
}

pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "random Julian dates 1850..2150 (uniform, midnight/noon, around the zero crossing of the angle) and random UTC instants 1901..2099 with nanoseconds; compared with GMST computed from the day fraction and the slow terms separately; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["1e-9 rad for Julian dates, 1.5e-8 rad for calendar times (resolution of a Julian date)"];
    type Case = Gst;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 24_000_000 } else { 360_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Gst> {
        let jd = prop_oneof![
            4 => 2396758.5..2506331.5f64,
            2 => (2396759i64..2506331, select(vec![-0.5f64, 0.0, 0.25])).prop_map(|(d, f)| d as f64 + f),
            2 => (-54000i64..54000, crate::gens::logu(1e-10, 1e-2)).prop_map(|(d, o)| near_wrap(d, o)),
            1 => 2451544.0..2451546.0f64,
        ].boxed();
        let jd = crate::mine::spice_f(jd, &[|v| v, |v| v + 2451545.0, |v| 2451545.0 - v, |v| v * 36525.0 + 2451545.0, |v| v + 2400000.5, |v| v + 2433281.5, |v| v / 86400.0 + 2440587.5, |v| (v - 2000.0) * 365.25 + 2451545.0], 2396758.5, 2506331.5);
        prop_oneof![2 => jd.prop_map(Gst::Jd), 1 => instant().prop_map(Gst::At)].boxed()
    }
    fn check(c: &Gst, obs: &mut Obs) -> Verdict {
        obs.nontrivial = true;
        let (got, want, tol) = match c {
            Gst::Jd(jd) => {
                obs.label(if *jd < 2451545.0 { "Julian date before J2000" } else { "Julian date after J2000" });
                (sut(|| satellite::propogation::gstime::gstime(*jd))?, time::gmst(*jd), 1e-9)
            }
            Gst::At(i) => {
                obs.label("calendar time");
                if i.ns % 1_000_000_000 != 0 { obs.label("fractional second"); }
                // days since J2000.0 (noon of day 0), split exactly
                let tot: i128 = i.day as i128 * NS_DAY + i.ns as i128 - NS_DAY / 2;
                let d = tot.div_euclid(NS_DAY);
                let f = tot.rem_euclid(NS_DAY) as f64 / NS_DAY as f64;
                (sut(|| satellite::propogation::gstime::gstime_datetime(i.utc()))?, time::gmst_split(d as f64, f), 1.5e-8)
            }
        };
        if !(ang_diff(got, want) <= tol) { return Err(format!("sidereal angle {} where the definition gives {}", got, want)); }
        if !(got >= 0.0 && got <= TAU) { return Err(format!("sidereal angle {} outside one turn", got)); }
        if want < 1e-6 || want > TAU - 1e-6 { obs.label("next to the wrap-around"); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cal {
    /// every day of the year at the listed nanoseconds of day
    Year { year: i64, ns: Vec<i64> },
    At(Instant),
    /// calendar parts as numbers; seconds and milliseconds fractional
    Parts { day: i64, hour: u8, minute: u8, second: f64, ms: f64 },
    Split { year: i64, day: f64 },
    /// a day of year stated in 1e-8 days
    SplitUnits { year: i64, units: u64 },
}

fn day_parts(day: i64) -> (i64, i64, i64) {
    // by counting
    let mut y = 2000;
    let mut n = day;
    while n < 0 { y -= 1; n += time::year_len(y); }
    while n >= time::year_len(y) { n -= time::year_len(y); y += 1; }
    let (m, d) = time::month_day(y, n + 1);
    (y, m, d)
}

fn jd_at(day: i64, ns: i64) -> Verdict {
    let (y, m, d) = day_parts(day);
    let want = time::JD2000_MIDNIGHT + day as f64 + ns as f64 / 86_400e9;
    let s = ns / 1_000_000_000;
    let got = sut(|| satellite::ext::jday(y as f64, m as f64, d as f64, (s / 3600) as f64, (s / 60 % 60) as f64, (s % 60) as f64, (ns % 1_000_000_000) as f64 / 1e6))?;
    if !((got - want).abs() <= 1.5e-9) { return Err(format!("Julian date of {}-{}-{} + {} ns = {:.10}, true {:.10}", y, m, d, ns, got, want)); }
    let got = sut(|| satellite::ext::jday_datetime(Instant { day, ns }.utc()))?;
    if !((got - want).abs() <= 1.5e-9) { return Err(format!("Julian date of the instant {}-{}-{} + {} ns = {:.10}, true {:.10}", y, m, d, ns, got, want)); }
    Ok(())
}

fn split(year: i64, days: f64) -> Verdict {
    let r = sut(|| satellite::ext::days2mdhms(year as u64, days))?;
    let ctx = || format!("day {:.10} of {} -> month {} day {} {}:{}:{}", days, year, r.month, r.day, r.hour, r.minute, r.second);
    let int = |x: f64, lo: i64, hi: i64| x == x.trunc() && x >= lo as f64 && x <= hi as f64;
    if !int(r.month, 1, 12) { return Err(format!("{}: month out of range", ctx())); }
    if !int(r.day, 1, time::month_len(year, r.month as i64)) { return Err(format!("{}: day out of range", ctx())); }
    if !int(r.hour, 0, 23) || !int(r.minute, 0, 59) || !(r.second >= 0.0 && r.second < 60.0 + 1e-9) { return Err(format!("{}: time of day out of range", ctx())); }
    let doy = time::day_number(year, r.month as i64, r.day as i64) - time::day_number(year, 1, 1) + 1;
    let back = doy as f64 + (r.hour * 3600.0 + r.minute * 60.0 + r.second) / 86400.0;
    if !((back - days).abs() <= 2e-12 * 366.0) { return Err(format!("{}: the parts add up to day {:.10}", ctx(), back)); }
    Ok(())
}

pub struct C22;
impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "every calendar day 1901..2099 at eight times of day (fixed list, one case per year), random instants with nanoseconds, random calendar parts with fractional seconds and milliseconds, random fractional days of year; compared with plain day counting; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["1.5e-9 day (three units of the number's resolution)", "split parts must add up to within 1e-9 day"];
    type Case = Cal;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 20_000_000 } else { 300_000_000 } }
    fn fixed(_: Tier) -> Vec<Cal> {
        (1901..=2099).map(|year| Cal::Year { year, ns: vec![0, 1_000_000, 999_000_000, 43_199_999_000_000, 43_200_000_000_000, 61_234_567_891_234, 86_399_000_000_000, 86_399_999_999_999] }).collect()
    }
    fn strategy(_: Tier) -> BoxedStrategy<Cal> {
        let frac = prop_oneof![3 => 0.0..1.0f64, 1 => select(vec![0.0f64, 0.5, 1.0 / 24.0, 1.0 / 1440.0, 1.0 / 86400.0, 0.999999999])].boxed();
        let frac = spice_f(frac, crate::gens::FRAC_OF, 0.0, 0.999_999_999);
        let year = || spice_i64((1901i64..=2099).boxed(), &[|v| v, |v| v + 1900.0, |v| v + 2000.0], 1.0, 1901, 2099);
        let doy = spice_i64((0i64..366).boxed(), &[|v| v - 1.0], 1.0, 0, 365);
        let clock = |hi: i64| spice_i64((0..hi).boxed(), mine::PLAIN, 1.0, 0, hi - 1).prop_map(|x| x as u8);
        prop_oneof![
            4 => instant().prop_map(Cal::At),
            2 => (instant().prop_map(|i| i.day), clock(24), clock(60), spice_f(prop_oneof![0.0..60.0f64, (0u8..60).prop_map(|s| s as f64)].boxed(), mine::PLAIN, 0.0, 59.999_999), spice_f(prop_oneof![Just(0.0f64), 0.0..1000.0f64].boxed(), mine::PLAIN, 0.0, 999.999)).prop_map(|(day, hour, minute, second, ms)| Cal::Parts { day, hour, minute, second, ms }),
            2 => (year(), doy, frac).prop_map(|(year, d, f)| Cal::Split { year, day: (d % time::year_len(year) + 1) as f64 + f }),
            2 => (year(), 0u64..36_600_000_000).prop_map(|(year, u)| Cal::SplitUnits { year, units: u % (time::year_len(year) as u64 * 100_000_000) + 100_000_000 }),
        ].boxed()
    }
    fn check(c: &Cal, obs: &mut Obs) -> Verdict {
        obs.nontrivial = true;
        match c {
            Cal::Year { year, ns } => {
                obs.label("whole year, every day");
                let d0 = time::day_number(*year, 1, 1);
                for k in 0..time::year_len(*year) {
                    for n in ns {
                        jd_at(d0 + k, *n)?;
                        split(*year, (k + 1) as f64 + (*n / 864_000) as f64 / 1e8)?;
                    }
                }
                Ok(())
            }
            Cal::At(i) => { obs.label("instant"); if i.ns % 1_000_000_000 != 0 { obs.label("fractional second"); } jd_at(i.day, i.ns) }
            Cal::Parts { day, hour, minute, second, ms } => {
                obs.label("calendar parts");
                let (y, m, d) = day_parts(*day);
                let want = time::JD2000_MIDNIGHT + *day as f64 + (*hour as f64 * 3600.0 + *minute as f64 * 60.0 + second + ms / 1000.0) / 86400.0;
                let got = sut(|| satellite::ext::jday(y as f64, m as f64, d as f64, *hour as f64, *minute as f64, *second, *ms))?;
                if !((got - want).abs() <= 1.5e-9) { return Err(format!("Julian date of {}-{}-{} {}:{}:{} + {} ms = {:.10}, true {:.10}", y, m, d, hour, minute, second, ms, got, want)); }
                Ok(())
            }
            Cal::Split { year, day } => { obs.label("split day of year"); split(*year, *day) }
            Cal::SplitUnits { year, units } => { obs.label("split day of year"); split(*year, *units as f64 / 1e8) }
        }
    }
}
