//! Calendar, Julian date and sidereal time, by integer arithmetic.

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn year_len(y: i64) -> i64 {
    if is_leap(y) { 366 } else { 365 }
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => if is_leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Day number counted from 2000-01-01 (= 0), proleptic Gregorian. Plain counting, no closed formula.
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    if y >= 2000 {
        for k in 2000..y { n += year_len(k); }
    } else {
        for k in y..2000 { n -= year_len(k); }
    }
    for k in 1..m { n += month_len(y, k); }
    n + d - 1
}

/// Julian date of 2000-01-01T00:00 UTC.
pub const JD2000_MIDNIGHT: f64 = 2451544.5;

/// (month, day) of day-of-year `doy` (1-based)
pub fn month_day(y: i64, doy: i64) -> (i64, i64) {
    let mut rest = doy;
    let mut m = 1;
    while rest > month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    (m, rest)
}

/// The four-digit year a two-digit TLE epoch year stands for.
pub fn tle_year(yy: i64) -> i64 {
    if yy >= 57 { 1900 + yy } else { 2000 + yy }
}

pub const TAU: f64 = std::f64::consts::PI * 2.0;

/// IAU-1982 GMST in radians, [0, 2 pi), for whole days + fraction of day since J2000.0 (noon).
/// One turn per day comes from the day fraction alone; only the slow terms use the polynomial.
pub fn gmst_split(days: f64, frac: f64) -> f64 {
    let d = days + frac;
    let t = d / 36525.0;
    let slow = 67310.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t * t * t;
    let turns = frac + slow / 86400.0;
    let f = turns - turns.floor();
    f * TAU
}

pub fn gmst(jd: f64) -> f64 {
    let d = jd - 2451545.0; // exact for all dates of interest
    let whole = d.floor();
    gmst_split(whole, d - whole)
}

/// smallest absolute difference of two angles
pub fn ang_diff(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(TAU);
    d.min(TAU - d)
}
