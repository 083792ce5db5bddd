//! C06..C10: element-set text.

use crate::engine::{sut, Obs, Prop, Tier, Verdict};
use crate::gens::{self, Regime};
use crate::mine::{self, spice, spice_s, spice_u32};
use crate::oracle::time;
use crate::oracle::tle::{Implied, Tle};
use crate::props::orbit::fingerprint;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use satellite::io::{parse, parse_multiple, parse_satrec, twoline2satrec, Satrec, SatrecParseError};
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

// ---------------------------------------------------------------- layout

/// How the numbers of a `Tle` are put on the two lines.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Layout {
    pub tle: Tle,
    /// content of the unused columns 1,7,8..17,32,43,52 of line 1 and 1,7,16,25,33,42,51 of line 2
    pub fill: Vec<u8>,
    /// pad angles, day of year and mean motion with zeros instead of blanks
    pub zero_pad: [bool; 3],
    /// sign column of a non-negative first derivative is '+'
    pub ndot_plus: bool,
    /// exponent sign of non-negative exponents: 0 '+', 1 '-' (zero only, else '+'), 2 ' '
    pub exp_sign: [u8; 2],
    /// text after the last used column
    pub tail: [String; 2],
}

fn put(line: &mut Vec<u8>, col: usize, s: &str) {
    if line.len() < col + s.len() { line.resize(col + s.len(), b' '); }
    line[col..col + s.len()].copy_from_slice(s.as_bytes());
}

fn implied(v: &Implied, style: u8) -> String {
    let sign = if v.neg { '-' } else if v.plus { '+' } else { ' ' };
    let es = if v.exp < 0 { '-' } else { match style { 1 if v.exp == 0 => '-', 2 => ' ', _ => '+' } };
    format!("{}{:05}{}{}", sign, v.mant, es, v.exp.unsigned_abs())
}

impl Layout {
    pub fn plain(tle: Tle) -> Layout {
        let mut fill = vec![b' '; 24];
        fill[1] = b'U';
        Layout { tle, fill, zero_pad: [false; 3], ndot_plus: false, exp_sign: [1, 1], tail: [" 0  9997".into(), "123458".into()] }
    }

    pub fn lines(&self) -> (String, String) {
        let t = &self.tle;
        let mut f = self.fill.iter().cycle().copied();
        let mut fill = |line: &mut Vec<u8>, cols: &[usize]| for &c in cols { let b = f.next().unwrap_or(b' '); put(line, c, &(b as char).to_string()); };
        let deg = |v: u32, zero: bool| if zero { format!("{:03}.{:04}", v / 10000, v % 10000) } else { format!("{:>3}.{:04}", v / 10000, v % 10000) };
        let mut a = b"1".to_vec();
        fill(&mut a, &[1, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 32, 43, 52]);
        put(&mut a, 2, &t.satnum);
        put(&mut a, 18, &format!("{:02}", t.yy));
        let (d, frac) = (t.day / 100_000_000, t.day % 100_000_000);
        put(&mut a, 20, &if self.zero_pad[1] { format!("{:03}.{:08}", d, frac) } else { format!("{:>3}.{:08}", d, frac) });
        put(&mut a, 33, &format!("{}.{:08}", if t.ndot_neg { '-' } else if self.ndot_plus { '+' } else { ' ' }, t.ndot));
        put(&mut a, 44, &implied(&t.nddot, self.exp_sign[0]));
        put(&mut a, 53, &implied(&t.bstar, self.exp_sign[1]));
        let mut b = b"2".to_vec();
        fill(&mut b, &[1, 7, 16, 25, 33, 42, 51]);
        put(&mut b, 2, &t.satnum);
        put(&mut b, 8, &deg(t.incl, self.zero_pad[0]));
        put(&mut b, 17, &deg(t.node, self.zero_pad[0]));
        put(&mut b, 26, &format!("{:07}", t.ecc));
        put(&mut b, 34, &deg(t.argp, self.zero_pad[0]));
        put(&mut b, 43, &deg(t.ma, self.zero_pad[0]));
        let (r, rf) = (t.n / 100_000_000, t.n % 100_000_000);
        put(&mut b, 52, &if self.zero_pad[2] { format!("{:02}.{:08}", r, rf) } else { format!("{:>2}.{:08}", r, rf) });
        (String::from_utf8(a).unwrap() + &self.tail[0], String::from_utf8(b).unwrap() + &self.tail[1])
    }
}

fn satnum() -> BoxedStrategy<String> {
    spice_s(satnum_base(), |w| w.len() == 5 && w.is_ascii() && !w.trim().is_empty() && !w.chars().any(|c| c.is_control()), |w| format!("{:>5}", w))
}
fn satnum_base() -> BoxedStrategy<String> {
    prop_oneof![
        4 => spice_u32((0u32..100_000).boxed(), mine::PLAIN, 1.0, 99_999).prop_map(|n| format!("{:05}", n)),
        1 => (0u32..100_000).prop_map(|n| format!("{:>5}", n)),
        1 => (0u32..10_000).prop_map(|n| format!("{:<5}", n)),
        1 => ("[A-HJ-NP-Z]", 0u32..10_000).prop_map(|(c, n)| format!("{}{:04}", c, n)),
    ].boxed()
}

fn ascii() -> BoxedStrategy<u8> {
    let chars: Vec<u8> = mine::words().iter().flat_map(|w| w.bytes()).filter(|b| (b' '..=b'~').contains(b)).collect();
    let base = ascii_base();
    if chars.is_empty() { base } else { prop_oneof![4 => base, 1 => select(chars)].boxed() }
}
fn ascii_base() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(b' '), 4 => b' '..=b'~', 2 => b'0'..=b'9', 2 => select(b"+-.Ee12 _".to_vec())].boxed()
}

fn tail() -> BoxedStrategy<String> {
    spice_s(tail_base(), |w| !w.chars().any(|c| c.is_control()), |w| format!(" {}", w))
}
fn tail_base() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        3 => "[ -~]{1,12}",
        2 => "[0-9 ]{6}",
        1 => "[ -~]{0,3}[éß中😀]{1,2}[ -~]{0,3}",
        1 => "[0-9+-]{1,60}",
    ].boxed()
}

/// all fields independent, over everything the columns can express
fn full_tle() -> BoxedStrategy<Tle> {
    let sh = prop_oneof![2 => gens::shape(Regime::Near), 1 => gens::shape(Regime::Deep), 1 => gens::shape(Regime::HalfDay), 2 => gens::shape(Regime::Raw)];
    let ndot = prop_oneof![3 => 0u32..100_000_000, 2 => 0u32..100_000, 1 => select(vec![0u32, 1, 10_000_000, 99_999_999, 50_000_000])];
    let ndot = spice(ndot.boxed(), &[|v| v, |v| v * 1e-8], |v| if (0.0..1.0).contains(&v) { Some((v * 1e8).round().min(99_999_999.0) as u32) } else { None });
    (sh, gens::epoch(), satnum(), (any::<bool>(), ndot), (gens::implied(-9..10), gens::implied(-9..10), gens::bstar(), 0u8..3), (gens::incl(), gens::angle(), gens::angle(), gens::angle()))
        .prop_map(|((n, ecc), (yy, day), satnum, (ndot_neg, ndot), (nddot, b1, b2, w), (incl, node, argp, ma))| Tle {
            satnum, yy, day, ndot_neg, ndot, nddot, bstar: if w == 0 { b1 } else { b2 }, incl, node, ecc, argp, ma, n, filler: ' ',
        }).boxed()
}

pub fn layout(t: BoxedStrategy<Tle>) -> BoxedStrategy<Layout> {
    let fill = prop_oneof![
        2 => Just(Layout::plain(Tle::simple()).fill),
        5 => vec(ascii(), 22),
        1 => (b'0'..=b'9').prop_map(|b| vec![b; 22]),
        1 => select(vec![b'-', b'+', b'.', b'E', b'9']).prop_map(|b| vec![b; 22]),
    ];
    (t, fill, any::<[bool; 3]>(), any::<bool>(), [0u8..3, 0u8..3], [tail(), tail()])
        .prop_map(|(tle, fill, zero_pad, ndot_plus, exp_sign, tail)| Layout { tle, fill, zero_pad, ndot_plus, exp_sign, tail }).boxed()
}

fn close(got: f64, want: f64, rel: f64) -> bool { got == want || (got - want).abs() <= rel * want.abs() }

/// Compares a decoded record with the numbers that were written. `stated_n`: mean motion still as stated.
fn fields(r: &Satrec, t: &Tle, stated_n: bool) -> Verdict {
    let e = |name: &str, got: f64, want: f64| -> Verdict {
        if close(got, want, 1e-13) { Ok(()) } else { Err(format!("field {} decoded as {:e}, the columns state {:e}", name, got, want)) }
    };
    if r.satnum != t.satnum.trim() { return Err(format!("satellite number decoded as {:?}, the columns state {:?}", r.satnum, t.satnum.trim())); }
    if r.epochyr != t.yy as i64 { return Err(format!("epoch year decoded as {}, the columns state {}", r.epochyr, t.yy)); }
    let day = t.day as f64 / 1e8;
    if !((r.epochdays - day).abs() <= 1e-10) { return Err(format!("epoch day decoded as {}, the columns state {}", r.epochdays, day)); }
    let rev = 2.0 * PI / 1440.0; // rev/day -> rad/min
    let s = if t.ndot_neg { -1.0 } else { 1.0 };
    e("first derivative", r.ndot, s * t.ndot as f64 / 1e8 * rev / 1440.0)?;
    e("second derivative", r.nddot, t.nddot.value() * rev / 1440.0 / 1440.0)?;
    e("drag term", r.bstar, t.bstar.value())?;
    e("inclination", r.inclo, t.incl_rad())?;
    e("node", r.nodeo, t.node_rad())?;
    e("eccentricity", r.ecco, t.ecc_f())?;
    e("perigee", r.argpo, t.argp_rad())?;
    e("mean anomaly", r.mo, t.ma_rad())?;
    if stated_n { e("mean motion", r.no, t.n_rad())?; }
    Ok(())
}

fn err_key(e: &SatrecParseError) -> String {
    match e {
        SatrecParseError::FloatParseError(n, ..) | SatrecParseError::IntParseError(n, ..) | SatrecParseError::CompoundError(n, ..) => format!("field {}", n),
        SatrecParseError::Sgp4InitError(e) => format!("init {}", e.code()),
        SatrecParseError::InvalidTLELineCheckFailed => "line check".into(),
        SatrecParseError::InvalidTLEBadLineCount => "line count".into(),
        SatrecParseError::SatrecMultiError(i, e) => format!("at {}: {}", i, err_key(e)),
    }
}

fn short<T>(r: &Result<T, SatrecParseError>) -> String { match r { Ok(_) => "a record".into(), Err(e) => format!("error {:?}", e) } }

fn same_rec(a: &Satrec, b: &Satrec) -> Verdict {
    if a.satnum != b.satnum { return Err(format!("satellite numbers {:?} and {:?}", a.satnum, b.satnum)); }
    if let Some((x, y)) = fingerprint(a).into_iter().zip(fingerprint(b)).find(|(x, y)| x != y) {
        return Err(format!("field {} is {:e} and {:e}", x.0, f64::from_bits(x.1), f64::from_bits(y.1)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub struct C06;
impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "element sets with every field random over its column range, random ASCII in all unused columns, zero or blank padding, all sign and exponent-sign styles, tails present or absent, decoded by parse_satrec, twoline2satrec and parse; oracle: the integers the text was written from; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["values compared to 1e-13 relative (unit conversion rounding)"];
    type Case = Layout;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 3_000_000 } else { 45_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Layout> { layout(full_tle()) }
    fn fixed(_: Tier) -> Vec<Layout> {
        // every mantissa length, sign and exponent of the two implied-point fields
        let mut out = vec![];
        for mant in [0u32, 1, 12, 123, 1234, 12345, 99999, 10000, 100, 1020] {
            for exp in -9..=9i8 {
                for (neg, plus) in [(false, false), (true, false), (false, true)] {
                    let v = Implied { neg, mant, exp, plus };
                    for style in 0..3u8 {
                        let mut l = Layout::plain(Tle::simple());
                        l.tle.bstar = v;
                        l.exp_sign = [1, style];
                        out.push(l.clone());
                        l.tle.bstar = Tle::simple().bstar;
                        l.tle.nddot = v;
                        l.exp_sign = [style, 1];
                        out.push(l);
                    }
                }
            }
        }
        out
    }
    fn check(c: &Layout, obs: &mut Obs) -> Verdict {
        obs.nontrivial = true;
        let (l1, l2) = c.lines();
        let show = |m: String| format!("{}\n{:?}\n{:?}", m, l1, l2);
        match sut(|| parse_satrec(&l1, &l2)).map_err(&show)? {
            Ok(r) => {
                fields(&r, &c.tle, true).map_err(&show)?;
                if r.error != 0 || r.init != satellite::propogation::dpper::DpperInit::Y || r.name.is_some() { return Err(show("a merely decoded record is marked initialised, failed or named".into())); }
            }
            Err(e) => return Err(show(format!("standard element set rejected: {:?}", e))),
        }
        let a = sut(|| twoline2satrec(&l1, &l2)).map_err(&show)?;
        match &a {
            Ok(r) => { obs.label("initialised"); fields(r, &c.tle, false).map_err(&show)? }
            Err(SatrecParseError::Sgp4InitError(_)) => obs.label("initialisation failed"),
            Err(e) => return Err(show(format!("standard element set rejected: {:?}", e))),
        }
        match sut(|| parse(&format!("{}\n{}\n", l1, l2))).map_err(&show)? {
            Ok(r) => fields(&r, &c.tle, false).map_err(&show)?,
            Err(SatrecParseError::Sgp4InitError(_)) => {}
            Err(e) => return Err(show(format!("standard element set rejected: {:?}", e))),
        }
        if c.tle.bstar.neg || c.tle.nddot.neg || c.tle.ndot_neg { obs.label("negative drag or derivative"); }
        if c.tle.bstar.mant < 10_000 || c.tle.nddot.mant < 10_000 { obs.label("mantissa with leading zeros"); }
        if c.tail[0].is_empty() || c.tail[1].is_empty() { obs.label("line without tail"); }
        Ok(())
    }
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Epoch { yy: u8, day: u64, /// blank instead of zero padding
    blank: bool }

pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "every two-digit year x every day of year x start, middle and last 1e-8 of the day (exhaustive), plus random fractional days; Julian date of the decoded record compared with day counting; non-trivial: every case";
    const ASSUMPTIONS: &'static [&'static str] = &["2e-9 day tolerance (a Julian date resolves 5e-10; the TLE field 1e-8)"];
    type Case = Epoch;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 8_000_000 } else { 120_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Epoch> {
        let frac = prop_oneof![4 => 0u64..100_000_000, 1 => 99_999_900u64..100_000_000, 1 => 0u64..100, 1 => (0u64..1440).prop_map(|m| m * 100_000_000 / 1440), 1 => (0u64..86400).prop_map(|m| m * 100_000_000 / 86400)];
        let frac = spice(frac.boxed(), gens::FRAC_OF, |v| if (0.0..1.0).contains(&v) { Some((v * 1e8).round().min(99_999_999.0) as u64) } else { None });
        let yy = spice((0u8..100).boxed(), gens::YEAR_OF, |v| if (0.0..100.0).contains(&v.round()) { Some(v.round() as u8) } else { None });
        let day = spice((0u64..366).boxed(), &[|v| v - 1.0], |v| if (0.0..366.0).contains(&v) { Some(v as u64) } else { None });
        (yy, day, frac, any::<bool>()).prop_map(|(yy, d, f, blank)| {
            let len = time::year_len(time::tle_year(yy as i64)) as u64;
            Epoch { yy, day: (d % len + 1) * 100_000_000 + f, blank }
        }).boxed()
    }
    fn fixed(_: Tier) -> Vec<Epoch> {
        let mut out = vec![];
        for yy in 0..100u8 {
            for d in 1..=time::year_len(time::tle_year(yy as i64)) as u64 {
                for f in [0u64, 50_000_000, 99_999_999] { out.push(Epoch { yy, day: d * 100_000_000 + f, blank: false }); }
            }
        }
        out
    }
    fn check(c: &Epoch, obs: &mut Obs) -> Verdict {
        obs.nontrivial = true;
        let mut l = Layout::plain(Tle::simple());
        l.tle.yy = c.yy;
        l.tle.day = c.day;
        l.zero_pad[1] = !c.blank;
        let (l1, l2) = l.lines();
        let want = l.tle.jd();
        let year = l.tle.year();
        if time::is_leap(year) { obs.label("leap year"); }
        obs.label(if year < 2000 { "1957..1999" } else { "2000..2056" });
        for k in 0..2 {
            let r = sut(|| if k == 0 { parse_satrec(&l1, &l2) } else { twoline2satrec(&l1, &l2) })?;
            let r = match r { Ok(r) => r, Err(e) => return Err(format!("epoch {:02}{} rejected: {:?}", c.yy, c.day as f64 / 1e8, e)) };
            if !((r.jdsatepoch - want).abs() <= 2e-9) {
                return Err(format!("epoch {:02}{:012.8} (year {}): Julian date {:.9}, should be {:.9}", c.yy, c.day as f64 / 1e8, year, r.jdsatepoch, want));
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Copy, PartialEq, Debug)]
enum Quality { Good, Grey, Bad }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Text, Int, Float { lo: f64, hi: f64 }, Implied, Ecc }

struct Field { name: &'static str, aliases: &'static [&'static str], line: usize, low: usize, high: usize, kind: Kind }

const FIELDS: [Field; 12] = [
    Field { name: "satellite number", aliases: &["satnum"], line: 0, low: 2, high: 7, kind: Kind::Text },
    Field { name: "epoch year", aliases: &["epochyr"], line: 0, low: 18, high: 20, kind: Kind::Int },
    Field { name: "epoch day", aliases: &["epochdays"], line: 0, low: 20, high: 32, kind: Kind::Float { lo: 1.0, hi: 366.0 } },
    Field { name: "first derivative", aliases: &["ndot"], line: 0, low: 33, high: 43, kind: Kind::Float { lo: -1.0, hi: 1.0 } },
    Field { name: "second derivative", aliases: &["nndot", "nndot frac", "nddot", "nddot frac"], line: 0, low: 44, high: 52, kind: Kind::Implied },
    Field { name: "drag term", aliases: &["bstr", "bstar frac", "bstar", "bstr frac"], line: 0, low: 53, high: 61, kind: Kind::Implied },
    Field { name: "inclination", aliases: &["inclo"], line: 1, low: 8, high: 16, kind: Kind::Float { lo: 0.0, hi: 180.0 } },
    Field { name: "node", aliases: &["nodeo"], line: 1, low: 17, high: 25, kind: Kind::Float { lo: 0.0, hi: 360.0 } },
    Field { name: "eccentricity", aliases: &["ecco"], line: 1, low: 26, high: 33, kind: Kind::Ecc },
    Field { name: "perigee", aliases: &["argpo"], line: 1, low: 34, high: 42, kind: Kind::Float { lo: 0.0, hi: 360.0 } },
    Field { name: "mean anomaly", aliases: &["mo"], line: 1, low: 43, high: 51, kind: Kind::Float { lo: 0.0, hi: 360.0 } },
    Field { name: "mean motion", aliases: &["no"], line: 1, low: 52, high: 63, kind: Kind::Float { lo: 0.0, hi: 100.0 } },
];

/// plain decimal: optional sign, digits with at most one point, at least one digit
fn decimal(s: &str) -> bool {
    let s = s.strip_prefix(|c| c == '+' || c == '-').unwrap_or(s);
    s.bytes().filter(|b| *b == b'.').count() <= 1 && s.bytes().any(|b| b.is_ascii_digit()) && s.bytes().all(|b| b == b'.' || b.is_ascii_digit())
}

/// Good: certainly a valid field; Bad: certainly not a number (or not there); Grey: neither is claimed.
/// The value, if there is one meaning.
fn classify(f: &Field, line: &str) -> (Quality, Option<f64>) {
    let t = match line.get(f.low..f.high) { Some(t) => t, None => return (Quality::Bad, None) };
    match f.kind {
        Kind::Text => (Quality::Good, None),
        Kind::Int => match t.trim().parse::<i64>() {
            Err(_) => (Quality::Bad, None),
            Ok(v) => (if t.trim_matches(' ').bytes().all(|b| b.is_ascii_digit()) && !t.ends_with(' ') { Quality::Good } else { Quality::Grey }, Some(v as f64)),
        },
        Kind::Float { lo, hi } => match t.trim().parse::<f64>() {
            Ok(v) if v.is_finite() => (if decimal(t.trim_matches(' ')) && !t.ends_with(' ') && v >= lo && v <= hi { Quality::Good } else { Quality::Grey }, Some(v)),
            _ => (Quality::Bad, None),
        },
        Kind::Ecc => match format!(".{}", t.trim()).parse::<f64>() {
            Ok(v) if v.is_finite() => {
                let plain = t.bytes().all(|b| b.is_ascii_digit());
                (if plain { Quality::Good } else { Quality::Grey }, if plain { Some(v) } else { None })
            }
            _ => (Quality::Bad, None),
        },
        Kind::Implied => {
            if !t.is_ascii() {
                // whitespace outside ASCII is not judged; anything else is no number
                return (if t.chars().all(|c| c.is_ascii() || c.is_whitespace()) { Quality::Grey } else { Quality::Bad }, None);
            }
            let b = t.as_bytes();
            let ws = |c: u8| (c as char).is_whitespace();
            let digit = |c: &u8| c.is_ascii_digit();
            let soft = |c: u8| c.is_ascii_digit() || c == b'+' || c == b'-' || ws(c);
            if !b.iter().all(|c| soft(*c)) { return (Quality::Bad, None); }
            if b[1..6].iter().all(|c| ws(*c)) { return (Quality::Bad, None); }
            // a sixth digit in front: not a sign, and not the number the other columns state
            if b[0] >= b'1' && b[0] <= b'9' { return (Quality::Bad, None); }
            if b" +-".contains(&b[0]) && b[1..6].iter().all(digit) && b" +-".contains(&b[6]) && digit(&b[7]) {
                let m: f64 = t[1..6].parse().unwrap();
                let e: i32 = if b[6] == b'-' { -((b[7] - b'0') as i32) } else { (b[7] - b'0') as i32 };
                let v: f64 = format!("{}e{}", m, e - 5).parse().unwrap();
                return (Quality::Good, Some(if b[0] == b'-' { -v } else { v }));
            }
            (Quality::Grey, None)
        }
    }
}

fn value_of(f: &Field, r: &Satrec) -> Option<(f64, f64)> {
    let rev = 2.0 * PI / 1440.0;
    let d = PI / 180.0;
    Some(match f.name {
        "epoch year" => (r.epochyr as f64, 1.0),
        "epoch day" => (r.epochdays, 1.0),
        "first derivative" => (r.ndot, rev / 1440.0),
        "second derivative" => (r.nddot, rev / 1440.0 / 1440.0),
        "drag term" => (r.bstar, 1.0),
        "inclination" => (r.inclo, d),
        "node" => (r.nodeo, d),
        "eccentricity" => (r.ecco, 1.0),
        "perigee" => (r.argpo, d),
        "mean anomaly" => (r.mo, d),
        "mean motion" => (r.no, rev),
        _ => return None,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hurt {
    /// replace a field by text (clipped or right-padded to its width)
    Field(u8, String),
    /// cut a line after this many bytes (moved back to a character boundary)
    Cut(u8, u8),
    /// put one character over as many columns as it has bytes
    Over(u8, u8, char),
    /// insert a character at a column
    Insert(u8, u8, char),
    /// drop the character at a column
    Drop(u8, u8),
    /// change the first character of a line
    Marker(u8, char),
    /// exchange the two lines
    Swap,
    /// repeat the tail of a line
    Double(u8),
}

fn boundary(s: &str, mut i: usize) -> usize { i = i.min(s.len()); while !s.is_char_boundary(i) { i -= 1; } i }

fn hurt(l: &mut [String; 2], h: &Hurt) {
    match h {
        Hurt::Field(k, s) => {
            let f = &FIELDS[*k as usize % FIELDS.len()];
            let w = f.high - f.low;
            let mut t = s[..boundary(s, w)].to_string();
            while t.len() < w { t.push(' '); }
            let line = &mut l[f.line];
            if line.is_char_boundary(f.low) && line.is_char_boundary(f.high) && line.len() >= f.high { line.replace_range(f.low..f.high, &t); }
        }
        Hurt::Cut(k, c) => { let s = &mut l[*k as usize % 2]; let i = boundary(s, *c as usize); s.truncate(i); }
        Hurt::Over(k, c, ch) => {
            let s = &mut l[*k as usize % 2];
            let a = boundary(s, *c as usize);
            let mut b = (a + ch.len_utf8()).min(s.len());
            while !s.is_char_boundary(b) { b += 1; }
            s.replace_range(a..b, &ch.to_string());
        }
        Hurt::Insert(k, c, ch) => { let s = &mut l[*k as usize % 2]; let i = boundary(s, *c as usize); s.insert(i, *ch); }
        Hurt::Drop(k, c) => { let s = &mut l[*k as usize % 2]; let i = boundary(s, *c as usize); if i < s.len() { s.remove(i); } }
        Hurt::Marker(k, ch) => { let s = &mut l[*k as usize % 2]; if !s.is_empty() { let n = s.chars().next().unwrap().len_utf8(); s.replace_range(0..n, &ch.to_string()); } }
        Hurt::Swap => l.swap(0, 1),
        Hurt::Double(k) => { let s = &mut l[*k as usize % 2]; let t = s.clone(); s.push_str(&t); }
    }
}

fn odd_char() -> BoxedStrategy<char> {
    let chars: Vec<char> = mine::words().iter().flat_map(|w| w.chars().collect::<Vec<_>>()).collect();
    let base = odd_char_base();
    if chars.is_empty() { base } else { prop_oneof![4 => base, 1 => select(chars)].boxed() }
}
fn odd_char_base() -> BoxedStrategy<char> {
    prop_oneof![
        3 => select(vec!['é', 'ß', '中', '😀', '\u{a0}', '\u{3000}', '٣', '−', '\u{feff}', '\u{301}']),
        2 => proptest::char::range(' ', '~'),
        1 => any::<char>(),
        1 => select(vec!['\t', '\r', '\0', '\n', '\u{b}', '\u{85}', '\u{7f}']),
    ].boxed()
}

fn hurts() -> BoxedStrategy<Hurt> {
    let bad = prop_oneof![
        4 => select(vec!["nan", "NaN", "inf", "-inf", "+infinity", "infinity", "1e999", "-1e999", "1e400", "0x10", "1_000", "1,5", "--1", "+-1", "1..2", "1.2.3", ".", "-", "+", "e5", "1e", "", " ", "\t", "abc", "12a", "1 2", "٣٤", "½", "∞", "5.5é", "1e308", "9e99", "1E5", "1d5", "N/A", "NULL", "*****"]).prop_map(|s| s.to_string()),
        3 => "[0-9+\\-. eE]{1,12}",
        2 => "[ -~]{1,12}",
        1 => "\\PC{1,8}",
        // padded to the right edge
        1 => select(vec!["     nan", "     inf", "-inf", "  1e999"]).prop_map(|s| s.to_string()),
    ].boxed();
    let bad = spice_s(bad, |_| true, |w| w.to_string());
    prop_oneof![
        5 => (0u8..12, bad).prop_map(|(k, s)| Hurt::Field(k, s)),
        3 => (0u8..2, 0u8..80).prop_map(|(k, c)| Hurt::Cut(k, c)),
        3 => (0u8..2, 0u8..72, odd_char()).prop_map(|(k, c, ch)| Hurt::Over(k, c, ch)),
        1 => (0u8..2, 0u8..72, odd_char()).prop_map(|(k, c, ch)| Hurt::Insert(k, c, ch)),
        1 => (0u8..2, 0u8..72).prop_map(|(k, c)| Hurt::Drop(k, c)),
        1 => (0u8..2, odd_char()).prop_map(|(k, c)| Hurt::Marker(k, c)),
        1 => Just(Hurt::Swap),
        1 => (0u8..2).prop_map(Hurt::Double),
    ].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Input {
    Text(String),
    Pair(String, String),
    Hurt(Layout, Vec<Hurt>),
    /// several sets with damaged lines, joined
    Many(Vec<(Layout, Vec<Hurt>, String)>, String),
    /// the text so many times
    Repeat(String, u32),
}

fn names_field(f: &Field, n: &str) -> bool { f.aliases.contains(&n) }

/// The claim about one pair of lines.
fn judge(l1: &str, l2: &str, obs: &mut Obs) -> Verdict {
    let lines = [l1, l2];
    let show = |m: String| format!("{}\n{:?}\n{:?}", m, l1, l2);
    let q: Vec<(Quality, Option<f64>)> = FIELDS.iter().map(|f| classify(f, lines[f.line])).collect();
    let bad: Vec<&str> = FIELDS.iter().zip(&q).filter(|(_, q)| q.0 == Quality::Bad).map(|(f, _)| f.name).collect();
    let all_good = q.iter().all(|x| x.0 == Quality::Good);
    obs.label(if all_good { "still valid" } else if bad.is_empty() { "not judged" } else { "certainly invalid" });
    if !bad.is_empty() { obs.nontrivial = true; }
    let dec = sut(|| parse_satrec(l1, l2)).map_err(&show)?;
    let full = sut(|| twoline2satrec(l1, l2)).map_err(&show)?;
    let single = sut(|| parse(&format!("{}\n{}", l1, l2))).map_err(&show)?;
    let (multi, multi_err) = sut(|| parse_multiple(&format!("{}\n{}", l1, l2))).map_err(&show)?;

    let field_err = |e: &SatrecParseError| -> Verdict {
        let (n, cols) = match e {
            SatrecParseError::FloatParseError(n, a, b, _) | SatrecParseError::IntParseError(n, a, b, _) => (*n, Some((*a, *b))),
            SatrecParseError::CompoundError(n, _) => (*n, None),
            _ => return Ok(()),
        };
        match FIELDS.iter().zip(&q).find(|(f, _)| names_field(f, n)) {
            None => Err(format!("error names no field of the format: {:?}", e)),
            Some((f, (Quality::Good, _))) => Err(format!("error blames the {} ({:?}), whose columns hold a valid value; certainly invalid: {:?}", f.name, e, bad)),
            Some((f, _)) => match cols {
                Some((a, b)) if !(a < b && a >= f.low && b <= f.high) => Err(format!("error about the {} carries columns {}..{}", f.name, a, b)),
                _ => Ok(()),
            },
        }
    };
    match &dec {
        Ok(r) => {
            if !bad.is_empty() { return Err(show(format!("accepted although {:?} hold no number", bad))); }
            for (f, (_, v)) in FIELDS.iter().zip(&q) {
                if let (Some((got, unit)), Some(v)) = (value_of(f, r), v) {
                    let want = v * unit;
                    if !(got == want || (got - want).abs() <= 1e-12 * want.abs()) { return Err(show(format!("{} decoded as {:e}, the columns state {:e}", f.name, got, want))); }
                }
            }
        }
        Err(e) => {
            if all_good { return Err(show(format!("valid element set rejected: {:?}", e))); }
            field_err(e).map_err(&show)?;
        }
    }
    match &full {
        Ok(_) => if !bad.is_empty() { return Err(show(format!("accepted although {:?} hold no number", bad))); },
        Err(SatrecParseError::Sgp4InitError(e)) => if !bad.is_empty() { return Err(show(format!("initialisation was reached ({:?}) although {:?} hold no number", e, bad))); },
        Err(e) => field_err(e).map_err(&show)?,
    }
    // through the line-oriented parsers, when the two lines survive as lines
    if !l1.contains('\n') && !l2.contains('\n') && !l1.ends_with('\r') && !l2.ends_with('\r') && l1.starts_with('1') && l2.starts_with('2') && !bad.is_empty() {
        match &single {
            Ok(_) => return Err(show(format!("single-set parser accepts although {:?} hold no number", bad))),
            Err(e) => field_err(e).map_err(&show)?,
        }
        if !multi.is_empty() || multi_err.len() != 1 { return Err(show(format!("multi-set parser returns {} records and {} errors although {:?} hold no number", multi.len(), multi_err.len(), bad))); }
        match &multi_err[0] {
            SatrecParseError::SatrecMultiError(0, e) => field_err(e).map_err(&show)?,
            e => return Err(show(format!("multi-set error is {:?}", e))),
        }
    }
    Ok(())
}

pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "arbitrary Unicode texts and line pairs, and valid sets damaged by 1..3 edits (field replaced, line cut, character put over or inserted at any column, dropped, markers changed, lines swapped) given to all four parsers; oracle: independent classification of every field's columns as certainly valid, certainly invalid or not judged; non-trivial: at least one field certainly invalid, or a free text of two or more lines";
    type Case = Input;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_400_000 } else { 36_000_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Input> {
        let line = prop_oneof![2 => "\\PC{0,80}", 1 => "[12][ 0-9A-Za-z.+\\-]{0,75}", 1 => "[0-9 .]{60,70}", 1 => vec(odd_char(), 0..75).prop_map(|v| v.into_iter().collect::<String>()), 1 => any::<String>()];
        let base = || layout(prop_oneof![1 => gens::tle(Regime::Near), 1 => gens::tle(Regime::Deep), 1 => full_tle()].boxed());
        prop_oneof![
            1 => any::<String>().prop_map(Input::Text),
            2 => (vec(line.clone(), 0..8), select(vec!["\n", "\r\n", "\r", "\n\n", "\u{85}"])).prop_map(|(v, s)| Input::Text(v.join(s))),
            2 => (line.clone(), line).prop_map(|(a, b)| Input::Pair(a, b)),
            10 => (base(), vec(hurts(), 1..4)).prop_map(|(l, h)| Input::Hurt(l, h)),
            1 => (vec((base(), vec(hurts(), 0..3), "\\PC{0,20}"), 0..6), select(vec!["\n", "\r\n"])).prop_map(|(v, s)| Input::Many(v, s.to_string())),
        ].boxed()
    }
    fn fixed(_: Tier) -> Vec<Input> {
        let mut out = vec![];
        let l = Layout::plain(Tle::simple());
        for k in 0..2u8 {
            for c in 0..70u8 {
                out.push(Input::Hurt(l.clone(), vec![Hurt::Cut(k, c)]));
                for ch in ['é', '中', '😀', 'x', '\u{a0}', '\0', '-'] {
                    out.push(Input::Hurt(l.clone(), vec![Hurt::Over(k, c, ch)]));
                    out.push(Input::Hurt(l.clone(), vec![Hurt::Insert(k, c, ch)]));
                }
                out.push(Input::Hurt(l.clone(), vec![Hurt::Drop(k, c)]));
            }
        }
        for f in 0..12u8 {
            for s in ["nan", "NaN", "inf", "-inf", "infinity", "+inf", "1e999", "-1e999", "", "x", "1 2", "1.2.3", "--1", "0x1", "１"] { out.push(Input::Hurt(l.clone(), vec![Hurt::Field(f, s.into())])); }
        }
        for s in ["", "\n", "\r\n", "1", "1\n2", "\n1\n2\n", "a\n1\n2", "0\n1\n2", "é\né", "0 \n1\n2\n0", " \n \n ", "1\n", "0 a\n1"] { out.push(Input::Text(s.into())); }
        let (l1, l2) = l.lines();
        for n in [127, 128, 255, 256, 257, 1000, 32_768, 65_536, 100_000] {
            for s in ["x", "1", "1\n", "2\n", "1 \n2 \n", "0 \n", "é", "\n", " ", "\r", "\r\n", "a\n1\n2\n", "\0"] { out.push(Input::Repeat(s.into(), n)); }
            if n <= 10_000 { for s in [format!("{}\n{}\n", l1, l2), format!("T\n{}\n{}\n", l1, l2), format!("{}\n", l1), format!("{}\r\n", l2)] { out.push(Input::Repeat(s, n)); } }
        }
        out
    }
    fn check(c: &Input, obs: &mut Obs) -> Verdict {
        match c {
            Input::Text(s) => {
                obs.label("free text");
                let n = s.split('\n').filter(|l| !l.trim().is_empty()).count();
                if n >= 2 { obs.nontrivial = true; }
                let r = sut(|| parse(s)).map_err(|m| format!("parse {}: {:?}", m, s))?;
                let (a, e) = sut(|| parse_multiple(s)).map_err(|m| format!("parse_multiple {}: {:?}", m, s))?;
                if n > 0 && a.is_empty() && e.is_empty() { return Err(format!("parse_multiple returns neither a record nor an error for {:?}", s)); }
                if r.is_ok() && n != 2 && n != 3 { return Err(format!("parse accepts {} non-blank lines: {:?}", n, s)); }
                Ok(())
            }
            Input::Repeat(s, n) => {
                obs.label("very long");
                let text = s.repeat(*n as usize);
                let lines = text.lines().filter(|l| !l.trim().is_empty()).count();
                obs.nontrivial = lines >= 2;
                let r = sut(|| parse(&text))?;
                if r.is_ok() && lines != 2 && lines != 3 { return Err(format!("parse accepts {} non-blank lines", lines)); }
                let (a, e) = sut(|| parse_multiple(&text))?;
                // at most three lines make a set
                if 3 * (a.len() + e.len()) < lines { return Err(format!("{} non-blank lines give {} records and {} errors", lines, a.len(), e.len())); }
                Ok(())
            }
            Input::Pair(a, b) => { obs.label("free line pair"); judge(a, b, obs) }
            Input::Hurt(l, hs) => {
                let (a, b) = l.lines();
                let mut p = [a, b];
                for h in hs { hurt(&mut p, h); }
                judge(&p[0], &p[1], obs)
            }
            Input::Many(v, sep) => {
                obs.label("several sets");
                obs.nontrivial = v.len() >= 2;
                let mut text = String::new();
                for (l, hs, t) in v {
                    let (a, b) = l.lines();
                    let mut p = [a, b];
                    for h in hs { hurt(&mut p, h); }
                    for x in [t.as_str(), &p[0], &p[1]] { text.push_str(x); text.push_str(sep); }
                }
                let _ = sut(|| parse(&text)).map_err(|m| format!("parse {}: {:?}", m, text))?;
                let (recs, _) = sut(|| parse_multiple(&text)).map_err(|m| format!("parse_multiple {}: {:?}", m, text))?;
                for r in &recs {
                    for f in &FIELDS {
                        if let Some((x, _)) = value_of(f, r) { if !x.is_finite() { return Err(format!("accepted record has {} = {}: {:?}", f.name, x, text)); } }
                    }
                }
                Ok(())
            }
        }
    }
}

// ---------------------------------------------------------------- C09

/// the name a title line stands for
fn name_of(title: &str) -> String {
    let t = title.trim();
    let t = if t.starts_with("0 ") { &t[2..] } else { t };
    t.trim().to_string()
}

/// title lines with one reading: not blank, not a bare "0", no blanks before a "0 " marker
fn title() -> BoxedStrategy<String> {
    let core = prop_oneof![
        3 => "[!-~]([ -~]{0,22}[!-~])?",
        1 => "\\PC{1,24}",
        1 => "[12] [0-9A-Z ]{0,68}",
        1 => "[12][!-~]{0,10}",
        1 => select(vec!["ISS (ZARYA)", "0", "00", "01", "0X", "02 SAT", "0-0", "000 0", "1", "2", "1 25544U", "2 25544", "COSMOS 1408 DEB", "0 0 X", "é", "名前 1"]).prop_map(|s| s.to_string()),
        1 => "[ -~]{60,90}".prop_map(|s| format!("x{}", s)),
    ].boxed();
    // words of the source: alone, in front, inside
    let word = |c: BoxedStrategy<String>| spice_s(c, |_| true, |w| w.to_string());
    let core = if mine::words().is_empty() { core } else { prop_oneof![3 => core.clone(), 1 => (word(core.clone()), core, 0u8..3).prop_map(|(w, c, k)| match k { 0 => w, 1 => format!("{}{}", w, c), _ => format!("{}{}", c, w) })].boxed() };
    (core, prop_oneof![3 => Just(""), 2 => Just("0 ")], prop_oneof![3 => Just(""), 1 => Just(" "), 1 => Just("   "), 1 => Just("\t")], prop_oneof![3 => Just(""), 1 => Just(" "), 1 => Just("  \t ")])
        .prop_map(|(core, mark, lead, trail)| {
            let core: String = core.chars().filter(|c| !c.is_control() && *c != '\u{2028}' && *c != '\u{2029}').collect();
            let t = if mark.is_empty() { format!("{}{}{}", lead, core, trail) } else { format!("{}{}{}{}", mark, lead, core, trail) };
            let tt = t.trim();
            let ambiguous = tt.is_empty() || tt == "0" || name_of(&t).is_empty() || (t.starts_with(char::is_whitespace) && tt.starts_with("0 "));
            if ambiguous { format!("{}SAT {}", mark, core.len()) } else { t }
        }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    /// the structure the parser asks for
    Proper,
    /// keep only these many of the (repeated) lines
    Count(u8),
    /// first character of data line k replaced
    Marker(u8, char),
    /// data lines in the wrong order
    Swapped,
    /// the line-1 line twice / the line-2 line twice
    Twice(bool),
    /// data line k cut after this many columns
    Cut(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single { layout: Layout, title: Option<String>, crlf: bool, last_newline: bool, blanks: Vec<(u8, u8)>, shape: Shape,
    /// very long: (0 blank lines before / 1 after / 2 between, 3 title, 4 columns after the data), how much
    grow: Option<(u8, u32)> }

const BLANKS: [&str; 4] = ["", " ", "\t  ", "      "];

fn join(lines: &[String], crlf: bool, last: bool, blanks: &[(u8, u8)]) -> String {
    let mut v: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
    for (p, k) in blanks { let p = *p as usize % (v.len() + 1); v.insert(p, BLANKS[*k as usize % 4]); }
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut s = v.join(nl);
    if last { s.push_str(nl); }
    s
}

fn valid_tle() -> BoxedStrategy<Tle> {
    prop_oneof![3 => gens::tle(Regime::Near), 1 => gens::tle(Regime::Deep), 1 => gens::tle(Regime::HalfDay), 1 => gens::tle(Regime::Raw), 1 => full_tle()].boxed()
}

pub struct C09;
impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "a random element set with or without a random title (Unicode, marker, padding, looking like a data line), LF or CRLF, blank lines anywhere, proper or with a wrong number of lines, wrong line-number characters, swapped, doubled or cut lines; record compared field by field with the two-line parser's, name and error kind with the stated rule; non-trivial: a title, CRLF, a blank line or a wrong structure is present";
    const ASSUMPTIONS: &'static [&'static str] = &["titles with two readings (a bare '0', blanks before a '0 ' marker) are not generated"];
    type Case = Single;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 2_500_000 } else { 37_500_000 } }
    fn strategy(_: Tier) -> BoxedStrategy<Single> {
        let shape = prop_oneof![
            6 => Just(Shape::Proper),
            2 => prop_oneof![Just(0u8), Just(1), 4u8..10].prop_map(Shape::Count),
            2 => (0u8..2, prop_oneof![3 => proptest::char::range('!', '~'), 1 => select(vec![' ', 'é', '中', '😀', '\u{feff}'])]).prop_map(|(k, c)| Shape::Marker(k, c)),
            1 => Just(Shape::Swapped),
            1 => any::<bool>().prop_map(Shape::Twice),
            1 => (0u8..2, 1u8..70).prop_map(|(k, c)| Shape::Cut(k, c)),
        ];
        (layout(valid_tle()), prop_oneof![1 => Just(None), 2 => title().prop_map(Some)], any::<bool>(), any::<bool>(), prop_oneof![2 => Just(vec![]), 2 => vec((any::<u8>(), 0u8..4), 1..6)], shape)
            .prop_map(|(layout, title, crlf, last_newline, blanks, shape)| Single { layout, title, crlf, last_newline, blanks, shape, grow: None }).boxed()
    }
    fn fixed(_: Tier) -> Vec<Single> {
        let mut out = vec![];
        for n in [80, 127, 128, 129, 254, 255, 256, 257, 1000, 32_767, 32_768, 65_535, 65_536, 65_537, 300_000, 2_000_000] {
            for k in 0..5u8 { for titled in [false, true] { for crlf in [false, true] {
                let mut layout = Layout::plain(Tle::simple());
                layout.tle.satnum = "25544".into();
                out.push(Single { layout, title: if titled || k == 3 { Some("0 SAT".into()) } else { None }, crlf, last_newline: true, blanks: vec![], shape: Shape::Proper, grow: Some((k, n)) });
            } } }
        }
        out
    }
    fn check(c: &Single, obs: &mut Obs) -> Verdict {
        let (mut l1, mut l2) = c.layout.lines();
        if let Shape::Cut(k, n) = &c.shape {
            let s = if *k == 0 { &mut l1 } else { &mut l2 };
            let i = boundary(s, *n as usize);
            s.truncate(i);
            obs.label("cut line");
        }
        let mut data = vec![l1.clone(), l2.clone()];
        let mut lines: Vec<String> = c.title.iter().cloned().collect();
        let mut want: Option<&str> = None; // expected structural error
        match &c.shape {
            Shape::Proper | Shape::Cut(..) => lines.extend(data),
            Shape::Count(n) => {
                let mut pool: Vec<String> = lines.clone();
                pool.extend(data);
                lines = pool.iter().cycle().take(*n as usize).cloned().collect();
                want = Some("line count");
            }
            Shape::Marker(k, ch) => {
                let right = if *k == 0 { '1' } else { '2' };
                data[*k as usize].replace_range(0..1, &ch.to_string());
                if *ch != right { want = Some("line check"); }
                lines.extend(data);
            }
            Shape::Swapped => { data.swap(0, 1); lines.extend(data); want = Some("line check"); }
            Shape::Twice(first) => { let x = if *first { l1.clone() } else { l2.clone() }; lines.push(x.clone()); lines.push(x); want = Some("line check"); }
        }
        let mut title = c.title.clone();
        if let Some((k, n)) = c.grow {
            obs.label("very long");
            let n = n as usize;
            let k0 = lines.len() - 2;
            match k {
                0 => { lines.insert(0, "\n".repeat(n)); }
                1 => lines.push("\n".repeat(n)),
                2 => lines.insert(k0 + 1, "\n".repeat(n)),
                3 => { lines[0].push_str(&"x".repeat(n)); title = Some(lines[0].clone()); }
                _ => { let pad = " 7".repeat(n / 2); lines[k0].push_str(&pad); lines[k0 + 1].push_str(&pad); l1 = lines[k0].clone(); l2 = lines[k0 + 1].clone(); }
            }
        }
        let text = join(&lines, c.crlf, c.last_newline, &c.blanks);
        obs.nontrivial = c.title.is_some() || c.crlf || !c.blanks.is_empty() || want.is_some();
        let show = |m: String| if text.len() > 4000 { m } else { format!("{}\ntext {:?}", m, text) };
        let got = sut(|| parse(&text)).map_err(&show)?;
        if let Some(w) = want {
            obs.label(w);
            return match &got {
                Err(e) if err_key(e) == w => Ok(()),
                other => Err(show(format!("a {} error is due, got {}", w, short(other)))),
            };
        }
        if c.title.is_some() { obs.label("titled"); } else { obs.label("untitled"); }
        let two = sut(|| twoline2satrec(&l1, &l2)).map_err(&show)?;
        match (&got, &two) {
            (Ok(a), Ok(b)) => {
                same_rec(a, b).map_err(|m| show(format!("record differs from the one of the two lines: {}", m)))?;
                let name = title.as_ref().map(|t| name_of(t));
                if a.name != name { return Err(show(format!("name is {:?}, the title line says {:?}", a.name, name))); }
                Ok(())
            }
            (Err(a), Err(b)) if err_key(a) == err_key(b) => { obs.label("set does not initialise"); Ok(()) }
            _ => Err(show(format!("parse gives {}, the two lines give {}", short(&got), short(&two)))),
        }
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Member { layout: Layout, title: Option<String>, /// bad field: (field, text)
    hurt: Option<(u8, String)>, /// line cut: (line, columns kept)
    cut: Option<(u8, u8)> }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch { sets: Vec<Member>, crlf: bool, last_newline: bool, blanks: Vec<(u16, u8)>, leftover: Option<String>,
    /// the sets so many times
    times: u16 }

impl Member {
    fn lines(&self) -> (String, String) {
        let (a, b) = self.layout.lines();
        let mut p = [a, b];
        if let Some((k, s)) = &self.hurt { hurt(&mut p, &Hurt::Field(*k, s.clone())); }
        if let Some((k, c)) = &self.cut { let s = &mut p[*k as usize % 2]; let i = boundary(s, (*c).max(1) as usize); s.truncate(i); }
        let [a, b] = p;
        (a, b)
    }
}

fn member() -> BoxedStrategy<Member> {
    let bad = (1u8..12, select(vec!["nan", "", "abc", "inf", "1.2.3", "xx", "-", "é"])).prop_map(|(k, s)| (k, s.to_string()));
    (layout(valid_tle()), prop_oneof![1 => Just(None), 1 => title().prop_map(Some)], prop_oneof![6 => Just(None), 1 => bad.prop_map(Some)], prop_oneof![10 => Just(None), 1 => (0u8..2, 1u8..64).prop_map(Some)])
        .prop_map(|(layout, title, hurt, cut)| Member { layout, title, hurt, cut }).boxed()
}

pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "sequences of 0..30 element sets, titled or not (titles of any length, starting with any character), some with a damaged field, a cut line or elements that do not initialise, some repeating an earlier set, its title or its satellite number, rarely hundreds of sets, LF or CRLF, blank lines anywhere, optionally one leftover line; records, names, errors and error indices compared with parsing each set alone; non-trivial: at least two sets";
    const ASSUMPTIONS: &'static [&'static str] = &["damaged data lines keep their leading '1' or '2'", "titles with two readings (a bare '0', blanks before a '0 ' marker) are not generated"];
    type Case = Batch;
    fn cases(t: Tier) -> u32 { if t == Tier::Quick { 400_000 } else { 6_000_000 } }
    fn strategy(t: Tier) -> BoxedStrategy<Batch> {
        let big = if t == Tier::Quick { 30 } else { 120 };
        let mix = prop_oneof![8000 => vec(member(), 0..7), 2000 => vec(member(), 0..big)];
        let times = prop_oneof![2000 => Just(1u16), 1 => 2u16..150, 1 => Just(400u16)].boxed();
        let aimed = spice(Just(1u16).boxed(), &[|v| v, |v| v / 2.0, |v| v / 3.0], |v| if (1.0..2000.0).contains(&v.ceil()) { Some(v.ceil() as u16) } else { None });
        let times = prop_oneof![500 => times, 1 => aimed];
        // all titled / all untitled files are the common case: force one of them half of the time
        // sets may repeat an earlier one, wholly or in part
        let again = prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), any::<u16>(), 0u8..5), 1..4)];
        let sets = (mix, 0u8..4, title(), again).prop_map(|(mut v, w, t, again)| {
            if !v.is_empty() { for (a, b, k) in again {
                let from = v[a as usize % v.len()].clone();
                let at = b as usize % (v.len() + 1);
                if k == 0 { v.insert(at, from); continue; }
                let to = &mut v[at.min(at.max(1) - 1)];
                match k {
                    1 => to.title = from.title,
                    2 => to.layout.tle.satnum = from.layout.tle.satnum,
                    3 => { let t = to.title.clone(); *to = from; to.title = t; }
                    _ => { to.title = from.title; to.layout.tle.satnum = from.layout.tle.satnum; }
                }
            } }
            if w == 0 { for m in &mut v { m.title = None; } }
            if w == 1 { for m in &mut v { if m.title.is_none() { m.title = Some(t.clone()); } } }
            v
        });
        let left = prop_oneof![4 => Just(None), 1 => prop_oneof![title(), "1 [0-9]{5}U[ 0-9]{0,50}", "2 [0-9]{5}[ 0-9.]{0,55}", "[12]"].prop_map(Some)];
        (sets, any::<bool>(), any::<bool>(), prop_oneof![2 => Just(vec![]), 1 => vec((any::<u16>(), 0u8..4), 1..8)], left, times)
            .prop_map(|(sets, crlf, last_newline, blanks, leftover, times)| Batch { sets, crlf, last_newline, blanks, leftover, times }).boxed()
    }
    fn check(c: &Batch, obs: &mut Obs) -> Verdict {
        obs.nontrivial = c.sets.len() >= 2;
        let mut lines: Vec<String> = vec![];
        let mut want_rec: Vec<(usize, Satrec, Option<String>)> = vec![];
        let mut want_err: Vec<(usize, String)> = vec![];
        if c.times > 1 { obs.label("hundreds of sets"); }
        for m in c.sets.iter().cycle().take(c.sets.len() * c.times as usize) {
            let (a, b) = m.lines();
            let at = lines.len();
            match sut(|| twoline2satrec(&a, &b))? {
                Ok(r) => want_rec.push((at, r, m.title.as_ref().map(|t| name_of(t)))),
                Err(e) => want_err.push((at, err_key(&e))),
            }
            lines.extend(m.title.clone());
            lines.push(a);
            lines.push(b);
        }
        if let Some(l) = &c.leftover {
            want_err.push((lines.len(), "line count".into()));
            lines.push(l.clone());
            obs.label("leftover line");
        }
        let nl = if c.crlf { "\r\n" } else { "\n" };
        let mut v: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        for (p, k) in &c.blanks { let p = *p as usize % (v.len() + 1); v.insert(p, BLANKS[*k as usize % 4]); }
        let mut text = v.join(nl);
        if c.last_newline { text.push_str(nl); }
        let show = |m: String| if text.len() > 20_000 { m } else { format!("{}\ntext {:?}", m, text) };
        let (recs, errs) = sut(|| parse_multiple(&text)).map_err(&show)?;
        if !want_err.is_empty() { obs.label("with a failing set"); }
        obs.label(match (c.sets.iter().any(|m| m.title.is_some()), c.sets.iter().any(|m| m.title.is_none())) { (true, true) => "mixed", (true, false) => "all titled", (false, true) => "all untitled", _ => "no set" });
        if recs.len() != want_rec.len() { return Err(show(format!("{} records returned, {} of the sets are valid (errors {:?})", recs.len(), want_rec.len(), errs.iter().map(err_key).collect::<Vec<_>>()))); }
        for (k, (r, (at, w, name))) in recs.iter().zip(&want_rec).enumerate() {
            same_rec(r, w).map_err(|m| show(format!("record {} differs from the set at line {}: {}", k, at, m)))?;
            if r.name != *name { return Err(show(format!("record {} is named {:?}, its title line says {:?}", k, r.name, name))); }
        }
        let mut got: Vec<(usize, String)> = vec![];
        for e in &errs {
            match e {
                SatrecParseError::SatrecMultiError(i, e) => got.push((*i, err_key(e))),
                e => return Err(show(format!("error without an index: {:?}", e))),
            }
        }
        got.sort();
        if got != want_err { return Err(show(format!("errors {:?}, expected {:?}", got, want_err))); }
        Ok(())
    }
}
