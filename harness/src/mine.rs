//! Magic-value dictionary (as a fuzzer's automatic dictionary): the literals of the source text that are not the
//! ones the harness was written against (`literals.txt`) are mixed into the generators. They only steer generation;
//! no verdict depends on them. On the tree as committed there are none.

use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeMap;
use std::f64::consts::PI;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Mined { pub nums: Vec<f64>, pub words: Vec<String> }

fn files(dir: &Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v { if p.is_dir() { files(&p, out); } else if p.extension().is_some_and(|e| e == "rs") { out.push(p); } }
}

/// literals of one source text, up to its test module
fn literals(src: &str, out: &mut Vec<String>) {
    let src = match src.find("#[cfg(test)]") { Some(i) => &src[..i], None => src };
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    let at = |k: usize| b.get(k).copied().unwrap_or('\0');
    while i < b.len() {
        let c = b[i];
        if c == '/' && at(i + 1) == '/' { while i < b.len() && b[i] != '\n' { i += 1; } }
        else if c == '/' && at(i + 1) == '*' { i += 2; while i < b.len() && !(b[i] == '*' && at(i + 1) == '/') { i += 1; } i += 2; }
        else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' { i += 1; match at(i) { 'n' => s.push('\n'), 'r' => s.push('\r'), 't' => s.push('\t'), '0' => s.push('\0'), x => s.push(x) } } else { s.push(b[i]); }
                i += 1;
            }
            i += 1;
            out.push(format!("s{}", s));
        }
        else if c == '\'' {
            // a character, or a lifetime
            if at(i + 1) == '\\' { let x = at(i + 2); out.push(format!("s{}", match x { 'n' => '\n', 'r' => '\r', 't' => '\t', '0' => '\0', x => x })); i += 2; while i < b.len() && b[i] != '\'' { i += 1; } i += 1; }
            else if at(i + 2) == '\'' { out.push(format!("s{}", at(i + 1))); i += 3; }
            else { i += 1; }
        }
        else if c.is_alphabetic() || c == '_' { while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; } }
        else if c.is_ascii_digit() {
            let mut s = String::new();
            if c == '0' && "xob".contains(at(i + 1)) {
                let radix = match at(i + 1) { 'x' => 16, 'o' => 8, _ => 2 };
                i += 2;
                let mut v = 0u64;
                while at(i).is_digit(radix) || at(i) == '_' { if let Some(d) = at(i).to_digit(radix) { v = v.wrapping_mul(radix as u64).wrapping_add(d as u64); } i += 1; }
                out.push(format!("n{}", v));
            } else {
                while at(i).is_ascii_digit() || at(i) == '_' { if at(i) != '_' { s.push(at(i)); } i += 1; }
                if at(i) == '.' && at(i + 1) != '.' && !at(i + 1).is_alphabetic() {
                    s.push('.'); i += 1;
                    while at(i).is_ascii_digit() || at(i) == '_' { if at(i) != '_' { s.push(at(i)); } i += 1; }
                }
                if (at(i) == 'e' || at(i) == 'E') && (at(i + 1).is_ascii_digit() || ("+-".contains(at(i + 1)) && at(i + 2).is_ascii_digit())) {
                    s.push('e'); i += 1;
                    if "+-".contains(at(i)) { s.push(at(i)); i += 1; }
                    while at(i).is_ascii_digit() || at(i) == '_' { if at(i) != '_' { s.push(at(i)); } i += 1; }
                }
                if let Ok(v) = s.parse::<f64>() { out.push(format!("n{}", v)); }
            }
            while at(i).is_alphanumeric() || at(i) == '_' { i += 1; }
        }
        else { i += 1; }
    }
}

fn source() -> BTreeMap<String, i64> {
    let root = std::env::var("VH_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut v = vec![];
    files(Path::new(&root), &mut v);
    let mut lits = vec![];
    for p in v { if let Ok(s) = std::fs::read_to_string(&p) { literals(&s, &mut lits); } }
    let mut m = BTreeMap::new();
    for l in lits { *m.entry(l).or_insert(0) += 1; }
    m
}

/// the content of `literals.txt` for the tree as it is
pub fn dump() -> String {
    source().iter().map(|(k, n)| format!("{}\t{}\n", n, k.escape_debug())).collect()
}

fn known() -> BTreeMap<String, i64> {
    include_str!("literals.txt").lines().filter_map(|l| l.split_once('\t')).map(|(n, k)| (k.to_string(), n.parse().unwrap_or(0))).collect()
}

pub fn mined() -> &'static Mined {
    static M: OnceLock<Mined> = OnceLock::new();
    M.get_or_init(|| {
        let mut m = Mined::default();
        if std::env::var("VH_MINE").map(|v| v == "off").unwrap_or(false) { return m; }
        let everything = std::env::var("VH_MINE").map(|v| v == "all").unwrap_or(false);
        let k = known();
        let src = source();
        let mut add = |l: &str| if let Some(n) = l.strip_prefix('n') { if let Ok(v) = n.parse::<f64>() { m.nums.push(v); } } else if let Some(s) = l.strip_prefix('s') { if !s.is_empty() && s.len() < 200 { m.words.push(s.to_string()); } };
        for (l, n) in &src { if everything || k.get(&l.escape_debug().to_string()).copied().unwrap_or(0) != *n { add(l); } }
        // a literal that is gone may have been a limit
        let names: std::collections::BTreeSet<String> = src.keys().map(|l| l.escape_debug().to_string()).collect();
        for l in k.keys() { if !names.contains(l) && !l.contains('\\') { add(l); } }
        m
    })
}

/// numbers to aim at: the literals, and what two of them or one and a unit factor make
fn targets() -> &'static Vec<f64> {
    static T: OnceLock<Vec<f64>> = OnceLock::new();
    T.get_or_init(|| {
        let base = &mined().nums;
        let mut out = base.clone();
        if base.len() <= 12 {
            for &a in base { for &b in base {
                if a != b { out.push(a - b); out.push(a / b); }
                out.push(a + b); out.push(a * b);
            } }
        }
        for w in &mined().words { if let Ok(v) = w.trim().parse::<f64>() { out.push(v); } }
        out.retain(|x| x.is_finite());
        out.sort_by(f64::total_cmp);
        out.dedup();
        out
    })
}

#[derive(Clone, Copy, Debug)]
enum Near { At, Rel(f64), Abs(f64) }
fn near() -> BoxedStrategy<Near> {
    prop_oneof![
        4 => Just(Near::At),
        3 => crate::gens::logu(1e-12, 0.1).prop_map(Near::Rel),
        3 => crate::gens::logu(1e-9, 2.0).prop_map(Near::Abs),
    ].boxed()
}
fn apply(v: f64, n: Near) -> f64 { match n { Near::At => v, Near::Rel(r) => v * (1.0 + r), Near::Abs(a) => v + a } }

/// what the number may mean for a field; every reading is one candidate
pub type Reading = fn(f64) -> f64;

pub const ANGLE_DEG: &[Reading] = &[|v| v, |v| -v, |v| v.to_degrees(), |v| -v.to_degrees(), |v| v.acos().to_degrees(), |v| v.asin().to_degrees(), |v| v.atan().to_degrees(), |v| v / 10.0, |v| v * 1e-4, |v| 180.0 - v, |v| 90.0 - v, |v| (PI - v).to_degrees(), |v| v.sqrt().acos().to_degrees()];
pub const ANGLE_RAD: &[Reading] = &[|v| v, |v| -v, |v| v.to_radians(), |v| -v.to_radians(), |v| v.acos(), |v| v.asin(), |v| v.atan(), |v| PI - v, |v| v * PI, |v| v * PI / 12.0];
pub const MINUTES: &[Reading] = &[|v| v, |v| -v, |v| v * 60.0, |v| -v * 60.0, |v| v * 1440.0, |v| -v * 1440.0, |v| v / 60.0, |v| v * 525_960.0, |v| -v * 525_960.0, |v| v * 720.0, |v| -v * 720.0];
pub const PLAIN: &[Reading] = &[|v| v];
pub const SIGNED: &[Reading] = &[|v| v, |v| -v];
pub const ECC: &[Reading] = &[|v| v, |v| 1.0 - v, |v| v.sqrt(), |v| (1.0 - v).sqrt(), |v| (1.0 - v * v).sqrt(), |v| v * 1e-7, |v| v / 10.0];
/// revolutions per day
pub const MOTION: &[Reading] = &[|v| v, |v| v * 1440.0 / (2.0 * PI), |v| 1440.0 / v, |v| 24.0 / v, |v| 86400.0 / v, |v| a_km(v * 6378.137), |v| a_km(v), |v| 1440.0 / (2.0 * PI * v), |v| v * 1e-8];
/// perigee or apogee radius in km
pub const RADIUS: &[Reading] = &[|v| v + 6378.137, |v| v, |v| v * 6378.137, |v| (v + 1.0) * 6378.137];
pub const LENGTH: &[Reading] = &[|v| v, |v| -v, |v| v * 6378.137, |v| v - 6378.137, |v| v * 1000.0, |v| v / 1000.0, |v| v.sqrt(), |v| v / 0.62137];

fn a_km(a: f64) -> f64 { (398600.5 / (a * a * a)).sqrt() * 86400.0 / (2.0 * PI) }

fn candidates(readings: &[Reading]) -> Vec<f64> {
    let mut out: Vec<f64> = targets().iter().flat_map(|&v| readings.iter().map(move |f| f(v))).filter(|x| x.is_finite()).collect();
    out.sort_by(f64::total_cmp);
    out.dedup();
    out
}

/// `base`, and one time in five a mined number (exact or near) as `to` takes it
pub fn spice<T: Clone + std::fmt::Debug + 'static>(base: BoxedStrategy<T>, readings: &[Reading], to: impl Fn(f64) -> Option<T> + Clone + 'static) -> BoxedStrategy<T> {
    if mined().nums.is_empty() && mined().words.is_empty() { return base; }
    let cands: Vec<f64> = candidates(readings).into_iter().filter(|x| to(*x).is_some()).collect();
    if cands.is_empty() { return base; }
    let hit = (base.clone(), select(cands), near()).prop_map(move |(b, v, n)| to(apply(v, n)).unwrap_or(b));
    prop_oneof![4 => base, 1 => hit].boxed()
}

pub fn spice_f(base: BoxedStrategy<f64>, readings: &[Reading], lo: f64, hi: f64) -> BoxedStrategy<f64> {
    spice(base, readings, move |v| if v >= lo && v <= hi { Some(v) } else { None })
}
pub fn spice_u32(base: BoxedStrategy<u32>, readings: &[Reading], unit: f64, hi: u32) -> BoxedStrategy<u32> {
    spice(base, readings, move |v| { let x = (v * unit).round(); if x >= 0.0 && x <= hi as f64 { Some(x as u32) } else { None } })
}
pub fn spice_i64(base: BoxedStrategy<i64>, readings: &[Reading], unit: f64, lo: i64, hi: i64) -> BoxedStrategy<i64> {
    spice(base, readings, move |v| { let x = (v * unit).round(); if x >= lo as f64 && x <= hi as f64 { Some(x as i64) } else { None } })
}

/// words of the source and its numbers as text
pub fn words() -> Vec<String> {
    let mut v: Vec<String> = mined().words.clone();
    for n in &mined().nums { v.push(format!("{}", n)); if *n >= 0.0 && *n < 1e9 && n.fract() == 0.0 { v.push(format!("{:05}", *n as u64)); } }
    v.retain(|w| !w.is_empty());
    v.dedup();
    v
}
pub fn spice_s(base: BoxedStrategy<String>, ok: impl Fn(&str) -> bool, shape: impl Fn(&str) -> String) -> BoxedStrategy<String> {
    let w: Vec<String> = words().iter().map(|w| shape(w)).filter(|w| ok(w)).collect();
    if w.is_empty() { return base; }
    prop_oneof![4 => base, 1 => select(w)].boxed()
}
