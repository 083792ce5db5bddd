//! TLE ground truth as integers, and its writer. The parser under test must recover these numbers.

use super::sgp4::{Elements, Mode};
use super::time;
use serde::{Deserialize, Serialize};
use std::f64::consts::PI;

/// Signed mantissa with implied decimal point: sign, five digits, exponent.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Implied {
    pub neg: bool,
    pub mant: u32, // 0..=99999
    pub exp: i8,   // -9..=9
    pub plus: bool, // write '+' instead of ' ' for a non-negative mantissa
}

impl Implied {
    pub fn value(&self) -> f64 {
        let s = if self.neg { -1.0 } else { 1.0 };
        // exact decimal by construction: mant * 10^(exp-5), via text (correctly rounded)
        s * format!("{}e{}", self.mant, self.exp as i32 - 5).parse::<f64>().unwrap()
    }
    pub fn text(&self) -> String {
        let sign = if self.neg { '-' } else if self.plus { '+' } else { ' ' };
        let es = if self.exp < 0 { '-' } else if self.exp == 0 { '-' } else { '+' };
        format!("{}{:05}{}{}", sign, self.mant, es, self.exp.unsigned_abs())
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tle {
    pub satnum: String, // exactly 5 ASCII characters, not all blank
    pub yy: u8,         // 0..=99
    pub day: u64,       // day of year in units of 1e-8 day
    pub ndot_neg: bool,
    pub ndot: u32,      // 1e-8 rev/day^2 units, < 1e8
    pub nddot: Implied,
    pub bstar: Implied,
    pub incl: u32,      // 1e-4 deg, 0..=1800000
    pub node: u32,      // 1e-4 deg, 0..=3600000
    pub ecc: u32,       // 1e-7
    pub argp: u32,
    pub ma: u32,
    pub n: u64,         // 1e-8 rev/day, < 100e8
    /// what fills the columns no field uses
    pub filler: char,
}

fn angle(v: u32) -> String { format!("{:>3}.{:04}", v / 10000, v % 10000) }

impl Tle {
    pub fn simple() -> Tle {
        let z = Implied { neg: false, mant: 0, exp: 0, plus: false };
        Tle { satnum: "00005".into(), yy: 0, day: 100000000, ndot_neg: false, ndot: 0, nddot: z, bstar: z, incl: 0, node: 0, ecc: 0, argp: 0, ma: 0, n: 1500000000, filler: ' ' }
    }

    pub fn line1(&self) -> String {
        let f = self.filler;
        let desig = if f == ' ' { "98067A  ".to_string() } else { f.to_string().repeat(8) };
        let class = if f == ' ' { 'U' } else { f };
        format!(
            "1 {}{}{}{}{}{:02}{:03}.{:08}{}{}.{:08}{}{}{}{}{}0{}{:>4}{}",
            self.satnum, class, if f == ' ' { ' ' } else { f }, desig, if f == ' ' { ' ' } else { f },
            self.yy, self.day / 100_000_000, self.day % 100_000_000,
            if f == ' ' { ' ' } else { f },
            if self.ndot_neg { '-' } else { ' ' }, self.ndot,
            if f == ' ' { ' ' } else { f },
            self.nddot.text(), if f == ' ' { ' ' } else { f }, self.bstar.text(), if f == ' ' { ' ' } else { f },
            if f == ' ' { ' ' } else { f }, 999, 7
        )
    }

    pub fn line2(&self) -> String {
        let f = self.filler;
        let sep = f;
        format!(
            "2 {}{}{}{}{}{}{:07}{}{}{}{}{}{:>2}.{:08}{:>5}{}",
            self.satnum, sep, angle(self.incl), sep, angle(self.node), sep, self.ecc, sep,
            angle(self.argp), sep, angle(self.ma), sep,
            self.n / 100_000_000, self.n % 100_000_000, 12345, 8
        )
    }

    pub fn year(&self) -> i64 { time::tle_year(self.yy as i64) }

    /// Julian date of the epoch
    pub fn jd(&self) -> f64 {
        let midnight = time::JD2000_MIDNIGHT + time::day_number(self.year(), 1, 1) as f64 - 1.0;
        midnight + self.day as f64 / 1e8
    }

    /// epoch in nanoseconds since 2000-01-01T00:00 (exact)
    pub fn epoch_ns(&self) -> i64 {
        (time::day_number(self.year(), 1, 1) - 1) * 86_400_000_000_000 + self.day as i64 * 864_000
    }

    pub fn incl_rad(&self) -> f64 { self.incl as f64 / 1e4 * PI / 180.0 }
    pub fn node_rad(&self) -> f64 { self.node as f64 / 1e4 * PI / 180.0 }
    pub fn argp_rad(&self) -> f64 { self.argp as f64 / 1e4 * PI / 180.0 }
    pub fn ma_rad(&self) -> f64 { self.ma as f64 / 1e4 * PI / 180.0 }
    pub fn ecc_f(&self) -> f64 { self.ecc as f64 / 1e7 }
    /// rad/min
    pub fn n_rad(&self) -> f64 { self.n as f64 / 1e8 * (2.0 * PI) / 1440.0 }

    pub fn elements(&self, mode: Mode) -> Elements {
        Elements {
            epoch: self.jd() - 2433281.5,
            bstar: self.bstar.value(),
            e: self.ecc_f(),
            i: self.incl_rad(),
            node: self.node_rad(),
            argp: self.argp_rad(),
            m: self.ma_rad(),
            n: self.n_rad(),
            mode,
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn columns() {
        let mut t = Tle::simple();
        t.satnum = "25544".into();
        t.yy = 19; t.day = 7020068744; t.ndot = 619; t.bstar = Implied { neg: false, mant: 17310, exp: -4, plus: false };
        t.incl = 516414; t.node = 1283903; t.ecc = 4102; t.argp = 932843; t.ma = 57821; t.n = 1552799004;
        assert_eq!(t.line1(), "1 25544U 98067A   19070.20068744  .00000619  00000-0  17310-4 0  9997");
        assert_eq!(t.line2(), "2 25544  51.6414 128.3903 0004102  93.2843   5.7821 15.52799004123458");
        t.filler = 'x';
        println!("{}\n{}", t.line1(), t.line2());
        assert_eq!(t.line1().len(), 69);
        assert_eq!(t.line2().len(), 69);
    }
}
