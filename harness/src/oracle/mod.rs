//! Reference models. Nothing in here uses the crate under test.
pub mod sgp4;
pub mod time;
pub mod tle;
