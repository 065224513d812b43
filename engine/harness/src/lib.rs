//! Harnesses: one module per property.  The same sources are model checked with Kani
//! (`cfg(kani)`) and replayed natively on the tape of a counterexample (`src/bin/replay.rs`).
//! Generated by gen.py.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(static_mut_refs, dead_code, unused_imports, unused_macros)]

#[cfg(kani)]
extern crate alloc;

#[macro_use]
pub mod common;
pub mod f7;
#[cfg(any(feature = "c16", feature = "c17", not(kani)))]
pub mod attract;

#[cfg(any(feature = "c01", not(kani)))]
pub mod c01;
#[cfg(any(feature = "c02", not(kani)))]
pub mod c02;
#[cfg(any(feature = "c03", not(kani)))]
pub mod c03;
#[cfg(any(feature = "c04", not(kani)))]
pub mod c04;
#[cfg(any(feature = "c05", not(kani)))]
pub mod c05;
#[cfg(any(feature = "c06", not(kani)))]
pub mod c06;
#[cfg(any(feature = "c07", not(kani)))]
pub mod c07;
#[cfg(any(feature = "c08", not(kani)))]
pub mod c08;
#[cfg(any(feature = "c09", not(kani)))]
pub mod c09;
#[cfg(any(feature = "c10", not(kani)))]
pub mod c10;
#[cfg(any(feature = "c11", not(kani)))]
pub mod c11;
#[cfg(any(feature = "c12", not(kani)))]
pub mod c12;
#[cfg(any(feature = "c13", not(kani)))]
pub mod c13;
#[cfg(any(feature = "c14", not(kani)))]
pub mod c14;
#[cfg(any(feature = "c15", not(kani)))]
pub mod c15;
#[cfg(any(feature = "c16", not(kani)))]
pub mod c16;
#[cfg(any(feature = "c17", not(kani)))]
pub mod c17;
#[cfg(any(feature = "c18", not(kani)))]
pub mod c18;
#[cfg(any(feature = "c19", not(kani)))]
pub mod c19;
#[cfg(any(feature = "c20", not(kani)))]
pub mod c20;
#[cfg(any(feature = "c21", not(kani)))]
pub mod c21;
#[cfg(any(feature = "c22", not(kani)))]
pub mod c22;
#[cfg(any(feature = "c23", not(kani)))]
pub mod c23;
#[cfg(any(feature = "c24", not(kani)))]
pub mod c24;
#[cfg(any(feature = "c25", not(kani)))]
pub mod c25;
#[cfg(any(feature = "c26", not(kani)))]
pub mod c26;
#[cfg(any(feature = "c27", not(kani)))]
pub mod c27;
#[cfg(any(feature = "c28", not(kani)))]
pub mod c28;
#[cfg(any(feature = "c29", not(kani)))]
pub mod c29;
#[cfg(any(feature = "c30", not(kani)))]
pub mod c30;
#[cfg(any(feature = "c32", not(kani)))]
pub mod c32;
#[cfg(any(feature = "c33", not(kani)))]
pub mod c33;

#[cfg(not(kani))]
pub fn registry() -> Vec<(String, fn())> {
    let mut r = Vec::new();
    r.extend(c01::ALL.iter().map(|(n, f)| (format!("c01::{}", n), *f)));
    r.extend(c02::ALL.iter().map(|(n, f)| (format!("c02::{}", n), *f)));
    r.extend(c03::ALL.iter().map(|(n, f)| (format!("c03::{}", n), *f)));
    r.extend(c04::ALL.iter().map(|(n, f)| (format!("c04::{}", n), *f)));
    r.extend(c05::ALL.iter().map(|(n, f)| (format!("c05::{}", n), *f)));
    r.extend(c06::ALL.iter().map(|(n, f)| (format!("c06::{}", n), *f)));
    r.extend(c07::ALL.iter().map(|(n, f)| (format!("c07::{}", n), *f)));
    r.extend(c08::ALL.iter().map(|(n, f)| (format!("c08::{}", n), *f)));
    r.extend(c09::ALL.iter().map(|(n, f)| (format!("c09::{}", n), *f)));
    r.extend(c10::ALL.iter().map(|(n, f)| (format!("c10::{}", n), *f)));
    r.extend(c11::ALL.iter().map(|(n, f)| (format!("c11::{}", n), *f)));
    r.extend(c12::ALL.iter().map(|(n, f)| (format!("c12::{}", n), *f)));
    r.extend(c13::ALL.iter().map(|(n, f)| (format!("c13::{}", n), *f)));
    r.extend(c14::ALL.iter().map(|(n, f)| (format!("c14::{}", n), *f)));
    r.extend(c15::ALL.iter().map(|(n, f)| (format!("c15::{}", n), *f)));
    r.extend(c16::ALL.iter().map(|(n, f)| (format!("c16::{}", n), *f)));
    r.extend(c17::ALL.iter().map(|(n, f)| (format!("c17::{}", n), *f)));
    r.extend(c18::ALL.iter().map(|(n, f)| (format!("c18::{}", n), *f)));
    r.extend(c19::ALL.iter().map(|(n, f)| (format!("c19::{}", n), *f)));
    r.extend(c20::ALL.iter().map(|(n, f)| (format!("c20::{}", n), *f)));
    r.extend(c21::ALL.iter().map(|(n, f)| (format!("c21::{}", n), *f)));
    r.extend(c22::ALL.iter().map(|(n, f)| (format!("c22::{}", n), *f)));
    r.extend(c23::ALL.iter().map(|(n, f)| (format!("c23::{}", n), *f)));
    r.extend(c24::ALL.iter().map(|(n, f)| (format!("c24::{}", n), *f)));
    r.extend(c25::ALL.iter().map(|(n, f)| (format!("c25::{}", n), *f)));
    r.extend(c26::ALL.iter().map(|(n, f)| (format!("c26::{}", n), *f)));
    r.extend(c27::ALL.iter().map(|(n, f)| (format!("c27::{}", n), *f)));
    r.extend(c28::ALL.iter().map(|(n, f)| (format!("c28::{}", n), *f)));
    r.extend(c29::ALL.iter().map(|(n, f)| (format!("c29::{}", n), *f)));
    r.extend(c30::ALL.iter().map(|(n, f)| (format!("c30::{}", n), *f)));
    r.extend(c32::ALL.iter().map(|(n, f)| (format!("c32::{}", n), *f)));
    r.extend(c33::ALL.iter().map(|(n, f)| (format!("c33::{}", n), *f)));
    r
}
