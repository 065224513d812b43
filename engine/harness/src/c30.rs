//! C30: the geometric-mean crossover.
//!
//! The parents are powers of two, 2^e with symbolic e.  The transcendental functions are replaced
//! by functions that are exact (up to rounding) where the exact result is a power of two with an
//! integer exponent and otherwise return any value between the two neighbouring powers of two.
use optlib::genetic::cross::FloatCrossGeometricMean;
use optlib::genetic::Cross;

/// 2^e: exact if e is an integer up to rounding, else anything between the neighbouring powers.
fn pw64(e: f64, eps: f64) -> f64 {
    if e != e || e > 1100.0 || e < -1100.0 {
        return nd::f64();
    }
    let mut f = e as i32;
    if f as f64 > e {
        f -= 1;
    }
    // f <= e < f + 1
    if e - f as f64 <= eps {
        return crate::common::exp2_f64(f as f64);
    }
    if (f + 1) as f64 - e <= eps {
        return crate::common::exp2_f64((f + 1) as f64);
    }
    let v = nd::f64();
    nd::assume(v > crate::common::exp2_f64(f as f64) && v < crate::common::exp2_f64((f + 1) as f64));
    v
}
/// The exponent of a power of two (NaN: not a normal power of two).
fn lg64(x: f64) -> f64 {
    let b = x.to_bits();
    let e = (b >> 52) as i32;
    if b & ((1u64 << 52) - 1) != 0 || e <= 0 || e >= 2047 {
        return f64::NAN;
    }
    (e - 1023) as f64
}
const EPS: f64 = 1e-9;
const EPS32: f64 = 1e-4;
pub fn powf_f64(x: f64, y: f64) -> f64 {
    pw64(lg64(x) * y, EPS)
}
pub fn powi_f64(x: f64, n: i32) -> f64 {
    pw64(lg64(x) * n as f64, EPS)
}
pub fn ln_f64(x: f64) -> f64 {
    lg64(x) * std::f64::consts::LN_2
}
pub fn log2_f64(x: f64) -> f64 {
    lg64(x)
}
pub fn exp_f64(x: f64) -> f64 {
    pw64(x / std::f64::consts::LN_2, EPS)
}
pub fn exp2_f64(x: f64) -> f64 {
    pw64(x, EPS)
}
pub fn sqrt_f64(x: f64) -> f64 {
    pw64(lg64(x) * 0.5, EPS)
}
pub fn cbrt_f64(x: f64) -> f64 {
    pw64(lg64(x) / 3.0, EPS)
}
pub fn powf_f32(x: f32, y: f32) -> f32 {
    pw64(lg64(x as f64) * y as f64, EPS32) as f32
}
pub fn powi_f32(x: f32, n: i32) -> f32 {
    pw64(lg64(x as f64) * n as f64, EPS32) as f32
}
pub fn ln_f32(x: f32) -> f32 {
    (lg64(x as f64) * std::f64::consts::LN_2) as f32
}
pub fn log2_f32(x: f32) -> f32 {
    lg64(x as f64) as f32
}
pub fn exp_f32(x: f32) -> f32 {
    pw64(x as f64 / std::f64::consts::LN_2, EPS32) as f32
}
pub fn exp2_f32(x: f32) -> f32 {
    pw64(x as f64, EPS32) as f32
}
pub fn sqrt_f32(x: f32) -> f32 {
    pw64(lg64(x as f64) * 0.5, EPS32) as f32
}
pub fn cbrt_f32(x: f32) -> f32 {
    pw64(lg64(x as f64) / 3.0, EPS32) as f32
}

fn judge(child: f64, sum: i32, n: i32, tol: f64) {
    let lo = sum.div_euclid(n);
    let hi = if sum.rem_euclid(n) == 0 { lo } else { lo + 1 };
    let a = crate::common::exp2_f64(lo as f64);
    let b = crate::common::exp2_f64(hi as f64);
    assert!(child >= a * (1.0 - tol) && child <= b * (1.0 + tol), "the n-th root of the product");
    reach!(lo == hi, "exact root");
    reach!(lo != hi, "between two powers of two");
}

/// n parents 2^e, -r <= e <= r.
fn run64(n: usize, r: i32) {
    let mut e = [0i32; 6];
    let mut v = [1.0f64; 6];
    let mut sum = 0;
    for i in 0..n {
        e[i] = nd::i32();
        nd::assume(e[i] >= -r && e[i] <= r);
        v[i] = crate::common::exp2_f64(e[i] as f64);
        sum += e[i];
    }
    let mut p: Vec<&f64> = Vec::new();
    for i in 0..n {
        p.push(&v[i]);
    }
    let c = FloatCrossGeometricMean::new().cross(&p);
    assert!(c.len() == 1, "one child");
    judge(c[0], sum, n as i32, 1e-6);
}
fn run32(n: usize, r: i32) {
    let mut e = [0i32; 6];
    let mut v = [1.0f32; 6];
    let mut sum = 0;
    for i in 0..n {
        e[i] = nd::i32();
        nd::assume(e[i] >= -r && e[i] <= r);
        v[i] = crate::common::exp2_f32(e[i] as f32);
        sum += e[i];
    }
    let mut p: Vec<&f32> = Vec::new();
    for i in 0..n {
        p.push(&v[i]);
    }
    let c = FloatCrossGeometricMean::new().cross(&p);
    assert!(c.len() == 1, "one child");
    judge(c[0] as f64, sum, n as i32, 1e-4);
}

harnesses! {
    #[kani::unwind(8)]
    #[kani::stub(f64::powf, crate::c30::powf_f64)]
    #[kani::stub(f64::powi, crate::c30::powi_f64)]
    #[kani::stub(f64::ln, crate::c30::ln_f64)]
    #[kani::stub(f64::log2, crate::c30::log2_f64)]
    #[kani::stub(f64::exp, crate::c30::exp_f64)]
    #[kani::stub(f64::exp2, crate::c30::exp2_f64)]
    #[kani::stub(f64::sqrt, crate::c30::sqrt_f64)]
    #[kani::stub(f64::cbrt, crate::c30::cbrt_f64)]
    fn q_f64_2() { run64(2, 400) }
    #[kani::unwind(8)]
    #[kani::stub(f64::powf, crate::c30::powf_f64)]
    #[kani::stub(f64::powi, crate::c30::powi_f64)]
    #[kani::stub(f64::ln, crate::c30::ln_f64)]
    #[kani::stub(f64::log2, crate::c30::log2_f64)]
    #[kani::stub(f64::exp, crate::c30::exp_f64)]
    #[kani::stub(f64::exp2, crate::c30::exp2_f64)]
    #[kani::stub(f64::sqrt, crate::c30::sqrt_f64)]
    #[kani::stub(f64::cbrt, crate::c30::cbrt_f64)]
    fn q_f64_3() { run64(3, 300) }
    #[kani::unwind(8)]
    #[kani::stub(f32::powf, crate::c30::powf_f32)]
    #[kani::stub(f32::powi, crate::c30::powi_f32)]
    #[kani::stub(f32::ln, crate::c30::ln_f32)]
    #[kani::stub(f32::log2, crate::c30::log2_f32)]
    #[kani::stub(f32::exp, crate::c30::exp_f32)]
    #[kani::stub(f32::exp2, crate::c30::exp2_f32)]
    #[kani::stub(f32::sqrt, crate::c30::sqrt_f32)]
    #[kani::stub(f32::cbrt, crate::c30::cbrt_f32)]
    fn q_f32_2() { run32(2, 60) }
    #[kani::unwind(8)]
    #[kani::stub(f32::powf, crate::c30::powf_f32)]
    #[kani::stub(f32::powi, crate::c30::powi_f32)]
    #[kani::stub(f32::ln, crate::c30::ln_f32)]
    #[kani::stub(f32::log2, crate::c30::log2_f32)]
    #[kani::stub(f32::exp, crate::c30::exp_f32)]
    #[kani::stub(f32::exp2, crate::c30::exp2_f32)]
    #[kani::stub(f32::sqrt, crate::c30::sqrt_f32)]
    #[kani::stub(f32::cbrt, crate::c30::cbrt_f32)]
    fn q_f32_3() { run32(3, 40) }
    #[kani::unwind(8)]
    #[kani::stub(f64::powf, crate::c30::powf_f64)]
    #[kani::stub(f64::powi, crate::c30::powi_f64)]
    #[kani::stub(f64::ln, crate::c30::ln_f64)]
    #[kani::stub(f64::log2, crate::c30::log2_f64)]
    #[kani::stub(f64::exp, crate::c30::exp_f64)]
    #[kani::stub(f64::exp2, crate::c30::exp2_f64)]
    #[kani::stub(f64::sqrt, crate::c30::sqrt_f64)]
    #[kani::stub(f64::cbrt, crate::c30::cbrt_f64)]
    fn q_f64_4() { run64(4, 60) }
    #[kani::unwind(8)]
    #[kani::stub(f32::powf, crate::c30::powf_f32)]
    #[kani::stub(f32::powi, crate::c30::powi_f32)]
    #[kani::stub(f32::ln, crate::c30::ln_f32)]
    #[kani::stub(f32::log2, crate::c30::log2_f32)]
    #[kani::stub(f32::exp, crate::c30::exp_f32)]
    #[kani::stub(f32::exp2, crate::c30::exp2_f32)]
    #[kani::stub(f32::sqrt, crate::c30::sqrt_f32)]
    #[kani::stub(f32::cbrt, crate::c30::cbrt_f32)]
    fn q_f32_5() { run32(5, 8) }
    #[kani::unwind(8)]
    #[kani::stub(f64::powf, crate::c30::powf_f64)]
    #[kani::stub(f64::powi, crate::c30::powi_f64)]
    #[kani::stub(f64::ln, crate::c30::ln_f64)]
    #[kani::stub(f64::log2, crate::c30::log2_f64)]
    #[kani::stub(f64::exp, crate::c30::exp_f64)]
    #[kani::stub(f64::exp2, crate::c30::exp2_f64)]
    #[kani::stub(f64::sqrt, crate::c30::sqrt_f64)]
    #[kani::stub(f64::cbrt, crate::c30::cbrt_f64)]
    fn t_f64_4() { run64(4, 200) }
    #[kani::unwind(8)]
    #[kani::stub(f64::powf, crate::c30::powf_f64)]
    #[kani::stub(f64::powi, crate::c30::powi_f64)]
    #[kani::stub(f64::ln, crate::c30::ln_f64)]
    #[kani::stub(f64::log2, crate::c30::log2_f64)]
    #[kani::stub(f64::exp, crate::c30::exp_f64)]
    #[kani::stub(f64::exp2, crate::c30::exp2_f64)]
    #[kani::stub(f64::sqrt, crate::c30::sqrt_f64)]
    #[kani::stub(f64::cbrt, crate::c30::cbrt_f64)]
    fn t_f64_6() { run64(6, 100) }
    #[kani::unwind(8)]
    #[kani::stub(f32::powf, crate::c30::powf_f32)]
    #[kani::stub(f32::powi, crate::c30::powi_f32)]
    #[kani::stub(f32::ln, crate::c30::ln_f32)]
    #[kani::stub(f32::log2, crate::c30::log2_f32)]
    #[kani::stub(f32::exp, crate::c30::exp_f32)]
    #[kani::stub(f32::exp2, crate::c30::exp2_f32)]
    #[kani::stub(f32::sqrt, crate::c30::sqrt_f32)]
    #[kani::stub(f32::cbrt, crate::c30::cbrt_f32)]
    fn t_f32_4() { run32(4, 30) }
}
