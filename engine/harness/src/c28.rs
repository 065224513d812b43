//! C28: trigonometric test functions.
use crate::common::*;
use crate::f7::*;
use num::Float;
use optlib_testfunc::*;

fn point(n: usize) -> Vec<F7> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(F7::any());
    }
    v
}
/// 10 n + sum of x^2 - 10 cos(2 pi x), for any function in the place of the cosine.
fn rastr(n: usize) {
    any_functions();
    let x = point(n);
    let pi = F7::image(std::f64::consts::PI);
    let ten = F7(3);
    let mut e = ten * F7(n as u8);
    for i in 0..n {
        e = e + x[i] * x[i] - ten * (F7(2) * pi * x[i]).cos();
    }
    assert!(rastrigin(&x) == e.0 as f64, "the Rastrigin function");
    reach!("end");
}
/// 418.9829 n - sum of x sin(sqrt |x|), for any functions in the place of sine, root and modulus.
fn schwef(n: usize) {
    any_functions();
    let x = point(n);
    let mut e = F7::image(418.9829) * F7(n as u8);
    for i in 0..n {
        e = e - x[i] * x[i].abs().sqrt().sin();
    }
    assert!(schwefel(&x) == e.0 as f64, "the Schwefel function");
    reach!("end");
}

/// Any value in [-1, 1]; 1 at 0.
pub fn any_cos32(x: f32) -> f32 {
    if x == 0.0 {
        return 1.0;
    }
    let c = nd::f32();
    nd::assume(-1.0 <= c && c <= 1.0);
    c
}
pub fn any_cos64(x: f64) -> f64 {
    if x == 0.0 {
        return 1.0;
    }
    let c = nd::f64();
    nd::assume(-1.0 <= c && c <= 1.0);
    c
}
fn sign32(n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        let x = nd::f32();
        nd::assume(x.is_finite() && x.abs() < 1e18);
        v.push(x);
    }
    assert!(rastrigin(&v) >= 0.0, "the Rastrigin function is negative");
    reach!("end");
}
fn sign64(n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        let x = nd::f64();
        nd::assume(x.is_finite() && x.abs() < 1e150);
        v.push(x);
    }
    assert!(rastrigin(&v) >= 0.0, "the Rastrigin function is negative");
    reach!("end");
}
fn origin(n: usize) {
    let (mut v, mut w) = (Vec::new(), Vec::new());
    for _ in 0..n {
        // either zero
        v.push(if nd::bool() { 0.0_f64 } else { -0.0 });
        w.push(if nd::bool() { 0.0_f32 } else { -0.0 });
    }
    assert!(rastrigin(&v) == 0.0 && rastrigin(&w) == 0.0, "0 at the origin");
    reach!("end");
}

harnesses! {
    #[kani::unwind(9)]
    fn q_rastrigin_1() { rastr(1) }
    #[kani::unwind(9)]
    fn q_rastrigin_2() { rastr(2) }
    #[kani::unwind(9)]
    fn q_rastrigin_3() { rastr(3) }
    #[kani::unwind(9)]
    fn q_schwefel_1() { schwef(1) }
    #[kani::unwind(9)]
    fn q_schwefel_2() { schwef(2) }
    #[kani::unwind(9)]
    fn q_schwefel_3() { schwef(3) }
    #[kani::unwind(5)]
    #[kani::stub(f32::cos, crate::c28::any_cos32)]
    fn q_sign32() { sign32(1) }
    #[kani::unwind(5)]
    #[kani::stub(f32::cos, crate::c28::any_cos32)]
    #[kani::stub(f64::cos, crate::c28::any_cos64)]
    fn q_origin() { origin(3) }
    #[kani::unwind(9)]
    fn t_rastrigin_4() { rastr(4) }
    #[kani::unwind(9)]
    fn t_schwefel_4() { schwef(4) }
    #[kani::unwind(5)]
    #[kani::stub(f32::cos, crate::c28::any_cos32)]
    fn t_sign32() { sign32(2) }
    #[kani::unwind(5)]
    #[kani::stub(f64::cos, crate::c28::any_cos64)]
    fn t_sign64() { sign64(1) }
}
