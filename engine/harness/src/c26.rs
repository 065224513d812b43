//! C26: polynomial test functions.
use crate::common::*;
use optlib_testfunc::*;

/// Coordinates from a grid of 2^bits integers; all intermediate values are exact.
fn grid(n: usize, bits: u32) -> ([i32; 3], Vec<f64>, Vec<f32>) {
    let (mut k, mut v, mut w) = ([0; 3], Vec::new(), Vec::new());
    for i in 0..n {
        k[i] = (nd::i8() >> (8 - bits)) as i32;
        v.push(k[i] as f64);
        w.push(k[i] as f32);
    }
    (k, v, w)
}
fn close(a: f64, b: i32) -> bool {
    let d = a - b as f64;
    d < 0.01 && d > -0.01
}
fn parab(n: usize, bits: u32) {
    let (k, v, w) = grid(n, bits);
    let mut e = 0;
    for i in 0..n {
        e += (k[i] - i as i32 - 1) * (k[i] - i as i32 - 1);
    }
    let (f, g) = (paraboloid(&v), paraboloid(&w));
    assert!(close(f, e) && close(g, e), "the paraboloid");
    if e == 0 {
        assert!(f == 0.0 && g == 0.0, "exactly 0 at the minimum");
    } else {
        assert!(f > 0.0 && g > 0.0, "positive elsewhere");
    }
    reach!(e == 0, "the minimum");
    reach!(e != 0 || n == 0, "elsewhere");
}
fn rosen(n: usize, bits: u32) {
    let (k, v, w) = grid(n, bits);
    let mut e = 0;
    for i in 0..n - 1 {
        let a = k[i + 1] - k[i] * k[i];
        e += 100 * a * a + (1 - k[i]) * (1 - k[i]);
    }
    let (f, g) = (rosenbrock(&v), rosenbrock(&w));
    assert!(close(f, e) && close(g, e), "the Rosenbrock function");
    if e == 0 {
        assert!(f == 0.0 && g == 0.0, "exactly 0 at the minimum");
    } else {
        assert!(f > 0.0 && g > 0.0, "positive elsewhere");
    }
    reach!(e == 0, "the minimum");
    reach!(e != 0 || n == 1, "elsewhere");
}
/// Never negative for any finite point.
fn sign32(n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        let x = nd::f32();
        nd::assume(x.is_finite());
        v.push(x);
    }
    assert!(paraboloid(&v) >= 0.0, "the paraboloid is negative");
    reach!("end");
}
fn sign64(n: usize) {
    let mut v = Vec::new();
    for _ in 0..n {
        let x = nd::f64();
        nd::assume(x.is_finite());
        v.push(x);
    }
    assert!(paraboloid(&v) >= 0.0, "the paraboloid is negative");
    reach!("end");
}
fn rosen_sign() {
    let (x, y) = (nd::f32(), nd::f32());
    nd::assume(x.abs() < 1e6 && y.abs() < 1e6);
    assert!(rosenbrock(&vec![x, y]) >= 0.0, "the Rosenbrock function is negative");
    reach!("end");
}

harnesses! {
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_parab_1() { parab(1, 6) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_parab_3() { parab(3, 3) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_rosen_1() { rosen(1, 3) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_rosen_2() { rosen(2, 3) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_rosen_3() { rosen(3, 2) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_sign32() { sign32(2) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_sign64() { sign64(2) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_rosen_sign() { rosen_sign() }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn t_rosen_3() { rosen(3, 3) }
    #[kani::unwind(5)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn t_parab_3() { parab(3, 5) }
}
