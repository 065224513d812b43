//! C19: inertia schedules.
use crate::common::*;
use optlib::particleswarm::velocitycalc::*;

fn constant() {
    let w = nd::f64();
    let mut c = ConstInertia::new(w);
    let (t1, t2) = (nd::usize(), nd::usize());
    assert!(c.get(t1).to_bits() == w.to_bits() && c.get(t2).to_bits() == w.to_bits());
    let w = nd::f32();
    assert!(ConstInertia::new(w).get(t1).to_bits() == w.to_bits());
    reach!("end");
}

macro_rules! lin {
    ($name:ident $t:ident $eps:expr) => {
        /// Coefficients are multiples of 1/8 of magnitude up to 2^(bits-4).
        fn $name(t_max: usize, bits: u32) {
            let (a, b) = ((nd::i8() >> (8 - bits)) as i32, (nd::i8() >> (8 - bits)) as i32);
            let (lo, hi) = (a as $t / 8.0, b as $t / 8.0);
            let t = nd::usize();
            nd::assume(t <= t_max);
            let mut l = LinearInertia::new(lo, hi, t_max);
            let w = l.get(t);
            let eps = $eps * (8 * t_max) as $t;
            // w * t_max * 8 == b * t_max - (b - a) * t
            let exact = (b * t_max as i32 - (b - a) * t as i32) as $t;
            let d = w * (8 * t_max) as $t - exact;
            assert!(d < eps && d > -eps, "the linear schedule");
            if t == 0 {
                assert!(w == hi, "w_max at the beginning");
            }
            let small = $eps;
            if a <= b {
                assert!(w <= hi + small && w >= lo - small, "between w_min and w_max");
                if t < t_max {
                    assert!(l.get(t + 1) <= w + small, "never increases");
                }
            }
            if t == t_max {
                assert!(w - lo < small && lo - w < small, "w_min at the end");
            }
            reach!("end");
        }
    };
}
// rounding errors: below 1e-12 (1e-5) for coefficients of magnitude up to 2, times 8 * t_max for the product
lin!(lin64 f64 1e-11_f64);
lin!(lin32 f32 1e-5_f32);

harnesses! {
    fn q_const() { constant() }
    fn q_lin64_1() { lin64(1, 4) }
    fn q_lin64_3() { lin64(3, 3) }
    fn q_lin64_4() { lin64(4, 4) }
    fn q_lin32_10() { lin32(10, 3) }
    fn q_lin64_100() { lin64(100, 2) }
    fn t_lin64_5() { lin64(5, 5) }
    fn t_lin32_16() { lin32(16, 5) }
    fn t_lin64_1000() { lin64(1000, 2) }
}
