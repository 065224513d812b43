//! C18: velocity limiters.
use crate::common::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::PostVelocityCalc;

macro_rules! dims {
    ($name:ident $t:ident) => {
        fn $name(n: usize) {
            let (mut v, mut lim) = (Vec::new(), Vec::new());
            let (mut x, mut l) = ([0 as $t; 3], [0 as $t; 3]);
            for i in 0..n {
                x[i] = nd::$t();
                l[i] = nd::$t();
                nd::assume(!x[i].is_nan() && l[i] >= 0.0);
                v.push(x[i]);
                lim.push(l[i]);
            }
            let mut m = MaxVelocityDimensions::new(lim);
            let r = m.correct_velocity(v);
            assert!(r.len() == n, "length");
            for i in 0..n {
                let size = if x[i] < 0.0 { -x[i] } else { x[i] };
                if size <= l[i] {
                    assert!(r[i].to_bits() == x[i].to_bits(), "within the limit: unchanged");
                } else {
                    assert!(r[i] == if x[i] < 0.0 { -l[i] } else { l[i] }, "cut to the limit");
                }
            }
            reach!("end");
        }
    };
}
dims!(dims64 f64);
dims!(dims32 f32);

/// Velocities of integer length (the square root is exact) times 2^scale, any signs, in any order
/// of the components; the limit is a multiple of a quarter.
const POOL: [[i32; 3]; 8] = [
    [0, 0, 0], [3, 4, 0], [0, 7, 0], [5, 12, 0], [2, 3, 6], [1, 2, 2], [8, 6, 0], [4, 4, 7],
];
const LENGTH: [i32; 8] = [0, 5, 7, 13, 7, 3, 10, 9];

macro_rules! abs {
    ($name:ident $t:ident) => {
        fn $name(n: usize) {
            let c = (nd::u8() & 7) as usize;
            let shift = nd::below(3);
            let mut v = Vec::new();
            let mut k = [0i32; 3];
            for i in 0..3 {
                let a = POOL[c][(i + shift) % 3];
                k[i] = if nd::bool() { -a } else { a };
            }
            for i in n..3 {
                nd::assume(k[i] == 0);
            }
            for i in 0..n {
                v.push(k[i] as $t);
            }
            let l = (nd::u8() & 63) as i32;
            let limit = l as $t / 4.0;
            let r = MaxVelocityAbs::new(limit).correct_velocity(v);
            assert!(r.len() == n, "length");
            let eps = 1e-3 as $t;
            for i in 0..n {
                if LENGTH[c] * 4 < l {
                    assert!(r[i] == k[i] as $t, "within the limit: unchanged");
                } else {
                    // scaled to the length of the limit, the direction kept
                    let d = r[i] * LENGTH[c] as $t - k[i] as $t * limit;
                    assert!(d < eps && d > -eps, "cut to the length of the limit");
                    if LENGTH[c] == 0 {
                        assert!(r[i] == 0.0, "no velocity at all");
                    }
                }
            }
            reach!("end");
            reach!(LENGTH[c] * 4 < l, "within");
            reach!(LENGTH[c] * 4 > l, "cut");
        }
    };
}
abs!(abs64 f64);
abs!(abs32 f32);

harnesses! {
    #[kani::unwind(5)]
    fn q_dims64_1() { dims64(1) }
    #[kani::unwind(5)]
    fn q_dims64_3() { dims64(3) }
    #[kani::unwind(5)]
    fn q_dims32_2() { dims32(2) }
    #[kani::unwind(5)]
    fn q_dims_empty() { dims64(0) }
    #[kani::unwind(35)]
    #[kani::stub(f64::sqrt, crate::common::table_sqrt_f64)]
    fn q_abs64_1() { abs64(1) }
    #[kani::unwind(35)]
    #[kani::stub(f64::sqrt, crate::common::table_sqrt_f64)]
    fn q_abs64_2() { abs64(2) }
    #[kani::unwind(35)]
    #[kani::stub(f64::sqrt, crate::common::table_sqrt_f64)]
    fn q_abs64_3() { abs64(3) }
    #[kani::unwind(35)]
    #[kani::stub(f32::sqrt, crate::common::table_sqrt_f32)]
    fn q_abs32_2() { abs32(2) }
    #[kani::unwind(35)]
    #[kani::stub(f32::sqrt, crate::common::table_sqrt_f32)]
    fn q_abs32_3() { abs32(3) }
}
