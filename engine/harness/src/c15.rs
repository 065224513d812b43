//! C15: random initialisers fill the requested box.
use crate::common::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::Creator;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::{CoordinatesInitializer, VelocityInitializer};
use optlib::tools::RandomVectorCreator;

macro_rules! ty {
    ($m:ident $t:ident $usable:expr) => {
        pub mod $m {
            use super::*;
            /// Any valid intervals.
            pub fn any(dim: usize) -> (Vec<($t, $t)>, [$t; 3], [$t; 3]) {
                let (mut iv, mut lo, mut hi) = (Vec::new(), [0 as $t; 3], [0 as $t; 3]);
                for k in 0..dim {
                    lo[k] = nd::$t();
                    hi[k] = nd::$t();
                    let usable: fn($t) -> bool = $usable;
                    nd::assume(usable(lo[k]) && usable(hi[k]) && lo[k] < hi[k]);
                    iv.push((lo[k], hi[k]));
                }
                (iv, lo, hi)
            }
            fn check(r: &Vec<Vec<$t>>, n: usize, dim: usize, lo: &[$t; 3], hi: &[$t; 3], mode: u8) {
                assert!(r.len() == n, "number of vectors");
                for v in r {
                    assert!(v.len() == dim, "dimension");
                    for k in 0..dim {
                        assert!(v[k] >= lo[k] && v[k] <= hi[k], "outside its interval");
                        assert!(mode != 1 || v[k] == lo[k], "the lower end can occur");
                        assert!(mode != 2 || v[k] == hi[k], "the upper end can occur");
                    }
                }
                assert!(nd::draw_count() >= n * dim, "every component is drawn on its own");
                reach!("end");
            }
            pub fn creator(n: usize, dim: usize, mode: u8) {
                let (iv, lo, hi) = any(dim);
                nd::set_draw_mode(mode);
                let mut c = RandomCreator::new(n, iv);
                let r = c.create();
                check(&r, n, dim, &lo, &hi, mode);
            }
            pub fn coordinates(n: usize, dim: usize, mode: u8) {
                let (iv, lo, hi) = any(dim);
                nd::set_draw_mode(mode);
                let r = RandomCoordinatesInitializer::new(iv, n).get_coordinates();
                check(&r, n, dim, &lo, &hi, mode);
            }
            pub fn velocity(n: usize, dim: usize, mode: u8) {
                let (iv, lo, hi) = any(dim);
                nd::set_draw_mode(mode);
                let r = RandomVelocityInitializer::new(iv, n).get_velocity();
                check(&r, n, dim, &lo, &hi, mode);
            }
            pub fn vector(dim: usize, mode: u8) {
                let (iv, lo, hi) = any(dim);
                nd::set_draw_mode(mode);
                let r = RandomVectorCreator::new().create_vec(&iv);
                check(&vec![r], 1, dim, &lo, &hi, mode);
            }
            pub fn zero(n: usize, dim: usize) {
                let r: Vec<Vec<$t>> = ZeroVelocityInitializer::new(dim, n).get_velocity();
                assert!(r.len() == n, "number of vectors");
                for v in &r {
                    assert!(v.len() == dim, "dimension");
                    for x in v {
                        assert!(*x == 0 as $t, "zero");
                    }
                }
                reach!("end");
            }
            /// The second of three intervals is invalid.
            pub fn invalid() -> Vec<($t, $t)> {
                let (mut iv, _, _) = any(3);
                let bad = (nd::$t(), nd::$t());
                nd::assume(!(bad.0 < bad.1));
                iv[1] = bad;
                iv
            }
        }
    };
}
ty!(tf64 f64 |x| x.is_finite());
ty!(tf32 f32 |x| x.is_finite());
ty!(ti32 i32 |_| true);
ty!(tu8 u8 |_| true);
ty!(ti64 i64 |x| x >= -(1 << 53) && x <= 1 << 53);

harnesses! {
    #[kani::unwind(5)]
    fn q_creator_f64() { tf64::creator(2, 2, 0) }
    #[kani::unwind(5)]
    fn q_creator_f32() { tf32::creator(2, 2, 0) }
    #[kani::unwind(5)]
    fn q_creator_i32() { ti32::creator(2, 2, 0) }
    #[kani::unwind(5)]
    fn q_creator_u8() { tu8::creator(3, 1, 0) }
    #[kani::unwind(5)]
    fn q_creator_i64() { ti64::creator(1, 2, 0) }
    #[kani::unwind(5)]
    fn q_creator_low() { tf64::creator(1, 3, 1) }
    #[kani::unwind(5)]
    fn q_creator_high() { tf64::creator(1, 3, 2) }
    #[kani::unwind(5)]
    fn q_creator_low_int() { ti32::creator(1, 2, 1) }
    #[kani::unwind(5)]
    fn q_creator_high_int() { ti32::creator(1, 2, 2) }
    #[kani::unwind(5)]
    fn q_coordinates_f64() { tf64::coordinates(2, 2, 0) }
    #[kani::unwind(5)]
    fn q_coordinates_f32() { tf32::coordinates(3, 1, 0) }
    #[kani::unwind(5)]
    fn q_coordinates_high() { tf32::coordinates(1, 2, 2) }
    #[kani::unwind(5)]
    fn q_velocity_f64() { tf64::velocity(2, 2, 0) }
    #[kani::unwind(5)]
    fn q_velocity_f32() { tf32::velocity(1, 3, 0) }
    #[kani::unwind(5)]
    fn q_velocity_low() { tf64::velocity(1, 2, 1) }
    #[kani::unwind(5)]
    fn q_vector_f64() { tf64::vector(3, 0) }
    #[kani::unwind(5)]
    fn q_vector_i32() { ti32::vector(3, 0) }
    #[kani::unwind(5)]
    fn q_vector_low() { ti64::vector(2, 1) }
    #[kani::unwind(5)]
    fn q_vector_high() { tf64::vector(2, 2) }
    #[kani::unwind(5)]
    fn q_vector_none() { tf64::vector(0, 0) }
    #[kani::unwind(5)]
    fn q_zero_f64() { tf64::zero(2, 3) }
    #[kani::unwind(5)]
    fn q_zero_i32() { ti32::zero(3, 2) }
    #[kani::unwind(5)]
    fn q_rejects_creator_f64() {
        let iv = tf64::invalid();
        reach!("call");
        RandomCreator::new(2, iv);
        never!("never: RandomCreator accepted an invalid interval");
    }
    #[kani::unwind(5)]
    fn q_rejects_creator_i32() {
        let iv = ti32::invalid();
        reach!("call");
        RandomCreator::new(2, iv);
        never!("never: RandomCreator accepted an invalid interval");
    }
    #[kani::unwind(5)]
    fn q_rejects_no_interval() {
        reach!("call");
        RandomCreator::<f64>::new(2, Vec::new());
        never!("never: RandomCreator accepted an empty list of intervals");
    }
    #[kani::unwind(5)]
    fn q_rejects_no_population() {
        let (iv, _, _) = tf64::any(2);
        reach!("call");
        RandomCreator::<f64>::new(0, iv);
        never!("never: RandomCreator accepted an empty population");
    }
    #[kani::unwind(5)]
    fn q_rejects_vector_f64() {
        let iv = tf64::invalid();
        let mut c = RandomVectorCreator::new();
        reach!("call");
        c.create_vec(&iv);
        never!("never: RandomVectorCreator accepted an invalid interval");
    }
    #[kani::unwind(5)]
    fn q_rejects_vector_u8() {
        let iv = tu8::invalid();
        let mut c = RandomVectorCreator::new();
        reach!("call");
        c.create_vec(&iv);
        never!("never: RandomVectorCreator accepted an invalid interval");
    }
    #[kani::unwind(5)]
    fn q_rejects_coordinates() {
        let iv = tf64::invalid();
        reach!("call");
        RandomCoordinatesInitializer::new(iv, 2).get_coordinates();
        never!("never: coordinates were made from an invalid interval");
    }
    #[kani::unwind(5)]
    fn q_rejects_velocity() {
        let iv = tf32::invalid();
        reach!("call");
        RandomVelocityInitializer::new(iv, 2).get_velocity();
        never!("never: velocities were made from an invalid interval");
    }
    #[kani::unwind(6)]
    fn t_creator_f64() { tf64::creator(3, 3, 0) }
    #[kani::unwind(6)]
    fn t_coordinates_f64() { tf64::coordinates(3, 3, 0) }
    #[kani::unwind(6)]
    fn t_velocity_f64() { tf64::velocity(3, 3, 0) }
    #[kani::unwind(6)]
    fn t_creator_i64() { ti64::creator(3, 3, 0) }
}
