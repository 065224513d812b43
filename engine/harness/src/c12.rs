//! C12: mean crossover.
use crate::common::*;
use optlib::genetic::cross::CrossMean;
use optlib::genetic::Cross;

macro_rules! ints {
    ($name:ident $t:ident) => {
        fn $name(n: usize) {
            let mut p = [0 as $t; 4];
            let mut sum: i128 = 0;
            let mut partial_ok = true;
            for i in 0..n {
                p[i] = nd::$t();
                sum += p[i] as i128;
                partial_ok = partial_ok && sum >= $t::MIN as i128 && sum <= $t::MAX as i128;
            }
            // every partial sum is representable
            nd::assume(partial_ok);
            let all = [&p[0], &p[1], &p[2], &p[3]];
            let r: Vec<$t> = CrossMean::new().cross(&all[..n]);
            assert!(r.len() == 1, "exactly one child");
            // The integer quotient, without a symbolic division: the remainder is smaller than
            // the divisor and has the sign of the sum.
            let rest = sum - r[0] as i128 * n as i128;
            assert!(rest.abs() < n as i128 && (rest == 0 || (rest > 0) == (sum > 0)), "not the mean");
            reach!("end");
        }
    };
}
ints!(mi32 i32);
ints!(mu8 u8);
ints!(mi64 i64);
ints!(mi8 i8);

macro_rules! floats {
    ($grid:ident $hull:ident $t:ident) => {
        /// Parents from a grid of 2^`bits` integers.
        fn $grid(n: usize, bits: u32) {
            let mut p = [0 as $t; 4];
            let mut sum: i32 = 0;
            for i in 0..n {
                let k = (nd::i16() >> (16 - bits)) * 3 - 1;
                p[i] = k as $t;
                sum += k as i32;
            }
            let all = [&p[0], &p[1], &p[2], &p[3]];
            let r: Vec<$t> = CrossMean::new().cross(&all[..n]);
            assert!(r.len() == 1, "exactly one child");
            let d = r[0] * (n as $t) - sum as $t;
            assert!(d < 0.001 && d > -0.001, "not the mean");
            reach!("end");
        }
        /// Any two finite parents without overflow: the child lies between them.
        fn $hull() {
            let (a, b) = (nd::$t(), nd::$t());
            nd::assume(a.abs() < $t::MAX / 4.0 && b.abs() < $t::MAX / 4.0);
            let r: Vec<$t> = CrossMean::new().cross(&[&a, &b]);
            assert!(r.len() == 1, "exactly one child");
            let (lo, hi) = if a < b { (a, b) } else { (b, a) };
            assert!(r[0] >= lo && r[0] <= hi, "outside the hull of the parents");
            reach!("end");
        }
    };
}
floats!(grid64 hull64 f64);
floats!(grid32 hull32 f32);

/// Permuting the parents or using the operator again does not matter.
fn stateless() {
    let (a, b, c) = (nd::i16() as f64, nd::i16() as f64, nd::i16() as f64);
    let mut m = CrossMean::new();
    let _: Vec<f64> = m.cross(&[&c, &a]);
    let r: Vec<f64> = m.cross(&[&a, &b]);
    let s: Vec<f64> = CrossMean::new().cross(&[&b, &a]);
    assert!(r.len() == 1 && r[0] == s[0] && r[0] * 2.0 == a + b, "depends on other state");
    reach!("end");
}

harnesses! {
    #[kani::unwind(6)]
    fn q_i32_2() { mi32(2) }
    #[kani::unwind(6)]
    fn q_i32_3() { mi32(3) }
    #[kani::unwind(6)]
    fn q_i8_4() { mi8(4) }
    #[kani::unwind(6)]
    fn q_u8_2() { mu8(2) }
    #[kani::unwind(6)]
    fn q_i64_2() { mi64(2) }
    #[kani::unwind(6)]
    fn q_f64_2() { grid64(2, 8) }
    #[kani::unwind(6)]
    fn q_f64_3() { grid64(3, 3) }
    #[kani::unwind(6)]
    fn q_f64_4() { grid64(4, 3) }
    #[kani::unwind(6)]
    fn q_f32_2() { grid32(2, 8) }
    #[kani::unwind(6)]
    fn q_f32_3() { grid32(3, 3) }
    #[kani::unwind(6)]
    fn q_hull64() { hull64() }
    #[kani::unwind(6)]
    fn q_hull32() { hull32() }
    #[kani::unwind(6)]
    fn q_stateless() { stateless() }
    #[kani::unwind(6)]
    fn t_f64_2() { grid64(2, 12) }
    #[kani::unwind(6)]
    fn t_f64_3() { grid64(3, 5) }
    #[kani::unwind(6)]
    fn t_i64_4() { mi64(4) }
    #[kani::unwind(6)]
    fn t_i32_4() { mi32(4) }
    #[kani::unwind(6)]
    fn t_u8_4() { mu8(4) }
}
