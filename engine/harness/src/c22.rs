//! C22: averages and standard deviations.
use crate::common::*;
use optlib::tools::statistics::*;

const EPS: f64 = 1e-3;

fn close(a: f64, b: f64) -> bool {
    let d = a - b;
    d < EPS && d > -EPS
}

/// Run i has a solution iff bit i of `mask` is set.  Goal values are integers of `bits` bits.
fn goals(n: usize, mask: u8, bits: u32) {
    let mut r: Vec<Option<(u8, f64)>> = Vec::new();
    let (mut count, mut sum, mut sq) = (0i32, 0i32, 0i32);
    for i in 0..n {
        if mask >> i & 1 == 1 {
            let k = (nd::i8() >> (8 - bits)) as i32 * 2 + 1;
            r.push(Some((0, k as f64)));
            count += 1;
            sum += k;
            sq += k * k;
        } else {
            r.push(None);
        }
    }
    check_goal(r.get_average_goal(), r.get_standard_deviation_goal(), count, sum, sq);
    reach!("end");
}
fn check_goal(average: Option<f64>, deviation: Option<f64>, count: i32, sum: i32, sq: i32) {
    match average {
        None => assert!(count == 0, "no average"),
        Some(a) => {
            assert!(count > 0, "an average of nothing");
            assert!(close(a * count as f64, sum as f64), "the average goal");
        }
    }
    match deviation {
        None => assert!(count < 2, "no deviation"),
        Some(d) => {
            assert!(count >= 2, "a deviation of less than two solutions");
            check_deviation(d, count, sum, sq);
        }
    }
}
/// d^2 * (count - 1) = sum of squares - sum^2 / count, times count
fn check_deviation(d: f64, count: i32, sum: i32, sq: i32) {
    assert!(d >= 0.0, "a deviation is not negative");
    let c = count as f64;
    let variance = unroot(d);
    assert!(close(variance * (c * (c - 1.0)), (count * sq - sum * sum) as f64), "the deviation");
}

/// The same for vector solutions of dimension `dim`; the goal values are the first coordinates
/// plus 3.
fn vectors(n: usize, mask: u8, dim: usize, bits: u32) {
    let mut r: Vec<Option<(Vec<f64>, f64)>> = Vec::new();
    let (mut count, mut sum, mut sq) = (0i32, [0i32; 2], [0i32; 2]);
    let (mut gsum, mut gsq) = (0i32, 0i32);
    for i in 0..n {
        if mask >> i & 1 == 1 {
            let mut v = Vec::new();
            for k in 0..dim {
                let x = (nd::i8() >> (8 - bits)) as i32 * 2 + 1;
                v.push(x as f64);
                sum[k] += x;
                sq[k] += x * x;
                if k == 0 {
                    gsum += x + 3;
                    gsq += (x + 3) * (x + 3);
                }
            }
            let g = v[0] + 3.0;
            r.push(Some((v, g)));
            count += 1;
        } else {
            r.push(None);
        }
    }
    let (a, d) = (r.get_average(), r.get_standard_deviation());
    check_goal(
        a.as_ref().map(|x| x.1),
        d.as_ref().map(|x| x.1),
        count,
        gsum,
        gsq,
    );
    if let Some((a, _)) = &a {
        assert!(a.len() == dim, "dimension of the average");
        for k in 0..dim {
            assert!(close(a[k] * count as f64, sum[k] as f64), "the average coordinate");
        }
    }
    if let Some((d, _)) = &d {
        assert!(d.len() == dim, "dimension of the deviation");
        for k in 0..dim {
            check_deviation(d[k], count, sum[k], sq[k]);
        }
    }
    reach!("end");
}

/// Goal values far from zero: the deviation does not depend on the distance.
fn far(n: usize, mask: u8, base: f64) {
    let mut r: Vec<Option<(u8, f64)>> = Vec::new();
    let (mut count, mut sum, mut sq) = (0i32, 0i32, 0i32);
    for i in 0..n {
        if mask >> i & 1 == 1 {
            let k = (nd::i8() >> 6) as i32 * 2;
            r.push(Some((0, base + k as f64)));
            count += 1;
            sum += k;
            sq += k * k;
        } else {
            r.push(None);
        }
    }
    let a = r.get_average_goal().unwrap();
    assert!(close((a - base) * count as f64, sum as f64), "the average goal");
    check_deviation(r.get_standard_deviation_goal().unwrap(), count, sum, sq);
    reach!("end");
}
fn far_vec(base: f64) {
    let mut r: Vec<Option<(Vec<f64>, f64)>> = Vec::new();
    let (mut sum, mut sq) = (0i32, 0i32);
    for _ in 0..2 {
        let k = (nd::i8() >> 6) as i32 * 2;
        r.push(Some((vec![base + k as f64], 1.0)));
        sum += k;
        sq += k * k;
    }
    let a = r.get_average().unwrap().0;
    assert!(close((a[0] - base) * 2.0, sum as f64), "the average coordinate");
    check_deviation(r.get_standard_deviation().unwrap().0[0], 2, sum, sq);
    reach!("end");
}
/// Goal values that are not numbers.
fn goals_not_finite() {
    let (a, b) = (nd::f64(), nd::f64());
    let r: Vec<Option<(u8, f64)>> = vec![Some((0, a)), Some((0, b))];
    let m = r.get_average_goal();
    assert!(m.is_some(), "no average");
    mean(m.unwrap(), a, b);
    assert!(r.get_standard_deviation_goal().is_some(), "no deviation");
    reach!(a.is_nan(), "NaN");
    reach!(b.is_infinite() && a < 0.0, "infinite");
}
/// Goal values and coordinates that are not numbers.
fn not_finite() {
    let (a, b) = (nd::f64(), nd::f64());
    let r: Vec<Option<(Vec<f64>, f64)>> = vec![Some((vec![b], a)), None, Some((vec![a], b))];
    mean(r.get_average_goal().unwrap(), a, b);
    assert!(r.get_standard_deviation_goal().is_some(), "no deviation");
    let s = r.get_average().unwrap();
    mean(s.1, a, b);
    mean(s.0[0], a, b);
    assert!(r.get_standard_deviation().is_some(), "no deviation");
    reach!(a.is_nan(), "NaN");
    reach!(b.is_infinite() && a < 0.0, "infinite");
}
fn mean(m: f64, a: f64, b: f64) {
    if a.is_nan() || b.is_nan() || (a.is_infinite() && b.is_infinite() && a != b) {
        assert!(m.is_nan(), "the mean of NaN is NaN");
    } else if a.is_infinite() || b.is_infinite() {
        assert!(m == if a.is_infinite() { a } else { b }, "the mean of an infinite value");
    }
}

harnesses! {
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_far_2() { far(2, 3, 1073741824.0) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_far_vec() { far_vec(-1073741824.0) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_not_finite() { goals_not_finite() }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_not_finite() { not_finite() }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn t_far_3() { far(4, 13, 1073741824.0) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_0() { goals(0, 0, 1) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_none() { goals(3, 0, 1) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_1() { goals(1, 1, 3) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_1of3() { goals(3, 2, 3) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_2() { goals(2, 3, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_2of3() { goals(3, 5, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_2of4() { goals(4, 6, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_goal_3() { goals(3, 7, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_vec_0() { vectors(2, 0, 1, 1) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_vec_1of2() { vectors(2, 2, 2, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_vec_2of3() { vectors(3, 6, 1, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_vec_2() { vectors(2, 3, 2, 1) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn q_vec_3() { vectors(3, 7, 1, 1) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn t_goal_4() { goals(4, 15, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn t_goal_3() { goals(3, 7, 3) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn t_vec_3() { vectors(3, 7, 2, 2) }
    #[kani::unwind(6)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    #[kani::stub(f64::sqrt, crate::common::marked_sqrt_f64)]
    fn t_vec_3of4() { vectors(4, 13, 2, 1) }
}
