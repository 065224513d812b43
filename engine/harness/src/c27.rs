//! C27: average convergence.
use crate::common::*;
use optlib::tools::statistics::*;

/// Run r has `lens[r]` iterations; whether there is a solution is symbolic unless the bit of
/// `concrete` says so.
fn average(lens: &[usize], bits: u32) {
    let mut c: Vec<Vec<Option<(u8, f64)>>> = Vec::new();
    let (mut count, mut sum) = ([0i32; 4], [0i32; 4]);
    let mut min = usize::MAX;
    for r in 0..lens.len() {
        let mut run = Vec::new();
        for i in 0..lens[r] {
            let k = (nd::i8() >> (8 - bits)) as i32 * 2 + 1;
            if nd::bool() {
                count[i] += 1;
                sum[i] += k;
                run.push(Some((0, k as f64)));
            } else {
                run.push(None);
            }
        }
        if lens[r] < min {
            min = lens[r];
        }
        c.push(run);
    }
    if lens.is_empty() {
        min = 0;
    }
    assert!(c.get_min_iterations() == min, "length of the shortest run");
    let a = c.get_average_convergence();
    assert!(a.len() == min, "as many entries as the shortest run has iterations");
    for i in 0..min {
        match a[i] {
            None => assert!(count[i] == 0, "an entry is missing"),
            Some(x) => {
                assert!(count[i] > 0, "an entry without any solution");
                let d = x * count[i] as f64 - sum[i] as f64;
                assert!(d < 1e-3 && d > -1e-3, "the average of an iteration");
            }
        }
    }
    reach!("end");
}

/// The mean of two values at least one of which may be anything.
pub fn special(mean: Option<f64>, a: f64, b: f64) {
    let m = mean.unwrap();
    if a.is_nan() || b.is_nan() || (a.is_infinite() && b.is_infinite() && a != b) {
        assert!(m.is_nan(), "the mean of NaN is NaN");
    } else if a.is_infinite() || b.is_infinite() {
        assert!(m == if a.is_infinite() { a } else { b }, "the mean of an infinite value");
    }
}
fn not_finite() {
    let (a, b) = (nd::f64(), nd::f64());
    let runs: Vec<Vec<Option<(u8, f64)>>> = vec![vec![Some((0, a)), None], vec![Some((0, b)), Some((1, a))]];
    let m = runs.get_average_convergence();
    assert!(m.len() == 2);
    special(m[0], a, b);
    special(m[1], a, a);
    reach!(a.is_nan(), "NaN");
    reach!(b.is_infinite() && a < 0.0, "infinite");
}

harnesses! {
    #[kani::unwind(6)]
    fn q_not_finite() { not_finite() }
    #[kani::unwind(6)]
    fn q_no_run() { average(&[], 1) }
    #[kani::unwind(6)]
    fn q_empty_run() { average(&[2, 0], 1) }
    #[kani::unwind(6)]
    fn q_one() { average(&[3], 3) }
    #[kani::unwind(6)]
    fn q_two() { average(&[2, 2], 2) }
    #[kani::unwind(6)]
    fn q_shorter_last() { average(&[2, 3, 1], 2) }
    #[kani::unwind(6)]
    fn q_shorter_first() { average(&[1, 3], 3) }
    #[kani::unwind(6)]
    fn t_three() { average(&[2, 2, 2], 2) }
    #[kani::unwind(6)]
    fn t_four() { average(&[1, 2, 3, 4], 1) }
}
