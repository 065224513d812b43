//! C23: success rate and predicates.
use crate::common::*;
use optlib::tools::statistics::*;

/// Run i has a solution iff bit i of `mask` is set; the predicate's answers are symbolic.
fn rate(n: usize, mask: u8) {
    let mut r: Vec<Option<(Vec<f64>, f64)>> = Vec::new();
    let mut yes = 0;
    for i in 0..n {
        if mask >> i & 1 == 1 {
            // the goal value carries the answer, the coordinate is anything
            let b = nd::bool();
            yes += b as u32;
            r.push(Some((vec![nd::f64()], if b { 1.0 } else { 0.0 })));
        } else {
            r.push(None);
        }
    }
    match r.get_success_rate(|s: &(Vec<f64>, f64)| s.1 == 1.0) {
        None => assert!(n == 0, "undefined only without any run"),
        Some(x) => {
            assert!(n > 0, "a rate of nothing");
            let d = x * n as f64 - yes as f64;
            assert!(d < 1e-9 && d > -1e-9, "the success rate");
        }
    }
    reach!("end");
}

/// The real predicates inside the success rate: any float goals, one failed run.
fn rate_goal() {
    let (expected, delta) = (nd::f64(), nd::f64());
    let (g1, g2) = (nd::f64(), nd::f64());
    let r: Vec<Option<(Vec<f64>, f64)>> =
        vec![Some((vec![], g1)), None, Some((vec![], g2))];
    let rate = r.get_success_rate(get_predicate_success_goal(expected, delta)).unwrap();
    let yes = near(g1, expected, delta) as u32 + near(g2, expected, delta) as u32;
    let d = rate * 3.0 - yes as f64;
    assert!(d < 1e-9 && d > -1e-9, "the success rate");
    reach!("end");
}
fn near(g: f64, e: f64, d: f64) -> bool {
    (g - e).abs() < d
}

fn goal() {
    let (e, d, g) = (nd::f64(), nd::f64(), nd::f64());
    let p = get_predicate_success_goal::<u8>(e, d);
    assert!(p(&(0, g)) == near(g, e, d), "goal predicate");
    if g.is_nan() {
        assert!(!p(&(0, g)), "NaN is a success");
    }
    reach!("end");
}

macro_rules! coords {
    ($name:ident $t:ident) => {
        fn $name(n: usize) {
            let (mut e, mut d, mut x) = (Vec::new(), Vec::new(), Vec::new());
            let mut expected = true;
            for _ in 0..n {
                let (a, b, c) = (nd::$t(), nd::$t(), nd::$t());
                e.push(a);
                d.push(b);
                x.push(c);
                expected = expected && (c - a).abs() <= b;
                expected = expected && !c.is_nan();
            }
            let p = get_predicate_success_vec_solution(e, d);
            let s = (x, nd::f64());
            assert!(p(&s) == expected, "coordinate predicate");
            reach!(expected, "success");
            reach!(!expected || n == 0, "failure");
        }
    };
}
coords!(coords64 f64);
coords!(coords32 f32);

harnesses! {
    #[kani::unwind(6)]
    fn q_rate_0() { rate(0, 0) }
    #[kani::unwind(6)]
    fn q_rate_none() { rate(2, 0) }
    #[kani::unwind(6)]
    fn q_rate_1() { rate(1, 1) }
    #[kani::unwind(6)]
    fn q_rate_3() { rate(3, 7) }
    #[kani::unwind(6)]
    fn q_rate_2of3() { rate(3, 5) }
    #[kani::unwind(6)]
    fn q_rate_2of4() { rate(4, 6) }
    #[kani::unwind(6)]
    fn q_rate_goal() { rate_goal() }
    #[kani::unwind(6)]
    fn q_goal() { goal() }
    #[kani::unwind(6)]
    fn q_coords64_0() { coords64(0) }
    #[kani::unwind(6)]
    fn q_coords64_1() { coords64(1) }
    #[kani::unwind(6)]
    fn q_coords64_2() { coords64(2) }
    #[kani::unwind(6)]
    fn q_coords32_2() { coords32(2) }
    #[kani::unwind(6)]
    fn t_coords64_3() { coords64(3) }
    #[kani::unwind(8)]
    fn t_rate_5() { rate(5, 0b10111) }
}
