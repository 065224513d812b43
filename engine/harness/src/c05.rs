//! C05: the swarm always reports the best of all points evaluated so far.
use crate::common::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::*;

// The k-th point evaluated has the coordinate k and the symbolic goal value val(k).
nd::state! {
    SIZE: usize = 0;
    MAX: usize = 0;
    BASE: usize = 0;       // number of the first point of this run
    CALLS: usize = 0;      // points evaluated
    MOVES: usize = 0;
    KNOWN: usize = 0;      // points evaluated up to the end of the last completed iteration
}

struct G;
impl Goal<Vec<f64>> for G {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        unsafe {
            assert!(x.len() == 1 && x[0] == CALLS.v as f64, "the points are evaluated in their order");
            CALLS.v += 1;
            val(CALLS.v - 1)
        }
    }
}
struct Cr;
impl CoordinatesInitializer<f64> for Cr {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        unsafe {
            BASE.v = CALLS.v;
            KNOWN.v = CALLS.v + SIZE.v;
            MOVES.v = 0;
            let mut v = Vec::new();
            for k in 0..SIZE.v {
                v.push(vec![(CALLS.v + k) as f64]);
            }
            v
        }
    }
}
struct Zero;
impl VelocityInitializer<f64> for Zero {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        unsafe {
            let mut v = Vec::new();
            for _ in 0..SIZE.v {
                v.push(vec![0.0]);
            }
            v
        }
    }
}
struct Calc;
impl VelocityCalculator<f64> for Calc {
    fn calc_new_velocity(&mut self, s: &Swarm<f64>, _p: &Particle<f64>) -> Vec<f64> {
        unsafe {
            if MOVES.v % SIZE.v == 0 {
                KNOWN.v = CALLS.v;
            }
            MOVES.v += 1;
            check(s.get_best_solution());
            // every particle of the previous round is SIZE points away
            vec![SIZE.v as f64]
        }
    }
}
fn check(best: Option<(Vec<f64>, f64)>) {
    unsafe {
        match best {
            None => assert!(SIZE.v == 0, "no best point"),
            Some((x, g)) => {
                let mut found = false;
                for i in BASE.v..KNOWN.v {
                    found = found || (x[0] == i as f64 && same(g, val(i)));
                    assert!(!val(i).is_finite() || (g.is_finite() && g <= val(i)),
                            "a better point has been evaluated");
                }
                assert!(x.len() == 1 && found, "the best point was evaluated and had this goal value");
            }
        }
    }
}
fn known() {
    unsafe { KNOWN.v = CALLS.v }
}
struct Stop;
impl StopChecker<Vec<f64>> for Stop {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool {
        known();
        check(s.get_best_solution());
        unsafe { MOVES.v >= MAX.v * SIZE.v }
    }
}
struct Lg;
impl Logger<Vec<f64>> for Lg {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
        known();
        check(s.get_best_solution())
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
        known();
        check(s.get_best_solution())
    }
}
fn run(size: usize, iterations: usize, runs: usize) {
    any_vals(size * (iterations + 1) * runs);
    unsafe {
        SIZE.v = size;
        MAX.v = iterations;
    }
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(G),
        Box::new(Stop),
        Box::new(Cr),
        Box::new(Zero),
        Box::new(Calc),
    );
    o.set_loggers(vec![Box::new(Lg)]);
    for r in 0..runs {
        let b = o.find_min();
        unsafe {
            assert!(CALLS.v == (r + 1) * size * (iterations + 1), "every point has been evaluated");
        }
        check(b);
    }
    reach!("end");
}

harnesses! {
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_1x3() { run(1, 3, 1) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_2x0() { run(2, 0, 1) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_2x1() { run(2, 1, 1) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_3x0() { run(3, 0, 1) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_1x1x2() { run(1, 1, 2) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_2x2() { run(2, 2, 1) }
    #[kani::unwind(7)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_3x1() { run(3, 1, 1) }
    #[kani::unwind(11)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_3x2() { run(3, 2, 1) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_2x3() { run(2, 3, 1) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_2x1x2() { run(2, 1, 2) }
}
