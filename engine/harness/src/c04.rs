//! C04: with population-limit selection the best goal never gets worse.
use crate::common::*;
use optlib::genetic::selection::*;
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

nd::state! {
    START: usize = 0;
    CH: [usize; 4] = [0; 4];
    GEN: usize = 0;
    MADE: usize = 0;          // points made so far in this run
    CALLS: usize = 0;         // goal calls so far
    PREV: f64 = 0.0;          // best goal reported after the previous generation
    HAVE: bool = false;
}

struct G;
impl Goal<usize> for G {
    fn get(&mut self, x: &usize) -> f64 {
        unsafe {
            if *x + 1 > CALLS.v {
                CALLS.v = *x + 1;
            }
        }
        val(*x)
    }
}
struct Cr;
impl Creator<usize> for Cr {
    fn create(&mut self) -> Vec<usize> {
        unsafe {
            let mut v = Vec::new();
            for i in 0..START.v {
                v.push(i);
            }
            MADE.v = START.v;
            v
        }
    }
}
// Families without parents: the children do not depend on who survived.
struct Pr;
impl Pairing<usize> for Pr {
    fn get_pairs(&mut self, _p: &Population<usize>) -> Vec<Vec<usize>> {
        unsafe {
            let mut v = Vec::new();
            for _ in 0..CH.v[GEN.v] {
                v.push(Vec::new());
            }
            GEN.v += 1;
            v
        }
    }
}
struct Crs;
impl Cross<usize> for Crs {
    fn cross(&mut self, _p: &[&usize]) -> Vec<usize> {
        unsafe {
            MADE.v += 1;
            vec![MADE.v - 1]
        }
    }
}
struct Mu;
impl Mutation<usize> for Mu {
    fn mutation(&mut self, c: &usize) -> usize {
        *c
    }
}
struct Lg;
impl Logger<usize> for Lg {
    fn next_iteration(&mut self, s: &dyn AlgorithmState<usize>) {
        check(s.get_best_solution());
    }
}
fn check(best: Option<(usize, f64)>) {
    unsafe {
        let g = match best {
            Some((_, g)) => g,
            None => f64::NAN,
        };
        for i in 0..CALLS.v {
            // "g <= val(i)" for every finite goal value obtained so far
            assert!(!val(i).is_finite() || g <= val(i), "a better point has been seen before");
        }
        if HAVE.v && PREV.v.is_finite() {
            assert!(g <= PREV.v, "the best goal has got worse");
        }
        PREV.v = g;
        HAVE.v = best.is_some();
    }
}
fn run(start: usize, children: &[usize], limit: usize, filter: bool) {
    let mut total = start;
    unsafe {
        START.v = start;
        for g in 0..children.len() {
            CH.v[g] = children[g];
            total += children[g];
        }
    }
    any_vals(total);
    let mut s: Vec<Box<dyn Selection<usize>>> = vec![];
    if filter {
        s.push(Box::new(KillFitnessNaN::new()));
    }
    s.push(Box::new(LimitPopulation::new(limit)));
    let mut o = GeneticOptimizer::new(
        Box::new(G),
        Box::new(MaxIterations::new(children.len())),
        Box::new(Cr),
        Box::new(Pr),
        Box::new(Crs),
        Box::new(Mu),
        s,
        vec![],
    );
    o.set_loggers(vec![Box::new(Lg)]);
    check(o.find_min());
    unsafe {
        assert!(GEN.v == children.len() && CALLS.v == total, "every generation has run");
    }
    reach!("end");
}

harnesses! {
    #[kani::unwind(5)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_21_2() { run(2, &[1], 2, false) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_22_1() { run(2, &[2], 1, false) }
    #[kani::unwind(7)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_32_3() { run(3, &[2], 3, false) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_211_3() { run(2, &[1, 1], 3, false) }
    #[kani::unwind(5)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_2101_2() { run(2, &[0, 1], 2, false) }
    #[kani::unwind(5)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_nan_21_2() { run(2, &[1], 2, true) }
    #[kani::unwind(5)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_nan_21_1() { run(2, &[1], 1, true) }
    #[kani::unwind(4)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_nan_11_1() { run(1, &[1], 1, true) }
    #[kani::unwind(4)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_nan_2_1() { run(2, &[0], 1, true) }
    #[kani::unwind(4)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_111_1() { run(1, &[1, 1], 1, false) }
    #[kani::unwind(7)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_42_4() { run(4, &[2], 4, false) }
    #[kani::unwind(7)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_33_2() { run(3, &[3], 2, false) }
    #[kani::unwind(8)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_321_5() { run(3, &[2, 1], 5, false) }
}
