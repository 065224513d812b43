//! C03: life cycle of a run: stop checks, iterations, logger events, restart and resume.
use crate::common::*;
use optlib::genetic::*;
use optlib::particleswarm::{
    CoordinatesInitializer, Particle, ParticleSwarmOptimizer, Swarm, VelocityCalculator, VelocityInitializer,
};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::{MaxIterations, StopChecker};
use optlib::*;

// Every point of run r has the coordinate r.
const NL: usize = 2;
nd::state! {
    FIND: bool = false;             // the current call is find_min (else next_iterations)
    MAX: usize = 0;                 // most iterations in one call (symbolic stop answers)
    SIZE: usize = 0;                // number of individuals or particles
    RUN: usize = 0;                 // number of the current run
    DONE: usize = 0;                // iterations begun in this run
    // the current call
    CREATES: usize = 0;
    EVALS: usize = 0;
    SCRIPT: bool = false;           // stop exactly after MAX iterations
    FALLING: bool = false;          // goal values fall from call to call (else symbolic)
    DYING: bool = false;            // nobody survives the first iteration
    UNITS: usize = 0;               // units of work in the current iteration
    ASKS: usize = 0;
    ANSWER: bool = false;
    ITERS: usize = 0;
    STARTS: [usize; NL] = [0; NL];
    RESUMES: [usize; NL] = [0; NL];
    NEXTS: [usize; NL] = [0; NL];
    FINISHES: [usize; NL] = [0; NL];
    FINAL: f64 = 0.0;               // goal of the solution at `finish`
    FINAL_SOME: bool = false;
}

fn created() {
    unsafe {
        assert!(FIND.v && CREATES.v == 0, "initial points are created once, by find_min");
        assert!(STARTS.v[0] == 0 && RESUMES.v[0] == 0, "initial points come first");
        CREATES.v = 1;
        RUN.v += 1;
        DONE.v = 0;
    }
}
fn evaluated() -> f64 {
    unsafe {
        EVALS.v += 1;
        if FALLING.v {
            return -(EVALS.v as f64) - 16.0 * (DONE.v as f64);
        }
    }
    nd::f64()
}
/// One unit of work (pairing, or the move of a particle); `total` of them make an iteration.
fn unit(total: usize) {
    unsafe {
        if UNITS.v == 0 {
            assert!(ASKS.v == ITERS.v + 1 && !ANSWER.v, "an iteration follows the answer no");
            ITERS.v += 1;
            DONE.v += 1;
        }
        UNITS.v += 1;
        assert!(UNITS.v <= total, "an iteration is performed once");
    }
}
fn ask(iteration: usize) -> bool {
    unsafe {
        for l in 0..NL {
            assert!(RESUMES.v[l] == 1, "resume comes before the iterations");
            assert!(NEXTS.v[l] == ITERS.v, "next_iteration comes before the next check");
            assert!(FINISHES.v[l] == 0, "finish comes last");
        }
        assert!(ASKS.v == ITERS.v && !ANSWER.v, "the stop checker is asked once before every iteration");
        assert!(iteration == DONE.v, "the number of completed iterations");
        UNITS.v = 0;
        ASKS.v += 1;
        ANSWER.v = ITERS.v >= MAX.v || (!SCRIPT.v && nd::bool());
        ANSWER.v
    }
}
fn of_this_run(best: Option<(usize, f64)>) {
    unsafe {
        if let Some((r, _)) = best {
            assert!(r == RUN.v, "a solution of a previous run");
        }
    }
}
fn ev_start(l: usize, iteration: usize, best: Option<(usize, f64)>) {
    unsafe {
        assert!(FIND.v && CREATES.v == 1, "start is for find_min, after the initial points");
        assert!(EVALS.v == SIZE.v, "the initial points have been evaluated");
        assert!(STARTS.v[l] == 0 && RESUMES.v[l] == 0, "start comes first and once");
        assert!(iteration == 0, "a run starts with iteration 0");
        of_this_run(best);
        STARTS.v[l] += 1;
    }
}
fn ev_resume(l: usize, iteration: usize, best: Option<(usize, f64)>) {
    unsafe {
        assert!(STARTS.v[l] == FIND.v as usize, "resume after start");
        assert!(RESUMES.v[l] == 0 && ASKS.v == 0, "resume comes once, before the iterations");
        assert!(iteration == DONE.v, "resume at the current iteration");
        of_this_run(best);
        RESUMES.v[l] += 1;
    }
}
fn ev_next(l: usize, iteration: usize, best: Option<(usize, f64)>, total: usize) {
    unsafe {
        assert!(NEXTS.v[l] + 1 == ITERS.v && UNITS.v == total, "next_iteration once after an iteration");
        assert!(iteration == DONE.v, "the number of the iteration");
        of_this_run(best);
        NEXTS.v[l] += 1;
    }
}
fn ev_finish(l: usize, iteration: usize, best: Option<(usize, f64)>) {
    unsafe {
        assert!(ANSWER.v && FINISHES.v[l] == 0, "finish once, when the stop checker says so");
        assert!(NEXTS.v[l] == ITERS.v && iteration == DONE.v, "finish after the last iteration");
        of_this_run(best);
        FINISHES.v[l] += 1;
        FINAL_SOME.v = best.is_some();
        if let Some((_, g)) = best {
            FINAL.v = g;
        }
    }
}
fn begin_call(find: bool) {
    unsafe {
        FIND.v = find;
        CREATES.v = 0;
        EVALS.v = 0;
        ASKS.v = 0;
        ANSWER.v = false;
        ITERS.v = 0;
        for l in 0..NL {
            STARTS.v[l] = 0;
            RESUMES.v[l] = 0;
            NEXTS.v[l] = 0;
            FINISHES.v[l] = 0;
        }
    }
}
fn end_call(best: Option<(usize, f64)>) {
    unsafe {
        assert!(CREATES.v == FIND.v as usize);
        for l in 0..NL {
            assert!(STARTS.v[l] == FIND.v as usize, "start once per find_min");
            assert!(RESUMES.v[l] == 1, "resume once per call");
            assert!(NEXTS.v[l] == ITERS.v, "next_iteration once per iteration");
            assert!(FINISHES.v[l] == 1, "finish once per call");
        }
        of_this_run(best);
        assert!(best.is_some() == FINAL_SOME.v, "the last state is returned");
        if let Some((_, g)) = best {
            assert!(same(g, FINAL.v), "the last solution is returned");
        }
    }
}

/// The steps of a scenario.
#[derive(Clone, Copy)]
enum Call {
    Find,
    Next,
}
use Call::*;

mod ga {
    use super::*;
    pub struct G;
    impl Goal<usize> for G {
        fn get(&mut self, x: &usize) -> f64 {
            unsafe { assert!(*x == RUN.v) }
            evaluated()
        }
    }
    pub struct Cr;
    impl Creator<usize> for Cr {
        fn create(&mut self) -> Vec<usize> {
            created();
            unsafe {
                let mut v = Vec::new();
                for _ in 0..SIZE.v {
                    v.push(RUN.v);
                }
                v
            }
        }
    }
    pub struct Pr;
    impl Pairing<usize> for Pr {
        fn get_pairs(&mut self, p: &Population<usize>) -> Vec<Vec<usize>> {
            unit(1);
            unsafe {
                let n = if DYING.v && DONE.v > 1 { 0 } else { SIZE.v };
                assert!(p.len() == n, "the population of this run");
                assert!(n == 0 || *p[0].get_chromosomes() == RUN.v, "the population of this run");
                assert!(p.get_iteration() + 1 == DONE.v, "the iteration number seen by pairing");
            }
            Vec::new()
        }
    }
    pub struct Cx;
    impl Cross<usize> for Cx {
        fn cross(&mut self, _p: &[&usize]) -> Vec<usize> {
            Vec::new()
        }
    }
    pub struct Mu;
    impl Mutation<usize> for Mu {
        fn mutation(&mut self, c: &usize) -> usize {
            *c
        }
    }
    pub struct KillAll;
    impl Selection<usize> for KillAll {
        fn kill(&mut self, p: &mut Population<usize>) {
            for i in p.iter_mut() {
                i.kill();
            }
        }
    }
    pub struct Stop;
    impl StopChecker<usize> for Stop {
        fn can_stop(&mut self, s: &dyn AlgorithmState<usize>) -> bool {
            of_this_run(s.get_best_solution());
            ask(s.get_iteration())
        }
    }
    pub struct Real(pub MaxIterations);
    impl StopChecker<usize> for Real {
        fn can_stop(&mut self, s: &dyn AlgorithmState<usize>) -> bool {
            ask(s.get_iteration());
            unsafe {
                ANSWER.v = self.0.can_stop(s);
                ANSWER.v
            }
        }
    }
    pub struct Lg(pub usize);
    impl Logger<usize> for Lg {
        fn start(&mut self, s: &dyn AlgorithmState<usize>) {
            ev_start(self.0, s.get_iteration(), s.get_best_solution())
        }
        fn resume(&mut self, s: &dyn AlgorithmState<usize>) {
            ev_resume(self.0, s.get_iteration(), s.get_best_solution())
        }
        fn next_iteration(&mut self, s: &dyn AlgorithmState<usize>) {
            ev_next(self.0, s.get_iteration(), s.get_best_solution(), 1)
        }
        fn finish(&mut self, s: &dyn AlgorithmState<usize>) {
            ev_finish(self.0, s.get_iteration(), s.get_best_solution())
        }
    }
    pub fn optimizer(stop: Box<dyn StopChecker<usize>>) -> GeneticOptimizer<'static, usize> {
        let mut o = GeneticOptimizer::new(
            Box::new(G),
            stop,
            Box::new(Cr),
            Box::new(Pr),
            Box::new(Cx),
            Box::new(Mu),
            unsafe { if DYING.v { vec![Box::new(KillAll)] } else { vec![] } },
            vec![],
        );
        o.set_loggers(vec![Box::new(Lg(0)), Box::new(Lg(1))]);
        o
    }
    pub fn dying(size: usize, max: usize, calls: &[Call]) {
        unsafe { DYING.v = true }
        run(size, max, calls)
    }
    pub fn run(size: usize, max: usize, calls: &[Call]) {
        unsafe {
            SIZE.v = size;
            MAX.v = max;
        }
        let mut o = optimizer(Box::new(Stop));
        for c in calls {
            begin_call(matches!(c, Find));
            let r = match c {
                Find => o.find_min(),
                Next => o.next_iterations(),
            };
            end_call(r);
        }
        unsafe {
            reach!(ITERS.v == 0, "no iteration");
            reach!(ITERS.v == MAX.v, "all iterations");
        }
    }
    /// The real iteration limit: exactly n iterations, then none, then up to m.
    pub fn limit(n: usize, m: usize) {
        unsafe {
            SIZE.v = 1;
            MAX.v = 64;
        }
        let mut o = optimizer(Box::new(Real(MaxIterations::new(n))));
        begin_call(true);
        end_call(o.find_min());
        unsafe { assert!(ITERS.v == n, "a limit of n iterations performs exactly n") }
        begin_call(false);
        end_call(o.next_iterations());
        unsafe { assert!(ITERS.v == 0, "the limit has been reached") }
        o.set_stop_checker(Box::new(Real(MaxIterations::new(m))));
        begin_call(false);
        end_call(o.next_iterations());
        unsafe { assert!(ITERS.v == if m > n { m - n } else { 0 }, "the run is continued to the new limit") }
        begin_call(true);
        end_call(o.find_min());
        unsafe { assert!(ITERS.v == m, "a new run performs exactly m iterations") }
        reach!("end");
    }
}

mod pso {
    use super::*;
    pub struct G;
    impl Goal<Vec<f64>> for G {
        fn get(&mut self, x: &Vec<f64>) -> f64 {
            unsafe { assert!(x.len() == 1 && x[0] == RUN.v as f64) }
            evaluated()
        }
    }
    pub struct Cr;
    impl CoordinatesInitializer<f64> for Cr {
        fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
            created();
            unsafe {
                let mut v = Vec::new();
                for _ in 0..SIZE.v {
                    v.push(vec![RUN.v as f64]);
                }
                v
            }
        }
    }
    pub struct Zero;
    impl VelocityInitializer<f64> for Zero {
        fn get_velocity(&mut self) -> Vec<Vec<f64>> {
            unsafe {
                let mut v = Vec::new();
                for _ in 0..SIZE.v {
                    v.push(vec![0.0]);
                }
                v
            }
        }
    }
    pub struct Calc;
    impl VelocityCalculator<f64> for Calc {
        fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> {
            unsafe {
                unit(SIZE.v);
                assert!(s.len() == SIZE.v && p.get_parameter()[0] == RUN.v as f64, "the swarm of this run");
                assert!(s.get_iteration() + 1 == DONE.v, "the iteration number seen by the velocity rule");
                if let Some((x, _)) = s.get_best_solution() {
                    assert!(x[0] == RUN.v as f64, "a solution of a previous run");
                }
            }
            vec![0.0]
        }
    }
    fn best(s: Option<(Vec<f64>, f64)>) -> Option<(usize, f64)> {
        match s {
            None => None,
            Some((x, g)) => unsafe { Some((if x[0] == RUN.v as f64 { RUN.v } else { 99 }, g)) },
        }
    }
    pub struct Stop;
    impl StopChecker<Vec<f64>> for Stop {
        fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool {
            of_this_run(best(s.get_best_solution()));
            ask(s.get_iteration())
        }
    }
    pub struct Real(pub MaxIterations);
    impl StopChecker<Vec<f64>> for Real {
        fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool {
            ask(s.get_iteration());
            unsafe {
                ANSWER.v = self.0.can_stop(s);
                ANSWER.v
            }
        }
    }
    pub struct Lg(pub usize);
    impl Logger<Vec<f64>> for Lg {
        fn start(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
            ev_start(self.0, s.get_iteration(), best(s.get_best_solution()))
        }
        fn resume(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
            ev_resume(self.0, s.get_iteration(), best(s.get_best_solution()))
        }
        fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
            unsafe { ev_next(self.0, s.get_iteration(), best(s.get_best_solution()), SIZE.v) }
        }
        fn finish(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
            ev_finish(self.0, s.get_iteration(), best(s.get_best_solution()))
        }
    }
    pub fn optimizer(stop: Box<dyn StopChecker<Vec<f64>>>) -> ParticleSwarmOptimizer<'static, f64> {
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(G),
            stop,
            Box::new(Cr),
            Box::new(Zero),
            Box::new(Calc),
        );
        o.set_loggers(vec![Box::new(Lg(0)), Box::new(Lg(1))]);
        o
    }
    pub fn run(size: usize, max: usize, calls: &[Call]) {
        unsafe {
            SIZE.v = size;
            MAX.v = max;
            FALLING.v = true;
        }
        let mut o = optimizer(Box::new(Stop));
        for c in calls {
            begin_call(matches!(c, Find));
            let r = match c {
                Find => o.find_min(),
                Next => o.next_iterations(),
            };
            end_call(best(r));
        }
        unsafe {
            reach!(ITERS.v == 0, "no iteration");
            reach!(ITERS.v == MAX.v, "all iterations");
        }
    }
    /// Concrete numbers of iterations, symbolic goal values.
    pub fn script(size: usize, calls: &[(Call, usize)]) {
        unsafe {
            SIZE.v = size;
            SCRIPT.v = true;
        }
        let mut o = optimizer(Box::new(Stop));
        for (c, k) in calls {
            unsafe { MAX.v = *k }
            begin_call(matches!(c, Find));
            let r = match c {
                Find => o.find_min(),
                Next => o.next_iterations(),
            };
            end_call(best(r));
            unsafe { assert!(ITERS.v == *k) }
        }
        reach!("end");
    }
    pub fn limit(n: usize, m: usize, falling: bool) {
        unsafe {
            FALLING.v = falling;
            SIZE.v = 1;
            MAX.v = 64;
        }
        let mut o = optimizer(Box::new(Real(MaxIterations::new(n))));
        begin_call(true);
        end_call(best(o.find_min()));
        unsafe { assert!(ITERS.v == n, "a limit of n iterations performs exactly n") }
        begin_call(false);
        end_call(best(o.next_iterations()));
        unsafe { assert!(ITERS.v == 0, "the limit has been reached") }
        o.set_stop_checker(Box::new(Real(MaxIterations::new(m))));
        begin_call(false);
        end_call(best(o.next_iterations()));
        unsafe { assert!(ITERS.v == if m > n { m - n } else { 0 }, "the run is continued to the new limit") }
        begin_call(true);
        end_call(best(o.find_min()));
        unsafe { assert!(ITERS.v == m, "a new run performs exactly m iterations") }
        reach!("end");
    }
}

harnesses! {
    #[kani::unwind(6)]
    fn q_ga_run() { ga::run(2, 2, &[Find]) }
    #[kani::unwind(6)]
    fn q_ga_resume() { ga::run(1, 2, &[Find, Next]) }
    #[kani::unwind(6)]
    fn q_ga_restart() { ga::run(1, 1, &[Find, Find, Next]) }
    #[kani::unwind(6)]
    fn q_ga_dying() { ga::dying(1, 2, &[Find, Find]) }
    #[kani::unwind(6)]
    fn q_ga_empty() { ga::run(0, 2, &[Find, Next]) }
    #[kani::unwind(6)]
    fn q_ga_limit() { ga::limit(2, 3) }
    #[kani::unwind(6)]
    fn q_ga_limit_0() { ga::limit(0, 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_run() { pso::run(2, 2, &[Find]) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_resume() { pso::script(1, &[(Find, 1), (Next, 2)]) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_resume_0() { pso::script(1, &[(Find, 0), (Next, 1), (Next, 0)]) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_restart() { pso::script(1, &[(Find, 1), (Find, 1), (Next, 1)]) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_limit() { pso::limit(2, 3, true) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_limit_0() { pso::limit(0, 2, false) }
    #[kani::unwind(8)]
    fn t_ga_long() { ga::run(2, 3, &[Find, Next, Find, Next]) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pso_long() { pso::script(1, &[(Find, 2), (Next, 1), (Find, 2), (Next, 1)]) }
}
