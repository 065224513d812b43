//! C24: run statistics and call counters.
use crate::common::*;
use optlib::tools::logging::Logger;
use optlib::tools::statistics::*;
use optlib::{AlgorithmState, Goal};

struct St {
    best: Option<(u8, f64)>,
    iteration: usize,
}
impl AlgorithmState<u8> for St {
    fn get_best_solution(&self) -> Option<(u8, f64)> {
        self.best
    }
    fn get_iteration(&self) -> usize {
        self.iteration
    }
}
fn any_best() -> Option<(u8, f64)> {
    let (x, g) = (nd::u8(), nd::f64());
    if nd::bool() {
        Some((x, g))
    } else {
        None
    }
}
fn same_solution(a: &Option<(u8, f64)>, b: &Option<(u8, f64)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => a.0 == b.0 && a.1.to_bits() == b.1.to_bits(),
        _ => false,
    }
}

type Model = [[Option<(u8, f64)>; 4]; 4];

/// `runs[r]` iterations in run r; the last best solution of a run is its result.
fn record(stat: &mut Statistics<u8>, runs: &[usize], m: &mut Model, res: &mut [Option<(u8, f64)>; 4]) {
    let mut l = StatisticsLogger::new(stat);
    for r in 0..runs.len() {
        let mut s = St { best: any_best(), iteration: 0 };
        l.start(&s);
        l.resume(&s);
        for i in 0..runs[r] {
            s = St { best: any_best(), iteration: i + 1 };
            m[r][i] = s.best;
            l.next_iteration(&s);
        }
        l.finish(&s);
        res[r] = s.best;
    }
}
fn check(stat: &Statistics<u8>, runs: &[usize], m: &Model, res: &[Option<(u8, f64)>; 4], from: usize) {
    for r in 0..runs.len() {
        assert!(same_solution(&stat.get_results()[from + r], &res[r]), "result of a run");
        let c = &stat.get_convergence()[from + r];
        assert!(c.len() == runs[r], "one entry per iteration");
        for i in 0..runs[r] {
            assert!(same_solution(&c[i], &m[r][i]), "entry of an iteration");
        }
    }
}
fn statistics(a: &[usize], b: &[usize]) {
    let (mut m1, mut r1): (Model, _) = ([[None; 4]; 4], [None; 4]);
    let (mut m2, mut r2): (Model, _) = ([[None; 4]; 4], [None; 4]);
    let mut s = Statistics::new();
    let mut t = Statistics::new();
    record(&mut s, a, &mut m1, &mut r1);
    assert!(s.get_run_count() == a.len() && s.get_results().len() == a.len(), "one result per run");
    assert!(s.get_convergence().len() == a.len(), "one convergence per run");
    check(&s, a, &m1, &r1, 0);
    record(&mut t, b, &mut m2, &mut r2);
    s.unite(t);
    assert!(s.get_run_count() == a.len() + b.len(), "united results");
    assert!(s.get_results().len() == a.len() + b.len(), "united results");
    assert!(s.get_convergence().len() == a.len() + b.len(), "united convergence");
    check(&s, a, &m1, &r1, 0);
    check(&s, b, &m2, &r2, a.len());
    reach!("end");
}

struct G;
impl Goal<u8> for G {
    fn get(&mut self, x: &u8) -> f64 {
        val(*x as usize)
    }
}

/// Runs with the given numbers of goal calls, each begun with `next_run`.
fn calls(runs: &[usize]) {
    any_vals(4);
    let mut data = CallCountData::new();
    assert!(data.get_call_count().is_empty() && data.get_average_call_count().is_none());
    let mut g = G;
    for r in 0..runs.len() {
        data.next_run();
        let mut s = GoalCalcStatistics::new(&mut g, &mut data);
        for _ in 0..runs[r] {
            let x = nd::u8();
            nd::assume(x < 4);
            assert!(s.get(&x).to_bits() == val(x as usize).to_bits(), "the goal is passed on");
        }
    }
    check_counts(&data, runs);
    reach!("end");
}
fn check_counts(data: &CallCountData, runs: &[usize]) {
    let c = data.get_call_count();
    assert!(c.len() == runs.len(), "one counter per run");
    let mut sum = 0;
    for r in 0..runs.len() {
        assert!(c[r] == runs[r], "the number of calls of a run");
        sum += runs[r];
    }
    match data.get_average_call_count() {
        None => assert!(runs.is_empty(), "no average"),
        Some(a) => {
            let d = a * runs.len() as f64 - sum as f64;
            assert!(d < 1e-6 && d > -1e-6, "the average number of calls");
        }
    }
}
/// Symbolic numbers of calls; the first run begins without `next_run`; union.
fn counters() {
    let mut n = [0usize; 4];
    for k in 0..4 {
        n[k] = (nd::u8() & 15) as usize;
    }
    let mut a = CallCountData::new();
    a.add(n[0]);
    a.increment();
    a.next_run();
    a.add(n[1]);
    let mut b = CallCountData::new();
    b.next_run();
    b.next_run();
    b.increment();
    b.add(n[2]);
    b.add(n[3]);
    check_counts(&a, &[n[0] + 1, n[1]]);
    check_counts(&b, &[0, 1 + n[2] + n[3]]);
    a.unite(b);
    check_counts(&a, &[n[0] + 1, n[1], 0, 1 + n[2] + n[3]]);
    reach!("end");
}

// The statistics of a real optimizer: particle swarm, one particle, symbolic goal values.
mod real {
    use super::*;
    use optlib::particleswarm::initializing::ZeroVelocityInitializer;
    use optlib::particleswarm::*;
    use optlib::tools::stopchecker::MaxIterations;
    use optlib::Optimizer;

    struct One;
    impl CoordinatesInitializer<f64> for One {
        fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
            vec![vec![1.0]]
        }
    }
    struct Step;
    impl VelocityCalculator<f64> for Step {
        fn calc_new_velocity(&mut self, _s: &Swarm<f64>, _p: &Particle<f64>) -> Vec<f64> {
            vec![1.0]
        }
    }
    nd::state! {
        NCALL: usize = 0;
    }
    struct Gv;
    impl Goal<Vec<f64>> for Gv {
        fn get(&mut self, _x: &Vec<f64>) -> f64 {
            unsafe {
                NCALL.v += 1;
                val(NCALL.v - 1)
            }
        }
    }
    pub fn swarm(iterations: usize, runs: usize) {
        any_vals((iterations + 1) * runs);
        let mut stat = Statistics::new();
        let mut count = CallCountData::new();
        let mut results = [None, None, None];
        for r in 0..runs {
            count.next_run();
            let mut g = Gv;
            let mut o = ParticleSwarmOptimizer::new(
                Box::new(GoalCalcStatistics::new(&mut g, &mut count)),
                Box::new(MaxIterations::new(iterations)),
                Box::new(One),
                Box::new(ZeroVelocityInitializer::new(1, 1)),
                Box::new(Step),
            );
            o.set_loggers(vec![Box::new(StatisticsLogger::new(&mut stat))]);
            results[r] = o.find_min().map(|(x, g)| (x[0], g));
        }
        assert!(stat.get_run_count() == runs && stat.get_convergence().len() == runs);
        let calls = count.get_call_count();
        assert!(calls.len() == runs);
        for r in 0..runs {
            assert!(calls[r] == iterations + 1, "calls of a run");
            assert!(stat.get_convergence()[r].len() == iterations, "entries of a run");
            match (&stat.get_results()[r], &results[r]) {
                (Some(a), Some(b)) => {
                    assert!(a.0[0] == b.0 && same(a.1, b.1), "the recorded result is the returned one")
                }
                _ => panic!("no result"),
            }
            // entry i is the best of the first i + 2 points of the run (finite goal values only)
            for i in 0..iterations {
                let e = stat.get_convergence()[r][i].as_ref().unwrap().1;
                for k in 0..i + 2 {
                    let v = val(r * (iterations + 1) + k);
                    assert!(!v.is_finite() || e <= v, "entry of an iteration");
                }
            }
        }
        reach!("end");
    }
}

harnesses! {
    #[kani::unwind(6)]
    fn q_stat_none() { statistics(&[], &[1]) }
    #[kani::unwind(6)]
    fn q_stat_2() { statistics(&[2, 1], &[]) }
    #[kani::unwind(6)]
    fn q_stat_3() { statistics(&[1, 0, 2], &[3]) }
    #[kani::unwind(6)]
    fn q_unite() { statistics(&[1], &[2, 0]) }
    #[kani::unwind(6)]
    fn q_calls() { calls(&[2, 0, 3]) }
    #[kani::unwind(6)]
    fn q_counters() { counters() }
    #[kani::unwind(8)]
    fn q_swarm() { real::swarm(2, 2) }
    #[kani::unwind(14)]
    fn t_swarm() { real::swarm(3, 3) }
    #[kani::unwind(8)]
    fn t_stat() { statistics(&[3, 2, 0, 1], &[2, 3]) }
}
