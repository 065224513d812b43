//! C32: replaced parts of an optimizer take effect at once and the run goes on.
use crate::common::*;
use optlib::genetic::*;
use optlib::particleswarm::{
    CoordinatesInitializer, Particle, ParticleSwarmOptimizer, PostMove, PostVelocityCalc, Swarm, VelocityCalculator,
    VelocityInitializer,
};
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::*;

// The parts that can be replaced; every part knows which version it is and, in a list, its place.
const PAIRING: usize = 0;
const CROSS: usize = 1;
const MUTATION: usize = 2;
const PRE_BIRTH: usize = 3;
const SELECTION: usize = 4;
const STOP: usize = 5;
const LOGGER: usize = 6;
const VEL_CORR: usize = 7;
const POS_CORR: usize = 8;
const PARTS: usize = 9;
const LIST: usize = 3;

nd::state! {
    CUR: [u8; PARTS] = [0; PARTS];               // the version in use
    LEN: [usize; PARTS] = [0; PARTS];            // how many of them
    CALLS: [[usize; LIST]; PARTS] = [[0; LIST]; PARTS];   // uses in the current call
    BUSY: bool = false;             // a call of the optimizer is under way
    ITERS: usize = 0;               // iterations of the current call
    LIMIT: usize = 0;               // iterations to do in it
    DONE: usize = 0;                // iterations of the run
    SIZE: usize = 0;
    CREATES: usize = 0;
    EVALS: usize = 0;
    BORN: usize = 0;                // the number of initial individuals
    MEMBER: [bool; 16] = [false; 16];    // the individuals
    VALUE: [f64; 16] = [0.0; 16];   // the goal values of the individuals or particles
    NEXT: usize = 0;
    POS: [f64; 4] = [0.0; 4];       // the particles
}

fn used(part: usize, version: u8, place: usize) {
    unsafe {
        assert!(BUSY.v, "a part is used only while the optimizer runs");
        assert!(version == CUR.v[part], "a part that has been replaced is used");
        assert!(place < LEN.v[part]);
        for k in 0..if part == LOGGER { 0 } else { place } {
            assert!(CALLS.v[part][k] > CALLS.v[part][place], "the parts of a list are used in order");
        }
        CALLS.v[part][place] += 1;
    }
}
fn begin(limit: usize, fresh: bool) {
    unsafe {
        if fresh {
            DONE.v = 0;
        }
        CREATES.v = 0;
        CALLS.v = [[0; LIST]; PARTS];
        LIMIT.v = limit;
        ITERS.v = 0;
        EVALS.v = 0;
        BUSY.v = true;
    }
}
fn check(part: usize, n: usize) {
    unsafe {
        for k in 0..LEN.v[part] {
            assert!(CALLS.v[part][k] == n, "every part is used as often as the run demands");
        }
    }
}
fn put(part: usize, version: u8, n: usize) {
    unsafe {
        CUR.v[part] = version;
        LEN.v[part] = n;
    }
}
fn stop(version: u8, iteration: usize) -> bool {
    used(STOP, version, 0);
    unsafe {
        assert!(iteration == DONE.v, "the run goes on");
        ITERS.v >= LIMIT.v
    }
}

mod ga {
    use super::*;
    struct G;
    impl Goal<usize> for G {
        fn get(&mut self, x: &usize) -> f64 {
            unsafe {
                assert!(BUSY.v, "replacing a part evaluates nothing");
                let v = nd::f64();
                EVALS.v += 1;
                MEMBER.v[*x] = true;
                VALUE.v[*x] = v;
                if CREATES.v == 0 || EVALS.v > BORN.v {
                    // the newborn of an iteration
                    ITERS.v += 1;
                    DONE.v += 1;
                    if LEN.v[SELECTION] == 0 {
                        SIZE.v += 1;
                    }
                }
                v
            }
        }
    }
    struct Cr;
    impl Creator<usize> for Cr {
        fn create(&mut self) -> Vec<usize> {
            unsafe {
                assert!(BUSY.v, "replacing a part creates nothing");
                CREATES.v += 1;
                MEMBER.v = [false; 16];
                BORN.v = SIZE.v;
                let mut v = Vec::new();
                for _ in 0..SIZE.v {
                    NEXT.v += 1;
                    v.push(NEXT.v);
                }
                v
            }
        }
    }
    struct Pr(u8);
    impl Pairing<usize> for Pr {
        fn get_pairs(&mut self, p: &Population<usize>) -> Vec<Vec<usize>> {
            used(PAIRING, self.0, 0);
            unsafe {
                assert!(p.len() == SIZE.v && p.get_iteration() == DONE.v, "the run goes on");
                for i in 0..SIZE.v {
                    let id = *p[i].get_chromosomes();
                    assert!(MEMBER.v[id], "the individuals are kept");
                    assert!(same(p[i].get_fitness(), VALUE.v[id]), "the goal values are kept");
                }
            }
            vec![vec![0, 0]]
        }
    }
    struct Cx(u8);
    impl Cross<usize> for Cx {
        fn cross(&mut self, _p: &[&usize]) -> Vec<usize> {
            used(CROSS, self.0, 0);
            unsafe {
                NEXT.v += 1;
                vec![NEXT.v]
            }
        }
    }
    struct Mu(u8);
    impl Mutation<usize> for Mu {
        fn mutation(&mut self, c: &usize) -> usize {
            used(MUTATION, self.0, 0);
            *c
        }
    }
    struct Pb(u8, usize);
    impl PreBirth<usize> for Pb {
        fn pre_birth(&mut self, p: &Population<usize>, list: &mut Vec<usize>) {
            used(PRE_BIRTH, self.0, self.1);
            unsafe { assert!(list.len() == 1 && p.len() == SIZE.v) }
        }
    }
    struct Sel(u8, usize);
    impl Selection<usize> for Sel {
        fn kill(&mut self, p: &mut Population<usize>) {
            used(SELECTION, self.0, self.1);
            unsafe {
                assert!(p.len() == SIZE.v + 1, "parents and newborn");
                if self.1 + 1 == LEN.v[SELECTION] {
                    // the first individual makes place for the newborn
                    MEMBER.v[*p[0].get_chromosomes()] = false;
                    p[0].kill();
                }
            }
        }
    }
    struct Stop(u8);
    impl StopChecker<usize> for Stop {
        fn can_stop(&mut self, s: &dyn AlgorithmState<usize>) -> bool {
            stop(self.0, s.get_iteration())
        }
    }
    struct Lg(u8, usize);
    impl Logger<usize> for Lg {
        fn start(&mut self, _s: &dyn AlgorithmState<usize>) {
            used(LOGGER, self.0, self.1)
        }
        fn resume(&mut self, _s: &dyn AlgorithmState<usize>) {
            used(LOGGER, self.0, self.1)
        }
        fn next_iteration(&mut self, _s: &dyn AlgorithmState<usize>) {
            used(LOGGER, self.0, self.1)
        }
        fn finish(&mut self, _s: &dyn AlgorithmState<usize>) {
            used(LOGGER, self.0, self.1)
        }
    }
    fn filters(v: u8, n: usize) -> Vec<Box<dyn PreBirth<usize>>> {
        let mut l: Vec<Box<dyn PreBirth<usize>>> = vec![];
        for k in 0..n {
            l.push(Box::new(Pb(v, k)));
        }
        l
    }
    fn selections(v: u8, n: usize) -> Vec<Box<dyn Selection<usize>>> {
        let mut l: Vec<Box<dyn Selection<usize>>> = vec![];
        for k in 0..n {
            l.push(Box::new(Sel(v, k)));
        }
        l
    }
    fn loggers(v: u8, n: usize) -> Vec<Box<dyn Logger<usize>>> {
        let mut l: Vec<Box<dyn Logger<usize>>> = vec![];
        for k in 0..n {
            l.push(Box::new(Lg(v, k)));
        }
        l
    }
    fn call(o: &mut GeneticOptimizer<'static, usize>, find: bool, n: usize) {
        begin(n, find);
        let r = if find { o.find_min() } else { o.next_iterations() };
        unsafe {
            BUSY.v = false;
            assert!(CREATES.v == find as usize, "only find_min creates individuals");
            assert!(ITERS.v == n && EVALS.v == n + if find { BORN.v } else { 0 }, "one newborn in an iteration");
            for p in [PAIRING, CROSS, MUTATION, PRE_BIRTH, SELECTION] {
                check(p, n);
            }
            check(STOP, n + 1);
            check(LOGGER, n + 2 + find as usize);
            if DONE.v > 0 {
                let (x, g) = r.unwrap();
                assert!(MEMBER.v[x] && same(VALUE.v[x], g), "the result is one of the individuals");
            }
        }
    }
    /// One step: the part to replace, and the length of the new list.
    fn replace(o: &mut GeneticOptimizer<'static, usize>, part: usize, n: usize) {
        let v = unsafe { CUR.v[part] + 1 };
        put(part, v, n);
        match part {
            PAIRING => o.set_pairing(Box::new(Pr(v))),
            CROSS => o.set_cross(Box::new(Cx(v))),
            MUTATION => o.set_mutation(Box::new(Mu(v))),
            PRE_BIRTH => o.set_pre_birth(filters(v, n)),
            SELECTION => o.set_selection(selections(v, n)),
            STOP => o.set_stop_checker(Box::new(Stop(v))),
            _ => o.set_loggers(loggers(v, n)),
        }
    }
    pub fn run(size: usize, steps: &[&[(usize, usize)]], again: bool) {
        unsafe { SIZE.v = size }
        for p in [PAIRING, CROSS, MUTATION, STOP] {
            put(p, 0, 1);
        }
        put(PRE_BIRTH, 0, 1);
        put(SELECTION, 0, 1);
        put(LOGGER, 0, 1);
        let mut o = GeneticOptimizer::new(
            Box::new(G),
            Box::new(Stop(0)),
            Box::new(Cr),
            Box::new(Pr(0)),
            Box::new(Cx(0)),
            Box::new(Mu(0)),
            selections(0, 1),
            filters(0, 1),
        );
        o.set_loggers(loggers(0, 1));
        call(&mut o, true, 1);
        for s in steps {
            for (part, n) in *s {
                replace(&mut o, *part, *n);
            }
            call(&mut o, false, 1);
        }
        if again {
            call(&mut o, true, 1);
        }
        reach!("end");
    }
}

mod pso {
    use super::*;
    struct G;
    impl Goal<Vec<f64>> for G {
        fn get(&mut self, x: &Vec<f64>) -> f64 {
            unsafe {
                assert!(BUSY.v, "replacing a part evaluates nothing");
                assert!(x.len() == 1);
                let v = nd::f64();
                let i = EVALS.v % SIZE.v;
                EVALS.v += 1;
                assert!(x[0] == POS.v[i], "the particles stay where they are until they move");
                VALUE.v[i] = v;
                if EVALS.v % SIZE.v == 0 && (CREATES.v == 0 || EVALS.v > SIZE.v) {
                    ITERS.v += 1;
                    DONE.v += 1;
                }
                v
            }
        }
    }
    struct Cr;
    impl CoordinatesInitializer<f64> for Cr {
        fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
            unsafe {
                assert!(BUSY.v, "replacing a part creates nothing");
                CREATES.v += 1;
                let mut v = Vec::new();
                for i in 0..SIZE.v {
                    POS.v[i] = 8.0 * i as f64;
                    v.push(vec![POS.v[i]]);
                }
                v
            }
        }
    }
    struct Vl;
    impl VelocityInitializer<f64> for Vl {
        fn get_velocity(&mut self) -> Vec<Vec<f64>> {
            let mut v = Vec::new();
            for _ in 0..unsafe { SIZE.v } {
                v.push(vec![0.0]);
            }
            v
        }
    }
    struct Calc;
    impl VelocityCalculator<f64> for Calc {
        fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> {
            unsafe {
                let i = EVALS.v % SIZE.v;
                assert!(s.len() == SIZE.v && s.get_iteration() == DONE.v, "the run goes on");
                assert!(p.get_parameter()[0] == POS.v[i], "the particles are kept");
                assert!(same(p.get_goal(), VALUE.v[i]), "the goal values are kept");
                POS.v[i] += 1.0;
            }
            vec![1.0]
        }
    }
    struct Vc(u8, usize);
    impl PostVelocityCalc<f64> for Vc {
        fn correct_velocity(&mut self, v: Vec<f64>) -> Vec<f64> {
            used(VEL_CORR, self.0, self.1);
            unsafe { POS.v[EVALS.v % SIZE.v] += 1.0 }
            vec![v[0] + 1.0]
        }
    }
    struct Pc(u8, usize);
    impl PostMove<f64> for Pc {
        fn post_move(&mut self, x: &mut Vec<f64>) {
            used(POS_CORR, self.0, self.1);
            unsafe {
                // the initial points are corrected before the first of them is evaluated
                let i = if CREATES.v == 1 && EVALS.v == 0 { CALLS.v[POS_CORR][self.1] - 1 } else { EVALS.v % SIZE.v };
                POS.v[i] += 2.0;
            }
            x[0] += 2.0;
        }
    }
    struct Stop(u8);
    impl StopChecker<Vec<f64>> for Stop {
        fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool {
            stop(self.0, s.get_iteration())
        }
    }
    struct Lg(u8, usize);
    impl Logger<Vec<f64>> for Lg {
        fn start(&mut self, _s: &dyn AlgorithmState<Vec<f64>>) {
            used(LOGGER, self.0, self.1)
        }
        fn resume(&mut self, _s: &dyn AlgorithmState<Vec<f64>>) {
            used(LOGGER, self.0, self.1)
        }
        fn next_iteration(&mut self, _s: &dyn AlgorithmState<Vec<f64>>) {
            used(LOGGER, self.0, self.1)
        }
        fn finish(&mut self, _s: &dyn AlgorithmState<Vec<f64>>) {
            used(LOGGER, self.0, self.1)
        }
    }
    fn call(o: &mut ParticleSwarmOptimizer<'static, f64>, find: bool, n: usize) {
        begin(n, find);
        if find {
            o.find_min();
        } else {
            o.next_iterations();
        }
        unsafe {
            BUSY.v = false;
            assert!(CREATES.v == find as usize, "only find_min creates particles");
            assert!(ITERS.v == n && EVALS.v == SIZE.v * (n + find as usize), "one evaluation per move");
            check(VEL_CORR, n * SIZE.v);
            check(POS_CORR, (n + find as usize) * SIZE.v);
            check(STOP, n + 1);
            check(LOGGER, n + 2 + find as usize);
        }
    }
    fn replace(o: &mut ParticleSwarmOptimizer<'static, f64>, part: usize, n: usize) {
        let v = unsafe { CUR.v[part] + 1 };
        put(part, v, n);
        match part {
            STOP => o.set_stop_checker(Box::new(Stop(v))),
            LOGGER => {
                let mut l: Vec<Box<dyn Logger<Vec<f64>>>> = vec![];
                for k in 0..n {
                    l.push(Box::new(Lg(v, k)));
                }
                o.set_loggers(l)
            }
            VEL_CORR => {
                let mut l: Vec<Box<dyn PostVelocityCalc<f64>>> = vec![];
                for k in 0..n {
                    l.push(Box::new(Vc(v, k)));
                }
                o.set_post_velocity_calc(l)
            }
            _ => {
                let mut l: Vec<Box<dyn PostMove<f64>>> = vec![];
                for k in 0..n {
                    l.push(Box::new(Pc(v, k)));
                }
                o.set_post_moves(l)
            }
        }
    }
    pub fn run(size: usize, steps: &[&[(usize, usize)]], again: bool) {
        unsafe { SIZE.v = size }
        put(STOP, 0, 1);
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(G),
            Box::new(Stop(0)),
            Box::new(Cr),
            Box::new(Vl),
            Box::new(Calc),
        );
        replace(&mut o, LOGGER, 1);
        replace(&mut o, VEL_CORR, 1);
        replace(&mut o, POS_CORR, 1);
        call(&mut o, true, 1);
        for s in steps {
            for (part, n) in *s {
                replace(&mut o, *part, *n);
            }
            call(&mut o, false, 1);
        }
        if again {
            call(&mut o, true, 1);
        }
        reach!("end");
    }
}

harnesses! {
    #[kani::unwind(10)]
    fn q_ga_operators() { ga::run(1, &[&[(PAIRING, 1)], &[(CROSS, 1)], &[(MUTATION, 1)], &[(STOP, 1)]], false) }
    #[kani::unwind(10)]
    fn q_ga_lists() { ga::run(1, &[&[(PRE_BIRTH, 2)], &[(SELECTION, 2)], &[(LOGGER, 2)]], true) }
    #[kani::unwind(10)]
    fn q_ga_shorter() { ga::run(2, &[&[(PRE_BIRTH, 0), (SELECTION, 1), (LOGGER, 0)], &[(PRE_BIRTH, 1), (LOGGER, 1)]], false) }
    #[kani::unwind(10)]
    fn q_ga_immortal() { ga::run(1, &[&[(SELECTION, 0), (LOGGER, 1)], &[(SELECTION, 1)]], false) }
    #[kani::unwind(10)]
    fn q_ga_all() {
        ga::run(1, &[&[(PAIRING, 1), (CROSS, 1), (MUTATION, 1), (PRE_BIRTH, 2), (SELECTION, 1), (STOP, 1), (LOGGER, 1)]], true)
    }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_parts() { pso::run(1, &[&[(STOP, 1)], &[(LOGGER, 2)], &[(VEL_CORR, 2)]], false) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_moves() { pso::run(1, &[&[(POS_CORR, 2)]], true) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_shorter() { pso::run(1, &[&[(VEL_CORR, 0), (POS_CORR, 0)], &[(VEL_CORR, 1), (POS_CORR, 1), (LOGGER, 0)]], false) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_all() { pso::run(2, &[&[(STOP, 1), (LOGGER, 1), (VEL_CORR, 2), (POS_CORR, 1)]], false) }
    #[kani::unwind(12)]
    fn t_ga_long() {
        ga::run(2, &[&[(PAIRING, 1), (LOGGER, 2)], &[(CROSS, 1), (PRE_BIRTH, 2)], &[(MUTATION, 1), (SELECTION, 2)],
                     &[(SELECTION, 1), (STOP, 1)], &[(PRE_BIRTH, 0)]], true)
    }
    #[kani::unwind(12)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pso_long() {
        pso::run(2, &[&[(STOP, 1), (LOGGER, 2)], &[(VEL_CORR, 2)], &[(POS_CORR, 2)]], true)
    }
}
