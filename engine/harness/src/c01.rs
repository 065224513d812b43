//! C01: the genetic optimizer's reported best/worst is the true extremum of the generation.
use crate::common::*;
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::*;
use optlib::*;

// Scenario: `N` start individuals; in generation g `CH[g]` children are born, then the
// individuals whose position bit is set in `KILL[g]` are killed.
nd::state! {
    N: usize = 0;
    CH: [usize; 3] = [0; 3];
    KILL: [u32; 3] = [0; 3];
    LIVE: [usize; 8] = [0; 8];
    LEN: usize = 0;
    GEN: usize = 0;
    NEXT_ID: usize = 0;
}

struct G;
impl Goal<usize> for G {
    fn get(&mut self, x: &usize) -> f64 {
        val(*x)
    }
}
struct Cr;
impl Creator<usize> for Cr {
    fn create(&mut self) -> Vec<usize> {
        unsafe {
            let mut v = Vec::new();
            for i in 0..N.v {
                v.push(i);
                LIVE.v[i] = i;
            }
            LEN.v = N.v;
            NEXT_ID.v = N.v;
            GEN.v = 0;
            v
        }
    }
}
/// The individual with the given chromosome is the minimum (maximum) of the model population.
fn check_best(x: usize, g: f64) {
    unsafe {
        let mut found = false;
        for i in 0..LEN.v {
            found = found || LIVE.v[i] == x;
            assert!(!better(val(LIVE.v[i]), g), "a better individual is in the generation");
        }
        assert!(found, "the best individual is in the generation");
        assert!(same(val(x), g), "the reported goal is the goal of the point");
    }
}
fn check_worst(x: usize, g: f64) {
    unsafe {
        let mut found = false;
        for i in 0..LEN.v {
            found = found || LIVE.v[i] == x;
            assert!(!(val(LIVE.v[i]) > g), "a worse individual is in the generation");
            assert!(!g.is_nan() || val(LIVE.v[i]).is_nan(), "NaN is reported as the worst value");
        }
        assert!(found, "the worst individual is in the generation");
        assert!(same(val(x), g), "the reported goal is the goal of the point");
    }
}
fn check_pop(p: &Population<usize>) {
    unsafe {
        if GEN.v > 0 && LEN.v > 0 {
            match p.get_best() {
                Some(b) => check_best(*b.get_chromosomes(), b.get_fitness()),
                None => panic!("no best individual in a non-empty generation"),
            }
            match p.get_worst() {
                Some(b) => check_worst(*b.get_chromosomes(), b.get_fitness()),
                None => panic!("no worst individual in a non-empty generation"),
            }
        }
    }
}
struct Pr;
impl Pairing<usize> for Pr {
    fn get_pairs(&mut self, p: &Population<usize>) -> Vec<Vec<usize>> {
        check_pop(p);
        let mut v = Vec::new();
        unsafe {
            if LEN.v > 0 {
                for _ in 0..CH.v[GEN.v] {
                    v.push(vec![0]);
                }
            }
        }
        v
    }
}
struct Crs;
impl Cross<usize> for Crs {
    fn cross(&mut self, _p: &[&usize]) -> Vec<usize> {
        unsafe {
            LIVE.v[LEN.v] = NEXT_ID.v;
            LEN.v += 1;
            NEXT_ID.v += 1;
            vec![NEXT_ID.v - 1]
        }
    }
}
struct NoMut;
impl Mutation<usize> for NoMut {
    fn mutation(&mut self, c: &usize) -> usize {
        *c
    }
}
struct Sel;
impl Selection<usize> for Sel {
    fn kill(&mut self, p: &mut Population<usize>) {
        unsafe {
            let mask = KILL.v[GEN.v];
            let mut j = 0;
            for i in 0..LEN.v {
                if mask >> i & 1 == 1 {
                    p[i].kill();
                } else {
                    LIVE.v[j] = LIVE.v[i];
                    j += 1;
                }
            }
            LEN.v = j;
            GEN.v += 1;
        }
    }
}
struct Lg;
impl Logger<usize> for Lg {
    fn next_iteration(&mut self, s: &dyn AlgorithmState<usize>) {
        unsafe {
            if LEN.v > 0 {
                match s.get_best_solution() {
                    Some((x, g)) => check_best(x, g),
                    None => panic!("no best solution in a non-empty generation"),
                }
            }
        }
    }
}
fn run(n: usize, gens: usize, children: [usize; 3], kill: [u32; 3]) {
    any_vals(n + children[0] + children[1] + children[2]);
    unsafe {
        N.v = n;
        for i in 0..3 {
            CH.v[i] = children[i];
            KILL.v[i] = kill[i];
        }
    }
    let mut o = GeneticOptimizer::new(
        Box::new(G),
        Box::new(MaxIterations::new(gens)),
        Box::new(Cr),
        Box::new(Pr),
        Box::new(Crs),
        Box::new(NoMut),
        vec![Box::new(Sel)],
        vec![],
    );
    o.set_loggers(vec![Box::new(Lg)]);
    let r = o.find_min();
    unsafe {
        if LEN.v > 0 {
            match r {
                Some((x, g)) => check_best(x, g),
                None => panic!("find_min found nothing"),
            }
        }
    }
    reach!("end");
}

harnesses! {
    #[kani::unwind(8)]
    fn q_31() { run(3, 1, [1, 0, 0], [0b0010, 0, 0]) }
    #[kani::unwind(8)]
    fn q_32() { run(3, 2, [1, 1, 0], [0b0010, 0b0001, 0]) }
    #[kani::unwind(8)]
    fn t_33() { run(3, 3, [1, 1, 1], [0b0010, 0b0001, 0b1000]) }
}
