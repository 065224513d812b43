//! C06: particles move by their corrected velocity and are evaluated where they land.
use crate::common::*;
use optlib::particleswarm::postmove::MoveToBoundary;
use optlib::particleswarm::velocitycalc::ClassicVelocityCalculator;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

const P: usize = 3;
const D: usize = 2;
nd::state! {
    SIZE: usize = 0;
    DIMS: usize = 0;
    NCORR: usize = 0;              // velocity corrections
    NPOST: usize = 0;              // position corrections
    POS: [[f64; D]; P] = [[0.0; D]; P];   // where the particles are
    GOAL: [f64; P] = [0.0; P];
    // the move under way
    WHO: usize = 0;
    MOVES: usize = 0;              // moves begun
    INIT: bool = false;            // the initial points are being made
    STAGE: usize = 0;              // velocity corrections done
    POST: usize = 0;               // position corrections done
    V: [f64; D] = [0.0; D];        // the velocity so far
    X: [f64; D] = [0.0; D];        // the position so far
    CORRECTED: [usize; P] = [0; P];       // of the initial points
    EVALS: usize = 0;
    VEL: [[f64; D]; P] = [[0.0; D]; P];   // the velocities
    GRID: bool = false;            // coordinates and velocities are small integers
    LO: [f64; D] = [0.0; D];
    HI: [f64; D] = [0.0; D];
}

fn eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn vector(v: &[f64; D]) -> Vec<f64> {
    unsafe {
        let mut r = Vec::new();
        for d in 0..DIMS.v {
            r.push(v[d]);
        }
        r
    }
}
fn any1() -> f64 {
    unsafe {
        if GRID.v {
            nd::i8() as f64
        } else {
            nd::f64()
        }
    }
}
fn any() -> [f64; D] {
    let mut v = [0.0; D];
    for d in 0..D {
        v[d] = any1();
    }
    v
}
struct Cr;
impl CoordinatesInitializer<f64> for Cr {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                POS.v[n] = any();
                v.push(vector(&POS.v[n]));
            }
            INIT.v = true;
            v
        }
    }
}
struct Vl;
impl VelocityInitializer<f64> for Vl {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        unsafe {
            let mut v = Vec::new();
            for _ in 0..SIZE.v {
                v.push(vector(&any()));
            }
            v
        }
    }
}
struct Calc;
impl VelocityCalculator<f64> for Calc {
    fn calc_new_velocity(&mut self, _s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> {
        unsafe {
            if MOVES.v == 0 {
                INIT.v = false;
                assert!(EVALS.v == SIZE.v, "every initial point is evaluated once");
            }
            assert!(EVALS.v == SIZE.v + MOVES.v, "every move ends with one evaluation");
            WHO.v = MOVES.v % SIZE.v;
            MOVES.v += 1;
            for d in 0..DIMS.v {
                assert!(eq(p.get_parameter()[d], POS.v[WHO.v][d]), "the particle is where it landed");
            }
            assert!(eq(p.get_goal(), GOAL.v[WHO.v]), "the particle has the goal value of its position");
            V.v = any();
            STAGE.v = 0;
            POST.v = 0;
            vector(&V.v)
        }
    }
}
struct Corr(usize);
impl PostVelocityCalc<f64> for Corr {
    fn correct_velocity(&mut self, v: Vec<f64>) -> Vec<f64> {
        unsafe {
            assert!(!INIT.v && STAGE.v == self.0 && POST.v == 0, "velocity corrections once and in order");
            STAGE.v += 1;
            assert!(v.len() == DIMS.v);
            for d in 0..DIMS.v {
                assert!(eq(v[d], V.v[d]), "the velocity left by the previous correction");
            }
            V.v = any();
            vector(&V.v)
        }
    }
}
/// The position before the position corrections.
fn expect_position() {
    unsafe {
        if POST.v == 0 {
            assert!(STAGE.v == NCORR.v, "all velocity corrections");
            for d in 0..DIMS.v {
                X.v[d] = POS.v[WHO.v][d] + V.v[d];
            }
        }
    }
}
struct Post(usize);
impl PostMove<f64> for Post {
    fn post_move(&mut self, x: &mut Vec<f64>) {
        unsafe {
            assert!(x.len() == DIMS.v);
            if INIT.v {
                // which initial point is told by the order: all corrections of point 0 first
                let mut n = 0;
                while n < SIZE.v && CORRECTED.v[n] == NPOST.v {
                    n += 1;
                }
                assert!(n < SIZE.v && CORRECTED.v[n] == self.0, "position corrections once and in order");
                assert!(EVALS.v <= n, "an initial point is corrected before it is evaluated");
                CORRECTED.v[n] += 1;
                for d in 0..DIMS.v {
                    assert!(eq(x[d], POS.v[n][d]), "the position left by the previous correction");
                    POS.v[n][d] = any1();
                    x[d] = POS.v[n][d];
                }
                return;
            }
            expect_position();
            assert!(POST.v == self.0, "position corrections once and in order");
            POST.v += 1;
            for d in 0..DIMS.v {
                assert!(eq(x[d], X.v[d]), "old position plus velocity, corrected");
                X.v[d] = any1();
                x[d] = X.v[d];
            }
        }
    }
}
struct G;
impl Goal<Vec<f64>> for G {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        unsafe {
            assert!(x.len() == DIMS.v);
            if INIT.v {
                let n = EVALS.v;
                assert!(n < SIZE.v && CORRECTED.v[n] == NPOST.v, "an initial point is corrected, then evaluated");
                for d in 0..DIMS.v {
                    assert!(eq(x[d], POS.v[n][d]), "the corrected initial point is evaluated");
                }
                EVALS.v += 1;
                GOAL.v[n] = nd::f64();
                return GOAL.v[n];
            }
            expect_position();
            assert!(POST.v == NPOST.v, "all position corrections");
            assert!(EVALS.v + 1 == SIZE.v + MOVES.v, "one evaluation per move");
            EVALS.v += 1;
            for d in 0..DIMS.v {
                assert!(eq(x[d], X.v[d]), "the goal function is called at the new position");
            }
            POS.v[WHO.v] = X.v;
            GOAL.v[WHO.v] = nd::f64();
            GOAL.v[WHO.v]
        }
    }
}
fn run(size: usize, dims: usize, iterations: usize, corr: usize, post: usize, grid: bool) {
    unsafe {
        GRID.v = grid;
        DIM.v = dims;
        DIMS.v = dims;
        SIZE.v = size;
        NCORR.v = corr;
        NPOST.v = post;
    }
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(G),
        Box::new(MaxIterations::new(iterations)),
        Box::new(Cr),
        Box::new(Vl),
        Box::new(Calc),
    );
    let mut c: Vec<Box<dyn PostVelocityCalc<f64>>> = vec![];
    for k in 0..corr {
        c.push(Box::new(Corr(k)));
    }
    o.set_post_velocity_calc(c);
    let mut m: Vec<Box<dyn PostMove<f64>>> = vec![];
    for k in 0..post {
        m.push(Box::new(Post(k)));
    }
    o.set_post_moves(m);
    o.find_min();
    unsafe {
        assert!(MOVES.v == size * iterations, "every particle moves once per iteration");
        assert!(EVALS.v == size * (iterations + 1), "every position is evaluated once");
    }
    reach!("end");
}

/// The goal function of a swarm with the real boundary correction.
struct Inside;
impl Goal<Vec<f64>> for Inside {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        unsafe {
            assert!(x.len() == DIMS.v);
            for d in 0..DIMS.v {
                assert!(x[d].is_finite() && LO.v[d] <= x[d] && x[d] <= HI.v[d], "a point outside its interval");
            }
            EVALS.v += 1;
        }
        nd::f64()
    }
}
struct Wild;
impl VelocityCalculator<f64> for Wild {
    fn calc_new_velocity(&mut self, _s: &Swarm<f64>, _p: &Particle<f64>) -> Vec<f64> {
        vector(&any())
    }
}
fn boundary(size: usize, dims: usize, iterations: usize) {
    let mut b = Vec::new();
    unsafe {
        DIM.v = dims;
        DIMS.v = dims;
        SIZE.v = size;
        for d in 0..dims {
            let (lo, hi) = (nd::f64(), nd::f64());
            nd::assume(lo.is_finite() && hi.is_finite() && lo < hi);
            LO.v[d] = lo;
            HI.v[d] = hi;
            b.push((lo, hi));
        }
    }
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(Inside),
        Box::new(MaxIterations::new(iterations)),
        Box::new(Cr),
        Box::new(Vl),
        Box::new(Wild),
    );
    o.set_post_moves(vec![Box::new(MoveToBoundary::new(b))]);
    o.find_min();
    unsafe { assert!(EVALS.v == size * (iterations + 1)) }
    reach!("end");
}

/// With the classic rule without attraction the new velocity is the old one, before corrections.
struct Keep(usize);
impl PostVelocityCalc<f64> for Keep {
    fn correct_velocity(&mut self, v: Vec<f64>) -> Vec<f64> {
        unsafe {
            assert!(v.len() == DIMS.v);
            let n = self.0;
            self.0 = (n + 1) % SIZE.v;
            for d in 0..DIMS.v {
                assert!(eq(v[d], VEL.v[n][d]), "the corrected velocity is the velocity of the particle");
            }
            VEL.v[n] = any();
            MOVES.v += 1;
            vector(&VEL.v[n])
        }
    }
}
struct Known;
impl VelocityInitializer<f64> for Known {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                VEL.v[n] = any();
                v.push(vector(&VEL.v[n]));
            }
            v
        }
    }
}
struct Any;
impl Goal<Vec<f64>> for Any {
    fn get(&mut self, _x: &Vec<f64>) -> f64 {
        nd::i8() as f64
    }
}
fn momentum(size: usize, dims: usize, iterations: usize) {
    unsafe {
        GRID.v = true;
        DIM.v = dims;
        DIMS.v = dims;
        SIZE.v = size;
    }
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(Any),
        Box::new(MaxIterations::new(iterations)),
        Box::new(Cr),
        Box::new(Known),
        Box::new(ClassicVelocityCalculator::new(0.0, 0.0)),
    );
    o.set_post_velocity_calc(vec![Box::new(Keep(0))]);
    o.find_min();
    unsafe { assert!(MOVES.v == size * iterations, "every particle moves once per iteration") }
    reach!("end");
}

harnesses! {
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_momentum_1d2() { momentum(1, 2, 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_momentum_2d1() { momentum(2, 1, 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_wild_1d1() { run(1, 1, 1, 1, 1, false) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_1d2() { run(1, 2, 2, 2, 2, true) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_2d1() { run(2, 1, 2, 1, 0, true) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_2d1_post() { run(2, 1, 1, 0, 2, true) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_boundary_1d2() { boundary(1, 2, 1) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_boundary_2d1() { boundary(2, 1, 1) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_2d2() { run(2, 2, 2, 2, 2, true) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_3d1() { run(3, 1, 2, 1, 1, true) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_wild_1d2() { run(1, 2, 2, 2, 2, false) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_wild_2d1() { run(2, 1, 2, 1, 0, false) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_boundary_2d1() { boundary(2, 1, 2) }
}
