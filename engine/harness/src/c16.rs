//! C16: the classic, canonical and inertia velocity rules.
use crate::common::*;
use crate::f7::F7;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

// Positions and velocities are arbitrary elements of the field F7, the goal values are concrete,
// so that it is concrete which point is the best of a particle and of the swarm.
const P: usize = 3;
const D: usize = 2;
const T: usize = 4;
nd::state! {
    RULE: u8 = 0;
    SIZE: usize = 0;
    DIMS: usize = 0;
    GOALS: [[f64; P]; T] = [[0.0; P]; T];    // of particle n after t moves
    POS: [[[F7; D]; P]; T] = [[[F7(0); D]; P]; T];
    VEL: [[F7; D]; P] = [[F7(0); D]; P];     // current velocity
    MOVES: usize = 0;
    CALLS: usize = 0;
    A: F7 = F7(0);
    B: F7 = F7(0);
    XI: F7 = F7(0);
    W: [F7; T] = [F7(0); T];
    ASKED: usize = 0;
}
fn vector(v: &[F7; D]) -> Vec<F7> {
    unsafe {
        let mut r = Vec::new();
        for d in 0..DIMS.v {
            r.push(v[d]);
        }
        r
    }
}
fn any() -> [F7; D] {
    let mut v = [F7(0); D];
    for d in 0..D {
        v[d] = F7::any();
    }
    v
}
struct Cr;
impl CoordinatesInitializer<F7> for Cr {
    fn get_coordinates(&mut self) -> Vec<Vec<F7>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                POS.v[0][n] = any();
                v.push(vector(&POS.v[0][n]));
            }
            v
        }
    }
}
struct Vl;
impl VelocityInitializer<F7> for Vl {
    fn get_velocity(&mut self) -> Vec<Vec<F7>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                VEL.v[n] = any();
                v.push(vector(&VEL.v[n]));
            }
            v
        }
    }
}
struct G;
impl Goal<Vec<F7>> for G {
    fn get(&mut self, x: &Vec<F7>) -> f64 {
        unsafe {
            let (t, n) = (CALLS.v / SIZE.v, CALLS.v % SIZE.v);
            CALLS.v += 1;
            for d in 0..DIMS.v {
                POS.v[t][n][d] = x[d];
            }
            GOALS.v[t][n]
        }
    }
}
struct Inert;
impl Inertia<F7> for Inert {
    fn get(&mut self, iteration: usize) -> F7 {
        unsafe {
            assert!(iteration == MOVES.v / SIZE.v, "inertia is asked for the current iteration");
            ASKED.v += 1;
            W.v[iteration]
        }
    }
}
/// Moves before number `from` are arbitrary, then the real rule is called and checked.
struct Calc {
    real: Box<dyn VelocityCalculator<F7>>,
    from: usize,
}
impl VelocityCalculator<F7> for Calc {
    fn calc_new_velocity(&mut self, s: &Swarm<F7>, p: &Particle<F7>) -> Vec<F7> {
        unsafe {
            let (t, n) = (MOVES.v / SIZE.v, MOVES.v % SIZE.v);
            let old = VEL.v[n];
            if MOVES.v < self.from {
                VEL.v[n] = any();
            } else {
                nd::reset_draws();
                let v = self.real.calc_new_velocity(s, p);
                assert!(v.len() == DIMS.v, "the dimension of the velocity");
                check(t, n, &old, &v);
                for d in 0..DIMS.v {
                    VEL.v[n][d] = v[d];
                }
            }
            MOVES.v += 1;
            vector(&VEL.v[n])
        }
    }
}
fn check(t: usize, n: usize, old: &[F7; D], v: &Vec<F7>) {
    unsafe {
        // the best point of the particle, and of the swarm after t completed iterations
        let mut bp = 0;
        let (mut gt, mut gn) = (0, 0);
        for i in 0..t + 1 {
            if GOALS.v[i][n] < GOALS.v[bp][n] {
                bp = i;
            }
            for k in 0..SIZE.v {
                if GOALS.v[i][k] < GOALS.v[gt][gn] {
                    gt = i;
                    gn = k;
                }
            }
        }
        assert!(nd::draw_count() == 2 * DIMS.v, "two random numbers per dimension");
        // which number is which is up to the implementation: personal or global first, dimension
        // by dimension or one kind after the other
        let mut ok = [true; 4];
        for d in 0..DIMS.v {
            let x = POS.v[t][n][d];
            let w = if RULE.v == 2 { W.v[t] } else { F7(1) };
            for layout in 0..4 {
                let (i, j) = if layout < 2 { (2 * d, 2 * d + 1) } else { (d, DIMS.v + d) };
                let (i, j) = if layout % 2 == 0 { (i, j) } else { (j, i) };
                let (r, q) = (f64::from_bits(nd::draw(i)), f64::from_bits(nd::draw(j)));
                assert!(0.0 <= r && r <= 1.0 && 0.0 <= q && q <= 1.0, "random numbers in [0, 1]");
                let a = A.v * F7::image(r) * (POS.v[bp][n][d] - x);
                let b = B.v * F7::image(q) * (POS.v[gt][gn][d] - x);
                let e = w * old[d] + a + b;
                let e = if RULE.v == 1 { XI.v * e } else { e };
                ok[layout] = ok[layout] && v[d] == e;
            }
        }
        assert!(ok[0] || ok[1] || ok[2] || ok[3], "the equation of the velocity");
    }
}
fn run(rule: u8, size: usize, dims: usize, goals: &[[f64; P]], from: usize) {
    unsafe {
        RULE.v = rule;
        DIM.v = dims;
        DIMS.v = dims;
        SIZE.v = size;
        for t in 0..goals.len() {
            GOALS.v[t] = goals[t];
        }
        A.v = F7::any();
        B.v = F7::any();
        for t in 0..T {
            W.v[t] = F7::any();
        }
        let real: Box<dyn VelocityCalculator<F7>> = match rule {
            0 => Box::new(ClassicVelocityCalculator::new(A.v, B.v)),
            1 => {
                let alpha = F7::any();
                nd::assume((A.v + B.v - F7(2)).0 != 0);
                XI.v = F7(2) * alpha / (A.v + B.v - F7(2));
                Box::new(CanonicalVelocityCalculator::new(A.v, B.v, alpha))
            }
            _ => Box::new(InertiaVelocityCalculator::new(A.v, B.v, Box::new(Inert))),
        };
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(G),
            Box::new(MaxIterations::new(goals.len())),
            Box::new(Cr),
            Box::new(Vl),
            Box::new(Calc { real, from }),
        );
        o.find_min();
        assert!(MOVES.v == goals.len() * size);
        assert!(rule != 2 || ASKED.v > 0, "the inertia is asked");
    }
    reach!("end");
}

// One row per iteration: the goal values before its moves.
const SELF_OLD: [[f64; P]; 2] = [[2.0, 1.0, 9.0], [3.0, 4.0, 9.0]];   // own best is the old point
const SELF_NEW: [[f64; P]; 2] = [[5.0, 2.0, 9.0], [4.0, 3.0, 9.0]];   // own best is the new point
const BEST: [[f64; P]; 2] = [[5.0, 2.0, 9.0], [1.0, 3.0, 9.0]];       // particle 0 becomes the best

const LONG: [[f64; P]; 3] = [[5.0, 2.0, 9.0], [1.0, 3.0, 4.0], [6.0, 0.5, 7.0]];

/// Parameters without a valid constriction are refused.
fn q_rejected() {
    let (a, b, alpha) = (nd::f64(), nd::f64(), nd::f64());
    nd::assume(!(a + b > 4.0) || !(alpha > 0.0) || !(alpha < 1.0));
    reach!("refused");
    CanonicalVelocityCalculator::new(a, b, alpha);
    never!("never: a canonical rule without a valid constriction");
}

harnesses! {
    #[kani::unwind(4)]
    fn q_rejects() { q_rejected() }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_classic_old() { run(0, 2, 1, &SELF_OLD, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_classic_best() { run(0, 2, 1, &BEST, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_classic_d2() { run(0, 1, 2, &SELF_OLD, 1) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_classic_first() { run(0, 2, 2, &SELF_OLD[..1], 0) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_canonical_new() { run(1, 2, 1, &SELF_NEW, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_canonical_d2() { run(1, 1, 2, &SELF_OLD, 1) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_canonical_best() { run(1, 2, 1, &BEST, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_inertia_old() { run(2, 2, 1, &SELF_OLD, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_inertia_best() { run(2, 2, 1, &BEST, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_inertia_d2() { run(2, 1, 2, &SELF_OLD, 1) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_classic() { run(0, 3, 1, &LONG, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_canonical() { run(1, 3, 1, &LONG, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_inertia() { run(2, 3, 1, &LONG, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_classic_d2() { run(0, 2, 2, &SELF_OLD, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_canonical_d2() { run(1, 2, 2, &SELF_OLD, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_inertia_d2() { run(2, 2, 2, &SELF_OLD, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_personal() { crate::attract::classic(true, 1, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_personal_22() { crate::attract::classic(true, 2, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_global_22() { crate::attract::classic(false, 2, 2) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_global() { crate::attract::classic(false, 1, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_personal_2() { crate::attract::classic(true, 2, 3) }
    #[kani::unwind(8)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_global() { crate::attract::classic(false, 2, 3) }
}
