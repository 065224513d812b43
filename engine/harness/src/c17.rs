//! C17: the velocity rule with negative reinforcement.
use crate::common::*;
use crate::f7::F7;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

// Positions and velocities are arbitrary elements of the field F7, the goal values are concrete,
// so that it is concrete which point is the best of a particle and of the swarm.
const P: usize = 3;
const D: usize = 2;
const T: usize = 4;
nd::state! {
    SIZE: usize = 0;
    DIMS: usize = 0;
    GOALS: [[f64; P]; T] = [[0.0; P]; T];    // of particle n after t moves
    POS: [[[F7; D]; P]; T] = [[[F7(0); D]; P]; T];
    VEL: [[F7; D]; P] = [[F7(0); D]; P];     // current velocity
    MOVES: usize = 0;
    CALLS: usize = 0;
    PHI: [F7; 6] = [F7(0); 6];
    XI: F7 = F7(0);
}
fn vector(v: &[F7; D]) -> Vec<F7> {
    unsafe {
        let mut r = Vec::new();
        for d in 0..DIMS.v {
            r.push(v[d]);
        }
        r
    }
}
fn any() -> [F7; D] {
    let mut v = [F7(0); D];
    for d in 0..D {
        v[d] = F7::any();
    }
    v
}
struct Cr;
impl CoordinatesInitializer<F7> for Cr {
    fn get_coordinates(&mut self) -> Vec<Vec<F7>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                POS.v[0][n] = any();
                v.push(vector(&POS.v[0][n]));
            }
            v
        }
    }
}
struct Vl;
impl VelocityInitializer<F7> for Vl {
    fn get_velocity(&mut self) -> Vec<Vec<F7>> {
        unsafe {
            let mut v = Vec::new();
            for n in 0..SIZE.v {
                VEL.v[n] = any();
                v.push(vector(&VEL.v[n]));
            }
            v
        }
    }
}
struct G;
impl Goal<Vec<F7>> for G {
    fn get(&mut self, x: &Vec<F7>) -> f64 {
        unsafe {
            let (t, n) = (CALLS.v / SIZE.v, CALLS.v % SIZE.v);
            CALLS.v += 1;
            for d in 0..DIMS.v {
                POS.v[t][n][d] = x[d];
            }
            GOALS.v[t][n]
        }
    }
}
/// Moves before number `from` are arbitrary, then the real rule is called, checked, and the run ends.
struct Calc {
    real: Box<dyn VelocityCalculator<F7>>,
    from: usize,
}
impl VelocityCalculator<F7> for Calc {
    fn calc_new_velocity(&mut self, s: &Swarm<F7>, p: &Particle<F7>) -> Vec<F7> {
        unsafe {
            let (t, n) = (MOVES.v / SIZE.v, MOVES.v % SIZE.v);
            let old = VEL.v[n];
            if MOVES.v < self.from {
                VEL.v[n] = any();
            } else {
                nd::reset_draws();
                let v = self.real.calc_new_velocity(s, p);
                assert!(v.len() == DIMS.v, "the dimension of the velocity");
                check(t, n, &old, &v);
                reach!("checked");
                stop_here();
            }
            MOVES.v += 1;
            vector(&VEL.v[n])
        }
    }
}
/// The point (iteration, particle) with the smallest (largest) goal value.
#[derive(Clone, Copy)]
struct At(usize, usize);
fn extreme(points: &[At], largest: bool) -> At {
    let mut e = points[0];
    unsafe {
        for p in points {
            let (g, h) = (GOALS.v[p.0][p.1], GOALS.v[e.0][e.1]);
            if (largest && g > h) || (!largest && g < h) {
                e = *p;
            }
        }
    }
    e
}
/// Rotates a set of elements of F7 (bits) by `k`: adds k to each.
fn shift(set: u8, k: F7) -> u8 {
    let k = k.0 as u16;
    (((set as u16) << k | (set as u16) >> (7 - k)) & 127) as u8
}
fn bits(m: usize) -> usize {
    (m & 1) + (m >> 1 & 1) + (m >> 2 & 1)
}
fn check(t: usize, n: usize, old: &[F7; D], v: &Vec<F7>) {
    unsafe {
        let mut own = Vec::new();
        let mut now = Vec::new();
        let mut all = Vec::new();
        for i in 0..t + 1 {
            own.push(At(i, n));
            for k in 0..SIZE.v {
                all.push(At(i, k));
            }
        }
        for k in 0..SIZE.v {
            // the particles before this one have already moved in this iteration
            now.push(At(if k < n { t + 1 } else { t }, k));
        }
        let points = [
            extreme(&own, false),
            extreme(&now, false),
            extreme(&all, false),
            extreme(&own, true),
            extreme(&now, true),
            extreme(&all, true),
        ];
        let dims = DIMS.v;
        assert!(nd::draw_count() == 6 * dims, "six random numbers per dimension");
        if nd::draw_mode() == 2 {
            // all random numbers have their highest value: the sum of all terms
            for d in 0..dims {
                let x = POS.v[t][n][d];
                let r = F7::image(f64::from_bits(nd::draw(0)));
                let mut e = old[d];
                for k in 0..6 {
                    let q = PHI.v[k] * r * (POS.v[points[k].0][points[k].1][d] - x);
                    e = if k < 3 { e + q } else { e - q };
                }
                assert!(v[d] == XI.v * e, "the equation of the velocity");
            }
            return;
        }
        let mut ok = [true; 2];
        for d in 0..dims {
            let x = POS.v[t][n][d];
            for layout in 0..2 {
                // which random number belongs to which term is up to the implementation: the sums
                // over all assignments, by sets of numbers used up
                let mut term = [[F7(0); 6]; 6];
                for j in 0..6 {
                    let r = f64::from_bits(nd::draw(if layout == 0 { 6 * d + j } else { dims * j + d }));
                    assert!(0.0 <= r && r <= 1.0, "random numbers in [0, 1]");
                    let r = F7::image(r);
                    for k in 0..6 {
                        let q = PHI.v[k] * r * (POS.v[points[k].0][points[k].1][d] - x);
                        term[k][j] = if k < 3 { q } else { -q };
                    }
                }
                let mut sums = [0u8; 64];
                sums[0] = shift(1, old[d]);
                for h in 0..8usize {
                    for l in 0..8usize {
                        let m = 8 * h + l;
                        if m == 0 {
                            continue;
                        }
                        let k = bits(h) + bits(l) - 1;
                        for j in 0..6 {
                            if m >> j & 1 == 1 {
                                sums[m] |= shift(sums[m & !(1 << j)], term[k][j]);
                            }
                        }
                    }
                }
                let mut hit = false;
                for s in 0..7 {
                    hit = hit || (sums[63] >> s & 1 == 1 && XI.v * F7(s) == v[d]);
                }
                ok[layout] = ok[layout] && hit;
                if dims == 1 {
                    break;
                }
            }
        }
        assert!(ok[0] || (dims > 1 && ok[1]), "the equation of the velocity");
    }
}
fn run(size: usize, dims: usize, goals: &[[f64; P]], from: usize, mode: u8) {
    unsafe {
        nd::set_draw_mode(mode);
        DIM.v = dims;
        DIMS.v = dims;
        SIZE.v = size;
        for t in 0..goals.len() {
            GOALS.v[t] = goals[t];
        }
        for k in 0..6 {
            PHI.v[k] = F7::any();
        }
        XI.v = F7::any();
        let p = PHI.v;
        let real = Box::new(NegativeReinforcement::new(p[0], p[1], p[2], p[3], p[4], p[5], XI.v));
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(G),
            Box::new(MaxIterations::new(goals.len())),
            Box::new(Cr),
            Box::new(Vl),
            Box::new(Calc { real, from }),
        );
        o.find_min();
    }
}

// One row per iteration: the goal values before its moves.
// Particle 0 in iteration 1: all six points differ.
const SIX: [[f64; P]; 2] = [[5.0, 1.0, 9.0], [6.0, 3.0, 7.0]];
// Particle 1 in iteration 1, after particle 0 has moved.
const MOVED: [[f64; P]; 3] = [[1.0, 5.0, 9.0], [4.0, 6.0, 5.5], [2.0, 0.0, 0.0]];
const ONE: [[f64; P]; 2] = [[2.0, 3.0, 0.0], [1.0, 0.0, 0.0]];
const TWO: [[f64; P]; 2] = [[2.0, 5.0, 0.0], [3.0, 4.0, 0.0]];
// Particle 1 in iteration 2, after particle 0 has moved.
const LONG: [[f64; P]; 4] = [[1.0, 5.0, 9.0], [4.0, 2.0, 5.5], [3.0, 4.5, 8.0], [7.0, 0.0, 0.0]];

harnesses! {
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_six() { run(3, 1, &SIX, 3, 0) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_moved() { run(3, 1, &MOVED, 4, 0) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_first() { run(2, 1, &ONE, 1, 0) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_top_d2() { run(2, 2, &TWO, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_six_d2() { run(3, 2, &SIX, 3, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_long() { run(3, 1, &LONG, 7, 0) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_d2() { run(1, 2, &ONE, 1, 0) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_own_best() { crate::attract::negative(0, 1, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_own_best_22() { crate::attract::negative(0, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_now_best() { crate::attract::negative(1, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_all_best() { crate::attract::negative(2, 1, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_all_best_22() { crate::attract::negative(2, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_own_worst() { crate::attract::negative(3, 1, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_own_worst_22() { crate::attract::negative(3, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_now_worst() { crate::attract::negative(4, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pull_all_worst() { crate::attract::negative(5, 1, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_all_worst_22() { crate::attract::negative(5, 2, 2) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_own_best() { crate::attract::negative(0, 2, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_now_best() { crate::attract::negative(1, 2, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_all_best() { crate::attract::negative(2, 2, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_own_worst() { crate::attract::negative(3, 2, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_now_worst() { crate::attract::negative(4, 2, 3) }
    #[kani::unwind(10)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pull_all_worst() { crate::attract::negative(5, 2, 3) }
}
