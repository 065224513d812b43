//! Which positions attract a particle (C16, C17): the goal values are symbolic, the positions are
//! concrete, distinct elements of the field F7, and all random numbers have their highest value, so
//! that the velocity returned by the real rule tells which position it was pulled to.
use crate::common::*;
use crate::f7::F7;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

const P: usize = 3;
const T: usize = 5;
nd::state! {
    SIZE: usize = 0;
    GOALS: [[f64; P]; T] = [[0.0; P]; T];    // of particle n after t moves
    OLD: [F7; P] = [F7(0); P];               // current velocity
    MOVES: usize = 0;
    CALLS: usize = 0;
}
fn tag(t: usize, n: usize) -> F7 {
    unsafe { F7(((t * SIZE.v + n) % 7) as u8) }
}
struct Cr;
impl CoordinatesInitializer<F7> for Cr {
    fn get_coordinates(&mut self) -> Vec<Vec<F7>> {
        let mut v = Vec::new();
        for n in 0..unsafe { SIZE.v } {
            v.push(vec![tag(0, n)]);
        }
        v
    }
}
struct Vl;
impl VelocityInitializer<F7> for Vl {
    fn get_velocity(&mut self) -> Vec<Vec<F7>> {
        let mut v = Vec::new();
        for _ in 0..unsafe { SIZE.v } {
            v.push(vec![F7(0)]);
        }
        v
    }
}
struct G;
impl Goal<Vec<F7>> for G {
    fn get(&mut self, x: &Vec<F7>) -> f64 {
        unsafe {
            let (t, n) = (CALLS.v / SIZE.v, CALLS.v % SIZE.v);
            CALLS.v += 1;
            assert!(x[0] == tag(t, n));
            GOALS.v[t][n]
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Whose {
    Own,
    Now,
    All,
}
struct Calc {
    real: Box<dyn VelocityCalculator<F7>>,
    whose: Whose,
    worst: bool,
}
impl VelocityCalculator<F7> for Calc {
    fn calc_new_velocity(&mut self, s: &Swarm<F7>, p: &Particle<F7>) -> Vec<F7> {
        unsafe {
            let (t, n) = (MOVES.v / SIZE.v, MOVES.v % SIZE.v);
            MOVES.v += 1;
            nd::reset_draws();
            let v = self.real.calc_new_velocity(s, p);
            let r = F7::image(f64::from_bits(nd::draw(0)));
            let x = tag(t, n);
            // pulled to (or pushed from) a position with the smallest (largest) goal value
            let mut best = GOALS.v[t][n];
            for i in 0..T {
                for k in 0..SIZE.v {
                    if counts(self.whose, t, n, i, k) {
                        let g = GOALS.v[i][k];
                        if if self.worst { g > best } else { g < best } {
                            best = g;
                        }
                    }
                }
            }
            let mut hit = false;
            for i in 0..T {
                for k in 0..SIZE.v {
                    if counts(self.whose, t, n, i, k) && GOALS.v[i][k] == best {
                        let pull = r * (tag(i, k) - x);
                        let e = if self.worst { OLD.v[n] - pull } else { OLD.v[n] + pull };
                        hit = hit || v[0] == e;
                    }
                }
            }
            assert!(hit, "the position that attracts or repels");
            OLD.v[n] = tag(t + 1, n) - x;
            vec![OLD.v[n]]
        }
    }
}
/// Does the position of particle `k` after `i` moves count when particle `n` makes move `t`?
fn counts(whose: Whose, t: usize, n: usize, i: usize, k: usize) -> bool {
    match whose {
        Whose::Own => k == n && i <= t,
        // the particles before this one have already moved in this iteration
        Whose::Now => i == if k < n { t + 1 } else { t },
        Whose::All => i <= t,
    }
}
pub fn run(real: Box<dyn VelocityCalculator<F7>>, whose: Whose, worst: bool, size: usize, moves: usize) {
    unsafe {
        nd::set_draw_mode(2);
        DIM.v = 1;
        SIZE.v = size;
        for t in 0..moves + 1 {
            for n in 0..size {
                let g = nd::f64();
                nd::assume(g.is_finite());
                GOALS.v[t][n] = g;
            }
        }
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(G),
            Box::new(MaxIterations::new(moves)),
            Box::new(Cr),
            Box::new(Vl),
            Box::new(Calc { real, whose, worst }),
        );
        o.find_min();
        assert!(MOVES.v == moves * size);
        reach!("all moves checked");
    }
}
pub fn classic(personal: bool, size: usize, moves: usize) {
    let (a, b) = if personal { (F7(1), F7(0)) } else { (F7(0), F7(1)) };
    let whose = if personal { Whose::Own } else { Whose::All };
    run(Box::new(ClassicVelocityCalculator::new(a, b)), whose, false, size, moves);
}
/// `k`: which of the six attractors.
pub fn negative(k: usize, size: usize, moves: usize) {
    let mut p = [F7(0); 6];
    p[k] = F7(1);
    let whose = [Whose::Own, Whose::Now, Whose::All][k % 3];
    let real = NegativeReinforcement::new(p[0], p[1], p[2], p[3], p[4], p[5], F7(1));
    run(Box::new(real), whose, k > 2, size, moves);
}
