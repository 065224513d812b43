//! C33: the agents shown to user-supplied parts are exactly the evaluated points.
use crate::common::*;
use optlib::genetic::*;
use optlib::particleswarm::{
    CoordinatesInitializer, Particle, ParticleSwarmOptimizer, Swarm, VelocityCalculator, VelocityInitializer,
};
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

const IDS: usize = 16;
nd::state! {
    NEXT: usize = 0;
    X: [u64; IDS] = [0; IDS];           // the point with this number
    F: [f64; IDS] = [0.0; IDS];         // its goal value
    THERE: [bool; IDS] = [false; IDS];  // it belongs to the population
    DEAD: [bool; IDS] = [false; IDS];
    START: usize = 0;
    BIRTHS: usize = 0;                  // newborn in a generation
    KILLS: [u32; 4] = [0; 4];           // positions killed by the two selections, alternating
    GEN: usize = 0;
}

#[derive(Clone)]
struct Ch {
    id: usize,
    x: u64,
}
fn fresh() -> Ch {
    unsafe {
        let id = NEXT.v;
        NEXT.v += 1;
        X.v[id] = nd::u64();
        Ch { id, x: X.v[id] }
    }
}
fn goal(c: &Ch) -> f64 {
    unsafe {
        F.v[c.id] = nd::f64();
        THERE.v[c.id] = true;
        F.v[c.id]
    }
}
fn right(c: &Ch, g: f64, alive: bool) {
    unsafe {
        assert!(THERE.v[c.id] && c.x == X.v[c.id], "an agent sits at the point that was evaluated");
        assert!(g.to_bits() == F.v[c.id].to_bits(), "an agent shows the goal value of its point");
        assert!(alive != DEAD.v[c.id], "an agent is alive until it is killed");
    }
}
/// Every view of the population agrees with the model.
fn look(p: &Population<Ch>) {
    unsafe {
        let (mut n, mut alive) = (0, 0);
        for id in 0..NEXT.v {
            n += THERE.v[id] as usize;
            alive += (THERE.v[id] && !DEAD.v[id]) as usize;
        }
        assert!(p.len() == n, "the number of individuals");
        assert!(p.len_alive() == alive, "the number of live individuals");
        let agents = p.get_agents();
        assert!(agents.len() == n, "every individual is listed once");
        let mut seen = [false; IDS];
        for i in 0..n {
            let c = agents[i].get_parameter();
            assert!(!seen[c.id], "every individual is listed once");
            seen[c.id] = true;
            right(c, agents[i].get_goal(), agents[i].is_alive());
            assert!(p[i].get_chromosomes().id == c.id, "the order of the indices");
            right(p[i].get_parameter(), p[i].get_goal(), p[i].is_alive());
            right(p[i].get_chromosomes(), p[i].get_fitness(), p[i].is_alive());
        }
        let mut k = 0;
        for a in p.iter() {
            assert!(k < n && a.get_parameter().id == p[k].get_parameter().id, "the order of the indices");
            right(a.get_parameter(), a.get_goal(), a.is_alive());
            k += 1;
        }
        assert!(k == n, "the iterator visits every individual");
    }
}
struct Cr;
impl Creator<Ch> for Cr {
    fn create(&mut self) -> Vec<Ch> {
        let mut v = Vec::new();
        for _ in 0..unsafe { START.v } {
            v.push(fresh());
        }
        v
    }
}
struct Pr;
impl Pairing<Ch> for Pr {
    fn get_pairs(&mut self, p: &Population<Ch>) -> Vec<Vec<usize>> {
        look(p);
        if p.len() == 0 {
            return vec![];
        }
        vec![vec![0]]
    }
}
struct Cx;
impl Cross<Ch> for Cx {
    fn cross(&mut self, _p: &[&Ch]) -> Vec<Ch> {
        let mut v = Vec::new();
        for _ in 0..unsafe { BIRTHS.v } {
            v.push(fresh());
        }
        v
    }
}
struct Mu;
impl Mutation<Ch> for Mu {
    fn mutation(&mut self, c: &Ch) -> Ch {
        c.clone()
    }
}
struct Pb;
impl PreBirth<Ch> for Pb {
    fn pre_birth(&mut self, p: &Population<Ch>, _l: &mut Vec<Ch>) {
        look(p)
    }
}
/// The first selection kills through indices, the second through the iterator.
struct Sel(usize);
impl Selection<Ch> for Sel {
    fn kill(&mut self, p: &mut Population<Ch>) {
        unsafe {
            look(p);
            let mask = KILLS.v[2 * (GEN.v % 2) + self.0];
            if self.0 == 0 {
                for i in 0..p.len() {
                    if mask >> i & 1 == 1 {
                        DEAD.v[p[i].get_chromosomes().id] = true;
                        p[i].kill();
                    }
                }
            } else {
                let mut i = 0;
                for a in p.iter_mut() {
                    right(a.get_parameter(), a.get_goal(), a.is_alive());
                    if mask >> i & 1 == 1 {
                        DEAD.v[a.get_chromosomes().id] = true;
                        a.kill();
                    }
                    i += 1;
                }
                assert!(i == p.len(), "the mutable iterator visits every individual");
            }
            look(p);
            if self.0 == 1 {
                GEN.v += 1;
                for id in 0..NEXT.v {
                    THERE.v[id] = THERE.v[id] && !DEAD.v[id];
                }
            }
        }
    }
}
fn genetic(start: usize, births: usize, kills: [u32; 4], generations: usize) {
    unsafe {
        START.v = start;
        BIRTHS.v = births;
        KILLS.v = kills;
    }
    let mut o = GeneticOptimizer::new(
        Box::new(GoalFromFunction::new(goal)),
        Box::new(MaxIterations::new(generations)),
        Box::new(Cr),
        Box::new(Pr),
        Box::new(Cx),
        Box::new(Mu),
        vec![Box::new(Sel(0)), Box::new(Sel(1))],
        vec![Box::new(Pb)],
    );
    o.find_min();
    unsafe { assert!(GEN.v == generations) }
    reach!("end");
}

mod pso {
    use super::*;
    const P: usize = 3;
    const D: usize = 2;
    nd::state! {
        SIZE: usize = 0;
        DIMS: usize = 0;
        POS: [[f64; D]; P] = [[0.0; D]; P];
        GOAL: [f64; P] = [0.0; P];
        EVALS: usize = 0;
        MOVES: usize = 0;
    }
    fn eq(a: f64, b: f64) -> bool {
        a == b || (a.is_nan() && b.is_nan())
    }
    fn any() -> Vec<f64> {
        let mut v = Vec::new();
        for _ in 0..unsafe { DIMS.v } {
            v.push(nd::f64());
        }
        v
    }
    fn goal(x: &Vec<f64>) -> f64 {
        unsafe {
            let i = EVALS.v % SIZE.v;
            EVALS.v += 1;
            assert!(x.len() == DIMS.v);
            for d in 0..DIMS.v {
                POS.v[i][d] = x[d];
            }
            GOAL.v[i] = nd::f64();
            GOAL.v[i]
        }
    }
    struct Cr;
    impl CoordinatesInitializer<f64> for Cr {
        fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
            unsafe {
                let mut v = Vec::new();
                for _ in 0..SIZE.v {
                    v.push(any());
                }
                v
            }
        }
    }
    struct Vl;
    impl VelocityInitializer<f64> for Vl {
        fn get_velocity(&mut self) -> Vec<Vec<f64>> {
            let mut v = Vec::new();
            for _ in 0..unsafe { SIZE.v } {
                v.push(any());
            }
            v
        }
    }
    struct Calc;
    impl VelocityCalculator<f64> for Calc {
        fn calc_new_velocity(&mut self, s: &Swarm<f64>, p: &Particle<f64>) -> Vec<f64> {
            unsafe {
                let me = MOVES.v % SIZE.v;
                MOVES.v += 1;
                assert!(s.len() == SIZE.v, "the number of particles");
                let agents = s.get_agents();
                assert!(agents.len() == SIZE.v, "every particle is listed once");
                for n in 0..SIZE.v {
                    let x = agents[n].get_parameter();
                    assert!(x.len() == DIMS.v);
                    for d in 0..DIMS.v {
                        assert!(eq(x[d], POS.v[n][d]), "a particle sits where it was evaluated last");
                    }
                    assert!(eq(agents[n].get_goal(), GOAL.v[n]), "a particle shows the goal value of its point");
                }
                for d in 0..DIMS.v {
                    assert!(eq(p.get_parameter()[d], POS.v[me][d]), "the particle to move is listed");
                }
                assert!(eq(p.get_goal(), GOAL.v[me]), "the particle to move shows its goal value");
                any()
            }
        }
    }
    pub fn run(size: usize, dims: usize, iterations: usize) {
        unsafe {
            SIZE.v = size;
            DIMS.v = dims;
            DIM.v = dims;
        }
        let mut o = ParticleSwarmOptimizer::new(
            Box::new(GoalFromFunction::new(goal)),
            Box::new(MaxIterations::new(iterations)),
            Box::new(Cr),
            Box::new(Vl),
            Box::new(Calc),
        );
        o.find_min();
        unsafe { assert!(MOVES.v == size * iterations) }
        reach!("end");
    }
}

harnesses! {
    #[kani::unwind(18)]
    fn q_ga_one() { genetic(1, 0, [0; 4], 2) }
    #[kani::unwind(18)]
    fn q_ga_two() { genetic(2, 1, [0b001, 0b000, 0b000, 0b010], 2) }
    #[kani::unwind(18)]
    fn q_ga_three() { genetic(3, 1, [0b0000, 0b1001, 0b0001, 0], 2) }
    #[kani::unwind(18)]
    fn q_ga_twins() { genetic(2, 2, [0b0110, 0b0001, 0, 0], 1) }
    #[kani::unwind(18)]
    fn q_ga_dying() { genetic(2, 0, [0b01, 0b10, 0, 0], 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_1d2() { pso::run(1, 2, 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_2d1() { pso::run(2, 1, 2) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn q_pso_3d1() { pso::run(3, 1, 1) }
    #[kani::unwind(6)]
    #[kani::stub(<[f64]>::to_vec_in, crate::common::Tv::tv)]
    fn t_pso_2d2() { pso::run(2, 2, 2) }
    #[kani::unwind(24)]
    fn t_ga_long() { genetic(3, 1, [0b0001, 0b0000, 0b0000, 0b0010], 3) }
}
