//! C02: a generation runs pairing, cross, mutation, pre-birth, birth and selection as a pipeline.
use crate::common::*;
use optlib::genetic::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::*;

// Every chromosome carries its concrete identity and a symbolic payload.
#[derive(Clone)]
struct Ch {
    id: usize,
    x: u64,
}
const IDS: usize = 40;
const MAXF: usize = 4;

/// What happens in one generation (concrete; the payloads and goal values are symbolic).
#[derive(Clone, Copy)]
struct Gen {
    families: &'static [&'static [usize]],
    children: &'static [usize],
    /// Per filter: positions of the list to remove (bits), number of new chromosomes to append.
    filters: &'static [(u32, usize)],
    /// Per selection: positions of the population to kill (bits).
    kills: &'static [u32],
}
const EMPTY: Gen = Gen { families: &[], children: &[], filters: &[], kills: &[] };

nd::state! {
    PLAN: [Gen; 4] = [EMPTY; 4];
    START: usize = 0;
    GEN: usize = 0;
    X: [u64; IDS] = [0; IDS];        // payload of every identity
    F: [f64; IDS] = [0.0; IDS];      // goal value it got
    EVALS: [u8; IDS] = [0; IDS];     // how often it was evaluated
    IN_POP: [bool; IDS] = [false; IDS];
    DEAD: [bool; IDS] = [false; IDS];
    NEXT: usize = 0;                 // next free identity
    // the current generation
    PARENT: [[usize; 4]; MAXF] = [[0; 4]; MAXF];
    PARENTS: [usize; MAXF] = [0; MAXF];
    FAM: usize = 0;                  // families crossed
    CHILD: [usize; 8] = [0; 8];
    CHILDREN: usize = 0;
    MUTATED: [u8; 8] = [0; 8];
    LIST: [usize; 8] = [0; 8];       // chromosomes to be born
    LISTED: usize = 0;
    FILTER: usize = 0;
    SELECTED: usize = 0;
    BORN: bool = false;
}

fn fresh() -> Ch {
    unsafe {
        let id = NEXT.v;
        assert!(id < IDS);
        NEXT.v += 1;
        X.v[id] = nd::u64();
        Ch { id, x: X.v[id] }
    }
}

struct G;
impl Goal<Ch> for G {
    fn get(&mut self, c: &Ch) -> f64 {
        unsafe {
            assert!(c.x == X.v[c.id], "the chromosomes evaluated are those handed over");
            assert!(EVALS.v[c.id] == 0, "an individual is evaluated twice");
            EVALS.v[c.id] += 1;
            F.v[c.id] = nd::f64();
            F.v[c.id]
        }
    }
}
struct Cr;
impl Creator<Ch> for Cr {
    fn create(&mut self) -> Vec<Ch> {
        let mut v = Vec::new();
        unsafe {
            for _ in 0..START.v {
                let c = fresh();
                IN_POP.v[c.id] = true;
                v.push(c);
            }
        }
        v
    }
}
/// The population consists of exactly the individuals of the model, each with its chromosomes,
/// its goal value and its state.
fn check_pop(p: &Population<Ch>) {
    unsafe {
        let mut n = 0;
        for id in 0..NEXT.v {
            n += IN_POP.v[id] as usize;
        }
        assert!(p.len() == n, "the number of individuals");
        let mut seen = [false; IDS];
        for i in 0..n {
            let c = p[i].get_chromosomes();
            assert!(IN_POP.v[c.id] && !seen[c.id], "an individual that should not be there");
            seen[c.id] = true;
            assert!(c.x == X.v[c.id], "an individual keeps its chromosomes");
            assert!(EVALS.v[c.id] == 1, "an individual has been evaluated once");
            assert!(p[i].get_fitness().to_bits() == F.v[c.id].to_bits(), "an individual keeps its goal value");
            assert!(p[i].is_alive() != DEAD.v[c.id], "an individual is alive exactly if no selection killed it");
        }
    }
}
struct Pr;
impl Pairing<Ch> for Pr {
    fn get_pairs(&mut self, p: &Population<Ch>) -> Vec<Vec<usize>> {
        unsafe {
            check_pop(p);
            assert!(FAM.v == 0 && CHILDREN.v == 0 && FILTER.v == 0, "pairing comes first and once");
            let plan = PLAN.v[GEN.v];
            let mut v = Vec::new();
            for f in 0..plan.families.len() {
                let mut w = Vec::new();
                for k in 0..plan.families[f].len() {
                    let i = plan.families[f][k];
                    PARENT.v[f][k] = p[i].get_chromosomes().id;
                    w.push(i);
                }
                PARENTS.v[f] = w.len();
                v.push(w);
            }
            v
        }
    }
}
struct Crs;
impl Cross<Ch> for Crs {
    fn cross(&mut self, parents: &[&Ch]) -> Vec<Ch> {
        unsafe {
            let f = FAM.v;
            assert!(f < PLAN.v[GEN.v].families.len(), "one cross per family");
            assert!(FILTER.v == 0, "cross comes before the filters");
            assert!(parents.len() == PARENTS.v[f], "all the members of the family");
            for k in 0..parents.len() {
                assert!(parents[k].id == PARENT.v[f][k] && parents[k].x == X.v[PARENT.v[f][k]],
                        "the parents in the order chosen by pairing");
            }
            FAM.v += 1;
            let mut v = Vec::new();
            for _ in 0..PLAN.v[GEN.v].children[f] {
                let c = fresh();
                CHILD.v[CHILDREN.v] = c.id;
                MUTATED.v[CHILDREN.v] = 0;
                CHILDREN.v += 1;
                v.push(c);
            }
            v
        }
    }
}
struct Mu;
impl Mutation<Ch> for Mu {
    fn mutation(&mut self, c: &Ch) -> Ch {
        unsafe {
            assert!(c.x == X.v[c.id], "mutation gets the child as it was born");
            let mut found = false;
            for k in 0..CHILDREN.v {
                if CHILD.v[k] == c.id {
                    found = true;
                    assert!(MUTATED.v[k] == 0, "a child is mutated twice");
                    MUTATED.v[k] = 1;
                }
            }
            assert!(found, "only children are mutated");
            assert!(FILTER.v == 0 && !BORN.v, "mutation comes before the filters");
            let m = fresh();
            LIST.v[LISTED.v] = m.id;
            LISTED.v += 1;
            m
        }
    }
}
fn all_mutated() {
    unsafe {
        assert!(FAM.v == PLAN.v[GEN.v].families.len(), "every family is crossed");
        for k in 0..CHILDREN.v {
            assert!(MUTATED.v[k] == 1, "every child is mutated");
        }
    }
}
struct Filter(usize);
impl PreBirth<Ch> for Filter {
    fn pre_birth(&mut self, p: &Population<Ch>, list: &mut Vec<Ch>) {
        unsafe {
            all_mutated();
            check_pop(p);
            assert!(FILTER.v == self.0, "the filters run once and in order");
            FILTER.v += 1;
            assert!(list.len() == LISTED.v, "the filter sees the list left by the previous one");
            for k in 0..LISTED.v {
                assert!(list[k].id == LIST.v[k] && list[k].x == X.v[LIST.v[k]],
                        "the filter sees the list left by the previous one");
            }
            let (remove, add) = PLAN.v[GEN.v].filters[self.0];
            let mut w = Vec::new();
            for k in 0..LISTED.v {
                if remove >> k & 1 == 0 {
                    w.push(Ch { id: LIST.v[k], x: X.v[LIST.v[k]] });
                }
            }
            for _ in 0..add {
                w.push(fresh());
            }
            LISTED.v = w.len();
            for k in 0..LISTED.v {
                LIST.v[k] = w[k].id;
            }
            *list = w;
        }
    }
}
struct Sel(usize, usize);
impl Selection<Ch> for Sel {
    fn kill(&mut self, p: &mut Population<Ch>) {
        unsafe {
            if self.0 == 0 {
                all_mutated();
                assert!(FILTER.v == self.1, "every filter has run");
                for k in 0..LISTED.v {
                    IN_POP.v[LIST.v[k]] = true;
                }
                BORN.v = true;
            }
            assert!(SELECTED.v == self.0 && BORN.v, "the selections run once and in order");
            SELECTED.v += 1;
            check_pop(p);
            let plan = PLAN.v[GEN.v];
            let mask = plan.kills[self.0];
            for i in 0..p.len() {
                if mask >> i & 1 == 1 {
                    DEAD.v[p[i].get_chromosomes().id] = true;
                    p[i].kill();
                }
            }
            if SELECTED.v == plan.kills.len() {
                // the end of the generation
                for id in 0..NEXT.v {
                    if DEAD.v[id] {
                        IN_POP.v[id] = false;
                    }
                }
                FAM.v = 0;
                CHILDREN.v = 0;
                LISTED.v = 0;
                FILTER.v = 0;
                SELECTED.v = 0;
                BORN.v = false;
                GEN.v += 1;
            }
        }
    }
}
/// Runs the plan and one more generation that only looks at the population left by it.
fn run(start: usize, plan: &[Gen], filters: usize, selections: usize) {
    unsafe {
        START.v = start;
        for g in 0..plan.len() {
            PLAN.v[g] = plan[g];
        }
        PLAN.v[plan.len()] = Gen { families: &[], children: &[], filters: &[(0, 0); 3], kills: &[0; 3] };
    }
    let mut s: Vec<Box<dyn Selection<Ch>>> = vec![];
    for k in 0..selections {
        s.push(Box::new(Sel(k, filters)));
    }
    let mut f: Vec<Box<dyn PreBirth<Ch>>> = vec![];
    for k in 0..filters {
        f.push(Box::new(Filter(k)));
    }
    let mut o = GeneticOptimizer::new(
        Box::new(G),
        Box::new(MaxIterations::new(plan.len() + 1)),
        Box::new(Cr),
        Box::new(Pr),
        Box::new(Crs),
        Box::new(Mu),
        s,
        f,
    );
    o.find_min();
    unsafe {
        assert!(GEN.v >= plan.len(), "every generation has run");
        // exactly the individuals that were born have been evaluated
        for id in 0..NEXT.v {
            assert!(EVALS.v[id] <= 1);
        }
    }
    reach!("end");
}

const A: Gen = Gen { families: &[&[2, 0]], children: &[1], filters: &[(0, 0)], kills: &[0b0010] };
const B: Gen = Gen { families: &[&[1, 2], &[0, 0]], children: &[1, 2], filters: &[(0b010, 1)], kills: &[0b00001] };
const C: Gen = Gen { families: &[&[0], &[1, 0, 1]], children: &[0, 2], filters: &[(0b01, 0), (0, 1)], kills: &[0b001, 0b100] };
const D: Gen = Gen { families: &[], children: &[], filters: &[(0, 1), (0b1, 0)], kills: &[0b01, 0b01] };
const E: Gen = Gen { families: &[&[0, 1]], children: &[2], filters: &[], kills: &[0b0101, 0b0001, 0b1000] };
const H: Gen = Gen { families: &[&[0, 0]], children: &[1], filters: &[], kills: &[0, 0, 0] };
// nobody is left after the first selection; a filter brings new life into the empty population
const K: Gen = Gen { families: &[&[1, 0]], children: &[1], filters: &[(0, 0)], kills: &[0b111, 0] };
const L: Gen = Gen { families: &[], children: &[], filters: &[(0, 2)], kills: &[0b01, 0] };

harnesses! {
    #[kani::unwind(16)]
    fn q_one() { run(3, &[A], 1, 1) }
    #[kani::unwind(16)]
    fn q_two() { run(3, &[A, B], 1, 1) }
    #[kani::unwind(16)]
    fn q_filters() { run(2, &[C, D], 2, 2) }
    #[kani::unwind(16)]
    fn q_selections() { run(2, &[E, H], 0, 3) }
    #[kani::unwind(16)]
    fn q_extinct() { run(2, &[K, L], 1, 2) }
    #[kani::unwind(24)]
    fn t_long() { run(3, &[A, B, A], 1, 1) }
    #[kani::unwind(24)]
    fn t_filters() { run(3, &[C, D, C], 2, 2) }
}
