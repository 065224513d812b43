//! C13: vector operators work gene by gene.
use crate::common::*;
use optlib::genetic::cross::VecCrossAllGenes;
use optlib::genetic::mutation::VecMutation;
use optlib::genetic::{Cross, Mutation};

nd::state! {
    CALLS: usize = 0;
    A: [u8; 4] = [0; 4];
    B: [u8; 4] = [0; 4];
    R: [u8; 4] = [0; 4];
}

struct C1;
impl Cross<u8> for C1 {
    fn cross(&mut self, p: &[&u8]) -> Vec<u8> {
        assert!(p.len() == 2, "two parents");
        unsafe {
            let k = CALLS.v;
            CALLS.v += 1;
            assert!(k < 4, "one crossing per gene");
            A.v[k] = *p[0];
            B.v[k] = *p[1];
            R.v[k] = nd::u8();
            vec![R.v[k]]
        }
    }
}

fn cross(n: usize) {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    for _ in 0..n {
        a.push(nd::u8());
        b.push(nd::u8());
    }
    let r = VecCrossAllGenes::new(Box::new(C1)).cross(&[&a, &b]);
    assert!(r.len() == 1, "exactly one child");
    assert!(r[0].len() == n, "a child of the same length");
    unsafe {
        assert!(CALLS.v == n, "one crossing per gene");
        for i in 0..n {
            assert!(A.v[i] == a[i] && B.v[i] == b[i], "the parents' genes, in order");
            assert!(r[0][i] == R.v[i], "the crossed gene at its place");
        }
    }
    reach!("end");
}

struct M1;
impl Mutation<u8> for M1 {
    fn mutation(&mut self, g: &u8) -> u8 {
        unsafe {
            let k = CALLS.v;
            CALLS.v += 1;
            assert!(k < 4, "at most one mutation per gene");
            A.v[k] = *g;
            R.v[k] = nd::u8();
            R.v[k]
        }
    }
}

/// Genes carry their index, so that every call of the single-gene operator can be attributed.
fn mutate(n: usize, prob: f64, all: bool, none: bool) -> [bool; 4] {
    let mut v = Vec::new();
    for i in 0..n {
        let g = nd::u8();
        nd::assume(g as usize % 4 == i);
        v.push(g);
    }
    unsafe { CALLS.v = 0 }
    let r = VecMutation::new(prob, Box::new(M1)).mutation(&v);
    assert!(r.len() == n, "the length is kept");
    let mut was = [false; 4];
    unsafe {
        let mut attributed = 0;
        for i in 0..n {
            let mut hits = 0;
            let mut result = v[i];
            for k in 0..4 {
                if k < CALLS.v && A.v[k] == v[i] {
                    hits += 1;
                    result = R.v[k];
                }
            }
            assert!(hits <= 1, "a gene is mutated at most once");
            assert!(r[i] == result, "the gene itself or its mutation");
            assert!(!all || hits == 1, "probability 100 mutates every gene");
            assert!(!none || hits == 0, "probability 0 mutates no gene");
            attributed += hits;
            was[i] = hits == 1;
        }
        assert!(attributed == CALLS.v, "only the genes themselves are mutated");
    }
    reach!("end");
    was
}

/// For a probability strictly between 1 and 99 a gene may be mutated and may be kept: exactly one
/// of the two ends of the random range mutates it.
fn both_possible() {
    let p = nd::f64();
    nd::assume(p >= 1.0 && p <= 99.0);
    nd::set_draw_mode(1);
    let low = mutate(2, p, false, false);
    nd::set_draw_mode(2);
    let high = mutate(2, p, false, false);
    assert!(low[0] != high[0] && low[1] != high[1], "the probability is not taken into account");
}

/// Genes are decided independently: all combinations occur.
fn independent() {
    let w = mutate(2, 50.0, false, false);
    assert!(nd::draw_count() >= 2, "one random decision per gene");
    reach!(w[0] && !w[1], "first only");
    reach!(!w[0] && w[1], "second only");
}

fn any_prob() -> f64 {
    let p = nd::f64();
    nd::assume(p >= 0.0 && p <= 100.0);
    p
}

harnesses! {
    #[kani::unwind(6)]
    fn q_cross_0() { cross(0) }
    #[kani::unwind(6)]
    fn q_cross_1() { cross(1) }
    #[kani::unwind(6)]
    fn q_cross_3() { cross(3) }
    #[kani::unwind(6)]
    fn q_mutate_0() { mutate(3, 0.0, false, true); }
    #[kani::unwind(6)]
    fn q_mutate_100() { mutate(3, 100.0, true, false); }
    #[kani::unwind(6)]
    fn q_mutate_empty() { mutate(0, any_prob(), false, false); }
    #[kani::unwind(6)]
    fn q_mutate_any() { mutate(3, any_prob(), false, false); }
    #[kani::unwind(6)]
    fn q_both_possible() { both_possible() }
    #[kani::unwind(6)]
    fn q_independent() { independent() }
    #[kani::unwind(6)]
    fn t_cross_4() { cross(4) }
    #[kani::unwind(6)]
    fn t_mutate_4() { mutate(4, any_prob(), false, false); }
}
