//! C07: limiting the population kills exactly the worst individuals.
use crate::common::*;
use optlib::genetic::selection::*;
use optlib::genetic::*;

const M: usize = 6;

/// `was[i]`: alive before; checks what is left after at most `wanted` individuals may live.
fn check(p: &Population<usize>, n: usize, was: &[bool; M], wanted: usize) {
    assert!(p.len() == n, "selection must not change the population's length");
    let mut before = 0;
    let mut after = 0;
    for i in 0..n {
        assert!(*p[i].get_chromosomes() == i && same(p[i].get_fitness(), val(i)));
        assert!(was[i] || !p[i].is_alive(), "a dead individual was revived");
        before += was[i] as usize;
        after += p[i].is_alive() as usize;
    }
    assert!(after == if before < wanted { before } else { wanted }, "wrong number of survivors");
    for i in 0..n {
        for j in 0..n {
            if was[i] && !p[i].is_alive() && p[j].is_alive() {
                assert!(!better(val(i), val(j)), "a better individual was killed");
            }
        }
    }
    reach!("end");
}

fn bury(p: &mut Population<usize>, n: usize, mask: u8) -> [bool; M] {
    let mut was = [true; M];
    for i in 0..n {
        if mask >> i & 1 == 1 {
            p[i].kill();
            was[i] = false;
        }
    }
    was
}

fn limit(n: usize, mask: u8) {
    limit_to(n, mask, nd::usize())
}
fn limit_to(n: usize, mask: u8, max: usize) {
    any_population(n, move |p| {
        let was = bury(p, n, mask);
        LimitPopulation::new(max).kill(p);
        check(p, n, &was, max);
    });
}

/// The same through `set_limit`.
fn set_limit(n: usize, mask: u8) {
    let max = nd::usize();
    any_population(n, move |p| {
        let was = bury(p, n, mask);
        let mut l = LimitPopulation::new(nd::usize());
        l.set_limit(max);
        l.kill(p);
        check(p, n, &was, max);
    });
}

fn direct(n: usize, mask: u8) {
    direct_n(n, mask, nd::usize())
}
fn direct_n(n: usize, mask: u8, count: usize) {
    any_population(n, move |p| {
        let was = bury(p, n, mask);
        let alive = p.len_alive();
        nd::assume(count <= alive);
        kill_worst(p, count);
        check(p, n, &was, alive - count);
    });
}

// Number of individuals, dead mask and limit are concrete (the structure), the goal values symbolic.
harnesses! {
    #[kani::unwind(6)]
    fn q_limit_4_0000_0() { limit_to(4, 0, 0) }
    #[kani::unwind(6)]
    fn q_limit_4_0000_1() { limit_to(4, 0, 1) }
    #[kani::unwind(6)]
    fn q_limit_4_0000_2() { limit_to(4, 0, 2) }
    #[kani::unwind(6)]
    fn q_limit_4_0000_3() { limit_to(4, 0, 3) }
    #[kani::unwind(6)]
    fn q_limit_4_0000_4() { limit_to(4, 0, 4) }
    #[kani::unwind(6)]
    fn q_limit_4_0000_9() { limit_to(4, 0, 9) }
    #[kani::unwind(6)]
    fn q_limit_4_0001_1() { limit_to(4, 1, 1) }
    #[kani::unwind(6)]
    fn q_limit_4_0001_2() { limit_to(4, 1, 2) }
    #[kani::unwind(6)]
    fn q_limit_4_0010_2() { limit_to(4, 2, 2) }
    #[kani::unwind(6)]
    fn q_limit_4_0100_1() { limit_to(4, 4, 1) }
    #[kani::unwind(6)]
    fn q_limit_4_1000_2() { limit_to(4, 8, 2) }
    #[kani::unwind(6)]
    fn q_limit_4_0101_1() { limit_to(4, 5, 1) }
    #[kani::unwind(6)]
    fn q_limit_4_1010_1() { limit_to(4, 10, 1) }
    #[kani::unwind(6)]
    fn q_limit_4_1001_2() { limit_to(4, 9, 2) }
    #[kani::unwind(6)]
    fn q_limit_4_1111_1() { limit_to(4, 15, 1) }
    #[kani::unwind(7)]
    fn q_limit_5_00000_3() { limit_to(5, 0, 3) }
    #[kani::unwind(6)]
    fn t_limit_4_0001_0() { limit_to(4, 1, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0001_3() { limit_to(4, 1, 3) }
    #[kani::unwind(6)]
    fn t_limit_4_0010_0() { limit_to(4, 2, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0010_1() { limit_to(4, 2, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_0010_3() { limit_to(4, 2, 3) }
    #[kani::unwind(6)]
    fn t_limit_4_0011_0() { limit_to(4, 3, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0011_1() { limit_to(4, 3, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_0011_2() { limit_to(4, 3, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_0100_0() { limit_to(4, 4, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0100_2() { limit_to(4, 4, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_0100_3() { limit_to(4, 4, 3) }
    #[kani::unwind(6)]
    fn t_limit_4_0101_0() { limit_to(4, 5, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0101_2() { limit_to(4, 5, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_0110_0() { limit_to(4, 6, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0110_1() { limit_to(4, 6, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_0110_2() { limit_to(4, 6, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_0111_0() { limit_to(4, 7, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_0111_1() { limit_to(4, 7, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1000_0() { limit_to(4, 8, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1000_1() { limit_to(4, 8, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1000_3() { limit_to(4, 8, 3) }
    #[kani::unwind(6)]
    fn t_limit_4_1001_0() { limit_to(4, 9, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1001_1() { limit_to(4, 9, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1010_0() { limit_to(4, 10, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1010_2() { limit_to(4, 10, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_1011_0() { limit_to(4, 11, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1011_1() { limit_to(4, 11, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1100_0() { limit_to(4, 12, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1100_1() { limit_to(4, 12, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1100_2() { limit_to(4, 12, 2) }
    #[kani::unwind(6)]
    fn t_limit_4_1101_0() { limit_to(4, 13, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1101_1() { limit_to(4, 13, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1110_0() { limit_to(4, 14, 0) }
    #[kani::unwind(6)]
    fn t_limit_4_1110_1() { limit_to(4, 14, 1) }
    #[kani::unwind(6)]
    fn t_limit_4_1111_0() { limit_to(4, 15, 0) }
    #[kani::unwind(7)]
    fn t_limit_5_00000_1() { limit_to(5, 0, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_00000_2() { limit_to(5, 0, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_00000_4() { limit_to(5, 0, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_00001_1() { limit_to(5, 1, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_00001_2() { limit_to(5, 1, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_00001_3() { limit_to(5, 1, 3) }
    #[kani::unwind(7)]
    fn t_limit_5_00001_4() { limit_to(5, 1, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_00010_1() { limit_to(5, 2, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_00010_2() { limit_to(5, 2, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_00010_3() { limit_to(5, 2, 3) }
    #[kani::unwind(7)]
    fn t_limit_5_00010_4() { limit_to(5, 2, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_00100_1() { limit_to(5, 4, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_00100_2() { limit_to(5, 4, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_00100_3() { limit_to(5, 4, 3) }
    #[kani::unwind(7)]
    fn t_limit_5_00100_4() { limit_to(5, 4, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_01000_1() { limit_to(5, 8, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_01000_2() { limit_to(5, 8, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_01000_3() { limit_to(5, 8, 3) }
    #[kani::unwind(7)]
    fn t_limit_5_01000_4() { limit_to(5, 8, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_10000_1() { limit_to(5, 16, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_10000_2() { limit_to(5, 16, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_10000_3() { limit_to(5, 16, 3) }
    #[kani::unwind(7)]
    fn t_limit_5_10000_4() { limit_to(5, 16, 4) }
    #[kani::unwind(7)]
    fn t_limit_5_01001_1() { limit_to(5, 9, 1) }
    #[kani::unwind(7)]
    fn t_limit_5_01001_2() { limit_to(5, 9, 2) }
    #[kani::unwind(7)]
    fn t_limit_5_01001_3() { limit_to(5, 9, 3) }
    #[kani::unwind(8)]
    fn t_limit_6_000000_2() { limit_to(6, 0, 2) }
    #[kani::unwind(8)]
    fn t_limit_6_000000_3() { limit_to(6, 0, 3) }
    #[kani::unwind(8)]
    fn t_limit_6_000000_4() { limit_to(6, 0, 4) }
    #[kani::unwind(6)]
    fn q_direct_4_0000_1() { direct_n(4, 0, 1) }
    #[kani::unwind(6)]
    fn q_direct_4_0000_3() { direct_n(4, 0, 3) }
    #[kani::unwind(6)]
    fn q_direct_4_0000_4() { direct_n(4, 0, 4) }
    #[kani::unwind(6)]
    fn q_direct_4_0100_2() { direct_n(4, 4, 2) }
    #[kani::unwind(6)]
    fn q_direct_3_001_0() { direct_n(3, 1, 0) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_any_limit_2() { limit(2, nd::u8()) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn q_any_set_limit_2() { set_limit(2, nd::u8()) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_any_limit_3() { limit(3, nd::u8()) }
    #[kani::unwind(6)]
    #[kani::stub(std::vec::Vec::with_capacity, crate::common::wc)]
    fn t_any_direct_3() { direct(3, nd::u8()) }
}
