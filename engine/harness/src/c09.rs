//! C09: pairing.
use crate::common::*;
use optlib::genetic::pairing::*;
use optlib::genetic::*;

fn random(n: usize) {
    any_population(n, move |p| {
        let pairs = RandomPairing::new().get_pairs(p);
        assert!(pairs.len() == n / 2, "number of pairs");
        for i in 0..pairs.len() {
            assert!(pairs[i].len() == 2, "a pair has two partners");
            assert!(pairs[i][0] < n && pairs[i][1] < n, "valid individuals");
        }
        reach!("end");
    });
}

/// Population of `n`, tournament of the given shape; the draws are any indices.
fn tournament(n: usize, families: usize, partners: usize, rounds: usize) {
    any_population(n, move |p| {
        nd::reset_draws();
        let pairs = Tournament::new(families)
            .partners_count(partners)
            .rounds_count(rounds)
            .get_pairs(p);
        assert!(pairs.len() == families, "number of families");
        let total = families * partners * (rounds + 1);
        assert!(nd::draw_count() == total, "rounds + 1 contestants are drawn for every winner");
        for f in 0..pairs.len() {
            assert!(pairs[f].len() == partners, "size of a family");
            for k in 0..pairs[f].len() {
                let w = pairs[f][k];
                assert!(w < n, "a winner is a member of the population");
                // The winner is one of the drawn contestants, and at least `rounds` others
                // were drawn that are not better.
                let mut found = false;
                let mut beaten = 0;
                for d in 0..total {
                    let c = nd::draw(d) as usize;
                    found = found || c == w;
                    beaten += !better(val(c), val(w)) as usize;
                }
                assert!(found, "the winner was not drawn");
                assert!(beaten >= rounds + 1, "the winner did not beat its opponents");
                if families * partners == 1 {
                    assert!(beaten == total, "the winner is not the best contestant");
                }
            }
        }
        reach!("end");
    });
}

/// The default tournament: two partners, one round.
fn default_tournament(n: usize, families: usize) {
    any_population(n, move |p| {
        nd::reset_draws();
        let pairs = Tournament::new(families).get_pairs(p);
        assert!(pairs.len() == families, "number of families");
        for f in 0..pairs.len() {
            assert!(pairs[f].len() == 2, "size of a family");
            for k in 0..2 {
                let w = pairs[f][k];
                assert!(w < n, "a winner is a member of the population");
            }
        }
        reach!("end");
    });
}

harnesses! {
    #[kani::unwind(6)]
    fn q_random_0() { random(0) }
    #[kani::unwind(6)]
    fn q_random_1() { random(1) }
    #[kani::unwind(6)]
    fn q_random_2() { random(2) }
    #[kani::unwind(7)]
    fn q_random_5() { random(5) }
    #[kani::unwind(6)]
    fn q_empty() { tournament_empty() }
    #[kani::unwind(6)]
    fn q_round_0() { tournament(3, 1, 1, 0) }
    #[kani::unwind(6)]
    fn q_round_1() { tournament(3, 1, 1, 1) }
    #[kani::unwind(6)]
    fn q_round_2() { tournament(3, 1, 1, 2) }
    #[kani::unwind(6)]
    fn q_round_3() { tournament(4, 1, 1, 3) }
    #[kani::unwind(10)]
    fn q_families() { tournament(3, 2, 2, 1) }
    #[kani::unwind(14)]
    fn q_partners() { tournament(3, 1, 3, 1) }
    #[kani::unwind(6)]
    fn q_first() { everyone(1, 0) }
    #[kani::unwind(6)]
    fn q_last() { everyone(2, 3) }
    #[kani::unwind(14)]
    fn t_partners() { tournament(3, 1, 3, 2) }
    #[kani::unwind(6)]
    fn q_default() { default_tournament(2, 3) }
    #[kani::unwind(10)]
    fn t_round_6() { tournament(5, 1, 1, 6) }
    #[kani::unwind(20)]
    fn t_families() { tournament(4, 3, 3, 1) }
}

/// Every individual can be selected: with all draws at one end of their range, that end is chosen.
fn everyone(mode: u8, expected: usize) {
    any_population(4, move |p| {
        nd::set_draw_mode(mode);
        let a = RandomPairing::new().get_pairs(p);
        let b = Tournament::new(1).partners_count(1).rounds_count(1).get_pairs(p);
        assert!(a[0][0] == expected && a[1][1] == expected, "an individual is never paired");
        assert!(b[0][0] == expected, "an individual never takes part in a tournament");
        reach!("end");
    });
}

fn tournament_empty() {
    any_population(0, move |p| {
        assert!(Tournament::new(2).get_pairs(p).is_empty(), "no pairs without individuals");
        assert!(
            Tournament::new(1).partners_count(3).rounds_count(2).get_pairs(p).is_empty(),
            "no pairs without individuals"
        );
        reach!("end");
    });
}
