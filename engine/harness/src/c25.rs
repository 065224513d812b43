//! C25: position corrections.
use crate::common::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::PostMove;

macro_rules! ty {
    ($bound:ident $tele:ident $always:ident $both:ident $t:ident) => {
        fn $bound(n: usize) {
            let (mut iv, mut x) = (Vec::new(), Vec::new());
            let (mut lo, mut hi, mut old) = ([0 as $t; 3], [0 as $t; 3], [0 as $t; 3]);
            for k in 0..n {
                lo[k] = nd::$t();
                hi[k] = nd::$t();
                old[k] = nd::$t();
                nd::assume(lo[k].is_finite() && hi[k].is_finite() && lo[k] <= hi[k]);
                iv.push((lo[k], hi[k]));
                x.push(old[k]);
            }
            let mut m = MoveToBoundary::new(iv);
            m.post_move(&mut x);
            assert!(x.len() == n, "dimension");
            for k in 0..n {
                assert!(x[k] >= lo[k] && x[k] <= hi[k], "outside the interval");
                if old[k].is_finite() {
                    if old[k] < lo[k] {
                        assert!(x[k] == lo[k], "below: to the lower end");
                    } else if old[k] > hi[k] {
                        assert!(x[k] == hi[k], "above: to the upper end");
                    } else {
                        assert!(x[k].to_bits() == old[k].to_bits(), "inside: unchanged");
                    }
                } else {
                    assert!(x[k] == lo[k] || x[k] == hi[k], "not a number: to an end");
                }
            }
            reach!("end");
        }
        /// The position starts outside of the box, so that a replaced coordinate can be told.
        /// Returns whether it was teleported.
        fn $tele(n: usize, p: f32, mode: u8) -> bool {
            let (mut iv, mut x) = (Vec::new(), Vec::new());
            let (mut lo, mut hi, mut old) = ([0 as $t; 3], [0 as $t; 3], [0 as $t; 3]);
            for k in 0..n {
                lo[k] = nd::$t();
                hi[k] = nd::$t();
                old[k] = nd::$t();
                nd::assume(lo[k].is_finite() && hi[k].is_finite() && lo[k] <= hi[k]);
                nd::assume(!(old[k] >= lo[k] && old[k] <= hi[k]));
                iv.push((lo[k], hi[k]));
                x.push(old[k]);
            }
            nd::set_draw_mode(mode);
            let mut m = RandomTeleport::new(iv, p);
            m.post_move(&mut x);
            assert!(x.len() == n, "dimension");
            let gone = x[0] >= lo[0] && x[0] <= hi[0];
            for k in 0..n {
                if gone {
                    assert!(x[k] >= lo[k] && x[k] <= hi[k], "every coordinate is replaced");
                    assert!(mode != 1 || x[k] == lo[k], "the lower end can occur");
                    assert!(mode != 2 || x[k] == hi[k], "the upper end can occur");
                } else {
                    assert!(x[k].to_bits() == old[k].to_bits(), "the position is unchanged");
                }
            }
            assert!(!gone || nd::draw_count() >= n, "every coordinate is drawn on its own");
            reach!("end");
            gone
        }
        fn $always(n: usize) {
            assert!($tele(n, 1.0, 0), "probability 1 always teleports");
        }
        /// For a probability strictly between 0 and 1 both happen.
        fn $both(n: usize) {
            let p = nd::f32();
            nd::assume(p >= 0.01 && p <= 0.99);
            let low = $tele(n, p, 1);
            let high = $tele(n, p, 2);
            assert!(low != high, "the probability is not taken into account");
        }
    };
}
ty!(bound64 tele64 always64 both64 f64);
ty!(bound32 tele32 always32 both32 f32);

fn any_probability() -> f32 {
    let p = nd::f32();
    nd::assume(p >= 0.0 && p <= 1.0);
    p
}

harnesses! {
    #[kani::unwind(5)]
    fn q_bound64_1() { bound64(1) }
    #[kani::unwind(5)]
    fn q_bound64_3() { bound64(3) }
    #[kani::unwind(5)]
    fn q_bound32_2() { bound32(2) }
    #[kani::unwind(5)]
    fn q_tele64_any() { tele64(2, any_probability(), 0); }
    #[kani::unwind(5)]
    fn q_tele32_any() { tele32(3, any_probability(), 0); }
    #[kani::unwind(5)]
    fn q_tele_never() { assert!(!tele64(2, 0.0, 0), "probability 0 never teleports"); }
    #[kani::unwind(5)]
    fn q_tele_always() { always64(2) }
    #[kani::unwind(5)]
    fn q_tele32_always() { always32(1) }
    #[kani::unwind(5)]
    fn q_tele_both() { both64(2) }
    #[kani::unwind(5)]
    fn q_tele32_both() { both32(2) }
    #[kani::unwind(5)]
    fn q_rejects_probability() {
        let p = nd::f32();
        nd::assume(!(p >= 0.0 && p <= 1.0));
        reach!("call");
        RandomTeleport::new(vec![(0.0f64, 1.0)], p);
        never!("never: RandomTeleport accepted a probability outside of [0, 1]");
    }
}
