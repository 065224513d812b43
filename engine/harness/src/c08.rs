//! C08: feasibility filters.
use crate::common::*;
use optlib::genetic::pre_birth;
use optlib::genetic::selection::*;
use optlib::genetic::*;

fn finite_goal(n: usize) {
    any_population(n, move |p| {
        let mut was = [true; 8];
        for i in 0..n {
            if nd::bool() {
                p[i].kill();
                was[i] = false;
            }
        }
        KillFitnessNaN::new().kill(p);
        assert!(p.len() == n);
        for i in 0..n {
            let expected = was[i] && val(i).is_finite();
            assert!(p[i].is_alive() == expected, "the finite-goal filter");
            assert!(*p[i].get_chromosomes() == i && same(p[i].get_fitness(), val(i)));
        }
        reach!("end");
    });
}

macro_rules! interval {
    ($t:ident, $sel:ident, $pre:ident) => {
        fn $sel(n: usize, genes: usize) {
            let mut v = Vec::new();
            let mut g = [[0 as $t; 3]; 3];
            for i in 0..n {
                let mut c = Vec::new();
                for k in 0..genes {
                    g[i][k] = nd::$t();
                    c.push(g[i][k]);
                }
                v.push(c);
            }
            let (iv, lo, hi) = bounds::$t(genes);
            let mut f = vec_float::CheckChromoInterval::new(iv);
            with_population(v, |_| 0.0, move |p| {
                let dead = nd::below(n + 1);
                if dead < n {
                    p[dead].kill();
                }
                f.kill(p);
                assert!(p.len() == n);
                for i in 0..n {
                    let mut inside = true;
                    for k in 0..genes {
                        let x = g[i][k];
                        inside = inside && x >= lo[k] && x <= hi[k] && x - x == 0.0;
                        assert!(p[i].get_chromosomes()[k].to_bits() == x.to_bits());
                    }
                    assert!(p[i].is_alive() == (inside && i != dead), "the interval filter");
                }
                reach!("end");
            });
        }
        /// Which chromosomes survive is concrete here (`pattern`), so that the list operations
        /// stay concrete; which gene is bad, and how, is symbolic.
        fn $pre(n: usize, genes: usize, pattern: u8) {
            let mut v = Vec::new();
            let mut g = [[0 as $t; 3]; 3];
            let (iv, lo, hi) = bounds::$t(genes);
            for i in 0..n {
                let mut c = Vec::new();
                let mut inside = true;
                for k in 0..genes {
                    let x = nd::$t();
                    inside = inside && x >= lo[k] && x <= hi[k] && x - x == 0.0;
                    g[i][k] = x;
                    c.push(x);
                }
                nd::assume(inside == (pattern >> i & 1 == 1));
                v.push(c);
            }
            let mut f = pre_birth::vec_float::CheckChromoInterval::new(iv);
            let list = v;
            with_population(Vec::<Vec<$t>>::new(), |_| 0.0, move |p| {
                let mut list = list.clone();
                f.pre_birth(p, &mut list);
                let mut left = 0;
                for i in 0..n {
                    if pattern >> i & 1 == 1 {
                        assert!(left < list.len(), "a feasible chromosome was removed");
                        assert!(list[left].len() == genes);
                        for k in 0..genes {
                            assert!(
                                list[left][k].to_bits() == g[i][k].to_bits(),
                                "the remaining chromosomes are unchanged and in order"
                            );
                        }
                        left += 1;
                    }
                }
                assert!(list.len() == left, "an infeasible chromosome was not removed");
                reach!("end");
            });
        }
    };
}
interval!(f64, sel64, pre64);
interval!(f32, sel32, pre32);

mod bounds {
    macro_rules! b {
        ($t:ident) => {
            /// Any non-NaN ends, infinities and empty intervals included.
            pub fn $t(genes: usize) -> (Vec<($t, $t)>, [$t; 3], [$t; 3]) {
                let mut iv = Vec::new();
                let mut lo = [0 as $t; 3];
                let mut hi = [0 as $t; 3];
                for k in 0..genes {
                    lo[k] = nd::$t();
                    hi[k] = nd::$t();
                    nd::assume(!lo[k].is_nan() && !hi[k].is_nan());
                    iv.push((lo[k], hi[k]));
                }
                (iv, lo, hi)
            }
        };
    }
    b!(f64);
    b!(f32);
}

harnesses! {
    #[kani::unwind(6)]
    fn q_nan_3() { finite_goal(3) }
    #[kani::unwind(6)]
    fn q_sel64() { sel64(2, 2) }
    #[kani::unwind(6)]
    fn q_sel64_3genes() { sel64(1, 3) }
    #[kani::unwind(6)]
    fn q_sel32() { sel32(2, 2) }
    #[kani::unwind(6)]
    fn q_pre64_0() { pre64(2, 2, 0) }
    #[kani::unwind(6)]
    fn q_pre64_1() { pre64(2, 2, 1) }
    #[kani::unwind(6)]
    fn q_pre64_2() { pre64(2, 2, 2) }
    #[kani::unwind(6)]
    fn q_pre64_3() { pre64(2, 2, 3) }
    #[kani::unwind(6)]
    fn q_pre32_2() { pre32(2, 2, 2) }
    #[kani::unwind(6)]
    fn q_pre32_5() { pre32(3, 1, 5) }
    #[kani::unwind(8)]
    fn t_nan_5() { finite_goal(5) }
    #[kani::unwind(6)]
    fn t_sel64() { sel64(3, 3) }
    #[kani::unwind(6)]
    fn t_sel32() { sel32(3, 3) }
    #[kani::unwind(6)]
    fn t_pre64_2() { pre64(3, 3, 2) }
    #[kani::unwind(6)]
    fn t_pre64_5() { pre64(3, 3, 5) }
    #[kani::unwind(6)]
    fn t_pre64_6() { pre64(3, 3, 6) }
}
