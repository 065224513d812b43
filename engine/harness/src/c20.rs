//! C20: iteration limit, threshold and composite stop checkers.
use crate::common::*;
use optlib::tools::stopchecker::*;
use optlib::AlgorithmState;

struct St {
    best: Option<f64>,
    iteration: usize,
}
impl AlgorithmState<u8> for St {
    fn get_best_solution(&self) -> Option<(u8, f64)> {
        self.best.map(|g| (0, g))
    }
    fn get_iteration(&self) -> usize {
        self.iteration
    }
}
fn any_state() -> St {
    let g = nd::f64();
    St { best: if nd::bool() { Some(g) } else { None }, iteration: nd::usize() }
}

/// Answers what it was told to; checks that it is asked about the present state.
struct P(bool, usize);
impl StopChecker<u8> for P {
    fn can_stop(&mut self, s: &dyn AlgorithmState<u8>) -> bool {
        assert!(s.get_iteration() == self.1, "the parts are asked about the same state");
        self.0
    }
}

fn iterations() {
    let (s, n) = (any_state(), nd::usize());
    let mut c = MaxIterations::new(n);
    assert!(c.can_stop(&s) == (s.iteration >= n), "iteration limit");
    let s = any_state();
    assert!(c.can_stop(&s) == (s.iteration >= n), "iteration limit, asked again");
    reach!("end");
}
fn threshold() {
    let t = nd::f64();
    let mut c = Threshold::new(t);
    for _ in 0..2 {
        let s = any_state();
        let expected = match s.best {
            None => false,
            Some(g) => g < t || g == t,
        };
        assert!(c.can_stop(&s) == expected, "threshold");
    }
    reach!("end");
}
fn composite(n: usize, all: bool) {
    let s = any_state();
    let mut parts: Vec<Box<dyn StopChecker<u8>>> = Vec::new();
    let (mut any_yes, mut all_yes) = (false, true);
    for _ in 0..n {
        let b = nd::bool();
        any_yes = any_yes || b;
        all_yes = all_yes && b;
        parts.push(Box::new(P(b, s.iteration)));
    }
    if all {
        let mut c = CompositeAll::new(parts);
        assert!(c.can_stop(&s) == all_yes, "all");
        assert!(c.can_stop(&s) == all_yes, "all, asked again");
    } else {
        let mut c = CompositeAny::new(parts);
        assert!(c.can_stop(&s) == any_yes, "any");
        assert!(c.can_stop(&s) == any_yes, "any, asked again");
    }
    reach!("end");
}
fn nested() {
    let s = any_state();
    let (a, b, c, d) = (nd::bool(), nd::bool(), nd::bool(), nd::bool());
    let i = s.iteration;
    let all = CompositeAll::new(vec![Box::new(P(a, i)), Box::new(P(b, i))]);
    let mut any = CompositeAny::new(vec![Box::new(all), Box::new(P(c, i))]);
    assert!(any.can_stop(&s) == ((a && b) || c), "any(all(a, b), c)");
    let any = CompositeAny::new(vec![Box::new(P(a, i)), Box::new(P(b, i))]);
    let inner = CompositeAll::new(vec![Box::new(P(c, i)), Box::new(any)]);
    let mut all = CompositeAll::new(vec![Box::new(inner), Box::new(P(d, i))]);
    assert!(all.can_stop(&s) == (c && (a || b) && d), "all(all(c, any(a, b)), d)");
    reach!("end");
}
fn real_parts() {
    let s = any_state();
    let (n, t) = (nd::usize(), nd::f64());
    let limit = s.iteration >= n;
    let reached = match s.best {
        None => false,
        Some(g) => g <= t,
    };
    let mut any: CompositeAny<u8> =
        CompositeAny::new(vec![Box::new(Threshold::new(t)), Box::new(MaxIterations::new(n))]);
    assert!(any.can_stop(&s) == (limit || reached), "any");
    let mut all: CompositeAll<u8> =
        CompositeAll::new(vec![Box::new(Threshold::new(t)), Box::new(MaxIterations::new(n))]);
    assert!(all.can_stop(&s) == (limit && reached), "all");
    reach!("end");
}

/// Stops according to the threshold of its own for the iteration number.
struct Bits(u8);
impl StopChecker<u8> for Bits {
    fn can_stop(&mut self, s: &dyn AlgorithmState<u8>) -> bool {
        self.0 & (1 << s.get_iteration()) != 0
    }
}
/// A composite with a checker that has memory decides as if that checker had watched the run alone.
fn memory(calls: usize, all: bool, first: bool) {
    let (limit, bits) = (nd::usize(), nd::u8());
    let stagnation = Box::new(GoalNotChange::new(limit, 1.0));
    let mut alone = GoalNotChange::new(limit, 1.0);
    let other = Box::new(Bits(bits));
    let parts: Vec<Box<dyn StopChecker<u8>>> =
        if first { vec![stagnation, other] } else { vec![other, stagnation] };
    let mut c: Box<dyn StopChecker<u8>> =
        if all { Box::new(CompositeAll::new(parts)) } else { Box::new(CompositeAny::new(parts)) };
    let mut stopped = false;
    for iteration in 0..calls {
        let s = St { best: Some(nd::i8() as f64), iteration };
        let (a, b) = (alone.can_stop(&s), Bits(bits).can_stop(&s));
        let expected = if all { a && b } else { a || b };
        assert!(c.can_stop(&s) == expected, "composite of a checker with memory");
        stopped = stopped || (a && expected);
    }
    reach!(stopped, "the stagnation part stopped");
}

harnesses! {
    #[kani::unwind(6)]
    fn q_memory_all_first() { memory(3, true, true) }
    #[kani::unwind(6)]
    fn q_memory_all_second() { memory(3, true, false) }
    #[kani::unwind(6)]
    fn q_memory_any_first() { memory(3, false, true) }
    #[kani::unwind(6)]
    fn q_memory_any_second() { memory(3, false, false) }
    #[kani::unwind(8)]
    fn t_memory_all_second() { memory(5, true, false) }
    #[kani::unwind(8)]
    fn t_memory_any_second() { memory(5, false, false) }
    #[kani::unwind(4)]
    fn q_iterations() { iterations() }
    #[kani::unwind(4)]
    fn q_threshold() { threshold() }
    #[kani::unwind(6)]
    fn q_any_1() { composite(1, false) }
    #[kani::unwind(6)]
    fn q_any_2() { composite(2, false) }
    #[kani::unwind(6)]
    fn q_any_3() { composite(3, false) }
    #[kani::unwind(6)]
    fn q_all_1() { composite(1, true) }
    #[kani::unwind(6)]
    fn q_all_2() { composite(2, true) }
    #[kani::unwind(6)]
    fn q_all_3() { composite(3, true) }
    #[kani::unwind(6)]
    fn q_nested() { nested() }
    #[kani::unwind(6)]
    fn q_real_parts() { real_parts() }
    #[kani::unwind(8)]
    fn t_any_6() { composite(6, false) }
    #[kani::unwind(8)]
    fn t_all_6() { composite(6, true) }
}
