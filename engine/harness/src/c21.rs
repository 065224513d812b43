//! C21: the stagnation stop checker.
use crate::common::*;
use optlib::tools::stopchecker::*;
use optlib::AlgorithmState;

struct St {
    best: Option<f64>,
    iteration: usize,
}
impl AlgorithmState<u8> for St {
    fn get_best_solution(&self) -> Option<(u8, f64)> {
        self.best.map(|g| (0, g))
    }
    fn get_iteration(&self) -> usize {
        self.iteration
    }
}

/// Next iteration number: one more, the same again (resumed run), or back to 0 (new run).
fn next(prev: usize, restarts: bool) -> usize {
    match nd::u8() % 4 {
        0 if restarts => 0,
        1 => prev,
        _ => prev + 1,
    }
}

/// Goal values are `k * 2^scale` with |k| <= 2^(bits-1), delta is `d * 2^scale` with 0 <= d < 4.
fn sequence(calls: usize, bits: u32, scale: i32, restarts: bool, none: bool) {
    let unit = exp2_f64(scale as f64);
    let (limit, d) = (nd::usize(), (nd::u8() & 3) as i32);
    nd::assume(limit < 1 << 40);
    let mut c = GoalNotChange::new(limit, d as f64 * unit);
    // the model: last noted value with its iteration
    let mut noted: Option<(i32, usize)> = None;
    let mut prev = 0;
    let mut fired = false;
    for k in 0..calls {
        let it = if k == 0 { 0 } else { next(prev, restarts) };
        if it < prev {
            noted = None;
        }
        prev = it;
        let g = (nd::i8() >> (8 - bits)) as i32;
        let best = if none && nd::bool() { None } else { Some(g as f64 * unit) };
        let stop = c.can_stop(&St { best, iteration: it });
        match best {
            None => assert!(!stop, "stopped without a best solution"),
            Some(_) => {
                let (v, at) = match noted {
                    Some((v, at)) if (g - v).abs() <= d => (v, at),
                    _ => (g, it),
                };
                noted = Some((v, at));
                assert!(stop == (it - at > limit), "stops after more than `limit` quiet iterations");
                fired = fired || stop;
            }
        }
    }
    reach!("end");
    reach!(fired || calls == 1, "fired");
}

/// Any two values up to 1e300: the first is noted, the second compared with it.
fn any_two() {
    let (limit, delta, a, b) = (nd::usize(), nd::f64(), nd::f64(), nd::f64());
    nd::assume(delta >= 0.0 && delta <= 1e300);
    nd::assume(a.abs() <= 1e300 && b.abs() <= 1e300);
    let mut c = GoalNotChange::new(limit, delta);
    let t = nd::usize();
    nd::assume(t < 1 << 40);
    let first = c.can_stop(&St { best: Some(a), iteration: 0 });
    assert!(!first, "stopped at once");
    let second = c.can_stop(&St { best: Some(b), iteration: t });
    let moved = (b - a).abs() > delta;
    assert!(second == (!moved && t > limit), "second call");
    reach!("end");
}

harnesses! {
    #[kani::unwind(8)]
    fn q_any_two() { any_two() }
    #[kani::unwind(8)]
    fn q_plain_4() { sequence(4, 4, 0, false, true) }
    #[kani::unwind(8)]
    fn q_restart_5() { sequence(5, 3, 0, true, false) }
    #[kani::unwind(8)]
    fn q_restart_none_4() { sequence(4, 3, 0, true, true) }
    #[kani::unwind(8)]
    fn q_tiny_4() { sequence(4, 3, -600, true, false) }
    #[kani::unwind(8)]
    fn q_huge_4() { sequence(4, 3, 900, true, false) }
    #[kani::unwind(8)]
    fn t_restart_6() { sequence(6, 3, 0, true, true) }
    #[kani::unwind(9)]
    fn t_restart_7() { sequence(7, 2, 0, true, false) }
}
