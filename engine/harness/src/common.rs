//! Shared probes.
use optlib::Goal;

/// Declares harnesses.  Under Kani each one is a proof harness, natively each one is an ordinary
/// function listed in `ALL` for the replay program.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $(
            #[cfg(kani)]
            #[kani::proof]
            #[kani::stub(alloc::slice::stable_sort, crate::common::bubble_stable)]
            #[kani::stub(core::slice::sort::unstable::sort, crate::common::bubble_unstable)]
            $(#[$m])*
            pub fn $name() $body

            #[cfg(not(kani))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

/// Vacuity witness: the place must be reachable for some input.
#[macro_export]
macro_rules! reach {
    ($msg:literal) => {
        #[cfg(kani)]
        kani::cover!(true, $msg)
    };
    ($c:expr, $msg:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $msg)
    };
}

/// The library must have refused (panicked) before this place is reached.  Only for harnesses
/// whose name contains `_rejects`; the message starts with "never: ".
#[macro_export]
macro_rules! never {
    ($msg:literal) => {{
        #[cfg(kani)]
        kani::cover!(true, $msg);
        #[cfg(not(kani))]
        {
            eprintln!("{}", $msg);
            std::process::exit(77);
        }
    }};
}

/// `Vec::with_capacity` without a symbolic allocation size (the capacity is only a hint).
pub fn wc<T>(_n: usize) -> Vec<T> {
    let mut v = Vec::new();
    v.reserve_exact(8);
    v
}

/// The run is over: nothing after this point is explored (symbolically) or executed (natively).
pub fn stop_here() {
    #[cfg(kani)]
    nd::assume(false);
    #[cfg(not(kani))]
    std::process::exit(0);
}

/// Bitwise-or-both-NaN equality: "the same goal value".
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// `a` is strictly better than `b` for a minimiser, NaN being worse than every number.
pub fn better(a: f64, b: f64) -> bool {
    a < b || (b.is_nan() && !a.is_nan())
}

pub const NV: usize = 16;
nd::state! {
    /// Symbolic goal value of point number i.
    VAL: [f64; NV] = [0.0; NV];
}

pub fn val(i: usize) -> f64 {
    unsafe { VAL.v[i] }
}

/// Gives the points `0..n` unconstrained goal values (NaN, infinities, ties included).
pub fn any_vals(n: usize) {
    for i in 0..n {
        unsafe { VAL.v[i] = nd::f64() }
    }
}

// ---- One generation of the real genetic optimizer around a population --------------------------

use optlib::genetic::{Creator, Cross, GeneticOptimizer, Mutation, Pairing, Population, Selection};
use optlib::tools::stopchecker::MaxIterations;
use optlib::{GoalFromFunction, Optimizer};

struct Once<T>(Option<Vec<T>>);
impl<T> Creator<T> for Once<T> {
    fn create(&mut self) -> Vec<T> {
        self.0.take().unwrap()
    }
}
struct NoPairs;
impl<T> Pairing<T> for NoPairs {
    fn get_pairs(&mut self, _p: &Population<T>) -> Vec<Vec<usize>> {
        Vec::new()
    }
}
struct NoCross;
impl<T> Cross<T> for NoCross {
    fn cross(&mut self, _p: &[&T]) -> Vec<T> {
        Vec::new()
    }
}
struct Same;
impl<T: Clone> Mutation<T> for Same {
    fn mutation(&mut self, c: &T) -> T {
        c.clone()
    }
}
struct Hook<F>(F);
impl<T, F: FnMut(&mut Population<T>)> Selection<T> for Hook<F> {
    fn kill(&mut self, p: &mut Population<T>) {
        (self.0)(p);
        stop_here();
    }
}

/// Calls `f` on a real population of these chromosomes; nothing is executed afterwards.
pub fn with_population<T: Clone + 'static>(
    chromosomes: Vec<T>,
    goal: fn(&T) -> f64,
    f: impl FnMut(&mut Population<T>) + 'static,
) {
    let mut o = GeneticOptimizer::new(
        Box::new(GoalFromFunction::new(goal)),
        Box::new(MaxIterations::new(1)),
        Box::new(Once(Some(chromosomes))),
        Box::new(NoPairs),
        Box::new(NoCross),
        Box::new(Same),
        vec![Box::new(Hook(f))],
        vec![],
    );
    o.find_min();
}

pub fn val_of(x: &usize) -> f64 {
    val(*x)
}

/// A population of `n` individuals with unconstrained goal values.
pub fn any_population(n: usize, f: impl FnMut(&mut Population<usize>) + 'static) {
    any_vals(n);
    let mut v = Vec::new();
    for i in 0..n {
        v.push(i);
    }
    with_population(v, val_of, f);
}

// ---- Exact stand-ins for the transcendental functions CBMC does not model -----------------------

/// 2^x for integer x (anything otherwise); natively the real function is used.
pub fn exp2_f64(x: f64) -> f64 {
    let n = x as i32;
    if n as f64 != x {
        return nd::f64();
    }
    if n > 1023 {
        f64::INFINITY
    } else if n >= -1022 {
        f64::from_bits(((n + 1023) as u64) << 52)
    } else if n >= -1074 {
        f64::from_bits(1u64 << (n + 1074))
    } else {
        0.0
    }
}
pub fn exp2_f32(x: f32) -> f32 {
    let n = x as i32;
    if n as f32 != x {
        return nd::f32();
    }
    if n > 127 {
        f32::INFINITY
    } else if n >= -126 {
        f32::from_bits(((n + 127) as u32) << 23)
    } else if n >= -149 {
        f32::from_bits(1u32 << (n + 149))
    } else {
        0.0
    }
}
/// Small powers as the real function computes them, powers of two for x = 2 (anything otherwise).
pub fn powi_f64(x: f64, n: i32) -> f64 {
    if n == 2 {
        x * x
    } else if x == 2.0 && n < -1023 {
        // the reciprocal of an infinite power
        0.0
    } else if x == 2.0 {
        exp2_f64(n as f64)
    } else if n == 0 {
        1.0
    } else if n == 1 {
        x
    } else if n == 3 {
        x * (x * x)
    } else if n == 4 {
        (x * x) * (x * x)
    } else if n == -1 {
        1.0 / x
    } else if n == -2 {
        1.0 / (x * x)
    } else {
        nd::f64()
    }
}
pub fn powi_f32(x: f32, n: i32) -> f32 {
    if n == 2 {
        x * x
    } else if x == 2.0 && n < -127 {
        // the reciprocal of an infinite power
        0.0
    } else if x == 2.0 {
        exp2_f32(n as f32)
    } else if n == 0 {
        1.0
    } else if n == 1 {
        x
    } else if n == 3 {
        x * (x * x)
    } else if n == 4 {
        (x * x) * (x * x)
    } else if n == -1 {
        1.0 / x
    } else if n == -2 {
        1.0 / (x * x)
    } else {
        nd::f32()
    }
}

/// Under Kani the square root is replaced by the (injective, cheap) function x + 1024: "the result
/// is the square root of v" becomes "the result is v + 1024".  `unroot` gives v back; natively the
/// real square root is used and undone by squaring.
pub fn marked_sqrt_f64(x: f64) -> f64 {
    x + 1024.0
}
pub fn unroot(d: f64) -> f64 {
    #[cfg(kani)]
    return d - 1024.0;
    #[cfg(not(kani))]
    return if d < 0.0 { f64::NAN } else { d * d };
}

/// Exact square roots of the squares of 0..=32; anything else has no value.
pub fn table_sqrt_f64(x: f64) -> f64 {
    let mut i = 0;
    while i <= 32 {
        if x == (i * i) as f64 {
            return i as f64;
        }
        i += 1;
    }
    nd::f64()
}
pub fn table_sqrt_f32(x: f32) -> f32 {
    let mut i = 0;
    while i <= 32 {
        if x == (i * i) as f32 {
            return i as f32;
        }
        i += 1;
    }
    nd::f32()
}

/// Copies a coordinate or velocity vector of the concrete dimension `DIM` (the length of a vector
/// reached through a symbolic pointer is symbolic for CBMC although it is always the same).
#[cfg(kani)]
pub struct Tv<T>(T);
#[cfg(kani)]
impl<T> Tv<T> {
    pub fn tv<A: std::alloc::Allocator>(s: &[T], alloc: A) -> Vec<T, A>
where T: Clone {
    if std::mem::size_of::<T>() > 8 {
        let mut v = Vec::new_in(alloc);
        for x in s {
            v.push(x.clone());
        }
        return v;
    }
    let dim = unsafe { DIM.v };
    assert!(s.len() == dim, "the dimension of a vector");
    let mut v = Vec::with_capacity_in(dim, alloc);
    for i in 0..dim {
        v.push(s[i].clone());
    }
    v
}
}
nd::state! {
    DIM: usize = 1;
}

// ---- Sorting ---------------------------------------------------------------------------------
// Sorts of the standard library are replaced by a bubble sort: stable, and cheap for the solver
// because the pattern of comparisons and exchanges does not depend on the data.
#[cfg(kani)]
pub fn bubble_stable<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], mut is_less: F) {
    bubble_unstable(v, &mut is_less)
}
#[cfg(kani)]
pub fn bubble_unstable<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], is_less: &mut F) {
    let n = v.len();
    for i in 1..n {
        for j in 0..n - i {
            if is_less(&v[j + 1], &v[j]) {
                v.swap(j, j + 1);
            }
        }
    }
}
