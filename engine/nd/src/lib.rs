//! The one source of nondeterminism of the whole verification engine.
//!
//! * Under `cfg(kani)` every function returns an unconstrained symbolic value.
//! * In a native build the same functions read the next entry of a *tape*: the concrete values of
//!   a solver counterexample, in the order in which they were created.  The harness sources are
//!   therefore the replay sources: nothing is re-encoded between the solver and the replay.
#![allow(static_mut_refs)]

/// Longest draw log any harness may look at.
pub const LOG: usize = 64;

/// Mutable global state.
///
/// Kani 0.68 merges a `static mut` with any constant of the program that has the same initial
/// bytes (a zero `usize` shares its object with the capacity of an empty `Vec`), so that a write
/// to the static changes the constant.  Every piece of global state of the engine therefore
/// carries a tag that makes its initial bytes unique.
pub struct St<T> {
    tag: [u64; 2],
    pub v: T,
}
impl<T> St<T> {
    pub const fn new(name: &str, line: u32, v: T) -> Self {
        let b = name.as_bytes();
        let mut h: u64 = 0xcbf29ce484222325;
        let mut i = 0;
        while i < b.len() {
            h = (h ^ b[i] as u64).wrapping_mul(0x100000001b3);
            i += 1;
        }
        St { tag: [h, line as u64 ^ 0x5eed_5eed_5eed_5eed], v }
    }
}

/// `state! { NAME: Type = init; ... }` declares tagged global state, used as `NAME.v`.
#[macro_export]
macro_rules! state {
    ($($(#[$m:meta])* $n:ident: $t:ty = $e:expr;)*) => {
        $( $(#[$m])* pub static mut $n: $crate::St<$t> =
            $crate::St::new(concat!(module_path!(), "::", stringify!($n)), line!(), $e); )*
    };
}

state! {
    DRAWS: [u64; LOG] = [0; LOG];
    DRAW_COUNT: usize = 0;
    /// 0: a random draw is any value of its range; 1: its lowest value; 2: its highest value.
    MODE: u8 = 0;
}

/// Restricts the following random draws (0: any value, 1: lowest value, 2: highest value).
pub fn set_draw_mode(m: u8) {
    unsafe { MODE.v = m }
}

pub fn draw_mode() -> u8 {
    unsafe { MODE.v }
}

/// Called by the symbolic `rand` for every random value handed to the code under test.
#[inline]
pub fn log_draw(bits: u64) {
    unsafe {
        if DRAW_COUNT.v < LOG {
            DRAWS.v[DRAW_COUNT.v] = bits;
        }
        DRAW_COUNT.v += 1;
    }
}

/// Number of random values drawn so far.
pub fn draw_count() -> usize {
    unsafe { DRAW_COUNT.v }
}

/// The n-th random value (raw bits, zero extended).
pub fn draw(n: usize) -> u64 {
    assert!(n < LOG);
    unsafe { DRAWS.v[n] }
}

pub fn reset_draws() {
    unsafe { DRAW_COUNT.v = 0 }
}

#[cfg(kani)]
mod imp {
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn cover(_c: bool) {}
    macro_rules! prim {
        ($($n:ident),*) => { $( #[inline] pub fn $n() -> $n { kani::any() } )* };
    }
    prim!(u8, u16, u32, u64, usize, i8, i16, i32, i64, bool, f32, f64);
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        static TAPE: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        static UNDERRUN: RefCell<usize> = RefCell::new(0);
    }

    /// Exit code of a replay whose tape violates an assumption of the harness.
    pub const ASSUME_FAILED: i32 = 90;

    pub fn set_tape(t: Vec<Vec<u8>>) {
        TAPE.with(|x| *x.borrow_mut() = t.into());
    }
    pub fn underrun() -> usize {
        UNDERRUN.with(|x| *x.borrow())
    }
    fn next(n: usize) -> Vec<u8> {
        TAPE.with(|x| match x.borrow_mut().pop_front() {
            Some(v) => {
                if v.len() != n {
                    eprintln!("REPLAY: tape entry has {} bytes, {} wanted", v.len(), n);
                    std::process::exit(ASSUME_FAILED);
                }
                v
            }
            None => {
                UNDERRUN.with(|x| *x.borrow_mut() += 1);
                vec![0; n]
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY: an assumption of the harness does not hold on this tape");
            std::process::exit(ASSUME_FAILED);
        }
    }
    pub fn cover(_c: bool) {}
    macro_rules! prim {
        ($($n:ident),*) => { $( pub fn $n() -> $n {
            let v = next(std::mem::size_of::<$n>());
            let mut a = [0u8; std::mem::size_of::<$n>()];
            a.copy_from_slice(&v);
            $n::from_le_bytes(a)
        } )* };
    }
    prim!(u8, u16, u32, u64, usize, i8, i16, i32, i64, f32, f64);
    pub fn bool() -> bool {
        next(1)[0] & 1 != 0
    }
}

pub use imp::*;

/// A symbolic index in `0..n`.
pub fn below(n: usize) -> usize {
    let v = usize();
    assume(v < n);
    v
}
