//! C10: single-point crossover of bit patterns.
use optlib::genetic::cross::*;
use optlib::genetic::Cross;

fn pos(width: usize) -> usize {
    let p = nd::usize();
    nd::assume(p >= 1 && p < width);
    p
}

macro_rules! ints {
    ($($name:ident $f:ident $t:ident;)*) => { $(
        fn $name() {
            let (a, b) = (nd::$t(), nd::$t());
            let w = std::mem::size_of::<$t>() * 8;
            let p = pos(w);
            let c = $f(a, b, p);
            let bit = nd::usize();
            nd::assume(bit < w);
            let from = if bit < p { b } else { a };
            assert!((c >> bit) & 1 == (from >> bit) & 1, "origin of a bit");
            reach!("end");
        }
    )* };
}
ints! {
    u8_ cross_u8 u8;
    u16_ cross_u16 u16;
    u32_ cross_u32 u32;
    u64_ cross_u64 u64;
    i8_ cross_i8 i8;
    i16_ cross_i16 i16;
}

macro_rules! floats {
    ($($one:ident $rnd:ident $f:ident $t:ident $u:ident;)*) => { $(
        fn $one(nan: bool) {
            let (a, b) = (nd::$u(), nd::$u());
            let w = std::mem::size_of::<$u>() * 8;
            let p = pos(w);
            let low = !(!(0 as $u) << p);
            // the payload of a NaN is the business of the processor: numbers are looked at separately
            nd::assume(nan || !$t::from_bits((a & !low) | (b & low)).is_nan());
            let c = $f($t::from_bits(a), $t::from_bits(b), p).to_bits();
            let bit = nd::usize();
            nd::assume(bit < w);
            let from = if bit < p { b } else { a };
            assert!((c >> bit) & 1 == (from >> bit) & 1, "origin of a bit");
            reach!("end");
        }
        /// The random cross: some position in 1..w explains the child.
        fn $rnd(nan: bool) {
            let (a, b) = (nd::$u(), nd::$u());
            let w = std::mem::size_of::<$u>() * 8;
            let mut x = CrossBitwise::new();
            let r: Vec<$t> = x.cross(&[&$t::from_bits(a), &$t::from_bits(b)]);
            assert!(r.len() == 1, "one child");
            nd::assume(nan || !r[0].is_nan());
            let c = r[0].to_bits();
            let mut explained = false;
            for p in 1..w {
                let low = !(!(0 as $u) << p);
                explained = explained || c == (a & !low) | (b & low);
            }
            assert!(explained, "no position explains the child");
            reach!("end");
        }
    )* };
}
floats! {
    f32_ rnd32 cross_f32 f32 u32;
    f64_ rnd64 cross_f64 f64 u64;
}

/// Both ends of the range of positions occur: for the lowest and the highest draw.
fn ends() {
    let (a, b) = (nd::u64(), nd::u64());
    let (c, d) = (nd::u32(), nd::u32());
    let at64 = |low: u64| (a & !low) | (b & low);
    let at32 = |low: u32| (c & !low) | (d & low);
    let mut x = [0u64; 2];
    let mut y = [0u32; 2];
    for mode in 1..3 {
        nd::set_draw_mode(mode);
        let r: Vec<f64> = CrossBitwise::new().cross(&[&f64::from_bits(a), &f64::from_bits(b)]);
        let q: Vec<f32> = CrossBitwise::new().cross(&[&f32::from_bits(c), &f32::from_bits(d)]);
        x[mode as usize - 1] = r[0].to_bits();
        y[mode as usize - 1] = q[0].to_bits();
    }
    let (l, h) = (at64(1), at64(!0 >> 1));
    assert!((x[0] == l && x[1] == h) || (x[0] == h && x[1] == l), "an end never occurs (f64)");
    let (l, h) = (at32(1), at32(!0 >> 1));
    assert!((y[0] == l && y[1] == h) || (y[0] == h && y[1] == l), "an end never occurs (f32)");
    reach!("end");
}

harnesses! {
    fn q_u8() { u8_() }
    fn q_u16() { u16_() }
    fn q_u32() { u32_() }
    fn q_u64() { u64_() }
    fn q_i8() { i8_() }
    fn q_i16() { i16_() }
    fn q_f32() { f32_(true) }
    fn q_f32_number() { f32_(false) }
    fn q_f64() { f64_(true) }
    fn q_f64_number() { f64_(false) }
    #[kani::unwind(34)]
    fn q_rnd32() { rnd32(true) }
    #[kani::unwind(34)]
    fn q_rnd32_number() { rnd32(false) }
    #[kani::unwind(66)]
    fn q_rnd64() { rnd64(true) }
    #[kani::unwind(66)]
    fn q_rnd64_number() { rnd64(false) }
    #[kani::unwind(4)]
    fn q_ends() { ends() }
}
