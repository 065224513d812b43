//! C14: bitwise mutation.
use optlib::genetic::mutation::BitwiseMutation;
use optlib::genetic::Mutation;

macro_rules! flips {
    ($name:ident $t:ident $u:ident) => {
        fn $name(n: usize, nan: bool) {
            let x = nd::$u();
            let mut m = BitwiseMutation::new(n);
            let y: $t = m.mutation(&$t::from_bits(x));
            // the payload of a NaN is the business of the processor: numbers are looked at separately
            nd::assume(nan || !(y.is_nan() || $t::from_bits(x).is_nan()));
            let changed = (y.to_bits() ^ x).count_ones() as usize;
            assert!(changed <= n, "too many bits changed");
            assert!(changed % 2 == n % 2, "not n flips");
            if n == 0 {
                assert!(y.to_bits() == x, "changed without any flip");
            }
            reach!("end");
            reach!(changed == n, "n different bits");
        }
    };
}
flips!(m64 f64 u64);
flips!(m32 f32 u32);

/// The lowest (highest) draw chooses the lowest (highest) bit, so every bit can be chosen.
fn ends() {
    let (x, y) = (nd::u64(), nd::u32());
    nd::set_draw_mode(1);
    let a: f64 = BitwiseMutation::new(1).mutation(&f64::from_bits(x));
    let b: f32 = BitwiseMutation::new(1).mutation(&f32::from_bits(y));
    assert!((a.to_bits() ^ x).count_ones() == 1 && (b.to_bits() ^ y).count_ones() == 1);
    let (l64, l32) = (a.to_bits() ^ x, b.to_bits() ^ y);
    nd::set_draw_mode(2);
    let a: f64 = BitwiseMutation::new(1).mutation(&f64::from_bits(x));
    let b: f32 = BitwiseMutation::new(1).mutation(&f32::from_bits(y));
    let (h64, h32) = (a.to_bits() ^ x, b.to_bits() ^ y);
    assert!(l64 | h64 == 1 << 63 | 1, "the ends of the f64 bit range cannot be chosen");
    assert!(l32 | h32 == 1 << 31 | 1, "the ends of the f32 bit range cannot be chosen");
    reach!("end");
}

/// Two mutations of the same operator are independent of each other.
fn twice() {
    let x = nd::u64();
    let mut m = BitwiseMutation::new(1);
    let _: f64 = m.mutation(&f64::from_bits(nd::u64()));
    let y: f64 = m.mutation(&f64::from_bits(x));
    assert!((y.to_bits() ^ x).count_ones() == 1, "exactly one flip");
    reach!("end");
}

harnesses! {
    #[kani::unwind(5)]
    fn q_f64_0() { m64(0, true) }
    #[kani::unwind(5)]
    fn q_f64_1() { m64(1, true) }
    #[kani::unwind(5)]
    fn q_f64_2() { m64(2, true) }
    #[kani::unwind(5)]
    fn q_f64_3() { m64(3, true) }
    #[kani::unwind(5)]
    fn q_f32_0() { m32(0, true) }
    #[kani::unwind(5)]
    fn q_f32_1() { m32(1, true) }
    #[kani::unwind(5)]
    fn q_f32_2() { m32(2, true) }
    #[kani::unwind(5)]
    fn q_f32_3() { m32(3, true) }
    #[kani::unwind(5)]
    fn q_f64_1_number() { m64(1, false) }
    #[kani::unwind(5)]
    fn q_f32_1_number() { m32(1, false) }
    #[kani::unwind(5)]
    fn q_ends() { ends() }
    #[kani::unwind(5)]
    fn q_twice() { twice() }
    #[kani::unwind(8)]
    fn t_f64_5() { m64(5, true) }
    #[kani::unwind(8)]
    fn t_f32_6() { m32(6, true) }
}
