//! C11: exponent/mantissa crossover of floats.
use crate::common::*;
use optlib::genetic::cross::*;
use optlib::genetic::Cross;

macro_rules! ty {
    ($t:ident $u:ident $s:ident $any:ident $equal:ident $mant:ident $expo:ident $one:ident,
     $w:literal, $mbits:literal, $bias:literal) => {
        fn $one(a: $t, b: $t) -> $t {
            let r: Vec<$t> = FloatCrossExp::new().cross(&[&a, &b]);
            assert!(r.len() == 1, "exactly one child");
            r[0]
        }
        /// Any finite parents: one child, no failure, a sign of a parent.
        fn $any() {
            let (a, b) = (nd::$t(), nd::$t());
            nd::assume(a.is_finite() && b.is_finite());
            let c = $one(a, b);
            if c > 0.0 || c < 0.0 {
                let neg = c < 0.0;
                assert!(neg == a.is_sign_negative() || neg == b.is_sign_negative(), "sign of no parent");
            }
            reach!("end");
            reach!(c < 0.0, "negative child");
            reach!(c > 0.0, "positive child");
        }
        /// Equal normal parents of exponent `e` have themselves as their child.
        fn $equal(e: u32) {
            let a = nd::$t();
            nd::assume((a.to_bits() >> $mbits) as u32 & (2 * $bias + 1) == e);
            let c = $one(a, a);
            assert!(c == a, "the child of equal parents is different");
            reach!("end");
        }
        /// Same sign and exponent: the mantissa of the child is a single-point cross.
        fn $mant(e: u32) {
            let (a, b) = (nd::$t(), nd::$t());
            let top = !(!(0 as $u) >> ($w - $mbits));
            nd::assume(a.to_bits() & top == b.to_bits() & top);
            nd::assume((a.to_bits() >> $mbits) as u32 & (2 * $bias + 1) == e);
            let c = $one(a, b).to_bits();
            let mut explained = false;
            for p in 1..$mbits + 2 {
                let low = !(!(0 as $u) << p);
                explained = explained || c == (a.to_bits() & !low) | (b.to_bits() & low);
            }
            assert!(explained, "the mantissa is not a cross of the parents' mantissas");
            reach!("end");
        }
        /// Powers of two: the (integer) exponent of the child is a single-point cross.
        fn $expo() {
            let (x, y) = (nd::u32(), nd::u32());
            nd::assume(x >= 1 && x <= 2 * $bias && y >= 1 && y <= 2 * $bias);
            let c = $one(
                $t::from_bits((x as $u) << $mbits),
                $t::from_bits((y as $u) << $mbits),
            );
            // value = 2^mbits * 2^e
            let off = $bias + $mbits;
            let (e1, e2) = ((x as i32 - off) as i16, (y as i32 - off) as i16);
            let mut explained = false;
            for p in 1..16 {
                let e = (e1 & (!0 << p)) | (e2 & !(!0 << p));
                let n = e as i32 + off;
                if n >= 1 && n <= 2 * $bias {
                    explained = explained || c.to_bits() == (n as $u) << $mbits;
                } else {
                    // not representable as a normal number
                    explained = explained || !c.is_normal();
                }
            }
            assert!(explained, "the exponent is not a cross of the parents' exponents");
            reach!("end");
        }
    };
}
ty!(f64 u64 i64 any64 equal64 mant64 expo64 one64, 64, 52, 1023);
ty!(f32 u32 i32 any32 equal32 mant32 expo32 one32, 32, 23, 127);

/// Both ends of the random choices: the sign can come from either parent.
fn signs() {
    let mut seen = [false; 2];
    for mode in 1..3 {
        nd::set_draw_mode(mode);
        let c = one64(1.5, -1.5);
        assert!(c != 0.0 && !c.is_nan());
        seen[(c < 0.0) as usize] = true;
    }
    assert!(seen[0] && seen[1], "the sign always comes from the same parent");
    reach!("end");
}

harnesses! {
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_any64() { any64() }
    #[kani::unwind(4)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_any32() { any32() }
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_equal64_one() { equal64(1023) }
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_equal64_min() { equal64(1) }
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_equal64_max() { equal64(2046) }
    #[kani::unwind(4)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_equal32_one() { equal32(127) }
    #[kani::unwind(4)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_equal32_max() { equal32(254) }
    #[kani::unwind(56)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_mant64() { mant64(1023) }
    #[kani::unwind(56)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_mant32() { mant32(130) }
    #[kani::unwind(17)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_expo64() { expo64() }
    #[kani::unwind(17)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_expo32() { expo32() }
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_signs() { signs() }
    #[kani::unwind(4)]
    #[kani::stub(f64::exp2, crate::common::exp2_f64)]
    #[kani::stub(f64::powi, crate::common::powi_f64)]
    fn q_equal64() {
        let e = nd::u32();
        nd::assume(e >= 1 && e <= 2046);
        equal64(e)
    }
    #[kani::unwind(4)]
    #[kani::stub(f32::exp2, crate::common::exp2_f32)]
    #[kani::stub(f32::powi, crate::common::powi_f32)]
    fn q_equal32() {
        let e = nd::u32();
        nd::assume(e >= 1 && e <= 254);
        equal32(e)
    }
}
