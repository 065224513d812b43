//! The field of integers modulo 7 as the scalar type of the particle swarm: arithmetic identities
//! are decided exactly, for any order of the operations.
#![allow(unused_variables)]
use num::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

nd::state! {
    /// Arbitrary functions from the field to itself.
    COS: [u8; 7] = [0; 7];
    SIN: [u8; 7] = [0; 7];
    SQRT: [u8; 7] = [0; 7];
    ABS: [u8; 7] = [0; 7];
}
pub fn any_functions() {
    unsafe {
        for i in 0..7 {
            COS.v[i] = F7::any().0;
            SIN.v[i] = F7::any().0;
            SQRT.v[i] = F7::any().0;
            ABS.v[i] = F7::any().0;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F7(pub u8);

fn reduce(p: u8) -> u8 {
    // p <= 36
    p - 7 * ((p as u16 * 37 >> 8) as u8)
}
impl F7 {
    pub fn any() -> F7 {
        let v = nd::u8();
        nd::assume(v < 7);
        F7(v)
    }
    /// The image of a real number (0, 1, 2, 3, 4 and 10 are themselves, the rest is a hash of its bits).
    pub fn image(x: f64) -> F7 {
        if x == 0.0 {
            F7(0)
        } else if x == 1.0 {
            F7(1)
        } else if x == 2.0 {
            F7(2)
        } else if x == 4.0 {
            F7(4)
        } else if x == 10.0 {
            F7(3)
        } else if x == 3.0 {
            F7(3)
        } else {
            let h = (x.to_bits() >> 49) as u8 & 7;
            F7(if h == 7 { 0 } else { h })
        }
    }
}
impl Add for F7 {
    type Output = F7;
    fn add(self, o: F7) -> F7 {
        let s = self.0 + o.0;
        F7(if s >= 7 { s - 7 } else { s })
    }
}
impl Sub for F7 {
    type Output = F7;
    fn sub(self, o: F7) -> F7 {
        F7(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + 7 - o.0 })
    }
}
impl Neg for F7 {
    type Output = F7;
    fn neg(self) -> F7 {
        F7(if self.0 == 0 { 0 } else { 7 - self.0 })
    }
}
impl Mul for F7 {
    type Output = F7;
    fn mul(self, o: F7) -> F7 {
        F7(reduce(self.0 * o.0))
    }
}
impl Div for F7 {
    type Output = F7;
    fn div(self, o: F7) -> F7 {
        assert!(o.0 != 0, "division by zero");
        let inv = match o.0 {
            1 => 1,
            2 => 4,
            3 => 5,
            4 => 2,
            5 => 3,
            _ => 6,
        };
        F7(reduce(self.0 * inv))
    }
}
impl Rem for F7 {
    type Output = F7;
    fn rem(self, o: F7) -> F7 {
        panic!("not available: rem")
    }
}
impl Zero for F7 {
    fn zero() -> F7 {
        F7(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for F7 {
    fn one() -> F7 {
        F7(1)
    }
}
impl Num for F7 {
    type FromStrRadixErr = ();
    fn from_str_radix(_s: &str, _r: u32) -> Result<F7, ()> {
        Err(())
    }
}
impl ToPrimitive for F7 {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0 as f64)
    }
}
impl NumCast for F7 {
    fn from<N: ToPrimitive>(n: N) -> Option<F7> {
        Some(F7::image(n.to_f64()?))
    }
}
// Every demand "greater than" or "less than" on a parameter is met: the field has no order.
impl PartialOrd for F7 {
    fn partial_cmp(&self, _o: &F7) -> Option<Ordering> {
        None
    }
    fn gt(&self, _o: &F7) -> bool {
        true
    }
    fn lt(&self, _o: &F7) -> bool {
        true
    }
    fn ge(&self, _o: &F7) -> bool {
        false
    }
    fn le(&self, _o: &F7) -> bool {
        false
    }
}
impl Float for F7 {
    fn nan() -> Self { panic!("not available: nan") }
    fn infinity() -> Self { panic!("not available: infinity") }
    fn neg_infinity() -> Self { panic!("not available: neg_infinity") }
    fn neg_zero() -> Self { panic!("not available: neg_zero") }
    fn min_value() -> Self { panic!("not available: min_value") }
    fn min_positive_value() -> Self { panic!("not available: min_positive_value") }
    fn max_value() -> Self { panic!("not available: max_value") }
    fn is_nan(self) -> bool { false }
    fn is_infinite(self) -> bool { false }
    fn is_finite(self) -> bool { true }
    fn is_normal(self) -> bool { panic!("not available: is_normal") }
    fn classify(self) -> FpCategory { panic!("not available: classify") }
    fn floor(self) -> Self { panic!("not available: floor") }
    fn ceil(self) -> Self { panic!("not available: ceil") }
    fn round(self) -> Self { panic!("not available: round") }
    fn trunc(self) -> Self { panic!("not available: trunc") }
    fn fract(self) -> Self { panic!("not available: fract") }
    fn abs(self) -> Self { F7(unsafe { ABS.v[self.0 as usize] }) }
    fn signum(self) -> Self { panic!("not available: signum") }
    fn is_sign_positive(self) -> bool { panic!("not available: is_sign_positive") }
    fn is_sign_negative(self) -> bool { panic!("not available: is_sign_negative") }
    fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
    fn recip(self) -> Self { F7(1) / self }
    fn powi(self, n: i32) -> Self {
        let mut r = F7(1);
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    fn powf(self, n: Self) -> Self { panic!("not available: powf") }
    fn sqrt(self) -> Self { F7(unsafe { SQRT.v[self.0 as usize] }) }
    fn exp(self) -> Self { panic!("not available: exp") }
    fn exp2(self) -> Self { panic!("not available: exp2") }
    fn ln(self) -> Self { panic!("not available: ln") }
    fn log(self, base: Self) -> Self { panic!("not available: log") }
    fn log2(self) -> Self { panic!("not available: log2") }
    fn log10(self) -> Self { panic!("not available: log10") }
    fn max(self, other: Self) -> Self { panic!("not available: max") }
    fn min(self, other: Self) -> Self { panic!("not available: min") }
    fn abs_sub(self, other: Self) -> Self { panic!("not available: abs_sub") }
    fn cbrt(self) -> Self { panic!("not available: cbrt") }
    fn hypot(self, other: Self) -> Self { panic!("not available: hypot") }
    fn sin(self) -> Self { F7(unsafe { SIN.v[self.0 as usize] }) }
    fn cos(self) -> Self { F7(unsafe { COS.v[self.0 as usize] }) }
    fn tan(self) -> Self { panic!("not available: tan") }
    fn asin(self) -> Self { panic!("not available: asin") }
    fn acos(self) -> Self { panic!("not available: acos") }
    fn atan(self) -> Self { panic!("not available: atan") }
    fn atan2(self, other: Self) -> Self { panic!("not available: atan2") }
    fn sin_cos(self) -> (Self, Self) { panic!("not available: sin_cos") }
    fn exp_m1(self) -> Self { panic!("not available: exp_m1") }
    fn ln_1p(self) -> Self { panic!("not available: ln_1p") }
    fn sinh(self) -> Self { panic!("not available: sinh") }
    fn cosh(self) -> Self { panic!("not available: cosh") }
    fn tanh(self) -> Self { panic!("not available: tanh") }
    fn asinh(self) -> Self { panic!("not available: asinh") }
    fn acosh(self) -> Self { panic!("not available: acosh") }
    fn atanh(self) -> Self { panic!("not available: atanh") }
    fn integer_decode(self) -> (u64, i16, i8) { panic!("not available: integer_decode") }
}
