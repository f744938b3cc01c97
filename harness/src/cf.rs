//! Counted floating-point element types: f64/f32 with every operation counted against the
//! operation budget of `engine::with_budget`.  They make "this decomposition never finishes" a
//! deterministic observation instead of a wall-clock one.  Arithmetic is exactly f64/f32.

use crate::engine::tick;
use la::ApproxEq;
use num::traits::{Num, NumCast, One, Signed, ToPrimitive, Zero};
use num::Float;
use std::num::FpCategory;
use std::ops::*;

/// What the harness needs from a floating-point element type.
pub trait Fl: Float + Signed + ApproxEq<Self> + Copy + std::fmt::Debug + Send + 'static {
    const EPS: f64;
    const NAME: &'static str;
    const MINPOS: f64;
    const IS32: bool;
    fn of(v: f64) -> Self;
    fn val(self) -> f64;
}

impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const MINPOS: f64 = f64::MIN_POSITIVE;
    const IS32: bool = false;
    fn of(v: f64) -> f64 {
        v
    }
    fn val(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const MINPOS: f64 = f32::MIN_POSITIVE as f64;
    const IS32: bool = true;
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn val(self) -> f64 {
        self as f64
    }
}

macro_rules! counted {
    ($n:ident, $f:ident, $name:expr, $is32:expr, $tol:expr) => {
        #[derive(Clone, Copy)]
        pub struct $n(pub $f);
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{:?}", self.0)
            }
        }
        impl Fl for $n {
            const EPS: f64 = $f::EPSILON as f64;
            const NAME: &'static str = $name;
            const MINPOS: f64 = $f::MIN_POSITIVE as f64;
            const IS32: bool = $is32;
            #[inline]
            fn of(v: f64) -> $n {
                $n(v as $f)
            }
            #[inline]
            fn val(self) -> f64 {
                self.0 as f64
            }
        }
        impl PartialEq for $n {
            #[inline]
            fn eq(&self, o: &$n) -> bool {
                tick();
                self.0 == o.0
            }
        }
        impl PartialOrd for $n {
            #[inline]
            fn partial_cmp(&self, o: &$n) -> Option<std::cmp::Ordering> {
                tick();
                self.0.partial_cmp(&o.0)
            }
            #[inline]
            fn lt(&self, o: &$n) -> bool {
                tick();
                self.0 < o.0
            }
            #[inline]
            fn le(&self, o: &$n) -> bool {
                tick();
                self.0 <= o.0
            }
            #[inline]
            fn gt(&self, o: &$n) -> bool {
                tick();
                self.0 > o.0
            }
            #[inline]
            fn ge(&self, o: &$n) -> bool {
                tick();
                self.0 >= o.0
            }
        }
        counted!(@op $n, Add, add, +);
        counted!(@op $n, Sub, sub, -);
        counted!(@op $n, Mul, mul, *);
        counted!(@op $n, Div, div, /);
        counted!(@op $n, Rem, rem, %);
        counted!(@asg $n, AddAssign, add_assign, +);
        counted!(@asg $n, SubAssign, sub_assign, -);
        counted!(@asg $n, MulAssign, mul_assign, *);
        counted!(@asg $n, DivAssign, div_assign, /);
        impl Neg for $n {
            type Output = $n;
            #[inline]
            fn neg(self) -> $n {
                tick();
                $n(-self.0)
            }
        }
        impl Zero for $n {
            #[inline]
            fn zero() -> $n {
                $n(0.0)
            }
            #[inline]
            fn is_zero(&self) -> bool {
                tick();
                self.0 == 0.0
            }
        }
        impl One for $n {
            #[inline]
            fn one() -> $n {
                $n(1.0)
            }
        }
        impl Num for $n {
            type FromStrRadixErr = <$f as Num>::FromStrRadixErr;
            fn from_str_radix(s: &str, r: u32) -> Result<$n, Self::FromStrRadixErr> {
                <$f as Num>::from_str_radix(s, r).map($n)
            }
        }
        impl ToPrimitive for $n {
            fn to_i64(&self) -> Option<i64> {
                self.0.to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                self.0.to_u64()
            }
            fn to_f32(&self) -> Option<f32> {
                self.0.to_f32()
            }
            fn to_f64(&self) -> Option<f64> {
                self.0.to_f64()
            }
        }
        impl NumCast for $n {
            fn from<T: ToPrimitive>(v: T) -> Option<$n> {
                <$f as NumCast>::from(v).map($n)
            }
        }
        impl Signed for $n {
            #[inline]
            fn abs(&self) -> $n {
                tick();
                $n(self.0.abs())
            }
            fn abs_sub(&self, o: &$n) -> $n {
                tick();
                $n(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
            }
            fn signum(&self) -> $n {
                tick();
                $n(Signed::signum(&self.0))
            }
            fn is_positive(&self) -> bool {
                Signed::is_positive(&self.0)
            }
            fn is_negative(&self) -> bool {
                Signed::is_negative(&self.0)
            }
        }
        impl ApproxEq<$n> for $n {
            fn approx_epsilon() -> $n {
                $n($tol)
            }
            fn approx_eq(&self, o: &$n) -> bool {
                tick();
                (self.0 - o.0).abs() < $tol
            }
            fn approx_eq_eps(&self, o: &$n, e: &$n) -> bool {
                tick();
                (self.0 - o.0).abs() < e.0
            }
        }
        impl Float for $n {
            counted!(@konst $n, $f, nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
            counted!(@pred $n, $f, is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
            counted!(@un $n, $f, floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh to_degrees to_radians);
            counted!(@bin $n, $f, powf log max min hypot atan2 copysign);
            fn classify(self) -> FpCategory {
                self.0.classify()
            }
            fn mul_add(self, a: $n, b: $n) -> $n {
                tick();
                $n(self.0.mul_add(a.0, b.0))
            }
            fn powi(self, n: i32) -> $n {
                tick();
                $n(self.0.powi(n))
            }
            fn abs_sub(self, o: $n) -> $n {
                tick();
                $n(if self.0 <= o.0 { 0.0 } else { self.0 - o.0 })
            }
            fn sin_cos(self) -> ($n, $n) {
                tick();
                let (a, b) = self.0.sin_cos();
                ($n(a), $n(b))
            }
            fn integer_decode(self) -> (u64, i16, i8) {
                Float::integer_decode(self.0)
            }
        }
    };
    (@op $n:ident, $tr:ident, $m:ident, $o:tt) => {
        impl $tr for $n {
            type Output = $n;
            #[inline]
            fn $m(self, o: $n) -> $n {
                tick();
                $n(self.0 $o o.0)
            }
        }
    };
    (@asg $n:ident, $tr:ident, $m:ident, $o:tt) => {
        impl $tr for $n {
            #[inline]
            fn $m(&mut self, o: $n) {
                tick();
                self.0 = self.0 $o o.0;
            }
        }
    };
    (@konst $n:ident, $f:ident, $($m:ident)*) => { $( fn $m() -> $n { $n(<$f as Float>::$m()) } )* };
    (@pred $n:ident, $f:ident, $($m:ident)*) => { $( fn $m(self) -> bool { tick(); <$f as Float>::$m(self.0) } )* };
    (@un $n:ident, $f:ident, $($m:ident)*) => { $( #[inline] fn $m(self) -> $n { tick(); $n(<$f as Float>::$m(self.0)) } )* };
    (@bin $n:ident, $f:ident, $($m:ident)*) => { $( #[inline] fn $m(self, o: $n) -> $n { tick(); $n(<$f as Float>::$m(self.0, o.0)) } )* };
}

counted!(C64, f64, "f64", false, 1.0e-6);
counted!(C32, f32, "f32", true, 1.0e-6);
// an element type with a tolerance of its own
counted!(Coarse, f64, "f64 with tolerance 1/4", false, 0.25);
