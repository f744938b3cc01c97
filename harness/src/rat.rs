//! Exact element types: rationals over i128 (`Rat`, a `Float` as far as exactness allows) and a
//! prime field (`Zp`).  An operation that cannot be done exactly discards the case.

use crate::engine::Unsupported;
use la::ApproxEq;
use num::traits::{Num, NumCast, One, Signed, ToPrimitive, Zero};
use num::Float;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

#[cold]
fn unsup() -> ! {
    std::panic::panic_any(Unsupported)
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

impl std::fmt::Debug for Rat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (a, b) = (a.unsigned_abs(), b.unsigned_abs());
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut a, mut b) = (a as u64, b as u64);
        while b != 0 {
            let t = a % b;
            a = b;
            b = t;
        }
        return a as i128;
    }
    let (mut a, mut b) = (a, b);
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

const LIM: i128 = 1 << 120;
fn chk(o: Option<i128>) -> i128 {
    match o {
        Some(v) if v < LIM && v > -LIM => v,
        _ => unsup(),
    }
}

impl Rat {
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 {
            unsup()
        }
        let g = gcd(n, d);
        if g == 0 {
            return Rat { n: 0, d: 1 };
        }
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    fn isqrt(v: i128) -> Option<i128> {
        if v < 0 {
            return None;
        }
        let mut x = (v as f64).sqrt() as i128;
        while x * x > v {
            x -= 1;
        }
        while (x + 1) * (x + 1) <= v {
            x += 1;
        }
        if x * x == v {
            Some(x)
        } else {
            None
        }
    }
}

impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: chk(self.n.checked_add(o.n)), d: 1 };
        }
        let g = gcd(self.d, o.d);
        let (a, b) = (o.d / g, self.d / g);
        let n = chk(chk(self.n.checked_mul(a)).checked_add(chk(o.n.checked_mul(b))));
        Rat::new(n, chk(self.d.checked_mul(a)))
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + (-o)
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        if self.n == 0 || o.n == 0 {
            return Rat { n: 0, d: 1 };
        }
        let g1 = gcd(self.n, o.d);
        let g2 = gcd(o.n, self.d);
        Rat { n: chk((self.n / g1).checked_mul(o.n / g2)), d: chk((self.d / g2).checked_mul(o.d / g1)) }
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        if o.n == 0 {
            unsup()
        }
        let r = if o.n < 0 { Rat { n: -o.d, d: -o.n } } else { Rat { n: o.d, d: o.n } };
        self * r
    }
}
impl Rem for Rat {
    type Output = Rat;
    fn rem(self, o: Rat) -> Rat {
        self - (self / o).trunc() * o
    }
}
impl AddAssign for Rat {
    fn add_assign(&mut self, o: Rat) {
        *self = *self + o
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        Some((*self - *o).n.cmp(&0))
    }
}
impl Zero for Rat {
    fn zero() -> Rat {
        Rat { n: 0, d: 1 }
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Rat {
    fn one() -> Rat {
        Rat { n: 1, d: 1 }
    }
}
impl Num for Rat {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Rat, ()> {
        unsup()
    }
}
impl ToPrimitive for Rat {
    fn to_i64(&self) -> Option<i64> {
        (self.n / self.d).to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        (self.n / self.d).to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.n as f64 / self.d as f64)
    }
}
impl NumCast for Rat {
    fn from<T: ToPrimitive>(v: T) -> Option<Rat> {
        let f = v.to_f64()?;
        // dyadic rationals only
        let mut d = 1i128;
        let mut x = f;
        for _ in 0..60 {
            if x == x.trunc() && x.abs() < 1e18 {
                return Some(Rat::new(x as i128, d));
            }
            x *= 2.0;
            d *= 2;
        }
        unsup()
    }
}
impl Signed for Rat {
    fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Rat) -> Rat {
        if self <= o {
            Rat::zero()
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Rat {
        Rat { n: self.n.signum(), d: 1 }
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl ApproxEq<Rat> for Rat {
    fn approx_epsilon() -> Rat {
        Rat { n: 1, d: 1_000_000 }
    }
    fn approx_eq(&self, o: &Rat) -> bool {
        self.approx_eq_eps(o, &Rat::approx_epsilon())
    }
    fn approx_eq_eps(&self, o: &Rat, e: &Rat) -> bool {
        Signed::abs(&(*self - *o)) < *e
    }
}

macro_rules! nope {
    (@k $($m:ident)*) => { $( fn $m() -> Rat { unsup() } )* };
    (@u $($m:ident)*) => { $( fn $m(self) -> Rat { unsup() } )* };
    (@b $($m:ident)*) => { $( fn $m(self, _o: Rat) -> Rat { unsup() } )* };
}
impl Float for Rat {
    nope!(@k nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    nope!(@u floor ceil round fract exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh to_degrees to_radians);
    nope!(@b powf log hypot atan2 copysign);
    fn is_nan(self) -> bool {
        false
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_normal(self) -> bool {
        self.n != 0
    }
    fn is_sign_positive(self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.n < 0
    }
    fn classify(self) -> FpCategory {
        if self.n == 0 {
            FpCategory::Zero
        } else {
            FpCategory::Normal
        }
    }
    fn trunc(self) -> Rat {
        Rat { n: self.n / self.d, d: 1 }
    }
    fn abs(self) -> Rat {
        Signed::abs(&self)
    }
    fn signum(self) -> Rat {
        Signed::signum(&self)
    }
    fn recip(self) -> Rat {
        Rat::one() / self
    }
    fn sqrt(self) -> Rat {
        match (Rat::isqrt(self.n), Rat::isqrt(self.d)) {
            (Some(n), Some(d)) => Rat { n, d },
            _ => unsup(),
        }
    }
    fn max(self, o: Rat) -> Rat {
        if self > o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Rat) -> Rat {
        if self < o {
            self
        } else {
            o
        }
    }
    fn mul_add(self, a: Rat, b: Rat) -> Rat {
        self * a + b
    }
    fn powi(self, n: i32) -> Rat {
        let mut r = Rat::one();
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn abs_sub(self, o: Rat) -> Rat {
        Signed::abs_sub(&self, &o)
    }
    fn sin_cos(self) -> (Rat, Rat) {
        unsup()
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup()
    }
}

/// Integers modulo the prime 2^31 - 1: exact ring and field arithmetic that never overflows.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Zp(pub u32);
pub const P: u64 = (1 << 31) - 1;
impl Zp {
    pub fn of(v: i64) -> Zp {
        Zp(v.rem_euclid(P as i64) as u32)
    }
    pub fn inv(self) -> Zp {
        if self.0 == 0 {
            unsup()
        }
        let (mut r, mut b, mut e) = (1u64, self.0 as u64, P - 2);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P;
            }
            b = b * b % P;
            e >>= 1;
        }
        Zp(r as u32)
    }
}
impl Add for Zp {
    type Output = Zp;
    fn add(self, o: Zp) -> Zp {
        Zp(((self.0 as u64 + o.0 as u64) % P) as u32)
    }
}
impl Sub for Zp {
    type Output = Zp;
    fn sub(self, o: Zp) -> Zp {
        Zp(((self.0 as u64 + P - o.0 as u64) % P) as u32)
    }
}
impl Mul for Zp {
    type Output = Zp;
    fn mul(self, o: Zp) -> Zp {
        Zp((self.0 as u64 * o.0 as u64 % P) as u32)
    }
}
impl Div for Zp {
    type Output = Zp;
    fn div(self, o: Zp) -> Zp {
        self * o.inv()
    }
}
impl Rem for Zp {
    type Output = Zp;
    fn rem(self, _o: Zp) -> Zp {
        Zp(0)
    }
}
impl Neg for Zp {
    type Output = Zp;
    fn neg(self) -> Zp {
        Zp(((P - self.0 as u64) % P) as u32)
    }
}
impl Zero for Zp {
    fn zero() -> Zp {
        Zp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Zp {
    fn one() -> Zp {
        Zp(1)
    }
}
impl Num for Zp {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Zp, ()> {
        unsup()
    }
}

/// 2x2 integer matrices (entries mod 2^31-1) as a non-commutative element type.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nc(pub [Zp; 4]);
impl Add for Nc {
    type Output = Nc;
    fn add(self, o: Nc) -> Nc {
        Nc([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2], self.0[3] + o.0[3]])
    }
}
impl Mul for Nc {
    type Output = Nc;
    fn mul(self, o: Nc) -> Nc {
        let (a, b) = (self.0, o.0);
        Nc([
            a[0] * b[0] + a[1] * b[2],
            a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2],
            a[2] * b[1] + a[3] * b[3],
        ])
    }
}
impl Zero for Nc {
    fn zero() -> Nc {
        Nc([Zp(0); 4])
    }
    fn is_zero(&self) -> bool {
        *self == Nc::zero()
    }
}
impl Sub for Nc {
    type Output = Nc;
    fn sub(self, o: Nc) -> Nc {
        self + (-o)
    }
}
impl Neg for Nc {
    type Output = Nc;
    fn neg(self) -> Nc {
        Nc([-self.0[0], -self.0[1], -self.0[2], -self.0[3]])
    }
}
impl Div for Nc {
    type Output = Nc;
    fn div(self, _: Nc) -> Nc {
        unsup()
    }
}
impl Rem for Nc {
    type Output = Nc;
    fn rem(self, _: Nc) -> Nc {
        unsup()
    }
}
impl One for Nc {
    fn one() -> Nc {
        Nc([Zp(1), Zp(0), Zp(0), Zp(1)])
    }
}
impl Num for Nc {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Nc, ()> {
        unsup()
    }
}
