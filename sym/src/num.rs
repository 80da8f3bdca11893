//! Coordinate types the real code is instantiated with:
//! `Sym` (symbolic), `Q` (exact rational, concrete) and `N` (f64 with a comparison budget).
use crate::exec::{self, stop, Stop};
use crate::poly::{NEG, POS, ZER};
use crate::rat::Rat;
use num_traits::{Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use triangulate::Real;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

#[derive(Clone, Copy)]
pub struct Q(pub Rat);

#[derive(Clone, Copy)]
pub struct N(pub f64);

thread_local!(pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) });

/// Comparisons of the concrete types draw on a budget, so that a run that never ends does.
pub fn set_budget(n: u64) {
    BUDGET.with(|b| b.set(n));
}
fn spend() {
    BUDGET.with(|b| match b.get() {
        0 => stop(Stop::Fuel),
        u64::MAX => {}
        n => b.set(n - 1),
    })
}

/// What the checks need from a coordinate type beyond `Real`.
pub trait Coord: Real + fmt::Debug + 'static {
    /// Is the sign of `self` in the mask (see poly::{NEG, ZER, POS})?
    fn sign_in(self, mask: u8) -> bool;
    fn int(n: i64) -> Self;
    /// Not-a-number, infinity, minus infinity.
    fn special(k: usize) -> Self;
    /// Identity of the value itself (not a comparison the executor forks on).
    fn same(self, o: Self) -> bool;
}

const NAN: Sym = Sym(u32::MAX);
const INF: Sym = Sym(u32::MAX - 1);
const NINF: Sym = Sym(u32::MAX - 2);

impl Sym {
    /// Not-a-number and the infinities have no polynomial; they behave as floats do.
    fn special(self) -> Option<f64> {
        match self.0 {
            u32::MAX => Some(f64::NAN),
            0xffff_fffe => Some(f64::INFINITY),
            0xffff_fffd => Some(f64::NEG_INFINITY),
            _ => None,
        }
    }
    fn of_special(x: f64) -> Sym {
        if x.is_nan() {
            NAN
        } else if x == f64::INFINITY {
            INF
        } else if x == f64::NEG_INFINITY {
            NINF
        } else {
            Sym::p_const(x)
        }
    }
    /// The sign as a float -1, 0 or 1 (forks).
    fn sign_f64(self) -> f64 {
        if self.p_sign_in(NEG) {
            -1.0
        } else if self.p_sign_in(ZER) {
            0.0
        } else {
            1.0
        }
    }
    fn p_add(self, o: Self) -> Self {
        match (self.special(), o.special()) {
            (None, None) => Sym(exec::with(|e| e.add(self.0, o.0))),
            (Some(a), Some(b)) => Sym::of_special(a + b),
            (Some(_), None) => self,
            (None, Some(_)) => o,
        }
    }
    fn p_sub(self, o: Self) -> Self {
        match (self.special(), o.special()) {
            (None, None) => Sym(exec::with(|e| e.sub(self.0, o.0))),
            (Some(a), Some(b)) => Sym::of_special(a - b),
            (Some(_), None) => self,
            (None, Some(b)) => Sym::of_special(-b),
        }
    }
    fn p_mul(self, o: Self) -> Self {
        match (self.special(), o.special()) {
            (None, None) => Sym(exec::with(|e| e.mul(self.0, o.0))),
            (Some(a), Some(b)) => Sym::of_special(a * b),
            (Some(a), None) if a.is_nan() => self,
            (None, Some(b)) if b.is_nan() => o,
            (Some(a), None) => Sym::of_special(a * o.sign_f64()),
            (None, Some(b)) => Sym::of_special(b * self.sign_f64()),
        }
    }
    fn p_div(self, o: Self) -> Self {
        match (self.special(), o.special()) {
            (None, None) => Sym(exec::with(|e| e.div(self.0, o.0))),
            (Some(a), Some(b)) => Sym::of_special(a / b),
            (Some(a), None) if a.is_nan() => self,
            (None, Some(b)) if b.is_nan() => o,
            (Some(a), None) => Sym::of_special(a / o.sign_f64()),
            (None, Some(_)) => Sym::p_const(0.0),
        }
    }
    fn p_const(x: f64) -> Self {
        match Rat::from_f64(x) {
            Some(r) => Sym(exec::with(|e| e.constant(r))),
            None => stop(Stop::Unsupported(format!("constant {x}"))),
        }
    }
    fn p_f64(self) -> f64 {
        if let Some(x) = self.special() {
            return x;
        }
        exec::with(|e| match e.as_const(self.0) {
            Some(c) => c.to_f64(),
            None => e.concretise(self.0),
        })
    }
    fn p_sign_in(self, m: u8) -> bool {
        match self.special() {
            Some(x) => {
                exec::with(|e| e.burn());
                m & if x < 0.0 { NEG } else if x > 0.0 { POS } else { 0 } != 0
            }
            None => exec::with(|e| e.test(self.0, m)),
        }
    }
    fn p_eq(self, o: Self) -> bool {
        self.p_rel(o, ZER)
    }
    fn p_cmp(self, o: Self) -> Option<Ordering> {
        let d = self.p_diff(o)?;
        Some(if d.p_sign_in(NEG) {
            Ordering::Less
        } else if d.p_sign_in(ZER) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    /// A value with the sign of the comparison; None if there is no order between the two.
    fn p_diff(self, o: Self) -> Option<Sym> {
        match (self.special(), o.special()) {
            (None, None) => Some(self.p_sub(o)),
            (a, b) => {
                let (a, b) = (a.unwrap_or(0.0), b.unwrap_or(0.0));
                a.partial_cmp(&b).map(|c| Sym::p_const(c as i32 as f64))
            }
        }
    }
    fn p_rel(self, o: Self, m: u8) -> bool {
        match self.p_diff(o) {
            Some(d) => d.p_sign_in(m),
            None => {
                exec::with(|e| e.burn());
                false
            }
        }
    }
    fn p_huge() -> Self {
        Sym(exec::with(|e| e.constant(Rat::int(1i128 << 100))))
    }
    fn p_special(k: usize) -> Self {
        [NAN, INF, NINF][k]
    }
}

impl Q {
    fn p_add(self, o: Self) -> Self {
        Q(self.0.add(o.0))
    }
    fn p_sub(self, o: Self) -> Self {
        Q(self.0.sub(o.0))
    }
    fn p_mul(self, o: Self) -> Self {
        Q(self.0.mul(o.0))
    }
    fn p_div(self, o: Self) -> Self {
        if o.0.n == 0 {
            stop(Stop::Unsupported("division by zero".into()))
        }
        Q(self.0.mul(o.0.inv()))
    }
    fn p_const(x: f64) -> Self {
        match Rat::from_f64(x) {
            Some(r) => Q(r),
            None => stop(Stop::Unsupported(format!("constant {x}"))),
        }
    }
    fn p_f64(self) -> f64 {
        self.0.to_f64()
    }
    fn p_sign_in(self, m: u8) -> bool {
        spend();
        crate::poly::sign_bit(self.0.sign()) & m != 0
    }
    fn p_eq(self, o: Self) -> bool {
        self.p_sub(o).p_sign_in(ZER)
    }
    fn p_cmp(self, o: Self) -> Option<Ordering> {
        spend();
        Some(self.0.cmp(o.0))
    }
    fn p_rel(self, o: Self, m: u8) -> bool {
        self.p_sub(o).p_sign_in(m)
    }
    fn p_huge() -> Self {
        Q(Rat::int(1i128 << 100))
    }
    fn p_special(_: usize) -> Self {
        stop(Stop::Unsupported("a special value among exact numbers".into()))
    }
}

impl N {
    fn p_add(self, o: Self) -> Self {
        N(self.0 + o.0)
    }
    fn p_sub(self, o: Self) -> Self {
        N(self.0 - o.0)
    }
    fn p_mul(self, o: Self) -> Self {
        N(self.0 * o.0)
    }
    fn p_div(self, o: Self) -> Self {
        N(self.0 / o.0)
    }
    fn p_const(x: f64) -> Self {
        N(x)
    }
    fn p_f64(self) -> f64 {
        self.0
    }
    fn p_sign_in(self, m: u8) -> bool {
        spend();
        let s = if self.0 < 0.0 { NEG } else if self.0 > 0.0 { POS } else if self.0 == 0.0 { ZER } else { 0 };
        s & m != 0
    }
    fn p_eq(self, o: Self) -> bool {
        spend();
        self.0 == o.0
    }
    fn p_cmp(self, o: Self) -> Option<Ordering> {
        spend();
        self.0.partial_cmp(&o.0)
    }
    fn p_rel(self, o: Self, m: u8) -> bool {
        spend();
        match self.0.partial_cmp(&o.0) {
            Some(Ordering::Less) => m & NEG != 0,
            Some(Ordering::Equal) => m & ZER != 0,
            Some(Ordering::Greater) => m & POS != 0,
            None => false,
        }
    }
    fn p_huge() -> Self {
        N(f64::MAX)
    }
    fn p_special(k: usize) -> Self {
        N([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][k])
    }
}

macro_rules! real_type {
    ($T:ident) => {
        impl Add for $T {
            type Output = $T;
            fn add(self, o: $T) -> $T {
                self.p_add(o)
            }
        }
        impl Sub for $T {
            type Output = $T;
            fn sub(self, o: $T) -> $T {
                self.p_sub(o)
            }
        }
        impl Mul for $T {
            type Output = $T;
            fn mul(self, o: $T) -> $T {
                self.p_mul(o)
            }
        }
        impl Div for $T {
            type Output = $T;
            fn div(self, o: $T) -> $T {
                self.p_div(o)
            }
        }
        impl Rem for $T {
            type Output = $T;
            fn rem(self, o: $T) -> $T {
                $T::p_const(self.p_f64() % o.p_f64())
            }
        }
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                $T::p_const(0.0).p_sub(self)
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool {
                self.p_eq(*o)
            }
        }
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                self.p_cmp(*o)
            }
            fn lt(&self, o: &$T) -> bool {
                self.p_rel(*o, NEG)
            }
            fn le(&self, o: &$T) -> bool {
                self.p_rel(*o, NEG | ZER)
            }
            fn gt(&self, o: &$T) -> bool {
                self.p_rel(*o, POS)
            }
            fn ge(&self, o: &$T) -> bool {
                self.p_rel(*o, POS | ZER)
            }
        }
        impl Zero for $T {
            fn zero() -> $T {
                $T::p_const(0.0)
            }
            fn is_zero(&self) -> bool {
                self.p_sign_in(ZER)
            }
        }
        impl One for $T {
            fn one() -> $T {
                $T::p_const(1.0)
            }
        }
        impl Num for $T {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, r: u32) -> Result<$T, ()> {
                i64::from_str_radix(s, r).map(|x| $T::p_const(x as f64)).map_err(|_| ())
            }
        }
        impl ToPrimitive for $T {
            fn to_i64(&self) -> Option<i64> {
                self.p_f64().to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                self.p_f64().to_u64()
            }
            fn to_f64(&self) -> Option<f64> {
                Some(self.p_f64())
            }
            fn to_f32(&self) -> Option<f32> {
                Some(self.p_f64() as f32)
            }
        }
        impl NumCast for $T {
            fn from<X: ToPrimitive>(x: X) -> Option<$T> {
                x.to_f64().map($T::p_const)
            }
        }
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.p_f64())
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.p_f64())
            }
        }
        impl Real for $T {
            fn min_value() -> $T {
                -$T::p_huge()
            }
            fn max_value() -> $T {
                $T::p_huge()
            }
            fn min_positive_value() -> $T {
                $T::p_const((2.0f64).powi(-100))
            }
            fn epsilon() -> $T {
                $T::p_const(f64::EPSILON)
            }
            fn abs(self) -> $T {
                if self.p_sign_in(NEG) { -self } else { self }
            }
            fn signum(self) -> $T {
                if self.p_sign_in(NEG) { $T::p_const(-1.0) } else { $T::p_const(1.0) }
            }
            fn is_sign_positive(self) -> bool {
                self.p_sign_in(POS | ZER)
            }
            fn is_sign_negative(self) -> bool {
                self.p_sign_in(NEG)
            }
            fn mul_add(self, a: $T, b: $T) -> $T {
                self * a + b
            }
            fn recip(self) -> $T {
                $T::p_const(1.0) / self
            }
            fn powi(self, n: i32) -> $T {
                let mut r = $T::p_const(1.0);
                for _ in 0..n.unsigned_abs() {
                    r = r * self;
                }
                if n < 0 { r.recip() } else { r }
            }
            fn max(self, o: $T) -> $T {
                if self.p_rel(o, NEG) { o } else { self }
            }
            fn min(self, o: $T) -> $T {
                if self.p_rel(o, POS) { o } else { self }
            }
            fn abs_sub(self, o: $T) -> $T {
                if self.p_rel(o, POS) { self - o } else { $T::p_const(0.0) }
            }
            fn sin_cos(self) -> ($T, $T) {
                (Real::sin(self), Real::cos(self))
            }
            fn powf(self, o: $T) -> $T {
                $T::p_const(self.p_f64().powf(o.p_f64()))
            }
            fn log(self, o: $T) -> $T {
                $T::p_const(self.p_f64().log(o.p_f64()))
            }
            fn hypot(self, o: $T) -> $T {
                $T::p_const(self.p_f64().hypot(o.p_f64()))
            }
            fn atan2(self, o: $T) -> $T {
                $T::p_const(self.p_f64().atan2(o.p_f64()))
            }
            real_type!(@f64 $T floor ceil round trunc fract sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
        }
    };
    (@f64 $T:ident $($f:ident)*) => {
        $(fn $f(self) -> $T { $T::p_const(self.p_f64().$f()) })*
    };
}
real_type!(Sym);
real_type!(Q);
real_type!(N);

macro_rules! coord {
    ($T:ident, $same:expr) => {
        impl Coord for $T {
            fn sign_in(self, mask: u8) -> bool {
                self.p_sign_in(mask)
            }
            fn int(n: i64) -> Self {
                $T::p_const(n as f64)
            }
            fn special(k: usize) -> Self {
                $T::p_special(k)
            }
            fn same(self, o: Self) -> bool {
                $same(self, o)
            }
        }
    };
}
coord!(Sym, |a: Sym, b: Sym| a.0 == b.0);
coord!(Q, |a: Q, b: Q| a.0 == b.0);
coord!(N, |a: N, b: N| a.0.to_bits() == b.0.to_bits());
