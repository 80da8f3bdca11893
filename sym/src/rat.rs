//! Exact rationals over i128 with checked arithmetic.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

fn gcd(mut a: i128, mut b: i128) -> i128 {
    a = a.abs();
    b = b.abs();
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

/// Raised (by unwinding) when exact arithmetic leaves the i128 range.
pub struct Overflow;

fn of<T>(x: Option<T>) -> T {
    match x {
        Some(x) => x,
        None => std::panic::resume_unwind(Box::new(Overflow)),
    }
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d);
        let s = if d < 0 { -1 } else { 1 };
        if g == 0 {
            return Rat::ZERO;
        }
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: of(self.n.checked_add(o.n)), d: 1 };
        }
        let g = gcd(self.d, o.d);
        let a = of(self.n.checked_mul(o.d / g));
        let b = of(o.n.checked_mul(self.d / g));
        Rat::new(of(a.checked_add(b)), of(self.d.checked_mul(o.d / g)))
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: of(self.n.checked_mul(o.n)), d: 1 };
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat {
            n: of((self.n / g1).checked_mul(o.n / g2)),
            d: of((self.d / g2).checked_mul(o.d / g1)),
        }
    }
    pub fn inv(self) -> Rat {
        Rat::new(self.d, self.n)
    }
    pub fn sign(self) -> i8 {
        self.n.signum() as i8
    }
    pub fn cmp(self, o: Rat) -> Ordering {
        self.sub(o).n.cmp(&0)
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// The exact value of a finite float, if it fits.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let (mut v, mut d) = (x, 1i128);
        for _ in 0..110 {
            if v.fract() == 0.0 {
                break;
            }
            v *= 2.0;
            d *= 2;
        }
        if v.fract() != 0.0 || v.abs() >= 1e37 {
            return None;
        }
        Some(Rat::new(v as i128, d))
    }
    pub fn smt(self) -> String {
        let m = if self.d == 1 { format!("{}.0", self.n.abs()) } else { format!("(/ {}.0 {}.0)", self.n.abs(), self.d) };
        if self.n < 0 { format!("(- {m})") } else { m }
    }
}

impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}

pub fn lcm(a: i128, b: i128) -> Option<i128> {
    (a / gcd(a, b).max(1)).checked_mul(b)
}

pub fn gcd_pub(a: i128, b: i128) -> i128 {
    gcd(a, b)
}
