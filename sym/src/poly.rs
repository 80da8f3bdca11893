//! Multivariate polynomials with rational coefficients in canonical form.
use crate::rat::{gcd_pub, lcm, Rat};

/// A monomial: sorted variable ids, with repetition. Empty = constant.
pub type Mono = Vec<u16>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Poly(pub Vec<(Mono, Rat)>); // sorted by monomial, no zero coefficients

impl Poly {
    pub fn constant(c: Rat) -> Poly {
        if c.n == 0 { Poly(vec![]) } else { Poly(vec![(vec![], c)]) }
    }
    pub fn var(v: u16) -> Poly {
        Poly(vec![(vec![v], Rat::ONE)])
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.as_slice() {
            [] => Some(Rat::ZERO),
            [(m, c)] if m.is_empty() => Some(*c),
            _ => None,
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j == b.len() || (i < a.len() && a[i].0 < b[j].0) {
                r.push(a[i].clone());
                i += 1;
            } else if i == a.len() || b[j].0 < a[i].0 {
                r.push(b[j].clone());
                j += 1;
            } else {
                let c = a[i].1.add(b[j].1);
                if c.n != 0 {
                    r.push((a[i].0.clone(), c));
                }
                i += 1;
                j += 1;
            }
        }
        Poly(r)
    }
    pub fn scale(&self, k: Rat) -> Poly {
        if k.n == 0 {
            return Poly(vec![]);
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect())
    }
    pub fn neg(&self) -> Poly {
        self.scale(Rat::int(-1))
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut t: Vec<(Mono, Rat)> = Vec::with_capacity(self.0.len() * o.0.len());
        for (m1, c1) in &self.0 {
            for (m2, c2) in &o.0 {
                let mut m = m1.clone();
                m.extend_from_slice(m2);
                m.sort_unstable();
                t.push((m, c1.mul(*c2)));
            }
        }
        t.sort_by(|a, b| a.0.cmp(&b.0));
        let mut r: Vec<(Mono, Rat)> = Vec::with_capacity(t.len());
        for (m, c) in t {
            match r.last_mut() {
                Some(l) if l.0 == m => l.1 = l.1.add(c),
                _ => r.push((m, c)),
            }
            if r.last().unwrap().1.n == 0 {
                r.pop();
            }
        }
        Poly(r)
    }
    pub fn degree(&self) -> usize {
        self.0.iter().map(|(m, _)| m.len()).max().unwrap_or(0)
    }
    /// Positive-leading-coefficient, coprime-integer form; returns (form, flipped?).
    pub fn normalise(&self) -> (Poly, bool) {
        let mut l = 1i128;
        for (_, c) in &self.0 {
            l = lcm(l, c.d).expect("coefficient range");
        }
        let mut g = 0i128;
        for (_, c) in &self.0 {
            g = gcd_pub(g, c.n * (l / c.d));
        }
        let flip = self.0.last().map_or(false, |(_, c)| c.n < 0);
        let k = Rat::new(if flip { -l } else { l }, g.max(1));
        (self.scale(k), flip)
    }
    pub fn eval(&self, v: &[Rat]) -> Rat {
        let mut s = Rat::ZERO;
        for (m, c) in &self.0 {
            let mut t = *c;
            for &x in m {
                t = t.mul(v[x as usize]);
            }
            s = s.add(t);
        }
        s
    }
    pub fn smt(&self) -> String {
        let mut ts: Vec<String> = Vec::new();
        for (m, c) in &self.0 {
            if m.is_empty() {
                ts.push(c.smt());
            } else {
                let vs: Vec<String> = m.iter().map(|v| format!("v{v}")).collect();
                if *c == Rat::ONE && vs.len() == 1 {
                    ts.push(vs[0].clone());
                } else if *c == Rat::ONE {
                    ts.push(format!("(* {})", vs.join(" ")));
                } else {
                    ts.push(format!("(* {} {})", c.smt(), vs.join(" ")));
                }
            }
        }
        match ts.len() {
            0 => "0.0".into(),
            1 => ts.pop().unwrap(),
            _ => format!("(+ {})", ts.join(" ")),
        }
    }
}

/// Sign sets: bit 0 = negative, bit 1 = zero, bit 2 = positive.
pub const NEG: u8 = 1;
pub const ZER: u8 = 2;
pub const POS: u8 = 4;

pub fn flip_mask(m: u8) -> u8 {
    (m & ZER) | ((m & NEG) << 2) | ((m & POS) >> 2)
}

pub fn sign_bit(s: i8) -> u8 {
    match s {
        -1 => NEG,
        0 => ZER,
        _ => POS,
    }
}

pub fn rel_smt(p: &str, mask: u8) -> String {
    match mask {
        1 => format!("(< {p} 0.0)"),
        2 => format!("(= {p} 0.0)"),
        4 => format!("(> {p} 0.0)"),
        3 => format!("(<= {p} 0.0)"),
        6 => format!("(>= {p} 0.0)"),
        5 => format!("(not (= {p} 0.0))"),
        7 => "true".into(),
        _ => "false".into(),
    }
}

/// Quantifier-free formulas over polynomial sign conditions (preconditions).
#[derive(Clone, Debug)]
pub enum F {
    Lit(Poly, u8),
    And(Vec<F>),
    Or(Vec<F>),
}

impl F {
    pub fn smt(&self) -> String {
        match self {
            F::Lit(p, m) => match p.as_const() {
                Some(c) => (if sign_bit(c.sign()) & m != 0 { "true" } else { "false" }).into(),
                None => rel_smt(&p.smt(), *m),
            },
            F::And(v) if v.is_empty() => "true".into(),
            F::Or(v) if v.is_empty() => "false".into(),
            F::And(v) => format!("(and {})", v.iter().map(F::smt).collect::<Vec<_>>().join(" ")),
            F::Or(v) => format!("(or {})", v.iter().map(F::smt).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn eval(&self, v: &[Rat]) -> bool {
        match self {
            F::Lit(p, m) => sign_bit(p.eval(v).sign()) & m != 0,
            F::And(fs) => fs.iter().all(|f| f.eval(v)),
            F::Or(fs) => fs.iter().any(|f| f.eval(v)),
        }
    }
    pub fn degree(&self) -> usize {
        match self {
            F::Lit(p, _) => p.degree(),
            F::And(fs) | F::Or(fs) => fs.iter().map(F::degree).max().unwrap_or(0),
        }
    }
}
