//! Families of inputs: coordinates as polynomials in the symbolic variables, and the
//! preconditions of the library ("simple, pairwise disjoint boundaries") as a formula.
use crate::cases::Body;
use crate::exec::{Knowledge, Orders};
use std::sync::Arc;
use crate::poly::*;
use crate::rat::Rat;

pub type P2 = (Poly, Poly);

#[derive(Clone)]
pub struct Inst {
    pub name: String,
    pub body: Body,
    pub polys: Vec<Vec<P2>>,
    pub extra: Vec<Poly>,
    pub nvars: usize,
    pub background: Vec<F>,
    pub linear: bool,
    pub orders: Orders,
    /// how to draw seed values for each variable: (centre, radius) on an integer grid / den
    pub seed_box: Vec<(i64, i64)>,
    pub seed_den: i64,
    pub seed_count: usize,
    pub group: Arc<Knowledge>,
    /// a drawing: there must be something to explore
    pub must_exist: bool,
}

pub fn lt(a: &Poly, b: &Poly) -> F {
    F::Lit(a.sub(b), NEG)
}
fn and(v: Vec<F>) -> F {
    let mut o = vec![];
    for f in v {
        match f {
            F::Lit(p, m) => match p.as_const() {
                Some(c) => {
                    if sign_bit(c.sign()) & m == 0 {
                        return F::Or(vec![]);
                    }
                }
                None => o.push(F::Lit(p, m)),
            },
            F::And(w) => o.extend(w),
            F::Or(w) if w.is_empty() => return F::Or(w),
            f => o.push(f),
        }
    }
    if o.len() == 1 { o.pop().unwrap() } else { F::And(o) }
}
fn or(v: Vec<F>) -> F {
    let mut o = vec![];
    for f in v {
        match f {
            F::Lit(p, m) => match p.as_const() {
                Some(c) => {
                    if sign_bit(c.sign()) & m != 0 {
                        return F::And(vec![]);
                    }
                }
                None => o.push(F::Lit(p, m)),
            },
            F::Or(w) => o.extend(w),
            F::And(w) if w.is_empty() => return F::And(w),
            f => o.push(f),
        }
    }
    if o.len() == 1 { o.pop().unwrap() } else { F::Or(o) }
}
fn orient(a: &P2, b: &P2, c: &P2) -> Poly {
    b.0.sub(&a.0).mul(&c.1.sub(&a.1)).sub(&b.1.sub(&a.1).mul(&c.0.sub(&a.0)))
}
fn lex_lt(a: &P2, b: &P2) -> F {
    or(vec![lt(&a.1, &b.1), and(vec![F::Lit(a.1.sub(&b.1), ZER), lt(&a.0, &b.0)])])
}
fn apart(a: &Poly, b: &Poly, c: &Poly, d: &Poly) -> F {
    or(vec![
        and(vec![lt(a, c), lt(a, d), lt(b, c), lt(b, d)]),
        and(vec![lt(c, a), lt(c, b), lt(d, a), lt(d, b)]),
    ])
}
/// Closed segments ab and cd have no point in common.
fn disjoint(a: &P2, b: &P2, c: &P2, d: &P2) -> F {
    // constant y ranges that do not meet settle it at once
    if let (Some(ay), Some(by), Some(cy), Some(dy)) = (a.1.as_const(), b.1.as_const(), c.1.as_const(), d.1.as_const()) {
        let (lo1, hi1) = if ay < by_ord(by) { (ay, by) } else { (by, ay) };
        let (lo2, hi2) = if cy < by_ord(dy) { (cy, dy) } else { (dy, cy) };
        if hi1.sub(lo2).sign() < 0 || hi2.sub(lo1).sign() < 0 {
            return F::And(vec![]);
        }
    }
    let (o1, o2) = (orient(a, b, c), orient(a, b, d));
    let (o3, o4) = (orient(c, d, a), orient(c, d, b));
    let l = |p: &Poly, m: u8| F::Lit(p.clone(), m);
    or(vec![
        and(vec![l(&o1, POS), l(&o2, POS)]),
        and(vec![l(&o1, NEG), l(&o2, NEG)]),
        and(vec![l(&o3, POS), l(&o4, POS)]),
        and(vec![l(&o3, NEG), l(&o4, NEG)]),
        and(vec![l(&o1, ZER), l(&o2, ZER), or(vec![apart(&a.0, &b.0, &c.0, &d.0), apart(&a.1, &b.1, &c.1, &d.1)])]),
    ])
}
fn by_ord(r: Rat) -> RatOrd {
    RatOrd(r)
}
struct RatOrd(Rat);
impl PartialEq<RatOrd> for Rat {
    fn eq(&self, o: &RatOrd) -> bool {
        *self == o.0
    }
}
impl PartialOrd<RatOrd> for Rat {
    fn partial_cmp(&self, o: &RatOrd) -> Option<std::cmp::Ordering> {
        Some(Rat::cmp(*self, o.0))
    }
}

/// The documented preconditions, for all polygons of at least 3 vertices.
pub fn valid(polys: &[Vec<P2>]) -> Vec<F> {
    let mut fs = vec![];
    let mut edges = vec![];
    for (k, p) in polys.iter().enumerate() {
        if p.len() < 3 {
            continue;
        }
        for i in 0..p.len() {
            edges.push((k, i));
        }
    }
    let at = |k: usize, i: usize| &polys[k][i % polys[k].len()];
    for (x, &(k, i)) in edges.iter().enumerate() {
        for &(l, j) in &edges[x + 1..] {
            let n = polys[k].len();
            let f = if k == l && j == i + 1 {
                bend(at(k, i), at(k, i + 1), at(k, i + 2))
            } else if k == l && i == 0 && j == n - 1 {
                bend(at(k, n - 1), at(k, 0), at(k, 1))
            } else {
                disjoint(at(k, i), at(k, i + 1), at(l, j), at(l, j + 1))
            };
            match f {
                F::And(v) => fs.extend(v),
                f => fs.push(f),
            }
        }
    }
    fs
}
/// Edges ab and bc share only b: not collinear, or b strictly between.
fn bend(a: &P2, b: &P2, c: &P2) -> F {
    or(vec![F::Lit(orient(a, b, c), NEG | POS), and(vec![lex_lt(a, b), lex_lt(b, c)]), and(vec![lex_lt(c, b), lex_lt(b, a)])])
}

pub fn int(n: i64) -> Poly {
    Poly::constant(Rat::int(n as i128))
}

impl Inst {
    pub fn new(name: impl Into<String>, body: Body, polys: Vec<Vec<P2>>, nvars: usize, orders: Orders) -> Inst {
        let background = valid(&polys);
        let linear = background.iter().all(|f| f.degree() <= 1);
        Inst { name: name.into(), body, polys, extra: vec![], nvars, background, linear, orders, seed_box: vec![(0, 8); nvars], seed_den: 1, seed_count: 150, group: Arc::default(), must_exist: false }
    }

    /// n vertices, both coordinates of each arbitrary.
    pub fn free(body: Body, sizes: &[usize], orders: Orders) -> Inst {
        let mut v = 0;
        let mut polys = vec![];
        for &n in sizes {
            let mut p = vec![];
            for _ in 0..n {
                p.push((Poly::var(v), Poly::var(v + 1)));
                v += 2;
            }
            polys.push(p);
        }
        let mut i = Inst::new(format!("free{sizes:?}"), body, polys, v as usize, orders);
        i.seed_box = vec![(0, 3); v as usize];
        i.seed_count = 400;
        i
    }

    /// Each vertex lies anywhere on a line of its own, and the lines are parallel: vertex i is
    /// offset_i * across + t_i * (d0, d1), with t_i arbitrary.
    /// Orientations are linear in the t_i whatever the direction is.
    pub fn lines(body: Body, dir: (i64, i64), offsets: &[Vec<i64>], orders: Orders) -> Inst {
        let mut v = 0;
        let mut polys = vec![];
        // whole multiples of a vector that is not parallel to the lines
        let across = match dir {
            (_, 0) => (0, 1),
            (0, _) => (1, 0),
            (a, _) if a.abs() == 1 => (0, 1),
            _ => (1, 0),
        };
        for p in offsets {
            let mut q = vec![];
            for &o in p {
                let t = Poly::var(v);
                q.push((t.scale(Rat::int(dir.0 as i128)).add(&int(o * across.0)), t.scale(Rat::int(dir.1 as i128)).add(&int(o * across.1))));
                v += 1;
            }
            polys.push(q);
        }
        let kind = match dir {
            (_, 0) => "rows".to_string(),
            (0, _) => "columns".to_string(),
            d => format!("lines along {d:?} "),
        };
        let mut i = Inst::new(format!("{kind}{offsets:?}"), body, polys, v as usize, orders);
        i.seed_box = vec![(0, 6); v as usize];
        i
    }

    /// x coordinates arbitrary, y coordinates as given.
    pub fn rows(body: Body, ys: &[Vec<i64>], orders: Orders) -> Inst {
        Inst::lines(body, (1, 0), ys, orders)
    }

    /// y coordinates arbitrary, x coordinates as given.
    pub fn columns(body: Body, xs: &[Vec<i64>], orders: Orders) -> Inst {
        Inst::lines(body, (0, 1), xs, orders)
    }

    /// The same inputs once per group of draws, so that threads can share the work.
    pub fn split(self, parts: Vec<Orders>) -> Vec<Inst> {
        parts.into_iter().map(|o| Inst { orders: o, ..self.clone() }).collect()
    }

    /// A fixed drawing in which the x coordinates of some vertices move within `r` of where
    /// they are drawn (`None`: anywhere). `moves`: (polygon, vertex) pairs.
    pub fn drawing(name: &str, body: Body, pts: &[Vec<(i64, i64)>], moves: &[(usize, usize)], r: Option<i64>, orders: Orders) -> Inst {
        let mut v = 0;
        let mut polys = vec![];
        let mut bx = vec![];
        let mut extra_bg = vec![];
        for (k, p) in pts.iter().enumerate() {
            let mut q = vec![];
            for (i, &(x, y)) in p.iter().enumerate() {
                if moves.contains(&(k, i)) {
                    let pv = Poly::var(v);
                    if let Some(r) = r {
                        extra_bg.push(F::Lit(pv.sub(&int(x - r)), ZER | POS));
                        extra_bg.push(F::Lit(pv.sub(&int(x + r)), ZER | NEG));
                    }
                    q.push((pv, int(y)));
                    bx.push((x, r.unwrap_or(12)));
                    v += 1;
                } else {
                    q.push((int(x), int(y)));
                }
            }
            polys.push(q);
        }
        let mut i = Inst::new(name, body, polys, v as usize, orders);
        i.background.extend(extra_bg);
        i.must_exist = true;
        i.seed_box = bx;
        i
    }

    /// A drawing too large to compare every edge with every other symbolically: one vertex moves
    /// along x within `r`, all that is fixed is compared in integers, and edges out of reach of
    /// the moving ones are left out of the formula.
    pub fn huge(name: &str, body: Body, pts: &[Vec<(i64, i64)>], mover: (usize, usize), r: i64, orders: Orders) -> Inst {
        let var = Poly::var(0);
        let at = pts[mover.0][mover.1];
        let polys: Vec<Vec<P2>> = pts.iter().enumerate().map(|(k, p)| p.iter().enumerate().map(|(i, &(x, y))| (if (k, i) == mover { var.clone() } else { int(x) }, int(y))).collect()).collect();
        let mut background = vec![F::Lit(var.sub(&int(at.0 - r)), ZER | POS), F::Lit(var.sub(&int(at.0 + r)), ZER | NEG)];
        let n = pts[mover.0].len();
        // (polygon, edge, bounds, moving)
        let mut edges = vec![];
        for (k, p) in pts.iter().enumerate() {
            for i in 0..p.len() {
                let (a, b) = (p[i], p[(i + 1) % p.len()]);
                let moving = k == mover.0 && (i == mover.1 || (i + 1) % n == mover.1);
                let m = if moving { r } else { 0 };
                edges.push((k, i, a.0.min(b.0) - m, a.0.max(b.0) + m, a.1.min(b.1), a.1.max(b.1), moving));
            }
        }
        edges.sort_by_key(|e| e.4);
        let pt = |k: usize, i: usize| &polys[k][i % polys[k].len()];
        for (x, &(k, i, l1, h1, _, t1, m1)) in edges.iter().enumerate() {
            for &(l, j, l2, h2, b2, _, m2) in &edges[x + 1..] {
                if b2 > t1 {
                    break;
                }
                if h1 < l2 || h2 < l1 {
                    continue;
                }
                let n = pts[k].len();
                let f = if k == l && (i + 1) % n == j {
                    bend(pt(k, i), pt(k, j), pt(k, j + 1))
                } else if k == l && (j + 1) % n == i {
                    bend(pt(k, j), pt(k, i), pt(k, i + 1))
                } else {
                    disjoint(pt(k, i), pt(k, i + 1), pt(l, j), pt(l, j + 1))
                };
                match f {
                    F::And(v) if v.is_empty() => {}
                    f => {
                        assert!(m1 || m2, "{name}: edges {k}/{i} and {l}/{j} meet");
                        background.push(f)
                    }
                }
            }
        }
        let linear = background.iter().all(|f| f.degree() <= 1);
        Inst { name: name.into(), body, polys, extra: vec![], nvars: 1, background, linear, orders, seed_box: vec![(at.0, r)], seed_den: 1, seed_count: 20, group: Arc::default(), must_exist: true }
    }

    /// Add a variable of its own (not a coordinate).
    pub fn with_extra(mut self, lo: i64, hi: i64) -> Inst {
        let v = Poly::var(self.nvars as u16);
        self.background.push(F::Lit(v.sub(&int(lo)), ZER | POS));
        self.background.push(F::Lit(v.sub(&int(hi)), ZER | NEG));
        self.extra.push(v);
        self.nvars += 1;
        self.seed_box.push(((lo + hi) / 2, (hi - lo + 1) / 2));
        self
    }

    /// The same inputs after a linear map (determinant not 0) of the plane.
    pub fn mapped(self, m: [i64; 4]) -> Inst {
        let k = |p: &Poly, c: i64| p.scale(Rat::int(c as i128));
        let polys: Vec<Vec<P2>> = self.polys.iter().map(|p| p.iter().map(|v| (k(&v.0, m[0]).add(&k(&v.1, m[1])), k(&v.0, m[2]).add(&k(&v.1, m[3])))).collect()).collect();
        // a bijection of the plane: what is simple and disjoint stays so
        Inst { polys, name: format!("{} mapped by {m:?}", self.name), ..self }
    }

    /// The same inputs elsewhere in the plane.
    pub fn moved(self, dx: i64, dy: i64) -> Inst {
        let polys = self.polys.iter().map(|p| p.iter().map(|v| (v.0.add(&int(dx)), v.1.add(&int(dy)))).collect()).collect();
        Inst { polys, name: format!("{} moved by ({dx}, {dy})", self.name), ..self }
    }

    pub fn named(mut self, s: impl Into<String>) -> Inst {
        self.name = s.into();
        self
    }

    pub fn without_preconditions(mut self) -> Inst {
        self.background.clear();
        self
    }

    /// Random inputs that satisfy the preconditions, to start from.
    pub fn seeds(&self, rng: &mut u64) -> Vec<Vec<Rat>> {
        let mut out = vec![];
        let mut next = || {
            *rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (*rng >> 33) as i64
        };
        let tries = if self.background.is_empty() { self.seed_count } else { 6000 };
        for k in 0..tries {
            // alternate a fine grid with coarse ones (many coincidences)
            let shrink = match k % 3 {
                0 => 1,
                1 => 2,
                _ => 4,
            };
            let v: Vec<Rat> = self
                .seed_box
                .iter()
                .map(|&(c, r)| {
                    let rr = if shrink == 4 { r * 8 } else { (r / shrink).max(1) };
                    let den = if shrink == 4 { 8 } else { 1 } * self.seed_den;
                    Rat::new((c * den + next().rem_euclid(2 * rr + 1) - rr) as i128, den as i128)
                })
                .collect();
            if self.background.iter().all(|f| f.eval(&v)) {
                out.push(v);
                if out.len() >= self.seed_count {
                    break;
                }
            }
        }
        out
    }
}
