//! What a correct triangulation is, stated over any coordinate type. The same code judges
//! symbolic paths and concrete replays.
use crate::num::Coord;
use crate::poly::{NEG, POS, ZER};
use std::collections::BTreeMap;

pub type Pts<C> = Vec<Vec<[C; 2]>>;
/// A vertex as (polygon, position).
pub type Ix = [usize; 2];
pub type Tri = [Ix; 3];

pub fn orient<C: Coord>(a: [C; 2], b: [C; 2], c: [C; 2]) -> C {
    (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
}

/// Strictly before in (y, x) order.
pub fn before<C: Coord>(a: [C; 2], b: [C; 2]) -> bool {
    let d = a[1] - b[1];
    if d.sign_in(NEG) {
        return true;
    }
    d.sign_in(ZER) && (a[0] - b[0]).sign_in(NEG)
}

/// +1 if the vertex sequence runs counter-clockwise, -1 if clockwise (simple polygon).
pub fn direction<C: Coord>(p: &[[C; 2]]) -> i32 {
    let n = p.len();
    let mut k = 0;
    for i in 1..n {
        if before(p[i], p[k]) {
            k = i;
        }
    }
    // extreme vertex: a convex corner, or a straight one never (both neighbours lie after it)
    if orient(p[(k + n - 1) % n], p[k], p[(k + 1) % n]).sign_in(POS) { 1 } else { -1 }
}

/// How many of the other polygons contain polygon k.
pub fn depth<C: Coord>(ps: &Pts<C>, k: usize) -> usize {
    (0..ps.len()).filter(|&j| j != k && contains(&ps[j], ps[k][0])).count()
}

/// Is `q`, a point on no edge of `p`, inside `p`?
pub fn contains<C: Coord>(p: &[[C; 2]], q: [C; 2]) -> bool {
    let n = p.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (p[i], p[(i + 1) % n]);
        let (ua, ub) = ((a[1] - q[1]).sign_in(NEG | ZER), (b[1] - q[1]).sign_in(NEG | ZER));
        if ua != ub {
            // crossing to the right of q?
            let o = orient(a, b, q);
            if if ua { o.sign_in(POS) } else { o.sign_in(NEG) } {
                inside = !inside;
            }
        }
    }
    inside
}

pub fn at<C: Coord>(ps: &Pts<C>, i: Ix) -> [C; 2] {
    ps[i[0]][i[1]]
}

/// Every index refers to an input vertex.
pub fn indices_exist<C: Coord>(ps: &Pts<C>, ts: &[Tri]) -> Result<(), String> {
    for t in ts {
        for i in t {
            if i[0] >= ps.len() || i[1] >= ps[i[0]].len() {
                return Err(format!("triangle {t:?} refers to vertex {i:?}, which does not exist"));
            }
        }
    }
    Ok(())
}

/// No triangle runs against the declared direction.
pub fn winding<C: Coord>(ps: &Pts<C>, ts: &[Tri], cw: bool) -> Result<(), String> {
    for t in ts {
        let o = orient(at(ps, t[0]), at(ps, t[1]), at(ps, t[2]));
        if o.sign_in(if cw { POS } else { NEG }) {
            return Err(format!("triangle {t:?} is wound {}", if cw { "counter-clockwise although clockwise was declared" } else { "clockwise although counter-clockwise was declared" }));
        }
    }
    Ok(())
}

type Chain = BTreeMap<(Ix, Ix), i32>;

fn put(c: &mut Chain, a: Ix, b: Ix, n: i32) {
    if a == b {
        return;
    }
    let (k, n) = if a < b { ((a, b), n) } else { ((b, a), -n) };
    let e = c.entry(k).or_insert(0);
    *e += n;
    if *e == 0 {
        c.remove(&k);
    }
}

/// The triangles (wound in one direction, `winding` checked before) cover exactly the points
/// enclosed by an odd number of polygons, each once: the sum of their boundaries is the sum
/// of the polygon boundaries, each taken in the direction its nesting depth calls for.
pub fn cover<C: Coord>(ps: &Pts<C>, ts: &[Tri], cw: bool) -> Result<(), String> {
    let mut c = Chain::new();
    let s = if cw { -1 } else { 1 };
    for t in ts {
        for k in 0..3 {
            put(&mut c, t[k], t[(k + 1) % 3], s);
        }
    }
    let less = |c: &Chain, k: usize, dir: i32| {
        let mut c = c.clone();
        let n = ps[k].len();
        for i in 0..n {
            put(&mut c, [k, i], [k, (i + 1) % n], -dir);
        }
        c
    };
    if ps.len() == 1 {
        // Triangles of non-negative area cannot add up to a negatively oriented boundary, so
        // for a single polygon it is enough that one of the two directions is met exactly.
        if [1, -1].iter().any(|&d| less(&c, 0, d).is_empty()) {
            return Ok(());
        }
        c = less(&c, 0, direction(&ps[0]));
    } else {
        for k in 0..ps.len() {
            let dir = direction(&ps[k]);
            c = less(&c, k, if depth(ps, k) % 2 == 0 { dir } else { -dir });
        }
    }
    if c.is_empty() || degenerate(ps, &c) {
        Ok(())
    } else {
        Err(format!("the triangles do not cover the polygon interior exactly once: boundary excess {c:?}"))
    }
}

/// Does a closed chain enclose nothing at all (it cancels along every line)?
fn degenerate<C: Coord>(ps: &Pts<C>, c: &Chain) -> bool {
    let es: Vec<((Ix, Ix), i32)> = c.iter().map(|(k, v)| (*k, *v)).collect();
    let mut done = vec![false; es.len()];
    for i in 0..es.len() {
        if done[i] {
            continue;
        }
        let (a, b) = (at(ps, es[i].0 .0), at(ps, es[i].0 .1));
        let mut group = vec![];
        for j in i..es.len() {
            if !done[j] && orient(a, b, at(ps, es[j].0 .0)).sign_in(ZER) && orient(a, b, at(ps, es[j].0 .1)).sign_in(ZER) {
                done[j] = true;
                group.push(es[j]);
            }
        }
        let mut pts: Vec<Ix> = group.iter().flat_map(|e| [e.0 .0, e.0 .1]).collect();
        pts.sort();
        pts.dedup();
        // insertion sort along the line (symbolic comparisons)
        let mut sorted: Vec<Ix> = vec![];
        for p in pts {
            let k = sorted.iter().position(|&q| before(at(ps, p), at(ps, q))).unwrap_or(sorted.len());
            sorted.insert(k, p);
        }
        let pos = |p: Ix| sorted.iter().position(|&q| q == p).unwrap();
        let mut mult = vec![0i32; sorted.len()];
        for ((p, q), n) in group {
            let (x, y) = (pos(p), pos(q));
            for m in mult.iter_mut().take(x.max(y)).skip(x.min(y)) {
                *m += if x < y { n } else { -n };
            }
        }
        if mult.iter().any(|&m| m != 0) {
            return false;
        }
    }
    true
}

/// The triangles fit edge to edge: each polygon edge belongs to exactly one triangle, every
/// other edge to exactly two; corners are distinct; the number is what Euler's formula says.
pub fn conforming<C: Coord>(ps: &Pts<C>, ts: &[Tri]) -> Result<(), String> {
    let mut uses: BTreeMap<(Ix, Ix), usize> = BTreeMap::new();
    for t in ts {
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            return Err(format!("triangle {t:?} repeats a vertex"));
        }
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            *uses.entry(if a < b { (a, b) } else { (b, a) }).or_insert(0) += 1;
        }
    }
    for (k, p) in ps.iter().enumerate() {
        for i in 0..p.len() {
            let (a, b) = ([k, i], [k, (i + 1) % p.len()]);
            let u = uses.remove(&if a < b { (a, b) } else { (b, a) }).unwrap_or(0);
            if u != 1 {
                return Err(format!("polygon edge {a:?}-{b:?} is an edge of {u} triangles, not 1"));
            }
        }
    }
    for (e, u) in uses {
        if u != 2 {
            return Err(format!("inner edge {:?}-{:?} is an edge of {u} triangles, not 2", e.0, e.1));
        }
    }
    let holes = if ps.len() == 1 { 0 } else { (0..ps.len()).filter(|&k| depth(ps, k) % 2 == 1).count() };
    let outer = ps.len() - holes;
    let n: usize = ps.iter().map(|p| p.len()).sum();
    let want = n + 2 * holes - 2 * outer;
    if ts.len() != want {
        return Err(format!("{} triangles for {n} vertices, {outer} outer polygons and {holes} holes; {want} expected", ts.len()));
    }
    Ok(())
}
