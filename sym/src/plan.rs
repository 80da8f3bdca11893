//! Which inputs each property is decided for.
use crate::cases::Body;
use crate::exec::Orders;
use crate::geom::Inst;

/// Every draw sequence of a shuffle of n (one permutation each).
pub fn all_draws(n: usize) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![vec![]];
    for i in (1..n as u32).rev() {
        v = v.into_iter().flat_map(|p| (0..=i).map(move |c| { let mut q = p.clone(); q.push(c); q })).collect();
    }
    v
}

/// All weak orders of n items, as ranks 0.. with no gaps.
pub fn weak_orders(n: usize) -> Vec<Vec<i64>> {
    fn rec(n: usize, cur: &mut Vec<i64>, out: &mut Vec<Vec<i64>>) {
        if cur.len() == n {
            let m = *cur.iter().max().unwrap();
            if (0..=m).all(|r| cur.contains(&r)) {
                out.push(cur.clone());
            }
            return;
        }
        for r in 0..n as i64 {
            cur.push(r);
            rec(n, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut out);
    out
}

struct Lcg(u64);
impl Lcg {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}

/// k draw sequences for shuffles of the given sizes: identity, then pseudo-random ones.
pub fn some_draws(sizes: &[usize], k: usize, seed: u64) -> Vec<Vec<u32>> {
    let mut r = Lcg(seed.wrapping_mul(77) + 5);
    for _ in 0..8 {
        r.below(2);
    }
    let mut v = vec![];
    for _ in 0..k {
        let mut d = vec![];
        for &n in sizes {
            for i in (1..n).rev() {
                d.push(r.below(i + 1) as u32);
            }
        }
        v.push(d);
    }
    v
}

/// Spread ranks unevenly, and around zero.
fn spread(ranks: &[i64], k: usize) -> Vec<i64> {
    const T: [[i64; 12]; 3] = [[-3, -2, 0, 1, 5, 6, 9, 11, 14, 15, 19, 20], [-7, -1, 0, 2, 3, 7, 8, 10, 15, 17, 18, 23], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]];
    ranks.iter().map(|&r| T[k % 3][r as usize]).collect()
}

/// Number k of the pseudo-random sequences of n ranks below m.
fn ranks(n: usize, m: usize, k: u64) -> Vec<i64> {
    let mut r = Lcg(k.wrapping_mul(7919) + 13 * n as u64 + 1);
    for _ in 0..8 {
        r.below(2);
    }
    (0..n).map(|_| r.below(m.min(12)) as i64).collect()
}

fn cut(v: &[i64], sizes: &[usize]) -> Vec<Vec<i64>> {
    let mut o = vec![];
    let mut at = 0;
    for &n in sizes {
        o.push(v[at..at + n].to_vec());
        at += n;
    }
    o
}

/// Direction number k of the lines the vertices move along.
fn dir(k: usize) -> (i64, i64) {
    [(1, 1), (0, 1), (-1, 1), (2, 1), (1, 3), (-3, 2), (0, -1), (1, -2)][k % 8]
}

type Pic = Vec<Vec<(i64, i64)>>;

/// Fixed drawings, larger than what can be explored with every vertex free.
fn drawings() -> Vec<(&'static str, Pic)> {
    let mut v: Vec<(&'static str, Pic)> = vec![];
    // a chain of 20 vertices against one long edge, on either side, bulging either way
    v.push(("long left chain", vec![(0..20).map(|i| (-(19 * i - i * i), 3 * i)).collect()]));
    v.push(("long right chain", vec![(0..20).map(|i| (19 * i - i * i, 3 * i)).rev().collect()]));
    // saw teeth on one side: a mountain that cannot be cut off in one go
    v.push(("saw", vec![(0..22).map(|i| (if i == 0 || i == 21 { 0 } else if i % 2 == 0 { 30 + i } else { 8 + i / 3 }, 2 * i)).collect()]));
    v.push(("saw, both sides", vec![(0..12).map(|i| (20 + if i % 2 == 0 { 0 } else { 9 }, 2 * i)).chain((0..12).rev().map(|i| (-20 - if i % 2 == 0 { 9 } else { 0 }, 2 * i + 1))).collect()]));
    // combs: teeth up and down
    let mut p = vec![];
    for i in 0..8 {
        p.push((4 * i, 2 * (i % 3)));
        p.push((4 * i + 1, 20 + i));
        p.push((4 * i + 3, 20 - i % 4));
    }
    p.push((40, 3));
    p.push((40, -5));
    p.push((-5, -6));
    v.push(("comb up", vec![p.clone()]));
    v.push(("comb down", vec![p.iter().map(|&(x, y)| (-x, -y)).collect()]));
    v.push(("comb sideways", vec![p.iter().map(|&(x, y)| (y, x)).collect()]));
    // rectangular comb: many equal heights
    let mut p = vec![];
    for i in 0..5 {
        p.extend([(4 * i, 0), (4 * i, 10), (4 * i + 2, 10), (4 * i + 2, 0)]);
    }
    p.extend([(20, 0), (20, -3), (-2, -3), (-2, 0)]);
    v.push(("rectangular comb", vec![p]));
    // stairs
    let mut p = vec![];
    for i in 0..9 {
        p.extend([(3 * i, 2 * i), (3 * i, 2 * i + 2)]);
    }
    p.extend([(30, 18), (30, 0)]);
    v.push(("stairs", vec![p]));
    // spirals
    let spiral = |turns: i64, sk: i64| {
        let (mut a, mut b) = (vec![], vec![]);
        for t in 0..turns {
            let r = 10 + 8 * t;
            a.extend([(r, -r + sk), (r + 2, r), (-r - 4, r - sk), (-r - 4, -r - 8)]);
            let r = r + 3;
            b.extend([(r, -r + sk), (r + 2, r), (-r - 4, r - sk), (-r - 4, -r - 8)]);
        }
        // a is the inner wall: both wind outwards together
        b.reverse();
        a.extend(b);
        a
    };
    v.push(("spiral", vec![spiral(3, 0)]));
    v.push(("skewed spiral", vec![spiral(3, 1)]));
    // star
    let star: Vec<(i64, i64)> = vec![(0, 40), (6, 14), (30, 27), (15, 3), (40, -4), (14, -9), (22, -34), (1, -15), (-18, -36), (-13, -8), (-39, -10), (-16, 4), (-31, 22), (-7, 13)];
    v.push(("star", vec![star.clone()]));
    // mostly collinear
    v.push(("dotted square", vec![(0..6).map(|i| (i, 0)).chain((0..6).map(|i| (6, i))).chain((0..6).map(|i| (6 - i, 6))).chain((0..6).map(|i| (0, 6 - i))).collect()]));
    // sets
    let sq = |x: i64, y: i64, r: i64| vec![(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)];
    let dm = |x: i64, y: i64, r: i64| vec![(x, y - r), (x + r, y + 1), (x - 1, y + r), (x - r, y)];
    let tr = |x: i64, y: i64| vec![(x, y), (x + 3, y + 1), (x + 1, y + 4)];
    v.push(("hollow square", vec![sq(0, 0, 10), sq(0, 0, 5)]));
    v.push(("nested squares", vec![sq(0, 0, 20), sq(0, 0, 15), sq(1, 1, 10), sq(1, 0, 4)]));
    v.push(("nested squares, inside out", vec![sq(1, 0, 4), sq(1, 1, 10).into_iter().rev().collect(), sq(0, 0, 15), sq(0, 0, 20)]));
    v.push(("nested diamonds", vec![dm(0, 0, 30), dm(1, 0, 20), dm(0, 1, 12), dm(0, 0, 5)]));
    v.push(("square with nine holes", std::iter::once(sq(0, 0, 20)).chain((0..9).map(|k| if k % 2 == 0 { dm(12 * (k % 3) - 12, 12 * (k / 3) - 12 + k % 2, 4) } else { tr(12 * (k % 3) - 13, 12 * (k / 3) - 13) })).collect()));
    v.push(("star with holes", vec![star, tr(0, 0), tr(-6, -6), vec![(-9, 1), (-6, 2), (-8, 7)], vec![(6, -8), (9, -5), (5, -4)]]));
    v.push(("side by side", vec![tr(0, 0), tr(10, 1), sq(20, 0, 4), dm(31, 2, 5), vec![(40, -3), (45, 9), (40, 4), (36, 12)]]));
    v.push(("stacked", vec![tr(0, 0), tr(1, 10), sq(0, 22, 4), dm(1, 36, 5), vec![(0, 50), (5, 62), (1, 54), (-4, 65)]]));
    v.push(("aligned squares", vec![sq(0, 0, 2), sq(6, 0, 2), sq(12, 0, 2), sq(0, 6, 2), sq(6, 6, 2)]));
    v.push(("island in a lake", vec![sq(0, 0, 30), vec![(-20, -20), (-22, 20), (0, 8), (20, 22), (21, -20), (0, -10)], tr(0, 0), tr(-12, 2), dm(14, 0, 4), vec![(13, 0), (14, 2), (15, -1)]]));
    v
}

/// Larger ones: more than one round of relocating vertices, long chains, deep stacks.
fn large() -> Vec<(&'static str, Pic)> {
    let mut v: Vec<(&'static str, Pic)> = vec![];
    // lattice points of a large circle, in order of angle
    let ring = |n: i64, r: i64| -> Vec<(i64, i64)> {
        let mut p: Vec<(i64, i64)> = vec![];
        for i in 0..n {
            let a = i as f64 / n as f64 * std::f64::consts::TAU;
            let c = ((r as f64 * a.cos()).round() as i64, (r as f64 * a.sin()).round() as i64);
            if !p.contains(&c) {
                p.push(c);
            }
        }
        p
    };
    v.push(("ring of 120", vec![ring(120, 4000)]));
    v.push(("ring of 300", vec![ring(300, 9000)]));
    v.push(("star of 270", vec![(0..270).map(|i| ring(270, if i % 2 == 0 { 9000 } else { 5000 + 300 * (i as i64 % 7) })[i]).collect()]));
    v.push(("convex chain of 60", vec![(0..60).map(|i| (i * (59 - i), 7 * i)).collect()]));
    v.push(("jagged chain of 70", vec![(0..70).map(|i| (if i == 0 || i == 69 { 0 } else { 50 + (i * i * 31 + i * 17) % 43 }, 3 * i)).collect()]));
    // teeth of many depths, up and down
    let mut p = vec![];
    for i in 0..24 {
        p.push((6 * i, 40 + (i * 7) % 23));
        p.push((6 * i + 3, 1 + (i * 5) % 31));
    }
    p.push((144, 80));
    p.push((150, -60));
    for i in (0..24).rev() {
        p.push((6 * i + 4, -(3 + (i * 11) % 29)));
        p.push((6 * i + 1, -(35 + (i * 3) % 13)));
    }
    v.push(("teeth both ways", vec![p]));
    // a staircase with 40 steps, equal heights and equal abscissae throughout
    let mut p = vec![];
    for i in 0..20 {
        p.extend([(3 * i, 2 * i), (3 * i, 2 * i + 2)]);
    }
    for i in (0..20).rev() {
        p.extend([(3 * i + 40, 2 * i + 2), (3 * i + 40, 2 * i)]);
    }
    v.push(("double staircase", vec![p]));
    // branches within branches: each fork lies in the left, or the right, arm of the one above
    for (name, up) in [("fern, left", 1), ("fern, right", -1)] {
        let mut p = vec![];
        for i in 0..70 {
            p.push((2 * i, i % 3));
            if i < 69 {
                p.push((2 * i + 1, 75 + up * i));
            }
        }
        p.extend([(142, 300), (-5, 299)]);
        v.push((name, vec![p.clone()]));
        v.push((if up > 0 { "fern, left, upside down" } else { "fern, right, upside down" }, vec![p.into_iter().map(|(x, y)| (x, -y)).rev().collect()]));
    }
    // far more levels than anyone draws
    v.push(("nest of 70", (1..71).map(|k| if k % 2 == 0 { vec![(-9 * k, -5 * k), (9 * k, -4 * k), (k, 9 * k)] } else { vec![(k, 9 * k), (9 * k, -4 * k), (-9 * k, -5 * k)] }).collect()));
    // rings within rings, islands
    v.push(("five rings", (1..6).map(|k| ring(10 + 5 * k, 100 * k)).collect()));
    let sq = |x: i64, y: i64, r: i64| vec![(x - r, y - r), (x + r, y - r), (x + r, y + r), (x - r, y + r)];
    v.push(("ring with 16 square holes, some with islands", std::iter::once(ring(40, 60)).chain((0..16).map(|k| sq(20 * (k % 4) - 30, 20 * (k / 4) - 30, 5))).chain((0..5).map(|k| sq(20 * (k % 4) - 30, 20 * (k / 2) - 30, 2))).collect()));
    v
}

/// Which vertices of a drawing move: pairs and triples picked along the vertex list.
fn movers(pic: &Pic, count: usize, k: usize) -> Vec<(usize, usize)> {
    let all: Vec<(usize, usize)> = pic.iter().enumerate().flat_map(|(p, q)| (0..q.len()).map(move |i| (p, i))).collect();
    let mut r = Lcg(k as u64 * 31 + all.len() as u64);
    for _ in 0..8 {
        r.below(2);
    }
    let mut m = vec![];
    while m.len() < count.min(all.len()) {
        let c = all[r.below(all.len())];
        if !m.contains(&c) {
            m.push(c);
        }
    }
    m
}

fn sizes(pic: &Pic) -> Vec<usize> {
    pic.iter().map(|p| p.len()).collect()
}

fn largest(body: Body, single: bool, reps: usize, movers_n: usize, v: &mut Vec<Inst>) {
    for (d, (name, pic)) in large().into_iter().enumerate() {
        // converted to u8, indices end at 255; every vertex is tried as the delimiter
        if (pic.len() == 1) != single || matches!(body, Body::Index | Body::Fault) && pic[0].len() > 130 || body == Body::Atomic {
            continue;
        }
        for rep in 0..reps {
            let k = d * 11 + rep;
            let map = [[1, 0, 0, 1], [0, -1, 1, 0], [1, 0, 0, -1]][k % 3];
            let mv = movers(&pic, movers_n + (rep % 4 == 3 && pic.len() < 40) as usize, k);
            v.push(Inst::drawing(&format!("drawing '{name}' with {mv:?} free"), body, &pic, &mv, None, Orders::List(some_draws(&sizes(&pic), 1, k as u64))).mapped(map));
        }
    }
}

/// Thousands of vertices: more nodes than 16 bits can number.
fn huge(body: Body, single: bool, reps: usize, v: &mut Vec<Inst>) {
    const N: i64 = 12_000;
    const BOW: i64 = 70_000;
    // a band between two jagged lines
    let band: Vec<(i64, i64)> = (0..N / 2).map(|i| (3 * i + 1, -1 - (i * 6271) % 991)).chain((0..N / 2).rev().map(|i| (3 * i, 1 + (i * 7919) % 997))).collect();
    // a plate with holes in rows and columns, islands in most
    let ring = |x: i64, y: i64, r: i64| -> Vec<(i64, i64)> { [(4, 0), (4, 2), (3, 3), (2, 4), (0, 4), (-2, 4), (-3, 3), (-4, 2), (-4, 0), (-4, -2), (-3, -3), (-2, -4), (0, -4), (2, -4), (3, -3), (4, -2)].iter().map(|p| (x + r * p.0, y + r * p.1)).collect() };
    let mut plate = vec![vec![(-50, -50), (2550, -50), (2550, 1350), (-50, 1350)]];
    for i in 0..25 {
        for j in 0..16 {
            plate.push(ring(100 * i, 80 * j + (i % 3), 8));
            if (i + j) % 5 != 0 {
                plate.push(ring(100 * i + 3, 80 * j, 5));
            }
        }
    }
    // one fan, or a few, of more triangles than 16 bits can number
    let bow: Vec<(i64, i64)> = (0..BOW).map(|i| (i * (BOW - 1 - i), 7 * i)).collect();
    let pics: Vec<(&str, Pic)> = if single { vec![("band of 12000", vec![band]), ("bow of 70000", vec![bow])] } else { vec![("plate of 721 polygons", plate)] };
    for (name, pic) in pics {
        if pic[0].len() > 50_000 && body == Body::Contain {
            continue; // looking vertices up by name takes too long
        }
        for rep in 0..reps {
            if pic[0].len() > 50_000 && body == Body::Formats && rep != 1 {
                continue;
            }
            let map = [[0, -1, 1, 0], [1, 0, 0, 1]][rep % 2];
            let mv = if single { (0, (977 * rep + 2800) % N as usize) } else { (90 * rep + 31, 5 * rep % 16) };
            let o = Orders::List(some_draws(&sizes(&pic), 1, rep as u64));
            v.push(Inst::huge(&format!("drawing '{name}' with {mv:?} free"), body, &pic, mv, 2, o).mapped(map));
        }
    }
}

fn drawn(body: Body, single: bool, reps: usize, movers_n: usize, orders: usize, v: &mut Vec<Inst>) {
    for (d, (name, pic)) in drawings().into_iter().enumerate() {
        if (pic.len() == 1) != single {
            continue;
        }
        for rep in 0..reps {
            let k = d * 7 + rep;
            // a turned drawing moves up and down, or askew
            let map = [[1, 0, 0, 1], [0, -1, 1, 0], [1, 1, -1, 1], [-1, 0, 2, 1], [1, 0, 0, -1]][k % 5];
            let skew = k % 5 == 2 || k % 5 == 3;
            let mv = movers(&pic, if skew { movers_n } else { movers_n + rep % 2 }, k);
            let within = if skew { Some(4) } else { None };
            let i = Inst::drawing(&format!("drawing '{name}' with {mv:?} free"), body, &pic, &mv, within, Orders::List(some_draws(&sizes(&pic), orders, k as u64))).mapped(map);
            // far from the origin in some: coordinates of 27 bits
            v.push(if k % 3 == 1 { i.moved(FAR.0, FAR.1) } else { i });
        }
    }
}

const FAR: (i64, i64) = (67_108_865, -134_217_731);

/// Random rank patterns for polygons of the given sizes.
fn random(body: Body, szs: &[usize], d: (i64, i64), count: usize, orders: usize, salt: u64, v: &mut Vec<Inst>) {
    let n: usize = szs.iter().sum();
    for k in 0..count {
        let kk = salt.wrapping_mul(1000) + k as u64;
        let y = spread(&ranks(n, n + (k % 3), kk), k);
        let i = Inst::lines(body, d, &cut(&y, szs), Orders::List(some_draws(szs, orders, kk)));
        v.push(if k % 10 == 7 { i.moved(FAR.0, FAR.1) } else { i });
    }
}

fn singles(body: Body, t: bool, v: &mut Vec<Inst>) {
    v.extend(Inst::free(body, &[4], Orders::All).split(all_draws(4).chunks(3).map(|c| Orders::List(c.to_vec())).collect()));
    v.push(Inst::free(body, &[3], Orders::All));
    for (k, w) in weak_orders(5).iter().enumerate() {
        v.push(Inst::rows(body, &[spread(w, k)], Orders::All));
        if t || k % 4 == 1 {
            v.push(Inst::lines(body, dir(k / 4), &[spread(w, k)], Orders::List(some_draws(&[5], if t { 3 } else { 1 }, k as u64))));
        }
    }
    for (k, w) in weak_orders(6).iter().enumerate() {
        if t || k % 6 == 1 {
            v.push(Inst::rows(body, &[spread(w, k)], Orders::List(some_draws(&[6], if t { 6 } else { 2 }, k as u64))));
        }
    }
    let m = if t { 12 } else { 1 };
    random(body, &[7], (1, 0), 120 * m, 2, 1, v);
    random(body, &[8], (1, 0), 80 * m, 2, 2, v);
    random(body, &[9], (1, 0), 40 * m, 1, 3, v);
    random(body, &[10], (1, 0), 24 * m, 1, 4, v);
    random(body, &[12], (1, 0), 4 * m, 1, 5, v);
    for k in 0..if t { 24 } else { 1 } {
        random(body, &[6], dir(k), 4, 1, 6 + k as u64, v);
    }
    largest(body, true, if t { 40 } else { 4 }, 1, v);
    drawn(body, true, if t { 12 } else { 3 }, 2, if t { 4 } else { 2 }, v);
}

fn sets(body: Body, t: bool, v: &mut Vec<Inst>) {
    for (k, w) in weak_orders(6).iter().enumerate() {
        if t || k % 9 == 4 {
            let s = spread(w, k);
            v.push(Inst::rows(body, &cut(&s, &[3, 3]), Orders::List(some_draws(&[3, 3], if t { 6 } else { 3 }, k as u64))));
        }
    }
    let m = if t { 12 } else { 1 };
    random(body, &[4, 3], (1, 0), 60 * m, 2, 31, v);
    random(body, &[3, 4], (1, 0), 60 * m, 2, 32, v);
    random(body, &[3, 5], (1, 0), 20 * m, 2, 33, v);
    random(body, &[5, 4], (1, 0), 12 * m, 1, 34, v);
    random(body, &[3, 3, 3], (1, 0), 20 * m, 2, 35, v);
    random(body, &[6, 3], (1, 0), 12 * m, 1, 36, v);
    for k in 0..if t { 24 } else { 2 } {
        random(body, &[3, 3], dir(k), 3, 1, 40 + k as u64, v);
    }
    largest(body, false, if t { 40 } else { 4 }, 1, v);
    drawn(body, false, if t { 12 } else { 3 }, 2, if t { 4 } else { 2 }, v);
}

/// A smaller selection for the properties in which the geometry only decides which fans there are.
fn light(body: Body, t: bool, single: bool, set: bool, v: &mut Vec<Inst>) {
    // the cheaper ones reach further in the same time
    let m = if t { 10 } else if matches!(body, Body::Fault | Body::Contain | Body::Atomic) { 1 } else { 3 };
    if single {
        v.push(Inst::free(body, &[3], Orders::List(some_draws(&[3], 2, 1))));
        for (k, w) in weak_orders(4).iter().enumerate() {
            v.push(Inst::rows(body, &[spread(w, k)], Orders::List(some_draws(&[4], 2 * m, k as u64))));
        }
        random(body, &[5], (1, 0), 60 * m, 2, 51, v);
        random(body, &[6], (1, 0), 40 * m, 2, 52, v);
        random(body, &[8], (1, 0), 10 * m, 1, 53, v);
        random(body, &[5], (1, 1), 4 * m, 1, 54, v);
        random(body, &[5], (0, 1), 4 * m, 1, 55, v);
        largest(body, true, m, 1, v);
        drawn(body, true, m, 1, 1, v);
    }
    if set {
        random(body, &[3, 3], (1, 0), 40 * m, 2, 56, v);
        random(body, &[3, 4], (1, 0), 20 * m, 1, 57, v);
        random(body, &[4, 3], (1, 0), 20 * m, 1, 58, v);
        random(body, &[3, 3, 3], (1, 0), 4 * m, 1, 59, v);
        largest(body, false, m, 1, v);
        drawn(body, false, m, 1, 1, v);
    }
    // with debug assertions deep nests take long; C01 to C05 have them
    // (and one-byte indices do not reach that far)
    v.retain(|i| t && body != Body::Index || !i.name.contains("nest of 70") && !(body == Body::Contain && i.name.contains("star of 270")));
}

/// All sequences of up to `len` polygons with up to `most` vertices each.
fn size_lists(len: usize, most: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        last = last.into_iter().flat_map(|l| (0..=most).map(move |n| { let mut m = l.clone(); m.push(n); m })).collect();
        all.extend(last.clone());
    }
    all
}

fn shorts(body: Body, t: bool, v: &mut Vec<Inst>) {
    for (k, l) in size_lists(if t { 4 } else { 3 }, 4).into_iter().enumerate() {
        let n: usize = l.iter().sum();
        let good = l.iter().filter(|&&n| n >= 3).count();
        for j in 0..if t { 4 } else { 1 } {
            let y = spread(&ranks(n, n.max(1) + 1, (k + 1000 * j) as u64), k);
            // keep what has to be explored small where several polygons are triangulated
            if good > if t { 2 } else { 1 } && !l.iter().any(|n| *n == 1 || *n == 2) && (k % 7 != 0 || n > 9) {
                continue;
            }
            v.push(Inst::rows(body, &cut(&y, &l), Orders::List(some_draws(&l, 1, k as u64))));
        }
    }
}

pub fn plan(prop: &str, thorough: bool) -> Vec<Inst> {
    let t = thorough;
    let mut v = vec![];
    // without debug assertions: huge drawings, and a part of what is explored with them
    if let (Some(p), 4) = (prop.strip_suffix('r'), prop.len()) {
        let base = plan(p, t);
        let body = base[0].body;
        let reps = if t { 8 } else { 2 };
        let sets = base.iter().any(|i| i.polys.len() > 1);
        let singles = base.iter().any(|i| i.polys.len() == 1 && i.must_exist);
        if matches!(body, Body::Done | Body::Cover | Body::Winding | Body::Conform | Body::Formats | Body::Reuse | Body::Contain) {
            if singles {
                huge(body, true, reps, &mut v);
            }
            if sets && body != Body::Contain {
                huge(body, false, reps / 2, &mut v);
            }
        }
        if body == Body::Contain && !t {
            v.retain(|i| !i.name.contains("of 12000"));
        }
        let m = if t { 3 } else { 6 };
        v.extend(base.into_iter().enumerate().filter(|(k, i)| k % m == 1 || i.polys.len() == 1 && i.polys[0].len() == 3).map(|(_, i)| i));
        if p == "C08" {
            v.extend(plan("C08u", t).into_iter().step_by(2));
        }
        return v;
    }
    match prop {
        "C01" => {
            singles(Body::Done, t, &mut v);
            sets(Body::Done, t, &mut v);
        }
        "C02" => singles(Body::Cover, t, &mut v),
        "C03" => sets(Body::Cover, t, &mut v),
        "C04" => {
            singles(Body::Winding, t, &mut v);
            sets(Body::Winding, t, &mut v);
        }
        "C05" => {
            singles(Body::Conform, t, &mut v);
            sets(Body::Conform, t, &mut v);
        }
        "C06" => shorts(Body::Short, t, &mut v),
        "C07" => {
            let mut w = vec![];
            light(Body::Fault, t, true, true, &mut w);
            // long runs: a window of positions each
            v.extend(w.into_iter().enumerate().map(|(k, i)| {
                let n: usize = i.polys.iter().map(|p| p.len()).sum();
                let lo = if n > 40 { (k * 37 % n) as i64 } else { 0 };
                i.with_extra(lo - 1, lo + if n > 150 { 6 } else { 60 })
            }));
        }
        "C07u" => {
            let m = if t { 10 } else { 1 };
            let mut w = vec![];
            for n in 4..8 {
                random(Body::Trouble, &[n], (1, 0), 12 * m, 1, 90 + n as u64, &mut w);
            }
            random(Body::Trouble, &[3, 3], (1, 0), 6 * m, 1, 98, &mut w);
            random(Body::Trouble, &[4, 4], (1, 0), 3 * m, 1, 99, &mut w);
            v.extend(w.into_iter().map(|i| i.with_extra(-1, 14).without_preconditions()));
        }
        "C08" => {
            light(Body::Atomic, t, true, true, &mut v);
            for (k, l) in size_lists(3, 4).into_iter().enumerate() {
                // a short polygon in some place, after (or before) ones that are fine
                if l.len() > 1 && l.iter().any(|n| *n == 1 || *n == 2) && l.iter().any(|n| *n > 2) {
                    let y = spread(&ranks(l.iter().sum(), 6, k as u64), k);
                    v.push(Inst::rows(Body::Atomic, &cut(&y, &l), Orders::List(some_draws(&l, 1, k as u64))));
                }
            }
        }
        "C08u" => {
            for k in 0..if t { 300 } else { 40 } {
                for n in 4..8 {
                    let y = spread(&ranks(n, n, k), k as usize);
                    v.push(Inst::rows(Body::Undo, &[y], Orders::List(some_draws(&[n], 1, k))).without_preconditions());
                }
            }
            let m = if t { 10 } else { 1 };
            let mut w = vec![];
            random(Body::Undo, &[3, 3], (1, 0), 12 * m, 1, 61, &mut w);
            random(Body::Undo, &[4, 3], (1, 0), 8 * m, 1, 62, &mut w);
            random(Body::Undo, &[5, 4], (1, 0), 2 * m, 1, 63, &mut w);
            v.extend(w.into_iter().map(|i| i.without_preconditions()));
        }
        "C09" => light(Body::Formats, t, true, true, &mut v),
        "C10" => light(Body::Index, t, true, true, &mut v),
        "C11" => light(Body::Reuse, t, true, true, &mut v),
        "C12" => light(Body::Contain, t, true, true, &mut v),
        "C13" => {
            let m = if t { 12 } else { 1 };
            let mut w = vec![];
            w.push(Inst::free(Body::Safety, &[3], Orders::All));
            w.push(Inst::free(Body::Safety, &[4], Orders::List(some_draws(&[4], m, 3))));
            for k in 0..60 * m {
                for n in 3..8 {
                    let y = spread(&ranks(n, n, k as u64), k);
                    w.push(Inst::rows(Body::Safety, &[y.clone()], Orders::List(some_draws(&[n], 1, k as u64))));
                    if n < 6 && k % 3 == 0 {
                        w.push(Inst::lines(Body::Safety, dir(k), &[y], Orders::List(some_draws(&[n], 1, k as u64))));
                    }
                }
            }
            random(Body::Safety, &[3, 3], (1, 0), 40 * m, 1, 71, &mut w);
            random(Body::Safety, &[4, 3], (1, 0), 20 * m, 1, 72, &mut w);
            random(Body::Safety, &[3, 3, 3], (1, 0), 4 * m, 1, 73, &mut w);
            random(Body::Special, &[3], (1, 0), 10 * m, 2, 74, &mut w);
            random(Body::Special, &[4], (1, 0), 10 * m, 1, 75, &mut w);
            random(Body::Special, &[5], (1, 0), 2 * m, 1, 76, &mut w);
            random(Body::Special, &[3, 3], (1, 0), if t { 6 } else { 0 }, 1, 77, &mut w);
            largest(Body::Safety, true, m, 1, &mut w);
            largest(Body::Safety, false, m, 1, &mut w);
            drawn(Body::Safety, true, m, 1, 1, &mut w);
            drawn(Body::Safety, false, m, 1, 1, &mut w);
            let mut h = vec![];
            random(Body::Hostile, &[3], (1, 0), 8 * m, 1, 81, &mut h);
            random(Body::Hostile, &[4], (1, 0), 12 * m, 1, 82, &mut h);
            random(Body::Hostile, &[5], (1, 0), 4 * m, 1, 83, &mut h);
            random(Body::Hostile, &[3, 3], (1, 0), 2 * m, 1, 84, &mut h);
            v.extend(w.into_iter().chain(h.into_iter().map(|i| i.with_extra(-1, 12))).map(|i| i.without_preconditions()));
        }
        "L" => {
            largest(Body::Geo, true, 4, 1, &mut v);
            largest(Body::Geo, false, 4, 1, &mut v);
        }
        "U" => {
            huge(Body::Geo, true, 2, &mut v);
            huge(Body::Geo, false, 2, &mut v);
        }
        "H" => v.extend(plan("C13", t).into_iter().filter(|i| i.body == Body::Hostile)),
        "S" => singles(Body::Geo, t, &mut v),
        "M" => sets(Body::Geo, t, &mut v),
        _ => {
            // X:n:dx:dy:patterns:orders
            let f: Vec<i64> = prop.split(':').skip(1).map(|x| x.parse().unwrap()).collect();
            random(Body::Geo, &[f[0] as usize], (f[1], f[2]), f[3] as usize, f[4] as usize, 99, &mut v);
        }
    }
    v
}
