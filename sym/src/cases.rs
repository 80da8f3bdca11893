#![allow(dead_code)]
//! The executable statements of the properties: each drives the public interface of the
//! real library and judges what it did. Generic over the coordinate type, so that the same
//! text runs symbolically and concretely.
use crate::num::Coord;
use crate::oracle::*;
use crate::poly::{NEG, ZER};
use crate::record::*;
use std::cell::RefCell;
use std::rc::Rc;
use triangulate::formats::*;
use triangulate::{FanFormat, ListFormat, Polygon, PolygonElement, PolygonList, TrapezoidationError, TriangulationError};

pub struct Input<C> {
    pub polys: Pts<C>,
    pub extra: Vec<C>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Body {
    /// triangulate: everything about the geometry at once
    Geo,
    /// triangulate ends and succeeds
    Done,
    /// the triangles cover the interior exactly
    Cover,
    /// the triangles are wound as declared
    Winding,
    /// the triangles fit together edge to edge
    Conform,
    /// a builder failing at a symbolic call
    Fault,
    /// the same on any input
    Trouble,
    /// the output formats agree with the recorded fans; contents before are kept
    Formats,
    /// outputs after failures
    Atomic,
    /// outputs after any failure at all, whatever the input
    Undo,
    /// too few vertices
    Short,
    /// custom index types
    Index,
    /// a trapezoidation is reusable; triangulate = trapezoidize + triangulate
    Reuse,
    /// separators, containers, vertex types
    Contain,
    /// arbitrary input: no undefined behaviour
    Safety,
    /// the same with coordinates that are not finite
    Special,
    /// the same with a list type that contradicts itself, and outputs that fail or panic
    Hostile,
}

pub const BODIES: &[(&str, Body)] = &[
    ("geo", Body::Geo),
    ("done", Body::Done),
    ("cover", Body::Cover),
    ("winding", Body::Winding),
    ("conform", Body::Conform),
    ("fault", Body::Fault),
    ("trouble", Body::Trouble),
    ("formats", Body::Formats),
    ("atomic", Body::Atomic),
    ("undo", Body::Undo),
    ("short", Body::Short),
    ("index", Body::Index),
    ("reuse", Body::Reuse),
    ("contain", Body::Contain),
    ("safety", Body::Safety),
    ("special", Body::Special),
    ("hostile", Body::Hostile),
];

pub fn pick(n: usize) -> usize {
    crate::exec::FREE.with(|f| f.set(true));
    let k = rand::verif::pick(n);
    crate::exec::FREE.with(|f| f.set(false));
    k
}

type R = Result<Vec<i64>, String>;

fn msg<E: std::error::Error>(what: &str, e: TriangulationError<E>) -> String {
    let k = match e {
        TriangulationError::TrapezoidationError(TrapezoidationError::NotEnoughVertices(n)) => format!("TrapezoidationError(NotEnoughVertices({n}))"),
        TriangulationError::TrapezoidationError(TrapezoidationError::InternalError(e)) => format!("TrapezoidationError(InternalError({:?}))", e.to_string().lines().next().unwrap_or("")),
        TriangulationError::NoVertices => "NoVertices".into(),
        TriangulationError::InternalError(e) => format!("InternalError({:?})", e.to_string().lines().next().unwrap_or("")),
        TriangulationError::FanBuilder(e) => format!("FanBuilder({e})"),
        _ => "other error".into(),
    };
    format!("{what} returned {k}")
}

fn tmsg(e: TrapezoidationError) -> String {
    msg::<Never>("trapezoidize", TriangulationError::TrapezoidationError(e))
}

/// Evaluate the block with `$p` bound to a single polygon or to the list of polygons.
macro_rules! on {
    ($inp:expr, $list:expr, |$p:ident| $b:block) => {
        if $inp.polys.len() == 1 && !$list {
            let $p = &$inp.polys[0];
            $b
        } else {
            let $p = &$inp.polys;
            $b
        }
    };
}

/// Each body can be built by itself (one feature each), which saves time.
macro_rules! bodies {
    ($b:expr, $inp:expr, $($v:ident $feat:literal $f:ident),*) => {
        match $b { $(
            #[cfg(feature = $feat)]
            Body::$v => $f($inp),
        )*
            #[allow(unreachable_patterns)]
            b => panic!("executor: {b:?} is not part of this build"),
        }
    };
}

pub fn run<C: Coord>(b: Body, inp: &Input<C>) -> R {
    bodies!(
        b, inp,
        Geo "geo" geo, Done "done" done, Cover "cover" covers, Winding "winding" wound, Conform "conform" conforms,
        Fault "fault" fault, Trouble "trouble" trouble, Formats "formats" formats_agree, Atomic "atomic" atomic, Undo "undo" undo, Short "short" short,
        Index "index" index, Reuse "reuse" reuse, Contain "contain" contain, Safety "safety" safety, Special "special" special,
        Hostile "hostile" hostile
    )
}

fn judge<C: Coord>(ps: &Pts<C>, ts: &[Tri], cw: bool) -> Result<(), String> {
    indices_exist(ps, ts)?;
    winding(ps, ts, cw)?;
    cover(ps, ts, cw)?;
    conforming(ps, ts)
}

fn geo<C: Coord>(inp: &Input<C>) -> R {
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let ccw = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
        let ts = triangles(&ccw)?;
        judge(&inp.polys, &ts, false)?;
        let cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate (clockwise)", e))?;
        let ts = triangles(&cw)?;
        judge(&inp.polys, &ts, true)?;
        let mut v = code(&ccw);
        v.extend(code(&cw));
        Ok(v)
    })
}

fn done<C: Coord>(inp: &Input<C>) -> R {
    let script = rand::verif::mark();
    on!(inp, false, |p| {
        let ccw = p.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
        rand::verif::rewind(script);
        let t = p.trapezoidize().map_err(tmsg)?;
        let cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate (clockwise)", e))?;
        let mut v = code(&ccw);
        v.extend(code(&cw));
        Ok(v)
    })
}

fn covers<C: Coord>(inp: &Input<C>) -> R {
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let ccw = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
        let cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate (clockwise)", e))?;
        for rec in [&ccw, &cw] {
            let mut ts = triangles(rec)?;
            indices_exist(&inp.polys, &ts)?;
            // the region does not depend on the direction a triangle is listed in
            for t in ts.iter_mut() {
                if orient(at(&inp.polys, t[0]), at(&inp.polys, t[1]), at(&inp.polys, t[2])).sign_in(NEG) {
                    t.swap(1, 2);
                }
            }
            cover(&inp.polys, &ts, false)?;
        }
        let mut v = code(&ccw);
        v.extend(code(&cw));
        Ok(v)
    })
}

fn wound<C: Coord>(inp: &Input<C>) -> R {
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let e = |e| msg::<Never>("triangulate", e);
        let check = |what: &str, ts: &[Tri], cw: bool| {
            indices_exist(&inp.polys, ts)?;
            winding(&inp.polys, ts, cw).map_err(|m| format!("{what}: {m}"))
        };
        let ccw = t.triangulate(Rec::<false>).map_err(e)?;
        let tc = triangles(&ccw)?;
        check("fans", &tc, false)?;
        let cw = t.triangulate(Rec::<true>).map_err(e)?;
        check("clockwise fans", &triangles(&cw)?, true)?;
        // the library's own formats are counter-clockwise unless reversed
        let l = t.triangulate(IndexedListFormat::new(Vec::new()).into_fan_format()).map_err(e)?;
        check("indexed list", &ix3(l), false)?;
        let l = t.triangulate(IndexedListFormat::new(Vec::new()).into_fan_format().reverse_winding()).map_err(e)?;
        check("indexed list, reversed", &ix3(l), true)?;
        let l = t.triangulate(IndexedListFormat::new(Vec::new()).into_fan_format().reverse_winding().reverse_winding()).map_err(e)?;
        check("indexed list, reversed twice", &ix3(l), false)?;
        let l = t.triangulate(RecL::<true>.into_fan_format()).map_err(e)?;
        check("clockwise list", &l, true)?;
        let l = t.triangulate(RecL::<true>.into_fan_format().reverse_winding()).map_err(e)?;
        check("clockwise list, reversed", &l, false)?;
        let f = t.triangulate(Rec::<true>.reverse_winding()).map_err(e)?;
        check("clockwise fans, reversed", &triangles(&f)?, false)?;
        let f = t.triangulate(IndexedFanFormat::new(Vec::<Vec<_>>::new()).reverse_winding()).map_err(e)?;
        check("indexed fans, reversed", &fan3(f)?, true)?;
        let f = t.triangulate(IndexedFanFormat::new(Vec::<Vec<_>>::new())).map_err(e)?;
        check("indexed fans", &fan3(f)?, false)?;
        let mut v = code(&ccw);
        v.extend(code(&cw));
        Ok(v)
    })
}

fn ix3<I: AsIx>(v: Vec<[I; 3]>) -> Vec<Tri> {
    v.iter().map(|t| [t[0].ix(), t[1].ix(), t[2].ix()]).collect()
}

fn fan3<I: AsIx>(fs: Vec<Vec<I>>) -> Result<Vec<Tri>, String> {
    let mut v = vec![];
    for f in fs {
        if f.len() < 3 {
            return Err(format!("a fan of {} vertices", f.len()));
        }
        for k in 2..f.len() {
            v.push([f[0].ix(), f[k - 1].ix(), f[k].ix()]);
        }
    }
    Ok(v)
}

fn conforms<C: Coord>(inp: &Input<C>) -> R {
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let ccw = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
        let cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate (clockwise)", e))?;
        for rec in [&ccw, &cw] {
            let ts = triangles(rec)?;
            indices_exist(&inp.polys, &ts)?;
            conforming(&inp.polys, &ts)?;
        }
        let mut v = code(&ccw);
        v.extend(code(&cw));
        Ok(v)
    })
}

/// The calls a builder may see, given where it failed. `valid`: no other error can arise.
fn protocol(log: &[(Ev, bool)], list: bool, result: &Result<(), TriangulationError<Injected>>, valid: bool) -> Result<(), String> {
    let bad = |m: String| Err(format!("{m}; calls {log:?}"));
    let fails: Vec<usize> = (0..log.len()).filter(|&k| matches!(log[k].0, Ev::Fail(_))).collect();
    let hit = log.iter().position(|e| e.1);
    // begins with one initialization, and has no other
    for (k, e) in log.iter().enumerate() {
        let init = matches!(e.0, Ev::Init(..) | Ev::ListInit);
        if init != (k == 0) {
            return bad("the builder is not initialized exactly once, first".into());
        }
        if list == matches!(e.0, Ev::New(..) | Ev::Ext(_) | Ev::Init(..)) && !matches!(e.0, Ev::Build | Ev::Fail(_)) {
            return bad("calls of the wrong kind".into());
        }
    }
    if log.is_empty() {
        if !valid && !matches!(result, Ok(()) | Err(TriangulationError::FanBuilder(_))) {
            return Ok(()); // nothing was ever delivered
        }
        return bad("the builder was never used".into());
    }
    match (hit, result) {
        (None, Ok(())) => {
            if log.last().unwrap().0 != Ev::Build || log.iter().filter(|e| e.0 == Ev::Build).count() != 1 {
                return bad("a successful run must end with one build".into());
            }
            if !fails.is_empty() {
                return bad("fail was called in a successful run".into());
            }
        }
        (None, Err(e)) if valid => return bad(format!("an error was returned although no call failed: {e}")),
        (None, Err(e)) => {
            // an error of the library's own
            if matches!(e, TriangulationError::FanBuilder(_)) {
                return bad("a builder's error was returned although no call failed".into());
            }
            if log.iter().any(|e| e.0 == Ev::Build) || fails != [log.len() - 1] || log.last().unwrap().0 != Ev::Fail(None) {
                return bad(format!("after an error of the library's own ({}), exactly one fail with that error must follow", e.to_string().lines().next().unwrap_or("")));
            }
        }
        (Some(k), Ok(())) => return bad(format!("call {k} failed, but the run succeeded")),
        (Some(k), Err(e)) => {
            match e {
                TriangulationError::FanBuilder(Injected(j)) if *j == k as i64 => {}
                e => return bad(format!("call {k} failed, but the error returned is {e}")),
            }
            // no builder exists if its construction failed; build consumes it
            let gone = matches!(log[k].0, Ev::Init(..) | Ev::ListInit | Ev::Build);
            if gone {
                if log.len() != k + 1 {
                    return bad(format!("calls after the builder was gone (call {k} failed)"));
                }
            } else if log.len() != k + 2 || log[k + 1].0 != Ev::Fail(Some(k as i64)) {
                return bad(format!("after call {k} failed, exactly one fail with that error must follow"));
            }
        }
    }
    Ok(())
}

fn ev_code(log: &[(Ev, bool)]) -> Vec<i64> {
    let i = |x: &Ix| (x[0] * 1000 + x[1]) as i64;
    let mut v = vec![];
    for (e, b) in log {
        v.push(-(1 + *b as i64));
        match e {
            Ev::ListInit => v.push(-10),
            Ev::Init(a, b, c) => v.extend([-11, i(a), i(b), i(c)]),
            Ev::New(a, b, c) => v.extend([-12, i(a), i(b), i(c)]),
            Ev::Ext(a) => v.extend([-13, i(a)]),
            Ev::Tri(a, b, c) => v.extend([-14, i(a), i(b), i(c)]),
            Ev::Build => v.push(-15),
            Ev::Fail(k) => v.extend([-16, k.unwrap_or(-1)]),
        }
    }
    v
}

/// One run with each kind of builder that fails where `fails` says.
macro_rules! disturbed {
    ($t:expr, $how:expr, $fails:expr, $valid:expr) => {{
        let log: Log = Rc::new(RefCell::new(vec![]));
        let fails = $fails;
        let l = log.clone();
        let how = $how;
        let r = match how {
            0 => $t.triangulate(Faulty::<_, false> { log: l, fails }),
            1 => $t.triangulate(Faulty::<_, true> { log: l, fails }),
            2 => $t.triangulate(Faulty::<_, false> { log: l, fails }.reverse_winding()),
            3 => $t.triangulate(FaultyL::<_, false> { log: l, fails }.into_fan_format()),
            4 => $t.triangulate(FaultyL::<_, true> { log: l, fails }.into_fan_format()),
            _ => $t.triangulate(FaultyL::<_, false> { log: l, fails }.into_fan_format().reverse_winding()),
        };
        let log = log.take();
        protocol(&log, how > 2, &r, $valid)?;
        (log, r.is_ok())
    }};
}

fn fault<C: Coord>(inp: &Input<C>) -> R {
    let at = inp.extra[0];
    let fails = move |k: i64| (at - C::int(k)).sign_in(ZER);
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let how = pick(6);
        // what an undisturbed run does
        let full = disturbed!(t, how, |_: i64| false, true).0;
        let (log, _) = disturbed!(t, how, fails, true);
        same_until(&log, &full)?;
        Ok(ev_code(&log))
    })
}

/// The same on any input: errors of the library's own are told to the builder, too.
fn trouble<C: Coord>(inp: &Input<C>) -> R {
    let at = inp.extra[0];
    let fails = move |k: i64| (at - C::int(k)).sign_in(ZER);
    on!(inp, false, |p| {
        let t = match p.trapezoidize() {
            Ok(t) => t,
            Err(_) => return Ok(vec![0]),
        };
        let how = pick(6);
        let (full, ok) = disturbed!(t, how, |_: i64| false, false);
        let mut out = vec![ok as i64];
        let (log, ok) = disturbed!(t, how, fails, false);
        same_until(&log, &full)?;
        out.push(ok as i64);
        out.extend(ev_code(&log));
        Ok(out)
    })
}

/// Up to the failing call, a disturbed run is the undisturbed one.
fn same_until(log: &[(Ev, bool)], full: &[(Ev, bool)]) -> Result<(), String> {
    for (k, (e, bad)) in log.iter().enumerate() {
        if full.get(k).map(|f| f.0) != Some(*e) {
            return Err(format!("call {k} is {e:?}, in an undisturbed run {:?}", full.get(k)));
        }
        if *bad {
            return Ok(());
        }
    }
    if log.len() != full.len() { Err(format!("{} calls, {} in an undisturbed run", log.len(), full.len())) } else { Ok(()) }
}

fn fans(cs: &[Call<Ix>]) -> Vec<Vec<Ix>> {
    let mut v: Vec<Vec<Ix>> = vec![];
    for c in cs {
        match *c {
            Call::Init(a, b, c) | Call::New(a, b, c) => v.push(vec![a, b, c]),
            Call::Ext(a) => v.last_mut().unwrap().push(a),
        }
    }
    v
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

fn same_pts<C: Coord>(what: &str, got: &[[C; 2]], want: &[[C; 2]]) -> Result<(), String> {
    if got.len() == want.len() && got.iter().zip(want).all(|(a, b)| a[0].same(b[0]) && a[1].same(b[1])) {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}

/// Every format, in every container, appended to contents that were there before.
fn formats_agree<C: Coord>(inp: &Input<C>) -> R {
    if inp.polys.len() == 1 {
        formats_on(inp.polys[0].as_polygon_list(), &inp.polys, |_, i| i)
    } else {
        formats_on(&inp.polys, &inp.polys, |k, i| [k, i])
    }
}

fn formats_on<'p, C: Coord, I: AsIx + Eq + std::fmt::Debug + 'p, P: PolygonList<'p, Vertex = [C; 2], Index = I>>(p: &'p P, pts: &Pts<C>, name: impl Fn(usize, usize) -> I) -> R {
    let t = p.trapezoidize().map_err(tmsg)?;
    let rec = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
    let tris = triangles(&rec)?;
    let fs = fans(&rec);
    let rec_cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate", e))?;
    let tris_cw = triangles(&rec_cw)?;
    let fs_cw = fans(&rec_cw);
    indices_exist(pts, &tris)?;
    indices_exist(pts, &tris_cw)?;
    let old = pick(3); // elements already present
    let e = |e| msg::<Never>("triangulate", e);
    let z = name(7, 7);
    let ix = |f: &[I]| -> Vec<Ix> { f.iter().map(|i| i.ix()).collect() };
    let ixs = |fs: &[Vec<I>]| -> Vec<Vec<Ix>> { fs.iter().map(|f| ix(f)).collect() };
    let tri = |v: &[[I; 3]]| -> Vec<Tri> { v.iter().map(|t| [t[0].ix(), t[1].ix(), t[2].ix()]).collect() };
    let pt = |t: &[Ix]| -> Vec<[C; 2]> { t.iter().map(|&i| at(pts, i)).collect() };
    let v0 = pts[0][0];

    // recording list format
    let l = t.triangulate(RecL::<false>.into_fan_format()).map_err(e)?;
    eq("triangle list", &l, &tris)?;
    let l = t.triangulate(RecL::<true>.into_fan_format()).map_err(e)?;
    eq("clockwise triangle list", &l, &tris_cw)?;
    let l = t.triangulate(RecL::<true>.into_fan_format().reverse_winding()).map_err(e)?;
    eq("clockwise triangle list, reversed", &l, &tris)?;
    let l = t.triangulate(RecL::<false>.into_fan_format().reverse_winding()).map_err(e)?;
    eq("triangle list, reversed", &l, &tris_cw)?;

    // indexed fans
    let mut v: Vec<Vec<I>> = vec![vec![z.clone(); 3]; old];
    t.triangulate(IndexedFanFormat::new(&mut v)).map_err(e)?;
    eq("indexed fans: contents before", &v[..old.min(v.len())], &vec![vec![z.clone(); 3]; old])?;
    eq("indexed fans", &ixs(&v[old..]), &fs)?;
    let v = t.triangulate(IndexedFanFormat::new(Vec::<Vec<I>>::new())).map_err(e)?;
    eq("indexed fans (by value)", &ixs(&v), &fs)?;
    let v = t.triangulate(IndexedFanFormat::new(OwnFans::<OwnFan<I>> { before: old, fans: vec![], cut: false })).map_err(e)?;
    eq("indexed fans (own containers)", &v.fans.iter().map(|f| std::iter::once(&f.hub).chain(&f.rim).map(|i| i.ix()).collect::<Vec<_>>()).collect::<Vec<_>>(), &fs)?;

    // delimited fans
    let d = name(usize::MAX, usize::MAX);
    let delimited = |fs: &[Vec<Ix>]| {
        let mut want = vec![z.ix(); old];
        for (k, f) in fs.iter().enumerate() {
            if k > 0 || old > 0 {
                want.push(d.ix());
            }
            want.extend(f);
        }
        want
    };
    let mut v: Vec<I> = vec![z.clone(); old];
    t.triangulate(DelimitedFanFormat::new(&mut v, d.clone())).map_err(|e| msg("triangulate", e))?;
    eq("delimited fans", &ix(&v), &delimited(&fs))?;
    let mut v: Vec<I> = vec![z.clone(); old];
    t.triangulate(DelimitedFanFormat::new(&mut v, d.clone()).reverse_winding()).map_err(|e| msg("triangulate", e))?;
    eq("reversed delimited fans", &ix(&v), &delimited(&fs_cw))?;

    // deindexed fans
    for reversed in [false, true] {
        let mut v: Vec<Vec<[C; 2]>> = vec![vec![v0]; old];
        if reversed {
            t.triangulate(DeindexedFanFormat::new(&mut v).reverse_winding()).map_err(e)?;
        } else {
            t.triangulate(DeindexedFanFormat::new(&mut v)).map_err(e)?;
        }
        let fs = if reversed { &fs_cw } else { &fs };
        if v.len() != old + fs.len() {
            return Err(format!("deindexed fans: {} fans, expected {}", v.len(), old + fs.len()));
        }
        for k in 0..old {
            same_pts("deindexed fans: contents before", &v[k], &[v0])?;
        }
        for (f, g) in v[old..].iter().zip(fs) {
            same_pts("deindexed fan", f, &pt(g))?;
        }
    }
    let v = t.triangulate(DeindexedFanFormat::new(OwnFans::<OwnFan<[C; 2]>> { before: old, fans: vec![], cut: false })).map_err(e)?;
    if v.fans.len() != fs.len() {
        return Err(format!("deindexed fans (own containers): {} fans, expected {}", v.fans.len(), fs.len()));
    }
    for (f, g) in v.fans.iter().zip(&fs) {
        same_pts("deindexed fan (own containers)", &std::iter::once(f.hub).chain(f.rim.iter().copied()).collect::<Vec<_>>(), &pt(g))?;
    }

    // indexed lists, three layouts and one of the user's
    let flat: Vec<Ix> = tris.iter().flatten().copied().collect();
    let mut v: Vec<I> = vec![z.clone(); 4 * old];
    t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).map_err(e)?;
    eq("indexed list", &ix(&v), &[vec![z.ix(); 4 * old], flat.clone()].concat())?;
    let mut v: Vec<[I; 3]> = vec![[z.clone(), z.clone(), z.clone()]; old];
    t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).map_err(e)?;
    eq("indexed list of arrays", &tri(&v), &[vec![[z.ix(); 3]; old], tris.clone()].concat())?;
    let mut v: Vec<(I, I, I)> = vec![(z.clone(), z.clone(), z.clone()); old];
    t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).map_err(e)?;
    eq("indexed list of tuples", &v.iter().map(|t| [t.0.ix(), t.1.ix(), t.2.ix()]).collect::<Vec<_>>(), &[vec![[z.ix(); 3]; old], tris.clone()].concat())?;
    let v = t.triangulate(IndexedListFormat::new(OwnList::<I>(Default::default())).into_fan_format()).map_err(e)?;
    eq("indexed list (own container)", &v.0.iter().rev().map(|t| [t[0].ix(), t[1].ix(), t[2].ix()]).collect::<Vec<_>>(), &tris)?;

    // deindexed lists
    let want = pt(&flat);
    let mut v: Vec<[C; 2]> = vec![v0; 5 * old];
    t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).map_err(e)?;
    same_pts("deindexed list", &v, &[vec![v0; 5 * old], want.clone()].concat())?;
    let v = t.triangulate(DeindexedListFormat::new(Vec::<[[C; 2]; 3]>::new()).into_fan_format()).map_err(e)?;
    same_pts("deindexed list of arrays", &v.into_iter().flatten().collect::<Vec<_>>(), &want)?;
    let mut v: Vec<([C; 2], [C; 2], [C; 2])> = vec![(v0, v0, v0); old];
    t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).map_err(e)?;
    same_pts("deindexed list of tuples", &v.into_iter().flat_map(|t| [t.0, t.1, t.2]).collect::<Vec<_>>(), &[vec![v0; 3 * old], want.clone()].concat())?;
    let v = t.triangulate(DeindexedListFormat::new(OwnList::<[C; 2]>(Default::default())).into_fan_format()).map_err(e)?;
    same_pts("deindexed list (own container)", &v.0.into_iter().rev().flatten().collect::<Vec<_>>(), &want)?;

    // reversed windings
    let v = t.triangulate(IndexedListFormat::new(Vec::<[I; 3]>::new()).into_fan_format().reverse_winding()).map_err(e)?;
    eq("reversed indexed list", &tri(&v), &tris_cw)?;
    let v = t.triangulate(IndexedListFormat::new(Vec::<[I; 3]>::new()).into_fan_format().reverse_winding().reverse_winding()).map_err(e)?;
    eq("twice reversed indexed list", &tri(&v), &tris)?;
    let v = t.triangulate(DeindexedListFormat::new(Vec::<[C; 2]>::new()).into_fan_format().reverse_winding()).map_err(e)?;
    same_pts("reversed deindexed list", &v, &pt(&tris_cw.iter().flatten().copied().collect::<Vec<_>>()))?;
    let v = t.triangulate(IndexedFanFormat::new(Vec::<Vec<I>>::new()).reverse_winding()).map_err(e)?;
    eq("reversed indexed fans", &ixs(&v), &fs_cw)?;
    let v = t.triangulate(Rec::<true>.reverse_winding()).map_err(e)?;
    eq("reversed clockwise recorder", &v, &rec)?;
    let v = t.triangulate(Rec::<false>.reverse_winding().reverse_winding().reverse_winding()).map_err(e)?;
    eq("recorder reversed three times", &v, &rec_cw)?;
    Ok(code(&rec))
}

/// Delimiter collisions and failing input: what was in the output before is all that is left.
fn atomic<C: Coord>(inp: &Input<C>) -> R {
    let old = pick(3);
    let n = inp.polys[0].len();
    if inp.polys.len() == 1 {
        // the delimiter equals one of the indices
        let p = &inp.polys[0];
        let d = pick(n);
        let t = p.trapezoidize().map_err(tmsg)?;
        let full = t.triangulate(DelimitedFanFormat::new(Vec::new(), usize::MAX)).map_err(|e| msg("triangulate", e))?;
        if !full.contains(&d) {
            return Err(format!("vertex {d} is in no triangle"));
        }
        let mut v: Vec<usize> = vec![99; old];
        let rev = pick(2) == 1;
        let r = if rev { t.triangulate(DelimitedFanFormat::new(&mut v, d).reverse_winding()).map(|_| ()) } else { t.triangulate(DelimitedFanFormat::new(&mut v, d)).map(|_| ()) };
        match r {
            Err(TriangulationError::FanBuilder(_)) => {}
            Ok(()) => return Err(format!("an index equals the delimiter {d}, but the run succeeded: {v:?}")),
            Err(e) => return Err(msg("triangulate with a colliding delimiter", e)),
        }
        eq("output after a delimiter collision", &v, &vec![99; old])?;
        let mut v = OwnFans::<usize> { before: old, fans: vec![], cut: false };
        if t.triangulate(DelimitedFanFormat::new(&mut v, d)).is_ok() || v.cut || !v.fans.is_empty() {
            return Err(format!("own container after a delimiter collision: {v:?}"));
        }
        Ok(vec![d as i64, old as i64])
    } else if inp.polys.iter().all(|p| p.len() > 2) {
        // the same for a set
        let p = &inp.polys;
        let names: Vec<Ix> = p.iter().enumerate().flat_map(|(k, q)| (0..q.len()).map(move |i| [k, i])).collect();
        let d = names[pick(names.len())];
        let t = p.trapezoidize().map_err(tmsg)?;
        let full = t.triangulate(DelimitedFanFormat::new(Vec::new(), [usize::MAX, 0])).map_err(|e| msg("triangulate", e))?;
        if !full.contains(&d) {
            return Err(format!("vertex {d:?} is in no triangle"));
        }
        let mut v: Vec<Ix> = vec![[99, 99]; old];
        let rev = pick(2) == 1;
        let r = if rev { t.triangulate(DelimitedFanFormat::new(&mut v, d).reverse_winding()).map(|_| ()) } else { t.triangulate(DelimitedFanFormat::new(&mut v, d)).map(|_| ()) };
        match r {
            Err(TriangulationError::FanBuilder(_)) => {}
            Ok(()) => return Err(format!("an index equals the delimiter {d:?}, but the run succeeded: {v:?}")),
            Err(e) => return Err(msg("triangulate with a colliding delimiter", e)),
        }
        eq("output after a delimiter collision", &v, &vec![[99, 99]; old])?;
        Ok(vec![d[0] as i64, d[1] as i64, old as i64])
    } else {
        // the last polygon is too short: nothing may be added
        let p = &inp.polys;
        let mut v: Vec<Vec<Ix>> = vec![vec![[9, 9]; 3]; old];
        let e = p.triangulate(IndexedFanFormat::new(&mut v)).is_err();
        eq("fans after a failure", &v, &vec![vec![[9, 9]; 3]; old])?;
        let mut v: Vec<Ix> = vec![[9, 9]; old];
        let e = e && p.triangulate(DelimitedFanFormat::new(&mut v, [8, 8])).is_err();
        eq("delimited fans after a failure", &v, &vec![[9, 9]; old])?;
        let mut v: Vec<Ix> = vec![[9, 9]; 3 * old];
        let e = e && p.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).is_err();
        eq("list after a failure", &v, &vec![[9, 9]; 3 * old])?;
        if !e {
            return Err("a polygon with too few vertices was accepted".into());
        }
        Ok(vec![])
    }
}

/// Arbitrary input: if an error is returned, the output is what it was before; if not, what
/// was there before is still its beginning.
fn undo<C: Coord>(inp: &Input<C>) -> R {
    let old = pick(2) * 2;
    {
        let p = &inp.polys;
        let t = match p.trapezoidize() {
            Ok(t) => t,
            Err(_) => return Ok(vec![0]),
        };
        let mut kept = vec![];
        fn check<T: PartialEq + std::fmt::Debug>(what: &str, ok: bool, got: &[T], before: &[T], kept: &mut Vec<i64>) -> Result<(), String> {
            kept.push(ok as i64);
            if !ok {
                eq(&format!("{what} after an error"), got, before)
            } else if got.len() < before.len() {
                Err(format!("{what}: contents before are gone"))
            } else {
                eq(&format!("{what}: contents before"), &got[..before.len()], before)
            }
        }
        let mut v: Vec<Vec<Ix>> = vec![vec![[9, 9]; 3]; old];
        let before = v.clone();
        let ok = t.triangulate(IndexedFanFormat::new(&mut v)).is_ok();
        check("indexed fans", ok, &v, &before, &mut kept)?;
        let mut v: Vec<Ix> = vec![[9, 9]; old];
        let before = v.clone();
        let ok = t.triangulate(DelimitedFanFormat::new(&mut v, [8, 8])).is_ok();
        check("delimited fans", ok, &v, &before, &mut kept)?;
        // not always a number of whole triangles
        let mut v: Vec<Ix> = vec![[9, 9]; 4 * old];
        let before = v.clone();
        let ok = t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).is_ok();
        check("indexed list", ok, &v, &before, &mut kept)?;
        let mut v: Vec<[Ix; 3]> = vec![[[9, 9]; 3]; old];
        let before = v.clone();
        let ok = t.triangulate(IndexedListFormat::new(&mut v).into_fan_format().reverse_winding()).is_ok();
        check("reversed indexed list", ok, &v, &before, &mut kept)?;
        let mut v: Vec<(Ix, Ix, Ix)> = vec![([9, 9], [9, 9], [9, 9]); old];
        let before = v.clone();
        let ok = t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).is_ok();
        check("indexed list of tuples", ok, &v, &before, &mut kept)?;
        let mut v: Vec<Vec<Ix>> = vec![vec![[9, 9]; 3]; old];
        let before = v.clone();
        let ok = t.triangulate(IndexedFanFormat::new(&mut v).reverse_winding()).is_ok();
        check("reversed indexed fans", ok, &v, &before, &mut kept)?;
        let mut v: Vec<Ix> = vec![[9, 9]; old];
        let before = v.clone();
        let ok = t.triangulate(DelimitedFanFormat::new(&mut v, [8, 8]).reverse_winding()).is_ok();
        check("reversed delimited fans", ok, &v, &before, &mut kept)?;
        // vertices themselves: compared by value, not by the coordinates' own comparison
        let v0 = inp.polys[0][0];
        let held = |what: &str, ok: bool, got: Vec<[C; 2]>, before: usize| {
            if (!ok && got.len() != before) || got.len() < before {
                return Err(format!("{what}: {} vertices after {}, {before} before", got.len(), if ok { "success" } else { "an error" }));
            }
            same_pts(&format!("{what}: contents before"), &got[..before], &vec![v0; before])
        };
        let mut v: Vec<[C; 2]> = vec![v0; 3 * old + 1 - old / 2];
        let ok = t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).is_ok();
        held("deindexed list", ok, v, 3 * old + 1 - old / 2)?;
        let mut v: Vec<[[C; 2]; 3]> = vec![[v0; 3]; old];
        let ok = t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).is_ok();
        held("deindexed list of arrays", ok, v.into_iter().flatten().collect(), 3 * old)?;
        let mut v: Vec<([C; 2], [C; 2], [C; 2])> = vec![(v0, v0, v0); old];
        let ok = t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).is_ok();
        held("deindexed list of tuples", ok, v.into_iter().flat_map(|t| [t.0, t.1, t.2]).collect(), 3 * old)?;
        let mut v: Vec<Vec<[C; 2]>> = vec![vec![v0; 3]; old];
        let ok = t.triangulate(DeindexedFanFormat::new(&mut v)).is_ok();
        held("deindexed fans", ok, v.into_iter().flatten().collect(), 3 * old)?;
        // a user's own containers
        let mut v = OwnFans::<OwnFan<Ix>> { before: old, fans: vec![], cut: false };
        let ok = t.triangulate(IndexedFanFormat::new(&mut v)).is_ok();
        if v.cut || !ok && !v.fans.is_empty() {
            return Err(format!("own fans after {}: {v:?}", if ok { "success" } else { "an error" }));
        }
        let mut v = OwnList::<Ix>(vec![[[9, 9]; 3]; old].into());
        let ok = t.triangulate(IndexedListFormat::new(&mut v).into_fan_format()).is_ok();
        check("own list", ok, &v.0.into_iter().rev().collect::<Vec<_>>(), &vec![[[9, 9]; 3]; old], &mut kept)?;
        Ok(kept)
    }
}

/// Lists whose first defect is a polygon of 1 or 2 vertices, or that have no vertices at all.
fn short<C: Coord>(inp: &Input<C>) -> R {
    let sizes: Vec<usize> = inp.polys.iter().map(|p| p.len()).collect();
    let first = sizes.iter().copied().find(|&n| n == 1 || n == 2);
    // with several short polygons, any of them may be named
    let is_short = |m: usize| m > 0 && m < 3 && sizes.contains(&m);
    let empty = sizes.iter().all(|&n| n == 0);
    let log: Log = Rc::new(RefCell::new(vec![]));
    let none = |_: i64| false;
    let how = pick(3);
    let (tr, r) = if how == 2 {
        let f = Flat::new(inp, |k| [0, 1, 3][(k + sizes.len()) % 3]);
        (f.trapezoidize().map(|_| ()), f.triangulate(Faulty::<_, false> { log: log.clone(), fails: none }))
    } else {
        on!(inp, how == 1, |p| { (p.trapezoidize().map(|_| ()), p.triangulate(Faulty::<_, false> { log: log.clone(), fails: none })) })
    };
    let log = log.borrow();
    match first {
        Some(n) => {
            match tr {
                Err(TrapezoidationError::NotEnoughVertices(m)) if is_short(m) => {}
                Err(e) => return Err(format!("sizes {sizes:?}: {}, expected NotEnoughVertices({n})", tmsg(e))),
                Ok(()) => return Err(format!("sizes {sizes:?}: trapezoidize succeeded")),
            }
            match r {
                Err(TriangulationError::TrapezoidationError(TrapezoidationError::NotEnoughVertices(m))) if is_short(m) => {}
                Err(e) => return Err(format!("sizes {sizes:?}: {}, expected NotEnoughVertices({n})", msg("triangulate", e))),
                Ok(()) => return Err(format!("sizes {sizes:?}: triangulate succeeded")),
            }
            if !log.is_empty() {
                return Err(format!("sizes {sizes:?}: the builder was called: {log:?}"));
            }
        }
        None if empty => {
            if let Err(e) = tr {
                return Err(format!("sizes {sizes:?}: {}", tmsg(e)));
            }
            match r {
                Err(TriangulationError::NoVertices) => {}
                Err(e) => return Err(format!("sizes {sizes:?}: {}, expected NoVertices", msg("triangulate", e))),
                Ok(()) => return Err(format!("sizes {sizes:?}: triangulate succeeded")),
            }
            if !log.is_empty() {
                return Err(format!("sizes {sizes:?}: the builder was called: {log:?}"));
            }
        }
        None => {
            if let Err(e) = r {
                return Err(format!("sizes {sizes:?}: {}", msg("triangulate", e)));
            }
            // empty polygons have no effect on the others
            let mut ts = vec![];
            for (e, _) in log.iter() {
                match *e {
                    Ev::Init(a, b, c) => ts.push(Call::Init(a, b, c)),
                    Ev::New(a, b, c) => ts.push(Call::New(a, b, c)),
                    Ev::Ext(a) => ts.push(Call::Ext(a)),
                    _ => {}
                }
            }
            let ts = triangles(&ts)?;
            let keep: Vec<usize> = (0..sizes.len()).filter(|&k| sizes[k] > 0).collect();
            let ps: Pts<C> = keep.iter().map(|&k| inp.polys[k].clone()).collect();
            let mut us = vec![];
            for t in &ts {
                let mut u = *t;
                for i in u.iter_mut() {
                    i[0] = keep.iter().position(|k| *k == i[0]).ok_or("a triangle refers to an empty polygon")?;
                }
                us.push(u);
            }
            judge(&ps, &us, false)?;
        }
    }
    Ok(vec![first.unwrap_or(0) as i64, empty as i64])
}

/// `index_with` changes the names of the vertices and nothing else.
fn index<C: Coord>(inp: &Input<C>) -> R {
    let script = rand::verif::mark();
    let plain = on!(inp, false, |p| { p.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))? });
    rand::verif::rewind(script);
    let other = if inp.polys.len() == 1 {
        let q = inp.polys[0].clone().index_with::<u8>();
        if PolygonList::vertex_count(&q) != inp.polys[0].len() {
            return Err("index_with changes the vertex count".into());
        }
        for i in 0..inp.polys[0].len() {
            same_pts("index_with: vertex", &[*PolygonList::get_vertex(&q, i as u8)], &[inp.polys[0][i]])?;
        }
        let mut deindexed: Vec<[C; 2]> = vec![];
        let r = PolygonList::triangulate(&q, Rec::<false>).map_err(|e| msg("triangulate (u8 indices)", e))?;
        rand::verif::rewind(script);
        PolygonList::triangulate(&q, DeindexedListFormat::new(&mut deindexed).into_fan_format()).map_err(|e| msg("triangulate (u8 indices)", e))?;
        same_pts("index_with: deindexed", &deindexed, &triangles(&r)?.iter().flatten().map(|&i| at(&inp.polys, i)).collect::<Vec<_>>())?;
        r
    } else {
        let q = inp.polys.clone().index_with::<usize, u8>();
        if q.vertex_count() != inp.polys.iter().map(|p| p.len()).sum::<usize>() {
            return Err("index_with changes the vertex count".into());
        }
        for (k, p) in inp.polys.iter().enumerate() {
            for i in 0..p.len() {
                same_pts("index_with: vertex", &[*q.get_vertex([k as u8, i as u8])], &[p[i]])?;
            }
        }
        q.triangulate(Rec::<false>).map_err(|e| msg("triangulate ([u8; 2] indices)", e))?
    };
    eq("index_with: fans", &other, &plain)?;
    {
        let l: Vec<Walk<C>> = inp.polys.iter().map(|p| Walk::new(p)).collect();
        let q = l.clone().index_with::<usize, u8>();
        rand::verif::rewind(script);
        let b = q.triangulate(Rec::<false>).map_err(|e| msg("triangulate (own polygons, converted indices)", e))?;
        eq("index_with: fans of own polygons", &Walk::places(&l, b), &plain)?;
        if let [w] = &l[..] {
            let q = w.clone().index_with::<u8>();
            rand::verif::rewind(script);
            let b = q.triangulate(Rec::<false>).map_err(|e| msg("triangulate (own polygon, converted indices)", e))?;
            eq("index_with: fans of an own polygon", &Walk::places(&l, b), &plain)?;
        }
    }
    // indices of several parts, of a user's own list type
    fn own<C: Coord, I: Eq + Clone>(inp: &Input<C>, f: impl Fn(usize, usize) -> I) -> Own<C, I> {
        let mut o = Own { names: vec![], verts: vec![], elems: vec![] };
        for (k, p) in inp.polys.iter().enumerate() {
            for (i, v) in p.iter().enumerate() {
                o.names.push(f(k, i));
                o.verts.push(*v);
                o.elems.push(Some(f(k, i)));
            }
            o.elems.push(None);
        }
        o
    }
    macro_rules! through {
        ($what:literal, $f:expr, $g:expr) => {{
            rand::verif::rewind(script);
            let q = own(inp, $f).index_with::<usize, u8>();
            let got = q.triangulate(Rec::<false>).map_err(|e| msg(concat!("triangulate with converted ", $what), e))?;
            eq(concat!("index_with: fans with ", $what), &got, &plain)?;
            let g = $g;
            for (k, p) in inp.polys.iter().enumerate() {
                for i in 0..p.len() {
                    same_pts(concat!("index_with: vertex of ", $what), &[*q.get_vertex(g(k as u8, i as u8))], &[p[i]])?;
                }
            }
            if q.vertex_count() != inp.polys.iter().map(|p| p.len()).sum::<usize>() {
                return Err("index_with changes the vertex count".into());
            }
        }};
    }
    through!("pairs", |k: usize, i: usize| (k, i), |k: u8, i: u8| (k, i));
    through!("triples", |k: usize, i: usize| (k, i, 50 + 3 * k + i), |k: u8, i: u8| (k, i, 50 + 3 * k + i));
    through!("arrays of three", |k: usize, i: usize| [k, i, 50 + 3 * k + i], |k: u8, i: u8| [k, i, 50 + 3 * k + i]);
    through!(
        "vectors",
        |k: usize, i: usize| [k, i, 50 + 3 * k + i].into_iter().chain((0..k).map(|j| 200 + j)).collect::<Vec<usize>>(),
        |k: u8, i: u8| [k, i, 50 + 3 * k + i].into_iter().chain((0..k).map(|j| 200 + j)).collect::<Vec<u8>>()
    );
    // an index without a counterpart: a panic, not some other index
    let most = inp.polys.iter().map(|p| p.len()).max().unwrap() - 1;
    for limit in [0, most / 2, most] {
        LIMIT.with(|l| l.set(limit));
        rand::verif::rewind(script);
        let q = own(inp, |k, i| [k, i]).index_with::<usize, Tiny>();
        let r = caught(|| q.triangulate(Rec::<false>));
        let fits = limit == most && inp.polys.len() <= most + 1;
        match r {
            Ok(r) if fits => eq("index_with: fans with bounded indices", &r.map_err(|e| msg("triangulate with bounded indices", e))?, &plain)?,
            Ok(_) => return Err(format!("indices above {limit} have no counterpart, but triangulation went on")),
            Err(p) if fits => std::panic::resume_unwind(p),
            Err(_) => {}
        }
        if caught(|| *q.get_vertex([Tiny(0), Tiny(most + 1)])).is_ok() {
            return Err("looking up an index without a counterpart gave a vertex".into());
        }
        if inp.polys.len() == 1 {
            let q = inp.polys[0].clone().index_with::<Tiny>();
            let r = caught(|| PolygonList::triangulate(&q, Rec::<false>).is_ok());
            if r.is_ok() != (limit == most) {
                return Err(format!("a single polygon with indices up to {limit}: {}", if r.is_ok() { "triangulation went on" } else { "panicked" }));
            }
        }
    }
    // converted twice, and to signed indices
    rand::verif::rewind(script);
    let twice = own(inp, |k, i| [k, i]).index_with::<usize, i16>().index_with::<i16, u8>();
    let got = twice.triangulate(Rec::<false>).map_err(|e| msg("triangulate with indices converted twice", e))?;
    eq("index_with: fans with indices converted twice", &got, &plain)?;
    for (k, p) in inp.polys.iter().enumerate() {
        for i in 0..p.len() {
            same_pts("index_with: vertex by an index converted twice", &[*twice.get_vertex([k as u8, i as u8])], &[p[i]])?;
        }
    }
    Ok(code(&plain))
}

/// An index type that not every number fits in.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tiny(usize);
thread_local!(static LIMIT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
impl TryFrom<usize> for Tiny {
    type Error = ();
    fn try_from(n: usize) -> Result<Tiny, ()> {
        if n <= LIMIT.with(|l| l.get()) { Ok(Tiny(n)) } else { Err(()) }
    }
}
impl TryFrom<Tiny> for usize {
    type Error = ();
    fn try_from(n: Tiny) -> Result<usize, ()> {
        if n.0 <= LIMIT.with(|l| l.get()) { Ok(n.0) } else { Err(()) }
    }
}
impl AsIx for Tiny {
    fn ix(&self) -> Ix {
        [0, self.0]
    }
}
impl AsIx for [Tiny; 2] {
    fn ix(&self) -> Ix {
        [self[0].0, self[1].0]
    }
}

/// A user's list with an index type of choice.
pub struct Own<C, I> {
    names: Vec<I>,
    verts: Vec<[C; 2]>,
    elems: Vec<Option<I>>,
}
impl<'p, C: Coord + 'p, I: Eq + Clone + 'p> PolygonList<'p> for Own<C, I> {
    type Vertex = [C; 2];
    type Index = I;
    type IntoItem = PolygonElement<I>;
    type Iter<'i>
        = Box<dyn Iterator<Item = PolygonElement<I>> + 'i>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.verts.len()
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where
        Self: 'i,
        Self::Vertex: 'i,
        'p: 'i,
    {
        Box::new(self.elems.iter().map(|e| e.clone().map_or(PolygonElement::NewPolygon, PolygonElement::ContinuePolygon)))
    }
    fn get_vertex<'a>(&'a self, index: I) -> &'a [C; 2]
    where
        'p: 'a,
    {
        &self.verts[self.names.iter().position(|n| *n == index).expect("unknown vertex name")]
    }
}

fn reuse<C: Coord>(inp: &Input<C>) -> R {
    let script = rand::verif::mark();
    on!(inp, false, |p| {
        let t = p.trapezoidize().map_err(tmsg)?;
        let a = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
        let cw = t.triangulate(Rec::<true>).map_err(|e| msg("triangulate", e))?;
        // a failed use leaves no trace either
        let step = if a.len() > 40 { a.len() / 20 } else { 1 };
        for at in (0..a.len() as i64 + 1).step_by(step) {
            let log: Log = Rc::new(RefCell::new(vec![]));
            let _ = t.triangulate(Faulty::<_, false> { log, fails: move |k| k == at });
            if at > 6 && at % if a.len() > 40 { 31 } else { 5 } > 0 {
                continue;
            }
            let b = t.triangulate(Rec::<false>).map_err(|e| msg("second triangulate", e))?;
            eq("second use of a trapezoidation", &b, &a)?;
        }
        let cw2 = t.triangulate(Rec::<true>).map_err(|e| msg("second triangulate", e))?;
        eq("second use of a trapezoidation (clockwise)", &cw2, &cw)?;
        // after a use that panics
        for at in [0, 1, a.len() / 2, a.len()] {
            if caught(|| t.triangulate(Meddler { calls: vec![], f: move |k| if k == at { std::panic::resume_unwind(Box::new(Thrown)) } })).is_ok() {
                return Err("a builder's panic disappeared".into());
            }
            let b = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate after a panic", e))?;
            eq("use of a trapezoidation after a builder's panic", &b, &a)?;
        }
        // a builder that uses the trapezoidation itself
        let inner: RefCell<Result<(), String>> = RefCell::new(Ok(()));
        let outer = t.triangulate(Meddler {
            calls: vec![],
            f: |k| {
                if k < 4 || k == a.len() {
                    let b = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate within a builder", e)).and_then(|b| eq("use of a trapezoidation within a builder", &b, &a));
                    if b.is_err() {
                        *inner.borrow_mut() = b;
                    }
                }
            },
        });
        inner.into_inner()?;
        eq("a builder that uses the trapezoidation", &outer.map_err(|e| msg("triangulate with a nested use", e))?, &a)?;
        // in turns with another one
        if a.len() < 400 {
            let turned: Pts<C> = inp.polys.iter().map(|p| p.iter().rev().copied().collect()).collect();
            let u = turned.trapezoidize().map_err(tmsg)?;
            let c = u.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
            let b = t.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
            eq("use of a trapezoidation after another's", &b, &a)?;
            let c2 = u.triangulate(Rec::<false>).map_err(|e| msg("triangulate", e))?;
            eq("use of another trapezoidation", &c2, &c)?;
        }
        rand::verif::rewind(script);
        let c = p.triangulate(Rec::<false>).map_err(|e| msg("triangulate in one step", e))?;
        eq("one step against two", &c, &a)?;
        judge(&inp.polys, &triangles(&a)?, false)?;
        Ok(code(&a))
    })
}

/// A user's own polygon list: vertices with names of their own, separators anywhere.
pub struct Flat<C> {
    pub verts: Vec<(C, C)>,
    pub names: Vec<Ix>,
    pub elems: Vec<Option<usize>>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Name(pub Ix);
impl AsIx for Name {
    fn ix(&self) -> Ix {
        self.0
    }
}
impl<C: Coord> Flat<C> {
    /// `seps(k)`: separators in front of polygon k (one more if there is one before it), or at the end.
    fn new(inp: &Input<C>, seps: impl Fn(usize) -> usize) -> Self {
        let mut f = Flat { verts: vec![], names: vec![], elems: vec![] };
        for k in 0..=inp.polys.len() {
            f.elems.extend(std::iter::repeat_n(None, seps(k) + (k > 0 && k < inp.polys.len()) as usize));
            for (i, v) in inp.polys.get(k).into_iter().flatten().enumerate() {
                f.elems.push(Some(f.verts.len()));
                f.verts.push((v[0], v[1]));
                f.names.push([k, i]);
            }
        }
        f
    }
}
impl<'p, C: Coord> PolygonList<'p> for Flat<C> {
    type Vertex = (C, C);
    type Index = Name;
    type IntoItem = Option<Name>;
    type Iter<'i>
        = Box<dyn Iterator<Item = Option<Name>> + 'i>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.verts.len()
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where
        Self: 'i,
        Self::Vertex: 'i,
        'p: 'i,
    {
        Box::new(self.elems.iter().map(|e| e.map(|i| Name(self.names[i]))))
    }
    fn get_vertex<'a>(&'a self, index: Name) -> &'a (C, C)
    where
        'p: 'a,
    {
        &self.verts[self.names.iter().position(|n| *n == index.0).expect("unknown vertex name")]
    }
}

/// A user's own vertex: not laid out as the coordinates.
#[derive(Clone, Debug)]
pub struct Pin<C> {
    up: C,
    tag: char,
    along: C,
}
impl<C: Coord> triangulate::Vertex for Pin<C> {
    type Coordinate = C;
    fn x(&self) -> C {
        self.along
    }
    fn y(&self) -> C {
        self.up
    }
}

/// A user's own polygon, stored last vertex first, with indices that neither begin at zero nor
/// ascend.
#[derive(Clone)]
pub struct Walk<C> {
    verts: Vec<[C; 2]>,
}
const KEY: usize = 60;
impl<C: Coord> Walk<C> {
    fn new(p: &[[C; 2]]) -> Walk<C> {
        Walk { verts: p.iter().rev().copied().collect() }
    }
    /// What was delivered, in terms of the places of the vertices.
    fn places(polys: &[Walk<C>], calls: Vec<Call<Ix>>) -> Vec<Call<Ix>> {
        let f = |x: Ix| match polys.get(x[0]) {
            Some(p) if x[1] >= KEY && x[1] < KEY + p.verts.len() => [x[0], p.verts.len() - 1 - (x[1] - KEY)],
            _ => [usize::MAX, x[1]],
        };
        calls.into_iter().map(|c| match c {
            Call::Init(a, b, c) => Call::Init(f(a), f(b), f(c)),
            Call::New(a, b, c) => Call::New(f(a), f(b), f(c)),
            Call::Ext(a) => Call::Ext(f(a)),
        }).collect()
    }
}
impl<'p, C: Coord> Polygon<'p> for Walk<C> {
    type Vertex = [C; 2];
    type Index = usize;
    type Iter<'i>
        = std::iter::Rev<std::ops::Range<usize>>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.verts.len()
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where
        Self: 'i,
        Self::Vertex: 'i,
        'p: 'i,
    {
        (KEY..KEY + self.verts.len()).rev()
    }
    fn get_vertex(&self, index: usize) -> &[C; 2] {
        &self.verts[index - KEY]
    }
}

/// A user's own list of one polygon, whose iterator yields nothing but indices.
pub struct Bare<'v, C>(&'v [[C; 2]]);
impl<'p, 'v: 'p, C: Coord> PolygonList<'p> for Bare<'v, C> {
    type Vertex = [C; 2];
    type Index = Name;
    type IntoItem = Name;
    type Iter<'i>
        = Box<dyn Iterator<Item = Name> + 'i>
    where
        Self: 'i,
        'p: 'i;
    fn vertex_count(&self) -> usize {
        self.0.len()
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i>
    where
        Self: 'i,
        Self::Vertex: 'i,
        'p: 'i,
    {
        Box::new((0..self.0.len()).map(|i| Name([0, i])))
    }
    fn get_vertex<'a>(&'a self, index: Name) -> &'a [C; 2]
    where
        'p: 'a,
    {
        &self.0[index.0[1]]
    }
}

fn contain<C: Coord>(inp: &Input<C>) -> R {
    // separators: before, between (at least one) and after
    let seps: Vec<usize> = (0..=inp.polys.len()).map(|k| if k < 3 { pick(if k < 2 { 3 } else { 2 }) } else { k % 3 }).collect();
    let f = Flat::new(inp, |k| seps[k]);
    let script = rand::verif::mark();
    let a = inp.polys.triangulate(Rec::<false>).map_err(|e| msg("triangulate (nested vectors)", e))?;
    rand::verif::rewind(script);
    let b = f.triangulate(Rec::<false>).map_err(|e| msg("triangulate (own list type)", e))?;
    eq("own list type against nested vectors", &b, &a)?;
    // slices of slices
    rand::verif::rewind(script);
    let sl: Vec<&[[C; 2]]> = inp.polys.iter().map(|p| &p[..]).collect();
    let b = (&sl[..]).triangulate(Rec::<false>).map_err(|e| msg("triangulate (slices)", e))?;
    eq("slices against nested vectors", &b, &a)?;
    macro_rules! stored {
        ($what:literal, $l:expr) => {{
            rand::verif::rewind(script);
            let l = $l;
            let b = l.triangulate(Rec::<false>).map_err(|e| msg(concat!("triangulate (", $what, ")"), e))?;
            eq(concat!($what, " against nested vectors"), &b, &a)?;
        }};
    }
    stored!("boxes of reference-counted slices", inp.polys.iter().map(|p| Rc::<[[C; 2]]>::from(&p[..])).collect::<Vec<_>>().into_boxed_slice());
    stored!("vectors of tuples", inp.polys.iter().map(|p| p.iter().map(|v| (v[0], v[1])).collect::<Vec<_>>()).collect::<Vec<_>>());
    stored!("own vertices", inp.polys.iter().map(|p| p.iter().map(|v| Pin { up: v[1], tag: 'v', along: v[0] }).collect::<Box<[_]>>()).collect::<Vec<_>>());
    {
        let l: Vec<Walk<C>> = inp.polys.iter().map(|p| Walk::new(p)).collect();
        rand::verif::rewind(script);
        let b = l.triangulate(Rec::<false>).map_err(|e| msg("triangulate (list of own polygons)", e))?;
        eq("list of own polygons against nested vectors", &Walk::places(&l, b), &a)?;
        if let [w] = &l[..] {
            rand::verif::rewind(script);
            let b = w.triangulate(Rec::<false>).map_err(|e| msg("triangulate (own polygon)", e))?;
            eq("own polygon against nested vectors", &Walk::places(&l, b), &a)?;
        }
    }
    if inp.polys.len() == 1 {
        stored!("own list of one polygon", Bare(&inp.polys[0]));
        stored!("box of own vertices", inp.polys[0].iter().map(|v| Pin { up: v[1], tag: 'v', along: v[0] }).collect::<Box<[_]>>());
        stored!("shared slice", std::sync::Arc::<[[C; 2]]>::from(&inp.polys[0][..]));
        stored!("borrowed or owned slice", std::borrow::Cow::<[[C; 2]]>::Borrowed(&inp.polys[0][..]));
        rand::verif::rewind(script);
        let b = inp.polys[0].triangulate(Rec::<false>).map_err(|e| msg("triangulate (single)", e))?;
        eq("single polygon against list of one", &b, &a)?;
        rand::verif::rewind(script);
        let b = inp.polys[0].as_polygon_list().triangulate(Rec::<false>).map_err(|e| msg("triangulate (as_polygon_list)", e))?;
        eq("as_polygon_list against list of one", &b, &a)?;
        rand::verif::rewind(script);
        let tup: Vec<(C, C)> = inp.polys[0].iter().map(|v| (v[0], v[1])).collect();
        let b = (&tup[..]).triangulate(Rec::<false>).map_err(|e| msg("triangulate (slice of tuples)", e))?;
        eq("slice of tuples against nested vectors", &b, &a)?;
    }
    // the library's own iteration
    let got: Vec<Option<Ix>> = PolygonList::iter_indices(&inp.polys)
        .map(|e| match e {
            PolygonElement::ContinuePolygon(i) => Some(i),
            PolygonElement::NewPolygon => None,
        })
        .collect();
    let mut groups: Vec<Vec<Ix>> = vec![vec![]];
    for g in got {
        match g {
            Some(i) => groups.last_mut().unwrap().push(i),
            None => groups.push(vec![]),
        }
    }
    groups.retain(|g| !g.is_empty());
    let want: Vec<Vec<Ix>> = inp.polys.iter().enumerate().map(|(k, p)| (0..p.len()).map(|i| [k, i]).collect()).collect();
    eq("iteration of nested vectors", &groups, &want)?;
    if PolygonList::vertex_count(&inp.polys) != inp.polys.iter().map(|p| p.len()).sum::<usize>() {
        return Err("vertex_count of nested vectors is wrong".into());
    }
    for (k, p) in inp.polys.iter().enumerate() {
        for i in 0..p.len() {
            same_pts("get_vertex", &[*PolygonList::get_vertex(&inp.polys, [k, i])], &[p[i]])?;
        }
    }
    Ok(code(&a))
}

/// Whatever the input: an answer or an error, without undefined behaviour.
fn safety<C: Coord>(inp: &Input<C>) -> R {
    on!(inp, false, |p| {
        let mut out: Vec<[C; 2]> = vec![];
        let r = p.triangulate(DeindexedListFormat::new(&mut out).into_fan_format()).is_ok();
        Ok(vec![r as i64, out.len() as i64])
    })
}

/// One or two coordinates are infinite or not a number.
fn special<C: Coord>(inp: &Input<C>) -> R {
    let mut polys = inp.polys.clone();
    let n: usize = polys.iter().map(|p| p.len()).sum();
    for round in 0..2 {
        let c = if round == 0 { pick(2 * n) } else { pick(n + 1) };
        if round == 1 && c == n {
            break; // only one
        }
        let mut v = c / if round == 0 { 2 } else { 1 };
        let axis = if round == 0 { c % 2 } else { 1 };
        for p in polys.iter_mut() {
            if v < p.len() {
                p[v][axis] = C::special(pick(3));
                break;
            }
            v -= p.len();
        }
    }
    safety(&Input { polys, extra: vec![] })
}

/// A list type that misreports how many vertices there are, or whose vertices move.
pub struct Shifty<'i, C> {
    inp: &'i Input<C>,
    count: usize,
    /// every so many calls, a vertex is where the next one should be
    every: usize,
    calls: std::cell::Cell<usize>,
    /// every so many iterations, one vertex is missing
    forgets: bool,
}
impl<'p, 'i: 'p, C: Coord> PolygonList<'p> for Shifty<'i, C> {
    type Vertex = [C; 2];
    type Index = Ix;
    type IntoItem = Option<Ix>;
    type Iter<'x>
        = Box<dyn Iterator<Item = Option<Ix>> + 'x>
    where
        Self: 'x,
        'p: 'x;
    fn vertex_count(&self) -> usize {
        self.count
    }
    fn iter_indices<'x>(&'x self) -> Self::Iter<'x>
    where
        Self: 'x,
        Self::Vertex: 'x,
        'p: 'x,
    {
        let n = self.inp.polys.len();
        let twice = self.forgets as usize + 1;
        Box::new((0..n).flat_map(move |k| (0..self.inp.polys[k].len()).flat_map(move |i| std::iter::repeat_n(Some([k, i]), if i == 1 { twice } else { 1 })).chain(std::iter::once(None))))
    }
    fn get_vertex<'a>(&'a self, i: Ix) -> &'a [C; 2]
    where
        'p: 'a,
    {
        let p = &self.inp.polys[i[0]];
        self.calls.set(self.calls.get() + 1);
        &p[if self.every > 0 && self.calls.get() % self.every == 0 { (i[1] + 1) % p.len() } else { i[1] }]
    }
}

/// Whatever a user's own types do: an answer, an error or a panic, without undefined behaviour.
fn hostile<C: Coord>(inp: &Input<C>) -> R {
    let n: usize = inp.polys.iter().map(|p| p.len()).sum();
    let at = inp.extra[0];
    let fails = move |k: i64| (at - C::int(k)).sign_in(ZER);
    let mode = pick(8);
    let l = Shifty {
        inp,
        count: [0, 1, n - 1, n + 3, n, n, n, n][mode],
        every: [0, 0, 0, 0, 2, 3, 0, 0][mode],
        calls: Default::default(),
        forgets: mode == 6,
    };
    let mut out = vec![];
    let t = match l.trapezoidize() {
        Ok(t) => t,
        Err(_) => return Ok(vec![0]),
    };
    if mode == 7 {
        // outputs that own memory
        for k in 0..4 {
            let h = Heap { fails, panics: k % 2 == 1, held: vec![] };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if k < 2 { t.triangulate(h).map_err(|_| ()) } else { t.triangulate(h.into_fan_format().reverse_winding()).map_err(|_| ()) }));
            match r {
                Ok(r) => out.push(r.map_or(-1, |s| s as i64)),
                Err(p) if p.is::<Thrown>() => out.push(-2),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    }
    let mut v: Vec<[[C; 2]; 3]> = vec![];
    out.push(t.triangulate(DeindexedListFormat::new(&mut v).into_fan_format()).is_ok() as i64);
    let mut v: Vec<Ix> = vec![];
    out.push(t.triangulate(DelimitedFanFormat::new(&mut v, [0, 1])).is_ok() as i64);
    Ok(out)
}

impl Body {
    /// Run on input that breaks the preconditions: panics and runs that do not end are permitted.
    pub fn invalid_input(self) -> bool {
        matches!(self, Body::Safety | Body::Special | Body::Hostile | Body::Undo | Body::Trouble)
    }
}
