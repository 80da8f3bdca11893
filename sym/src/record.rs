//! Output formats of the checks themselves: they record the calls the library makes.
use crate::oracle::{Ix, Tri};
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;
use triangulate::{Fan, FanBuilder, FanFormat, Fans, List, ListBuilder, ListFormat, PolygonList, TriangleWinding, TriangulationError};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call<I> {
    Init(I, I, I),
    New(I, I, I),
    Ext(I),
}

/// Indices of single polygons and of polygon lists, seen uniformly.
pub trait AsIx: Clone {
    fn ix(&self) -> Ix;
}
impl AsIx for usize {
    fn ix(&self) -> Ix {
        [0, *self]
    }
}
impl AsIx for [usize; 2] {
    fn ix(&self) -> Ix {
        *self
    }
}
impl AsIx for u8 {
    fn ix(&self) -> Ix {
        [0, *self as usize]
    }
}
impl AsIx for [u8; 2] {
    fn ix(&self) -> Ix {
        [self[0] as usize, self[1] as usize]
    }
}

// Longer names carry redundant parts, so that parts in the wrong order or lost are noticed.
pub const LOST: Ix = [999, 999];
fn of_triple(k: usize, i: usize, z: usize) -> Ix {
    if z == 50 + 3 * k + i { [k, i] } else { LOST }
}
impl AsIx for (u8, u8) {
    fn ix(&self) -> Ix {
        [self.0 as usize, self.1 as usize]
    }
}
impl AsIx for (u8, u8, u8) {
    fn ix(&self) -> Ix {
        of_triple(self.0 as usize, self.1 as usize, self.2 as usize)
    }
}
impl AsIx for [u8; 3] {
    fn ix(&self) -> Ix {
        of_triple(self[0] as usize, self[1] as usize, self[2] as usize)
    }
}
impl AsIx for Vec<u8> {
    fn ix(&self) -> Ix {
        // as many parts as the polygon's number plus three
        match self[..] {
            [k, i, z, ref rest @ ..] if rest.len() == k as usize && rest.iter().enumerate().all(|(j, r)| *r as usize == 200 + j) => of_triple(k as usize, i as usize, z as usize),
            _ => LOST,
        }
    }
}

/// Records fans; CW selects the declared winding.
pub struct Rec<const CW: bool>;
pub struct RecB<const CW: bool>(Vec<Call<Ix>>);

pub type Never = std::convert::Infallible;

const fn wind(cw: bool) -> TriangleWinding {
    if cw { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise }
}

impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanFormat<'p, P> for Rec<CW>
where
    P::Index: AsIx,
{
    type Builder = RecB<CW>;
    fn initialize(self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<RecB<CW>, Never> {
        Ok(RecB(vec![Call::Init(a.ix(), b.ix(), c.ix())]))
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanBuilder<'p, P> for RecB<CW>
where
    P::Index: AsIx,
{
    type Output = Vec<Call<Ix>>;
    type Error = Never;
    const WINDING: TriangleWinding = wind(CW);
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Never> {
        self.0.push(Call::New(a.ix(), b.ix(), c.ix()));
        Ok(())
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Never> {
        self.0.push(Call::Ext(a.ix()));
        Ok(())
    }
    fn build(self) -> Result<Vec<Call<Ix>>, Never> {
        Ok(self.0)
    }
    fn fail(self, _: &TriangulationError<Never>) {}
}

/// Records triangles of a list format.
pub struct RecL<const CW: bool>;
pub struct RecLB<const CW: bool>(Vec<Tri>);
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListFormat<'p, P> for RecL<CW>
where
    P::Index: AsIx,
{
    type Builder = RecLB<CW>;
    fn initialize(self, _: &'p P) -> Result<RecLB<CW>, Never> {
        Ok(RecLB(vec![]))
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListBuilder<'p, P> for RecLB<CW>
where
    P::Index: AsIx,
{
    type Output = Vec<Tri>;
    type Error = Never;
    const WINDING: TriangleWinding = wind(CW);
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Never> {
        self.0.push([a.ix(), b.ix(), c.ix()]);
        Ok(())
    }
    fn build(self) -> Result<Vec<Tri>, Never> {
        Ok(self.0)
    }
    fn fail(self, _: &TriangulationError<Never>) {}
}

/// Triangles of recorded fans: the first vertex is the hub.
pub fn triangles(cs: &[Call<Ix>]) -> Result<Vec<Tri>, String> {
    let mut out = vec![];
    let mut fan: Option<(Ix, Ix)> = None;
    for (k, c) in cs.iter().enumerate() {
        match *c {
            Call::Init(a, b, c) | Call::New(a, b, c) => {
                if matches!(cs[k], Call::Init(..)) != (k == 0) {
                    return Err(format!("call {k} of {cs:?}: the first fan, and only it, initializes the builder"));
                }
                out.push([a, b, c]);
                fan = Some((a, c));
            }
            Call::Ext(c) => {
                let Some((a, b)) = fan else { return Err("a fan was extended before any was begun".into()) };
                out.push([a, b, c]);
                fan = Some((a, c));
            }
        }
    }
    Ok(out)
}

pub fn code(cs: &[Call<Ix>]) -> Vec<i64> {
    let mut v = vec![];
    let mut p = |i: Ix| v.push((i[0] * 1000 + i[1]) as i64);
    for c in cs {
        match *c {
            Call::Init(a, b, c) | Call::New(a, b, c) => {
                p([9999, 0]);
                p(a);
                p(b);
                p(c);
            }
            Call::Ext(a) => p(a),
        }
    }
    v
}

// ---- a builder that fails where it is told to ------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Injected(pub i64);
impl fmt::Display for Injected {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Injected {}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    ListInit,
    Init(Ix, Ix, Ix),
    New(Ix, Ix, Ix),
    Ext(Ix),
    Tri(Ix, Ix, Ix),
    Build,
    /// `fail` was called; the value is the injected error it was handed, if it was that
    Fail(Option<i64>),
}

pub type Log = Rc<RefCell<Vec<(Ev, bool)>>>; // event, did it fail?

/// `fails(k)`: does the k-th callback (counted from 0) fail?
pub struct Faulty<F, const CW: bool> {
    pub log: Log,
    pub fails: F,
}
pub struct FaultyB<F, const CW: bool> {
    log: Log,
    fails: F,
}

fn step<F: Fn(i64) -> bool>(log: &Log, fails: &F, e: Ev) -> Result<(), Injected> {
    let k = log.borrow().len() as i64;
    let bad = fails(k);
    log.borrow_mut().push((e, bad));
    if bad { Err(Injected(k)) } else { Ok(()) }
}
fn failed(log: &Log, e: &TriangulationError<Injected>) {
    let k = match e {
        TriangulationError::FanBuilder(i) => Some(i.0),
        _ => None,
    };
    log.borrow_mut().push((Ev::Fail(k), false));
}

impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool, const CW: bool> FanFormat<'p, P> for Faulty<F, CW>
where
    P::Index: AsIx,
{
    type Builder = FaultyB<F, CW>;
    fn initialize(self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<FaultyB<F, CW>, Injected> {
        step(&self.log, &self.fails, Ev::Init(a.ix(), b.ix(), c.ix()))?;
        Ok(FaultyB { log: self.log, fails: self.fails })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool, const CW: bool> FanBuilder<'p, P> for FaultyB<F, CW>
where
    P::Index: AsIx,
{
    type Output = ();
    type Error = Injected;
    const WINDING: TriangleWinding = wind(CW);
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Injected> {
        step(&self.log, &self.fails, Ev::New(a.ix(), b.ix(), c.ix()))
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Injected> {
        step(&self.log, &self.fails, Ev::Ext(a.ix()))
    }
    fn build(self) -> Result<(), Injected> {
        step(&self.log, &self.fails, Ev::Build)
    }
    fn fail(self, e: &TriangulationError<Injected>) {
        failed(&self.log, e)
    }
}

pub struct FaultyL<F, const CW: bool> {
    pub log: Log,
    pub fails: F,
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool, const CW: bool> ListFormat<'p, P> for FaultyL<F, CW>
where
    P::Index: AsIx,
{
    type Builder = FaultyB<F, CW>;
    fn initialize(self, _: &'p P) -> Result<FaultyB<F, CW>, Injected> {
        step(&self.log, &self.fails, Ev::ListInit)?;
        Ok(FaultyB { log: self.log, fails: self.fails })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool, const CW: bool> ListBuilder<'p, P> for FaultyB<F, CW>
where
    P::Index: AsIx,
{
    type Output = ();
    type Error = Injected;
    const WINDING: TriangleWinding = wind(CW);
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Injected> {
        step(&self.log, &self.fails, Ev::Tri(a.ix(), b.ix(), c.ix()))
    }
    fn build(self) -> Result<(), Injected> {
        step(&self.log, &self.fails, Ev::Build)
    }
    fn fail(self, e: &TriangulationError<Injected>) {
        failed(&self.log, e)
    }
}

// ---- a builder that owns memory, and fails or panics at one of its calls ---------------

pub struct Heap<F> {
    pub fails: F,
    pub panics: bool,
    pub held: Vec<Box<Ix>>,
}
/// The payload of the builder's panic.
pub struct Thrown;
impl<F: Fn(i64) -> bool> Heap<F> {
    fn step(&mut self, i: Ix) -> Result<(), Injected> {
        let k = self.held.len() as i64;
        self.held.push(Box::new(i));
        if (self.fails)(k) {
            if self.panics {
                std::panic::resume_unwind(Box::new(Thrown));
            }
            return Err(Injected(k));
        }
        Ok(())
    }
    fn sum(&self) -> usize {
        self.held.iter().map(|b| b[0] + b[1]).sum()
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool> FanFormat<'p, P> for Heap<F>
where
    P::Index: AsIx,
{
    type Builder = Heap<F>;
    fn initialize(mut self, _: &'p P, a: P::Index, _: P::Index, _: P::Index) -> Result<Heap<F>, Injected> {
        self.step(a.ix())?;
        Ok(self)
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool> FanBuilder<'p, P> for Heap<F>
where
    P::Index: AsIx,
{
    type Output = usize;
    type Error = Injected;
    fn new_fan(&mut self, a: P::Index, _: P::Index, _: P::Index) -> Result<(), Injected> {
        self.step(a.ix())
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Injected> {
        self.step(a.ix())
    }
    fn build(mut self) -> Result<usize, Injected> {
        self.step([0, 0])?;
        Ok(self.sum())
    }
    fn fail(mut self, _: &TriangulationError<Injected>) {
        // with panics on, it may panic here as well
        let _ = self.step([0, 0]);
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool> ListFormat<'p, P> for Heap<F>
where
    P::Index: AsIx,
{
    type Builder = Heap<F>;
    fn initialize(mut self, _: &'p P) -> Result<Heap<F>, Injected> {
        self.step([0, 0])?;
        Ok(self)
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: Fn(i64) -> bool> ListBuilder<'p, P> for Heap<F>
where
    P::Index: AsIx,
{
    type Output = usize;
    type Error = Injected;
    fn add_triangle(&mut self, a: P::Index, _: P::Index, _: P::Index) -> Result<(), Injected> {
        self.step(a.ix())
    }
    fn build(mut self) -> Result<usize, Injected> {
        self.step([0, 0])?;
        Ok(self.sum())
    }
    fn fail(mut self, _: &TriangulationError<Injected>) {
        let _ = self.step([0, 0]);
    }
}

// ---- a user's own containers ------------------------------------------------------------

/// Triangles, stored back to front.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct OwnList<V>(pub std::collections::VecDeque<[V; 3]>);
impl<V> List<V> for OwnList<V> {
    fn push(&mut self, a: V, b: V, c: V) {
        self.0.push_front([a, b, c]);
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn truncate(&mut self, len: usize) {
        while self.0.len() > len {
            self.0.pop_front();
        }
    }
}

/// A fan as its triangles' corners.
#[derive(Clone, PartialEq, Debug)]
pub struct OwnFan<V> {
    pub hub: V,
    pub rim: Vec<V>,
}
impl<V> Fan<V> for OwnFan<V> {
    fn new(a: V, b: V, c: V) -> Self {
        OwnFan { hub: a, rim: vec![b, c] }
    }
    fn push(&mut self, v: V) {
        self.rim.push(v);
    }
}

/// Fans in fixed places; what was there before is counted, not stored.
#[derive(Clone, PartialEq, Debug)]
pub struct OwnFans<F> {
    pub before: usize,
    pub fans: Vec<F>,
    /// truncate was asked to go below what was there before
    pub cut: bool,
}
impl<F> Fans for OwnFans<F> {
    type Fan = F;
    fn len(&self) -> usize {
        self.before + self.fans.len()
    }
    fn truncate(&mut self, len: usize) {
        self.cut |= len < self.before;
        self.fans.truncate(len.saturating_sub(self.before));
    }
    fn push(&mut self, f: F) {
        self.fans.push(f);
    }
}

// ---- a builder that calls back ----------------------------------------------------------

/// Records fans, and runs something of its own at every call.
pub struct Meddler<F> {
    pub calls: Vec<Call<Ix>>,
    pub f: F,
}
impl<'p, P: PolygonList<'p> + ?Sized, F: FnMut(usize)> FanFormat<'p, P> for Meddler<F>
where
    P::Index: AsIx,
{
    type Builder = Self;
    fn initialize(mut self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, Never> {
        (self.f)(0);
        self.calls.push(Call::Init(a.ix(), b.ix(), c.ix()));
        Ok(self)
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, F: FnMut(usize)> FanBuilder<'p, P> for Meddler<F>
where
    P::Index: AsIx,
{
    type Output = Vec<Call<Ix>>;
    type Error = Never;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Never> {
        (self.f)(self.calls.len());
        self.calls.push(Call::New(a.ix(), b.ix(), c.ix()));
        Ok(())
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Never> {
        (self.f)(self.calls.len());
        self.calls.push(Call::Ext(a.ix()));
        Ok(())
    }
    fn build(mut self) -> Result<Vec<Call<Ix>>, Never> {
        (self.f)(self.calls.len());
        Ok(self.calls)
    }
    fn fail(self, _: &TriangulationError<Never>) {}
}

/// A panic of the library's or of a check's own types; anything else goes on unwinding.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn std::any::Any + Send>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let ours = p.is::<crate::exec::Stop>() || p.is::<crate::rat::Overflow>() || p.downcast_ref::<String>().is_some_and(|s| s.starts_with("executor"));
            if ours { std::panic::resume_unwind(p) } else { Err(p) }
        }
    }
}
