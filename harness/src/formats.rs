//! Instrumented output formats: recorders (protocol traces), fault injectors, and decoders.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::marker::PhantomData;
use std::rc::Rc;
use triangulate::{FanBuilder, FanFormat, ListBuilder, ListFormat, PolygonList, TrapezoidationError, TriangleWinding, TriangulationError};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev<I> {
    Init([I; 3]),
    ListInit,
    New([I; 3]),
    Ext(I),
    Tri([I; 3]),
    Build,
    Fail(String),
    /// the callback just logged returned this injected error
    Erred(u64),
    Drop,
}

impl<I> Ev<I> {
    pub fn kind(&self) -> &'static str {
        match self {
            Ev::Init(_) => "init",
            Ev::ListInit => "linit",
            Ev::New(_) => "new",
            Ev::Ext(_) => "ext",
            Ev::Tri(_) => "tri",
            Ev::Build => "build",
            Ev::Fail(_) => "fail",
            Ev::Erred(_) => "erred",
            Ev::Drop => "drop",
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Inj(pub u64);
impl fmt::Display for Inj { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "injected error {}", self.0) } }
impl std::error::Error for Inj {}

pub fn err_text<E: std::error::Error>(e: &TriangulationError<E>) -> String {
    match e {
        TriangulationError::TrapezoidationError(TrapezoidationError::NotEnoughVertices(n)) => format!("NotEnoughVertices({n})"),
        TriangulationError::TrapezoidationError(TrapezoidationError::InternalError(i)) => format!("Trapezoidation InternalError: {}", i.msg),
        TriangulationError::NoVertices => "NoVertices".into(),
        TriangulationError::InternalError(i) => format!("InternalError: {}", i.msg),
        TriangulationError::FanBuilder(e) => format!("FanBuilder({e})"),
        _ => "other error".to_string(),
    }
}

#[derive(Clone)]
pub struct Plan {
    /// callback number (0 = initialize) that returns an error
    pub fail_at: Option<usize>,
    /// callback number that panics
    pub panic_at: Option<usize>,
    pub fail_build: bool,
    pub err_id: u64,
    /// emitted triangles after which an error is returned (runaway protection)
    pub max: usize,
}
impl Default for Plan {
    fn default() -> Self { Plan { fail_at: None, panic_at: None, fail_build: false, err_id: 7, max: usize::MAX } }
}
pub const RUNAWAY: u64 = u64::MAX;

pub type Log<I> = Rc<RefCell<Vec<Ev<I>>>>;
pub fn log<I>() -> Log<I> { Rc::new(RefCell::new(vec![])) }

/// Recording fan format; CW: the winding the builder declares
pub struct Rec<'p, P: PolygonList<'p> + ?Sized, const CW: bool> {
    pub log: Log<P::Index>,
    pub plan: Plan,
    pub _p: PhantomData<&'p P>,
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> Rec<'p, P, CW> {
    pub fn new(log: &Log<P::Index>, plan: Plan) -> Self { Rec { log: log.clone(), plan, _p: PhantomData } }
}
pub struct RecB<'p, P: PolygonList<'p> + ?Sized, const CW: bool> {
    log: Log<P::Index>,
    plan: Plan,
    calls: usize,
    tris: usize,
    _p: PhantomData<&'p P>,
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> RecB<'p, P, CW> {
    fn step(&mut self, tri: bool) -> Result<(), Inj> {
        let k = self.calls;
        self.calls += 1;
        self.tris += tri as usize;
        if self.plan.panic_at == Some(k) {
            panic!("{}", crate::coord::BOMB_MSG);
        }
        if self.plan.fail_at == Some(k) {
            self.log.borrow_mut().push(Ev::Erred(self.plan.err_id));
            return Err(Inj(self.plan.err_id));
        }
        if self.tris > self.plan.max {
            self.log.borrow_mut().push(Ev::Erred(RUNAWAY));
            return Err(Inj(RUNAWAY));
        }
        Ok(())
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> Drop for RecB<'p, P, CW> {
    fn drop(&mut self) { if let Ok(mut l) = self.log.try_borrow_mut() { l.push(Ev::Drop) } }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanFormat<'p, P> for Rec<'p, P, CW> {
    type Builder = RecB<'p, P, CW>;
    fn initialize(self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, Inj> {
        self.log.borrow_mut().push(Ev::Init([a, b, c]));
        if self.plan.panic_at == Some(0) {
            panic!("{}", crate::coord::BOMB_MSG);
        }
        if self.plan.fail_at == Some(0) {
            self.log.borrow_mut().push(Ev::Erred(self.plan.err_id));
            return Err(Inj(self.plan.err_id));
        }
        Ok(RecB { log: self.log, plan: self.plan, calls: 1, tris: 1, _p: PhantomData })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanBuilder<'p, P> for RecB<'p, P, CW> {
    type Output = ();
    type Error = Inj;
    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Inj> {
        self.log.borrow_mut().push(Ev::New([a, b, c]));
        self.step(true)
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Inj> {
        self.log.borrow_mut().push(Ev::Ext(a));
        self.step(true)
    }
    fn build(mut self) -> Result<(), Inj> {
        self.log.borrow_mut().push(Ev::Build);
        if self.plan.fail_build {
            self.plan.fail_at = Some(self.calls);
        }
        self.step(false)
    }
    fn fail(self, e: &TriangulationError<Inj>) {
        self.log.borrow_mut().push(Ev::Fail(err_text(e)));
    }
}

/// Recording list format
pub struct RecList<'p, P: PolygonList<'p> + ?Sized, const CW: bool> {
    pub log: Log<P::Index>,
    pub plan: Plan,
    pub _p: PhantomData<&'p P>,
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> RecList<'p, P, CW> {
    pub fn new(log: &Log<P::Index>, plan: Plan) -> Self { RecList { log: log.clone(), plan, _p: PhantomData } }
}
pub struct RecListB<'p, P: PolygonList<'p> + ?Sized, const CW: bool>(RecB<'p, P, CW>);
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListFormat<'p, P> for RecList<'p, P, CW> {
    type Builder = RecListB<'p, P, CW>;
    fn initialize(self, _: &'p P) -> Result<Self::Builder, Inj> {
        self.log.borrow_mut().push(Ev::ListInit);
        if self.plan.panic_at == Some(0) {
            panic!("{}", crate::coord::BOMB_MSG);
        }
        if self.plan.fail_at == Some(0) {
            self.log.borrow_mut().push(Ev::Erred(self.plan.err_id));
            return Err(Inj(self.plan.err_id));
        }
        Ok(RecListB(RecB { log: self.log, plan: self.plan, calls: 1, tris: 0, _p: PhantomData }))
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListBuilder<'p, P> for RecListB<'p, P, CW> {
    type Output = ();
    type Error = Inj;
    const WINDING: TriangleWinding = <RecB<'p, P, CW> as FanBuilder<'p, P>>::WINDING;
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Inj> {
        self.0.log.borrow_mut().push(Ev::Tri([a, b, c]));
        self.0.step(true)
    }
    fn build(self) -> Result<(), Inj> { self.0.build() }
    fn fail(self, e: &TriangulationError<Inj>) { self.0.fail(e) }
}

/// Triangles described by a protocol trace. Err: an extension without a fan.
pub fn decode<I: Clone>(log: &[Ev<I>]) -> Result<Vec<[I; 3]>, String> {
    let mut out: Vec<[I; 3]> = vec![];
    let mut cur: Option<(I, I)> = None;
    for e in log {
        match e {
            Ev::Init(t) | Ev::New(t) => {
                out.push(t.clone());
                cur = Some((t[0].clone(), t[2].clone()));
            }
            Ev::Ext(v) => {
                let (r, l) = cur.clone().ok_or("extend_fan without an open fan")?;
                out.push([r.clone(), l, v.clone()]);
                cur = Some((r, v.clone()));
            }
            Ev::Tri(t) => out.push(t.clone()),
            _ => {}
        }
    }
    Ok(out)
}

pub fn fan_tris<I: Clone>(fan: &[I]) -> Vec<[I; 3]> {
    (1..fan.len().saturating_sub(1)).map(|i| [fan[0].clone(), fan[i].clone(), fan[i + 1].clone()]).collect()
}

/// Error of a wrapped builder
#[derive(Debug)]
pub enum FErr<E> {
    Inj(u64),
    Inner(E),
}
impl<E: fmt::Display> fmt::Display for FErr<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            FErr::Inj(i) => write!(f, "injected error {i}"),
            FErr::Inner(e) => e.fmt(f),
        }
    }
}
impl<E: fmt::Debug + fmt::Display> std::error::Error for FErr<E> {}

/// Shared fault state of a wrapper
pub struct Fault {
    pub at: Option<usize>,
    pub at_build: bool,
    pub id: u64,
    pub calls: Cell<usize>,
    pub fired: Cell<bool>,
    pub failed: Cell<usize>,
    pub built: Cell<usize>,
    pub max: usize,
}
impl Fault {
    pub fn new(at: Option<usize>, at_build: bool, id: u64) -> Rc<Fault> {
        Rc::new(Fault { at, at_build, id, calls: Cell::new(0), fired: Cell::new(false), failed: Cell::new(0), built: Cell::new(0), max: usize::MAX })
    }
    fn hit(&self) -> Option<u64> {
        let k = self.calls.get();
        self.calls.set(k + 1);
        if self.at == Some(k) {
            self.fired.set(true);
            return Some(self.id);
        }
        if k > self.max {
            self.fired.set(true);
            return Some(RUNAWAY);
        }
        None
    }
}

/// Wraps a real fan format, injecting errors after the inner builder has done its work for that callback or before it
pub struct FaultFan<F> { pub inner: F, pub fault: Rc<Fault>, pub after: bool }
pub struct FaultFanB<B> { inner: B, fault: Rc<Fault>, after: bool }
impl<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>> FanFormat<'p, P> for FaultFan<F> {
    type Builder = FaultFanB<F::Builder>;
    fn initialize(self, p: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self::Builder, FErr<<F::Builder as FanBuilder<'p, P>>::Error>> {
        if let Some(i) = self.fault.hit() {
            return Err(FErr::Inj(i));
        }
        let inner = self.inner.initialize(p, a, b, c).map_err(FErr::Inner)?;
        Ok(FaultFanB { inner, fault: self.fault, after: self.after })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: FanBuilder<'p, P>> FanBuilder<'p, P> for FaultFanB<B> {
    type Output = B::Output;
    type Error = FErr<B::Error>;
    const WINDING: TriangleWinding = B::WINDING;
    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        let h = self.fault.hit();
        if h.is_none() || self.after {
            self.inner.new_fan(a, b, c).map_err(FErr::Inner)?;
        }
        h.map_or(Ok(()), |i| Err(FErr::Inj(i)))
    }
    fn extend_fan(&mut self, a: P::Index) -> Result<(), Self::Error> {
        let h = self.fault.hit();
        if h.is_none() || self.after {
            self.inner.extend_fan(a).map_err(FErr::Inner)?;
        }
        h.map_or(Ok(()), |i| Err(FErr::Inj(i)))
    }
    fn build(self) -> Result<Self::Output, Self::Error> {
        self.fault.built.set(self.fault.built.get() + 1);
        if self.fault.at_build {
            // the library hands the builder over for good: a failing build must clean up itself
            self.fault.fired.set(true);
            self.inner.fail(&TriangulationError::NoVertices);
            return Err(FErr::Inj(self.fault.id));
        }
        self.inner.build().map_err(FErr::Inner)
    }
    fn fail(self, _: &TriangulationError<Self::Error>) {
        self.fault.failed.set(self.fault.failed.get() + 1);
        self.inner.fail(&TriangulationError::NoVertices);
    }
}

pub struct FaultList<F> { pub inner: F, pub fault: Rc<Fault>, pub after: bool }
pub struct FaultListB<B> { inner: B, fault: Rc<Fault>, after: bool }
impl<'p, P: PolygonList<'p> + ?Sized, F: ListFormat<'p, P>> ListFormat<'p, P> for FaultList<F> {
    type Builder = FaultListB<F::Builder>;
    fn initialize(self, p: &'p P) -> Result<Self::Builder, FErr<<F::Builder as ListBuilder<'p, P>>::Error>> {
        if let Some(i) = self.fault.hit() {
            return Err(FErr::Inj(i));
        }
        let inner = self.inner.initialize(p).map_err(FErr::Inner)?;
        Ok(FaultListB { inner, fault: self.fault, after: self.after })
    }
}
impl<'p, P: PolygonList<'p> + ?Sized, B: ListBuilder<'p, P>> ListBuilder<'p, P> for FaultListB<B> {
    type Output = B::Output;
    type Error = FErr<B::Error>;
    const WINDING: TriangleWinding = B::WINDING;
    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Self::Error> {
        let h = self.fault.hit();
        if h.is_none() || self.after {
            self.inner.add_triangle(a, b, c).map_err(FErr::Inner)?;
        }
        h.map_or(Ok(()), |i| Err(FErr::Inj(i)))
    }
    fn build(self) -> Result<Self::Output, Self::Error> {
        self.fault.built.set(self.fault.built.get() + 1);
        if self.fault.at_build {
            self.fault.fired.set(true);
            self.inner.fail(&TriangulationError::NoVertices);
            return Err(FErr::Inj(self.fault.id));
        }
        self.inner.build().map_err(FErr::Inner)
    }
    fn fail(self, _: &TriangulationError<Self::Error>) {
        self.fault.failed.set(self.fault.failed.get() + 1);
        self.inner.fail(&TriangulationError::NoVertices);
    }
}
