//! C20 truthful, legible errors; C21 contracts of the public building blocks (views, collections, index mapping).
use crate::common::*;
use crate::formats::*;
use crate::gen;
use crate::inputs::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::rc::Rc;
use triangulate::{formats, Fan, FanBuilder, FanFormat, Fans, List, ListBuilder, ListFormat, Polygon, PolygonElement, PolygonList, TrapezoidationError, TriangleWinding, TriangulationError};

// --- C20 ---------------------------------------------------------------------------------------------------------
/// a builder's error: honours the formatter's flags, has a cause chain of its own
#[derive(Debug, Clone, PartialEq)]
struct Deep {
    text: String,
    cause: Option<Box<Deep>>,
}
impl Deep {
    fn new(rng: &mut Rng, depth: usize) -> Deep {
        let words = ["disk full", "", "{}", "no\nsuch\ntriangle", "ünïcödé ▲", "%s%n", "0", "error: error"];
        Deep { text: format!("{}{}", rng.pick(&words), rng.below(1000)), cause: (depth > 0).then(|| Box::new(Deep::new(rng, depth - 1))) }
    }
    fn chain(&self) -> Vec<String> {
        let mut v = vec![self.text.clone()];
        let mut e = &self.cause;
        while let Some(c) = e {
            v.push(c.text.clone());
            e = &c.cause;
        }
        v
    }
}
impl fmt::Display for Deep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            write!(f, "<<{}>>", self.text)
        } else {
            f.pad(&self.text)
        }
    }
}
impl Error for Deep {
    fn source(&self) -> Option<&(dyn Error + 'static)> { self.cause.as_deref().map(|c| c as &(dyn Error + 'static)) }
}

#[derive(Clone, PartialEq, Debug)]
struct Told {
    plain: String,
    alternate: String,
    padded: String,
    debug: String,
    causes: Vec<String>,
}
/// everything one can ask an error
fn ask(e: &dyn Error) -> Result<Told, String> {
    let once = || guard(|| {
        let mut causes = vec![];
        let mut s = e.source();
        while let Some(c) = s {
            causes.push(c.to_string());
            let _ = format!("{c:?} {c:#?}");
            if causes.len() > 40 {
                return Err("the chain of causes does not end".to_string());
            }
            s = c.source();
        }
        let _ = format!("{e:#?}");
        Ok(Told { plain: e.to_string(), alternate: format!("{e:#}"), padded: format!("{e:>50}"), debug: format!("{e:?}"), causes })
    });
    let a = once().map_err(|m| format!("asking the error for its text panicked: {m}"))??;
    let b = once().map_err(|m| format!("asking the error again panicked: {m}"))??;
    if a != b {
        return Err(format!("the error tells something else when asked again: {a:?} then {b:?}"));
    }
    if a.plain.trim().is_empty() && a.debug.trim().is_empty() {
        return Err("the error says nothing".into());
    }
    Ok(a)
}

/// the text of a library error against its variant
fn truthful<E: Error>(e: &TriangulationError<E>, inner: Option<&dyn Fn(&E) -> Verdict>) -> Result<Told, String> {
    let t = ask(e)?;
    match e {
        TriangulationError::FanBuilder(i) => {
            let d = ask_inner(i)?;
            if t.plain != d.plain {
                return Err(format!("the builder's error reads {:?}, reported as {:?}", d.plain, t.plain));
            }
            if !t.causes.ends_with(&d.causes) {
                return Err(format!("the causes of the builder's error are {:?}, reported as {:?}", d.causes, t.causes));
            }
            if let Some(f) = inner {
                f(i)?;
            }
        }
        TriangulationError::TrapezoidationError(i) => {
            let d = trap_truthful(i)?;
            if d.plain != t.plain {
                return Err(format!("the trapezoidation error reads {:?}, reported as {:?}", d.plain, t.plain));
            }
        }
        TriangulationError::InternalError(i) => internal(&i.msg, &t)?,
        TriangulationError::NoVertices => {
            if t.plain.trim().is_empty() {
                return Err("the no-vertices error has no text".into());
            }
        }
        _ => return Err(format!("undocumented kind of error: {}", t.debug)),
    }
    Ok(t)
}
fn ask_inner<E: Error>(e: &E) -> Result<Told, String> { ask(e) }
fn internal(msg: &str, t: &Told) -> Verdict {
    if msg.trim().is_empty() || !t.plain.contains(msg) {
        return Err(format!("an internal error with reason {msg:?} reads {:?}", t.plain.chars().take(200).collect::<String>()));
    }
    Ok(())
}
fn trap_truthful(e: &TrapezoidationError) -> Result<Told, String> {
    let t = ask(e)?;
    match e {
        TrapezoidationError::NotEnoughVertices(n) => {
            if !t.plain.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()) {
                return Err(format!("the error about a polygon of {n} vertices reads {:?}", t.plain));
            }
        }
        TrapezoidationError::InternalError(i) => internal(&i.msg, &t)?,
        _ => return Err(format!("undocumented kind of error: {}", t.debug)),
    }
    Ok(t)
}
/// what kind of failure, in a form both routes can be compared in
fn kind<E: Error>(e: &TriangulationError<E>) -> String {
    match e {
        TriangulationError::TrapezoidationError(TrapezoidationError::InternalError(_)) => "trapezoidation".into(),
        TriangulationError::InternalError(_) => "triangulation".into(),
        e => err_text(e),
    }
}

/// a builder failing at its `at`th call with `err`; records what it was told
struct Doomed<'d> {
    calls: usize,
    at: usize,
    err: &'d Deep,
    told: &'d RefCell<Vec<Result<Told, String>>>,
}
impl<'d> Doomed<'d> {
    fn step(&mut self) -> Result<(), Deep> {
        self.calls += 1;
        if self.calls == self.at { Err(self.err.clone()) } else { Ok(()) }
    }
    fn hear(&self, e: &TriangulationError<Deep>) {
        let want = self.err.clone();
        self.told.borrow_mut().push(truthful(e, Some(&|i: &Deep| if *i == want { Ok(()) } else { Err(format!("fail was shown {i:?}, the builder had returned {want:?}")) })));
    }
}
impl<'p, 'd, P: PolygonList<'p>> FanFormat<'p, P> for Doomed<'d> {
    type Builder = Self;
    fn initialize(mut self, _: &'p P, _: P::Index, _: P::Index, _: P::Index) -> Result<Self, Deep> { self.step().map(|_| self) }
}
impl<'p, 'd, P: PolygonList<'p>> FanBuilder<'p, P> for Doomed<'d> {
    type Output = ();
    type Error = Deep;
    fn new_fan(&mut self, _: P::Index, _: P::Index, _: P::Index) -> Result<(), Deep> { self.step() }
    fn extend_fan(&mut self, _: P::Index) -> Result<(), Deep> { self.step() }
    fn build(mut self) -> Result<(), Deep> { self.step() }
    fn fail(self, e: &TriangulationError<Deep>) { self.hear(e) }
}
struct DoomedList<'d>(Doomed<'d>);
impl<'p, 'd, P: PolygonList<'p>> ListFormat<'p, P> for DoomedList<'d> {
    type Builder = Self;
    fn initialize(mut self, _: &'p P) -> Result<Self, Deep> { self.0.step().map(|_| self) }
}
impl<'p, 'd, P: PolygonList<'p>> ListBuilder<'p, P> for DoomedList<'d> {
    type Output = ();
    type Error = Deep;
    fn add_triangle(&mut self, _: P::Index, _: P::Index, _: P::Index) -> Result<(), Deep> { self.0.step() }
    fn build(mut self) -> Result<(), Deep> { self.0.step() }
    fn fail(self, e: &TriangulationError<Deep>) { self.0.hear(e) }
}

struct Has<T>(std::marker::PhantomData<T>);
trait Not {
    const SHARE: bool = false;
}
impl<T> Not for Has<T> {}
impl<T: Send + Sync + 'static> Has<T> {
    const SHARE: bool = true;
}
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}

fn judge_run<E: Error>(ctx: &mut Ctx, what: &str, r: Result<(), TriangulationError<E>>, must: Option<&str>) -> Verdict {
    match (r, must) {
        (Ok(()), None) => Ok(()),
        (Ok(()), Some(_)) => Err(format!("[{what}] a call that cannot succeed returned Ok")),
        (Err(e), _) => {
            let t = truthful(&e, None).map_err(|m| format!("[{what}] {m}"))?;
            if let Some(k) = must {
                if err_text(&e) != k {
                    return Err(format!("[{what}] reported as {}, the cause is {k}", err_text(&e)));
                }
            }
            ctx.add("errors questioned", 1);
            ctx.sig(t.plain.lines().next().unwrap_or("").bytes().fold(7, |h, b| mix(h, b as u64)));
            ctx.add(match &e { TriangulationError::FanBuilder(_) => "builder errors", TriangulationError::NoVertices => "no-vertices errors", TriangulationError::InternalError(_) => "internal errors of triangulation", TriangulationError::TrapezoidationError(TrapezoidationError::NotEnoughVertices(_)) => "not-enough-vertices errors", _ => "internal errors of trapezoidation" }, 1);
            Ok(())
        }
    }
}

fn c20_builder(ctx: &mut Ctx) -> Verdict {
    let n = 3 + ctx.rng.below(30);
    let f = *ctx.rng.pick(gen::FAMILIES);
    let polys = gen::generate(&mut ctx.rng, f, n);
    describe(show(&polys));
    let p = to_f64(&polys);
    let n: usize = p.iter().map(|r| r.len()).sum();
    let depth = ctx.rng.below(5);
    let err = Deep::new(&mut ctx.rng, depth);
    for route in 0..6 {
        let at = 1 + ctx.rng.below(n + 2);
        let told = RefCell::new(vec![]);
        let d = Doomed { calls: 0, at, err: &err, told: &told };
        let what = ["fans", "lists", "reversed fans", "reversed lists", "fans in two steps", "lists in two steps"][route];
        let r = guard(|| match route {
            0 => p.triangulate(d),
            1 => p.triangulate(DoomedList(d).into_fan_format()),
            2 => p.triangulate(d.reverse_winding()),
            3 => p.triangulate(DoomedList(d).into_fan_format().reverse_winding()),
            k => {
                let t = p.trapezoidize().map_err(TriangulationError::TrapezoidationError)?;
                if k == 4 { t.triangulate(d) } else { t.triangulate(DoomedList(d).into_fan_format()) }
            }
        }).map_err(|m| format!("[{what}] panicked: {m}"))?;
        for t in told.into_inner() {
            t.map_err(|m| format!("[{what}, shown to fail] {m}"))?;
            ctx.add("errors shown to builders", 1);
        }
        if let Err(TriangulationError::FanBuilder(e)) = &r {
            if *e != err || e.chain() != err.chain() {
                return Err(format!("[{what}] the builder's error {err:?} was returned as {e:?}"));
            }
        } else if let Err(e) = &r {
            return Err(format!("[{what}] call {at} of the builder failed, reported as {}", err_text(e)));
        }
        ctx.add("executions", 1);
        judge_run(ctx, what, r, None)?;
    }
    // a refused delimiter
    let r = { let r = ctx.rng.below(p.len()); [r, ctx.rng.below(p[r].len())] };
    let mut out = vec![[usize::MAX; 2]; ctx.rng.below(3)];
    let r = guard(|| p.triangulate(formats::DelimitedFanFormat::new(&mut out, r)).map(|_| ())).map_err(|m| format!("[delimiter] panicked: {m}"))?;
    if !matches!(r, Err(TriangulationError::FanBuilder(_))) {
        return Err(format!("[delimiter] refused delimiter reported as {}", r.err().map_or("success".into(), |e| err_text(&e))));
    }
    judge_run(ctx, "delimiter", r, None)
}

fn c20_count(ctx: &mut Ctx) -> Verdict {
    let n = ctx.rng.below(3);
    let mut p: Vec<Vec<[f64; 2]>> = vec![];
    for k in 0..ctx.rng.below(4) {
        let x = 10.0 * k as f64;
        p.push(if n == 0 || ctx.rng.chance(1, 2) { vec![] } else { vec![[x, 0.0], [x + 3.0, 1.0], [x + 1.0, 4.0]] });
    }
    if n > 0 {
        let at = ctx.rng.below(p.len() + 1);
        p.insert(at, (0..n).map(|i| [-5.0 - i as f64, i as f64]).collect());
    }
    describe(format!("{p:?}"));
    let want = if n == 0 { "NoVertices".to_string() } else { format!("NotEnoughVertices({n})") };
    let fan = formats::IndexedFanFormat::<_, Vec<Vec<[usize; 2]>>>::new(vec![]);
    judge_run(ctx, "one step", guard(|| p.triangulate(fan).map(|_| ()))?, Some(&want))?;
    if n > 0 {
        let told = match guard(|| p.trapezoidize())? {
            Err(e) => trap_truthful(&e).map_err(|m| format!("[trapezoidation] {m}"))?,
            Ok(_) => return Err("[trapezoidation] accepted".into()),
        };
        match guard(|| p.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<[usize; 2]>>>::new(vec![])))? {
            Err(e) if e.to_string() == told.plain => {}
            r => return Err(format!("one step reports {:?}, two steps {:?}", r.err().map(|e| e.to_string()), told.plain)),
        }
    }
    ctx.add("executions", 2);
    ctx.sig(mix(n as u64, p.iter().fold(1, |h, r| mix(h, r.len() as u64))));
    Ok(())
}

/// input outside the preconditions: whatever error comes out, by both routes
fn c20_invalid(ctx: &mut Ctx) -> Verdict {
    if !Has::<TriangulationError<std::convert::Infallible>>::SHARE || !Has::<TrapezoidationError>::SHARE {
        return Err("errors can no longer be handed to another thread (not Send, Sync and 'static)".into());
    }
    let n = 3 + ctx.rng.below(30);
    let g = gen::garbage(&mut ctx.rng, n);
    describe(show(&g));
    let p = to_f64(&g);
    let total: usize = p.iter().map(|r| r.len()).sum();
    let seed = ctx.rng.next();
    for k in 0..4u64 {
        // each route on a thread of its own: the library's generator is seeded once per thread
        let run = |two: bool| {
            let (p, s) = (&p, mix(seed, k));
            std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(sc, move || {
                        getrandom::verif_set_seed(s);
                        let told = RefCell::new(vec![]);
                        let never = Deep { text: "never".into(), cause: None };
                        let d = Doomed { calls: 0, at: 20 * total + 20, err: &never, told: &told };
                        let r = guard(|| if two { p.trapezoidize().map_err(TriangulationError::TrapezoidationError).and_then(|t| t.triangulate(d)) } else { p.triangulate(d) });
                        (r, told.into_inner())
                    })
                    .expect("thread")
                    .join()
                    .map_err(|_| "the thread died".to_string())
            })
        };
        let (one, told) = run(false)?;
        let one = one.map_err(|m| format!("panicked: {m}"))?;
        let (two, more) = run(true)?;
        let two = two.map_err(|m| format!("panicked: {m}"))?;
        let told: Vec<_> = told.into_iter().chain(more).collect();
        let (a, b) = (one.as_ref().err().map(kind), two.as_ref().err().map(kind));
        if a != b {
            return Err(format!("under the same insertion order one step reports {a:?}, two steps {b:?}"));
        }
        for t in told {
            t.map_err(|m| format!("[shown to fail] {m}"))?;
            ctx.add("errors shown to builders", 1);
        }
        ctx.add("executions", 2);
        // from another thread, boxed, after everything else is gone
        if let Err(e) = guard(|| p.trapezoidize())? {
            let c = Carry(e);
            let t = std::thread::Builder::new().stack_size(256 << 10).spawn(move || { let c = c; trap_truthful(&c.0) }).expect("thread").join().map_err(|_| "asking an error from another thread panicked".to_string())?;
            t.map_err(|m| format!("[another thread] {m}"))?;
            ctx.add("errors carried to another thread", 1);
        }
        judge_run(ctx, "one step", one, None)?;
        judge_run(ctx, "two steps", two, None)?;
    }
    Ok(())
}

// --- C21 ---------------------------------------------------------------------------------------------------------
/// values with identity: equal ids, counted
#[derive(Debug)]
struct Val(u32, Rc<Cell<i64>>);
impl Val {
    fn new(id: u32, c: &Rc<Cell<i64>>) -> Val {
        c.set(c.get() + 1);
        Val(id, c.clone())
    }
}
impl Drop for Val { fn drop(&mut self) { self.1.set(self.1.get() - 1) } }

/// any list of triangles against a model: `read` gives the ids held, `given` is what it held before
fn drive_list<L: List<Val>>(rng: &mut Rng, what: &str, l: &mut L, c: &Rc<Cell<i64>>, read: &dyn Fn(&L) -> Vec<u32>, ops: &mut u64) -> Verdict {
    let mut model: Vec<[u32; 3]> = read(l).chunks_exact(3).map(|t| [t[0], t[1], t[2]]).collect();
    // ids of an incomplete triangle at the end of a flat list stay in front of what is pushed until truncated away
    let mut loose: Vec<u32> = read(l)[3 * model.len()..].to_vec();
    let mut next = 1000;
    for step in 0..60 {
        *ops += 1;
        match rng.below(10) {
            0..=5 => {
                let t = [next, next + 1, next + 2];
                next += 3;
                List::push(l, Val::new(t[0], c), Val::new(t[1], c), Val::new(t[2], c));
                loose.extend(t);
                while loose.len() >= 3 {
                    model.push([loose[0], loose[1], loose[2]]);
                    loose.drain(..3);
                }
            }
            6 => {
                // to a length it has
                let k = rng.below(model.len() + 1);
                List::truncate(l, k);
                model.truncate(k);
                loose.clear();
            }
            7 => {
                // newly added triangles only: none to remove
                let k = match rng.below(6) {
                    0 => usize::MAX - rng.below(4),
                    1 => usize::MAX / 3 + rng.below(4),
                    2 => usize::MAX / 2 + rng.below(4),
                    _ => model.len() + 1 + rng.below(5),
                };
                List::truncate(l, k);
            }
            _ => {}
        }
        if List::len(l) != model.len() {
            return Err(format!("[{what}] len is {}, {} triangles were pushed and kept (step {step})", List::len(l), model.len()));
        }
        if List::is_empty(l) != model.is_empty() {
            return Err(format!("[{what}] is_empty is {} with {} triangles", List::is_empty(l), model.len()));
        }
        let want: Vec<u32> = model.iter().flatten().chain(&loose).copied().collect();
        if read(l) != want {
            return Err(format!("[{what}] holds {:?} instead of {want:?} (step {step})", read(l)));
        }
        if c.get() != want.len() as i64 {
            return Err(format!("[{what}] {} values are alive, {} are held (step {step})", c.get(), want.len()));
        }
    }
    Ok(())
}
fn drive_fans<F, FS: Fans<Fan = F>>(rng: &mut Rng, what: &str, l: &mut FS, mk: &dyn Fn(u32) -> F, read: &dyn Fn(&FS) -> Vec<u32>, ops: &mut u64) -> Verdict {
    let mut model = read(l);
    let mut next = 1000;
    for step in 0..60 {
        *ops += 1;
        match rng.below(10) {
            0..=5 => {
                next += 1;
                Fans::push(l, mk(next));
                model.push(next);
            }
            6 => {
                let k = rng.below(model.len() + 1);
                Fans::truncate(l, k);
                model.truncate(k);
            }
            7 => Fans::truncate(l, if rng.chance(1, 4) { usize::MAX - rng.below(4) } else { model.len() + rng.below(5) }),
            _ => {}
        }
        if Fans::len(l) != model.len() || Fans::is_empty(l) != model.is_empty() || read(l) != model {
            return Err(format!("[{what}] len {} holding {:?} instead of {model:?} (step {step})", Fans::len(l), read(l)));
        }
    }
    Ok(())
}
fn c21_collections(ctx: &mut Ctx) -> Verdict {
    let c = Rc::new(Cell::new(0));
    let mut ops = 0;
    let k = ctx.rng.below(5) as u32;
    let extra = ctx.rng.below(3) as u32;
    let rng = &mut ctx.rng;
    let flat = |n: u32| -> Vec<Val> { (0..n).map(|i| Val::new(i, &c)).collect() };
    {
        let mut v = flat(3 * k + extra);
        drive_list(rng, "flat list", &mut v, &c, &|v| v.iter().map(|x| x.0).collect(), &mut ops)?;
        let mut w = &mut v;
        drive_list(rng, "borrowed flat list", &mut w, &c, &|v| v.iter().map(|x| x.0).collect(), &mut ops)?;
        let mut w = &mut w;
        drive_list(rng, "twice borrowed flat list", &mut w, &c, &|v| v.iter().map(|x| x.0).collect(), &mut ops)?;
    }
    {
        let mut v: Vec<[Val; 3]> = (0..k).map(|i| [Val::new(3 * i, &c), Val::new(3 * i + 1, &c), Val::new(3 * i + 2, &c)]).collect();
        drive_list(rng, "array list", &mut v, &c, &|v| v.iter().flatten().map(|x| x.0).collect(), &mut ops)?;
        let mut w = &mut v;
        drive_list(rng, "borrowed array list", &mut w, &c, &|v| v.iter().flatten().map(|x| x.0).collect(), &mut ops)?;
    }
    {
        let mut v: Vec<(Val, Val, Val)> = (0..k).map(|i| (Val::new(3 * i, &c), Val::new(3 * i + 1, &c), Val::new(3 * i + 2, &c))).collect();
        drive_list(rng, "tuple list", &mut v, &c, &|v| v.iter().flat_map(|x| [x.0 .0, x.1 .0, x.2 .0]).collect(), &mut ops)?;
        let mut w = &mut v;
        drive_list(rng, "borrowed tuple list", &mut w, &c, &|v| v.iter().flat_map(|x| [x.0 .0, x.1 .0, x.2 .0]).collect(), &mut ops)?;
    }
    if c.get() != 0 {
        return Err(format!("{} values outlive their lists", c.get()));
    }
    {
        let mut v: Vec<Val> = flat(k);
        drive_fans(rng, "delimited store", &mut v, &|i| Val::new(i, &c), &|v| v.iter().map(|x| x.0).collect(), &mut ops)?;
        let mut w = &mut v;
        drive_fans(rng, "borrowed delimited store", &mut w, &|i| Val::new(i, &c), &|v| v.iter().map(|x| x.0).collect(), &mut ops)?;
        let mut v: Vec<Vec<Val>> = (0..k).map(|i| vec![Val::new(i, &c)]).collect();
        let mut w = &mut v;
        drive_fans(rng, "borrowed fans", &mut w, &|i| vec![Val::new(i, &c)], &|v| v.iter().map(|x| x[0].0).collect(), &mut ops)?;
    }
    // a fan
    let n = rng.below(40) as u32;
    let mut f: Vec<Val> = Fan::new(Val::new(0, &c), Val::new(1, &c), Val::new(2, &c));
    for i in 0..n {
        Fan::push(&mut f, Val::new(3 + i, &c));
    }
    if !f.iter().map(|v| v.0).eq(0..3 + n) {
        return Err(format!("[fan] holds {:?}", f.iter().map(|v| v.0).collect::<Vec<_>>()));
    }
    drop(f);
    if c.get() != 0 {
        return Err(format!("{} values outlive their collections", c.get()));
    }
    // winding
    use TriangleWinding::*;
    if Counterclockwise.reverse() != Clockwise || Clockwise.reverse() != Counterclockwise || Clockwise.reverse().reverse() != Clockwise {
        return Err("TriangleWinding::reverse does not exchange the two windings".into());
    }
    ctx.add("collection operations", ops);
    ctx.add("executions", 1);
    let r = ctx.rng.next();
    ctx.sig(mix(r, ops));
    Ok(())
}

/// `map` visits every component exactly once and keeps it in its place
fn mapped<T, M: triangulate::Mappable<T>>(what: &str, m: M, n: usize, id: &dyn Fn(&T) -> u32, read: &dyn Fn(M::Output<(u32, u32)>) -> Vec<(u32, u32)>) -> Verdict {
    let calls = RefCell::new(vec![]);
    let out = guard(|| triangulate::Mappable::map(m, |t: T| {
        let i = id(&t);
        calls.borrow_mut().push(i);
        (i, 7 * i + 1)
    })).map_err(|m| format!("[{what}] {m}"))?;
    let got = read(out);
    let want: Vec<(u32, u32)> = (0..n as u32).map(|i| (i, 7 * i + 1)).collect();
    if got != want {
        return Err(format!("[{what}] mapped to {got:?} instead of {want:?}"));
    }
    let mut c = calls.into_inner();
    c.sort();
    if c != (0..n as u32).collect::<Vec<_>>() {
        return Err(format!("[{what}] the function was applied to {c:?}"));
    }
    Ok(())
}
fn c21_map(ctx: &mut Ctx) -> Verdict {
    let c = Rc::new(Cell::new(0));
    let v = |i: u32| Val::new(i, &c);
    let id = |v: &Val| v.0;
    macro_rules! arr { ($($n:literal)*) => { $(
        let a: [Val; $n] = std::array::from_fn(|i| v(i as u32));
        mapped("array", a, $n, &id, &|a: [(u32, u32); $n]| a.to_vec())?;
    )* } }
    arr!(0 1 2 3 4 5 8 16 33);
    mapped("scalar", v(0), 1, &id, &|a| vec![a])?;
    mapped("pair", (v(0), v(1)), 2, &id, &|a| vec![a.0, a.1])?;
    mapped("triple", (v(0), v(1), v(2)), 3, &id, &|a| vec![a.0, a.1, a.2])?;
    let n = ctx.rng.below(50);
    mapped("vector", (0..n as u32).map(v).collect::<Vec<_>>(), n, &id, &|a| a)?;
    if c.get() != 0 {
        return Err(format!("{} components outlive the mapping", c.get()));
    }
    // a function that panics midway leaks nothing and drops nothing twice
    let at = ctx.rng.below(n + 1) as u32;
    let items: Vec<Val> = (0..n as u32).map(v).collect();
    let r = guard(|| triangulate::Mappable::map(items, |t: Val| if t.0 == at { panic!("tvmon: injected panic") } else { t }).len());
    if r.is_ok() != (at as usize >= n) || c.get() != 0 {
        return Err(format!("[vector, panic at {at} of {n}] {} components left over, returned {}", c.get(), r.is_ok()));
    }
    ctx.add("mappings", 14);
    ctx.add("executions", 1);
    ctx.sig(mix(n as u64, at as u64));
    Ok(())
}

/// the issued sequence: rings of (index, address of the vertex it denotes)
fn walk<'p, P: PolygonList<'p>>(p: &'p P) -> Vec<Vec<(P::Index, *const P::Vertex)>> {
    let mut rings = vec![vec![]];
    for it in p.iter_indices() {
        match it.into() {
            PolygonElement::ContinuePolygon(i) => rings.last_mut().unwrap().push((i.clone(), p.get_vertex(i) as *const _)),
            PolygonElement::NewPolygon => rings.push(vec![]),
        }
    }
    rings.retain(|r| !r.is_empty());
    rings
}
fn seen<'p, P: PolygonList<'p>>(what: &str, p: &'p P, want: &[Vec<*const P::Vertex>], ix: &dyn Fn(&P::Index) -> (usize, usize), at: &dyn Fn(usize, usize) -> *const P::Vertex) -> Verdict {
    let n: usize = want.iter().map(|r| r.len()).sum();
    if p.vertex_count() != n {
        return Err(format!("[{what}] vertex_count is {}, there are {n} vertices", p.vertex_count()));
    }
    let w = guard(|| walk(p)).map_err(|m| format!("[{what}] {m}"))?;
    let got: Vec<Vec<*const P::Vertex>> = w.iter().map(|r| r.iter().map(|x| x.1).collect()).collect();
    if got != want {
        return Err(format!("[{what}] iteration yields rings of {:?} vertices{}, the list has rings of {:?}", got.iter().map(|r| r.len()).collect::<Vec<_>>(), if got.len() == want.len() { " (others or in another order)" } else { "" }, want.iter().map(|r| r.len()).collect::<Vec<_>>()));
    }
    for (i, v) in w.iter().flatten() {
        let (a, b) = ix(i);
        if at(a, b) != *v {
            return Err(format!("[{what}] the index at position {a}, {b} denotes another vertex"));
        }
    }
    for x in 0..n.min(40) {
        for y in 0..x {
            let (a, b) = (w.iter().flatten().nth(x).unwrap(), w.iter().flatten().nth(y).unwrap());
            if a.0 == b.0 {
                return Err(format!("[{what}] one index is issued for two vertices"));
            }
        }
    }
    // independent iterations, also when the first is abandoned midway
    let k = n / 2;
    let mut it = p.iter_indices();
    for _ in 0..k { it.next(); }
    let again = walk(p);
    if again.len() != w.len() || again.iter().flatten().zip(w.iter().flatten()).any(|(a, b)| a.0 != b.0) {
        return Err(format!("[{what}] iterating again yields something else"));
    }
    // the other ways of walking the same iterator
    let flat = |it: P::IntoItem| match it.into() { PolygonElement::ContinuePolygon(i) => Some(i), PolygonElement::NewPolygon => None };
    let items: Vec<Option<P::Index>> = { let mut o = vec![]; let mut it = p.iter_indices(); while let Some(x) = it.next() { o.push(flat(x)); } o };
    let len = items.len();
    let mut probe = p.iter_indices();
    for at in 0..=len {
        let (lo, hi) = probe.size_hint();
        if lo > len - at || hi.map_or(false, |h| h < len - at) {
            return Err(format!("[{what}] after {at} of {len} items the iteration announces between {lo} and {hi:?} more"));
        }
        if at < len { probe.next(); }
    }
    let j = (len * 5 / 7).max(1) - 1;
    let mut skipped = p.iter_indices();
    let got = skipped.nth(j).map(flat);
    if got != items.get(j).cloned() || !skipped.map(flat).eq(items.iter().skip(j + 1).cloned()) {
        return Err(format!("[{what}] nth({j}) of {len} items disagrees with walking there"));
    }
    for step in [2, 3, 7] {
        if !p.iter_indices().step_by(step).map(flat).eq(items.iter().step_by(step).cloned()) {
            return Err(format!("[{what}] every {step}th item differs from walking there"));
        }
    }
    let mut part = p.iter_indices();
    for _ in 0..k { part.next(); }
    let folded = part.fold(vec![], |mut o, x| { o.push(flat(x)); o });
    if folded[..] != items[k.min(len)..] || p.iter_indices().last().map(flat) != items.last().cloned() {
        return Err(format!("[{what}] folding the items differs from walking them"));
    }
    let rest = it.count();
    let all = p.iter_indices().count();
    if rest + k.min(all) != all {
        return Err(format!("[{what}] an iteration interrupted after {k} items yields {rest} more, the whole is {all}"));
    }
    Ok(())
}

fn c21_views(ctx: &mut Ctx) -> Verdict {
    // any rings: views do not care about validity
    let k = ctx.rng.below(8);
    let mut v: Vec<Vec<[f64; 2]>> = (0..k).map(|_| { let n = match ctx.rng.below(6) { 0 | 1 => 0, 2 => ctx.rng.below(3), _ => ctx.rng.below(30) }; (0..n).map(|i| [i as f64, ctx.rng.range(0, 9) as f64]).collect() }).collect();
    if ctx.rng.chance(1, 40) {
        v.push((0..300).map(|i| [i as f64, 0.0]).collect());
    }
    match ctx.rng.below(4_000) {
        0 => v.push((0..65_530 + ctx.rng.below(20)).map(|i| [i as f64, 0.0]).collect()),
        1 => v.extend((0..65_530 + ctx.rng.below(20)).map(|i| vec![[i as f64, 0.0]; i % 3])),
        2..=9 => v.extend((0..250 + ctx.rng.below(10)).map(|i| vec![[i as f64, 0.0]; i % 4])),
        _ => {}
    }
    describe(if v.len() < 400 { format!("rings of {:?} vertices", v.iter().map(|r| r.len()).collect::<Vec<_>>()) } else { format!("{} rings", v.len()) });
    let ptrs = |v: &Vec<Vec<[f64; 2]>>| -> Vec<Vec<*const [f64; 2]>> { v.iter().filter(|r| !r.is_empty()).map(|r| r.iter().map(|x| x as *const _).collect()).collect() };
    let want = ptrs(&v);
    let at = |a: usize, b: usize| -> *const [f64; 2] { v.get(a).and_then(|r| r.get(b)).map_or(std::ptr::null(), |x| x as *const _) };
    seen("nested vectors", &v, &want, &|i: &[usize; 2]| (i[0], i[1]), &at)?;
    let s = &v[..];
    seen("slice of vectors", &s, &want, &|i: &[usize; 2]| (i[0], i[1]), &at)?;
    let q: Vec<&[[f64; 2]]> = v.iter().map(|r| &r[..]).collect();
    seen("vector of slices", &q, &want, &|i: &[usize; 2]| (i[0], i[1]), &at)?;
    let b: Box<[&[[f64; 2]]]> = q.clone().into();
    seen("box of slices", &b, &want, &|i: &[usize; 2]| (i[0], i[1]), &at)?;
    // substituted
    let w = s.index_with::<usize, u32>();
    seen("substituted", &w, &want, &|i: &[u32; 2]| (i[0] as usize, i[1] as usize), &at)?;
    let w = s.index_with::<usize, u64>().index_with::<u64, i32>();
    seen("substituted twice", &w, &want, &|i: &[i32; 2]| (i[0] as usize, i[1] as usize), &at)?;
    let w = s.index_with::<[usize; 2], Whole>();
    seen("substituted as a whole", &w, &want, &|i: &Whole| ((i.0 >> 32) as usize, i.0 as u32 as usize), &at)?;
    if v.len() < 256 && v.iter().all(|r| r.len() <= 256) {
        let w = s.index_with::<usize, u8>();
        seen("substituted by bytes", &w, &want, &|i: &[u8; 2]| (i[0] as usize, i[1] as usize), &at)?;
    }
    // custom lists behind a substitution: separators and empty rings survive
    let l = Seps { v: &v, pad: ctx.rng.below(4) };
    seen("custom list", &l, &want, &|i: &(usize, usize)| *i, &at)?;
    if v.len() <= 65_536 && v.iter().all(|r| r.len() <= 65_536) {
        let w = l.index_with::<usize, u16>();
        seen("substituted custom list", &w, &want, &|i: &(u16, u16)| (i.0 as usize, i.1 as usize), &at)?;
    }
    // single polygons
    if let Some(r) = v.iter().max_by_key(|r| r.len()) {
        let one: Vec<Vec<*const [f64; 2]>> = if r.is_empty() { vec![] } else { vec![r.iter().map(|x| x as *const _).collect()] };
        let at1 = |a: usize, b: usize| -> *const [f64; 2] { if a == 0 { r.get(b).map_or(std::ptr::null(), |x| x as *const _) } else { std::ptr::null() } };
        seen("polygon as list", r.as_polygon_list(), &one, &|i: &usize| (0, *i), &at1)?;
        let rs = &r[..];
        let w = Polygon::index_with::<u32>(rs);
        seen("polygon with substituted indices", &w, &one, &|i: &u32| (0, *i as usize), &at1)?;
        if Polygon::vertex_count(r) != r.len() || !Polygon::iter_indices(r).eq(0..r.len()) {
            return Err("[polygon] does not issue its positions".into());
        }
    }
    ctx.add("views compared", 12);
    ctx.add("executions", 1);
    ctx.sig(v.iter().fold(9, |h, r| mix(h, r.len() as u64)));
    Ok(())
}
/// the whole index as one number
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Whole(u64);
impl TryFrom<[usize; 2]> for Whole {
    type Error = ();
    fn try_from(i: [usize; 2]) -> Result<Whole, ()> { Ok(Whole((u32::try_from(i[0]).map_err(|_| ())? as u64) << 32 | u32::try_from(i[1]).map_err(|_| ())? as u64)) }
}
impl TryFrom<Whole> for [usize; 2] {
    type Error = ();
    fn try_from(w: Whole) -> Result<[usize; 2], ()> { Ok([(w.0 >> 32) as usize, w.0 as u32 as usize]) }
}
struct Seps<'a> {
    v: &'a Vec<Vec<[f64; 2]>>,
    pad: usize,
}
impl<'p, 'a: 'p> PolygonList<'p> for Seps<'a> {
    type Vertex = [f64; 2];
    type Index = (usize, usize);
    type IntoItem = Option<(usize, usize)>;
    type Iter<'i> = std::vec::IntoIter<Option<(usize, usize)>> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.v.iter().map(|r| r.len()).sum() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        let mut o = vec![None; self.pad / 2];
        for (k, r) in self.v.iter().enumerate() {
            o.extend((0..r.len()).map(|i| Some((k, i))));
            o.extend(std::iter::repeat(None).take(1 + self.pad));
        }
        o.into_iter()
    }
    fn get_vertex<'b>(&'b self, i: (usize, usize)) -> &'b [f64; 2] where 'p: 'b { &self.v[i.0][i.1] }
}

/// items of any accepted form turn into the element they stand for
fn c21_items(ctx: &mut Ctx) -> Verdict {
    let id = ctx.rng.next() as u32;
    let t = || Ident::make(id, 5);
    let tok = t();
    for (what, e) in [("plain", PolygonElement::from(tok.clone())), ("optional", PolygonElement::from(Some(tok.clone())))] {
        match e {
            PolygonElement::ContinuePolygon(i) if i == tok => {}
            e => return Err(format!("[{what}] {tok:?} became {e:?}")),
        }
    }
    if !matches!(PolygonElement::<Ident>::from(None), PolygonElement::NewPolygon) {
        return Err("[optional] None is not a separator".into());
    }
    // what the wrappers declare
    type L = Vec<Vec<[f64; 2]>>;
    type Wind<F> = <F as FanFormat<'static, L>>::Builder;
    use TriangleWinding::*;
    let w = [
        ("fan recorder", <Wind<Rec<'static, L, false>> as FanBuilder<'static, L>>::WINDING, Counterclockwise),
        ("clockwise recorder", <Wind<Rec<'static, L, true>> as FanBuilder<'static, L>>::WINDING, Clockwise),
        ("reversed recorder", <Wind<formats::ReverseFanFormat<'static, L, Rec<'static, L, false>>> as FanBuilder<'static, L>>::WINDING, Clockwise),
        ("reversed clockwise recorder", <Wind<formats::ReverseFanFormat<'static, L, Rec<'static, L, true>>> as FanBuilder<'static, L>>::WINDING, Counterclockwise),
        ("list", <Wind<formats::FanToListFormat<'static, L, RecList<'static, L, false>>> as FanBuilder<'static, L>>::WINDING, Counterclockwise),
        ("clockwise list", <Wind<formats::FanToListFormat<'static, L, RecList<'static, L, true>>> as FanBuilder<'static, L>>::WINDING, Clockwise),
    ];
    for (what, got, want) in w {
        if got != want {
            return Err(format!("[{what}] declares {got:?} instead of {want:?}"));
        }
    }
    ctx.add("items converted", 3);
    ctx.add("executions", 1);
    ctx.sig(mix(id as u64, 3));
    Ok(())
}

pub fn streams(prop: &str, _variant: &str) -> Vec<Stream> {
    match prop {
        #[cfg(feature = "p20")]
        "C20" => vec![
            stream("builder", c20_builder, 12_000, 300_000),
            stream("count", c20_count, 3_000, 50_000),
            stream("invalid", c20_invalid, 6_000, 200_000),
        ],
        #[cfg(feature = "p21")]
        "C21" => vec![
            stream("collections", c21_collections, 4_000, 100_000),
            stream("map", c21_map, 4_000, 60_000),
            stream("views", c21_views, 8_000, 200_000),
            stream("items", c21_items, 500, 5_000),
        ],
        _ => vec![],
    }
}
