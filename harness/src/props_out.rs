//! C08 format agreement, C09 append or roll back, C10 callback protocol, C11 delimited streams, C15 repeatability.
use crate::common::*;
use crate::coord::{self, Cf};
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::inputs::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use triangulate::{formats, FanBuilder, FanFormat, ListFormat, PolygonList, Trapezoidation, TriangleWinding, TriangulationError};

type L = Flat<Cf, u32, Tagged>;
fn list(polys: &[Vec<P>]) -> L {
    Flat::build(polys, 1, |x| Cf(x as f64))
}
fn trap<'p, P: PolygonList<'p>>(p: &'p P) -> Result<Trapezoidation<'p, P>, String> {
    match guard(|| p.trapezoidize()) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(format!("trapezoidation of valid input failed: {e}")),
        Err(m) => Err(format!("trapezoidation of valid input panicked: {m}")),
    }
}
fn outcome<T, E: std::error::Error>(r: Result<T, TriangulationError<E>>) -> Result<T, String> {
    r.map_err(|e| err_text(&e))
}

// --- C08 ---------------------------------------------------------------------------------------------------------
fn c08_formats(ctx: &mut Ctx) -> Verdict {
    let (fam, polys) = geometry(&mut ctx.rng, 300);
    describe(show(&polys));
    let reg = Region::new(&polys);
    let p = to_f64(&polys);
    let map = vertex_ids(&reg);
    let t = trap(&p)?;
    let src = Src::Trap(&t);
    let mut base: Option<Vec<T3>> = None;
    for fmt in FORMATS {
        let o = run_format(&src, fmt, [usize::MAX, 7], &nested_id(&reg), &nested_vid(&map)).map_err(|m| format!("[{fmt}] {m}"))?;
        let o = if is_cw(fmt) { flip(&o) } else { o };
        let c = canon(&o);
        ctx.add("formats compared", 1);
        ctx.add("triangles compared", c.len() as u64);
        match &base {
            None => {
                if c.len() != reg.full_count() {
                    return Err(format!("[{fmt}] {} triangles, a full triangulation has {}", c.len(), reg.full_count()));
                }
                ctx.sig(mix(hash_polys(&polys), hash_tris(&c)));
                base = Some(c)
            }
            Some(b) => {
                if *b != c {
                    let extra: Vec<_> = c.iter().filter(|t| b.binary_search(t).is_err()).take(4).collect();
                    let miss: Vec<_> = b.iter().filter(|t| c.binary_search(t).is_err()).take(4).collect();
                    return Err(format!("format {fmt} yields {} triangles, {} yields {} (only in the former: {extra:?}, only in the latter: {miss:?})", c.len(), FORMATS[0], b.len()));
                }
            }
        }
    }
    ctx.add(fam, 1);
    ctx.sample(|| format!("{fam}: {}", show(&polys)));
    Ok(())
}

/// the same with token indices and named vertices
fn c08_tokens(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 80);
    describe(show(&polys));
    let salt = ctx.seed;
    let l: Flat<f64, String, Optional> = Flat::build(&polys, salt, |x| x as f64);
    let t = trap(&l)?;
    let reg = Region::new(&polys);
    let map = vertex_ids(&reg);
    let n = reg.verts.len() as u32;
    let mut base: Option<Vec<T3>> = None;
    for fmt in FORMATS {
        let o = run_format(&Src::Trap(&t), fmt, "|".to_string(), &|i: &String| i.id(salt).filter(|i| *i < n), &nested_vid(&map)).map_err(|m| format!("[{fmt}] {m}"))?;
        let c = canon(&if is_cw(fmt) { flip(&o) } else { o });
        ctx.add("formats compared", 1);
        if *base.get_or_insert_with(|| c.clone()) != c {
            return Err(format!("format {fmt} yields other triangles than {}", FORMATS[0]));
        }
    }
    ctx.sig(mix(hash_polys(&polys), hash_tris(&base.unwrap())));
    Ok(())
}

// --- C09 ---------------------------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Layer {
    None,
    Outer,
    Inner,
}
#[derive(Clone, Copy, Debug)]
struct Spec {
    layer: Layer,
    at: Option<usize>,
    after: bool,
    build: bool,
    max: usize,
    two_step: bool,
}
const NOFAULT: Spec = Spec { layer: Layer::None, at: None, after: false, build: false, max: usize::MAX, two_step: false };

struct Done {
    /// Ok / error text
    res: Result<(), String>,
    /// panic message instead
    panic: Option<String>,
    fired: bool,
    calls: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    /// one value per element, three elements a triangle
    Flat,
    /// three values per element
    Tri,
    /// one fan per element
    Fan,
    /// one value per element, fans separated by the delimiter
    Delim,
}
pub const DELIM: u32 = 4_000_000_000;
type Snap = Vec<Vec<u64>>;
fn vkey(v: &[Cf; 2]) -> u64 {
    mix(mix(5, v[0].0.to_bits()), v[1].0.to_bits()) | 1 << 63
}
trait Val {
    fn key(&self) -> u64;
}
impl Val for u32 {
    fn key(&self) -> u64 { *self as u64 }
}
impl Val for [Cf; 2] {
    fn key(&self) -> u64 { vkey(self) }
}

fn suffix_tris(shape: Shape, suffix: &[Vec<u64>], had_prefix: bool, ids: &HashMap<u64, u32>) -> Result<Vec<T3>, String> {
    let id = |k: &u64| ids.get(k).copied().ok_or_else(|| format!("appended value {k:x} is not from the input"));
    let single = |v: &[Vec<u64>]| -> Result<Vec<u64>, String> { v.iter().map(|x| x.first().copied().ok_or_else(|| "empty".to_string())).collect() };
    match shape {
        Shape::Flat => {
            if suffix.len() % 3 != 0 {
                return Err(format!("{} values appended, not whole triangles", suffix.len()));
            }
            single(suffix)?.chunks(3).map(|c| Ok([id(&c[0])?, id(&c[1])?, id(&c[2])?])).collect()
        }
        Shape::Tri => suffix.iter().map(|c| Ok([id(&c[0])?, id(&c[1])?, id(&c[2])?])).collect(),
        Shape::Fan => {
            let mut o = vec![];
            for f in suffix {
                if f.len() < 3 {
                    return Err(format!("appended fan of {} values", f.len()));
                }
                o.extend(fan_tris(&f.iter().map(id).collect::<Result<Vec<u32>, _>>()?));
            }
            Ok(o)
        }
        Shape::Delim => {
            let mut v = single(suffix)?;
            if had_prefix {
                if v.first() != Some(&(DELIM as u64)) {
                    return Err("appended fans are not separated from the earlier content".into());
                }
                v.remove(0);
            }
            let mut o = vec![];
            for f in v.split(|x| *x == DELIM as u64) {
                if f.len() < 3 {
                    return Err(format!("appended fan of {} values", f.len()));
                }
                o.extend(fan_tris(&f.iter().map(id).collect::<Result<Vec<u32>, _>>()?));
            }
            Ok(o)
        }
    }
}

/// A borrowed collection of some built-in or user kind, behind a uniform face
struct Coll {
    name: &'static str,
    shape: Shape,
    cw: bool,
    list: bool,
    call: Box<dyn FnMut(&L, &Spec) -> Done>,
    snap: Box<dyn Fn() -> Snap>,
}

macro_rules! coll {
    ($v:ident, $name:expr, $shape:expr, $cw:expr, fan, $init:expr, |$c:ident: $ct:ty| $fmt:expr, |$s:ident| $snap:expr) => {{
        let cell = Rc::new(RefCell::new($init));
        let (c1, c2) = (cell.clone(), cell);
        $v.push(Coll {
            name: $name,
            shape: $shape,
            cw: $cw,
            list: false,
            call: Box::new(move |p: &L, sp: &Spec| {
                let mut b = c1.borrow_mut();
                let $c: &mut $ct = &mut *b;
                let fault = mkfault(sp);
                let r = guard(|| -> Result<(), String> {
                    let t = if sp.two_step { Some(p.trapezoidize().map_err(|e| format!("trapezoidize: {e}"))?) } else { None };
                    macro_rules! go { ($f:expr) => { match &t { Some(t) => outcome(t.triangulate($f)).map(|_| ()), None => outcome(p.triangulate($f)).map(|_| ()) } }; }
                    match (sp.layer, $cw) {
                        (Layer::None, false) => go!($fmt),
                        (Layer::None, true) => go!($fmt.reverse_winding()),
                        (Layer::Outer, false) | (Layer::Inner, false) => go!(FaultFan { inner: $fmt, fault: fault.clone(), after: sp.after }),
                        (Layer::Outer, true) => go!(FaultFan { inner: $fmt.reverse_winding(), fault: fault.clone(), after: sp.after }),
                        (Layer::Inner, true) => go!(FaultFan { inner: $fmt, fault: fault.clone(), after: sp.after }.reverse_winding()),
                    }
                });
                done(r, &fault)
            }),
            snap: Box::new(move || { let b = c2.borrow(); let $s = &*b; $snap }),
        });
    }};
    ($v:ident, $name:expr, $shape:expr, $cw:expr, list, $init:expr, |$c:ident: $ct:ty| $fmt:expr, |$s:ident| $snap:expr) => {{
        let cell = Rc::new(RefCell::new($init));
        let (c1, c2) = (cell.clone(), cell);
        $v.push(Coll {
            name: $name,
            shape: $shape,
            cw: $cw,
            list: true,
            call: Box::new(move |p: &L, sp: &Spec| {
                let mut b = c1.borrow_mut();
                let $c: &mut $ct = &mut *b;
                let fault = mkfault(sp);
                let r = guard(|| -> Result<(), String> {
                    let t = if sp.two_step { Some(p.trapezoidize().map_err(|e| format!("trapezoidize: {e}"))?) } else { None };
                    macro_rules! go { ($f:expr) => { match &t { Some(t) => outcome(t.triangulate($f)).map(|_| ()), None => outcome(p.triangulate($f)).map(|_| ()) } }; }
                    match (sp.layer, $cw) {
                        (Layer::None, false) => go!($fmt.into_fan_format()),
                        (Layer::None, true) => go!($fmt.into_fan_format().reverse_winding()),
                        (Layer::Outer, false) => go!(FaultFan { inner: $fmt.into_fan_format(), fault: fault.clone(), after: sp.after }),
                        (Layer::Outer, true) => go!(FaultFan { inner: $fmt.into_fan_format().reverse_winding(), fault: fault.clone(), after: sp.after }),
                        (Layer::Inner, false) => go!(FaultList { inner: $fmt, fault: fault.clone(), after: sp.after }.into_fan_format()),
                        (Layer::Inner, true) => go!(FaultList { inner: $fmt, fault: fault.clone(), after: sp.after }.into_fan_format().reverse_winding()),
                    }
                });
                done(r, &fault)
            }),
            snap: Box::new(move || { let b = c2.borrow(); let $s = &*b; $snap }),
        });
    }};
}
fn mkfault(sp: &Spec) -> Rc<Fault> {
    let f = Fault::new(sp.at, sp.build, 7);
    let Ok(mut f) = Rc::try_unwrap(f) else { unreachable!() };
    f.max = sp.max;
    Rc::new(f)
}
fn done(r: Result<Result<(), String>, String>, f: &Fault) -> Done {
    let (res, panic) = match r {
        Ok(r) => (r, None),
        Err(p) => (Err("panic".into()), Some(p)),
    };
    Done { res, panic, fired: f.fired.get(), calls: f.calls.get() }
}

fn ones<T: Val>(v: &[T]) -> Snap { v.iter().map(|x| vec![x.key()]).collect() }
fn arrs<T: Val>(v: &[[T; 3]]) -> Snap { v.iter().map(|x| x.iter().map(|y| y.key()).collect()).collect() }
fn tups<'a, T: Val + 'a>(v: impl Iterator<Item = &'a (T, T, T)>) -> Snap { v.map(|x| vec![x.0.key(), x.1.key(), x.2.key()]).collect() }
fn vecs<T: Val>(v: &[Vec<T>]) -> Snap { v.iter().map(|x| x.iter().map(|y| y.key()).collect()).collect() }

type Ilf<'p, C> = formats::IndexedListFormat<'p, L, C>;
type Dlf<'p, C> = formats::DeindexedListFormat<'p, L, C>;
type Iff<'p, C> = formats::IndexedFanFormat<'p, L, C>;
type Dff<'p, C> = formats::DeindexedFanFormat<'p, L, C>;
type Del<'p, C> = formats::DelimitedFanFormat<'p, L, C>;
type V = [Cf; 2];

/// Every borrowed collection kind, holding `k` earlier elements (foreign values, or values that look like the input's own)
fn collections(k: usize, rng: &mut Rng) -> Vec<Coll> {
    let mut v: Vec<Coll> = vec![];
    let mut i = || if rng.chance(1, 2) { 3_000_000_000 + rng.below(1000) as u32 } else { rng.below(6) as u32 };
    let mut x = { let mut c = 0.0; move || { c += 0.5; [Cf(1e9 + c), Cf(-c)] } };
    for cw in [false, true] {
        coll!(v, if cw { "rev flat indexed list" } else { "flat indexed list" }, Shape::Flat, cw, list, (0..3 * k).map(|_| i()).collect::<Vec<u32>>(), |c: Vec<u32>| Ilf::new(&mut *c), |s| ones(s));
        coll!(v, if cw { "rev array indexed list" } else { "array indexed list" }, Shape::Tri, cw, list, (0..k).map(|_| [i(), i(), i()]).collect::<Vec<[u32; 3]>>(), |c: Vec<[u32; 3]>| Ilf::new(&mut *c), |s| arrs(s));
        coll!(v, if cw { "rev tuple indexed list" } else { "tuple indexed list" }, Shape::Tri, cw, list, (0..k).map(|_| (i(), i(), i())).collect::<Vec<(u32, u32, u32)>>(), |c: Vec<(u32, u32, u32)>| Ilf::new(&mut *c), |s| tups(s.iter()));
        coll!(v, if cw { "rev flat deindexed list" } else { "flat deindexed list" }, Shape::Flat, cw, list, (0..3 * k).map(|_| x()).collect::<Vec<V>>(), |c: Vec<V>| Dlf::new(&mut *c), |s| ones(s));
        coll!(v, if cw { "rev array deindexed list" } else { "array deindexed list" }, Shape::Tri, cw, list, (0..k).map(|_| [x(), x(), x()]).collect::<Vec<[V; 3]>>(), |c: Vec<[V; 3]>| Dlf::new(&mut *c), |s| arrs(s));
        coll!(v, if cw { "rev tuple deindexed list" } else { "tuple deindexed list" }, Shape::Tri, cw, list, (0..k).map(|_| (x(), x(), x())).collect::<Vec<(V, V, V)>>(), |c: Vec<(V, V, V)>| Dlf::new(&mut *c), |s| tups(s.iter()));
        coll!(v, if cw { "rev indexed fans" } else { "indexed fans" }, Shape::Fan, cw, fan, (0..k).map(|j| (0..3 + j % 40).map(|_| i()).collect()).collect::<Vec<Vec<u32>>>(), |c: Vec<Vec<u32>>| Iff::new(&mut *c), |s| vecs(s));
        coll!(v, if cw { "rev deindexed fans" } else { "deindexed fans" }, Shape::Fan, cw, fan, (0..k).map(|j| (0..3 + j % 40).map(|_| x()).collect()).collect::<Vec<Vec<V>>>(), |c: Vec<Vec<V>>| Dff::new(&mut *c), |s| vecs(s));
        coll!(v, if cw { "rev delimited fans" } else { "delimited fans" }, Shape::Delim, cw, fan, (0..k).map(|_| i()).collect::<Vec<u32>>(), |c: Vec<u32>| Del::new(&mut *c, DELIM), |s| ones(s));
        coll!(v, if cw { "rev user list" } else { "user list" }, Shape::Tri, cw, list, MyList((0..k).map(|_| (i(), i(), i())).collect()), |c: MyList<u32>| Ilf::new(&mut *c), |s| tups(s.0.iter()));
        coll!(v, if cw { "rev user fans" } else { "user fans" }, Shape::Fan, cw, fan, MyFans((0..k).map(|_| Some(MyFan([i(), i(), i()].into_iter().collect()))).collect()), |c: MyFans<MyFan<u32>>| Iff::new(&mut *c), |s| s.0.iter().map(|f| f.as_ref().unwrap().0.iter().map(|x| x.key()).collect()).collect());
        coll!(v, if cw { "rev doubly borrowed list" } else { "doubly borrowed list" }, Shape::Tri, cw, list, (0..k).map(|_| [i(), i(), i()]).collect::<Vec<[u32; 3]>>(), |c: Vec<[u32; 3]>| Ilf::new(&mut &mut *c), |s| arrs(s));
    }
    v
}

fn idmap(l: &L) -> HashMap<u64, u32> {
    let mut m: HashMap<u64, u32> = (0..l.verts.len() as u32).map(|i| (i as u64, i)).collect();
    m.extend(l.verts.iter().enumerate().map(|(i, v)| (vkey(v), i as u32)));
    m
}

fn brief(s: &Snap) -> String {
    let t = format!("{s:?}");
    if t.len() > 700 { format!("{}... ({} elements)", &t[..700], s.len()) } else { t }
}

/// One call on a valid input; Ok(true): it succeeded
fn c09_valid(ctx: &mut Ctx, c: &mut Coll, l: &L, reg: &Region, ids: &HashMap<u64, u32>, sp: &Spec) -> Result<(bool, usize), String> {
    let before = (c.snap)();
    let d = (c.call)(l, sp);
    let after = (c.snap)();
    let what = format!("[{}] {sp:?}", c.name);
    if let Some(p) = &d.panic {
        return Err(format!("{what}: call on valid input panicked: {p}"));
    }
    ctx.add("calls", 1);
    match &d.res {
        Ok(()) => {
            if d.fired {
                return Err(format!("{what}: the builder reported an error but the call succeeded"));
            }
            if after.len() < before.len() || after[..before.len()] != before[..] {
                return Err(format!("{what}: earlier content changed\nbefore: {}\nafter:  {}", brief(&before), brief(&after)));
            }
            let t = suffix_tris(c.shape, &after[before.len()..], !before.is_empty(), ids).map_err(|m| format!("{what}: {m}\nbefore: {}\nafter:  {}", brief(&before), brief(&after)))?;
            let t = if c.cw { flip(&t) } else { t };
            check_all(reg, &t).map_err(|m| format!("{what}: the appended part is not the triangulation: {m}\nbefore: {}\nafter:  {}", brief(&before), brief(&after)))?;
            ctx.add("appends checked", 1);
            ctx.sig(mix(hash_tris(&t), before.len() as u64 * 64 + c.name.len() as u64));
        }
        Err(e) => {
            if !d.fired {
                return Err(format!("{what}: triangulation of valid input failed: {e}"));
            }
            if after != before {
                return Err(format!("{what}: failed with {e}, but the collection was not restored\nbefore: {}\nafter:  {}", brief(&before), brief(&after)));
            }
            ctx.add("rollbacks checked", 1);
            ctx.sig(mix(mix(hash_polys(&reg_polys(reg)), sp.at.unwrap_or(999) as u64), before.len() as u64 * 64 + c.name.len() as u64 + ((sp.after as u64) << 20) + ((sp.build as u64) << 21)));
        }
    }
    Ok((d.res.is_ok(), d.calls))
}
fn reg_polys(reg: &Region) -> Vec<Vec<P>> { vec![reg.verts.clone()] }

/// every callback position of a small triangulation, for every kind
fn c09_enumerate(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = 3 + ctx.rng.below(12);
    let polys = gen::generate(&mut ctx.rng, f, n);
    describe(show(&polys));
    let l = list(&polys);
    let reg = Region::new(&polys);
    let ids = idmap(&l);
    let k = ctx.rng.below(4);
    let mut cs = collections(k, &mut ctx.rng);
    // a few kinds per case, all positions for each
    ctx.rng.shuffle(&mut cs);
    for c in cs.iter_mut().take(6) {
        for layer in [Layer::Outer, Layer::Inner] {
            let two_step = ctx.rng.chance(1, 3);
            // the number of callbacks may differ from call to call (random insertion order), the loop ends once a position is never reached
            let mut missed = 0;
            for at in 0..10_000 {
                let after = at % 2 == ctx.idx as usize % 2;
                let (ok, _) = c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, at: Some(at), after, two_step, ..NOFAULT })?;
                let (_, _) = c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, at: Some(at), after: !after, two_step, ..NOFAULT })?;
                ctx.max("largest enumerated callback position", at as u64);
                if ok {
                    missed += 1;
                    if missed >= 2 {
                        break;
                    }
                }
            }
            c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, build: true, ..NOFAULT })?;
            c09_valid(ctx, c, &l, &reg, &ids, &NOFAULT)?;
        }
    }
    ctx.sample(|| show(&polys));
    Ok(())
}

/// long histories of successes and failures on one collection
fn c09_history(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 150);
    let l = list(&polys);
    let reg = Region::new(&polys);
    let ids = idmap(&l);
    let k = ctx.rng.below(5);
    let mut cs = collections(k, &mut ctx.rng);
    ctx.rng.shuffle(&mut cs);
    for c in cs.iter_mut().take(4) {
        let mut trace = String::new();
        for _ in 0..8 {
            let two_step = ctx.rng.chance(1, 2);
            describe(format!("{} history [{}]:{trace}", show(&polys), c.name));
            match ctx.rng.below(8) {
                0 | 1 => {
                    trace += " ok";
                    c09_valid(ctx, c, &l, &reg, &ids, &Spec { two_step, ..NOFAULT })?;
                }
                2 | 3 | 4 => {
                    let at = ctx.rng.below(reg.full_count() + 1);
                    let layer = if ctx.rng.chance(1, 2) { Layer::Outer } else { Layer::Inner };
                    let after = ctx.rng.chance(1, 2);
                    trace += &format!(" fault@{at}");
                    c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, at: Some(at), after, two_step, ..NOFAULT })?;
                }
                5 => {
                    trace += " failbuild";
                    c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer: Layer::Inner, build: true, two_step, ..NOFAULT })?;
                }
                6 => {
                    // rejected input
                    let bad = list(ctx.rng.pick(&[vec![], vec![vec![]], vec![vec![[0, 0]]], vec![polys[0].clone(), vec![[900_000, 0], [900_001, 7]]]]));
                    let before = (c.snap)();
                    let d = (c.call)(&bad, &Spec { two_step, ..NOFAULT });
                    if let Some(p) = d.panic {
                        return Err(format!("[{}] degenerate input panicked: {p}", c.name));
                    }
                    if d.res.is_ok() {
                        return Err(format!("[{}] degenerate input was accepted", c.name));
                    }
                    if (c.snap)() != before {
                        return Err(format!("[{}] the collection changed although the input was rejected", c.name));
                    }
                    trace += " rejected";
                    ctx.add("rollbacks checked", 1);
                }
                _ => {
                    let n = 4 + ctx.rng.below(30);
                    let g = gen::garbage(&mut ctx.rng, n);
                    let r = c09_garbage(ctx, c, &g, two_step)?;
                    trace += r;
                    if r == " unwound" {
                        break; // nothing is promised about the collection after a panic
                    }
                }
            }
        }
    }
    Ok(())
}

/// collections and triangulations whose lengths go beyond eight and sixteen bits
fn c09_long(ctx: &mut Ctx) -> Verdict {
    let long = ctx.idx % 3;
    let n = if long == 0 { 66_000 + ctx.rng.below(500) } else { 280 + ctx.rng.below(600) };
    let f = *ctx.rng.pick(&["comb", "mountain", "parab", "stairs", "zigzag"]);
    let polys = gen::big(&mut ctx.rng, f, n);
    let l = list(&polys);
    let reg = Region::new(&polys);
    let ids = idmap(&l);
    let k = match long {
        0 => ctx.rng.below(3),
        1 => *ctx.rng.pick(&[85, 86, 255, 256, 300]),
        // flat lists hold three values per triangle
        _ => *ctx.rng.pick(&[21_845, 21_846, 65_535, 65_536, 66_000]),
    };
    let mut cs = collections(k, &mut ctx.rng);
    ctx.rng.shuffle(&mut cs);
    for c in cs.iter_mut().take(if long == 1 { 4 } else { 2 }) {
        describe(format!("{f} of {n} vertices into [{}] holding {k}", c.name));
        let layer = if ctx.rng.chance(1, 2) { Layer::Outer } else { Layer::Inner };
        let two_step = ctx.rng.chance(1, 2);
        let after = ctx.rng.chance(1, 2);
        let at = if ctx.rng.chance(1, 2) { reg.full_count() - 1 - ctx.rng.below(20) } else { ctx.rng.below(reg.full_count()) };
        c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, at: Some(at), after, two_step, ..NOFAULT })?;
        c09_valid(ctx, c, &l, &reg, &ids, &Spec { layer, build: true, two_step, ..NOFAULT })?;
        if long != 0 {
            c09_valid(ctx, c, &l, &reg, &ids, &Spec { two_step, ..NOFAULT })?;
        }
    }
    ctx.max("longest earlier content", 3 * k as u64);
    ctx.max("max vertices", n as u64);
    Ok(())
}

fn c09_garbage(ctx: &mut Ctx, c: &mut Coll, g: &Polys, two_step: bool) -> Result<&'static str, String> {
    let bad = list(g);
    let before = (c.snap)();
    coord::reset(40_000 * (bad.verts.len() as u64 + 4));
    let d = (c.call)(&bad, &Spec { two_step, layer: Layer::Outer, max: 20 * bad.verts.len() + 20, ..NOFAULT });
    coord::reset(u64::MAX);
    let after = (c.snap)();
    if d.panic.is_some() {
        ctx.inconclusive = true;
        ctx.add("invalid inputs ending in a panic or exceeding the operation budget", 1);
        return Ok(" unwound");
    }
    match d.res {
        Ok(()) => {
            if after.len() < before.len() || after[..before.len()] != before[..] {
                return Err(format!("[{}] earlier content changed on invalid input {g:?}\nbefore: {}\nafter:  {}", c.name, brief(&before), brief(&after)));
            }
            ctx.add("invalid inputs accepted", 1);
            Ok(" garbage-ok")
        }
        Err(e) => {
            if after != before {
                return Err(format!("[{}] failed with {e} on invalid input {g:?}, but the collection was not restored\nbefore: {}\nafter:  {}", c.name, brief(&before), brief(&after)));
            }
            ctx.add("invalid inputs failing", 1);
            ctx.add(if d.calls > 0 { "failures after output had begun" } else { "failures before any output" }, 1);
            ctx.sig(mix(hash_polys(g), d.calls as u64 * 1024 + before.len() as u64));
            Ok(" garbage")
        }
    }
}

fn c09_invalid(ctx: &mut Ctx) -> Verdict {
    let k = ctx.rng.below(4);
    let mut cs = collections(k, &mut ctx.rng);
    let j = ctx.rng.below(cs.len());
    for _ in 0..4 {
        let n = 4 + ctx.rng.below(40);
        let g = gen::garbage(&mut ctx.rng, n);
        describe(show(&g));
        if c09_garbage(ctx, &mut cs[j], &g, ctx.idx % 2 == 0)? == " unwound" {
            break;
        }
    }
    Ok(())
}

/// owned collections come back with their earlier content in front; several polygon sets in one collection
fn c09_owned(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 80);
    let (_, other) = geometry(&mut ctx.rng, 40);
    let (ra, rb) = (Region::new(&polys), Region::new(&other));
    let (a, b) = (list(&polys), list(&other));
    describe(format!("{} and {}", show(&polys), show(&other)));
    let (ma, mb) = (idmap(&a), idmap(&b));
    macro_rules! twice {
        ($name:expr, $shape:expr, $empty:expr, $fmt:expr, $snap:expr) => {{
            let r1 = guard(|| a.triangulate($fmt($empty)));
            let c1 = flat_err(r1).map_err(|m| format!("[{}] {m}", $name))?;
            let s1: Snap = $snap(&c1);
            let t1 = suffix_tris($shape, &s1, false, &ma).map_err(|m| format!("[owned {}] {m}", $name))?;
            check_all(&ra, &t1).map_err(|m| format!("[owned {}] {m}", $name))?;
            let c2 = flat_err(guard(|| b.triangulate($fmt(c1)))).map_err(|m| format!("[{}] {m}", $name))?;
            let s2: Snap = $snap(&c2);
            if s2.len() < s1.len() || s2[..s1.len()] != s1[..] {
                return Err(format!("[owned {}] earlier content changed\nbefore: {}\nafter:  {}", $name, brief(&s1), brief(&s2)));
            }
            let t2 = suffix_tris($shape, &s2[s1.len()..], true, &mb).map_err(|m| format!("[owned {}] {m}", $name))?;
            check_all(&rb, &t2).map_err(|m| format!("[owned {}] appended part: {m}", $name))?;
            ctx.add("appends checked", 2);
            ctx.sig(mix(hash_tris(&t1), hash_tris(&t2)));
        }};
    }
    twice!("flat list", Shape::Flat, Vec::<u32>::new(), |c| Ilf::new(c).into_fan_format(), |c: &Vec<u32>| ones(c));
    twice!("array list", Shape::Tri, Vec::<[u32; 3]>::new(), |c| Ilf::new(c).into_fan_format(), |c: &Vec<[u32; 3]>| arrs(c));
    twice!("tuple list", Shape::Tri, Vec::<(u32, u32, u32)>::new(), |c| Ilf::new(c).into_fan_format(), |c: &Vec<(u32, u32, u32)>| tups(c.iter()));
    twice!("deindexed list", Shape::Tri, Vec::<[V; 3]>::new(), |c| Dlf::new(c).into_fan_format(), |c: &Vec<[V; 3]>| arrs(c));
    twice!("fans", Shape::Fan, Vec::<Vec<u32>>::new(), |c| Iff::new(c), |c: &Vec<Vec<u32>>| vecs(c));
    twice!("deindexed fans", Shape::Fan, Vec::<Vec<V>>::new(), |c| Dff::new(c), |c: &Vec<Vec<V>>| vecs(c));
    twice!("delimited fans", Shape::Delim, Vec::<u32>::new(), |c| Del::new(c, DELIM), |c: &Vec<u32>| ones(c));
    Ok(())
}

// --- C10 ---------------------------------------------------------------------------------------------------------
/// The trace specification of an output builder
fn protocol<I: std::fmt::Debug>(log: &[Ev<I>], res: &Result<(), String>, is_list: bool) -> Result<&'static str, String> {
    #[derive(PartialEq, Debug, Clone, Copy)]
    enum S {
        None,
        Initializing,
        Open,
        InitFailed,
        MustFail,
        Built,
        BuildFailed,
        Failed,
        Gone(bool), // dropped after build (true) / fail
    }
    let mut s = S::None;
    let mut expect: Option<String> = None;
    let mut shown: Option<String> = None;
    for (k, e) in log.iter().enumerate() {
        let bad = |why: &str| Err(format!("callback {k} ({e:?}): {why}"));
        s = match (s, e) {
            (S::None, Ev::Init(_)) if !is_list => S::Open,
            (S::None, Ev::ListInit) if is_list => S::Open,
            (S::None, _) => return bad("before the builder was created"),
            (S::Open, Ev::Init(_) | Ev::ListInit) => return bad("second builder created"),
            (S::Open, Ev::New(_) | Ev::Ext(_)) if !is_list => S::Open,
            (S::Open, Ev::Tri(_)) if is_list => S::Open,
            (S::Open, Ev::Erred(id)) => {
                expect = Some(format!("FanBuilder(injected error {id})"));
                if k == 1 { S::InitFailed } else { S::MustFail }
            }
            (S::Open, Ev::Build) => S::Built,
            (S::Built, Ev::Erred(id)) => {
                expect = Some(format!("FanBuilder(injected error {id})"));
                S::BuildFailed
            }
            (S::Open | S::MustFail, Ev::Fail(t)) => {
                shown = Some(t.clone());
                S::Failed
            }
            (S::Built, Ev::Drop) => S::Gone(true),
            (S::BuildFailed | S::Failed, Ev::Drop) => S::Gone(false),
            (S::Open, Ev::Drop) => return bad("the builder was dropped without build or fail"),
            (S::MustFail, Ev::Drop) => return bad("the builder was dropped without fail after a callback error"),
            (S::MustFail, _) => return bad("callback after an error was returned"),
            (S::InitFailed, _) => return bad("activity after the creation of the builder had failed"),
            (S::Gone(_), _) => return bad("activity after the final call"),
            _ => return bad(&format!("unexpected in state {s:?}")),
        };
    }
    if let (Some(x), Some(f)) = (&expect, &shown) {
        if x != f {
            return Err(format!("the callback returned {x} but fail was shown {f}"));
        }
    }
    match (s, res) {
        (S::None, Ok(())) => Err("success without ever creating the builder".into()),
        (S::None, Err(_)) => Ok("no builder"),
        (S::Gone(true), Ok(())) => Ok("built"),
        (S::Gone(true), Err(e)) => Err(format!("build succeeded, but the call returned {e}")),
        (S::InitFailed | S::Gone(false), Ok(())) => Err("the call succeeded although the builder had failed".into()),
        (S::InitFailed | S::Gone(false), Err(e)) => {
            let want = expect.or(shown.clone()).unwrap();
            if *e != want {
                return Err(format!("the caller got {e}, the error was {want}"));
            }
            Ok(if s == S::InitFailed { "initialization error" } else if shown.is_some() { "failed" } else { "build error" })
        }
        (S::Initializing | S::Open | S::MustFail | S::Built | S::BuildFailed | S::Failed, _) => Err(format!("the trace ends in state {s:?}")),
    }
}

const BUILDERS: usize = 8;
/// (log, result or panic) of one run with builder variant `b`
fn record<'p, P: PolygonList<'p>>(src: &Src<'_, 'p, P>, b: usize, plan: &Plan) -> (Vec<Ev<P::Index>>, Result<Result<(), String>, String>)
where
    P::Index: Clone,
{
    let lg: Log<P::Index> = log();
    macro_rules! go {
        ($f:expr) => {
            guard(|| {
                outcome(match src {
                    Src::Direct(p) => p.triangulate($f),
                    Src::Trap(t) => t.triangulate($f),
                })
            })
        };
    }
    let pl = plan.clone();
    let r = match b {
        0 => go!(Rec::<P, false>::new(&lg, pl)),
        1 => go!(Rec::<P, true>::new(&lg, pl)),
        2 => go!(Rec::<P, false>::new(&lg, pl).reverse_winding()),
        3 => go!(Rec::<P, true>::new(&lg, pl).reverse_winding().reverse_winding()),
        4 => go!(RecList::<P, false>::new(&lg, pl).into_fan_format()),
        5 => go!(RecList::<P, true>::new(&lg, pl).into_fan_format()),
        6 => go!(RecList::<P, false>::new(&lg, pl).into_fan_format().reverse_winding()),
        _ => go!(RecList::<P, true>::new(&lg, pl).into_fan_format().reverse_winding()),
    };
    let l = lg.borrow().clone();
    (l, r)
}
fn builder_cw(b: usize) -> bool { matches!(b, 1 | 2 | 3 | 5 | 6) }
const BUILDER: [&str; BUILDERS] = ["fan", "clockwise fan", "reversed fan", "clockwise fan reversed twice", "list", "clockwise list", "reversed list", "clockwise list reversed"];

fn c10_judge<'p, P: PolygonList<'p>>(ctx: &mut Ctx, src: &Src<'_, 'p, P>, b: usize, plan: &Plan, reg: &Region, id: &dyn Fn(&P::Index) -> Option<u32>) -> Result<bool, String>
where
    P::Index: Clone + std::fmt::Debug,
{
    let (lg, r) = record(src, b, plan);
    let what = format!("[{} builder, error at {:?}{}]", BUILDER[b], plan.fail_at, if plan.fail_build { ", build fails" } else { "" });
    let tr = |m: String| {
        let k = lg.len();
        format!("{what} {m}\ntrace ({k} events): {:?}", lg.iter().map(|e| e.kind()).skip(k.saturating_sub(40)).collect::<Vec<_>>())
    };
    let r = r.map_err(|p| format!("{what} call on valid input panicked: {p}"))?;
    let how = protocol(&lg, &r, b >= 4).map_err(tr)?;
    ctx.add("traces checked", 1);
    ctx.add("callbacks observed", lg.len() as u64);
    ctx.add(match how { "built" => "traces: build", "failed" => "traces: fail", "initialization error" => "traces: failing creation", "build error" => "traces: failing build", _ => "traces: no builder" }, 1);
    ctx.sig(lg.iter().fold(mix(b as u64, how.len() as u64), |h, e| mix(h, e.kind().as_bytes()[0] as u64 * 4 + e.kind().len() as u64)));
    let erred = lg.iter().any(|e| matches!(e, Ev::Erred(_)));
    if !erred {
        if let Err(e) = &r {
            return Err(tr(format!("triangulation of valid input failed: {e}")));
        }
        let t: Vec<T3> = decode(&lg)?.iter().map(|t| Some([id(&t[0])?, id(&t[1])?, id(&t[2])?])).collect::<Option<_>>().ok_or_else(|| tr("an index does not address an input vertex".into()))?;
        let t = if builder_cw(b) { flip(&t) } else { t };
        check_all(reg, &t).map_err(|m| tr(format!("build was called, but the triangulation is not complete: {m}")))?;
    }
    Ok(r.is_ok())
}

fn c10_enumerate(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = 3 + ctx.rng.below(14);
    let polys = gen::generate(&mut ctx.rng, f, n);
    describe(show(&polys));
    let reg = Region::new(&polys);
    let p = to_f64(&polys);
    let id = nested_id(&reg);
    let t = trap(&p)?;
    for b in 0..BUILDERS {
        let src = if (b + ctx.idx as usize) % 2 == 0 { Src::Trap(&t) } else { Src::Direct(&p) };
        let mut missed = 0;
        for at in 0..10_000usize {
            let plan = Plan { fail_at: Some(at), err_id: mix(ctx.seed, at as u64) >> 1, ..Plan::default() };
            if c10_judge(ctx, &src, b, &plan, &reg, &id)? {
                missed += 1;
                if missed >= 2 {
                    break;
                }
            }
            ctx.max("largest enumerated callback position", at as u64);
        }
        c10_judge(ctx, &src, b, &Plan { fail_build: true, ..Plan::default() }, &reg, &id)?;
        c10_judge(ctx, &src, b, &Plan::default(), &reg, &id)?;
    }
    ctx.sample(|| show(&polys));
    Ok(())
}

fn c10_random(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 400);
    describe(show(&polys));
    let reg = Region::new(&polys);
    let salt = ctx.seed;
    let l: Flat<f64, Sparse, Optional> = Flat::build(&polys, salt, |x| x as f64).add_separators(&mut ctx.rng);
    let t = trap(&l)?;
    for _ in 0..8 {
        let b = ctx.rng.below(BUILDERS);
        let src = if ctx.rng.chance(1, 2) { Src::Trap(&t) } else { Src::Direct(&l) };
        let plan = match ctx.rng.below(6) {
            0 => Plan::default(),
            1 => Plan { fail_build: true, err_id: ctx.rng.next() >> 1, ..Plan::default() },
            2 => Plan { fail_at: Some(ctx.rng.below(3)), err_id: ctx.rng.next() >> 1, ..Plan::default() },
            3 => Plan { fail_at: Some(reg.full_count() - ctx.rng.below(2)), err_id: ctx.rng.next() >> 1, ..Plan::default() },
            _ => Plan { fail_at: Some(ctx.rng.below(reg.full_count() + 1)), err_id: ctx.rng.next() >> 1, ..Plan::default() },
        };
        c10_judge(ctx, &src, b, &plan, &reg, &|i: &Sparse| i.id(salt))?;
    }
    Ok(())
}

/// invalid and degenerate inputs: internal errors, at whatever moment they arise, obey the protocol too
fn c10_invalid(ctx: &mut Ctx) -> Verdict {
    let n = 3 + ctx.rng.below(40);
    let g = match ctx.rng.below(8) {
        0 => vec![],
        1 => vec![vec![], vec![[1, 2]]],
        _ => gen::garbage(&mut ctx.rng, n),
    };
    describe(show(&g));
    let l: Flat<Cf, CIdx, Tagged> = Flat::build(&g, 1, |x| Cf(x as f64));
    let nv = l.verts.len();
    for _ in 0..4 {
        let b = ctx.rng.below(BUILDERS);
        let plan = Plan { fail_at: if ctx.rng.chance(1, 3) { Some(ctx.rng.below(nv + 1)) } else { None }, fail_build: ctx.rng.chance(1, 4), max: 20 * nv + 20, ..Plan::default() };
        coord::reset(40_000 * (nv as u64 + 4));
        let (lg, r) = record(&Src::Direct(&l), b, &plan);
        coord::reset(u64::MAX);
        let Ok(r) = r else {
            ctx.inconclusive = true;
            ctx.add("invalid inputs ending in a panic or exceeding the operation budget", 1);
            continue;
        };
        let how = protocol(&lg, &r, b >= 4).map_err(|m| format!("[{} builder, error at {:?}] {m}\ntrace: {:?}\nresult: {r:?}", BUILDER[b], plan.fail_at, lg.iter().map(|e| e.kind()).collect::<Vec<_>>()))?;
        ctx.add("traces checked", 1);
        ctx.add("callbacks observed", lg.len() as u64);
        ctx.add(match how { "built" => "invalid input: build", "failed" => "invalid input: fail", "initialization error" => "invalid input: failing creation", "build error" => "invalid input: failing build", _ => "invalid input: no builder" }, 1);
        ctx.sig(lg.iter().fold(mix(b as u64, how.len() as u64), |h, e| mix(h, e.kind().as_bytes()[0] as u64 * 4 + e.kind().len() as u64)));
    }
    Ok(())
}

// --- C11 ---------------------------------------------------------------------------------------------------------
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

fn c11_decode(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 200);
    describe(show(&polys));
    let l = list(&polys);
    let nv = l.verts.len() as u32;
    let t = trap(&l)?;
    for rev in [false, true] {
        let fans: Vec<Vec<u32>> = flat_err(guard(|| if rev { t.triangulate(Iff::new(vec![]).reverse_winding()) } else { t.triangulate(Iff::new(vec![])) }))?;
        let want = sorted(fans.clone());
        let delim = *ctx.rng.pick(&[DELIM, u32::MAX, nv, nv + 1]);
        let k = if ctx.rng.chance(1, 100) { *ctx.rng.pick(&[255, 256, 257, 65_535, 65_536, 66_000]) } else { ctx.rng.below(4) * ctx.rng.below(3) };
        let pre: Vec<u32> = (0..k).map(|j| if ctx.rng.chance(1, 2) { 3_000_000_000 + j as u32 } else { ctx.rng.below(nv as usize) as u32 }).collect();
        for how in 0..3 {
            let mut c = pre.clone();
            let mut u = MyFans(pre.iter().map(|x| Some(*x)).collect::<Vec<_>>());
            let out: Vec<u32> = match how {
                0 => flat_err(guard(|| if rev { t.triangulate(Del::new(c, delim).reverse_winding()) } else { t.triangulate(Del::new(c, delim)) }))?,
                1 => {
                    flat_err(guard(|| if rev { t.triangulate(Del::new(&mut c, delim).reverse_winding()) } else { t.triangulate(Del::new(&mut c, delim)) }.map(|_| ())))?;
                    c
                }
                _ => {
                    flat_err(guard(|| if rev { t.triangulate(Del::new(&mut u, delim).reverse_winding()) } else { t.triangulate(Del::new(&mut u, delim)) }.map(|_| ())))?;
                    u.0.into_iter().map(|x| x.unwrap()).collect()
                }
            };
            let what = format!("[{}{}, {k} earlier values]", if rev { "reversed, " } else { "" }, ["owned", "borrowed", "user collection"][how]);
            if out.len() < k || out[..k] != pre[..] {
                return Err(format!("{what} earlier content changed: {pre:?} -> {out:?}"));
            }
            let mut tail = &out[k..];
            if k > 0 {
                if tail.first() != Some(&delim) {
                    return Err(format!("{what} no delimiter after the earlier content: {out:?}"));
                }
                tail = &tail[1..];
            }
            let parts: Vec<Vec<u32>> = tail.split(|x| *x == delim).map(|s| s.to_vec()).collect();
            if parts.iter().any(|p| p.is_empty()) {
                return Err(format!("{what} leading, trailing or doubled delimiter: {out:?}"));
            }
            if sorted(parts.clone()) != want {
                return Err(format!("{what} decodes to {parts:?}, the fans are {fans:?}"));
            }
            ctx.add("streams decoded", 1);
            ctx.add("fans compared", parts.len() as u64);
            ctx.max("longest fan", parts.iter().map(|p| p.len() as u64).max().unwrap_or(0));
            ctx.sig(parts.iter().fold(mix(k as u64, rev as u64), |h, p| p.iter().fold(mix(h, 77), |h, x| mix(h, *x as u64))));
        }
    }
    ctx.sample(|| show(&polys));
    Ok(())
}

/// several sets appended one after another to one stream
fn c11_chain(ctx: &mut Ctx) -> Verdict {
    let mut c: Vec<String> = vec![];
    let mut want: Vec<Vec<String>> = vec![];
    let delim = "|".to_string();
    let m = 2 + ctx.rng.below(4);
    let mut d = String::new();
    for j in 0..m {
        let (_, polys) = geometry(&mut ctx.rng, 30);
        d += &format!(" + {}", show(&polys));
        describe(d.clone());
        let l: Flat<f64, String, Tagged> = Flat::build(&polys, mix(ctx.seed, j as u64), |x| x as f64);
        let t = trap(&l)?;
        let fans: Vec<Vec<String>> = flat_err(guard(|| t.triangulate(formats::IndexedFanFormat::new(vec![]))))?;
        let keep = c.clone();
        if ctx.rng.chance(1, 3) {
            // refused in between: nothing may remain
            let v = l.tokens[ctx.rng.below(l.tokens.len())].clone();
            let r = guard(|| t.triangulate(formats::DelimitedFanFormat::new(&mut c, v)).map(|_| ()));
            if !matches!(r, Ok(Err(TriangulationError::FanBuilder(_)))) {
                return Err("a colliding delimiter was not refused with a builder error".into());
            }
            if c != keep {
                return Err(format!("stream changed by a refused call: {keep:?} -> {c:?}"));
            }
        }
        flat_err(guard(|| t.triangulate(formats::DelimitedFanFormat::new(&mut c, delim.clone())).map(|_| ())))?;
        want.extend(sorted(fans));
        // compare set by set: everything before this call is fixed
        let parts: Vec<Vec<String>> = c.split(|x| *x == delim).map(|s| s.to_vec()).collect();
        if c.len() < keep.len() || c[..keep.len()] != keep[..] {
            return Err("earlier content of the stream changed".into());
        }
        let old = if keep.is_empty() { 0 } else { keep.split(|x| *x == delim).count() };
        if sorted(parts[old.min(parts.len())..].to_vec()) != want[old..].to_vec() || parts.len() != want.len() {
            return Err(format!("stream of {} sets decodes to {parts:?}", j + 1));
        }
        ctx.add("streams decoded", 1);
        ctx.add("fans compared", parts.len() as u64);
    }
    ctx.sig(mix(ctx.seed, c.len() as u64));
    Ok(())
}

/// every vertex index as delimiter
fn c11_collide(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 40);
    describe(show(&polys));
    let l = list(&polys);
    let nv = l.verts.len() as u32;
    let t = trap(&l)?;
    let k = if ctx.rng.chance(1, 100) { *ctx.rng.pick(&[255, 256, 257, 65_535, 65_536]) } else { ctx.rng.below(3) * ctx.rng.below(5) };
    let pre: Vec<u32> = (0..k).map(|_| 3_000_000_000 + ctx.rng.below(9) as u32).collect();
    // of large sets, a sample
    let tried: Vec<u32> = if nv < 200 { (0..nv).collect() } else { (0..if nv < 5_000 { 24 } else { 5 }).map(|j| match j { 0 => 0, 1 => nv - 1, _ => ctx.rng.below(nv as usize) as u32 }).collect() };
    for i in tried {
        for how in 0..4 {
            let mut c = pre.clone();
            let c0 = pre.clone();
            let r = match how {
                0 => guard(|| t.triangulate(Del::new(&mut c, i)).map(|_| ())),
                1 => guard(|| l.triangulate(Del::new(&mut c, i)).map(|_| ())),
                2 => guard(|| t.triangulate(Del::new(&mut c, i).reverse_winding()).map(|_| ())),
                _ => guard(|| t.triangulate(Del::new(c0, i)).map(|_| ())),
            };
            let what = format!("[delimiter = index {i}, {}, {k} earlier values]", ["borrowed", "one-step", "reversed", "owned"][how]);
            match r {
                Err(p) => return Err(format!("{what} panicked: {p}")),
                Ok(Ok(())) => return Err(format!("{what} accepted: {c:?}")),
                Ok(Err(TriangulationError::FanBuilder(_))) => {}
                Ok(Err(e)) => return Err(format!("{what} refused with {}", err_text(&e))),
            }
            if c != pre {
                return Err(format!("{what} refused, but the collection changed from {pre:?} to {c:?}"));
            }
            ctx.add("collisions refused", 1);
        }
        ctx.sig(mix(hash_polys(&polys), i as u64));
    }
    Ok(())
}

// --- C15 ---------------------------------------------------------------------------------------------------------
/// fan format whose callbacks triangulate the same trapezoidation again
struct Reent<'t, 'p, F: Fn()> {
    inner: Rec<'p, L, false>,
    at: usize,
    f: &'t F,
}
struct ReentB<'t, 'p, F: Fn()> {
    inner: RecB<'p, L, false>,
    left: usize,
    f: &'t F,
}
impl<'t, 'p, F: Fn()> FanFormat<'p, L> for Reent<'t, 'p, F> {
    type Builder = ReentB<'t, 'p, F>;
    fn initialize(self, p: &'p L, a: u32, b: u32, c: u32) -> Result<Self::Builder, Inj> {
        let mut r = ReentB { inner: self.inner.initialize(p, a, b, c)?, left: self.at, f: self.f };
        r.tick();
        Ok(r)
    }
}
impl<'t, 'p, F: Fn()> ReentB<'t, 'p, F> {
    fn tick(&mut self) {
        if self.left == 0 {
            (self.f)();
            self.left = usize::MAX;
        } else if self.left != usize::MAX {
            self.left -= 1;
        }
    }
}
impl<'t, 'p, F: Fn()> FanBuilder<'p, L> for ReentB<'t, 'p, F> {
    type Output = ();
    type Error = Inj;
    const WINDING: TriangleWinding = TriangleWinding::Counterclockwise;
    fn new_fan(&mut self, a: u32, b: u32, c: u32) -> Result<(), Inj> {
        self.tick();
        self.inner.new_fan(a, b, c)
    }
    fn extend_fan(&mut self, a: u32) -> Result<(), Inj> {
        self.tick();
        self.inner.extend_fan(a)
    }
    fn build(mut self) -> Result<(), Inj> {
        self.tick();
        self.inner.build()
    }
    fn fail(self, e: &TriangulationError<Inj>) {
        self.inner.fail(e)
    }
}

fn c15_repeat(ctx: &mut Ctx) -> Verdict {
    let big = if ctx.idx % 8 == 0 { 400 } else { 60 };
    let (_, polys) = geometry(&mut ctx.rng, big);
    let (_, other) = geometry(&mut ctx.rng, 40);
    describe(show(&polys));
    let (l, o) = (list(&polys), list(&other));
    let reg = Region::new(&polys);
    let (t, to) = (trap(&l)?, trap(&o)?);
    let n = l.verts.len() as u32;
    let map: HashMap<u64, u32> = l.verts.iter().enumerate().map(|(i, v)| (vkey(v), i as u32)).collect();
    let id = move |i: &u32| (*i < n).then_some(*i);
    let vid = |v: &V| map.get(&vkey(v)).copied();
    let run = |fmt: &str| run_format(&Src::Trap(&t), fmt, DELIM, &id, &vid).map_err(|m| format!("[{fmt}] {m}"));
    let mut base: HashMap<&str, Vec<T3>> = HashMap::new();
    let mut history = String::new();
    let fmts: Vec<&str> = { let mut f = FORMATS.to_vec(); ctx.rng.shuffle(&mut f); f.truncate(6); f };
    let mut ops = 0u64;
    for _ in 0..14 {
        let fmt = *ctx.rng.pick(&fmts);
        match ctx.rng.below(9) {
            0..=2 => {}
            3 => {
                // failing builder
                let at = ctx.rng.below(reg.full_count() + 1);
                let b = ctx.rng.below(BUILDERS);
                history += &format!(" error@{at}");
                let (_, r) = record(&Src::Trap(&t), b, &Plan { fail_at: Some(at), ..Plan::default() });
                r.map_err(|p| format!("panicked: {p}"))?.err();
            }
            4 => {
                // panicking builder
                let at = ctx.rng.below(reg.full_count() + 1);
                let b = ctx.rng.below(BUILDERS);
                history += &format!(" panic@{at}");
                let _ = record(&Src::Trap(&t), b, &Plan { panic_at: Some(at), ..Plan::default() });
            }
            5 => {
                // a coordinate operation panics
                let at = ctx.rng.below(60 * n as usize) as u64;
                history += &format!(" bomb@{at}");
                coord::BOMB.with(|b| b.set(at));
                let _ = record(&Src::Trap(&t), 0, &Plan::default());
                coord::reset(u64::MAX);
            }
            6 => {
                history += " other";
                let _ = run_format(&Src::Trap(&to), "list-array", DELIM, &|i: &u32| Some(*i), &|_: &V| Some(0)).map_err(|m| format!("[other trapezoidation] {m}"))?;
            }
            7 => {
                // re-entrant: triangulate the same trapezoidation from within a callback
                let at = ctx.rng.below(reg.full_count() + 2);
                history += &format!(" reentrant@{at}");
                let inner: RefCell<Option<Result<Vec<T3>, String>>> = RefCell::new(None);
                let f = || *inner.borrow_mut() = Some(run(fmt));
                let lg = log();
                flat_err(guard(|| t.triangulate(Reent { inner: Rec::new(&lg, Plan::default()), at, f: &f })))?;
                let outer: Vec<T3> = decode(&lg.borrow())?;
                compare(&mut base, "rec-fan", outer, "re-entrantly interrupted", &history)?;
                if let Some(i) = inner.into_inner() {
                    compare(&mut base, fmt, i?, "re-entrant", &history)?;
                    ctx.add("re-entrant runs", 1);
                }
            }
            _ => {
                // interleave with building another trapezoidation of the same list
                history += " rebuild";
                let t2 = trap(&l)?;
                drop(t2);
            }
        }
        history += &format!(" {fmt}");
        let got = run(fmt).map_err(|m| format!("{m} (after:{history})"))?;
        compare(&mut base, fmt, got, "repeated", &history)?;
        ops += 1;
    }
    for (fmt, t) in &base {
        let t = if is_cw(fmt) { flip(t) } else { t.clone() };
        check_all(&reg, &t).map_err(|m| format!("[two-step, {fmt}] {m}"))?;
        ctx.sig(mix(hash_polys(&polys), hash_tris(&t)));
    }
    ctx.add("repeated triangulations compared", ops);
    ctx.add("distinct formats per trapezoidation", base.len() as u64);
    ctx.sig(history.bytes().fold(9, |h, b| mix(h, b as u64)));
    ctx.sample(|| format!("history:{history}"));
    Ok(())
}
/// one small trapezoidation, tens of thousands of times
fn c15_many(ctx: &mut Ctx) -> Verdict {
    let polys = loop {
        let f = *ctx.rng.pick(gen::FAMILIES);
        let n = 4 + ctx.rng.below(8);
        let p = gen::generate(&mut ctx.rng, f, n);
        if p.iter().map(|r| r.len()).sum::<usize>() <= 24 {
            break p;
        }
    };
    describe(show(&polys));
    let reg = Region::new(&polys);
    let l = list(&polys);
    let t = trap(&l)?;
    let n = l.verts.len() as u32;
    let map: HashMap<u64, u32> = l.verts.iter().enumerate().map(|(i, v)| (vkey(v), i as u32)).collect();
    let id = move |i: &u32| (*i < n).then_some(*i);
    let vid = |v: &V| map.get(&vkey(v)).copied();
    let mut base: HashMap<&str, Vec<T3>> = HashMap::new();
    let rounds = 66_000 + ctx.rng.below(4_000);
    for k in 0..rounds {
        let fmt = if k % 4 == 0 { *ctx.rng.pick(FORMATS) } else { "list-array" };
        let got = run_format(&Src::Trap(&t), fmt, DELIM, &id, &vid).map_err(|m| format!("[{fmt}, run {k}] {m}"))?;
        compare(&mut base, fmt, got, "repeated", &format!(" {k} runs"))?;
    }
    for (fmt, t) in &base {
        let t = if is_cw(fmt) { flip(t) } else { t.clone() };
        check_all(&reg, &t).map_err(|m| format!("[two-step, {fmt}] {m}"))?;
        ctx.sig(mix(hash_polys(&polys), hash_tris(&t)));
    }
    ctx.add("repeated triangulations compared", rounds as u64);
    ctx.max("longest history of one trapezoidation", rounds as u64);
    Ok(())
}
fn compare<'a>(base: &mut HashMap<&'a str, Vec<T3>>, fmt: &'a str, got: Vec<T3>, how: &str, history: &str) -> Verdict {
    match base.get(fmt) {
        None => {
            base.insert(fmt, got);
            Ok(())
        }
        Some(b) if *b == got => Ok(()),
        Some(b) => {
            let k = b.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(b.len().min(got.len()));
            Err(format!("[{fmt}] {how} triangulation of one trapezoidation differs from the first at triangle {k}: {:?} then {:?} ({} and {} triangles); history:{history}", b.get(k), got.get(k), b.len(), got.len()))
        }
    }
}

pub fn streams(prop: &str, _variant: &str) -> Vec<Stream> {
    match prop {
        #[cfg(feature = "p08")]
        "C08" => vec![stream("formats", c08_formats, 6_000, 150_000), stream("tokens", c08_tokens, 1_500, 40_000), stream("long", |c| long(c, c08_formats), 3, 150).cpu(60)],
        #[cfg(feature = "p09")]
        "C09" => vec![
            stream("enumerate", c09_enumerate, 1_200, 40_000),
            stream("history", c09_history, 3_000, 100_000),
            stream("invalid", c09_invalid, 6_000, 200_000).may_hang(),
            stream("owned", c09_owned, 1_500, 40_000),
            stream("refused", c11_collide, 1_500, 40_000),
            stream("deep", |c| deep(c, c09_history), 10, 600).cpu(60).stack(192 << 10),
            stream("long", c09_long, 60, 2_000),
        ],
        #[cfg(feature = "p10")]
        "C10" => vec![
            stream("enumerate", c10_enumerate, 2_000, 60_000),
            stream("random", c10_random, 4_000, 120_000),
            stream("long", |c| long(c, c10_random), 8, 400).cpu(60),
            stream("deep", |c| deep(c, c10_random), 20, 1_000).cpu(60).stack(192 << 10),
            stream("invalid", c10_invalid, 10_000, 300_000).may_hang(),
        ],
        #[cfg(feature = "p11")]
        "C11" => vec![
            stream("decode", c11_decode, 8_000, 250_000),
            stream("long", |c| long(c, c11_decode), 4, 200).cpu(60),
            stream("chain", c11_chain, 2_000, 60_000),
            stream("collide", c11_collide, 3_000, 80_000),
            stream("longcollide", |c| long(c, c11_collide), 2, 150).cpu(60),
            stream("deep", |c| deep(c, c11_collide), 4, 300).cpu(60).stack(192 << 10),
        ],
        #[cfg(feature = "p15")]
        "C15" => vec![stream("repeat", c15_repeat, 6_000, 200_000), stream("many", c15_many, 3, 120).cpu(120), stream("long", |c| long(c, c15_repeat), 2, 150).cpu(60), stream("deep", |c| deep(c, c15_repeat), 4, 300).cpu(60).stack(192 << 10)],
        _ => vec![],
    }
}
