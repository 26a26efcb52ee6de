//! Helpers shared by the property monitors.
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use std::collections::HashMap;
use triangulate::{formats, FanFormat, ListFormat, PolygonList, Trapezoidation};

pub type T3 = [u32; 3];

pub fn hash_polys(p: &[Vec<P>]) -> u64 {
    let mut h = 0x51;
    for r in p {
        h = mix(h, r.len() as u64);
        for v in r {
            h = mix(mix(h, v[0] as u64), v[1] as u64);
        }
    }
    h
}
pub fn hash_tris(t: &[T3]) -> u64 {
    t.iter().fold(0x33, |h, t| mix(mix(mix(h, t[0] as u64), t[1] as u64), t[2] as u64))
}

pub fn show(p: &[Vec<P>]) -> String {
    let n: usize = p.iter().map(|r| r.len()).sum();
    if n > 600 {
        format!("{} rings, {} vertices (regenerate with the replay command)", p.len(), n)
    } else {
        format!("{:?}", p)
    }
}

/// typical mixture of sizes
pub fn size(rng: &mut Rng, big: usize) -> usize {
    let n = match rng.below(100) {
        0..=59 => 3 + rng.below(20),
        60..=84 => 20 + rng.below(60),
        85..=96 => 60 + rng.below(240),
        _ => 200 + rng.below(big.max(201) - 200),
    };
    n.min(big)
}

/// sizes that ordinary cases rarely reach, beyond the 16-bit boundary too
pub fn huge(rng: &mut Rng) -> (&'static str, Polys) {
    let f = *rng.pick(gen::BIG);
    let n = if f == "deep" { 5_000 + rng.below(3_000) } else { 65_540 + rng.below(8_000) };
    (f, gen::big(rng, f, n))
}

thread_local! {
    /// 1: the next geometry is large, 2: very much of the next geometry is pending at once
    static LONG: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

/// The case with a large geometry (the first one it asks for)
pub fn long(ctx: &mut Ctx, f: impl Fn(&mut Ctx) -> Verdict) -> Verdict {
    with_long(ctx, 1, f)
}

/// The case with a geometry (the first one it asks for) of which thousands of parts are pending at once.
/// For threads with little stack: nothing may be taken apart recursively.
pub fn deep(ctx: &mut Ctx, f: impl Fn(&mut Ctx) -> Verdict) -> Verdict {
    with_long(ctx, 2, f)
}

fn with_long(ctx: &mut Ctx, k: u8, f: impl Fn(&mut Ctx) -> Verdict) -> Verdict {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) { LONG.with(|l| l.set(0)) }
    }
    LONG.with(|l| l.set(k));
    let _off = Off;
    ctx.add(if k == 1 { "large cases" } else { "deep cases" }, 1);
    f(ctx)
}

fn pending(rng: &mut Rng, least: usize) -> (&'static str, Polys) {
    let f = *rng.pick(&["comb", "comb", "comb", "teeth", "flatcomb", "walk", "lattice", "stairs"]);
    let n = least + rng.below(2 * least);
    (f, gen::big(rng, f, n))
}

/// Any family with about n vertices; in a large case up to some thousand
pub fn family(rng: &mut Rng, n: usize) -> Polys {
    match LONG.with(|l| l.take()) {
        0 => {}
        1 => {
            let (i, rings) = (rng.below(1000) as u64, rng.chance(1, 2));
            return gen::sized(rng, i, rings, 200, 5_000).1;
        }
        _ => return pending(rng, 8_000).1,
    }
    let f = *rng.pick(gen::FAMILIES);
    let n = 3 + rng.below(n);
    gen::generate(rng, f, n)
}

/// Mostly small inputs of all families. The long tail of sizes (valid by construction) is for the optimised builds only.
pub fn geometry(rng: &mut Rng, big: usize) -> (&'static str, Polys) {
    match LONG.with(|l| l.take()) {
        0 => {}
        1 => {
            let (i, rings) = (rng.below(1000) as u64, rng.chance(1, 2));
            return if rng.chance(1, 4) { huge(rng) } else { gen::sized(rng, i, rings, 1000, 66_000) };
        }
        _ => return pending(rng, 8_000),
    }
    if big >= 60 && !cfg!(debug_assertions) && !cfg!(miri) {
        match rng.below(if big >= 150 { 12_000 } else { 60_000 }) {
            0 => return huge(rng),
            1..=8 => {
                let f = *rng.pick(gen::BIG);
                let n = 600 + rng.below(6_000);
                return (f, gen::big(rng, f, n));
            }
            9..=48 => {
                let (i, rings) = (rng.below(1000) as u64, rng.chance(1, 2));
                return gen::sized(rng, i, rings, 0, if big >= 150 { 4096 } else { 1024 });
            }
            _ => {}
        }
    }
    let f = *rng.pick(gen::FAMILIES);
    let n = size(rng, big);
    (f, gen::generate(rng, f, n))
}

pub fn to_f64(p: &[Vec<P>]) -> Vec<Vec<[f64; 2]>> {
    p.iter().map(|r| r.iter().map(|v| [v[0] as f64, v[1] as f64]).collect()).collect()
}

/// dense id of an index of a nested container
pub fn nested_ids(reg: &Region, tris: &[[[usize; 2]; 3]]) -> Result<Vec<T3>, String> {
    tris.iter()
        .map(|t| {
            let mut o = [0u32; 3];
            for k in 0..3 {
                let [r, i] = t[k];
                if r >= reg.rings.len() || i >= reg.rings[r].len() {
                    return Err(format!("output index {:?} does not address an input vertex", t[k]));
                }
                o[k] = (reg.offsets[r] + i) as u32;
            }
            Ok(o)
        })
        .collect()
}

/// Any failure of the call itself, as text
pub fn flat_err<T, E: std::error::Error>(r: Result<Result<T, triangulate::TriangulationError<E>>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("triangulation of valid input failed: {}", err_text(&e))),
        Err(p) => Err(format!("triangulation of valid input panicked: {p}")),
    }
}

pub fn tri<'p, P: PolygonList<'p>>(p: &'p P) -> Result<Vec<[P::Index; 3]>, String> {
    flat_err(guard(|| p.triangulate(formats::IndexedListFormat::<P, Vec<[P::Index; 3]>>::new(Vec::new()).into_fan_format())))
}

/// Mesh conformity (C02)
pub fn check_mesh(reg: &Region, tris: &[T3]) -> Result<(), String> {
    if tris.len() != reg.full_count() {
        return Err(format!("{} triangles, a full triangulation has {}", tris.len(), reg.full_count()));
    }
    let mut e: HashMap<(u32, u32), u32> = HashMap::with_capacity(tris.len() * 2);
    let mut used = vec![false; reg.verts.len()];
    for t in tris {
        if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
            return Err(format!("triangle {t:?} repeats a corner"));
        }
        for k in 0..3 {
            let (a, b) = (t[k], t[(k + 1) % 3]);
            used[a as usize] = true;
            *e.entry((a.min(b), a.max(b))).or_insert(0) += 1;
        }
    }
    if let Some(v) = used.iter().position(|u| !u) {
        return Err(format!("vertex {v} {:?} is in no triangle", reg.verts[v]));
    }
    for r in &reg.rings {
        for i in 0..r.len() {
            let (a, b) = (r[i], r[(i + 1) % r.len()]);
            let k = (a.min(b), a.max(b));
            match e.remove(&k) {
                Some(1) => {}
                other => return Err(format!("polygon edge {k:?} is in {} triangles", other.unwrap_or(0))),
            }
        }
    }
    for (k, c) in e {
        if c != 2 {
            return Err(format!("triangle side {k:?} ({:?} - {:?}) is in {c} triangles", reg.verts[k.0 as usize], reg.verts[k.1 as usize]));
        }
    }
    Ok(())
}

/// No triangle is wound clockwise
pub fn check_winding(reg: &Region, tris: &[T3], cw: bool) -> Result<(u64, u64), String> {
    let (mut pos, mut zero) = (0, 0);
    for t in tris {
        let o = orient(reg.verts[t[0] as usize], reg.verts[t[1] as usize], reg.verts[t[2] as usize]);
        let o = if cw { -o } else { o };
        if o < 0 {
            return Err(format!("triangle {t:?} {:?} is wound {}", t.map(|i| reg.verts[i as usize]), if cw { "counter-clockwise" } else { "clockwise" }));
        }
        if o > 0 { pos += 1 } else { zero += 1 }
    }
    Ok((pos, zero))
}

/// Full oracle: tiling, mesh and winding
pub fn check_all(reg: &Region, tris: &[T3]) -> Result<(), String> {
    check_tiling(reg, tris)?;
    check_mesh(reg, tris)?;
    check_winding(reg, tris, false)?;
    Ok(())
}

/// rotation-normalised, sorted
pub fn canon(tris: &[T3]) -> Vec<T3> {
    let mut v: Vec<T3> = tris
        .iter()
        .map(|t| {
            let k = (0..3).min_by_key(|&k| t[k]).unwrap();
            [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
        })
        .collect();
    v.sort();
    v
}
pub fn flip(tris: &[T3]) -> Vec<T3> {
    tris.iter().map(|t| [t[0], t[2], t[1]]).collect()
}

pub enum Src<'t, 'p, P: PolygonList<'p>> {
    Direct(&'p P),
    Trap(&'t Trapezoidation<'p, P>),
}

// --- user-defined collections -------------------------------------------------------------------------------------
#[derive(Default)]
pub struct MyList<V>(pub std::collections::VecDeque<(V, V, V)>);
impl<V> triangulate::List<V> for MyList<V> {
    fn push(&mut self, a: V, b: V, c: V) { self.0.push_back((a, b, c)) }
    fn len(&self) -> usize { self.0.len() }
    fn truncate(&mut self, len: usize) { self.0.truncate(len) }
}
pub struct MyFan<V>(pub std::collections::LinkedList<V>);
impl<V> triangulate::Fan<V> for MyFan<V> {
    fn new(a: V, b: V, c: V) -> Self { MyFan([a, b, c].into_iter().collect()) }
    fn push(&mut self, v: V) { self.0.push_back(v) }
}
pub struct MyFans<F>(pub Vec<Option<F>>);
impl<F> triangulate::Fans for MyFans<F> {
    type Fan = F;
    fn len(&self) -> usize { self.0.len() }
    fn truncate(&mut self, len: usize) { self.0.truncate(len) }
    fn push(&mut self, f: F) { self.0.push(Some(f)) }
}

pub const FORMATS: &[&str] = &[
    "list-flat", "list-array", "list-tuple", "list-flat-mut", "list-array-mut", "list-tuple-mut", "dlist-flat", "dlist-array", "dlist-tuple", "dlist-array-mut",
    "fan", "fan-mut", "dfan", "dfan-mut", "delimited", "delimited-mut", "user-list", "user-fans", "user-dfans", "rec-fan", "rec-list", "rec-fan-cw", "rec-list-cw",
    "rev-list-array", "rev-fan", "rev-dfan", "rev-delimited", "rev-dlist", "rev-rec-fan", "rev-rec-list-cw", "rev-rev-fan", "rev-rev-list", "rev-user-list",
];
pub fn is_cw(name: &str) -> bool {
    match name {
        "rec-fan-cw" | "rec-list-cw" => true,
        "rev-rec-list-cw" => false,
        n if n.starts_with("rev-rev") => false,
        n => n.starts_with("rev-"),
    }
}

/// Triangulate into one format and decode to dense ids. Structural anomalies of the output are errors.
pub fn run_format<'p, P: PolygonList<'p>>(src: &Src<'_, 'p, P>, name: &str, delim: P::Index, id: &dyn Fn(&P::Index) -> Option<u32>, vid: &dyn Fn(&P::Vertex) -> Option<u32>) -> Result<Vec<T3>, String>
where
    P::Index: Clone + PartialEq,
    P::Vertex: Clone,
{
    let idx = |i: &P::Index| id(i).ok_or_else(|| "output index does not address an input vertex".to_string());
    let vtx = |v: &P::Vertex| vid(v).ok_or_else(|| "output vertex value is not an input vertex".to_string());
    macro_rules! go {
        ($f:expr) => {
            flat_err(guard(|| match src {
                Src::Direct(p) => p.triangulate($f),
                Src::Trap(t) => t.triangulate($f),
            }))?
        };
    }
    fn flat<X>(v: &[X], f: &dyn Fn(&X) -> Result<u32, String>) -> Result<Vec<T3>, String> {
        if v.len() % 3 != 0 {
            return Err(format!("flat list holds {} values, not whole triangles", v.len()));
        }
        v.chunks(3).map(|c| Ok([f(&c[0])?, f(&c[1])?, f(&c[2])?])).collect()
    }
    fn arr<X>(v: &[[X; 3]], f: &dyn Fn(&X) -> Result<u32, String>) -> Result<Vec<T3>, String> {
        v.iter().map(|c| Ok([f(&c[0])?, f(&c[1])?, f(&c[2])?])).collect()
    }
    fn tup<'a, X: 'a>(v: impl Iterator<Item = &'a (X, X, X)>, f: &dyn Fn(&X) -> Result<u32, String>) -> Result<Vec<T3>, String> {
        v.map(|c| Ok([f(&c.0)?, f(&c.1)?, f(&c.2)?])).collect()
    }
    fn fans<'a, X: 'a>(v: impl Iterator<Item = Vec<&'a X>>, f: &dyn Fn(&X) -> Result<u32, String>) -> Result<Vec<T3>, String> {
        let mut out = vec![];
        for fan in v {
            if fan.len() < 3 {
                return Err(format!("fan of {} vertices", fan.len()));
            }
            let ids: Vec<u32> = fan.into_iter().map(f).collect::<Result<_, _>>()?;
            out.extend(fan_tris(&ids));
        }
        Ok(out)
    }
    type ILF<'p, P, L> = formats::IndexedListFormat<'p, P, L>;
    type DLF<'p, P, L> = formats::DeindexedListFormat<'p, P, L>;
    type IFF<'p, P, L> = formats::IndexedFanFormat<'p, P, L>;
    type DFF<'p, P, L> = formats::DeindexedFanFormat<'p, P, L>;
    type DEL<'p, P, L> = formats::DelimitedFanFormat<'p, P, L>;
    let delimited = |v: Vec<P::Index>| -> Result<Vec<T3>, String> { fans(v.split(|i| *i == delim).map(|s| s.iter().collect()), &idx) };
    let rec = |l: Log<P::Index>| -> Result<Vec<T3>, String> { arr(&decode(&l.borrow())?, &idx) };
    match name {
        "list-flat" => flat(&go!(ILF::<P, Vec<P::Index>>::new(vec![]).into_fan_format()), &idx),
        "list-array" => arr(&go!(ILF::<P, Vec<[P::Index; 3]>>::new(vec![]).into_fan_format()), &idx),
        "list-tuple" => tup(go!(ILF::<P, Vec<(P::Index, P::Index, P::Index)>>::new(vec![]).into_fan_format()).iter(), &idx),
        "list-flat-mut" => {
            let mut v: Vec<P::Index> = vec![];
            go!(ILF::<P, &mut Vec<P::Index>>::new(&mut v).into_fan_format());
            flat(&v, &idx)
        }
        "list-array-mut" => {
            let mut v: Vec<[P::Index; 3]> = vec![];
            go!(ILF::<P, &mut Vec<[P::Index; 3]>>::new(&mut v).into_fan_format());
            arr(&v, &idx)
        }
        "list-tuple-mut" => {
            let mut v: Vec<(P::Index, P::Index, P::Index)> = vec![];
            go!(ILF::<P, &mut Vec<(P::Index, P::Index, P::Index)>>::new(&mut v).into_fan_format());
            tup(v.iter(), &idx)
        }
        "dlist-flat" => flat(&go!(DLF::<P, Vec<P::Vertex>>::new(vec![]).into_fan_format()), &vtx),
        "dlist-array" => arr(&go!(DLF::<P, Vec<[P::Vertex; 3]>>::new(vec![]).into_fan_format()), &vtx),
        "dlist-tuple" => tup(go!(DLF::<P, Vec<(P::Vertex, P::Vertex, P::Vertex)>>::new(vec![]).into_fan_format()).iter(), &vtx),
        "dlist-array-mut" => {
            let mut v: Vec<[P::Vertex; 3]> = vec![];
            go!(DLF::<P, &mut Vec<[P::Vertex; 3]>>::new(&mut v).into_fan_format());
            arr(&v, &vtx)
        }
        "fan" => fans(go!(IFF::<P, Vec<Vec<P::Index>>>::new(vec![])).iter().map(|f| f.iter().collect()), &idx),
        "fan-mut" => {
            let mut v: Vec<Vec<P::Index>> = vec![];
            go!(IFF::<P, &mut Vec<Vec<P::Index>>>::new(&mut v));
            fans(v.iter().map(|f| f.iter().collect()), &idx)
        }
        "dfan" => fans(go!(DFF::<P, Vec<Vec<P::Vertex>>>::new(vec![])).iter().map(|f| f.iter().collect()), &vtx),
        "dfan-mut" => {
            let mut v: Vec<Vec<P::Vertex>> = vec![];
            go!(DFF::<P, &mut Vec<Vec<P::Vertex>>>::new(&mut v));
            fans(v.iter().map(|f| f.iter().collect()), &vtx)
        }
        "delimited" => delimited(go!(DEL::<P, Vec<P::Index>>::new(vec![], delim.clone()))),
        "delimited-mut" => {
            let mut v: Vec<P::Index> = vec![];
            go!(DEL::<P, &mut Vec<P::Index>>::new(&mut v, delim.clone()));
            delimited(v)
        }
        "user-list" => tup(go!(ILF::<P, MyList<P::Index>>::new(MyList(Default::default())).into_fan_format()).0.iter(), &idx),
        "user-fans" => fans(go!(IFF::<P, MyFans<MyFan<P::Index>>>::new(MyFans(vec![]))).0.iter().map(|f| f.as_ref().unwrap().0.iter().collect()), &idx),
        "user-dfans" => fans(go!(DFF::<P, MyFans<MyFan<P::Vertex>>>::new(MyFans(vec![]))).0.iter().map(|f| f.as_ref().unwrap().0.iter().collect()), &vtx),
        "rec-fan" => {
            let l = log();
            go!(Rec::<P, false>::new(&l, Plan::default()));
            rec(l)
        }
        "rec-list" => {
            let l = log();
            go!(RecList::<P, false>::new(&l, Plan::default()).into_fan_format());
            rec(l)
        }
        "rec-fan-cw" => {
            let l = log();
            go!(Rec::<P, true>::new(&l, Plan::default()));
            rec(l)
        }
        "rec-list-cw" => {
            let l = log();
            go!(RecList::<P, true>::new(&l, Plan::default()).into_fan_format());
            rec(l)
        }
        "rev-list-array" => arr(&go!(ILF::<P, Vec<[P::Index; 3]>>::new(vec![]).into_fan_format().reverse_winding()), &idx),
        "rev-fan" => fans(go!(IFF::<P, Vec<Vec<P::Index>>>::new(vec![]).reverse_winding()).iter().map(|f| f.iter().collect()), &idx),
        "rev-dfan" => fans(go!(DFF::<P, Vec<Vec<P::Vertex>>>::new(vec![]).reverse_winding()).iter().map(|f| f.iter().collect()), &vtx),
        "rev-delimited" => delimited(go!(DEL::<P, Vec<P::Index>>::new(vec![], delim.clone()).reverse_winding())),
        "rev-dlist" => flat(&go!(DLF::<P, Vec<P::Vertex>>::new(vec![]).into_fan_format().reverse_winding()), &vtx),
        "rev-rec-fan" => {
            let l = log();
            go!(Rec::<P, false>::new(&l, Plan::default()).reverse_winding());
            rec(l)
        }
        "rev-rec-list-cw" => {
            let l = log();
            go!(RecList::<P, true>::new(&l, Plan::default()).into_fan_format().reverse_winding());
            rec(l)
        }
        "rev-rev-fan" => fans(go!(IFF::<P, Vec<Vec<P::Index>>>::new(vec![]).reverse_winding().reverse_winding()).iter().map(|f| f.iter().collect()), &idx),
        "rev-rev-list" => arr(&go!(ILF::<P, Vec<[P::Index; 3]>>::new(vec![]).into_fan_format().reverse_winding().reverse_winding()), &idx),
        "rev-user-list" => tup(go!(ILF::<P, MyList<P::Index>>::new(MyList(Default::default())).into_fan_format().reverse_winding()).0.iter(), &idx),
        _ => panic!("unknown format {name}"),
    }
}

/// id functions for Vec<Vec<[f64;2]>> of integer geometry
pub fn nested_id(reg: &Region) -> impl Fn(&[usize; 2]) -> Option<u32> + '_ {
    move |i: &[usize; 2]| (i[0] < reg.rings.len() && i[1] < reg.rings[i[0]].len()).then(|| (reg.offsets[i[0]] + i[1]) as u32)
}
pub fn vertex_ids(reg: &Region) -> HashMap<P, u32> {
    reg.verts.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect()
}
pub fn nested_vid(map: &HashMap<P, u32>) -> impl Fn(&[f64; 2]) -> Option<u32> + '_ {
    move |v: &[f64; 2]| if v[0].fract() == 0.0 && v[1].fract() == 0.0 { map.get(&[v[0] as i64, v[1] as i64]).copied() } else { None }
}

/// one run of nested f64 input in a given format
pub fn run_nested(reg: &Region, p: &Vec<Vec<[f64; 2]>>, fmt: &str) -> Result<Vec<T3>, String> {
    let map = vertex_ids(reg);
    let r = run_format(&Src::Direct(p), fmt, [usize::MAX, 7], &nested_id(reg), &nested_vid(&map));
    r
}

pub fn size_class(n: usize) -> &'static str {
    match n {
        0..=8 => "n<=8",
        9..=32 => "n<=32",
        33..=128 => "n<=128",
        129..=1024 => "n<=1024",
        1025..=16384 => "n<=16384",
        _ => "n>16384",
    }
}
