//! C06 input representations, C07 degenerate counts, C16 substituted indices, C17 opaque tokens.
use crate::common::*;
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::inputs::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::rc::Rc;
use std::sync::Arc;
use triangulate::{formats, ListFormat, Polygon, PolygonElement, PolygonList, TrapezoidationError, TriangulationError, Vertex};

// --- custom representations ---------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Pt {
    pub name: &'static str,
    pub north: f64,
    pub east: f64,
}
impl Vertex for Pt {
    type Coordinate = f64;
    fn x(&self) -> f64 { self.east }
    fn y(&self) -> f64 { self.north }
}

/// custom polygon stored back to front, indexed from one by a non-usize type
pub struct Backwards(pub Vec<[f64; 2]>);
impl<'p> Polygon<'p> for Backwards {
    type Vertex = [f64; 2];
    type Index = NonZeroU32;
    type Iter<'i> = Box<dyn Iterator<Item = NonZeroU32> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        Box::new((1..=self.0.len() as u32).map(|i| NonZeroU32::new(i).unwrap()))
    }
    fn get_vertex(&self, i: NonZeroU32) -> &[f64; 2] { &self.0[self.0.len() - i.get() as usize] }
}

/// custom polygon with usize indices that are neither zero based nor contiguous nor in storage order
pub struct Strided {
    pub v: Vec<[f64; 2]>,
    pub first: usize,
    pub step: usize,
    pub rev: bool,
}
impl Strided {
    pub fn slot(&self, index: usize) -> Option<usize> {
        let d = index.checked_sub(self.first)?;
        (d % self.step == 0 && d / self.step < self.v.len()).then(|| d / self.step)
    }
}
impl<'p> Polygon<'p> for Strided {
    type Vertex = [f64; 2];
    type Index = usize;
    type Iter<'i> = Box<dyn Iterator<Item = usize> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.v.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        let it = (0..self.v.len()).map(|k| self.first + k * self.step);
        if self.rev { Box::new(it.rev()) } else { Box::new(it) }
    }
    fn get_vertex(&self, i: usize) -> &[f64; 2] {
        match self.slot(i) {
            Some(k) => &self.v[k],
            None => panic!("tvmon: polygon asked for index {i}, which it never issued"),
        }
    }
}

/// custom list of custom polygons keyed by (name, number), yielding Option items
pub struct Atlas(pub Vec<(String, Vec<Pt>)>);
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Key {
    Place(String, u32),
}
impl<'p> PolygonList<'p> for Atlas {
    type Vertex = Pt;
    type Index = Key;
    type IntoItem = Option<Key>;
    type Iter<'i> = Box<dyn Iterator<Item = Option<Key>> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.iter().map(|p| p.1.len()).sum() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        Box::new(self.0.iter().flat_map(|(n, v)| std::iter::once(None).chain((0..v.len() as u32).map(move |i| Some(Key::Place(n.clone(), i))))))
    }
    fn get_vertex<'a>(&'a self, k: Key) -> &'a Pt where 'p: 'a {
        let Key::Place(n, i) = k;
        &self.0.iter().find(|p| p.0 == n).expect("tvmon: unknown place").1[i as usize]
    }
}

/// rings of `polys` with empty polygons put anywhere; returns the list and, per position, the ring it holds
fn with_empties(rng: &mut Rng, polys: &Polys, on: bool) -> (Polys, Vec<Option<usize>>) {
    let (mut out, mut map) = (vec![], vec![]);
    for (k, p) in polys.iter().enumerate() {
        while on && rng.chance(1, 3) {
            out.push(vec![]);
            map.push(None);
        }
        out.push(p.clone());
        map.push(Some(k));
    }
    while on && rng.chance(1, 3) {
        out.push(vec![]);
        map.push(None);
    }
    (out, map)
}

fn dense<I>(reg: &Region, tris: Vec<[I; 3]>, id: impl Fn(&I) -> Option<u32>) -> Result<Vec<T3>, String>
where
    I: Debug,
{
    let mut out = vec![];
    for t in tris {
        let mut o = [0; 3];
        for k in 0..3 {
            match id(&t[k]) {
                Some(i) if (i as usize) < reg.verts.len() => o[k] = i,
                _ => return Err(format!("returned index {:?} does not address an input vertex", t[k])),
            }
        }
        out.push(o);
    }
    Ok(out)
}

pub const REPRS: usize = 24;

/// Triangulate `polys` in representation `r`; the result is in dense ids of `Region::new(polys)`
pub fn represent(rng: &mut Rng, polys: &Polys, reg: &Region, r: usize) -> Option<(&'static str, Result<Vec<T3>, String>)> {
    let single = polys.len() == 1;
    let on = rng.chance(1, 2);
    let (ext, map) = with_empties(rng, polys, on);
    let nest = |i: &[usize; 2]| -> Option<u32> {
        let k = (*map.get(i[0])?)?;
        (i[1] < reg.rings[k].len()).then(|| (reg.offsets[k] + i[1]) as u32)
    };
    let lin = |i: &usize| Some(*i as u32);
    let f = |v: &P| [v[0] as f64, v[1] as f64];
    fn tri1<'p, P: Polygon<'p>>(p: &'p P) -> Result<Vec<[P::Index; 3]>, String> {
        flat_err(guard(|| Polygon::triangulate(p, formats::IndexedListFormat::<_, Vec<[P::Index; 3]>>::new(Vec::new()).into_fan_format())))
    }
    fn tri1b<'p, P: Polygon<'p>>(p: &'p P) -> Result<Vec<[P::Index; 3]>, String> {
        flat_err(guard(|| Polygon::trapezoidize(p).map_err(TriangulationError::TrapezoidationError)?.triangulate(formats::IndexedListFormat::<_, Vec<[P::Index; 3]>>::new(Vec::new()).into_fan_format())))
    }
    Some(match r {
        0 => ("Vec<Vec<[f64;2]>>", { let v: Vec<Vec<[f64; 2]>> = ext.iter().map(|p| p.iter().map(f).collect()).collect(); tri(&v).and_then(|t| dense(reg, t, nest)) }),
        1 => ("Vec<Box<[(f64,f64)]>>", { let v: Vec<Box<[(f64, f64)]>> = ext.iter().map(|p| p.iter().map(|v| (v[0] as f64, v[1] as f64)).collect()).collect(); tri(&v).and_then(|t| dense(reg, t, nest)) }),
        2 => ("Box<[Vec<Pt>]>", { let v: Box<[Vec<Pt>]> = ext.iter().map(|p| p.iter().map(|v| Pt { name: "p", north: v[1] as f64, east: v[0] as f64 }).collect()).collect(); tri(&v).and_then(|t| dense(reg, t, nest)) }),
        3 => ("Rc<[Rc<[[f64;2]]>]>", { let v: Rc<[Rc<[[f64; 2]]>]> = ext.iter().map(|p| p.iter().map(f).collect()).collect(); tri(&v).and_then(|t| dense(reg, t, nest)) }),
        4 => ("Arc<[Arc<[[f64;2]]>]>", { let v: Arc<[Arc<[[f64; 2]]>]> = ext.iter().map(|p| p.iter().map(f).collect()).collect(); tri(&v).and_then(|t| dense(reg, t, nest)) }),
        5 => ("&[&[[f64;2]]]", {
            // slices into one shared buffer
            let buf: Vec<[f64; 2]> = ext.iter().flatten().map(f).collect();
            let mut at = 0;
            let v: Vec<&[[f64; 2]]> = ext.iter().map(|p| { let s = &buf[at..at + p.len()]; at += p.len(); s }).collect();
            let s: &[&[[f64; 2]]] = &v;
            tri(&s).and_then(|t| dense(reg, t, nest))
        }),
        6 => ("Vec<Cow<[[f64;2]]>>", {
            let nested: Vec<Vec<[f64; 2]>> = ext.iter().map(|p| p.iter().map(f).collect()).collect();
            let v: Vec<Cow<[[f64; 2]]>> = nested.iter().enumerate().map(|(k, p)| if k % 2 == 0 { Cow::Borrowed(&p[..]) } else { Cow::Owned(p.clone()) }).collect();
            tri(&v).and_then(|t| dense(reg, t, nest))
        }),
        7 => ("Vec<Vec<[f32;2]>>", {
            if polys.iter().flatten().flatten().any(|c| c.abs() > 1000) {
                return None;
            }
            let v: Vec<Vec<[f32; 2]>> = ext.iter().map(|p| p.iter().map(|v| [v[0] as f32, v[1] as f32]).collect()).collect();
            tri(&v).and_then(|t| dense(reg, t, nest))
        }),
        8 | 9 | 10 => {
            let l: Flat<f64, u32, Tagged> = Flat::build(polys, rng.next(), |x| x as f64);
            let l = if r > 8 { l.add_separators(rng) } else { l };
            if r == 10 {
                ("custom list, Option items, separators", { let l = Flat::<f64, u32, Optional> { verts: l.verts, items: l.items, tokens: l.tokens, salt: l.salt, count_lie: 0, lookups: Default::default(), foreign: Default::default(), trace: Default::default(), history: Default::default(), lie_rate: 0, _s: Default::default() }; tri(&l).and_then(|t| dense(reg, t, |i| Some(*i))) })
            } else {
                (if r == 8 { "custom list, tagged items" } else { "custom list, tagged items, separators" }, tri(&l).and_then(|t| dense(reg, t, |i| Some(*i))))
            }
        }
        11 if single => ("custom list, plain items", { let l: Flat<f64, u32, Plain> = Flat::build(polys, rng.next(), |x| x as f64); tri(&l).and_then(|t| dense(reg, t, |i| Some(*i))) }),
        12 if single => ("Vec<[f64;2]> as polygon", { let v: Vec<[f64; 2]> = polys[0].iter().map(f).collect(); tri1(&v).and_then(|t| dense(reg, t, lin)) }),
        13 if single => ("Box<[(f64,f64)]> as polygon, two steps", { let v: Box<[(f64, f64)]> = polys[0].iter().map(|v| (v[0] as f64, v[1] as f64)).collect(); tri1b(&v).and_then(|t| dense(reg, t, lin)) }),
        14 if single => ("&[Pt] as polygon", { let v: Vec<Pt> = polys[0].iter().map(|v| Pt { name: "q", north: v[1] as f64, east: v[0] as f64 }).collect(); let s = &v[..]; tri1(&s).and_then(|t| dense(reg, t, lin)) }),
        15 if single => ("Rc<[[f64;2]]> as_polygon_list", { let v: Rc<[[f64; 2]]> = polys[0].iter().map(f).collect(); tri(v.as_polygon_list()).and_then(|t| dense(reg, t, lin)) }),
        16 if single => ("custom polygon, own index type", { let n = polys[0].len() as u32; let v = Backwards(polys[0].iter().rev().map(f).collect()); let _ = n; tri1(&v).and_then(|t| dense(reg, t, |i| Some(i.get() - 1))) }),
        17 if single => ("custom polygon as_polygon_list, two steps", {
            let v = Backwards(polys[0].iter().rev().map(f).collect());
            let l = v.as_polygon_list();
            flat_err(guard(|| l.trapezoidize().map_err(TriangulationError::TrapezoidationError)?.triangulate(formats::IndexedListFormat::<_, Vec<[NonZeroU32; 3]>>::new(vec![]).into_fan_format()))).and_then(|t| dense(reg, t, |i| Some(i.get() - 1)))
        }),
        18 if single => ("custom polygon, strided indices", { let s = Strided { v: polys[0].iter().map(f).collect(), first: 1 + rng.below(9), step: 1 + rng.below(5), rev: rng.chance(1, 2) }; tri1(&s).and_then(|t| dense(reg, t, |i| s.slot(*i).map(|k| k as u32))) }),
        19 => ("Vec of custom polygons, strided indices", {
            let v: Vec<Strided> = ext.iter().map(|p| Strided { v: p.iter().map(f).collect(), first: rng.below(9), step: 1 + rng.below(5), rev: rng.chance(1, 2) }).collect();
            tri(&v).and_then(|t| dense(reg, t, |i| { let k = (*map.get(i[0])?)?; v[i[0]].slot(i[1]).map(|s| (reg.offsets[k] + s) as u32) }))
        }),
        // finding a place takes a search of the whole atlas
        20 if ext.len() < 500 => ("custom list, string keys, Option items, leading separator", {
            let v = Atlas(ext.iter().enumerate().map(|(k, p)| (format!("place {k}"), p.iter().map(|v| Pt { name: "r", north: v[1] as f64, east: v[0] as f64 }).collect())).collect());
            tri(&v).and_then(|t| dense(reg, t, |k| { let Key::Place(n, i) = k; nest(&[n[6..].parse().ok()?, *i as usize]) }))
        }),
        21 => ("index_with::<usize, u32>", { let v: Vec<Vec<[f64; 2]>> = ext.iter().map(|p| p.iter().map(f).collect()).collect(); let w = v.index_with::<usize, u32>(); tri(&w).and_then(|t| dense(reg, t, |i| nest(&[i[0] as usize, i[1] as usize]))) }),
        22 => ("Vec<Vec<[f64;2]>> spare capacity, two steps", {
            let mut v: Vec<Vec<[f64; 2]>> = Vec::with_capacity(64);
            v.extend(ext.iter().map(|p| { let mut q = Vec::with_capacity(if ext.len() < 1000 { 100 } else { 8 }); q.extend(p.iter().map(f)); q }));
            flat_err(guard(|| v.trapezoidize().map_err(TriangulationError::TrapezoidationError)?.triangulate(formats::IndexedListFormat::<_, Vec<[[usize; 2]; 3]>>::new(vec![]).into_fan_format()))).and_then(|t| dense(reg, t, nest))
        }),
        23 => ("one-polygon sublists", {
            // each ring on its own is a valid polygon, too
            let k = rng.below(polys.len());
            let one = vec![polys[k].clone()];
            let r1 = Region::new(&one);
            let v: Vec<[f64; 2]> = one[0].iter().map(f).collect();
            return Some(("ring by itself", tri1(&v).and_then(|t| dense(&r1, t, lin)).and_then(|t| check_all(&r1, &t).map(|_| vec![]))));
        }),
        _ => return None,
    })
}

fn c06_case(ctx: &mut Ctx) -> Verdict {
    let (fam, polys) = geometry(&mut ctx.rng, 150);
    let mut seen = 0;
    let first = ctx.rng.below(REPRS);
    for k in 0..REPRS {
        let r = (first + k) % REPRS;
        // rotate, reverse and permute the rings
        let mut q = polys.clone();
        for ring in q.iter_mut() {
            if ctx.rng.chance(1, 2) {
                ring.reverse();
            }
            let k = ctx.rng.below(ring.len());
            ring.rotate_left(k);
        }
        ctx.rng.shuffle(&mut q);
        let reg = Region::new(&q);
        let Some((what, res)) = represent(&mut ctx.rng, &q, &reg, r) else { continue };
        let t = res.map_err(|m| format!("[{what}] {m}\ninput: {}", show(&q)))?;
        if what != "ring by itself" {
            check_all(&reg, &t).map_err(|m| format!("[{what}] {m}\ninput: {}", show(&q)))?;
            ctx.sig(mix(mix(hash_polys(&q), hash_tris(&t)), r as u64));
        }
        ctx.add(what, 1);
        ctx.add("executions", 1);
        ctx.add("triangles checked", t.len() as u64);
        seen += 1;
        if seen == 8 {
            break;
        }
    }
    ctx.sample(|| format!("{fam}: {}", show(&polys)));
    Ok(())
}

/// many more redundant separators and empty polygons than real ones, large lists
fn c06_sparse(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 60);
    let reg = Region::new(&polys);
    let mut l: Flat<f64, u32, Tagged> = Flat::build(&polys, ctx.rng.next(), |x| x as f64);
    let mut items = vec![];
    let runs = [0, 1, 2, 7, 40, 300];
    let mut pad = |items: &mut Vec<Option<u32>>, rng: &mut Rng, must: bool| {
        let k = (*rng.pick(&runs)).max(must as usize);
        items.extend(std::iter::repeat(None).take(k));
    };
    pad(&mut items, &mut ctx.rng, false);
    for it in l.items.drain(..) {
        match it {
            None => pad(&mut items, &mut ctx.rng, true),
            x => items.push(x),
        }
    }
    pad(&mut items, &mut ctx.rng, false);
    l.items = items;
    let seps = l.items.iter().filter(|i| i.is_none()).count();
    let t = tri(&l).and_then(|t| dense(&reg, t, |i| Some(*i))).and_then(|t| check_all(&reg, &t).map(|_| t)).map_err(|m| format!("[{seps} separators] {m}\nitems: {:?}\ninput: {}", if l.items.len() < 400 { &l.items[..] } else { &[] }, show(&polys)))?;
    ctx.add("executions", 1);
    ctx.add("separators yielded", seps as u64);
    ctx.add("triangles checked", t.len() as u64);
    ctx.sig(mix(hash_polys(&polys), seps as u64));
    Ok(())
}

/// empty polygons and redundant separators in numbers, on a thread whose stack does not grow with them
fn c06_empties(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = 3 + ctx.rng.below(40);
    let polys = gen::generate(&mut ctx.rng, f, n);
    let reg = Region::new(&polys);
    let many = *ctx.rng.pick(&[20_000usize, 60_000, 66_000, 150_000, 300_000, 1_000_000]);
    // where the run of empty polygons goes, how long it is and which ring follows it
    let mut map: Vec<Option<usize>> = vec![];
    let at = ctx.rng.below(polys.len() + 1);
    for k in 0..=polys.len() {
        let m = if k == at { many } else if ctx.rng.chance(1, 4) { ctx.rng.below(many / 2) } else { 0 };
        map.extend(std::iter::repeat(None).take(m));
        if k < polys.len() {
            map.push(Some(k));
        }
    }
    let empties = map.len() - polys.len();
    describe(format!("{} with {empties} empty polygons, {many} of them before ring {at}", show(&polys)));
    let nest = |i: &[usize; 2]| -> Option<u32> {
        let k = (*map.get(i[0])?)?;
        (i[1] < reg.rings[k].len()).then(|| (reg.offsets[k] + i[1]) as u32)
    };
    let f = |v: &P| [v[0] as f64, v[1] as f64];
    let ring = |m: &Option<usize>| -> Vec<[f64; 2]> { m.map_or(vec![], |k| polys[k].iter().map(f).collect()) };
    let (what, t) = match ctx.rng.below(6) {
        0 => ("nested vectors", { let v: Vec<Vec<[f64; 2]>> = map.iter().map(ring).collect(); tri(&v).and_then(|t| dense(&reg, t, nest)) }),
        1 => ("boxed slices", { let v: Box<[Box<[[f64; 2]]>]> = map.iter().map(|m| ring(m).into_boxed_slice()).collect(); tri(&v).and_then(|t| dense(&reg, t, nest)) }),
        2 => ("borrowed slices", { let own: Vec<Vec<[f64; 2]>> = polys.iter().map(|p| p.iter().map(f).collect()).collect(); let v: Vec<&[[f64; 2]]> = map.iter().map(|m| m.map_or(&[][..], |k| &own[k][..])).collect(); tri(&v).and_then(|t| dense(&reg, t, nest)) }),
        3 => ("substituted indices", { let v: Vec<Vec<[f64; 2]>> = map.iter().map(ring).collect(); let w = v.index_with::<usize, u32>(); tri(&w).and_then(|t| dense(&reg, t, |i| nest(&[i[0] as usize, i[1] as usize]))) }),
        k => {
            let mut l: Flat<f64, u32, Tagged> = Flat::build(&polys, ctx.rng.next(), |x| x as f64);
            let mut items = vec![];
            for m in &map {
                items.push(None);
                if let Some(k) = m {
                    items.extend((0..polys[*k].len()).map(|i| Some((reg.offsets[*k] + i) as u32)));
                }
            }
            l.items = items;
            if k == 4 {
                ("tagged items", tri(&l).and_then(|t| dense(&reg, t, |i| Some(*i))))
            } else {
                let l = Flat::<f64, u32, Optional> { verts: l.verts, items: l.items, tokens: l.tokens, salt: l.salt, count_lie: 0, lookups: Default::default(), foreign: Default::default(), trace: Default::default(), history: Default::default(), lie_rate: 0, _s: Default::default() };
                ("Option items", tri(&l).and_then(|t| dense(&reg, t, |i| Some(*i))))
            }
        }
    };
    let t = t.and_then(|t| check_all(&reg, &t).map(|_| t)).map_err(|m| format!("[{what}] {m}"))?;
    ctx.add(what, 1);
    ctx.add("executions", 1);
    ctx.add("empty polygons", empties as u64);
    ctx.max("max empty polygons", empties as u64);
    ctx.add("triangles checked", t.len() as u64);
    ctx.sig(mix(hash_polys(&polys), empties as u64));
    Ok(())
}

// --- C07 ---------------------------------------------------------------------------------------------------------
fn c07_case(ctx: &mut Ctx) -> Verdict {
    // an arrangement of empty, 1- and 2-vertex and real rings
    let rng = &mut ctx.rng;
    let k = rng.below(7);
    let mut rings: Polys = vec![];
    for j in 0..k {
        let o = [j as i64 * 40, rng.range(0, 5)];
        rings.push(match rng.below(5) {
            0 | 1 => vec![],
            2 => vec![[o[0] + rng.range(0, 9), o[1]]],
            3 => vec![[o[0] + rng.range(0, 9), o[1]], [o[0] + rng.range(10, 12), o[1] + rng.range(-4, 4)]],
            _ => {
                let n = 3 + rng.below(9);
                let g = gen::generate(rng, "star", n);
                let (x0, y0) = (g[0].iter().map(|v| v[0]).min().unwrap(), g[0].iter().map(|v| v[1]).min().unwrap());
                g[0].iter().map(|v| [(j as i64) * 100_000 + v[0] - x0, v[1] - y0]).collect()
            }
        });
    }
    let bad: Vec<usize> = rings.iter().map(|r| r.len()).filter(|n| *n == 1 || *n == 2).collect();
    let total: usize = rings.iter().map(|r| r.len()).sum();
    if bad.is_empty() && total > 0 {
        // valid after all: make one ring degenerate
        let n = 1 + rng.below(2);
        let at = rng.below(rings.len() + 1);
        rings.insert(at, (0..n as i64).map(|i| [-50 - 7 * i, i]).collect());
    }
    let bad: Vec<usize> = rings.iter().map(|r| r.len()).filter(|n| *n == 1 || *n == 2).collect();
    let total: usize = rings.iter().map(|r| r.len()).sum();
    describe(format!("{rings:?}"));
    let pre: Vec<[[usize; 2]; 3]> = vec![[[9, 9], [8, 8], [7, 7]]; rng.below(3)];
    let judge = |what: &str, got: Result<(), String>, log_len: usize| -> Verdict {
        if log_len > 0 {
            return Err(format!("[{what}] an output builder was created for a rejected polygon set"));
        }
        match got {
            Ok(()) => Err(format!("[{what}] accepted")),
            Err(e) if total == 0 => if e == "NoVertices" { Ok(()) } else { Err(format!("[{what}] set without vertices rejected with {e}")) },
            Err(e) => if bad.iter().any(|n| e == format!("NotEnoughVertices({n})")) { Ok(()) } else { Err(format!("[{what}] polygons of {bad:?} vertices rejected with {e}")) },
        }
    };
    fn flatten<E: std::error::Error>(r: Result<Result<(), TriangulationError<E>>, String>) -> Result<(), String> {
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(err_text(&e)),
            Err(p) => Err(format!("panic: {p}")),
        }
    }
    fn two<'p, P: PolygonList<'p>>(p: &'p P, lg: &Log<P::Index>) -> Result<(), String> {
        match guard(|| p.trapezoidize()) {
            Err(m) => Err(format!("panic: {m}")),
            Ok(Err(TrapezoidationError::NotEnoughVertices(n))) => Err(format!("NotEnoughVertices({n})")),
            Ok(Err(e)) => Err(format!("Trapezoidation {e}")),
            Ok(Ok(t)) => flatten(guard(|| t.triangulate(Rec::<P, false>::new(lg, Plan::default())))),
        }
    }
    let p = to_f64(&rings);
    // 1: direct, fan recorder
    let lg = log();
    judge("list", flatten(guard(|| p.triangulate(Rec::<_, false>::new(&lg, Plan::default())))), lg.borrow().len())?;
    // 2: two steps
    let lg = log();
    judge("two steps", two(&p, &lg), lg.borrow().len())?;
    // 3: list recorder, reversed
    let lg = log();
    judge("list builder", flatten(guard(|| p.triangulate(triangulate::FanFormat::reverse_winding(RecList::<_, false>::new(&lg, Plan::default()).into_fan_format())))), lg.borrow().len())?;
    // 4: borrowed collection
    let mut out = pre.clone();
    judge("borrowed list", flatten(guard(|| p.triangulate(formats::IndexedListFormat::new(&mut out).into_fan_format()).map(|_| ()))), 0)?;
    if out != pre {
        return Err(format!("borrowed list changed from {pre:?} to {out:?} although the set was rejected"));
    }
    let pre2: Vec<Vec<[f64; 2]>> = vec![vec![[0.5; 2]; 3]; pre.len()];
    let mut out = pre2.clone();
    judge("borrowed fans", flatten(guard(|| p.triangulate(formats::DeindexedFanFormat::new(&mut out)).map(|_| ()))), 0)?;
    if out != pre2 {
        return Err("borrowed fans changed although the set was rejected".into());
    }
    let pre3: Vec<[usize; 2]> = vec![[3, 3]; pre.len()];
    let mut out = pre3.clone();
    judge("borrowed delimited", flatten(guard(|| p.triangulate(formats::DelimitedFanFormat::new(&mut out, [usize::MAX, 0])).map(|_| ()))), 0)?;
    if out != pre3 {
        return Err("borrowed delimited output changed although the set was rejected".into());
    }
    // 5: custom lists with separators
    let l: Flat<f64, u32, Tagged> = Flat::build(&rings, 1, |x| x as f64).add_separators(&mut ctx.rng);
    let lg = log();
    judge("custom list", flatten(guard(|| l.triangulate(Rec::<_, true>::new(&lg, Plan::default())))), lg.borrow().len())?;
    let l: Flat<f64, String, Optional> = Flat::build(&rings, 1, |x| x as f64).add_separators(&mut ctx.rng);
    let lg = log();
    judge("custom list, two steps", two(&l, &lg), lg.borrow().len())?;
    // 6: substituted index
    let w = p.clone().index_with::<usize, u16>();
    let lg = log();
    judge("index_with", flatten(guard(|| w.triangulate(Rec::<_, false>::new(&lg, Plan::default())))), lg.borrow().len())?;
    // 7: a single polygon
    if let [ring] = &p[..] {
        let lg = log();
        judge("single polygon", flatten(guard(|| Polygon::triangulate(ring, Rec::<_, false>::new(&lg, Plan::default())))), lg.borrow().len())?;
        let b = Backwards(ring.clone());
        let lg = log();
        judge("custom single polygon", two(b.as_polygon_list(), &lg), lg.borrow().len())?;
    }
    ctx.add("rejected calls", 8);
    ctx.add(if total == 0 { "sets without vertices" } else { "sets with a short polygon" }, 1);
    ctx.add("empty rings", rings.iter().filter(|r| r.is_empty()).count() as u64);
    ctx.max("max rings", rings.len() as u64);
    ctx.sig(rings.iter().fold(1, |h, r| mix(h, r.len() as u64)));
    ctx.sample(|| format!("{rings:?}"));
    Ok(())
}

/// long lists with one short polygon (or none) somewhere, and polygons whose lengths are short only modulo a power of two
fn c07_long(ctx: &mut Ctx) -> Verdict {
    let rng = &mut ctx.rng;
    let tri = |j: usize| -> Vec<P> { let (x, y) = (10 * (j as i64 % 300), 10 * (j as i64 / 300)); vec![[x, y], [x + 6, y + 1], [x + 3, y + 7]] };
    let mut bad = None;
    let rings: Polys = if ctx.idx % 4 == 3 {
        // 256 + 1, 65536 + 2, ... are not short
        let n = *rng.pick(&[256usize, 256, 512, 1024, 65_536]) + 1 + rng.below(2);
        let mut r = vec![tri(0), ring_of(rng, n).iter().map(|v| [v[0] + 100_000, v[1]]).collect(), tri(1)];
        if rng.chance(1, 2) {
            r.swap(1, 2);
        }
        r.truncate(2 + rng.below(2));
        r
    } else {
        let m = *rng.pick(&[40usize, 250, 256, 257, 300, 2000, 3000, if ctx.idx % 8 == 0 { 66_000 } else { 1000 }]);
        let empties = rng.below(3);
        let mut r: Polys = (0..m).map(|j| if empties > 0 && rng.below(4) < empties { vec![] } else { tri(j) }).collect();
        if rng.chance(4, 5) {
            let at = match rng.below(4) {
                0 => 0,
                1 => m - 1,
                2 => *rng.pick(&[255, 256, 257, 65_535, 65_536]),
                _ => rng.below(m),
            }
            .min(m - 1);
            let n = 1 + rng.below(2);
            r[at].truncate(0);
            r[at].extend((0..n as i64).map(|i| [-50 - 7 * i, i]));
            bad = Some(n);
        }
        r
    };
    let m = rings.len();
    let nv: usize = rings.iter().map(|r| r.len()).sum();
    let at = rings.iter().position(|r| matches!(r.len(), 1 | 2));
    let what = format!("{m} polygons, {nv} vertices, {}", match at { Some(at) => format!("polygon {at} has {} of them", rings[at].len()), None => format!("the longest polygon has {} of them", rings.iter().map(|r| r.len()).max().unwrap()) });
    describe(what.clone());
    let judge = |how: &str, got: Result<(), String>| -> Verdict {
        match (got, bad) {
            (Ok(()), None) => Ok(()),
            (Ok(()), Some(n)) => Err(format!("[{how}] accepted although a polygon has {n} vertices ({what})")),
            (Err(e), Some(n)) if e == format!("NotEnoughVertices({n})") => Ok(()),
            (Err(e), _) => Err(format!("[{how}] rejected with {e} ({what})")),
        }
    };
    fn steps<'p, P: PolygonList<'p>>(p: &'p P) -> Result<(), String> {
        match guard(|| p.trapezoidize()) {
            Err(m) => Err(format!("panic: {m}")),
            Ok(Err(TrapezoidationError::NotEnoughVertices(n))) => Err(format!("NotEnoughVertices({n})")),
            Ok(Err(e)) => Err(format!("Trapezoidation {e}")),
            Ok(Ok(_)) => Ok(()),
        }
    }
    fn whole<'p, P: PolygonList<'p>>(p: &'p P) -> Result<(), String> {
        let mut out: Vec<[P::Index; 3]> = vec![];
        let r = match guard(|| p.triangulate(formats::IndexedListFormat::<P, _>::new(&mut out).into_fan_format()).map(|_| ())) {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(err_text(&e)),
            Err(p) => Err(format!("panic: {p}")),
        };
        if r.is_err() && !out.is_empty() { Err(format!("the output collection holds {} triangles after {r:?}", out.len())) } else { r }
    }
    let p = to_f64(&rings);
    match ctx.rng.below(3) {
        0 => judge("list", steps(&p))?,
        1 => judge("list", whole(&p))?,
        _ => judge("index_with", whole(&p.clone().index_with::<usize, u32>()))?,
    }
    let l: Flat<f64, u32, Optional> = Flat::build(&rings, ctx.seed, |x| x as f64).add_separators(&mut ctx.rng);
    if ctx.rng.chance(1, 2) { judge("custom list", steps(&l))? } else { judge("custom list", whole(&l))? };
    ctx.add(if bad.is_some() { "rejected calls" } else { "accepted calls" }, 2);
    ctx.max("max rings", m as u64);
    ctx.sig(mix(mix(m as u64, nv as u64), at.unwrap_or(99) as u64));
    ctx.sample(|| what.clone());
    Ok(())
}

/// the other direction: sets whose polygons all have three or more vertices (or none) are not rejected
fn c07_accept(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 60);
    let (ext, _) = with_empties(&mut ctx.rng, &polys, true);
    let p = to_f64(&ext);
    let lg = log();
    let plan = Plan { max: 4 * p.iter().map(|r| r.len()).sum::<usize>() + 10, ..Plan::default() };
    flat_err(guard(|| p.triangulate(Rec::<_, false>::new(&lg, plan)))).map_err(|m| format!("{m}\ninput: {ext:?}"))?;
    ctx.add("accepted calls", 1);
    ctx.sig(ext.iter().fold(2, |h, r| mix(h, r.len() as u64)));
    Ok(())
}

// --- C16 ---------------------------------------------------------------------------------------------------------
/// a convex-ish ring of exactly n vertices
fn ring_of(rng: &mut Rng, n: usize) -> Vec<P> {
    match rng.below(3) {
        0 => (0..n as i64).map(|i| [i, i * i]).collect(),
        1 => {
            let mut v: Vec<P> = (0..n as i64 - 1).map(|i| [i, 1 + rng.range(0, 30)]).collect();
            v.push([n as i64 - 2, 0]);
            v[0][1] = 1;
            v
        }
        _ => {
            let m = n as i64 - 1;
            let mut v: Vec<P> = (0..m).map(|i| [i, i * (m - i)]).collect();
            v.push([m / 2, 2 * m * m + 5]);
            v
        }
    }
}

/// one substituted run: Ok(Some(tris)) returned, Ok(None) panicked
fn sub<'p, P: PolygonList<'p>>(p: &'p P) -> Result<Option<Vec<[P::Index; 3]>>, String> {
    match guard(|| p.triangulate(formats::IndexedListFormat::<P, Vec<[P::Index; 3]>>::new(vec![]).into_fan_format())) {
        Err(_) => Ok(None),
        Ok(Ok(t)) => Ok(Some(t)),
        Ok(Err(e)) => Err(format!("triangulation of valid input failed: {}", err_text(&e))),
    }
}

/// new index type that refuses one value
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Picky(i64);
thread_local! { static REFUSED: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
impl TryFrom<usize> for Picky {
    type Error = ();
    fn try_from(v: usize) -> Result<Picky, ()> {
        if REFUSED.with(|r| r.get()) == v { Err(()) } else { Ok(Picky(-(v as i64) - 5)) }
    }
}
impl TryFrom<Picky> for usize {
    type Error = ();
    fn try_from(v: Picky) -> Result<usize, ()> { usize::try_from(-v.0 - 5).map_err(|_| ()) }
}

fn verdict<I: Debug>(reg: &Region, what: &str, fits: bool, r: Result<Option<Vec<[I; 3]>>, String>, id: impl Fn(&I) -> Option<u32>, ctx: &mut Ctx) -> Verdict {
    let n = reg.verts.len();
    match (r?, fits) {
        (None, true) => Err(format!("[{what}] panicked although all indices of the {n} vertices fit")),
        (None, false) => {
            ctx.add("refused (panicked)", 1);
            Ok(())
        }
        (Some(_), false) => Err(format!("[{what}] returned although some index of the {n} vertices does not fit the type")),
        (Some(t), true) => {
            let t = dense(reg, t, id).map_err(|m| format!("[{what}] {m}"))?;
            check_mesh(reg, &t).map_err(|m| format!("[{what}] {m}"))?;
            if n < 2000 {
                check_tiling(reg, &t).map_err(|m| format!("[{what}] {m}"))?;
            }
            ctx.add("converted", 1);
            ctx.add("triangles checked", t.len() as u64);
            ctx.sig(mix(hash_polys(&[reg.verts.clone()]), hash_tris(&t)));
            Ok(())
        }
    }
}

fn c16_single(ctx: &mut Ctx) -> Verdict {
    let near = |b: usize, rng: &mut Rng| (b as i64 + rng.range(-2, 2)).max(3) as usize;
    let n = match ctx.rng.below(5) {
        0 => near(256, &mut ctx.rng),
        1 => near(128, &mut ctx.rng),
        2 => near(512, &mut ctx.rng),
        _ => 3 + ctx.rng.below(400),
    };
    let ring = ring_of(&mut ctx.rng, n);
    let polys = vec![ring];
    if !valid(&polys) {
        ctx.inconclusive = true;
        return Ok(());
    }
    let reg = Region::new(&polys);
    let v = to_f64(&polys).remove(0);
    describe(format!("ring of {n} vertices"));
    let c = |k: usize| n <= k;
    verdict(&reg, "u8", c(256), sub(&Polygon::index_with::<u8>(v.clone())), |i| Some(*i as u32), ctx)?;
    verdict(&reg, "i8", c(128), sub(&Polygon::index_with::<i8>(v.clone())), |i| u32::try_from(*i).ok(), ctx)?;
    verdict(&reg, "u16", true, sub(&Polygon::index_with::<u16>(v.clone())), |i| Some(*i as u32), ctx)?;
    verdict(&reg, "i16", true, sub(&Polygon::index_with::<i16>(v.clone())), |i| u32::try_from(*i).ok(), ctx)?;
    verdict(&reg, "u128", true, sub(&Polygon::index_with::<u128>(v.clone())), |i| u32::try_from(*i).ok(), ctx)?;
    verdict(&reg, "u32 then u8", c(256), sub(&Polygon::index_with::<u32>(v.clone()).index_with::<u32, u8>()), |i| Some(*i as u32), ctx)?;
    verdict(&reg, "u8 then u32", c(256), sub(&Polygon::index_with::<u8>(v.clone()).index_with::<u8, u32>()), |i| Some(*i), ctx)?;
    verdict(&reg, "u16, i32, i8", c(128), sub(&Polygon::index_with::<u16>(v.clone()).index_with::<u16, i32>().index_with::<i32, i8>()), |i| u32::try_from(*i).ok(), ctx)?;
    let refuse = if ctx.rng.chance(1, 2) { ctx.rng.below(n) } else { n + ctx.rng.below(5) };
    REFUSED.with(|r| r.set(refuse));
    verdict(&reg, &format!("custom type refusing {refuse}"), refuse >= n, sub(&Polygon::index_with::<Picky>(v.clone())), |i| u32::try_from(-i.0 - 5).ok(), ctx)?;
    // single polygon with its own index type
    let b = Backwards(v.iter().rev().copied().collect());
    verdict(&reg, "NonZeroU32 to u16", true, sub(&Polygon::index_with::<std::num::NonZeroU16>(b)), |i| Some(i.get() as u32 - 1), ctx)?;
    ctx.add("executions", 10);
    Ok(())
}

/// many rings: the first component overflows
fn c16_nested(ctx: &mut Ctx) -> Verdict {
    let (rings, m) = match ctx.rng.below(6) {
        0 => ((256 + ctx.rng.range(-2, 2)) as usize, 3),
        1 => ((128 + ctx.rng.range(-2, 2)) as usize, 3),
        2 => (1 + ctx.rng.below(4), (256 + ctx.rng.range(-2, 2)) as usize),
        3 => (1 + ctx.rng.below(4), (128 + ctx.rng.range(-2, 2)) as usize),
        4 => (1 + ctx.rng.below(300), 3 + ctx.rng.below(5)),
        _ => (1 + ctx.rng.below(3), 3 + ctx.rng.below(280)),
    };
    let mut polys: Polys = (0..rings as i64).map(|k| (0..m as i64).map(|i| [k * (m as i64 + 3) + i, i * i]).collect()).collect();
    // the long ring may be anywhere
    let long = ctx.rng.below(polys.len());
    for (k, p) in polys.iter_mut().enumerate() {
        if k != long && m > 3 && ctx.rng.chance(2, 3) {
            p.truncate(3);
        }
    }
    let longest = polys.iter().map(|p| p.len()).max().unwrap();
    let top = (rings - 1).max(longest - 1);
    let reg = Region::new(&polys);
    let v = to_f64(&polys);
    describe(format!("{rings} rings, longest {longest}"));
    let id = |a: i64, b: i64| -> Option<u32> {
        let (a, b) = (usize::try_from(a).ok()?, usize::try_from(b).ok()?);
        (a < reg.rings.len() && b < reg.rings[a].len()).then(|| (reg.offsets[a] + b) as u32)
    };
    verdict(&reg, "[u8;2]", top < 256, sub(&v.clone().index_with::<usize, u8>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    verdict(&reg, "[i8;2]", top < 128, sub(&v.clone().index_with::<usize, i8>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    verdict(&reg, "[u16;2]", true, sub(&v.clone().index_with::<usize, u16>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    verdict(&reg, "[u32;2] then [u8;2]", top < 256, sub(&v.clone().index_with::<usize, u32>().index_with::<u32, u8>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    verdict(&reg, "[u8;2] then [i16;2]", top < 256, sub(&v.clone().index_with::<usize, u8>().index_with::<u8, i16>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    // tuple shaped indices
    let t2 = Tup(v.clone());
    verdict(&reg, "(u8,u8)", top < 256, sub(&t2.index_with::<usize, u8>()), |i| id(i.0 as i64, i.1 as i64), ctx)?;
    let t3 = Tup3(v.clone());
    let top3 = polys.iter().enumerate().map(|(k, p)| k + p.len() - 1).max().unwrap().max(top);
    verdict(&reg, "(u8,u8,u8)", top3 < 256, sub(&t3.index_with::<usize, u8>()), |i| id(i.0 as i64, i.1 as i64), ctx)?;
    let vv = VecIdx(v.clone());
    verdict(&reg, "Vec<u8>", top < 256, sub(&vv.index_with::<usize, u8>()), |i| id(i[0] as i64, i[1] as i64), ctx)?;
    // the index as a whole, and other shapes
    verdict(&reg, "packed", top < 256, sub(&v.clone().index_with::<[usize; 2], Packed>()), |i| id((i.0 >> 8) as i64, (i.0 & 255) as i64), ctx)?;
    verdict(&reg, "[u8;2] then packed", top < 256, sub(&v.clone().index_with::<usize, u8>().index_with::<[u8; 2], Packed>()), |i| id((i.0 >> 8) as i64, (i.0 & 255) as i64), ctx)?;
    let four = Four(v.clone());
    verdict(&reg, "[u8;4]", top3 < 256, sub(&four.index_with::<usize, u8>()), |i| id(i[1] as i64, i[3] as i64), ctx)?;
    let one = One(v.clone());
    let flat_top = v.iter().map(|r| r.len()).sum::<usize>() - 1;
    verdict(&reg, "[u8;1]", flat_top < 256, sub(&one.index_with::<usize, u8>()), |i| Some(i[0] as u32), ctx)?;
    ctx.add("executions", 12);
    ctx.max("max rings", rings as u64);
    Ok(())
}

fn c16_u16(ctx: &mut Ctx) -> Verdict {
    let n = (65536 + [-1i64, 0, 1, 2, 900][ctx.idx as usize % 5]) as usize;
    let mut ring: Vec<P> = (0..n as i64 - 1).map(|i| [i, 1 + i % 2]).collect();
    ring.push([n as i64 - 2, 0]);
    if ring[0][1] == 0 {
        return Ok(());
    }
    let polys = vec![ring];
    let reg = Region::new(&polys);
    let v = to_f64(&polys).remove(0);
    describe(format!("ring of {n} vertices"));
    verdict(&reg, "u16", n <= 65536, sub(&Polygon::index_with::<u16>(v.clone())), |i| Some(*i as u32), ctx)?;
    verdict(&reg, "u32 then u16", n <= 65536, sub(&Polygon::index_with::<u32>(v.clone()).index_with::<u32, u16>()), |i| Some(*i as u32), ctx)?;
    verdict(&reg, "i32", true, sub(&Polygon::index_with::<i32>(v.clone())), |i| u32::try_from(*i).ok(), ctx)?;
    ctx.add("executions", 3);
    ctx.max("max vertices", n as u64);
    Ok(())
}

macro_rules! tuple_list {
    ($t:ident, $ix:ty, |$r:ident, $i:ident| $mk:expr, |$x:ident| $un:expr) => {
        struct $t(Vec<Vec<[f64; 2]>>);
        impl<'p> PolygonList<'p> for $t {
            type Vertex = [f64; 2];
            type Index = $ix;
            type IntoItem = PolygonElement<$ix>;
            type Iter<'i> = Box<dyn Iterator<Item = PolygonElement<$ix>> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
            fn vertex_count(&self) -> usize { self.0.iter().map(|p| p.len()).sum() }
            fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
                Box::new(self.0.iter().enumerate().flat_map(|($r, p)| (0..p.len()).map(move |$i| PolygonElement::ContinuePolygon($mk)).chain(std::iter::once(PolygonElement::NewPolygon))))
            }
            fn get_vertex<'a>(&'a self, $x: $ix) -> &'a [f64; 2] where 'p: 'a {
                let (r, i): (usize, usize) = $un;
                &self.0[r][i]
            }
        }
    };
}
tuple_list!(Tup, (usize, usize), |r, i| (r, i), |x| x);
tuple_list!(Tup3, (usize, usize, usize), |r, i| (r, i, r + i), |x| { assert!(x.2 == x.0 + x.1, "tvmon: altered index"); (x.0, x.1) });
tuple_list!(VecIdx, Vec<usize>, |r, i| vec![r, i], |x| { assert!(x.len() == 2, "tvmon: altered index"); (x[0], x[1]) });

tuple_list!(Four, [usize; 4], |r, i| [0, r, r + i, i], |x| { assert!(x[0] == 0 && x[2] == x[1] + x[3], "tvmon: altered index"); (x[1], x[3]) });
/// a list whose index is an array of one number, the vertex's position in the whole list
struct One(Vec<Vec<[f64; 2]>>);
impl<'p> PolygonList<'p> for One {
    type Vertex = [f64; 2];
    type Index = [usize; 1];
    type IntoItem = Option<[usize; 1]>;
    type Iter<'i> = Box<dyn Iterator<Item = Option<[usize; 1]>> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.iter().map(|p| p.len()).sum() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        let mut at = 0;
        Box::new(self.0.iter().flat_map(move |p| {
            let from = at;
            at += p.len();
            (from..at).map(|i| Some([i])).chain(std::iter::once(None))
        }))
    }
    fn get_vertex<'a>(&'a self, i: [usize; 1]) -> &'a [f64; 2] where 'p: 'a { self.0.iter().flatten().nth(i[0]).expect("tvmon: altered index") }
}
/// both components in one number, if each fits a byte
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Packed(u16);
macro_rules! packed {
    ($($t:ty)*) => { $(
        impl TryFrom<[$t; 2]> for Packed {
            type Error = ();
            fn try_from(i: [$t; 2]) -> Result<Packed, ()> {
                if i.iter().any(|x| *x as usize > 255) { Err(()) } else { Ok(Packed((i[0] as u16) << 8 | i[1] as u16)) }
            }
        }
        impl TryFrom<Packed> for [$t; 2] {
            type Error = ();
            fn try_from(p: Packed) -> Result<[$t; 2], ()> { Ok([(p.0 >> 8) as $t, (p.0 & 255) as $t]) }
        }
    )* };
}
packed!(usize u8);

// --- C17 ---------------------------------------------------------------------------------------------------------
fn tokens<I: Tok, S: Style<I>>(ctx: &mut Ctx, polys: &Polys, what: &'static str) -> Verdict {
    let reg = Region::new(polys);
    let salt = ctx.rng.next();
    let mut l: Flat<f64, I, S> = Flat::build(polys, salt, |x| x as f64);
    // tokens need not be issued in any particular order relative to their values
    let mut perm: Vec<u32> = (0..l.verts.len() as u32).collect();
    ctx.rng.shuffle(&mut perm);
    let (ov, mut nv) = (l.verts.clone(), l.verts.clone());
    for (i, &p) in perm.iter().enumerate() {
        nv[p as usize] = ov[i];
    }
    l.verts = nv;
    let mut inv = perm.clone();
    for (i, &p) in perm.iter().enumerate() {
        inv[p as usize] = i as u32;
    }
    for it in l.items.iter_mut().flatten() {
        *it = perm[*it as usize];
    }
    let fail = |m: String| format!("[{what}] {}\ninput: {}", l.foreign().unwrap_or(m), show(polys));
    let lookup = |t: &I| t.id(salt).filter(|i| (*i as usize) < l.tokens.len() && l.tokens[*i as usize] == *t).map(|i| inv[i as usize]);
    let res = match ctx.rng.below(4) {
        0 => {
            let lg = log();
            flat_err(guard(|| l.triangulate(Rec::<_, false>::new(&lg, Plan::default())))).map_err(fail)?;
            let evs = lg.borrow();
            // every callback argument, not just the decoded triangles
            for e in evs.iter() {
                let args: Vec<&I> = match e {
                    Ev::Init(t) | Ev::New(t) | Ev::Tri(t) => t.iter().collect(),
                    Ev::Ext(i) => vec![i],
                    _ => vec![],
                };
                if args.iter().any(|a| lookup(a).is_none()) {
                    return Err(fail(format!("the builder was given {e:?}, which the input never issued")));
                }
            }
            decode(&evs).map_err(fail)?
        }
        1 => {
            let fans: Vec<Vec<I>> = flat_err(guard(|| l.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<I>>>::new(vec![])))).map_err(fail)?;
            fans.iter().flat_map(|f| fan_tris(f)).collect()
        }
        2 => {
            let tr = match guard(|| l.trapezoidize()) {
                Ok(Ok(t)) => t,
                Ok(Err(e)) => return Err(fail(format!("trapezoidation of valid input failed: {e}"))),
                Err(p) => return Err(fail(format!("trapezoidation of valid input panicked: {p}"))),
            };
            flat_err(guard(|| tr.triangulate(formats::IndexedListFormat::<_, Vec<[I; 3]>>::new(vec![]).into_fan_format()))).map_err(fail)?
        }
        _ => tri(&l).map_err(fail)?,
    };
    if let Some(m) = l.foreign() {
        return Err(fail(m));
    }
    let t = dense(&reg, res, lookup).map_err(fail)?;
    check_all(&reg, &t).map_err(fail)?;
    ctx.add(what, 1);
    ctx.add("executions", 1);
    ctx.add("tokens looked up", l.lookups.get());
    ctx.add("tokens handed out", 3 * t.len() as u64);
    ctx.sig(mix(hash_polys(polys), hash_tris(&t)));
    Ok(())
}

fn c17_case(ctx: &mut Ctx) -> Verdict {
    let (fam, polys) = geometry(&mut ctx.rng, 150);
    ctx.sample(|| format!("{fam}: {}", show(&polys)));
    tokens::<Sparse, Tagged>(ctx, &polys, "sparse 64-bit tokens")?;
    tokens::<String, Optional>(ctx, &polys, "string tokens")?;
    tokens::<Ident, Tagged>(ctx, &polys, "identity-bearing tokens")?;
    tokens::<Live, Tagged>(ctx, &polys, "heap tokens")?;
    if polys.len() == 1 {
        tokens::<Sparse, Plain>(ctx, &polys, "plain sparse tokens")?;
    }
    // nested custom polygons issue their own numbers
    let reg = Region::new(&polys);
    for r in [18, 19, 20] {
        if let Some((what, res)) = represent(&mut ctx.rng, &polys, &reg, r) {
            let t = res.map_err(|m| format!("[{what}] {m}\ninput: {}", show(&polys)))?;
            check_all(&reg, &t).map_err(|m| format!("[{what}] {m}\ninput: {}", show(&polys)))?;
            ctx.add(what, 1);
        }
    }
    Ok(())
}

pub fn streams(prop: &str, _variant: &str) -> Vec<Stream> {
    match prop {
        #[cfg(feature = "p06")]
        "C06" => vec![stream("repr", c06_case, 12_000, 400_000), stream("long", |c| long(c, c06_case), 2, 200).cpu(60), stream("separators", c06_sparse, 3_000, 60_000), stream("empties", c06_empties, 24, 1_200).stack(512 << 10)],
        #[cfg(feature = "p07")]
        "C07" => vec![stream("reject", c07_case, 20_000, 600_000), stream("accept", c07_accept, 4_000, 100_000), stream("long", c07_long, 400, 8_000)],
        #[cfg(feature = "p16")]
        "C16" => vec![stream("single", c16_single, 2_500, 60_000), stream("nested", c16_nested, 2_000, 50_000), stream("u16", c16_u16, 10, 100)],
        #[cfg(feature = "p17")]
        "C17" => vec![stream("tokens", c17_case, 12_000, 300_000), stream("long", |c| long(c, c17_case), 2, 200).cpu(60)],
        _ => vec![],
    }
}
