//! C19: input which does not meet the preconditions still gets an answer.
use crate::common::*;
use crate::coord::{self, Cf};
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::inputs::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use triangulate::{ListFormat, PolygonList, TrapezoidationError, TriangulationError};

/// operations granted per vertex: twenty times what terminating calls were seen to need
fn budget(n: usize) -> u64 { 5_000 * (n as u64 + 4) }

/// A few calls on arbitrary coordinates: each must return, soon, without unwinding, and speak of the input's own vertices only.
/// `xs[k]` are the coordinates denoted by the integers of `polys`.
fn answer(ctx: &mut Ctx, polys: &Polys, conv: &dyn Fn(i64) -> f64, calls: usize) -> Verdict {
    let salt = ctx.rng.next();
    let l: Flat<Cf, CIdx, Tagged> = Flat::build(polys, salt, |x| Cf(conv(x)));
    let n = l.verts.len();
    answer_of(ctx, &l, n, calls, &|i| i.id(salt).map_or(false, |i| (i as usize) < n))
}

/// `n` vertices are issued by `l`; `issued` tells whether an index is one of them
fn answer_of<'p, L: PolygonList<'p>>(ctx: &mut Ctx, l: &'p L, n: usize, calls: usize, issued: &dyn Fn(&L::Index) -> bool) -> Verdict
where
    L::Index: std::fmt::Debug,
{
    ctx.max("max vertices", n as u64);
    for k in 0..calls {
        coord::reset(budget(n));
        let lg = log();
        let plan = Plan { max: 20 * n + 20, ..Plan::default() };
        // the two-step route shares everything but the entry point
        let r = match (k + ctx.idx as usize) % 4 {
            0 => guard(|| l.triangulate(Rec::<_, false>::new(&lg, plan)).map_err(|e| class(&e))),
            1 => guard(|| l.triangulate(Rec::<_, true>::new(&lg, plan)).map_err(|e| class(&e))),
            2 => guard(|| l.triangulate(RecList::<_, false>::new(&lg, plan).into_fan_format()).map_err(|e| class(&e))),
            _ => guard(|| {
                let t = l.trapezoidize().map_err(|e| match e { TrapezoidationError::InternalError(_) => "internal error of trapezoidation", _ => "degenerate count" })?;
                t.triangulate(Rec::<_, false>::new(&lg, plan)).map_err(|e| class(&e))
            }),
        };
        let ops = coord::OPS.with(|c| c.get());
        coord::reset(u64::MAX);
        let r = r.map_err(|m| if m.contains(coord::BUDGET_MSG) { format!("no answer within {} coordinate operations for {n} vertices", budget(n)) } else { format!("unwound instead of answering: {m}") })?;
        ctx.max("max coordinate operations per vertex", ops / (n as u64 + 4));
        ctx.add("executions", 1);
        let mut tris = 0u64;
        for e in lg.borrow().iter() {
            let ids: Vec<&L::Index> = match e { Ev::Init(t) | Ev::New(t) => t.iter().collect(), Ev::Ext(v) => vec![v], _ => continue };
            tris += 1;
            if let Some(i) = ids.iter().find(|i| !issued(i)) {
                return Err(format!("an index was handed out which the input never issued: {i:?}"));
            }
        }
        match r {
            Ok(_) => ctx.add("answered with a triangulation", 1),
            Err("builder") => return Err(format!("runaway output: more than {} callbacks for {n} vertices", 20 * n + 20)),
            Err(c) => ctx.add(c, 1),
        }
        ctx.add("triangles emitted", tris);
        ctx.max("max triangles per vertex x100", 100 * tris / (n as u64 + 1));
        ctx.sig(mix(mix(ctx.seed, tris), ops));
    }
    Ok(())
}

/// rings given as indices into one vertex array, as meshes are: nothing keeps them from naming a vertex twice
struct Mesh {
    v: Vec<[Cf; 2]>,
    items: Vec<Option<CIdx>>,
}
impl<'p> PolygonList<'p> for Mesh {
    type Vertex = [Cf; 2];
    type Index = CIdx;
    type IntoItem = Option<CIdx>;
    type Iter<'i> = std::iter::Cloned<std::slice::Iter<'i, Option<CIdx>>> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.items.iter().flatten().count() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i { self.items.iter().cloned() }
    fn get_vertex<'a>(&'a self, i: CIdx) -> &'a [Cf; 2] where 'p: 'a {
        coord::tick();
        &self.v[i.0 as usize]
    }
}

/// lists which issue the same index several times, in one ring or in several
fn c19_mesh(ctx: &mut Ctx) -> Verdict {
    let r = &mut ctx.rng;
    let pts = match r.below(4) { 0 => 3 + r.below(4), 1 | 2 => 4 + r.below(12), _ => 10 + r.below(60) };
    let grid = r.chance(1, 3);
    let w = r.range(2, 40);
    let v: Vec<P> = if grid { (0..pts as i64).map(|_| [r.range(0, 3), r.range(0, 3)]).collect() } else { (0..pts as i64).map(|_| [r.range(-w, w), r.range(-w, w)]).collect() };
    let mut items: Vec<Option<CIdx>> = vec![];
    let mode = r.below(4);
    for k in 0..(1 + r.below(3)) {
        if k > 0 {
            items.push(None);
        }
        match mode {
            // any sequence
            0 | 1 => { let n = 3 + r.below(pts + 3); items.extend((0..n).map(|_| Some(CIdx(r.below(pts) as u32)))); }
            // the array in order with a few vertices named again
            2 => {
                let mut s: Vec<u32> = (0..pts as u32).collect();
                for _ in 0..1 + r.below(3) {
                    let (at, what) = (r.below(s.len() + 1), r.below(pts) as u32);
                    s.insert(at, what);
                }
                items.extend(s.into_iter().map(|i| Some(CIdx(i))));
            }
            // the same ring again, turned or reversed
            _ => {
                let mut s: Vec<u32> = (0..pts as u32).collect();
                s.rotate_left(r.below(pts));
                if r.chance(1, 2) { s.reverse() }
                items.extend(s.into_iter().map(|i| Some(CIdx(i))));
            }
        }
    }
    let n = items.iter().flatten().count();
    describe(format!("vertices {v:?}, rings {:?}", items.iter().map(|i| i.as_ref().map(|i| i.0)).collect::<Vec<_>>()));
    let m = Mesh { v: v.iter().map(|p| [Cf(p[0] as f64), Cf(p[1] as f64)]).collect(), items };
    ctx.add(["any sequence", "any sequence", "vertices named again", "rings named again"][mode], 1);
    answer_of(ctx, &m, n, 8, &|i| (i.0 as usize) < pts)
}

fn class<E: std::error::Error>(e: &TriangulationError<E>) -> &'static str {
    match e {
        TriangulationError::TrapezoidationError(TrapezoidationError::InternalError(_)) => "internal error of trapezoidation",
        TriangulationError::TrapezoidationError(_) => "degenerate count",
        TriangulationError::InternalError(_) => "internal error of triangulation",
        TriangulationError::FanBuilder(_) => "builder",
        _ => "degenerate count",
    }
}

/// random walks, perturbed, overlapping and touching rings on coarse and fine grids
fn c19_garbage(ctx: &mut Ctx) -> Verdict {
    let n = match ctx.rng.below(8) { 0 => 3 + ctx.rng.below(400), 1 | 2 => 3 + ctx.rng.below(100), _ => 3 + ctx.rng.below(24) };
    let g = gen::garbage(&mut ctx.rng, n);
    describe(show(&g));
    answer(ctx, &g, &|x| x as f64, 8)
}

/// every closed sequence of up to five vertices of the 3x3 grid, longer ones and pairs of rings sampled
fn c19_walks(ctx: &mut Ctx) -> Verdict {
    let total = [729u64, 6561, 59049];
    let mut i = ctx.idx;
    let mut ring: Option<Vec<P>> = None;
    // a stride coprime to powers of three spreads a partial pass over all sequences
    for (k, t) in total.iter().enumerate() {
        if i < *t {
            let mut c = (i * 7919) % t;
            ring = Some((0..k + 3).map(|_| { let v = [(c % 3) as i64, (c / 3 % 3) as i64]; c /= 9; v }).collect());
            break;
        }
        i -= t;
    }
    ctx.add(if ring.is_some() { "enumerated rings" } else { "sampled rings" }, 1);
    let g: Polys = match ring {
        Some(r) => vec![r],
        None => {
            let w = ctx.rng.range(1, 4);
            (0..1 + ctx.rng.below(3)).map(|_| (0..3 + ctx.rng.below(6)).map(|_| [ctx.rng.range(0, w), ctx.rng.range(0, 2)]).collect()).collect()
        }
    };
    describe(show(&g));
    answer(ctx, &g, &|x| x as f64, 6)
}

/// valid shapes in coordinates which round: rotated, scaled, shifted so that orientations are decided by rounding errors
fn c19_rounding(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = 4 + ctx.rng.below(150);
    let polys = gen::generate(&mut ctx.rng, f, n);
    let n: usize = polys.iter().map(|p| p.len()).sum();
    let mode = ctx.rng.below(4);
    let a = ctx.rng.below(1 << 20) as f64 / 1e5;
    let off = *ctx.rng.pick(&[0.0, 1e9, 1e12, 1e15, -4e15, 3e16, 1e17]);
    let scale = *ctx.rng.pick(&[1.0, 0.1, 1e-8, 1e8, 1e-300, 1e150, 1e300]);
    let (s, c) = (a.sin(), a.cos());
    // vertex k is encoded as (2k, 2k+1); the table holds its actual coordinates
    let mut table: Vec<f64> = vec![];
    let mut k = 0;
    let enc: Polys = polys.iter().map(|r| r.iter().map(|v| {
        let (x, y) = (v[0] as f64, v[1] as f64);
        let (x, y) = match mode { 0 => (c * x - s * y, s * x + c * y), 1 => (x * scale, y * scale), 2 => (x + off, y * 0.3 + off), _ => ((c * x - s * y) * scale + off, (s * x + c * y) * scale) };
        table.extend([x, y]);
        k += 2;
        [k - 2, k - 1]
    }).collect()).collect();
    describe(format!("{n} vertices of {f}, rounding mode {mode} angle {a} offset {off} scale {scale}: {}", if n < 40 { format!("{table:?}") } else { "...".into() }));
    ctx.add(["rotated", "scaled", "shifted", "rotated, scaled and shifted"][mode], 1);
    answer(ctx, &enc, &|i| table[i as usize], 4)
}

/// NaN, infinities, signed zeros and extreme magnitudes among the coordinates
fn c19_special(ctx: &mut Ctx) -> Verdict {
    let n = 3 + ctx.rng.below(40);
    let g = if ctx.rng.chance(1, 2) { gen::garbage(&mut ctx.rng, n) } else { let f = *ctx.rng.pick(gen::FAMILIES); gen::generate(&mut ctx.rng, f, n) };
    let pool: &[f64] = match ctx.rng.below(4) {
        0 => &[f64::INFINITY, f64::NEG_INFINITY],
        1 => &[f64::MAX, f64::MIN, f64::MIN_POSITIVE, -0.0],
        2 => &[f64::NAN],
        _ => &[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324],
    };
    let rate = 1 + ctx.rng.below(30);
    let mut table: Vec<f64> = vec![];
    let mut k = 0;
    let mut r = Rng::new(ctx.rng.next());
    let enc: Polys = g.iter().map(|p| p.iter().map(|v| {
        for c in v { table.push(if r.chance(1, rate) { *r.pick(pool) } else { *c as f64 }); }
        k += 2;
        [k - 2, k - 1]
    }).collect()).collect();
    describe(format!("rings of {:?} vertices, coordinates {table:?}", g.iter().map(|p| p.len()).collect::<Vec<_>>()));
    answer(ctx, &enc, &|i| table[i as usize], 6)
}

/// long garbage: large shapes damaged in a few or in many places, long random walks and sorted sequences
fn c19_long(ctx: &mut Ctx) -> Verdict {
    let n = 500 + ctx.rng.below(if ctx.tier == Tier::Quick { 4000 } else { 20_000 });
    let r = &mut ctx.rng;
    let mode = r.below(6);
    let mut g: Polys = match mode {
        0 => vec![{ let w = *r.pick(&[10, 300, 100_000]); (0..n).map(|_| [r.range(0, w), r.range(0, w)]).collect() }],
        1 => {
            // a walk of short steps crosses itself often
            let mut at = [0i64, 0];
            vec![(0..n).map(|_| { at = [at[0] + r.range(-3, 3), at[1] + r.range(-3, 3)]; at }).collect()]
        }
        2 => {
            let (a, b) = (*r.pick(gen::BIG), *r.pick(gen::BIG));
            let mut p = gen::big(r, a, n / 2);
            p.extend(gen::big(r, b, n / 2));
            p
        }
        _ => { let f = *r.pick(gen::BIG); gen::big(r, f, n) }
    };
    if mode > 2 {
        let hits = *r.pick(&[1, 2, 10, n / 10]);
        for _ in 0..hits {
            let i = r.below(g.len());
            let (a, b) = (r.below(g[i].len()), r.below(g[i].len()));
            match mode {
                3 => g[i].swap(a, b),
                4 => g[i][a] = g[i][b],
                _ => { let v = &mut g[i][a]; *v = [v[0] + r.range(-9, 9), v[1] + r.range(-9, 9)]; }
            }
        }
    }
    describe(format!("{} vertices, mode {mode}", g.iter().map(|p| p.len()).sum::<usize>()));
    answer(ctx, &g, &|x| x as f64, 2)
}

pub fn streams(prop: &str, _variant: &str) -> Vec<Stream> {
    match prop {
        "C19" => vec![
            stream("garbage", c19_garbage, 20_000, 400_000),
            stream("walks", c19_walks, 30_000, 400_000),
            stream("rounding", c19_rounding, 6_000, 200_000),
            stream("special", c19_special, 12_000, 300_000),
            stream("mesh", c19_mesh, 30_000, 600_000),
            stream("long", c19_long, 600, 20_000).stack(192 << 10),
        ],
        _ => vec![],
    }
}
