//! C01 tiling, C02 mesh, C03 winding, C04 totality, C05 cost: monitors over the shared valid-input workloads.
use crate::common::*;
use crate::coord::{self, Cf};
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::inputs::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use std::collections::HashSet;
use std::sync::OnceLock;
use triangulate::{formats, FanFormat, ListFormat, Polygon, PolygonList};

pub const MIXED: u8 = 0;
pub const DENSE: u8 = 1;
pub const GRID: u8 = 2;
pub const BIG: u8 = 3;
pub const WORLD: u8 = 4;
pub const HOLES: u8 = 5;
pub const GRID4: u8 = 6;
pub const SIZES: u8 = 7;

pub fn grid3() -> &'static Vec<Vec<P>> {
    static G: OnceLock<Vec<Vec<P>>> = OnceLock::new();
    G.get_or_init(|| gen::grid_polygons(3, 3, 9))
}
pub fn grid4() -> &'static Vec<Vec<P>> {
    static G: OnceLock<Vec<Vec<P>>> = OnceLock::new();
    G.get_or_init(|| gen::grid_polygons(4, 3, 8))
}
fn world() -> &'static Vec<(String, Polys)> {
    static G: OnceLock<Vec<(String, Polys)>> = OnceLock::new();
    G.get_or_init(|| gen::world(16))
}

/// (label, geometry, validity already established)
pub fn workload(ctx: &mut Ctx, w: u8) -> Option<(&'static str, Polys, bool)> {
    let rng = &mut ctx.rng;
    Some(match w {
        MIXED => {
            let (f, p) = geometry(rng, 1200);
            (f, p, true)
        }
        DENSE => {
            let f = *rng.pick(&["grow", "twoopt", "polyomino", "star", "ymono", "mountain", "scatter", "rects", "teeth"]);
            let n = 3 + rng.below(14);
            (f, gen::generate(rng, f, n), true)
        }
        GRID => {
            let g = grid3();
            ("grid3x3", vec![g[(ctx.idx % g.len() as u64) as usize].clone()], true)
        }
        GRID4 => {
            let g = grid4();
            // a stride coprime to most lengths spreads a partial pass over the whole list
            ("grid4x3", vec![g[((ctx.idx * 7919) % g.len() as u64) as usize].clone()], true)
        }
        BIG => {
            // sizes around and beyond the 16-bit boundary, also in the number of rings
            match ctx.idx % 13 {
                4 => {
                    let (f, p) = huge(rng);
                    return Some((f, p, false));
                }
                9 if ctx.idx % 39 == 9 => {
                    let n = 4 * (65_540 + rng.below(500));
                    let f = *rng.pick(&["lines", "holes", "skewed"]);
                    return Some((f, gen::ring_sets(rng, f, n), false));
                }
                _ => {}
            }
            let f = gen::BIG[ctx.idx as usize % gen::BIG.len()];
            let top = if ctx.tier == Tier::Quick { 20_000 } else { 100_000 };
            let n = if f == "deep" || f == "lattice" { 200 + rng.below(if ctx.tier == Tier::Quick { 2400 } else { 8000 }) } else { 1000 + rng.below(top - 1000) };
            (f, gen::big(rng, f, n), false)
        }
        WORLD => {
            let g = world();
            if g.is_empty() {
                return None;
            }
            ("world", gen::dress_flip(rng, g[(ctx.idx * 37 % g.len() as u64) as usize].1.clone()), false)
        }
        SIZES => {
            if ctx.idx % 3 == 2 {
                let f = *rng.pick(gen::BIG);
                let n = 300 + rng.below(3700);
                return Some((f, gen::big(rng, f, n), false));
            }
            let (vertices, rings) = if ctx.tier == Tier::Quick { (32_768, 10_000) } else { (65_536, 65_536) };
            let (f, p) = gen::sized(rng, ctx.idx / 3, ctx.idx % 3 == 1, 0, if ctx.idx % 3 == 1 { rings } else { vertices });
            (f, p, false)
        }
        _ => {
            let f = *rng.pick(&["nested", "scatter", "islands", "rects", "pinwheel", "polyomino"]);
            let n = 20 + rng.below(300);
            (f, gen::generate(rng, f, n), true)
        }
    })
}

/// A failed verdict on geometry whose validity was only assumed is discarded if the geometry is in fact invalid
fn settle(polys: &[Vec<P>], known_valid: bool, r: Verdict) -> Verdict {
    r.map_err(|m| format!("{m}\ninput: {}", show(polys))).or_else(|m| if !known_valid && !valid(polys) { Ok(()) } else { Err(m) })
}

pub fn core_case<const K: u8, const W: u8>(ctx: &mut Ctx) -> Verdict {
    let Some((fam, polys, known)) = workload(ctx, W) else { return Ok(()) };
    let n: usize = polys.iter().map(|p| p.len()).sum();
    let r = core_check::<K>(ctx, fam, &polys, n);
    settle(&polys, known, r)
}

fn core_check<const K: u8>(ctx: &mut Ctx, fam: &'static str, polys: &Polys, n: usize) -> Verdict {
    let p = to_f64(polys);
    ctx.add(fam, 1);
    ctx.add(size_class(n), 1);
    ctx.max("max vertices", n as u64);
    ctx.max("max rings", polys.len() as u64);
    let gh = hash_polys(polys);
    if K == 4 {
        let orders = if n < 100 { 12 } else if n < 1000 { 3 } else { 1 };
        for _ in 0..orders {
            let t = tri(&p)?;
            let h = t.iter().fold(1, |h, t| t.iter().fold(h, |h, i| mix(h, (i[0] * 1_000_003 + i[1]) as u64)));
            ctx.sig(mix(gh, h));
            ctx.add("triangles emitted", t.len() as u64);
        }
        ctx.add("executions", orders as u64);
        ctx.sample(|| format!("{fam}: {}", show(polys)));
        return Ok(());
    }
    let reg = Region::new(polys);
    let orders = if n < 40 { 6 } else if n < 300 { 3 } else { 1 };
    for o in 0..orders {
        let fmt = if K == 2 {
            *ctx.rng.pick(&["list-array", "fan", "rec-fan", "rec-list", "rev-fan", "list-flat"])
        } else if K == 3 && n <= 300 {
            FORMATS[(ctx.idx as usize * 7 + o * 11 + ctx.rng.below(FORMATS.len())) % FORMATS.len()]
        } else {
            *ctx.rng.pick(FORMATS)
        };
        let t = run_nested(&reg, &p, fmt).map_err(|m| format!("[{fmt}] {m}"))?;
        ctx.add("executions", 1);
        ctx.add("triangles checked", t.len() as u64);
        match K {
            1 => check_tiling(&reg, &t).map_err(|m| format!("[{fmt}] not an exact tiling: {m}\ntriangles: {}", if t.len() < 200 { format!("{t:?}") } else { "...".into() }))?,
            2 => check_mesh(&reg, &t).map_err(|m| format!("[{fmt}] not a conforming mesh: {m}\ntriangles: {}", if t.len() < 200 { format!("{t:?}") } else { "...".into() }))?,
            _ => {
                let (pos, zero) = check_winding(&reg, &t, is_cw(fmt)).map_err(|m| format!("[{fmt}] {m}"))?;
                ctx.add("triangles with positive area", pos);
                ctx.add("zero-area triangles", zero);
                ctx.add(if is_cw(fmt) { "clockwise outputs" } else { "counter-clockwise outputs" }, 1);
            }
        }
        if n > 3 {
            ctx.sig(mix(mix(gh, hash_tris(&t)), if K == 2 { 0 } else { fmt.len() as u64 + fmt.bytes().next().unwrap() as u64 * 64 }));
        }
        if o == 0 {
            ctx.sample(|| format!("{fam} [{fmt}]: {} -> {} triangles", if n < 60 { show(polys) } else { format!("{n} vertices") }, t.len()));
        }
    }
    Ok(())
}

/// C04 with hardly any stack: recursion proportional to the input would overflow it
pub fn c04_stack(ctx: &mut Ctx) -> Verdict {
    let f = gen::BIG[ctx.idx as usize % gen::BIG.len()];
    let n = match f {
        "deep" => 6000,
        "lattice" => 20_000,
        _ => 60_000,
    };
    let polys = gen::big(&mut ctx.rng, f, n);
    let p = to_f64(&polys);
    ctx.add(f, 1);
    ctx.max("max vertices on a 192 KiB stack", polys.iter().map(|r| r.len() as u64).sum());
    let r = tri(&p).map(|t| {
        ctx.add("triangles emitted", t.len() as u64);
        ctx.add("executions", 1);
        ctx.sig(mix(ctx.seed, t.len() as u64));
    });
    settle(&polys, false, r)
}

/// C04: bounded number of logical steps on small inputs (a silent livelock would exceed the operation budget long before the CPU limit)
pub fn c04_steps(ctx: &mut Ctx) -> Verdict {
    let (fam, polys) = geometry(&mut ctx.rng, 400);
    let n: usize = polys.iter().map(|p| p.len()).sum();
    let l: Flat<Cf, CIdx, Tagged> = Flat::build(&polys, 1, |x| Cf(x as f64));
    for _ in 0..4 {
        coord::reset(20_000 * n as u64 + 200_000);
        let lg = log();
        let r = flat_err(guard(|| l.triangulate(Rec::<_, false>::new(&lg, Plan { max: 4 * n + 16, ..Plan::default() }))));
        ctx.max("max coordinate operations per vertex", coord::OPS.with(|c| c.get()) / n as u64);
        coord::reset(u64::MAX);
        ctx.add("executions", 1);
        ctx.sig(mix(mix(ctx.seed, l.trace.get()), 3));
        if let Err(m) = r {
            return Err(format!("{m}\ninput: {}", show(&polys)));
        }
    }
    ctx.add(fam, 1);
    Ok(())
}

// --- C05 -------------------------------------------------------------------------------------------------------------
#[derive(Default, Clone, Copy, Debug)]
pub struct Cost {
    pub ops: f64,
    pub clones: f64,
    pub lookups: f64,
    pub alloc: f64,
    pub peak: f64,
    pub cpu: f64,
}

fn cost(polys: &Polys, reps: u64) -> Result<Cost, String> { cost_with(polys, &|x| x as f64, reps) }

fn cost_with(polys: &Polys, conv: &dyn Fn(i64) -> f64, reps: u64) -> Result<Cost, String> {
    let n: usize = polys.iter().map(|p| p.len()).sum();
    let l: Flat<Cf, CIdx, Tagged> = Flat::build(polys, 1, |x| Cf(conv(x)));
    let mut c = Cost { cpu: f64::MAX, ..Cost::default() };
    for _ in 0..reps {
        coord::reset(u64::MAX);
        CLONES.with(|c| c.set(0));
        l.lookups.set(0);
        crate::alloc_reset();
        let h0 = crate::held();
        let t0 = thread_cpu_ns();
        let out = tri(&l)?;
        let dt = (thread_cpu_ns() - t0) as f64;
        let a = crate::alloc_bytes();
        c.peak = c.peak.max((crate::peak() - h0) as f64 / n as f64);
        drop(out);
        c.ops += coord::OPS.with(|c| c.get()) as f64 / (n as f64 * reps as f64);
        c.clones += CLONES.with(|c| c.get()) as f64 / (n as f64 * reps as f64);
        c.lookups += l.lookups.get() as f64 / (n as f64 * reps as f64);
        c.alloc += a as f64 / (n as f64 * reps as f64);
        c.cpu = c.cpu.min(dt / n as f64);
    }
    Ok(c)
}

pub fn c05_case(ctx: &mut Ctx) -> Verdict {
    let fams = ["comb", "spiral", "zigzag", "stairs", "mountain", "ymono", "teeth", "parab", "sawconvex", "flatcomb", "walk", "xsorted"];
    let f = fams[ctx.idx as usize % fams.len()];
    let (small, large) = if ctx.tier == Tier::Quick { (1 << 11, 1 << 15) } else { (1 << 12, 1 << 17) };
    let large = if matches!(f, "parab" | "sawconvex" | "mountain") { large.min(90_000) } else { large };
    let make = |n: usize| gen::big_with(&mut ctx.rng.clone(), &mut Rng::new(mix(ctx.seed, 77)), f, n);
    let (a, b) = (make(small), make(large));
    let ca = cost(&a, 6)?;
    let cb = cost(&b, 3)?;
    grown(ctx, f, (ca, cb), (&a, &b), [1.45, 1.6, 1.6, 2.2, 2.2])
}

/// C05: the documented O(n log* n) of a polygon: over six doublings the work per vertex stays practically constant. Families whose vertices
/// are located deep in the query structure, and are alike at every size.
pub fn c05_logstar(ctx: &mut Ctx) -> Verdict {
    let fams = ["comb", "spiral", "teeth", "spiral", "xsorted", "comb"];
    let f = fams[ctx.idx as usize % fams.len()];
    let small = if ctx.tier == Tier::Quick { 1 << 10 } else { 1 << 11 };
    let make = |n: usize| gen::big_with(&mut ctx.rng.clone(), &mut Rng::new(mix(ctx.seed, 77)), f, n);
    let (a, b) = (make(small), make(small << 6));
    let (ca, cb) = (cost(&a, 16)?, cost(&b, 3)?);
    grown(ctx, f, (ca, cb), (&a, &b), [1.24, 1.24, 1.2, 2.2, 2.2])
}

/// cost per vertex at two sizes: each measure may grow by its factor only
fn grown(ctx: &mut Ctx, f: &'static str, (ca, cb): (Cost, Cost), (a, b): (&Polys, &Polys), lim: [f64; 5]) -> Verdict {
    let count = |p: &Polys| p.iter().map(|r| r.len()).sum::<usize>() as f64;
    let (na, nb) = (count(a), count(b));
    if std::env::var_os("TVMON_COST").is_some() {
        eprintln!("{f} {na} {nb} ops {:.1} {:.1} r={:.2} clones {:.1} {:.1} r={:.2} lookups {:.2} {:.2} alloc {:.0} {:.0} r={:.2} cpu {:.0} {:.0} r={:.2}", ca.ops, cb.ops, cb.ops / ca.ops, ca.clones, cb.clones, cb.clones / ca.clones, ca.lookups, cb.lookups, ca.alloc, cb.alloc, cb.alloc / ca.alloc, ca.cpu, cb.cpu, cb.cpu / ca.cpu);
    }
    ctx.add(f, 1);
    ctx.add("executions", 9);
    ctx.max("max vertices", nb as u64);
    ctx.max("max rings", b.len() as u64);
    ctx.max("max coordinate operations per vertex (large)", cb.ops as u64);
    ctx.max("max growth of operations per vertex x100", (100.0 * cb.ops / ca.ops) as u64);
    ctx.max("max growth of allocated bytes per vertex x100", (100.0 * cb.alloc / ca.alloc) as u64);
    ctx.max("max growth of peak memory per vertex x100", (100.0 * cb.peak / ca.peak) as u64);
    ctx.sig(mix(ctx.seed, cb.ops.to_bits()));
    let at = format!("{f}: from {na} to {nb} vertices");
    ctx.sample(|| format!("{at}: coordinate operations per vertex {:.1} -> {:.1}, allocated bytes {:.0} -> {:.0}, peak bytes {:.0} -> {:.0}", ca.ops, cb.ops, ca.alloc, cb.alloc, ca.peak, cb.peak));
    let growth = |what: &str, x: f64, y: f64, lim: f64, floor: f64| -> Verdict {
        if y > floor && y > lim * x { Err(format!("{at}, {what} per vertex grew from {x:.1} to {y:.1} (x{:.2}, limit x{lim})", y / x)) } else { Ok(()) }
    };
    growth("coordinate operations", ca.ops, cb.ops, lim[0], 20.0)?;
    growth("index clones", ca.clones, cb.clones, lim[1], 10.0)?;
    growth("vertex lookups", ca.lookups, cb.lookups, lim[2], 4.0)?;
    growth("allocated bytes", ca.alloc, cb.alloc, lim[3], 200.0)?;
    growth("peak memory", ca.peak, cb.peak, lim[4], 200.0)?;
    if cb.ops > 3000.0 {
        return Err(format!("{at}, {:.0} coordinate operations per vertex", cb.ops));
    }
    Ok(())
}

pub fn c05_sets(ctx: &mut Ctx) -> Verdict {
    let f = gen::SETS[ctx.idx as usize % gen::SETS.len()];
    let (small, large) = if ctx.tier == Tier::Quick { (1 << 11, 1 << 15) } else { (1 << 12, 1 << 17) };
    let make = |n: usize| gen::ring_sets(&mut ctx.rng.clone(), f, n);
    let (a, b) = (make(small), make(large));
    grown(ctx, f, (cost(&a, 6)?, cost(&b, 3)?), (&a, &b), [1.9, 1.9, 1.6, 2.2, 2.2])
}

/// C05 against an adversary who knows the library: it watches in which order an input of some size is inserted, and then places the
/// vertices (or the polygons) of another input of that size so that the same order would be sorted, which is the worst case.
/// Insertion orders that can be known before the call do not protect against quadratic work.
pub fn c05_adaptive(ctx: &mut Ctx) -> Verdict {
    const K: &[&str] = &["learned mountain", "learned column", "learned mountain, upside down", "learned row"];
    let f = K[ctx.idx as usize % K.len()];
    let fresh = ctx.idx / K.len() as u64 % 2 == 0;
    let seed = ctx.seed;
    // ranks: place in the insertion order -> geometry
    let geometry = move |rank: &[usize]| -> Polys {
        let m = rank.len() as i64;
        match f {
            "learned mountain" | "learned mountain, upside down" => {
                let s = if f == "learned mountain" { 1 } else { -1 };
                vec![(0..m).map(|i| [2 * i, if i == 0 || i == m - 1 { -s * (2 + i) } else { s * (1 + rank[i as usize] as i64) }]).collect()]
            }
            "learned column" => rank.iter().map(|&r| vec![[0, 10 * r as i64], [6, 10 * r as i64 + 1], [3, 10 * r as i64 + 7]]).collect(),
            _ => rank.iter().map(|&r| vec![[10 * r as i64, 0], [10 * r as i64 + 6, 1], [10 * r as i64 + 3, 7]]).collect(),
        }
    };
    let items = |n: usize| if f.contains("mountain") { n } else { n / 3 };
    let learn = move |n: usize, seed: u64| -> Result<Vec<usize>, String> {
        let mut rng = Rng::new(seed);
        let mut rank: Vec<usize> = (0..items(n)).collect();
        rng.shuffle(&mut rank);
        let polys = geometry(&rank);
        let l: Flat<Cf, CIdx, Tagged> = Flat::build(&polys, 1, |x| Cf(x as f64));
        *l.history.borrow_mut() = Some(vec![]);
        flat_err(guard(|| l.trapezoidize().map(|_| ()).map_err(triangulate::TriangulationError::<std::fmt::Error>::TrapezoidationError)))?;
        let h = l.history.take().unwrap();
        // by the last time each was looked at
        let per = l.verts.len() / rank.len();
        let mut last = vec![0; rank.len()];
        for (k, id) in h.iter().enumerate() {
            last[*id as usize / per] = k;
        }
        let mut order: Vec<usize> = (0..rank.len()).collect();
        order.sort_by_key(|&i| last[i]);
        for (k, i) in order.into_iter().enumerate() {
            rank[i] = k;
        }
        Ok(rank)
    };
    let attack = |n: usize, reps: u64| -> Result<(Polys, Cost), String> {
        if fresh {
            let on = |k: u64| mix(mix(seed, n as u64), k);
            let rank = std::thread::scope(|s| s.spawn(|| { getrandom::verif_set_seed(on(1)); learn(n, on(3)) }).join().unwrap())?;
            let polys = geometry(&rank);
            let c = std::thread::scope(|s| s.spawn(|| { getrandom::verif_set_seed(on(2)); cost(&polys, reps) }).join().unwrap())?;
            Ok((polys, c))
        } else {
            let polys = geometry(&learn(n, mix(seed, n as u64))?);
            let c = cost(&polys, reps)?;
            Ok((polys, c))
        }
    };
    let (small, large) = if ctx.tier == Tier::Quick { (1 << 11, 1 << 15) } else { (1 << 12, 1 << 16) };
    let (a, b) = (attack(small, 6)?, attack(large, 2)?);
    ctx.add(if fresh { "attacks from another thread" } else { "attacks on the same thread" }, 1);
    grown(ctx, f, (a.1, b.1), (&a.0, &b.0), if f.contains("mountain") { [1.45, 1.6, 1.6, 2.2, 2.2] } else { [1.9, 1.9, 1.6, 2.2, 2.2] })
}

/// A cusp between two inward curves, in floating point: its vertices become visible to each other only a few at a time
pub fn c05_cusp(ctx: &mut Ctx) -> Verdict {
    let pick = |rng: &mut Rng, v: &[f64]| *rng.pick(v);
    let (c, sr, sq) = (pick(&mut ctx.rng, &[0.5, 0.75, 1.0]), pick(&mut ctx.rng, &[1.0, 2.0, 2.5, 3.0, 4.0]), pick(&mut ctx.rng, &[0.1, 0.25, 0.4, 0.5, 1.0]));
    let up = ctx.rng.chance(1, 2);
    let flip = ctx.rng.chance(1, 2);
    let chain = ctx.rng.chance(1, 2);
    let make = |len: f64| -> (Polys, Vec<f64>) {
        let h = |x: f64| (-(c * x)).exp2();
        let mut v: Vec<[f64; 2]> = (0..(len / sr) as usize).map(|i| [i as f64 * sr, h(i as f64 * sr)]).collect();
        v.push([len, 0.0]);
        v.extend((0..(len / sq) as usize).rev().map(|i| [i as f64 * sq, -h(i as f64 * sq)]));
        if chain {
            // a reflex chain in front of it, which every pass over the vertices has to go through as well
            let m = v.len() as i64;
            let last = *v.last().unwrap();
            v.extend((1..=m).map(|i| { let t = i as f64 / m as f64; [last[0] - 2.0 * t + 1.9 * t * (1.0 - t), last[1] - 3.0 * t] }));
            let e = *v.last().unwrap();
            // back to the start along the base
            v.push([e[0] - 50.0, e[1] + 0.25]);
        }
        let table: Vec<f64> = v.iter().flat_map(|p| { let (x, y) = if flip { (-p[0], p[1]) } else { (p[0], p[1]) }; [x, if up { -y } else { y }] }).collect();
        ((0..1).map(|_| (0..v.len() as i64).map(|i| [2 * i, 2 * i + 1]).collect()).collect(), table)
    };
    let (small, large) = (80.0 / c, 900.0 / c);
    let ((a, ta), (b, tb)) = (make(small), make(large));
    let costs = (cost_with(&a, &|i| ta[i as usize], 6)?, cost_with(&b, &|i| tb[i as usize], 3)?);
    grown(ctx, if chain { "cusp behind a chain" } else { "cusp" }, costs, (&a, &b), [1.6, 1.6, 1.6, 2.2, 2.2]).map_err(|m| format!("{m} (cusp: rate {c}, steps {sr} and {sq})"))
}

/// C05 through the plain f64 entry points: CPU time of this thread (work that user-visible operations do not show, such as
/// linear scans or block moves inside the library). Sizes are far enough apart that a quadratic term dominates; the limit is generous
/// because of cache effects, and an excess must reproduce.
pub fn c05_plain(ctx: &mut Ctx) -> Verdict {
    let fams = ["comb", "spiral", "zigzag", "stairs", "mountain", "ymono", "walk", "xsorted"];
    let f = fams[ctx.idx as usize % fams.len()];
    let (s, l) = (1 << 12, 1 << 17);
    let mut t = [f64::MAX; 2];
    let polys = [s, l].map(|n| to_f64(&gen::big_with(&mut ctx.rng.clone(), &mut Rng::new(mix(ctx.seed, 77)), f, n)).remove(0));
    for round in 0..5 {
        for k in 0..2 {
            let p = &polys[k];
            for _ in 0..(if k == 0 { 4 } else { 1 }) {
                let t0 = thread_cpu_ns();
                let r = flat_err(guard(|| Polygon::triangulate(p, formats::IndexedListFormat::<_, Vec<[usize; 3]>>::new(Vec::new()).into_fan_format())))?;
                t[k] = t[k].min((thread_cpu_ns() - t0) as f64 / p.len() as f64);
                ctx.add("triangles emitted", r.len() as u64);
                ctx.add("executions", 1);
            }
        }
        if t[1] <= 6.0 * t[0] || t[1] <= 20_000.0 {
            break;
        }
        ctx.add("timing rounds repeated", 1);
        let _ = round;
    }
    ctx.sig(mix(ctx.seed, 5));
    ctx.max("max CPU ns per vertex (f64)", t[1] as u64);
    ctx.max("max growth of CPU time per vertex x100 (2^12 to 2^17 vertices)", (100.0 * t[1] / t[0]) as u64);
    if t[1] > 6.0 * t[0] && t[1] > 20_000.0 {
        return Err(format!("{f}: CPU time per vertex grew from {:.0} ns at {s} vertices to {:.0} ns at {l}", t[0], t[1]));
    }
    Ok(())
}

/// ... and for nested vectors: many small polygons, few long ones, sets padded with empty polygons
pub fn c05_nested(ctx: &mut Ctx) -> Verdict {
    const K: &[&str] = &["row", "column", "lines", "nested", "holes", "diagonal", "few long rings", "lines, half of them empty"];
    let f = K[ctx.idx as usize % K.len()];
    let (s, l) = (1 << 12, 1 << 17);
    let mut t = [f64::MAX; 2];
    let polys = [s, l].map(|n| {
        let r = &mut ctx.rng.clone();
        match f {
            "few long rings" => {
                let m = n / 8;
                // monotone rings above each other
                to_f64(&(0..8i64).map(|k| { let mut p: Vec<P> = (0..m as i64 - 1).map(|i| [2 * i, 100 * k + 10 + r.range(0, 20)]).collect(); p.push([2 * m as i64 - 4, 100 * k]); p.push([0, 100 * k]); p }).collect::<Polys>())
            }
            "lines, half of them empty" => {
                let mut v = to_f64(&gen::ring_sets(r, "lines", n));
                let mut w = vec![];
                for p in v.drain(..) {
                    w.push(p);
                    w.push(vec![]);
                }
                w
            }
            _ => to_f64(&gen::ring_sets(r, f, n)),
        }
    });
    let count = |p: &Vec<Vec<[f64; 2]>>| p.iter().map(|r| r.len()).sum::<usize>();
    for _ in 0..5 {
        for k in 0..2 {
            let p = &polys[k];
            for _ in 0..(if k == 0 { 4 } else { 1 }) {
                let t0 = thread_cpu_ns();
                let r = flat_err(guard(|| p.triangulate(formats::IndexedListFormat::<_, Vec<[[usize; 2]; 3]>>::new(Vec::new()).into_fan_format()))).map_err(|m| format!("{f}, {} vertices: {m}", count(p)))?;
                t[k] = t[k].min((thread_cpu_ns() - t0) as f64 / count(p) as f64);
                ctx.add("triangles emitted", r.len() as u64);
                ctx.add("executions", 1);
            }
        }
        if t[1] <= 6.0 * t[0] || t[1] <= 20_000.0 {
            break;
        }
        ctx.add("timing rounds repeated", 1);
    }
    if std::env::var_os("TVMON_COST").is_some() {
        eprintln!("{f} cpu {:.0} {:.0} x{:.2}", t[0], t[1], t[1] / t[0]);
    }
    ctx.add(f, 1);
    ctx.sig(mix(ctx.seed, 6));
    ctx.max("max rings (f64)", polys[1].len() as u64);
    ctx.max("max growth of CPU time per vertex x100 (2^12 to 2^17 vertices)", (100.0 * t[1] / t[0]) as u64);
    if t[1] > 6.0 * t[0] && t[1] > 20_000.0 {
        return Err(format!("{f}: CPU time per vertex grew from {:.0} ns at {} vertices to {:.0} ns at {}", t[0], count(&polys[0]), t[1], count(&polys[1])));
    }
    Ok(())
}

/// C03: declared winding of nested wrappers is what the triangles show, also in the two-step route
pub fn c03_nest(ctx: &mut Ctx) -> Verdict {
    let (_, polys) = geometry(&mut ctx.rng, 120);
    let reg = Region::new(&polys);
    let p = to_f64(&polys);
    let tr = match guard(|| p.trapezoidize()) {
        Ok(Ok(t)) => t,
        _ => return Err(format!("trapezoidation of valid input failed\ninput: {}", show(&polys))),
    };
    macro_rules! chk {
        ($e:expr, $cw:expr, $what:expr) => {{
            let t: Vec<[[usize; 2]; 3]> = flat_err(guard(|| tr.triangulate($e))).map_err(|m| format!("[{}] {m}\ninput: {}", $what, show(&polys)))?;
            let t = nested_ids(&reg, &t)?;
            check_winding(&reg, &t, $cw).map_err(|m| format!("[{}] {m}\ninput: {}", $what, show(&polys)))?;
            ctx.add("executions", 1);
            ctx.add("triangles checked", t.len() as u64);
            t
        }};
    }
    type L<'p> = formats::IndexedListFormat<'p, Vec<Vec<[f64; 2]>>, Vec<[[usize; 2]; 3]>>;
    let a = chk!(L::new(vec![]).into_fan_format(), false, "list");
    let b = chk!(L::new(vec![]).into_fan_format().reverse_winding(), true, "reversed");
    let c = chk!(L::new(vec![]).into_fan_format().reverse_winding().reverse_winding(), false, "reversed twice");
    let d = chk!(L::new(vec![]).into_fan_format().reverse_winding().reverse_winding().reverse_winding(), true, "reversed three times");
    let (a, b, c, d) = (canon(&a), canon(&flip(&b)), canon(&c), canon(&flip(&d)));
    if a != b || a != c || a != d {
        return Err(format!("reversing the winding changed the triangles themselves\ninput: {}", show(&polys)));
    }
    ctx.sig(mix(hash_polys(&polys), hash_tris(&a)));
    Ok(())
}

/// C03: input rings listed in opposite directions give the same output winding
pub fn c03_dirs(ctx: &mut Ctx) -> Verdict {
    let (_, mut polys) = geometry(&mut ctx.rng, 100);
    for dir in 0..2 {
        for r in polys.iter_mut() {
            if (area2(r) > 0) != (dir == 0) {
                r.reverse();
            }
        }
        let reg = Region::new(&polys);
        let p = to_f64(&polys);
        for fmt in ["fan", "rev-fan", "rec-fan-cw", "list-array", "rec-list-cw", "rev-rec-list-cw", "rev-delimited", "dfan"] {
            let t = run_nested(&reg, &p, fmt).and_then(|t| check_winding(&reg, &t, is_cw(fmt)).map(|_| t)).map_err(|m| format!("[{fmt}] {m}\ninput: {}", show(&polys)))?;
            ctx.add("executions", 1);
            ctx.sig(mix(hash_polys(&polys), hash_tris(&t)));
        }
    }
    Ok(())
}

/// Tiny sets under (practically) all insertion orders: eight times as many calls as the set has orders. The orders met are counted by the
/// sequence of vertex lookups.
pub fn core_orders<const K: u8>(ctx: &mut Ctx) -> Verdict {
    let top = if ctx.tier == Tier::Quick { 6 + (ctx.idx % 8 == 7) as usize } else { 7 + (ctx.idx % 8 == 7) as usize };
    let rng = &mut ctx.rng;
    let polys: Polys = match ctx.idx % 4 {
        0 | 1 => {
            let g = grid3();
            let mut k = rng.below(g.len());
            while g[k].len() > top {
                k = rng.below(g.len());
            }
            vec![g[k].clone()]
        }
        2 => {
            let f = *rng.pick(&["grow", "twoopt", "star", "ymono", "mountain"]);
            let n = 4 + rng.below(top - 3);
            gen::generate(rng, f, n)
        }
        _ => {
            // a triangle within, above, beside another one
            let (dx, dy) = *rng.pick(&[(0, 0), (0, 40), (40, 0), (40, 13), (-40, 7), (0, 30)]);
            let a: Vec<P> = vec![[-9 - rng.range(0, 9), -9 - rng.range(0, 3)], [12 + rng.range(0, 5), -9 - rng.range(0, 3)], [rng.range(-2, 2), 12 + rng.range(0, 4)]];
            let b: Vec<P> = vec![[dx - rng.range(1, 3), dy + rng.range(-2, 0)], [dx + rng.range(1, 3), dy + rng.range(-2, 0)], [dx + rng.range(-1, 1), dy + rng.range(1, 3)]];
            let mut v = vec![a, b];
            if rng.chance(1, 2) {
                v.reverse();
            }
            v
        }
    };
    if polys.iter().map(|r| r.len()).sum::<usize>() > top || !valid(&polys) {
        return Ok(());
    }
    let reg = Region::new(&polys);
    let fact = |n: usize| (1..=n as u64).product::<u64>();
    let all: u64 = polys.iter().map(|r| fact(r.len())).product::<u64>() * fact(polys.len());
    let l: Flat<f64, u32, Tagged> = Flat::build(&polys, ctx.seed, |x| x as f64);
    let (mut orders, mut results) = (HashSet::new(), HashSet::new());
    let fmts: &[&str] = if K == 3 { FORMATS } else { &["list-array", "fan", "rev-fan", "list-flat"] };
    let n = reg.verts.len() as u32;
    let map = vertex_ids(&reg);
    for k in 0..8 * all as usize {
        let fmt = fmts[k % fmts.len()];
        *l.history.borrow_mut() = Some(vec![]);
        let t = run_format(&Src::Direct(&l), fmt, u32::MAX, &|i: &u32| Some(*i).filter(|i| *i < n), &nested_vid(&map)).map_err(|m| format!("[{fmt}] {m}\ninput: {}", show(&polys)))?;
        orders.insert(l.history.take().unwrap().iter().fold(1, |h, i| mix(h, *i as u64)));
        let t = if is_cw(fmt) && K != 3 { flip(&t) } else { t };
        if results.insert(hash_tris(&t)) || k < 64 {
            match K {
                1 => check_tiling(&reg, &t),
                2 => check_mesh(&reg, &t),
                3 => check_winding(&reg, &t, is_cw(fmt)).map(|_| ()),
                _ => Ok(()),
            }
            .map_err(|m| format!("[{fmt}] {m}\ntriangles: {t:?}\ninput: {}", show(&polys)))?;
        }
    }
    let gh = hash_polys(&polys);
    for h in &results {
        ctx.sig(mix(gh, *h));
    }
    ctx.add("sets run under all insertion orders", 1);
    ctx.add("executions", 8 * all);
    ctx.add("orders met (told apart by lookups)", orders.len() as u64);
    ctx.add("results met", results.len() as u64);
    ctx.max("most orders of one set", orders.len() as u64);
    Ok(())
}

pub fn streams(prop: &str, variant: &str) -> Vec<Stream> {
    let checked = variant == "checked";
    match prop {
        #[cfg(feature = "p01")]
        "C01" => vec![
            stream("mixed", core_case::<1, MIXED>, 12_000, 400_000),
            stream("dense", core_case::<1, DENSE>, 8_000, 300_000),
            stream("holes", core_case::<1, HOLES>, 2_500, 60_000),
            stream("grid", core_case::<1, GRID>, 4_000, 60_000),
            stream("grid4", core_case::<1, GRID4>, 6_000, 200_000),
            stream("big", core_case::<1, BIG>, 42, 700),
            stream("orders", core_orders::<1>, 200, 6_000),
            stream("sizes", core_case::<1, SIZES>, 210, 12_000),
            stream("world", core_case::<1, WORLD>, 30, 900),
        ],
        #[cfg(feature = "p02")]
        "C02" => vec![
            stream("mixed", core_case::<2, MIXED>, 12_000, 400_000),
            stream("dense", core_case::<2, DENSE>, 8_000, 300_000),
            stream("holes", core_case::<2, HOLES>, 2_500, 60_000),
            stream("grid", core_case::<2, GRID>, 4_000, 60_000),
            stream("grid4", core_case::<2, GRID4>, 6_000, 200_000),
            stream("big", core_case::<2, BIG>, 42, 700),
            stream("orders", core_orders::<2>, 200, 6_000),
            stream("sizes", core_case::<2, SIZES>, 210, 12_000),
            stream("world", core_case::<2, WORLD>, 30, 900),
        ],
        #[cfg(feature = "p03")]
        "C03" => vec![
            stream("mixed", core_case::<3, MIXED>, 10_000, 300_000),
            stream("dense", core_case::<3, DENSE>, 6_000, 200_000),
            stream("holes", core_case::<3, HOLES>, 2_000, 40_000),
            stream("grid", core_case::<3, GRID>, 3_000, 60_000),
            stream("grid4", core_case::<3, GRID4>, 5_000, 150_000),
            stream("nest", c03_nest, 4_000, 100_000),
            stream("dirs", c03_dirs, 2_000, 60_000),
            stream("big", core_case::<3, BIG>, 28, 400),
            stream("orders", core_orders::<3>, 200, 6_000),
            stream("sizes", core_case::<3, SIZES>, 210, 9_000),
            stream("world", core_case::<3, WORLD>, 20, 500),
        ],
        #[cfg(feature = "p04")]
        "C04" if checked => vec![
            stream("mixed", core_case::<4, MIXED>, 3_000, 60_000),
            stream("dense", core_case::<4, DENSE>, 4_000, 120_000),
            stream("holes", core_case::<4, HOLES>, 800, 10_000),
            stream("grid", core_case::<4, GRID>, 2_000, 20_000),
            stream("grid4", core_case::<4, GRID4>, 3_000, 60_000),
        ],
        #[cfg(feature = "p04")]
        "C04" => vec![
            stream("mixed", core_case::<4, MIXED>, 12_000, 400_000),
            stream("dense", core_case::<4, DENSE>, 10_000, 300_000),
            stream("holes", core_case::<4, HOLES>, 2_500, 60_000),
            stream("grid", core_case::<4, GRID>, 4_000, 60_000),
            stream("grid4", core_case::<4, GRID4>, 6_000, 200_000),
            stream("steps", c04_steps, 4_000, 100_000),
            stream("orders", core_orders::<4>, 200, 6_000),
            stream("big", core_case::<4, BIG>, 42, 700),
            stream("sizes", core_case::<4, SIZES>, 300, 15_000),
            stream("world", core_case::<4, WORLD>, 60, 1500),
            stream("stack", c04_stack, 42, 280).stack(192 << 10),
        ],
        #[cfg(feature = "p05")]
        "C05" => vec![
            stream("cost", c05_case, 36, 240).cpu(60),
            stream("logstar", c05_logstar, 30, 200).cpu(60),
            stream("sets", c05_sets, 48, 240).cpu(60),
            stream("adaptive", c05_adaptive, 16, 160).cpu(60),
            stream("cusp", c05_cusp, 40, 400).cpu(60),
            stream("plain", c05_plain, 16, 64).solo().cpu(60),
            stream("nested", c05_nested, 16, 64).solo().cpu(60),
        ],
        _ => vec![],
    }
}
