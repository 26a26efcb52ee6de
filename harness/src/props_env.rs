//! C12 memory and drop safety, C13 coordinate types, C14 isolation, C18 debugging feature.
use crate::common::*;
use crate::coord::{self, Cf, Ex, Wild};
use crate::formats::*;
use crate::gen;
use crate::geom::*;
use crate::inputs::*;
use crate::oracle::*;
use crate::rng::{mix, Rng};
use crate::runner::*;
use num_traits::real::Real;
use std::cell::RefCell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use triangulate::{formats, FanBuilder, FanFormat, ListFormat, Polygon, PolygonList, Trapezoidation, TriangulationError};

// --- C12 ---------------------------------------------------------------------------------------------------------
/// user collection that panics at some push
struct BombList<V>(Vec<V>, usize);
impl<V> triangulate::List<V> for BombList<V> {
    fn push(&mut self, a: V, b: V, c: V) {
        self.0.push(a);
        if self.1 == 0 {
            panic!("{}", coord::BOMB_MSG);
        }
        self.1 -= 1;
        self.0.push(b);
        self.0.push(c);
    }
    fn len(&self) -> usize { self.0.len() / 3 }
    fn truncate(&mut self, n: usize) { self.0.truncate(3 * n) }
}

fn small(n: usize) -> usize { if cfg!(miri) { n.min(9) } else { n } }

/// One unit of use of the safe API with heap-owning, instance-counted index tokens; everything it creates is dropped on return.
/// Returns what happened, for the record.
fn exercise<C: Real + Debug + 'static>(rng: &mut Rng, polys: &[Vec<P>], conv: &dyn Fn(&mut Rng, i64) -> C, hostile: bool) -> &'static str {
    let salt = rng.next();
    let r = RefCell::new(rng.clone());
    let mut l: Flat<C, Live, Tagged> = Flat::build(polys, salt, |x| conv(&mut r.borrow_mut(), x));
    *rng = r.into_inner();
    if rng.chance(1, 3) {
        l = l.add_separators(rng);
    }
    if hostile && rng.chance(1, 3) {
        l.lie_rate = 1 + rng.below(200) as u64;
    }
    if hostile && rng.chance(1, 3) {
        l.count_lie = rng.range(-(polys.iter().map(|p| p.len()).sum::<usize>() as i64), 40) as isize;
    }
    if hostile && rng.chance(1, 5) && !l.items.is_empty() {
        // the same vertex issued several times
        let k = rng.below(l.items.len());
        let j = rng.below(l.items.len());
        l.items[k] = l.items[j];
    }
    let nv = l.verts.len();
    let budget = if hostile { 4_000 * (nv as u64 + 4) } else { u64::MAX };
    let delim = Live::make(u32::MAX, !salt);
    let id = |i: &Live| i.id(salt);
    let vid = |_: &[C; 2]| Some(0u32);
    coord::reset(budget);
    let what = match rng.below(9) {
        0 => {
            let f = *rng.pick(FORMATS);
            let ok = guard(|| run_format(&Src::Direct(&l), f, delim.clone(), &id, &vid));
            if matches!(ok, Ok(Ok(_))) { "call returned" } else { "call failed" }
        }
        1 => {
            // one trapezoidation, several formats
            match guard(|| l.trapezoidize()) {
                Ok(Ok(t)) => {
                    for _ in 0..3 {
                        let f = *rng.pick(FORMATS);
                        coord::reset(budget);
                        let _ = guard(|| run_format(&Src::Trap(&t), f, delim.clone(), &id, &vid));
                    }
                    "two-step calls"
                }
                _ => "trapezoidation failed",
            }
        }
        2 | 3 => {
            // a coordinate operation, comparison, lookup, clone or iteration step panics
            let probe = {
                let _ = guard(|| l.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<Live>>>::new(vec![])).map(|_| ()));
                coord::OPS.with(|c| c.get())
            };
            coord::reset(budget);
            coord::BOMB.with(|b| b.set(rng.below(probe.max(1) as usize + 8) as u64));
            let mut out: Vec<[Live; 3]> = vec![];
            let r = if rng.chance(1, 2) {
                guard(|| l.triangulate(formats::IndexedListFormat::new(&mut out).into_fan_format()).map(|_| ()).map_err(|e| err_text(&e)))
            } else {
                guard(|| {
                    let t = l.trapezoidize().map_err(|_| String::new())?;
                    t.triangulate(formats::DelimitedFanFormat::<_, Vec<Live>>::new(vec![], delim.clone())).map(|_| ()).map_err(|e| err_text(&e))
                })
            };
            coord::reset(u64::MAX);
            drop(out);
            if r.is_err() { "unwound by an operation" } else { "operation bomb not reached" }
        }
        4 => {
            let lg = log();
            let k = rng.below(nv + 3);
            let plan = Plan { panic_at: Some(k), max: 20 * nv + 20, ..Plan::default() };
            let r = guard(|| match rng.below(4) {
                0 => l.triangulate(Rec::<_, false>::new(&lg, plan)).map_err(|e| err_text(&e)),
                1 => l.triangulate(Rec::<_, true>::new(&lg, plan).reverse_winding()).map_err(|e| err_text(&e)),
                2 => l.triangulate(RecList::<_, false>::new(&lg, plan).into_fan_format()).map_err(|e| err_text(&e)),
                _ => l.triangulate(RecList::<_, true>::new(&lg, plan).into_fan_format().reverse_winding()).map_err(|e| err_text(&e)),
            });
            if r.is_err() { "unwound by a builder callback" } else { "callback bomb not reached" }
        }
        5 => {
            let lg = log();
            let plan = Plan { fail_at: Some(rng.below(nv + 3)), fail_build: rng.chance(1, 3), max: 20 * nv + 20, ..Plan::default() };
            let _ = guard(|| match rng.below(2) {
                0 => l.triangulate(Rec::<_, false>::new(&lg, plan)).map_err(|e| err_text(&e)),
                _ => l.triangulate(RecList::<_, false>::new(&lg, plan).into_fan_format()).map_err(|e| err_text(&e)),
            });
            "failing builder"
        }
        6 => {
            let mut c = BombList(vec![], rng.below(nv + 2));
            let _ = guard(|| l.triangulate(formats::IndexedListFormat::new(&mut c).into_fan_format()).map(|_| ()).map_err(|e| err_text(&e)));
            drop(c);
            "panicking collection"
        }
        7 => {
            // delimiter equal to an index: refused in the middle
            if nv > 0 {
                let d = l.tokens[rng.below(nv)].clone();
                let mut c: Vec<Live> = vec![delim.clone()];
                let _ = guard(|| l.triangulate(formats::DelimitedFanFormat::new(&mut c, d)).map(|_| ()).map_err(|e| err_text(&e)));
            }
            "refused delimiter"
        }
        _ => {
            // substituted index over a plain list, narrowed beyond its range now and then
            let p: Vec<Vec<[C; 2]>> = { let r = RefCell::new(rng.clone()); polys.iter().map(|q| q.iter().map(|v| v.map(|x| conv(&mut r.borrow_mut(), x))).collect()).collect() };
            let w = p.index_with::<usize, u8>();
            let _ = guard(|| w.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<[u8; 2]>>>::new(vec![])).map(|_| ()).map_err(|e| err_text(&e)));
            "substituted index"
        }
    };
    coord::reset(u64::MAX);
    drop(delim);
    drop(l);
    what
}

fn balanced(ctx: &mut Ctx, what: &str, mut f: impl FnMut(&mut Rng) -> &'static str) -> Verdict {
    let counter = Arc::new(AtomicI64::new(0));
    LIVE.with(|l| *l.borrow_mut() = counter.clone());
    // warm up lazily created thread state
    f(&mut Rng::new(mix(ctx.seed, 1)));
    let rounds = if cfg!(miri) { 2 } else { 6 };
    for k in 0..rounds {
        let mut rng = Rng::new(mix(ctx.seed, 100 + k));
        let made0 = LIVE_MADE.load(Ordering::Relaxed);
        let h0 = crate::held();
        let done = f(&mut rng);
        let h1 = crate::held();
        ctx.add(done, 1);
        ctx.add("index tokens created", (LIVE_MADE.load(Ordering::Relaxed) - made0).max(0) as u64);
        let left = counter.load(Ordering::Relaxed);
        if left > 0 {
            return Err(format!("[{what}] {left} index values were leaked ({done})"));
        }
        if left < 0 {
            return Err(format!("[{what}] index values were dropped {} times too often ({done})", -left));
        }
        if h1 > h0 && !cfg!(miri) {
            // a cache would saturate, a leak keeps growing
            let mut grew = 0;
            let mut at = crate::held();
            for j in 0..60 {
                f(&mut Rng::new(mix(ctx.seed, 100 + k)));
                let now = crate::held();
                if j >= 20 && now > at {
                    grew += 1;
                }
                at = now;
            }
            if grew >= 20 {
                return Err(format!("[{what}] {} bytes were not given back ({done}), and again on repetition", h1 - h0));
            }
            ctx.add("one-time allocations ignored", 1);
        }
        ctx.sig(mix(mix(ctx.seed, k), done.len() as u64));
    }
    Ok(())
}

fn c12_valid(ctx: &mut Ctx) -> Verdict {
    let polys = family(&mut ctx.rng, if cfg!(miri) { 7 } else { 60 });
    describe(show(&polys));
    balanced(ctx, "valid input", |r| exercise::<Cf>(r, &polys, &|_, x| Cf(x as f64), false))
}
fn c12_garbage(ctx: &mut Ctx) -> Verdict {
    let n = small(3 + ctx.rng.below(50));
    let polys = gen::garbage(&mut ctx.rng, n);
    describe(show(&polys));
    let special = ctx.rng.below(4);
    balanced(ctx, "invalid input", |r| {
        exercise::<Cf>(
            r,
            &polys,
            &|r, x| {
                Cf(match (special, r.below(12)) {
                    (1, 0) => f64::NAN,
                    (2, 0) => f64::INFINITY,
                    (2, 1) => f64::NEG_INFINITY,
                    (3, 0) => f64::MAX,
                    (3, 1) => f64::MIN_POSITIVE * 0.25,
                    (3, 2) => -f64::MAX,
                    _ => x as f64,
                })
            },
            true,
        )
    })
}
fn c12_wild(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = small(3 + ctx.rng.below(40));
    let polys = gen::generate(&mut ctx.rng, f, n);
    let rate = *ctx.rng.pick(&[2u64, 5, 20, 100, 500, 3000]);
    describe(format!("{} (one comparison in {rate} answered at random)", show(&polys)));
    coord::CHAOS_RATE.with(|c| c.set(rate));
    let seed = ctx.seed;
    let r = balanced(ctx, "lying comparisons", |r| {
        coord::CHAOS.with(|c| c.set(mix(seed, r.next())));
        exercise::<Wild>(r, &polys, &|_, x| Wild(x as f64), true)
    });
    coord::CHAOS_RATE.with(|c| c.set(0));
    r
}
/// plain float input, the hot path without instrumentation; NaN, infinities, duplicates
fn c12_plain(ctx: &mut Ctx) -> Verdict {
    let n = small(3 + ctx.rng.below(80));
    let bad = ctx.idx % 2 == 1;
    let polys = if bad { gen::garbage(&mut ctx.rng, n) } else { let f = *ctx.rng.pick(gen::FAMILIES); gen::generate(&mut ctx.rng, f, n) };
    describe(show(&polys));
    let mut p: Vec<Vec<[f32; 2]>> = polys.iter().map(|r| r.iter().map(|v| [v[0] as f32, v[1] as f32]).collect()).collect();
    if bad && ctx.rng.chance(1, 2) {
        for r in p.iter_mut() {
            for v in r.iter_mut() {
                if ctx.rng.chance(1, 10) {
                    v[ctx.rng.below(2)] = *ctx.rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MAX]);
                }
            }
        }
    }
    let nv: usize = p.iter().map(|r| r.len()).sum();
    let lg = log();
    // runaway output is cut off by the recorder; a silent livelock by the watchdog (inconclusive)
    let r = guard(|| p.triangulate(Rec::<_, false>::new(&lg, Plan { max: 20 * nv + 20, ..Plan::default() })).map_err(|e| err_text(&e)));
    ctx.add(match r { Ok(Ok(_)) => "plain calls returning", Ok(Err(_)) => "plain calls failing", Err(_) => "plain calls unwinding" }, 1);
    let ids: Vec<[usize; 2]> = lg.borrow().iter().flat_map(|e| match e { Ev::Init(t) | Ev::New(t) => t.to_vec(), Ev::Ext(v) => vec![*v], _ => vec![] }).collect();
    for i in ids {
        if i[0] >= p.len() || i[1] >= p[i[0]].len() {
            return Err(format!("output index {i:?} is out of bounds"));
        }
    }
    ctx.sig(mix(hash_polys(&polys), lg.borrow().len() as u64));
    Ok(())
}

// --- C13 ---------------------------------------------------------------------------------------------------------
fn extent(polys: &[Vec<P>]) -> i64 {
    polys.iter().flatten().map(|v| v[0].abs().max(v[1].abs())).max().unwrap_or(1).max(1)
}
fn bits(x: i64) -> i32 { 64 - x.leading_zeros() as i32 }

/// triangulate `polys` through coordinates `conv`, check against the exact geometry
fn through<C: Real + Debug + 'static>(ctx: &mut Ctx, polys: &Polys, what: &dyn Fn() -> String, mut conv: impl FnMut(i64, usize) -> C) -> Verdict {
    let reg = Region::new(polys);
    let p: Vec<Vec<[C; 2]>> = polys.iter().map(|r| r.iter().map(|v| [conv(v[0], 0), conv(v[1], 1)]).collect()).collect();
    let t = tri(&p).and_then(|t| nested_ids(&reg, &t)).and_then(|t| check_all(&reg, &t).map(|_| t)).map_err(|m| format!("[{}] {m}", what()))?;
    ctx.add("executions", 1);
    ctx.add("triangles checked", t.len() as u64);
    ctx.sig(mix(hash_polys(polys), mix(hash_tris(&t), what().len() as u64)));
    Ok(())
}

/// geometry whose coordinates have at most `b` bits
fn bounded(ctx: &mut Ctx, b: i32, n: usize) -> Polys {
    loop {
        let (_, p) = geometry(&mut ctx.rng, n);
        if bits(extent(&p)) <= b {
            return p;
        }
    }
}

/// Exponents of scalings in x and y such that products of a difference in x and one in y (of at most b bits each) are
/// normal numbers (up to 2^p), while the coordinates themselves (up to 2^top) may be subnormal (from 2^-low).
fn scales(rng: &mut Rng, b: i32, p: i32, top: i32, low: i32) -> (i32, i32) {
    let (hi, lo) = ((p - 2 * b) / 2, -p / 2);
    match rng.below(8) {
        0 => (hi, hi),
        1 => (lo, lo),
        2 => (hi, lo),
        3 => (lo, hi),
        4 | 5 => {
            // the one as small as can be, the other large enough to make up for it
            let far = if rng.chance(1, 2) { 60 } else { p as usize };
            let k = -low + rng.below(far) as i32;
            let (least, most) = (-p - k, (top - b).min(p - 2 * b - k));
            let other = rng.range(least as i64, most as i64) as i32;
            if rng.chance(1, 2) { (k, other) } else { (other, k) }
        }
        _ => (rng.range(lo as i64, hi as i64) as i32, rng.range(lo as i64, hi as i64) as i32),
    }
}

fn c13_f64(ctx: &mut Ctx) -> Verdict {
    let polys = bounded(ctx, 25, 150);
    describe(show(&polys));
    let b = bits(extent(&polys)) + 1; // bits of a difference
    // scale: products of differences stay normal
    for _ in 0..3 {
        let (kx, ky) = scales(&mut ctx.rng, b, 1020, 1023, 1074);
        // (in two steps: the least powers are subnormal)
        let (sx, sy) = (2f64.powi(kx / 2) * 2f64.powi(kx - kx / 2), 2f64.powi(ky / 2) * 2f64.powi(ky - ky / 2));
        through(ctx, &polys, &|| format!("f64, x scaled by 2^{kx}, y by 2^{ky}"), |v, d| v as f64 * if d == 0 { sx } else { sy })?;
        ctx.max("largest scale exponent", kx.max(ky).max(0) as u64);
        ctx.max("largest negative scale exponent", -kx.min(ky).min(0) as u64);
        if kx.min(ky) < -1022 {
            ctx.add("scalings with subnormal coordinates", 1);
        }
    }
    // translation: coordinates stay integers below 2^53
    for _ in 0..2 {
        let lim = (1i64 << 53) - (1 << b);
        let mut o = || if ctx.rng.chance(1, 2) { [lim, -lim, 0, 1 << 52, -(1 << 51)][ctx.rng.below(5)] } else { ctx.rng.range(-lim, lim) };
        let (ox, oy) = (o(), o());
        through(ctx, &polys, &|| format!("f64, translated by ({ox}, {oy})"), |v, d| (v + if d == 0 { ox } else { oy }) as f64)?;
    }
    // translation and scale at once
    let (kx, ky) = (ctx.rng.range(-400, 400) as i32, ctx.rng.range(-400, 400) as i32);
    let (sx, sy) = (2f64.powi(kx), 2f64.powi(ky));
    let o = ctx.rng.range(-(1 << 50), 1 << 50);
    through(ctx, &polys, &|| format!("f64, (x + {o}) 2^{kx}, (y + {o}) 2^{ky}"), |v, d| (v + o) as f64 * if d == 0 { sx } else { sy })?;
    ctx.sample(|| format!("{} scaled by 2^{kx}, 2^{ky} after translation by {o}", show(&polys)));
    Ok(())
}

fn c13_f32(ctx: &mut Ctx) -> Verdict {
    let polys = bounded(ctx, 10, 150);
    describe(show(&polys));
    let b = bits(extent(&polys)) + 1;
    for _ in 0..3 {
        let (kx, ky) = scales(&mut ctx.rng, b, 124, 127, 149);
        let (sx, sy) = (2f32.powi(kx / 2) * 2f32.powi(kx - kx / 2), 2f32.powi(ky / 2) * 2f32.powi(ky - ky / 2));
        through(ctx, &polys, &|| format!("f32, x scaled by 2^{kx}, y by 2^{ky}"), |v, d| v as f32 * if d == 0 { sx } else { sy })?;
        if kx.min(ky) < -126 {
            ctx.add("scalings with subnormal coordinates", 1);
        }
    }
    for _ in 0..2 {
        let lim = (1i64 << 24) - (1 << b);
        let mut o = || if ctx.rng.chance(1, 2) { [lim, -lim, 0, 1 << 23, -(1 << 22)][ctx.rng.below(5)] } else { ctx.rng.range(-lim, lim) };
        let (ox, oy) = (o(), o());
        through(ctx, &polys, &|| format!("f32, translated by ({ox}, {oy})"), |v, d| (v + if d == 0 { ox } else { oy }) as f32)?;
    }
    Ok(())
}

fn c13_types(ctx: &mut Ctx) -> Verdict {
    let polys = bounded(ctx, 20, 80);
    describe(show(&polys));
    // signed zeros, with many coordinates equal to zero
    let (ax, ay) = (polys[0][0][0], polys[0][0][1]);
    let mut r = ctx.rng.clone();
    through(ctx, &polys, &|| "f64 with signed zeros".into(), |v, d| {
        let w = (v - if d == 0 { ax } else { ay }) as f64;
        if w == 0.0 && r.chance(1, 2) { -0.0 } else { w }
    })?;
    let mut r = ctx.rng.clone();
    through(ctx, &polys, &|| "f32 with signed zeros".into(), |v, d| {
        let w = (v - if d == 0 { ax } else { ay }) as f32;
        if w == 0.0 && r.chance(1, 2) { -0.0 } else { w }
    }).or_else(|m| if bits(extent(&polys)) > 10 { Ok(()) } else { Err(m) })?;
    // exact rationals that no float represents
    let d = *ctx.rng.pick(&[3i64, 7, 10, 97, 1]);
    let o = ctx.rng.range(-1000, 1000);
    through::<Ex>(ctx, &polys, &|| format!("exact rationals, (v + {o}) / {d}"), |v, _| Ex::ratio(v + o, d))?;
    // ... or that only an exact type tells apart: neighbours differ beyond the precision of any float
    let (ox, oy) = { let mut o = || *ctx.rng.pick(&[1i64 << 60, -(1 << 60), (1 << 58) + 1, 1 << 54, -(1 << 56), 0]); (o(), o()) };
    let d = *ctx.rng.pick(&[1i64, 1, 3, 97, 1 << 20, 1 << 28]);
    let opaque = ctx.rng.chance(1, 3);
    coord::INEXACT.with(|i| i.set(false));
    coord::OPAQUE.with(|o| o.set(opaque));
    let r = through::<Ex>(ctx, &polys, &|| format!("exact numbers beyond float precision, (x + {ox}) / {d}, (y + {oy}) / {d}{}", if opaque { ", not convertible to primitives" } else { "" }), |v, a| Ex::ratio(v + if a == 0 { ox } else { oy }, d));
    coord::OPAQUE.with(|o| o.set(false));
    if coord::INEXACT.with(|i| i.get()) {
        ctx.add("exact runs out of range", 1);
    } else {
        r?;
        ctx.add("exact runs beyond float precision", 1);
    }
    through::<Cf>(ctx, &polys, &|| "user-defined float".into(), |v, _| Cf(v as f64))?;
    // pairs instead of arrays as vertices
    let reg = Region::new(&polys);
    let p: Vec<Vec<(f64, f64)>> = polys.iter().map(|r| r.iter().map(|v| (v[0] as f64 * 0.125, v[1] as f64 * 0.125)).collect()).collect();
    let t = tri(&p).and_then(|t| nested_ids(&reg, &t)).map_err(|m| format!("[pairs] {m}"))?;
    check_all(&reg, &t).map_err(|m| format!("[pairs] {m}"))?;
    ctx.add("executions", 1);
    Ok(())
}

/// coordinates with full mantissas: products round, but every orientation keeps a clear margin
fn c13_rounding(ctx: &mut Ctx) -> Verdict {
    let single = ctx.idx % 3 == 0;
    let (mant, margin) = if single { (23, 20i32) } else { (52, 46) };
    let mut polys: Polys = vec![];
    for _ in 0..30 {
        let n = 3 + ctx.rng.below(if single { 8 } else { 24 });
        let f = *ctx.rng.pick(&["grow", "twoopt", "star", "convex", "scatter", "growfine", "mountain", "ymono", "islands", "comb", "zigzag"]);
        let g = gen::generate(&mut ctx.rng, f, n);
        let up = mant - 1 - bits(extent(&g));
        if up < 6 || g.iter().map(|r| r.len()).sum::<usize>() > 40 {
            continue;
        }
        let amp = 1i64 << (up - if single { 2 } else { 3 });
        // ties in y are kept for some
        let keep = ctx.rng.chance(1, 3);
        let g: Polys = g.iter().map(|r| r.iter().map(|v| [(v[0] << up) + ctx.rng.range(-amp, amp), if keep { v[1] << up } else { (v[1] << up) + ctx.rng.range(-amp, amp) }]).collect()).collect();
        if !valid(&g) {
            continue;
        }
        // orientation margin over all triples
        let vs: Vec<P> = g.iter().flatten().copied().collect();
        let mut ok = true;
        'o: for i in 0..vs.len() {
            for j in i + 1..vs.len() {
                for k in j + 1..vs.len() {
                    let (a, b, c) = (vs[i], vs[j], vs[k]);
                    let det = orient(a, b, c).unsigned_abs();
                    // for any of the three base points: |det| against the larger product of differences
                    let d = |p: P, q: P, t: usize| (p[t] as i128 - q[t] as i128).unsigned_abs();
                    let m = [(a, b, c), (b, c, a), (c, a, b)].iter().map(|(p, q, r)| (d(*q, *p, 0) * d(*r, *p, 1)).max(d(*q, *p, 1) * d(*r, *p, 0))).max().unwrap();
                    if det == 0 || (det as f64) < (m as f64) * 2f64.powi(-margin) {
                        ok = false;
                        break 'o;
                    }
                }
            }
        }
        if ok {
            polys = g;
            break;
        }
    }
    if polys.is_empty() {
        ctx.inconclusive = true;
        return Ok(());
    }
    describe(format!("{polys:?}"));
    let k = ctx.rng.range(-40, 20) as i32;
    if single {
        through(ctx, &polys, &|| format!("f32, full mantissas times 2^{k}"), |v, _| v as f32 * 2f32.powi(k))?;
    } else {
        let k = k * 8;
        through(ctx, &polys, &|| format!("f64, full mantissas times 2^{k}"), |v, _| v as f64 * 2f64.powi(k))?;
    }
    ctx.add("inputs whose products round", 1);
    Ok(())
}

// --- C14 ---------------------------------------------------------------------------------------------------------
struct Probe<T>(std::marker::PhantomData<T>);
trait Lost {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T> Lost for Probe<T> {}
struct ProbeSend<T>(std::marker::PhantomData<T>);
impl<T> Lost for ProbeSend<T> {}
impl<T: Sync> Probe<T> {
    const SYNC: bool = true;
}
impl<T: Send> ProbeSend<T> {
    const SEND: bool = true;
}
/// the monitor decides about Sync itself, so that losing it is reported instead of failing to build
struct Force<'a, T>(&'a T);
unsafe impl<'a, T> Sync for Force<'a, T> {}
unsafe impl<'a, T> Send for Force<'a, T> {}
impl<'a, T> Force<'a, T> {
    fn get(&self) -> &'a T { self.0 }
}

type Nest = Vec<Vec<[Cf; 2]>>;
fn nest(polys: &[Vec<P>]) -> Nest {
    polys.iter().map(|r| r.iter().map(|v| [Cf(v[0] as f64), Cf(v[1] as f64)]).collect()).collect()
}

fn c14_threads(ctx: &mut Ctx) -> Verdict {
    if !Probe::<Trapezoidation<'static, Nest>>::SYNC || !ProbeSend::<Trapezoidation<'static, Nest>>::SEND {
        return Err("a trapezoidation can no longer be shared between threads (it is not Sync and Send)".into());
    }
    if !Probe::<Trapezoidation<'static, Vec<Vec<[f32; 2]>>>>::SYNC {
        return Err("a trapezoidation can no longer be shared between threads (it is not Sync)".into());
    }
    let small = cfg!(miri) || ctx.rng.chance(3, 4);
    let n = if cfg!(miri) { 5 } else if small { 24 } else { 200 };
    let polys = family(&mut ctx.rng, n);
    let (f2, n2) = (*ctx.rng.pick(gen::FAMILIES), 3 + ctx.rng.below(if cfg!(miri) { 4 } else { 20 }));
    let other = gen::generate(&mut ctx.rng, f2, n2);
    describe(show(&polys));
    let (reg, rego) = (Region::new(&polys), Region::new(&other));
    let (p, o) = (nest(&polys), nest(&other));
    let t = match guard(|| p.trapezoidize()) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) => return Err(format!("trapezoidation of valid input failed: {e}")),
        Err(m) => return Err(format!("trapezoidation of valid input panicked: {m}")),
    };
    let threads = if cfg!(miri) { 2 } else { 2 + ctx.rng.below(5) };
    let rounds = if cfg!(miri) { 1 } else { 4 };
    let rate = *ctx.rng.pick(&[3u64, 20, 100, 0]);
    let sched = Arc::new(AtomicU64::new(1));
    let (ft, fp, fo) = (Force(&t), Force(&p), Force(&o));
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let calls = AtomicU64::new(0);
    let go = Barrier::new(threads);
    let seed = ctx.seed;
    let base = run_cf(&reg, &Src::Trap(&t), "list-array")?;
    check_all(&reg, &base)?;
    // per format: repeated triangulation of the shared trapezoidation is deterministic, whatever runs elsewhere
    let hashes: Mutex<std::collections::HashMap<&'static str, u64>> = Mutex::new(Default::default());
    std::thread::scope(|s| {
        for k in 0..threads {
            let (ft, fp, fo, errs, calls, go, sched, reg, rego, hashes) = (&ft, &fp, &fo, &errs, &calls, &go, &sched, &reg, &rego, &hashes);
            s.spawn(move || {
                getrandom::verif_set_seed(mix(seed, 1000 + k as u64));
                let mut rng = Rng::new(mix(seed, 50 + k as u64));
                coord::SCHED.with(|x| *x.borrow_mut() = Some(sched.clone()));
                coord::YIELD.with(|y| y.set((rate, mix(seed, k as u64), k as u64 + 1)));
                go.wait();
                for _ in 0..rounds {
                    let fmt: &'static str = *rng.pick(FORMATS);
                    let r = match rng.below(4) {
                        0 => run_cf(reg, &Src::Direct(fp.get()), fmt).and_then(|t| verdict14(reg, &t, fmt)).map_err(|m| format!("shared polygons: {m}")),
                        1 => run_cf(rego, &Src::Direct(fo.get()), fmt).and_then(|t| verdict14(rego, &t, fmt)).map_err(|m| format!("another shared polygon set: {m}")),
                        _ => run_cf(reg, &Src::Trap(ft.get()), fmt).and_then(|t| {
                            verdict14(reg, &t, fmt)?;
                            let h = hash_tris(&t);
                            if *hashes.lock().unwrap().entry(fmt).or_insert(h) != h {
                                return Err("concurrent triangulations of one trapezoidation differ".to_string());
                            }
                            Ok(())
                        }).map_err(|m| format!("shared trapezoidation: {m}")),
                    };
                    calls.fetch_add(1, Ordering::Relaxed);
                    if let Err(m) = r {
                        errs.lock().unwrap().push(format!("[thread {k}, {fmt}] {m}"));
                    }
                }
                coord::YIELD.with(|y| y.set((0, 0, 0)));
                coord::SCHED.with(|x| *x.borrow_mut() = None);
            });
        }
    });
    ctx.add("threads run", threads as u64);
    ctx.add("concurrent calls", calls.load(Ordering::Relaxed));
    ctx.sig(mix(sched.load(Ordering::Relaxed), hash_polys(&polys)));
    if rate > 0 {
        ctx.add("schedules recorded", 1);
    }
    match errs.into_inner().unwrap().pop() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn verdict14(reg: &Region, t: &[T3], fmt: &str) -> Verdict {
    if is_cw(fmt) { check_all(reg, &flip(t)) } else { check_all(reg, t) }
}
fn run_cf<'p>(reg: &Region, src: &Src<'_, 'p, Nest>, fmt: &str) -> Result<Vec<T3>, String> {
    let map = vertex_ids(reg);
    let vid = |v: &[Cf; 2]| map.get(&[v[0].0 as i64, v[1].0 as i64]).copied();
    run_format(src, fmt, [usize::MAX, 3], &nested_id(reg), &vid)
}

/// plain float input from many threads, no instrumentation in between
fn c14_plain(ctx: &mut Ctx) -> Verdict {
    let sets: Vec<(Polys, Region, Vec<Vec<[f64; 2]>>)> = (0..3)
        .map(|_| {
            let p = family(&mut ctx.rng, if cfg!(miri) { 4 } else { 120 });
            let r = Region::new(&p);
            let v = to_f64(&p);
            (p, r, v)
        })
        .collect();
    describe(sets.iter().map(|s| show(&s.0)).collect::<Vec<_>>().join(" and "));
    let threads = if cfg!(miri) { 2 } else { 4 };
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let seed = ctx.seed;
    let go = Barrier::new(threads);
    std::thread::scope(|s| {
        for k in 0..threads {
            let (sets, errs, go) = (&sets, &errs, &go);
            s.spawn(move || {
                getrandom::verif_set_seed(mix(seed, 2000 + k as u64));
                let mut rng = Rng::new(mix(seed, 60 + k as u64));
                go.wait();
                for _ in 0..(if cfg!(miri) { 1 } else { 6 }) {
                    let s = rng.pick(sets);
                    let fmt = *rng.pick(FORMATS);
                    if let Err(m) = run_nested(&s.1, &s.2, fmt).and_then(|t| verdict14(&s.1, &t, fmt)) {
                        errs.lock().unwrap().push(format!("[thread {k}, {fmt}] {m}"));
                    }
                }
            });
        }
    });
    ctx.add("threads run", threads as u64);
    ctx.add("concurrent calls", threads as u64 * 6);
    ctx.sig(mix(seed, 3));
    match errs.into_inner().unwrap().pop() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// calls on one thread: whatever happened before, the next call on valid input is right
fn c14_history(ctx: &mut Ctx) -> Verdict {
    let mut hist = String::new();
    for step in 0..10 {
        // trouble
        let n = 3 + ctx.rng.below(30);
        let kind = ctx.rng.below(8);
        match kind {
            0 => {
                let g = gen::garbage(&mut ctx.rng, n);
                let l: Flat<Cf, CIdx, Tagged> = Flat::build(&g, 1, |x| Cf(x as f64));
                coord::reset(40_000 * (n as u64 + 4));
                let lg = log();
                let r = guard(|| l.triangulate(Rec::<_, false>::new(&lg, Plan { max: 20 * n + 20, ..Plan::default() })).is_ok());
                coord::reset(u64::MAX);
                hist += if r.is_err() { " invalid(unwound)" } else { " invalid" };
            }
            1..=3 => {
                let (_, polys) = geometry(&mut ctx.rng, 60);
                let l: Flat<Cf, CIdx, Tagged> = Flat::build(&polys, 1, |x| Cf(x as f64));
                let nv = l.verts.len();
                let lg = log();
                let plan = match kind {
                    1 => Plan { fail_at: Some(ctx.rng.below(nv + 1)), ..Plan::default() },
                    2 => Plan { panic_at: Some(ctx.rng.below(nv + 1)), ..Plan::default() },
                    _ => {
                        coord::BOMB.with(|b| b.set(ctx.rng.below(80 * nv) as u64));
                        Plan::default()
                    }
                };
                let list = ctx.rng.chance(1, 2);
                let r = guard(|| if list { l.triangulate(RecList::<_, false>::new(&lg, plan).into_fan_format()).is_ok() } else { l.triangulate(Rec::<_, true>::new(&lg, plan)).is_ok() });
                coord::reset(u64::MAX);
                hist += match r { Ok(true) => " ok", Ok(false) => " error", Err(_) => " panic" };
            }
            4 => {
                // degenerate
                let v: Vec<Vec<[f64; 2]>> = ctx.rng.pick(&[vec![], vec![vec![]], vec![vec![[0.0, 0.0]]], vec![vec![[0.0, 0.0], [1.0, 1.0], [1.0, 0.0]], vec![[5.0, 5.0], [6.0, 6.0]]]]).clone();
                let _ = guard(|| v.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<[usize; 2]>>>::new(vec![])).is_ok());
                hist += " rejected";
            }
            5 => {
                // substituted index that does not fit
                let p: Vec<[f64; 2]> = gen::convex(300, 4000).iter().map(|v| [v[0] as f64, v[1] as f64]).collect();
                let w = Polygon::index_with::<u8>(p);
                let _ = guard(|| w.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<u8>>>::new(vec![])).is_ok());
                hist += " narrow";
            }
            _ => hist += " -",
        }
        // and then valid input
        let (_, polys) = geometry(&mut ctx.rng, 80);
        describe(format!("{} after:{hist}", show(&polys)));
        let reg = Region::new(&polys);
        let p = to_f64(&polys);
        let fmt = *ctx.rng.pick(FORMATS);
        let t = run_nested(&reg, &p, fmt).map_err(|m| format!("[{fmt}] {m}"))?;
        verdict14(&reg, &t, fmt).map_err(|m| format!("[{fmt}, step {step}] {m}"))?;
        hist += " valid;";
        ctx.add("calls on one thread", 2);
        ctx.sig(hash_tris(&t));
    }
    ctx.sig(hist.bytes().fold(11, |h, b| mix(h, b as u64)));
    ctx.sample(|| format!("history:{hist}"));
    Ok(())
}

/// tens of thousands of calls on one thread, every result judged
fn c14_long(ctx: &mut Ctx) -> Verdict {
    let mut sets = vec![];
    for _ in 0..40 {
        let f = *ctx.rng.pick(gen::FAMILIES);
        let n = 3 + ctx.rng.below(8);
        let polys = gen::generate(&mut ctx.rng, f, n);
        if polys.iter().map(|r| r.len()).sum::<usize>() > 30 {
            continue;
        }
        let (reg, p) = (Region::new(&polys), to_f64(&polys));
        sets.push((polys, reg, p));
    }
    if sets.is_empty() {
        sets.push((vec![vec![[0, 0], [3, 1], [1, 3]]], Region::new(&[vec![[0, 0], [3, 1], [1, 3]]]), vec![vec![[0.0, 0.0], [3.0, 1.0], [1.0, 3.0]]]));
    }
    let trouble = ctx.idx % 2 == 1;
    let calls = 66_000 + ctx.rng.below(6_000);
    let fmts: Vec<&'static str> = if ctx.idx % 3 == 0 { vec!["list-array"] } else { FORMATS.to_vec() };
    let one = ctx.idx % 5 == 0;
    for k in 0..calls {
        if trouble && ctx.rng.chance(1, 3) {
            let (_, _, p) = ctx.rng.pick(&sets);
            let lg = log();
            let at = Some(ctx.rng.below(4));
            let _ = guard(|| p.triangulate(Rec::<_, false>::new(&lg, if k % 2 == 0 { Plan { fail_at: at, ..Plan::default() } } else { Plan { panic_at: at, ..Plan::default() } })).is_ok());
        }
        let (polys, reg, p) = if one { &sets[0] } else { ctx.rng.pick(&sets) };
        let fmt = *ctx.rng.pick(&fmts);
        let t = run_nested(reg, p, fmt).and_then(|t| verdict14(reg, &t, fmt).map(|_| t)).map_err(|m| format!("[{fmt}, call {k} on this thread] {m}\ninput: {}", show(polys)))?;
        if k % 64 == 0 {
            ctx.sig(hash_tris(&t));
        }
    }
    ctx.add("calls on one thread", calls as u64);
    ctx.max("longest history of calls on one thread", calls as u64);
    Ok(())
}

/// many threads at once on one trapezoidation and on their own input
fn c14_crowd(ctx: &mut Ctx) -> Verdict {
    let f = *ctx.rng.pick(gen::FAMILIES);
    let n = 3 + ctx.rng.below(60);
    let polys = gen::generate(&mut ctx.rng, f, n);
    describe(show(&polys));
    let (reg, p) = (Region::new(&polys), nest(&polys));
    let t = match guard(|| p.trapezoidize()) {
        Ok(Ok(t)) => t,
        _ => return Err("trapezoidation of valid input failed".into()),
    };
    let threads = 70 + ctx.rng.below(230);
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let go = Barrier::new(threads);
    let seed = ctx.seed;
    let base = run_cf(&reg, &Src::Trap(&t), "list-array")?;
    check_all(&reg, &base)?;
    let (ft, fp) = (Force(&t), Force(&p));
    std::thread::scope(|s| {
        for k in 0..threads {
            let (ft, fp, errs, go, reg, base) = (&ft, &fp, &errs, &go, &reg, &base);
            let spawned = std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, move || {
                getrandom::verif_set_seed(mix(seed, 3000 + k as u64));
                let mut rng = Rng::new(mix(seed, 90 + k as u64));
                go.wait();
                for _ in 0..3 {
                    let fmt = *rng.pick(FORMATS);
                    let r = if k % 2 == 0 {
                        run_cf(reg, &Src::Trap(ft.get()), "list-array").and_then(|t| if t == *base { Ok(()) } else { Err("concurrent triangulations of one trapezoidation differ".into()) })
                    } else {
                        run_cf(reg, &Src::Direct(fp.get()), fmt).and_then(|t| verdict14(reg, &t, fmt))
                    };
                    if let Err(m) = r {
                        errs.lock().unwrap().push(format!("[thread {k} of {threads}, {fmt}] {m}"));
                    }
                }
            });
            spawned.expect("spawn");
        }
    });
    ctx.add("threads run", threads as u64);
    ctx.max("threads at once", threads as u64);
    ctx.add("concurrent calls", 3 * threads as u64);
    ctx.sig(mix(hash_polys(&polys), threads as u64));
    match errs.into_inner().unwrap().pop() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// the same storage with new content; another polygon triangulated from within callbacks
fn c14_reuse(ctx: &mut Ctx) -> Verdict {
    let n = 6 + ctx.rng.below(20);
    let cap = 64;
    let mut ring: Vec<[f64; 2]> = Vec::with_capacity(cap);
    for step in 0..6 {
        let f = *ctx.rng.pick(&["grow", "twoopt", "star", "ymono", "mountain"]);
        let polys = vec![gen::generate(&mut ctx.rng, f, n).swap_remove(0)];
        if polys[0].len() > cap || !valid(&polys) {
            continue;
        }
        ring.clear();
        ring.extend(polys[0].iter().map(|v| [v[0] as f64, v[1] as f64]));
        let reg = Region::new(&polys);
        describe(format!("{} (step {step} in the same buffer)", show(&polys)));
        let t: Vec<[usize; 3]> = flat_err(guard(|| Polygon::triangulate(&ring, formats::IndexedListFormat::new(vec![]).into_fan_format())))?;
        if t.iter().flatten().any(|i| *i >= ring.len()) {
            return Err("output index out of range (stale input?)".into());
        }
        let t: Vec<T3> = t.iter().map(|t| t.map(|i| i as u32)).collect();
        check_all(&reg, &t).map_err(|m| format!("[buffer reused, step {step}] {m}"))?;
        ctx.sig(hash_tris(&t));
        ctx.add("calls on one thread", 1);
    }
    // nested: every callback of one triangulation triangulates something else
    let (_, a) = geometry(&mut ctx.rng, 20);
    let (_, b) = geometry(&mut ctx.rng, 20);
    describe(format!("{} with {} triangulated from within its callbacks", show(&a), show(&b)));
    let (ra, rb) = (Region::new(&a), Region::new(&b));
    let (pa, pb) = (nest(&a), to_f64(&b));
    let bad: RefCell<Option<String>> = RefCell::new(None);
    let count = std::cell::Cell::new(0u64);
    let fmt = *ctx.rng.pick(FORMATS);
    let f = || {
        count.set(count.get() + 1);
        if let Err(m) = run_nested(&rb, &pb, fmt).and_then(|t| verdict14(&rb, &t, fmt)) {
            *bad.borrow_mut() = Some(format!("[{fmt}, nested] {m}"));
        }
    };
    let lg = log();
    let fb = Hooked { inner: Rec::<Nest, false>::new(&lg, Plan::default()), f: &f };
    flat_err(guard(|| pa.triangulate(fb)))?;
    if let Some(m) = bad.borrow_mut().take() {
        return Err(m);
    }
    let t = nested_ids(&ra, &decode(&lg.borrow())?)?;
    check_all(&ra, &t).map_err(|m| format!("[outer call] {m}"))?;
    ctx.add("nested calls", count.get());
    // nested in vertex lookup and coordinate access
    let at = AtLookup { p: to_f64(&a), f: &f, left: std::cell::Cell::new(ctx.rng.below(40)) };
    let t = tri(&at)?;
    if let Some(m) = bad.borrow_mut().take() {
        return Err(m);
    }
    let t = nested_ids(&ra, &t)?;
    check_all(&ra, &t).map_err(|m| format!("[call with nested calls in vertex lookup] {m}"))?;
    ctx.sig(hash_tris(&t));
    Ok(())
}
struct Hooked<'t, 'p, F: Fn()> {
    inner: Rec<'p, Nest, false>,
    f: &'t F,
}
struct HookedB<'t, 'p, F: Fn()>(RecB<'p, Nest, false>, &'t F);
impl<'t, 'p, F: Fn()> FanFormat<'p, Nest> for Hooked<'t, 'p, F> {
    type Builder = HookedB<'t, 'p, F>;
    fn initialize(self, p: &'p Nest, a: [usize; 2], b: [usize; 2], c: [usize; 2]) -> Result<Self::Builder, Inj> {
        (self.f)();
        Ok(HookedB(self.inner.initialize(p, a, b, c)?, self.f))
    }
}
impl<'t, 'p, F: Fn()> FanBuilder<'p, Nest> for HookedB<'t, 'p, F> {
    type Output = ();
    type Error = Inj;
    fn new_fan(&mut self, a: [usize; 2], b: [usize; 2], c: [usize; 2]) -> Result<(), Inj> {
        (self.1)();
        self.0.new_fan(a, b, c)
    }
    fn extend_fan(&mut self, a: [usize; 2]) -> Result<(), Inj> {
        (self.1)();
        self.0.extend_fan(a)
    }
    fn build(self) -> Result<(), Inj> {
        (self.1)();
        self.0.build()
    }
    fn fail(self, e: &TriangulationError<Inj>) { self.0.fail(e) }
}
struct AtLookup<'f, F: Fn()> {
    p: Vec<Vec<[f64; 2]>>,
    f: &'f F,
    left: std::cell::Cell<usize>,
}
impl<'p, 'f: 'p, F: Fn() + 'p> PolygonList<'p> for AtLookup<'f, F> {
    type Vertex = [f64; 2];
    type Index = [usize; 2];
    type IntoItem = triangulate::PolygonElement<[usize; 2]>;
    type Iter<'i> = Box<dyn Iterator<Item = triangulate::PolygonElement<[usize; 2]>> + 'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.p.iter().map(|r| r.len()).sum() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        use triangulate::PolygonElement::*;
        Box::new(self.p.iter().enumerate().flat_map(|(r, p)| (0..p.len()).map(move |i| ContinuePolygon([r, i])).chain(std::iter::once(NewPolygon))))
    }
    fn get_vertex<'a>(&'a self, i: [usize; 2]) -> &'a [f64; 2] where 'p: 'a {
        let l = self.left.get();
        if l % 7 == 3 {
            (self.f)();
        }
        self.left.set(l.wrapping_add(1));
        &self.p[i[0]][i[1]]
    }
}

// --- C18 ---------------------------------------------------------------------------------------------------------
/// Interposed file system entry points: every path this process creates, opens for writing, renames or removes is recorded
#[cfg(feature = "dbg")]
mod fswatch {
    use std::ffi::CStr;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Mutex;
    pub static ON: AtomicBool = AtomicBool::new(false);
    pub static LOG: Mutex<Vec<(&'static str, String)>> = Mutex::new(vec![]);
    unsafe fn note(what: &'static str, p: *const libc::c_char) {
        if ON.load(Ordering::Relaxed) {
            let s = CStr::from_ptr(p).to_string_lossy().into_owned();
            LOG.lock().unwrap().push((what, s));
        }
    }
    fn ret(r: libc::c_long) -> libc::c_int { r as libc::c_int }
    fn writes(flags: libc::c_int) -> bool { flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0 }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
        if writes(flags) { note("open", p) }
        ret(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags | libc::O_LARGEFILE, mode as libc::c_uint))
    }
    #[allow(unknown_lints, invalid_runtime_symbol_definitions)]
    #[no_mangle]
    pub unsafe extern "C" fn open(p: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
        if writes(flags) { note("open", p) }
        ret(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode as libc::c_uint))
    }
    #[no_mangle]
    pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
        note("mkdir", p);
        ret(libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, p, mode as libc::c_uint))
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> libc::c_int {
        note("unlink", p);
        ret(libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rmdir(p: *const libc::c_char) -> libc::c_int {
        note("rmdir", p);
        ret(libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, libc::AT_REMOVEDIR))
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
        note("rename", a);
        note("rename", b);
        ret(libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0))
    }
    #[no_mangle]
    pub unsafe extern "C" fn symlink(a: *const libc::c_char, b: *const libc::c_char) -> libc::c_int {
        note("symlink", b);
        ret(libc::syscall(libc::SYS_symlinkat, a, libc::AT_FDCWD, b))
    }
}

#[cfg(feature = "dbg")]
mod c18 {
    use super::*;
    use std::collections::BTreeMap;
    use std::os::unix::ffi::OsStrExt;
    use std::path::{Component, Path, PathBuf};

    fn tree(root: &Path) -> BTreeMap<PathBuf, (bool, Vec<u8>)> {
        let mut out = BTreeMap::new();
        let mut todo = vec![root.to_path_buf()];
        while let Some(d) = todo.pop() {
            let Ok(rd) = std::fs::read_dir(&d) else { continue };
            for e in rd.flatten() {
                let p = e.path();
                let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
                if m.is_dir() {
                    out.insert(p.clone(), (true, vec![]));
                    todo.push(p);
                } else {
                    out.insert(p.clone(), (false, std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
        out
    }
    /// lexical absolute form
    fn abs(cwd: &Path, p: &Path) -> PathBuf {
        let mut o = PathBuf::new();
        for c in cwd.join(p).components() {
            match c {
                Component::ParentDir => {
                    o.pop();
                }
                Component::CurDir => {}
                c => o.push(c),
            }
        }
        o
    }

    pub fn case(ctx: &mut Ctx) -> Verdict {
        let base = std::env::var_os("TVMON_SCRATCH").expect("TVMON_SCRATCH");
        let root = Path::new(&base).join(format!("case{}", ctx.idx));
        std::fs::create_dir_all(&root).expect("scratch");
        let r = inner(ctx, &root);
        std::env::set_current_dir("/").expect("cwd");
        let _ = std::fs::remove_dir_all(&root);
        r
    }

    fn inner(ctx: &mut Ctx, root: &Path) -> Verdict {
        let cwd = root.join("cwd");
        std::fs::create_dir_all(&cwd).unwrap();
        std::fs::create_dir_all(root.join("other/000")).unwrap();
        std::fs::write(root.join("other/000/keep.svg"), "keep").unwrap();
        std::fs::write(cwd.join("plain"), "keep").unwrap();
        std::env::set_current_dir(&cwd).unwrap();
        std::env::set_var("TMPDIR", root.join("tmp"));
        std::env::set_var("HOME", root.join("home"));
        std::fs::create_dir_all(root.join("tmp")).unwrap();
        std::fs::create_dir_all(root.join("home")).unwrap();
        let (pk, ps): (&str, Option<std::ffi::OsString>) = match ctx.rng.below(15) {
            0 | 1 => ("unset", None),
            2 | 3 | 4 => {
                std::fs::create_dir_all(root.join("out")).unwrap();
                ("existing directory", Some(root.join("out").into()))
            }
            5 => {
                std::fs::create_dir_all(root.join("out/000")).unwrap();
                std::fs::create_dir_all(root.join("out/002/001.svg")).unwrap();
                std::fs::write(root.join("out/001"), "keep").unwrap();
                ("directory with conflicting content", Some(root.join("out").into()))
            }
            6 => ("missing directory", Some(root.join("missing").into())),
            7 => ("missing nested directory", Some(root.join("missing/a/b").into())),
            8 => ("a file", Some(cwd.join("plain").into())),
            9 => ("below a file", Some(cwd.join("plain/x").into())),
            10 => {
                std::fs::create_dir_all(cwd.join("rel")).unwrap();
                ("relative directory", Some("rel".into()))
            }
            11 => {
                std::fs::create_dir_all(cwd.join("rel")).unwrap();
                ("relative directory with dots", Some("./rel/../rel/".into()))
            }
            12 => ("a device", Some("/dev/null".into())),
            13 => ("not unicode", Some(std::ffi::OsStr::from_bytes(b"\xff\xfe").into())),
            _ => ("unusable name", Some(root.join("n".repeat(300)).into())),
        };
        let lv: Option<&str> = *ctx.rng.pick(&[None, Some("0"), Some("1"), Some("2"), Some("3"), Some("2"), Some("3"), Some("3"), Some("4"), Some("-1"), Some("abc"), Some("")]);
        let hide: Option<&str> = *ctx.rng.pick(&[None, Some(""), Some("1"), Some("0")]);
        for (k, v) in [("TRIANGULATE_SVG_OUTPUT_LEVEL", lv.map(|s| s.into())), ("TRIANGULATE_SVG_HIDE_LABELS", hide.map(|s| std::ffi::OsString::from(s))), ("TRIANGULATE_SVG_OUTPUT_PATH", ps.clone())] {
            match v {
                Some(v) => std::env::set_var(k, v),
                None => std::env::remove_var(k),
            }
        }
        let off = ps.is_none() || pk == "not unicode" || !matches!(lv, Some("1" | "2" | "3"));
        let allowed = ps.as_ref().map(|p| abs(&cwd, Path::new(p)));
        let f = *ctx.rng.pick(gen::FAMILIES);
        let big = off || ctx.rng.chance(1, 10);
        let n = 3 + ctx.rng.below(if big { 120 } else { 20 });
        let polys = gen::generate(&mut ctx.rng, f, n);
        let setting = format!("output path {pk}, level {lv:?}, hide labels {hide:?}");
        describe(format!("{} with {setting}", show(&polys)));
        let before = tree(root);
        let reg = Region::new(&polys);
        let p = to_f64(&polys);
        let fmt = *ctx.rng.pick(FORMATS);
        let kind = *ctx.rng.pick(&["f64", "f64", "f32", "f64 scaled", "f64 far from the origin", "f64 far from the origin", "exact rationals", "user-defined float", "float without conversion to primitives"]);
        let k = 2f64.powi(*ctx.rng.pick(&[-300, -140, 120, 300]));
        let far = |rng: &mut Rng| if rng.chance(1, 5) { 0 } else { (1i64 << (16 + rng.below(37))) * *rng.pick(&[1, -1]) };
        let (ox, oy) = (far(&mut ctx.rng), far(&mut ctx.rng));
        let setting = format!("{setting}, coordinates {kind}");
        fswatch::LOG.lock().unwrap().clear();
        fswatch::ON.store(true, Ordering::SeqCst);
        // twice: the second call finds the files of the first
        let mut res = Ok(());
        for round in 0..2 {
            res = match kind {
                "f64" => run_nested(&reg, &p, fmt).and_then(|t| verdict14(&reg, &t, fmt)),
                "f32" => drawn(&reg, &polys, |v| v as f32),
                "f64 scaled" => drawn(&reg, &polys, |v| v as f64 * k),
                "f64 far from the origin" => drawn_at(&reg, &polys, |v, d| (v + if d == 0 { ox } else { oy }) as f64),
                "exact rationals" => drawn(&reg, &polys, |v| Ex::ratio(v, 7)),
                _ => {
                    coord::OPAQUE.with(|o| o.set(kind != "user-defined float"));
                    let r = drawn(&reg, &polys, |v| Cf(v as f64));
                    coord::OPAQUE.with(|o| o.set(false));
                    r
                }
            }
            .map_err(|m| format!("[{fmt}, call {round}, {setting}] {m}"));
            if res.is_err() {
                break;
            }
            ctx.add("triangulations with the debugging feature", 1);
        }
        // rejected and invalid input must not behave differently either
        let deg: Vec<Vec<[f64; 2]>> = vec![vec![[0.0, 0.0], [1.0, 1.0]]];
        let d = guard(|| deg.triangulate(formats::IndexedFanFormat::<_, Vec<Vec<[usize; 2]>>>::new(vec![])).map(|_| ()).map_err(|e| err_text(&e)));
        fswatch::ON.store(false, Ordering::SeqCst);
        res?;
        if d != Ok(Err("NotEnoughVertices(2)".to_string())) {
            return Err(format!("a polygon of two vertices gave {d:?} with {setting}"));
        }
        let log = std::mem::take(&mut *fswatch::LOG.lock().unwrap());
        ctx.add("file system effects attempted", log.len() as u64);
        for (what, path) in &log {
            let a = abs(&cwd, Path::new(path));
            let below = allowed.as_ref().map_or(false, |d| a.starts_with(d));
            if off {
                return Err(format!("{what} of {path} although output is off ({setting})"));
            }
            if !below {
                return Err(format!("{what} of {path} outside the configured directory ({setting})"));
            }
        }
        let after = tree(root);
        let mut written = 0;
        for (path, v) in &after {
            if before.get(path) != Some(v) {
                let below = allowed.as_ref().map_or(false, |d| path.starts_with(d));
                if off || !below {
                    return Err(format!("{} was written ({setting})", path.display()));
                }
                written += 1;
            }
        }
        for path in before.keys() {
            if !after.contains_key(path) {
                return Err(format!("{} was removed ({setting})", path.display()));
            }
        }
        ctx.add("debug files written", written);
        ctx.add(if off { "cases with output off" } else if written > 0 { "cases with debug output" } else { "cases whose output could not be written" }, 1);
        ctx.add(pk_static(pk), 1);
        ctx.sig(mix(hash_polys(&polys), setting.bytes().fold(3, |h, b| mix(h, b as u64))));
        ctx.sample(|| format!("{setting}: {} effects, {written} files, {} vertices", log.len(), reg.verts.len()));
        Ok(())
    }
    fn drawn<C: Real + Debug + 'static>(reg: &Region, polys: &[Vec<P>], conv: impl Fn(i64) -> C) -> Verdict {
        drawn_at(reg, polys, |v, _| conv(v))
    }
    fn drawn_at<C: Real + Debug + 'static>(reg: &Region, polys: &[Vec<P>], conv: impl Fn(i64, usize) -> C) -> Verdict {
        let p: Vec<Vec<[C; 2]>> = polys.iter().map(|r| r.iter().map(|v| [conv(v[0], 0), conv(v[1], 1)]).collect()).collect();
        let t = nested_ids(reg, &tri(&p)?)?;
        check_all(reg, &t)
    }
    fn pk_static(s: &str) -> &'static str {
        ["unset", "existing directory", "directory with conflicting content", "missing directory", "missing nested directory", "a file", "below a file", "relative directory", "relative directory with dots", "a device", "not unicode", "unusable name"].iter().find(|x| **x == s).copied().unwrap_or("?")
    }
}

pub fn streams(prop: &str, variant: &str) -> Vec<Stream> {
    match (prop, variant) {
        #[cfg(feature = "p12")]
        ("C12", "miri") => vec![
            stream("valid", c12_valid, 12, 120),
            stream("garbage", c12_garbage, 8, 80).may_hang(),
            stream("wild", c12_wild, 8, 80).may_hang(),
            stream("plain", c12_plain, 8, 80).may_hang(),
        ],
        #[cfg(feature = "p12")]
        ("C12", _) => vec![
            stream("valid", c12_valid, 4_000, 100_000),
            stream("garbage", c12_garbage, 4_000, 100_000).may_hang(),
            stream("wild", c12_wild, 4_000, 100_000).may_hang(),
            stream("plain", c12_plain, 6_000, 150_000).may_hang(),
            stream("large", |c| long(c, c12_valid), 20, 600).cpu(60),
        ],
        #[cfg(feature = "p13")]
        ("C13", _) => vec![
            stream("f64", c13_f64, 6_000, 200_000),
            stream("f32", c13_f32, 6_000, 200_000),
            stream("types", c13_types, 5_000, 150_000),
            stream("rounding", c13_rounding, 6_000, 200_000),
        ],
        #[cfg(feature = "p14")]
        ("C14", "miri") => vec![stream("threads", c14_threads, 6, 60), stream("plain", c14_plain, 4, 40)],
        #[cfg(feature = "p14")]
        ("C14", "tsan") => vec![stream("threads", c14_threads, 600, 20_000), stream("plain", c14_plain, 300, 10_000), stream("large", |c| long(c, if c.idx % 2 == 0 { c14_threads } else { c14_plain }), 8, 300).cpu(120)],
        #[cfg(feature = "p14")]
        ("C14", _) => vec![
            stream("threads", c14_threads, 3_000, 80_000),
            stream("plain", c14_plain, 1_500, 40_000),
            stream("history", c14_history, 5_000, 150_000),
            stream("reuse", c14_reuse, 5_000, 150_000),
            stream("long", c14_long, 4, 120).cpu(120),
            stream("deep", |c| deep(c, c14_history), 12, 600).cpu(60).stack(192 << 10),
            stream("crowd", c14_crowd, 20, 600),
            stream("large", |c| long(c, if c.idx % 2 == 0 { c14_threads } else { c14_plain }), 10, 400).cpu(120),
        ],
        #[cfg(all(feature = "dbg", feature = "p18"))]
        ("C18", _) => vec![stream("debug", c18::case, 700, 12_000).solo()],
        _ => vec![],
    }
}
