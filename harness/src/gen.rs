//! Workload generators: valid polygon sets on the integer grid.
use crate::geom::*;
use crate::rng::Rng;
use std::collections::{HashMap, HashSet};

pub const FAMILIES: &[&str] = &[
    "grow", "growfine", "twoopt", "polyomino", "polyfine", "mountain", "ymono", "comb", "spiral", "zigzag", "star", "convex", "nested", "scatter",
    "islands", "stairs", "rects", "teeth", "tree", "pinwheel",
];

/// Try to build a valid set of the family with about `n` vertices. The result is always valid.
pub fn generate(rng: &mut Rng, family: &str, n: usize) -> Polys {
    for _ in 0..60 {
        let p = raw(rng, family, n);
        if p.is_empty() {
            continue;
        }
        let p = dress(rng, p);
        if valid(&p) {
            return p;
        }
    }
    vec![vec![[0, 0], [4, 0], [1, 3]]]
}

fn raw(rng: &mut Rng, family: &str, n: usize) -> Polys {
    match family {
        "grow" => {
            let g = rng.range(2, 12);
            one(grow(rng, n, g))
        }
        "growfine" => {
            let g = *rng.pick(&[50, 300, 2000]);
            one(grow(rng, n, g))
        }
        "twoopt" => {
            let g = *rng.pick(&[6, 12, 40, 1000]);
            one(two_opt(rng, n.min(40), g))
        }
        "polyomino" => polyomino(rng, n, true),
        "polyfine" => polyomino(rng, n, false),
        "mountain" => vec![mountain(rng, n)],
        "ymono" => vec![ymono(rng, n)],
        "comb" => vec![comb(rng, n)],
        "spiral" => vec![spiral(rng, n)],
        "zigzag" => vec![zigzag(rng, n)],
        "star" => one(star(rng, n)),
        "convex" => vec![convex(n, *rng.pick(&[30, 200, 1200]))],
        "nested" => nested(rng, n),
        "scatter" => scatter(rng, n),
        "islands" => islands(rng, n),
        "stairs" => vec![stairs(rng, n)],
        "rects" => rects(rng, n),
        "teeth" => vec![teeth(rng, n)],
        "tree" => one(tree(rng, n)),
        "pinwheel" => pinwheel(rng, n),
        _ => panic!("unknown family {family}"),
    }
}

fn one(p: Option<Vec<P>>) -> Polys {
    p.map(|p| vec![p]).unwrap_or_default()
}

/// Random symmetric dressing: flips, transposition, shear, ring direction, start vertex, ring order.
pub fn dress(rng: &mut Rng, mut polys: Polys) -> Polys {
    let fx = rng.chance(1, 2);
    let fy = rng.chance(1, 2);
    let tr = rng.chance(1, 2);
    let shear = if rng.chance(1, 5) { rng.range(-2, 2) } else { 0 };
    let sheary = if rng.chance(1, 8) { rng.range(-2, 2) } else { 0 };
    for p in polys.iter_mut() {
        for v in p.iter_mut() {
            if tr {
                v.swap(0, 1);
            }
            if fx {
                v[0] = -v[0];
            }
            if fy {
                v[1] = -v[1];
            }
            v[0] += shear * v[1];
            v[1] += sheary * v[0];
        }
        if rng.chance(1, 2) {
            p.reverse();
        }
        let k = rng.below(p.len());
        p.rotate_left(k);
    }
    rng.shuffle(&mut polys);
    polys
}

fn edge_ok_in(ring: &[P], skip: &[usize], a: P, b: P) -> bool {
    let n = ring.len();
    (0..n).all(|i| skip.contains(&i) || !segments_touch(ring[i], ring[(i + 1) % n], a, b))
}

/// Grow a simple polygon by replacing edges with two edges through a new grid point.
pub fn grow(rng: &mut Rng, n: usize, g: i64) -> Option<Vec<P>> {
    let mut ring = vec![];
    for _ in 0..50 {
        ring = (0..3).map(|_| [rng.range(0, g), rng.range(0, g)]).collect();
        if orient(ring[0], ring[1], ring[2]) != 0 {
            break;
        }
        ring.clear();
    }
    if ring.is_empty() {
        return None;
    }
    let mut used: HashSet<P> = ring.iter().copied().collect();
    let mut tries = 0;
    let max_tries = n * 12;
    while ring.len() < n && tries < max_tries {
        tries += 1;
        let i = rng.below(ring.len());
        let (a, b) = (ring[i], ring[(i + 1) % ring.len()]);
        let p = if rng.chance(2, 3) {
            // local
            let d = ((a[0] - b[0]).abs().max((a[1] - b[1]).abs())).max(2);
            let m = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2];
            [(m[0] + rng.range(-d, d)).clamp(0, g), (m[1] + rng.range(-d, d)).clamp(0, g)]
        } else {
            [rng.range(0, g), rng.range(0, g)]
        };
        if used.contains(&p) {
            continue;
        }
        let m = ring.len();
        // p must see both ends; new edges may only touch the neighbours at a and b
        let prev = (i + m - 1) % m;
        let next = (i + 1) % m;
        if on_segment(a, b, p) {
            ring.insert(i + 1, p);
            used.insert(p);
            continue;
        }
        if !edge_ok_in(&ring, &[i, prev], a, p) || !edge_ok_in(&ring, &[i, next], p, b) {
            continue;
        }
        // neighbours: prev edge (ring[prev], a) may touch a-p only at a; must not touch p-b, likewise for next
        let pp = ring[prev];
        let nn = ring[(next + 1) % m];
        if orient(pp, a, p) == 0 && (on_segment(pp, a, p) || on_segment(a, p, pp)) {
            continue;
        }
        if orient(nn, b, p) == 0 && (on_segment(nn, b, p) || on_segment(b, p, nn)) {
            continue;
        }
        ring.insert(i + 1, p);
        used.insert(p);
    }
    Some(ring)
}

pub fn two_opt(rng: &mut Rng, n: usize, g: i64) -> Option<Vec<P>> {
    let mut set = HashSet::new();
    let mut t = 0;
    while set.len() < n && t < n * 20 {
        set.insert([rng.range(0, g), rng.range(0, g)]);
        t += 1;
    }
    let mut v: Vec<P> = set.into_iter().collect();
    v.sort();
    rng.shuffle(&mut v);
    let n = v.len();
    if n < 3 {
        return None;
    }
    for _ in 0..200 {
        let mut changed = false;
        for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if segments_touch(v[i], v[i + 1], v[j], v[(j + 1) % n]) {
                    v[i + 1..=j].reverse();
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(v);
        }
    }
    None
}

/// Boundary of a random union of grid cells; keeps (coarse) or partly drops collinear lattice points.
pub fn polyomino(rng: &mut Rng, n: usize, drop: bool) -> Polys {
    let side = ((n as f64).sqrt() as i64 + 2).clamp(3, 60);
    let mut cells: HashSet<P> = HashSet::new();
    let dens = rng.range(35, 75) as usize;
    for x in 0..side {
        for y in 0..side {
            if rng.chance(dens, 100) {
                cells.insert([x, y]);
            }
        }
    }
    // remove corner-touching configurations
    loop {
        let mut bad = None;
        'o: for x in 0..=side {
            for y in 0..=side {
                let c = |dx: i64, dy: i64| cells.contains(&[x + dx, y + dy]);
                let (a, b, d, e) = (c(-1, -1), c(0, -1), c(-1, 0), c(0, 0));
                if (a && e && !b && !d) || (b && d && !a && !e) {
                    bad = Some((x, y));
                    break 'o;
                }
            }
        }
        match bad {
            None => break,
            Some((x, y)) => {
                let opts = [[x - 1, y - 1], [x, y - 1], [x - 1, y], [x, y]];
                let add = rng.chance(1, 2);
                for o in opts {
                    if o[0] < 0 || o[1] < 0 || o[0] >= side || o[1] >= side {
                        continue;
                    }
                    if add {
                        cells.insert(o);
                    } else {
                        cells.remove(&o);
                    }
                }
            }
        }
    }
    let mut next: HashMap<P, P> = HashMap::new();
    let mut sorted: Vec<_> = cells.iter().copied().collect();
    sorted.sort();
    for &[x, y] in &sorted {
        if !cells.contains(&[x, y - 1]) {
            next.insert([x, y], [x + 1, y]);
        }
        if !cells.contains(&[x + 1, y]) {
            next.insert([x + 1, y], [x + 1, y + 1]);
        }
        if !cells.contains(&[x, y + 1]) {
            next.insert([x + 1, y + 1], [x, y + 1]);
        }
        if !cells.contains(&[x - 1, y]) {
            next.insert([x, y + 1], [x, y]);
        }
    }
    let mut keys: Vec<P> = next.keys().copied().collect();
    keys.sort();
    let mut done = HashSet::new();
    let mut out = vec![];
    let keep = if drop { 0 } else { rng.range(20, 100) as usize };
    for k in keys {
        if done.contains(&k) {
            continue;
        }
        let mut ring = vec![];
        let mut c = k;
        while done.insert(c) {
            ring.push(c);
            c = next[&c];
        }
        let m = ring.len();
        let r: Vec<P> = (0..m)
            .filter(|&i| orient(ring[(i + m - 1) % m], ring[i], ring[(i + 1) % m]) != 0 || rng.chance(keep, 100))
            .map(|i| ring[i])
            .collect();
        out.push(r);
    }
    out
}

/// Monotone mountain: one long edge, one y-monotone chain on one side.
pub fn mountain(rng: &mut Rng, n: usize) -> Vec<P> {
    let flat = rng.chance(1, 4);
    let mut y = 0i64;
    let w = *rng.pick(&[3i64, 10, 200]);
    let mut v = vec![[0, 0]];
    let shape = rng.below(5);
    for i in 1..n.max(3) - 1 {
        let step = if flat && rng.chance(1, 3) { 0 } else { rng.range(1, 4) };
        y -= step;
        let t = i as i64;
        let m = n as i64;
        let x = match shape {
            0 => rng.range(1, w),
            1 => 1 + t * (m - t),                                          // convex
            2 => (m / 2 + 1 - t).abs() * (m / 2 + 1 - t).abs() + 1,        // concave
            3 => if i % 2 == 0 { rng.range(1, 3) } else { w + rng.range(0, 3) }, // saw
            _ => 1 + (t * t * 7919) % (w + 1),
        };
        // equal y must have decreasing x (chain stays monotone in (y, x) order)
        if step == 0 {
            let px = v.last().unwrap()[0];
            if px <= 1 {
                y -= 1;
                v.push([x, y]);
            } else {
                v.push([rng.range(1, px - 1).max(1), y]);
            }
        } else {
            v.push([x, y]);
        }
    }
    v.push([0, y - rng.range(1, 3)]);
    v
}

pub fn ymono(rng: &mut Rng, n: usize) -> Vec<P> {
    let w = *rng.pick(&[3i64, 20, 500]);
    let mut l = vec![];
    let mut r = vec![];
    let mut y = -1;
    for _ in 0..n.max(4) - 2 {
        let side = rng.chance(1, 2);
        let list = if side { &mut r } else { &mut l };
        let x = rng.range(1, w) * if side { 1 } else { -1 };
        list.push([x, y]);
        if rng.chance(3, 4) || true {
            y -= rng.range(0, 2);
            // keep y strictly decreasing per side
            if l.last().map_or(false, |q: &P| q[1] == y) || r.last().map_or(false, |q: &P| q[1] == y) {
                let both = l.last().map_or(false, |q: &P| q[1] == y) && r.last().map_or(false, |q: &P| q[1] == y);
                if both || rng.chance(1, 2) {
                    y -= 1;
                } else {
                    // put the other side on the same height
                    let other_right = l.last().map_or(false, |q: &P| q[1] == y);
                    let x = rng.range(1, w);
                    if other_right {
                        r.push([x, y]);
                    } else {
                        l.push([-x, y]);
                    }
                    y -= 1;
                }
            }
        }
    }
    let mut v = vec![[rng.range(-1, 1), 0]];
    v.extend(r);
    v.push([rng.range(-1, 1), y - 1]);
    l.reverse();
    v.extend(l);
    v
}

pub fn comb(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(2) as i64;
    let mut v = vec![];
    let jitter = rng.chance(1, 2);
    for i in 0..k {
        v.push([2 * i, 10 + if jitter { rng.range(0, 20) } else { 0 }]);
        if i + 1 < k {
            v.push([2 * i + 1, 2 + if jitter { rng.range(0, 6) } else { 0 }]);
        }
    }
    v.push([2 * k, rng.range(-3, 0)]);
    v.push([-1, rng.range(-3, 0)]);
    v
}

pub fn spiral(rng: &mut Rng, n: usize) -> Vec<P> {
    // rectangular double spiral
    let turns = (n / 2).max(4) as i64;
    let w = rng.range(1, 2);
    let gap = 2 + w + rng.range(0, 2);
    let dirs = [[1, 0], [0, 1], [-1, 0], [0, -1]];
    let mut outer = vec![[0i64, 0i64]];
    let mut p = [0i64, 0i64];
    let mut len = gap * (turns / 2 + 3);
    let mut segs = vec![];
    for t in 0..turns {
        let d = dirs[(t % 4) as usize];
        segs.push((d, len));
        if t >= 1 && t % 2 == 0 {
            len -= gap;
        }
        if len < gap * 2 {
            break;
        }
    }
    for (d, l) in &segs {
        p = [p[0] + d[0] * l, p[1] + d[1] * l];
        outer.push(p);
    }
    // thicken on the left (spiral turns left): offset inward by w
    let m = outer.len();
    let mut inner = vec![];
    for i in 0..m {
        let din = if i > 0 { segs[i - 1].0 } else { segs[0].0 };
        let dout = if i < m - 1 { segs[i].0 } else { segs[m - 2].0 };
        let nin = [-din[1], din[0]];
        let nout = [-dout[1], dout[0]];
        let o = if nin == nout { nin } else { [nin[0] + nout[0], nin[1] + nout[1]] };
        inner.push([outer[i][0] + o[0] * w, outer[i][1] + o[1] * w]);
    }
    inner.reverse();
    outer.extend(inner);
    outer
}

pub fn zigzag(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(2) as i64;
    let amp = rng.range(3, 40);
    let mut v: Vec<P> = (0..k).map(|i| [if i % 2 == 0 { 0 } else { amp }, 2 * i]).collect();
    let back: Vec<P> = v.iter().rev().map(|p| [p[0] + amp + 3, p[1] + rng.range(0, 0)]).collect();
    v.extend(back);
    v
}

pub fn star(rng: &mut Rng, n: usize) -> Option<Vec<P>> {
    let r = *rng.pick(&[8i64, 60, 1000]);
    let mut dirs: Vec<P> = vec![];
    let mut seen = HashSet::new();
    for _ in 0..n * 6 {
        if dirs.len() >= n {
            break;
        }
        let p = [rng.range(-r, r), rng.range(-r, r)];
        if p == [0, 0] {
            continue;
        }
        let g = {
            let (mut a, mut b) = (p[0].abs(), p[1].abs());
            while b != 0 {
                (a, b) = (b, a % b);
            }
            a
        };
        if seen.insert([p[0] / g, p[1] / g]) {
            dirs.push(p);
        }
    }
    if dirs.len() < 3 {
        return None;
    }
    let half = |p: &P| (p[1] < 0 || (p[1] == 0 && p[0] < 0)) as u8;
    dirs.sort_by(|a, b| half(a).cmp(&half(b)).then_with(|| 0.cmp(&orient([0, 0], *a, *b).signum())));
    let n = dirs.len();
    // angular gaps must be < pi
    if (0..n).any(|i| orient([0, 0], dirs[i], dirs[(i + 1) % n]) <= 0) {
        return None;
    }
    Some(dirs)
}

pub fn convex(n: usize, r: i64) -> Vec<P> {
    let mut v: Vec<P> = vec![];
    for i in 0..n {
        let t = std::f64::consts::TAU * i as f64 / n as f64;
        let p = [(t.cos() * r as f64).round() as i64, (t.sin() * r as f64).round() as i64];
        if v.last() != Some(&p) && v.first() != Some(&p) {
            v.push(p);
        }
    }
    v
}

pub fn nested(rng: &mut Rng, n: usize) -> Polys {
    let depth = (n / 4).clamp(1, 12);
    let mut out = vec![];
    let step = rng.range(1, 3);
    for d in 0..depth {
        let r = (depth - d) as i64 * (step + 1) * 2;
        let kind = rng.below(3);
        let s = r;
        out.push(match kind {
            0 => vec![[-s, -s], [s, -s], [s, s], [-s, s]],
            1 => vec![[-s, -s], [0, -s], [s, -s], [s, 0], [s, s], [0, s], [-s, s], [-s, 0]],
            _ => vec![[-s, -s], [s - 1, -s], [s, s - 1], [-s + 1, s]],
        });
    }
    out
}

fn place(polys: &[Vec<P>], scale: i64, off: P) -> Polys {
    polys.iter().map(|p| p.iter().map(|v| [v[0] * scale + off[0], v[1] * scale + off[1]]).collect()).collect()
}

fn extent(polys: &[Vec<P>]) -> (P, P) {
    let mut lo = [i64::MAX; 2];
    let mut hi = [i64::MIN; 2];
    for v in polys.iter().flatten() {
        for k in 0..2 {
            lo[k] = lo[k].min(v[k]);
            hi[k] = hi[k].max(v[k]);
        }
    }
    (lo, hi)
}

/// several independent shapes dropped into random positions (holes, islands or neighbours, whatever is valid)
pub fn scatter(rng: &mut Rng, n: usize) -> Polys {
    let mut out: Polys = vec![];
    let g = *rng.pick(&[10i64, 20, 60]);
    if rng.chance(2, 3) {
        out.push(vec![[-1, -1], [g + 1, -1], [g + 1, g + 1], [-1, g + 1]]);
    }
    let mut total = 0;
    let mut tries = 0;
    while total < n && tries < 60 {
        tries += 1;
        let m = 3 + rng.below(6);
        let gg = rng.range(2, (g / 2).max(3));
        let Some(p) = grow(rng, m, gg) else { continue };
        let off = [rng.range(0, g - gg), rng.range(0, g - gg)];
        let p: Vec<P> = p.iter().map(|v| [v[0] + off[0], v[1] + off[1]]).collect();
        let l = p.len();
        out.push(p);
        if valid(&out) {
            total += l;
        } else {
            out.pop();
        }
    }
    out
}

/// a grid of cells, each holding a shape of some other family
pub fn islands(rng: &mut Rng, n: usize) -> Polys {
    let k = rng.range(2, 4) as usize;
    let fams = ["grow", "polyomino", "star", "comb", "mountain", "ymono", "nested", "zigzag", "twoopt", "stairs"];
    let mut out = vec![];
    let mut cur = [0i64, 0i64];
    let mut row_h = 0;
    for c in 0..k * k {
        let f = *rng.pick(&fams);
        let p = raw(rng, f, (n / (k * k)).max(4));
        if p.is_empty() || !valid(&p) {
            continue;
        }
        let (lo, hi) = extent(&p);
        out.extend(place(&p, 1, [cur[0] - lo[0], cur[1] - lo[1]]));
        cur[0] += hi[0] - lo[0] + 1;
        row_h = row_h.max(hi[1] - lo[1]);
        if c % k == k - 1 {
            cur = [0, cur[1] + row_h + 1];
            row_h = 0;
        }
    }
    if !out.is_empty() && rng.chance(1, 2) {
        let (lo, hi) = extent(&out);
        out.push(vec![[lo[0] - 1, lo[1] - 1], [hi[0] + 1, lo[1] - 1], [hi[0] + 1, hi[1] + 1], [lo[0] - 1, hi[1] + 1]]);
    }
    out
}

pub fn stairs(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 2).max(2) as i64;
    let mut v = vec![[0, 0]];
    let mut p = [0i64, 0i64];
    for _ in 0..k {
        p[0] += rng.range(1, 3);
        v.push(p);
        p[1] += rng.range(1, 3);
        v.push(p);
    }
    v.push([0, p[1]]);
    v
}

pub fn rects(rng: &mut Rng, n: usize) -> Polys {
    let mut out: Polys = vec![];
    let g = *rng.pick(&[8i64, 16, 64]);
    let mut tries = 0;
    while out.len() < (n / 4).max(1) && tries < 100 {
        tries += 1;
        let (a, b) = ([rng.range(0, g), rng.range(0, g)], [rng.range(0, g), rng.range(0, g)]);
        if a[0] == b[0] || a[1] == b[1] {
            continue;
        }
        let (x0, x1, y0, y1) = (a[0].min(b[0]), a[0].max(b[0]), a[1].min(b[1]), a[1].max(b[1]));
        out.push(if rng.chance(1, 3) && x1 - x0 >= 2 && y1 - y0 >= 2 {
            let (mx, my) = ((x0 + x1) / 2, (y0 + y1) / 2);
            vec![[x0, my], [mx, y0], [x1, my], [mx, y1]]
        } else {
            vec![[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
        });
        if !valid(&out) {
            out.pop();
        }
    }
    out
}

/// two interlocking rows of teeth: many V and A vertices on equal heights
pub fn teeth(rng: &mut Rng, n: usize) -> Vec<P> {
    let k = (n / 4).max(2) as i64;
    let mut top = vec![];
    let mut bot = vec![];
    let h = rng.range(4, 10);
    for i in 0..k {
        top.push([4 * i, h + rng.range(0, 2)]);
        top.push([4 * i + 2, rng.range(1, 2)]);
        bot.push([4 * i, -rng.range(0, 1)]);
        bot.push([4 * i + 2, -h - rng.range(0, 2)]);
    }
    bot.reverse();
    top.extend(bot);
    top
}

/// outline of a random axis-parallel tree (thick): many same-height vertices and deep nesting of branches
pub fn tree(rng: &mut Rng, n: usize) -> Option<Vec<P>> {
    let side = ((n as f64 / 2.0).sqrt() as i64 + 1).clamp(2, 40);
    let mut cells = HashSet::new();
    let mut stack = vec![[0i64, 0i64]];
    let mut seen: HashSet<P> = stack.iter().copied().collect();
    cells.insert([0, 0]);
    while let Some(&c) = stack.last() {
        let mut ds = [[1, 0], [0, 1], [-1, 0], [0, -1]];
        rng.shuffle(&mut ds);
        let mut moved = false;
        for d in ds {
            let q = [c[0] + d[0], c[1] + d[1]];
            if q[0] < 0 || q[1] < 0 || q[0] >= side || q[1] >= side || seen.contains(&q) {
                continue;
            }
            seen.insert(q);
            cells.insert([2 * c[0] + d[0], 2 * c[1] + d[1]]);
            cells.insert([2 * q[0], 2 * q[1]]);
            stack.push(q);
            moved = true;
            break;
        }
        if !moved {
            stack.pop();
        }
    }
    let mut next: HashMap<P, P> = HashMap::new();
    for &[x, y] in &cells {
        if !cells.contains(&[x, y - 1]) {
            next.insert([x, y], [x + 1, y]);
        }
        if !cells.contains(&[x + 1, y]) {
            next.insert([x + 1, y], [x + 1, y + 1]);
        }
        if !cells.contains(&[x, y + 1]) {
            next.insert([x + 1, y + 1], [x, y + 1]);
        }
        if !cells.contains(&[x - 1, y]) {
            next.insert([x, y + 1], [x, y]);
        }
    }
    let start = [0, 0];
    let mut ring = vec![start];
    let mut c = next[&start];
    while c != start {
        ring.push(c);
        if ring.len() > next.len() + 1 {
            return None;
        }
        c = *next.get(&c)?;
    }
    let m = ring.len();
    let keep = rng.below(3) * 30;
    Some((0..m).filter(|&i| orient(ring[(i + m - 1) % m], ring[i], ring[(i + 1) % m]) != 0 || rng.chance(keep, 100)).map(|i| ring[i]).collect())
}

/// outer frame with many small triangular holes at lattice positions
pub fn pinwheel(rng: &mut Rng, n: usize) -> Polys {
    let k = (((n / 3) as f64).sqrt() as i64).clamp(1, 30);
    let mut out = vec![];
    let c = 5;
    for x in 0..k {
        for y in 0..k {
            let o = [x * c + 1, y * c + 1];
            let mut t = vec![[rng.range(0, 3), rng.range(0, 3)], [rng.range(0, 3), rng.range(0, 3)], [rng.range(0, 3), rng.range(0, 3)]];
            if orient(t[0], t[1], t[2]) == 0 {
                t = vec![[0, 0], [3, 1], [1, 3]];
            }
            out.push(t.iter().map(|v| [v[0] + o[0], v[1] + o[1]]).collect());
        }
    }
    out.push(vec![[0, 0], [k * c, 0], [k * c, k * c], [0, k * c]]);
    out
}

// --- large shapes, valid by construction (checked at moderate sizes by `tvmon selftest`) -----------------------------
pub const BIG: &[&str] = &["comb", "spiral", "zigzag", "stairs", "mountain", "ymono", "teeth", "parab", "sawconvex", "lattice", "deep", "flatcomb", "walk", "xsorted"];

pub fn big(rng: &mut Rng, kind: &str, n: usize) -> Polys {
    let mut dress = Rng::new(rng.next());
    big_with(rng, &mut dress, kind, n)
}

/// `dress` decides flips, transposition, direction and start independently of the size
pub fn big_with(rng: &mut Rng, dress: &mut Rng, kind: &str, n: usize) -> Polys {
    let p: Polys = match kind {
        "comb" => vec![comb(rng, n)],
        "spiral" => vec![spiral(rng, n)],
        "zigzag" => vec![zigzag(rng, n)],
        "stairs" => vec![stairs(rng, n)],
        "mountain" => vec![mountain(rng, n)],
        "ymono" => vec![ymono(rng, n)],
        "teeth" => vec![teeth(rng, n)],
        // convex: points on a parabola
        "parab" => vec![(0..n as i64).map(|i| [i, i * i]).collect()],
        // reflex chain facing a far apex: fans of maximal length
        "sawconvex" => {
            let m = n as i64 - 1;
            let mut v: Vec<P> = (0..m).map(|i| [i, i * (m - i)]).collect();
            v.push([m / 2, 2 * m * m + 5]);
            vec![v]
        }
        // frame with a lattice of small holes
        "lattice" => {
            let k = (((n / 4) as f64).sqrt() as i64).max(1);
            let mut out: Polys = vec![];
            for x in 0..k {
                for y in 0..k {
                    let o = [4 * x + 1, 4 * y + 1];
                    out.push(match rng.below(3) {
                        0 => vec![o, [o[0] + 2, o[1]], [o[0] + 2, o[1] + 2], [o[0], o[1] + 2]],
                        1 => vec![[o[0] + 1, o[1]], [o[0] + 2, o[1] + 1], [o[0] + 1, o[1] + 2], [o[0], o[1] + 1]],
                        _ => vec![o, [o[0] + 2, o[1] + 1], [o[0] + 1, o[1] + 2]],
                    });
                }
            }
            out.push(vec![[0, 0], [4 * k, 0], [4 * k, 4 * k], [0, 4 * k]]);
            out
        }
        // deeply nested rings
        "deep" => {
            let d = (n / 4).max(1) as i64;
            (1..=d)
                .map(|i| {
                    let s = 2 * i;
                    if rng.chance(1, 2) { vec![[-s, -s], [s, -s], [s, s], [-s, s]] } else { vec![[-s, -s + 1], [s - 1, -s], [s, s - 1], [-s + 1, s]] }
                })
                .collect()
        }
        // all teeth tips on two heights only
        "flatcomb" => {
            let k = (n / 2).max(2) as i64;
            let mut v: Vec<P> = vec![];
            for i in 0..k {
                v.push([2 * i, 4]);
                v.push([2 * i + 1, 1]);
            }
            v.push([2 * k - 1, 0]);
            v.push([0, 0]);
            vec![v]
        }
        // x-monotone random walk over a flat base
        "walk" => {
            let mut h = 1000i64;
            let mut v: Vec<P> = vec![];
            for i in 0..n.max(4) as i64 - 2 {
                h = (h + rng.range(-3, 3)).clamp(1, 2000);
                v.push([i, h]);
            }
            v.push([n.max(4) as i64 - 3, 0]);
            v.push([0, 0]);
            vec![v]
        }
        // vertices listed in sorted order along a long thin sliver strip
        "xsorted" => {
            let k = (n / 2).max(2) as i64;
            let mut v: Vec<P> = (0..k).map(|i| [3 * i, i % 2]).collect();
            v.extend((0..k).rev().map(|i| [3 * i + 1, 3 + i % 3]));
            vec![v]
        }
        _ => panic!("unknown big family {kind}"),
    };
    let rng = dress;
    let mut p = p;
    let fx = rng.chance(1, 2);
    let fy = rng.chance(1, 2);
    let tr = rng.chance(1, 3);
    for r in p.iter_mut() {
        for v in r.iter_mut() {
            if tr {
                v.swap(0, 1);
            }
            if fx {
                v[0] = -v[0];
            }
            if fy {
                v[1] = -v[1];
            }
        }
        if rng.chance(1, 2) {
            r.reverse();
        }
        if rng.chance(1, 2) {
            let k = rng.below(r.len());
            r.rotate_left(k);
        }
    }
    if rng.chance(1, 2) {
        rng.shuffle(&mut p);
    }
    p
}

/// All simple polygons with vertices on a small grid, up to start vertex and direction.
pub fn grid_polygons(w: i64, h: i64, max_n: usize) -> Vec<Vec<P>> {
    let pts: Vec<P> = (0..w * h).map(|i| [i % w, i / w]).collect();
    let mut out = vec![];
    fn rec(pts: &[P], path: &mut Vec<usize>, used: u32, max_n: usize, out: &mut Vec<Vec<P>>) {
        let k = path.len();
        if k >= 3 && path[1] < path[k - 1] {
            let ring: Vec<P> = path.iter().map(|&i| pts[i]).collect();
            if valid(&[ring.clone()]) {
                out.push(ring);
            }
        }
        if k == max_n {
            return;
        }
        for i in path[0] + 1..pts.len() {
            if used >> i & 1 != 0 {
                continue;
            }
            // prune: the new edge may not touch earlier non-adjacent edges
            let (a, b) = (pts[path[k - 1]], pts[i]);
            if (0..k.saturating_sub(2)).any(|j| segments_touch(pts[path[j]], pts[path[j + 1]], a, b)) {
                continue;
            }
            if k >= 2 && orient(pts[path[k - 2]], a, b) == 0 {
                let p = pts[path[k - 2]];
                if (a[0] - p[0]) * (b[0] - a[0]) + (a[1] - p[1]) * (b[1] - a[1]) <= 0 {
                    continue;
                }
            }
            path.push(i);
            rec(pts, path, used | 1 << i, max_n, out);
            path.pop();
        }
    }
    for s in 0..pts.len() {
        rec(&pts, &mut vec![s], 1 << s, max_n, &mut out);
    }
    out
}

/// Arbitrary garbage: self-crossing, duplicate, collinear, touching rings
pub fn garbage(rng: &mut Rng, n: usize) -> Polys {
    let g = *rng.pick(&[1i64, 2, 3, 5, 10, 100]);
    let mut out: Polys = match rng.below(5) {
        0 => vec![(0..n.max(3)).map(|_| [rng.range(0, g), rng.range(0, g)]).collect()],
        1 => {
            // a valid set with one vertex moved
            let f = *rng.pick(FAMILIES);
            let mut p = generate(rng, f, n.max(4));
            let r = rng.below(p.len());
            let i = rng.below(p[r].len());
            let all: Vec<P> = p.iter().flatten().copied().collect();
            p[r][i] = if rng.chance(1, 2) { *rng.pick(&all) } else { [p[r][i][0] + rng.range(-5, 5), p[r][i][1] + rng.range(-5, 5)] };
            p
        }
        2 => {
            // two overlapping valid sets
            let (fa, fb) = (*rng.pick(FAMILIES), *rng.pick(FAMILIES));
            let mut p = generate(rng, fa, n / 2 + 3);
            p.extend(generate(rng, fb, n / 2 + 3));
            p
        }
        3 => {
            // two vertices of a ring swapped
            let f = *rng.pick(FAMILIES);
            let mut p = generate(rng, f, n.max(4));
            let r = rng.below(p.len());
            let (i, j) = (rng.below(p[r].len()), rng.below(p[r].len()));
            p[r].swap(i, j);
            p
        }
        _ => {
            let a = rng.range(-3, 3);
            vec![(0..n.max(3) as i64).map(|i| [i * a, i * rng.range(0, 1)]).collect()]
        }
    };
    if rng.chance(1, 4) {
        out.push((0..3 + rng.below(3)).map(|_| [rng.range(0, g), rng.range(0, g)]).collect());
    }
    out
}

/// The repository's real-world outlines, quantised to integers
pub fn world(bits: u32) -> Vec<(String, Polys)> {
    let mut out = vec![];
    let Ok(rd) = std::fs::read_dir("/repo/resources/geometry/countries") else { return out };
    for f in rd.flatten() {
        let Ok(s) = std::fs::read_to_string(f.path()) else { continue };
        let mut polys: Polys = vec![vec![]];
        for l in s.lines() {
            let l = l.trim();
            if l.is_empty() {
                if !polys.last().unwrap().is_empty() {
                    polys.push(vec![]);
                }
                continue;
            }
            let mut it = l.split_whitespace().filter_map(|x| x.parse::<f64>().ok());
            let (Some(x), Some(y)) = (it.next(), it.next()) else { continue };
            let q = (1u64 << bits) as f64;
            polys.last_mut().unwrap().push([(x * q).round() as i64, (y * q).round() as i64]);
        }
        polys.retain(|p| !p.is_empty());
        if !polys.is_empty() {
            out.push((f.file_name().to_string_lossy().to_string(), polys));
        }
    }
    out.sort();
    out
}

/// flips, ring direction and start only (validity is invariant under them)
pub fn dress_flip(rng: &mut Rng, mut p: Polys) -> Polys {
    let (fx, fy, tr) = (rng.chance(1, 2), rng.chance(1, 2), rng.chance(1, 2));
    for r in p.iter_mut() {
        for v in r.iter_mut() {
            if tr {
                v.swap(0, 1);
            }
            if fx {
                v[0] = -v[0];
            }
            if fy {
                v[1] = -v[1];
            }
        }
        if rng.chance(1, 2) {
            r.reverse();
        }
        let k = rng.below(r.len());
        r.rotate_left(k);
    }
    rng.shuffle(&mut p);
    p
}

/// Polygon sets of growing size, listed in sorted, reversed, shuffled and adversarial orders
pub fn ring_sets(rng: &mut Rng, f: &str, n: usize) -> Polys {
    let small = |rng: &mut Rng, x: i64, y: i64| -> Vec<P> {
        match rng.below(3) {
            0 => vec![[x, y], [x + 6, y + 1], [x + 3, y + 7]],
            1 => vec![[x, y + 2], [x + 5, y], [x + 7, y + 5], [x + 2, y + 7]],
            _ => vec![[x, y], [x + 7, y], [x + 7, y + 7], [x + 4, y + 2], [x, y + 7]],
        }
    };
    let k = (n / 4).max(2) as i64;
    let side = (k as f64).sqrt() as i64 + 1;
    let mut p: Polys = match f {
        "row" => (0..k).map(|i| small(rng, 10 * i, 0)).collect(),
        "column" => (0..k).map(|i| small(rng, 0, 10 * i)).collect(),
        "diagonal" => (0..k).map(|i| small(rng, 10 * i, 9 * i)).collect(),
        "antidiagonal" => (0..k).map(|i| small(rng, -10 * i, 5 * i)).collect(),
        "lines" => (0..k).map(|i| small(rng, 10 * (i % side), 10 * (i / side))).collect(),
        "skewed" => (0..k).map(|i| small(rng, 10 * (i % side), 12 * side * (i % side) + 10 * (i / side))).collect(),
        // squares around each other
        "nested" => (1..=k).rev().map(|i| vec![[-3 * i, -3 * i], [3 * i, -3 * i + 1], [3 * i, 3 * i], [-3 * i + 1, 3 * i]]).collect(),
        // a frame with holes in rows
        "holes" => {
            let e = 10 * side + 10;
            let mut p = vec![vec![[-10, -10], [e, -10], [e, e], [-10, e]]];
            p.extend((0..k).map(|i| small(rng, 10 * (i % side), 10 * (i / side))));
            p
        }
        // long flat bars on top of each other, tall bars side by side
        "bars" => (0..k).map(|i| vec![[-100_000 + i, 3 * i], [100_000 - 2 * i, 3 * i], [100_000 - i, 3 * i + 1], [-100_000, 3 * i + 2]]).collect(),
        "posts" => (0..k).map(|i| vec![[3 * i, -100_000 + i], [3 * i + 2, -100_000], [3 * i + 1, 100_000 - i], [3 * i, 100_000 - 2 * i]]).collect(),
        // growing wedges: each spans the heights of all those before it
        "wedges" => (1..=k).map(|i| vec![[4 * i, -i], [4 * i + 3, 0], [4 * i, i]]).collect(),
        // half of the vertices in one large ring, the other half in small ones beside it
        _ => {
            let mut p = vec![big_with(&mut rng.clone(), &mut Rng::new(3), "stairs", n / 2).remove(0)];
            let right = p[0].iter().map(|v| v[0]).max().unwrap() + 20;
            p.extend((0..k / 2).map(|i| small(rng, right, 10 * i)));
            p
        }
    };
    match rng.below(4) {
        0 => p.reverse(),
        1 => {
            // inside out: from the middle of the list to both ends
            let mut q = vec![];
            let mut rest: std::collections::VecDeque<_> = p.drain(..).collect();
            while let Some(r) = if q.len() % 2 == 0 { rest.pop_back() } else { rest.pop_front() } {
                q.push(r);
            }
            q.reverse();
            p = q;
        }
        _ => {}
    }
    p
}
pub const SETS: &[&str] = &["row", "column", "diagonal", "antidiagonal", "lines", "skewed", "nested", "holes", "bars", "posts", "wedges", "mixed"];

/// Every power of two and every round number from `least` up to `top`, and the sizes next to them: as the number of vertices of one polygon, or as the
/// number of polygons
pub fn sized(rng: &mut Rng, i: u64, rings: bool, least: usize, top: usize) -> (&'static str, Polys) {
    const AT: &[usize] = &[64, 100, 128, 200, 250, 256, 300, 400, 500, 512, 600, 768, 800, 1000, 1024, 1500, 1536, 2000, 2048, 2500, 3000, 4000, 4096, 5000, 8000, 8192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536];
    let at: Vec<usize> = AT.iter().copied().filter(|n| (least..=top).contains(n)).collect();
    let k = at.len() as u64;
    let n = at[(i % k) as usize] + (i / k % 3) as usize + rng.chance(1, 8) as usize - 1;
    if !rings {
        let f = *rng.pick(&["mountain", "ymono", "parab", "sawconvex", "walk", "stairs", "teeth", "spiral"]);
        return (f, big(rng, f, n));
    }
    // the coordinates of some arrangements grow with the number of polygons
    let mut f = *rng.pick(SETS);
    if ["bars", "posts", "nested"].contains(&f) || n > 10_001 && ["row", "column", "diagonal", "antidiagonal", "wedges"].contains(&f) {
        f = "lines";
    }
    let mut p = ring_sets(rng, f, 4 * n);
    if f == "holes" {
        p.remove(1 + n / 2);
    }
    (f, p)
}
