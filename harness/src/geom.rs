//! Exact integer geometry used by generators and oracles (no floating point anywhere in a verdict).
use std::collections::{HashMap, HashSet};

pub type P = [i64; 2];
pub type Polys = Vec<Vec<P>>;

/// Twice the signed area of abc (>0: counter-clockwise with y up)
pub fn orient(a: P, b: P, c: P) -> i128 {
    let (ax, ay) = (a[0] as i128, a[1] as i128);
    (b[0] as i128 - ax) * (c[1] as i128 - ay) - (b[1] as i128 - ay) * (c[0] as i128 - ax)
}

fn between(a: P, b: P, p: P) -> bool {
    p[0] >= a[0].min(b[0]) && p[0] <= a[0].max(b[0]) && p[1] >= a[1].min(b[1]) && p[1] <= a[1].max(b[1])
}

/// p lies on closed segment ab
pub fn on_segment(a: P, b: P, p: P) -> bool {
    orient(a, b, p) == 0 && between(a, b, p)
}

/// closed segments ab and cd have a common point
pub fn segments_touch(a: P, b: P, c: P, d: P) -> bool {
    if a[0].max(b[0]) < c[0].min(d[0]) || c[0].max(d[0]) < a[0].min(b[0]) || a[1].max(b[1]) < c[1].min(d[1]) || c[1].max(d[1]) < a[1].min(b[1]) {
        return false;
    }
    let o1 = orient(a, b, c).signum();
    let o2 = orient(a, b, d).signum();
    let o3 = orient(c, d, a).signum();
    let o4 = orient(c, d, b).signum();
    if o1 * o2 < 0 && o3 * o4 < 0 {
        return true;
    }
    (o1 == 0 && between(a, b, c)) || (o2 == 0 && between(a, b, d)) || (o3 == 0 && between(c, d, a)) || (o4 == 0 && between(c, d, b))
}

/// edges (a,b) and (b,c) share only b
fn adjacent_ok(a: P, b: P, c: P) -> bool {
    if orient(a, b, c) != 0 {
        return true;
    }
    // collinear: must continue in the same direction
    let d1 = [(b[0] - a[0]) as i128, (b[1] - a[1]) as i128];
    let d2 = [(c[0] - b[0]) as i128, (c[1] - b[1]) as i128];
    d1[0] * d2[0] + d1[1] * d2[1] > 0
}

/// The documented preconditions, checked exactly: distinct vertices, >= 3 per ring, edges meet only at the shared vertex
/// of consecutive edges.
pub fn valid(polys: &[Vec<P>]) -> bool {
    let n: usize = polys.iter().map(|p| p.len()).sum();
    let mut seen = HashSet::with_capacity(n * 2);
    for p in polys {
        if p.len() < 3 {
            return false;
        }
        for v in p {
            if !seen.insert(*v) {
                return false;
            }
        }
        for i in 0..p.len() {
            if !adjacent_ok(p[i], p[(i + 1) % p.len()], p[(i + 2) % p.len()]) {
                return false;
            }
        }
    }
    // (ring, idx) edges
    let mut edges = Vec::with_capacity(n);
    for (r, p) in polys.iter().enumerate() {
        for i in 0..p.len() {
            edges.push((r, i, p[i], p[(i + 1) % p.len()]));
        }
    }
    let adjacent = |e: usize, f: usize| -> bool {
        let (r, i, _, _) = edges[e];
        let (q, j, _, _) = edges[f];
        r == q && {
            let l = polys[r].len();
            (i + 1) % l == j || (j + 1) % l == i
        }
    };
    if n <= 64 {
        for e in 0..edges.len() {
            for f in e + 1..edges.len() {
                if !adjacent(e, f) && segments_touch(edges[e].2, edges[e].3, edges[f].2, edges[f].3) {
                    return false;
                }
            }
        }
        return true;
    }
    // sweep over y with an active list ordered by insertion; buckets in x keep it near-linear for our workloads
    let (mut x0, mut x1, mut y0, mut y1) = (i64::MAX, i64::MIN, i64::MAX, i64::MIN);
    for (_, _, a, _) in &edges {
        x0 = x0.min(a[0]);
        x1 = x1.max(a[0]);
        y0 = y0.min(a[1]);
        y1 = y1.max(a[1]);
    }
    let g = ((n as f64).sqrt().ceil() as i128).clamp(1, 1024);
    let w = (x1 as i128 - x0 as i128 + 1).max(1);
    let h = (y1 as i128 - y0 as i128 + 1).max(1);
    let cx = |x: i64| ((x as i128 - x0 as i128) * g / w) as usize;
    let cy = |y: i64| ((y as i128 - y0 as i128) * g / h) as usize;
    let mut cells: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    for (k, e) in edges.iter().enumerate() {
        let (a, b) = (e.2, e.3);
        let (ya, yb) = (cy(a[1].min(b[1])), cy(a[1].max(b[1])));
        let (xa, xb) = (cx(a[0].min(b[0])), cx(a[0].max(b[0])));
        for y in ya..=yb {
            for x in xa..=xb {
                cells.entry((x, y)).or_default().push(k);
            }
        }
    }
    for list in cells.values() {
        for i in 0..list.len() {
            for j in i + 1..list.len() {
                let (e, f) = (list[i], list[j]);
                if !adjacent(e, f) && segments_touch(edges[e].2, edges[e].3, edges[f].2, edges[f].3) {
                    return false;
                }
            }
        }
    }
    true
}

/// Doubled signed area of a ring
pub fn area2(ring: &[P]) -> i128 {
    let o = ring[0];
    let mut s = 0i128;
    for i in 1..ring.len() - 1 {
        s += orient(o, ring[i], ring[i + 1]);
    }
    s
}

/// point strictly inside ring (p is known not to be on the boundary)
pub fn inside(ring: &[P], p: P) -> bool {
    let mut c = false;
    let n = ring.len();
    for i in 0..n {
        let (a, b) = (ring[i], ring[(i + 1) % n]);
        if (a[1] > p[1]) != (b[1] > p[1]) {
            let o = orient(a, b, p);
            if (b[1] > a[1]) == (o > 0) {
                c = !c;
            }
        }
    }
    c
}

/// Nesting depth of every ring of a valid set
pub fn depths(polys: &[Vec<P>]) -> Vec<usize> {
    let bb: Vec<_> = polys
        .iter()
        .map(|p| p.iter().fold((i64::MAX, i64::MIN, i64::MAX, i64::MIN), |b, v| (b.0.min(v[0]), b.1.max(v[0]), b.2.min(v[1]), b.3.max(v[1]))))
        .collect();
    // buckets in x keep large sets near-linear
    let (lo, hi) = bb.iter().fold((i64::MAX, i64::MIN), |a, b| (a.0.min(b.0), a.1.max(b.1)));
    let k = if polys.len() < 2000 { 1 } else { 512i128 };
    let at = |x: i64| ((x as i128 - lo as i128) * k / (hi as i128 - lo as i128 + 1)) as usize;
    let mut cols: Vec<Vec<u32>> = vec![vec![]; k as usize];
    for (j, b) in bb.iter().enumerate() {
        for c in &mut cols[at(b.0)..=at(b.1)] {
            c.push(j as u32);
        }
    }
    (0..polys.len())
        .map(|i| {
            let p = polys[i][0];
            cols[at(p[0])]
                .iter()
                .map(|&j| j as usize)
                .filter(|&j| j != i && p[0] > bb[j].0 && p[0] < bb[j].1 && p[1] > bb[j].2 && p[1] < bb[j].3 && inside(&polys[j], p))
                .count()
        })
        .collect()
}

/// number of exactly collinear triples exists? (small n only)
pub fn has_collinear_triple(polys: &[Vec<P>]) -> bool {
    let v: Vec<P> = polys.iter().flatten().copied().collect();
    for i in 0..v.len() {
        for j in i + 1..v.len() {
            for k in j + 1..v.len() {
                if orient(v[i], v[j], v[k]) == 0 {
                    return true;
                }
            }
        }
    }
    false
}
