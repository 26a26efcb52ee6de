//! Exact offline oracle for a triangulation.
use crate::geom::*;
use std::collections::HashMap;

/// Region described by a valid polygon set under the even-odd rule, oriented so that the interior is on the left.
pub struct Region {
    pub verts: Vec<P>,
    pub rings: Vec<Vec<u32>>, // ids into verts, oriented
    pub offsets: Vec<usize>,
    pub area2: i128,
    pub outer: usize,
    pub holes: usize,
}

impl Region {
    pub fn new(polys: &[Vec<P>]) -> Region {
        let d = depths(polys);
        let mut verts = Vec::new();
        let mut rings = Vec::new();
        let mut offsets = Vec::new();
        let mut total = 0;
        let (mut outer, mut holes) = (0, 0);
        for (p, d) in polys.iter().zip(&d) {
            let base = verts.len() as u32;
            offsets.push(base as usize);
            verts.extend_from_slice(p);
            let a = area2(p);
            let want_ccw = d % 2 == 0;
            if want_ccw {
                outer += 1;
                total += a.abs();
            } else {
                holes += 1;
                total -= a.abs();
            }
            let mut ids: Vec<u32> = (base..base + p.len() as u32).collect();
            if (a > 0) != want_ccw {
                ids.reverse();
            }
            rings.push(ids);
        }
        Region { verts, rings, offsets, area2: total, outer, holes }
    }

    /// Number of triangles of any triangulation that uses exactly the polygon vertices and is conforming
    pub fn full_count(&self) -> usize {
        self.verts.len() + 2 * self.holes - 2 * self.outer
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// Exact tiling certificate.  Every non-degenerate triangle is taken counter-clockwise; the sum of the triangles'
/// boundaries minus the region's boundary must vanish as a 1-chain.  Two integer 2-chains in the plane with the same
/// boundary are equal, so this holds iff (almost) every point of the region is in exactly one triangle and every point
/// outside in none.
pub fn check_tiling(reg: &Region, tris: &[[u32; 3]]) -> Result<(), String> {
    let v = &reg.verts;
    let mut chain: HashMap<(u32, u32), i32> = HashMap::with_capacity(tris.len() * 3 + v.len());
    let mut add = |a: u32, b: u32, s: i32| {
        if a == b {
            return;
        }
        let (k, s) = if a < b { ((a, b), s) } else { ((b, a), -s) };
        *chain.entry(k).or_insert(0) += s;
    };
    let mut sum = 0i128;
    for t in tris {
        let [a, b, c] = *t;
        let o = orient(v[a as usize], v[b as usize], v[c as usize]);
        sum += o.abs();
        let (b, c) = if o >= 0 { (b, c) } else { (c, b) };
        if o != 0 {
            add(a, b, 1);
            add(b, c, 1);
            add(c, a, 1);
        }
    }
    for r in &reg.rings {
        for i in 0..r.len() {
            add(r[i], r[(i + 1) % r.len()], -1);
        }
    }
    let left: Vec<_> = chain.iter().filter(|(_, c)| **c != 0).map(|(k, c)| (*k, *c)).collect();
    if left.is_empty() {
        return if sum == reg.area2 { Ok(()) } else { Err(format!("area mismatch {} != {}", sum, reg.area2)) };
    }
    // collinear remainder: group by supporting line and sum coverage along it
    let mut lines: HashMap<(i128, i128, i128), Vec<(P, i32)>> = HashMap::new();
    for ((a, b), c) in left {
        let (pa, pb) = (v[a as usize], v[b as usize]);
        let (pa, pb, c) = if pa < pb { (pa, pb, c) } else { (pb, pa, -c) };
        let (mut dx, mut dy) = (pb[0] as i128 - pa[0] as i128, pb[1] as i128 - pa[1] as i128);
        let g = gcd(dx, dy);
        if g == 0 {
            continue;
        }
        dx /= g;
        dy /= g;
        let off = dx * pa[1] as i128 - dy * pa[0] as i128;
        let e = lines.entry((dx, dy, off)).or_default();
        e.push((pa, c));
        e.push((pb, -c));
    }
    for (line, mut ev) in lines {
        ev.sort();
        let mut acc = 0;
        let mut i = 0;
        while i < ev.len() {
            let p = ev[i].0;
            while i < ev.len() && ev[i].0 == p {
                acc += ev[i].1;
                i += 1;
            }
            if acc != 0 {
                return Err(format!("boundary mismatch on line {:?} after {:?} (multiplicity {}); area {} vs region {}", line, p, acc, sum, reg.area2));
            }
        }
    }
    if sum != reg.area2 {
        return Err(format!("area mismatch {} != {}", sum, reg.area2));
    }
    Ok(())
}

/// (positive, zero, negative) orientation counts
pub fn orientations(reg: &Region, tris: &[[u32; 3]]) -> (usize, usize, usize) {
    let v = &reg.verts;
    let mut r = (0, 0, 0);
    for t in tris {
        let o = orient(v[t[0] as usize], v[t[1] as usize], v[t[2] as usize]);
        match o.signum() {
            1 => r.0 += 1,
            0 => r.1 += 1,
            _ => r.2 += 1,
        }
    }
    r
}
