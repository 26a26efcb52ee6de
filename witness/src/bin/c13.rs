//! A coordinate type with the real-number trait and what the vertex arrays ask for (Debug), and nothing else.
#[path = "../../../harness/src/coord.rs"]
#[allow(dead_code)]
mod coord;
#[path = "../../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
use coord::Ex;
use triangulate::formats::*;
use triangulate::{ListFormat, Polygon, PolygonList, Vertex};

struct At(Ex, Ex);
impl Vertex for At {
    type Coordinate = Ex;
    fn x(&self) -> Ex { self.0 }
    fn y(&self) -> Ex { self.1 }
}
fn main() {
    let ring: Vec<[i64; 2]> = (0..40).map(|i| { let y = i - 20; [y * y + i % 3, y] }).collect();
    let a: Vec<[Ex; 2]> = ring.iter().map(|v| [Ex::ratio(v[0], 7), Ex::ratio(v[1] + 3, 97)]).collect();
    let b: Vec<(Ex, Ex)> = ring.iter().map(|v| (Ex::int(v[0] + (1 << 60)), Ex::int(v[1]))).collect();
    let c: Vec<At> = ring.iter().map(|v| At(Ex::ratio(v[0], 3), Ex::ratio(v[1], -11))).collect();
    macro_rules! go { ($p:expr) => {{
        let mut out = Vec::<usize>::new();
        if let Err(e) = Polygon::triangulate($p, IndexedListFormat::new(&mut out).into_fan_format()) { panic!("{}", e.to_string().lines().next().unwrap_or("")) }
        assert_eq!(out.len(), 3 * 38);
        let fans = Polygon::triangulate($p, IndexedFanFormat::<_, Vec<Vec<usize>>>::new(Vec::new())).expect("fans");
        assert_eq!(fans.iter().map(|f| f.len() - 2).sum::<usize>(), 38);
    }} }
    go!(&a);
    go!(&b);
    go!(&c);
    let l = vec![a];
    let d = PolygonList::triangulate(&l, DeindexedListFormat::<_, Vec<[Ex; 2]>>::new(Vec::new()).into_fan_format()).expect("list");
    assert_eq!(d.len(), 3 * 38);
}
