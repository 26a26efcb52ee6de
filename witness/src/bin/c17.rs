//! Index types with equality and cloning and nothing else: not Debug, not Hash, not Ord, not Copy, not Default, not Send, not 'static.
use std::cell::Cell;
use std::rc::Rc;
use triangulate::formats::*;
use triangulate::{FanBuilder, FanFormat, ListFormat, Polygon, PolygonElement, PolygonList, TriangulationError};

pub struct Tok(Rc<Cell<usize>>);
impl Clone for Tok { fn clone(&self) -> Tok { Tok(self.0.clone()) } }
impl PartialEq for Tok { fn eq(&self, o: &Tok) -> bool { Rc::ptr_eq(&self.0, &o.0) } }
impl Eq for Tok {}

/// refers to data of a caller's frame
pub struct Loc<'a>(&'a Cell<[f64; 2]>);
impl<'a> Clone for Loc<'a> { fn clone(&self) -> Loc<'a> { Loc(self.0) } }
impl<'a> PartialEq for Loc<'a> { fn eq(&self, o: &Loc<'a>) -> bool { std::ptr::eq(self.0, o.0) } }
impl<'a> Eq for Loc<'a> {}

struct List(Vec<[f64; 2]>, Vec<Tok>);
impl<'p> PolygonList<'p> for List {
    type Vertex = [f64; 2];
    type Index = Tok;
    type IntoItem = PolygonElement<Tok>;
    type Iter<'i> = Box<dyn Iterator<Item = PolygonElement<Tok>> + 'i> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { Box::new(self.1.iter().map(|t| PolygonElement::ContinuePolygon(t.clone()))) }
    fn get_vertex<'a>(&'a self, i: Tok) -> &'a [f64; 2] where 'p: 'a { &self.0[i.0.get()] }
}
struct Poly(Vec<[f64; 2]>, Vec<Tok>);
impl<'p> Polygon<'p> for Poly {
    type Vertex = [f64; 2];
    type Index = Tok;
    type Iter<'i> = Box<dyn Iterator<Item = Tok> + 'i> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { Box::new(self.1.iter().cloned()) }
    fn get_vertex(&self, i: Tok) -> &[f64; 2] { &self.0[i.0.get()] }
}
struct Spots<'a>(Vec<Loc<'a>>, Vec<[f64; 2]>);
impl<'p, 'a: 'p> PolygonList<'p> for Spots<'a> {
    type Vertex = [f64; 2];
    type Index = Loc<'a>;
    type IntoItem = Option<Loc<'a>>;
    type Iter<'i> = Box<dyn Iterator<Item = Option<Loc<'a>>> + 'i> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { Box::new(self.0.iter().map(|t| Some(t.clone()))) }
    fn get_vertex<'b>(&'b self, i: Loc<'a>) -> &'b [f64; 2] where 'p: 'b { &self.1[self.0.iter().position(|l| *l == i).expect("issued")] }
}

struct Count<'c>(&'c Cell<usize>);
impl<'p, 'c, P: PolygonList<'p> + ?Sized> FanFormat<'p, P> for Count<'c> {
    type Builder = Count<'c>;
    fn initialize(self, _: &'p P, _: P::Index, _: P::Index, _: P::Index) -> Result<Count<'c>, std::convert::Infallible> { self.0.set(1); Ok(self) }
}
impl<'p, 'c, P: PolygonList<'p> + ?Sized> FanBuilder<'p, P> for Count<'c> {
    type Output = ();
    type Error = std::convert::Infallible;
    fn new_fan(&mut self, _: P::Index, _: P::Index, _: P::Index) -> Result<(), Self::Error> { self.0.set(self.0.get() + 1); Ok(()) }
    fn extend_fan(&mut self, _: P::Index) -> Result<(), Self::Error> { self.0.set(self.0.get() + 1); Ok(()) }
    fn build(self) -> Result<(), Self::Error> { Ok(()) }
    fn fail(self, _: &TriangulationError<Self::Error>) {}
}
fn ok<T, E: std::error::Error>(r: Result<T, E>) -> T { match r { Ok(v) => v, Err(e) => panic!("{}", e.to_string().lines().next().unwrap_or("")) } }

/// every kind of output which can hold such indices; the number of triangles of each
fn all<'p, P: PolygonList<'p>>(p: &'p P, other: P::Index) -> Vec<usize> {
    let t = ok(p.trapezoidize());
    let (a, b) = (Cell::new(0), Cell::new(0));
    ok(p.triangulate(Count(&a)));
    ok(t.triangulate(Count(&b).reverse_winding()));
    let mut flat = Vec::<P::Index>::new();
    ok(p.triangulate(IndexedListFormat::new(&mut flat).into_fan_format()));
    let arr = ok(t.triangulate(IndexedListFormat::<P, Vec<[P::Index; 3]>>::new(Vec::new()).into_fan_format().reverse_winding()));
    let tup = ok(t.triangulate(IndexedListFormat::<P, Vec<(P::Index, P::Index, P::Index)>>::new(Vec::new()).into_fan_format()));
    let fans = ok(p.triangulate(IndexedFanFormat::<P, Vec<Vec<P::Index>>>::new(Vec::new())));
    let del = ok(t.triangulate(DelimitedFanFormat::<P, Vec<P::Index>>::new(Vec::new(), other.clone())));
    let delims = del.iter().filter(|i| **i == other).count();
    vec![a.get(), b.get(), flat.len() / 3, arr.len(), tup.len(), fans.iter().map(|f| f.len() - 2).sum(), del.len() - delims - 2 * (delims + 1)]
}

fn main() {
    let ring: Vec<[f64; 2]> = (0..40).map(|i| { let y = i as f64 - 20.0; [y * y + (i % 3) as f64, y] }).collect();
    let toks: Vec<Tok> = (0..40).map(|i| Tok(Rc::new(Cell::new(i)))).collect();
    let want = vec![38; 7];
    let l = List(ring.clone(), toks.iter().map(|t| t.clone()).collect());
    assert!(all(&l, Tok(Rc::new(Cell::new(0)))) == want);
    let p = Poly(ring.clone(), toks);
    assert!(all(p.as_polygon_list(), Tok(Rc::new(Cell::new(0)))) == want);
    let mut out = Vec::<Tok>::new();
    ok(Polygon::triangulate(&p, IndexedListFormat::new(&mut out).into_fan_format()));
    assert!(out.len() == 3 * 38);
    let cells: Vec<Cell<[f64; 2]>> = ring.iter().map(|v| Cell::new(*v)).collect();
    let other = Cell::new([0.0; 2]);
    let s = Spots(cells.iter().map(Loc).collect(), ring);
    assert!(all(&s, Loc(&other)) == want);
}
