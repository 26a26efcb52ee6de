//! User-defined collections with no more than the traits ask for, over vertices with nothing but Clone.
use std::cell::RefCell;
use std::rc::Rc;
use triangulate::formats::*;
use triangulate::{Fan, FanFormat, Fans, List, ListFormat, PolygonList, Vertex};

struct Pt(f64, Rc<f64>);
impl Clone for Pt { fn clone(&self) -> Pt { Pt(self.0, self.1.clone()) } }
impl Vertex for Pt {
    type Coordinate = f64;
    fn x(&self) -> f64 { self.0 }
    fn y(&self) -> f64 { *self.1 }
}
/// writes to a buffer of the caller
struct Sink<'a, V>(&'a RefCell<Vec<[V; 3]>>);
impl<'a, V> List<V> for Sink<'a, V> {
    fn push(&mut self, a: V, b: V, c: V) { self.0.borrow_mut().push([a, b, c]) }
    fn len(&self) -> usize { self.0.borrow().len() }
    fn truncate(&mut self, n: usize) { self.0.borrow_mut().truncate(n) }
}
struct MyFan<V>(V, V, Vec<V>);
impl<V> Fan<V> for MyFan<V> {
    fn new(a: V, b: V, c: V) -> Self { MyFan(a, b, vec![c]) }
    fn push(&mut self, v: V) { self.2.push(v) }
}
struct FanSink<'a, F>(&'a RefCell<Vec<F>>);
impl<'a, F> Fans for FanSink<'a, F> {
    type Fan = F;
    fn push(&mut self, f: F) { self.0.borrow_mut().push(f) }
    fn len(&self) -> usize { self.0.borrow().len() }
    fn truncate(&mut self, n: usize) { self.0.borrow_mut().truncate(n) }
}
fn ok<T, E: std::error::Error>(r: Result<T, E>) -> T { match r { Ok(v) => v, Err(e) => panic!("{}", e.to_string().lines().next().unwrap_or("")) } }
type L = Vec<Vec<Pt>>;
type I = [usize; 2];
fn main() {
    let p: L = vec![(0..40).map(|i| { let y = i as f64 - 20.0; Pt(y * y + (i % 3) as f64, Rc::new(y)) }).collect()];
    let n = 38;
    let t = ok(p.trapezoidize());
    let s = RefCell::new(Vec::<[I; 3]>::new());
    ok(t.triangulate(IndexedListFormat::new(Sink(&s)).into_fan_format()));
    assert_eq!(s.borrow().len(), n);
    ok(t.triangulate(IndexedListFormat::new(&mut Sink(&s)).into_fan_format().reverse_winding()));
    assert_eq!(s.borrow().len(), 2 * n);
    let d = RefCell::new(Vec::<[Pt; 3]>::new());
    ok(t.triangulate(DeindexedListFormat::new(Sink(&d)).into_fan_format()));
    assert_eq!(d.borrow().len(), n);
    let sum = |f: &Vec<MyFan<I>>| f.iter().map(|f| { let _ = (f.0, f.1); f.2.len() }).sum::<usize>();
    let f = RefCell::new(Vec::<MyFan<I>>::new());
    ok(t.triangulate(IndexedFanFormat::new(FanSink(&f))));
    assert_eq!(sum(&f.borrow()), n);
    ok(t.triangulate(IndexedFanFormat::new(&mut FanSink(&f)).reverse_winding()));
    assert_eq!(sum(&f.borrow()), 2 * n);
    let g = RefCell::new(Vec::<MyFan<Pt>>::new());
    ok(t.triangulate(DeindexedFanFormat::new(FanSink(&g))));
    assert_eq!(g.borrow().iter().map(|f| { let _ = (&f.0, &f.1); f.2.len() }).sum::<usize>(), n);
    let h = RefCell::new(Vec::<I>::new());
    ok(t.triangulate(DelimitedFanFormat::new(FanSink(&h), [9, 9])));
    let k = h.borrow().iter().filter(|i| **i == [9, 9]).count();
    assert_eq!(h.borrow().len() - k - 2 * (k + 1), n);
    let v = ok(t.triangulate(IndexedFanFormat::<L, Vec<MyFan<I>>>::new(Vec::new())));
    assert_eq!(sum(&v), n);
}
