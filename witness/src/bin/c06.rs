//! Representations with no more than the traits ask for: vertices that are neither Copy, Clone nor Debug, borrowed data, unsized lists.
use std::borrow::Cow;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use triangulate::formats::*;
use triangulate::{ListFormat, Polygon, PolygonElement, PolygonList, Vertex};

struct Pt(Cell<f32>, Box<f32>);
impl Vertex for Pt {
    type Coordinate = f32;
    fn x(&self) -> f32 { self.0.get() }
    fn y(&self) -> f32 { *self.1 }
}
/// a vertex which borrows its coordinates
struct Ref<'a>(&'a [f64; 2]);
impl<'a> Vertex for Ref<'a> {
    type Coordinate = f64;
    fn x(&self) -> f64 { self.0[0] }
    fn y(&self) -> f64 { self.0[1] }
}
struct One<'a>(&'a [Pt]);
impl<'p, 'a: 'p> Polygon<'p> for One<'a> {
    type Vertex = Pt;
    type Index = u8;
    type Iter<'i> = std::ops::Range<u8> where Self: 'i, 'p: 'i;
    fn vertex_count(&self) -> usize { self.0.len() }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { 0..self.0.len() as u8 }
    fn get_vertex(&self, i: u8) -> &Pt { &self.0[i as usize] }
}
macro_rules! list {
    ($t:ident, $item:ty, $wrap:expr) => {
        struct $t<T: ?Sized>(#[allow(dead_code)] u8, T);
        impl<'p> PolygonList<'p> for $t<[Pt]> {
            type Vertex = Pt;
            type Index = u16;
            type IntoItem = $item;
            type Iter<'i> = Box<dyn Iterator<Item = $item> + 'i> where Self: 'i, 'p: 'i;
            fn vertex_count(&self) -> usize { self.1.len() }
            fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, 'p: 'i { Box::new((0..self.1.len() as u16).map($wrap)) }
            fn get_vertex<'b>(&'b self, i: u16) -> &'b Pt where 'p: 'b { &self.1[i as usize] }
        }
    };
}
list!(Plain, u16, |i| i);
list!(Opt, Option<u16>, Some);
list!(Tagged, PolygonElement<u16>, PolygonElement::ContinuePolygon);
/// an item type of the user's own
struct Mine(u16);
impl From<Mine> for PolygonElement<u16> { fn from(m: Mine) -> Self { PolygonElement::ContinuePolygon(m.0) } }
list!(Own, Mine, Mine);

fn count<'p, P: PolygonList<'p> + ?Sized>(p: &'p P) -> usize {
    let mut out = Vec::<P::Index>::new();
    let t = match p.trapezoidize() { Ok(t) => t, Err(e) => panic!("{}", e.to_string().lines().next().unwrap_or("")) };
    if let Err(e) = t.triangulate(IndexedListFormat::new(&mut out).into_fan_format()) { panic!("{}", e.to_string().lines().next().unwrap_or("")) }
    let fans = p.triangulate(IndexedFanFormat::<P, Vec<Vec<P::Index>>>::new(Vec::new())).ok().expect("fans");
    assert_eq!(out.len() / 3, fans.iter().map(|f| f.len() - 2).sum::<usize>());
    out.len() / 3
}
fn main() {
    let ring: Vec<[f64; 2]> = (0..40).map(|i| { let y = i as f64 - 20.0; [y * y + (i % 3) as f64, y] }).collect();
    let pts = || -> Vec<Pt> { ring.iter().map(|v| Pt(Cell::new(v[0] as f32), Box::new(v[1] as f32))).collect() };
    let arr = || -> [Pt; 40] { pts().try_into().ok().expect("40") };
    let n = 38;
    assert_eq!(count(vec![pts()].as_slice_list()), n);
    assert_eq!(count(&vec![ring.iter().map(Ref).collect::<Vec<_>>()]), n);
    assert_eq!(count(&vec![&ring[..]]), n);
    assert_eq!(count(&vec![Cow::Borrowed(&ring[..])]), n);
    assert_eq!(count(&[Rc::<[Pt]>::from(pts())][..].to_vec()), n);
    assert_eq!(count(&Arc::<[Box<[Pt]>]>::from(vec![pts().into_boxed_slice()])), n);
    assert_eq!(count(&Rc::<[Rc<[Pt]>]>::from(vec![Rc::<[Pt]>::from(pts())])), n);
    let v = pts();
    assert_eq!(count(One(&v).as_polygon_list()), n);
    assert_eq!(count((&ring[..]).as_polygon_list()), n);
    let b: Box<Plain<[Pt]>> = Box::new(Plain(0, arr()));
    assert_eq!(count(&*b), n);
    let b: Box<Opt<[Pt]>> = Box::new(Opt(0, arr()));
    assert_eq!(count(&*b), n);
    let b: Box<Tagged<[Pt]>> = Box::new(Tagged(0, arr()));
    assert_eq!(count(&*b), n);
    let b: Box<Own<[Pt]>> = Box::new(Own(0, arr()));
    assert_eq!(count(&*b), n);
}
trait AsList { fn as_slice_list(&self) -> &Self; }
impl AsList for Vec<Vec<Pt>> { fn as_slice_list(&self) -> &Self { self } }
