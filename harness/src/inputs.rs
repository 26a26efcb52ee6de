//! Instrumented input representations.
use crate::coord::{self};
use crate::geom::P;
use num_traits::real::Real;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use triangulate::{PolygonElement, PolygonList};

/// Index tokens: injectively labelled by a dense id, created only by `make` (i.e. issued by the input's iteration).
pub trait Tok: Eq + Clone + Debug + 'static {
    fn make(id: u32, salt: u64) -> Self;
    /// the id if this token was really issued
    fn id(&self, salt: u64) -> Option<u32>;
    /// the harness' own comparison (index types may lie in `==`)
    fn same(&self, o: &Self) -> bool { self == o }
}

impl Tok for u32 {
    fn make(id: u32, _: u64) -> Self { id }
    fn id(&self, _: u64) -> Option<u32> { Some(*self) }
}

/// u32 whose clones and comparisons count against the operation budget
#[derive(Debug)]
pub struct CIdx(pub u32);
impl Clone for CIdx { fn clone(&self) -> Self { coord::tick(); CLONES.with(|c| c.set(c.get() + 1)); CIdx(self.0) } }
impl PartialEq for CIdx { fn eq(&self, o: &Self) -> bool { coord::tick(); self.0 == o.0 } }
impl Eq for CIdx {}
impl Tok for CIdx {
    fn make(id: u32, _: u64) -> Self { CIdx(id) }
    fn id(&self, _: u64) -> Option<u32> { Some(self.0) }
}
thread_local! { pub static CLONES: Cell<u64> = const { Cell::new(0) }; }

/// sparse 64-bit token: only one value in 2^32 is legal
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Sparse(pub u64);
impl Tok for Sparse {
    fn make(id: u32, salt: u64) -> Self { Sparse(((id as u64) << 32 | (crate::rng::mix(id as u64, salt) & 0xffff_ffff)).rotate_left(17)) }
    fn id(&self, salt: u64) -> Option<u32> {
        let v = self.0.rotate_right(17);
        let id = (v >> 32) as u32;
        (Sparse::make(id, salt) == *self).then_some(id)
    }
}

/// non-numeric, heap allocated
impl Tok for String {
    fn make(id: u32, salt: u64) -> Self { format!("v<{:x}>{}", crate::rng::mix(id as u64, salt), id) }
    fn id(&self, salt: u64) -> Option<u32> {
        let id = self.rsplit('>').next()?.parse().ok()?;
        (String::make(id, salt) == *self).then_some(id)
    }
}

/// shared identity-bearing token; equality is pointer identity of the issued token
#[derive(Clone, Debug)]
pub struct Ident(Arc<(u32, u64)>);
impl PartialEq for Ident { fn eq(&self, o: &Self) -> bool { Arc::ptr_eq(&self.0, &o.0) } }
impl Eq for Ident {}
impl Tok for Ident {
    fn make(id: u32, salt: u64) -> Self { Ident(Arc::new((id, salt))) }
    fn id(&self, salt: u64) -> Option<u32> { (self.0 .1 == salt).then_some(self.0 .0) }
}

/// token that counts live instances and owns heap memory (a double drop or use after free is visible to sanitizers, a leak to the counter)
pub struct Live(Box<(u32, u64)>, Arc<AtomicI64>);
pub static LIVE_MADE: AtomicI64 = AtomicI64::new(0);
thread_local! { pub static LIVE: RefCell<Arc<AtomicI64>> = RefCell::new(Arc::new(AtomicI64::new(0))); }
impl Live {
    fn mk(id: u32, salt: u64, c: Arc<AtomicI64>) -> Live {
        c.fetch_add(1, Ordering::Relaxed);
        LIVE_MADE.fetch_add(1, Ordering::Relaxed);
        Live(Box::new((id, salt)), c)
    }
}
impl Clone for Live { fn clone(&self) -> Self { coord::tick(); Live::mk(self.0 .0, self.0 .1, self.1.clone()) } }
impl Drop for Live { fn drop(&mut self) { self.1.fetch_sub(1, Ordering::Relaxed); self.0 .0 = u32::MAX; } }
impl PartialEq for Live {
    fn eq(&self, o: &Self) -> bool {
        coord::tick();
        match coord::chaos() { Some(v) => v & 1 == 0, None => self.0 == o.0 }
    }
}
impl Eq for Live {}
impl Debug for Live { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Live({})", self.0 .0) } }
impl Tok for Live {
    fn make(id: u32, salt: u64) -> Self { Live::mk(id, salt, LIVE.with(|l| l.borrow().clone())) }
    fn id(&self, salt: u64) -> Option<u32> { (self.0 .1 == salt).then_some(self.0 .0) }
    fn same(&self, o: &Self) -> bool { self.0 == o.0 }
}

/// How items are yielded
pub trait Style<I: Tok>: 'static {
    type Item: Into<PolygonElement<I>>;
    fn item(i: Option<I>) -> Self::Item;
}
pub struct Tagged;
pub struct Optional;
pub struct Plain;
impl<I: Tok> Style<I> for Tagged {
    type Item = PolygonElement<I>;
    fn item(i: Option<I>) -> Self::Item { match i { Some(i) => PolygonElement::ContinuePolygon(i), None => PolygonElement::NewPolygon } }
}
impl<I: Tok> Style<I> for Optional {
    type Item = Option<I>;
    fn item(i: Option<I>) -> Self::Item { i }
}
impl<I: Tok> Style<I> for Plain {
    type Item = I;
    fn item(i: Option<I>) -> Self::Item { i.expect("plain style holds a single polygon") }
}

/// A custom polygon list: flat vertex store, explicit item sequence, instrumented lookups.
pub struct Flat<C, I: Tok, S> {
    pub verts: Vec<[C; 2]>,
    /// iteration sequence: Some(dense vertex id) or separator
    pub items: Vec<Option<u32>>,
    /// tokens handed out, by dense vertex id (issued once, cloned on iteration)
    pub tokens: Vec<I>,
    pub salt: u64,
    /// added to the reported vertex count
    pub count_lie: isize,
    pub lookups: Cell<u64>,
    pub foreign: RefCell<Option<String>>,
    pub trace: Cell<u64>,
    /// the vertices looked up, in order, while recording
    pub history: RefCell<Option<Vec<u32>>>,
    /// hostile: answer lookups with the wrong vertex sometimes
    pub lie_rate: u64,
    pub _s: std::marker::PhantomData<S>,
}

pub struct FlatIter<'i, C, I: Tok, S> {
    l: &'i Flat<C, I, S>,
    k: usize,
}

impl<'i, C, I: Tok, S: Style<I>> Iterator for FlatIter<'i, C, I, S> {
    type Item = S::Item;
    fn next(&mut self) -> Option<S::Item> {
        coord::tick();
        // not fused: whoever asks again after the end is given the vertices again
        let Some(it) = self.l.items.get(self.k) else { self.k = 0; return None };
        self.k += 1;
        Some(S::item(it.map(|id| self.l.tokens[id as usize].clone())))
    }
    /// every truthful form of the hint: none, exact, far too generous
    fn size_hint(&self) -> (usize, Option<usize>) {
        let rest = self.l.items.len() - self.k;
        match self.l.salt % 4 {
            0 => (0, None),
            1 => (rest, Some(rest)),
            2 => (rest / 2, Some(usize::MAX)),
            _ => (0, Some(usize::MAX)),
        }
    }
}

impl<C, I: Tok, S> Flat<C, I, S> {
    pub fn build(polys: &[Vec<P>], salt: u64, conv: impl Fn(i64) -> C) -> Self {
        let mut verts = vec![];
        let mut items = vec![];
        for p in polys {
            if !items.is_empty() {
                items.push(None);
            }
            for v in p {
                items.push(Some(verts.len() as u32));
                verts.push([conv(v[0]), conv(v[1])]);
            }
        }
        let tokens = (0..verts.len() as u32).map(|i| I::make(i, salt)).collect();
        Flat { verts, items, tokens, salt, count_lie: 0, lookups: Cell::new(0), foreign: RefCell::new(None), trace: Cell::new(0), history: RefCell::new(None), lie_rate: 0, _s: std::marker::PhantomData }
    }
    /// insert redundant separators
    pub fn add_separators(mut self, rng: &mut crate::rng::Rng) -> Self {
        let mut out = vec![];
        for _ in 0..rng.below(3) {
            out.push(None);
        }
        for it in self.items.drain(..) {
            if it.is_none() {
                for _ in 0..rng.below(3) {
                    out.push(None);
                }
            }
            out.push(it);
        }
        for _ in 0..rng.below(3) {
            out.push(None);
        }
        self.items = out;
        self
    }
    pub fn foreign(&self) -> Option<String> {
        self.foreign.borrow().clone()
    }
}

impl<'p, C: Real + Debug + 'p, I: Tok, S: Style<I>> PolygonList<'p> for Flat<C, I, S> {
    type Vertex = [C; 2];
    type Index = I;
    type IntoItem = S::Item;
    type Iter<'i> = FlatIter<'i, C, I, S> where Self: 'i, Self::Vertex: 'i, 'p: 'i;

    fn vertex_count(&self) -> usize {
        // counting is as much work as there are polygons, as for a vector of vectors
        for it in &self.items {
            if it.is_none() {
                coord::tick();
            }
        }
        coord::tick();
        (self.verts.len() as isize + self.count_lie).max(0) as usize
    }
    fn iter_indices<'i>(&'i self) -> Self::Iter<'i> where Self: 'i, Self::Vertex: 'i, 'p: 'i {
        FlatIter { l: self, k: 0 }
    }
    fn get_vertex<'a>(&'a self, index: I) -> &'a [C; 2] where 'p: 'a {
        coord::tick();
        self.lookups.set(self.lookups.get() + 1);
        match index.id(self.salt) {
            Some(id) if (id as usize) < self.verts.len() && self.tokens[id as usize].same(&index) => {
                self.trace.set(crate::rng::mix(self.trace.get(), id as u64));
                if let Some(h) = &mut *self.history.borrow_mut() {
                    h.push(id);
                }
                let mut id = id as usize;
                if self.lie_rate > 0 && self.trace.get() % self.lie_rate == 0 {
                    id = (self.trace.get() >> 20) as usize % self.verts.len();
                }
                &self.verts[id]
            }
            _ => {
                *self.foreign.borrow_mut() = Some(format!("get_vertex called with {:?}, which the input never issued", index));
                panic!("tvmon: foreign index");
            }
        }
    }
}
