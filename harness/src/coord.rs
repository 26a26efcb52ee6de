//! Coordinate types used as probes: a counting/budgeted float, an exact rational, and a hostile one.
use num_traits::{real::Real, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

thread_local! {
    /// operations performed by coordinates of this thread
    pub static OPS: Cell<u64> = const { Cell::new(0) };
    /// operations left before a `BudgetExceeded` panic
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    /// countdown to an injected panic (u64::MAX: never)
    pub static BOMB: Cell<u64> = const { Cell::new(u64::MAX) };
    /// state of the hostile coordinate's answers
    pub static CHAOS: Cell<u64> = const { Cell::new(0) };
    /// one in CHAOS_RATE comparisons is answered at random
    pub static CHAOS_RATE: Cell<u64> = const { Cell::new(0) };
}

pub const BUDGET_MSG: &str = "tvmon: operation budget exceeded";
pub const BOMB_MSG: &str = "tvmon: injected panic";

pub fn reset(budget: u64) {
    OPS.with(|c| c.set(0));
    BUDGET.with(|c| c.set(budget));
    BOMB.with(|c| c.set(u64::MAX));
}

thread_local! {
    /// one in YIELD operations gives up the processor (0: never), and is recorded in the schedule hash
    pub static YIELD: Cell<(u64, u64, u64)> = const { Cell::new((0, 0, 0)) };
    pub static SCHED: std::cell::RefCell<Option<std::sync::Arc<std::sync::atomic::AtomicU64>>> = const { std::cell::RefCell::new(None) };
}
/// Relaxed operations only: the monitor must not order the accesses a race detector is meant to judge
fn perturb() {
    YIELD.with(|y| {
        let (rate, mut state, id) = y.get();
        if rate == 0 {
            return;
        }
        let v = crate::rng::splitmix(&mut state);
        y.set((rate, state, id));
        if v % rate == 0 {
            SCHED.with(|s| {
                if let Some(h) = &*s.borrow() {
                    let old = h.load(std::sync::atomic::Ordering::Relaxed);
                    h.store(crate::rng::mix(old, id), std::sync::atomic::Ordering::Relaxed);
                }
            });
            if v >> 63 == 0 { std::thread::yield_now() } else { for _ in 0..(v >> 50) & 255 { std::hint::spin_loop() } }
        }
    });
}

#[inline]
pub fn tick() {
    perturb();
    OPS.with(|c| c.set(c.get() + 1));
    BUDGET.with(|c| {
        let b = c.get();
        if b == 0 {
            c.set(u64::MAX); // only once, so that unwinding code can run
            panic!("{}", BUDGET_MSG);
        }
        c.set(b - 1);
    });
    BOMB.with(|c| {
        let b = c.get();
        if b == 0 {
            c.set(u64::MAX);
            panic!("{}", BOMB_MSG);
        }
        if b != u64::MAX {
            c.set(b - 1);
        }
    });
}

/// f64 that counts every arithmetic operation and comparison
#[derive(Clone, Copy, Debug)]
pub struct Cf(pub f64);

/// f64 with randomly lying comparisons
#[derive(Clone, Copy, Debug)]
pub struct Wild(pub f64);

pub fn chaos() -> Option<u64> {
    CHAOS_RATE.with(|r| {
        let r = r.get();
        if r == 0 {
            return None;
        }
        CHAOS.with(|c| {
            let mut s = c.get();
            let v = crate::rng::splitmix(&mut s);
            c.set(s);
            if v % r == 0 { Some(v >> 32) } else { None }
        })
    })
}

/// exact rational
#[derive(Clone, Copy, Debug)]
pub struct Ex {
    n: i128,
    d: i128,
}

thread_local! {
    /// an exact value did not fit: whatever follows says nothing about the library
    pub static INEXACT: Cell<bool> = const { Cell::new(false) };
}
fn mul(a: i128, b: i128) -> i128 { a.checked_mul(b).unwrap_or_else(|| { INEXACT.with(|i| i.set(true)); a.wrapping_mul(b) }) }
fn add(a: i128, b: i128) -> i128 { a.checked_add(b).unwrap_or_else(|| { INEXACT.with(|i| i.set(true)); a.wrapping_add(b) }) }

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

impl Ex {
    pub fn int(n: i64) -> Ex {
        Ex { n: n as i128, d: 1 }
    }
    pub fn ratio(n: i64, d: i64) -> Ex {
        Ex::norm(n as i128, d as i128)
    }
    fn norm(n: i128, d: i128) -> Ex {
        if d == 1 {
            return Ex { n, d };
        }
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Ex { n: s * n / g, d: s * d / g }
    }
    fn f(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    fn of(f: f64) -> Ex {
        // used only by transcendental fallbacks
        Ex::norm((f * 1048576.0).round() as i128, 1048576)
    }
}

impl PartialEq for Cf { fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl PartialOrd for Cf { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) } }
impl PartialEq for Ex { fn eq(&self, o: &Self) -> bool { tick(); self.n == o.n && self.d == o.d } }
impl PartialOrd for Ex { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { tick(); if self.d == o.d { self.n.partial_cmp(&o.n) } else { mul(self.n, o.d).partial_cmp(&mul(o.n, self.d)) } } }
impl PartialEq for Wild {
    fn eq(&self, o: &Self) -> bool {
        tick();
        match chaos() { Some(v) => v & 1 == 0, None => self.0 == o.0 }
    }
}
impl PartialOrd for Wild {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        tick();
        match chaos() {
            Some(v) => [Some(Ordering::Less), Some(Ordering::Equal), Some(Ordering::Greater), None][(v & 3) as usize],
            None => self.0.partial_cmp(&o.0),
        }
    }
}

thread_local! {
    /// values refuse conversion to primitive floats, as a user-defined real type may
    pub static OPAQUE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
macro_rules! ops_f {
    ($t:ident) => {
        impl Add for $t { type Output = Self; fn add(self, o: Self) -> Self { tick(); $t(self.0 + o.0) } }
        impl Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { tick(); $t(self.0 - o.0) } }
        impl Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { tick(); $t(self.0 * o.0) } }
        impl Div for $t { type Output = Self; fn div(self, o: Self) -> Self { tick(); $t(self.0 / o.0) } }
        impl Rem for $t { type Output = Self; fn rem(self, o: Self) -> Self { tick(); $t(self.0 % o.0) } }
        impl Neg for $t { type Output = Self; fn neg(self) -> Self { tick(); $t(-self.0) } }
        impl Zero for $t { fn zero() -> Self { $t(0.0) } fn is_zero(&self) -> bool { tick(); self.0 == 0.0 } }
        impl One for $t { fn one() -> Self { $t(1.0) } }
        impl $t { fn f(self) -> f64 { self.0 } fn of(f: f64) -> Self { $t(f) } }
    };
}
ops_f!(Cf);
ops_f!(Wild);

impl Add for Ex { type Output = Self; fn add(self, o: Self) -> Self { tick(); if self.d == o.d { Ex::norm(add(self.n, o.n), self.d) } else { Ex::norm(add(mul(self.n, o.d), mul(o.n, self.d)), mul(self.d, o.d)) } } }
impl Sub for Ex { type Output = Self; fn sub(self, o: Self) -> Self { tick(); if self.d == o.d { Ex::norm(add(self.n, -o.n), self.d) } else { Ex::norm(add(mul(self.n, o.d), mul(-o.n, self.d)), mul(self.d, o.d)) } } }
impl Mul for Ex { type Output = Self; fn mul(self, o: Self) -> Self { tick(); Ex::norm(mul(self.n, o.n), mul(self.d, o.d)) } }
impl Div for Ex { type Output = Self; fn div(self, o: Self) -> Self { tick(); Ex::norm(mul(self.n, o.d), mul(self.d, o.n)) } }
impl Rem for Ex { type Output = Self; fn rem(self, o: Self) -> Self { tick(); let q = mul(self.n, o.d) / mul(self.d, o.n); self - Ex { n: q, d: 1 } * o } }
impl Neg for Ex { type Output = Self; fn neg(self) -> Self { tick(); Ex { n: -self.n, d: self.d } } }
impl Zero for Ex { fn zero() -> Self { Ex::int(0) } fn is_zero(&self) -> bool { tick(); self.n == 0 } }
impl One for Ex { fn one() -> Self { Ex::int(1) } }

macro_rules! real {
    ($t:ident) => {
        impl Num for $t {
            type FromStrRadixErr = std::num::ParseFloatError;
            fn from_str_radix(s: &str, _r: u32) -> Result<Self, Self::FromStrRadixErr> { s.parse::<f64>().map($t::of) }
        }
        impl ToPrimitive for $t {
            fn to_i64(&self) -> Option<i64> { self.f().to_i64() }
            fn to_u64(&self) -> Option<u64> { self.f().to_u64() }
            fn to_f64(&self) -> Option<f64> { if OPAQUE.with(|o| o.get()) { None } else { Some(self.f()) } }
        }
        impl NumCast for $t { fn from<T: ToPrimitive>(n: T) -> Option<Self> { n.to_f64().map($t::of) } }
        impl Real for $t {
            fn min_value() -> Self { $t::of(-1e15) }
            fn min_positive_value() -> Self { $t::of(1e-6) }
            fn epsilon() -> Self { $t::of(1e-6) }
            fn max_value() -> Self { $t::of(1e15) }
            fn floor(self) -> Self { $t::of(self.f().floor()) }
            fn ceil(self) -> Self { $t::of(self.f().ceil()) }
            fn round(self) -> Self { $t::of(self.f().round()) }
            fn trunc(self) -> Self { $t::of(self.f().trunc()) }
            fn fract(self) -> Self { $t::of(self.f().fract()) }
            fn abs(self) -> Self { if self < Self::zero() { -self } else { self } }
            fn signum(self) -> Self { if self < Self::zero() { -Self::one() } else { Self::one() } }
            fn is_sign_positive(self) -> bool { !(self < Self::zero()) }
            fn is_sign_negative(self) -> bool { self < Self::zero() }
            fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
            fn recip(self) -> Self { Self::one() / self }
            fn powi(self, n: i32) -> Self {
                let mut r = Self::one();
                for _ in 0..n.unsigned_abs() { r = r * self; }
                if n < 0 { Self::one() / r } else { r }
            }
            fn powf(self, n: Self) -> Self { $t::of(self.f().powf(n.f())) }
            fn sqrt(self) -> Self { $t::of(self.f().sqrt()) }
            fn exp(self) -> Self { $t::of(self.f().exp()) }
            fn exp2(self) -> Self { $t::of(self.f().exp2()) }
            fn ln(self) -> Self { $t::of(self.f().ln()) }
            fn log(self, b: Self) -> Self { $t::of(self.f().log(b.f())) }
            fn log2(self) -> Self { $t::of(self.f().log2()) }
            fn log10(self) -> Self { $t::of(self.f().log10()) }
            fn to_degrees(self) -> Self { $t::of(self.f().to_degrees()) }
            fn to_radians(self) -> Self { $t::of(self.f().to_radians()) }
            fn max(self, o: Self) -> Self { if self < o { o } else { self } }
            fn min(self, o: Self) -> Self { if o < self { o } else { self } }
            fn abs_sub(self, o: Self) -> Self { if self <= o { Self::zero() } else { self - o } }
            fn cbrt(self) -> Self { $t::of(self.f().cbrt()) }
            fn hypot(self, o: Self) -> Self { $t::of(self.f().hypot(o.f())) }
            fn sin(self) -> Self { $t::of(self.f().sin()) }
            fn cos(self) -> Self { $t::of(self.f().cos()) }
            fn tan(self) -> Self { $t::of(self.f().tan()) }
            fn asin(self) -> Self { $t::of(self.f().asin()) }
            fn acos(self) -> Self { $t::of(self.f().acos()) }
            fn atan(self) -> Self { $t::of(self.f().atan()) }
            fn atan2(self, o: Self) -> Self { $t::of(self.f().atan2(o.f())) }
            fn sin_cos(self) -> (Self, Self) { ($t::of(self.f().sin()), $t::of(self.f().cos())) }
            fn exp_m1(self) -> Self { $t::of(self.f().exp_m1()) }
            fn ln_1p(self) -> Self { $t::of(self.f().ln_1p()) }
            fn sinh(self) -> Self { $t::of(self.f().sinh()) }
            fn cosh(self) -> Self { $t::of(self.f().cosh()) }
            fn tanh(self) -> Self { $t::of(self.f().tanh()) }
            fn asinh(self) -> Self { $t::of(self.f().asinh()) }
            fn acosh(self) -> Self { $t::of(self.f().acosh()) }
            fn atanh(self) -> Self { $t::of(self.f().atanh()) }
        }
    };
}
real!(Cf);
real!(Ex);
real!(Wild);
