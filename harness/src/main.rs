#![allow(dead_code)]
//! Runtime monitors for the `triangulate` crate. See /verif/DESIGN.md.
mod common;
mod coord;
mod formats;
mod gen;
mod geom;
mod inputs;
mod oracle;
#[cfg(feature = "any")]
mod props_any;
#[cfg(feature = "core")]
mod props_core;
#[cfg(feature = "env")]
mod props_env;
#[cfg(feature = "out")]
mod props_out;
#[cfg(feature = "repr")]
mod props_repr;
#[cfg(feature = "misc")]
mod props_misc;
mod rng;
mod runner;

use runner::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::time::{Duration, Instant};

thread_local! {
    static ALLOC: Cell<u64> = const { Cell::new(0) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// Counts, per thread, the bytes ever allocated, the bytes currently held and the peak
struct Counting;
fn note(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = ALLOC.try_with(|a| a.set(a.get() + n as u64));
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

pub fn alloc_reset() {
    ALLOC.with(|a| a.set(0));
    PEAK.with(|p| p.set(CUR.with(|c| c.get())));
}
/// bytes allocated since `alloc_reset`
pub fn alloc_bytes() -> u64 {
    ALLOC.with(|a| a.get())
}
/// bytes currently held by this thread
pub fn held() -> i64 {
    CUR.with(|c| c.get())
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}

fn streams(prop: &str, variant: &str) -> Vec<Stream> {
    let mut v = vec![];
    #[cfg(feature = "any")]
    v.extend(props_any::streams(prop, variant));
    #[cfg(feature = "misc")]
    v.extend(props_misc::streams(prop, variant));
    #[cfg(feature = "core")]
    v.extend(props_core::streams(prop, variant));
    #[cfg(feature = "repr")]
    v.extend(props_repr::streams(prop, variant));
    #[cfg(feature = "out")]
    v.extend(props_out::streams(prop, variant));
    #[cfg(feature = "env")]
    v.extend(props_env::streams(prop, variant));
    v
}

fn selftest() {
    // large generators are only valid by construction: confirm at moderate sizes
    for seed in 0..40 {
        for f in gen::BIG {
            let mut r = rng::Rng::new(rng::mix(seed, 99));
            let n = 8 + r.below(1500);
            let p = gen::big(&mut r, f, n);
            assert!(geom::valid(&p), "{f} {n} is not valid (seed {seed})");
        }
    }
    // the oracle rejects every single-triangle mutation of a correct answer
    let mut caught = 0;
    for seed in 0..200u64 {
        let mut r = rng::Rng::new(rng::mix(seed, 5));
        let (_, polys) = common::geometry(&mut r, 60);
        let reg = oracle::Region::new(&polys);
        let p = common::to_f64(&polys);
        let t = common::run_nested(&reg, &p, "list-array").unwrap();
        common::check_all(&reg, &t).unwrap();
        let big: Vec<usize> = (0..t.len()).filter(|&i| geom::orient(reg.verts[t[i][0] as usize], reg.verts[t[i][1] as usize], reg.verts[t[i][2] as usize]) > 0).collect();
        if big.is_empty() {
            continue;
        }
        for m in 0..4 {
            let mut u = t.clone();
            let i = *r.pick(&big);
            match m {
                0 => {
                    u.remove(i);
                }
                1 => u.push(t[i]),
                2 => u[i].swap(0, 1),
                _ => {
                    let n = reg.verts.len() as u32;
                    let k = r.below(3);
                    let mut v = r.below(n as usize) as u32;
                    while u[i].contains(&v) && n > 3 {
                        v = r.below(n as usize) as u32;
                    }
                    if u[i].contains(&v) {
                        continue;
                    }
                    u[i][k] = v;
                }
            }
            assert!(common::check_all(&reg, &u).is_err(), "mutation {m} not noticed: {polys:?} {t:?} -> {u:?}");
            caught += 1;
        }
    }
    println!("selftest ok, {caught} mutated answers rejected");
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") {
        selftest();
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("noop") {
        return;
    }
    if a.get(1).map(|s| s.as_str()) == Some("streams") {
        // name and whether a missing verdict (non-termination, exhausted memory) is a violation
        for s in streams(&a[2], &a[3]) {
            println!("{} {}", s.name, if s.hang_is_violation { "must-finish" } else { "may-hang" });
        }
        return;
    }
    let prop = arg(&a, "--prop").expect("--prop");
    let variant = arg(&a, "--variant").unwrap_or_else(|| "release".into());
    if let Some(gb) = arg(&a, "--mem") {
        let n: u64 = gb.parse::<u64>().unwrap() << 30;
        let r = libc::rlimit { rlim_cur: n, rlim_max: n };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
    }
    let tier = if arg(&a, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let o = Opts {
        seed: arg(&a, "--seed").map_or(1, |s| s.parse().unwrap()),
        tier,
        workers: arg(&a, "--workers").map_or(8, |s| s.parse().unwrap()),
        time_cap: Duration::from_secs_f64(arg(&a, "--cap").map_or(60.0, |s| s.parse().unwrap())),
        slot_file: arg(&a, "--slots"),
        only: arg(&a, "--only"),
        scale: arg(&a, "--scale").map_or(1.0, |s| s.parse().unwrap()),
        cpu_scale: arg(&a, "--cpu-scale").map_or(1, |s| s.parse().unwrap()),
        case: arg(&a, "--case"),
        skip: arg(&a, "--skip").map_or(vec![], |s| s.split(',').map(|x| x.to_string()).collect()),
        shard: arg(&a, "--shard").map_or((0, 1), |s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap()),
        prop,
    };
    let t = Instant::now();
    let list = streams(&o.prop, &variant);
    assert!(!list.is_empty(), "no streams for {} in variant {variant}", o.prop);
    let r = run(&o, list);
    let wall = t.elapsed().as_secs_f64();
    match arg(&a, "--out") {
        Some(f) => write_report(&r, wall, &mut std::fs::File::create(f).expect("report")).expect("report"),
        None => {
            let mut s = std::io::stdout();
            write_report(&r, wall, &mut s).unwrap();
            println!();
        }
    }
    for (c, m) in &r.violations {
        let m: String = m.chars().take(3000).collect();
        println!("case {c}: {m}");
    }
    let bad = !r.violations.is_empty();
    // threads given up on may still be spinning
    if cfg!(miri) {
        std::process::exit(if bad { 3 } else { 0 });
    }
    unsafe { libc::_exit(if bad { 3 } else { 0 }) }
}
