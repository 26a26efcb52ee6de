//! Case runner: every case is a deterministic function of (property, stream, seed, index), run on a fresh thread with a
//! controlled entropy source, watched for panics, crashes (slot file) and non-termination (CPU clock watchdog).
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub stream: &'static str,
    pub stat: Stat,
    /// set when the case ended without a verdict (e.g. a hostile input exceeded its operation budget)
    pub inconclusive: bool,
}

#[derive(Default)]
pub struct Stat {
    pub count: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    /// signatures of distinct non-trivial observations
    pub sigs: Vec<u64>,
    pub sample: Option<String>,
}

impl Ctx {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stat.count.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.stat.max.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sig(&mut self, s: u64) {
        self.stat.sigs.push(s);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 && self.stat.sample.is_none() {
            self.stat.sample = Some(f());
        }
    }
}

pub type Verdict = Result<(), String>;
pub type CaseFn = fn(&mut Ctx) -> Verdict;

pub struct Stream {
    pub name: &'static str,
    pub f: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub stack: usize,
    /// CPU seconds after which a case counts as not terminating
    pub cpu_limit: u64,
    /// a case that does not terminate is a violation (the property promises success) or merely inconclusive
    pub hang_is_violation: bool,
    /// at most this many cases of the stream at once (0: no limit); timing-sensitive streams run alone
    pub solo: bool,
}

pub fn stream(name: &'static str, f: CaseFn, quick: u64, thorough: u64) -> Stream {
    Stream { name, f, quick, thorough, stack: 4 << 20, cpu_limit: 20, hang_is_violation: true, solo: false }
}
impl Stream {
    pub fn stack(mut self, s: usize) -> Self { self.stack = s; self }
    pub fn cpu(mut self, s: u64) -> Self { self.cpu_limit = s; self }
    pub fn may_hang(mut self) -> Self { self.hang_is_violation = false; self.cpu_limit = self.cpu_limit.min(1); self }
    pub fn solo(mut self) -> Self { self.solo = true; self }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static DESC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Description of the input of the running case, for violation reports
pub fn describe(s: String) {
    DESC.with(|d| *d.borrow_mut() = s);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {at}")));
        // panics that must not unwind abort the process: leave a trace for the driver
        if std::env::var_os("TVMON_VERBOSE").is_some() || msg.contains("unsafe precondition") || msg.contains("cannot unwind") {
            eprintln!("panic: {msg} at {at}");
        }
    }));
}

/// Run library code; a panic becomes Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

pub struct Report {
    pub evaluations: u64,
    pub per_stream: BTreeMap<String, u64>,
    pub count: BTreeMap<String, u64>,
    pub max: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>, // case id, message
    pub inconclusive: u64,
    pub hung: Vec<String>,
    pub capped: bool,
}

pub fn case_seed(seed: u64, prop: &str, stream: &str, idx: u64) -> u64 {
    let mut h = mix(seed, 0x7a3b);
    for b in prop.bytes().chain([0]).chain(stream.bytes()) {
        h = mix(h, b as u64);
    }
    mix(h, idx)
}

/// Runs one case on the current thread
pub fn run_one(prop: &str, s: &Stream, seed: u64, idx: u64, tier: Tier) -> (Verdict, Stat, bool) {
    let cs = case_seed(seed, prop, s.name, idx);
    getrandom::verif_set_seed(mix(cs, 1));
    crate::coord::reset(u64::MAX);
    let mut ctx = Ctx { rng: Rng::new(cs), seed: cs, idx, tier, stream: s.name, stat: Stat::default(), inconclusive: false };
    describe(String::new());
    let f = s.f;
    let r = guard(|| f(&mut ctx));
    let v = match r {
        Ok(v) => v,
        // a panic raised by harness code outside `guard` is a bug of the harness, not of the library
        Err(p) if p.contains(" at src/") => Err(format!("HARNESS: {p}")),
        Err(p) => Err(format!("panicked: {p}")),
    };
    let v = v.map_err(|m| {
        let d = DESC.with(|d| std::mem::take(&mut *d.borrow_mut()));
        if d.is_empty() { m } else { format!("{m}\ninput: {d}") }
    });
    if v.is_ok() && idx < 2 && ctx.stat.sample.is_none() {
        let d = DESC.with(|d| std::mem::take(&mut *d.borrow_mut()));
        if !d.is_empty() {
            ctx.stat.sample = Some(format!("{}: {d}", s.name));
        }
    }
    (v, ctx.stat, ctx.inconclusive)
}

struct Slot {
    clock: AtomicU64, // clockid + 1, 0 = idle
    case: AtomicUsize,
    wall: AtomicU64,
}

fn clock_ns(id: libc::clockid_t) -> Option<u64> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(id, &mut t) };
    (r == 0).then(|| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64)
}

pub fn thread_cpu_ns() -> u64 {
    clock_ns(libc::CLOCK_THREAD_CPUTIME_ID).unwrap_or(0)
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub workers: usize,
    pub time_cap: Duration,
    pub slot_file: Option<String>,
    pub only: Option<String>,
    /// run just this case (stream:index)
    pub case: Option<String>,
    /// cases not to run (they ended an earlier run without a verdict)
    pub skip: Vec<String>,
    /// run the cases whose index is `.0` modulo `.1`
    pub shard: (u64, u64),
    pub scale: f64,
    pub cpu_scale: u64,
}

pub fn run(o: &Opts, streams: Vec<Stream>) -> Report {
    let streams: Vec<Stream> = streams.into_iter().filter(|s| o.only.as_deref().map_or(true, |x| x.split(',').any(|y| y == s.name))).collect();
    // interleave the streams so that a time cap thins all of them evenly
    let mut sched: Vec<(f64, usize, u64)> = vec![];
    let mut solo: Vec<(f64, usize, u64)> = vec![];
    for (k, s) in streams.iter().enumerate() {
        let base = if o.tier == Tier::Quick { s.quick } else { s.thorough };
        let n = if base == 0 { 0 } else { ((base as f64 * o.scale).ceil() as u64).max(1) };
        let (lo, hi) = match &o.case {
            None => (0, n),
            Some(c) => match c.split_once(':') {
                Some((a, i)) if a == s.name => i.parse::<u64>().map_or((0, 0), |i| (i, i + 1)),
                _ => (0, 0),
            },
        };
        for i in lo..hi {
            if o.case.is_none() && (i % o.shard.1 != o.shard.0 || o.skip.contains(&format!("{}:{}", s.name, i))) {
                continue;
            }
            let e = ((i as f64 + 0.5) / n as f64, k, i);
            if s.solo { solo.push(e) } else { sched.push(e) }
        }
    }
    sched.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let rep = Arc::new(Mutex::new(Report {
        evaluations: 0,
        per_stream: Default::default(),
        count: Default::default(),
        max: Default::default(),
        sigs: Default::default(),
        samples: vec![],
        violations: vec![],
        inconclusive: 0,
        hung: vec![],
        capped: false,
    }));
    let start = Instant::now();
    let slot_file = o.slot_file.as_ref().map(|p| Arc::new(std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("slot file")));
    let streams = Arc::new(streams);
    // solo cases first, one at a time
    for (phase, list, workers) in [(0, solo, 1usize), (1, sched, o.workers)] {
        let _ = phase;
        let list = Arc::new(list);
        let next = Arc::new(AtomicUsize::new(0));
        let stop = Arc::new(AtomicBool::new(false));
        let slots: Arc<Vec<Slot>> = Arc::new((0..workers).map(|_| Slot { clock: AtomicU64::new(0), case: AtomicUsize::new(0), wall: AtomicU64::new(0) }).collect());
        let live = Arc::new(AtomicUsize::new(0));
        let spawn_worker = {
            let (streams, list, next, stop, slots, live, rep, slot_file) = (streams.clone(), list.clone(), next.clone(), stop.clone(), slots.clone(), live.clone(), rep.clone(), slot_file.clone());
            let (prop, seed, tier, cap) = (o.prop.clone(), o.seed, o.tier, o.time_cap);
            move |w: usize| {
                let (streams, list, next, stop, slots, live, rep, slot_file, prop) = (streams.clone(), list.clone(), next.clone(), stop.clone(), slots.clone(), live.clone(), rep.clone(), slot_file.clone(), prop.clone());
                live.fetch_add(1, Ordering::SeqCst);
                std::thread::Builder::new()
                    .stack_size(256 << 10)
                    .spawn(move || {
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let k = next.fetch_add(1, Ordering::SeqCst);
                            let Some(&(_, si, idx)) = list.get(k) else { break };
                            if start.elapsed() > cap {
                                rep.lock().unwrap().capped = true;
                                break;
                            }
                            let slots2 = slots.clone();
                            let streams2 = streams.clone();
                            let prop2 = prop.clone();
                            let sf = slot_file.clone();
                            let h = std::thread::Builder::new()
                                .stack_size(streams[si].stack)
                                .spawn(move || {
                                    let s = &streams2[si];
                                    if let Some(f) = &sf {
                                        use std::os::unix::fs::FileExt;
                                        let line = format!("{:<63}\n", format!("{}:{}", s.name, idx));
                                        let _ = f.write_at(line.as_bytes(), (w * 64) as u64);
                                    }
                                    let mut cid: libc::clockid_t = 0;
                                    if !cfg!(miri) {
                                        unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut cid) };
                                    }
                                    slots2[w].case.store(k, Ordering::SeqCst);
                                    slots2[w].wall.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                                    slots2[w].clock.store((cid as u32 as u64) + 1, Ordering::SeqCst);
                                    let r = run_one(&prop2, s, seed, idx, tier);
                                    slots2[w].clock.store(0, Ordering::SeqCst);
                                    r
                                })
                                .expect("spawn");
                            let (v, stat, inc) = h.join().expect("case thread");
                            if slots[w].case.load(Ordering::SeqCst) != k {
                                // the watchdog gave up on this worker and replaced it
                                return;
                            }
                            if let Some(f) = &slot_file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(format!("{:<63}\n", "-").as_bytes(), (w * 64) as u64);
                            }
                            let mut r = rep.lock().unwrap();
                            r.evaluations += 1;
                            *r.per_stream.entry(streams[si].name.to_string()).or_insert(0) += 1;
                            r.inconclusive += inc as u64;
                            for (k, n) in stat.count {
                                *r.count.entry(k.to_string()).or_insert(0) += n;
                            }
                            for (k, n) in stat.max {
                                let e = r.max.entry(k.to_string()).or_insert(0);
                                *e = (*e).max(n);
                            }
                            r.sigs.extend(stat.sigs);
                            if let Some(s) = stat.sample {
                                if r.samples.len() < 12 {
                                    r.samples.push(s);
                                }
                            }
                            if let Err(m) = v {
                                r.violations.push((format!("{}:{}", streams[si].name, idx), m));
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .expect("spawn worker");
            }
        };
        for w in 0..workers {
            spawn_worker(w);
        }
        let mut stop_seen: Option<Instant> = None;
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(if cfg!(miri) { 200 } else { 5 }));
            if cfg!(miri) {
                continue;
            }
            if stop.load(Ordering::SeqCst) {
                let t = stop_seen.get_or_insert_with(Instant::now);
                // a violation is already recorded: do not wait long for the others
                if t.elapsed() > Duration::from_secs(5) {
                    break;
                }
            }
            for w in 0..workers {
                let c = slots[w].clock.load(Ordering::SeqCst);
                if c == 0 {
                    continue;
                }
                let k = slots[w].case.load(Ordering::SeqCst);
                let Some(cpu) = clock_ns((c - 1) as u32 as libc::clockid_t) else { continue };
                let wall = (start.elapsed().as_millis() as u64).saturating_sub(slots[w].wall.load(Ordering::SeqCst));
                let (_, si, idx) = list[k];
                let lim = streams[si].cpu_limit * o.cpu_scale;
                if cpu > lim * 1_000_000_000 || wall > lim * 20_000 {
                    if slots[w].clock.load(Ordering::SeqCst) != c || slots[w].case.load(Ordering::SeqCst) != k {
                        continue;
                    }
                    let id = format!("{}:{}", streams[si].name, idx);
                    let mut r = rep.lock().unwrap();
                    if streams[si].hang_is_violation {
                        r.violations.push((id, format!("HANG: case used more than {lim} s of CPU time without terminating")));
                        stop.store(true, Ordering::SeqCst);
                        slots[w].clock.store(0, Ordering::SeqCst);
                        live.fetch_sub(1, Ordering::SeqCst);
                        stop_seen = Some(Instant::now() - Duration::from_secs(4));
                    } else {
                        r.hung.push(id);
                        r.evaluations += 1;
                        r.inconclusive += 1;
                        let many = r.hung.len() > 24;
                        drop(r);
                        // abandon the spinning thread, continue with a fresh worker
                        slots[w].case.store(usize::MAX, Ordering::SeqCst);
                        slots[w].clock.store(0, Ordering::SeqCst);
                        live.fetch_sub(1, Ordering::SeqCst);
                        if many {
                            stop.store(true, Ordering::SeqCst);
                            rep.lock().unwrap().capped = true;
                        } else {
                            spawn_worker(w);
                        }
                    }
                }
            }
        }
        if !rep.lock().unwrap().violations.is_empty() {
            break;
        }
    }
    let mut r = rep.lock().unwrap();
    let empty = Report { evaluations: 0, per_stream: Default::default(), count: Default::default(), max: Default::default(), sigs: Default::default(), samples: vec![], violations: vec![], inconclusive: 0, hung: vec![], capped: false };
    std::mem::replace(&mut *r, empty)
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_report(r: &Report, wall: f64, w: &mut impl Write) -> std::io::Result<()> {
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    write!(
        w,
        "{{\"evaluations\":{},\"distinct\":{},\"inconclusive\":{},\"capped\":{},\"hung\":[{}],\"streams\":{{{}}},\"count\":{{{}}},\"max\":{{{}}},\"samples\":[{}],\"violations\":[{}],\"entropy_calls\":{},\"wall\":{:.3}}}",
        r.evaluations,
        r.sigs.len(),
        r.inconclusive,
        r.capped,
        r.hung.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        map(&r.per_stream),
        map(&r.count),
        map(&r.max),
        r.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","),
        r.violations.iter().map(|(c, m)| format!("{{\"case\":{},\"msg\":{}}}", esc(c), esc(m))).collect::<Vec<_>>().join(","),
        getrandom::CALLS.load(Ordering::Relaxed),
        wall
    )
}
