//! Stateless explorer: a body is a deterministic function of a sequence of choices; the explorer
//! runs it once for every choice sequence whose number of deviations from the default choice does
//! not exceed the bound (`pick` costs one deviation when it is not 0, `free` never costs).
//! Every leaf is executed exactly once; nothing is sampled.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Copy)]
pub struct NoHash(u64);
impl Hasher for NoHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type U64Set = HashSet<u64, BuildHasherDefault<NoHash>>;

/// 64-bit mixing hasher (deterministic; fxhash-style with a strong finaliser).
#[derive(Clone, Copy)]
pub struct Mix(pub u64);
impl Default for Mix {
    fn default() -> Self {
        Mix(0x9E37_79B9_7F4A_7C15)
    }
}
impl Mix {
    #[inline]
    fn add(&mut self, v: u64) {
        let x = (self.0.rotate_left(23) ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        self.0 = x ^ (x >> 29);
    }
}
impl Hasher for Mix {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for w in &mut c {
            self.add(u64::from_le_bytes(w.try_into().unwrap()));
        }
        let r = c.remainder();
        if !r.is_empty() {
            let mut t = [0u8; 8];
            t[..r.len()].copy_from_slice(r);
            self.add(u64::from_le_bytes(t) ^ ((r.len() as u64) << 59));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64 ^ 0x55)
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Mix::default();
    t.hash(&mut h);
    h.finish()
}

pub type R = Result<(), Fail>;

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable key of the failing input / call site / history; matched against known findings.
    pub key: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { key: String::new(), msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { key: String::new(), msg: msg.to_string() }
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*).into()); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b).into()); }
    }};
}

#[derive(Default)]
pub struct Stats {
    pub states: U64Set,
    pub leaves: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        if self.states.is_empty() {
            self.states = o.states;
        } else {
            self.states.extend(o.states);
        }
        self.leaves += o.leaves;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Ch<'a> {
    prefix: &'a [u32],
    /// (choice, arity, free)
    pub trace: Vec<(u32, u32, bool)>,
    cost: u32,
    pub st: &'a mut Stats,
    want_sample: bool,
}
impl<'a> Ch<'a> {
    fn next(&mut self, n: usize, free: bool) -> usize {
        assert!(n > 0, "empty choice");
        let pos = self.trace.len();
        let c = if pos < self.prefix.len() { self.prefix[pos] } else { 0 };
        assert!((c as usize) < n, "choice {c} out of range {n} at {pos}: non-deterministic body");
        if c != 0 && !free {
            self.cost += 1;
        }
        self.trace.push((c, n as u32, free));
        c as usize
    }
    /// A choice whose default (0) is free and every other alternative costs one deviation.
    pub fn pick(&mut self, n: usize) -> usize {
        self.next(n, false)
    }
    /// A choice explored in full.
    pub fn free(&mut self, n: usize) -> usize {
        self.next(n, true)
    }
    pub fn of<T: Clone>(&mut self, a: &[T]) -> T {
        let i = self.free(a.len());
        a[i].clone()
    }
    pub fn dev<T: Clone>(&mut self, a: &[T]) -> T {
        let i = self.pick(a.len());
        a[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.free(2) == 1
    }
    /// Record a distinct state of the reference model / case.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.st.states.insert(hash64(t));
    }
    /// Count transitions (API operations executed on the real code).
    pub fn step(&mut self, n: u64) {
        self.st.transitions += n;
    }
    pub fn traced(&mut self) {
        self.st.traces += 1;
    }
    pub fn outcome(&mut self, k: &str) {
        if let Some(v) = self.st.outcomes.get_mut(k) {
            *v += 1;
        } else {
            self.st.outcomes.insert(k.to_string(), 1);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.want_sample = false;
            let mut s = f();
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
                s.push_str("...");
            }
            self.st.samples.push(s);
        }
    }
}

pub type Body = Box<dyn Fn(&mut Ch) -> R + Sync + Send>;
pub struct Space {
    pub name: String,
    pub bound: u32,
    pub what: String,
    pub body: Body,
}
pub fn space(name: &str, bound: u32, what: &str, body: impl Fn(&mut Ch) -> R + Sync + Send + 'static) -> Space {
    Space { name: name.into(), bound, what: what.into(), body: Box::new(body) }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub fail: Fail,
    pub cost: u32,
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CUR: Cell<(*const u32, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}
/// property id, and the name of the space currently explored (one at a time).
pub static CUR_PROP: Mutex<String> = Mutex::new(String::new());
static CUR_SPACE: Mutex<String> = Mutex::new(String::new());

/// Called from crash handlers and the allocator guard: report the current leaf and leave.
pub fn report_fatal(msg: &str) -> ! {
    let (p, n) = CUR.with(|c| c.get());
    let choices = if p.is_null() { vec![] } else { unsafe { std::slice::from_raw_parts(p, n) }.to_vec() };
    fatal_with(msg, choices)
}
fn fatal_with(msg: &str, choices: Vec<u32>) -> ! {
    let prop = CUR_PROP.try_lock().map(|g| g.clone()).unwrap_or_default();
    let space = CUR_SPACE.try_lock().map(|g| g.clone()).unwrap_or_default();
    crate::report::fatal(&prop, &Violation { space, choices, fail: msg.into(), cost: 0 });
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

pub fn install_handlers() {
    std::panic::set_hook(Box::new(|info| {
        let m = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let l = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("panicked at {l}: {m}"))
            }
        });
    }));
    extern "C" fn on_signal(sig: libc::c_int) {
        unsafe { libc::signal(sig, libc::SIG_DFL) };
        let extra = PANIC.try_with(|p| p.try_borrow().ok().and_then(|x| x.clone())).ok().flatten().unwrap_or_default();
        report_fatal(&format!("process killed by signal {sig} while running this case {extra}"));
    }
    for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
        unsafe { libc::signal(s, on_signal as *const () as libc::sighandler_t) };
    }
}

/// Run one leaf; a panic anywhere is a failure of the leaf.
pub fn run_leaf(body: &Body, prefix: &[u32], st: &mut Stats, want_sample: bool) -> (R, Vec<(u32, u32, bool)>, u32) {
    CUR.with(|c| c.set((prefix.as_ptr(), prefix.len())));
    let mut ch = Ch { prefix, trace: Vec::with_capacity(32), cost: 0, st, want_sample };
    let r = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    CUR.with(|c| c.set((std::ptr::null(), 0)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            crate::alloc_guard::clear();
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
            Err(m.into())
        }
    };
    let (t, c) = (std::mem::take(&mut ch.trace), ch.cost);
    (r, t, c)
}

pub struct Result_ {
    pub stats: Stats,
    pub violation: Option<Violation>,
    pub complete: bool,
    pub wall: f64,
}

/// A case hangs when it has used this much processor time (load on the machine does not count), or
/// has not finished after the second limit.
const LEAF_CPU_MS: u64 = 120_000;
const LEAF_WALL_MS: u64 = 600_000;
fn thread_cpu_ms(t: libc::pthread_t) -> u64 {
    let mut c: libc::clockid_t = 0;
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    // only asked about a thread that is inside a case, so it exists
    unsafe {
        if libc::pthread_getcpuclockid(t, &mut c) != 0 || libc::clock_gettime(c, &mut ts) != 0 {
            return 0;
        }
    }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

pub fn explore(sp: &Space, bound: u32, threads: usize, deadline: Option<Instant>, known: &[String]) -> Result_ {
    *CUR_SPACE.lock().unwrap() = sp.name.clone();
    let t0 = Instant::now();
    let global: Mutex<(Vec<Vec<u32>>, usize)> = Mutex::new((vec![vec![]], 0)); // stack, idle
    let cv = Condvar::new();
    let hungry = AtomicU64::new(threads as u64);
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let found: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let slots: Vec<(AtomicU64, Mutex<Vec<u32>>)> = (0..threads).map(|_| (AtomicU64::new(0), Mutex::new(vec![]))).collect();
    let handles: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let mon = s.spawn(|| {
            // per worker: the case last seen and the processor time its thread had used then
            let mut seen = vec![(0u64, 0u64); threads];
            while !done.load(Ordering::Relaxed) {
                std::thread::park_timeout(Duration::from_millis(1000));
                let now = t0.elapsed().as_millis() as u64 + 1;
                for (w, (st, pre)) in slots.iter().enumerate() {
                    let (b, h) = (st.load(Ordering::Relaxed), handles[w].load(Ordering::Relaxed));
                    if b == 0 || h == 0 || now < b + 5000 {
                        continue;
                    }
                    let cpu = thread_cpu_ms(h as libc::pthread_t);
                    if seen[w].0 != b {
                        seen[w] = (b, cpu);
                    }
                    if cpu > seen[w].1 + LEAF_CPU_MS || now > b + LEAF_WALL_MS {
                        fatal_with("the case did not terminate within the time limit", pre.lock().unwrap().clone());
                    }
                }
            }
        });
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let (global, cv, hungry, stop, timed_out, found, total, slots, handles) = (&global, &cv, &hungry, &stop, &timed_out, &found, &total, &slots, &handles);
                s.spawn(move || {
                    handles[w].store(unsafe { libc::pthread_self() } as u64, Ordering::Relaxed);
                    let mut st = Stats::default();
                    let mut local: Vec<Vec<u32>> = vec![];
                    loop {
                        let prefix = match local.pop() {
                            Some(p) => p,
                            None => {
                                let mut g = global.lock().unwrap();
                                g.1 += 1;
                                hungry.store(g.1 as u64, Ordering::Relaxed);
                                let got = loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break None;
                                    }
                                    if let Some(p) = g.0.pop() {
                                        break Some(p);
                                    }
                                    if g.1 == threads {
                                        break None;
                                    }
                                    g = cv.wait(g).unwrap();
                                };
                                match got {
                                    Some(p) => {
                                        g.1 -= 1;
                                        hungry.store(g.1 as u64, Ordering::Relaxed);
                                        p
                                    }
                                    None => {
                                        cv.notify_all();
                                        break;
                                    }
                                }
                            }
                        };
                        if stop.load(Ordering::Relaxed) {
                            cv.notify_all();
                            local.clear();
                            let mut g = global.lock().unwrap();
                            g.0.clear();
                            continue;
                        }
                        *slots[w].1.lock().unwrap() = prefix.clone();
                        slots[w].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let want = st.leaves == 0 || (st.leaves == 1000);
                        let (r, trace, cost) = run_leaf(&sp.body, &prefix, &mut st, want && w < 2);
                        slots[w].0.store(0, Ordering::Relaxed);
                        st.leaves += 1;
                        if let Err(f) = r {
                            if !f.key.is_empty() && known.contains(&f.key) {
                                *st.known.entry(f.key.clone()).or_default() += 1;
                            } else {
                                let choices: Vec<u32> = trace.iter().map(|t| t.0).collect();
                                found.lock().unwrap().push(Violation { space: sp.name.clone(), choices, fail: f, cost });
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        if st.leaves % 64 == 0 {
                            if let Some(d) = deadline {
                                if Instant::now() > d {
                                    timed_out.store(true, Ordering::Relaxed);
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                        // children: deviate at every position after the prefix
                        let mut c_at = 0u32;
                        for (i, (c, n, free)) in trace.iter().enumerate() {
                            if i >= prefix.len() {
                                let room = *free || c_at < bound;
                                if room {
                                    for alt in (1..*n).rev() {
                                        let mut p: Vec<u32> = Vec::with_capacity(i + 1);
                                        p.extend(trace[..i].iter().map(|t| t.0));
                                        p.push(alt);
                                        local.push(p);
                                    }
                                }
                            }
                            if *c != 0 && !*free {
                                c_at += 1;
                            }
                        }
                        if local.len() > 1 && hungry.load(Ordering::Relaxed) > 0 {
                            let mut g = global.lock().unwrap();
                            if g.0.len() < threads {
                                // donate the oldest (largest) subtrees
                                let k = (local.len() / 2).min(64);
                                g.0.extend(local.drain(..k));
                                hungry.store(g.1 as u64, Ordering::Relaxed);
                                cv.notify_all();
                            }
                        }
                    }
                    total.lock().unwrap().merge(st);
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
        mon.thread().unpark();
        mon.join().unwrap();
    });
    let mut v = found.into_inner().unwrap();
    v.sort_by(|a, b| (a.cost, a.choices.len(), &a.choices).cmp(&(b.cost, b.choices.len(), &b.choices)));
    let complete = !stop.load(Ordering::Relaxed);
    let _ = timed_out;
    Result_ { stats: total.into_inner().unwrap(), violation: v.into_iter().next(), complete, wall: t0.elapsed().as_secs_f64() }
}
