//! Exhaustive, deviation-bounded exploration of choice trees, with replay,
//! crash/hang supervision, known findings and evidence.
//!
//! An *execution* is a function of a sequence of choices.  Two kinds exist:
//! `pick` (data nondeterminism, always fully enumerated) and `sched`
//! (scheduling nondeterminism; every non-default choice costs one deviation).
//! All executions with at most `max_cost` deviations are enumerated, in the
//! order of their cost.

use serde_json::{Value, json};
use std::{
    any::Any,
    collections::{BTreeMap, HashMap, HashSet},
    hash::{BuildHasherDefault, Hash, Hasher},
    io::Write as _,
    panic::{AssertUnwindSafe, catch_unwind},
    path::{Path, PathBuf},
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
    },
    time::{Duration, Instant},
};

mod detrand;
pub use detrand::{Order, det_order, det_reset, det_seed_byte};

// ---------------------------------------------------------------- hashing

/// Deterministic FNV-1a style hasher with avalanche.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^= x >> 33;
        x
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}
#[derive(Default, Clone)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _b: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
}
pub type StateSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

// ---------------------------------------------------------------- violations

/// A violation of the property: a stable signature and a human description.
#[derive(Clone, Debug)]
pub struct Violation {
    /// stable class of the failure (used for known findings)
    pub sig: String,
    pub msg: String,
}
impl Violation {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Violation {
            sig: sig.into(),
            msg: msg.into(),
        }
    }
}
pub type Outcome = Result<(), Violation>;

/// Return a violation with signature `$sig` unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Violation::new($sig, format!($($arg)*)));
        }
    };
}

// ---------------------------------------------------------------- context

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Choice {
    n: u16,
    chosen: u16,
    costs: bool,
}

struct CtxInner {
    prefix: Vec<u16>,
    trace: Vec<Choice>,
    cost: usize,
    max_cost: usize,
    states: Vec<u64>,
    transitions: u64,
    outcome: Fnv,
    verbose: bool,
    log: Vec<String>,
    diverged: Option<String>,
    #[allow(dead_code)]
    slot: Option<Slot>,
    violation: Option<Violation>,
    nontrivial: bool,
    live_log: bool,
}

/// Handle on the running execution: the source of all choices.
#[derive(Clone)]
pub struct Ctx(Arc<Mutex<CtxInner>>);

pub struct Diverged;

impl Ctx {
    fn new(prefix: Vec<u16>, max_cost: usize, verbose: bool, slot: Option<Slot>) -> Ctx {
        if let Some(s) = &slot {
            s.begin(&prefix);
        }
        Ctx(Arc::new(Mutex::new(CtxInner {
            prefix,
            trace: Vec::new(),
            cost: 0,
            max_cost,
            states: Vec::new(),
            transitions: 0,
            outcome: Fnv::default(),
            verbose,
            log: Vec::new(),
            diverged: None,
            slot,
            violation: None,
            nontrivial: false,
            live_log: std::env::var_os("MC_LIVE").is_some(),
        })))
    }
    /// A context outside any exploration (always the default choice).
    pub fn detached() -> Ctx {
        Ctx::new(Vec::new(), 0, false, None)
    }
    fn inner(&self) -> std::sync::MutexGuard<'_, CtxInner> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    fn choose(&self, n: usize, costs: bool) -> usize {
        assert!(n > 0 && n < u16::MAX as usize, "choice among {n}");
        if n == 1 {
            return 0;
        }
        let mut g = self.inner();
        let i = g.trace.len();
        let mut c = g.prefix.get(i).copied().unwrap_or(0) as usize;
        if c >= n {
            if g.diverged.is_none() {
                g.diverged = Some(format!("choice {i}: recorded {c} but only {n} options"));
            }
            c = 0;
        }
        if costs && c != 0 {
            g.cost += 1;
        }
        g.trace.push(Choice {
            n: n as u16,
            chosen: c as u16,
            costs,
        });
        c
    }
    /// Fully enumerated choice in `0..n`.
    pub fn pick(&self, n: usize) -> usize {
        self.choose(n, false)
    }
    /// Scheduling choice in `0..n`; anything but 0 costs a deviation.
    pub fn sched(&self, n: usize) -> usize {
        self.choose(n, true)
    }
    pub fn cost_left(&self) -> usize {
        let g = self.inner();
        g.max_cost.saturating_sub(g.cost)
    }
    pub fn pick_of<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.pick(xs.len())]
    }
    /// Record an abstract state that was reached.
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash_of(t);
        let mut g = self.inner();
        g.states.push(h);
        g.transitions += 1;
    }
    /// Count a transition without recording a state.
    pub fn step(&self) {
        self.inner().transitions += 1;
    }
    pub fn steps(&self, n: u64) {
        self.inner().transitions += n;
    }
    /// Mix something into the observed outcome of this execution.
    pub fn outcome<T: Hash + ?Sized>(&self, t: &T) {
        let mut g = self.inner();
        t.hash(&mut g.outcome);
        g.nontrivial = true;
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let mut g = self.inner();
        if g.verbose {
            let s = f();
            if g.live_log {
                eprintln!("  {s}");
            }
            g.log.push(s);
        }
    }
    pub fn verbose(&self) -> bool {
        self.inner().verbose
    }
    /// Record a violation from anywhere (first one wins).
    pub fn violate(&self, v: Violation) {
        let mut g = self.inner();
        if g.violation.is_none() {
            g.violation = Some(v);
        }
    }
    pub fn violated(&self) -> bool {
        self.inner().violation.is_some()
    }
}

// ---------------------------------------------------------------- shared slots (survive a crash of the worker)

const SLOT_BYTES: usize = 8192;
#[derive(Clone, Copy)]
struct Slot {
    ptr: *mut u8,
}
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
impl Slot {
    // layout: [0..8) state (0 idle, 1 running), [8..16) start ms, [16..24) scenario, [24..32) len, then u16 choices
    fn begin(&self, prefix: &[u16]) {
        unsafe {
            let p = self.ptr as *mut u64;
            let n = prefix.len().min((SLOT_BYTES - 32) / 2);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), self.ptr.add(32) as *mut u16, n);
            p.add(3).write_volatile(n as u64);
            p.add(1).write_volatile(now_ms());
            p.write_volatile(1);
        }
    }
    fn end(&self) {
        unsafe { (self.ptr as *mut u64).write_volatile(0) }
    }
    fn set_scenario(&self, s: usize) {
        unsafe { (self.ptr as *mut u64).add(2).write_volatile(s as u64) }
    }
    fn running_since(&self) -> Option<u64> {
        unsafe {
            let p = self.ptr as *mut u64;
            if p.read_volatile() == 1 {
                Some(p.add(1).read_volatile())
            } else {
                None
            }
        }
    }
}
fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}
fn map_slots(path: &Path, n: usize) -> Vec<Slot> {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("slot file");
    f.set_len((n * SLOT_BYTES) as u64).unwrap();
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            n * SLOT_BYTES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    (0..n)
        .map(|i| Slot {
            ptr: unsafe { (p as *mut u8).add(i * SLOT_BYTES) },
        })
        .collect()
}
fn read_slots(path: &Path) -> Vec<(usize, Vec<u16>, u64)> {
    let Ok(b) = std::fs::read(path) else {
        return vec![];
    };
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let mut out = vec![];
    for i in 0..b.len() / SLOT_BYTES {
        let o = i * SLOT_BYTES;
        if u(o) == 1 {
            let n = u(o + 24) as usize;
            let pre = (0..n)
                .map(|k| {
                    u16::from_le_bytes(b[o + 32 + 2 * k..o + 34 + 2 * k].try_into().unwrap())
                })
                .collect();
            out.push((u(o + 16) as usize, pre, u(o + 8)));
        }
    }
    out.sort_by_key(|x| x.2);
    out
}

// ---------------------------------------------------------------- checks

pub type RunFn = dyn Fn(&Ctx) -> Outcome + Send + Sync;

pub struct Scenario {
    pub name: String,
    /// deviation bound for `sched` choices
    pub max_cost: usize,
    /// abort knob; the scenario is then reported as not exhaustive
    pub max_execs: u64,
    pub run: Arc<RunFn>,
    /// run each execution on a fresh OS thread (deterministic hash seeds)
    pub fresh_thread: bool,
    /// weight for dividing the time budget
    pub weight: u32,
}
impl Scenario {
    pub fn new(
        name: impl Into<String>,
        max_cost: usize,
        run: impl Fn(&Ctx) -> Outcome + Send + Sync + 'static,
    ) -> Scenario {
        Scenario {
            name: name.into(),
            max_cost,
            max_execs: u64::MAX,
            run: Arc::new(run),
            fresh_thread: true,
            weight: 1,
        }
    }
    pub fn same_thread(mut self) -> Self {
        self.fresh_thread = false;
        self
    }
    pub fn weight(mut self, w: u32) -> Self {
        self.weight = w;
        self
    }
    pub fn cap(mut self, n: u64) -> Self {
        self.max_execs = n;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(&self) -> bool {
        *self == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn or<T>(&self, q: T, t: T) -> T {
        if self.thorough() { t } else { q }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub scenarios: Box<dyn Fn(Tier) -> Vec<Scenario>>,
}

// ---------------------------------------------------------------- one execution

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
static PANICS: AtomicU64 = AtomicU64::new(0);

fn install_panic_hook() {
    let show = std::env::var_os("MC_SHOW_PANICS").is_some();
    std::panic::set_hook(Box::new(move |info| {
        PANICS.fetch_add(1, Ordering::Relaxed);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        if show {
            eprintln!("PANIC [{:?}] {msg} at {loc}", std::thread::current().name());
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
pub fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}
/// The last panic message on this thread (from the hook), taken.
pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.try_with(|p| p.borrow_mut().take()).ok().flatten()
}

struct Exec {
    trace: Vec<Choice>,
    states: Vec<u64>,
    transitions: u64,
    outcome: u64,
    nontrivial: bool,
    log: Vec<String>,
    diverged: Option<String>,
    result: Outcome,
}

fn strip_numbers(s: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in s.chars() {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('#');
            }
            last_digit = true;
        } else {
            out.push(c);
            last_digit = false;
        }
    }
    out.truncate(160);
    out
}

fn run_once(
    sc: &Scenario,
    prefix: &[u16],
    verbose: bool,
    slot: Option<Slot>,
) -> Exec {
    let ctx = Ctx::new(prefix.to_vec(), sc.max_cost, verbose, slot);
    let body = {
        let ctx = ctx.clone();
        let run = sc.run.clone();
        move || {
            det_reset();
            let r = catch_unwind(AssertUnwindSafe(|| run(&ctx)));
            match r {
                Ok(r) => r,
                Err(p) => {
                    let m = take_last_panic().unwrap_or_else(|| payload_str(p.as_ref()));
                    Err(Violation::new(
                        format!("panic:{}", strip_numbers(&payload_str(p.as_ref()))),
                        format!("panic: {m}"),
                    ))
                }
            }
        }
    };
    let mut result = if sc.fresh_thread {
        std::thread::Builder::new()
            .name("exec".into())
            .stack_size(1 << 21)
            .spawn(body)
            .expect("spawn")
            .join()
            .unwrap_or_else(|_| {
                Err(Violation::new("panic:unwind", "execution thread panicked"))
            })
    } else {
        body()
    };
    if let Some(s) = &slot {
        s.end();
    }
    let mut g = ctx.inner();
    if let Some(v) = g.violation.take() {
        result = Err(v);
    }
    Exec {
        trace: std::mem::take(&mut g.trace),
        states: std::mem::take(&mut g.states),
        transitions: g.transitions,
        outcome: g.outcome.finish(),
        nontrivial: g.nontrivial,
        log: std::mem::take(&mut g.log),
        diverged: g.diverged.take(),
        result,
    }
}

// ---------------------------------------------------------------- exploration of one scenario

struct Queue {
    /// prefixes by cost
    buckets: Vec<Vec<Vec<u16>>>,
    active: usize,
    cur: usize,
}

struct Stats {
    execs: u64,
    transitions: u64,
    states: StateSet,
    outcomes: StateSet,
    max_len: usize,
    nontrivial: u64,
    violations: Vec<(Violation, Vec<u16>)>,
    known: BTreeMap<String, (Violation, Vec<u16>, u64)>,
    diverged: Vec<(String, Vec<u16>)>,
    longest: Vec<u16>,
}
impl Stats {
    fn new() -> Self {
        Stats {
            execs: 0,
            transitions: 0,
            states: Default::default(),
            outcomes: Default::default(),
            max_len: 0,
            nontrivial: 0,
            violations: vec![],
            known: BTreeMap::new(),
            diverged: vec![],
            longest: vec![],
        }
    }
}

fn trim(mut v: Vec<u16>) -> Vec<u16> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

struct ScenarioResult {
    name: String,
    max_cost: usize,
    stats: Stats,
    exhaustive: bool,
    completed_cost: i64,
    execs_by_cost: Vec<u64>,
    wall: f64,
}

fn explore_scenario(
    idx: usize,
    sc: &Scenario,
    workers: usize,
    slots: &[Slot],
    deadline: Instant,
    known: &dyn Fn(&str) -> bool,
) -> ScenarioResult {
    let t0 = Instant::now();
    let queue = Mutex::new(Queue {
        buckets: (0..=sc.max_cost).map(|_| vec![]).collect(),
        active: 0,
        cur: 0,
    });
    queue.lock().unwrap().buckets[0].push(vec![]);
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let truncated = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let found = AtomicUsize::new(0);
    let by_cost: Vec<AtomicU64> = (0..=sc.max_cost).map(|_| AtomicU64::new(0)).collect();
    let results: Vec<Stats> = std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..workers {
            let slot = slots[w];
            let (queue, cv, stop, truncated, execs, found, by_cost) =
                (&queue, &cv, &stop, &truncated, &execs, &found, &by_cost);
            let known = AssertSync(known);
            hs.push(s.spawn(move || {
                let known = known;
                slot.set_scenario(idx);
                let mut st = Stats::new();
                loop {
                    // take a prefix: strictly by cost level
                    let mut q = queue.lock().unwrap();
                    let (cost, prefix) = loop {
                        if stop.load(Ordering::Relaxed) {
                            cv.notify_all();
                            return st;
                        }
                        let cur = q.cur;
                        if let Some(p) = q.buckets[cur].pop() {
                            q.active += 1;
                            break (cur, p);
                        }
                        if q.active == 0 {
                            if q.cur < sc.max_cost {
                                q.cur += 1;
                                cv.notify_all();
                                continue;
                            }
                            cv.notify_all();
                            return st;
                        }
                        q = cv.wait(q).unwrap();
                    };
                    drop(q);
                    let ex = run_once(sc, &prefix, false, Some(slot));
                    by_cost[cost].fetch_add(1, Ordering::Relaxed);
                    let n = execs.fetch_add(1, Ordering::Relaxed) + 1;
                    st.execs += 1;
                    st.transitions += ex.transitions;
                    if ex.nontrivial {
                        st.nontrivial += 1;
                    }
                    st.states.extend(ex.states.iter().copied());
                    st.outcomes.insert(ex.outcome);
                    if ex.trace.len() > st.max_len {
                        st.max_len = ex.trace.len();
                        st.longest = ex.trace.iter().map(|c| c.chosen).collect();
                    }
                    if let Some(d) = ex.diverged {
                        st.diverged.push((d, prefix.clone()));
                    } else if let Err(v) = ex.result {
                        let full: Vec<u16> =
                            trim(ex.trace.iter().map(|c| c.chosen).collect());
                        if (known.0)(&v.sig) {
                            st.known
                                .entry(v.sig.clone())
                                .and_modify(|e| e.2 += 1)
                                .or_insert((v, full, 1));
                        } else {
                            st.violations.push((v, full));
                            if found.fetch_add(1, Ordering::Relaxed) >= 4 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    // children
                    let mut children: Vec<(usize, Vec<u16>)> = vec![];
                    for i in prefix.len()..ex.trace.len() {
                        let c = ex.trace[i];
                        let nc = cost + c.costs as usize;
                        if nc > sc.max_cost {
                            continue;
                        }
                        for alt in 1..c.n {
                            let mut p: Vec<u16> =
                                ex.trace[..i].iter().map(|c| c.chosen).collect();
                            p.push(alt);
                            children.push((nc, p));
                        }
                    }
                    if n >= sc.max_execs || Instant::now() > deadline {
                        truncated.store(true, Ordering::Relaxed);
                        stop.store(true, Ordering::Relaxed);
                    }
                    let mut q = queue.lock().unwrap();
                    q.active -= 1;
                    for (c, p) in children {
                        q.buckets[c].push(p);
                    }
                    cv.notify_all();
                }
            }));
        }
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let q = queue.into_inner().unwrap();
    let left = q.buckets.iter().any(|b| !b.is_empty());
    let mut all = Stats::new();
    for r in results {
        all.execs += r.execs;
        all.transitions += r.transitions;
        all.nontrivial += r.nontrivial;
        all.states.extend(r.states);
        all.outcomes.extend(r.outcomes);
        if r.max_len >= all.max_len {
            all.max_len = r.max_len;
            all.longest = r.longest;
        }
        all.violations.extend(r.violations);
        all.diverged.extend(r.diverged);
        for (k, v) in r.known {
            all.known
                .entry(k)
                .and_modify(|e| e.2 += v.2)
                .or_insert(v);
        }
    }
    all.violations.sort_by_key(|v| (v.1.iter().filter(|c| **c != 0).count(), v.1.len(), v.1.clone()));
    let exhaustive = !left && !truncated.load(Ordering::Relaxed) || !left;
    ScenarioResult {
        name: sc.name.clone(),
        max_cost: sc.max_cost,
        exhaustive,
        completed_cost: if exhaustive { sc.max_cost as i64 } else { q.cur as i64 - 1 },
        stats: all,
        execs_by_cost: by_cost.iter().map(|c| c.load(Ordering::Relaxed)).collect(),
        wall: t0.elapsed().as_secs_f64(),
    }
}

struct AssertSync<'a>(&'a dyn Fn(&str) -> bool);
unsafe impl Send for AssertSync<'_> {}
unsafe impl Sync for AssertSync<'_> {}
impl Clone for AssertSync<'_> {
    fn clone(&self) -> Self {
        AssertSync(self.0)
    }
}
impl Copy for AssertSync<'_> {}

// ---------------------------------------------------------------- known findings

struct Known {
    entries: Vec<(String, String, String)>, // property, sig (exact, or prefix ending in *), text
}
impl Known {
    fn load(path: &Path) -> Known {
        let mut entries = vec![];
        if let Ok(s) = std::fs::read_to_string(path) {
            for l in s.lines() {
                let l = l.trim();
                if let Some(rest) = l.strip_prefix("finding: property=") {
                    // finding: property=C07 sig=<sig> :: text
                    if let Some((p, rest)) = rest.split_once(' ')
                        && let Some(rest) = rest.trim().strip_prefix("sig=")
                        && let Some((sig, text)) = rest.split_once(" :: ")
                    {
                        entries.push((p.to_string(), sig.trim().to_string(), text.to_string()));
                    }
                }
            }
        }
        Known { entries }
    }
    fn find(&self, prop: &str, scenario: &str, sig: &str) -> Option<&(String, String, String)> {
        let full = format!("{scenario}/{sig}");
        self.entries.iter().find(|(p, s, _)| {
            p == prop
                && if let Some(pre) = s.strip_suffix('*') {
                    full.starts_with(pre) || sig.starts_with(pre)
                } else {
                    *s == full || s == sig
                }
        })
    }
}

// ---------------------------------------------------------------- driver

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn choices_json(v: &[u16]) -> Value {
    Value::Array(v.iter().map(|c| json!(c)).collect())
}

/// Entry point of a checker binary.
///
/// `<bin> <ID> [quick|thorough]`, `<bin> replay <file>`, `<bin> list`
pub fn main(checks: Vec<Check>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        Some("replay") => replay_cmd(&checks, Path::new(&args[2])),
        Some("--worker") => worker(&checks, &args[2..]),
        Some("--one") => one(&checks, &args[2..]),
        Some(id) => {
            let tier = args.get(2).map(|s| s.as_str()).unwrap_or("quick");
            supervise(&checks, id, tier, args.get(3).cloned())
        }
        None => {
            eprintln!("usage: <bin> ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::io::stdout().flush().ok();
    // no destructors: component threads may still be parked
    unsafe { libc::_exit(code) }
}

fn find<'a>(checks: &'a [Check], id: &str) -> &'a Check {
    checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {id}");
        std::process::exit(2)
    })
}
fn tier_of(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

const HANG_MS: u64 = 40_000;

fn supervise(checks: &[Check], id: &str, tier: &str, only: Option<String>) -> i32 {
    let t0 = Instant::now();
    let check = find(checks, id);
    let work = verif_dir().join(".work").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("--worker").arg(id).arg(tier).arg(&work);
    if let Some(o) = &only {
        cmd.arg(o);
    }
    let status = cmd.status().expect("worker");
    let res_file = work.join("result.json");
    let result: Option<Value> = std::fs::read(&res_file)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok());
    let code = match (status.code(), result) {
        (Some(0), Some(r)) => finish(check, tier, t0, r),
        _ => {
            // crashed or hung: find the culprit among the executions in flight
            let slots = read_slots(&work.join("slots"));
            eprintln!(
                "worker ended abnormally ({status}); {} executions in flight",
                slots.len()
            );
            let known = Known::load(&verif_dir().join("known_findings.txt"));
            let scs = (check.scenarios)(tier_of(tier));
            let mut found = None;
            let mut known_hit = vec![];
            for (s, prefix, _) in &slots {
                let name = &scs[*s].name;
                let (a, b) = (
                    probe(&exe, id, tier, name, prefix, &work),
                    probe(&exe, id, tier, name, prefix, &work),
                );
                eprintln!("  {name} {prefix:?}: {a:?} {b:?}");
                if let (Some(a), Some(b)) = (a, b)
                    && a == b
                {
                    if let Some(k) = known.find(id, name, &a) {
                        known_hit.push(k.2.clone());
                    } else {
                        found = Some((name.clone(), prefix.clone(), a));
                        break;
                    }
                }
            }
            if let Some((name, prefix, how)) = found {
                let path = write_replay(
                    id,
                    tier,
                    &name,
                    &prefix,
                    &Violation::new(how.clone(), format!("execution ends with {how}")),
                    &[],
                );
                let r = json!({"scenarios": [], "executions": 0, "states": 0, "transitions": 0,
                    "crashed": how, "samples": [{"scenario": name, "choices": choices_json(&prefix)}]});
                write_evidence(check, tier, t0, &r, 1, false);
                println!("{id}: {name}: execution ends with {how}, choices {prefix:?}");
                println!("VIOLATION property={id} replay={}", path.display());
                1
            } else {
                eprintln!("no reproducible culprit (known: {known_hit:?})");
                3
            }
        }
    };
    let _ = std::fs::remove_dir_all(&work);
    code
}

/// Run one execution in its own process; Some(how) if it dies or hangs.
fn probe(
    exe: &Path,
    id: &str,
    tier: &str,
    scenario: &str,
    prefix: &[u16],
    work: &Path,
) -> Option<String> {
    let pf = work.join("probe.json");
    std::fs::write(
        &pf,
        json!({"property": id, "tier": tier, "scenario": scenario, "choices": prefix}).to_string(),
    )
    .unwrap();
    let mut ch = std::process::Command::new(exe)
        .arg("--one")
        .arg(&pf)
        .stdout(std::process::Stdio::null())
        .spawn()
        .expect("probe");
    let t = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            use std::os::unix::process::ExitStatusExt;
            return match (st.code(), st.signal()) {
                (Some(0), _) => None,
                (Some(c), _) => Some(format!("exit:{c}")),
                (_, Some(sig)) => Some(format!("signal:{sig}")),
                _ => Some("unknown".into()),
            };
        }
        if t.elapsed() > Duration::from_secs(20) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some("hang".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn load_replay(f: &Path) -> (String, String, String, Vec<u16>) {
    let v: Value = serde_json::from_slice(&std::fs::read(f).expect("replay file")).expect("json");
    let g = |k: &str| v[k].as_str().unwrap().to_string();
    (
        g("property"),
        g("tier"),
        g("scenario"),
        v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap() as u16)
            .collect(),
    )
}

fn one(checks: &[Check], args: &[String]) -> i32 {
    let (id, tier, sc, choices) = load_replay(Path::new(&args[0]));
    install_panic_hook();
    let scs = (find(checks, &id).scenarios)(tier_of(&tier));
    let sc = scs.iter().find(|s| s.name == sc).expect("scenario");
    let ex = run_once(sc, &choices, false, None);
    drop(ex);
    0
}

fn replay_cmd(checks: &[Check], f: &Path) -> i32 {
    let (id, tier, scn, choices) = load_replay(f);
    install_panic_hook();
    let scs = (find(checks, &id).scenarios)(tier_of(&tier));
    let sc = scs.iter().find(|s| s.name == scn).expect("scenario");
    println!("property {id}, scenario {scn}, choices {choices:?}");
    let ex = run_once(sc, &choices, true, None);
    for l in &ex.log {
        println!("  {l}");
    }
    if let Some(d) = ex.diverged {
        println!("DIVERGED: {d}");
        return 3;
    }
    match ex.result {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(v) => {
            println!("violation [{}]: {}", v.sig, v.msg);
            println!("VIOLATION property={id} replay={}", f.display());
            1
        }
    }
}

fn write_replay(
    id: &str,
    tier: &str,
    scenario: &str,
    choices: &[u16],
    v: &Violation,
    log: &[String],
) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).ok();
    let h = hash_of(&(scenario, choices)) & 0xffffffff;
    let path = dir.join(format!("{id}-{h:08x}.json"));
    let j = json!({"property": id, "tier": tier, "scenario": scenario, "choices": choices,
        "sig": v.sig, "message": v.msg, "trace": log});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
    path
}

fn worker(checks: &[Check], args: &[String]) -> i32 {
    let (id, tier_s, work) = (&args[0], &args[1], PathBuf::from(&args[2]));
    let only = args.get(3);
    let tier = tier_of(tier_s);
    let check = find(checks, id);
    install_panic_hook();
    now_ms();
    let workers: usize = std::env::var("MC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let slots = map_slots(&work.join("slots"), workers);
    // watchdog
    {
        let slots = slots.clone();
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let now = now_ms();
                if slots
                    .iter()
                    .any(|s| s.running_since().is_some_and(|t| now.saturating_sub(t) > HANG_MS))
                {
                    eprintln!("watchdog: an execution has been running for over {HANG_MS} ms");
                    unsafe { libc::_exit(42) };
                }
            }
        });
    }
    let known = Known::load(&verif_dir().join("known_findings.txt"));
    let budget = std::env::var("MC_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.or(75.0f64, 600.0));
    let t0 = Instant::now();
    let scs = (check.scenarios)(tier);
    let mut results = vec![];
    let mut weight_left: u32 = scs.iter().map(|s| s.weight).sum();
    for (i, sc) in scs.iter().enumerate() {
        if let Some(o) = only
            && !sc.name.contains(o.as_str())
        {
            weight_left -= sc.weight;
            continue;
        }
        let left = (budget - t0.elapsed().as_secs_f64()).max(0.5);
        let share = left * sc.weight as f64 / weight_left as f64;
        // a scenario may overdraw its share as long as every later one keeps a little
        let deadline = Instant::now() + Duration::from_secs_f64(share.max(left * 0.15));
        weight_left -= sc.weight;
        let is_known = |sig: &str| known.find(id, &sc.name, sig).is_some();
        let r = explore_scenario(i, sc, workers, &slots, deadline, &is_known);
        println!(
            "{id}/{}: {} executions (by deviations {:?}), {} states, {} outcomes, {} transitions, longest {}, {}{} {:.1}s",
            r.name,
            r.stats.execs,
            r.execs_by_cost,
            r.stats.states.len(),
            r.stats.outcomes.len(),
            r.stats.transitions,
            r.stats.max_len,
            if r.exhaustive { "exhaustive within bound" } else { "NOT exhaustive" },
            if r.stats.violations.is_empty() { "" } else { ", VIOLATIONS" },
            r.wall
        );
        let stop = !r.stats.violations.is_empty();
        results.push((i, r));
        if stop {
            break;
        }
    }
    // confirm violations by replaying twice
    let mut viols = vec![];
    let mut errors = vec![];
    let mut known_lines: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut per = vec![];
    let (mut states, mut transitions, mut execs, mut outcomes, mut nontrivial) =
        (0u64, 0u64, 0u64, 0u64, 0u64);
    for (i, r) in &results {
        let sc = &scs[*i];
        for (d, p) in r.stats.diverged.iter().take(3) {
            errors.push(format!("{}: {d} {p:?}", r.name));
        }
        let mut seen = HashMap::new();
        for (v, choices) in &r.stats.violations {
            if seen.insert(v.sig.clone(), ()).is_some() {
                continue;
            }
            let a = run_once(sc, choices, true, None);
            let b = run_once(sc, choices, false, None);
            let same = |e: &Exec| matches!(&e.result, Err(x) if x.sig == v.sig);
            if same(&a) && same(&b) {
                let path = write_replay(id, tier_s, &r.name, choices, v, &a.log);
                viols.push(json!({"scenario": r.name, "sig": v.sig, "message": v.msg,
                    "choices": choices_json(choices), "replay": path.display().to_string(),
                    "log": a.log}));
            } else {
                errors.push(format!(
                    "{}: violation [{}] {} did not replay ({:?} / {:?})",
                    r.name, v.sig, v.msg, a.result, b.result
                ));
            }
        }
        for (sig, (_v, _c, n)) in &r.stats.known {
            let k = known.find(id, &r.name, sig).unwrap();
            *known_lines.entry(k.2.clone()).or_default() += n;
        }
        states += r.stats.states.len() as u64;
        transitions += r.stats.transitions;
        execs += r.stats.execs;
        outcomes += r.stats.outcomes.len() as u64;
        nontrivial += r.stats.nontrivial;
        per.push(json!({
            "scenario": r.name, "deviation_bound": r.max_cost, "executions": r.stats.execs,
            "executions_by_deviations": r.execs_by_cost, "completed_deviations": r.completed_cost,
            "states": r.stats.states.len(), "distinct_outcomes": r.stats.outcomes.len(),
            "transitions": r.stats.transitions, "longest_choice_sequence": r.stats.max_len,
            "exhaustive": r.exhaustive, "wall_s": r.wall }));
        if viols.is_empty() && samples.len() < 4 {
            let ex = run_once(sc, &r.stats.longest, true, None);
            let mut log = ex.log;
            log.truncate(60);
            samples.push(json!({"scenario": r.name, "choices": choices_json(&r.stats.longest), "trace": log}));
        }
    }
    let all_exhaustive = results.iter().all(|(_, r)| r.exhaustive) && results.len() == scs.len();
    let out = json!({
        "scenarios": per, "states": states, "transitions": transitions, "executions": execs,
        "distinct_outcomes": outcomes, "nontrivial": nontrivial, "exhaustive": all_exhaustive,
        "violations": viols, "errors": errors,
        "known": known_lines.iter().map(|(k, n)| json!([k, n])).collect::<Vec<_>>(),
        "samples": samples,
    });
    std::fs::write(work.join("result.json"), out.to_string()).expect("result");
    0
}

fn write_evidence(
    check: &Check,
    tier: &str,
    t0: Instant,
    r: &Value,
    violations: usize,
    exhaustive: bool,
) {
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut coverage = json!({
        "states": r["states"], "transitions": r["transitions"],
        "traces_validated_against_impl": r["executions"],
        "evaluations": r["executions"],
        "distinct_nontrivial": r["distinct_outcomes"],
        "rule": check.rule,
        "samples": r["samples"],
        "scenarios": r["scenarios"],
        "exhaustive": exhaustive,
    });
    if let Some(k) = r.get("known")
        && k.as_array().is_some_and(|a| !a.is_empty())
    {
        coverage["known_findings_seen"] = k.clone();
    }
    let e = json!({
        "property": check.id, "tier": tier, "seed": seed, "level": check.level,
        "coverage": coverage, "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let dir = verif_dir().join("evidence");
    std::fs::create_dir_all(&dir).ok();
    std::fs::write(
        dir.join(format!("{}.json", check.id)),
        serde_json::to_string_pretty(&e).unwrap(),
    )
    .expect("evidence");
}

fn finish(check: &Check, tier: &str, t0: Instant, r: Value) -> i32 {
    let viols = r["violations"].as_array().cloned().unwrap_or_default();
    let errors = r["errors"].as_array().cloned().unwrap_or_default();
    let exhaustive = r["exhaustive"].as_bool().unwrap_or(false);
    write_evidence(check, tier, t0, &r, viols.len(), exhaustive);
    for k in r["known"].as_array().into_iter().flatten() {
        println!(
            "KNOWN-FINDING: property={} {} ({} executions)",
            check.id,
            k[0].as_str().unwrap_or(""),
            k[1]
        );
    }
    println!(
        "{}: {} executions, {} distinct states, {} distinct outcomes, {} transitions, exhaustive={} in {:.1}s",
        check.id, r["executions"], r["states"], r["distinct_outcomes"], r["transitions"],
        exhaustive, t0.elapsed().as_secs_f64()
    );
    for e in &errors {
        eprintln!("ERROR: {}", e.as_str().unwrap_or(""));
    }
    if !viols.is_empty() {
        for v in &viols {
            println!(
                "{}: {} [{}] {}",
                check.id,
                v["scenario"].as_str().unwrap_or(""),
                v["sig"].as_str().unwrap_or(""),
                v["message"].as_str().unwrap_or("")
            );
            for l in v["log"].as_array().into_iter().flatten() {
                println!("    {}", l.as_str().unwrap_or(""));
            }
            println!(
                "VIOLATION property={} replay={}",
                check.id,
                v["replay"].as_str().unwrap_or("")
            );
        }
        return 1;
    }
    if !errors.is_empty() {
        return 3;
    }
    0
}
