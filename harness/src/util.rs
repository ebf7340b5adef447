//! Shared machinery: PRNG, run context, verdicts, panic attribution, watchdogs.
use crate::viol;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_5A5A_1234_8765))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn usize(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo)
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.usize(i + 1));
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

// ---------------------------------------------------------------- verdicts
#[derive(Clone, Debug)]
pub struct Violation {
    pub message: String,
    pub history: Vec<String>,
}

impl Violation {
    pub fn new(m: impl Into<String>) -> Self {
        Violation {
            message: m.into(),
            history: vec![],
        }
    }
    pub fn with(m: impl Into<String>, history: Vec<String>) -> Self {
        Violation {
            message: m.into(),
            history,
        }
    }
}

#[macro_export]
macro_rules! viol {
    ($($t:tt)*) => { $crate::util::Violation::new(format!($($t)*)) };
}

/// What one case yields when no violation was seen.
pub struct CaseOk {
    /// did the case reach what the property is about (per the property's rule)
    pub nontrivial: bool,
    /// hash identifying the case (its history) for the distinct count
    pub fingerprint: u64,
    pub sample: Option<String>,
}

pub type CaseResult = Result<CaseOk, Violation>;

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<(String, u64, Violation)>>,
    pub known: Mutex<Vec<String>>,
    pub inconclusive: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    pub start: Instant,
    pub max_samples: usize,
    pub replay: Option<(String, u64)>,
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<(String, u64)>) -> Arc<Self> {
        Arc::new(Ctx {
            id: id.to_string(),
            tier,
            seed,
            stats: Mutex::new(Stats::default()),
            violations: Mutex::new(vec![]),
            known: Mutex::new(vec![]),
            inconclusive: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            start: Instant::now(),
            max_samples: 4,
            replay,
        })
    }
    pub fn count(&self, key: &str, n: u64) {
        if n > 0 {
            *self
                .stats
                .lock()
                .unwrap()
                .counters
                .entry(key.to_string())
                .or_default() += n;
        }
    }
    pub fn counter(&self, key: &str) -> u64 {
        self.stats
            .lock()
            .unwrap()
            .counters
            .get(key)
            .copied()
            .unwrap_or(0)
    }
    pub fn merge(&self, c: &Counters) {
        let mut st = self.stats.lock().unwrap();
        for (k, v) in &c.0 {
            if *v > 0 {
                *st.counters.entry(k.to_string()).or_default() += v;
            }
        }
    }
    /// pick by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn known_finding(&self, what: impl Into<String>) {
        self.known.lock().unwrap().push(what.into());
    }
    pub fn inconclusive(&self, what: impl Into<String>) {
        self.inconclusive.lock().unwrap().push(what.into());
    }
    pub fn violate(&self, label: &str, case_seed: u64, v: Violation) {
        self.violations
            .lock()
            .unwrap()
            .push((label.to_string(), case_seed, v));
        self.stop.store(true, Ordering::SeqCst);
    }
    /// Record a case outcome.
    pub fn record(&self, label: &str, case_seed: u64, r: CaseResult) {
        match r {
            Ok(ok) => {
                let mut st = self.stats.lock().unwrap();
                st.evaluations += 1;
                if ok.nontrivial {
                    st.nontrivial.insert(ok.fingerprint);
                }
                if let Some(s) = ok.sample {
                    if ok.nontrivial && st.samples.len() < self.max_samples {
                        st.samples.push(s);
                    }
                }
            }
            Err(v) => {
                self.stats.lock().unwrap().evaluations += 1;
                self.violate(label, case_seed, v);
            }
        }
    }
    /// True while another sample would still be kept.
    pub fn wants_sample(&self) -> bool {
        self.stats.lock().unwrap().samples.len() < self.max_samples
    }
}

#[derive(Default, Clone)]
pub struct Counters(pub BTreeMap<&'static str, u64>);
impl Counters {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_default() += n;
    }
    pub fn get(&self, k: &'static str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        if std::env::var("MONITOR_TRACE_PANICS").is_ok() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Caught {
    /// panic raised by the code under test (or something it called)
    Library(String),
    /// panic raised by the harness itself: an error of the check
    Harness(String),
}

/// Run `f`; a panic is attributed by its source location.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            let text = format!("panic at {loc}: {msg}");
            // the harness' own files are compiled with relative paths ("src/...")
            if loc.starts_with("src/") || loc.contains("/verif/") {
                Err(Caught::Harness(text))
            } else {
                Err(Caught::Library(text))
            }
        }
    }
}

/// Library call: a panic inside is a violation; a harness panic propagates.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch(f) {
        Ok(t) => Ok(t),
        Err(Caught::Library(m)) => Err(viol!("{what} panicked: {m}")),
        Err(Caught::Harness(m)) => panic!("harness panic in {what}: {m}"),
    }
}

// ---------------------------------------------------------------- case driver
/// Runs cases 0..n over all cores. Stops at the first violation or at the time cap.
pub fn drive(
    ctx: &Arc<Ctx>,
    label: &str,
    n: u64,
    cap_secs: u64,
    threads: usize,
    case: impl Fn(&Ctx, u64) -> CaseResult + Send + Sync + 'static,
) {
    if ctx.stop.load(Ordering::SeqCst) {
        return;
    }
    if let Some((l, case_seed)) = &ctx.replay {
        // replaying one recorded case
        if l == label {
            for _ in 0..if single_threaded_cases() { 1 } else { 200 } {
                match catch(|| case(ctx, *case_seed)) {
                    Ok(r) => ctx.record(label, *case_seed, r),
                    Err(Caught::Library(m)) => {
                        ctx.record(label, *case_seed, Err(viol!("library panic: {m}")))
                    }
                    Err(Caught::Harness(m)) => ctx.inconclusive(format!("harness error: {m}")),
                }
                if ctx.stop.load(Ordering::SeqCst) {
                    break;
                }
            }
        }
        return;
    }
    let next = Arc::new(AtomicU64::new(0));
    let case = Arc::new(case);
    let start = Instant::now();
    let base = mix(ctx.seed ^ hash_of(&label) ^ hash_of(&ctx.id));
    // (thread id, case number, case seed)
    let running: Arc<Mutex<BTreeMap<i32, (u64, u64)>>> = Arc::default();
    let mut handles = vec![];
    for _ in 0..threads {
        let (ctx, next, case, running) =
            (ctx.clone(), next.clone(), case.clone(), running.clone());
        let label = label.to_string();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    loop {
                        if ctx.stop.load(Ordering::SeqCst) || start.elapsed().as_secs() >= cap_secs
                        {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        let case_seed = mix(base ^ mix(i));
                        running.lock().unwrap().insert(gettid(), (i, case_seed));
                        match catch(|| case(&ctx, case_seed)) {
                            Ok(r) => ctx.record(&label, case_seed, r),
                            Err(Caught::Library(m)) => {
                                ctx.record(&label, case_seed, Err(viol!("library panic: {m}")))
                            }
                            Err(Caught::Harness(m)) => {
                                ctx.inconclusive(format!("harness error: {m}"));
                                ctx.stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    running.lock().unwrap().remove(&gettid());
                })
                .unwrap(),
        );
    }
    // Supervise. Each single-threaded case only touches objects of its own, so a case thread asleep
    // on a lock can never be woken; and one that burns much processor time on a case
    // that takes milliseconds is not going to finish.
    struct Watch {
        case: u64,
        state: String,
        same: u32,
        cpu0: u64,
    }
    let mut watch: BTreeMap<i32, Watch> = BTreeMap::new();
    // in hundredths of a second
    let cpu_limit = if label.starts_with("many") { 30_000 } else { 4_000 };
    let mut slowest = 0;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
        let live: Vec<(i32, (u64, u64))> =
            running.lock().unwrap().iter().map(|(a, b)| (*a, *b)).collect();
        for (t, (i, case_seed)) in live {
            let (state, cpu, fp) = thread_state(t);
            let w = watch.entry(t).or_insert(Watch {
                case: i,
                state: String::new(),
                same: 0,
                cpu0: cpu,
            });
            if w.case != i {
                *w = Watch {
                    case: i,
                    state: fp,
                    same: 0,
                    cpu0: cpu,
                };
                continue;
            }
            slowest = slowest.max(cpu.saturating_sub(w.cpu0));
            if state == 'S' && w.state == fp {
                w.same += 1;
            } else {
                w.same = 0;
                w.state = fp;
            }
            if single_threaded_cases() && w.same > 100 {
                ctx.violate(label, case_seed, viol!("an operation never returned: its thread has been asleep on a lock for {} samples without a single context switch, and no other thread shares its objects", w.same));
                return; // leave the stuck thread behind
            }
            if single_threaded_cases() && cpu.saturating_sub(w.cpu0) > cpu_limit {
                ctx.violate(label, case_seed, viol!("an operation does not terminate: its case consumed {} s of processor time, none of this kind ever needed a tenth of it", cpu_limit / 100));
                return;
            }
        }
        if start.elapsed().as_secs() > cap_secs + 330 {
            ctx.inconclusive(format!("{label}: watchdog: case threads did not finish"));
            return;
        }
    }
    if std::env::var_os("MONITOR_SLOWEST").is_some() {
        eprintln!("{label}: slowest case {} ms of processor time", slowest * 10);
    }
    let d = next.load(Ordering::SeqCst).min(n);
    if d < n && !ctx.stop.load(Ordering::SeqCst) {
        ctx.count("cases_cut_by_time_cap", n - d);
    }
}

static SINGLE: AtomicBool = AtomicBool::new(true);
/// Cases that start threads of their own, or that legitimately wait, switch the stuck-thread rule off.
pub fn set_cases_single_threaded(v: bool) {
    SINGLE.store(v, Ordering::SeqCst);
}
fn single_threaded_cases() -> bool {
    SINGLE.load(Ordering::SeqCst)
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
pub fn gettid() -> i32 {
    unsafe { syscall(186) as i32 }
}

/// (state letter, processor time in ticks, fingerprint of processor time and context switches)
pub fn thread_state(tid: i32) -> (char, u64, String) {
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = st.rsplit(") ").next().unwrap_or("");
    let f: Vec<&str> = rest.split(' ').collect();
    let state = f.first().and_then(|s| s.chars().next()).unwrap_or('?');
    let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let cpu = num(11) + num(12);
    let status =
        std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).unwrap_or_default();
    let sw: String = status
        .lines()
        .filter(|l| l.contains("ctxt_switches"))
        .map(|l| l.rsplit('\t').next().unwrap_or("").to_string())
        .collect::<Vec<_>>()
        .join("/");
    (state, cpu, format!("{cpu}|{sw}"))
}

// ---------------------------------------------------------------- shrinking
/// Greedy delta debugging: returns a smaller list on which `fails` still holds.
pub fn shrink<T: Clone>(ops: &[T], budget: Duration, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let start = Instant::now();
    let mut cur = ops.to_vec();
    let mut chunk = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            if start.elapsed() > budget {
                return cur;
            }
            let end = (i + chunk).min(cur.len());
            let mut cand = cur[..i].to_vec();
            cand.extend_from_slice(&cur[end..]);
            if fails(&cand) {
                cur = cand;
                changed = true;
            } else {
                i = end;
            }
        }
        if chunk == 1 {
            if !changed {
                return cur;
            }
        } else {
            chunk = (chunk / 2).max(1);
        }
    }
}
