//! Running a few threads against shared objects: recorded histories, injected delays, stuck detection.
use crate::util::*;
use crate::viol;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Logical clock shared by the threads of a case.
#[derive(Default)]
pub struct Clock(AtomicU64);
impl Clock {
    pub fn tick(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

#[derive(Clone, Debug)]
pub struct Event<T> {
    pub call: u64,
    pub ret: u64,
    pub thread: usize,
    pub what: T,
}

/// Order of calls and returns over all threads: identifies the interleaving seen.
pub fn interleaving<T>(evs: &[Event<T>]) -> u64 {
    let mut v: Vec<(u64, usize, bool)> = vec![];
    for e in evs {
        v.push((e.call, e.thread, false));
        v.push((e.ret, e.thread, true));
    }
    v.sort();
    hash_of(&v.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>())
}

/// pairs of operations of different threads whose intervals overlap
pub fn overlaps<T>(evs: &[Event<T>]) -> u64 {
    let mut n = 0;
    for (i, a) in evs.iter().enumerate() {
        for b in &evs[i + 1..] {
            if a.thread != b.thread && a.call < b.ret && b.call < a.ret {
                n += 1;
            }
        }
    }
    n
}

/// A random short delay: nothing, a few yields, a spin, or a short sleep.
pub fn jitter(r: &mut Rng) {
    match r.below(10) {
        0..=4 => {}
        5..=6 => std::thread::yield_now(),
        7..=8 => {
            for _ in 0..r.below(3000) {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(Duration::from_micros(r.below(60))),
    }
}

thread_local! {
    static JIT: std::cell::RefCell<Option<Rng>> = const { std::cell::RefCell::new(None) };
}
/// Injected delay at a point inside library code reached through an object the harness supplies.
pub fn injected() {
    JIT.with(|j| {
        if let Some(r) = j.borrow_mut().as_mut() {
            jitter(r)
        }
    });
}

pub type Job<T> = Box<dyn FnOnce(usize, &mut Vec<Event<T>>) -> Result<(), Violation> + Send>;

/// Runs the jobs concurrently. A stuck set of threads is a violation: when every unfinished thread
/// of the case is asleep, and stays so, nobody is left to wake them, because no one else shares
/// the objects they wait on.
pub fn run_threads<T: Send + 'static>(
    seed: u64,
    jobs: Vec<Job<T>>,
    waits_allowed: bool,
) -> Result<Vec<Event<T>>, Violation> {
    let n = jobs.len();
    let (tx, rx) = channel();
    let tids: Arc<Mutex<Vec<(usize, i32)>>> = Arc::default();
    let ready = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for (i, job) in jobs.into_iter().enumerate() {
        let (tx, tids, ready) = (tx.clone(), tids.clone(), ready.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    tids.lock().unwrap().push((i, gettid()));
                    JIT.with(|j| *j.borrow_mut() = Some(Rng::new(seed ^ mix(i as u64 + 77))));
                    ready.fetch_add(1, Ordering::SeqCst);
                    while ready.load(Ordering::SeqCst) < n {
                        std::thread::yield_now();
                    }
                    let mut evs = vec![];
                    let r = catch(|| job(i, &mut evs));
                    tids.lock().unwrap().retain(|t| t.0 != i);
                    let _ = tx.send((r, evs));
                })
                .unwrap(),
        );
    }
    let mut all = vec![];
    let mut done = 0;
    let mut err = None;
    let mut same: (String, u32) = (String::new(), 0);
    let mut waited = 0u32;
    while done < n {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((r, evs)) => {
                done += 1;
                all.extend(evs);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(v)) => {
                        err.get_or_insert(v);
                    }
                    Err(Caught::Library(m)) => {
                        err.get_or_insert(viol!("library panic: {m}"));
                    }
                    Err(Caught::Harness(m)) => panic!("harness panic in a worker: {m}"),
                }
            }
            Err(RecvTimeoutError::Timeout) => {
                waited += 1;
                let live = tids.lock().unwrap().clone();
                let st: Vec<(char, String)> = live
                    .iter()
                    .map(|(_, t)| {
                        let s = thread_state(*t);
                        (s.0, s.2)
                    })
                    .collect();
                let key = format!("{st:?}");
                if !st.is_empty() && st.iter().all(|s| s.0 == 'S') && key == same.0 {
                    same.1 += 1;
                } else {
                    same = (key, 0);
                }
                if same.1 >= if waits_allowed { 300 } else { 50 } {
                    return Err(err.unwrap_or_else(|| viol!("deadlock: {} of {n} threads sleep for good inside the store, each waiting for another one", st.len())));
                }
                if waited > 900 {
                    panic!("harness: threads of a case did not finish within 180 s");
                }
            }
            Err(RecvTimeoutError::Disconnected) => panic!("harness: a worker disappeared"),
        }
    }
    for h in handles {
        let _ = h.join();
    }
    match err {
        Some(v) => Err(v),
        None => {
            all.sort_by_key(|e| e.call);
            Ok(all)
        }
    }
}
