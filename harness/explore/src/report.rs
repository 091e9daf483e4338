//! Running jobs on all cores, and what came of it.
use std::any::Any;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Where in the enumeration it came up: the smallest is reported first.
    pub order: (usize, usize),
    /// What kind of failure: known findings are listed by this.
    pub key: String,
    pub case: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Acc {
    pub job: usize,
    /// Of the current job; `nstates` counts those of the jobs before.
    pub states: HashSet<u64>,
    pub nstates: u64,
    pub transitions: u64,
    pub execs: u64,
    pub ok: u64,
    pub rejected: u64,
    pub skipped: u64,
    pub viols: Vec<Viol>,
    pub nviols: u64,
    pub samples: Vec<String>,
    pub extra: std::collections::BTreeMap<String, u64>,
}

pub struct FxLike(u64);
impl Hasher for FxLike {
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ u64::from(*c)).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = FxLike(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl Acc {
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.insert(hash(t));
    }
    /// States of different jobs differ: the job is part of them.
    pub fn fold(&mut self) {
        self.nstates += self.states.len() as u64;
        self.states.clear();
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.into()).or_default() += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.is_empty() {
            self.samples.push(f());
        }
    }
    pub fn viol(&mut self, key: &str, case: String, detail: String) {
        self.nviols += 1;
        // keep the first few of each kind
        if self.viols.iter().filter(|v| v.key == key).count() < 3 {
            let order = (self.job, self.viols.len());
            self.viols.push(Viol { order, key: key.into(), case, detail });
        }
    }
}

/// When each thread's current operation began, in milliseconds since the start; 0 is none.
static BEGUN: [AtomicU64; 256] = [const { AtomicU64::new(0) }; 256];
thread_local! {
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
fn now() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
static TICK: AtomicU64 = AtomicU64::new(1);
/// The longest an operation may take; they take microseconds.
const PATIENCE: u64 = 60_000;

/// Runs `f`, turning a panic into an error.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    struct Mark;
    impl Drop for Mark {
        fn drop(&mut self) {
            if let Some(b) = BEGUN.get(SLOT.with(|s| s.get())) {
                b.store(0, Ordering::Relaxed);
            }
        }
    }
    let _m = BEGUN.get(SLOT.with(|s| s.get())).map(|b| {
        // only the clock of the watch, to keep this cheap
        b.store(TICK.load(Ordering::Relaxed), Ordering::Relaxed);
        Mark
    });
    unwatched(f)
}
fn unwatched<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p: Box<dyn Any + Send>| {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub fn par<J: Sync>(jobs: &[J], f: impl Fn(&J, &mut Acc) + Sync) -> Acc {
    let next = AtomicUsize::new(0);
    let done = Mutex::new(Acc::default());
    let only: Option<usize> = std::env::var("EXPLORE_ONLY").ok().and_then(|s| s.parse().ok());
    let at: Vec<AtomicUsize> = (0..256).map(|_| AtomicUsize::new(0)).collect();
    let at = &at;
    let left = AtomicUsize::new(0);
    let started = AtomicBool::new(false);
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(256);
    std::thread::scope(|s| {
        let (left, started, next, done, f) = (&left, &started, &next, &done, &f);
        // an operation that does not end is a violation, and ends the run
        s.spawn(move || {
            while !started.load(Ordering::SeqCst) || left.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(20));
                let t = now();
                TICK.store(t, Ordering::Relaxed);
                for (i, b) in BEGUN.iter().enumerate() {
                    let b = b.load(Ordering::Relaxed);
                    if b != 0 && t > b + PATIENCE {
                        let mut acc = Acc::default();
                        acc.job = at[i].load(Ordering::Relaxed);
                        acc.viol("hang", format!("job {}", acc.job), format!("an operation does not end within {PATIENCE} ms"));
                        crate::write(&std::env::args().nth(3).unwrap(), &acc, t as f64 / 1000.0);
                        std::process::exit(0);
                    }
                }
            }
        });
        left.store(n, Ordering::SeqCst);
        started.store(true, Ordering::SeqCst);
        for w in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    SLOT.with(|s| s.set(w));
                    let mut acc = Acc::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= jobs.len() {
                            break;
                        }
                        if only.is_some_and(|o| o != i) {
                            continue;
                        }
                        acc.job = i;
                        at[w].store(i, Ordering::Relaxed);
                        // not guarded: the job as a whole may take its time
                        if let Err(m) = unwatched(|| f(&jobs[i], &mut acc)) {
                            acc.viol("panic", format!("job {i}"), format!("a panic outside of the guarded calls: {m}"));
                        }
                        acc.fold();
                    }
                    done.lock().unwrap().merge(acc);
                    left.fetch_sub(1, Ordering::SeqCst);
                })
                .unwrap();
        }
    });
    let mut acc = done.into_inner().unwrap();
    acc.viols.sort_by_key(|v| v.order);
    acc
}

impl Acc {
    pub fn merge(&mut self, o: Acc) {
        self.fold();
        self.nstates += o.nstates + o.states.len() as u64;
        self.transitions += o.transitions;
        self.execs += o.execs;
        self.ok += o.ok;
        self.rejected += o.rejected;
        self.skipped += o.skipped;
        self.viols.extend(o.viols);
        self.nviols += o.nviols;
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
        }
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
    }
}
