//! C13: every interleaving, up to a number of preemptions, of threads that use fresh traits.
use serde::de::{self, Deserializer};
use serde::ser::Serializer;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

// ---------------------------------------------------------------- the runtime below

const MAXP: usize = 4096;
#[repr(C)]
#[derive(Clone, Copy)]
struct Point {
    n: u8,
    chosen: u8,
    forced: u8,
}
#[repr(C)]
struct Trace {
    len: u32,
    steps: u32,
    accesses: u32,
    verdict: u32,
    prefix_len: u32,
    prefix: [u8; MAXP],
    p: [Point; MAXP],
    text: [u8; 2048],
}
extern "C" {
    fn rt_alloc(size: usize, align: usize) -> *mut u8;
    fn rt_free(p: *mut u8, size: usize);
    fn rt_run(t: *mut Trace, n: usize, f: extern "C" fn(usize), limit: u32);
    fn rt_done();
    fn rt_pin(i: usize);
    fn rt_fail(s: *const u8);
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
struct Bump;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_free(p, l.size())
    }
}
#[global_allocator]
static A: Bump = Bump;

fn shared<T>(n: usize) -> &'static mut [T] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n * size_of::<T>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}

// ---------------------------------------------------------------- the traits

thread_local! {
    /// Which way the concrete type's own impl goes.
    static MODE: Cell<u8> = const { Cell::new(0) };
}

macro_rules! number {
    ($($t:ident)*) => {$(
        struct $t(u64);
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_newtype_struct(stringify!($t), &self.0)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let n = u64::deserialize(d)?;
                match MODE.with(|m| m.get()) {
                    1 => std::panic::panic_any("the type panics"),
                    2 => Err(de::Error::custom("the type fails")),
                    _ => Ok($t(n)),
                }
            }
        }
    )*};
}
number!(Alpha Beta Twin1 Twin2);

macro_rules! traits {
    ($($m:ident ($($a:tt)*) ($($sup:tt)*);)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[allow(non_camel_case_types)]
        enum Tr { $($m),* }
        const TRAITS: &[Tr] = &[$(Tr::$m),*];
        $(mod $m {
            use super::*;
            #[typetag::serde($($a)*)]
            pub trait Obj $($sup)* { fn show(&self) -> String; }
            #[typetag::serde] impl Obj for Alpha { fn show(&self) -> String { format!("Alpha {}", self.0) } }
            #[typetag::serde] impl Obj for Beta { fn show(&self) -> String { format!("Beta {}", self.0) } }
            #[typetag::serde(name = "Twin")] impl Obj for Twin1 { fn show(&self) -> String { format!("Twin1 {}", self.0) } }
            #[typetag::serde(name = "Twin")] impl Obj for Twin2 { fn show(&self) -> String { format!("Twin2 {}", self.0) } }
            pub struct Outer(Box<dyn Obj>, u64);
            impl Serialize for Outer {
                fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (&self.0, self.1).serialize(s) }
            }
            impl<'de> Deserialize<'de> for Outer {
                fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    let (a, b) = Deserialize::deserialize(d)?;
                    Ok(Outer(a, b))
                }
            }
            #[typetag::serde] impl Obj for Outer { fn show(&self) -> String { format!("Outer {} {}", self.0.show(), self.1) } }
            pub fn read(s: &str) -> Result<String, String> {
                serde_json::from_str::<Box<dyn Obj>>(s).map(|b| b.show()).map_err(|e| e.to_string())
            }
            pub fn write(beta: bool, n: u64) -> Result<String, String> {
                let b: Box<dyn Obj> = if beta { Box::new(Beta(n)) } else { Box::new(Outer(Box::new(Alpha(n)), n)) };
                serde_json::to_string(&b).map_err(|e| e.to_string())
            }
        })*
        fn read(t: Tr, s: &str) -> Result<String, String> { match t { $(Tr::$m => $m::read(s)),* } }
        fn write(t: Tr, beta: bool, n: u64) -> Result<String, String> { match t { $(Tr::$m => $m::write(beta, n)),* } }
    };
}
traits! {
    ext () ();
    ext_sync () (: Send + Sync);
    int (tag = "k") ();
    int_def (tag = "k", default_variant = "Alpha") (: Send);
    adj (tag = "k", content = "c") ();
    adj_def (tag = "k", content = "c", default_variant = "Alpha", deny_unknown_fields) (: Sync);
}

// ---------------------------------------------------------------- the operations

const OPS: [&str; 12] = [
    "read Alpha", "read Beta", "read an unknown tag", "read the shared tag", "read, the tag last or absent", "write",
    "read, the type panics", "read, the type fails", "read an object in an object", "read an empty map", "write an object in an object", "read Beta with bad content",
];
const FIRST: usize = 6; // the ones in every pairing

type Op = (Tr, usize);

fn envelope(t: Tr, tag: Option<&str>, v: &str, last: bool) -> String {
    let (key, content) = match t {
        Tr::ext | Tr::ext_sync => return tag.map_or("{}".into(), |t| format!("{{\"{t}\":{v}}}")),
        Tr::int | Tr::int_def => ("k", "value"),
        Tr::adj | Tr::adj_def => ("k", "c"),
    };
    let c = format!("\"{content}\":{v}");
    match tag {
        None => format!("{{{c}}}"),
        Some(t) if last => format!("{{{c},\"{key}\":\"{t}\"}}"),
        Some(t) => format!("{{\"{key}\":\"{t}\",{c}}}"),
    }
}

fn run(o: Op) -> String {
    let t = o.0;
    MODE.with(|m| m.set(match o.1 { 6 => 1, 7 => 2, _ => 0 }));
    let r = catch_unwind(AssertUnwindSafe(|| match o.1 {
        0 | 6 | 7 => read(t, &envelope(t, Some("Alpha"), "7", false)),
        1 => read(t, &envelope(t, Some("Beta"), "8", false)),
        2 => read(t, &envelope(t, Some("Delta"), "9", false)),
        3 => read(t, &envelope(t, Some("Twin"), "9", false)),
        4 => match t {
            Tr::int_def | Tr::adj_def => read(t, &envelope(t, None, "5", false)),
            t => read(t, &envelope(t, Some("Beta"), "5", true)),
        },
        5 => write(t, true, 6),
        8 => read(t, &envelope(t, Some("Outer"), &format!("[{},4]", envelope(t, Some("Beta"), "3", true)), false)),
        9 => read(t, "{}"),
        10 => write(t, false, 6),
        _ => read(t, &envelope(t, Some("Beta"), "\"x\"", false)),
    }));
    match r {
        Ok(r) => format!("{r:?}"),
        Err(_) => "panic".into(),
    }
}

// ---------------------------------------------------------------- the scenarios

#[derive(Clone, Debug)]
struct Scenario {
    threads: Vec<Vec<Op>>,
    bound: u32,
}

fn scenarios(thorough: bool) -> Vec<Scenario> {
    let mut v = Vec::new();
    let b = if thorough { 1 } else { 0 };
    for t in TRAITS {
        // three threads with one operation each
        let three: &[[usize; 3]] = &[[0, 1, 2], [0, 0, 0], [2, 2, 3], [1, 5, 6]];
        for q in three.iter().take(if thorough { 4 } else { 2 }) {
            v.push(Scenario { threads: q.iter().map(|o| vec![(*t, *o)]).collect(), bound: 2 + b });
        }
    }
    for t in TRAITS {
        // two threads: every pair of operations
        let n = if thorough { OPS.len() } else { FIRST };
        for i in 0..n {
            for j in i..OPS.len() {
                v.push(Scenario { threads: vec![vec![(*t, i)], vec![(*t, j)]], bound: if i < FIRST && j < FIRST { 3 + b } else { 2 + b } });
            }
        }
        // one of them goes on to a second operation
        for q in [[6, 0, 1], [2, 2, 0], [0, 3, 1], [5, 1, 2], [7, 2, 8]] {
            v.push(Scenario { threads: vec![vec![(*t, q[0]), (*t, q[1])], vec![(*t, q[2])]], bound: 2 + b });
        }
    }
    // different traits
    for (i, t) in TRAITS.iter().enumerate() {
        for u in &TRAITS[i + 1..] {
            v.push(Scenario { threads: vec![vec![(*t, 0), (*u, 2)], vec![(*u, 1), (*t, 2)]], bound: 2 });
        }
    }
    if thorough {
        for t in TRAITS {
            for i in 0..FIRST {
                for j in i..FIRST {
                    for k in j..FIRST {
                        v.push(Scenario { threads: vec![vec![(*t, i)], vec![(*t, j)], vec![(*t, k)]], bound: 2 });
                    }
                }
            }
        }
    }
    v
}

fn describe(s: &Scenario) -> String {
    let t: Vec<String> = s
        .threads
        .iter()
        .enumerate()
        .map(|(i, o)| format!("thread {i}: {}", o.iter().map(|o| format!("{:?} {}", o.0, OPS[o.1])).collect::<Vec<_>>().join(", then ")))
        .collect();
    t.join(" || ")
}

// ---------------------------------------------------------------- exploring one

/// What each operation yields alone, computed in a process of its own.
static mut ALONE: Vec<Vec<String>> = Vec::new();
#[allow(static_mut_refs)]
fn alone(o: Op) -> &'static str {
    unsafe { &ALONE[o.0 as usize][o.1] }
}
static mut CURRENT: Option<Scenario> = None;
#[allow(static_mut_refs)]
extern "C" fn body(i: usize) {
    let s = unsafe { CURRENT.as_ref().unwrap() };
    for o in &s.threads[i] {
        check(*o, &format!("thread {i}"));
    }
}
fn check(o: Op, who: &str) {
    let got = run(o);
    if got != alone(o) {
        let m = format!("{who}: {:?} {} yields {got}, alone {}\0", o.0, OPS[o.1], alone(o));
        unsafe { rt_fail(m.as_ptr()) };
    }
}

/// One execution, in a child.
fn execute(s: &Scenario, t: &mut Trace, prefix: &[u8]) {
    t.len = 0;
    t.steps = 0;
    t.accesses = 0;
    t.verdict = 0;
    t.prefix_len = prefix.len() as u32;
    t.prefix[..prefix.len()].copy_from_slice(prefix);
    t.text[0] = 0;
    unsafe {
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            CURRENT = Some(s.clone());
            rt_run(t, s.threads.len(), body, 30);
            // and afterwards everything still works
            for th in &s.threads {
                for o in th {
                    check(*o, "afterwards");
                    check((o.0, 2), "afterwards");
                    check((o.0, 0), "afterwards");
                }
            }
            rt_done();
            _exit(0);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if t.verdict == 0 {
            t.verdict = if st & 0x7f == 9 { 3 } else { 2 };
            let m = format!("the process ended with status {st:#x}\0");
            t.text[..m.len()].copy_from_slice(m.as_bytes());
        }
    }
}

fn text(t: &Trace) -> String {
    String::from_utf8_lossy(t.text.split(|c| *c == 0).next().unwrap()).into_owned()
}

#[derive(Clone, Copy, Default)]
#[repr(C)]
struct Count {
    schedules: u64,
    points: u64,
    steps: u64,
    accesses: u64,
    max_points: u64,
    capped: u64,
}

/// Depth first through the choices, with at most `bound` switches away from a thread that could go on.
fn explore(s: &Scenario, t: &mut Trace, c: &mut Count, deadline: Instant) -> Option<(Vec<u8>, String, u32)> {
    let mut prefix: Vec<u8> = Vec::new();
    loop {
        execute(s, t, &prefix);
        c.schedules += 1;
        c.steps += u64::from(t.steps);
        c.accesses += u64::from(t.accesses);
        c.max_points = c.max_points.max(u64::from(t.len));
        let len = t.len as usize;
        c.points += (len - prefix.len().min(len)) as u64;
        let chosen: Vec<u8> = t.p[..len].iter().map(|p| p.chosen).collect();
        if t.verdict != 1 {
            return Some((chosen, text(t), t.verdict));
        }
        if Instant::now() > deadline {
            c.capped += 1;
            return None;
        }
        // the last point with another choice left
        let mut used = 0;
        let mut before = Vec::with_capacity(len);
        for p in &t.p[..len] {
            before.push(used);
            if p.forced == 0 && p.chosen > 0 {
                used += 1;
            }
        }
        let next = (0..len).rev().find(|i| {
            let p = t.p[*i];
            p.chosen + 1 < p.n && (p.forced == 1 || before[*i] + 1 <= s.bound)
        });
        match next {
            None => return None,
            Some(i) => {
                prefix = chosen[..=i].to_vec();
                prefix[i] += 1;
            }
        }
    }
}

#[allow(static_mut_refs)]
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[1] == "thorough";
    let limit: u64 = a[3].parse().unwrap();
    let start = Instant::now();
    let deadline = start + std::time::Duration::from_secs(limit);
    // alone
    for t in TRAITS {
        let mut v = Vec::new();
        for o in 0..OPS.len() {
            let buf = shared::<u8>(4096);
            unsafe {
                let pid = fork();
                if pid == 0 {
                    alarm(30);
                    let r = run((*t, o));
                    buf[..r.len()].copy_from_slice(r.as_bytes());
                    _exit(0);
                }
                let mut st = 0;
                waitpid(pid, &mut st, 0);
                v.push(if st == 0 { String::from_utf8_lossy(buf.split(|c| *c == 0).next().unwrap()).into_owned() } else { format!("ended {st:#x}") });
            }
        }
        unsafe { ALONE.push(v) };
    }
    if a.len() > 5 && a[4] == "replay" {
        // SCENARIO CHOICES
        let s = &scenarios(thorough)[a[5].parse::<usize>().unwrap()];
        let p: Vec<u8> = a[6].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let t = &mut shared::<Trace>(1)[0];
        execute(s, t, &p);
        println!("{}\nschedule {p:?}\nverdict {} {}", describe(s), t.verdict, text(t));
        std::process::exit(i32::from(t.verdict != 1));
    }
    let sc = scenarios(thorough);
    let next = &shared::<std::sync::atomic::AtomicUsize>(1)[0];
    let counts = shared::<Count>(sc.len());
    let fails = shared::<[u8; 8192]>(sc.len());
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut pids = Vec::new();
    for w in 0..n {
        unsafe {
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                rt_pin(w);
                let t = &mut shared::<Trace>(1)[0];
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= sc.len() {
                        _exit(0);
                    }
                    if let Some((mut choices, m, verdict)) = explore(&sc[i], t, &mut counts[i], deadline) {
                        // the same schedule must do the same again; one that does not is the engine's failure
                        let mut again = Vec::new();
                        for _ in 0..2 {
                            execute(&sc[i], t, &choices);
                            again.push((t.verdict, text(t)));
                        }
                        let same = again.iter().all(|x| x.0 == verdict);
                        if !same {
                            choices.push(255);
                        }
                        let j = serde_json::json!({"scenario": i, "case": describe(&sc[i]), "schedule": choices, "detail": m, "verdict": verdict, "again": same}).to_string();
                        let b = j.as_bytes();
                        if b.len() < 8192 {
                            fails[i][..b.len()].copy_from_slice(b);
                        } else {
                            let j = serde_json::json!({"scenario": i, "case": describe(&sc[i]), "schedule": [], "detail": m, "verdict": verdict, "again": same}).to_string();
                            fails[i][..j.len()].copy_from_slice(j.as_bytes());
                        }
                    }
                }
            }
            pids.push(pid);
        }
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        bad += i32::from(st != 0);
    }
    assert_eq!(bad, 0, "a worker was ended");
    let mut total = Count::default();
    for c in counts.iter() {
        total.schedules += c.schedules;
        total.points += c.points;
        total.steps += c.steps;
        total.accesses += c.accesses;
        total.max_points = total.max_points.max(c.max_points);
        total.capped += c.capped;
    }
    let viols: Vec<serde_json::Value> =
        fails.iter().filter(|f| f[0] != 0).map(|f| serde_json::from_slice(f.split(|c| *c == 0).next().unwrap()).unwrap()).collect();
    let distinct: std::collections::HashSet<&String> = unsafe { ALONE.iter().flatten().collect() };
    let j = serde_json::json!({
        "scenarios": sc.len(), "schedules": total.schedules, "points": total.points, "steps": total.steps, "accesses": total.accesses,
        "max_points": total.max_points, "capped": total.capped, "distinct_outcomes": distinct.len(), "viols": viols,
        "samples": sc.iter().step_by(sc.len() / 4).map(describe).collect::<Vec<_>>(),
        "alone": unsafe { ALONE.clone() }, "wall_s": start.elapsed().as_secs_f64(),
    });
    std::fs::write(&a[2], serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
