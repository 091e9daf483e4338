//! C14: every sequence of operations, each in a process of its own, up to a length.
//!
//! A worker never runs an operation itself: it forks for each history, so that every history starts
//! from the state the program has after startup. What each operation yields in a history must be what
//! it yields alone.
use crate::cfg::{self, Cfg, Repr, TagSeed, Tagged, NT, TAGS};
use crate::doc::{self, Cx, De, Doc, Style, Text};
use crate::gen::leak;
use crate::report::{guard, Acc};
use crate::shape::{Shape, St, S};
use crate::spec;
use crate::strict;
use crate::tok::{record, Rec};
use crate::val::Val;
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
}

#[derive(Clone)]
enum Act {
    Ser(Val, usize, usize),
    De(S, Doc, Text, usize),
    /// From the compact form of the value.
    Compact(S, Val),
}
#[derive(Clone)]
struct Op {
    name: String,
    c: Cfg,
    act: Act,
}

fn two(a: S, b: S) -> S {
    leak(Shape::Struct(St { name: "Ty", fields: &["a", "b"], shapes: vec![a, b], default: vec![None, None], deny: false }))
}
fn val(a: Val, b: Val) -> Val {
    Val::Struct("Ty", vec![("a", a), ("b", b)])
}

/// What one operation yields, in full.
fn run(op: &Op) -> String {
    match &op.act {
        Act::Ser(v, ty, fail) => {
            let z = Rec::new(true, *fail);
            let r = guard(|| Tagged(op.c, *ty, v).serialize(z.clone()));
            let s = z.st.borrow();
            format!("{r:?} {:?}", s.toks)
        }
        Act::De(s, d, text, fail) => {
            let _f = cfg::push([*s, &Shape::U8]);
            let mut cx = Cx::new(Style::Json, *text, true);
            cx.fail_at = *fail;
            let r = guard(|| TagSeed(op.c).deserialize(De::new(d, &cx)));
            format!("{r:?} {}", cx.calls.get())
        }
        Act::Compact(s, v) => {
            let slots: [S; NT] = [*s, &Shape::U8];
            let toks = spec::ser(op.c.repr(), "Alpha", &record(v, false).unwrap());
            let cx = Cx::new(Style::Typed, Text::Transient, false);
            let tape = strict::Tape::new(&toks, &cx);
            let _f = cfg::push(slots);
            format!("{:?} {}", guard(|| TagSeed(op.c).deserialize(strict::De(&tape))), tape.pos.get())
        }
    }
}

/// The envelope of the trait.
fn envelope(c: Cfg, tag: Option<&str>, cont: &Doc, tag_last: bool) -> Doc {
    let put = |key: &str, rest: Vec<(Doc, Doc)>| {
        let mut m = rest;
        if let Some(t) = tag {
            let e = (doc::s(key), doc::s(t));
            if tag_last {
                m.push(e);
            } else {
                m.insert(0, e);
            }
        }
        Doc::Map(m)
    };
    match c.repr() {
        Repr::Ext => Doc::Map(tag.map(|t| (doc::s(t), cont.clone())).into_iter().collect()),
        Repr::Adj { tag, content, .. } => put(tag, vec![(doc::s(content), cont.clone())]),
        Repr::Int { tag, .. } => match cont {
            Doc::Map(m) => put(tag, m.clone()),
            d => put(tag, vec![(doc::s("value"), d.clone())]),
        },
    }
}

fn ops(c: Cfg, all: bool) -> Vec<Op> {
    let mut v = Vec::new();
    let mut add = |name: &str, act: Act| v.push(Op { name: format!("{c:?}: {name}"), c, act });
    let plain = two(&Shape::U8, &Shape::Str);
    let d = |b: Doc| Doc::Map(vec![(doc::s("a"), Doc::U8(7)), (doc::s("b"), b)]);
    let good = d(doc::s("x"));
    let value = val(Val::U8(7), Val::Str("x".into()));
    let fail = two(&Shape::U8, leak(Shape::Fail("own failure")));
    let panics = two(&Shape::U8, &Shape::Panic);
    let inner: S = leak(Shape::Obj(c, [plain, &Shape::U8]));
    let de = |s: S, d: Doc| Act::De(s, d, Text::Transient, 0);
    add("read Alpha", de(plain, envelope(c, Some("Alpha"), &good, false)));
    add("read an unknown tag", de(plain, envelope(c, Some("Delta"), &good, false)));
    add("write Alpha", Act::Ser(value.clone(), 0, 0));
    add("read, the type panics", de(panics, envelope(c, Some("Alpha"), &good, false)));
    add("read Beta", de(plain, envelope(c, Some("Beta"), &Doc::U8(3), false)));
    if all {
        add("read Alpha, the tag last", Act::De(plain, envelope(c, Some("Alpha"), &good, true), Text::Borrowed, 0));
        add("read, the type fails", de(fail, envelope(c, Some("Alpha"), &good, true)));
        add("read, the type panics, the tag last", de(panics, envelope(c, Some("Alpha"), &good, true)));
        add("read, the content is refused", de(plain, envelope(c, Some("Alpha"), &d(Doc::Null), false)));
        for n in ["Alpho", "ALPHA", "Gamma", "Alphq", "alpha", "Alpha ", "Alphaa", "Beto"] {
            let body = if ["Gamma", "Alphq"].contains(&n) { Doc::U8(3) } else { good.clone() };
            add(&format!("read {n:?}"), de(plain, envelope(c, Some(n), &body, false)));
        }
        add("read without a tag", de(plain, envelope(c, None, &good, false)));
        add("read an empty map", de(plain, Doc::Map(vec![])));
        add("read a tag that is not text", de(plain, Doc::Map(vec![(doc::s(key(c)), Doc::U8(1)), (doc::s("c"), Doc::Null)])));
        add("read, the format fails", Act::De(plain, envelope(c, Some("Alpha"), &good, false), Text::Transient, 5));
        add("read a near miss", de(plain, envelope(c, Some("Alph"), &good, false)));
        add("read the empty tag", de(plain, envelope(c, Some(""), &good, false)));
        add("read an object in an object", de(two(&Shape::U8, inner), envelope(c, Some("Alpha"), &d(envelope(c, Some("Alpha"), &good, true)), true)));
        add("read, the inner type panics", {
            let inner: S = leak(Shape::Obj(c, [panics, &Shape::U8]));
            de(two(&Shape::U8, inner), envelope(c, Some("Alpha"), &d(envelope(c, Some("Alpha"), &good, true)), true))
        });
        add("read the compact form", Act::Compact(plain, value.clone()));
        add("write, the type fails", Act::Ser(val(Val::U8(7), Val::Fail("own failure".into())), 0, 0));
        add("write, the type panics", Act::Ser(val(Val::U8(7), Val::Panic), 0, 0));
        add("write, the format fails", Act::Ser(value.clone(), 0, 4));
        add("write Beta", Act::Ser(Val::U8(3), 1, 0));
        add("write another value", Act::Ser(Val::Seq(vec![Val::Unit, Val::Bool(true)], false), 0, 0));
        add("write an object in an object", Act::Ser(val(Val::U8(7), Val::Obj(c, 1, Box::new(Val::U8(3)))), 0, 0));
    }
    assert_eq!(TAGS[0], "Alpha");
    v
}
fn key(c: Cfg) -> &'static str {
    match c.repr() {
        Repr::Ext => "Alpha",
        Repr::Int { tag, .. } | Repr::Adj { tag, .. } => tag,
    }
}

/// Runs `f` in a child; what it writes comes back, or that it was ended.
fn child(f: impl FnOnce(&mut dyn Write), limit: u32) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            alarm(limit);
            drop(std::fs::File::from_raw_fd(fds[0]));
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let r = guard(|| f(&mut w));
            _exit(if r.is_ok() { 0 } else { 3 });
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut out = Vec::new();
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut out);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        match st {
            0 => Ok(out),
            st if st & 0x7f == 14 => Err(format!("still running after {limit} s")),
            st => Err(format!("ended with status {st:#x}")),
        }
    }
}

struct Job {
    pair: (Cfg, Cfg),
    first: usize,
}

pub fn c14(thorough: bool) -> Acc {
    let pairs: &[(Cfg, Cfg)] = &[(Cfg::Ext, Cfg::Int), (Cfg::IntDef, Cfg::Adj), (Cfg::AdjDefDeny, Cfg::Ext), (Cfg::Int, Cfg::IntLate), (Cfg::Adj, Cfg::AdjDef)];
    let depth = if thorough { 4 } else { 3 };
    let pump = if thorough { 1500 } else { 300 };
    let mut jobs = Vec::new();
    for p in pairs {
        for first in 0..ops(p.0, true).len() + ops(p.1, false).len() {
            jobs.push(Job { pair: *p, first });
        }
    }
    let only: Option<usize> = std::env::var("EXPLORE_ONLY").ok().and_then(|s| s.parse().ok());
    // the workers are processes, as a process with threads cannot be forked safely
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let mut pipes = Vec::new();
    for w in 0..n {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                let mut out = std::fs::File::from_raw_fd(fds[1]);
                let mut acc = Acc::default();
                let r = guard(|| {
                    for (i, j) in jobs.iter().enumerate() {
                        if i % n == w && only.map_or(true, |o| o == i) {
                            acc.job = i;
                            job(j, depth, pump, &mut acc);
                        }
                    }
                });
                let v: Vec<_> = acc.viols.iter().map(|v| serde_json::json!([v.order.0, v.key, v.case, v.detail])).collect();
                let j = serde_json::json!({"ok": r.is_ok(), "states": acc.nstates + acc.states.len() as u64, "transitions": acc.transitions, "execs": acc.execs,
                    "viols": v, "nviols": acc.nviols, "samples": acc.samples, "extra": acc.extra});
                let _ = out.write_all(j.to_string().as_bytes());
                _exit(0);
            }
            drop(std::fs::File::from_raw_fd(fds[1]));
            pipes.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut acc = Acc::default();
    for (pid, mut p) in pipes {
        let mut s = String::new();
        p.read_to_string(&mut s).unwrap();
        unsafe { waitpid(pid, &mut 0, 0) };
        let j: serde_json::Value = serde_json::from_str(&s).expect("a worker was ended");
        assert_eq!(j["ok"], true, "a worker failed");
        let mut a = Acc::default();
        a.nstates = j["states"].as_u64().unwrap();
        a.transitions = j["transitions"].as_u64().unwrap();
        a.execs = j["execs"].as_u64().unwrap();
        a.nviols = j["nviols"].as_u64().unwrap();
        for v in j["viols"].as_array().unwrap() {
            a.job = v[0].as_u64().unwrap() as usize;
            a.viol(v[1].as_str().unwrap(), v[2].as_str().unwrap().into(), v[3].as_str().unwrap().into());
            a.nviols -= 1;
        }
        a.samples = j["samples"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().into()).collect();
        for (k, v) in j["extra"].as_object().unwrap() {
            a.count(k, v.as_u64().unwrap());
        }
        acc.merge(a);
    }
    acc.viols.sort_by_key(|v| v.order);
    acc
}

fn job(j: &Job, depth: usize, pump: usize, acc: &mut Acc) {
    let mut all = ops(j.pair.0, true);
    all.extend(ops(j.pair.1, false));
    let alone: Vec<String> = all
        .iter()
        .map(|o| match child(|w| w.write_all(run(o).as_bytes()).unwrap(), 20) {
            Ok(b) => String::from_utf8(b).unwrap(),
            Err(e) => {
                acc.viol("C14", format!("{} alone", o.name), e);
                String::new()
            }
        })
        .collect();
    if j.first == 0 {
        // the operations are told apart by what they yield
        let kinds: std::collections::HashSet<&String> = alone.iter().collect();
        acc.count("distinct outcomes of one operation", kinds.len() as u64);
    }
    // each as often as it takes to wear something out, and then every other
    for b in 0..all.len() {
        let h: Vec<usize> = std::iter::repeat(j.first).take(pump).chain([b]).collect();
        history(&all, &alone, &h, acc);
    }
    let mut h = vec![j.first; 1];
    h.resize(depth, 0);
    loop {
        history(&all, &alone, &h, acc);
        let mut i = depth - 1;
        loop {
            if i == 0 {
                return;
            }
            h[i] += 1;
            if h[i] < all.len() {
                break;
            }
            h[i] = 0;
            i -= 1;
        }
    }
}

fn history(all: &[Op], alone: &[String], h: &[usize], acc: &mut Acc) {
    acc.state(&(acc.job, h));
    acc.execs += 1;
    acc.transitions += h.len() as u64;
    let r = child(
        |w| {
            for (i, o) in h.iter().enumerate() {
                let got = run(&all[*o]);
                if got != alone[*o] {
                    let _ = write!(w, "operation {} of the history: alone {}; now {got}", i + 1, alone[*o]);
                    break;
                }
            }
        },
        20,
    );
    let text = match r {
        Ok(b) if b.is_empty() => {
            if h.len() < 9 {
                acc.sample(|| h.iter().map(|o| all[*o].name.clone()).collect::<Vec<_>>().join("; "));
            }
            return;
        }
        Ok(b) => String::from_utf8_lossy(&b).into_owned(),
        Err(e) => e,
    };
    let mut names: Vec<String> = h.iter().map(|o| all[*o].name.clone()).collect();
    if names.len() > 8 {
        names = vec![format!("{} x {}", names[0], names.len() - 1), names[names.len() - 1].clone()];
    }
    acc.viol("C14", names.join("; "), text);
}
