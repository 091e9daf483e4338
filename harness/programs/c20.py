"""C20: every impl in the program is registered, whichever crate holds it."""
import itertools, os, re
from concurrent.futures import ThreadPoolExecutor
from lib import ENV, JOBS, NoVerdict, rustc, sh

T = r'''
pub extern crate serde; pub extern crate serde_json; pub extern crate typetag;
pub trait Where { fn place(&self) -> String; }
#[typetag::serde] pub trait Ext: Where {}
#[typetag::serde(tag = "t")] pub trait Int: Where + Send + Sync {}
#[typetag::serde(tag = "t", content = "c")] pub trait Adj: Where + Send {}
#[macro_export] macro_rules! mk { ($cr:literal, $loc:literal, $tr:path, $ty:ident) => {
    #[derive($crate::serde::Serialize, $crate::serde::Deserialize)] #[serde(crate = "serde")] pub struct $ty { pub v: u8 }
    impl $crate::Where for $ty { fn place(&self) -> String { format!("{}.{}.{}", $cr, $loc, self.v) } }
    #[typetag::serde(name = concat!($cr, ".", $loc))] impl $tr for $ty {}
} }
pub fn list(e: Result<(), String>) -> String {
    let e = match e { Ok(()) => return "accepted".into(), Err(e) => e };
    match e.split_once("expected") {
        Some((_, t)) => t.split('`').enumerate().filter(|(i, _)| i % 2 == 1).map(|(_, p)| p).collect::<Vec<_>>().join(","),
        None if e.contains("there are no variants") => String::new(),
        None => e,
    }
}
/// What deserialization knows, asked from the crate this is expanded in.
#[macro_export] macro_rules! ask { ($tr:ty, $a:literal, $b:literal, $c:literal) => {{
    let names = $crate::list($crate::serde_json::from_str::<Box<$tr>>(concat!($a, "?", $b, "0", $c)).map(drop).map_err(|e| e.to_string()));
    let mut r = Vec::new();
    for n in names.split(',').filter(|n| !n.is_empty()) {
        let d = format!("{}{}{}{}{}", $a, n, $b, if $a.len() > 3 && $b.len() == 2 { "\"v\":7" } else { "{\"v\":7}" }, $c);
        r.push(match $crate::serde_json::from_str::<Box<$tr>>(&d) { Ok(b) => { let w = $crate::serde_json::to_string(&b).unwrap(); if w == d { b.place() } else { format!("{n} writes {w}") } }, Err(e) => format!("{n}: {e}") });
    }
    r.join(" ")
}} }
'''
# where an impl may stand in a crate
PLACES = {
    "top": "%s",
    "mod": "pub mod m1 { %s }",
    "private": "mod m2 { mod m3 { pub(super) mod m4 { %s } } }",
    "body": "#[allow(dead_code)] fn f1() { %s }",
    "generic": "pub fn f2<T>(_: T) -> u8 { { %s } 0 }",
    "const": "const _: () = { %s };",
    "static": "pub static S1: u8 = { %s 3 };",
    "method": "pub struct Q1; impl Q1 { pub fn m(&self) { %s } }",
    "default": "pub trait Q2 { fn m(&self) { let _ = || { %s }; } }",
    "macro": "macro_rules! here { ($($t:tt)*) => { $($t)* } } here! { %s }",
    "nested": "pub fn f3() { fn f4() { const C: u8 = { mod m5 { %s } 0 }; } }",
    "arm": "pub fn f5(x: u8) { match x { 0 => { %s } _ => {} } }",
    "cfg": "#[cfg(all())] mod m6 { %s } #[cfg(any())] mod m7 { compile_error!(\"no\"); }",
}
TRAITS = {"Ext": ("{\\\"", "\\\":", "}"), "Int": ("{\\\"t\\\":\\\"", "\\\",", "}"), "Adj": ("{\\\"t\\\":\\\"", "\\\",\\\"c\\\":", "}")}


def items(cr, tr_path):
    """All impls of crate `cr`, which reaches the trait crate by `tr_path`."""
    r, tags = [], {k: [] for k in TRAITS}
    for i, (loc, wrap) in enumerate(PLACES.items()):
        for j, k in enumerate(TRAITS):
            if j and (i + j) % 3:
                continue
            r.append(rename(wrap, j) % f"::{tr_path}::mk!(\"{cr}\", \"{loc}{k}\", ::{tr_path}::{k}, X{i}x{j});")
            tags[k].append(f"{cr}.{loc}{k}")
    return "\n".join(r), tags


def rename(wrap, j):
    """Names of a place, made unique by trait."""
    return re.sub(r"\b(m\d|f\d|S1|Q\d|here)\b", lambda m: f"{m[1]}_{j}", wrap)


def source(cr, deps, is_t, is_main):
    """deps: crate names, all visible to it."""
    tr = "crate" if is_t else ("t" if "t" in deps else deps[0] + "::t")
    b = ["#![allow(warnings)]"]
    if is_t:
        b.append(T)
        body, tags = items(cr, "t")
        b.append("extern crate self as t;")
    else:
        for d in deps:
            b.append(f"pub extern crate {d};")
        if "t" not in deps:
            b.append(f"pub use {deps[0]}::t;")
        # absolute paths to the trait crate go through whatever re-exports it
        body, tags = items(cr, "t" if "t" in deps else deps[0] + "::t")
    b.append(body)
    # a trait of the same name that nothing else may know about
    b.append(f"pub mod own {{ #[typetag::serde] pub trait Ext: ::{tr if tr != 'crate' else 't'}::Where {{}} pub mod empty {{ #[typetag::serde] pub trait Ext: super::super::t::Where {{}} }} }}")
    b.append(f"::{tr if tr != 'crate' else 't'}::mk!(\"{cr}\", \"own\", crate::own::Ext, Own);")
    b.append("pub fn report(o: &mut std::collections::BTreeMap<String, String>) {")
    for k, (a, m, c) in TRAITS.items():
        for marks in ([""] if k == "Ext" else ["", " + Send"] if k == "Adj" else ["", " + Send + Sync"]):
            b.append(f"o.insert(\"{cr}:{k}{marks}\".to_string(), t::ask!(dyn t::{k}{marks}, \"{a}\", \"{m}\", \"{c}\"));")
    a, m, c = TRAITS["Ext"]
    b.append(f"o.insert(\"{cr}:own\".to_string(), t::ask!(dyn own::Ext, \"{a}\", \"{m}\", \"{c}\"));")
    b.append(f"o.insert(\"{cr}:empty\".to_string(), t::ask!(dyn own::empty::Ext, \"{a}\", \"{m}\", \"{c}\"));")
    for d in deps:
        b.append(f"{d}::report(o);")
    b.append("}")
    if is_main:
        b.append("fn main() { let mut o = Default::default(); report(&mut o); for (k, v) in o { println!(\"{k}={v}\"); } }")
    return "\n".join(b), tags


def subsets(xs):
    for n in range(1, len(xs) + 1):
        yield from itertools.combinations(xs, n)


class Graphs:
    def __init__(self, e, extra=(), label=""):
        self.e, self.extra, self.label = e, list(extra), label
        self.dir = f"{e.dir}/{label or 'plain'}"
        os.makedirs(self.dir, exist_ok=True)
        self.tags = {}

    def build(self, name, deps, is_t=False, is_main=False):
        src, tags = source(name, deps, is_t, is_main)
        path = f"{self.dir}/{name}.rs"
        open(path, "w").write(src)
        self.tags[name] = tags
        cmd = [rustc(), "--edition", "2018", "--crate-name", name, "-Awarnings", "-Cdebuginfo=0", "-Cmetadata=" + name, "--crate-type", "bin" if is_main else "rlib",
               "-o", f"{self.dir}/{name}" if is_main else f"{self.dir}/lib{name}.rlib", path, "-L", "dependency=" + self.dir, *self.extra, "@" + self.e.argfile]
        for d in deps:
            cmd += ["--extern", f"{d}={self.dir}/lib{d}.rlib"]
        with self.e.lock:
            self.e.stats["rustc_runs"] += 1
        rc, out, err = sh(cmd, 300, env=ENV)
        if rc is None or rc < 0:
            raise NoVerdict(f"rustc ended with {rc} on {path}: {err[-500:]}")
        return rc == 0, err, path

    def main(self, name, deps, closure, about):
        ok, err, path = self.build(name, deps, is_main=True)
        e = self.e
        if not ok:
            return [(about, "does not compile: " + err[:1500], path)]
        rc, out, err = sh([f"{self.dir}/{name}"], 60, env=ENV)
        os.remove(f"{self.dir}/{name}")
        if rc != 0:
            return [(about, f"ended with {rc}: {err[-500:]}", path)]
        got = dict(l.split("=", 1) for l in out.splitlines())
        want = {}
        for cr in [name, *closure]:
            for k in TRAITS:
                for marks in ([""] if k == "Ext" else ["", " + Send"] if k == "Adj" else ["", " + Send + Sync"]):
                    all_ = sorted(x for c in [name, *closure] for x in self.tags[c][k])
                    want[f"{cr}:{k}{marks}"] = " ".join(x + ".7" for x in all_)
            want[f"{cr}:own"] = f"{cr}.own.7"
            want[f"{cr}:empty"] = ""
        with e.lock:
            e.stats["accepted"] += 1
            e.stats["probes"] += sum(len(v.split()) for v in want.values())
        r = []
        for k in sorted(set(want) | set(got)):
            if got.get(k) != want.get(k):
                g, w = set((got.get(k) or "nothing").split(" ")), set((want.get(k) or "").split(" "))
                r.append((about, f"from {k}: missing {sorted(w - g)[:6]}, not expected {sorted(g - w)[:6]}", path))
        return r


def check(e, tier):
    thorough = tier == "thorough"
    runs = [("", (), 3), ("opt", ("-Copt-level=3", "-Ccodegen-units=1"), 2 if thorough else 1), ("units", ("-Ccodegen-units=64",), 2 if thorough else 1), ("lto", ("-Clto=fat", "-Copt-level=2"), 2 if thorough else 0),
            ("gc", ("-Clink-arg=-Wl,--gc-sections", "-Copt-level=s"), 1), ("2021-dead", ("-Clink-dead-code",), 1)]
    samples, count = [], 0
    for label, extra, k in runs:
        if k == 0:
            continue
        g = Graphs(e, extra, label)
        if any("lto" in x for x in extra):
            lib = Graphs(e, [x for x in extra if "lto" not in x], label)
        else:
            lib = g
        pool = ThreadPoolExecutor(JOBS)
        closure = {"t": ()}

        def need(r):
            ok, err, path = r
            if not ok:
                e.viols.append({"key": "C20/compile", "case": path, "detail": "does not compile: " + err[:2000], "replay": path})
            return ok

        if not need(lib.build("t", [], is_t=True)):
            return e.result([])
        # variants of each library: (name, nodes it may name)
        worlds = [["t"]]
        level = 0
        for i in range(1, k + 1):
            nxt, jobs = [], []
            for wi, w in enumerate(worlds):
                for si, deps in enumerate(subsets(w)):
                    name = f"l{i}_{wi}_{si}"
                    closure[name] = tuple(sorted({*deps, *(c for d in deps for c in closure[d])}))
                    jobs.append((name, list(deps)))
                    nxt.append(w + [name])
            for ok in pool.map(lambda j: need(lib.build(*j)), jobs):
                if not ok:
                    return e.result([])
            worlds = nxt
        g.tags = lib.tags
        mains = []
        for w in worlds:
            for deps in subsets(w):
                if k == 3 and not thorough and w[-1] not in deps:
                    continue  # the graph without the last library is one of the smaller worlds
                if k == 3 and not thorough and len(deps) > 2:
                    continue
                cl = tuple(sorted({*deps, *(c for d in deps for c in closure[d])}))
                about = f"{label or 'debug'}: main -> {','.join(deps)}; " + "; ".join(f"{x} -> {','.join(y for y in closure[x])}" for x in cl if x != "t")
                mains.append((f"main{len(mains)}", list(deps), cl, about))
        for bad in pool.map(lambda m: g.main(*m), mains):
            for about, detail, path in bad:
                e.viols.append({"key": "C20/known", "case": about, "detail": detail, "replay": path})
        count += len(mains)
        samples += [m[3] for m in mains[:: max(1, len(mains) // 5)]]
        pool.shutdown()
    return e.result(samples, crate_graphs=count, places_per_crate=len(PLACES))
