"""Compiles and runs bounded families of user programs against the crate in /repo.

A program is the text of a module holding `pub fn run(o: &mut Vec<String>)` (what it reports is compared
with the model), or a whole crate. Its verdict (accepted or rejected by rustc) is found in batches: a batch
of modules is compiled as one crate, every module an error points into is a rejected one, and what is left
is compiled again, until a batch has no error. A verdict that differs from the expected one is confirmed
by compiling the program alone before it is reported."""
import json, os, re, shutil, signal, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(os.path.dirname(os.path.dirname(HERE)), "target")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_BOOTSTRAP"):
    ENV.pop(k, None)
JOBS = 8
USED = ("typetag", "serde", "serde_json", "postcard", "async_trait")


class NoVerdict(Exception):
    pass


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, start_new_session=True, text=True, errors="replace", stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", "timed out"


_rustc = None


def rustc():
    """The compiler itself, not rustup's stand-in for it."""
    global _rustc
    if _rustc is None:
        rc, out, err = sh(["rustup", "which", "rustc"], 60, env=ENV)
        _rustc = out.strip() if rc == 0 and out.strip() else "rustc"
    return _rustc


def flags():
    """Builds typetag from /repo and what the programs use; the options that name the results."""
    cmd = ["cargo", "build", "--offline", "--locked", "--message-format=json", "--target-dir", f"{TARGET}/programs"]
    rc, out, err = sh(cmd, 600, cwd=f"{HERE}/deps", env=ENV)
    if rc != 0:
        raise NoVerdict("typetag does not build\n" + err[-3000:])
    ext, dirs = {}, set()
    for line in out.splitlines():
        d = json.loads(line)
        if d.get("reason") != "compiler-artifact":
            continue
        n = d["target"]["name"].replace("-", "_")
        for f in d["filenames"]:
            if f.endswith((".rlib", ".rmeta", ".so")):
                dirs.add(os.path.dirname(f))
                if n in USED:
                    ext.setdefault(n, []).append(f)
    r = []
    for d in sorted(dirs):
        r += ["-L", "dependency=" + d]
    for n in USED:
        for f in ext[n]:
            r += ["--extern", f"{n}={f}"]
    return r


HELPERS = r'''
#[allow(dead_code)]
mod h {
    pub use serde::{Deserialize, Serialize};
    pub trait What { fn what(&self) -> String; }
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct A { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
    pub struct B { pub x: i32 }
    impl What for A { fn what(&self) -> String { format!("A{}", self.x) } }
    impl What for B { fn what(&self) -> String { format!("B{}", self.x) } }
    pub fn ser<T: ?Sized + serde::Serialize>(t: &T) -> String {
        match serde_json::to_string(t) { Ok(s) => s, Err(e) => format!("!{e}") }
    }
    pub fn hex<T: ?Sized + serde::Serialize>(t: &T) -> String {
        match postcard::to_allocvec(t) { Ok(s) => s.iter().map(|b| format!("{b:02x}")).collect(), Err(e) => format!("!{e}") }
    }
    pub fn de<T: serde::de::DeserializeOwned>(s: &str, f: impl FnOnce(T) -> String) -> String {
        match serde_json::from_str::<T>(s) { Ok(t) => f(t), Err(e) => format!("!{e}") }
    }
    pub fn unhex<T: serde::de::DeserializeOwned>(s: &str, f: impl FnOnce(T) -> String) -> String {
        let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
        match postcard::from_bytes::<T>(&b) { Ok(t) => f(t), Err(e) => format!("!{e}") }
    }
    /// The tags the trait knows, as the error for an unknown one lists them.
    pub fn known<T: serde::de::DeserializeOwned>(doc: &str) -> String {
        let e = match serde_json::from_str::<T>(doc) { Ok(_) => return "accepted".into(), Err(e) => e.to_string() };
        let mut r = Vec::new();
        let (_, tail) = match e.split_once("expected") { Some(p) => p, None => return if e.contains("there are no variants") { String::new() } else { e } };
        for (i, p) in tail.split('`').enumerate() { if i % 2 == 1 { r.push(p.to_string()); } }
        r.join(",")
    }
}
'''


class Prog:
    """expect: None for a program that must be rejected, else what `run` must report, line by line. A line may
    be a text, or a function that tells whether the reported one will do."""

    def __init__(self, name, body, expect, key, edition="2021", whole=False, about=None):
        self.name, self.body, self.expect, self.key = name, body, expect, key
        self.edition, self.whole, self.about = edition, whole, about or name
        self.verdict = None
        self.errors = []
        self.out = None


class Engine:
    def __init__(self, prop):
        self.prop = prop
        self.flags = flags()
        self.dir = f"{TARGET}/gen-{prop}"
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        self.argfile = f"{self.dir}/flags"
        open(self.argfile, "w").write("".join(f + "\n" for f in self.flags))
        self.viols = []
        self.stats = {"rustc_runs": 0, "accepted": 0, "rejected": 0, "probes": 0}
        self.lock = threading.Lock()
        self.n = 0

    def file(self, stem):
        with self.lock:
            self.n += 1
            return f"{self.dir}/{stem}{self.n}"

    def rustc(self, src, out, edition, emit, extra=()):
        with self.lock:
            self.stats["rustc_runs"] += 1
        cmd = [rustc(), "--edition", edition, "--error-format=json", "-Awarnings", *extra]
        cmd += ["--emit=metadata" if not emit else "--emit=link", "-Cdebuginfo=0", "-o", out, src, "@" + self.argfile]
        rc, _, err = sh(cmd, 400, env=ENV)
        if rc is None or rc < 0:
            raise NoVerdict(f"rustc ended with {rc} on {src}")
        msgs = []
        for line in err.splitlines():
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("level") in ("error", "error: internal compiler error"):
                    msgs.append(d)
        if rc != 0 and not msgs:
            raise NoVerdict(f"rustc failed without an error on {src}: {err[-1000:]}")
        if any("internal compiler error" in m["level"] for m in msgs):
            raise NoVerdict(f"rustc panicked on {src}: {err[-1000:]}")
        return rc == 0, msgs

    def crate(self, progs):
        """One crate of many modules, and the lines each one takes."""
        ext = "".join(f"extern crate {n}; " for n in USED) if progs[0].edition == "2015" else ""
        head = "#![allow(warnings)]\n" + ext + HELPERS
        text, where = [head], []
        line = head.count("\n") + 1
        for i, p in enumerate(progs):
            t = f"mod p{i} {{\n{p.body}\n}}\n"
            where.append((line, line + t.count("\n")))
            line += t.count("\n")
            text.append(t)
        text.append("fn main() {\n    let mut bad = false;\n")
        text.append("    let mut go = |i: usize, f: fn(&mut Vec<String>)| { let mut o = Vec::new();\n"
                    "        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut o)));\n"
                    "        if r.is_err() { o.push(\"panicked\".to_string()); bad = true; }\n"
                    "        println!(\"{}\\u{1f}{}\", i, o.iter().map(|s| s.replace('\\n', \" \")).collect::<Vec<_>>().join(\"\\u{1f}\")); };\n")
        for i in range(len(progs)):
            text.append(f"    go({i}, p{i}::run);\n")
        text.append("    let _ = bad;\n}\n")
        return "".join(text), where

    def verdicts(self, progs):
        """Sets p.verdict (True: accepted) for programs of one edition."""
        left = list(progs)
        while left:
            stem = self.file("v")
            text, where = self.crate(left)
            open(stem + ".rs", "w").write(text)
            ok, msgs = self.rustc(stem + ".rs", stem + ".rmeta", left[0].edition, False)
            if ok:
                for p in left:
                    p.verdict = True
                break
            hit = set()
            for m in msgs:
                spans = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
                for s in spans:
                    # an error inside a macro points at the macro's own text; follow it out to the module
                    while s is not None:
                        if s["file_name"] == stem + ".rs":
                            for i, (a, b) in enumerate(where):
                                if a <= s["line_start"] < b:
                                    hit.add(i)
                                    left[i].errors.append(m["message"])
                        s = s["expansion"]["span"] if s.get("expansion") else None
            if not hit:
                if len(left) == 1:
                    left[0].verdict = False
                    left[0].errors += [m["message"] for m in msgs]
                    break
                half = len(left) // 2
                self.verdicts(left[:half])
                self.verdicts(left[half:])
                return
            for i in hit:
                left[i].verdict = False
            left = [p for i, p in enumerate(left) if i not in hit]
        return

    def alone(self, p):
        """The program as a crate of its own: (accepted, errors, path)."""
        stem = self.file("a")
        text = p.body if p.whole else self.crate([p])[0]
        open(stem + ".rs", "w").write(text)
        ok, msgs = self.rustc(stem + ".rs", stem + ".rmeta", p.edition, False)
        return ok, [m["message"] for m in msgs], stem + ".rs"

    def execute(self, progs):
        """Links and runs a batch of accepted modules."""
        stem = self.file("r")
        text = self.crate(progs)[0] if not progs[0].whole else progs[0].body
        open(stem + ".rs", "w").write(text)
        ok, msgs = self.rustc(stem + ".rs", stem, progs[0].edition, True)
        if not ok:
            if len(progs) > 1:
                half = len(progs) // 2
                self.execute(progs[:half])
                self.execute(progs[half:])
            else:
                progs[0].out = ["does not compile: " + msgs[0]["message"]]
            return
        rc, out, err = sh([stem], 120, env=ENV)
        for line in out.splitlines():
            i, *o = line.split("\x1f")
            progs[int(i)].out = o if o != [""] else []
        os.remove(stem)
        if rc != 0:
            for p in progs:
                if p.out is None:
                    p.out = [f"the program ended with {rc}"]

    def run(self, progs, chunk=150, link=40):
        for p in progs:
            assert p.verdict is None
        pool = ThreadPoolExecutor(JOBS)
        batches = []
        # programs expected to be rejected are kept apart, so that few rounds are needed
        for good in (True, False):
            by = {}
            for p in progs:
                if not p.whole and (p.expect is not None) == good:
                    by.setdefault(p.edition, []).append(p)
            for ps in by.values():
                size = max(1, min(chunk, -(-len(ps) // JOBS)))
                batches += [ps[i:i + size] for i in range(0, len(ps), size)]
        list(pool.map(self.verdicts, batches))
        wholes = [p for p in progs if p.whole]

        def one(p):
            p.verdict, p.errors, _ = self.alone(p)

        list(pool.map(one, wholes))
        for p in progs:
            self.stats["accepted" if p.verdict else "rejected"] += 1
            if p.verdict != (p.expect is not None):
                ok, errs, path = self.alone(p)
                if ok != p.verdict:
                    # its neighbours made the difference: believe the program alone
                    p.verdict = ok
                    if ok == (p.expect is not None):
                        continue
                if ok:
                    self.viol(p, "compiles, and must not", path)
                else:
                    self.viol(p, "does not compile: " + "; ".join(errs[:2]), path)
        good = [p for p in progs if p.verdict and p.expect]
        batches = []
        by = {}
        for p in good:
            by.setdefault((p.edition, p.name if p.whole else ""), []).append(p)
        for ps in by.values():
            size = max(1, min(link, -(-len(ps) // JOBS)))
            batches += [ps[i:i + size] for i in range(0, len(ps), size)]
        list(pool.map(self.execute, batches))
        pool.shutdown()
        for p in good:
            self.compare(p)

    def compare(self, p):
        self.stats["probes"] += len(p.expect)
        if p.out is None:
            p.out = ["reported nothing"]
        for i, e in enumerate(p.expect):
            got = p.out[i] if i < len(p.out) else "nothing more"
            if not (e(got) if callable(e) else e == got):
                stem = self.file("a")
                open(stem + ".rs", "w").write(p.body if p.whole else self.crate([p])[0])
                want = getattr(e, "about", None) or (e if isinstance(e, str) else "something else")
                self.viol(p, f"line {i + 1} reports {got[:600]}, expected {want[:600]}", stem + ".rs")
                return
        if len(p.out) != len(p.expect):
            self.viol(p, f"reports {p.out[len(p.expect):]} more", "")

    def viol(self, p, detail, path):
        self.viols.append({"key": f"{self.prop}/{p.key}", "case": f"{p.about}", "detail": detail,
                           "replay": f"{rustc()} --edition {p.edition} {path} @{self.argfile}"})

    def result(self, samples, **more):
        cov = {
            "states": self.stats["accepted"] + self.stats["rejected"],
            "transitions": self.stats["probes"],
            "traces_validated_against_impl": self.stats["accepted"] + self.stats["rejected"],
            "programs_accepted": self.stats["accepted"],
            "programs_rejected": self.stats["rejected"],
            "reports_compared_with_the_model": self.stats["probes"],
            "compiler_runs": self.stats["rustc_runs"],
            "samples": samples,
            "exhaustive": True,
        }
        cov.update(more)
        return {"coverage": cov, "viols": self.viols}


def starts(prefix):
    f = lambda got: got.startswith(prefix)
    f.about = prefix + "..."
    return f


def error(*parts):
    """An error, naming all of these."""
    f = lambda got: got.startswith("!") and all(x in got for x in parts)
    f.about = "an error naming " + ", ".join(parts) if parts else "an error"
    return f
