"""C15: trait objects with Send and Sync behave like the plain trait object."""
import itertools, json
from lib import Prog, error
import lib
from c16 import decode, docs, written

MODES = ("serialize", "deserialize", "serde")
MARK = {"": "", "Send": " + Send", "Sync": " + Sync", "Send+Sync": " + Send + Sync", "Sync+Send": " + Sync + Send"}
SET = {k: frozenset(x for x in k.split("+") if x) for k in MARK}
# supertraits as written -> the markers among them
SUPERS = {
    "What": (), "What + Send": ("Send",), "Send + What": ("Send",), "What + Sync": ("Sync",), "Sync + What": ("Sync",), "What + Send + Sync": ("Send", "Sync"),
    "Sync + Send + What": ("Send", "Sync"), "Send + What + Sync": ("Send", "Sync"), "Sync + What + Send": ("Send", "Sync"), "What + 'static": (), "'static + Send + What": ("Send",),
    "'static + What + Sync + Send": ("Send", "Sync"), "What + Unpin": (), "What + Unpin + Send": ("Send",), "Unpin + Sync + What + std::panic::UnwindSafe": ("Sync",),
    "What + Marked": (), "What + Marked + Sync": ("Sync",), "What + Marked + Send": ("Send",), "What + SendLike": (), "SyncLike + What": (), "What + std::fmt::Debug + Send": ("Send",),
    "What + std::any::Any + Sync + Send": ("Send", "Sync"), "What + (Send)": None, "What + Hr<u8> + Send": ("Send",), "What + for<'a> Hl<'a> + Sync": ("Sync",),
    # other traits of these names, which are not the markers
    "What + my::Send": (), "my::Sync + What": (), "my::Send + What + my::Sync": (), "What + my::Send + Sync": ("Sync",), "my::Sync + Send + What": ("Send",),
    "What + my::Send + my::Sync + Send + Sync": ("Send", "Sync"), "What + my::deep::Send": (), "self::my::Sync + What + for<'a> my::of::Send<'a>": (), "What + my::of::Sync<u8>": (),
    "What + Send + Send": None, "Send + Sync + Unpin + What": ("Send", "Sync"),
}
PRE = """use crate::h::{self, A, B, What};
pub trait Marked: Send + Sync {} impl<T: Send + Sync> Marked for T {}
pub trait SendLike {} impl<T> SendLike for T {} pub trait SyncLike {} impl<T> SyncLike for T {}
pub mod my { pub trait Send {} impl<T> Send for T {} pub trait Sync {} impl<T> Sync for T {} pub mod deep { pub trait Send {} impl<T> Send for T {} }
pub mod of { pub trait Send<'a> {} impl<'a, T> Send<'a> for T {} pub trait Sync<U> {} impl<T, U> Sync<U> for T {} } }
pub trait Hr<T> {} impl<T, U> Hr<T> for U {} pub trait Hl<'a> {} impl<'a, U> Hl<'a> for U {}
"""
REPS = {"": {"rep": "ext"}, '(tag = "t")': {"rep": "int", "tag": "t"}, '(tag = "t", default_variant = "B")': {"rep": "int", "tag": "t", "default": "B"},
        '(tag = "t", content = "c")': {"rep": "adj", "tag": "t", "content": "c"},
        '(tag = "t", content = "c", default_variant = "A", deny_unknown_fields)': {"rep": "adj", "tag": "t", "content": "c", "default": "A", "deny": True}}


def check(e, tier):
    thorough = tier == "thorough"
    ds = docs(3 if thorough else 2)
    texts = ["{" + ",".join(f"{json.dumps(k)}:{json.dumps(v, separators=(',', ':'))}" for k, v in es) + "}" for es in ds]
    odd = ["", "null", "1", '"A"', "[]", '["A",{"x":1}]', "{", '{"t":1,"x":2,"c":{"x":1}}', '{"t":null}', '{"A":{"x":1},"A":{"x":1}}']
    lib.HELPERS += "pub fn docs() -> &'static [&'static str] { &[\n" + "".join(f"r##\"{t}\"##,\n" for t in texts) + "] }\n"
    lib.HELPERS += "pub fn odd() -> &'static [&'static str] { &[\n" + "".join(f"r##\"{t}\"##,\n" for t in odd) + "] }\n"
    progs = []
    few = ("What", "What + Send", "Sync + What", "What + Send + Sync")
    for (sup, marks), mode, (attr, m) in itertools.product(SUPERS.items(), MODES, REPS.items()):
        if marks is None:
            continue
        if not thorough and sup not in few and attr not in ("", '(tag = "t", content = "c")'):
            continue
        marks = frozenset(marks)
        head = PRE + f"#[typetag::{mode}{attr}]\npub trait Tr: {sup} {{}}\n#[typetag::{mode}]\nimpl Tr for A {{}}\n#[typetag::{mode}]\nimpl Tr for B {{}}\npub fn run(o: &mut Vec<String>) {{"
        b, ex = head, []
        if mode != "deserialize":
            # where the trait asks for 'static, so does the language for its objects
            ga = "st(&A { x: 7 })" if "'static" in sup or "Any" in sup else "g(&a)"
            for k, s in MARK.items():
                w = [written(m, "A", 7), written(m, "B", -8)]
                b += f"\n{{ fn g<'a>(t: &'a (dyn Tr{s} + 'a)) -> String {{ h::ser(t) }} fn i<'a, 'b>(t: &'b Box<dyn Tr{s} + 'a>) -> String {{ h::ser(t) }} fn st(t: &'static (dyn Tr{s})) -> String {{ h::ser(t) }}"
                b += f"let a = A {{ x: 7 }}; o.push({ga}); o.push(i(&(Box::new(B {{ x: -8 }}) as Box<dyn Tr{s}>))); o.push(st(&A {{ x: 7 }}));"
                b += f"let x: Box<dyn Tr{s}> = Box::new(B {{ x: -8 }}); o.push(h::ser(&x)); o.push(h::ser(&*x)); o.push(h::ser(&&x)); o.push(h::ser(&Some(&x))); o.push(h::ser(&vec![x]));"
                b += f"let mut a = A {{ x: 7 }}; o.push(h::ser(&(&mut a as &mut (dyn Tr{s})))); o.push(h::ser(&std::cell::RefCell::new(Box::new(A {{ x: 7 }}) as Box<dyn Tr{s}>)));"
                b += f"o.push((h::hex(&A {{ x: 7 }} as &(dyn Tr{s})) == h::hex(&A {{ x: 7 }} as &dyn Tr)).to_string()); }}"
                ex += [w[0], w[1], w[0], w[1], w[1], w[1], w[1], f"[{w[1]}]", w[0], w[0], "true"]
        if mode != "serialize":
            for k, s in MARK.items():
                if not SET[k] <= marks:
                    continue
                b += f"\n{{ let mut all = String::new(); for d in crate::docs() {{ let r = h::de::<Box<dyn Tr{s}>>(d, |t| t.what()); all.push_str(if r.starts_with('!') {{ \"!\" }} else {{ &r }}); all.push(' '); }} o.push(all);"
                ex.append("".join((decode(m, es) or "!") + " " for es in ds))
                # errors too are those of the plain box
                b += f"for d in crate::docs().iter().chain(crate::odd()) {{ let p = h::de::<Box<dyn Tr>>(d, |t| t.what()); let r = h::de::<Box<dyn Tr{s}>>(d, |t| t.what()); if p != r {{ o.push(format!(\"{{d}}: {{p}} vs {{r}}\")); }} }}"
                b += f"o.push(h::known::<Box<dyn Tr{s}>>(r#\"{written(m, '?', 1)}\"#)); o.push(h::de::<Vec<Option<Box<dyn Tr{s}>>>>(r#\"[{written(m, 'A', 1)},null,{written(m, 'B', 2)}]\"#, |v| v.iter().map(|t| t.as_ref().map_or(\"-\".into(), |t| t.what())).collect()));"
                ex += ["A,B", "A1-B2"]
                if "Send" in SET[k]:
                    b += f"o.push(h::de::<Box<dyn Tr{s}>>(r#\"{written(m, 'A', 1)}\"#, |t| std::thread::spawn(move || t.what()).join().unwrap()));"
                    ex.append("A1")
                b += f"let _: fn(Box<dyn Tr{s}>) -> Box<dyn Tr> = |t| t; }}"
        if mode == "serde":
            for k, s in MARK.items():
                if SET[k] <= marks:
                    for l, t in MARK.items():
                        b += f"\no.push(h::unhex::<Box<dyn Tr{s}>>(&h::hex(&B {{ x: 3 }} as &(dyn Tr{t})), |t| t.what()));"
                        ex.append("B3")
        progs.append(Prog(f"{mode}{attr} trait Tr: {sup}", b + "}", ex, "works"))
        # which boxes are deserializable at all, one program for each
        if mode != "serialize":
            for k, s in MARK.items():
                c = head + f"fn need<T: serde::de::DeserializeOwned>() {{}} need::<Box<dyn Tr{s}>>(); }}"
                progs.append(Prog(f"{mode}{attr} Box<dyn Tr{s}> of trait Tr: {sup}", c, [] if SET[k] <= marks else None, "bounds"))
        else:
            for k, s in MARK.items():
                c = head + f"fn need<T: serde::de::DeserializeOwned>() {{}} need::<Box<dyn Tr{s}>>(); }}"
                progs.append(Prog(f"{mode}{attr} Box<dyn Tr{s}> of trait Tr: {sup}", c, None, "bounds"))
        if mode == "deserialize":
            for k, s in MARK.items():
                c = head + f"fn need<T: ?Sized + serde::Serialize>() {{}} need::<dyn Tr{s}>(); }}"
                progs.append(Prog(f"{mode}{attr} dyn Tr{s}: Serialize", c, None, "bounds"))
        # a type that is not Send or Sync is an impl exactly of traits that do not ask for it
        for lacks, ty in (("Send", "*const u8"), ("Sync", "std::cell::Cell<u8>")):
            if lacks in marks or "Marked" in sup or "UnwindSafe" in sup:
                want = None
            else:
                want = []
            if "Debug" in sup:
                continue
            ph = f"#[derive(serde::Serialize, serde::Deserialize)] pub struct C {{ pub x: u8, #[serde(skip)] p: std::marker::PhantomData<{ty}> }} impl What for C {{ fn what(&self) -> String {{ String::new() }} }}\n#[typetag::{mode}] impl Tr for C {{}}\n"
            if lacks == "Send" and "Sync" in marks:
                want = None  # a raw pointer is neither
            c = head.replace("pub fn run", ph + "pub fn run") + "}"
            progs.append(Prog(f"{mode}{attr} impl of trait Tr: {sup} for a type lacking {lacks}", c, want, "impls"))
    # generic traits, which only serialize
    for attr, m in REPS.items():
        b = PRE + f"#[typetag::serialize{attr}]\npub trait Tr<'x, T: 'x>: What {{}}\n#[typetag::serialize]\nimpl<'x, T: 'x> Tr<'x, T> for A {{}}\npub fn run(o: &mut Vec<String>) {{"
        ex = []
        for k, s in MARK.items():
            b += f"\n{{ fn g<'a, 'x, T: 'x>(t: &'a (dyn Tr<'x, T>{s} + 'a)) -> String {{ h::ser(t) }} o.push(g::<u8>(&A {{ x: 7 }})); o.push(g::<&str>(&A {{ x: 7 }})); }}"
            ex += [written(m, "A", 7)] * 2
        progs.append(Prog(f"serialize{attr} trait Tr<'x, T>", b + "}", ex, "works"))
        # objects that borrow
        b = PRE + f"#[derive(serde::Serialize)] pub struct R<'r> {{ x: &'r i32 }} impl<'r> What for R<'r> {{ fn what(&self) -> String {{ String::new() }} }}\n#[typetag::serialize{attr}]\npub trait Tr: What {{}}\n#[typetag::serialize(name = \"A\")]\nimpl<'r> Tr for R<'r> {{}}\npub fn run(o: &mut Vec<String>) {{ let x = 7;"
        ex = []
        for k, s in MARK.items():
            b += f"\n{{ let b: Box<dyn Tr{s} + '_> = Box::new(R {{ x: &x }}); o.push(h::ser(&b)); o.push(h::ser(&R {{ x: &x }} as &(dyn Tr{s}))); }}"
            ex += [written(m, "A", 7)] * 2
        progs.append(Prog(f"serialize{attr} borrowing objects", b + "}", ex, "works"))
    e.run(progs, chunk=100, link=20)
    return e.result([f"{p.about}: {'accepted' if p.verdict else 'rejected: ' + (p.errors or [''])[0][:90]}" for p in progs[::max(1, len(progs) // 20)]], documents=len(ds))
