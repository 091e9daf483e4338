"""C17: the same tag is written and recognised for an impl, whatever names it."""
import json
from lib import Prog, error

PRE = r'''
#[allow(dead_code)]
pub mod m {
    use serde::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Debug)] pub struct P { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct U;
    #[derive(Serialize, Deserialize, Debug)] pub enum E { V, W(u8) }
    #[derive(Serialize, Deserialize, Debug)] pub struct G<T>(pub T);
    #[derive(Serialize, Deserialize, Debug)] pub struct H<T, const N: usize> { pub items: Vec<T> }
    pub type Al = P;
    pub mod n { pub const Q: &str = "deep const"; #[derive(serde::Serialize, serde::Deserialize, Debug)] pub struct P { pub y: i32 } }
    pub const K: &str = "a const";
    pub static S: &str = "a static";
    pub trait Named { const NAME: &'static str; }
    impl Named for P { const NAME: &'static str = "trait const"; }
    impl P { pub const OWN: &'static str = "own const"; pub const fn name() -> &'static str { "own fn" } }
    pub const fn f() -> &'static str { "a fn" }
    pub const fn pick(i: usize) -> &'static str { ["zero", "one", "two"][i] }
    #[derive(Serialize, Deserialize, Debug)] #[allow(non_camel_case_types)] pub struct lower_case { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct Ünïcöde { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct _Under_ { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] #[allow(non_camel_case_types)] pub struct r#match { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct P2 { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct Tr { pub x: i32 }
    #[derive(Serialize, Deserialize, Debug)] pub struct Loooooooooooooooooooooooooooooong { pub x: i32 }
    pub mod tt { #[derive(::serde::Serialize, ::serde::Deserialize, Debug)] #[allow(non_camel_case_types)] pub struct serde { pub x: i32 } }
    pub struct Txt { pub s: &'static str }
    pub const TXT: Txt = Txt { s: "a field" };
}
#[allow(unused_macros)]
macro_rules! lit { () => { "from a macro" } }
'''

# type as written -> (tag, a value, its JSON, its Debug text)
TYPES = {
    "P": ("P", "m::P { x: 1 }", '{"x":1}', "P { x: 1 }"),
    "m::P": ("P", "m::P { x: 1 }", '{"x":1}', "P { x: 1 }"),
    "self::m::P": ("P", "m::P { x: 1 }", '{"x":1}', "P { x: 1 }"),
    "m::n::P": ("P", "m::n::P { y: 2 }", '{"y":2}', "P { y: 2 }"),
    "super::h::A": ("A", "crate::h::A { x: 3 }", '{"x":3}', "A { x: 3 }"),
    "crate::h::A": ("A", "crate::h::A { x: 3 }", '{"x":3}', "A { x: 3 }"),
    "m::Al": ("Al", "m::P { x: 4 }", '{"x":4}', "P { x: 4 }"),
    "Ren": ("Ren", "m::P { x: 5 }", '{"x":5}', "P { x: 5 }"),
    "m::lower_case": ("lower_case", "m::lower_case { x: 1 }", '{"x":1}', "lower_case { x: 1 }"),
    "m::Ünïcöde": ("Ünïcöde", "m::Ünïcöde { x: 1 }", '{"x":1}', "Ünïcöde { x: 1 }"),
    "m::_Under_": ("_Under_", "m::_Under_ { x: 1 }", '{"x":1}', "_Under_ { x: 1 }"),
    "m::r#match": ("r#match", "m::r#match { x: 1 }", '{"x":1}', "match { x: 1 }"),
    "m::P2": ("P2", "m::P2 { x: 1 }", '{"x":1}', "P2 { x: 1 }"),
    "m::Tr": ("Tr", "m::Tr { x: 1 }", '{"x":1}', "Tr { x: 1 }"),
    "self::m::tt::serde": ("serde", "m::tt::serde { x: 1 }", '{"x":1}', "serde { x: 1 }"),
    "m::Loooooooooooooooooooooooooooooong": ("Loooooooooooooooooooooooooooooong", "m::Loooooooooooooooooooooooooooooong { x: 1 }", '{"x":1}', "Loooooooooooooooooooooooooooooong { x: 1 }"),
    "m::U": ("U", "m::U", "null", "U"),
    "m::E": ("E", "m::E::W(6)", '{"W":6}', "W(6)"),
    "i32": ("i32", "7i32", "7", "7"),
    "std::primitive::i32": ("i32", "7i32", "7", "7"),
    "String": ("String", "String::from(\"s\")", '"s"', '"s"'),
    "::std::string::String": ("String", "String::from(\"s\")", '"s"', '"s"'),
    "m::G<i32>": ("G", "m::G(8i32)", "8", "G(8)"),
    "m::G::<i32>": ("G", "m::G(8i32)", "8", "G(8)"),
    "m::G<m::G<m::P>>": ("G", "m::G(m::G(m::P { x: 9 }))", '{"x":9}', "G(G(P { x: 9 }))"),
    "m::H<u8, 3>": ("H", "m::H::<u8, 3> { items: vec![1] }", '{"items":[1]}', "H { items: [1] }"),
    "Vec<u8>": ("Vec", "vec![1u8, 2]", "[1,2]", "[1, 2]"),
    "std::vec::Vec<std::option::Option<u8>>": ("Vec", "vec![Some(1u8), None]", "[1,null]", "[Some(1), None]"),
    "Box<m::P>": ("Box", "Box::new(m::P { x: 10 })", '{"x":10}', "P { x: 10 }"),
    "std::collections::BTreeMap<String, m::P>": ("BTreeMap", "std::collections::BTreeMap::from([(\"k\".to_string(), m::P { x: 11 })])", '{"k":{"x":11}}', '{"k": P { x: 11 }}'),
    "std::borrow::Cow<'static, str>": ("Cow", "std::borrow::Cow::Borrowed(\"c\")", '"c"', '"c"'),
}
# no last path segment: need a name
UNNAMED = {
    "(u8, m::P)": ("(1u8, m::P { x: 2 })", '[1,{"x":2}]', "(1, P { x: 2 })"),
    "[u8; 2]": ("[1u8, 2]", "[1,2]", "[1, 2]"),
    "()": ("()", "null", "()"),
    "(u8,)": ("(3u8,)", "[3]", "(3,)"),
}
# expression -> the tag it is
NAMES = {
    '"lit"': "lit", 'r"raw"': "raw", 'r#"raw "q""#': 'raw "q"', '""': "", '"sp ace"': "sp ace", '"\\u{fc}n\\u{ef}"': "\u00fcn\u00ef",
    '"m::P"': "m::P", '"P"': "P", '"0"': "0", '"tru\\x65"': "true", f'"{"long" * 80}"': "long" * 80,
    'concat!("a", "-", 1)': "a-1", "stringify!(m::P)": "m::P", 'concat!(stringify!(x), "::y")': "x::y", "lit!()": "from a macro",
    "m::K": "a const", "m::n::Q": "deep const", "m::f()": "a fn", "m::pick(1)": "one", "m::P::OWN": "own const", "<m::P as m::Named>::NAME": "trait const",
    "m::P::name()": "own fn", "m::TXT.s": "a field", "(m::K)": "a const", '("par")': "par", '{ "block" }': "block",
    "{ const X: &str = m::f(); X }": "a fn", "{ let i = 1 + 1; m::pick(i) }": "two", '["p", "q"][1]': "q",
    'if m::K.len() > 3 { "long" } else { "short" }': "long", 'match 2 { 1 => "one", _ => "other" }': "other",
    "unsafe { std::str::from_utf8_unchecked(b\"utf\") }": "utf", "&*\"deref\"": "deref", '("t", "u").1': "u", "m::S": "a static",
    "{ fn _g() {} m::K }": "a const", '"as" as &\'static str': "as", "m::Txt { s: \"f\" }.s": "f", "loop { break \"l\" }": "l",
    "const { m::pick(0) }": "zero", "stringify!(a, b)": "a, b", "module_path!().split_at(0).0": "",
}
REPS = {"": "ext", '(tag = "t")': "int", '(tag = "t", content = "c")': "adj"}
MODES = ("serde", "serialize", "deserialize")


def j(s):
    return json.dumps(s, ensure_ascii=False)


def doc(rep, tag, js):
    if rep == "ext":
        return "{" + j(tag) + ":" + js + "}"
    if rep == "adj":
        return '{"t":' + j(tag) + ',"c":' + js + "}"
    if js.startswith("{"):
        return '{"t":' + j(tag) + ("," + js[1:] if js != "{}" else "}")
    return '{"t":' + j(tag) + ("}" if js == "null" else ',"value":' + js + "}")


def check(e, tier):
    thorough = tier == "thorough"
    progs = []

    def prog(how, attr, mode, ty, name, tag, val, js, dbg, key, item=None, pre=""):
        """how: the type as passed to a macro, or None; item: the text of the impl."""
        rep = REPS[attr]
        n = f"(name = {name})" if name is not None else ""
        item = item or f"#[typetag::{mode}{n}]\nimpl Tr for {ty} {{}}"
        b = [PRE, "use m::P; use m::P as Ren;", f"#[typetag::{mode}{attr}]\npub trait Tr: std::fmt::Debug {{}}", pre, item,
             f"#[typetag::{mode}(name = \"Other\")]\nimpl Tr for bool {{}}", "pub fn run(o: &mut Vec<String>) { use crate::h;"]
        ex = []
        d = doc(rep, tag, js)
        if mode != "deserialize":
            b.append(f"let v = {val}; let r: &dyn Tr = &v; o.push(h::ser(r));")
            ex.append(d)
            if rep != "int":
                b.append("o.push(h::hex(r));")
                t = tag.encode()
                pre_ = (chr(len(t)).encode() if len(t) < 128 else bytes([len(t) & 127 | 128, len(t) >> 7])) + t
                pre_ = (b"\x01" if rep == "ext" else b"") + pre_
                f = lambda got, p=pre_.hex(): got.startswith(p)
                f.about = pre_.hex() + "..."
                ex.append(f)
        if mode != "serialize":
            b.append(f"o.push(h::de::<Box<dyn Tr>>({rs(d)}, |t| format!(\"{{:?}}\", t)));")
            ex.append(dbg)
            b.append(f"o.push(h::known::<Box<dyn Tr>>({rs(doc(rep, '?', 'null'))}));")
            ex.append(",".join(sorted([tag, "Other"], key=lambda s: s.encode())))
        b.append("}")
        progs.append(Prog(f"{mode}{attr} {how or ty} {name}", "\n".join(b), ex, key, about=f"#[typetag::{mode}{n}] impl for {how or ty}, trait {attr or 'external'}"))

    combos = [(a, m) for a in REPS for m in MODES]
    few = {k: v for k, v in NAMES.items() if thorough or k in ('"lit"', '""', "m::K", "m::pick(1)", '{ "block" }', 'concat!("a", "-", 1)', "m::P::OWN")}
    for ty, (tag, val, js, dbg) in TYPES.items():
        for attr, mode in combos:
            prog(None, attr, mode, ty, None, tag, val, js, dbg, "path")
        for name, t in few.items():
            for attr, mode in combos if thorough else combos[:1]:
                prog(None, attr, mode, ty, name, t, val, js, dbg, "name")
    for ty, (val, js, dbg) in UNNAMED.items():
        for name, t in few.items():
            for attr, mode in combos if thorough else combos[:1]:
                prog(None, attr, mode, ty, name, t, val, js, dbg, "name")
    ty = "m::P"
    tag, val, js, dbg = TYPES[ty]
    for name, t in NAMES.items():
        for attr, mode in combos:
            prog(None, attr, mode, ty, name, t, val, js, dbg, "name")

    # impls that come from macros: every kind of fragment for type and name, through one macro or two
    tfrag = {"ty": list(TYPES), "path": [t for t in TYPES], "ident": ["P", "Ren", "String", "i32"], "tt": ["P", "Ren", "String"], "$($t:tt)*": list(TYPES)}
    for frag, tys in tfrag.items():
        pat, use = ("$($t:tt)*", "$($t)*") if frag.startswith("$") else (f"$t:{frag}", "$t")
        for t in tys:
            tag, val, js, dbg = TYPES[t]
            for attr, mode in combos if thorough or t in ("P", "m::P", "m::G<i32>") else combos[:1]:
                for levels in (1, 2):
                    if levels == 1:
                        mac = f"macro_rules! mk {{ ({pat}) => {{ #[typetag::{mode}] impl Tr for {use} {{}} }} }}\nmk!({t});"
                    else:
                        mac = f"macro_rules! mk {{ ({pat}) => {{ #[typetag::{mode}] impl Tr for {use} {{}} }} }}\nmacro_rules! mk2 {{ ({pat}) => {{ mk!({use}); }} }}\nmk2!({t});"
                    prog(f"{frag} fragment {t} ({levels} macros)", attr, mode, t, None, tag, val, js, dbg, "macro", item=mac)
    nfrag = {"literal": ['"lit"', 'r"raw"'], "expr": [n for n in NAMES if not n.startswith("const {")], "tt": ['"lit"', "(m::K)", '{ "block" }'], "path": ["m::K", "m::P::OWN", "m::n::Q"], "block": ['{ "block" }', "{ let i = 1 + 1; m::pick(i) }"]}
    t0 = "m::P"
    tag, val, js, dbg = TYPES[t0]
    for frag, ns in nfrag.items():
        for nm in ns:
            for tf in ("ty", "path"):
                for attr, mode in combos if thorough else combos[:1]:
                    mac = f"macro_rules! mk {{ ($t:{tf}, $n:{frag}) => {{ #[typetag::{mode}(name = $n)] impl Tr for $t {{}} }} }}\nmk!({t0}, {nm});"
                    prog(f"{frag} fragment", attr, mode, t0, nm, NAMES[nm], val, js, dbg, "macro", item=mac)
    for nm, t in (("stringify!($t)", "m::P"), ("concat!(\"ns.\", stringify!($t))", "ns.m::P"), ("concat!($n, \"!\")", "lit!"), ("concat!($n, ':', stringify!($t))", "lit:m::P")):
        for attr, mode in combos:
            mac = f"macro_rules! mk {{ ($t:ty, $n:literal) => {{ #[typetag::{mode}(name = {nm})] impl Tr for $t {{}} }} }}\nmk!({t0}, \"lit\");"
            prog("macro", attr, mode, t0, nm, t, val, js, dbg, "macro", item=mac)
    # the trait's own path does not matter, nor where the impl stands
    for attr, mode in combos:
        for i, (pre, item) in enumerate((
            ("", f"const _: () = {{ #[typetag::{mode}] impl Tr for m::P {{}} }};"),
            ("", f"fn _f() {{ #[typetag::{mode}] impl Tr for m::P {{}} }}"),
            ("", f"mod deep {{ use super::*; mod er {{ #[typetag::{mode}] impl super::super::Tr for super::super::m::P {{}} }} }}"),
            ("use self::Tr as Renamed;", f"#[typetag::{mode}] impl Renamed for m::P {{}}"),
            ("mod re { pub use super::Tr as Other; }", f"#[typetag::{mode}] impl self::re::Other for m::P {{}}"),
        )):
            prog(f"place {i}", attr, mode, "m::P", None, "P", "m::P { x: 1 }", '{"x":1}', "P { x: 1 }", "place", item=item, pre=pre)
    # generic impls, which only serialize
    for attr in REPS:
        for i, (item, val, js, tag) in enumerate((
            ("#[typetag::serialize] impl<T> Tr for m::G<T> where T: serde::Serialize + std::fmt::Debug {}", "m::G(vec![1u8])", "[1]", "G"),
            ("#[typetag::serialize] impl<'a, T: serde::Serialize + std::fmt::Debug> Tr for &'a m::G<T> where T: Clone {}\n", None, None, None),
            ("#[typetag::serialize(name = \"ref\")] impl<'a, T: serde::Serialize + std::fmt::Debug> Tr for &'a m::G<T> where T: Clone {}\n", "&m::G(vec![1u8])", "[1]", "ref"),
            ("#[typetag::serialize(name = T::NAME)] impl<T: m::Named + serde::Serialize + std::fmt::Debug> Tr for m::G<T> {}", "m::G(m::P { x: 1 })", '{"x":1}', "trait const"),
            ("#[typetag::serialize] impl<T: serde::Serialize + std::fmt::Debug, const N: usize> Tr for m::H<T, N> {}", "m::H::<u8, 3> { items: vec![1] }", '{"items":[1]}', "H"),
        )):
            if val is None:
                progs.append(Prog(f"unnamed generic {attr}", f"{PRE}\n#[typetag::serialize{attr}]\npub trait Tr: std::fmt::Debug {{}}\n{item}\npub fn run(o: &mut Vec<String>) {{}}", None, "path"))
            else:
                prog(f"generic {i}", attr, "serialize", "", None, tag, val, js, "", "generic", item=item)
    e.run(progs, chunk=100, link=50)
    return e.result([f"{p.about}: {(p.out or [''])[0][:100]}" for p in progs[3::max(1, len(progs) // 12)]])


def rs(s):
    return json.dumps(s, ensure_ascii=False)
