"""C22: generated code works in every context of the user's program."""
import itertools, json, re
import lib
from lib import ENV, Prog, error, rustc, sh

REPS = {"": "ext", '(tag = "t")': "int", '(tag = "t", content = "c", deny_unknown_fields)': "adj"}
DEFAULTS = {'(tag = "t", default_variant = "A")': "int", '(tag = "t", content = "c", default_variant = "A", deny_unknown_fields)': "adj"}
MODES = ("serde", "serialize", "deserialize")


def doc(rep, tag, x):
    js = '{"x":%d}' % x
    t = json.dumps(tag)
    return {"ext": "{%s:%s}" % (t, js), "adj": '{"t":%s,"c":%s}' % (t, js), "int": '{"t":%s,"x":%d}' % (t, x)}[rep]


# attributes of a crate, next to every lint
ATTRS = ["", "#![no_std]", "#![forbid(unsafe_code)]", "#![deny(warnings)]", "#![no_std]\n#![forbid(unsafe_code)]\n#![deny(warnings)]", "#![deny(warnings, nonstandard_style, rust_2018_idioms, unused, future_incompatible, missing_docs)]"]


class Unit:
    """A trait and two impls, and what must be seen of them from wherever `path` names the trait."""

    def __init__(self, mode, attr):
        self.mode, self.attr, self.rep = mode, attr, {**REPS, **DEFAULTS}[attr]
        self.default = attr in DEFAULTS and mode != "serialize"

    def trait(self, vis="pub", name="Tr", extra="", items="", unsafe="", post=""):
        return f"#[typetag::{self.mode}{self.attr}] {vis} {unsafe} trait {name}: crate::h::What {extra} {{ {items} }} {post}"

    def impl(self, ty, path="Tr", unsafe="", items=""):
        return f"#[typetag::{self.mode}] {unsafe} impl {path} for crate::h::{ty} {{ {items} }}"

    def probes(self, path="Tr"):
        b = ""
        if self.mode != "deserialize":
            b += f"o.push(crate::h::ser(&crate::h::A {{ x: 1 }} as &dyn {path})); o.push(crate::h::ser(&crate::h::B {{ x: 2 }} as &(dyn {path} + ::std::marker::Send + ::std::marker::Sync)));"
        if self.mode != "serialize":
            b += f"o.push(crate::h::de::<::std::boxed::Box<dyn {path}>>(r#\"{doc(self.rep, 'A', 3)}\"#, |t| crate::h::What::what(&*t)));"
            if self.default:
                bare = '{"c":{"x":6}}' if self.rep == "adj" else '{"x":6}'
                b += f"o.push(crate::h::de::<::std::boxed::Box<dyn {path}>>(r#\"{bare}\"#, |t| crate::h::What::what(&*t)));"
            b += f"o.push(crate::h::known::<::std::boxed::Box<dyn {path}>>(r#\"{doc(self.rep, '?', 3)}\"#));"
        return b

    def expect(self, names="A,B"):
        return ([doc(self.rep, "A", 1), doc(self.rep, "B", 2)] if self.mode != "deserialize" else []) + (["A3"] + ["A6"] * self.default + [names] if self.mode != "serialize" else [])


OUT = "o: &mut crate::h::Out"


def contexts(u):
    """(name, body, how often the probes run) for every place a trait and its impls may be written."""
    P, T, A, B = u.probes, u.trait, u.impl("A"), u.impl("B")
    run = f"pub fn run({OUT}) {{ %s }}"
    yield "module", f"{T()} {A} {B} {run % P()}", 1
    yield "impls first", f"{A} {B} {run % P()} {T()}", 1
    # modules x visibility
    for vis in ("", "pub", "pub(crate)", "pub(self)", "pub(super)", "pub(in super)", "pub(in self)"):
        yield f"nested module, {vis or 'private'}", f"mod n {{ {T(vis)} {A} {B} {run % P()} }} pub fn run({OUT}) {{ n::run(o) }}", 1
        yield f"module in module, {vis or 'private'}", f"mod n {{ mod k {{ {T(vis)} {A} {B} pub(super) {run.replace('pub ', '') % P()} }} pub(super) fn run({OUT}) {{ k::run(o) }} }} pub fn run({OUT}) {{ n::run(o) }}", 1
        yield f"impls in a child, trait {vis or 'private'}", f"{T(vis)} mod n {{ {u.impl('A', 'super::Tr')} mod k {{ {u.impl('B', 'super::super::Tr')} }} }} {run % P()}", 1
        if vis in ("pub", "pub(crate)", "pub(super)", "pub(in super)"):
            yield f"impls in the parent, trait {vis}", f"mod n {{ {T(vis)} }} {u.impl('A', 'n::Tr')} {u.impl('B', 'self::n::Tr')} {run % P('n::Tr')}", 1
            yield f"impls in siblings, trait {vis}", f"mod n {{ {T(vis)} }} mod k {{ {u.impl('A', 'super::n::Tr')} }} mod l {{ use super::n::Tr as Q; {u.impl('B', 'Q')} }} {run % P('n::Tr')}", 1
            yield f"glob import, trait {vis}", f"mod n {{ {T(vis)} }} use self::n::*; {A} {B} {run % P()}", 1
    yield "re-exported", f"mod n {{ {T()} }} mod r {{ pub use super::n::Tr as Other; }} {u.impl('A', 'r::Other')} {u.impl('B', 'n::Tr')} {run % P('r::Other')}", 1
    # bodies
    yield "function body", f"pub fn run({OUT}) {{ {T()} {A} {B} {P()} }}", 1
    yield "private in a function body", f"pub fn run({OUT}) {{ {T('')} {A} {B} {P()} }}", 1
    yield "behind its use in a body", f"pub fn run({OUT}) {{ {P()} {B} {A} {T('')} }}", 1
    yield "function in a function", f"pub fn run({OUT}) {{ fn g({OUT}) {{ {T('')} {A} {B} {P()} }} g(o) }}", 1
    yield "closure", f"pub fn run({OUT}) {{ (|| {{ {T('')} {A} {B} {P()} }})() }}", 1
    yield "block", f"pub fn run({OUT}) {{ {{ {{ {T('')} {A} {B} {P()} }} }} }}", 1
    yield "match arm and loop", f"pub fn run({OUT}) {{ match 0 {{ 0 => loop {{ {T('')} {A} {B} {P()} break; }}, _ => {{}} }} }}", 1
    yield "const block", f"const _: () = {{ {T('')} {A} {B} }}; {T()} {A} {B} {run % P()}", 1
    yield "const fn", f"pub const fn c() -> u8 {{ {T('')} {A} {B} 1 }} {T()} {A} {B} {run % P()}", 1
    yield "array length", f"pub type L = [u8; {{ {T('')} {A} {B} 1 }}]; {T()} {A} {B} {run % P()}", 1
    yield "enum discriminant", f"pub enum D {{ V = {{ {T('')} {A} {B} 1 }} }} {T()} {A} {B} {run % P()}", 1
    yield "method body", f"pub struct Q; impl Q {{ pub fn m(self, {OUT}) {{ {T('')} {A} {B} {P()} }} }} pub fn run({OUT}) {{ Q.m(o) }}", 1
    yield "default method body", f"pub trait Q {{ fn m(&self, {OUT}) {{ {T('')} {A} {B} {P()} }} }} impl Q for u8 {{}} pub fn run({OUT}) {{ 0u8.m(o) }}", 1
    yield "generic function body", f"fn g<T: ?::std::marker::Sized>({OUT}) {{ {T('')} {A} {B} {P()} }} pub fn run({OUT}) {{ g::<str>(o); g::<u8>(o) }}", 2
    yield "async fn body", f"async fn g() {{ {T('')} {A} {B} }} {T()} {A} {B} {run % P()}", 1
    yield "impl in a body of another function", f"{T('')} fn g() {{ {A} }} pub fn run({OUT}) {{ fn h() {{ {B} }} {P()} }}", 1
    yield "module in a body", f"pub fn run({OUT}) {{ mod n {{ {T()} {A} {B} {run % P()} }} n::run(o) }}", 1
    # the macros themselves
    yield "use typetag", f"use typetag as tt; {T().replace('typetag::', 'tt::')} {A.replace('typetag::', 'tt::')} {B} {run % P()}", 1
    yield "::typetag", f"{T().replace('typetag::', '::typetag::')} {A.replace('typetag::', '::typetag::')} {B} {run % P()}", 1
    yield "renamed attribute", f"use typetag::{u.mode} as tag_it; {T().replace('typetag::' + u.mode, 'tag_it')} {A.replace('typetag::' + u.mode, 'tag_it')} {B} {run % P()}", 1
    yield "extern crate", f"extern crate typetag; extern crate typetag as tt2; {T()} {A.replace('typetag::', 'tt2::')} {B} {run % P()}", 1
    # shapes of the trait and of the impls
    yield "unsafe trait", f"{T(unsafe='unsafe')} {u.impl('A', unsafe='unsafe')} {u.impl('B', unsafe='unsafe')} {run % P()}", 1
    yield "where Self", f"{T(extra='where Self: crate::h::What')} {A} {B} {run % P()}", 1
    yield "where other", f"{T(extra='where u8: ::std::marker::Copy, ::std::string::String: ::std::clone::Clone')} {A} {B} {run % P()}", 1
    yield "supertraits", f"pub trait S1 {{ fn s1(&self) -> u8 {{ 1 }} }} pub trait S2<T> {{}} pub trait S3<'a> {{}} impl<T> S1 for T {{}} impl<T, U> S2<T> for U {{}} impl<'a, T> S3<'a> for T {{}} " \
        f"{T(extra=' + S1 + S2<u8> + for<' + chr(39) + 'a> S3<' + chr(39) + 'a> + ::std::fmt::Debug')} {A} {B} pub fn g(t: &dyn Tr) -> u8 {{ t.s1() }} {run % P()}", 1
    yield "where on the impl", f"{T()} {A.replace('{  }', 'where crate::h::A: ::std::clone::Clone {}')} {B} {run % P()}", 1
    yield "empty generics", f"{T().replace('trait Tr', 'trait Tr<>')} {A.replace('impl Tr', 'impl<> Tr<>')} {B} {run % P()}", 1
    yield "trailing plus", f"{T(extra='+')} {A} {B} {run % P()}", 1
    ms = "fn own(&self) -> u8; fn def(&self) -> u8 { self.own() + 1 } fn stat() -> u8 where Self: ::std::marker::Sized { 40 } #[inline] fn attr(&self, #[allow(unused)] q: u8) {} fn generic<T>(&self, t: T) -> T where Self: ::std::marker::Sized { t } fn boxed(self: ::std::boxed::Box<Self>) -> u8 { 7 }" \
        " /// doc\n fn life<'a>(&'a self, s: &'a str) -> &'a str { s } #[cfg(any())] fn none(&self); fn serialize(&self) -> u8 { 50 } fn deserialize(&self) -> u8 { 51 } fn name(&self) -> u8 { 52 } fn get(&self) -> u8 { 53 } fn from(&self) -> u8 { 54 } fn new() -> u8 where Self: ::std::marker::Sized { 55 }"
    dyn = "o.push(::std::format!(\"{} {} {} {} {} {} {} {}\", x.own(), x.def(), x.life(\"l\"), x.serialize(), x.deserialize(), x.name(), x.get(), x.from())); o.push(::std::format!(\"{}\", x.boxed()));"
    yield "methods", f"{T(items=ms)} {u.impl('A', items='fn own(&self) -> u8 { 10 }')} {u.impl('B', items='fn own(&self) -> u8 { 20 } fn def(&self) -> u8 { 99 } fn name(&self) -> u8 { 98 }')} pub fn run({OUT}) {{ {P()} " \
        f"for x in [::std::boxed::Box::new(crate::h::A {{ x: 1 }}) as ::std::boxed::Box<dyn Tr>, ::std::boxed::Box::new(crate::h::B {{ x: 1 }})] {{ {dyn} }} o.push(::std::format!(\"{{}} {{}} {{}}\", <crate::h::A as Tr>::stat(), Tr::generic(&crate::h::A {{ x: 1 }}, 3), <crate::h::A as Tr>::new())); }}", \
        ["10 11 l 50 51 52 53 54", "7", "20 99 l 50 51 98 53 54", "7", "40 3 55"]
    yield "inherent methods on the object", f"{T()} {A} {B} impl dyn Tr {{ pub fn serialize(&self) -> u8 {{ 60 }} pub fn typetag(&self) -> u8 {{ 61 }} pub fn new() -> u8 {{ 62 }} }} impl dyn Tr + Send {{ pub fn deserialize() -> u8 {{ 63 }} }} " \
        f"pub fn run({OUT}) {{ {P()} let d: &dyn Tr = &crate::h::A {{ x: 1 }}; o.push(::std::format!(\"{{}} {{}} {{}} {{}}\", d.serialize(), d.typetag(), <dyn Tr>::new(), <dyn Tr + Send>::deserialize())); }}", ["60 61 62 63"]
    yield "other traits for the object", f"{T()} {A} {B} impl ::std::fmt::Display for dyn Tr {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ f.write_str(&self.what()) }} }} impl ::std::cmp::PartialEq for dyn Tr {{ fn eq(&self, o: &Self) -> bool {{ self.what() == o.what() }} }} " \
        f"impl ::std::clone::Clone for ::std::boxed::Box<dyn Tr> {{ fn clone(&self) -> Self {{ ::std::boxed::Box::new(crate::h::B {{ x: 5 }}) }} }} pub fn run({OUT}) {{ {P()} let d: ::std::boxed::Box<dyn Tr> = ::std::boxed::Box::new(crate::h::A {{ x: 1 }}); o.push(::std::format!(\"{{}} {{}} {{}}\", d, &*d == &*d.clone(), d.clone())); }}", ["A1 false B5"]
    # several traits, several impls
    two = f"{T()} {A} {B} " + u.trait(name="Tr2") + u.impl("B", "Tr2") + u.impl("A", "Tr2") + u.trait(name="Tr3")
    yield "three traits in a module", f"{two} pub fn run({OUT}) {{ {P()} {P('Tr2')} }}", 2
    yield "three traits in a body", f"pub fn run({OUT}) {{ {two} {P()} {P('Tr2')} }}", 2
    yield "traits of one name in two modules", f"mod n {{ {T()} }} mod k {{ {T()} }} " + u.impl("A", "n::Tr") + u.impl("B", "n::Tr") + u.impl("A", "k::Tr") + u.impl("B", "k::Tr") + f"pub fn run({OUT}) {{ {P('n::Tr')} {P('k::Tr')} }}", 2
    # attributes
    for n, at in (("doc", "/// doc\n"), ("doc attribute", "#[doc = \"x\"]"), ("hidden", "#[doc(hidden)]"), ("allow", "#[allow(unused, clippy::all)]"), ("deprecated", "#[deprecated]"), ("must_use", "#[must_use]"), ("cfg", "#[cfg(all())]"),
                  ("cfg_attr", "#[cfg_attr(all(), doc = \"x\")]"), ("rustfmt", "#[rustfmt::skip]"), ("diagnostic", "#[diagnostic::on_unimplemented(message = \"m\")]"), ("async_trait", "#[async_trait::async_trait]"),
                  ("two", "/** doc */ #[allow(dead_code)] #[cfg(all())]")):
        for where in ("above", "below", "both"):
            def put(item, at=at, where=where, impl=False):
                if impl and n in ("deprecated", "must_use", "diagnostic"):
                    return item
                i = item.index("]") + 1 if "(" not in item.split("]")[0] else item.index(")]") + 2
                if where == "above":
                    return at + item
                if where == "below":
                    return item[:i] + at + item[i:]
                if n in ("async_trait", "deprecated", "must_use"):
                    return at + item
                return at + item[:i] + at + item[i:]
            yield f"attribute {n} {where}", f"{put(T())} {put(A, impl=True)} {put(B, impl=True)} {run % P()}", 1
    # an attribute is lost unless it silences the lint that is denied around it
    lint, fq = "unused_variables", "fn q(&self) -> u8 { let forgotten = 1; 2 }"
    both = u.impl("A", items="fn q(&self) -> u8 { let forgotten = 3; 4 }")
    for n, outer, inner in (("above", f"#[allow({lint})]", ""), ("below", f"#[allow({lint})]", ""), ("within", "", f"#![allow({lint})]"), ("within, twice", "", f"//! doc\n#![allow({lint})] #![doc = \"x\"]")):
        def keep(item):
            i = item.index("]") + 1 if "(" not in item.split("]")[0] else item.index(")]") + 2
            item = item.replace("{ fn q", f"{{ {inner} fn q", 1)
            return outer + item if n == "above" else item[:i] + outer + item[i:]
        yield f"silenced {n}", f"#[deny({lint})] pub mod n {{ {keep(T(items=fq))} {keep(both)} {keep(u.impl('B', items=fq))} {run % P()} }} pub fn run({OUT}) {{ n::run(o); o.push(::std::format!(\"{{}}{{}}\", n::Tr::q(&crate::h::A {{ x: 1 }}), n::Tr::q(&crate::h::B {{ x: 1 }}))) }}", ["42"]
    yield "cfg_attr with the attribute", f"#[cfg_attr(all(), typetag::{u.mode}{u.attr})] pub trait Tr: crate::h::What {{}} #[cfg_attr(all(), typetag::{u.mode})] impl Tr for crate::h::A {{}} {B} #[cfg_attr(any(), typetag::serde)] pub trait Plain {{}} {run % P()}", 1
    yield "cfg'd out impl", f"{T()} {A} {B} #[cfg(any())] #[typetag::{u.mode}] impl Tr for u8 {{}} #[typetag::{u.mode}] #[cfg(any())] impl Tr for u16 {{}} {run % P()}", 1
    m = "async fn am(&self) -> u8 { 1 }"
    at = "#[async_trait::async_trait]"
    for order in ("above", "below"):
        f = (lambda s: at + s) if order == "above" else (lambda s: re.sub(r"(#\[typetag::\w+(\(.*?\))?\])", lambda q: q[1] + at, s, count=1))
        yield f"async_trait {order} with async methods", f"{f(T(items='async fn am(&self) -> u8;'))} {f(u.impl('A', items=m))} {f(u.impl('B', items=m))} {run % P()}", 1
    # macro expansions
    def mac(pat, tr, call, extra=""):
        return f"macro_rules! mk {{ ({pat}) => {{ {tr} }} }} mk!({call}); {extra} {run % P()}"
    yield "all from a macro", mac("", f"{T()} {A} {B}", ""), 1
    yield "names from a macro", mac("$v:vis $n:ident $t:ident $u:ty", f"#[typetag::{u.mode}{u.attr}] $v trait $n: crate::h::What {{}} #[typetag::{u.mode}] impl $n for crate::h::$t {{}} #[typetag::{u.mode}] impl $n for $u {{}}", "pub Tr A crate::h::B"), 1
    yield "private from a macro", mac("$v:vis $n:ident", f"#[typetag::{u.mode}{u.attr}] $v trait $n: crate::h::What {{}}", "Tr", f"{A} {B}"), 1
    yield "items from a macro", mac("$($i:item)*", "$($i)*", f"{T()} {A} {B}"), 1
    yield "tokens from a macro", mac("$($i:tt)*", "$($i)*", f"{T()} {A} {B}"), 1
    yield "attribute on an item from a macro", mac("$i:item $j:item", f"#[typetag::{u.mode}{u.attr}] $i #[typetag::{u.mode}] $j", "pub trait Tr: crate::h::What {} impl Tr for crate::h::A {}", B), 1
    yield "attributes from a macro", mac("$(#[$m:meta])* $n:ident", f"$(#[$m])* pub trait $n: crate::h::What {{}}", f"#[typetag::{u.mode}{u.attr}] #[allow(unused)] Tr", f"{A} {B}"), 1
    yield "bounds from a macro", mac("$b:path, $l:lifetime", f"#[typetag::{u.mode}{u.attr}] pub trait Tr: $b + $l {{}}", "crate::h::What, 'static", f"{A} {B}"), 1
    if u.attr.startswith('(tag = "t")') or "content" in u.attr:
        lits = [x for x in re.findall(r'"(\w+)"', u.attr)]
        at2 = u.attr
        for i, l in enumerate(lits):
            at2 = at2.replace(f'"{l}"', f"$l{i}", 1)
        yield "keys from a macro", mac(" ".join(f"$l{i}:literal" for i in range(len(lits))), f"#[typetag::{u.mode}{at2}] pub trait Tr: crate::h::What {{}}", " ".join(json.dumps(l) for l in lits), f"{A} {B}"), 1
    yield "repetition in a macro", mac("$($t:ident),*", f"{T()} $( #[typetag::{u.mode}] impl Tr for crate::h::$t {{}} )*", "A, B"), 1
    yield "methods from a macro", mac("$($m:tt)*", f"#[typetag::{u.mode}{u.attr}] pub trait Tr: crate::h::What {{ $($m)* }}", "fn q(&self) -> u8 { 1 }", f"{A} {B}"), 1
    yield "local variables of the caller", f"pub fn run({OUT}) {{ let (serializer, registry, map, names, name, deserializer) = (1, 2, 3, 4, 5, 6); {T('')} {A} {B} {P()} let _ = (serializer, registry, map, names, name, deserializer); }}", 1


def generics(rep, attr):
    """Generic serialize-only traits: what the clauses of the user mean in every impl made from them."""
    C, D, F = "::std::clone::Clone", "::std::default::Default", "::std::fmt::Debug"
    for decl, inst, where in (
        ("<T>", "<u8>", ""), ("<T>", "<u8>", f"where T: {C}"), (f"<T: {C}>", "<u8>", ""), (f"<T: {C} + {D}>", "<u8>", f"where T: {F}"), ("<T: ?::std::marker::Sized>", "<str>", ""), ("<T>", "<str>", "where T: ?::std::marker::Sized"),
        ("<T = u8>", "", ""), (f"<T: {C} = u8>", "<u16>", f"where T: {D}"), ("<T, U>", "<u8, u16>", f"where T: {C}, U: ::std::convert::From<T>"), ("<T, U: ::std::convert::From<T>>", "<u8, u16>", ""),
        ("<const N: usize>", "<3>", ""), ("<const N: usize = 4>", "", ""), ("<T, const N: usize>", "<u8, 3>", f"where [T; N]: {F}"), ("<'a>", "<'static>", ""), ("<'a, T: 'a>", "<'static, u8>", ""), ("<'a, 'b: 'a, T>", "<'static, 'static, u8>", f"where T: {C} + 'b"),
        ("<T>", "<u8>", f"where T: ::std::iter::IntoIterator, T::Item: {C}"), ("<T>", "<u8>", f"where for<'x> &'x T: {F}"), ("<T>", "<u8>", f"where ::std::vec::Vec<T>: {F}, ::std::option::Option<T>: {C}"), ("<T>", "<fn(u8) -> u8>", f"where T: ::std::ops::Fn(u8) -> u8"),
        ("<T>", "<u8>", f"where T: {C},"), ("<T,>", "<u8>", "where"), ("<T>", "<u8>", "where Self: crate::h::What"),
    ):
        inst = inst.replace("<u8>", "<::std::vec::Vec<u8>>") if "IntoIterator" in where else inst
        for extra in ("", f" + {F}"):
            yield f"trait Tr{decl} {where} {'with Debug' if extra else ''}", f"#[typetag::serialize{attr}] pub trait Tr{decl}: crate::h::What{extra} {where} {{}}", inst


# names of the prelude, of the libraries, and those that generated code is likely to use
TYPE_NAMES = ["Option", "Result", "Box", "Vec", "String", "Send", "Sync", "Sized", "Copy", "Clone", "Default", "Drop", "Fn", "FnMut", "FnOnce", "From", "Into", "TryFrom", "Iterator", "IntoIterator", "ToString", "ToOwned", "AsRef", "Debug",
              "Serialize", "Deserialize", "Serializer", "Deserializer", "Registry", "Strictest", "DeserializeFn", "BTreeMap", "BTreeMapEntry", "Entry", "OnceBox", "Object", "Error", "Ordering", "PhantomData", "Any", "S", "D", "T", "E", "F", "V", "TYPETAG", "Eq", "Hash", "Unpin", "Rc", "Arc"]
MOD_NAMES = ["std", "core", "alloc", "serde", "inventory", "erased_serde", "once_cell", "__private", "private", "externally", "internally", "adjacently", "option", "result", "boxed", "race", "btree_map", "marker", "prelude"]
MACRO_NAMES = ["vec", "format", "panic", "println", "assert", "concat", "stringify", "unreachable", "matches", "write", "submit", "collect", "todo", "env", "compile_error", "debug_assert"]
VALUE_NAMES = ["Some", "None", "Ok", "Err", "drop", "Box", "Vec", "Default", "serialize", "deserialize", "typetag_register", "iter", "new", "from", "into"]


def kinds(n):
    yield f"struct {n}", f"#[allow(non_camel_case_types)] pub struct {n};"
    yield f"generic struct {n}", f"#[allow(non_camel_case_types)] pub struct {n}<X>(pub X);"
    yield f"enum {n}", f"#[allow(non_camel_case_types)] pub enum {n} {{}}"
    yield f"alias {n}", f"#[allow(non_camel_case_types)] pub type {n} = u8;"
    yield f"trait {n}", f"#[allow(non_camel_case_types)] pub trait {n} {{ fn into(self) -> u8 where Self: ::std::marker::Sized {{ 0 }} fn serialize(&self) -> u8 {{ 0 }} fn get_or_init(&self) {{}} fn clone(&self) {{}} fn into_iter(&self) {{}} fn registry(&self) {{}} }} impl<X: ?::std::marker::Sized> {n} for X {{}}"
    yield f"module {n}", f"pub mod {n} {{}}"


def check(e, tier):
    thorough = tier == "thorough"
    lib.HELPERS = lib.HELPERS.replace("mod h {\n", "mod h {\n    pub type Out = Vec<String>;\n", 1)
    progs = []
    units = [Unit(m, a) for m in MODES for a in REPS]
    if thorough:
        units += [Unit(m, a) for m in ("serde", "deserialize") for a in DEFAULTS]
    else:
        units = [Unit("serde", a) for a in list(REPS)[:2] + list(DEFAULTS)[1:]] + [Unit("serialize", ""), Unit("deserialize", list(DEFAULTS)[0])]
    for ed in ("2015", "2018", "2021", "2024"):
        for u in units:
            if not thorough and ed != "2021" and u.attr != (""):
                continue
            for name, body, times in contexts(u):
                if ed == "2015" and ("async" in name or "attribute async_trait" in name):
                    continue
                more = times if isinstance(times, list) else []
                ex = u.expect() * (times if isinstance(times, int) else 1) + more
                if ed == "2015":
                    body = body.replace("use typetag", "use ::typetag")
                progs.append(Prog(f"{ed} {u.mode}{u.attr} {name}", body, ex, "context", edition=ed))

    # attributes that make something else an error
    for u in units:
        for n, at, use in (("deprecated", "#[deprecated]", "#[deny(deprecated)] pub fn g(_: &dyn Tr) {}"),
                           ("must_use", "#[must_use]", "#[deny(unused_must_use)] pub fn g() { fn f() -> ::std::boxed::Box<dyn Tr> { ::std::panic!() } f(); }")):
            for t, where in ((at + u.trait(), "above"), (re.sub(r"(#\[typetag::\w+(\(.*?\))?\])", lambda q: q[1] + at, u.trait(), count=1), "below")):
                progs.append(Prog(f"{u.mode}{u.attr} {n} {where} counts", f"{t} {u.impl('A')} {u.impl('B')} {use} pub fn run({OUT}) {{ {u.probes()} }}", None, "context"))

    # generic traits, with every combination of marker traits
    for attr, rep in REPS.items():
        for name, t, inst in generics(rep, attr):
            ex, pr = [], ""
            for mk in ("", " + ::std::marker::Send", " + ::std::marker::Sync", " + ::std::marker::Send + ::std::marker::Sync"):
                pr += f"o.push(crate::h::ser(&crate::h::A {{ x: 1 }} as &(dyn Tr{inst}{mk}))); o.push(crate::h::ser(&(::std::boxed::Box::new(crate::h::B {{ x: 2 }}) as ::std::boxed::Box<dyn Tr{inst}{mk}>)));"
                ex += [doc(rep, "A", 1), doc(rep, "B", 2)]
            body = f"{t} #[typetag::serialize] impl Tr{inst} for crate::h::A {{}} #[typetag::serialize] impl Tr{inst} for crate::h::B {{}} pub fn run({OUT}) {{ {pr} }}"
            progs.append(Prog(f"serialize{attr} {name}", body, ex, "context"))

    # what the user's module redefines
    for u in units if thorough else [Unit("serde", a) for a in DEFAULTS] + [Unit("serialize", ""), Unit("deserialize", '(tag = "t", content = "c", deny_unknown_fields)'), Unit("deserialize", "")]:
        T, A, B = u.trait(), u.impl("A"), u.impl("B")
        own = list(u.expect())
        for n in TYPE_NAMES:
            for k, d in kinds(n):
                yield_ = f"{d} {T} {A} {B} pub fn run({OUT}) {{ {u.probes()} }}"
                progs.append(Prog(f"{u.mode}{u.attr} next to {k}", yield_, own, "names"))
                if thorough and not k.startswith("trait"):
                    progs.append(Prog(f"{u.mode}{u.attr} in a body next to {k}", f"pub fn run({OUT}) {{ {d} {T} {A} {B} {u.probes()} }}", own, "names"))
            # the trait and the impl'd type of that name
            progs.append(Prog(f"{u.mode}{u.attr} trait {n}", f"{u.trait(name=n)} {u.impl('A', n)} {u.impl('B', n)} pub fn run({OUT}) {{ {u.probes('self::' + n)} }}", own, "names"))
            if u.mode != "deserialize":
                tag = doc(u.rep, n, 4)
                ex = [tag]
                pr = f"o.push(crate::h::ser(&self::{n} {{ x: 4 }} as &dyn Tr));"
            else:
                ex, pr = [], ""
            if u.mode != "serialize":
                pr += f"o.push(crate::h::de::<::std::boxed::Box<dyn Tr>>(r#\"{doc(u.rep, n, 4)}\"#, |_| \"ok\".to_string()));"
                ex = ex + ["ok"]
            ty = f"pub mod z {{ #[allow(non_camel_case_types)] #[derive(serde::Serialize, serde::Deserialize)] pub struct {n}0 {{ pub x: i32 }} }} pub use self::z::{n}0 as {n};"
            progs.append(Prog(f"{u.mode}{u.attr} impl for a type {n}", f"{ty} #[typetag::{u.mode}{u.attr}] pub trait Tr {{}} #[typetag::{u.mode}] impl Tr for {n} {{}} pub fn run({OUT}) {{ {pr} }}", ex, "names"))
            if u.mode == "serialize":
                g = f"#[typetag::serialize{u.attr}] pub trait Tr<{n}>: crate::h::What {{ #[allow(unused)] fn q(&self, _: &{n}) {{}} }} #[typetag::serialize] impl<{n}> Tr<{n}> for crate::h::A {{}} #[typetag::serialize] impl Tr<u8> for crate::h::B {{}}"
                progs.append(Prog(f"serialize{u.attr} trait Tr<{n}>", f"{g} pub fn run({OUT}) {{ {u.probes('Tr<u8>')} }}", own, "names"))
                g = f"#[derive(serde::Serialize)] pub struct G<X> {{ x: X }} #[typetag::serialize{u.attr}] pub trait Tr {{}} #[typetag::serialize] impl<{n}: serde::Serialize> Tr for G<{n}> {{}}"
                progs.append(Prog(f"serialize{u.attr} impl<{n}>", f"{g} pub fn run({OUT}) {{ o.push(crate::h::ser(&G {{ x: 5 }} as &dyn Tr)); }}", [doc(u.rep, "G", 5)], "names"))
        for n in MOD_NAMES:
            progs.append(Prog(f"{u.mode}{u.attr} next to mod {n}", f"pub mod {n} {{ pub struct Box; }} {T} {A} {B} pub fn run({OUT}) {{ {u.probes()} }}", own, "names"))
        for n in MACRO_NAMES:
            progs.append(Prog(f"{u.mode}{u.attr} next to {n}!", f"#[allow(unused_macros)] macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"{n}!\") }} }} {T} {A} {B} pub fn run({OUT}) {{ {u.probes()} }}", own, "names"))
        for n in VALUE_NAMES:
            for k, d in (("fn", f"#[allow(non_snake_case)] pub fn {n}() {{}}"), ("const", f"#[allow(non_upper_case_globals)] pub const {n}: u8 = 0;"), ("static", f"#[allow(non_upper_case_globals)] pub static {n}: u8 = 0;")):
                progs.append(Prog(f"{u.mode}{u.attr} next to {k} {n}", f"{d} {T} {A} {B} pub fn run({OUT}) {{ {u.probes()} }}", own, "names"))
        # all of them at once
        allof = " ".join(f"pub struct {n};" for n in TYPE_NAMES if n not in ("T", "TYPETAG")) + " ".join(f"pub mod {n} {{}}" for n in MOD_NAMES if n != "std")
        progs.append(Prog(f"{u.mode}{u.attr} next to all types and modules", f"pub mod w {{ {allof} {T} {A} {B} }} pub fn run({OUT}) {{ {u.probes('w::Tr')} }}", own, "names"))
        progs.append(Prog(f"{u.mode}{u.attr} without a prelude", f"pub mod w {{ #![no_implicit_prelude] use ::typetag; {T} {A} {B} }} pub fn run({OUT}) {{ {u.probes('w::Tr')} }}", own, "names"))
    # impls of one type for many traits, of every representation, and names of their own
    b = ["use crate::h::{self, A, B, What};"]
    pr, ex = [], []
    for i, (a, r) in enumerate(REPS.items()):
        b.append(f"#[typetag::serde{a}] pub trait T{i}: What {{}} #[typetag::serde] impl T{i} for A {{}} #[typetag::serde(name = \"A{i}\")] impl T{i} for B {{}}")
        pr.append(f"o.push(h::ser(&A {{ x: 1 }} as &dyn T{i})); o.push(h::ser(&B {{ x: 1 }} as &dyn T{i})); o.push(h::known::<Box<dyn T{i}>>(r#\"{doc(r, '?', 0)}\"#)); o.push(h::de::<Box<dyn T{i}>>(r#\"{doc(r, f'A{i}', 2)}\"#, |t| t.what()));")
        ex += [doc(r, "A", 1), doc(r, f"A{i}", 1), f"A,A{i}", "B2"]
    progs.append(Prog("one type, many traits", "\n".join(b) + f"pub fn run({OUT}) {{ {' '.join(pr)} }}", ex, "context"))

    e.run(progs, chunk=120, link=60)

    # every lint that is on by default, as an error
    rc, out, err = sh([rustc(), "-W", "help"], 60, env=ENV)
    lints = re.findall(r"^\s+([a-z0-9-]+)\s+(?:warn|deny)\s", out, re.M)
    lints = [l.replace("-", "_") for l in lints]

    def crate(attrs, macros):
        t = "" if macros else "//"
        ser = "serde::Serialize, serde::Deserialize"
        body = []
        for i, a in enumerate(REPS):
            body.append(f"""    /// A trait.
    {t}#[typetag::serde{a}]
    pub trait Tr{i}: ::core::fmt::Debug + Send {{
        /// A method.
        fn m{i}(&self) -> u8;
    }}
    {t}#[typetag::serde]
    impl Tr{i} for A {{ fn m{i}(&self) -> u8 {{ self.x }} }}
    {t}#[typetag::serde(name = "Other")]
    impl Tr{i} for B {{ fn m{i}(&self) -> u8 {{ self.x }} }}
    /// A generic trait.
    {t}#[typetag::serialize{a}]
    pub trait Gen{i}<T>: ::core::fmt::Debug {{
        /// A method.
        fn g{i}(&self, t: &T) -> u8;
    }}
    {t}#[typetag::serialize]
    impl<T> Gen{i}<T> for A {{ fn g{i}(&self, _: &T) -> u8 {{ self.x }} }}
    /// Serialized only, deserialized only.
    {t}#[typetag::deserialize{a}]
    pub trait De{i}: ::core::fmt::Debug {{
        /// A method.
        fn d{i}(&self) -> u8;
    }}
    {t}#[typetag::deserialize]
    impl De{i} for A {{ fn d{i}(&self) -> u8 {{ self.x }} }}
""")
        return f"""{attrs}
//! Docs.
/// Docs.
pub mod m {{
    //! Docs.
    /// A type.
    #[derive(Debug, Clone, Copy, {ser})] pub struct A {{ /** doc */ pub x: u8 }}
    /// A type.
    #[derive(Debug, Clone, Copy, {ser})] pub struct B {{ /** doc */ pub x: u8 }}
{''.join(body)}}}
"""

    def lint(l, edition, macros):
        stem = e.file("lint")
        open(stem + ".rs", "w").write(crate(l, macros))
        cmd = [rustc(), "--edition", edition, "--crate-type=lib", "--error-format=json", "--emit=metadata", "-o", stem + ".rmeta", stem + ".rs", "@" + e.argfile]
        rc, out, err = sh(cmd, 200, env=ENV)
        if rc is None or rc < 0:
            raise lib.NoVerdict(f"rustc ended with {rc}")
        with e.lock:
            e.stats["rustc_runs"] += 1
        msgs = [d for d in (json.loads(x) for x in err.splitlines() if x.startswith("{")) if d.get("level") == "error"]
        return rc == 0, [m["message"] for m in msgs], stem + ".rs"

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(lib.JOBS) as pool:
        jobs = [(l, ed) for ed in (("2021", "2018", "2024") if thorough else ("2021",)) for l in ATTRS + [f"#![deny({l})]" for l in lints]]
        good = list(pool.map(lambda j: lint(j[0], j[1], True), jobs))
        for (l, ed), (ok, msgs, path) in zip(jobs, good):
            e.stats["accepted"] += 1
            if not ok and lint(l, ed, False)[0]:
                e.viols.append({"key": f"C22/lint", "case": f"a crate with {l or 'no attributes'}, edition {ed}", "detail": "does not compile with the attributes, but without them: " + "; ".join(msgs[:2]), "replay": path})
    return e.result([f"{p.about}: {'accepted' if p.verdict else 'rejected: ' + (p.errors or [''])[0][:90]}" for p in progs[::max(1, len(progs) // 20)]], lints=len(lints))
