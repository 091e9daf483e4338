"""C18: what is not supported is a compile error; what is supported compiles and works."""
import itertools, json
from lib import Prog, error

MODES = ("serialize", "deserialize", "serde")
ATTRS = {"": "ext", '(tag = "t")': "int", '(tag = "t", content = "c")': "adj"}
PRE = "use crate::h::{self, A, B, What};\nuse serde::{Serialize, Deserialize};\n"
NAMED = ("(name = \"N\")", "")


def doc(rep, tag, js='{"x":1}'):
    t = json.dumps(tag)
    return {"ext": "{%s:%s}" % (t, js), "adj": '{"t":%s,"c":%s}' % (t, js), "int": '{"t":%s%s' % (t, "," + js[1:] if js.startswith("{") else "}" if js == "null" else ',"value":' + js + "}")}[rep]


def check(e, tier):
    thorough = tier == "thorough"
    progs = []

    def add(name, body, expect, key):
        progs.append(Prog(name, PRE + body, expect, key))

    RUN = "\npub fn run(o: &mut Vec<String>) {"

    # 1. the attribute on every kind of item
    items = {
        "fn": "fn f() {}", "const fn": "const fn f() {}", "struct": "struct X;", "tuple struct": "pub struct X(u8);", "enum": "enum X { V }", "union": "union X { a: u8 }",
        "mod": "mod x {}", "const": "const X: u8 = 0;", "static": "static X: u8 = 0;", "use": "use std::fmt;", "type": "type X = u8;", "extern block": "extern \"C\" {}",
        "extern crate": "extern crate std as s;", "macro_rules": "macro_rules! x { () => {} }", "macro call": "thread_local! {}", "inherent impl": "impl L {}",
        "inherent impl with fn": "impl L { fn f() {} }", "generic inherent impl": "impl<T> M<T> {}", "unsafe fn": "unsafe fn f() {}", "async fn": "async fn f() {}",
        "inherent impl for dyn": "impl dyn Q {}",
    }
    for (n, it), mode, args in itertools.product(items.items(), MODES, ("", '(tag = "t")', '(name = "n")')):
        add(f"#[typetag::{mode}{args}] on {n}", f"struct L; struct M<T>(T); trait Q {{}}\n#[typetag::{mode}{args}]\n{it}{RUN} }}", None, "item")
        if args == "" and mode == "serde":
            add(f"control for {n}", f"struct L; struct M<T>(T); trait Q {{}}\n{it}{RUN} }}", [], "control")

    # 2. generics of the trait
    gens = {"": ("", "", ""), "<T>": ("<T>", "<u8>", "<T>"), "<T = u8>": ("<T = u8>", "<u8>", ""), "<'a>": ("<'a>", "<'static>", ""), "<const N: usize>": ("<const N: usize>", "<3>", ""),
            "<T: Clone>": ("<T: Clone>", "<u8>", ""), "<T: ?Sized>": ("<T: ?Sized>", "<str>", ""), "<'a, T: 'a, const N: usize>": ("<'a, T: 'a, const N: usize>", "<'static, u8, 3>", ""),
            "<T> where": ("<T>", "<u8>", ""), "<>": ("<>", "", "")}
    for (g, (decl, use, _)), mode, (attr, rep) in itertools.product(gens.items(), MODES, ATTRS.items()):
        where = " where T: Clone" if g.endswith("where") else ""
        generic = decl not in ("", "<>")
        b = f"#[typetag::{mode}{attr}]\npub trait Tr{decl}: What{where} {{}}\n#[typetag::{mode}]\nimpl Tr{use} for A {{}}\n#[typetag::{mode}]\nimpl Tr{use} for B {{}}{RUN}"
        if generic and mode != "serialize":
            add(f"{mode}{attr} trait Tr{g}", b + "}", None, "generic-trait")
            continue
        ex = []
        if mode != "deserialize":
            b += f"o.push(h::ser(&A {{ x: 1 }} as &dyn Tr{use})); o.push(h::ser(&(Box::new(B {{ x: 1 }}) as Box<dyn Tr{use} + Send + Sync>)));"
            ex += [doc(rep, "A"), doc(rep, "B")]
        if mode != "serialize":
            b += f"o.push(h::known::<Box<dyn Tr{use}>>(r#\"{doc(rep, '?')}\"#)); o.push(h::de::<Box<dyn Tr{use}>>(r#\"{doc(rep, 'B')}\"#, |t| t.what()));"
            ex += ["A,B", "B1"]
        add(f"{mode}{attr} trait Tr{g}", b + "}", ex, "generic-trait")
        if generic:
            # generic over the trait's parameter too
            pass
    # one generic trait, several instances, generic impls of it
    for attr, rep in ATTRS.items():
        b = f"""#[typetag::serialize{attr}] pub trait Tr<T> {{}}
#[typetag::serialize] impl Tr<u8> for A {{}}
#[typetag::serialize(name = "A as u16")] impl Tr<u16> for A {{}}
#[typetag::serialize] impl<T> Tr<T> for B where T: Clone {{}}{RUN}
o.push(h::ser(&A {{ x: 1 }} as &dyn Tr<u8>)); o.push(h::ser(&A {{ x: 1 }} as &dyn Tr<u16>)); o.push(h::ser(&B {{ x: 1 }} as &dyn Tr<String>)); o.push(h::ser(&B {{ x: 1 }} as &(dyn Tr<[u8; 2]> + Send))); }}"""
        add(f"serialize{attr} trait Tr<T>, many impls", b, [doc(rep, "A"), doc(rep, "A as u16"), doc(rep, "B"), doc(rep, "B")], "generic-trait")

    # 3. generics of the impl
    gty = "#[derive(Serialize, Deserialize)] pub struct G<T> { pub x: T } impl<T> What for G<T> { fn what(&self) -> String { \"G\".into() } }\n#[derive(Serialize, Deserialize)] pub struct L<'a> { pub s: &'a str } impl<'a> What for L<'a> { fn what(&self) -> String { \"L\".into() } }\n#[derive(Serialize, Deserialize)] pub struct N<const C: usize> { pub x: u8 } impl<const C: usize> What for N<C> { fn what(&self) -> String { \"N\".into() } }\n"
    impls = {
        "impl Tr for G<u8>": (False, "G { x: 1u8 }", "G", True), "impl<> Tr for G<u8>": (False, "G { x: 1u8 }", "G", True),
        "impl<T: Serialize> Tr for G<T>": (True, "G { x: 1u8 }", "G", True),
        "impl<T> Tr for G<T> where T: Serialize + for<'x> Deserialize<'x>": (True, "G { x: 1u8 }", "G", True),
        "impl<T: Serialize + for<'x> Deserialize<'x> + 'static> Tr for G<T>": (True, "G { x: 1u8 }", "G", True),
        "impl<'a> Tr for L<'a>": (True, "L { s: \"q\" }", "L", True), "impl Tr for N<3>": (False, "N::<3> { x: 1 }", "N", True),
        "impl<const C: usize> Tr for N<C>": (True, "N::<3> { x: 1 }", "N", True),
        "impl Tr for L<'_>": (False, "L { s: \"q\" }", "L", False),
        "impl Tr for G<A> where A: Clone": (False, "G { x: A { x: 1 } }", "G", True),
    }
    for (im, (gen, val, tag, de_ok)), mode, (attr, rep) in itertools.product(impls.items(), MODES, ATTRS.items()):
        if mode != "serialize" and not gen and not de_ok:
            continue
        if mode == "deserialize" and gen and "L<" in im:
            pass
        js = '{"s":"q"}' if tag == "L" else '{"x":{"x":1}}' if "G<A>" in im else '{"x":1}'
        head = f"{gty}#[typetag::{mode}{attr}]\npub trait Tr: What {{}}\n"
        for n in ("", '(name = "N")'):
            b = head + f"#[typetag::{mode}{n}]\n{im} {{}}{RUN}"
            ex, t = [], "N" if n else tag
            if gen and mode != "serialize":
                add(f"{mode}{n}{attr} {im}", b + "}", None, "generic-impl")
                continue
            if mode != "deserialize":
                b += f"o.push(h::ser(&{val} as &dyn Tr));"
                ex.append(doc(rep, t, js))
            if mode != "serialize":
                b += f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc(rep, '?')}\"#)); o.push(h::de::<Box<dyn Tr>>(r#\"{doc(rep, t, js)}\"#, |t| t.what()));"
                ex += [t, tag]
            add(f"{mode}{n}{attr} {im}", b + "}", ex, "generic-impl")

    # 4. associated items
    assoc = {
        # item in the trait, item in the impl, rejected by typetag
        "none": ("", "", False), "method": ("fn m(&self) -> u8;", "fn m(&self) -> u8 { 1 }", False), "default method": ("fn m(&self) -> u8 { 1 }", "", False),
        "const": ("const C: u8;", "const C: u8 = 1;", True), "const with default": ("const C: u8 = 1;", "", True), "const with default, given": ("const C: u8 = 1;", "const C: u8 = 2;", True),
        "const behind method": ("fn m(&self) {} const C: u8 = 1;", "", True),
        "type": ("type T;", "type T = u8;", True), "bounded type": ("type T: Clone;", "type T = u8;", True), "sized type": ("type T: Sized;", "type T = u8;", True),
        "type where Self: Clone": ("type T where Self: Clone;", "type T = u8;", True), "type where u8: Sized": ("type T where u8: Sized;", "type T = u8 where u8: Sized;", True),
        "type behind method": ("fn m(&self) {} type T;", "type T = u8;", True),
        "Sized type": ("type T where Self: Sized;", "type T = u8;", False), "Sized bounded type": ("type T: Clone where Self: Sized;", "type T = u8;", False),
        "Sized + Clone type": ("type T where Self: Sized + Clone;", "type T = u8;", False), "Clone + Sized type": ("type T where Self: Clone + Sized;", "type T = u8;", False),
        "two predicates": ("type T where Self: Clone, Self: Sized;", "type T = u8;", False), "foreign predicate first": ("type T where u8: Copy, Self: Sized;", "type T = u8 where u8: Copy;", False),
        "generic type": ("type T<X>;", "type T<X> = X;", True), "Sized generic type": ("type T<X> where Self: Sized;", "type T<X> = X;", False),
        "lifetime type": ("type T<'a>;", "type T<'a> = &'a u8;", True), "Sized lifetime type": ("type T<'a> where Self: Sized + 'a;", "type T<'a> = &'a u8 where Self: 'a;", False),
        "two Sized types": ("type T where Self: Sized; type U where Self: Sized;", "type T = u8; type U = u8;", False),
        "Sized type, then type": ("type T where Self: Sized; type U;", "type T = u8; type U = u8;", True), "type, then Sized type": ("type U; type T where Self: Sized;", "type T = u8; type U = u8;", True),
        "Sized type and const": ("type T where Self: Sized; const C: u8;", "type T = u8; const C: u8 = 1;", True),
        "Sized method": ("fn m() -> Self where Self: Sized;", "fn m() -> Self { A { x: 9 } }", False), "generic Sized method": ("fn m<Q>(&self, q: Q) -> Q where Self: Sized { q }", "", False),
        "method that is not object safe": ("fn m() -> Self;", "fn m() -> Self { A { x: 9 } }", True), "generic method": ("fn m<Q>(&self, q: Q) -> Q { q }", "", True),
        "Sized supertrait": ("SIZED", "", True),
        "lifetime method": ("fn m<'a>(&'a self, s: &'a str) -> &'a str { s }", "", False), "self: Box<Self>": ("fn m(self: Box<Self>) -> u8 { 1 }", "", False),
        "unsafe method": ("unsafe fn m(&self) {}", "unsafe fn m(&self) {}", False), "extern method": ("extern \"C\" fn m(&self) {}", "", False),
        "doc and cfg": ("/// doc\n#[cfg(all())] fn m(&self) {} #[cfg(any())] const NO: u8;", "", None),
        "extra const in impl": ("", "const C: u8 = 1;", True), "extra type in impl": ("", "type T = u8;", True), "extra method in impl": ("", "fn m(&self) {}", True),
    }
    for (n, (it, im, rejected)), mode, (attr, rep) in itertools.product(assoc.items(), MODES, ATTRS.items()):
        if rejected is None:
            continue
        sup = " + Sized" if it == "SIZED" else ""
        it = "" if it == "SIZED" else it
        b = f"#[typetag::{mode}{attr}]\npub trait Tr: What{sup} {{ {it} }}\n#[typetag::{mode}]\nimpl Tr for A {{ {im} }}{RUN}"
        ex = []
        if not rejected and mode != "deserialize":
            b += "o.push(h::ser(&A { x: 1 } as &dyn Tr));"
            ex.append(doc(rep, "A"))
        if not rejected and mode != "serialize":
            b += f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc(rep, '?')}\"#)); o.push(h::de::<Box<dyn Tr>>(r#\"{doc(rep, 'A')}\"#, |t| t.what()));"
            ex += ["A", "A1"]
        add(f"{mode}{attr} associated: {n}", b + "}", None if rejected else ex, "associated")
    # without the attribute the rejected ones are fine, so typetag is what rejects them
    for n, (it, im, rejected) in assoc.items():
        if it != "SIZED" and "extra" not in n and rejected is not None:
            add(f"control: associated {n}", f"pub trait Tr: What {{ {it} }}\nimpl Tr for A {{ {im} }}{RUN} }}", [], "control")

    # 5. types with and without a last path segment
    types = {
        "A": ("A { x: 1 }", '{"x":1}', "A"), "(u8, u8)": ("(1u8, 2u8)", "[1,2]", None), "[u8; 2]": ("[1u8, 2]", "[1,2]", None), "()": ("()", "null", None),
        "<A as I>::T": ("B { x: 1 }", '{"x":1}', None), "<B as I>::U": ("1u8", "1", None),
        "&'static str": ("\"q\"", '"q"', None), "Vec<(u8,)>": ("vec![(1u8,)]", "[[1]]", "Vec"), "[u8]": (None, "[1]", None), "str": (None, '"q"', "str"),
        "dyn Z": (None, "1", None), "Box<dyn Z>": ("Box::new(A { x: 1 }) as Box<dyn Z>", '{"A":{"x":1}}', "Box"), "[A; 1]": ("[A { x: 1 }]", '[{"x":1}]', None),
    }
    unsized = ("[u8]", "str", "dyn Z")
    for (ty, (val, js, seg)), mode, (attr, rep), n in itertools.product(types.items(), MODES, ATTRS.items(), ("", '(name = "N")')):
        head = f"pub trait I {{ type T; type U; }} impl I for A {{ type T = B; type U = u8; }} impl I for B {{ type T = B; type U = u8; }}\n#[typetag::serde] pub trait Z: std::fmt::Debug {{}} #[typetag::serde] impl Z for A {{}}\n"
        b = head + f"#[typetag::{mode}{attr}]\npub trait Tr {{}}\n#[typetag::{mode}{n}]\nimpl Tr for {ty} {{}}{RUN}"
        tag = "N" if n else seg
        # `str` and the like cannot be behind Box<dyn Tr>, nor a borrowed type be owned
        no_de = mode != "serialize" and (ty in unsized or ty.startswith("&"))
        if tag is None or no_de:
            add(f"{mode}{n}{attr} impl for {ty}", b + "}", None, "unnamed")
            continue
        ex = []
        if mode != "deserialize" and val:
            b += f"o.push(h::ser(&({val}) as &dyn Tr));"
            ex.append(doc(rep, tag, js))
        if mode != "serialize":
            b += f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc(rep, '?')}\"#)); o.push(h::de::<Box<dyn Tr>>(r#\"{doc(rep, tag, js)}\"#, |_| \"ok\".into()));"
            ex += [tag, "ok"]
        add(f"{mode}{n}{attr} impl for {ty}", b + "}", ex, "unnamed")

    # 6. types that lack Serialize or Deserialize
    for lack, mode, (attr, rep) in itertools.product(("Serialize", "Deserialize", "both", "none"), MODES, ATTRS.items()):
        der = {"Serialize": "#[derive(Deserialize)]", "Deserialize": "#[derive(Serialize)]", "both": "", "none": "#[derive(Serialize, Deserialize)]"}[lack]
        bad = (mode != "deserialize" and lack in ("Serialize", "both")) or (mode != "serialize" and lack in ("Deserialize", "both"))
        b = f"{der} pub struct X {{ pub x: u8 }}\n#[typetag::{mode}{attr}] pub trait Tr {{}}\n#[typetag::{mode}] impl Tr for X {{}}{RUN}"
        ex = []
        if not bad and mode != "deserialize":
            b += "o.push(h::ser(&X { x: 1 } as &dyn Tr));"
            ex.append(doc(rep, "X"))
        if not bad and mode != "serialize":
            b += f"o.push(h::de::<Box<dyn Tr>>(r#\"{doc(rep, 'X')}\"#, |_| \"ok\".into()));"
            ex.append("ok")
        add(f"{mode}{attr} impl for a type lacking {lack}", b + "}", None if bad else ex, "lacking")

    # 7. the attribute on the trait against the attribute on the impl, with another impl that is right
    for tm, im, (attr, rep), n, body in itertools.product((None, *MODES), (None, *MODES), ATTRS.items(), ("", '(name = "N")'), ("", "fn own(&self) {}")):
        if tm is None and attr or im is None and n:
            continue
        ta = f"#[typetag::{tm}{attr}]" if tm else ""
        ia = f"#[typetag::{im}{n}]" if im else ""
        b = f"{ta}\npub trait Tr: What {{ fn own(&self) {{}} }}\n{ia}\nimpl Tr for A {{ {body} }}\n" + (f"#[typetag::{tm}]\n" if tm else "") + f"impl Tr for B {{}}{RUN}"
        ex = []
        tag = "N" if n else "A"
        if tm == im and tm:
            if tm != "deserialize":
                b += "o.push(h::ser(&A { x: 1 } as &dyn Tr));"
                ex.append(doc(rep, tag))
            if tm != "serialize":
                b += f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc(rep, '?')}\"#)); o.push(h::de::<Box<dyn Tr>>(r#\"{doc(rep, tag)}\"#, |t| t.what()));"
                ex += [",".join(sorted([tag, "B"])), "A1"]
        add(f"trait {ta or 'plain'}, impl {ia or 'plain'}", b + "}", ex if tm == im else None, "missing-attribute")
    # a missing attribute among many impls, wherever it is
    for mode, k, n in itertools.product(MODES, range(4), (4,)):
        for missing in (True, False):
            tys = ["A", "B", "u8", "String"]
            b = f"#[typetag::{mode}] pub trait Tr {{}}\n" + "\n".join(("" if missing and i == k else f"#[typetag::{mode}] ") + f"impl Tr for {t} {{}}" for i, t in enumerate(tys)) + RUN
            ex = []
            if mode != "serialize" and not missing:
                b += f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc('ext', '?')}\"#));"
                ex = ["A,B,String,u8"]
            add(f"{mode}: impl {k} of 4 {'lacks' if missing else 'has'} the attribute", b + "}", None if missing else ex, "missing-attribute")
    # blanket impls and impls for trait objects carry no attribute of their own
    for mode in MODES:
        add(f"{mode}: blanket impl without the attribute", f"#[typetag::{mode}] pub trait Tr {{}}\nimpl<T: What + Serialize + for<'a> Deserialize<'a>> Tr for T {{}}{RUN} }}", None, "missing-attribute")
        add(f"{mode}: negative impl", f"#[typetag::{mode}] pub trait Tr {{}}\n#[typetag::{mode}] impl !Tr for A {{}}{RUN} }}", None, "item")

    e.run(progs, chunk=100, link=50)
    return e.result([f"{p.about}: {'accepted' if p.verdict else 'rejected: ' + (p.errors or [''])[0][:90]}" for p in progs[::max(1, len(progs) // 20)]])
