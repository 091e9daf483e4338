"""C09: a tag claimed by more than one impl is never decoded."""
import itertools, json
import lib
from lib import Prog, error

REPS = {"": ("ext", None), '(tag = "t")': ("int", None), '(tag = "t", default_variant = "A")': ("int", "A"), '(tag = "t", default_variant = "B")': ("int", "B"),
        '(tag = "t", content = "c")': ("adj", None), '(tag = "t", content = "c", default_variant = "A")': ("adj", "A"),
        '(tag = "t", content = "c", default_variant = "B", deny_unknown_fields)': ("adj", "B"), '(tag = "t", content = "c", deny_unknown_fields)': ("adj", None)}
TYPES = "".join(f"#[derive(serde::Serialize, serde::Deserialize)] pub struct I{i} {{ pub x: i32 }} impl What for I{i} {{ fn what(&self) -> String {{ format!(\"I{i}.{{}}\", self.x) }} }}\n" for i in range(6))
# how a name comes to be the same as another one
SPELL = [lambda t: json.dumps(t), lambda t: f"concat!({json.dumps(t)})", lambda t: "r\"%s\"" % t, lambda t: "{ const K: &str = \"%s\"; K }" % t, lambda t: json.dumps(t), lambda t: "stringify!(%s)" % t]


def doc(rep, tag, x):
    js = '{"x":%d}' % x
    t = json.dumps(tag)
    return {"ext": "{%s:%s}" % (t, js), "adj": '{"t":%s,"c":%s}' % (t, js), "int": '{"t":%s,"x":%d}' % (t, x)}[rep]


def nodoc(rep, x):
    return {"adj": '{"c":{"x":%d}}' % x, "int": '{"x":%d}' % x}[rep]


def check(e, tier):
    thorough = tier == "thorough"
    lib.HELPERS += "pub mod ty { use crate::h::What;\n" + TYPES + "}\n"
    progs = []

    def ambiguous(tag):
        f = lambda got: got.startswith("!") and "unique" in got and tag in got
        f.about = f"an error saying that {tag} is not unique"
        return f

    def prog(assign, attr, mode, order):
        """assign: the tag of each impl; order: in which the impls are written."""
        rep, default = REPS[attr]
        b = ["use crate::h::{self, What}; use crate::ty::*;"]
        tys = [f"I{i}" for i in range(len(assign))]
        b.append(f"#[typetag::{mode}{attr}] pub trait Tr: What {{}}\n#[typetag::{mode}{attr}] pub trait Ctl: What {{}}")
        for i in order:
            b.append(f"#[typetag::{mode}(name = {SPELL[i](assign[i])})] impl Tr for {tys[i]} {{}}")
        # the same types under unique tags of another trait, and the shared tags once each
        for i in order[:2]:
            b.append(f"#[typetag::{mode}(name = \"{'AB'[order[:2].index(i)]}\")] impl Ctl for {tys[i]} {{}}")
        b.append("pub fn run(o: &mut Vec<String>) {")
        ex = []

        def de(tr, d, want):
            b.append(f"o.push(h::de::<Box<dyn {tr}>>(r#\"{d}\"#, |t| t.what()));")
            ex.append(want)

        if mode != "deserialize":
            for i, t in enumerate(assign):
                b.append(f"o.push(h::ser(&{tys[i]} {{ x: {i} }} as &dyn Tr));")
                ex.append(doc(rep, t, i))
        for round_ in range(2):
            for t in "ABCZ" if round_ == 0 else "CBAZ":
                owners = [i for i, a in enumerate(assign) if a == t]
                de("Tr", doc(rep, t, 3), f"I{owners[0]}.3" if len(owners) == 1 else ambiguous(t) if owners else error(f"`{t}`"))
            if rep != "ext":
                owners = [i for i, a in enumerate(assign) if a == default]
                de("Tr", nodoc(rep, 4), error("t") if default is None else f"I{owners[0]}.4" if len(owners) == 1 else ambiguous(default) if owners else error("`" + default + "`"))
            for k, t in enumerate("AB"):
                if k < len(order[:2]):
                    de("Ctl", doc(rep, t, 5), f"I{order[k]}.5")
        b.append(f"o.push(h::known::<Box<dyn Tr>>(r#\"{doc(rep, '?', 0)}\"#));")
        tags = sorted(set(assign))

        def names(got):
            xs = got.split(",")
            return sorted(set(xs)) == tags and xs == sorted(xs)

        names.about = "the tags " + ",".join(tags)
        ex.append(names)
        b.append("}")
        progs.append(Prog(f"{mode}{attr} impls tagged {','.join(assign)} written in order {order}", "\n".join(b), ex, "tags"))

    for mode in ("serde", "deserialize"):
        for attr in REPS:
            for n, alphabet in ((1, "AB"), (2, "AB"), (3, "ABC"), (4, "AB"), *(((4, "ABC"), (5, "AB"), (6, "AB")) if thorough else ((5, "A"), (6, "A")))):
                for assign in itertools.product(alphabet, repeat=n):
                    if n == 3 and mode == "deserialize" and not thorough and "C" in assign:
                        continue
                    orders = [tuple(range(n))]
                    if thorough and n == 3:
                        orders = list(itertools.permutations(range(n)))
                    elif n == 3 and mode == "serde":
                        orders.append((2, 1, 0))
                    for order in orders:
                        prog(assign, attr, mode, order)
    # tags that are the same without a name argument
    cases = [("Vec<u8>", "Vec<i8>", "Vec", "[1]"), ("super::h::A", "m::A", "A", '{"x":1}'), ("Box<u8>", "Box<i8>", "Box", "1"), ("m::A", "m::n::A", "A", '{"x":1}'), ("Al", "m::Al", "Al", "1"), ("f64", "m::k::f64", "f64", "1")]
    for t1, t2, tag, js in cases:
        for attr, (rep, default) in REPS.items():
            for flip in (False, True):
                a, c = (t2, t1) if flip else (t1, t2)
                d = {"ext": '{"%s":%s}' % (tag, js), "adj": '{"t":"%s","c":%s}' % (tag, js), "int": '{"t":"%s",%s' % (tag, js[1:] if js[0] == "{" else '"value":' + js + "}")}[rep]
                for third in ("", f"#[typetag::serde(name = \"{tag}\")] impl Tr for String {{}}"):
                    b = f"""use crate::h; pub mod m {{ #[derive(serde::Serialize, serde::Deserialize)] pub struct A {{ x: u8 }}
pub type Al = i16; pub mod n {{ #[derive(serde::Serialize, serde::Deserialize)] pub struct A {{ x: u8 }} }} pub mod k {{ #[allow(non_camel_case_types)] #[derive(serde::Serialize, serde::Deserialize)] pub struct f64(i8); }} }}
pub type Al = i32;
#[typetag::serde{attr}] pub trait Tr {{}}
#[typetag::serde] impl Tr for {a} {{}}
#[typetag::serde] impl Tr for {c} {{}}
{third}
#[typetag::serde] impl Tr for bool {{}}
pub fn run(o: &mut Vec<String>) {{ o.push(h::de::<Box<dyn Tr>>(r#"{d}"#, |t| h::ser(&t)));
o.push(h::de::<Box<dyn Tr>>(r#"{ {"ext": '{"bool":true}', "adj": '{"t":"bool","c":true}', "int": '{"t":"bool","value":true}'}[rep] }"#, |_| "ok".into())); }}"""
                    progs.append(Prog(f"serde{attr} impl for {a} and for {c}{' and a named one' if third else ''}", b, [ambiguous(tag), "ok"], "paths"))
    e.run(progs, chunk=60, link=60)
    return e.result([f"{p.about}: {'; '.join((p.out or [''])[:4])[:160]}" for p in progs[::max(1, len(progs) // 12)]])
