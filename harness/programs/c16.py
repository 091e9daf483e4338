"""C16: attribute arguments are accepted as documented and mean what they say."""
import itertools, json
from lib import Prog, error

# argument text -> what it is: (kind, value), or None for one that is never right
VALID = {
    'tag = "t"': ("tag", "t"),
    'tag = "k"': ("tag", "k"),
    'content = "c"': ("content", "c"),
    'content = "d"': ("content", "d"),
    'default_variant = "A"': ("default", "A"),
    'default_variant = "Z"': ("default", "Z"),
    "deny_unknown_fields": ("deny", True),
}
CORE = ['tag = "t"', 'content = "c"', 'default_variant = "A"', "deny_unknown_fields"]
JUNK = ['name = "A"', "tag", "tag = 1", "tag = T", 'tag("t")', "content", "content = 1", "default_variant", "default_variant = A",
        "deny_unknown_fields = true", "deny_unknown_fields()", '"t"', "untagged", 'rename = "x"', 'type = "t"', "tag = \"t\".len()",
        'tag = concat!("t")', 'tag = b"t"', "tag = 't'", 'Tag = "t"', 'tag == "t"', 'tag: "t"']


def meaning(args):
    """What a list of valid arguments states, or None if it is not one of the documented lists."""
    kinds = [k for k, _ in args]
    if not kinds:
        return {"rep": "ext"}
    if kinds[0] != "tag":
        return None
    if kinds[1:2] == ["content"]:
        rest = kinds[2:]
        if len(set(rest)) != len(rest) or not set(rest) <= {"default", "deny"}:
            return None
        d = dict(args)
        return {"rep": "adj", **d}
    if kinds[1:] in ([], ["default"]):
        return {"rep": "int", **dict(args)}
    return None


# what an argument list may be written with, and what may stray into it
ALPHABET = ["tag", "content", "default_variant", "deny_unknown_fields", "name", "=", ",", '"t"', '"c"', ";", "x", "1", "()", "::", "-", "_", "#", "dyn"]


def stated(toks):
    """What tokens state, or None if they are not a list of arguments."""
    args, cur = [], []
    for t in toks:
        if t == ",":
            args.append(" ".join(cur))
            cur = []
        else:
            cur.append(t)
    if cur or not toks:
        args.append(" ".join(cur))
    if args == [""]:
        return {"rep": "ext"} if not toks else None
    r = []
    for a in args:
        k, eq, v = a.partition(" = ")
        if a == "deny_unknown_fields":
            r.append(("deny", True))
        elif k in ("tag", "content", "default_variant") and len(v) == 3 and v[0] == v[2] == '"':
            r.append(({"default_variant": "default"}.get(k, k), v[1]))
        else:
            return None
    return meaning(r)


def edits(toks):
    """Every list one token away."""
    n = len(toks)
    for i in range(n + 1):
        for a in ALPHABET:
            yield toks[:i] + [a] + toks[i:]
            if i < n and toks[i] != a:
                yield toks[:i] + [a] + toks[i + 1:]
        if i < n:
            yield toks[:i] + toks[i + 1:]
        for j in range(i + 1, n):
            yield toks[:i] + [toks[j]] + toks[i + 1:j] + [toks[i]] + toks[j + 1:]


ENTRIES = [("t", "A"), ("t", "B"), ("t", "Q"), ("k", "A"), ("c", {"x": 1}), ("d", {"x": 2}), ("x", 3), ("A", {"x": 4}), ("B", {"x": 5}), ("u", 6)]


def docs(depth):
    r = []
    for n in range(depth + 1):
        for es in itertools.permutations(ENTRIES, n):
            if len({k for k, _ in es}) == n:
                r.append(list(es))
    return r


def decode(m, es):
    """What the documentation says an object with these entries is, or None for an error."""
    known = ("A", "B")

    def typ(tag, v):
        if tag not in known or not isinstance(v, dict) or "x" not in v:
            return None
        return f"{tag}{v['x']}"

    if m["rep"] == "ext":
        return typ(es[0][0], es[0][1]) if len(es) == 1 else None
    d = dict(es)
    tag = d.get(m["tag"], m.get("default"))
    if tag is None:
        return None
    if m["rep"] == "int":
        return typ(tag, {k: v for k, v in es if k != m["tag"]})
    if m.get("deny") and any(k not in (m["tag"], m["content"]) for k in d):
        return None
    if m["content"] not in d:
        return None
    return typ(tag, d[m["content"]])


def written(m, tag, x):
    if m["rep"] == "ext":
        return json.dumps({tag: {"x": x}}, separators=(",", ":"))
    if m["rep"] == "int":
        return json.dumps({m["tag"]: tag, "x": x}, separators=(",", ":"))
    return json.dumps({m["tag"]: tag, m["content"]: {"x": x}}, separators=(",", ":"))


MODES = ("serialize", "deserialize", "serde")


def source(mode, args, ds=None):
    """A trait with these arguments, two impls, and probes."""
    b = ["use crate::h::{self, A, B, What};"]
    par = f"({args})" if args is not None else ""
    b.append(f"#[typetag::{mode}{par}]\npub trait Tr: What {{}}")
    b.append(f"#[typetag::{mode}]\nimpl Tr for A {{}}\n#[typetag::{mode}]\nimpl Tr for B {{}}")
    b.append("pub fn run(o: &mut Vec<String>) {")
    if mode != "deserialize":
        b.append("o.push(h::ser(&A { x: 7 } as &dyn Tr)); o.push(h::ser(&B { x: -8 } as &dyn Tr));")
    if mode != "serialize":
        b.append("let mut all = String::new();")
        b.append("for d in crate::docs() { let r = h::de::<Box<dyn Tr>>(d, |t| t.what()); all.push_str(if r.starts_with('!') { \"!\" } else { &r }); all.push(' '); }")
        b.append("o.push(all);")
    b.append("}")
    return "\n".join(b)


def check(e, tier):
    import lib
    thorough = tier == "thorough"
    depth = 3
    ds = docs(depth)
    texts = ["{" + ",".join(f"{json.dumps(k)}:{json.dumps(v, separators=(',', ':'))}" for k, v in es) + "}" for es in ds]
    lib.HELPERS += "pub fn docs() -> &'static [&'static str] { &[\n" + "".join(f"r##\"{t}\"##,\n" for t in texts) + "] }\n"
    progs = []

    def expect(mode, m):
        r = []
        if mode != "deserialize":
            r += [written(m, "A", 7), written(m, "B", -8)]
        if mode != "serialize":
            r.append("".join((decode(m, es) or "!") + " " for es in ds))
        return r

    def trait(mode, args, m, key):
        progs.append(Prog(f"trait {mode} {args}", source(mode, args), None if m is None else expect(mode, m), key,
                          about=f"#[typetag::{mode}({args})] trait" if args is not None else f"#[typetag::{mode}] trait"))

    # every list of arguments to a length, with every separator
    for mode in MODES:
        trait(mode, None, {"rep": "ext"}, "trait")
        trait(mode, ",", None, "separators")
        lists = []
        for n in range(0, 4):
            lists += itertools.product(list(VALID) + (JUNK if n < 3 or thorough else []), repeat=n)
        if mode == "serde" or thorough:
            lists += itertools.product(CORE, repeat=4)
            lists += itertools.product(CORE, repeat=5) if thorough else []
        if thorough:
            lists += itertools.product(VALID, repeat=4)
        for xs in dict.fromkeys(lists):
            m = meaning([VALID[x] for x in xs]) if all(x in VALID for x in xs) else None
            trait(mode, ", ".join(xs), m, "trait")
            if m and xs:
                trait(mode, ", ".join(xs) + ",", m, "separators")
                trait(mode, ", ".join(xs) + ",,", None, "separators")
                trait(mode, ", " + ", ".join(xs), None, "separators")
                trait(mode, "; ".join(xs) + ";", None, "separators")
                if len(xs) > 1:
                    for i in range(1, len(xs)):
                        for sep in (" ", ",, ", "; "):
                            trait(mode, ", ".join(xs[:i]) + sep + ", ".join(xs[i:]), None, "separators")

    # every list one token away from a right one
    right = ['tag = "t"', 'tag = "t" , default_variant = "A"', 'tag = "t" , content = "c"', 'tag = "t" , content = "c" , default_variant = "A"', 'tag = "t" , content = "c" , deny_unknown_fields',
             'tag = "t" , content = "c" , default_variant = "A" , deny_unknown_fields', 'tag = "t" , content = "c" , deny_unknown_fields , default_variant = "A"']
    for mode in MODES if thorough else ("serde", "deserialize"):
        seen = set()
        for r in right if mode == "serde" or thorough else right[5:6]:
            for e1 in edits(r.split()):
                for xs in edits(e1) if thorough and mode == "serde" and len(r) < 12 else [e1]:
                    text = " ".join(xs)
                    if text in seen or not xs:
                        continue
                    seen.add(text)
                    m = stated(xs)
                    if m and m.get("tag") is not None and m.get("tag") == m.get("content"):
                        continue
                    trait(mode, text, m, "tokens")

    # forms of the literals
    forms = ['"%s"', 'r"%s"', 'r#"%s"#', 'r##"%s"##']
    texts_ = {"t": ["t", "\\u{74}", "\\x74"], "": [""], "\u00e9 \"q\"": ["\u00e9 \\\"q\\\""], "a\nb": ["a\\nb"], "type": ["type"], "\\": ["\\\\"]}
    for val, spell in texts_.items():
        for s in spell:
            for f in forms:
                if f != '"%s"' and ("\\" in s):
                    continue
                lit = f % s
                for mode in MODES:
                    for slot in ("tag", "content", "default_variant"):
                        m = {"rep": "adj", "tag": "t", "content": "c", "default": "A"}
                        m[{"tag": "tag", "content": "content", "default_variant": "default"}[slot]] = val
                        if m["tag"] == m["content"]:
                            continue
                        a = {"tag": '"t"', "content": '"c"', "default_variant": '"A"', slot: lit}
                        body = source(mode, ", ".join(f"{k} = {v}" for k, v in a.items()))
                        ex = expect(mode, m)
                        ex = [x.encode().decode() for x in ex]
                        if mode != "deserialize":
                            ex[:2] = [json.dumps({m["tag"]: t, m["content"]: {"x": v}}, separators=(",", ":"), ensure_ascii=False) for t, v in (("A", 7), ("B", -8))]
                        progs.append(Prog(f"literal {mode} {slot} {lit}", body, ex, "literals", about=f"#[typetag::{mode}(... {slot} = {lit} ...)] trait"))
    # brackets of the attribute
    for mode in MODES:
        for l, r in (("(", ")"), ("[", "]"), ("{", "}")):
            for args, m in (("", {"rep": "ext"}), ('tag = "t"', {"rep": "int", "tag": "t"}), ('tag = "t", content = "c"', {"rep": "adj", "tag": "t", "content": "c"})):
                body = source(mode, None).replace(f"#[typetag::{mode}]\npub trait", f"#[typetag::{mode}{l}{args}{r}]\npub trait")
                progs.append(Prog(f"brackets {mode} {l} {args}", body, expect(mode, m), "brackets"))
        progs.append(Prog(f"equals {mode}", source(mode, None).replace(f"#[typetag::{mode}]\npub trait", f"#[typetag::{mode} = \"t\"]\npub trait"), None, "brackets"))

    # arguments of impls
    IV = {'name = "N"': "N", 'name = concat!("N", "2")': "N2", "name = K": "KK", "name = { K }": "KK"}
    IJ = ["name", "name = 1", "name()", 'tag = "t"', 'content = "c"', 'default_variant = "A"', "deny_unknown_fields", '"N"', "N", 'rename = "N"', 'name: "N"', "name = b\"N\"", "name = 'N'", 'Name = "N"', "name ="]
    ilists = [()]
    for n in (1, 2, 3):
        ilists += itertools.product(list(IV) + IJ, repeat=n) if n < 3 or thorough else itertools.product(list(IV)[:1] + IJ[:4], repeat=n)
    reps = {"": {"rep": "ext"}, '(tag = "t")': {"rep": "int", "tag": "t"}, '(tag = "t", content = "c")': {"rep": "adj", "tag": "t", "content": "c"}}

    def impl(mode, args, name, rep, key="impl"):
        par = "" if args is None else f"({args})"
        m = reps[rep]
        b = ["use crate::h::{self, A, B, What};", "const K: &str = \"KK\";", f"#[typetag::{mode}{rep}]\npub trait Tr: What {{}}",
             f"#[typetag::{mode}{par}]\nimpl Tr for A {{}}", "pub fn run(o: &mut Vec<String>) {"]
        ex = []
        if mode != "deserialize":
            b.append("o.push(h::ser(&A { x: 7 } as &dyn Tr));")
            ex.append(written(m, name, 7) if name else "")
        if mode != "serialize":
            for t in ("A", "N", "N2", "KK", "K"):
                b.append(f"o.push(h::de::<Box<dyn Tr>>(r#\"{written(m, t, 5)}\"#, |t| t.what()));")
                ex.append("A5" if t == name else error(t))
        b.append("}")
        progs.append(Prog(f"impl {mode} {args} {rep}", "\n".join(b), ex if name else None, key, about=f"#[typetag::{mode}{par}] impl of a #[typetag::{mode}{rep}] trait"))

    for mode in MODES:
        for rep in reps:
            impl(mode, None, "A", rep)
            for xs in ilists:
                if len(xs) > 1 and rep and not thorough:
                    continue
                name = "A" if not xs else IV.get(xs[0]) if len(xs) == 1 else None
                impl(mode, ", ".join(xs), name, rep)
                if name and xs:
                    impl(mode, xs[0] + ",", name, rep, "separators")
                    impl(mode, xs[0] + ",,", None, rep, "separators")
                    impl(mode, "," + xs[0], None, rep, "separators")
                    impl(mode, xs[0] + ";", None, rep, "separators")
        impl(mode, ",", None, "", "separators")
        for xs in edits(['name', '=', '"N"']):
            text = " ".join(xs)
            name = {'name = "N"': "N", 'name = "N" ,': "N", 'name = "t"': "t", 'name = "c"': "c"}.get(text)
            impl(mode, text, name, "", "tokens")

    e.run(progs, chunk=400, link=60)

    # what one mode writes, the other mode reads
    wire = []
    for args, m in (("", {"rep": "ext"}), ('(tag = "t")', {"rep": "int", "tag": "t"}), ('(tag = "t", default_variant = "B")', {"rep": "int", "tag": "t"}),
                    ('(tag = "t", content = "c")', {"rep": "adj", "tag": "t", "content": "c"}), ('(tag = "t", content = "c", deny_unknown_fields)', {"rep": "adj", "tag": "t", "content": "c"}),
                    ('(tag = "t", content = "c", default_variant = "B", deny_unknown_fields)', {"rep": "adj", "tag": "t", "content": "c"})):
        b = ["use crate::h::{self, A, B, What};"]
        for mode in MODES:
            b.append(f"pub mod m_{mode} {{ use crate::h::{{A, B, What}};\n#[typetag::{mode}{args}]\npub trait Tr: What {{}}\n#[typetag::{mode}]\nimpl Tr for A {{}}\n#[typetag::{mode}]\nimpl Tr for B {{}} }}")
        b.append("pub fn run(o: &mut Vec<String>) {")
        ex = []
        for w in ("serialize", "serde"):
            for r in ("deserialize", "serde"):
                for t in "AB":
                    for f, g in (("ser", "de"), ("hex", "unhex")):
                        b.append(f"let w = h::{f}(&{t} {{ x: 9 }} as &dyn m_{w}::Tr); o.push(h::{g}::<Box<dyn m_{r}::Tr>>(&w, |t| t.what()));")
                        if g == "unhex" and m["rep"] == "int" and False:
                            pass
                        ex.append(f"{t}9")
        b.append("}")
        wire.append(Prog(f"wire {args}", "\n".join(b), ex, "modes", about=f"modes with {args}"))
    e.run(wire)
    return e.result([f"{p.about}: {'accepted' if p.verdict else 'rejected: ' + (p.errors or [''])[0][:80]}" for p in progs[3:900:97]],
                    documents_per_accepted_trait=len(ds), argument_lists=len(progs))
